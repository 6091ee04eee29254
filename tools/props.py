"""The property list. tools/gen.py writes properties.jsonl and MANIFEST.json from it."""

PROPS = []
NOT_CLAIMED = {}  # id -> reason
TECH = {}  # id -> (technique, level_note)


def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique="", note=""):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe), "hook_needed": None,
        },
    })
    TECH[id] = (technique, note)


S = "src/litdata/"

P("C01", "Every sample read back is the sample written",
  "Whatever nested structure of dictionaries, lists and tuples a dataset's samples have, and whatever values they hold "
  "(numbers, strings, bytes, arrays and tensors of any type, shape and memory layout, images, files, any other picklable "
  "object), reading the written dataset returns samples with the same structure, types and values, which share no memory "
  "with the dataset or each other. What can't be stored is refused when it is written.",
  ["inputs"],
  "every tree of containers and every leaf value, for every chunk size",
  "Tests write a dozen fixed samples; types, layouts, shapes, nestings and their combinations are unbounded.",
  [S + "streaming/serializers.py", S + "streaming/writer.py", S + "streaming/item_loader.py", S + "utilities/_pytree.py"],
  [("choice of the serializer of each leaf", S + "streaming/writer.py"), ("bytes of each kind of value", S + "streaming/serializers.py"),
   ("offsets of the leaves of a sample", S + "streaming/item_loader.py")],
  observe=["samples of StreamingDataset"],
  technique="property-based testing (hypothesis): round trip of generated trees of values",
  note="Generated search. JPEG images are compared by their decoded pixels; a tuple of JPEG images is read as a list.")

P("C02", "A sample unlike the first one is stored faithfully or refused",
  "The format of a dataset is fixed by its first sample. A later sample that differs from it in structure, key order, types "
  "or dimensions is either refused with an error when it is written, or read back with its own values at their own places; "
  "samples accepted are never silently changed, mixed up or unreadable, and a refused sample leaves the others intact.",
  ["inputs", "histories"],
  "every sequence of samples, each altered in any way from the first",
  "Tests write samples of one shape; the ways in which two samples can differ are not sampled.",
  [S + "streaming/writer.py", S + "streaming/serializers.py", S + "utilities/_pytree.py"],
  [("format of the first sample", S + "streaming/writer.py"), ("flattening along the first structure", S + "utilities/_pytree.py")],
  observe=["errors of Cache.__setitem__, samples of StreamingDataset"],
  technique="property-based testing (hypothesis): generated sequences of mutated samples against store-or-refuse",
  note="Generated search. Values equal across number types count as faithful; an image may take the format of the first one.")

P("C03", "Chunks respect their limits, and indexes add up",
  "Writing samples with a limit on the samples or the bytes of a chunk, by any number of writers, with or without compression, "
  "cuts the samples of each writer in order into chunks that reach but do not exceed the limit (one sample alone may), and "
  "the merged index lists each chunk once, in the order of writers and chunks, with the right size, length and format.",
  ["inputs", "configurations"],
  "every sequence of sample sizes, limit, compression and number of writers",
  "Tests check one chunk size with equal samples and at most ten writers.",
  [S + "streaming/writer.py", S + "streaming/cache.py"],
  [("when a chunk is closed", S + "streaming/writer.py"), ("merging the indexes of the writers", S + "streaming/writer.py")],
  observe=["index.json and the chunk files"],
  technique="property-based testing (hypothesis): generated sizes and limits against an independent packing of the chunks",
  note="Generated search with an independent parser of the chunk files.")

P("C04", "Every epoch partitions the samples over ranks and workers",
  "In each epoch, over all ranks and data-loader workers, every sample of the dataset is delivered exactly once; with "
  "drop_last every rank is delivered the same number of samples, only the remainder that cannot be shared out evenly is "
  "dropped, and nothing is duplicated. Every rank of the same job computes the same assignment. The number of samples "
  "announced for a rank is the number it delivers.",
  ["inputs", "configurations"],
  "every chunk layout and region of interest, number of nodes, ranks and workers, batch size, epoch, shuffle and drop_last",
  "The tests pin a handful of layouts and compare against stored lists; multi-node reshuffling after the first epoch and "
  "chunks shared between workers are hardly sampled.",
  [S + "utilities/shuffle.py", S + "streaming/shuffle.py", S + "utilities/dataset_utilities.py", S + "streaming/dataset.py"],
  [("assignment of chunk intervals to workers", S + "utilities/shuffle.py"), ("per-epoch chunk permutation", S + "streaming/shuffle.py")],
  observe=["iteration of StreamingDataset inside each simulated rank and worker"],
  technique="property-based testing (hypothesis): generated layouts and topologies against a set-partition oracle",
  note="Generated search over layouts and topologies; ranks and workers are simulated in one process by the variables "
  "litdata reads. A pass means no counterexample among the generated cases.")

P("C05", "Shuffling is a per-seed, per-epoch permutation confined to each share",
  "With shuffling on, the order delivered is a function of the seed, the epoch and the topology only; it permutes the "
  "samples without losing or repeating any, and it changes between epochs and between seeds. With shuffling off the "
  "order is the stored order in every epoch.",
  ["inputs", "configurations", "histories"],
  "every chunk layout, topology, seed and sequence of epochs",
  "Tests compare one or two seeds and epochs with recorded lists, on one or two layouts.",
  [S + "streaming/shuffle.py", S + "streaming/dataset.py", S + "utilities/shuffle.py"],
  [("seeded permutations of chunks and of samples in a chunk", S + "streaming/shuffle.py")],
  observe=["iteration of StreamingDataset"],
  technique="property-based testing (hypothesis): determinism, permutation and metamorphic seed/epoch relations",
  note="Generated search; 'changes' is judged only where a coincidence has probability below 1e-12.")

P("C06", "Resuming from a saved state continues exactly where it stopped",
  "A dataset or streaming data loader restored from a state saved after any number of batches goes on to deliver exactly "
  "the batches the uninterrupted run would have delivered next, through the end of that epoch and in the following "
  "epochs. This holds for any number of successive interruptions, including ones at an epoch boundary, and through "
  "saving the state to a file.",
  ["histories", "configurations", "crash_points"],
  "every layout, topology, batch size, shuffle and drop_last setting, epoch, and every sequence of interruption points",
  "Tests resume once or twice at a fixed batch of a fixed dataset; uneven workers, exhausted workers and repeated "
  "interruptions are not sampled.",
  [S + "streaming/dataset.py", S + "streaming/dataloader.py", S + "utilities/dataset_utilities.py"],
  [("state_dict / load_state_dict", S + "streaming/dataset.py"), ("sampling replay", S + "streaming/dataset.py"),
   ("batch counting per worker", S + "streaming/dataloader.py")],
  observe=["the batches of a restored StreamingDataLoader / StreamingDataset"],
  technique="property-based testing (hypothesis): generated interruption histories, differential against the uninterrupted run",
  note="Generated search over interruption histories; real data-loader workers in the loader sub-check, simulated ranks.")

P("C09", "Subsampling delivers exactly the requested fraction, without repeats",
  "A dataset restricted to a fraction f of its samples announces and delivers f times its number of samples (within one), "
  "each of the whole passes containing every sample once and the remaining part containing distinct samples of the "
  "dataset. The selection is the same for the same seed, and every way of reading the dataset (length, random access, "
  "iteration) agrees on it.",
  ["inputs", "configurations"],
  "every chunk layout, fraction below, at and above one, seed and shuffle setting",
  "Tests check lengths at a few fractions; they do not compare contents across layouts.",
  [S + "utilities/subsample.py", S + "utilities/dataset_utilities.py", S + "streaming/dataset.py"],
  [("region-of-interest sampling", S + "utilities/subsample.py")],
  observe=["len, indexing and iteration of a StreamingDataset with subsample"],
  technique="property-based testing (hypothesis): multiset oracle over generated layouts and fractions",
  note="Generated search; one sample of tolerance for the float fraction.")

P("C10", "Train/test split is a partition of the dataset's samples",
  "Splitting a dataset by fractions gives datasets that are pairwise disjoint, contain only samples of the original "
  "dataset and have the requested sizes; when the fractions add up to one they cover it. Each split behaves as a dataset "
  "of its own (length, indexing and iteration agree), and the parent is left unchanged.",
  ["inputs", "configurations"],
  "every chunk layout, list of fractions, seed, and parents that are themselves subsampled or shuffled",
  "Tests split one dataset at two or three fractions and mostly compare lengths.",
  [S + "utilities/train_test_split.py", S + "utilities/subsample.py"],
  [("splitting of chunks and regions of interest", S + "utilities/train_test_split.py")],
  observe=["len, indexing and iteration of the splits"],
  technique="property-based testing (hypothesis): set-partition oracle over generated layouts and splits",
  note="Generated search over layouts, parents and splits.")

P("C07", "A mix of datasets loses and repeats nothing and follows its weights",
  "A combined dataset that iterates over all its datasets delivers, over all ranks and workers, every sample of every "
  "dataset exactly once per epoch; one with weights delivers a beginning of every dataset's own stream, in its order, and "
  "ends when a dataset it draws from is exhausted. Datasets are drawn in proportion to their weights (never with weight "
  "zero), batch by batch from a single dataset when so asked, and reproducibly from the seed. Asking for the length changes "
  "nothing.",
  ["inputs", "configurations", "histories"],
  "every number and layout of datasets, weights, seed, batching method, topology and number of epochs",
  "Tests mix two or three toy datasets with one seed and compare recorded lists.",
  [S + "streaming/combined.py", S + "streaming/dataloader.py"],
  [("weighted sampler over dataset iterators", S + "streaming/combined.py"), ("bookkeeping stripped from batches", S + "streaming/dataloader.py")],
  observe=["iteration of CombinedStreamingDataset, directly and through StreamingDataLoader"],
  technique="property-based testing (hypothesis): merge oracle against the datasets streamed alone, statistical bounds",
  note="Generated search; proportions are judged at seven standard deviations.")

P("C08", "Resuming a mix of datasets continues exactly where it stopped",
  "A streaming data loader over a combined dataset, restored from a state saved after any number of batches, delivers "
  "exactly the batches the uninterrupted run would have delivered next, in that epoch and the following ones.",
  ["histories", "configurations", "crash_points"],
  "every number and layout of datasets, weights, batching method, topology, batch size and sequence of interruptions",
  "Tests resume one mix at a few fixed batches and mostly compare the number of batches left.",
  [S + "streaming/combined.py", S + "streaming/dataloader.py", S + "streaming/dataset.py"],
  [("per-worker counts in the loader state", S + "streaming/dataloader.py"), ("replay of the sampler", S + "streaming/combined.py")],
  observe=["the batches of a restored StreamingDataLoader"],
  technique="property-based testing (hypothesis): generated interruption histories, differential against the uninterrupted run",
  note="Generated search with real data-loader workers. One known finding: the end of an epoch of a weighted mix.")


P("C11", "Random access, slices and iteration all return the stored samples",
  "Reading any item by index, any slice, the length, and any complete or partial iteration return what was stored at those "
  "positions, whatever has been read from the dataset object before, whether the chunks are local, compressed, or fetched "
  "from a remote into a cache that holds only a few of them, and also for a copied or pickled dataset. Indices outside the "
  "dataset are refused.",
  ["inputs", "histories", "configurations"],
  "every chunk layout, storage, cache size and sequence of operations on one dataset object",
  "Tests read a fresh dataset once, in one way; sequences mixing iteration, random access and copies are not sampled.",
  [S + "streaming/dataset.py", S + "streaming/reader.py", S + "streaming/item_loader.py", S + "streaming/config.py"],
  [("chunk lookup of an index", S + "streaming/config.py"), ("file handles kept between reads", S + "streaming/item_loader.py"),
   ("requests to the background thread", S + "streaming/reader.py")],
  observe=["StreamingDataset.__getitem__, __iter__, __len__, copy, pickle"],
  technique="property-based testing (hypothesis): generated operation sequences against a list model",
  note="Generated search over operation sequences; the remote is a folder.")

P("C12", "A dataset of tokens is delivered in consecutive blocks",
  "Whatever documents (one-dimensional arrays or tensors, also empty ones) are written for TokensLoader, by any number of writers, "
  "with any chunk limit and compression, each chunk the index lists holds its documents' tokens one after the other, and reading "
  "with any block size gives each chunk's consecutive non-overlapping blocks of that size and nothing else, once per epoch, in "
  "order unless shuffled, by iteration, index, slice or several workers, also while chunks are evicted. Blocks are the reader's "
  "own: they stay valid when chunks are closed and writing into them changes no data. Items which aren't sequences of tokens of "
  "one type, and encryption, are refused.",
  ["inputs", "configurations"],
  "every list of documents, chunk limit, compression, number of writers, block size, way of reading and cache limit",
  "Tests use two block sizes dividing the chunks and never keep a block after its chunk was closed.",
  [S + "streaming/item_loader.py", S + "streaming/writer.py", S + "streaming/serializers.py"],
  [("blocks of a chunk and their memory", S + "streaming/item_loader.py"), ("chunks of tokens", S + "streaming/writer.py")],
  observe=["blocks of StreamingDataset, files and index of the dataset"],
  technique="property-based testing (hypothesis): differential against the blocks cut from the documents",
  note="Generated search; a crash of the interpreter is a violation.")

P("C13", "The rows of Parquet files are delivered as they are, once each, in order",
  "index_parquet_dataset() lists the Parquet files of a folder, local or in the cloud, in the order of their names with their numbers "
  "of rows, and touches nothing else. Reading the folder, or those of its files that match a pattern, delivers every row once per "
  "epoch with the values it holds, in order unless shuffled, in every mode of ParquetLoader, however the row groups are cut, by "
  "iteration, index, slice, workers, subsample or split, through a cache too. ParquetReader cuts the files given to map() and "
  "optimize() into parts that hold every row once, in order, also when files share their names, changed since the last run or "
  "the last run was interrupted.",
  ["inputs", "configurations", "crash_points"],
  "every set of files, types of columns, row groups, names, options of the reader, and earlier runs",
  "Tests use five equal files of a single row group.",
  [S + "utilities/parquet.py", S + "streaming/item_loader.py", S + "processing/readers.py", S + "streaming/writer.py", S + "utilities/dataset_utilities.py"],
  [("rows of a chunk", S + "streaming/item_loader.py"), ("index of the files", S + "utilities/parquet.py"), ("parts of a file", S + "processing/readers.py")],
  observe=["rows delivered, index.json, files of the folders"],
  technique="property-based testing (hypothesis) with fault injection: differential against pyarrow",
  note="Generated search; the cloud is fsspec's in-memory filesystem.")

P("C14", "Streaming through a bounded cache delivers everything and stays bounded",
  "Streaming a remote dataset larger than the cache limit, by one or several workers or independent readers sharing the "
  "cache folder and over several epochs, delivers every sample as stored, never changes the remote, keeps only about as many "
  "chunks in the cache as are downloaded ahead, and leaves no chunk marked as in use once the readers are done.",
  ["inputs", "schedules", "configurations"],
  "every chunk layout, compression, cache limit, download-ahead, topology, number of epochs and interleaving of the readers",
  "Tests stream one small dataset with one reader; races between readers and background threads are not sampled.",
  [S + "streaming/reader.py", S + "streaming/config.py", S + "streaming/downloader.py", S + "streaming/item_loader.py"],
  [("background download and deletion", S + "streaming/reader.py"), ("per-chunk use counts", S + "streaming/downloader.py"),
   ("creation of the cache folder", S + "utilities/dataset_utilities.py")],
  observe=["samples delivered, files in the cache folder, files of the remote"],
  technique="property-based testing (hypothesis) with real threads and data-loader workers; folder-content invariants",
  note="Generated search; interleavings are those the scheduler produces, not enumerated.")

DP = S + "processing/data_processor.py"

P("C15", "optimize() writes exactly the samples its function produced",
  "After any history of optimize() calls on a folder (new, append, overwrite or refused; with functions that return, yield or "
  "skip samples; with or without batches, weights, file inputs and several workers), reading the folder gives exactly the "
  "samples of the calls that count, in input order within each worker and worker order, no input file is changed, a failure "
  "of the function is raised, and a refused or failed append leaves the earlier samples readable.",
  ["inputs", "configurations", "histories"],
  "every list of inputs, function, mode, number of workers and downloaders, chunk limit and sequence of calls",
  "Tests run a few fixed calls whose samples are equal-sized integers; modes, generators, empty outputs and file inputs are not combined.",
  [S + "processing/functions.py", DP, S + "processing/utilities.py", S + "streaming/resolver.py", S + "streaming/writer.py"],
  [("split of the inputs", DP), ("append, overwrite", S + "streaming/resolver.py"), ("merge of the indexes", S + "streaming/writer.py")],
  observe=["samples of StreamingDataset over the output folder, files of the input folder, error raised"],
  technique="property-based testing (hypothesis): generated call histories with real worker processes against a list model",
  note="Generated search; processes are real, their interleavings those the scheduler produces.")

P("C16", "An interrupted optimize() resumed from its checkpoints gives the same dataset",
  "An optimize(use_checkpoint=True) call interrupted any number of times (an exception in the function, the death of a worker or "
  "of every process, at any input or moment, with or without a remote output) and started again ends with exactly the samples "
  "of an uninterrupted call, in the same order; an interrupted attempt raises or dies but never hangs; inputs already saved in "
  "a checkpoint are not processed again; checkpoints of another call's inputs are refused.",
  ["crash_points", "inputs", "histories"],
  "every sequence of crash points, inputs, chunk limit and number of workers",
  "Tests crash at one input of one configuration with one worker or two.",
  [DP, S + "streaming/writer.py", S + "streaming/resolver.py", S + "streaming/fs_provider.py"],
  [("checkpoint written after chunks", S + "streaming/writer.py"), ("inputs still to do", DP), ("watch over the workers", DP)],
  observe=["samples of StreamingDataset over the finished output, inputs passed to the function in each attempt"],
  technique="property-based testing (hypothesis): generated crash points injected in real processes, differential against an uninterrupted run",
  note="Generated search; kills at planned inputs and at generated times.")

P("C17", "map() runs once per input and delivers every file, or raises",
  "map() calls its function once for each input, tells is_last for the last input of each worker and only it, and delivers every "
  "file the function wrote at its relative path with its content, to a folder or an object store; when the function, a worker, an "
  "upload or a download fails, map() raises and does not hang. Files already in the output, the input files and everything "
  "outside of the output folder stay as they were.",
  ["inputs", "configurations", "fault_sequences"],
  "every list of inputs, tree of output names, number of workers, uploaders and downloaders, batch size, and planned failure",
  "Tests map three files with friendly names, with no failing upload or download.",
  [DP, S + "processing/functions.py", S + "streaming/resolver.py", S + "streaming/fs_provider.py"],
  [("upload of outputs", DP), ("download of inputs", DP), ("watch over the workers", DP)],
  observe=["files of the output folder or bucket, inputs passed to the function, error raised"],
  technique="property-based testing (hypothesis) with fault injection: real processes over a folder or a fake object store, against a file-tree model",
  note="Generated search; the object store is a folder behind the boto3 client interface.")

P("C18", "Work is split between nodes and workers without loss or repetition",
  "Whatever the inputs (numbers, paths, nested or ragged structures), weights, number of nodes and of workers, every input goes "
  "unaltered to exactly one worker of one node; without weights each worker gets a contiguous range in order, of a size that "
  "differs by at most one; and optimize() run on several nodes gives the dataset of one node.",
  ["inputs", "configurations"],
  "every list of inputs, weights, nodes and workers",
  "Tests split a handful of lists of integers or strings.",
  [DP, S + "processing/utilities.py"],
  [("split by count", DP), ("split by weight or size", S + "processing/utilities.py")],
  observe=["inputs passed to each worker, samples of the dataset"],
  technique="property-based testing (hypothesis): partition invariants, and multi-node runs in real processes against the list of inputs",
  note="Generated search.")

P("C19", "Merging datasets concatenates them or refuses",
  "merge_datasets() gives, for local folders or remote ones, a dataset whose samples are those of the inputs one after the other, "
  "also when an input is itself merged or given twice. Datasets that differ in structure, format, compression or encryption, an "
  "output that already holds a dataset and a failing transfer are errors, which leave no index in the output. Inputs and everything "
  "outside of the output stay as they were.",
  ["inputs", "configurations", "fault_sequences"],
  "every list of datasets, each of any structure, chunk layout, compression and encryption, and planned failure of a transfer",
  "Tests merge two folders of integers and compare two keys of their configs.",
  [S + "processing/functions.py", S + "processing/utilities.py", S + "streaming/fs_provider.py"],
  [("checks and renaming of chunks", S + "processing/functions.py"), ("reading of an index", S + "processing/utilities.py")],
  observe=["samples of StreamingDataset over the output, files of the folders or buckets, error raised"],
  technique="property-based testing (hypothesis) with fault injection: differential against the list of all samples, store-or-refuse",
  note="Generated search; the object store is a folder behind the boto3 client interface.")

P("C20", "A file fetched from a remote is whole, or isn't there",
  "Fetching a file of a dataset from any remote gives the remote's file byte for byte or raises; a failed, killed or concurrent "
  "transfer never leaves a truncated file that is taken for the file, and a later fetch or stream into the same cache completes "
  "it. A stream whose transfers fail ends with an error: it never hangs or delivers other samples. A file already fetched isn't "
  "fetched again; a missing one is an error.",
  ["crash_points", "fault_sequences", "inputs"],
  "every provider, file size, sequence of failing or killed transfers at any byte, and concurrent fetches",
  "Tests replace the clients by mocks which transfer nothing.",
  [S + "streaming/downloader.py", S + "streaming/config.py", S + "streaming/item_loader.py"],
  [("transfer of each provider", S + "streaming/downloader.py"), ("what counts as downloaded", S + "streaming/config.py")],
  observe=["the file under its final name after each attempt, samples of the StreamingDataset, error raised"],
  technique="property-based testing (hypothesis) with fault injection: generated histories of failing and killed transfers against the remote's bytes",
  note="Generated search; the clients of the providers are stand-ins.")
