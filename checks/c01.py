"""C01: what is written is read back."""

import os

from hypothesis import strategies as st

from vlib import sim, values
from vlib.runner import Sub, expect

PROPERTY = "C01"
RULE = (
    "A case is a tree of leaf kinds (numbers, text, bytes, arrays and tensors of every type, shape and memory layout, "
    "images, files, arbitrary objects), up to 14 samples of that shape with their own values and sizes, and how they are "
    "stored (items or bytes per chunk, compression, encryption). Non-trivial: at least two samples of at least two leaves, "
    "or of a leaf other than a number, in at least two chunks."
)
ASSUMPTIONS = ["all samples of a dataset have the structure and leaf types of the first one (C02 covers the others), and it has a leaf"]

case_st = st.fixed_dictionaries({
    "tree": values.tree_st().filter(values.leaves_of),
    "n": st.integers(1, 14),
    "seed": st.integers(0, 10**6),
    "by": st.one_of(st.tuples(st.just("size"), st.integers(1, 6)), st.tuples(st.just("bytes"), st.sampled_from([1, 40, 200, 1000, "1KB", "64MB"]))),
    "compression": st.sampled_from([None, None, None, "zstd", "zstd:1", "zstd:19"]),
    "encryption": st.sampled_from([None, None, None, None, "sample", "chunk"]),
    "read": st.lists(st.integers(0, 40), max_size=5),
    "touch": st.booleans(),
})

_enc = {}


def encryption(level):
    if level is None:
        return None
    if level not in _enc:
        from litdata.utilities.encryption import FernetEncryption

        _enc[level] = FernetEncryption(password="p", level=level)
    return _enc[level]


def spoil(x):
    """Change in place whatever can be changed in a sample that was read."""
    import torch

    if isinstance(x, dict):
        for v in x.values():
            spoil(v)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v)
    elif isinstance(x, torch.Tensor) and x.numel():
        x.zero_()


def run(case, rec):
    from litdata import StreamingDataset

    out = os.path.join(rec.dir, "out")
    files = os.path.join(rec.dir, "files")
    os.makedirs(files)
    kinds = values.leaves_of(case["tree"])
    pairs = [values.build(case["tree"], case["seed"] + i, files) for i in range(case["n"])]
    enc = encryption(case["encryption"])
    how = {"chunk_size": case["by"][1]} if case["by"][0] == "size" else {"chunk_bytes": case["by"][1]}
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim.write_dataset(out, [p[0] for p in pairs], compression=case["compression"], encryption=enc, **how)
        for f in os.listdir(files):  # nothing of the inputs is needed any more
            os.remove(os.path.join(files, f))
        ds = StreamingDataset(out, encryption=enc)
        n = case["n"]
        chunks = [f for f in os.listdir(out) if f.startswith("chunk-")]
        rec.hit(n > 1 and len(chunks) > 1 and (len(kinds) > 1 or (kinds and kinds[0][0] not in ("int", "float", "bool"))))
        rec.label(*sorted({k[0] for k in kinds}))
        expect(len(ds) == n, "the length is %s instead of %d", len(ds), n)
        for i in [i % n for i in case["read"]]:
            got = ds[i]
            m = values.diff(got, pairs[i][1], f"sample {i}")
            expect(m is None, "%s (random access)", m)
            if case["touch"]:
                spoil(got)
        seen = 0
        for i, got in enumerate(ds):
            m = values.diff(got, pairs[i][1], f"sample {i}")
            expect(m is None, "%s (iteration)", m)
            seen += 1
            if case["touch"]:
                spoil(got)
        expect(seen == n, "%d samples iterated instead of %d", seen, n)
        if case["touch"] and n:
            m = values.diff(ds[0], pairs[0][1], "sample 0")
            expect(m is None, "%s (after changing the samples read before)", m)
    sim.stop_reader_threads(ds)


leaf_case_st = st.builds(lambda k, c: dict(c, tree=["leaf", list(k)]), values.leaf_kinds, case_st)

SUBS = [
    Sub("trees", case_st, run, quick=900, thorough=30000),
    Sub("leaves", leaf_case_st, run, quick=500, thorough=12000),
]
