"""C03: chunk files and their index."""

import json
import os
import warnings

from hypothesis import strategies as st

from vlib import sim
from vlib.runner import Sub, expect

PROPERTY = "C03"
RULE = (
    "A case is the sizes of the samples, a limit (items or bytes per chunk, given as a number or as text), a compression, "
    "and how the samples are spread over one to twelve writers that share a folder. Non-trivial: at least two chunks, one "
    "of them with two samples."
)
ASSUMPTIONS = ["the writers are run one after another (C21 runs them concurrently)"]

sizes_st = st.lists(st.one_of(st.integers(0, 30), st.integers(0, 30), st.sampled_from([90, 100, 101, 500, 1000])),
                    min_size=1, max_size=40)
case_st = st.fixed_dictionaries({
    "sizes": sizes_st,
    "by": st.one_of(
        st.tuples(st.just("size"), st.integers(1, 9)),
        st.tuples(st.just("bytes"), st.one_of(st.integers(1, 300), st.sampled_from(["0.2KB", "1KB", "1kb", "0.0003MB"]))),
    ),
    "compression": st.sampled_from([None, None, "zstd", "zstd:3"]),
    "writers": st.sampled_from([1, 1, 1, 2, 3, 11, 12]),
    "base": st.sampled_from([0, 0, 3]),
    "kind": st.sampled_from(["bytes", "bytes", "pair", "int"]),
})


def limit_bytes(v):
    """The documented meaning of a size given as text."""
    if isinstance(v, int):
        return v
    for suffix, f in (("kb", 1000), ("mb", 1000**2), ("gb", 1000**3), ("b", 1)):
        if v.lower().endswith(suffix):
            return int(float(v[: -len(suffix)]) * f)
    raise AssertionError(v)


def make(kind, i, size):
    if kind == "bytes":
        return bytes([i % 256]) * size
    if kind == "pair":
        return {"n": i, "b": bytes([i % 256]) * size}
    return i * 1000 + size


def parse(data):
    """The samples of a chunk in the documented layout."""
    import numpy as np

    n = int(np.frombuffer(data[:4], np.uint32)[0])
    offs = np.frombuffer(data[4 : 4 + 4 * (n + 1)], np.uint32).tolist()
    expect(offs[0] == 4 + 4 * (n + 1), "the first sample of a chunk starts at %s, not after the offsets of its %d samples", offs[0], n)
    expect(offs[-1] == len(data), "the last offset %d of a chunk isn't its length %d", offs[-1], len(data))
    expect(all(a <= b for a, b in zip(offs, offs[1:])), "offsets aren't increasing: %s", offs)
    return [data[a:b] for a, b in zip(offs, offs[1:])]


def run(case, rec):
    from litdata.streaming import Cache

    out = os.path.join(rec.dir, "out")
    os.makedirs(out)
    by, lim = case["by"]
    kw = {"chunk_size" if by == "size" else "chunk_bytes": lim}
    w = min(case["writers"], len(case["sizes"]))
    items = [make(case["kind"], i, s) for i, s in enumerate(case["sizes"])]
    per = [items[k * len(items) // w : (k + 1) * len(items) // w] for k in range(w)]
    returned = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k in range(w):
            with sim.env(DATA_OPTIMIZER_GLOBAL_RANK=str(k), DATA_OPTIMIZER_NUM_WORKERS=str(w)):
                cache = Cache(out, compression=case["compression"], **kw)
                for j, it in enumerate(per[k]):
                    if w == 1 and j % 2 == 0:
                        cache[case["base"] + j] = it
                    else:
                        p = cache._add_item(case["base"] + j, it)
                        if p:
                            expect(os.path.isfile(p), "the chunk %s reported as written isn't there", os.path.basename(p))
                            returned.append(p)
                returned += cache.done()
        Cache(out, compression=case["compression"], **kw).merge(num_workers=w)
    with open(os.path.join(out, "index.json")) as f:
        index = json.load(f)
    files = sorted(os.listdir(out))
    listed = [c["filename"] for c in index["chunks"]]
    expect(len(set(listed)) == len(listed), "a file is listed twice: %s", listed)
    expect(sorted(listed + ["index.json"]) == files, "the index lists %s, the folder holds %s", listed, files)
    expect(all(os.path.basename(p) in listed for p in returned), "a chunk reported as written isn't listed")
    from litdata.streaming.compression import _COMPRESSORS

    stored, sums = [], []
    for c in index["chunks"]:
        with open(os.path.join(out, c["filename"]), "rb") as f:
            data = f.read()
        if case["compression"]:
            data = _COMPRESSORS[case["compression"]].decompress(data)
        samples = parse(data)
        expect(c["chunk_size"] == len(samples), "chunk %s: %d samples listed, %d stored", c["filename"], c["chunk_size"], len(samples))
        expect(c["chunk_bytes"] == len(data), "chunk %s: %d bytes listed, %d stored", c["filename"], c["chunk_bytes"], len(data))
        expect(samples, "an empty chunk")
        stored.append(samples)
        sums.append(sum(map(len, samples)))
    sizes = [len(s) for s in stored]
    rec.hit(len(sizes) > 1 and max(sizes) > 1)
    rec.label(f"writers{w}", by)
    if by == "size":
        expect(max(sizes) <= lim, "chunks of %s samples with chunk_size=%d", sizes, lim)
    else:
        b = limit_bytes(lim)
        for s, n in zip(sums, sizes):
            expect(s <= b or n == 1, "a chunk of %d samples holds %d bytes of samples with chunk_bytes=%s", n, s, lim)
    # the samples of every writer, in order
    flat = [x for s in stored for x in s]
    expect(len(flat) == len(items), "%d samples stored instead of %d", len(flat), len(items))
    bounds, i = {}, 0
    for k in range(w):
        i += len(per[k])
        bounds[i] = k
    # greedy: a chunk that isn't the last one of its writer has no room for the next sample
    pos = 0
    for k, s in enumerate(stored):
        pos += len(s)
        if pos in bounds:
            continue
        expect(k + 1 < len(stored), "the last chunk ends at sample %d", pos)
        nxt = len(stored[k + 1][0])
        full = sizes[k] == lim if by == "size" else sums[k] + nxt > limit_bytes(lim)
        expect(full, "chunk %d (%d samples, %d bytes) was closed although the next sample (%d bytes) fits: %s", k, sizes[k], sums[k],
               nxt, case["by"])
    from litdata import StreamingDataset

    ds = StreamingDataset(out)
    expect(len(ds) == len(items), "length %d instead of %d", len(ds), len(items))
    expect(list(ds) == items, "the samples are read back in another order, or changed")
    sim.stop_reader_threads(ds)


SUBS = [Sub("chunks", case_st, run, quick=700, thorough=30000, hang_s=60)]
