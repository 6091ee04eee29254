"""C12: token datasets give the consecutive blocks of the tokens written."""

import json
import math
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import sim
from vlib.runner import Sub, expect

PROPERTY = "C12"
RULE = (
    "A case is a list of documents (token arrays or tensors of some type and of any length, empty ones among them), a chunk "
    "limit, a compression, one or more writers, and one or more readers with a block size, an order, a cache and a "
    "number of workers. Non-trivial: two chunks gave blocks, or an item that isn't a token array was given."
)
ASSUMPTIONS = ["the chunks are those the index lists, in the documented layout"]

TYPES = ["np:int32", "np:int64", "np:uint16", "np:uint8", "np:float32", "np:int16", "pt:int32", "pt:int64", "pt:uint8",
         "pt:int16", "pt:float32"]
read_st = st.fixed_dictionaries({
    "block": st.integers(1, 12), "how": st.sampled_from(["iter", "iter", "index", "random", "slice", "workers"]),
    "shuffle": st.booleans(), "remote": st.sampled_from([False, False, False, True]), "cache": st.sampled_from([None, 1]), "workers": st.integers(1, 3),
    "epochs": st.integers(1, 2), "sub": st.sampled_from([None, None, None, None, 0.5, 0.3, 1.5]), "write": st.booleans(),
    "picks": st.lists(st.integers(0, 60), min_size=1, max_size=8), "ahead": st.sampled_from([1, 2, 4]),
})
case_st = st.fixed_dictionaries({
    "docs": st.lists(st.one_of(st.integers(0, 12), st.sampled_from([0, 0, 1, 5, 40])), min_size=1, max_size=12),
    "type": st.sampled_from(TYPES), "step": st.booleans(),
    "limit": st.one_of(st.tuples(st.just("size"), st.integers(1, 60)), st.tuples(st.just("bytes"), st.integers(20, 400))),
    "compression": st.sampled_from([None, None, "zstd"]), "writers": st.sampled_from([1, 1, 2, 3]),
    "wrap": st.booleans(),
    "odd": st.sampled_from([None] * 8 + ["two", "matrix", "scalar", "dtype", "encrypted", "list"]), "odd_at": st.integers(0, 15),
    "reads": st.lists(read_st, min_size=1, max_size=2),
})


def _doc(kind, start, n, step):
    lib, dt = kind.split(":")
    v = (np.arange(start, start + n) % 251).astype(dt)
    if step:  # a view with gaps
        wide = np.zeros(2 * n, dtype=dt)
        wide[::2] = v
        v = wide[::2]
    if lib == "pt":
        import torch

        if step:
            return torch.from_numpy(wide)[::2]
        return torch.from_numpy(v)
    return v


def _odd(what, kind):
    import torch

    if what == "two":
        return {"ids": _doc(kind, 0, 4, False), "mask": _doc(kind, 1, 4, False)}
    if what == "matrix":
        v = _doc(kind, 0, 4, False)
        return v.reshape(2, 2)
    if what == "scalar":
        return 3
    if what == "list":
        return [1, 2, 3]
    other = np.arange(4, dtype="float64")
    return torch.from_numpy(other) if kind.startswith("pt") else other


def run(case, rec):
    with warnings.catch_warnings(), sim.quiet():
        warnings.simplefilter("ignore")
        _run(case, rec)


def _run(case, rec):
    from litdata import TokensLoader
    from litdata.streaming import Cache
    from litdata.streaming.compression import _COMPRESSORS

    out = os.path.join(rec.dir, "out")
    os.makedirs(out)
    by, lim = case["limit"]
    kw = {"chunk_size" if by == "size" else "chunk_bytes": lim, "compression": case["compression"]}
    docs, pos = [], 0
    for n in case["docs"]:
        docs.append(_doc(case["type"], pos, n, case["step"]))
        pos += n
    where = f"{case}"
    if case["odd"] == "encrypted":
        from vlib.values import fernet

        try:
            c = Cache(out, item_loader=TokensLoader(3), encryption=fernet("sample"), **kw)
            c[0] = docs[0]
            c.done()
            c.merge()
        except Exception:  # noqa: BLE001
            rec.hit()
            rec.label("refused-encrypted")
            return
    w = min(case["writers"], len(docs))
    refused = 0
    for k in range(w):
        with sim.env(DATA_OPTIMIZER_GLOBAL_RANK=str(k), DATA_OPTIMIZER_NUM_WORKERS=str(w)):
            c = Cache(out, item_loader=TokensLoader(3), **kw)
            i = 0
            for d, doc in enumerate(docs[k * len(docs) // w: (k + 1) * len(docs) // w]):
                if case["odd"] and case["odd"] != "encrypted" and k == 0 and d == min(case["odd_at"], len(docs) // w - 1) and d > 0:
                    try:
                        c[i] = _odd(case["odd"], case["type"])
                    except Exception:  # noqa: BLE001
                        refused += 1
                    else:
                        expect(False, f"{where}: an item that isn't a sequence of tokens was accepted: {case['odd']}")
                c[i] = {"ids": doc} if case["wrap"] else doc
                i += 1
            c.done()
    Cache(out, item_loader=TokensLoader(3), **kw).merge(num_workers=w)
    with open(os.path.join(out, "index.json")) as f:
        index = json.load(f)
    dt = np.dtype(case["type"].split(":")[1])
    chunks = []
    for ch in index["chunks"]:
        with open(os.path.join(out, ch["filename"]), "rb") as f:
            data = f.read()
        if case["compression"]:
            data = _COMPRESSORS[case["compression"]].decompress(data)
        n = int(np.frombuffer(data[:4], np.uint32)[0])
        toks = np.frombuffer(data[4 * (n + 2):], dt)
        chunks.append(toks)
        expect(ch["dim"] == len(toks), f"{where}: the index gives {ch['dim']} tokens for a chunk of {len(toks)}")
        if by == "size":
            expect(len(toks) <= lim or n == 1, f"{where}: a chunk of {n} documents has {len(toks)} tokens, over the limit")
        else:
            expect(len(toks) * dt.itemsize <= lim or n == 1, f"{where}: a chunk of {n} documents has {len(toks)} tokens")
    written = np.concatenate([np.asarray(d) for d in docs])
    stored = np.concatenate(chunks)
    expect(np.array_equal(written, stored), f"{where}: the chunks hold {stored.tolist()} instead of {written.tolist()}")
    nontrivial = refused > 0
    for r, read in enumerate(case["reads"]):
        nontrivial |= _read(case, read, out, chunks, os.path.join(rec.dir, f"r{r}"), f"{where} (reader {r})", rec)
    rec.hit(nontrivial)
    rec.label(case["type"].split(":")[0])


def _read(case, read, out, chunks, base, where, rec):
    from litdata import StreamingDataset, TokensLoader
    from litdata.streaming.resolver import Dir

    os.makedirs(base)
    b = read["block"]
    blocks = [[c[p: p + b] for p in range(0, len(c) - b + 1, b)] for c in chunks]
    want = [x for bl in blocks for x in bl]
    if not want:
        return False
    src = Dir(path=os.path.join(base, "cache"), url=f"local:{out}") if read["remote"] else out
    sub = read["sub"]
    if sub is not None and read["how"] == "workers":
        sub = None
    ds = StreamingDataset(src, item_loader=TokensLoader(block_size=b), shuffle=read["shuffle"], seed=7,
                          max_cache_size=300 if read["cache"] else "100GB", max_pre_download=read["ahead"],
                          subsample=1.0 if sub is None else sub)
    try:
        if sub is None:
            expect(len(ds) == len(want), f"{where}: {len(ds)} blocks instead of {len(want)}")
        kept = []  # (block delivered, place or None)
        how = read["how"]
        if how == "iter":
            for e in range(read["epochs"]):
                ds.set_epoch(e) if hasattr(ds, "set_epoch") else None
                got = list(ds)
                _same(case, got, want, read["shuffle"] or sub is not None, sub, f"{where}, epoch {e}", len(ds))
                kept += got
                if read["write"]:
                    for g in got:
                        g += 1
        elif how == "workers":
            per = sim.iterate_workers(ds, read["workers"])
            got = [x for p in per for x in p]
            _same(case, got, want, True, None, where, len(want))
        elif how == "slice":
            got = ds[: len(ds)]
            _same(case, got, want, sub is not None, sub, where, len(ds))
        else:
            n = len(ds)
            picks = list(range(n)) if how == "index" else [p % n for p in read["picks"]] if n else []
            got = [ds[i] for i in picks]
            if sub is None:
                _same(case, got, [want[i] for i in picks], False, None, where, len(picks))
            elif how == "index":
                _same(case, got, want, True, sub, where, n)
        rec.label(how)
    finally:
        sim.stop_reader_threads(ds)
    return sum(1 for bl in blocks if bl) > 1


def _same(case, got, want, unordered, sub, where, n):
    lib, dt = case["type"].split(":")
    expect(len(got) == n, f"{where}: {len(got)} blocks were delivered instead of {n}")
    vals = []
    for g in got:
        if lib == "pt":
            import torch

            ok = isinstance(g, torch.Tensor) and str(g.dtype) == f"torch.{dt}"
        else:
            ok = isinstance(g, np.ndarray) and g.dtype == np.dtype(dt)
        expect(ok, f"{where}: a block is a {type(g).__name__} of {g.dtype}, the documents were {case['type']}")
        vals.append(tuple(g.tolist()))
    exp = [tuple(x.tolist()) for x in want]
    if sub is not None:
        import collections

        extra = collections.Counter(vals) - collections.Counter(exp * math.ceil(sub))
        expect(not extra, f"{where}: blocks nobody wrote, or too often: {dict(extra)}")
        return
    if unordered:
        vals, exp = sorted(vals), sorted(exp)
    expect(vals == exp, f"{where}: the blocks are {vals} instead of {exp}")


SUBS = [Sub("tokens", case_st, run, quick=2500, thorough=60000, hang_s=60)]
