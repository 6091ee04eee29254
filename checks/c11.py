"""C11: random access, slices and streaming agree."""

import copy
import os
import pickle

from hypothesis import strategies as st

from vlib import sim
from vlib.runner import Sub, expect

PROPERTY = "C11"
RULE = (
    "A case is a chunk layout, a storage (plain or compressed, local or remote with a cache folder), a cache size and a "
    "sequence of operations on one dataset object (item, slice, length, whole or partial iteration, copy, pickling). "
    "Non-trivial: at least two chunks and at least one read after an iteration or a copy."
)
ASSUMPTIONS = ["indices of single items are non-negative (the library refuses negative ones)"]

idx = st.integers(0, 200)
op = st.one_of(
    st.tuples(st.just("get"), idx),
    st.tuples(st.just("get"), idx),
    st.tuples(st.just("last"), st.integers(0, 2)),
    st.tuples(st.just("slice"), st.one_of(st.none(), st.integers(-60, 60)), st.one_of(st.none(), st.integers(-60, 60)),
              st.sampled_from([None, 1, 2, 3, -1, -2])),
    st.tuples(st.just("len")),
    st.tuples(st.just("iter")),
    st.tuples(st.just("some"), st.integers(0, 20)),
    st.tuples(st.just("copy")),
    st.tuples(st.just("pickle")),
    st.tuples(st.just("outside"), st.integers(0, 5)),
)
case_st = st.fixed_dictionaries({
    "sizes": st.lists(st.integers(1, 7), min_size=1, max_size=6),
    "storage": st.sampled_from(["plain", "remote", "remote", "zstd", "remote-zstd"]),
    "small_cache": st.booleans(),
    "loader": st.booleans(),
    "folder": st.sampled_from(["src", "src", "a.zstd", "x.bin"]),
    "shuffle": st.booleans(),
    "items": st.sampled_from(["int", "int", "tree"]),
    "ops": st.lists(op, min_size=1, max_size=9),
})


def value(case, i):
    return i if case["items"] == "int" else {"i": i, "s": "s" * (i % 5), "l": [i, float(i)]}


def run(case, rec):
    from litdata import StreamingDataset

    sim.quick_force_download(0.5)

    n = sum(case["sizes"])
    src = os.path.join(rec.dir, case["folder"])
    z = "zstd" if "zstd" in case["storage"] else None
    if z is None and case["items"] == "int":
        sim.write_int_chunks(src, case["sizes"])
    else:
        sim.write_chunks(src, case["sizes"], make=lambda i: value(case, i), compression=z)
    model = [value(case, i) for i in range(n)]
    kw = {}
    if case["storage"].startswith("remote"):
        kw = {"input_dir": "local:" + src, "cache_dir": os.path.join(rec.dir, "cache" + case["folder"])}
    else:
        kw = {"input_dir": src}
    if case["small_cache"]:
        kw["max_cache_size"] = 100
    if case["loader"]:
        from litdata.streaming.item_loader import PyTreeLoader

        kw["item_loader"] = PyTreeLoader()
    ds = StreamingDataset(shuffle=case["shuffle"], **kw)
    iterated, live, made = False, False, [ds]
    try:
        for o in case["ops"]:
            k = o[0]
            if iterated and k in ("get", "last", "slice", "iter", "some"):
                rec.hit(len(case["sizes"]) > 1)
            if k == "get":
                i = o[1] % n
                expect(ds[i] == model[i], f"item {i} is {ds[i]}")
            elif k == "last":
                i = max(0, n - 1 - o[1])
                expect(ds[i] == model[i], f"item {i} is {ds[i]}")
            elif k == "slice":
                s = slice(o[1], o[2], o[3])
                got = ds[s]
                expect(got == model[s], f"{s} gives {got} instead of {model[s]}")
            elif k == "len":
                expect(len(ds) == n, f"len is {len(ds)} instead of {n}")
            elif k == "iter":
                got = list(ds)
                if case["shuffle"]:
                    got = sorted(got, key=lambda x: x["i"] if isinstance(x, dict) else int(x))
                expect(got == model, f"iterating gives {got}")
                iterated, live = True, False
            elif k == "some":
                it = iter(ds)
                got = [x for _, x in zip(range(o[1]), it)]
                if not case["shuffle"]:
                    expect(got == model[: o[1]], f"the first {o[1]} samples are {got}")
                expect(len(got) == min(o[1], n), f"{len(got)} samples instead of {min(o[1], n)}")
                iterated = True
                live = case["storage"] != "plain"
            elif k in ("copy", "pickle") and live:
                continue  # the background thread of a half-way iteration cannot be copied
            elif k == "copy":
                ds = copy.deepcopy(ds)
                made.append(ds)
                iterated = True
            elif k == "pickle":
                ds = pickle.loads(pickle.dumps(ds))
                made.append(ds)
                iterated = True
            elif k == "outside":
                try:
                    x = ds[n + o[1]]
                except Exception:
                    continue
                expect(False, f"item {n + o[1]} of {n} is {x}")
    finally:
        for d in made:
            sim.stop_reader_threads(d)
    rec.label(case["storage"])


SUBS = [Sub("ops", case_st, run, quick=900, thorough=16000, hang_s=100)]
