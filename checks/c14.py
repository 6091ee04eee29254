"""C14: streaming from a remote through a bounded cache."""

import copy
import hashlib
import os
import threading

from hypothesis import strategies as st

from vlib import sim
from vlib.runner import Sub, expect

PROPERTY = "C14"
RULE = (
    "A case is a remote dataset (chunk layout, compression), a cache limit, a number of chunks downloaded ahead, a "
    "topology and a number of epochs. Non-trivial: the dataset is larger than the cache limit, so that chunks are deleted "
    "while streaming."
)
ASSUMPTIONS = [
    "the remote is a folder (the `local:` scheme): no object store is reachable from here",
    "waits that only poll are shortened",
]


def fingerprint(d):
    h = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                h[os.path.relpath(p, d)] = hashlib.sha1(fh.read()).hexdigest()
    return h


def build(case, d):
    src = os.path.join(d, "src")
    z = "zstd" if case["zstd"] else None
    if z:
        sim.write_chunks(src, case["sizes"], compression=z)
    else:
        sim.write_int_chunks(src, case["sizes"])
    return src


base = {
    "sizes": st.lists(st.integers(1, 9), min_size=1, max_size=12),
    "zstd": st.sampled_from([False, False, True]),
    "limit": st.sampled_from([1, 100, 200, 400, 10**9]),
    "ahead": st.sampled_from([1, 2, 2, 3, 5]),
    "shuffle": st.booleans(),
    "seed": st.integers(0, 50),
    "epochs": st.integers(1, 3),
    "batch": st.integers(1, 4),
}
sim_case = st.fixed_dictionaries({**base, "workers": st.integers(0, 3), "world": st.sampled_from([1, 1, 2])})


def bins(cache):
    """Chunk files present in the cache (any folder below it)."""
    out = []
    for root, _, files in os.walk(cache):
        out += [os.path.join(root, f) for f in files if f.endswith(".bin")]
    return out


def leftovers(cache):
    out = []
    for root, _, files in os.walk(cache):
        out += [f for f in files if f.endswith((".cnt", ".tmp"))]
    return out


def run_sim(case, rec):
    """One worker after the other over the same cache folder."""
    from litdata import StreamingDataset

    sim.quick_force_download()
    src = build(case, rec.dir)
    before = fingerprint(src)
    cache = os.path.join(rec.dir, "cache")
    n = sum(case["sizes"])
    size = sum(os.path.getsize(p) for p in bins(src))
    for epoch in range(1, case["epochs"] + 1):
        got = []
        for rank in range(case["world"]):
            with sim.rank_env(case["world"], rank, 1):
                ds = StreamingDataset("local:" + src, cache_dir=cache, shuffle=case["shuffle"], seed=case["seed"],
                                      drop_last=False, max_cache_size=case["limit"], max_pre_download=case["ahead"])
                ds.set_batch_size(case["batch"])
                ds.set_num_workers(case["workers"])
                ds.set_epoch(epoch)
                for w in range(max(1, case["workers"])):
                    d = copy.deepcopy(ds)
                    peak = 0
                    with sim.worker_env(w, case["workers"], inside=case["workers"] > 0):
                        for x in d:
                            got.append(x)
                            peak = max(peak, len(bins(cache)))
                    sim.stop_reader_threads(d)
                    if case["limit"] <= size // 2 and not case["zstd"]:
                        rec.label(f"peak<={(peak + 3) // 4 * 4}")
                        expect(peak <= 2 * case["ahead"] + 3 + getattr(rec, "left", 0),
                               f"{peak} chunks are in the cache at once, {case['ahead']} are downloaded ahead")
                    rec.left = len(bins(cache))
        expect(sorted(got) == list(range(n)), f"epoch {epoch}: delivered {sorted(got)} of {n} samples")
    expect(fingerprint(src) == before, "streaming changed the remote")
    rec.hit(case["limit"] < size)
    rec.label("deleting" if case["limit"] < size else "fits", "zstd" if case["zstd"] else "plain")
    expect(not [f for f in leftovers(cache) if f.endswith(".cnt")],
           f"all readers are done and chunks are still marked as in use: {leftovers(cache)}")


par_case = st.fixed_dictionaries({**base, "workers": st.integers(2, 4), "persistent": st.booleans()})


def run_par(case, rec):
    """Real data-loader workers side by side over one cache folder."""
    from litdata import StreamingDataLoader, StreamingDataset

    sim.quick_force_download()
    src = build(case, rec.dir)
    before = fingerprint(src)
    cache = os.path.join(rec.dir, "cache")
    n = sum(case["sizes"])
    size = sum(os.path.getsize(p) for p in bins(src))
    ds = StreamingDataset("local:" + src, cache_dir=cache, shuffle=case["shuffle"], seed=case["seed"], drop_last=False,
                          max_cache_size=case["limit"], max_pre_download=case["ahead"])
    dl = StreamingDataLoader(ds, batch_size=case["batch"], num_workers=case["workers"], persistent_workers=case["persistent"])
    for epoch in range(case["epochs"]):
        got = [int(x) for b in dl for x in b]
        expect(sorted(got) == list(range(n)), f"epoch {epoch + 1}: delivered {sorted(got)} of {n} samples")
    del dl
    expect(fingerprint(src) == before, "streaming changed the remote")
    rec.hit(case["limit"] < size)
    rec.label("deleting" if case["limit"] < size else "fits", f"workers={case['workers']}")


thr_case = st.fixed_dictionaries({**base, "readers": st.integers(2, 4)})


def run_threads(case, rec):
    """Several independent readers of the same cache folder at the same time, each at its own pace."""
    from litdata import StreamingDataset

    sim.quick_force_download()
    src = build(case, rec.dir)
    before = fingerprint(src)
    cache = os.path.join(rec.dir, "cache")
    n = sum(case["sizes"])
    size = sum(os.path.getsize(p) for p in bins(src))
    out = [None] * case["readers"]

    def read(k):
        try:
            ds = StreamingDataset("local:" + src, cache_dir=cache, shuffle=case["shuffle"], seed=case["seed"] + k,
                                  drop_last=False, max_cache_size=case["limit"], max_pre_download=case["ahead"])
            got = []
            for _ in range(case["epochs"]):
                got.append(sorted(ds))
            out[k] = got
        except BaseException as e:  # noqa: BLE001
            out[k] = repr(e)

    ts = [threading.Thread(target=read, args=(k,), daemon=True) for k in range(case["readers"])]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for k, got in enumerate(out):
        expect(got == [list(range(n))] * case["epochs"], f"reader {k} of {case['readers']}: {got}")
    expect(fingerprint(src) == before, "streaming changed the remote")
    rec.hit(case["limit"] < size)


SUBS = [
    Sub("sequential", sim_case, run_sim, quick=480, thorough=5000),
    Sub("workers", par_case, run_par, quick=40, thorough=1200),
    Sub("readers", thr_case, run_threads, quick=240, thorough=1200),
]
