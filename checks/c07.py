"""C07: mixing several datasets."""

import copy
import math
import os
from collections import Counter

from hypothesis import strategies as st

from vlib import sim
from vlib.runner import Sub, expect

PROPERTY = "C07"
RULE = (
    "A case is two to five datasets (chunk layouts, shuffle), mixing weights or none, a batching method, a batch size, a "
    "seed and a topology. Non-trivial: at least two datasets deliver samples."
)
ASSUMPTIONS = [
    "proportions are judged at seven standard deviations, on runs long enough for that to mean something",
    "every dataset keeps the order it has when streamed alone; the interleaving itself is only required to be "
    "reproducible from the seed and to follow the weights",
]
BASE = 100000

datasets = st.lists(st.lists(st.integers(1, 9), min_size=1, max_size=4), min_size=2, max_size=5)
weights = st.lists(st.sampled_from([0.0, 1.0, 2.0, 0.1, 0.5, 3.5]), min_size=5, max_size=5)


def build(case, d, shuffles=None):
    from litdata import StreamingDataset

    out = []
    for i, sizes in enumerate(case["datasets"]):
        p = os.path.join(d, f"ds{i}")
        if not os.path.exists(p):
            sim.write_int_chunks(p, sizes, base=BASE * i)
        out.append(StreamingDataset(p, shuffle=case["shuffle"], seed=case["seed"] + 3, drop_last=case.get("drop_last", False)))
    return out


def fix_weights(case):
    if case["over_all"]:
        return None
    w = case["weights"]
    if w is None:
        return None
    w = w[: len(case["datasets"])]
    return w if sum(w) > 0 else [1.0] * len(w)


mix_case = st.fixed_dictionaries({
    "datasets": datasets,
    "over_all": st.booleans(),
    "weights": st.one_of(st.none(), weights),
    "method": st.sampled_from(["stratified", "stratified", "per_stream"]),
    "batch": st.integers(1, 6),
    "seed": st.integers(0, 1000),
    "shuffle": st.booleans(),
    "drop_last": st.booleans(),
    "workers": st.integers(0, 3),
    "world": st.sampled_from([1, 1, 1, 2, 3]),
    "epochs": st.integers(1, 2),
})


def combined(case, d, seed=None):
    from litdata import CombinedStreamingDataset

    return CombinedStreamingDataset(build(case, d), seed=case["seed"] if seed is None else seed, weights=fix_weights(case),
                                    iterate_over_all=case["over_all"], batching_method=case["method"])


def judge(case, got, alone, w):
    """One worker's stream of the mix against what each of its datasets gives that worker alone."""
    by = [[x for x in got if x // BASE == i] for i in range(len(alone))]
    if case["over_all"]:
        for i, (b, a) in enumerate(zip(by, alone)):
            expect(b == a, f"dataset {i} gives {a} alone and {b} in the mix")
        return
    for i, (b, a) in enumerate(zip(by, alone)):
        expect(b == a[: len(b)], f"dataset {i} gives {a} alone and {b}, not the beginning of it, in the mix")
        if w is not None and w[i] == 0:
            expect(not b, f"dataset {i} has weight 0 and delivered {b}")
    live = [i for i in range(len(alone)) if w is None or w[i] > 0]
    expect(any(len(by[i]) == len(alone[i]) for i in live), "the mix ended although no dataset was exhausted")
    if case["method"] == "per_stream":
        for k in range(0, len(got), case["batch"]):
            part = got[k : k + case["batch"]]
            expect(len({x // BASE for x in part}) == 1, f"batch {part} mixes datasets")


def run_mix(case, rec):
    """Inside each worker of each rank: what the mix delivers against what the datasets deliver alone."""
    w = fix_weights(case)
    case["workers"] = case["workers"] if case["world"] == 1 else min(case["workers"], 2)
    total = [Counter() for _ in case["datasets"]]
    for rank in range(case["world"]):
        with sim.rank_env(case["world"], rank, 1):
            if not case["over_all"] and w is None or case["over_all"]:
                # a rank without any sample is refused by the constructor: nothing to weight by
                if not sum(len(s) for s in build(case, rec.dir)):
                    rec.label("refused")
                    return
            ds = combined(case, rec.dir)
            ds.set_batch_size(case["batch"])
            ds.set_num_workers(case["workers"])
            alone_ds = build(case, rec.dir)
            for wk in range(max(1, case["workers"])):
                with sim.worker_env(wk, case["workers"], inside=case["workers"] > 0):
                    mix = copy.deepcopy(ds)
                    singles = copy.deepcopy(alone_ds)
                    for s in singles:
                        s.set_batch_size(case["batch"])
                        s.set_num_workers(case["workers"])
                    for epoch in range(1, case["epochs"] + 1):
                        mix.set_epoch(epoch)
                        alone = []
                        for s in singles:
                            s.set_epoch(epoch)
                            alone.append(list(s))
                            sim.stop_reader_threads(s)
                        got = list(mix)
                        for s in mix._datasets:
                            sim.stop_reader_threads(s)
                        judge(case, got, alone, w)
                        if len({x // BASE for x in got}) > 1:
                            rec.hit()
                        if epoch == 1:
                            for x in got:
                                total[x // BASE][x] += 1
    if case["over_all"] and not case["drop_last"]:
        for i, sizes in enumerate(case["datasets"]):
            want = Counter(range(BASE * i, BASE * i + sum(sizes)))
            expect(total[i] == want, f"over all workers dataset {i} was delivered as {sorted(total[i].elements())}")
    rec.label("over-all" if case["over_all"] else "first-exhausted", case["method"])


plain_case = st.fixed_dictionaries({
    "datasets": datasets, "over_all": st.booleans(), "weights": st.one_of(st.none(), weights),
    "method": st.sampled_from(["stratified", "per_stream"]), "batch": st.integers(1, 6), "seed": st.integers(0, 1000),
    "shuffle": st.booleans(), "epochs": st.integers(1, 3),
})


def run_plain(case, rec):
    """Iterated directly, several epochs in a row: reproducible, and every finished dataset goes to its next epoch."""
    w = fix_weights(case)
    a, b = combined(case, rec.dir), combined(case, rec.dir)
    for c in (a, b):
        c.set_batch_size(case["batch"])
    singles = build(case, rec.dir)
    seen = []
    for epoch in range(1, case["epochs"] + 1):
        if not case["over_all"]:
            a.set_epoch(epoch)
            b.set_epoch(epoch)
        got, again = list(a), list(b)
        expect(got == again, f"two mixes with the same seed differ: {got} and {again}")
        seen.append(got)
        alone = []
        for s in singles:
            s.set_epoch(epoch)
            alone.append(list(s))
        judge(case, got, alone, w)
        if len({x // BASE for x in got}) > 1:
            rec.hit()
    rec.label(f"epochs={case['epochs']}")
    if case["over_all"]:
        n = sum(map(sum, case["datasets"]))
        expect(len(a) == n, f"len is {len(a)}, the datasets hold {n}")
    else:
        raised = False
        try:
            raised = len(a) is None
        except TypeError:
            raised = True
        expect(raised, "a mix that ends at the first exhausted dataset announces a length")
    for s in singles + a._datasets + b._datasets:
        sim.stop_reader_threads(s)


prop_case = st.fixed_dictionaries({
    "n": st.integers(2, 4), "size": st.integers(200, 500), "weights": st.one_of(st.none(), st.lists(
        st.integers(1, 9), min_size=4, max_size=4)), "sizes": st.lists(st.integers(40, 400), min_size=4, max_size=4),
    "method": st.sampled_from(["stratified", "per_stream"]), "batch": st.integers(1, 8), "seed": st.integers(0, 10**6),
    "over_all": st.booleans(),
})


def run_prop(case, rec):
    """The long-run share of every dataset follows its weight."""
    n = case["n"]
    if case["over_all"]:
        case["weights"] = None
    sizes = case["sizes"][:n] if case["weights"] is None else [case["size"]] * n
    c = {"datasets": [[s] for s in sizes], "over_all": case["over_all"], "shuffle": False, "seed": case["seed"],
         "weights": case["weights"][:n] if case["weights"] else None, "method": case["method"]}
    ds = combined(c, rec.dir)
    ds.set_batch_size(case["batch"])
    got = []
    left = list(sizes)
    for x in ds:
        got.append(x // BASE)
        left[x // BASE] -= 1
        if min(left) == 0:
            break  # from here on the weights are those of the datasets left
    share = [s / sum(sizes) for s in sizes] if case["weights"] is None else [x / sum(c["weights"]) for x in c["weights"]]
    step = case["batch"] if case["method"] == "per_stream" else 1
    draws = got[::step]
    if len(draws) < 20:
        return
    rec.hit()
    for i, p in enumerate(share):
        k = draws.count(i)
        m, sd = len(draws) * p, math.sqrt(len(draws) * p * (1 - p))
        expect(abs(k - m) <= 7 * sd + 3, f"dataset {i} has weight {p:.3f} and gave {k} of {len(draws)} draws")
    if len(draws) >= 60 and max(share) < 0.8:
        other = combined(c, rec.dir, seed=case["seed"] + 1)
        other.set_batch_size(case["batch"])
        got2 = []
        for x in other:
            got2.append(x // BASE)
            if len(got2) == len(got):
                break
        expect(got2 != got, "two seeds give the same interleaving of hundreds of samples")
        for s in other._datasets:
            sim.stop_reader_threads(s)
    for s in ds._datasets:
        sim.stop_reader_threads(s)


loader_case = st.fixed_dictionaries({
    "datasets": datasets, "over_all": st.booleans(), "weights": st.one_of(st.none(), weights),
    "method": st.sampled_from(["stratified", "per_stream"]), "batch": st.integers(1, 5), "seed": st.integers(0, 1000),
    "shuffle": st.booleans(), "drop_last": st.sampled_from([False, False, True]), "workers": st.integers(0, 2),
    "collate": st.booleans(),
})


def as_list(b):
    return [int(x) for x in b]


def list_collate(b):
    return list(b)


def run_loader(case, rec):
    """Through StreamingDataLoader, two epochs: batches hold only samples, nothing of the bookkeeping."""
    from litdata import StreamingDataLoader

    w = fix_weights(case)
    ds = combined(case, rec.dir)
    dl = StreamingDataLoader(ds, batch_size=case["batch"], num_workers=case["workers"],
                             collate_fn=list_collate if case["collate"] else None)
    n = max(1, case["workers"])
    for epoch in (1, 2):
        batches = [as_list(b) for b in dl]
        got = [x for b in batches for x in b]
        alone = build(case, rec.dir)
        streams = []
        for s in alone:
            s.set_epoch(epoch)
            s.set_batch_size(case["batch"])
            s.set_num_workers(case["workers"])
            streams.append(sim.iterate_workers(s, case["workers"]))
        # the mix of each worker, recomputed from an independent instance
        ref = combined(case, rec.dir)
        ref.set_batch_size(case["batch"])
        ref.set_num_workers(case["workers"])
        ref.set_epoch(epoch)
        per = []
        for wk in range(n):
            with sim.worker_env(wk, case["workers"], inside=case["workers"] > 0):
                m = copy.deepcopy(ref)
                mine = list(m)
            judge(case, mine, [streams[i][wk] for i in range(len(streams))], w)
            per.append(mine)
        want = [b for _, b in sim.assemble(per, case["batch"])]
        expect(batches == want, f"epoch {epoch}: the loader gave {batches}, its workers {want}")
        if case["over_all"] and not case["drop_last"]:
            all_ = sorted(BASE * i + k for i, s in enumerate(case["datasets"]) for k in range(sum(s)))
            expect(sorted(got) == all_, f"epoch {epoch}: delivered {sorted(got)}")
        if case["over_all"] and n == 1:
            expect(len(dl) == len(batches), f"len is {len(dl)}, {len(batches)} batches")
        if len({x // BASE for x in got}) > 1:
            rec.hit()
    rec.label(f"workers={case['workers']}", case["method"])


SUBS = [
    Sub("mix", mix_case, run_mix, quick=320, thorough=6000),
    Sub("plain", plain_case, run_plain, quick=480, thorough=8000),
    Sub("proportions", prop_case, run_prop, quick=160, thorough=3000),
    Sub("loader", loader_case, run_loader, quick=120, thorough=2000),
]
