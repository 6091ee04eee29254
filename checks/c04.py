"""C04: how samples are divided among nodes, ranks and data-loader workers."""

import os
from collections import Counter

from hypothesis import strategies as st

from vlib import sim
from vlib.runner import Sub, expect, internal

PROPERTY = "C04"
RULE = (
    "A case is a chunk layout (per-chunk sizes, optionally a region of interest inside each chunk), a topology (nodes, "
    "ranks, workers), a batch size, an epoch, shuffle and drop_last. It is non-trivial when there is more than one "
    "(rank, worker) and at least one chunk is shared by two of them or samples are dropped."
)
ASSUMPTIONS = [
    "world size is a multiple of the number of nodes",
    "ranks and workers are simulated in one process through the environment litdata itself reads",
]


def topo():
    return st.builds(
        lambda nodes, per, workers: {"nodes": nodes, "world": nodes * per, "workers": workers},
        st.sampled_from([1, 1, 2, 2, 3, 4]), st.integers(1, 4), st.integers(1, 5),
    )


def layout(max_chunks=16, max_size=40):
    small = st.lists(st.integers(1, max_size), min_size=1, max_size=max_chunks)
    regular = st.builds(
        lambda n, s, last: [s] * n + [max(1, min(last, s))], st.integers(0, max_chunks), st.integers(1, max_size),
        st.integers(1, max_size))
    return st.one_of(small, regular, regular)


plan_case = st.fixed_dictionaries({
    "sizes": layout(),
    "roi": st.one_of(st.none(), st.lists(st.tuples(st.integers(0, 100), st.integers(0, 100)), min_size=17, max_size=17)),
    "topo": topo(),
    "batch": st.integers(1, 9),
    "epoch": st.integers(1, 4),
    "seed": st.integers(0, 50),
    "shuffle": st.booleans(),
    "drop_last": st.booleans(),
})


class _FakeCache:
    def __init__(self, intervals):
        self._i = intervals

    def get_chunk_intervals(self):
        return self._i


def _intervals(case):
    Interval = internal("litdata.streaming.item_loader", "Interval")
    out, begin = [], 0
    for i, s in enumerate(case["sizes"]):
        a, b = 0, s
        if case["roi"]:
            x, y = case["roi"][i % len(case["roi"])]
            a = min(x, y) * s // 100
            b = max(a, max(x, y) * s // 100)
        out.append(Interval(begin, begin + a, begin + b, begin + s))
        begin += s
    return out


def listed(case, intervals):
    """How many workers are given each chunk in the first epoch, when the known finding applies (else None).

    Known finding: with several nodes and shuffling, later epochs reshuffle, inside each node, the list of the chunks its
    workers had in the first epoch, and a chunk shared by two workers is in that list twice. The samples of that chunk
    are then shared out twice. Everything else is still judged, against the dataset with those chunks repeated.
    """
    t = case["topo"]
    if not (case["shuffle"] and t["nodes"] > 1 and case["epoch"] > 1):
        return None
    Full = internal("litdata.streaming.shuffle", "FullShuffle")
    Env = internal("litdata.utilities.env", "_DistributedEnv")
    sh = Full(_FakeCache(intervals), case["seed"], case["drop_last"])
    chunks, _ = sh.get_chunks_and_intervals_per_workers(Env(t["world"], 0, t["nodes"]), t["workers"], case["batch"], 1)
    times = Counter(int(c) for w in chunks for c in w)
    if set(times) == set(range(len(intervals))) and max(times.values()) == 1:
        return None
    return times


def judge(case, per_worker, expected, rec, what="samples"):
    """per_worker: one list of sample ids per global worker (rank-major). expected: every sample, as often as it is due."""
    t = case["topo"]
    world, workers, b = t["world"], t["workers"], case["batch"]
    flat = [x for w in per_worker for x in w]
    expect(len(per_worker) == world * workers, f"{len(per_worker)} workers were planned instead of {world * workers}")
    have, due = Counter(flat), Counter(expected)
    expect(set(have) <= set(due), f"{what} outside the dataset are delivered: {sorted(set(have) - set(due))[:10]}")
    twice = sorted((have - due))
    expect(not twice, f"some {what} are delivered twice: {twice[:10]}")
    ranks = [per_worker[r * workers:(r + 1) * workers] for r in range(world)]
    counts = [sum(map(len, r)) for r in ranks]
    n = len(expected)
    if case["drop_last"]:
        expect(len(set(counts)) == 1, f"drop_last: ranks deliver different numbers of {what}: {counts}")
        expect(len(flat) == n // (b * world) * (b * world),
               f"drop_last: {len(flat)} of {n} {what} are delivered, {n // (b * world) * (b * world)} could be")
        expect(all(len(w) % b == 0 for w in per_worker), "drop_last: a worker ends with a partial batch")
    else:
        missing = sorted(due - have)
        expect(not missing, f"without drop_last {len(missing)} of {n} {what} are never delivered: {missing[:10]}")
        expect(max(counts) - min(counts) < world * b + b, f"ranks are unbalanced: {counts}")
    for r in ranks[:-1] if not case["drop_last"] else ranks:
        bs = [(len(w) + b - 1) // b for w in r]
        expect(max(bs) - min(bs) <= 1, f"the workers of one rank get {bs} batches")
    rec.label("drop_last" if case["drop_last"] else "keep_last", f"nodes={t['nodes']}",
              "empty-worker" if any(not w for w in per_worker) else "all-workers-busy")
    if len(flat) < n:
        rec.label("dropped")
    return len(per_worker) > 1 and n > 1


def run_plan(case, rec, strict=False):
    Full = internal("litdata.streaming.shuffle", "FullShuffle")
    No = internal("litdata.streaming.shuffle", "NoShuffle")
    Env = internal("litdata.utilities.env", "_DistributedEnv")
    intervals = _intervals(case)
    t = case["topo"]
    sh = (Full if case["shuffle"] else No)(_FakeCache(intervals), case["seed"], case["drop_last"])
    plans = []
    for r in sorted({0, t["world"] - 1}):
        chunks, ivs = sh.get_chunks_and_intervals_per_workers(
            Env(t["world"], r, t["nodes"]), t["workers"], case["batch"], case["epoch"])
        plans.append(([[int(c) for c in w] for w in chunks], [[list(map(int, i)) for i in w] for w in ivs]))
    expect(all(p == plans[0] for p in plans), "two ranks compute different plans")
    chunks, ivs = plans[0]
    per_worker = []
    for wc, wi in zip(chunks, ivs):
        expect(len(wc) == len(wi), "chunks and intervals of a worker differ in number")
        s = []
        for c, i in zip(wc, wi):
            o = intervals[c]
            expect(i[0] == o[0] and i[3] == o[3], f"chunk {c} is paired with the interval {i} instead of {list(o)}")
            expect(o[1] <= i[1] <= i[2] <= o[2], f"the interval {i} leaves the region {list(o)} of chunk {c}")
            s.extend(range(i[1], i[2]))
        per_worker.append(s)
    times = None if strict else listed(case, intervals)
    if times:
        rec.label("known-finding-region")
    expected = [x for c, o in enumerate(intervals) for x in list(range(o[1], o[2])) * (times[c] if times else 1)]
    many = judge(case, per_worker, expected, rec)
    shared = len([c for w in chunks for c in w]) > len({c for w in chunks for c in w})
    if shared:
        rec.label("shared-chunk")
    rec.hit(many and (shared or len(expected) % (case["batch"] * t["world"])))
    lens = [sh.get_len(Env(t["world"], r, t["nodes"]), t["workers"], case["batch"], case["epoch"])
            for r in range(t["world"])]
    got = [sum(len(w) for w in per_worker[r * t["workers"]:(r + 1) * t["workers"]]) for r in range(t["world"])]
    expect(lens == got, f"the reported lengths {lens} differ from what the ranks deliver {got}")


stream_case = st.fixed_dictionaries({
    "sizes": layout(6, 14),
    "topo": st.builds(lambda nodes, per, workers: {"nodes": nodes, "world": nodes * per, "workers": workers},
                      st.sampled_from([1, 1, 2]), st.integers(1, 3), st.integers(1, 3)),
    "batch": st.integers(1, 5),
    "epochs": st.integers(1, 3),
    "seed": st.integers(0, 50),
    "shuffle": st.booleans(),
    "drop_last": st.sampled_from([True, False, None]),
})


def run_stream(case, rec):
    from litdata import StreamingDataset

    t = case["topo"]
    n = sim.write_int_chunks(os.path.join(rec.dir, "ds"), case["sizes"])
    drop = case["drop_last"] if case["drop_last"] is not None else t["world"] > 1
    for epoch in range(1, case["epochs"] + 1):
        per_worker, lens = [], []
        for r in range(t["world"]):
            with sim.rank_env(t["world"], r, t["nodes"]):
                ds = StreamingDataset(os.path.join(rec.dir, "ds"), shuffle=case["shuffle"], seed=case["seed"],
                                      drop_last=case["drop_last"])
                ds.set_batch_size(case["batch"])
                ds.set_num_workers(t["workers"])
                ds.set_epoch(epoch)
                mine = sim.iterate_workers(ds, t["workers"])
                per_worker += mine
                lens.append((ds.get_len(t["workers"], case["batch"]), sum(map(len, mine))))
        c = {**case, "drop_last": drop, "roi": None, "epoch": epoch}
        intervals = _intervals(c)
        times = listed(c, intervals)
        if times:
            rec.label("known-finding-region")
        expected = [x for k, o in enumerate(intervals) for x in list(range(o[1], o[2])) * (times[k] if times else 1)]
        many = judge(c, per_worker, expected, rec)
        rec.hit(many)
        rec.label(f"epoch{epoch}")
        expect(all(a == b for a, b in lens), f"len() and the number of samples delivered differ, per rank: {lens}")


SUBS = [
    Sub("plan", plan_case, run_plan, quick=12000, thorough=150000),
    Sub("stream", stream_case, run_stream, quick=500, thorough=6000),
]


def run_plan_strict(case, rec):
    run_plan(case, rec, strict=True)


KNOWN_SUBS = [Sub("plan-strict", None, run_plan_strict, quick=0, thorough=0)]
