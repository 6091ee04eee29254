"""C08: pausing and resuming a mix of datasets."""

import io
import os

from hypothesis import strategies as st

from vlib import sim
from vlib.runner import Sub, expect

PROPERTY = "C08"
RULE = (
    "A case is two or three datasets, mixing weights or none, a batching method, a topology, a batch size and a list of "
    "interruption points; every interruption saves the loader's state after some batches, throws the objects away, "
    "restores the state into fresh ones and goes on. Non-trivial: at least one interruption strictly inside an epoch."
)
ASSUMPTIONS = ["the topology and the loader arguments are the same before and after an interruption (the code requires it)"]
BASE = 100000


def saved(state):
    import torch

    f = io.BytesIO()
    torch.save(state, f)
    f.seek(0)
    return torch.load(f)


case_st = st.fixed_dictionaries({
    "datasets": st.lists(st.lists(st.integers(1, 9), min_size=1, max_size=4), min_size=2, max_size=3),
    "over_all": st.booleans(),
    "weights": st.one_of(st.none(), st.lists(st.sampled_from([1.0, 2.0, 0.5]), min_size=3, max_size=3)),
    "method": st.sampled_from(["stratified", "stratified", "per_stream"]),
    "workers": st.integers(0, 3),
    "world": st.sampled_from([1, 1, 2]),
    "rank": st.integers(0, 1),
    "batch": st.integers(1, 5),
    "seed": st.integers(0, 30),
    "shuffle": st.booleans(),
    "drop_last": st.sampled_from([False, False, True]),
    "collate": st.booleans(),
    "plan": st.lists(st.integers(0, 60), min_size=1, max_size=3),
})


def list_collate(b):
    return list(b)


def as_list(b):
    return [int(x) for x in b]


def run(case, rec, boundary=False):
    with sim.rank_env(case["world"], case["rank"] % case["world"], 1):
        _run(case, rec, boundary)


def run_boundary(case, rec):
    run(case, rec, boundary=True)


def _run(case, rec, boundary):
    from litdata import CombinedStreamingDataset, StreamingDataLoader, StreamingDataset

    for i, sizes in enumerate(case["datasets"]):
        sim.write_int_chunks(os.path.join(rec.dir, f"ds{i}"), sizes, base=BASE * i)
    w = None if case["over_all"] or not case["weights"] else case["weights"][: len(case["datasets"])]

    def fresh():
        ds = [StreamingDataset(os.path.join(rec.dir, f"ds{i}"), shuffle=case["shuffle"], seed=case["seed"] + 3,
                               drop_last=case["drop_last"]) for i in range(len(case["datasets"]))]
        mix = CombinedStreamingDataset(ds, seed=case["seed"], weights=w, iterate_over_all=case["over_all"],
                                       batching_method=case["method"])
        return StreamingDataLoader(mix, batch_size=case["batch"], num_workers=case["workers"],
                                   collate_fn=list_collate if case["collate"] else None)

    if not sum(len(StreamingDataset(os.path.join(rec.dir, f"ds{i}"), drop_last=case["drop_last"]))
               for i in range(len(case["datasets"]))):
        return  # nothing for this rank: refused by the constructor
    ref = fresh()
    epochs = [[as_list(b) for b in ref] for _ in range(3)]
    if not all(epochs):
        return
    e, pos = 0, 0
    dl = fresh()
    for cut in case["plan"]:
        if e >= 3:
            break
        left = len(epochs[e]) - pos
        k = cut % (left + 1)
        if k == left and not case["over_all"] and not boundary:
            k -= 1  # see known-findings.json: the end of an epoch of a weighted mix
        complete = k == left
        it = iter(dl)
        got = [as_list(next(it)) for _ in range(k)]
        if complete:
            expect(next(it, None) is None, f"more batches than the uninterrupted epoch has: epoch {e + 1}")
        expect(got == epochs[e][pos:pos + k], f"epoch {e + 1} from batch {pos}: got {got}, uninterrupted run gives "
               f"{epochs[e][pos:pos + k]}")
        state = dl.state_dict()
        if pos + k > 0 and not complete:
            rec.hit()
        rec.label("boundary" if complete else "inside", f"workers={case['workers']}", case["method"])
        del it
        dl = fresh()
        if e == 0 and pos + k == 0 and not complete:
            continue
        dl.load_state_dict(saved(state))
        pos += k
        if complete:
            e, pos = e + 1, 0
    if e < 3:
        got = [as_list(b) for b in dl]
        expect(got == epochs[e][pos:], f"epoch {e + 1} from batch {pos}: got {got}, uninterrupted run gives {epochs[e][pos:]}")
        if e + 1 < 3:
            got = [as_list(b) for b in dl]
            expect(got == epochs[e + 1], f"the epoch after a resumed epoch {e + 1}: got {got}, uninterrupted run gives "
                   f"{epochs[e + 1]}")


SUBS = [Sub("loader", case_st, run, quick=480, thorough=8000)]
KNOWN_SUBS = [Sub("boundary", None, run_boundary, quick=0, thorough=0)]
