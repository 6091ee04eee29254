"""C06: pausing and resuming a stream."""

import copy
import io
import os

from hypothesis import strategies as st

from vlib import sim
from vlib.runner import Sub, expect

PROPERTY = "C06"
RULE = (
    "A case is a chunk layout, a topology (nodes, ranks, workers), a batch size, shuffle, drop_last, an epoch and a list "
    "of interruption points; every interruption saves the state after some batches, throws the objects away, restores "
    "the state into fresh ones and goes on. Non-trivial: at least one interruption strictly inside an epoch."
)
ASSUMPTIONS = ["the topology and the loader arguments are the same before and after an interruption (the code requires it)"]


def saved(state):
    """What the README does with a state: torch.save and torch.load."""
    import torch

    f = io.BytesIO()
    torch.save(state, f)
    f.seek(0)
    return torch.load(f)


def layout(max_chunks=6, max_size=14):
    small = st.lists(st.integers(1, max_size), min_size=1, max_size=max_chunks)
    regular = st.builds(lambda n, s, last: [s] * n + [max(1, min(last, s))], st.integers(0, max_chunks - 1),
                        st.integers(1, max_size), st.integers(1, max_size))
    return st.one_of(small, regular)


dataset_case = st.fixed_dictionaries({
    "sizes": layout(),
    "topo": st.builds(lambda nodes, per, workers: {"nodes": nodes, "world": nodes * per, "workers": workers},
                      st.sampled_from([1, 1, 2]), st.integers(1, 3), st.integers(1, 4)),
    "rank": st.integers(0, 5),
    "batch": st.integers(1, 5),
    "epoch": st.integers(1, 3),
    "seed": st.integers(0, 30),
    "shuffle": st.booleans(),
    "drop_last": st.booleans(),
    "subsample": st.sampled_from([1.0, 1.0, 0.6, 1.5]),
    "cuts": st.lists(st.integers(0, 1000), min_size=1, max_size=3),
})


def run_dataset(case, rec):
    """StreamingDataset.state_dict / load_state_dict inside the workers of one rank."""
    from litdata import StreamingDataset

    t = case["topo"]
    b = case["batch"]
    sim.write_int_chunks(os.path.join(rec.dir, "ds"), case["sizes"])
    rank = case["rank"] % t["world"]

    def fresh():
        ds = StreamingDataset(os.path.join(rec.dir, "ds"), shuffle=case["shuffle"], seed=case["seed"],
                              drop_last=case["drop_last"], subsample=case["subsample"])
        ds.set_batch_size(b)
        ds.set_num_workers(t["workers"])
        return ds

    if case["shuffle"] and case["epoch"] > 1:
        t["nodes"] = 1  # what several nodes deliver after the first epoch: C04, with its known finding on shared chunks

    with sim.rank_env(t["world"], rank, t["nodes"]):
        ds = fresh()
        ds.set_epoch(case["epoch"])
        full = sim.iterate_workers(ds, t["workers"])
        batches = sim.assemble(full, b)
        total = sum(map(len, full))
        if case["subsample"] != 1.0:
            rec.label("subsampled")
        for cut in case["cuts"]:
            k = cut % (len(batches) + 1)
            used = [0] * t["workers"]
            for w, items in batches[:k]:
                used[w] += len(items)
            yielded = sum(used)
            if not 0 < yielded < total:
                continue
            rec.hit()
            rec.label("empty-worker" if any(not s for s in full) else "busy",
                      "worker-exhausted" if any(u == len(s) for u, s in zip(used, full)) else "mid")
            state = saved(ds.state_dict(yielded, t["workers"], b))
            d2 = fresh()
            d2.load_state_dict(state)
            got = []
            for w in range(t["workers"]):
                d = copy.deepcopy(d2)
                with sim.worker_env(w, t["workers"]):
                    got.append([x for x in d])
                    expect(d.current_epoch == case["epoch"] + 1, "the epoch is not advanced at the end of a resumed epoch")
            want = [s[u:] for s, u in zip(full, used)]
            expect(got == want, f"after {yielded} of {total} samples (batch {k} of {len(batches)}) the workers resume with "
                   f"{got} instead of {want}")


loader_case = st.fixed_dictionaries({
    "sizes": layout(5, 10),
    "workers": st.integers(0, 3),
    "world": st.sampled_from([1, 1, 1, 2, 3]),
    "rank": st.integers(0, 2),
    "batch": st.integers(1, 5),
    "seed": st.integers(0, 30),
    "shuffle": st.booleans(),
    "drop_last": st.booleans(),
    "plan": st.lists(st.integers(0, 60), min_size=1, max_size=4),
})


def _as_list(b):
    return [int(x) for x in b]


def run_loader(case, rec):
    with sim.rank_env(case["world"], case["rank"] % case["world"], 1):
        _run_loader(case, rec)


def _run_loader(case, rec):
    """StreamingDataLoader: a chain of interrupted runs against an uninterrupted one, over several epochs."""
    from litdata import StreamingDataLoader, StreamingDataset

    sim.write_int_chunks(os.path.join(rec.dir, "ds"), case["sizes"])

    def fresh():
        ds = StreamingDataset(os.path.join(rec.dir, "ds"), shuffle=case["shuffle"], seed=case["seed"],
                              drop_last=case["drop_last"])
        return StreamingDataLoader(ds, batch_size=case["batch"], num_workers=case["workers"])

    ref = fresh()
    epochs = [[_as_list(b) for b in ref] for _ in range(3)]
    if not epochs[0]:
        return
    e, pos = 0, 0  # where the interrupted history is
    dl = fresh()
    for cut in case["plan"]:
        if e >= 3:
            break
        left = len(epochs[e]) - pos
        k = cut % (left + 1)
        got = []
        complete = k == left
        it = iter(dl)
        for _ in range(k):
            got.append(_as_list(next(it)))
        if complete:
            expect(next(it, None) is None, f"more batches than the uninterrupted epoch has: epoch {e + 1}")
        expect(got == epochs[e][pos:pos + k], f"epoch {e + 1} from batch {pos}: got {got}, uninterrupted run gives "
               f"{epochs[e][pos:pos + k]}")
        state = dl.state_dict()
        if pos + k > 0 and not complete:
            rec.hit()
        rec.label("boundary" if complete else "inside", f"workers={case['workers']}")
        del it
        dl = fresh()
        if e == 0 and pos + k == 0 and not complete:
            continue  # nothing was ever consumed: a fresh loader is the same thing
        dl.load_state_dict(saved(state))
        pos += k
        if complete:
            e, pos = e + 1, 0
    if e < 3:
        got = [_as_list(b) for b in dl]
        expect(got == epochs[e][pos:], f"epoch {e + 1} from batch {pos}: got {got}, uninterrupted run gives {epochs[e][pos:]}")
        if e + 1 < 3:
            got = [_as_list(b) for b in dl]
            expect(got == epochs[e + 1], f"the epoch after a resumed epoch {e + 1}: got {got}, uninterrupted run gives "
                   f"{epochs[e + 1]}")


SUBS = [
    Sub("dataset", dataset_case, run_dataset, quick=4000, thorough=60000),
    Sub("loader", loader_case, run_loader, quick=480, thorough=8000),
]
