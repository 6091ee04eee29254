"""C10: splitting a dataset."""

import collections
import os

from hypothesis import strategies as st

from vlib import sim
from vlib.runner import Sub, expect

PROPERTY = "C10"
RULE = (
    "A case is a chunk layout, a parent dataset (fraction, shuffle, seed), a list of split fractions and a split seed. "
    "Non-trivial: at least two non-empty splits, one of which ends inside a chunk."
)
ASSUMPTIONS = ["split fractions are floats whose float sum is at most one (others are rejected with ValueError)"]


@st.composite
def splits(draw):
    k = draw(st.integers(1, 5))
    left, out = 100, []
    for _ in range(k):
        v = draw(st.integers(0, left))
        out.append(v)
        left -= v
    if draw(st.booleans()):
        out[-1] += left
    out = [v / 100 for v in draw(st.permutations(out))]
    while sum(out) > 1:
        out[out.index(max(out))] -= 0.01
    return [float(max(v, 0.0)) for v in out]


case_st = st.fixed_dictionaries({
    "sizes": st.lists(st.integers(1, 14), min_size=1, max_size=9),
    "splits": splits(),
    "seed": st.integers(0, 40), "split_seed": st.integers(0, 40),
    "fraction": st.sampled_from([1.0, 1.0, 1.0, 0.5, 0.33, 0.9, 1.5, 2.0, 2.4]),
    "shuffle": st.booleans(),
    "iterate_parent_first": st.booleans(),
    "workers": st.integers(1, 3), "batch": st.integers(1, 3),
})


def run(case, rec):
    from litdata import StreamingDataset, train_test_split

    path = os.path.join(rec.dir, "ds")
    sim.write_int_chunks(path, case["sizes"])

    def parent():
        return StreamingDataset(path, subsample=float(case["fraction"]), shuffle=case["shuffle"], seed=case["seed"],
                                drop_last=False)

    p = parent()
    content = [x for x in parent()]
    if case["iterate_parent_first"]:
        for _ in p:
            pass
    n = len(content)
    fr = [float(f) for f in case["splits"]]
    parts = train_test_split(p, fr, seed=case["split_seed"])
    expect(len(parts) == len(fr), f"{len(parts)} datasets for {len(fr)} fractions")
    used = collections.Counter()
    parent_count = collections.Counter(content)
    streams = []
    for f, d in zip(fr, parts):
        length = len(d)
        expect(abs(length - n * f) < 1 + 1e-6, f"a split of {f} of {n} samples announces {length}")
        expect(length <= n * f + 1e-6, f"a split of {f} of {n} samples announces {length}")
        got = [x for x in d]
        expect(len(got) == length, f"the split of {f} announces {length} samples and delivers {len(got)}")
        streams.append(sorted(got))
        used.update(got)
    over = {x: (c, parent_count[x]) for x, c in used.items() if c > parent_count[x]}
    expect(not over, f"samples delivered by the splits more often than by the parent (sample: splits, parent): {over}")
    for f, d, s in zip(fr, train_test_split(parent(), fr, seed=case["split_seed"]), streams):
        direct = sorted(d[i] for i in range(len(d)))
        expect(direct == s, f"indexing the same split again gives {direct}, streaming gave {s}")
    for d, s in zip(train_test_split(parent(), fr, seed=case["split_seed"]), streams):
        d.set_batch_size(case["batch"])
        d.set_num_workers(case["workers"])
        w = sorted(x for ws in sim.iterate_workers(d, case["workers"]) for x in ws)
        expect(w == s, f"{case['workers']} workers deliver {w} of a split, one process {s}")
    expect(len(p) == n, f"splitting changed the parent's length from {n} to {len(p)}")
    after = sorted(x for x in p)
    expect(after == sorted(content), "splitting changed the parent's content")
    rec.hit(sum(1 for s in streams if s) >= 2)
    rec.label("parent=1" if case["fraction"] == 1 else "parent<1" if case["fraction"] < 1 else "parent>1",
              "shuffle" if case["shuffle"] else "ordered", "empty-split" if any(not s for s in streams) else "no-empty")


SUBS = [Sub("split", case_st, run, quick=1600, thorough=30000)]
