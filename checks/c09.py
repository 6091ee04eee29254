"""C09: taking a fraction or a multiple of a dataset."""

import collections
import math
import os

from hypothesis import strategies as st

from vlib import sim
from vlib.runner import Sub, expect

PROPERTY = "C09"
RULE = (
    "A case is a chunk layout, a fraction (below, at or above one), shuffle and a seed. Non-trivial: the fraction is not "
    "one and cuts at least one chunk in two, or repeats the dataset."
)
ASSUMPTIONS = ["the number of samples is judged with a tolerance of one sample, because the fraction is a float"]

sizes = st.one_of(*[st.lists(st.integers(1, 14), min_size=1, max_size=9)] * 7, st.lists(st.integers(60, 400), min_size=1, max_size=3))
fraction = st.one_of(
    st.integers(1, 99).map(lambda k: k / 100), st.integers(101, 420).map(lambda k: k / 100),
    st.builds(lambda k, d: k + d / 1000, st.integers(1, 2), st.integers(-15, 15)),
    st.sampled_from([1.0, 2.0, 3.0, 0.001, 0.5, 1.5]), st.floats(0.01, 3.5, allow_nan=False))

case_st = st.fixed_dictionaries({
    "sizes": sizes, "fraction": fraction, "shuffle": st.booleans(), "seed": st.integers(0, 40),
    "world": st.integers(1, 3), "workers": st.integers(1, 3), "batch": st.integers(1, 3),
})


def run(case, rec):
    from litdata import StreamingDataset

    path = os.path.join(rec.dir, "ds")
    n = sim.write_int_chunks(path, case["sizes"])
    f = float(case["fraction"])

    def make():
        return StreamingDataset(path, subsample=f, shuffle=case["shuffle"], seed=case["seed"], drop_last=False)

    ds = make()
    length = len(ds)
    expect(abs(length - n * f) <= 1 + 1e-6 * n, f"subsample={f} of {n} samples announces {length}")
    got = [x for x in ds]
    expect(len(got) == length, f"len() is {length} but {len(got)} samples are delivered")
    cnt = collections.Counter(got)
    whole = math.floor(f + 1e-9)
    expect(set(cnt) <= set(range(n)), "samples outside the dataset are delivered")
    lo, hi = (whole, whole + 1) if not math.isclose(f, round(f), abs_tol=1e-9) else (round(f) - (1 if f < round(f) else 0), round(f))
    bad = {i: cnt[i] for i in range(n) if not lo <= cnt[i] <= hi}
    expect(not bad, f"subsample={f}: samples are delivered {bad} times instead of {lo} or {hi}")
    if f < 1 and not case["shuffle"]:
        expect(got == list(range(length)), f"without shuffle the subset is not the beginning of the dataset: {got}")
    again = [x for x in make()]
    expect(again == got, f"the same subset is not reproduced: {got} then {again}")
    # random access covers the same samples
    r = make()
    direct = [r[i] for i in range(length)]
    expect(sorted(direct) == sorted(got), f"indexing delivers {sorted(direct)}, streaming {sorted(got)}")
    if not case["shuffle"]:
        expect(direct == got, f"indexing delivers {direct}, streaming {got}")
    # several ranks and workers divide the same subset
    parts = []
    for k in range(case["world"]):
        with sim.rank_env(case["world"], k, 1):
            d = make()
            d.set_batch_size(case["batch"])
            d.set_num_workers(case["workers"])
            parts += sim.iterate_workers(d, case["workers"])
    expect(sorted(x for p in parts for x in p) == sorted(got),
           f"{case['world']} ranks x {case['workers']} workers deliver {parts}, one process delivers {got}")
    rec.label("<1" if f < 1 else "=1" if f == 1 else ">1", "shuffle" if case["shuffle"] else "ordered")
    rec.hit(f != 1 and length > 0)


SUBS = [Sub("fraction", case_st, run, quick=1600, thorough=30000)]
