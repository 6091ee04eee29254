"""C02: a sample is stored faithfully or refused."""

import os
import warnings
from collections import OrderedDict, deque

from hypothesis import strategies as st

from vlib import sim, values
from vlib.runner import Sub, expect

PROPERTY = "C02"
RULE = (
    "A case is the tree of the first sample and up to 9 others, most of them altered: keys in another order, missing, extra "
    "or renamed, other containers, longer or shorter lists, a leaf of another kind, type or number of dimensions, a leaf "
    "instead of a container and the reverse. Non-trivial: an altered sample is written after a sample that was accepted."
)
ASSUMPTIONS = [
    "a number written where the first sample has a float is converted to a float",
    "a file given where the first sample has a TIFF file is a TIFF file",
    "images of one dataset may be stored in the format of the first one (JPEG or raw pixels)",
]

alter_st = st.one_of(
    st.just(["same"]),
    st.tuples(st.sampled_from(["reorder", "container", "drop", "rename", "extra", "unwrap"]), st.integers(0, 5)),
    st.tuples(st.just("leaf"), st.integers(0, 5), values.leaf_kinds),
    st.tuples(st.just("leaf"), st.integers(0, 5), values.leaf_kinds),
    st.tuples(st.just("wrap"), st.integers(0, 5), st.integers(0, 2), values.leaf_kinds),
    st.tuples(st.just("dtype"), st.integers(0, 5), st.sampled_from(values.TORCH_DTYPES), st.integers(0, 3)),
)
simple_leaf = st.one_of(
    st.sampled_from([["int"], ["float"], ["bool"], ["str"], ["bytes"], ["none"], ["np0"], ["npscalar"], ["text"]]),
    st.tuples(st.sampled_from(["np", "torch"]), st.sampled_from(values.TORCH_DTYPES), st.integers(1, 2), st.just("c")),
)
case_st = st.fixed_dictionaries({
    "tree": values.tree_st(st.one_of(values.leaf_kinds, simple_leaf)).filter(values.leaves_of),
    "others": st.lists(alter_st, min_size=1, max_size=9),
    "chunk_size": st.integers(1, 5),
    "seed": st.integers(0, 10**6),
})


def nodes(tree, path=()):
    yield path, tree
    if tree[0] != "leaf":
        for i, c in enumerate(tree[1]):
            yield from nodes(c[1] if tree[0] in ("dict", "odict") else c, path + (i,))


def replace(tree, path, new):
    if not path:
        return new
    k, c = tree
    i = path[0]
    c = list(c)
    c[i] = [c[i][0], replace(c[i][1], path[1:], new)] if k in ("dict", "odict") else replace(c[i], path[1:], new)
    return [k, c]


def altered(tree, a):
    k = a[0]
    if k in ("same", "reorder"):
        return tree
    leaves = [(p, t) for p, t in nodes(tree) if t[0] == "leaf"]
    inner = [(p, t) for p, t in nodes(tree) if t[0] != "leaf"]
    if k == "leaf":
        p, t = leaves[a[1] % len(leaves)]
        return replace(tree, p, ["leaf", a[2]])
    if k == "dtype":
        p, t = leaves[a[1] % len(leaves)]
        if t[1][0] in ("np", "torch"):
            return replace(tree, p, ["leaf", [t[1][0], a[2], a[3] or int(t[1][0] == "np"), "c"]])
        return tree
    if k == "wrap":
        p, t = leaves[a[1] % len(leaves)]
        kind = ["list", "tuple", "list"][a[2]]
        return replace(tree, p, [kind, [["leaf", a[3]]] * a[2] if a[2] != 1 else [t]])
    if not inner:
        return tree
    p, t = inner[a[1] % len(inner)]
    kind, c = t
    if k == "container":
        other = {"list": "tuple", "tuple": "list", "dict": "odict", "odict": "dict", "deque": "list"}[kind]
        return replace(tree, p, [other, c])
    if k == "drop":
        return replace(tree, p, [kind, c[:-1]])
    if k == "rename":
        return replace(tree, p, [kind, [["zz", c[0][1]]] + c[1:]]) if kind in ("dict", "odict") and c else tree
    if k == "extra":
        new = ["yy", ["leaf", ["int"]]] if kind in ("dict", "odict") else ["leaf", ["int"]]
        return replace(tree, p, [kind, c + [new]])
    if k == "unwrap":
        sub = leaves[a[1] % len(leaves)][1]
        return replace(tree, p, sub)
    raise AssertionError(k)


def same(got, given, want, kind):
    """kind: the leaf kind of the first accepted sample at this place."""
    import numpy as np

    if values.diff(got, want) is None or values.diff(got, given) is None:
        return True
    if isinstance(got, bytes) and isinstance(given, (bytes, bytearray)) and got == given:
        return True
    if kind in ("pil", "jpeg", "jpegs") or isinstance(given, values.Jpeg):
        return not isinstance(got, (int, float, str, bytes))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "float":
            try:
                f = np.float64(given)
                return bool(f == got) or bool(f != f and got != got)
            except (TypeError, ValueError):
                return False
        try:
            eq = got == given
            if hasattr(eq, "all"):
                eq = eq.all()
            if bool(eq):
                gs, ws = np.shape(got), np.shape(given)
                return int(np.prod(gs)) == int(np.prod(ws)) and (len(gs) == len(ws) or np.prod(gs) == 1)
        except Exception:
            return False
    return False


def compare(got, given, want, kinds, where="sample"):
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            return f"{where}: keys {list(got) if isinstance(got, dict) else got!r:.80} instead of {list(want)}"
        for k in want:
            sub = kinds[k] if isinstance(kinds, dict) and k in kinds else None
            m = compare(got[k], given[k], want[k], sub, f"{where}[{k!r}]")
            if m:
                return m
        return None
    jpegs = isinstance(want, (list, tuple)) and len(want) and all(isinstance(x, values.Jpeg) for x in want)
    if isinstance(want, (list, tuple, deque)) and not jpegs and isinstance(got, (list, tuple, deque)):
        if len(got) != len(want):
            return f"{where}: {len(got)} elements instead of {len(want)}"
        for i, (a, g, b) in enumerate(zip(got, given, want)):
            m = compare(a, g, b, kinds[i] if isinstance(kinds, list) and i < len(kinds) else None, f"{where}[{i}]")
            if m:
                return m
        return None
    if not same(got, given, want, kinds if isinstance(kinds, str) else None):
        return f"{where}: {values.describe(got)} {got!r:.120} instead of {values.describe(want)} {want!r:.120}"
    return None


def kinds_of(tree):
    if tree[0] == "leaf":
        return tree[1][0]
    if tree[0] in ("dict", "odict"):
        return {k: kinds_of(t) for k, t in tree[1]}
    return [kinds_of(t) for t in tree[1]]


def run(case, rec):
    from litdata import StreamingDataset
    from litdata.streaming import Cache

    out, files = os.path.join(rec.dir, "out"), os.path.join(rec.dir, "files")
    os.makedirs(files)
    accepted, first = [], None
    cache = Cache(out, chunk_size=case["chunk_size"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for i, a in enumerate([["same"]] + case["others"]):
            tree = altered(case["tree"], a)
            given, want = values.build(tree, case["seed"] + i, files, reorder=a[0] == "reorder")
            try:
                cache[len(accepted)] = given
            except Exception as e:
                expect(i > 0, "the first sample was refused: %r", e)
                rec.label("refused:" + a[0])
                continue
            if first is None:
                first = kinds_of(tree)
            elif a[0] != "same":
                rec.hit()
                rec.label("accepted:" + a[0])
            accepted.append((a, given, want))
        cache.done()
        cache.merge()
        ds = StreamingDataset(out)
        expect(len(ds) == len(accepted), "%d samples instead of the %d accepted", len(ds), len(accepted))
        for i, (a, given, want) in enumerate(accepted):
            try:
                got = ds[i]
            except Exception as e:
                if type(e).__name__ == "TiffFileError" and a[0] != "same":
                    continue  # the file given was no TIFF file
                expect(False, "sample %d (%s) was accepted but can't be read: %r", i, a, e)
            m = compare(got, given, want, first, f"sample {i} ({a})")
            expect(m is None, "%s", m)
    sim.stop_reader_threads(ds)


_ = OrderedDict
SUBS = [Sub("altered", case_st, run, quick=1600, thorough=60000)]
