"""C18: the work is split between nodes and workers without losing, repeating or altering an input."""

import collections
import contextlib
import io
import os
import time
import traceback

import numpy as np
from hypothesis import strategies as st

from vlib import proc, sim
from vlib.runner import Sub, expect, internal

PROPERTY = "C18"
RULE = (
    "split: a list of inputs (of any shape, file paths among them), weights, and a number of nodes and workers; "
    "nodes: an optimize() call run by several node processes into one folder. Non-trivial: at least two workers and more "
    "inputs than workers."
)
ASSUMPTIONS = [
    "the nodes agree on the inputs and the seed, start before any of them has written a chunk, and the last node ends "
    "last (the launcher of a multi-node job provides this)",
]

leaf = st.one_of(st.integers(-5, 5), st.text("ab/", max_size=3), st.floats(0, 1, width=16), st.booleans(), st.none())
item_st = st.one_of(leaf, st.tuples(leaf, leaf), st.lists(leaf, max_size=3), st.dictionaries(st.text("xy", max_size=2), leaf,
                                                                                       max_size=2))
split_st = st.fixed_dictionaries({
    "items": st.one_of(st.lists(item_st, min_size=1, max_size=40), st.lists(st.integers(0, 9), min_size=1, max_size=120)),
    "as_tuple": st.booleans(),
    "mode": st.sampled_from(["sequential", "weighted", "weighted", "files"]),
    "weights": st.lists(st.one_of(st.integers(1, 5), st.integers(1, 10**9), st.floats(0.1, 3)), min_size=7, max_size=17),
    "nodes": st.integers(1, 4), "workers": st.integers(1, 7),
    "seed": st.integers(0, 50),
})


@contextlib.contextmanager
def _node(nodes, rank):
    old = {k: os.environ.get(k) for k in ("DATA_OPTIMIZER_NUM_NODES", "DATA_OPTIMIZER_NODE_RANK")}
    os.environ["DATA_OPTIMIZER_NUM_NODES"], os.environ["DATA_OPTIMIZER_NODE_RANK"] = str(nodes), str(rank)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def _typed(x):
    """Equality which tells 1 from 1.0, True and '1', a tuple from a list."""
    if isinstance(x, dict):
        return ("dict", tuple((k, _typed(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(_typed(v) for v in x))
    return (type(x).__name__, repr(x))


def run_split(case, rec):
    m = "litdata.processing.data_processor"
    seq, weighted, sizes = (internal(m, n) for n in (
        "_map_items_to_workers_sequentially", "_map_items_to_workers_weighted", "_get_item_filesizes"))
    items = [tuple(i) if case["as_tuple"] and isinstance(i, list) else i for i in case["items"]]
    nodes, workers = case["nodes"], case["workers"]
    weights = [case["weights"][i % len(case["weights"])] for i in range(len(items))]
    if case["mode"] == "files":
        items, weights = [], []
        for i, it in enumerate(case["items"][:12]):
            p, q = os.path.join(rec.dir, f"a{i}"), os.path.join(rec.dir, f"b{i}")
            a, b = 1 + (i * 53) % 97, 1 + (i * 31) % 11
            for path, n in ((p, a), (q, b)):
                with open(path, "wb") as f:
                    f.write(b"x" * n)
            items.append([p, (p, repr(it) + "?", q), {"p": p, "q": [q]}][i % 3])
            weights.append([a, a + b, a + b][i % 3])
        got = sizes(items, base_path=rec.dir)
        expect(list(got) == weights, f"the files of the items {items} have {weights} bytes, found {got}")
    given = list(items)
    wgiven = list(weights)
    lists = []
    for r in range(nodes):
        with _node(nodes, r):
            np.random.seed(case["seed"])
            if case["mode"] == "sequential":
                part = seq(num_workers=workers, user_items=items)
            else:
                part = weighted(num_workers=workers, user_items=items, weights=weights, file_size=False)
        expect(len(part) == workers, f"node {r} of {nodes} has lists for {len(part)} workers, expected {workers}")
        lists += [list(p) for p in part]
    what = f"{case['mode']}, {nodes} nodes of {workers} workers, {len(items)} items"
    flat = [i for p in lists for i in p]
    want, have = [_typed(i) for i in given], [_typed(i) for i in flat]
    expect(collections.Counter(have) == collections.Counter(want),
           f"{what}: the workers together process {flat}, the inputs are {given}")
    expect(items == given and weights == wgiven, f"{what}: the inputs themselves were changed")
    counts = [len(p) for p in lists]
    if case["mode"] == "sequential":
        expect(have == want, f"{what}: the workers in turn process {flat}, the inputs are {given}")
        expect(max(counts) - min(counts) <= 1, f"{what}: the workers have {counts} inputs")
    else:
        # items which look alike may weigh differently: the load of a worker is known only if its items are told apart
        by = collections.defaultdict(set)
        for i, w in zip(given, weights):
            by[_typed(i)].add(w)
        if all(len(v) == 1 for v in by.values()):
            load = [sum(next(iter(by[_typed(i)])) for i in p) for p in lists]
            expect(max(load) - min(load) <= max(weights) * (1 + 1e-9) + 1e-6,
                   f"{what}: the loads {load} are not balanced, the weights are {weights}")
        if len(set(weights)) == 1:
            expect(max(counts) - min(counts) <= 1, f"{what}: equal weights, and the workers have {counts} inputs")
        rec.label("loads" if all(len(v) == 1 for v in by.values()) else "loads-unknown")
    rec.hit(nodes * workers > 1 and len(given) > nodes * workers)
    rec.label(case["mode"], f"nodes={nodes}")


@st.composite
def nodes_cases(draw):
    nodes, workers = draw(st.integers(2, 3)), draw(st.integers(1, 3))
    return {"nodes": nodes, "workers": workers, "n": nodes * workers + draw(st.integers(0, 20)),
            "chunk": draw(st.integers(1, 6)), "weights": draw(st.booleans()), "read_workers": draw(st.integers(1, 3)),
            "compression": draw(st.sampled_from([None, "zstd"]))}


def run_nodes(case, rec):
    """Each node is a process of its own; their order of progress is forced through files."""
    from litdata import StreamingDataset, optimize

    out, flags = os.path.join(rec.dir, "out"), os.path.join(rec.dir, "flags")
    os.makedirs(out)
    os.makedirs(flags)
    n, nodes, workers = case["n"], case["nodes"], case["workers"]
    weights = [1 + (i * 5) % 4 for i in range(n)] if case["weights"] else None

    def flag(name):
        return os.path.join(flags, name)

    def node(rank):
        def fn(x):
            open(flag(f"started{rank}"), "w").close()
            wait = [f"started{r}" for r in range(nodes)]
            if rank == nodes - 1:
                wait += [f"done{r}" for r in range(nodes - 1)]
            while not all(os.path.exists(flag(f)) for f in wait):
                time.sleep(0.002)
            return {"x": x, "rank": int(os.environ["DATA_OPTIMIZER_GLOBAL_RANK"])}

        os.environ.update(proc.dirs(os.path.join(rec.dir, f"node{rank}")))
        os.environ["DATA_OPTIMIZER_NUM_NODES"], os.environ["DATA_OPTIMIZER_NODE_RANK"] = str(nodes), str(rank)
        optimize(fn=fn, inputs=list(range(n)), output_dir=out, num_workers=workers, chunk_size=case["chunk"],
                 compression=case["compression"], weights=weights, start_method="fork")
        open(flag(f"done{rank}"), "w").close()

    def job():
        pids = []
        for r in range(nodes):
            pid = os.fork()
            if pid == 0:
                try:
                    node(r)
                except BaseException:
                    with open(flag(f"error{r}"), "w") as f:
                        f.write(traceback.format_exc())
                finally:
                    os._exit(0)
            pids.append(pid)
        while pids:
            errors = [f for f in os.listdir(flags) if f.startswith("error")]
            if errors:
                raise RuntimeError(errors[0] + ": " + open(flag(errors[0])).read())
            done, _ = os.waitpid(-1, os.WNOHANG)
            if done:
                pids = [p for p in pids if p != done]
            else:
                time.sleep(0.005)
        errors = [f for f in os.listdir(flags) if f.startswith("error")]
        if errors:
            raise RuntimeError(errors[0] + ": " + open(flag(errors[0])).read())

    res = proc.run(job, 60)
    expect(res.kind == "ok", f"{case}: {res}")
    ds = StreamingDataset(out)
    got = [ds[i] for i in range(len(ds))]
    xs = [g["x"] for g in got]
    expect(sorted(xs) == list(range(n)), f"{case}: the dataset holds {xs}")
    expect(weights is not None or xs == list(range(n)), f"{case}: the samples are in the order {xs}")
    ranks = [g["rank"] for g in got]
    expect(ranks == sorted(ranks), f"{case}: the samples come from the workers {ranks}")
    expect(set(ranks) == set(range(nodes * workers)), f"{case}: only the workers {sorted(set(ranks))} had samples")
    d = StreamingDataset(out)
    d.set_num_workers(case["read_workers"])
    streamed = [x["x"] for ws in sim.iterate_workers(d, case["read_workers"]) for x in ws]
    expect(sorted(streamed) == list(range(n)), f"{case}: streaming delivers {streamed}")
    rec.hit(n > nodes * workers)
    rec.label(f"nodes={nodes}", "weights" if weights else "plain")


SUBS = [
    Sub("split", split_st, run_split, quick=3000, thorough=100000),
    Sub("nodes", nodes_cases(), run_nodes, quick=64, thorough=2500, hang_s=200),
]
