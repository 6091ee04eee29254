"""C05: what shuffling may and may not do."""

import os

from hypothesis import strategies as st

from vlib import sim
from vlib.runner import Sub, expect

PROPERTY = "C05"
RULE = (
    "A case is a chunk layout, a topology, a seed and a range of epochs; the order delivered to every worker is compared "
    "with the order of an independent instance, of other epochs and of other seeds. Non-trivial: at least two chunks of "
    "which one has at least two samples, streamed with shuffling."
)
ASSUMPTIONS = [
    "'the order changes' is only judged on datasets and numbers of epochs or seeds for which a coincidence has a "
    "probability below 1e-12",
]


def layout(max_chunks=8, max_size=12):
    small = st.lists(st.integers(1, max_size), min_size=1, max_size=max_chunks)
    regular = st.builds(lambda n, s, last: [s] * n + [max(1, min(last, s))], st.integers(1, max_chunks - 1),
                        st.integers(1, max_size), st.integers(1, max_size))
    return st.one_of(small, regular)


topo = st.builds(lambda nodes, per, workers: {"nodes": nodes, "world": nodes * per, "workers": workers},
                 st.sampled_from([1, 1, 2]), st.integers(1, 2), st.integers(1, 3))


def stream(path, case, epoch, seed=None, shuffle=True, via_set_epoch=True, warm=0, **kw):
    """Per global worker, the order of samples of one epoch."""
    from litdata import StreamingDataset

    t, out = case["topo"], []
    for r in range(t["world"]):
        with sim.rank_env(t["world"], r, t["nodes"]):
            ds = StreamingDataset(path, shuffle=shuffle, seed=case["seed"] if seed is None else seed, drop_last=False, **kw)
            ds.set_batch_size(case["batch"])
            ds.set_num_workers(t["workers"])
            for w in range(t["workers"]):
                import copy

                d = copy.deepcopy(ds)
                with sim.worker_env(w, t["workers"]):
                    for _ in range(warm):
                        for _ in d:
                            pass
                    if via_set_epoch:
                        d.set_epoch(epoch)
                    out.append([x for x in d])
    return out


base = {
    "topo": topo,
    "batch": st.integers(1, 4),
    "seed": st.integers(0, 2**20),
}
repro_case = st.fixed_dictionaries({**base, "sizes": layout(), "epoch": st.integers(1, 4)})


def run_repro(case, rec):
    path = os.path.join(rec.dir, "ds")
    n = sim.write_int_chunks(path, case["sizes"])
    e = case["epoch"]
    a = stream(path, case, e)
    b = stream(path, case, e)
    expect(a == b, f"the same seed and epoch give two orders: {a} and {b}")
    flat = sorted(x for w in a for x in w)
    if e == 1 or case["topo"]["nodes"] == 1:  # otherwise C04's business, with its known finding on shared chunks
        expect(flat == list(range(n)), f"shuffling is not a permutation: {flat}")
    c = stream(path, case, e, via_set_epoch=False, warm=e - 1)
    expect(a == c, f"epoch {e} reached by iterating gives {c}, by set_epoch gives {a}")
    plain = stream(path, case, e, shuffle=False)
    expect([x for w in plain for x in w] == list(range(n)), f"without shuffling the order is not the dataset's: {plain}")
    rec.hit(len(case["sizes"]) > 1 and max(case["sizes"]) > 1)
    rec.label(f"nodes={case['topo']['nodes']}", f"epoch={e}")


def run_layout_only(case, rec):
    """The order depends on the seed, the epoch and the shape of the dataset, not on where it is stored or its values."""
    p1, p2 = os.path.join(rec.dir, "a"), os.path.join(rec.dir, "elsewhere", "b")
    sim.write_int_chunks(p1, case["sizes"])
    sim.write_chunks(p2, case["sizes"], make=lambda i: {"v": i, "t": "x" * (i % 7)})
    a = stream(p1, case, case["epoch"])
    b = [[x["v"] for x in w] for w in stream(p2, case, case["epoch"])]
    expect(a == b, f"two datasets of the same shape are shuffled differently: {a} and {b}")
    rec.hit(len(case["sizes"]) > 1)


vary_case = st.fixed_dictionaries({
    **base,
    "topo": st.builds(lambda nodes, per, workers: {"nodes": nodes, "world": nodes * per, "workers": workers},
                      st.sampled_from([1, 1, 2]), st.integers(1, 2), st.integers(1, 2)),
    "chunks": st.integers(8, 12), "size": st.integers(8, 12),
})


def run_vary(case, rec):
    """Epochs and seeds really change the order of the chunks and the order inside the chunks."""
    from vlib.runner import expect

    path = os.path.join(rec.dir, "ds")
    sizes = [case["size"]] * case["chunks"]
    sim.write_int_chunks(path, sizes)
    size = case["size"]

    def chunk_order(ws):
        out = []
        for w in ws:
            for x in w:
                if not out or out[-1] != x // size:
                    out.append(x // size)
        return out

    def inner(ws):
        d = {}
        for w in ws:
            for x in w:
                d.setdefault(x // size, []).append(x % size)
        return [d[k] for k in sorted(d)]

    runs = {e: stream(path, case, e) for e in (1, 2, 3, 4)}
    rec.hit()
    rec.label(f"nodes={case['topo']['nodes']}")
    for e in (1, 2, 3, 4):
        expect(any(x != sorted(x) for x in inner(runs[e])), f"epoch {e}: no chunk is shuffled inside")
        o = chunk_order(runs[e])
        expect(o != sorted(o), f"epoch {e}: the chunks are in the dataset's order: {o}")
    for a in (1, 2, 3, 4):
        for b in range(a + 1, 5):
            expect(inner(runs[a]) != inner(runs[b]), f"epochs {a} and {b} order the samples of every chunk alike")
    orders = [chunk_order(runs[e]) for e in (1, 2, 3, 4)]
    expect(len({tuple(o) for o in orders}) > 1, f"the chunk order is the same in every epoch: {orders[0]}")
    other = [stream(path, case, 1, seed=case["seed"] + k) for k in (1, 2, 3)]
    for o in other:
        expect(inner(o) != inner(runs[1]), "two seeds order the samples of every chunk alike")
    expect(any(chunk_order(o) != orders[0] for o in other), "the chunk order does not depend on the seed")


node_case = st.fixed_dictionaries({
    "nodes": st.integers(2, 3), "per": st.integers(1, 2), "workers": st.integers(1, 2), "chunks_per_worker": st.integers(1, 3),
    "size": st.integers(1, 6), "batch": st.just(1), "seed": st.integers(0, 1000),
})


def run_node(case, rec):
    """From the second epoch on, chunks are reshuffled within a node: no node reads a chunk of another one."""
    world = case["nodes"] * case["per"]
    gw = world * case["workers"]
    sizes = [case["size"]] * (gw * case["chunks_per_worker"])
    path = os.path.join(rec.dir, "ds")
    sim.write_int_chunks(path, sizes)
    c = {"topo": {"nodes": case["nodes"], "world": world, "workers": case["workers"]}, "batch": 1, "seed": case["seed"]}
    per = case["per"] * case["workers"]
    first = None
    for e in (1, 2, 3):
        ws = stream(path, c, e)
        sets = [sorted({x // case["size"] for w in ws[k * per:(k + 1) * per] for x in w}) for k in range(case["nodes"])]
        if first is None:
            first = sets
        expect(sets == first, f"epoch {e}: the nodes read the chunks {sets}, in epoch 1 they read {first}")
    rec.hit(len(sizes) > gw)


SUBS = [
    Sub("reproducible", repro_case, run_repro, quick=500, thorough=9000),
    Sub("shape-only", st.fixed_dictionaries({**base, "sizes": layout(4, 6), "epoch": st.integers(1, 3)}), run_layout_only,
        quick=80, thorough=1000),
    Sub("varies", vary_case, run_vary, quick=64, thorough=1000),
    Sub("within-node", node_case, run_node, quick=120, thorough=2000),
]
