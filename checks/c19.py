"""C19: merge_datasets() gives the concatenation of the datasets, or refuses and leaves everything as it was."""

import contextlib
import copy
import io
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import fakes3, sim
from vlib.runner import Sub, expect

PROPERTY = "C19"
RULE = (
    "A case is two to four datasets (samples of some structure, chunk limit, compression, encryption, number of writers) in "
    "folders or in an object store, merged into one, possibly over an existing dataset or with a planned failure of one "
    "transfer, then possibly merged again or appended to. Non-trivial: the merge was made and two datasets had samples and "
    "different chunk layouts, or it was refused or failed."
)
ASSUMPTIONS = ["the object store stands in for S3 behind the boto3 client", "all the folders are local, or all are remote"]

KINDS = {
    "int": lambda i: i,
    "str": lambda i: f"s{i}" * (i % 4),
    "ab": lambda i: {"a": i, "b": f"t{i}"},
    "ac": lambda i: {"a": i, "c": f"t{i}"},
    "ba": lambda i: {"b": f"t{i}", "a": i},
    "list": lambda i: [i, f"t{i}"],
    "tuple": lambda i: (i, f"t{i}"),
    "deep": lambda i: {"a": {"x": i}, "b": f"t{i}"},
    "np": lambda i: np.arange(i % 5, dtype="float32") + i,
    "tokens": lambda i: np.arange(i, i + 4, dtype="int32"),
}
ds_st = st.fixed_dictionaries({
    "kind": st.sampled_from(sorted(KINDS)), "same": st.sampled_from([True, True, True, True, True, False]), "n": st.integers(1, 14), "writers": st.sampled_from([1, 1, 2, 3, 11]),
    "limit": st.one_of(st.tuples(st.just("size"), st.integers(1, 6)), st.tuples(st.just("bytes"), st.integers(20, 200))),
    "compression": st.sampled_from(["same"] * 7 + [None, "zstd", "zstd:2"]),
    "encryption": st.sampled_from(["same"] * 7 + [None, "sample", "chunk"]),
})
case_st = st.fixed_dictionaries({
    "sets": st.lists(ds_st, min_size=2, max_size=4), "again": st.sampled_from([None, None, None, 0, 1]),
    "remote": st.booleans(), "slash": st.booleans(),
    "out": st.sampled_from(["new", "new", "new", "folder", "dataset", "input"]),
    "threads": st.sampled_from([1, 2, 8]),
    "fault": st.one_of(st.none(), st.none(), st.fixed_dictionaries({
        "what": st.sampled_from(["in-index", "out-index", "chunk", "save"]), "at": st.integers(0, 9)})),
    "then": st.sampled_from([None, None, "merge", "retry"]),
})
_key = None


def _enc(level):
    from litdata.utilities.encryption import FernetEncryption

    global _key
    if level is None:
        return None
    if _key is None:
        _key = FernetEncryption(password="p", level="sample")
    e = copy.copy(_key)  # deriving another key takes long
    e.level = level
    return e


def _write(path, spec, items):
    from litdata.streaming import Cache

    w = min(spec["writers"], len(items))
    by, lim = spec["limit"]
    if spec["kind"] == "tokens":
        from litdata import TokensLoader

        loader = TokensLoader(block_size=4)
        by, lim = "size", 4 * (1 + lim % 4)
    else:
        loader = None
    for k in range(w):
        with sim.env(DATA_OPTIMIZER_GLOBAL_RANK=str(k), DATA_OPTIMIZER_NUM_WORKERS=str(w)):
            cache = Cache(path, compression=spec["compression"], encryption=_enc(spec["encryption"]), item_loader=loader,
                          **{"chunk_size" if by == "size" else "chunk_bytes": lim})
            part = items[k * len(items) // w: (k + 1) * len(items) // w]
            for i, it in enumerate(part):
                cache[i] = it
            cache.done()
    Cache(path, **{"chunk_size" if by == "size" else "chunk_bytes": lim}).merge(num_workers=w)


def _read(path, spec):
    from litdata import StreamingDataset, TokensLoader

    loader = TokensLoader(block_size=4) if spec["kind"] == "tokens" else None
    ds = StreamingDataset(path, item_loader=loader, encryption=_enc(spec["encryption"]), shuffle=False)
    try:
        return [_plain(ds[i]) for i in range(len(ds))]
    finally:
        sim.stop_reader_threads(ds)


def _plain(v):
    if isinstance(v, dict):
        return {"dict": [(k, _plain(x)) for k, x in v.items()]}
    if isinstance(v, (list, tuple)):
        return {type(v).__name__: [_plain(x) for x in v]}
    if isinstance(v, np.generic):
        return v.item()
    if hasattr(v, "tolist"):
        return {"array": [str(v.dtype).replace("torch.", ""), v.tolist()]}
    return v


def run(case, rec):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        _run(case, rec)


def _run(case, rec):
    from litdata import merge_datasets

    store = fakes3.FakeS3(os.path.join(rec.dir, "s3"))
    os.makedirs(os.path.join(store.root, "b"))
    remote = case["remote"]
    specs, urls, samples = [], [], []
    base = 0
    for j, s in enumerate(case["sets"]):
        s = dict(s)
        first = specs[0] if specs else None
        if first and s["same"]:
            s["kind"] = first["kind"]
        for f in ("compression", "encryption"):
            if s[f] == "same":
                s[f] = first[f] if first else None
        if s["kind"] == "tokens":
            s["encryption"] = None
        items = [KINDS[s["kind"]](base + i) for i in range(s["n"])]
        base += 100
        path = os.path.join(rec.dir, f"in{j}")
        os.makedirs(path)
        _write(path, s, items)
        got = _read(path, s)
        want = [_plain(v) for v in items]
        if got != want:
            rec.label(f"unreadable-{s['kind']}-{s['encryption']}")
            return  # C01's or C03's matter
        specs.append(s)
        samples.append(want)
        urls.append(path)
        if remote:
            for f in sorted(os.listdir(path)):
                with open(os.path.join(path, f), "rb") as h:
                    store.put("b", f"d/in{j}/{f}", h.read())
            urls[-1] = f"s3://b/d/in{j}"
    if case["again"] is not None:
        specs.append(specs[case["again"]])
        samples.append(samples[case["again"]])
        urls.append(urls[case["again"]])
    out = "s3://b/d/in" if remote else os.path.join(rec.dir, "in")
    local_out = os.path.join(rec.dir, "in")
    if case["out"] == "input":
        out = urls[-1]
    elif case["out"] == "dataset":
        _write(local_out, {**specs[0], "limit": ["size", 2], "writers": 1}, [KINDS[specs[0]["kind"]](7), KINDS[specs[0]["kind"]](8)])
    elif case["out"] == "folder":
        os.makedirs(local_out)
        with open(os.path.join(local_out, "other.txt"), "w") as f:
            f.write("mine")
    if remote and os.path.isdir(local_out):
        for f in sorted(os.listdir(local_out)):
            with open(os.path.join(local_out, f), "rb") as h:
                store.put("b", f"d/in/{f}", h.read())
    if case["slash"]:
        out += "/"

    def snapshot():
        files = {}
        for dp, _, fs in os.walk(rec.dir):
            for f in fs:
                p = os.path.join(dp, f)
                if os.path.basename(dp) == "s3" or "/seen" in dp[len(rec.dir):]:
                    continue  # marks of the faults
                with open(p, "rb") as h:
                    files[os.path.relpath(p, rec.dir)] = h.read()
        return files

    fault, planned = case["fault"], False
    if fault and remote and case["out"] in ("new", "folder", "dataset"):
        what = fault["what"]
        if what == "in-index":
            store.faults = [{"op": "download", "match": f"in{fault['at'] % len(case['sets'])}/index.json"}]
            planned = True
        elif what == "out-index" and case["out"] == "dataset":
            store.faults = [{"op": "download", "match": "d/in/index.json"}]
            planned = True
        elif what == "chunk" and case["out"] != "dataset":
            names = [f for f in os.listdir(os.path.join(rec.dir, f"in{fault['at'] % len(case['sets'])}")) if f.endswith(".bin")]
            names.sort()
            store.faults = [{"op": "download", "match": f"in{fault['at'] % len(case['sets'])}/{names[fault['at'] % len(names)]}"}]
            planned = True
        elif what == "save" and case["out"] != "dataset":
            store.faults = [{"op": "upload", "match": "d/in/index.json"}]
            planned = True

    def merge(urls, out):
        with fakes3.installed(store):
            try:
                merge_datasets(list(urls), out, max_workers=case["threads"])
            except Exception as e:  # noqa: BLE001
                return f"{type(e).__name__}: {e}"
        return None

    def read_out(path, spec, tag):
        d = path.rstrip("/")
        if remote:
            d = os.path.join(rec.dir, f"seen{tag}")
            os.makedirs(d)
            store.export("b", path[len("s3://b/"):], d)
        return _read(d, spec)

    where = f"{case}"
    before = snapshot()
    prefix = os.path.relpath(local_out, rec.dir) + "/" if not remote else os.path.join("s3", "b", fakes3.urllib.parse.quote("d/in/", safe=""))
    err = merge(urls, out)
    after = snapshot()
    changed = sorted(k for k in before if after.get(k) != before[k])
    expect(not changed, f"{where}: merging changed or deleted {changed}")
    stray = sorted(k for k in after if k not in before and not k.startswith(prefix))
    expect(not stray, f"{where}: merging wrote outside of its output: {stray}")
    must_refuse = case["out"] in ("dataset", "input")
    alike = len({(s["kind"], s["compression"], s["encryption"]) for s in specs}) == 1
    index = prefix + "index.json"
    if err is not None:
        expect(must_refuse or planned or not alike, f"{where}: the merge failed: {err}")
        expect(index in before or index not in after, f"{where}: the merge failed ({err}) and left an index")
        rec.hit()
        rec.label("failed" if planned else "refused")
    else:
        expect(not must_refuse, f"{where}: merging over an existing dataset wasn't refused")
        expect(not planned or len(store.faults_fired()) == 0, f"{where}: a failed transfer wasn't reported")
        try:
            got = read_out(out, specs[0], 0)
        except Exception as e:  # noqa: BLE001
            raise AssertionError(f"{where}: the merged dataset can't be read: {type(e).__name__}: {e}") from e
        want = [v for s in samples for v in s]
        expect(got == want, f"{where}: the merged dataset has the samples {got} instead of {want}")
        layouts = {(s["n"], tuple(s["limit"])) for s in specs}
        rec.hit(len(layouts) > 1)
        rec.label("merged", "remote" if remote else "local")
    if must_refuse or not alike:
        return
    store.faults = []
    want = [v for s in samples for v in s]
    if err is not None and case["then"] == "retry":
        err = merge(urls, out)
        expect(err is None, f"{where}: merging again after a failure: {err}")
        expect(read_out(out, specs[0], 1) == want, f"{where}: merging again after a failure gave other samples")
        rec.label("retried")
    elif err is None and case["then"] == "merge":
        out2 = out.rstrip("/") + "-second"
        err = merge([out, urls[0]], out2)
        expect(err is None, f"{where}: merging a merged dataset: {err}")
        got = read_out(out2, specs[0], 2)
        expect(got == want + samples[0], f"{where}: merging a merged dataset gave {got}")
        rec.label("twice")


SUBS = [Sub("merge", case_st, run, quick=1200, thorough=40000, hang_s=60)]
