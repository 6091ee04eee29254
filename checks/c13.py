"""C13: the rows of a folder of Parquet files are delivered as they are, once each, in order."""

import datetime
import decimal
import fnmatch
import json
import math
import os
import warnings
from collections import Counter

from hypothesis import strategies as st

from vlib import sim
from vlib.runner import Sub, expect

PROPERTY = "C13"
RULE = (
    "A case is a folder of Parquet files (columns of several types with nulls, row groups of equal and unequal sizes, "
    "several file names and codecs), indexed with some number of workers, and read by one or more readers (low memory or "
    "not, preloaded or not, by iteration, index, slice or workers, shuffled, through a cache, by a file pattern); or the "
    "files are resharded by ParquetReader. Non-trivial: two files gave rows, or a file of several row groups was read."
)
ASSUMPTIONS = ["pyarrow's writer and to_pylist are the reference for what the files hold"]

D = datetime
COLS = {
    "i64": ("int64", [0, -1, 2**62, 7]), "i8": ("int8", [0, -128, 127]), "u32": ("uint32", [0, 2**32 - 1, 5]),
    "f64": ("float64", [0.0, -0.0, 1.5, float("inf"), float("nan"), 1e-300]), "f32": ("float32", [0.0, 0.5, -2.25]),
    "s": ("string", ["", "a", "é" * 5, "x" * 60, "\x00"]), "b": ("binary", [b"", b"\x00\xff", b"abc" * 9]),
    "t": ("bool", [True, False]), "ls": ("large_string", ["", "zz"]),
    "d": ("date", [D.date(1970, 1, 1), D.date(2024, 2, 29)]),
    "ts": ("timestamp", [D.datetime(2024, 1, 1, 2, 3, 4, 5), D.datetime(1969, 12, 31)]),
    "li": ("list", [[], [1], [1, None, 3]]), "lst": ("liststr", [[], ["a", ""], [None]]),
    "st": ("struct", [{"x": 1, "y": "a"}, {"x": None, "y": ""}]), "dec": ("decimal", [decimal.Decimal("1.25"), decimal.Decimal("-3.00")]),
    "dict": ("dictionary", ["red", "green", ""]), "null": ("null", [None]),
}
NAMES = ["{}.parquet", "part-{:05d}.parquet", "a b{}.parquet", "{}.snappy.parquet", "é{}.parquet", "data.{}.parquet", "x#{}.parquet", "{}=v.parquet"]
file_st = st.fixed_dictionaries({
    "rows": st.one_of(st.integers(1, 25), st.sampled_from([1, 2, 7])),
    "groups": st.one_of(st.integers(1, 9), st.lists(st.integers(1, 8), min_size=1, max_size=5)),
    "codec": st.sampled_from(["snappy", "none", "zstd", "gzip"]),
})
read_st = st.fixed_dictionaries({
    "low": st.booleans(), "pre": st.booleans(), "how": st.sampled_from(["iter", "iter", "index", "random", "slice", "workers", "split"]),
    "shuffle": st.booleans(), "from": st.sampled_from(["folder", "folder", "remote", "remote_index", "pattern"]), "cache": st.sampled_from([None, None, 400]),
    "workers": st.integers(1, 3), "epochs": st.integers(1, 2), "sub": st.sampled_from([None, None, None, 0.5, 1.5]),
    "picks": st.lists(st.integers(0, 200), min_size=1, max_size=10), "ahead": st.sampled_from([1, 2, 4]),
    "pattern": st.sampled_from(["*.parquet", "*1*.parquet", "*[02].parquet", "zzz*.parquet"]),
})
case_st = st.fixed_dictionaries({
    "cols": st.lists(st.sampled_from(sorted(COLS)), min_size=1, max_size=5, unique=True), "nulls": st.sampled_from([0, 0, 3]),
    "files": st.lists(file_st, min_size=1, max_size=5), "name": st.sampled_from(NAMES), "order": st.sampled_from(["up", "down", "mix"]),
    "workers": st.sampled_from([1, 2, 4]), "extra": st.booleans(), "reads": st.lists(read_st, min_size=1, max_size=2),
})


def _type(kind):
    import pyarrow as pa

    return {
        "date": pa.date32(), "timestamp": pa.timestamp("us"), "list": pa.list_(pa.int64()), "liststr": pa.list_(pa.string()),
        "struct": pa.struct([("x", pa.int64()), ("y", pa.string())]), "decimal": pa.decimal128(9, 2),
        "dictionary": pa.dictionary(pa.int32(), pa.string()), "null": pa.null(), "bool": pa.bool_(),
    }.get(kind) or getattr(pa, kind)()


def table(cols, rows, start, nulls):
    import pyarrow as pa

    data = {"row": pa.array(list(range(start, start + rows)), pa.int64())}
    for c in cols:
        kind, vals = COLS[c]
        v = [vals[(i + len(c)) % len(vals)] for i in range(start, start + rows)]
        if nulls:
            v = [None if i % nulls == 0 else x for i, x in enumerate(v)]
        data[c] = pa.array(v, _type(kind))
    return pa.table(data)


def write_file(path, t, groups, codec):
    import pyarrow.parquet as pq

    with pq.ParquetWriter(path, t.schema, compression=codec) as w:
        sizes = [groups] if isinstance(groups, int) else groups
        pos = k = 0
        while pos < t.num_rows:
            n = sizes[k % len(sizes)]
            w.write_table(t.slice(pos, n), row_group_size=n)
            pos += n
            k += 1


def key(row):
    if isinstance(row, float):
        return "nan" if math.isnan(row) else (row, math.copysign(1, row))
    if isinstance(row, dict):
        return ("dict",) + tuple((k, key(v)) for k, v in row.items())
    if isinstance(row, (list, tuple)):
        return ("list",) + tuple(key(v) for v in row)
    return (type(row).__name__, row)


def run(case, rec):
    with warnings.catch_warnings(), sim.quiet():
        warnings.simplefilter("ignore")
        _run(case, rec)


def _names(case):
    n = len(case["files"])
    order = list(range(n))
    if case["order"] == "down":
        order = order[::-1]
    elif case["order"] == "mix":
        order = [(5 * i + 2) % 17 for i in order]
    return [case["name"].format(k) for k in order]


def _run(case, rec):
    from litdata.streaming.writer import index_parquet_dataset

    out = os.path.join(rec.dir, "out")
    os.makedirs(out)
    start, files = 0, {}
    several = False
    for f, name in zip(case["files"], _names(case)):
        t = table(case["cols"], f["rows"], start, case["nulls"])
        write_file(os.path.join(out, name), t, f["groups"], f["codec"])
        files[name] = t.to_pylist()
        start += f["rows"] + 3
        several |= f["rows"] > (f["groups"] if isinstance(f["groups"], int) else f["groups"][0])
    if case["extra"]:
        with open(os.path.join(out, "_SUCCESS"), "w") as f:
            f.write("not a table")
        os.makedirs(os.path.join(out, "sub"))
    where = f"{case}"
    index_parquet_dataset(out, num_workers=case["workers"])
    with open(os.path.join(out, "index.json")) as f:
        index = json.load(f)
    listed = [(c["filename"], c["chunk_size"], c["chunk_bytes"]) for c in index["chunks"]]
    want = [(n, len(files[n]), os.path.getsize(os.path.join(out, n))) for n in sorted(files)]
    expect(listed == want, f"{where}: the index lists {listed} instead of {want}")
    nontrivial = several
    for r, read in enumerate(case["reads"]):
        nontrivial |= _read(case, read, out, files, os.path.join(rec.dir, f"r{r}"), f"{where} (reader {r})", rec)
    rec.hit(nontrivial)


def _read(case, read, out, files, base, where, rec):
    from litdata import StreamingDataset, train_test_split
    from litdata.streaming.item_loader import ParquetLoader
    from litdata.streaming.resolver import Dir

    os.makedirs(base)
    names = sorted(files)
    src, kw = out, {}
    if read["from"] == "pattern":
        names = [n for n in names if fnmatch.fnmatch(n, read["pattern"])]
        src = os.path.join(out, read["pattern"])
    elif read["from"] == "remote":
        src = Dir(path=os.path.join(base, "cache"), url=f"local:{out}")
        os.makedirs(src.path)
    elif read["from"] == "remote_index":
        # the index is given apart, as the folder may not be writable
        src = Dir(path=os.path.join(base, "cache"), url=f"local:{os.path.join(base, 'ro')}")
        os.makedirs(src.path)
        os.makedirs(os.path.join(base, "ro"))
        for n in names:
            os.link(os.path.join(out, n), os.path.join(base, "ro", n))
        kw["index_path"] = out if read["pre"] else os.path.join(out, "index.json")
    rows = [r for n in names for r in files[n]]
    sub, how = read["sub"], read["how"]
    if sub is not None and how in ("workers", "split"):
        sub = None
    if sub is not None and int(len(rows) * (sub % 1.0)) == 0:
        sub = None
    if sub is not None:
        kw["subsample"] = sub
    make = lambda: StreamingDataset(  # noqa: E731
        src, item_loader=ParquetLoader(pre_load_chunk=read["pre"], low_memory=read["low"]), shuffle=read["shuffle"], seed=7,
        max_cache_size=read["cache"] or "100GB", max_pre_download=read["ahead"], **kw)
    if not rows:
        try:
            ds = make()
        except Exception:  # noqa: BLE001
            rec.label("no-file-matches")
            return False
        expect(len(ds) == 0, f"{where}: no file matches the pattern but the dataset has {len(ds)} samples")
        return False
    ds = make()
    n = len(rows) if sub is None else int(len(rows) * (sub % 1.0)) + int(sub) * len(rows)
    try:
        expect(len(ds) == n, f"{where}: {len(ds)} samples instead of {n}")
        if how == "iter":
            for e in range(read["epochs"]):
                _same(list(ds), rows, read["shuffle"], sub, f"{where}, epoch {e}", n)
        elif how == "workers":
            _same([x for p in sim.iterate_workers(ds, read["workers"]) for x in p], rows, True, None, where, n)
        elif how == "slice":
            _same(ds[:n], rows, False, sub, where, n)
        elif how == "split":
            if len(rows) < 4:
                return False
            ds[0]  # the split may follow reads
            parts = train_test_split(ds, [0.5, 0.5])
            got = [list(p) for p in parts]
            for p in parts:
                sim.stop_reader_threads(p)
            expect([len(g) for g in got] == [int(n * 0.5)] * 2, f"{where}: the halves have {[len(g) for g in got]} samples of {n}")
            _same([x for g in got for x in g], rows, True, 0.9, where, 2 * int(n * 0.5))
        else:
            picks = list(range(n)) if how == "index" else [p % n for p in read["picks"]] * 2
            got = [ds[i] for i in picks]
            if sub is None:
                _same(got, [rows[i] for i in picks], False, None, where, len(picks))
            elif how == "index":
                _same(got, rows, True, sub, where, n)
        rec.label(how)
        rec.label(read["from"])
    finally:
        sim.stop_reader_threads(ds)
    return len(names) > 1


def _same(got, want, unordered, sub, where, n):
    expect(len(got) == n, f"{where}: {len(got)} rows were delivered instead of {n}")
    g, w = [key(x) for x in got], [key(x) for x in want]
    if sub is not None:
        most = math.ceil(sub)
        extra = Counter(g) - Counter(w * most)
        expect(not extra, f"{where}: rows nobody wrote, or too often: {list(extra)[:3]}")
        least = Counter(w * int(sub)) - Counter(g)
        expect(not least, f"{where}: rows are missing: {list(least)[:3]}")
        return
    if unordered:
        missing, extra = Counter(w) - Counter(g), Counter(g) - Counter(w)
        expect(not missing and not extra, f"{where}: missing {list(missing)[:3]}, unexpected {list(extra)[:3]}")
        return
    for i, (a, b) in enumerate(zip(g, w)):
        expect(a == b, f"{where}: row {i} is {got[i]!r} instead of {want[i]!r}")


# --- the files given to map and optimize are cut into parts --------------------------------------------------------

reshard_st = st.fixed_dictionaries({
    "folders": st.lists(st.lists(st.integers(1, 30), min_size=1, max_size=3), min_size=1, max_size=3),
    "num_rows": st.integers(1, 12), "cols": st.lists(st.sampled_from(sorted(set(COLS) - {"null"})), max_size=3, unique=True),
    "again": st.sampled_from([None, None, "same", "changed", "crash"]), "at": st.integers(0, 8), "workers": st.integers(1, 4),
})


def run_reshard(case, rec):
    with warnings.catch_warnings(), sim.quiet():
        warnings.simplefilter("ignore")
        _run_reshard(case, rec)


def _run_reshard(case, rec):
    from unittest import mock

    import pyarrow.parquet as pq
    from litdata.processing.readers import ParquetReader

    paths, want, start = [], {}, 0

    def write(p, rows):
        nonlocal start
        t = table(case["cols"], rows, start, 0)
        start += rows
        pq.write_table(t, p)
        want[p] = t.to_pylist()

    for d, sizes in enumerate(case["folders"]):
        os.makedirs(os.path.join(rec.dir, f"d{d}"))
        for k, rows in enumerate(sizes):
            p = os.path.join(rec.dir, f"d{d}", f"part-{k}.parquet")  # as writers name them in every folder
            write(p, rows)
            paths.append(p)
    cache = os.path.join(rec.dir, "cache")

    def check(where):
        reader = ParquetReader(cache, num_rows=case["num_rows"])
        items = reader.remap_items(list(paths), case["workers"])
        got = []
        for i in items:
            f = reader.read(i)
            part = f.read().to_pylist()
            expect(0 < len(part) <= case["num_rows"], f"{where}: a part has {len(part)} rows")
            got += part
        _same(got, [r for p in paths for r in want[p]], False, None, where, sum(len(want[p]) for p in paths))
        return len(items)

    if case["again"] == "crash":
        real, calls = pq.write_table, []

        class Stop(BaseException):
            pass

        def failing(t, where, *a, **k):
            calls.append(where)
            if len(calls) == case["at"] + 1:
                real(t, where, *a, **k)
                with open(where, "r+b") as f:
                    f.truncate(os.path.getsize(where) // 2)
                raise Stop
            return real(t, where, *a, **k)

        try:
            with mock.patch.object(pq, "write_table", failing):
                ParquetReader(cache, num_rows=case["num_rows"]).remap_items(list(paths), case["workers"])
        except Stop:
            rec.label("crash")
    n = check(f"{case}")
    if case["again"] in ("same", "changed"):
        if case["again"] == "changed":
            p = paths[case["at"] % len(paths)]
            write(p, len(want[p]))
        check(f"{case} (again)")
    rec.hit(n > 1)


# --- a folder in the cloud is indexed there ------------------------------------------------------------------------

cloud_st = st.fixed_dictionaries({
    "files": st.lists(st.integers(0, 20), min_size=1, max_size=4), "name": st.sampled_from([n for n in NAMES if "#" not in n]),
    "cols": st.lists(st.sampled_from(sorted(COLS)), max_size=4, unique=True), "scheme": st.sampled_from(["s3", "gs"]),
    "workers": st.sampled_from([1, 2, 4]), "options": st.sampled_from([{}, {"key": "k"}, None]), "depth": st.integers(1, 2),
})


def run_cloud(case, rec):
    with warnings.catch_warnings(), sim.quiet():
        warnings.simplefilter("ignore")
        _run_cloud(case, rec)


def _run_cloud(case, rec):
    import fsspec
    from fsspec.implementations.memory import MemoryFileSystem
    from litdata.streaming.writer import index_parquet_dataset

    seen = []

    class Mem(MemoryFileSystem):
        protocol = (case["scheme"],)
        store = {}
        pseudo_dirs = [""]
        cachable = False

        def __init__(self, *a, **k):
            seen.append((a, dict(k)))
            super().__init__(*a, **k)

        @classmethod
        def _strip_protocol(cls, path):
            if path.startswith(f"{case['scheme']}://"):
                path = path[len(case["scheme"]) + 3:]
            return "/" + path.strip("/")

    fsspec.register_implementation(case["scheme"], Mem, clobber=True)
    fs = Mem()
    seen.clear()
    folder = "/".join(["bucket", "a", "b"][: case["depth"] + 1])
    home = os.path.join(rec.dir, "home")
    local = os.path.join(rec.dir, "local")
    os.makedirs(home)
    os.makedirs(local)
    for k, rows in enumerate(case["files"]):
        p = os.path.join(local, case["name"].format(k))
        write_file(p, table(case["cols"], rows, 0, 0), 5, "snappy")
        fs.pipe_file(f"{folder}/{os.path.basename(p)}", open(p, "rb").read())
    fs.pipe_file(f"{folder}/other.txt", b"x")
    fs.pipe_file(f"{folder}/deeper/9.parquet", b"not read")
    before = dict(Mem.store)
    with sim.env(HOME=home):
        index_parquet_dataset(f"{case['scheme']}://{folder}", storage_options=case["options"], num_workers=case["workers"])
    index_parquet_dataset(local)
    remote = json.loads(fs.cat_file(f"{folder}/index.json"))
    with open(os.path.join(local, "index.json")) as f:
        here = json.load(f)
    for i in (remote, here):
        i.pop("updated_at")
        i["chunks"].sort(key=lambda c: c["filename"])
    expect(remote == here, f"{case}: the index in the cloud is {remote}, of the same files here {here}")
    expect(set(Mem.store) == set(before) | {f"/{folder}/index.json"}, f"{case}: files were written or removed: {set(Mem.store) ^ set(before)}")
    expect(all(not a and k == (case["options"] or {}) for a, k in seen), f"{case}: the options were given as {seen}")
    rec.hit(len(case["files"]) > 1)


SUBS = [
    Sub("rows", case_st, run, quick=3000, thorough=60000, hang_s=60),
    Sub("reshard", reshard_st, run_reshard, quick=600, thorough=60000, hang_s=60),
    Sub("cloud", cloud_st, run_cloud, quick=500, thorough=20000, hang_s=60),
]
