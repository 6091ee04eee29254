"""Generated sample values: trees of leaves, built deterministically from a JSON description, and their comparison."""

import io
import os
import random
from collections import OrderedDict, deque, namedtuple

from hypothesis import strategies as st

NP_DTYPES = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64",
             "complex64", "complex128", "bool"]
NP_OTHER = ["U", "S", "datetime", "object", "bigendian", "record", "longdouble"]
TORCH_DTYPES = ["float32", "float64", "complex64", "complex128", "float16", "uint8", "int8", "int16", "int32", "int64", "bool"]
PIL_MODES = ["RGB", "L", "RGBA", "1", "P", "F", "I", "I;16", "CMYK", "LA", "YCbCr"]
ARRAY_LAYOUTS = ["c", "f", "stride", "rev", "ro"]

INTS = [0, 1, -1, 7, 255, 256, -(2**31), 2**31, 2**53 + 1, 2**63 - 1, -(2**63)]
FLOATS = [0.0, -0.0, 1.5, -2.25, 1e308, 5e-324, float("inf"), float("-inf"), float("nan"), 0.1]
STRS = ["", "a", "é", "日本", "a\nb", "\0", "x" * 300, "/etc/hostname", "."]

Point = namedtuple("Point", ["x", "y"])

leaf_kinds = st.one_of(
    st.sampled_from([["int"], ["float"], ["bool"], ["str"], ["bytes"], ["none"], ["object"], ["npscalar"], ["np0"],
                     ["jpeg"], ["jpegs"], ["tiff"], ["path"], ["text"]]),
    st.tuples(st.just("np"), st.sampled_from(NP_DTYPES), st.integers(1, 3), st.sampled_from(ARRAY_LAYOUTS)),
    st.tuples(st.just("npx"), st.sampled_from(NP_OTHER), st.integers(1, 2)),
    st.tuples(st.just("torch"), st.sampled_from(TORCH_DTYPES), st.integers(0, 3), st.sampled_from(ARRAY_LAYOUTS)),
    st.tuples(st.just("pil"), st.sampled_from(PIL_MODES)),
    st.sampled_from([["int"], ["str"], ["float"], ["bytes"]]),
)
keys = st.sampled_from(["a", "b", "c", "image", "0", "", "é", "x y"])


def tree_st(leaf=leaf_kinds, max_leaves=6):
    return st.recursive(
        leaf.map(lambda k: ["leaf", list(k)]),
        lambda sub: st.one_of(
            st.tuples(st.just("list"), st.lists(sub, max_size=3)),
            st.tuples(st.just("tuple"), st.lists(sub, max_size=3)),
            st.tuples(st.sampled_from(["dict", "dict", "odict"]),
                      st.lists(st.tuples(st.one_of(keys, st.integers(-2, 9)), sub), max_size=4, unique_by=lambda kv: kv[0])),
            st.tuples(st.just("deque"), st.lists(sub, max_size=2)),
        ),
        max_leaves=max_leaves,
    )


def leaves_of(tree):
    if tree[0] == "leaf":
        return [tree[1]]
    out = []
    for c in tree[1]:
        out += leaves_of(c[1] if tree[0] in ("dict", "odict") else c)
    return out


def _dims(r, ndim, zero=True):
    return [r.choice([0, 1, 2, 3, 5] if zero else [1, 2, 3, 5]) for _ in range(ndim)]


def _np_array(r, dtype, shape, layout):
    import numpy as np

    g = np.random.RandomState(r.randrange(2**31))
    big = [d * 2 for d in shape] if layout == "stride" else shape
    dt = np.dtype(dtype)
    n = int(np.prod(big))
    if dt.kind == "b":
        a = g.randint(0, 2, size=n).astype(bool)
    elif dt.kind in "fc":
        a = (g.standard_normal(n) * 100).astype(dt)
        if n:
            a[g.randint(n)] = r.choice([np.inf, -0.0, np.nan, 0.0])
    else:
        a = np.frombuffer(g.bytes(n * dt.itemsize), dtype=dt).copy()
    a = a.reshape(big)
    if layout == "stride":
        a = a[tuple(slice(None, None, 2) for _ in shape)]
    elif layout == "f":
        a = np.asfortranarray(a)
    elif layout == "rev" and a.ndim:
        a = a[::-1]
    elif layout == "ro":
        a.flags.writeable = False
    return a


def _np_other(r, kind, shape):
    import numpy as np

    n = int(np.prod(shape))
    if kind == "U":
        a = np.array([r.choice(["", "a", "bcd", "é"]) for _ in range(n)], dtype="<U3")
    elif kind == "S":
        a = np.array([r.choice([b"", b"a", b"bcd"]) for _ in range(n)], dtype="S3")
    elif kind == "datetime":
        a = np.array([r.randrange(10**6) for _ in range(n)], dtype="datetime64[s]")
    elif kind == "object":
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = r.choice([None, 1, "x", (1, 2)])
    elif kind == "bigendian":
        a = np.array([r.randrange(10**6) for _ in range(n)], dtype=">i4")
    elif kind == "record":
        a = np.array([(r.randrange(9), r.random()) for _ in range(n)], dtype=[("a", "i4"), ("b", "f8")])
    else:
        a = np.array([r.random() for _ in range(n)], dtype=np.longdouble)
    return a.reshape(shape)


def _image(r, mode):
    import numpy as np
    from PIL import Image

    w, h = r.choice([1, 2, 3, 9, 16]), r.choice([1, 2, 5, 8])
    g = np.random.RandomState(r.randrange(2**31))
    if mode == "P":
        im = Image.new("P", (w, h))
        im.putdata([r.randrange(256) for _ in range(w * h)])
        im.putpalette([r.randrange(256) for _ in range(3 * 256)])
        return im
    if mode == "F":
        return Image.fromarray(g.standard_normal((h, w)).astype("float32"))
    if mode == "I":
        return Image.fromarray(g.randint(-(2**31), 2**31 - 1, size=(h, w)).astype("int32"))
    if mode == "I;16":
        return Image.fromarray(g.randint(0, 2**16, size=(h, w)).astype("uint16"))
    bands = {"RGB": 3, "L": 1, "RGBA": 4, "1": 1, "CMYK": 4, "LA": 2, "YCbCr": 3}[mode]
    if mode == "1":
        return Image.fromarray((g.randint(0, 2, size=(h, w)) * 255).astype("uint8")).convert("1")
    return Image.frombytes(mode, (w, h), g.bytes(w * h * bands))


def jpeg_file(r, d, name):
    import numpy as np
    from PIL import Image

    w, h = r.choice([1, 3, 8, 17]), r.choice([1, 2, 8, 9])
    mode = r.choice(["RGB", "RGB", "L"])
    g = np.random.RandomState(r.randrange(2**31))
    im = Image.frombytes(mode, (w, h), g.bytes(w * h * len(mode)))
    p = os.path.join(d, f"{name}.jpg")
    im.save(p, format="JPEG", quality=r.choice([30, 75, 95]))
    return p


class Jpeg:
    """Expected outcome of a JPEG image: the decoded pixels of its file."""

    def __init__(self, path):
        with open(path, "rb") as f:
            self.data = f.read()

    def pixels(self):
        import torch
        from torchvision.io import decode_jpeg

        return decode_jpeg(torch.frombuffer(bytearray(self.data), dtype=torch.uint8))


def build_leaf(kind, seed, d, tag):
    """(value given to the writer, value expected back)."""
    import numpy as np
    import torch

    r = random.Random(f"{seed}/{tag}/{kind[0]}")
    k = kind[0]
    if k == "int":
        v = r.choice([r.choice(INTS), r.randrange(-1000, 1000)])
    elif k == "float":
        v = r.choice([r.choice(FLOATS), r.uniform(-1e6, 1e6)])
    elif k == "bool":
        v = r.random() < 0.5
    elif k == "str":
        v = r.choice([r.choice(STRS), "s" * r.randrange(40)])
    elif k == "text":
        v = "t%d" % r.randrange(10**9)
    elif k == "bytes":
        v = r.choice([b"", b"\0", bytes(r.randrange(256) for _ in range(r.randrange(60)))])
    elif k == "none":
        v = None
    elif k == "object":
        v = r.choice([None, {1, 2}, frozenset([3]), 1 + 2j, range(4), bytearray(b"ab"), Ellipsis, ("sl",).__class__])
    elif k == "npscalar":
        v = r.choice([np.float32(1.5), np.int64(-3), np.uint8(200), np.bool_(True), np.float16(0.25), np.complex64(1j)])
    elif k == "np0":
        v = np.array(r.choice([1.5, 2, True]))
    elif k == "np":
        v = _np_array(r, kind[1], _dims(r, kind[2]), kind[3])
    elif k == "npx":
        v = _np_other(r, kind[1], _dims(r, kind[2]))
    elif k == "torch":
        lay = {"rev": "c", "ro": "c"}.get(kind[3], kind[3])
        v = torch.from_numpy(np.array(_np_array(r, kind[1], _dims(r, kind[2]), "c"), order="C"))
        if lay == "f" and v.ndim == 2:
            v = v.t().contiguous().t()
        elif lay == "stride" and v.ndim:
            v = torch.cat([v, v], 0)[::2]
    elif k == "pil":
        v = _image(r, kind[1])
    elif k == "jpeg":
        from PIL import Image

        p = jpeg_file(r, d, tag)
        return Image.open(p), Jpeg(p)
    elif k == "jpegs":
        from PIL import Image

        ps = [jpeg_file(r, d, f"{tag}-{i}") for i in range(r.randrange(1, 4))]
        return [Image.open(p) for p in ps], [Jpeg(p) for p in ps]
    elif k == "tiff":
        import tifffile

        a = _np_array(r, r.choice(["uint8", "uint16", "float32"]), [r.choice([1, 4]), r.choice([2, 7])], "c")
        p = os.path.join(d, f"{tag}.tif")
        tifffile.imwrite(p, a)
        return p, a
    elif k == "path":
        p = os.path.join(d, f"{tag}.txt")
        with open(p, "w") as f:
            f.write("content")
        v = p
    else:
        raise AssertionError(k)
    return v, v


def build(tree, seed, d, tag="s", reorder=False):
    """(tree given, tree expected)."""
    k, c = tree
    if k == "leaf":
        return build_leaf(c, seed, d, f"{tag}-{seed}")
    if k in ("dict", "odict"):
        cls = dict if k == "dict" else OrderedDict
        items = [(key, build(s, seed, d, f"{tag}{i}", reorder)) for i, (key, s) in enumerate(c)]
        order = list(items)
        if reorder:
            random.Random(seed).shuffle(order)
        return cls((a, b[0]) for a, b in order), cls((a, b[1]) for a, b in items)
    pairs = [build(s, seed, d, f"{tag}{i}", reorder) for i, s in enumerate(c)]
    cls = {"list": list, "tuple": tuple, "deque": deque}[k]
    return cls(p[0] for p in pairs), cls(p[1] for p in pairs)


def diff(got, want, where="sample"):
    """None when got is want as the documentation promises it back; otherwise what differs."""
    import numpy as np
    import torch
    from PIL import Image

    if isinstance(want, Jpeg):
        if not isinstance(got, torch.Tensor):
            return f"{where}: a JPEG image is read back as {type(got).__name__}"
        p = want.pixels()
        if got.shape != p.shape or not torch.equal(got, p):
            return f"{where}: the pixels of a JPEG image changed"
        return None
    if isinstance(want, dict):
        if not isinstance(got, dict) or list(got) != list(want):
            return f"{where}: keys {list(got) if isinstance(got, dict) else got!r} instead of {list(want)}"
        if type(got) is not type(want):
            return f"{where}: {type(got).__name__} instead of {type(want).__name__}"
        for k in want:
            m = diff(got[k], want[k], f"{where}[{k!r}]")
            if m:
                return m
        return None
    if isinstance(want, (list, tuple, deque)):
        if isinstance(want, tuple) and want and all(isinstance(x, Jpeg) for x in want):
            want = list(want)  # JPEG images side by side are stored together and read as a list
        if type(got) is not type(want) or len(got) != len(want):
            return f"{where}: {got!r:.200} instead of {want!r:.200}"
        for i, (a, b) in enumerate(zip(got, want)):
            m = diff(a, b, f"{where}[{i}]")
            if m:
                return m
        return None
    if isinstance(want, torch.Tensor):
        if not isinstance(got, torch.Tensor) or got.dtype != want.dtype or got.shape != want.shape:
            return f"{where}: {describe(got)} instead of {describe(want)}"
        a, b = got.contiguous().numpy().tobytes(), want.contiguous().numpy().tobytes()
        return None if a == b else f"{where}: other values in a tensor: {got} instead of {want}"
    if isinstance(want, np.ndarray) and want.ndim >= 0:
        native = want.dtype.newbyteorder("=")  # numpy itself unpickles into the native byte order
        if not isinstance(got, np.ndarray) or got.dtype not in (want.dtype, native) or got.shape != want.shape:
            return f"{where}: {describe(got)} instead of {describe(want)}"
        same = got.tolist() == want.tolist() if want.dtype.hasobject else (
            (got.dtype == want.dtype and got.tobytes() == want.tobytes()) or bool(np.all((got == want) | ((got != got) & (want != want)))))
        return None if same else f"{where}: other values in an array: {got!r} instead of {want!r}"
    if isinstance(want, Image.Image):
        if not isinstance(got, Image.Image) or got.mode != want.mode or got.size != want.size:
            return f"{where}: {describe(got)} instead of {describe(want)}"
        if got.tobytes() != want.tobytes():
            return f"{where}: other pixels in a {want.mode} image"
        if want.mode == "P" and got.convert("RGB").tobytes() != want.convert("RGB").tobytes():
            return f"{where}: other colours in a palette image"
        return None
    if isinstance(want, bool):
        return None if isinstance(got, (bool, np.bool_)) and bool(got) == want else f"{where}: {got!r} instead of {want!r}"
    if isinstance(want, (int, float)) and not isinstance(want, np.generic):
        kinds = (int, np.integer) if isinstance(want, int) else (float, np.floating)
        if not isinstance(got, kinds) or isinstance(got, bool):
            return f"{where}: {describe(got)} instead of {want!r}"
        if isinstance(want, float):
            import struct

            same = struct.pack("d", float(got)) == struct.pack("d", want) or (got != got and want != want)
        else:
            same = int(got) == want
        return None if same else f"{where}: {got!r} instead of {want!r}"
    if isinstance(want, np.generic):
        return None if got == want and np.dtype(type(got)) == want.dtype else f"{where}: {got!r} instead of {want!r}"
    return None if type(got) is type(want) and got == want else f"{where}: {got!r:.200} instead of {want!r:.200}"


def describe(v):
    s = type(v).__name__
    for a in ("dtype", "shape", "mode", "size"):
        x = getattr(v, a, None)
        if x is not None and not callable(x):
            s += f" {a}={tuple(x) if isinstance(x, tuple) else x}"
    return s


_ = io


_fernet = None


def fernet(level):
    """An encryption of the given level; all share one key, as deriving a key takes long."""
    import copy

    from litdata.utilities.encryption import FernetEncryption

    global _fernet
    if _fernet is None:
        _fernet = FernetEncryption(password="p", level="sample")
    e = copy.copy(_fernet)
    e.level = level
    return e
