"""C25: values that cross between Python and the library."""
import itertools
import numpy as np
import mlio
from mlio.integ.numpy import as_numpy, to_numpy, as_tensor, to_tensor
import pymc
from data import *
import data

D, I = mlio.DataReaderParams, mlio.InMemoryStore
T = mlio.DataType

# ------------------------------------------------------------------- arrays

NUMERIC = {"int8": T.INT8, "int16": T.INT16, "int32": T.INT32, "int64": T.INT64, "uint8": T.UINT8, "uint16": T.UINT16, "uint32": T.UINT32,
           "uint64": T.UINT64, "float16": T.FLOAT16, "float32": T.FLOAT32, "float64": T.FLOAT64}
OTHER = ["bool", "complex64", ">i4", ">f8", "longdouble", "S2", "U2", "M8[s]", "object"]


def layouts(shape, dtype):
    """Arrays of a shape in different memory layouts; name, array, dense."""
    n = int(np.prod(shape))
    if dtype == "object": base = np.array([f"s{k}" for k in range(n)], dtype=object)
    elif dtype in ("S2", "U2"): base = np.array([f"{k}" for k in range(n)], dtype=dtype)
    else: base = np.arange(1, n + 1).astype(dtype)
    a = base.reshape(shape)
    yield "C order", a.copy(), True
    k = len(shape)
    for p in itertools.permutations(range(k)):
        if list(p) == list(range(k)): continue
        inv = np.argsort(p)
        yield f"transposed {p}", np.ascontiguousarray(a.transpose(p)).transpose(inv), True
    for ax in range(k):
        big = np.repeat(a, 2, axis=ax)
        yield f"every other along {ax}", big[tuple(slice(None, None, 2) if i == ax else slice(None) for i in range(k))], False
        rev = a[tuple(slice(None, None, -1) if i == ax else slice(None) for i in range(k))].copy()
        yield f"reversed along {ax}", rev[tuple(slice(None, None, -1) if i == ax else slice(None) for i in range(k))], False
        pad = np.concatenate([a[tuple(slice(0, 1) if i == ax else slice(None) for i in range(k))], a], axis=ax)
        yield f"a part along {ax}", pad[tuple(slice(1, None) if i == ax else slice(None) for i in range(k))], False
        if shape[ax] > 1:
            one = a[tuple(slice(0, 1) if i == ax else slice(None) for i in range(k))]
            yield f"broadcast along {ax}", np.broadcast_to(one, shape), False
    ro = a.copy()
    ro.flags.writeable = False
    yield "read-only", ro, True


SHAPES = [(), (1,), (3,), (0,), (2, 3), (3, 1), (1, 4), (0, 2), (2, 3, 2), (2, 1, 3), (1, 1, 1)]


def same(x, y): return x.dtype == y.dtype and x.shape == y.shape and (x == y).all()


def arrays(c, shape, dtype):
    for name, a, dense in layouts(shape, dtype):
        if a.dtype.str != np.dtype(dtype).str and dtype not in ("S2", "U2"): continue  # concatenate() changes the byte order
        # An array of no more than one element has no layout.
        contiguous = dense or a.flags.c_contiguous or a.flags.f_contiguous
        keep = a.copy()
        for f in (as_tensor, to_tensor):
            what = f"{f.__name__} of {dtype}{shape}, {name}"
            c.transition()
            try: t = f(a)
            except (ValueError, TypeError, BufferError, RuntimeError) as e:
                must = dtype in NUMERIC and contiguous and (a.flags.writeable or f is to_tensor) or dtype == "object" and f is to_tensor and contiguous
                pymc.check(not must, "a plain array is rejected", f"{what}: {e}")
                c.outcome((f.__name__, dtype, name, "rejected"))
                continue
            c.trace()
            c.outcome((f.__name__, dtype, name, "accepted"))
            pymc.check(dtype in NUMERIC or dtype == "object" and f is to_tensor, "an array of an unsupported type is accepted", what)
            pymc.check(tuple(t.shape) == a.shape and t.data_type == (NUMERIC[dtype] if dtype != "object" else T.STRING), "wrong type of a tensor", lambda: f"{what}: {t}")
            v = as_numpy(t)
            pymc.check(same(v, keep), "wrong elements", lambda: f"{what}: {v.tolist()} instead of {keep.tolist()}")
            w = to_numpy(t)
            pymc.check(same(w, keep), "wrong elements", lambda: f"to_numpy of {what}: {w.tolist()}")
            m = sorted(np.array(t.data).tolist())
            pymc.check(m == sorted(keep.ravel().tolist()), "wrong data of a tensor", lambda: f"{what}: {m}")
            if a.size and a.flags.writeable:
                ix = (0,) * a.ndim
                old = a[ix]
                a[ix] = 77 if dtype != "object" else "changed"
                shared = v[ix] == a[ix]
                pymc.check(shared == (f is as_tensor), "memory is shared wrongly", lambda: f"{what}: {v.tolist()}")
                pymc.check(w[ix] == old, "a copy has changed", what)
                a[ix] = old
            if a.size and dtype != "object" and f is to_tensor:
                v[(0,) * a.ndim] = 78
                pymc.check(np.array(t)[(0,) * a.ndim] == 78, "a view is no view", what)
            c.nontrivial()
    c.state((shape, dtype))


# ------------------------------------------------------------------- formats

BITS = bytes([0, 1, 127, 128, 255, 254, 63, 192, 85, 170, 3, 0, 0, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 255, 0, 0, 0, 0, 0, 0, 0, 128])


def exporters():
    """Buffers of all element formats; name, buffer, elements if they are numbers."""
    import array, ctypes
    for f in "cbB?hHiIlLqQnNfdeP":
        for pre in ("", "@"):
            try: m = memoryview(bytearray(BITS)).cast(pre + f)
            except (ValueError, TypeError): continue
            yield f"memoryview {pre}{f}", m
    for t in "bBuhHiIlLqQfd": yield f"array {t}", array.array(t, BITS)
    for t in ("c_byte", "c_ubyte", "c_short", "c_ushort", "c_int", "c_uint", "c_long", "c_ulong", "c_longlong", "c_ulonglong", "c_float", "c_double", "c_bool", "c_char", "c_void_p", "c_wchar"):
        x = getattr(ctypes, t)
        for end in ("__ctype_le__", "__ctype_be__"):
            try: y = getattr(x, end)
            except AttributeError: y = x
            yield f"ctypes {t} {end}", (y * (len(BITS) // ctypes.sizeof(y))).from_buffer(bytearray(BITS))
    for t in ("byte", "ubyte", "short", "ushort", "intc", "uintc", "int_", "uint", "longlong", "ulonglong", "half", "single", "double", "bool_", "csingle", "S4", "V4", "intp", "uintp"):
        for order in "=<>": yield f"numpy {order}{t}", np.frombuffer(bytearray(BITS), dtype=np.dtype(getattr(np, t, t)).newbyteorder(order))
    yield "numpy record", np.frombuffer(bytearray(BITS), dtype=[("x", "i4")])
    yield "numpy subarray", np.frombuffer(bytearray(BITS), dtype=[("x", "i4", 2)])


EXPORTERS = list(exporters())
KIND = {T.INT8: "i1", T.INT16: "i2", T.INT32: "i4", T.INT64: "i8", T.UINT8: "u1", T.UINT16: "u2", T.UINT32: "u4", T.UINT64: "u8", T.FLOAT16: "f2", T.FLOAT32: "f4", T.FLOAT64: "f8", T.SIZE: "u8"}


def formats(c, i):
    name, b = EXPORTERS[i]
    m = memoryview(b)
    f = m.format.lstrip("@=<" if np.little_endian else "@=>")
    # What the elements are.
    want = None
    if len(f) == 1 and f in "bhilqn": want = f"i{m.itemsize}"
    elif len(f) == 1 and f in "BHILQN": want = f"u{m.itemsize}"
    elif len(f) == 1 and f in "efd": want = f"f{m.itemsize}"
    plain = want is not None and m.format in list("bBhHiIlLqQNefd") + ["@" + x for x in "bBhHiIlLqQNefd"]
    for copy in (False, True):
        what = f"{name} ({m.format!r}), copy {copy}"
        c.transition()
        try: t = mlio.DenseTensor(list(m.shape), b, copy=copy)
        except (ValueError, BufferError, TypeError, RuntimeError) as e:
            pymc.check(not plain, "a plain buffer is rejected", f"{what}: {e}")
            c.outcome((name, "rejected"))
            continue
        c.trace()
        c.outcome((name, "accepted"))
        pymc.check(want is not None and KIND.get(t.data_type) == want, "wrong type of a tensor", lambda: f"{what}: {t}")
        got = np.array(t)
        values = np.frombuffer(m.cast("B"), dtype=want)
        pymc.check(got.tobytes() == values.tobytes(), "wrong elements", lambda: f"{what}: {got} instead of {values}")
        # Sizes are indices in Python, which are signed in NumPy.
        pymc.check(got.dtype == values.dtype or (t.data_type == T.SIZE and got.dtype == np.intp), "wrong type of an array", lambda: f"{what}: {got.dtype} instead of {values.dtype}")
        c.nontrivial()
    c.state(i)


ATTRIBUTES = [(n, t, s, st, sp) for n in ("a", "") for t in (T.INT32, T.STRING, T.SIZE) for s in ([], [3], [2, 3], [1, 2, 3], [0, 2])
              for st in (None, "plain", "other") for sp in (False, True)]


def attribute(a):
    name, dt, shape, st, sparse = a
    plain = [int(np.prod(shape[i + 1:])) for i in range(len(shape))]
    strides = plain if st != "other" else [2 * x + 1 for x in plain]
    args = [name, dt, shape] + ([] if st is None else [strides])
    return mlio.Attribute(*args, **({"sparse": True} if sparse else {})), strides


def schemas(c, i):
    """Attributes and schemas: what they are made of, equality, search."""
    one, st = attribute(ATTRIBUTES[i])
    name, dt, shape, _, sparse = ATTRIBUTES[i]
    what = str(ATTRIBUTES[i])
    pymc.check((one.name, one.data_type, list(one.shape), list(one.strides), one.sparse) == (name, dt, shape, st, sparse), "wrong attribute", lambda: f"{what}: {one!r}")
    for other in ATTRIBUTES:
        two, st2 = attribute(other)
        same = (name, dt, shape, st, sparse) == (other[0], other[1], other[2], st2, other[4])
        pymc.check((one == two) == same and (not same or hash(one) == hash(two)), "wrong equality", lambda: f"{what} and {other}")
        c.transition()
        if name == other[0]: continue
        s = mlio.Schema([one, two])
        pymc.check(len(s.attributes) == 2 and s.attributes[0] == one and s.attributes[1] == two, "wrong schema", lambda: f"{what} and {other}")
        pymc.check((s.get_index(name), s.get_index(other[0]), s.get_index("x")) == (0, 1, None), "wrong index", lambda: f"{what} and {other}")
        back = mlio.Schema([two, one])
        pymc.check(s == mlio.Schema([one, two]) and hash(s) == hash(mlio.Schema([one, two])) and not (s == back) and not (s == mlio.Schema([one])), "wrong equality of schemas",
                   lambda: f"{what} and {other}")
        # Attributes outlive their schema.
        kept = s.attributes
        del s
        pymc.check(kept[1].name == other[0] and list(kept[1].shape) == other[2], "an attribute changes", lambda: f"{what} and {other}")
    c.trace()
    c.nontrivial()
    c.state(i)
    c.outcome(what)


def raw(c, shape, dtype):
    """The constructor: elements of a buffer, with or without strides."""
    n = int(np.prod(shape))
    flat = np.arange(1, n + 1).astype(dtype)
    buffers = {"array": flat, "memoryview": memoryview(flat), "bytearray": bytearray(flat.tobytes()) if dtype == "uint8" else None,
               "every other": np.repeat(flat, 2)[::2], "reversed": flat[::-1].copy()[::-1] if n > 1 else None}
    for name, b in buffers.items():
        if b is None: continue
        for copy in (False, True):
            for strides in ["none", "C", "F", "zero", "large", "back", "half back"]:
                it = list(shape)
                st = {"none": None, "C": [int(np.prod(it[i + 1:])) for i in range(len(it))], "F": [int(np.prod(it[:i])) for i in range(len(it))],
                      "zero": [0] * len(it), "large": [2 * int(np.prod(it[i + 1:])) for i in range(len(it))],
                      "back": [-int(np.prod(it[i + 1:])) for i in range(len(it))], "half back": [(-1) ** i * int(np.prod(it[i + 1:])) for i in range(len(it))]}[strides]
                what = f"{dtype}{shape} over {name}, strides {st}, copy {copy}"
                c.transition()
                try: t = mlio.DenseTensor(list(shape), b, st, copy) if st is not None else mlio.DenseTensor(list(shape), b, copy=copy)
                except (ValueError, BufferError, TypeError) as e:
                    plain = name in ("array", "memoryview", "bytearray") and strides in ("none", "C", "F")
                    pymc.check(not plain, "a plain buffer is rejected", f"{what}: {e}")
                    continue
                c.trace()
                # The elements the strides select from the buffer.
                start = 0 if n == 0 or st is None else sum(-x * (d - 1) for x, d in zip(st, it) if x < 0)
                want = np.lib.stride_tricks.as_strided(flat[start:], shape, [s * flat.itemsize for s in (st if st is not None else [int(np.prod(it[i + 1:])) for i in range(len(it))])])
                if n: pymc.check(strides != "large" or all(s <= 1 for s in shape), "a tensor larger than its buffer is accepted", what)
                got = np.array(t)
                pymc.check(got.shape == tuple(shape) and got.tolist() == want.tolist(), "wrong elements", lambda: f"{what}: {got.tolist()} instead of {want.tolist()}")
                pymc.check(np.array(t.data).tolist() == flat.tolist(), "wrong data of a tensor", lambda: f"{what}: {np.array(t.data).tolist()}")
    # Too small and too large buffers.
    for k in (n - 1, n + 1):
        if k < 0 or n == 0: continue
        for copy in (False, True):
            try: mlio.DenseTensor(list(shape), np.zeros(k, dtype), copy=copy)
            except ValueError: continue
            pymc.check(k > n, "a tensor larger than its buffer is accepted", f"{dtype}{shape} over {k} elements")


def coo(c, i):
    dtype = list(NUMERIC)[i % len(NUMERIC)]
    for cd in ("int64", "uint64", "int32", "float32"):
        for copy in (False, True):
            for layout in ("C", "every other", "reversed", "broadcast"):
                def lay(a):
                    if layout == "every other": return np.repeat(a, 2)[::2]
                    if layout == "reversed": return a[::-1].copy()[::-1]
                    return a
                v = lay(np.array([5, 6, 7]).astype(dtype))
                x = [lay(np.array([0, 1, 1]).astype(cd)), lay(np.array([2, 0, 2]).astype(cd))]
                if layout == "broadcast": v, x = np.broadcast_to(v[:1], 3), [np.broadcast_to(y[:1], 3) for y in x]
                what = f"{dtype}, coordinates {cd}, {layout}, copy {copy}"
                c.transition()
                try: t = mlio.CooTensor([2, 3], v, x, copy)
                except (ValueError, BufferError) as e:
                    pymc.check(not (layout == "C" and cd in ("uint64", "int64")), "plain coordinates are rejected", f"{what}: {e}")
                    continue
                c.trace()
                pymc.check(t.data_type == NUMERIC[dtype] and tuple(t.shape) == (2, 3), "wrong type of a tensor", what)
                pymc.check(np.array(t.data).tolist() == v.tolist(), "wrong elements", lambda: f"{what}: {np.array(t.data).tolist()}")
                for d in range(2):
                    pymc.check(np.array(t.indices(d)).tolist() == x[d].tolist(), "wrong indices", lambda: f"{what}: {np.array(t.indices(d)).tolist()}")
    c.nontrivial()
    c.state(i)


# --------------------------------------------------------------- large sizes

LARGE_SHAPES = [(127,), (255,), (256,), (257,), (65537,), (3, 300), (300, 3), (257, 1, 2)]
LARGE_TYPES = ["int8", "uint16", "int32", "uint64", "float16", "float64", "object"]
SIZES = [127, 128, 255, 256, 257, 300, 65535, 65537]


def large(c, i):
    """Long texts, many cells, many features, many dimensions, many stores; whole contents read into buffers."""
    n = SIZES[i]
    small = min(n, 300)
    alphabet = "a\u00e9\U0001f600b"
    text = "".join(alphabet[(k + k // 7) % 4] for k in range(n))
    for v in ([text, "x"], ["x", text, ""], [str(k) for k in range(n)]):
        t = to_tensor(np.array(v, dtype=object))
        pymc.check(as_numpy(t).tolist() == v and to_numpy(t).tolist() == v, "wrong strings", f"{len(v)} strings, {n}")
        c.transition()
    csv = mlio.CsvParams(header_row_index=None, default_data_type=T.STRING)
    e = mlio.CsvReader(D([I((text + ",y\n").encode())], 1), csv).read_example()
    pymc.check(as_numpy(e[0]).ravel().tolist() == [text], "wrong strings", f"a cell of {n}")
    # Many features and rows.
    rows = [[r * small + k for k in range(small)] for r in range(2)]
    r = mlio.CsvReader(D([I("".join(",".join(map(str, x)) + "\n" for x in rows).encode())], 2), mlio.CsvParams(header_row_index=None, default_data_type=T.INT32))
    schema = r.read_schema()
    e = r.read_example()
    pymc.check(len(e) == small and len(schema.attributes) == small, "wrong number of features", str(small))
    for k, f in enumerate(e):
        pymc.check(as_numpy(f).ravel().tolist() == [x[k] for x in rows] and as_numpy(e[k]).ravel().tolist() == [x[k] for x in rows] and as_numpy(e[str(k + 1)]).ravel().tolist() == [x[k] for x in rows],
                   "wrong feature", f"{k} of {small}")
        c.transition()
    e = mlio.TextLineReader(D([I(b"".join(b"%d\n" % k for k in range(n)))], n)).read_example()
    pymc.check(as_numpy(e[0]).ravel().tolist() == [str(k) for k in range(n)], "wrong lines", str(n))
    # Many stores.
    stores = [I(b"%d\n" % k) for k in range(small)]
    params = D(stores, 1)
    pymc.check(len(params.dataset) == small, "wrong dataset", str(small))
    got = [as_numpy(x[0]).ravel().tolist()[0] for x in mlio.TextLineReader(params)]
    pymc.check(got == [str(k) for k in range(small)], "wrong lines", f"{small} stores")
    # Streams and records.
    data = bytes((k * 7 + k // 256) % 251 for k in range(n))
    for chunk in (1, 255, 256, n):
        if chunk == 1 and n > 300: continue
        s, out = I(data).open_read(), b""
        while True:
            b = bytearray(chunk)
            k = s.read(b)
            if k == 0: break
            out += bytes(b[:k])
        pymc.check(out == data, "wrong bytes", f"{n} in pieces of {chunk}")
        c.transition()
    s = I(data).open_read()
    m = s.read(n)
    pymc.check(bytes(m) == data, "wrong bytes", str(n))
    whole = [parquet(x) for x in (data, b"abc", data)]
    got = [bytes(x) for x in mlio.ParquetRecordReader(I(b"".join(whole)).open_read())]
    pymc.check(got == whole, "wrong record", str(n))
    # Many dimensions: NumPy has no more than 32 of them.
    for rank in (7, 16, 31, 32):
        a = np.arange(2, dtype="int32").reshape((1,) * (rank - 1) + (2,))
        pymc.check(same(as_numpy(to_tensor(a)), a) and same(as_numpy(as_tensor(a)), a), "wrong elements", f"{rank} dimensions")
    # Sparse.
    t = mlio.CooTensor([n], np.arange(n, dtype="float32"), [np.arange(n, dtype="uint64").astype("uintp")[::-1].copy()])
    pymc.check(np.array(t.data).tolist() == list(range(n)) and np.array(t.indices(0)).tolist() == list(range(n))[::-1], "wrong coordinates", str(n))
    c.trace()
    c.nontrivial()
    c.state(n)
    c.outcome(n)


# ------------------------------------------------------------------- strings

STRINGS = ["", "a", "\u00e9", "\U0001f600", "a\0b", "x" * 100, " "]


def strings(c, i):
    """String tensors: from arrays, from readers, with invalid text."""
    v = [STRINGS[i % 7], STRINGS[i // 7 % 7]]
    a = np.array(v, dtype=object)
    t = to_tensor(a)
    for _ in range(2):
        for view in (as_numpy(t), to_numpy(t), np.array(t.data), np.array(t.data, copy=False)):
            pymc.check(view.tolist() == v, "wrong strings", lambda: f"{view.tolist()} instead of {v}")
    d = t.data
    x, y = np.array(d, copy=False), np.array(d, copy=False)
    del d, t
    pymc.check(x.tolist() == v and y.tolist() == v, "wrong strings", "views")
    c.trace()
    # A dataset with text that is no UTF-8 in some cell.
    for bad in (b"\xff", b"\xc3", b"a\x80", b"\xed\xa0\x80"):
        for where in range(3):
            cells = [b"a", b"b", b"c"]
            cells[where] = bad
            r = mlio.CsvReader(D([I(b"\n".join(cells) + b"\n")], 3), mlio.CsvParams(header_row_index=None, default_data_type=T.STRING))
            e = r.read_example()
            direct = lambda: np.array(e[0].data)
            for how in (lambda: as_numpy(e[0]), lambda: to_numpy(e[0]), direct, lambda: memoryview(e[0]), lambda: memoryview(e[0].data)):
                for _ in range(2):
                    c.transition()
                    try: z = how()
                    except ValueError: continue
                    # NumPy makes an object of what it cannot read.
                    pymc.check(isinstance(z, np.ndarray) and z.shape == () and z[()] is not None and not isinstance(z[()], str) and how is direct, "invalid text is accepted", f"{bad} at {where}")
            # The same array, asked twice.
            q = e[0].data
            for _ in range(3):
                try: z = memoryview(q)
                except ValueError: continue
                pymc.check(False, "invalid text is accepted", f"{bad} at {where}, again")
    # Objects that are no strings.
    for w in (["a", None], [1, 2], ["a", b"b"], [None, "a"]):
        try: t = to_tensor(np.array(w, dtype=object))
        except (ValueError, TypeError, RuntimeError): continue
        pymc.check(as_numpy(t).tolist() == [x if isinstance(x, str) else x.decode() for x in w], "wrong strings", str(w))
    c.state(tuple(v))
    c.nontrivial()


# ---------------------------------------------------------------- parameters

E = mlio.BadExampleHandling
L = mlio.LastExampleHandling
READER_PARAMS = [  # in the order of the constructor: name, default, other values
    ("batch_size", None, [2, 3]), ("num_prefetched_examples", 0, [1, 5]), ("num_parallel_reads", 0, [2, 7]),
    ("last_example_handling", L.NONE, [L.DROP, L.DROP_WARN, L.PAD, L.PAD_WARN]),
    ("bad_example_handling", E.ERROR, [E.SKIP, E.SKIP_WARN, E.PAD, E.PAD_WARN]), ("warn_bad_instances", False, [True]),
    ("num_instances_to_skip", 0, [1, 4]), ("num_instances_to_read", None, [0, 3]), ("shard_index", 0, [1]), ("num_shards", 0, [2, 3]),
    ("sample_ratio", None, [.5, .25]), ("shuffle_instances", False, [True]), ("shuffle_window", 0, [1, 8]), ("shuffle_seed", None, [0, 2 ** 40]),
    ("reshuffle_each_epoch", True, [False])]
M = mlio.MaxFieldLengthHandling
CSV_PARAMS = [
    ("column_names", [], [["a", "b"]]), ("name_prefix", "", ["p_"]), ("use_columns", set(), [{"x"}]), ("use_columns_by_index", set(), [{1}]),
    ("default_data_type", None, [T.STRING, T.UINT8]), ("column_types", {}, [{"x": T.INT32}]), ("column_types_by_index", {}, [{1: T.FLOAT32}]),
    ("header_row_index", 0, [None, 2]), ("has_single_header", False, [True]), ("dedupe_column_names", True, [False]), ("delimiter", ",", [";"]),
    ("quote_char", '"', ["'"]), ("comment_char", None, ["#"]), ("allow_quoted_new_lines", False, [True]), ("skip_blank_lines", True, [False]),
    ("encoding", None, ["latin1"]), ("max_field_length", None, [3]), ("max_field_length_handling", M.TREAT_AS_BAD, [M.TRUNCATE, M.TRUNCATE_WARN]),
    ("max_line_length", None, [100]), ("parser_options", None, [mlio.ParserParams({"x"}, 16)])]
IMAGE_PARAMS = [("image_frame", mlio.ImageFrame.NONE, [mlio.ImageFrame.RECORDIO]), ("resize", None, [5]), ("image_dimensions", None, [[3, 4, 5]]), ("to_rgb", False, [True])]
PARSER_PARAMS = [("nan_values", set(), [{"a", "b"}]), ("number_base", 10, [16, 2])]
NO_READ = {"warn_bad_instances", "encoding", "parser_options"}


def plain(x): return (x.nan_values, x.number_base) if isinstance(x, mlio.ParserParams) else x


def attributes(c, cls, table, first):
    """Every parameter, by keyword, by position and by assignment, alone and in pairs."""
    req = [n for n, d, _ in table if d is None and n in ("batch_size", "image_dimensions")]
    base = {n: vs[0] for n, d, vs in table if n in req}
    def make(kw): return cls(*first, **kw)
    def expect(o, kw, what):
        for n, d, _ in table:
            if n in NO_READ: continue
            got, want = plain(getattr(o, n)), plain(kw.get(n, base.get(n, d)))
            pymc.check(got == want and type(got) is type(want), "wrong parameter", lambda: f"{cls.__name__}({what}).{n} is {got!r} instead of {want!r}")
        if first: pymc.check([s.id for s in o.dataset] == [s.id for s in first[0]], "wrong dataset", what)
    single = [(n, v) for n, d, vs in table for v in vs]
    expect(make(base), base, "defaults")
    for (n, v) in single:
        kw = {**base, n: v}
        expect(make(kw), kw, f"{n}={v}")
        if n not in NO_READ:
            o = make(base)
            setattr(o, n, v)
            expect(o, kw, f"assigned {n}={v}")
        c.transition()
    for (n, v), (k, w) in itertools.combinations(single, 2):
        if n == k: continue
        kw = {**base, n: v, k: w}
        expect(make(kw), kw, f"{n}={v}, {k}={w}")
        c.transition()
    # By position, each prefix of the list.
    for k in range(1, len(table) + 1):
        if any(n in req for n, d, _ in table[k:]): continue
        kw = {n: vs[-1] for n, d, vs in table[:k]}
        expect(cls(*first, *kw.values()), {**base, **kw}, f"positional {list(kw)}")
        c.trace()
    c.nontrivial()
    c.state(cls.__name__)


def rows(r):
    out = []
    for e in r: out.append([as_numpy(f).reshape(len(f_rows(f)), -1).tolist() for f in e] + [e.padding])
    return out


def f_rows(f): return as_numpy(f)


def effects():
    """What each parameter does: parameters and the examples they give."""
    I32 = mlio.CsvParams(header_row_index=None, default_data_type=T.INT32)
    st = lambda n=6: [I(b"".join(b"%d\n" % k for k in range(n)))]
    bad = [I(b"0\n1\nx\n3\n4\n5\n")]
    b = lambda *v: [[[x] for x in v], 0]
    pad = lambda p, *v: [[[x] for x in v], p]
    out = []
    def csv(what, ds, kw, want, cp=I32): out.append((what, lambda: rows(mlio.CsvReader(D(ds, **kw), cp)), want))
    csv("batch_size", st(), dict(batch_size=2), [b(0, 1), b(2, 3), b(4, 5)])
    csv("batch_size", st(), dict(batch_size=3), [b(0, 1, 2), b(3, 4, 5)])
    csv("none", st(), dict(batch_size=4, last_example_handling=L.NONE), [b(0, 1, 2, 3), b(4, 5)])
    for h in (L.DROP, L.DROP_WARN): csv(str(h), st(), dict(batch_size=4, last_example_handling=h), [b(0, 1, 2, 3)])
    for h in (L.PAD, L.PAD_WARN): csv(str(h), st(), dict(batch_size=4, last_example_handling=h), [b(0, 1, 2, 3), pad(2, 4, 5, 0, 0)])
    csv("bad: error", bad, dict(batch_size=2, bad_example_handling=E.ERROR), mlio.DataReaderError)
    for h in (E.SKIP, E.SKIP_WARN): csv("bad: skip", bad, dict(batch_size=2, bad_example_handling=h), [b(0, 1), b(4, 5)])
    for h in (E.PAD, E.PAD_WARN): csv("bad: pad", bad, dict(batch_size=2, bad_example_handling=h), [b(0, 1), pad(1, 3, 0), b(4, 5)])
    csv("skip", st(), dict(batch_size=2, num_instances_to_skip=3), [b(3, 4), b(5)])
    csv("read", st(), dict(batch_size=2, num_instances_to_read=3), [b(0, 1), b(2)])
    csv("read none", st(), dict(batch_size=2, num_instances_to_read=0), [])
    csv("skip, read", st(), dict(batch_size=2, num_instances_to_skip=2, num_instances_to_read=3), [b(2, 3), b(4)])
    csv("shard 0 of 2", st(), dict(batch_size=2, num_shards=2), [b(0, 2), b(4)])
    csv("shard 1 of 2", st(), dict(batch_size=2, shard_index=1, num_shards=2), [b(1, 3), b(5)])
    csv("shard 2 of 3", st(), dict(batch_size=2, shard_index=2, num_shards=3), [b(2, 5)])
    csv("sample all", st(), dict(batch_size=2, sample_ratio=1.0), ValueError)
    def shuffled(kw, epochs):
        r = mlio.CsvReader(D(st(20), 20, shuffle_instances=True, **kw), I32)
        res = []
        for _ in range(epochs):
            res.append([x[0] for x in rows(r)[0][0]])
            r.reset()
        return res
    def same_seed():
        a, d = shuffled(dict(shuffle_seed=5, reshuffle_each_epoch=False), 3), shuffled(dict(shuffle_seed=5, reshuffle_each_epoch=False), 3)
        x = shuffled(dict(shuffle_seed=5), 3)
        y = shuffled(dict(shuffle_seed=2 ** 40 + 5), 1)
        z = shuffled(dict(shuffle_seed=5, shuffle_window=2), 1)[0]
        return [a == d, a[0] == a[1] == a[2], x[0] != x[1] and x[0] == a[0], sorted(x[1]) == list(range(20)), y[0] != a[0], all(v <= k + 2 for k, v in enumerate(z))]
    out.append(("shuffling", same_seed, [True] * 6))
    # CSV parameters.
    def c(what, text, want, err=None, **kw):
        def f():
            r = mlio.CsvReader(D([I(text if isinstance(text, bytes) else text.encode())], 2), mlio.CsvParams(**kw))
            s = r.read_schema()
            return [[(a.name, a.data_type) for a in s.attributes] if s is not None else None] + [[as_numpy(f).ravel().tolist() for f in e] for e in r]
        out.append((what + f" {kw}", f, want))
    S, N = T.STRING, T.INT64
    c("header", "x,y\n1,2\n", [[("x", N), ("y", N)], [[1], [2]]])
    c("no header", "1,2\n", [[("1", N), ("2", N)], [[1], [2]]], header_row_index=None)
    c("header row", "z\nx,y\n1,2\n", [[("x", N), ("y", N)], [[1], [2]]], header_row_index=1)
    c("names", "1,2\n", [[("u", N), ("v", N)], [[1], [2]]], header_row_index=None, column_names=["u", "v"])
    c("prefix", "x,y\n1,2\n", [[("p_x", N), ("p_y", N)], [[1], [2]]], name_prefix="p_")
    c("use", "x,y\n1,2\n", [[("y", N)], [[2]]], use_columns={"y"})
    c("use", "x,y\n1,2\n", [[("x", N)], [[1]]], use_columns_by_index={0})
    c("type", "x,y\n1,2\n", [[("x", S), ("y", S)], [["1"], ["2"]]], default_data_type=S)
    c("type", "x,y\n1,2\n", [[("x", N), ("y", S)], [[1], ["2"]]], column_types={"y": S})
    c("type", "x,y\n1,2\n", [[("x", S), ("y", N)], [["1"], [2]]], column_types_by_index={0: S})
    c("dedupe", "x,x\n1,2\n", [[("x", N), ("x_1", N)], [[1], [2]]])
    c("dedupe", "x,x\n1,2\n", mlio.SchemaError, dedupe_column_names=False)
    c("delimiter", "x;y\n1;2\n", [[("x", N), ("y", N)], [[1], [2]]], delimiter=";")
    c("quote", "x,y\n'1,5',2\n", [[("x", S), ("y", N)], [["1,5"], [2]]], quote_char="'")
    c("comment", "x,y\n#c\n1,2\n", [[("x", N), ("y", N)], [[1], [2]]], comment_char="#")
    c("new line", 'x,y\n"1\n5",2\n', [[("x", S), ("y", N)], [["1\n5"], [2]]], allow_quoted_new_lines=True)
    c("blank", "x\n\n1\n", [[("x", N)], [[1]]])
    c("blank", "x\na\n\n", [[("x", S)], [["a", ""]]], skip_blank_lines=False)
    c("encoding", b"x\n\xe9\n", [[("x", S)], [["\u00e9"]]], encoding="latin1")
    c("long", "x\nabcd\n", mlio.DataReaderError, max_field_length=3)
    c("long", "x\nabcd\n", [[("x", S)], [["abc"]]], max_field_length=3, max_field_length_handling=M.TRUNCATE)
    c("long", "x\nabcd\n", [[("x", S)], [["abc"]]], max_field_length=3, max_field_length_handling=M.TRUNCATE_WARN)
    c("line", "x\nabcd\n", mlio.MLIOError, max_line_length=3)
    c("base", "x\nff\n", [[("x", T.INT32)], [[255]]], default_data_type=T.INT32, parser_options=mlio.ParserParams(number_base=16))
    c("nan", "x\nq\n1\n", [[("x", T.FLOAT32)], "nan 1.0"], default_data_type=T.FLOAT32, parser_options=mlio.ParserParams({"q"}))
    def single_header(flag):
        r = mlio.CsvReader(D([I(b"x\n1\n"), I(b"2\n3\n")], 2), mlio.CsvParams(has_single_header=flag))
        return [[as_numpy(f).ravel().tolist() for f in e] for e in r]
    out.append(("single header", lambda: single_header(True), [[[1, 2]], [[3]]]))
    out.append(("header in each store", lambda: single_header(False), [[[1, 3]]]))
    # Images.
    img = [[(10 * y + x, x, 200 + y) for x in range(2)] for y in range(2)]
    hwc = [[list(p) for p in r] for r in img]
    def im(**kw): return lambda: [as_numpy(f).tolist() for e in mlio.ImageReader(D([I(data.png(img))], 1), mlio.ImageReaderParams(**kw)) for f in e]
    out.append(("rgb", im(image_dimensions=[3, 2, 2], to_rgb=True), [[hwc]]))
    out.append(("bgr", im(image_dimensions=[3, 2, 2], to_rgb=False), [[[[p[::-1] for p in r] for r in hwc]]]))
    def shape(**kw): return lambda: [as_numpy(f).shape for e in mlio.ImageReader(D([I(data.png(img))], 1), mlio.ImageReaderParams(**kw)) for f in e]
    out.append(("resize", shape(image_dimensions=[3, 4, 3], resize=4), [(1, 4, 3, 3)]))
    return out


EFFECTS = effects()


def effect(c, i):
    what, f, want = EFFECTS[i]
    try: got = f()
    except Exception as e:
        if isinstance(want, type) and isinstance(e, want): got = want
        else: raise pymc.Fail("wrong effect of a parameter", f"{what}: {type(e).__name__}: {e} instead of {want}")
    if isinstance(want, list) and len(want) == 2 and want[1] == "nan 1.0":
        x = got[1][0]
        got[1] = " ".join(str(v) for v in x)
    pymc.check(got == want, "wrong effect of a parameter", lambda: f"{what}: {got} instead of {want}")
    c.trace()
    c.transition()
    c.nontrivial()
    c.state(i)
    c.outcome(repr(got))


# -------------------------------------------------------------------- errors

def errors():
    i32 = mlio.CsvParams(header_row_index=None, default_data_type=T.INT32)
    one = lambda d, p=None: mlio.CsvReader(D([I(d)], 1), p or i32)
    gz = data.gz(b"1\n2\n3\n")
    return [
        ("bad row", lambda: one(b"x\n").read_example(), "InvalidInstanceError"),
        ("bad row, peek", lambda: one(b"x\n").peek_example(), "InvalidInstanceError"),
        ("bad row, iterate", lambda: list(one(b"x\n")), "InvalidInstanceError"),
        ("bad row, prefetch", lambda: list(mlio.CsvReader(D([I(b"1\nx\n")], 1, num_prefetched_examples=3), i32)), "InvalidInstanceError"),
        ("number of columns", lambda: [0 for _ in one(b"1\n1,2\n")], "InvalidInstanceError"),
        ("duplicate names", lambda: one(b"a,a\n1,2\n", mlio.CsvParams(dedupe_column_names=False)).read_schema(), "SchemaError"),
        ("unknown encoding", lambda: one(b"1\n", mlio.CsvParams(encoding="nonsense")).read_example(), "DataReaderError/OSError"),
        ("long line", lambda: one(b"1\n" + b"2" * 50 + b"\n", mlio.CsvParams(header_row_index=None, max_line_length=10)).read_example() and one(b"2" * 50 + b"\n", mlio.CsvParams(header_row_index=None, max_line_length=10)).read_example(), "DataReaderError/RecordTooLargeError"),
        ("bad text", lambda: one(b"a\n\x00\xd8\xff\xff\x00\n", mlio.CsvParams(encoding="utf-16le")).read_example(), "DataReaderError/StreamError"),
        ("bad text, text lines", lambda: mlio.TextLineReader(D([I(b"a\n\xff\xff\n")], 1)).read_example() and mlio.CsvReader(D([I(b"a\n\xff\xff\n")], 1), mlio.CsvParams(encoding="utf-8")).read_schema(), "DataReaderError/StreamError"),
        ("open quote in the header", lambda: one(b'"a', mlio.CsvParams()).read_schema(), "SchemaError/CorruptRecordError"),
        ("open quote in the first row", lambda: one(b'a,b\n1,"a', mlio.CsvParams()).read_example(), "SchemaError/CorruptRecordError"),
        ("corrupt image", lambda: mlio.ImageReader(D([I(b"no image")], 1), mlio.ImageReaderParams(image_dimensions=[3, 1, 1])).read_example(), "InvalidInstanceError"),
        ("directory in a reader", lambda: mlio.TextLineReader(D([mlio.File("/", memory_map=False)], 1)).read_example(), "ValueError"),
        ("missing file", lambda: mlio.File("/nonexistent/x").open_read(), "FileNotFoundError"),
        ("missing file in a reader", lambda: mlio.CsvReader(D([mlio.File("/nonexistent/x")], 1)).read_example(), "DataReaderError"),
        ("directory", lambda: mlio.File("/").open_read().read(bytearray(1)), "ValueError"),
        ("closed stream", lambda: closed(), "StreamError"),
        ("corrupt gzip", lambda: I(b"no gzip at all, really", mlio.Compression.GZIP).open_read().read(bytearray(10)), "InflateError"),
        ("corrupt gzip in a reader", lambda: mlio.CsvReader(D([I(b"no gzip at all, really", mlio.Compression.GZIP)], 1)).read_example(), "DataReaderError/InflateError"),
        ("truncated gzip", lambda: drain(I(gz[:-4], mlio.Compression.GZIP).open_read()), "InflateError"),
        ("bzip2", lambda: I(b"x", mlio.Compression.BZIP2).open_read(), "NotSupportedError"),
        ("bzip2 in a reader", lambda: mlio.CsvReader(D([I(b"x", mlio.Compression.BZIP2)], 1)).read_example(), "DataReaderError/NotSupportedError"),
        ("corrupt recordio", lambda: mlio.RecordIOProtobufReader(D([I(b"12345678")], 1)).read_example(), "DataReaderError/CorruptHeaderError"),
        ("truncated recordio", lambda: mlio.RecordIOProtobufReader(D([I(data.recordio(b"12345678")[:-4])], 1)).read_example(), "DataReaderError/CorruptRecordError|DataReaderError/CorruptHeaderError"),
        ("corrupt protobuf", lambda: mlio.RecordIOProtobufReader(D([I(data.recordio(b"12345678"))], 1)).read_example(), "InvalidInstanceError|SchemaError"),
        ("corrupt parquet", lambda: mlio.ParquetRecordReader(I(b"12345678901234567890").open_read()).read_record(), "CorruptHeaderError"),
        ("truncated parquet", lambda: mlio.ParquetRecordReader(I(data.parquet(b"abc")[:-1]).open_read()).read_record(), "CorruptFooterError"),
        ("feature index", lambda: one(b"1\n").read_example()[1], "KeyError"),
        ("feature name", lambda: one(b"1\n").read_example()["x"], "KeyError"),
        ("batch size", lambda: mlio.CsvReader(D([I(b"1\n")], 0)), "ValueError"),
        ("shard", lambda: mlio.CsvReader(D([I(b"1\n")], 1, shard_index=2, num_shards=2)), "ValueError"),
        ("shape", lambda: mlio.DenseTensor([3], np.zeros(2)), "ValueError"),
        ("schema", lambda: mlio.Schema([mlio.Attribute("x", T.INT8, [1, 1]), mlio.Attribute("x", T.INT8, [1, 1])]), "ValueError"),
        ("read-only buffer", lambda: I(b"x").open_read().read(b"y"), "BufferError"),
        ("dlpack of strings", lambda: mlio._core.as_dlpack(to_tensor(np.array(["a"], dtype=object)), dl_version()), "NotSupportedError"),
        ("dlpack version", lambda: mlio._core.as_dlpack(to_tensor(np.array([1])), dl_version() + 1), "NotSupportedError"),
        ("dlpack of sparse", lambda: mlio._core.as_dlpack(mlio.CooTensor([1], np.array([1.5]), [np.array([0])]), dl_version()), "ValueError"),
        ("end", lambda: next(iter(one(b""))), "StopIteration"),
    ]


def closed():
    s = I(b"x").open_read()
    s.close()
    s.read(bytearray(1))


def drain(s):
    while s.read(bytearray(8)): pass


def dl_version():
    import worlds
    return worlds.dl_version()


ERRORS = errors()


def error(c, i):
    what, f, want = ERRORS[i]
    try: r = f()
    except BaseException as e:
        x, chain = e, []
        while x is not None:
            chain.append(type(x).__name__)
            x = x.__cause__
        pymc.check("/".join(chain) in want.split("|"), "wrong exception", lambda: f"{what}: {e}, {'/'.join(chain)} instead of {want}")
        pymc.check(not isinstance(e, OSError) or e.errno, "no error code", what)
        pymc.check(str(e) != "" or want == "StopIteration", "an exception says nothing", what)
    else: raise pymc.Fail("no exception", f"{what}: {r!r}")
    c.trace(); c.transition(); c.state(i); c.nontrivial(); c.outcome(what)


# ----------------------------------------------------------------- iteration

def iteration(c, kinds, i, depth):
    """All histories of reading through the Python interface."""
    import worlds
    mk, exs, sparse = kinds[i][1]
    r = mk()
    k, its, hist = 0, [], []
    view = lambda e: None if e is None else [(np.array(t.data).tolist(), [np.array(t.indices(d)).tolist() for d in range(len(t.shape))]) if sparse else np.array(t).tolist() for t in e]
    for _ in range(depth):
        ops = ["read", "peek", "iterate", "reset", "schema", "for"] + (["next"] if its else [])
        op = ops[c.choose(len(ops))]
        hist.append(op)
        want = exs[k] if k < len(exs) else None
        if op == "read": got, adv = r.read_example(), 1
        elif op == "peek": got, adv = r.peek_example(), 0
        elif op == "next": got, adv = next(its[-1], None), 1
        elif op == "iterate":
            its.append(iter(r))
            continue
        elif op == "reset":
            r.reset()
            k = 0
            continue
        elif op == "schema":
            s = r.read_schema()
            pymc.check(len(s.attributes) == len(exs[0]), "wrong schema", str(hist))
            continue
        else:
            got = [view(e) for e in r]
            pymc.check(got == exs[k:], "wrong examples", lambda: f"{got} instead of {exs[k:]} after {hist}")
            k = len(exs)
            continue
        v = view(got)
        pymc.check(v == want, "wrong example", lambda: f"{v} instead of {want} after {hist}")
        k = min(k + adv, len(exs))
        c.transition()
        c.state((i, k, op))
    c.trace()
    c.outcome((i, k))
    c.nontrivial()


def suites(tier, S):
    th = tier == "thorough"
    import worlds
    types = list(NUMERIC) + OTHER
    out = [S("C25/arrays", "tensors from arrays of all types x shapes x memory layouts, and back", len(SHAPES) * len(types),
             lambda c, i: arrays(c, SHAPES[i % len(SHAPES)], types[i // len(SHAPES)]), lambda i: f"{types[i // len(SHAPES)]}{SHAPES[i % len(SHAPES)]}"),
           S("C25/buffers", "tensors from buffers with all kinds of strides", len(SHAPES) * len(NUMERIC),
             lambda c, i: raw(c, SHAPES[i % len(SHAPES)], list(NUMERIC)[i // len(SHAPES)]), lambda i: f"{list(NUMERIC)[i // len(SHAPES)]}{SHAPES[i % len(SHAPES)]}"),
           S("C25/formats", "tensors from buffers of all element formats", len(EXPORTERS), formats, lambda i: EXPORTERS[i][0]),
           S("C25/schemas", "all pairs of attributes", len(ATTRIBUTES), schemas, lambda i: str(ATTRIBUTES[i])),
           S("C25/sparse", "sparse tensors from arrays", len(NUMERIC), coo),
           S("C25/long", "long texts, many cells, features, stores and dimensions", len(SIZES), large, lambda i: str(SIZES[i])),
           S("C25/large", "tensors from large arrays x memory layouts, and back", len(LARGE_SHAPES) * len(LARGE_TYPES),
             lambda c, i: arrays(c, LARGE_SHAPES[i % len(LARGE_SHAPES)], LARGE_TYPES[i // len(LARGE_SHAPES)]), lambda i: f"{LARGE_TYPES[i // len(LARGE_SHAPES)]}{LARGE_SHAPES[i % len(LARGE_SHAPES)]}"),
           S("C25/strings", "string tensors, valid and not", 49, strings, lambda i: repr((STRINGS[i % 7], STRINGS[i // 7]))),
           S("C25/parameters", "every parameter alone and in pairs", 4, lambda c, i: attributes(c, *[
               (mlio.DataReaderParams, READER_PARAMS, [[I(b"x"), I(b"yy")]]), (mlio.CsvParams, CSV_PARAMS, []),
               (mlio.ImageReaderParams, IMAGE_PARAMS, []), (mlio.ParserParams, PARSER_PARAMS, [])][i])),
           S("C25/effects", "what each parameter does", len(EFFECTS), effect, lambda i: EFFECTS[i][0]),
           S("C25/errors", "what each failure raises", len(ERRORS), error, lambda i: ERRORS[i][0])]
    kinds = list(worlds.reader_kinds().items())
    depth = 6 if th else 4
    out.append(S("C25/iteration", "all histories of reading", len(kinds), lambda c, i: iteration(c, kinds, i, depth), lambda i: kinds[i][0], bound=depth))
    return out
