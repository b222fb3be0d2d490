"""C24: graphs of Python objects that share native memory.

A world has nodes (variables that may hold an object), each made from other
nodes, and operations. A history is a sequence of makes, drops and operations;
after each step everything that can be seen through the variables must be what
the model says. The model of a node is its content, fixed when it is made."""
import gc, os, pickle, tempfile, weakref
import numpy as np
import mlio
from mlio.integ.numpy import as_numpy, to_numpy
import pymc, data


# Everything made in a history: once the variables are gone, it has to be, too.
MADE = []


class Block(bytearray): pass


class Text(bytes): pass


def track(what, x):
    try: MADE.append((what, weakref.ref(x)))
    except TypeError: pass
    return x


def left(): return [what for what, r in MADE if r() is not None]


class Node:
    def __init__(self, deps, make, view=None, model=None):
        """make(env, m) returns the object; model(m) its content, m: contents of the other nodes."""
        self.deps, self.make, self.view, self.model = deps, make, view, model


class World:
    def __init__(self, name, nodes, ops=None, init=None, merge=True):
        self.name, self.nodes, self.ops, self.init, self.merge = name, nodes, ops or {}, init or dict, merge
        self.names = list(nodes)


class State:
    def __init__(self, w):
        self.w, self.obj, self.m = w, {}, dict(w.init())  # m: model: globals and contents of nodes

    def enabled(self):
        r = []
        for n, d in self.w.nodes.items():
            if n in self.obj: r.append(("drop", n))
            elif all(x in self.obj and self.obj[x] is not None for x in d.deps): r.append(("make", n))
        for n, (deps, f) in self.w.ops.items():
            if all(x in self.obj and self.obj[x] is not None for x in deps): r.append(("op", n))
        return r

    def do(self, step):
        k, n = step
        if k == "drop":
            del self.obj[n]
            del self.m[n]
        elif k == "make":
            d = self.w.nodes[n]
            content = d.model(self.m) if d.model else True
            self.m[n] = content
            self.obj[n] = track(n, d.make(self.obj, self.m))
        else: self.w.ops[n][1](self.obj, self.m)

    def verify(self, hist):
        for n, o in self.obj.items():
            d = self.w.nodes[n]
            if d.view is None: continue
            want = self.m[n]
            if o is None or want is None:
                pymc.check(o is None and want is None, "the end is not reported alike", lambda: f"{n}: {o!r} instead of {want!r} after {hist}")
                continue
            got = d.view(o)
            if getattr(self.w, "strip", False): want = want[:2]
            pymc.check(got == want, "wrong content", lambda: f"{n} shows {got!r} instead of {want!r} after {hist}")

    def key(self): return tuple(sorted((k, repr(v)) for k, v in self.m.items()))


def run(c, w, depth):
    s = State(w)
    hist = []
    MADE.clear()
    for _ in range(depth):
        e = s.enabled()
        step = e[c.choose(len(e))] if len(e) > 1 else e[0]
        hist.append(" ".join(step))
        s.do(step)
        s.verify(hist)
        c.transition()
        c.state((w.name, s.key()))
    c.trace()
    c.outcome((w.name, s.key()))
    if any(x.startswith("drop") for x in hist): c.nontrivial()
    if c.path and not any(c.path[1:]): c.sample(f"{w.name}: " + ", ".join(hist))
    s.obj.clear()
    if left(): gc.collect()
    pymc.check(not left(), "objects outlive their last use", lambda: f"{left()} after {hist} and dropping all")


# ------------------------------------------------------------------- streams

PATH = None


def files():
    global PATH
    if PATH is None:
        PATH = tempfile.mkdtemp(prefix="mcpy-")
        import atexit, shutil
        atexit.register(shutil.rmtree, PATH, ignore_errors=True)
        pid = os.getpid()
        open(PATH + "/a.bin", "wb").write(TEXT)
        open(PATH + "/a.gz", "wb").write(data.gz(TEXT))
    return PATH


TEXT = bytes(range(48, 48 + 40))


def stream_worlds():
    files()
    out = []
    I = mlio.InMemoryStore
    kinds = {
        "bytes": (lambda: Text(TEXT), lambda b: I(b)),
        "bytearray": (lambda: Block(TEXT), lambda b: I(b)),
        "array": (lambda: np.frombuffer(TEXT, dtype=np.uint8).copy(), lambda b: I(b)),
        "memoryview": (lambda: memoryview(track("source", Block(TEXT)))[0:], lambda b: I(b)),
        "gzip": (lambda: Block(data.gz(TEXT)), lambda b: I(b, mlio.Compression.GZIP)),
        "mapped file": (None, lambda b: mlio.File(PATH + "/a.bin")),
        "file": (None, lambda b: mlio.File(PATH + "/a.bin", False)),
        "gzip file": (None, lambda b: mlio.File(PATH + "/a.gz")),
    }
    for kind, (mk, st) in kinds.items():
        def seek(env, m, mk=mk):
            env["stream"].seek(0)
            m["pos"] = 0
        def fill(env, m):
            b = track("filled", Block(3))
            n = env["stream"].read(b)
            p = m["pos"]
            # A stream may return less than requested, but at the end only nothing.
            pymc.check(b[:n] == TEXT[p:p + n] and (n > 0 or p == len(TEXT)), "wrong content", f"read {bytes(b[:n])} at {p}")
            m["pos"] = p + n
        def read(env, m):
            s = env["stream"].read(4)
            b = bytes(s)
            p = m["pos"]
            pymc.check(b == TEXT[p:p + len(b)] and len(b) <= 4 and (b or p == len(TEXT)), "wrong content", f"read {b} at {p}")
            m["pos"] = p + len(b)
            m["slice"] = b
            return s
        nodes = {}
        if mk: nodes["buf"] = Node([], lambda env, m, mk=mk: mk())
        nodes["store"] = Node(["buf"] if mk else [], lambda env, m, st=st: st(env.get("buf")))
        def opened(env, m):
            m["pos"] = 0
            return env["store"].open_read()
        nodes["stream"] = Node(["store"], opened)
        nodes["slice"] = Node(["stream"], read, bytes)
        nodes["view"] = Node(["slice"], lambda env, m: memoryview(env["slice"]), bytes, lambda m: m["slice"])
        nodes["array"] = Node(["slice"], lambda env, m: np.frombuffer(env["slice"], dtype=np.uint8) if m["slice"] else np.zeros(0, np.uint8), lambda o: o.tobytes(), lambda m: m["slice"])
        ops = {"fill": (["stream"], fill)}
        if "gzip" not in kind: ops["seek"] = (["stream"], seek)
        out.append(World("stream over " + kind, nodes, ops, lambda: {"pos": 0}))
        # Records of a stream.
    recs = [data.parquet(b"abc"), data.parquet(b"defghij"), data.parquet(b"")]
    blob = b"".join(recs)
    def record(by):
        def make(env, m):
            r = m[by]
            k = m["pos"][r]
            m["pos"] = m["pos"][:r] + (min(k + 1, len(recs)),) + m["pos"][r + 1:]
            m["record"] = recs[k] if k < len(recs) else None
            return next(env["it"], None) if by == "it" else env["reader"].read_record()
        return make
    def begin(env, m):
        m["reader"] = len(m["pos"])
        m["pos"] = m["pos"] + (0,)
        return mlio.ParquetRecordReader(mlio.InMemoryStore(track("source", Block(blob))).open_read())
    view = Node(["record"], lambda env, m: memoryview(env["record"]), bytes, lambda m: m["record"])
    out.append(World("records by read_record", {"reader": Node([], begin), "record": Node(["reader"], record("reader"), bytes), "view": view,
        "array": Node(["view"], lambda env, m: np.frombuffer(env["view"], dtype=np.uint8), lambda o: o.tobytes(), lambda m: m["view"])}, {}, lambda: {"pos": ()}))
    out.append(World("records by iterator", {"reader": Node([], begin), "it": Node(["reader"], lambda env, m: iter(env["reader"]), None, lambda m: m["reader"]),
        "record": Node(["it"], record("it"), bytes), "view": view}, {}, lambda: {"pos": ()}))
    return out


# ------------------------------------------------------------------- readers

class Reader(mlio.DataReader):
    """A reader implemented in Python, on top of another one."""
    def __init__(self, r):
        super().__init__()
        self.r = r

    def read_example(self): return self.r.read_example()
    def peek_example(self): return self.r.peek_example()
    def read_schema(self): return self.r.read_schema()
    def reset(self): self.r.reset()
    def num_bytes_read(self): return self.r.num_bytes_read


def reader_kinds():
    """name -> (make(), [rows of the examples by feature], sparse)"""
    D = mlio.DataReaderParams
    I = mlio.InMemoryStore
    B = lambda text: track("source", Block(text))
    def csv(text, dt): return lambda: mlio.CsvReader(D([I(B(text))], 2, num_prefetched_examples=2), mlio.CsvParams(header_row_index=None, default_data_type=dt))
    num = b"".join(b"%d,%d\n" % (k, 10 * k) for k in range(6))
    nums = lambda f: [[[[f(k)], [f(k + 1)]], [[f(10 * k)], [f(10 * (k + 1))]]] for k in (0, 2, 4)]
    txt = "a,\u00e9\nbb,x y\n,z\nd,\U0001f600\ne,f\ng,h\n".encode()
    rec = b"".join(data.protobuf({"v": data.tensor_f32([k, k + .5, -k])}) for k in range(6))
    spa = b"".join(data.protobuf({"v": data.tensor_f32([k + 1, k + 2], [k % 3, 3 + k % 2], [5])}) for k in range(6))
    img = [[[(10 * i + k, k, 255 - k) for k in range(2)] for _ in range(2)] for i in range(6)]
    def image():
        return mlio.ImageReader(D([I(data.png(x)) for x in img], 2, num_prefetched_examples=2), mlio.ImageReaderParams(image_dimensions=[3, 2, 2], to_rgb=True))
    def hwc(x): return [[list(p) for p in r] for r in x]
    return {
        "csv of floats": (csv(num, mlio.DataType.FLOAT32), nums(float), False),
        "csv of integers": (csv(num, mlio.DataType.INT64), nums(int), False),
        "csv of strings": (csv(txt, mlio.DataType.STRING), [[[["a"], ["bb"]], [["\u00e9"], ["x y"]]], [[[""], ["d"]], [["z"], ["\U0001f600"]]], [[["e"], ["g"]], [["f"], ["h"]]]], False),
        "text lines": (lambda: mlio.TextLineReader(D([I(B(b"a\nbb\n\nd\ne\nf\n"))], 2, num_prefetched_examples=2)), [[[["a"], ["bb"]]], [[[""], ["d"]]], [[["e"], ["f"]]]], False),
        "recordio": (lambda: mlio.RecordIOProtobufReader(D([I(B(rec))], 2, num_prefetched_examples=2)), [[[[k, k + .5, -k], [k + 1, k + 1.5, -k - 1]]] for k in (0, 2, 4)], False),
        "sparse recordio": (lambda: mlio.RecordIOProtobufReader(D([I(B(spa))], 2, num_prefetched_examples=2)),
                            [[([k + 1, k + 2, k + 2, k + 3], [[0, 0, 1, 1], [k % 3, 3 + k % 2, (k + 1) % 3, 3 + (k + 1) % 2]])] for k in (0, 2, 4)], True),
        "implemented in Python": (lambda: Reader(csv(num, mlio.DataType.FLOAT32)()), nums(float), False),
        "images": (image, [[[hwc(img[k]), hwc(img[k + 1])]] for k in (0, 2, 4)], False),
    }


def dense(t): return np.array(t).tolist()


def flat(x):
    while isinstance(x[0], list): x = [z for y in x for z in y]
    return x


DL = []


def dl_version():
    if not DL:
        t = mlio.DenseTensor([1], np.zeros(1))
        for v in range(1024):
            try:
                mlio._core.as_dlpack(t, v)
                DL.append(v)
                break
            except mlio.NotSupportedError: pass
    return DL[0]


class Dl:
    def __init__(self, t): self.t = t
    def __dlpack__(self, stream=None): return mlio._core.as_dlpack(self.t, dl_version())
    def __dlpack_device__(self): return (1, 0)


def reader_worlds():
    out = []
    for kind, (mk, exs, sparse) in reader_kinds().items():
        string = isinstance(flat(exs[0][0])[0], str) if not sparse else False
        nf = len(exs[0])
        f = nf - 1  # the feature looked at
        # pos: the position of each reader ever made.
        def reader(env, m, mk=mk):
            m["reader"] = len(m["pos"])
            m["pos"] = m["pos"] + (0,)
            return mk()
        def move(m, r, k): m["pos"] = m["pos"][:r] + (k,) + m["pos"][r + 1:]
        def reset(env, m, move=move):
            env["reader"].reset()
            move(m, m["reader"], 0)
        def skip(env, m, exs=exs, move=move):
            k = m["pos"][m["reader"]]
            e = env["reader"].read_example()
            pymc.check((e is None) == (k >= len(exs)), "the end is not reported alike", str(k))
            move(m, m["reader"], min(k + 1, len(exs)))
        def example(get, by="reader", move=move):
            def make(env, m, exs=exs):
                k = m["pos"][m[by]]
                m["ex"] = exs[k] if k < len(exs) else None
                move(m, m[by], min(k + 1, len(exs)))
                return get(env)
            return make
        def whole(e): return [dense(t) for t in e]
        def sp(t): return (np.array(t.data).tolist(), [np.array(t.indices(d)).tolist() for d in range(len(t.shape))])
        ex_view = (lambda e: [sp(t) for t in (e[i] for i in range(len(e)))]) if sparse else (lambda e: [dense(e[i]) for i in range(len(e))])
        R = Node([], reader)
        EX = Node(["reader"], example(lambda env: env["reader"].read_example()), ex_view)
        T = Node(["ex"], lambda env, m, f=f: env["ex"][f], sp if sparse else dense, lambda m, f=f: m["ex"][f])
        base = {"reader": R, "ex": EX, "t": T}
        ops = {"reset": (["reader"], reset), "skip": (["reader"], skip)}
        init = lambda: {"pos": ()}
        if sparse:
            out.append(World(kind + ": data and indices", {**base,
                "view": Node(["t"], lambda env, m: memoryview(env["t"].data), lambda o: o.tolist(), lambda m: m["t"][0]),
                "rows": Node(["t"], lambda env, m: env["t"].indices(0), lambda o: np.array(o).tolist(), lambda m: m["t"][1][0]),
                "cols": Node(["t"], lambda env, m: np.array(env["t"].indices(1), copy=False), lambda o: o.tolist(), lambda m: m["t"][1][1])}, ops, init))
        else:
            out.append(World(kind + ": arrays", {**base,
                "arr": Node(["t"], lambda env, m: as_numpy(env["t"]), lambda o: o.tolist(), lambda m: m["t"]),
                "copy": Node(["t"], lambda env, m: to_numpy(env["t"]), lambda o: o.tolist(), lambda m: m["t"])}, ops, init))
            out.append(World(kind + ": buffers", {**base,
                "data": Node(["t"], lambda env, m: env["t"].data, lambda o: np.array(o, copy=False).tolist(), lambda m: flat(m["t"])),
                "view": Node(["data"], lambda env, m: np.array(env["data"], copy=False) if memoryview(env["data"]).format == "O" else memoryview(env["data"]), lambda o: o.tolist(), lambda m: m["data"])}, ops, init))
            if not string:
                out.append(World(kind + ": dlpack", {**base,
                    "capsule": Node(["t"], lambda env, m: mlio._core.as_dlpack(env["t"], dl_version())),
                    "arr": Node(["t"], lambda env, m: np.from_dlpack(Dl(env["t"])), lambda o: o.tolist(), lambda m: m["t"])}, ops, init))
        attrs = lambda s: [(a.name, a.data_type.name, a.sparse) for a in s.attributes]
        e0 = mk()
        sch = attrs(e0.read_schema())
        del e0
        pymc.check(len(sch) == nf, "wrong schema", str(sch))
        out.append(World(kind + ": schema", {"reader": R, "ex": EX,
            "schema": Node(["ex"], lambda env, m: env["ex"].schema, attrs, lambda m, s=sch: s),
            "attrs": Node(["schema"], lambda env, m: env["schema"].attributes, lambda o: [(a.name, a.data_type.name, a.sparse) for a in o], lambda m, s=sch: s),
            "attr": Node(["attrs"], lambda env, m, f=f: env["attrs"][f], lambda a: (a.name, a.data_type.name, a.sparse), lambda m, s=sch, f=f: s[f])}, ops, init))
        def nxt(env, m):
            i = m["fi"]
            m["fi"] = i + 1
            m["t"] = m["items"][i] if i < len(m["items"]) else None
            return next(env["items"], None)
        def items(env, m):
            m["fi"] = 0
            m["items"] = m["ex"]
            return iter(env["ex"])
        out.append(World(kind + ": features", {"reader": R, "ex": EX, "items": Node(["ex"], items), "t": Node(["items"], nxt, sp if sparse else dense)}, ops, lambda: {"pos": (), "fi": 0}))
        out.append(World(kind + ": iterator", {"reader": R, "it": Node(["reader"], lambda env, m: iter(env["reader"]), None, lambda m: m["reader"]),
            "ex": Node(["it"], example(lambda env: next(env["it"], None), "it"), ex_view), "t": T},
            ops, init))
    return out


# ------------------------------------------------------------------- tensors

def tensor_worlds():
    out = []
    for copy in (False, True):
        def write(env, m, copy=copy):
            m["v"] += 1
            env["a"][0, 1] = m["v"]
            for n in ("a",) + (() if copy else ("t", "view", "arr")):
                if n in m and (n == "a" or m[n][2] == m["a"][2]):
                    m[n][0][1] = float(m["v"])
        def make_a(env, m):
            m["gen"] += 1
            m["a"] = [[0.0, 1.0, 2.0], [3.0, 4.0, 5.0], m["gen"]]
            return np.arange(6, dtype=np.float64).reshape(2, 3)
        def shared(src):
            def f(m):
                x = m[src]
                return [list(x[0]), list(x[1]), x[2]]
            return f
        see = lambda o: np.array(o).tolist()
        class N(Node):
            def __init__(self, *a): super().__init__(*a)
        nodes = {
            "a": Node([], make_a, None),
            "t": Node(["a"], lambda env, m, copy=copy: mlio.DenseTensor([2, 3], env["a"], copy=copy), None, shared("a")),
            "view": Node(["t"], lambda env, m: memoryview(env["t"]), None, shared("t")),
            "arr": Node(["t"], lambda env, m: as_numpy(env["t"]), None, shared("t")),
        }
        for n in nodes:
            # The generation is no part of what is seen.
            nodes[n].view = lambda o, see=see: see(o)
        w = World(f"tensor over an array, copy={copy}", nodes, {"write": (["a"], write)}, lambda: {"gen": 0, "v": 100})
        w.strip = True
        out.append(w)
        def make_c(env, m, copy=copy):
            return mlio.CooTensor([2, 3], track("data", np.array([1.5, 2.5])), [track("rows", np.array([0, 1])), track("columns", np.array([2, 0]))], copy=copy)
        out.append(World(f"sparse tensor over arrays, copy={copy}", {
            "t": Node([], make_c, lambda t: (np.array(t.data).tolist(), np.array(t.indices(0)).tolist(), np.array(t.indices(1)).tolist()), lambda m: ([1.5, 2.5], [0, 1], [2, 0])),
            "data": Node(["t"], lambda env, m: env["t"].data, lambda o: np.array(o).tolist(), lambda m: [1.5, 2.5]),
            "idx": Node(["t"], lambda env, m: env["t"].indices(1), lambda o: np.array(o).tolist(), lambda m: [2, 0]),
            "view": Node(["idx"], lambda env, m: memoryview(env["idx"]), lambda o: o.tolist(), lambda m: [2, 0]),
            "arr": Node(["data"], lambda env, m: np.array(env["data"], copy=False), lambda o: o.tolist(), lambda m: [1.5, 2.5]),
        }))
    def ex(env, m):
        return mlio.Example(env["schema"], [env["t"]])
    out.append(World("example of own tensors", {
        "t": Node([], lambda env, m: mlio.DenseTensor([2, 1], track("source", np.array([7, 8], dtype=np.int32))), dense, lambda m: [[7], [8]]),
        "schema": Node([], lambda env, m: mlio.Schema([mlio.Attribute("x", mlio.DataType.INT32, [2, 1])]), lambda s: [a.name for a in s.attributes], lambda m: ["x"]),
        "ex": Node(["t", "schema"], ex, lambda e: [dense(x) for x in e] + [[a.name for a in e.schema.attributes]], lambda m: [[[7], [8]], ["x"]]),
        "s2": Node(["ex"], lambda env, m: env["ex"].schema, lambda s: [a.name for a in s.attributes], lambda m: ["x"]),
        "t2": Node(["ex"], lambda env, m: env["ex"]["x"], dense, lambda m: [[7], [8]]),
        "it": Node(["ex"], lambda env, m: iter(env["ex"])),
    }, {"next": (["it"], lambda env, m: next(env["it"], None) and None)}))
    return out


def all_worlds(): return stream_worlds() + reader_worlds() + tensor_worlds()
