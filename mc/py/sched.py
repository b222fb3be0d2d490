"""C26: Python code called by and blocked in the library.

The interpreter hands the GIL over only where it is released (the switch
interval is longer than any run), so that the schedule of an execution is fixed
by its choices: the message in whose handler a background thread pauses, what
main does meanwhile, and when the handler goes on."""
import gc, logging, os, sys, tempfile, threading, time, weakref
import numpy as np
import mlio
from mlio.integ.numpy import as_numpy, to_tensor
import pymc, data

D, I, T = mlio.DataReaderParams, mlio.InMemoryStore, mlio.DataType
core = mlio._core
E = mlio.BadExampleHandling
LIMIT = 10


def setup():
    sys.setswitchinterval(1000)
    gc.disable()


class Handler:
    """A log message handler that pauses at one of its calls."""

    def __init__(self, at, then):
        self.at, self.then, self.n, self.wrong = at, then, 0, None
        self.parked, self.go, self.done = threading.Event(), threading.Event(), threading.Event()
        self.lock = threading.Lock()

    def __call__(self, lvl, msg):
        with self.lock:
            k = self.n
            self.n += 1
        if not isinstance(lvl, mlio.LogLevel) or not isinstance(msg, str) or not msg: self.wrong = f"{lvl!r} {msg!r}"
        if k == self.at:
            self.parked.set()
            self.go.wait(LIMIT)
        try: self.then(k)
        finally:
            if k == self.at: self.done.set()


BAD = {"csv": b"x", "text csv": b"1,2"}


def rows_of(n, bad): return [k for k in range(n) if k not in bad]


def csv(n, bad, **kw):
    text = b"".join(b"x\n" if k in bad else b"%d\n" % k for k in range(n))
    return mlio.CsvReader(D([I(text)], 1, bad_example_handling=E.SKIP_WARN, warn_bad_instances=True, **kw),
                          mlio.CsvParams(header_row_index=None, default_data_type=T.INT32))


def strings(n, bad, **kw):
    text = b"".join(b"1,2\n" if k in bad else b"%d\n" % k for k in range(n))
    return mlio.CsvReader(D([I(text)], 1, bad_example_handling=E.SKIP_WARN, warn_bad_instances=True, **kw),
                          mlio.CsvParams(header_row_index=None, default_data_type=T.STRING))


def recordio(n, bad, **kw):
    rec = b"".join(data.recordio(b"\xff\xff") if k in bad else data.protobuf({"v": data.tensor_f32([k])}) for k in range(n))
    return mlio.RecordIOProtobufReader(D([I(rec)], 1, bad_example_handling=E.SKIP_WARN, warn_bad_instances=True, **kw))


def images(n, bad, **kw):
    st = [I(b"no image") if k in bad else I(data.png([[(k, k, k)] * 2] * 2)) for k in range(n)]
    return mlio.ImageReader(D(st, 1, bad_example_handling=E.SKIP_WARN, warn_bad_instances=True, **kw), mlio.ImageReaderParams(image_dimensions=[3, 2, 2]))


KINDS = {"csv": csv, "strings": strings, "recordio": recordio, "images": images}
N = 12
BADS = [{2}, {2, 3}, {3, 5, 8}, set(range(2, 12))]


def value(e): return None if e is None else int(float(np.array(e[0]).ravel()[0]))


def quiet(lvl, msg): pass


class Run:
    def __init__(self, kind, bad, handler, par):
        self.kind, self.bad, self.h = kind, bad, handler
        self.good = rows_of(N, bad)
        self.r = KINDS[kind](N, bad, num_prefetched_examples=16, num_parallel_reads=par)
        self.k = 0

    def expect(self, e, adv, hist):
        want = self.good[self.k] if self.k < len(self.good) else None
        got = value(e)
        pymc.check(got == want, "wrong example", lambda: f"{got} instead of {want} after {hist}")
        self.k = min(self.k + adv, len(self.good))


def op_reset(x, h):
    x.r.reset()
    x.k = 0


def op_drop(x, h):
    x.r = None
    x.r = KINDS[x.kind](N, x.bad, num_prefetched_examples=16)
    x.k = 0


def op_read(x, h): x.expect(x.r.read_example(), 1, h)
def op_peek(x, h): x.expect(x.r.peek_example(), 0, h)


def op_rest(x, h):
    for e in x.r: x.expect(e, 1, h)
    x.expect(None, 0, h)


def op_schema(x, h): pymc.check(len(x.r.read_schema().attributes) == 1, "wrong schema", str(h))
def op_bytes(x, h): pymc.check(x.r.num_bytes_read >= 0, "wrong number of bytes", str(h))
def op_clear(x, h): core.clear_log_message_handler()


def op_replace(x, h):
    class Other(Handler): pass
    o = Other(-1, lambda k: None)
    core.set_log_message_handler(o.__call__)


def op_level(x, h):
    core.set_log_level(mlio.LogLevel.OFF)
    core.set_log_level(mlio.LogLevel.DEBUG)
    core.set_log_level(mlio.LogLevel.WARNING)


def op_other(x, h):
    r = KINDS[x.kind](N, x.bad, num_prefetched_examples=16)
    got = [value(e) for e in r]
    pymc.check(got == x.good, "wrong examples of another reader", lambda: f"{got} after {h}")


def op_analyze(x, h):
    import mlio.contrib.insights as ins
    if x.kind != "strings": return
    if x.k >= len(x.good): return
    a = ins.analyze_dataset(x.r, set(), set())
    pymc.check(a.columns[0].rows_seen == len(x.good) - x.k, "wrong number of rows", str(h))
    x.k = len(x.good)


def op_python(x, h):
    gc.collect()
    t = to_tensor(np.arange(3))
    pymc.check(as_numpy(t).tolist() == [0, 1, 2], "wrong tensor", str(h))


# name: (operation, whether it may have to wait for a background thread)
OPS = {"read": (op_read, True), "reset": (op_reset, True), "drop": (op_drop, True), "peek": (op_peek, True), "rest": (op_rest, True),
       "analyze": (op_analyze, True), "schema": (op_schema, False), "bytes": (op_bytes, False), "clear handler": (op_clear, False),
       "replace handler": (op_replace, False), "level": (op_level, False), "other reader": (op_other, False), "python": (op_python, False)}
NAMES = list(OPS)


def th_nothing(x, k): pass


def th_raise(x, k): raise RuntimeError("a handler that fails")


def th_use(x, k):
    """A handler may use the library itself, but no reader: it runs in a thread
    of the pool on which all readers depend."""
    rs = [bytes(r) for r in mlio.ParquetRecordReader(I(data.parquet(b"abc")).open_read())]
    b = bytearray(3)
    if rs != [data.parquet(b"abc")] or I(b"xyz").open_read().read(b) != 3 or b != b"xyz" or as_numpy(to_tensor(np.arange(3))).tolist() != [0, 1, 2]:
        x.h.wrong = "wrong values in a handler"


def th_clear(x, k): core.clear_log_message_handler()


def th_replace(x, k): core.set_log_message_handler(quiet)


THEN = [th_nothing, th_raise, th_use, th_clear, th_replace]


def one(c, kind, bad, at, then, first, later, after, par):
    """`first` runs while a handler is paused, which goes on before or after it."""
    cell = []
    h = Handler(at, lambda k: then(cell[0], k))
    hist = [kind, str(sorted(bad)), f"pause at message {at}", then.__name__[3:], first + (" during the pause" if after else ""), later]
    old = core.set_log_message_handler(h.__call__)
    del old
    x = Run(kind, bad, h, par)
    cell.append(x)
    try:
        op_read(x, hist)
        arrived = h.parked.wait(.2 if at > 0 and then in (th_clear, th_replace) else LIMIT)
        if not arrived:
            # An earlier message may have reached another handler.
            pymc.check(at >= len(bad) or at > 0 and then in (th_clear, th_replace), "no message about a bad instance", str(hist))
            c.pruned()
        if not after: h.go.set()
        OPS[first][0](x, hist)
        c.transition()
        h.go.set()
        OPS[later][0](x, hist)
        c.transition()
        if arrived: pymc.check(h.done.wait(LIMIT), "a handler does not go on", str(hist))
        op_rest(x, hist)
        op_reset(x, hist)
        op_rest(x, hist)
        pymc.check(h.wrong is None, "wrong message", lambda: f"{h.wrong} after {hist}")
        pymc.check(then in (th_clear, th_replace) or first in ("clear handler", "replace handler") or later in ("clear handler", "replace handler") or h.n >= len(bad),
                   "messages are lost", lambda: f"{h.n} of {len(bad)} after {hist}")
    finally:
        h.go.set()
        core.clear_log_message_handler()
    c.trace()
    if arrived: c.nontrivial()
    c.state((kind, at, then.__name__, first, later, after))
    c.outcome((kind, first, later, min(h.n, 3)))
    if first == "reset" and later == "read" and then is th_nothing: c.sample(", ".join(hist))


def callbacks(c, i, th):
    setup()
    kind = list(KINDS)[i % 4]
    then = THEN[i // 4 % 5]
    bad = BADS[i // 20 % len(BADS)]
    par = [0, 1][i // 20 // len(BADS) % 2]
    pauses = [0, 1, len(bad) - 1] if th else [0, 1]
    at = sorted({p for p in pauses if p < len(bad)})
    at = at[c.choose(len(at))] if len(at) > 1 else at[0]
    first = NAMES[c.choose(len(NAMES))]
    later = NAMES[c.choose(len(NAMES))]
    after = not OPS[first][1] and c.choose(2) == 1
    one(c, kind, bad, at, then, first, later, after, par)


# --------------------------------------------------------------------- pipes

def make_fifo(d, n):
    p = os.path.join(d, f"pipe_{n}")
    os.mkfifo(p)
    return p


def pipe_ops():
    lines = b"1\n2\n3\n"
    rec = data.parquet(b"abc")
    par = mlio.CsvParams(header_row_index=None, default_data_type=T.INT32)
    store = lambda d: mlio.SageMakerPipe(os.path.join(d, "pipe"), __import__("datetime").timedelta(seconds=LIMIT), 0)
    def reader(d, **kw): return mlio.CsvReader(D([store(d)], 1, **kw), par)
    def fill(d):
        s, out = store(d).open_read(), b""
        b = bytearray(4)
        while True:
            n = s.read(b)
            if not n: return out
            out += bytes(b[:n])
    def chunks(d):
        s, out = store(d).open_read(), b""
        while True:
            x = bytes(s.read(4))
            if not x: return out
            out += x
    def analyze(d):
        import mlio.contrib.insights as ins
        r = mlio.CsvReader(D([store(d)], 1), mlio.CsvParams(header_row_index=None, default_data_type=T.STRING))
        return ins.analyze_dataset(r, set(), set()).columns[0].rows_seen
    def peek(d):
        r = reader(d)
        return [value(r.peek_example())] + [value(e) for e in r]
    def schema(d):
        r = reader(d)
        return [len(r.read_schema().attributes)] + [value(e) for e in r]
    def whole(d):
        r, out = reader(d, num_prefetched_examples=2), []
        while True:
            e = r.read_example()
            if e is None: return out
            out.append(value(e))
    def drop(d):
        r = reader(d, num_prefetched_examples=8)
        x = value(r.read_example())
        del r
        return x
    def records(d): return [bytes(x) for x in mlio.ParquetRecordReader(store(d).open_read())]
    def record(d):
        r = mlio.ParquetRecordReader(store(d).open_read())
        return [bytes(r.peek_record()), bytes(r.read_record()), r.read_record()]
    return [("fill", fill, lines, lines), ("read slices", chunks, lines, lines), ("analyze", analyze, lines, 3), ("peek", peek, lines, [1, 1, 2, 3]),
            ("schema", schema, lines, [1, 1, 2, 3]), ("read", whole, lines, [1, 2, 3]), ("iterate", lambda d: [value(e) for e in reader(d)], lines, [1, 2, 3]),
            ("drop", drop, lines, 1), ("records", records, rec, [rec]), ("record", record, rec, [rec, rec, None])]


def pipes(c, i):
    """The other end of a pipe is served by another thread of the program."""
    setup()
    name, f, blob, want = pipe_ops()[i]
    cuts = sorted({c.choose(len(blob) + 1), c.choose(len(blob) + 1)}) if len(blob) < 10 else sorted({c.choose(len(blob) + 1)})
    early = c.choose(2)  # whether the writer opens the pipe before main does
    d = tempfile.mkdtemp(prefix="mcpy-")
    try:
        p = make_fifo(d, 0)
        go, ready, failed = threading.Event(), threading.Event(), []
        def write():
            ready.set()
            go.wait(LIMIT)
            try:
                with open(p, "wb", buffering=0) as o:
                    last = 0
                    for k in cuts + [len(blob)]:
                        o.write(blob[last:k])
                        last = k
                        time.sleep(0)
            except BrokenPipeError: pass
            except OSError as e: failed.append(str(e))
        t = threading.Thread(target=write)
        t.start()
        ready.wait(LIMIT)
        go.set()
        if early: time.sleep(.001)
        got = f(d)
        pymc.check(got == want, "wrong data", lambda: f"{name}, cuts {cuts}: {got} instead of {want}")
        t.join(LIMIT)
        pymc.check(not t.is_alive() and not failed, "the writer does not finish", lambda: f"{name}, cuts {cuts}, {failed}")
    finally:
        for x in os.listdir(d): os.unlink(os.path.join(d, x))
        os.rmdir(d)
    c.trace(); c.transition(); c.nontrivial()
    c.state((i, tuple(cuts), early))
    c.outcome((name, len(cuts)))


# ---------------------------------------------------------------- predicates

def predicates(c, i):
    """list_files() with all predicates on a tree of files."""
    setup()
    d = tempfile.mkdtemp(prefix="mcpy-")
    files = ["a", "b", "s/c", "s/d"]
    try:
        os.mkdir(os.path.join(d, "s"))
        for f in files: open(os.path.join(d, f), "w").write(f)
        mask = i % 16
        raising = i // 16 % 5  # the call that raises
        seen = []
        def pred(p):
            k = len(seen)
            seen.append(os.path.relpath(p, d))
            if k + 1 == raising: raise KeyError("mine")
            x = mlio.list_files([d], memory_map=False)  # may call the library
            pymc.check(len(x) == 4, "wrong files", str(x))
            return bool(mask >> files.index(seen[-1]) & 1)
        try:
            got = [os.path.relpath(s.id, d) for s in mlio.list_files([d], predicate=pred)]
            pymc.check(raising == 0, "an exception of a predicate is lost", f"{seen}")
            want = [f for k, f in enumerate(files) if mask >> k & 1]
            pymc.check(got == want, "wrong files", lambda: f"{got} instead of {want}")
            pymc.check(sorted(seen) == files, "wrong calls of a predicate", str(seen))
        except KeyError as e:
            pymc.check(raising > 0 and e.args == ("mine",) and len(seen) == raising, "wrong exception", repr(e))
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    c.trace(); c.transition(); c.nontrivial()
    c.state(i)
    c.outcome((mask, raising))


LEVELS = [mlio.LogLevel.OFF, mlio.LogLevel.WARNING, mlio.LogLevel.INFO, mlio.LogLevel.DEBUG]


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, r): self.got.append(r.levelno)


def levels(c, i, depth):
    """The levels of the library and of Python's logger, in all orders."""
    # A store that is opened (info), a byte order mark (debug), and a bad row
    # (warning, one for the row and one for the example).
    def events():
        text = b"\xef\xbb\xbf1\nx\n2\n"
        r = mlio.CsvReader(D([I(text)], 1, bad_example_handling=E.SKIP_WARN, warn_bad_instances=True), mlio.CsvParams(header_row_index=None, default_data_type=T.INT32))
        pymc.check([value(e) for e in r] == [1, 2], "wrong examples", "")
    rank = {mlio.LogLevel.WARNING: 2, mlio.LogLevel.INFO: 1, mlio.LogLevel.DEBUG: 1}
    to_python = {mlio.LogLevel.WARNING: logging.WARNING, mlio.LogLevel.INFO: logging.INFO, mlio.LogLevel.DEBUG: logging.DEBUG}
    log = logging.getLogger("mlio")
    own, rec = [], Records()
    log.addHandler(rec)
    propagate, log.propagate = log.propagate, False
    try:
        level, python, handler = mlio.LogLevel.WARNING, logging.WARNING, "default"
        core.set_log_message_handler(mlio._log_message)
        mlio.set_log_level(level)
        hist = []
        for d in range(depth):
            k = i % 11 if d == 0 else c.choose(11)
            if k < 4:
                level = LEVELS[k]
                python = to_python.get(level, logging.NOTSET)
                mlio.set_log_level(level)
            elif k < 8:
                level = LEVELS[k - 4]
                core.set_log_level(level)
            else:
                handler = ["default", "own", "none"][k - 8]
                if handler == "default": core.set_log_message_handler(mlio._log_message)
                elif handler == "own": core.set_log_message_handler(lambda l, m: own.append(l))
                else: core.clear_log_message_handler()
            hist.append(k)
        own.clear()
        rec.got.clear()
        events()
        on = {x: n for x, n in rank.items() if level != mlio.LogLevel.OFF and LEVELS.index(x) <= LEVELS.index(level)}
        # Python's root logger has the level WARNING.
        least = python or logging.getLogger().getEffectiveLevel()
        py = {to_python[x]: n for x, n in on.items() if to_python[x] >= least}
        count = lambda l: {x: l.count(x) if x in (mlio.LogLevel.WARNING, logging.WARNING) else 1 for x in l}
        c.transition(depth)
        pymc.check(count(own) == (on if handler == "own" else {}), "wrong messages", lambda: f"{hist}: {own} instead of {on}")
        pymc.check(count(rec.got) == (py if handler == "default" else {}), "wrong records", lambda: f"{hist}: {rec.got} instead of {py}")
        c.outcome((str(level), handler, python))
        c.state(tuple(hist))
        c.trace()
        if on: c.nontrivial()
    finally:
        log.removeHandler(rec)
        log.propagate = propagate
        core.set_log_message_handler(mlio._log_message)
        mlio.set_log_level(mlio.LogLevel.WARNING)


def suites(tier, S):
    th = tier == "thorough"
    n = 4 * 5 * len(BADS) * (2 if th else 1)
    ops = pipe_ops()
    return [S("C26/callbacks", "all schedules of a handler that pauses, operations of the main thread and what the handler does", n,
              lambda c, i: callbacks(c, i, th), lambda i: f"{list(KINDS)[i % 4]}, {THEN[i // 4 % 5].__name__}, bad {sorted(BADS[i // 20 % len(BADS)])}"),
            S("C26/pipes", "all ways another thread feeds a pipe while the library reads it", len(ops), pipes, lambda i: ops[i][0]),
            S("C26/levels", "all sequences of setting levels and handlers of log messages", 11, lambda c, i: levels(c, i, 4 if th else 3), bound=4),
            S("C26/predicates", "all predicates and points of failure", 16 * 5, predicates)]
