"""Explorer for the Python package: exhaustive enumeration of the cases of a
suite and of all sequences of choices within a case, in worker processes that
may crash or hang. Same command line and result file as the C++ harnesses."""
import faulthandler, json, mmap, os, pickle, re, signal, struct, sys, tempfile, shutil, time, traceback

MAXP = 4000
HANG = 45


class Fail(Exception):
    def __init__(self, sig, msg=""):
        super().__init__(sig)
        self.sig, self.msg = sig, msg


def check(cond, sig, msg=""):
    if not cond:
        raise Fail(sig, msg() if callable(msg) else msg)


class Suite:
    def __init__(self, name, what, ncases, run, describe=str, block=1, bound=0):
        self.name, self.what, self.ncases, self.run, self.describe, self.block, self.bound = name, what, ncases, run, describe, block, bound


class Stats:
    def __init__(self):
        self.n = dict.fromkeys(("executions", "transitions", "traces", "nontrivial", "choice_points", "pruned", "max_depth"), 0)
        self.outcomes, self.states, self.samples = set(), set(), []


class Slot:
    """Shared with the parent: progress, where a worker is, its choices."""
    SIZE = 1 << 16

    def __init__(self):
        self.m = mmap.mmap(-1, Slot.SIZE)

    def put(self, progress, suite, case, end, busy, failed=0):
        self.m[0:32] = struct.pack("<QIIIIII", progress, suite, case, end, busy, failed, 0)

    def get(self):
        return struct.unpack("<QIIIIII", self.m[0:32])[:6]

    def path(self, p):
        p = p[:MAXP]
        self.m[32:34 + 2 * len(p)] = struct.pack(f"<H{len(p)}H", len(p), *p)

    def get_path(self):
        n = struct.unpack("<H", self.m[32:34])[0]
        return list(struct.unpack(f"<{n}H", self.m[34:34 + 2 * n]))

    def fail(self, sig, msg):
        b = pickle.dumps((sig[:400], msg[:6000]))
        self.m[16384:16388] = struct.pack("<I", len(b))
        self.m[16388:16388 + len(b)] = b

    def get_fail(self):
        n = struct.unpack("<I", self.m[16384:16388])[0]
        return pickle.loads(self.m[16388:16388 + n])


class Ctx:
    """One execution: a sequence of choices."""

    def __init__(self, prefix, slot, stats):
        self.prefix, self.path, self.fan, self.slot, self.stats = prefix, [], [], slot, stats

    def choose(self, n):
        i = len(self.path)
        v = self.prefix[i] if i < len(self.prefix) else 0
        if v >= n:
            raise Fail("nondeterminism", f"choice {i}: {v} of {n}")
        self.path.append(v)
        self.fan.append(n)
        self.stats.n["choice_points"] += 1
        if self.slot:
            self.slot.path(self.path)
        return v

    def transition(self, n=1): self.stats.n["transitions"] += n
    def trace(self, n=1): self.stats.n["traces"] += n
    def nontrivial(self): self.stats.n["nontrivial"] += 1
    def pruned(self): self.stats.n["pruned"] += 1
    def state(self, s):
        if len(self.stats.states) < 1000000: self.stats.states.add(hash(s))
    def outcome(self, s):
        if len(self.stats.outcomes) < 100000: self.stats.outcomes.add(hash(s))
    def sample(self, s):
        if len(self.stats.samples) < 3: self.stats.samples.append(s)


def run_case(suite, case, slot, stats, tick, only=None):
    prefix = list(only or [])
    while True:
        c = Ctx(prefix, slot, stats)
        if slot: slot.path([])
        stats.n["executions"] += 1
        suite.run(c, case)
        stats.n["max_depth"] = max(stats.n["max_depth"], len(c.path))
        tick()
        if only is not None: return
        p, f = c.path, c.fan
        while p and p[-1] + 1 >= f[len(p) - 1]: p = p[:-1]
        if not p: return
        prefix = p[:-1] + [p[-1] + 1]


def describe_exc(e):
    if isinstance(e, Fail): return e.sig, e.msg
    return f"exception {type(e).__name__}", "".join(traceback.format_exception(e))[-3000:]


def main(harness, make_suites):
    a = sys.argv[1:]
    opt, replay = {}, None
    while a:
        k = a.pop(0)
        if k == "--replay":
            replay = (a.pop(0), int(a.pop(0)), [int(x) for x in (a.pop(0) if a else "").split(",") if x != ""])
        else: opt[k[2:]] = a.pop(0)
    suites = make_suites(opt.get("tier", "quick"))
    if replay:
        s = next(x for x in suites if x.name == replay[0])
        try:
            if "history" in opt:
                for name, b, e in json.load(open(opt["history"])):
                    for c in range(b, e): run_case(next(x for x in suites if x.name == name), c, None, Stats(), lambda: None)
            else: run_case(s, replay[1], None, Stats(), lambda: None, replay[2])
        except Exception as e:
            sig, msg = describe_exc(e)
            print(f"{s.name} case {replay[1]} ({s.describe(replay[1])}): {sig}\n{msg}")
            os._exit(1)
        print("no failure")
        os._exit(0)
    prefix, cap, t0 = opt.get("prefix", ""), float(opt.get("cap", 600)), time.time()
    only = opt.get("suite")
    suites = [s for s in suites if s.name.startswith(prefix) and (not only or s.name == only)]
    known = []
    if "known" in opt:
        for l in open(opt["known"]):
            x = l.rstrip("\n").split("\t")
            known.append((x[0], x[1] if len(x) > 1 else ""))
    units = [(i, k, min(k + s.block, s.ncases)) for i, s in enumerate(suites) for k in range(0, s.ncases, s.block)]
    work = tempfile.mkdtemp(prefix="pymc-")
    counter = mmap.mmap(-1, 16)
    lockf = os.path.join(work, "lock")
    open(lockf, "w").close()
    import fcntl

    def next_unit():
        with open(lockf) as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            n, stop = struct.unpack("<QQ", counter[0:16])
            if stop or n >= len(units): return None
            counter[0:8] = struct.pack("<Q", n + 1)
            return units[n]

    nworkers = min(8, os.cpu_count() or 8, max(1, len(units)))
    slots = [Slot() for _ in range(nworkers)]

    def worker(w, gen, resume):
        err = os.open(os.path.join(work, f"err-{w}-{gen}"), os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
        os.dup2(err, 2); os.dup2(err, 1)
        faulthandler.enable()
        st, slot, progress = Stats(), slots[w], 0
        code = 0
        unit = resume
        hist = open(os.path.join(work, f"hist-{w}-{gen}"), "w")
        si = case = end = 0
        try:
            while True:
                if unit is None: unit = next_unit()
                if unit is None: break
                si, case, end = unit
                unit = None
                hist.write(f"{si} {case} {end}\n"); hist.flush()
                while case < end:
                    def tick():
                        nonlocal progress
                        progress += 1
                        slot.put(progress, si, case, end, 1)
                    slot.put(progress + 1, si, case, end, 1)
                    run_case(suites[si], case, slot, st, tick)
                    case += 1
                slot.put(progress + 1, si, case, end, 0)
        except BaseException as e:
            sig, msg = describe_exc(e)
            slot.fail(sig, msg)
            slot.put(progress + 1, si, case, end, 1, 1)
            code = 77
        with open(os.path.join(work, f"stats-{w}-{gen}"), "wb") as f: pickle.dump((st.n, st.outcomes, st.states, st.samples), f)
        os._exit(code)

    def died(w, status, hang):
        prog, si, case, end, busy, failed = slots[w].get()
        try: text = open(os.path.join(work, f"err-{w}-{gens[w]}"), errors="replace").read()
        except OSError: text = ""
        if hang: sig, msg = "hangs", text[-3000:]
        elif failed: sig, msg = slots[w].get_fail()
        else:
            m = re.search(r"ERROR: AddressSanitizer: (\S+)", text)
            sig = f"memory error: {m.group(1)}" if m else f"crash, status {status}"
            msg = text[text.find("ERROR: AddressSanitizer"):][:4000] if m else text[-3000:]
        return si, case, end, sig, msg

    def again(run, secs, late):
        """Runs in a fresh process; tells whether that fails."""
        pid = os.fork()
        if pid == 0:
            d = os.open(os.devnull, os.O_WRONLY)
            os.dup2(d, 2); os.dup2(d, 1)
            try: run()
            except BaseException as e:
                os._exit(79 if isinstance(e, Fail) and e.sig == "nondeterminism" else 77)
            os._exit(0)
        end = time.time() + secs
        while time.time() < end:
            r, st = os.waitpid(pid, os.WNOHANG)
            if r: return not (os.WIFEXITED(st) and os.WEXITSTATUS(st) in (0, 79))
            time.sleep(.01)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return late

    def confirm(si, case, path):
        return again(lambda: run_case(suites[si], case, None, Stats(), lambda: None, path), HANG + 15, True)

    def run_history(h):
        for si, case, end in h:
            for c in range(case, end): run_case(suites[si], c, None, Stats(), lambda: None)

    def histories(w, case):
        """What the process ran before the failure: its last unit, all units."""
        try: h = [[int(x) for x in l.split()] for l in open(os.path.join(work, f"hist-{w}-{gens[w]}"))]
        except OSError: h = []
        if not h: return []
        h[-1][2] = case + 1
        return [h[-1:], h]

    pids, gens = [0] * nworkers, [0] * nworkers
    last, since = [None] * nworkers, [0.0] * nworkers

    def start(w, resume=None):
        gens[w] += 1
        slots[w].put(0, 0, 0, 0, 0)
        sys.stdout.flush()
        p = os.fork()
        if p == 0: worker(w, gens[w], resume)
        pids[w], last[w], since[w] = p, None, time.time()

    failures, seen, capped, stopped, tried = [], {}, False, False, 0
    for w in range(nworkers): start(w)
    while any(pids):
        time.sleep(.005)
        for w in range(nworkers):
            if not pids[w]: continue
            r, st = os.waitpid(pids[w], os.WNOHANG)
            hang = False
            if not r:
                g = slots[w].get()
                if g[0] != last[w]: last[w], since[w] = g[0], time.time()
                elif time.time() - since[w] > HANG:
                    os.kill(pids[w], signal.SIGKILL)
                    os.waitpid(pids[w], 0)
                    hang, st = True, 9
                    if not g[4]:
                        pids[w] = 0
                        continue
                elif stopped and time.time() - t0 > cap + 60:
                    os.kill(pids[w], signal.SIGKILL)
                    os.waitpid(pids[w], 0)
                    pids[w] = 0
                    continue
                if not hang: continue
            pids[w] = 0
            if not hang and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0: continue
            si, case, end, sig, msg = died(w, st, hang)
            path = slots[w].get_path()
            d = suites[si].describe(case)
            isknown = any(sig.startswith(k) and c in d for k, c in known)
            key = (si, sig)
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= (1 if isknown else 2):
                # Threads of the library may run in another order the next time.
                ok = any(confirm(si, case, path) for _ in range(1 if hang else 3))
                hist = []
                if not ok and not hang and not isknown and tried < 2:
                    tried += 1
                    for h in histories(w, case):
                        if not ok and again(lambda: run_history(h), max(30, min(200, (cap + 60 - (time.time() - t0)) / 2)), False):
                            ok, hist = True, [[suites[k].name, b, e] for k, b, e in h]
                failures.append(dict(suite=suites[si].name, case=case, sig=sig, msg=msg, desc=d, known=isknown, confirmed=ok, choices=path, history=hist))
                if ok and not isknown: stopped = True
            if len([f for f in failures if not f["known"]]) >= 6 or sum(seen.values()) > 3000: stopped = True
            if stopped: counter[8:16] = struct.pack("<Q", 1)
            # The rest of the case is lost with the failed execution.
            elif case + 1 < end: start(w, (si, case + 1, end))
            else: start(w)
        if time.time() - t0 > cap and not stopped:
            stopped = capped = True
            counter[8:16] = struct.pack("<Q", 1)
    tot = Stats()
    for f in os.listdir(work):
        if f.startswith("stats-"):
            n, o, s, x = pickle.load(open(os.path.join(work, f), "rb"))
            for k in n: tot.n[k] = max(tot.n[k], n[k]) if k == "max_depth" else tot.n[k] + n[k]
            tot.outcomes |= o; tot.states |= s; tot.samples += x
    shutil.rmtree(work, ignore_errors=True)
    json.dump(dict(harness=harness, **tot.n, states=len(tot.states), outcomes=len(tot.outcomes), units=len(units), capped=capped,
                   wall_s=time.time() - t0, samples=tot.samples[:12],
                   suites=[dict(name=s.name, what=s.what, cases=s.ncases, bound=s.bound) for s in suites], failures=failures),
              open(opt["out"], "w"))
    return 0
