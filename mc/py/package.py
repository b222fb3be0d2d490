"""C21: mlio.contrib.insights as an installed package, compared with the
documented definitions applied to the list of cells."""
import math
import mlio
import mlio.contrib.insights as ins
import pymc

D, I, T = mlio.DataReaderParams, mlio.InMemoryStore, mlio.DataType
L = mlio.LastExampleHandling
M = 0xffffffff


def rotl(v, n): return (v << n | v >> 32 - n) & M


def hash32(b):
    P1, P2, P3, P4, P5 = 2654435761, 2246822519, 3266489917, 668265263, 374761393
    rd = lambda i: int.from_bytes(b[i:i + 4], "little")
    i = 0
    if len(b) >= 16:
        a = [P1 + P2 & M, P2, 0, -P1 & M]
        while i + 16 <= len(b):
            a = [rotl(a[k] + rd(i + 4 * k) * P2 & M, 13) * P1 & M for k in range(4)]
            i += 16
        h = sum(rotl(a[k], n) for k, n in enumerate((1, 7, 12, 18))) & M
    else: h = P5
    h = h + len(b) & M
    while i + 4 <= len(b):
        h = rotl(h + rd(i) * P3 & M, 17) * P4 & M
        i += 4
    for x in b[i:]: h = rotl(h + x * P5 & M, 11) * P1 & M
    h = (h ^ h >> 15) * P2 & M
    h = (h ^ h >> 13) * P3 & M
    return h ^ h >> 16


def cardinality(words):
    reg = {}
    for w in words:
        h = hash32(w.encode())
        rank = 1
        while rank <= 16 and not h >> 16 - rank & 1: rank += 1
        reg[h >> 16] = max(reg.get(h >> 16, 0), rank)
    m = 65536
    e = 0.7213 / (1 + 1.079 / m) * m * m / (m - len(reg) + sum(2.0 ** -r for r in reg.values()))
    if e <= 2.5 * m and len(reg) < m: e = m * math.log(m / (m - len(reg)))
    return round(e)


NUMBER = {"1": 1.0, "-2.5": -2.5, "1e3": 1000.0}
CELLS = ["", " ", "a", "1", "-2.5", "null", "\u00e9\u00e9", "a b", "1e3"]


def words(s):
    w = s.split(" ")
    return w[:-1] if w[-1] == "" else w


def define(cells, nulls, capture, most):
    b = [len(x.encode()) for x in cells]
    full = [x for x in cells if x]
    solid = [x for x in full if x.strip()]
    nums = [NUMBER[x] for x in solid if x in NUMBER]
    cap, over = {}, False
    if capture:
        for x in solid:
            if x in cap: cap[x] += 1
            elif len(cap) < most: cap[x] = 1
            else: over = True
    nan = math.nan
    return dict(rows_seen=len(cells), numeric_count=len(nums), numeric_finite_count=len(nums), numeric_nan_count=len(solid) - len(nums),
                numeric_int_count=sum(x == round(x) for x in nums), string_empty_count=len(cells) - len(full), string_min_length=min(b),
                string_min_length_not_empty=min((x for x in b if x), default=0), string_max_length=max(b),
                string_only_whitespace_count=len(full) - len(solid), string_null_like_count=sum(x.strip().lower() in nulls for x in solid),
                string_num_words=sum(len(words(x)) for x in full), numeric_finite_mean=sum(nums) / len(nums) if nums else 0.,
                numeric_finite_min=min(nums, default=nan), numeric_finite_max=max(nums, default=nan), string_avg_length=sum(b) / len(b),
                string_cardinality=cardinality(set(full)), string_vocab_cardinality=cardinality({w for x in full for w in words(x)}),
                string_captured_unique_values=cap, string_captured_unique_values_overflowed=over,
                numeric_finite_median_approx=sorted(nums)[len(nums) // 2] if nums else nan)


def same(a, b):
    if isinstance(b, float) or isinstance(a, float): return math.isnan(a) and math.isnan(b) or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
    return a == b


def quote(x): return '"' + x + '"' if x != x.strip() or not x else x


OPTIONS = [(set(), 5, set()), ({0}, 1, {"null"}), ({1}, 2, {"a b", "null"}), ({0, 1, 7}, 1000, {"null"})]


def analyze(c, i, th):
    nc = len(CELLS)
    pair = lambda k: (CELLS[k], CELLS[(2 * k + 4) % nc])
    # The case gives the first row, the choices give the others.
    rows = [pair(i % nc)]
    for _ in range(c.choose(4 if th else 3)): rows.append(pair(c.choose(nc)))
    batch, handling = [(1, L.NONE), (2, L.NONE), (2, L.PAD), (3, L.PAD_WARN), (2, L.DROP)][i // nc]
    capture, most, nulls = OPTIONS[c.choose(len(OPTIONS))]
    before = c.choose(3) if th or len(rows) < 3 else 0
    text = "x,y\n" + "".join(f"{quote(a)},{quote(b)}\n" for a, b in rows)
    r = mlio.CsvReader(D([I(text.encode())], batch, last_example_handling=handling, num_prefetched_examples=2), mlio.CsvParams(default_data_type=T.STRING))
    where = lambda: f"rows {rows}, batches of {batch} {handling}, capture {capture} {most}, nulls {nulls}, before {before}"
    left = rows[:len(rows) // batch * batch] if handling == L.DROP else rows
    if before == 1: r.peek_example()
    if before == 2:
        r.read_example()
        left = left[batch:]
    for again in range(2):
        try: got = ins.analyze_dataset(r, nulls, capture, most)
        except StopIteration:
            pymc.check(not left, "a dataset is taken for an empty one", where)
            got = None
        c.transition()
        if got is None: pass
        else:
            pymc.check(left, "an empty dataset is analyzed", where)
            pymc.check([x.column_name for x in got.columns] == ["x", "y"], "wrong names", where)
            for k, col in enumerate(got.columns):
                cells = [x[k] for x in left]
                want = define(cells, nulls, k in capture, most)
                d = col.to_dict()
                pymc.check(set(d) == set(want) | {"example_value"}, "wrong keys", lambda: f"{sorted(d)} {where()}")
                pymc.check(d["example_value"] in cells and d["example_value"] == col.example_value, "the example is no cell", where)
                for name, w in want.items():
                    g = d[name]
                    if isinstance(g, str):
                        # Numbers are given as text with a precision of 6 digits.
                        pymc.check(abs(float(g) - w) < 1e-6 or math.isnan(float(g)) and math.isnan(w), f"wrong {name} in the dictionary", lambda: f"{g} instead of {w}, column {k} {where()}")
                        pymc.check(isinstance(w, float) or g == str(w), f"wrong {name} in the dictionary", lambda: f"{g} instead of {w}, column {k} {where()}")
                    else: pymc.check(same(g, w), f"wrong {name} in the dictionary", lambda: f"{g} instead of {w}, column {k} {where()}")
                    if name == "string_cardinality": g = col.estimate_string_cardinality()
                    elif name == "string_vocab_cardinality": g = col.estimate_string_vocab_cardinality()
                    elif name == "numeric_finite_median_approx": continue
                    else: g = getattr(col, name)
                    pymc.check(same(g, w), f"wrong {name}", lambda: f"{g} instead of {w}, column {k} {where()}")
        pymc.check(r.read_example() is None, "examples are left", where)
        r.reset()
        left = rows[:len(rows) // batch * batch] if handling == L.DROP else rows
    c.trace(); c.nontrivial()
    c.state((i, tuple(c.path)))
    c.outcome((len(rows), batch, before))


def other(c, i):
    """Datasets that can not be analyzed."""
    types = [T.INT32, T.FLOAT64, T.STRING]
    ts = [types[i % 3], types[i // 3]]
    rows = c.choose(3)
    r = mlio.CsvReader(D([I(b"x,y\n" + b"1,2\n" * rows)], 1), mlio.CsvParams(column_types={"x": ts[0], "y": ts[1]}))
    try:
        got = ins.analyze_dataset(r, set(), set())
        pymc.check(rows and ts == [T.STRING] * 2 and [x.rows_seen for x in got.columns] == [rows] * 2, "numbers are analyzed as text", f"{ts} {rows}")
    except StopIteration: pymc.check(rows == 0, "a dataset is taken for an empty one", f"{ts} {rows}")
    except RuntimeError: pymc.check(rows and ts != [T.STRING] * 2, "text is not analyzed", f"{ts} {rows}")
    c.trace(); c.transition(); c.state((i, rows))


def suites(tier, S):
    th = tier == "thorough"
    n = len(CELLS)
    return [S("C21/package", "all tables of cells x batch sizes x options, analyzed with the package", 5 * n, lambda c, i: analyze(c, i, th), lambda i: f"first cell {CELLS[i % n]!r}, batching {i // n}"),
            S("C21/other", "all column types", 9, other)]
