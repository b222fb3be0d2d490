// C08: batches and the last example. C09: bad instances. C10: selection of
// instances. Real readers on real data, compared with list models.
#include "rows.h"
#include "encode.h"

#include <mlio/csv_reader.h>
#include <mlio/data_reader_error.h>
#include <mlio/logging.h>
#include <mlio/recordio_protobuf_reader.h>
#include <mlio/text_line_reader.h>

#include "mc_random.h"

#include <set>

#include <tbb/tbb.h>

using namespace mlio;
using namespace sup;

namespace mc {
const char *const harness_name = "batch";
}

namespace {

std::size_t warnings;

enum Family { text, csv, dense, sparse, n_families };
const char *family_name[] = {"text", "csv", "recordio dense", "recordio sparse"};

std::string num(double d)
{
    std::ostringstream o;
    o << d;
    return o.str();
}

struct Inst {
    std::string bytes;  // as in the file
    std::string row;    // as delivered
};

// An instance of a family. Kind 0 is good; the others are bad.
int bad_kinds(Family f)
{
    switch (f) {
    case text: return 0;
    case csv: return 7;
    case dense: return 9;
    case sparse: return 11;
    default: return 0;
    }
}

Inst make(Family f, std::size_t i, int kind)
{
    Inst r;
    double x = static_cast<double>(i + 1);
    std::string s = std::to_string(i + 1);
    if (f == text) {
        r.bytes = "line" + s + "\n";
        r.row = "value: line" + s;
        return r;
    }
    if (f == csv) {
        std::string a = s, b = s + ".5", c = "t" + s, d = std::to_string(20 + i % 200);
        switch (kind) {
        case 1: a = "x"; break;
        case 2: b = "1.2.3"; break;
        case 3: d = "300"; break;                 // not a uint8
        case 4: d += ",5"; break;                 // too many
        case 6: c = "much too long"; break;
        case 7: c = "\"t\"x"; d = "-1"; break;
        }
        r.bytes = a + "," + b + "," + c + (kind == 5 ? "" : "," + d) + "\n";
        r.row = "1: " + s + "; 2: " + s + ".5; 3: t" + s + "; 4: " + d;
        return r;
    }
    using enc::Kind;
    using enc::Value;
    enc::Message m;
    Value y{Kind::f32, {x}, {}, {}};
    if (f == dense) {
        Value a{Kind::i32, {x, -x}, {}, {}}, b{Kind::f64, {x + .5, x, 0, 7}, {}, {2, 2}};
        r.row = "a: " + s + " " + num(-x) + "; b: " + num(x + .5) + " " + s + " 0 7; label_y: " + s;
        switch (kind) {
        case 1: a.kind = Kind::f32; break;
        case 2: a.values.push_back(9); break;
        case 3: b.shape = {4}; break;
        case 4: b.values.pop_back(); break;
        case 5: b.keys = {0, 1, 2, 3}; break;      // sparse
        case 6: y.values = {}; break;
        }
        m.entries = {{true, "y", y}, {false, "a", a}, {false, "b", b}};
        if (kind == 7) m.entries.pop_back();
        if (kind == 8) m.entries.push_back({false, "c", a});
    }
    else {
        std::uint64_t k = i % 3;
        Value a{Kind::f32, {x, x + .25}, {k, k + 3}, {3, 2}}, b{Kind::i32, {x, 2 * x, 3 * x}, {0, 1, 3}, {4}};
        std::string c[2];
        for (int j = 0; j < 2; ++j) {
            auto key = k + static_cast<std::uint64_t>(3 * j);
            c[j] = std::to_string(key / 2) + "," + std::to_string(key % 2) + "=" + num(x + .25 * j);
        }
        r.row = "a: " + c[0] + " " + c[1] + "; b: 0=" + s + " 1=" + num(2 * x) + " 3=" + num(3 * x) + "; label_y: " + s;
        if (i % 4 == 1) {
            // No values at all in a row.
            a.values.clear();
            a.keys.clear();
            r.row = "a: ; b: 0=" + s + " 1=" + num(2 * x) + " 3=" + num(3 * x) + "; label_y: " + s;
        }
        switch (kind) {
        case 1: a = {Kind::f32, {x, x}, {6, 0}, {3, 2}}; break;
        case 2: a = {Kind::f32, {x, x}, {0, 6}, {3, 2}}; break;
        case 3: b.keys = {0, 1, 4}; break;
        case 4: b.keys = {0, 1}; break;
        case 5: a.shape = {2, 3}; break;
        case 6: b.keys = {}; b.shape = {}; break;  // dense
        case 7: y.values = {x, x}; break;
        case 8: b.keys[0] = ~0ull; break;
        case 9: b.kind = Kind::f64; break;
        }
        m.entries = {{true, "y", y}, {false, "a", a}, {false, "b", b}};
        if (kind == 10) m.entries.pop_back();
    }
    r.bytes = m.encode();
    if ((f == dense && kind == 9) || (f == sparse && kind == 11)) r.bytes.pop_back();
    r.bytes = enc::record(r.bytes);
    return r;
}

std::string zero_row(Family f)
{
    switch (f) {
    case text: return "value: ";
    case csv: return "1: 0; 2: 0; 3: ; 4: 0";
    case dense: return "a: 0 0; b: 0 0 0 0; label_y: 0";
    default: return "a: ; b: ; label_y: 0";
    }
}

Intrusive_ptr<Data_reader> make_reader(Family f, Data_reader_params p)
{
    if (f == text) return make_intrusive<Text_line_reader>(p);
    if (f == csv) {
        Csv_params c;
        c.header_row_index = {};
        c.max_field_length = 8;
        c.max_field_length_handling = Max_field_length_handling::treat_as_bad;
        c.column_types_by_index = {{0, Data_type::int64}, {1, Data_type::float32}, {2, Data_type::string}, {3, Data_type::uint8}};
        return make_intrusive<Csv_reader>(p, c);
    }
    return make_intrusive<Recordio_protobuf_reader>(p);
}

// How n instances are divided into stores: 0 one, 1 one each, 2 halves with
// empty stores around.
std::vector<Intrusive_ptr<Data_store>> make_stores(const std::vector<Inst> &v, int layout)
{
    std::vector<std::string> t;
    if (layout == 0) {
        t.push_back("");
        for (auto &i : v) t.back() += i.bytes;
    }
    else if (layout == 1) {
        for (auto &i : v) t.push_back(i.bytes);
        if (v.empty()) t.push_back("");
    }
    else {
        t = {"", "", "", "", ""};
        for (std::size_t k = 0; k < v.size(); ++k) t[k < v.size() / 2 ? 1 : 3] += v[k].bytes;
    }
    std::vector<Intrusive_ptr<Data_store>> r;
    for (auto &s : t) r.push_back(store(s, static_cast<int>(r.size() % 3), 0, "s" + std::to_string(r.size())));
    return r;
}

struct Batch {
    std::vector<std::string> rows;
    std::size_t padding = 0;
    bool operator==(const Batch &o) const { return rows == o.rows && padding == o.padding; }
    std::string text() const
    {
        if (rows.size() <= 40) return join(rows) + " padding " + std::to_string(padding);
        std::string all;
        for (auto &r : rows) all += r + "\n";
        return std::to_string(rows.size()) + " rows (hash " + std::to_string(mc::hash(all)) + ") padding " + std::to_string(padding);
    }
};

bool is_pad(Last_example_handling h) { return h == Last_example_handling::pad || h == Last_example_handling::pad_warn; }
bool is_drop(Last_example_handling h) { return h == Last_example_handling::drop || h == Last_example_handling::drop_warn; }
bool is_pad(Bad_example_handling h) { return h == Bad_example_handling::pad || h == Bad_example_handling::pad_warn; }

struct Expected {
    std::vector<Batch> batches;
    bool error = false;  // after the batches
    bool incomplete = false;
};

Expected model(const std::vector<Inst> &v, const std::vector<int> &kinds, Family f, const Data_reader_params &p)
{
    Expected e;
    for (std::size_t i = 0; i < v.size(); i += p.batch_size) {
        std::size_t n = std::min(p.batch_size, v.size() - i);
        std::size_t size = n;
        if (n < p.batch_size) {
            e.incomplete = true;
            if (is_drop(p.last_example_handling)) break;
            if (is_pad(p.last_example_handling)) size = p.batch_size;
        }
        Batch b;
        bool bad = false;
        for (std::size_t k = i; k < i + n; ++k) {
            if (kinds[k] == 0) b.rows.push_back(v[k].row);
            else bad = true;
        }
        if (bad && p.bad_example_handling == Bad_example_handling::error) {
            e.error = true;
            break;
        }
        if (bad && !is_pad(p.bad_example_handling)) continue;
        b.padding = size - b.rows.size();
        b.rows.resize(size, zero_row(f));
        e.batches.push_back(b);
    }
    return e;
}

struct Config {
    Family family = Family::text;
    std::vector<int> kinds;
    int layout = 0;
    std::size_t batch = 1;
    Last_example_handling last = Last_example_handling::none;
    Bad_example_handling bad = Bad_example_handling::error;
    bool warn = false;
    bool parallel = false;
    std::size_t prefetch = 1;
    int epochs = 2;
    std::string text() const
    {
        std::ostringstream o;
        o << family_name[family] << " kinds=";
        if (kinds.size() <= 40)
            for (int k : kinds) o << k;
        else {
            o << kinds.size() << " instances";
            for (std::size_t k = 0; k < kinds.size(); ++k)
                if (kinds[k]) o << ", " << k << ":" << kinds[k];
        }
        o << " layout=" << layout << " batch=" << batch << " last=" << static_cast<int>(last) << " bad=" << static_cast<int>(bad)
          << " warn=" << warn << " parallel=" << parallel << " prefetch=" << prefetch;
        return o.str();
    }
};

void run(const Config &c)
{
    mlio_verif::parallel_cut_off = c.parallel ? 1 : 10'000'000;
    warnings = 0;
    std::vector<Inst> v;
    for (std::size_t i = 0; i < c.kinds.size(); ++i) v.push_back(make(c.family, i, c.kinds[i]));
    Data_reader_params p;
    p.dataset = make_stores(v, c.layout);
    p.batch_size = c.batch;
    p.num_prefetched_examples = c.prefetch;
    p.last_example_handling = c.last;
    p.bad_example_handling = c.bad;
    p.warn_bad_instances = c.warn;
    Expected e = model(v, c.kinds, c.family, p);
    std::size_t nbad = 0;
    for (int k : c.kinds) nbad += k != 0;
    auto r = make_reader(c.family, p);
    for (int epoch = 0; epoch < c.epochs; ++epoch) {
        std::size_t n = 0;
        bool error = false;
        warnings = 0;
        while (true) {
            Intrusive_ptr<Example> ex;
            try {
                ex = r->read_example();
            }
            catch (const Data_reader_error &) {
                error = true;
                break;
            }
            catch (const std::exception &x) {
                mc::fail("wrong kind of error", std::string{x.what()});
            }
            if (!ex) break;
            Batch b;
            b.rows = rows(*ex);
            b.padding = ex->padding;
            std::string where = "example " + std::to_string(n) + " of epoch " + std::to_string(epoch) + ": ";
            MC_CHECK(n < e.batches.size(), "more examples than expected", where + b.text());
            MC_CHECK(b.padding == e.batches[n].padding, "wrong padding", where + b.text() + " instead of " + e.batches[n].text());
            MC_CHECK(b.rows.size() == e.batches[n].rows.size(), "wrong number of rows", where + b.text() + " instead of " + e.batches[n].text());
            for (std::size_t k = 0; k < b.rows.size(); ++k)
                MC_CHECK(b.rows[k] == e.batches[n].rows[k],
                         k + b.padding < b.rows.size() ? "wrong rows" : "padding is not zero",
                         where + b.text() + " instead of " + e.batches[n].text());
            ++n;
        }
        std::string where = std::to_string(n) + " examples in epoch " + std::to_string(epoch);
        MC_CHECK(error == e.error, error ? "unexpected error" : "bad instance without an error", where);
        MC_CHECK(n == e.batches.size(), "fewer examples than expected", where);
        if (!error) MC_CHECK(r->read_example() == nullptr, "example after the end", where);
        bool lw = c.last == Last_example_handling::drop_warn || c.last == Last_example_handling::pad_warn;
        if (nbad == 0)
            MC_CHECK((warnings > 0) == (lw && e.incomplete), "wrong warning", std::to_string(warnings) + " warnings, " + where);
        else if (c.warn)
            MC_CHECK(warnings > 0 || (is_drop(c.last) && e.incomplete), "no warning about a bad instance", where);
        r->reset();
    }
    mc::traces();
    mc::transition(static_cast<std::size_t>(c.epochs) * (e.batches.size() + 1));
    std::uint64_t h = mc::hash(c.text());
    mc::state(h);
    std::string o = e.error ? "error" : "";
    for (auto &b : e.batches) o += b.text();
    mc::outcome(o);
    if (!e.batches.empty()) mc::nontrivial();
    mc::sample(c.text() + " -> " + o);
}

// ------------------------------------------------------------ selection

struct Select {
    std::size_t n = 0;
    int layout = 0;
    std::size_t skip = 0;
    std::optional<std::size_t> limit;
    std::size_t shards = 0;  // 0 for none
    std::optional<float> ratio;
    bool shuffle = false;
    std::size_t window = 1;
    std::optional<std::uint64_t> seed;
    bool reshuffle = true;
    std::size_t batch = 1;
    std::string text() const
    {
        std::ostringstream o;
        o << "n=" << n << " layout=" << layout << " skip=" << skip << " limit=" << (limit ? std::to_string(*limit) : "none")
          << " shards=" << shards << " ratio=" << (ratio ? num(*ratio) : "none");
        if (shuffle) o << " window=" << window << " seed=" << (seed ? std::to_string(*seed) : "none") << " reshuffle=" << reshuffle;
        o << " batch=" << batch;
        return o.str();
    }
};

struct Reader {
    explicit Reader(const Select &c, std::size_t shard)
    {
        std::vector<Inst> v;
        for (std::size_t i = 0; i < c.n; ++i) v.push_back(Inst{std::to_string(i) + "\n", ""});
        Data_reader_params p;
        p.dataset = make_stores(v, c.layout);
        p.batch_size = c.batch;
        p.num_prefetched_examples = 1;
        p.num_instances_to_skip = c.skip;
        p.num_instances_to_read = c.limit;
        p.num_shards = c.shards;
        p.shard_index = shard;
        p.sample_ratio = c.ratio;
        p.shuffle_instances = c.shuffle;
        p.shuffle_window = c.window;
        p.shuffle_seed = c.seed;
        p.reshuffle_each_epoch = c.reshuffle;
        r = make_intrusive<Text_line_reader>(p);
    }
    std::vector<std::size_t> epoch(std::size_t stop_after = ~std::size_t{})
    {
        std::vector<std::size_t> out;
        std::size_t k = 0;
        while (k++ < stop_after) {
            auto e = r->read_example();
            if (!e) {
                MC_CHECK(!r->read_example(), "example after the end", "");
                break;
            }
            for (auto &s : cells(*e->features()[0])) out.push_back(std::stoul(s));
        }
        return out;
    }
    Intrusive_ptr<Data_reader> r;
};

std::string list(const std::vector<std::size_t> &v)
{
    std::string s;
    for (auto i : v) s += (s.empty() ? "" : " ") + std::to_string(i);
    return s;
}

// The range and shard, before sampling.
std::vector<std::size_t> chosen(const Select &c, std::size_t shard)
{
    std::vector<std::size_t> r;
    std::size_t end = c.n;
    if (c.limit && c.skip <= c.n && *c.limit < c.n - c.skip) end = c.skip + *c.limit;
    std::size_t k = 0;
    for (std::size_t i = c.skip; i < end; ++i, ++k)
        if (c.shards <= 1 || k % c.shards == shard) r.push_back(i);
    return r;
}

// Whether v is a sample of all: of each hundred, in order, the ratio.
void check_sample(const std::vector<std::size_t> &v, const std::vector<std::size_t> &all, float ratio, const std::string &where)
{
    std::size_t pos = 0;
    for (std::size_t w = 0; w < all.size(); w += 100) {
        std::size_t size = std::min<std::size_t>(100, all.size() - w), n = 0, last = 0;
        while (pos < v.size()) {
            auto it = std::find(all.begin() + static_cast<std::ptrdiff_t>(w), all.begin() + static_cast<std::ptrdiff_t>(w + size), v[pos]);
            if (it == all.begin() + static_cast<std::ptrdiff_t>(w + size)) break;
            auto k = static_cast<std::size_t>(it - all.begin()) + 1;
            MC_CHECK(k > last, "sampled instances out of order", where + list(v));
            last = k;
            ++n;
            ++pos;
        }
        double exact = static_cast<double>(ratio) * static_cast<double>(size);
        MC_CHECK(n == static_cast<std::size_t>(exact - 1e-4) || n == static_cast<std::size_t>(exact + 1e-4),
                 "wrong number of sampled instances", where + std::to_string(n) + " of " + std::to_string(size) + " with the ratio " + num(ratio));
    }
    MC_CHECK(pos == v.size(), "sampled instances are not of the selection", where + list(v) + " of " + list(all));
}

void run_select(const Select &c)
{
    std::vector<std::size_t> together;
    std::string out;
    std::size_t shards = std::max<std::size_t>(1, c.shards);
    for (std::size_t s = 0; s < shards; ++s) {
        auto all = chosen(c, s);
        Reader r{c, s};
        std::string where = "shard " + std::to_string(s) + ": ";
        auto v = r.epoch();
        if (c.ratio) check_sample(v, all, *c.ratio, where);
        else MC_CHECK(v == all, "wrong instances selected", where + list(v) + " instead of " + list(all));
        together.insert(together.end(), v.begin(), v.end());
        r.r->reset();
        auto v2 = r.epoch();
        MC_CHECK(v2 == v, "another selection in the second epoch", where + list(v2) + " instead of " + list(v));
        // Also after an epoch that was not read to its end.
        r.r->reset();
        r.epoch(1 + v.size() / 2 / c.batch);
        r.r->reset();
        v2 = r.epoch();
        MC_CHECK(v2 == v, "another selection after a partial epoch", where + list(v2) + " instead of " + list(v));
        out += list(v) + "|";
        mc::transition(4 * v.size() + 4);
        mc::traces();
        if (!v.empty()) mc::nontrivial();
    }
    if (!c.ratio) {
        auto n = together.size();
        std::set<std::size_t> u(together.begin(), together.end());
        Select one = c;
        one.shards = 0;
        auto all = chosen(one, 0);
        MC_CHECK(u.size() == n, "shards overlap", list(together));
        MC_CHECK(std::set<std::size_t>(all.begin(), all.end()) == u, "shards are not complete", list(together));
    }
    mc::evaluations(shards - 1);
    mc::outcome(out);
    mc::state(mc::hash(c.text()));
    mc::sample(c.text() + " -> " + out);
}

void check_permutation(const std::vector<std::size_t> &v, const std::vector<std::size_t> &all, std::size_t window, const std::string &where)
{
    auto s = v;
    std::sort(s.begin(), s.end());
    MC_CHECK(s == all, "not a permutation of the selection", where + list(v) + " of " + list(all));
    if (window == 0) return;
    for (std::size_t p = 0; p < v.size(); ++p) {
        auto i = static_cast<std::size_t>(std::find(all.begin(), all.end(), v[p]) - all.begin());
        MC_CHECK(i < p + window, "instance delivered too early", where + list(v) + " with the window " + std::to_string(window));
    }
}

void run_shuffle(const Select &c)
{
    auto all = chosen(c, 0);
    Reader r{c, 0}, q{c, 0};
    std::vector<std::size_t> first;
    std::string out;
    for (int epoch = 0; epoch < 2; ++epoch) {
        std::string where = "epoch " + std::to_string(epoch) + ": ";
        auto v = r.epoch();
        check_permutation(v, all, c.window, where);
        if (c.seed) {
            auto w = q.epoch();
            MC_CHECK(v == w, "not reproducible from the seed", where + list(v) + " and " + list(w));
        }
        if (epoch == 0) first = v;
        else if (!c.reshuffle) MC_CHECK(v == first, "another order in the second epoch", list(v) + " after " + list(first));
        out += list(v) + "|";
        r.r->reset();
        q.r->reset();
        mc::transition(v.size());
    }
    if (!c.reshuffle) {
        r.epoch(1 + all.size() / 2);
        r.r->reset();
        auto v = r.epoch();
        MC_CHECK(v == first, "another order after a partial epoch", list(v) + " after " + list(first));
    }
    mc::traces();
    mc::nontrivial();
    mc::outcome(out);
    mc::state(mc::hash(out, mc::hash(c.text())));
}

// That shuffling does shuffle, with the standard engine.
void run_mixes(const Select &c0)
{
    Select c = c0;
    std::set<std::vector<std::size_t>> orders;
    bool differs = false;
    for (std::uint64_t seed = 1; seed <= 40; ++seed) {
        c.seed = seed;
        Reader r{c, 0};
        auto v = r.epoch();
        check_permutation(v, chosen(c, 0), c.window, "");
        r.r->reset();
        auto w = r.epoch();
        differs |= v != w;
        orders.insert(v);
        mc::traces();
    }
    mc::evaluations(39);
    mc::outcome_hash(orders.size());
    if (c.window == 1 || c.n < 2) MC_CHECK(orders.size() == 1, "a window of one reorders", "");
    else {
        MC_CHECK(orders.size() > 1, "does not shuffle", c.text());
        MC_CHECK(differs == c.reshuffle, "reshuffling not as configured", c.text());
    }
}

void run_invalid(std::size_t i)
{
    Data_reader_params p;
    p.dataset = make_stores({Inst{"a\n", ""}, Inst{"b\n", ""}}, 0);
    p.batch_size = 1;
    p.num_prefetched_examples = 1;
    bool ok = false;
    std::size_t k = i;
    if (k < 12) {
        p.num_shards = 2 + k / 6;
        p.shard_index = k % 6;
        ok = p.shard_index < p.num_shards;
    }
    else if (k < 20) {
        const float r[] = {0.0F, -0.5F, 1.0F, 1.5F, 0.5F, -1e-9F, 1e9F, 0.999F};
        p.sample_ratio = r[k - 12];
        ok = r[k - 12] > 0 && r[k - 12] < 1;
    }
    else
        p.batch_size = 0;
    try {
        auto r = make_intrusive<Text_line_reader>(p);
        auto e = r->read_example();
        MC_CHECK(ok, "invalid configuration accepted", std::to_string(i));
    }
    catch (const std::invalid_argument &) {
        MC_CHECK(!ok, "valid configuration rejected", std::to_string(i));
    }
    mc::traces();
    mc::state(i);
}

}  // namespace

std::vector<mc::Suite> mc::make_suites(Tier tier)
{
    bool th = tier == Tier::thorough;
    on_start([] {
        mlio::initialize();
        set_log_message_handler([](Log_level l, std::string_view) {
            if (l == Log_level::warning) ++warnings;
        });
    });
    std::vector<Suite> out;
    auto add = [&](std::string name, std::string what, std::shared_ptr<std::vector<Config>> cs, int bound) {
        Suite s;
        s.name = name;
        s.what = what;
        s.ncases = cs->size();
        s.block = bound ? 1 : 16;
        s.bound = [bound](std::size_t) { return bound; };
        s.hb_cache = bound > 0;
        s.run = [cs, bound](std::size_t i) {
            if (bound) {
                mc::sched().branch = true;
                mc::sched().atomics = true;
                mc::sched().atomic_rmw = true;
            }
            run((*cs)[i]);
        };
        s.describe = [cs](std::size_t i) { return (*cs)[i].text(); };
        out.push_back(s);
    };
    const Last_example_handling lasts[] = {Last_example_handling::none, Last_example_handling::drop, Last_example_handling::drop_warn,
                                           Last_example_handling::pad, Last_example_handling::pad_warn};
    const Bad_example_handling bads[] = {Bad_example_handling::error, Bad_example_handling::skip, Bad_example_handling::skip_warn,
                                         Bad_example_handling::pad, Bad_example_handling::pad_warn};
    // C08
    {
        auto cs = std::make_shared<std::vector<Config>>();
        for (int f = 0; f < n_families; ++f)
            for (std::size_t n = 0; n <= (th ? 13u : 7u); ++n)
                for (std::size_t b = 1; b <= (th ? 8u : 5u); ++b)
                    for (auto l : lasts)
                        for (int layout = 0; layout < 3; ++layout)
                            for (std::size_t pf : {1u, 2u, 3u})
                                for (bool par : {false, true}) {
                                    if (f == text && par) continue;
                                    Config c;
                                    c.family = static_cast<Family>(f);
                                    c.kinds.assign(n, 0);
                                    c.layout = layout;
                                    c.batch = b;
                                    c.last = l;
                                    c.prefetch = pf;
                                    c.parallel = par;
                                    c.epochs = 3;
                                    cs->push_back(c);
                                }
        add("C08/batches", "all datasets, batch sizes, handlings, readers, store layouts", cs, 0);
        // Numbers of batches and of rows around the powers of two that
        // narrower types end at.
        cs = std::make_shared<std::vector<Config>>();
        for (int f = 0; f < n_families; ++f)
            for (std::size_t n : {127u, 129u, 255u, 256u, 257u, 300u, 32769u, 65537u})
                for (int size = 0; size < 4; ++size)
                    for (auto l : {Last_example_handling::none, Last_example_handling::pad}) {
                        if (n > 300 && (f != text && f != sparse && !th)) continue;
                        if (n > 300 && (size % 2 == 0 || (l == Last_example_handling::none) != (size == 1))) continue;
                        Config c;
                        c.family = static_cast<Family>(f);
                        c.kinds.assign(n, 0);
                        c.layout = n > 300 ? 0 : static_cast<int>(n % 3);
                        c.batch = size == 0 ? 1 : size == 1 ? n - 1 : size == 2 ? n : n + 3;
                        c.last = l;
                        c.epochs = n > 300 ? 1 : 2;
                        cs->push_back(c);
                    }
        add("C08/large", "many batches and many rows in a batch", cs, 0);
        out.back().block = 1;
    }
    // C09
    {
        auto cs = std::make_shared<std::vector<Config>>();
        auto ps = std::make_shared<std::vector<Config>>();
        for (int f = csv; f < n_families; ++f) {
            int K = bad_kinds(static_cast<Family>(f));
            for (std::size_t n = 1; n <= (th ? 6u : 5u); ++n)
                for (std::size_t mask = 1; mask < (1u << n); ++mask)
                    for (int k = 1; k <= K + 2; ++k) {
                        // Kind k for all, or two mixtures of kinds.
                        std::vector<int> kinds;
                        for (std::size_t i = 0; i < n; ++i)
                            kinds.push_back(mask >> i & 1 ? (k <= K ? k : 1 + static_cast<int>((i * 2 + static_cast<std::size_t>(k - K)) % static_cast<std::size_t>(K))) : 0);
                        // The first instance decides the schema.
                        if (kinds[0] && (f != csv || kinds[0] == 4 || kinds[0] == 5)) continue;
                        for (std::size_t b = 1; b <= 4; ++b)
                            for (auto l : lasts)
                                for (auto h : bads) {
                                    if (!th && (l == Last_example_handling::drop_warn || l == Last_example_handling::pad_warn)) continue;
                                    for (bool par : {false, true}) {
                                        // Too much for the quick tier; the padding
                                        // modes and sparse features never run in
                                        // parallel, whatever the size of the batch.
                                        if (!th && par && (f == sparse || is_pad(h)) && (n > 3 || k > K)) continue;
                                        Config c;
                                        c.family = static_cast<Family>(f);
                                        c.kinds = kinds;
                                        c.layout = static_cast<int>(mask % 3);
                                        c.batch = b;
                                        c.last = l;
                                        c.bad = h;
                                        c.warn = (mask + b) % 2;
                                        c.parallel = par;
                                        c.epochs = 1 + (k == 1);
                                        cs->push_back(c);
                                        if (f == csv && par && (k == 1 || k == 4 || k == K + 1) && n <= 4 && b >= 2 && l == Last_example_handling::none) {
                                            c.epochs = 1;
                                            c.prefetch = 1;
                                            ps->push_back(c);
                                        }
                                    }
                                }
                    }
        }
        add("C09/placements", "all placements of bad instances of each kind x handlings x batch sizes", cs, 0);
        auto ls = std::make_shared<std::vector<Config>>();
        for (int f = csv; f < n_families; ++f)
            for (std::size_t n : {257u, 300u, 65537u})
                for (std::size_t at : {std::size_t{1}, std::size_t{254}, std::size_t{255}, std::size_t{256}, n - 1})
                    for (auto h : {Bad_example_handling::skip, Bad_example_handling::pad})
                        for (bool one : {false, true}) {
                            // Nothing but single rows, or all in one example.
                            if (n > 300 && (!th || one || at != n - 1)) continue;
                            Config c;
                            c.family = static_cast<Family>(f);
                            c.kinds.assign(n, 0);
                            c.kinds[at] = 1;
                            c.batch = one ? 1 : n;
                            c.bad = h;
                            c.epochs = 1;
                            ls->push_back(c);
                            if (!one && n == 300) {
                                c.kinds[at / 2 + 1] = 2;
                                c.parallel = true;
                                ls->push_back(c);
                            }
                        }
        add("C09/large", "bad instances of large examples and long datasets", ls, 0);
        out.back().block = 1;
        add("C09/parallel", "parallel decoding of bad rows, schedules up to a preemption bound", ps, th ? 2 : 1);
    }
    // C10
    {
        auto sel = [&](std::string name, std::string what, std::shared_ptr<std::vector<Select>> cs, void (*f)(const Select &), std::size_t fan, std::size_t block) {
            Suite s;
            s.name = name;
            s.what = what;
            s.ncases = cs->size();
            s.block = block;
            s.run = [cs, f, fan](std::size_t i) {
                mc::Rng::reset(fan > 0, fan);
                f((*cs)[i]);
            };
            s.describe = [cs](std::size_t i) { return (*cs)[i].text(); };
            out.push_back(s);
        };
        auto cs = std::make_shared<std::vector<Select>>();
        for (std::size_t n = 0; n <= (th ? 9u : 7u); ++n)
            for (int layout = 0; layout < 3; ++layout)
                for (std::size_t skip = 0; skip <= n + 1; ++skip)
                    for (std::size_t lim = 0; lim <= n + 2; ++lim)
                        for (std::size_t shards = 0; shards <= (th ? 5u : 4u); ++shards)
                            for (int ratio = 0; ratio < (th ? 4 : 3); ++ratio) {
                                Select c;
                                c.n = n;
                                c.layout = layout;
                                c.skip = skip;
                                if (lim) c.limit = lim - 1;
                                c.shards = shards;
                                const float rs[] = {0, 0.5F, 0.34F, 0.9F};
                                if (ratio) c.ratio = rs[ratio];
                                c.batch = 1 + (n + skip + lim) % 2;
                                cs->push_back(c);
                            }
        sel("C10/range", "all datasets, ranges, shards and ratios", cs, run_select, 0, 16);
        cs = std::make_shared<std::vector<Select>>();
        for (std::size_t n : {99u, 100u, 101u, 150u, 199u, 200u, 201u, 301u})
            for (float ratio : {0.005F, 0.01F, 0.29F, 0.33F, 0.5F, 0.57F, 0.99F})
                for (std::size_t shards : {0u, 2u, 3u})
                    for (std::size_t skip : {0u, 1u, 50u})
                        for (int lim = 0; lim < 2; ++lim) {
                            Select c;
                            c.n = n;
                            c.skip = skip;
                            if (lim) c.limit = n - 60;
                            c.shards = shards;
                            c.ratio = ratio;
                            c.batch = 16;
                            cs->push_back(c);
                        }
        sel("C10/sample", "sampling of datasets around multiples of the sampling window", cs, run_select, 0, 4);
        cs = std::make_shared<std::vector<Select>>();
        for (std::size_t n : {257u, 600u, 66000u})
            for (std::size_t skip : {0u, 255u, 256u, 257u, 65535u, 65536u})
                for (std::size_t lim : {0u, 1u, 256u, 257u, 65537u})
                    for (std::size_t shards : {0u, 2u, 257u}) {
                        if (shards == 257 && (n > 600 || skip % 256 == 255)) continue;
                        if (n > 600 && shards && (!th || lim % 256 == 0)) continue;
                        if (n > 600 && !th && lim != 65537 && skip < 65535) continue;
                        Select c;
                        c.n = n;
                        c.skip = skip;
                        if (lim) c.limit = lim;
                        c.shards = shards;
                        c.batch = n > 600 ? 1000 : 16;
                        cs->push_back(c);
                    }
        sel("C10/large", "long datasets, large ranges and many shards", cs, run_select, 0, 1);
        // All random numbers.
        for (std::size_t fan : {std::size_t{12}, std::size_t{60}}) {
            cs = std::make_shared<std::vector<Select>>();
            for (std::size_t n = 0; n <= 5; ++n)
                for (std::size_t window : {0u, 1u, 2u, 3u, 4u, 5u, 6u})
                    for (int seed = 0; seed < 2; ++seed)
                        for (bool re : {false, true})
                            for (int range = 0; range < 2; ++range) {
                                bool big = n == 5;
                                if (big != (fan == 60)) continue;
                                if (big && (re || !th || window == 2 || window == 3)) continue;
                                if (!th && re && n > 3) continue;
                                if (re && n > 3 && window == 2) continue;
                                Select c;
                                c.n = n;
                                c.window = window;
                                c.shuffle = true;
                                if (seed) c.seed = 7;
                                c.reshuffle = re;
                                if (range) {
                                    c.skip = 1;
                                    c.limit = n > 2 ? n - 2 : 1;
                                }
                                cs->push_back(c);
                            }
            if (!cs->empty())
                sel("C10/shuffle-all-draws-" + std::to_string(fan), "every sequence of random numbers, by equivalence class", cs, run_shuffle, fan, 1);
        }
        cs = std::make_shared<std::vector<Select>>();
        for (std::size_t n = 0; n <= (th ? 12u : 9u); ++n)
            for (std::size_t window = 0; window <= n + 1; ++window)
                for (bool re : {false, true})
                    for (std::uint64_t seed = 0; seed < (th ? 30u : 8u); ++seed)
                        for (std::size_t batch : {1u, 2u}) {
                            Select c;
                            c.n = n;
                            c.layout = static_cast<int>(n % 3);
                            c.window = window;
                            c.shuffle = true;
                            if (seed) c.seed = seed;
                            c.reshuffle = re;
                            c.batch = batch;
                            cs->push_back(c);
                        }
        for (std::size_t n : {300u, 700u})
            for (std::size_t window : {0u, 2u, 255u, 256u, 257u, 699u, 1000u})
                for (bool re : {false, true})
                    for (std::size_t shards : {0u, 3u}) {
                        Select c;
                        c.n = n;
                        c.window = window;
                        c.shards = shards;
                        c.shuffle = true;
                        c.reshuffle = re;
                        c.seed = n;
                        c.batch = 16;
                        cs->push_back(c);
                    }
        sel("C10/shuffle", "windows, seeds and epochs with the standard engine", cs, run_shuffle, 0, 8);
        cs = std::make_shared<std::vector<Select>>();
        for (std::size_t n : {2u, 5u, 9u})
            for (std::size_t window : {0u, 1u, 2u, 3u, 9u})
                for (bool re : {false, true}) {
                    Select c;
                    c.n = n;
                    c.window = window;
                    c.shuffle = true;
                    c.reshuffle = re;
                    cs->push_back(c);
                }
        sel("C10/mixes", "shuffling gives different orders", cs, run_mixes, 0, 1);
        Suite s;
        s.name = "C10/invalid";
        s.what = "invalid selections are rejected";
        s.ncases = 21;
        s.run = run_invalid;
        out.push_back(s);
    }
    return out;
}
