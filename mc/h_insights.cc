// C21: column statistics. The real analyzer on all small columns, batched in
// all ways, compared with the definitions applied to the list of cells.
#include "support.h"

#include <mlio/cpu_array.h>
#include <mlio/example.h>
#include <mlio/schema.h>
#include <mlio/tensor.h>

#include "column_analyzer.h"
#include "column_statistics.h"

#include <cmath>
#include <map>
#include <set>

using namespace mlio;
using namespace sup;
using pymlio::Column_analysis;
using pymlio::Column_analyzer;

namespace mc {
const char *const harness_name = "insights";
}

namespace {

// ---------------------------------------------------------- definitions

std::uint32_t rotl(std::uint32_t v, int n) { return v << n | v >> (32 - n); }

// The xxHash32 algorithm.
std::uint32_t hash32(const std::string &s)
{
    const std::uint32_t P1 = 2654435761u, P2 = 2246822519u, P3 = 3266489917u, P4 = 668265263u, P5 = 374761393u;
    auto rd = [&](std::size_t i) {
        std::uint32_t v = 0;
        for (std::size_t k = 4; k-- > 0;) v = v << 8 | static_cast<unsigned char>(s[i + k]);
        return v;
    };
    std::size_t i = 0;
    std::uint32_t h;
    if (s.size() >= 16) {
        std::uint32_t a[4] = {P1 + P2, P2, 0, 0u - P1};
        for (; i + 16 <= s.size(); i += 16)
            for (std::size_t k = 0; k < 4; ++k) a[k] = rotl(a[k] + rd(i + 4 * k) * P2, 13) * P1;
        h = rotl(a[0], 1) + rotl(a[1], 7) + rotl(a[2], 12) + rotl(a[3], 18);
    }
    else h = P5;
    h += static_cast<std::uint32_t>(s.size());
    for (; i + 4 <= s.size(); i += 4) h = rotl(h + rd(i) * P3, 17) * P4;
    for (; i < s.size(); ++i) h = rotl(h + static_cast<unsigned char>(s[i]) * P5, 11) * P1;
    h ^= h >> 15;
    h *= P2;
    h ^= h >> 13;
    h *= P3;
    return h ^ h >> 16;
}

// The HyperLogLog estimate with 2^16 registers.
std::size_t cardinality(const std::set<std::string> &words)
{
    std::map<std::uint32_t, int> reg;
    for (auto &w : words) {
        std::uint32_t h = hash32(w);
        int rank = 1;
        while (rank <= 16 && !(h >> (16 - rank) & 1)) ++rank;
        auto &r = reg[h >> 16];
        r = std::max(r, rank);
    }
    const double m = 65536;
    double sum = m - static_cast<double>(reg.size());
    for (auto &r : reg) sum += std::ldexp(1.0, -r.second);
    double e = 0.7213 / (1.0 + 1.079 / m) * m * m / sum;
    double zeros = m - static_cast<double>(reg.size());
    if (e <= 2.5 * m && zeros > 0) e = m * std::log(m / zeros);
    return static_cast<std::size_t>(std::round(e));
}

bool blank(const std::string &s) { return s.find_first_not_of(" \t\n\v\f\r") == std::string::npos; }

std::vector<std::string> words(const std::string &s)
{
    std::vector<std::string> r;
    std::string w;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == ' ') {
            r.push_back(w);
            w.clear();
        }
        else w += s[i];
    }
    if (!w.empty()) r.push_back(w);
    return r;
}

struct Cell {
    std::string text;
    bool number = false;
    double value = 0;
    bool null_like = false;
};

struct Options {
    bool capture = false;
    std::size_t most = 0;
    std::unordered_set<std::size_t> columns{0};
};

const std::vector<std::string> null_like{"null", "NaN", "", "n/a"};

// A short string whose hash leaves no bit for the rank.
std::string rare(int k)
{
    for (int i = 0;; ++i) {
        auto s = "w" + std::to_string(i);
        if ((hash32(s) & 0xffff) == 0 && k-- == 0) return s;
    }
}

const std::vector<Cell> &alphabet()
{
    static std::vector<Cell> v;
    if (v.empty()) {
        v = {{"", false, 0, false},       {" ", false, 0, false},     {"a", false, 0, false},   {"1", true, 1, false},         {"-2.5", true, -2.5, false}, {"1e3", true, 1000, false},
             {"inf", false, 0, false},   {"nan", false, 0, true},    {"null", false, 0, true}, {" NuLL\t", false, 0, true},   {"a b", false, 0, false},    {"a  b ", false, 0, false},
             {"3.000001", true, 3.000001, false}, {"3.0001", true, 3.0001, false}, {"1e999", false, 0, false}, {rare(0), false, 0, false},
             {"a much longer cell of many words", false, 0, false}, {"N/A", false, 0, true}};
    }
    return v;
}

bool close(double a, double b)
{
    return std::abs(a - b) <= 1e-9 * std::max({1.0, std::abs(a), std::abs(b)});
}

void check(const Column_analysis &s, const std::vector<Cell> &cells, const Options &o, const std::string &where)
{
    std::size_t count = 0, finite = 0, ints = 0, nans = 0, empties = 0, blanks = 0, nulls = 0, nwords = 0, max_len = 0, total = 0;
    std::size_t min_len = std::numeric_limits<std::size_t>::max(), min_len_ne = min_len;
    double sum = 0, lo = 0, hi = 0;
    std::set<std::string> values, vocabulary;
    std::map<std::string, int> captured;
    bool overflow = false;
    std::vector<double> sample;
    for (auto &c : cells) {
        total += c.text.size();
        min_len = std::min(min_len, c.text.size());
        max_len = std::max(max_len, c.text.size());
        if (c.text.empty()) {
            ++empties;
            continue;
        }
        min_len_ne = std::min(min_len_ne, c.text.size());
        values.insert(c.text);
        for (auto &w : words(c.text)) {
            vocabulary.insert(w);
            ++nwords;
        }
        if (blank(c.text)) {
            ++blanks;
            continue;
        }
        nulls += c.null_like;
        if (!c.number) ++nans;
        else {
            ++count;
            if (std::isfinite(c.value)) {
                if (finite == 0 || c.value < lo) lo = c.value;
                if (finite == 0 || c.value > hi) hi = c.value;
                ++finite;
                sum += c.value;
                ints += std::abs(std::round(c.value) - c.value) <= 1e-5;
                sample.push_back(c.value);
            }
        }
        if (o.capture) {
            auto it = captured.find(c.text);
            if (it != captured.end()) ++it->second;
            else if (captured.size() < o.most) captured[c.text] = 1;
            else overflow = true;
        }
    }
    auto eq = [&](const char *what, auto got, auto want) {
        if (got != want) mc::fail(std::string{"wrong "} + what, where + ": " + std::to_string(got) + " instead of " + std::to_string(want));
    };
    eq("number of rows", s.rows_seen, cells.size());
    eq("number of numbers", s.numeric_count, count);
    eq("number of cells that are no numbers", s.numeric_nan_count, nans);
    eq("number of finite numbers", s.numeric_finite_count, finite);
    eq("number of integers", s.numeric_int_count, ints);
    eq("number of empty cells", s.str_empty_count, empties);
    eq("number of blank cells", s.str_only_whitespace_count, blanks);
    eq("number of null-like cells", s.str_null_like_count, nulls);
    eq("number of words", s.str_num_words, nwords);
    eq("shortest length", s.str_min_length, min_len);
    eq("shortest length of a nonempty cell", s.str_min_length_not_empty, min_len_ne);
    eq("longest length", s.str_max_length, max_len);
    double avg = cells.empty() ? 0 : static_cast<double>(total) / static_cast<double>(cells.size());
    MC_CHECK(close(s.str_avg_length, avg), "wrong average length", where + ": " + std::to_string(s.str_avg_length) + " instead of " + std::to_string(avg));
    if (finite) {
        MC_CHECK(close(s.numeric_finite_mean, sum / static_cast<double>(finite)), "wrong mean",
                 where + ": " + std::to_string(s.numeric_finite_mean) + " instead of " + std::to_string(sum / static_cast<double>(finite)));
        MC_CHECK(s.numeric_finite_min == lo && s.numeric_finite_max == hi, "wrong extremes", where);
        std::sort(sample.begin(), sample.end());
        MC_CHECK(s.estimate_median_approx() == sample[sample.size() / 2], "wrong median", where + ": " + std::to_string(s.estimate_median_approx()));
    }
    else {
        MC_CHECK(std::isnan(s.numeric_finite_min) && std::isnan(s.numeric_finite_max) && std::isnan(s.estimate_median_approx()), "extremes without numbers", where);
        MC_CHECK(std::isnan(s.numeric_finite_mean) || s.numeric_finite_mean == 0, "mean without numbers", where);
    }
    MC_CHECK((std::map<std::string, int>{s.str_captured_unique_values.begin(), s.str_captured_unique_values.end()}) == captured, "wrong captured values",
             where + ": " + std::to_string(s.str_captured_unique_values.size()) + " instead of " + std::to_string(captured.size()));
    MC_CHECK(s.str_captured_unique_values_overflowed == overflow, "wrong overflow of captured values", where);
    if (!cells.empty()) {
        bool any = false;
        for (auto &c : cells) any |= c.text == s.example_value;
        MC_CHECK(any, "the example is no cell", where);
    }
    eq("cardinality", s.estimate_string_cardinality(), cardinality(values));
    eq("cardinality of words", s.estimate_string_vocab_cardinality(), cardinality(vocabulary));
}

// One or two columns of cells in batches: a bit of cuts ends a batch.
void run(const std::vector<std::vector<Cell>> &columns, std::uint64_t cuts, const Options &o, std::size_t padding, const std::string &where)
{
    std::vector<Column_analysis> stats;
    std::vector<Attribute> attrs;
    for (std::size_t k = 0; k < columns.size(); ++k) {
        stats.emplace_back(std::to_string(k));
        attrs.emplace_back(std::to_string(k), Data_type::string, Size_vector{1, 1});
    }
    auto schema = make_intrusive<Schema>(attrs);
    std::unordered_set<std::size_t> capture;
    if (o.capture) capture = o.columns;
    Column_analyzer a{stats, null_like, capture, o.most};
    std::size_t n = columns[0].size(), from = 0;
    for (std::size_t i = 1; i <= n; ++i) {
        if (i < n && (i > 64 || !(cuts >> (i - 1) & 1))) continue;
        std::size_t pad = i == n ? padding : 0;
        std::vector<Intrusive_ptr<Tensor>> f;
        for (auto &col : columns) {
            std::vector<std::string> v;
            for (std::size_t k = from; k < i; ++k) v.push_back(col[k].text);
            v.resize(v.size() + pad);
            Size_vector shape{v.size(), 1};
            f.push_back(make_intrusive<Dense_tensor>(shape, wrap_cpu_array<Data_type::string>(std::move(v))));
        }
        auto e = make_intrusive<Example>(schema, std::move(f));
        e->padding = pad;
        a.analyze(*e);
        from = i;
        mc::transition();
    }
    for (std::size_t k = 0; k < columns.size(); ++k) check(stats[k], columns[k], o.columns.count(k) ? o : Options{}, where + " column " + std::to_string(k));
    mc::traces();
    mc::state(mc::hash(where));
    mc::outcome(std::to_string(stats[0].numeric_count) + "," + std::to_string(stats[0].str_num_words) + "," + std::to_string(stats[0].str_captured_unique_values_overflowed));
    if (n > 1) mc::nontrivial();
}

std::string name(const std::vector<Cell> &v)
{
    std::string s;
    for (auto &c : v) s += mc::quote(c.text) + " ";
    return s;
}

}  // namespace

std::vector<mc::Suite> mc::make_suites(Tier tier)
{
    bool th = tier == Tier::thorough;
    on_start([] { mlio::initialize(); });
    std::vector<Suite> out;
    auto add = [&](std::string name, std::string what, std::size_t n, std::size_t block, std::function<void(std::size_t)> run, std::function<std::string(std::size_t)> d) {
        Suite s;
        s.name = name;
        s.what = what;
        s.ncases = n;
        s.block = block;
        s.run = run;
        s.describe = d;
        out.push_back(s);
    };
    auto cells = [](const Words &w, std::size_t i) {
        std::vector<Cell> v;
        for (auto k : w.symbols(i)) v.push_back(alphabet()[k]);
        return v;
    };
    Words w{std::vector<std::string>(alphabet().size()), th ? std::size_t{4} : std::size_t{3}};
    add("C21/columns", "all columns of cells of each class x all ways to batch them x captures", w.count(), 16,
        [=](std::size_t i) {
            auto v = cells(w, i);
            if (v.empty()) return;
            auto rev = v;
            std::reverse(rev.begin(), rev.end());
            for (std::uint64_t cuts = 0; cuts < std::uint64_t{1} << (v.size() - 1); ++cuts)
                for (std::size_t cap = 0; cap < 3; ++cap) {
                    std::size_t pad = (i + cap) % 3;
                    run({v, rev}, cuts, {cap > 0, cap - 1 + i % 2}, pad, name(v) + "cuts " + std::to_string(cuts) + " captures " + std::to_string(cap) + " padding " + std::to_string(pad));
                }
        },
        [=](std::size_t i) { return name(cells(w, i)); });
    // Longer columns of few cells: captures, means.
    Words w2{std::vector<std::string>(4), th ? std::size_t{8} : std::size_t{6}};
    const std::vector<std::size_t> few{0, 3, 4, 2};
    auto cells2 = [=](std::size_t i) {
        std::vector<Cell> v;
        for (auto k : w2.symbols(i)) v.push_back(alphabet()[few[k]]);
        return v;
    };
    add("C21/longer", "longer columns of few cells x all ways to batch them x captures", w2.count(), 16,
        [=](std::size_t i) {
            auto v = cells2(i);
            if (v.empty()) return;
            for (std::uint64_t cuts = 0; cuts < std::uint64_t{1} << (v.size() - 1); ++cuts)
                run({v}, cuts, {true, (i + cuts) % 5}, 0, name(v) + "cuts " + std::to_string(cuts) + " most " + std::to_string((i + cuts) % 5));
        },
        [=](std::size_t i) { return name(cells2(i)); });
    // Many different cells: sketches and the sample behind the median.
    add("C21/many", "columns of many cells", 12, 1,
        [](std::size_t i) {
            std::size_t n = i < 6 ? std::size_t{1} << (2 * i) : 9'999 + (i - 6);
            std::vector<Cell> v;
            for (std::size_t k = 0; k < n; ++k) {
                std::size_t x = k * 7919 % 20011;
                v.push_back({std::to_string(x), true, static_cast<double>(x), false});
            }
            // The sample holds the first ten thousand numbers.
            if (n > 10'000) {
                std::vector<Cell> head{v.begin(), v.begin() + 10'000};
                double m = 0;
                std::vector<double> s;
                for (auto &c : head) s.push_back(c.value);
                std::sort(s.begin(), s.end());
                m = s[5000];
                for (std::size_t k = 10'000; k < n; ++k) v[k] = {std::to_string(static_cast<int>(m)), true, m, false};
                // Keeps the median of the column the one of the sample.
            }
            if (n > 10'000) {
                std::vector<Column_analysis> stats;
                stats.emplace_back("x");
                std::unordered_set<std::size_t> none;
                Column_analyzer a{stats, null_like, none, 0};
                auto schema = make_intrusive<Schema>(std::vector<Attribute>{Attribute{"x", Data_type::string, Size_vector{1, 1}}});
                for (std::size_t from = 0; from < n; from += 1000) {
                    std::vector<std::string> t;
                    for (std::size_t k = from; k < std::min(n, from + 1000); ++k) t.push_back(v[k].text);
                    Size_vector shape{t.size(), 1};
                    std::vector<Intrusive_ptr<Tensor>> f{make_intrusive<Dense_tensor>(shape, wrap_cpu_array<Data_type::string>(std::move(t)))};
                    a.analyze(*make_intrusive<Example>(schema, std::move(f)));
                }
                std::vector<double> s;
                for (std::size_t k = 0; k < 10'000; ++k) s.push_back(v[k].value);
                std::sort(s.begin(), s.end());
                MC_CHECK(stats[0].estimate_median_approx() == s[5000], "wrong median", std::to_string(stats[0].estimate_median_approx()));
                mc::traces();
                mc::state(i);
                return;
            }
            run({v}, 0, {true, 50}, 0, std::to_string(n) + " cells");
            run({v}, 0x5555, {true, 50}, 2, std::to_string(n) + " cells in batches");
        },
        [](std::size_t i) { return std::to_string(i); });
    add("C21/wide", "many columns", 5, 1,
        [](std::size_t i) {
            std::size_t n = std::vector<std::size_t>{127, 255, 257, 300, 1025}[i];
            std::vector<std::vector<Cell>> v(n);
            for (std::size_t k = 0; k < n; ++k)
                for (std::size_t r = 0; r < 4; ++r) {
                    std::size_t x = 10 * k + r * r;
                    v[k].push_back({std::to_string(x), true, static_cast<double>(x), false});
                }
            run(v, 0x5, {true, 3, {0, 126, 254, 255, 256, n - 1}}, 1, std::to_string(n) + " columns");
        },
        [](std::size_t i) { return std::to_string(i); });
    // So many that nearly all registers of the sketch are in use.
    add("C21/more", "columns of more different cells than the sketch counts one by one", th ? 12 : 6, 1,
        [](std::size_t i) {
            std::size_t n = i < 6 ? 140'000 + 40'000 * (i / 2) : 400'000 + 200'000 * (i / 2 - 3);
            std::vector<Cell> v;
            for (std::size_t k = 0; k < n; ++k) v.push_back({"c" + std::to_string(i % 2 ? n - k : k + 1) + " w" + std::to_string(k % (n / 2)), false, 0, false});
            run({v}, 0, {}, 0, std::to_string(n) + " cells");
        },
        [](std::size_t i) { return std::to_string(i); });
    // All rare hashes.
    add("C21/sketch", "cells whose hash leaves the rank open", 8, 1,
        [](std::size_t i) {
            std::vector<Cell> v;
            for (std::size_t k = 0; k <= i; ++k) v.push_back({rare(static_cast<int>(k)), false, 0, false});
            run({v}, 0x15, {}, 0, std::to_string(i));
        },
        [](std::size_t i) { return std::to_string(i + 1) + " cells"; });
    return out;
}
