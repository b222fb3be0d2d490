// C04, C05: text lines and CSV rows against reference grammars, for every
// text up to a length and every way its bytes arrive.
#include "support.h"

#include <mlio/csv_reader.h>
#include <mlio/text_line_reader.h>
#include <mlio/instance.h>
#include <mlio/instance_batch.h>
#include <mlio/tensor.h>
#include <mlio/example.h>

using namespace mlio;
using namespace sup;

namespace mc {
const char *const harness_name = "text";
}

namespace {

// ------------------------------------------------------- reference models

struct Grammar {
    char delim = ',', quote = '"';
    std::optional<char> comment;
    bool multi_line = false, skip_blank = false;
    std::optional<std::size_t> max_line;
    std::string text() const
    {
        std::ostringstream o;
        o << "delimiter " << delim << " quote " << quote << " comment "
          << (comment ? std::string{*comment} : "-") << (multi_line ? " multi-line" : "")
          << (skip_blank ? " skip-blank" : "") << " max_line "
          << (max_line ? std::to_string(*max_line) : "-");
        return o.str();
    }
};

struct Rows {
    std::vector<std::string> rows;
    bool error = false;  // reading fails after the rows
    bool operator==(const Rows &o) const { return rows == o.rows && error == o.error; }
    std::string text() const { return join(rows) + (error ? "+error" : ""); }
};

// One past the terminator of the line at p; `len` receives its length.
std::size_t line_end(const std::string &s, std::size_t p, std::size_t &len)
{
    std::size_t e = s.find_first_of("\r\n", p);
    if (e == std::string::npos) {
        len = s.size() - p;
        return s.size();
    }
    len = e - p;
    return e + (s[e] == '\r' && e + 1 < s.size() && s[e + 1] == '\n' ? 2 : 1);
}

// The same when line breaks within quotes do not end the row. Returns npos
// when the text ends within quotes.
std::size_t quoted_line_end(const std::string &s, std::size_t p, std::size_t &len, const Grammar &g)
{
    bool at_start = true, quoted = false;
    std::size_t i = p;
    while (i < s.size()) {
        char c = s[i];
        if (quoted) {
            if (c == g.quote) {
                if (i + 1 < s.size() && s[i + 1] == g.quote) ++i;
                else quoted = false;
            }
        }
        else if (c == '\n' || c == '\r')
            break;
        else if (c == g.delim) {
            at_start = true;
            ++i;
            continue;
        }
        else if (c == g.quote && at_start)
            quoted = true;
        at_start = false;
        ++i;
    }
    len = i - p;
    if (quoted) return std::string::npos;
    if (i == s.size()) return i;
    return i + (s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n' ? 2 : 1);
}

Rows rows_of(std::string s, const Grammar &g)
{
    Rows r;
    if (s.compare(0, 3, "\xEF\xBB\xBF") == 0) s.erase(0, 3);
    std::size_t p = 0;
    while (p < s.size()) {
        std::size_t len;
        if (g.comment && s[p] == *g.comment) {
            p = line_end(s, p, len);
            continue;
        }
        std::size_t e = g.multi_line ? quoted_line_end(s, p, len, g) : line_end(s, p, len);
        if ((g.max_line && len > *g.max_line) || e == std::string::npos) {
            r.error = true;
            return r;
        }
        if (len != 0 || !g.skip_blank) r.rows.push_back(s.substr(p, len));
        p = e;
    }
    return r;
}

// The fields of a row; false if a quoted field is not terminated.
bool fields_of(const std::string &row, const Grammar &g, std::vector<std::string> &f)
{
    std::size_t i = 0;
    while (true) {
        std::string v;
        if (i < row.size() && row[i] == g.quote) {
            ++i;
            while (true) {
                if (i == row.size()) return false;
                if (row[i] != g.quote) v += row[i++];
                else if (i + 1 < row.size() && row[i + 1] == g.quote) {
                    v += g.quote;
                    i += 2;
                }
                else {
                    ++i;
                    break;
                }
            }
        }
        // Whatever follows up to the delimiter belongs to the field.
        while (i < row.size() && row[i] != g.delim) v += row[i++];
        f.push_back(v);
        if (i == row.size()) return true;
        ++i;
    }
}

// --------------------------------------------------------- the real thing

Csv_params csv(const Grammar &g)
{
    Csv_params p;
    p.header_row_index = {};
    p.delimiter = g.delim;
    p.quote_char = g.quote;
    p.comment_char = g.comment;
    p.allow_quoted_new_lines = g.multi_line;
    p.skip_blank_lines = g.skip_blank;
    p.max_line_length = g.max_line;
    return p;
}

Data_reader_params params(std::vector<Intrusive_ptr<Data_store>> ds, std::size_t batch = 1)
{
    Data_reader_params p;
    p.dataset = std::move(ds);
    p.batch_size = batch;
    p.num_prefetched_examples = 1;
    p.num_parallel_reads = 1;
    return p;
}

// How the records are consumed.
struct Use {
    int keep;   // 0 dropped at once, 1 all kept, 2 every other one kept
    bool peek;
};

template<typename Reader>
Rows read_rows(Reader &reader, const Data_store &st, Use u, std::size_t limit)
{
    Rows r;
    std::vector<std::pair<std::size_t, Record>> kept;
    Intrusive_ptr<Record_reader> rr;
    try {
        rr = static_cast<Parallel_data_reader &>(reader).make_record_reader(st);
        while (true) {
            std::optional<std::string> peeked;
            if (u.peek) {
                auto p = rr->peek_record();
                if (p) peeked = str(p->payload());
                else {
                    MC_CHECK(!rr->peek_record(), "peek changes", "a second peek returns a record");
                    MC_CHECK(!rr->read_record(), "peek and read differ", "read returns a record after peek reported the end");
                    break;
                }
            }
            auto rec = rr->read_record();
            if (!rec) {
                MC_CHECK(!u.peek, "peek and read differ", "read returns no record after peek did");
                MC_CHECK(!rr->read_record(), "record after the end", "a record after the end was reported");
                break;
            }
            r.rows.push_back(str(rec->payload()));
            MC_CHECK(!u.peek || *peeked == r.rows.back(), "peek and read differ",
                     mc::quote(*peeked) + " peeked, " + mc::quote(r.rows.back()) + " read");
            if (u.keep == 1 || (u.keep == 2 && r.rows.size() % 2 == 0)) kept.emplace_back(r.rows.size() - 1, *rec);
            MC_CHECK(r.rows.size() <= limit, "endless records", join(r.rows));
        }
    }
    catch (const Mlio_error &) {
        r.error = true;
    }
    for (auto &k : kept)
        MC_CHECK(str(k.second.payload()) == r.rows[k.first], "record changed after it was read",
                 mc::quote(r.rows[k.first]) + " became " + mc::quote(str(k.second.payload())));
    // Kept records outlive the reader.
    rr = nullptr;
    for (auto &k : kept)
        MC_CHECK(str(k.second.payload()) == r.rows[k.first], "record changed after the reader was dropped",
                 mc::quote(r.rows[k.first]) + " became " + mc::quote(str(k.second.payload())));
    return r;
}

struct Delivery {
    int mode;  // see sup::store
    std::size_t chunk;
    std::uint64_t cuts;
};

std::vector<Delivery> deliveries(std::size_t n, std::size_t max_chunk, std::size_t all_cuts_up_to)
{
    std::vector<Delivery> d;
    d.push_back({0, 4096, 0});
    std::uint64_t all = (std::uint64_t{1} << n) - 1;
    for (std::size_t c = 1; c <= max_chunk; ++c) {
        d.push_back({1, c, all});
        d.push_back({2, c, 0});
        if (c <= 2) d.push_back({3, c, c == 1 ? all & 0x55555555 : all & 0x92492492});
    }
    d.push_back({1, 4096, all & 0x55555555});
    if (n <= all_cuts_up_to)
        for (std::uint64_t m = 0; m <= all; ++m)
            for (std::size_t c : {1u, 3u, 64u}) d.push_back({1, c, m});
    return d;
}

std::string text(const Delivery &d)
{
    return "mode " + std::to_string(d.mode) + " chunk " + std::to_string(d.chunk) + " cuts " + std::to_string(d.cuts);
}

// Decides one text under one grammar.
template<typename Reader>
void decide_rows(Reader &reader, const std::string &s, const Grammar &g, const std::vector<Delivery> &ds)
{
    Rows want = rows_of(s, g);
    std::size_t n = 0;
    for (auto &d : ds) {
        mlio_verif::chunk_size = d.chunk;
        auto st = store(s, d.mode, d.cuts);
        for (Use u : {Use{0, false}, Use{1, false}, Use{2, true}}) {
            Rows got = read_rows(reader, *st, u, s.size() + 2);
            ++n;
            if (!(got == want))
                mc::fail("wrong rows", mc::quote(s) + " with " + g.text() + ", " + text(d) + ", keep " + std::to_string(u.keep) +
                                           ": " + got.text() + " instead of " + want.text());
        }
    }
    mc::traces(n);
    mc::evaluations(n);
    mc::transition(want.rows.size() * n);
    mc::outcome(want.text() + g.text());
    mc::state(mc::hash(s, mc::hash(g.text())));
    if (want.rows.size() > 1) mc::nontrivial(n);
    if (want.rows.size() == 3) mc::sample(mc::quote(s) + " " + g.text() + " -> " + want.text());
}

mc::Suite words_suite(std::string name, std::string what, Words w, std::size_t max_chunk, std::size_t cuts,
                      std::vector<Grammar> gs, bool lines)
{
    mc::Suite s;
    s.name = std::move(name);
    s.what = std::move(what);
    s.ncases = w.count();
    s.block = 16;
    s.run = [=](std::size_t i) {
        std::string t = w.word(i);
        // Letters become distinct, so that no two rows look the same.
        char next = 'a';
        for (auto &c : t)
            if (c == 'x') c = next++;
        auto ds = deliveries(t.size(), max_chunk, cuts);
        auto none = params({store("", 0)});
        if (lines) {
            auto r = make_intrusive<Text_line_reader>(none);
            decide_rows(*r, t, Grammar{}, ds);
        }
        for (auto &g : gs) {
            auto r = make_intrusive<Csv_reader>(none, csv(g));
            decide_rows(*r, t, g, ds);
        }
    };
    s.describe = [=](std::size_t i) { return mc::quote(w.word(i)); };
    return s;
}

// The whole reader, from store to example.
template<typename Make>
std::vector<std::string> run_reader(Make make, bool &error, std::size_t limit, std::size_t column = 0)
{
    std::vector<std::string> got;
    error = false;
    std::vector<std::pair<Intrusive_ptr<Example>, std::size_t>> kept;
    auto reader = make();
    try {
        while (auto ex = reader->read_example()) {
            auto c = cells(*ex->features().at(column));
            kept.emplace_back(ex, got.size());
            got.insert(got.end(), c.begin(), c.end());
            MC_CHECK(got.size() <= limit, "endless examples", join(got));
        }
    }
    catch (const Mlio_error &) {
        error = true;
    }
    reader = nullptr;
    for (auto &k : kept) {
        auto c = cells(*k.first->features().at(column));
        MC_CHECK(std::equal(c.begin(), c.end(), got.begin() + static_cast<std::ptrdiff_t>(k.second)),
                 "example changed after it was read", join(c));
    }
    return got;
}

mc::Suite whole_suite(std::string name, std::string what, Words w, std::vector<std::size_t> chunks)
{
    mc::Suite s;
    s.name = std::move(name);
    s.what = std::move(what);
    s.ncases = w.count();
    s.block = 4;
    s.run = [=](std::size_t i) {
        std::string t = w.word(i);
        char next = 'a';
        for (auto &c : t)
            if (c == 'x') c = next++;
        std::size_t n = 0;
        for (std::size_t cut = 0; cut <= t.size(); ++cut) {
            std::string a = t.substr(0, cut), b = t.substr(cut);
            auto want = rows_of(a, {}).rows, w2 = rows_of(b, {}).rows;
            want.insert(want.end(), w2.begin(), w2.end());
            for (std::size_t chunk : chunks)
                for (int mode : {0, 1, 2, 3}) {
                    if (mode == 0 && chunk != chunks[0]) continue;
                    mlio_verif::chunk_size = chunk;
                    for (std::size_t batch : {1u, 2u}) {
                        bool err;
                        auto got = run_reader(
                            [&] {
                                return make_intrusive<Text_line_reader>(
                                    params({store(a, mode, ~0ull, "a"), store(b, mode, 0, "b")}, batch));
                            },
                            err, t.size() + 3);
                        ++n;
                        MC_CHECK(!err && got == want, "wrong lines",
                                 mc::quote(a) + " | " + mc::quote(b) + " chunk " + std::to_string(chunk) + " mode " +
                                     std::to_string(mode) + " batch " + std::to_string(batch) + ": " + join(got) +
                                     (err ? "+error" : "") + " instead of " + join(want));
                    }
                }
            mc::outcome(join(want));
            mc::state(mc::hash(a + "|" + b));
        }
        mc::traces(n);
        mc::evaluations(n);
        mc::transition(n);
        mc::nontrivial(n);
    };
    s.describe = [=](std::size_t i) { return mc::quote(w.word(i)); };
    return s;
}

// ----------------------------------------------------------- CSV fields

// Every row up to a length, decoded to string columns: with a schema of k
// columns, a row of k fields gives these fields and any other row is bad.
struct Field_grammar {
    Grammar g;
    std::optional<std::size_t> max_field;
};

Intrusive_ptr<Csv_reader> string_reader(const Grammar &g, std::size_t columns, Bad_example_handling bad, std::size_t batch,
                                        std::optional<std::size_t> max_field, Max_field_length_handling mh)
{
    auto p = params({store("", 0)}, batch);
    p.bad_example_handling = bad;
    auto c = csv(g);
    for (std::size_t i = 0; i < columns; ++i) c.column_names.push_back("c" + std::to_string(i));
    c.default_data_type = Data_type::string;
    c.max_field_length = max_field;
    c.max_field_length_handling = mh;
    auto r = make_intrusive<Csv_reader>(p, c);
    MC_CHECK(r->read_schema() != nullptr, "no schema", "no schema");
    return r;
}

void decide_fields(const std::string &row, const Grammar &g, std::optional<std::size_t> max_field)
{
    std::vector<std::string> want;
    bool ok = fields_of(row, g, want);
    static const std::string good_fields[] = {"p", "q", "r", "s", "t", "u", "v", "w", "x"};
    std::size_t n = 0;
    std::size_t k0 = ok ? want.size() : 1;
    for (std::size_t k = k0 > 1 ? k0 - 1 : 1; k <= k0 + 1; ++k)
        for (int mh = 0; mh < (max_field ? 3 : 1); ++mh) {
            // A good row follows and precedes.
            std::string good;
            std::vector<std::string> gf;
            for (std::size_t i = 0; i < k; ++i) {
                good += (i ? std::string{g.delim} : "") + good_fields[i];
                gf.push_back(good_fields[i]);
            }
            bool truncated = false;
            std::vector<std::string> exp = want;
            for (auto &f : exp)
                if (max_field && f.size() > *max_field) {
                    f.resize(*max_field);
                    truncated = true;
                }
            bool fits = ok && exp.size() == k && !(truncated && mh == 0);
            for (int bad = 0; bad < 3; ++bad) {
                auto handling = bad == 0 ? Bad_example_handling::error : bad == 1 ? Bad_example_handling::skip
                                                                                  : Bad_example_handling::pad;
                auto r = string_reader(g, k, handling, 3, max_field, static_cast<Max_field_length_handling>(mh));
                auto st = store("x", 0);
                std::vector<Instance> ins;
                ins.emplace_back(*st, 0, slice(good));
                ins.emplace_back(*st, 1, slice(row));
                ins.emplace_back(*st, 2, slice(good));
                Instance_batch b{0, std::move(ins), 3};
                Intrusive_ptr<Example> ex;
                bool err = false;
                try {
                    ex = static_cast<Parallel_data_reader &>(*r).decode(b);
                }
                catch (const Mlio_error &) {
                    err = true;
                }
                ++n;
                auto where = [&] {
                    return "row " + mc::quote(row) + " with " + g.text() + " as " + std::to_string(k) + " columns, max field " +
                           (max_field ? std::to_string(*max_field) : "-") + " handling " + std::to_string(mh) +
                           " bad handling " + std::to_string(bad) + ", fields " + (ok ? join(want) : "unterminated");
                };
                if (err || ex == nullptr) {
                    MC_CHECK(!fits, "good row treated as bad", where());
                    // An unterminated quote may be an error under every handling.
                    MC_CHECK(!err || bad == 0 || !ok, "bad row is an error despite its handling", where());
                    MC_CHECK(err || bad == 1, "example skipped despite the handling", where());
                    continue;
                }
                if (!fits) MC_CHECK(bad == 2, "bad row accepted", where());
                std::size_t rows = fits ? 3 : 2;
                MC_CHECK(ex->padding == 3 - rows, "wrong padding", where());
                MC_CHECK(ex->features().size() == k, "wrong number of columns", where());
                for (std::size_t c = 0; c < k; ++c) {
                    std::vector<std::string> col{gf[c]};
                    if (fits) col.push_back(exp[c]);
                    col.push_back(gf[c]);
                    auto got = cells(*ex->features()[c]);
                    got.resize(rows);
                    MC_CHECK(got == col, "wrong fields", where() + ": column " + std::to_string(c) + " is " + join(got));
                }
            }
        }
    mc::traces(n);
    mc::evaluations(n);
    mc::transition(n);
    mc::outcome(join(want) + (ok ? "" : "!"));
    mc::state(mc::hash(row, mc::hash(g.text())));
    if (want.size() > 1) mc::nontrivial(n);
    if (want.size() == 3 && row.size() > 5) mc::sample(mc::quote(row) + " -> " + join(want));
}

mc::Suite fields_suite(std::string name, std::string what, Words w, std::vector<Field_grammar> gs)
{
    mc::Suite s;
    s.name = std::move(name);
    s.what = std::move(what);
    s.ncases = w.count();
    s.block = 8;
    s.run = [=](std::size_t i) {
        std::string t = w.word(i);
        char next = 'a';
        for (auto &c : t)
            if (c == 'x') c = next++;
        for (auto &f : gs) decide_fields(t, f.g, f.max_field);
    };
    s.describe = [=](std::size_t i) { return mc::quote(w.word(i)); };
    return s;
}

// Whole CSV texts through the whole reader: every row a reader delivers is
// the row of the grammar; the first row determines the columns.
void decide_whole_csv(const std::string &t, const Grammar &g, std::size_t chunk, int mode)
{
    mlio_verif::chunk_size = chunk;
    Rows rows = rows_of(t, g);
    std::vector<std::vector<std::string>> want;
    bool error = rows.error, schema_error = false;
    std::size_t k = 0;
    for (auto &r : rows.rows) {
        std::vector<std::string> f;
        bool ok = fields_of(r, g, f);
        if (want.empty() && k == 0) {
            if (!ok) {
                schema_error = true;
                break;
            }
            k = f.size();
        }
        if (!ok || f.size() != k) {
            error = true;
            break;
        }
        want.push_back(f);
    }
    if (rows.rows.empty() && rows.error) schema_error = true;
    auto c = csv(g);
    c.default_data_type = Data_type::string;
    std::vector<std::vector<std::string>> got;
    bool err = false;
    auto where = [&] { return mc::quote(t) + " with " + g.text() + " chunk " + std::to_string(chunk) + " mode " + std::to_string(mode); };
    auto reader = make_intrusive<Csv_reader>(params({store(t, mode, 0x5555)}), c);
    try {
        while (auto ex = reader->read_example()) {
            std::vector<std::string> row;
            for (auto &f : ex->features()) row.push_back(cells(*f).at(0));
            got.push_back(row);
            MC_CHECK(got.size() <= t.size() + 1, "endless examples", where());
        }
    }
    catch (const Mlio_error &) {
        err = true;
    }
    if (schema_error) {
        MC_CHECK(err && got.empty(), "malformed first row accepted", where());
        return;
    }
    // Batches already fetched when an error strikes need not be delivered.
    bool prefix = got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin());
    MC_CHECK(prefix, "wrong rows", where() + ": got " + std::to_string(got.size()) + " rows, the last " + (got.empty() ? "-" : join(got.back())) +
                                       ", expected " + rows.text());
    MC_CHECK(err == error, error ? "malformed text accepted" : "good text rejected", where() + ": expected " + rows.text());
    MC_CHECK(error || got.size() == want.size(), "rows missing", where() + ": expected " + rows.text());
    mc::outcome(rows.text());
}

mc::Suite whole_csv_suite(std::string name, std::string what, Words w, std::vector<Grammar> gs)
{
    mc::Suite s;
    s.name = std::move(name);
    s.what = std::move(what);
    s.ncases = w.count();
    s.block = 4;
    s.run = [=](std::size_t i) {
        std::string t = w.word(i);
        char next = 'a';
        for (auto &c : t)
            if (c == 'x') c = next++;
        std::size_t n = 0;
        for (auto &g : gs) {
            decide_whole_csv(t, g, 4096, 0);
            decide_whole_csv(t, g, 1, 1);
            decide_whole_csv(t, g, 3, 2);
            n += 3;
            mc::state(mc::hash(t, mc::hash(g.text())));
        }
        mc::traces(n);
        mc::evaluations(n);
        mc::transition(n);
        mc::nontrivial(n);
    };
    s.describe = [=](std::size_t i) { return mc::quote(w.word(i)); };
    return s;
}

// Long rows, many rows, long fields: sizes around the limits of small types.
const std::size_t long_sizes[] = {127, 128, 255, 256, 257, 300, 32769, 65535, 65536, 65537};

std::string letters(std::size_t n, std::size_t salt)
{
    std::string s(n, 'a');
    for (std::size_t i = 0; i < n; ++i) s[i] = static_cast<char>('a' + (i + i / 26 + i / 256 + salt) % 26);
    return s;
}

std::vector<Delivery> long_deliveries(std::size_t n)
{
    std::vector<Delivery> d{{0, 4096, 0}, {1, 33'554'432, 0}, {2, 4096, 0}, {1, 256, 0x5555}, {2, 65536, 0}, {3, 4096, 0x24924924}};
    if (n < 2000)
        for (std::size_t c : {1u, 7u, 255u, 257u}) d.push_back({1, c, 0x24924924});
    return d;
}

mc::Suite long_lines_suite()
{
    mc::Suite s;
    s.name = "C04/long";
    s.what = "long lines, many lines and many blank lines, with and without a maximum length";
    s.ncases = std::size(long_sizes) * 6;
    s.block = 1;
    s.run = [](std::size_t i) {
        std::size_t n = long_sizes[i / 6];
        std::string eol = i % 2 ? "\r\n" : "\n", t;
        switch (i / 2 % 3) {
        case 0: t = "x" + eol + letters(n, 1) + eol + letters(n + 1, 2) + eol + "y"; break;
        case 1:
            for (std::size_t k = 0; k < n; ++k) t += static_cast<char>('a' + k % 26) + eol;
            break;
        case 2:
            t = "x" + eol;
            for (std::size_t k = 0; k < n; ++k) t += eol;
            t += "y" + eol;
            break;
        }
        auto none = params({store("", 0)});
        auto ds = long_deliveries(t.size());
        if (i / 2 % 3 == 1 && t.size() > 4096) ds.resize(3);  // many records
        auto lines = make_intrusive<Text_line_reader>(none);
        decide_rows(*lines, t, Grammar{}, ds);
        for (bool sb : {false, true})
            for (std::size_t m : {std::size_t{0}, n - 1, n, n + 1}) {
                Grammar g;
                g.skip_blank = sb;
                g.quote = '\1';
                if (m) g.max_line = m;
                if (i / 2 % 3 && m) continue;
                auto r = make_intrusive<Csv_reader>(none, csv(g));
                decide_rows(*r, t, g, ds);
            }
    };
    s.describe = [](std::size_t i) { return std::to_string(long_sizes[i / 6]) + " kind " + std::to_string(i % 6); };
    return s;
}

mc::Suite long_csv_suite()
{
    mc::Suite s;
    s.name = "C05/long";
    s.what = "long fields, long comments, many quotes, line breaks and fields";
    s.ncases = std::size(long_sizes) * 6;
    s.block = 1;
    s.run = [](std::size_t i) {
        std::size_t n = long_sizes[i / 6];
        std::string a;
        Grammar g;
        g.comment = '#';
        switch (i % 6) {
        case 0: a = letters(n, 3) + "," + letters(n + 1, 4); break;
        case 1: a = "\"" + letters(n, 3) + "\"\",\"," + letters(n + 1, 4); break;
        case 2:
            for (std::size_t k = 0; k < n; ++k) a += "\"\"";
            a = "\"" + a + "\",z";
            break;
        case 3:
            g.multi_line = true;
            for (std::size_t k = 0; k < n; ++k) a += k % 3 ? "\n" : "\r\n";
            a = "\"" + a + "\",z";
            break;
        case 4: a = "x,y\n#" + letters(n, 3) + "\nu,v"; break;
        case 5:
            if (n > 300) return;  // see C06/wide
            for (std::size_t k = 0; k < n; ++k) a += (k ? "," : "") + letters(1 + k % 2, k);
            break;
        }
        std::string t = a + "\n" + a + "\n" + (i % 6 == 5 ? "" : "p,q\n");
        auto none = params({store("", 0)});
        auto r = make_intrusive<Csv_reader>(none, csv(g));
        decide_rows(*r, t, g, long_deliveries(t.size()));
        decide_whole_csv(t, g, 4096, 0);
        decide_whole_csv(t, g, 256, 1);
        decide_whole_csv(t, g, 33'554'432, 2);
        if (i % 6 < 3)
            for (std::size_t m : {n - 1, n, n + 1}) decide_fields(a, g, m);
    };
    s.describe = [](std::size_t i) { return std::to_string(long_sizes[i / 6]) + " kind " + std::to_string(i % 6); };
    return s;
}

}  // namespace

std::vector<mc::Suite> mc::make_suites(Tier tier)
{
    bool th = tier == Tier::thorough;
    std::vector<Suite> r;
    on_start([] { mlio::initialize(); });
    std::size_t dl = th ? 1 : 0;

    // ---- C04
    {
        std::vector<Grammar> gs;
        for (bool sb : {false, true})
            for (int m = -1; m < 4; ++m) {
                Grammar g;
                g.skip_blank = sb;
                if (m >= 0) g.max_line = static_cast<std::size_t>(m);
                g.quote = '\1';
                gs.push_back(g);
            }
        r.push_back(words_suite("C04/lines", "every text over {letter, CR, LF}, every arrival",
                                Words{{"x", "\n", "\r"}, 6 + 2 * dl}, 8, 5, gs, true));
        std::vector<Grammar> two{gs[0], gs[5]};
        r.push_back(words_suite("C04/bom", "byte order marks anywhere in the text",
                                Words{{"\xEF\xBB\xBF", "x", "\n", "\r"}, 4 + dl}, 9, 0, two, true));
        r.push_back(words_suite("C04/bytes", "arbitrary bytes, parts of a byte order mark",
                                Words{{"\xEF", "\xBB", "\xBF", "\n", std::string(1, '\0')}, 5 + dl}, 5, 0, two, true));
        r.push_back(whole_suite("C04/reader", "the whole reader on two stores", Words{{"x", "\n", "\r"}, 4 + dl}, {1, 2, 3, 64}));
        r.push_back(long_lines_suite());
    }
    // ---- C05
    {
        std::vector<Grammar> gs;
        for (bool ml : {true, false})
            for (bool sb : {false, true})
                for (int c : {0, 1}) {
                    Grammar g;
                    g.multi_line = ml;
                    g.skip_blank = sb;
                    if (c) g.comment = '#';
                    gs.push_back(g);
                }
        std::vector<Grammar> lim;
        for (std::size_t m = 0; m < 6; ++m) {
            Grammar g;
            g.multi_line = true;
            g.max_line = m;
            lim.push_back(g);
            g.skip_blank = true;
            g.comment = '#';
            lim.push_back(g);
        }
        std::vector<Grammar> other;
        {
            Grammar g;
            g.delim = ';';
            g.quote = '\'';
            g.comment = '%';
            g.multi_line = true;
            other.push_back(g);
            g.delim = '\t';
            g.quote = ',';
            other.push_back(g);
        }
        r.push_back(words_suite("C05/rows", "row boundaries of every text over {letter, delimiter, quote, CR, LF}",
                                Words{{"x", ",", "\"", "\n", "\r"}, 5 + dl}, 4, 3, gs, false));
        r.push_back(words_suite("C05/comments", "with comment characters", Words{{"x", "#", "\"", "\n", "\r", ","}, 5}, th ? 4 : 2, 0, gs, false));
        r.push_back(words_suite("C05/limits", "with a maximum row length", Words{{"x", "\"", "\n", "\r"}, 5 + dl}, 3, 0, lim, false));
        r.push_back(words_suite("C05/dialects", "other delimiters and quotes",
                                Words{{"x", ";", "'", "\n", "%", "\t", ","}, 4 + dl}, 3, 0, other, false));
        std::vector<Field_grammar> fg{{Grammar{}, {}}};
        r.push_back(fields_suite("C05/fields", "fields of every row over {letter, delimiter, quote}", Words{{"x", ",", "\""}, 7 + dl}, fg));
        Grammar ml;
        ml.multi_line = true;
        std::vector<Field_grammar> fm{{ml, {}}, {other[0], {}}};
        r.push_back(fields_suite("C05/fields-any", "with line breaks, spaces and another dialect",
                                 Words{{"x", ",", "\"", "\n", ";", "'", " "}, 4 + dl}, fm));
        std::vector<Field_grammar> fl{{Grammar{}, 1}, {Grammar{}, 2}, {Grammar{}, 3}};
        r.push_back(fields_suite("C05/field-limits", "with a maximum field length", Words{{"x", ",", "\""}, 6 + dl}, fl));
        r.push_back(whole_csv_suite("C05/reader", "the whole reader", Words{{"x", ",", "\"", "\n", "\r"}, 4 + dl}, gs));
        r.push_back(long_csv_suite());
    }
    return r;
}
