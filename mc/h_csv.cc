// C06: columns, names, types and selection of CSV datasets, for every
// combination of the parameters.
#include "support.h"

#include <mlio/csv_reader.h>
#include <mlio/schema.h>
#include <mlio/tensor.h>
#include <mlio/example.h>

#include <map>
#include <set>

using namespace mlio;
using namespace sup;

namespace mc {
const char *const harness_name = "csv";
}

namespace {

enum Source { header0, header1, explicit_only, explicit_header0, explicit_header1, ordinal, n_sources };

struct Config {
    std::vector<std::string> names;  // of the file or explicit
    Source source = header0;
    bool prefix = false, dedupe = true, single = false;
    int by_name = 0, by_index = 0;          // selections
    int def = 0, type_name = 0, type_index = 0;  // types
    int stores = 2;
    int shape = 0;  // 1 no data rows, 2, 4 a header with another number of columns, 3 a first store without data
    bool inferred_mix = false;
    std::string text() const
    {
        std::ostringstream o;
        o << "names=" << join(names) << " source=" << source << " prefix=" << prefix << " dedupe=" << dedupe
          << " single=" << single << " use_columns=" << by_name << " use_columns_by_index=" << by_index
          << " default_type=" << def << " column_types=" << type_name << " column_types_by_index=" << type_index
          << " stores=" << stores << " shape=" << shape << " mix=" << inferred_mix;
        return o.str();
    }
    bool has_header() const { return source != explicit_only && source != ordinal; }
    std::size_t header_row() const { return source == header1 || source == explicit_header1 ? 1 : 0; }
    bool is_explicit() const { return source == explicit_only || source == explicit_header0 || source == explicit_header1; }
};

struct Model {
    bool error = false;
    bool no_schema = false;
    struct Column {
        std::string original;
        Data_type type;
        bool any_type = false;  // of duplicates of an overridden name
        Data_type other_type;
        std::size_t index;
    };
    std::vector<Column> columns;              // delivered
    std::vector<std::vector<std::string>> rows;  // delivered cells
};

std::string cell(std::size_t store, std::size_t row, std::size_t col, bool mix)
{
    // Every cell is different, and representable in every type.
    std::size_t v = 1 + col + 3 * (row + 4 * store);
    if (mix) {
        if (col == 0) return std::to_string(v) + ".5";
        if (col == 2) return "t" + std::to_string(v);
    }
    return std::to_string(v);
}

struct Dataset {
    std::vector<std::string> texts;
    std::vector<std::vector<std::string>> rows;  // data rows of all stores
};

Dataset make_dataset(const Config &c)
{
    Dataset d;
    std::size_t cols = 3;
    for (int s = 0; s < c.stores; ++s) {
        std::string t;
        if (c.has_header() && (s == 0 || !c.single)) {
            for (std::size_t i = 0; i < c.header_row(); ++i) t += "ignored,line\n";
            std::size_t hc = c.shape == 2 ? cols + 1 : c.shape == 4 ? 2 * cols : cols;
            for (std::size_t k = 0; k < hc; ++k)
                t += (k ? "," : "") + (k < c.names.size() ? (c.is_explicit() ? "h" : c.names[k]) : "extra" + std::to_string(k));
            t += "\n";
        }
        std::size_t nrows = c.shape == 1 ? 0 : c.shape == 3 && s == 0 ? 0 : 2;
        for (std::size_t r = 0; r < nrows; ++r) {
            std::vector<std::string> row;
            for (std::size_t k = 0; k < cols; ++k) {
                row.push_back(cell(static_cast<std::size_t>(s), r, k, c.inferred_mix));
                t += (k ? "," : "") + row.back();
            }
            t += "\n";
            d.rows.push_back(row);
        }
        d.texts.push_back(t);
    }
    return d;
}

std::string prefix_of(const Config &c) { return c.prefix ? "p_" : ""; }

// The names the columns are known by before they are de-duplicated.
std::vector<std::string> known_names(const Config &c)
{
    if (c.is_explicit()) return c.names;
    std::vector<std::string> r;
    for (std::size_t k = 0; k < 3; ++k)
        r.push_back(prefix_of(c) + (c.source == ordinal ? std::to_string(k + 1) : c.names[k]));
    return r;
}

void selections(const Config &c, Csv_params &p)
{
    auto n = known_names(c);
    switch (c.by_name) {
    case 1: p.use_columns = {n[0]}; break;
    case 2: p.use_columns = {n[1], n[2]}; break;
    case 3: p.use_columns = {n[0], n[1], n[2]}; break;
    case 4: p.use_columns = {n[2], "missing"}; break;
    }
    switch (c.by_index) {
    case 1: p.use_columns_by_index = {0}; break;
    case 2: p.use_columns_by_index = {1, 2}; break;
    case 3: p.use_columns_by_index = {0, 2, 9}; break;
    }
    switch (c.def) {
    case 1: p.default_data_type = Data_type::float32; break;
    case 2: p.default_data_type = Data_type::string; break;
    }
    switch (c.type_index) {
    case 1: p.column_types_by_index = {{1, Data_type::int8}}; break;
    case 2: p.column_types_by_index = {{0, Data_type::int16}, {2, Data_type::uint16}}; break;
    case 3: p.column_types_by_index = {{3, Data_type::int16}}; break;
    }
    switch (c.type_name) {
    case 1: p.column_types = {{n[1], Data_type::uint64}}; break;
    case 2: p.column_types = {{n[2], Data_type::uint8}, {n[0], Data_type::int32}}; break;
    case 3: p.column_types = {{"missing", Data_type::int32}}; break;
    }
}

Model model(const Config &c, const Dataset &d, const Csv_params &p)
{
    Model m;
    auto names = known_names(c);
    if (c.shape == 2 && c.source <= header1) names.push_back(prefix_of(c) + "extra3");
    if (c.shape == 4 && c.source <= header1)
        for (int k = 3; k < 6; ++k) names.push_back(prefix_of(c) + "extra" + std::to_string(k));
    bool has_data = !d.rows.empty();
    if (!has_data && c.source == ordinal) {
        m.no_schema = true;
        return m;
    }
    if (has_data && names.size() != 3) {
        m.error = true;
        return m;
    }
    std::vector<Model::Column> cols;
    for (std::size_t k = 0; k < names.size(); ++k) {
        Model::Column col;
        col.original = names[k];
        col.index = k;
        if (p.default_data_type) col.type = *p.default_data_type;
        else if (!has_data) col.type = Data_type::string;
        else {
            auto &v = d.rows[0][k];
            col.type = v[0] == 't' ? Data_type::string : v.find('.') != std::string::npos ? Data_type::float64 : Data_type::int64;
        }
        auto i = p.column_types_by_index.find(k);
        if (i != p.column_types_by_index.end()) col.type = i->second;
        auto n = p.column_types.find(names[k]);
        if (n != p.column_types.end()) {
            bool first = std::find(names.begin(), names.end(), names[k]) - names.begin() == static_cast<std::ptrdiff_t>(k);
            if (!first) {
                // Which of several columns of the same name an override
                // applies to besides the first is unspecified.
                col.any_type = true;
                col.other_type = col.type;
            }
            col.type = n->second;
        }
        cols.push_back(col);
    }
    for (auto &kv : p.column_types_by_index)
        if (kv.first >= names.size()) m.error = true;
    for (auto &kv : p.column_types)
        if (std::find(names.begin(), names.end(), kv.first) == names.end()) m.error = true;
    std::set<std::string> seen;
    for (auto &col : cols) {
        if (!p.use_columns_by_index.empty() && !p.use_columns_by_index.count(col.index)) continue;
        if (!p.use_columns.empty() && !p.use_columns.count(col.original)) continue;
        if (!p.dedupe_column_names && !seen.insert(col.original).second) m.error = true;
        m.columns.push_back(col);
    }
    for (auto &r : d.rows) {
        std::vector<std::string> out;
        for (auto &col : m.columns) out.push_back(r[col.index]);
        m.rows.push_back(out);
    }
    return m;
}

void run(const Config &c)
{
    Dataset d = make_dataset(c);
    Csv_params p;
    p.header_row_index = c.has_header() ? std::optional<std::size_t>{c.header_row()} : std::nullopt;
    p.has_single_header = c.single;
    p.dedupe_column_names = c.dedupe;
    if (c.is_explicit()) p.column_names = c.names;
    p.name_prefix = prefix_of(c);
    selections(c, p);
    Model m = model(c, d, p);
    Data_reader_params rp;
    for (std::size_t s = 0; s < d.texts.size(); ++s)
        rp.dataset.push_back(store(d.texts[s], 1, 0, "s" + std::to_string(s)));
    rp.batch_size = 1;
    rp.num_prefetched_examples = 1;
    auto reader = make_intrusive<Csv_reader>(rp, p);
    // Errors persist; repeated.
    auto schema = [&](const char *when) -> Intrusive_ptr<const Schema> {
        try {
            auto s = reader->read_schema();
            MC_CHECK(!m.error, "inconsistent configuration accepted", std::string{when} + ": " + (s ? s->repr() : "null"));
            return s;
        }
        catch (const std::exception &e) {
            MC_CHECK(m.error, "configuration rejected", std::string{when} + ": " + e.what());
            return {};
        }
    };
    auto check_schema = [&](const Schema *s) {
        auto &a = s->attributes();
        MC_CHECK(a.size() == m.columns.size(), "wrong number of columns", s->repr());
        std::set<std::string> all, unique;
        for (auto &col : m.columns) all.insert(col.original);
        std::map<std::string, int> count;
        for (std::size_t k = 0; k < a.size(); ++k) {
            auto &col = m.columns[k];
            auto dt = a[k].data_type();
            MC_CHECK(dt == col.type || (col.any_type && dt == col.other_type), "wrong data type",
                     "column " + std::to_string(k) + " of " + s->repr());
            MC_CHECK((a[k].shape() == Size_vector{1, 1}), "wrong shape", s->repr());
            MC_CHECK(unique.insert(a[k].name()).second, "duplicate name", s->repr());
            int n = count[col.original]++;
            if (n == 0) {
                // The name may have been taken by a renamed column.
                bool taken = false;
                for (std::size_t j = 0; j < k; ++j) taken |= a[j].name() == col.original;
                if (!taken) MC_CHECK(a[k].name() == col.original, "wrong name", s->repr());
                else MC_CHECK(a[k].name().rfind(col.original + "_", 0) == 0, "wrong name", s->repr());
            }
            else {
                std::string want = col.original + "_" + std::to_string(n);
                bool clash = false;
                for (auto &o : all) clash |= o.rfind(col.original + "_", 0) == 0;
                if (!clash) MC_CHECK(a[k].name() == want, "wrong name", s->repr() + ": expected " + want);
                else MC_CHECK(a[k].name().rfind(col.original + "_", 0) == 0, "wrong name", s->repr());
            }
            MC_CHECK(s->get_index(a[k].name()) == std::optional<std::size_t>{k}, "wrong index", s->repr());
        }
    };
    for (int epoch = 0; epoch < 2; ++epoch) {
        auto s = schema("first");
        auto s2 = schema("again");
        if (m.error) {
            bool err = false;
            try {
                auto ex = reader->read_example();
                (void)ex;
            }
            catch (const std::exception &) {
                err = true;
            }
            MC_CHECK(err, "inconsistent configuration accepted", "by read_example");
        }
        else {
            MC_CHECK((s == nullptr) == m.no_schema, "wrong schema", "null or not");
            if (s) {
                check_schema(s.get());
                MC_CHECK(*s == *s2, "schema changes", s->repr() + " then " + s2->repr());
            }
            std::size_t n = 0;
            while (true) {
                Intrusive_ptr<Example> ex;
                try {
                    ex = reader->read_example();
                }
                catch (const std::exception &e) {
                    mc::fail("unexpected error", e.what());
                }
                if (!ex) break;
                MC_CHECK(n < m.rows.size(), "too many rows", "row " + std::to_string(n));
                MC_CHECK(ex->features().size() == m.columns.size(), "wrong number of features", "");
                std::vector<std::string> got;
                for (auto &f : ex->features()) got.push_back(cells(*f).at(0));
                MC_CHECK(got == m.rows[n], "wrong values", join(got) + " instead of " + join(m.rows[n]) + " in epoch " + std::to_string(epoch));
                ++n;
            }
            MC_CHECK(n == m.rows.size(), "rows missing", std::to_string(n) + " of " + std::to_string(m.rows.size()));
        }
        reader->reset();
    }
    mc::traces();
    mc::transition(2 * (m.rows.size() + 2));
    mc::outcome(m.error ? "error" : c.text());
    mc::state(mc::hash(c.text()));
    if (!m.error) mc::nontrivial();
    mc::sample(c.text());
}

// ------------------------------------------------- where the header row is

// Stores of header rows, header rows that are not valid CSV, and data rows.
struct Layout {
    std::vector<std::string> stores;  // each a sequence of H, C and D
    bool single, is_explicit;
    std::optional<std::size_t> header;
    std::string text() const
    {
        return "stores " + join(stores) + (single ? " single" : "") + (is_explicit ? " explicit" : "") + " header "
            + (header ? std::to_string(*header) : "none");
    }
};

void run_layout(const Layout &l)
{
    // The header is the row of the given index in every store, or in the
    // first store that has such a row.
    std::vector<std::string> names;
    if (l.is_explicit) names = {"e", "f"};
    std::string events;  // rows as D, H and C; E for an error
    bool pending = true;
    for (auto &st : l.stores) {
        std::size_t k = 0;
        if (l.header && (names.empty() || pending || !l.single)) {
            k = *l.header;
            if (k < st.size()) {
                if (names.empty()) {
                    if (st[k] == 'C') {
                        events += 'E';
                        break;
                    }
                    if (st[k] == 'D') names = {"1", "2"};
                    else names = {"x", "y"};
                }
                pending = false;
                ++k;
            }
        }
        for (; k < st.size(); ++k) events += st[k];
    }
    if (names.empty() && events.size() && events[0] != 'E') names = {"1", "2"};
    auto has_schema = names.size() && (events.empty() || events[0] == 'H' || events[0] == 'D');
    bool schema_error = events.size() && (events[0] == 'E' || events[0] == 'C');
    Csv_params p;
    p.header_row_index = l.header;
    p.has_single_header = l.single;
    if (l.is_explicit) p.column_names = names;
    p.default_data_type = Data_type::string;
    Data_reader_params rp;
    for (std::size_t k = 0; k < l.stores.size(); ++k) {
        std::string t;
        for (char ch : l.stores[k]) t += ch == 'H' ? "x,y\n" : ch == 'C' ? "x,\"y\n" : "1,2\n";
        rp.dataset.push_back(store(t, 1, 0, "s" + std::to_string(k)));
    }
    rp.batch_size = 1;
    rp.num_prefetched_examples = 1;
    auto reader = make_intrusive<Csv_reader>(rp, p);
    // All ways to use the reader three times: the schema first, or only some
    // of the rows.
    for (int epoch = 0; epoch < 3; ++epoch) {
        int how = epoch == 2 ? 1 : mc::choose(3, 0);
        if (how == 0) {
            bool error = false;
            Intrusive_ptr<const Schema> s;
            try {
                s = reader->read_schema();
            }
            catch (const std::exception &) {
                error = true;
            }
            MC_CHECK(error == schema_error, "wrong schema error", events);
            MC_CHECK((s != nullptr) == has_schema, "wrong schema", s ? s->repr() : "null");
            if (s) {
                std::vector<std::string> got;
                for (auto &a : s->attributes()) got.push_back(a.name());
                MC_CHECK(got == names, "wrong names", join(got) + " instead of " + join(names));
            }
        }
        std::size_t n = how == 2 ? std::min<std::size_t>(events.size(), 1) : events.size() + 1;
        for (std::size_t k = 0; k < n; ++k) {
            char want = k < events.size() ? events[k] : '-';
            Intrusive_ptr<Example> ex;
            bool error = false;
            std::string msg;
            try {
                ex = reader->read_example();
            }
            catch (const std::exception &e) {
                error = true;
                msg = e.what();
            }
            auto at = [&] { return events + " at " + std::to_string(k) + " in epoch " + std::to_string(epoch) + ": " + msg; };
            MC_CHECK(error == (want == 'C' || want == 'E'), "wrong error", at());
            mc::transition();
            if (error) break;
            MC_CHECK((ex == nullptr) == (want == '-'), "wrong number of rows", at());
            if (!ex) break;
            std::vector<std::string> got;
            for (auto &f : ex->features()) got.push_back(cells(*f).at(0));
            MC_CHECK(got == (want == 'H' ? std::vector<std::string>{"x", "y"} : std::vector<std::string>{"1", "2"}), "wrong values", join(got) + " " + at());
        }
        reader->reset();
    }
    mc::traces();
    mc::outcome(events + join(names));
    mc::state(mc::hash(l.text()));
    if (events.size()) mc::nontrivial();
    mc::sample(l.text());
}

// ------------------------------------------------------- names of columns

// A header row of the given names and a row of numbers below it.
void run_names(const std::vector<std::string> &header, const std::string &prefix, bool blank)
{
    std::string t, row;
    for (std::size_t k = 0; k < header.size(); ++k) t += (k ? "," : "") + header[k];
    t += "\n";
    if (header.size() == 1 && header[0].empty() && !blank) t = "\"\"\n";
    for (std::size_t k = 0; k < header.size(); ++k) row += (k ? "," : "") + std::to_string(k);
    t += row + "\n";
    Csv_params p;
    p.name_prefix = prefix;
    p.skip_blank_lines = false;
    p.dedupe_column_names = true;
    Data_reader_params rp;
    rp.dataset = {store(t, 1, 0, "s"), store(t, 1, 0, "t")};
    rp.batch_size = 1;
    rp.num_prefetched_examples = 1;
    auto reader = make_intrusive<Csv_reader>(rp, p);
    for (int epoch = 0; epoch < 2; ++epoch) {
        auto s = reader->read_schema();
        MC_CHECK(s && s->attributes().size() == header.size(), "wrong number of columns", s ? s->repr() : "null");
        std::set<std::string> unique, all;
        std::map<std::string, int> count;
        for (auto &h : header) all.insert(prefix + h);
        for (std::size_t k = 0; k < header.size(); ++k) {
            std::string name = prefix + header[k], got = s->attributes()[k].name();
            MC_CHECK(unique.insert(got).second, "duplicate name", s->repr());
            int n = count[name]++;
            bool clash = false;  // with a name that is like that of a duplicate
            for (auto &o : all) clash |= o != name && (o.rfind(name + "_", 0) == 0 || name.rfind(o + "_", 0) == 0);
            if (!clash) MC_CHECK(got == (n ? name + "_" + std::to_string(n) : name), "wrong name", s->repr());
            else MC_CHECK(got == name || got.rfind(name + "_", 0) == 0, "wrong name", s->repr());
            mc::transition();
        }
        for (int r = 0; r < 2; ++r) {
            auto ex = reader->read_example();
            MC_CHECK(ex && ex->features().size() == header.size(), "wrong number of rows", "");
            for (std::size_t k = 0; k < header.size(); ++k)
                MC_CHECK(cells(*ex->features()[k]).at(0) == std::to_string(k), "wrong values", "column " + std::to_string(k));
        }
        MC_CHECK(!reader->read_example(), "wrong number of rows", "");
        reader->reset();
    }
    mc::traces();
    mc::outcome(join(header) + prefix);
    mc::state(mc::hash(join(header) + "|" + prefix));
    if (header.size() > 1) mc::nontrivial();
}

// ------------------------------------------- values of unselected columns

// Three columns, each holding in the middle one of three rows a good value, a
// field that is no number, or one that is too long; any of them selected.
struct Values {
    int kind[3];  // 0 good, 1 no number, 2 too long
    unsigned selected;
    bool by_index;
    Max_field_length_handling handling;
    std::string text() const
    {
        std::string r = "values";
        for (int k : kind) r += k == 0 ? " good" : k == 1 ? " text" : " long";
        return r + " selected " + std::to_string(selected) + (by_index ? " by index" : " by name") + " handling " + std::to_string(static_cast<int>(handling));
    }
};

void run_values(const Values &v)
{
    std::string t = "a,b,c\n";
    bool bad = false;
    std::vector<std::string> middle;
    for (int r = 0; r < 3; ++r)
        for (int k = 0; k < 3; ++k) {
            int kind = r == 1 ? v.kind[k] : 0;
            std::string x = kind == 0 ? std::to_string(10 * r + k) : kind == 1 ? "x" : "123456";
            t += x + (k < 2 ? "," : "\n");
            if (r == 1 && (v.selected >> k & 1)) {
                if (kind == 2 && v.handling != Max_field_length_handling::treat_as_bad) x = "1234";
                middle.push_back(x);
                bad |= kind == 1 || (kind == 2 && v.handling == Max_field_length_handling::treat_as_bad);
            }
        }
    Csv_params p;
    p.default_data_type = Data_type::int32;
    p.max_field_length = 4;
    p.max_field_length_handling = v.handling;
    for (std::size_t k = 0; k < 3; ++k)
        if (v.selected >> k & 1) {
            if (v.by_index) p.use_columns_by_index.insert(k);
            else p.use_columns.insert(std::string(1, static_cast<char>('a' + k)));
        }
    Data_reader_params rp;
    rp.dataset = {store(t, 1, 0, "s")};
    rp.batch_size = 1;
    rp.num_prefetched_examples = 1;
    rp.bad_example_handling = Bad_example_handling::skip;
    auto reader = make_intrusive<Csv_reader>(rp, p);
    for (int r = 0; r < 3; ++r) {
        if (r == 1 && bad) continue;
        auto ex = reader->read_example();
        MC_CHECK(ex, "rows missing", v.text());
        std::vector<std::string> got, want;
        for (auto &f : ex->features()) got.push_back(cells(*f).at(0));
        for (int k = 0; k < 3; ++k)
            if (v.selected >> k & 1) want.push_back(std::to_string(10 * r + k));
        if (r == 1) want = middle;
        MC_CHECK(got == want, "wrong values", join(got) + " instead of " + join(want));
        mc::transition();
    }
    MC_CHECK(!reader->read_example(), "too many rows", v.text());
    mc::traces();
    mc::outcome(v.text());
    mc::state(mc::hash(v.text()));
    if (bad) mc::nontrivial();
}

// --------------------------------------------------------- many columns

// Rows of so many columns, of which all or some are selected, of numbers but
// for a string in one of the last columns.
struct Wide {
    std::size_t n;
    int select;  // 0 all, 1 and 2 some by index and name, 3 the last one
    bool header;
    bool short_row;
    std::string text() const
    {
        return std::to_string(n) + " columns, selection " + std::to_string(select) + (header ? ", header" : "") + (short_row ? ", a short row" : "");
    }
};

void run_wide(const Wide &w)
{
    std::string t;
    auto name = [&](std::size_t k) { return w.header ? "c" + std::to_string(k) : std::to_string(k + 1); };
    std::size_t text = w.n - 2;
    auto value = [&](std::size_t r, std::size_t k) { return (k == text ? "t" : "") + std::to_string(100'000 * r + k); };
    for (std::size_t k = 0; w.header && k < w.n; ++k) t += name(k) + (k + 1 < w.n ? "," : "\n");
    for (std::size_t r = 0; r < 3; ++r) {
        std::size_t n = r == 1 && w.short_row ? w.n - 1 : w.n;
        for (std::size_t k = 0; k < n; ++k) t += value(r, k) + (k + 1 < n ? "," : "\n");
    }
    Csv_params p;
    if (w.header) p.header_row_index = 0;
    else p.header_row_index = {};
    p.default_data_type = Data_type::int32;
    if (w.select % 2) p.column_types[name(text)] = Data_type::string;
    else p.column_types_by_index[text] = Data_type::string;
    std::set<std::size_t> chosen;
    for (std::size_t k : {std::size_t{0}, std::size_t{254}, std::size_t{255}, std::size_t{256}, text, w.n - 1})
        if (k < w.n) chosen.insert(k);
    if (w.select == 0)
        for (std::size_t k = 0; k < w.n; ++k) chosen.insert(k);
    else if (w.select == 3) chosen = {w.n - 1};
    for (auto k : chosen) {
        if (w.select == 1 || w.select == 3) p.use_columns_by_index.insert(k);
        if (w.select == 2) p.use_columns.insert(name(k));
    }
    Data_reader_params rp;
    rp.dataset = {store(t, 1, 0, "s")};
    rp.batch_size = 1;
    rp.num_prefetched_examples = 1;
    rp.bad_example_handling = Bad_example_handling::skip;
    auto reader = make_intrusive<Csv_reader>(rp, p);
    auto s = reader->read_schema();
    MC_CHECK(s && s->attributes().size() == chosen.size(), "wrong number of columns", w.text());
    for (std::size_t r = 0; r < 3; ++r) {
        if (r == 1 && w.short_row) continue;
        auto ex = reader->read_example();
        MC_CHECK(ex && ex->features().size() == chosen.size(), "rows missing", w.text());
        std::size_t i = 0;
        for (auto k : chosen) {
            auto &a = s->attributes()[i];
            MC_CHECK(a.name() == name(k), "wrong name", w.text() + ": " + a.name() + " instead of " + name(k));
            MC_CHECK(a.data_type() == (k == text ? Data_type::string : Data_type::int32), "wrong type", w.text() + ": " + a.name());
            auto got = cells(*ex->features()[i]).at(0);
            MC_CHECK(got == value(r, k), "wrong values", w.text() + ": " + got + " instead of " + value(r, k));
            auto f = ex->find_feature(name(k));
            MC_CHECK(f == ex->features()[i], "wrong feature", w.text() + ": " + name(k));
            ++i;
        }
        mc::transition();
    }
    MC_CHECK(!reader->read_example(), "too many rows", w.text());
    mc::traces();
    mc::outcome(w.text());
    mc::state(mc::hash(w.text()));
    mc::nontrivial();
}

}  // namespace

std::vector<mc::Suite> mc::make_suites(Tier tier)
{
    bool th = tier == Tier::thorough;
    on_start([] { mlio::initialize(); });
    auto cs = std::make_shared<std::vector<Config>>();
    std::vector<std::vector<std::string>> patterns{{"a", "b", "c"}, {"a", "a", "b"}, {"a", "b", "a"}, {"a", "a", "a"}};
    std::vector<std::vector<std::string>> clash{{"a", "a", "a_1"}, {"a_1", "a", "a"}, {"a", "a_1", "a"}, {"a_1", "a_1", "a"},
                                                {"", "", "a"}, {"a", "a_1", "a_1"}, {"b", "", "b"}};
    auto add = [&](Config c) { cs->push_back(c); };
    for (auto &names : patterns)
        for (int src = 0; src < n_sources; ++src) {
            if (src == ordinal && &names != &patterns[0]) continue;
            for (bool prefix : {false, true})
                for (bool dedupe : {false, true})
                    for (int bn = 0; bn < 5; ++bn)
                        for (int bi = 0; bi < 4; ++bi)
                            for (int def = 0; def < 3; ++def)
                                for (int tn = 0; tn < 4; ++tn)
                                    for (int ti = 0; ti < 4; ++ti) {
                                        if (!th && prefix && (tn + ti + def) % 2) continue;
                                        Config c;
                                        c.names = names;
                                        c.source = static_cast<Source>(src);
                                        c.prefix = prefix;
                                        c.dedupe = dedupe;
                                        c.by_name = bn;
                                        c.by_index = bi;
                                        c.def = def;
                                        c.type_name = tn;
                                        c.type_index = ti;
                                        add(c);
                                    }
        }
    for (auto &names : clash)
        for (int src : {header0, explicit_only})
            for (bool dedupe : {false, true})
                for (int bn = 0; bn < 5; ++bn)
                    for (int bi = 0; bi < 4; ++bi)
                        for (int tn = 0; tn < 3; ++tn) {
                            Config c;
                            c.names = names;
                            c.source = static_cast<Source>(src);
                            c.dedupe = dedupe;
                            c.by_name = bn;
                            c.by_index = bi;
                            c.type_name = tn;
                            add(c);
                        }
    // Headers over several stores, missing data, wrong headers.
    for (auto &names : {patterns[0], patterns[1]})
        for (int src = 0; src < n_sources; ++src)
            for (bool single : {false, true})
                for (int stores : {1, 2, 3})
                    for (int shape : {0, 1, 2, 3, 4})
                        for (bool mix : {false, true})
                            for (int def = 0; def < 2; ++def)
                                for (int bn = 0; bn < 3; ++bn)
                                    for (bool prefix : {false, true}) {
                                        Config c;
                                        c.names = names;
                                        c.source = static_cast<Source>(src);
                                        c.single = single;
                                        c.stores = stores;
                                        c.shape = shape;
                                        c.inferred_mix = mix;
                                        c.prefix = prefix;
                                        c.by_name = bn;
                                        if (def && !mix) c.def = 1;
                                        else if (def) c.def = 2;
                                        if (single && !c.has_header()) continue;
                                        add(c);
                                    }
    Suite s;
    s.name = "C06/config";
    s.what = "all combinations of header, names, prefix, de-duplication, selection and types";
    s.ncases = cs->size();
    s.block = 16;
    s.run = [cs](std::size_t i) { run((*cs)[i]); };
    s.describe = [cs](std::size_t i) { return (*cs)[i].text(); };
    auto ls = std::make_shared<std::vector<Layout>>();
    std::vector<std::string> contents{""};
    for (std::size_t k = 0; k < contents.size(); ++k)
        if (contents[k].size() < (th ? 3u : 2u))
            for (char ch : {'H', 'C', 'D'}) contents.push_back(contents[k] + ch);
    std::vector<std::vector<std::string>> all{{}};
    for (std::size_t k = 0; k < all.size(); ++k) {
        if (all[k].size())
            for (bool single : {false, true})
                for (bool is_explicit : {false, true})
                    for (int header : {-1, 0, 1}) {
                        if (header < 0 && single) continue;
                        ls->push_back({all[k], single, is_explicit, header < 0 ? std::nullopt : std::optional<std::size_t>{static_cast<std::size_t>(header)}});
                    }
        if (all[k].size() < (th ? 3u : 3u))
            for (auto &c : contents) {
                auto x = all[k];
                x.push_back(c);
                all.push_back(x);
            }
    }
    Suite h;
    h.name = "C06/headers";
    h.what = "header rows, invalid ones and data rows in all places of up to three stores, over three epochs";
    h.ncases = ls->size();
    h.block = 16;
    h.run = [ls](std::size_t i) { run_layout((*ls)[i]); };
    h.describe = [ls](std::size_t i) { return (*ls)[i].text(); };
    // Names: all header rows of up to so many columns.
    struct Header {
        std::vector<std::string> names;
        std::string prefix;
        bool blank;
    };
    auto hs = std::make_shared<std::vector<Header>>();
    std::vector<std::vector<std::string>> rows{{}};
    for (std::size_t k = 0; k < rows.size(); ++k) {
        if (rows[k].size())
            for (const char *prefix : {"", "p_", "a"}) {
                hs->push_back({rows[k], prefix, false});
                // A row that is blank is a single blank name.
                if (rows[k].size() == 1 && rows[k][0].empty()) hs->push_back({rows[k], prefix, true});
            }
        if (rows[k].size() < (th ? 6u : 5u))
            for (const char *n : {"a", "b", "", "a_1"}) {
                auto x = rows[k];
                x.emplace_back(n);
                rows.push_back(x);
            }
    }
    Suite n;
    n.name = "C06/names";
    n.what = "all header rows of up to five columns of equal, blank and similar names";
    n.ncases = hs->size();
    n.block = 16;
    n.run = [hs](std::size_t i) { run_names((*hs)[i].names, (*hs)[i].prefix, (*hs)[i].blank); };
    n.describe = [hs](std::size_t i) { return join((*hs)[i].names) + " prefix " + (*hs)[i].prefix + ((*hs)[i].blank ? " blank row" : ""); };
    auto vs = std::make_shared<std::vector<Values>>();
    for (int a = 0; a < 3; ++a)
        for (int b = 0; b < 3; ++b)
            for (int c = 0; c < 3; ++c)
                for (unsigned sel = 1; sel < 8; ++sel)
                    for (bool idx : {false, true})
                        for (auto m : {Max_field_length_handling::treat_as_bad, Max_field_length_handling::truncate, Max_field_length_handling::truncate_warn})
                            vs->push_back({{a, b, c}, sel, idx, m});
    Suite u;
    u.name = "C06/unselected";
    u.what = "fields of selected and unselected columns that are no numbers or too long";
    u.ncases = vs->size();
    u.block = 16;
    u.run = [vs](std::size_t i) { run_values((*vs)[i]); };
    u.describe = [vs](std::size_t i) { return (*vs)[i].text(); };
    auto ws = std::make_shared<std::vector<Wide>>();
    for (std::size_t k : {127u, 129u, 255u, 256u, 257u, 258u, 300u, 32769u, 65537u})
        for (int sel = 0; sel < 4; ++sel)
            for (bool header : {false, true})
                for (bool sr : {false, true}) {
                    if (k > 300 && ((sel == 0 && !th) || header != sr)) continue;
                    ws->push_back({k, sel, header, sr});
                }
    Suite w;
    w.name = "C06/wide";
    w.what = "many columns, all and some of them selected";
    w.ncases = ws->size();
    w.block = 1;
    w.run = [ws](std::size_t i) { run_wide((*ws)[i]); };
    w.describe = [ws](std::size_t i) { return (*ws)[i].text(); };
    return {s, h, n, u, w};
}
