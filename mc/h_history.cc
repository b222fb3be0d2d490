// C22: histories of peek, read, schema and reset on the real readers, compared
// with a cursor over what a plain pass reads.
#include "encode.h"
#include "rows.h"

#include <mlio/csv_reader.h>
#include <mlio/data_reader_error.h>
#include <mlio/image_reader.h>
#include <mlio/record_readers/parquet_record_reader.h>
#include <mlio/recordio_protobuf_reader.h>
#include <mlio/text_line_reader.h>
#include "mlio/record_readers/csv_record_reader.h"
#include "mlio/record_readers/recordio_record_reader.h"
#include "mlio/record_readers/text_line_record_reader.h"

#include <map>
#include <system_error>

using namespace mlio;
using namespace sup;

namespace mc {
const char *const harness_name = "history";
}

namespace {

enum Family { text, csv, csv_header, csv_names, protobuf, sparse, image, n_families };
const char *family_name[] = {"text", "csv", "csv with header", "csv with header and names", "recordio", "sparse recordio", "image"};

enum Variant { plain, shuffled, shuffled_all, ranged, sharded, sampled, all_selected, n_variants };
const char *variant_name[] = {"", " shuffled", " shuffled whole", " ranged", " sharded", " sampled", " ranged sharded shuffled"};

// What is wrong with an instance.
enum Fault { none, bad_value, corrupt, unreadable, n_faults };
const char *fault_name[] = {"", " bad value", " corrupt record", " unreadable store"};

struct Config {
    Family f = Family::text;
    std::size_t n = 0;
    int layout = 0;
    std::size_t batch = 1;
    Last_example_handling last = Last_example_handling::none;
    Variant v = plain;
    Fault fault = none;
    std::size_t fault_at = 0;
    std::size_t prefetch = 1;
    std::string text() const
    {
        return std::string{family_name[f]} + " n=" + std::to_string(n) + " layout=" + std::to_string(layout) + " batch=" + std::to_string(batch) + " last=" +
               std::to_string(static_cast<int>(last)) + variant_name[v] + (fault ? std::string{fault_name[fault]} + " " + std::to_string(fault_at) : "") + " prefetch=" +
               std::to_string(prefetch);
    }
};

std::string instance(const Config &c, std::size_t i)
{
    bool bad = c.fault == bad_value && c.fault_at == i, broken = c.fault == corrupt && c.fault_at == i;
    std::string s = std::to_string(i + 1);
    switch (c.f) {
    case text: return "line" + s + "\n";
    case csv:
    case csv_header:
    case csv_names:
        if (broken) return std::string(60, '1') + ",a\n";
        return (bad ? std::string{"x"} : s) + ",t" + s + "\n";
    case protobuf:
    case sparse: {
        enc::Message m;
        double x = static_cast<double>(i + 1);
        enc::Value a{enc::Kind::f32, {x, -x}, {}, {}}, y{enc::Kind::i32, {x}, {}, {}};
        if (c.f == sparse) {
            a.shape = {4};
            a.keys = {i % 3, 3};
        }
        if (bad) a.values.push_back(1);
        m.entries = {{false, "a", a}, {true, "y", y}};
        std::string r = enc::record(m.encode());
        if (broken) r[0] = 'x';
        return r;
    }
    case image: {
        if (bad || broken) return "not an image";
        std::string o = "P6\n2 2\n255\n";
        for (int k = 0; k < 12; ++k) o += static_cast<char>(i * 16 + static_cast<std::size_t>(k) + 1);
        return o;
    }
    default: return "";
    }
}

Data_reader_params make_params(const Config &c)
{
    Data_reader_params p;
    std::vector<std::string> files;
    std::string head = c.f == csv_header || c.f == csv_names ? "one,two\n" : "";
    // Layouts: all in one store, one store each, stores of two with empty ones.
    if (c.f != image && c.layout == 2) files.push_back(head);
    for (std::size_t i = 0; i < c.n; ++i) {
        if (i == 0 ? files.empty() || c.layout == 2 : c.f == image || c.layout == 1 || (c.layout == 2 && i % 2 == 0)) files.push_back(head);
        files.back() += instance(c, i);
        if (c.f == csv_names && c.layout == 1) head = "";  // a single header
    }
    if (c.f != image && (files.empty() || c.layout == 2)) files.push_back(head);
    for (std::size_t k = 0; k < files.size(); ++k) {
        if (c.fault == unreadable && c.fault_at == k)
            p.dataset.push_back(make_intrusive<Fn_store>("u", []() -> Intrusive_ptr<Input_stream> { throw std::system_error{std::make_error_code(std::errc::no_such_file_or_directory)}; }));
        else p.dataset.push_back(store(files[k], static_cast<int>((k + c.n) % 3)));
    }
    p.batch_size = c.batch;
    p.num_prefetched_examples = c.prefetch;
    p.last_example_handling = c.last;
    if (c.v == shuffled || c.v == shuffled_all || c.v == all_selected) {
        p.shuffle_instances = true;
        p.shuffle_window = c.v == shuffled_all ? 0 : 2;
        p.shuffle_seed = 5;
        p.reshuffle_each_epoch = false;
    }
    if (c.v == ranged || c.v == all_selected) {
        p.num_instances_to_skip = 1;
        p.num_instances_to_read = 2;
    }
    if (c.v == sharded || c.v == all_selected) {
        p.num_shards = 2;
        p.shard_index = c.v == sharded;
    }
    if (c.v == sampled) p.sample_ratio = 0.5F;
    return p;
}

Intrusive_ptr<Data_reader> make_reader(const Config &c)
{
    auto p = make_params(c);
    switch (c.f) {
    case text: {
        return make_intrusive<Text_line_reader>(p);
    }
    case csv:
    case csv_header:
    case csv_names: {
        Csv_params cp;
        if (c.fault == corrupt) cp.max_line_length = 20;
        cp.default_data_type = std::nullopt;
        if (c.f == csv) cp.header_row_index = std::nullopt;
        else {
            cp.header_row_index = 0;
            if (c.f == csv_names) cp.column_names = {"first", "second"};
            if (c.f == csv_names && c.layout == 1) {
                // All files but the first start with a row that is data.
                cp.has_single_header = true;
            }
        }
        cp.column_types_by_index = {};
        return make_intrusive<Csv_reader>(p, cp);
    }
    case protobuf:
    case sparse: return make_intrusive<Recordio_protobuf_reader>(p);
    case image: {
        Image_reader_params ip;
        ip.image_dimensions = {3, 2, 2};
        return make_intrusive<Image_reader>(p, ip);
    }
    default: return nullptr;
    }
}

std::string show(const Example &e)
{
    return join(rows(e)) + "+" + std::to_string(e.padding);
}

std::string show(const Intrusive_ptr<const Schema> &s)
{
    return s ? s->repr() : "none";
}

struct Truth {
    std::vector<std::string> examples;
    bool error = false;   // after at most these examples
    std::string schema;   // "error" if it cannot be read
};

const Truth &truth(const Config &c)
{
    static std::map<std::string, Truth> cache;
    auto key = c.text();
    auto it = cache.find(key);
    if (it != cache.end()) return it->second;
    Truth t;
    try {
        t.schema = show(make_reader(c)->read_schema());
    }
    catch (const std::exception &) {
        t.schema = "error";
    }
    auto clean = c;
    auto r = make_reader(c);
    try {
        while (auto e = r->read_example()) t.examples.push_back(show(*e));
    }
    catch (const std::exception &) {
        t.error = true;
    }
    if (t.error && c.fault != none) {
        // How many examples precede the error depends on the schedule.
        t.examples.clear();
        clean.n = c.n;
        clean.fault = none;
        auto r2 = make_reader(clean);
        while (auto e = r2->read_example()) t.examples.push_back(show(*e));
        std::size_t at = c.fault == unreadable ? c.f == image || c.layout == 1 ? c.fault_at : 0 : c.fault_at;
        t.examples.resize(std::min(t.examples.size(), at / c.batch));
    }
    return cache.emplace(key, t).first->second;
}

const char ops[] = "rpsR";

void history(const Config &c, std::size_t sequence, std::size_t depth)
{
    const Truth t = truth(c);
    MC_CHECK(c.fault != none || !t.error, "unexpected error", "in a plain pass");
    auto r = make_reader(c);
    std::size_t pos = 0;
    bool failed = false;
    Intrusive_ptr<Example> peeked;
    std::vector<std::pair<Intrusive_ptr<Example>, std::string>> kept;
    std::string log;
    auto step = [&](char op) {
        log += op;
        if (op == 'R') {
            r->reset();
            pos = 0;
            failed = false;
            peeked = nullptr;
            return;
        }
        if (op == 's') {
            std::string s;
            try {
                s = show(r->read_schema());
            }
            catch (const Mlio_error &) {
                s = "error";
            }
            MC_CHECK(s == t.schema, "the schema changes", log + ": " + s + " instead of " + t.schema);
            return;
        }
        Intrusive_ptr<Example> e;
        try {
            e = op == 'r' ? r->read_example() : r->peek_example();
        }
        catch (const Mlio_error &x) {
            log += '!';
            MC_CHECK(t.error, "unexpected error", log + ": " + x.what());
            MC_CHECK(!peeked, "the peeked example is lost", log);
            failed = true;
            return;
        }
        if (!e) {
            log += '0';
            MC_CHECK(!t.error, "an error is reported as the end", log);
            MC_CHECK(pos == t.examples.size(), "the end comes too early", log);
            return;
        }
        MC_CHECK(!failed, "data after an error", log);
        MC_CHECK(pos < t.examples.size(), t.error ? "data past an error" : "data after the end", log + ": " + show(*e));
        MC_CHECK(show(*e) == t.examples[pos], "wrong example", log + ": " + show(*e) + " instead of " + t.examples[pos]);
        if (peeked) MC_CHECK(e == peeked, "another example than the one peeked", log);
        if (op == 'r') {
            ++pos;
            peeked = nullptr;
        }
        else peeked = e;
        kept.emplace_back(e, show(*e));
    };
    for (std::size_t k = 0, x = sequence; k < depth; ++k, x /= 4) {
        step(ops[x % 4]);
        mc::state(mc::hash(c.text() + log));
    }
    // The rest, and once more.
    for (std::size_t k = pos; k < t.examples.size() + 1; ++k) step('r');
    step('r');
    r = nullptr;
    for (auto &k : kept) MC_CHECK(show(*k.first) == k.second, "a returned example changes", log + ": " + show(*k.first) + " was " + k.second);
    mc::traces();
    mc::transition(log.size());
    mc::outcome(log);
    if (t.examples.size() > 1) mc::nontrivial();
}

// ------------------------------------------------------------- records

enum Reader_kind { r_text, r_csv, r_recordio, r_parquet, n_readers };
const char *reader_name[] = {"text", "csv", "recordio", "parquet"};

std::string record_bytes(Reader_kind k, std::size_t i, std::size_t len)
{
    std::string s(len, static_cast<char>('a' + i));
    switch (k) {
    case r_text: return s + "\n";
    case r_csv: return s + "\n";
    case r_recordio: return enc::record(s);
    case r_parquet: {
        std::string o = "PAR1" + s + std::string("\x15\x02\x19\x2c\x16\x00\x16\x00\x00", 9);
        enc::le32(o, 9);
        return o + "PAR1";
    }
    default: return "";
    }
}

Intrusive_ptr<Record_reader> make_record_reader(Reader_kind k, Intrusive_ptr<Input_stream> s)
{
    switch (k) {
    case r_text: return make_intrusive<detail::Text_line_record_reader>(std::move(s), false);
    case r_csv: {
        static Csv_params cp;
        return make_intrusive<detail::Csv_record_reader>(std::move(s), cp);
    }
    case r_recordio: return make_intrusive<detail::Recordio_record_reader>(std::move(s));
    default: return make_intrusive<detail::Parquet_record_reader>(std::move(s));
    }
}

void records(Reader_kind k, const std::vector<std::size_t> &lens, int mode, std::size_t chunk, std::size_t sequence, std::size_t depth)
{
    mlio_verif::chunk_size = chunk;
    std::string data;
    std::vector<std::string> payloads;
    for (std::size_t i = 0; i < lens.size(); ++i) {
        auto b = record_bytes(k, i, lens[i]);
        data += b;
        std::string pl(lens[i], static_cast<char>('a' + i));
        payloads.push_back(k == r_parquet ? b : pl);
    }
    auto st = store(data, mode, 0x2449);
    auto r = make_record_reader(k, st->open_read());
    std::vector<Record> kept;
    std::vector<std::string> was;
    std::size_t pos = 0;
    std::string log = std::string{reader_name[k]} + " ";
    auto step = [&](bool peek) {
        log += peek ? 'p' : 'r';
        auto rec = peek ? r->peek_record() : r->read_record();
        if (!rec) {
            MC_CHECK(pos == payloads.size(), "the end comes too early", log);
            log += '0';
            return;
        }
        MC_CHECK(pos < payloads.size(), "record after the end", log);
        auto s = str(rec->payload());
        MC_CHECK(s == payloads[pos], "wrong record", log + ": " + mc::quote(s) + " instead of " + mc::quote(payloads[pos]));
        kept.push_back(*rec);
        was.push_back(s);
        if (!peek) ++pos;
    };
    for (std::size_t i = 0; i < depth; ++i) step(sequence >> i & 1);
    while (pos < payloads.size()) step(false);
    step(false);
    step(true);
    step(false);
    r = nullptr;
    for (std::size_t i = 0; i < kept.size(); ++i) MC_CHECK(str(kept[i].payload()) == was[i], "a returned record changes", log);
    mc::traces();
    mc::transition(log.size());
    mc::state(mc::hash(log + std::to_string(mode) + "," + std::to_string(chunk)));
    mc::outcome(log);
}

}  // namespace

std::vector<mc::Suite> mc::make_suites(Tier tier)
{
    bool th = tier == Tier::thorough;
    on_start([] { mlio::initialize(); });
    std::vector<Suite> out;
    std::size_t depth = th ? 6 : 4, total = 1;
    for (std::size_t k = 0; k < depth; ++k) total *= 4;
    auto add = [&](std::string name, std::string what, std::shared_ptr<std::vector<Config>> cs) {
        Suite s;
        s.name = name;
        s.what = what;
        s.ncases = cs->size() * total;
        s.block = 256;
        s.run = [=](std::size_t i) { history((*cs)[i / total], i % total, depth); };
        s.describe = [=](std::size_t i) {
            std::string o;
            for (std::size_t k = 0, x = i % total; k < depth; ++k, x /= 4) o += ops[x % 4];
            return (*cs)[i / total].text() + " " + o;
        };
        out.push_back(s);
    };
    const Last_example_handling lasts[] = {Last_example_handling::none, Last_example_handling::drop, Last_example_handling::pad};
    auto cs = std::make_shared<std::vector<Config>>();
    for (int f = 0; f < n_families; ++f)
        for (std::size_t n = 0; n <= 4; ++n)
            for (std::size_t batch = 1; batch <= 3; ++batch)
                for (int l = 0; l < 3; ++l)
                    for (int v = 0; v < n_variants; ++v) {
                        if (l && n % batch == 0) continue;
                        if (n == 0 && v > shuffled) continue;
                        Config c;
                        c.f = static_cast<Family>(f);
                        c.n = n;
                        c.layout = static_cast<int>((n + batch + static_cast<std::size_t>(v)) % 3);
                        c.batch = batch;
                        c.last = lasts[l];
                        c.v = static_cast<Variant>(v);
                        c.prefetch = 1 + n % 2;
                        cs->push_back(c);
                    }
    add("C22/readers", "all histories of read, peek, schema and reset on each kind of reader", cs);
    cs = std::make_shared<std::vector<Config>>();
    for (int f = 0; f < n_families; ++f)
        for (int fault = 1; fault < n_faults; ++fault)
            for (std::size_t n = 1; n <= 3; ++n)
                for (std::size_t at = 0; at < n; ++at)
                    for (std::size_t batch = 1; batch <= 2; ++batch)
                        for (int layout = 0; layout < 2; ++layout) {
                            if (f == text && fault != unreadable) continue;
                            if (f == image && layout == 0) continue;
                            if (fault == bad_value && at == 0 && f != image) continue;  // decides the schema
                            if (fault == unreadable && layout == 0 && at) continue;
                            Config c;
                            c.f = static_cast<Family>(f);
                            c.n = n;
                            c.layout = layout;
                            c.batch = batch;
                            c.fault = static_cast<Fault>(fault);
                            c.fault_at = at;
                            cs->push_back(c);
                        }
    add("C22/errors", "all histories with a bad value, a corrupt record or an unreadable store", cs);
    {
        struct Case {
            Reader_kind k;
            std::vector<std::size_t> lens;
            int mode;
            std::size_t chunk;
        };
        auto rs = std::make_shared<std::vector<Case>>();
        Words w{{"0", "1", "2", "3"}, th ? std::size_t{4} : std::size_t{3}};
        const std::size_t sizes[] = {1, 3, 5, 8};
        for (int k = 0; k < n_readers; ++k)
            for (std::size_t i = 0; i < w.count(); ++i)
                for (int mode = 0; mode < 3; ++mode)
                    for (std::size_t chunk : {16u, 17u, 24u, 40u}) {
                        Case c{static_cast<Reader_kind>(k), {}, mode, chunk};
                        for (auto x : w.symbols(i)) c.lens.push_back(sizes[x]);
                        rs->push_back(c);
                    }
        std::size_t d = th ? 8 : 6, n = std::size_t{1} << d;
        Suite s;
        s.name = "C22/records";
        s.what = "all histories of reading and peeking records";
        s.ncases = rs->size() * n;
        s.block = 512;
        s.run = [=](std::size_t i) {
            auto &c = (*rs)[i / n];
            records(c.k, c.lens, c.mode, c.chunk, i % n, d);
        };
        s.describe = [=](std::size_t i) {
            auto &c = (*rs)[i / n];
            std::string o = std::string{reader_name[c.k]} + " lengths";
            for (auto x : c.lens) o += " " + std::to_string(x);
            o += " mode " + std::to_string(c.mode) + " chunk " + std::to_string(c.chunk) + " ";
            for (std::size_t k = 0; k < d; ++k) o += i % n >> k & 1 ? 'p' : 'r';
            return o;
        };
        out.push_back(s);
    }
    return out;
}
