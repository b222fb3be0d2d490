// C27: threads of the program that use the library at once. Each thread has
// readers and streams of its own; stores, examples, tensors, schemas, memory
// and the logger are shared. Built with the detector of data races.
#include "shim.h"

#include "encode.h"
#include "rows.h"

#include <mlio/csv_reader.h>
#include <mlio/data_reader_error.h>
#include <mlio/data_stores/file.h>
#include <mlio/data_stores/sagemaker_pipe.h>
#include <mlio/image_reader.h>
#include <mlio/init.h>
#include <mlio/integ/dlpack.h>
#include <mlio/logging.h>
#include <mlio/memory/memory_allocator.h>
#include <mlio/record_readers/parquet_record_reader.h>
#include <mlio/recordio_protobuf_reader.h>
#include <mlio/text_line_reader.h>
#include "mlio/logger.h"

#include <dlpack/dlpack.h>
#include <sys/stat.h>
#include <zlib.h>

#include <fstream>
#include <map>

using namespace mlio;
using namespace sup;

namespace mc {
const char *const harness_name = "threads";
}

namespace {

using Lock = std::unique_lock<std::mutex>;

std::string gz(const std::string &p)
{
    ::z_stream z{};
    ::deflateInit2(&z, 6, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY);
    std::string o(200 + p.size(), '\0');
    z.next_in = reinterpret_cast<unsigned char *>(const_cast<char *>(p.data()));
    z.avail_in = static_cast<unsigned>(p.size());
    z.next_out = reinterpret_cast<unsigned char *>(o.data());
    z.avail_out = static_cast<unsigned>(o.size());
    ::deflate(&z, Z_FINISH);
    o.resize(z.total_out);
    ::deflateEnd(&z);
    return o;
}

std::string utf16(const std::string &p)
{
    std::string o = "\xff\xfe";
    for (char c : p) {
        o += c;
        o += '\0';
    }
    return o;
}

const std::string lines = "1,2\n3,4\n5,x\n7,8\n";

std::string recordio()
{
    std::string o;
    for (int i = 0; i < 3; ++i) {
        enc::Message m;
        enc::Value a{enc::Kind::f32, {static_cast<double>(i), 2}, {}, {}}, s{enc::Kind::f32, {static_cast<double>(i)}, {1}, {4}};
        m.entries = {{false, "a", a}, {false, "s", s}};
        o += enc::record(m.encode());
    }
    return o;
}

std::string image()
{
    std::string o = "P6\n2 2\n255\n";
    for (int k = 0; k < 12; ++k) o += static_cast<char>(k + 1);
    return o;
}

// What the threads share.
struct World {
    std::string dir;
    std::vector<Intrusive_ptr<Data_store>> text, rio, images, parquet;
    Intrusive_ptr<Example> example;
    Intrusive_ptr<const Schema> schema;
    Memory_slice memory = slice("abcdef");
    std::mutex m;
    std::size_t messages = 0;
};

std::string files()
{
    static std::string d;
    if (d.empty()) {
        d = mc::scratch_dir() + "/threads";
        ::mkdir(d.c_str(), 0755);
        for (auto [n, b] : {std::pair{"/a.csv", lines}, std::pair{"/b.csv.gz", gz(lines)}, std::pair{"/c.txt", utf16(lines)}}) std::ofstream{d + n, std::ios::binary} << b;
    }
    return d;
}

Data_reader_params params(const std::vector<Intrusive_ptr<Data_store>> &s)
{
    Data_reader_params p{};
    p.dataset = s;
    p.batch_size = 2;
    p.num_prefetched_examples = 2;
    p.bad_example_handling = Bad_example_handling::skip_warn;
    p.warn_bad_instances = true;
    p.last_example_handling = Last_example_handling::pad_warn;
    return p;
}

Csv_params csv_params()
{
    Csv_params cp;
    cp.header_row_index = std::nullopt;
    cp.default_data_type = Data_type::int32;
    return cp;
}

std::string all(Data_reader &r)
{
    std::string o;
    while (auto e = r.read_example()) o += join(rows(*e)) + "+" + std::to_string(e->padding);
    return o;
}

std::string all(Input_stream &s)
{
    std::string o;
    char b[5];
    for (std::size_t n; (n = s.read({reinterpret_cast<std::byte *>(b), 5})) != 0;) o.append(b, n);
    s.close();
    return o;
}

void set_handler(World &w)
{
    set_log_message_handler([&w](Log_level, std::string_view m) {
        Lock l{w.m};
        w.messages += !m.empty();
    });
}

struct Op {
    const char *name;
    std::string (*run)(World &);
};

const Op ops[] = {
    {"id of a store", [](World &w) -> std::string { return std::to_string(w.text[0]->id() == w.text[0]->id()) + w.text[1]->id(); }},
    {"text of a store", [](World &w) -> std::string { return std::to_string(w.text[0]->repr().size()) + w.text[2]->repr(); }},
    {"read memory", [](World &w) -> std::string { return all(*w.text[0]->open_read()); }},
    {"read a mapped file", [](World &w) -> std::string { return all(*w.text[1]->open_read()); }},
    {"read a file", [](World &w) -> std::string { return all(*w.text[3]->open_read()); }},
    {"read a compressed file", [](World &w) -> std::string { return all(*w.text[2]->open_read()); }},
    {"csv", [](World &w) -> std::string { return all(*make_intrusive<Csv_reader>(params(w.text), csv_params())); }},
    {"csv twice",
     [](World &w) -> std::string {
         auto r = make_intrusive<Csv_reader>(params({w.text[0]}), csv_params());
         r->read_example();
         r->reset();
         auto s = r->read_schema()->repr();
         return s + all(*r);
     }},
    {"text lines", [](World &w) -> std::string { return all(*make_intrusive<Text_line_reader>(params(w.text))); }},
    {"utf-16",
     [](World &w) -> std::string {
         auto cp = csv_params();
         cp.encoding = Text_encoding::utf16;
         return all(*make_intrusive<Csv_reader>(params({make_intrusive<File>(w.dir + "/c.txt")}), cp));
     }},
    {"recordio", [](World &w) -> std::string { return all(*make_intrusive<Recordio_protobuf_reader>(params(w.rio))); }},
    {"images",
     [](World &w) -> std::string {
         Image_reader_params ip;
         ip.image_dimensions = {3, 2, 2};
         return all(*make_intrusive<Image_reader>(params(w.images), ip));
     }},
    {"parquet",
     [](World &w) -> std::string {
         auto r = make_intrusive<detail::Parquet_record_reader>(w.parquet[0]->open_read());
         std::string o;
         while (auto x = r->read_record()) o += str(x->payload());
         return std::to_string(o.size());
     }},
    {"shuffled",
     [](World &w) -> std::string {
         auto p = params({w.text[0]});
         p.shuffle_instances = true;
         p.shuffle_seed = 3;
         return all(*make_intrusive<Text_line_reader>(p));
     }},
    {"list files", [](World &w) -> std::string { return std::to_string(list_files(w.dir, "*.csv*").size()); }},
    {"schema", [](World &w) -> std::string { return w.schema->repr() + std::to_string(*w.schema->get_index(w.schema->attributes()[1].name())) + w.schema->attributes()[0].name(); }},
    {"example", [](World &w) -> std::string { return join(rows(*w.example)) + w.example->repr(); }},
    {"share an example",
     [](World &w) -> std::string {
         auto e = w.example;
         auto t = e->features()[0];
         e = nullptr;
         return join(rows(*t)) + t->repr();
     }},
    {"dlpack",
     [](World &w) -> std::string {
         auto *d = as_dlpack(*w.example->features()[0], DLPACK_VERSION);
         auto n = d->dl_tensor.shape[0];
         d->deleter(d);
         return std::to_string(n);
     }},
    {"slices",
     [](World &w) -> std::string {
         auto a = w.memory.subslice(1, 3);
         auto b = a.subslice(1);
         a = {};
         return str(b);
     }},
    {"stream over shared memory",
     [](World &w) -> std::string {
         auto s = make_intrusive<In_memory_store>(w.memory)->open_read();
         auto x = s->read(2);
         return str(x) + all(*s);
     }},
    {"allocate",
     [](World &) -> std::string {
         auto b = memory_allocator().allocate(10);
         std::fill(b->begin(), b->end(), std::byte{1});
         auto c = resize_memory_block(b, 20);
         return std::to_string(c->size());
     }},
    {"log", [](World &) -> std::string {
         logger::warn("{0}", 1);
         logger::debug("{0}", 1);
         return std::string{};
     }},
    {"log level",
     [](World &) -> std::string {
         set_log_level(Log_level::debug);
         set_log_level(Log_level::warning);
         return std::string{};
     }},
    {"log handler",
     [](World &w) -> std::string {
         auto old = set_log_message_handler({});
         set_handler(w);
         return std::string{};
     }},
    {"initialize", [](World &) -> std::string {
         mlio::initialize();
         return std::string{};
     }},
    {"types",
     [](World &) -> std::string {
         std::string s = Device{Device_kind::cpu()}.repr();
         s += Device_kind::cpu().repr();
         s += Text_encoding::utf8.name();
         return s;
     }},
    {"errors",
     [](World &w) -> std::string {
         try {
             auto p = params({make_intrusive<File>(w.dir + "/none")});
             all(*make_intrusive<Text_line_reader>(p));
         }
         catch (const std::exception &e) {
             return std::string{e.what()};
         }
         return std::string{};
     }},
};
constexpr std::size_t nops = std::size(ops);

void make_world(World &w)
{
    w.dir = files();
    w.text = {make_intrusive<In_memory_store>(slice(lines)), make_intrusive<File>(w.dir + "/a.csv"), make_intrusive<File>(w.dir + "/b.csv.gz"), make_intrusive<File>(w.dir + "/a.csv", false)};
    w.rio = {make_intrusive<In_memory_store>(slice(recordio()))};
    w.images = {make_intrusive<In_memory_store>(slice(image())), make_intrusive<In_memory_store>(slice("no image"))};
    w.parquet = {make_intrusive<In_memory_store>(slice("PAR1" + std::string("\x15\2\2\2\2\2\2\2\0", 9) + std::string("\t\0\0\0PAR1", 8)))};
    auto r = make_intrusive<Csv_reader>(params({w.text[0]}), csv_params());
    w.example = r->read_example();
    w.schema = r->read_schema();
    set_handler(w);
}

const std::string &alone(std::size_t k)
{
    static std::map<std::size_t, std::string> cache;
    auto it = cache.find(k);
    if (it == cache.end()) {
        World w;
        mc::race::exempt(&w, sizeof w);
        make_world(w);
        it = cache.emplace(k, ops[k].run(w)).first;
        set_log_message_handler({});
    }
    return it->second;
}

// Each thread does some of the operations, while all others do theirs.
void together(const std::vector<std::vector<std::size_t>> &work, const std::string &where)
{
    for (auto &t : work)
        for (auto k : t) alone(k);
    auto &s = mc::sched();
    s.branch = false;
    s.workers = 1;
    auto w = std::make_unique<World>();
    make_world(*w);
    s.branch = true;
    std::vector<std::thread> threads;
    for (auto &t : work)
        threads.emplace_back([&w, &t, &where] {
            for (auto k : t) {
                auto got = ops[k].run(*w);
                MC_CHECK(got == alone(k), "a thread gets another result", where + ", " + ops[k].name + ": " + mc::quote(got) + " instead of " + mc::quote(alone(k)));
                mc::transition();
                int o = 0;
                mc::point(&o);
            }
        });
    for (auto &t : threads) t.join();
    set_log_message_handler({});
    mc::traces();
    mc::nontrivial();
    mc::outcome(where + std::to_string(w->messages));
}

// ------------------------------------------------------ examples handed over

// A thread that uses the examples the consumer has read, while the consumer
// goes on.
struct Channel {
    std::mutex m;
    std::condition_variable c;
    std::vector<Intrusive_ptr<Example>> q;
    bool end = false;
};

Intrusive_ptr<Data_reader> reader(World &w, std::size_t kind, std::size_t prefetch)
{
    auto p = params(kind == 2 ? w.rio : kind == 3 ? w.images : std::vector<Intrusive_ptr<Data_store>>{w.text[kind ? 1 : 0], w.text[3]});
    p.batch_size = 1;
    p.num_prefetched_examples = prefetch;
    p.last_example_handling = Last_example_handling::none;
    if (kind == 2) return make_intrusive<Recordio_protobuf_reader>(p);
    if (kind == 3) {
        Image_reader_params ip;
        ip.image_dimensions = {3, 2, 2};
        return make_intrusive<Image_reader>(p, ip);
    }
    if (kind == 1) return make_intrusive<Text_line_reader>(p);
    return make_intrusive<Csv_reader>(p, csv_params());
}
const char *kind_name[] = {"csv", "text", "recordio", "images"};

const char *scripts[] = {"rrx", "rrRrrx", "rRrx", "rpsrx", "rrrrrrrrrRrx", "rnrnx", "rxr"};

void handover(std::size_t kind, std::size_t prefetch, unsigned workers, const std::string &script, bool drop_first, const std::string &where)
{
    auto &s = mc::sched();
    s.branch = false;
    auto w = std::make_unique<World>();
    make_world(*w);
    std::vector<std::string> want;
    {
        auto r = reader(*w, kind, 1);
        while (auto e = r->read_example()) want.push_back(join(rows(*e)));
    }
    s.branch = true;
    s.workers = workers;
    Channel ch;
    std::vector<std::size_t> got;  // positions of the examples handed over, read after the join
    std::vector<std::string> seen;
    auto r = reader(*w, kind, prefetch);
    std::thread user{[&] {
        while (true) {
            Intrusive_ptr<Example> e;
            {
                Lock l{ch.m};
                ch.c.wait(l, [&] { return ch.end || !ch.q.empty(); });
                if (ch.q.empty()) return;
                e = ch.q.front();
                ch.q.erase(ch.q.begin());
            }
            auto f = e->features();
            if (drop_first) e = nullptr;
            std::string t = "[";
            if (e) t = join(rows(*e));
            else
                for (auto &x : f) t += join(rows(*x));
            seen.push_back(t);
        }
    }};
    std::size_t pos = 0;
    for (char op : script) {
        if (r == nullptr) r = reader(*w, kind, prefetch);
        switch (op) {
        case 'r':
            if (auto e = r->read_example()) {
                MC_CHECK(pos < want.size() && join(rows(*e)) == want[pos], "wrong example", where);
                got.push_back(pos++);
                Lock l{ch.m};
                ch.q.push_back(std::move(e));
                ch.c.notify_one();
            }
            else MC_CHECK(pos == want.size(), "end of data too early", where);
            break;
        case 'p': {
            auto e = r->peek_example();
            MC_CHECK((e != nullptr) == (pos < want.size()), "wrong example", where);
            break;
        }
        case 's': r->read_schema(); break;
        case 'n': r->num_bytes_read(); break;
        case 'R':
            r->reset();
            pos = 0;
            break;
        default:
            r = nullptr;
            pos = 0;
        }
        mc::transition();
    }
    r = nullptr;
    {
        Lock l{ch.m};
        ch.end = true;
    }
    ch.c.notify_one();
    user.join();
    MC_CHECK(seen.size() == got.size(), "examples are lost", where);
    if (!drop_first)
        for (std::size_t i = 0; i < got.size(); ++i)
            MC_CHECK(seen[i] == want[got[i]], "an example changes after it was read", where + ": " + seen[i] + " instead of " + want[got[i]]);
    set_log_message_handler({});
    mc::traces();
    mc::nontrivial();
    mc::outcome(where + std::to_string(seen.size()));
}

// ------------------------------------------------------- rows in parallel

const std::vector<std::string> csv_rows{"1,2,a\n", "3,x,b\n", "5\n", "7,8,c\n"};

std::string rio_row(int kind, std::size_t i)
{
    auto d = static_cast<double>(i + 1);
    enc::Message m;
    enc::Value a{enc::Kind::f32, {d, 2}, {}, {}}, s{enc::Kind::f32, {d}, {i % 4}, {4}}, l{enc::Kind::i32, {d}, {}, {}};
    if (kind == 1) a.values.push_back(1);  // another shape
    if (kind == 2) m.entries = {{false, "a", a}};
    else m.entries = {{false, "a", a}, {false, "s", s}, {true, "l", l}};
    return enc::record(m.encode());
}

struct Decode {
    bool rio;
    std::vector<int> kinds;
    Bad_example_handling handling;
    std::size_t parallel_reads;
    std::string str() const
    {
        std::string o = rio ? "recordio " : "csv ";
        for (int k : kinds) o += static_cast<char>('0' + k);
        return o + " handling " + std::to_string(static_cast<int>(handling)) + " parallel " + std::to_string(parallel_reads);
    }
};

std::string decode_all(const Decode &d)
{
    std::string data;
    for (std::size_t i = 0; i < d.kinds.size(); ++i) data += d.rio ? rio_row(d.kinds[i], i) : csv_rows[static_cast<std::size_t>(d.kinds[i])];
    auto p = params({make_intrusive<In_memory_store>(slice(data))});
    p.batch_size = 3;
    p.bad_example_handling = d.handling;
    p.num_parallel_reads = d.parallel_reads;
    auto cp = csv_params();
    cp.column_types_by_index[2] = Data_type::string;
    Intrusive_ptr<Data_reader> r;
    if (d.rio) r = make_intrusive<Recordio_protobuf_reader>(p);
    else r = make_intrusive<Csv_reader>(p, cp);
    std::string o;
    try {
        while (auto e = r->read_example()) o += join(rows(*e)) + "+" + std::to_string(e->padding);
    }
    catch (const std::exception &) {
        o += "error";
    }
    return o;
}

void decode(const Decode &d)
{
    auto &s = mc::sched();
    auto w = std::make_unique<World>();
    set_handler(*w);
    s.branch = false;
    mlio_verif::parallel_cut_off = 10'000'000;
    auto want = decode_all(d);
    mlio_verif::parallel_cut_off = 1;
    s.workers = 3;
    s.branch = true;
    auto got = decode_all(d);
    MC_CHECK(got == want, "rows decoded in parallel differ", d.str() + ": " + got + " instead of " + want);
    mlio_verif::parallel_cut_off = 10'000'000;
    set_log_message_handler({});
    mc::traces();
    mc::nontrivial();
    mc::outcome(d.str() + got);
}

}  // namespace

std::vector<mc::Suite> mc::make_suites(Tier tier)
{
    bool th = tier == Tier::thorough;
    on_start([] { mlio::initialize(); });
    std::vector<Suite> out;
    auto add = [&](std::string name, std::string what, std::size_t n, int bound, auto run, auto describe) {
        Suite s;
        s.name = std::move(name);
        s.what = std::move(what);
        s.ncases = n;
        s.bound = [bound](std::size_t) { return bound; };
        s.block = 1;
        s.hb_cache = true;
        s.run = run;
        s.describe = describe;
        out.push_back(std::move(s));
    };
    auto names = [](const std::vector<std::vector<std::size_t>> &w) {
        std::string s;
        for (auto &t : w) {
            if (!s.empty()) s += " || ";
            for (auto k : t) s += std::string{s.empty() || s.back() == ' ' ? "" : "; "} + ops[k].name;
        }
        return s;
    };
    auto pair = [](std::size_t i) {
        // Unordered pairs with repetition.
        std::size_t a = 0;
        while (i >= nops - a) i -= nops - a++;
        return std::vector<std::vector<std::size_t>>{{a}, {a + i}};
    };
    add("pairs", "two threads with one operation each", nops * (nops + 1) / 2, th ? 4 : 3, [=](std::size_t i) { together(pair(i), names(pair(i))); }, [=](std::size_t i) { return names(pair(i)); });
    auto crossed = [](std::size_t i) {
        std::size_t a = i / nops, b = i % nops;
        return std::vector<std::vector<std::size_t>>{{a, b}, {b, a}};
    };
    add("crossed", "two threads with two operations in opposite orders", nops * nops, th ? 3 : 2, [=](std::size_t i) { together(crossed(i), names(crossed(i))); },
        [=](std::size_t i) { return names(crossed(i)); });
    if (th) {
        auto three = [](std::size_t i) { return std::vector<std::vector<std::size_t>>{{i / nops / nops}, {i / nops % nops}, {i % nops}}; };
        add("three", "three threads with one operation each", nops * nops * nops, 0, [=](std::size_t i) { together(three(i), names(three(i))); }, [=](std::size_t i) { return names(three(i)); });
    }
    std::size_t nscripts = std::size(scripts);
    auto where = [=](std::size_t i) {
        return std::string{kind_name[i % 4]} + " prefetch " + std::to_string(i / 4 % 2 + 1) + " workers " + std::to_string(i / 8 % 2 + 1) + (i / 16 % 2 ? " drop first " : " ") + scripts[i / 32 % nscripts];
    };
    add("handover", "a thread that uses the examples another one reads", 32 * nscripts, th ? 4 : 3,
        [=](std::size_t i) { handover(i % 4, i / 4 % 2 + 1, static_cast<unsigned>(i / 8 % 2) + 1, scripts[i / 32 % nscripts], i / 16 % 2, where(i)); }, where);
    for (bool rio : {false, true}) {
        std::vector<Decode> decodes;
        for (auto h : {Bad_example_handling::error, Bad_example_handling::skip, Bad_example_handling::skip_warn, Bad_example_handling::pad, Bad_example_handling::pad_warn})
            for (std::size_t pr : {std::size_t{1}, std::size_t{2}})
                for (std::size_t n = 2; n <= (th ? 4u : 3u); ++n) {
                    std::size_t kinds = rio ? 3 : csv_rows.size(), all = 1;
                    for (std::size_t k = 0; k < n; ++k) all *= kinds;
                    for (std::size_t v = 0; v < all; ++v) {
                        Decode d{rio, {}, h, pr};
                        for (std::size_t k = 0, x = v; k < n; ++k, x /= kinds) d.kinds.push_back(static_cast<int>(x % kinds));
                        decodes.push_back(d);
                    }
                }
        add(rio ? "decode/recordio" : "decode/csv", "batches with rows decoded in parallel", decodes.size(), th ? 3 : 2, [=](std::size_t i) { decode(decodes[i]); }, [=](std::size_t i) { return decodes[i].str(); });
    }
    return out;
}
