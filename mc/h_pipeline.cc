// C01, C02, C03: the parallel pipeline, driven through a probe reader that
// derives from the public Parallel_data_reader.
#include <mlio.h>
#include <mlio/parallel_data_reader.h>

#include <deque>
#include <sstream>

#include "mc.h"

using namespace mlio;

namespace mc {
const char *const harness_name = "pipeline";
}

namespace {

struct Config {
    std::size_t n = 4;       // instances of the dataset
    std::size_t batch = 1;
    std::size_t prefetch = 1;
    std::size_t parallel = 1;
    unsigned workers = 2;
    int policy = 0;
    std::size_t stores = 1;
    Last_example_handling last = Last_example_handling::none;
    unsigned skip_mask = 0;          // batches that decode to nothing
    int fault_fetch = -1;            // instance whose fetch fails
    int fault_decode = -1;           // batch (first instance's id) whose decode fails
    int fault_schema = 0;            // schema inference fails
    int fault_epochs = 1;            // faults happen in the first so many epochs
    bool atomics = false;            // accesses to atomics are scheduling points
    std::string script;              // operations of the consumer
    std::string text() const
    {
        std::ostringstream o;
        o << "n=" << n << " batch=" << batch << " prefetch=" << prefetch << " parallel=" << parallel
          << " workers=" << workers << " policy=" << policy << " stores=" << stores
          << " last=" << static_cast<int>(last) << " skip=" << skip_mask << " ff=" << fault_fetch
          << " fd=" << fault_decode << " fs=" << fault_schema << " atomics=" << atomics << " script=" << script;
        return o.str();
    }
};

struct Env {
    explicit Env(const Config &c) : cfg{c} {}
    const Config cfg;
    // What has happened.
    std::size_t fetched = 0;    // instances, since the last reset
    std::size_t delivered = 0;  // examples handed to the consumer since the last reset
    std::size_t decoding = 0, max_decoding = 0;
    std::size_t consumed_batches = 0; // batches passed by the consumer (with skipped ones)
    int epoch = 0;
    bool alive = true;
    bool read_requested = false;
    int o_fetch = 0, o_decode = 0;  // identities of objects for the scheduler
    bool faulty() const { return epoch < cfg.fault_epochs; }
    std::size_t nbatches() const
    {
        return (cfg.n + cfg.batch - 1) / cfg.batch;
    }
    std::size_t eff_prefetch() const { return cfg.prefetch ? cfg.prefetch : cfg.workers; }
    std::size_t eff_parallel() const
    {
        return cfg.parallel == 0 || cfg.parallel > eff_prefetch() ? eff_prefetch() : cfg.parallel;
    }
    // Batches that are dropped before they are read in full do not count:
    // the read-ahead is measured in whole batches.
    void check_read_ahead()
    {
        std::size_t fetched_batches = (fetched + cfg.batch - 1) / cfg.batch;
        std::size_t bound = 2 * eff_prefetch() + eff_parallel() + 1;
        // Batches that decode to nothing occupy no place in the queues.
        std::size_t passed = consumed_batches;
        std::size_t skipped = 0;
        for (std::size_t b = passed; b < fetched_batches; ++b) skipped += (cfg.skip_mask >> b) & 1;
        if (fetched_batches > passed + skipped + bound)
            mc::fail("read-ahead exceeds its bound",
                     std::to_string(fetched_batches) + " batches fetched, " +
                         std::to_string(passed) + " delivered, bound " + std::to_string(bound));
    }
};

std::size_t payload_size(std::size_t id) { return 1 + id % 3; }

class Probe_store final : public Data_store {
public:
    Probe_store(std::size_t first, std::size_t last) : first{first}, last{last}, id_{"s" + std::to_string(first)} {}
    Intrusive_ptr<Input_stream> open_read() const override { return {}; }
    std::string repr() const override { return id_; }
    const std::string &id() const override { return id_; }
    const std::size_t first, last;

private:
    std::string id_;
};

class Probe_records final : public Record_reader_base {
public:
    Probe_records(Env &e, std::size_t first, std::size_t last) : env_{e}, pos_{first}, last_{last} {}
    std::optional<Record> read_record_core() override
    {
        MC_CHECK(env_.alive, "use after destruction", "an instance is fetched after the reader is gone");
        mc::point(&env_.o_fetch, 20);
        if (pos_ == last_) return {};
        if (env_.faulty() && env_.cfg.fault_fetch == static_cast<int>(pos_))
            throw Corrupt_record_error{"injected fetch error"};
        std::size_t id = pos_++;
        auto b = make_intrusive<Heap_memory_block>(payload_size(id));
        std::fill(b->begin(), b->end(), static_cast<std::byte>(id));
        ++env_.fetched;
        env_.check_read_ahead();
        return Record{Memory_slice{b}};
    }

private:
    Env &env_;
    std::size_t pos_, last_;
};

class Probe_reader final : public Parallel_data_reader {
public:
    Probe_reader(Data_reader_params p, Env &e) : Parallel_data_reader{std::move(p)}, env_{e} {}
    ~Probe_reader() override { stop(); }

private:
    Intrusive_ptr<Record_reader> make_record_reader(const Data_store &s) override
    {
        auto &p = dynamic_cast<const Probe_store &>(s);
        return make_intrusive<Probe_records>(env_, p.first, p.last);
    }
    Intrusive_ptr<const Schema> infer_schema(const std::optional<Instance> &) override
    {
        if (env_.faulty() && env_.cfg.fault_schema) throw Schema_error{"injected schema error"};
        return make_intrusive<Schema>(
            std::vector<Attribute>{Attribute{"v", Data_type::int64, {env_.cfg.batch, 1}}});
    }
    Intrusive_ptr<Example> decode(const Instance_batch &batch) const override
    {
        MC_CHECK(env_.alive, "use after destruction", "a batch is decoded after the reader is gone");
        ++env_.decoding;
        if (env_.decoding > env_.max_decoding) env_.max_decoding = env_.decoding;
        MC_CHECK(env_.decoding <= env_.eff_parallel(), "too many batches decoded at once",
                 std::to_string(env_.decoding) + " decoded at once, limit " +
                     std::to_string(env_.eff_parallel()));
        mc::point(&env_.o_decode, 21);
        std::vector<std::int64_t> v;
        for (auto &i : batch.instances()) {
            auto &b = i.bits();
            std::int64_t id = b.empty() ? -1 : static_cast<std::int64_t>(*b.begin());
            if (id >= 0 && b.size() != payload_size(static_cast<std::size_t>(id))) id = -2;
            v.push_back(id);
        }
        --env_.decoding;
        mc::touch(&env_.o_decode, 22);
        if (v.empty()) mc::fail("empty batch", "a batch without instances is decoded");
        std::size_t bi = static_cast<std::size_t>(v[0]) / env_.cfg.batch;
        if (env_.faulty() && env_.cfg.fault_decode == static_cast<int>(bi))
            throw Invalid_instance_error{"injected decode error"};
        if ((env_.cfg.skip_mask >> bi) & 1) return {};
        std::size_t pad = batch.size() - v.size();
        v.resize(batch.size());
        std::size_t sz = v.size();
        std::vector<Intrusive_ptr<Tensor>> f;
        f.emplace_back(make_intrusive<Dense_tensor>(Size_vector{sz, 1},
                                                    wrap_cpu_array<Data_type::int64>(std::move(v))));
        auto ex = make_intrusive<Example>(schema(), std::move(f));
        ex->padding = pad;
        return ex;
    }
    Env &env_;
};

struct Expected {
    std::vector<std::int64_t> ids;
    std::size_t padding = 0, batch_index = 0, bytes = 0;
};

// The batches sequential reading produces.
std::vector<Expected> expected(const Config &c)
{
    std::vector<Expected> r;
    for (std::size_t b = 0; b * c.batch < c.n; ++b) {
        Expected e;
        e.batch_index = b;
        for (std::size_t i = b * c.batch; i < std::min(c.n, (b + 1) * c.batch); ++i) {
            e.ids.push_back(static_cast<std::int64_t>(i));
            e.bytes += payload_size(i);
        }
        if (e.ids.size() < c.batch) {
            if (c.last == Last_example_handling::drop || c.last == Last_example_handling::drop_warn)
                continue;
            if (c.last == Last_example_handling::pad || c.last == Last_example_handling::pad_warn) {
                e.padding = c.batch - e.ids.size();
                e.ids.resize(c.batch);
            }
        }
        if ((c.skip_mask >> b) & 1) continue;
        r.push_back(e);
    }
    return r;
}

std::string text(const std::vector<std::int64_t> &v)
{
    std::string s = "[";
    for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x);
    return s + "]";
}

// Runs the consumer's script against the reader and the model.
// r read, p peek, R reset, S schema, d drain to the end, e read until an
// error, b check the byte count, x drop the reader.
void run(const Config &cfg)
{
    auto &s = mc::sched();
    s.branch = true;
    s.workers = cfg.workers;
    s.policy = cfg.policy;
    Env env{cfg};
    mc::race::exempt(&env, sizeof env);
    auto exp = expected(cfg);
    std::size_t pos = 0;  // of the model
    bool failed = false;  // an error was reported since the last reset
    std::string log;
    bool fault_config = cfg.fault_fetch >= 0 || cfg.fault_decode >= 0 || cfg.fault_schema != 0;
    // The first batch the fault can affect: all batches before it may be delivered, none after.
    std::size_t limit = exp.size();
    auto fault_limit = [&] {
        std::size_t fb = exp.size() + 1;
        if (cfg.fault_schema) return std::size_t{0};
        if (cfg.fault_fetch >= 0) fb = static_cast<std::size_t>(cfg.fault_fetch) / cfg.batch;
        if (cfg.fault_decode >= 0) fb = std::min(fb, static_cast<std::size_t>(cfg.fault_decode));
        std::size_t k = 0;
        while (k < exp.size() && exp[k].batch_index < fb) ++k;
        return k;
    };
    if (fault_config) limit = fault_limit();

    std::vector<Intrusive_ptr<Data_store>> ds;
    std::size_t per = cfg.stores ? (cfg.n + cfg.stores - 1) / cfg.stores : 0;
    for (std::size_t k = 0; k < cfg.stores; ++k) {
        std::size_t f = std::min(k * per, cfg.n), l = std::min((k + 1) * per, cfg.n);
        ds.emplace_back(make_intrusive<Probe_store>(f, l));
    }
    Data_reader_params p{};
    p.dataset = ds;
    p.batch_size = cfg.batch;
    p.num_prefetched_examples = cfg.prefetch;
    p.num_parallel_reads = cfg.parallel;
    p.last_example_handling = cfg.last;

    std::vector<Intrusive_ptr<Example>> kept;
    std::vector<Expected> kept_exp;

    auto reader = make_intrusive<Probe_reader>(p, env);
    // Those of the reader itself; what the flow graph does with the messages
    // it holds is atomic.
    s.atomics = s.atomic_rmw = cfg.atomics;
    s.atomics_begin = static_cast<Parallel_data_reader *>(reader.get());
    s.atomics_end = static_cast<Parallel_data_reader *>(reader.get()) + 1;
    MC_CHECK(env.fetched == 0, "fetch before the first read", "instances fetched by the constructor");

    auto compare = [&](const Intrusive_ptr<Example> &ex, const char *op) {
        bool faulty = fault_config && env.faulty();
        if (ex == nullptr) {
            log += '0';
            MC_CHECK(!(faulty && pos >= limit), "error reported as end of data",
                     std::string{op} + " returns the end of data, but reading fails at batch " +
                         std::to_string(limit));
            MC_CHECK(pos == exp.size(), "end of data too early",
                     std::string{op} + " returns the end of data after " + std::to_string(pos) +
                         " of " + std::to_string(exp.size()) + " examples");
            return;
        }
        auto sp = static_cast<const Dense_tensor &>(*ex->features().at(0)).data().as<std::int64_t>();
        std::vector<std::int64_t> got{sp.begin(), sp.end()};
        log += text(got);
        MC_CHECK(pos < exp.size(), "example after the end of data",
                 std::string{op} + " returns " + text(got) + " after the last example");
        MC_CHECK(got == exp[pos].ids && ex->padding == exp[pos].padding, "wrong example",
                 std::string{op} + " returns " + text(got) + " padding " +
                     std::to_string(ex->padding) + " instead of " + text(exp[pos].ids) +
                     " padding " + std::to_string(exp[pos].padding));
        MC_CHECK(!(faulty && pos >= limit), "data returned past an error",
                 std::string{op} + " returns batch " + std::to_string(exp[pos].batch_index) +
                     " although an earlier or the same batch fails");
        MC_CHECK(!failed, "data after an error", std::string{op} + " returns data after an error was reported");
    };
    auto consume = [&] {
        mc::touch(&env.o_fetch, 23);
        ++pos;
        env.delivered = pos;
        env.consumed_batches = pos == exp.size() ? exp.back().batch_index + 1
                               : pos == 0        ? 0
                                                 : exp[pos - 1].batch_index + 1;
    };
    auto on_error = [&](const std::exception &e) {
        log += 'E';
        MC_CHECK(fault_config && env.faulty(), "unexpected exception", e.what());
        failed = true;
    };
    auto read = [&]() -> int {  // 1 data, 0 end, -1 error
        env.read_requested = true;
        try {
            auto ex = reader->read_example();
            compare(ex, "read");
            if (ex == nullptr) return 0;
            kept.push_back(ex);
            kept_exp.push_back(exp[pos]);
            consume();
            return 1;
        }
        catch (const std::exception &e) {
            on_error(e);
            return -1;
        }
    };
    auto bytes = [&](bool exact) {
        std::size_t want = 0, total = 0;
        for (std::size_t i = 0; i < exp.size(); ++i) {
            total += exp[i].bytes;
            if (i < pos) want += exp[i].bytes;
        }
        std::size_t got = reader->num_bytes_read();
        if (exact)
            MC_CHECK(got == want, "wrong number of bytes read",
                     std::to_string(got) + " instead of " + std::to_string(want));
        else
            MC_CHECK(got >= want && got <= total, "wrong number of bytes read",
                     std::to_string(got) + " not within " + std::to_string(want) + ".." + std::to_string(total));
    };
    std::size_t max_reads = exp.size() + 3;
    for (char op : cfg.script) {
        log += op;
        switch (op) {
        case 'r':
            read();
            break;
        case 'p':
            env.read_requested = true;
            try {
                compare(reader->peek_example(), "peek");
                // The peeked example has left the queues.
                if (pos < exp.size()) env.consumed_batches = exp[pos].batch_index + 1;
            }
            catch (const std::exception &e) {
                on_error(e);
            }
            break;
        case 'S': {
            std::size_t before = env.fetched;
            bool first = !env.read_requested;
            try {
                auto sc = reader->read_schema();
                MC_CHECK(sc != nullptr, "no schema", "read_schema returns null");
            }
            catch (const std::exception &e) {
                on_error(e);
            }
            MC_CHECK(!first || env.fetched <= before + 1, "read-ahead by schema inference",
                     std::to_string(env.fetched) + " instances fetched");
            break;
        }
        case 'd': {
            int r = 1;
            std::size_t k = 0;
            while ((r = read()) == 1)
                MC_CHECK(++k <= max_reads, "endless data", "more examples than the dataset has");
            if (r == 0) bytes(true);
            break;
        }
        case 'b':
            bytes(false);
            break;
        case 'R':
            reader->reset();
            pos = 0;
            failed = false;
            env.fetched = 0;
            env.delivered = 0;
            env.consumed_batches = 0;
            ++env.epoch;
            MC_CHECK(reader->num_bytes_read() == 0, "byte count not restarted", "nonzero byte count after reset");
            MC_CHECK(env.decoding == 0, "tasks survive a reset", "a batch is being decoded after reset()");
            break;
        case 'x':
            reader = nullptr;
            env.alive = false;
            MC_CHECK(mc::live_fibers() == 1, "threads survive the reader",
                     "threads are running after the reader is destroyed");
            break;
        default:
            std::abort();
        }
    }
    if (reader != nullptr) {
        if (log.find('E') == std::string::npos && cfg.script.back() == 'd') {
            // The end is final.
            MC_CHECK(reader->read_example() == nullptr, "data after the end of data", "read after the end");
            MC_CHECK(reader->peek_example() == nullptr, "data after the end of data", "peek after the end");
        }
        reader = nullptr;
    }
    env.alive = false;
    MC_CHECK(mc::live_fibers() == 1, "threads survive the reader",
             "threads are running after the reader is destroyed");
    // Examples already returned are unchanged.
    for (std::size_t i = 0; i < kept.size(); ++i) {
        auto sp = static_cast<const Dense_tensor &>(*kept[i]->features().at(0)).data().as<std::int64_t>();
        MC_CHECK((std::vector<std::int64_t>{sp.begin(), sp.end()}) == kept_exp[i].ids, "delivered example changed",
                 "an example changed after it was returned");
    }
    mc::outcome(cfg.text() + log + std::to_string(env.max_decoding));
    mc::traces();
    if (exp.size() > 1) mc::nontrivial();
    mc::sample(cfg.text() + " -> " + log);
}

mc::Suite suite(std::string name, std::string what, std::vector<Config> cs, int bound, bool cache)
{
    mc::Suite s;
    s.name = std::move(name);
    s.what = std::move(what);
    s.ncases = cs.size();
    auto v = std::make_shared<std::vector<Config>>(std::move(cs));
    s.run = [v](std::size_t i) { run((*v)[i]); };
    s.describe = [v](std::size_t i) { return (*v)[i].text(); };
    s.bound = [bound](std::size_t) { return bound; };
    s.hb_cache = cache;
    s.shards = 1;
    return s;
}

}  // namespace

std::vector<mc::Suite> mc::make_suites(Tier t)
{
    bool th = t == Tier::thorough;
    std::vector<Suite> r;
    std::vector<std::pair<std::size_t, std::size_t>> pr{{1, 1}, {2, 1}, {2, 2}, {1, 0}, {0, 0}, {3, 2}};

    // ---- C01
    {
        std::vector<Config> deep, wide;
        for (auto [p, q] : pr)
            for (unsigned w : {1u, 2u, 3u})
                for (int pol : {0, 1, 2})
                    for (std::size_t n : {0u, 1u, 3u, 5u})
                        for (std::size_t b : {1u, 2u})
                            for (int l = 0; l < 5; ++l) {
                                if (l != 0 && (b == 1 || n % b == 0)) continue;
                                Config c;
                                c.n = n;
                                c.batch = b;
                                c.prefetch = p;
                                c.parallel = q;
                                c.workers = w;
                                c.policy = pol;
                                c.last = static_cast<Last_example_handling>(l);
                                c.stores = n > 3 ? 2 : 1;
                                c.script = "d";
                                wide.push_back(c);
                                if (n > 1 && l == 0) {
                                    c.skip_mask = 2;
                                    wide.push_back(c);
                                    c.skip_mask = 5;
                                    wide.push_back(c);
                                    c.script = "rprprd";
                                    wide.push_back(c);
                                    c.skip_mask = 0;
                                    c.script = "Sbrbpbd";
                                    wide.push_back(c);
                                }
                            }
        for (auto [p, q] : pr)
            for (int pol : {0, 1, 2}) {
                Config c;
                c.n = 3;
                c.prefetch = p;
                c.parallel = q;
                c.policy = pol;
                c.workers = 2;
                c.script = "d";
                deep.push_back(c);
                c.n = 4;
                c.skip_mask = 2;
                deep.push_back(c);
                if (p == 0 || p == 3) {
                    c.workers = 3;
                    c.skip_mask = 0;
                    deep.push_back(c);
                }
            }
        std::vector<Config> atomics;
        for (auto [p, q] : pr)
            for (unsigned w : {2u, 3u})
                for (int pol : {0, 1, 2})
                    for (unsigned skip : {0u, 2u})
                        for (const char *script : {"d", "rbrbd", "rRd"}) {
                            Config c;
                            c.n = 3;
                            c.prefetch = p;
                            c.parallel = q;
                            c.workers = w;
                            c.policy = pol;
                            c.skip_mask = skip;
                            c.atomics = true;
                            c.script = script;
                            atomics.push_back(c);
                        }
        r.push_back(suite("C01/atomics", "each access to an atomic of the reader is a scheduling point", atomics,
                          th ? 3 : 2, true));
        r.push_back(suite("C01/wide", "all configurations, few deviations", wide, th ? 2 : 1, false));
        r.push_back(suite("C01/deep", "small datasets, more deviations", deep, th ? 5 : 3, true));
    }
    // ---- C02
    {
        std::vector<Config> atomics;
        for (auto [p, q] : pr)
            for (int pol : {0, 1, 2})
                for (int k : {-1, 1, 2})
                    for (const char *script : {"r", "rRd", "rrRrd", "ddRd"}) {
                        Config c;
                        c.n = 4;
                        c.prefetch = p;
                        c.parallel = q;
                        c.policy = pol;
                        c.fault_decode = k == 1 ? 1 : -1;
                        c.fault_fetch = k == 2 ? 2 : -1;
                        c.atomics = true;
                        c.script = script;
                        atomics.push_back(c);
                    }
        r.push_back(suite("C02/atomics", "each access to an atomic of the reader is a scheduling point", atomics,
                          th ? 3 : 2, true));
        std::vector<Config> wide, deep;
        std::vector<std::string> plain{"xx", "Rd", "rRd", "rrRd", "rrrRd", "dRd", "pRd", "rRRd", "rRrRd",
                                       "SRd", "r", "rr", "rrr", "p", "pr", "rp", "dx", "rpRpd"};
        std::vector<std::string> faulty{"ddd", "dpr", "d", "dRd", "r", "rr", "rRd", "rrRd", "rRRd", "ddRdRd",
                                        "pdRd", "SdRd", "dRRd", "rpRd"};
        plain[0] = "x";
        for (auto [p, q] : pr)
            for (unsigned w : {1u, 2u, 3u})
                for (int pol : {0, 1, 2}) {
                    Config c;
                    c.prefetch = p;
                    c.parallel = q;
                    c.workers = w;
                    c.policy = pol;
                    c.n = 5;
                    for (auto &s : plain) {
                        c.script = s;
                        c.batch = 1;
                        wide.push_back(c);
                        if (s.size() > 3) {
                            c.batch = 2;
                            wide.push_back(c);
                        }
                    }
                    c.batch = 1;
                    for (auto &s : faulty)
                        for (int k : {0, 2, 4}) {
                            Config f = c;
                            f.script = s;
                            f.fault_fetch = k;
                            wide.push_back(f);
                            f.fault_fetch = -1;
                            f.fault_decode = k;
                            wide.push_back(f);
                            if (k == 2) {
                                f.fault_fetch = 3;
                                wide.push_back(f);
                                f.skip_mask = 2;
                                wide.push_back(f);
                            }
                            if (k == 0) {
                                f.fault_decode = -1;
                                f.fault_schema = 1;
                                wide.push_back(f);
                            }
                        }
                }
        for (auto [p, q] : pr)
            for (int pol : {0, 1, 2}) {
                Config c;
                c.prefetch = p;
                c.parallel = q;
                c.policy = pol;
                c.n = 4;
                for (const char *s : {"rRd", "r", "rr", "rrRd", "rRrRd"}) {
                    c.script = s;
                    deep.push_back(c);
                }
                for (const char *s : {"dRd", "d", "rRd", "r"}) {
                    Config f = c;
                    f.script = s;
                    f.fault_decode = 1;
                    deep.push_back(f);
                    f.fault_decode = -1;
                    f.fault_fetch = 1;
                    deep.push_back(f);
                }
            }
        r.push_back(suite("C02/wide", "scripts with faults, resets and destruction", wide, th ? 2 : 1, false));
        r.push_back(suite("C02/deep", "the same on small datasets, more deviations", deep, th ? 5 : 3, true));
    }
    // ---- C03
    {
        std::vector<Config> wide, deep;
        for (auto [p, q] : pr)
            for (unsigned w : {1u, 2u, 3u})
                for (int pol : {0, 1, 2})
                    for (std::size_t b : {1u, 2u})
                        for (const char *s : {"S", "r", "rr", "rrrr", "p", "prpr", "rRr", "d"}) {
                            Config c;
                            c.n = (2 * p + q + 4) * b + (p == 0 ? 6 : 0);
                            c.batch = b;
                            c.prefetch = p;
                            c.parallel = q;
                            c.workers = w;
                            c.policy = pol;
                            c.script = s;
                            wide.push_back(c);
                            if (b == 1 && std::string{s}.size() < 3) {
                                c.skip_mask = 0x12;
                                wide.push_back(c);
                            }
                        }
        for (auto [p, q] : pr)
            for (int pol : {0, 1, 2})
                for (unsigned w : {2u, 3u}) {
                    Config c;
                    c.prefetch = p;
                    c.parallel = q;
                    c.policy = pol;
                    c.workers = w;
                    c.n = 2 * p + q + 4;
                    c.script = "r";
                    deep.push_back(c);
                }
        r.push_back(suite("C03/wide", "slow consumers on long datasets", wide, th ? 2 : 1, false));
        r.push_back(suite("C03/deep", "the same, more deviations", deep, th ? 4 : 2, true));
    }
    return r;
}
