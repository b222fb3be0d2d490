// C11: RecordIO framing. C12: RecordIO-protobuf tensors.
#include "rows.h"
#include "encode.h"

#include <mlio/data_reader_error.h>
#include <mlio/logging.h>
#include <mlio/mlio_error.h>
#include <mlio/recordio_protobuf_reader.h>
#include <mlio/schema.h>

#include "mlio/instance_readers/instance_reader.h"
#include "mlio/record_readers/recordio_record_reader.h"

#include <cmath>
#include <map>

using namespace mlio;
using namespace sup;

namespace mc {
const char *const harness_name = "recordio";
}

namespace {

// ------------------------------------------------------------ references

struct Rec {
    std::string payload;
    unsigned kind;
};

struct Parsed {
    std::vector<Rec> recs;
    bool error = false;
    bool padding = false;  // the only defect is missing padding at the end
};

std::uint32_t get32(const std::string &s, std::size_t p)
{
    std::uint32_t v = 0;
    for (std::size_t i = 4; i-- > 0;) v = v << 8 | static_cast<unsigned char>(s[p + i]);
    return v;
}

Parsed parse(const std::string &s)
{
    Parsed r;
    std::size_t p = 0;
    while (p < s.size()) {
        std::size_t left = s.size() - p;
        if (left < 8 || get32(s, p) != 0xced7230au) {
            r.error = true;
            return r;
        }
        std::uint32_t d = get32(s, p + 4);
        std::size_t n = d & 0x1fffffffu, full = 8 + (n + 3) / 4 * 4;
        if (full > left) {
            r.error = true;
            if (8 + n <= left) {
                r.padding = true;
                r.recs.push_back({s.substr(p + 8, n), d >> 29});
            }
            return r;
        }
        r.recs.push_back({s.substr(p + 8, n), d >> 29});
        p += full;
    }
    return r;
}

// The instances of stores.
struct Insts {
    std::vector<std::string> payloads;
    bool error = false;
};

Insts merge(const std::vector<std::string> &stores)
{
    Insts r;
    for (auto &s : stores) {
        auto p = parse(s);
        std::string open;
        bool in = false;
        for (auto &x : p.recs) {
            switch (x.kind) {
            case 0:
                if (in) r.error = true;
                else r.payloads.push_back(x.payload);
                break;
            case 1:
                if (in) r.error = true;
                in = true;
                open = x.payload;
                break;
            case 2:
            case 3:
                if (!in) r.error = true;
                open += x.payload;
                if (x.kind == 3 && !r.error) {
                    r.payloads.push_back(open);
                    in = false;
                }
                break;
            default: r.error = true;
            }
            if (r.error) return r;
        }
        if (p.error || in) {
            r.error = true;
            return r;
        }
    }
    return r;
}

// --------------------------------------------------------------- framing

const std::string magic{"\x0a\x23\xd7\xce"};

// A payload; it begins with a magic number, like a record.
std::string payload(std::size_t n, std::size_t salt)
{
    std::string s = magic;
    s += static_cast<char>(salt);
    while (s.size() < n) s += static_cast<char>('a' + (s.size() + salt) % 26);
    return s.substr(0, n);
}

struct Way {
    int mode;
    std::size_t piece, chunk;
    std::uint64_t cuts = 0;
    std::string text() const
    {
        std::ostringstream o;
        o << "mode " << mode << " pieces " << piece << " cuts " << cuts << " chunk " << chunk << ": ";
        return o.str();
    }
};

// At most `piece` bytes at a time.
class Pieces final : public Input_stream_base {
public:
    Pieces(std::string d, std::size_t p, bool seekable) : d_{std::move(d)}, p_{p}, seekable_{seekable} {}
    using Input_stream_base::read;
    std::size_t read(Mutable_memory_span o) override
    {
        if (closed_) throw Stream_error{"The input stream is closed."};
        std::size_t n = std::min({o.size(), p_, d_.size() - pos_});
        std::copy_n(reinterpret_cast<const std::byte *>(d_.data()) + pos_, n, o.begin());
        pos_ += n;
        return n;
    }
    void seek(std::size_t p) override
    {
        if (!seekable_) return Input_stream_base::seek(p);
        pos_ = std::min(p, d_.size());
    }
    void close() noexcept override { closed_ = true; }
    bool closed() const noexcept override { return closed_; }
    bool seekable() const noexcept override { return seekable_; }

private:
    std::string d_;
    std::size_t p_, pos_ = 0;
    bool seekable_, closed_ = false;
};

Intrusive_ptr<Input_stream> open(const std::string &bytes, const Way &w)
{
    if (w.mode == 0) return make_intrusive<Memory_input_stream>(slice(bytes));
    if (w.mode == 3) return make_intrusive<Piecewise_stream>(bytes, w.cuts);
    if (w.piece) return make_intrusive<Pieces>(bytes, w.piece, w.mode == 2);
    return make_intrusive<Short_stream>(bytes, w.cuts, w.mode == 2);
}

std::string show(const std::vector<Rec> &v)
{
    std::string s;
    for (auto &x : v) s += (s.empty() ? "" : " ") + std::to_string(x.kind) + ":" + (x.payload.size() > 40 ? std::to_string(x.payload.size()) : mc::quote(x.payload));
    return s;
}

void frames(const std::string &bytes, const Parsed &want, const Way &w, const std::string &what)
{
    mlio_verif::chunk_size = w.chunk;
    auto r = make_intrusive<detail::Recordio_record_reader>(open(bytes, w));
    std::vector<std::pair<Record, std::string>> held;
    std::vector<Rec> got;
    bool error = false;
    auto where = [&] { return what + " " + w.text(); };
    try {
        while (auto x = r->read_record()) {
            MC_CHECK(got.size() <= want.recs.size(), "record that does not exist", where() + show(got));
            got.push_back({str(x->payload()), static_cast<unsigned>(x->kind())});
            held.emplace_back(*x, got.back().payload);
            mc::transition();
        }
    }
    catch (const Record_error &) {
        error = true;
    }
    catch (const std::exception &e) {
        mc::fail("wrong kind of error", where() + e.what());
    }
    // Missing padding at the very end may or may not be an error.
    auto expected = want.recs;
    if (want.padding && error) expected.pop_back();
    bool ok = got.size() == expected.size();
    for (std::size_t i = 0; ok && i < got.size(); ++i) ok = got[i].payload == expected[i].payload && got[i].kind == expected[i].kind;
    MC_CHECK(ok, "wrong records", where() + show(got) + " instead of " + show(expected));
    if (!want.padding) MC_CHECK(error == want.error, error ? "intact records are rejected" : "corrupt data passes", where() + show(got));
    for (auto &h : held) MC_CHECK(str(h.first.payload()) == h.second, "record changed after it was read", where());
    r = nullptr;
    for (auto &h : held) MC_CHECK(str(h.first.payload()) == h.second, "record changed after the reader is gone", where());
    if (!error) return;
}

const std::vector<std::size_t> pieces{1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 16, 100};
const std::vector<std::size_t> chunks{1, 4, 7, 8, 12, 13, 16, 24, 4096};

void framing(const std::vector<std::size_t> &sizes, bool th)
{
    std::string bytes;
    std::vector<std::size_t> ends{0};
    for (std::size_t i = 0; i < sizes.size(); ++i) {
        bytes += enc::record(payload(sizes[i], i), i % 4);
        ends.push_back(bytes.size());
    }
    std::size_t n = 0, errors = 0;
    for (std::size_t len = bytes.size() + 1; len-- > 0;) {
        auto b = bytes.substr(0, len);
        auto want = parse(b);
        errors += want.error;
        std::string what = std::to_string(len) + " of " + mc::quote(bytes);
        frames(b, want, {0, 0, 4096}, what);
        ++n;
        for (auto c : chunks)
            for (auto p : pieces) {
                if (!th && len != bytes.size() && (p + c) % 3) continue;
                frames(b, want, {1 + static_cast<int>((p + c) % 2), p, c}, what);
                ++n;
            }
    }
    mc::evaluations(n - 1);
    mc::traces(n);
    mc::nontrivial(n);
    mc::outcome(bytes);
    mc::state(mc::hash(bytes));
    mc::sample(std::to_string(sizes.size()) + " records, " + std::to_string(n) + " ways, " + std::to_string(errors) + " truncations rejected");
}

// Every way to cut into short reads.
void partitions(const std::vector<std::size_t> &sizes)
{
    std::string bytes;
    for (std::size_t i = 0; i < sizes.size(); ++i) bytes += enc::record(payload(sizes[i], i), 0);
    auto want = parse(bytes);
    std::size_t bits = bytes.size() - 1, n = 0;
    for (std::uint64_t cuts = 0; cuts < 1ull << bits; ++cuts) {
        frames(bytes, want, {(cuts >> 2) % 5 ? 1 : 3, 0, chunks[cuts % chunks.size()], cuts}, mc::quote(bytes));
        ++n;
    }
    mc::evaluations(n - 1);
    mc::traces(n);
    mc::nontrivial(n);
}

// Every byte replaced.
void mutations(const std::vector<std::pair<std::size_t, unsigned>> &recs, bool th)
{
    std::string bytes;
    std::vector<std::size_t> heads;
    for (std::size_t i = 0; i < recs.size(); ++i) {
        heads.push_back(bytes.size());
        bytes += enc::record(payload(recs[i].first, i), recs[i].second);
    }
    std::size_t n = 0, errors = 0;
    for (std::size_t i = 0; i < bytes.size(); ++i)
        for (int v = 0; v < 256; ++v) {
            auto b = bytes;
            if (static_cast<unsigned char>(b[i]) == v) continue;
            b[i] = static_cast<char>(v);
            auto want = parse(b);
            errors += want.error;
            std::string what = "byte " + std::to_string(i) + " is " + std::to_string(v) + " in " + mc::quote(bytes);
            frames(b, want, {0, 0, 4096}, what);
            ++n;
            // A huge size would make the streaming reader get as much memory.
            bool big = false;
            for (auto h : heads) big |= i >= h + 6 && i < h + 8 && (v & 0x1f);
            if (big && !(v == 1 && i % 4 == 2)) continue;
            for (auto c : {8u, 12u, 4096u})
                for (auto p : {1u, 5u, 100u}) {
                    if (!th && (v + c + p) % 3) continue;
                    frames(b, want, {1, p, c}, what);
                    ++n;
                }
        }
    // All kinds of trailing garbage.
    for (std::size_t k = 1; k <= 12; ++k)
        for (char fill : {'\0', '\n', '\xff'}) {
            auto b = bytes + std::string(k, fill);
            auto want = parse(b);
            for (auto c : {8u, 12u, 4096u})
                for (auto p : {1u, 5u, 100u}) frames(b, want, {1, p, c}, "trailing garbage"), ++n;
            frames(b, want, {0, 0, 4096}, "trailing garbage");
        }
    mc::evaluations(n - 1);
    mc::traces(n);
    mc::nontrivial(errors);
    mc::outcome(bytes);
    mc::sample(std::to_string(errors) + " corrupted headers rejected of " + std::to_string(n) + " reads");
}

// ------------------------------------------------------- split records

struct Split {
    std::vector<unsigned> kinds;
    std::size_t first_store;  // records in the first of two stores
    std::string text() const
    {
        std::string s;
        for (std::size_t i = 0; i < kinds.size(); ++i) s += (i == first_store ? "| " : "") + std::to_string(kinds[i]) + " ";
        return s + "in " + (first_store <= kinds.size() ? "two stores" : "one store");
    }
};

std::vector<std::string> split_stores(const Split &c)
{
    std::vector<std::string> s(c.first_store <= c.kinds.size() ? 2 : 1);
    const std::size_t sizes[] = {3, 4, 0, 6, 1, 9};
    for (std::size_t i = 0; i < c.kinds.size(); ++i)
        s[i < c.first_store ? 0 : 1] += enc::record(payload(sizes[i % 6], i + 1), c.kinds[i]);
    return s;
}

void split(const Split &c, bool th)
{
    auto bytes = split_stores(c);
    // Also cut short within the last record.
    for (std::size_t cut = 0; cut <= (th ? 9u : 5u); ++cut) {
        if (cut > 0) {
            if (bytes.back().empty()) break;
            bytes.back().pop_back();
        }
        auto want = merge(bytes);
        bool pad = parse(bytes.back()).padding;
        for (auto &w : std::vector<Way>{{0, 0, 4096}, {1, 3, 8}, {2, 100, 12}, {3, 0, 8, 0x2492}}) {
            mlio_verif::chunk_size = w.chunk;
            Data_reader_params p;
            for (std::size_t i = 0; i < bytes.size(); ++i) {
                auto b = bytes[i];
                p.dataset.push_back(make_intrusive<Fn_store>("s" + std::to_string(i), [b, w] { return open(b, w); }));
            }
            auto r = detail::make_instance_reader(p, [](const Data_store &s) -> Intrusive_ptr<Record_reader> {
                return make_intrusive<detail::Recordio_record_reader>(s.open_read());
            });
            for (int epoch = 0; epoch < 3; ++epoch) {
                std::vector<std::string> got;
                std::vector<Instance> held;
                bool error = false;
                std::size_t stop = epoch == 1 ? 1 : 100;
                for (std::size_t k = 0; k < stop; ++k) {
                    try {
                        // Peeking does not change what is read.
                        if ((k + cut) % 2) {
                            auto a = r->peek_instance();
                            (void)a;
                        }
                        auto x = r->read_instance();
                        if (!x) break;
                        held.push_back(*x);
                        got.push_back(str(x->bits()));
                        mc::transition();
                    }
                    catch (const Mlio_error &) {
                        error = true;
                        break;
                    }
                    catch (const std::exception &e) {
                        mc::fail("wrong kind of error", c.text() + w.text() + e.what());
                    }
                }
                auto text = [&] { return c.text() + " cut by " + std::to_string(cut) + ", " + w.text() + join(got) + " instead of " + join(want.payloads) + (want.error ? " and an error" : ""); };
                if (epoch != 1) {
                    if (!pad) {
                        MC_CHECK(got == want.payloads, "wrong instances", text());
                        MC_CHECK(error == want.error, error ? "intact records are rejected" : "corrupt data passes", text());
                    }
                    if (error)
                        for (int k = 0; k < 2; ++k) {
                            bool again = false;
                            try {
                                r->read_instance();
                            }
                            catch (const Mlio_error &) {
                                again = true;
                            }
                            MC_CHECK(again, "data after an error", text());
                        }
                }
                else if (!want.payloads.empty() && !pad) MC_CHECK(got.size() == 1 && got[0] == want.payloads[0], "wrong instances", text());
                for (std::size_t i = 0; i < held.size(); ++i) MC_CHECK(str(held[i].bits()) == got[i], "instance changed after it was read", text());
                r->reset();
                mc::traces();
            }
        }
    }
    auto want = merge(split_stores(c));
    mc::outcome(join(want.payloads) + (want.error ? "!" : ""));
    mc::state(mc::hash(c.text()));
    if (want.error || want.payloads.size() < c.kinds.size()) mc::nontrivial();
    mc::sample(c.text() + ": " + join(want.payloads) + (want.error ? " and an error" : ""));
}

// Records of so many bytes, whole and in so many parts.
void long_records(std::size_t size, std::size_t parts, std::size_t chunk)
{
    std::string payload(size, 'x');
    for (std::size_t i = 0; i < size; ++i) payload[i] = static_cast<char>(i * 7 + i / 256 + i / 65536);
    std::string bytes = enc::record("a", 0);
    if (parts == 1) bytes += enc::record(payload, 0);
    else
        for (std::size_t k = 0; k < parts; ++k)
            bytes += enc::record(payload.substr(size * k / parts, size * (k + 1) / parts - size * k / parts), k == 0 ? 1 : k + 1 == parts ? 3 : 2);
    bytes += enc::record("z", 0);
    auto text = [&] { return std::to_string(size) + " bytes in " + std::to_string(parts) + " records, chunks of " + std::to_string(chunk); };
    for (int mode = 0; mode < 2; ++mode) {
        mlio_verif::chunk_size = chunk;
        Data_reader_params p;
        p.dataset = {store(bytes, mode)};
        auto r = detail::make_instance_reader(p, [](const Data_store &s) -> Intrusive_ptr<Record_reader> {
            return make_intrusive<detail::Recordio_record_reader>(s.open_read());
        });
        for (int epoch = 0; epoch < 2; ++epoch) {
            std::vector<Instance> held;
            while (auto i = r->read_instance()) held.push_back(*i);
            MC_CHECK(held.size() == 3, "wrong number of instances", text() + ": " + std::to_string(held.size()));
            MC_CHECK(str(held[0].bits()) == "a" && str(held[1].bits()) == payload && str(held[2].bits()) == "z", "wrong instances", text());
            mc::transition();
            r->reset();
        }
    }
    mc::traces();
    mc::outcome(text());
    mc::state(mc::hash(text()));
    mc::nontrivial();
}

// The same through a reader.
void reader(const Split &c, std::size_t batch)
{
    // Complete messages, split over several records.
    std::vector<std::string> bytes(c.first_store <= c.kinds.size() ? 2 : 1);
    std::string message;
    int value = 0;
    std::size_t taken = 0;
    for (std::size_t i = 0; i < c.kinds.size(); ++i) {
        unsigned k = c.kinds[i];
        if (k == 0 || k == 1 || message.empty()) {
            enc::Message m;
            m.entries = {{false, "a", {enc::Kind::i32, {double(++value)}, {}, {}}}};
            message = m.encode();
            taken = 0;
        }
        std::string part;
        if (k == 0) part = message;
        else if (k == 3) part = message.substr(std::min(taken, message.size()));
        else {
            part = message.substr(std::min(taken, message.size()), 3);
            taken += 3;
        }
        bytes[i < c.first_store ? 0 : 1] += enc::record(part, k);
    }
    auto want = merge(bytes);
    for (int mode = 0; mode < 2; ++mode) {
        mlio_verif::chunk_size = 16;
        Data_reader_params p;
        for (auto &b : bytes) p.dataset.push_back(store(b, mode, 0x24924924924ull));
        p.batch_size = batch;
        p.num_prefetched_examples = 1;
        auto r = make_intrusive<Recordio_protobuf_reader>(p);
        for (int epoch = 0; epoch < 2; ++epoch) {
            std::vector<std::string> got;
            bool error = false;
            try {
                while (auto e = r->read_example())
                    for (auto &x : rows(*e)) got.push_back(x);
            }
            catch (const Mlio_error &) {
                error = true;
            }
            catch (const std::exception &e) {
                mc::fail("wrong kind of error", c.text() + ": " + e.what());
            }
            std::string s = c.text() + ": " + join(got);
            MC_CHECK(error == want.error, error ? "intact records are rejected" : "corrupt data passes", s);
            MC_CHECK(got.size() <= want.payloads.size(), "wrong examples", s);
            for (std::size_t i = 0; i < got.size(); ++i) MC_CHECK(got[i] == "a: " + std::to_string(i + 1), "wrong examples", s);
            if (!error) MC_CHECK(got.size() == want.payloads.size(), "wrong examples", s);
            r->reset();
            mc::traces();
        }
    }
    mc::outcome(join(want.payloads) + (want.error ? "!" : ""));
    mc::nontrivial();
}

// --------------------------------------------------------------- protobuf

using enc::Kind;
using enc::Message;
using enc::Value;
typedef unsigned __int128 u128;

std::string num(double d, Kind k)
{
    std::ostringstream o;
    if (k == Kind::f32) o << static_cast<float>(d);
    else if (k == Kind::f64) o << d;
    else o << static_cast<std::int32_t>(d);
    return o.str();
}

struct Ref_attr {
    Kind kind;
    bool sparse;
    std::vector<std::uint64_t> shape;  // without the batch
};

using Ref_schema = std::map<std::string, Ref_attr>;

const u128 limit = static_cast<u128>(1) << 63;

std::string describe(const Value &v)
{
    std::ostringstream o;
    o << (v.kind == Kind::f32 ? "f32" : v.kind == Kind::f64 ? "f64" : v.kind == Kind::i32 ? "i32" : v.kind == Kind::bytes ? "bytes" : "none") << "[";
    for (auto x : v.values) o << ' ' << x;
    o << " keys";
    for (auto x : v.keys) o << ' ' << x;
    o << " shape";
    for (auto x : v.shape) o << ' ' << x;
    o << "]";
    return o.str();
}

std::string describe(const Message &m)
{
    std::string s = "{";
    for (auto &e : m.entries) s += (e.label ? " label " : " ") + e.name + "=" + describe(e.value);
    return s + " }";
}

// The entries of a message by name; equal keys of a map: the last one.
std::map<std::pair<bool, std::string>, Value> entries(const Message &m)
{
    std::map<std::pair<bool, std::string>, Value> r;
    for (auto &e : m.entries) r[{e.label, e.name}] = e.value;
    return r;
}

// None: the schema cannot be inferred.
std::optional<Ref_schema> ref_schema(const Message &m)
{
    Ref_schema s;
    for (auto &[key, v] : entries(m)) {
        std::string name = (key.first ? "label_" : "") + key.second;
        if (s.count(name)) return {};
        if (v.kind == Kind::bytes || v.kind == Kind::none) return {};
        Ref_attr a{v.kind, false, v.shape};
        if (v.keys.empty()) {
            if (v.shape.empty()) a.shape = {v.values.size()};
            else a.sparse = v.values.empty();
        }
        else {
            if (v.shape.empty()) return {};
            a.sparse = true;
        }
        s[name] = a;
    }
    return s;
}

// The row of a good message; none: a bad instance.
std::optional<std::string> ref_row(const Ref_schema &s, const Message &m)
{
    std::map<std::string, std::string> r;
    for (auto &[key, v] : entries(m)) {
        std::string name = (key.first ? "label_" : "") + key.second;
        auto it = s.find(name);
        if (it == s.end() || r.count(name)) return {};
        auto &a = it->second;
        if (v.kind != a.kind) return {};
        bool sparse = !v.keys.empty() || (v.values.empty() && !v.shape.empty());
        if (sparse != a.sparse) return {};
        if (v.shape.empty()) {
            if (a.shape.size() != 1 || a.shape[0] != v.values.size()) return {};
        }
        else if (v.shape != a.shape) return {};
        std::string row;
        if (!sparse) {
            u128 n = 1;
            for (auto d : a.shape) {
                n *= d;
                if (n >= limit) return {};
            }
            if (n != v.values.size()) return {};
            for (auto x : v.values) row += (row.empty() ? "" : " ") + num(x, v.kind);
        }
        else {
            if (v.keys.size() != v.values.size()) return {};
            std::map<std::string, std::string> cells;
            for (std::size_t i = 0; i < v.keys.size(); ++i) {
                std::uint64_t k = v.keys[i];
                std::string c;
                // From the last dimension to the first.
                std::vector<std::uint64_t> idx(a.shape.size());
                for (std::size_t d = a.shape.size(); d-- > 0;) {
                    if (a.shape[d] == 0) return {};
                    if (d == 0) {
                        if (k >= a.shape[0]) return {};
                        idx[0] = k;
                    }
                    else {
                        idx[d] = k % a.shape[d];
                        k /= a.shape[d];
                    }
                }
                for (std::size_t d = 0; d < idx.size(); ++d) c += (d ? "," : "") + std::to_string(idx[d]);
                cells[c] += (cells.count(c) ? "&" : "") + num(v.values[i], v.kind);
            }
            for (auto &kv : cells) row += (row.empty() ? "" : " ") + kv.first + "=" + kv.second;
        }
        r[name] = row;
    }
    if (r.size() != s.size()) return {};
    std::string row;
    for (auto &kv : r) row += (row.empty() ? "" : "; ") + kv.first + ": " + kv.second;
    return row;
}

std::string zero_row(const Ref_schema &s)
{
    std::string row;
    for (auto &[n, a] : s) {
        std::string c;
        if (!a.sparse) {
            std::uint64_t k = 1;
            for (auto d : a.shape) k *= d;
            for (std::uint64_t i = 0; i < k; ++i) c += i ? " 0" : "0";
        }
        row += (row.empty() ? "" : "; ") + n + ": " + c;
    }
    return row;
}

void protobuf(const std::vector<Message> &ms, std::size_t batch, Bad_example_handling h, bool parallel)
{
    mlio_verif::chunk_size = 4096;
    mlio_verif::parallel_cut_off = parallel ? 0 : 10'000'000;
    std::string bytes;
    for (auto &m : ms) bytes += enc::record(m.encode());
    auto text = [&] {
        std::string s = "batch " + std::to_string(batch) + " handling " + std::to_string(static_cast<int>(h)) + (parallel ? " parallel:" : ":");
        for (auto &m : ms) s += " " + describe(m);
        return s + ": ";
    };
    auto schema = ref_schema(ms[0]);
    std::vector<std::string> want;
    bool error = !schema;
    bool huge = !schema;  // any error will do
    if (schema) {
        for (auto &[n, a] : *schema) {
            // Too large to be delivered in any case.
            u128 k = 1;
            for (auto d : a.shape) k = k >= limit ? limit : k * d;
            if (!a.sparse && k > 100'000) error = huge = true;
        }
        for (std::size_t i = 0; i < ms.size() && !error; i += batch) {
            std::vector<std::string> rs;
            bool bad = false;
            std::size_t n = std::min(batch, ms.size() - i);
            for (std::size_t k = i; k < i + n; ++k) {
                auto r = ref_row(*schema, ms[k]);
                if (r) rs.push_back(*r);
                else bad = true;
            }
            if (bad) {
                if (h == Bad_example_handling::error) {
                    error = true;
                    break;
                }
                if (h == Bad_example_handling::skip) continue;
                while (rs.size() < n) rs.push_back(zero_row(*schema));
            }
            want.insert(want.end(), rs.begin(), rs.end());
        }
    }
    Data_reader_params p;
    p.dataset = {store(bytes, 0)};
    p.batch_size = batch;
    p.num_prefetched_examples = 1;
    p.bad_example_handling = h;
    auto r = make_intrusive<Recordio_protobuf_reader>(p);
    std::vector<std::string> got;
    bool failed = false;
    std::string message;
    try {
        auto sc = r->read_schema();
        if (schema && sc) {
            MC_CHECK(sc->attributes().size() == schema->size(), "wrong schema", text());
            for (auto &a : sc->attributes()) {
                auto it = schema->find(a.name());
                MC_CHECK(it != schema->end(), "wrong schema", text() + a.name());
                MC_CHECK(a.sparse() == it->second.sparse, "wrong schema", text() + a.name());
                MC_CHECK(a.shape()[0] == batch && std::vector<std::uint64_t>(a.shape().begin() + 1, a.shape().end()) == it->second.shape, "wrong schema",
                         text() + a.name());
            }
        }
        while (auto e = r->read_example()) {
            if (e->features().empty()) {
                // No features: count only.
                for (std::size_t i = 0; i < batch && got.size() < want.size(); ++i) got.push_back("");
                continue;
            }
            auto x = rows(*e);
            std::size_t kept = x.size() - e->padding;
            for (std::size_t i = 0; i < x.size(); ++i) {
                if (i >= kept) MC_CHECK(h == Bad_example_handling::pad && x[i] == zero_row(*schema), "padding is not zero", text() + x[i]);
                got.push_back(x[i]);
            }
            mc::transition();
        }
    }
    catch (const Mlio_error &e) {
        failed = true;
        message = e.what();
    }
    catch (const std::exception &e) {
        if (!huge) mc::fail("wrong kind of error", text() + e.what());
        failed = true;
    }
    if (failed) message = " and the error " + message;
    MC_CHECK(failed == error, error ? "bad data passes" : "good data is rejected", text() + join(got) + message + " instead of " + join(want));
    if (!error) MC_CHECK(got == want, "wrong rows", text() + join(got) + " instead of " + join(want));
    else {
        MC_CHECK(got.size() <= want.size(), "wrong rows", text() + join(got));
        for (std::size_t i = 0; i < got.size(); ++i) MC_CHECK(got[i] == want[i], "wrong rows", text() + join(got) + " instead of " + join(want));
    }
    mc::traces();
    if (!want.empty()) mc::nontrivial();
    mc::outcome(join(want) + (error ? "!" : ""));
    mc::state(mc::hash(text()));
    mc::sample(text() + join(want) + (error ? " and an error" : ""));
}

// Values: every combination of keys, shapes and numbers of values.
std::vector<Value> values(bool th)
{
    std::vector<Value> r;
    std::vector<std::vector<std::uint64_t>> keys{{}, {0}, {1}, {0, 1}, {3, 1}, {1, 1}, {0, 1, 2}, {4}, {5}, {6}, {~0ull}, {0, 7}};
    std::vector<std::vector<std::uint64_t>> shapes{{}, {0}, {1}, {2}, {4}, {2, 3}, {3, 2}, {1, 2}, {2, 1}, {2, 0}, {0, 2}, {1, 2, 2}, {2, 1, 3}};
    if (th) {
        keys.insert(keys.end(), {{5, 0}, {11}, {12}, {0, 1, 2, 3}});
        shapes.insert(shapes.end(), {{3}, {2, 2}, {2, 0, 2}, {1, 1, 1, 2}, {2, 3, 2}});
    }
    for (auto k : {Kind::f32, Kind::f64, Kind::i32})
        for (auto &ks : keys)
            for (auto &s : shapes)
                for (std::size_t n = 0; n <= 4; ++n) {
                    if (k != Kind::f32 && !ks.empty() && n != ks.size()) continue;
                    if (!ks.empty() && n > ks.size() + 1) continue;
                    Value v{k, {}, ks, s};
                    for (std::size_t i = 0; i < n; ++i) v.values.push_back(static_cast<double>(i + 1) + (k == Kind::i32 ? 0 : .5));
                    r.push_back(v);
                }
    for (auto k : {Kind::bytes, Kind::none}) r.push_back({k, {}, {}, {}});
    return r;
}

// A representative selection, for pairs.
std::vector<Value> some_values()
{
    std::vector<Value> r;
    auto add = [&](Kind k, std::vector<double> v, std::vector<std::uint64_t> keys, std::vector<std::uint64_t> shape) { r.push_back({k, v, keys, shape}); };
    for (auto k : {Kind::f32, Kind::f64, Kind::i32}) {
        add(k, {1}, {}, {});
        add(k, {-1, 2}, {}, {});
        add(k, {3, 4}, {}, {2});
        add(k, {5, 6}, {}, {1, 2});
        add(k, {7, 8}, {}, {2, 1});
        add(k, {9}, {}, {2});
        add(k, {}, {}, {2});
        add(k, {1}, {0}, {2});
        add(k, {2}, {1}, {2});
        add(k, {3}, {2}, {2});
        add(k, {4, 5}, {1, 0}, {2});
        add(k, {6, 7}, {0}, {2});
        add(k, {8}, {0, 1}, {2});
        add(k, {9}, {1}, {1, 2});
        add(k, {1, 2}, {3, 1}, {2, 2});
        add(k, {1, 2}, {3, 4}, {2, 2});
        add(k, {2, 1}, {4, 3}, {2, 2});
        add(k, {}, {}, {2, 2});
    }
    add(Kind::i32, {2147483647, -2147483648.0}, {}, {});
    add(Kind::f64, {1e300, -1e-300}, {}, {});
    add(Kind::f32, {INFINITY, -0.0}, {}, {});
    add(Kind::bytes, {}, {}, {});
    add(Kind::none, {}, {}, {});
    add(Kind::f32, {}, {}, {});
    add(Kind::f32, {}, {}, {0});
    // Shapes whose size does not fit in 64 bits.
    add(Kind::f32, {1}, {4294967297ull}, {4294967296ull, 4294967296ull});
    add(Kind::f32, {1, 2}, {~0ull, 4294967296ull}, {4294967296ull, 4294967296ull});
    add(Kind::f32, {1}, {}, {3, 12297829382473034411ull});
    add(Kind::f32, {1, 2}, {}, {6, 12297829382473034411ull});
    add(Kind::f32, {1}, {5}, {1ull << 63, 2});
    return r;
}

const Bad_example_handling handlings[] = {Bad_example_handling::error, Bad_example_handling::skip, Bad_example_handling::pad};

// Many values, features, coordinates, dimensions or records.
struct Wide {
    int what;
    std::size_t n;
    std::string text() const
    {
        const char *const names[] = {"values", "features", "coordinates", "coordinates of two dimensions", "dense records", "sparse records", "characters of a name",
                                     "dimensions"};
        return std::to_string(n) + " " + names[what];
    }
};

void wide(const Wide &w)
{
    std::vector<Message> ms;
    std::size_t n = w.n, batch = 2;
    auto message = [&](double seed) {
        Message m;
        Value v{Kind::i32, {}, {}, {}};
        switch (w.what) {
        case 0:
            for (std::size_t i = 0; i < n; ++i) v.values.push_back(seed + static_cast<double>(i));
            break;
        case 1:
            for (std::size_t i = 0; i < n; ++i) m.entries.push_back({false, "f" + std::to_string(i), {Kind::i32, {seed + static_cast<double>(i)}, {}, {}}});
            return m;
        case 2:
        case 3:
            for (std::size_t i = 0; i < n; ++i) {
                v.values.push_back(seed + static_cast<double>(i));
                v.keys.push_back(3 * i + static_cast<std::size_t>(seed) % 3);
            }
            v.shape = {3 * n};
            if (w.what == 3) v.shape = {3, n};
            break;
        case 6: m.entries = {{false, std::string(n, 'a') + "b", {Kind::i32, {seed}, {}, {}}}, {false, std::string(n, 'a') + "c", {Kind::i32, {-seed}, {}, {}}}}; return m;
        case 7:
            v.values = {seed, -seed};
            v.shape.assign(n, 1);
            v.shape[n / 2] = 2;
            break;
        }
        m.entries = {{false, "a", v}, {true, "l", {Kind::f32, {seed}, {}, {}}}};
        return m;
    };
    if (w.what == 4 || w.what == 5) {
        batch = n;
        for (std::size_t i = 0; i < n + 1; ++i) {
            double d = static_cast<double>(i);
            Value v{Kind::i32, {d, -d}, {}, {}};
            if (w.what == 5) {
                v = {Kind::i32, {}, {}, {7}};
                for (std::size_t k = 0; k < (i + 1) % 4; ++k) {
                    v.values.push_back(d);
                    v.keys.push_back((i + k) % 7);
                }
            }
            Message m;
            m.entries = {{false, "a", v}};
            ms.push_back(m);
        }
    }
    else
        for (double s : {100., 201., 302.}) ms.push_back(message(s));
    protobuf(ms, batch, Bad_example_handling::error, false);
    protobuf(ms, batch, Bad_example_handling::error, true);
    // One that is bad, at the end.
    if (n > 300) return;
    auto &last = ms[ms.size() - 2].entries;
    if (w.what == 1) last.back().value.values = {1, 2};
    else if (w.what == 6) last.back().value.kind = Kind::f64;
    else if (!last[0].value.values.empty()) last[0].value.values.pop_back();
    else return;
    for (auto h : handlings) protobuf(ms, batch, h, h == Bad_example_handling::skip);
}

// Names: every assignment of a few names to two messages.
std::vector<Message> named(std::size_t which)
{
    const std::vector<std::pair<bool, std::string>> names{{false, "a"}, {false, "b"}, {true, "x"}, {false, "label_x"}, {true, "a"}, {false, ""}};
    std::vector<Message> r;
    for (std::size_t m : {which % 64, which / 64}) {
        Message x;
        for (std::size_t i = 0; i < names.size(); ++i)
            if (m >> i & 1) x.entries.push_back({names[i].first, names[i].second, {Kind::i32, {static_cast<double>(i + 1 + 10 * r.size())}, {}, {}}});
        // In another order in the file.
        if (which % 2) std::reverse(x.entries.begin(), x.entries.end());
        r.push_back(x);
    }
    return r;
}

}  // namespace

std::vector<mc::Suite> mc::make_suites(Tier tier)
{
    bool th = tier == Tier::thorough;
    on_start([] {
        mlio::initialize();
        set_log_message_handler([](Log_level, std::string_view) {});
    });
    std::vector<Suite> out;
    auto add = [&](std::string name, std::string what, std::size_t n, std::size_t block, std::function<void(std::size_t)> run,
                   std::function<std::string(std::size_t)> describe = {}) {
        Suite s;
        s.name = name;
        s.what = what;
        s.ncases = n;
        s.block = block;
        s.run = run;
        s.describe = describe;
        out.push_back(s);
    };
    const std::vector<std::size_t> sizes{0, 1, 3, 4, 5, 8, 13};
    {
        auto v = std::make_shared<std::vector<std::vector<std::size_t>>>();
        Words w{std::vector<std::string>(sizes.size(), ""), th ? 4u : 3u};
        for (std::size_t i = 0; i < w.count(); ++i) {
            std::vector<std::size_t> x;
            for (auto k : w.symbols(i)) x.push_back(sizes[k]);
            v->push_back(x);
        }
        add("C11/framing", "all sequences of records x truncations x short reads x chunk sizes", v->size(), 2, [=](std::size_t i) { framing((*v)[i], th); });
        auto ps = std::make_shared<std::vector<std::vector<std::size_t>>>();
        *ps = {{0}, {1}, {4}, {0, 0}};
        if (th) ps->insert(ps->end(), {{5}, {0, 1}, {1, 0}});
        add("C11/partitions", "all partitions into short reads", ps->size(), 1, [=](std::size_t i) { partitions((*ps)[i]); });
    }
    {
        auto v = std::make_shared<std::vector<std::vector<std::pair<std::size_t, unsigned>>>>();
        for (std::size_t a : {0u, 1u, 4u, 5u, 12u})
            for (unsigned k = 0; k < 4; ++k) {
                v->push_back({{a, k}});
                for (std::size_t b : {0u, 3u, 8u}) v->push_back({{a, k}, {b, (k + 1) % 4}});
            }
        add("C11/mutations", "every byte replaced by every value", v->size(), 1, [=](std::size_t i) { mutations((*v)[i], th); });
    }
    {
        struct Long {
            std::size_t size, parts, chunk;
        };
        auto v = std::make_shared<std::vector<Long>>();
        for (std::size_t n : {300u, 65535u, 65537u, (1u << 24) + 5})
            for (std::size_t parts : {1u, 2u, 257u, 300u, 70'000u})
                for (std::size_t chunk : {64u, 4096u, 65536u, 33'554'432u}) {
                    if (parts > n || (parts > 300 && n > 65537)) continue;
                    if (chunk < 4096 && n * parts > 70'000) continue;
                    if (chunk < 65536 && n > 65537) continue;
                    if (chunk > 4096 && parts > 300 && !th) continue;
                    v->push_back({n, parts, chunk});
                }
        add("C11/long", "long records, alone and in many parts", v->size(), 1, [=](std::size_t i) { long_records((*v)[i].size, (*v)[i].parts, (*v)[i].chunk); },
            [=](std::size_t i) { return std::to_string((*v)[i].size) + " " + std::to_string((*v)[i].parts) + " " + std::to_string((*v)[i].chunk); });
    }
    {
        auto v = std::make_shared<std::vector<Split>>();
        Words w{std::vector<std::string>(5, ""), th ? 6u : 5u};
        for (std::size_t i = 0; i < w.count(); ++i) {
            std::vector<unsigned> k;
            for (auto s : w.symbols(i)) k.push_back(s == 4 ? 5 + static_cast<unsigned>(i % 3) - 1 : static_cast<unsigned>(s));
            for (std::size_t f = 0; f <= k.size() + 1; ++f) {
                if (f == 0 && k.size() > 2) continue;
                v->push_back({k, f});
            }
        }
        add("C11/split", "all sequences of split records in one or two stores", v->size(), 8, [=](std::size_t i) { split((*v)[i], th); },
            [=](std::size_t i) { return (*v)[i].text(); });
        auto u = std::make_shared<std::vector<Split>>();
        for (auto &c : *v)
            if (c.kinds.size() <= (th ? 5u : 4u)) u->push_back(c);
        add("C11/reader", "split records through a reader", u->size() * 2, 8, [=](std::size_t i) { reader((*u)[i / 2], 1 + i % 2); },
            [=](std::size_t i) { return (*u)[i / 2].text(); });
    }
    {
        auto v = std::make_shared<std::vector<Value>>(values(th));
        add("C12/values", "single features: all keys, shapes and numbers of values", v->size(), 32,
            [=](std::size_t i) {
                Message m;
                m.entries = {{false, "a", (*v)[i]}};
                for (auto h : handlings) protobuf({m}, 1, h, false);
                auto n = m;
                n.entries[0].value.packed = false;
                protobuf({m, n}, 2, Bad_example_handling::error, true);
            },
            [=](std::size_t i) { return describe((*v)[i]); });
        auto s = std::make_shared<std::vector<Value>>(some_values());
        std::size_t n = s->size();
        add("C12/pairs", "all pairs of values of a feature, alone and next to another", n * n, 32,
            [=](std::size_t i) {
                auto &a = (*s)[i / n];
                auto &b = (*s)[i % n];
                Message x, y;
                x.entries = {{false, "a", a}};
                y.entries = {{false, "a", b}};
                for (auto h : handlings)
                    for (std::size_t batch : {1u, 2u, 3u}) {
                        protobuf({x, y, x}, batch, h, false);
                        if (h != Bad_example_handling::pad) protobuf({x, y, x}, batch, h, true);
                    }
                // Next to a feature and a label that are always good.
                for (auto *m : {&x, &y}) {
                    m->entries.push_back({true, "l", {Kind::f32, {m == &x ? 1.5 : 2.5}, {}, {}}});
                    m->entries.push_back({false, "s", {Kind::f64, {m == &x ? 3.5 : 4.5}, {m == &x ? 2u : 1u}, {3}}});
                }
                for (auto h : handlings) protobuf({x, y, y, x}, 4, h, false);
            },
            [=](std::size_t i) { return describe((*s)[i / n]) + " " + describe((*s)[i % n]); });
        auto ws = std::make_shared<std::vector<Wide>>();
        for (int what = 0; what < 8; ++what)
            for (std::size_t k : {20u, 127u, 255u, 256u, 257u, 300u, 32769u, 65537u}) {
                if (k > 300 && (what == 1 || what > 5)) continue;
                if (k > 300 && what > 3 && !th) continue;
                if (k > 20 && what == 7 && !th) continue;
                ws->push_back({what, k});
            }
        add("C12/wide", "many values, features, coordinates, records and dimensions", ws->size(), 1, [=](std::size_t i) { wide((*ws)[i]); },
            [=](std::size_t i) { return (*ws)[i].text(); });
        if (th)
            add("C12/triples", "all triples of values of a feature", n * n * n, 64, [=](std::size_t i) {
                Message x, y, z;
                x.entries = {{false, "a", (*s)[i / n / n]}};
                y.entries = {{false, "a", (*s)[i / n % n]}};
                z.entries = {{false, "a", (*s)[i % n]}};
                for (auto h : handlings) protobuf({x, y, z}, 3, h, false);
            });
        add("C12/names", "all assignments of names to two messages", 64 * 64, 32,
            [=](std::size_t i) {
                auto m = named(i);
                for (auto h : handlings) protobuf({m[0], m[1]}, 1, h, false);
                protobuf({m[0], m[1], m[0]}, 3, Bad_example_handling::pad, false);
                protobuf({m[0], m[1]}, 2, Bad_example_handling::skip, true);
            },
            [=](std::size_t i) { return describe(named(i)[0]) + " " + describe(named(i)[1]); });
    }
    return out;
}
