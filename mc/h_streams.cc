// C13: gzip. C14: text encodings. C15: streams and stores against a byte
// array.
#include "support.h"

#include <mlio/data_stores/compression.h>
#include <mlio/data_reader_error.h>
#include <mlio/data_stores/file.h>
#include <mlio/instance.h>
#include <mlio/streams/file_input_stream.h>
#include <mlio/streams/gzip_inflate_stream.h>
#include <mlio/streams/memory_input_stream.h>
#include <mlio/streams/utf8_input_stream.h>
#include <mlio/text_encoding.h>
#include <mlio/text_line_reader.h>
#include <mlio/example.h>
#include <mlio/tensor.h>

#include <cstring>
#include <map>
#include <set>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>

using namespace mlio;
using namespace sup;

namespace mc {
const char *const harness_name = "streams";
}

namespace {

// Sizes of the reads of a consumer.
const std::vector<std::vector<std::size_t>> read_patterns{{1}, {2}, {3}, {4}, {5}, {7}, {64}, {100000}, {1, 4, 2, 5}, {5, 1}, {3, 64}, {4, 3}};

struct Result {
    std::string data;
    bool error = false;
    std::string what;
};

// Reads a stream to its end. A read of a positive size gives nothing only
// at the end.
template<typename Make>
Result drain(Make make, const std::vector<std::size_t> &pattern, bool blocks = false)
{
    Result r;
    try {
        Intrusive_ptr<Input_stream> s = make();
        std::size_t k = 0;
        while (true) {
            std::size_t n = pattern[k++ % pattern.size()];
            std::size_t got;
            if (blocks) {
                auto b = s->read(n);
                got = b.size();
                MC_CHECK(got <= n, "read returns too much", std::to_string(got));
                r.data += str(b);
            }
            else {
                // Exactly sized, for the address sanitizer.
                auto b = make_intrusive<Heap_memory_block>(n);
                got = s->read(Mutable_memory_span{*b});
                MC_CHECK(got <= n, "read returns too much", std::to_string(got));
                r.data.append(reinterpret_cast<const char *>(b->data()), got);
            }
            mc::transition();
            if (got == 0) {
                for (std::size_t again : {1u, 9u}) {
                    auto b = s->read(again);
                    MC_CHECK(b.empty(), "data after the end", r.data.size() > 60 ? "" : mc::quote(r.data) + " then " + mc::quote(str(b)));
                }
                auto b = make_intrusive<Heap_memory_block>(0);
                MC_CHECK(s->read(Mutable_memory_span{*b}) == 0, "data after the end", "");
                break;
            }
            MC_CHECK(r.data.size() < (1u << 20), "endless data", "");
        }
    }
    catch (const Stream_error &e) {
        r.error = true;
        r.what = e.what();
    }
    catch (const std::exception &e) {
        mc::fail("wrong kind of error", e.what());
    }
    return r;
}

std::string brief(const std::string &s) { return s.size() > 60 ? std::to_string(s.size()) + " bytes" : mc::quote(s); }

// ----------------------------------------------------------------- gzip

struct Gz {
    int level = 6, strategy = Z_DEFAULT_STRATEGY;
    int wrap = 16;  // 16 gzip, 0 zlib
    int header = 0; // 1 name, 2 name, comment, extra and header checksum
};

std::string gzip(const std::string &p, const Gz &g)
{
    z_stream z{};
    deflateInit2(&z, g.level, Z_DEFLATED, 15 + g.wrap, 8, g.strategy);
    gz_header h{};
    char name[] = "name", comment[] = "c", extra[] = "xyz";
    if (g.header && g.wrap) {
        h.name = reinterpret_cast<Bytef *>(name);
        h.os = 3;
        if (g.header == 2) {
            h.comment = reinterpret_cast<Bytef *>(comment);
            h.extra = reinterpret_cast<Bytef *>(extra);
            h.extra_len = 3;
            h.hcrc = 1;
        }
        deflateSetHeader(&z, &h);
    }
    std::string out(p.size() + 200, '\0');
    z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(p.data()));
    z.avail_in = static_cast<uInt>(p.size());
    z.next_out = reinterpret_cast<Bytef *>(&out[0]);
    z.avail_out = static_cast<uInt>(out.size());
    int r = deflate(&z, Z_FINISH);
    if (r != Z_STREAM_END) std::abort();
    out.resize(out.size() - z.avail_out);
    deflateEnd(&z);
    return out;
}

struct Member_file {
    std::string name, bytes, data;
    std::vector<std::size_t> ends;  // of the members, in bytes
    std::vector<std::size_t> data_ends;
    bool weak = false;  // checksum that does not detect everything
};

std::string noise(std::size_t n)
{
    std::string s;
    std::uint32_t x = 12345;
    for (std::size_t i = 0; i < n; ++i) {
        x = x * 1664525u + 1013904223u;
        s += static_cast<char>(x >> 24);
    }
    return s;
}

std::vector<Member_file> gzip_files(bool th)
{
    std::vector<std::pair<std::string, std::string>> payloads{
        {"empty", ""}, {"a", "a"}, {"ab", "ab"}, {"abcde", "abcde"}, {"lines", "x,1\ny,2\n"}, {"a*300", std::string(300, 'a')},
        {"noise200", noise(200)}, {"abc*100", ""}};
    for (int i = 0; i < 100; ++i) payloads.back().second += "abc";
    std::vector<Gz> forms{{}, {0}, {6, Z_FIXED}, {9, Z_HUFFMAN_ONLY}, {6, Z_DEFAULT_STRATEGY, 16, 1}, {6, Z_DEFAULT_STRATEGY, 16, 2},
                          {6, Z_DEFAULT_STRATEGY, 0}};
    std::vector<Member_file> r;
    auto add = [&](std::vector<std::size_t> ps, std::size_t f) {
        Member_file m;
        for (auto p : ps) {
            m.name += (m.name.empty() ? "" : "+") + payloads[p].first;
            m.bytes += gzip(payloads[p].second, forms[f]);
            m.data += payloads[p].second;
            m.ends.push_back(m.bytes.size());
            m.data_ends.push_back(m.data.size());
        }
        m.name += " form " + std::to_string(f);
        m.weak = forms[f].wrap == 0;
        r.push_back(m);
    };
    for (std::size_t p = 0; p < payloads.size(); ++p)
        for (std::size_t f = 0; f < forms.size(); ++f) add({p}, f);
    for (std::size_t p = 0; p < 5; ++p)
        for (std::size_t q = 0; q < (th ? 7u : 5u); ++q)
            for (std::size_t f : {0u, 1u, 5u}) add({p, q}, f);
    add({1, 0, 2}, 0);
    add({0, 0, 0}, 0);
    add({2, 3, 1}, 1);
    add({1, 1, 1, 1}, 0);
    add({6, 7}, 0);
    Member_file none;
    none.name = "nothing";
    r.push_back(none);
    return r;
}

const std::vector<std::size_t> inflate_sizes{0x80000, 1, 2, 3, 7, 16, 25};

Intrusive_ptr<Input_stream> inner_stream(const std::string &bytes, int mode, std::uint64_t cuts, std::size_t piece)
{
    if (mode == 0) return make_intrusive<Memory_input_stream>(slice(bytes));
    if (piece) {
        // Pieces of a size.
        class Pieces final : public Input_stream_base {
        public:
            Pieces(std::string d, std::size_t p, bool seekable) : d_{std::move(d)}, p_{p}, seekable_{seekable} {}
            using Input_stream_base::read;
            std::size_t read(Mutable_memory_span o) override
            {
                if (closed_) throw Stream_error{"The input stream is closed."};
                std::size_t n = std::min({o.size(), p_, d_.size() - pos_});
                std::copy_n(reinterpret_cast<const std::byte *>(d_.data()) + pos_, n, o.begin());
                pos_ += n;
                return n;
            }
            void seek(std::size_t p) override
            {
                if (!seekable_) return Input_stream_base::seek(p);
                pos_ = std::min(p, d_.size());
            }
            void close() noexcept override { closed_ = true; }
            bool closed() const noexcept override { return closed_; }
            bool seekable() const noexcept override { return seekable_; }

        private:
            std::string d_;
            std::size_t p_, pos_ = 0;
            bool seekable_, closed_ = false;
        };
        return make_intrusive<Pieces>(bytes, piece, mode == 2);
    }
    return make_intrusive<Short_stream>(bytes, cuts, mode == 2);
}

void gzip_whole(const Member_file &f)
{
    // Pieces of the underlying stream x internal buffer x reads.
    std::vector<std::pair<int, std::size_t>> inner{{0, 0}};
    for (std::size_t piece : {1u, 2u, 3u, 5u, 9u, 10u, 11u, 17u, 18u, 19u, 20u, 21u, 22u, 100u}) inner.push_back({1, piece});
    for (auto e : f.ends)
        for (int d : {-9, -8, -1, 0, 1, 2, 10}) {
            auto p = static_cast<std::ptrdiff_t>(e) + d;
            if (p > 0) inner.push_back({1, static_cast<std::size_t>(p)});
        }
    std::vector<std::vector<std::size_t>> reads = read_patterns;
    // A read that ends where a member's data ends.
    for (auto e : f.data_ends)
        if (e > 0) reads.push_back({e, 1});
    std::size_t n = 0;
    for (auto [mode, piece] : inner)
        for (auto is : inflate_sizes)
            for (auto &p : reads)
                for (bool blocks : {false, true}) {
                    if (blocks && (p[0] > 5 || piece > 3)) continue;
                    if (f.data.size() > 100 && p[0] == 1 && is == 1) continue;
                    mlio_verif::inflate_buffer_size = is;
                    auto r = drain([&] { return make_intrusive<Gzip_inflate_stream>(inner_stream(f.bytes, mode, 0, piece)); }, p, blocks);
                    std::string where = f.name + ", pieces of " + std::to_string(piece) + ", buffer " + std::to_string(is) + ", reads of " +
                                        std::to_string(p[0]) + ": ";
                    MC_CHECK(!r.error, "error in intact compressed data", where + r.what);
                    MC_CHECK(r.data == f.data, f.data.rfind(r.data, 0) == 0 ? "compressed data ends early" : "wrong data", where + brief(r.data));
                    ++n;
                }
    mc::evaluations(n - 1);
    mc::traces(n);
    mc::nontrivial(n);
    mc::outcome(f.data);
    mc::state(mc::hash(f.name));
    mc::sample(f.name + ": " + std::to_string(n) + " ways to read it");
}

// Every truncation, every corruption of a byte.
void gzip_damaged(const Member_file &f, bool all_values)
{
    std::size_t n = 0, errors = 0;
    auto check = [&](const std::string &bytes, const std::string &what, bool must_fail) {
        for (std::size_t is : {0x80000u, 5u})
            for (auto &p : {std::vector<std::size_t>{100000}, std::vector<std::size_t>{3}}) {
                mlio_verif::inflate_buffer_size = is;
                auto r = drain([&] { return make_intrusive<Gzip_inflate_stream>(make_intrusive<Memory_input_stream>(slice(bytes))); }, p);
                if (must_fail) MC_CHECK(r.error, "truncated data without an error", f.name + ", " + what + ": " + brief(r.data));
                else if (!r.error) MC_CHECK(r.data == f.data, "corrupted data without an error", f.name + ", " + what + ": " + brief(r.data));
                errors += r.error;
                ++n;
                if (p[0] == 3 && is == 0x80000 && f.data.size() > 50) break;
            }
    };
    for (std::size_t len = 1; len < f.bytes.size(); ++len) {
        // A file cut between members is a valid file.
        if (std::find(f.ends.begin(), f.ends.end(), len) != f.ends.end()) continue;
        check(f.bytes.substr(0, len), "cut to " + std::to_string(len), true);
    }
    for (std::size_t i = 0; i < f.bytes.size(); ++i)
        for (int v = 0; v < 256; ++v) {
            auto b = f.bytes;
            auto old = static_cast<unsigned char>(b[i]);
            if (v == old) continue;
            int diff = v ^ old;
            if (!all_values && (diff & (diff - 1)) && v != 0 && v != 255) continue;
            b[i] = static_cast<char>(v);
            check(b, "byte " + std::to_string(i) + " is " + std::to_string(v), false);
        }
    // Something after the last member.
    for (auto &t : {std::string{"\x1f"}, std::string{"\x1f\x8b"}, std::string{"garbage"}, std::string(4, '\0')})
        if (!f.bytes.empty()) check(f.bytes + t, "followed by " + mc::quote(t), t[0] == '\x1f' || t == "garbage");
    mc::evaluations(n - 1);
    mc::traces(n);
    mc::nontrivial(errors);
    mc::outcome(f.name);
    mc::state(mc::hash(f.name, 1));
    mc::sample(f.name + ": " + std::to_string(errors) + " of " + std::to_string(n) + " damaged files rejected");
}

// A reader on compressed stores.
void gzip_store(const Member_file &f, int kind)
{
    for (std::size_t is : inflate_sizes) {
        mlio_verif::inflate_buffer_size = is;
        for (std::size_t chunk : {4096u, 8u}) {
            mlio_verif::chunk_size = chunk;
            Intrusive_ptr<Data_store> s;
            if (kind == 0) s = make_intrusive<In_memory_store>(slice(f.bytes), Compression::gzip);
            else
                s = make_intrusive<Fn_store>("s", [&] {
                    return make_inflate_stream(make_intrusive<Short_stream>(f.bytes, 0xAAAAAAAAAAAAAAAAull), Compression::gzip);
                });
            Data_reader_params p;
            p.dataset = {s};
            p.batch_size = 1;
            p.num_prefetched_examples = 1;
            auto r = make_intrusive<Text_line_reader>(p);
            for (int epoch = 0; epoch < 2; ++epoch) {
                std::string got;
                try {
                    while (auto e = r->read_example()) got += cells(*e->features()[0]).at(0) + "\n";
                }
                catch (const std::exception &e) {
                    mc::fail("error in intact compressed data", f.name + ": " + e.what());
                }
                std::string want = f.data;
                if (!want.empty() && want.back() != '\n') want += '\n';
                MC_CHECK(got == want, "wrong lines", f.name + ": " + brief(got));
                r->reset();
                mc::traces();
            }
        }
    }
    mlio_verif::chunk_size = 4096;
    mc::nontrivial();
}

// ------------------------------------------------------------- encodings

struct Char {
    std::uint32_t cp;
    std::string utf8;
};

std::string utf8(std::uint32_t c)
{
    std::string s;
    auto b = [&](std::uint32_t x) { s += static_cast<char>(x); };
    if (c < 0x80) b(c);
    else if (c < 0x800) b(0xC0 | c >> 6), b(0x80 | (c & 63));
    else if (c < 0x10000) b(0xE0 | c >> 12), b(0x80 | (c >> 6 & 63)), b(0x80 | (c & 63));
    else b(0xF0 | c >> 18), b(0x80 | (c >> 12 & 63)), b(0x80 | (c >> 6 & 63)), b(0x80 | (c & 63));
    return s;
}

std::string utf16(std::uint32_t c, bool be)
{
    std::string s;
    auto u = [&](std::uint32_t x) {
        char hi = static_cast<char>(x >> 8), lo = static_cast<char>(x);
        s += be ? hi : lo;
        s += be ? lo : hi;
    };
    if (c >= 0x10000) {
        c -= 0x10000;
        u(0xD800 | c >> 10);
        u(0xDC00 | (c & 0x3FF));
    }
    else
        u(c);
    return s;
}

std::string utf32(std::uint32_t c, bool be)
{
    std::string s;
    for (int i = 0; i < 4; ++i) s += static_cast<char>(c >> 8 * (be ? 3 - i : i));
    return s;
}

struct Encoding {
    std::string name;
    std::optional<Text_encoding> encoding;  // none: detected
    std::string bom;
    std::vector<std::pair<std::string, std::string>> chars;  // encoded, UTF-8
    bool checks = true;  // malformed input is detected
};

std::vector<Encoding> encodings()
{
    std::vector<std::uint32_t> cps{'a', '\n', 0xE9, 0x20AC, 0x1F600, 0xFFFD};
    std::vector<Encoding> r;
    auto uni = [&](std::string name, std::optional<Text_encoding> e, std::string bom, auto f) {
        Encoding x{name, e, bom, {}};
        for (auto c : cps) x.chars.push_back({f(c), utf8(c)});
        r.push_back(x);
    };
    auto u8 = [](std::uint32_t c) { return utf8(c); };
    auto l16 = [](std::uint32_t c) { return utf16(c, false); };
    auto b16 = [](std::uint32_t c) { return utf16(c, true); };
    auto l32 = [](std::uint32_t c) { return utf32(c, false); };
    auto b32 = [](std::uint32_t c) { return utf32(c, true); };
    uni("detected utf8", {}, "", u8);
    uni("detected utf8 bom", {}, utf8(0xFEFF), u8);
    uni("detected utf16le", {}, utf16(0xFEFF, false), l16);
    uni("detected utf16be", {}, utf16(0xFEFF, true), b16);
    uni("detected utf32le", {}, utf32(0xFEFF, false), l32);
    uni("detected utf32be", {}, utf32(0xFEFF, true), b32);
    uni("utf8", Text_encoding::utf8, "", u8);
    uni("utf8 bom", Text_encoding::utf8, utf8(0xFEFF), u8);
    uni("utf16le", Text_encoding::utf16_le, "", l16);
    uni("utf16be", Text_encoding::utf16_be, "", b16);
    uni("utf32le", Text_encoding::utf32_le, "", l32);
    uni("utf32be", Text_encoding::utf32_be, "", b32);
    uni("utf16 le bom", Text_encoding::utf16, utf16(0xFEFF, false), l16);
    uni("utf16 be bom", Text_encoding::utf16, utf16(0xFEFF, true), b16);
    uni("utf32 be bom", Text_encoding::utf32, utf32(0xFEFF, true), b32);
    r.push_back({"latin1", Text_encoding::ascii_latin1, "", {{"a", "a"}, {"\n", "\n"}, {"\xE9", utf8(0xE9)}, {"\xFF", utf8(0xFF)}}});
    r.push_back({"shift_jis", Text_encoding{"SHIFT_JIS"}, "", {{"a", "a"}, {"\x82\xA0", utf8(0x3042)}, {"\xB1", utf8(0xFF71)}, {"\n", "\n"}}});
    r.push_back({"gb18030", Text_encoding{"GB18030"}, "", {{"a", "a"}, {"\xA8\xA6", utf8(0xE9)}, {"\x94\x39\xFC\x36", utf8(0x1F600)}, {"\n", "\n"}}});
    r.push_back({"euc-jp", Text_encoding{"EUC-JP"}, "", {{"a", "a"}, {"\xA4\xA2", utf8(0x3042)}, {"\x8E\xB1", utf8(0xFF71)}, {"\x8F\xB0\xA1", utf8(0x4E02)}}});
    r.push_back({"cp1258", Text_encoding{"CP1258"}, "", {{"a", "a"}, {"\n", "\n"}, {"\xD0", utf8(0x110)}, {"z", "z"}}});
    r.push_back({"cp1255", Text_encoding{"CP1255"}, "", {{"a", "a"}, {"\n", "\n"}, {"\xF9", utf8(0x5E9)}, {"\xE0", utf8(0x5D0)}}});
    r.push_back({"big5-hkscs", Text_encoding{"BIG5-HKSCS"}, "", {{"a", "a"}, {"\x88\x66", utf8(0xCA)}, {"\xA4\xA4", utf8(0x4E2D)}, {"\n", "\n"}}});
    // Shift sequences before and after every character.
    r.push_back({"iso-2022-jp", Text_encoding{"ISO-2022-JP"}, "", {{"a", "a"}, {"\x1B$B$\"\x1B(B", utf8(0x3042)}, {"\x1B(B", ""}, {"\n", "\n"}}});
    return r;
}

std::vector<std::size_t> utf8_buffers() { return {4096, 8, 9, 10, 11, 13}; }

void encoding_text(const Encoding &e, const std::vector<std::size_t> &symbols, bool th)
{
    std::string in = e.bom, want, last_in;
    for (auto s : symbols) {
        in += e.chars[s].first;
        want += e.chars[s].second;
        last_in = e.chars[s].first;
    }
    std::string with_bom = utf8(0xFEFF) + want;
    bool passthrough = e.encoding ? *e.encoding == Text_encoding::utf8 : e.name.find("utf8") != std::string::npos;
    std::size_t n = 0;
    auto read_all = [&](const std::string &bytes, int mode, std::uint64_t cuts, std::size_t piece, std::size_t ub, const std::vector<std::size_t> &p) {
        mlio_verif::utf8_buffer_size = ub;
        ++n;
        return drain([&] { return make_utf8_stream(inner_stream(bytes, mode, cuts, piece), e.encoding); }, p);
    };
    auto good = [&](int mode, std::uint64_t cuts, std::size_t piece, std::size_t ub, const std::vector<std::size_t> &p) {
        auto r = read_all(in, mode, cuts, piece, ub, p);
        std::ostringstream o;
        o << e.name << " " << mc::quote(in) << " mode=" << mode << " cuts=" << cuts << " pieces=" << piece << " buffer=" << ub << " reads=" << p[0] << ": ";
        MC_CHECK(!r.error, "error in well-formed text", o.str() + r.what);
        bool ok = r.data == want || (!e.bom.empty() && r.data == with_bom);
        MC_CHECK(ok, "wrong text", o.str() + mc::quote(r.data) + " instead of " + mc::quote(want));
    };
    for (auto &p : read_patterns)
        for (auto ub : utf8_buffers()) {
            if (passthrough && ub != 8) continue;
            good(0, 0, 0, ub, p);
            for (int mode : {1, 2})
                for (std::size_t piece : {1u, 2u, 3u, 4u, 5u, 7u, 100u}) good(mode, 0, piece, ub, p);
        }
    // Every partition into short reads.
    std::size_t bits = in.size() > 1 ? std::min<std::size_t>(in.size() - 1, th ? 12 : 9) : 0;
    for (std::uint64_t cuts = 0; cuts < 1ull << bits; ++cuts)
        for (int mode : {1, 2}) good(mode, cuts, 0, 8, read_patterns[cuts % read_patterns.size()]);
    // Truncated within the last character.
    if (!passthrough && !symbols.empty() && last_in.size() > 1 && e.name != "iso-2022-jp")
        for (std::size_t k = 1; k < last_in.size(); ++k)
            for (std::size_t ub : {4096u, 8u, 9u})
                for (int mode : {0, 1})
                    for (std::size_t piece : {1u, 100u})
                        for (auto &p : {std::vector<std::size_t>{1}, std::vector<std::size_t>{64}}) {
                            auto r = read_all(in.substr(0, in.size() - k), mode, 0, mode ? piece : 0, ub, p);
                            MC_CHECK(r.error, "truncated character without an error",
                                     e.name + " " + mc::quote(in.substr(0, in.size() - k)) + ": " + mc::quote(r.data));
                        }
    mc::evaluations(n - 1);
    mc::traces(n);
    if (!symbols.empty()) mc::nontrivial(n);
    mc::outcome(want);
    mc::state(mc::hash(in, mc::hash(e.name)));
    mc::sample(e.name + " " + mc::quote(in) + " -> " + mc::quote(want));
}

// Malformed characters after every short prefix.
void encoding_malformed(const Encoding &e, const std::vector<std::size_t> &symbols)
{
    std::string in = e.bom;
    for (auto s : symbols) in += e.chars[s].first;
    std::vector<std::string> bad;
    bool le = e.name.find("le") != std::string::npos;
    if (e.name.find("utf16") != std::string::npos) {
        bad = {utf16(0xDC00, !le) + utf16('a', !le), utf16(0xD800, !le) + utf16('a', !le)};
        if (e.name.find("utf16 le bom") != std::string::npos) le = true;
    }
    else if (e.name.find("utf32") != std::string::npos) bad = {utf32(0x110000, !le), utf32(0xD800, !le), utf32(0xFFFFFFFF, !le)};
    else if (e.name == "shift_jis") bad = {"\x82\x01", "\xFF"};
    else if (e.name == "euc-jp") bad = {"\xA4\x01", "\xFF\xFF"};
    else if (e.name == "gb18030") bad = {"\xFF", "\x94\x39\x01\x01"};
    else if (e.name == "big5-hkscs") bad = {"\xA4\x01"};
    else if (e.name == "cp1255") bad = {"\xFF"};
    std::size_t n = 0;
    for (auto &b : bad)
        for (std::string tail : {"", "t"}) {
            std::string t = tail.empty() ? "" : e.chars[0].first;
            for (std::size_t ub : utf8_buffers())
                for (std::size_t piece : {1u, 3u, 100u})
                    for (auto &p : read_patterns) {
                        mlio_verif::utf8_buffer_size = ub;
                        auto r = drain([&] { return make_utf8_stream(inner_stream(in + b + t, 1, 0, piece), e.encoding); }, p);
                        MC_CHECK(r.error, "malformed character without an error", e.name + " " + mc::quote(in + b + t) + ": " + mc::quote(r.data));
                        ++n;
                    }
        }
    if (n) {
        mc::evaluations(n - 1);
        mc::traces(n);
        mc::nontrivial(n);
    }
}

// Lines of a text read by a reader, over two epochs.
void encoding_lines(const Encoding &e, const std::vector<std::size_t> &symbols, int mode)
{
    if (e.encoding) return;  // the reader detects the encoding
    std::string in = e.bom, want;
    for (auto s : symbols) {
        in += e.chars[s].first;
        want += e.chars[s].second;
    }
    if (!want.empty() && want.back() != '\n') want += '\n';
    for (std::size_t ub : {4096u, 8u})
        for (std::size_t chunk : {4096u, 4u, 8u}) {
            mlio_verif::utf8_buffer_size = ub;
            mlio_verif::chunk_size = chunk;
            Data_reader_params p;
            p.dataset = {store(in, mode, 0x5555555555555555ull), store(in, mode, ~0ull)};
            p.batch_size = 1;
            p.num_prefetched_examples = 1;
            auto r = make_intrusive<Text_line_reader>(p);
            for (int epoch = 0; epoch < 2; ++epoch) {
                std::string got;
                try {
                    while (auto ex = r->read_example()) got += cells(*ex->features()[0]).at(0) + "\n";
                }
                catch (const std::exception &x) {
                    mc::fail("error in well-formed text", e.name + " " + mc::quote(in) + ": " + x.what());
                }
                MC_CHECK(got == want + want, "wrong lines", e.name + " " + mc::quote(in) + ": " + mc::quote(got));
                r->reset();
                mc::traces();
            }
        }
    mlio_verif::chunk_size = 4096;
    mc::nontrivial();
    mc::outcome(want);
}

// ------------------------------------------------------------ operations

std::string scratch;

void make_scratch()
{
    if (!scratch.empty()) return;
    scratch = mc::scratch_dir();
}

std::string scratch_file(const std::string &name, const std::string &data)
{
    make_scratch();
    std::string p = scratch + "/" + name;
    int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0 || ::write(fd, data.data(), data.size()) != static_cast<ssize_t>(data.size())) std::abort();
    ::close(fd);
    return p;
}

void drop_scratch(const std::vector<std::string> &files)
{
    for (auto &f : files) ::unlink(f.c_str());
    if (!scratch.empty()) ::rmdir(scratch.c_str());
    scratch.clear();
}

enum Source_kind { in_memory, mapped_file, plain_file, gz_memory, gz_file, utf16_memory, n_source_kinds };
const char *source_name[] = {"in memory", "mapped file", "plain file", "compressed memory", "compressed file", "transcoded"};

struct Model_stream {
    Intrusive_ptr<Input_stream> s;
    std::size_t pos = 0;
    bool closed = false;
};

struct Held {
    Memory_slice slice;
    std::string bytes;
};

void ops(Source_kind kind, std::size_t len, const std::vector<int> &script, bool two)
{
    std::string data = std::string{"abcdefgh"}.substr(0, len);
    bool seekable = kind <= plain_file;
    std::string path;
    std::vector<std::string> files;
    Intrusive_ptr<Data_store> st;
    std::string where = std::string{source_name[kind]} + " of " + std::to_string(len) + " bytes:";
    switch (kind) {
    case in_memory: st = make_intrusive<In_memory_store>(slice(data)); break;
    case gz_memory: st = make_intrusive<In_memory_store>(slice(gzip(data, {})), Compression::gzip); break;
    case mapped_file: files = {scratch_file("f", data)}; st = make_intrusive<File>(files[0], true); break;
    case plain_file: files = {scratch_file("f", data)}; st = make_intrusive<File>(files[0], false); break;
    case gz_file: files = {scratch_file("f.gz", gzip(data, {}))}; st = make_intrusive<File>(files[0], len % 2 == 0); break;
    default: {
        std::string t;
        for (char c : data) t += utf16(static_cast<unsigned char>(c), false);
        st = make_intrusive<Fn_store>("t", [t] { return make_utf8_stream(make_intrusive<Short_stream>(t, 0x492), Text_encoding::utf16_le); });
    }
    }
    struct Cleanup {
        std::vector<std::string> f;
        ~Cleanup() { drop_scratch(f); }
    } cleanup{files};
    std::vector<Model_stream> m(two ? 2 : 1);
    for (auto &x : m) x.s = st->open_read();
    std::vector<Held> held;
    const std::size_t huge[] = {std::numeric_limits<std::size_t>::max(), std::size_t{1} << 63};
    for (int op : script) {
        auto &x = m[two ? static_cast<std::size_t>(op) % 2 : 0];
        int o = two ? op / 2 : op;
        std::string name;
        auto guarded = [&](auto f) {
            // On a closed stream every operation is rejected.
            try {
                f();
            }
            catch (const Stream_error &e) {
                MC_CHECK(x.closed, "operation fails", where + name + ": " + e.what());
                return;
            }
            catch (const std::exception &e) {
                mc::fail(x.closed ? "wrong error on a closed stream" : "operation fails", where + name + ": " + e.what());
            }
            MC_CHECK(!x.closed, "closed stream works", where + name);
        };
        auto expect = [&](std::size_t n) {
            auto r = data.substr(std::min(x.pos, data.size()), n);
            return r;
        };
        auto read_span = [&](std::size_t n) {
            name += " read[" + std::to_string(n) + "]";
            guarded([&] {
                auto b = make_intrusive<Heap_memory_block>(n);
                std::size_t got = x.s->read(Mutable_memory_span{*b});
                auto want = expect(n);
                std::string g(reinterpret_cast<const char *>(b->data()), got);
                MC_CHECK(got <= want.size() && g == want.substr(0, got), "wrong bytes", where + name + ": " + mc::quote(g));
                MC_CHECK(got > 0 || want.empty(), "nothing read before the end", where + name);
                if (seekable) MC_CHECK(got == want.size(), "short read", where + name + ": " + mc::quote(g));
                x.pos += got;
            });
        };
        auto read_slice = [&](std::size_t n) {
            name += " read(" + std::to_string(n) + ")";
            guarded([&] {
                auto b = x.s->read(n);
                auto want = expect(n);
                auto g = str(b);
                MC_CHECK(g.size() <= want.size() && g == want.substr(0, g.size()), "wrong bytes", where + name + ": " + mc::quote(g));
                MC_CHECK(!g.empty() || want.empty(), "nothing read before the end", where + name);
                x.pos += g.size();
                held.push_back({b, g});
            });
        };
        auto seek = [&](std::size_t p) {
            name += " seek(" + std::to_string(p) + ")";
            guarded([&] {
                x.s->seek(p);
                x.pos = std::min(p, data.size());
            });
        };
        switch (o) {
        case 0: read_span(1); break;
        case 1: read_span(2); break;
        case 2: read_span(len + 3); break;
        case 3: read_slice(1); break;
        case 4: read_slice(len + 3); break;
        case 5: {
            name = " read[0]";
            guarded([&] { MC_CHECK(x.s->read(Mutable_memory_span{}) == 0, "bytes for nothing", where); });
            break;
        }
        case 6:
            name = " read(0)";
            guarded([&] { MC_CHECK(x.s->read(std::size_t{0}).empty(), "bytes for nothing", where); });
            break;
        case 7:
            name = " close";
            x.s->close();
            x.closed = true;
            break;
        case 8:
            if (x.s->supports_zero_copy()) read_slice(huge[held.size() % 2]);
            else read_slice(2);
            break;
        case 9: if (seekable) seek(0); break;
        case 10: if (seekable) seek(1); break;
        case 11: if (seekable) seek(len); break;
        case 12: if (seekable) seek(len + 1); break;
        case 13: if (seekable) seek(huge[0]); break;
        case 14: if (seekable) seek(huge[1]); break;
        case 15: {
            // The stream is replaced by a new one.
            name = " reopen";
            x.s = st->open_read();
            x.pos = 0;
            x.closed = false;
            break;
        }
        }
        where += name;
        for (auto &y : m) {
            MC_CHECK(y.s->closed() == y.closed, "closed is wrong", where);
            MC_CHECK(y.s->seekable() == seekable, "seekable is wrong", where);
            if (seekable && !y.closed) {
                MC_CHECK(y.s->position() == y.pos, "position is wrong", where + ": " + std::to_string(y.s->position()) + " instead of " + std::to_string(y.pos));
                MC_CHECK(y.s->size() == len, "size is wrong", where);
            }
            else if (seekable) {
                for (int k = 0; k < 2; ++k) {
                    bool rejected = false;
                    try {
                        k ? y.s->position() : y.s->size();
                    }
                    catch (const Stream_error &) {
                        rejected = true;
                    }
                    MC_CHECK(rejected, "closed stream works", where);
                }
            }
        }
        for (auto &h : held) MC_CHECK(str(h.slice) == h.bytes, "bytes read earlier change", where);
        mc::transition();
        mc::state(mc::hash(std::to_string(kind) + "," + std::to_string(len) + "," + std::to_string(m[0].pos) + std::to_string(m[0].closed) +
                           (two ? std::to_string(m[1].pos) + std::to_string(m[1].closed) : "")));
    }
    // The slices outlive streams and store.
    m.clear();
    st = nullptr;
    for (auto &h : held) MC_CHECK(str(h.slice) == h.bytes, "bytes read earlier change", where + " destroyed");
    mc::traces();
    if (!held.empty()) mc::nontrivial();
    mc::outcome_hash(mc::hash(where));
    mc::sample(where);
}

// Stores read again and again.
void stores(std::size_t kind)
{
    for (std::size_t len : {0u, 1u, 5u, 300u}) {
        std::string data;
        for (std::size_t i = 0; i < len; ++i) data += static_cast<char>('a' + i % 26);
        for (std::size_t piece : {1u, 7u, 1000u}) {
            std::vector<std::string> files;
            Intrusive_ptr<Data_store> s;
            switch (kind) {
            case 0: s = make_intrusive<In_memory_store>(slice(data)); break;
            case 1: s = make_intrusive<In_memory_store>(slice(gzip(data, {})), Compression::gzip); break;
            case 2: files = {scratch_file("f.csv", data)}; s = make_intrusive<File>(files[0], true); break;
            case 3: files = {scratch_file("f.csv", data)}; s = make_intrusive<File>(files[0], false); break;
            case 4: files = {scratch_file("f.csv.gz", gzip(data, {}))}; s = make_intrusive<File>(files[0], true); break;
            case 5: files = {scratch_file("f.csv.gz", gzip(data, {}))}; s = make_intrusive<File>(files[0], false); break;
            // Compression stated explicitly, against the suffix.
            case 6: files = {scratch_file("f.gz", data)}; s = make_intrusive<File>(files[0], true, Compression::none); break;
            case 7: files = {scratch_file("f.bin", gzip(data, {}))}; s = make_intrusive<File>(files[0], false, Compression::gzip); break;
            case 8: files = {scratch_file("gz", data)}; s = make_intrusive<File>(files[0], true); break;
            case 9: files = {scratch_file(".gz", gzip(data, {}))}; s = make_intrusive<File>(files[0], true); break;
            case 10: files = {scratch_file("x.GZ", data)}; s = make_intrusive<File>(files[0], true); break;
            case 11: files = {scratch_file("f.gz.csv", data)}; s = make_intrusive<File>(files[0], true); break;
            case 12: files = {scratch_file("f_gz", data)}; s = make_intrusive<File>(files[0], true); break;
            case 13: files = {scratch_file("f.gx", data)}; s = make_intrusive<File>(files[0], true); break;
            }
            struct Cleanup {
                std::vector<std::string> f;
                ~Cleanup() { drop_scratch(f); }
            } cleanup{files};
            for (int k = 0; k < 3; ++k) {
                std::string id = s->id();
                auto other = s->open_read();
                other->read(std::size_t{3});
                auto r = drain([&] { return s->open_read(); }, {piece});
                MC_CHECK(!r.error && r.data == data, "wrong contents", "kind " + std::to_string(kind) + ": " + brief(r.data) + r.what);
                MC_CHECK(s->id() == id && !id.empty(), "the id of a store changes", id);
                mc::traces();
            }
        }
    }
    mc::nontrivial();
}

// The compression that a file name tells.
void names(const std::string &name)
{
    std::string text = "some text that is long enough to be compressed, compressed, compressed";
    // What the file holds: compressed or plain.
    for (bool packed : {true, false}) {
        std::string held = packed ? gzip(text, {}) : text;
        auto f = scratch_file(name, held);
        struct Cleanup {
            std::vector<std::string> f;
            ~Cleanup() { drop_scratch(f); }
        } cleanup{{f}};
        auto ends = [&](const std::string &s) { return name.size() >= s.size() && name.compare(name.size() - s.size(), std::string::npos, s) == 0; };
        bool gz = ends(".gz"), other = ends(".bz2") || ends(".zip");
        for (bool map : {true, false}) {
            std::string what = mc::quote(name) + (packed ? " holding gzip data" : " holding plain text");
            bool refused = false;
            Result r;
            auto st = make_intrusive<File>(f, map);
            try {
                st->open_read();
            }
            catch (const Not_supported_error &) {
                refused = true;
            }
            if (!refused) r = drain([&] { return st->open_read(); }, {1000});
            if (other) MC_CHECK(refused, "unsupported compression accepted", what);
            else if (gz && !packed) MC_CHECK(r.error && !refused, "plain text accepted as compressed", what + ": " + brief(r.data));
            else MC_CHECK(!r.error && !refused && r.data == (gz ? text : held), "wrong contents", what + ": " + brief(r.data) + r.what);
            mc::outcome(std::string{gz ? "gz" : other ? "other" : "none"} + (packed ? "1" : "0"));
            mc::state(mc::hash(what));
            mc::transition();
        }
    }
    mc::traces();
    mc::nontrivial();
}

// A zero-copy stream that need not give all that is asked for.
class Lazy_stream : public Input_stream_base {
public:
    Lazy_stream(std::string d, std::size_t most) : data_{slice(d)}, most_{most} {}
    using Input_stream_base::read;
    std::size_t read(Mutable_memory_span d) override
    {
        auto s = read(d.size());
        std::copy(s.begin(), s.end(), d.begin());
        return s.size();
    }
    Memory_slice read(std::size_t n) override
    {
        // Less than asked once, then all.
        n = std::min({n, data_.size() - pos_, first_ ? most_ : n});
        first_ = false;
        pos_ += n;
        return data_.subslice(pos_ - n, n);
    }
    void seek(std::size_t p) override { pos_ = std::min(p, data_.size()); }
    void close() noexcept override { data_ = {}; }
    std::size_t size() const override { return data_.size(); }
    std::size_t position() const override { return pos_; }
    bool closed() const noexcept override { return false; }
    bool seekable() const noexcept override { return true; }
    bool supports_zero_copy() const noexcept override { return true; }

private:
    Memory_slice data_;
    std::size_t most_, pos_ = 0;
    bool first_ = true;
};

// Whole stores as instances.
void whole(std::size_t kind)
{
    std::size_t n = 0;
    for (std::size_t len = 0; len <= 9; ++len) {
        std::string data;
        for (std::size_t i = 0; i < len; ++i) data += static_cast<char>('a' + i % 26);
        for (std::size_t buffer : {1u, 2u, 3u, 4u, 5u, 8u, 9u, 10u, 0x100000u})
            for (std::uint64_t v = 0; v < (kind < 2 && len ? 1u << (len - 1) : kind == 2 ? len + 1 : 1u); ++v) {
                mlio_verif::instance_buffer_size = buffer;
                Intrusive_ptr<Data_store> s;
                std::vector<std::string> files;
                switch (kind) {
                case 0: s = store(data, 1, v); break;
                case 1: s = store(data, 2, v); break;
                case 2: s = make_intrusive<Fn_store>("s", [=] { return make_intrusive<Lazy_stream>(data, v); }); break;
                case 3: s = store(data, 0); break;
                case 4: s = make_intrusive<In_memory_store>(slice(gzip(data, {})), Compression::gzip); break;
                case 5: files = {scratch_file("f", data)}; s = make_intrusive<File>(files[0], true); break;
                case 6: files = {scratch_file("f", data)}; s = make_intrusive<File>(files[0], false); break;
                case 7: files = {scratch_file("f.gz", gzip(data, {}))}; s = make_intrusive<File>(files[0], true); break;
                case 8: files = {scratch_file("f.gz", gzip(data, {}))}; s = make_intrusive<File>(files[0], false); break;
                }
                struct Cleanup {
                    std::vector<std::string> f;
                    ~Cleanup() { drop_scratch(f); }
                } cleanup{files};
                Instance in{*s};
                std::string where = "kind " + std::to_string(kind) + ", " + std::to_string(len) + " bytes, buffer " + std::to_string(buffer) + ", pieces " + std::to_string(v);
                MC_CHECK(str(in.bits()) == data, "wrong contents of an instance", where + ": " + brief(str(in.bits())));
                Instance copy{in}, again{*s};
                MC_CHECK(str(copy.bits()) == data && str(again.bits()) == data && str(in.bits()) == data, "wrong contents of an instance", where + ", again");
                ++n;
            }
    }
    // Damaged data, and stores that cannot be opened.
    if (kind == 4 || kind == 7 || kind == 8) {
        auto bytes = gzip("abcdefghij", {});
        for (std::size_t cut = 1; cut < bytes.size(); ++cut) {
            std::vector<std::string> files;
            Intrusive_ptr<Data_store> s;
            if (kind == 4) s = make_intrusive<In_memory_store>(slice(bytes.substr(0, cut)), Compression::gzip);
            else {
                files = {scratch_file("f.gz", bytes.substr(0, cut))};
                s = make_intrusive<File>(files[0], kind == 7);
            }
            struct Cleanup {
                std::vector<std::string> f;
                ~Cleanup() { drop_scratch(f); }
            } cleanup{files};
            bool error = false;
            try {
                Instance{*s}.bits();
            }
            catch (const Data_reader_error &) {
                error = true;
            }
            MC_CHECK(error, "truncated data without an error", "kind " + std::to_string(kind) + ", cut to " + std::to_string(cut));
            ++n;
        }
    }
    if (kind == 5 || kind == 6) {
        auto s = make_intrusive<File>("/nonexistent/file", kind == 5);
        bool error = false;
        try {
            Instance{*s}.bits();
        }
        catch (const Data_reader_error &) {
            error = true;
        }
        MC_CHECK(error, "a missing store without an error", "");
    }
    mc::evaluations(n - 1);
    mc::traces(n);
    mc::nontrivial(n);
    mc::outcome(std::to_string(kind));
    mc::state(mc::hash("whole", kind));
}

// ------------------------------------------------------------ large sizes

// Long data and many members.
void gzip_long(std::size_t i)
{
    Gz f;
    if (i % 3 == 1) f = {0};
    if (i % 3 == 2) f = {9, Z_HUFFMAN_ONLY};
    std::string bytes, data;
    auto add = [&](const std::string &p) {
        bytes += gzip(p, f);
        data += p;
    };
    switch (i / 3) {
    case 0: add(noise(70'000)); break;
    case 1: add(std::string(300'000, 'a')); break;
    case 2:
        for (int k = 0; k < 300; ++k) add(std::string(1, static_cast<char>('a' + k % 26)));
        break;
    case 3:
        for (int k = 0; k < 300; ++k) add(k == 299 ? "a" : "");
        break;
    case 4:
        for (std::size_t n : {65535u, 65536u, 65537u, 32768u}) add(noise(n));
        break;
    case 5:
        for (int k = 0; k < 4; ++k) add(noise(40'000) + std::string(40'000, 'b') + noise(40'000));
        break;
    }
    std::size_t n = 0;
    for (std::size_t piece : {0u, 257u, 4096u, 65536u})
        for (std::size_t is : {64u, 4096u, 65536u, 262'144u})
            for (std::size_t rd : {256u, 4096u, 65537u, 400'000u}) {
                mlio_verif::inflate_buffer_size = is;
                auto r = drain([&] { return make_intrusive<Gzip_inflate_stream>(inner_stream(bytes, piece ? 1 : 0, 0, piece)); }, {rd}, n % 2);
                std::string where = std::to_string(i) + ", pieces of " + std::to_string(piece) + ", buffer " + std::to_string(is) + ", reads of " + std::to_string(rd) + ": ";
                MC_CHECK(!r.error, "error in intact compressed data", where + r.what);
                MC_CHECK(r.data == data, data.rfind(r.data, 0) == 0 ? "compressed data ends early" : "wrong data", where + brief(r.data));
                ++n;
            }
    mc::evaluations(n - 1);
    mc::traces(n);
    mc::nontrivial(n);
    mc::outcome(data);
    mc::state(mc::hash(std::to_string(i)));
}

void encoding_long(const Encoding &e)
{
    std::string in = e.bom, want;
    for (std::size_t k = 0; k < 70'000; ++k) {
        auto &c = e.chars[(k + k / 7 + k / 256) % e.chars.size()];
        in += c.first;
        want += c.second;
    }
    bool passthrough = e.encoding ? *e.encoding == Text_encoding::utf8 : e.name.find("utf8") != std::string::npos;
    std::size_t n = 0;
    for (int mode : {0, 1, 2})
        for (std::size_t piece : {0u, 257u, 4096u, 65536u})
            for (std::size_t ub : {64u, 4096u, 65536u, 1'048'576u})
                for (std::size_t rd : {256u, 65537u, 400'000u}) {
                    if ((mode == 0) != (piece == 0) || (passthrough && ub != 64)) continue;
                    mlio_verif::utf8_buffer_size = ub;
                    auto r = drain([&] { return make_utf8_stream(inner_stream(in, mode, 0, piece), e.encoding); }, {rd});
                    std::string where = e.name + ", pieces of " + std::to_string(piece) + ", buffer " + std::to_string(ub) + ", reads of " + std::to_string(rd) + ": ";
                    MC_CHECK(!r.error, "error in well-formed text", where + r.what);
                    MC_CHECK(r.data == want || (!e.bom.empty() && r.data == utf8(0xFEFF) + want), "wrong text", where + brief(r.data));
                    ++n;
                }
    mc::evaluations(n - 1);
    mc::traces(n);
    mc::nontrivial(n);
    mc::outcome(want);
    mc::state(mc::hash(e.name));
}

// A file of more than four gigabytes, most of it a hole.
void huge_file(std::size_t i)
{
    bool mapped = i % 2;
    const std::uint64_t size = (5ull << 30) + 7;
    const std::vector<std::uint64_t> places{0, 5, (1ull << 31) - 2, 1ull << 31, (1ull << 32) - 2, 1ull << 32, (1ull << 32) + 5, size - 3, size};
    std::string path = scratch_file("huge", "");
    struct Cleanup {
        std::vector<std::string> f;
        ~Cleanup() { drop_scratch(f); }
    } cleanup{{path}};
    std::map<std::uint64_t, char> bytes;
    int fd = ::open(path.c_str(), O_WRONLY);
    bool ok = fd >= 0 && ::ftruncate(fd, static_cast<off_t>(size)) == 0;
    char next = 'a';
    for (auto p : places)
        for (std::uint64_t k = p; ok && k < std::min(p + 3, size); ++k) {
            bytes[k] = next++;
            ok = ::pwrite(fd, &bytes[k], 1, static_cast<off_t>(k)) == 1;
        }
    ::close(fd);
    if (!ok) {
        mc::outcome("no room for a hole");
        return;
    }
    auto expect = [&](std::uint64_t p, std::size_t n) {
        std::string s;
        for (std::uint64_t k = p; k < std::min(p + n, size); ++k) s += bytes.count(k) ? bytes[k] : '\0';
        return s;
    };
    auto st = make_intrusive<File>(path, mapped);
    auto s = st->open_read();
    std::uint64_t first = places[i / 2];
    std::string where = std::string{mapped ? "mapped" : "plain"} + " file, places " + std::to_string(first);
    for (auto second : places) {
        for (auto p : {first, second}) {
            s->seek(p);
            MC_CHECK(s->size() == size && s->position() == p, "position is wrong", where + " " + std::to_string(second));
            auto b = s->read(6);
            MC_CHECK(str(b) == expect(p, 6), "wrong bytes", where + " " + std::to_string(second) + ": " + mc::quote(str(b)));
            MC_CHECK(s->position() == std::min(p + 6, size), "position is wrong", where + " " + std::to_string(second));
            auto c = make_intrusive<Heap_memory_block>(4);
            std::size_t n = s->read(Mutable_memory_span{*c});
            MC_CHECK(std::string(reinterpret_cast<const char *>(c->data()), n) == expect(p + 6, 4), "wrong bytes", where + " " + std::to_string(second));
            mc::transition();
        }
        if (mapped && second >= first) {
            // All between the two in one slice.
            s->seek(first);
            auto b = s->read(second - first);
            MC_CHECK(b.size() == second - first && s->position() == second, "wrong number of bytes", where + " " + std::to_string(second));
            if (second - first > 3) {
                MC_CHECK(str(b.subslice(second - first - 3)) == expect(second - 3, 3), "wrong bytes", where + " " + std::to_string(second));
                MC_CHECK(str(b.first(3)) == expect(first, 3), "wrong bytes", where + " " + std::to_string(second));
            }
        }
    }
    mc::traces();
    mc::nontrivial();
    mc::outcome(where);
    mc::state(mc::hash(where));
}

// Buffers of more than four gigabytes, reserved but never touched beyond the data.
void spans(std::size_t kind)
{
    constexpr std::size_t room = (std::size_t{1} << 33) + 4096;
    void *p = ::mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        mc::outcome("no room");
        return;
    }
    struct Unmap {
        void *p;
        ~Unmap() { ::munmap(p, room); }
    } unmap{p};
    auto *bytes = static_cast<char *>(p);
    for (std::size_t len : {0u, 1u, 7u, 300u, 70000u}) {
        std::string data;
        for (std::size_t i = 0; i < len; ++i) data += static_cast<char>('a' + i % 26);
        std::vector<std::string> files;
        Intrusive_ptr<Data_store> st;
        switch (kind) {
        case in_memory: st = make_intrusive<In_memory_store>(slice(data)); break;
        case gz_memory: st = make_intrusive<In_memory_store>(slice(gzip(data.substr(0, len / 2), {}) + gzip(data.substr(len / 2), {})), Compression::gzip); break;
        case mapped_file: files = {scratch_file("f", data)}; st = make_intrusive<File>(files[0], true); break;
        case plain_file: files = {scratch_file("f", data)}; st = make_intrusive<File>(files[0], false); break;
        case gz_file: files = {scratch_file("f.gz", gzip(data, {}))}; st = make_intrusive<File>(files[0], false); break;
        default: {
            std::string t;
            for (char c : data) t += utf16(static_cast<unsigned char>(c), false);
            st = make_intrusive<Fn_store>("t", [t] { return make_utf8_stream(make_intrusive<Memory_input_stream>(slice(t)), Text_encoding::utf16_le); });
        }
        }
        struct Cleanup {
            std::vector<std::string> f;
            ~Cleanup() { drop_scratch(f); }
        } cleanup{files};
        for (unsigned shift : {31u, 32u, 33u})
            for (std::ptrdiff_t more : {-1, 0, 1, 5, 400}) {
                std::size_t size = (std::size_t{1} << shift) + static_cast<std::size_t>(more);
                auto s = st->open_read();
                std::string got, where = std::string{source_name[kind]} + " of " + std::to_string(len) + " bytes into " + std::to_string(size);
                for (std::size_t n = 1, k = 0; n != 0; ++k) {
                    std::memset(bytes, '?', 70001);
                    n = s->read(Mutable_memory_span{static_cast<std::byte *>(p), size});
                    MC_CHECK(n <= len - got.size(), "reads more than there is", where + ": " + std::to_string(n));
                    MC_CHECK(bytes[n] == '?', "writes more than it reads", where + ": " + std::to_string(n));
                    MC_CHECK(k <= len, "never ends", where);
                    got.append(bytes, n);
                }
                MC_CHECK(got == data, "wrong bytes", where + ": " + brief(got));
                mc::transition();
            }
        mc::state(mc::hash(std::to_string(kind * 100000 + len)));
    }
    mc::traces();
    mc::nontrivial();
    mc::outcome(source_name[kind]);
}

}  // namespace

std::vector<mc::Suite> mc::make_suites(Tier tier)
{
    bool th = tier == Tier::thorough;
    on_start([] { mlio::initialize(); });
    std::vector<Suite> out;
    auto gz = std::make_shared<std::vector<Member_file>>(gzip_files(th));
    auto add = [&](std::string name, std::string what, std::size_t n, std::size_t block, std::function<void(std::size_t)> run,
                   std::function<std::string(std::size_t)> describe) {
        Suite s;
        s.name = name;
        s.what = what;
        s.ncases = n;
        s.block = block;
        s.run = run;
        s.describe = describe;
        out.push_back(s);
    };
    auto gzname = [gz](std::size_t i) { return (*gz)[i % gz->size()].name; };
    add("C13/whole", "intact files x underlying pieces x buffer sizes x read sizes", gz->size(), 1, [gz](std::size_t i) { gzip_whole((*gz)[i]); }, gzname);
    add("C13/damaged", "every truncation and every changed byte", gz->size(), 1, [gz, th](std::size_t i) { gzip_damaged((*gz)[i], th || (*gz)[i].bytes.size() < 60); }, gzname);
    for (auto [name, kind] : std::initializer_list<std::pair<const char *, std::size_t>>{{"C13/spans", gz_memory}, {"C14/spans", utf16_memory}, {"C15/spans", in_memory}})
        add(name, "reads into buffers of more than four gigabytes", kind == utf16_memory ? 1 : kind == in_memory ? 3 : 2, 1,
            [k = kind](std::size_t i) { spans(k == in_memory ? i : k + i); }, [](std::size_t i) { return std::to_string(i); });
    add("C13/long", "long compressed data and many members", 18, 1, gzip_long, [](std::size_t i) { return std::to_string(i); });
    {
        Words w{{".", "g", "z", "b", "2", "i", "p", "Z"}, th ? std::size_t{5} : std::size_t{4}};
        // Not "." and ".."; in front of a letter the suffix is no whole name.
        add("C13/names", "all short file names x contents", w.count(), 64,
            [w](std::size_t i) { names("x" + w.word(i)); }, [w](std::size_t i) { return "x" + w.word(i); });
    }
    add("C13/reader", "reading lines of compressed stores", gz->size() * 2, 4,
        [gz](std::size_t i) {
            auto &f = (*gz)[i % gz->size()];
            if (f.name.find("noise") == std::string::npos) gzip_store(f, static_cast<int>(i / gz->size()));
        },
        gzname);

    auto es = std::make_shared<std::vector<Encoding>>(encodings());
    auto texts = [&](std::size_t len) {
        auto v = std::make_shared<std::vector<std::pair<std::size_t, std::vector<std::size_t>>>>();
        for (std::size_t e = 0; e < es->size(); ++e) {
            Words w{std::vector<std::string>((*es)[e].chars.size(), ""), len};
            for (std::size_t i = 0; i < w.count(); ++i) v->push_back({e, w.symbols(i)});
        }
        return v;
    };
    auto tn = [es](auto v) {
        return [es, v](std::size_t i) {
            std::string s = (*es)[(*v)[i].first].name + " chars";
            for (auto k : (*v)[i].second) s += " " + std::to_string(k);
            return s;
        };
    };
    auto t = texts(th ? 4 : 3);
    add("C14/texts", "all texts x encodings x short reads x buffer and read sizes, truncations", t->size(), 4,
        [=](std::size_t i) { encoding_text((*es)[(*t)[i].first], (*t)[i].second, th); }, tn(t));
    add("C14/long", "long texts", es->size(), 1, [=](std::size_t i) { encoding_long((*es)[i]); }, [=](std::size_t i) { return (*es)[i].name; });
    auto t2 = texts(2);
    add("C14/malformed", "malformed characters after all prefixes", t2->size(), 4, [=](std::size_t i) { encoding_malformed((*es)[(*t2)[i].first], (*t2)[i].second); }, tn(t2));
    auto t3 = texts(3);
    add("C14/lines", "readers on texts in detected encodings", t3->size() * 3, 4,
        [=](std::size_t i) { encoding_lines((*es)[(*t3)[i / 3].first], (*t3)[i / 3].second, static_cast<int>(i % 3)); },
        [=](std::size_t i) { return tn(t3)(i / 3); });

    auto scripts = std::make_shared<std::vector<std::tuple<Source_kind, std::size_t, std::size_t, bool>>>();
    const std::size_t depth1 = th ? 5 : 4, depth2 = th ? 4 : 3;
    auto digits = [](std::size_t i, std::size_t base, std::size_t n) {
        std::vector<int> v(n);
        for (std::size_t k = 0; k < n; ++k, i /= base) v[n - 1 - k] = static_cast<int>(i % base);
        return v;
    };
    for (int k = 0; k < n_source_kinds; ++k)
        for (bool two : {false, true}) {
            std::size_t base = k <= plain_file ? 16 : 9;
            if (two) base *= 2;
            std::size_t d = two ? depth2 : depth1;
            if (k == mapped_file || k == plain_file) d -= th ? 1 : two ? 1 : 1;
            std::size_t n = 1;
            for (std::size_t j = 0; j < d; ++j) n *= base;
            for (std::size_t len : {0u, 1u, 3u}) {
                Suite s;
                s.name = std::string{"C15/ops "} + source_name[k] + (two ? " two streams " : " ") + std::to_string(len);
                s.what = "all sequences of " + std::to_string(d) + " operations";
                s.ncases = n;
                s.block = 256;
                s.run = [=](std::size_t i) { ops(static_cast<Source_kind>(k), len, digits(i, base, d), two); };
                out.push_back(s);
            }
        }
    add("C15/whole", "whole stores as instances x sizes x short reads x internal buffers", 9, 1, whole, [](std::size_t i) { return std::to_string(i); });
    add("C15/huge", "places in a file of more than four gigabytes", 18, 1, huge_file, [](std::size_t i) { return std::to_string(i); });
    add("C15/stores", "stores opened again and again", 14, 1, stores, [](std::size_t i) { return std::to_string(i); });
    return out;
}
