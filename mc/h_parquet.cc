// C23: Parquet files in a stream.
#include "encode.h"
#include "support.h"

#include <mlio/record_readers/parquet_record_reader.h>

using namespace mlio;
using namespace sup;

namespace mc {
const char *const harness_name = "parquet";
}

namespace {

std::string le(std::uint32_t v)
{
    std::string o;
    enc::le32(o, v);
    return o;
}

// Metadata of a size: a first byte and a last byte.
std::string meta(std::size_t n, int first = 0x15, int last = 0)
{
    std::string s(n, '\x02');
    if (n) {
        s.back() = static_cast<char>(last);
        s[0] = static_cast<char>(first);
    }
    return s;
}

struct Split {
    std::vector<std::string> files;
    bool error = false;
};

bool footer(const std::string &d, std::size_t from, std::size_t end)
{
    // [end-4, end) is the number; before it the size; before it the metadata.
    if (end < from + 12) return false;
    if (d.compare(end - 4, 4, "PAR1")) return false;
    std::uint64_t n = 0;
    for (std::size_t k = 4; k-- > 0;) n = n << 8 | static_cast<unsigned char>(d[end - 8 + k]);
    if (n < 9) return false;
    std::uint64_t room = end - 8 - from;  // including the first number
    if (n + 4 > room) return false;
    if (d[end - 9] != 0) return false;
    auto b = static_cast<unsigned char>(d[end - 8 - n]);
    return b == 0x15 || b == 0x29 || b == 0x36 || b == 0x49 || b == 0x59 || b == 0x68 || b == 0x79;
}

Split model(const std::string &d)
{
    Split r;
    std::size_t pos = 0;
    while (pos < d.size()) {
        if (d.size() - pos < 4 || d.compare(pos, 4, "PAR1")) {
            r.error = true;
            return r;
        }
        std::size_t end = pos + 12;
        while (end <= d.size() && !footer(d, pos, end)) ++end;
        if (end > d.size()) {
            r.error = true;
            return r;
        }
        r.files.push_back(d.substr(pos, end - pos));
        pos = end;
    }
    return r;
}

void run(const std::string &d, int mode, std::uint64_t cuts, std::size_t chunk, std::size_t hint)
{
    mlio_verif::chunk_size = chunk;
    auto want = model(d);
    auto st = store(d, mode, cuts);
    auto r = make_intrusive<detail::Parquet_record_reader>(st->open_read());
    if (hint) r->set_record_size_hint(hint);
    std::string where = mc::quote(d) + " mode " + std::to_string(mode) + " cuts " + std::to_string(cuts) + " chunk " + std::to_string(chunk) + " hint " + std::to_string(hint) + ": ";
    std::size_t n = 0;
    std::vector<Record> kept;
    bool error = false;
    try {
        while (auto rec = r->read_record()) {
            MC_CHECK(n < want.files.size(), "a file too many", where + mc::quote(str(rec->payload())));
            MC_CHECK(str(rec->payload()) == want.files[n], "wrong file", where + mc::quote(str(rec->payload())) + " instead of " + mc::quote(want.files[n]));
            MC_CHECK(rec->kind() == Record_kind::complete, "wrong kind of record", where);
            kept.push_back(*rec);
            ++n;
        }
    }
    catch (const Corrupt_record_error &) {
        error = true;
    }
    MC_CHECK(error == want.error, error ? "intact data is refused" : "corrupt data is accepted", where + std::to_string(n));
    MC_CHECK(n == want.files.size(), "files are missing", where + std::to_string(n));
    for (int again = 0; again < 2; ++again) {
        bool e2 = false;
        try {
            MC_CHECK(!r->read_record(), "a file after the end or an error", where);
        }
        catch (const Corrupt_record_error &) {
            e2 = true;
        }
        MC_CHECK(e2 == want.error, "the outcome changes when reading again", where);
    }
    r = nullptr;
    for (std::size_t i = 0; i < kept.size(); ++i) MC_CHECK(str(kept[i].payload()) == want.files[i], "a returned file changes", where);
    mc::traces();
    mc::transition(n + 1);
    mc::state(mc::hash(where));
    mc::outcome(std::to_string(n) + (error ? " error" : ""));
    if (n > 1) mc::nontrivial();
}

}  // namespace

std::vector<mc::Suite> mc::make_suites(Tier tier)
{
    bool th = tier == Tier::thorough;
    on_start([] { mlio::initialize(); });
    std::vector<Suite> out;
    Words w;
    w.alphabet = {"PAR1",
                  meta(9) + le(9) + "PAR1",
                  meta(8) + le(8) + "PAR1",
                  meta(9) + le(1000) + "PAR1",
                  meta(9, 0x15, 1) + le(9) + "PAR1",
                  meta(9, 0x16) + le(9) + "PAR1",
                  meta(12, 0x79) + le(12) + "PAR1",
                  meta(9) + le(13) + "PAR1",
                  std::string(1, '\0'),
                  "xPAR",
                  le(9) + "PAR1",
                  meta(9) + le(0xffffffffu) + "PAR1",
                  meta(9, 0x29)};
    w.max_len = th ? 5 : 4;
    auto chunks = std::make_shared<std::vector<std::size_t>>(th ? std::vector<std::size_t>{5, 8, 11, 12, 13, 16, 17, 21, 32, 64} : std::vector<std::size_t>{5, 12, 17, 64});
    auto add = [&](std::string name, std::string what, std::size_t n, std::size_t block, std::function<void(std::size_t)> run, std::function<std::string(std::size_t)> d) {
        Suite s;
        s.name = name;
        s.what = what;
        s.ncases = n;
        s.block = block;
        s.run = run;
        s.describe = d;
        out.push_back(s);
    };
    // Bit 0: whether the data starts with the number.
    auto data = [w](std::size_t i) { return (i & 1 ? "" : "PAR1") + w.word(i / 2); };
    add("C23/splits", "all sequences of footers, look-alikes and bytes x chunk sizes x ways of arriving", w.count() * 2, 128,
        [=](std::size_t i) {
            auto d = data(i);
            run(d, 0, 0, 64, 0);
            for (std::size_t k = 0; k < chunks->size(); ++k) {
                run(d, 1 + static_cast<int>((i + k) % 2), 0, (*chunks)[k], 0);
                run(d, 1, ~std::uint64_t{0} / 3 << (i % 2), (*chunks)[k], 0);
            }
        },
        [=](std::size_t i) { return quote(data(i)); });
    // Two or three whole files cut off anywhere.
    auto files = std::make_shared<std::vector<std::string>>();
    std::vector<std::string> one;
    for (std::size_t k : {1, 3, 6, 8, 10}) one.push_back("PAR1" + w.alphabet[k % 2 ? 8 : k] + meta(9 + k % 3, k % 2 ? 0x36 : 0x49) + le(static_cast<std::uint32_t>(9 + k % 3)) + "PAR1");
    for (auto &a : one)
        for (auto &b : one) {
            files->push_back(a + b);
            if (th)
                for (auto &c : one) files->push_back(a + b + c);
        }
    add("C23/truncated", "files cut off at every byte x every chunk size x short reads", files->size(), 1,
        [=](std::size_t i) {
            auto &f = (*files)[i];
            for (std::size_t n = 0; n <= f.size(); ++n) {
                auto d = f.substr(0, n);
                run(d, 0, 0, 8, 0);
                for (std::size_t chunk = 4; chunk <= (th ? 40u : 24u); ++chunk) {
                    run(d, 1, 0, chunk, 0);
                    run(d, 2, std::uint64_t{1} << (chunk % 40), chunk, 0);
                    run(d, 1, 0, 64, chunk);
                }
                run(d, 1, ~std::uint64_t{0}, 13, 0);
                run(d, 3, ~std::uint64_t{0} / 7 << (n % 3), 13, 0);
            }
        },
        [=](std::size_t i) { return quote((*files)[i]); });
    add("C23/cuts", "every pair of short reads", files->size(), 1,
        [=](std::size_t i) {
            auto &f = (*files)[i];
            std::size_t n = std::min<std::size_t>(f.size(), 63);
            for (std::size_t a = 0; a < n; ++a)
                for (std::size_t b = a; b < n; ++b) run(f, (a + b) % 3 ? 1 : 3, std::uint64_t{1} << a | std::uint64_t{1} << b, 64, 0);
        },
        [=](std::size_t i) { return quote((*files)[i]); });
    return out;
}
