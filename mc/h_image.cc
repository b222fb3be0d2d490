// C20: images. The real reader on images encoded here, compared with pixels
// computed from what was encoded.
#include "encode.h"
#include "support.h"

#include <mlio/data_reader_error.h>
#include <mlio/data_stores/file.h>
#include <mlio/example.h>
#include <mlio/image_reader.h>
#include <mlio/logging.h>
#include <mlio/schema.h>
#include <mlio/tensor.h>

#include <opencv2/core.hpp>
#include <opencv2/imgproc/imgproc.hpp>
#include <zlib.h>

#include <map>

#include <sys/mman.h>
#include <unistd.h>

using namespace mlio;
using namespace sup;

namespace mc {
const char *const harness_name = "image";
}

namespace {

std::size_t warnings;

// ------------------------------------------------------------ encoders

enum Kind { gray8, rgb8, rgba8, gray_alpha8, palette8, gray16, rgb16, rgba16, bmp24, pgm, ppm, n_kinds };
const char *kind_name[] = {"gray PNG", "RGB PNG", "RGBA PNG", "gray+alpha PNG", "palette PNG", "16-bit gray PNG", "16-bit RGB PNG", "16-bit RGBA PNG", "BMP", "PGM", "PPM"};

int channels(Kind k)
{
    switch (k) {
    case gray8:
    case gray16:
    case pgm: return 1;
    case gray_alpha8: return 2;
    case rgba8:
    case rgba16: return 4;
    default: return 3;
    }
}

bool deep(Kind k) { return k == gray16 || k == rgb16 || k == rgba16; }

struct Picture {
    Kind kind;
    int h, w, seed;
    // Channel c in the order of the file: R, G, B, A or gray, alpha.
    int px(int y, int x, int c) const
    {
        int v = (seed * 71 + y * 53 + x * 29 + c * 83 + y * x * 7 + 11) & 255;
        return v;
    }
    std::string text() const { return std::string{kind_name[kind]} + " " + std::to_string(h) + "x" + std::to_string(w) + " #" + std::to_string(seed); }
};

void be32(std::string &o, std::uint32_t v)
{
    for (int i = 3; i >= 0; --i) o += static_cast<char>(v >> (8 * i));
}

void png_chunk(std::string &o, const std::string &type, const std::string &data)
{
    be32(o, static_cast<std::uint32_t>(data.size()));
    std::string t = type + data;
    o += t;
    be32(o, static_cast<std::uint32_t>(::crc32(0, reinterpret_cast<const Bytef *>(t.data()), static_cast<uInt>(t.size()))));
}

std::string encode(const Picture &p)
{
    std::string o;
    if (p.kind == bmp24) {
        int stride = (p.w * 3 + 3) / 4 * 4;
        o = "BM";
        enc::le32(o, static_cast<std::uint32_t>(54 + stride * p.h));
        enc::le32(o, 0);
        enc::le32(o, 54);
        enc::le32(o, 40);
        enc::le32(o, static_cast<std::uint32_t>(p.w));
        enc::le32(o, static_cast<std::uint32_t>(p.h));
        o += std::string("\x01\0\x18\0", 4);
        for (std::uint32_t v : {0u, static_cast<unsigned>(stride * p.h), 2835u, 2835u, 0u, 0u}) enc::le32(o, v);
        for (int y = p.h - 1; y >= 0; --y) {
            for (int x = 0; x < p.w; ++x)
                for (int c = 2; c >= 0; --c) o += static_cast<char>(p.px(y, x, c));
            o.append(static_cast<std::size_t>(stride - p.w * 3), '\0');
        }
        return o;
    }
    int ch = channels(p.kind);
    if (p.kind == pgm || p.kind == ppm) {
        o = std::string{p.kind == pgm ? "P5" : "P6"} + "\n" + std::to_string(p.w) + " " + std::to_string(p.h) + "\n255\n";
        for (int y = 0; y < p.h; ++y)
            for (int x = 0; x < p.w; ++x)
                for (int c = 0; c < ch; ++c) o += static_cast<char>(p.px(y, x, c));
        return o;
    }
    o = "\x89PNG\r\n\x1a\n";
    std::string h;
    be32(h, static_cast<std::uint32_t>(p.w));
    be32(h, static_cast<std::uint32_t>(p.h));
    h += static_cast<char>(deep(p.kind) ? 16 : 8);
    h += static_cast<char>(p.kind == palette8 ? 3 : ch == 1 ? 0 : ch == 2 ? 4 : ch == 3 ? 2 : 6);
    h += std::string(3, '\0');
    png_chunk(o, "IHDR", h);
    std::string raw, plte;
    for (int y = 0; y < p.h; ++y) {
        raw += '\0';
        for (int x = 0; x < p.w; ++x) {
            if (p.kind == palette8) {
                raw += static_cast<char>(plte.size() / 3);
                for (int c = 0; c < 3; ++c) plte += static_cast<char>(p.px(y, x, c));
                continue;
            }
            for (int c = 0; c < ch; ++c) {
                raw += static_cast<char>(p.px(y, x, c));
                if (deep(p.kind)) raw += static_cast<char>(p.px(y, x, c) / 3);
            }
        }
    }
    if (!plte.empty()) png_chunk(o, "PLTE", plte);
    uLongf n = ::compressBound(raw.size());
    std::string z(n, '\0');
    ::compress(reinterpret_cast<Bytef *>(z.data()), &n, reinterpret_cast<const Bytef *>(raw.data()), raw.size());
    z.resize(n);
    png_chunk(o, "IDAT", z);
    png_chunk(o, "IEND", "");
    return o;
}

// --------------------------------------------------------------- oracle

struct Config {
    int ch = 3, h = 1, w = 1;
    std::optional<std::size_t> resize;
    bool rgb = false, recordio = false;
    std::string text() const
    {
        return std::to_string(ch) + "x" + std::to_string(h) + "x" + std::to_string(w) + " resize=" + (resize ? std::to_string(*resize) : "-") + (rgb ? " rgb" : "") +
               (recordio ? " recordio" : "");
    }
};

struct Pixels {
    bool good = false;
    int tolerance = 0;
    std::vector<int> v;
};

Pixels expect(const Picture &p, const Config &c)
{
    Pixels r;
    int ch = channels(p.kind);
    bool alpha = ch == 2 || ch == 4, gray = ch <= 2;
    if (c.ch == 4 && (!alpha || deep(p.kind))) return r;
    // As delivered: BGR(A) or gray.
    cv::Mat m(p.h, p.w, CV_8UC(c.ch));
    for (int y = 0; y < p.h; ++y)
        for (int x = 0; x < p.w; ++x)
            for (int k = 0; k < c.ch; ++k) {
                int v = 0;
                if (c.ch == 1) {
                    if (gray) v = p.px(y, x, 0);
                    else v = static_cast<int>(0.299 * p.px(y, x, 0) + 0.587 * p.px(y, x, 1) + 0.114 * p.px(y, x, 2) + 0.5);
                }
                else if (k == 3) v = p.px(y, x, ch - 1);
                else if (gray) v = p.px(y, x, 0);
                else v = p.px(y, x, c.rgb ? k : 2 - k);
                m.ptr(y)[x * c.ch + k] = static_cast<unsigned char>(v);
            }
    if (c.ch == 1 && !gray) r.tolerance = 2;
    if (deep(p.kind)) r.tolerance += 1;
    if (c.resize) {
        int n = static_cast<int>(*c.resize);
        if (n == 0) return r;
        int nh = p.h > p.w ? n * p.h / p.w : n, nw = p.h > p.w ? n : n * p.w / p.h;
        cv::Mat d;
        cv::resize(m, d, cv::Size{nw, nh}, 0, 0);
        m = d;
        if (r.tolerance) r.tolerance += 1;
    }
    if (m.rows < c.h || m.cols < c.w) return r;
    r.good = true;
    int y0 = (m.rows - c.h) / 2, x0 = (m.cols - c.w) / 2;
    for (int y = 0; y < c.h; ++y)
        for (int x = 0; x < c.w; ++x)
            for (int k = 0; k < c.ch; ++k) r.v.push_back(m.ptr(y0 + y)[(x0 + x) * c.ch + k]);
    return r;
}

std::string header(std::size_t i)
{
    std::string s;
    for (std::size_t k = 0; k < 24; ++k) s += static_cast<char>(i * 31 + k * 7 + 1);
    return s;
}

// The payload as one record or in parts.
std::string frame(const std::string &payload, std::size_t cut1 = 0, std::size_t cut2 = 0)
{
    if (!cut1) return enc::record(payload);
    if (!cut2) return enc::record(payload.substr(0, cut1), 1) + enc::record(payload.substr(cut1), 3);
    return enc::record(payload.substr(0, cut1), 1) + enc::record(payload.substr(cut1, cut2 - cut1), 2) + enc::record(payload.substr(cut2), 3);
}

Intrusive_ptr<Data_reader> make_reader(Data_reader_params p, const Config &c)
{
    Image_reader_params ip;
    ip.image_frame = c.recordio ? Image_frame::recordio : Image_frame::none;
    ip.resize = c.resize;
    ip.image_dimensions = {static_cast<std::size_t>(c.ch), static_cast<std::size_t>(c.h), static_cast<std::size_t>(c.w)};
    ip.to_rgb = c.rgb;
    return make_intrusive<Image_reader>(p, ip);
}

struct Item {
    std::string bytes, name;
    Pixels px;
};

// Compares an example with the good items [from, ...); returns how many.
void check_example(const Example &e, const Config &c, const std::vector<const Item *> &good, std::size_t size, const std::string &where)
{
    auto &a = e.schema().attributes();
    MC_CHECK(a.size() == 1 && a[0].name() == "value" && a[0].data_type() == Data_type::uint8 && !a[0].sparse(), "wrong schema", where);
    auto H = static_cast<std::size_t>(c.h), W = static_cast<std::size_t>(c.w), C = static_cast<std::size_t>(c.ch);
    MC_CHECK(a[0].shape().size() == 4 && a[0].shape()[1] == H && a[0].shape()[2] == W && a[0].shape()[3] == C, "wrong schema", where);
    auto &t = static_cast<const Dense_tensor &>(*e.features().at(0));
    MC_CHECK(t.shape() == (Size_vector{size, H, W, C}), "wrong shape", where + t.repr());
    MC_CHECK(e.padding == size - good.size(), "wrong padding", where + std::to_string(e.padding));
    auto d = t.data().as<std::uint8_t>();
    std::size_t n = H * W * C;
    MC_CHECK(static_cast<std::size_t>(d.size()) == size * n, "wrong amount of data", where);
    for (std::size_t i = 0; i < size; ++i)
        for (std::size_t k = 0; k < n; ++k) {
            int v = d[static_cast<std::ptrdiff_t>(i * n + k)];
            if (i < good.size()) {
                auto &px = good[i]->px;
                if (std::abs(v - px.v[k]) > px.tolerance)
                    mc::fail("wrong pixel", where + good[i]->name + " row " + std::to_string(i) + " byte " + std::to_string(k) + ": " + std::to_string(v) + " instead of " + std::to_string(px.v[k]));
            }
            else MC_CHECK(v == 0, "padding is not zero", where);
        }
}

void geometry(const Config &c, const std::vector<Picture> &pictures, std::size_t batch)
{
    std::vector<Item> items;
    std::string all;
    Data_reader_params p;
    for (std::size_t i = 0; i < pictures.size(); ++i) {
        Item it;
        it.name = pictures[i].text();
        it.bytes = encode(pictures[i]);
        it.px = expect(pictures[i], c);
        if (c.recordio) {
            std::string payload = header(i) + it.bytes;
            it.bytes = frame(payload, i % 3 == 0 ? 0 : 4 * (1 + i % 8), i % 3 == 2 && payload.size() > 60 ? 60 : 0);
            all += it.bytes;
        }
        else p.dataset.push_back(make_intrusive<In_memory_store>(slice(it.bytes)));
        items.push_back(it);
    }
    if (c.recordio) p.dataset.push_back(make_intrusive<In_memory_store>(slice(all)));
    p.batch_size = batch;
    p.num_prefetched_examples = 1;
    p.bad_example_handling = Bad_example_handling::pad;
    auto r = make_reader(p, c);
    std::size_t pos = 0, ngood = 0;
    while (auto e = r->read_example()) {
        std::vector<const Item *> good;
        std::size_t size = std::min(batch, items.size() - pos);
        for (std::size_t k = pos; k < pos + size; ++k)
            if (items[k].px.good) good.push_back(&items[k]);
        check_example(*e, c, good, size, "images from " + std::to_string(pos) + ": ");
        pos += size;
        ngood += good.size();
        mc::transition(size);
    }
    MC_CHECK(pos == items.size(), "images are missing", std::to_string(pos));
    mc::traces(items.size());
    for (auto &it : items) mc::state(mc::hash(c.text() + it.name));
    if (ngood) mc::nontrivial();
    mc::outcome(std::to_string(ngood));
    mc::sample(c.text() + ": " + std::to_string(ngood) + " of " + std::to_string(items.size()) + " images");
}

// ------------------------------------------------------------- handling

enum Class { fine, other, garbage, nothing, truncated, small, no_alpha, depth, n_classes };
const char *class_name[] = {"fine", "other", "garbage", "empty", "truncated", "too small", "without alpha", "16-bit"};

struct Handling {
    std::vector<std::size_t> classes;
    std::size_t batch = 1;
    Last_example_handling last = Last_example_handling::none;
    Bad_example_handling bad = Bad_example_handling::error;
    bool warn = false;
    Config c;
    std::string text() const
    {
        std::string s;
        for (auto k : classes) s += std::string{class_name[k]} + ", ";
        return s + "batch=" + std::to_string(batch) + " last=" + std::to_string(static_cast<int>(last)) + " bad=" + std::to_string(static_cast<int>(bad)) + (warn ? " warn " : " ") + c.text();
    }
};

void handling(const Handling &h)
{
    Data_reader_params p;
    std::vector<Item> items;
    std::string all;
    std::size_t nbad = 0;
    for (std::size_t i = 0; i < h.classes.size(); ++i) {
        auto k = static_cast<Class>(h.classes[i]);
        Picture pic{rgba8, h.c.h + 1, h.c.w + 2, static_cast<int>(i)};
        if (k == other) pic = {rgba8, h.c.h, h.c.w, static_cast<int>(i) + 7};
        if (k == small) pic = {rgba8, h.c.h - 1, h.c.w + 1, static_cast<int>(i)};
        if (k == no_alpha) pic.kind = rgb8;
        if (k == depth) pic.kind = rgba16;
        Item it;
        it.name = class_name[k];
        it.bytes = encode(pic);
        it.px = expect(pic, h.c);
        if (k == garbage || k == nothing || k == truncated) it.px = {};
        if (k == garbage) it.bytes = "this is not an image " + std::to_string(i);
        if (k == nothing) it.bytes = "";
        if (k == truncated) it.bytes.resize(30);
        if (h.c.recordio) {
            std::string payload = header(i) + it.bytes;
            // A record without an image, or even without all of a header.
            if (k == nothing && i % 2) payload.resize(i % 4 == 1 ? 0 : 23);
            it.bytes = frame(payload, k == fine && i % 2 ? 8 : 0);
            all += it.bytes;
        }
        else p.dataset.push_back(make_intrusive<In_memory_store>(slice(it.bytes)));
        nbad += !it.px.good;
        items.push_back(it);
    }
    if (h.c.recordio) p.dataset.push_back(make_intrusive<In_memory_store>(slice(all)));
    p.batch_size = h.batch;
    p.num_prefetched_examples = 1;
    p.last_example_handling = h.last;
    p.bad_example_handling = h.bad;
    p.warn_bad_instances = h.warn;
    warnings = 0;
    auto r = make_reader(p, h.c);
    std::string log;
    for (int epoch = 0; epoch < 2; ++epoch) {
        bool dropped = false;
        log = "";
        for (std::size_t pos = 0; pos < items.size() && !dropped; pos += h.batch) {
            std::string where = "epoch " + std::to_string(epoch) + " image " + std::to_string(pos) + ": ";
            std::size_t n = std::min(h.batch, items.size() - pos), size = n;
            std::vector<const Item *> good;
            for (std::size_t k = pos; k < pos + n; ++k)
                if (items[k].px.good) good.push_back(&items[k]);
            if (n < h.batch) {
                if (h.last == Last_example_handling::drop || h.last == Last_example_handling::drop_warn) {
                    dropped = true;
                    break;
                }
                if (h.last == Last_example_handling::pad || h.last == Last_example_handling::pad_warn) size = h.batch;
            }
            bool bad = good.size() < n;
            if (bad && (h.bad == Bad_example_handling::skip || h.bad == Bad_example_handling::skip_warn)) {
                log += "skip ";
                continue;
            }
            Intrusive_ptr<Example> e;
            bool error = false;
            std::string what;
            try {
                e = r->read_example();
            }
            catch (const Data_reader_error &x) {
                error = true;
            }
            catch (const std::invalid_argument &x) {
                // The tests want this one for images smaller than the crop.
                bool any = false;
                for (std::size_t k = pos; k < pos + n; ++k) any |= h.classes[k] == small;
                MC_CHECK(any, "wrong kind of error", where + x.what());
                error = true;
            }
            catch (const std::exception &x) {
                mc::fail("wrong kind of error", where + x.what());
            }
            if (bad && h.bad == Bad_example_handling::error) {
                MC_CHECK(error, "bad image without an error", where);
                log += "error";
                break;
            }
            MC_CHECK(!error, "unexpected error", where);
            MC_CHECK(e != nullptr, "an example is missing", where);
            check_example(*e, h.c, good, size, where);
            log += std::to_string(good.size()) + "/" + std::to_string(size) + " ";
        }
        if (log.find("error") == std::string::npos) MC_CHECK(r->read_example() == nullptr, "example after the end", log);
        r->reset();
    }
    if (nbad == 0 && h.last != Last_example_handling::pad_warn && h.last != Last_example_handling::drop_warn)
        MC_CHECK(warnings == 0, "warning without a bad image", log);
    if (nbad && h.warn && h.last != Last_example_handling::drop && h.last != Last_example_handling::drop_warn) MC_CHECK(warnings > 0, "no warning about a bad image", log);
    mc::traces();
    mc::transition(items.size());
    mc::state(mc::hash(h.text()));
    mc::outcome(log);
    if (nbad && nbad < items.size()) mc::nontrivial();
    mc::sample(h.text() + " -> " + log);
}

void invalid(std::size_t i)
{
    Config c;
    Picture pic{rgba8, 3, 3, 0};
    Data_reader_params p;
    p.dataset.push_back(make_intrusive<In_memory_store>(slice(encode(pic))));
    p.batch_size = 1;
    p.bad_example_handling = Bad_example_handling::pad;
    Image_reader_params ip;
    if (i < 4) ip.image_dimensions.assign(i == 3 ? 4 : i, 3);
    else {
        const std::size_t bad[] = {0, 2, 5, 6, 255, std::size_t{1} << 32};
        ip.image_dimensions = {bad[i - 4], 1, 1};
    }
    bool refused = false;
    try {
        auto r = make_intrusive<Image_reader>(p, ip);
        while (r->read_example()) mc::fail("an image of an unsupported layout is delivered", std::to_string(i));
        mc::fail("no error for an unsupported layout", std::to_string(i));
    }
    catch (const std::invalid_argument &) {
        refused = true;
    }
    MC_CHECK(refused, "not refused", std::to_string(i));
    mc::traces();
    mc::transition();
    mc::state(i);
    mc::outcome("refused");
}

// Files of more than two gigabytes that begin with an image, a hole after it:
// delivered or handled as bad, and what is around them is delivered.
void oversize(std::size_t i)
{
    const std::uint64_t sizes[] = {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 500, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 20, (1ull << 32) + 5000};
    std::uint64_t size = sizes[i / 2];
    Config c;
    c.ch = i % 2 ? 1 : 3;
    c.h = c.w = 4;
    std::vector<Item> items;
    for (int k = 0; k < 3; ++k) {
        Picture p{rgb8, 4, 4, k};
        items.push_back({encode(p), "image " + std::to_string(k), expect(p, c)});
    }
    struct Fd {
        int fd = ::memfd_create("image", 0);
        ~Fd() { ::close(fd); }
    } file;
    auto &png = items[1].bytes;
    if (file.fd < 0 || ::write(file.fd, png.data(), png.size()) != static_cast<ssize_t>(png.size()) || ::ftruncate(file.fd, static_cast<off_t>(size)) != 0) {
        mc::outcome("no room for a hole");
        return;
    }
    std::string path = "/proc/self/fd/" + std::to_string(file.fd);
    for (auto bad : {Bad_example_handling::error, Bad_example_handling::skip, Bad_example_handling::pad}) {
        Data_reader_params p;
        p.dataset = {make_intrusive<In_memory_store>(slice(items[0].bytes)), make_intrusive<File>(path, true), make_intrusive<In_memory_store>(slice(items[2].bytes))};
        p.batch_size = 1;
        p.num_prefetched_examples = 1;
        p.bad_example_handling = bad;
        std::string where = std::to_string(size) + " bytes, handling " + std::to_string(static_cast<int>(bad)) + ": ", got;
        auto r = make_reader(p, c);
        try {
            for (std::size_t k = 0;; ++k) {
                auto e = r->read_example();
                if (!e) break;
                MC_CHECK(k < 3, "too many examples", where);
                if (e->padding) {
                    MC_CHECK(k == 1 && bad == Bad_example_handling::pad, "a fine image is refused", where);
                    got += '-';
                    check_example(*e, c, {}, 1, where);
                }
                else {
                    if (k == 1 && bad == Bad_example_handling::skip && static_cast<const Dense_tensor &>(*e->features()[0]).data().as<std::uint8_t>()[0] == items[2].px.v[0]) k = 2;
                    got += static_cast<char>('0' + k);
                    check_example(*e, c, {&items[k]}, 1, where);
                }
                mc::transition();
            }
            MC_CHECK(got == "012" || (bad == Bad_example_handling::skip && got == "02") || (bad == Bad_example_handling::pad && got == "0-2"), "images are missing", where + got);
        }
        catch (const Data_reader_error &e) {
            MC_CHECK(bad == Bad_example_handling::error && got == "0", "an unexpected error", where + got + e.what());
        }
        mc::traces();
        mc::outcome(std::to_string(static_cast<int>(bad)) + got);
    }
    mc::nontrivial();
    mc::state(mc::hash(std::to_string(i)));
}

}  // namespace

std::vector<mc::Suite> mc::make_suites(Tier tier)
{
    bool th = tier == Tier::thorough;
    on_start([] {
        mlio::initialize();
        cv::setNumThreads(1);
        set_log_level(Log_level::warning);
        set_log_message_handler([](Log_level l, std::string_view) { warnings += l == Log_level::warning; });
    });
    std::vector<Suite> out;
    auto add = [&](std::string name, std::string what, std::size_t n, std::size_t block, std::function<void(std::size_t)> run, std::function<std::string(std::size_t)> describe) {
        Suite s;
        s.name = name;
        s.what = what;
        s.ncases = n;
        s.block = block;
        s.run = run;
        s.describe = describe;
        out.push_back(s);
    };
    {
        auto pics = std::make_shared<std::vector<Picture>>();
        auto cs = std::make_shared<std::vector<Config>>();
        int most = th ? 6 : 4, crop = th ? 5 : 3;
        for (int k = 0; k < n_kinds; ++k)
            for (int h = 1; h <= most; ++h)
                for (int w = 1; w <= most; ++w) pics->push_back({static_cast<Kind>(k), h, w, k + h * w});
        for (int ch : {1, 3, 4})
            for (int h = 1; h <= crop; ++h)
                for (int w = 1; w <= crop; ++w)
                    for (int rs = -1; rs <= (th ? 7 : 5); ++rs)
                        for (bool rgb : {false, true})
                            for (bool rio : {false, true}) {
                                Config c;
                                c.ch = ch;
                                c.h = h;
                                c.w = w;
                                if (rs >= 0) c.resize = static_cast<std::size_t>(rs);
                                c.rgb = rgb;
                                c.recordio = rio;
                                cs->push_back(c);
                            }
        add("C20/geometry", "all small images of all kinds x dimensions x resizing x orders of colors x frames", cs->size(), 2,
            [=](std::size_t i) { geometry((*cs)[i], *pics, 1 + i % 7); }, [=](std::size_t i) { return (*cs)[i].text(); });
    }
    {
        auto pics = std::make_shared<std::vector<Picture>>();
        auto cs = std::make_shared<std::vector<Config>>();
        for (int k : {gray8, rgb8, rgba8, bmp24})
            for (int h : {1, 7, 16, 31, 64, 100})
                for (int w : {1, 7, 16, 31, 64, 100}) pics->push_back({static_cast<Kind>(k), h, w, k + h * w});
        for (int ch : {1, 3, 4})
            for (int h : {1, 8, 17, 32})
                for (int w : {1, 8, 17, 32})
                    for (int rs : {-1, 16, 17, 32, 40})
                        for (bool rgb : {false, true}) {
                            Config c;
                            c.ch = ch;
                            c.h = h;
                            c.w = w;
                            if (rs >= 0) c.resize = static_cast<std::size_t>(rs);
                            c.rgb = rgb;
                            c.recordio = (h + w) % 2;
                            cs->push_back(c);
                        }
        add("C20/larger", "larger images", cs->size(), 1, [=](std::size_t i) { geometry((*cs)[i], *pics, 5); }, [=](std::size_t i) { return (*cs)[i].text(); });
    }
    {
        auto pics = std::make_shared<std::vector<Picture>>();
        auto cs = std::make_shared<std::vector<Config>>();
        for (int k : {gray8, rgb8})
            for (int h : {1, 300})
                for (int w : {255, 257, 300}) pics->push_back({static_cast<Kind>(k), h, w, k + h * w});
        for (int ch : {1, 3})
            for (int rs : {-1, 256, 257, 300})
                for (auto [h, w] : {std::pair{1, 257}, {257, 1}, {256, 255}, {1, 255}, {300, 257}}) {
                    Config c;
                    c.ch = ch;
                    c.h = h;
                    c.w = w;
                    if (rs >= 0) c.resize = static_cast<std::size_t>(rs);
                    c.recordio = (h + w) % 2;
                    cs->push_back(c);
                }
        add("C20/long", "images and frames of more than 255 rows or columns", cs->size(), 1, [=](std::size_t i) { geometry((*cs)[i], *pics, 5); }, [=](std::size_t i) { return (*cs)[i].text(); });
    }
    add("C20/oversize", "files of more than two gigabytes", 14, 1, oversize, [](std::size_t i) { return std::to_string(i); });
    {
        // All proportions: the crop is the whole resized image, and images
        // that are one pixel too short for it are refused.
        int most = th ? 64 : 40, resize = th ? 48 : 24;
        add("C20/proportions", "images of all sizes x resizing: the exact size that they are resized to", static_cast<std::size_t>(2 * resize), 1,
            [=](std::size_t i) {
                int n = static_cast<int>(i / 2) + 1;
                bool tall = i % 2;
                std::map<int, std::vector<Picture>> by;
                for (int a = 1; a <= most; ++a)
                    for (int b = 1; b <= a; ++b) {
                        int longer = n * a / b;
                        if (longer > 20 * n) continue;
                        Picture p{gray8, tall ? a : b, tall ? b : a, a + b};
                        by[longer].push_back(p);
                        if (by[longer + 1].size() < 40) by[longer + 1].push_back(p);
                    }
                for (auto &[longer, pics] : by) {
                    Config c;
                    c.ch = 1;
                    c.h = tall ? longer : n;
                    c.w = tall ? n : longer;
                    c.resize = static_cast<std::size_t>(n);
                    geometry(c, pics, 7);
                }
            },
            [=](std::size_t i) { return "resized to " + std::to_string(i / 2 + 1); });
    }
    {
        auto cs = std::make_shared<std::vector<Handling>>();
        Words w;
        for (auto *n : class_name) w.alphabet.push_back(n);
        w.max_len = th ? 4 : 3;
        for (std::size_t i = 0; i < w.count(); ++i)
            for (std::size_t batch = 1; batch <= 3; ++batch)
                for (int bad = 0; bad < 5; ++bad)
                    for (int last = 0; last < 5; ++last)
                        for (int v = 0; v < 4; ++v) {
                            Handling h;
                            h.classes = w.symbols(i);
                            const Bad_example_handling bads[] = {Bad_example_handling::error, Bad_example_handling::skip, Bad_example_handling::skip_warn, Bad_example_handling::pad,
                                                                 Bad_example_handling::pad_warn};
                            const Last_example_handling lasts[] = {Last_example_handling::none, Last_example_handling::drop, Last_example_handling::drop_warn,
                                                                   Last_example_handling::pad, Last_example_handling::pad_warn};
                            h.batch = batch;
                            h.bad = bads[bad];
                            h.last = lasts[last];
                            if (h.classes.size() == w.max_len && (i + batch) % (th ? 2 : 3) != static_cast<std::size_t>(v) % (th ? 2 : 3)) continue;
                            if (last && h.classes.size() % batch == 0) continue;
                            h.warn = (i + batch + static_cast<std::size_t>(v)) % 2;
                            h.c.ch = v == 3 ? 3 : 4;
                            h.c.h = 3;
                            h.c.w = 2;
                            h.c.rgb = v == 1;
                            h.c.recordio = v % 2;
                            if (v == 2 && i % 2) h.c.resize = 0;
                            cs->push_back(h);
                        }
        add("C20/handling", "all sequences of good and bad images x batches x handlings", cs->size(), 64, [=](std::size_t i) { handling((*cs)[i]); },
            [=](std::size_t i) { return (*cs)[i].text(); });
    }
    add("C20/invalid", "unsupported dimensions are refused", 10, 1, invalid, [](std::size_t i) { return std::to_string(i); });
    return out;
}
