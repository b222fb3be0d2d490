#include <mlio.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <thread>
#include <chrono>
#include <string>
#include <vector>
#include <zlib.h>
using namespace mlio;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s (line %d)\n", #c, __LINE__); std::fflush(stdout); std::_Exit(1); } } while (0)
inline Memory_slice slice(const std::string &s)
{
    if (s.empty()) return {};
    auto b = make_intrusive<Heap_memory_block>(s.size());
    std::memcpy(b->data(), s.data(), s.size());
    return Memory_slice{b};
}
inline std::string str(Memory_slice s) { return std::string(reinterpret_cast<const char *>(s.data()), s.size()); }
inline Intrusive_ptr<Data_store> mem(const std::string &s) { return make_intrusive<In_memory_store>(slice(s)); }
// A non-seekable stream that gives at most n bytes at a time.
struct Pipe final : Input_stream_base {
    std::string d; std::size_t n, pos = 0; bool c = false;
    Pipe(std::string d, std::size_t n) : d{d}, n{n} {}
    using Input_stream_base::read;
    std::size_t read(Mutable_memory_span o) override
    {
        std::size_t k = std::min({o.size(), n, d.size() - pos});
        std::memcpy(o.data(), d.data() + pos, k);
        pos += k;
        return k;
    }
    void close() noexcept override { c = true; }
    bool closed() const noexcept override { return c; }
};
struct Fn_store final : Data_store {
    std::string i; std::function<Intrusive_ptr<Input_stream>()> f;
    Fn_store(std::string i, std::function<Intrusive_ptr<Input_stream>()> f) : i{i}, f{f} {}
    Intrusive_ptr<Input_stream> open_read() const override { return f(); }
    std::string repr() const override { return i; }
    const std::string &id() const override { return i; }
};
inline std::string gzip(const std::string &p)
{
    z_stream z{};
    deflateInit2(&z, 6, Z_DEFLATED, 31, 8, 0);
    std::string o(p.size() + 300, 0);
    z.next_in = (Bytef *)p.data(); z.avail_in = p.size();
    z.next_out = (Bytef *)&o[0]; z.avail_out = o.size();
    deflate(&z, Z_FINISH);
    o.resize(o.size() - z.avail_out);
    deflateEnd(&z);
    return o;
}
template<class T> inline std::vector<T> values(const Tensor &t)
{
    auto &d = static_cast<const Dense_tensor &>(t);
    auto v = d.data().as<T>();
    return {v.begin(), v.end()};
}
inline std::vector<std::string> lines(Data_reader &r, std::size_t max = ~std::size_t{})
{
    std::vector<std::string> o;
    while (o.size() < max) {
        auto e = r.read_example();
        if (!e) break;
        for (auto &s : values<std::string>(*e->features()[0])) o.push_back(s);
    }
    return o;
}
