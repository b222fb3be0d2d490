// Helpers shared by the harnesses.
#pragma once

#include <mlio.h>
#include <mlio/parallel_data_reader.h>
#include <mlio/data_stores/data_store.h>
#include <mlio/data_stores/in_memory_store.h>
#include <mlio/memory/heap_memory_block.h>
#include <mlio/memory/memory_slice.h>
#include <mlio/record_readers/record.h>
#include <mlio/record_readers/record_error.h>
#include <mlio/record_readers/record_reader.h>
#include <mlio/streams/input_stream_base.h>
#include <mlio/streams/stream_error.h>

#include <sstream>
#include <string>
#include <vector>

#include "mc.h"

namespace sup {

using namespace mlio;

// A block of exactly the given bytes, so that the address sanitizer sees
// any access past them.
inline Intrusive_ptr<Mutable_memory_block> block(std::string_view s)
{
    auto b = make_intrusive<Heap_memory_block>(s.size());
    std::copy_n(reinterpret_cast<const std::byte *>(s.data()), s.size(), b->begin());
    return b;
}

inline Memory_slice slice(std::string_view s)
{
    return Memory_slice{block(s)};
}

template<typename T>
inline std::string str(const T &s)
{
    auto sp = as_span<const char>(s);
    return std::string{sp.begin(), sp.end()};
}

// Streams the bytes of a string with short reads: a read never goes past
// a cut (bit i of cuts set: a cut after byte i).
class Short_stream : public Input_stream_base {
public:
    explicit Short_stream(std::string data, std::uint64_t cuts = 0, bool seekable = false)
        : data_{std::move(data)}, cuts_{cuts}, seekable_{seekable}
    {}
    using Input_stream_base::read;
    std::size_t read(Mutable_memory_span d) override
    {
        if (closed_) throw Stream_error{"The input stream is closed."};
        std::size_t n = 0;
        while (n < d.size() && pos_ < data_.size()) {
            d[static_cast<std::ptrdiff_t>(n)] = static_cast<std::byte>(data_[pos_]);
            ++n;
            ++pos_;
            if (pos_ <= 64 && (cuts_ >> (pos_ - 1)) & 1) break;
        }
        if (n == 0 && !d.empty()) ++ends;
        ++reads;
        return n;
    }
    void seek(std::size_t p) override
    {
        if (!seekable_) return Input_stream_base::seek(p);
        pos_ = std::min(p, data_.size());
    }
    std::size_t size() const override { return seekable_ ? data_.size() : Input_stream_base::size(); }
    std::size_t position() const override { return seekable_ ? pos_ : Input_stream_base::position(); }
    void close() noexcept override { closed_ = true; }
    bool closed() const noexcept override { return closed_; }
    bool seekable() const noexcept override { return seekable_; }
    std::size_t reads = 0, ends = 0;

private:
    std::string data_;
    std::uint64_t cuts_;
    bool seekable_, closed_ = false;
    std::size_t pos_ = 0;
};

// A stream that hands out its own memory but need not give all that is asked
// for: a read never goes past a cut.
class Piecewise_stream : public Input_stream_base {
public:
    Piecewise_stream(const std::string &data, std::uint64_t cuts) : data_{slice(data)}, cuts_{cuts} {}
    using Input_stream_base::read;
    std::size_t read(Mutable_memory_span d) override
    {
        auto s = read(d.size());
        std::copy(s.begin(), s.end(), d.begin());
        return s.size();
    }
    Memory_slice read(std::size_t n) override
    {
        if (closed_) throw Stream_error{"The input stream is closed."};
        std::size_t e = pos_;
        while (e - pos_ < n && e < data_.size()) {
            ++e;
            if (e <= 64 && (cuts_ >> (e - 1)) & 1) break;
        }
        auto r = data_.subslice(pos_, e - pos_);
        pos_ = e;
        return r;
    }
    void seek(std::size_t p) override { pos_ = std::min(p, data_.size()); }
    std::size_t size() const override { return data_.size(); }
    std::size_t position() const override { return pos_; }
    void close() noexcept override { closed_ = true; }
    bool closed() const noexcept override { return closed_; }
    bool seekable() const noexcept override { return true; }
    bool supports_zero_copy() const noexcept override { return true; }

private:
    Memory_slice data_;
    std::uint64_t cuts_;
    bool closed_ = false;
    std::size_t pos_ = 0;
};

// A store whose streams are made by a function.
class Fn_store : public Data_store {
public:
    Fn_store(std::string id, std::function<Intrusive_ptr<Input_stream>()> f) : id_{std::move(id)}, f_{std::move(f)} {}
    Intrusive_ptr<Input_stream> open_read() const override { return f_(); }
    std::string repr() const override { return id_; }
    const std::string &id() const override { return id_; }

private:
    std::string id_;
    std::function<Intrusive_ptr<Input_stream>()> f_;
};

// How the bytes of a store arrive: 0 memory (zero copy), 1 streamed,
// 2 streamed and seekable, 3 memory (zero copy) handed out in pieces.
inline Intrusive_ptr<Data_store> store(std::string data, int mode, std::uint64_t cuts = 0, std::string id = "s")
{
    if (mode == 0) return make_intrusive<In_memory_store>(slice(data));
    if (mode == 3) return make_intrusive<Fn_store>(id, [=] { return make_intrusive<Piecewise_stream>(data, cuts); });
    return make_intrusive<Fn_store>(id, [=] { return make_intrusive<Short_stream>(data, cuts, mode == 2); });
}

// All strings over the alphabet of at most (or exactly) a length, by number.
struct Words {
    std::vector<std::string> alphabet;
    std::size_t max_len;
    std::size_t count() const
    {
        std::size_t n = 0, p = 1;
        for (std::size_t l = 0; l <= max_len; ++l, p *= alphabet.size()) n += p;
        return n;
    }
    std::vector<std::size_t> symbols(std::size_t i) const
    {
        std::size_t p = 1, l = 0;
        while (i >= p) {
            i -= p;
            p *= alphabet.size();
            ++l;
        }
        std::vector<std::size_t> r(l);
        for (std::size_t k = 0; k < l; ++k) {
            r[l - 1 - k] = i % alphabet.size();
            i /= alphabet.size();
        }
        return r;
    }
    std::string word(std::size_t i) const
    {
        std::string s;
        for (auto k : symbols(i)) s += alphabet[k];
        return s;
    }
};

inline std::string join(const std::vector<std::string> &v)
{
    std::string r = "[";
    for (auto &s : v) {
        if (r.size() > 1) r += ' ';
        r += mc::quote(s);
    }
    return r + "]";
}

// Reads all cells of a feature as text.
inline std::vector<std::string> cells(const Tensor &t0)
{
    auto &t = static_cast<const Dense_tensor &>(t0);
    std::vector<std::string> r;
    auto d = t.data();
    auto num = [&](auto tag) {
        using T = decltype(tag);
        for (auto &v : d.as<T>()) {
            std::ostringstream o;
            if constexpr (sizeof(T) == 1) o << static_cast<int>(v);
            else o << v;
            r.push_back(o.str());
        }
    };
    switch (t.data_type()) {
    case Data_type::size: num(std::size_t{}); break;
    case Data_type::float16: for (auto v : d.as<std::uint16_t>()) r.push_back("h" + std::to_string(v)); break;
    case Data_type::float32: num(float{}); break;
    case Data_type::float64: num(double{}); break;
    case Data_type::int8: num(std::int8_t{}); break;
    case Data_type::int16: num(std::int16_t{}); break;
    case Data_type::int32: num(std::int32_t{}); break;
    case Data_type::int64: num(std::int64_t{}); break;
    case Data_type::uint8: num(std::uint8_t{}); break;
    case Data_type::uint16: num(std::uint16_t{}); break;
    case Data_type::uint32: num(std::uint32_t{}); break;
    case Data_type::uint64: num(std::uint64_t{}); break;
    case Data_type::string: for (auto &v : d.as<std::string>()) r.push_back(v); break;
    }
    return r;
}

}  // namespace sup

// Sizes of internal buffers (hooks in /repo).
namespace mlio_verif {
extern std::size_t chunk_size, inflate_buffer_size, utf8_buffer_size, instance_buffer_size, parallel_cut_off;
}
