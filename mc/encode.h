// Independent encoders of the formats the readers decode.
#pragma once

#include <cstdint>
#include <cstring>
#include <string>
#include <utility>
#include <vector>

namespace enc {

inline void le32(std::string &o, std::uint32_t v)
{
    for (int i = 0; i < 4; ++i) o += static_cast<char>(v >> (8 * i));
}

// One RecordIO record; kind 0 complete, 1 begin, 2 middle, 3 end.
inline std::string record(const std::string &payload, unsigned kind = 0)
{
    std::string o;
    le32(o, 0xced7230au);
    le32(o, kind << 29 | static_cast<std::uint32_t>(payload.size()));
    o += payload;
    while (o.size() % 4) o += '\0';
    return o;
}

inline void varint(std::string &o, std::uint64_t v)
{
    while (v >= 0x80) {
        o += static_cast<char>(v | 0x80);
        v >>= 7;
    }
    o += static_cast<char>(v);
}

inline void field(std::string &o, unsigned number, const std::string &bytes)
{
    varint(o, number << 3 | 2);
    varint(o, bytes.size());
    o += bytes;
}

enum class Kind { f32, f64, i32, bytes, none };

// A tensor of the RecordIO-protobuf format.
struct Value {
    Kind kind = Kind::f32;
    std::vector<double> values;
    std::vector<std::uint64_t> keys, shape;
    bool packed = true;

    std::string encode() const
    {
        std::string t, v;
        auto raw = [](double d, Kind k) {
            std::string s;
            if (k == Kind::f32) {
                float f = static_cast<float>(d);
                s.assign(reinterpret_cast<char *>(&f), 4);
            }
            else if (k == Kind::f64) s.assign(reinterpret_cast<char *>(&d), 8);
            else varint(s, static_cast<std::uint64_t>(static_cast<std::int64_t>(d)));
            return s;
        };
        if (packed) {
            for (auto d : values) v += raw(d, kind);
            if (!values.empty()) field(t, 1, v);
        }
        else
            for (auto d : values) {
                varint(t, 1 << 3 | (kind == Kind::f32 ? 5 : kind == Kind::f64 ? 1 : 0));
                t += raw(d, kind);
            }
        for (auto [n, list] : {std::pair{2u, &keys}, std::pair{3u, &shape}}) {
            if (list->empty()) continue;
            std::string p;
            for (auto k : *list) varint(p, k);
            field(t, n, p);
        }
        std::string r;
        if (kind == Kind::none) return r;
        if (kind == Kind::bytes) t = "\x0a\x01x";
        field(r, kind == Kind::f32 ? 2 : kind == Kind::f64 ? 3 : kind == Kind::i32 ? 7 : 9, t);
        return r;
    }
};

struct Message {
    // (is label, name, value), in the order in which they are written.
    struct Entry {
        bool label;
        std::string name;
        Value value;
    };
    std::vector<Entry> entries;
    std::string encode() const
    {
        std::string r;
        for (auto &e : entries) {
            std::string m;
            field(m, 1, e.name);
            field(m, 2, e.value.encode());
            field(r, e.label ? 2 : 1, m);
        }
        return r;
    }
};

}  // namespace enc
