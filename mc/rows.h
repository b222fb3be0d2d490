// Reading examples row by row.
#pragma once

#include "support.h"

#include <mlio/example.h>
#include <mlio/schema.h>
#include <mlio/tensor.h>

#include <map>

namespace sup {

// The rows of a feature as text. A row of a sparse tensor lists its
// coordinates and values in order of the coordinates.
inline std::vector<std::string> rows(const Tensor &t)
{
    std::size_t n = t.shape()[0];
    std::vector<std::string> r(n);
    if (dynamic_cast<const Dense_tensor *>(&t)) {
        auto c = cells(t);
        std::size_t stride = 1;
        for (std::size_t d = 1; d < t.shape().size(); ++d) stride *= t.shape()[d];
        MC_CHECK(c.size() == n * stride, "tensor data does not match the shape", std::to_string(c.size()));
        for (std::size_t i = 0; i < c.size(); ++i) {
            auto &o = r[i / stride];
            if (i % stride) o += ' ';
            o += c[i];
        }
        return r;
    }
    auto &coo = dynamic_cast<const Coo_tensor &>(t);
    std::vector<std::vector<std::uint64_t>> idx;
    for (std::size_t d = 0; d < t.shape().size(); ++d) {
        auto s = coo.indices(d).as<std::size_t>();
        idx.emplace_back(s.begin(), s.end());
    }
    std::vector<std::string> v;
    auto read = [&](auto tag) {
        for (auto &x : coo.data().as<decltype(tag)>()) {
            std::ostringstream o;
            o << x;
            v.push_back(o.str());
        }
    };
    if (t.data_type() == Data_type::float32) read(float{});
    else if (t.data_type() == Data_type::float64) read(double{});
    else read(std::int32_t{});
    for (auto &i : idx)
        MC_CHECK(i.size() == v.size(), "coordinates and values differ in number", std::to_string(i.size()) + " and " + std::to_string(v.size()));
    std::vector<std::map<std::string, std::string>> m(n);
    for (std::size_t k = 0; k < v.size(); ++k) {
        std::string key;
        for (std::size_t d = 0; d < idx.size(); ++d) {
            MC_CHECK(idx[d][k] < t.shape()[d], "coordinate out of the shape", std::to_string(idx[d][k]));
            if (d) key += (d > 1 ? "," : "") + std::to_string(idx[d][k]);
        }
        m[idx[0][k]][key] += (m[idx[0][k]].count(key) ? "&" : "") + v[k];
    }
    for (std::size_t i = 0; i < n; ++i)
        for (auto &kv : m[i]) r[i] += (r[i].empty() ? "" : " ") + kv.first + "=" + kv.second;
    return r;
}

// The rows of an example: the features by name.
inline std::vector<std::string> rows(const Example &e)
{
    std::map<std::string, std::vector<std::string>> f;
    auto &a = e.schema().attributes();
    MC_CHECK(a.size() == e.features().size(), "features do not match the schema", e.repr());
    std::size_t n = 0;
    for (std::size_t i = 0; i < a.size(); ++i) {
        auto &t = *e.features()[i];
        MC_CHECK(t.data_type() == a[i].data_type(), "data type differs from the schema", e.repr());
        MC_CHECK(t.shape().size() == a[i].shape().size(), "shape differs from the schema", e.repr());
        for (std::size_t d = 1; d < t.shape().size(); ++d)
            MC_CHECK(t.shape()[d] == a[i].shape()[d], "shape differs from the schema", e.repr());
        MC_CHECK((dynamic_cast<const Dense_tensor *>(&t) == nullptr) == a[i].sparse(), "sparse differs from the schema", e.repr());
        f[a[i].name()] = rows(t);
        MC_CHECK(i == 0 || f[a[i].name()].size() == n, "features differ in the number of rows", e.repr());
        n = f[a[i].name()].size();
    }
    std::vector<std::string> r(n);
    for (auto &kv : f)
        for (std::size_t i = 0; i < n; ++i) r[i] += (r[i].empty() ? "" : "; ") + kv.first + ": " + kv.second[i];
    return r;
}

}  // namespace sup
