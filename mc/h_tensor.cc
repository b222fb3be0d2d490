// C19: tensors, schemas, examples and the DLPack export.
#include "support.h"

#include <mlio/cpu_array.h>
#include <mlio/device.h>
#include <mlio/device_array.h>
#include <mlio/example.h>
#include <mlio/integ/dlpack.h>
#include <mlio/not_supported_error.h>
#include <mlio/schema.h>
#include <mlio/tensor.h>
#include <mlio/tensor_visitor.h>

#include <dlpack/dlpack.h>

#include <numeric>
#include <set>

using namespace mlio;
using namespace sup;
using Wide = unsigned __int128;

namespace mc {
const char *const harness_name = "tensor";
}

namespace {

const std::vector<Data_type> all_types{Data_type::size, Data_type::float16, Data_type::float32, Data_type::float64, Data_type::int8, Data_type::int16, Data_type::int32,
                                       Data_type::int64, Data_type::uint8, Data_type::uint16, Data_type::uint32, Data_type::uint64, Data_type::string};

int live_arrays;

// An array that counts its lives.
class Counted_array : public Device_array {
public:
    Counted_array(Data_type dt, std::size_t n) : a_{make_cpu_array(dt, n)} { ++live_arrays; }
    explicit Counted_array(std::unique_ptr<Device_array> a) : a_{std::move(a)} { ++live_arrays; }
    ~Counted_array() override { --live_arrays; }
    std::unique_ptr<Device_array> clone() const override { return std::make_unique<Counted_array>(a_->clone()); }
    void *data() noexcept override { return a_->data(); }
    const void *data() const noexcept override { return const_cast<const Device_array &>(*a_).data(); }
    std::size_t size() const noexcept override { return a_->size(); }
    bool empty() const noexcept override { return a_->empty(); }
    Data_type data_type() const noexcept override { return a_->data_type(); }
    Device device() const noexcept override { return a_->device(); }

private:
    std::unique_ptr<Device_array> a_;
};

template<typename F>
void with_type(Data_type dt, F f)
{
    switch (dt) {
    case Data_type::size: f(std::size_t{}); break;
    case Data_type::float16: f(std::uint16_t{}); break;
    case Data_type::float32: f(float{}); break;
    case Data_type::float64: f(double{}); break;
    case Data_type::int8: f(std::int8_t{}); break;
    case Data_type::int16: f(std::int16_t{}); break;
    case Data_type::int32: f(std::int32_t{}); break;
    case Data_type::int64: f(std::int64_t{}); break;
    case Data_type::uint8: f(std::uint8_t{}); break;
    case Data_type::uint16: f(std::uint16_t{}); break;
    case Data_type::uint32: f(std::uint32_t{}); break;
    case Data_type::uint64: f(std::uint64_t{}); break;
    case Data_type::string: f(std::string{}); break;
    }
}

template<typename T>
T value_of(std::size_t i)
{
    if constexpr (std::is_same_v<T, std::string>) return "value " + std::to_string(i);
    else return static_cast<T>(i * 3 + 1);
}

std::unique_ptr<Device_array> filled(Data_type dt, std::size_t n)
{
    auto a = std::make_unique<Counted_array>(dt, n);
    with_type(dt, [&](auto tag) {
        using T = decltype(tag);
        auto s = as_span<T>(static_cast<Device_array &>(*a));
        for (std::size_t i = 0; i < n; ++i) s[static_cast<std::ptrdiff_t>(i)] = value_of<T>(i);
    });
    return a;
}

template<typename V>
std::string list(const V &v)
{
    std::string s = "(";
    for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x);
    return s + ")";
}

// Row-major strides, if they can be represented.
bool row_major(const Size_vector &shape, Ssize_vector &out)
{
    out.assign(shape.size(), 1);
    Wide p = 1;
    for (std::size_t k = shape.size(); k-- > 0;) {
        if (p > static_cast<Wide>(std::numeric_limits<std::ptrdiff_t>::max())) return false;
        out[k] = static_cast<std::ptrdiff_t>(p);
        if (k > 0) {
            if (shape[k] > static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max())) return false;
            p *= static_cast<Wide>(shape[k]);
        }
    }
    return true;
}

// Visits all elements that can be addressed.
template<typename T>
void walk(const T *data, const Size_vector &shape, const Ssize_vector &strides, std::size_t dim, std::size_t offset, std::size_t n)
{
    if (dim == 0)
        for (auto d : shape)
            if (d == 0) return;
    if (dim == shape.size()) {
        MC_CHECK(offset < n, "an element outside the data", std::to_string(offset));
        MC_CHECK(data[offset] == value_of<T>(offset), "wrong element", std::to_string(offset));
        return;
    }
    std::size_t distinct = strides[dim] == 0 ? 1 : shape[dim];
    for (std::size_t i = 0; i < distinct; ++i) walk(data, shape, strides, dim + 1, offset + i * static_cast<std::size_t>(strides[dim]), n);
}

// Where the first element is: a reversed dimension starts at its end.
std::size_t first_of(const Size_vector &shape, const Ssize_vector &strides)
{
    std::size_t r = 0;
    for (auto d : shape)
        if (d == 0) return 0;
    for (std::size_t k = 0; k < shape.size(); ++k)
        if (strides[k] < 0) r -= (shape[k] - 1) * static_cast<std::size_t>(strides[k]);
    return r;
}

struct Seen : Tensor_visitor {
    using Tensor_visitor::visit;
    std::string what;
    void visit(Tensor &) override { what = "tensor"; }
    void visit(const Tensor &) override { what = "const tensor"; }
    void visit(Dense_tensor &) override { what = "dense"; }
    void visit(const Dense_tensor &) override { what = "const dense"; }
    void visit(Coo_tensor &) override { what = "coo"; }
    void visit(const Coo_tensor &) override { what = "const coo"; }
    void visit(Csr_tensor &) override { what = "csr"; }
    void visit(const Csr_tensor &) override { what = "const csr"; }
};

void check_visit(Tensor &t, const std::string &kind)
{
    Seen s;
    t.accept(s);
    MC_CHECK(s.what == kind, "wrong visit", kind + ": " + s.what);
    static_cast<const Tensor &>(t).accept(s);
    MC_CHECK(s.what == "const " + kind, "wrong visit", kind + ": " + s.what);
}

struct Spec {
    Size_vector shape;
    bool default_strides;
    Ssize_vector strides;
};

void dense(const Spec &spec, std::size_t n, Data_type dt)
{
    std::string what = "shape " + list(spec.shape) + (spec.default_strides ? "" : " strides " + list(spec.strides)) + " data " + std::to_string(n) + " type " + std::to_string(static_cast<int>(dt));
    Ssize_vector strides = spec.strides;
    bool representable = true, determined = true, ok = true;
    if (spec.default_strides || strides.empty()) representable = row_major(spec.shape, strides);
    if (strides.size() != spec.shape.size()) ok = false;
    bool none = false;
    if (ok) {
        for (auto d : spec.shape) none |= d == 0;
        Wide last = 0;
        if (!none)
            for (std::size_t k = 0; k < strides.size(); ++k) {
                // Capped, as a sum of terms might overflow.
                if (representable) last = std::min<Wide>(Wide{1} << 100, last + static_cast<Wide>(spec.shape[k] - 1) * static_cast<Wide>(std::abs(strides[k])));
            }
        if (!representable && !none) {
            // More elements than memory.
            ok = false;
        }
        else if (!none && last + 1 > static_cast<Wide>(n)) ok = false;
    }
    auto arr = filled(dt, n);
    void *data = arr->data();
    mc::transition();
    mc::traces();
    mc::state(mc::hash(what));
    try {
        auto t = make_intrusive<Dense_tensor>(spec.shape, std::move(arr), spec.default_strides ? Ssize_vector{} : spec.strides);
        MC_CHECK(ok || !determined, "a tensor reaches outside its data", what);
        MC_CHECK(t->shape() == spec.shape, "wrong shape", what + list(t->shape()));
        if (representable) MC_CHECK(t->strides() == strides, "wrong strides", what + list(t->strides()));
        MC_CHECK(t->data_type() == dt && t->data().data_type() == dt, "wrong data type", what);
        MC_CHECK(t->data().size() == n && (n == 0 || t->data().data() == data), "wrong data", what);
        MC_CHECK(t->data().empty() == (n == 0), "wrong emptiness", what);
        MC_CHECK(static_cast<const Dense_tensor &>(*t).data().data() == t->data().data(), "const access differs", what);
        if (determined)
            with_type(dt, [&](auto tag) {
                using T = decltype(tag);
                walk(static_cast<const T *>(t->data().data()), t->shape(), t->strides(), 0, first_of(t->shape(), t->strides()), n);
            });
        check_visit(*t, "dense");
        mc::outcome("ok");
    }
    catch (const std::invalid_argument &) {
        MC_CHECK(!ok || !determined, "a consistent tensor is refused", what);
        mc::outcome("refused");
    }
}

// ------------------------------------------------------------ sparse

void sparse(std::size_t rank, std::size_t ncoord, std::size_t n, const std::vector<std::size_t> &sizes, Data_type dt)
{
    Size_vector shape;
    for (std::size_t k = 0; k < rank; ++k) shape.push_back(k + 2);
    std::string what = "rank " + std::to_string(rank) + " data " + std::to_string(n) + " coordinates " + list(sizes);
    bool ok = ncoord == rank;
    std::vector<std::unique_ptr<Device_array>> coords;
    std::vector<void *> ptrs;
    for (std::size_t k = 0; k < ncoord; ++k) {
        ok &= sizes[k] == n;
        coords.push_back(filled(Data_type::size, sizes[k]));
        ptrs.push_back(coords.back()->data());
    }
    auto arr = filled(dt, n);
    void *data = arr->data();
    try {
        auto t = make_intrusive<Coo_tensor>(shape, std::move(arr), std::move(coords));
        MC_CHECK(ok, "inconsistent COO tensor accepted", what);
        Ssize_vector st;
        row_major(shape, st);
        MC_CHECK(t->shape() == shape && t->strides() == st && t->data_type() == dt, "wrong description", what);
        MC_CHECK(t->data().size() == n && (n == 0 || t->data().data() == data), "wrong data", what);
        for (std::size_t k = 0; k < rank; ++k) {
            MC_CHECK(t->indices(k).size() == n && (n == 0 || t->indices(k).data() == ptrs[k]), "wrong coordinates", what);
            MC_CHECK(static_cast<const Coo_tensor &>(*t).indices(k).data() == t->indices(k).data(), "const access differs", what);
        }
        bool refused = false;
        try {
            t->indices(rank);
        }
        catch (const std::out_of_range &) {
            refused = true;
        }
        MC_CHECK(refused, "coordinates of a missing dimension", what);
        check_visit(*t, "coo");
        bool not_exported = false;
        try {
            as_dlpack(*t, DLPACK_VERSION);
        }
        catch (const std::invalid_argument &) {
            not_exported = true;
        }
        MC_CHECK(not_exported, "a sparse tensor is exported", what);
        mc::outcome("coo ok");
    }
    catch (const std::invalid_argument &) {
        MC_CHECK(!ok, "consistent COO tensor refused", what);
        mc::outcome("coo refused");
    }
    mc::traces();
    mc::transition();
    mc::state(mc::hash("coo" + what));
}

// A visitor that handles only some kinds of tensors. Bit 2k of the mask: the
// k-th kind (0 any, 1 dense, 2 COO, 3 CSR), bit 2k+1: the same when constant.
class Partial_visitor : public Tensor_visitor {
public:
    explicit Partial_visitor(unsigned mask) : mask_{mask} {}
    void visit(Tensor &t) override { handle(0, t) || (Tensor_visitor::visit(t), true); }
    void visit(const Tensor &t) override { handle(1, t) || (Tensor_visitor::visit(t), true); }
    void visit(Dense_tensor &t) override { handle(2, t) || (Tensor_visitor::visit(t), true); }
    void visit(const Dense_tensor &t) override { handle(3, t) || (Tensor_visitor::visit(t), true); }
    void visit(Coo_tensor &t) override { handle(4, t) || (Tensor_visitor::visit(t), true); }
    void visit(const Coo_tensor &t) override { handle(5, t) || (Tensor_visitor::visit(t), true); }
    void visit(Csr_tensor &t) override { handle(6, t) || (Tensor_visitor::visit(t), true); }
    void visit(const Csr_tensor &t) override { handle(7, t) || (Tensor_visitor::visit(t), true); }
    std::vector<std::pair<int, const Tensor *>> seen;

private:
    bool handle(int bit, const Tensor &t)
    {
        if (!(mask_ >> bit & 1)) return false;
        seen.push_back({bit, &t});
        return true;
    }
    unsigned mask_;
};

void visitors(unsigned mask)
{
    std::vector<Intrusive_ptr<Tensor>> ts;
    ts.push_back(make_intrusive<Dense_tensor>(Size_vector{2}, filled(Data_type::int32, 2)));
    std::vector<std::unique_ptr<Device_array>> co;
    co.push_back(filled(Data_type::size, 0));
    ts.push_back(make_intrusive<Coo_tensor>(Size_vector{2}, filled(Data_type::int32, 0), std::move(co)));
    ts.push_back(make_intrusive<Csr_tensor>(Size_vector{1, 2}, filled(Data_type::int32, 0), filled(Data_type::size, 0), filled(Data_type::size, 2)));
    for (int kind = 1; kind <= 3; ++kind)
        for (int c = 0; c < 2; ++c) {
            std::string what = "mask " + std::to_string(mask) + " kind " + std::to_string(kind) + (c ? " constant" : "");
            int want = mask >> (2 * kind + c) & 1 ? 2 * kind + c : mask >> c & 1 ? c : -1;
            Partial_visitor v{mask};
            Tensor &t = *ts[static_cast<std::size_t>(kind - 1)];
            bool refused = false;
            try {
                if (c) static_cast<const Tensor &>(t).accept(v);
                else t.accept(v);
            }
            catch (const Not_supported_error &) {
                refused = true;
            }
            MC_CHECK(refused == (want < 0), refused ? "visit refused" : "visit not refused", what);
            MC_CHECK(v.seen.size() == (want < 0 ? 0u : 1u), "wrong number of visits", what);
            if (want >= 0) MC_CHECK(v.seen[0].first == want && v.seen[0].second == &t, "wrong visit", what);
            mc::transition();
            mc::state(mc::hash(what));
            mc::outcome(std::to_string(want));
        }
    mc::traces();
    mc::nontrivial();
}

void csr(const Size_vector &shape, std::size_t n, std::size_t nidx, std::size_t nptr, Data_type dt)
{
    std::string what = "shape " + list(shape) + " data " + std::to_string(n) + " indices " + std::to_string(nidx) + " pointers " + std::to_string(nptr);
    std::size_t rows = shape.empty() ? 0 : shape.size() == 1 ? 1 : shape[0];
    bool ok = shape.size() <= 2 && n == nidx && nptr == rows + 1;
    auto a = filled(dt, n), i = filled(Data_type::size, nidx), p = filled(Data_type::size, nptr);
    void *pa = a->data(), *pi = i->data(), *pp = p->data();
    try {
        auto t = make_intrusive<Csr_tensor>(shape, std::move(a), std::move(i), std::move(p));
        MC_CHECK(ok, "inconsistent CSR tensor accepted", what);
        MC_CHECK(t->shape() == shape && t->data_type() == dt, "wrong description", what);
        MC_CHECK(t->data().size() == n && (n == 0 || t->data().data() == pa), "wrong data", what);
        MC_CHECK(t->indices().size() == nidx && (n == 0 || t->indices().data() == pi), "wrong indices", what);
        MC_CHECK(t->indptr().size() == nptr && t->indptr().data() == pp, "wrong index pointers", what);
        check_visit(*t, "csr");
        mc::outcome("csr ok");
    }
    catch (const std::invalid_argument &) {
        MC_CHECK(!ok, "consistent CSR tensor refused", what);
        mc::outcome("csr refused");
    }
    mc::traces();
    mc::transition();
    mc::state(mc::hash("csr" + what));
}

// ------------------------------------------------------------ exports

// Exports of one tensor: all orders of dropping the tensor, the exports.
void exports(const Spec &spec, std::size_t n, Data_type dt, std::size_t count)
{
    live_arrays = 0;
    std::string what = "shape " + list(spec.shape) + " type " + std::to_string(static_cast<int>(dt));
    {
        auto t = make_intrusive<Dense_tensor>(spec.shape, filled(dt, n), spec.strides);
        void *data = t->data().data();
        Ssize_vector strides = t->strides();
        bool refused = false;
        std::vector<::DLManagedTensor *> mt;
        try {
            as_dlpack(*t, DLPACK_VERSION + 1);
        }
        catch (const Not_supported_error &) {
            refused = true;
        }
        MC_CHECK(refused, "an unknown version is exported", what);
        try {
            for (std::size_t k = 0; k < count; ++k) mt.push_back(as_dlpack(*t, DLPACK_VERSION));
            MC_CHECK(dt != Data_type::string, "strings are exported", what);
        }
        catch (const Not_supported_error &) {
            MC_CHECK(dt == Data_type::string, "export refused", what);
        }
        auto check = [&](::DLManagedTensor *m) {
            auto &d = m->dl_tensor;
            MC_CHECK(d.data == data, "wrong data pointer", what);
            MC_CHECK(d.ctx.device_type == ::kDLCPU, "wrong device", what);
            MC_CHECK(d.ndim == static_cast<int>(spec.shape.size()), "wrong rank", what);
            for (int k = 0; k < d.ndim; ++k)
                MC_CHECK(d.shape[k] == static_cast<std::int64_t>(spec.shape[static_cast<std::size_t>(k)]) && d.strides[k] == strides[static_cast<std::size_t>(k)], "wrong shape or strides", what);
            MC_CHECK(d.dtype.lanes == 1, "wrong lanes", what);
            with_type(dt, [&](auto tag) {
                using T = decltype(tag);
                if constexpr (!std::is_same_v<T, std::string>) {
                    bool fl = dt == Data_type::float16 || std::is_floating_point_v<T>;
                    MC_CHECK(d.dtype.bits == sizeof(T) * 8, "wrong bits", what);
                    MC_CHECK(d.byte_offset == first_of(spec.shape, strides) * sizeof(T), "wrong offset", what);
                    MC_CHECK(d.dtype.code == (fl ? ::kDLFloat : std::is_signed_v<T> ? ::kDLInt : ::kDLUInt), "wrong type code", what);
                    Size_vector sh(d.shape, d.shape + d.ndim);
                    Ssize_vector st(d.strides, d.strides + d.ndim);
                    walk(static_cast<const T *>(d.data), sh, st, 0, first_of(sh, st), n);
                }
            });
        };
        std::string log = what + " ";
        bool have = true;
        while (have || !mt.empty()) {
            for (auto *m : mt) check(m);
            MC_CHECK(live_arrays == 1, "data released too early", log);
            std::size_t k = mc::choose(mt.size() + (have ? 1 : 0), 0);
            if (k == mt.size()) {
                t = nullptr;
                have = false;
                log += "tensor ";
            }
            else {
                mt[k]->deleter(mt[k]);
                mt.erase(mt.begin() + static_cast<std::ptrdiff_t>(k));
                log += "export" + std::to_string(k) + " ";
            }
            mc::transition();
            mc::state(mc::hash(log));
        }
        mc::outcome(log);
    }
    MC_CHECK(live_arrays == 0, "data not released", what);
    mc::traces();
}

// Copies of arrays are independent.
void copies(Data_type dt, std::size_t n)
{
    auto a = make_cpu_array(dt, n);
    MC_CHECK(a->size() == n && a->empty() == (n == 0) && a->data_type() == dt && a->device() == Device{Device_kind::cpu()}, "wrong array", "");
    with_type(dt, [&](auto tag) {
        using T = decltype(tag);
        auto s = as_span<T>(*a);
        for (auto &x : s) MC_CHECK(x == T{}, "array not zero", "");
        for (std::size_t i = 0; i < n; ++i) s[static_cast<std::ptrdiff_t>(i)] = value_of<T>(i);
        auto b = a->clone();
        MC_CHECK(b->size() == n && b->data_type() == dt && b->device() == a->device(), "wrong copy", "");
        MC_CHECK(n == 0 || b->data() != a->data(), "copy shares memory", "");
        for (auto &x : s) x = T{};
        auto c = b->clone();
        a = nullptr;
        auto r = as_span<const T>(static_cast<const Device_array &>(*b));
        for (std::size_t i = 0; i < n; ++i) MC_CHECK(r[static_cast<std::ptrdiff_t>(i)] == value_of<T>(i), "copy differs", std::to_string(i));
        b = nullptr;
        auto r2 = as_span<const T>(static_cast<const Device_array &>(*c));
        for (std::size_t i = 0; i < n; ++i) MC_CHECK(r2[static_cast<std::ptrdiff_t>(i)] == value_of<T>(i), "copy differs", std::to_string(i));
        // Wrapping a container.
        std::vector<T> v;
        for (std::size_t i = 0; i < n; ++i) v.push_back(value_of<T>(i + 5));
        auto w = detail::Cpu_array_access::wrap(dt, std::move(v));
        auto r3 = as_span<const T>(static_cast<const Device_array &>(*w));
        MC_CHECK(static_cast<std::size_t>(r3.size()) == n, "wrong size", "");
        for (std::size_t i = 0; i < n; ++i) MC_CHECK(r3[static_cast<std::ptrdiff_t>(i)] == value_of<T>(i + 5), "wrapped container differs", std::to_string(i));
    });
    mc::traces();
    mc::transition(4);
    mc::state(mc::hash(std::to_string(static_cast<int>(dt)) + "," + std::to_string(n)));
    mc::outcome("copy");
}

// -------------------------------------------------- schemas and examples

const std::vector<std::string> names{"a", "b", "", "A", "a "};

// A schema of many attributes, and an example of it.
void wide_schema(std::size_t n)
{
    std::vector<Attribute> attrs;
    std::vector<Intrusive_ptr<Tensor>> f;
    for (std::size_t k = 0; k < n; ++k) {
        std::string name = (k % 3 ? "a" : "") + std::to_string(k * 7 % n);
        attrs.emplace_back(name, all_types[k % all_types.size()], Size_vector{1, k + 1});
        f.push_back(make_intrusive<Dense_tensor>(Size_vector{1}, wrap_cpu_array<Data_type::size>(std::vector<std::size_t>{k})));
    }
    auto schema = make_intrusive<Schema>(attrs);
    Schema same{attrs};
    MC_CHECK(same == *schema && std::hash<Schema>{}(same) == std::hash<Schema>{}(*schema), "equal schemas differ", std::to_string(n));
    Example e{schema, std::vector<Intrusive_ptr<Tensor>>{f}};
    for (std::size_t k = 0; k < n; ++k) {
        auto idx = schema->get_index(attrs[k].name());
        MC_CHECK(idx && *idx == k, "wrong index", attrs[k].name());
        MC_CHECK(e.find_feature(attrs[k].name()) == f[k], "wrong feature", attrs[k].name());
        MC_CHECK(schema->attributes()[k] == attrs[k], "wrong attribute", attrs[k].name());
        mc::transition();
    }
    for (std::size_t k : {std::size_t{0}, n / 2, n - 1}) {
        auto other = attrs;
        other[k] = Attribute{attrs[k].name(), attrs[k].data_type(), Size_vector{1, k + 2}};
        MC_CHECK(Schema{other} != *schema, "different schemas are equal", std::to_string(k));
        other[k] = attrs[k ? 0 : 1];
        bool refused = false;
        try {
            Schema x{other};
        }
        catch (const std::invalid_argument &) {
            refused = true;
        }
        MC_CHECK(refused, "duplicate names accepted", std::to_string(k));
    }
    mc::traces();
    mc::state(n);
    mc::outcome(std::to_string(n));
    mc::nontrivial();
}

void schemas(const std::vector<std::size_t> &pick, std::size_t nfeatures)
{
    std::vector<Attribute> attrs;
    std::set<std::string> distinct;
    std::string what;
    for (std::size_t k = 0; k < pick.size(); ++k) {
        attrs.emplace_back(names[pick[k]], all_types[k % all_types.size()], Size_vector{2, k + 1}, Ssize_vector{}, k % 2 == 1);
        distinct.insert(names[pick[k]]);
        what += mc::quote(names[pick[k]]) + " ";
    }
    bool ok = distinct.size() == pick.size();
    Intrusive_ptr<Schema> schema;
    try {
        schema = make_intrusive<Schema>(attrs);
        MC_CHECK(ok, "duplicate names accepted", what);
    }
    catch (const std::invalid_argument &) {
        MC_CHECK(!ok, "valid schema refused", what);
        mc::outcome("schema refused");
        return;
    }
    MC_CHECK(schema->attributes().size() == pick.size(), "wrong attributes", what);
    for (std::size_t k = 0; k < pick.size(); ++k) {
        auto &a = schema->attributes()[k];
        MC_CHECK(a == attrs[k] && a.name() == names[pick[k]] && a.data_type() == all_types[k % all_types.size()] && a.sparse() == (k % 2 == 1) &&
                     a.shape() == (Size_vector{2, k + 1}) && a.strides() == (Ssize_vector{static_cast<std::ptrdiff_t>(k + 1), 1}),
                 "wrong attribute", what);
    }
    for (std::size_t j = 0; j < names.size(); ++j) {
        auto idx = schema->get_index(names[j]);
        auto pos = std::find(pick.begin(), pick.end(), j);
        if (pos == pick.end()) MC_CHECK(!idx, "unknown name found", what + names[j]);
        else MC_CHECK(idx && *idx == static_cast<std::size_t>(pos - pick.begin()), "wrong index", what + names[j]);
    }
    MC_CHECK(!schema->get_index("nothing"), "unknown name found", what);
    // Equality.
    Schema same{attrs};
    MC_CHECK(same == *schema && std::hash<Schema>{}(same) == std::hash<Schema>{}(*schema), "equal schemas differ", what);
    for (std::size_t k = 0; k < attrs.size(); ++k)
        for (int change = 0; change < 5; ++change) {
            auto other = attrs;
            auto &a = attrs[k];
            other[k] = Attribute{change == 0 ? a.name() + "x" : a.name(), change == 1 ? Data_type::string : a.data_type(), change == 2 ? Size_vector{3, k + 1} : a.shape(),
                                 change == 3 ? Ssize_vector{static_cast<std::ptrdiff_t>(k + 2), 1} : a.strides(), change == 4 ? !a.sparse() : a.sparse()};
            MC_CHECK(!(Schema{other} == *schema) && Schema{other} != *schema, "different schemas are equal", what + std::to_string(change));
        }
    if (!attrs.empty()) {
        auto other = attrs;
        other.pop_back();
        MC_CHECK(!(Schema{other} == *schema) && !(*schema == Schema{other}), "different schemas are equal", what);
    }
    // Examples.
    std::vector<Intrusive_ptr<Tensor>> f;
    for (std::size_t k = 0; k < nfeatures; ++k) f.push_back(make_intrusive<Dense_tensor>(Size_vector{k + 1}, filled(Data_type::int32, k + 1)));
    auto keep = f;
    try {
        auto e = make_intrusive<Example>(schema, std::move(f));
        MC_CHECK(nfeatures == pick.size(), "wrong number of features accepted", what);
        MC_CHECK(&e->schema() == schema.get() && e->features() == keep && e->padding == 0, "wrong example", what);
        schema = nullptr;
        for (std::size_t j = 0; j < names.size(); ++j) {
            auto pos = std::find(pick.begin(), pick.end(), j);
            auto t = e->find_feature(names[j]);
            if (pos == pick.end()) MC_CHECK(t == nullptr, "unknown feature found", what + names[j]);
            else MC_CHECK(t == keep[static_cast<std::size_t>(pos - pick.begin())], "wrong feature", what + names[j]);
        }
        // A feature outlives its example.
        if (!keep.empty()) {
            auto t = e->features().back();
            keep.clear();
            e = nullptr;
            MC_CHECK(t->use_count() == 1 && cells(*t).size() == nfeatures && cells(*t)[0] == "1", "feature lost", what);
        }
        mc::outcome("example ok");
    }
    catch (const std::invalid_argument &) {
        MC_CHECK(nfeatures != pick.size(), "valid example refused", what);
        mc::outcome("example refused");
    }
    mc::traces();
    mc::transition();
    mc::state(mc::hash(what + std::to_string(nfeatures)));
}

// ----------------------------------------------------------------- cases

std::vector<Spec> make_specs(bool th)
{
    std::vector<Spec> r;
    std::vector<Size_vector> shapes{{}};
    for (std::size_t a : {0, 1, 2, 3}) {
        shapes.push_back({a});
        for (std::size_t b : {0, 1, 2, 3}) {
            shapes.push_back({a, b});
            for (std::size_t c : {0, 1, 2, 3}) {
                shapes.push_back({a, b, c});
                if (th)
                    for (std::size_t d : {0, 1, 2}) shapes.push_back({a, b, c, d});
            }
        }
    }
    const std::size_t big[] = {std::size_t{1} << 31, std::size_t{1} << 32, (std::size_t{1} << 32) + 1, std::size_t{1} << 62, std::size_t{1} << 63, (std::size_t{1} << 63) + 1, ~std::size_t{0} - 1, ~std::size_t{0}, 0x5555555555555556};
    for (auto x : big) {
        shapes.push_back({x});
        for (std::size_t y : {0, 1, 2, 3, 4}) {
            shapes.push_back({x, y});
            shapes.push_back({y, x});
            for (std::size_t z : {0, 1, 2, 4}) shapes.push_back({y, x, z});
        }
        for (auto y : big) shapes.push_back({x, y});
    }
    for (auto &s : shapes) r.push_back({s, true, {}});
    const std::ptrdiff_t small[] = {-2, -1, 0, 1, 2, 3, 6};
    for (auto &s : shapes) {
        if (s.size() > 3) continue;
        bool is_big = false;
        for (auto d : s) is_big |= d > 100;
        std::vector<std::ptrdiff_t> values(std::begin(small), std::end(small));
        if (is_big) values = {0, 1, 2, std::ptrdiff_t{1} << 32, std::ptrdiff_t{1} << 62, std::numeric_limits<std::ptrdiff_t>::max(), -1, std::numeric_limits<std::ptrdiff_t>::min() + 1};
        if (s.size() == 3 && is_big) continue;
        std::size_t total = 1;
        for (std::size_t k = 0; k < s.size(); ++k) total *= values.size();
        for (std::size_t i = 0; i < total; ++i) {
            Ssize_vector st;
            for (std::size_t k = 0, x = i; k < s.size(); ++k, x /= values.size()) st.push_back(values[x % values.size()]);
            if (s.empty()) continue;
            r.push_back({s, false, st});
        }
        // The wrong number of strides.
        Ssize_vector st(s.size() + 1, 1);
        r.push_back({s, false, st});
        if (s.size() > 1) r.push_back({s, false, Ssize_vector(s.size() - 1, 1)});
    }
    return r;
}

}  // namespace

std::vector<mc::Suite> mc::make_suites(Tier tier)
{
    bool th = tier == Tier::thorough;
    on_start([] { mlio::initialize(); });
    std::vector<Suite> out;
    auto add = [&](std::string name, std::string what, std::size_t n, std::size_t block, std::function<void(std::size_t)> run,
                   std::function<std::string(std::size_t)> describe) {
        Suite s;
        s.name = name;
        s.what = what;
        s.ncases = n;
        s.block = block;
        s.run = run;
        s.describe = describe;
        out.push_back(s);
    };
    auto specs = std::make_shared<std::vector<Spec>>(make_specs(th));
    auto spec_name = [specs](std::size_t i) {
        auto &s = (*specs)[i];
        return list(s.shape) + (s.default_strides ? "" : " strides " + list(s.strides));
    };
    add("C19/dense", "all small and huge shapes and strides x data sizes", specs->size(), 64,
        [=](std::size_t i) {
            auto &s = (*specs)[i];
            std::size_t most = s.default_strides ? 28 : 20;
            for (std::size_t n = 0; n <= most; ++n) dense(s, n, Data_type::int32);
            for (auto dt : all_types)
                for (std::size_t n : {0, 1, 6, 12}) if (s.default_strides || th) dense(s, n, dt);
        },
        spec_name);
    add("C19/coo", "ranks x numbers and sizes of coordinates", 4 * 5 * 4, 4,
        [=](std::size_t i) {
            std::size_t rank = i % 4, nc = i / 4 % 5, n = i / 20;
            std::size_t total = 1;
            for (std::size_t k = 0; k < nc; ++k) total *= 4;
            for (std::size_t j = 0; j < total; ++j) {
                std::vector<std::size_t> sizes;
                for (std::size_t k = 0, x = j; k < nc; ++k, x /= 4) sizes.push_back(x % 4);
                sparse(rank, nc, n, sizes, all_types[j % all_types.size()]);
            }
        },
        [](std::size_t i) { return "rank " + std::to_string(i % 4) + ", " + std::to_string(i / 4 % 5) + " coordinates, " + std::to_string(i / 20) + " values"; });
    add("C19/csr", "shapes x sizes of the three arrays", 1 + 4 + 16 + 4, 1,
        [=](std::size_t i) {
            Size_vector shape;
            if (i >= 1 && i < 5) shape = {i - 1};
            else if (i >= 5 && i < 21) shape = {(i - 5) / 4, (i - 5) % 4};
            else if (i >= 21) shape = {i - 21, 1, 1};
            for (std::size_t n = 0; n < 4; ++n)
                for (std::size_t k = 0; k < 4; ++k)
                    for (std::size_t p = 0; p < 6; ++p) csr(shape, n, k, p, all_types[(n + k + p) % all_types.size()]);
        },
        [](std::size_t i) { return std::to_string(i); });
    std::vector<Spec> ex{{{}, true, {}}, {{0}, true, {}}, {{3}, true, {}}, {{2, 3}, true, {}}, {{2, 3}, false, {1, 2}}, {{2, 2, 2}, true, {}}, {{2, 2}, false, {0, 1}}, {{3}, false, {2}}, {{3}, false, {-2}}, {{2, 3}, false, {3, -1}}, {{2, 3}, false, {-3, -1}}, {{0, 2}, false, {-1, -3}}, {{0, 2}, true, {}}};
    add("C19/dlpack", "all orders of dropping a tensor and its exports", ex.size() * all_types.size() * 3, 4,
        [=](std::size_t i) { exports(ex[i % ex.size()], 12, all_types[i / ex.size() % all_types.size()], i / ex.size() / all_types.size() + 1); },
        [=](std::size_t i) { return "shape " + list(ex[i % ex.size()].shape) + " type " + std::to_string(i / ex.size() % all_types.size()); });
    add("C19/copies", "copies of arrays", all_types.size() * 6, 4, [](std::size_t i) { copies(all_types[i % all_types.size()], i / all_types.size()); },
        [](std::size_t i) { return "type " + std::to_string(i % all_types.size()) + " size " + std::to_string(i / all_types.size()); });
    add("C19/visitor", "all sets of kinds that a visitor handles x kinds of tensors", 256, 4, [](std::size_t i) { visitors(static_cast<unsigned>(i)); },
        [](std::size_t i) { return "mask " + std::to_string(i); });
    Words w{names, th ? std::size_t{4} : std::size_t{3}};
    static const std::vector<std::size_t> widths{127, 129, 255, 256, 257, 300, 65537};
    add("C19/wide", "schemas of many attributes", widths.size(), 1, [](std::size_t i) { wide_schema(widths[i]); }, [](std::size_t i) { return std::to_string(widths[i]); });
    add("C19/schema", "all lists of names x numbers of features", w.count() * 5, 16, [=](std::size_t i) { schemas(w.symbols(i / 5), i % 5); },
        [=](std::size_t i) {
            std::string s = std::to_string(i % 5) + " features, names";
            for (auto k : w.symbols(i / 5)) s += " " + quote(names[k]);
            return s;
        });
    return out;
}
