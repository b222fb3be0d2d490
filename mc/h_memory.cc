// C17: memory blocks, slices and reference counts.
#include "shim.h"

#include "support.h"

#include <mlio/memory/external_memory_block.h>
#include <mlio/memory/file_backed_memory_allocator.h>
#include <mlio/memory/file_backed_memory_block.h>
#include <mlio/memory/file_mapped_memory_block.h>
#include <mlio/memory/heap_memory_allocator.h>
#include <mlio/memory/heap_memory_block.h>
#include <mlio/memory/memory_allocator.h>
#include <mlio/memory/util.h>

#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

using namespace mlio;
using namespace sup;

namespace mc {
const char *const harness_name = "memory";
}

namespace {

// A block that cannot be resized.
class Fixed_block : public Mutable_memory_block {
public:
    explicit Fixed_block(size_type n) : d_(n) { d_.shrink_to_fit(); }
    void resize(size_type) override { mc::fail("a block that is not resizable is resized", ""); }
    pointer data() noexcept override { return d_.data(); }
    const_pointer data() const noexcept override { return d_.data(); }
    size_type size() const noexcept override { return d_.size(); }
    bool resizable() const noexcept override { return false; }

private:
    std::vector<std::byte> d_;
};

enum Kind { heap_block, heap_allocator, file_block, hybrid_8, hybrid_4096, hybrid_0, fixed, n_kinds };
const char *const kind_names[] = {"heap block", "heap allocator", "file-backed block", "allocator with threshold 8", "allocator with threshold 4096", "allocator with default threshold", "fixed block"};

Intrusive_ptr<Mutable_memory_block> make_block(int kind, std::size_t n)
{
    switch (kind) {
    case heap_block: return make_intrusive<Heap_memory_block>(n);
    case heap_allocator: return Heap_memory_allocator{}.allocate(n);
    case file_block: return make_intrusive<File_backed_memory_block>(n);
    case hybrid_8: return File_backed_memory_allocator{8}.allocate(n);
    case hybrid_4096: return File_backed_memory_allocator{4096}.allocate(n);
    case hybrid_0: return File_backed_memory_allocator{}.allocate(n);
    default: return make_intrusive<Fixed_block>(n);
    }
}

const std::vector<std::size_t> sizes{0, 1, 7, 8, 9, 100, 4096, 4097, 10000};

int open_files()
{
    int n = 0;
    DIR *d = ::opendir("/proc/self/fd");
    while (::readdir(d)) ++n;
    ::closedir(d);
    return n;
}

// All sequences of sizes: every resize keeps the common prefix.
void resizes(int kind, const std::vector<std::size_t> &seq, bool via_util)
{
    int files = open_files();
    {
        std::size_t n = seq[0];
        auto b = make_block(kind, n);
        std::string model(n, 0);
        unsigned seed = 1;
        auto fill = [&] {
            for (std::size_t i = 0; i < model.size(); ++i) {
                seed = seed * 1103515245u + 12345u;
                model[i] = static_cast<char>(seed >> 16);
                b->data()[i] = static_cast<std::byte>(model[i]);
            }
        };
        auto check = [&](const std::string &when) {
            MC_CHECK(b->size() == model.size(), "wrong size", when + std::to_string(b->size()));
            MC_CHECK(b->end() - b->begin() == static_cast<std::ptrdiff_t>(model.size()), "wrong range", when);
            MC_CHECK(model.empty() || b->data() != nullptr, "no data", when);
            for (std::size_t i = 0; i < model.size(); ++i)
                MC_CHECK(static_cast<char>(b->data()[i]) == model[i], "byte changed", when + "byte " + std::to_string(i) + " of " + std::to_string(model.size()));
        };
        std::string log = std::to_string(n) + " ";
        MC_CHECK(b->size() == n, "wrong size", log);
        fill();
        check(log);
        for (std::size_t k = 1; k < seq.size(); ++k) {
            log += std::to_string(seq[k]) + " ";
            std::size_t keep = std::min(model.size(), seq[k]);
            if (via_util) {
                Intrusive_ptr<Mutable_memory_block> old = b;
                auto r = resize_memory_block(old, seq[k]);
                b = r;
            }
            else b->resize(seq[k]);
            mc::transition();
            // The new bytes may be anything, but can be written.
            MC_CHECK(b->size() == seq[k], "wrong size", log + std::to_string(b->size()));
            model.resize(seq[k]);
            for (std::size_t i = keep; i < model.size(); ++i) model[i] = static_cast<char>(b->data()[i]);
            check(log);
            fill();
            check(log);
        }
        mc::state(mc::hash(log));
        mc::outcome(log);
    }
    MC_CHECK(open_files() == files, "descriptor leaked", std::to_string(open_files() - files));
    mc::traces();
    mc::nontrivial();
}

// ----------------------------------------------------------------- slices

int live_blocks;

class Counted_block : public Memory_block {
public:
    explicit Counted_block(std::string_view s) : d_{new std::byte[s.size() + 1]}, n_{s.size()}
    {
        // One byte less than allocated would hide nothing from the
        // address sanitizer: the data end with the allocation.
        delete[] d_;
        d_ = new std::byte[s.size() == 0 ? 1 : s.size()];
        std::copy_n(reinterpret_cast<const std::byte *>(s.data()), s.size(), d_);
        ++live_blocks;
    }
    ~Counted_block() override
    {
        --live_blocks;
        delete[] d_;
    }
    const_pointer data() const noexcept override { return d_; }
    size_type size() const noexcept override { return n_; }

private:
    std::byte *d_;
    size_type n_;
};

const std::size_t huge = ~std::size_t{0};

struct Held {
    Memory_slice s;
    std::size_t off, len;
};

std::string bytes_of(const Memory_slice &s)
{
    return {reinterpret_cast<const char *>(s.data()), s.size()};
}

void slices(std::size_t n, std::size_t i, std::size_t depth)
{
    static const char text[] = "abcdef";
    std::string data{text, n};
    live_blocks = 0;
    const std::byte *base;
    {
        std::vector<Held> held;
        {
            auto b = make_intrusive<Counted_block>(data);
            base = b->data();
            held.push_back({Memory_slice{b}, 0, n});
        }
        std::string log;
        std::vector<std::size_t> args;
        for (std::size_t k = 0; k <= n + 1; ++k) args.push_back(k);
        for (std::size_t k : {huge, huge - 1, huge / 2, huge / 2 + 1, huge / 2 + 2}) args.push_back(k);
        for (std::size_t d = 0; d < depth; ++d) {
            std::size_t from = mc::choose(held.size(), 0);
            std::size_t form = mc::choose(5, 0);
            bool rvalue = mc::choose(2, 0);
            Held h = held[from];  // a copy
            std::size_t a = args[mc::choose(args.size(), 0)], c = 0;
            std::size_t want_off = 0, want_len = 0;
            bool ok = false;
            log += "slice" + std::to_string(from) + (rvalue ? "&&" : "");
            auto lim = static_cast<std::ptrdiff_t>(std::min(a, n + 1));
            Memory_slice r;
            auto run = [&](auto f) {
                try {
                    if (rvalue) {
                        Memory_slice t = h.s;
                        r = f(std::move(t));
                    }
                    else r = f(h.s);
                    MC_CHECK(ok, "a slice reaches outside", log + ": " + std::to_string(r.size()) + " bytes");
                }
                catch (const std::invalid_argument &) {
                    MC_CHECK(!ok, "a valid range is refused", log);
                    return false;
                }
                return true;
            };
            bool made = false;
            switch (form) {
            case 0:
                log += ".subslice(" + std::to_string(a) + ") ";
                ok = a <= h.len;
                want_off = h.off + a;
                want_len = h.len - a;
                made = run([&](auto &&s) { return Memory_slice{std::forward<decltype(s)>(s).subslice(a)}; });
                break;
            case 1:
                c = args[mc::choose(args.size(), 0)];
                log += ".subslice(" + std::to_string(a) + "," + std::to_string(c) + ") ";
                ok = a <= h.len && c <= h.len - a;
                want_off = h.off + a;
                want_len = c;
                made = run([&](auto &&s) { return Memory_slice{std::forward<decltype(s)>(s).subslice(a, c)}; });
                break;
            case 2:
                log += ".first(" + std::to_string(a) + ") ";
                ok = a <= h.len;
                want_off = h.off;
                want_len = a;
                made = run([&](auto &&s) { return Memory_slice{std::forward<decltype(s)>(s).first(a)}; });
                break;
            case 3:
                log += ".last(" + std::to_string(a) + ") ";
                ok = a <= h.len;
                want_off = h.off + h.len - a;
                want_len = a;
                made = run([&](auto &&s) { return Memory_slice{std::forward<decltype(s)>(s).last(a)}; });
                break;
            case 4: {
                // Iterators of the block, which may lie outside the slice.
                std::size_t a2 = static_cast<std::size_t>(lim);
                if (a2 > n) return;
                c = mc::choose(n + 1, 0);
                log += ".subslice(it" + std::to_string(a2) + ",it" + std::to_string(c) + ") ";
                ok = a2 <= c && a2 >= h.off && c <= h.off + h.len;
                want_off = a2;
                want_len = c - a2;
                made = run([&](auto &&s) { return Memory_slice{std::forward<decltype(s)>(s).subslice(base + a2, base + c)}; });
                break;
            }
            }
            mc::transition();
            MC_CHECK(bytes_of(h.s) == data.substr(h.off, h.len), "slice changed by slicing", log);
            if (!made) continue;
            MC_CHECK(r.size() == want_len && r.empty() == (want_len == 0), "wrong size of a slice", log + std::to_string(r.size()));
            MC_CHECK(r.data() == base + want_off && r.begin() == base + want_off && r.end() == base + want_off + want_len, "wrong place of a slice", log);
            held.push_back({r, want_off, want_len});
            h = {};
            r = {};
            // Slices are dropped in any order; the others keep the bytes.
            std::size_t drop = mc::choose(held.size() + 1, 0);
            if (drop < held.size() && held.size() > 1) {
                held.erase(held.begin() + static_cast<std::ptrdiff_t>(drop));
                log += "drop" + std::to_string(drop) + " ";
            }
            MC_CHECK(live_blocks == 1, "block released too early", log);
            for (auto &x : held) MC_CHECK(bytes_of(x.s) == data.substr(x.off, x.len), "wrong bytes of a slice", log);
        }
        mc::state(mc::hash(log));
        mc::outcome_hash(mc::hash(log));
        mc::traces();
    }
    MC_CHECK(live_blocks == 0, "block not released", std::to_string(live_blocks));
    (void)i;
}

// -------------------------------------------------------- reference counts

struct Base;
int live, destroyed[64], created;

struct Base : Intrusive_ref_counter<Base> {
    explicit Base(int i) : id{i} { ++live; }
    virtual ~Base()
    {
        --live;
        destroyed[id]++;
        value = -1;
    }
    int id;
    int value = 7;
    Intrusive_ptr<Base> next;
};
struct Derived : Base {
    using Base::Base;
};

// The model: which object each pointer refers to.
struct Model {
    std::vector<int> slot;             // -1: none
    std::map<int, int> next;           // of the live objects
    int refs(int o) const
    {
        int n = 0;
        for (int s : slot) n += s == o;
        for (auto &p : next) n += p.second == o;
        return n;
    }
    // Removes the objects that nothing refers to.
    void collect()
    {
        for (bool again = true; again;) {
            again = false;
            for (auto it = next.begin(); it != next.end();) {
                if (refs(it->first) == 0) {
                    it = next.erase(it);
                    again = true;
                }
                else ++it;
            }
        }
    }
};

void pointers(std::size_t nslots, std::size_t depth)
{
    live = created = 0;
    std::fill(std::begin(destroyed), std::end(destroyed), 0);
    {
        std::vector<Intrusive_ptr<Base>> p(nslots);
        Model m;
        m.slot.assign(nslots, -1);
        std::string log;
        for (std::size_t d = 0; d < depth; ++d) {
            std::size_t op = mc::choose(12, 0), i = mc::choose(nslots, 0), j = 0;
            if (op >= 1 && op <= 6) j = mc::choose(nslots, 0);
            int oi = m.slot[i], oj = m.slot[j];
            static const char *const names[] = {"new", "copy", "move", "link", "follow", "takenext", "swap", "null", "release", "derived", "temporary", "unlink"};
            log += std::string{names[op]} + std::to_string(i) + (op >= 1 && op <= 6 ? "," + std::to_string(j) : "") + " ";
            switch (op) {
            case 0:
                p[i] = make_intrusive<Base>(created);
                m.next[created] = -1;
                m.slot[i] = created++;
                break;
            case 1:
                p[i] = p[j];
                m.slot[i] = oj;
                break;
            case 2:
                p[i] = std::move(p[j]);
                m.slot[i] = oj;
                if (i != j) {
                    m.slot[j] = -1;
                    MC_CHECK(p[j] == nullptr, "a moved pointer is not null", log);
                }
                else {
                    // Moving to itself: either keeps or drops it.
                    if (p[i] == nullptr) m.slot[i] = -1;
                }
                break;
            case 3:
                if (oi < 0 || i == j) return;
                // No cycles.
                for (int x = oj; x >= 0; x = m.next[x]) if (x == oi) return;
                p[i]->next = p[j];
                m.next[oi] = oj;
                break;
            case 4:  // p = q->next
                if (oj < 0) return;
                p[i] = p[j]->next;
                m.slot[i] = m.next[oj];
                break;
            case 5:  // p = move(q->next)
                if (oj < 0) return;
                p[i] = std::move(p[j]->next);
                m.slot[i] = m.next[oj];
                if (m.next.count(oj)) m.next[oj] = -1;
                break;
            case 6:
                std::swap(p[i], p[j]);
                std::swap(m.slot[i], m.slot[j]);
                if (i == j && p[i] == nullptr) m.slot[i] = -1;
                break;
            case 7:
                p[i] = nullptr;
                m.slot[i] = -1;
                break;
            case 8: {  // release and take back
                Base *raw = p[i].release();
                MC_CHECK(p[i] == nullptr, "released pointer is not null", log);
                p[i] = Intrusive_ptr<Base>{raw, false};
                break;
            }
            case 9: {  // a pointer to a derived object
                auto q = make_intrusive<Derived>(created);
                m.next[created] = -1;
                Intrusive_ptr<Base> r{q};
                p[i] = q;
                Intrusive_ptr<const Base> cr = std::move(q);
                MC_CHECK(q == nullptr && cr->use_count() == 3, "wrong count", log);
                m.slot[i] = created++;
                break;
            }
            case 10: {  // copies that go at once
                Intrusive_ptr<Base> a{p[i]}, b{a}, c;
                c = b;
                Intrusive_ptr<Base> e{std::move(a)};
                break;
            }
            case 11:
                if (oi < 0) return;
                p[i]->next = nullptr;
                m.next[oi] = -1;
                break;
            }
            m.collect();
            mc::transition();
            MC_CHECK(live == static_cast<int>(m.next.size()), "wrong number of live objects", log + std::to_string(live) + " instead of " + std::to_string(m.next.size()));
            for (std::size_t k = 0; k < nslots; ++k) {
                MC_CHECK((p[k] ? p[k]->id : -1) == m.slot[k], "wrong object", log);
                if (!p[k]) continue;
                MC_CHECK(p[k]->value == 7, "object is gone", log);
                MC_CHECK(static_cast<int>(p[k]->use_count()) == m.refs(m.slot[k]), "wrong count",
                         log + std::to_string(p[k]->use_count()) + " instead of " + std::to_string(m.refs(m.slot[k])));
            }
            for (int o = 0; o < created; ++o) MC_CHECK(destroyed[o] == (m.next.count(o) ? 0 : 1), "not destroyed exactly once", log);
            std::string st;
            for (auto s : m.slot) st += std::to_string(s) + ",";
            for (auto &x : m.next) st += std::to_string(x.first) + ">" + std::to_string(x.second) + ";";
            mc::state(mc::hash(st));
        }
        mc::outcome_hash(mc::hash(log));
        mc::traces();
    }
    MC_CHECK(live == 0, "objects left", std::to_string(live));
}

// Threads that take and drop references to one block.
void threads(std::size_t n, int mode)
{
    live_blocks = 0;
    mc::race::exempt(&live_blocks, sizeof live_blocks);
    std::string data = "abcdef";
    mc::sched().branch = true;
    mc::sched().atomics = true;
    mc::sched().atomic_rmw = true;
    std::string log;
    auto first = std::make_unique<Memory_slice>(make_intrusive<Counted_block>(data));
    std::vector<std::unique_ptr<Memory_slice>> own;
    for (std::size_t t = 0; t < n; ++t) own.push_back(std::make_unique<Memory_slice>(*first));
    std::vector<std::size_t> ids;
    for (std::size_t t = 0; t < n; ++t) {
        ids.push_back(mc::spawn(
            [&, t] {
                Memory_slice s = std::move(*own[t]);
                own[t] = nullptr;
                if (mode >= 1) {
                    Memory_slice c = s.subslice(t % 3, 2);
                    s = {};
                    mc::point(&own[t]);
                    MC_CHECK(bytes_of(c) == data.substr(t % 3, 2), "wrong bytes of a slice", log);
                    if (mode == 2) {
                        Memory_slice c2 = c;
                        c = {};
                        MC_CHECK(bytes_of(c2) == data.substr(t % 3, 2), "wrong bytes of a slice", log);
                    }
                }
                else {
                    MC_CHECK(bytes_of(s) == data, "wrong bytes of a slice", log);
                    s = {};
                }
                mc::race::Ignore ignore;
                log += static_cast<char>('0' + t);
            },
            "thread"));
    }
    first = nullptr;
    for (auto i : ids) mc::impl::thread_join(i);
    MC_CHECK(live_blocks == 0, "block not released exactly once", std::to_string(live_blocks));
    mc::outcome(log);
    mc::traces();
    mc::nontrivial();
}

// Files that are mapped.
void mapped(std::size_t n)
{
    int files = open_files();
    std::string data;
    for (std::size_t i = 0; i < n; ++i) data += static_cast<char>(i * 7 + i / 256);
    std::string p = mc::scratch_dir() + "/mapped";
    int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (::write(fd, data.data(), data.size()) != static_cast<ssize_t>(data.size())) std::abort();
    ::close(fd);
    std::vector<Memory_slice> s;
    {
        auto b = make_intrusive<File_mapped_memory_block>(p);
        MC_CHECK(b->size() == n, "wrong size", std::to_string(b->size()));
        MC_CHECK(open_files() == files, "descriptor left open", "");
        s.emplace_back(b);
        ::unlink(p.c_str());
        if (n > 2) s.push_back(s[0].subslice(1, n - 2));
    }
    MC_CHECK(bytes_of(s[0]) == data, "wrong contents", "");
    std::size_t drop = mc::choose(2, 0);
    if (n > 2) {
        s.erase(s.begin() + static_cast<std::ptrdiff_t>(drop));
        MC_CHECK(bytes_of(s[0]) == (drop ? data : data.substr(1, n - 2)), "wrong contents", "");
    }
    bool missing = false;
    try {
        make_intrusive<File_mapped_memory_block>(p);
    }
    catch (const std::system_error &) {
        missing = true;
    }
    MC_CHECK(missing, "a missing file is mapped", "");
    mc::traces();
    mc::outcome(std::to_string(n));
}

// Many references to one object, dropped in another order.
void many(std::size_t n)
{
    live = 0;
    destroyed[1] = 0;
    {
        Intrusive_ptr<Base> p = make_intrusive<Derived>(1);
        std::vector<Intrusive_ptr<Base>> v(n, p);
        std::vector<Intrusive_ptr<const Base>> w(v.begin(), v.end());
        p = nullptr;
        v.resize(n / 2);
        MC_CHECK(live == 1 && w[0]->value == 7, "destroyed while it is referenced", std::to_string(n));
        w.clear();
        MC_CHECK(live == 1 && v[0]->value == 7, "destroyed while it is referenced", std::to_string(n));
        for (std::size_t k = 1; k < v.size(); k += 2) v[k] = nullptr;
        MC_CHECK(live == 1 && v[0]->value == 7, "destroyed while it is referenced", std::to_string(n));
        v.clear();
        MC_CHECK(live == 0, "not destroyed", std::to_string(n));
    }
    MC_CHECK(destroyed[1] == 1, "destroyed again", std::to_string(n));
    // Slices.
    std::string data(n, 'x');
    for (std::size_t k = 0; k < n; ++k) data[k] = static_cast<char>('a' + k % 26);
    std::vector<Memory_slice> s;
    {
        auto b = make_intrusive<Heap_memory_block>(n);
        std::memcpy(b->data(), data.data(), n);
        Memory_slice all{b};
        for (std::size_t k = 0; k < n; ++k) s.push_back(k % 2 ? s.back().subslice(1) : all.subslice(k));
    }
    for (std::size_t k = n; k-- > 0;) {
        MC_CHECK(bytes_of(s[k]) == data.substr(k), "wrong bytes", std::to_string(k));
        if (k % 16) s.pop_back();
        else s.resize(k);
        mc::transition();
        if (n > 1000 && k % 1024) {
            std::size_t skip = std::min(k, k % 1024 + 300);
            s.resize(k -= skip);
        }
    }
    mc::traces();
    mc::state(n);
    mc::outcome(std::to_string(n));
    mc::nontrivial();
}

}  // namespace

std::vector<mc::Suite> mc::make_suites(Tier tier)
{
    bool th = tier == Tier::thorough;
    on_start([] { mlio::initialize(); });
    std::vector<Suite> out;
    auto add = [&](std::string name, std::string what, std::size_t n, std::size_t block, std::function<void(std::size_t)> run,
                   std::function<std::string(std::size_t)> describe) {
        Suite s;
        s.name = name;
        s.what = what;
        s.ncases = n;
        s.block = block;
        s.run = run;
        s.describe = describe;
        out.push_back(s);
    };
    std::size_t len = th ? 5 : 4, per = 1;
    for (std::size_t k = 0; k < len; ++k) per *= sizes.size();
    auto seq = [len](std::size_t i) {
        std::vector<std::size_t> v;
        for (std::size_t k = 0; k < len; ++k, i /= sizes.size()) v.push_back(sizes[i % sizes.size()]);
        return v;
    };
    add("C17/resize", "all sequences of sizes x kinds of blocks", per * n_kinds * 2, 256,
        [=](std::size_t i) {
            int kind = static_cast<int>(i / per / 2);
            bool util = i / per % 2;
            if (kind == fixed && !util) return;
            resizes(kind, seq(i % per), util);
        },
        [=](std::size_t i) {
            std::string s = kind_names[i / per / 2];
            for (auto x : seq(i % per)) s += " " + std::to_string(x);
            return s + (i / per % 2 ? " by resize_memory_block" : "");
        });
    add("C17/slices", "all ways of slicing and dropping slices", 5, 1, [th](std::size_t i) { slices(i, i, th && i < 4 ? 3 : 2); }, [](std::size_t i) { return std::to_string(i) + " bytes"; });
    out.back().shards = 8;
    add("C17/pointers", "all sequences of operations on pointers", 3, 1,
        [th](std::size_t i) {
            static const std::size_t quick[] = {5, 4, 3}, thorough[] = {7, 5, 4};
            pointers(i + 1, th ? thorough[i] : quick[i]);
        },
        [](std::size_t i) { return std::to_string(i + 1) + " pointers"; });
    out.back().shards = 64;
    add("C17/threads", "threads taking and dropping references", 6, 1, [](std::size_t i) { threads(i / 3 + 2, static_cast<int>(i % 3)); },
        [](std::size_t i) { return std::to_string(i / 3 + 2) + " threads, mode " + std::to_string(i % 3); });
    out.back().bound = [th](std::size_t i) { return i / 3 ? (th ? 5 : 3) : (th ? 9 : 6); };
    out.back().hb_cache = true;
    out.back().shards = 8;
    static const std::vector<std::size_t> counts{127, 128, 129, 255, 256, 257, 300, 32767, 32769, 65535, 65536, 65537};
    add("C17/many", "many references to one object, many slices of one block", counts.size(), 1, [](std::size_t i) { many(counts[i]); },
        [](std::size_t i) { return std::to_string(counts[i]); });
    add("C17/mapped", "mapped files", 7, 1, [](std::size_t i) { mapped(std::vector<std::size_t>{0, 1, 2, 3, 4095, 4096, 4097}[i]); }, [](std::size_t i) { return std::to_string(i); });
    return out;
}
