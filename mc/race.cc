// Data races: the functions that code compiled with -fsanitize=thread calls.
// Each access is compared with the earlier ones to the same bytes by vector
// clocks which advance with the synchronisation of the explored execution.
#include "race.h"
#include "mc.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <malloc.h>
#include <sys/single_threaded.h>
#include <unistd.h>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>
#include <vector>

extern "C" {
void *__libc_malloc(std::size_t);
void __libc_free(void *);
void *__libc_calloc(std::size_t, std::size_t);
void *__libc_realloc(void *, std::size_t);
void *__libc_memalign(std::size_t, std::size_t);
}

namespace mc::race {

int ignoring = 0;

namespace {

using Clock = std::vector<std::uint32_t>;

struct Record {
    std::uint32_t exec;
    std::uint32_t clk;
    std::uint64_t pc : 48;
    std::uint64_t mask : 8;
    std::uint64_t write : 1;
    std::uint64_t fiber_hi : 7;
    std::uint32_t fiber_lo;
    std::uint32_t pad;
    std::uint32_t fiber() const { return fiber_lo; }
};
constexpr int nrec = 4;
struct Cell {
    Record r[nrec];
};
constexpr std::uintptr_t page_bits = 12;
constexpr std::size_t cells_of_page = (1u << page_bits) / 8;
struct Page {
    std::uint32_t exec;
    std::uint32_t next[cells_of_page / 8];  // which record to replace next
    Cell c[cells_of_page];
};

struct Direct {
    std::uintptr_t key;
    Page *page;
};
constexpr std::size_t ndirect = 1u << 14;
Direct direct[ndirect];
std::unordered_map<std::uintptr_t, Page *> *pages;

std::uint32_t exec = 1;
std::size_t me = 0;  // 0: not in an execution
bool busy = false;   // the detector's own allocations
std::vector<Clock> *clocks;
std::unordered_map<const void *, Clock> *objects;
std::vector<std::pair<std::uintptr_t, std::uintptr_t>> *exempted;
std::uintptr_t tls_first, tls_last;
char *tls = nullptr;  // the thread-local variables of the program
std::vector<char> tls_image;

struct Busy {
    Busy() { busy = true; }
    ~Busy() { busy = false; }
};

Clock &clock_of(std::size_t f)
{
    if (clocks->size() <= f) clocks->resize(f + 1);
    auto &c = (*clocks)[f];
    if (c.size() <= f) c.resize(f + 1);
    if (c[f] == 0) c[f] = 1;
    return c;
}

void join(Clock &to, const Clock &from)
{
    if (to.size() < from.size()) to.resize(from.size());
    for (std::size_t i = 0; i < from.size(); ++i) to[i] = std::max(to[i], from[i]);
}

Page *find_page(std::uintptr_t key, bool make)
{
    auto &d = direct[(key ^ key >> 14) % ndirect];
    if (d.key == key && d.page != nullptr) return d.page;
    Busy b;
    auto it = pages->find(key);
    if (it == pages->end()) {
        if (!make) return nullptr;
        auto *p = static_cast<Page *>(__libc_calloc(1, sizeof(Page)));
        it = pages->emplace(key, p).first;
    }
    d = {key, it->second};
    return it->second;
}

std::string where(std::uint64_t pc)
{
    Dl_info i{};
    if (dladdr(reinterpret_cast<void *>(pc), &i) == 0 || i.dli_fname == nullptr) return "?";
    char cmd[600];
    std::snprintf(cmd, sizeof cmd, "addr2line -Cfe '%s' 0x%lx 2>/dev/null", i.dli_fname, static_cast<unsigned long>(pc - 1 - reinterpret_cast<std::uint64_t>(i.dli_fbase)));
    std::string r;
    if (FILE *f = ::popen(cmd, "r")) {
        char b[4096];
        std::size_t n;
        while ((n = std::fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
        ::pclose(f);
    }
    while (!r.empty() && r.back() == '\n') r.pop_back();
    auto k = r.find('\n');
    if (k != std::string::npos) r = r.substr(0, k) + " (" + r.substr(k + 1) + ")";
    return r;
}

void report(const Record &a, std::uint64_t pc, bool write, std::uintptr_t addr, const char *what)
{
    for (auto &e : *exempted)
        if (addr >= e.first && addr < e.second) return;
    busy = true;
    ++ignoring;
    std::string x = where(a.pc), y = where(pc);
    auto fn = [](std::string s) {
        for (std::size_t k; (k = s.find("(anonymous namespace)::")) != s.npos;) s.erase(k, 23);
        return s.substr(0, std::min(s.find(" ("), s.find('('))); };
    std::string f1 = fn(x), f2 = fn(y);
    char b[80];
    std::snprintf(b, sizeof b, "%lx", static_cast<unsigned long>(addr));
    fail("data race: " + std::min(f1, f2) + " and " + std::max(f1, f2),
         std::string{what} + (write ? "write" : "read") + " in thread " + std::to_string(me) + " at " + y + "\nand an earlier " + (a.write ? "write" : "read") +
             " in thread " + std::to_string(a.fiber()) + " at " + x + "\nof the same memory (" + b + ") are not ordered by any synchronisation");
}

void access_cell(Page *p, std::size_t k, unsigned mask, bool write, std::uint64_t pc, std::uintptr_t addr, const Clock &c)
{
    Record *r = p->c[k].r, *free = nullptr;
    for (int i = 0; i < nrec; ++i) {
        if (r[i].exec != exec) {
            if (free == nullptr) free = &r[i];
            continue;
        }
        std::uint32_t f = r[i].fiber();
        if (f == me) {
            if ((r[i].mask & mask) == mask && (r[i].write || !write)) {
                if (r[i].clk == c[me]) return;
                if (r[i].mask == mask && r[i].write == write) {
                    r[i].clk = c[me];
                    r[i].pc = pc;
                    return;
                }
            }
            if ((r[i].mask & ~mask) == 0 && (write || !r[i].write)) free = &r[i];
            continue;
        }
        bool before = f < c.size() && r[i].clk <= c[f];
        if ((r[i].mask & mask) != 0 && (write || r[i].write) && !before) report(r[i], pc, write, addr, "a ");
        if (before && (r[i].mask & ~mask) == 0 && (write || !r[i].write)) free = &r[i];
    }
    if (free == nullptr) {
        auto &n = p->next[k / 8];
        free = &r[n++ % nrec];
    }
    free->exec = exec;
    free->clk = c[me];
    free->pc = pc;
    free->mask = mask & 0xff;
    free->write = write;
    free->fiber_lo = static_cast<std::uint32_t>(me);
}

inline bool off() { return me == 0 || ignoring != 0 || busy; }

void access(const void *ptr, std::size_t n, bool write, std::uint64_t pc)
{
    if (off() || n == 0) return;
    auto a = reinterpret_cast<std::uintptr_t>(ptr);
    if ((a >= tls_first && a < tls_last) || ptr == &ignoring) return;
    const Clock &c = clock_of(me);
    auto end = a + n;
    while (a < end) {
        Page *p = find_page(a >> page_bits, true);
        std::uintptr_t page_end = ((a >> page_bits) + 1) << page_bits;
        while (a < end && a < page_end) {
            std::size_t from = a & 7, len = std::min<std::size_t>(8 - from, end - a);
            access_cell(p, (a & ((1u << page_bits) - 1)) / 8, static_cast<unsigned>(((1u << len) - 1) << from), write, pc, a, c);
            a += len;
        }
    }
}

// The memory gets another owner.
void forget(std::uintptr_t a, std::size_t n)
{
    auto end = a + n;
    while (a < end) {
        std::uintptr_t page_end = std::min(end, ((a >> page_bits) + 1) << page_bits);
        if (Page *p = find_page(a >> page_bits, false))
            for (std::uintptr_t k = (a & ((1u << page_bits) - 1)) / 8; a < page_end; ++k, a = (a & ~std::uintptr_t{7}) + 8)
                for (auto &r : p->c[k].r) r.exec = 0;
        a = page_end;
    }
}

void freed(void *ptr, std::uint64_t pc)
{
    if (ptr == nullptr || me == 0 || busy) return;
    std::size_t n = ::malloc_usable_size(ptr);
    auto a = reinterpret_cast<std::uintptr_t>(ptr);
    if (ignoring == 0) {
        const Clock &c = clock_of(me);
        auto end = a + n;
        for (auto x = a; x < end;) {
            std::uintptr_t page_end = std::min(end, ((x >> page_bits) + 1) << page_bits);
            if (Page *p = find_page(x >> page_bits, false))
                for (std::uintptr_t k = (x & ((1u << page_bits) - 1)) / 8; x < page_end; ++k, x += 8)
                    for (auto &r : p->c[k].r)
                        if (r.exec == exec && r.fiber() != me && !(r.fiber() < c.size() && r.clk <= c[r.fiber()])) report(r, pc, true, x, "a deallocation: ");
            x = page_end;
        }
    }
    forget(a, n);
}

// ----------------------------------------------------------------- atomics

bool acquires(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
bool releases(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }

void atomic_load(const volatile void *a, int o)
{
    if (me == 0 || busy) return;
    if (acquires(o)) acquire(const_cast<const void *>(a));
}
void atomic_store(const volatile void *p, int o)
{
    if (me == 0 || busy) return;
    const void *a = const_cast<const void *>(p);
    {
        // Ends the release sequence of earlier stores.
        Busy b;
        objects->erase(a);
    }
    if (releases(o)) release(a);
}
void atomic_rmw(const volatile void *p, int o)
{
    if (me == 0 || busy) return;
    const void *a = const_cast<const void *>(p);
    if (acquires(o)) acquire(a);
    if (releases(o)) release(a);
}

}  // namespace

void acquire(const void *obj)
{
    if (me == 0) return;
    Busy b;
    auto it = objects->find(obj);
    if (it != objects->end()) join(clock_of(me), it->second);
}

void release(const void *obj)
{
    if (me == 0) return;
    Busy b;
    Clock &c = clock_of(me);
    join((*objects)[obj], c);
    ++c[me];
}

void exempt(const void *p, std::size_t n)
{
    Busy b;
    auto a = reinterpret_cast<std::uintptr_t>(p);
    exempted->emplace_back(a, a + n);
}

void begin()
{
    Busy b;
    if (pages == nullptr) {
        pages = new std::unordered_map<std::uintptr_t, Page *>;
        exempted = new std::vector<std::pair<std::uintptr_t, std::uintptr_t>>;
        clocks = new std::vector<Clock>;
        objects = new std::unordered_map<const void *, Clock>;
        // Everything in this process runs in one thread of the system.
        __libc_single_threaded = 0;
        ::dl_iterate_phdr(
            [](dl_phdr_info *i, std::size_t, void *) {
                for (int k = 0; k < i->dlpi_phnum; ++k)
                    if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data != nullptr) {
                        auto a = reinterpret_cast<std::uintptr_t>(i->dlpi_tls_data);
                        tls_first = tls_first == 0 ? a : std::min(tls_first, a);
                        tls_last = std::max(tls_last, a + i->dlpi_phdr[k].p_memsz);
                        if (i->dlpi_tls_modid == 1) {
                            tls = static_cast<char *>(i->dlpi_tls_data);
                            auto *init = reinterpret_cast<const char *>(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
                            tls_image.assign(init, init + i->dlpi_phdr[k].p_filesz);
                            tls_image.resize(i->dlpi_phdr[k].p_memsz);
                        }
                    }
                return 0;
            },
            nullptr);
    }
    ++exec;
    clocks->clear();
    objects->clear();
    exempted->clear();
    ignoring = 0;
}

void end() { me = 0; }

void spawned(std::size_t parent, std::size_t child, const char *stack, std::size_t size)
{
    Busy b;
    clock_of(child);
    if (parent != 0) {
        join(clock_of(child), clock_of(parent));
        ++clock_of(parent)[parent];
    }
    (void)size;
    if (pages != nullptr) forget(reinterpret_cast<std::uintptr_t>(stack), size);
}

void joined(std::size_t child)
{
    if (me == 0) return;
    Busy b;
    Clock c = clock_of(child);
    join(clock_of(me), c);
}

void switch_tls(std::vector<char> &from, std::vector<char> &to)
{
    if (tls_image.empty()) return;
    Busy b;
    from.assign(tls, tls + tls_image.size());
    if (to.empty()) to = tls_image;
    std::copy(to.begin(), to.end(), tls);
}

void running(std::size_t fiber) { me = fiber; }

}  // namespace mc::race

using namespace mc::race;

#define PC reinterpret_cast<std::uint64_t>(__builtin_return_address(0))

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define MC_RW(n)                                                                     \
    void __tsan_read##n(void *a) { access(a, n, false, PC); }                         \
    void __tsan_write##n(void *a) { access(a, n, true, PC); }                         \
    void __tsan_unaligned_read##n(void *a) { access(a, n, false, PC); }               \
    void __tsan_unaligned_write##n(void *a) { access(a, n, true, PC); }               \
    void __tsan_volatile_read##n(void *a) { access(a, n, false, PC); }                \
    void __tsan_volatile_write##n(void *a) { access(a, n, true, PC); }
MC_RW(1) MC_RW(2) MC_RW(4) MC_RW(8) MC_RW(16)
void __tsan_read_range(void *a, unsigned long n) { access(a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { access(a, n, true, PC); }
void __tsan_vptr_update(void **a, void *v)
{
    if (*a != v) access(a, 8, true, PC);
}
void __tsan_vptr_read(void **a) { access(a, 8, false, PC); }

#define MC_ATOMIC(bits, T)                                                                                                    \
    T __tsan_atomic##bits##_load(const volatile T *a, int o)                                                                  \
    {                                                                                                                         \
        atomic_load(a, o);                                                                                                    \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                          \
    }                                                                                                                         \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int o)                                                               \
    {                                                                                                                         \
        atomic_store(a, o);                                                                                                   \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                             \
    }                                                                                                                         \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int o)                                                               \
    {                                                                                                                         \
        atomic_rmw(a, o);                                                                                                     \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                   \
    }                                                                                                                         \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int o) { atomic_rmw(a, o); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }   \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int o) { atomic_rmw(a, o); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }   \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int o) { atomic_rmw(a, o); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }   \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int o) { atomic_rmw(a, o); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }     \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int o) { atomic_rmw(a, o); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }   \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int o) { atomic_rmw(a, o); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int o, int fo)                                \
    {                                                                                                                         \
        bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                            \
        if (ok) atomic_rmw(a, o);                                                                                             \
        else atomic_load(a, fo);                                                                                              \
        return ok;                                                                                                            \
    }                                                                                                                         \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int o, int fo)                                  \
    {                                                                                                                         \
        return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, o, fo);                                                 \
    }
MC_ATOMIC(8, unsigned char)
MC_ATOMIC(16, unsigned short)
MC_ATOMIC(32, unsigned int)
MC_ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------- memory of the system

void *malloc(std::size_t n) { return __libc_malloc(n); }
void free(void *p)
{
    freed(p, PC);
    __libc_free(p);
}
void *calloc(std::size_t n, std::size_t m) { return __libc_calloc(n, m); }
void *realloc(void *p, std::size_t n)
{
    freed(p, PC);
    return __libc_realloc(p, n);
}
void *memalign(std::size_t a, std::size_t n) { return __libc_memalign(a, n); }
void *aligned_alloc(std::size_t a, std::size_t n) { return __libc_memalign(a, n); }
int posix_memalign(void **p, std::size_t a, std::size_t n)
{
    *p = __libc_memalign(a, n);
    return *p == nullptr ? ENOMEM : 0;
}

// Instrumented code calls these instead of the functions of libc.
void *mcr_memcpy(void *d, const void *s, std::size_t n)
{
    access(s, n, false, PC);
    access(d, n, true, PC);
    return std::memcpy(d, s, n);
}
void *mcr_memmove(void *d, const void *s, std::size_t n)
{
    access(s, n, false, PC);
    access(d, n, true, PC);
    return std::memmove(d, s, n);
}
void *mcr_memset(void *d, int c, std::size_t n)
{
    access(d, n, true, PC);
    return std::memset(d, c, n);
}
int mcr_memcmp(const void *a, const void *b, std::size_t n)
{
    access(a, n, false, PC);
    access(b, n, false, PC);
    return std::memcmp(a, b, n);
}
void *mcr_memchr(const void *a, int c, std::size_t n)
{
    auto *r = const_cast<void *>(std::memchr(a, c, n));
    access(a, r == nullptr ? n : static_cast<std::size_t>(static_cast<char *>(r) - static_cast<const char *>(a)) + 1, false, PC);
    return r;
}
std::size_t mcr_strlen(const char *s)
{
    std::size_t n = std::strlen(s);
    access(s, n + 1, false, PC);
    return n;
}
long mcr_read(int fd, void *b, std::size_t n)
{
    long r = ::read(fd, b, n);
    if (r > 0) access(b, static_cast<std::size_t>(r), true, PC);
    return r;
}
int mcr_guard_acquire(void *g)
{
    int r = abi::__cxa_guard_acquire(static_cast<__cxxabiv1::__guard *>(g));
    acquire(g);
    return r;
}
void mcr_guard_release(void *g)
{
    release(g);
    abi::__cxa_guard_release(static_cast<__cxxabiv1::__guard *>(g));
}
}
