// Replacements of the standard library's synchronisation types that hand
// control to the model checker's scheduler. Their layouts equal those of
// the originals, so translation units with and without them can be mixed.
#pragma once

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <future>
#include <functional>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>

#include "mc.h"
#include "mc_race.h"

namespace mc {

namespace impl {
void mutex_lock(std::uint64_t *m);
bool mutex_trylock(std::uint64_t *m);
void mutex_unlock(std::uint64_t *m);
void cond_wait(const void *c, std::uint64_t *m);
bool cond_timed_wait(const void *c, std::uint64_t *m);  // false: timed out
void cond_signal(const void *c, bool all);
void atomic_point(const void *a, unsigned op);
void thread_join(std::size_t id);
}  // namespace impl

class mutex {
public:
    constexpr mutex() noexcept = default;
    mutex(const mutex &) = delete;
    mutex &operator=(const mutex &) = delete;
    void lock() { impl::mutex_lock(w_); }
    bool try_lock() { return impl::mutex_trylock(w_); }
    void unlock() { impl::mutex_unlock(w_); }
    std::uint64_t *word() { return w_; }

private:
    std::uint64_t w_[sizeof(std::mutex) / 8]{};
};
static_assert(sizeof(mutex) == sizeof(std::mutex));

class condition_variable {
public:
    condition_variable() noexcept = default;
    condition_variable(const condition_variable &) = delete;
    condition_variable &operator=(const condition_variable &) = delete;
    void notify_one() noexcept { impl::cond_signal(this, false); }
    void notify_all() noexcept { impl::cond_signal(this, true); }
    template<typename L>
    void wait(L &l)
    {
        impl::cond_wait(this, l.mutex()->word());
    }
    template<typename L, typename P>
    void wait(L &l, P p)
    {
        while (!p()) wait(l);
    }
    template<typename L, typename D>
    std::cv_status wait_for(L &l, const D &)
    {
        return impl::cond_timed_wait(this, l.mutex()->word()) ? std::cv_status::no_timeout
                                                              : std::cv_status::timeout;
    }
    template<typename L, typename D, typename P>
    bool wait_for(L &l, const D &d, P p)
    {
        while (!p())
            if (wait_for(l, d) == std::cv_status::timeout) return p();
        return true;
    }
    template<typename L, typename D>
    std::cv_status wait_until(L &l, const D &d)
    {
        return wait_for(l, d);
    }
    template<typename L, typename D, typename P>
    bool wait_until(L &l, const D &d, P p)
    {
        return wait_for(l, d, p);
    }

private:
    std::uint64_t w_[sizeof(std::condition_variable) / 8]{};
};
static_assert(sizeof(condition_variable) == sizeof(std::condition_variable));

class thread {
public:
    using id = std::size_t;
    thread() noexcept = default;
    template<typename F, typename... A,
             typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, thread>>>
    explicit thread(F &&f, A &&...a)
    {
        auto call = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(
            std::forward<F>(f), std::forward<A>(a)...);
        id_ = spawn(
            [call] {
                std::apply([](auto &&...x) { std::invoke(std::move(x)...); }, std::move(*call));
            },
            "thread");
    }
    thread(thread &&o) noexcept : id_{std::exchange(o.id_, 0)} {}
    thread &operator=(thread &&o) noexcept
    {
        if (joinable()) std::terminate();
        id_ = std::exchange(o.id_, 0);
        return *this;
    }
    ~thread()
    {
        if (joinable()) std::terminate();
    }
    bool joinable() const noexcept { return id_ != 0; }
    void join()
    {
        if (!joinable()) throw std::system_error{std::make_error_code(std::errc::invalid_argument)};
        impl::thread_join(id_);
        id_ = 0;
    }
    void detach() { id_ = 0; }
    void swap(thread &o) noexcept { std::swap(id_, o.id_); }
    id get_id() const noexcept { return id_; }
    static unsigned hardware_concurrency() noexcept { return sched().workers; }

private:
    std::size_t id_ = 0;
};
static_assert(sizeof(thread) == sizeof(std::thread));

template<typename T>
class atomic {
public:
    atomic() noexcept = default;
    constexpr atomic(T v) noexcept : v_{v} {}
    atomic(const atomic &) = delete;
    atomic &operator=(const atomic &) = delete;
    bool is_lock_free() const noexcept { return true; }
    static constexpr bool is_always_lock_free = true;
    T load(std::memory_order o = std::memory_order_seq_cst) const noexcept
    {
        impl::atomic_point(this, 0);
        return v_.load(o);
    }
    void store(T v, std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        impl::atomic_point(this, 1);
        v_.store(v, o);
    }
    operator T() const noexcept { return load(); }
    T operator=(T v) noexcept
    {
        store(v);
        return v;
    }
    T exchange(T v, std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        impl::atomic_point(this, 2);
        return v_.exchange(v, o);
    }
    bool compare_exchange_strong(T &e, T v, std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        impl::atomic_point(this, 2);
        return v_.compare_exchange_strong(e, v, o);
    }
    bool compare_exchange_weak(T &e, T v, std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        impl::atomic_point(this, 2);
        return v_.compare_exchange_strong(e, v, o);
    }
    bool compare_exchange_strong(T &e, T v, std::memory_order o, std::memory_order f) noexcept
    {
        impl::atomic_point(this, 2);
        return v_.compare_exchange_strong(e, v, o, f);
    }
    bool compare_exchange_weak(T &e, T v, std::memory_order o, std::memory_order f) noexcept
    {
        impl::atomic_point(this, 2);
        return v_.compare_exchange_strong(e, v, o, f);
    }
    template<typename U>
    T fetch_add(U v, std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        impl::atomic_point(this, 2);
        return v_.fetch_add(v, o);
    }
    template<typename U>
    T fetch_sub(U v, std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        impl::atomic_point(this, 2);
        return v_.fetch_sub(v, o);
    }
    T fetch_or(T v, std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        impl::atomic_point(this, 2);
        return v_.fetch_or(v, o);
    }
    T fetch_and(T v, std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        impl::atomic_point(this, 2);
        return v_.fetch_and(v, o);
    }
    T operator++() noexcept { return static_cast<T>(fetch_add(1) + 1); }
    T operator--() noexcept { return static_cast<T>(fetch_sub(1) - 1); }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--(int) noexcept { return fetch_sub(1); }
    template<typename U>
    T operator+=(U v) noexcept
    {
        return static_cast<T>(fetch_add(v) + v);
    }
    template<typename U>
    T operator-=(U v) noexcept
    {
        return static_cast<T>(fetch_sub(v) - v);
    }

private:
    std::atomic<T> v_;
};

}  // namespace mc

namespace std {
using mc_mutex_t = ::mc::mutex;
using mc_condition_variable_t = ::mc::condition_variable;
using mc_thread_t = ::mc::thread;
template<typename T>
using mc_atomic_t = ::mc::atomic<T>;
using mc_atomic_bool_t = ::mc::atomic<bool>;
using mc_atomic_int_t = ::mc::atomic<int>;
using mc_atomic_size_t_t = ::mc::atomic<size_t>;
using mc_atomic_ptrdiff_t_t = ::mc::atomic<ptrdiff_t>;
}  // namespace std
