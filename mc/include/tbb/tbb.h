// A stand-in of the parts of TBB's interface that /repo uses. Tasks are run
// by the model checker's scheduler, at most mc::sched().workers at once for
// a graph (the thread in wait_for_all included). The node protocols follow
// oneTBB 2021: source/limiter switch between push and pull, the sequencer
// drops stale and holds back early messages, an exception or a cancellation
// drops the tasks that have not started.
#pragma once

#include <algorithm>
#include <cstddef>
#include <deque>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <tuple>
#include <utility>
#include <vector>

#include <tbb/iterators.h>

#include "../mc.h"
#include "../mc_race.h"

// The scopes Ignore and User tell the detector of data races which accesses
// are those of this stand-in; acquire and release are the synchronisation
// that TBB itself does.
namespace tbb {

using mc::race::Ignore;
using mc::race::User;

struct task_scheduler_init {
    static int default_num_threads() { return static_cast<int>(mc::sched().workers); }
};
namespace info {
inline int default_concurrency() { return static_cast<int>(mc::sched().workers); }
}  // namespace info
namespace this_task_arena {
inline int max_concurrency() { return static_cast<int>(mc::sched().workers); }
}  // namespace this_task_arena

class task_group_context {
public:
    task_group_context() = default;
    task_group_context(const task_group_context &) = delete;
    bool cancel_group_execution()
    {
        Ignore ig;
        mc::point(this, 1);
        bool r = !cancelled_;
        cancelled_ = true;
        return r;
    }
    bool is_group_execution_cancelled() const
    {
        Ignore ig;
        mc::point(this, 0);
        return cancelled_;
    }
    void reset()
    {
        Ignore ig;
        mc::touch(this, 2);
        cancelled_ = false;
        exception_ = nullptr;
    }
    bool cancelled_ = false;
    std::exception_ptr exception_;
};

class split {};

template<typename It>
class blocked_range {
public:
    using const_iterator = It;
    blocked_range(It b, It e, std::size_t grain = 1) : b_{b}, e_{e}, grain_{grain} {}
    blocked_range(blocked_range &r, split) : b_{r.b_}, e_{r.e_}, grain_{r.grain_}
    {
        It mid = r.b_ + (r.e_ - r.b_) / 2;
        r.e_ = mid;
        b_ = mid;
    }
    It begin() const { return b_; }
    It end() const { return e_; }
    std::size_t size() const { return static_cast<std::size_t>(e_ - b_); }
    std::size_t grainsize() const { return grain_; }
    bool empty() const { return !(b_ < e_); }
    bool is_divisible() const { return grain_ < size(); }

private:
    It b_, e_;
    std::size_t grain_;
};

class auto_partitioner {};
class simple_partitioner {};
class static_partitioner {};

struct parallel_limits {
    static inline std::size_t max_pieces = 3;
};

template<typename Range, typename Body>
void parallel_for(const Range &range, const Body &body)
{
    Ignore ig;
    // How the range is divided is the library's choice.
    std::vector<Range> pieces{range};
    while (pieces.size() < parallel_limits::max_pieces) {
        std::size_t k = pieces.size();
        for (std::size_t i = 0; i < pieces.size(); ++i)
            if (pieces[i].is_divisible() && (k == pieces.size() || pieces[i].size() > pieces[k].size())) k = i;
        if (k == pieces.size()) break;
        Range right{pieces[k], split{}};
        pieces.insert(pieces.begin() + static_cast<std::ptrdiff_t>(k) + 1, right);
    }
    if (range.empty()) return;
    task_group_context ctx;
    std::size_t running = 0, left = pieces.size();
    for (auto &p : pieces)
        mc::spawn(
            [&ctx, &running, &left, &p, &body] {
                Ignore ig;
                ++running;
                mc::mark(3);
                if (!ctx.cancelled_) {
                    try {
                        Range r = p;
                        User u;
                        body(r);
                    }
                    catch (...) {
                        if (!ctx.cancelled_) ctx.exception_ = std::current_exception();
                        ctx.cancelled_ = true;
                    }
                }
                mc::touch(&ctx, 4);
                mc::race::release(&ctx);
                --running;
                --left;
            },
            "parallel_for", [&running] { return running < std::max(1u, mc::sched().workers); });
    mc::block_until([&left] { return left == 0; }, &ctx, "parallel_for");
    mc::race::acquire(&ctx);
    if (ctx.exception_) std::rethrow_exception(ctx.exception_);
}
template<typename Range, typename Body, typename Part>
void parallel_for(const Range &range, const Body &body, const Part &)
{
    parallel_for(range, body);
}
template<typename Range, typename Body, typename Part>
void parallel_for(const Range &range, const Body &body, const Part &, task_group_context &)
{
    parallel_for(range, body);
}
template<typename I, typename F>
void parallel_for(I b, I e, const F &f)
{
    parallel_for(blocked_range<I>{b, e}, [&f](const blocked_range<I> &r) {
        for (I i = r.begin(); i < r.end(); ++i) f(i);
    });
}

namespace flow {

class continue_msg {};
inline constexpr std::size_t unlimited = 0;
inline constexpr std::size_t serial = 1;
enum reset_flags { rf_reset_protocol = 0, rf_reset_bodies = 1, rf_clear_edges = 2 };

class graph_node;

class graph {
    friend class graph_node;

public:
    graph() : ctx_{&own_} {}
    explicit graph(task_group_context &c) : ctx_{&c} {}
    graph(const graph &) = delete;
    ~graph() { wait_tasks(); }

    void spawn(std::function<void()> f, const char *what)
    {
        Ignore ig;
        ++left_;
        mc::touch(this, 1);
        mc::spawn(
            [this, f = std::move(f)]() mutable {
                Ignore ig2;
                ++running_;
                mc::mark(3);
                if (!ctx_->cancelled_) {
                    try {
                        f();
                    }
                    catch (...) {
                        if (!ctx_->exception_) ctx_->exception_ = std::current_exception();
                        ctx_->cancelled_ = true;
                        mc::touch(ctx_, 5);
                    }
                }
                f = nullptr;
                mc::race::release(this);
                mc::touch(this, 2);
                --running_;
                --left_;
            },
            what, [this] { return running_ < std::max(1u, mc::sched().workers); });
    }

    void wait_for_all()
    {
        Ignore ig;
        cancelled = false;
        caught_exception = false;
        wait_tasks();
        cancelled = ctx_->cancelled_;
        std::exception_ptr e = ctx_->exception_;
        ctx_->reset();
        if (e) {
            caught_exception = true;
            std::rethrow_exception(e);
        }
    }
    bool is_cancelled() { return cancelled; }
    bool exception_thrown() { return caught_exception; }
    void cancel() { ctx_->cancel_group_execution(); }
    void reset(reset_flags = rf_reset_protocol);

private:
    void wait_tasks()
    {
        Ignore ig;
        if (left_ == 0) {
            mc::race::acquire(this);
            return;
        }
        mc::block_until([this] { return left_ == 0; }, this, "wait_for_all");
        mc::race::acquire(this);
    }
    task_group_context own_;
    task_group_context *ctx_;
    std::size_t left_ = 0, running_ = 0;
    bool cancelled = false, caught_exception = false;
    std::vector<graph_node *> nodes_;
};

class graph_node {
public:
    explicit graph_node(graph &g) : g_{g} { g.nodes_.push_back(this); }
    virtual ~graph_node()
    {
        auto &v = g_.nodes_;
        v.erase(std::remove(v.begin(), v.end(), this), v.end());
    }
    virtual void reset_node() {}

protected:
    graph &g_;
};

inline void graph::reset(reset_flags)
{
    Ignore ig;
    ctx_->reset();
    for (auto *n : nodes_) n->reset_node();
}

template<typename T>
class sender;

template<typename T>
class receiver {
public:
    virtual ~receiver() = default;
    virtual bool try_put(const T &) = 0;
    virtual bool register_predecessor(sender<T> &) { return false; }
    virtual bool remove_predecessor(sender<T> &) { return false; }
};

template<typename T>
class sender {
public:
    virtual ~sender() = default;
    virtual void register_successor(receiver<T> &r) { succ_.push_back(&r); }
    virtual bool try_reserve(T &) { return false; }
    virtual void try_consume() {}
    virtual void try_release() {}
    void add_edge(receiver<T> &r)
    {
        all_.push_back(&r);
        register_successor(r);
    }

protected:
    // Offers the message to all successors; those that reject it become
    // pullers.
    bool broadcast(const T &v)
    {
        bool any = false;
        auto s = succ_;
        for (auto *r : s) {
            if (r->try_put(v))
                any = true;
            else if (r->register_predecessor(*this))
                succ_.erase(std::find(succ_.begin(), succ_.end(), r));
        }
        return any;
    }
    void reset_edges() { succ_ = all_; }
    std::vector<receiver<T> *> succ_, all_;
};

template<typename T>
class input_node_base : public graph_node, public sender<T> {
public:
    template<typename Body>
    input_node_base(graph &g, Body b, bool active)
        : graph_node{g}, body_{std::move(b)}, init_active_{active}, active_{active}
    {}
    void activate()
    {
        Ignore ig;
        active_ = true;
        if (!this->succ_.empty()) spawn_put();
    }
    void register_successor(receiver<T> &r) override
    {
        this->succ_.push_back(&r);
        if (active_) spawn_put();
    }
    bool try_reserve(T &v) override
    {
        mc::touch(this, 1);
        mc::race::acq_rel(this);
        if (reserved_ || !cached_) return false;
        v = *cached_;
        reserved_ = true;
        return true;
    }
    void try_consume() override
    {
        mc::touch(this, 1);
        mc::race::acq_rel(this);
        reserved_ = false;
        cached_.reset();
        if (!this->succ_.empty()) spawn_put();
    }
    void try_release() override
    {
        mc::touch(this, 1);
        mc::race::acq_rel(this);
        reserved_ = false;
        if (!this->succ_.empty()) spawn_put();
    }
    void reset_node() override
    {
        active_ = init_active_;
        reserved_ = false;
        cached_.reset();
        this->reset_edges();
    }

private:
    void spawn_put()
    {
        this->g_.spawn([this] { put(); }, "source");
    }
    void put()
    {
        // One application of the body at a time.
        mc::block_until([this] { return !in_body_; }, this, "source");
        mc::race::acquire(this);
        if (reserved_) return;
        if (!cached_) {
            in_body_ = true;
            mc::touch(this, 2);
            T v{};
            bool ok;
            try {
                User u;
                ok = body_(v);
            }
            catch (...) {
                in_body_ = false;
                throw;
            }
            in_body_ = false;
            mc::race::release(this);
            mc::touch(this, 1);
            if (ok) cached_ = std::move(v);
        }
        if (!cached_) return;
        reserved_ = true;
        T v = *cached_;
        if (this->broadcast(v))
            try_consume();
        else
            try_release();
    }
    std::function<bool(T &)> body_;
    bool init_active_, active_, reserved_ = false, in_body_ = false;
    std::optional<T> cached_;
};

template<typename T>
class source_node : public input_node_base<T> {
public:
    template<typename Body>
    source_node(graph &g, Body b, bool active = true) : input_node_base<T>{g, std::move(b), active}
    {}
};

}  // namespace flow

class flow_control {
public:
    void stop() { stopped_ = true; }
    bool stopped_ = false;
};

namespace flow {

template<typename T>
class input_node : public input_node_base<T> {
public:
    template<typename Body>
    input_node(graph &g, Body b)
        : input_node_base<T>{g,
                             [b = std::move(b)](T &v) mutable {
                                 tbb::flow_control fc;
                                 v = b(fc);
                                 return !fc.stopped_;
                             },
                             false}
    {}
};

template<typename T>
class limiter_node : public graph_node, public receiver<T>, public sender<T> {
    struct Decrement : receiver<continue_msg> {
        explicit Decrement(limiter_node &n) : n_{n} {}
        bool try_put(const continue_msg &) override
        {
            n_.decrease();
            return true;
        }
        limiter_node &n_;
    };

public:
    limiter_node(graph &g, std::size_t threshold) : graph_node{g}, threshold_{threshold} {}
    bool try_put(const T &v) override
    {
        Ignore ig;
        mc::touch(this, 1);
        mc::race::acq_rel(this);
        if (count_ >= threshold_) return false;
        ++count_;
        if (!this->broadcast(v)) {
            --count_;
            return false;
        }
        return true;
    }
    bool register_predecessor(sender<T> &s) override
    {
        preds_.push_back(&s);
        if (count_ < threshold_) this->g_.spawn([this] { forward(); }, "limiter");
        return true;
    }
    void reset_node() override
    {
        count_ = 0;
        preds_.clear();
        this->reset_edges();
    }
    receiver<continue_msg> &decrementer() { return decrement; }
    Decrement decrement{*this};

private:
    void decrease()
    {
        Ignore ig;
        mc::touch(this, 1);
        mc::race::acq_rel(this);
        if (count_ > 0) --count_;
        forward();
    }
    void forward()
    {
        mc::race::acq_rel(this);
        while (count_ < threshold_ && !preds_.empty()) {
            sender<T> *s = preds_.front();
            T v{};
            if (s->try_reserve(v)) {
                ++count_;
                if (this->broadcast(v)) {
                    s->try_consume();
                }
                else {
                    --count_;
                    s->try_release();
                    return;
                }
            }
            else {
                // Nothing to pull: back to push.
                preds_.erase(preds_.begin());
                s->register_successor(*this);
            }
        }
    }
    std::size_t threshold_, count_ = 0;
    std::deque<sender<T> *> preds_;
};

// Runs a body for each message, with a limited or unlimited concurrency.
template<typename In>
class body_node : public graph_node, public receiver<In> {
public:
    body_node(graph &g, std::size_t concurrency) : graph_node{g}, max_{concurrency} {}
    bool try_put(const In &v) override
    {
        Ignore ig;
        mc::touch(this, 1);
        if (max_ != unlimited) mc::race::acq_rel(this);
        if (max_ != unlimited && active_ >= max_) {
            queue_.push_back(v);
            return true;
        }
        ++active_;
        start(v);
        return true;
    }
    void reset_node() override
    {
        active_ = 0;
        queue_.clear();
    }

protected:
    virtual void run(const In &v) = 0;

private:
    void start(const In &v)
    {
        this->g_.spawn(
            [this, v] {
                run(v);
                mc::touch(this, 1);
                if (max_ != unlimited) mc::race::acq_rel(this);
                if (!queue_.empty()) {
                    In n = queue_.front();
                    queue_.pop_front();
                    start(n);
                }
                else
                    --active_;
            },
            max_ == serial ? "serial node" : "node");
    }
    std::size_t max_, active_ = 0;
    std::deque<In> queue_;
};

template<typename T>
class output_port_t : public sender<T> {
public:
    bool try_put(const T &v)
    {
        Ignore ig;
        return this->broadcast(v);
    }
    void reset() { this->reset_edges(); }
};

template<typename In, typename Outs>
class multifunction_node;

template<typename In, typename... Os>
class multifunction_node<In, std::tuple<Os...>> : public body_node<In> {
public:
    using output_ports_type = std::tuple<output_port_t<Os>...>;
    template<typename Body>
    multifunction_node(graph &g, std::size_t c, Body b) : body_node<In>{g, c}, body_{std::move(b)}
    {}
    output_ports_type &output_ports() { return ports_; }
    void reset_node() override
    {
        body_node<In>::reset_node();
        std::apply([](auto &...p) { (p.reset(), ...); }, ports_);
    }

private:
    void run(const In &v) override
    {
        User u;
        body_(v, ports_);
    }
    std::function<void(const In &, output_ports_type &)> body_;
    output_ports_type ports_;
};

template<std::size_t N, typename M>
auto &output_port(M &m)
{
    return std::get<N>(m.output_ports());
}

template<typename In, typename Out = continue_msg>
class function_node : public body_node<In>, public sender<Out> {
public:
    template<typename Body>
    function_node(graph &g, std::size_t c, Body b) : body_node<In>{g, c}
    {
        if constexpr (std::is_void_v<std::invoke_result_t<Body, const In &>>)
            body_ = [b = std::move(b)](const In &v) mutable {
                b(v);
                return Out{};
            };
        else
            body_ = std::move(b);
    }
    void reset_node() override
    {
        body_node<In>::reset_node();
        this->reset_edges();
    }

private:
    void run(const In &v) override
    {
        Out o;
        {
            User u;
            o = body_(v);
        }
        this->broadcast(o);
    }
    std::function<Out(const In &)> body_;
};

template<typename T>
class queue_node : public graph_node, public receiver<T>, public sender<T> {
public:
    explicit queue_node(graph &g) : graph_node{g} {}
    bool try_put(const T &v) override
    {
        Ignore ig;
        mc::touch(this, 1);
        mc::race::acq_rel(this);
        items_.push_back(v);
        this->g_.spawn([this] { forward(); }, "queue");
        return true;
    }
    void reset_node() override
    {
        items_.clear();
        this->reset_edges();
    }

private:
    void forward()
    {
        mc::touch(this, 1);
        mc::race::acq_rel(this);
        while (!items_.empty()) {
            T v = items_.front();
            items_.pop_front();
            this->broadcast(v);
        }
    }
    std::deque<T> items_;
};

template<typename T>
class buffer_node : public queue_node<T> {
public:
    using queue_node<T>::queue_node;
};

template<typename T>
class sequencer_node : public graph_node, public receiver<T>, public sender<T> {
public:
    template<typename S>
    sequencer_node(graph &g, S s) : graph_node{g}, seq_{std::move(s)}
    {}
    bool try_put(const T &v) override
    {
        Ignore ig;
        mc::touch(this, 1);
        mc::race::acq_rel(this);
        std::size_t i = seq_(v);
        if (i < head_ || !items_.emplace(i, v).second) return false;
        if (items_.begin()->first == head_)
            this->g_.spawn([this] { forward(); }, "sequencer");
        return true;
    }
    void reset_node() override
    {
        head_ = 0;
        items_.clear();
        this->reset_edges();
    }

private:
    void forward()
    {
        mc::touch(this, 1);
        mc::race::acq_rel(this);
        while (!items_.empty() && items_.begin()->first == head_) {
            T v = items_.begin()->second;
            items_.erase(items_.begin());
            ++head_;
            this->broadcast(v);
        }
    }
    std::function<std::size_t(const T &)> seq_;
    std::map<std::size_t, T> items_;
    std::size_t head_ = 0;
};

template<typename T, typename S, typename R>
void make_edge_impl(S &s, R &r)
{
    static_cast<sender<T> &>(s).add_edge(static_cast<receiver<T> &>(r));
}
template<typename T>
T sender_type(sender<T> *);
template<typename S, typename R>
void make_edge(S &s, R &r)
{
    using T = decltype(sender_type(&s));
    make_edge_impl<T>(s, r);
}

}  // namespace flow
}  // namespace tbb
