// C16: SageMaker pipes. The stream runs against a simulated operating
// system (open, read, select, poll, close, sleeping and the clock) whose
// answers are choices of the explorer.
#include "support.h"

#include <mlio/data_stores/compression.h>
#include <mlio/data_stores/sagemaker_pipe.h>
#include <mlio/streams/sagemaker_pipe_input_stream.h>

#include <cerrno>
#include <cstdarg>
#include <map>
#include <set>

#include <fcntl.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <zlib.h>

using namespace mlio;
using namespace sup;

namespace mc {
const char *const harness_name = "pipe";
}

// ----------------------------------------------- the simulated system

namespace {

struct Fifo {
    std::string name;
    bool exists = true;
    bool creatable = true;             // the writer creates it later on
    std::vector<std::string> script;   // the writes to come; then the end
    std::size_t next = 0;
    bool writer_open = false, writer_done = false;
    std::string buffer;
    std::string taken;                 // what has been read
    int opened = 0;
};

struct Channel {
    std::string path;
    std::vector<Fifo> fifos;
};

struct Open_file {
    int channel, fifo;
};

struct World {
    bool on = false;
    std::vector<Channel> channels;
    std::map<int, Open_file> files;
    int fd_base = 100;
    double now = 1000;  // seconds
    double timeout = 3;
    int max_opened_at_once = 0;
    // Faults that may happen.
    bool faults = true;
    // Whether the writer makes progress at points other than waits.
    std::size_t waits = 0, selects = 0, sleeps = 0;
    double waited = 0;                 // time spent waiting since the mark
    std::string log;
    std::vector<std::pair<int, int>> opens;  // (channel, number) of each successful open
    std::vector<std::pair<int, int>> tries;  // also those that failed

    Open_file *file(int fd)
    {
        auto it = files.find(fd);
        return it == files.end() ? nullptr : &it->second;
    }
    Fifo &fifo(Open_file f) { return channels[static_cast<std::size_t>(f.channel)].fifos[static_cast<std::size_t>(f.fifo)]; }
    int open_files(int channel)
    {
        int n = 0;
        for (auto &p : files) n += p.second.channel == channel;
        return n;
    }
};

World world;

// Makes the next step of the writer: opens the pipe, writes, or ends.
void progress(Fifo &f)
{
    if (f.writer_done) return;
    f.writer_open = true;
    if (f.next < f.script.size()) f.buffer += f.script[f.next++];
    else {
        f.writer_done = true;
        f.writer_open = false;
    }
}

bool ready(const Fifo &f)
{
    return !f.buffer.empty() || f.writer_done;
}

int fail_with(int e)
{
    errno = e;
    return -1;
}

// A descriptor that is not simulated.
bool real(int fd)
{
    return !world.on || world.file(fd) == nullptr;
}

int world_open(const char *path, int flags)
{
    std::string p = path;
    mc::point(&world);
    for (std::size_t c = 0; c < world.channels.size(); ++c) {
        auto &ch = world.channels[c];
        if (p.compare(0, ch.path.size() + 1, ch.path + "_") != 0) continue;
        std::string num = p.substr(ch.path.size() + 1);
        MC_CHECK(!num.empty() && num.find_first_not_of("0123456789") == std::string::npos, "not a pipe of the channel", p.substr(p.rfind('/')));
        auto n = static_cast<std::size_t>(std::stoul(num));
        if (n >= ch.fifos.size()) mc::fail("pipe number out of order", "pipe " + num + " was opened");
        int ic = static_cast<int>(c), in = static_cast<int>(n);
        world.tries.push_back({ic, in});
        auto &f = ch.fifos[n];
        MC_CHECK(world.open_files(ic) == 0, "two readers of one channel", "pipe " + num + " is opened while another one is open");
        MC_CHECK((flags & O_ACCMODE) == O_RDONLY, "pipe opened for writing", num);
        MC_CHECK((flags & O_NONBLOCK) != 0, "opening a pipe may block forever", num);
        if (!f.exists) return fail_with(ENOENT);
        if (world.faults) {
            auto k = mc::choose(3);
            if (k == 1) return fail_with(EACCES);
            if (k == 2) return fail_with(EMFILE);
        }
        int fd = world.fd_base;
        while (world.files.count(fd)) ++fd;
        world.files[fd] = {ic, in};
        f.opened++;
        world.opens.push_back({ic, in});
        world.waited = 0;
        return fd;
    }
    mc::fail("a path outside the channels is opened", p);
}

ssize_t world_read(int fd, void *buf, std::size_t size)
{
    auto &f = world.fifo(*world.file(fd));
    if (!ready(f) && mc::choose(2, world.faults ? 0 : 1) == 0) progress(f);
    if (world.faults) {
        auto k = mc::choose(4);
        if (k == 1) return fail_with(EIO);
        if (k == 2) return fail_with(EINTR);
        if (k == 3 && f.buffer.size() > 1 && size > 1) size = 1;
    }
    if (f.buffer.empty()) {
        if (f.writer_open) return fail_with(EAGAIN);
        return 0;  // also if the writer has not opened the pipe yet
    }
    std::size_t n = std::min(size, f.buffer.size());
    std::copy_n(f.buffer.data(), n, static_cast<char *>(buf));
    f.taken += f.buffer.substr(0, n);
    f.buffer.erase(0, n);
    return static_cast<ssize_t>(n);
}

// Waits until the pipe is ready. Returns as select does; `left` is the
// time that may be waited.
int world_wait(int fd, double &left, bool forever)
{
    auto &f = world.fifo(*world.file(fd));
    world.waits++;
    if (ready(f)) return 1;
    while (true) {
        // 0 and 1 are ordinary; faults are deviations.
        std::size_t k = mc::choose(2, world.faults ? 0 : 1);
        if (world.faults) {
            bool may_interrupt = world.selects < 3;
            auto fault = mc::choose(may_interrupt ? 3 : 2);
            if (fault == 1) k = 3;
            if (fault == 2) k = 2;
        }
        auto pass = [&](double t) {
            world.now += t;
            world.waited += t;
            left -= t;
        };
        if (k == 0) {  // something happens at the last moment
            if (!forever) pass(left);
            progress(f);
            if (ready(f)) return 1;
            // (a write of nothing)
            if (left <= 0) return 0;
            continue;
        }
        if (k == 1) {
            MC_CHECK(!forever, "waits forever", "select without a timeout");
            pass(left);
            return 0;
        }
        if (k == 2) {  // interrupted by a signal halfway
            world.selects++;
            if (!forever) pass(left / 2);
            return fail_with(EINTR);
        }
        return fail_with(ENOMEM);
    }
}

}  // namespace

extern "C" {

int open(const char *path, int flags, ...)
{
    mc::race::Ignore ignore;
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (world.on && std::string_view{path}.substr(0, 8) == "/channel") return world_open(path, flags);
    return static_cast<int>(::syscall(SYS_openat, AT_FDCWD, path, flags, mode));
}
int open64(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    return open(path, flags, mode);
}
int __open_2(const char *path, int flags) { return open(path, flags, 0); }
int __open64_2(const char *path, int flags) { return open(path, flags, 0); }

ssize_t read(int fd, void *buf, size_t n)
{
    mc::race::Ignore ignore;
    if (real(fd)) return ::syscall(SYS_read, fd, buf, n);
    return world_read(fd, buf, n);
}
ssize_t __read_chk(int fd, void *buf, size_t n, size_t) { return read(fd, buf, n); }

int close(int fd)
{
    mc::race::Ignore ignore;
    if (real(fd)) return static_cast<int>(::syscall(SYS_close, fd));
    mc::point(&world);
    world.files.erase(fd);
    return 0;
}

int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    mc::race::Ignore ignore;
    if (world.on) {
        int found = -1;
        for (auto &p : world.files)
            if (p.first < n && p.first < FD_SETSIZE && r && FD_ISSET(p.first, r)) found = p.first;
        if (found != -1) {
            double left = tv ? static_cast<double>(tv->tv_sec) + static_cast<double>(tv->tv_usec) / 1e6 : 0;
            int k = world_wait(found, left, tv == nullptr);
            if (tv) {
                tv->tv_sec = static_cast<time_t>(left);
                tv->tv_usec = static_cast<suseconds_t>((left - static_cast<double>(tv->tv_sec)) * 1e6);
            }
            if (k == 0) FD_ZERO(r);
            return k;
        }
    }
    return static_cast<int>(::syscall(SYS_select, n, r, w, e, tv));
}

int poll(struct pollfd *p, nfds_t n, int ms)
{
    mc::race::Ignore ignore;
    if (world.on && n == 1 && !real(p->fd)) {
        double left = ms / 1000.0;
        int k = world_wait(p->fd, left, ms < 0);
        p->revents = k == 1 ? POLLIN : 0;
        return k;
    }
    return static_cast<int>(::syscall(SYS_poll, p, n, ms));
}
int __poll_chk(struct pollfd *p, nfds_t n, int ms, size_t) { return poll(p, n, ms); }
int ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *s)
{
    mc::race::Ignore ignore;
    if (world.on && n == 1 && !real(p->fd)) {
        double left = t ? static_cast<double>(t->tv_sec) + static_cast<double>(t->tv_nsec) / 1e9 : 0;
        int k = world_wait(p->fd, left, t == nullptr);
        p->revents = k == 1 ? POLLIN : 0;
        return k;
    }
    return static_cast<int>(::syscall(SYS_ppoll, p, n, t, s, 8));
}

static int world_sleep(double t)
{
    mc::race::Ignore ignore;
    world.now += t;
    world.sleeps++;
    MC_CHECK(world.sleeps < 100, "opening never gives up", "");
    // A pipe that is missing might be created meanwhile.
    for (auto &c : world.channels)
        for (std::size_t k = 0; k < c.fifos.size(); ++k)
            if (!c.fifos[k].exists && c.fifos[k].creatable && !world.tries.empty() &&
                &world.channels[static_cast<std::size_t>(world.tries.back().first)] == &c && world.tries.back().second == static_cast<int>(k))
                if (mc::choose(2, 0) == 1) c.fifos[k].exists = true;
    return 0;
}
int nanosleep(const struct timespec *t, struct timespec *r)
{
    if (world.on) return world_sleep(static_cast<double>(t->tv_sec) + static_cast<double>(t->tv_nsec) / 1e9);
    return static_cast<int>(::syscall(SYS_nanosleep, t, r));
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *r)
{
    if (world.on) return world_sleep(1);
    return static_cast<int>(::syscall(SYS_clock_nanosleep, c, flags, t, r));
}
unsigned sleep(unsigned s)
{
    if (world.on) {
        world_sleep(s);
        return 0;
    }
    struct timespec t{};
    t.tv_sec = s;
    ::syscall(SYS_nanosleep, &t, nullptr);
    return 0;
}
int clock_gettime(clockid_t c, struct timespec *t)
{
    mc::race::Ignore ignore;
    if (world.on) {
        t->tv_sec = static_cast<time_t>(world.now);
        t->tv_nsec = static_cast<long>((world.now - static_cast<double>(t->tv_sec)) * 1e9);
        return 0;
    }
    return static_cast<int>(::syscall(SYS_clock_gettime, c, t));
}

}  // extern "C"

namespace {

// ------------------------------------------------------------- checks

std::size_t executions = 0;

// Each execution uses channels of its own: the library keeps a table of
// channels for the whole process.
void reset_world(std::size_t channels, std::size_t fifos)
{
    world = World{};
    executions++;
    for (std::size_t c = 0; c < channels; ++c) {
        Channel ch;
        ch.path = "/channel" + std::to_string(executions) + "x" + std::to_string(c);
        ch.fifos.resize(fifos);
        world.channels.push_back(ch);
    }
}

struct World_on {
    World_on() { world.on = true; }
    ~World_on() { world.on = false; }
};

// A slot of the scripts: a data store, and a stream opened from it.
struct Slot {
    int channel;
    std::optional<std::size_t> number;
    Intrusive_ptr<Sagemaker_pipe> store;
    Intrusive_ptr<Input_stream> stream;
    bool open = false;      // as the model sees it
    int fifo = -1;
    std::string got;
    bool ended = false;
};

struct Model_channel {
    int next = 0;
    bool busy = false;
};

const char *const op_names[] = {"open", "read", "close", "drop"};

void history(const std::vector<int> &ops, const std::vector<std::pair<int, int>> &slots_of, int fd_base, const std::vector<std::string> &script,
             int exists_mode, std::size_t nfifos = 12)
{
    std::size_t nch = 0;
    for (auto &p : slots_of) nch = std::max(nch, static_cast<std::size_t>(p.first) + 1);
    reset_world(nch, nfifos);
    world.fd_base = fd_base;
    for (auto &c : world.channels)
        for (std::size_t k = 0; k < c.fifos.size(); ++k) {
            auto &f = c.fifos[k];
            f.name = std::to_string(k);
            for (auto &s : script) f.script.push_back(s);
            if (!script.empty()) f.script[0] = std::to_string(k) + f.script[0];
            f.exists = exists_mode == 0 || (exists_mode == 2 && k != 1);
            f.creatable = exists_mode != 3;
        }
    World_on on;
    std::vector<Slot> slots;
    std::vector<Model_channel> model(nch);
    for (auto &p : slots_of) {
        Slot s;
        s.channel = p.first;
        if (p.second >= 0) s.number = static_cast<std::size_t>(p.second);
        s.store = make_intrusive<Sagemaker_pipe>(world.channels[static_cast<std::size_t>(p.first)].path, std::chrono::seconds{3}, s.number);
        slots.push_back(std::move(s));
    }
    std::string log;
    auto note = [&](std::string s) {
        log += s;
        log += ' ';
    };
    for (int op : ops) {
        auto &s = slots[static_cast<std::size_t>(op) / 4];
        auto &m = model[static_cast<std::size_t>(s.channel)];
        auto &ch = world.channels[static_cast<std::size_t>(s.channel)];
        note(std::string{op_names[op % 4]} + std::to_string(op / 4));
        mc::transition();
        switch (op % 4) {
        case 0: {  // open, unless the slot has a stream
            if (s.stream != nullptr) return;
            auto opens = world.opens.size(), tries = world.tries.size();
            bool busy = m.busy;
            int want = s.number ? static_cast<int>(*s.number) : m.next;
            world.waited = 0;
            world.selects = 0;
            auto start = world.now;
            try {
                s.stream = s.store->open_read();
                MC_CHECK(!busy, "two readers of one channel", log);
                MC_CHECK(world.opens.size() == opens + 1, "no pipe was opened", log);
                MC_CHECK(world.opens.back() == std::make_pair(s.channel, want), "wrong pipe", log + "expected " + std::to_string(want));
                // The stream must not be handed out before there is data.
                MC_CHECK(ready(ch.fifos[static_cast<std::size_t>(want)]), "opened without data", log);
                s.open = true;
                s.fifo = want;
                s.got.clear();
                s.ended = false;
                m.busy = true;
                m.next = want + 1;
                s.number.reset();
                MC_CHECK(!s.stream->closed(), "closed after opening", log);
                note("ok");
            }
            catch (const std::system_error &e) {
                s.stream = nullptr;
                if (busy) {
                    // The configured number is still to be used.
                    MC_CHECK(world.tries.size() == tries, "pipe opened although the channel is in use", log);
                    note("busy");
                    break;
                }
                MC_CHECK(e.code() != std::errc::permission_denied || world.tries.size() > tries, "channel refused although it is free", log + e.what());
                for (std::size_t k = tries; k < world.tries.size(); ++k)
                    MC_CHECK(world.tries[k] == std::make_pair(s.channel, want), "wrong pipe", log + "expected " + std::to_string(want));
                MC_CHECK(world.tries.size() > tries, "no pipe was opened", log + e.what());
                s.number.reset();
                m.next = want;
                if (world.opens.size() > opens) {
                    m.next = want + 1;
                    MC_CHECK(!ready(ch.fifos[static_cast<std::size_t>(want)]), "data not used", log + e.what());
                    if (e.code() == std::errc::timed_out) MC_CHECK(world.waited >= world.timeout - 0.01, "gives up too early", log);
                    note("nodata");
                }
                else note("noopen");
                MC_CHECK(world.open_files(s.channel) == 0, "descriptor leaked", log);
            }
            MC_CHECK(world.waited <= world.timeout + 0.01, "waits too long for the first data", log + std::to_string(world.waited));
            MC_CHECK(world.now - start < 30, "opening takes too long", log);
            break;
        }
        case 1: {  // read
            if (s.stream == nullptr) return;
            auto &f = s.fifo >= 0 ? ch.fifos[static_cast<std::size_t>(s.fifo)] : ch.fifos[0];
            std::string before = f.taken;
            char buf[4] = {};
            auto start = world.now;
            world.waited = 0;
            world.selects = 0;
            try {
                std::size_t n = s.stream->read({reinterpret_cast<std::byte *>(buf), 3});
                MC_CHECK(s.open, "reads after close", log);
                MC_CHECK(n <= 3 && buf[3] == 0, "reads too much", log);
                s.got.append(buf, n);
                MC_CHECK(s.got == f.taken, "wrong data", log + mc::quote(s.got) + " instead of " + mc::quote(f.taken));
                if (n == 0) {
                    MC_CHECK(f.writer_done && f.buffer.empty(), "end before the writer is done", log);
                    s.ended = true;
                    note("end");
                }
                else {
                    MC_CHECK(!s.ended, "data after the end", log);
                    note("data");
                }
            }
            catch (const Stream_error &) {
                MC_CHECK(!s.open, "open stream claims to be closed", log);
                note("closed");
            }
            catch (const std::system_error &e) {
                MC_CHECK(s.open, "wrong error of a closed stream", log + e.what());
                // No data was lost.
                MC_CHECK(f.taken == before, "data lost in an error", log + e.what());
                MC_CHECK(!f.writer_done || world.faults, "error instead of the end", log + e.what());
                note("error");
            }
            MC_CHECK(world.now - start <= world.timeout + 0.01, "waits too long", log);
            break;
        }
        case 2: {  // close
            if (s.stream == nullptr) return;
            s.stream->close();
            if (s.open) m.busy = false;
            s.open = false;
            MC_CHECK(s.stream->closed(), "not closed", log);
            break;
        }
        case 3: {  // drop the last reference
            if (s.stream == nullptr) return;
            if (s.open) m.busy = false;
            s.open = false;
            s.stream = nullptr;
            break;
        }
        }
        int open_count = 0;
        for (auto &x : slots) open_count += x.open;
        MC_CHECK(static_cast<std::size_t>(open_count) == world.files.size(), "descriptors do not match the open streams",
                 log + std::to_string(world.files.size()) + " instead of " + std::to_string(open_count));
        mc::state(mc::hash(log));
    }
    mc::outcome(log);
    mc::traces();
    if (world.opens.size() > 1) {
        mc::nontrivial();
        mc::sample(log);
    }
}

// Reads one pipe to the end through a store, compressed or not.
void whole(const std::vector<std::string> &writes, bool gzip, std::size_t read_size, int fd_base)
{
    reset_world(1, 4);
    world.fd_base = fd_base;
    world.faults = false;
    std::string expected;
    for (auto &w : writes) expected += w;
    for (std::size_t k = 0; k < 4; ++k) world.channels[0].fifos[k].script = writes;
    if (gzip) {
        ::z_stream z{};
        ::deflateInit2(&z, 6, Z_DEFLATED, 16 + MAX_WBITS, 8, Z_DEFAULT_STRATEGY);
        std::string out(1000, 0);
        z.next_in = reinterpret_cast<Bytef *>(expected.data());
        z.avail_in = static_cast<uInt>(expected.size());
        z.next_out = reinterpret_cast<Bytef *>(out.data());
        z.avail_out = static_cast<uInt>(out.size());
        ::deflate(&z, Z_FINISH);
        out.resize(z.total_out);
        ::deflateEnd(&z);
        std::vector<std::string> s;
        std::size_t step = out.size() / (writes.size() + 1) + 1;
        for (std::size_t p = 0; p < out.size(); p += step) s.push_back(out.substr(p, step));
        for (std::size_t k = 0; k < 4; ++k) world.channels[0].fifos[k].script = s;
    }
    World_on on;
    auto st = make_intrusive<Sagemaker_pipe>(world.channels[0].path, std::chrono::seconds{3}, std::nullopt, gzip ? Compression::gzip : Compression::none);
    std::string log;
    for (int round = 0; round < 2; ++round) {
        std::string got;
        try {
            auto s = st->open_read();
            std::size_t guard = 0;
            while (true) {
                auto b = s->read(read_size);
                if (b.empty()) break;
                got += str(b);
                MC_CHECK(++guard < 1000, "no end", "");
            }
            MC_CHECK(got == expected, "wrong data", mc::quote(got) + " instead of " + mc::quote(expected));
            log += "ok ";
        }
        catch (const std::system_error &e) {
            // Only if the writer was too slow.
            MC_CHECK(e.code() == std::errc::timed_out || e.code() == std::errc::resource_unavailable_try_again, "unexpected error", e.what());
            MC_CHECK(world.now > 1000, "error without a wait", e.what());
            MC_CHECK(expected.compare(0, got.size(), got) == 0, "wrong data before the error", mc::quote(got));
            log += e.code() == std::errc::timed_out ? "timeout " : "again ";
        }
        MC_CHECK(world.files.empty(), "descriptor leaked", log);
        MC_CHECK(world.opens.back().second == round, "wrong pipe", log);
    }
    mc::outcome(log);
    mc::traces();
}

// Threads that compete for a channel.
void threads(std::size_t n, std::size_t rounds, bool close_first)
{
    reset_world(1, 12);
    world.faults = false;
    for (auto &f : world.channels[0].fifos) f.script = {"abc"};
    for (auto &f : world.channels[0].fifos) progress(f);
    World_on on;
    mc::sched().branch = true;
    mc::sched().atomics = true;
    mc::sched().atomic_rmw = true;
    int succeeded = 0, refused = 0, holders = 0;
    std::string log;
    auto body = [&](std::size_t id) {
        mc::race::Ignore ignore;
        for (std::size_t r = 0; r < rounds; ++r) {
            try {
                Intrusive_ptr<Input_stream> s;
                {
                    mc::race::User user;
                    s = make_sagemaker_pipe_input_stream(world.channels[0].path, std::chrono::seconds{3});
                }
                holders++;
                MC_CHECK(holders == 1, "two readers of one channel", log);
                succeeded++;
                log += "T" + std::to_string(id) + "+ ";
                mc::point(&world);
                char buf[2];
                std::size_t k = 0;
                {
                    mc::race::User user;
                    k = s->read({reinterpret_cast<std::byte *>(buf), 2});
                }
                MC_CHECK(k == 2 && buf[0] == 'a', "wrong data", log);
                holders--;
                mc::race::User user;
                if (close_first) s->close();
                s = nullptr;
            }
            catch (const std::system_error &e) {
                MC_CHECK(e.code() == std::errc::permission_denied, "unexpected error", e.what());
                refused++;
                log += "T" + std::to_string(id) + "- ";
            }
        }
    };
    mc::race::Ignore ignore;
    std::vector<std::size_t> ids;
    for (std::size_t t = 0; t < n; ++t) ids.push_back(mc::spawn([&body, t] { body(t); }, "reader"));
    mc::block_until([&] { for (auto i : ids) if (!mc::fiber_done(i)) return false; return true; }, &world, "join");
    MC_CHECK(succeeded >= 1, "nobody got the channel", log);
    MC_CHECK(static_cast<int>(world.opens.size()) == succeeded, "pipes opened do not match the readers", log);
    for (std::size_t k = 0; k < world.opens.size(); ++k) MC_CHECK(world.opens[k].second == static_cast<int>(k), "wrong pipe", log);
    // The channel is free in the end.
    mc::sched().branch = false;
    try {
        auto s = make_sagemaker_pipe_input_stream(world.channels[0].path, std::chrono::seconds{3});
        MC_CHECK(world.opens.back().second == succeeded, "wrong pipe", log);
    }
    catch (const std::system_error &e) {
        mc::fail("channel not released", log + e.what());
    }
    MC_CHECK(world.files.empty(), "descriptor leaked", log);
    mc::outcome(log);
    mc::traces();
    (void)refused;
}

}  // namespace

std::vector<mc::Suite> mc::make_suites(Tier tier)
{
    bool th = tier == Tier::thorough;
    on_start([] { mlio::initialize(); });
    std::vector<Suite> out;
    auto add = [&](std::string name, std::string what, std::size_t n, std::size_t block, int bound, std::function<void(std::size_t)> run,
                   std::function<std::string(std::size_t)> describe) {
        Suite s;
        s.name = name;
        s.what = what;
        s.ncases = n;
        s.block = block;
        s.bound = [bound](std::size_t) { return bound; };
        s.run = run;
        s.describe = describe;
        out.push_back(s);
    };
    struct Config {
        std::vector<std::pair<int, int>> slots;
        std::size_t depth;
        std::vector<std::string> script;
        int exists;
        int fd_base;
        std::string name;
        int bound;
    };
    auto configs = std::make_shared<std::vector<Config>>();
    std::size_t d = th ? 5 : 4;
    configs->push_back({{{0, -1}}, d + 1, {"abcd", "e"}, 0, 100, "one store", 1});
    configs->push_back({{{0, -1}}, d, {"", "ab"}, 0, 1500, "many descriptors", 1});
    configs->push_back({{{0, -1}, {0, 5}}, d, {"ab"}, 0, 100, "two stores, one with a number", 1});
    configs->push_back({{{0, -1}, {0, -1}}, d + 1, {"ab"}, 0, 100, "two stores", th ? 1 : 0});
    configs->push_back({{{0, 3}}, d, {"ab"}, 1, 100, "missing at first", th ? 2 : 1});
    configs->push_back({{{0, -1}, {0, 2}}, d, {}, 2, 100, "second missing, no data", th ? 1 : 0});
    configs->push_back({{{0, -1}}, d, {"ab"}, 3, 100, "never there", th ? 2 : 1});
    configs->push_back({{{0, -1}, {1, 4}}, d, {"ab"}, 0, 100, "two channels", th ? 1 : 0});
    struct Case {
        std::size_t config;
        std::vector<int> ops;
    };
    auto cases = std::make_shared<std::vector<Case>>();
    for (std::size_t c = 0; c < configs->size(); ++c) {
        // Sequences in which each operation applies to an existing stream
        // are those that are not cut short.
        auto &cf = (*configs)[c];
        std::size_t k = cf.slots.size() * 4;
        std::size_t total = 1;
        for (std::size_t i = 0; i < cf.depth; ++i) total *= k;
        for (std::size_t i = 0; i < total; ++i) {
            std::vector<int> ops(cf.depth);
            std::size_t x = i;
            for (auto &o : ops) {
                o = static_cast<int>(x % k);
                x /= k;
            }
            if (ops[0] % 4 != 0) continue;
            // Statically impossible: reading before any open of the slot.
            std::set<int> opened;
            bool ok = true;
            for (int o : ops) {
                if (o % 4 == 0) opened.insert(o / 4);
                else if (!opened.count(o / 4)) ok = false;
            }
            if (!ok) continue;
            cases->push_back({c, ops});
        }
    }
    auto opstr = [cases, configs](std::size_t i) {
        std::string s = (*configs)[(*cases)[i].config].name + ":";
        for (int o : (*cases)[i].ops) s += std::string{" "} + op_names[o % 4] + std::to_string(o / 4);
        return s;
    };
    add("C16/history", "all sequences of open, read, close, drop on up to two stores x answers of the system", cases->size(), 16, 1,
        [=](std::size_t i) {
            auto &c = (*configs)[(*cases)[i].config];
            history((*cases)[i].ops, c.slots, c.fd_base, c.script, c.exists);
        },
        opstr);
    out.back().bound = [=](std::size_t i) { return (*configs)[(*cases)[i].config].bound; };
    auto writes = std::make_shared<std::vector<std::vector<std::string>>>();
    for (std::vector<std::string> w : std::vector<std::vector<std::string>>{{}, {"a"}, {"ab", "c"}, {"a", "", "bc"}, {"abcdefgh", "ij"}, {"a", "b", "c", "d"}}) writes->push_back(w);
    add("C16/whole", "reading pipes to the end x progress of the writer", writes->size() * 2 * 2 * 2, 1, 3,
        [=](std::size_t i) {
            auto &w = (*writes)[i / 8];
            bool gzip = (i / 4) % 2;
            if (gzip && w.empty()) return;
            whole(w, gzip, (i / 2) % 2 ? 3 : 100, i % 2 ? 2000 : 50);
        },
        [=](std::size_t i) { return "writes " + join((*writes)[i / 8]) + ((i / 4) % 2 ? " gzip" : "") + ((i / 2) % 2 ? " 3" : " 100") + (i % 2 ? " fd 2000" : ""); });
    add("C16/many", "a channel opened again and again", 6, 1, 0,
        [=](std::size_t i) {
            static const int firsts[] = {-1, 97, 250};
            std::vector<int> ops;
            for (int k = 0; k < 300; ++k) {
                int slot = i % 2 && k % 3 == 1 ? 4 : 0;
                for (int o : {0, 1, 2, 3}) ops.push_back(slot + o);
            }
            std::vector<std::pair<int, int>> slots{{0, firsts[i / 2]}};
            if (i % 2) slots.push_back({0, -1});
            history(ops, slots, 100, {"ab"}, 0, 600);
        },
        [](std::size_t i) { return std::to_string(i); });
    add("C16/threads", "threads competing for a channel", 4, 1, th ? 4 : 3,
        [=](std::size_t i) { threads(i / 2 ? 3 : 2, i / 2 ? 1 : 2, i % 2); }, [](std::size_t i) { return std::to_string(i / 2 ? 3 : 2) + " threads"; });
    return out;
}
