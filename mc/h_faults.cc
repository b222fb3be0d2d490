// C28: failures of the operating system. The functions by which the library
// asks the system for files and memory maps are those below; which of the
// calls fail, and how, is a choice of the explorer.
#include "encode.h"
#include "rows.h"

#include <mlio/data_stores/file.h>
#include <set>

#include <mlio/data_reader_error.h>
#include <mlio/image_reader.h>
#include <mlio/instance.h>
#include <mlio/memory/file_backed_memory_allocator.h>
#include <mlio/memory/file_backed_memory_block.h>
#include <mlio/memory/file_mapped_memory_block.h>
#include <mlio/streams/utf8_input_stream.h>

#include "mlio/record_readers/csv_record_reader.h"
#include "mlio/record_readers/recordio_record_reader.h"
#include "mlio/record_readers/text_line_record_reader.h"

#include <cerrno>
#include <cstdarg>
#include <fstream>

#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fts.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <zlib.h>

using namespace mlio;
using namespace sup;

namespace mc {
const char *const harness_name = "faults";
}

// ---------------------------------------------------------- the system

namespace {

struct Sys {
    bool on = false;
    std::string dir;           // the files that are watched are here
    std::set<int> fds;         // descriptors of such files
    std::vector<int> errors;   // of the calls that failed, since the mark
    bool shortened = false;    // a read returned less than it could have
    unsigned temps = 0;
    std::string log;
    std::size_t calls = 0;
} sys;

// Whether the call fails: 0 or the error.
int fault(const char *call, std::initializer_list<int> errs)
{
    ++sys.calls;
    mc::transition();
    std::size_t k = mc::choose(errs.size() + 1);
    if (k == 0) return 0;
    int e = errs.begin()[k - 1];
    sys.errors.push_back(e);
    sys.log += std::string{call} + " fails with " + std::to_string(e) + "; ";
    return e;
}

bool watched(int fd) { return sys.on && sys.fds.count(fd) != 0; }
bool watched(const char *p) { return sys.on && std::string_view{p}.substr(0, sys.dir.size()) == sys.dir; }

template<typename R>
R fail_with(int e, R r)
{
    errno = e;
    return r;
}

const std::string temp_prefix = "/tmp/mlio-";

// Where the temporary files really are.
std::string redirected(const char *p)
{
    std::string s = p;
    if (sys.on && s.compare(0, temp_prefix.size(), temp_prefix) == 0) return sys.dir + "/temp-" + s.substr(temp_prefix.size());
    return s;
}

int make_temp(char *path, int flags)
{
    std::string s = path;
    if (!sys.on || s.compare(0, temp_prefix.size(), temp_prefix) != 0) {
        // A name of our own making.
        for (unsigned i = 0;; ++i) {
            char b[8];
            std::snprintf(b, sizeof b, "%06u", (static_cast<unsigned>(::getpid()) + i) % 1000000);
            std::copy_n(b, 6, path + s.size() - 6);
            int fd = static_cast<int>(::syscall(SYS_openat, AT_FDCWD, path, O_RDWR | O_CREAT | O_EXCL | flags, 0600));
            if (fd != -1 || errno != EEXIST) return fd;
        }
    }
    if (int e = fault("mkstemp", {EMFILE, EACCES})) return fail_with(e, -1);
    char b[8];
    std::snprintf(b, sizeof b, "%06u", sys.temps++ % 1000000);
    std::copy_n(b, 6, path + s.size() - 6);
    int fd = static_cast<int>(::syscall(SYS_openat, AT_FDCWD, redirected(path).c_str(), O_RDWR | O_CREAT | O_EXCL | flags, 0600));
    if (fd != -1) sys.fds.insert(fd);
    return fd;
}

}  // namespace

extern "C" {

int open(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (!watched(path)) return static_cast<int>(::syscall(SYS_openat, AT_FDCWD, path, flags, mode));
    if (int e = fault("open", {ENOENT, EACCES, EMFILE, EIO})) return fail_with(e, -1);
    int fd = static_cast<int>(::syscall(SYS_openat, AT_FDCWD, path, flags, mode));
    if (fd != -1) sys.fds.insert(fd);
    return fd;
}
int open64(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    return open(path, flags, mode);
}
int __open_2(const char *path, int flags) { return open(path, flags, 0); }
int __open64_2(const char *path, int flags) { return open(path, flags, 0); }

ssize_t read(int fd, void *buf, size_t n)
{
    if (watched(fd)) {
        if (int e = fault("read", {EIO})) return fail_with(e, static_cast<ssize_t>(-1));
        if (n > 1 && mc::choose(2) == 1) {
            // Not a failure: fewer bytes than there are.
            sys.shortened = true;
            sys.log += "short read; ";
            n = 1;
        }
    }
    return ::syscall(SYS_read, fd, buf, n);
}
ssize_t __read_chk(int fd, void *buf, size_t n, size_t) { return read(fd, buf, n); }

int close(int fd)
{
    if (sys.on) sys.fds.erase(fd);
    return static_cast<int>(::syscall(SYS_close, fd));
}

off_t lseek(int fd, off_t o, int w)
{
    if (watched(fd))
        if (int e = fault("lseek", {EINVAL})) return fail_with(e, static_cast<off_t>(-1));
    return ::syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }

int fstat(int fd, struct stat *s)
{
    if (watched(fd))
        if (int e = fault("fstat", {EIO})) return fail_with(e, -1);
    return static_cast<int>(::syscall(SYS_fstat, fd, s));
}
int fstat64(int fd, struct stat64 *s) { return fstat(fd, reinterpret_cast<struct stat *>(s)); }

int posix_fadvise(int fd, off_t o, off_t n, int a)
{
    // Only advice.
    if (watched(fd) && mc::choose(2) == 1) {
        sys.log += "fadvise refused; ";
        return ENOSYS;
    }
    return ::syscall(SYS_fadvise64, fd, o, n, a) == 0 ? 0 : errno;
}
int posix_fadvise64(int fd, off64_t o, off64_t n, int a) { return posix_fadvise(fd, o, n, a); }

void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t o)
{
    if (watched(fd))
        if (int e = fault("mmap", {ENOMEM, ENODEV})) return fail_with(e, MAP_FAILED);
    return reinterpret_cast<void *>(::syscall(SYS_mmap, a, n, prot, flags, fd, o));
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t o) { return mmap(a, n, prot, flags, fd, o); }

void *mremap(void *a, size_t o, size_t n, int flags, ...) noexcept
{
    if (sys.on)
        if (int e = fault("mremap", {ENOMEM})) return fail_with(e, MAP_FAILED);
    return reinterpret_cast<void *>(::syscall(SYS_mremap, a, o, n, flags));
}

int ftruncate(int fd, off_t n) noexcept
{
    if (watched(fd))
        if (int e = fault("ftruncate", {EIO, ENOSPC})) return fail_with(e, -1);
    return static_cast<int>(::syscall(SYS_ftruncate, fd, n));
}
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }

int mkstemp(char *p) { return make_temp(p, 0); }
int mkstemp64(char *p) { return make_temp(p, 0); }
int mkostemp(char *p, int flags) { return make_temp(p, flags); }
int mkostemp64(char *p, int flags) { return make_temp(p, flags); }

int unlink(const char *p) noexcept
{
    return static_cast<int>(::syscall(SYS_unlink, redirected(p).c_str()));
}

FTS *fts_open(char *const *paths, int options, int (*compare)(const FTSENT **, const FTSENT **))
{
    static auto real = reinterpret_cast<decltype(&fts_open)>(::dlsym(RTLD_NEXT, "fts_open"));
    if (sys.on)
        if (int e = fault("fts_open", {ENOMEM})) return fail_with(e, static_cast<FTS *>(nullptr));
    return real(paths, options, compare);
}

FTSENT *fts_read(FTS *f)
{
    static auto real = reinterpret_cast<FTSENT *(*)(FTS *)>(::dlsym(RTLD_NEXT, "fts_read"));
    if (sys.on)
        if (int e = fault("fts_read", {ENOMEM})) return fail_with(e, static_cast<FTSENT *>(nullptr));
    FTSENT *r = real(f);
    if (sys.on && r != nullptr && (r->fts_info == FTS_D || r->fts_info == FTS_F)) {
        // What fts reports of an entry that cannot be read.
        if (int e = fault("readdir or stat", {EACCES, EIO})) {
            r->fts_info = r->fts_info == FTS_D ? FTS_DNR : FTS_NS;
            r->fts_errno = e;
            errno = e;
        }
    }
    return r;
}

}  // extern "C"

namespace {

// ------------------------------------------------------------- helpers

void spill(const std::string &path, const std::string &data)
{
    int fd = static_cast<int>(::syscall(SYS_openat, AT_FDCWD, path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600));
    if (fd < 0 || ::write(fd, data.data(), data.size()) != static_cast<ssize_t>(data.size())) std::abort();
    ::syscall(SYS_close, fd);
}

std::string gzip(const std::string &s)
{
    z_stream z{};
    if (deflateInit2(&z, 6, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY) != Z_OK) std::abort();
    std::string o(s.size() + 200, '\0');
    z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(s.data()));
    z.avail_in = static_cast<uInt>(s.size());
    z.next_out = reinterpret_cast<Bytef *>(&o[0]);
    z.avail_out = static_cast<uInt>(o.size());
    if (deflate(&z, Z_FINISH) != Z_STREAM_END) std::abort();
    o.resize(o.size() - z.avail_out);
    deflateEnd(&z);
    return o;
}

// The files of one execution, watched from now on.
struct Watch {
    std::vector<std::string> files;
    Watch()
    {
        sys = Sys{};
        sys.dir = mc::scratch_dir();
    }
    std::string file(const std::string &name, const std::string &data)
    {
        std::string p = sys.dir + "/" + name;
        spill(p, data);
        files.push_back(p);
        return p;
    }
    ~Watch()
    {
        sys.on = false;
        for (auto &f : files) ::unlink(f.c_str());
        // Also what the library may have left.
        for (auto &f : temp_files()) ::unlink(f.c_str());
    }
    std::vector<std::string> temp_files() const
    {
        std::vector<std::string> r;
        if (DIR *d = ::opendir(sys.dir.c_str())) {
            while (auto *e = ::readdir(d))
                if (std::string_view{e->d_name}.substr(0, 5) == "temp-") r.push_back(sys.dir + "/" + e->d_name);
            ::closedir(d);
        }
        return r;
    }
    // Nothing of the watched files is held any longer.
    void nothing_left(const std::string &what)
    {
        bool on = sys.on;
        sys.on = false;
        std::string held;
        DIR *d = ::opendir("/proc/self/fd");
        while (auto *e = ::readdir(d)) {
            char b[512];
            ssize_t n = ::readlinkat(::dirfd(d), e->d_name, b, sizeof b);
            if (n > 0 && std::string_view{b, static_cast<std::size_t>(n)}.substr(0, sys.dir.size() + 1) == sys.dir + "/")
                held += "descriptor of " + std::string{b + sys.dir.size() + 1, static_cast<std::size_t>(n) - sys.dir.size() - 1} + " ";
        }
        ::closedir(d);
        MC_CHECK(held.empty(), "descriptor left open", what + ": " + held + "after " + sys.log);
        std::ifstream maps{"/proc/self/maps"};
        std::string l;
        while (std::getline(maps, l))
            MC_CHECK(l.find(sys.dir + "/") == std::string::npos, "mapping left behind", what + ": " + l.substr(l.find(sys.dir)) + " after " + sys.log);
        auto t = temp_files();
        MC_CHECK(t.empty(), "temporary file left behind", what + ": " + std::to_string(t.size()) + " file(s), after " + sys.log);
        sys.on = on;
    }
};

// Whether the exception tells of the error.
bool tells(const std::exception &e, int err)
{
    if (auto *s = dynamic_cast<const std::system_error *>(&e))
        if (s->code().value() == err) return true;
    if (err == ENOMEM && dynamic_cast<const std::bad_alloc *>(&e)) return true;
    if (dynamic_cast<const Data_reader_error *>(&e)) {
        std::string w = e.what();
        if (err == ENOENT && w.find("does not exist") != std::string::npos) return true;
        if (err == EACCES && w.find("permission") != std::string::npos) return true;
    }
    try {
        std::rethrow_if_nested(e);
    }
    catch (const std::exception &n) {
        return tells(n, err);
    }
    return false;
}

bool tells_any(const std::exception &e)
{
    for (int x : sys.errors)
        if (tells(e, x)) return true;
    return false;
}

std::string utf16(const std::string &s)
{
    std::string o;
    for (char c : s) {
        o += c;
        o += '\0';
    }
    return o;
}

// ------------------------------------------------------------- streams

enum Kind { plain, mapped, gz, gz_mapped, wide, wide_gz, n_kinds };
const char *const kind_names[] = {"file", "mapped file", "gzip file", "mapped gzip file", "UTF-16 file", "UTF-16 gzip file"};
const char *const ops[] = {"read 1", "read 3", "read 100", "slice 2", "slice 100", "seek 0", "seek 2", "size", "position"};
enum { n_ops = 9 };

void streams(int kind, const std::vector<std::size_t> &script)
{
    mlio_verif::inflate_buffer_size = 5;
    mlio_verif::utf8_buffer_size = 8;
    Watch w;
    const std::string data = "abcdefg";
    std::string bytes = kind >= wide ? utf16(data) : data;
    bool is_gz = kind == gz || kind == gz_mapped || kind == wide_gz;
    auto p = w.file("f", is_gz ? gzip(bytes) : bytes);
    {
        File st{p, kind == mapped || kind == gz_mapped, is_gz ? Compression::gzip : Compression::none};
        sys.on = true;
        Intrusive_ptr<Input_stream> s;
        auto attempt = [&](const std::string &name, auto f) {
            sys.errors.clear();
            sys.shortened = false;
            try {
                f();
            }
            catch (const std::system_error &e) {
                MC_CHECK(!sys.errors.empty(), "unexpected error", name + ": " + e.what() + " after " + sys.log);
                MC_CHECK(tells_any(e), "wrong error", name + ": " + e.what() + " after " + sys.log);
                mc::outcome(std::string{kind_names[kind]} + name + e.what());
                return false;
            }
            catch (const std::exception &e) {
                MC_CHECK(!sys.errors.empty() && tells_any(e), "wrong error", name + ": " + e.what() + " after " + sys.log);
                return false;
            }
            MC_CHECK(sys.errors.empty(), "failure not reported", name + ": returned after " + sys.log);
            return true;
        };
        auto open = [&] {
            auto o = st.open_read();
            if (kind >= wide) o = make_utf8_stream(std::move(o), Text_encoding::utf16_le);
            s = std::move(o);
        };
        for (int k = 0; s == nullptr && k < 4; ++k)
            if (!attempt("open", open)) w.nothing_left("after a failed open_read");
        std::size_t pos = 0;
        bool seekable = s->seekable();
        for (std::size_t i : script) {
            std::string op = ops[i];
            if (i >= 5 && !seekable) continue;
            auto got = [&](const std::string &g, std::size_t want) {
                std::size_t n = std::min(want, data.size() - pos);
                MC_CHECK(data.compare(pos, g.size(), g) == 0 && g.size() <= n && (!g.empty() || n == 0), "wrong data",
                         op + " at " + std::to_string(pos) + " returned '" + g + "' after " + sys.log);
                pos += g.size();
            };
            attempt(op, [&] {
                switch (i) {
                case 0: case 1: case 2: {
                    std::size_t n = i == 0 ? 1 : i == 1 ? 3 : 100;
                    std::vector<std::byte> b(n);
                    std::size_t r = s->read(b);
                    MC_CHECK(r <= n, "wrong data", op);
                    got(std::string{reinterpret_cast<char *>(b.data()), r}, n);
                    break;
                }
                case 3: case 4: {
                    std::size_t n = i == 3 ? 2 : 100;
                    auto r = s->read(n);
                    got(str(r), n);
                    break;
                }
                case 5: case 6:
                    s->seek(i == 5 ? 0 : 2);
                    pos = i == 5 ? 0 : 2;
                    break;
                case 7: {
                    std::size_t r = s->size();
                    MC_CHECK(r == data.size(), "wrong size", std::to_string(r));
                    break;
                }
                case 8: {
                    std::size_t r = s->position();
                    MC_CHECK(r == pos, "wrong position", std::to_string(r) + " instead of " + std::to_string(pos) + " after " + sys.log);
                }
                }
            });
        }
        // What is left can be read, if need be in more than one attempt.
        bool end = false;
        for (int k = 0; !end && k < 40; ++k)
            attempt("the rest", [&] {
                std::vector<std::byte> b(3);
                std::size_t r = s->read(b);
                std::string g(reinterpret_cast<char *>(b.data()), r);
                MC_CHECK(data.compare(pos, r, g) == 0, "wrong data",
                         "after a failure the stream continues at another place: '" + g + "' instead of '" + data.substr(pos) + "' after " + sys.log);
                pos += r;
                end = r == 0;
            });
        MC_CHECK(end && pos == data.size(), "data missing", "the stream ends at " + std::to_string(pos) + " after " + sys.log);
        mc::state(mc::hash(std::string{kind_names[kind]} + sys.log));
        if (script.size() > 1) mc::nontrivial();
        if (!sys.log.empty()) mc::sample(std::string{kind_names[kind]} + ": " + sys.log);
    }
    w.nothing_left("after the stream is gone");
    mc::traces();
}

// ------------------------------------------------------------- readers

struct Format {
    const char *name;
    std::vector<std::string> files;
    std::function<Intrusive_ptr<Data_reader>(Data_reader_params)> make;
};

const std::vector<Format> &formats()
{
    static std::vector<Format> f = [] {
        std::vector<Format> r;
        r.push_back({"text lines", {"a\nbb\nccc\n", "d\n"}, [](Data_reader_params p) { return make_intrusive<Text_line_reader>(p); }});
        r.push_back({"CSV", {"x,y\n1,2\n3,4\n", "x,y\n5,6\n7,8\n"}, [](Data_reader_params p) {
                         Csv_params c{};
                         c.default_data_type = Data_type::int64;
                         return make_intrusive<Csv_reader>(p, c);
                     }});
        auto rec = [](double a, double b) {
            enc::Value v;
            v.kind = enc::Kind::f32;
            v.values = {a, b};
            return enc::record(enc::Message{{{false, "values", v}}}.encode());
        };
        r.push_back({"RecordIO", {rec(1, 2) + rec(3, 4), rec(5, 6)}, [](Data_reader_params p) { return make_intrusive<Recordio_protobuf_reader>(p); }});
        r.push_back({"CSV in UTF-16", {utf16("x,y\n1,2\n3,4\n"), utf16("x,y\n5,6\n")}, [](Data_reader_params p) {
                         Csv_params c{};
                         c.default_data_type = Data_type::int64;
                         c.encoding = Text_encoding::utf16_le;
                         return make_intrusive<Csv_reader>(p, c);
                     }});
        r.push_back({"images", {"P5\n2 1\n255\n\x01\x02", "P5\n2 1\n255\n\x03\x04", "P5\n2 1\n255\n\x05\x06"}, [](Data_reader_params p) {
                         Image_reader_params i{};
                         i.image_dimensions = {1, 1, 2};
                         return make_intrusive<Image_reader>(p, i);
                     }});
        return r;
    }();
    return f;
}

struct Read_outcome {
    std::vector<std::string> examples;
    bool failed = false;
};

enum Selection { all, skip_one, second_shard, sampled, shuffled, n_selections };
const char *const selection_names[] = {"all", "one skipped", "second of two shards", "sampled", "shuffled"};

void readers(std::size_t format, int kind, std::size_t batch, int selection, const std::string &script)
{
    mlio_verif::inflate_buffer_size = 16;
    mlio_verif::chunk_size = 16;
    mlio_verif::utf8_buffer_size = 8;
    mlio_verif::instance_buffer_size = 8;
    auto &f = formats()[format];
    Watch w;
    std::vector<std::string> want;
    bool is_gz = kind == gz || kind == gz_mapped;
    {
        std::vector<Intrusive_ptr<Data_store>> ds;
        for (std::size_t i = 0; i < f.files.size(); ++i)
            ds.push_back(make_intrusive<File>(w.file("f" + std::to_string(i), is_gz ? gzip(f.files[i]) : f.files[i]), kind == mapped || kind == gz_mapped,
                                              is_gz ? Compression::gzip : Compression::none));
        Data_reader_params p{};
        p.dataset = ds;
        p.batch_size = batch;
        p.num_prefetched_examples = 1;
        if (selection == skip_one) p.num_instances_to_skip = 1;
        if (selection == second_shard) {
            p.num_shards = 2;
            p.shard_index = 1;
        }
        if (selection == sampled) p.sample_ratio = 0.5F;
        if (selection == shuffled) {
            p.shuffle_instances = true;
            p.shuffle_window = 2;
            p.shuffle_seed = 7;
            p.reshuffle_each_epoch = false;
        }
        auto text = [](const Example &e) {
            std::string s;
            for (auto &r : rows(e)) s += r + "|";
            return s;
        };
        {
            auto r = f.make(p);
            while (auto e = r->read_example()) want.push_back(text(*e));
        }
        w.nothing_left("without any failure");
        sys.on = true;
        auto r = f.make(p);
        std::size_t pos = 0;
        bool failed = false;
        auto guarded = [&](const std::string &name, auto g) {
            try {
                g();
                return true;
            }
            catch (const Data_reader_error &e) {
                MC_CHECK(tells_any(e), "wrong error", name + ": " + e.what() + " after " + sys.log);
            }
            catch (const std::bad_alloc &e) {
                MC_CHECK(tells_any(e), "wrong error", name + ": " + e.what() + " after " + sys.log);
            }
            catch (const std::system_error &e) {
                MC_CHECK(tells_any(e), "wrong error", name + ": " + e.what() + " after " + sys.log);
            }
            catch (const std::exception &e) {
                mc::fail("wrong type of error", name + ": " + std::string{typeid(e).name()} + " " + e.what() + " after " + sys.log);
            }
            failed = true;
            return false;
        };
        for (char op : script) {
            if (op == 'S') {
                // An error lasts until the reader is reset.
                bool was = failed;
                guarded("read_schema", [&] {
                    r->read_schema();
                    MC_CHECK(!was || pos > 0, "schema after an error", sys.log);
                });
            }
            else if (op == 'R') {
                r->reset();
                pos = 0;
                failed = false;
                sys.errors.clear();
            }
            else {
                // Until the end or the error.
                for (bool more = true; more;) {
                    Intrusive_ptr<Example> e;
                    bool was = failed;
                    more = guarded("read_example", [&] {
                        e = r->read_example();
                        MC_CHECK(!was, "data after an error", "read_example() returns after an error");
                    });
                    if (!more) break;
                    if (e == nullptr) {
                        MC_CHECK(sys.errors.empty(), "failure not reported", "the data end after " + sys.log);
                        MC_CHECK(pos == want.size(), "data missing", "the data end after " + std::to_string(pos) + " of " + std::to_string(want.size()) + " examples; " + sys.log);
                        break;
                    }
                    MC_CHECK(pos < want.size() && text(*e) == want[pos], "wrong example",
                             text(*e) + " instead of " + (pos < want.size() ? want[pos] : "the end") + " after " + sys.log);
                    ++pos;
                }
            }
        }
        mc::outcome(std::string{f.name} + std::to_string(kind) + sys.log + std::to_string(pos));
        mc::state(mc::hash(std::string{f.name} + std::to_string(kind) + sys.log));
        mc::nontrivial();
        r = nullptr;
    }
    w.nothing_left("after the reader is gone");
    mc::traces();
}

// ------------------------------------------------------------- records

const char *const record_names[] = {"text lines", "CSV records", "RecordIO records"};

void records(int format, int kind, std::size_t chunk, std::size_t peek)
{
    mlio_verif::inflate_buffer_size = 7;
    mlio_verif::chunk_size = chunk;
    Watch w;
    std::string data;
    std::vector<std::string> want;
    for (std::string r : {"a", "bcd", "efghij", "kl"}) {
        want.push_back(r);
        data += format == 2 ? enc::record(r) : r + "\n";
    }
    bool is_gz = kind == gz || kind == gz_mapped;
    auto p = w.file("f", is_gz ? gzip(data) : data);
    {
        File st{p, kind == mapped || kind == gz_mapped, is_gz ? Compression::gzip : Compression::none};
        sys.on = true;
        Intrusive_ptr<Record_reader> r;
        std::size_t pos = 0;
        bool end = false;
        Csv_params params{};
        for (int k = 0; !end && k < 30; ++k) {
            // The records before a failed read may still be returned, so
            // the failure may be one of an earlier call.
            try {
                if (r == nullptr) {
                    auto s = st.open_read();
                    if (format == 0) r = make_intrusive<detail::Text_line_record_reader>(std::move(s), false);
                    else if (format == 1) r = make_intrusive<detail::Csv_record_reader>(std::move(s), params);
                    else r = make_intrusive<detail::Recordio_record_reader>(std::move(s));
                }
                if (peek == 1 || peek == pos) {
                    auto x = r->peek_record();
                    MC_CHECK(x.has_value() == (pos < want.size()) && (!x || str(x->payload()) == want[pos]), "wrong record",
                             "peek: '" + (x ? str(x->payload()) : "end") + "' at " + std::to_string(pos) + " after " + sys.log);
                }
                auto x = r->read_record();
                end = !x;
                MC_CHECK(x.has_value() == (pos < want.size()) && (!x || str(x->payload()) == want[pos]), "wrong record",
                         "'" + (x ? str(x->payload()) : "end") + "' at " + std::to_string(pos) + " after " + sys.log);
                ++pos;
            }
            catch (const std::exception &e) {
                MC_CHECK(tells_any(e), "wrong error", std::string{e.what()} + " after " + sys.log);
                if (r == nullptr) w.nothing_left("after a failed open");
            }
        }
        MC_CHECK(end, "no end", sys.log);
        mc::outcome(std::to_string(format) + std::to_string(kind) + sys.log);
        mc::state(mc::hash(std::to_string(format) + std::to_string(kind) + std::to_string(chunk) + sys.log));
        mc::nontrivial();
    }
    w.nothing_left("after the record reader is gone");
    mc::traces();
}

// --------------------------------------------------------- whole stores

void instances(int kind, std::size_t size)
{
    mlio_verif::instance_buffer_size = 4;
    mlio_verif::inflate_buffer_size = 5;
    Watch w;
    bool is_gz = kind == gz || kind == gz_mapped;
    std::string data = std::string{"abcdefghijklmnop"}.substr(0, size);
    auto p = w.file("f", is_gz ? gzip(data) : data);
    {
        File st{p, kind == mapped || kind == gz_mapped, is_gz ? Compression::gzip : Compression::none};
        sys.on = true;
        Instance in{st};
        for (int k = 0; k < 4; ++k) {
            sys.errors.clear();
            try {
                auto &b = in.bits();
                MC_CHECK(str(b) == data, "wrong data", mc::quote(str(b)) + " instead of " + mc::quote(data) + " after " + sys.log);
                MC_CHECK(sys.errors.empty(), "failure not reported", sys.log);
                mc::outcome(data + sys.log);
                break;
            }
            catch (const std::exception &e) {
                MC_CHECK(tells_any(e), "wrong error", std::string{e.what()} + " after " + sys.log);
                w.nothing_left("after an instance could not be read");
                mc::outcome(e.what());
            }
        }
        mc::state(mc::hash(std::to_string(kind) + data + sys.log));
        mc::nontrivial();
    }
    w.nothing_left("after the instance is gone");
    mc::traces();
}

// --------------------------------------------------------------- blocks

const std::size_t sizes[] = {0, 1, 4096, 9000};

void blocks(int kind, const std::vector<std::size_t> &script)
{
    Watch w;
    {
        sys.on = true;
        Intrusive_ptr<Mutable_memory_block> b;
        std::string model;
        unsigned char next = 1;
        auto verify = [&](const std::string &what) {
            MC_CHECK(b->size() == model.size(), "wrong size", what + ": " + std::to_string(b->size()) + " instead of " + std::to_string(model.size()) + " after " + sys.log);
            for (std::size_t i = 0; i < model.size(); ++i)
                MC_CHECK(b->data()[i] == static_cast<std::byte>(model[i]), "block changed", what + ": byte " + std::to_string(i) + " after " + sys.log);
        };
        auto fill = [&](std::size_t from) {
            for (std::size_t i = from; i < model.size(); ++i) {
                model[i] = static_cast<char>(next++ % 250 + 1);
                b->data()[i] = static_cast<std::byte>(model[i]);
            }
        };
        for (std::size_t k : script) {
            std::size_t size = sizes[k];
            // Twice: what failed can be done again.
            for (int attempt = 0; attempt < 3; ++attempt) {
                sys.errors.clear();
                bool first = b == nullptr;
                try {
                    if (first) {
                        if (kind == 0) b = make_intrusive<File_backed_memory_block>(size);
                        else b = File_backed_memory_allocator{100}.allocate(size);
                    }
                    else b->resize(size);
                }
                catch (const std::exception &e) {
                    MC_CHECK(tells_any(e), "wrong error", std::string{e.what()} + " after " + sys.log);
                    if (first) w.nothing_left("after a failed allocation");
                    else verify("after a failed resize");
                    continue;
                }
                // A failure that does not keep the block from being as
                // requested need not be reported.
                std::size_t old = first ? 0 : model.size();
                model.resize(size);
                if (first) fill(0);
                else {
                    std::string keep = model.substr(0, std::min(old, size));
                    for (std::size_t i = 0; i < keep.size(); ++i)
                        MC_CHECK(b->data()[i] == static_cast<std::byte>(keep[i]), "data lost by resizing", "byte " + std::to_string(i) + " after " + sys.log);
                    fill(std::min(old, size));
                }
                break;
            }
            if (b == nullptr) continue;
            verify("after an operation");
            fill(0);
        }
        mc::outcome(std::to_string(kind) + sys.log + std::to_string(model.size()));
        mc::state(mc::hash(std::to_string(kind) + sys.log + std::to_string(model.size())));
        mc::nontrivial();
    }
    w.nothing_left("after the block is gone");
    mc::traces();
}

// ---------------------------------------------------------------- lists

void lists(std::size_t shape)
{
    Watch w;
    std::string d = sys.dir + "/tree";
    ::mkdir(d.c_str(), 0700);
    std::vector<std::string> made, dirs{d};
    auto file = [&](const std::string &n) {
        spill(d + "/" + n, "x");
        made.push_back(d + "/" + n);
    };
    auto dir = [&](const std::string &n) {
        ::mkdir((d + "/" + n).c_str(), 0700);
        dirs.push_back(d + "/" + n);
    };
    struct Clean {
        std::vector<std::string> &f, &d;
        ~Clean()
        {
            sys.on = false;
            for (auto &x : f) ::unlink(x.c_str());
            for (auto x = d.rbegin(); x != d.rend(); ++x) ::rmdir(x->c_str());
        }
    } clean{made, dirs};
    if (shape & 1) file("a");
    if (shape & 2) file("b");
    if (shape & 4) {
        dir("c");
        file("c/d");
    }
    if (shape & 8) dir("e");
    sys.on = true;
    try {
        auto r = list_files(d);
        MC_CHECK(sys.errors.empty(), "failure not reported", std::to_string(r.size()) + " files listed after " + sys.log);
        std::size_t n = 0;
        for (auto &m : made) n += r.size() > n && r[n]->id() == m;
        MC_CHECK(r.size() == made.size() && n == made.size(), "wrong list", std::to_string(r.size()) + " of " + std::to_string(made.size()));
    }
    catch (const std::system_error &e) {
        MC_CHECK(tells_any(e), "wrong error", std::string{e.what()} + " after " + sys.log);
        mc::outcome(e.what());
    }
    catch (const std::exception &e) {
        mc::fail("wrong type of error", e.what());
    }
    mc::state(mc::hash(std::to_string(shape) + sys.log));
    mc::nontrivial();
    mc::traces();
    w.nothing_left("after listing");
}

}  // namespace

std::vector<mc::Suite> mc::make_suites(Tier t)
{
    mc::on_start([] { mlio::initialize(); });
    bool th = t == Tier::thorough;
    std::vector<Suite> r;
    auto add = [&](std::string name, std::string what, std::size_t n, std::function<void(std::size_t)> run, int bound, std::function<std::string(std::size_t)> describe) {
        Suite s;
        s.name = std::move(name);
        s.what = std::move(what);
        s.ncases = n;
        s.run = std::move(run);
        s.bound = [bound](std::size_t) { return bound; };
        s.describe = std::move(describe);
        r.push_back(std::move(s));
    };
    {
        std::size_t depth = th ? 4 : 3, n = 1;
        for (std::size_t i = 0; i < depth; ++i) n *= n_ops;
        auto script = [depth](std::size_t i) {
            std::vector<std::size_t> s;
            for (std::size_t k = 0; k < depth; ++k, i /= n_ops) s.push_back(i % n_ops);
            return s;
        };
        add("C28/streams", "operations on streams of files, each call of the system failing in turn", n * n_kinds,
            [=](std::size_t i) { streams(static_cast<int>(i / n), script(i % n)); }, th ? 2 : 1,
            [=](std::size_t i) {
                std::string d = kind_names[i / n];
                for (auto o : script(i % n)) d += std::string{", "} + ops[o];
                return d;
            });
    }
    {
        static const std::vector<std::string> scripts{"d", "Sd", "dd", "dRd", "SdRd", "dRSd"};
        std::size_t nf = formats().size();
        add("C28/readers", "readers over files, each call of the system failing in turn", nf * 4 * 3 * n_selections * scripts.size(),
            [=](std::size_t i) {
                std::size_t s = i % scripts.size(), j = i / scripts.size();
                readers(j / 12 / n_selections, static_cast<int>(j % 4), j / 4 % 3 + 1, static_cast<int>(j / 12 % n_selections), scripts[s]);
            },
            th ? 2 : 1,
            [=](std::size_t i) {
                std::size_t j = i / scripts.size();
                return std::string{formats()[j / 12 / n_selections].name} + ", " + kind_names[j % 4] + ", batches of " + std::to_string(j / 4 % 3 + 1) +
                       ", " + selection_names[j / 12 % n_selections] + ", " + scripts[i % scripts.size()];
            });
    }
    {
        static const std::size_t chunks[] = {1, 4, 8, 16, 64};
        add("C28/records", "records of files, each call of the system failing in turn", 3 * 4 * 5 * 4,
            [](std::size_t i) { records(static_cast<int>(i % 3), static_cast<int>(i / 3 % 4), chunks[i / 12 % 5], i / 60); }, th ? 3 : 2,
            [](std::size_t i) {
                return std::string{record_names[i % 3]} + ", " + kind_names[i / 3 % 4] + ", chunks of " + std::to_string(chunks[i / 12 % 5]) + ", peek " +
                       std::to_string(i / 60);
            });
    }
    add("C28/instances", "whole files as instances, each call of the system failing in turn", 4 * 17,
        [](std::size_t i) { instances(static_cast<int>(i % 4), i / 4); }, th ? 3 : 2,
        [](std::size_t i) { return std::string{kind_names[i % 4]} + " of " + std::to_string(i / 4) + " bytes"; });
    {
        std::size_t depth = th ? 5 : 4, n = 1;
        for (std::size_t i = 0; i < depth; ++i) n *= 4;
        auto script = [depth](std::size_t i) {
            std::vector<std::size_t> s;
            for (std::size_t k = 0; k < depth; ++k, i /= 4) s.push_back(i % 4);
            return s;
        };
        add("C28/blocks", "sizes of file-backed memory blocks, each call of the system failing in turn", n * 2,
            [=](std::size_t i) { blocks(static_cast<int>(i / n), script(i % n)); }, th ? 3 : 2,
            [=](std::size_t i) {
                std::string d = i / n ? "of the allocator:" : "of its own:";
                for (auto o : script(i % n)) d += " " + std::to_string(sizes[o]);
                return d;
            });
    }
    add("C28/lists", "directory trees, each call of the system failing in turn", 16, [](std::size_t i) { lists(i); }, th ? 2 : 1,
        [](std::size_t i) { return "tree " + std::to_string(i); });
    return r;
}
