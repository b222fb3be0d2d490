// C18: listing of files, against a reference traversal of the same tree.
#include "support.h"

#include <mlio/data_stores/compression.h>
#include <mlio/data_stores/file.h>

#include <algorithm>
#include <cerrno>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>

#include <fnmatch.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

#include <strnatcmp.h>

using namespace mlio;
using namespace sup;
namespace fs = std::filesystem;

namespace mc {
const char *const harness_name = "files";
}

namespace {

// A directory of its own for each worker process.
const std::string &scratch()
{
    static const std::string dir = mc::scratch_dir();
    return dir;
}

// ------------------------------------------------- natural order, by definition

// Spaces do not count. Runs of digits compare as numbers, but runs of
// which one starts with a zero compare digit by digit, like fractions.
// Names that do not differ otherwise are ordered by their bytes.
struct Token {
    bool number;
    std::string text;
};

std::vector<Token> tokens(const std::string &s)
{
    std::vector<Token> r;
    for (std::size_t i = 0; i < s.size();) {
        if (std::isspace(static_cast<unsigned char>(s[i]))) {
            ++i;
            continue;
        }
        if (std::isdigit(static_cast<unsigned char>(s[i]))) {
            std::size_t j = i;
            while (j < s.size() && std::isdigit(static_cast<unsigned char>(s[j]))) ++j;
            r.push_back({true, s.substr(i, j - i)});
            i = j;
        }
        else r.push_back({false, s.substr(i++, 1)});
    }
    return r;
}

int natural(const std::string &a, const std::string &b)
{
    auto x = tokens(a), y = tokens(b);
    for (std::size_t i = 0; i < x.size() || i < y.size(); ++i) {
        if (i >= x.size()) return -1;
        if (i >= y.size()) return 1;
        if (x[i].number && y[i].number) {
            auto &p = x[i].text, &q = y[i].text;
            if (p == q) continue;
            if (p[0] == '0' || q[0] == '0') return p < q ? -1 : 1;
            if (p.size() != q.size()) return p.size() < q.size() ? -1 : 1;
            return p < q ? -1 : 1;
        }
        if (x[i].text[0] != y[i].text[0]) return x[i].text[0] < y[i].text[0] ? -1 : 1;
    }
    return 0;
}

bool natural_less(const std::string &a, const std::string &b)
{
    int c = natural(a, b);
    return c != 0 ? c < 0 : a < b;
}

// ------------------------------------------------------------------ trees

struct Node {
    std::string path;                                   // relative
    enum Kind { file, dir, link, fifo } kind;
    std::string target;                                 // of a link
};

void make_tree(const std::string &root, const std::vector<Node> &nodes)
{
    std::error_code e;
    fs::remove_all(root, e);
    ::mkdir(root.c_str(), 0755);
    for (auto &n : nodes) {
        std::string p = root + "/" + n.path;
        switch (n.kind) {
        case Node::file: std::ofstream{p} << n.path; break;
        case Node::dir: ::mkdir(p.c_str(), 0755); break;
        case Node::link:
            if (::symlink(n.target.c_str(), p.c_str()) != 0) ::abort();
            break;
        case Node::fifo:
            if (::mkfifo(p.c_str(), 0600) != 0) ::abort();
            break;
        }
    }
}

// The reference: a plain recursive traversal.
struct Listing {
    std::vector<std::string> files;
    bool error = false;
};

void walk(const std::string &path, std::vector<std::pair<dev_t, ino_t>> &above, Listing &l, bool root)
{
    struct stat st {};
    if (::stat(path.c_str(), &st) != 0) {
        struct stat ls {};
        // A link to nowhere is not a file.
        if (!root && ::lstat(path.c_str(), &ls) == 0 && S_ISLNK(ls.st_mode)) return;
        if (root && ::lstat(path.c_str(), &ls) == 0 && S_ISLNK(ls.st_mode)) return;
        l.error = true;
        return;
    }
    if (S_ISREG(st.st_mode)) {
        l.files.push_back(path);
        return;
    }
    if (!S_ISDIR(st.st_mode)) return;
    std::pair<dev_t, ino_t> id{st.st_dev, st.st_ino};
    if (std::find(above.begin(), above.end(), id) != above.end()) return;  // a cycle
    above.push_back(id);
    std::vector<std::string> names;
    try {
        for (auto &e : fs::directory_iterator{path}) names.push_back(e.path().filename().string());
    }
    catch (const fs::filesystem_error &) {
        l.error = true;
    }
    std::sort(names.begin(), names.end(), natural_less);
    for (auto &n : names) walk((path.back() == '/' ? path : path + "/") + n, above, l, false);
    above.pop_back();
}

Listing reference(std::vector<std::string> roots, const std::string &pattern, const std::function<bool(const std::string &)> &pred)
{
    Listing l;
    for (auto &r : roots) {
        std::vector<std::pair<dev_t, ino_t>> above;
        walk(r, above, l, true);
    }
    std::vector<std::string> kept;
    for (auto &f : l.files)
        if ((pattern.empty() || ::fnmatch(pattern.c_str(), f.c_str(), 0) == 0) && (!pred || pred(f))) kept.push_back(f);
    l.files = kept;
    return l;
}

std::string show(const std::vector<std::string> &v)
{
    std::string s;
    for (auto f : v) {
        if (f.compare(0, scratch().size(), scratch()) == 0) f = f.substr(scratch().size());
        s += mc::quote(f) + " ";
    }
    return s;
}

void compare(const std::vector<std::string> &roots, const std::string &pattern, const std::function<bool(const std::string &)> &pred, int stale_errno,
             bool single)
{
    Listing want = reference(roots, pattern, pred);
    std::vector<std::string> got;
    bool error = false;
    std::string what;
    try {
        errno = stale_errno;
        std::vector<Intrusive_ptr<Data_store>> r;
        if (single) r = list_files(roots.at(0), pattern);
        else {
            File_list_options o;
            o.pattern = pattern;
            File_list_options::Predicate_callback cb = [&](const std::string &s) {
                bool k = pred(s);
                errno = stale_errno;
                return k;
            };
            if (pred) o.predicate = &cb;
            r = list_files(roots, o);
        }
        for (auto &s : r) got.push_back(s->id());
    }
    catch (const std::system_error &e) {
        error = true;
        what = e.what();
    }
    mc::traces();
    mc::transition();
    mc::state(mc::hash(pattern + show(roots) + show(want.files)));
    std::string ctx = "roots " + show(roots) + "pattern " + mc::quote(pattern);
    if (want.error) {
        MC_CHECK(error, "an unreadable path is not reported", ctx + " got " + show(got));
        mc::outcome("error");
        return;
    }
    MC_CHECK(!error, "error although everything is readable", ctx + " " + what);
    if (roots.size() == 1) MC_CHECK(got == want.files, "wrong list", ctx + " got " + show(got) + "instead of " + show(want.files));
    else {
        // The order of the paths among each other is left open, but the
        // files of a path are together and in order.
        auto a = got, b = want.files;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        MC_CHECK(a == b, "wrong files", ctx + " got " + show(got) + "instead of " + show(want.files));
        for (auto &r : roots) {
            std::vector<std::string> x, y;
            for (auto &f : got) if (f == r || f.compare(0, r.size() + 1, r + "/") == 0) x.push_back(f);
            Listing one = reference({r}, pattern, pred);
            std::size_t n = static_cast<std::size_t>(std::count(roots.begin(), roots.end(), r));
            for (std::size_t k = 0; k < n; ++k) y.insert(y.end(), one.files.begin(), one.files.end());
            bool nested = false;
            for (auto &q : roots) nested |= q != r && (q.compare(0, r.size() + 1, r + "/") == 0 || r.compare(0, q.size() + 1, q + "/") == 0);
            if (!nested) MC_CHECK(x == y, "wrong order", ctx + " got " + show(got));
        }
    }
    mc::outcome(show(got));
}

// ----------------------------------------------------------------- suites

const std::vector<std::string> names{"1", "2", "10", "01", "010", "a", "a1", "a2", "a10", "a01", "b", "a b", "ab", "a 1", "1a", "10a", "B", "a1b2", "a1b10", "x.csv", "x2.csv", ".h", "a-1", "a_1", "0", "00"};

// Each order of creation of a set of names gives the same list.
void orders(std::size_t i, std::size_t k)
{
    std::vector<std::size_t> pick;
    for (std::size_t j = 0; j < k; ++j, i /= names.size()) pick.push_back(i % names.size());
    for (std::size_t j = 1; j < k; ++j) if (pick[j] <= pick[j - 1]) return;
    std::string first;
    do {
        std::vector<Node> nodes;
        for (auto p : pick) nodes.push_back({names[p], Node::file, ""});
        std::string root = scratch() + "/t";
        make_tree(root, nodes);
        compare({root}, "", {}, 0, true);
    } while (std::next_permutation(pick.begin(), pick.end()));
}

// All trees: each of the places holds nothing, a file, a directory, ...
struct Place {
    std::string path;
    std::vector<Node> choices;
};

std::vector<Place> places()
{
    return {
        {"a", {{"a", Node::file, ""}, {"a", Node::dir, ""}, {"a", Node::link, "d2"}, {"a", Node::link, "nowhere"}, {"a", Node::fifo, ""}}},
        {"d2", {{"d2", Node::dir, ""}, {"d2", Node::file, ""}}},
        {"d2/f10", {{"d2/f10", Node::file, ""}, {"d2/f10", Node::dir, ""}, {"d2/f10", Node::link, ".."}, {"d2/f10", Node::link, "../d10"}}},
        {"d2/f9", {{"d2/f9", Node::file, ""}, {"d2/f9", Node::link, "f10"}}},
        {"d10", {{"d10", Node::dir, ""}, {"d10", Node::link, "d2/f9"}}},
        {"d10/x.csv", {{"d10/x.csv", Node::file, ""}, {"d10/x.csv", Node::link, "../d2"}}},
        {"d10/y", {{"d10/y", Node::dir, ""}}},
        {"d10/y/z.csv", {{"d10/y/z.csv", Node::file, ""}}},
    };
}

std::size_t tree_count()
{
    std::size_t n = 1;
    for (auto &p : places()) n *= p.choices.size() + 1;
    return n;
}

void tree(std::size_t i)
{
    std::vector<Node> nodes;
    std::set<std::string> dirs;
    for (auto &p : places()) {
        std::size_t k = i % (p.choices.size() + 1);
        i /= p.choices.size() + 1;
        if (k == 0) continue;
        auto n = p.choices[k - 1];
        auto slash = n.path.rfind('/');
        if (slash != std::string::npos && !dirs.count(n.path.substr(0, slash))) return;
        if (n.kind == Node::dir) dirs.insert(n.path);
        nodes.push_back(n);
    }
    std::string root = scratch() + "/t";
    make_tree(root, nodes);
    static const std::vector<std::string> patterns{"", "*.csv", "*/d10/*", "*f?", "*[0-9]", "nothing"};
    for (auto &p : patterns) compare({root}, p, {}, 0, true);
    std::function<bool(const std::string &)> pred = [](const std::string &s) { return s.find("f9") == std::string::npos; };
    compare({root}, "", pred, 0, false);
    compare({root}, "*[0-9]", pred, ENOENT, false);
    compare({root + "/d2", root + "/d10"}, "", {}, 0, false);
    compare({root + "/d10", root + "/d2", root + "/a"}, "*", {}, EINTR, false);
    compare({root + "/d2", root + "/d2"}, "", {}, 0, false);
    compare({root, root + "/d2"}, "", {}, 0, false);
    compare({root + "/d2/"}, "", {}, 0, true);
    compare({}, "", {}, ENOENT, false);
    mc::nontrivial();
}

// Unreadable places: as a user that has no special rights.
void unreadable(std::size_t i)
{
    std::string root = scratch() + "/u";
    std::error_code e;
    // Directories without rights are made accessible before they go.
    for (auto d : {"/d", "/d/e"}) ::chmod((root + d).c_str(), 0755);
    make_tree(root, {{"a", Node::file, ""}, {"d", Node::dir, ""}, {"d/e", Node::dir, ""}, {"d/e/f", Node::file, ""}, {"z", Node::file, ""}, {"l", Node::link, "d/e/f"}});
    static const mode_t modes[] = {0755, 0000, 0444, 0111, 0311, 0555};
    mode_t md = modes[i % 6], me = modes[i / 6 % 6];
    ::chmod((root + "/d/e").c_str(), me);
    ::chmod((root + "/d").c_str(), md);
    int pipefd[2];
    if (::pipe(pipefd) != 0) ::abort();
    pid_t pid = ::fork();
    if (pid == 0) {
        // The child decides alone and reports in words.
        ::close(pipefd[0]);
        std::string msg;
        if (::setgid(65534) != 0 || ::setuid(65534) != 0) msg = "cannot change the user";
        else {
            for (auto r : {root, root + "/d", root + "/d/e", root + "/d/e/f", root + "/missing"}) {
                Listing want = reference({r}, "", {});
                std::vector<std::string> got;
                bool error = false;
                try {
                    for (auto &s : list_files(r)) got.push_back(s->id());
                }
                catch (const std::system_error &) {
                    error = true;
                }
                if (error != want.error) msg = (error ? "error although everything is readable: " : "an unreadable path is not reported: ") + show({r});
                else if (!error && got != want.files) msg = "wrong list: " + show(got);
                if (!msg.empty()) break;
            }
        }
        ssize_t w = ::write(pipefd[1], msg.data(), msg.size());
        (void)w;
        ::_exit(0);
    }
    ::close(pipefd[1]);
    std::string msg;
    char buf[512];
    ssize_t n;
    while ((n = ::read(pipefd[0], buf, sizeof buf)) > 0) msg.append(buf, static_cast<std::size_t>(n));
    ::close(pipefd[0]);
    int status = 0;
    ::waitpid(pid, &status, 0);
    ::chmod((root + "/d").c_str(), 0755);
    ::chmod((root + "/d/e").c_str(), 0755);
    fs::remove_all(root, e);
    MC_CHECK(status == 0, "listing crashed", std::to_string(status));
    MC_CHECK(msg.empty(), msg.substr(0, msg.find(':')), msg);
    mc::traces();
    mc::outcome(std::to_string(i));
    mc::nontrivial();
}

// The order of all pairs and triples of short names.
std::vector<std::string> short_names(std::size_t len)
{
    Words w{{"0", "1", "9", "a", "b", "-", " ", "."}, len};
    std::vector<std::string> r;
    for (std::size_t i = 0; i < w.count(); ++i) r.push_back(w.word(i));
    return r;
}

int sign(int x) { return (x > 0) - (x < 0); }

void pairs(const std::vector<std::string> &v, std::size_t i)
{
    for (std::size_t j = 0; j < v.size(); ++j) {
        int got = sign(::strnatcmp(v[i].c_str(), v[j].c_str()));
        int want = natural(v[i], v[j]);
        MC_CHECK(got == want, "wrong order of names", mc::quote(v[i]) + " and " + mc::quote(v[j]) + ": " + std::to_string(got));
    }
    mc::evaluations(v.size());
    mc::state(mc::hash(v[i]));
    mc::transition(v.size());
    mc::traces(v.size());
}

// The properties of what is listed.
void stores(std::size_t i)
{
    static const std::vector<std::pair<std::string, bool>> v{{"x.gz", true}, {"x", false}, {"x.GZ", false}, {"gz", false}, {".gz", true}, {"x.gz.txt", false}, {"x.gzip", false}};
    auto &n = v[i % v.size()];
    int mode = static_cast<int>(i / v.size());
    std::string root = scratch() + "/s";
    make_tree(root, {});
    std::string text = "one\ntwo\n";
    std::string body = text;
    {
        std::ofstream o{root + "/" + n.first, std::ios::binary};
        o << body;
    }
    File_list_options o;
    o.memory_map = mode % 2;
    o.compression = mode / 2 ? Compression::none : Compression::infer;
    auto r = list_files(std::vector<std::string>{root}, o);
    MC_CHECK(r.size() == 1 && r[0]->id() == root + "/" + n.first, "wrong list", n.first);
    if (!n.second || mode / 2 == 1) {
        std::string got;
        auto s = r[0]->open_read();
        while (true) {
            auto b = s->read(100);
            if (b.empty()) break;
            got += str(b);
        }
        MC_CHECK(got == text, "wrong contents", n.first + ": " + mc::quote(got));
    }
    mc::traces();
    mc::outcome(n.first);
}

// Many files, in one directory, in many, and many directories deep.
void many(std::size_t i)
{
    std::size_t n = std::vector<std::size_t>{127, 257, 300}[i / 4];
    std::vector<Node> nodes;
    std::string deep;
    for (std::size_t k = 0; k < n; ++k) {
        std::size_t x = k * 101 % n;  // in another order
        switch (i % 4) {
        case 0: nodes.push_back({"f" + std::to_string(x), Node::file, ""}); break;
        case 1: nodes.push_back({std::string(x % 2 ? 250 : 3, 'f') + std::to_string(x), Node::file, ""}); break;
        case 2:
            nodes.push_back({"d" + std::to_string(x), Node::dir, ""});
            nodes.push_back({"d" + std::to_string(x) + "/f", Node::file, ""});
            break;
        case 3:
            deep += (k ? "/d" : "d");
            nodes.push_back({deep, Node::dir, ""});
            nodes.push_back({deep + "/f", Node::file, ""});
            break;
        }
    }
    std::string root = scratch() + "/m";
    make_tree(root, nodes);
    compare({root}, "", {}, 0, true);
    compare({root}, "*f1*", {}, 0, false);
    if (i % 4 == 0) {
        std::vector<std::string> roots;
        for (auto &x : nodes) roots.push_back(root + "/" + x.path);
        compare(roots, "", {}, 0, false);
    }
}

}  // namespace

std::vector<mc::Suite> mc::make_suites(Tier tier)
{
    bool th = tier == Tier::thorough;
    on_start([] { mlio::initialize(); });
    std::vector<Suite> out;
    auto add = [&](std::string name, std::string what, std::size_t n, std::size_t block, std::function<void(std::size_t)> run,
                   std::function<std::string(std::size_t)> describe) {
        Suite s;
        s.name = name;
        s.what = what;
        s.ncases = n;
        s.block = block;
        s.run = run;
        s.describe = describe;
        out.push_back(s);
    };
    std::size_t n2 = names.size() * names.size();
    add("C18/pairs", "all orders of creation of two files", n2, 26, [](std::size_t i) { orders(i, 2); }, [](std::size_t i) { return names[i % names.size()] + ", " + names[i / names.size()]; });
    add("C18/triples", "all orders of creation of three files", n2 * names.size(), 676, [](std::size_t i) { orders(i, 3); },
        [n2](std::size_t i) { return names[i % names.size()] + ", " + names[i / names.size() % names.size()] + ", " + names[i / n2]; });
    add("C18/trees", "all trees over eight places x patterns, predicates and paths", tree_count(), 64, tree, [](std::size_t i) { return "tree " + std::to_string(i); });
    add("C18/unreadable", "all permissions of two directories", 36, 2, unreadable, [](std::size_t i) { return "permissions " + std::to_string(i); });
    add("C18/many", "many files and directories", 12, 1, many, [](std::size_t i) { return std::to_string(i); });
    add("C18/stores", "what is listed can be read", 28, 4, stores, [](std::size_t i) { return std::to_string(i); });
    auto v = std::make_shared<std::vector<std::string>>(short_names(th ? 4 : 3));
    add("C18/order", "all pairs of short names against the definition of natural order", v->size(), 8, [v](std::size_t i) { pairs(*v, i); },
        [v](std::size_t i) { return quote((*v)[i]); });
    return out;
}
