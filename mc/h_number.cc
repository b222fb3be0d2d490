// C07: conversion of text to numbers and inference of data types, for every
// string up to a length and every string near a boundary.
#include "support.h"

#include <mlio/cpu_array.h>
#include <mlio/parser.h>
#include <mlio/util/number.h>
#include <mlio/util/string.h>
#include <mlio/csv_reader.h>

#include <cmath>
#include <cstring>
#include <map>
#include <set>

using namespace mlio;
using namespace sup;

namespace mc {
const char *const harness_name = "number";
}

namespace {

bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

std::string strip(const std::string &s)
{
    std::size_t a = 0, b = s.size();
    while (a < b && space(s[a])) ++a;
    while (b > a && space(s[b - 1])) --b;
    return s.substr(a, b - a);
}

// An integer in the text, saturated at 2^100.
struct Int {
    bool ok = false, negative = false;
    unsigned __int128 magnitude = 0;
};

Int integer(const std::string &text, int base)
{
    Int r;
    std::string s = strip(text);
    std::size_t i = 0;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) r.negative = s[i++] == '-';
    if (base == 16 && i + 1 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) i += 2;
    if (i == s.size()) return r;
    const unsigned __int128 cap = static_cast<unsigned __int128>(1) << 100;
    for (; i < s.size(); ++i) {
        int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : s[i] >= 'a' && s[i] <= 'z' ? s[i] - 'a' + 10 : s[i] >= 'A' && s[i] <= 'Z' ? s[i] - 'A' + 10 : 99;
        if (d >= base) return r;
        r.magnitude = r.magnitude * static_cast<unsigned>(base) + static_cast<unsigned>(d);
        if (r.magnitude > cap) r.magnitude = cap;
    }
    r.ok = true;
    return r;
}

template<typename T>
bool fits(const Int &v, T &out)
{
    if (!v.ok) return false;
    using L = std::numeric_limits<T>;
    unsigned __int128 max = static_cast<unsigned __int128>(L::max());
    if (v.negative) {
        if (!L::is_signed) return false;
        if (v.magnitude > max + 1) return false;
        __int128 x = -static_cast<__int128>(v.magnitude);
        out = static_cast<T>(x);
        return true;
    }
    if (v.magnitude > max) return false;
    out = static_cast<T>(v.magnitude);
    return true;
}

// A decimal or hexadecimal floating-point number, infinity or NaN by its usual names.
enum Kind { none, number, inf, nan_name };

bool iequal(const std::string &a, const char *b)
{
    if (a.size() != std::strlen(b)) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (std::tolower(static_cast<unsigned char>(a[i])) != b[i]) return false;
    return true;
}

Kind floating(const std::string &text, std::string &norm)
{
    std::string s = strip(text);
    std::size_t i = 0;
    std::string sign;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) {
        if (s[i] == '-') sign = "-";
        ++i;
    }
    std::string rest = s.substr(i);
    if (iequal(rest, "inf") || iequal(rest, "infinity")) return inf;
    if (iequal(rest, "nan")) return nan_name;
    if (rest.size() > 4 && iequal(rest.substr(0, 4), "nan(") && rest.back() == ')' &&
        rest.substr(4, rest.size() - 5).find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") == std::string::npos)
        return nan_name;
    std::size_t j = 0, digits = 0;
    bool hexa = rest.size() > 2 && rest[0] == '0' && (rest[1] == 'x' || rest[1] == 'X');
    if (hexa) j = 2;
    auto digit = [&] { return j < rest.size() && (hexa ? std::isxdigit(static_cast<unsigned char>(rest[j])) != 0 : rest[j] >= '0' && rest[j] <= '9'); };
    while (digit()) ++j, ++digits;
    if (j < rest.size() && rest[j] == '.') {
        ++j;
        while (digit()) ++j, ++digits;
    }
    if (digits == 0) return none;
    if (j < rest.size() && (hexa ? rest[j] == 'p' || rest[j] == 'P' : rest[j] == 'e' || rest[j] == 'E')) {
        hexa = false;
        ++j;
        if (j < rest.size() && (rest[j] == '+' || rest[j] == '-')) ++j;
        std::size_t e = j;
        while (digit()) ++j;
        if (e == j) return none;
    }
    if (j != rest.size()) return none;
    norm = sign + rest;
    return number;
}

std::string hex(const void *p, std::size_t n)
{
    std::string r;
    char b[3];
    for (std::size_t i = 0; i < n; ++i) {
        std::snprintf(b, 3, "%02x", static_cast<const unsigned char *>(p)[n - 1 - i]);
        r += b;
    }
    return r;
}

std::size_t decided;

template<typename T>
void decide_int(const std::string &s, int base, const char *type)
{
    T want{};
    bool ok = fits(integer(s, base == 0 ? 10 : base), want);  // 0: default options
    for (T init : {T{}, static_cast<T>(85)}) {
        T got = init;
        Parse_result r = base == 0 ? try_parse_int<T>(s, got) : try_parse_int<T>(s, got, Int_parse_options{base});
        ++decided;
        auto w = [&] { return mc::quote(s) + " as " + type + " base " + std::to_string(base); };
        MC_CHECK((r == Parse_result::ok) == ok, ok ? "number rejected" : "non-number accepted", w());
        MC_CHECK(got == (ok ? want : init), ok ? "wrong value" : "destination altered", w());
    }
}

void decide_ints(const std::string &s, int base)
{
    decide_int<std::int8_t>(s, base, "int8");
    decide_int<std::int16_t>(s, base, "int16");
    decide_int<std::int32_t>(s, base, "int32");
    decide_int<std::int64_t>(s, base, "int64");
    decide_int<std::uint8_t>(s, base, "uint8");
    decide_int<std::uint16_t>(s, base, "uint16");
    decide_int<std::uint32_t>(s, base, "uint32");
    decide_int<std::uint64_t>(s, base, "uint64");
}

template<typename T>
bool float_value(const std::string &s, const std::unordered_set<std::string> *nans, T &want, bool &is_nan)
{
    std::string norm;
    Kind k = floating(s, norm);
    is_nan = false;
    if (k == number) {
        want = sizeof(T) == 4 ? static_cast<T>(std::strtof(norm.c_str(), nullptr)) : static_cast<T>(std::strtod(norm.c_str(), nullptr));
        return !std::isinf(want);
    }
    if (k == inf) return false;
    if (k == nan_name) return is_nan = true;
    if (nans && nans->count(strip(s))) return is_nan = true;
    return false;
}

template<typename T>
void decide_float(const std::string &s, const std::unordered_set<std::string> *nans, const char *type)
{
    T want{};
    bool is_nan;
    bool ok = float_value(s, nans, want, is_nan);
    T init = static_cast<T>(85.5), got = init;
    Parse_result r = try_parse_float<T>(s, got, {nans});
    ++decided;
    auto w = [&] { return mc::quote(s) + " as " + type + ": " + hex(&got, sizeof got) + " instead of " + hex(&want, sizeof want); };
    MC_CHECK((r == Parse_result::ok) == ok, ok ? "number rejected" : "non-number accepted", w());
    if (!ok) MC_CHECK(got == init, "destination altered", w());
    else if (is_nan) MC_CHECK(std::isnan(got), "NaN expected", w());
    else MC_CHECK(std::memcmp(&got, &want, sizeof got) == 0, "wrong value", w());
}

Data_type inferred(const std::string &s)
{
    std::int64_t a;
    std::uint64_t b;
    Int i = integer(s, 10);
    if (fits(i, a)) return Data_type::int64;
    if (fits(i, b)) return Data_type::uint64;
    double d;
    bool n;
    if (float_value<double>(s, nullptr, d, n)) return Data_type::float64;
    return Data_type::string;
}

void decide_all(const std::string &s)
{
    decide_ints(s, 10);
    decide_ints(s, 0);
    decide_float<float>(s, nullptr, "float32");
    decide_float<double>(s, nullptr, "float64");
    Data_type want = inferred(s), got = infer_data_type(s);
    ++decided;
    MC_CHECK(got == want, "wrong inference", mc::quote(s) + " inferred as " + std::to_string(static_cast<int>(got)) +
                                                 " instead of " + std::to_string(static_cast<int>(want)));
    mc::outcome_hash(mc::mix(static_cast<std::uint64_t>(want), s.size()));
    mc::state(mc::hash(s));
}

// ------------------------------------------------------------- parsers

template<Data_type dt>
void decide_parser(const std::string &s, const Parser &p, bool ok, const data_type_t<dt> &want, bool is_nan = false)
{
    using T = data_type_t<dt>;
    auto arr = make_cpu_array(dt, 3);
    auto sp = static_cast<Device_array_span>(*arr).as<T>();
    T other{};
    if constexpr (std::is_same_v<T, std::string>) other = "other";
    else other = static_cast<T>(77);
    for (auto &e : sp) e = other;
    Parse_result r = p(s, *arr, 1);
    ++decided;
    auto w = [&] { return mc::quote(s) + " as type " + std::to_string(static_cast<int>(dt)); };
    MC_CHECK((r == Parse_result::ok) == ok, ok ? "value rejected" : "non-value accepted", w() + " by a parser");
    MC_CHECK(sp[0] == other && sp[2] == other, "other elements altered", w());
    if (!ok) MC_CHECK(sp[1] == other, "destination altered", w() + " by a parser");
    else if (is_nan) {
        if constexpr (std::is_floating_point_v<T>) MC_CHECK(std::isnan(sp[1]), "NaN expected", w());
    }
    else MC_CHECK(sp[1] == want, "wrong value", w() + " by a parser");
}

template<Data_type dt>
void decide_int_parser(const std::string &s, const Parser &p, int base)
{
    data_type_t<dt> want{};
    bool ok = fits(integer(s, base == 0 ? 10 : base), want);  // 0: default options
    decide_parser<dt>(s, p, ok, want);
}

struct Parsers {
    Parser_options opts;
    std::map<Data_type, Parser> p;
    explicit Parsers(Parser_options o) : opts{std::move(o)}
    {
        // The options given to make_parser do not outlive the call.
        auto tmp = std::make_unique<Parser_options>(opts);
        for (auto dt : {Data_type::size, Data_type::float16, Data_type::float32, Data_type::float64, Data_type::int8,
                        Data_type::int16, Data_type::int32, Data_type::int64, Data_type::uint8, Data_type::uint16,
                        Data_type::uint32, Data_type::uint64, Data_type::string})
            p[dt] = make_parser(dt, *tmp);
        tmp->nan_values.clear();
        tmp->base = 7;
        tmp = nullptr;
    }
    void decide(const std::string &s)
    {
        int b = opts.base;
        if (b == 10) decide_int_parser<Data_type::size>(s, p[Data_type::size], 10);
        decide_int_parser<Data_type::int8>(s, p[Data_type::int8], b);
        decide_int_parser<Data_type::int16>(s, p[Data_type::int16], b);
        decide_int_parser<Data_type::int32>(s, p[Data_type::int32], b);
        decide_int_parser<Data_type::int64>(s, p[Data_type::int64], b);
        decide_int_parser<Data_type::uint8>(s, p[Data_type::uint8], b);
        decide_int_parser<Data_type::uint16>(s, p[Data_type::uint16], b);
        decide_int_parser<Data_type::uint32>(s, p[Data_type::uint32], b);
        decide_int_parser<Data_type::uint64>(s, p[Data_type::uint64], b);
        float f{};
        double d{};
        bool n;
        bool ok = float_value(s, &opts.nan_values, f, n);
        decide_parser<Data_type::float32>(s, p[Data_type::float32], ok, f, n);
        ok = float_value(s, &opts.nan_values, d, n);
        decide_parser<Data_type::float64>(s, p[Data_type::float64], ok, d, n);
        decide_parser<Data_type::string>(s, p[Data_type::string], true, s);
        decide_parser<Data_type::float16>(s, p[Data_type::float16], false, 0);
    }
};

void done()
{
    mc::traces(decided);
    mc::evaluations(decided);
    mc::transition(decided);
    mc::nontrivial(decided);
    decided = 0;
}

mc::Suite suite(std::string name, std::string what, std::size_t n, std::function<void(std::size_t)> f, std::size_t block = 64)
{
    mc::Suite s;
    s.name = std::move(name);
    s.what = std::move(what);
    s.ncases = n;
    s.block = block;
    s.run = [f](std::size_t i) {
        decided = 0;
        f(i);
        done();
    };
    return s;
}

std::string dec(unsigned __int128 v)
{
    std::string r;
    do {
        r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
        v /= 10;
    } while (v);
    return r;
}

}  // namespace

std::vector<mc::Suite> mc::make_suites(Tier tier)
{
    bool th = tier == Tier::thorough;
    std::size_t dl = th ? 1 : 0;
    std::vector<Suite> r;
    // One case decides all words with a common first part.
    auto words = [&](std::string name, std::string what, std::vector<std::string> a, std::size_t len, std::function<void(const std::string &)> f) {
        Words head{a, 2}, tail{a, len - 2};
        r.push_back(suite(name, what, head.count(), [=](std::size_t i) {
            std::string h = head.word(i);
            if (head.symbols(i).size() < 2) f(h);
            else
                for (std::size_t k = 0; k < tail.count(); ++k) f(h + tail.word(k));
        }, 1));
    };
    words("C07/integers", "every string over digits, signs, spaces and letters", {"0", "1", "9", "-", "+", " ", "x", "."}, 5 + dl, decide_all);
    words("C07/floats", "every string over the characters of decimal numbers", {"1", "5", "0", ".", "e", "-", "+", "E", " "}, 5 + dl, decide_all);
    words("C07/names", "every string over the characters of inf and nan", {"i", "n", "f", "a", "N", "-", " ", "t", "y"}, 4 + dl, decide_all);
    {
        // Every number near a boundary of a type, with every edit of one
        // (thorough: two) characters.
        std::vector<std::string> seeds;
        for (int b : {7, 8, 15, 16, 31, 32, 63, 64})
            for (int d = -2; d <= 2; ++d) {
                unsigned __int128 v = (static_cast<unsigned __int128>(1) << b) + static_cast<unsigned __int128>(d + 2) - 2;
                seeds.push_back(dec(v));
                seeds.push_back("-" + dec(v));
                seeds.push_back("+" + dec(v));
                seeds.push_back(" 000" + dec(v) + "\t");
                seeds.push_back("-0" + dec(v) + ".0");
            }
        for (const char *s : {"infinity", "-Infinity", "+nan", "nan(1)", "1e308", "1.7976931348623157e308", "1.7976931348623159e308", "4.9e-324",
                              "2.4e-324", "1e-400", "1e400", "-1e400", "3.4028235e38", "3.4028236e38", "1e39", "1.4e-45", "0.7e-45", "0x1p3", "0x10",
                              "1_000", "1,000", "1e", "1e+", ".", "-.", "-.e1", "5.", ".5", "00.50", "1.0e-05", "16777217", "9007199254740993",
                              "1.00000005960464477539062500", "1.000000059604644775390625001", "1.00000017881393432617187500",
                              "7.0064923216240853546186479164495806564013097093825788587853e-46", "\xC2\xA0" "1", "1\xFF", "true", "-",
                              "99999999999999999999999999999999999999", "18446744073709551615.0", "0.1", "123456789012345678901234567890e-20"})
            seeds.push_back(s);
        std::vector<std::string> alpha{"0", "1", "9", "-", "+", " ", ".", "e", "x", std::string(1, '\0'), "\n"};
        auto edits = [=](const std::string &s) {
            std::set<std::string> e{s};
            for (std::size_t i = 0; i <= s.size(); ++i) {
                if (i < s.size()) e.insert(s.substr(0, i) + s.substr(i + 1));
                for (auto &a : alpha) {
                    e.insert(s.substr(0, i) + a + s.substr(i));
                    if (i < s.size()) e.insert(s.substr(0, i) + a + s.substr(i + 1));
                }
            }
            return e;
        };
        r.push_back(suite("C07/boundaries", "numbers at the boundaries of all types and everything within an edit distance", seeds.size(), [=](std::size_t i) {
            for (auto &e : edits(seeds[i])) {
                decide_all(e);
                if (th && seeds[i].size() < 14)
                    for (auto &e2 : edits(e)) decide_all(e2);
            }
            mc::sample(mc::quote(seeds[i]));
        }, 1));
    }
    r.push_back(suite("C07/narrow", "every integer of the range around the 8- and 16-bit types", 280, [=](std::size_t i) {
        int lo = -70000 + static_cast<int>(i) * 500;
        for (int v = lo; v < lo + 500; ++v) {
            decide_ints(std::to_string(v), 10);
            mc::state(static_cast<std::uint64_t>(v + 70000));
        }
    }, 4));
    r.push_back(suite("C07/exponents", "every decimal exponent of doubles and floats with boundary mantissas", 720, [=](std::size_t i) {
        int e = static_cast<int>(i) - 360;
        for (const char *m : {"1", "9.999999999999999999", "1.7976931348623157", "1.7976931348623158", "1.7976931348623159", "3.4028234663852886",
                              "3.4028235677973366", "3.4028235677973367", "4.9406564584124654", "2.4703282292062327", "2.4703282292062328",
                              "1.401298464324817", "7.006492321624085", "7.006492321624086", "2.2250738585072011", "2.2250738585072014",
                              "1.1754943508222875", "123456789", "0.000000001"})
            for (const char *s : {"", "-"}) {
                std::string t = std::string{s} + m + "e" + std::to_string(e);
                decide_float<float>(t, nullptr, "float32");
                decide_float<double>(t, nullptr, "float64");
                mc::state(mc::hash(t));
            }
    }, 8));
    // Parsers, as a reader uses them.
    {
        Parser_options a, b, c;
        a.nan_values = {"NA", "-", "", "1", "n a"};
        b.base = 16;
        c.base = 8;
        c.nan_values = {"inf"};
        int k = 0;
        for (auto o : {a, b, c}) {
            auto al = std::vector<std::string>{"0", "1", "9", "-", " ", k == 1 ? "x" : ".", k == 1 ? "F" : "N", k == 0 ? "A" : "a"};
            if (k == 2) al = {"7", "8", "-", "i", "n", "f", " "};
            words("C07/parsers" + std::to_string(k), "parsers with NaN markers, base " + std::to_string(o.base), al, 4 + dl,
                  [o](const std::string &s) {
                      thread_local std::unique_ptr<Parsers> p;
                      thread_local Parser_options cur;
                      if (!p || cur.base != o.base || cur.nan_values != o.nan_values) {
                          p = std::make_unique<Parsers>(o);
                          cur = o;
                      }
                      p->decide(s);
                      mc::state(mc::hash(s, static_cast<std::uint64_t>(o.base)));
                  });
            ++k;
        }
        r.push_back(suite("C07/bases", "boundaries of all types in other bases", 35, [=](std::size_t i) {
            int base = static_cast<int>(i) + 2;
            for (int b : {7, 8, 15, 16, 31, 32, 63, 64})
                for (int d = -2; d <= 2; ++d) {
                    unsigned __int128 v = (static_cast<unsigned __int128>(1) << b) + static_cast<unsigned __int128>(d + 2) - 2;
                    std::string t;
                    do {
                        t.insert(t.begin(), "0123456789abcdefghijklmnopqrstuvwxyz"[static_cast<int>(v % static_cast<unsigned>(base))]);
                        v /= static_cast<unsigned>(base);
                    } while (v);
                    for (auto s : {t, "-" + t, " +0" + t + " ", t + "z", "0x" + t, t + "-"}) {
                        decide_ints(s, base);
                        mc::state(mc::hash(s, i));
                    }
                }
        }, 1));
    }
    return r;
}
