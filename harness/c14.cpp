// C14: a record carries exactly what was logged. Expected texts come from an independent implementation
// of the format language (snprintf, to_chars), not from the bundled fmt.
#include "async.h"
#include <charconv>
#include <cmath>
#include <string_view>

using namespace vf;

struct thing { int a; std::string b; };
// what formatting the next thing does besides: the formatter of a user's type may log, too
static thread_local std::function<void()> g_nest;
template <> struct fmt::formatter<thing> {
    constexpr auto parse(format_parse_context& c) -> decltype(c.begin()) { return c.begin(); }
    template <typename C> auto format(const thing& t, C& c) const -> decltype(c.out()) {
        auto o = fmt::format_to(c.out(), "<{}/", t.a);
        if (g_nest) { auto f = std::move(g_nest); g_nest = nullptr; f(); }
        return fmt::format_to(o, "{}>", t.b);
    }
};

// ---- reference for replacement fields
struct spec {
    std::string fill = " ";
    char align = 0, sign = 0, type = 0;
    bool alt = false, zero = false;
    int width = -1, prec = -1;
};
static std::string pad(const std::string& body, const spec& s, char dflt) {
    size_t w = s.width < 0 ? 0 : static_cast<size_t>(s.width);
    if (body.size() >= w) return body;
    size_t n = w - body.size();
    auto rep = [&](size_t k) { std::string r; while (k--) r += s.fill; return r; };
    char a = s.align ? s.align : dflt;
    if (a == '<') return body + rep(n);
    if (a == '^') return rep(n / 2) + body + rep(n - n / 2);
    return rep(n) + body;
}
static std::string num_pad(const std::string& pre, const std::string& digits, const spec& s, bool zero_ok = true) {
    if (s.zero && !s.align && zero_ok) {
        std::string z;
        while (static_cast<int>(pre.size() + z.size() + digits.size()) < s.width) z += '0';
        return pre + z + digits;
    }
    return pad(pre + digits, s, '>');
}
static std::string sgn(bool neg, const spec& s) { return neg ? "-" : s.sign == '+' ? "+" : s.sign == ' ' ? " " : ""; }
static std::string ref_str(std::string v, const spec& s) {
    if (s.prec >= 0 && v.size() > static_cast<size_t>(s.prec)) v.resize(static_cast<size_t>(s.prec));
    return pad(v, s, '<');
}
static std::string ref_uint(bool neg, unsigned long long m, const spec& s) {
    unsigned base = s.type == 'b' || s.type == 'B' ? 2 : s.type == 'o' ? 8 : s.type == 'x' || s.type == 'X' ? 16 : 10;
    std::string d, p = sgn(neg, s);
    unsigned long long v = m;
    do { d.insert(d.begin(), (s.type == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[v % base]); v /= base; } while (v);
    if (s.alt) {
        if (base == 16) p += s.type == 'X' ? "0X" : "0x";
        else if (base == 2) p += s.type == 'B' ? "0B" : "0b";
        else if (base == 8 && m) p += "0";
    }
    return num_pad(p, d, s);
}
template <typename F> static std::string ref_float(F v, const spec& s) {
    std::string p = sgn(std::signbit(v), s);
    if (!std::isfinite(v)) {
        bool up = s.type == 'F' || s.type == 'E' || s.type == 'G';
        return num_pad(p, std::isnan(v) ? (up ? "NAN" : "nan") : (up ? "INF" : "inf"), s, false);
    }
    F a = std::fabs(v);
    std::string d;
    if (!s.type && s.prec < 0) {
        char b[64];
        auto r = std::to_chars(b, b + sizeof b, a, std::chars_format::scientific);
        std::string e(b, r.ptr);
        size_t ep = e.find('e');
        std::string dig = e.substr(0, ep);
        int ex = atoi(e.c_str() + ep + 1);
        dig.erase(std::remove(dig.begin(), dig.end(), '.'), dig.end());
        if (a == 0) d = "0";
        else if (ex >= -4 && ex < 16) {
            if (ex < 0) d = "0." + std::string(static_cast<size_t>(-ex - 1), '0') + dig;
            else if (static_cast<int>(dig.size()) <= ex + 1) d = dig + std::string(static_cast<size_t>(ex + 1) - dig.size(), '0');
            else d = dig.substr(0, static_cast<size_t>(ex) + 1) + "." + dig.substr(static_cast<size_t>(ex) + 1);
        } else d = dig.substr(0, 1) + (dig.size() > 1 ? "." + dig.substr(1) : "") + sf("e%c%02d", ex < 0 ? '-' : '+', std::abs(ex));
    } else {
        char t = s.type ? s.type : 'g';
        std::string f = s.prec < 0 ? std::string("%") + t : std::string("%.*") + t;
        char b[2000];
        if (s.prec < 0) snprintf(b, sizeof b, f.c_str(), static_cast<double>(a));
        else snprintf(b, sizeof b, f.c_str(), s.prec, static_cast<double>(a));
        d = b;
    }
    return num_pad(p, d, s);
}

// ---- values of the types users pass
enum vt { V_INT, V_UINT, V_I8, V_U8, V_I16, V_U16, V_LL, V_ULL, V_DOUBLE, V_FLOAT, V_BOOL, V_CHAR, V_STR, V_CSTR, V_SV, V_FSV, V_PTR, V_THING, V_N };
struct val {
    int t = 0;
    long long i = 0;
    double d = 0;
    std::string s;
};
static std::string ascii(rng& r, size_t n) {
    std::string s;
    for (size_t i = 0; i < n; i++) s += static_cast<char>(' ' + r.below(95));
    return s;
}
static std::string anybytes(rng& r, size_t n) {
    std::string s;
    for (size_t i = 0; i < n; i++) s += r.chance(70) ? static_cast<char>(' ' + r.below(95)) : static_cast<char>(r.below(256));
    return s;
}
static size_t rlen(rng& r) {
    int k = r.range(0, 199);
    return k < 10 ? 0 : k < 100 ? r.below(30) : k < 160 ? 230 + r.below(40) : k < 195 ? r.below(3000) : k < 199 ? r.below(70000) : 1000000 + r.below(100000);
}
static val gen_val(rng& r, bool plain) {
    val v;
    v.t = r.range(0, V_N - 1);
    unsigned long long x = r.next() >> r.below(64);
    if (r.chance(20)) x = r.pick(std::vector<unsigned long long>{0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 32767, 65535, 2147483647, 2147483648ull, 4294967295ull, 9223372036854775807ull, 9223372036854775808ull, ~0ull});
    v.i = static_cast<long long>(r.chance(50) ? 0ull - x : x);
    switch (v.t) {
        case V_INT: v.i = static_cast<int>(v.i); break;
        case V_UINT: v.i = static_cast<unsigned>(v.i); break;
        case V_I8: v.i = static_cast<signed char>(v.i); break;
        case V_U8: v.i = static_cast<unsigned char>(v.i); break;
        case V_I16: v.i = static_cast<short>(v.i); break;
        case V_U16: v.i = static_cast<unsigned short>(v.i); break;
        case V_BOOL: v.i &= 1; break;
        case V_CHAR: v.i = ' ' + static_cast<long long>(r.below(95)); break;
        default: break;
    }
    int k = r.range(0, 5);
    v.d = k == 0 ? static_cast<double>(v.i) : k == 1 ? static_cast<double>(r.range(-100000, 100000)) / 100.0
        : k == 2 ? (r.chance(50) ? -1 : 1) * static_cast<double>(r.next() >> 11) / 9007199254740992.0 * pow(10, r.range(-30, 30))
        : k == 3 ? r.pick(std::vector<double>{0.0, -0.0, 0.1, 1.0, 1e15, 1e16, 1e17, 123456789012345678.0, 1e-4, 1e-5, 0.5, 1e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 9.995, 0.125})
        : k == 4 ? static_cast<double>(r.range(0, 1000)) : static_cast<double>(r.next() >> 20) * 0.001;
    // the alignment of infinities is left to fmt, they are generated without width only
    if (plain && r.chance(5)) v.d = r.pick(std::vector<double>{INFINITY, -INFINITY, NAN});
    if (v.t == V_FLOAT) v.d = static_cast<float>(std::max(-3e38, std::min(3e38, v.d)));
    v.s = plain && r.chance(60) ? anybytes(r, rlen(r)) : ascii(r, r.below(30));
    if (v.t == V_CSTR) for (auto& c : v.s) if (!c) c = 1;
    if (v.t == V_THING) v.s = ascii(r, r.below(20));
    return v;
}
static spec gen_spec(rng& r, int t) {
    spec s;
    bool str = t == V_STR || t == V_CSTR || t == V_SV || t == V_FSV, fl = t == V_DOUBLE || t == V_FLOAT;
    bool sint = t == V_INT || t == V_LL || t == V_I8 || t == V_I16;
    bool integer = sint || t == V_UINT || t == V_ULL || t == V_U8 || t == V_U16;
    if (t == V_THING) return s;
    if (r.chance(50)) s.width = r.chance(80) ? r.range(1, 25) : r.range(26, 400);
    if (r.chance(50)) {
        s.align = "<>^"[r.below(3)];
        if (r.chance(50)) {
            char c;
            do c = static_cast<char>('!' + r.below(94)); while (c == '{' || c == '}');
            s.fill = std::string(1, c);
        }
    }
    if ((sint || fl) && r.chance(40)) s.sign = "+- "[r.below(3)];
    if (s.sign == '-') s.sign = 0;
    if ((integer || fl) && s.width > 0 && r.chance(25)) s.zero = true;
    if (integer) {
        if (r.chance(60)) s.type = "dbBoxX"[r.below(6)];
        if (r.chance(40)) s.alt = true;
    }
    if (fl) {
        if (r.chance(70)) s.type = "fFeEgG"[r.below(6)];
        if (r.chance(60)) s.prec = r.range(0, r.chance(80) ? 12 : 40);
    }
    if (str) {
        if (r.chance(40)) s.prec = r.range(0, 20);
        if (r.chance(40)) s.type = 's';
    }
    return s;
}
static std::string spec_text(const spec& s, const std::string& w, const std::string& p) {
    std::string t;
    if (s.align) { if (s.fill != " ") t += s.fill; t += s.align; }
    if (s.sign) t += s.sign;
    if (s.alt) t += '#';
    if (s.zero) t += '0';
    t += w + p;
    if (s.type) t += s.type;
    return t;
}
static std::string ref_val(const val& v, const spec& s) {
    switch (v.t) {
        case V_INT: case V_I8: case V_I16: case V_LL:
            return ref_uint(v.i < 0, v.i < 0 ? 0ull - static_cast<unsigned long long>(v.i) : static_cast<unsigned long long>(v.i), s);
        case V_UINT: case V_U8: case V_U16: case V_ULL: return ref_uint(false, static_cast<unsigned long long>(v.i), s);
        case V_DOUBLE: return ref_float<double>(v.d, s);
        case V_FLOAT: return ref_float<float>(static_cast<float>(v.d), s);
        case V_BOOL: return pad(v.i ? "true" : "false", s, '<');
        case V_CHAR: return pad(std::string(1, static_cast<char>(v.i)), s, '<');
        case V_PTR: return pad(sf("0x%llx", static_cast<unsigned long long>(v.i)), s, '>');
        case V_THING: return sf("<%d/", static_cast<int>(v.i)) + v.s + ">";
        default: return ref_str(v.s, s);
    }
}
// calls f with the value in its type; the storage is destroyed when this returns
template <typename F> static void with(const val& v, F f) {
    std::string s = v.s;
    switch (v.t) {
        case V_INT: { int x = static_cast<int>(v.i); f(x); break; }
        case V_UINT: { unsigned x = static_cast<unsigned>(v.i); f(x); break; }
        case V_I8: { signed char x = static_cast<signed char>(v.i); f(x); break; }
        case V_U8: { unsigned char x = static_cast<unsigned char>(v.i); f(x); break; }
        case V_I16: { short x = static_cast<short>(v.i); f(x); break; }
        case V_U16: { unsigned short x = static_cast<unsigned short>(v.i); f(x); break; }
        case V_LL: { long long x = v.i; f(x); break; }
        case V_ULL: { unsigned long long x = static_cast<unsigned long long>(v.i); f(x); break; }
        case V_DOUBLE: { double x = v.d; f(x); break; }
        case V_FLOAT: { float x = static_cast<float>(v.d); f(x); break; }
        case V_BOOL: { bool x = v.i != 0; f(x); break; }
        case V_CHAR: { char x = static_cast<char>(v.i); f(x); break; }
        case V_CSTR: { const char* x = s.c_str(); f(x); break; }
        case V_SV: { std::string_view x(s); f(x); break; }
        case V_FSV: { ll::fmt_string_view x(s.data(), s.size()); f(x); break; }
        case V_PTR: { const void* x = reinterpret_cast<const void*>(static_cast<uintptr_t>(v.i)); f(x); break; }
        case V_THING: { thing x{static_cast<int>(v.i), s}; f(x); break; }
        default: f(s);
    }
    for (auto& c : s) c = '?';
}

struct target { ll::logger* l = nullptr; bool free_fn = false; };
template <typename... A> static void call_fmt(const target& t, int how, int lv, ll::source_loc loc, const std::string& f, A&&... a) {
    auto L = static_cast<lvl>(lv);
    auto rt = fmt::runtime(f);
    if (t.free_fn) {
        if (how == 0) ll::log(loc, L, rt, std::forward<A>(a)...);
        else if (how == 1) ll::log(L, rt, std::forward<A>(a)...);
        else switch (lv) {
            case 0: ll::trace(rt, std::forward<A>(a)...); break;
            case 1: ll::debug(rt, std::forward<A>(a)...); break;
            case 2: ll::info(rt, std::forward<A>(a)...); break;
            case 3: ll::warn(rt, std::forward<A>(a)...); break;
            case 4: ll::error(rt, std::forward<A>(a)...); break;
            default: ll::critical(rt, std::forward<A>(a)...);
        }
        return;
    }
    if (how == 0) t.l->log(loc, L, rt, std::forward<A>(a)...);
    else if (how == 1) t.l->log(L, rt, std::forward<A>(a)...);
    else switch (lv) {
        case 0: t.l->trace(rt, std::forward<A>(a)...); break;
        case 1: t.l->debug(rt, std::forward<A>(a)...); break;
        case 2: t.l->info(rt, std::forward<A>(a)...); break;
        case 3: t.l->warn(rt, std::forward<A>(a)...); break;
        case 4: t.l->error(rt, std::forward<A>(a)...); break;
        default: t.l->critical(rt, std::forward<A>(a)...);
    }
}
template <typename T> static void call_one(const target& t, int how, int lv, ll::source_loc loc, const T& m) {
    auto L = static_cast<lvl>(lv);
    if (t.free_fn) {
        if (how == 0) ll::log(loc, L, m);
        else if (how == 1) ll::log(L, m);
        else switch (lv) {
            case 0: ll::trace(m); break;
            case 1: ll::debug(m); break;
            case 2: ll::info(m); break;
            case 3: ll::warn(m); break;
            case 4: ll::error(m); break;
            default: ll::critical(m);
        }
        return;
    }
    if (how == 0) t.l->log(loc, L, m);
    else if (how == 1) t.l->log(L, m);
    else switch (lv) {
        case 0: t.l->trace(m); break;
        case 1: t.l->debug(m); break;
        case 2: t.l->info(m); break;
        case 3: t.l->warn(m); break;
        case 4: t.l->error(m); break;
        default: t.l->critical(m);
    }
}
struct expect {
    std::string text, fmt, file, func;
    bool loc = false, has_func = false, has_time = false;
    int line = 0, level = 0;
    int64_t t0 = 0, t1 = 0;
    size_t tid = 0;
};
static std::string lit(rng& r, size_t n, std::string& plain, bool braces) {
    std::string f;
    for (size_t i = 0; i < n; i++) {
        char c = r.chance(85) ? static_cast<char>(' ' + r.below(95)) : static_cast<char>(r.below(256));
        if (r.chance(8)) c = r.chance(50) ? '{' : '}';
        if (braces && (c == '{' || c == '}')) f += c;
        f += c;
        plain += c;
    }
    return f;
}
static const char* files[] = {"a.cpp", "/long/path/to/some/source/file.cc", "", "x y.h"};
static const char* funcs[] = {"f", "operator<<", "", "very_long_function_name_that_goes_on"};

// a nested call with the same types of arguments; its record comes before that of the outer call
static void nest(rng& r, const target& t, int how, ll::source_loc loc, const expect& outer, int shape, std::vector<expect>& out) {
    g_nest = nullptr;
    if (!r.chance(60)) return;
    int a = r.range(-99999, 99999), b = r.range(0, 1000);
    std::string x = ascii(r, r.below(r.chance(80) ? 30 : 600));
    expect e = outer;
    e.fmt = "(nested)";
    e.text = sf("<%d/", a) + x + ">";
    if (shape < 2) e.text = "n" + e.text + "|" + std::to_string(b) + "|" + x;
    g_nest = [=, &out]() mutable {
        thing th{a, x};
        e.t0 = sys_ns();
        if (shape == 0) call_fmt(t, how, e.level, loc, "n{}|{}|{}", th, b, x);
        else if (shape == 1) call_fmt(t, how, e.level, loc, "n{}|{}|{}", th, static_cast<int>(b), std::string(x));
        else call_one(t, how, e.level, loc, th);
        e.t1 = sys_ns();
        out.push_back(e);
        stat("nested_calls");
    };
}

static expect one_call(rng& r, const target& t, std::vector<expect>& out) {
    expect e;
    e.level = r.range(0, 5);
    e.tid = static_cast<size_t>(gettid_());
    ll::source_loc loc;
    int how = r.range(0, 2);
    size_t fi = r.below(4), fu = r.below(5);
    e.loc = how == 0;
    if (e.loc) {
        e.file = files[fi];
        e.line = r.range(1, 100000);
        e.has_func = fu < 4;
        if (e.has_func) e.func = funcs[fu];
        loc = ll::source_loc(files[fi], e.line, e.has_func ? funcs[fu] : nullptr);
    }
    int kind = r.range(0, 9);
    e.t0 = sys_ns();
    if (kind < 4) {
        // format string with up to three replacement fields
        int nf = r.range(0, 3);
        std::vector<val> v;
        std::vector<spec> sp;
        std::string f;
        int mode = r.range(0, 3);       // 0,1 automatic; 2 positional; 3 dynamic width
        for (int k = 0; k < 3; k++) { v.push_back(gen_val(r, false)); }
        v[1].t = V_INT; v[1].i = r.range(-1000, 1000);
        v[2].t = V_STR;
        std::vector<int> order{0, 1, 2};
        if (mode == 2) for (int k = 0; k < 3; k++) std::swap(order[r.below(3)], order[r.below(3)]);
        if (mode == 3) {
            // {:{}} takes the width from the next argument
            spec s = gen_spec(r, v[0].t);
            if (v[0].t == V_THING) v[0].t = V_STR;
            s = gen_spec(r, v[0].t);
            int w = r.range(1, 60);
            s.width = w;
            v[1].i = w;
            f += lit(r, r.below(8), e.text, true);
            f += "{:" + spec_text(s, "{}", s.prec >= 0 ? "." + std::to_string(s.prec) : "") + "}";
            e.text += ref_val(v[0], s);
            f += lit(r, r.below(8), e.text, true);
            spec s2 = gen_spec(r, V_STR);
            f += "{:" + spec_text(s2, s2.width >= 0 ? std::to_string(s2.width) : "", s2.prec >= 0 ? "." + std::to_string(s2.prec) : "") + "}";
            e.text += ref_val(v[2], s2);
            stat("dynamic_fields");
        } else {
            for (int k = 0; k < nf; k++) {
                f += lit(r, r.below(r.chance(90) ? 10 : 300), e.text, true);
                int a = order[static_cast<size_t>(k)];
                spec s = r.chance(70) ? gen_spec(r, v[static_cast<size_t>(a)].t) : spec();
                std::string st = spec_text(s, s.width >= 0 ? std::to_string(s.width) : "", s.prec >= 0 ? "." + std::to_string(s.prec) : "");
                f += "{" + (mode == 2 ? std::to_string(a) : "") + (st.empty() && r.chance(50) ? "" : ":" + st) + "}";
                e.text += ref_val(v[static_cast<size_t>(a)], s);
                stat("fields");
            }
        }
        f += lit(r, r.below(20), e.text, true);
        e.fmt = f;
        with(v[0], [&](auto& a) {
            int b = static_cast<int>(v[1].i);
            std::string c = v[2].s;
            e.t0 = sys_ns();
            bool rv = r.chance(30);
            if (v[0].t == V_THING) nest(r, t, how, loc, e, rv ? 1 : 0, out);
            if (rv) call_fmt(t, how, e.level, loc, f, a, static_cast<int>(v[1].i), std::string(v[2].s));
            else call_fmt(t, how, e.level, loc, f, a, b, c);
            for (auto& x : c) x = '?';
        });
    } else if (kind < 5) {
        // named arguments
        val v = gen_val(r, false);
        spec s = gen_spec(r, v.t);
        std::string f = lit(r, r.below(10), e.text, true) + "{val:" + spec_text(s, s.width >= 0 ? std::to_string(s.width) : "", s.prec >= 0 ? "." + std::to_string(s.prec) : "") + "}";
        e.text += ref_val(v, s);
        f += "{other}";
        e.text += "7";
        e.fmt = f;
        with(v, [&](auto& a) { e.t0 = sys_ns(); call_fmt(t, how, e.level, loc, f, fmt::arg("other", 7), fmt::arg("val", a)); });
        stat("named_fields");
    } else if (kind < 7) {
        // one value without a format string: strings as they are, others as "{}"
        val v = gen_val(r, true);
        e.text = ref_val(v, spec());
        if (v.t == V_THING) nest(r, t, how, loc, e, 2, out);
        with(v, [&](auto& a) { e.t0 = sys_ns(); call_one(t, how, e.level, loc, a); });
        stat("single_values");
    } else if (kind < 8) {
        // text literal with braces
        e.text = "literal {} {0} }{ {{ }} {x:y} %v %%";
        e.t0 = sys_ns();
        call_one(t, how, e.level, loc, "literal {} {0} }{ {{ }} {x:y} %v %%");
        stat("literals");
    } else {
        std::string m = anybytes(r, rlen(r));
        e.text = m;
        int o = t.free_fn ? 2 : r.range(0, 2);
        e.t0 = sys_ns();
        auto L = static_cast<lvl>(e.level);
        ll::fmt_string_view sv(m.data(), m.size());
        if (o == 0) {
            int64_t ns = r.chance(50) ? static_cast<int64_t>(r.below(4000000000ull)) * 1000000000ll + static_cast<int64_t>(r.below(1000000000)) : sys_ns() - 5000000000ll;
            e.has_time = true;
            e.t0 = ns;
            t.l->log(tp_of(ns), loc, L, sv);
        } else if (o == 1) t.l->log(loc, L, sv);
        else call_one(t, how, e.level, loc, sv);
        if (m.size() > 100000) stat("huge_messages");
        for (auto& c : m) c = '?';
        stat("plain_texts");
    }
    g_nest = nullptr;
    e.t1 = sys_ns();
    if (e.has_time) e.t1 = e.t0;
    return e;
}
static void check(const std::vector<expect>& ex, const std::vector<rec>& rs, const std::string& lname, const char* what) {
    if (ex.size() != rs.size()) viol("record_count", sf("%s: %zu records of %zu calls", what, rs.size(), ex.size()));
    for (size_t k = 0; k < ex.size() && k < rs.size(); k++) {
        const expect& e = ex[k];
        const rec& x = rs[k];
        if (x.text != e.text) {
            size_t i = 0;
            while (i < x.text.size() && i < e.text.size() && x.text[i] == e.text[i]) i++;
            size_t f = i > 20 ? i - 20 : 0;
            viol("text", sf("%s: byte %zu of %zu/%zu: '%s' instead of '%s' (format '%s')", what, i, x.text.size(), e.text.size(), esc(x.text.substr(f, 80), 160).c_str(),
                            esc(e.text.substr(f, 80), 160).c_str(), esc(e.fmt, 120).c_str()));
        }
        VF_CHECK(x.level == e.level, "level", "%s: level %d instead of %d", what, x.level, e.level);
        VF_CHECK(x.lname == lname, "logger_name", "%s: logger name '%s' instead of '%s'", what, esc(x.lname).c_str(), esc(lname).c_str());
        VF_CHECK(x.tid == e.tid, "thread_id", "%s: thread id %zu instead of %zu", what, x.tid, e.tid);
        if (e.t0 <= e.t1) VF_CHECK(x.time >= e.t0 && x.time <= e.t1, "time", "%s: time %lld outside [%lld, %lld]", what, (long long)x.time, (long long)e.t0, (long long)e.t1);
        bool ok = e.loc ? x.has_file && x.file == e.file && x.line == e.line && x.has_func == e.has_func && x.func == e.func : x.line <= 0 && !x.has_func;
        VF_CHECK(ok, "source_location", "%s: location %s:%d %s instead of %s:%d %s", what, x.file.c_str(), x.line, x.func.c_str(), e.file.c_str(), e.line, e.func.c_str());
    }
    stat("records_checked", rs.size());
}

static void one_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    bool as = r.chance(60), bt = r.chance(30);
    int kind = r.range(0, 2), nt = r.range(1, 4), per = r.range(1, 25);
    size_t workers = kind == K_CONC ? static_cast<size_t>(r.range(1, 3)) : 1;
    label(sf("case %llu: %s, %d threads x %d%s", (unsigned long long)i, as ? kind_name(kind) : "sync", nt, per, bt ? ", backtrace" : ""));
    ll::close();
    ll::thread_pool_shr_ptr tp;
    if (as) tp = make_pool(kind, r.pick(queue_sizes()), workers);
    std::vector<std::shared_ptr<rec_sink>> sinks;
    std::vector<std::string> names;
    std::vector<ll::logger_shr_ptr> loggers;
    for (int p = 0; p < nt; p++) {
        sinks.push_back(std::make_shared<rec_sink>());
        names.push_back(r.chance(10) ? "" : anybytes(r, r.chance(80) ? r.below(20) : r.below(500)));
        if (r.chance(30)) {
            int us = r.range(0, 200);
            sinks.back()->on_log = [us](const ll::base::log_msg&) { sleep_us(us); };
        }
        if (as) loggers.push_back(std::make_shared<ll::async_logger>(names.back(), sinks.back(), tp));
        else loggers.push_back(std::make_shared<ll::logger>(names.back(), sinks.back()));
        loggers.back()->set_log_level(ll::level::trace);
        if (bt) loggers.back()->enable_backtrace_n(1000);
    }
    std::vector<std::vector<expect>> ex(static_cast<size_t>(nt));
    int def = r.chance(60) ? 0 : -1;
    if (def == 0) ll::set_default_logger(loggers[0]);
    noise(cs, static_cast<unsigned>(r.range(0, 2)));
    std::vector<std::thread> ts;
    for (int p = 0; p < nt; p++)
        ts.emplace_back([&, p] {
            rng rr(hash_mix(cs, 900 + static_cast<uint64_t>(p)));
            for (int s = 0; s < per; s++) {
                target t;
                t.l = loggers[static_cast<size_t>(p)].get();
                t.free_fn = p == def && rr.chance(60);
                auto& out = ex[static_cast<size_t>(p)];
                expect e = one_call(rr, t, out);
                out.push_back(std::move(e));
                tick();
            }
            loggers[static_cast<size_t>(p)]->flush();    // a barrier for this thread's messages
        });
    for (auto& t : ts) t.join();
    noise_off();
    std::vector<size_t> sizes;
    for (int p = 0; p < nt; p++) {
        auto pu = static_cast<size_t>(p);
        auto rs = sinks[pu]->logs();
        sizes.push_back(rs.size());
        check(ex[pu], rs, names[pu], "record");
    }
    uint64_t h = cs;
    if (bt)
        for (int p = 0; p < nt; p++) {
            auto pu = static_cast<size_t>(p);
            sinks[pu]->on_log = nullptr;
            // what is dumped may have been logged by a logger that is gone, or that has another name now
            int how = r.range(0, 3);
            if (how > 1) ll::close();      // no references left there
            if (how == 2) {
                auto c = loggers[pu]->clone(anybytes(r, r.below(40)));
                loggers[pu] = c;
            } else if (how == 3) {
                ll::logger_shr_ptr o;
                auto dummy = std::make_shared<rec_sink>();
                std::string on = anybytes(r, r.below(40));
                if (as) o = std::make_shared<ll::async_logger>(on, dummy, tp); else o = std::make_shared<ll::logger>(on, dummy);
                o->swap(*loggers[pu]);
                loggers[pu] = o;
            }
            if (how > 1) { std::vector<std::string> scratch(20, std::string(names[pu].size(), '!')); stat("dumped_by_another_logger"); }
            loggers[pu]->dump_backtrace();
            loggers[pu]->flush();
            auto rs = sinks[pu]->logs();
            std::vector<rec> tail(rs.begin() + static_cast<long>(std::min(sizes[pu] + 1, rs.size())), rs.end() - (rs.size() > sizes[pu] ? 1 : 0));
            if (how != 2 || !tail.empty()) check(ex[pu], tail, names[pu], "backtrace");     // that clones share a backtrace is not specified
            stat("backtrace_records", tail.size());
        }
    ll::close();
    loggers.clear();
    tp.reset();
    for (auto& v : ex) for (auto& e : v) h = hash_mix(h, hash_str(e.text));
    casedone(h, true);
    if (i < 3) sample(S().label + " '" + esc(ex[0][0].fmt, 60) + "' -> '" + esc(ex[0][0].text, 60) + "'");
}

// the thread that called fork() goes on in the child under another id
static void forked(uint64_t i) {
    rng r(caseseed(i + 300000));
    label(sf("fork case %llu", (unsigned long long)i));
    auto sink = std::make_shared<rec_sink>();
    ll::logger lg("forking", sink);
    int p[2];
    if (pipe(p) != 0) abort();
    bool before = r.chance(80), thread = r.chance(50);
    auto body = [&] {
        if (before) lg.info("before");
        long me = gettid_();
        pid_t pid = fork();
        if (pid == 0) {
            int deep = r.range(0, 2);      // the child of the child of ...
            while (deep-- > 0) {
                lg.info("in between");
                pid_t q = fork();
                if (q != 0) { int st; waitpid(q, &st, 0); _exit(0); }
            }
            auto n = sink->logs().size();
            lg.info("child");
            auto v = sink->logs();
            long out[4] = {gettid_(), v.size() == n + 1 ? static_cast<long>(v.back().tid) : -1, 0, -1};
            std::thread t([&] { out[2] = gettid_(); lg.info("thread of the child"); });
            t.join();
            v = sink->logs();
            if (v.size() == n + 2) out[3] = static_cast<long>(v.back().tid);
            if (::write(p[1], out, sizeof out) < 0) _exit(1);
            _exit(0);
        }
        long got[4] = {};
        ::close(p[1]);
        bool ok = read(p[0], got, sizeof got) == static_cast<ssize_t>(sizeof got);
        ::close(p[0]);
        int st;
        waitpid(pid, &st, 0);
        VF_CHECK(ok, "fork", "logging in a forked child failed, status %d", st);
        if (ok) {
            VF_CHECK(got[0] == got[1], "thread_id", "in a forked child: thread id %ld instead of %ld", got[1], got[0]);
            VF_CHECK(got[2] == got[3], "thread_id", "in a thread of a forked child: thread id %ld instead of %ld", got[3], got[2]);
        }
        lg.info("after");
        auto v = sink->logs();
        VF_CHECK(!v.empty() && static_cast<long>(v.back().tid) == me, "thread_id", "after fork(): thread id %zu instead of %ld", v.empty() ? 0 : v.back().tid, me);
    };
    if (thread) { std::thread t(body); t.join(); } else body();
    stat("forked_children");
    casedone(hash_mix(i, 3 + thread), true);
}

// records stored in objects of their own: copied, assigned, moved and destroyed in any order
static void stored_copies(uint64_t i) {
    uint64_t cs = caseseed(9000000 + i);
    rng r(cs);
    label(sf("stored record case %llu", (unsigned long long)i));
    using buf = ll::base::log_msg_buf;
    struct want { std::string name, text; int level = 6; const char* file = nullptr; const char* func = nullptr; int line = 0; int64_t t = 0; size_t tid = 0; };
    struct slot { std::unique_ptr<buf> b; want w; };
    std::vector<slot> v(static_cast<size_t>(r.range(2, 6)));
    for (auto& s : v) s.b.reset(new buf());
    auto any = [&](size_t n) { std::string t(n, 0); for (auto& c : t) c = static_cast<char>(r.below(256)); return t; };
    auto len = [&] { return r.chance(30) ? r.below(4) : r.chance(70) ? r.below(300) : r.below(3000); };
    std::string trail;
    uint64_t h = cs;
    auto same = [&](size_t k) {
        const buf& b = *v[k].b;
        const want& w = v[k].w;
        std::string bad;
        if (std::string(b.logger_name.data(), b.logger_name.size()) != w.name) bad = "logger name";
        else if (std::string(b.msg.data(), b.msg.size()) != w.text) bad = "text";
        else if (static_cast<int>(b.level) != w.level) bad = "level";
        else if (b.loc.filename != w.file || b.loc.funcname != w.func || b.loc.line != w.line) bad = "source location";
        else if (std::chrono::duration_cast<std::chrono::nanoseconds>(b.time.time_since_epoch()).count() != w.t) bad = "time";
        else if (b.tid != w.tid) bad = "thread id";
        if (!bad.empty()) viol("stored_copy", sf("after%s the %s of stored record %zu is not the original's", trail.c_str(), bad.c_str(), k));
        stat("stored_copies_read");
        return bad.empty();
    };
    int nops = r.range(3, 40);
    for (int op = 0; op < nops; op++) {
        size_t a = r.below(v.size()), b = r.below(v.size());
        int k = r.range(0, 6);
        static const char* nm[] = {"make", "copy", "assign", "move", "move-assign", "drop", "swap"};
        trail += sf(" %s(%zu,%zu)", nm[k], a, b);
        if (trail.size() > 400) trail = " ..." + trail.substr(trail.size() - 300);
        switch (k) {
            case 0: {
                want w;
                w.name = any(len());
                w.text = any(len());
                w.level = r.range(0, 5);
                w.file = r.chance(50) ? pick_file(r.next()) : nullptr;
                w.line = w.file ? r.range(0, 99999) : 0;
                w.func = w.file ? pick_func(r.next()) : nullptr;
                w.t = static_cast<int64_t>(r.next() % 4000000000000000000ull);
                w.tid = static_cast<size_t>(gettid_());
                {
                    std::string n2 = w.name, t2 = w.text;       // gone when the record is read
                    ll::base::log_msg m(ll::sys_clock::time_point(std::chrono::duration_cast<ll::sys_clock::duration>(std::chrono::nanoseconds(w.t))),
                                        ll::source_loc{w.file, w.line, w.func}, static_cast<ll::level::level_enum>(w.level),
                                        ll::fmt_string_view(t2.data(), t2.size()), ll::fmt_string_view(n2.data(), n2.size()));
                    if (r.chance(50)) v[a].b.reset(new buf(m)); else *v[a].b = buf(m);
                    std::fill(n2.begin(), n2.end(), '!');
                    std::fill(t2.begin(), t2.end(), '!');
                }
                v[a].w = w;
                break;
            }
            case 1: if (a != b) { v[a].b.reset(new buf(*v[b].b)); v[a].w = v[b].w; } break;
            case 2: { const buf& from = *v[b].b; *v[a].b = from; v[a].w = v[b].w; break; }
            case 3: if (a != b) { v[a].b.reset(new buf(std::move(*v[b].b))); v[a].w = v[b].w; v[b].w.name.clear(); v[b].w.text.clear(); } break;
            case 4: if (a != b) { *v[a].b = std::move(*v[b].b); v[a].w = v[b].w; v[b].w.name.clear(); v[b].w.text.clear(); } break;
            case 5: v[a].b.reset(new buf()); v[a].w = want(); break;
            default: if (a != b) { std::swap(*v[a].b, *v[b].b); std::swap(v[a].w, v[b].w); } break;
        }
        h = hash_mix(h, static_cast<uint64_t>(k) * 64 + a * 8 + b);
        if (r.chance(30)) for (size_t x = 0; x < v.size(); x++) if (!same(x)) return;
    }
    for (size_t x = 0; x < v.size(); x++) if (!same(x)) return;
    casedone(h, true);
}

void vf_main() {
    stderr_capture cap;
    budget b;
    for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 1000)) && b.left() && !too_many(); i++) {
        one_case(i);
        if (i % 20 == 7) forked(i / 20);
        if (i % 10 == 3) for (uint64_t k = 0; k < 10; k++) stored_copies(i / 10 * 10 + k);
        if (i % 50 == 0) {
            auto rp = reports(cap.text());
            if (!rp.empty()) { viol("error_report", sf("a valid call was reported: %s", esc(rp.back().second, 300).c_str())); break; }
        }
    }
}
