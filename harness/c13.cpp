// C13: every pattern and message is rendered as documented. The reference below works on the pattern text
// and the message alone; nothing of the library is used for it.
#include "async.h"
#include "sinks/ostream_sink.h"
#include "sinks/formatters/pattern_formatter.h"

using namespace vf;
using ll::sinks::pattern_formatter;

struct m_in {
    std::string text, name, file, func;
    bool has_func = true;
    int line = 0, level = 2;
    int64_t ns = 0;
    size_t tid = 0;
};
// a custom flag shows what it was given
struct cust : ll::sinks::custom_flag_formatter {
    std::string id;
    int uses = 0;
    explicit cust(std::string i) : id(std::move(i)) {}
    void format(const ll::base::log_msg& m, const std::tm& tm, ll::fmt_memory_buf& b) override {
        std::string s = "{" + id + (spaces_info_.enabled() ? sf("|%zu%c%s", spaces_info_.target_len_,
            spaces_info_.side_ == ll::sinks::spaces_info::fill_side::left ? '>' : spaces_info_.side_ == ll::sinks::spaces_info::fill_side::right ? '<' : '=',
            spaces_info_.truncate_ ? "!" : "") : "|none") + sf("|%d|%d|", tm.tm_sec, uses++) + std::string(m.msg.data(), std::min<size_t>(m.msg.size(), 5)) + "}";
        b.append(s.data(), s.data() + s.size());
    }
    std::unique_ptr<ll::sinks::custom_flag_formatter> clone() const override { return std::unique_ptr<cust>(new cust(id)); }
};

// the reference: state of one formatter
struct ref {
    std::string pattern, eol;
    std::map<char, std::string> custom;
    int uses_base = 0;
    std::map<size_t, int64_t> last;      // duration flags by position in the pattern
    std::map<size_t, int> uses;          // custom flags by position
    int64_t born_lo = 0, born_hi = 0;
    bool uncertain = false;              // the value depends on when exactly the formatter was made
    size_t cs = 0, ce = 0;
    bool has_cs = false, has_ce = false;
    std::set<char> flags;

    static std::string two(int n) { std::string s = std::to_string(n); return s.size() < 2 ? "0" + s : s; }
    static std::string zeros(long long n, size_t w) { std::string s = std::to_string(n); while (s.size() < w) s = "0" + s; return s; }
    static std::string place(const std::string& t, bool on, char side, size_t w, bool cut) {
        if (!on) return t;
        if (w > 64) w = 64;
        if (t.size() >= w) return cut ? t.substr(0, w) : t;
        size_t n = w - t.size();
        if (side == '-') return t + std::string(n, ' ');
        if (side == '=') return std::string(n / 2, ' ') + t + std::string(n - n / 2, ' ');
        return std::string(n, ' ') + t;
    }
    std::string render(const m_in& m) {
        static const char* wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
        static const char* mo[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
        static const char* lv[] = {"trace", "debug", "info", "warn", "error", "critical", "off"};
        long long frac = m.ns % 1000000000;
        if (frac < 0) frac += 1000000000;
        std::time_t tt = static_cast<std::time_t>((m.ns - frac) / 1000000000);
        std::tm tm;
        localtime_r(&tt, &tm);
        std::string y = std::to_string(tm.tm_year + 1900), hms = two(tm.tm_hour) + ":" + two(tm.tm_min) + ":" + two(tm.tm_sec);
        std::string out;
        uncertain = false;
        has_cs = has_ce = false;
        size_t i = 0, n = pattern.size();
        while (i < n) {
            if (pattern[i] != '%') { out += pattern[i++]; continue; }
            size_t at = i++;
            char side = '>';
            bool on = false, cut = false;
            size_t w = 0;
            if (i < n && (pattern[i] == '-' || pattern[i] == '=')) side = pattern[i++];
            while (i < n && pattern[i] >= '0' && pattern[i] <= '9') {
                on = true;
                w = std::min<size_t>(w * 10 + static_cast<size_t>(pattern[i] - '0'), 100000);
                i++;
            }
            if (on && i < n && pattern[i] == '!') { cut = true; i++; }
            if (i >= n) break;
            char f = pattern[i++];
            flags.insert(f);
            auto c = custom.find(f);
            if (c != custom.end()) {
                out += "{" + c->second + (on ? sf("|%zu%c%s", std::min<size_t>(w, 64), side == '>' ? '>' : side == '-' ? '<' : '=', cut ? "!" : "") : "|none")
                       + sf("|%d|%d|", tm.tm_sec, uses[at]++) + m.text.substr(0, 5) + "}";
                continue;
            }
            auto put = [&](const std::string& s) { out += place(s, on, side, w, cut); };
            bool loc = m.line > 0;
            switch (f) {
                case 'n': put(m.name); break;
                case 'l': put(lv[m.level]); break;
                case 'v': put(m.text); break;
                case 'a': put(wd[tm.tm_wday]); break;
                case 'b': put(mo[tm.tm_mon]); break;
                case 'c': put(std::string(wd[tm.tm_wday]) + " " + mo[tm.tm_mon] + " " + two(tm.tm_mday) + " " + hms + " " + y); break;
                case 'y': put(y); break;
                case 'm': put(two(tm.tm_mon + 1)); break;
                case 'd': put(two(tm.tm_mday)); break;
                case 'H': put(two(tm.tm_hour)); break;
                case 'M': put(two(tm.tm_min)); break;
                case 'S': put(two(tm.tm_sec)); break;
                case 'T': put(hms); break;
                case 'E': put(zeros(frac / 1000000, 3)); break;
                case 'F': put(zeros(frac / 1000, 6)); break;
                case 'G': put(zeros(frac, 9)); break;
                case 'p': put(std::to_string(getpid())); break;
                case 't': put(std::to_string(m.tid)); break;
                case '@': put(loc ? m.file + ":" + std::to_string(m.line) : ""); break;
                case 'A': put(loc ? m.file : ""); break;
                case 'B': put(loc ? std::to_string(m.line) : ""); break;
                case 'C': put(loc && m.has_func ? m.func : ""); break;
                case '%': out += '%'; break;
                case '^': cs = out.size(); has_cs = true; break;
                case '$': ce = out.size(); has_ce = true; break;
                case 'W': case 'X': case 'Y': case 'Z': {
                    long long unit = f == 'W' ? 1 : f == 'X' ? 1000 : f == 'Y' ? 1000000 : 1000000000;
                    auto l = last.find(at);
                    int64_t lo = l == last.end() ? born_lo : l->second, hi = l == last.end() ? born_hi : l->second;
                    long long a = std::max<long long>(m.ns - hi, 0) / unit, b = std::max<long long>(m.ns - lo, 0) / unit;
                    if (a != b) uncertain = true;
                    put(std::to_string(a));
                    last[at] = m.ns;
                    break;
                }
                case '+':
                    out += "[" + y + "-" + two(tm.tm_mon + 1) + "-" + two(tm.tm_mday) + " " + hms + "." + zeros(frac / 1000000, 3) + "] ";
                    if (!m.name.empty()) out += "[" + m.name + "] ";
                    out += "[";
                    cs = out.size();
                    out += lv[m.level];
                    ce = out.size();
                    has_cs = has_ce = true;
                    out += "] ";
                    if (loc) out += "[" + m.file + ":" + zeros(m.line, 5) + "] ";
                    out += m.text;
                    break;
                default: out += '%'; out += f;
            }
        }
        return out + eol;
    }
};

static const char* zones[] = {"UTC0", "XXX-5:45", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "AAA+11:30", "BBB-13", "CCC12"};
static std::string bytes(rng& r, size_t n, int odd) {
    std::string s;
    for (size_t i = 0; i < n; i++) s += r.chance(odd) ? static_cast<char>(r.below(256)) : static_cast<char>(' ' + r.below(95));
    return s;
}
static size_t rlen(rng& r) {
    int k = r.range(0, 99);
    return k < 10 ? 0 : k < 60 ? r.below(20) : k < 80 ? 55 + r.below(20) : k < 95 ? 200 + r.below(120) : r.below(5000);
}
static std::string cstr(std::string s) { for (auto& c : s) if (!c) c = '0'; return s; }
static bool old_times = false;           // times before 1970 as well; the others then stay within +-127 years, so that differences fit
static m_in gen_m(rng& r, int64_t prev) {
    m_in m;
    m.text = bytes(r, rlen(r), 8);
    m.name = bytes(r, r.chance(15) ? 0 : r.chance(80) ? r.below(15) : r.below(400), 5);
    m.level = r.range(0, 6);
    int k = r.range(0, 3);
    m.line = k == 0 ? 0 : k == 1 ? r.range(1, 99) : k == 2 ? r.range(90000, 200000) : static_cast<int>(r.below(2147483647u)) + (r.chance(50) ? 1 : 0);
    if (r.chance(4)) m.line = -r.range(1, 1000);
    m.file = cstr(bytes(r, r.chance(10) ? 0 : r.chance(80) ? r.below(30) : r.below(300), 5));
    m.has_func = r.chance(80);
    m.func = cstr(bytes(r, r.chance(10) ? 0 : r.below(90), 5));
    k = r.range(0, 9);
    if (k < 3 && prev) m.ns = prev / 1000000000 * 1000000000 + static_cast<int64_t>(r.below(1000000000));            // the same second
    else if (k < 6 && prev) m.ns = std::max<int64_t>(old_times ? -4000000000000000000ll : 0, prev + static_cast<int64_t>(r.below(200000000000ull)) - 100000000000ll);
    else if (k < 7) m.ns = static_cast<int64_t>(r.below(1000000000ull) * (r.chance(50) ? 1 : 0) + r.below(90000ull) * 1000000000ull);
    else if (k < 9) m.ns = static_cast<int64_t>(r.below(9200000000ull)) * 1000000000ll + static_cast<int64_t>(r.below(1000000000));
    else m.ns = sys_ns();
    if (old_times) {
        m.ns %= 4000000000000000000ll;
        if (!prev && r.chance(70)) m.ns = -m.ns;
        else if (r.chance(15)) m.ns = -static_cast<int64_t>(r.below(3000000000ull));
        if (m.ns < 0) stat("before_1970");
    }
    if (r.chance(10)) m.ns = m.ns / 1000000000 * 1000000000 + r.pick(std::vector<int64_t>{0, 1, 999999999, 999999, 1000000, 999000000, 10000000, 9999999});
    k = r.range(0, 3);
    m.tid = k == 0 ? r.below(10) : k == 1 ? r.below(100000) : k == 2 ? r.next() : static_cast<size_t>(-1) >> r.below(64);
    return m;
}
static ll::base::log_msg to_msg(const m_in& m) {
    ll::source_loc loc(m.file.c_str(), m.line, m.has_func ? m.func.c_str() : nullptr);
    ll::base::log_msg x(tp_of(m.ns), loc, static_cast<lvl>(m.level), ll::fmt_string_view(m.text.data(), m.text.size()),
                        ll::fmt_string_view(m.name.data(), m.name.size()));
    x.tid = m.tid;
    return x;
}
static const char known[] = "+nlabcymdHMSEFGTWXYZptv^$@ABC%";
static std::string gen_pattern(rng& r, const std::map<char, std::string>& custom) {
    std::string p;
    int parts = r.chance(5) ? 0 : r.range(1, r.chance(80) ? 6 : 20);
    for (int i = 0; i < parts; i++) {
        if (r.chance(50)) p += bytes(r, r.below(6), 10);
        if (r.chance(5)) continue;
        p += '%';
        if (r.chance(45)) {
            int k = r.range(0, 5);
            if (k == 0) p += '-';
            if (k == 1) p += '=';
            if (!r.chance(6)) p += r.chance(80) ? std::to_string(r.below(30)) : r.chance(50) ? std::to_string(55 + r.below(20)) : sf("%0*d", r.range(1, 12), r.range(0, 999));
            if (r.chance(35)) p += '!';
        }
        if (!custom.empty() && r.chance(25)) {
            auto it = custom.begin();
            std::advance(it, static_cast<long>(r.below(custom.size())));
            p += it->first;
        } else if (r.chance(90)) p += known[r.below(sizeof known - 1)];
        else if (r.chance(90)) p += static_cast<char>(r.below(256));
    }
    if (r.chance(4)) p += r.pick(std::vector<std::string>{"%", "%-", "%=", "%5", "%-5!", "%%", "%=64!", "%0"});
    return p;
}

static std::string diff(const std::string& a, const std::string& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t f = i > 15 ? i - 15 : 0;
    return sf("byte %zu of %zu/%zu: '%s' instead of '%s'", i, a.size(), b.size(), esc(a.substr(f, 120), 200).c_str(), esc(b.substr(f, 120), 200).c_str());
}
static void compare_one(pattern_formatter& f, ref& rf, const m_in& m, const std::string& pre, const char* what) {
    ll::fmt_memory_buf buf;
    buf.append(pre.data(), pre.data() + pre.size());
    ll::base::log_msg msg = to_msg(m);
    f.format(msg, buf);
    std::string got(buf.data(), buf.size()), exp = pre + rf.render(m);
    stat("formatted");
    if (rf.uncertain) { stat("uncertain"); return; }
    if (got != exp) {
        viol("rendering", sf("%s: pattern '%s', eol '%s', %s (time %lld, line %d, TZ %s)", what, esc(rf.pattern, 200).c_str(), esc(rf.eol).c_str(),
                             diff(got, exp).c_str(), (long long)m.ns, m.line, getenv("TZ")));
        return;
    }
    if (rf.has_cs && rf.has_ce && (msg.color_index_start != pre.size() + rf.cs || msg.color_index_end != pre.size() + rf.ce))
        viol("marked_range", sf("%s: pattern '%s': marked [%zu, %zu) instead of [%zu, %zu)", what, esc(rf.pattern, 200).c_str(),
                                msg.color_index_start, msg.color_index_end, pre.size() + rf.cs, pre.size() + rf.ce));
}

static void random_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    old_times = r.chance(20);
    setenv("TZ", zones[r.below(sizeof zones / sizeof *zones)], 1);
    tzset();
    label(sf("random case %llu", (unsigned long long)i));
    ref rf;
    int nc = r.chance(40) ? r.range(1, 3) : 0;
    pattern_formatter::cust_flag_table tab;
    for (int c = 0; c < nc; c++) {
        char f = r.chance(50) ? known[r.below(sizeof known - 1)] : static_cast<char>(r.below(256));
        std::string id = sf("c%d", c);
        rf.custom[f] = id;
    }
    rf.pattern = gen_pattern(r, rf.custom);
    rf.eol = r.chance(60) ? "\n" : r.chance(50) ? "" : bytes(r, r.below(5), 20);
    bool late = nc && r.chance(50);      // flags added after the construction
    if (!late) for (auto& c : rf.custom) tab[c.first] = std::unique_ptr<cust>(new cust(c.second));
    std::unique_ptr<pattern_formatter> f;
    rf.born_lo = sys_ns();
    if (late) {
        f.reset(new pattern_formatter(r.chance(30) ? rf.pattern : r.chance(50) ? "" : "%v %W", rf.eol));
        for (auto& c : rf.custom) {
            if (r.chance(30)) f->add_custom_flag<cust>(c.first, "replaced");
            f->add_custom_flag<cust>(c.first, c.second);
        }
        if (r.chance(30)) { ll::fmt_memory_buf b; f->format(to_msg(gen_m(r, 0)), b); }
        rf.born_lo = sys_ns();
        f->set_pattern(rf.pattern);
    } else if (nc == 0 && rf.eol == "\n" && r.chance(10)) {
        f.reset(new pattern_formatter());
        rf.pattern = "%+";
    } else f.reset(new pattern_formatter(rf.pattern, rf.eol, std::move(tab)));
    rf.born_hi = sys_ns();
    int n = r.range(1, 8);
    int64_t prev = 0;
    uint64_t h = hash_str(rf.pattern);
    std::vector<std::pair<std::unique_ptr<pattern_formatter>, ref>> clones;
    for (int k = 0; k < n; k++) {
        m_in m = gen_m(r, prev);
        prev = m.ns;
        std::string pre = r.chance(20) ? bytes(r, r.below(300), 0) : "";
        compare_one(*f, rf, m, pre, "formatter");
        h = hash_mix(h, hash_str(m.text));
        for (auto& c : clones) if (r.chance(60)) compare_one(*c.first, c.second, gen_m(r, prev), "", "clone");
        if (r.chance(15) && clones.size() < 3) {
            ref cr;
            const pattern_formatter& from = clones.empty() || r.chance(60) ? *f : *clones.back().first;
            cr.pattern = rf.pattern;
            cr.eol = rf.eol;
            cr.custom = rf.custom;
            if (&from != f.get()) { cr.pattern = clones.back().second.pattern; cr.custom = clones.back().second.custom; }
            cr.born_lo = sys_ns();
            auto c = from.clone();
            cr.born_hi = sys_ns();
            clones.emplace_back(std::unique_ptr<pattern_formatter>(static_cast<pattern_formatter*>(c.release())), cr);
            stat("clones");
        }
        if (r.chance(12)) {
            ref nr;
            nr.eol = rf.eol;
            nr.custom = rf.custom;
            if (r.chance(30)) {             // a flag added now means something from the next pattern on
                char c = rf.pattern.empty() || r.chance(30) ? static_cast<char>(r.below(256)) : rf.pattern[r.below(rf.pattern.size())];
                nr.custom[c] = "later";
                f->add_custom_flag<cust>(c, "later");
                compare_one(*f, rf, gen_m(r, prev), "", "formatter with a flag not yet in use");
            }
            // the pattern it has already starts it anew as well
            nr.pattern = r.chance(40) ? rf.pattern : gen_pattern(r, nr.custom);
            if (nr.pattern == rf.pattern) stat("same_pattern_again");
            nr.born_lo = sys_ns();
            f->set_pattern(nr.pattern);
            nr.born_hi = sys_ns();
            rf = nr;
            stat("pattern_changes");
        }
        if (r.chance(10) && !clones.empty()) {      // a clone has everything of its own: custom flags too, used so far or not
            auto& c = clones[r.below(clones.size())];
            ref nr;
            nr.eol = c.second.eol;
            nr.custom = c.second.custom;
            if (r.chance(20)) {
                char f = static_cast<char>(r.below(256));
                nr.custom[f] = "added";
                c.first->add_custom_flag<cust>(f, "added");
            }
            nr.pattern = gen_pattern(r, nr.custom);
            nr.born_lo = sys_ns();
            c.first->set_pattern(nr.pattern);
            nr.born_hi = sys_ns();
            c.second = nr;
            stat("clone_pattern_changes");
        }
        if (r.chance(5) && !clones.empty()) clones.erase(clones.begin());
    }
    if (nc) stat("custom_flag_cases");
    casedone(h, rf.flags.size() > 1);
    if (i < 4) sample("pattern '" + esc(rf.pattern, 100) + "'");
}

// through a logger and a sink
static void logger_case(uint64_t i) {
    uint64_t cs = caseseed(1000000 + i);
    rng r(cs);
    old_times = r.chance(20);
    setenv("TZ", zones[r.below(sizeof zones / sizeof *zones)], 1);
    tzset();
    label(sf("logger case %llu", (unsigned long long)i));
    std::ostringstream os;
    auto sk = std::make_shared<ll::sinks::ostream_sink_mt>(os, r.chance(50));
    std::string name = bytes(r, r.below(12), 10);
    auto lg = std::make_shared<ll::logger>(name, sk);
    lg->set_log_level(ll::level::trace);
    ref rf;
    rf.eol = "\n";
    rf.pattern = "%+";
    std::string exp;
    bool skip = false;
    uint64_t h = cs;
    for (int k = 0, n = r.range(1, 12); k < n; k++) {
        if (r.chance(40)) {
            ref nr;
            nr.pattern = gen_pattern(r, {});
            nr.eol = "\n";
            nr.born_lo = sys_ns();
            int how = r.range(0, 2);
            if (how == 0) lg->set_pattern(nr.pattern);
            else if (how == 1) sk->set_pattern(nr.pattern);
            else {
                nr.eol = r.chance(50) ? "\r\n" : ";";
                lg->set_formatter(ll::make_unique<pattern_formatter>(nr.pattern, nr.eol));
            }
            nr.born_hi = sys_ns();
            rf = nr;
        }
        m_in m = gen_m(r, 0);
        m.name = name;
        m.level = r.range(0, 5);
        m.tid = static_cast<size_t>(gettid_());
        ll::source_loc loc(m.file.c_str(), m.line, m.has_func ? m.func.c_str() : nullptr);
        os.str("");
        lg->log(tp_of(m.ns), loc, static_cast<lvl>(m.level), ll::fmt_string_view(m.text.data(), m.text.size()));
        std::string e = rf.render(m);
        if (!rf.uncertain && os.str() != e)
            viol("sink_rendering", sf("pattern '%s', eol '%s': %s", esc(rf.pattern, 200).c_str(), esc(rf.eol).c_str(), diff(os.str(), e).c_str()));
        h = hash_mix(h, hash_str(e));
        stat("formatted");
    }
    (void)skip;
    casedone(h, true);
}

// a formatter goes on in a forked child, where the process has another number
static void forked(uint64_t i) {
    rng r(caseseed(2000000 + i));
    label(sf("fork case %llu", (unsigned long long)i));
    old_times = false;
    ref rf;
    rf.eol = "\n";
    rf.pattern = sf("%%%s|%%%d!p|%%t|%%p %%v", r.chance(50) ? "9p" : "=12p", r.range(1, 9));
    pattern_formatter f(rf.pattern);
    bool used = r.chance(70);
    if (used) compare_one(f, rf, gen_m(r, 0), "", "before fork()");
    m_in m = gen_m(r, 0);
    int fd[2];
    if (pipe(fd)) return;
    pid_t pid = fork();
    if (pid == 0) {
        ll::fmt_memory_buf b;
        f.format(to_msg(m), b);
        ref cr = rf;
        std::string d = std::string(b.data(), b.size()) == cr.render(m) ? "ok" : diff(std::string(b.data(), b.size()), cr.render(m));
        if (write(fd[1], d.data(), d.size()) < 0) _exit(1);
        _exit(0);
    }
    close(fd[1]);
    std::string got;
    char buf[4096];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) got.append(buf, static_cast<size_t>(n));
    close(fd[0]);
    if (pid > 0) waitpid(pid, nullptr, 0);
    VF_CHECK(got == "ok", "forked", "pattern '%s' in a forked child: %s", esc(rf.pattern).c_str(), got.c_str());
    compare_one(f, rf, gen_m(r, 0), "", "after fork()");
    stat("forks");
    casedone(hash_mix(hash_str(rf.pattern), i), true);
}

static void grid() {
    old_times = false;
    setenv("TZ", "CET-1CEST,M3.5.0,M10.5.0/3", 1);
    tzset();
    rng r(S().seed);
    std::vector<m_in> ms;
    for (int k = 0; k < 6; k++) {
        m_in m = gen_m(r, 0);
        m.text = std::string(static_cast<size_t>(k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 63 : k == 3 ? 64 : k == 4 ? 65 : 7), 'x') + (k == 5 ? std::string("\0%v{}", 5) : "");
        m.name = k % 2 ? "logger" : "";
        m.level = k;
        m.line = k == 0 ? 0 : r.range(1, 100000);
        m.file = "src/file.cpp";
        ms.push_back(m);
    }
    for (const char* p = known; *p; p++)
        for (const char* side : {"", "-", "="})
            for (int w = -1; w <= 70; w++)
                for (const char* cut : {"", "!"}) {
                    label(sf("grid %c %s%d%s", *p, side, w, cut));
                    ref rf;
                    rf.eol = "\n";
                    rf.pattern = std::string("<%") + side + (w < 0 ? "" : std::to_string(w)) + cut + *p + ">%^%l%$";
                    rf.born_lo = sys_ns();
                    pattern_formatter f(rf.pattern);
                    rf.born_hi = sys_ns();
                    for (auto& m : ms) compare_one(f, rf, m, "", "grid");
                    stat("grid_patterns");
                    casedone(hash_str(rf.pattern), true);
                }
    for (int c = 0; c < 256; c++)
        for (const char* pre : {"%", "%3", "%-4!", "%=70", "x%%%"}) {
            ref rf;
            rf.eol = "\n";
            rf.pattern = std::string(pre) + static_cast<char>(c) + "z";
            rf.born_lo = sys_ns();
            pattern_formatter f(rf.pattern);
            rf.born_hi = sys_ns();
            for (auto& m : ms) compare_one(f, rf, m, "", "every character");
            casedone(hash_str(rf.pattern), true);
        }
    // every short pattern over the characters that matter to the parser
    const std::string al = "%-=!12vqx^";
    size_t maxlen = S().thorough ? 6 : 5;
    for (size_t len = 0; len <= maxlen; len++) {
        std::vector<size_t> ix(len, 0);
        for (;;) {
            ref rf;
            rf.eol = "";
            for (size_t k : ix) rf.pattern += al[k];
            pattern_formatter f(rf.pattern, "");
            compare_one(f, rf, ms[5], "", "short pattern");
            stat("short_patterns");
            size_t k = 0;
            while (k < len && ++ix[k] == al.size()) ix[k++] = 0;
            if (k == len) break;
        }
        label(sf("short patterns of length %zu", len));
        casedone(hash_mix(77, len), true);
    }
    // the first duration is counted from the construction
    for (char c : {'W', 'X', 'Y', 'Z'})
        for (int k = 0; k < 20; k++) {
            long long unit = c == 'W' ? 1 : c == 'X' ? 1000 : c == 'Y' ? 1000000 : 1000000000;
            int64_t lo = sys_ns();
            pattern_formatter f(std::string("%") + c, "");
            int64_t hi = sys_ns();
            m_in m = ms[1];
            m.ns = hi + static_cast<int64_t>(r.below(100000000000ull));
            ll::fmt_memory_buf b;
            f.format(to_msg(m), b);
            long long v = strtoll(std::string(b.data(), b.size()).c_str(), nullptr, 10);
            VF_CHECK(lo > hi || (v >= (m.ns - hi) / unit && v <= (m.ns - lo) / unit), "first_duration", "%%%c: %lld outside [%lld, %lld]", c, v,
                     (long long)((m.ns - hi) / unit), (long long)((m.ns - lo) / unit));
            stat("first_durations");
        }
}

void vf_main() {
    budget b;
    if (S().mode == "grid") { grid(); return; }
    for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 1000)) && b.left() && !too_many(); i++) {
        random_case(i);
        if (i % 3 == 0) logger_case(i);
        if (i % 100 == 7) forked(i);
    }
}
