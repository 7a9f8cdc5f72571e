// C23: console sinks write every record unchanged to their own stream, coloured only on a colour terminal.
// The library decides about colours once per process, so every case runs in a forked child with its own
// environment and its own streams; the parent only sets up and waits.
#include "async.h"
#include "sinks/std_sinks.h"
#include "sinks/std_color_sinks.h"
#include "sinks/ostream_sink.h"
#include "sinks/formatters/pattern_formatter.h"
#include <poll.h>
#include <pty.h>
#include <termios.h>

using namespace vf;

static const char* color_words[] = {"ansi", "color", "console", "cygwin", "gnome", "konsole", "kterm", "linux", "msys",
                                    "putty", "rxvt", "screen", "vt100", "xterm", "alacritty", "vt102"};
static const char* lnames[] = {"trace", "debug", "info", "warn", "error", "critical"};
static const char* dflt_colors[] = {"\033[37m", "\033[36m", "\033[32m", "\033[33m\033[1m", "\033[31m\033[1m", "\033[1m\033[41m", "\033[m"};

struct counts { uint64_t records = 0, colored = 0, at_return = 0, terminals = 0, flushes = 0, bytes = 0, sinks = 0, own_colors = 0, logger_records = 0; };

// ---- one output of the child: terminal, pipe or file
struct outlet {
    int kind = 0;           // 0 terminal, 1 pipe, 2 file
    int r = -1, w = -1;
    std::string path, exp, written;
    std::mutex m;
    std::string got;
    std::thread t;
    bool color = false;
    const char* name = "";
    void open(int k, bool raw) {
        kind = k;
        if (k == 0) {
            if (openpty(&r, &w, nullptr, nullptr, nullptr) != 0) _exit(3);
            struct termios ti;
            tcgetattr(w, &ti);
            cfmakeraw(&ti);
            tcsetattr(w, TCSANOW, &ti);
            (void)raw;
        } else if (k == 1) {
            int p[2];
            if (pipe2(p, O_CLOEXEC) != 0) _exit(3);
            r = p[0];
            w = p[1];
        } else {
            static int n = 0;
            path = S().tmp + sf("/c23.%d.%d", getpid(), n++);
            w = ::open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND | O_CLOEXEC, 0600);
            if (w < 0) _exit(3);
        }
    }
    void start() {
        if (kind == 2) return;
        t = std::thread([this] {
            char b[65536];
            for (;;) {
                ssize_t n = ::read(r, b, sizeof b);
                if (n < 0 && errno == EINTR) continue;
                if (n <= 0) break;
                std::lock_guard<std::mutex> g(m);
                got.append(b, static_cast<size_t>(n));
            }
        });
    }
    std::string now() {
        if (kind == 2) return read_file(path);
        std::lock_guard<std::mutex> g(m);
        return got;
    }
    // everything expected has arrived; only its absence for a long time is a verdict
    bool arrived() {
        for (int i = 0; i < 100000; i++) {
            if (now().size() >= exp.size()) return true;
            if (kind == 2) return false;             // a file has it at once
            sleep_us(100);
        }
        return false;
    }
};

static std::string diff(const std::string& got, const std::string& exp) {
    size_t i = 0;
    while (i < got.size() && i < exp.size() && got[i] == exp[i]) i++;
    size_t b = i > 30 ? i - 30 : 0;
    return sf("%zu bytes instead of %zu, from byte %zu '%s' instead of '%s'", got.size(), exp.size(), b,
              esc(got.substr(b, 120), 200).c_str(), esc(exp.substr(b, 120), 200).c_str());
}

// a formatter of the user's: brackets the text and marks an arbitrary range
struct user_formatter : ll::sinks::formatter {
    size_t a, b;
    user_formatter(size_t a_, size_t b_) : a(a_), b(b_) {}
    static std::string text(const std::string& m) { return "{{" + m + "}}\r\n"; }
    void format(const ll::base::log_msg& msg, ll::fmt_memory_buf& buf) override {
        std::string s = text(std::string(msg.msg.data(), msg.msg.size()));
        buf.append(s.data(), s.data() + s.size());
        range(s.size(), msg.color_index_start, msg.color_index_end);
    }
    void range(size_t n, size_t& s, size_t& e) const { s = std::min(a, n); e = std::min(b, n); }
    ll::formatter_uni_ptr clone() const override { return ll::formatter_uni_ptr(new user_formatter(a, b)); }
};

// ---- a generated pattern and its independent rendering
struct gpat {
    std::string pattern, eol = "\n";
    std::vector<std::pair<int, std::string>> items;   // 0 literal, 1 %v, 2 %l, 3 %n, 4 %^, 5 %$, 6 %%
    bool user = false, dflt = false;
    size_t ua = 0, ub = 0;
    std::string render(int level, const std::string& text, const std::string& name, size_t& cs, size_t& ce) const {
        cs = ce = 0;
        std::string o;
        if (user) {
            o = user_formatter::text(text);
            user_formatter(ua, ub).range(o.size(), cs, ce);
            return o;
        }
        for (auto& i : items) switch (i.first) {
            case 0: o += i.second; break;
            case 1: o += text; break;
            case 2: o += lnames[level]; break;
            case 3: o += name; break;
            case 4: cs = o.size(); break;
            case 5: ce = o.size(); break;
            case 6: o += '%'; break;
        }
        return o + eol;
    }
};
static gpat gen_pat(rng& r) {
    gpat g;
    if (r.chance(10)) {
        g.user = true;
        g.ua = r.below(30);
        g.ub = r.below(60);
        return g;
    }
    int n = r.range(0, 7);
    for (int i = 0; i < n; i++) {
        int k = static_cast<int>(r.below(7));
        if (k == 4 || k == 5) k = 0;
        std::string lit;
        if (k == 0) for (uint64_t j = r.below(12) + 1; j; j--) {
            char c = static_cast<char>(r.chance(15) ? r.below(256) : ' ' + r.below(95));
            lit += c == '%' ? '&' : c;
        }
        g.items.emplace_back(k, lit);
    }
    // at most one range: usual, reversed, empty, only begun, only ended
    switch (r.below(8)) {
        case 0: break;
        case 1: g.items.emplace(g.items.begin() + static_cast<long>(r.below(g.items.size() + 1)), 4, ""); break;
        case 2: g.items.emplace(g.items.begin() + static_cast<long>(r.below(g.items.size() + 1)), 5, ""); break;
        default: {
            size_t a = r.below(g.items.size() + 1), b = r.below(g.items.size() + 1);
            if (r.chance(80) && a > b) std::swap(a, b);
            // insert the later one first
            if (a <= b) {
                g.items.emplace(g.items.begin() + static_cast<long>(b), 5, "");
                g.items.emplace(g.items.begin() + static_cast<long>(a), 4, "");
            } else {
                g.items.emplace(g.items.begin() + static_cast<long>(a), 4, "");
                g.items.emplace(g.items.begin() + static_cast<long>(b), 5, "");
            }
        }
    }
    for (auto& i : g.items) switch (i.first) {
        case 0: g.pattern += i.second; break;
        case 1: g.pattern += "%v"; break;
        case 2: g.pattern += "%l"; break;
        case 3: g.pattern += "%n"; break;
        case 4: g.pattern += "%^"; break;
        case 5: g.pattern += "%$"; break;
        case 6: g.pattern += "%%"; break;
    }
    return g;
}
static std::string gen_text(rng& r) {
    size_t n = r.chance(70) ? r.below(60) : r.chance(80) ? r.below(600) : r.below(20000);
    std::string s;
    for (size_t i = 0; i < n; i++) s += static_cast<char>(r.chance(10) ? r.below(256) : ' ' + r.below(95));
    return s;
}

struct console {
    ll::sink_shr_ptr s;
    bool colored_type = false;
    std::function<void(lvl, const std::string&)> set_color;
    int out = 0;
    gpat pat;
    std::vector<std::string> colors{dflt_colors, dflt_colors + 7};
};
template <typename T> static void mk_color(console& c) {
    auto s = std::make_shared<T>();
    c.set_color = [s](lvl l, const std::string& x) { s->set_level_color(l, x); };
    c.s = s;
    c.colored_type = true;
}
template <typename T> static void mk_color(console& c, FILE* f) {
    auto s = std::make_shared<T>(f);
    c.set_color = [s](lvl l, const std::string& x) { s->set_level_color(l, x); };
    c.s = s;
    c.colored_type = true;
}
template <typename T> static void from_factory(console& c, const ll::logger_shr_ptr& l) {
    auto s = std::dynamic_pointer_cast<T>(l->sinks().at(0));
    if (!s) { viol("wrong_sink_type", "a factory function built a sink of another type"); _exit(0); }
    c.s = s;
}
template <typename T> static void from_factory_c(console& c, const ll::logger_shr_ptr& l) {
    auto s = std::dynamic_pointer_cast<T>(l->sinks().at(0));
    if (!s) { viol("wrong_sink_type", "a factory function built a sink of another type"); _exit(0); }
    c.set_color = [s](lvl lv, const std::string& x) { s->set_level_color(lv, x); };
    c.s = s;
    c.colored_type = true;
}
static console make_console(rng& r, FILE* own) {
    console c;
    namespace sk = ll::sinks;
    static int n = 0;
    std::string nm = sf("f%d", n++);
    switch (r.below(own ? 20 : 16)) {
        case 0: c.s = std::make_shared<sk::stdout_sink_mt>(); break;
        case 1: c.s = std::make_shared<sk::stdout_sink_st>(); break;
        case 2: c.s = std::make_shared<sk::stderr_sink_mt>(); c.out = 1; break;
        case 3: c.s = std::make_shared<sk::stderr_sink_st>(); c.out = 1; break;
        case 4: mk_color<sk::stdout_color_sink_mt>(c); break;
        case 5: mk_color<sk::stdout_color_sink_st>(c); break;
        case 6: mk_color<sk::stderr_color_sink_mt>(c); c.out = 1; break;
        case 7: mk_color<sk::stderr_color_sink_st>(c); c.out = 1; break;
        case 8: from_factory<sk::stdout_sink_mt>(c, ll::stdout_logger_mt(nm)); break;
        case 9: from_factory<sk::stdout_sink_st>(c, ll::stdout_logger_st(nm)); break;
        case 10: from_factory<sk::stderr_sink_mt>(c, ll::stderr_logger_mt(nm)); c.out = 1; break;
        case 11: from_factory<sk::stderr_sink_st>(c, ll::stderr_logger_st(nm)); c.out = 1; break;
        case 12: from_factory_c<sk::stdout_color_sink_mt>(c, ll::stdout_color_logger_mt(nm)); break;
        case 13: from_factory_c<sk::stdout_color_sink_st>(c, ll::stdout_color_logger_st(nm)); break;
        case 14: from_factory_c<sk::stderr_color_sink_mt>(c, ll::stderr_color_logger_mt(nm)); c.out = 1; break;
        case 15: from_factory_c<sk::stderr_color_sink_st>(c, ll::stderr_color_logger_st(nm)); c.out = 1; break;
        case 16: mk_color<sk::ansicolor_sink<ll::base::static_mutex>>(c, own); c.out = 2; break;
        case 17: mk_color<sk::ansicolor_sink<ll::base::static_nullmutex>>(c, own); c.out = 2; break;
        case 18: c.s = std::make_shared<sk::std_sink<ll::base::static_mutex>>(own); c.out = 2; break;
        default: c.s = std::make_shared<sk::std_sink<ll::base::static_nullmutex>>(own); c.out = 2; break;
    }
    return c;
}

static std::string gen_env(rng& r, bool& color) {
    // TERM (or none) and COLORTERM (or none); color: what the process must conclude for terminals
    color = false;
    std::string d;
    unsetenv("COLORTERM");
    unsetenv("TERM");
    if (r.chance(20)) {
        static const char* v[] = {"truecolor", "24bit", "yes", "1"};
        const char* x = v[r.below(4)];
        setenv("COLORTERM", x, 1);
        d += std::string("COLORTERM=") + x + " ";
        color = true;
    }
    if (r.chance(90)) {
        std::string t;
        if (r.chance(60)) {
            t = color_words[r.below(16)];
            static const char* suf[] = {"", "", "-256color", "-color", ".xterm", "-noapp", "+x"};
            static const char* pre[] = {"", "", "", "my-", "x", "screen."};
            t = pre[r.below(6)] + t + suf[r.below(7)];
        } else {
            static const char* v[] = {"dumb", "", "unknown", "vt10", "vt220", "vt52", "XTERM", "network", "emacs", "xter", "erm", "sun",
                                      "colo", "ans", "screed", "linu", "gnom", "tt"};
            t = v[r.below(18)];
        }
        for (auto w : color_words) if (t.find(w) != std::string::npos) color = true;
        setenv("TERM", t.c_str(), 1);
        d += "TERM=" + t;
    }
    return d;
}

static void child(uint64_t cs, int back) {
    rng r(cs);
    bool color_env = false;
    std::string env = gen_env(r, color_env);
    outlet o[3];
    FILE* own = nullptr;
    std::string desc = env + " ";
    static const char* kn[] = {"terminal", "pipe", "file"};
    counts ct;
    for (int i = 0; i < 3; i++) {
        o[i].open(r.chance(60) ? 0 : r.range(1, 2), true);
        o[i].name = i == 0 ? "stdout" : i == 1 ? "stderr" : "an own stream";
        o[i].color = o[i].kind == 0 && color_env;
        desc += std::string(kn[o[i].kind]) + (o[i].color ? "(colour) " : " ");
        if (o[i].kind == 0) ct.terminals++;
    }
    label(desc);
    fflush(stdout);
    fflush(stderr);
    int real2 = fcntl(2, F_DUPFD_CLOEXEC, 50);
    dup2(o[0].w, 1);
    dup2(o[1].w, 2);
    if (r.chance(50)) own = fdopen(o[2].w, "a");
    static char obuf[3][16384];
    if (r.chance(30)) setvbuf(stdout, obuf[0], r.chance(30) ? _IOLBF : _IOFBF, r.chance(50) ? 64 : sizeof obuf[0]);
    if (own && r.chance(30)) setvbuf(own, obuf[2], r.chance(30) ? _IONBF : _IOFBF, 512);
    for (auto& x : o) x.start();
    setenv("TZ", "UTC", 1);

    std::vector<std::shared_ptr<console>> cons;
    std::vector<std::pair<ll::logger_shr_ptr, std::vector<std::shared_ptr<console>>>> loggers;
    std::string dfl_pat = r.chance(50) ? "<%n> %^%l%$ %v" : "%^[%l] %v%$";
    ll::set_global_pattern(dfl_pat);
    // the default logger writes to stdout, coloured
    {
        auto d = std::make_shared<console>();
        auto l = ll::get_default_logger();
        if (!l || l->sinks().size() != 1) { viol("default_logger", "no default logger with one sink"); _exit(0); }
        auto sk = std::dynamic_pointer_cast<ll::sinks::stdout_color_sink_mt>(l->sinks().at(0));
        if (!sk) { viol("default_logger", "the default logger's sink is no coloured stdout sink"); _exit(0); }
        l->set_log_level(lvl::trace);
        d->s = sk;
        d->set_color = [sk](lvl a, const std::string& b) { sk->set_level_color(a, b); };
        d->colored_type = true;
        if (dfl_pat[0] == '<') d->pat.items = {{0, "<"}, {3, ""}, {0, "> "}, {4, ""}, {2, ""}, {5, ""}, {0, " "}, {1, ""}};
        else d->pat.items = {{4, ""}, {0, "["}, {2, ""}, {0, "] "}, {1, ""}, {5, ""}};
        cons.push_back(d);
        loggers.emplace_back(l, std::vector<std::shared_ptr<console>>{d});
    }
    auto expect_record = [&](console& c, int level, const std::string& text, const std::string& name) {
        size_t a, b;
        std::string t = c.pat.render(level, text, name, a, b);
        std::string& e = o[c.out].exp;
        if (c.colored_type && o[c.out].color && b > a) {
            e += t.substr(0, a) + c.colors[static_cast<size_t>(level)] + t.substr(a, b - a) + "\033[m" + t.substr(b);
            ct.colored++;
        } else e += t;
        ct.records++;
        ct.bytes += t.size();
    };
    auto verify = [&](int i, const char* when, bool plain) {
        outlet& x = o[i];
        if (!x.arrived() || x.now() != x.exp) {
            std::string g = x.now();
            if (g.size() < x.exp.size() && x.exp.compare(0, g.size(), g) == 0)
                viol(plain ? "record_not_written_out" : "output_incomplete",
                     sf("%s: %s (%s) %s", desc.c_str(), x.name, when, diff(g, x.exp).c_str()));
            else viol("output_differs", sf("%s: %s (%s) %s", desc.c_str(), x.name, when, diff(g, x.exp).c_str()));
            dup2(real2, 2);
            _exit(0);
        }
    };
    int ops = r.range(5, 60);
    for (int k = 0; k < ops; k++) {
        int what = static_cast<int>(r.below(100));
        if (what < 8 || cons.size() < 2) {
            auto c = std::make_shared<console>(make_console(r, own));
            c->pat = gen_pat(r);
            if (c->pat.user) c->s->set_formatter(ll::formatter_uni_ptr(new user_formatter(c->pat.ua, c->pat.ub)));
            else c->s->set_pattern(c->pat.pattern);
            cons.push_back(c);
            ct.sinks++;
        } else if (what < 14) {
            std::vector<std::shared_ptr<console>> set;
            std::vector<ll::sink_shr_ptr> ss;
            size_t n = static_cast<size_t>(r.range(1, 3));
            for (size_t i = 0; i < n; i++) { set.push_back(cons[r.below(cons.size())]); ss.push_back(set.back()->s); }
            auto l = std::make_shared<ll::logger>(sf("L%d", k), ss.begin(), ss.end());
            l->set_log_level(lvl::trace);
            loggers.emplace_back(l, set);
        } else if (what < 26) {
            auto& c = *cons[r.below(cons.size())];
            gpat g = gen_pat(r);
            if (!g.user && r.chance(30)) {
                static const char* eols[] = {"", "\r\n", "\n", " |", "\n\n"};
                g.eol = eols[r.below(5)];
                c.s->set_formatter(ll::formatter_uni_ptr(new ll::sinks::pattern_formatter(g.pattern, g.eol)));
            } else if (g.user) c.s->set_formatter(ll::formatter_uni_ptr(new user_formatter(g.ua, g.ub)));
            else c.s->set_pattern(g.pattern);
            c.pat = g;
        } else if (what < 36) {
            auto& c = *cons[r.below(cons.size())];
            if (c.set_color) {
                int l = r.range(0, 5);
                std::string v;
                switch (r.below(5)) {
                    case 0: v = ""; break;
                    case 1: v = "\033[38;5;" + std::to_string(r.below(256)) + "m"; break;
                    case 2: v = dflt_colors[r.below(6)]; break;
                    case 3: v = "\033[38;2;" + std::to_string(r.below(256)) + ";" + std::to_string(r.below(256)) + ";1m\033[4m\033[7m"; break;
                    default: v = "<colour>";
                }
                c.set_color(static_cast<lvl>(l), v);
                c.colors[static_cast<size_t>(l)] = v;
                ct.own_colors++;
            }
        } else if (what < 42) {
            auto& c = *cons[r.below(cons.size())];
            c.s->flush();
            ct.flushes++;
            verify(c.out, "after flush()", false);
        } else if (what < 70) {
            // one message given to several sinks in turn, as a logger does
            std::string text = gen_text(r), name = r.chance(20) ? "" : sf("n%llu", (unsigned long long)r.below(1000));
            int lv = r.range(0, 5);
            ll::base::log_msg m(static_cast<lvl>(lv), ll::fmt_string_view(text.data(), text.size()), ll::fmt_string_view(name.data(), name.size()));
            if (r.chance(20)) { m.color_index_start = r.below(10); m.color_index_end = 5 + r.below(100); }   // left over from elsewhere
            int n = r.range(1, 3);
            for (int i = 0; i < n; i++) {
                auto& c = *cons[r.below(cons.size())];
                expect_record(c, lv, text, name);
                c.s->log(m);
                if (!c.colored_type) { ct.at_return++; verify(c.out, "when log() of a plain sink returned", true); }
            }
        } else {
            auto& l = loggers[r.below(loggers.size())];
            std::string text = gen_text(r);
            int lv = r.range(0, 5);
            for (auto& c : l.second) expect_record(*c, lv, text, l.first->name());
            ct.logger_records++;
            if (&l == &loggers[0] && r.chance(60)) {
                switch (lv) {
                    case 0: ll::trace(text); break;
                    case 1: ll::debug("{}", text); break;
                    case 2: ll::info(text); break;
                    case 3: ll::warn("{}", text); break;
                    case 4: ll::error(text); break;
                    default: ll::critical(text);
                }
            } else l.first->log(static_cast<lvl>(lv), "{}", text);
            std::set<int> plain;
            // what a plain sink wrote is out, and with it everything its stream had before
            for (size_t i = 0; i < l.second.size(); i++) {
                plain.erase(l.second[i]->out);
                if (!l.second[i]->colored_type) plain.insert(l.second[i]->out);
            }
            for (int i : plain) { ct.at_return++; verify(i, "when a record of a plain sink returned", true); }
            if (r.chance(10)) {
                l.first->flush();
                ct.flushes++;
                for (auto& c : l.second) verify(c->out, "after flush() of a logger", false);
            }
        }
    }
    // everything ends up in the streams
    for (auto& c : cons) c->s->flush();
    for (int i = 0; i < 3; i++) if (i < 2 || own) verify(i, "at the end", false);
    bool nothing_else = true;
    if (r.chance(10)) {
        sleep_us(2000);
        for (int i = 0; i < 3; i++) if (o[i].now().size() != o[i].exp.size()) nothing_else = false;
        if (!nothing_else) viol("output_differs", desc + ": something followed the last record");
    }
    dup2(real2, 2);
    uint64_t h = hash_str(desc);
    for (auto& x : o) h = hash_mix(h, hash_str(x.exp));
    uint64_t out[10] = {ct.records, ct.colored, ct.at_return, ct.terminals, ct.flushes, ct.bytes, ct.sinks, ct.own_colors, ct.logger_records, h};
    if (::write(back, out, sizeof out) != sizeof out) _exit(3);
    for (auto& x : o) if (x.kind == 2) ::unlink(x.path.c_str());
    if (cs % 7 == 1) emit("SAMPLE\t" + esc(desc + sf("%llu records, %llu of them coloured", (unsigned long long)ct.records, (unsigned long long)ct.colored)));
    _exit(0);
}

void vf_main() {
    signal(SIGTTOU, SIG_IGN);
    signal(SIGHUP, SIG_IGN);
    long n = arg("cases", 1000);
    budget b;
    for (long i = 0; i < n && b.left() && !too_many(); i++) {
        uint64_t cs = caseseed(static_cast<uint64_t>(i));
        label(sf("case %ld", i));
        int p[2];
        if (pipe2(p, O_CLOEXEC) != 0) _exit(3);
        pid_t pid = fork();
        if (pid == 0) {
            ::close(p[0]);
            child(cs, p[1]);
            _exit(0);
        }
        ::close(p[1]);
        uint64_t v[10];
        ssize_t got = ::read(p[0], v, sizeof v);
        ::close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st)) viol("child_died", sf("a process writing to console sinks died of signal %d", WTERMSIG(st)));
        else if (WEXITSTATUS(st) == 98) return;   // a sanitizer report has been written
        else if (WEXITSTATUS(st) == 3) _exit(3);
        else if (WEXITSTATUS(st) != 0) viol("child_exit", sf("a process writing to console sinks ended with status %d", WEXITSTATUS(st)));
        if (got == static_cast<ssize_t>(sizeof v)) {
            static const char* names[] = {"records", "records_coloured", "written_at_return", "terminals", "flushes", "bytes", "sinks", "own_colours", "logger_calls"};
            for (int k = 0; k < 9; k++) stat(names[k], v[k]);
            casedone(v[9], v[0] > 0);
        }
    }
}
