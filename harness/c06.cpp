// C06: records of concurrent threads stay whole in every thread-safe sink; pattern replacement is atomic per record.
#include "async.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
#include "sinks/ostream_sink.h"
#include "sinks/std_sinks.h"
#include "sinks/std_color_sinks.h"
#include "sinks/formatters/pattern_formatter.h"
#include <pty.h>
#include <termios.h>
#include <poll.h>

using namespace vf;

struct call { int logger = 0; int level = 2; int64_t time = 0; long lo = 0, hi = 0; size_t len = 0; size_t tid = 0; };

static std::string body(uint64_t cs, int p, int s, size_t len) {
    rng r(hash_mix(hash_mix(cs, static_cast<uint64_t>(p) + 77), static_cast<uint64_t>(s)));
    std::string t = sf("@%d:%d@", p, s);
    char base = static_cast<char>('a' + r.below(26));
    for (size_t i = 0; i < len; i++) t += static_cast<char>(r.below(16) == 0 ? ' ' + r.below(95) : static_cast<uint64_t>(base));
    for (size_t i = 1; i < t.size(); i++) if (t[i] == '@' && i > 6 + 8) t[i] = 'q';
    return t + "#";
}
// pattern of version k and its rendering
static std::string pat(long k) {
    switch (k % 4) {
        case 0: return sf("V%ld<%%n|%%^%%l%%$|%%t|%%y-%%m-%%d %%H:%%M:%%S.%%F|%%v>E%ld", k, k);
        case 1: return sf("V%ld<%%^%%v%%$>E%ld", k, k);
        case 2: return sf("V%ld<%%20n%%-12l|%%v|%%H:%%M:%%S>%%^E%ld%%$", k, k);
        default: return sf("V%ld<%%y-%%m-%%d %%H:%%M:%%S %%v>%%v<E%ld", k, k);
    }
}
static std::string pad(const std::string& s, size_t w, bool left) {
    if (s.size() >= w) return s;
    return left ? std::string(w - s.size(), ' ') + s : s + std::string(w - s.size(), ' ');
}
static const char* lnames[] = {"trace", "debug", "info", "warn", "error", "critical"};
static const char* colors[] = {"\033[37m", "\033[36m", "\033[32m", "\033[33m\033[1m", "\033[31m\033[1m", "\033[1m\033[41m"};
static std::string render(long k, const call& c, const std::string& lname, const std::string& text, bool color) {
    std::time_t tt = static_cast<std::time_t>(c.time / 1000000000);
    std::tm tm;
    localtime_r(&tt, &tm);
    char d[32], h[16];
    strftime(d, sizeof d, "%Y-%m-%d", &tm);
    strftime(h, sizeof h, "%H:%M:%S", &tm);
    std::string a = color ? colors[c.level] : "", z = color ? "\033[m" : "";
    std::string l = lnames[c.level];
    switch (k % 4) {
        case 0: return sf("V%ld<", k) + lname + "|" + a + l + z + "|" + std::to_string(c.tid) + "|" + d + " " + h + "."
                       + sf("%06lld", (long long)(c.time % 1000000000 / 1000)) + "|" + text + sf(">E%ld", k);
        case 1: return sf("V%ld<", k) + a + text + z + sf(">E%ld", k);
        case 2: return sf("V%ld<", k) + pad(lname, 20, true) + pad(l, 12, false) + "|" + text + "|" + h + ">" + a + sf("E%ld", k) + z;
        default: return sf("V%ld<", k) + d + " " + h + " " + text + ">" + text + sf("<E%ld", k);
    }
}

static void check_stream(uint64_t cs, const char* what, const std::string& out, const std::vector<std::vector<call>>& calls,
                         const std::set<int>& mine, const std::vector<std::string>& names, const std::set<int>& colored,
                         bool ordered, bool bounded_hi, uint64_t* sig) {
    std::vector<std::vector<int>> seen(calls.size());
    for (size_t p = 0; p < calls.size(); p++) seen[p].assign(calls[p].size(), 0);
    std::vector<int> last(calls.size(), -1);
    size_t pos = 0;
    uint64_t n = 0, switches = 0;
    int prev_p = -1;
    while (pos < out.size()) {
        size_t e = out.find('\n', pos);
        if (e == std::string::npos) {
            viol("partial_record", sf("%s: the output ends in an incomplete record '%s'", what, esc(out.substr(pos), 200).c_str()));
            break;
        }
        std::string line = out.substr(pos, e - pos);
        pos = e + 1;
        size_t at = line.find('@');
        int p = -1, s = -1;
        long k = -1;
        if (at != std::string::npos) sscanf(line.c_str() + at, "@%d:%d@", &p, &s);
        if (sscanf(line.c_str(), "V%ld<", &k) != 1) k = -1;
        if (p < 0 || s < 0 || k < 0 || static_cast<size_t>(p) >= calls.size() || static_cast<size_t>(s) >= calls[p].size()) {
            viol("foreign_record", sf("%s: '%s' is no record that was logged", what, esc(line, 300).c_str()));
            continue;
        }
        const call& c = calls[p][s];
        std::string exp = render(k, c, names[static_cast<size_t>(c.logger)], body(cs, p, s, c.len), colored.count(c.logger) != 0);
        if (line != exp) {
            size_t i = 0;
            while (i < line.size() && i < exp.size() && line[i] == exp[i]) i++;
            viol("damaged_record", sf("%s: record %d:%d differs at byte %zu: '%s' instead of '%s'", what, p, s, i,
                                      esc(line.substr(i > 20 ? i - 20 : 0), 150).c_str(), esc(exp.substr(i > 20 ? i - 20 : 0), 150).c_str()));
            continue;
        }
        if (k < c.lo) viol("old_pattern", sf("%s: record %d:%d uses pattern %ld although %ld had been installed before the call", what, p, s, k, c.lo));
        if (bounded_hi && k > c.hi) viol("future_pattern", sf("%s: record %d:%d uses pattern %ld, newer than %ld", what, p, s, k, c.hi));
        if (!mine.count(c.logger)) viol("wrong_sink", sf("%s: record %d:%d belongs elsewhere", what, p, s));
        if (++seen[p][s] > 1) viol("duplicate_record", sf("%s: record %d:%d appears %d times", what, p, s, seen[p][s]));
        if (ordered) {
            if (s < last[p]) viol("program_order", sf("%s: record %d:%d after %d:%d", what, p, s, p, last[p]));
            last[p] = s;
        }
        n++;
        if (p != prev_p) { switches++; prev_p = p; }
        *sig = hash_mix(*sig, static_cast<uint64_t>(p) * 31 + static_cast<uint64_t>(k));
    }
    for (size_t p = 0; p < calls.size(); p++)
        for (size_t s = 0; s < calls[p].size(); s++)
            if (mine.count(calls[p][s].logger) && !seen[p][s]) {
                viol("lost_record", sf("%s: record %zu:%zu is missing", what, p, s));
                p = calls.size() - 1;
                break;
            }
    stat("records_checked", n);
    stat("thread_switches_in_output", switches);
}

// reads everything written to a pipe or pty
struct collector {
    int r = -1, w = -1;
    bool tty = false;
    std::string data;
    std::thread t;
    bool open(bool use_tty) {
        tty = use_tty;
        if (tty) {
            if (openpty(&r, &w, nullptr, nullptr, nullptr) != 0) return false;
            struct termios ti;
            tcgetattr(w, &ti);
            cfmakeraw(&ti);
            tcsetattr(w, TCSANOW, &ti);
        } else {
            int p[2];
            if (pipe2(p, O_CLOEXEC) != 0) return false;
            r = p[0];
            w = p[1];
        }
        t = std::thread([this] {
            char b[65536];
            for (;;) {
                ssize_t n = ::read(r, b, sizeof b);
                if (n < 0 && errno == EINTR) continue;
                if (n <= 0) break;
                data.append(b, static_cast<size_t>(n));
                tick();
            }
        });
        return true;
    }
    void finish() { ::close(w); t.join(); ::close(r); }
};

enum { T_FILE, T_ROLL, T_OSTREAM, T_CONSOLE_OUT, T_CONSOLE_ERR };

static void one_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    std::string only = sarg("type", "");
    int type = only.empty() ? r.range(0, 4) : atoi(only.c_str());
    bool console = type >= T_CONSOLE_OUT;
    int nthreads = r.range(2, 6), nlog = r.range(1, 3);
    int async = r.chance(35) ? 1 : 0;
    int kind = r.range(0, 2);
    size_t workers = static_cast<size_t>(r.chance(50) ? 1 : r.range(2, 3));
    size_t q = r.pick(queue_sizes());
    bool change = r.chance(60);
    int per = r.range(5, static_cast<int>(arg("per", 60)));
    bool tty = console && r.chance(50);
    int how = r.range(0, 4);
    label(sf("case %llu: sink type %d%s, %d threads x %d, %d loggers, %s, pattern changes %d/%d", (unsigned long long)i, type, tty ? " (terminal)" : "",
             nthreads, per, nlog, async ? sf("async %s q=%zu w=%zu", kind_name(kind), q, workers).c_str() : "sync", change, how));

    std::string dir = S().tmp + "/c06";
    rm_rf(dir);
    ::mkdir(dir.c_str(), 0755);
    collector col;
    int saved = -1, target = type == T_CONSOLE_OUT ? 1 : 2;
    FILE* tf = type == T_CONSOLE_OUT ? stdout : stderr;
    if (console) {
        if (!col.open(tty)) { emit("NOTE\tno pty"); return; }
        fflush(tf);
        saved = fcntl(target, F_DUPFD_CLOEXEC, 100);
        dup2(col.w, target);
    }
    std::ostringstream os;
    std::vector<std::string> names;
    std::vector<ll::logger_shr_ptr> loggers;
    std::vector<ll::sink_shr_ptr> sinks;
    std::set<int> all, colored;
    std::shared_ptr<ll::sinks::rolling_file_sink_mt> roll;
    if (type == T_FILE) sinks.push_back(std::make_shared<ll::sinks::basic_file_sink_mt>(dir + "/a.log", r.chance(50)));
    else if (type == T_ROLL) sinks.push_back(roll = std::make_shared<ll::sinks::rolling_file_sink_mt>(dir + "/a.log", static_cast<size_t>(r.range(500, 60000)), 9999));
    else if (type == T_OSTREAM) sinks.push_back(std::make_shared<ll::sinks::ostream_sink_mt>(os, r.chance(50)));
    if (console) nlog = r.range(2, 4);
    ll::thread_pool_shr_ptr tp;
    if (async) tp = make_pool(kind, q, workers);
    for (int l = 0; l < nlog; l++) {
        all.insert(l);
        names.push_back(sf("c06_%d%s", l, std::string(static_cast<size_t>(r.range(0, 20)), 'n').c_str()));
        ll::sink_shr_ptr sk;
        if (console) {
            if (r.chance(50)) {
                if (type == T_CONSOLE_OUT) sk = std::make_shared<ll::sinks::stdout_color_sink_mt>();
                else sk = std::make_shared<ll::sinks::stderr_color_sink_mt>();
                if (tty) colored.insert(l);
            } else {
                if (type == T_CONSOLE_OUT) sk = std::make_shared<ll::sinks::stdout_sink_mt>();
                else sk = std::make_shared<ll::sinks::stderr_sink_mt>();
            }
            sinks.push_back(sk);
        } else sk = sinks[0];
        if (async) loggers.push_back(std::make_shared<ll::async_logger>(names.back(), sk, tp));
        else loggers.push_back(std::make_shared<ll::logger>(names.back(), sk));
        loggers.back()->set_log_level(ll::level::trace);
        loggers.back()->set_flush_level(static_cast<lvl>(r.range(3, 6)));
    }
    std::atomic<long> installing{0}, installed{0};
    auto install = [&](long k) {
        installing = k;
        std::string p = pat(k);
        if (console) {
            for (auto& l : loggers) {
                if (how == 0) l->sinks()[0]->set_pattern(p);
                else if (how < 3) l->set_pattern(p);
                else l->set_formatter(ll::make_unique<ll::sinks::pattern_formatter>(p));
            }
        } else switch (how) {
            case 0: sinks[0]->set_pattern(p); break;
            case 1: loggers[0]->set_pattern(p); break;
            case 2: sinks[0]->set_formatter(ll::make_unique<ll::sinks::pattern_formatter>(p)); break;
            case 3: {
                auto f = ll::make_unique<ll::sinks::pattern_formatter>(p);
                loggers[0]->set_formatter(f->clone());
                break;
            }
            default: loggers.back()->set_pattern(p);
        }
        installed = k;
    };
    install(static_cast<long>(r.range(0, 3)));
    long k0 = installed;
    std::vector<std::vector<call>> calls(static_cast<size_t>(nthreads));
    std::atomic<int> running{nthreads}, go{0};
    noise(cs, static_cast<unsigned>(r.range(0, 3)));
    std::vector<std::thread> ts;
    for (int p = 0; p < nthreads; p++) {
        calls[static_cast<size_t>(p)].resize(static_cast<size_t>(per));
        ts.emplace_back([&, p] {
            rng rr(hash_mix(cs, 5000 + static_cast<uint64_t>(p)));
            auto& v = calls[static_cast<size_t>(p)];
            go++;
            while (go < nthreads) {}
            for (int s = 0; s < per; s++) {
                call& c = v[static_cast<size_t>(s)];
                c.logger = rr.range(0, nlog - 1);
                c.level = rr.range(0, 5);
                int lk = rr.range(0, 99);
                c.len = lk < 50 ? rr.below(60) : lk < 90 ? rr.below(600) : rr.below(9000);
                c.tid = static_cast<size_t>(gettid_());
                // few distinct seconds, so that cached times are used and replaced
                c.time = (1700000000ll + static_cast<int64_t>(rr.below(5)) * 3599) * 1000000000ll + static_cast<int64_t>(rr.below(1000000)) * 1000;
                std::string t = body(cs, p, s, c.len);
                c.lo = installed.load();
                loggers[static_cast<size_t>(c.logger)]->log(tp_of(c.time), ll::source_loc{}, static_cast<lvl>(c.level), ll::fmt_string_view(t.data(), t.size()));
                c.hi = installing.load();
                tick();
            }
            running--;
        });
    }
    if (change) {
        long k = k0;
        while (running.load() > 0) {
            install(++k);
            if (r.chance(50)) sleep_us(r.range(0, 200));
            else std::this_thread::yield();
        }
        stat("pattern_replacements", static_cast<uint64_t>(k - k0));
    }
    for (auto& t : ts) t.join();
    noise_off();
    for (auto& l : loggers) l->flush();
    tp.reset();
    for (auto& l : loggers) l->flush();     // an async logger without pool: reports, does nothing
    for (auto& s : sinks) s->flush();
    uint64_t sig = hash_mix(cs, 1);
    bool ordered = !async || kind == K_CONC || workers == 1;
    auto check = [&](const std::string& out) {
        check_stream(cs, type == T_FILE ? "file" : type == T_ROLL ? "rolling file" : type == T_OSTREAM ? "ostream" : "console", out,
                     calls, all, names, colored, ordered, !async, &sig);
    };
    if (console) {
        fflush(tf);
        dup2(saved, target);
        ::close(saved);
        col.finish();
        std::string d = col.data;
        if (async && target == 2) {     // the reports of the second flush()
            std::string o;
            std::istringstream is(d);
            for (std::string l; std::getline(is, l);) if (l.find("thread pool does not exist") == std::string::npos) o += l + "\n";
            d = o;
        }
        check(d);
        stat(tty ? "terminal_cases" : "pipe_cases");
    } else {
        loggers.clear();
        std::string d;
        if (type == T_ROLL) {
            std::vector<std::string> fs = ls(dir);
            stat("rolling_files", fs.size());
            roll.reset();
            sinks.clear();
            for (auto& f : fs) d += read_file(dir + "/" + f);
        } else if (type == T_FILE) {
            sinks.clear();
            d = read_file(dir + "/a.log");
        } else d = os.str();
        check(d);
    }
    casedone(hash_mix(sig, static_cast<uint64_t>(type) * 8 + static_cast<uint64_t>(async)), true);
    if (i < 3) sample(S().label);
}

void vf_main() {
    setenv("TERM", "xterm-256color", 1);
    stderr_capture cap;
    budget b;
    for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 100)) && b.left() && !too_many(); i++) one_case(i);
}
