// C08: rolling files. A model of the directory is compared with what the sink leaves there.
#include "async.h"
#include "sinks/rolling_file_sink.h"
#include "sinks/formatters/pattern_formatter.h"

using namespace vf;
using rsink = ll::sinks::rolling_file_sink_mt;

static std::string pre, suf;      // path = pre + "_" + number + suf
static size_t width;
static std::string fname(size_t n) {
    std::string d = std::to_string(n);
    if (d.size() < width) d = std::string(width - d.size(), '0') + d;
    return pre + "_" + d + suf;
}
static std::string snapshot_one(const std::string& p) {
    struct stat st;
    if (lstat(p.c_str(), &st) != 0) return "absent";
    if (S_ISDIR(st.st_mode)) return "directory";
    return "file:" + read_file(p);
}
static void walk(const std::string& d, std::map<std::string, std::string>& m) {
    for (auto& n : ls(d)) {
        std::string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { m[p] = "directory"; walk(p, m); }
        else m[p] = snapshot_one(p);
    }
}
static std::string show(const std::map<std::string, std::string>& m, const std::string& root) {
    std::string r;
    for (auto& x : m) r += x.first.substr(root.size()) + "=" + std::to_string(x.second.size()) + " ";
    return r.substr(0, 500);
}

static void one_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    std::string root = S().tmp + "/c08";
    rm_rf(root);
    ::mkdir(root.c_str(), 0755);
    // base names: the number goes before the extension of the file, never into a directory name
    static const struct { const char *base, *pre, *suf; } names[] = {
        {"log.txt", "log", ".txt"}, {"log", "log", ""}, {"a.b.c", "a.b", ".c"}, {".hidden", ".hidden", ""},
        {"sub/x.log", "sub/x", ".log"}, {"sub.d/x", "sub.d/x", ""}, {"s/.h", "s/.h", ""}, {"s/.h.txt", "s/.h", ".txt"},
        {"a/b/c/log.x", "a/b/c/log", ".x"}, {"end.", "end", "."}, {"x..y", "x.", ".y"}, {"log_1.txt", "log_1", ".txt"}};
    auto& nm = names[r.below(sizeof names / sizeof names[0])];
    bool relative = r.chance(30);
    std::string base = relative ? nm.base : root + "/" + nm.base;
    pre = root + "/" + nm.pre;
    suf = nm.suf;
    static const std::vector<size_t> nums{1, 1, 2, 3, 3, 4, 5, 8, 9, 10, 11, 12, 20, 99, 100, 101, 999, 1000, 9999, 10000};
    size_t maxn = r.pick(nums);
    if (maxn > 90 && !r.chance(20)) maxn = static_cast<size_t>(r.range(1, 12));
    width = std::to_string(maxn).size();
    size_t limit = r.chance(30) ? static_cast<size_t>(r.range(1, 30)) : r.chance(60) ? static_cast<size_t>(r.range(30, 400)) : static_cast<size_t>(r.range(400, 20000));
    int nrec = r.range(0, 40);
    bool each = r.chance(60);     // look after every record; otherwise only now and then (stdio buffers in between)
    int sessions = r.range(1, 3);
    label(sf("case %llu: base '%s'%s, limit %zu, numbers up to %zu, %d records x %d sinks, %s", (unsigned long long)i, nm.base, relative ? " (relative)" : "",
             limit, maxn, nrec, sessions, each ? "looking after each" : "looking now and then"));
    if (chdir(root.c_str()) != 0) abort();

    // files that exist already
    std::string dir = pre.substr(0, pre.rfind('/'));
    if (dir.size() > root.size() && r.chance(70)) {
        size_t at = root.size();
        do { at = dir.find('/', at + 1); ::mkdir(dir.substr(0, at).c_str(), 0755); } while (at != std::string::npos);
    }
    if (exists(dir)) {
        auto touch = [&](const std::string& p) {
            if (r.chance(10)) ::mkdir(p.c_str(), 0755);
            else write_file(p, r.chance(30) ? "" : std::string(r.below(100) + 1, 'o') + "\n");
        };
        int k = r.range(0, 5);
        if (k == 1 || k == 5) { size_t m = r.below(std::min<size_t>(maxn + 1, 120)); for (size_t n = 1; n <= m; n++) touch(fname(n)); }
        if (k == 2) for (size_t n = 1; n < maxn && n < 2000; n++) touch(fname(n));
        if (k == 3) for (size_t n = 1; n <= std::min<size_t>(maxn, 60); n++) if (r.chance(50)) touch(fname(n));
        if (k == 4 && maxn > 9) for (size_t n = maxn > 6 ? 1 : 1; n + static_cast<size_t>(r.range(0, 3)) < maxn && n < 1100; n++) touch(fname(n));
        if (r.chance(40)) {     // similar names that are nobody's number
            touch(pre + suf);
            touch(pre + "_" + suf);
            touch(pre + "_x" + suf);
            touch(pre + "_1" + suf + ".bak");
            if (width > 1) { touch(pre + "_1" + suf); touch(pre + "_2" + suf); }
            touch(pre + "_" + std::string(width + 1, '0').substr(0, width) + "1" + suf);
            touch(pre + "_" + std::string(width, '0') + suf);
            std::string beyond = std::to_string(maxn + 1);
            touch(pre + "_" + beyond + suf);
        }
        // the last number must not be a directory: then opening fails, which is another property
        struct stat st;
        if (lstat(fname(maxn).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) ::rmdir(fname(maxn).c_str());
    }
    std::map<std::string, std::string> model;
    walk(root, model);
    if (model.size() > 150) each = false;      // too slow
    auto used = [&](size_t n) { return model.count(fname(n)) != 0; };
    auto next_free = [&](size_t from) { size_t n = from; while (n < maxn && used(n)) n++; return n; };
    uint64_t sig = 1;
    uint64_t rolls = 0, restarts = 0;

    for (int se = 0; se < sessions; se++) {
        std::shared_ptr<rsink> sk;
        try {
            sk = std::make_shared<rsink>(base, limit, maxn);
        } catch (const std::exception& e) {
            viol("construct", sf("constructing the sink failed: %s", e.what()));
            return;
        }
        size_t cur = next_free(1);
        for (size_t at = dir.find('/', root.size() + 1);; at = dir.find('/', at + 1)) {
            std::string d = dir.substr(0, at);
            if (d.size() > root.size()) model[d] = "directory";
            if (at == std::string::npos) break;
        }
        model[fname(cur)] = "file:";
        {
            std::map<std::string, std::string> now;
            walk(root, now);
            if (now != model) {
                viol("start", sf("after opening, number %zu was expected: have %s", cur, show(now, root).c_str()));
                return;
            }
        }
        VF_CHECK(sk->base_filename() == base, "base_filename", "base_filename() is '%s'", sk->base_filename().c_str());
        VF_CHECK(sk->get_rolling_filename(cur) == (relative ? fname(cur).substr(root.size() + 1) : fname(cur)), "rolling_filename",
                 "get_rolling_filename(%zu) is '%s'", cur, sk->get_rolling_filename(cur).c_str());
        std::string pat = r.chance(70) ? "%v" : "[%n] %l %v";
        std::string eol = r.chance(80) ? "\n" : "";
        sk->set_formatter(ll::make_unique<ll::sinks::pattern_formatter>(pat, eol));
        ll::logger lg("c08", sk);
        lg.set_log_level(ll::level::trace);
        std::vector<std::string> pending;      // records since the last look
        std::vector<std::string> recs;
        size_t pending_from = 0;
        (void)pending_from;
        bool stop = false, lost_file = false;

        // compares the directory with the model, given the records written since the last look
        auto look = [&]() {
            std::map<std::string, std::string> now;
            walk(root, now);
            size_t k = 0;
            // the records are laid out: appended to the current file while they fit, or in the next file
            std::string cc = model[fname(cur)].substr(5);
            for (;;) {
                std::string actual = now.count(fname(cur)) ? now[fname(cur)] : "absent";
                if (actual.compare(0, 5, "file:") != 0) { viol("file_gone", sf("file number %zu is %s", cur, actual.c_str())); stop = true; return; }
                actual = actual.substr(5);
                // how many whole pending records does the file hold after what it held before?
                size_t j = k;
                std::string c = cc;
                while (c != actual && j < pending.size() && actual.compare(0, c.size(), c) == 0 && actual.size() >= c.size() + pending[j].size()) c += pending[j++];
                if (c == actual) {
                    // appended records k..j-1
                    size_t sz = cc.size(), cnt = cc.empty() ? 0 : 1;
                    for (size_t x = k; x < j; x++) { sz += pending[x].size(); cnt++; }
                    size_t mine = cc.empty() ? j - k : (j > k ? 2 : 1);
                    if (sz > limit && mine > 1) {
                        viol("over_limit", sf("file number %zu holds %zu bytes in several records, the limit is %zu", cur, sz, limit));
                        stop = true;
                    }
                    if (sz == 0 && j < pending.size()) { viol("empty_file", sf("rolling left file number %zu empty", cur)); stop = true; }
                    model[fname(cur)] = "file:" + c;
                    k = j;
                    if (k == pending.size()) break;
                    size_t nx = cur < maxn ? next_free(cur + 1) : cur;
                    if (nx == cur) { viol("lost_records", sf("%zu records are missing in the last file, number %zu", pending.size() - k, cur)); stop = true; break; }
                    if (nx == maxn && used(nx)) model.erase(fname(nx));    // numbers used up: the last file is started over
                    cur = nx;
                    rolls++;
                    model[fname(cur)] = "file:";
                    cc.clear();
                    continue;
                }
                // the content is something else: only the last file may have been started over
                if (cur == maxn) {
                    // it must hold a final run of the pending records
                    size_t total = 0, s0 = pending.size();
                    while (s0 > 0 && total < actual.size()) total += pending[--s0].size();
                    std::string tail;
                    for (size_t x = s0; x < pending.size(); x++) tail += pending[x];
                    if (tail != actual) {
                        viol("content", sf("the last file, number %zu, holds neither its records nor the last ones: %zu bytes '%s'", cur, actual.size(), esc(actual, 200).c_str()));
                        stop = true;
                        return;
                    }
                    size_t before = cc.size();
                    for (size_t x = k; x < s0; x++) before += pending[x].size();
                    // at least what fits must not be thrown away: all of it together had to exceed the limit
                    if (before + tail.size() <= limit) {
                        viol("early_restart", sf("the last file was started over although %zu bytes fit into %zu", before + tail.size(), limit));
                        stop = true;
                    }
                    if (each && !(s0 + 1 == pending.size())) { viol("restart_record", "the restarted file does not hold exactly the new record"); stop = true; }
                    if (tail.empty()) { viol("empty_file", sf("the last file, number %zu, was started over and left empty", cur)); stop = true; }
                    if (pending.size() - s0 > 1 && actual.size() > limit) { viol("over_limit", sf("file number %zu holds %zu bytes in several records, the limit is %zu", cur, actual.size(), limit)); stop = true; }
                    model[fname(cur)] = "file:" + actual;
                    restarts++;
                    break;
                }
                viol("content", sf("file number %zu holds %zu bytes '%s', expected it to begin with %zu bytes '%s' and continue with whole records", cur,
                                   actual.size(), esc(actual, 150).c_str(), cc.size(), esc(cc, 150).c_str()));
                stop = true;
                return;
            }
            pending.clear();
            if (!stop && now != model) {
                std::string diff;
                for (auto& x : now) if (!model.count(x.first)) diff += " unexpected " + x.first.substr(root.size());
                    else if (model[x.first] != x.second) diff += " changed " + x.first.substr(root.size()) + sf(" (%zu bytes, were %zu)", x.second.size() - 5, model[x.first].size() - 5);
                for (auto& x : model) if (!now.count(x.first)) diff += " missing " + x.first.substr(root.size());
                viol("other_files", diff.substr(0, 600));
                stop = true;
            }
        };

        for (int n = 0; n < nrec && !stop; n++) {
            size_t over = pat == "%v" ? eol.size() : 11 + eol.size();    // "[c08] info " 
            size_t len;
            int k = r.range(0, 9);
            size_t room = limit;      // room in the current file, where known
            if (each) { size_t have = model[fname(cur)].size() - 5; room = have < limit ? limit - have : 0; }
            if (k < 5) len = r.below(std::max<size_t>(limit / 2, 3));
            else if (k < 7) len = room > over ? room - over : 1;              // fills exactly
            else if (k < 8) len = (room > over ? room - over : 0) + 1;        // one too many
            else if (k < 9) len = limit + r.below(40);                        // larger than a file may be
            else len = r.below(5);
            if (len == 0) len = 1;
            std::string t(1, static_cast<char>(33 + se * nrec + n));    // tells the records of a case apart
            while (t.size() < len) t += static_cast<char>('a' + r.below(26));
            t.resize(len);
            lg.log(ll::level::info, ll::fmt_string_view(t.data(), t.size()));
            pending.push_back((pat == "%v" ? t : "[c08] info " + t) + eol);
            sig = hash_mix(sig, len);
            if (r.chance(3) && each && exists(dir)) {      // somebody else creates a later number meanwhile
                lg.flush();
                look();
                size_t other = cur + 1 + r.below(3);
                if (!stop && other < maxn && !exists(fname(other))) { write_file(fname(other), "other\n"); model[fname(other)] = "file:other\n"; stat("numbers_taken_meanwhile"); }
            } else if (r.chance(3) && each && cur > 1) {      // an earlier file is taken away
                lg.flush();
                look();
                size_t other = 1 + r.below(cur - 1);
                if (!stop && used(other) && model[fname(other)] != "directory") { ::unlink(fname(other).c_str()); model.erase(fname(other)); stat("earlier_files_removed"); }
            } else if (r.chance(4) && each) {
                // the current file is taken away: what is written until the next roll goes with it, and the number is free again
                lg.flush();
                look();
                if (stop) break;
                size_t have = model[fname(cur)].size() - 5;
                ::unlink(fname(cur).c_str());
                model.erase(fname(cur));
                stat("current_files_removed");
                for (int g = 0; g < 5; g++) {
                    bool roll = have > 0 && (g == 4 || r.chance(40));
                    size_t l2 = roll ? limit + 1 - std::min(limit, have) + r.below(20) : limit > have + over + 1 ? 1 + r.below(limit - have - over) : 0;
                    if (!roll && l2 == 0) { l2 = limit + 1; roll = have > 0; }
                    std::string t2(std::max<size_t>(l2 > over ? l2 - over : 1, 1), static_cast<char>(0xc0 + g));
                    std::string rec = (pat == "%v" ? t2 : "[c08] info " + t2) + eol;
                    roll = have > 0 && have + rec.size() > limit;
                    lg.log(ll::level::info, ll::fmt_string_view(t2.data(), t2.size()));
                    lg.flush();
                    if (roll) model[fname(cur)] = "file:" + rec;
                    have += rec.size();
                    std::map<std::string, std::string> now;
                    walk(root, now);
                    if (now != model) {
                        viol("removed_file", sf("the current file, number %zu, was taken away; then %s, directory %s instead of %s", cur, roll ? "the next file was due" : "a record that fits was written",
                                                show(now, root).c_str(), show(model, root).c_str()));
                        stop = true;
                    }
                    if (roll || stop) { rolls++; break; }
                }
                // never got as far as the next file: nothing is known about the number any more
                if (!stop && !model.count(fname(cur))) { lost_file = true; break; }
            } else if (each || r.chance(10)) {
                lg.flush();
                look();
            }
        }
        if (r.chance(50)) lg.flush();
        lg.sinks().clear();
        sk.reset();
        if (!stop && !lost_file) look();
        if (stop) return;
        sig = hash_mix(sig, cur);
        // between two sinks somebody may remove files
        if (se + 1 < sessions && r.chance(30)) {
            for (size_t n = 1; n <= std::min<size_t>(maxn, 200); n++)
                if (used(n) && r.chance(30) && model[fname(n)] != "directory") { ::unlink(fname(n).c_str()); model.erase(fname(n)); }
        }
    }
    stat("rolls", rolls);
    stat("restarts", restarts);
    casedone(hash_mix(hash_mix(sig, limit), hash_mix(maxn, hash_str(nm.base))), rolls + restarts > 0);
    if (i < 3) sample(S().label + sf(": %llu rolls, %llu restarts", (unsigned long long)rolls, (unsigned long long)restarts));
}

// several threads, then the structure of what is left
static void threads_case(uint64_t i) {
    uint64_t cs = caseseed(i + 5000000);
    rng r(cs);
    std::string root = S().tmp + "/c08t";
    rm_rf(root);
    size_t limit = static_cast<size_t>(r.range(100, 3000));
    int nt = r.range(2, 5), per = r.range(20, 150), flushes = r.range(0, 30);
    bool async = r.chance(40);
    int kind = r.range(0, 2);
    label(sf("threads case %llu: limit %zu, %d threads x %d, %s", (unsigned long long)i, limit, nt, per, async ? kind_name(kind) : "sync"));
    pre = root + "/t";
    suf = ".log";
    width = 4;
    {
        auto sk = std::make_shared<rsink>(root + "/t.log", limit, 5000);
        sk->set_pattern("%v");
        ll::thread_pool_shr_ptr tp;
        std::shared_ptr<ll::logger> lg;
        if (async) { tp = make_pool(kind, r.pick(queue_sizes()), static_cast<size_t>(r.range(1, 3))); lg = std::make_shared<ll::async_logger>("t", sk, tp); }
        else lg = std::make_shared<ll::logger>("t", sk);
        noise(cs, static_cast<unsigned>(r.range(0, 3)));
        std::vector<std::thread> ts;
        for (int p = 0; p < nt; p++) ts.emplace_back([&, p] {
            rng rr(hash_mix(cs, static_cast<uint64_t>(p)));
            for (int s = 0; s < per; s++) {
                std::string t = sf("@%d:%d@", p, s) + std::string(rr.below(limit / 3 + 2), static_cast<char>('a' + p));
                if (rr.below(40) == 0) t += std::string(limit, 'z');
                lg->info(t);
                if (static_cast<int>(rr.below(100)) < flushes) lg->flush();
                tick();
            }
        });
        for (auto& t : ts) t.join();
        noise_off();
        lg->sinks().size();
        tp.reset();
        lg.reset();
    }
    auto fs = ls(root);
    std::map<std::pair<int, int>, int> seen;
    for (size_t k = 0; k < fs.size(); k++) {
        VF_CHECK(root + "/" + fs[k] == fname(k + 1), "numbering", "file %zu is called %s", k + 1, fs[k].c_str());
        std::string c = read_file(root + "/" + fs[k]);
        size_t n = static_cast<size_t>(std::count(c.begin(), c.end(), '\n'));
        if (c.empty() && fs.size() > 1) viol("empty_file", sf("%s is empty", fs[k].c_str()));
        if (!c.empty() && c.back() != '\n') viol("split_record", sf("%s ends inside a record", fs[k].c_str()));
        if (c.size() > limit && n > 1) viol("over_limit", sf("%s holds %zu bytes in %zu records, the limit is %zu", fs[k].c_str(), c.size(), n, limit));
        std::istringstream is(c);
        for (std::string l; std::getline(is, l);) {
            int p = -1, s = -1;
            if (sscanf(l.c_str(), "@%d:%d@", &p, &s) != 2) viol("split_record", sf("%s holds '%s'", fs[k].c_str(), esc(l, 100).c_str()));
            else seen[{p, s}]++;
        }
    }
    for (int p = 0; p < nt; p++) for (int s = 0; s < per; s++) {
        int n = seen.count({p, s}) ? seen[{p, s}] : 0;
        if (n != 1) { viol("lost_records", sf("record %d:%d appears %d times", p, s, n)); p = nt; break; }
    }
    stat("rolls", fs.size());
    stat("threaded_cases");
    casedone(hash_mix(cs, fs.size()), fs.size() > 1);
}

static void limits() {
    label("invalid arguments");
    std::string root = S().tmp + "/c08l";
    ::mkdir(root.c_str(), 0755);
    struct { size_t size, num; bool ok; } t[] = {{0, 5, false}, {10, 10001, false}, {10, SIZE_MAX, false}, {0, 10001, false}, {1, 10000, true}, {10, 1, true}};
    for (auto& x : t) {
        bool thrown = false;
        try { rsink s(root + "/l.txt", x.size, x.num); }
        catch (const ll::learnlog_excpt&) { thrown = true; }
        VF_CHECK(thrown == !x.ok, "argument_check", "limit %zu, numbers %zu: %s", x.size, x.num, thrown ? "refused" : "accepted");
        if (!x.ok) VF_CHECK(ls(root).empty(), "argument_check", "limit %zu, numbers %zu: a file was created", x.size, x.num);
        for (auto& n : ls(root)) ::unlink((root + "/" + n).c_str());
        casedone(hash_mix(x.size, x.num), !x.ok);
        stat("invalid_arguments", !x.ok);
    }
    rm_rf(root);
}

void vf_main() {
    budget b;
    limits();
    for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 100)) && b.left() && !too_many(); i++) {
        one_case(i);
        if (i % 8 == 7) threads_case(i / 8);
    }
    if (chdir("/") != 0) abort();
}
