// C10: I/O failures are contained, reported and recovered from.
#include "async.h"
#include "fault.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
#include "sinks/formatters/pattern_formatter.h"

using namespace vf;

static std::set<std::string> fd_targets() {
    std::set<std::string> r;
    for (auto& n : ls("/proc/self/fd")) {
        if (fcntl(atoi(n.c_str()), F_GETFD) == -1) continue;
        r.insert(n);
    }
    return r;
}

struct record { std::string text; bool hit = false; };

// what a script does; everything about it derives from its seed
struct script {
    uint64_t seed;
    bool rolling, trunc, async;
    int kind, nrec, flush_pct;
    size_t limit;
    size_t biglen, oldlen;
    explicit script(uint64_t s) : seed(s) {
        rng r(s);
        rolling = r.chance(55);
        trunc = r.chance(50);
        async = r.chance(30);
        kind = r.range(0, 2);
        nrec = r.range(3, 14);
        flush_pct = r.pick(std::vector<int>{0, 20, 50, 100});
        limit = static_cast<size_t>(r.range(20, 200));
        biglen = r.chance(30) ? 6000 : 60;
        oldlen = r.chance(50) ? 0 : static_cast<size_t>(r.range(1, 700));     // what is in the file already
    }
    std::string describe() const {
        return sf("%s%s, %s, %d records, flushes %d%%%s", rolling ? "rolling" : "file", trunc && !rolling ? " truncating" : "", async ? kind_name(kind) : "sync", nrec, flush_pct, oldlen ? ", on an existing file" : "");
    }
};

// an exception or report says which file it is about and what the system's reason was
static void told(const char* kind, const std::string& text, const std::string& what, const std::string& root, int f, int f2, int err) {
    if (text.find(root + "/d1") == std::string::npos) viol("unclear_file", sf("%s: %s without the file's name: %s", what.c_str(), kind, esc(text).c_str()));
    if (f >= 0 && f2 < 0 && f != fault::F_MKDIR && err && text.find(strerror(err)) == std::string::npos) viol("unclear_reason", sf("%s: %s without the reason '%s': %s", what.c_str(), kind, strerror(err), esc(text).c_str()));
    stat("messages_read");
}

// one run of a script under a plan. dry: count the calls
static bool run_script(const script& sc, int f, long from, long count, int err, int variant, long* calls, int f2 = -1, long from2 = 0, long count2 = 0) {
    std::string root = S().tmp + "/c10";
    rm_rf(root);
    ::mkdir(root.c_str(), 0755);
    auto& P = fault::P();
    std::string old(sc.oldlen, '#'), old_path = root + (sc.rolling ? "/d1/d2/log_0001.txt" : "/d1/d2/log.txt");
    if (sc.oldlen) {
        ::mkdir((root + "/d1").c_str(), 0755);
        ::mkdir((root + "/d1/d2").c_str(), 0755);
        write_file(old_path, old);
    }
    auto fd0 = fd_targets();
    stderr_capture cap;
    fault::reset();
    P.root = root;
    P.f = f;
    P.from = from;
    P.count = count;
    P.f2 = f2;
    P.from2 = from2;
    P.count2 = count2;
    P.err = err;
    P.variant = variant;
    P.armed = true;
    std::string path = root + "/d1/d2/log.txt";
    rng r(sc.seed + 99);
    std::vector<record> recs;
    auto A = std::make_shared<rec_sink>(), B = std::make_shared<rec_sink>();
    std::string what = f < 0 ? sc.describe() : sf("%s; %s fails %ld times from call %ld, errno %d, variant %d", sc.describe().c_str(), fault::fn_name(f), count, from, err, variant);
    if (f2 >= 0) what += sf("; %s fails %ld times from call %ld", fault::fn_name(f2), count2, from2);
    label(what);
    bool constructed = false, is_ours = false, ctor_hit = false;
    long ctor_hits = 0;
    int64_t t0 = now_ns(), t1 = t0;
    {
        ll::sink_shr_ptr fs;
        long h0 = P.hits;
        try {
            if (sc.rolling) fs = std::make_shared<ll::sinks::rolling_file_sink_mt>(path, sc.limit, 9999);
            else fs = std::make_shared<ll::sinks::basic_file_sink_mt>(path, sc.trunc);
            constructed = true;
        } catch (const ll::learnlog_excpt& e) { is_ours = true; told("exception", e.what(), what, root, f, f2, err); }
        catch (const std::exception& e) { viol("foreign_exception", what + ": " + e.what()); }
        catch (...) { viol("foreign_exception", what); }
        t1 = now_ns();
        ctor_hits = P.hits - h0;
        ctor_hit = ctor_hits > 0;
        if (!constructed) {
            if (!ctor_hit) viol("construct", what + ": construction failed without a fault");
            if (is_ours && P.hits == P.retried) {
                if (ctor_hits < 5) viol("retry_budget", sf("%s: gave up after %ld failures", what.c_str(), ctor_hits));
                if (t1 - t0 < 39 * 1000000ll) viol("retry_interval", sf("%s: all attempts within %lld us", what.c_str(), (long long)(t1 - t0) / 1000));
            }
            stat("constructions_refused");
        } else {
            fs->set_formatter(ll::make_unique<ll::sinks::pattern_formatter>("%v", "\n"));
            ll::thread_pool_shr_ptr tp;
            std::shared_ptr<ll::logger> lg;
            std::vector<ll::sink_shr_ptr> sv{A, fs, B};
            if (sc.async) { tp = make_pool(sc.kind, 16, 1); lg = std::make_shared<ll::async_logger>("c10", sv.begin(), sv.end(), tp); }
            else lg = std::make_shared<ll::logger>("c10", sv.begin(), sv.end());
            fs.reset();
            sv.clear();
            auto wait_done = [&](size_t n) { if (sc.async) wait_until([&] { return B->nlog >= n; }); };
            for (int i = 0; i < sc.nrec; i++) {
                record rc;
                rc.text = std::string(1, static_cast<char>('A' + i)) + sf("%d:", i) + std::string(r.below(r.chance(20) ? sc.biglen : 60), static_cast<char>('a' + i)) + ";";
                long h = P.hits;
                try { lg->log(ll::level::info, ll::fmt_string_view(rc.text.data(), rc.text.size())); }
                catch (const std::exception& e) { viol("escaped", what + ": log() threw " + e.what()); }
                catch (...) { viol("escaped", what + ": log() threw"); }
                recs.push_back(rc);
                wait_done(recs.size());
                recs.back().hit = P.hits != h;
                if (r.chance(sc.flush_pct)) {
                    try { lg->flush(); }
                    catch (const std::exception& e) { viol("escaped", what + ": flush() threw " + e.what()); }
                    catch (...) { viol("escaped", what + ": flush() threw"); }
                }
                tick();
            }
            try { tp.reset(); lg.reset(); }
            catch (...) { viol("escaped", what + ": destruction threw"); }
        }
    }
    P.armed = false;
    if (calls) memcpy(calls, P.calls, sizeof P.calls);
    auto fd1 = fd_targets();
    // the capture is the same before and after
    if (fd1.size() != fd0.size() + 1 && fd1.size() != fd0.size() + 2) {}
    std::string err_text = cap.text();
    auto rp = reports(err_text);
    long seen_hits = P.hits - P.hidden;
    if (f >= 0 && P.hits == 0) return false;      // the plan was not reached
    if (f >= 0 && P.hits == P.retried && P.hits < 5) {
        if (!constructed) viol("retry_budget", what + ": construction failed");
        if (!rp.empty()) viol("retry_report", what + ": reported although the retries succeeded: " + rp[0].second);
        for (auto& rc : recs) rc.hit = false;
    } else if (constructed && rp.empty() && (f2 < 0 ? seen_hits - ctor_hits > 0 : P.hits - P.retried - P.hidden - ctor_hits > 0))
        viol("not_reported", what + ": nothing on stderr");
    if (static_cast<long>(rp.size()) > P.hits) viol("report_count", sf("%s: %zu reports for %ld failures: %s", what.c_str(), rp.size(), P.hits, esc(rp.back().second).c_str()));
    for (auto& x : rp) told("report", x.second, what, root, f, f2, err);
    // what was in the file before: kept, whatever failed, unless it was opened with truncation
    if (sc.oldlen) {
        if (sc.rolling) { if (read_file(old_path) != old) viol("old_content", what + ": a file with another number was changed"); }
        else if (!sc.trunc) { if (read_file(old_path).compare(0, old.size(), old) != 0) viol("old_content", what + ": the previous content of the file is not there any more"); }
        else if (constructed && read_file(old_path).find('#') != std::string::npos) viol("old_content", what + ": opened with truncation, but the previous content is still there");
        stat("runs_on_existing_files");
    }
    // a roll that failed does not use up a number
    if (sc.rolling) {
        auto names = ls(root + "/d1/d2");
        for (size_t i = 0; i < names.size(); i++)
            if (names[i] != sf("log_%04zu.txt", i + 1)) { viol("numbering", sf("%s: the file after number %zu is %s", what.c_str(), i, names[i].c_str())); break; }
    }
    if (constructed) {
        // the other sinks
        for (auto& s : {A, B}) {
            auto v = s->logs();
            bool ok = v.size() == recs.size();
            for (size_t i = 0; ok && i < v.size(); i++) ok = v[i].text == recs[i].text;
            if (!ok) viol("other_sinks", sf("%s: another sink got %zu of %zu messages", what.c_str(), v.size(), recs.size()));
        }
        // the file: every record whose own call met no failure, in order; of the others any beginning
        std::string data;
        std::string dir = root + "/d1/d2";
        for (auto& n : ls(dir)) if (!(sc.rolling && sc.oldlen && n == "log_0001.txt")) data += read_file(dir + "/" + n);
        size_t pos = sc.oldlen && !sc.rolling && !sc.trunc ? std::min(old.size(), data.size()) : 0;
        bool bad = false;
        for (size_t i = 0; i < recs.size() && !bad; i++) {
            std::string full = recs[i].text + "\n";
            if (data.compare(pos, full.size(), full) == 0) pos += full.size();
            else if (recs[i].hit) {
                size_t k = 0;
                while (pos + k < data.size() && k < full.size() && data[pos + k] == full[k]) k++;
                pos += k;
            } else {
                viol("lost_record", sf("%s: record %zu, logged %s, is not complete in the file", what.c_str(), i, P.hits ? "without a failure during its call" : "without failures"));
                bad = true;
            }
        }
        if (!bad && pos != data.size()) viol("file_content", sf("%s: %zu unexpected bytes '%s'", what.c_str(), data.size() - pos, esc(data.substr(pos), 100).c_str()));
    }
    if (f >= 0) {
        stat("faults_injected", static_cast<uint64_t>(P.hits));
        stat(std::string("fault_runs_") + fault::fn_name(f));
        stat("reports_seen", rp.size());
    }
    uint64_t h = hash_mix(sc.seed, static_cast<uint64_t>(f + 1) * 1000 + static_cast<uint64_t>(from) * 10 + static_cast<uint64_t>(count));
    h = hash_mix(h, static_cast<uint64_t>(f2 + 1) * 1000 + static_cast<uint64_t>(from2) * 10 + static_cast<uint64_t>(count2));
    casedone(hash_mix(h, static_cast<uint64_t>(variant)), f >= 0);
    return true;
}

static void check_fds(const char* what, size_t before) {
    size_t after = fd_targets().size();
    if (after != before) viol("descriptor_leak", sf("%s: %zu descriptors instead of %zu", what, after, before));
}

static void enumerate(budget& b) {
    for (uint64_t i = 0; b.left() && !too_many() && i < static_cast<uint64_t>(arg("cases", 100)); i++) {
        script sc(caseseed(i));
        size_t n0 = fd_targets().size();
        long calls[fault::F_N];
        run_script(sc, -1, 0, 0, 0, 0, calls);
        check_fds("no fault", n0);
        stat("scripts");
        // every function, every call of it, a few lengths; in random order, as far as the time goes
        struct point { int f; long from, count; };
        std::vector<point> pts;
        uint64_t total = 0;
        for (int f = 0; f < fault::F_N; f++)
            for (long k = 0; k < calls[f]; k++) {
                bool budgeted = f == fault::F_OPEN || f == fault::F_FDOPEN || f == fault::F_MKDIR;
                for (long c : budgeted ? std::vector<long>{1, 2, 4, 5, 1000} : std::vector<long>{1, 2, 1000}) pts.push_back({f, k, c});
            }
        rng r(caseseed(i) + 5);
        for (size_t x = pts.size(); x > 1; x--) std::swap(pts[x - 1], pts[r.below(x)]);
        // the first script is gone through completely in the thorough runs
        size_t maxp = S().thorough && i < 4 ? pts.size() : 25;
        for (size_t x = 0; x < pts.size() && x < maxp && b.left() && !too_many(); x++) {
            // whatever the system says: a failure that is gone the next time was a transient one
            static const std::vector<int> errs{ENOSPC, EIO, EMFILE, EINTR, EDQUOT, EAGAIN, EBADF, EACCES, EROFS, ENFILE, EBUSY, ETXTBSY, EPERM, ENOMEM, ENXIO, ESTALE, ETIMEDOUT, EINVAL, EFBIG, EPIPE, ENODEV, 0};
            size_t n1 = fd_targets().size();
            point q{-1, 0, 0};
            if (r.chance(35)) { q = r.pick(pts); stat("fault_pairs"); }
            run_script(sc, pts[x].f, pts[x].from, pts[x].count, r.pick(errs), static_cast<int>(r.below(2)), nullptr, q.f, q.from, q.count);
            check_fds(S().label.c_str(), n1);
            total++;
        }
        stat("fault_points", total);
        if (total == pts.size()) stat("scripts_with_all_fault_points");
        if (i < 2) sample(sc.describe() + sf(": %zu fault points", pts.size()));
    }
}

// ---- failures made by the system itself
static void full_device(rng& r) {
    label("a full device");
    size_t n0 = fd_targets().size();
    auto A = std::make_shared<rec_sink>();
    int nrec = r.range(1, 200);
    size_t len = r.below(r.chance(30) ? 9000 : 100);
    bool async = r.chance(40), fl = r.chance(50);
    size_t nrep = 0;
    {
        stderr_capture cap;
        {
            auto fs = std::make_shared<ll::sinks::basic_file_sink_mt>("/dev/full", false);
            ll::thread_pool_shr_ptr tp;
            std::shared_ptr<ll::logger> lg;
            std::vector<ll::sink_shr_ptr> sv{fs, A};
            if (async) { tp = make_pool(r.range(0, 2), 8, 2); lg = std::make_shared<ll::async_logger>("full", sv.begin(), sv.end(), tp); }
            else lg = std::make_shared<ll::logger>("full", sv.begin(), sv.end());
            if (r.chance(30)) lg->set_flush_level(ll::level::info);
            std::vector<std::thread> ts;
            for (int t = 0; t < 2; t++) ts.emplace_back([&] { for (int i = 0; i < nrec; i++) { try { lg->info(std::string(len, 'x')); if (fl) lg->flush(); } catch (...) { viol("escaped", "writing to a full device"); } tick(); } });
            for (auto& t : ts) t.join();
            tp.reset();
        }
        nrep = reports(cap.text()).size();
    }
    VF_CHECK(A->nlog == static_cast<size_t>(2 * nrec), "other_sinks", "full device: the other sink got %zu of %d messages", A->nlog.load(), 2 * nrec);
    VF_CHECK(nrep > 0, "not_reported", "full device: nothing reported");
    check_fds("full device", n0);
    stat("full_device_runs");
    casedone(hash_mix(static_cast<uint64_t>(nrec), len), true);
}

static void size_limit(rng& r) {
    // records up to the limit are written, then writes fail, then the limit is raised
    label("a file size limit");
    std::string root = S().tmp + "/c10s";
    rm_rf(root);
    size_t n0 = fd_targets().size();
    struct rlimit old, lim;
    getrlimit(RLIMIT_FSIZE, &old);
    bool rolling = r.chance(30);
    std::vector<std::string> later;
    std::string dir = root + "/x";
    bool fl = r.chance(50);
    {
        stderr_capture cap;
        {
            ll::sink_shr_ptr fs;
            if (rolling) fs = std::make_shared<ll::sinks::rolling_file_sink_mt>(dir + "/f.log", 9000, 50);
            else fs = std::make_shared<ll::sinks::basic_file_sink_mt>(dir + "/f.log", true);
            fs->set_pattern("%v");
            ll::logger lg("lim", fs);
            int64_t failed = 0;
            lim = old;
            lim.rlim_cur = 1000 + r.below(8000);
            setrlimit(RLIMIT_FSIZE, &lim);
            for (int i = 0; i < 300; i++) {
                try { lg.info(std::string(100, static_cast<char>('a' + i % 26))); if (fl && i % 7 == 0) lg.flush(); }
                catch (...) { viol("escaped", "writing beyond the size limit"); }
            }
            try { lg.flush(); } catch (...) { viol("escaped", "flushing beyond the size limit"); }
            (void)failed;
            setrlimit(RLIMIT_FSIZE, &old);
            try { lg.flush(); } catch (...) { viol("escaped", "flushing after the size limit"); }
            for (int i = 0; i < 120; i++) {
                later.push_back(sf("later %d ", i) + std::string(r.below(150), 'L'));
                lg.info(later.back());
            }
        }
        setrlimit(RLIMIT_FSIZE, &old);
        VF_CHECK(!reports(cap.text()).empty(), "not_reported", "size limit: nothing reported");
    }
    std::string all;
    for (auto& n : ls(dir)) all += read_file(dir + "/" + n);
    size_t pos = 0;
    for (auto& l : later) {
        size_t p = all.find(l + "\n", pos);
        if (p == std::string::npos) { viol("not_recovered", sf("size limit raised, but '%s' is not in the file (%zu bytes)", l.c_str(), all.size())); break; }
        pos = p + l.size() + 1;
    }
    check_fds("size limit", n0);
    stat("size_limit_runs");
    casedone(hash_mix(lim.rlim_cur, rolling), true);
}

static void obstacles(rng& r) {
    std::string root = S().tmp + "/c10o";
    rm_rf(root);
    ::mkdir(root.c_str(), 0755);
    size_t n0 = fd_targets().size();
    int k = r.range(0, 5);
    label(sf("obstacle %d", k));
    stderr_capture* cap = new stderr_capture;
    auto A = std::make_shared<rec_sink>();
    std::vector<std::string> later;
    if (k == 0) {
        // the next file of a rolling sink is a directory, later it is gone
        ::mkdir((root + "/f_2.log").c_str(), 0755);
        {
            auto fs = std::make_shared<ll::sinks::rolling_file_sink_mt>(root + "/f.log", 50, 2);
            fs->set_pattern("%v");
            std::vector<ll::sink_shr_ptr> sv{fs, A};
            ll::logger lg("ob", sv.begin(), sv.end());
            int n = r.range(2, 5);
            for (int i = 0; i < n; i++) try { lg.info(std::string(30, 'x')); } catch (...) { viol("escaped", "rolling into a directory"); }
            VF_CHECK(!reports(cap->text()).empty(), "not_reported", "rolling into a directory: nothing reported");
            VF_CHECK(A->nlog == static_cast<size_t>(n), "other_sinks", "rolling into a directory");
            ::rmdir((root + "/f_2.log").c_str());
            lg.info("after");
            lg.flush();
            VF_CHECK(read_file(root + "/f_2.log") == "after\n", "not_recovered", "the directory is gone, but the record is not in the file");
        }
    } else if (k == 1) {
        // a parent is a file, later it is a directory
        write_file(root + "/p", "file");
        bool thrown = false;
        try { ll::sinks::basic_file_sink_mt s(root + "/p/q/f.log"); }
        catch (const ll::learnlog_excpt&) { thrown = true; }
        VF_CHECK(thrown, "construct", "a parent is a file: no exception");
        check_fds("a parent is a file", n0 + 1);
        ::unlink((root + "/p").c_str());
        try { ll::sinks::basic_file_sink_mt s(root + "/p/q/f.log"); }
        catch (const std::exception& e) { viol("not_recovered", sf("the parent can be created now, but: %s", e.what())); }
    } else if (k == 2) {
        // the directory disappears before a roll
        auto fs = std::make_shared<ll::sinks::rolling_file_sink_mt>(root + "/gone/f.log", 50, 5);
        fs->set_pattern("%v");
        ll::logger lg("ob", fs);
        lg.info(std::string(40, 'x'));
        lg.flush();
        rm_rf(root + "/gone");
        lg.info(std::string(40, 'y'));
        lg.flush();
        std::string all;
        for (auto& n : ls(root + "/gone")) all += read_file(root + "/gone/" + n);
        VF_CHECK(all == std::string(40, 'y') + "\n", "not_recovered", "the directory was not created again for the next file");
    } else if (k == 3) {
        // no descriptors left
        struct rlimit old, lim;
        getrlimit(RLIMIT_NOFILE, &old);
        bool thrown = false, other = false;
        auto fs = std::make_shared<ll::sinks::rolling_file_sink_mt>(root + "/f.log", 50, 5);
        fs->set_pattern("%v");
        lim = old;
        lim.rlim_cur = 3;
        setrlimit(RLIMIT_NOFILE, &lim);
        try { ll::sinks::basic_file_sink_mt s(root + "/n.log"); }
        catch (const ll::learnlog_excpt&) { thrown = true; }
        catch (...) { other = true; }
        VF_CHECK(thrown && !other, "construct", "no descriptors left: %s", other ? "a foreign exception" : "no exception");
        ll::logger lg("ob", fs);
        lg.info(std::string(40, 'x'));
        try { lg.info(std::string(40, 'y')); lg.info(std::string(40, 'z')); } catch (...) { viol("escaped", "no descriptors left"); }
        setrlimit(RLIMIT_NOFILE, &old);
        VF_CHECK(!reports(cap->text()).empty(), "not_reported", "no descriptors left: nothing reported");
        lg.info("after");
        lg.flush();
        std::string all;
        for (auto& n : ls(root)) all += read_file(root + "/" + n);
        VF_CHECK(all.find("after\n") != std::string::npos && all.find(std::string(40, 'x')) != std::string::npos, "not_recovered", "descriptors are available again, but the record is missing");
    } else if (k == 4) {
        // a sink that could not open its next file is flushed: other streams of the process are none of its business
        std::string d = root + "/dir";
        FILE* other = ::fopen((root + "/other").c_str(), "w");
        auto fs = std::make_shared<ll::sinks::rolling_file_sink_mt>(d + "/f.log", 50, 5);
        fs->set_pattern("%v");
        auto lg = std::make_shared<ll::logger>("ob", fs);
        if (r.chance(50)) lg->set_flush_level(ll::level::info);
        fs.reset();
        lg->info(std::string(40, 'x'));
        ::rename(d.c_str(), (root + "/moved").c_str());
        write_file(d, "file");
        lg->info(std::string(40, 'y'));
        VF_CHECK(!reports(cap->text()).empty(), "not_reported", "a roll that failed was not reported");
        bool destroy = r.chance(40);
        ::fputs("pending", other);
        ::flockfile(other);
        std::atomic<bool> done{false};
        std::thread t([&] { if (destroy) lg.reset(); else lg->flush(); done = true; });
        for (int n = 0; n < 1000 && !done.load(); n++) sleep_us(10000);
        VF_CHECK(done.load(), "blocked_by_other_stream", "%s a rolling sink without a file waits for another stream of the process", destroy ? "destroying" : "flushing");
        ::funlockfile(other);
        t.join();
        VF_CHECK(read_file(root + "/other").empty(), "other_stream_written", "%s a rolling sink without a file wrote out another stream of the process", destroy ? "destroying" : "flushing");
        ::fclose(other);
        if (!destroy) {
            ::unlink(d.c_str());
            lg->info("after");
            lg->flush();
            std::string all;
            for (auto& n : ls(d)) all += read_file(d + "/" + n);
            VF_CHECK(all == "after\n", "not_recovered", "the directory can be created again, but the record is missing: %s", esc(all).c_str());
        }
        lg.reset();
        stat("flushes_without_a_file");
    } else {
        // the path is a directory
        ::mkdir((root + "/dir.log").c_str(), 0755);
        for (bool t : {false, true}) {
            bool thrown = false;
            try { ll::sinks::basic_file_sink_mt s(root + "/dir.log", t); }
            catch (const ll::learnlog_excpt&) { thrown = true; }
            VF_CHECK(thrown, "construct", "the path is a directory: no exception");
        }
    }
    delete cap;
    A.reset();
    check_fds(sf("obstacle %d", k).c_str(), n0);
    stat("obstacle_runs");
    casedone(hash_mix(static_cast<uint64_t>(k), 77), true);
}

void vf_main() {
    signal(SIGXFSZ, SIG_IGN);
    if (S().mode == "system") {
        budget b;
        for (uint64_t i = 0; b.left() && !too_many() && i < static_cast<uint64_t>(arg("cases", 100)); i++) {
            rng r(caseseed(i));
            switch (i % 4) {
                case 0: full_device(r); break;
                case 1: size_limit(r); break;
                default: obstacles(r);
            }
        }
        return;
    }
    budget b;
    enumerate(b);
}
