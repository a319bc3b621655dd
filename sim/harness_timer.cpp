// Timers while the wall clock is set, and the times reported per statement (--times).
#include "sim.hpp"
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/catalog/Catalog.hpp>
#include <mutable/storage/Index.hpp>
#include <mutable/util/Timer.hpp>
#include <cmath>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

using namespace sim;
namespace {

void init() { m::Catalog::Get(); m::Options::Get().quiet = false; }

// ------------------------------------------------------------------------------------------- one timer, many measurements
struct Bounds { uint64_t lo, hi; };
struct MM { std::string name; bool active; Bounds begin, end; };       // model of a measurement
struct Slot { std::unique_ptr<m::Timer::TimingProcess> tp; size_t of = 0; bool running = false; };

void run_timer(const Plan &p)
{
    m::Timer *T; { Sys s; T = new m::Timer; } std::vector<MM> M; Slot slots[6];
    auto timed = [](auto &&f) { Bounds b{ now_ns(), 0 }; { Sys s; f(); } b.hi = now_ns(); return b; };
    auto release = [&](Slot &S) { if (not S.tp) return; Bounds b = timed([&] { S.tp.reset(); }); if (S.running) { M[S.of].active = false; M[S.of].end = b; S.running = false; } };
    auto check = [&](const char *when) {
        const auto &ms = T->measurements();
        if (ms.size() != M.size()) violation("measurements", "%s: %zu measurements instead of %zu", when, ms.size(), M.size());
        bool all = true; int64_t sum = 0; std::string text; { std::ostringstream o; { Sys s; o << *T; } text = o.str().c_str(); }
        std::vector<std::string> lines; { std::istringstream in(text); std::string l; while (std::getline(in, l)) lines.push_back(l); }
        if (lines.size() != M.size() + 1) violation("printed", "%s: %zu lines for %zu measurements", when, lines.size(), M.size());
        for (size_t i = 0; i < M.size(); ++i) {
            if (ms[i].name != M[i].name) violation("measurements", "%s: measurement %zu is called '%s' instead of '%s'", when, i, ms[i].name.c_str(), M[i].name.c_str());
            if (&T->get(i) != &ms[i] or &T->get(M[i].name) != &ms[i]) violation("measurements", "%s: '%s' is found elsewhere", when, M[i].name.c_str());
            if (lines[i + 1].find(M[i].name) == std::string::npos) violation("printed", "%s: '%s' is printed as '%s'", when, M[i].name.c_str(), lines[i + 1].c_str());
            if (M[i].active) { all = false;
                if (not ms[i].is_active() or ms[i].is_finished()) violation("measurements", "%s: '%s' is in progress, but counts as finished", when, M[i].name.c_str());
                if (lines[i + 1].find("not finished") == std::string::npos) violation("printed", "%s: unfinished '%s' is printed as '%s'", when, M[i].name.c_str(), lines[i + 1].c_str());
                continue; }
            if (not ms[i].is_finished() or ms[i].is_active() or ms[i].is_unused()) violation("measurements", "%s: '%s' has finished, but does not count as such", when, M[i].name.c_str());
            int64_t d = std::chrono::duration_cast<std::chrono::nanoseconds>(ms[i].duration()).count(); sum += d;
            int64_t lo = int64_t(M[i].end.lo - M[i].begin.hi), hi = int64_t(M[i].end.hi - M[i].begin.lo);
            if (d < std::max<int64_t>(lo, 0) or d > hi) violation("duration", "%s: '%s' took between %ld and %ld ns, but is recorded with %ld ns", when, M[i].name.c_str(), long(lo), long(hi), long(d));
            auto k = lines[i + 1].find(" took "); double ms_printed = k == std::string::npos ? -1 : atof(lines[i + 1].c_str() + k + 6);
            if (std::abs(ms_printed - double(d) / 1e6) > 2e-3 + double(d) / 1e6 * 1e-5) violation("printed", "%s: %ld ns are printed as '%s'", when, long(d), lines[i + 1].c_str());
        }
        if (all) { int64_t t = std::chrono::duration_cast<std::chrono::nanoseconds>(T->total()).count(); if (t != sum) violation("total", "%s: the total is %ld instead of %ld ns", when, long(t), long(sum)); }
        uint64_t h = 7; for (auto &m : M) h = h * 31 + m.active * 2 + (m.name.size() & 1); state(h);
    };
    for (auto &o : p.ops) {
        std::istringstream s(o); std::string k, name; int i = 0; uint64_t n = 0; s >> k;
        if (k == "new") {
            s >> i >> name; Slot &S = slots[i]; release(S);
            size_t at = 0; while (at < M.size() and M[at].name != name) ++at;
            bool busy = at < M.size() and M[at].active, threw = false; Bounds b;
            b = timed([&] { try { S.tp.reset(new m::Timer::TimingProcess(T->create_timing(name.c_str()))); } catch (const m::invalid_argument&) { threw = true; } });
            if (threw != busy) violation("refusal", busy ? "'%s' is started twice" : "'%s' cannot be started", name.c_str());
            if (threw) { count("probe.measurement-in-progress-refused"); continue; }
            if (at == M.size()) M.push_back({ name, true, b, {} }); else { M[at] = { name, true, b, {} }; count("probe.measurement-restarted"); }
            S.of = at; S.running = true;
        } else if (k == "stop") { s >> i; Slot &S = slots[i]; if (not S.tp or not S.running) continue; Bounds b = timed([&] { S.tp->stop(); }); M[S.of].active = false; M[S.of].end = b; S.running = false; }
        else if (k == "del") { s >> i; release(slots[i]); }
        else if (k == "throw") {                          // a measured section that ends by an exception
            s >> name >> n; size_t at = 0; while (at < M.size() and M[at].name != name) ++at; if (at < M.size() and M[at].active) continue;
            Bounds b{ now_ns(), 0 }, e{}; { Sys y; try { M_TIME_BLOCK(name.c_str(), *T, { b.hi = now_ns(); sleep_ns(n); e.lo = now_ns(); throw m::runtime_error("x"); }); } catch (const m::runtime_error&) { } } e.hi = now_ns();
            MM v{ name, false, b, e }; if (at == M.size()) M.push_back(v); else M[at] = v;
        } else if (k == "wait") { s >> n; Sys y; sleep_ns(n); }
        else if (k == "clear") { bool any = false; for (auto &S : slots) any |= S.running; if (any) continue; { Sys y; T->clear(); } M.clear(); }
        check(o.c_str());
    }
    for (auto &S : slots) release(S);
    check("at the end"); { Sys s; delete T; }
}

// ------------------------------------------------------------------------------------------- times of statements
uint64_t hs(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
std::string *answers;
struct CaptureBuf : std::streambuf {
    int overflow(int c) override { Quiet q; if (c != EOF) answers->push_back(char(c)); return c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { Quiet q; answers->append(s, size_t(n)); return n; }
};
struct Times { std::vector<std::pair<std::string, double>> t; };
// the lines "name: milliseconds" of an output
Times times_of(const std::string &out)
{
    Times r; std::istringstream in(out); std::string l;
    while (std::getline(in, l)) { auto k = l.rfind(": "); if (k == l.npos or k == 0 or l.find('"') != l.npos) continue; char *e; double v = strtod(l.c_str() + k + 2, &e); if (*e or e == l.c_str() + k + 2) continue; r.t.push_back({ l.substr(0, k), v }); }
    return r;
}
void run_system(const Plan &p)
{
    answers = new std::string; std::map<std::string, std::string> conf; for (auto &c : p.conf) { auto e = c.find(' '); conf[c.substr(0, e)] = c.substr(e + 1); }
    int nc = atoi(conf["clients"].c_str()), slow = atoi(conf["slow"].c_str()), rows = atoi(conf["rows"].c_str());
    CaptureBuf buf; std::streambuf *old; { Sys s; old = std::cout.rdbuf(&buf); m::Options::Get().times = true; }
    int fd = int(syscall(SYS_memfd_create, "dsv", 0)); { std::string b; for (int i = 0; i < rows; ++i) b += std::to_string(i * 7 % 100) + "," + std::to_string(i) + "\n"; if (write(fd, b.data(), b.size()) < 0) { } int f = dup2(fd, 700); close(fd); fd = f; }
    std::map<std::string, std::set<std::string>> names;   // kind of statement -> names of its measurements
    struct Out { std::string err; };
    auto issue = [&](const std::string &sql) { Out r; std::ostringstream out, err; { Sys s; std::istringstream in(sql.c_str()); m::process_stream(in, "-", m::Diagnostic(false, out, err)); } r.err = err.str().c_str(); return r; };
    issue("CREATE DATABASE d; USE d; CREATE TABLE t ( a INT(4), b INT(4) ); CREATE TABLE u ( a INT(4), b INT(4) );"); issue("INSERT INTO u VALUES (1, 1), (2, 2), (3, NULL);");
    answers->clear();
    static const char *sql[] = { "SELECT a, b FROM t;", "SELECT t.a, u.b FROM t, u WHERE t.a = u.a;", "INSERT INTO t VALUES (1, 2), (3, 4);", "IMPORT INTO t DSV \"/proc/self/fd/700\";", "CREATE INDEX i# ON t (b);", "SELECT COUNT(*) FROM t WHERE b > 10;",
        "SELECT nonsense FROM t;", "SELECT a FROM u ORDER BY a;", "SELECT a / 0 FROM u;", "DROP INDEX i#;", "USE d;", "SELECT x FROM" };
    constexpr int KINDS = 12;
    std::map<int, int> selects;
    if (nc <= 1) {
        sysfaults.read_slow_pm = slow;
        for (auto &o : p.ops) {
            std::istringstream s(o); int c, k, n; if (not (s >> c >> k >> n) or k >= KINDS) continue;
            std::string q = sql[k]; if (auto h = q.find('#'); h != q.npos) q.replace(h, 1, std::to_string(n));
            answers->clear(); uint64_t t0 = now_ns(), slow0 = input_slow_ns; Out r = issue(q); uint64_t t1 = now_ns(), lost = input_slow_ns - slow0;
            log("%s -> %s| %s", q.c_str(), answers->c_str(), r.err.c_str());
            Times T = times_of(*answers); std::set<std::string> seen; double sum = 0;
            bool failed = r.err.find("error: ") != r.err.npos;
            for (auto &[name, ms] : T.t) {
                if (not seen.insert(name).second) violation("printed", "'%s' is reported twice for %s", name.c_str(), q.c_str());
                if (ms < 0 or ms > double(t1 - t0) / 1e6 + 1e-3 + double(t1 - t0) / 1e6 * 1e-5) violation("duration", "'%s' of %s is reported to take %f ms; the whole statement took %f ms", name.c_str(), q.c_str(), ms, double(t1 - t0) / 1e6);
                if (name.find("DSV") != name.npos and ms + 2e-3 + ms * 1e-5 < double(lost) / 1e6) violation("duration", "'%s' is reported to take %f ms, but reading alone took %f ms", name.c_str(), ms, double(lost) / 1e6);
                if (name != "Plan enumeration") sum += ms;   // part of computing the logical plan
            }
            // the sections of a statement follow one another
            if (sum > double(t1 - t0) / 1e6 + 1e-3 * T.t.size() + double(t1 - t0) / 1e6 * 1e-5) { std::string all; for (auto &[name, ms] : T.t) all += name + " " + std::to_string(ms) + "; "; violation("duration", "the sections of %s are reported to take %f ms together; the whole statement took %f ms: %s", q.c_str(), sum, double(t1 - t0) / 1e6, all.c_str()); }
            bool sel = q.compare(0, 6, "SELECT") == 0, imp = k == 3;
            if (sel and not failed and not seen.count("Execute query")) violation("printed", "no time to execute is reported for %s", q.c_str());
            if (imp and not seen.count("Read DSV file")) violation("printed", "no time to read the file is reported for %s", q.c_str());
            if (not sel and seen.count("Execute query")) violation("printed", "%s is reported to execute a query", q.c_str());
            if (not imp and seen.count("Read DSV file")) violation("printed", "%s is reported to read a file", q.c_str());
            seen.erase("Create backend");                 // once per thread
            std::string key = sql[k] + std::string(failed ? " fails" : ""); auto [it, fresh] = names.emplace(key, seen);
            if (not fresh and it->second != seen) { std::string a, b; for (auto &x : it->second) a += x + "; "; for (auto &x : seen) b += x + "; "; violation("printed", "%s is reported with %s, before with %s", q.c_str(), b.c_str(), a.c_str()); }
            count("statements"); state(hs(key) * 31 + seen.size());
        }
        sysfaults = SysFaults{};
    } else {
        int done[4] = {}; std::vector<int> tids; std::vector<std::vector<std::string>> script(nc); uint64_t t0 = now_ns();
        for (auto &o : p.ops) { std::istringstream s(o); int c, k, n; if (not (s >> c >> k >> n) or k >= KINDS) continue; std::string q = sql[k]; if (auto h = q.find('#'); h != q.npos) q.replace(h, 1, std::to_string(n)); script[c % nc].push_back(q); }
        for (int c = 0; c < nc; ++c) tids.push_back(spawn([&, c] { Quiet y; for (auto &q : script[c]) { Out r = issue(q); log("c%d %s | %s", c, q.c_str(), r.err.c_str()); if (q.compare(0, 6, "SELECT") == 0 and r.err.find("error: ") == r.err.npos) ++done[c]; } }));
        for (int t : tids) join(t);
        Times T = times_of(*answers); size_t n = 0, want = 0; for (int c = 0; c < nc; ++c) want += done[c];
        for (auto &[name, ms] : T.t) { n += name == "Execute query"; if (ms < 0 or ms > double(now_ns() - t0) / 1e6 * 1.0001 + 1e-3) violation("duration", "'%s' is reported to take %f ms; all statements together took %f ms", name.c_str(), ms, double(now_ns() - t0) / 1e6); }
        // a query that fails while executing may or may not be reported
        size_t may = 0; for (auto &v : script) for (auto &q : v) may += q.find("/ 0") != q.npos;
        if (n < want or n > want + may) violation("printed", "%zu executions are reported for %zu queries", n, want);
        count("statements of concurrent clients", p.ops.size());
    }
    { Sys s; std::cout.rdbuf(old); }
}

// an index that cannot be loaded must not make measurements disappear
void run_index(const Plan &p)
{
    std::ostringstream *out = new std::ostringstream; Sys s;
    auto &C = m::Catalog::Get(); { std::istringstream in("CREATE DATABASE d; USE d; CREATE TABLE t ( a INT(4), b DOUBLE ); INSERT INTO t VALUES (1, 1.5), (2, 2.5);"); m::process_stream(in, "-", m::Diagnostic(false, *out, *out)); }
    auto &table = C.get_database_in_use().get_table(C.pool("t"));
    size_t before = C.timer().measurements().size(); (void) before;
    for (auto &o : p.ops) {
        std::istringstream is(o.c_str()); std::string k; int n; is >> k >> n; if (k != "load") continue;
        C.timer().clear();
        { auto tp = C.timer().create_timing("before"); }
        bool threw = false; uint64_t t0 = now_ns(), t1 = 0;
        m::Schema S = table.schema(); m::Schema one; one.add(S.at(n & 1).id, S.at(n & 1).type);
        try { M_TIME_BLOCK("load", C.timer(), { if (n & 2) { m::idx::ArrayIndex<int32_t> ix; ix.bulkload(table, one); } else { m::idx::ArrayIndex<double> ix; ix.bulkload(table, one); } }); } catch (const m::exception&) { threw = true; }
        t1 = now_ns();
        auto &ms = C.timer().measurements(); Quiet q;
        if (threw) count("probe.index-load-refused");
        if (ms.size() != 2 or ms[0].name != "before" or ms[1].name != "load") violation("measurements", "loading an index%s leaves %zu measurements instead of 2", threw ? " fails and" : "", ms.size());
        if (not ms[1].is_finished() or ms[1].duration().count() < 0 or uint64_t(ms[1].duration().count()) > t1 - t0) violation("duration", "loading an index is recorded wrongly");
        state(n * 2 + threw);
    }
}

void generate(Plan &p, Rng &r, int tier)
{
    int mode = r.below(10); Knobs &k = p.knobs; k.sync_pct = r.chance(1, 3) ? 0 : 5 + r.below(30); k.step_cap = 30'000'000; k.clock_jump_pm = r.chance(1, 5) ? 0 : 5 + r.below(300);
    if (mode < 6) {
        p.conf = { "mode timer" }; static const char *names[] = { "a", "bb", "a:b", "long-name-of-a-measurement", "x", "y" }; int nn = 2 + r.below(5), n = 4 + r.below(tier ? 60 : 30);
        for (int i = 0; i < n; ++i) { std::string s; auto slot = std::to_string(r.below(6));
            switch (r.below(12)) { case 0: case 1: case 2: case 3: s = "new " + slot + " " + names[r.below(nn)]; break; case 4: case 5: s = "stop " + slot; break; case 6: case 7: s = "del " + slot; break; case 8: s = "throw " + std::string(names[r.below(nn)]) + " " + std::to_string(1 + r.below(1000000)); break; case 9: s = r.chance(1, 3) ? "clear" : "stop " + slot; break; default: s = "wait " + std::to_string(1 + r.below(r.chance(1, 3) ? 5'000'000'000ull : 100000)); }
            p.ops.push_back(s); }
    } else if (mode < 9) {
        int nc = mode == 8 ? 2 + r.below(3) : 1; p.conf = { "mode system", "clients " + std::to_string(nc), "slow " + std::to_string(r.chance(1, 3) ? 0 : 200 + r.below(700)), "rows " + std::to_string(r.chance(1, 4) ? 0 : 1 + r.below(60)) };
        for (int i = 0, n = 3 + r.below(nc > 1 ? 9 : 16); i < n; ++i) p.ops.push_back(std::to_string(r.below(nc)) + " " + std::to_string(r.below(12)) + " " + std::to_string(r.below(3)));
    } else { p.conf = { "mode index" }; for (int i = 0, n = 1 + r.below(6); i < n; ++i) p.ops.push_back("load " + std::to_string(r.below(4))); }
}
void run(const Plan &p)
{
    const std::string &m = p.conf[0];
    if (m == "mode timer") run_timer(p); else if (m == "mode system") run_system(p); else run_index(p);
}
Harness H{ "timer", init, generate, run, 30 };
}
extern "C" Harness *sim_harness() { return &H; }
