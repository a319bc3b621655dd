// Driver: explores seeds (one forked process per run), replays and minimises.
#include "rt.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <map>

using namespace sim;

static Harness *H;
static int err_fd = -1;
static int tier = 0;

static double wall() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

static std::string esc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r";
        else if (c == 0) r += "\\0"; else if (c >= 0x7f or c < 0x20) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += c;
    }
    return r;
}
static std::string unesc(const std::string &s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '\\' or i + 1 >= s.size()) { r += s[i]; continue; }
        char c = s[++i];
        if (c == 'n') r += '\n'; else if (c == 'r') r += '\r'; else if (c == '0') r += '\0';
        else if (c == 'x' and i + 2 < s.size()) { r += char(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; }
        else r += c;
    }
    return r;
}
static std::string jesc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' or c == '\\') { r += '\\'; r += c; } else if (c < 0x20 or c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c;
    }
    return r;
}

struct Outcome {
    int status = 0;            // Status, or ST_VIOLATION for crashes outside the handler
    std::string cls, msg;
    uint64_t hash = 0;
    std::vector<Dev> devs;
    bool devs_overflow = false;
};

// run one plan in a forked process
static Outcome run_once(const Plan &plan, const std::vector<Dev> *replay)
{
    memset((void*) result, 0, offsetof(Result, counters));
    memset(result->counters, 0, sizeof result->counters); memset(result->known, 0, sizeof result->known);
    result->msg[0] = 0;
    if (ftruncate(err_fd, 0)) { }
    lseek(err_fd, 0, SEEK_SET);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
        dup2(err_fd, 2); dup2(err_fd, 1);
        struct itimerval it{}; double t = H->run_timeout_s > 0 ? H->run_timeout_s : 30;
        it.it_value.tv_sec = long(t); it.it_value.tv_usec = long((t - long(t)) * 1e6);
        setitimer(ITIMER_PROF, &it, nullptr);             // processor time: a loaded machine must not look like a hang
        it.it_value.tv_sec = long(t) + 60; setitimer(ITIMER_REAL, &it, nullptr);
        execute(H, plan, replay);
    }
    int st; while (waitpid(p, &st, 0) < 0 and errno == EINTR) { }
    Outcome o;
    o.status = result->status; o.cls = result->cls; o.msg = result->msg; o.hash = result->hash;
    o.devs.assign(result->devs, result->devs + result->ndevs); o.devs_overflow = result->devs_overflow;
    if (o.status == ST_RUNNING) {
        o.status = ST_VIOLATION;
        char b[64];
        if (WIFSIGNALED(st) and (WTERMSIG(st) == SIGALRM or WTERMSIG(st) == SIGPROF)) snprintf(b, sizeof b, "hang");
        else if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crash-signal%d", WTERMSIG(st));
        else snprintf(b, sizeof b, "exit-%d", WEXITSTATUS(st));
        o.cls = b; o.msg = "the simulated process ended: "; o.msg += b;
    }
    if (o.status == ST_VIOLATION) {
        char b[2049]; off_t n = lseek(err_fd, 0, SEEK_END); off_t s = n > 2048 ? n - 2048 : 0;
        ssize_t k = pread(err_fd, b, 2048, s);
        if (k > 0) { o.msg += "\noutput: "; o.msg.append(b, k); }
    }
    return o;
}

static Plan make_plan(uint64_t seed, uint64_t idx)
{
    Plan p; Rng r(seed * 0x9E3779B97F4A7C15ull ^ (idx + 1) * 0xC2B2AE3D27D4EB4Full);
    p.knobs.sched_seed = r.next();
    H->generate(p, r, tier);
    return p;
}

// ------------------------------------------------------------------ replay files
static const char *kind_names[] = { "preempt", "block", "notify", "fault", "spurious", "choice", "clock" };
static void write_replay(const char *path, const Plan &p, const Outcome &o, const char *origin)
{
    FILE *f = fopen(path, "w"); if (not f) { perror(path); exit(2); }
    fprintf(f, "simreplay 1\nharness %s\norigin %s\nclass %s\nhash %016lx\n", H->name, origin, o.cls.c_str(), (unsigned long) o.hash);
    const Knobs &k = p.knobs;
    fprintf(f, "knobs %lu %u %u %u %u %u %d %lu %lu %u\n", (unsigned long) k.sched_seed, k.mem_gap, k.sync_pct, k.spurious_pm, k.pct_depth,
            k.pct_len, int(k.race), (unsigned long) k.step_cap, (unsigned long) k.fair, k.clock_jump_pm);
    for (auto &c : p.conf) fprintf(f, "conf %s\n", esc(c).c_str());
    for (auto &c : p.ops) fprintf(f, "op %s\n", esc(c).c_str());
    if (o.devs_overflow) fprintf(f, "mode seed\n");          // too many decisions to list: the scheduler seed determines them
    else for (auto &d : o.devs) fprintf(f, "dev %s %u %lu %u\n", kind_names[d.kind], d.tid, (unsigned long) d.key, d.val);
    fprintf(f, "message %s\n", esc(o.msg).c_str());
    fclose(f);
}
static bool seed_mode = false;
static bool read_replay(const char *path, Plan &p, std::vector<Dev> &devs, std::string &cls, uint64_t &hash)
{
    FILE *f = fopen(path, "r"); if (not f) { perror(path); return false; }
    static char line[1 << 20];
    while (fgets(line, sizeof line, f)) {
        size_t n = strlen(line); if (n and line[n - 1] == '\n') line[--n] = 0;
        char *sp = strchr(line, ' '); if (not sp) continue; *sp = 0; char *a = sp + 1;
        if (not strcmp(line, "class")) cls = a;
        else if (not strcmp(line, "mode")) seed_mode = true;
        else if (not strcmp(line, "hash")) hash = strtoull(a, nullptr, 16);
        else if (not strcmp(line, "knobs")) {
            Knobs &k = p.knobs; int race; unsigned long ss, cap, fair;
            sscanf(a, "%lu %u %u %u %u %u %d %lu %lu %u", &ss, &k.mem_gap, &k.sync_pct, &k.spurious_pm, &k.pct_depth, &k.pct_len, &race, &cap, &fair, &k.clock_jump_pm);
            k.sched_seed = ss; k.race = race; k.step_cap = cap; k.fair = fair;
        } else if (not strcmp(line, "conf")) p.conf.push_back(unesc(a));
        else if (not strcmp(line, "op")) p.ops.push_back(unesc(a));
        else if (not strcmp(line, "dev")) {
            char kn[16]; unsigned tid, val; unsigned long key;
            if (sscanf(a, "%15s %u %lu %u", kn, &tid, &key, &val) == 4)
                for (int i = 0; i < K_NKINDS; ++i) if (not strcmp(kn, kind_names[i])) devs.push_back(Dev{ (uint8_t) i, (uint8_t) tid, 0, val, key });
        }
    }
    fclose(f);
    return true;
}
static void print_outcome(const Outcome &o)
{
    printf("status %s\n", o.status == ST_OK ? "ok" : o.status == ST_VIOLATION ? "violation" : "inconclusive");
    printf("class %s\nhash %016lx\nsteps %lu switches %lu devs %zu\n", o.cls.c_str(), (unsigned long) o.hash, (unsigned long) result->steps,
           (unsigned long) result->switches, o.devs.size());
    printf("message %s\n", esc(o.msg).c_str());
}

// ------------------------------------------------------------------ minimisation
static double deadline_;
static int tries_ = 0;
static bool still(const Plan &p, const std::vector<Dev> *devs, const std::string &cls, Outcome &out)
{
    if (wall() > deadline_) return false;
    ++tries_;
    Outcome o = run_once(p, devs);
    if (o.status == ST_VIOLATION and o.cls == cls and not o.devs_overflow) { out = o; return true; }
    return false;
}
static void minimise(Plan &p, Outcome &best, double budget)
{
    const std::string cls = best.cls;
    deadline_ = wall() + budget;
    Outcome o;
    auto attempt = [&](const Plan &q) -> bool {
        if (still(q, &best.devs, cls, o)) { best = o; return true; }
        std::vector<Dev> none;
        if (still(q, &none, cls, o)) { best = o; return true; }
        for (int i = 0; i < 12; ++i) {
            Plan r = q; r.knobs.sched_seed = p.knobs.sched_seed + 7919 * (i + 1);
            if (still(r, nullptr, cls, o)) { best = o; return true; }
        }
        return false;
    };
    // operations: drop halves, quarters, ..., single lines
    for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i + 1 <= p.ops.size() and wall() < deadline_;) {
            Plan q = p; size_t e = std::min(i + chunk, q.ops.size());
            q.ops.erase(q.ops.begin() + i, q.ops.begin() + e);
            if (attempt(q)) p.ops = q.ops; else i += chunk;
        }
        if (chunk == 1) break;
    }
    // deviations from the default schedule, faults
    for (size_t chunk = std::max<size_t>(1, best.devs.size() / 2); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < best.devs.size() and wall() < deadline_;) {
            std::vector<Dev> d = best.devs; size_t e = std::min(i + chunk, d.size());
            d.erase(d.begin() + i, d.begin() + e);
            if (still(p, &d, cls, o) and o.devs.size() < best.devs.size()) best = o; else i += chunk;
        }
        if (chunk == 1) break;
    }
}

int main(int argc, char **argv)
{
    // fixed address space layout, in case anything address dependent is left (the heap and all mappings are fixed anyway)
    if (not getenv("SIM_NOREEXEC")) {
        int pers = personality(0xffffffff);
        setenv("SIM_NOREEXEC", "1", 1);
        if (pers != -1 and not (pers & ADDR_NO_RANDOMIZE) and personality(pers | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    struct rlimit rl{ 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    H = sim_harness();
    { Sys s; H->init(); }
    Quiet quiet;                                       // everything from here on lives in harness memory
    std::map<std::string, std::string> o;
    std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i < argc; ++i) { std::string a = argv[i]; auto e = a.find('='); if (e != std::string::npos) o[a.substr(0, e)] = a.substr(e + 1); else o["file"] = a; }
    auto num = [&](const char *k, double d) { return o.count(k) ? atof(o[k].c_str()) : d; };
    auto u64 = [&](const char *k, uint64_t d) { return o.count(k) ? strtoull(o[k].c_str(), nullptr, 10) : d; };
    tier = int(num("tier", 0));
    known_keys = new std::vector<std::string>;
    if (o.count("known")) { std::string s = o["known"]; size_t i = 0; while (i <= s.size()) { auto e = s.find(',', i); if (e == s.npos) e = s.size(); if (e > i) known_keys->push_back(s.substr(i, e - i)); i = e + 1; } }
    result = (Result*) mmap(nullptr, sizeof(Result), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    err_fd = memfd_create("err", MFD_CLOEXEC);

    uint64_t seed = u64("seed", 1);
    if (mode == "one") {
        Plan p = make_plan(seed, u64("idx", 0));
        Outcome oc = run_once(p, nullptr);
        print_outcome(oc);
        if (o.count("emit")) { char b[64]; snprintf(b, sizeof b, "seed=%lu idx=%lu", (unsigned long) seed, (unsigned long) u64("idx", 0)); write_replay(o["emit"].c_str(), p, oc, b); }
        if (o.count("log")) fwrite(result->log, 1, result->nlog, stdout);
        if (o.count("plan")) { for (auto &c : p.conf) printf("conf %s\n", esc(c).c_str()); for (auto &c : p.ops) printf("op %s\n", esc(c).c_str()); }
        return oc.status == ST_VIOLATION ? 1 : 0;
    }
    if (mode == "replay") {
        Plan p; std::vector<Dev> d; std::string cls; uint64_t hash = 0;
        if (not read_replay(o["file"].c_str(), p, d, cls, hash)) return 2;
        Outcome oc = run_once(p, seed_mode ? nullptr : &d);
        print_outcome(oc);
        if (o.count("log")) fwrite(result->log, 1, result->nlog, stdout);
        bool same = oc.cls == cls and (oc.hash == hash or cls == "hang");
        printf("reproduced %s\n", same ? "exactly" : oc.cls == cls ? "class-only" : "no");
        return oc.cls == cls ? 1 : oc.status == ST_VIOLATION ? 3 : 0;
    }
    if (mode == "minimise") {
        Plan p; std::vector<Dev> d; std::string cls; uint64_t hash = 0;
        if (not read_replay(o["file"].c_str(), p, d, cls, hash)) return 2;
        Outcome oc = run_once(p, seed_mode ? nullptr : &d);
        if (oc.status != ST_VIOLATION or oc.cls != cls) { printf("not reproduced: %s\n", oc.cls.c_str()); return 4; }
        Outcome orig = oc; size_t n0 = p.ops.size(), d0 = oc.devs.size();
        minimise(p, oc, num("time", 20));
        write_replay(o["out"].c_str(), p, oc, o["origin"].c_str());
        printf("minimised ops %zu->%zu decisions %zu->%zu in %d runs\n", n0, p.ops.size(), d0, oc.devs.size(), tries_);
        return 0;
    }
    if (mode == "explore") {
        uint64_t from = u64("from", 0), stride = u64("stride", 1), maxn = u64("count", UINT64_MAX);
        double T = num("time", 10), t0 = wall();
        uint64_t runs = 0, inconc = 0, steps = 0, switches = 0, preempts = 0, threads = 0; double sim_s = 0;
        std::unordered_set<uint64_t> scheds, states, hashes; std::map<std::string, uint64_t> counters, known; std::map<std::string,uint64_t> inc;
        std::string samples; int nsamples = 0; uint64_t checked = 0; uint64_t nondet = 0;
        FILE *out = fopen(o["out"].c_str(), "w"); if (not out) { perror("out"); return 2; }
        bool violated = false; int unrep = 0; std::map<std::string, uint64_t> other;
        auto ignored = [&](const std::string &cls) { return (',' + o["ignore"] + ',').find(',' + cls + ',') != std::string::npos; };
        for (uint64_t k = 0; k < maxn and wall() - t0 < T; ++k) {
            uint64_t idx = from + k * stride;
            Plan p = make_plan(seed, idx);
            Outcome oc = run_once(p, nullptr);
            ++runs; steps += result->steps; switches += result->switches; preempts += result->preemptions; threads += result->threads;
            sim_s += result->sim_ns > 1700000000000000000ull ? (result->sim_ns - 1700000000000000000ull) * 1e-9 : 0;
            scheds.insert(result->sched_hash); hashes.insert(oc.hash);
            for (uint32_t i = 0; i < result->nstates; ++i) states.insert(result->states[i]);
            for (uint32_t i = 0; i < result->ncounters; ++i) counters[result->counters[i].name] += result->counters[i].n;
            for (uint32_t i = 0; i < result->nknown; ++i) ++known[result->known[i]];
            if (oc.status == ST_INCONCLUSIVE) { ++inconc; ++inc[oc.cls]; }
            if (nsamples < 1 and k == 0) {
                ++nsamples; samples += "idx " + std::to_string(idx) + ":"; int n = 0;
                for (auto &c : p.conf) samples += " [" + c + "]";
                for (auto &c : p.ops) { if (++n > 12) { samples += " ..."; break; } samples += " | " + c.substr(0, 160); }
            }
            if (oc.status == ST_VIOLATION and ignored(oc.cls)) { ++other[oc.cls]; continue; }
            if (oc.status == ST_VIOLATION) {
                Outcome o2 = run_once(p, nullptr);          // the same seed again
                bool same = o2.status == ST_VIOLATION and o2.cls == oc.cls;   // an identical history is expected, the same violation is required
                if (same and o2.hash != oc.hash and oc.cls != "hang") { ++nondet; fprintf(out, "nondeterministic %lu\n", (unsigned long) idx); }
                if (not same and unrep++ < 20) { fprintf(out, "unreproducible %lu %s %s\n", (unsigned long) idx, oc.cls.c_str(), o2.cls.c_str()); continue; }
                std::string path = o["out"] + ".replay"; char b[96]; snprintf(b, sizeof b, "seed=%lu idx=%lu", (unsigned long) seed, (unsigned long) idx);
                write_replay(path.c_str(), p, oc, b);
                fprintf(out, "violation %lu %d %d %s\n", (unsigned long) idx, int(same), int(oc.devs_overflow), oc.cls.c_str());
                violated = true; break;
            }
            if (k % 64 == 7) {                              // determinism self-check
                std::string l1; if (o.count("debug")) l1.assign(result->log, result->nlog);
                Outcome o2 = run_once(p, nullptr); ++checked;
                if (o.count("debug") and o2.hash != oc.hash) {
                    FILE *f = fopen((o["out"] + ".log1").c_str(), "w"); fwrite(l1.data(), 1, l1.size(), f); fclose(f);
                    f = fopen((o["out"] + ".log2").c_str(), "w"); fwrite(result->log, 1, result->nlog, f); fclose(f);
                }
                if (o2.hash != oc.hash or o2.status != oc.status) { ++nondet; fprintf(out, "nondeterministic %lu\n", (unsigned long) idx); }
            }
        }
        fprintf(out, "summary {\"runs\":%lu,\"inconclusive\":%lu,\"steps\":%lu,\"switches\":%lu,\"preemptions\":%lu,\"threads\":%lu,\"sim_s\":%.3f,"
                "\"distinct_schedules\":%zu,\"distinct_histories\":%zu,\"states\":%zu,\"determinism_checked\":%lu,\"nondeterministic\":%lu,\"wall\":%.3f,\"counters\":{",
                (unsigned long) runs, (unsigned long) inconc, (unsigned long) steps, (unsigned long) switches, (unsigned long) preempts, (unsigned long) threads, sim_s,
                scheds.size(), hashes.size(), states.size(), (unsigned long) checked, (unsigned long) nondet, wall() - t0);
        bool first = true; for (auto &[k, v] : counters) { fprintf(out, "%s\"%s\":%lu", first ? "" : ",", k.c_str(), (unsigned long) v); first = false; }
        fprintf(out, "},\"known\":{"); first = true; for (auto &[k, v] : known) { fprintf(out, "%s\"%s\":%lu", first ? "" : ",", jesc(k).c_str(), (unsigned long) v); first = false; }
        fprintf(out, "},\"other\":{"); first = true; for (auto &[k, v] : other) { fprintf(out, "%s\"%s\":%lu", first ? "" : ",", jesc(k).c_str(), (unsigned long) v); first = false; }
        fprintf(out, "},\"inconclusive_why\":{"); first = true; for (auto &[k, v] : inc) { fprintf(out, "%s\"%s\":%lu", first ? "" : ",", jesc(k).c_str(), (unsigned long) v); first = false; }
        fprintf(out, "},\"sample\":\"%s\"}\n", jesc(samples).c_str());
        FILE *hf = fopen((o["out"] + ".hashes").c_str(), "wb");
        if (hf) { for (auto h : scheds) fwrite(&h, 8, 1, hf); uint64_t sep = 0; fwrite(&sep, 8, 1, hf); for (auto h : hashes) fwrite(&h, 8, 1, hf); fwrite(&sep, 8, 1, hf); for (auto h : states) fwrite(&h, 8, 1, hf); fclose(hf); }
        fclose(out);
        return violated ? 1 : 0;
    }
    fprintf(stderr, "usage: %s explore|one|replay|minimise key=value...\n", argv[0]);
    return 2;
}
