// Reader/writer lock: exclusion, upgrade rules, progress.
#include "sim.hpp"
#include <cstring>
#include <mutable/util/reader_writer_lock.hpp>
#include <sstream>
#include <memory>

using namespace sim;
namespace {

struct M {
    m::reader_writer_mutex mtx;
    long long value = 0, shadow = 0;          // protected by mtx; plain accesses feed the race detector
    // oracle state (quiet)
    int readers = 0, writers = 0;
    int inside = 0;                            // threads between the start of an acquire and the end of its release
    uint64_t epoch = 0;                        // bumped whenever any thread starts using the mutex
    int upgrading = 0;                         // threads that are inside a call that requests an upgrade
    uint64_t upgrade_epoch = 0;
    std::vector<std::pair<int, int>> want_write;   // (tid, mode) threads currently inside a blocking write acquire
    uint64_t commits = 0;
};
M *ms[3];
int total_sections = 0;

struct Op { int t; std::string k; int m; int hold; };
std::vector<std::vector<Op>> scripts;

void work(int n) { for (int i = 0; i < n; ++i) yield_point(); }

void enter_read(M &x, const char *how)
{
    Quiet q;
    if (x.writers) violation("exclusion", "%s was granted while a writer holds the lock", how);
    ++x.readers; ++total_sections; count("sections.read");
    state(uint64_t(x.readers) << 8 | x.writers << 4 | 1);
}
void leave_read(M &x) { Quiet q; --x.readers; }
void enter_write(M &x, const char *how)
{
    Quiet q;
    if (x.writers) violation("exclusion", "%s was granted while another writer holds the lock", how);
    if (x.readers) violation("exclusion", "%s was granted while %d other reader(s) hold the lock", how, x.readers);
    ++x.writers; ++total_sections; count("sections.write");
}
void leave_write(M &x) { Quiet q; --x.writers; ++x.commits; }

void read_section(M &x, int hold)
{
    long long a = x.value;
    work(hold);
    long long b = x.shadow;
    if (a != b) { Quiet q; violation("exclusion", "a reader saw a half-done update (%lld, %lld)", a, b); }
}
void write_section(M &x, int hold) { long long v = x.value; x.value = v + 1; work(hold); x.shadow = v + 1; }

struct Use {
    M &x; bool alone; uint64_t e;
    Use(M &m) : x(m) { Quiet q; alone = x.inside == 0; ++x.inside; e = ++x.epoch; }
    bool undisturbed() { Quiet q; return alone and x.epoch == e; }
    ~Use() { Quiet q; --x.inside; }
};
// while a writer is waiting, no reader that arrives later may be admitted before it
struct Arrival {
    M &x; std::vector<int> waiting;
    Arrival(M &m) : x(m) { Quiet q; for (auto &w : x.want_write) if (thread_waits_on_condition(w.first)) waiting.push_back(w.second); }
    void admitted(const char *how)
    {
        Quiet q;
        for (int id : waiting) for (auto &w : x.want_write) if (w.second == id)
            violation("overtaking", "%s that arrived while a writer was already waiting was admitted before it", how);
        if (not waiting.empty()) count("probe.reader-waited-for-writer");
    }
    ~Arrival() { Quiet q; waiting = {}; }
};
int wait_ids = 0;
struct WantWrite {
    M &x; int id;
    WantWrite(M &m) : x(m) { Quiet q; id = ++wait_ids; x.want_write.push_back({ self(), id }); }
    ~WantWrite() { Quiet q; for (size_t i = 0; i < x.want_write.size(); ++i) if (x.want_write[i].second == id) { x.want_write.erase(x.want_write.begin() + i); break; } }
};
struct Upgrading {
    M &x; int others; uint64_t e;
    // a reader that requests an upgrade may lose its read lock at any point of that call (if it is refused), hence it
    // stops counting as a reader; that no other writer gets in before a *granted* upgrade is checked by `commits`
    Upgrading(M &m) : x(m) { Quiet q; --x.readers; others = x.upgrading++; e = ++x.upgrade_epoch; }
    ~Upgrading() { Quiet q; --x.upgrading; }
    // could a concurrent upgrade request explain a refusal?
    bool contended() { Quiet q; return others > 0 or x.upgrade_epoch != e; }
};

bool is_free(m::reader_writer_mutex &x) { bool w = x.try_lock_write(); if (w) x.unlock_write(); return w; }
bool is_readable(m::reader_writer_mutex &x) { bool r = x.try_lock_read(); if (r) x.unlock_read(); return r; }
// lock objects that hold (or not) different locks are assigned, swapped and dropped; whatever the order, a lock is held as
// long as an object owns it and free once none does
template<class L, class Own, class Take>
void moving(int variant, bool shared, Own own, Take take)
{
    auto bad = [&](const char *what) { Quiet q; violation("ownership", "%s (variant %d, %s lock)", what, variant, shared ? "shared" : "exclusive"); };
    m::reader_writer_mutex x, y;
    {
        L a = take(x, variant != 1), b = take(y, variant != 2);
        if (own(a) != (variant != 1) or own(b) != (variant != 2)) bad("a lock object does not own what it acquired");
        if (variant == 3) { L c{std::move(b)}; if (own(b) or not own(c)) bad("moving did not transfer ownership"); if (is_free(y)) bad("moving released the lock"); b = std::move(c); if (own(c) or not own(b)) bad("moving back did not transfer ownership"); }
        a = std::move(b);                                    // afterwards a owns what b owned; b may keep what a owned, or nothing
        if (own(a) != (variant != 2)) bad("move assignment did not transfer ownership");
        if (own(a) and is_free(y)) bad("a lock is free although an object owns it");
        if (own(a) and is_readable(y) != shared) bad("a lock is held in the wrong mode");
        if (own(b) and is_free(x)) bad("a lock is free although an object owns it");
        if (variant == 4) { a.unlock(); if (own(a)) bad("owns the lock after releasing it"); if (not is_free(y)) bad("the lock is not free after it was released"); }
        if (variant == 5 and own(b)) { b.unlock(); if (not is_free(x)) bad("the lock is not free after it was released"); }
    }
    if (not is_free(x) or not is_free(y)) bad("a lock is still held although every object that owned it is gone");
    count("probe.lock-objects-moved");
}
void moves(int v)
{
    auto own = [](auto &l) { return l.owns_lock(); };
    switch (v % 5) {
        case 0: moving<m::read_lock>(v / 5, true, own, [](auto &x, bool take) { return take ? m::read_lock{x} : m::read_lock{x, std::defer_lock}; }); break;
        case 1: moving<m::write_lock>(v / 5, false, own, [](auto &x, bool take) { return take ? m::write_lock{x} : m::write_lock{x, std::defer_lock}; }); break;
        case 2: moving<m::upgrade_lock>(v / 5, true, [](auto &l) { return l.owns_read_lock(); }, [](auto &x, bool take) { return take ? m::upgrade_lock{x} : m::upgrade_lock{x, std::defer_lock}; }); break;
        case 3: moving<m::reader_writer_lock>(v / 5, true, [](auto &l) { return l.owns_read_lock(); }, [](auto &x, bool take) { m::reader_writer_lock l{x}; if (take) l.lock_read(); return l; }); break;
        case 4: moving<m::reader_writer_lock>(v / 5, false, [](auto &l) { return l.owns_write_lock(); }, [](auto &x, bool take) { m::reader_writer_lock l{x}; if (take) l.lock_write(); return l; }); break;
    }
}

void do_op(const Op &o)
{
    M &x = *ms[o.m];
    const std::string &k = o.k;
    if (k == "R") {
        Use u(x); Arrival ar(x);
        m::read_lock l{x.mtx}; ar.admitted("a read lock"); enter_read(x, "read_lock"); read_section(x, o.hold); leave_read(x); l.unlock();
    } else if (k == "W") {
        Use u(x); std::unique_ptr<m::write_lock> l;
        { WantWrite w(x); l = std::make_unique<m::write_lock>(x.mtx); }
        enter_write(x, "write_lock"); write_section(x, o.hold); leave_write(x);
        l.reset();
    } else if (k == "r") {
        Use u(x); Arrival ar(x); m::reader_writer_lock l{x.mtx}; l.lock_read(); ar.admitted("a read lock"); enter_read(x, "reader_writer_lock::lock_read");
        read_section(x, o.hold); leave_read(x); l.unlock();
        if (l.owns_read_lock() or l.owns_write_lock()) { Quiet q; violation("ownership", "lock object claims ownership after unlock"); }
    } else if (k == "w") {
        Use u(x); m::reader_writer_lock l{x.mtx}; { WantWrite w(x); l.lock_write(); }
        enter_write(x, "reader_writer_lock::lock_write"); write_section(x, o.hold); leave_write(x);
    } else if (k == "u" or k == "v") {                       // read, then upgrade; retry as readers do
        Use u(x); m::reader_writer_lock l{x.mtx};
        for (int tries = 0;; ++tries) {
            if (k == "v" and tries > 0) { count("probe.upgrade-given-up"); break; }
            l.lock_read(); enter_read(x, "lock_read"); long long before = x.value; uint64_t commits; { Quiet q; commits = x.commits; }
            work(o.hold);
            bool ok; bool cont;
            { Upgrading up(x); WantWrite w(x);
              ok = l.upgrade(); cont = up.contended(); }
            if (ok) {
                if (not l.owns_write_lock()) { Quiet q; violation("ownership", "a granted upgrade does not own the write lock"); }
                enter_write(x, "upgrade");
                { Quiet q; if (x.commits != commits) violation("upgrade-atomicity", "another writer got in between holding the read lock and the granted upgrade"); count("probe.upgrade-granted"); }
                if (x.value != before) { Quiet q; violation("upgrade-atomicity", "the protected value changed across an upgrade"); }
                write_section(x, o.hold); leave_write(x); l.unlock(); break;
            }
            count("probe.upgrade-refused");
            if (not cont) { Quiet q; violation("upgrade-refused", "an upgrade was refused although no other thread was upgrading"); }
            if (l.owns_read_lock() or l.owns_write_lock()) { Quiet q; violation("ownership", "a refused upgrade still owns the lock"); }
        }
    } else if (k == "l") {                                   // upgrade_lock
        Use u(x);
        for (;;) {
            m::upgrade_lock l{x.mtx}; enter_read(x, "upgrade_lock"); long long before = x.value; uint64_t commits; { Quiet q; commits = x.commits; }
            work(o.hold);
            bool cont; bool ok;
            {
                std::unique_ptr<m::write_lock> wl;
                { Upgrading up(x); WantWrite w(x); wl = std::make_unique<m::write_lock>(l.upgrade()); cont = up.contended(); }
                ok = wl->owns_lock();
                if (ok) {
                    enter_write(x, "upgrade_lock::upgrade");
                    { Quiet q; if (x.commits != commits) violation("upgrade-atomicity", "another writer got in between holding the read lock and the granted upgrade"); count("probe.upgrade-granted"); }
                    if (x.value != before) { Quiet q; violation("upgrade-atomicity", "the protected value changed across an upgrade"); }
                    write_section(x, o.hold); leave_write(x);
                } else {
                    count("probe.upgrade-refused");
                    if (not cont) { Quiet q; violation("upgrade-refused", "an upgrade was refused although no other thread was upgrading"); }
                    if (l.owns_read_lock()) { Quiet q; violation("ownership", "a refused upgrade still owns the read lock"); }
                    work(1);
                }
            }
            if (ok) break;
        }
    } else if (k == "tr") {
        Use u(x); Arrival ar(x);
        bool solo; bool ok = x.mtx.try_lock_read(); solo = u.undisturbed();
        if (ok) { ar.admitted("try_lock_read"); enter_read(x, "try_lock_read"); read_section(x, o.hold); leave_read(x); x.mtx.unlock_read(); }
        else { Quiet q; count("probe.try-failed"); if (solo) violation("try-refused", "try_lock_read failed on a lock nobody uses"); }
    } else if (k == "tw") {
        Use u(x);
        bool solo; bool ok = x.mtx.try_lock_write(); solo = u.undisturbed();
        if (ok) { enter_write(x, "try_lock_write"); write_section(x, o.hold); leave_write(x); x.mtx.unlock_write(); }
        else { Quiet q; count("probe.try-failed"); if (solo) violation("try-refused", "try_lock_write failed on a lock nobody uses"); }
    } else if (k == "mv") {                                  // ownership moves between lock objects
        Use u(x); 
        m::read_lock a{x.mtx}; enter_read(x, "read_lock"); m::read_lock b{std::move(a)};
        if (a.owns_lock() or not b.owns_lock()) { Quiet q; violation("ownership", "moving a read lock did not transfer ownership"); }
        m::read_lock c{x.mtx, std::defer_lock}; c = std::move(b); read_section(x, o.hold);
        if (b.owns_lock() or not c.owns_lock()) { Quiet q; violation("ownership", "move-assigning a read lock did not transfer ownership"); }
        leave_read(x);
    } else if (k == "ma") {
        Use u(x); m::read_lock l{x.mtx}; enter_read(x, "read_lock"); moves(o.hold); leave_read(x);
    } else if (k == "mw") {
        Use u(x);
        m::reader_writer_lock a{x.mtx}; a.lock_write(); enter_write(x, "lock_write");
        m::reader_writer_lock b{std::move(a)}; write_section(x, o.hold);
        m::reader_writer_lock c{x.mtx}; c = std::move(b);
        if (a.owns_write_lock() or b.owns_write_lock() or not c.owns_write_lock()) { Quiet q; violation("ownership", "moving a held lock did not transfer ownership"); }
        leave_write(x);
    }
}

void init() { }

void generate(Plan &p, Rng &r, int tier)
{
    int nt = 2 + r.below(4), nm = r.chance(3, 4) ? 1 : 2;
    p.conf.push_back("threads " + std::to_string(nt)); p.conf.push_back("mutexes " + std::to_string(nm));
    static const char *kinds[] = { "R", "W", "r", "w", "u", "v", "l", "tr", "tw", "mv", "mw", "ma" };
    std::vector<const char*> mix;                            // swarm: a random subset of operations per run
    while (mix.size() < 2) { mix.clear(); for (auto k : kinds) if (r.chance(1, 2)) mix.push_back(k); }
    int ops = nt + r.below(tier ? 24 : 14);
    int maxhold = r.below(4);
    for (int i = 0; i < ops; ++i) {
        const char *k = r.pick(mix);
        std::ostringstream s; s << (i < nt ? i : int(r.below(nt))) << ' ' << k << ' ' << r.below(nm) << ' ' << (!strcmp(k, "ma") ? r.below(30) : r.below(maxhold + 1));
        p.ops.push_back(s.str());
    }
    Knobs &k = p.knobs;
    switch (r.below(4)) {
        case 0: k.pct_depth = 1 + r.below(4); k.pct_len = 100 + r.below(1500); break;
        case 1: k.sync_pct = 5 + r.below(30); k.mem_gap = 0; break;
        case 2: k.sync_pct = 20 + r.below(60); k.mem_gap = 2 + r.below(60); break;
        case 3: k.sync_pct = 50; k.mem_gap = 0; break;
    }
    if (r.chance(1, 3)) k.spurious_pm = 50 + r.below(300);
    k.step_cap = 400000; k.fair = 4000;
}

void run(const Plan &p)
{
    int nt = 1, nm = 1;
    for (auto &c : p.conf) { std::istringstream s(c); std::string k; int v; s >> k >> v; (k == "threads" ? nt : nm) = v; }
    scripts.resize(nt);
    for (auto &c : p.ops) { std::istringstream s(c); Op o; s >> o.t >> o.k >> o.m >> o.hold; if (o.t < nt) scripts[o.t].push_back(o); }
    { Sys s; for (int i = 0; i < nm; ++i) ms[i] = new M; }
    std::vector<int> tids;
    for (int t = 0; t < nt; ++t) tids.push_back(spawn([t] {
        for (size_t i = 0;; ++i) { const Op *o; { Quiet q; if (i >= scripts[t].size()) break; o = &scripts[t][i]; log("t%d %s m%d", t, o->k.c_str(), o->m); } do_op(*o); }
    }));
    for (int t : tids) join(t);
    for (int i = 0; i < nm; ++i) {
        M &x = *ms[i];
        if (x.value != x.shadow or uint64_t(x.value) != x.commits) violation("exclusion", "lost update: %lld/%lld after %lu write sections", x.value, x.shadow, (unsigned long) x.commits);
        Sys s;
        if (not x.mtx.try_lock_write()) { Quiet q; violation("left-locked", "the lock is not free after every thread released it"); }
        x.mtx.unlock_write();
        if (not x.mtx.try_lock_read()) { Quiet q; violation("left-locked", "the lock is not free after every thread released it"); }
        x.mtx.unlock_read();
    }
}
Harness H{ "rwlock", init, generate, run, 20 };
}
extern "C" Harness *sim_harness() { return &H; }
