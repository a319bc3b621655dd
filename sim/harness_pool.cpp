// Thread-safe pools of internalised objects: uniqueness, stability, reference counts.
#include "sim.hpp"
#include <mutable/util/Pool.hpp>
#include <mutable/util/ADT.hpp>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <string>

using namespace sim;
namespace {

struct Pod { int a, b; bool operator==(const Pod &o) const { return a == o.a and b == o.b; } };
struct PodHash { size_t operator()(const Pod &p) const { return size_t(p.a % 3); } };        // collides on purpose
struct Base { int v; Base(int v) : v(v) { } Base(Base&&) = default; Base(const Base&) = delete; virtual ~Base() { }
    virtual int kind() const { return 0; } bool operator==(const Base &o) const { return v == o.v and kind() == o.kind(); } };
struct Derived : Base { std::string name; Derived(int v, std::string n) : Base(v), name(std::move(n)) { } Derived(Derived&&) = default; int kind() const override { return 1; } };
struct BaseHash { size_t operator()(const Base &b) const { return size_t(b.v / 2); } };

using SPool = m::ThreadSafeStringPool;
using PPool = m::ThreadSafePODPool<Pod, PodHash>;
using OPool = m::ThreadSafePool<Base, BaseHash>;
SPool *spool; PPool *ppool; OPool *opool;

// oracle
std::map<std::string, const void*> addr;     // "<pool>:<value>" -> address of the pooled object
std::map<std::string, int> refs;             // live references that the harness holds
void seen(const std::string &key, const void *p, const char *how)
{
    auto [it, fresh] = addr.emplace(key, p);
    if (not fresh and it->second != p) violation("not-unique", "two different pooled objects for %s (%s)", key.c_str(), how);
    for (auto &[k, q] : addr) if (q == p and k != key) violation("not-unique", "%s and %s share one pooled object", key.c_str(), k.c_str());
}
struct Slot { std::optional<m::ThreadSafePooledString> s; std::optional<PPool::proxy_type> p; std::optional<OPool::proxy_type<Base>> o; m::ThreadSafePooledOptionalString os; std::string ks, kp, ko, kos; };
constexpr int NS = 3;
std::vector<std::vector<Slot>> *slots;       // [thread][slot]
Slot *box; std::mutex *box_mtx;              // exchange between threads

void drop(std::string &k) { if (not k.empty()) { --refs[k]; k.clear(); } }

std::string sval(int v) { static const char *t[] = { "", "a", "A", "alpha", "alphabet", "beta gamma delta epsilon", "\xff\x01", "x" }; return t[v % 8]; }

struct Op { int t; std::string k; int v, s, d; };
std::vector<std::vector<Op>> scripts;

template<class F> bool guarded(F &&f, bool faults)
{
    bool ok = true;
    if (faults) ++alloc_window;
    try { f(); } catch (const std::bad_alloc&) { ok = false; }
    if (faults) --alloc_window;
    if (not ok) count("probe.allocation-failure-survived");
    return ok;
}

void do_op(const Op &o, bool faults)
{
    Slot &S = (*slots)[o.t][o.s], &D = (*slots)[o.t][o.d];
    const std::string &k = o.k;
    if (k == "s" or k == "sv") {
        std::string key, val; { Quiet q; val = sval(o.v); key = "s:" + val; }
        std::optional<m::ThreadSafePooledString> r;
        if (not guarded([&] { if (k == "s") r.emplace((*spool)(val.c_str())); else { std::string_view v; std::string longer; { Quiet q; longer = val + "tail"; v = std::string_view(longer).substr(0, val.size()); } r.emplace((*spool)(v)); } }, faults)) return;
        const char *p = **r;
        { Quiet q; if (val != p) violation("wrong-value", "internalising '%s' yields '%s'", val.c_str(), p);
          seen(key, p, "string"); drop(S.ks); S.ks = key; ++refs[key]; }
        S.s = std::move(r);
        if (S.s->count() == 0) { Quiet q; violation("ref-count", "a referenced object has reference count 0"); }
    } else if (k == "p") {
        std::string key; Pod v{ o.v, o.v * 7 }; { Quiet q; key = "p:" + std::to_string(o.v); }
        std::optional<PPool::proxy_type> r;
        if (not guarded([&] { r.emplace((*ppool)(Pod(v))); }, faults)) return;
        const Pod *p = &**r;
        if (not (*p == v)) { Quiet q; violation("wrong-value", "internalising (%d,%d) yields (%d,%d)", v.a, v.b, p->a, p->b); }
        { Quiet q; seen(key, p, "pod"); drop(S.kp); S.kp = key; ++refs[key]; }
        S.p = std::move(r);
    } else if (k == "o" or k == "d") {
        std::string key; { Quiet q; key = "o:" + k + std::to_string(o.v); }
        std::optional<OPool::proxy_type<Base>> r;
        if (not guarded([&] { if (k == "o") r.emplace((*opool)(Base(o.v))); else { auto x = (*opool)(Derived(o.v, "some longer derived name")); OPool::proxy_type<Base> b = x.as<Base>(); r.emplace(std::move(b)); } }, faults)) return;
        const Base &b = **r;
        if (b.v != o.v or b.kind() != (k == "d")) { Quiet q; violation("wrong-value", "internalising %s yields value %d of kind %d", key.c_str(), b.v, b.kind()); }
        if (k == "d") { auto x = r->as<Derived>(); if (x->name != "some longer derived name") { Quiet q; violation("wrong-value", "a pooled object lost its contents"); } }
        { Quiet q; seen(key, &b, "object"); drop(S.ko); S.ko = key; ++refs[key]; }
        S.o = std::move(r);
    } else if (k == "cp") {
        if (S.s and D.s) { *D.s = *S.s; Quiet q; std::string n = S.ks; drop(D.ks); D.ks = n; ++refs[n]; }
        else if (S.s and &S != &D) { D.s.emplace(*S.s); Quiet q; drop(D.ks); D.ks = S.ks; ++refs[D.ks]; }
        if (S.o and &S != &D) { D.o.reset(); D.o.emplace(*S.o); Quiet q; drop(D.ko); D.ko = S.ko; ++refs[D.ko]; }
    } else if (k == "op") {                                  // optional proxies
        if (S.s) { m::ThreadSafePooledOptionalString x(*S.s); D.os = std::move(x); { Quiet q; drop(D.kos); D.kos = S.ks; ++refs[D.kos]; }
            if (not D.os.has_value() or not (D.os == *S.s)) { Quiet q; violation("not-unique", "an optional reference differs from the reference it was made from"); } }
        else { D.os = m::ThreadSafePooledOptionalString(); Quiet q; drop(D.kos); }
    } else if (k == "mv") {
        if (&S != &D) { if (S.p) { D.p = std::move(S.p); S.p.reset(); Quiet q; drop(D.kp); D.kp = std::move(S.kp); S.kp.clear(); }
                        if (S.s) { D.s = std::move(S.s); S.s.reset(); Quiet q; drop(D.ks); D.ks = std::move(S.ks); S.ks.clear(); } }
    } else if (k == "rm") {
        S.s.reset(); S.p.reset(); S.o.reset(); S.os = m::ThreadSafePooledOptionalString();
        Quiet q; drop(S.ks); drop(S.kp); drop(S.ko); drop(S.kos);
    } else if (k == "xc") {                                  // hand a reference to another thread
        std::lock_guard<std::mutex> g(*box_mtx);
        std::swap(S.s, box->s); std::swap(S.p, box->p); std::swap(S.o, box->o);
        { Quiet q; std::swap(S.ks, box->ks); std::swap(S.kp, box->kp); std::swap(S.ko, box->ko); }
    }
    // what a thread holds stays valid and unchanged, whatever the others do
    if (S.s) { Quiet q; std::string have = **S.s; if ("s:" + have != S.ks) violation("wrong-value", "a held string turned into '%s' (was %s)", have.c_str(), S.ks.c_str()); }
    if (S.p) { const Pod &p = **S.p; Quiet q; if ("p:" + std::to_string(p.a) != S.kp) violation("wrong-value", "a held object changed"); }
}

void init() { }
void generate(Plan &p, Rng &r, int tier)
{
    int nt = 2 + r.below(4);
    bool faults = r.chance(1, 3);
    p.conf = { "threads " + std::to_string(nt), "faults " + std::to_string(faults ? 100 + r.below(400) : 0) };
    static const char *kinds[] = { "s", "sv", "p", "o", "d", "cp", "op", "mv", "rm", "xc" };
    std::vector<const char*> mix; while (mix.size() < 3) { mix.clear(); for (auto k : kinds) if (r.chance(1, 2)) mix.push_back(k); }
    mix.push_back(kinds[r.below(5)]); mix.push_back(kinds[r.below(5)]);
    int domain = 1 + r.below(6), ops = nt * 2 + r.below(tier ? 60 : 30);
    for (int i = 0; i < ops; ++i) {
        std::ostringstream s; s << (i < nt ? i : int(r.below(nt))) << ' ' << r.pick(mix) << ' ' << r.below(domain) << ' ' << r.below(NS) << ' ' << r.below(NS);
        p.ops.push_back(s.str());
    }
    Knobs &k = p.knobs;
    switch (r.below(3)) {
        case 0: k.pct_depth = 1 + r.below(5); k.pct_len = 300 + r.below(4000); break;
        case 1: k.sync_pct = 10 + r.below(50); k.mem_gap = 0; break;
        case 2: k.sync_pct = 20 + r.below(60); k.mem_gap = 4 + r.below(100); break;
    }
    if (r.chance(1, 4)) k.spurious_pm = 50 + r.below(200);
    k.step_cap = 2'000'000; k.fair = 20'000;
}
void run(const Plan &p)
{
    int nt = 1, faults = 0;
    for (auto &c : p.conf) { std::istringstream s(c); std::string k; int v; s >> k >> v; (k == "threads" ? nt : faults) = v; }
    scripts.resize(nt);
    for (auto &c : p.ops) { std::istringstream s(c); Op o; s >> o.t >> o.k >> o.v >> o.s >> o.d; if (o.t < nt) scripts[o.t].push_back(o); }
    slots = new std::vector<std::vector<Slot>>(nt);
    for (auto &v : *slots) v = std::vector<Slot>(NS);
    box = new Slot;
    { Sys s; spool = new SPool(4); ppool = new PPool; opool = new OPool; box_mtx = new std::mutex; }
    sysfaults.alloc_pm = faults;
    std::vector<int> tids;
    for (int t = 0; t < nt; ++t) tids.push_back(spawn([t, faults] {
        for (size_t i = 0;; ++i) { const Op *o; { Quiet q; if (i >= scripts[t].size()) break; o = &scripts[t][i]; log("t%d %s %d", t, o->k.c_str(), o->v); } do_op(*o, faults); }
    }));
    for (int t : tids) join(t);
    // quiescent: exact contents and reference counts
    auto contents = [](const char *pfx) { std::set<std::string> r; for (auto &[k, _] : addr) if (k[0] == pfx[0]) r.insert(k); return r; };
    size_t ns, np, no; { Sys s; ns = spool->size(); np = ppool->size(); no = opool->size(); }
    auto check_size = [&](const char *n, size_t have, const char *pfx) {
        size_t want = contents(pfx).size();
        // an allocation failure may hit after the object entered the pool, while building the caller's reference
        if (have < want or (have > want and not faults)) violation("not-unique", "%s pool holds %zu objects, but %zu distinct values were internalised", n, have, want); };
    check_size("string", ns, "s"); check_size("pod", np, "p"); check_size("object", no, "o");
    std::map<std::string, int> got;
    for (auto &v : *slots) for (auto &S : v) {
        auto chk = [&](const std::string &k, uint32_t c) { if (not k.empty() and int(c) != refs[k]) violation("ref-count", "%s has reference count %u, but %d references exist", k.c_str(), c, refs[k]); };
        uint32_t cs, cp, co, cos; { Sys s; cs = S.s ? S.s->count() : 0; cp = S.p ? S.p->count() : 0; co = S.o ? S.o->count() : 0; cos = S.os.count(); }
        chk(S.ks, cs); chk(S.kp, cp); chk(S.ko, co); chk(S.kos, cos);
    }
    { Sys s;
      std::set<std::string> seen_s; size_t n = 0;
      for (auto it = spool->cbegin(); it != spool->cend(); ++it, ++n) { Quiet q; if (not seen_s.insert(it->first).second) violation("not-unique", "the pool holds '%s' twice", it->first); auto f = refs.find(std::string("s:") + it->first); if (int(uint32_t(it->second)) != (f == refs.end() ? 0 : f->second)) violation("ref-count", "'%s' has reference count %u at the end", it->first, uint32_t(it->second)); }
      for (auto &v : *slots) for (auto &S : v) { S.s.reset(); S.p.reset(); S.o.reset(); S.os = m::ThreadSafePooledOptionalString(); }
      box->s.reset(); box->p.reset(); box->o.reset();
      for (auto it = spool->cbegin(); it != spool->cend(); ++it) if (uint32_t(it->second)) { Quiet q; violation("ref-count", "'%s' has reference count %u after every reference is gone", it->first, uint32_t(it->second)); }
      delete spool; delete ppool; delete opool;            // their destructors insist that nothing is referenced any more
    }
    count("pooled", addr.size());
}
Harness H{ "pool", init, generate, run, 20 };
}
extern "C" Harness *sim_harness() { return &H; }
