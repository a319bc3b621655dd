// Rewirable memory: allocations in a memory file, address spaces, aliases; while system calls and allocations fail.
#include "sim.hpp"
#include <mutable/util/memory.hpp>
#include <cstring>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <sys/stat.h>

using namespace sim;
namespace {
constexpr size_t PG = 4096;
constexpr int NA = 2;
struct Mem { m::memory::Memory *m; int alloc; size_t req; std::vector<uint64_t> page; };   // page[i]: stamp written to page i
struct Space { m::memory::AddressSpace *s; std::vector<std::pair<Mem*, size_t>> page; };   // page[i]: aliased (memory, page), if any
m::memory::LinearAllocator *A[NA];
std::vector<Mem*> *mems; std::vector<Space*> *spaces;
bool shrink_failed[NA];
uint64_t stamp = 1; int faults = 0; bool any_fault = false;

size_t pages(size_t n) { return (n + PG - 1) / PG; }
uint64_t &cell(uint8_t *base, size_t pg, int which) { return *(uint64_t*) (base + pg * PG + (which ? PG - 8 : 0)); }
void write_page(uint8_t *base, size_t pg, uint64_t v) { cell(base, pg, 0) = v; cell(base, pg, 1) = ~v; }
bool is_page(uint8_t *base, size_t pg, uint64_t v) { return cell(base, pg, 0) == v and cell(base, pg, 1) == ~v; }

void verify(const char *when)
{
    for (auto *m : *mems) {
        auto *b = m->m->as<uint8_t*>();
        for (size_t i = 0; i < m->page.size(); ++i) if (m->page[i] and not is_page(b, i, m->page[i])) violation("corruption", "page %zu of a live allocation of %zu bytes changed (%s)", i, m->req, when);
    }
    for (auto *s : *spaces) for (size_t i = 0; i < s->page.size(); ++i) if (s->page[i].first) {
        auto [m, j] = s->page[i];
        if (m->page[j] and not is_page(s->s->as<uint8_t*>(), i, m->page[j])) violation("alias", "page %zu of an address space does not show page %zu of the memory mapped there (%s)", i, j, when);
    }
}
void check_new(Mem *n)
{
    auto &m = *n->m;
    if (not m.addr()) violation("bad-allocation", "an allocation of %zu bytes has no address", n->req);
    if (m.size() < n->req or m.size() % PG or m.offset() % PG or uintptr_t(m.addr()) % PG) violation("bad-allocation", "an allocation of %zu bytes has size %zu, offset %zu", n->req, m.size(), m.offset());
    if (&m.allocator() != A[n->alloc]) violation("bad-allocation", "an allocation does not belong to the allocator that made it");
    for (auto *o : *mems) {
        uintptr_t a = (uintptr_t) m.addr(), b = (uintptr_t) o->m->addr();
        if (a < b + o->m->size() and b < a + m.size()) violation("overlap", "two live allocations share addresses");
        if (o->alloc == n->alloc and m.offset() < o->m->offset() + o->m->size() and o->m->offset() < m.offset() + m.size()) violation("overlap", "two live allocations share a part of the memory file");
    }
    struct stat st; fstat(A[n->alloc]->fd(), &st);
    if (size_t(st.st_size) < m.offset() + m.size()) violation("bad-allocation", "the memory file (%zu bytes) does not cover an allocation that ends at %zu", size_t(st.st_size), m.offset() + m.size());
}
void check_reclaimed(int a)                     // after a release without failures: everything behind the last live allocation is reclaimed
{
    if (shrink_failed[a]) return;
    size_t end = 0; for (auto *o : *mems) if (o->alloc == a) end = std::max(end, o->m->offset() + o->m->size());
    struct stat st; fstat(A[a]->fd(), &st);
    if (A[a]->offset() != end) violation("reclaim", "the next allocation would be placed at %zu instead of %zu", A[a]->offset(), end);
    if (not any_fault and size_t(st.st_size) > end) violation("reclaim", "the memory file keeps %zu bytes although the last live allocation ends at %zu", size_t(st.st_size), end);
}
void forget_aliases(Mem *m) { for (auto *s : *spaces) for (auto &x : s->page) if (x.first == m) x.first = nullptr; }

struct Window { Window() { sysfaults.mmap_pm = sysfaults.ftruncate_pm = faults; sysfaults.alloc_pm = faults / 2; ++alloc_window; } ~Window() { sysfaults.mmap_pm = sysfaults.ftruncate_pm = 0; --alloc_window; } };

void init() { }
void generate(Plan &p, Rng &r, int tier)
{
    int f = r.chance(1, 2) ? 0 : 30 + int(r.below(400));
    p.conf = { "faults " + std::to_string(f) };
    int ops = 8 + r.below(tier ? 250 : 120), maxpg = r.chance(1, 3) ? 40 : 6, pfree = 15 + r.below(40), lifo = r.below(3);
    for (int i = 0; i < ops; ++i) {
        std::ostringstream s;
        if (int(r.below(100)) < pfree) s << "free " << (lifo == 0 ? 999 : int(r.below(1000)));
        else switch (r.below(10)) {
            case 0: case 1: case 2: case 3: s << "new " << r.below(NA) << ' ' << (r.chance(1, 30) ? 0 : 1 + r.below(maxpg * PG)); break;
            case 4: s << "space " << (r.chance(1, 10) ? 0 : 1 + r.below(2 * maxpg * PG)); break;
            case 5: case 6: case 7: s << "map " << r.below(1000) << ' ' << r.below(1000) << ' ' << r.below(1000) << ' ' << r.below(1000) << ' ' << r.below(1000); break;
            case 8: s << "write " << r.below(1000) << ' ' << r.below(1000) << ' ' << r.below(2); break;
            default: if (r.chance(1, 2)) s << "drop " << r.below(1000); else s << "move " << r.below(1000) << ' ' << r.below(1000) << ' ' << r.below(3);
        }
        p.ops.push_back(s.str());
    }
    p.knobs.race = false; p.knobs.sync_pct = 0; p.knobs.step_cap = 20'000'000;
}
void run(const Plan &p)
{
    mems = new std::vector<Mem*>; spaces = new std::vector<Space*>;
    for (auto &c : p.conf) { std::istringstream s(c); std::string k; s >> k >> faults; }
    any_fault = faults;
    uint64_t fds0 = live_fds(), maps0 = live_maps().size();
    for (int i = 0; i < NA; ++i) while (not A[i]) {
        sysfaults.memfd_pm = faults; { Sys s; try { A[i] = new m::memory::LinearAllocator; } catch (std::runtime_error&) { Quiet q; count("probe.memfd-failure-survived"); if (live_fds() != fds0 + i) violation("leak", "a failed construction leaks a file descriptor"); } } }
    sysfaults.memfd_pm = 0;
    auto release = [&](size_t i, bool with_faults) {
        Mem *m = (*mems)[i]; verify("before a release"); forget_aliases(m); mems->erase(mems->begin() + i);
        size_t addr = (size_t) m->m->addr();
        bool failed = false;
        { uint64_t before = live_maps().size(); (void) before;
          if (with_faults) { sysfaults.ftruncate_pm = faults; }
          { Sys s; delete m->m; }
          sysfaults.ftruncate_pm = 0; }
        for (auto &x : live_maps()) if (addr >= x.lo and addr < x.hi) violation("leak", "a released allocation is still mapped");
        struct stat st; fstat(A[m->alloc]->fd(), &st); (void) st; (void) failed;
        if (with_faults and faults) {                      // was the shrinking refused?
            size_t end = 0; for (auto *o : *mems) if (o->alloc == m->alloc) end = std::max(end, o->m->offset() + o->m->size());
            shrink_failed[m->alloc] = A[m->alloc]->offset() != end;
            if (shrink_failed[m->alloc]) count("probe.shrink-failure-survived");
        }
        check_reclaimed(m->alloc); verify("after a release"); delete m;
    };
    for (auto &c : p.ops) {
        std::istringstream s(c); std::string k; s >> k; log("%s", c.c_str());
        if (k == "new") {
            int a; size_t n; s >> a >> n;
            auto *x = new Mem{ nullptr, a, n, {} }; bool ok = true;
            uint64_t before = live_maps().size(); m::memory::Memory *slot; { Sys y; slot = new m::memory::Memory; }
            { Sys y; try { Window w; *slot = A[a]->allocate(n); } catch (std::runtime_error&) { ok = false; } catch (std::bad_alloc&) { ok = false; } }
            if (not ok) {
                count("probe.allocation-failure-survived");
                if (not faults) violation("bad-allocation", "an allocation of %zu bytes was refused although memory is available", n);
                if (live_maps().size() != before) violation("leak", "a failed allocation leaves a mapping behind");
                { Sys y; delete slot; } delete x; verify("after a failed allocation"); continue;
            }
            x->m = slot;
            if (n == 0) { if (slot->addr() or slot->size()) violation("bad-allocation", "an allocation of 0 bytes has size %zu", slot->size()); Sys y; delete slot; continue; }
            check_new(x); verify("after another allocation");
            shrink_failed[a] = false;
            x->page.resize(slot->size() / PG);
            for (size_t i = 0; i < x->page.size(); ++i) { x->page[i] = ++stamp; write_page(slot->as<uint8_t*>(), i, x->page[i]); }
            mems->push_back(x); verify("after writing to a fresh allocation"); count("allocations"); state(mems->size() << 16 | A[a]->offset() / PG);
        } else if (k == "free") { size_t i; s >> i; if (mems->empty()) continue; release(i == 999 ? mems->size() - 1 : i % mems->size(), true); }
        else if (k == "space") {
            size_t n; s >> n; bool ok = true; auto *x = new Space{ nullptr, {} };
            { Sys y; try { sysfaults.mmap_pm = faults; x->s = new m::memory::AddressSpace(n); } catch (std::runtime_error&) { ok = false; } sysfaults.mmap_pm = 0; }
            if (not ok) { count("probe.mmap-failure-survived"); if (not faults) violation("bad-allocation", "reserving %zu bytes of address space failed", n); delete x; continue; }
            if (n == 0) { if (x->s->addr() or x->s->size()) violation("bad-allocation", "an address space of 0 bytes claims %zu bytes at %p", x->s->size(), x->s->addr()); Sys y; delete x->s; continue; }
            if (not x->s->addr() or x->s->size() < n) violation("bad-allocation", "an address space of %zu bytes has %zu bytes at %p", n, x->s->size(), x->s->addr());
            x->page.resize(x->s->size() / PG, { nullptr, 0 }); spaces->push_back(x);
        } else if (k == "map") {
            size_t mi, si, src, dst, n; s >> mi >> si >> src >> dst >> n; if (mems->empty() or spaces->empty()) continue;
            Mem *m = (*mems)[mi % mems->size()]; Space *v = (*spaces)[si % spaces->size()];
            src %= m->page.size(); dst %= v->page.size(); size_t len = 1 + n % std::min(m->page.size() - src, v->page.size() - dst);
            bool ok = true;
            { Sys y; try { sysfaults.mmap_pm = faults; m->m->map(len * PG, src * PG, *v->s, dst * PG); } catch (std::runtime_error&) { ok = false; } sysfaults.mmap_pm = 0; }
            if (ok) { for (size_t i = 0; i < len; ++i) v->page[dst + i] = { m, src + i }; count("rewirings"); }
            else { count("probe.mmap-failure-survived"); if (not faults) violation("bad-allocation", "rewiring failed"); }
            verify("after rewiring");
        } else if (k == "write") {                         // a write through either view is seen by the other
            size_t i, j; int via; s >> i >> j >> via;
            if (via == 0 and not mems->empty()) { Mem *m = (*mems)[i % mems->size()]; j %= m->page.size(); m->page[j] = ++stamp; write_page(m->m->as<uint8_t*>(), j, stamp); }
            else if (not spaces->empty()) { Space *v = (*spaces)[i % spaces->size()]; j %= v->page.size(); if (auto [m, q] = v->page[j]; m) { m->page[q] = ++stamp; write_page(v->s->as<uint8_t*>(), j, stamp); } }
            verify("after a write");
        } else if (k == "drop") {
            size_t i; s >> i; if (spaces->empty()) continue; i %= spaces->size(); Space *v = (*spaces)[i]; spaces->erase(spaces->begin() + i); size_t a = (size_t) v->s->addr();
            { Sys y; delete v->s; } for (auto &x : live_maps()) if (a >= x.lo and a < x.hi) violation("leak", "a destroyed address space is still mapped"); delete v; verify("after dropping an address space");
        } else if (k == "move") {
            size_t i, j; int how; s >> i >> j >> how; if (mems->empty()) continue;
            Mem *a = (*mems)[i % mems->size()], *b = (*mems)[j % mems->size()];
            size_t addr = (size_t) a->m->addr(), off = a->m->offset(), size = a->m->size();
            { Sys y;
              if (how == 0) { auto *n = new m::memory::Memory(std::move(*a->m)); delete a->m; a->m = n; }
              else if (how == 1) { m::memory::Memory t; t = std::move(*a->m); *a->m = std::move(t); }
              else { swap(*a->m, *b->m); swap(*a->m, *b->m); } }
            if ((size_t) a->m->addr() != addr or a->m->offset() != off or a->m->size() != size) violation("corruption", "moving a memory object changed it");
            verify("after moving a memory object");
        }
    }
    faults = 0;
    while (not mems->empty()) release(mems->size() - 1, false);
    for (auto *v : *spaces) { Sys y; delete v->s; }
    for (int i = 0; i < NA; ++i) { Sys y; delete A[i]; }
    if (live_fds() != fds0) violation("leak", "%lu file descriptor(s) are left after every allocator was destroyed", (unsigned long) (live_fds() - fds0));
    if (live_maps().size() != maps0) violation("leak", "%zu mapping(s) are left at the end", live_maps().size() - size_t(maps0));
}
Harness H{ "memory", init, generate, run, 20 };
}
extern "C" Harness *sim_harness() { return &H; }
