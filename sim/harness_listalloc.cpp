// General purpose allocators (list_allocator, malloc_allocator, and containers on top) while the OS refuses memory.
#include "sim.hpp"
#include <mutable/util/ADT.hpp>
#include <mutable/util/list_allocator.hpp>
#include <mutable/util/malloc_allocator.hpp>
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>

using namespace sim;
namespace {

constexpr int NA = 3;                                   // allocators per run
struct Block { uint8_t *p; size_t size, align; int alloc; uint8_t tag; };
m::list_allocator *A[NA];
std::vector<Block> *blocks;
uint8_t next_tag = 1;

uint8_t pat(const Block &b, size_t i) { return uint8_t(b.tag * 31 + i * 7 + (i >> 8)); }
void fill(const Block &b) { for (size_t i = 0; i < b.size; ++i) b.p[i] = pat(b, i); }
void verify(const Block &b, const char *when)
{
    for (size_t i = 0; i < b.size; i += i < 64 or i + 64 >= b.size ? 1 : 37)
        if (b.p[i] != pat(b, i)) violation("corruption", "byte %zu of a live %zu byte allocation changed (%s)", i, b.size, when);
}
void check_new(const Block &b)
{
    if (not b.p) violation("bad-allocation", "an allocation of %zu bytes returned a null pointer", b.size);
    if (b.align and (uintptr_t(b.p) & (b.align - 1))) violation("bad-allocation", "an allocation with alignment %zu is at %p", b.align, b.p);
    for (auto &o : *blocks) if (b.p < o.p + o.size and o.p < b.p + b.size)
        violation("overlap", "two live allocations overlap (%zu bytes and %zu bytes)", b.size, o.size);
    bool mapped = false;
    for (auto &m : live_maps()) if (uintptr_t(b.p) >= m.lo and uintptr_t(b.p) < m.hi) mapped = true;
    uintptr_t p = uintptr_t(b.p);                        // the block may span directly adjacent mappings
    while (mapped and p < uintptr_t(b.p) + b.size) { bool ok = false; for (auto &m : live_maps()) if (p >= m.lo and p < m.hi) { p = m.hi; ok = true; break; } if (not ok) mapped = false; }
    if (not mapped) violation("bad-allocation", "an allocation of %zu bytes is not backed by mapped memory", b.size);
}

// a list on top of the allocator interface, driven through failing allocations
struct Ctr { m::doubly_linked_list<int, m::malloc_allocator> l; std::vector<int> ref; };

void init() { }
void generate(Plan &p, Rng &r, int tier)
{
    static const size_t initial[] = { 0, 1, 64, 4096, 5000, 65536 };
    for (int i = 0; i < NA; ++i) p.conf.push_back("alloc " + std::to_string(initial[r.below(6)]) + " " + std::to_string(r.below(2)));
    int faults = r.chance(1, 2) ? 0 : 50 + int(r.below(600));
    p.conf.push_back("faults " + std::to_string(faults));
    size_t big = r.chance(1, 3) ? 200000 : r.chance(1, 2) ? 9000 : 300;
    int ops = 10 + r.below(tier ? 400 : 150), lists = r.chance(1, 2), moves = r.chance(1, 2), pfree = 20 + r.below(60);
    for (int i = 0; i < ops; ++i) {
        std::ostringstream s;
        if (int(r.below(100)) < pfree) s << "free " << r.below(1000);
        else if (lists and r.chance(1, 4)) s << "list " << r.below(4) << ' ' << r.below(1000);
        else if (moves and r.chance(1, 8)) s << "move " << r.below(NA) << ' ' << r.below(NA) << ' ' << r.below(4);
        else {
            size_t n; switch (r.below(5)) { case 0: n = 1 + r.below(16); break; case 1: n = 1 + r.below(200); break; case 2: n = (1ul << r.below(17)) + r.below(3) - 1; break; case 3: n = 4096 * (1 + r.below(4)) - r.below(20); break; default: n = 1 + r.below(big); }
            if (n == 0 or n > big + 70000) n = 1;
            size_t al; switch (r.below(4)) { case 0: al = 0; break; case 1: al = 8; break; case 2: al = 1ul << r.below(8); break; default: al = 1ul << r.below(16); }
            s << "new " << r.below(NA) << ' ' << n << ' ' << al;
        }
        p.ops.push_back(s.str());
    }
    p.knobs.race = false; p.knobs.sync_pct = 0; p.knobs.step_cap = 60'000'000;
}
void run(const Plan &p)
{
    blocks = new std::vector<Block>;
    std::vector<std::pair<size_t, int>> init_sizes; int faults = 0;
    for (auto &c : p.conf) { std::istringstream s(c); std::string k; size_t a = 0; int b = 0; s >> k >> a >> b; if (k == "alloc") init_sizes.push_back({ a, b }); else faults = a; }
    sysfaults.malloc_pm = faults / 2;
    uint64_t base_maps = live_maps().size();
    std::optional<Ctr> ctr[1]; { Sys s; ctr[0].emplace(); }
    for (int i = 0; i < NA; ++i) {
        while (not A[i]) { Sys s; sysfaults.mmap_pm = faults; try { A[i] = new m::list_allocator(init_sizes[i].first, init_sizes[i].second ? m::AllocationStrategy::Exponential : m::AllocationStrategy::Linear); } catch (std::runtime_error&) { Quiet q; count("probe.mmap-failure-survived"); faults = faults > 500 ? 500 : faults; } }
    }
    auto release = [&](size_t i) {
        Block b = (*blocks)[i]; verify(b, "before it is released"); (*blocks)[i] = blocks->back(); blocks->pop_back();
        Sys s; A[b.alloc]->deallocate(b.p, b.size);
    };
    for (auto &c : p.ops) {
        std::istringstream s(c); std::string k; s >> k;
        log("%s", c.c_str());
        if (k == "new") {
            size_t a, n, al; s >> a >> n >> al;
            Block b{ nullptr, n, al, int(a), next_tag };
            bool ok = true; size_t before = live_maps().size(), chunks = A[a]->num_chunks_available();
            { Sys y; try { b.p = (uint8_t*) A[a]->allocate(n, al); } catch (std::runtime_error&) { ok = false; } }
            if (not ok) {
                count("probe.mmap-failure-survived");
                if (not faults) violation("bad-allocation", "an allocation of %zu bytes was refused although memory is available", n);
                if (live_maps().size() != before) violation("leak", "a failed allocation left %zd mappings behind", ssize_t(live_maps().size()) - ssize_t(before));
                if (A[a]->num_chunks_available() != chunks) violation("leak", "a failed allocation changed the number of free chunks");
                continue;
            }
            check_new(b);
            if (++next_tag == 0) ++next_tag;
            for (auto &o : *blocks) verify(o, "after another allocation");
            fill(b); blocks->push_back(b); count("allocations"); state(blocks->size() << 8 | A[a]->num_chunks_available());
        } else if (k == "free") {
            size_t i; s >> i; if (blocks->empty()) continue;
            release(i % blocks->size());
            for (auto &o : *blocks) verify(o, "after another allocation was released");
        } else if (k == "move") {                        // allocations follow their allocator
            int a, b, how; s >> a >> b >> how; if (a == b) continue;
            bool ok = true;
            Sys y;
            try {
                if (how == 0) { swap(*A[a], *A[b]); Quiet q; for (auto &x : *blocks) x.alloc = x.alloc == a ? b : x.alloc == b ? a : x.alloc; }
                else if (how == 1) { auto *n = new m::list_allocator(std::move(*A[a])); delete A[a]; A[a] = n; }
                else if (how == 2) {                     // the copy behaves like the original, but owns none of its memory
                    m::list_allocator c(*A[a]);
                    void *x = c.allocate(100, 8); { Quiet q; check_new(Block{ (uint8_t*) x, 100, 8, 0, 0 }); } c.deallocate(x, 100);
                } else {                                 // move assignment; only onto an allocator without live allocations
                    bool used = false; { Quiet q; for (auto &x : *blocks) used |= x.alloc == b; }
                    if (not used) { *A[b] = std::move(*A[a]); Quiet q; for (auto &x : *blocks) if (x.alloc == a) x.alloc = b; }
                }
            } catch (std::runtime_error&) { ok = false; }
            { Quiet q; if (not ok) { count("probe.mmap-failure-survived"); if (not faults) violation("bad-allocation", "moving or copying an allocator failed although memory is available"); }
              for (auto &o : *blocks) verify(o, "after moving or copying an allocator"); }
        } else if (k == "list") {
            int what, v; s >> what >> v; auto &C = *ctr[0]; bool ok = true;
            size_t pos = C.ref.empty() ? 0 : v % (C.ref.size() + 1);
            { Sys y; ++alloc_window;
              try {
                  if (what == 0) { auto it = C.l.begin(); for (size_t i = 0; i < pos; ++i) ++it; C.l.insert(it, v); }
                  else if (what == 1) C.l.push_back(v);
                  else if (what == 2) C.l.push_front(v);
                  else if (not C.ref.empty()) { pos = v % C.ref.size(); auto it = C.l.begin(); for (size_t i = 0; i < pos; ++i) ++it; C.l.erase(it); }
              } catch (std::runtime_error&) { ok = false; }
              --alloc_window; }
            if (ok) { if (what == 0) C.ref.insert(C.ref.begin() + pos, v); else if (what == 1) C.ref.push_back(v); else if (what == 2) C.ref.insert(C.ref.begin(), v); else if (not C.ref.empty()) C.ref.erase(C.ref.begin() + pos); }
            else { count("probe.malloc-failure-survived"); if (not faults) violation("bad-allocation", "inserting into a list failed although memory is available"); }
            std::vector<int> have, back; { Sys y; for (auto it = C.l.begin(); it != C.l.end(); ++it) { int x = *it; Quiet q; have.push_back(x); if (have.size() > C.ref.size() + 2) break; } for (auto it = C.l.rbegin(); it != C.l.rend(); ++it) { int x = *it; Quiet q; back.push_back(x); if (back.size() > C.ref.size() + 2) break; } }
            std::reverse(back.begin(), back.end());
            if (have != C.ref or back != C.ref or C.l.size() != C.ref.size()) violation("corruption", "a list lost or reordered elements (%zu instead of %zu)%s", have.size(), C.ref.size(), ok ? "" : " after a failed insertion");
        }
    }
    while (not blocks->empty()) release(blocks->size() / 2);
    { Sys s; ctr[0].reset(); for (auto *a : A) delete a; }
    if (live_maps().size() != base_maps) violation("leak", "%zu mapping(s) are left after every allocation was released and every allocator destroyed", live_maps().size() - base_maps);
}
Harness H{ "listalloc", init, generate, run, 20 };
}
extern "C" Harness *sim_harness() { return &H; }
