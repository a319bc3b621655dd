// Transactions, their commands and shutdown, on the real scheduler: order, isolation, exactly one answer, progress.
// Commands are instructions registered by this harness, so that their execution can be observed and can fail.
#include "sim.hpp"
#include "catalog/SerialScheduler.hpp"
#include "lex/Lexer.hpp"
#include "parse/Parser.hpp"
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/catalog/Catalog.hpp>
#include <mutable/catalog/DatabaseCommand.hpp>
#include <atomic>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>

using namespace sim;
namespace {

enum Kind { OK, UNKNOWN, SYNTAX, THROWS, BADSQL, NOSEMI };
struct Cmd { int id, client, tx; Kind kind; int dur; uint64_t submitted = 0, started = 0, ended = 0, answered = 0; int answer = -1; bool threw = false; std::ostringstream *out = nullptr, *err = nullptr; m::Diagnostic *diag = nullptr; };
struct Tx { int id; bool autoc = false; uint64_t ended_at = 0; bool started = false; int64_t start_time = -1; std::vector<int> cmds; };
std::map<int, Cmd> *cmds; std::map<int, Tx> *txs;
int running_tx = -1;                    // the transaction that has started executing and has not ended
int64_t last_start_time = -1; int executing = 0; bool destroyed = false, closing = false; int in_call = 0; uint64_t destroyed_at = 0;
m::Scheduler *S; int next_cmd = 0, next_tx = 0;

struct probe : m::DatabaseInstruction
{
    probe(std::vector<std::string> args) : DatabaseInstruction(std::move(args)) { }
    void accept(m::DatabaseCommandVisitor&) override { }
    void accept(m::ConstDatabaseCommandVisitor&) const override { }
    void execute(m::Diagnostic&) override {
        int id = atoi(args().at(0).c_str()); int dur; bool thr; bool own_start;
        int64_t st = transaction() ? transaction()->start_time() : -2;
        { Quiet q;
          Cmd &c = cmds->at(id); Tx &t = txs->at(c.tx);
          log("exec %d of tx %d", id, c.tx); count("executed");
          if (st == -2) violation("order", "command %d executes outside of any transaction", id);
          if (c.started) violation("answer", "command %d is executed twice", id);
          if (c.answer != -1) violation("answer", "command %d is executed after it was answered", id);
          if (destroyed) violation("answer", "command %d is executed after the scheduler was shut down", id);
          if (executing) violation("order", "two commands execute at the same time");
          ++executing; c.started = step();
          if (running_tx != -1 and running_tx != c.tx) { Tx &o = txs->at(running_tx); if (not o.ended_at) violation("isolation", "command %d of transaction %d is executed although transaction %d has not ended", id, c.tx, running_tx); }
          if (t.ended_at) violation("order", "command %d is executed after its transaction ended", id);
          own_start = not t.started; t.started = true; running_tx = c.tx;
          if (own_start) { if (st <= last_start_time) violation("order", "transaction %d starts after another one, but has the start time %ld (the other: %ld)", c.tx, long(st), long(last_start_time)); last_start_time = st; t.start_time = st; }
          else if (st != t.start_time) violation("order", "the start time of transaction %d changed", c.tx);
          for (int o : t.cmds) { if (o == id) break; Cmd &p = cmds->at(o); if (p.kind == OK and not p.started) violation("order", "command %d is executed before command %d, which was submitted earlier in the same transaction", id, o);
                                 if (p.started and not p.ended) violation("order", "command %d starts while command %d executes", id, o); }
          for (int o : t.cmds) if (o > id and cmds->at(o).started) violation("order", "command %d is executed after command %d", id, o);
          dur = c.dur; thr = c.kind == THROWS; if (thr) c.threw = true; }
        auto &cat = m::Catalog::Get(); size_t tables = 0;
        for (int i = 0; i < dur; ++i) {                    // a command works on the database
            if (cat.has_database_in_use()) { auto &db = cat.get_database_in_use(); for (auto it = db.begin_tables(); it != db.end_tables(); ++it) tables += it->second->num_attrs(); }
            if (i % 3 == 2) sleep_ns(1000 * (1 + i)); else yield_point(); }
        { Quiet q; Cmd &c = cmds->at(id); --executing; c.ended = step(); log("done %d", id);
          Tx &t = txs->at(c.tx); if (t.autoc) { t.ended_at = step(); running_tx = -1; } }
        if (thr) throw std::runtime_error("simulated failure of a command");
    }
};

struct Client {
    int id;
    std::unique_ptr<m::Scheduler::Transaction> t; int tx = -1;
    struct Pending { int id; std::future<bool> f; };
    std::vector<Pending> pending;
    std::vector<std::unique_ptr<m::Scheduler::Transaction>> keep;
};
std::vector<Client*> *clients;
std::atomic<unsigned> calls_done[8];      // per client: orders the shutdown after that client's calls, but not clients among each other

// text of a command
std::string text(const Cmd &c)
{
    switch (c.kind) {
        case OK: case THROWS: return "\\probe " + std::to_string(c.id) + ";";
        case UNKNOWN: return "\\nosuchinstruction " + std::to_string(c.id) + ";";
        case NOSEMI: return "\\probe " + std::to_string(c.id) + "\n";
        case SYNTAX: return "SELECT FROM;";
        case BADSQL: return "CREATE TABLE tab ( a INT(4) );";       // exists already
    }
    return "";
}
std::unique_ptr<m::ast::Command> parse(m::Diagnostic &diag, const char *txt)
{
    auto &cat = m::Catalog::Get();
    std::istringstream in(txt);
    m::ast::Lexer lexer(diag, cat.get_pool(), "-", in); m::ast::Parser parser(lexer);
    return parser.parse();
}
bool enter() { Quiet q; if (closing) return false; ++in_call; return true; }
void leave(Client &C) { calls_done[C.id].fetch_add(1, std::memory_order_release); Quiet q; --in_call; }

void check_answer(int id, bool answer)
{
    Quiet q; Cmd &c = cmds->at(id);
    if (c.answer != -1) violation("answer", "command %d is answered twice", id);
    c.answer = answer; c.answered = step(); log("answer %d %d", id, int(answer));
    bool refused_ok = closing or destroyed;
    if (c.started and not c.ended) violation("answer", "command %d is answered while it executes", id);
    if (c.kind == OK) {
        if (answer and not c.ended) violation("answer", "command %d is reported as executed, but it was not", id);
        if (not answer and c.ended) violation("answer", "command %d is reported as not executed, but it was", id);
        if (not answer and not refused_ok) violation("answer", "command %d is refused", id);
    } else if (answer) violation("answer", "the failed command %d is reported as executed", id);
    if (c.kind == THROWS and not refused_ok and not c.ended) violation("answer", "command %d is refused", id);
}
int new_cmd(Client &C, Kind k, int dur, m::Diagnostic *&diag)
{
    auto *out = new std::ostringstream, *err = new std::ostringstream; diag = new m::Diagnostic(false, *out, *err);
    Quiet q; int id = next_cmd++; auto &c = (*cmds)[id] = Cmd{ id, C.id, C.tx, k, dur }; c.out = out; c.err = err; c.diag = diag; txs->at(C.tx).cmds.push_back(id); log("c%d submits %d (kind %d) in tx %d", C.id, id, int(k), C.tx);
    return id;
}
int new_tx() { Quiet q; int id = next_tx++; (*txs)[id] = Tx{ id }; return id; }

void begin(Client &C) { if (C.t) return; if (not enter()) return; C.t = S->begin_transaction(); leave(C); C.tx = new_tx(); }
void submit(Client &C, Kind k, int dur)
{
    begin(C); if (not C.t) return;
    if (not enter()) return;
    m::Diagnostic *diag; int id = new_cmd(C, k, dur, diag);
    std::string txt; { Quiet q; txt = text(cmds->at(id)); }
    auto ast = parse(*diag, txt.c_str());
    auto f = S->schedule_command(*C.t, std::move(ast), *diag);
    leave(C);
    C.pending.push_back({ id, std::move(f) });
}
void await(Client &C, bool reverse)
{
    while (not C.pending.empty()) {
        size_t i = reverse ? C.pending.size() - 1 : 0; auto &p = C.pending[i];
        bool a = false; try { a = p.f.get(); } catch (std::future_error &e) { Quiet q; violation("answer", "command %d is never answered: %s", p.id, e.what()); } catch (std::exception&) { }
        check_answer(p.id, a);
        C.pending.erase(C.pending.begin() + i);
    }
}
void end_tx(Client &C, bool commit)
{
    await(C, false);
    if (not C.t) return;
    if (not enter()) { C.keep.push_back(std::move(C.t)); C.tx = -1; return; }
    { Quiet q; auto &t = txs->at(C.tx); t.ended_at = step(); log("end of tx %d", C.tx); if (running_tx == C.tx) running_tx = -1; count(t.started ? "transactions" : "probe.transaction-without-command"); }
    bool ok = commit ? S->commit(std::move(C.t)) : S->abort(std::move(C.t));
    leave(C);
    if (not ok) { Quiet q; violation("answer", "ending a transaction failed"); }
    C.tx = -1;
}
void autocommit(Client &C, Kind k, int dur)
{
    end_tx(C, true);
    if (not enter()) return;
    C.tx = new_tx();
    m::Diagnostic *diag; int id = new_cmd(C, k, dur, diag); int tx = C.tx; C.tx = -1; { Quiet q; txs->at(tx).autoc = true; }
    std::string txt; { Quiet q; txt = text(cmds->at(id)); }
    auto ast = parse(*diag, txt.c_str());
    bool a = false;
    try { a = S->autocommit(std::move(ast), *diag); } catch (std::exception &e) { Quiet q; violation("answer", "submitting command %d throws: %s", id, e.what()); }
    check_answer(id, a);
    leave(C);
}

void init() { auto &C = m::Catalog::Get(); C.register_instruction<probe>(C.pool("probe"), "simulation probe"); m::Options::Get().quiet = true; }

void generate(Plan &p, Rng &r, int tier)
{
    int nc = 1 + r.below(4), shutdown = r.below(3);        // 0: none, 1: scheduler object destroyed, 2: whole catalog destroyed
    p.conf = { "clients " + std::to_string(nc), "shutdown " + std::to_string(shutdown), "when " + std::to_string(r.below(4) == 0 ? 0 : r.below(200)) };
    bool throws = r.chance(1, 3), bad = r.chance(1, 2), autoc = r.chance(1, 2); int pipelined = r.below(3), maxdur = r.below(8);
    int ops = nc * (2 + r.below(tier ? 16 : 9));
    for (int i = 0; i < ops; ++i) {
        std::ostringstream s; int c = i < nc ? i : int(r.below(nc));
        int kind = OK; if (throws and r.chance(1, 5)) kind = THROWS; else if (bad and r.chance(1, 4)) kind = 1 + r.below(5); if (kind == THROWS and not throws) kind = OK;
        int w = r.below(12);
        if (i < nc or w < 6) s << c << (autoc and r.chance(1, 3) ? " auto " : " cmd ") << kind << ' ' << r.below(maxdur + 1);
        else if (w < 8) s << c << (r.chance(1, 4) ? " abort" : " commit");
        else if (w < 9) s << c << " begin";
        else if (w < 11 and pipelined != 2) s << c << " wait " << r.below(2);
        else s << c << " think " << 1 + r.below(5);
        p.ops.push_back(s.str());
    }
    Knobs &k = p.knobs;
    switch (r.below(3)) {
        case 0: k.pct_depth = 1 + r.below(5); k.pct_len = 2000 + r.below(30000); break;
        case 1: k.sync_pct = 10 + r.below(50); break;
        case 2: k.sync_pct = 20 + r.below(60); k.mem_gap = 20 + r.below(2000); break;
    }
    if (r.chance(1, 3)) k.spurious_pm = 50 + r.below(300);
    k.step_cap = 20'000'000; k.fair = 100'000;
}

void run(const Plan &p)
{
    int nc = 1, shutdown = 0, when = 0;
    for (auto &c : p.conf) { std::istringstream s(c); std::string k; int v; s >> k >> v; (k == "clients" ? nc : k == "shutdown" ? shutdown : when) = v; }
    cmds = new std::map<int, Cmd>; txs = new std::map<int, Tx>; clients = new std::vector<Client*>;
    std::vector<std::vector<std::vector<std::string>>> scripts(nc);
    for (auto &c : p.ops) { std::istringstream s(c); int cl; s >> cl; std::vector<std::string> w; std::string x; while (s >> x) w.push_back(x); if (cl < nc) scripts[cl].push_back(w); }
    std::unique_ptr<m::SerialScheduler> own;
    { Sys s; m::Catalog::Get();
      if (shutdown == 1) { own = std::make_unique<m::SerialScheduler>(); S = own.get(); } else S = &m::Catalog::Get().scheduler();
      auto &cat = m::Catalog::Get(); auto &db = cat.add_database(cat.pool("d")); db.add_table(cat.pool("tab")).push_back(cat.pool("a"), m::Type::Get_Integer(m::Type::TY_Vector, 4)); cat.set_database_in_use(db);
      for (int i = 0; i < nc; ++i) { clients->push_back(new Client{ i }); } }
    std::vector<int> tids; int finished = 0;
    for (int i = 0; i < nc; ++i) tids.push_back(spawn([&, i] {
        Client &C = *(*clients)[i];
        for (size_t k = 0;; ++k) {
            const std::vector<std::string> *w; { Quiet q; if (k >= scripts[i].size()) break; w = &scripts[i][k]; }
            const std::string &op = (*w)[0]; auto num = [&](size_t n) { return n < w->size() ? atoi((*w)[n].c_str()) : 0; };
            if (op == "cmd") submit(C, Kind(num(1)), num(2));
            else if (op == "auto") autocommit(C, Kind(num(1)), num(2));
            else if (op == "commit") end_tx(C, true);
            else if (op == "abort") end_tx(C, false);
            else if (op == "begin") begin(C);
            else if (op == "wait") await(C, num(1));
            else if (op == "think") sleep_ns(500 * num(1));
        }
        if (shutdown == 0) end_tx(C, true); else await(C, i & 1);
        { Quiet q; ++finished; }
    }));
    if (shutdown) {
        { Sys s; for (int i = 0; i < when; ++i) { bool done; { Quiet q; done = finished == nc; } if (done) break; if (i % 8 == 7) sleep_ns(700); else yield_point(); } }
        closing = true; log("closing"); count("fault.shutdown"); if (finished < nc) count("probe.shutdown-with-clients-active");
        // autocommit waits inside a call for commands that an open transaction may hold up; let the transactions end first
        // (their owners may be waiting for answers, which arrive): the scheduler is shut down when no call is in progress
        { Sys s; for (;;) { bool idle, stuck; { Quiet q; idle = in_call == 0; stuck = others_blocked(); } if (idle) break;
            if (stuck) { Quiet q; inconclusive("autocommit is held up by a transaction whose owner has stopped"); } sleep_ns(500); } }
        { Sys s; for (auto &d : calls_done) d.load(std::memory_order_acquire); }
        for (auto &[id, c] : *cmds) if (c.answer == -1) { count("probe.shutdown-with-commands-outstanding"); break; }
        { Sys s; if (shutdown == 1) own.reset(); else m::Catalog::Destroy(); }
        destroyed = true; log("destroyed");
        if (executing) violation("answer", "a command is still executing after the shutdown");
    }
    for (int t : tids) join(t);
    if (shutdown == 1) {                                   // a later submission is refused, or executed; but answered
        Client &C = *(*clients)[0]; Sys s;
        S = &m::Catalog::Get().scheduler(); C.tx = new_tx(); m::Diagnostic *diag; int id = new_cmd(C, OK, 0, diag); std::string txt; { Quiet q; txt = text(cmds->at(id)); destroyed = false; closing = true; running_tx = -1; }
        auto t = S->begin_transaction(); auto f = S->schedule_command(*t, parse(*diag, txt.c_str()), *diag); bool a = f.get(); check_answer(id, a);
        C.keep.push_back(std::move(t));
    }
    for (auto &[id, c] : *cmds) if (c.answer == -1) violation("answer", "command %d was never answered", id);
    for (auto &[id, c] : *cmds) {
        std::string e; { Sys s; e = c.err->str(); }
        bool diagnosed = not e.empty(), refused = not c.answer and not c.started and closing;
        if (c.kind == OK and diagnosed) violation("diagnostics", "the valid command %d got: %s", id, e.c_str());
        if (c.kind != OK and not diagnosed and not (refused and c.kind != SYNTAX and c.kind != NOSEMI)) violation("diagnostics", "the failed command %d was not diagnosed", id);
    }
    count("commands", cmds->size());
}
Harness H{ "sched", init, generate, run, 20 };
}
extern "C" Harness *sim_harness() { return &H; }
