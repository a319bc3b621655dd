// Feeds generated, damaged and truncated statement streams to the real lexer, parser and process_stream() through inputs
// that deliver them piecemeal, slowly, or fail, and compares with processing the statements one by one.
#include "sim.hpp"
#include <lex/Lexer.hpp>
#include <parse/Parser.hpp>
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/catalog/Catalog.hpp>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

using namespace sim;
namespace {

void init() { m::Catalog::Get(); m::Options::Get().quiet = true; }

std::string esc(const std::string &s) { std::string r; char b[4]; for (unsigned char c : s) if (c < 0x20 or c > 0x7e or c == '%') { snprintf(b, 4, "%%%02x", c); r += b; } else r += char(c); return r; }
std::string unesc(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '%' and i + 2 < s.size() + 0) { r += char(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; } else r += s[i]; return r; }

// ------------------------------------------------------------------------------------------------ inputs and outputs
std::string *out_text;                                   // everything written to the standard output
struct CaptureBuf : std::streambuf {
    std::string *to;
    explicit CaptureBuf(std::string *t) : to(t) { }
    int overflow(int c) override { Quiet q; if (c != EOF) to->push_back(char(c)); return c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { Quiet q; to->append(s, size_t(n)); return n; }
};
struct Progress { size_t delivered, out, err; };
struct Watch { std::vector<Progress> p; std::string *err = nullptr; size_t delivered = 0; };
// what the reader is given is decided piece by piece; before each piece, what has been answered so far is recorded
struct ChunkBuf : std::streambuf {
    const std::string &data; size_t end; Watch &w; Rng r; std::string how; char buf[4096]; bool throws, over = false; size_t pos = 0;
    ChunkBuf(const std::string &d, size_t end, Watch &w, uint64_t seed, const std::string &how, bool throws) : data(d), end(end), w(w), r(seed), how(how), throws(throws) { setg(buf, buf, buf); }
    int_type underflow() override {
        Quiet q;
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        w.p.push_back({ pos, out_text->size(), w.err->size() });
        if (over) violation("past-end", "the input is read beyond its end");
        if (pos == end) { over = true; if (throws) { count("fault.stream-throws"); throw std::ios_base::failure("injected"); } return traits_type::eof(); }
        size_t n = how == "byte" ? 1 : how == "line" ? std::string::npos : 1 + r.below(r.chance(1, 3) ? 3 : r.chance(1, 2) ? 40 : 4000);
        if (how == "line") { n = data.find('\n', pos); n = n == std::string::npos ? end : n + 1 - pos; }
        n = std::min({ n, end - pos, sizeof buf - 1 });
        char keep = egptr() > buf ? egptr()[-1] : 0; bool has = egptr() > buf;      // one character can be put back
        buf[0] = keep; memcpy(buf + 1, data.data() + pos, n); setg(has ? buf : buf + 1, buf + 1, buf + 1 + n); pos += n; w.delivered = pos;
        count("pieces of input");
        return traits_type::to_int_type(*gptr());
    }
};
struct FileBuf : std::filebuf {
    Watch &w; explicit FileBuf(Watch &w) : w(w) { }
    int_type underflow() override {
        { Quiet q; w.p.push_back({ w.delivered, out_text->size(), w.err->size() }); }
        int_type c = std::filebuf::underflow();
        if (not traits_type::eq_int_type(c, traits_type::eof())) { Quiet q; w.delivered += size_t(egptr() - gptr()); count("pieces of input"); }
        return c;
    }
};

// ------------------------------------------------------------------------------------------------ processing a stream
struct Said { std::string out, err; };
void process(std::istream &in, bool parse_only, std::string *err)
{
    CaptureBuf eb(err); Sys s;
    std::ostream es(&eb); m::Diagnostic diag(false, es, es);
    if (not parse_only) { m::process_stream(in, "-", diag); return; }
    m::ast::Lexer lexer(diag, m::Catalog::Get().get_pool(), "-", in); m::ast::Parser parser(lexer);
    while (parser.token()) {
        auto cmd = parser.parse(); std::ostringstream o; cmd->dump(o);
        Quiet q; out_text->append(o.str().c_str());
    }
}
Said alone(const std::string &text, bool parse_only)
{
    size_t o = out_text->size(); std::string *err = new std::string;
    { std::istringstream *in; { Sys s; in = new std::istringstream(text); } process(*in, parse_only, err); { Sys s; delete in; } }
    return { out_text->substr(o), *err };
}
// positions "-:line:column" moved as if `before` preceded the text
std::string moved(const std::string &s, const std::string &before)
{
    size_t lines = size_t(std::count(before.begin(), before.end(), '\n')), nl = before.rfind('\n'), col = nl == before.npos ? before.size() : before.size() - nl - 1;
    std::string r;
    for (size_t i = 0; i < s.size();) {
        if (s.compare(i, 2, "-:") == 0 and i + 2 < s.size() and isdigit((unsigned char) s[i + 2])) {
            char *e, *e2; unsigned long l = strtoul(s.c_str() + i + 2, &e, 10);
            if (*e == ':' and isdigit((unsigned char) e[1])) { unsigned long c = strtoul(e + 1, &e2, 10); r += "-:" + std::to_string(l + lines) + ":" + std::to_string(l == 1 ? c + col : c); i = size_t(e2 - s.c_str()); continue; }
        }
        r += s[i++];
    }
    return r;
}
// names of nested queries are numbered throughout the life of the process
std::string unnumbered(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); ++i) { r += s[i]; if (s[i] == '_' and i and s[i - 1] == 'q') while (i + 1 < s.size() and isdigit((unsigned char) s[i + 1])) ++i; } return r; }
bool diagnosed(const std::string &e) { return e.find("error: ") != e.npos; }

void run(const Plan &p)
{
    out_text = new std::string; std::map<std::string, std::string> conf; for (auto &c : p.conf) { auto e = c.find(' '); conf[c.substr(0, e)] = c.substr(e + 1); }
    bool parse_only = conf["mode"] == "parse"; CaptureBuf cb(out_text); std::streambuf *old; { Sys s; old = std::cout.rdbuf(&cb); }
    struct Seg { std::string kind, text; };
    std::vector<Seg> segs; std::string all;
    for (auto &o : p.ops) { size_t a = o.find(' '); if (a == o.npos) continue; segs.push_back({ o.substr(0, a), unesc(o.substr(a + 1)) }); all += segs.back().text; }
    size_t cut = std::min<size_t>(all.size(), size_t(atoll(conf["cut"].c_str())));
    if (not parse_only) alone("CREATE DATABASE d; USE d; CREATE TABLE t ( a INT(4), b INT(4) ); CREATE TABLE w ( x INT(4), y CHAR(8), z DOUBLE );", false);
    out_text->clear();

    // the whole stream, as the input delivers it
    Watch w; Said whole; uint64_t seed = uint64_t(atoll(conf["seed"].c_str()));
    {
        std::string *err = new std::string; w.err = err;
        if (conf["reader"] == "file") {
            int fd = int(syscall(SYS_memfd_create, "sql", 0)); if (write(fd, all.data(), cut) < 0) { } { int f = dup2(fd, 800); close(fd); fd = f; }
            unsigned f_short = 0, f_intr = 0, f_eio = 0, bufsz = 0; sscanf(conf["faults"].c_str(), "%u %u %u %u", &f_short, &f_intr, &f_eio, &bufsz);
            static char space[64]; FileBuf *fb; std::istream *in;
            { Sys s; fb = new FileBuf(w); if (bufsz) fb->pubsetbuf(bufsz > 1 ? space : nullptr, bufsz > 1 ? bufsz : 0); if (not fb->open("/proc/self/fd/800", std::ios_base::in)) violation("setup", "cannot open the input"); in = new std::istream(fb); }
            sysfaults.read_short_pm = f_short; sysfaults.read_eintr_pm = f_intr; sysfaults.read_eio_pm = f_eio; input_errors = 0;
            process(*in, parse_only, err); sysfaults = SysFaults{};
            if (input_errors) { cut = w.delivered; count("probe.stream-failed"); } else if (w.delivered != cut) violation("incomplete", "only %zu of %zu bytes of the input are read", w.delivered, cut);
            { Sys s; delete in; delete fb; } close(fd);
        } else {
            ChunkBuf *b = new ChunkBuf(all, cut, w, seed, conf["reader"], conf["end"] == "throw"); std::istream *in; { Sys s; in = new std::istream(b); }
            process(*in, parse_only, err); if (w.delivered != cut) violation("incomplete", "only %zu of %zu bytes of the input are read", w.delivered, cut);
            { Sys s; delete in; }
        }
        whole = { *out_text, *err };
    }
    whole = { unnumbered(whole.out), unnumbered(whole.err) };
    log("stream: %s| %s", whole.out.c_str(), whole.err.c_str());
    if (cut < all.size()) count("probe.truncated-stream");

    // the same statements, one by one
    if (not parse_only) {
        Said r = alone("CREATE DATABASE dd; USE dd; DROP DATABASE d; CREATE DATABASE d; USE d; CREATE TABLE t ( a INT(4), b INT(4) ); CREATE TABLE w ( x INT(4), y CHAR(8), z DOUBLE );", false);
        if (diagnosed(r.err)) violation("setup", "%s", r.err.c_str());
    }
    out_text->clear();
    std::string want_out, want_err, before; struct End { size_t at, out, err; }; std::vector<End> ends; std::string rows;
    for (auto &S : segs) {
        if (before.size() >= cut) break;
        bool complete = before.size() + S.text.size() <= cut; std::string text = complete ? S.text : S.text.substr(0, cut - before.size());
        Said r = alone(text, parse_only); std::string mo = unnumbered(moved(r.out, before)), me = unnumbered(moved(r.err, before));
        log("%s %s -> %s| %s", S.kind.c_str(), esc(text).c_str(), mo.c_str(), me.c_str());
        // is it where the stream continues, too?
        if (whole.out.compare(want_out.size(), mo.size(), mo) != 0 or whole.err.compare(want_err.size(), me.size(), me) != 0)
            violation("differs", "'%s' yields '%s' and '%s' on its own, but as part of the stream '%s' and '%s'", esc(text).c_str(), mo.c_str(), me.c_str(), whole.out.substr(std::min(want_out.size(), whole.out.size()), mo.size() + 200).c_str(), whole.err.substr(std::min(want_err.size(), whole.err.size()), me.size() + 200).c_str());
        want_out += mo; want_err += me; before += text;
        if (complete) ends.push_back({ before.size(), want_out.size(), want_err.size() });
        bool only_space = text.find_first_not_of(" \t\n\v\f\r") == text.npos;
        if (S.kind[0] == 'o' and complete) {
            if (diagnosed(r.err)) violation("refused", "'%s' is refused: %s", esc(text).c_str(), r.err.c_str());
            if (not parse_only) {
                if (S.kind.compare(0, 2, "oi") == 0) { rows += unesc(S.kind.substr(2)); if (not r.out.empty()) violation("answer", "an insertion answers '%s'", r.out.c_str()); }
                if (S.kind == "os" and r.out != rows) violation("answer", "the table has '%s' instead of '%s'", r.out.c_str(), rows.c_str());
                count(S.kind == "os" ? "queries checked" : "statements");
            }
        } else if (S.kind == "bad" and complete) { if (not diagnosed(r.err)) violation("silent", "'%s' is malformed, but nothing is reported", esc(text).c_str()); count("probe.malformed"); }
        else if (not complete and not only_space) {
            if (not parse_only and S.kind[0] == 'o' and not r.out.empty()) violation("truncated", "the cut statement '%s' is executed: '%s'", esc(text).c_str(), r.out.c_str());
        }
        state((uint64_t(S.kind[0]) << 8 | uint64_t(S.kind.size() > 1 ? S.kind[1] : 0)) << 3 | complete << 2 | diagnosed(r.err) << 1 | (me.size() > 200));
    }
    if (whole.out.size() != want_out.size() or whole.err.size() != want_err.size()) violation("differs", "the stream yields more than its statements: '%s' and '%s'", whole.out.substr(want_out.size()).c_str(), whole.err.substr(want_err.size()).c_str());
    if (not parse_only) {     // after everything, the table has the rows of the complete insertions
        Said r = alone("USE d; SELECT a, b FROM t ORDER BY a;", false); if (r.out != rows or diagnosed(r.err)) violation("answer", "in the end, the table has '%s' (%s) instead of '%s'", r.out.c_str(), r.err.c_str(), rows.c_str());
    }
    // whatever was complete, and followed by something, has been answered before more input is asked for
    for (auto &g : w.p) for (size_t i = ends.size(); i--;) if (ends[i].at < g.delivered) {
        if (g.out < ends[i].out or g.err < ends[i].err) violation("late", "%zu bytes have arrived, statement %zu ends after %zu of them, and more input is awaited before it is answered", g.delivered, i + 1, ends[i].at);
        break;
    }
    count("inputs awaited", w.p.size());
    { Sys s; std::cout.rdbuf(old); }
}

// ------------------------------------------------------------------------------------------------ generation
std::string pick(Rng &r, std::initializer_list<const char*> l) { return *(l.begin() + r.below(l.size())); }
// tokens separated by white space or comments
std::string space(Rng &r, bool plain) {
    switch (r.below(12)) { case 0: return "\n"; case 1: return "\t "; case 2: return plain ? "\r\n" : "-- note; \"x\n"; case 3: return plain ? "  " : "--\n"; case 4: return plain ? " " : "\n---; '\n "; default: return " "; } }
std::vector<std::string> split(const std::string &s) {
    std::vector<std::string> r; std::string cur; bool q = false;
    for (char c : s) { if (c == ' ' and not q) { if (not cur.empty()) r.push_back(cur); cur.clear(); } else { cur += c; if (c == '"') q = not q; } }
    if (not cur.empty()) r.push_back(cur); return r;
}
std::string join(const std::vector<std::string> &t, Rng &r, bool plain) { std::string s, last; for (auto &x : t) { if (not s.empty()) { auto g = space(r, plain); s += (g[0] == '-' and isdigit((unsigned char) last[last[0] == 'd' and last.size() > 1 and last[1] == '\'' ? 2 : last[0] == '.' and last.size() > 1 ? 1 : 0]) ? " " : "") + g; } s += x; last = x; } return s; }

std::string number(Rng &r) { return std::to_string(r.below(1000)); }
std::string some_statement(Rng &r, bool parse_only)
{
    switch (r.below(parse_only ? 18 : 15)) {
        case 0: return "SELECT * FROM w";
        case 1: return "SELECT x , y FROM w WHERE x > " + number(r) + " AND NOT y = \"a;b\"";
        case 2: return "SELECT x + 2 * ( x - 1 ) AS s FROM w ORDER BY s DESC , x ASC LIMIT 3 OFFSET 1";
        case 3: return "SELECT COUNT ( * ) , SUM ( x ) FROM w GROUP BY y HAVING COUNT ( * ) > 0";
        case 4: return "INSERT INTO w VALUES ( " + number(r) + " , \"ab\" , 1.5 ) , ( NULL , DEFAULT , .5e3 )";
        case 5: return "CREATE TABLE v ( a INT(4) PRIMARY KEY , b CHAR(3) NOT NULL , c VARCHAR ( 5 ) UNIQUE , d DECIMAL ( 5 , 2 ) , e DATE , f DATETIME , g BOOL , h FLOAT )";
        case 6: return "DROP TABLE IF EXISTS v";
        case 7: return "CREATE INDEX i ON w USING array ( x )";
        case 8: return "DROP INDEX IF EXISTS i , j";
        case 9: return "SELECT p . x , q . y FROM w AS p , w q WHERE p . x = q . x";
        case 10: return "SELECT s . x FROM ( SELECT x FROM w WHERE x < 10 ) AS s";
        case 11: return "SELECT 0x1F , 017 , 1e3 , TRUE , NULL , d'2020-01-02' , d'2020-01-02 03:04:05' , \"q\\\"uote\" .. \"\\\\\" , - 1 , ~ 2 FROM w";
        case 12: return "\\nonsense 1 2 \n 3";
        case 13: return "SELECT ISNULL ( x ) , x + 1 FROM w GROUP BY x , y AS g";
        case 14: return "IMPORT INTO w DSV \"nofile;\" ROWS 5 DELIMITER \",\" HAS HEADER SKIP HEADER";
        case 15: return "UPDATE w SET x = x + 1 , y = \"b\" WHERE x = 3";
        case 16: return "DELETE FROM w WHERE y LIKE \"a%\"";
        default: return "CREATE TABLE v ( a INT(4) CHECK ( a > 0 ) REFERENCES w ( x ) )";
    }
}
void generate(Plan &p, Rng &r, int tier)
{
    bool parse_only = r.chance(1, 2); std::string all; int n = parse_only ? 2 + r.below(tier ? 40 : 20) : 2 + r.below(tier ? 24 : 12), row = 0;
    int dmg = r.below(5) * 15;                                   // percentage of damaged statements
    p.conf = { std::string("mode ") + (parse_only ? "parse" : "shell") };
    auto add = [&](const std::string &kind, const std::string &t) { p.ops.push_back(kind + " " + esc(t)); all += t; };
    for (int i = 0; i < n; ++i) {
        bool tight = r.chance(1, 4); std::string lead = i == 0 ? "" : r.chance(1, 12) ? "" : r.chance(1, 2) ? "\n" : space(r, false) + (r.chance(1, 3) ? space(r, false) : "");
        if (int(r.below(100)) < dmg) {
            if (r.chance(1, 4)) {
                add("bad", lead + pick(r, { "SELECT FROM w", "INSERT INTO w VALUES 1 , 2 )", "INSERT INTO w VALUES ( 1 , 2", "CREATE TABLE y ( a BLUB )", "CREATE TABLE y ( a INT(4) CHECK )", "CREATE TABLE", "CREATE", "DROP", "foo bar", "SELECT ( 1 +", "SELECT x y z FROM w",
                    "SELECT x AS FROM w WHERE x", "SELECT x FROM ( SELECT x FROM w", "SELECT x FROM w GROUP x", "SELECT x FROM w ORDER x", "SELECT x FROM w LIMIT x", "INSERT w VALUES ( 1 )", "CREATE INDEX ON w USING ( x )", "USE", "IMPORT INTO w CSV \"f\"", "CREATE TABLE y ( a INT ( 4 ) , )", "SELECT x FROM w HAVING",
                    "SELECT x , FROM w", "SELECT COUNT ( x FROM w", "SELECT x FROM w WHERE ( x = 1", "SELECT w . FROM w", "\xff", "! SELECT x FROM w", "SELECT x ! FROM w", "SELECT \"\\q\" FROM w", "SELECT 08 FROM w", "SELECT 1e FROM w", "SELECT 0x FROM w", "SELECT d'2020-1 ' FROM w", "`", "SELECT x FROM w WHERE x = 'a'" }) + ";");
                continue;
            }
            auto t = split(some_statement(r, parse_only)); bool instr = t[0][0] == '\\', plain = instr;
            for (int k = 1 + r.below(3); k and not t.empty(); --k) {
                size_t at = r.below(t.size()); std::string weird = pick(r, { "\xff", "!", "(", ")", ",", ".", "..", "0x", "1e", "08", "'", "`", "\"a\\q\"", "d'2020-1", "SELECT", "FROM", "WHERE", "=", "x", "w", "y", "AS", "*", "\"\"", "1", "NULL", "VALUES", "GROUP", "TABLE", "\xc3\xa4", "$", "BY", "ORDER", "LIMIT", "NOT", "{", "\x01" });
                switch (r.below(6)) { case 0: t.erase(t.begin() + at); break; case 1: t.insert(t.begin() + at, t[at]); break; case 2: std::swap(t[at], t[r.below(t.size())]); break; case 3: t[at] = weird; break; case 4: t.resize(at + 1); break; default: t.insert(t.begin() + at, weird); break; }
            }
            // products of tables without a join predicate, and aggregates without FROM, are not supported and abort
            if (not parse_only) { bool skip = false, from = false, agg = false; int tables = 0; for (auto &x : t) { skip |= x == "USE" or x == "DATABASE"; tables += x == "w"; from |= x == "FROM"; agg |= x == "COUNT" or x == "SUM"; } skip |= tables > 1 or (agg and not from); if (skip) t = { "foo" }; }
            for (auto &x : t) if (x[0] == '\\') plain = true;
            if (plain) for (auto &x : t) if (x.find(';') != x.npos) x = "z";
            add("any", lead + join(t, r, plain) + (r.chance(1, 3) ? " " + space(r, plain) : "") + ";");
            continue;
        }
        switch (r.below(8)) {
            case 0: case 1: { std::string s = "INSERT INTO t VALUES", model; for (int k = 1 + r.below(3); k; --k) { std::string b = number(r); s += std::string(model.empty() ? " ( " : " , ( ") + std::to_string(++row) + " , " + b + " )"; model += std::to_string(row) + "," + b + "\n"; }
                auto t = split(s); std::string text; if (tight) for (auto &x : t) { if (not text.empty() and isalpha(x[0]) ) text += " "; text += x; } else text = join(t, r, false);
                add("oi" + esc(model), lead + text + ";"); break; }
            case 2: case 3: add("os", lead + (tight ? "SELECT a,b FROM t ORDER BY a" : join(split("SELECT a , b FROM t ORDER BY a"), r, false)) + ";"); break;
            case 4: add("oe", lead + ";"); break;
            case 5: add("oe", lead + join({ "USE", "d" }, r, false) + ";"); break;
            default: add("any", lead + join(split(some_statement(r, parse_only)), r, false) + ";"); break;
        }
        if (p.ops.back().find("\\nonsense") != std::string::npos) { std::string &o = p.ops.back(); all.resize(all.size() - unesc(o.substr(4)).size()); o = "any " + esc(lead + "\\nonsense 1\n2;"); all += lead + "\\nonsense 1\n2;"; }
    }
    if (r.chance(1, 2)) { std::string t = pick(r, { "\n", " ", "-- end", "--", "-", "SELECT a FROM t", "INSERT INTO t VALUES ( 1 , 1 )", "\"open; SELECT a FROM t; ", "\\instr", "d", "d'", "d'2020-01-01", "!", ".", "<", "0x", "1e", "\xff", "SELECT 1 +", "INSERT INTO t VALUES ( 1 , 2 ) ,", "CREATE TABLE y ( a INT(4) ,", "\"a\\", "abc" }); add("tail", (r.chance(1, 2) ? "\n" : " ") + t); }
    p.conf.push_back("seed " + std::to_string(r.below(1000000)));
    p.conf.push_back("cut " + std::to_string(r.chance(1, 3) ? r.below(all.size() + 1) : all.size()));
    p.conf.push_back("reader " + pick(r, { "byte", "line", "chunk", "chunk", "file", "file" }));
    p.conf.push_back(std::string("end ") + (r.chance(1, 3) ? "throw" : "eof"));
    static const int bufs[] = { 0, 0, 1, 2, 3, 7, 16, 64 };
    p.conf.push_back("faults " + std::to_string(r.chance(1, 3) ? 0 : 100 + r.below(800)) + " " + std::to_string(r.chance(1, 2) ? 0 : r.below(300)) + " " + std::to_string(r.chance(1, 2) ? 0 : 5 + r.below(150)) + " " + std::to_string(bufs[r.below(8)]));
    Knobs &k = p.knobs; k.sync_pct = r.chance(1, 3) ? 0 : 5 + r.below(30); k.step_cap = 40'000'000; k.fair = 400'000;
}
Harness H{ "stream", init, generate, run, 30 };
}
extern "C" Harness *sim_harness() { return &H; }
