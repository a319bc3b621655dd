// Several clients issue statements to the real system (lexer .. interpreter, scheduler, stores, indexes) at the same time.
// A small reference model executes statements atomically; after the run a search looks for an order of the statements
// that respects real time and each client's order and explains every answer, diagnosis and confirmation.
// SIM_FOCUS selects what the generated workload concentrates on: "" (C01), reject (C04), index (C12), mvcc (C13).
#include "sim.hpp"
#include "query.hpp"
#include "lex/Lexer.hpp"
#include "parse/Parser.hpp"
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/catalog/Catalog.hpp>
#include <mutable/catalog/DatabaseCommand.hpp>
#include <mutable/catalog/TableFactory.hpp>
#include <mutable/storage/Index.hpp>
#include <algorithm>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

using namespace sim;
namespace {

// ====================================================================================================== vocabulary
struct Pal { const char *sql, *dsv, *out; };
struct Ty { char letter; const char *decl; std::vector<Pal> vals; };
// payload types and the values used: SQL literal, text in a DSV file, text printed
const std::vector<Ty> &types()
{
    static const std::vector<Ty> T = {
        { 'i', "INT(4)", { {"0","0","0"}, {"1","1","1"}, {"-5","-5","-5"}, {"77","77","77"}, {"2147483647","2147483647","2147483647"}, {"-2147483647","-2147483647","-2147483647"} } },
        { 'h', "INT(2)", { {"0","0","0"}, {"-1","-1","-1"}, {"32767","32767","32767"} } },
        { 'k', "INT(1)", { {"0","0","0"}, {"-1","-1","-1"}, {"127","127","127"} } },
        { 'l', "INT(8)", { {"42","42","42"}, {"-1","-1","-1"}, {"9223372036854775807","9223372036854775807","9223372036854775807"}, {"9007199254740993","9007199254740993","9007199254740993"} } },
        { 's', "CHAR(5)", { {"\"\"","\"\"","\"\""}, {"\"a\"","a","\"a\""}, {"\"abcde\"","abcde","\"abcde\""}, {"\"x,y\"","\"x,y\"","\"x,y\""}, {"\"NULL\"","\"NULL\"","\"NULL\""} } },
        { 'v', "VARCHAR(9)", { {"\"\"","\"\"","\"\""}, {"\"zz top\"","zz top","\"zz top\""}, {"\"ninechars\"","ninechars","\"ninechars\""} } },
        { 'b', "BOOL", { {"TRUE","TRUE","TRUE"}, {"FALSE","FALSE","FALSE"} } },
        { 'd', "DATE", { {"d'2020-02-29'","2020-02-29","2020-02-29"}, {"d'1970-01-01'","1970-01-01","1970-01-01"}, {"d'9999-12-31'","9999-12-31","9999-12-31"} } },
        { 't', "DATETIME", { {"d'1970-01-01 00:00:01'","1970-01-01 00:00:01","1970-01-01 00:00:01"}, {"d'2024-12-31 23:59:59'","2024-12-31 23:59:59","2024-12-31 23:59:59"} } },
        { 'f', "FLOAT", { {"0.5","0.5","0.5"}, {"-1.25","-1.25","-1.25"}, {"1024.0","1024.0","1024"} } },
        { 'g', "DOUBLE", { {"0.5","0.5","0.5"}, {"-1.25","-1.25","-1.25"}, {"1048576.5","1048576.5","1048576.5"} } },
    };
    return T;
}
const Ty &type(char c) { for (auto &t : types()) if (t.letter == (c | 0x20)) return t; abort(); }
bool nullable(char c) { return c >= 'a'; }

struct Row { int64_t id; std::optional<int64_t> g; std::vector<int> p; };     // p: palette index, -1: NULL
// a generated statement
struct St {
    std::string kind; std::vector<std::string> a;
    std::string str() const { std::string s = kind; for (auto &x : a) s += ' ' + x; return s; }
    int64_t num(size_t i) const { return i < a.size() ? atoll(a[i].c_str()) : 0; }
    std::string s(size_t i) const { return i < a.size() ? a[i] : ""; }
};
using Schemas = std::map<std::string, std::string>;      // table -> payload column types

// rows "id:g:seed;..." with payload derived from the seed
std::vector<Row> rows_of(const std::string &spec, const std::string &cols)
{
    std::vector<Row> R; std::istringstream s(spec); std::string item;
    while (std::getline(s, item, ';')) {
        long many, kind; unsigned long ms;
        if (sscanf(item.c_str(), "*%ld:%ld:%lu", &many, &kind, &ms) == 3) {   // many rows at once
            Rng y(ms); int64_t at = int64_t(y.below(1000)) - 500;
            for (long i = 0; i < many; ++i) {
                Row r; switch (kind) { case 0: r.id = at++; break; case 1: at += y.chance(1, 20) ? y.below(1000000) : y.below(3); r.id = at; break; case 2: r.id = int64_t(y.below(4000000000u)) - 2000000000; break; case 3: r.id = int64_t(y.below(12)); break; default: r.id = y.chance(1, 30) ? int64_t(y.below(2)) * 4294967294 - 2147483647 : int64_t(y.below(60)); }
                if (not y.chance(1, 12)) r.g = y.below(40);
                for (char c : cols) r.p.push_back(nullable(c) and y.chance(1, 5) ? -1 : int(y.below(type(c).vals.size())));
                R.push_back(r);
            }
            continue;
        }
        Row r; long id, g; unsigned long seed; char gs[32]; if (sscanf(item.c_str(), "%ld:%31[^:]:%lu", &id, gs, &seed) != 3) continue;
        r.id = id; if (gs[0] != 'N') { g = atol(gs); r.g = g; }
        Rng x(seed); for (char c : cols) r.p.push_back(nullable(c) and x.chance(1, 5) ? -1 : int(x.below(type(c).vals.size())));
        R.push_back(r);
    }
    return R;
}
std::string cell(const Row &r, const std::string &cols, size_t i) { return i == 0 ? std::to_string(r.id) : i == 1 ? (r.g ? std::to_string(*r.g) : "NULL") : r.p[i - 2] < 0 ? "NULL" : type(cols[i - 2]).vals[r.p[i - 2]].out; }

// statements that are always rejected
// statements that are always refused; ~: the parser does not find the end of the statement, a following one may be lost
const std::vector<const char*> &bad()
{
    static const std::vector<const char*> B = {
        "~SELECT FROM;", "SELECT * FROM nosuchtable;", "SELECT nosuchcolumn FROM T0;", "CREATE TABLE;", "INSERT INTO nosuch VALUES (1);", "INSERT INTO T0 VALUES (1);",
        "SELECT ? FROM T0;", "SELECT 1 + ;", "SELECT \"a\" + 1;", "SELECT id FROM T0 WHERE id;", "SELECT id FROM T0 WHERE id = \"x\";", "CREATE TABLE T9 ( a CHAR );",
        "CREATE TABLE T9 ( a INT(4), a INT(4) );", "CREATE TABLE T9 ( a INT(4) REFERENCES nosuch(b) );", "CREATE TABLE T9 ( a INT(4) PRIMARY KEY, b INT(4) PRIMARY KEY );",
        "CREATE TABLE T9 ( a INT(4) CHECK (a) );", "CREATE TABLE T9 ( a NOSUCHTYPE );", "DROP TABLE nosuch;", "DROP TABLE;", "DROP DATABASE nosuchdb;", "USE nosuchdb;", "USE;", "CREATE DATABASE;",
        "INSERT INTO T0 VALUES (NULL, 1);", "INSERT INTO T0 VALUES (\"x\", 1);", "INSERT INTO VALUES (1);", "INSERT INTO T0 VALUES ();", "SELECT id, COUNT() FROM T0;", "SELECT id FROM T0 GROUP BY g;",
        "SELECT a.id FROM T0 AS b;", "SELECT id FROM T0 AS a, T0 AS a;", "SELECT id FROM T0, T1;", "SELECT id FROM T0 ORDER BY nosuch;", "SELECT id FROM T0 LIMIT x;", "SELECT id FROM T0 LIMIT;",
        "SELECT NOSUCHFN(id) FROM T0;", "SELECT SUM(SUM(id)) FROM T0;", "SELECT id FROM T0 WHERE COUNT() = 1;", "\\nosuchinstruction 1;", "\\;", "IMPORT INTO nosuch DSV \"/nonexistent\";", "IMPORT INTO T0 DSV \"/nonexistent\";",
        "IMPORT INTO T0 DSV;", "IMPORT INTO T0 DSV \"/nonexistent\" DELIMITER \",,\";", "IMPORT INTO T0 DSV \"/nonexistent\" DELIMITER \"x\" QUOTE \"x\";", "CREATE INDEX i9 ON nosuch (id);", "CREATE INDEX i9 ON T0 (nosuch);",
        "CREATE UNIQUE INDEX i9 ON T0 (id);", "CREATE INDEX ON T0 (id);", "CREATE INDEX i9 ON T0 USING nosuch (id);", "CREATE INDEX i9 ON T0 (id, g);", "CREATE INDEX i9 ON T0 (id + 1);", "CREATE INDEX i9 ON T0;", "DROP INDEX nosuch;", "DROP INDEX;",
        "INSERT INTO T0 VALUES (1/0, 1);", "SELECT 1 % 0;", "FROM T0 SELECT id;", "SELECT id FROM T0 WHERE;", "SELECT (SELECT id FROM T0;", "~SELECT id FROM (SELECT id FROM T0);", "42;", "~)", "~SELECT 1 AS;", "SELECT 'x;", "~SELECT \"x\n;", "SELECT 0x;", "SELECT d'2020-13-45';", "SELECT SUM(COUNT()) FROM T0;", "SELECT id.id.id FROM T0;",
        "CREATE TABLE T9 ( );", "CREATE TABLE T9 ( a CHAR(x) );", "SELECT 7 / (1 - 1);", "CREATE TABLE T9 ( a INT(4) NOT );", "CREATE INDEX i9 ON T0 USING rmi (nosuch);", "SELECT * FROM T0 HAVING;", "SELECT g FROM T0 GROUP BY g HAVING id = 1;", "SELECT id FROM T0 WHERE id = (SELECT id FROM nosuch);",
        "INSERT INTO T0 VALUES (id, 1);", "SELECT id FROM T0 AS T0, nosuch;", "SELECT NOT 1;", "SELECT -\"x\";", "SELECT TRUE < FALSE;", "SELECT id FROM T0 WHERE g LIKE 1;", "USE T0 T0;", "SELECT id id2 id3 FROM T0;",
    };
    return B;
}

std::string import_path(int op);                         // the DSV file of the import statement with that number
const char *SEL_COLS = "id, g";
std::string columns(const std::string &cols, const char *prefix = "") { std::string s = std::string(prefix) + "id, " + prefix + "g"; for (size_t i = 0; i < cols.size(); ++i) s += std::string(", ") + prefix + "p" + std::to_string(i); return s; }

std::string pcol(const std::string &cols, int64_t a) { return cols.empty() ? "g" : "p" + std::to_string(a % int64_t(cols.size())); }
const Pal &plit(const std::string &cols, int64_t a, int64_t b) { static const Pal one{"1", "1", "1"}; if (cols.empty()) return one; auto &v = type(cols[a % int64_t(cols.size())]).vals; return v[size_t(b) % v.size()]; }

// the generated query "gq T seed U W"
query::Query generated(const St &q, const Schemas &sch)
{
    query::Columns columns = [&](const std::string &t) {
        std::vector<query::Out> v; v.push_back({ "id", 'I', 'I', false, { "-1", "0", "1", "3", "7" } }); v.push_back({ "g", 'i', 'I', false, { "0", "1", "2", "3" } });
        std::string c = sch.count(t) ? sch.at(t) : std::string(); int i = 0;
        for (char l : c) { l |= 0x20; char ty = strchr("ihkl", l) ? 'I' : strchr("sv", l) ? 's' : l == 'b' ? 'b' : strchr("dt", l) ? 'o' : 'f', sub = strchr("ihk", l) ? 'I' : l == 'l' ? 'L' : l == 'v' ? 's' : l; query::Out o{ "p" + std::to_string(i++), ty, sub, false, {} }; for (auto &x : type(l).vals) o.lits.push_back(x.sql); v.push_back(o); }
        return v;
    };
    return query::make(strtoull(q.s(1).c_str(), nullptr, 10), { q.s(0), q.s(2), q.s(3) }, columns);
}
std::vector<query::Val> values(const Row &r, const std::string &cols)
{
    std::vector<query::Val> v; v.push_back(query::Int(r.id)); v.push_back(r.g ? query::Int(*r.g) : query::Null());
    for (size_t i = 0; i < cols.size(); ++i) { if (r.p[i] < 0) { v.push_back(query::Null()); continue; } char l = cols[i] | 0x20; std::string x = type(l).vals[r.p[i]].out;
        if (strchr("ihkl", l)) v.push_back(query::Int(atoll(x.c_str()))); else if (strchr("sv", l)) v.push_back(query::Str(x.substr(1, x.size() - 2))); else if (l == 'b') v.push_back(query::Bool(x == "TRUE")); else if (strchr("dt", l)) v.push_back(query::Opq(x)); else v.push_back(query::Flt(atof(x.c_str()))); }
    return v;
}

std::string sql(const St &q, const Schemas &sch)
{
    std::ostringstream o; auto cols = [&](const std::string &t) { return sch.count(t) ? sch.at(t) : std::string(); };
    const std::string &k = q.kind, t = q.s(0);
    if (k == "cdb") o << "CREATE DATABASE " << t;
    else if (k == "ddb") o << "DROP DATABASE " << t;
    else if (k == "use") o << "USE " << t;
    else if (k == "ct") { o << "CREATE TABLE " << t << " ( id INT(4) NOT NULL, g INT(4)"; auto c = cols(t); for (size_t i = 0; i < c.size(); ++i) o << ", p" << i << ' ' << type(c[i]).decl << (nullable(c[i]) ? "" : " NOT NULL"); o << " )"; }
    else if (k == "dt") { o << "DROP TABLE " << (q.num(1) ? "IF EXISTS " : "") << t; if (q.a.size() > 2) o << ", " << q.a[2]; }
    else if (k == "ins" or k == "bin") {
        o << "INSERT INTO " << t << " VALUES "; auto c = cols(t); bool first = true;
        auto bad_rows = rows_of(q.s(1), c);
        for (auto &r : bad_rows) {
            o << (first ? "" : ", ") << '(' << r.id << ", "; first = false; if (k == "bin" and &r == &bad_rows.back()) o << "7 / (3 - 3)"; else if (r.g) o << *r.g; else o << "NULL";
            for (size_t i = 0; i < c.size(); ++i) { o << ", "; if (r.p[i] < 0) o << ((r.id + i) % 3 == 0 ? "DEFAULT" : "NULL"); else o << type(c[i]).vals[r.p[i]].sql; } o << ')'; }
    }
    else if (k == "imp") o << "IMPORT INTO " << t << " DSV \"" << import_path(q.num(2)) << "\" DELIMITER \",\"" << (q.num(3) ? " HAS HEADER SKIP HEADER" : "");
    else if (k == "sel") {
        int v = q.num(1); long a = q.num(2), b = q.num(3); std::string u = q.s(4), w = q.s(5);
        switch (v) {
            case 0: o << "SELECT " << columns(cols(t)) << " FROM " << t; break;
            case 1: o << "SELECT * FROM " << t; break;
            case 2: o << "SELECT id, g FROM " << t << " WHERE g <= " << a << " AND id != " << b; break;
            case 3: o << "SELECT COUNT(), SUM(id), MIN(id), MAX(id) FROM " << t << " WHERE id != " << b; break;
            case 4: o << "SELECT g, COUNT() FROM " << t << " GROUP BY g"; break;
            case 5: o << "SELECT x.id, y.id FROM " << t << " AS x, " << u << " AS y WHERE x.g = y.g AND x.id < " << a; break;
            case 6: o << "SELECT x.id, y.g FROM " << t << " AS x, " << t << " AS y WHERE x.id = y.id"; break;
            case 7: o << "SELECT " << columns(cols(t)) << " FROM " << t << " ORDER BY id " << (a & 1 ? "DESC" : "ASC") << " LIMIT " << b + 1 << " OFFSET " << a; break;
            case 8: o << "SELECT n.id FROM (SELECT id, g FROM " << t << " WHERE g <= " << a << ") AS n WHERE n.id != " << b; break;
            case 9: o << "SELECT q.id, q.g FROM " << t << " AS q WHERE q.g = " << a; break;
            case 10: if (t == u) o << "SELECT x.id, y.g FROM " << t << " AS x, " << u << " AS y WHERE x.id = y.id"; else o << "SELECT " << t << ".id, " << u << ".g FROM " << t << ", " << u << " WHERE " << t << ".id = " << u << ".id"; break;
            case 11: o << "SELECT x.id FROM " << t << " AS x, " << u << " AS y, " << w << " AS z WHERE x.id = y.id AND y.id = z.id"; break;
            case 12: o << "SELECT " << a << ", " << b; break;
            case 13: o << "SELECT * FROM " << t << " AS s"; break;
            case 14: o << "SELECT COUNT() FROM " << t; break;
            case 15: o << "SELECT x.id, y.id FROM " << t << " AS x, (SELECT id, g FROM " << u << " WHERE id != " << b << ") AS y WHERE x.g = y.g"; break;
            case 16: o << "SELECT COUNT(), SUM(12 / (g + " << a << ")) FROM " << t; break;
            case 17: o << "SELECT g, SUM(id), MAX(id) FROM " << t << " GROUP BY g HAVING COUNT() > 1"; break;
            case 18: o << "SELECT id, id * 2 - g, g = " << a << ", NOT (g < id), ISNULL(g) FROM " << t; break;
            case 19: o << "SELECT id FROM " << t << " WHERE g = " << a << " OR id = " << b << " OR ISNULL(g)"; break;
            case 20: o << "SELECT id FROM " << t << " WHERE NOT (g = " << a << " AND id < " << b << ")"; break;
            case 21: o << "SELECT COUNT(g), MIN(g), MAX(g), SUM(g) FROM " << t << " WHERE id > " << a; break;
            case 22: o << "SELECT COUNT(), SUM(y.g) FROM " << t << " AS x, " << u << " AS y WHERE x.id = y.id AND y.g != " << a; break;
            case 24: o << "SELECT " << columns(cols(t)) << " FROM " << t << " ORDER BY g " << (a & 1 ? "DESC" : "ASC") << ", id " << (b & 1 ? "DESC" : "ASC"); break;
            // on a payload column of any type (the first column of that table, or g)
            case 25: o << "SELECT " << pcol(cols(t), a) << ", COUNT() FROM " << t << " GROUP BY " << pcol(cols(t), a); break;
            case 26: o << "SELECT x.id, y.id FROM " << t << " AS x, " << t << " AS y WHERE x." << pcol(cols(t), a) << " = y." << pcol(cols(t), a); break;
            case 27: o << "SELECT id FROM " << t << " WHERE " << pcol(cols(t), a) << (b & 1 ? " = " : " != ") << plit(cols(t), a, b).sql; break;
            case 23: o << "SELECT m.g, m.n FROM (SELECT g, COUNT() AS n FROM " << t << " GROUP BY g) AS m WHERE m.n > " << 1 + a % 2; break;
        }
    }
    else if (k == "gq") o << generated(q, sch).sql;
    else if (k == "raw") for (auto &x : q.a) o << x << ' ';
    else if (k == "cix") { o << "CREATE INDEX " << (q.num(4) ? "IF NOT EXISTS " : "") << t << " ON " << q.s(1); if (q.s(3) != "def") o << " USING " << q.s(3); o << " (" << q.s(2) << ")"; }
    else if (k == "dix") o << "DROP INDEX " << (q.num(1) ? "IF EXISTS " : "") << t;
    else if (k == "lk") o << "\\simlookup " << t << ' ' << q.s(1) << ' ' << q.s(2) << ' ' << q.s(3) << ' ' << q.s(4);
    else if (k == "bad") { std::string s = bad()[size_t(q.num(0)) % bad().size()]; return s[0] == '~' ? s.substr(1) : s; }
    else if (k == "nop") return ";";
    o << ";"; return o.str();
}

// ====================================================================================================== reference model
struct MIndex { std::string name, table, col, method; bool valid; };
struct MTable { std::vector<Row> rows; };
struct MDb { std::map<std::string, MTable> tables; std::vector<MIndex> indexes; };
struct Model { std::map<std::string, MDb> dbs; std::string use; };
struct Expect { bool error = false; bool select = false; bool ordered = false; std::vector<std::string> rows; std::string out; int keycols = 1; std::vector<std::string> pool; bool any = false; std::set<size_t> approx, star; };  // ordered: rows agree on the first keycols columns, position by position, and are a sub-multiset of pool

std::string col_cell(const Row &r, const std::string &cols, const std::string &c) { return cell(r, cols, c == "id" ? 0 : c == "g" ? 1 : 2 + atoi(c.c_str() + 1)); }
std::string full(const Row &r, const std::string &cols) { std::string s; for (size_t i = 0; i < 2 + cols.size(); ++i) s += (i ? "," : "") + cell(r, cols, i); return s; }
std::string S(int64_t v) { return std::to_string(v); }
std::string gs(const Row &r) { return r.g ? S(*r.g) : "NULL"; }

bool indexable(const std::string &col, const std::string &cols, const std::string &method)
{
    if (col == "id" or col == "g") return true;
    char l = cols[atoi(col.c_str() + 1)] | 0x20;
    if (l == 's' or l == 'v' or l == 'b') return method != "rmi"; // learned indexes exist for numbers only
    return true;
}

Expect step_model(Model &M, const St &q, const Schemas &sch)
{
    Expect e; const std::string &k = q.kind, t = q.s(0);
    auto cols = [&](const std::string &t) { return sch.count(t) ? sch.at(t) : std::string(); };
    MDb *db = M.use.empty() ? nullptr : &M.dbs.at(M.use);
    auto table = [&](const std::string &n) -> MTable* { if (not db) return nullptr; auto it = db->tables.find(n); return it == db->tables.end() ? nullptr : &it->second; };
    auto invalidate = [&](const std::string &n) { for (auto &i : db->indexes) if (i.table == n) i.valid = false; };
    auto drop_indexes = [&](const std::string &n) { db->indexes.erase(std::remove_if(db->indexes.begin(), db->indexes.end(), [&](auto &i) { return i.table == n; }), db->indexes.end()); };
    if (k == "nop") { }
    else if (k == "bad") e.error = true;
    else if (k == "cdb") { if (M.dbs.count(t)) e.error = true; else { M.dbs[t]; e.out = "Created database " + t + ".\n"; } }
    else if (k == "ddb") { if (M.use == t or not M.dbs.count(t)) e.error = true; else { M.dbs.erase(t); e.out = "Dropped database " + t + ".\n"; } }
    else if (k == "use") { if (not M.dbs.count(t)) e.error = true; else { M.use = t; e.out = "Using database " + t + ".\n"; } }
    else if (db and k == "sel" and q.num(1) == 12) { e.select = true; e.rows.push_back(S(q.num(2)) + "," + S(q.num(3))); }
    else if (not db) e.error = true;
    else if (k == "ct") { if (table(t)) e.error = true; else { db->tables[t]; e.out = "Created table " + t + ".\n"; } }
    else if (k == "dt") {
        std::vector<std::string> names{ t }; if (q.a.size() > 2 and q.a[2] != t) names.push_back(q.a[2]);
        for (auto &n : names) if (not table(n) and not q.num(1)) e.error = true;
        if (not e.error) for (auto &n : names) if (table(n)) { drop_indexes(n); db->tables.erase(n); e.out += "Dropped table " + n + ".\n"; }
    }
    else if (k == "bin") e.error = true;
    else if (k == "ins" or k == "imp") { auto *T = table(t); if (not T) e.error = true; else { auto R = rows_of(q.s(1), cols(t)); T->rows.insert(T->rows.end(), R.begin(), R.end()); if (not R.empty()) invalidate(t); } }
    else if (k == "cix") {
        bool exists = false; for (auto &i : db->indexes) exists |= i.name == t;
        std::string tab = q.s(1), col = q.s(2), m = q.s(3) == "def" ? "array" : q.s(3);
        if (exists) { if (not q.num(4)) e.error = true; }
        else if (not table(tab) or not indexable(col, cols(tab), m)) e.error = true;
        else { db->indexes.push_back({ t, tab, col, m, true }); e.out = "Created index " + t + ".\n"; }
    }
    else if (k == "dix") { bool found = false; for (auto it = db->indexes.begin(); it != db->indexes.end(); ++it) if (it->name == t) { db->indexes.erase(it); found = true; e.out = "Dropped index " + t + ".\n"; break; } if (not found and not q.num(1)) e.error = true; }
    else if (k == "lk") {
        auto *T = table(t); e.select = true; std::string col = q.s(1), m = q.s(2);
        const MIndex *ix = nullptr; if (T) for (auto &i : db->indexes) if (i.valid and i.table == t and i.col == col and i.method == m) ix = &i;
        if (not ix) e.rows.push_back("no index");
        else {
            // everything between two values: lower_bound(lo) .. upper_bound(hi)
            std::string c = cols(t); int64_t lo = q.num(3), hi = q.num(4); bool text = col[0] == 'p' and strchr("svbdtfg", c[atoi(col.c_str() + 1)] | 0x20);
            for (size_t i = 0; i < T->rows.size(); ++i) {
                std::string x = col_cell(T->rows[i], c, col); if (x == "NULL") continue;
                bool hit; if (text) { auto &P = type(c[atoi(col.c_str() + 1)]).vals; hit = P[size_t(lo) % P.size()].out == x; } else hit = lo <= atoll(x.c_str()) and atoll(x.c_str()) <= hi;
                if (hit) e.rows.push_back("row " + S(i)); }
        }
    }
    else if (k == "raw") e.select = e.any = true;        // only for looking at answers by hand
    else if (k == "gq") {
        query::Query G = generated(q, sch);
        for (auto &n : G.tables) if (not table(n)) { e.error = true; return e; }
        e.select = true;
        try {
            query::Rel R = G.eval([&](const std::string &n, query::Rel &R) { for (auto &r : table(n)->rows) R.rows.push_back(values(r, cols(n))); return true; });
            std::stable_sort(R.rows.begin(), R.rows.end(), [&](auto &x, auto &y) { for (int i = 0; i < G.keys; ++i) { if (x[i].k == '*' or y[i].k == '*') throw query::Unknown{}; if (x[i].k == 'n' or y[i].k == 'n') { if (x[i].k != y[i].k) return x[i].k == 'n'; continue; } if (int c = query::cmp(x[i], y[i])) return G.desc[i] ? c > 0 : c < 0; } return false; });
            for (auto &r : R.rows) for (size_t i = 0; i < r.size(); ++i) { if (r[i].k == '*') e.star.insert(i); else if (G.out[i].approx) e.approx.insert(i); }
            for (auto &r : R.rows) { std::string s; for (size_t i = 0; i < r.size(); ++i) s += (i ? "," : "") + (e.star.count(i) ? std::string("*") : query::text(r[i], G.out[i].approx)); e.pool.push_back(s); }
            e.rows = e.pool; if (G.limit >= 0) { e.rows.erase(e.rows.begin(), e.rows.begin() + std::min<size_t>(e.rows.size(), size_t(G.offset))); if (e.rows.size() > size_t(G.limit)) e.rows.resize(size_t(G.limit)); }
            e.ordered = G.keys > 0 or G.limit >= 0; e.keycols = G.keys;
        } catch (query::Unknown) { e.any = true; }
    }
    else if (k == "sel") {
        int v = q.num(1); int64_t a = q.num(2), b = q.num(3); std::string u = q.s(4), w = q.s(5), c = cols(t);
        MTable *T = table(t), *U = table(u), *W = table(w); bool needU = v == 5 or v == 10 or v == 11 or v == 15 or v == 22;
        if (not T or (needU and not U) or (v == 11 and not W)) { e.error = true; return e; }
        e.select = true; auto &R = T->rows; auto add = [&](std::string s) { e.rows.push_back(std::move(s)); };
        switch (v) {
            case 0: case 1: case 13: for (auto &r : R) add(full(r, c)); break;
            case 2: for (auto &r : R) if (r.g and *r.g <= a and r.id != b) add(S(r.id) + "," + gs(r)); break;
            case 3: { int64_t n = 0, s = 0, mn = 0, mx = 0; for (auto &r : R) if (r.id != b) { if (not n or r.id < mn) mn = r.id; if (not n or r.id > mx) mx = r.id; ++n; s += r.id; } if (n) add(S(n) + "," + S(s) + "," + S(mn) + "," + S(mx)); else add("0,*,*,*"); break; }
            case 4: { std::map<std::string, int> m; for (auto &r : R) ++m[gs(r)]; for (auto &[g, n] : m) add(g + "," + S(n)); break; }
            case 5: for (auto &x : R) for (auto &y : U->rows) if (x.g and y.g and *x.g == *y.g and x.id < a) add(S(x.id) + "," + S(y.id)); break;
            case 6: for (auto &x : R) for (auto &y : R) if (x.id == y.id) add(S(x.id) + "," + gs(y)); break;
            case 7: { std::vector<const Row*> p; for (auto &r : R) p.push_back(&r); std::stable_sort(p.begin(), p.end(), [&](auto x, auto y) { return a & 1 ? x->id > y->id : x->id < y->id; }); for (size_t i = size_t(a); i < p.size() and i < size_t(a + b + 1); ++i) add(full(*p[i], c)); for (auto r : p) e.pool.push_back(full(*r, c)); e.ordered = true; break; }
            case 8: for (auto &r : R) if (r.g and *r.g <= a and r.id != b) add(S(r.id)); break;
            case 9: for (auto &r : R) if (r.g and *r.g == a) add(S(r.id) + "," + gs(r)); break;
            case 10: for (auto &x : R) for (auto &y : U->rows) if (x.id == y.id) add(S(x.id) + "," + gs(y)); break;
            case 11: for (auto &x : R) for (auto &y : U->rows) for (auto &z : W->rows) if (x.id == y.id and y.id == z.id) add(S(x.id)); break;
            case 14: add(S(R.size())); break;
            case 15: for (auto &x : R) for (auto &y : U->rows) if (x.g and y.g and *x.g == *y.g and y.id != b) add(S(x.id) + "," + S(y.id)); break;
            case 16: { int64_t s = 0; bool any = false; for (auto &r : R) if (r.g) { if (*r.g + a == 0) { e = Expect{}; e.error = true; return e; } s += 12 / (*r.g + a); any = true; } add(S(R.size()) + "," + (any ? S(s) : "*")); break; }
            case 17: { std::map<std::string, std::array<int64_t, 3>> m; for (auto &r : R) { auto [it, first] = m.try_emplace(gs(r), std::array<int64_t, 3>{0, 0, r.id}); ++it->second[0]; it->second[1] += r.id; it->second[2] = std::max(it->second[2], r.id); } for (auto &[g, n] : m) if (n[0] > 1) add(g + "," + S(n[1]) + "," + S(n[2])); break; }
            case 18: for (auto &r : R) add(S(r.id) + "," + (r.g ? S(r.id * 2 - *r.g) + "," + (*r.g == a ? "TRUE" : "FALSE") + "," + (*r.g < r.id ? "FALSE" : "TRUE") + ",FALSE" : "NULL,NULL,NULL,TRUE")); break;
            case 19: for (auto &r : R) if (not r.g or *r.g == a or r.id == b) add(S(r.id)); break;
            case 20: for (auto &r : R) if (r.g ? not (*r.g == a and r.id < b) : r.id >= b) add(S(r.id)); break;
            case 21: { int64_t n = 0, sm = 0, mn = 0, mx = 0; for (auto &r : R) if (r.id > a and r.g) { if (not n or *r.g < mn) mn = *r.g; if (not n or *r.g > mx) mx = *r.g; ++n; sm += *r.g; } add(n ? S(n) + "," + S(mn) + "," + S(mx) + "," + S(sm) : "0,*,*,*"); break; }
            case 22: { int64_t n = 0, sm = 0; for (auto &x : R) for (auto &y : U->rows) if (x.id == y.id and y.g and *y.g != a) { ++n; sm += *y.g; } add(S(n) + "," + (n ? S(sm) : "*")); break; }
            case 24: { std::vector<const Row*> p; for (auto &r : R) p.push_back(&r); std::stable_sort(p.begin(), p.end(), [&](auto x, auto y) { if (x->g != y->g) { if (not x->g or not y->g) return not x->g; return a & 1 ? *x->g > *y->g : *x->g < *y->g; } return b & 1 ? x->id > y->id : x->id < y->id; }); for (auto r : p) add(full(*r, c)); e.pool = e.rows; e.keycols = 2; e.ordered = true; break; }
            case 25: { std::map<std::string, int> m; for (auto &r : R) ++m[col_cell(r, c, pcol(c, a))]; for (auto &[g, n] : m) add(g + "," + S(n)); break; }
            case 26: for (auto &x : R) for (auto &y : R) { auto l = col_cell(x, c, pcol(c, a)), h = col_cell(y, c, pcol(c, a)); if (l != "NULL" and l == h) add(S(x.id) + "," + S(y.id)); } break;
            case 27: for (auto &r : R) { auto l = col_cell(r, c, pcol(c, a)); if (l != "NULL" and (l == plit(c, a, b).out) == bool(b & 1)) add(S(r.id)); } break;
            case 23: { std::map<std::string, int> m; for (auto &r : R) ++m[gs(r)]; for (auto &[g, n] : m) if (n > 1 + a % 2) add(g + "," + S(n)); break; }
        }
    }
    return e;
}
uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
uint64_t hs(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
uint64_t hash_model(const Model &M)
{
    uint64_t h = hs(M.use);
    for (auto &[n, d] : M.dbs) { h = mix(h, hs(n)); for (auto &[t, T] : d.tables) { h = mix(h, hs(t)); for (auto &r : T.rows) { h = mix(h, r.id); h = mix(h, r.g ? *r.g : -99); } } for (auto &i : d.indexes) h = mix(h, hs(i.name) + i.valid + hs(i.table + i.col + i.method)); }
    return h;
}

// ====================================================================================================== a run
struct Unit {                                            // what a client issues; executed atomically in some order
    int client; char via; std::vector<St> st;            // via T: all statements of one transaction; else exactly one
    uint64_t invoked = 0, answered = 0; bool batch_end = true;
    std::vector<bool> err; std::string out; bool fault = false, ok_answers = true; std::vector<int> answers;
};
std::vector<Unit> *units; Schemas *sch; std::map<int, int> *files;
std::string *answers;                                    // everything printed to std::cout

std::string import_path(int op) { auto it = files ? files->find(op) : decltype(files->begin()){}; return "/proc/self/fd/" + std::to_string(files and it != files->end() ? it->second : 999); }

struct CaptureBuf : std::streambuf {
    int overflow(int c) override { Quiet q; if (c != EOF) answers->push_back(char(c)); return c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { Quiet q; answers->append(s, size_t(n)); return n; }
};

// executed by the worker: uses an index exactly as a backend would
struct simlookup : m::DatabaseInstruction
{
    simlookup(std::vector<std::string> args) : DatabaseInstruction(std::move(args)) { }
    void accept(m::DatabaseCommandVisitor&) override { }
    void accept(m::ConstDatabaseCommandVisitor&) const override { }
    template<typename Index, typename Key> void emit(const m::idx::IndexBase &base, Key lo, Key hi, std::ostringstream &o, size_t &n) {
        auto &ix = dynamic_cast<const Index&>(base);
        for (auto it = ix.lower_bound(lo), end = ix.upper_bound(hi); it < end; ++it) { o << "row " << it->second << '\n'; ++n; }
    }
    void execute(m::Diagnostic &diag) override {
        auto &C = m::Catalog::Get();
        if (not C.has_database_in_use()) { diag.err() << "No database selected.\n"; return; }
        auto &DB = C.get_database_in_use();
        auto table = C.pool(args().at(0)), col = C.pool(args().at(1)); bool rmi = args().at(2) == "rmi";
        auto method = rmi ? m::idx::IndexMethod::Rmi : m::idx::IndexMethod::Array;
        int64_t lo = atoll(args().at(3).c_str()), hi = atoll(args().at(4).c_str());
        std::ostringstream o; size_t n = 0;
        bool has = DB.has_table(table) and DB.get_table(table).has_attribute(col) and DB.has_index(table, col, method);
        if (not has) { o << "no index\n"; n = 1; }
        else {
            auto &ix = DB.get_index(table, col, method);
            std::string c; { Quiet q; auto it = sch->find(args().at(0).c_str()); if (it != sch->end()) c = it->second; }
            char l = args().at(1)[0] == 'p' ? (c[atoi(args().at(1).c_str() + 1)] | 0x20) : 'i';
            const Pal &P = type(l).vals[size_t(lo) % type(l).vals.size()]; std::string txt = P.out;
#define LK(KEY, A, B) (rmi ? emit<m::idx::RecursiveModelIndex<KEY>, KEY>(ix, A, B, o, n) : emit<m::idx::ArrayIndex<KEY>, KEY>(ix, A, B, o, n))
            switch (l) {
                case 'i': LK(int32_t, int32_t(std::clamp<int64_t>(lo, INT32_MIN, INT32_MAX)), int32_t(std::clamp<int64_t>(hi, INT32_MIN, INT32_MAX))); break;
                case 'h': LK(int16_t, int16_t(std::clamp<int64_t>(lo, INT16_MIN, INT16_MAX)), int16_t(std::clamp<int64_t>(hi, INT16_MIN, INT16_MAX))); break;
                case 'k': LK(int8_t, int8_t(std::clamp<int64_t>(lo, INT8_MIN, INT8_MAX)), int8_t(std::clamp<int64_t>(hi, INT8_MIN, INT8_MAX))); break;
                case 'l': LK(int64_t, lo, hi); break;
                case 'c': { int64_t v = llround(atof(txt.c_str()) * 100); LK(int32_t, int32_t(v), int32_t(v)); break; }
                case 'f': LK(float, float(atof(txt.c_str())), float(atof(txt.c_str()))); break;
                case 'g': LK(double, atof(txt.c_str()), atof(txt.c_str())); break;
                case 'd': { int y, mo, d; sscanf(txt.c_str(), "%d-%d-%d", &y, &mo, &d); int32_t v = y << 9 | mo << 5 | d; LK(int32_t, v, v); break; }
                case 't': { struct tm tm{}; strptime(txt.c_str(), "%Y-%m-%d %H:%M:%S", &tm); int64_t v = timegm(&tm); LK(int64_t, v, v); break; }
                case 'b': { bool v = txt == "TRUE"; emit<m::idx::ArrayIndex<bool>, bool>(ix, v, v, o, n); break; }
                case 's': case 'v': { std::string v = txt.substr(1, txt.size() - 2); emit<m::idx::ArrayIndex<const char*>, const char*>(ix, v.c_str(), v.c_str(), o, n); break; }
            }
        }
        std::cout << o.str() << n << " rows\n";
    }
};

struct ClientState { std::ostringstream out, err; size_t out_at = 0, err_at = 0; };
bool has_error(const std::string &s) { return s.find("error: ") != s.npos; }
std::string confirmations(const std::string &s) { std::string r, l; std::istringstream i(s); while (std::getline(i, l)) if (l.find("note: ") == l.npos and not l.empty()) r += l + '\n'; return r; }

std::unique_ptr<m::ast::Command> parse(m::Diagnostic &diag, const std::string &txt)
{
    std::istringstream in(txt); m::ast::Lexer lexer(diag, m::Catalog::Get().get_pool(), "-", in); m::ast::Parser parser(lexer);
    return parser.parse();
}

// issue units [from, to): all of one batch, or a single one; system mode
void issue(size_t from, size_t to, int spare)
{
    ClientState &C = *new ClientState; char via; std::vector<std::string> text; uint64_t f0;
    { Quiet q; via = (*units)[from].via; for (size_t u = from; u < to; ++u) { (*units)[u].invoked = step(); for (auto &s : (*units)[u].st) text.push_back(sql(s, *sch)); log("c%d %c %s", (*units)[u].client, via, (*units)[u].st[0].str().c_str()); for (auto &s : (*units)[u].st) if (s.kind == "gq") log("  %s", sql(s, *sch).c_str()); } f0 = fault_total(); }
    std::vector<bool> errs; std::vector<int> ans; std::string died;
    if (via == 'P' or via == 'B') {
        std::string all; for (auto &t : text) { all += t.c_str(); all += '\n'; }
        std::istringstream in(all);
        m::process_stream(in, "-", m::Diagnostic(false, C.out, C.err));
        errs.push_back(has_error(C.err.str()));
    } else {
        struct Sub { std::ostringstream out, err; std::unique_ptr<m::Diagnostic> diag; std::future<bool> f; };
        std::vector<std::unique_ptr<Sub>> subs;
        auto &S = m::Catalog::Get().scheduler();
        if (via == 'Q') {
            auto s = std::make_unique<Sub>(); s->diag = std::make_unique<m::Diagnostic>(false, s->out, s->err);
            ans.push_back(S.autocommit(parse(*s->diag, text[0].c_str()), *s->diag)); subs.push_back(std::move(s));
        } else {
            auto t = S.begin_transaction();
            for (auto &x : text) {
                auto s = std::make_unique<Sub>(); s->diag = std::make_unique<m::Diagnostic>(false, s->out, s->err);
                auto ast = parse(*s->diag, x.c_str());
                s->f = S.schedule_command(*t, std::move(ast), *s->diag);
                if (not spare) s->f.wait();
                subs.push_back(std::move(s));
            }
            for (auto &s : subs) ans.push_back(s->f.get());
            S.commit(std::move(t));
        }
        for (auto &s : subs) { errs.push_back(has_error(s->err.str())); C.out << s->out.str(); }
    }
    { Quiet q; for (size_t u = from; u < to; ++u) { Unit &U = (*units)[u]; U.answered = step(); U.fault = fault_total() != f0; U.err.assign(errs.begin(), errs.end()); U.answers = ans; U.batch_end = u + 1 == to; std::string o; { Sys s; o = C.out.str(); } U.out = confirmations(o.c_str()); std::string e; { Sys s; e = C.err.str(); } log("c%d answered: %s| %s", U.client, U.out.c_str(), e.substr(0, 300).c_str()); } }
}

// ====================================================================================================== linearization
struct Block { std::vector<std::string> rows; };
struct Search {
    std::vector<std::vector<Unit*>> by; std::vector<Block> blocks; std::unordered_set<uint64_t> seen; uint64_t nodes = 0;
    size_t best = 0; std::string best_why; size_t total = 0;
    struct State { Model M; std::vector<size_t> pos; size_t block = 0; std::vector<bool> err; std::vector<std::string> out; };
    static std::string key(const std::string &row, int n) { size_t p = 0; bool text = false; for (; n and p < row.size(); ++p) { if (row[p] == '"') text = not text; else if (row[p] == ',' and not text) --n; } return n ? row : row.substr(0, p); }
    static std::string normalised(const Expect &e, const std::string &row) {
        std::string out, cell; size_t i = 0; bool text = false; auto put = [&] { if (i) out += ','; if (e.star.count(i)) out += '*'; else if (e.approx.count(i) and cell != "NULL") out += query::text(query::Flt(atof(cell.c_str())), true); else out += cell; ++i; cell.clear(); };
        for (char c : row) { if (c == '"') text = not text; if (c == ',' and not text) put(); else cell += c; } put(); return out;
    }
    static bool match(const Expect &e, std::vector<std::string> got) {
        if (e.any) return true;
        if (e.rows.size() != got.size()) return false;
        if (not e.star.empty() or not e.approx.empty()) for (auto &g : got) g = normalised(e, g);
        std::vector<std::string> w = e.rows;
        if (e.ordered) {    // rows with equal sort keys may come in any order, and the limit may cut between them
            for (size_t i = 0; i < w.size(); ++i) if (key(w[i], e.keycols) != key(got[i], e.keycols)) return false;
            w = e.pool; std::sort(w.begin(), w.end()); std::sort(got.begin(), got.end()); return std::includes(w.begin(), w.end(), got.begin(), got.end());
        }
        std::sort(w.begin(), w.end()); std::sort(got.begin(), got.end());
        for (size_t i = 0; i < w.size(); ++i) { if (w[i] == got[i]) continue; if (auto k = w[i].find('*'); k != std::string::npos and got[i].compare(0, k, w[i], 0, k) == 0) continue; return false; }
        return true;
    }
    void why(const State &s, const std::string &txt) { size_t n = 0; for (auto p : s.pos) n += p; if (n >= best) { if (n > best) best_why.clear(); best = n; if (best_why.size() < 3000 and best_why.find(txt) == best_why.npos) best_why += "\n  " + txt; } }
    bool apply(State &s, Unit &U, size_t c, int variant) {
        std::string out;
        for (size_t i = 0; i < U.st.size(); ++i) {
            auto &q = U.st[i]; Expect e;
            if (variant & 1 << std::min<size_t>(i, 20)) {           // failed for lack of resources: without effect
                Model copy = s.M; e = step_model(copy, q, *sch); if (e.error) return false; e = Expect{}; e.error = true;
            } else e = step_model(s.M, q, *sch);
            std::string id = "client " + std::to_string(U.client) + ": " + sql(q, *sch);
            if (q.kind == "raw" and s.block < blocks.size()) { std::string t; for (auto &r : blocks[s.block].rows) t += " " + r; log("answer to %s: {%s }", id.c_str(), t.c_str()); }
            if (e.select) {
                if (s.block >= blocks.size()) { why(s, id + " - no answer was printed"); return false; }
                if (not match(e, blocks[s.block].rows)) { std::string t = id + " - expected {"; for (auto &r : e.rows) t += " " + r; t += " }, the next answer is {"; for (auto &r : blocks[s.block].rows) t += " " + r; why(s, t + " }"); return false; }
                ++s.block;
            }
            if (U.via == 'T' or U.via == 'Q') {
                if (U.err[i] != e.error) { why(s, id + (e.error ? " - must be rejected, but was not" : " - was rejected without reason")); return false; }
                if (i < U.answers.size() and U.answers[i] and e.error) { why(s, id + " - failed, but was reported as successful"); return false; }
                if (i < U.answers.size() and not U.answers[i] and not e.error) { why(s, id + " - succeeded, but was reported as failed"); return false; }
            } else s.err[c] = s.err[c] or e.error;
            out += e.out;
        }
        s.out[c] += out;
        if (U.batch_end) {
            if ((U.via == 'P' or U.via == 'B') and U.err[0] != s.err[c]) { why(s, "client " + std::to_string(U.client) + ": " + sql(U.st.back(), *sch) + (s.err[c] ? " - must be rejected, but was not" : " - was rejected without reason")); return false; }
            if (U.out != s.out[c]) { why(s, "client " + std::to_string(U.client) + ": confirmations '" + U.out + "' instead of '" + s.out[c] + "'"); return false; }
            s.err[c] = false; s.out[c].clear();
        } else if (U.out.compare(0, s.out[c].size(), s.out[c]) != 0) return false;
        return true;
    }
    bool dfs(State &s) {
        size_t done = 0; for (auto p : s.pos) done += p;
        if (done == total) { if (s.block == blocks.size()) return true; why(s, "an answer that belongs to no statement"); return false; }
        uint64_t h = mix(hash_model(s.M), s.block); for (size_t c = 0; c < s.pos.size(); ++c) { h = mix(h, s.pos[c] * 2 + s.err[c]); h = mix(h, hs(s.out[c])); }
        if (not seen.insert(h).second) return false;
        if (++nodes > 200000) inconclusive("search for a serial order exceeded its bound");
        uint64_t first = UINT64_MAX; for (size_t c = 0; c < by.size(); ++c) if (s.pos[c] < by[c].size()) first = std::min(first, by[c][s.pos[c]]->answered);
        for (size_t c = 0; c < by.size(); ++c) {
            if (s.pos[c] >= by[c].size()) continue; Unit &U = *by[c][s.pos[c]];
            if (U.invoked > first) continue;             // somebody else's statement was answered before this one was issued
            int nv = 1; if (U.fault) nv = 1 << std::min<size_t>(U.st.size(), 8);
            for (int v = 0; v < nv; ++v) {
                if (v and (U.via == 'T' or U.via == 'Q')) { bool fits = true; for (size_t i = 0; i < U.st.size(); ++i) fits = fits and (U.err[i] or not (v >> i & 1)); if (not fits) continue; }
                State n = s; if (not apply(n, U, c, v)) continue; ++n.pos[c]; if (dfs(n)) return true; }
        }
        return false;
    }
};

// ====================================================================================================== workload
void init()
{
    auto &C = m::Catalog::Get();
    C.register_instruction<simlookup>(C.pool("simlookup"), "simulation: index look-up");
    m::Options::Get().quiet = false;
}

void generate(Plan &p, Rng &r, int tier)
{
    const char *fe = getenv("SIM_FOCUS"); std::string focus = fe ? fe : "";
    bool queries = focus.empty() and r.chance(1, 4); int nc = 1 + r.below(queries ? 2 : 4); if (r.chance(1, 12)) nc = 1; bool mvcc = focus == "mvcc" or r.chance(1, focus == "index" ? 6 : 4);
    const char *layouts[] = { "PAX4M", "PAX4K", "PAX64K", "PAX16Tup", "PAX128Tup", "Row" };
    const char *pes[] = { "DPccp", "DPsize", "DPsizeOpt", "DPsizeSub", "DPsub", "DPsubOpt", "GOO", "TDGOO", "TDbasic", "TDMinCutAGaT" };
    int ndb = 1 + (r.chance(1, 3) ? 1 + r.below(2) : 0), ntab = 1 + r.below(3);
    p.conf = { "focus " + (focus.empty() ? std::string("-") : focus), "clients " + std::to_string(nc), "layout " + std::string(layouts[r.below(6)]), "pe " + std::string(pes[r.below(10)]), "mvcc " + std::to_string(int(mvcc)),
               "pt " + std::to_string(r.below(3)), "faults " + std::to_string(focus == "reject" and r.chance(1, 2) ? 20 + r.below(250) : 0), "store " + std::string(r.chance(1, 4) ? "RowStore" : r.chance(1, 4) ? "ColumnStore" : "PaxStore") };
    std::string letters = "ihklsvbdtfg";
    Schemas S;
    for (int t = 0; t < 3; ++t) { std::string c; int n = r.below(focus == "index" ? 4 : r.chance(1, 5) ? 6 : 3); for (int i = 0; i < n; ++i) { char l = letters[r.below(letters.size())]; c += r.chance(1, 3) ? char(l - 32) : l; } S["T" + std::to_string(t)] = c; p.conf.push_back("table T" + std::to_string(t) + " " + (c.empty() ? "-" : c)); }
    auto tab = [&] { return "T" + std::to_string(r.below(ntab)); }; auto db = [&] { return "D" + std::to_string(r.below(ndb)); };
    int next_id = 1, next_file = 0, gmax = 1 + r.below(5), seedv = r.below(100000);
    auto rows = [&](int n) { std::string s; for (int i = 0; i < n; ++i) s += (i ? ";" : "") + std::to_string(r.chance(1, focus == "index" ? 3 : 8) ? int64_t(r.below(20)) - 5 : next_id++) + ":" + (r.chance(1, 5) ? "N" : std::to_string(r.below(gmax))) + ":" + std::to_string(seedv++); return s; };
    bool ddl_heavy = not queries and r.chance(1, 4); int bad_pct = focus == "reject" ? 35 : r.chance(1, 3) ? 10 : 0; int ix_pct = focus == "index" ? 45 : r.chance(1, 3) ? 10 : 0;
    auto stmt = [&]() -> std::string {
        if (int(r.below(100)) < bad_pct) return r.chance(1, 6) ? "bin " + tab() + " " + rows(1 + r.below(4)) : "bad " + std::to_string(r.below(bad().size()));
        if (int(r.below(100)) < ix_pct) {
            std::string t = tab(), c = S[t]; std::string col = c.empty() or r.chance(1, 2) ? (r.chance(1, 2) ? "id" : "g") : "p" + std::to_string(r.below(c.size())), m = r.chance(1, 2) ? "array" : "rmi";
            char l = col[0] == 'p' ? c[atoi(col.c_str() + 1)] | 0x20 : 'i';
            switch (r.below(8)) {
                case 0: case 1: case 2: { if (strchr("svb", l) and focus != "reject" and not r.chance(1, 10)) m = "array"; return "cix I" + std::to_string(r.below(4)) + " " + t + " " + col + " " + (m == "array" and r.chance(1, 3) ? "def" : m) + (r.chance(1, 4) ? " 1" : " 0"); }
                case 3: return "dix I" + std::to_string(r.below(4)) + (r.chance(1, 3) ? " 1" : " 0");
                default: { if (strchr("svb", l)) m = "array"; int64_t lo = int64_t(r.below(24)) - 6; if (r.chance(1, 8)) lo = r.chance(1, 2) ? int64_t(r.below(1200)) - 600 : r.chance(1, 2) ? int64_t(r.below(4294967295u)) - 2147483647 : type(l).vals.size() ? atoll(type(l).vals[r.below(type(l).vals.size())].sql) : lo; int64_t hi = r.chance(1, 2) ? lo : r.chance(1, 6) ? lo - 3 : lo + int64_t(r.below(20)); if (strchr("svbdtfg", l)) lo = hi = int64_t(r.below(6)); return "lk " + t + " " + col + " " + m + " " + std::to_string(lo) + " " + std::to_string(hi); }
            }
        }
        int w = r.below(100);
        if (w < (ddl_heavy ? 30 : 6)) {
            switch (r.below(8)) {
                case 0: return "cdb " + db(); case 1: return r.chance(1, 2) ? "ddb " + db() : "cdb " + db(); case 2: return "use " + db();
                case 3: case 4: return "ct " + tab(); case 5: return "dt " + tab() + " 0"; case 6: return "dt " + tab() + " 1"; default: { auto a = tab(), b = tab(); return "dt " + a + (r.chance(1, 2) ? " 1 " : " 0 ") + b; }
            }
        }
        if (queries and w < 46) w = 60;                                        // mostly queries
        if (w < 12) return "nop"; else if (w < 48) return "ins " + tab() + " " + rows(1 + r.below(r.chance(1, 6) ? 30 : 4));
        if (focus == "index" and r.chance(1, 6)) { int kind = r.below(5); return "imp " + tab() + " *" + std::to_string(20 + r.below(kind == 3 or not r.chance(1, 3) ? 60 : 400)) + ":" + std::to_string(kind) + ":" + std::to_string(seedv++) + " " + std::to_string(next_file++) + " 0"; }
        if (w < 54) return "imp " + tab() + " " + rows(1 + r.below(r.chance(1, 5) ? 40 : 5)) + " " + std::to_string(next_file++) + (r.chance(1, 3) ? " 1" : " 0");
        if (queries ? not r.chance(1, 5) : r.chance(2, 5)) return "gq " + tab() + " " + std::to_string(seedv++ * 1000003ull) + " " + tab() + " " + tab();
        return "sel " + tab() + " " + std::to_string(r.below(28)) + " " + std::to_string(r.below(6)) + " " + std::to_string(r.below(8)) + " " + tab() + " " + tab();
    };
    // prologue: one client sets up databases and tables (part of the history, so that the minimiser can shorten it)
    p.ops.push_back("0 P cdb D0"); p.ops.push_back("0 P use D0"); for (int t = 0; t < ntab; ++t) if (not r.chance(1, 12)) p.ops.push_back("0 P ct T" + std::to_string(t));
    if (queries) for (int t = 0; t < ntab; ++t) p.ops.push_back("0 P ins T" + std::to_string(t) + " " + rows(r.chance(1, 6) ? 50 + r.below(100) : 1 + r.below(12)));
    p.ops.push_back("0 - sync");
    int ops = queries ? nc * (8 + r.below(tier ? 30 : 16)) : nc * (2 + r.below(tier ? 14 : 8));
    for (int i = 0; i < ops; ++i) {
        int c = i < nc ? i : int(r.below(nc)); std::string cs = std::to_string(c); int v = r.below(10);
        if (v < 4) p.ops.push_back(cs + " P " + stmt());
        else if (v < 6) { int n = 2 + r.below(4); for (int k = 0; k < n; ++k) { std::string t; do t = stmt(); while (t.compare(0, 4, "bad ") == 0 and bad()[atoi(t.c_str() + 4)][0] == '~'); p.ops.push_back(cs + " B " + t); } p.ops.push_back(cs + " - end"); }
        else if (v < 8) p.ops.push_back(cs + " Q " + stmt());
        else if (v < 9 or focus == "mvcc") { int n = 1 + r.below(4); for (int k = 0; k < n; ++k) p.ops.push_back(cs + " T " + stmt()); p.ops.push_back(cs + " - end"); }
        else p.ops.push_back(cs + " - think " + std::to_string(1 + r.below(5)));
    }
    Knobs &k = p.knobs; k.mem_gap = 0;
    switch (r.below(4)) {
        case 0: k.pct_depth = 1 + r.below(6); k.pct_len = 3000 + r.below(60000); break;
        case 1: k.sync_pct = 5 + r.below(30); break;
        case 2: k.sync_pct = 20 + r.below(60); break;
        case 3: k.sync_pct = 10 + r.below(40); k.mem_gap = 200 + r.below(20000); break;
    }
    if (r.chance(1, 4)) k.spurious_pm = 50 + r.below(300);
    k.step_cap = 60'000'000; k.fair = 400'000;
}

void run(const Plan &p)
{
    std::map<std::string, std::string> conf; sch = new Schemas; units = new std::vector<Unit>; files = new std::map<int, int>; answers = new std::string;
    for (auto &c : p.conf) { std::istringstream s(c); std::string k, v, w; s >> k >> v; if (k == "table") { s >> w; (*sch)[v] = w == "-" ? "" : w; } else conf[k] = v; }
    int nc = std::max(1, atoi(conf["clients"].c_str())), faults = atoi(conf["faults"].c_str());
    // parse the plan
    struct Item { bool pause; size_t from, to; int n; };
    std::vector<std::vector<Item>> scripts(nc + 1); std::vector<Item> prologue; std::vector<std::vector<size_t>> open(nc); bool synced = false; bool has_sync = false;
    for (auto &o : p.ops) if (o.find(" - sync") != o.npos) has_sync = true;
    struct Pre { int c; char via; std::vector<St> st; bool pause = false; int n = 0; bool more = false; };
    std::vector<std::vector<Pre>> pre(nc + 1); std::vector<char> last(nc, 0); std::vector<Pre> pro;
    for (auto &o : p.ops) {
        std::istringstream s(o); int c; std::string via; St q; std::string x; if (not (s >> c >> via >> q.kind)) continue; while (s >> x) q.a.push_back(x);
        if (c >= nc) continue;
        if (via == "-") { if (q.kind == "sync") { synced = true; last.assign(nc, 0); } else if (q.kind == "think") { Pre P{ c, '-' }; P.pause = true; P.n = q.num(0); pre[c].push_back(P); last[c] = 0; } else last[c] = 0; continue; }
        Pre P{ c, via[0], { q } };
        auto &dst = (has_sync and not synced) ? pro : pre[c];
        if (&dst == &pre[c] and last[c] == via[0] and via[0] == 'T' and not dst.empty()) dst.back().st.push_back(q);
        else { if (&dst == &pre[c] and last[c] == via[0] and via[0] == 'B' and not dst.empty()) dst.back().more = true; dst.push_back(P); }
        last[c] = &dst == &pre[c] ? via[0] : 0;
    }
    auto layout = [&](std::vector<Pre> &v, std::vector<Item> &items) {
        for (size_t i = 0; i < v.size(); ++i) {
            if (v[i].pause) { items.push_back({ true, 0, 0, v[i].n }); continue; }
            size_t from = units->size(); size_t j = i; for (;; ++j) { units->push_back(Unit{ v[j].c, v[j].via, v[j].st }); if (not v[j].more or j + 1 >= v.size()) break; }
            items.push_back({ false, from, units->size(), 0 }); i = j;
        }
    };
    layout(pro, prologue); for (int c = 0; c < nc; ++c) layout(pre[c], scripts[c]);
    // epilogue: read everything back
    size_t audit_from = units->size();
    for (int d = 0; d < 3; ++d) { units->push_back(Unit{ nc, 'P', { St{ "use", { "D" + std::to_string(d) } } } }); for (auto &[t, c] : *sch) { units->push_back(Unit{ nc, 'P', { St{ "sel", { t, "0" } } } }); } }
    // files to import
    for (auto &U : *units) for (auto &q : U.st) if (q.kind == "imp") {
        std::string body = q.num(3) ? "id,g,some,header\n" : ""; auto c = (*sch)[q.s(0)];
        for (auto &r : rows_of(q.s(1), c)) { body += std::to_string(r.id) + "," + (r.g ? std::to_string(*r.g) : ""); for (size_t i = 0; i < c.size(); ++i) body += "," + (r.p[i] < 0 ? std::string() : std::string(type(c[i]).vals[r.p[i]].dsv)); body += "\n"; }
        if (q.num(3)) { std::string h = "id,g"; for (size_t i = 0; i < c.size(); ++i) h += ",p" + std::to_string(i); body = h + body.substr(body.find('\n')); }
        int fd = int(syscall(SYS_memfd_create, "dsv", 0)); if (write(fd, body.data(), body.size()) < 0) { } { int f = dup2(fd, 600 + int(q.num(2))); close(fd); fd = f; } (*files)[q.num(2)] = fd;
    }
    // a join over many equal keys may take more steps than a run is allowed
    { std::map<std::string, double> n; double pairs = 0; for (auto &U : *units) for (auto &q : U.st) if (q.kind == "ins" or q.kind == "imp") n[q.s(0)] += rows_of(q.s(1), "").size();
      for (auto &U : *units) for (auto &q : U.st) if (q.kind == "sel") { int v = q.num(1); double t = n[q.s(0)], u = n[q.s(4)]; if (v == 5 or v == 10 or v == 15 or v == 22) pairs += t * u; if (v == 6 or v == 26) pairs += t * t; if (v == 11) pairs += t * u * n[q.s(5)]; }
      for (auto &U : *units) for (auto &q : U.st) if (q.kind == "gq") { auto G = generated(q, *sch); if (G.joins) { double c = 1; for (auto &t : G.tables) c *= std::max(1., n[t]); pairs += c; } }
      cap_inconclusive = pairs > 30000; }
    CaptureBuf buf; std::streambuf *old = nullptr;
    { Sys s; auto &C = m::Catalog::Get(); C.default_data_layout(C.pool(conf["layout"].c_str())); C.default_plan_enumerator(C.pool(conf["pe"].c_str()));
      if (not conf["store"].empty()) C.default_store(C.pool(conf["store"].c_str()));
      m::Options::Get().plan_table_type = m::Options::PlanTableType(atoi(conf["pt"].c_str()));
      if (atoi(conf["mvcc"].c_str())) C.table_factory(C.apply_table_property(C.pool("multi-versioning"), std::make_unique<m::ConcreteTableFactory>()));
      old = std::cout.rdbuf(&buf); }
    { Sys s; for (auto &i : prologue) issue(i.from, i.to, 0); }
    if (faults) { sysfaults.mmap_pm = faults; sysfaults.memfd_pm = faults; sysfaults.ftruncate_pm = faults; }
    std::vector<int> tids;
    for (int c = 0; c < nc; ++c) tids.push_back(spawn([&, c] { for (auto &i : scripts[c]) { if (i.pause) sleep_ns(1000 * i.n); else issue(i.from, i.to, int(i.from & 1)); } }));
    for (int t : tids) join(t);
    sysfaults = SysFaults{};
    { Sys s; for (size_t u = audit_from; u < units->size(); ++u) issue(u, u + 1, 0); std::cout.rdbuf(old); }
    // ---- explain the history
    Search X; X.by.resize(nc + 1); for (auto &U : *units) X.by[U.client].push_back(&U); X.total = units->size();
    { std::istringstream in(*answers); std::string l; Block b; while (std::getline(in, l)) { size_t n = l.size(); bool end = n > 5 and l.compare(n - 5, 5, " rows") == 0 and isdigit((unsigned char) l[0]) and l.find_first_not_of("0123456789") == n - 5; if (end) { if (size_t(atoll(l.c_str())) != b.rows.size()) violation("answer", "an answer of %zu rows is announced as '%s'", b.rows.size(), l.c_str()); X.blocks.push_back(b); b = Block{}; } else b.rows.push_back(l); }
      if (not b.rows.empty()) violation("answer", "an incomplete answer: %s", b.rows[0].c_str()); }
    // rows of the same unit order: prologue units belong to client 0 and come first
    for (auto &v : X.by) std::stable_sort(v.begin(), v.end(), [](Unit *a, Unit *b) { return a->invoked < b->invoked; });
    Search::State s0; s0.pos.resize(nc + 1); s0.err.resize(nc + 1); s0.out.resize(nc + 1);
    log("%zu answers, %zu units", X.blocks.size(), X.total);
    uint64_t overlap = 0; for (auto &a : *units) for (auto &b : *units) if (&a < &b and a.client != b.client and a.invoked < b.answered and b.invoked < a.answered) ++overlap;
    count("statements", X.total); count("overlapping statements", overlap); count("answers", X.blocks.size());
    for (auto &U : *units) for (auto &q : U.st) count(("stmt." + q.kind).c_str());
    if (not X.dfs(s0)) violation("serial-order", "no serial order of the statements explains what the clients saw; after %zu of %zu statements: %s", X.best, X.total, X.best_why.c_str());
    state(hash_model(s0.M));
}
Harness H{ "db", init, generate, run, 60 };
}
extern "C" Harness *sim_harness() { return &H; }
