// Generated SELECT statements and their meaning: a query is a pure function of a seed and of the tables' column types;
// the generator builds its SQL text and, at the same time, closures that evaluate it over a list of rows.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <iomanip>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace query {

struct Rng { uint64_t s; uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } unsigned below(unsigned n) { return n ? unsigned(next() % n) : 0; } bool chance(unsigned a, unsigned b) { return below(b) < a; } };

// n NULL, i integer, b boolean, s string, o date or date-time, f floating point, * no agreed value
struct Val { char k = 'n'; int64_t i = 0; double d = 0; std::string s; };
inline Val Null() { return {}; }
inline Val Int(int64_t i) { Val v; v.k = 'i'; v.i = i; return v; }
inline Val Bool(bool b) { Val v; v.k = 'b'; v.i = b; return v; }
inline Val Str(std::string s) { Val v; v.k = 's'; v.s = std::move(s); return v; }
inline Val Opq(std::string s) { Val v; v.k = 'o'; v.s = std::move(s); return v; }
inline Val Flt(double d) { Val v; v.k = 'f'; v.d = d; return v; }
struct Unknown { };                                                           // evaluation depends on a value nobody agrees on
struct Refused { };                                                           // the statement has to be refused
inline int cmp(const Val &a, const Val &b) {
    if (a.k == '*' or b.k == '*') throw Unknown{};
    if (a.k == 'f' or b.k == 'f') { double x = a.k == 'f' ? a.d : double(a.i), y = b.k == 'f' ? b.d : double(b.i); return x < y ? -1 : x > y; }
    if (a.k == 's' or a.k == 'o') return a.s < b.s ? -1 : a.s > b.s;
    return a.i < b.i ? -1 : a.i > b.i;
}
inline std::string text(const Val &v, bool approx) {
    std::ostringstream o;
    switch (v.k) { case 'n': return "NULL"; case 'i': return std::to_string(v.i); case 'b': return v.i ? "TRUE" : "FALSE"; case 's': return '"' + v.s + '"'; case 'o': return v.s; case '*': return "*";
        default: if (approx) { char b[64]; snprintf(b, sizeof b, "~%.6f", v.d + 1.234567891e-7); return b; } o << std::setprecision(16) << v.d; return o.str(); }
}
using Rec = std::vector<Val>;
// ty: i small integer, I any integer, b, s, o, f; sub: what may be compared with each other
struct Exp { std::string sql; char ty = 'i'; char sub = 'i'; unsigned mask = 0; bool approx = false; std::function<Val(const Rec&)> f; };
struct Out { std::string name; char ty, sub; bool approx; std::vector<std::string> lits; };
struct Rel { std::vector<Rec> rows; };
using Base = std::function<bool(const std::string&, Rel&)>;                   // rows of a table; false: no such table
// the columns of a table
using Columns = std::function<std::vector<Out>(const std::string&)>;

struct Query {
    std::string sql; std::vector<Out> out; double cost = 0; bool joins = false;
    std::vector<std::string> tables;
    int keys = 0; std::vector<bool> desc; int64_t limit = -1, offset = 0;      // ordered by the first `keys` columns
    std::function<Rel(const Base&)> eval;                                      // all rows, neither ordered nor limited
};

inline bool like(const std::string &s, const std::string &p, size_t i = 0, size_t j = 0) {
    if (j == p.size()) return i == s.size();
    if (p[j] == '%') { for (size_t k = i; k <= s.size(); ++k) if (like(s, p, k, j + 1)) return true; return false; }
    return i < s.size() and (p[j] == '_' or p[j] == s[i]) and like(s, p, i + 1, j + 1);
}

struct Gen {
    Rng r; const Columns &columns; std::vector<std::string> names; int alias = 0;
    struct Col { std::string ref; Out o; unsigned src; size_t idx; };
    std::vector<Col> scope;

    Exp col(const Col &c) { Exp e; e.sql = c.ref; e.ty = c.o.ty; e.sub = c.o.sub; e.mask = 1u << c.src; e.approx = c.o.approx; size_t i = c.idx; e.f = [i](const Rec &t) { return t[i]; }; return e; }
    const Col *pick(const std::string &kinds, unsigned mask) { std::vector<const Col*> v; for (auto &c : scope) if (kinds.find(c.o.ty) != kinds.npos and (mask >> c.src & 1) and not c.o.approx) v.push_back(&c); return v.empty() ? nullptr : v[r.below(v.size())]; }
    Exp lit(int64_t v) { Exp e; e.sql = std::to_string(v); if (v < 0) e.sql = "(" + e.sql + ")"; e.f = [v](const Rec&) { return Int(v); }; return e; }
    Exp integer(int depth, unsigned mask) {
        unsigned w = depth > 0 ? r.below(10) : r.below(5);
        if (w < 4) { if (auto c = pick("i", mask)) return col(*c); }
        if (w < 5) return lit(int64_t(r.below(13)) - 4);
        if (w == 5) { Exp a = integer(depth - 1, mask); Exp e = a; e.sql = "(-" + a.sql + ")"; auto f = a.f; e.f = [f](const Rec &t) { Val v = f(t); if (v.k == 'i') v.i = -v.i; return v; }; return e; }
        Exp a = integer(depth - 1, mask), b; char op = "+-*/%"[r.below(5)];
        if (op == '/' or op == '%') b = lit(r.chance(1, 3) ? -2 - int64_t(r.below(3)) : 1 + int64_t(r.below(4))); else b = integer(depth - 1, mask);
        Exp e; e.sql = "(" + a.sql + " " + op + " " + b.sql + ")"; e.mask = a.mask | b.mask; auto f = a.f, g = b.f;
        e.f = [f, g, op](const Rec &t) { Val x = f(t), y = g(t); if (x.k == '*' or y.k == '*') throw Unknown{}; if (x.k == 'n' or y.k == 'n') return Null();
            switch (op) { case '+': return Int(x.i + y.i); case '-': return Int(x.i - y.i); case '*': return Int(x.i * y.i); case '/': return Int(x.i / y.i); default: return Int(x.i % y.i); } };
        return e;
    }
    Exp compare(const Exp &a, const Exp &b, int op) {
        static const char *ops[] = { "=", "!=", "<", "<=", ">", ">=" }; Exp e; e.ty = e.sub = 'b'; e.sql = "(" + a.sql + " " + ops[op] + " " + b.sql + ")"; e.mask = a.mask | b.mask; auto f = a.f, g = b.f;
        e.f = [f, g, op](const Rec &t) { Val x = f(t), y = g(t); if (x.k == '*' or y.k == '*') throw Unknown{}; if (x.k == 'n' or y.k == 'n') return Null(); int c = cmp(x, y); switch (op) { case 0: return Bool(c == 0); case 1: return Bool(c != 0); case 2: return Bool(c < 0); case 3: return Bool(c <= 0); case 4: return Bool(c > 0); default: return Bool(c >= 0); } };
        return e;
    }
    Exp constant(const Out &o) {                                              // a literal that may be compared with such a column
        Exp e; e.ty = o.ty; e.sub = o.sub; std::string l = o.lits[r.below(o.lits.size())]; e.sql = l; Val v;
        switch (o.ty) { case 'i': case 'I': v = Int(atoll(l.c_str())); if (l[0] == '-') e.sql = "(" + l + ")"; break; case 'b': v = Bool(l == "TRUE"); break; case 's': v = Str(l.substr(1, l.size() - 2)); break; case 'o': v = Opq(l.substr(2, l.size() - 3)); break; default: v = Flt(atof(l.c_str())); if (l[0] == '-') e.sql = "(" + l + ")"; }
        e.f = [v](const Rec&) { return v; }; return e;
    }
    Exp boolean(int depth, unsigned mask) {
        unsigned w = depth > 0 ? r.below(16) : r.below(9);
        if (w >= 9 and w < 15) {
            if (w < 11) { Exp a = boolean(depth - 1, mask); Exp e = a; e.sql = "(NOT " + a.sql + ")"; auto f = a.f; e.f = [f](const Rec &t) { Val v = f(t); if (v.k == '*') throw Unknown{}; if (v.k == 'b') v.i = not v.i; return v; }; return e; }
            bool conj = w & 1; Exp a = boolean(depth - 1, mask), b = boolean(depth - 1, mask), e; e.ty = e.sub = 'b'; e.sql = "(" + a.sql + (conj ? " AND " : " OR ") + b.sql + ")"; e.mask = a.mask | b.mask; auto f = a.f, g = b.f;
            e.f = [f, g, conj](const Rec &t) { Val x = f(t), y = g(t); if (x.k == '*' or y.k == '*') throw Unknown{}; if (conj) { if ((x.k == 'b' and not x.i) or (y.k == 'b' and not y.i)) return Bool(false); if (x.k == 'n' or y.k == 'n') return Null(); return Bool(true); }
                if ((x.k == 'b' and x.i) or (y.k == 'b' and y.i)) return Bool(true); if (x.k == 'n' or y.k == 'n') return Null(); return Bool(false); };
            return e;
        }
        if (w == 15 or w == 8) { if (auto c = pick("iIbsof", mask)) { Exp a = col(*c); Exp e; e.ty = e.sub = 'b'; e.sql = "ISNULL(" + a.sql + ")"; e.mask = a.mask; auto f = a.f; e.f = [f](const Rec &t) { Val v = f(t); if (v.k == '*') throw Unknown{}; return Bool(v.k == 'n'); }; return e; } }
        if (w == 7) { if (auto c = pick("b", mask)) return col(*c); }
        if (w == 6) { if (auto c = pick("s", mask)) { Exp a = col(*c), e; static const char *P[] = { "a%", "%", "_", "%e", "a_c%", "", "%_%", "x,_", "z% t_p", "%c%", "_____" }; std::string p = P[r.below(11)]; e.ty = e.sub = 'b'; e.sql = "(" + a.sql + " LIKE \"" + p + "\")"; e.mask = a.mask; auto f = a.f; e.f = [f, p](const Rec &t) { Val v = f(t); if (v.k == '*') throw Unknown{}; if (v.k == 'n') return Null(); return Bool(like(v.s, p)); }; return e; } }
        if (w >= 3) if (auto c = pick("Ibsof", mask)) {
            Exp a = col(*c), b; std::vector<const Col*> v; for (auto &d : scope) if (d.o.sub == c->o.sub and (mask >> d.src & 1) and not d.o.approx) v.push_back(&d);
            b = r.chance(1, 2) or c->o.lits.empty() ? col(*v[r.below(v.size())]) : constant(c->o);
            return r.chance(1, 4) ? compare(b, a, c->o.ty == 'b' ? r.below(2) : r.below(6)) : compare(a, b, c->o.ty == 'b' ? r.below(2) : r.below(6));
        }
        return compare(integer(depth > 0 ? 1 : 0, mask), integer(depth > 0 ? 1 : 0, mask), r.below(6));
    }
    bool has_col(const Exp &e) { return e.mask; }
    Exp boolean_on(int depth, unsigned mask) { for (int i = 0; i < 8; ++i) { Exp e = boolean(depth, mask); if (e.mask) return e; } const Col *c = pick("iIbsof", mask); if (not c) for (auto &x : scope) if (mask >> x.src & 1) c = &x; Exp a = col(*c), e; e.ty = e.sub = 'b'; e.sql = "ISNULL(" + a.sql + ")"; e.mask = a.mask; auto f = a.f; e.f = [f](const Rec &t) { return Bool(f(t).k == 'n'); }; return e; }
    Exp any(unsigned mask) {                                                  // something to select
        unsigned w = r.below(6); if (w == 0) { for (int i = 0; i < 6; ++i) { Exp e = integer(2, mask); if (e.mask) return e; } } if (w == 1) return boolean_on(1, mask);
        std::vector<const Col*> v; for (auto &c : scope) if (mask >> c.src & 1) v.push_back(&c); return col(*v[r.below(v.size())]);
    }
    // aggregates are evaluated over the rows of a group
    struct Agg { Exp e; std::function<Val(const std::vector<const Rec*>&)> f; };
    Agg aggregate(const std::set<std::string> &avoid, bool grouped) {
        for (int tries = 0;; ++tries) {
            unsigned w = tries > 10 ? 0 : r.below(6); Agg a; a.e.sub = a.e.ty = 'I';
            if (w == 0) { a.e.sql = "COUNT()"; a.e.ty = a.e.sub = 'i'; a.f = [](auto &g) { return Int(int64_t(g.size())); }; return a; }
            Exp x; const Col *c = pick(w == 1 ? "iIbsof" : w == 2 ? "iI" : w == 5 ? "if" : "iIf", ~0u); if (not c) continue;
            x = col(*c); if (w >= 2 and c->o.ty == 'i' and r.chance(1, 3)) { x = integer(1, ~0u); if (not x.mask) continue; }
            bool shadowed = false; for (auto &k : avoid) for (size_t p = x.sql.find(k); p != x.sql.npos; p = x.sql.find(k, p + 1)) { char before = p ? x.sql[p - 1] : ' ', after = p + k.size() < x.sql.size() ? x.sql[p + k.size()] : ' '; shadowed = shadowed or not (isalnum(before) or before == '.' or isalnum(after)); }
            if (shadowed or (w == 2 and c->o.sub == 'L')) continue;
            auto f = x.f; a.e.ty = x.ty; a.e.sub = x.sub; if (a.e.ty == 'i') a.e.ty = 'I';
            switch (w) {
                case 1: a.e.sql = "COUNT(" + x.sql + ")"; a.e.ty = a.e.sub = 'i'; a.f = [f](auto &g) { int64_t n = 0; for (auto t : g) { Val v = f(*t); if (v.k == '*') throw Unknown{}; n += v.k != 'n'; } return Int(n); }; break;
                case 2: a.e.sql = "SUM(" + x.sql + ")"; a.e.ty = a.e.sub = 'I'; a.f = [f](auto &g) { int64_t n = 0; bool any = false; for (auto t : g) { Val v = f(*t); if (v.k == '*') throw Unknown{}; if (v.k != 'n') n += v.i, any = true; } if (any) return Int(n); Val s; s.k = '*'; return s; }; break;
                case 5: a.e.sql = "AVG(" + x.sql + ")"; a.e.ty = a.e.sub = 'f'; a.e.approx = true; a.f = [f](auto &g) { double n = 0; int64_t k = 0; for (auto t : g) { Val v = f(*t); if (v.k == '*') throw Unknown{}; if (v.k != 'n') n += v.k == 'f' ? v.d : double(v.i), ++k; } if (k) return Flt(n / double(k)); Val s; s.k = '*'; return s; }; break;
                default: { bool mx = w == 3; a.e.sql = std::string(mx ? "MAX(" : "MIN(") + x.sql + ")"; a.f = [f, mx](auto &g) { Val b; for (auto t : g) { Val v = f(*t); if (v.k == '*') throw Unknown{}; if (v.k == 'n') continue; if (b.k == 'n' or (mx ? cmp(v, b) > 0 : cmp(v, b) < 0)) b = v; } return b; }; }
            }
            (void) grouped; return a;
        }
    }
    std::string fresh() { return "q" + std::to_string(alias++); }

    struct Source { std::string sql, alias; std::vector<Out> cols; std::function<Rel(const Base&)> rows; double size = 1; };
    Source source(Query &q, int depth, bool may_be_plain) {
        Source s;
        if (depth > 0 and r.chance(1, 5)) {
            Gen inner{ { r.next() }, columns, names, alias }; auto sub = std::make_shared<Query>(inner.select(depth - 1, true)); alias = inner.alias; s.alias = fresh();
            s.sql = "(" + sub->sql + ")" + (r.chance(1, 2) ? " AS " : " ") + s.alias; s.cols = sub->out; s.rows = [sub](const Base &b) { return sub->eval(b); };
            for (auto &t : sub->tables) q.tables.push_back(t); q.cost += sub->cost; q.joins = q.joins or sub->joins; return s;
        }
        std::string t = names[r.below(names.size())]; q.tables.push_back(t); s.cols = columns(t); s.rows = [t](const Base &b) { Rel R; if (not b(t, R)) throw Refused{}; return R; };
        if (may_be_plain and r.chance(1, 2)) { s.alias = t; s.sql = t; } else { s.alias = fresh(); s.sql = t + (r.chance(1, 2) ? " AS " : " ") + s.alias; }
        return s;
    }
    Query select(int depth, bool nested) {
        Query q; unsigned n = r.chance(3, 5) ? 1 : r.chance(2, 3) ? 2 : 3; if (nested and n > 2) n = 2;
        std::vector<Source> src; size_t at = 0; std::ostringstream o;
        for (unsigned i = 0; i < n; ++i) {
            Source s = source(q, depth, true); for (auto &p : src) if (p.alias == s.alias) { s.alias = fresh(); s.sql = q.tables.back() + " AS " + s.alias; break; }
            bool plain = n == 1 and r.chance(1, 2);
            for (auto &c : s.cols) scope.push_back({ plain ? c.name : s.alias + "." + c.name, c, i, at++ }); src.push_back(std::move(s));
        }
        if (n > 1) q.joins = true;
        // join conditions: every source is connected with an earlier one
        std::vector<Exp> cond;
        for (unsigned i = 1; i < n; ++i) for (int k = 0, m = 1 + (r.chance(1, 5) ? 1 : 0); k < m; ++k) {
            std::vector<std::pair<const Col*, const Col*>> v; for (auto &a : scope) for (auto &b : scope) if (a.src < i and b.src == i and a.o.sub == b.o.sub and not a.o.approx and not b.o.approx and a.o.ty != 'f') v.push_back({ &a, &b });
            if (v.empty()) { std::vector<const Col*> x, y; for (auto &c : scope) { if (c.src < i) x.push_back(&c); if (c.src == i) y.push_back(&c); } return fallback(q, depth, nested); }
            auto [a, b] = v[r.below(v.size())]; int op = k or r.chance(1, 6) ? (a->o.ty == 'b' ? r.below(2) : r.below(6)) : 0; cond.push_back(r.chance(1, 2) ? compare(col(*a), col(*b), op) : compare(col(*b), col(*a), op));
        }
        unsigned all = (1u << n) - 1;
        if (r.chance(1, 2)) for (int k = 0, m = 1 + r.below(2); k < m; ++k) {
            unsigned mask = n == 1 ? 1 : r.chance(2, 3) ? 1u << r.below(n) : n == 3 ? all & ~(1u << r.below(3)) : all; /* no clause of three sources */ cond.push_back(boolean_on(r.below(3), mask)); }
        for (size_t i = cond.size(); i > 1; --i) std::swap(cond[i - 1], cond[r.below(i)]);
        std::string from; for (auto &s : src) from += (from.empty() ? "" : ", ") + s.sql; std::string where; for (auto &c : cond) where += (where.empty() ? " WHERE " : " AND ") + c.sql;
        auto rows = std::make_shared<std::vector<std::function<Rel(const Base&)>>>(); for (auto &s : src) rows->push_back(s.rows); auto preds = std::make_shared<std::vector<Exp>>(cond);
        auto joined = [rows, preds](const Base &b) {
            Rel cur; cur.rows.push_back({});
            std::vector<Rel> in; for (auto &f : *rows) in.push_back(f(b));
            for (unsigned i = 0; i < in.size(); ++i) { Rel nx; for (auto &l : cur.rows) for (auto &x : in[i].rows) { Rec t = l; t.insert(t.end(), x.begin(), x.end()); bool ok = true; for (auto &p : *preds) if (p.mask >> i == 1) { Val v = p.f(t); if (v.k == '*') throw Unknown{}; if (v.k != 'b' or not v.i) { ok = false; break; } } if (ok) nx.rows.push_back(std::move(t)); if (nx.rows.size() > 60000) throw Unknown{}; } cur = std::move(nx); }
            return cur;
        };
        int kind = r.below(10); // 0-4 plain, 5-8 grouped, 9 aggregates only
        if (kind < 5) {
            std::vector<Exp> sel; bool star = n == 1 and not nested and r.chance(1, 10);
            if (star) for (auto &c : scope) sel.push_back(col(c)); else for (int i = 0, m = 1 + r.below(4); i < m; ++i) { Exp e = any(all); bool dup = false; for (auto &s : sel) dup = dup or s.sql == e.sql; if (not dup) sel.push_back(e); }
            o << "SELECT "; if (star) o << "*"; finish(q, o, sel, nested, star);
            o << " FROM " << from << where; order(q, o, sel, nested);
            auto fs = std::make_shared<std::vector<Exp>>(sel);
            q.eval = [joined, fs](const Base &b) { Rel J = joined(b), R; for (auto &t : J.rows) { Rec x; for (auto &e : *fs) x.push_back(e.f(t)); R.rows.push_back(std::move(x)); } return R; };
        } else {
            std::vector<Exp> keys; std::vector<std::string> kn; std::set<std::string> names; bool grouped = kind < 9; std::string by;
            if (grouped) for (int i = 0, m = 1 + r.below(2); i < m; ++i) { Exp k = r.chance(1, 5) ? integer(1, all) : r.chance(1, 8) ? boolean_on(0, all) : any(all); if (not k.mask or k.approx or k.ty == 'f') continue;
                // later clauses refer to a key by its name: its alias, or the name of the column
                bool is_col = false; std::string name; for (auto &c : scope) if (c.ref == k.sql) { is_col = true; name = c.o.name; } if (not is_col or r.chance(1, 5)) name = fresh(), is_col = false;
                if (not names.insert(name).second) continue; keys.push_back(k); kn.push_back(name); by += (by.empty() ? "" : ", ") + k.sql + (is_col ? "" : " AS " + name); }
            if (keys.empty()) grouped = false;
            // the columns used by keys
            auto aggs = std::make_shared<std::vector<Agg>>(); std::vector<Exp> sel;
            auto as_key = [&](size_t i) { Exp e = keys[i]; e.sql = kn[i]; e.f = [i](const Rec &t) { return t[i]; }; return e; };
            size_t nk = keys.size();
            auto agg = [&]() { Agg a = aggregate(names, grouped); size_t i = 0; for (; i < aggs->size(); ++i) if ((*aggs)[i].e.sql == a.e.sql) break; if (i == aggs->size()) aggs->push_back(a); Exp e = a.e; size_t at = nk + i; e.f = [at](const Rec &t) { return t[at]; }; e.mask = 1; return e; };
            for (size_t i = 0; i < nk; ++i) if (r.chance(4, 5)) sel.push_back(as_key(i));
            for (int i = 0, m = (sel.empty() ? 1 : 0) + r.below(4); i < m; ++i) { Exp e = agg(); bool dup = false; for (auto &s : sel) dup = dup or s.sql == e.sql; if (not dup) sel.push_back(e); }
            if (sel.empty()) sel.push_back(agg());
            std::shared_ptr<Exp> having;
            if (grouped and r.chance(1, 3)) {
                Exp h; if (r.chance(2, 3)) { Exp a = agg(); while (a.ty != 'i' and a.ty != 'I') a = agg(); h = compare(a, lit(int64_t(r.below(8)) - 1), r.below(6)); } else { Exp k = as_key(r.below(nk)); if (k.ty == 'i') h = compare(k, lit(r.below(5)), r.below(6)); else { h.ty = h.sub = 'b'; h.sql = "ISNULL(" + k.sql + ")"; auto f = k.f; h.f = [f](const Rec &t) { return Bool(f(t).k == 'n'); }; } }
                if (r.chance(1, 4)) { auto f = h.f; h.sql = "NOT " + h.sql; h.f = [f](const Rec &t) { Val v = f(t); if (v.k == 'b') v.i = not v.i; return v; }; }
                having = std::make_shared<Exp>(h);
            }
            o << "SELECT "; finish(q, o, sel, nested, false); o << " FROM " << from << where; if (grouped) { o << " GROUP BY " << by; } if (having) o << " HAVING " << having->sql;
            if (grouped) order(q, o, sel, nested);
            auto ks = std::make_shared<std::vector<Exp>>(keys), fs = std::make_shared<std::vector<Exp>>(sel);
            q.eval = [joined, ks, aggs, fs, having, grouped](const Base &b) {
                Rel J = joined(b), R; std::map<std::string, std::pair<Rec, std::vector<const Rec*>>> G; if (not grouped) G[""];
                for (auto &t : J.rows) { Rec k; std::string h; for (auto &e : *ks) { k.push_back(e.f(t)); if (k.back().k == '*') throw Unknown{}; h += text(k.back(), false) + "|"; } auto &g = G[h]; g.first = k; g.second.push_back(&t); }
                for (auto &[_, g] : G) { Rec x = g.first; for (auto &a : *aggs) x.push_back(a.f(g.second)); if (having) { Val v = having->f(x); if (v.k == '*') throw Unknown{}; if (v.k != 'b' or not v.i) continue; } Rec y; for (auto &e : *fs) y.push_back(e.f(x)); R.rows.push_back(std::move(y)); }
                return R;
            };
        }
        q.sql = o.str(); return q;
    }
    Query fallback(Query&, int depth, bool nested) { scope.clear(); (void) depth; return select(0, nested); }
    void finish(Query &q, std::ostream &o, std::vector<Exp> &sel, bool nested, bool star) {
        for (size_t i = 0; i < sel.size(); ++i) {
            Out x; x.ty = sel[i].ty; x.sub = sel[i].sub; x.approx = sel[i].approx; for (auto &c : scope) if (c.ref == sel[i].sql) x.lits = c.o.lits; x.name = "c" + std::to_string(alias++);
            if (not star) { o << (i ? ", " : "") << sel[i].sql; if (nested or r.chance(1, 4)) o << (r.chance(1, 2) ? " AS " : " ") << x.name; }
            q.out.push_back(x);
        }
    }
    void order(Query &q, std::ostream &o, std::vector<Exp> &sel, bool nested) {
        if (nested) return;
        if (r.chance(1, 3)) { int m = 1 + r.below(std::min<size_t>(sel.size(), 3)); int k = 0; for (; k < m; ++k) { if (sel[k].approx or not sel[k].mask) break; bool d = r.chance(1, 3); o << (k ? ", " : " ORDER BY ") << sel[k].sql << (d ? " DESC" : r.chance(1, 2) ? " ASC" : ""); q.desc.push_back(d); } q.keys = k; }
        if (r.chance(1, q.keys ? 3 : 10)) { q.limit = 1 + r.below(8); o << " LIMIT " << q.limit; if (r.chance(1, 2)) { q.offset = r.below(5); o << " OFFSET " << q.offset; } }
    }
};

inline Query make(uint64_t seed, const std::vector<std::string> &names, const Columns &columns) { Gen g{ { seed }, columns, names }; return g.select(2, false); }

} // namespace query
