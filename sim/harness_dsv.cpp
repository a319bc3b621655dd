// Imports generated delimiter-separated files into a table of the real system, while reads are short, interrupted or fail,
// and compares the table with what a reference reader finds in the bytes of the file.
#include "sim.hpp"
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/catalog/Catalog.hpp>
#include <mutable/catalog/TableFactory.hpp>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

using namespace sim;
namespace {

const char LETTERS[] = "ihklsvbdtfgeq";
const char *decl(char l)
{
    switch (l | 0x20) { case 'i': return "INT(4)"; case 'h': return "INT(2)"; case 'k': return "INT(1)"; case 'l': return "INT(8)"; case 's': return "CHAR(5)"; case 'v': return "VARCHAR(9)";
        case 'b': return "BOOL"; case 'd': return "DATE"; case 't': return "DATETIME"; case 'f': return "FLOAT"; case 'e': return "DECIMAL(8,2)"; case 'q': return "DECIMAL(18,4)"; default: return "DOUBLE"; }
}
int int_bits(char l) { switch (l | 0x20) { case 'i': return 32; case 'h': return 16; case 'k': return 8; case 'l': return 64; } return 0; }
size_t max_len(char l) { return (l | 0x20) == 's' ? 5 : 9; }

// ---------------------------------------------------------------------------------------------- what a file contains
struct Cfg { char delim = ',', quote = '"', esc = '\\'; int header = 0; long rows = -1; int final_nl = 1; long cut = -1; };
enum CellKind { C_TEXT, C_NULL, C_BAD, C_NUM, C_ANY };      // C_NUM: a floating-point number, C_ANY: malformed, stored as whatever
struct Cell { CellKind k = C_NULL; std::string text; double num = 0; bool single = false; };
enum Diagnosed { D_NO, D_YES, D_MAYBE };
struct ERow { std::vector<Cell> cells; bool absent = false, optional = false; Diagnosed diag = D_NO; };
struct EFile { std::vector<ERow> rows; bool ambiguous = false; };      // ambiguous: nothing is claimed about what follows

struct RefReader {
    const std::string &b; const Cfg &g; const std::string &cols; size_t p = 0;
    int c() const { return p < b.size() ? (unsigned char) b[p] : -1; }
    bool is(char x) const { return c() == (unsigned char) x; }
    bool end_cell() const { return c() == -1 or c() == '\n' or is(g.delim); }
    bool dec() const { return c() >= '0' and c() <= '9'; }
    void skip_cell() { while (not end_cell()) ++p; }
    // a quoted string; p is behind the opening quote
    std::string quoted(bool &open) {
        std::string s; open = false;
        for (;;) {
            if (c() == -1) { open = true; return s; }
            if (g.esc == g.quote) { if (is(g.quote)) { ++p; if (is(g.quote)) { s += b[p++]; continue; } return s; } s += b[p++]; }
            else if (is(g.quote)) { ++p; return s; }
            else if (is(g.esc)) { ++p; if (c() != -1) s += b[p++]; else { open = true; return s; } }
            else s += b[p++];
        }
    }
    bool digits(int n, std::string &s) { for (int i = 0; i < n; ++i) { if (not dec()) return false; s += b[p++]; } return true; }
    bool lit(char x, std::string &s) { if (not is(x)) return false; s += b[p++]; return true; }
    Cell cell(char l, Diagnosed &d, bool &ambiguous) {
        Cell r; auto bad = [&] { r.k = C_BAD; d = D_YES; skip_cell(); return r; };
        l |= 0x20;
        if (int bits = int_bits(l)) {
            bool neg = false; if (is('-')) { neg = true; ++p; } else if (is('+')) ++p;
            __int128 v = 0; bool any = false; while (dec()) { any = true; if (v < (__int128(1) << 100)) v = v * 10 + (c() - '0'); ++p; }
            if (not any or not end_cell()) return bad();
            if (neg) v = -v; __int128 lo = -(__int128(1) << (bits - 1)), hi = (__int128(1) << (bits - 1)) - 1;
            if (v < lo or v > hi) return bad();
            r.k = C_TEXT; r.text = std::to_string((long long) v); return r;
        }
        if (l == 'e' or l == 'q') {                      // stored as, and printed as, a scaled integer
            bool neg = false; if (is('-')) { neg = true; ++p; } else if (is('+')) ++p;
            __int128 v = 0; bool any = false; int n = l == 'e' ? 2 : 4; __int128 mx = l == 'e' ? 99999999 : 999999999999999999ll; auto add = [&](int k) { if (v < (__int128(1) << 100)) v = v * 10 + k; };
            while (dec()) { any = true; add(c() - '0'); ++p; }
            if (is('.')) { ++p; while (dec()) { any = true; if (n) { add(c() - '0'); --n; } ++p; } }
            while (n-- > 0) add(0);
            if (not any or not end_cell() or v > mx) return bad();
            r.k = C_TEXT; r.text = std::to_string((long long) (neg ? -v : v)); return r;
        }
        if (l == 's' or l == 'v') {
            std::string s; bool open = false;
            if (is(g.quote)) { ++p; s = quoted(open); if (open and d == D_NO) d = D_MAYBE; if (not end_cell()) return bad(); }
            else { while (not end_cell()) { if (is(g.quote)) return bad(); s += b[p++]; } }
            if (s.size() > max_len(l) or s.find('\0') != s.npos) { r.k = C_BAD; d = D_YES; return r; }
            r.k = C_TEXT; r.text = '"' + s + '"'; return r;
        }
        if (l == 'b') { std::string s; while (not end_cell()) s += b[p++]; if (s == "TRUE" or s == "FALSE") { r.k = C_TEXT; r.text = s; return r; } r.k = C_BAD; d = D_YES; return r; }
        if (l == 'f' or l == 'g') {
            std::string s; while (not end_cell()) s += b[p++];
            char *e; errno = 0; double v = strtod(s.c_str(), &e); if (s.empty() or e != s.c_str() + s.size()) { r.k = C_BAD; d = D_YES; return r; }
            double mx = l == 'f' ? 3.402823466e38 : 1.7976931348623157e308;
            if (std::isnan(v) or (std::isinf(v) and errno != ERANGE)) { r.k = C_ANY; if (d == D_NO) d = D_MAYBE; return r; }
            if (std::isinf(v) or std::abs(v) > mx) { r.k = C_ANY; d = D_YES; return r; }
            r.k = C_NUM; r.num = v; r.single = l == 'f'; return r;
        }
        // date, date and time
        size_t at = p; std::string s; bool q = is(g.quote); if (q) ++p; bool neg = is('-'); if (neg) ++p;
        bool ok = digits(4, s) and lit('-', s) and digits(2, s) and lit('-', s) and digits(2, s);
        if (ok and l == 't') ok = lit(' ', s) and digits(2, s) and lit(':', s) and digits(2, s) and lit(':', s) and digits(2, s);
        if (ok and q) { ok = is(g.quote); if (ok) ++p; }
        bool junk = false;
        if (ok) {
            int y = 0, m = 0, dd = 0, H = 0, M = 0, S = 0; sscanf(s.c_str(), "%d-%d-%d %d:%d:%d", &y, &m, &dd, &H, &M, &S);
            static const int D[] = { 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
            if (y == 0 or m < 1 or m > 12 or dd < 1 or dd > D[m - 1] or H > 23 or M > 59 or S > 59) ok = false;
            else if (neg or y < 1900 or (m == 2 and dd == 29 and not (y % 4 == 0 and (y % 100 or y % 400 == 0)))) { r.k = C_ANY; if (d == D_NO) d = D_MAYBE; junk = true; }
            else { r.k = C_TEXT; r.text = s; }
        }
        if (not ok) { d = D_YES; r.k = C_BAD; }
        if (not end_cell()) {                            // how much of the cell is skipped is not specified if quotes are involved
            std::string rest; for (size_t i = at; i < b.size() and b[i] != '\n'; ++i) rest += b[i];
            if (rest.find(g.quote) != rest.npos) ambiguous = true;
            if (ok and not junk and d == D_NO) d = D_MAYBE; if (ok) { } skip_cell();
        } else if (not ok and q) ambiguous = true;
        return r;
    }
    EFile file(const std::vector<std::string> &names) {
        EFile F; std::vector<int> map;                   // position in the file -> column of the table, -1: none
        if (g.header & 2) { while (c() != -1 and c() != '\n') ++p; if (c() != -1) ++p; }
        else if (g.header & 1) {
            while (c() != -1 and c() != '\n') {
                std::string n; while (not end_cell()) n += b[p++]; if (is(g.delim)) ++p; int at = -1;
                for (size_t i = 0; i < names.size(); ++i) if (names[i] == n) at = int(i); map.push_back(at); }
            if (c() != -1) ++p;
            for (size_t i = 0; i < map.size(); ++i) for (size_t j = 0; j < i; ++j) if (map[i] >= 0 and map[i] == map[j]) F.ambiguous = true;
            if (map.empty()) F.ambiguous = true;
            if (F.ambiguous) return F;
        }
        if (map.empty()) for (size_t i = 0; i < cols.size(); ++i) map.push_back(int(i));
        while (c() != -1) {
            ERow R; R.cells.resize(cols.size()); bool ambiguous = false, few = false;
            for (size_t i = 0; i < map.size(); ++i) {
                if (i and not is(g.delim)) { few = true; break; }
                if (i) ++p;
                bool last = i + 1 == map.size();
                if (map[i] < 0) { bool open; if (is(g.quote)) { ++p; quoted(open); if (open and R.diag == D_NO) R.diag = D_MAYBE; if (not end_cell() and R.diag == D_NO) R.diag = D_MAYBE; } skip_cell(); continue; }
                if (last ? c() == '\n' or c() == -1 : is(g.delim)) continue;          // NULL
                R.cells[map[i]] = cell(cols[map[i]], R.diag, ambiguous);
            }
            if (few or (c() != -1 and c() != '\n')) { R.absent = true; R.diag = D_YES; while (c() != -1 and c() != '\n') ++p; }
            if (c() != -1) ++p;
            for (size_t i = 0; i < cols.size(); ++i) if (cols[i] < 'a' and (R.cells[i].k == C_NULL or R.cells[i].k == C_BAD)) { R.absent = true; R.diag = D_YES; }
            for (auto &x : R.cells) if (x.k == C_BAD or x.k == C_ANY) R.optional = true;
            if (ambiguous) { F.ambiguous = true; if (R.diag == D_YES) F.rows.push_back(ERow{ {}, true, false, D_YES }); break; }
            F.rows.push_back(R);
        }
        return F;
    }
};

// ---------------------------------------------------------------------------------------------- comparison with the answer
// does the printed row starting at `p` show `R`?  returns the position behind it or npos
size_t match_row(const std::string &s, size_t p, const ERow &R)
{
    for (size_t i = 0; i < R.cells.size(); ++i) {
        if (i) { if (p >= s.size() or s[p] != ',') return s.npos; ++p; }
        const Cell &c = R.cells[i];
        std::string want = c.k == C_TEXT ? c.text : "NULL";
        if (c.k == C_NUM) {
            char *e; double v = strtod(s.c_str() + p, &e); if (e == s.c_str() + p) return s.npos;
            double tol = (c.single ? 2e-6 : 1e-13) * std::abs(c.num) + (c.single ? 1e-37 : 1e-300); if (not (std::abs(v - c.num) <= tol)) return s.npos;
            p = size_t(e - s.c_str());
        } else if (c.k == C_ANY) { while (p < s.size() and s[p] != ',' and s[p] != '\n') ++p; }
        else { if (s.compare(p, want.size(), want)) return s.npos; p += want.size(); }
    }
    if (p >= s.size() or s[p] != '\n') return s.npos;
    return p + 1;
}
std::string show(const ERow &R) { std::string s; for (auto &c : R.cells) s += (s.empty() ? "" : ",") + (c.k == C_TEXT ? c.text : c.k == C_NUM ? std::to_string(c.num) : c.k == C_ANY ? "?" : "NULL"); return R.absent ? "(none)" : s; }

std::string *answers;
struct CaptureBuf : std::streambuf {
    int overflow(int c) override { Quiet q; if (c != EOF) answers->push_back(char(c)); return c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { Quiet q; answers->append(s, size_t(n)); return n; }
};
// system mode
struct Said { std::string out, err; };
Said say(const std::string &sql)
{
    Said r; std::ostringstream out, err; { Quiet q; log("%s", sql.c_str()); }
    { std::istringstream in(sql.c_str()); m::process_stream(in, "-", m::Diagnostic(false, out, err)); }
    { std::string o = out.str(), e = err.str(); Quiet q; r.out = o.c_str(); r.err = e.c_str(); log("answered %s| %s", r.out.c_str(), r.err.substr(0, 500).c_str()); }
    return r;
}
bool diagnosed(const std::string &e) { return e.find("error: ") != e.npos or e.find("warning: ") != e.npos; }

// ---------------------------------------------------------------------------------------------- generation
std::string quote_text(const std::string &s, const Cfg &g)
{
    std::string r(1, g.quote);
    for (char c : s) { if (c == g.quote or (c == g.esc and g.esc != g.quote)) r += g.esc; r += c; }
    return r + g.quote;
}
std::string gen_cell(char l, Rng &r, const Cfg &g, int bad_pct)
{
    bool bad = int(r.below(100)) < bad_pct; l |= 0x20;
    auto pick = [&](std::vector<const char*> v) { return std::string(v[r.below(v.size())]); };
    if (int bits = int_bits(l)) {
        if (bad) switch (r.below(7)) { case 0: return pick({ "x", "1x", "-", "+", "--1", "1-", "0x10", " 1", "1 ", "1.5", "1e3", "\"1\"", "\xff", "1\xff" }); case 1: return pick({ "9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999999", "-18446744073709551615" });
            case 2: return std::to_string((int64_t(1) << (std::min(bits, 62) - 1)) + int64_t(r.below(3)));  case 3: return std::to_string(-(int64_t(1) << (std::min(bits, 62) - 1)) - 1 - int64_t(r.below(300))); default: return pick({ "a", "NULL", "TRUE", "12,5", "12;5" }); }
        switch (r.below(8)) { case 0: return std::to_string((int64_t(1) << (std::min(bits, 63) - 1)) - 1); case 1: return bits == 64 ? pick({ "9223372036854775807", "-9223372036854775808" }) : std::to_string(-(int64_t(1) << (bits - 1))); case 2: return "+" + std::to_string(r.below(100)); case 3: return "00" + std::to_string(r.below(100)); case 4: return "-" + std::to_string(r.below(100)); default: return std::to_string(r.below(120)); }
    }
    if (l == 's' or l == 'v') {
        size_t n = max_len(l); std::string s; size_t len = bad ? (r.chance(1, 2) ? n + 1 + r.below(6) : r.below(n + 1)) : r.chance(1, 3) ? n : r.below(n + 1);
        bool plain = r.chance(1, 2); std::string alpha = plain ? "abcxyzAB019 ._" : std::string("ab \\\n\t'\"") + g.quote + g.esc + g.delim + g.delim + "\xff\x80\x01N";
        for (size_t i = 0; i < len; ++i) s += alpha[r.below(alpha.size())];
        bool need = s.empty(); for (char c : s) need |= c == g.quote or c == g.delim or c == '\n';
        if (bad) switch (r.below(6)) { case 0: return s + g.quote + "b"; case 1: return quote_text(s, g) + "x"; case 2: return quote_text(s, g) + std::string(1, g.quote) + "y" + g.quote; case 3: return std::string(1, g.quote) + s; case 4: return s + std::string(1, '\0') + "q"; }
        return need or r.chance(1, 3) ? quote_text(s, g) : s;
    }
    if (l == 'b') return bad ? pick({ "true", "false", "T", "1", "0", "TRUE ", " FALSE", "TRUEFALSE", "\"TRUE\"", "x" }) : pick({ "TRUE", "FALSE" });
    if (l == 'f' or l == 'g') return bad ? pick({ "x", "1.5x", "1,5", "--1.0", "1e999", "-1e999", "1e", "..5", "\"1.0\"" }) + (l == 'f' and r.chance(1, 4) ? "" : "") : pick({ "0.5", "-1.25", "1e3", "1E-3", "+2.5", "7", "-0", "0.1", "3.4e38", "-3.4e38", "1e-30", "123456.789", ".5", "5.", "1e39", "-1e39", "0x1p4" });
    if (l == 'e' or l == 'q') return bad ? pick({ "x", "-", ".", "-.", "1.2.3", "1,5", "1.5x", "1000000", "-1000000.00", "99999999999999999999", "18446744073709551617.0", "1e3", "100000000000000", "--1", "1.-5" })
        : (r.chance(1, 3) ? pick({ "-", "+" }) : "") + pick({ "0.5", "1.25", "0.01", "12345.67", "12345.678", "999999.99", ".5", "5.", "7", "0", "00012.3400", "0.0001", "0.005" });
    std::string d;
    if (l == 'd') d = bad ? pick({ "2020-13-01", "2020-00-10", "2020-04-31", "2021-02-30", "0000-01-01", "20-01-01", "2020-1-1", "2020/01/01", "x", "2020-01", "2020-01-00", "2020-99-99" }) : pick({ "2020-02-29", "1970-01-01", "9999-12-31", "1999-12-31", "2024-07-05" });
    else d = bad ? pick({ "2020-13-01 00:00:00", "2020-01-01 24:00:00", "2020-01-01 00:60:00", "2020-01-01 00:00:61", "2020-01-01", "2020-01-01T00:00:00", "2020-04-31 01:01:01", "x", "2020-01-01 1:1:1" }) : pick({ "1970-01-01 00:00:01", "2024-12-31 23:59:59", "2020-02-29 12:30:00", "1999-01-01 00:00:00" });
    return r.chance(1, 4) ? g.quote + d + g.quote : d;
}

void init() { m::Catalog::Get(); m::Options::Get().quiet = false; }

char pick_char(Rng &r, const char *s) { return s[r.below(strlen(s))]; }
void generate(Plan &p, Rng &r, int tier)
{
    const char *layouts[] = { "PAX4M", "PAX4K", "PAX64K", "PAX16Tup", "PAX128Tup", "Row" };
    int n = 1 + r.below(r.chance(1, 4) ? 6 : 3); std::string cols; for (int i = 0; i < n; ++i) { char l = LETTERS[r.below(13)]; cols += r.chance(1, 4) ? char(l - 32) : l; }
    int kind = r.below(4);                               // 0: well-formed, nothing fails; 1: damaged files; 2: failing reads; 3: both
    bool dmg = kind & 1, fail = kind & 2;
    p.conf = { "table " + cols, "layout " + std::string(layouts[r.below(6)]), "store " + std::string(r.chance(1, 4) ? "RowStore" : r.chance(1, 4) ? "ColumnStore" : "PaxStore"), "mvcc " + std::to_string(int(r.chance(1, 5))),
               "faults " + std::to_string(r.chance(1, 3) ? 0 : 50 + r.below(700)) + " " + std::to_string(r.chance(1, 3) ? r.below(400) : 0) + " " + std::to_string(fail ? 30 + r.below(500) : 0) + " " + std::to_string(fail and r.chance(1, 4) ? 200 : 0) };
    int files = 1 + r.below(3); int seedv = r.below(100000);
    for (int f = 0; f < files; ++f) {
        for (int k = r.below(3); k; --k) p.ops.push_back("ins " + std::to_string(seedv++));
        Cfg g; g.delim = pick_char(r, ",,,;|:\t~"); g.quote = pick_char(r, "\"\"\"'#"); g.esc = r.chance(1, 2) ? g.quote : pick_char(r, "\\\\^");
        g.header = r.below(4); if (r.chance(1, 2)) g.header = 0; g.rows = r.chance(1, 5) ? r.below(8) : -1; g.final_nl = r.chance(3, 4);
        std::vector<int> map; for (int i = 0; i < n; ++i) map.push_back(i);
        if (g.header == 1) { if (r.chance(1, 2)) for (int i = n - 1; i > 0; --i) std::swap(map[i], map[r.below(i + 1)]); if (n > 1 and r.chance(1, 4)) map.pop_back(); for (int k = r.chance(1, 4) ? 1 + r.below(2) : 0; k; --k) map.insert(map.begin() + r.below(map.size() + 1), -1); }
        std::vector<std::string> lines;
        if (g.header) { std::string h; if (g.header == 1 or r.chance(1, 2)) for (size_t i = 0; i < map.size(); ++i) h += (i ? std::string(1, g.delim) : "") + (map[i] < 0 ? "zz" + std::to_string(i) : "c" + std::to_string(map[i])); else if (r.chance(1, 2)) h = "some header text"; lines.push_back(h); }
        int rows = r.chance(1, 10) ? 0 : 1 + r.below(r.chance(1, 6) ? (tier ? 400 : 120) : 8), bad_pct = dmg ? 5 + r.below(30) : 0, null_pct = r.below(30);
        for (int i = 0; i < rows; ++i) {
            std::string s; size_t m = map.size();
            for (size_t k = 0; k < m; ++k) {
                if (k) s += g.delim;
                if (map[k] < 0) { s += r.chance(1, 3) ? quote_text(r.chance(1, 2) ? std::string("a") + g.delim + g.quote + "b" : "some text", g) : "junk"; continue; }
                if (int(r.below(100)) < null_pct and (cols[map[k]] >= 'a' or r.chance(bad_pct, 100))) continue;
                s += gen_cell(cols[map[k]], r, g, bad_pct);
            }
            if (dmg) { if (r.chance(1, 25)) s += std::string(1, g.delim) + "9"; else if (r.chance(1, 25)) { auto k = s.rfind(g.delim); if (k != s.npos) s.resize(k); } else if (r.chance(1, 40)) s.clear(); else if (r.chance(1, 25) and not s.empty()) { size_t k = r.below(s.size()); if (r.chance(1, 2)) s[k] = char(r.below(256)); else if (r.chance(1, 2)) s.erase(k, 1); else s.insert(k, 1, pick_char(r, ",;\"'\\\n0-x\xff\r")); } }
            lines.push_back(s);
        }
        size_t total = 0; for (auto &l : lines) total += l.size() + 1; if (dmg and r.chance(1, 4)) g.cut = r.below(total + 1);
        std::ostringstream o; o << "import " << int(g.delim) << ' ' << int(g.quote) << ' ' << int(g.esc) << ' ' << g.header << ' ' << g.rows << ' ' << g.final_nl << ' ' << g.cut; p.ops.push_back(o.str());
        for (auto &l : lines) p.ops.push_back("L " + l);
    }
    p.ops.push_back("ins " + std::to_string(seedv++));
    Knobs &k = p.knobs; k.sync_pct = 5 + r.below(40); k.step_cap = 60'000'000; k.fair = 400'000;
}

std::string sqlchar(char c) { return c == '"' ? "\"\\\"\"" : c == '\\' ? "\"\\\\\"" : std::string("\"") + c + "\""; }

void run(const Plan &p)
{
    answers = new std::string; std::map<std::string, std::string> conf; for (auto &c : p.conf) { auto e = c.find(' '); conf[c.substr(0, e)] = c.substr(e + 1); }
    std::string cols = conf["table"]; unsigned f_short = 0, f_intr = 0, f_eio = 0, f_open = 0; sscanf(conf["faults"].c_str(), "%u %u %u %u", &f_short, &f_intr, &f_eio, &f_open);
    std::vector<std::string> names; std::string list; for (size_t i = 0; i < cols.size(); ++i) { names.push_back("c" + std::to_string(i)); list += (i ? ", c" : "c") + std::to_string(i); }
    CaptureBuf buf; std::streambuf *old;
    { Sys s; auto &C = m::Catalog::Get(); C.default_data_layout(C.pool(conf["layout"].c_str())); C.default_store(C.pool(conf["store"].c_str()));
      if (atoi(conf["mvcc"].c_str())) C.table_factory(C.apply_table_property(C.pool("multi-versioning"), std::make_unique<m::ConcreteTableFactory>()));
      old = std::cout.rdbuf(&buf); }
    std::string ct = "CREATE DATABASE d; USE d; CREATE TABLE t ( "; for (size_t i = 0; i < cols.size(); ++i) ct += (i ? ", c" : "c") + std::to_string(i) + " " + decl(cols[i]) + (cols[i] < 'a' ? " NOT NULL" : ""); ct += " );";
    auto tell = [](const std::string &s) { Sys y; return say(s); };
    if (auto r = tell(ct); diagnosed(r.err)) violation("setup", "%s", r.err.c_str());

    // segments of the table that are exactly known, or about whose length nothing is known
    struct Seg { std::vector<ERow> rows; bool open_end = false; size_t limit = SIZE_MAX; bool prefix = false; };
    std::vector<Seg> segs; bool audited = true;
    auto audit = [&](const char *when) {
        answers->clear(); auto r = tell("SELECT " + list + " FROM t;"); if (diagnosed(r.err)) violation("import", "%s: reading the table fails: %s", when, r.err.c_str());
        const std::string &a = *answers; size_t tail = a.size() > 1 ? a.rfind('\n', a.size() - 2) : a.npos; tail = tail == a.npos ? 0 : tail + 1;
        size_t count = size_t(atoll(a.c_str() + tail)); std::string body = a.substr(0, tail);
        // is there a way to read the answer as the segments, one after the other?
        size_t best = 0; std::string why = "nothing"; size_t budget = 200000; bool gave_up = false;
        std::function<bool(size_t, size_t, size_t, size_t, size_t)> go = [&](size_t sg, size_t i, size_t stored, size_t pos, size_t n) -> bool {
            if (budget == 0) { gave_up = true; return true; } --budget;
            if (sg == segs.size()) { if (pos == body.size() and (n == count or n >= (size_t(1) << 40))) return true; if (pos >= best) { best = pos; why = "no more rows"; } return false; }
            Seg &S = segs[sg];
            if (i == S.rows.size() or stored == S.limit) {
                if (stored != S.limit and S.open_end) {       // skip any number of rows
                    for (size_t q = pos;;) { if (go(sg + 1, 0, 0, q, size_t(1) << 40)) return true; if (q >= body.size()) return false; q = body.find('\n', q); if (q == body.npos) return false; ++q; } }
                return go(sg + 1, 0, 0, pos, n);
            }
            if (S.prefix and go(sg + 1, 0, 0, pos, n)) return true;    // reading failed somewhere
            ERow &R = S.rows[i];
            if (not R.absent) { size_t q = match_row(body, pos, R); if (q != body.npos and go(sg, i + 1, stored + 1, q, n + 1)) return true; if (q == body.npos and pos >= best) { best = pos; why = show(R); } }
            if (R.absent or R.optional) return go(sg, i + 1, stored, pos, n);
            return false;
        };
        if (not go(0, 0, 0, 0, 0)) violation("import", "%s: the table does not have the expected rows: next expected %s, but the answer continues with '%s' (%zu rows, %zu announced)", when, why.c_str(), body.substr(best, 300).c_str(), size_t(std::count(body.begin(), body.end(), '\n')), count);
        if (gave_up) { audited = false; }
    };
    for (size_t i = 0; i < p.ops.size(); ++i) {
        std::istringstream s(p.ops[i]); std::string k; s >> k;
        if (k == "ins") {
            uint64_t seed; s >> seed; Rng x(seed); ERow R; std::string sql = "INSERT INTO t VALUES (";
            for (size_t c = 0; c < cols.size(); ++c) {
                Cell e; char l = cols[c] | 0x20; std::string lit, out;
                if (cols[c] >= 'a' and x.chance(1, 5)) lit = "NULL";
                else if (int_bits(l)) { lit = out = std::to_string(x.below(100)); }
                else if (l == 's' or l == 'v') lit = out = "\"r" + std::to_string(x.below(100)) + "\""; else if (l == 'b') lit = out = x.chance(1, 2) ? "TRUE" : "FALSE";
                else if (l == 'd') { out = "20" + std::to_string(10 + x.below(80)) + "-05-17"; lit = "d'" + out + "'"; } else if (l == 't') { out = "20" + std::to_string(10 + x.below(80)) + "-05-17 01:02:03"; lit = "d'" + out + "'"; }
                else if (l == 'e' or l == 'q') { auto k = x.below(50); lit = std::to_string(k) + ".5"; out = std::to_string((2 * k + 1) * (l == 'e' ? 50 : 5000)); }
                else { lit = std::to_string(x.below(50)) + ".5"; e.k = C_NUM; e.num = atof(lit.c_str()); e.single = l == 'f'; }
                if (lit != "NULL" and e.k != C_NUM) { e.k = C_TEXT; e.text = out; }
                sql += (c ? ", " : "") + lit; R.cells.push_back(e);
            }
            if (auto r = tell(sql + ");"); diagnosed(r.err)) violation("import", "an insertion is refused: %s", r.err.c_str());
            segs.push_back(Seg{ { R } }); continue;
        }
        if (k != "import") continue;
        Cfg g; int d, q, e; s >> d >> q >> e >> g.header >> g.rows >> g.final_nl >> g.cut; g.delim = char(d); g.quote = char(q); g.esc = char(e);
        std::string body; bool first = true; for (++i; i < p.ops.size() and p.ops[i].compare(0, 2, "L ") == 0; ++i) { body += (first ? "" : "\n") + p.ops[i].substr(2); first = false; } --i;
        if (g.final_nl and not first) body += '\n';
        if (g.cut >= 0 and size_t(g.cut) < body.size()) body.resize(g.cut);
        int fd = int(syscall(SYS_memfd_create, "dsv", 0)); if (write(fd, body.data(), body.size()) < 0) { } { int f = dup2(fd, 700 + int(i)); close(fd); fd = f; }
        std::string sql = "IMPORT INTO t DSV \"/proc/self/fd/" + std::to_string(fd) + "\"";
        if (g.rows >= 0) sql += " ROWS " + std::to_string(g.rows);
        sql += " DELIMITER " + sqlchar(g.delim) + " ESCAPE " + sqlchar(g.esc) + " QUOTE " + sqlchar(g.quote); if (g.header & 1) sql += " HAS HEADER"; if (g.header & 2) sql += " SKIP HEADER";
        RefReader ref{ body, g, cols }; EFile F = ref.file(names);
        uint64_t f0 = fault_total();
        uint64_t e0 = 0; (void) e0; (void) f0;
        sysfaults.read_short_pm = f_short; sysfaults.read_eintr_pm = f_intr; sysfaults.read_eio_pm = f_eio; sysfaults.open_pm = f_open;
        input_errors = 0;
        Said r = tell(sql + ";");
        sysfaults = SysFaults{};
        bool failed = input_errors > 0; count(failed ? "imports that failed to read" : "imports"); count("rows in files", F.rows.size());
        Seg S; S.rows = F.rows; S.open_end = F.ambiguous; if (g.rows >= 0) S.limit = size_t(g.rows); S.prefix = failed;
        segs.push_back(S);
        if (failed) { if (not diagnosed(r.err)) violation("silent", "an input error during an import is not reported"); count("probe.failing-read-reported"); }
        audit("after an import");
        if (not audited) inconclusive("too many ways to read the answer");
        // is everything wrong with the file reported, and nothing else?
        bool must = false, may = F.ambiguous or failed or g.rows >= 0;
        for (auto &R : F.rows) { must |= R.diag == D_YES; may |= R.diag != D_NO; }
        if (g.rows >= 0) { must = false; size_t surely = 0; for (auto &R : F.rows) { if (surely >= S.limit) break; if (R.diag == D_YES) must = true; if (not R.absent) ++surely; } }
        if (must and not failed and not diagnosed(r.err)) violation("silent", "the file has rows that cannot be stored as written, but nothing is reported");
        if (not may and diagnosed(r.err)) violation("spurious", "a well-formed file is diagnosed: %s", r.err.c_str());
        if (must) count("probe.damaged-file"); close(fd);
        state(uint64_t(F.rows.size()) << 8 | uint64_t(g.header) << 4 | must << 2 | failed << 1 | F.ambiguous);
    }
    audit("at the end");
    { Sys s; std::cout.rdbuf(old); }
}
Harness H{ "dsv", init, generate, run, 30 };
}
extern "C" Harness *sim_harness() { return &H; }
