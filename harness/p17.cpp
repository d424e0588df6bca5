// P17: debugger expressions against a reference parser (documented grammar) and evaluator (C rules).
#include "fakeproc.h"
#include <bit>
#include <cmath>
#include <memory>
using std::string; using std::vector; using std::optional; using std::shared_ptr;
namespace {
struct Err {};
// ---- types and variables of the little program
enum { INT, FLT, CHR, PINT, ST, PST, AINT, PCHR, AST, PPINT, PFLT, AAINT, U, PAINT, PU, APINT, AU, A3, AAST, PAAINT, NT };
struct TyInfo { char k; int sub; uint64_t cnt; vector<std::pair<string, std::pair<int64_t,int>>> mem; uint64_t size; };
const vector<TyInfo> TY = { {'i', 0, 0, {}, 1}, {'f', 0, 0, {}, 1}, {'c', 0, 0, {}, 1}, {'p', INT, 0, {}, 1}, {'s', 0, 0, {{"x", {0, INT}}, {"n", {1, PST}}}, 2}, {'p', ST, 0, {}, 1}, {'a', INT, 3, {}, 3}, {'p', CHR, 0, {}, 1}, {'a', ST, 2, {}, 4}, {'p', PINT, 0, {}, 1}, {'p', FLT, 0, {}, 1},
    {'a', AINT, 2, {}, 6}, {'s', 0, 0, {{"v", {0, FLT}}, {"l", {1, AINT}}, {"e", {5, ST}}}, 7}, {'p', AINT, 0, {}, 1}, {'p', U, 0, {}, 1}, {'a', PINT, 2, {}, 2}, {'a', U, 2, {}, 14},
    {'a', AAINT, 2, {}, 12}, {'a', AST, 2, {}, 8}, {'p', AAINT, 0, {}, 1} };
struct Var { string name; int ty; string reg; int64_t addr; };
const vector<Var> VARS = { {"i", INT, "", 1}, {"j", INT, "", 2}, {"r", INT, "R0", 0}, {"f", FLT, "", 3}, {"g", FLT, "", 4}, {"c", CHR, "", 5}, {"d", CHR, "", 6}, {"p", PINT, "", 7}, {"q", PST, "", 8}, {"o", PST, "", 9}, {"s", ST, "", 10}, {"a", AINT, "", 12}, {"b", AST, "", 15}, {"w", PPINT, "", 19}, {"h", PFLT, "", 20}, {"t", PCHR, "", 21}, {"m", AAINT, "", 26}, {"k", U, "", 32}, {"u", PAINT, "", 39}, {"y", PU, "", 40}, {"l", APINT, "", 41}, {"w2", AU, "", 43}, {"m3", A3, "", 57}, {"bb", AAST, "", 69}, {"pm", PAAINT, "", 77} };
const Var* var(const string& n) { for (auto& v: VARS) if (v.name == n) return &v; return nullptr; }
FakeState initial() { FakeState s; s.regs = {{"IP", 0}, {"SP", 9}, {"BP", 9}, {"R0", -4}, {"R1", 3}}; s.mem = {99, 7, 2, std::bit_cast<int64_t>(1.5), std::bit_cast<int64_t>(-0.25), 65, 66, 13, 15, 17, 8, 15, 5, 6, -7, 20, 17, 21, 0, 7, 3, 22, 72, 105, 0, 4}; for (int64_t v: std::vector<int64_t>{31, 32, 33, 34, 35, 36, std::bit_cast<int64_t>(3.5), (int64_t)-1, (int64_t)-2, (int64_t)-3, (int64_t)77, (int64_t)-4, (int64_t)10, (int64_t)26, (int64_t)43, (int64_t)13, (int64_t)28}) s.mem.push_back(v); for (int64_t k = 0; k < 14; ++k) s.mem.push_back(k % 7 == 6 ? 10 + 5 * (k / 7) : k % 7 ? 200 + k : std::bit_cast<int64_t>(0.5 * k)); for (int64_t k = 0; k < 12; ++k) s.mem.push_back(300 + k); for (int64_t k = 0; k < 8; ++k) s.mem.push_back(k % 2 ? 69 + 2 * ((k / 2 + 1) % 4) : 400 + k); s.mem.push_back(57); return s; }
DIE unit() {
    vector<DIE> ch;
    for (size_t k = 0; k < NT; ++k) { auto& t = TY[k];
        if (t.k == 'p') ch.push_back(DIE(DIE::TAG::pointer_type, {ATTR_type{(size_t)t.sub}, ATTR_size{1}, ATTR_id{k}}, {}));
        else if (t.k == 'a') ch.push_back(DIE(DIE::TAG::array_type, {ATTR_type{(size_t)t.sub}, ATTR_size{t.cnt}, ATTR_id{k}}, {}));
        else if (t.k == 's') { ATTR_members m; for (auto& [n, x]: t.mem) m.m.push_back({n, (size_t)x.second, x.first}); ch.push_back(DIE(DIE::TAG::structured_type, {ATTR_name{"S"}, ATTR_size{t.size}, ATTR_id{k}, m}, {})); }
        else ch.push_back(DIE(DIE::TAG::primitive_type, {ATTR_name{t.k == 'i' ? "int" : t.k == 'f' ? "float" : "char"}, ATTR_size{1}, ATTR_id{k}}, {})); }
    vector<DIE> vs; for (auto& v: VARS) { expr::Location l; if (v.reg.empty()) l = expr::Offset{v.addr}; else l = expr::Register{v.reg}; vs.push_back(DIE(DIE::TAG::variable, {ATTR_name{v.name}, ATTR_type{(size_t)v.ty}, ATTR_location_expr{{expr::Push{l}}}}, {})); }
    ch.push_back(DIE(DIE::TAG::function, {ATTR_name{"main"}, ATTR_begin_addr{0}, ATTR_end_addr{9}}, vs));
    return DIE(DIE::TAG::compilation_unit, {}, ch);
}
// ---- reference lexer
struct Tok { string k; string s; };   // k: "id" "num" "flt" or the symbol itself, "$end"
vector<Tok> lex(const string& t) {
    vector<Tok> r; size_t i = 0; static const vector<string> two = {"==", "!=", "<=", ">=", "<<", ">>", "&&", "||", "->"}; static const string one = ";,[]{}()!=%+->:/*<`$.&|^";
    while (i < t.size()) { char c = t[i];
        if (c == '#') { while (i < t.size() && t[i] != '\n') ++i; continue; }
        if (isspace((unsigned char)c)) { ++i; continue; }
        if (isdigit((unsigned char)c)) { string n; bool fl = false; while (i < t.size() && (isdigit((unsigned char)t[i]) || t[i] == '.')) { if (t[i] == '.') { if (fl) throw Err(); fl = true; } n += t[i++]; } if (!fl && (n.size() > 30 || [&] { errno = 0; strtoull(n.c_str(), 0, 10); return errno; }())) throw Err(); r.push_back({fl ? "flt" : "num", n}); continue; }
        if (isalpha((unsigned char)c) || c == '_') { string n; while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_')) n += t[i++]; r.push_back({"id", n}); continue; }
        string w = t.substr(i, 2); if (std::find(two.begin(), two.end(), w) != two.end()) { r.push_back({w, w}); i += 2; continue; }
        if (one.find(c) == one.npos) throw Err(); r.push_back({string(1, c), string(1, c)}); ++i; }
    r.push_back({"$end", ""}); return r;
}
// ---- reference parser
struct Nd; using N = shared_ptr<Nd>; struct Nd { string op; vector<N> k; string s; };
N mk(string op, vector<N> k = {}, string s = "") { return std::make_shared<Nd>(Nd{op, k, s}); }
struct P {
    vector<Tok> t; size_t i = 0; int assigns = 0;
    bool is(const string& k) { return t[i].k == k; }
    N run() { auto n = assign(); if (!is("$end")) throw Err(); return n; }
    N assign() { auto l = bin(0); if (is("=")) { ++i; ++assigns; return mk("=", {l, assign()}); } return l; }
    N bin(size_t lv) { static const vector<vector<string>> L = {{"==", "!="}, {"&&", "||"}, {"<", ">", "<=", ">="}, {"<<", ">>"}, {"&", "^", "|"}, {"+", "-"}, {"*", "%", "/"}};
        if (lv == L.size()) return unary(); auto l = bin(lv + 1); while (std::find(L[lv].begin(), L[lv].end(), t[i].k) != L[lv].end()) { auto op = t[i++].k; l = mk(op, {l, bin(lv + 1)}); } return l; }
    N unary() { if (is("*") || is("-") || is("!")) { auto op = t[i++].k; return mk("u" + op, {unary()}); } return postfix(); }
    N postfix() { auto p = primary(); while (true) { if (is("[")) { ++i; auto e = assign(); if (!is("]")) throw Err(); ++i; p = mk("[]", {p, e}); } else if (is(".") || is("->")) { auto op = t[i++].k; if (!is("id")) throw Err(); p = mk(op, {p}, t[i++].s); } else return p; } }
    N primary() { auto k = t[i].k, s = t[i].s; if (k == "num" || k == "flt" || k == "id") { ++i; return mk(k, {}, s); } if (k == "(") { ++i; auto e = assign(); if (!is(")")) throw Err(); ++i; return e; } if (k == "$") { ++i; if (!is("num")) throw Err(); return mk("$", {}, t[i++].s); } throw Err(); }
};
// ---- reference evaluator
struct Loc { string reg; int64_t a = 0; auto operator<=>(const Loc&) const = default; };
struct V { char k = '?'; int64_t i = 0; double f = 0; int ty = 0; optional<Loc> loc; vector<V> ch; };   // k: i f c p a s, ? = not readable
struct Rest { std::set<Loc> rd, wr; };
struct Ev {
    FakeState s; vector<V>& old; bool mayErr = false, any = false; Rest rest; const bool strict = true;
    static V I(int64_t v) { V r; r.k = 'i'; r.i = v; return r; } static V F(double v) { V r; r.k = 'f'; r.f = v; r.ty = FLT; return r; }
    V load(int ty, const Loc& l) {
        auto& t = TY[ty]; V v; v.k = t.k; v.ty = ty; v.loc = l;
        if (t.k == 'a') { for (uint64_t n = 0; n < t.cnt; ++n) v.ch.push_back(load(t.sub, Loc{"", (int64_t)((uint64_t)l.a + n * TY[t.sub].size)})); for (auto& c: v.ch) if (c.k == '?' ) mayErr = true; return v; }
        if (t.k == 's') { for (auto& [n, m]: t.mem) v.ch.push_back(load(m.second, Loc{"", (int64_t)((uint64_t)l.a + m.first)})); for (auto& c: v.ch) if (c.k == '?') mayErr = true; return v; }
        int64_t raw; if (!l.reg.empty()) raw = s.regs.at(l.reg); else if ((uint64_t)l.a >= s.mem.size()) { v.k = '?'; return v; } else raw = s.mem[l.a];
        if (t.k == 'f') v.f = std::bit_cast<double>(raw); else if (t.k == 'c') v.i = (char)raw; else v.i = raw; return v;
    }
    V use(V v) { if (v.k == '?') throw Err(); if (v.loc && v.k != 'a' && v.k != 's') rest.rd.insert(*v.loc); for (auto& c: v.ch) use(c); return v; }
    static bool num(const V& v) { return v.k == 'i' || v.k == 'f' || v.k == 'c'; }
    static double asF(const V& v) { return v.k == 'f' ? v.f : (double)v.i; }
    bool truth(const V& v) { if (v.k == 'f') return v.f != 0; if (v.k == 'a' || v.k == 's') throw Err(); return v.i != 0; }
    V deref(const V& p) { if (p.k == 'a') { any = true; return I(0); } if (p.k != 'p') throw Err(); return load(TY[p.ty].sub, Loc{"", p.i}); }
    V ptr(int ty, uint64_t v) { V r; r.k = 'p'; r.ty = ty; r.i = v; return r; }
    V add(const V& l, const V& r, bool sub) {
        if (l.k == 'a' || r.k == 'a') { any = true; return I(0); }
        if (l.k == 'p' && (r.k == 'i' || r.k == 'c')) { if (r.k == 'c') mayErr = true; uint64_t d = (uint64_t)r.i * TY[TY[l.ty].sub].size; return ptr(l.ty, sub ? (uint64_t)l.i - d : (uint64_t)l.i + d); }
        if (!sub && r.k == 'p' && (l.k == 'i' || l.k == 'c')) { if (l.k == 'c') mayErr = true; return ptr(r.ty, (uint64_t)r.i + (uint64_t)l.i * TY[TY[r.ty].sub].size); }
        if (sub && l.k == 'p' && r.k == 'p') { if (l.ty != r.ty) throw Err(); int64_t d = (uint64_t)l.i - (uint64_t)r.i, z = TY[TY[l.ty].sub].size; if (d % z) { any = true; return I(0); } return I(d / z); }
        return arith(sub ? "-" : "+", l, r);
    }
    V arith(const string& op, const V& l, const V& r) {
        if (l.k == 'a' || r.k == 'a') { any = true; return I(0); }
        if (!num(l) || !num(r)) throw Err(); if (l.k != r.k) mayErr = true;
        if (l.k == 'f' || r.k == 'f') { if (op == "%") throw Err(); double a = asF(l), b = asF(r); if (op == "/" && b == 0) throw Err(); return F(op == "+" ? a + b : op == "-" ? a - b : op == "*" ? a * b : a / b); }
        int64_t a = l.i, b = r.i, o; if (op == "/" || op == "%") { if (!b) throw Err(); if (a == INT64_MIN && b == -1) throw Err(); return I(op == "/" ? a / b : a % b); }
        if (op == "+" ? __builtin_add_overflow(a, b, &o) : op == "-" ? __builtin_sub_overflow(a, b, &o) : __builtin_mul_overflow(a, b, &o)) mayErr = true; return I(o);
    }
    V cmp(const string& op, const V& l, const V& r) {
        if (l.k == 'a' || r.k == 'a') { any = true; return I(0); } if (l.k == 's' || r.k == 's') throw Err();
        bool lt, eq; if (l.k == 'f' || r.k == 'f') { if (l.k != r.k) { if (l.k == 'p' || r.k == 'p') throw Err(); mayErr = true; } double a = asF(l), b = asF(r); return I(op == "==" ? a == b : op == "!=" ? a != b : op == "<" ? a < b : op == ">" ? a > b : op == "<=" ? a <= b : a >= b); }
        if (l.k != r.k || l.ty != r.ty) mayErr = true; if ((l.k == 'p') != (r.k == 'p')) { any = true; return I(0); }
        if (l.k == 'p') { lt = (uint64_t)l.i < (uint64_t)r.i; } else lt = l.i < r.i; eq = l.i == r.i;
        return I(op == "==" ? eq : op == "!=" ? !eq : op == "<" ? lt : op == ">" ? !lt && !eq : op == "<=" ? lt || eq : !lt);
    }
    V bits(const string& op, const V& l, const V& r) {
        if (l.k == 'a' || r.k == 'a') { any = true; return I(0); }
        if (!num(l) || !num(r) || l.k == 'f' || r.k == 'f') throw Err(); if (l.k != r.k) mayErr = true; int64_t a = l.i, b = r.i;
        if (op == "&") return I(a & b); if (op == "|") return I(a | b); if (op == "^") return I(a ^ b);
        if (b < 0 || b > 63) throw Err(); if (op == "<<") return I((int64_t)((uint64_t)a << b)); return I(a >> b);
    }
    void store(const Loc& l, int64_t raw) { rest.wr.insert(l); if (!l.reg.empty()) s.regs.at(l.reg) = raw; else { if ((uint64_t)l.a >= s.mem.size()) throw Err(); s.mem[l.a] = raw; } }
    V assign(V l, const V& r) {
        if (!l.loc) throw Err(); if (l.k == '?') throw Err();
        if (l.k == 'a') { if (r.k != 'a' || l.ty != r.ty) throw Err(); mayErr = true; for (size_t n = 0; n < l.ch.size(); ++n) l.ch[n] = assign(l.ch[n], r.ch[n]); return l; }
        if (l.k == 's') { if (r.k != 's' || l.ty != r.ty) throw Err(); for (size_t n = 0; n < l.ch.size(); ++n) l.ch[n] = assign(l.ch[n], r.ch[n]); return l; }
        if (r.k == 'a' || r.k == 's') { if (r.k == 'a' && l.k == 'p') any = true; throw Err(); }
        if (l.k == 'p' || r.k == 'p') { if (l.k != r.k) { if (l.k == 'f' || r.k == 'f') throw Err(); any = true; return l; } if (l.ty != r.ty) throw Err(); l.i = r.i; store(*l.loc, r.i); return l; }
        if (l.k != r.k) mayErr = true;
        if (l.k == 'f') { l.f = asF(r); store(*l.loc, std::bit_cast<int64_t>(l.f)); return l; }
        int64_t v = r.k == 'f' ? (std::isfinite(r.f) && std::fabs(r.f) < 9e18 ? (int64_t)r.f : (any = true, 0)) : r.i; if (l.k == 'c') v = (char)v; l.i = v; store(*l.loc, v); return l;
    }
    // evaluates two operands whose order C leaves open
    std::pair<V, V> both(const N& a, const N& b, bool useA) {
        auto keep = rest; rest = {}; V l = eval(a); if (useA) l = use(l); auto ra = rest; rest = {}; V r = use(eval(b)); auto rb = rest;
        auto hit = [](const std::set<Loc>& x, const std::set<Loc>& y) { for (auto& e: x) if (y.count(e)) return true; return false; };
        if (hit(ra.wr, rb.wr) || hit(ra.wr, rb.rd) || hit(ra.rd, rb.wr)) any = true;
        for (auto* m: {&keep, &ra, &rb}) { (void)m; } rest = keep; for (auto* m: {&ra, &rb}) { rest.rd.insert(m->rd.begin(), m->rd.end()); rest.wr.insert(m->wr.begin(), m->wr.end()); } return {l, r};
    }
    V member(const V& b, const string& n) { if (b.k != 's') throw Err(); auto& t = TY[b.ty]; for (size_t k = 0; k < t.mem.size(); ++k) if (t.mem[k].first == n) return b.ch[k]; throw Err(); }
    V eval(const N& n) {
        auto& o = n->op;
        if (o == "num") return I((int64_t)strtoull(n->s.c_str(), 0, 10)); if (o == "flt") { double d = strtod(n->s.c_str(), 0); if (!std::isfinite(d)) any = true; return F(d); }
        if (o == "id") { auto* v = var(n->s); if (!v) throw Err(); return load(v->ty, Loc{v->reg, v->addr}); }
        if (o == "$") { uint64_t k = strtoull(n->s.c_str(), 0, 10); if (k >= old.size()) throw Err(); return old[k]; }
        if (o == "=") { if (n->k[0]->op == "=" || n->k[0]->op == "$") mayErr = true; auto [l, r] = both(n->k[0], n->k[1], false); return assign(l, r); }
        if (o == "u*") return deref(use(eval(n->k[0])));
        if (o == "u-") { auto v = use(eval(n->k[0])); if (v.k == 'f') { mayErr = true; return F(-v.f); } if (v.k != 'i' && v.k != 'c') throw Err(); if (v.i == INT64_MIN) mayErr = true; return I((int64_t)(0 - (uint64_t)v.i)); }
        if (o == "u!") { auto v = use(eval(n->k[0])); if (v.k == 'p' || v.k == 'f') mayErr = true; if (v.k == 'a') { any = true; return I(0); } return I(!truth(v)); }
        if (o == "[]") { auto [a, k] = both(n->k[0], n->k[1], false); if (a.k == 'p') use(a); else if (a.k != 'a') { if ((a.k == 'i' || a.k == 'c') && (k.k == 'p' || k.k == 'a')) any = true; throw Err(); }
            if (k.k == 'c') mayErr = true; else if (k.k != 'i') throw Err();
            if (a.k == 'p') return deref(add(a, k, false)); if (k.i < 0 || (uint64_t)k.i >= a.ch.size()) throw Err(); return a.ch[k.i]; }
        if (o == ".") return member(eval(n->k[0]), n->s);
        if (o == "->") { auto v = eval(n->k[0]); if (v.k == 'a') { any = true; return I(0); } if (v.k != 'p') throw Err(); return member(deref(use(v)), n->s); }
        if (o == "&&" || o == "||") { auto l = use(eval(n->k[0])); if (l.k == 'a') any = true; bool t = truth(l);
            if (t == (o == "||")) { auto sv = *this; try { auto r = sv.use(sv.eval(n->k[1])); if (r.k != l.k) mayErr = true; if (r.k == 'a') any = true; sv.truth(r); any |= sv.any; mayErr |= sv.mayErr; } catch (Err&) { mayErr = true; } return I(t); }
            auto r = use(eval(n->k[1])); if (r.k != l.k) mayErr = true; if (r.k == 'a') any = true; return I(truth(r)); }
        auto [l, r] = both(n->k[0], n->k[1], true);
        if (o == "+" || o == "-") return add(l, r, o == "-"); if (o == "*" || o == "/" || o == "%") return arith(o, l, r);
        if (o == "&" || o == "|" || o == "^" || o == "<<" || o == ">>") return bits(o, l, r); return cmp(o, l, r);
    }
    Ev(const FakeState& s, vector<V>& old): s(s), old(old) {}
    Ev(const Ev&) = default;
};
string flt(double d) { return std::isnan(d) ? "nan" : std::to_string(std::bit_cast<uint64_t>(d)); }
string str(const V& v) { switch (v.k) { case 'i': return "int " + std::to_string(v.i); case 'c': return "char " + std::to_string(v.i); case 'f': return "float " + flt(v.f); case 'p': return "pointer" + std::to_string(TY[v.ty].sub) + " " + std::to_string((uint64_t)v.i); case '?': throw Err(); default: { string r = v.k == 'a' ? "[" : "{"; vector<string> m; for (size_t k = 0; k < v.ch.size(); ++k) m.push_back((v.k == 's' ? TY[v.ty].mem[k].first + "=" : "") + str(v.ch[k])); std::sort(m.begin(), v.k == 's' ? m.end() : m.begin()); for (auto& x: m) r += x + ","; return r + (v.k == 'a' ? "]" : "}"); } } }
string str(const TypedValue& v) {
    if (auto* p = std::get_if<IntegerValue>(&v)) return "int " + std::to_string(p->value); if (auto* p = std::get_if<CharValue>(&v)) return "char " + std::to_string((int)p->value); if (auto* p = std::get_if<FloatValue>(&v)) return "float " + flt(p->value);
    if (auto* p = std::get_if<PointerValue>(&v)) return "pointer" + std::to_string(p->type.type_id) + " " + std::to_string(p->value);
    if (auto* p = std::get_if<ArrayValue>(&v)) { string r = "["; for (auto& m: p->members) r += str(m) + ","; return r + "]"; }
    auto& p = std::get<StructuredValue>(v); string r = "{"; for (auto& [n, m]: p.members) r += n + "=" + str(m) + ","; return r + "}";
}
struct Expected { string val; bool error = false, mayErr = false, any = false, judgeState = true, nested = false; V v; FakeState s; };
Expected judge(const string& text, const FakeState& s, vector<V>& old) {
    Expected e; e.s = s; P p; N n;
    try { p.t = lex(text); n = p.run(); } catch (Err) { e.error = true; e.val = "error"; return e; }
    Ev ev(s, old); try { e.v = ev.eval(n); e.val = str(e.v); e.s = ev.s; } catch (Err) { e.error = true; e.val = "error"; }
    e.mayErr = ev.mayErr; e.any = ev.any; if (p.assigns > 1) e.judgeState = false; e.nested = p.assigns && n->op != "="; if (p.assigns && ev.any) e.judgeState = false;
    if (e.any && !p.assigns) e.s = s; return e;
}
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan(); auto die = unit();
    // evaluates the expressions one after another in one debugger
    auto check = [&](const vector<string>& es, const FakeState& init) -> string {
        FakeState fs = init, model = init; Source src; src.RegisterDebuggingInformation(die); Native n(std::make_unique<FakeProcess>(fs)); vector<V> old;
        for (auto& t: es) {
            auto e = judge(t, model, old); string g; bool err = false; optional<TypedValue> v; size_t idx = 0; auto before = fs;
            try { auto [val, k] = src.EvaluateExpression(n, t, true); v = val; idx = k; g = str(val); } catch (const DebuggerError&) { err = true; g = "error"; }
            X.visit(std::hash<string>{}(t) ^ std::hash<string>{}(g));
            if (e.any) { if (!e.judgeState || fs == model) { if (es.size() == 1 && v) { try { src.TypedValueToString(n, *v); } catch (const DebuggerError&) {} } return ""; } return "'" + t + "' without assignment changes the program"; }
            if (g != e.val && !(err && e.mayErr)) return "'" + t + "' gives " + g + ", expected " + e.val;
            if (err) { if (e.judgeState && !e.nested && !(fs == before)) return "'" + t + "' is refused but changes the program"; if (!(fs == before)) return ""; continue; }
            if (!(fs == e.s)) return "'" + t + "' changes the wrong storage or stores a wrong value";
            if (idx != old.size()) return "the result of '" + t + "' is stored as $" + std::to_string(idx) + ", expected $" + std::to_string(old.size());
            model = e.s; old.push_back(e.v); try { src.TypedValueToString(n, *v); src.TypedValueTypeToString(*v); } catch (const DebuggerError&) {} if (!(fs == model)) return "showing the value changes the program";
        }
        return "";
    };
    auto guard = [&](auto f) { string d; try { d = f(); } catch (const std::exception& x) { d = string("exception: ") + x.what(); } X.c().interesting++; X.c().traces++; if (!d.empty()) X.report(d); };
    auto seqs = [&](const string& name, vector<string> al, unsigned L, const string& sep, unsigned from = 1) {
        vector<uint64_t> off(from + 1, 0); for (unsigned l = from; l <= L; ++l) off.push_back(off.back() + ex::ipow(al.size(), l));
        auto get = [off, al, sep](uint64_t i) { unsigned l = 0; while (off[l + 1] <= i) ++l; uint64_t v = i - off[l]; ex::Digits d(v); string r; for (unsigned k = 0; k < l; ++k) r += (k ? sep : "") + al[d.take(al.size())]; return r; };
        auto init = initial(); X.sweep(name, off.back(), [&, get, init](uint64_t i) { guard([&] { return check({get(i)}, init); }); }, [get](uint64_t i) { return get(i); });
    };
    vector<string> full = {"i", "j", "r", "f", "c", "p", "q", "s", "a", "b", "z", "x", "n", "0", "1", "2", "1.5", "+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "&", "|", "^", "<<", ">>", "=", "!", "(", ")", "[", "]", ".", "->", "$"};
    seqs("tokens", full, A ? 3 : (T ? 5 : 4), " ");
    seqs("arithmetic", {"i", "2", "3", "0", "+", "-", "*", "<", "=", "(", ")", "!"}, A ? 4 : (T ? 7 : 5), " ");
    seqs("precedence", {"7", "+", "*", "-", "==", "<=", "&&", "||", "&", "<<", "%", ">"}, A ? 5 : (T ? 7 : 5), " ", 5);
    seqs("storage", {"p", "q", "a", "s", "b", "1", "x", "n", "*", "=", "[", "]", "->", "."}, A ? 4 : (T ? 7 : 6), " ");
    seqs("short circuit", {"i", "0", "( i = 5 )", "( j = i )", "( r = 0 )", "&&", "||", "!", "*", "p", "z"}, A ? 4 : (T ? 6 : 5), " ");
    seqs("characters", {"i", "1", "2", ".", "-", ">", "<", "=", "&", "|", "!", " ", "$", "_", "#", "\""}, A ? 4 : (T ? 6 : 5), "");
    { // longer, grammatical ones: operator chains with every operator pair and triple over operands of one type
        vector<string> ops = {"+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "&", "|", "^", "<<", ">>", "="}; vector<vector<string>> opd = {{"i", "j", "3", "2"}, {"f", "g", "2.5", "f"}, {"c", "d", "c", "d"}, {"p", "2", "p", "1"}, {"q", "o", "q", "1"}, {"r", "i", "1", "j"}};
        unsigned L = A ? 2 : 3; uint64_t per = ex::ipow(ops.size(), L); auto get = [=](uint64_t i) { ex::Digits d(i); auto& o = opd[d.take(opd.size())]; int par = d.take(4); vector<string> op; for (unsigned k = 0; k < L; ++k) op.push_back(ops[d.take(ops.size())]); string r;
            if (par == 0) { r = o[0]; for (unsigned k = 0; k < L; ++k) r += op[k] + o[k + 1]; } else if (par == 1) { r = "(" + o[0] + op[0] + o[1] + ")"; for (unsigned k = 1; k < L; ++k) r += op[k] + o[k + 1]; } else if (par == 2) { r = o[0]; for (unsigned k = 0; k + 1 < L; ++k) r += op[k] + "(" + o[k + 1]; r += op[L-1] + o[L]; for (unsigned k = 0; k + 1 < L; ++k) r += ")"; } else { r = "-" + o[0]; for (unsigned k = 0; k < L; ++k) r += op[k] + (k % 2 ? "!" : "-") + o[k + 1]; } return r; };
        auto init = initial(); X.sweep("chains", per * 4 * opd.size(), [&, get, init](uint64_t i) { guard([&] { return check({get(i)}, init); }); }, get);
    }
    { // composite types within each other: every chain of accesses, read and assigned
        vector<string> base = {"m", "k", "u", "y", "l", "w2", "s", "b", "m3", "bb", "pm"}, suf = {"[0]", "[1]", "[2]", "[i]", ".v", ".l", ".e", ".x", ".n", "->l", "->e", "->x", "->v"}, end = {"", " = 5", " = 2.5", " + 1", " = m[1]", " = s"}; unsigned L = A ? 2 : (T ? 4 : 3); uint64_t chains = 0; for (unsigned l = 0; l <= L; ++l) chains += ex::ipow(suf.size(), l);
        auto get = [=](uint64_t i) { ex::Digits d(i); auto b = base[d.take(base.size())]; int pre = d.take(4); auto e = end[d.take(end.size())]; uint64_t c = d.take(chains); unsigned l = 0; while (c >= ex::ipow(suf.size(), l)) c -= ex::ipow(suf.size(), l++); string r = pre == 1 ? "*" + b : pre == 2 ? "(*" + b + ")" : pre == 3 ? "**" + b : b; for (unsigned k = 0; k < l; ++k) { r += suf[c % suf.size()]; c /= suf.size(); } return r + e; };
        auto init = initial(); init.mem[1] = 2; X.sweep("composites", base.size() * 4 * end.size() * chains, [&, get, init](uint64_t i) { guard([&] { return check({get(i)}, init); }); }, get);
    }
    { // all operators on boundary values of every pair of types
        vector<string> ops = {"+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "&", "|", "^", "<<", ">>", "="}; vector<std::pair<string,string>> pr = {{"i", "j"}, {"f", "g"}, {"c", "d"}, {"p", "i"}, {"q", "i"}, {"q", "o"}, {"i", "f"}, {"i", "c"}, {"c", "f"}, {"r", "i"}, {"i", "q"}, {"p", "w"}, {"h", "j"}, {"t", "j"}}; vector<string> un = {"-X", "!X", "*X", "X", "a[X]", "b[X].x", "X[1]", "$X", "X->x", "X.x", "!!X", "--X", "X = X", "Y = X", "X = Y"};
        vector<int64_t> iv = {0, 1, -1, 2, 3, 13, 31, 32, 62, 63, 64, 65, 127, 128, -128, 255, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1}; for (double d: {0.0, -0.0, 1.0, -2.5, 1e300, -1e300, 1e19, std::nan(""), (double)INFINITY, 5e-324}) iv.push_back(std::bit_cast<int64_t>(d));
        auto get = [=](uint64_t i) { ex::Digits d(i); auto init = initial(); auto [x, y] = pr[d.take(pr.size())]; auto put = [&](const string& n, int64_t v) { auto* q = var(n); if (q->reg.empty()) init.mem[q->addr] = v; else init.regs[q->reg] = v; }; put(y, iv[d.take(iv.size())]); put(x, iv[d.take(iv.size())]); uint64_t o = d.take(ops.size() + un.size()); string e; if (o < ops.size()) e = x + " " + ops[o] + " " + y; else for (char c: un[o - ops.size()]) e += c == 'X' ? x : c == 'Y' ? y : string(1, c); return std::make_pair(e, init); };
        X.sweep("values", pr.size() * iv.size() * iv.size() * (ops.size() + un.size()), [&, get](uint64_t i) { guard([&] { auto [e, init] = get(i); return check({e}, init); }); }, [=](uint64_t i) { auto [e, init] = get(i); string r = e + " with"; auto b = initial(); for (size_t k = 0; k < b.mem.size(); ++k) if (b.mem[k] != init.mem[k]) r += " memory[" + std::to_string(k) + "]=" + std::to_string(init.mem[k]); if (b.regs.at("R0") != init.regs.at("R0")) r += " R0=" + std::to_string(init.regs.at("R0")); return r; });
    }
    { // histories: results are kept and can be used again
        vector<string> es = {"i", "i = i + 1", "$0", "$1", "$0 + 1", "s", "$0.x", "s.x = 42", "p", "*$0", "p = p + 1", "a", "a[1] = 9", "$1[1]", "z", "f = 2.5", "f", "r = j", "*q = s", "b", "$2", "c = d"}; unsigned L = A ? 2 : (T ? 5 : 4); uint64_t n = ex::ipow(es.size(), L);
        auto get = [=](uint64_t i) { ex::Digits d(i); vector<string> r; for (unsigned k = 0; k < L; ++k) r.push_back(es[d.take(es.size())]); return r; }; auto init = initial();
        X.sweep("histories", n, [&, get, init](uint64_t i) { guard([&] { return check(get(i), init); }); }, [get](uint64_t i) { string r; for (auto& e: get(i)) r += e + "; "; return r; });
    }
    return X.finish("all token sequences of the stated length over the whole vocabulary and longer ones over six reduced vocabularies, all strings over the operator characters, every chain of three operators with four bracketings over six groups of operands, every chain of accesses to arrays, structures and pointers within each other, read and assigned, every operator on all pairs of boundary values for fourteen pairs of types, all histories of expressions that use earlier results; result type and value, the whole memory and all registers are compared with a reference parser and evaluator",
        {"conversions between types that the debugger does not offer may be refused", "integer overflow may be refused or wraps", "expressions that C leaves unsequenced or undefined, and decay of arrays, only have to leave the program alone and not crash", "an ill-typed expression may have performed an assignment nested in it before it is refused"});
}
