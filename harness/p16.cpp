// P16: visible variables, their storage and their values.
#include "fakeproc.h"
#include <bit>
using std::string; using std::vector; using std::optional;
namespace {
DIE unit(vector<DIE> ch) { return DIE(DIE::TAG::compilation_unit, {}, std::move(ch)); }
// ---- scope trees, written as text: 'a'.. = variable, '0'.. = opens the scope with that interval, ')' = closes
struct Iv { unsigned b, e; };
const unsigned N = 3; vector<Iv> ivs = {{0, 1}, {1, 2}, {2, 3}, {0, 2}, {1, 3}, {0, 3}, {1, 1}};
struct Frame { Iv iv; unsigned names = 0, taken = 0; };
void gen(string& s, int left, vector<Frame>& st, int names, int depth, const std::function<void(const string&)>& cb) {
    if (st.size() == 1) cb(s); else { auto f = st.back(); st.pop_back(); s += ')'; gen(s, left, st, names, depth, cb); s.pop_back(); st.push_back(f); }
    if (!left) return;
    for (int v = 0; v < names; ++v) if (!(st.back().names >> v & 1)) { st.back().names |= 1 << v; s += char('a' + v); gen(s, left - 1, st, names, depth, cb); s.pop_back(); st.back().names &= ~(1u << v); }
    if ((int)st.size() > depth) return;
    for (size_t k = 0; k < ivs.size(); ++k) { auto iv = ivs[k]; unsigned m = ((1u << iv.e) - 1) & ~((1u << iv.b) - 1); auto& f = st.back(); if (iv.b < f.iv.b || iv.e > f.iv.e || (f.taken & m) || (m == 0 && f.taken & (1u << N))) continue;
        auto old = f.taken; f.taken |= m ? m : 1u << N; st.push_back({iv}); s += char('0' + k); gen(s, left - 1, st, names, depth, cb); s.pop_back(); st.pop_back(); st.back().taken = old; }
}
struct Built { int vars = 0; };
vector<DIE> build(const string& s, size_t& p, int depth, int mode, int& var) {
    vector<DIE> r;
    while (p < s.size() && s[p] != ')') { char c = s[p++];
        if (c >= 'a') { vector<DIE_ATTR> a{ATTR_name{string(1, c)}, ATTR_type{0}, ATTR_location_expr{{expr::Push{expr::Offset{100 + var++}}}}}; if (mode & 1) std::reverse(a.begin(), a.end()); r.push_back(DIE(DIE::TAG::variable, a, {})); continue; }
        auto iv = ivs[c - '0']; auto ch = build(s, p, depth + 1, mode, var); ++p;
        vector<DIE_ATTR> a{ATTR_begin_addr{iv.b}, ATTR_end_addr{iv.e}}; if (depth == 0) a.push_back(ATTR_name{"f" + std::to_string(iv.b)}); if (mode & 1) std::reverse(a.begin(), a.end());
        if (depth == 0 && mode & 2) { ch = {DIE(DIE::TAG::scope, {ATTR_begin_addr{iv.b}, ATTR_end_addr{iv.e}}, ch)}; }   // function with the documented body scope
        r.push_back(DIE(depth == 0 ? DIE::TAG::function : DIE::TAG::scope, a, ch)); }
    return r;
}
void refVars(const string& s, uint64_t addr, std::map<string, int>& out) {   // innermost by nesting depth
    vector<bool> active{true}; int var = 0; std::map<string, int> depthOf;
    for (char c: s) { if (c == ')') active.pop_back(); else if (c >= 'a') { string n(1, c); if (active.back() && (!out.count(n) || depthOf[n] < (int)active.size())) { out[n] = 100 + var; depthOf[n] = active.size(); } ++var; } else { auto iv = ivs[c - '0']; active.push_back(active.back() && iv.b <= addr && addr < iv.e); } }
}
string treeText(const string& s) { string r; for (char c: s) if (c == ')') r += "} "; else if (c >= 'a') r += string(1, c) + " "; else r += "[" + std::to_string(ivs[c-'0'].b) + "," + std::to_string(ivs[c-'0'].e) + "){ "; return r; }
// ---- location programs
struct LI { string t; expr::LocExpr e; };
struct Val { bool reg; string name; int64_t v; };
struct Err {};
Val locate(const vector<LI>& p, const FakeState& s) {
    vector<Val> st; auto pop = [&] { if (st.empty()) throw Err(); auto v = st.back(); st.pop_back(); return v; };
    auto reg = [&](const string& n) { auto it = s.regs.find(n); if (it == s.regs.end()) throw Err(); return it->second; };
    auto num = [&](const Val& v) { return v.reg ? reg(v.name) : v.v; };
    for (auto& i: p) {
        if (i.t == "ADD") { auto a = pop(), b = pop(); st.push_back({false, "", (int64_t)((uint64_t)num(a) + (uint64_t)num(b))}); }
        else if (i.t == "DEREFERENCE") { auto x = (uint64_t)num(pop()); if (x >= s.mem.size()) throw Err(); st.push_back({false, "", s.mem[x]}); }
        else if (i.t.rfind("BASE", 0) == 0) st.push_back({false, "", reg("BP") + std::get<expr::FrameBaseRegisterOffset>(i.e).offset});
        else { auto& l = std::get<expr::Push>(i.e).value; if (auto* r = std::get_if<expr::Register>(&l)) st.push_back({true, r->name, 0}); else st.push_back({false, "", std::get<expr::Offset>(l).value}); }
    }
    return pop();
}
// ---- types
struct Ty { char k; int sub = 0; uint64_t cnt = 0; vector<std::pair<int64_t, int>> mem; uint64_t size = 1; };   // k: i f c p(sub) a(sub,cnt) s(members)
struct World { vector<Ty> t; };
string tyText(const World& w, int i, int d = 0) { auto& t = w.t[i]; if (d > 3) return "..."; if (t.k == 'p') return tyText(w, t.sub, d + 1) + "*"; if (t.k == 'a') return tyText(w, t.sub, d + 1) + "[" + std::to_string(t.cnt) + "]"; if (t.k == 's') { string r = "{"; for (auto& [o, m]: t.mem) r += std::to_string(o) + ":" + tyText(w, m, d + 1) + " "; return r + "}"; } return string(1, t.k); }
uint64_t sizeOf(const World& w, int i) { auto& t = w.t[i]; return t.k == 'a' ? t.cnt * sizeOf(w, t.sub) : t.k == 's' ? t.size : 1; }
DIE typeDie(const World& w, int i) { auto& t = w.t[i]; size_t id = i;
    if (t.k == 'p') return DIE(DIE::TAG::pointer_type, {ATTR_type{(size_t)t.sub}, ATTR_size{1}, ATTR_id{id}}, {});
    if (t.k == 'a') return DIE(DIE::TAG::array_type, {ATTR_type{(size_t)t.sub}, ATTR_size{t.cnt}, ATTR_id{id}}, {});
    if (t.k == 's') { ATTR_members m; int n = 0; for (auto& [o, s]: t.mem) m.m.push_back({"m" + std::to_string(n++), (size_t)s, o}); return DIE(DIE::TAG::structured_type, {ATTR_name{"S" + std::to_string(i)}, ATTR_size{t.size}, ATTR_id{id}, m}, {}); }
    return DIE(DIE::TAG::primitive_type, {ATTR_name{t.k == 'i' ? "int" : t.k == 'f' ? "float" : "char"}, ATTR_size{1}, ATTR_id{id}}, {}); }
// what the storage holds, written as text
string want(const World& w, int i, bool reg, const string& rn, uint64_t a, const FakeState& s, bool top = true) {
    auto& t = w.t[i]; auto raw = [&]() -> int64_t { if (reg) return s.regs.at(rn); if (a >= s.mem.size()) throw Err(); return s.mem[a]; }; string at = reg ? "@" + rn : "@" + std::to_string((int64_t)a);
    switch (t.k) { case 'i': return "i" + std::to_string(raw()) + at; case 'c': return "c" + std::to_string((int)(char)raw()) + at; case 'f': return "f" + std::to_string((uint64_t)raw()) + at; case 'p': return "p" + std::to_string(t.sub) + ":" + std::to_string((uint64_t)raw()) + at;
        case 'a': { if (reg) throw Err(); string r = "["; for (uint64_t k = 0; k < t.cnt; ++k) r += want(w, t.sub, false, "", a + k * sizeOf(w, t.sub), s, false) + ","; return r + "]" + at; }
        default: { if (reg) throw Err(); string r = "{"; int n = 0; for (auto& [o, m]: t.mem) r += "m" + std::to_string(n++) + "=" + want(w, m, false, "", a + o, s, false) + ","; return r + "}" + at; } }
}
string loc(const optional<expr::Location>& l) { if (!l) return "@none"; if (auto* r = std::get_if<expr::Register>(&*l)) return "@" + r->name; return "@" + std::to_string(std::get<expr::Offset>(*l).value); }
string have(const TypedValue& v) {
    if (auto* p = std::get_if<IntegerValue>(&v)) return "i" + std::to_string(p->value) + loc(p->loc);
    if (auto* p = std::get_if<CharValue>(&v)) return "c" + std::to_string((int)p->value) + loc(p->loc);
    if (auto* p = std::get_if<FloatValue>(&v)) return "f" + std::to_string(std::bit_cast<uint64_t>(p->value)) + loc(p->loc);
    if (auto* p = std::get_if<PointerValue>(&v)) return "p" + std::to_string(p->type.type_id) + ":" + std::to_string(p->value) + loc(p->loc);
    if (auto* p = std::get_if<ArrayValue>(&v)) { string r = "["; for (auto& m: p->members) r += have(m) + ","; return r + "]" + loc(p->loc); }
    auto& p = std::get<StructuredValue>(v); string r = "{"; for (auto& [n, m]: p.members) r += n + "=" + have(m) + ","; return r + "}" + loc(p.loc);
}
// the shown text
string chars(const FakeState& s, uint64_t a, uint64_t max) { string r; for (uint64_t k = 0; k < max; ++k) { if (a + k >= s.mem.size() || a + k < a) throw Err(); char c = s.mem[a + k]; if (!c) break; if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else r += c; } return "\"" + r + "\""; }
string shown(const World& w, int i, bool reg, uint64_t a, const FakeState& s) {
    auto& t = w.t[i]; int64_t raw = t.k == 'a' || t.k == 's' ? 0 : reg ? s.regs.at("R0") : s.mem.at(a);
    switch (t.k) { case 'i': return std::to_string(raw); case 'c': return string("'") + (char)raw + "'"; case 'f': return std::to_string(std::bit_cast<double>(raw)); case 'p': return std::to_string((uint64_t)raw) + (w.t[t.sub].k == 'c' ? " " + chars(s, raw, UINT64_MAX) : "");
        case 'a': { if (t.cnt && w.t[t.sub].k == 'c') return std::to_string(a) + " " + chars(s, a, t.cnt); string r; for (uint64_t k = 0; k < t.cnt; ++k) r += (k ? ", " : "") + shown(w, t.sub, false, a + k * sizeOf(w, t.sub), s); return "[" + r + "]"; }
        default: { string r; int n = 0; for (auto& [o, m]: t.mem) { r += (n ? ", " : "") + ("m" + std::to_string(n)) + " = " + shown(w, m, false, a + o, s); ++n; } return "{ " + r + " }"; } }
}
string tyName(const World& w, int i) { auto& t = w.t[i]; return t.k == 'i' ? "int" : t.k == 'f' ? "float" : t.k == 'c' ? "char" : t.k == 's' ? "S" + std::to_string(i) : tyName(w, t.sub) + (t.k == 'p' ? "*" : "[]"); }
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    auto guard = [&](auto f) { string d; try { d = f(); } catch (const std::exception& x) { d = string("exception: ") + x.what(); } X.c().interesting++; X.c().traces++; if (!d.empty()) X.report(d); };
    FakeState base; base.regs = {{"R0", 2}, {"R1", -1}, {"R2", 5}, {"BP", 6}, {"SP", 8}, {"IP", 0}}; base.mem = {3, 1, 0, -2, 7, 4, 2, 65, 0, 5};
    { // scope trees
        vector<string> trees; string s; vector<Frame> st{{{0, N}}}; gen(s, A ? 4 : (T ? 7 : 6), st, 2, 4, [&](const string& t) { trees.push_back(t); });
        X.sweep("scopes", trees.size() * 4, [&](uint64_t i) { guard([&]() -> string {
            auto& t = trees[i / 4]; int mode = i % 4; size_t p = 0; int var = 0; Source src; src.RegisterDebuggingInformation(unit(build(t, p, 0, mode, var)));
            FakeState fs = base; FakeProcess* fp = new FakeProcess(fs); Native n{std::unique_ptr<Process>(fp)};
            for (uint64_t a = 0; a <= N; ++a) {
                std::map<string, int> w; refVars(t, a, w); std::set<string> names; for (auto& [k, v]: w) names.insert(k);
                X.visit(std::hash<string>{}(t) + a); auto g = src.GetScopedVariables(a); if (g != names) { string e; for (auto& k: g) e += k + " "; return "at address " + std::to_string(a) + " the visible variables are " + e; }
                fs.regs["IP"] = a; for (string k: {"a", "b", "c"}) { auto l = src.GetVariableLocation(n, k); if (l.has_value() != w.count(k)) return k + " is " + (l ? "found" : "not found") + " at address " + std::to_string(a); if (l && loc(l) != "@" + std::to_string(w[k])) return "at address " + std::to_string(a) + " the name " + k + " denotes the declaration " + loc(l) + ", expected @" + std::to_string(w[k]) + " (declarations are numbered from 100 in their order)"; }
            }
            return ""; }); }, [&](uint64_t i) { return treeText(trees[i / 4]) + (i % 4 & 1 ? "(attributes reversed)" : "") + (i % 4 & 2 ? "(functions with body scope)" : ""); });
        // missing attributes: nothing is visible through an entry without range, nothing is named without name
        X.sweep("incomplete", 64, [&](uint64_t i) { guard([&]() -> string {
            vector<DIE_ATTR> f, v; if (i & 1) f.push_back(ATTR_begin_addr{0}); if (i & 2) f.push_back(ATTR_end_addr{3}); if (i & 4) v.push_back(ATTR_name{"a"}); if (i & 8) v.push_back(ATTR_type{0}); if (i & 16) v.push_back(ATTR_location_expr{{expr::Push{expr::Offset{4}}}}); else if (i & 32) v.push_back(ATTR_location_expr{});
            World w{{{'i'}}}; Source src; src.RegisterDebuggingInformation(unit({typeDie(w, 0), DIE(DIE::TAG::function, f, {DIE(DIE::TAG::variable, v, {})})})); FakeState fs = base; Native n(std::make_unique<FakeProcess>(fs)); bool vis = (i & 7) == 7;
            if (src.GetScopedVariables(1).count("a") != vis) return "visibility of the variable is wrong"; string r; try { r = have(src.EvaluateExpression(n, "a", false).first); } catch (const DebuggerError&) { r = "error"; }
            string e = vis && (i & 24) == 24 ? "i7@4" : "error"; return r == e ? "" : "evaluates to " + r + ", expected " + e; }); }, [](uint64_t i) { return "attributes " + std::to_string(i); });
    }
    { // location programs
        vector<LI> al = {{"PUSH R0", expr::Push{expr::Register{"R0"}}}, {"PUSH R1", expr::Push{expr::Register{"R1"}}}, {"PUSH R9", expr::Push{expr::Register{"R9"}}}, {"PUSH 0", expr::Push{expr::Offset{0}}}, {"PUSH 4", expr::Push{expr::Offset{4}}}, {"PUSH -1", expr::Push{expr::Offset{-1}}}, {"ADD", expr::Add{}}, {"BASE_REG_OFFSET -2", expr::FrameBaseRegisterOffset{-2}}, {"DEREFERENCE", expr::Dereference{}}};
        unsigned L = A ? 4 : (T ? 8 : 7); vector<uint64_t> off{0}; for (unsigned l = 0; l <= L; ++l) off.push_back(off.back() + ex::ipow(al.size(), l));
        auto get = [&](uint64_t i) { unsigned l = 0; while (off[l + 1] <= i) ++l; ex::Digits d(i - off[l]); vector<LI> p; for (unsigned k = 0; k < l; ++k) p.push_back(al[d.take(al.size())]); return p; };
        auto text = [](const vector<LI>& p) { string r; for (auto& x: p) r += x.t + "; "; return "[" + r + "]"; };
        X.sweep("locations", off.back(), [&](uint64_t i) { guard([&]() -> string {
            auto p = get(i); vector<expr::LocExpr> e; for (auto& x: p) e.push_back(x.e); FakeState fs = base; Native n(std::make_unique<FakeProcess>(fs));
            string w, g; try { auto v = locate(p, base); w = v.reg ? "@" + v.name : "@" + std::to_string(v.v); } catch (Err) { w = "error"; }
            try { g = loc(ExpressionInterpreter::Interpret(e, n)); } catch (const DebuggerError&) { g = "error"; }
            X.visit(i * 31 + 5); if (!(fs == base)) return "finding the location changes the program"; return g == w ? "" : "the location is " + g + ", expected " + w; }); }, [&](uint64_t i) { return text(get(i)) + " R0=2 R1=-1 BP=6, memory 3 1 0 -2 7 4 2 65 0 5"; });
    }
    { // location programs with numbers of every magnitude, in the program, in registers and in memory
        vector<int64_t> ks = {0, 1, -1, 3, -6, 9}; for (int b: {7, 8, 15, 16, 31, 32, 33, 48, 61}) for (int64_t d: {-2, 0, 3}) { ks.push_back((1ll << b) + d); ks.push_back(-(1ll << b) + d); }
        vector<LI> al = {{"PUSH R0", expr::Push{expr::Register{"R0"}}}, {"ADD", expr::Add{}}, {"DEREFERENCE", expr::Dereference{}}, {"BASE_REG_OFFSET 2", expr::FrameBaseRegisterOffset{2}}, {"PUSH BP", expr::Push{expr::Register{"BP"}}}}; size_t fixed = al.size(); (void)fixed;
        for (auto k: ks) { al.push_back({"PUSH " + std::to_string(k), expr::Push{expr::Offset{k}}}); al.push_back({"BASE_REG_OFFSET " + std::to_string(k), expr::FrameBaseRegisterOffset{k}}); }
        // one or two instructions that bring a number, then up to two that use it
        vector<vector<LI>> ps; for (auto& a: al) { ps.push_back({a}); ps.push_back({a, al[2]}); for (auto& b: {al[0], al[3], al[4], LI{"PUSH 4", expr::Push{expr::Offset{4}}}, LI{"PUSH -1", expr::Push{expr::Offset{-1}}}, LI{"BASE_REG_OFFSET -2", expr::FrameBaseRegisterOffset{-2}}}) { ps.push_back({a, b, al[1]}); ps.push_back({a, b, al[1], al[2]}); ps.push_back({b, a, al[1]}); ps.push_back({a, al[2], b, al[1]}); } }
        uint64_t n = ps.size() * ks.size() * 3; auto states = [=](uint64_t i) { FakeState s; s.regs = {{"R0", 2}, {"R1", -1}, {"BP", 6}, {"SP", 8}, {"IP", 0}}; s.mem = {3, 1, 0, -2, 7, 4, 2, 65, 0, 5}; ex::Digits d(i); int64_t k = ks[d.take(ks.size())]; switch (d.take(3)) { case 0: s.regs["BP"] = k; break; case 1: s.regs["R0"] = k; break; default: for (auto& c: s.mem) c += k; } return s; };
        auto get = [=](uint64_t i) { return std::make_pair(ps[i / (ks.size() * 3)], states(i % (ks.size() * 3))); };
        X.sweep("locations of every magnitude", n, [&, get](uint64_t i) { guard([&]() -> string {
            auto [p, st] = get(i); vector<expr::LocExpr> e; for (auto& x: p) e.push_back(x.e); FakeState fs = st; Native n(std::make_unique<FakeProcess>(fs));
            string w, g; try { auto v = locate(p, st); w = v.reg ? "@" + v.name : "@" + std::to_string(v.v); } catch (Err) { w = "error"; }
            try { g = loc(ExpressionInterpreter::Interpret(e, n)); } catch (const DebuggerError&) { g = "error"; }
            X.visit(i * 31 + 7); if (!(fs == st)) return "finding the location changes the program"; return g == w ? "" : "the location is " + g + ", expected " + w; }); },
            [get](uint64_t i) { auto [p, s] = get(i); string r; for (auto& x: p) r += x.t + "; "; r += "R0=" + std::to_string(s.regs["R0"]) + " BP=" + std::to_string(s.regs["BP"]) + " memory"; for (auto c: s.mem) r += " " + std::to_string(c); return r; });
    }
    { // values of every type at every place
        vector<World> ws; auto add = [&](World w) { ws.push_back(w); };
        World prim{{{'i'}, {'f'}, {'c'}}};
        vector<World> level; for (int k = 0; k < 3; ++k) { World w{{prim.t[k]}}; add(w); level.push_back(w); }
        auto wrap = [&](const World& in) { vector<World> r; int s = in.t.size() - 1; uint64_t sz = sizeOf(in, s);
            { auto w = in; w.t.push_back({'p', s}); r.push_back(w); }
            for (uint64_t c: {0, 1, 2, 3}) { auto w = in; w.t.push_back({'a', s, c}); r.push_back(w); }
            for (int m = 0; m < 5; ++m) { auto w = in; Ty t{'s'}; if (m == 0) { t.mem = {{0, s}}; t.size = sz; } else if (m == 1) { t.mem = {{0, s}, {(int64_t)sz, s}}; t.size = 2 * sz; } else if (m == 2) { t.mem = {{1, s}, {0, 0}}; t.size = sz + 1; } else if (m == 3) { t.mem = {}; t.size = 1; } else { t.mem = {{0, (int)w.t.size()}, {1, s}}; w.t.push_back({'p', (int)w.t.size() + 1}); t.size = 1 + sz; } w.t.push_back(t); r.push_back(w); }
            return r; };
        unsigned levels = A ? 2 : (T ? 5 : 4); for (unsigned l = 0; l < levels; ++l) { vector<World> nx; for (auto& w: level) for (auto& x: wrap(w)) { add(x); nx.push_back(x); } level = nx; }
        vector<std::pair<bool, int64_t>> places = {{true, 0}, {false, 0}, {false, 1}, {false, 6}, {false, 9}, {false, -1}}; vector<FakeState> mems(2, base); for (size_t k = 0; k < base.mem.size(); ++k) mems[1].mem[k] = k % 3 == 0 ? std::bit_cast<int64_t>(-1.5 * k) : k % 3 == 1 ? INT64_MIN + (int64_t)k : 0x141 + k; mems[1].regs["R0"] = std::bit_cast<int64_t>(2.5);
        X.sweep("values", ws.size() * places.size() * 2, [&](uint64_t i) { guard([&]() -> string {
            ex::Digits d(i); auto fs = mems[d.take(2)]; auto pl = places[d.take(places.size())]; auto& w = ws[d.take(ws.size())]; int ty = w.t.size() - 1; auto before = fs;
            vector<DIE> ch; for (size_t k = 0; k < w.t.size(); ++k) ch.push_back(typeDie(w, k));
            expr::Location l; if (pl.first) l = expr::Register{"R0"}; else l = expr::Offset{pl.second};
            ch.push_back(DIE(DIE::TAG::function, {ATTR_begin_addr{0}, ATTR_end_addr{1}, ATTR_name{"main"}}, {DIE(DIE::TAG::variable, {ATTR_name{"v"}, ATTR_type{(size_t)ty}, ATTR_location_expr{{expr::Push{l}}}}, {})}));
            Source src; src.RegisterDebuggingInformation(unit(ch)); Native n(std::make_unique<FakeProcess>(fs));
            string e, g; try { e = want(w, ty, pl.first, "R0", pl.second, fs); } catch (Err) { e = "error"; }
            optional<TypedValue> val; try { val = src.EvaluateExpression(n, "v", false).first; g = have(*val); } catch (const DebuggerError& x) { g = "error"; }
            X.visit(std::hash<string>{}(e + tyText(w, ty))); if (g != e) return "the value is " + g + ", expected " + e;
            if (val) { string se, sg; try { se = shown(w, ty, pl.first, pl.second, fs); } catch (Err) { se = "error"; } try { sg = src.TypedValueToString(n, *val); } catch (const DebuggerError&) { sg = "error"; } if (sg != se) return "it is shown as " + sg + ", expected " + se; auto tn = src.TypedValueTypeToString(*val); if (tn != tyName(w, ty)) return "its type is shown as " + tn + ", expected " + tyName(w, ty); }
            if (!(fs == before)) return "reading changes the program"; return ""; }); },
            [&](uint64_t i) { ex::Digits d(i); int m = d.take(2); auto pl = places[d.take(places.size())]; auto& w = ws[d.take(ws.size())]; return "type " + tyText(w, w.t.size() - 1) + " at " + (pl.first ? "R0" : std::to_string(pl.second)) + ", memory " + std::to_string(m); });
    }
    { // type information that refers to itself: every graph of three types; only the absence of crashes and changes is judged
        const char kinds[] = "ipas"; uint64_t per = 1 + 3 + 6 + 12;   // int, pointer, array, structure with one or two members
        auto get = [&](uint64_t i) { ex::Digits d(i); World w; for (int k = 0; k < 3; ++k) { uint64_t c = d.take(per); Ty t{'i'}; if (c >= 1 && c < 4) t = {'p', (int)c - 1}; else if (c >= 4 && c < 10) t = {'a', (int)(c - 4) % 3, (c - 4) / 3 + 1}; else if (c >= 10) { t = {'s'}; t.mem.push_back({0, (int)(c - 10) % 3}); if (c >= 13) t.mem.push_back({1, (int)((c - 13) / 3) % 3}); } w.t.push_back(t); } return w; };
        (void)kinds; X.sweep("cyclic", per * per * per, [&](uint64_t i) { guard([&]() -> string {
            World w = get(i); vector<DIE> ch; for (int k = 0; k < 3; ++k) ch.push_back(typeDie(w, k)); vector<DIE> vs; for (int k = 0; k < 3; ++k) vs.push_back(DIE(DIE::TAG::variable, {ATTR_name{"v" + std::to_string(k)}, ATTR_type{(size_t)k}, ATTR_location_expr{{expr::Push{expr::Offset{k}}}}}, {}));
            ch.push_back(DIE(DIE::TAG::function, {ATTR_begin_addr{0}, ATTR_end_addr{1}, ATTR_name{"main"}}, vs)); Source src; src.RegisterDebuggingInformation(unit(ch)); FakeState fs = base; Native n(std::make_unique<FakeProcess>(fs));
            for (string q: {"v0", "*v0", "v0 + 1", "v1[0]", "v2.m0", "v0->m1", "v1 = v1"}) try { auto [v, k] = src.EvaluateExpression(n, q, false); src.TypedValueToString(n, v); src.TypedValueTypeToString(v); auto t = src.GetVariableTypeInformation(n, "v0"); if (t) src.TypeToString(*t); } catch (const DebuggerError&) {}
            // types that contain no structure or array of themselves keep their value
            std::function<bool(int, int)> fin = [&](int k, int depth) { if (depth > 4) return false; auto& t = w.t[k]; if (t.k == 'a') return fin(t.sub, depth + 1); if (t.k == 's') { for (auto& m: t.mem) if (!fin(m.second, depth + 1)) return false; } return true; };
            for (int k = 0; k < 3; ++k) { string e, g; if (!fin(k, 0)) continue; try { e = want(w, k, false, "", k, base); } catch (Err) { e = "error"; } try { g = have(src.EvaluateExpression(n, "v" + std::to_string(k), false).first); } catch (const DebuggerError&) { g = "error"; } if (e != g) return "v" + std::to_string(k) + " is " + g + ", expected " + e; }
            X.visit(i * 77 + 1); return fs == base ? "" : "the program is changed"; }); }, [&](uint64_t i) { World w = get(i); string r; for (int k = 0; k < 3; ++k) { auto& t = w.t[k]; r += "T" + std::to_string(k) + "="; if (t.k == 's') { r += "{"; for (auto& m: t.mem) r += "T" + std::to_string(m.second) + " "; r += "}"; } else { r += t.k; if (t.k != 'i') r += string("(T") + std::to_string(t.sub) + ")"; if (t.k == 'a') r += std::to_string(t.cnt); } r += "; "; } return r; });
    }
    return X.finish("all scope trees of the stated number of scopes and variables over three addresses, two names and four levels, in every declaration order, at every address; all location programs up to the stated length over nine instructions, and short ones with numbers of every magnitude; all types built by up to the stated number of array, pointer and structure constructors at registers and memory places inside, across and outside the memory, with two memory contents",
        {"scopes of one level do not overlap and lie inside their parent", "structures or arrays in a register are reported as an error", "two variables of one name in one scope are not judged"});
}
