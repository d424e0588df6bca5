// P19 (sessions with repeated runs) and, built with P20, sessions with commands of every kind.
#include "cli.h"
using namespace cli;
#ifdef P20
extern "C" int dbg_cli_main(int argc, char* argv[]);
#else
static int dbg_cli_main(int, char**) { return 0; }
#endif
namespace {
bool noBlanks = false;   // no instruction may be left out in listings
const vector<string> SRC = {"int f() {", "  store", "}", "main:", " call f", " x = r", " print", " end"};
Prog withInfo() { Prog p; p.name = "a"; p.text = {"MOV R0, 2", "CALL 6", "MOV [3], R0", "PUTNUM R0", "MOV [4], 9", "HALT", "ADD R0, 1", "MOV [4], R0", "RET"}; p.data = {5, 6, 65}; p.lines = {{0, 6}, {1, 7}, {3, 0}, {4, 1}, {5, 2}, {6, 3}, {7, 5}}; p.fns = {{"f", 6, 9}, {"g", 4, 6}, {"main", 0, 4}}; p.vars = {{"x", 3, 0, 4}, {"y", 4, 0, 4}, {"z", 4, 6, 9}}; p.src = SRC; return p; }
Prog raw() { auto p = withInfo(); p.name = "b"; p.lines.clear(); p.fns.clear(); p.vars.clear(); p.src.clear(); return p; }
Prog loop() { Prog p; p.name = "l"; p.text = {"MOV R1, 2", "MOV [3], R1", "DEC R1", "JNZ 1", "HALT"}; p.lines = {{0, 0}, {1, 1}, {2, 2}, {3, 2}}; p.src = {"a", "b", "c", "d"}; return p; }
// variables of every kind: registers, memory, relative to BP; pointers, strings, arrays, structures
Prog typed() {
    Prog p; p.name = "t"; p.text = {"MOV R1, 7", "MOV BP, 12", "MOV [3], R1", "PUTNUM R1", "HALT"}; p.lines = {{0, 0}, {1, 3}}; p.fns = {{"main", 0, 5}}; p.src = {"main:", " print"};
    p.data = {0, 0, 0, -5, 4609434218613702656, 'c', 3, 8, 'h', 'i', 0, 1, 2, 3, 'x', '\n', 'z', 10, 'k', 17, 17, -4611686018427387904};
    p.info = "DIE_compilation_unit: {\n"; auto add = [&](const string& t) { p.info += t + ",\n"; };
    add("DIE_primitive_type: {ATTR_name: int, ATTR_id: 0, ATTR_size: 1}"); add("DIE_primitive_type: {ATTR_name: float, ATTR_id: 1, ATTR_size: 1}"); add("DIE_primitive_type: {ATTR_name: char, ATTR_id: 2, ATTR_size: 1}");
    add("DIE_pointer_type: {ATTR_type: 0, ATTR_id: 3, ATTR_size: 1}"); add("DIE_pointer_type: {ATTR_type: 2, ATTR_id: 4, ATTR_size: 1}"); add("DIE_array_type: {ATTR_type: 0, ATTR_id: 5, ATTR_size: 3}"); add("DIE_array_type: {ATTR_type: 2, ATTR_id: 6, ATTR_size: 3}");
    add("DIE_structured_type: {ATTR_name: pt, ATTR_id: 7, ATTR_size: 3, ATTR_members: {0: {0: x}, 1: {2: k}, 2: {8: n}}}"); add("DIE_pointer_type: {ATTR_type: 7, ATTR_id: 8, ATTR_size: 1}");
    p.info += "DIE_function: {ATTR_name: main, ATTR_begin_addr: 0, ATTR_end_addr: 5, DIE_scope: {ATTR_begin_addr: 0, ATTR_end_addr: 5,\n";
    struct V { string name; int ty; string loc; }; static const vector<V> vs = {{"a", 5, "BASE_REG_OFFSET -1"}, {"c", 2, "PUSH 5"}, {"f", 1, "PUSH 4"}, {"g", 1, "PUSH 21"}, {"i", 0, "PUSH 3"}, {"p", 3, "PUSH 6"}, {"q", 8, "PUSH 20"}, {"r", 0, "PUSH R1"}, {"s", 4, "PUSH 7"}, {"t", 7, "PUSH 17"}, {"w", 6, "PUSH 14"}};
    for (auto& v: vs) { add("DIE_variable: {ATTR_name: " + v.name + ", ATTR_type: " + std::to_string(v.ty) + ", ATTR_location: `" + v.loc + "`}"); p.vars.push_back({v.name, 0, 0, 5}); } p.info += "}}}\n";
    p.typed = [](Session& s, const string& c, const string& rest) -> optional<vector<string>> {
        static const char* types[] = {"int", "float", "char", "int*", "char*", "int[]", "char[]", "pt", "pt*"}; struct No {};
        auto cell = [&](uint64_t a) { if (a >= s.nm) throw No(); return s.m.m[a]; }; auto dbl = [](int64_t v) { double d; memcpy(&d, &v, 8); return std::to_string(d); };
        auto chars = [&](uint64_t a, uint64_t max) { string r = "\""; for (uint64_t k = 0; k < max; ++k) { char x = (char)cell(a + k); if (!x) break; if (x == '\n') r += "\\n"; else if (x == '\t') r += "\\t"; else r += x; } return r + "\""; };
        std::function<string(int, uint64_t)> show = [&](int ty, uint64_t a) -> string { auto n = [](int64_t v) { return std::to_string(v); }; switch (ty) { case 0: return n(cell(a)); case 1: return dbl(cell(a)); case 2: return string("'") + (char)cell(a) + "'"; case 3: case 8: return n(cell(a)); case 4: return n(cell(a)) + " " + chars(cell(a), UINT64_MAX); case 5: return "[" + n(cell(a)) + ", " + n(cell(a + 1)) + ", " + n(cell(a + 2)) + "]"; case 6: cell(a); cell(a + 1); cell(a + 2); return n(a) + " " + chars(a, 3); default: { show(0, a); return "{ k = " + show(2, a + 1) + ", n = " + show(8, a + 2) + ", x = " + show(0, a) + " }"; } } };
        auto at = [&](const string& n) -> uint64_t { for (auto& v: vs) if (v.name == n) { if (n == "a") return s.m.bp - 1; return atoi(v.loc.c_str() + 5); } throw No(); };
        if (c == "frame") { vector<string> t{"function main at 0-5"}; if (s.m.pc >= 5) return vector<string>{}; for (auto& v: vs) try { t.push_back(string("(") + types[v.ty] + ") " + v.name + " = " + (v.name == "r" ? std::to_string(s.m.r[1]) : show(v.ty, at(v.name)))); } catch (No) {} return t; }
        if (s.m.pc >= 5) return vector<string>{"Error"};
        // the expressions of the suite: what they are and where
        string e = rest; int ty = -1; uint64_t a = 0; bool reg = false; optional<int64_t> put; try {
            if (auto k = e.find(" = "); k != e.npos) { string r = e.substr(k + 3); e = e.substr(0, k); if (r[0] == '\'') throw No(); if (r == "w[2]") put = (char)cell(16); else if (r.find('.') != r.npos) { double d = atof(r.c_str()); int64_t b; memcpy(&b, &d, 8); put = b; } else put = atoll(r.c_str()); }
            if (e == "*p") ty = 0, a = cell(6); else if (e == "a[1]") ty = 0, a = at("a") + 1; else if (e == "t.x") ty = 0, a = 17; else if (e == "t.k") ty = 2, a = 18; else if (e == "q->k") ty = 2, a = cell(20) + 1; else if (e == "*q") ty = 7, a = cell(20); else if (e == "t.n->x") ty = 0, a = cell(19); else if (e == "s[1]") ty = 2, a = cell(7) + 1; else if (e == "w[2]") ty = 2, a = 16; else if (e == "r") ty = 0, reg = true; else for (auto& v: vs) if (v.name == e) ty = v.ty, a = at(e);
            if (ty < 0) return vector<string>{"Error"}; if (!reg) { cell(a); if (e == "a[1]" && (uint64_t)s.m.bp + 1 >= s.nm) throw No(); if (e == "a[1]") { cell(a - 1); cell(a + 1); } if (e == "q->k" || e == "t.n->x") { uint64_t b = e == "q->k" ? a - 1 : a; cell(b); cell(b + 1); cell(b + 2); } }
            if (put) { if (reg) s.m.r[1] = *put; else s.m.m[a] = *put; }
            string v; try { v = reg ? std::to_string(s.m.r[1]) : show(ty, a); } catch (No) { if (ty == 4) { cell(a); ++s.exprs; } throw; } vector<string> ls;   // a string that leaves the memory has been evaluated, but cannot be shown
             std::istringstream is(string("(") + types[ty] + ") $" + std::to_string(s.exprs++) + " = " + v); string l; while (std::getline(is, l)) ls.push_back(l); return ls;
        } catch (No) { s.exprs += 0; return vector<string>{"Error"}; } };
    return p;
}
Prog fault() { Prog p; p.name = "e"; p.text = {"MOV R0, 1", "MOV [3], R0", "MOV [5000], R0", "HALT"}; p.fns = {{"main", 0, 9}}; p.lines = {{0, 1}}; p.src = {"oops"}; return p; }
Prog broken() { Prog p; p.name = "x"; p.broken = true; return p; }
void put(const string& path, const string& text) { FILE* f = fopen(path.c_str(), "w"); fwrite(text.data(), 1, text.size(), f); fclose(f); }
// Plays a script; returns "" or the first difference from the model.
string play(ex::Explorer& X, const Prog& p, const vector<string>& script, bool named = true, const vector<Prog>& others = {}, bool keepPrefix = true, const vector<string>* args = nullptr) {   // args: of the whole program
    string path = "w" + std::to_string(X.curWorker) + ".t86"; static string have; auto install = [&](const string& t) { if (have != t) { if (t == "\x01") unlink(path.c_str()); else put(path, t); have = t; } }; install(p.file());
    Session S(named ? path : "", p); S.keepPrefix = keepPrefix; S.noBlanks = noBlanks;
    auto change = [&](const string& l) { size_t k = l[1] - '0'; if (k < others.size()) install(others[k].file()); else install("\x01"); };
    struct Want { Text out; string prog; }; vector<Want> want;
    for (auto& l: script) {
        if (l[0] == '!') { size_t j = l[1] - '0'; if (j < others.size()) { S.disk = others[j]; S.fileOk = true; } else S.fileOk = false; want.push_back({}); continue; }
        auto w = S.exec(l); if (S.unjudged) { X.c().skipped++; return ""; }   // a program that runs off its text never stops
        X.visit(S.m.hash() ^ std::hash<string>{}(join(w))); want.push_back({w, S.printed + S.m.out});
    }
    int code = 0; std::function<void()> program; if (args) program = [&] { vector<string> a{"dbg-cli"}; for (auto& x: *args) a.push_back(x == "@" ? path : x); vector<char*> v; for (auto& x: a) v.push_back(x.data()); v.push_back(nullptr); code = dbg_cli_main((int)a.size(), v.data()); };
    auto r = cli::run(S.file, script, change, {}, program);
    if (args && !args->empty() && (*args)[0][0] == '-') { X.c().traces++; X.c().interesting++; return !r.escaped.empty() ? r.escaped : r.steps.size() ? "a session is started in spite of an unknown option" : code == 0 ? "exit code 0 in spite of an unknown option" : ""; }
    if (args && code && r.escaped.empty()) return "exit code " + std::to_string(code);
    auto differs = [&](const string& d) { return S.ambiguous && keepPrefix ? play(X, p, script, named, others, false, args) : d; };
    if (!r.escaped.empty()) return "the session is ended by an " + r.escaped + " after '" + (r.steps.empty() ? "" : r.steps.back().line) + "'";
    if (r.steps.size() != script.size()) return "the session stopped reading commands";
    for (size_t k = 0; k < script.size(); ++k) if (script[k][0] != '!') {
        if (auto d = compare(want[k].out, r.steps[k].out); !d.empty()) return differs("command " + std::to_string(k + 1) + " ('" + script[k] + "'): " + d);
        if (r.steps[k].prog != want[k].prog) return "after command " + std::to_string(k + 1) + " ('" + script[k] + "') the program has printed '" + r.steps[k].prog + "', expected '" + want[k].prog + "'";
    }
    X.c().traces++; X.c().interesting++; return "";
}
const vector<string> AUDIT = {"breakpoint list", "watchpoint list", "register", "memory get 0 8", "disassemble from 0"};
vector<string> operator+(vector<string> a, const vector<string>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan(); usages();
    auto pin = [&] { static bool done = false; if (!done) { done = true; cpu_set_t s, all; sched_getaffinity(0, sizeof all, &all); int n = CPU_COUNT(&all), want = std::max(X.curWorker, 0) % n; for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &all) && want-- == 0) { CPU_ZERO(&s); CPU_SET(c, &s); sched_setaffinity(0, sizeof s, &s); break; } } };
    auto text = [](const vector<string>& s) { string r; for (auto& l: s) r += (l.empty() ? "(empty line)" : l) + "; "; return r; };
    auto sweep = [&](const string& name, uint64_t n, auto get, bool exact = false) {   // get(i): program, script, named, other files
        X.sweep(name, n, [&, get, exact](uint64_t i) { pin(); noBlanks = exact; auto [p, s, named, others] = get(i); auto d = play(X, p, s, named, others); if (!d.empty()) X.report(d); }, [get, text](uint64_t i) { auto [p, s, named, others] = get(i); return p.name + ": " + text(s); }); };
    using Case = std::tuple<Prog, vector<string>, bool, vector<Prog>>;
    vector<string> again = AUDIT + vector<string>{"run"} + AUDIT; for (int k = 0; k < 5; ++k) again = again + vector<string>{"continue"}; again = again + AUDIT;
#ifndef P20
    { // histories of everything that is kept over a re-run
        vector<string> a = {"run", "continue", "istep", "step", "finish", "b iset 2", "b irem 2", "b idis 2", "b ien 2", "b set f", "b dis f", "w iset 3", "w iset 4", "w irem 3", "p y = 8"}; unsigned depth = A ? 2 : (T ? 5 : 4); if (A) a = {"run", "continue", "b iset 2", "b idis 2", "w iset 3", "w iset 4", "w irem 3"};
        sweep("re-runs", ex::ipow(a.size(), depth), [=](uint64_t i) { ex::Digits d(i); vector<string> s{"run"}; for (unsigned k = 0; k < depth; ++k) s.push_back(a[d.take(a.size())]); return Case{withInfo(), s + again, true, {}}; });
    }
#else
    { // every command, valid and not, in every short history
        vector<string> a = {"run", "r --data-size=16", "run --data-size=2", "run --reg-count=1 --float-reg-count=1", "c", "is", "in", "s", "n", "fin", "s x", "is 1", "b", "b iset 2", "b iset 99", "b iset -1", "b iset x", "b iset", "b set f", "b set g", "b set 1", "b set 3", "b set 99", "b set nope", "b dis g", "b en g", "b remove g", "b unset f", "b iunset 2", "b irem 7", "b idis 2", "b ien 2", "b list", "w", "w iset 3", "w iset 4", "w iset 5", "w iset 6", "w iset 7", "w iset x", "w irem 3", "w irem 9", "w list",
            "reg", "reg set R0 7", "reg set R0 x", "reg set R9 1", "reg set IP 3", "reg set IP 99", "reg get R0", "reg get F0", "reg get", "reg fset F0 1.5", "reg fset F0 x", "reg fget F0", "reg fget F9", "reg foo", "mem", "mem get 2 3", "mem get 1023 1", "mem get 1023 2", "mem get 18446744073709551615 2", "mem get x 1", "mem get 0 0", "mem set 3 1 2", "mem set x 1", "mem set 3 x", "mem set 9999 1", "mem set 3", "mem setstr 3 \"a b\\n\"", "mem sets 3 \"", "mem sets 3 \"\"", "mem sets x \"a\"", "mem sets 3 \"\\", "mem sets 3 \"\\\"", "mem sets 3 a", "mem gets 2 2", "mem gets x 2",
            "dis", "dis range 1 3", "dis range 3 1", "dis range x 1", "dis range 1", "dis from 2", "dis from 99", "dis from 2 3", "dis from 2 99", "dis from 0 0", "dis fun f", "dis fun nope", "dis x", "source", "source from 1", "source from 2 2", "source from 0", "source from 99", "source from 99 2", "source from 1 9223372036854775807", "source from x", "source x", "frame", "p", "p x", "p x = 5", "p x +", "p 1", "p nope", "expr x + 1", "attach", "attach x", "attach 1", "attach 99999999999999", "assemble", "ass x", "ass int x", "ass int", "h", "h b", "h zzz", "foo", "help run", "e", ""};
        vector<Prog> ps = {withInfo(), raw(), fault(), loop()}; if (A) ps.resize(1); unsigned depth = A ? 1 : (T ? 3 : 2);
        sweep("commands", ps.size() * 2 * ex::ipow(a.size(), depth), [=](uint64_t i) { ex::Digits d(i); auto p = ps[d.take(ps.size())]; bool r = d.take(2); vector<string> s; if (r) s = {"run"}; for (unsigned k = 0; k < depth; ++k) s.push_back(a[d.take(a.size())]); return Case{p, s + AUDIT + vector<string>{"c", "run", "c"}, true, {}}; });
        sweep("without a file", 2 * ex::ipow(a.size(), std::min(depth, 2u)), [=](uint64_t i) { ex::Digits d(i); vector<string> s; d.take(2); for (unsigned k = 0; k < std::min(depth, 2u); ++k) s.push_back(a[d.take(a.size())]); return Case{raw(), s + AUDIT + vector<string>{"c"}, false, {}}; });
    }
    { // abbreviations and spacing of every command
        vector<string> full = {"run", "run --data-size=16 --reg-count=2", "run --data-size=x", "continue", "istep", "inext", "step", "next", "finish", "breakpoint iset 2", "breakpoint set f", "breakpoint unset g", "breakpoint remove g", "breakpoint disable g", "breakpoint enable g", "breakpoint idisable 4", "breakpoint ienable 4", "breakpoint iremove 4", "breakpoint iunset 4", "breakpoint list", "watchpoint iset 3", "watchpoint irem 4", "watchpoint list", "register", "register set R0 7", "register get R1", "register fset F0 -2.5", "register fget F0",
            "memory get 0 6", "memory getstr 2 1", "memory set 3 -1 33", "memory setstr 3 \"a  b\\n\\t\"", "disassemble", "disassemble range 2 3", "disassemble from 3 2", "disassemble function f", "source", "source from 2 3", "frame", "expression x + 2", "print y", "help", "help memory", "assemble interactive 3", "attach"};
        vector<std::tuple<string, int>> all; for (auto& f: full) { size_t e = std::min(f.find(' '), f.size()), e2 = std::min(f.find(' ', e + 1), f.size()); for (size_t i = 1; i <= e; ++i) for (size_t j = std::min(e + 2, f.size()); j <= e2; ++j) for (int sp = 0; sp < (A ? 1 : 4); ++sp) { string s = f.substr(0, i) + (e < f.size() ? f.substr(e, j - e) + f.substr(e2) : ""); string t; bool q = false; for (char c: s) { q ^= c == '"'; t += c == ' ' && !q && sp & 1 ? "   " : string(1, c); } if (sp & 2) t = "  " + t + " "; all.push_back({t, 0}); if (f == "assemble interactive 3") break; } }
        vector<Prog> ps = {withInfo(), raw()};
        sweep("abbreviations and spacing", all.size() * ps.size() * 2, [=](uint64_t i) { ex::Digits d(i); auto p = ps[d.take(ps.size())]; bool later = d.take(2); vector<string> s{"run", "b iset 4", "w iset 4"}; if (later) s = s + vector<string>{"c", "p 1"}; s.push_back(std::get<0>(all[d.v])); if (s.back().find("int") != string::npos || s.back().rfind("as", 0) == 0) s = s + vector<string>{"NOP", ""}; return Case{p, s + AUDIT + vector<string>{"mem gets 2 6", "c", "c", "c"}, true, {}}; });
    }
    { // the program dbg-cli: with a file, without, with options it does not have
        vector<vector<string>> args = {{"@"}, {}, {"@", "more"}, {"@", "-h"}, {"-h"}, {"--help"}, {"-"}, {"--", "@"}, {"-x", "@"}}; vector<string> a = {"run", "c", "is", "b iset 2", "b list", "help run", "x", "", "reg", "dis"};
        unsigned depth = A ? 1 : 2; auto get = [=](uint64_t i) { ex::Digits d(i); size_t k = d.take(args.size()); vector<string> s; for (unsigned j = 0; j < depth; ++j) s.push_back(a[d.take(a.size())]); return std::make_pair(args[k], s + AUDIT + vector<string>{"c"}); };
        X.sweep("program arguments", args.size() * ex::ipow(a.size(), depth), [&, get](uint64_t i) { pin(); noBlanks = false; auto [ar, s] = get(i); auto d = play(X, withInfo(), s, !ar.empty(), {}, true, &ar); if (!d.empty()) X.report(d); }, [get, text](uint64_t i) { auto [ar, s] = get(i); string t = "dbg-cli"; for (auto& x: ar) t += " " + x; return t + ": " + text(s); });
    }
    { // debug information of every shape: lines that share an address, without an address, out of order or past the source, functions with and without information
        vector<string> a = {"b set 1", "b set 2", "b set 3", "b set f", "s", "n", "is", "c", "fin"}; vector<int> at = {-1, 0, 1, 3, 4}; vector<vector<Fn>> fns = {{}, {{"main", 0, 3}, {"f", 3, 5}}, {{"f", 3, 5}}, {{"main", 0, 2}, {"f", 7, 9}}}; vector<size_t> ns = {0, 1, 3}; unsigned depth = A ? 1 : (T ? 3 : 2);
        sweep("debug information of every shape", ex::ipow(at.size(), 3) * fns.size() * ns.size() * ex::ipow(a.size(), depth), [=](uint64_t i) { ex::Digits d(i); Prog p; p.name = "d"; p.text = {"CALL 3", "MOV [2], 7", "HALT", "INC R0", "RET"}; p.fns = fns[d.take(fns.size())]; size_t n = ns[d.take(ns.size())]; for (size_t l = 0; l < 3; ++l) { int x = at[d.take(at.size())]; if (x >= 0) p.lines[l] = x; if (l < n) p.src.push_back("line " + std::to_string(l)); }
            p.name += "("; for (auto& [l, x]: p.lines) p.name += std::to_string(l) + ":" + std::to_string(x) + " "; p.name += "; " + std::to_string(p.src.size()) + " source lines; functions"; for (auto& f: p.fns) p.name += " " + f.name + "@" + std::to_string(f.b); p.name += ")";
            vector<string> s{"run"}; for (unsigned k = 0; k < depth; ++k) s.push_back(a[d.take(a.size())]); return Case{p, s + vector<string>{"b list", "source", "source from 1", "dis", "dis fun f", "frame", "b dis f", "b unset 1", "b list", "n", "c", "b list"}, true, {}}; });
    }
    { // variables of every kind
        vector<string> a = {"frame", "istep", "p a", "p c", "p f", "p g", "p i", "p p", "p q", "p r", "p s", "p t", "p w", "p *p", "p a[1]", "p t.x", "p t.k", "p q->k", "p *q", "p t.n->x", "p s[1]", "p w[2]", "p i = 65", "p c = 'B'", "p f = 1.25", "p t.x = 3", "p a[1] = 9", "p *p = 12", "p r = 4", "p q->k = w[2]", "p s[1] = w[2]", "p c = w[2]", "p nope", "mem set 6 4", "mem set 6 5000", "mem set 7 14", "mem set 7 5000", "mem set 20 3", "mem set 20 1022", "mem set 21 0", "mem setstr 8 \"\\ta\"", "reg set R1 -9", "reg set BP 4", "reg set BP 1023", "run"};
        unsigned depth = A ? 1 : (T ? 3 : 2);
        sweep("variables of every kind", ex::ipow(a.size(), depth) * 3, [=](uint64_t i) { ex::Digits d(i); unsigned steps = d.take(3); vector<string> s{"run"}; for (unsigned k = 0; k < steps; ++k) s.push_back("istep"); for (unsigned k = 0; k < depth; ++k) s.push_back(a[d.take(a.size())]); return Case{typed(), s + vector<string>{"frame", "istep", "frame", "register", "memory get 0 23", "c"}, true, {}}; });
    }
    { // rewriting the code
        vector<string> a = {"NOP", "MOV [4], 7", "HALT", "FOO", "MOV R0,", "BREAK"}; unsigned len = A ? 1 : 2; vector<string> at = {"0", "2", "7", "8", "9", "99"}; vector<vector<string>> pre = {{}, {"b iset 2"}, {"b iset 8", "b idis 8"}, {"b iset 7", "c"}, {"b iset 2", "b idis 2", "run"}}, post = {{}, {"run"}, {"b ien 2", "c"}, {"b irem 7"}};
        uint64_t n = 0; vector<uint64_t> off; for (unsigned l = 0; l <= len; ++l) { off.push_back(n); n += ex::ipow(a.size(), l); } off.push_back(n);
        sweep("assembling", n * at.size() * pre.size() * post.size(), [=](uint64_t i) { ex::Digits d(i); auto& pr = pre[d.take(pre.size())]; auto& po = post[d.take(post.size())]; auto w = at[d.take(at.size())]; uint64_t k = d.v; unsigned l = 0; while (off[l + 1] <= k) ++l; ex::Digits e(k - off[l]); vector<string> s = vector<string>{"run"} + pr + vector<string>{"assemble interactive " + w}; for (unsigned j = 0; j < l; ++j) s.push_back(a[e.take(a.size())]); return Case{withInfo(), s + vector<string>{""} + AUDIT + po + AUDIT + vector<string>{"c", "c"}, true, {}}; });
    }
#endif
#ifndef P20
    { // listing after a re-run
        sweep("instructions under disabled breakpoints", 1, [=](uint64_t) { return Case{withInfo(), {"run", "b iset 2", "b idis 2", "run", "dis range 1 3"}, true, {}}; }, true);
    }
    { // the file changes between the runs
        vector<Prog> others = {broken(), raw(), loop(), withInfo()}; vector<string> a = {"!0", "!1", "!2", "!3", "!9", "run", "c", "is", "b iset 2", "b set 1", "b idis 2", "w iset 3", "b iset 7"}; unsigned depth = A ? 2 : (T ? 5 : 4);
        sweep("changed files", ex::ipow(a.size(), depth), [=](uint64_t i) { ex::Digits d(i); vector<string> s{"run"}; for (unsigned k = 0; k < depth; ++k) s.push_back(a[d.take(a.size())]); return Case{withInfo(), s + AUDIT + vector<string>{"run"} + AUDIT + vector<string>{"c", "c"}, true, others}; });
    }
#endif
    vector<string> notes = {"machine and debugger threads run under the operating system's scheduler here (their interleavings are the subject of P13)", "programs that run off the end of their text never stop and are not resumed", "texts of errors and the exact place and memory after an error inside the machine are not judged", "attach is exercised only where no machine listens (see P21)"};
#ifdef P20
    return X.finish("all histories of the stated length over the session's commands (valid, misused, abbreviated, differently spaced), with and without a file, with four programs, with debug information of every shape, with variables of every type, started with every kind of program argument, and all bounded rewritings of code; each is typed into the real command interpreter with its own machine thread, every line it shows and everything the program prints is compared with a model of the session, and registers, memory, code, breakpoint and watchpoint lists are read back after each history", notes);
#else
    return X.finish("all histories of the stated length over what is kept between runs and over changes of the program file between runs; each is typed into the real command interpreter with its own machine thread, every line it shows and everything the program prints is compared with a model of the session, before and after one more run", notes);
#endif
}
