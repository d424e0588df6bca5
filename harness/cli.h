// Command-line session harness: the real Cli (with its own machine thread and messengers) is fed a script through
// the line editor's interface; next to it runs a model of the session as the documentation describes it.
#pragma once
#include "dbg.h"
#include <sched.h>
#include "dbg-cli/CLI.h"
namespace cli {
using std::string; using std::vector; using std::optional; using ref::Machine;
// ---- running a script
struct Step { string line, out, prog; };   // what was typed, what was shown, what the program has printed until then
struct Printed : std::streambuf {   // what the debugged program prints, possibly while it is looked at
    mutable std::mutex m; string s; int overflow(int c) override { std::lock_guard l(m); if (c != EOF) s += (char)c; return c == EOF ? 0 : c; } std::streamsize xsputn(const char* p, std::streamsize n) override { std::lock_guard l(m); s.append(p, n); return n; } string str() const { std::lock_guard l(m); return s; } };
struct Feed { const vector<string>* script = nullptr; size_t at = 0; vector<Step> steps; char* buf = nullptr; size_t len = 0, seen = 0; Printed prog; FILE* mem = nullptr;
    std::function<void(const string&)> outside;
    void flush() { fflush(mem); if (at) { steps[at-1].out.append(buf + seen, len - seen); steps[at-1].prog = prog.str(); } seen = len; } };
inline Feed* feed = nullptr;
inline string plain(const string& s) {   // colours away; the two kinds of breakpoint marks become + and -
    string r; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\x1b' && s[i+1] == '[') { size_t e = s.find('m', i); string code = s.substr(i, e + 1 - i); i = e; if (s[i+1] == '@') { r += code.find("38;2;255;000;000") != code.npos ? '+' : '-'; ++i; } } else r += s[i];
    return r; }
}
extern "C" {
inline char* cliLine() { auto& f = *cli::feed; while (true) { f.flush(); if (f.at >= f.script->size()) return nullptr; auto& l = (*f.script)[f.at]; f.steps.push_back({l}); ++f.at; if (l[0] == '!') { f.outside(l); continue; } return strdup(l.c_str()); } }   // lines with ! happen outside of the session
char* linenoise(const char*) { return cliLine(); }
int linenoiseHistoryAdd(const char*) { return 1; }
int linenoiseHistorySetMaxLen(int) { return 1; }
}
namespace cli {
struct Result { vector<Step> steps; string escaped, prog; };
inline Result run(const string& file, const vector<string>& script, std::function<void(const string&)> outside = {}, std::function<void()> atEnd = {}, std::function<void()> program = {}) {   // program: instead of a session object
    Feed f; f.script = &script; f.outside = outside; f.mem = open_memstream(&f.buf, &f.len); auto* oldOut = stdout; auto* oldCout = std::cout.rdbuf(&f.prog); stdout = f.mem; feed = &f; Result r;
    auto* c = program ? nullptr : new Cli(file.empty() ? optional<string>() : optional<string>(file));
    try { if (program) program(); else c->Run(); } catch (const std::exception& e) { r.escaped = string("exception: ") + e.what(); } catch (...) { r.escaped = "exception"; }
    if (atEnd) atEnd(); f.flush(); r.prog = f.prog.str(); stdout = oldOut; std::cout.rdbuf(oldCout); if (r.escaped.empty()) delete c;   // otherwise its machine may still run
    fclose(f.mem); free(f.buf); feed = nullptr; r.steps = std::move(f.steps); for (auto& s: r.steps) s.out = plain(s.out); return r;
}
// ---- model
struct Session;
struct Fn { string name; uint64_t b, e; };
struct Var { string name; uint64_t addr; uint64_t b, e; };   // int at a fixed address, visible in [b, e)
struct Prog { string name; vector<string> text; vector<int64_t> data; std::map<size_t, uint64_t> lines; vector<Fn> fns; vector<Var> vars; vector<string> src; bool broken = false;
    string info;   // the debug information as text, if there is more than functions and integers
    std::function<optional<vector<string>>(struct Session&, const string& command, const string& rest)> typed;   // frame and print for such variables
    string file() const {
        if (broken) return ".text MOV R0";
        string s; if (!data.empty()) { s += ".data\n"; for (auto v: data) s += std::to_string(v) + "\n"; } s += ".text\n"; for (auto& t: text) s += t + "\n";
        if (!lines.empty()) { s += ".debug_line\n"; for (auto& [l, a]: lines) s += std::to_string(l) + ": " + std::to_string(a) + "\n"; }
        if (!info.empty()) s += ".debug_info\n" + info; else if (!fns.empty() || !vars.empty()) { s += ".debug_info\nDIE_compilation_unit: {\nDIE_primitive_type: {ATTR_name: int, ATTR_id: 0, ATTR_size: 1},\n"; auto rng = [](uint64_t b, uint64_t e) { return "ATTR_begin_addr: " + std::to_string(b) + ", ATTR_end_addr: " + std::to_string(e) + ",\n"; };
            for (auto& f: fns) { s += "DIE_function: {ATTR_name: " + f.name + ", " + rng(f.b, f.e) + "DIE_scope: {" + rng(f.b, f.e); for (auto& v: vars) if (v.b >= f.b && v.e <= f.e) s += "DIE_variable: {ATTR_name: " + v.name + ", ATTR_type: 0, ATTR_location: `PUSH " + std::to_string(v.addr) + "`},\n"; s += "},},\n"; } s += "}\n"; }
        if (!src.empty()) { s += ".debug_source\n"; for (auto& l: src) s += l + "\n"; } return s; }
};
inline const vector<string>& commandOrder() { static const vector<string> v = {"run", "attach", "help", "breakpoint", "istep", "inext", "disassemble", "assemble", "continue", "register", "memory", "watchpoint", "next", "step", "finish", "frame", "source", "expression", "print"}; return v; }
inline bool pre(const string& p, const string& of) { return of.compare(0, p.size(), p) == 0; }
inline optional<uint64_t> num(const string& s) { if (s.empty() || s.size() > 20 || s.find_first_not_of("0123456789") != s.npos) return {}; errno = 0; auto v = strtoull(s.c_str(), 0, 10); if (errno) return {}; return v; }
inline optional<int64_t> snum(const string& s) { bool neg = !s.empty() && s[0] == '-'; auto v = num(s.substr(neg)); if (!v || *v > (uint64_t)INT64_MAX + neg) return {}; return neg ? (int64_t)(0 - *v) : (int64_t)*v; }
using Text = vector<string>;   // shown lines; "Error" stands for any refusal, "usage:X" for the help text of X, "?" for anything (not judged)
struct Session {
    string file; Prog p, disk; bool active = false, running = true, over = false; std::map<uint64_t, bool> bps; std::set<uint64_t> lost; std::set<uint64_t> wps, blank; vector<string> text; Machine m; size_t nr = 8, nf = 4, nm = 1024, exprs = 0; unsigned limit = 300; bool unjudged = false; optional<uint64_t> asmAt; vector<string> asmText;
    bool listening = false, attached = false; Prog served; bool fileOk = true, noBlanks = false; bool keepPrefix = true, ambiguous = false;   // lines before a refused one may have been assembled or not
    Session(string file, Prog p): file(file), p(p), disk(p), m(1, 1, 1) {}
    bool atBp() const { auto it = bps.find(m.pc); return it != bps.end() && it->second; }
    bool outside() const { return m.pc >= text.size(); }
    bool is(const char* op) const { return text[m.pc].rfind(op, 0) == 0; }
    optional<size_t> line(uint64_t a) const { optional<size_t> r; for (auto& [l, x]: p.lines) if (x == a) r = l; return r; }
    const Fn* fn(uint64_t a) const { for (auto& f: p.fns) if (f.b <= a && a < f.e) return &f; return nullptr; }
    // execution
    dbg::Event step1() { auto e = m.step(); if (e == ref::Ev::Halt) return {"end"}; if (e == ref::Ev::Fault) return {"error"}; for (auto w: m.writes) if (wps.count(w)) return {"watchpoint", (int64_t)w}; return {"step"}; }
    dbg::Event cont() { for (unsigned n = 0; n < limit; ++n) { if (n && atBp()) return {"breakpoint", (int64_t)m.pc}; if (outside()) break; auto e = step1(); if (e.kind != "step") return e; } unjudged = true; return {"too long"}; }
    dbg::Event overCall() { if (outside()) { unjudged = true; return {"outside"}; } if (!is("CALL")) return step1(); uint64_t ret = m.pc + 1; int64_t sp = m.sp; if (ret >= text.size()) { unjudged = true; return {"outside"}; }
        for (unsigned n = 0; n < limit; ++n) { if (n && m.pc == ret && m.sp >= sp) return {"step"}; if (n && atBp()) return {"breakpoint", (int64_t)m.pc}; if (outside()) break; auto e = step1(); if (e.kind != "step") return e; } unjudged = true; return {"too long"}; }
    dbg::Event out() { for (unsigned n = 0; n < limit; ++n) { if (outside()) break; if (n && atBp()) return {"breakpoint", (int64_t)m.pc}; bool ret = is("RET"); auto e = overCall(); if (ret || e.kind != "step") return e; } unjudged = true; return {"too long"}; }
    dbg::Event srcStep(bool next) { if (outside()) { unjudged = true; return {"outside"}; } auto e = next ? overCall() : step1();
        for (unsigned n = 0; e.kind == "step" && !line(m.pc); ++n) { if (n > limit || outside()) { unjudged = true; return {"too long"}; } if (atBp()) return {"breakpoint", (int64_t)m.pc}; e = next ? overCall() : step1(); } return e; }
    // what is shown
    string mark(uint64_t a) const { auto it = bps.find(a); return it == bps.end() ? " " : it->second ? "+" : "-"; }
    static string pad(uint64_t v) { char b[32]; snprintf(b, 32, "%4llu", (unsigned long long)v); return b; }
    string ins(uint64_t a) const { return dbg::Session::canon(text[a]); }
    void listing(Text& t, uint64_t b, uint64_t e) const { for (uint64_t a = b; a < e; ++a) t.push_back(mark(a) + (a == m.pc ? "->" : "  ") + pad(a) + ":  " + (blank.count(a) && !noBlanks ? "\x02" : "") + ins(a)); }
    void code(Text& t, uint64_t b, uint64_t e) const { auto cur = line(m.pc); for (uint64_t l = b; l < e && l < p.src.size(); ++l) { string k = " "; auto it = p.lines.find(l); if (it != p.lines.end() && line(it->second) == l) k = mark(it->second); t.push_back(k + (cur == l ? "->" : "  ") + pad(l + 1) + ":" + p.src[l]); } }
    vector<string> scoped() const { std::set<string> s; for (auto& v: p.vars) if (v.b <= m.pc && m.pc < v.e) s.insert(v.name); return {s.begin(), s.end()}; }
    const Var* var(const string& n) const { for (auto& v: p.vars) if (v.name == n && v.b <= m.pc && m.pc < v.e) return &v; return nullptr; }
    void func(Text& t, bool detail = false) const { auto* f = fn(m.pc); if (!f) return; string s = "function " + f->name + " at " + std::to_string(f->b) + "-" + std::to_string(f->e); auto v = scoped(); if (!detail && !v.empty()) { s += "; active variables: "; for (size_t k = 0; k < v.size(); ++k) s += (k ? ", " : "") + v[k]; } t.push_back(s); if (detail) for (auto& n: v) t.push_back("(int) " + n + " = " + std::to_string(m.m[var(n)->addr])); }
    void aroundText(Text& t) const { if (outside()) return; func(t); listing(t, m.pc < 2 ? 0 : m.pc - 2, std::min<uint64_t>(text.size(), m.pc + 3)); }
    void aroundCode(Text& t, size_t l) const { func(t); code(t, l < 2 ? 0 : l - 2, l + 3); }
    void event(Text& t, const dbg::Event& e) {
        string s; if (e.kind == "breakpoint") { auto l = line(e.addr); s = l ? "Software breakpoint hit at line " + std::to_string(*l + 1) : "Software breakpoint hit at address " + std::to_string(e.addr); } else if (e.kind == "watchpoint") s = "Watchpoint triggered at memory address " + std::to_string(e.addr); else if (e.kind == "end") s = "The program finished execution"; else if (e.kind == "error") s = "Inner CPU error occured."; else s = "Singlestep done";
        t.push_back("Process stopped, reason: " + s); if (e.kind == "end") running = false; if (e.kind == "error") { running = false; unjudgedPc = true; t.push_back("?"); } }
    bool noFit = false, unjudgedMem = false, unjudgedPc = false;   // after an error of the machine its exact place is only approximate
    Text after(const dbg::Event& e, int how) {   // 0 text, 1 code, 2 code or text
        Text t; if (unjudged) return {"?"}; if (e.kind != "step" || how == 3) event(t, e); if (e.kind == "error" || e.kind == "end") return e.kind == "end" ? t : Text{t[0], "?"};
        auto l = line(m.pc); if (how == 0) aroundText(t); else if (l) aroundCode(t, *l); else if (how != 1) aroundText(t); return t; }
    // commands
    static vector<string> words(const string& s) { vector<string> r; std::istringstream is(s); string w; while (is >> w) r.push_back(w); return r; }
    Text doRun(const vector<string>& w) {
        if (file.empty()) return {}; if (!fileOk || disk.broken) return {"Error"};
        size_t a[3] = {8, 4, 1024}; const char* names[3] = {"--reg-count=", "--float-reg-count=", "--data-size="}; for (int k = 0; k < 3; ++k) for (auto& x: w) if (pre(names[k], x)) { if (auto v = num(x.substr(strlen(names[k])))) a[k] = *v; break; }
        attached = false; return start(a[0], a[1], a[2]); }
    Text start(size_t r, size_t f, size_t d) {
        nr = r; nf = f; nm = d; p = disk; noFit = p.data.size() > nm; if (nr > 1000000 || nf > 1000000 || nm > 100000000) { unjudged = true; return {"?"}; }
        printed += m.out; m = Machine(nr, nf, nm); m.load(p.text); text = p.text; for (size_t i = 0; i < p.data.size() && i < nm; ++i) m.m[i] = p.data[i]; active = running = true; unjudgedPc = false; exprs = 0; blank.clear(); for (auto& [b, on]: bps) if (!on) blank.insert(b); for (auto b: lost) if (b < text.size()) { unjudged = true; return {"?"}; } for (auto& [b, on]: bps) if (b >= text.size()) lost.insert(b);   // whether a breakpoint outside of the new program is enabled is not specified
        if (noFit) { running = false; unjudgedMem = true; return {"Process stopped, reason: Inner CPU error occured.", "?"}; } unjudgedMem = false; return {"Started process '" + file + "'"}; }
    string printed;   // by the runs before this one
    optional<uint64_t> loc(const string& s) const { if (auto n = num(s)) { if (!*n) return {}; auto it = p.lines.find(*n - 1); if (it == p.lines.end()) return {}; return it->second; } for (auto& f: p.fns) if (f.name == s) return f.b; return {}; }
    string placed(const char* what, const char* prep, uint64_t a) const { auto l = line(a); string s = string("Breakpoint ") + what; if (!l) return s + " " + (string(prep) == "on" ? "on" : prep) + " address " + std::to_string(a); s += string(" ") + prep + " line " + std::to_string(*l + 1) + " (addr " + std::to_string(a) + ")"; if (*l < p.src.size()) s += ": " + p.src[*l]; return s; }
    Text brk(const vector<string>& w) {
        bool two = w.size() >= 2; string c = w.empty() ? "" : w[0];
        auto act = [&](int op, optional<uint64_t> a, bool src) -> Text {
            if (!a) return {"Error"}; if (lost.count(*a)) { if (op == 1) { lost.erase(*a); bps.erase(*a); } return {"?"}; } bool have = bps.count(*a); if (op == 0 ? have || *a >= text.size() : !have) return {"Error"};
            static const char* what[] = {"set", "removed", "enabled", "disabled"}; static const char* prep[] = {"on", "from", "on", "on"}; static const char* iprep[] = {"on", "from", "at", "at"};
            string mem = ""; if (op == 0) { bps[*a] = true; blank.erase(*a); } else if (op == 1) { bps.erase(*a); blank.erase(*a); } else { bps[*a] = op == 2; if (op == 2) blank.erase(*a); }
            if (src && !line(*a)) return {"Breakpoint\x03"};
            if (src) return {placed(what[op], prep[op], *a)}; return {string("Breakpoint ") + what[op] + " " + iprep[op] + " address " + std::to_string(*a) + (op ? "" : ": '" + ins(*a) + "'")}; };
        if (two && pre(c, "iset")) return act(0, addr(w[1]), false); if (two && pre(c, "set")) return act(0, loc(w[1]), true);
        if (two && (pre(c, "remove") || pre(c, "unset"))) return act(1, loc(w[1]), true); if (two && pre(c, "enable")) return act(2, loc(w[1]), true); if (two && pre(c, "disable")) return act(3, loc(w[1]), true);
        if (two && pre(c, "idisable")) return act(3, addr(w[1]), false); if (two && pre(c, "ienable")) return act(2, addr(w[1]), false); if (two && (pre(c, "iremove") || pre(c, "iunset"))) return act(1, addr(w[1]), false);
        if (!c.empty() && pre(c, "list")) { Text t; for (auto& [a, on]: bps) { auto l = line(a); auto* f = fn(a); t.push_back("addr: " + std::to_string(a) + (l ? ", line: " + std::to_string(*l + 1) : "") + "; " + (lost.count(a) ? "\x06" : on ? "enabled" : "disabled") + (f ? "; function: " + f->name : "")); } return t; }
        return {"usage:breakpoint"}; }
    static optional<uint64_t> addr(const string& s) { auto n = snum(s); if (!n || *n < 0) return {}; return *n; }
    Text watch(const vector<string>& w) {
        bool two = w.size() >= 2; string c = w.empty() ? "" : w[0];
        if (two && pre(c, "iset")) { auto a = addr(w[1]); if (!a || wps.count(*a) || wps.size() == 4) return {"Error"}; wps.insert(*a); return {}; }
        if (two && pre(c, "irem")) { auto a = addr(w[1]); if (!a || !wps.count(*a)) return {"Error"}; wps.erase(*a); return {}; }
        if (!c.empty() && pre(c, "list")) { if (wps.empty()) return {"No active watchpoints"}; Text t{"Active watchpoints:"}; for (auto a: wps) t.push_back(" - address " + std::to_string(a)); return t; }
        return {"usage:watchpoint"}; }
    std::map<string, int64_t> regs() const { std::map<string, int64_t> r{{"IP", (int64_t)m.pc}, {"BP", m.bp}, {"SP", m.sp}}; for (size_t i = 0; i < nr; ++i) r["R" + std::to_string(i)] = m.r[i]; return r; }
    void setReg(const string& n, int64_t v) { if (n == "IP") m.pc = v; else if (n == "BP") m.bp = v; else if (n == "SP") m.sp = v; else m.r[std::stoul(n.substr(1))] = v; }
    Text reg(const vector<string>& w) {
        string c = w.empty() ? "" : w[0]; auto rs = regs(); if (unjudgedPc) return {"?"};
        if (w.empty()) { Text t; for (auto& [n, v]: rs) t.push_back(n + ":" + std::to_string(v)); return t; }
        auto freg = [&](const string& n) -> optional<size_t> { if (n.size() < 2 || n[0] != 'F') return {}; auto v = num(n.substr(1)); if (!v || *v >= nf || std::to_string(*v) != n.substr(1)) return {}; return *v; };
        if (pre(c, "set") && w.size() >= 3) { auto v = snum(w[2]); if (!v || !rs.count(w[1])) return {"Error"}; setReg(w[1], *v); return {}; }
        if (pre(c, "get") && w.size() >= 2) { if (!rs.count(w[1])) return {"Error"}; return {std::to_string(rs[w[1]])}; }
        if (pre(c, "fget") && w.size() >= 2) { auto f = freg(w[1]); if (!f) return {"Error"}; return {fmt::format("{}", m.f[*f])}; }
        if (pre(c, "fset") && w.size() >= 3) { auto f = freg(w[1]); char* e; double v = strtod(w[2].c_str(), &e); if (*e || !f || w[2].find_first_not_of("-.0123456789e") != w[2].npos) return {"Error"}; m.f[*f] = v; return {}; }
        return {"usage:register"}; }
    Text mem(const vector<string>& w, const string& raw) {
        string c = w.empty() ? "" : w[0]; bool three = w.size() >= 3; auto a = three ? num(w[1]) : optional<uint64_t>();
        auto put = [&](const vector<int64_t>& v) -> Text { if (*a > nm || v.size() > nm - *a) return {"Error"}; for (size_t i = 0; i < v.size(); ++i) m.m[*a + i] = v[i]; return {}; };
        if (three && pre(c, "set")) { vector<int64_t> v; for (size_t k = 2; k < w.size(); ++k) { auto x = snum(w[k]); if (!x) return {"Error"}; v.push_back(*x); } if (!a) return {"Error"}; return put(v); }
        if (three && pre(c, "setstr")) { if (!a) return {"Error"}; size_t q = 0; for (int k = 0; k < 3; ++k) { q = raw.find_first_not_of(" ", q); q = raw.find(' ', q); } q = raw.find_first_not_of(" ", q); string s = raw.substr(q, raw.find_last_not_of(" ") + 1 - q); if (s.size() < 2 || s[0] != '"' || s.back() != '"') return {"Error"}; vector<int64_t> v; for (size_t i = 1; i + 1 < s.size(); ++i) if (s[i] == '\\') { ++i; if (i + 1 >= s.size()) return {"Error"}; if (s[i] == 'n') v.push_back('\n'); else if (s[i] == 't') v.push_back('\t'); else if (s[i] == '0') v.push_back(0); else return {"Error"}; } else v.push_back(s[i]); v.push_back(0); return put(v); }
        bool str = three && !pre(c, "get") && pre(c, "getstr");
        if (three && unjudgedMem && (pre(c, "get") || str)) return {"?"}; if (three && (pre(c, "get") || str)) { auto n = num(w[2]); if (!a || !n || *a > nm || *n > nm - *a) return {"Error"}; if (!*n) return {"\x04"}; Text t; if (!str) for (uint64_t k = 0; k < *n; ++k) t.push_back(std::to_string(*a + k) + ":" + std::to_string(m.m[*a + k])); else { string s; for (uint64_t k = 0; k < *n; ++k) s += (char)m.m[*a + k]; if (s.back() != '\n') s += "\\%\n"; std::istringstream is(s); string l; while (std::getline(is, l)) t.push_back(l); } return t; }
        return {"usage:memory"}; }
    Text dis(const vector<string>& w) {
        Text t; string c = w.empty() ? "" : w[0]; if (unjudgedPc) return {"?"}; if (w.empty()) { aroundText(t); return t; }
        if (pre(c, "range") && w.size() >= 3) { auto b = addr(w[1]), e = addr(w[2]); if (!b || !e || *e < *b || *e >= text.size()) return {"Error"}; listing(t, *b, *e + 1); return t; }
        if (pre(c, "from") && w.size() >= 2) { auto b = addr(w[1]); if (!b || *b >= text.size()) return {"Error"}; auto n = w.size() > 2 ? addr(w[2]) : text.size() - *b; if (!n || *n > text.size() - *b) return {"Error"}; if (!*n) return {"\x04"}; listing(t, *b, *b + *n); return t; }
        if (pre(c, "function") && w.size() >= 2) { for (auto& f: p.fns) if (f.name == w[1]) { if (f.e > text.size() || f.e < f.b) return {"Error"}; listing(t, f.b, f.e); return t; } return {"Error"}; }
        return {"usage:disassemble"}; }
    Text source(const vector<string>& w) {
        Text t; string c = w.empty() ? "" : w[0]; if (unjudgedPc) return {"?"}; if (w.empty()) { auto l = line(m.pc); if (!l) return {"Error"}; code(t, *l < 2 ? 0 : *l - 2, *l + 3); return t; }
        if (pre(c, "from") && w.size() >= 2) { auto l = addr(w[1]); if (!l || !*l) return {"Error"}; auto n = w.size() > 2 ? addr(w[2]) : p.src.size(); if (!n) return {"Error"}; uint64_t b = *l - 1; if (p.src.empty()) return {"\x04"}; if (b < p.src.size()) code(t, b, b + std::min<uint64_t>(*n, p.src.size() - b)); return t; }
        return {"usage:source"}; }
    Text expr(const string& s) {   // x, x + 1, x = n and literals
        if (s.empty()) return {"usage:expression"}; if (unjudgedPc) return {"?"}; auto w = words(s); auto val = [&](const string& x) -> optional<int64_t> { if (auto n = num(x)) return *n; if (auto* v = var(x); v && v->addr < nm) return m.m[v->addr]; return {}; };
        optional<int64_t> r; if (w.size() == 1) r = val(w[0]); else if (w.size() == 3 && w[1] == "+") { auto a = val(w[0]), b = val(w[2]); if (a && b) r = *a + *b; } else if (w.size() == 3 && w[1] == "=") { auto* v = var(w[0]); auto b = val(w[2]); if (v && v->addr < nm && b) { m.m[v->addr] = *b; r = *b; } }
        if (!r) return {"Error"}; return {"(int) $" + std::to_string(exprs++) + " = " + std::to_string(*r)}; }
    // one typed line
    Text exec(const string& typed) {
        auto w = words(typed);
        if (asmAt) { if (typed.empty()) { auto at = *asmAt; asmAt.reset(); if (at > text.size() || asmText.size() > text.size() - at) return {"Error"}; size_t good = 0; while (good < asmText.size() && asmOk(asmText[good])) ++good; bool bad = good < asmText.size(); if (bad) { ambiguous |= good > 0; if (!keepPrefix) good = 0; } for (size_t k = 0; k < good; ++k) { text[at + k] = asmText[k]; m.text.at(at + k) = ref::parse(asmText[k]); blank.erase(at + k); } if (bad) return {"Error"}; return {}; } asmText.push_back(typed); return {}; }
        if (w.empty()) return {}; string c; for (auto& x: commandOrder()) if (pre(w[0], x)) { c = x; break; } w.erase(w.begin()); string rest; for (auto& x: w) rest += (rest.empty() ? "" : " ") + x;
        if (c == "run") return doRun(w); if (c == "attach") { auto v = w.size() == 1 ? num(w[0]) : optional<uint64_t>(); if (v && *v == 9110 && listening) {
                if (!bps.empty() || !wps.empty()) { ambiguous = true; if (keepPrefix) { bps.clear(); wps.clear(); } }   // breakpoints of the process before may be kept or not
                start(8, 4, 1024); listening = false; attached = true; return {}; }
            if (v && *v <= 65535) { printed += m.out; m.out.clear(); active = false; } return {"\x05"}; }   // never a machine to attach to here
        if (c == "help") { static const vector<string> order = {"breakpoint", "istep", "inext", "run", "disassemble", "assemble", "continue", "register", "memory", "watchpoint", "next", "step", "finish", "frame", "source", "expression"}; static const vector<string> help = {"run", "continue", "breakpoint", "istep", "step", "inext", "next", "finish", "disassemble", "assemble", "register", "watchpoint", "frame", "expression", "source", "memory"}; if (!rest.empty()) for (auto& x: help) if (pre(rest, x)) return {"usage:" + x}; return {"usage:"}; }
        if (!active) return {"usage:", "Use the `run` or `attach` command to run a process first."};
        auto go = [&](auto f, int how) -> Text { if (!running) return {"Error"}; if (!rest.empty()) return {"usage:" + c}; auto e = f(); return after(e, how); };
        if (c == "istep") return go([&] { return step1(); }, 0); if (c == "inext") return go([&] { return overCall(); }, 0); if (c == "step") return go([&] { return srcStep(false); }, 1); if (c == "next") return go([&] { return srcStep(true); }, 1); if (c == "finish") return go([&] { return out(); }, 2);
        if (c == "continue") { if (!running) return {"Error"}; auto e = cont(); return after(e, 3); }
        if (c == "breakpoint") return brk(w); if (c == "watchpoint") return watch(w); if (c == "register") return reg(w); if (c == "memory") return mem(w, typed); if (c == "disassemble") return dis(w); if (c == "source") return source(w);
        if ((c == "frame" || c == "expression" || c == "print") && p.typed) { if (c == "frame" && !running) return {"Error"}; if (auto t = p.typed(*this, c, rest)) return *t; }
        if (c == "frame") { if (!running) return {"Error"}; Text t; func(t, true); return t; } if (c == "expression" || c == "print") return expr(rest);
        if (c == "assemble") { if (w.size() >= 2 && pre(w[0], "interactive")) { auto a = num(w[1]); if (!a) return {"Error"}; asmAt = *a; asmText.clear(); return {}; } return {"usage:assemble"}; }
        return {"usage:"}; }
    static bool asmOk(const string& s) { std::istringstream is(s); try { Parser q(is); q.Instruction(); return true; } catch (const ParserError&) { return false; } }
};
// the help texts, learnt from the program itself
inline std::map<string, string>& usages() { static std::map<string, string> u; if (u.empty()) { vector<string> sc{"help"}; for (auto& c: commandOrder()) sc.push_back("help " + c); auto r = run("", sc); for (size_t k = 0; k < r.steps.size(); ++k) u[k ? commandOrder()[k-1] : ""] = r.steps[k].out; } return u; }
inline string join(const Text& t) { string r; for (auto& l: t) r += l + "\n"; return r; }
inline string compare(const Text& want, const string& got) {
    size_t at = 0; auto fail = [&] { return "the session shows\n" + got + "expected\n" + join(want); };
    for (auto& l: want) {
        if (l == "?") return "";
        if (l == "\x05") { if (got.size() == at || (got.compare(at, 7, "Error: ") != 0 && got.compare(at, usages()[""].size(), usages()[""]) != 0 && got.compare(at, usages()["attach"].size(), usages()["attach"]) != 0)) return fail(); at = got.size(); continue; }   // some refusal
        if (l == "\x04") { if (at < got.size() && got.compare(at, 7, "Error: ") != 0) return fail(); at = got.size(); continue; }   // nothing or a refusal
        if (pre("usage:", l)) { auto& u = usages()[l.substr(6)]; if (u.empty() || got.compare(at, u.size(), u) != 0) return fail(); at += u.size(); continue; }
        auto e = got.find('\n', at); string g = e == got.npos ? got.substr(at) : got.substr(at, e - at); at = e == got.npos ? got.size() : e + 1; if (e == got.npos) return fail();
        if (l == "Error") { if (!pre("Error: ", g)) return fail(); at = got.size(); continue; }
        if (l == "Breakpoint\x03") { if (!pre("Breakpoint", g)) return fail(); continue; }
        if (auto b = l.find('\x06'); b != l.npos) { string rest = l.substr(b + 1); if (g != l.substr(0, b) + "enabled" + rest && g != l.substr(0, b) + "disabled" + rest) return fail(); continue; }
        auto b = l.find('\x02'); if (b != l.npos) { if (g != l.substr(0, b) && g != l.substr(0, b) + l.substr(b + 1)) return fail(); continue; }
        if (g != l) return fail();
    }
    return at == got.size() ? "" : fail();
}
} // namespace cli
