// What instruction texts the assembler has to accept (from docs/t86-isa.md), and what they have to do.
#pragma once
#include "runs.h"
#include <set>
namespace isa {
using std::string; using std::vector;
// operand forms
inline const std::set<string> MEMS = {"[i]", "[R]", "[R+i]", "[R*i]", "[R+R]", "[R+R*i]", "[R+i+R]", "[R+i+R*i]"};
inline const std::set<string> SIMPLE = {"[i]", "[R]", "[R+i]"};
using Forms = std::set<string>;
struct Sig { vector<std::pair<Forms,Forms>> alt; int n; };   // binary: alternatives (dest forms x source forms); unary: first set only
inline Forms uni(Forms a, const Forms& b) { a.insert(b.begin(), b.end()); return a; }
inline const std::map<string,Sig>& table() {
    static const std::map<string,Sig> t = [] {
        std::map<string,Sig> t;
        t["MOV"] = {{{{"R"}, uni({"R", "F", "i"}, MEMS)}, {{"F"}, {"f", "F", "R", "[i]", "[R]"}}, {MEMS, {"R", "F", "i"}}}, 2};
        t["LEA"] = {{{{"R"}, {"[R+i]", "[R+R]", "[R+R*i]", "[R+i+R]", "[R+i+R*i]"}}}, 2};
        for (auto o: {"ADD","SUB","MUL","DIV","IMUL","IDIV","AND","OR","XOR","LSH","RSH"}) t[o] = {{{{"R"}, uni({"R", "i", "R+i"}, SIMPLE)}}, 2};
        t["CMP"] = {{{{"R"}, uni({"R", "i"}, SIMPLE)}}, 2};
        t["LOOP"] = {{{{"R"}, {"R", "i"}}}, 2};
        for (auto o: {"FADD","FSUB","FMUL","FDIV","FCMP"}) t[o] = {{{{"F"}, {"F", "f"}}}, 2};
        t["EXT"] = {{{{"F"}, {"R"}}}, 2}; t["NRW"] = {{{{"R"}, {"F"}}}, 2};
        for (auto o: {"INC","DEC","NEG","NOT","POP","PUTCHAR","PUTNUM","GETCHAR"}) t[o] = {{{{"R"}, {}}}, 1};
        for (auto o: {"JMP","CALL","PUSH"}) t[o] = {{{{"R", "i"}, {}}}, 1};
        for (auto o: {"JZ","JNZ","JE","JNE","JG","JGE","JL","JLE","JA","JAE","JB","JBE","JO","JNO","JS","JNS"}) t[o] = {{{uni({"R", "i"}, SIMPLE), {}}}, 1};
        t["FPUSH"] = {{{{"F", "f"}, {}}}, 1}; t["FPOP"] = {{{{"F"}, {}}}, 1};
        for (auto o: {"HALT","NOP","BKPT","BREAK","RET"}) t[o] = {{}, 0};
        return t; }();
    return t;
}
enum class V { Accept, Reject, Either };
inline bool isR(const string& t) { return t == "SP" || t == "BP" || t == "IP" || (t.size() > 1 && t[0] == 'R' && isdigit((unsigned char)t[1])); }
inline bool isF(const string& t) { return t.size() > 1 && t[0] == 'F' && isdigit((unsigned char)t[1]); }
inline bool isN(const string& t) { return isdigit((unsigned char)t[0]) && t.find('.') == t.npos; }
inline bool isD(const string& t) { return isdigit((unsigned char)t[0]) && t.find('.') != t.npos; }
// Form of one operand, "" if it is none.  `soft` is set for spellings that may be accepted or not.
inline string form(const vector<string>& t, bool& soft) {
    size_t p = 0; auto at = [&](size_t k) { return k < t.size() ? t[k] : string(); };
    auto num = [&]() { if (at(p) == "-" && !at(p+1).empty() && isN(at(p+1))) { p += 2; return true; } if (!at(p).empty() && isN(at(p))) { ++p; return true; } return false; };
    // ( + | - ) i
    auto off = [&]() { size_t s = p; if (at(p) != "+" && at(p) != "-") return false; bool minus = at(p) == "-"; ++p; bool neg = at(p) == "-"; if (!num()) { p = s; return false; } if (minus && neg) soft = true; return true; };
    auto end = [&](const char* f) { return p == t.size() ? string(f) : string(); };
    if (t.empty()) return "";
    if (num()) return end("i");
    if (isD(t[0])) { p = 1; return end("f"); }
    if (t[0] == "-" && !at(1).empty() && isD(at(1))) { p = 2; return end("f"); }
    if (isF(t[0])) { p = 1; return end("F"); }
    if (isR(t[0])) { p = 1; if (p == t.size()) return "R"; if (off()) return end("R+i"); return ""; }
    if (t[0] != "[" || t.back() != "]" || t.size() < 3) return "";
    p = 1; size_t last = t.size() - 1; auto close = [&](const char* f) { return p == last ? string(f) : string(); };
    if (num()) return close("[i]");
    if (!isR(at(p))) return "";
    ++p; if (p == last) return "[R]";
    if (at(p) == "*") { ++p; if (!num()) return ""; return close("[R*i]"); }
    size_t s = p; bool minus = at(p) == "-";
    if (off()) {
        if (p == last) return "[R+i]";
        if (minus) soft = true;              // [R - i + R]
        if (at(p) != "+" || !isR(at(p+1))) return "";
        p += 2; if (p == last) return "[R+i+R]";
        if (at(p) != "*") return ""; ++p; if (!num()) return ""; return close("[R+i+R*i]");
    }
    p = s; if (at(p) != "+" || !isR(at(p+1))) return "";
    p += 2; if (p == last) return "[R+R]";
    if (at(p) != "*") return ""; ++p; if (!num()) return ""; return close("[R+R*i]");
}
inline V verdict(const string& op, const vector<string>& t) {
    auto it = table().find(op); if (it == table().end()) return V::Reject;
    auto& s = it->second;
    if (!s.n) return t.empty() ? V::Accept : V::Reject;
    vector<vector<string>> o(1); for (auto& x: t) if (x == ",") o.emplace_back(); else o.back().push_back(x);
    if ((int)o.size() != s.n) return V::Reject;
    bool soft = false; string a = form(o[0], soft), b = s.n == 2 ? form(o[1], soft) : ""; if (a.empty() || (s.n == 2 && b.empty())) return V::Reject;
    for (auto& [x, y]: s.alt) if (x.count(a) && (s.n == 1 || y.count(b))) return soft ? V::Either : V::Accept;
    if (op == "MOV" && a == "R" && b == "R+i") return V::Either;   // documented, refused by the current assembler
    if (op == "LEA" && a == "R" && b == "[R*i]") return V::Either;
    return V::Reject;
}
inline bool cond(const string& op) { return op[0] == 'J' && op != "JMP"; }
// State in which the meaning of an instruction is told apart.
inline runs::Init init(int k) {
    runs::Init in; in.r = k ? vector<int64_t>{4, 3, 1, 2} : vector<int64_t>{3, 2, 5, 1}; in.f = k ? vector<double>{-3.25, 8.5} : vector<double>{1.5, -2.25};
    for (int i = 0; i < 24; ++i) in.data.push_back(k ? 60 - 2*i : 30 + i); in.sp = k ? 7 : 12; in.bp = k ? 5 : 9; in.input = "ab"; return in;
}
// The real machine executes the assembled instruction at address 1 (address 0 sets the flags) and then shows
// its flags with conditional jumps; everything is compared with the reference.  "" or the difference.
inline string behaves(ex::Explorer& X, tiny::t86::Program prog, const vector<string>& text, const runs::Init& in, const vm::Cfg& cfg, std::function<string(vm::Box&)> before = {}, std::function<string(vm::Box&)> after = {}) {
    runs::Case c; c.prog = text; c.init = in; c.cfg = cfg;
    auto m = runs::makeRef(c); m.step();
    { auto& o = m.text[1]; if ((o.op == "LSH" || o.op == "RSH")) { int64_t y = 0; try { y = m.val(o.o[1]); } catch (...) {} if (y < 0 || y > 63) { X.c().skipped++; return ""; } }
      if (!o.o.empty() && o.o[0].k == ref::K::Reg && o.o[0].reg == ref::IP && o.op != "PUSH" && o.op != "PUTNUM" && o.op != "PUTCHAR" && o.op != "CMP" && !cond(o.op) && o.op != "JMP" && o.op != "CALL") { X.c().skipped++; return ""; }
      if (o.op == "NRW" && o.o[1].reg >= 0 && (size_t)o.o[1].reg < cfg.nf && !(std::fabs(m.f[o.o[1].reg]) < 9e18)) { X.c().skipped++; return ""; } }
    auto e = m.step(); X.visit(m.hash());
    try {
        vm::Box b(std::move(prog), cfg, true, in.input);
        if (b.receive() != "STOPPED") return "no initial stop";
        runs::poke(b, c);
        if (before) if (auto d = before(b); !d.empty()) return d;
        auto step = [&]() -> string { if (b.ask("SINGLESTEP") != "OK") return "step refused"; if (b.receive() != "STOPPED") return "no stop"; return b.ask("REASON"); };
        if (auto r = step(); r != "SINGLESTEP") return "the first instruction ends with " + r;
        auto r = step(); string want = e == ref::Ev::Halt ? "HALT" : e == ref::Ev::Fault ? "CPU_ERROR" : e == ref::Ev::Bkpt ? "SW_BKPT" : "SINGLESTEP";
        if (r != want) return "the instruction ends with " + r + ", expected " + want;
        if (auto d = vm::diff(vm::readState(b, cfg), m, e != ref::Ev::Fault); !d.empty()) return d;
        if (b.out.str() != m.out) return "printed '" + b.out.str() + "', expected '" + m.out + "'";
        if (after) if (auto d = after(b); !d.empty()) return d;
        if (e == ref::Ev::Halt || e == ref::Ev::Fault) return "";
        // flags
        m.pc = 2; if (b.ask("POKEREGS IP 2") != "OK") return "IP not set"; if (b.ask("CONTINUE") != "OK" || b.receive() != "STOPPED" || b.ask("REASON") != "HALT") return "no end";
        while ((e = m.step()) == ref::Ev::Ok) ; if (e != ref::Ev::Halt) return "reference did not end";
        if (auto d = vm::diff(vm::readState(b, cfg), m); !d.empty()) return "flags: " + d;
    } catch (const vm::Deadlock& x) { return x.what(); } catch (const std::exception& x) { return string("exception: ") + x.what(); }
    X.c().traces++;
    return "";
}
inline vector<string> around(const string& pre, const string& ins) {
    vector<string> p = {pre, ins}; static const vector<string> cc = {"JZ", "JS", "JB", "JO"};
    for (size_t k = 0; k < cc.size(); ++k) { p.push_back(cc[k] + " " + std::to_string(2 + 2*k + 2)); p.push_back("LEA R3, [R3 + " + std::to_string(1024 << k) + "]"); }
    p.push_back("HALT"); return p;
}
inline string spaced(const string& op, const vector<string>& t) { string s = op; for (auto& x: t) s += " " + x; return s; }
// Judge one instruction text: acceptance, then meaning.  `shown` is what is given to the assembler, `plain` what the reference reads.
inline string judge(ex::Explorer& X, V v, const string& shown, const string& plain, const string& op, vector<runs::Init> ins = {init(0), init(1)}) {
    bool acc = true; string why;
    // the text is judged alone first, then within a program
    try { (void)vm::assemble(".text\n" + shown + "\n"); } catch (const ParserError& e) { acc = false; why = e.what(); } catch (const std::exception& e) { return string("the assembler fails with ") + e.what(); }
    if (v == V::Accept && !acc) return "refused: " + why;
    if (v == V::Reject && acc) return "accepted";
    if (!acc) return "";
    X.c().interesting++;
    vm::Cfg cfg; cfg.alu = 2;
    for (auto& in: ins) for (string pre: cond(op) ? vector<string>{"CMP R1, R1", "CMP R1, 100", "NOP"} : vector<string>{"NOP"}) {
        auto text = around(pre, plain), real = around(pre, shown); string src = ".text\n"; for (auto& l: real) src += l + "\n";
        string data = ".data\n"; for (auto x: in.data) data += std::to_string(x) + "\n";
        try { auto d = behaves(X, vm::assemble(data + src), text, in, cfg); if (!d.empty()) return "after '" + pre + "': " + d; }
        catch (const ParserError& e) { return string("accepted alone but refused in a program: ") + e.what(); } catch (const std::exception& e) { return string("the assembler fails with ") + e.what(); }
    }
    return "";
}
} // namespace isa
