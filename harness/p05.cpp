// P05: the text the machine shows for an instruction reassembles to the same instruction.
#include "isa.h"
#include <cfloat>
using namespace isa; using runs::Init;
namespace {
struct C { string text; Init in; };
// modes: 0 assemble the shown text as a program, 1 write it back before execution, 2 execute, write back, execute again,
//        3 write it over another instruction, 4 only look at it after each stop (reading changes nothing, shows the same text)
string run(ex::Explorer& X, const C& c, int mode, const string& pre) {
    vm::Cfg cfg; cfg.alu = 2; auto text = around(pre, c.text); string data = ".data\n"; for (auto x: c.in.data) data += std::to_string(x) + "\n";
    auto prog = [&](const vector<string>& t) { string s = data + ".text\n"; for (auto& l: t) s += l + "\n"; return vm::assemble(s); };
    auto look = [](vm::Box& b) { auto l = vm::lines(b.ask("PEEKTEXT 1 1")); return l.size() == 1 ? l[0] : string("?"); };
    string shown; { vm::Box b(prog(text), cfg); if (b.receive() != "STOPPED") return "no initial stop"; shown = look(b); }
    if (shown == "?" || shown == "UNKNOWN COMMAND") return "no text is shown";
    auto write = [&](vm::Box& b) -> string { auto r = b.ask("POKETEXT 1 " + shown); if (r != "OK") return "writing '" + shown + "' back is answered with " + r; if (auto s = look(b); s != shown) return "'" + shown + "' is shown as '" + s + "' after writing it back"; return ""; };
    auto again = [&](vm::Box& b) -> string { auto s = look(b); return s == shown ? "" : "'" + shown + "' is shown as '" + s + "' later"; };
    string d;
    if (mode == 0) { auto t = text; t[1] = shown; try { auto p = prog(t); d = behaves(X, std::move(p), text, c.in, cfg, again, again); } catch (const ParserError& e) { d = string("refused: ") + e.what(); } }
    else if (mode == 1) d = behaves(X, prog(text), text, c.in, cfg, write, again);
    else if (mode == 2) d = behaves(X, prog(text), text, c.in, cfg, {}, [&](vm::Box& b) { auto r = write(b); return r.empty() ? again(b) : r; });
    else { auto t = text; t[1] = "MOV [R0 + 1], 77"; d = behaves(X, prog(t), text, c.in, cfg, write, again); }
    return d.empty() ? "" : "shown as '" + shown + "': " + d;
}
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    vector<C> cs; auto put = [&](const string& t, int64_t r1 = 2, int64_t r2 = 5, int k = 0) { Init in = init(k); if (!k) { in.r[1] = r1; in.r[2] = r2; } cs.push_back({t, in}); };
    auto fill = [&](const string& f, const string& a, const string& b, const string& i, const string& j) { string s; int n = 0, m = 0; for (char ch: f) if (ch == 'R') s += n++ ? b : a; else if (ch == 'i') s += m++ ? j : i; else if (ch == '+') s += " + "; else if (ch == '*') s += " * "; else s += ch; return s; };
    vector<string> regs = A ? vector<string>{"R0", "R2", "SP"} : vector<string>{"R0", "R1", "R2", "R3", "SP", "BP"}, fregs = {"F0", "F1"};
    vector<string> ints = A ? vector<string>{"0", "-3", "4"} : vector<string>{"0", "1", "-1", "2", "-3", "7", "12"}, floats = {"1.5", "-0.25", "3.0"};
    auto opds = [&](const string& f) { vector<string> v;
        if (f == "R") return regs; if (f == "F") return fregs; if (f == "i") return ints; if (f == "f") return floats;
        bool two = f.find('R') != f.rfind('R'), i = f.find('i') != f.npos, j = f.find('i') != f.rfind('i');
        for (auto& a: regs) for (auto& b: two ? vector<string>{"R1", "SP"} : vector<string>{""}) for (auto& x: i ? ints : vector<string>{""}) for (auto& y: j ? vector<string>{"2", "-1"} : vector<string>{""}) v.push_back(fill(f, a, b, x, y));
        if (f == "[i]") { v.clear(); for (string x: {"0", "5", "23", "24", "-1"}) v.push_back("[" + x + "]"); }
        return v; };
    // every documented form of every instruction over registers and small constants
    for (auto& [op, s]: table()) {
        if (!s.n) { put(op); continue; }
        for (auto& [d, r]: s.alt) for (auto& fd: d) {
            auto da = opds(fd); if (s.n == 1) { for (auto& a: da) for (int k = 0; k < 2; ++k) put(op + " " + a, 2, 5, k); continue; }
            for (auto& fr: r) { auto ra = opds(fr); bool wide = da.size() * ra.size() > (A ? 60u : 600u); for (size_t x = 0; x < da.size(); ++x) for (size_t y = 0; y < ra.size(); ++y) if (!wide || (x + y * 7) % (A ? (T ? 2 : 11) : 1) == 0) put(op + " " + da[x] + ", " + ra[y]); } }
    }
    // large constants: the base register brings the address back into memory
    vector<int64_t> big = {INT64_MAX, INT64_MIN, INT64_MIN + 1, 1LL << 31, (1LL << 31) - 1, -(1LL << 31), 1LL << 32, (1LL << 32) + 5, -(1LL << 32) - 3, 1LL << 53, (1LL << 53) + 1, 4611686018427387905LL, 100000, 1000000007, -99999};
    for (auto v: big) { string c = std::to_string(v); auto away = [&](int64_t t) { return (int64_t)((uint64_t)t - (uint64_t)v); };
        for (string s: {"MOV R0, ", "ADD R0, ", "XOR R2, ", "CMP R0, ", "PUSH ", "JMP ", "CALL ", "JNE ", "LOOP R0, ", "MOV [3], ", "MOV [R1 + R2], "}) put(s + c);
        for (string s: {"MOV R0, [R1 + " + c + "]", "MOV [R1 + " + c + "], F1", "SUB R0, [R1 + " + c + "]", "LEA R0, [R1 + " + c + "]", "ADD R0, R1 + " + c, "JNZ [R1 + " + c + "]"}) put(s, away(5));
        for (string s: {"MOV R0, [R1 + " + c + " + R2]", "LEA R0, [R1 + " + c + " + R2]", "MOV [R1 + " + c + " + R2 * 2], 5"}) put(s, away(3), 2);
        for (string s: {"MOV R0, [R1 + R2 * " + c + "]", "MOV [R1 + R2 * " + c + "], R3", "MOV R0, [R1 + 2 + R2 * " + c + "]", "LEA R0, [R1 + 2 + R2 * " + c + "]"}) put(s, away(4), 1);
        put("MOV R0, [R1 * " + c + "]", 0); }
    // floating constants
    vector<double> fs = {0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.3, 0.1 + 0.2, 1.0/3, 2.0/3, 1e-5, 1e-7, 1e15, 1e16, 1e17, 1e22, 1e23, 123456.789, 1234567.0, 12345678.9, 1e100, 1e-100, DBL_MAX, DBL_MIN, DBL_EPSILON, 5e-324, -5e-324, 4.9406564584124654e-323, 2.2250738585072011e-308, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 3.141592653589793, 2.718281828459045, 1.0000000000000002, 0.99999999999999989, 65504.0, 16777217.0, 5.0000001, 100.125, 1e6, 999999.5, 1e-6};
    for (int e = -300; e <= 300; e += T ? 3 : 20) fs.push_back(std::ldexp(1.2345678901234567, e));
    auto fixed = [](double v) { char b[1600]; snprintf(b, sizeof b, "%.1100f", v); string s = b; while (s.size() > 3 && s.back() == '0' && s[s.size()-2] != '.') s.pop_back(); return s; };
    for (auto v: fs) for (string s: {"MOV F0, ", "FADD F1, ", "FCMP F0, ", "FPUSH "}) put(s + fixed(v));
    const int M = 4;
    X.sweep("round-trip", cs.size() * M, [&](uint64_t i) {
        auto& c = cs[i / M]; string op = c.text.substr(0, c.text.find(' ')), d; X.visit(i); X.c().interesting++;
        try { for (string pre: cond(op) ? vector<string>{"CMP R1, R1", "CMP R1, 100", "NOP"} : vector<string>{"NOP"}) if (d = run(X, c, i % M, pre); !d.empty()) break; }
        catch (const vm::Deadlock& x) { d = x.what(); } catch (const ParserError& x) { d = string("the instruction itself is refused: ") + x.what(); } catch (const std::exception& x) { d = string("exception: ") + x.what(); }
        if (!d.empty()) X.report(d);
    }, [&](uint64_t i) { static const char* m[] = {"assembled from the shown text", "written back before execution", "executed, then written back", "written over another instruction"}; return cs[i / M].text + " || " + m[i % M]; });
    return X.finish("every documented operand form of every instruction over registers and small constants, 64-bit boundary constants and boundary floating constants; the text shown over the debug protocol is reassembled, or written back before, after, or over another instruction; text shown again, execution and flags are compared with the reference for the original text",
        {"the pass with memory-error detection takes every eleventh (thorough: second) pair of large operand sets", "shifts outside 0..63 and NRW of numbers outside 64 bits are not executed"});
}
