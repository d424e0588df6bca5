// P08: code is viewed and edited as if no breakpoints existed.
#include "dbg.h"
using namespace dbg; using runs::Case; using runs::Init;
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    vm::Cfg c1; vm::Cfg c3 = c1; c3.alu = 4;
    Init i0{{3, 2, 5, 1}, {1.5, -2.25}, {4, 3, 2, 1, 7}, "ab"};
    auto mk = [&](vector<string> p, vm::Cfg cfg) { Case c; c.prog = p; c.init = i0; c.cfg = cfg; return c; };
    struct P { vector<string> prog; vector<uint64_t> at; vector<std::pair<uint64_t,vector<string>>> wr; };
    vector<P> ps = {
        {{"MOV R0, 2", "PUTNUM R0", "LOOP R0, 1", "HALT"}, {1}, {{1, {"PUTNUM R1"}}, {1, {"INC R2", "LOOP R0, 0"}}, {0, {"MOV R0, -1", "PUTNUM R3"}}, {3, {"NOP", "HALT"}}}},
        {{"CALL 3", "PUTNUM R1", "HALT", "FADD F0, 0.1", "RET"}, {3, 1}, {{3, {"MOV R1, [R2 + R0 * 2]"}}, {3, {"RET"}}, {2, {"CALL 3", "MOV [2], R1"}}}},
        {{"MOV [3], R0", "DEC R0", "JNZ 0", "MOV R1, [3]", "HALT"}, {2, 0}, {{2, {"JNZ 1"}}, {0, {"MOV [R0 + 1], 9", "SUB R0, 3"}}}},
        {{"PUTNUM R0", "JMP 3", "PUTNUM R1", "PUTNUM R2", "HALT"}, {3}, {{1, {"JMP 2"}}, {3, {"BREAK"}}, {1, {"NOP", "NOP", "CALL 4"}}, {4, {"JMP 4", "NOP"}}}},
    };
    vector<Case> progs; vector<vector<Cmd>> cmds;
    for (auto& p: ps) {
        vector<Cmd> cs; cs.push_back({"continue", [](Session& s) { return s.cont(); }}); cs.push_back({"step", [](Session& s) { return s.step(); }});
        for (auto a: p.at) { string n = " " + std::to_string(a);
            cs.push_back({"set" + n, [a](Session& s) { return s.set(a); }}); cs.push_back({"unset" + n, [a](Session& s) { return s.unset(a); }});
            cs.push_back({"disable" + n, [a](Session& s) { return s.enable(a, false); }}); cs.push_back({"enable" + n, [a](Session& s) { return s.enable(a, true); }}); }
        for (auto& [a, t]: p.wr) { uint64_t at = a; auto tx = t; cs.push_back({"write " + std::to_string(at) + " {" + vm::join(tx) + "}", [at, tx](Session& s) { return s.write(at, tx); }}); }
        progs.push_back(mk(p.prog, c3)); cmds.push_back(cs);
    }
    histories(X, "histories", progs, cmds, A ? (T ? 4 : 3) : (T ? 6 : 5));
    { // refused writes change nothing; reads outside the code are refused
        vector<Cmd> cs; cs.push_back({"continue", [](Session& s) { return s.cont(); }}); cs.push_back({"step", [](Session& s) { return s.step(); }}); cs.push_back({"set 1", [](Session& s) { return s.set(1); }}); cs.push_back({"disable 1", [](Session& s) { return s.enable(1, false); }}); cs.push_back({"unset 1", [](Session& s) { return s.unset(1); }});
        cs.push_back({"write 1 {INC R3}", [](Session& s) { return s.write(1, {"INC R3"}); }});
        for (string t: {"FOO", "MOV R0", "PUTNUM R1 R2", "MOV 1, R0", ""}) cs.push_back({"write 1 {" + t + "} (malformed)", [t](Session& s) { return s.judge("a malformed instruction", true, s.refused([&] { s.native.WriteText(1, {t}); })); }});
        for (uint64_t a: {(uint64_t)4, (uint64_t)99, UINT64_MAX, UINT64_MAX - 1}) { string n = std::to_string(a);
            cs.push_back({"write " + n + " {NOP}", [a](Session& s) { return s.judge("a write outside the code", true, s.refused([&] { s.native.WriteText(a, {"NOP"}); })); }});
            cs.push_back({"read " + n, [a](Session& s) { return s.judge("a read outside the code", true, s.refused([&] { s.native.ReadText(a, 2); })); }});
            cs.push_back({"set " + n, [a](Session& s) { return s.set(a); }}); }
        cs.push_back({"write 3 {NOP,NOP}", [](Session& s) { return s.write(3, {"NOP", "NOP"}); }});
        for (uint64_t a = 0; a <= 4; ++a) for (size_t n = 0; n + a <= 4; ++n) cs.push_back({"read " + std::to_string(a) + "+" + std::to_string(n), [a, n](Session& s) -> string {
            auto t = s.native.ReadText(a, n); if (t.size() != n) return "read " + std::to_string(t.size()) + " instructions"; for (size_t i = 0; i < n; ++i) if (t[i] != Session::canon(s.model.text[a + i])) return "reads '" + t[i] + "' at " + std::to_string(a + i); return s.check(); }});
        histories(X, "refused", {mk({"MOV R0, 2", "PUTNUM R0", "LOOP R0, 1", "HALT"}, c3)}, {cs}, A ? 2 : (T ? 4 : 3));
    }
    { // reads and writes of code at addresses and of lengths of every magnitude, in a long program
        vector<string> lng(300, "NOP"); lng[0] = "JMP 256"; lng[256] = "INC R0"; lng[257] = "MOV [3], R0"; lng[258] = "PUTNUM R0"; lng[259] = "HALT"; for (size_t k = 260; k < 300; ++k) lng[k] = "ADD R1, " + std::to_string(k);
        vector<uint64_t> v; for (int b: {0, 3, 7, 8, 9, 15, 16, 31, 32, 33, 62, 63}) for (int o: {-1, 0, 2}) v.push_back((1ull << b) + o); for (uint64_t x: {(uint64_t)299, (uint64_t)300, (uint64_t)301, UINT64_MAX - 1, UINT64_MAX, UINT64_MAX - 299}) v.push_back(x);
        auto get = [=](uint64_t i) { ex::Digits d(i); uint64_t a = v[d.take(v.size())], n = v[d.take(v.size())]; return std::make_tuple(a, n, d.take(3)); };
        X.sweep("far addresses", v.size() * v.size() * 3, [&](uint64_t i) { auto [a, n, bp] = get(i); string d;
            try { Session S(X, mk(lng, c3)); S.textCheck = false; d = S.begin(); if (d.empty() && bp) d = S.set(258); if (d.empty() && bp == 2) d = S.enable(258, false);
                if (d.empty()) { bool in = a <= lng.size() && n <= lng.size() - a; vector<string> t; bool r = S.refused([&] { t = S.native.ReadText(a, n); }); if (n || !r) { if (in == r) d = r ? "a read inside the code is refused" : "a read outside the code is accepted"; else if (in && t.size() != n) d = "reads " + std::to_string(t.size()) + " instructions"; else if (in) for (size_t k = 0; k < n && d.empty(); ++k) if (t[k] != Session::canon(lng[a + k])) d = "reads '" + t[k] + "' at " + std::to_string(a + k); } }
                if (d.empty() && n <= 513) d = S.write(a, vector<string>(n, "INC R3")); S.textCheck = true; if (d.empty()) d = S.check(); if (d.empty()) { S.textCheck = false; S.model.limit = 320; d = S.finish(); } X.c().traces++; X.c().interesting++; }
            catch (const vm::Deadlock& x) { d = x.what(); } catch (const std::exception& x) { d = string("exception: ") + x.what(); }
            if (!d.empty()) X.report(d); }, [get](uint64_t i) { auto [a, n, bp] = get(i); return "read and write of " + std::to_string(n) + " instructions at " + std::to_string(a) + " of 300" + (bp == 1 ? ", breakpoint on 258" : bp ? ", disabled breakpoint on 258" : ""); });
    }
    { // every instruction of a list written over every other one; the list varies each operand of each form alone
        vector<string> ins; auto add = [&](std::initializer_list<const char*> l) { for (auto t: l) ins.push_back(t); };
        add({"NOP", "RET", "HALT", "BREAK", "MOV R0, 2", "MOV R0, 3", "MOV R1, 2", "MOV R0, R1", "MOV R0, R2", "MOV R1, R2", "MOV R2, R1", "MOV SP, R1", "MOV BP, R1", "MOV R1, SP", "MOV R1, BP", "MOV R0, F0", "MOV R0, F1", "MOV R1, F1", "MOV F0, 2.0", "MOV F0, 2.5", "MOV F1, 2.5", "MOV F0, F1", "MOV F1, F0", "MOV F0, R1", "MOV F0, R2", "MOV F1, R2",
            "MOV R0, [2]", "MOV R0, [3]", "MOV R1, [2]", "MOV F0, [2]", "MOV F1, [2]", "MOV R0, [R1]", "MOV R0, [R2]", "MOV R1, [R2]", "MOV F0, [R1]", "MOV R0, [R1 + 2]", "MOV R0, [R1 + 1]", "MOV R0, [R1 - 1]", "MOV R0, [R2 + 1]", "MOV R1, [R1 + 1]", "MOV R0, [R1 * 2]", "MOV R0, [R1 * 1]", "MOV R0, [R2 * 2]", "MOV R0, [R1 + R2]", "MOV R0, [R2 + R1]", "MOV R0, [R1 + R3]", "MOV R0, [R1 + R2 * 1]", "MOV R0, [R1 + R2 * 2]", "MOV R0, [R2 + R1 * 2]", "MOV R0, [R1 + 1 + R2]", "MOV R0, [R1 + 2 + R2]", "MOV R0, [R2 + 1 + R1]", "MOV R0, [R1 + 1 + R2 * 2]", "MOV R0, [R1 + 2 + R2 * 2]", "MOV R0, [R1 + 1 + R2 * 3]", "MOV R0, [R1 + 1 + R3 * 2]",
            "MOV [2], R0", "MOV [3], R0", "MOV [2], R1", "MOV [2], 7", "MOV [2], 8", "MOV [2], F0", "MOV [2], F1", "MOV [R1], R0", "MOV [R2], R0", "MOV [R1], R2", "MOV [R1], 7", "MOV [R1 + 1], R0", "MOV [R1 + 2], R0", "MOV [R1 + 1], R2", "MOV [R1 * 2], R0", "MOV [R1 * 1], R0", "MOV [R1 + R2], R0", "MOV [R1 + R3], R0", "MOV [R1 + R2 * 2], R0", "MOV [R1 + R2 * 1], R0", "MOV [R1 + 1 + R2], R0", "MOV [R1 + 2 + R2], R0", "MOV [R1 + 1 + R2 * 2], R0", "MOV [R1 + 1 + R2 * 1], R0", "MOV [R1 + 1 + R2 * 2], 9", "MOV [R1 + 1 + R2 * 2], F1",
            "LEA R0, [R1 + 1]", "LEA R0, [R1 + 2]", "LEA R2, [R1 + 1]", "LEA R0, [R2 + 1]", "LEA R0, [R1 + R2]", "LEA R0, [R1 + R2 * 2]", "LEA R0, [R1 + R2 * 3]", "LEA R0, [R1 + 1 + R2]", "LEA R0, [R1 + 1 + R2 * 2]", "LEA R2, [R1 + 1 + R2 * 2]",
            "ADD R0, 2", "ADD R0, 3", "ADD R1, 2", "ADD R0, R1", "ADD R0, R2", "ADD R1, R2", "ADD R0, R1 + 1", "ADD R0, R1 + 2", "ADD R0, R2 + 1", "ADD R2, R1 + 1", "ADD R0, [2]", "ADD R0, [3]", "ADD R1, [2]", "ADD R0, [R1]", "ADD R0, [R2]", "ADD R0, [R1 + 1]", "ADD R0, [R1 + 2]", "ADD R2, [R1 + 1]", "SUB R0, 2", "SUB R0, R1", "SUB R1, R0", "MUL R0, 2", "IMUL R0, 2", "DIV R0, 2", "IDIV R0, 2", "AND R0, 2", "OR R0, 2", "XOR R0, 2", "LSH R0, 2", "RSH R0, 2",
            "CMP R0, 2", "CMP R0, 3", "CMP R1, 2", "CMP R0, R1", "CMP R0, R2", "CMP R0, [2]", "CMP R0, [R1]", "INC R0", "INC R1", "DEC R0", "DEC R1", "NEG R0", "NEG R1", "NOT R0", "NOT R1", "JMP 2", "JMP 3", "JMP R1", "JMP R2", "JZ 3", "JZ 2", "JNZ 3", "JZ R1", "JZ [3]", "JZ [R1 + 1]", "JE 3", "JNE 3", "JG 3", "JGE 3", "JL 3", "JLE 3", "JA 3", "JAE 3", "JB 3", "JBE 3", "JO 3", "JNO 3", "JS 3", "JNS 3", "LOOP R0, 0", "LOOP R1, 0", "LOOP R0, 3", "LOOP R0, R1", "CALL 3", "CALL 2", "CALL R1", "CALL R2", "PUSH R0", "PUSH R1", "PUSH 2", "PUSH 3", "POP R0", "POP R1", "FPUSH F0", "FPUSH F1", "FPUSH 1.5", "FPUSH 2.5", "FPOP F0", "FPOP F1",
            "PUTCHAR R0", "PUTCHAR R1", "PUTNUM R0", "PUTNUM R1", "GETCHAR R0", "GETCHAR R1", "FADD F0, F1", "FADD F1, F0", "FADD F0, 0.5", "FADD F0, 1.5", "FADD F1, 0.5", "FSUB F0, F1", "FMUL F0, F1", "FDIV F0, F1", "FDIV F0, 2.0", "FCMP F0, F1", "FCMP F1, F0", "FCMP F0, 1.5", "EXT F0, R1", "EXT F1, R1", "EXT F0, R2", "NRW R0, F1", "NRW R1, F1", "NRW R0, F0"});
        if (A) { vector<string> v; for (size_t i = 0; i < ins.size(); i += T ? 3 : 8) v.push_back(ins[i]); ins = v; }
        const int M = 4; uint64_t n = ins.size(); Init in{{66, 2, 3, 1}, {1.5, -2.25}, {4, 3, 2, 1, 3, 5, 6, 7, 8, 9}, "ab"}; in.sp = 20; in.bp = 6;
        auto get = [=](uint64_t i) { ex::Digits d(i); int mode = d.take(M); string a = ins[d.take(n)], b = ins[d.take(n)]; Case c; c.prog = {"CMP R3, 1", a, "ADD R3, 4", "JZ 5", "ADD R3, 8", "PUTNUM R3", "HALT"}; c.init = in; c.cfg = c3; return std::make_tuple(c, b, mode); };
        static const char* mn[] = {"written at the start", "written under a breakpoint, which is then hit", "written over an executed instruction, then executed", "written under a disabled breakpoint, which is then enabled and removed"};
        X.sweep("pairs", n * n * M, [&](uint64_t i) { auto [c, b, mode] = get(i); string d; X.c().interesting++;
            try { Session S(X, c); d = S.begin(); auto t = [&](string r) { if (d.empty() && !S.over()) d = r; }; auto go = [&](auto f) { if (d.empty() && !S.over()) d = f(); };
                if (mode == 1) go([&] { return S.set(1); }); if (mode == 3) { go([&] { return S.set(1); }); go([&] { return S.enable(1, false); }); }
                if (mode == 2) { go([&] { return S.step(); }); go([&] { return S.step(); }); if (S.over()) return; go([&]() -> string { S.native.SetRegister("IP", 1); S.model.m.pc = 1; return ""; }); }
                go([&] { return S.write(1, {b}); }); if (mode == 3) { go([&] { return S.enable(1, true); }); go([&] { return S.unset(1); }); }
                if (mode == 1) go([&] { return S.cont(); }); if (mode == 2) go([&] { return S.step(); });
                if (d.empty() && !S.over()) d = S.finish(); X.c().traces++; (void)t;
            } catch (const vm::Deadlock& x) { d = x.what(); } catch (const std::exception& x) { d = string("exception: ") + x.what(); }
            if (!d.empty()) X.report(d);
        }, [&](uint64_t i) { auto [c, b, mode] = get(i); return runs::show(c) + " || '" + b + "' " + mn[mode]; });
    }
    return X.finish("every command history of the stated length over breakpoint commands, single and multi-instruction code writes, step and continue, for four programs, plus malformed and out-of-range reads and writes at addresses of every magnitude, plus every ordered pair of about 190 instructions (each operand of each form varied alone) where the second is written over the first, before or after its execution, with and without breakpoints there; after each command the code listing, raw code, registers, memory, output and breakpoint list are compared with the model, then the program is run to its end",
        {"histories and programs are bounded as listed", "multi-instruction writes contain well-formed instructions only"});
}
