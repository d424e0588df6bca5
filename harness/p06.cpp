// P06: a single step executes exactly one instruction.
#include "dbg.h"
using runs::Space; using runs::Init; using runs::Case; using std::string; using std::vector;
// Step k instructions (through the debugger or by raw requests), then continue to the end; check every stop.
static string stepK(ex::Explorer& X, const Case& c, unsigned k, bool everyStop) {
    dbg::Session S(X, c); S.textCheck = false;
    if (auto d = S.begin(); !d.empty()) return d;
    for (unsigned i = 0; i < k && !S.over(); ++i) {
        if (everyStop) { if (auto d = S.step(); !d.empty()) return "step " + std::to_string(i+1) + ": " + d; }
        else { auto w = S.model.step(); auto g = dbg::conv(S.native.PerformSingleStep()); if (!(w == g)) return "step " + std::to_string(i+1) + " reports " + g.str() + ", expected " + w.str(); }
    }
    if (!everyStop && !S.over()) if (auto d = S.check(); !d.empty()) return "after " + std::to_string(k) + " steps: " + d;
    if (auto d = S.finish(); !d.empty()) return d;
    return "";
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    vm::Cfg c1; vm::Cfg c3 = c1; c3.alu = 4;
    Init i0{{3, 2, 5, 1}, {1.5, -2.25}, {4, 3, 2, 1, 7}, "ab"};
    auto run = [&](const string& n, vector<string> al, std::array<unsigned,4> len, vector<string> tail = {"HALT"}, vector<string> head = {}) {
        unsigned l = len[(A ? 0 : 2) + T]; if (!l) return;
        vector<vm::Cfg> cf = A ? vector<vm::Cfg>{c3} : vector<vm::Cfg>{c1, c3};
        Space s{al, l, head, tail, {i0}, cf, 30};
        // number of step prefixes tried per program: all of them
        X.sweep(n, s.size(), [&, s](uint64_t i) {
            Case c = s.get(i); auto m = runs::makeRef(c); auto e = runs::runRef(X, m, 30); if (e == ref::Ev::Ok || e == ref::Ev::Bkpt) { X.c().skipped++; return; }
            string d; unsigned n = m.steps; if (n > 2) X.c().interesting++;
            try {
                d = stepK(X, c, n, true);                                     // stepping all the way, state read at every stop
                for (unsigned k = 0; d.empty() && k < n; ++k) { d = stepK(X, c, k, false); X.c().traces++; }   // k steps, then continue
            } catch (const vm::Deadlock& x) { d = x.what(); } catch (const std::exception& x) { d = string("exception: ") + x.what(); }
            if (!d.empty()) X.report(d); else X.c().traces++;
        }, [s](uint64_t i) { return runs::show(s.get(i)); });
    };
    run("memory", {"MOV [3], R0", "MOV [R0], R1", "MOV R0, [3]", "MOV R1, [R0]", "ADD R0, 1", "MOV R2, [R1 + 1]", "ADD R1, [3]", "PUTNUM R1"}, {3, 4, 5, 6});
    run("branch", {"JMP 3", "JZ 2", "JNZ 4", "DEC R0", "JMP R1", "LOOP R3, 0", "CMP R0, 2", "PUTNUM R0", "JL [R3]", "HALT", "NOP"}, {3, 4, 4, 6}, {"ADD R2, R0", "PUTNUM R2", "HALT"});
    run("stack", {"PUSH R0", "POP R1", "CALL 3", "RET", "CALL R2", "MOV R2, [SP]", "POP BP", "MOV SP, BP", "FPUSH F0", "FPOP F1", "DIV R0, R1"}, {3, 4, 4, 6}, {"ADD R3, R0", "PUTNUM R3", "HALT"});
    run("io-flags-float", {"GETCHAR R0", "PUTCHAR R3", "FADD F0, F1", "EXT F1, R0", "FCMP F0, F1", "CMP R0, R1", "JG 5", "JB 4", "NEG R1", "BREAK", "MOV [2], F0", "NRW R2, F1"}, {3, 3, 4, 5}, {"JS 6", "ADD R3, R0", "JNE 8", "PUTNUM R3", "HALT", "PUTNUM R2", "HALT"});
    run("all", {"MOV R0, 5","MOV R0, R1","MOV R1, [R0 + 1 + R2]","MOV [R0 + R1], 6","MOV [R0 + 1 + R2 * 2], R3","LEA R1, [R0 + R2]","ADD R0, R1 + 1","SUB R1, R0","MUL R0, 3","IMUL R1, R0","DIV R0, 2","AND R0, R1","OR R1, [1]","NOT R1","LSH R0, 2","RSH R1, 1",
        "INC R0","DEC R1","CMP R0, R1","JZ 3","JG R2","JBE 4","JO 4","LOOP R1, 2","CALL 3","RET","PUSH R1","POP R0","PUTCHAR R3","PUTNUM R1","GETCHAR R0","NOP","BREAK","FADD F0, 1.5","FSUB F1, F0","FDIV F0, F1","FCMP F1, F0","EXT F1, R1","NRW R0, F1","FPUSH F1","FPOP F0","MOV F0, R1","MOV R1, F0","MOV R9, 1","MOV R1, [99]","DIV R0, 0"}, {2, 2, 3, 3}, {"ADD R3, R0", "PUTNUM R3", "MOV [4], R1", "HALT"});
    { // stops of every kind before, between and after single steps, with registers and memory changed there
        using namespace dbg; vector<Case> progs; vector<vector<Cmd>> cmds;
        struct P { vector<string> prog; vector<uint64_t> w, b; uint64_t cell; int reg; };
        for (auto& p: vector<P>{
            {{"MOV R2, 2", "MOV [5], 1", "MOV R1, R2", "MOV R3, R1", "ADD R3, [5]", "PUTNUM R3", "HALT"}, {5}, {3}, 5, 2},
            {{"MOV [4], R0", "MOV R1, [4]", "ADD R2, R1", "DEC R0", "JNZ 0", "PUTNUM R2", "HALT"}, {4}, {2}, 4, 0},
            {{"PUSH R0", "CALL 4", "PUTNUM R1", "HALT", "MOV R1, [SP + 1]", "ADD R1, R2", "RET"}, {23, 22}, {5}, 23, 2},
            {{"CMP R3, R1", "JZ 4", "MOV [R1], R1", "ADD R3, [R1]", "BREAK", "ADD R3, R3", "PUTNUM R3", "HALT"}, {2}, {4}, 2, 3}}) {
            vector<Cmd> cs{{"step", [](Session& s) { return s.step(); }}, {"continue", [](Session& s) { return s.cont(); }}};
            for (auto a: p.w) cs.push_back({"watch " + std::to_string(a), [a](Session& s) { return s.watch(a); }});
            for (auto a: p.b) { cs.push_back({"set " + std::to_string(a), [a](Session& s) { return s.set(a); }}); cs.push_back({"unset " + std::to_string(a), [a](Session& s) { return s.unset(a); }}); }
            auto cell = p.cell; int reg = p.reg;
            cs.push_back({"memory " + std::to_string(cell) + " = 9", [cell](Session& s) { s.native.SetMemory(cell, {9}); s.model.m.m[cell] = 9; return s.check(); }});
            cs.push_back({"R" + std::to_string(reg) + " = 3", [reg](Session& s) { s.native.SetRegister("R" + std::to_string(reg), 3); s.model.m.r[reg] = 3; return s.check(); }});
            for (auto cfg: A ? vector<vm::Cfg>{c3} : vector<vm::Cfg>{c1, c3}) { Case c; c.prog = p.prog; c.init = i0; c.cfg = cfg; progs.push_back(c); cmds.push_back(cs); }
        }
        histories(X, "stops", progs, cmds, A ? (T ? 4 : 3) : (T ? 7 : 6));
    }
    return X.finish("every history of the stated length of steps, continues, breakpoint and watchpoint changes and changes of a register and a memory cell, for four programs on two machines; every program of the stated length over each alphabet; for each, stepping throughout with full comparison at every stop, and for every k stepping k times and then continuing; non-trivial = executes more than two instructions",
        {"programs that do not end within 30 reference steps are outside the bound", "instruction pointer is not judged at a CPU error"});
}
