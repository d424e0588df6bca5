// P07: breakpoints stop exactly where set and change nothing else.
#include "dbg.h"
using namespace dbg; using runs::Case; using runs::Init;
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    vm::Cfg c1; vm::Cfg c3 = c1; c3.alu = 4;
    Init i0{{3, 2, 5, 1}, {1.5, -2.25}, {4, 3, 2, 1, 7}, "ab"};
    auto mk = [&](vector<string> p, vm::Cfg cfg) { Case c; c.prog = p; c.init = i0; c.cfg = cfg; return c; };
    struct P { vector<string> prog; vector<uint64_t> at; };
    vector<P> ps = {
        {{"MOV R0, 2", "PUTNUM R0", "LOOP R0, 1", "MOV [3], R0", "HALT"}, {1, 2}},                 // loop with breakpoints on body and jump
        {{"CALL 3", "PUTNUM R1", "HALT", "ADD R1, [2]", "RET"}, {0, 3}},                          // call: first instruction and callee
        {{"CALL 3", "CALL 3", "HALT", "INC R1", "RET"}, {1, 4}},                                 // return address and the return itself
        {{"FADD F0, 0.1", "PUSH R0", "FCMP F0, 1.6", "JL 5", "PUTNUM R0", "POP R1", "HALT"}, {0, 5}}, // constants of patched instructions survive
        {{"DEC R0", "JNZ 0", "MOV R1, [R0 + 3]", "HALT"}, {0, 3}},                               // jump back onto a breakpoint; breakpoint on the halt
        {{"JMP 2", "PUTNUM R0", "MOV R2, [99]", "HALT"}, {1, 2}},                                // never executed / faulting instruction
        {{"CMP R0, [0]", "JE 4", "MOV [3], R0", "JMP 5", "PUTNUM R1", "MOV R1, [3]", "HALT"}, {4, 5}},  // breakpoint on the wrong path
    };
    vector<Case> progs; vector<vector<Cmd>> cmds;
    for (auto& p: ps) {
        vector<Cmd> cs; cs.push_back({"continue", [](Session& s) { return s.cont(); }}); cs.push_back({"step", [](Session& s) { return s.step(); }});
        for (auto a: p.at) { string n = " " + std::to_string(a);
            cs.push_back({"set" + n, [a](Session& s) { return s.set(a); }}); cs.push_back({"unset" + n, [a](Session& s) { return s.unset(a); }});
            cs.push_back({"enable" + n, [a](Session& s) { return s.enable(a, true); }}); cs.push_back({"disable" + n, [a](Session& s) { return s.enable(a, false); }}); }
        progs.push_back(mk(p.prog, c3)); cmds.push_back(cs);
    }
    histories(X, "histories", progs, cmds, A ? (T ? 4 : 3) : (T ? 6 : 5));
    { // all subsets of breakpoints over whole programs: set, then continue to the end; and one toggle in the middle
        vector<vector<string>> bodies; vector<string> al = {"JMP 3", "JZ 2", "DEC R0", "LOOP R3, 0", "PUTNUM R0", "CALL 4", "RET", "MOV [3], R0", "PUSH 4", "MOV R1, [3]"};
        unsigned len = A ? 2 : (T ? 5 : 4); uint64_t np = ex::ipow(al.size(), len); unsigned plen = len + 2;
        auto get = [&](uint64_t i) { ex::Digits d(i); uint64_t mask = d.take(1u << plen); auto cfg = d.take(2) ? c3 : c1; vector<string> p; for (unsigned k = 0; k < len; ++k) p.push_back(al[d.take(al.size())]); p.push_back("INC R2"); p.push_back("HALT"); Case c = mk(p, cfg); c.init.r[3] = 2; return std::make_pair(c, mask); };
        X.sweep("subsets", np * 2 * (1u << plen), [&](uint64_t i) {
            auto [c, mask] = get(i); { auto m = runs::makeRef(c); auto e = runs::runRef(X, m, 60); if (e == ref::Ev::Ok) { X.c().skipped++; return; } }
            string d; try { Session S(X, c); d = S.begin(); S.textCheck = false; for (unsigned a = 0; a < plen && d.empty(); ++a) if (mask >> a & 1) { S.native.SetBreakpoint(a); S.model.bps[a] = true; } S.textCheck = true; if (d.empty()) d = S.finish(); X.c().traces++; if (mask) X.c().interesting++; }
            catch (const vm::Deadlock& x) { d = x.what(); } catch (const std::exception& x) { d = string("exception: ") + x.what(); }
            if (!d.empty()) X.report(d);
        }, [&](uint64_t i) { auto [c, mask] = get(i); return runs::show(c) + " || breakpoints mask " + std::to_string(mask); });
    }
    { // addresses of every magnitude, on a short and on a long program
        auto far = [](vector<uint64_t> at) { vector<Cmd> cs; cs.push_back({"continue", [](Session& s) { return s.cont(); }}); cs.push_back({"step", [](Session& s) { return s.step(); }});
            for (auto a: at) { string n = " " + std::to_string(a); cs.push_back({"set" + n, [a](Session& s) { return s.set(a); }}); cs.push_back({"unset" + n, [a](Session& s) { return s.unset(a); }}); cs.push_back({"disable" + n, [a](Session& s) { return s.enable(a, false); }}); } return cs; };
        vector<string> lng(262, "NOP"); lng[0] = "JMP 256"; lng[256] = "INC R0"; lng[257] = "MOV [3], R0"; lng[258] = "PUTNUM R0"; lng[259] = "CALL 261"; lng[260] = "HALT"; lng[261] = "RET";
        histories(X, "far addresses", {mk({"MOV R0, 2", "INC R1", "PUTNUM R0", "HALT"}, c3)}, {far({2, 3, 4, 2 + (1ull << 8), 2 + (1ull << 16), 2 + (1ull << 31), 2 + (1ull << 32), 2 + (1ull << 63), UINT64_MAX})}, A ? 2 : (T ? 4 : 3));
        histories(X, "long program", {mk(lng, c3)}, {far({2, 100, 255, 256, 258, 261})}, A ? 2 : (T ? 4 : 3));
    }
    return X.finish("every command history of the stated length over set/unset/enable/disable at two addresses, step and continue, for seven programs, and every subset of breakpoints on every program of an alphabet, breakpoints at addresses of every magnitude and throughout a long program; after each command all registers, memory, output, code listing, raw code and breakpoint list are compared with the model, then the program is run to its end",
        {"histories and programs are bounded as listed", "programs contain no BKPT instruction of their own", "a breakpoint at the current stop position is passed by the next resume, as in the model"});
}
