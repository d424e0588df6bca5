// P11: step-over and step-out respect calls and returns.
#include "dbg.h"
using namespace dbg; using runs::Case; using runs::Init;
namespace {
Event out(Session& s) {
    auto& M = s.model;
    for (unsigned n = 0; n < M.limit; ++n) {
        if (outside(s)) return {"outside"};
        if (n && M.atBp()) return {"breakpoint", (int64_t)M.m.pc};
        bool ret = is(s, "RET"); auto e = over(s); if (ret || e.kind != "step") return e;
    }
    M.tooLong = true; return {"too long"};
}
string perform(Session& s, Event (*f)(Session&), DebugEvent (*g)(Session&)) {
    auto w = f(s); if (w.kind == "outside" || s.model.tooLong) { s.model.tooLong = true; return ""; }
    return s.resumed(w, conv(g(s)));
}
string stepOver(Session& s) { return perform(s, over, [](Session& s) { return s.native.PerformStepOver(); }); }
string stepOut(Session& s) { return perform(s, out, [](Session& s) { return s.native.PerformStepOut(); }); }
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    vm::Cfg c3; c3.alu = 4;
    Init i0{{3, 2, 5, 1}, {1.5, -2.25}, {4, 3, 2, 1, 7}, "ab"};
    auto mk = [&](vector<string> p) { Case c; c.prog = p; c.init = i0; c.cfg = c3; return c; };
    auto base = [] { vector<Cmd> cs; cs.push_back({"next", stepOver}); cs.push_back({"finish", stepOut}); cs.push_back({"step", [](Session& s) { return s.step(); }}); cs.push_back({"continue", [](Session& s) { return s.cont(); }}); return cs; };
    auto bp = [](vector<Cmd>& cs, uint64_t a) { string n = " " + std::to_string(a); cs.push_back({"set" + n, [a](Session& s) { return s.set(a); }}); cs.push_back({"unset" + n, [a](Session& s) { return s.unset(a); }}); cs.push_back({"disable" + n, [a](Session& s) { return s.enable(a, false); }}); };
    auto wp = [](vector<Cmd>& cs, uint64_t a) { cs.push_back({"watch " + std::to_string(a), [a](Session& s) { return s.watch(a); }}); };
    struct P { vector<string> prog; vector<uint64_t> b, w; };
    vector<P> ps = {
        {{"CALL 3", "PUTNUM R1", "HALT", "INC R1", "CALL 6", "RET", "DEC R0", "RET"}, {1, 6}, {22}},                                  // nested
        {{"CALL 2", "HALT", "DEC R0", "JZ 6", "CALL 2", "INC R1", "RET"}, {5, 2}, {20}},                                               // recursion without a frame
        {{"MOV R0, 2", "CALL 3", "HALT", "PUSH BP", "MOV BP, SP", "DEC R0", "JZ 8", "CALL 3", "MOV SP, BP", "POP BP", "RET"}, {8, 3}, {21}},   // recursion with a frame
        {{"CALL 4", "CALL 4", "PUTNUM R1", "HALT", "INC R1", "RET"}, {1, 0}, {23}},                                                  // adjacent calls
        {{"CALL 2", "HALT", "MOV R1, [99]", "RET"}, {1}, {23}},                                                                       // error in the callee
        {{"CALL 2", "PUTNUM R0", "HALT"}, {1, 2}, {}},                                                                               // callee never returns
        {{"CALL 1", "INC R1", "CMP SP, 24", "JL 5", "HALT", "RET"}, {1, 5}, {23}},                                                     // call to the next instruction
        {{"MOV SP, 0", "CALL 3", "HALT", "RET"}, {2, 3}, {}},                                                                         // the call itself fails (no stack)
        {{"MOV R1, 4", "CALL R1", "PUTNUM R1", "HALT", "CALL 6", "RET", "CALL 8", "RET", "INC R2", "RET"}, {5, 7}, {21}},                 // three levels, call through a register
    };
    vector<Case> progs; vector<vector<Cmd>> cmds;
    for (auto& p: ps) { auto cs = base(); for (auto a: p.b) bp(cs, a); for (auto a: p.w) wp(cs, a); progs.push_back(mk(p.prog)); cmds.push_back(cs); }
    histories(X, "histories", progs, cmds, A ? (T ? 4 : 3) : (T ? 6 : 5));
    { // every program of an alphabet x every breakpoint placement x every start depth x command
        vector<string> al = {"CALL 2", "CALL 3", "CALL 4", "RET", "DEC R3", "JZ 4", "JMP 3", "MOV [23], 2", "HALT"};
        unsigned len = A ? 3 : (T ? 5 : 4); uint64_t np = ex::ipow(al.size(), len); unsigned plen = len + 2;
        auto get = [&](uint64_t i) { ex::Digits d(i); uint64_t b = d.take(plen + 1), steps = d.take(3), cmd = d.take(2); vector<string> p; for (unsigned k = 0; k < len; ++k) p.push_back(al[d.take(al.size())]); p.push_back("RET"); p.push_back("HALT"); return std::make_tuple(mk(p), b, steps, cmd); };
        X.sweep("programs", np * (plen + 1) * 6, [&](uint64_t i) {
            auto [c, b, steps, cmd] = get(i); string d;
            try { Session S(X, c); S.textCheck = false; S.model.limit = 60; d = S.begin(); for (unsigned k = 0; k < steps && d.empty() && !S.over(); ++k) d = S.step();
                if (d.empty() && !S.over() && b < plen) d = S.set(b);
                if (S.over() || outside(S)) { X.c().skipped++; if (!d.empty()) X.report(d); return; }
                S.textCheck = true; if (d.empty()) d = cmd ? stepOut(S) : stepOver(S);
                if (d.empty() && !S.over()) { d = stepOver(S); }
                if (d.empty() && !S.over()) { if (outside(S)) return; d = S.cont(); }
                X.c().traces++; X.c().interesting++; }
            catch (const vm::Deadlock& x) { d = x.what(); } catch (const std::exception& x) { d = string("exception: ") + x.what(); }
            if (!d.empty()) X.report(d);
        }, [&](uint64_t i) { auto [c, b, steps, cmd] = get(i); return runs::show(c) + " || " + std::to_string(steps) + " steps; breakpoint " + std::to_string(b) + "; " + (cmd ? "finish" : "next") + "; next; continue"; });
    }
    return X.finish("every command history of the stated length over next, finish, step, continue, breakpoints (also disabled ones) and a watchpoint on the stack for nine programs with nested, recursive, adjacent, failing and endless calls; every program of an alphabet with every breakpoint placement, start depth and command; the reported event, all state, the code and the breakpoint list are compared with the model",
        {"execution that leaves the code (return address past the last instruction) is not judged", "histories and programs are bounded as listed"});
}
