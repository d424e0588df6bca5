// P09: watchpoints fire exactly on writes to watched cells.
#include "dbg.h"
using namespace dbg; using runs::Case; using runs::Init;
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    vm::Cfg c1; vm::Cfg c3 = c1; c3.alu = 4;
    Init i0{{3, 2, 5, 1}, {1.5, -2.25}, {4, 3, 2, 1, 7}, "ab"};
    auto mk = [&](vector<string> p, vm::Cfg cfg) { Case c; c.prog = p; c.init = i0; c.cfg = cfg; return c; };
    auto base = [] { vector<Cmd> cs; cs.push_back({"continue", [](Session& s) { return s.cont(); }}); cs.push_back({"step", [](Session& s) { return s.step(); }}); return cs; };
    auto watch = [](vector<Cmd>& cs, uint64_t a) { string n = " " + std::to_string(a); cs.push_back({"watch" + n, [a](Session& s) { return s.watch(a); }}); cs.push_back({"unwatch" + n, [a](Session& s) { return s.unwatch(a); }}); };
    auto bp = [](vector<Cmd>& cs, uint64_t a) { string n = " " + std::to_string(a); cs.push_back({"set" + n, [a](Session& s) { return s.set(a); }}); cs.push_back({"unset" + n, [a](Session& s) { return s.unset(a); }}); };
    struct P { vector<string> prog; vector<uint64_t> w; vector<uint64_t> b; };
    vector<P> ps = {
        {{"MOV [3], R0", "MOV [4], R1", "MOV [3], R2", "MOV R1, [3]", "HALT"}, {3, 4, 5}, {}},
        {{"MOV R0, 3", "MOV [R0 + 1], R0", "PUSH R0", "DEC R0", "JNZ 1", "HALT"}, {4, 23, 3}, {2}},
        {{"CALL 3", "MOV [R1 * 2], 5", "HALT", "PUSH BP", "MOV [R0 + R1 * 1], R2", "POP BP", "RET"}, {23, 22, 5}, {4}},
        {{"CMP R0, 3", "JE 4", "MOV [2], 1", "JMP 5", "MOV [3], R0", "MOV [2], [3]", "FPUSH F0", "HALT"}, {2, 3, 23}, {5}},
        {{"MOV [3], R0", "PUTNUM R0", "DEC R0", "JNZ 0", "HALT"}, {3, 99}, {0, 1}},
    };
    ps[3].prog[5] = "MOV [2], R1";
    vector<Case> progs; vector<vector<Cmd>> cmds;
    for (auto& p: ps) { auto cs = base(); for (auto a: p.w) watch(cs, a); for (auto a: p.b) bp(cs, a); progs.push_back(mk(p.prog, c3)); cmds.push_back(cs); }
    histories(X, "histories", progs, cmds, A ? (T ? 4 : 3) : (T ? 6 : 5));
    { // slots: six cells, so that the limit of four, slot reuse and order of removal all occur
        auto cs = base(); cs.erase(cs.begin() + 1); for (uint64_t a: {0, 1, 2, 3, 4, 5}) watch(cs, a);
        histories(X, "slots", {mk({"MOV [0], R0", "MOV [1], R0", "MOV [2], R0", "MOV [3], R0", "MOV [4], R0", "MOV [5], R0", "DEC R3", "JZ 0", "HALT"}, c3)}, {cs}, A ? 3 : (T ? 6 : 4));
        // start from four watchpoints, all further histories
        auto ds = cs; ds.insert(ds.begin(), Cmd{"watch 1,0,3,2", [](Session& s) -> string { for (uint64_t a: {1, 0, 3, 2}) if (!s.model.wps.count(a)) if (auto d = s.watch(a); !d.empty()) return d; return ""; }}); std::swap(ds[0], ds[1]);
        histories(X, "slots-full", {mk({"MOV [0], R0", "MOV [1], R0", "MOV [2], R0", "MOV [3], R0", "MOV [4], R0", "MOV [5], R0", "HALT"}, c3)}, {ds}, A ? 2 : (T ? 6 : 5));
    }
    { // every program over an alphabet of writes, wrong-path writes and non-writes x every set of watched cells, run by continuing or by stepping
        vector<string> al = {"MOV [3], R0", "MOV [R1], 7", "PUSH R0", "POP R2", "CALL 4", "RET", "JMP 3", "JZ 2", "DEC R0", "MOV R2, [3]", "MOV [99], R0", "MOV [R0 + 1], R1"};
        vector<uint64_t> cells = {2, 3, 4, 22, 23}; unsigned len = A ? 2 : (T ? 5 : 4); uint64_t np = ex::ipow(al.size(), len);
        auto get = [&](uint64_t i) { ex::Digits d(i); bool step = d.take(2); uint64_t mask = d.take(1u << cells.size()); auto cfg = T || A ? (d.take(2) ? c3 : c1) : c3; vector<string> p; for (unsigned k = 0; k < len; ++k) p.push_back(al[d.take(al.size())]); p.push_back("INC R2"); p.push_back("HALT"); return std::make_tuple(mk(p, cfg), mask, step); };
        X.sweep("programs", np * (T || A ? 2 : 1) * 2 * (1u << cells.size()), [&](uint64_t i) {
            auto [c, mask, step] = get(i); if (__builtin_popcountll(mask) > 4) { X.c().skipped++; return; } { auto m = runs::makeRef(c); auto e = runs::runRef(X, m, 60); if (e == ref::Ev::Ok) { X.c().skipped++; return; } }
            string d; try { Session S(X, c); S.textCheck = false; d = S.begin(); for (size_t k = 0; k < cells.size() && d.empty(); ++k) if (mask >> k & 1) { S.native.SetWatchpointWrite(cells[k]); S.model.wps.insert(cells[k]); }
                if (d.empty()) { if (step) for (int n = 0; n < 80 && !S.over() && d.empty(); ++n) d = S.step(); else d = S.finish(); } X.c().traces++; if (mask) X.c().interesting++; }
            catch (const vm::Deadlock& x) { d = x.what(); } catch (const std::exception& x) { d = string("exception: ") + x.what(); }
            if (!d.empty()) X.report(d);
        }, [&](uint64_t i) { auto [c, mask, step] = get(i); string s; for (size_t k = 0; k < cells.size(); ++k) if (mask >> k & 1) s += " " + std::to_string(cells[k]); return runs::show(c) + " || watching" + s + (step ? ", stepping" : ", continuing"); });
    }
    { // cells of every magnitude: a watchpoint never fires for a cell whose number only looks alike
        auto cs = base(); for (uint64_t a: vector<uint64_t>{3, 259, 299, 3 + (1ull << 16), 3 + (1ull << 31), 3 + (1ull << 32), 3 + (1ull << 63), UINT64_MAX}) watch(cs, a); auto c = c3; c.nm = 300;
        histories(X, "far cells", {mk({"MOV [3], R0", "PUSH R1", "MOV [259], R2", "MOV [R0 + 256], R1", "HALT"}, c)}, {cs}, A ? 2 : (T ? 4 : 3));
    }
    return X.finish("every command history of the stated length over watch/unwatch, breakpoints, step and continue for five programs; every add/remove history over six cells (slot limit and reuse); every program of an alphabet with every set of watched cells, continued and stepped; watched cells of every magnitude; all state is compared with the model after each command",
        {"histories and programs are bounded as listed"});
}
