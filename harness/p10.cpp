// P10: inspection and modification while stopped are exact.
#include "dbg.h"
#include <cmath>
using namespace dbg; using runs::Case; using runs::Init;
namespace {
string reg(Session& s, const string& n, int64_t v) {
    s.native.SetRegister(n, v);
    if (n == "IP") s.model.m.pc = v; else if (n == "SP") s.model.m.sp = v; else if (n == "BP") s.model.m.bp = v; else s.model.m.r[atoi(n.c_str() + 1)] = v;
    if (s.native.GetRegister(n) != v) return n + " reads back as " + std::to_string(s.native.GetRegister(n));
    return s.check();
}
string freg(Session& s, size_t i, double v) { s.native.SetFloatRegister("F" + std::to_string(i), v); s.model.m.f[i] = v; if (!vm::same(s.native.GetFloatRegister("F" + std::to_string(i)), v)) return "a float register reads back differently"; return s.check(); }
string mem(Session& s, uint64_t a, vector<int64_t> v) { s.native.SetMemory(a, v); for (size_t i = 0; i < v.size(); ++i) s.model.m.m[a + i] = v[i]; if (s.native.ReadMemory(a, v.size()) != v) return "memory reads back differently"; return s.check(); }
vector<Cmd> pokes(const vector<string>& what) {
    vector<Cmd> cs;
    for (auto& w: what) { std::istringstream is(w); string n; is >> n;
        if (n[0] == 'F') { double v; is >> v; cs.push_back({w, [n, v](Session& s) { return freg(s, atoi(n.c_str() + 1), v); }}); }
        else if (n == "mem") { uint64_t a; int64_t v; vector<int64_t> vs; is >> a; while (is >> v) vs.push_back(v); cs.push_back({w, [a, vs](Session& s) { return mem(s, a, vs); }}); }
        else { int64_t v; is >> v; cs.push_back({w, [n, v](Session& s) { return reg(s, n, v); }}); } }
    return cs;
}
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    vm::Cfg c1; vm::Cfg c3 = c1; c3.alu = 4;
    Init i0{{3, 2, 5, 1}, {1.5, -2.25}, {4, 3, 2, 1, 7}, "ab"};
    auto mk = [&](vector<string> p, vm::Cfg cfg) { Case c; c.prog = p; c.init = i0; c.cfg = cfg; return c; };
    auto run = [](vector<Cmd> v) { v.insert(v.begin(), {{"continue", [](Session& s) { return s.cont(); }}, {"step", [](Session& s) { return s.step(); }}}); return v; };
    auto with = [](vector<Cmd> v, Cmd c) { v.push_back(c); return v; };
    auto bp = [](uint64_t a) { return Cmd{"set " + std::to_string(a), [a](Session& s) { return s.set(a); }}; };
    auto wp = [](uint64_t a) { return Cmd{"watch " + std::to_string(a), [a](Session& s) { return s.watch(a); }}; };
    vector<Case> progs; vector<vector<Cmd>> cmds;
    auto add = [&](vector<string> p, vector<Cmd> c) { progs.push_back(mk(p, c3)); cmds.push_back(c); };
    add({"MOV R1, [3]", "MOV R2, [3]", "ADD R1, [3]", "MOV [4], R1", "MOV R0, [4]", "HALT"}, with(with(run(pokes({"mem 3 50", "mem 4 60 61", "R1 9", "IP 0", "IP 3"})), bp(2)), wp(4)));
    add({"PUSH R0", "MOV R1, [23]", "POP R2", "CALL 5", "HALT", "MOV R3, [SP]", "RET"}, with(with(run(pokes({"mem 23 4", "SP 22", "BP 3", "R0 -1", "IP 5"})), bp(2)), wp(23)));
    add({"CMP R0, R1", "JG 3", "PUTNUM R1", "MOV [3], R0", "MOV R2, [3]", "PUTNUM R2", "HALT"}, with(with(run(pokes({"R0 1", "R1 9", "mem 3 8", "IP 1"})), bp(1)), wp(3)));
    add({"FADD F0, F1", "FPUSH F0", "MOV F1, [23]", "FCMP F1, F0", "JE 6", "PUTNUM R0", "HALT"}, with(with(run(pokes({"F0 0.1", "F1 -7.5", "mem 23 4607182418800017408", "IP 2"})), bp(1)), wp(23)));
    add({"MOV [3], R0", "MOV R1, [3]", "LOOP R0, 0", "MOV [R1 + 2], R1", "MOV R2, [R1 + 2]", "HALT"}, with(with(run(pokes({"mem 3 6", "mem 2 1 2 3", "R0 2", "R1 0"})), bp(1)), wp(3)));
    histories(X, "histories", progs, cmds, A ? (T ? 4 : 3) : (T ? 6 : 5));
    { // every program x every way to stop x every single modification x continue or step
        vector<string> al = {"MOV R1, [3]", "MOV [3], R0", "PUSH R1", "POP R0", "ADD R0, R1", "MOV R2, [R1 + 1]", "JZ 3", "MOV [4], R1", "CALL 3", "DEC R1", "MOV R0, [SP]", "RET"};
        auto ps = pokes({"R0 1", "R1 2", "SP 23", "mem 3 11", "mem 4 12", "mem 23 2", "mem 22 3 4", "IP 1"});
        unsigned len = A ? 2 : (T ? 5 : 4); uint64_t np = ex::ipow(al.size(), len);
        // stops: 0..2 steps (0 = start), breakpoint 1..3, watchpoint on 3, 4, 23
        const unsigned STOPS = 9;
        auto get = [&](uint64_t i) { ex::Digits d(i); unsigned stop = d.take(STOPS), pk = d.take(ps.size()), go = d.take(T ? 2 : 1); vector<string> p; for (unsigned k = 0; k < len; ++k) p.push_back(al[d.take(al.size())]); p.push_back("PUTNUM R0"); p.push_back("HALT"); return std::make_tuple(mk(p, c3), stop, pk, go); };
        X.sweep("programs", np * STOPS * ps.size() * (T ? 2 : 1), [&](uint64_t i) {
            auto [c, stop, pk, go] = get(i); string d;
            try {
                Session S(X, c); S.textCheck = false; S.model.limit = 60; d = S.begin();
                if (stop < 3) for (unsigned k = 0; k < stop && d.empty() && !S.over(); ++k) d = S.step();
                else {
                    if (stop < 6) d = S.set(stop - 2); else d = S.watch(stop == 6 ? 3 : stop == 7 ? 4 : 23);
                    if (d.empty()) d = S.cont();
                }
                if (d.empty() && !S.over()) d = ps[pk].run(S);
                if (d.empty() && !S.over()) { if (go) for (int n = 0; n < 60 && !S.over() && d.empty(); ++n) d = S.step(); else d = S.finish(); X.c().traces++; X.c().interesting++; } else if (d.empty()) X.c().skipped++;
            } catch (const vm::Deadlock& x) { d = x.what(); } catch (const std::exception& x) { d = string("exception: ") + x.what(); }
            if (!d.empty()) X.report(d);
        }, [&](uint64_t i) { auto [c, stop, pk, go] = get(i); return runs::show(c) + " || " + (stop < 3 ? std::to_string(stop) + " steps" : stop < 6 ? "to breakpoint " + std::to_string(stop - 2) : "to watchpoint " + std::to_string(stop == 6 ? 3 : stop == 7 ? 4 : 23)) + "; " + ps[pk].name + "; " + (go ? "step on" : "continue"); });
    }
    { // exact values and refusals
        auto c = mk({"MOV R0, [3]", "PUTNUM R0", "HALT"}, c3); vector<Cmd> cs;
        for (auto v: {"0", "1", "-1", "9223372036854775807", "-9223372036854775808", "4294967296", "1000000000000000000"}) { for (auto t: {"R0 ", "R3 ", "SP ", "BP ", "mem 0 ", "mem 23 "}) for (auto& p: pokes({string(t) + v})) cs.push_back(p); }
        for (double v: {0.0, -0.0, 0.1, 1e300, -2.5e-310, 3.0, 1e22, 123456789.125, 5e-324, (double)INFINITY}) cs.push_back({"F1 " + std::to_string(v), [v](Session& s) { return freg(s, 1, v); }});
        auto no = [&](string n, std::function<void(Session&)> f) { cs.push_back({n, [f, n](Session& s) { return s.judge(n.c_str(), true, s.refused([&] { f(s); })); }}); };
        for (string n: {"R4", "R", "X0", "", "F0", "R-1", "R99999999999999999999"}) { no("set register " + n, [n](Session& s) { s.native.SetRegister(n, 1); }); no("get register " + n, [n](Session& s) { s.native.GetRegister(n); }); }
        for (string n: {"F2", "F", "R0", ""}) { no("set float register " + n, [n](Session& s) { s.native.SetFloatRegister(n, 1); }); no("get float register " + n, [n](Session& s) { s.native.GetFloatRegister(n); }); }
        for (uint64_t a: {(uint64_t)23, (uint64_t)24, (uint64_t)99, UINT64_MAX, UINT64_MAX - 1}) { string n = std::to_string(a); no("write two cells at " + n, [a](Session& s) { s.native.SetMemory(a, {1, 2}); }); no("read two cells at " + n, [a](Session& s) { s.native.ReadMemory(a, 2); }); no("read all cells at " + n, [a](Session& s) { s.native.ReadMemory(a, SIZE_MAX); }); }
        cs.push_back({"step", [](Session& s) { return s.step(); }});
        histories(X, "values", {c}, {cs}, A ? 1 : (T ? 3 : 2));
    }
    { // many registers and cells: names and numbers of several digits
        auto c = c3; c.nr = 113; c.nf = 102; c.nm = 300; auto k = mk({"MOV R10, R1", "MOV [R11 + 256], R101", "MOV F101, F10", "ADD R112, R10", "HALT"}, c); k.init.r.assign(113, 0); k.init.f.assign(102, 0); for (size_t i = 0; i < 113; ++i) k.init.r[i] = 3 + i; for (size_t i = 0; i < 102; ++i) k.init.f[i] = 0.5 + i; k.init.r[11] = 2;
        vector<string> what; for (int i: {0, 1, 2, 9, 10, 11, 12, 99, 100, 101, 110, 111, 112}) what.push_back("R" + std::to_string(i) + " -77"); for (int i: {0, 1, 10, 11, 99, 100, 101}) what.push_back("F" + std::to_string(i) + " -7.25"); for (int i: {0, 9, 10, 99, 100, 255, 256, 257, 258, 299}) what.push_back("mem " + std::to_string(i) + " 70"); what.push_back("mem 297 5 6 7"); what.push_back("SP 111"); what.push_back("IP 3");
        auto cs = run(pokes(what)); auto no = [&](string n, std::function<void(Session&)> f) { cs.push_back({n, [f, n](Session& s) { return s.judge(n.c_str(), true, s.refused([&] { f(s); })); }}); };
        for (string n: {"R113", "R1000", "R256", "R4294967296"}) { no("set register " + n, [n](Session& s) { s.native.SetRegister(n, 1); }); no("get register " + n, [n](Session& s) { s.native.GetRegister(n); }); } no("set float register F102", [](Session& s) { s.native.SetFloatRegister("F102", 1); });
        for (uint64_t a: vector<uint64_t>{300, 556, 1ull << 16, 1ull << 32, 5 + (1ull << 32), 1ull << 63}) { string n = std::to_string(a); no("write cell " + n, [a](Session& s) { s.native.SetMemory(a, {1}); }); no("read cell " + n, [a](Session& s) { s.native.ReadMemory(a, 1); }); }
        histories(X, "many registers", {k}, {cs}, A ? 1 : (T ? 3 : 2));
    }
    { // float registers show and keep every bit: numbers around each power of two and ten, quotients and sums without a short decimal form
        vector<double> vs; auto around = [&](double v) { for (double x: {v, std::nextafter(v, 0.0), std::nextafter(v, INFINITY), v * 1.1, v / 3}) { vs.push_back(x); vs.push_back(-x); } };
        for (int e = -1074; e <= 1023; e += (T ? 1 : 3)) around(std::ldexp(1.0, e));
        for (int e = -307; e <= 307; e += (T ? 1 : 2)) around(std::pow(10.0, e));
        for (int i = 1; i < 60; ++i) { vs.push_back(i / 10.0 + 0.2); vs.push_back(1.0 / i); vs.push_back(i * 0.1); vs.push_back(9007199254740993.0 - i); vs.push_back(std::sqrt(i)); }
        uint64_t n = vs.size() * 2;
        auto get = [=](uint64_t i) { Case c = mk({"MOV [3], F0", "FADD F1, F0", "HALT"}, c3); c.init.f = {vs[i/2], 1.5}; return c; };
        if (!A || T) X.sweep("floats", n, [&, get](uint64_t i) { auto c = get(i); double v = c.init.f[0]; string d; Session S(X, c); S.textCheck = false;
            try {
                d = S.begin(); if (d.empty()) d = i % 2 ? freg(S, 1, v / 7) : reg(S, "R0", 4); if (d.empty()) d = S.step(); if (d.empty()) d = freg(S, 1, v); if (d.empty()) d = S.step(); if (d.empty()) d = S.finish(); X.c().traces++; X.c().interesting++;
            } catch (const vm::Deadlock& x) { d = x.what(); } catch (const std::exception& x) { d = string("exception: ") + x.what(); }
            if (!d.empty()) X.report(d); }, [get](uint64_t i) { char b[64]; snprintf(b, sizeof b, "%.17g", get(i).init.f[0]); return runs::show(get(i)) + " || F0 = " + b + (i % 2 ? ", setting F1" : ", setting R0"); });
    }
    return X.finish("every command history over register, float, memory and instruction pointer modifications, breakpoints, watchpoints, step and continue for five programs; every program of an alphabet x every stop (start, after steps, at breakpoints, at watchpoints) x every single modification, then run on; every listed extreme value and every invalid name or address, also on a machine with more than a hundred registers of each kind; float registers holding numbers around every power of two and ten; all state is compared with a sequential machine modified in the same way",
        {"histories and programs are bounded as listed", "the flags register is not modified (its encoding is not documented)"});
}
