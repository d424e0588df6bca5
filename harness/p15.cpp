// P15: line tables and function names give the documented addresses; source step and next stop at lines.
#include "dbg.h"
#include "debugger/Source/Source.h"
using namespace dbg; using runs::Case; using runs::Init; using std::optional;
namespace {
using Table = std::map<size_t, uint64_t>;
string show(const Table& t) { string s; for (auto& [l, a]: t) s += std::to_string(l) + ":" + std::to_string(a) + " "; return s; }
string show(optional<uint64_t> v) { return v ? std::to_string(*v) : "none"; }
bool mapped(const Table& t, uint64_t a) { for (auto& [l, x]: t) if (x == a) return true; return false; }
struct Fn { string name; int b, e; };   // -1: attribute missing
DIE unit(const vector<Fn>& fs, bool reversed) { vector<DIE> ch; for (auto& f: fs) { vector<DIE_ATTR> at; if (!f.name.empty()) at.push_back(ATTR_name{f.name}); if (f.b >= 0) at.push_back(ATTR_begin_addr{(uint64_t)f.b}); if (f.e >= 0) at.push_back(ATTR_end_addr{(uint64_t)f.e}); if (reversed) std::reverse(at.begin(), at.end()); ch.push_back(DIE(DIE::TAG::function, at, {})); } return DIE(DIE::TAG::compilation_unit, {}, ch); }
// model of the source level steps
Event srcStep(Session& s, const Table& t, bool next) {
    auto& M = s.model; if (outside(s)) return {"outside"};
    auto e = next ? over(s) : M.step();
    for (unsigned n = 0; e.kind == "step" && !mapped(t, M.m.pc); ++n) {
        if (n > M.limit) { M.tooLong = true; return {"too long"}; }
        if (outside(s)) return {"outside"};
        if (M.atBp()) return {"breakpoint", (int64_t)M.m.pc};
        e = next ? over(s) : M.step();
    }
    return e;
}
string perform(Session& s, const Table& t, const Source& src, bool next) {
    auto w = srcStep(s, t, next); if (w.kind == "outside" || s.model.tooLong) { s.model.tooLong = true; return ""; }
    return s.resumed(w, conv(next ? src.StepOver(s.native) : src.StepIn(s.native)));
}
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    { // lookups: every table
        unsigned L = A ? 3 : (T ? 5 : 4), n = 4; uint64_t nt = ex::ipow(n + 2, L);   // per line: unmapped, 0..n-1, beyond the code
        vector<vector<Fn>> fsets = {{}, {{"main", 0, 4}}, {{"f", 0, 2}, {"main", 2, 4}}, {{"main", 2, 4}, {"f", 0, 2}}, {{"main", 1, -1}, {"g", -1, 3}, {"h", 3, 4}}, {{"", 0, 4}, {"f", 1, 2}}, {{"e", 2, 2}, {"f", 2, 3}}, {{"1", 0, 1}, {"2x", 3, 4}}};
        vector<string> strs = {"", "0", "1", "2", "3", "4", "5", "6", "00", "01", "-1", "+1", "1x", "x1", " 1", "18446744073709551615", "18446744073709551616", "main", "f", "mai", "mainx", "g", "h", "e", "MAIN", "1.0", "0x1"};
        auto get = [&](uint64_t i) { ex::Digits d(i); size_t f = d.take(fsets.size()), rev = d.take(2); Table t; for (unsigned l = 0; l < L; ++l) { auto v = d.take(n + 2); if (v) t[l] = v - 1; } return std::make_tuple(f, rev, t); };
        X.sweep("lookup", nt * fsets.size() * 2, [&](uint64_t i) {
            auto [f, rev, t] = get(i); Source s; string d; auto& fs = fsets[f];
            if (!(t.empty() && rev)) s.RegisterLineMapping(LineMapping(t)); if (!(fs.empty() && rev)) s.RegisterDebuggingInformation(unit(fs, rev));
            for (size_t l = 0; l < L + 2 && d.empty(); ++l) { optional<uint64_t> w; if (t.count(l)) w = t[l]; auto g = s.LineToAddr(l); if (g != w) d = "line " + std::to_string(l) + " has address " + show(g) + ", expected " + show(w); X.c().transitions++; }
            for (uint64_t a = 0; a < n + 3 && d.empty(); ++a) {
                optional<uint64_t> w; for (auto& [l, x]: t) if (x == a) w = l; auto g = s.AddrToLine(a); if (optional<uint64_t>(g) != w) d = "address " + std::to_string(a) + " has line " + show(g) + ", expected " + show(w);
                optional<string> fw; for (auto& x: fs) if (!fw && !x.name.empty() && x.b >= 0 && x.e >= 0 && (uint64_t)x.b <= a && a < (uint64_t)x.e) fw = x.name; auto fg = s.GetFunctionNameByAddress(a); if (fg != fw) d = "address " + std::to_string(a) + " belongs to " + fg.value_or("none") + ", expected " + fw.value_or("none"); X.c().transitions++;
            }
            for (auto& q: strs) for (bool one: {false, true}) {
                if (!d.empty()) break; X.c().transitions++;
                optional<uint64_t> w; bool num = !q.empty() && q.find_first_not_of("0123456789") == q.npos; errno = 0; uint64_t line = num ? strtoull(q.c_str(), 0, 10) : 0; if (errno) num = false;
                if (num) { if (!(one && !line) && t.count(line - one)) w = t[line - one]; } else for (auto& x: fs) if (x.name == q && !q.empty()) { if (x.b >= 0 && x.e >= 0) w = x.b; break; }
                optional<uint64_t> g; try { g = s.GetAddressFromString(q, one); } catch (const DebuggerError&) {}
                if (g != w) d = "'" + q + "'" + (one ? " (lines from 1)" : "") + " gives " + show(g) + ", expected " + show(w);
                if (!num) { optional<std::pair<uint64_t,uint64_t>> fw; for (auto& x: fs) if (x.name == q && !q.empty()) { if (x.b >= 0 && x.e >= 0) fw = {x.b, x.e}; break; } if (s.GetFunctionAddrByName(q) != fw) d = "wrong range for function '" + q + "'"; }
            }
            X.visit(std::hash<string>{}(show(t)) + f * 7); X.c().interesting++; X.c().traces++;
            if (!d.empty()) X.report(d);
        }, [&](uint64_t i) { auto [f, rev, t] = get(i); string r; for (auto& x: fsets[f]) r += x.name + "=" + std::to_string(x.b) + ".." + std::to_string(x.e) + " "; return "lines " + show(t) + "| functions " + r + (rev ? "| attributes reversed" : ""); });
    }
    { // line numbers and addresses of every magnitude
        vector<uint64_t> v = {0, 1, 2, 127, 128, 255, 256, 65535, 65536, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, 1ull << 63, UINT64_MAX - 1}; uint64_t n = v.size();
        auto get = [=](uint64_t i) { ex::Digits d(i); Table t; uint64_t l1 = v[d.take(n)], a1 = v[d.take(n)], l2 = v[d.take(n)], a2 = v[d.take(n)]; t[l1] = a1; t[l2] = a2; return t; };
        X.sweep("magnitudes", n * n * n * n, [&, get](uint64_t i) { auto t = get(i); string d; Source s; s.RegisterLineMapping(LineMapping(t));
            for (auto x: v) { optional<uint64_t> w; if (t.count(x)) w = t[x]; auto g = s.LineToAddr(x); if (g != w && d.empty()) d = "line " + std::to_string(x) + " has address " + show(g) + ", expected " + show(w);
                w = {}; for (auto& [l, a]: t) if (a == x) w = l; auto h = s.AddrToLine(x); if (optional<uint64_t>(h) != w && d.empty()) d = "address " + std::to_string(x) + " has line " + show(h) + ", expected " + show(w);
                for (bool one: {false, true}) { optional<uint64_t> w, g; if (!(one && !x) && t.count(x - one)) w = t[x - one]; try { g = s.GetAddressFromString(std::to_string(x), one); } catch (const DebuggerError&) {} if (g != w && d.empty()) d = "'" + std::to_string(x) + "'" + (one ? " (lines from 1)" : "") + " gives " + show(g) + ", expected " + show(w); } X.c().transitions += 4; }
            X.visit(i); X.c().interesting++; X.c().traces++; if (!d.empty()) X.report(d); }, [get](uint64_t i) { return "lines " + show(get(i)); });
        auto getf = [=](uint64_t i) { ex::Digits d(i); uint64_t b = v[d.take(n)], e = v[d.take(n)], b2 = v[d.take(n)]; return std::make_tuple(b, e, b2); };
        X.sweep("function magnitudes", n * n * n, [&, getf](uint64_t i) { auto [b, e, b2] = getf(i); string d; Source s; auto fn = [](const string& n, uint64_t b, uint64_t e) { return DIE(DIE::TAG::function, {ATTR_name{n}, ATTR_begin_addr{b}, ATTR_end_addr{e}}, {}); };
            bool two = b2 >= e && b < e; vector<DIE> ch{fn("f", b, e)}; if (two) ch.push_back(fn("g", b2, b2 + 1)); s.RegisterDebuggingInformation(DIE(DIE::TAG::compilation_unit, {}, ch));
            for (auto x: v) { optional<string> w; if (b <= x && x < e) w = "f"; else if (two && x == b2) w = "g"; auto g = s.GetFunctionNameByAddress(x); if (g != w && d.empty()) d = "address " + std::to_string(x) + " belongs to " + g.value_or("none") + ", expected " + w.value_or("none"); }
            if (d.empty() && s.GetFunctionAddrByName("f") != optional<std::pair<uint64_t,uint64_t>>({b, e})) d = "wrong range of f"; if (d.empty() && two && s.GetAddressFromString("g", true) != b2) d = "wrong address of g";
            X.visit(i); X.c().interesting++; X.c().traces++; X.c().transitions += n + 2; if (!d.empty()) X.report(d); }, [getf](uint64_t i) { auto [b, e, b2] = getf(i); return "functions f=" + std::to_string(b) + ".." + std::to_string(e) + " g=" + std::to_string(b2); });
    }
    vm::Cfg c3; c3.alu = 4; Init i0{{3, 2, 5, 1}, {1.5, -2.25}, {4, 3, 2, 1, 7}, "ab"};
    auto mk = [&](vector<string> p) { Case c; c.prog = p; c.init = i0; c.cfg = c3; return c; };
    { // breakpoints by line act on exactly that address of the real machine
        vector<string> prog = {"MOV R1, 2", "ADD R1, 3", "PUTNUM R1", "HALT"}; unsigned L = T && !A ? 3 : 2, n = 4;
        vector<const char*> ops = {"set", "unset", "enable", "disable"}; unsigned depth = A ? 2 : 3; uint64_t nt = ex::ipow(n + 2, L), nc = ex::ipow(ops.size() * (L + 1), depth);
        auto get = [&](uint64_t i) { ex::Digits d(i); Table t; vector<std::pair<int,size_t>> h; for (unsigned k = 0; k < depth; ++k) { int o = d.take(4); h.push_back({o, d.take(L + 1)}); } for (unsigned l = 0; l < L; ++l) { auto v = d.take(n + 2); if (v) t[l] = v - 1; } return std::make_pair(t, h); };
        X.sweep("breakpoints", nt * nc, [&](uint64_t i) {
            auto [t, h] = get(i); string d; Source src; src.RegisterLineMapping(LineMapping(t));
            try { Session S(X, mk(prog)); d = S.begin();
                for (auto& [o, l]: h) { if (!d.empty()) break; optional<uint64_t> a; if (t.count(l)) a = t[l]; bool have = a && S.model.bps.count(*a); bool bad = !a || (o == 0 ? have || *a >= n : !have); optional<uint64_t> g; bool r = S.refused([&] { g = o == 0 ? src.SetSourceSoftwareBreakpoint(S.native, l) : o == 1 ? src.UnsetSourceSoftwareBreakpoint(S.native, l) : o == 2 ? src.EnableSourceSoftwareBreakpoint(S.native, l) : src.DisableSourceSoftwareBreakpoint(S.native, l); });
                    if (!bad) { if (o == 0) S.model.bps[*a] = true; else if (o == 1) S.model.bps.erase(*a); else S.model.bps[*a] = o == 2; }
                    if (!r && g != a) d = "the reported address is " + show(g) + ", expected " + show(a); else d = S.judge(ops[o], bad, r); if (!d.empty()) d = string(ops[o]) + " line " + std::to_string(l) + ": " + d; }
                if (d.empty()) d = S.finish(); X.c().traces++; X.c().interesting++;
            } catch (const vm::Deadlock& x) { d = x.what(); } catch (const std::exception& x) { d = string("exception: ") + x.what(); }
            if (!d.empty()) X.report(d);
        }, [&](uint64_t i) { auto [t, h] = get(i); string r = "lines " + show(t) + "|"; for (auto& [o, l]: h) r += string(" ") + ops[o] + " " + std::to_string(l) + ";"; return r; });
    }
    // stepping: mask of mapped addresses x breakpoint x watchpoint x start x command sequence
    struct P { vector<string> prog; uint64_t w; };
    vector<P> ps = {
        {{"MOV R1, 2", "DEC R0", "JNZ 1", "MOV [20], R1", "PUTNUM R0", "HALT"}, 20},                     // loop
        {{"CALL 3", "PUTNUM R1", "HALT", "INC R1", "CALL 6", "RET", "DEC R0", "RET"}, 22},               // nested calls
        {{"CALL 2", "HALT", "DEC R0", "JZ 6", "CALL 2", "INC R1", "RET"}, 20},                           // recursion
        {{"CALL 4", "CALL 4", "PUTNUM R1", "HALT", "INC R1", "RET"}, 23},                                // adjacent calls
        {{"JMP 3", "MOV R1, [99]", "HALT", "CALL 5", "JMP 1", "MOV [9], 4", "RET"}, 9},                  // error later, code out of order
        {{"JMP 0", "HALT"}, 3},                                                                          // endless (every mask that stops)
    };
    auto run = [&](const Case& c, uint64_t mask, int64_t bp, int64_t wp, unsigned start, const vector<int>& cmds, bool share) -> string {
        Table t; size_t l = 0; for (uint64_t a = 0; a < c.prog.size(); ++a) if (mask >> a & 1) { t[l++] = a; if (share) t[l++] = a; }
        Source src; src.RegisterLineMapping(LineMapping(t)); Session S(X, c); S.model.limit = 60; S.textCheck = false; string d = S.begin();
        for (unsigned k = 0; k < start && d.empty() && !S.over(); ++k) { if (outside(S)) { X.c().skipped++; return ""; } d = S.step(); }
        if (d.empty() && !S.over() && wp >= 0) d = S.watch(wp); if (d.empty() && !S.over() && bp >= 0) d = S.set(bp);
        S.textCheck = true; size_t k = 0;
        for (; k < cmds.size() && d.empty() && !S.over(); ++k) { if (cmds[k] == 2) { if (outside(S)) break; d = S.cont(); } else d = perform(S, t, src, cmds[k]); if (!d.empty()) d = "command " + std::to_string(k + 1) + ": " + d; }
        if (!k) X.c().skipped++; X.c().traces++; X.c().interesting++; return d;
    };
    auto guard = [&](auto f) { string d; try { d = f(); } catch (const vm::Deadlock& x) { d = x.what(); } catch (const std::exception& x) { d = string("exception: ") + x.what(); } if (!d.empty()) X.report(d); };
    auto cmdText = [](const vector<int>& c) { string r; for (auto k: c) r += k == 0 ? "step; " : k == 1 ? "next; " : "continue; "; return r; };
    { unsigned depth = A ? 1 : (T ? 3 : 2), starts = T && !A ? 4 : 2, shares = T && !A ? 2 : 1; vector<uint64_t> base{0}; for (auto& p: ps) base.push_back(base.back() + (1ull << p.prog.size()) * (p.prog.size() + 1) * 2 * shares * starts * ex::ipow(3, depth));
        auto get = [&](uint64_t i) { size_t p = 0; while (base[p+1] <= i) ++p; ex::Digits d(i - base[p]); auto& q = ps[p]; vector<int> cmds; for (unsigned k = 0; k < depth; ++k) cmds.push_back(d.take(3)); uint64_t mask = d.take(1ull << q.prog.size()); int64_t bp = d.take(q.prog.size() + 1); bp = bp == (int64_t)q.prog.size() ? -1 : bp; int64_t wp = d.take(2) ? q.w : -1; bool sh = d.take(shares); unsigned start = d.take(starts) * 4 / starts; return std::make_tuple(p, mask, bp, wp, start, cmds, sh); };
        X.sweep("steps", base.back(), [&](uint64_t i) { guard([&] { auto [p, mask, bp, wp, start, cmds, sh] = get(i); return run(mk(ps[p].prog), mask, bp, wp, start, cmds, sh); }); },
            [&](uint64_t i) { auto [p, mask, bp, wp, start, cmds, sh] = get(i); return runs::show(mk(ps[p].prog)) + " || lines at mask " + std::to_string(mask) + (sh ? " (two each)" : "") + "; breakpoint " + std::to_string(bp) + "; watch " + std::to_string(wp) + "; " + std::to_string(start) + " steps; " + cmdText(cmds); });
    }
    { vector<string> al = {"CALL 2", "CALL 3", "RET", "DEC R3", "JZ 4", "JMP 1", "MOV [23], 2", "HALT"}; unsigned len = A ? 2 : (T ? 4 : 3), plen = len + 2; uint64_t np = ex::ipow(al.size(), len);
        auto get = [&](uint64_t i) { ex::Digits d(i); int c1 = d.take(2), c2 = d.take(2); uint64_t mask = d.take(1ull << plen); int64_t bp = d.take(plen + 1); if (bp == (int64_t)plen) bp = -1; unsigned st = d.take(2); vector<string> p; for (unsigned k = 0; k < len; ++k) p.push_back(al[d.take(al.size())]); p.push_back("RET"); p.push_back("HALT"); return std::make_tuple(mk(p), mask, bp, st, vector<int>{c1, c2}); };
        X.sweep("programs", np * 4 * (1ull << plen) * (plen + 1) * 2, [&](uint64_t i) { guard([&] { auto [c, mask, bp, st, cmds] = get(i); return run(c, mask, bp, -1, st, cmds, false); }); },
            [&](uint64_t i) { auto [c, mask, bp, st, cmds] = get(i); return runs::show(c) + " || lines at mask " + std::to_string(mask) + "; breakpoint " + std::to_string(bp) + "; " + std::to_string(st) + " steps; " + cmdText(cmds); });
    }
    return X.finish("every line table of the stated size (lines unmapped, sharing an address, beyond the code) with eight sets of functions and every query, also with lines, addresses and ranges of every magnitude; every history of breakpoint commands by line on the real machine; source step, next and continue for six programs and all programs of an alphabet x every set of addresses that begin a line x breakpoint placements x watchpoint x start point, each stop, event and state compared with the model",
        {"several functions with the same name or overlapping ranges are not judged", "execution that leaves the code is not judged", "endless steps without a line are not judged"});
}
