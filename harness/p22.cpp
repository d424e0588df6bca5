// P22: the configuration of the processor changes how long a program takes, never what it computes.
#include "direct.h"
using runs::Init; using std::string; using std::vector; using direct::Cfg;
struct Case { vector<string> prog; Init in; Cfg c; unsigned limit = 60; };
static string show(const Case& c) { string s = vm::join(c.prog) + " | "; for (auto v: c.in.r) s += std::to_string(v) + " "; return s + "| " + direct::show(c.c); }
static string check(ex::Explorer& X, const Case& c) {
    auto m = direct::makeRef(c.prog, c.in, c.c); auto e = runs::runRef(X, m, c.limit);
    if (e == ref::Ev::Ok || e == ref::Ev::Bkpt) { X.c().skipped++; return ""; }
    if (m.steps > 2) X.c().interesting++;
    tiny::t86::StatsLogger::instance().reset();
    try {
        tiny::t86::Cpu cpu(c.c.nr, c.c.nf, c.c.alu, c.c.rs, c.c.ram, c.c.gates);
        auto r = direct::run(cpu, vm::assemble(vm::programText(c.prog, c.in.data)), c.in, direct::enough(m.steps));
        if (r.late) return "no end after " + std::to_string(r.ticks) + " ticks, sequential execution takes " + std::to_string(m.steps) + " instructions";
        if (r.halted != (e == ref::Ev::Halt)) return r.halted ? "the run halted, sequential execution faults" : "the run failed with '" + r.what + "', sequential execution halts";
        auto d = direct::diff(cpu, m); if (!d.empty()) return d;
        if (r.out != m.out) return "printed '" + r.out + "', expected '" + m.out + "'";
    } catch (const std::exception& x) { return string("exception: ") + x.what(); }
    X.c().traces++; return "";
}
// The processor configured by arguments.  Every case runs in a process of its own, the configuration is a singleton.
struct Opt { const char* name; size_t dflt; vector<size_t> vals; };
static const vector<Opt> opts = {{"-registerCnt", 10, {2, 16}}, {"-floatRegisterCnt", 5, {1, 9}}, {"-aluCnt", 1, {2, 4}}, {"-reservationStationEntriesCnt", 2, {1, 5}}, {"-ram", 1024, {12, 2000}}, {"-ramGates", 4, {1, 2}}};
static vector<string> args(uint64_t i, Cfg* c) {
    ex::Digits d(i); vector<string> a; size_t v[6];
    for (int k = 0; k < 6; ++k) { auto n = d.take(3); v[k] = n ? opts[k].vals[n-1] : opts[k].dflt; if (n) a.push_back(string(opts[k].name) + "=" + std::to_string(v[k])); }
    if (c) *c = Cfg{v[0], v[1], v[2], v[3], v[4], v[5]};
    return a;
}
static string configured(uint64_t i, bool rev) {
    Cfg c; auto a = args(i, &c); if (rev) std::reverse(a.begin(), a.end()); a.insert(a.begin(), "program"); vector<char*> v; for (auto& s: a) v.push_back(s.data());
    tiny::config.parse((int)v.size(), v.data());
    using namespace tiny::t86; auto n = [](size_t x) { return std::to_string(x); };
    auto& g = Cpu::Config::instance();
    if (g.registerCnt() != c.nr || g.floatRegisterCnt() != c.nf || g.aluCnt() != c.alu || g.reservationStationEntriesCnt() != c.rs || g.ramSize() != c.ram || g.ramGatesCount() != c.gates) return "the configuration differs from the arguments";
    // programs that feel every option: registers up to the last, memory up to the last cell, and (by time) everything else
    string R = "R" + n(c.nr-1), F = "F" + n(c.nf-1), M = n(c.ram-1);
    vector<vector<string>> ps = {
        {"MOV " + R + ", 5", "MOV [" + M + "], " + R, "MOV R0, [" + M + "]", "PUTNUM R0", "PUSH R0", "HALT"},
        {"MOV " + F + ", 2.5", "FADD " + F + ", 1.0", "MOV R0, " + F, "PUTNUM R0", "HALT"},
        {"MOV R0, [1]", "MOV R1, [2]", "ADD R0, R1", "MOV R1, [3]", "MUL R0, R1", "ADD R1, [4]", "INC R0", "DEC R1", "MOV [5], R0", "MOV R0, [6]", "MOV R0, [7]", "MOV R1, [5]", "HALT"},
        {"ADD R0, 1", "ADD R1, 2", "NEG R0", "NOT R1", "ADD R0, 1", "ADD R1, 2", "MUL R0, R1", "XOR R1, 3", "NOP", "NOP", "NOP", "HALT"},
        {"MOV R" + n(c.nr) + ", 1", "HALT"}, {"MOV F" + n(c.nf) + ", 1.0", "HALT"}, {"MOV [" + n(c.ram) + "], 1", "HALT"}, {"MOV R0, [" + n(c.ram) + "]", "HALT"}};
    for (auto& p: ps) {
        StatsLogger::instance().reset();
        Init in; auto m = direct::makeRef(p, in, c); ref::Ev e; do e = m.step(); while (e == ref::Ev::Ok);
        Cpu cpu, same(c.nr, c.nf, c.alu, c.rs, c.ram, c.gates);
        string w = "program " + vm::join(p) + ": ";
        if (cpu.registersCount() != c.nr) return "registersCount() is " + n(cpu.registersCount()); if (cpu.floatRegistersCount() != c.nf) return "floatRegistersCount() is " + n(cpu.floatRegistersCount());
        if (cpu.getRegister(Register::StackPointer()) != (int64_t)c.ram) return "the stack starts at " + n(cpu.getRegister(Register::StackPointer())) + ", memory has " + n(c.ram) + " cells";
        auto r = direct::run(cpu, vm::assemble(vm::programText(p)), in, 2000), s = direct::run(same, vm::assemble(vm::programText(p)), in, 2000);
        if (r.late) return w + "no end";
        if (r.halted != (e == ref::Ev::Halt)) return w + (r.halted ? "halted instead of failing" : "failed with " + r.what);
        auto d = direct::diff(cpu, m); if (!d.empty()) return w + d; if (r.out != m.out) return w + "printed " + r.out;
        if (r.ticks != s.ticks) return w + "took " + n(r.ticks) + " ticks, a processor built with the same numbers takes " + n(s.ticks);
    }
    return "";
}
static string inChild(const std::function<string()>& f) {
    int p[2]; if (pipe(p)) return "pipe"; pid_t c = fork();
    if (!c) { close(p[0]); string s; try { s = f(); } catch (const std::exception& x) { s = string("exception: ") + x.what(); } s = "#" + s; (void)!write(p[1], s.data(), s.size()); _exit(0); }
    close(p[1]); string s; char b[4096]; ssize_t n; while ((n = read(p[0], b, 4096)) > 0) s.append(b, n); close(p[0]); int st; waitpid(c, &st, 0);
    if (s.empty()) return "the process died"; return s.substr(1);
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    Init i0{{3, 2, 5, 1}, {1.5, -2.25}, {4, 3, 2, 1, 7}, "ab"};
    vector<Cfg> grid;
    vector<size_t> RS = {1, 2, 3, 4, 5, 8, 16}, AL = {1, 2, 3, 8}, GA = {1, 2, 3, 8};
    if (A) { RS = {1, 3, 16}; AL = {1, 8}; GA = {1, 3}; } else if (T) { RS = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 40}; AL = {1, 2, 3, 4, 5, 8, 20}; GA = {1, 2, 3, 4, 5, 8, 20}; }
    for (auto rs: RS) for (auto al: AL) for (auto g: GA) { if (al > rs && al != AL.back()) continue; grid.push_back({4, 2, al, rs, 24, g}); }
    auto go = [&](const string& n, uint64_t size, std::function<Case(uint64_t)> g) { X.sweep(n, size, [&](uint64_t i) { auto d = check(X, g(i)); if (!d.empty()) X.report(d); }, [&](uint64_t i) { return show(g(i)); }); };
    auto seqs = [&](const string& n, vector<string> al, unsigned len, vector<string> tail, vector<string> head = {}, unsigned limit = 60) {
        if (T && !A) ++len; go(n, grid.size() * ex::ipow(al.size(), len), [=, &grid](uint64_t i) { ex::Digits d(i); Case c; c.limit = limit; c.in = i0; c.c = grid[d.take(grid.size())]; c.prog = head; for (unsigned k = 0; k < len; ++k) c.prog.push_back(al[d.take(al.size())]); c.prog.insert(c.prog.end(), tail.begin(), tail.end()); return c; }); };
    unsigned L = A ? 2 : 4;
    seqs("memory", {"MOV [3], R0", "MOV [R0], R1", "MOV R0, [3]", "MOV R1, [R0]", "MOV [R2 - 2], 9", "ADD R0, 1", "ADD R1, [3]", "PUSH R1", "POP R2"}, L, {"HALT"});
    seqs("branches", {"JMP 3", "JZ 2", "DEC R0", "JMP R1", "LOOP R3, 0", "CMP R0, 2", "PUTNUM R0", "JL [R3]", "CALL 5", "RET"}, L, {"ADD R2, R0", "PUTNUM R2", "HALT"});
    seqs("dependences", {"ADD R0, R1", "MOV R1, R0", "FADD F0, F1", "MOV F1, [2]", "EXT F0, R0", "NRW R1, F0", "JE 4", "MUL R1, R2", "BREAK", "PUTNUM R1"}, L, {"PUTNUM R0", "MOV [4], R1", "HALT"});
    seqs("loops", {"MOV [R3], R0", "MOV R0, [3]", "PUSH R1", "POP R2", "JZ 4", "ADD R1, [R3]", "INC R0", "CMP R1, R0"}, A ? 2 : 3, {"LOOP R3, 1", "PUTNUM R0", "HALT"}, {"MOV R3, 6"}, 200);
    { // sizes: the last register and cell are usable, the first beyond is refused
        vector<Case> v; for (size_t nr: {1, 2, 3, 4, 10, 100}) for (size_t nf: {0, 1, 2, 5, 20}) for (size_t ram: {1, 2, 3, 8, 24, 1024}) for (size_t rs: {1, 2, 8}) for (size_t al: {1, 3}) {
            Cfg c{nr, nf, al, rs, ram, 2}; Init in; in.r = {0};
            for (size_t k: {nr-1, nr, nr+1}) for (string t: {"MOV R", "INC R", "ADD R0, R", "PUSH R", "POP R", "MOV R0, [R", "PUTNUM R", "JMP R"}) { string s = t + std::to_string(k); if (t.find('[') != t.npos) s += "]"; if (t == "MOV R") s += ", 3"; v.push_back({{s, "PUTNUM R0", "HALT"}, in, c}); }
            for (size_t k: {nf ? nf-1 : 0, nf, nf+1}) for (string t: {"MOV F", "FADD F", "FPUSH F", "FPOP F", "MOV R0, F"}) { string s = t + std::to_string(k); if (t == "MOV F" || t == "FADD F") s += ", 1.5"; v.push_back({{"PUSH 1", s, "HALT"}, in, c}); }
            for (size_t k: {ram-1, ram, ram+1}) for (string t: {"MOV R0, [", "MOV [", "ADD R0, [", "PUSH 0"}) { string s = t == "PUSH 0" ? "MOV F0, [" + std::to_string(k) + "]" : t + std::to_string(k) + "]"; if (t == "MOV [") s += ", 3"; v.push_back({{s, "PUTNUM R0", "HALT"}, in, c}); }
            vector<string> p; for (size_t k = 0; k < std::min<size_t>(ram, 5); ++k) p.push_back("PUSH " + std::to_string(k)); p.push_back("PUSH 9"); p.push_back("HALT"); v.push_back({p, in, c}); p.erase(p.end()-2); v.push_back({p, in, c});
        }
        go("sizes", v.size(), [&](uint64_t i) { return v[i]; });
    }
    { // data longer than memory must be refused, data that just fits must not
        vector<Case> v; for (size_t ram: {1, 2, 5, 24}) for (size_t n = 1; n <= ram; ++n) for (size_t rs: {1, 4}) { Case c; c.c = Cfg{4, 2, 1, rs, ram, 1}; for (size_t k = 0; k < n; ++k) c.in.data.push_back(k + 3); c.prog = {"MOV R0, [" + std::to_string(n-1) + "]", "PUTNUM R0", "HALT"}; v.push_back(c); }
        go("data", v.size(), [&](uint64_t i) { return v[i]; });
    }
    if (!A || T) X.sweep("arguments", 729 * 2, [&](uint64_t i) { auto d = inChild([&] { return configured(i/2, i%2); }); X.c().traces++; X.c().interesting++; if (!d.empty()) X.report(d); },
        [&](uint64_t i) { auto a = args(i/2, nullptr); if (i%2) std::reverse(a.begin(), a.end()); return "processor of a program started with: " + vm::join(a, " "); });
    return X.finish("every program of the stated length over each alphabet on every processor of the grid (reservation-station entries x arithmetic units x memory gates), every size of register files and memory listed, and every combination of the six documented arguments, on the real processor without debugger, against the sequential reference; a configured processor must also take exactly as many ticks as one built with the same numbers",
        {"grid of up to 16 (thorough 40) entries, 8 (20) units and 8 (20) gates", "zero units, entries or gates are not configurations the documentation allows"});
}
