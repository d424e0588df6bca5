// P24: the statistics of a run count what sequential execution executes.
#include "direct.h"
using runs::Init; using std::string; using std::vector; using direct::Cfg;
struct Case { vector<string> prog; Init in; Cfg c; unsigned limit = 60; bool again = false; };
static string show(const Case& c) { string s = vm::join(c.prog) + " | "; for (auto v: c.in.r) s += std::to_string(v) + " "; return s + "| " + direct::show(c.c) + (c.again ? ", second run" : ""); }
static double number(const string& text, const string& after) { auto p = text.find(after); if (p == text.npos) return NAN; return strtod(text.c_str() + p + after.size(), nullptr); }
static string near(const string& what, double got, double want) { if (std::abs(got - want) <= 1e-4 * std::max(1.0, std::abs(want))) return ""; return what + " is " + std::to_string(got) + ", expected " + std::to_string(want); }
static string check(ex::Explorer& X, const Case& c) {
    auto m = direct::makeRef(c.prog, c.in, c.c); std::map<string, uint64_t> by; ref::Ev e = ref::Ev::Ok;
    for (unsigned i = 0; i < c.limit && e == ref::Ev::Ok; ++i) { if (m.inText()) by[m.text[m.pc].op]++; else by["NOP"]++; e = m.step(); X.visit(m.hash()); }
    if (e != ref::Ev::Halt) { X.c().skipped++; return ""; }
    if (m.steps > 2) X.c().interesting++;
    try {
        auto& st = tiny::t86::StatsLogger::instance(); st.reset();
        if (c.again) { tiny::t86::Cpu other(c.c.nr, c.c.nf, 2, 4, c.c.ram, 1); direct::run(other, vm::assemble(vm::programText({"ADD R0, 1", "JZ 3", "PUTNUM R0", "HALT"})), c.in, 500); st.reset(); }
        tiny::t86::Cpu cpu(c.c.nr, c.c.nf, c.c.alu, c.c.rs, c.c.ram, c.c.gates);
        auto r = direct::run(cpu, vm::assemble(vm::programText(c.prog, c.in.data)), c.in, direct::enough(m.steps));
        if (!r.halted) return "the run did not halt " + r.what;
        if (st.tickCount() != r.ticks) return "tickCount() is " + std::to_string(st.tickCount()) + " after " + std::to_string(r.ticks) + " ticks";
        std::ostringstream b, d; st.processBasicStats(b); st.processDetailedStats(d); string B = b.str(), D = d.str(), w; double n = m.steps, t = r.ticks;
        if (!(w = near("Total ticks", number(B, "Total ticks: "), t)).empty()) return w;
        if (!(w = near("Total instructions executed", number(B, "Total instructions executed: "), n)).empty()) return w;
        if (!(w = near("Times executed", number(B, "Times executed: "), n)).empty()) return w;
        if (!(w = near("Throughput", number(B, "Throughput: "), n / t)).empty()) return w;
        if (!(w = near("Average instruction latency", number(B, "Average instruction latency: "), t / n)).empty()) return w;
        // the averages of the parts make up the averages of the whole, and no average is negative or longer than the run
        std::map<string, uint64_t> got; std::map<string, double> sum, all; string op; double k = 0;
        auto each = [&](const string& text, std::map<string, double>& into, bool det) -> string {
            for (auto& l: vm::lines(text)) {
                if (l.rfind("Averages for ", 0) == 0) { std::istringstream is(l.substr(13)); is >> op; while (!op.empty() && !isalnum((unsigned char)op.back())) op.pop_back(); continue; }
                auto p = l.find(": "); if (p == l.npos || l[0] != ' ') continue; string key = l.substr(l.find_first_not_of(' '), p - l.find_first_not_of(' ')); double v = strtod(l.c_str() + p + 2, nullptr);
                if (key == "Times executed") { k = v; if (det) got[op] += (uint64_t)v; continue; }
                if (v < -1e-9) return key + " is negative: " + l; if (v > t && key.find("register fetch") == key.npos && key.find("memory read") == key.npos /* counted once for each register or cell waited for */) return key + " is longer than the run: " + l;
                into[key] += v * k;
            }
            return "";
        };
        if (!(w = each(B, all, false)).empty()) return w; if (!(w = each(D, sum, true)).empty()) return w;
        if (got != by) { string s = "executed by instruction:"; for (auto& [a, q]: got) s += " " + a + "=" + std::to_string(q); s += ", expected:"; for (auto& [a, q]: by) s += " " + a + "=" + std::to_string(q); return s; }
        if (all.size() < 5) return "the averages are missing";
        for (auto& [key, v]: all) { if (std::abs(sum[key] - v) > 0.01 * (1 + n)) return key + ": the instructions' totals add up to " + std::to_string(sum[key]) + ", the global total is " + std::to_string(v); }
        for (auto& [key, v]: sum) if (!all.count(key)) return key + " is missing from the global averages";
        // an instruction is fetched, decoded, prepared, executed and retired: a lifetime covers its parts
        double parts = all["Average fetch stalls"] + all["Average decode stalls"] + all["Average operand fetching stalls"] + all["Average waiting for ALU"] + all["Average executing"] + all["Average waiting for retirement"] + all["Average retirement"];
        if (all["Average instruction lifetime"] + 0.01 * n < parts + 2 * n) return "the average lifetime is shorter than its parts";
        if (std::abs(all["Average retirement"] - n) > 0.01 * n) return "not every instruction retires in one tick";
    } catch (const std::exception& x) { return string("exception: ") + x.what(); }
    X.c().traces++; return "";
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    Init i0{{3, 2, 5, 1}, {1.5, -2.25}, {4, 3, 2, 1, 7}, "ab"};
    vector<Cfg> cfs = {{4, 2, 1, 2, 24, 4}, {4, 2, 4, 16, 24, 1}, {4, 2, 1, 1, 24, 4}, {4, 2, 2, 5, 24, 2}};
    auto go = [&](const string& n, uint64_t size, std::function<Case(uint64_t)> g) { X.sweep(n, size, [&](uint64_t i) { auto d = check(X, g(i)); if (!d.empty()) X.report(d); }, [&](uint64_t i) { return show(g(i)); }); };
    auto seqs = [&](const string& n, vector<string> al, unsigned len, vector<string> tail, unsigned limit = 60) {
        if (A) len = 2; else if (T && len < 6) ++len; go(n, cfs.size() * ex::ipow(al.size(), len) * 2, [=, &cfs](uint64_t i) { ex::Digits d(i); Case c; c.limit = limit; c.in = i0; c.c = cfs[d.take(cfs.size())]; c.again = d.take(2); for (unsigned k = 0; k < len; ++k) c.prog.push_back(al[d.take(al.size())]); c.prog.insert(c.prog.end(), tail.begin(), tail.end()); return c; }); };
    seqs("branches", {"JMP 3", "JZ 2", "DEC R0", "JMP R1", "LOOP R3, 0", "CMP R0, 2", "PUTNUM R0", "JL [R3]", "CALL 4", "RET", "HALT"}, 5, {"ADD R2, R0", "PUTNUM R2", "HALT"});
    seqs("memory", {"MOV [3], R0", "MOV [R0], R1", "MOV R0, [3]", "MOV R1, [R0]", "ADD R0, 1", "ADD R1, [3]", "PUSH R1", "POP R2", "BREAK", "NOP"}, 5, {"HALT"});
    seqs("loops", {"MOV R0, [3]", "PUSH R1", "JZ 4", "FADD F0, F1", "MOV F1, R0", "CMP R1, R0", "MOV [R3], F0"}, 5, {"LOOP R3, 0", "PUTNUM R0", "HALT"}, 200);
    return X.finish("every program of the stated length over each alphabet on four processors, as first and as second run of the process: total, throughput and per-instruction counts of the statistics equal those of sequential execution (wrongly speculated instructions are not counted), totals add up and no average is negative or longer than the run",
        {"the statistics are judged for runs that halt, the documented use", "the individual averages are judged by their relations, not by a model of the pipeline's timing"});
}
