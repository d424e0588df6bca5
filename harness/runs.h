// Whole-run comparison of the real machine with the sequential reference.
#pragma once
#include "explore.h"
#include "vm.h"
namespace runs {
struct Init { std::vector<int64_t> r; std::vector<double> f; std::vector<int64_t> data; std::string input; std::optional<int64_t> sp, bp; };
struct Case { std::vector<std::string> prog; Init init; vm::Cfg cfg; unsigned limit = 60; };
inline std::string show(const Case& c) {
    std::string s = vm::join(c.prog) + "  |"; for (size_t i = 0; i < c.init.r.size(); ++i) s += " R" + std::to_string(i) + "=" + std::to_string(c.init.r[i]);
    if (!c.init.data.empty()) { s += " data="; for (auto v: c.init.data) s += std::to_string(v) + ","; }
    s += " alus=" + std::to_string(c.cfg.alu) + " gates=" + std::to_string(c.cfg.gates);
    return s;
}
inline ref::Machine makeRef(const Case& c) {
    ref::Machine m(c.cfg.nr, c.cfg.nf, c.cfg.nm); m.load(c.prog);
    for (size_t i = 0; i < c.init.r.size(); ++i) m.r[i] = c.init.r[i];
    for (size_t i = 0; i < c.init.f.size(); ++i) m.f[i] = c.init.f[i];
    for (size_t i = 0; i < c.init.data.size(); ++i) m.m[i] = c.init.data[i];
    if (c.init.sp) m.sp = *c.init.sp; if (c.init.bp) m.bp = *c.init.bp;
    m.in = c.init.input;
    return m;
}
// Runs the reference to its end; Ok means the step limit was hit.
inline ref::Ev runRef(ex::Explorer& X, ref::Machine& m, unsigned limit) {
    for (unsigned i = 0; i < limit; ++i) { auto e = m.step(); X.visit(m.hash()); if (e != ref::Ev::Ok) return e; }
    return ref::Ev::Ok;
}
inline void poke(vm::Box& b, const Case& c) {
    auto ok = [&](const std::string& q) { auto r = b.ask(q); if (r != "OK") throw vm::Deadlock("request '" + q + "' was answered with '" + r + "'"); };
    for (size_t i = 0; i < c.init.r.size(); ++i) if (c.init.r[i]) ok("POKEREGS R" + std::to_string(i) + " " + std::to_string(c.init.r[i]));
    for (size_t i = 0; i < c.init.f.size(); ++i) { char t[64]; snprintf(t, 64, "%.17g", c.init.f[i]); ok("POKEFLOATREGS F" + std::to_string(i) + " " + t); }
    if (c.init.sp) ok("POKEREGS SP " + std::to_string(*c.init.sp));
    if (c.init.bp) ok("POKEREGS BP " + std::to_string(*c.init.bp));
}
// Undisturbed run of the real machine against the reference.  Returns "" or the difference.
inline std::string compare(ex::Explorer& X, const Case& c) {
    auto m = makeRef(c);
    auto e = runRef(X, m, c.limit);
    if (e == ref::Ev::Ok || e == ref::Ev::Bkpt) { X.c().skipped++; return ""; }
    if (m.steps > 2) X.c().interesting++;
    try {
        vm::Box b(vm::assemble(vm::programText(c.prog, c.init.data)), c.cfg, true, c.init.input);
        if (b.receive() != "STOPPED") return "no initial stop";
        poke(b, c);
        if (b.ask("CONTINUE") != "OK") return "CONTINUE refused";
        auto s = b.receive(); if (s != "STOPPED") return "expected STOPPED, got '" + s + "'";
        auto why = b.ask("REASON"); std::string want = e == ref::Ev::Halt ? "HALT" : "CPU_ERROR";
        if (why != want) return "the run ended with " + why + ", sequential execution ends with " + want;
        auto d = vm::diff(vm::readState(b, c.cfg), m, e == ref::Ev::Halt);
        if (!d.empty()) return "at the end (" + want + ") " + d;
        if (b.out.str() != m.out) return "printed '" + b.out.str() + "', expected '" + m.out + "'";
        b.send("CONTINUE"); b.tick();
        if (!b.escaped.empty()) return b.escaped;
        if (!b.ended() || !b.result) return "the machine did not end after " + want;
        if (*b.result != (e == ref::Ev::Halt)) return "Run returned " + std::to_string(*b.result) + " after " + want;
        X.c().traces++;
    } catch (const vm::Deadlock& x) { return x.what(); }
    catch (const std::exception& x) { return std::string("exception: ") + x.what(); }
    return "";
}
// All sequences of length len over an alphabet, followed by `tail`.
struct Space {
    std::vector<std::string> alpha; unsigned len; std::vector<std::string> head, tail; std::vector<Init> inits; std::vector<vm::Cfg> cfgs; unsigned limit = 60; unsigned rep = 1;
    uint64_t size() const { return ex::ipow(alpha.size(), len) * inits.size() * cfgs.size(); }
    Case get(uint64_t i) const {
        ex::Digits d(i); Case c; c.cfg = cfgs[d.take(cfgs.size())]; c.init = inits[d.take(inits.size())];
        c.prog = head; std::vector<std::string> b; for (unsigned k = 0; k < len; ++k) b.push_back(alpha[d.take(alpha.size())]);
        for (unsigned k = 0; k < rep; ++k) c.prog.insert(c.prog.end(), b.begin(), b.end());
        c.prog.insert(c.prog.end(), tail.begin(), tail.end()); c.limit = limit; return c;
    }
};
inline void sweep(ex::Explorer& X, const std::string& name, const Space& s) {
    X.sweep(name, s.size(), [&](uint64_t i) { auto d = compare(X, s.get(i)); if (!d.empty()) X.report(d); }, [&](uint64_t i) { return show(s.get(i)); });
}
} // namespace runs
