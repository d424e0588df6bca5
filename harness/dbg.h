// Debugger harness: the real Native + T86Process talk to the real machine (Box) in one thread, next to a
// model that consists of the sequential reference machine, a set of breakpoints and a set of watchpoints.
#pragma once
#include "runs.h"
#include <set>
#include "debugger/Native.h"
#include "debugger/T86Process.h"
namespace dbg {
using std::string; using std::vector;
struct Event { string kind; int64_t addr = -1; bool operator==(const Event&) const = default; string str() const { return kind + (addr >= 0 ? "@" + std::to_string(addr) : ""); } };
inline Event conv(const DebugEvent& e) {
    if (auto* p = std::get_if<BreakpointHit>(&e)) return {"breakpoint", (int64_t)p->address};
    if (auto* p = std::get_if<WatchpointTrigger>(&e)) return {"watchpoint", (int64_t)p->address};
    if (std::holds_alternative<Singlestep>(e)) return {"step"};
    if (std::holds_alternative<ExecutionBegin>(e)) return {"begin"};
    if (std::holds_alternative<ExecutionEnd>(e)) return {"end"};
    return {"error"};
}
struct Model {
    ref::Machine m; std::map<uint64_t,bool> bps; std::set<uint64_t> wps; bool ended = false, tooLong = false; vector<string> text; unsigned limit = 200;
    explicit Model(const runs::Case& c): m(runs::makeRef(c)), text(c.prog) {}
    bool atBp() const { auto it = bps.find(m.pc); return it != bps.end() && it->second; }
    void setText(uint64_t a, const string& s) { text.at(a) = s; m.text.at(a) = ref::parse(s); }
    Event step() {   // one instruction, whatever breakpoints there are
        auto e = m.step();
        if (e == ref::Ev::Halt) { ended = true; return {"end"}; }
        if (e == ref::Ev::Fault) { ended = true; return {"error"}; }
        for (auto w: m.writes) if (wps.count(w)) return {"watchpoint", (int64_t)w};
        return {"step"};
    }
    Event cont() {
        for (unsigned n = 0; n < limit; ++n) {
            if (n && atBp()) return {"breakpoint", (int64_t)m.pc};
            auto e = step(); if (e.kind != "step") return e;
        }
        tooLong = true; return {"too long"};
    }
};
// What a debugger user can do.  Returns "" or what went wrong; `err` tells whether the command was refused.
struct Session {
    runs::Case c; Model model; vm::Box box; Native native; ex::Explorer& X; bool textCheck = true;
    std::function<string(Session&)> extra;
    Session(ex::Explorer& X, const runs::Case& c): c(c), model(c), box(vm::assemble(vm::programText(c.prog, c.init.data)), c.cfg, true, c.init.input),
        native(std::make_unique<T86Process>(std::make_unique<vm::DbgEnd>(box), c.cfg.nr, c.cfg.nf, c.cfg.nm)), X(X) {}
    string begin() { auto e = conv(native.WaitForDebugEvent()); if (e.kind != "begin") return "the first event is " + e.str(); runs::poke(box, c); return ""; }
    // Compare everything observable with the model.
    string check(bool ip = true) {
        if (auto d = vm::diff(vm::readState(box, c.cfg), model.m, ip); !d.empty()) return d;
        if (box.out.str() != model.m.out) return "printed '" + box.out.str() + "', expected '" + model.m.out + "'";
        if (textCheck) {
            auto t = native.ReadText(0, model.text.size());
            for (size_t i = 0; i < t.size(); ++i) if (t[i] != canon(model.text[i])) return "the code listing shows '" + t[i] + "' at " + std::to_string(i) + ", the program has '" + model.text[i] + "'";
            // the machine itself must hold breakpoint opcodes exactly where enabled breakpoints are
            auto raw = vm::lines(box.ask("PEEKTEXT 0 " + std::to_string(model.text.size())));
            for (size_t i = 0; i < raw.size(); ++i) { auto it = model.bps.find(i); bool b = it != model.bps.end() && it->second; if ((raw[i] == "BKPT") != b) return string("the machine ") + (b ? "lacks" : "keeps") + " a breakpoint at " + std::to_string(i); if (!b && raw[i] != canon(model.text[i])) return "the machine holds '" + raw[i] + "' at " + std::to_string(i); }
        }
        std::map<uint64_t,bool> have; for (auto& [a,b]: native.GetBreakpoints()) have[a] = b.enabled; if (have != model.bps) return "the breakpoint list differs (" + std::to_string(have.size()) + " entries, expected " + std::to_string(model.bps.size()) + ")";
        std::set<uint64_t> w; for (auto& [a,b]: native.GetWatchpoints()) w.insert(a); if (w != model.wps) return "the watchpoint list differs";
        X.visit(hash());
        return extra ? extra(*this) : "";
    }
    uint64_t hash() const { uint64_t h = model.m.hash(); auto add = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }; for (auto& [a,b]: model.bps) add(a*2+b+17); for (auto w: model.wps) add(w+1000); for (auto& t: model.text) for (char ch: t) add(ch); return h; }
    static string canon(const string& s) { static std::map<string,string> memo; auto& r = memo[s]; if (r.empty()) { std::istringstream is(s); Parser p(is); r = p.Instruction()->toString(); } return r; }
    string resumed(const Event& want, const Event& got) {
        if (!(want == got)) return "the debugger reports " + got.str() + ", expected " + want.str();
        return check(want.kind != "error");
    }
    template<class F> bool refused(F f) { try { f(); return false; } catch (const DebuggerError&) { return true; } }
    // commands; each returns "" or a difference
    string step() { auto w = model.step(); return resumed(w, conv(native.PerformSingleStep())); }
    string cont() { auto w = model.cont(); if (model.tooLong) return ""; native.ContinueExecution(); return resumed(w, conv(native.WaitForDebugEvent())); }
    string judge(const char* what, bool wantRefused, bool r) { if (wantRefused != r) return string(what) + (r ? " was refused" : " was accepted"); return check(); }
    string set(uint64_t a) { bool bad = model.bps.count(a) || a >= model.text.size(); bool r = refused([&] { native.SetBreakpoint(a); }); if (!bad) model.bps[a] = true; return judge("setting a breakpoint", bad, r); }
    string unset(uint64_t a) { bool bad = !model.bps.count(a); bool r = refused([&] { native.UnsetBreakpoint(a); }); model.bps.erase(a); return judge("removing a breakpoint", bad, r); }
    string enable(uint64_t a, bool on) { bool bad = !model.bps.count(a); bool r = refused([&] { on ? native.EnableSoftwareBreakpoint(a) : native.DisableSoftwareBreakpoint(a); }); if (!bad) model.bps[a] = on; return judge(on ? "enabling a breakpoint" : "disabling a breakpoint", bad, r); }
    string watch(uint64_t a) { bool bad = model.wps.count(a) || model.wps.size() == 4; bool r = refused([&] { native.SetWatchpointWrite(a); }); if (!bad) model.wps.insert(a); return judge("setting a watchpoint", bad, r); }
    string unwatch(uint64_t a) { bool bad = !model.wps.count(a); bool r = refused([&] { native.RemoveWatchpoint(a); }); model.wps.erase(a); return judge("removing a watchpoint", bad, r); }
    string write(uint64_t a, vector<string> t) { bool bad = a > model.text.size() || t.size() > model.text.size() - a; bool r = refused([&] { native.WriteText(a, t); }); if (!bad) for (size_t i = 0; i < t.size(); ++i) model.setText(a + i, t[i]); return judge("writing code", bad, r); }
    bool over() const { return model.ended || model.tooLong; }
    // run on to the end, all remaining events must agree
    string finish(unsigned max = 60) {
        for (unsigned i = 0; i < max && !over(); ++i) if (auto d = cont(); !d.empty()) return d + " (running on)";
        if (model.ended) { box.send("CONTINUE"); box.tick(); if (!box.escaped.empty()) return box.escaped; if (!box.ended()) return "the machine did not end"; }
        return "";
    }
};
// All command histories of length `depth`; a history whose end makes later commands pointless is visited once.
struct Cmd { string name; std::function<string(Session&)> run; };
struct Setup { runs::Case c; string name; };
inline void histories(ex::Explorer& X, const string& suite, const vector<runs::Case>& progs, const vector<vector<Cmd>>& cmds, unsigned depth, std::function<string(Session&)> extra = {}) {
    vector<uint64_t> base{0}; for (size_t i = 0; i < progs.size(); ++i) base.push_back(base.back() + ex::ipow(cmds[i].size(), depth));
    auto decode = [&](uint64_t i) { size_t p = 0; while (base[p+1] <= i) ++p; uint64_t r = i - base[p]; vector<int> s; for (unsigned k = 0; k < depth; ++k) { s.push_back(r / ex::ipow(cmds[p].size(), depth-1-k) % cmds[p].size()); } return std::make_pair(p, s); };
    auto label = [&](uint64_t i) { auto [p, s] = decode(i); string r = runs::show(progs[p]) + " || "; for (auto k: s) r += cmds[p][k].name + "; "; return r; };
    X.sweep(suite, base.back(), [&](uint64_t i) {
        auto [p, s] = decode(i); string d;
        try {
            Session S(X, progs[p]); S.extra = extra; d = S.begin(); size_t k = 0;
            for (; d.empty() && k < s.size() && !S.over(); ++k) { d = cmds[p][s[k]].run(S); if (!d.empty()) d = "after '" + cmds[p][s[k]].name + "' (command " + std::to_string(k+1) + "): " + d; }
            // canonical representative only: everything after the end must be command 0
            if (d.empty() && S.over()) for (size_t j = k; j < s.size(); ++j) if (s[j]) { X.c().skipped++; return; }
            if (d.empty()) d = S.finish();
            X.c().traces++; X.c().interesting++;
        } catch (const vm::Deadlock& x) { d = x.what(); } catch (const std::exception& x) { d = string("exception: ") + x.what(); }
        if (!d.empty()) X.report(d);
    }, label);
}
// model of step over; kind "outside" = leaves the code, not judged
inline bool outside(Session& s) { return s.model.m.pc >= s.model.text.size(); }
inline bool is(Session& s, const char* op) { return s.model.text[s.model.m.pc].rfind(op, 0) == 0; }
inline Event over(Session& s) {
    auto& M = s.model; if (outside(s)) return {"outside"};
    if (!is(s, "CALL")) return M.step();
    uint64_t ret = M.m.pc + 1; int64_t sp = M.m.sp; if (ret >= M.text.size()) return {"outside"};
    for (unsigned n = 0; n < M.limit; ++n) {
        if (n && M.m.pc == ret && M.m.sp >= sp) return {"step"};
        if (n && M.atBp()) return {"breakpoint", (int64_t)M.m.pc};
        auto e = M.step(); if (e.kind != "step") return e;
    }
    M.tooLong = true; return {"too long"};
}
} // namespace dbg
