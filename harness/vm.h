// Runs the real virtual machine (tiny::t86::OS) of /repo as a coroutine, so that the harness owns every
// scheduling decision between debugger and machine and a blocked party is seen as a deadlock at once.
#pragma once
#include <cxxabi.h>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include "t86/os.h"
#include "t86-parser/parser.h"
#include "common/messenger.h"
#include "common/config.h"
#include "t86/utils/stats_logger.h"
#include "ref.h"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#endif

namespace vm {

struct Deadlock : std::exception {   // not derived from anything the code under test handles specially
    std::string w; explicit Deadlock(std::string s): w(std::move(s)) {}
    const char* what() const noexcept override { return w.c_str(); }
};

// Minimal stack switch (System V x86-64): callee-saved registers only, no signal mask system calls.
extern "C" void mc_switch(void** save, void* load);
asm(R"(
.text
.type mc_switch_local, @function
.weak mc_switch
mc_switch:
mc_switch_local:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
)");

class Coro {
public:
    static constexpr size_t STK = 512*1024;
    explicit Coro(std::function<void()> f): f_(std::move(f)) {
        auto& pool = stacks(); if (pool.empty()) stk_ = (char*)malloc(STK); else { stk_ = pool.back(); pool.pop_back(); }
#if defined(__SANITIZE_ADDRESS__)
        ASAN_UNPOISON_MEMORY_REGION(stk_, STK);
#endif
        uintptr_t* sp = (uintptr_t*)(((uintptr_t)stk_ + STK) & ~(uintptr_t)15);
        *--sp = 0;                         // return address of entry: never used, ends unwinding
        *--sp = (uintptr_t)&Coro::entry;   // mc_switch returns here
        for (int i = 0; i < 6; ++i) *--sp = 0;
        ctx_ = sp; starting() = this;
    }
    ~Coro() { stacks().push_back(stk_); }
    bool done() const { return done_; }
    void resume() {   // main -> coroutine
        starting() = this; swapEh();
#if defined(__SANITIZE_ADDRESS__)
        void* fake; __sanitizer_start_switch_fiber(&fake, stk_, STK);
        mc_switch(&back_, ctx_);
        __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
#else
        mc_switch(&back_, ctx_);
#endif
        swapEh();
    }
    void yield() {    // coroutine -> main
#if defined(__SANITIZE_ADDRESS__)
        void* fake; __sanitizer_start_switch_fiber(&fake, mainBottom_, mainSize_);
        mc_switch(&ctx_, back_);
        __sanitizer_finish_switch_fiber(fake, &mainBottom_, &mainSize_);
#else
        mc_switch(&ctx_, back_);
#endif
    }
private:
    static std::vector<char*>& stacks() { static std::vector<char*> v; return v; }
    static Coro*& starting() { static Coro* c; return c; }
    static void entry() {
        Coro* c = starting();
#if defined(__SANITIZE_ADDRESS__)
        __sanitizer_finish_switch_fiber(nullptr, &c->mainBottom_, &c->mainSize_);
#endif
        c->f_(); c->done_ = true;
#if defined(__SANITIZE_ADDRESS__)
        __sanitizer_start_switch_fiber(nullptr, c->mainBottom_, c->mainSize_);
#endif
        mc_switch(&c->ctx_, c->back_);
        abort();
    }
    void swapEh() { char* g = (char*)abi::__cxa_get_globals(); char t[16]; memcpy(t, g, 16); memcpy(g, eh_, 16); memcpy(eh_, t, 16); }
    std::function<void()> f_; void *ctx_ = nullptr, *back_ = nullptr; char* stk_; bool done_ = false; char eh_[16] = {};
    const void* mainBottom_ = nullptr; size_t mainSize_ = 0;
};

struct Cfg { size_t nr = 4, nf = 2, nm = 24; int alu = 1; int gates = 4; };

inline std::string programText(const std::vector<std::string>& p, const std::vector<int64_t>& data = {}) {
    std::string t;
    if (!data.empty()) { t += ".data\n"; for (auto v: data) t += std::to_string(v) + "\n"; }
    t += ".text\n"; for (auto& s: p) t += s + "\n";
    return t;
}

// The machine's micro-architecture options; only re-parsed when they change.
inline void configure(const Cfg& c) {
    static int alu = -1, gates = -1; if (alu == c.alu && gates == c.gates) return;
    tiny::t86::Cpu::Config::instance();
    tiny::config = tiny::Config{};
    std::vector<std::string> a = {"x", "-registerCnt=10", "-floatRegisterCnt=5", "-aluCnt=" + std::to_string(c.alu), "-reservationStationEntriesCnt=" + std::to_string(2*c.alu), "-ram=1024", "-ramGates=" + std::to_string(c.gates)};
    std::vector<char*> v; for (auto& s: a) v.push_back(s.data());
    tiny::config.parse((int)v.size(), v.data()); alu = c.alu; gates = c.gates;
}

// One machine, started lazily.  The debugger end of the connection is `Send`/`Receive`/`ask`.
class Box {
public:
    struct End : Messenger {
        Box& b; explicit End(Box& b): b(b) {}
        std::optional<std::string> Receive() override {
            while (b.toVm.empty()) { if (b.eof) return std::nullopt; b.co->yield(); }
            auto s = b.toVm.front(); b.toVm.pop_front(); return s;
        }
        void Send(const std::string& s) override { b.toDbg.push_back(s); }
    };
    std::deque<std::string> toVm, toDbg; bool eof = false;
    std::unique_ptr<Coro> co; std::optional<bool> result; std::string escaped;   // what Run returned / exception that left Run
    std::ostringstream out; std::istringstream in; std::streambuf *oldOut, *oldIn;
    bool pollute = false;

    Box(tiny::t86::Program prog, const Cfg& c, bool debugger = true, const std::string& input = ""): in(input) {
        tiny::t86::StatsLogger::instance().reset();
        configure(c);
        oldOut = std::cout.rdbuf(out.rdbuf()); oldIn = std::cin.rdbuf(in.rdbuf()); std::cin.clear();
        auto p = std::make_shared<tiny::t86::Program>(std::move(prog));
        co = std::make_unique<Coro>([this, p, c, debugger] {
            try {
                tiny::t86::OS os(c.nr, c.nf, c.nm);
                if (debugger) os.SetDebuggerComms(std::make_unique<End>(*this));
                result = os.Run(std::move(*p));
            } catch (const std::exception& e) { escaped = std::string("exception left the machine: ") + e.what(); if (escaped.empty()) escaped = "?"; }
            catch (...) { escaped = "unknown exception left the machine"; }
        });
        if (debugger) { tick(); }
    }
    ~Box() { shutdown(); std::cout.rdbuf(oldOut); std::cin.rdbuf(oldIn); std::cin.clear(); }
    void shutdown() { eof = true; int n = 0; while (!co->done() && n++ < 1000) co->resume(); }
    void tick() { if (!co->done()) co->resume(); }
    bool ended() const { return co->done(); }
    // debugger side
    void send(const std::string& s) { toVm.push_back(s); }
    std::string receive() {
        while (toDbg.empty()) { if (co->done()) throw Deadlock("waiting for a message but the machine has ended" + (escaped.empty() ? "" : " (" + escaped + ")")); co->resume();
            if (toDbg.empty() && !co->done() && toVm.empty()) throw Deadlock("debugger and machine both wait for a message"); }
        auto s = toDbg.front(); toDbg.pop_front(); return s;
    }
    std::string ask(const std::string& s) { send(s); return receive(); }
};
// Debugger-side messenger on a Box.
struct DbgEnd : Messenger {
    Box& b; explicit DbgEnd(Box& b): b(b) {}
    std::optional<std::string> Receive() override { return b.receive(); }
    void Send(const std::string& s) override { b.send(s); }
};

inline tiny::t86::Program assemble(const std::string& text) { std::istringstream is(text); Parser p(is); return p.Parse(); }

struct State {
    int64_t ip = 0, bp = 0, sp = 0; std::vector<int64_t> r, m; std::vector<double> f; bool bad = false; std::string why;
};
inline std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; std::istringstream is(s); std::string l; while (std::getline(is, l)) v.push_back(l); return v; }
inline double todouble(const std::string& s) { return strtod(s.c_str(), nullptr); }
inline State readState(Box& b, const Cfg& c) {
    State s; s.r.assign(c.nr, 0x5eed); s.f.assign(c.nf, 12345.5);
    for (auto& l: lines(b.ask("PEEKREGS"))) {
        auto p = l.find(':'); if (p == l.npos) { s.bad = true; s.why = "PEEKREGS line " + l; continue; }
        std::string k = l.substr(0,p); long long v = strtoll(l.c_str()+p+1, nullptr, 10);
        if (k=="IP") s.ip = v; else if (k=="BP") s.bp = v; else if (k=="SP") s.sp = v;
        else if (k[0]=='R' && (size_t)atoi(k.c_str()+1) < c.nr) s.r[atoi(k.c_str()+1)] = v; else { s.bad = true; s.why = "register " + k; }
    }
    for (auto& l: lines(b.ask("PEEKFLOATREGS"))) {
        auto p = l.find(':'); size_t i = atoi(l.c_str()+1); if (p == l.npos || i >= c.nf) { s.bad = true; s.why = "float register line " + l; continue; } s.f[i] = todouble(l.substr(p+1));
    }
    for (auto& l: lines(b.ask("PEEKDATA 0 " + std::to_string(c.nm)))) s.m.push_back(strtoll(l.c_str(), nullptr, 10));
    return s;
}
inline bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || ref::d2bits(a) == ref::d2bits(b); }
// "" if equal, otherwise the first difference.  ip: compare ip too.
inline std::string diff(const State& s, const ref::Machine& m, bool ip = true) {
    auto n = [](int64_t v) { return std::to_string(v); };
    if (s.bad) return "unreadable state: " + s.why;
    if (ip && s.ip != (int64_t)m.pc) return "IP is " + n(s.ip) + ", expected " + n((int64_t)m.pc);
    if (s.sp != m.sp) return "SP is " + n(s.sp) + ", expected " + n(m.sp);
    if (s.bp != m.bp) return "BP is " + n(s.bp) + ", expected " + n(m.bp);
    for (size_t i = 0; i < m.nr; ++i) if (s.r[i] != m.r[i]) return "R" + n(i) + " is " + n(s.r[i]) + ", expected " + n(m.r[i]);
    for (size_t i = 0; i < m.nf; ++i) if (!same(s.f[i], m.f[i])) return "F" + n(i) + " is " + std::to_string(s.f[i]) + ", expected " + std::to_string(m.f[i]);
    if (s.m.size() != m.nm) return "memory read returned " + n(s.m.size()) + " cells";
    for (size_t i = 0; i < m.nm; ++i) if (s.m[i] != m.m[i]) return "mem[" + n(i) + "] is " + n(s.m[i]) + ", expected " + n(m.m[i]);
    return "";
}
inline std::string join(const std::vector<std::string>& v, const char* sep = "; ") { std::string r; for (auto& s: v) { if (!r.empty()) r += sep; r += s; } return r; }
} // namespace vm
