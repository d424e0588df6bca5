// Runs the real processor (tiny::t86::Cpu) the way a program that embeds it does: no operating system, no debugger.
#pragma once
#include "runs.h"
#include "t86/cpu.h"
namespace direct {
struct Cfg { size_t nr = 4, nf = 2, alu = 1, rs = 2, ram = 24, gates = 4; };
inline std::string show(const Cfg& c) { auto n = [](size_t v) { return std::to_string(v); }; return "regs=" + n(c.nr) + " floats=" + n(c.nf) + " alus=" + n(c.alu) + " entries=" + n(c.rs) + " ram=" + n(c.ram) + " gates=" + n(c.gates); }
struct End { bool halted = false, late = false; std::string what; uint64_t ticks = 0; std::string out; };
struct Io { std::ostringstream out; std::istringstream in; std::streambuf *o, *i; explicit Io(const std::string& s): in(s) { o = std::cout.rdbuf(out.rdbuf()); i = std::cin.rdbuf(in.rdbuf()); std::cin.clear(); } ~Io() { std::cout.rdbuf(o); std::cin.rdbuf(i); std::cin.clear(); } };
inline void init(tiny::t86::Cpu& cpu, const runs::Init& in) {
    using namespace tiny::t86;
    for (size_t i = 0; i < in.r.size() && i < cpu.registersCount(); ++i) cpu.setRegister(Register{i}, in.r[i]);
    for (size_t i = 0; i < in.f.size() && i < cpu.floatRegistersCount(); ++i) cpu.setFloatRegister(FloatRegister{i}, in.f[i]);
    if (in.sp) cpu.setRegister(Register::StackPointer(), *in.sp); if (in.bp) cpu.setRegister(Register::StackBasePointer(), *in.bp);
}
inline End run(tiny::t86::Cpu& cpu, tiny::t86::Program&& p, const runs::Init& in, uint64_t maxTicks) {
    End e; Io io(in.input);
    try { cpu.start(std::move(p)); init(cpu, in); while (!cpu.halted()) { if (e.ticks >= maxTicks) { e.late = true; break; } ++e.ticks; cpu.tick(); } e.halted = cpu.halted(); }
    catch (const std::exception& x) { e.what = x.what(); if (e.what.empty()) e.what = "?"; }
    e.out = io.out.str(); return e;
}
inline ref::Machine makeRef(const std::vector<std::string>& prog, const runs::Init& in, const Cfg& c) {
    ref::Machine m(c.nr, c.nf, c.ram); m.load(prog);
    for (size_t i = 0; i < in.r.size() && i < c.nr; ++i) m.r[i] = in.r[i]; for (size_t i = 0; i < in.f.size() && i < c.nf; ++i) m.f[i] = in.f[i];
    for (size_t i = 0; i < in.data.size() && i < c.ram; ++i) m.m[i] = in.data[i];
    if (in.sp) m.sp = *in.sp; if (in.bp) m.bp = *in.bp; m.in = in.input; return m;
}
// The state a program that embeds the processor can read, compared with the reference.
inline std::string diff(const tiny::t86::Cpu& cpu, const ref::Machine& m, bool pc = false, uint64_t pcWant = 0) {
    using namespace tiny::t86; auto n = [](int64_t v) { return std::to_string(v); };
    auto one = [&](const std::string& name, int64_t got, int64_t want) { return got == want ? std::string() : name + " is " + n(got) + ", expected " + n(want); };
    std::string d;
    if (pc && !(d = one("PC", cpu.getRegister(Register::ProgramCounter()), (int64_t)pcWant)).empty()) return d;
    if (!(d = one("SP", cpu.getRegister(Register::StackPointer()), m.sp)).empty()) return d;
    if (!(d = one("BP", cpu.getRegister(Register::StackBasePointer()), m.bp)).empty()) return d;
    for (size_t i = 0; i < m.nr; ++i) if (!(d = one("R" + n(i), cpu.getRegister(Register{i}), m.r[i])).empty()) return d;
    for (size_t i = 0; i < m.nf; ++i) if (!vm::same(cpu.getFloatRegister(FloatRegister{i}), m.f[i])) return "F" + n(i) + " is " + std::to_string(cpu.getFloatRegister(FloatRegister{i})) + ", expected " + std::to_string(m.f[i]);
    for (size_t i = 0; i < m.nm; ++i) if (!(d = one("mem[" + n(i) + "]", cpu.getMemory(i), m.m[i])).empty()) return d;
    return "";
}
// Ticks that are surely enough: every instruction alone needs well below 40.
inline uint64_t enough(uint64_t steps) { return 400 + steps * 60; }
} // namespace direct
