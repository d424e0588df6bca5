// A debuggee that is just registers, memory and text: the environment of the source level checks.
// (The checks P10-P12 bind the real protocol to exactly this behaviour.)
#pragma once
#include "explore.h"
#include "debugger/Source/Source.h"
#include "debugger/Source/ExpressionInterpreter.h"
#include "debugger/Process.h"
struct FakeState { std::map<std::string, int64_t> regs; std::map<std::string, double> fregs; std::vector<int64_t> mem; std::vector<std::string> text; bool operator==(const FakeState&) const = default; };
struct FakeProcess : Process {
    FakeState& s; explicit FakeProcess(FakeState& s): s(s) {}
    void range(uint64_t a, size_t n, size_t size) { if (a > size || n > size - a) throw DebuggerError("out of range"); }
    void WriteText(uint64_t a, const std::vector<std::string>& d) override { range(a, d.size(), s.text.size()); std::copy(d.begin(), d.end(), s.text.begin() + a); }
    std::vector<std::string> ReadText(uint64_t a, size_t n) override { range(a, n, s.text.size()); return {s.text.begin() + a, s.text.begin() + a + n}; }
    void WriteMemory(uint64_t a, const std::vector<int64_t>& d) override { range(a, d.size(), s.mem.size()); std::copy(d.begin(), d.end(), s.mem.begin() + a); }
    std::vector<int64_t> ReadMemory(uint64_t a, size_t n) override { range(a, n, s.mem.size()); return {s.mem.begin() + a, s.mem.begin() + a + n}; }
    StopReason GetReason() override { return StopReason::Singlestep; }
    void Singlestep() override {}
    std::map<std::string, int64_t> FetchRegisters() override { return s.regs; }
    std::map<std::string, double> FetchFloatRegisters() override { return s.fregs; }
    std::map<std::string, uint64_t> FetchDebugRegisters() override { return {}; }
    void SetRegisters(const std::map<std::string, int64_t>& r) override { s.regs = r; }
    void SetFloatRegisters(const std::map<std::string, double>& r) override { s.fregs = r; }
    void SetDebugRegisters(const std::map<std::string, uint64_t>&) override {}
    void ResumeExecution() override {}
    size_t TextSize() override { return s.text.size(); }
    void Wait() override {}
    void Terminate() override {}
};
