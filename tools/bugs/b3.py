bug('p01-newest', 'P01', 'src/t86/cpu/memory_writes_manager.h', '            auto it = unspecifiedWrites_.lower_bound(maxId);\n            return it != unspecifiedWrites_.end();',
    '            auto it = unspecifiedWrites_.begin();\n            return it != unspecifiedWrites_.end() && *it <= maxId;',
    'a load between two stores whose addresses are both not known yet', 'the load does not wait for the older store and reads the previous value',
    cpp('''#include "t86/cpu.h"
#include "t86-parser/parser.h"
#include <sstream>
#include <iostream>
using namespace tiny::t86;
int main() {
    for (size_t alu = 1; alu <= 4; ++alu) {
        Cpu cpu(4, 2, alu, 2 * alu, 24, 4);
        std::istringstream in(".text\\n0 MOV [3], R0\\n1 MOV [R0], R1\\n2 MOV R0, [3]\\n3 MOV [R0], R1\\n4 MOV [3], R0\\n5 HALT\\n");
        Parser p(in); cpu.start(p.Parse());
        cpu.setRegister(Register{0}, 3); cpu.setRegister(Register{1}, 2);
        for (int i = 0; i < 2000 && !cpu.halted(); ++i) cpu.tick();
        if (!cpu.halted() || cpu.getRegister(Register{0}) != 2 || cpu.getMemory(3) != 2 || cpu.getMemory(2) != 2) { std::cerr << "alus " << alu << ": R0 = " << cpu.getRegister(Register{0}) << "\\n"; return 1; }
    }
    return 0;
}
''', 'common t86 t86-parser'))
bug('p01-order', 'P01', 'src/t86/cpu/memory_writes_manager/memory_writes.cpp', '        auto it = find(id);\n        return *writes_.emplace(it, MemoryWrite(id, address));', '        // The newest write is always the first one\n        return writes_.emplace_front(MemoryWrite(id, address));',
    'two stores to the same cell whose addresses become known in the opposite order, followed by a load', 'the load gets the value of the older store',
    run('.data\n4 3 2 1 7\n.text\n0 MOV R0, 1\n1 MOV R1, 5\n2 MOV R2, 8\n3 ADD R0, 1\n4 ADD R0, 1\n5 MOV [R0], R1\n6 MOV [3], R2\n7 MOV R3, [3]\n8 PUTNUM R3\n9 MOV R3, [3]\n10 PUTNUM R3\n11 HALT\n'))
bug('p03-wide', 'P03', 'src/t86/ram.cpp', 'ReadEntry{readLatency(address), mem_.at(address)}', 'ReadEntry{readLatency(address), mem_.at(static_cast<std::uint32_t>(address))}',
    'a load from an address whose low 32 bits are those of an existing cell', 'the load reads that cell instead of being a fault',
    run('.data\n7 8 9\n.text\n0 MOV R1, 4294967297\n1 PUTNUM R1\n2 MOV R2, [R1]\n3 PUTNUM R2\n4 HALT\n'))
bug('p07-watched', 'P07', 'src/debugger/Native.cpp', '    EnableSoftwareBreakpoint(ip); \n', '    if (std::holds_alternative<Singlestep>(event)) {\n        EnableSoftwareBreakpoint(ip); \n    }\n',
    'a breakpoint on an instruction that writes to a watched cell, reached more than once', 'the breakpoint is off after the watchpoint has fired',
    dbg('.text\n0 MOV R1, 2\n1 MOV [5], R1\n2 SUB R1, 1\n3 JNZ 1\n4 HALT\n', 'run\nbreakpoint iset 1\nwatchpoint iset 5\ncontinue\ncontinue\nbreakpoint list\ncontinue\nregister get IP\n'))
bug('p10-digits', 'P10', 'src/t86/debug.cpp', '"F{}:{}\\n", i, cpu.getFloatRegister(FloatRegister{i})', '"F{}:{:.15g}\\n", i, cpu.getFloatRegister(FloatRegister{i})',
    'a float register that holds a number that needs 16 or 17 digits', 'the register is shown rounded, and setting another float register rounds it in the machine',
    dbg('.text\n0 MOV F0, 0.1\n1 MOV F1, 0.2\n2 FADD F0, F1\n3 MOV F2, 0.3\n4 FCMP F0, F2\n5 JE 7\n6 PUTNUM R1\n7 HALT\n', 'run\nistep\nistep\nistep\nregister fset F3 1.5\ncontinue\n'))
bug('p11-left', 'P11', 'src/debugger/Native.cpp', '        if (!bp_exists) {\n            UnsetBreakpoint(ip + 1);', '        if (!bp_exists && std::holds_alternative<BreakpointHit>(e)) {\n            UnsetBreakpoint(ip + 1);',
    'a step over a call in which a watchpoint fires', 'the breakpoint that was set behind the call stays',
    dbg('.text\n0 CALL 3\n1 MOV R2, 1\n2 HALT\n3 MOV R1, 1\n4 MOV [5], R1\n5 ADD R1, 1\n6 RET\n', 'run\nwatchpoint iset 5\ninext\nbreakpoint list\ncontinue\nregister get IP\n'))
bug('p12-debugreg', 'P12', 'src/t86/cpu.h', '            debug_registers_.at(i) = value;', '            debug_registers_[i % debug_registers_.size()] = value;',
    'a request that writes a debug register that does not exist', 'another debug register is overwritten and the request acknowledged',
    cpp('''#include "t86/os.h"
#include "t86-parser/parser.h"
#include "messenger.h"
#include <sstream>
#include <iostream>
#include <vector>
struct M : Messenger { std::vector<std::string> q{"POKEDEBUGREGS D6 9", "TERMINATE"}; size_t n = 0; std::vector<std::string>& got; M(std::vector<std::string>& g): got(g) {}
    void Send(const std::string& s) override { got.push_back(s); } std::optional<std::string> Receive() override { if (n < q.size()) return q[n++]; return {}; } };
int main() {
    std::istringstream is(".text\\n0 MOV R1, 3\\n1 HALT\\n"); Parser p(is); auto prog = p.Parse(); std::vector<std::string> got;
    tiny::t86::OS os(4, 1, 16); os.SetDebuggerComms(std::make_unique<M>(got)); os.Run(std::move(prog));
    return got.size() > 1 && got[1] == "OK" ? 1 : 0;
}
'''))
bug('p15-next', 'P15', 'src/debugger/Source/Source.cpp', '        e = native.PerformStepOver(false);', '        e = native.PerformStepOver();',
    'a breakpoint on an instruction that belongs to no line, reached by next', 'next passes such a breakpoint without a stop',
    dbg('.text\n0 MOV R1, 1\n1 MOV R1, 2\n2 MOV R1, 3\n3 MOV R1, 4\n4 HALT\n.debug_line\n0: 0\n1: 3\n.debug_source\na\nb\n', 'run\nbreakpoint iset 2\nnext\nregister get IP\nnext\nregister get IP\n'))
bug('p16-frame', 'P16', 'src/debugger/Source/ExpressionInterpreter.cpp', '                auto bp = native.GetRegister(frame_base_reg_name);\n                auto loc = bp + ins.offset;', '                uint32_t bp = native.GetRegister(frame_base_reg_name);\n                auto loc = bp + ins.offset;',
    'a frame base below zero (before the function has set it up)', 'the variable is looked for in another place',
    cpp('''#include "debugger/Source/ExpressionInterpreter.h"
#include "debugger/T86Process.h"
#include "messenger.h"
struct M : Messenger { void Send(const std::string&) override {} std::optional<std::string> Receive() override { return "IP:0\\nBP:-2\\nSP:5\\nR0:0\\n"; } };
int main() {
    Native n(std::make_unique<T86Process>(std::make_unique<M>(), 1, 0, 16));
    auto l = ExpressionInterpreter::Interpret({expr::FrameBaseRegisterOffset{5}}, n);
    return std::get<expr::Offset>(l).value == 3 ? 0 : 1;
}
'''))
bug('p16-order', 'P16', 'src/debugger/Source/ExpressionInterpreter.cpp', '                [&](const expr::Offset& i2) {\n                    return expr::Offset{rval1 + i2.value};', '                [&](const expr::Offset& i2) {\n                    return expr::Offset{rval1 - i2.value};',
    'a location that adds a register (pushed last) to a number', 'the number is subtracted from the register',
    dbg('.data\n11 22 33 44 55\n.text\n0 MOV R2, 3\n1 NOP\n2 HALT\n.debug_info\nDIE_compilation_unit: {\nDIE_primitive_type: {\nATTR_name: int,\nATTR_id: 0,\nATTR_size: 1,\n},\nDIE_function: {\nATTR_name: main,\nATTR_begin_addr: 0,\nATTR_end_addr: 3,\nDIE_variable: {\nATTR_name: x,\nATTR_type: 0,\nATTR_location: [PUSH 1; PUSH R2; ADD],\n},\nDIE_variable: {\nATTR_name: y,\nATTR_type: 0,\nATTR_location: [PUSH R2; PUSH 1; ADD],\n},\n}\n}\n', 'run\nistep\nexpression x\nexpression y\n'))
bug('p17-ptr', 'P17', 'src/debugger/Source/Expression.cpp', '            return PointerValue{right.type, left.value * item_size + right.value};', '            return PointerValue{right.type, left.value + item_size * right.value};',
    'a number plus a pointer (in this order) to something larger than one cell', 'the pointer is scaled instead of the number',
    dbg('.data\n2 7 3 4 5 6\n.text\n0 NOP\n1 HALT\n.debug_info\nDIE_compilation_unit: {\nDIE_primitive_type: {\nATTR_name: int,\nATTR_id: 0,\nATTR_size: 1,\n},\nDIE_structured_type: {\nATTR_name: pair,\nATTR_id: 1,\nATTR_size: 2,\nATTR_members: { 0: {0: a}, 1: {0: b} },\n},\nDIE_pointer_type: {\nATTR_type: 1,\nATTR_id: 2,\nATTR_size: 1,\n},\nDIE_function: {\nATTR_name: main,\nATTR_begin_addr: 0,\nATTR_end_addr: 2,\nDIE_variable: {\nATTR_name: p,\nATTR_type: 2,\nATTR_location: [PUSH 0],\n},\n}\n}\n', 'run\nexpression p\nexpression 1 + p\nexpression (1 + p)->b\n'))
bug('p17-nested', 'P17', 'src/debugger/Source/Source.h', '                auto subtype = GetTypeSize(t.type_id);\n                return subtype * t.cnt;', '                auto subtype = GetTypeSize(t.type_id);\n                return std::max(subtype, t.cnt);',
    'an array of arrays', 'elements of the outer array are looked for in wrong places',
    dbg('.data\n0 1 2 3 4 5 6 7\n.text\n0 NOP\n1 HALT\n.debug_info\nDIE_compilation_unit: {\nDIE_primitive_type: {\nATTR_name: int,\nATTR_id: 0,\nATTR_size: 1,\n},\nDIE_array_type: {\nATTR_type: 0,\nATTR_id: 1,\nATTR_size: 2,\n},\nDIE_array_type: {\nATTR_type: 1,\nATTR_id: 2,\nATTR_size: 2,\n},\nDIE_array_type: {\nATTR_type: 2,\nATTR_id: 3,\nATTR_size: 2,\n},\nDIE_function: {\nATTR_name: main,\nATTR_begin_addr: 0,\nATTR_end_addr: 2,\nDIE_variable: {\nATTR_name: a,\nATTR_type: 3,\nATTR_location: [PUSH 0],\n},\n}\n}\n', 'run\nexpression a\nexpression a[1]\nexpression a[1][0]\n'))
bug('p18-lines', 'P18', 'src/debugger/Source/Parser.cpp', '        auto source_line = lex.getNumber();', '        auto source_line = static_cast<uint16_t>(lex.getNumber());',
    'debug information about a line above 65535', 'the line is entered under another number',
    cpp('''#include "debugger/Source/Parser.h"
#include <sstream>
int main() {
    std::istringstream is(".debug_line\\n70000: 3\\n"); dbg::Parser p(is); auto i = p.Parse();
    auto a = i.line_mapping->GetAddress(70000); return a && *a == 3 && !i.line_mapping->GetAddress(70000 - 65536) ? 0 : 1;
}
'''))
bug('p20-finish', 'P20', 'src/dbg-cli/CLI.h', '            auto e = process.PerformStepOut();\n            if (!std::holds_alternative<Singlestep>(e)) {\n                ReportDebugEvent(e);\n            }\n            if (std::holds_alternative<ExecutionEnd>(e)) {\n                is_running = false;\n            } else {',
    '            auto e = process.PerformStepOut();\n            if (!std::holds_alternative<Singlestep>(e)) {\n                ReportDebugEvent(e);\n            }\n            if (!std::holds_alternative<ExecutionEnd>(e)) {',
    'a program that ends during finish, followed by another command that continues', 'the ended program is treated as if it still ran',
    dbg('.text\n0 MOV R1, 1\n1 HALT\n', 'run\nfinish\nfinish\nframe\nistep\n'))
bug('p21-reply', 'P21', 'src/debugger/T86Process.cpp', '    auto text = process->Receive();\n    if (!text) {\n        throw DebuggerError("PEEKTEXT err");\n    }\n    if (text->starts_with', '    auto text = process->Receive();\n    if (text->starts_with',
    'a connection that is lost while code is read', 'the debugger uses a message that does not exist',
    cpp('''#include "debugger/T86Process.h"
#include "messenger.h"
#include <unistd.h>
struct M : Messenger { void Send(const std::string&) override {} std::optional<std::string> Receive() override { return {}; } };
int main() {
    T86Process p(std::make_unique<M>(), 1, 0, 16);
    try { p.ReadText(0, 1); } catch (const DebuggerError&) { return 0; }
    return 1;
}
'''))
bug('p23-fill', 'P23', 'src/t86/program/programbuilder.h', '            data_.reserve(size);\n            for (std::size_t i = 0; i < size; ++i) {\n                data_.push_back(value);\n            }', '            data_.resize(size, value);',
    'a block of initial data that is added after other data', 'the block is too short by the data before it, so that later labels and cells are wrong',
    cpp('''#include "t86/program/programbuilder.h"
int main() {
    tiny::t86::ProgramBuilder b; b.addData(1); b.addData(2); auto s = b.addData(7, 3); auto n = b.addData(9); auto p = b.program();
    return s == 2 && n == 5 && p.data().size() == 6 && p.data().at(4) == 7 && p.data().at(5) == 9 ? 0 : 1;
}
'''))
