# ---- P01
# ---- P02
bug('p02-jbe', 'P02', 'src/t86/instruction.cpp', 'COND_JMP_INS_IMPL(JBE, flags.carryFlag || flags.zeroFlag)', 'COND_JMP_INS_IMPL(JBE, flags.carryFlag != flags.zeroFlag)',
    'an addition whose result is zero with a carry, then JBE', 'JBE is not taken when both the zero and the carry flag are set',
    run('.text\n0 MOV R1, -1\n1 ADD R1, 1\n2 JBE 5\n3 MOV R2, 7\n4 PUTNUM R2\n5 HALT\n'))
bug('p02-add-overflow', 'P02', 'src/t86/cpu/alu.cpp', 'bool overflowFlag = (y > 0 && x > (std::numeric_limits<int64_t>::max() - y))', 'bool overflowFlag = (y > 0 && x >= (std::numeric_limits<int64_t>::max() - y))',
    'an addition that results in exactly the largest number', 'the overflow flag is set although the result fits, so JL / JG / JO decide wrongly',
    run('.text\n0 MOV R1, 9223372036854775806\n1 ADD R1, 1\n2 JO 4\n3 HALT\n4 MOV R2, 1\n5 PUTNUM R2\n6 HALT\n'))
bug('p02-loop-flags', 'P02', 'src/t86/cpu/alu.cpp', '            carryFlag = ((x >> (y - 1)) & 1) != 0;', '            carryFlag = ((static_cast<int32_t>(x) >> ((y - 1) & 31)) & 1) != 0;',
    'a right shift by more than 32', 'the carry flag of RSH is taken from the low half of the number',
    run('.text\n0 MOV R1, 4294967296\n1 RSH R1, 33\n2 JB 4\n3 HALT\n4 MOV R2, 1\n5 PUTNUM R2\n6 HALT\n'))
# ---- P03
# ---- P06
# ---- P07
bug('p07-cached', 'P07', 'src/debugger/Native.cpp', '    auto event = PerformSingleStep();\n    EnableSoftwareBreakpoint(ip); \n    return event;',
    '    auto event = PerformSingleStep();\n    if (std::holds_alternative<Singlestep>(event)) {\n        EnableSoftwareBreakpoint(ip); \n    }\n    return event;',
    'a breakpoint on an instruction that writes a watched cell, passed by a continue or a step', 'the breakpoint is silently disabled when the instruction under it raises another event',
    dbg('.text\n0 MOV R1, 2\n1 MOV [5], R1\n2 LOOP R1, 1\n3 HALT\n', 'run\nbreakpoint iset 1\nwatchpoint iset 5\ncontinue\ncontinue\nbreakpoint list\ncontinue\ncontinue\ncontinue\n'))
# ---- P09
bug('p09-slots', 'P09', 'src/debugger/Arch.h', '            control_reg &= ~(1 << idx);', '            control_reg &= ~((2u << idx) - 1);',
    'removing a watchpoint while an older one is in a lower slot', 'removing one watchpoint also switches off those in the lower slots',
    dbg('.text\n0 MOV [5], 1\n1 MOV [5], 2\n2 HALT\n', 'run\nwatchpoint iset 5\nwatchpoint iset 6\ncontinue\nwatchpoint irem 6\ncontinue\ncontinue\n'))
# ---- P10
bug('p10-setfreg', 'P10', 'src/t86/debug.cpp', 'acc += fmt::format("F{}:{}\\n", i, cpu.getFloatRegister(FloatRegister{i}));', 'acc += fmt::format("F{}:{:.10g}\\n", i, cpu.getFloatRegister(FloatRegister{i}));',
    'a float register that needs more than ten digits, and a write to another float register', 'float registers are shown rounded, and writing one float register rounds all the others',
    dbg('.text\n0 MOV F0, 0.1234567890123\n1 MOV F1, 1.0\n2 FCMP F0, 0.1234567890123\n3 JZ 5\n4 HALT\n5 MOV R1, 1\n6 HALT\n', 'run\nistep\nistep\nregister fset F1 2.5\ncontinue\nregister get R1\n'))
# ---- P12
bug('p12-peekdata', 'P12', 'src/t86/debug.cpp', '            } else if (message == "CONTINUE") {', '            } else if (command.starts_with("CONT")) {',
    'a malformed request that merely begins like CONTINUE', 'a malformed request starts the machine',
    cpp('''#include "t86/os.h"
#include "t86-parser/parser.h"
#include "threads_messenger.h"
#include <thread>
#include <iostream>
int main() {
    std::istringstream is(".text\\n0 MOV R1, 3\\n1 HALT\\n"); Parser p(is); auto prog = p.Parse();
    ThreadQueue<std::string> a, b;
    auto vm = std::thread([&] { tiny::t86::OS os(4, 1, 16); os.SetDebuggerComms(std::make_unique<ThreadMessenger>(a, b)); os.Run(std::move(prog)); });
    ThreadMessenger m(b, a);
    auto r0 = *m.Receive(); m.Send("CONTRACT"); auto r1 = *m.Receive(); m.Send("REASON"); auto r2 = *m.Receive();
    m.Send("TERMINATE"); m.Receive(); if (r2 != "START") { m.Send("TERMINATE"); } 
    bool ok = r0 == "STOPPED" && r1 == "UNKNOWN COMMAND" && r2 == "START"; std::cout << r1 << " " << r2 << std::endl;
    _exit(ok ? 0 : 1);
}
'''))
