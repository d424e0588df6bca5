#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,state,mechanism,observe,hook=False):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=state,meaning=state,where=files[0])],mechanism=[dict(name=mechanism,where=files[0])],observe_at=[observe],hook_needed=None)))
p("P01","Out-of-order execution equals sequential execution",
  "For every program, the registers, memory and printed output at the end of a run are those of executing its instructions one at a time in program order. Out-of-order issue, register renaming, store-to-load forwarding, branch prediction and misprediction recovery are never visible in the result.",
  ["programs"],"all programs (bounded length) built from instruction alphabets that provoke register, flag, stack and memory hazards, forward and backward branches, indirect jumps, calls and returns",
  "A wrong forward, rename or rollback needs a particular combination of two to five neighbouring instructions; the integration tests run a dozen fixed programs.",
  ["src/t86/cpu.cpp","src/t86/cpu/reservation_station.cpp","src/t86/cpu/register_allocation_table.cpp","src/t86/cpu/memory_writes_manager.cpp","src/t86/ram.cpp"],
  "architectural registers, flags (through conditional jumps), RAM, output stream","reservation station, RAT, pending-write manager, predictor queue, in-order retirement","state read over the debug protocol at the halt stop, and standard output")
p("P02","Every instruction computes its documented result and flags",
  "For every instruction, every operand form and every pair of operand values, the destination, the flags as seen by the conditional jumps, and the addressed memory cell are those given by the instruction-set documentation. Each conditional jump is taken exactly when its documented flag condition holds.",
  ["inputs"],"all arithmetic/logic/compare/float/move/stack instructions x all operand forms x all pairs of boundary values x all 16 conditional jumps",
  "The tests touch a few values per instruction and hardly any flag combinations.",
  ["src/t86/cpu/alu.cpp","src/t86/instruction.cpp","src/t86/instruction.h","src/t86/instructions/operand.cpp","docs/t86-isa.md"],
  "ALU result and flags","ALU functions and operand evaluation","registers/memory at halt; direction of each conditional jump")
p("P03","Faults are precise and never bring the machine down",
  "A run reports a CPU error exactly when sequential execution reaches an instruction that accesses a memory cell or register that does not exist or divides by zero, and everything before that instruction has taken effect. An instruction that is only speculated, and never reached, causes no fault and no crash.",
  ["programs"],"all bounded programs mixing faulting accesses with branches, calls and returns, taken and not taken, stale and fresh predictions",
  "A fault on a mis-speculated path depends on pipeline timing of the neighbouring instructions; tests contain one straight-line error.",
  ["src/t86/cpu/reservation_station.cpp","src/t86/ram.cpp","src/t86/os.cpp","src/t86/cpu/alu.cpp"],
  "machine status (running, halted, error), output before the fault","exceptions deferred to retirement, OS run loop","return value and stop reason of a run, output and memory before the fault")
p("P04","The assembler keeps the meaning of accepted text and rejects the rest",
  "Every instruction text built from the documented operand forms is accepted and denotes exactly the written opcode, registers, offsets, scales and constants, including negative and 64-bit values. Any other text is rejected with a parse error; it is never silently read as a different instruction and never crashes the assembler.",
  ["inputs"],"all token sequences up to a bounded length over an assembly token alphabet, for every mnemonic, and all constants of a boundary set in every constant position",
  "The space of malformed operands is combinatorial; tests give a handful of good and bad lines.",
  ["src/t86-parser/parser.cpp","src/common/parsing.cpp","src/common/parsing.h"],
  "parsed program","recursive-descent parser and lexer","disassembly and execution of the parsed program, or the parse error")
p("P05","Disassembled text reassembles to the same instruction",
  "The text the machine shows for any instruction, when assembled again, is the same instruction with the same registers, offsets and exact constants. Reading code and writing it back therefore never changes what a program does.",
  ["inputs"],"all mnemonics x all operand forms x boundary constants, integer and floating",
  "Round-trip loss appears only for particular constants and forms.",
  ["src/t86/instruction.cpp","src/t86/instructions/operand.cpp","src/t86-parser/parser.cpp","src/t86/debug.cpp"],
  "instruction text","instruction printing and parsing, code read/write requests","code read back over the debug protocol, and execution after write-back")
p("P06","A single step executes exactly one instruction",
  "From any stop, a single step executes exactly the one instruction at the instruction pointer and stops again with registers, memory and instruction pointer as sequential execution leaves them. Any mix of stepping and continuing visits the same instruction sequence and ends with the same result as an undisturbed run.",
  ["programs","histories"],"all bounded programs, stepping throughout, and all bounded step/continue choice sequences",
  "The pipeline state at each stop differs per neighbouring instructions and per previous command; tests step a few programs.",
  ["src/t86/cpu.cpp","src/t86/cpu/reservation_station.cpp","src/t86/debug.cpp","src/debugger/Native.cpp"],
  "trap flag, pipeline content at stop, registers","trap flag handling and pipeline flush at single step","registers and memory read at every stop")
p("P07","Breakpoints stop exactly where set and change nothing else",
  "Execution stops at an enabled breakpoint each time, and only when, its instruction is about to be executed, before it has any effect. Setting, removing, enabling, disabling and re-setting breakpoints in any order never alters what the program computes or prints.",
  ["histories","programs"],"all sequences up to a bounded depth of set/remove/enable/disable/step/continue over the addresses of several programs with loops and calls",
  "Interactions of breakpoint state with stepping over the breakpoint need specific command histories.",
  ["src/debugger/Native.cpp","src/debugger/Native.h","src/debugger/T86Process.cpp","src/t86/cpu.cpp"],
  "breakpoint table, saved instructions, machine code","opcode patching, step-over of the current breakpoint, cached event","debug events, instruction pointer, registers, memory, output")
p("P08","Code is viewed and edited as if no breakpoints existed",
  "Reading code always shows the program's own instructions, and rewriting code always takes effect on the next execution of that address, whether a breakpoint there is enabled, disabled or absent. Breakpoints set on rewritten code stay in force.",
  ["histories"],"all sequences up to a bounded depth of breakpoint commands, code rewrites and resumptions, with a full code read after every command",
  "Saved instruction, enabled flag and machine code must agree after every history, not just after the two-step ones in tests.",
  ["src/debugger/Native.cpp","src/debugger/T86Process.cpp","src/t86/debug.cpp","src/t86/cpu.cpp"],
  "breakpoint table and machine code","substitution of saved instructions when reading and writing code","code listing, events and results after resumption")
p("P09","Watchpoints fire exactly on writes to watched cells",
  "While a watchpoint on a memory cell exists, every executed write to that cell stops the program right after the writing instruction and reports that cell; nothing else does. Removing a watchpoint ends its effect at once and frees its slot, and at most four exist at a time.",
  ["histories","programs"],"all sequences up to a bounded depth of add/remove/continue/step over programs that write by every addressing mode, push and call, including speculated writes that never happen",
  "Requires particular orders of adds, removes and writes; tests have three fixed ones.",
  ["src/debugger/Native.cpp","src/debugger/Arch.h","src/t86/cpu.cpp","src/t86/debug.cpp"],
  "debug registers, watchpoint table","debug register allocation and the write check","debug events with cell address, and program state at the stop")
p("P10","Inspection and modification while stopped are exact",
  "At every stop, register, float register and memory reads show the values of sequential execution up to that point. A value written to a register or memory cell at a stop is the one all later instructions, reads and stops see, and nothing else changes.",
  ["histories","programs"],"all bounded programs x every stop point x every register and cell x read/write sequences, followed by resumption",
  "A stale copy in the pipeline or memory system only shows if the next instructions already fetched that location.",
  ["src/t86/debug.cpp","src/t86/cpu.cpp","src/t86/ram.cpp","src/debugger/T86Process.cpp","src/debugger/Native.cpp"],
  "registers, memory, pipeline, in-flight reads","peek/poke requests","values read back and the remaining run compared with a sequential machine modified in the same way")
p("P11","Step-over and step-out respect calls and returns",
  "Stepping over a call executes the whole call, including nested and recursive ones, and stops at the instruction after it; stepping over anything else is a single step. Stepping out runs until the current function's return has executed. A breakpoint, watchpoint, halt or error met on the way is reported instead, and no temporary breakpoint remains.",
  ["histories","programs"],"all programs of a family with nested, recursive and adjacent calls x every start point x breakpoint/watchpoint placements x command sequences",
  "Needs recursion, breakpoints at the return address or inside the callee, and combinations of them.",
  ["src/debugger/Native.cpp"],"temporary breakpoint, breakpoint table","temporary breakpoint at the return address with frame check","event, instruction pointer, registers, breakpoint list")
p("P12","The debug protocol answers every request once and in order",
  "Between two stops, the machine answers every request with exactly one reply describing the current state, announces each stop exactly once with its true reason, and starts running only on continue or step. Unknown or malformed requests are refused without changing or ending the machine.",
  ["histories"],"all request sequences up to a bounded depth over well-formed and malformed requests, at every kind of stop",
  "Sequences are unbounded in number; tests exercise a few scripted conversations.",
  ["src/t86/debug.cpp","src/t86/os.cpp"],"stop reason, machine state","request loop","the exchanged messages")
p("P13","In-process messages are delivered once, in order, under any schedule",
  "For any number of messages exchanged between the debugger and machine threads and any thread schedule, each message is received exactly once, unmodified and in sending order, and a waiting receiver is always woken.",
  ["schedules"],"all interleavings of lock, wait, notify and queue operations for bounded message exchanges",
  "A lost wake-up or unguarded access needs one specific interleaving.",
  ["src/common/threads_messenger.h"],"message queues","mutex and condition variable hand-off","messages received; absence of deadlock")
p("P14","Socket messages survive any segmentation",
  "Messages of any length and content sent over a socket connection arrive whole, unmodified and in order, no matter how the transport splits or merges the bytes. A closed or failing connection is reported and never turns into a wrong message or an endless loop.",
  ["fault_sequences","inputs"],"all splits of the byte stream into partial reads and partial sends for bounded message sequences, and a close or error at every byte position",
  "Loopback tests practically never see partial transfers.",
  ["src/common/TCP.h"],"stream position","length-prefixed framing loops","messages received or error reported")
p("P15","Source lines map to addresses and source steps stop at lines",
  "Setting a breakpoint on a line or function name acts on exactly the address the debug information gives for it and errors when there is none. A source step or next stops at the next executed instruction that begins a mapped line, or earlier only at a reported event, and next does not stop inside calls.",
  ["inputs","histories"],"all line tables up to a bounded size over small programs x all start points x step/next sequences",
  "Line tables with gaps, shared addresses and loops multiply beyond test cases.",
  ["src/debugger/Source/Source.cpp","src/debugger/Source/LineMapping.cpp","src/debugger/Native.cpp"],
  "line table","address/line lookup and step loops","addresses of breakpoints, stop positions and events")
p("P16","Variables resolve to the innermost scope and the right storage",
  "At every address, exactly the variables whose enclosing scopes contain it are visible, an inner declaration hides an outer one regardless of declaration order, and a variable's location program yields the storage the documentation defines. Values of scalars, pointers, arrays and structures are decoded from exactly that storage.",
  ["inputs"],"all scope trees up to a bounded size with shadowing x all addresses; all location programs up to a bounded length x register and memory contents",
  "Scope nestings and location programs combine without limit.",
  ["src/debugger/Source/Source.cpp","src/debugger/Source/ExpressionInterpreter.cpp","src/debugger/Source/Expression.cpp"],
  "debug information tree, registers, memory","scope search and location stack machine","visible names, locations and values")
p("P17","Debugger expressions evaluate like the source language",
  "Every expression over variables, constants, pointers, arrays and structure members evaluates to the value given by the documented grammar and C arithmetic, and only assignments change the program, exactly at the assigned storage. Ill-typed or undefined expressions are reported as errors and never crash the debugger or change the program.",
  ["inputs"],"all expression token sequences up to a bounded length over an operator, constant and variable alphabet with values of every type",
  "Precedence, typing and storage effects combine per expression; tests evaluate a few dozen.",
  ["src/debugger/Source/Expression.cpp","src/debugger/Source/ExpressionParser.cpp","src/debugger/Source/Source.cpp","src/common/parsing.cpp"],
  "variable storage, earlier results","expression parser and evaluator","resulting typed value or error, and memory/registers afterwards")
p("P18","Program and debug sections are read exactly as written",
  "Data, line, debug-information and source sections, in any order and with any of them missing, are read with exactly the values, nesting and text written, and initial data appears in memory from cell zero. Malformed sections are reported as parse errors and never crash or hang the reader.",
  ["inputs"],"all section orders and subsets, all bounded data lists and escapes, all debug-information trees up to a bounded size, and every truncation and single-token corruption of them",
  "Truncations and corruptions at every point are too many for tests.",
  ["src/debugger/Source/Parser.cpp","src/t86-parser/parser.cpp","src/common/parsing.cpp","src/debugger/Source/SourceFile.h"],
  "parsed debug information and initial memory","section parsers","re-rendered debug information, initial memory, or the error")
p("P19","Breakpoints and watchpoints survive a re-run of the session",
  "Running the program again in the same debugger session starts it afresh and keeps exactly the breakpoints (with their enabled state) and watchpoints of before, all effective in the new run. No sequence of commands, valid or not, crashes or hangs the session.",
  ["histories"],"all command sequences up to a bounded depth over the session commands, including repeated runs",
  "Session state after arbitrary command histories is beyond the fixed scripts.",
  ["src/dbg-cli/CLI.h","src/debugger/Native.cpp"],"session state","command dispatch and re-application of breakpoints and watchpoints","session transcript")
p("P20","Debugger commands show the true state and misuse changes nothing",
  "Every command of the debugger, in any order and abbreviated to any unambiguous prefix, does what its help text documents and shows the actual state of the program: its code, source, registers, memory, variables, breakpoints, watchpoints, the reason of each stop and the program's own output. A command that is misused, or that comes when there is no process or the program has ended, is refused with a message, changes nothing and leaves the session usable.",
  ["histories","inputs"],"all command sequences up to a bounded depth over an alphabet of valid and misused commands, for programs with and without debug information, and every abbreviation and spacing of every command",
  "The scripted tests fix a few dozen transcripts; combinations of commands and misuse are never tried.",
  ["src/dbg-cli/CLI.h","src/debugger/Native.cpp","src/debugger/T86Process.cpp"],"session state","command dispatch","session transcript")
p("P21","A lost connection ends the machine cleanly and the debugger survives",
  "A machine reached over the network is debugged exactly like one started locally. When the connection is lost at any point, the machine ends without crashing, and the debugger reports the loss for every command that needs the machine, neither crashing nor waiting forever, and can afterwards start or attach to a program again.",
  ["fault_sequences","histories"],"all command sessions of a family over a connection x a loss of the connection at every byte and at every message in either direction",
  "Connections are never cut in tests, and the result depends on the byte at which one is.",
  ["src/common/TCP.h","src/t86/os.cpp","src/dbg-cli/CLI.h","src/debugger/T86Process.cpp","src/dbg-cli/utility/commands.h"],
  "connection, session state","sending and receiving of requests, replies and stops","session transcript, end of the machine")
p("P22","The processor's configuration never changes what a program computes",
  "With any number of registers, reservation station entries, arithmetic units, memory cells and memory gates, a program halts or fails, prints and leaves registers and memory exactly as sequential execution does; registers and cells exist exactly up to the configured numbers. A processor created without numbers uses those given as program arguments, and the documented defaults otherwise.",
  ["inputs","programs"],"the full grid of configurations x all programs up to a bounded length over hazard alphabets; all combinations of the documented arguments",
  "Configurations multiply with programs; tests use one or two configurations.",
  ["src/t86/cpu.cpp","src/t86/cpu/reservation_station.cpp","src/t86/ram.cpp","src/t86/cpu/register_allocation_table.cpp","src/common/config.h"],
  "configuration, pipeline, free physical registers","construction, dispatch, renaming, memory gates","registers, memory, output, halt or failure")
p("P23","Built programs equal their text and hooks run exactly in program order",
  "A program built with ProgramBuilder - through any operand expression, returned labels, patched jumps, data additions or leaving out debug hooks in a release build - is the program its text describes. A DBG function or break handler is called exactly once each time sequential execution reaches it, never for a wrongly predicted path, sees the sequential state, and changes it makes take effect for what follows.",
  ["inputs","programs"],"all operand forms, all patched jumps x hook placements, all data additions, all bounded sequences over an alphabet of hooks and instructions on several processors",
  "Hooks at mispredicted places and labels shifted by left-out hooks are combinations tests do not try.",
  ["src/t86/program/programbuilder.h","src/t86/program/helpers.cpp","src/t86/cpu/register.cpp","src/t86/instruction.cpp","src/t86/cpu.cpp"],
  "instruction list, data, pipeline at a hook","add, patch, retirement of DBG and BREAK","built program, sequence of hook calls with observed state, final state")
p("P24","Statistics count exactly the instructions that were really executed",
  "After a run, the reported numbers of ticks and executed instructions, in total and per kind of instruction, are those of the run: every instruction of sequential execution once and no wrongly speculated one. The averages agree with each other and are never negative, and no stage of an instruction takes longer than the run.",
  ["programs"],"all programs up to a bounded length over branch, memory and loop alphabets on several processors, as first and as repeated run",
  "How many instructions were fetched in vain depends on the program and the predictor state.",
  ["src/t86/utils/stats_logger.cpp","src/t86/cpu.cpp","src/t86/cpu/reservation_station.cpp"],
  "per-tick records, live instruction records","registration, logging and clearing of instructions","the printed statistics")
p("P25","t86-cli prints exactly the program's output or refuses with a message",
  "t86-cli runs a program file on a machine of the requested numbers of registers and memory cells, reading the standard input, and prints exactly what the program prints, with exit code 0 when it halts. A missing, malformed or unreadable file, an invalid option or value, a machine that cannot be created and a debugging port that cannot be opened are refused with a message and a non-zero exit code. With --debug it waits for a debugger and obeys it. It never crashes, also when the debugger leaves.",
  ["inputs","programs"],"all programs up to a bounded length x option sets, all argument sequences up to a bounded length over valid and invalid tokens, all truncations and single-character corruptions of a file, all network failures and early leaves of a debugger",
  "The command line is used by the tests in one or two valid forms only.",
  ["src/t86-cli/main.cpp","src/t86-parser/parser.cpp","src/t86/os.cpp"],"arguments, program file","start-up of the program","standard output, message, exit code")
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
