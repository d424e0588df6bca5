bug('p04-minusreg', 'P04', 'src/t86-parser/parser.cpp', '                    if (curtok.kind == TokenKind::PLUS) {\n                        GetNext();\n                        if (curtok.kind == TokenKind::ID) {',
    '                    if (curtok.kind == TokenKind::PLUS || curtok.kind == TokenKind::MINUS) {\n                        GetNext();\n                        if (curtok.kind == TokenKind::ID) {',
    'an address that subtracts its second register', 'text that is not in the language, [R1 + 1 - R2], is accepted and means [R1 + 1 + R2]',
    run('.data\n7 8 9 10\n.text\n0 MOV R1, 1\n1 MOV R2, 1\n2 MOV R3, [R1 + 1 - R2]\n3 PUTNUM R3\n4 HALT\n'))
bug('p05-offset', 'P05', 'src/t86/cpu/register.h', 'return regOffset_.toString() + " + " + regScaled_.toString();', 'return (regOffset_.offset() ? regOffset_.toString() : regOffset_.reg().toString()) + " + " + (regScaled_.scale() > 0 ? regScaled_.toString() : regScaled_.reg().toString());',
    'the largest addressing form with a scale of zero or less', 'the scale is missing in the disassembly, so the text means another instruction',
    dbg('.text\n0 MOV R1, [R0 + 4 + R2 * 0]\n1 MOV R1, 2\n2 HALT\n', 'run\nbreakpoint iset 0\ndisassemble from 0\ncontinue\ncontinue\nregister get R1\n'))
bug('p13-wait', 'P13', 'src/common/threads_messenger.h', '\n        out.cv.wait(l, [this]{ return !this->out.q.empty();});', '\n        if (out.q.empty()) {\n            out.cv.wait(l);\n        }',
    'a spurious wake-up of the receiving thread', 'the receiver takes a message from an empty queue',
    cpp('''#include "threads_messenger.h"
#include <thread>
#include <atomic>
#include <pthread.h>
#include <unistd.h>
#include <dlfcn.h>
// POSIX allows a wait to return although nobody notified; the first one does so here.
static std::atomic<int> waits{0};
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    if (waits++ == 0) { pthread_mutex_unlock(m); usleep(1000); pthread_mutex_lock(m); return 0; }
    return real(c, m);
}
int main() {
    ThreadQueue<std::string> a, b; ThreadMessenger tx(a, b), rx(b, a);
    std::thread t([&] { while (waits == 0) { usleep(1000); } usleep(300000); tx.Send("hello"); });
    std::string got = *rx.Receive(); if (got != "hello") _exit(1);
    t.join(); _exit(waits == 0 ? 2 : 0);
}
''', 'common'))
bug('p14-trunc', 'P14', 'src/common/TCP.h', '        int err = read(socket, data.data() + received, size - received);\n        if (err < 0) {\n            throw TCPError("Reading failed");\n        } else if (err == 0) {\n            return std::nullopt;\n        }',
    '        int err = read(socket, data.data() + received, size - received);\n        if (err < 0) {\n            throw TCPError("Reading failed");\n        } else if (err == 0) {\n            data.resize(received);\n            break;\n        }',
    'a connection that ends in the middle of a message', 'a part of a message is delivered as if it was whole',
    cpp('''#include "TCP.h"
#include <sys/socket.h>
#include <unistd.h>
int main() {
    int s[2]; socketpair(AF_UNIX, SOCK_STREAM, 0, s); size_t n = 20;
    if (write(s[1], &n, 8) != 8 || write(s[1], "POKEDATA 1 1", 12) != 12) return 2;
    close(s[1]); 
    try { return TCP::Receive(s[0]) ? 1 : 0; } catch (const TCP::TCPError&) { return 0; }
}
''', 'common'))
bug('p18-data', 'P18', 'src/t86-parser/parser.cpp', '            data.emplace_back(Imm());', '            data.emplace_back(static_cast<int>(Imm()));',
    'initial data that needs more than 32 bits', 'only the low half of the number is stored',
    run('.data\n1 4294967298\n.text\n0 MOV R1, [1]\n1 PUTNUM R1\n2 HALT\n'))
bug('p20-source', 'P20', 'src/dbg-cli/CLI.h', '            auto begin = std::max(*line - 2, 0l);', '            auto begin = *line > 2 ? *line - 2 : *line;',
    'source at the second or third line', 'the lines before the current one are missing',
    dbg('.text\n0 MOV R1, 1\n1 MOV R1, 2\n2 MOV R1, 3\n3 HALT\n.debug_line\n0: 0\n1: 1\n2: 2\n.debug_source\na\nb\nc\nd\n', 'run\nsource\nstep\nsource\nstep\nsource\n'))
bug('p21-eof', 'P21', 'src/t86/debug.cpp', '            if (!message) {\n                return false;', '            if (!message) {\n                return reason != BreakReason::CpuError;',
    'a connection that ends while the machine waits', 'the machine runs on without its debugger and prints the rest of its output',
    cpp('''#include "t86/os.h"
#include "t86-parser/parser.h"
#include "messenger.h"
#include <sstream>
#include <unistd.h>
#include <iostream>
struct M : Messenger { int n = 0; void Send(const std::string&) override {} std::optional<std::string> Receive() override { return {}; } };
int main() {
    std::istringstream is(".text\\n0 MOV R1, 3\\n1 PUTNUM R1\\n2 HALT\\n"); Parser p(is); auto prog = p.Parse();
    std::ostringstream out; auto* old = std::cout.rdbuf(out.rdbuf());
    { tiny::t86::OS os(4, 1, 16); os.SetDebuggerComms(std::make_unique<M>()); os.Run(std::move(prog)); }
    std::cout.rdbuf(old); _exit(out.str().empty() ? 0 : 1);
}
'''))
bug('p23-str', 'P23', 'src/t86/program/programbuilder.h', '            for (char c : str) {\n                addData(c);\n            }', '            for (const char* c = str.c_str(); *c != 0; ++c) {\n                addData(*c);\n            }',
    'a string with a zero inside, followed by other data', 'the string is cut at the zero, so all that follows has another address than its label',
    cpp('''#include "t86/program/programbuilder.h"
int main() {
    tiny::t86::ProgramBuilder b; auto s = b.addData(std::string("a\\0b", 3)); auto n = b.addData(7); auto p = b.program();
    return s == 0 && n == 4 && p.data().size() == 5 && p.data().at(2) == 98 ? 0 : 1;
}
'''))
bug('p24-flush', 'P24', 'src/t86/cpu/reservation_station.cpp', '            entry.logClearSpeculation();\n        }\n        entries_.clear();', '            if (entry.state() != Entry::State::retiring) {\n                entry.logClearSpeculation();\n            }\n        }\n        entries_.clear();',
    'an instruction after a wrongly predicted jump that is already executed when the jump is decided', 'instructions that were never executed are counted',
    cpp('''#include "t86/cpu.h"
#include "t86-parser/parser.h"
#include "t86/utils/stats_logger.h"
#include <sstream>
#include <iostream>
int main() {
    std::istringstream is(".text\\n0 MOV R1, 3\\n1 MUL R1, R1\\n2 MUL R1, R1\\n3 MUL R1, R1\\n4 JMP R1\\n5 MOV R2, 1\\n6 MOV R3, 1\\n7 HALT\\n");
    std::string text = is.str(); text.replace(text.find("MUL R1, R1"), 10, "ADD R1, R1"); text.replace(text.find("MUL R1, R1"), 10, "SUB R1, 3 "); text.replace(text.find("MUL R1, R1"), 10, "ADD R1, 4 ");
    std::istringstream is2(text); Parser p(is2); auto prog = p.Parse();
    tiny::t86::Cpu cpu(4, 1, 4, 12, 64, 4); cpu.start(std::move(prog)); while (!cpu.halted()) cpu.tick();
    std::ostringstream o; tiny::t86::StatsLogger::instance().processBasicStats(o); std::cout << o.str();
    return o.str().find("Total instructions executed: 6") != std::string::npos ? 0 : 1;
}
'''))
bug('p25-mem', 'P25', 'src/t86-cli/main.cpp', '    size_t memsize = args.get<size_t>("--memory-size");', '    size_t memsize = std::max(args.get<size_t>("--memory-size"), data_size);',
    'initial data larger than the memory that was asked for', 'the machine gets more memory than asked for',
    run('.data\n1 2 3 4 5 6\n.text\n0 MOV R1, 9\n1 PUTNUM R1\n2 HALT\n', '--memory-size 4'),
    also=[('src/t86-cli/main.cpp', '        program = parser.Parse();', '        program = parser.Parse();\n        data_size = program.data().size();'),
          ('src/t86-cli/main.cpp', '    tiny::t86::Program program;\n', '    tiny::t86::Program program;\n    size_t data_size = 0;\n')])
