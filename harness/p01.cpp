// P01: out-of-order execution equals sequential execution.
#include "runs.h"
using runs::Space; using runs::Init;
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    vm::Cfg c1; vm::Cfg c2 = c1; c2.alu = 2; vm::Cfg c3 = c1; c3.alu = 4; vm::Cfg g1 = c3; g1.gates = 1; vm::Cfg c8 = c1; c8.alu = 8;
    Init i0{{3, 2, 5, 1}, {1.5, -2.25}, {4, 3, 2, 1, 7}, "ab"}, i1{{0, -1, 1, 4}, {0.0, 3.0}, {0, 1, 2, 3, 4}, ""};
    // len: lengths for (asan quick, asan thorough, fast quick, fast thorough)
    auto run = [&](const std::string& n, std::vector<std::string> al, std::array<unsigned,4> len, std::vector<Init> in, std::vector<vm::Cfg> cf, std::vector<std::string> tail = {"HALT"}, std::vector<std::string> head = {}, unsigned rep = 1, unsigned limit = 60) {
        unsigned l = len[(A ? 0 : 2) + T]; if (!l) return;
        if (A) cf = {cf.back()};
        Space s{al, l, head, tail, in, cf, limit, rep}; runs::sweep(X, n, s);
    };
    // stores, loads, forwarding, aliasing through registers
    std::vector<std::string> mem = {"MOV [3], R0", "MOV [R0], R1", "MOV R0, [3]", "MOV R1, [R0]", "MOV [R2 - 2], 9", "ADD R0, 1", "MOV R2, [R1 + 1]", "INC R1", "MOV [3], R2", "ADD R1, [3]"};
    run("memory", mem, {4, 5, 5, 6}, {i0}, {c1, c2, c3, g1});
    // branches of every kind, taken and not, known and unknown targets, loops
    std::vector<std::string> br = {"JMP 3", "JZ 2", "JNZ 4", "DEC R0", "JMP R1", "LOOP R3, 0", "CMP R0, 2", "PUTNUM R0", "MOV [3], R0", "JL [R3]", "MOV R1, 4", "HALT"};
    run("branch", br, {3, 4, 5, 6}, {i0}, {c1, c2, c3}, {"ADD R2, R0", "PUTNUM R2", "HALT"});
    // stack, calls and returns, also computed ones
    std::vector<std::string> st = {"PUSH R0", "POP R1", "CALL 3", "RET", "PUSH 4", "CALL R2", "MOV R2, [SP]", "INC R0", "MOV [SP - 1], R0", "POP BP", "ADD SP, 1", "MOV SP, BP", "HALT"};
    run("stack", st, {3, 4, 5, 5}, {i0}, {c1, c3}, {"ADD R3, R0", "PUTNUM R3", "HALT"});
    // floats and their interplay with integers, flags and memory
    std::vector<std::string> fl = {"FADD F0, F1", "FMUL F0, 2.5", "MOV F1, [2]", "MOV [2], F0", "EXT F0, R0", "NRW R1, F0", "FCMP F0, F1", "JL 5", "FPUSH F0", "FPOP F1", "MOV R0, F1"};
    run("float", fl, {3, 4, 5, 6}, {i0}, {c1, c3}, {"PUTNUM R1", "MOV [4], R0", "HALT"});
    // long dependency chains around a jump: wrong-path stores, output, input and flags must leave no trace
    std::vector<std::string> sp = {"MOV [3], 8", "PUTNUM R0", "PUSH R0", "INC R0", "MOV R0, [3]", "GETCHAR R2", "MOV [R0], 6", "CMP R1, R2", "POP R2", "BREAK"};
    run("speculation", sp, {3, 4, 4, 5}, {i0, i1}, {c1, c2, c3, c8}, {"ADD R3, R0", "JZ [R0]", "PUTNUM R3", "MOV R1, [3]", "HALT"}, {"CMP R0, [1]", "JE 6"});
    // a loop run twice, so that every jump in the body has a stale prediction
    run("loop", {"MOV [3], R0", "MOV R0, [3]", "PUTNUM R0", "PUSH R1", "POP R2", "DEC R1", "JZ 5", "JL 4", "CALL 8", "INC R0", "JNE [R3]", "MOV [R3], R1"}, {3, 4, 4, 6}, {i0}, {c1, c3, c8}, {"NOP", "LOOP R3, 0", "PUTNUM R0", "HALT", "ADD R0, 2", "RET"}, {});
    // flags live across anything: set, disturbed, then observed by jumps
    run("flags", {"CMP R0, R1", "ADD R2, R0", "FCMP F0, F1", "MOV R1, 7", "SUB R0, 3", "AND R3, 0", "MUL R1, R2", "JMP 4", "NEG R0", "LSH R1, 62"}, {3, 4, 4, 6}, {i0, i1}, {c1, c3}, {"JZ 7", "ADD R3, 16", "NOP", "JL 9", "ADD R3, 32", "JB 11", "ADD R3, 64", "JO 13", "ADD R3, 128", "JS 15", "ADD R3, 256", "HALT", "NOP", "HALT", "NOP", "HALT"});
    // every instruction once in every context of two neighbours
    std::vector<std::string> all = {"MOV R0, 5","MOV R0, R1","MOV R1, [R0 + 1 + R2]","MOV R2, [R0 * 2]","MOV R0, [R1 + R2]","MOV R1, [R0 + R3 * 2]","MOV [R0 + R1], 6","MOV [R1 * 2], R0","MOV [R0 + 1 + R2 * 2], R3",
        "LEA R0, [R1 + 3]","LEA R1, [R0 + R2]","LEA R2, [R0 + 1 + R1 * 3]","ADD R0, R1 + 1","SUB R1, R0","MUL R0, 3","IMUL R1, R0","DIV R0, 2","IDIV R1, 3","AND R0, R1","OR R1, [1]","XOR R0, R0","NOT R1","NEG R0","LSH R0, 2","RSH R1, 1",
        "INC R0","DEC R1","CMP R0, R1","JZ 3","JG R2","JBE 4","JO 4","LOOP R1, 2","CALL 3","RET","PUSH R1","POP R0","PUTCHAR R3","PUTNUM R1","GETCHAR R0","NOP","FADD F0, 1.5","FSUB F1, F0","FDIV F0, F1","FCMP F1, F0","EXT F1, R1","NRW R0, F1","FPUSH F1","FPOP F0","MOV F0, R1","MOV R1, F0"};
    run("all", all, {2, 2, 3, 4}, {i0, i1}, {c1, c3}, {"ADD R3, R0", "PUTNUM R3", "MOV [4], R1", "HALT"});
    // long straight lines and long loops: renaming and queue resources are recycled many times
    std::vector<std::string> lg = {"MOV [R0], R1", "MOV R1, [R0]", "INC R1", "ADD R0, 1", "XOR R0, R0", "CMP R1, R0", "PUSH R1", "POP R2", "MOV F0, R1", "FADD F1, F0", "PUTCHAR R3", "NOP", "MOV R3, R2", "LEA R0, [R3 + 2]", "MOV SP, BP"};
    run("long", lg, {1, 2, 3, 4}, {i1}, {c1, c3}, {"PUTNUM R1", "MOV [4], R0", "HALT"}, {}, 20, 400);
    run("long-loop", lg, {1, 2, 3, 3}, {i1}, {c1, c3}, {"LOOP R3, 1", "PUTNUM R1", "MOV [4], R0", "HALT"}, {"MOV R3, 30"}, 1, 400);
    return X.finish("every program of the stated length over each alphabet (10 to 51 instructions), for every listed machine width, run on the real VM and on the sequential reference model; non-trivial = executes more than two instructions",
        {"program length, alphabets and initial values are bounded as listed per suite", "programs that do not end within 60 reference steps are outside the bound and counted as skipped"});
}
