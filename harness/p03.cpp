// P03: faults are precise, speculated faults are invisible, nothing brings the machine down.
#include "runs.h"
using runs::Space; using runs::Init; using runs::Case; using std::string; using std::vector;
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    vm::Cfg c1; vm::Cfg c3 = c1; c3.alu = 4; vm::Cfg c8 = c1; c8.alu = 8;
    Init i0{{3, 2, 0, 100}, {1.5, -2.25}, {4, 3, 2, 1, 7}, "ab"}, i1{{0, -1, 1, 4}, {0.0, 3.0}, {0, 1, 2, 3, 4}, ""};
    auto run = [&](const string& n, vector<string> al, std::array<unsigned,4> len, vector<Init> in, vector<vm::Cfg> cf, vector<string> tail = {"HALT"}, vector<string> head = {}) {
        unsigned l = len[(A ? 0 : 2) + T]; if (!l) return;
        if (A) cf = {cf.back()};
        Space s{al, l, head, tail, in, cf}; runs::sweep(X, n, s);
    };
    // faults of every kind around jumps, output and stores
    run("mixed", {"MOV R1, [100]", "MOV [R3], R0", "DIV R0, R2", "MOV R7, 1", "JZ 4", "JNZ 5", "DEC R0", "PUTNUM R0", "MOV [3], R0", "JMP 3", "CALL 5", "RET", "MOV [R0 - 4], R1", "POP R1", "FADD F5, 1.0", "CMP R0, 3"}, {4, 4, 5, 5}, {i0}, {c1, c3}, {"PUTNUM R0", "MOV [4], R0", "HALT"});
    // a faulting instruction behind a slow condition, on the wrong and on the right path
    run("speculated", {"MOV R1, [R3]", "MOV [R3], 1", "IDIV R0, R2", "MOV R0, R9", "FADD F0, F7", "PUSH R8", "MOV [24], 5", "CALL R6", "JZ [R3]", "MOV R0, [R0 + R3 * 2]", "NOP", "PUTNUM R1", "LOOP R2, 0", "NRW R4, F0", "RET", "POP R5"}, {3, 3, 4, 5}, {i0, i1}, {c1, c3, c8}, {"ADD R1, 1", "PUTNUM R1", "MOV [2], R1", "HALT"}, {"CMP R0, [1]", "JE 6", "JL [4]"});
    // stack limits
    run("stack-limits", {"PUSH R0", "POP R1", "CALL 3", "RET", "MOV SP, 0", "MOV SP, R3", "ADD SP, 1", "FPUSH F0", "FPOP F1", "MOV R0, [SP]", "PUTNUM SP", "INC R0"}, {3, 4, 5, 6}, {i0}, {c1, c3}, {"ADD R0, 1", "PUTNUM R0", "HALT"});
    // every instruction with a register or cell that does not exist, in every position, with live neighbours
    {
        vector<string> bad;
        for (string op: {"ADD","SUB","MUL","IMUL","DIV","IDIV","AND","OR","XOR","LSH","RSH","CMP"}) for (string a: {"R0, R4","R9, R0","R0, [24]","R0, [R3]","R0, [R4]","R0, [R3 + 1]","R0, [-1]"}) bad.push_back(op + " " + a);
        for (string op: {"DIV","IDIV"}) for (string a: {"R0, 0","R0, R2","R0, [R2 + 6]","R0, R2 + 0"}) bad.push_back(op + " " + a);
        for (string op: {"INC","DEC","NEG","NOT","PUSH","POP","PUTNUM","PUTCHAR","GETCHAR","JMP","CALL","JZ","JNE"}) bad.push_back(op + " R4");
        for (string j: {"JZ","JNZ","JG","JB","JO","JS"}) for (string a: {"[24]","[R3]","[R3 - 1]","[R5]","R11"}) bad.push_back(j + " " + a);
        for (string m: {"[24]","[R3]","[R3 + 5]","[R2 - 1]","[R3 * 2]","[R0 + R3]","[R0 + R3 * 2]","[R0 + 1 + R3]","[R0 + 30 + R1 * 2]","[R4]","[R0 + R5]","[R0 + 1 + R6 * 2]","[-1]","[9223372036854775807]"}) { bad.push_back("MOV R0, " + m); bad.push_back("MOV " + m + ", R0"); bad.push_back("MOV " + m + ", 5"); bad.push_back("MOV " + m + ", F0"); if (m.find("[R0 +") == 0) bad.push_back("LEA R1, " + m); }
        for (string op: {"FADD","FSUB","FMUL","FDIV","FCMP"}) { bad.push_back(op + " F2, F0"); bad.push_back(op + " F0, F2"); bad.push_back(op + " F2, 1.5"); }
        for (string s: {"EXT F0, R4","EXT F2, R0","NRW R4, F0","NRW R0, F2","FPUSH F2","FPOP F2","MOV F2, R0","MOV R0, F2","MOV F0, [R3]","MOV F0, [24]","MOV F0, F9","MOV [3], F2","MOV [3], R4","LOOP R4, 2","LOOP R0, R4","LEA R4, [R0 + 1]","LEA R0, [R4 + 1]","MOV R4, 1","MOV R0, R4","MOV R4, [R3]"}) bad.push_back(s);
        vector<vector<string>> ctx = {{"%","HALT"}, {"MOV [3], 9","PUTNUM R0","INC R0","%","PUTNUM R1","HALT"}, {"JMP 2","%","PUTNUM R0","HALT"}, {"CMP R0, R0","JE 3","%","MOV [3], R1","HALT"}, {"CMP R0, [1]","JNE 4","MOV [3], 1","%","PUTNUM R0","HALT"}, {"CMP R0, [0]","JNE 3","MOV R0, 5","%","PUTNUM R0","HALT"}, {"CALL 4","PUTNUM R0","HALT","%","INC R0","RET","%"}, {"PUSH R0","POP R1","%","PUSH R1","HALT"}, {"LOOP R1, 2","%","MOV [5], R1","LOOP R0, 0","HALT"}, {"MOV R3, 5","%","MOV R1, 2","HALT"}, {"MUL R0, R1","MUL R0, R1","JZ 4","JMP 5","%","MOV [2], R0","HALT"}, {"%","%","HALT"}, {"HALT","%"}};
        vector<Init> in = {i0, i1}; vector<vm::Cfg> cf = A ? vector<vm::Cfg>{c3} : vector<vm::Cfg>{c1, c3, c8};
        uint64_t n = bad.size()*ctx.size()*in.size()*cf.size();
        auto get = [&](uint64_t i) { ex::Digits d(i); Case c; c.cfg = cf[d.take(cf.size())]; c.init = in[d.take(in.size())]; auto& x = ctx[d.take(ctx.size())]; auto& b = bad[d.take(bad.size())]; for (auto& s: x) c.prog.push_back(s == "%" ? b : s); return c; };
        X.sweep("every-instruction", n, [&](uint64_t i) { auto d = runs::compare(X, get(i)); if (!d.empty()) X.report(d); }, [&](uint64_t i) { return runs::show(get(i)); });
    }
    // effective addresses everywhere in the 64-bit range, reached through every addressing form, executed and only speculated
    {
        vector<int64_t> as = {0, 1, 23, 24, 25, -1, -2, -24, 127, 128, 255, 256, 65536, 65539};
        for (int k: {15, 16, 31, 32, 33, 40, 48, 52, 53, 56, 60, 61, 62}) for (int64_t d: {-1, 0, 3, 23, 24}) { as.push_back((int64_t)((1ull << k) + d)); as.push_back((int64_t)(0 - (1ull << k) + d)); }
        for (int64_t d: {0, 3, 23}) { as.push_back((int64_t)((1ull << 63) + d)); as.push_back(INT64_MAX - d); }
        auto sp = [](const string& x) { return "MOV SP, R0\n" + x; };
        vector<string> forms = {"MOV R2, [R0]","MOV [R0], R1","MOV [R0], 5","MOV [R0], F0","MOV F1, [R0]","ADD R1, [R0]","CMP R1, [R0]","IMUL R1, [R0]","JNZ [R0]","MOV R2, [R0 + 1]","MOV [R0 + 1], R1","MOV R2, [R0 - 1]","MOV [R0 + -3], 5","MOV R2, [R0 * 2]","MOV [R0 * 8], R1","MOV R2, [R1 + R0]","MOV [R1 + R0], R3","MOV R2, [R0 + R1 * 2]","MOV R2, [R1 + R0 * 4]","MOV [R1 + R0 * 8], 7","MOV R2, [R1 + 3 + R0]","MOV [R1 + 1 + R0 * 2], R1","MOV R2, [R0 + 1 + R1 * 2]",
            "MOV R2, [@]","MOV [@], R1","MOV [@], 5","MOV R2, [R1 + @]","MOV [R1 + @], R3","MOV R2, [R1 + @ + R3 * 2]","LEA R2, [R0 + R0 * 8]","MOV BP, R0\nMOV R2, [BP - 1]", sp("PUSH R1"), sp("POP R2"), sp("FPUSH F0"), sp("FPOP F1"), sp("CALL 5"), sp("RET"), sp("MOV R2, [SP + 1]")};
        vector<vector<string>> ctx = {{"PUTNUM R1","%","PUTNUM R2","MOV [2], R1","HALT"}, {"CMP R0, R0","JE 6","%","PUTNUM R2","MOV [2], R1","HALT","PUTNUM R3","HALT"}, {"MOV [3], R3","%","MOV R3, [3]","PUTNUM R3","PUTNUM R2","HALT"}};
        vector<vm::Cfg> cf = A ? vector<vm::Cfg>{c3} : vector<vm::Cfg>{c1, c3};
        uint64_t n = as.size() * forms.size() * ctx.size() * 3 * cf.size();
        auto get = [=](uint64_t i) { ex::Digits d(i); Case c; c.cfg = cf[d.take(cf.size())]; int64_t a = as[d.take(as.size())]; c.init = Init{{a, (int64_t)d.take(3) - 1, 6, 4}, {1.5, -2.25}, {4, 3, 2, 1, 7}, "ab"}; auto& x = ctx[d.take(ctx.size())]; string f = forms[d.take(forms.size())]; if (auto p = f.find('@'); p != f.npos) f.replace(p, 1, std::to_string(a));
            for (auto& s: x) if (s == "%") { std::istringstream l(f); string one; while (std::getline(l, one)) c.prog.push_back(one); } else c.prog.push_back(s); return c; };
        X.sweep("addresses", n, [&, get](uint64_t i) { auto d = runs::compare(X, get(i)); if (!d.empty()) X.report(d); }, [get](uint64_t i) { return runs::show(get(i)); });
    }
    return X.finish("every program of the stated length over alphabets of faulting and harmless instructions, every faulting instruction in thirteen contexts, and every addressing form with effective addresses over the whole 64-bit range; non-trivial = executes more than two instructions",
        {"faults are accesses to memory cells or registers that do not exist and division by zero; shift counts outside 0..63 and float-to-integer overflow are excluded", "jumping outside the program executes no-ops and is not a fault (programs that never end are skipped)", "the instruction pointer reported at a CPU error is not judged"});
}
