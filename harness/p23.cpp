// P23: a program built with ProgramBuilder is the program its text describes, and the functions hooked into it (DBG, BREAK) run in program order.
#include "direct.h"
#include "t86/program/programbuilder.h"
#include "t86/program/helpers.h"
using runs::Init; using std::string; using std::vector; using namespace tiny::t86; using direct::Cfg;
static vector<string>* record;   // what the hooks saw
static size_t NR = 4, NF = 2, NM = 24;
static string seen(char who, const Cpu& c) {
    string s(1, who); auto n = [&](int64_t v) { s += " " + std::to_string(v); };
    n(c.getRegister(Register::StackPointer())); n(c.getRegister(Register::StackBasePointer())); for (size_t i = 0; i < NR; ++i) n(c.getRegister(Register{i})); for (size_t i = 0; i < NF; ++i) n(ref::d2bits(c.getFloatRegister(FloatRegister{i}))); for (size_t i = 0; i < NM; ++i) n(c.getMemory(i)); return s;
}
static string seen(char who, const ref::Machine& m) {
    string s(1, who); auto n = [&](int64_t v) { s += " " + std::to_string(v); };
    n(m.sp); n(m.bp); for (auto v: m.r) n(v); for (auto v: m.f) n(ref::d2bits(v)); for (auto v: m.m) n(v); return s;
}
struct Sym { string text; std::function<Label(ProgramBuilder&)> add; char hook = 0; std::function<void(ref::Machine&)> effect; };
#define S(TEXT, ...) Sym{TEXT, [](ProgramBuilder& b) { return b.add(__VA_ARGS__); }}
static Sym dbg(char who) { return {"NOP", [who](ProgramBuilder& b) { return b.add(DBG{[who](Cpu& c) { record->push_back(seen(who, c)); }}); }, who}; }
static Sym dbgWrite(char who, int64_t v) {
    return {"NOP", [who, v](ProgramBuilder& b) { return b.add(DBG{[who, v](Cpu& c) { record->push_back(seen(who, c)); c.setRegisterDebug(Register{0}, v); c.setMemory(3, v + 1); c.setFloatRegisterDebug(FloatRegister{1}, v + 0.5); }}); },
        who, [v](ref::Machine& m) { m.r[0] = v; m.m[3] = v + 1; m.f[1] = v + 0.5; }};
}
static Sym brk() { return {"BREAK", [](ProgramBuilder& b) { return b.add(BREAK{}); }, '!'}; }
struct Case { vector<Sym> p; Init in; Cfg c; bool handler = true, release = false; };
static string show(const Case& c) { string s; for (auto& y: c.p) s += (y.hook && y.hook != '!' ? string("DBG-") + y.hook : y.text) + "; "; return s + "| " + direct::show(c.c) + (c.handler ? " handler" : "") + (c.release ? " release" : ""); }
static string check(ex::Explorer& X, const Case& c) {
    vector<string> got, want, text; vector<const Sym*> kept;
    for (auto& y: c.p) { if (c.release && y.hook && y.hook != '!') continue; kept.push_back(&y); text.push_back(y.text); }
    auto m = direct::makeRef(text, c.in, c.c); ref::Ev e = ref::Ev::Ok;
    for (int k = 0; k < 60 && e == ref::Ev::Ok; ++k) {
        if (m.pc < kept.size() && kept[m.pc]->hook) { auto& y = *kept[m.pc]; if (y.hook != '!' || c.handler) want.push_back(seen(y.hook, m)); if (y.effect) y.effect(m); }
        e = m.step(); X.visit(m.hash());
    }
    if (e == ref::Ev::Ok) { X.c().skipped++; return ""; }
    if (m.steps > 2) X.c().interesting++;
    record = &got; StatsLogger::instance().reset();
    try {
        ProgramBuilder b(c.release); size_t pos = 0;
        for (auto& y: c.p) { size_t cur = b.currentLabel(); Label l = y.add(b); if (cur != pos || l != pos) return "label of instruction " + std::to_string(pos) + " is " + std::to_string(l) + ", current label " + std::to_string(cur); if (!(c.release && y.hook && y.hook != '!')) ++pos; }
        for (auto v: c.in.data) b.addData(v);
        Program p = b.program();
        if (p.instructions().size() != kept.size()) return "the program has " + std::to_string(p.instructions().size()) + " instructions, " + std::to_string(kept.size()) + " were added";
        for (size_t i = 0; i < kept.size(); ++i) if (!kept[i]->hook) { auto q = vm::assemble(".text\n" + kept[i]->text + "\n"); auto x = p.at(i).toString(), w = q.at(0).toString(); if (x != w) return "instruction " + std::to_string(i) + " is " + x + ", the text gives " + w; }
        Cpu cpu(c.c.nr, c.c.nf, c.c.alu, c.c.rs, c.c.ram, c.c.gates);
        if (c.handler) cpu.connectBreakHandler([](Cpu& k) { record->push_back(seen('!', k)); });
        auto r = direct::run(cpu, std::move(p), c.in, direct::enough(m.steps));
        for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
            if (i >= got.size()) return "hook call " + std::to_string(i) + " is missing, expected " + want[i]; if (i >= want.size()) return "unexpected hook call " + got[i];
            if (got[i] != want[i]) return "hook call " + std::to_string(i) + " saw (SP BP R F mem) " + got[i] + ", expected " + want[i];
        }
        if (r.late) return "no end after " + std::to_string(r.ticks) + " ticks";
        if (r.halted != (e == ref::Ev::Halt)) return r.halted ? "the run halted, sequential execution faults" : "the run failed with '" + r.what + "', sequential execution halts";
        auto d = direct::diff(cpu, m); if (!d.empty()) return d;
        if (r.out != m.out) return "printed '" + r.out + "', expected '" + m.out + "'";
    } catch (const std::exception& x) { return string("exception: ") + x.what(); }
    X.c().traces++; return "";
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    Init i0{{3, 2, 5, 1}, {1.5, -2.25}, {4, 3, 2, 1, 7, 11, 12, 13, 14, 15, 16, 17, 18}, "ab"}, i1 = i0; i1.r = {6, 1, 2, 3};
    vector<Cfg> cfs = {{4, 2, 1, 2, 24, 4}, {4, 2, 4, 16, 24, 1}}; if (!A) cfs.push_back({4, 2, 2, 1, 24, 2}), cfs.push_back({4, 2, 2, 5, 24, 4});
    auto list = [&](const string& n, const vector<Case>& v) { X.sweep(n, v.size(), [&](uint64_t i) { auto d = check(X, v[i]); if (!d.empty()) X.report(d); }, [&](uint64_t i) { return show(v[i]); }); };
    auto seqs = [&](const string& n, vector<Sym> al, unsigned len, vector<Sym> tail, vector<Sym> head = {}, bool variants = true) {
        auto get = [=, &cfs](uint64_t i) { ex::Digits d(i); Case c; c.in = i0; c.c = cfs[d.take(cfs.size())]; int v = variants ? d.take(3) : 0; c.handler = v != 1; c.release = v == 2; c.p = head; for (unsigned k = 0; k < len; ++k) c.p.push_back(al[d.take(al.size())]); c.p.insert(c.p.end(), tail.begin(), tail.end()); return c; };
        X.sweep(n, cfs.size() * (variants ? 3 : 1) * ex::ipow(al.size(), len), [&](uint64_t i) { auto d = check(X, get(i)); if (!d.empty()) X.report(d); }, [&](uint64_t i) { return show(get(i)); }); };
    { // every way to write an operand
        auto R0 = Reg(0), R1 = Reg(1), R2 = Reg(2); auto F0 = FReg(0), F1 = FReg(1);
        vector<Sym> y = {
            S("MOV R3, 42", MOV{Reg(3), 42}), S("MOV R3, R1", MOV{Reg(3), Reg(1)}), S("MOV SP, R1", MOV{Sp(), Reg(1)}), S("MOV R0, SP", MOV{Reg(0), Sp()}), S("MOV BP, 3", MOV{Bp(), 3}),
            S("MOV R3, [5]", MOV{Reg(3), Mem(5)}), S("MOV R3, [R0]", MOV{Reg(3), Mem(Reg(0))}), S("MOV R3, [R0 + 2]", MOV{Reg(3), Mem(Reg(0) + 2)}), S("MOV R3, [R2 - 2]", MOV{Reg(3), Mem(Reg(2) - 2)}),
            S("MOV R3, [R0 * 2]", MOV{Reg(3), Mem(Reg(0) * 2)}), S("MOV R3, [R0 + R1]", MOV{Reg(3), Mem(Reg(0) + Reg(1))}), S("MOV R3, [R2 + R1 * -1]", MOV{Reg(3), Mem(Reg(2) - Reg(1))}),
            S("MOV R3, [R0 + R1 * 2]", MOV{Reg(3), Mem(Reg(0) + Reg(1) * 2)}), S("MOV R3, [R2 + R1 * -2]", MOV{Reg(3), Mem(Reg(2) - Reg(1) * 2)}), S("MOV R3, [R0 + R1 * 2]", MOV{Reg(3), Mem(Reg(1) * 2 + Reg(0))}),
            S("MOV R3, [R0 + 1 + R1]", MOV{Reg(3), Mem(Reg(0) + 1 + Reg(1))}), S("MOV R3, [R0 + 1 + R1]", MOV{Reg(3), Mem(Reg(0) + Reg(1) + 1)}), S("MOV R3, [R0 - 1 + R1]", MOV{Reg(3), Mem(Reg(0) - 1 + Reg(1))}), S("MOV R3, [R0 - 1 + R1]", MOV{Reg(3), Mem(Reg(0) + Reg(1) - 1)}), S("MOV R3, [R2 + 1 + R1]", MOV{Reg(3), Mem(Reg(1) + (Reg(2) + 1))}),
            S("MOV R3, [R2 + 1 + R1 * -1]", MOV{Reg(3), Mem(Reg(2) + 1 - Reg(1))}), S("MOV R3, [R2 + 1 + R1 * -1]", MOV{Reg(3), Mem(Reg(2) - Reg(1) + 1)}), S("MOV R3, [R2 - 1 + R1 * -1]", MOV{Reg(3), Mem(Reg(2) - Reg(1) - 1)}),
            S("MOV R3, [R0 + 1 + R1 * 2]", MOV{Reg(3), Mem(Reg(0) + 1 + Reg(1) * 2)}), S("MOV R3, [R0 + 1 + R1 * 2]", MOV{Reg(3), Mem(Reg(0) + Reg(1) * 2 + 1)}), S("MOV R3, [R0 - 1 + R1 * 2]", MOV{Reg(3), Mem(Reg(0) + Reg(1) * 2 - 1)}), S("MOV R3, [R0 + 1 + R1 * 2]", MOV{Reg(3), Mem(Reg(1) * 2 + (Reg(0) + 1))}),
            S("MOV R3, [R0 + 1 + R1 * 2]", MOV{Reg(3), Mem(Reg(1) * 2 + 1 + Reg(0))}), S("MOV R3, [R0 - 1 + R1 * 2]", MOV{Reg(3), Mem(Reg(1) * 2 - 1 + Reg(0))}), S("MOV R3, [R2 + 5 + R1 * -2]", MOV{Reg(3), Mem(Reg(2) + 5 - Reg(1) * 2)}),
            S("MOV R3, F1", MOV{Reg(3), FReg(1)}), S("MOV F0, 2.5", MOV{FReg(0), 2.5}), S("MOV F0, F1", MOV{FReg(0), FReg(1)}), S("MOV F0, R1", MOV{FReg(0), Reg(1)}), S("MOV F0, [4]", MOV{FReg(0), Mem(4)}), S("MOV F0, [R1]", MOV{FReg(0), Mem(Reg(1))}),
#define DST(M, E) S("MOV " M ", 9", MOV{E, 9}), S("MOV " M ", R1", MOV{E, Reg(1)}), S("MOV " M ", F1", MOV{E, FReg(1)}),
            DST("[5]", Mem(5)) DST("[R0]", Mem(Reg(0))) DST("[R0 + 2]", Mem(Reg(0) + 2)) DST("[R2 - 1]", Mem(Reg(2) - 1)) DST("[R0 * 3]", Mem(Reg(0) * 3)) DST("[R0 + R1]", Mem(Reg(0) + Reg(1))) DST("[R0 + 1 + R1]", Mem(Reg(0) + 1 + Reg(1))) DST("[R0 + R1 * 3]", Mem(Reg(0) + Reg(1) * 3)) DST("[R0 + 2 + R1 * 3]", Mem(Reg(0) + 2 + Reg(1) * 3)) DST("[R2 + R1 * -1]", Mem(Reg(2) - Reg(1)))
#define ALU(I) S(#I " R0, R1", I{Reg(0), Reg(1)}), S(#I " R0, 5", I{Reg(0), 5}), S(#I " R0, R1 + 2", I{Reg(0), Reg(1) + 2}), S(#I " R0, R1 - 1", I{Reg(0), Reg(1) - 1}), S(#I " R0, [5]", I{Reg(0), Mem(5)}), S(#I " R0, [R1]", I{Reg(0), Mem(Reg(1))}), S(#I " R0, [R1 + 2]", I{Reg(0), Mem(Reg(1) + 2)}), S(#I " SP, 1", I{Sp(), 1}), S(#I " BP, R1", I{Bp(), Reg(1)}),
            ALU(ADD) ALU(SUB) ALU(MUL) ALU(DIV) ALU(IMUL) ALU(IDIV) ALU(AND) ALU(OR) ALU(XOR) ALU(LSH) ALU(RSH)
            S("CMP R0, R1", CMP{Reg(0), Reg(1)}), S("CMP R0, 3", CMP{Reg(0), 3}), S("CMP R0, [1]", CMP{Reg(0), Mem(1)}), S("CMP R0, [R1]", CMP{Reg(0), Mem(Reg(1))}), S("CMP R0, [R1 + 1]", CMP{Reg(0), Mem(Reg(1) + 1)}),
            S("INC R1", INC{Reg(1)}), S("DEC SP", DEC{Sp()}), S("NEG R0", NEG{Reg(0)}), S("NOT R0", NOT{Reg(0)}),
            S("FADD F0, F1", FADD{FReg(0), FReg(1)}), S("FSUB F0, 0.5", FSUB{FReg(0), 0.5}), S("FMUL F1, F1", FMUL{FReg(1), FReg(1)}), S("FDIV F0, 4.0", FDIV{FReg(0), 4.0}), S("FCMP F0, F1", FCMP{FReg(0), FReg(1)}), S("FCMP F0, 1.5", FCMP{FReg(0), 1.5}), S("EXT F0, R1", EXT{FReg(0), Reg(1)}), S("NRW R0, F1", NRW{Reg(0), FReg(1)}),
            S("PUSH R1", PUSH{Reg(1)}), S("PUSH -4", PUSH{-4}), S("FPUSH F1", FPUSH{FReg(1)}), S("FPUSH 1.25", FPUSH{1.25}), S("PUTCHAR R1", PUTCHAR{Reg(1)}), S("PUTNUM R1", PUTNUM{Reg(1)}), S("GETCHAR R1", GETCHAR{Reg(1)}), S("NOP", NOP{}),
            S("LEA R3, [R1 + 2]", LEA{Reg(3), Mem(Reg(1) + 2)}), S("LEA R3, [R1 + R2]", LEA{Reg(3), Mem(Reg(1) + Reg(2))}), S("LEA R3, [R1 + 4 + R2]", LEA{Reg(3), Mem(Reg(1) + 4 + Reg(2))}), S("LEA R3, [R1 + R2 * 3]", LEA{Reg(3), Mem(Reg(1) + Reg(2) * 3)}), S("LEA R3, [R1 - 2 + R2 * 3]", LEA{Reg(3), Mem(Reg(1) - 2 + Reg(2) * 3)}),
        };
        vector<Case> v; for (auto& s: y) for (auto& in: {i0, i1}) for (auto& c: cfs) { Case k; k.in = in; k.in.sp = 20; k.c = c; k.p = {s, S("JZ 4", JZ{4}), S("PUTNUM R3", PUTNUM{Reg(3)}), S("JL 5", JL{5}), S("INC R1", INC{Reg(1)}), S("HALT", HALT{})}; v.push_back(k); }
        // jumps to a number, through a register, through memory
#define J(I) S(#I " 4", I{4}), S(#I " R2", I{Reg(2)}), S(#I " [R1]", I{Mem(Reg(1))}), S(#I " [5]", I{Mem(5)}), S(#I " [R1 + 3]", I{Mem(Reg(1) + 3)}),
        vector<Sym> j = {S("JMP 4", JMP{4}), S("JMP R2", JMP{Reg(2)}), S("CALL 4", CALL{4}), S("CALL R2", CALL{Reg(2)}), S("LOOP R1, 4", LOOP{Reg(1), 4}), S("LOOP R1, R2", LOOP{Reg(1), Reg(2)}), J(JZ) J(JNZ) J(JE) J(JNE) J(JG) J(JGE) J(JL) J(JLE) J(JA) J(JAE) J(JB) J(JBE) J(JO) J(JNO) J(JS) J(JNS)};
        for (auto& s: j) for (int64_t cmp: {3, 2, 4, -1}) for (auto& c: cfs) { Case k; k.in = i0; k.in.data = {0, 0, 4, 0, 0, 5, 0}; k.in.r = {3, 2, 5, 1}; k.in.sp = 20; k.c = c; Sym cs{"CMP R0, " + std::to_string(cmp), [cmp](ProgramBuilder& b) { return b.add(CMP{Reg(0), cmp}); }}; k.p = {cs, s, S("PUTNUM R0", PUTNUM{Reg(0)}), S("HALT", HALT{}), S("PUTNUM R1", PUTNUM{Reg(1)}), S("PUTNUM R2", PUTNUM{Reg(2)}), S("HALT", HALT{})}; v.push_back(k); }
        list("operands", v);
    }
    // hooks among stores, loads, jumps and output
    unsigned L = A ? 3 : T ? 5 : 4;
    seqs("hooks and memory", {dbg('a'), dbg('b'), S("MOV [R0], R1", MOV{Mem(Reg(0)), Reg(1)}), S("ADD R0, [3]", ADD{Reg(0), Mem(3)}), S("PUSH R0", PUSH{Reg(0)}), S("POP R1", POP{Reg(1)}), S("FADD F1, F0", FADD{FReg(1), FReg(0)}), S("MOV [3], F1", MOV{Mem(3), FReg(1)}), brk()}, L, {S("HALT", HALT{})});
    seqs("hooks and jumps", {dbg('a'), dbg('b'), brk(), S("DEC R0", DEC{Reg(0)}), S("JZ 3", JZ{3}), S("JMP 4", JMP{4}), S("LOOP R3, 0", LOOP{Reg(3), 0}), S("JNE R2", JNE{Reg(2)}), S("CALL 2", CALL{2}), S("PUTNUM R0", PUTNUM{Reg(0)})}, L, {dbg('c'), S("HALT", HALT{}), dbg('d'), S("HALT", HALT{})});
    seqs("writing hooks", {dbgWrite('w', 7), dbgWrite('x', 2), brk(), S("MOV R1, [3]", MOV{Reg(1), Mem(3)}), S("MOV [3], R0", MOV{Mem(3), Reg(0)}), S("ADD R0, R1", ADD{Reg(0), Reg(1)}), S("FADD F1, F0", FADD{FReg(1), FReg(0)}), S("MOV [R0], F1", MOV{Mem(Reg(0)), FReg(1)}), S("LOOP R3, 1", LOOP{Reg(3), 1})}, L, {S("PUTNUM R0", PUTNUM{Reg(0)}), S("HALT", HALT{})});
    { // labels: every jump patched to every place, with hooks in between that a release build leaves out
        struct K { int type, from, to, mask; bool rel; };
        auto get = [](uint64_t i) { ex::Digits d(i); K k; k.type = d.take(5); k.from = d.take(5); k.to = d.take(6); k.mask = d.take(32); k.rel = d.take(2); return k; };
        auto text = [](const K& k, vector<string>& out) { vector<int> at; int p = 0; for (int q = 0; q < 5; ++q) { at.push_back(p); if ((k.mask >> q & 1) && !k.rel) { ++p; } if (q == k.from) ++p; ++p; } at.push_back(p);
            for (int q = 0; q < 5; ++q) { if ((k.mask >> q & 1) && !k.rel) out.push_back("NOP"); if (q == k.from) { string t = std::to_string(at[k.to]); out.push_back(k.type == 0 ? "JMP " + t : k.type == 1 ? "JZ " + t : k.type == 2 ? "JNE " + t : k.type == 3 ? "CALL " + t : "LOOP R3, " + t); } out.push_back("ADD R0, " + std::to_string(1 << q)); } out.push_back("PUTNUM R0"); out.push_back("HALT"); };
        X.sweep("labels", 5*5*6*32*2, [&](uint64_t i) {
            K k = get(i); vector<string> t; text(k, t); Init in = i0; in.r = {0, 0, 0, 2}; in.data.clear(); Cfg c = cfs[1];
            auto m = direct::makeRef(t, in, c); auto e = runs::runRef(X, m, 100); if (e == ref::Ev::Ok) { X.c().skipped++; return; } X.c().interesting++;
            StatsLogger::instance().reset(); vector<string> rec; record = &rec;
            try {
                ProgramBuilder b(k.rel); Label jump = Label::empty(); vector<Label> at;
                for (int q = 0; q < 5; ++q) {
                    Label first = b.currentLabel(); if (k.mask >> q & 1) { Label l = b.add(DBG{[](Cpu& c) { record->push_back("x"); }}); if (l != first) return X.report("a hook got the label " + std::to_string(l) + ", expected " + std::to_string(first)); }
                    at.push_back(first);
                    if (q == k.from) { auto none = Label::empty(); jump = k.type == 0 ? b.add(JMP{none}) : k.type == 1 ? b.add(JZ{none}) : k.type == 2 ? b.add(JNE{none}) : k.type == 3 ? b.add(CALL{none}) : b.add(LOOP{Reg(3), none}); }
                    b.add(ADD{Reg(0), 1 << q});
                }
                at.push_back(b.add(PUTNUM{Reg(0)})); b.add(HALT{});
                b.patch(jump, at[k.to]);
                Program p = b.program(); for (size_t q = 0; q < t.size(); ++q) if (t[q] != "NOP") { auto w = vm::assemble(".text\n" + t[q] + "\n"); if (p.at(q).toString() != w.at(0).toString()) return X.report("instruction " + std::to_string(q) + " is " + p.at(q).toString() + ", expected " + t[q]); }
                Cpu cpu(c.nr, c.nf, c.alu, c.rs, c.ram, c.gates); auto r = direct::run(cpu, std::move(p), in, direct::enough(m.steps));
                if (r.halted != (e == ref::Ev::Halt)) return X.report("ended differently: " + r.what); auto d = direct::diff(cpu, m); if (!d.empty()) return X.report(d); if (r.out != m.out) return X.report("printed " + r.out + ", expected " + m.out);
                X.c().traces++;
            } catch (const std::exception& x) { X.report(string("exception: ") + x.what()); }
        }, [&](uint64_t i) { K k = get(i); vector<string> t; text(k, t); return vm::join(t) + " (hooks " + std::to_string(k.mask) + (k.rel ? ", left out" : "") + ", jump patched)"; });
    }
    { // data: every sequence of additions, also to a builder that continues a program
        auto get = [](uint64_t i) { ex::Digits d(i); vector<int> v; for (int k = 0; k < 5; ++k) v.push_back(d.take(9)); return v; };
        X.sweep("data", ex::ipow(9, 5) , [&](uint64_t i) {
            auto v = get(i); vector<int64_t> w; std::unique_ptr<ProgramBuilder> b = std::make_unique<ProgramBuilder>(); size_t ins = 0;
            for (int k: v) {
                int64_t at = w.size(), l = at; 
                if (k == 0) { l = b->addData(-5); w.push_back(-5); } else if (k == 1) { l = b->addData(INT64_MIN); w.push_back(INT64_MIN); } else if (k == 2) { l = b->addData(7, 3); w.insert(w.end(), 3, 7); } else if (k == 3) { l = b->addData(7, 1); w.push_back(7); } else if (k == 4) { l = b->addData(7, 0); }
                else if (k == 5) { l = b->addData(string("a\0b", 3)); w.insert(w.end(), {'a', 0, 'b', 0}); } else if (k == 6) { l = b->addData(string()); w.push_back(0); }
                else if (k == 7) { b = std::make_unique<ProgramBuilder>(b->program()); } else { if (b->add(INC{Reg(0)}) != ins) return X.report("wrong label of an instruction"); ++ins; }
                if (l != at) return X.report("data label is " + std::to_string(l) + ", expected " + std::to_string(at));
            }
            auto h = b->add(HALT{}); if (h != ins) return X.report("wrong label of the last instruction");
            Program p = b->program(); if (p.data() != w) return X.report("the data differs"); if (p.instructions().size() != ins + 1) return X.report("the number of instructions differs");
            Init in; in.data = w; direct::Cfg c{4, 2, 1, 2, 30, 4}; vector<string> t(ins, "INC R0"); t.push_back("HALT"); auto m = direct::makeRef(t, in, c); auto e = runs::runRef(X, m, 20); X.c().interesting++; X.c().traces++;
            StatsLogger::instance().reset(); Cpu cpu(c.nr, c.nf, c.alu, c.rs, c.ram, c.gates); auto r = direct::run(cpu, std::move(p), in, 500); if (!r.halted || e != ref::Ev::Halt) return X.report("did not halt: " + r.what); auto d = direct::diff(cpu, m); if (!d.empty()) X.report(d);
        }, [&](uint64_t i) { string s; for (int k: get(i)) s += vector<string>{"add -5; ","add min; ","add 7 x3; ","add 7 x1; ","add 7 x0; ","add string; ","add empty string; ","continue; ","instruction; "}[k]; return s; });
    }
    return X.finish("every operand form written with the library's classes and operators, every sequence of the listed instructions and hooks (with and without break handler, with and without release flag) on four processors, every patched jump, every sequence of data additions: the built program must be the one its text describes, run like the sequential reference, and call each hook exactly when sequential execution reaches it, showing and taking over the sequential state",
        {"sequences of up to 4 (thorough 5) instructions between fixed ends", "what a hook sees as program counter is not documented and not judged"});
}
