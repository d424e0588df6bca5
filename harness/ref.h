// Reference model: a boring sequential T86 machine, written from docs/t86-isa.md.
// It shares no code with /repo.  Programs are given as assembly text (one instruction per string).
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <map>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>
#include <set>

namespace ref {

enum class K { None, Imm, FImm, Reg, FReg, RegOff, Mem };
// register numbering: >=0 general purpose, SP=-1, BP=-2, IP=-3, none=-100
constexpr int SP=-1, BP=-2, IP=-3, NOREG=-100;

struct Opd {
    K k = K::None;
    int64_t imm = 0;
    double f = 0;
    int reg = NOREG;        // Reg / FReg / RegOff base / Mem base
    // Mem: base (maybe none) + off (maybe absent) + idx * scale
    int idx = NOREG; int64_t scale = 1;
    bool hasOff = false, hasScale = false;
};

struct Ins { std::string op; std::vector<Opd> o; std::string text; };

inline double bits2d(int64_t v) { double d; memcpy(&d, &v, 8); return d; }
inline int64_t d2bits(double d) { int64_t v; memcpy(&v, &d, 8); return v; }

// ---- tiny assembler of the reference (only ever fed texts built by our own generators)
struct Asm {
    const std::string& s; size_t p = 0;
    explicit Asm(const std::string& s): s(s) {}
    void ws() { while (p < s.size() && isspace((unsigned char)s[p])) ++p; }
    char peek() { ws(); return p < s.size() ? s[p] : 0; }
    std::string word() { ws(); size_t b = p; while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p]=='_')) ++p; return s.substr(b, p-b); }
    [[noreturn]] void bad() { throw std::logic_error("reference assembler cannot read: " + s); }
    static int regno(const std::string& w) {
        if (w == "SP") return SP; if (w == "BP") return BP; if (w == "IP") return IP;
        return std::stoi(w.substr(1));
    }
    // number: sets isf
    void number(Opd& o) {
        ws(); size_t b = p; if (s[p]=='-') ++p; ws();
        size_t d = p; bool isf = false;
        while (p < s.size() && (isdigit((unsigned char)s[p]) || s[p]=='.')) { if (s[p]=='.') isf = true; ++p; }
        if (d == p) bad();
        std::string t = (s[b]=='-' ? "-" : "") + s.substr(d, p-d);
        if (isf) { o.k = K::FImm; o.f = std::stod(t); }
        else { o.k = K::Imm; o.imm = (int64_t)(t[0]=='-' ? 0 - std::stoull(t.substr(1)) : std::stoull(t)); }
    }
    int64_t integer() { Opd o; number(o); if (o.k != K::Imm) bad(); return o.imm; }
    Opd operand() {
        Opd o; char c = peek();
        if (c == '[') {
            ++p; o.k = K::Mem; c = peek();
            if (isdigit((unsigned char)c) || c=='-') { o.imm = integer(); o.hasOff = true; }
            else {
                int r = regno(word()); c = peek();
                if (c == '*') { ++p; o.idx = r; o.scale = integer(); o.hasScale = true; }
                else {
                    o.reg = r;
                    while ((c = peek()) == '+' || c == '-') {
                        ++p; char d = peek();
                        if (isdigit((unsigned char)d) || d=='-') { int64_t v = integer(); o.imm = c=='-' ? -v : v; o.hasOff = true; }
                        else { if (c=='-') bad(); o.idx = regno(word()); if (peek()=='*') { ++p; o.scale = integer(); o.hasScale = true; } }
                    }
                }
            }
            if (peek() != ']') bad(); ++p;
            return o;
        }
        if (isdigit((unsigned char)c) || c == '-') { number(o); return o; }
        std::string w = word(); if (w.empty()) bad();
        if (w[0]=='F') { o.k = K::FReg; o.reg = regno(w); return o; }
        o.k = K::Reg; o.reg = regno(w);
        c = peek();
        if (c=='+' || c=='-') { ++p; int64_t v = integer(); o.k = K::RegOff; o.imm = c=='-' ? -v : v; }
        return o;
    }
    Ins ins() {
        Ins i; i.text = s; i.op = word();
        if (peek()) { i.o.push_back(operand()); while (peek()==',') { ++p; i.o.push_back(operand()); } }
        if (peek()) bad();
        return i;
    }
};
inline Ins parse(const std::string& s) { return Asm(s).ins(); }

struct Flags { bool sf=false, zf=false, cf=false, of=false; };
enum class Ev { Ok, Halt, Bkpt, Fault };

struct Machine {
    size_t nr, nf, nm;
    std::vector<int64_t> r; std::vector<double> f; std::vector<int64_t> m;
    int64_t sp, bp; uint64_t pc = 0; Flags fl;
    std::string out; std::string in; size_t inpos = 0;
    std::vector<Ins> text;
    // write watch
    std::vector<uint64_t> writes;   // addresses written by the last step
    uint64_t steps = 0;
    bool lastCall=false, lastRet=false;

    Machine(size_t nr, size_t nf, size_t nm): nr(nr), nf(nf), nm(nm), r(nr,0), f(nf,0.0), m(nm,0), sp(nm), bp(nm) {}
    void load(const std::vector<std::string>& p) { text.clear(); textHash = 7; for (auto& s: p) { text.push_back(parse(s)); for (char ch: s) textHash = (textHash ^ (unsigned char)ch) * 1099511628211ull; } }
    uint64_t textHash = 7;

    struct FaultEx {};
    int64_t& reg(int n) {
        if (n == SP) return sp; if (n == BP) return bp;
        if (n < 0 || (size_t)n >= nr) throw FaultEx{};
        return r[n];
    }
    int64_t rd(int n) { if (n == IP) return (int64_t)(pc + 1); return reg(n); }
    uint64_t addr(const Opd& o) {
        uint64_t a = 0;
        if (o.reg != NOREG) a += (uint64_t)rd(o.reg);
        if (o.hasOff) a += (uint64_t)o.imm;
        if (o.idx != NOREG) a += (uint64_t)rd(o.idx) * (uint64_t)o.scale;
        return a;
    }
    int64_t load(uint64_t a) { if (a >= nm) throw FaultEx{}; return m[a]; }
    void store(uint64_t a, int64_t v) { if (a >= nm) throw FaultEx{}; m[a] = v; writes.push_back(a); }
    int64_t val(const Opd& o) {
        switch (o.k) {
        case K::Imm: return o.imm;
        case K::FImm: return d2bits(o.f);
        case K::Reg: return rd(o.reg);
        case K::FReg: return d2bits(freg(o.reg));
        case K::RegOff: return (int64_t)((uint64_t)rd(o.reg) + (uint64_t)o.imm);
        case K::Mem: return load(addr(o));
        default: throw std::logic_error("val");
        }
    }
    double& freg(int n) { if (n < 0 || (size_t)n >= nf) throw FaultEx{}; return f[n]; }
    double fval(const Opd& o) { return o.k==K::FImm ? o.f : o.k==K::FReg ? freg(o.reg) : bits2d(val(o)); }

    static Flags nz(int64_t v, bool c=false, bool o=false) { return Flags{v<0, v==0, c, o}; }
    static Flags fnz(double v) { return Flags{v<0, v==0, false, (bool)std::isinf(v)}; }
    static std::pair<int64_t,Flags> alu(const std::string& op, int64_t x, int64_t y) {
        using I = __int128; using U = unsigned __int128;
        uint64_t ux = x, uy = y;
        if (op=="ADD") { int64_t v = (int64_t)(ux+uy); I e = (I)x+(I)y; return {v, nz(v, ((U)ux+(U)uy)>>64, e != (I)v)}; }
        if (op=="SUB") { int64_t v = (int64_t)(ux-uy); I e = (I)x-(I)y; return {v, nz(v, ux<uy, e != (I)v)}; }
        if (op=="MUL") { U e = (U)ux*(U)uy; int64_t v = (int64_t)(uint64_t)e; return {v, nz(v, (e>>64)!=0, false)}; }
        if (op=="IMUL"){ I e = (I)x*(I)y; int64_t v = (int64_t)(ux*uy); return {v, nz(v, false, e != (I)v)}; }
        if (op=="DIV") { if (!y) throw FaultEx{}; int64_t v = (int64_t)(ux/uy); return {v, nz(v)}; }
        if (op=="IDIV"){ if (!y) throw FaultEx{}; int64_t v = y==-1 ? (int64_t)(0-ux) : x/y; return {v, nz(v)}; }
        if (op=="AND") { int64_t v = x&y; return {v, nz(v)}; }
        if (op=="OR")  { int64_t v = x|y; return {v, nz(v)}; }
        if (op=="XOR") { int64_t v = x^y; return {v, nz(v)}; }
        if (op=="LSH") { int64_t v = (int64_t)(ux << (y&63)); return {v, nz(v, y>0 && ((ux >> (64-(y&63)))&1))}; }
        if (op=="RSH") { int64_t v = x >> (y&63); return {v, nz(v, y>0 && ((x >> ((y&63)-1))&1))}; }
        throw std::logic_error("alu "+op);
    }
    bool cond(const std::string& j) const {
        if (j=="JZ"||j=="JE") return fl.zf; if (j=="JNZ"||j=="JNE") return !fl.zf;
        if (j=="JG") return !fl.zf && fl.sf==fl.of; if (j=="JGE") return fl.sf==fl.of;
        if (j=="JL") return fl.sf!=fl.of; if (j=="JLE") return fl.zf || fl.sf!=fl.of;
        if (j=="JA") return !fl.cf && !fl.zf; if (j=="JAE") return !fl.cf;
        if (j=="JB") return fl.cf; if (j=="JBE") return fl.cf||fl.zf;
        if (j=="JO") return fl.of; if (j=="JNO") return !fl.of;
        if (j=="JS") return fl.sf; if (j=="JNS") return !fl.sf;
        throw std::logic_error("cond "+j);
    }
    uint64_t hash() const {
        uint64_t h = 1469598103934665603ull; auto add = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 31; };
        add(pc); add(sp); add(bp); for (auto v: r) add(v); for (auto v: f) add(d2bits(v)); for (auto v: m) add(v);
        add(fl.sf|fl.zf<<1|fl.cf<<2|fl.of<<3); add(out.size()); add(inpos); add(textHash);
        return h;
    }
    bool inText() const { return pc < text.size(); }

    // Executes one instruction.  On Fault nothing is changed.
    Ev step() {
        Machine* self = this;
        writes.clear(); lastCall = lastRet = false; ++steps;
        try { return self->exec(); } catch (FaultEx&) { writes.clear(); return Ev::Fault; }
    }
private:
    void setReg(const Opd& d, int64_t v) { reg(d.reg) = v; }
    Ev exec() {
        if (!inText()) { ++pc; return Ev::Ok; }   // past the end: NOP
        const Ins& i = text[pc]; const std::string& op = i.op; const auto& o = i.o;
        uint64_t next = pc + 1;
        auto push = [&](int64_t v) { uint64_t a = (uint64_t)sp - 1; store(a, v); sp = (int64_t)a; };
        if (op=="HALT") { pc = next; return Ev::Halt; }
        if (op=="BKPT") { pc = next; return Ev::Bkpt; }
        if (op=="NOP" || op=="BREAK") { pc = next; return Ev::Ok; }
        if (op=="MOV") {
            int64_t v = val(o[1]);
            if (o[0].k==K::Reg) setReg(o[0], v);
            else if (o[0].k==K::FReg) freg(o[0].reg) = bits2d(v);
            else store(addr(o[0]), v);
        } else if (op=="LEA") { uint64_t a = addr(o[1]); setReg(o[0], (int64_t)a); }
        else if (op=="INC"||op=="DEC") { auto [v,g] = alu(op=="INC"?"ADD":"SUB", rd(o[0].reg), 1); setReg(o[0], v); fl = g; }
        else if (op=="NEG") { int64_t v = (int64_t)(0-(uint64_t)rd(o[0].reg)); setReg(o[0], v); fl = nz(v); }
        else if (op=="NOT") { int64_t v = ~rd(o[0].reg); setReg(o[0], v); fl = nz(v); }
        else if (op=="CMP") { fl = alu("SUB", rd(o[0].reg), val(o[1])).second; }
        else if (op=="FCMP") { fl = fnz(freg(o[0].reg) - fval(o[1])); }
        else if (op=="FADD") { double v = freg(o[0].reg) + fval(o[1]); freg(o[0].reg) = v; fl = fnz(v); }
        else if (op=="FSUB") { double v = freg(o[0].reg) - fval(o[1]); freg(o[0].reg) = v; fl = fnz(v); }
        else if (op=="FMUL") { double v = freg(o[0].reg) * fval(o[1]); freg(o[0].reg) = v; fl = fnz(v); }
        else if (op=="FDIV") { double v = freg(o[0].reg) / fval(o[1]); freg(o[0].reg) = v; fl = fnz(v); }
        else if (op=="EXT") { double v = (double)rd(o[1].reg); freg(o[0].reg) = v; }
        else if (op=="NRW") { int64_t v = (int64_t)freg(o[1].reg); setReg(o[0], v); }
        else if (op=="JMP") { next = (uint64_t)val(o[0]); }
        else if (op=="LOOP") { uint64_t t = (uint64_t)val(o[1]); auto [v,g] = alu("SUB", rd(o[0].reg), 1); setReg(o[0], v); fl = g; if (v) next = t; }
        else if (op=="CALL") { uint64_t t = (uint64_t)val(o[0]); push((int64_t)next); next = t; lastCall = true; }
        else if (op=="RET") { int64_t t = load((uint64_t)sp); sp = (int64_t)((uint64_t)sp+1); next = (uint64_t)t; lastRet = true; }
        else if (op=="PUSH") { push(val(o[0])); }
        else if (op=="FPUSH") { push(d2bits(fval(o[0]))); }
        else if (op=="POP") { int64_t v = load((uint64_t)sp); reg(o[0].reg); sp = (int64_t)((uint64_t)sp+1); setReg(o[0], v); }
        else if (op=="FPOP") { int64_t v = load((uint64_t)sp); freg(o[0].reg) = bits2d(v); sp = (int64_t)((uint64_t)sp+1); }
        else if (op=="PUTCHAR") { out += (char)rd(o[0].reg); }
        else if (op=="PUTNUM") { out += std::to_string(rd(o[0].reg)) + "\n"; }
        else if (op=="GETCHAR") { reg(o[0].reg); while (inpos < in.size() && isspace((unsigned char)in[inpos])) ++inpos; if (inpos < in.size()) setReg(o[0], (signed char)in[inpos++]); else setReg(o[0], 0); }
        else if (op[0]=='J') {
            // destination operand is evaluated either way
            uint64_t t = (uint64_t)val(o[0]); if (cond(op)) next = t;
        } else {
            auto [v,g] = alu(op, rd(o[0].reg), val(o[1])); setReg(o[0], v); fl = g;
        }
        pc = next;
        return Ev::Ok;
    }
};
} // namespace ref
