// P02: every instruction computes its documented result and flags.
#include "runs.h"
#include <limits>
using runs::Case; using runs::Init; using std::string; using std::vector;
static vector<string> cc = {"JZ","JNZ","JE","JNE","JG","JGE","JL","JLE","JA","JAE","JB","JBE","JO","JNO","JS","JNS"};
// After the instructions in p: one bit of R3 per conditional jump that was not taken.
static vector<string> withFlags(vector<string> p) {
    int n = (int)p.size();
    for (size_t k = 0; k < cc.size(); ++k) { p.push_back(cc[k] + " " + std::to_string(n + 2*(int)k + 2)); p.push_back("LEA R3, [R3 + " + std::to_string(1 << (k+4)) + "]"); }
    p.push_back("HALT"); return p;
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    const int64_t MIN = INT64_MIN, MAX = INT64_MAX;
    vector<int64_t> small = {0, 1, -1, 2, 3, -7, 10, 63, MIN, MAX, 1LL<<32, -(1LL<<31)};
    vector<int64_t> vals = small;
    for (int k = 1; k < 63; k += (T ? 1 : A ? 20 : 2)) for (int d = -1; d <= 1; ++d) { vals.push_back((1LL<<k) + d); vals.push_back(-(1LL<<k) + d); }
    vals.push_back(MIN+1); vals.push_back(MAX-1); vals.push_back(0x5555555555555555LL); vals.push_back(0xb504f333LL); vals.push_back((int64_t)0xAAAAAAAAAAAAAAAAull);
    std::sort(vals.begin(), vals.end()); vals.erase(std::unique(vals.begin(), vals.end()), vals.end());
    vm::Cfg cfg; cfg.alu = 4; vm::Cfg one;
    auto go = [&](const string& n, uint64_t size, std::function<Case(uint64_t)> g) {
        X.sweep(n, size, [&](uint64_t i) { auto d = runs::compare(X, g(i)); if (!d.empty()) X.report(d); }, [&](uint64_t i) { return runs::show(g(i)); });
    };
    auto list = [&](const string& n, const vector<Case>& v) { go(n, v.size(), [&](uint64_t i) { return v[i]; }); };
    auto mk = [&](vector<string> p, Init in, vm::Cfg c) { Case k; k.prog = p; k.init = in; k.cfg = c; k.limit = 200; return k; };
    vector<string> bin = {"ADD","SUB","MUL","IMUL","DIV","IDIV","AND","OR","XOR","CMP"};
    go("values", bin.size()*vals.size()*vals.size(), [&](uint64_t i) {
        ex::Digits d(i); auto op = bin[d.take(bin.size())]; int64_t x = vals[d.take(vals.size())], y = vals[d.take(vals.size())];
        return mk(withFlags({op + " R0, R1"}), {{x, y, 0, 0}}, cfg); });
    go("shifts", 2*vals.size()*64, [&](uint64_t i) {
        ex::Digits d(i); string op = d.take(2) ? "LSH" : "RSH"; int64_t y = d.take(64), x = vals[d.take(vals.size())];
        return mk(withFlags({op + " R0, R1"}), {{x, y, 0, 0}}, cfg); });
    vector<string> un = {"INC","DEC","NEG","NOT"};
    go("unary", un.size()*vals.size()*2, [&](uint64_t i) {
        ex::Digits d(i); auto op = un[d.take(4)]; bool r = d.take(2); int64_t x = vals[d.take(vals.size())];
        return mk(withFlags({op + (r ? " R2" : " R0")}), {{x, 1, x, 0}}, cfg); });
    go("loop", vals.size()*2, [&](uint64_t i) {
        ex::Digits d(i); bool r = d.take(2); int64_t x = vals[d.take(vals.size())];
        return mk({"CMP R3, 1", r ? "LOOP R0, R1" : "LOOP R0, 3", "HALT", "ADD R2, 1", "HALT"}, {{x, 3, 0, 0}}, cfg); });
    { // every ALU instruction x every second-operand form x register aliasing
        vector<Case> v; vector<string> al = bin; al.push_back("LSH"); al.push_back("RSH");
        vector<string> forms = {"R0","R1","R2","BP","SP","5","0","-3","[3]","[0]","[R1]","[R2]","[BP]","[R1 + 1]","[R2 - 1]","[R2 + -1]","[SP - 2]","[R0]","R1 + 4","R2 - 3","R0 + 1","BP + 7","SP - 20"};
        vector<string> dst = {"R0","R1","R2","BP","SP"};
        for (auto& op: al) for (auto& f: forms) for (auto& t: dst) for (int s = 0; s < (A ? 1 : 3); ++s) {
            bool off = f.find(' ') != string::npos && f[0] != '['; if (op == "CMP" && (off || f[0]=='-')) { if (off) continue; }
            Init in{{3, 2, 5, 0}, {}, {7, 1, 2, 12, 4, 6, 9}}; if (s == 1) in.r = {2, 4, 1, 0}; if (s == 2) in.r = {6, 0, 3, 0}; in.bp = 6; in.sp = 20;
            Case c = mk(withFlags({op + " " + t + ", " + f}), in, cfg);
            if (op == "LSH" || op == "RSH") { auto m = runs::makeRef(c); int64_t y; try { y = m.val(m.text[0].o[1]); } catch (...) { y = 0; } if (y < 0 || y > 63) continue; }
            v.push_back(c);
        }
        list("alu-forms", v);
    }
    { // MOV and LEA: every form, registers equal and distinct, negative offsets and scales
        vector<Case> v;
        vector<string> memf; for (string a: {"R0","R1","R2","BP"}) { memf.push_back("[" + a + "]"); for (string o: {" + 2"," - 1"," + 0"}) memf.push_back("[" + a + o + "]"); for (string k: {" * 2"," * 0"," * 1"," * 3"}) memf.push_back("[" + a + k + "]");
            for (string b: {"R0","R1","R2","SP"}) { memf.push_back("[" + a + " + " + b + "]"); for (string k: {" * 2"," * 0"," * 1"," * 4"}) { memf.push_back("[" + a + " + " + b + k + "]"); memf.push_back("[" + a + " + 3 + " + b + k + "]"); memf.push_back("[" + a + " - 2 + " + b + k + "]"); } memf.push_back("[" + a + " + 4 + " + b + "]"); memf.push_back("[" + a + " - 1 + " + b + "]"); } }
        for (int k = 0; k < 24; k += 5) memf.push_back("[" + std::to_string(k) + "]");
        vector<Init> ins; Init a{{3, 2, 5, 1}, {1.5, -0.0}, {11,12,13,14,15,16,17,18,19,20,21,22}}; a.bp = 4; a.sp = 1; Init b = a; b.r = {0, 6, -2, 9}; b.bp = 10; b.sp = 3; ins = {a, b};
        for (auto& in: ins) for (auto& m: memf) {
            for (string t: {"R0","R1","R2","R3","BP"}) v.push_back(mk({"MOV " + t + ", " + m, "HALT"}, in, cfg));
            for (string s: {"R0","R1","R3","SP","F0","F1","77","-4","0"}) v.push_back(mk({"MOV " + m + ", " + s, "HALT"}, in, cfg));
            if (m.find('+') != string::npos || m.find('-') != string::npos) for (string t: {"R0","R1","R2","SP"}) v.push_back(mk({"LEA " + t + ", " + m, "HALT"}, in, cfg));
            if (m.find(' ') == string::npos) for (string t: {"F0","F1"}) v.push_back(mk({"MOV " + t + ", " + m, "HALT"}, in, cfg));
        }
        for (auto& in: ins) for (string t: {"R0","R3","SP","BP","F0","F1"}) for (string s: {"R0","R2","SP","BP","F0","F1","5","-9","0","2.5","0.125","100.0"}) { bool f = s.find('.') != string::npos; if (f && t[0] != 'F') continue; if (!f && isdigit(s.back()) && s[0] != 'R' && s[0] != 'F' && t[0] == 'F') continue; v.push_back(mk({"MOV " + t + ", " + s, "HALT"}, in, cfg)); }
        list("moves", v);
    }
    { // every conditional jump x every target form x every flag combination an instruction can set
        vector<Case> v; vector<std::pair<int64_t,int64_t>> cmp = {{1,1},{1,2},{2,1},{-1,1},{1,-1},{MIN,1},{MAX,-1},{0,MIN}};
        for (auto& j: cc) for (auto [x,y]: cmp) for (string t: {"5","R2","[R2]","[5]","[R2 + 1]","[R2 - 1]"})
            v.push_back(mk({"CMP R0, R1", "MOV R3, 1", j + " " + t, "ADD R3, 8", "HALT", "ADD R3, 64", "HALT", "ADD R3, 128", "HALT"}, {{x, y, 5, 0}, {}, {0,0,0,0,7,5,3,5}}, cfg));
        for (string t: {"3","R2"}) { v.push_back(mk({"JMP " + t, "ADD R3, 1", "HALT", "ADD R3, 2", "HALT"}, {{0,0,3,0}}, cfg)); v.push_back(mk({"CALL " + t, "ADD R3, 1", "HALT", "ADD R3, 2", "RET"}, {{0,0,3,0}}, cfg)); }
        // a jump straight after each flag setter
        for (auto& j: cc) for (string s: {"FCMP F0, F1","FADD F0, F1","NEG R0","NOT R1","AND R0, R1","LSH R0, 3","DEC R1","IMUL R0, R1","LOOP R0, 1","MOV R0, 0","POP R0","EXT F0, R0"}) for (auto [x,y]: cmp)
            v.push_back(mk({s, j + " 4", "ADD R3, 8", "HALT", "ADD R3, 16", "HALT"}, {{x, y, 2, 0}, {1.5, -1.5}, {}, "", 20}, cfg));
        list("jumps", v);
    }
    { // stack instructions with every register, adjacent and nested
        vector<Case> v; vector<string> st = {"PUSH R0","PUSH R1","PUSH SP","PUSH BP","PUSH 7","PUSH -2","POP R0","POP R2","POP SP","POP BP","FPUSH F0","FPUSH 2.5","FPOP F1","CALL 3","RET","ADD SP, 2","MOV R1, SP","MOV [SP], R0"};
        for (auto& a: st) for (auto& b: st) for (auto& c: st) for (int64_t sp: {24, 20, 4}) { if (A && sp != 20) continue; Init in{{3, 2, 5, 1}, {1.5, -0.0}, {5,3,4,3,8,3}}; in.sp = sp; in.bp = 5; v.push_back(mk({a, b, c, "ADD R3, 1", "HALT"}, in, cfg)); }
        list("stack", v);
    }
    { // floating point
        double inf = INFINITY; vector<double> fv = {0.0, -0.0, 1.0, -1.0, 0.5, 3.3, -7.25, 1e308, -1e308, 5e-324, 9007199254740993.0, 1e-310};
        vector<Case> v; vector<string> fo = {"FADD","FSUB","FMUL","FDIV","FCMP"};
        auto bits = [](double d) { return ref::d2bits(d); };
        vector<int64_t> raw; for (auto d: fv) raw.push_back(bits(d)); raw.push_back(bits(inf)); raw.push_back(bits(-inf)); raw.push_back(bits(NAN));
        // operands come in as bit patterns through memory, results leave the same way
        for (auto& op: fo) for (auto x: raw) for (auto y: raw) { Init in{{x, y, 0, 0}}; v.push_back(mk(withFlags({"MOV F0, R0", "MOV F1, R1", op + " F0, F1"}), in, cfg)); if (x == y) v.push_back(mk(withFlags({"MOV F1, R0", op + " F1, F1", "MOV [5], F1"}), in, cfg)); }
        for (auto& op: fo) for (auto x: raw) for (string f: {"1.5","0.1","0.0","123456789.125","3.14159265358979"}) v.push_back(mk(withFlags({"MOV F1, R0", op + " F1, " + f}), {{x, 0, 0, 0}}, cfg));
        for (auto x: vals) v.push_back(mk({"EXT F0, R0", "EXT F1, R1", "MOV [3], F0", "HALT"}, {{x, 3, 0, 0}}, cfg));
        for (double d: {0.0, -0.0, 0.9, -0.9, 1.5, -1.5, 2147483648.0, -4294967297.5, 9007199254740993.0, 9.2e18, -9.2e18}) v.push_back(mk(withFlags({"CMP R1, 0", "MOV F1, R0", "NRW R2, F1", "NRW SP, F1"}), {{bits(d), 0, 0, 0}}, cfg));
        list("float", v);
    }
    { // input and output
        vector<Case> v;
        for (auto x: vals) { v.push_back(mk({"PUTNUM R0", "PUTNUM R1", "PUTNUM SP", "HALT"}, {{x, -x, 0, 0}}, one)); }
        for (int c = 0; c < 256; ++c) v.push_back(mk({"PUTCHAR R0", "PUTCHAR R1", "HALT"}, {{c, c + 256, 0, 0}}, one));
        vector<string> inputs = {"", "a", "ab", "abc", " a", "a b", "\n\nx\n", "1", "\xff""b"};
        for (auto& s: inputs) for (string a: {"R0","R2","BP"}) for (string b: {"R0","R1"}) v.push_back(mk({"GETCHAR " + a, "GETCHAR " + b, "PUTNUM " + a, "GETCHAR R3", "PUTCHAR " + b, "HALT"}, {{5, 6, 7, 8}, {}, {}, s}, one));
        for (string s: {"NOP","BREAK","HALT"}) v.push_back(mk({s, "ADD R0, 1", "HALT"}, {{5, 6, 7, 8}}, one));
        list("io", v);
    }
    { // constants of every size in every instruction that takes one
        vector<Case> v; for (int64_t k: {0LL, 1LL, -1LL, 2147483647LL, -2147483647LL, -2147483648LL, 2147483648LL, 4294967295LL, 4294967296LL, -4294967297LL, 9223372036854775807LL, -9223372036854775807LL}) {
            string s = std::to_string(k), n = k < 0 ? " - " + s.substr(1) : " + " + s;
            for (auto& op: bin) v.push_back(mk(withFlags({op + " R0, " + s}), {{12345, 1, 0, 0}}, cfg));
            for (string p: {"MOV R0, " + s, "MOV [3], " + s, "PUSH " + s, "LEA R0, [R1" + n + "]", "LEA R0, [R1" + n + " + R2]", "LEA R0, [R1 + R2 * " + s + "]", "ADD R0, R1" + n, "JMP " + s, "JNE " + s})
                if (p.rfind("J", 0)) v.push_back(mk({p, "HALT"}, {{5, 7, 3, 1}}, cfg));
        }
        list("constants", v);
    }
    return X.finish("every instruction x operand form x listed value (pairs), each run on the real VM followed by all sixteen conditional jumps, compared with the reference; non-trivial = executes more than two instructions",
        {"64-bit operands are represented by boundary values (0, +-1, +-2^k, +-2^k+-1, extremes), not all 2^128 pairs", "shift counts outside 0..63 and narrowing of values outside the integer range are undefined by the documentation and not judged"});
}
