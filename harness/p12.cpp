// P12: the debug protocol answers every request once and in order.
#include "dbg.h"
using std::string; using std::vector; using runs::Case; using runs::Init;
namespace {
// Protocol model: the sequential machine, code as text, debug registers.
struct Proto {
    ref::Machine m; vector<string> text; uint64_t d[5] = {0,0,0,0,0}; string reason = "START"; bool last = false, gone = false, tooLong = false;
    vector<string> sent{"STOPPED"};   // "?" stands for any refusal
    explicit Proto(const Case& c): m(runs::makeRef(c)), text(c.prog) {}
    static bool num(const string& s, int64_t& v) { if (s.empty()) return false; char* e; errno = 0; v = strtoll(s.c_str(), &e, 10); return !*e && !errno && !isspace((unsigned char)s[0]) && s[0] != '+'; }
    static bool idx(const string& s, int64_t& v) { return num(s, v) && v >= 0; }
    void run(bool one) {
        for (int n = 0;; ++n) {
            if (n > 300) { tooLong = true; return; }
            auto e = m.step();
            if (e == ref::Ev::Halt) { reason = "HALT"; last = true; break; }
            if (e == ref::Ev::Fault) { reason = "CPU_ERROR"; last = true; break; }
            if (e == ref::Ev::Bkpt) { reason = "SW_BKPT"; break; }
            bool hit = false; for (auto w: m.writes) for (int i = 0; i < 4; ++i) if ((d[4] >> i & 1) && d[i] == w) { d[4] = (d[4] & ~0xff00ull) | (1ull << i) << 8; hit = true; }
            if (hit) { reason = "HW_BKPT"; break; }
            if (one) { reason = "SINGLESTEP"; break; }
        }
        sent.push_back("STOPPED");
    }
    void request(const string& q) {
        vector<string> a; { std::istringstream is(q); string w; while (std::getline(is, w, ' ')) if (!w.empty()) a.push_back(w); }
        auto refuse = [&] { sent.push_back("?"); }; auto ok = [&] { sent.push_back("OK"); };
        if (a.empty()) return refuse();
        auto reg = [&](const string& s, char c, size_t n, int64_t& i) { return s.size() > 1 && s[0] == c && idx(s.substr(1), i) && (size_t)i < n; };
        const string& c = a[0]; int64_t x, y;
        if (c == "REASON") sent.push_back(reason);
        else if (c == "CONTINUE" || c == "SINGLESTEP") { ok(); if (last) gone = true; else run(c == "SINGLESTEP"); }
        else if (c == "TERMINATE") { ok(); gone = true; }
        else if (c == "PEEKREGS") { string s = "IP:" + (reason == "CPU_ERROR" ? "*" : std::to_string((int64_t)m.pc)) + "\nBP:" + std::to_string(m.bp) + "\nSP:" + std::to_string(m.sp) + "\n"; for (size_t i = 0; i < m.nr; ++i) s += "R" + std::to_string(i) + ":" + std::to_string(m.r[i]) + "\n"; sent.push_back(s); }
        else if (c == "PEEKFLOATREGS") { string s = "floats"; for (size_t i = 0; i < m.nf; ++i) s += " " + std::to_string(ref::d2bits(m.f[i])); sent.push_back(s); }
        else if (c == "PEEKDEBUGREGS") { string s; for (int i = 0; i < 5; ++i) s += "D" + std::to_string(i) + ":" + std::to_string(d[i]) + "\n"; sent.push_back(s); }
        else if (c == "PEEKDATA") { if (a.size() < 3 || !idx(a[1], x) || !idx(a[2], y) || (size_t)(x + y) > m.nm) return refuse(); string s; for (int64_t i = x; i < x + y; ++i) s += std::to_string(m.m[i]) + "\n"; sent.push_back(s); }
        else if (c == "PEEKTEXT") { if (a.size() < 3 || !idx(a[1], x) || !idx(a[2], y) || (size_t)(x + y) > text.size()) return refuse(); string s; for (int64_t i = x; i < x + y; ++i) s += dbg::Session::canon(text[i]) + "\n"; sent.push_back(s); }
        else if (c == "POKEDATA") { if (a.size() < 3 || !idx(a[1], x) || !num(a[2], y) || (size_t)x >= m.nm) return refuse(); m.m[x] = y; ok(); }
        else if (c == "POKEREGS") { if (a.size() < 3 || !num(a[2], y)) return refuse(); if (a[1] == "IP") m.pc = y; else if (a[1] == "SP") m.sp = y; else if (a[1] == "BP") m.bp = y; else if (reg(a[1], 'R', m.nr, x)) m.r[x] = y; else return refuse(); ok(); }
        else if (c == "POKEFLOATREGS") { if (a.size() < 3 || !reg(a[1], 'F', m.nf, x)) return refuse(); char* e; double v = strtod(a[2].c_str(), &e); if (*e) return refuse(); m.f[x] = v; ok(); }
        else if (c == "POKEDEBUGREGS") { if (a.size() < 3 || !reg(a[1], 'D', 5, x) || !idx(a[2], y)) return refuse(); d[x] = y; ok(); }
        else if (c == "POKETEXT") { if (a.size() < 3 || !idx(a[1], x) || (size_t)x >= text.size()) return refuse(); string t; for (size_t i = 2; i < a.size(); ++i) t += (i > 2 ? " " : "") + a[i]; static const std::set<string> good = {"NOP", "BKPT", "MOV R0, 9", "PUTNUM R1", "HALT", "ADD R1, [R2 + 1]", "JMP 0"}; if (!good.count(t)) return refuse(); text[x] = t; m.text[x] = ref::parse(t); ok(); }
        else if (c == "REGCOUNT") sent.push_back("REGCOUNT");
        else if (c == "TEXTSIZE") sent.push_back("TEXTSIZE:" + std::to_string(text.size()));
        else if (c == "DATASIZE") sent.push_back("DATASIZE");
        else refuse();
    }
};
bool matches(const string& want, const string& got, size_t nf) {
    if (want == "?") return got != "OK" && got != "STOPPED" && got.find(':') != 2 && got.find(':') != 1;
    if (want.rfind("floats", 0) == 0) { string s = "floats"; auto l = vm::lines(got); if (l.size() != nf) return false; for (size_t i = 0; i < nf; ++i) { string p = "F" + std::to_string(i) + ":"; if (l[i].rfind(p, 0)) return false; s += " " + std::to_string(ref::d2bits(vm::todouble(l[i].substr(p.size())))); } return s == want; }
    if (want == "REGCOUNT" || want == "DATASIZE") return got.rfind(want + ":", 0) == 0;   // the number has a suite of its own
    if (want.rfind("IP:*", 0) == 0 && got.rfind("IP:", 0) == 0) { auto p = got.find('\n'); return p != got.npos && want.substr(4) == got.substr(p); }
    return want == got;
}
string esc(const string& s) { string r; for (char c: s) r += c == '\n' ? string("\\n") : string(1, c); return r; }
string play(ex::Explorer& X, const Case& c, const vector<string>& qs, bool batch) {
    Proto M(c); vm::Box b(vm::assemble(vm::programText(c.prog, c.init.data)), c.cfg, true, c.init.input);
    size_t seen = 0;
    auto pull = [&](const char* when) -> string {
        // exactly the messages the model has sent, no more
        for (; seen < M.sent.size(); ++seen) { auto g = b.receive(); if (!matches(M.sent[seen], g, c.cfg.nf)) return string(when) + ": message " + std::to_string(seen) + " is '" + esc(g) + "', expected '" + (M.sent[seen] == "?" ? "a refusal" : esc(M.sent[seen])) + "'"; }
        b.tick(); if (!b.escaped.empty()) return b.escaped;
        if (!b.toDbg.empty()) return string(when) + ": surplus message '" + esc(b.toDbg.front()) + "'";
        if (b.ended() != M.gone) return string(when) + (M.gone ? ": the machine goes on" : ": the machine has ended");
        if (b.out.str() != M.m.out) return string(when) + ": printed '" + esc(b.out.str()) + "', expected '" + esc(M.m.out) + "'";
        return "";
    };
    static const vector<string> probe = {"REASON", "PEEKREGS", "PEEKFLOATREGS", "PEEKDATA 0 24", "PEEKDEBUGREGS", "PEEKTEXT 0 ", "TEXTSIZE"};
    auto full = [&](const char* when) -> string { for (auto q: probe) { if (q.back() == ' ') q += std::to_string(M.text.size()); M.request(q); b.send(q); } return pull(when); };
    if (batch) {
        for (auto& q: qs) { if (M.gone) { X.c().skipped++; return ""; } M.request(q); X.visit(M.m.hash() ^ M.sent.size()); if (M.tooLong) { X.c().skipped++; return ""; } }
        for (auto& q: qs) b.send(q);
        if (auto d = pull("batch"); !d.empty()) return d;
    } else {
        if (auto d = pull("start"); !d.empty()) return d;
        for (auto& q: qs) {
            if (M.gone) { X.c().skipped++; return ""; }
            M.request(q); X.visit(M.m.hash() ^ M.d[4] * 31 ^ std::hash<string>()(q)); if (M.tooLong) { X.c().skipped++; return ""; }
            b.send(q); if (auto d = pull(q.c_str()); !d.empty()) return "after '" + q + "': " + d;
        }
    }
    X.c().traces++; X.c().interesting++;
    if (!M.gone) if (auto d = full("probing"); !d.empty()) return d;
    if (!M.gone && !batch) { M.request("CONTINUE"); if (M.tooLong) return ""; b.send("CONTINUE"); if (auto d = pull("CONTINUE at the end"); !d.empty()) return d; if (!M.gone) return full("probing after continue"); }
    return "";
}
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    vm::Cfg cfg; cfg.alu = 4; cfg.nm = 24; Init i0{{3, 2, 5, 1}, {1.5, -2.25}, {4, 3, 2, 1, 7}, ""};
    vector<Case> progs; auto mk = [&](vector<string> p) { Case c; c.prog = p; c.cfg = cfg; c.init.data = i0.data; progs.push_back(c); };
    mk({"MOV [3], R0", "CALL 4", "PUTNUM R1", "HALT", "ADD R1, [3]", "RET"});
    mk({"PUTNUM R0", "BKPT", "MOV [2], 5", "JMP 5", "PUTNUM R3", "MOV R1, [99]", "HALT"});
    mk({"INC R0", "PUSH R0", "CMP R0, 2", "JNE 0", "POP R1", "HALT"});
    vector<string> core = {"REASON", "CONTINUE", "SINGLESTEP", "PEEKREGS", "PEEKDATA 2 2", "PEEKTEXT 0 2", "POKEDATA 3 -7", "POKEREGS R0 5", "POKEREGS IP 2", "POKETEXT 2 BKPT", "POKETEXT 1 NOP",
        "POKEDEBUGREGS D0 3", "POKEDEBUGREGS D4 1", "TERMINATE", "FOO", "PEEKDATA 0 x"};
    vector<string> wide = core; for (auto s: {"PEEKFLOATREGS", "PEEKDEBUGREGS", "PEEKDATA 0 0", "PEEKDATA 23 1", "PEEKDATA 23 2", "PEEKDATA 24 1", "PEEKDATA", "PEEKDATA 0", "PEEKDATA -1 1", "PEEKDATA 0 99999999999999999999",
        "PEEKTEXT", "PEEKTEXT 5 1", "PEEKTEXT 0 99", "PEEKTEXT 9223372036854775807 1", "PEEKTEXT 7 9223372036854775807", "PEEKTEXT x 1", "PEEKTEXT 0 1x", "POKEDATA 0", "POKEDATA 24 1", "POKEDATA 0 x", "POKEDATA 0 9223372036854775808", "POKEDATA 0 1x", "POKEDATA 0 -9223372036854775808", "POKEDATA 4 9223372036854775807",
        "POKEREGS R4 1", "POKEREGS R0", "POKEREGS R0 x", "POKEREGS X0 1", "POKEREGS R 1", "POKEREGS", "POKEREGS R18446744073709551615 1", "POKEREGS SP 4", "POKEREGS BP 7", "POKEREGS R3 -1", "POKEREGS R0 9223372036854775807", "POKEREGS R1 7z", "POKEREGS R1z 7",
        "POKEFLOATREGS F0 0.1", "POKEFLOATREGS F1 -2.5", "POKEFLOATREGS F2 1", "POKEFLOATREGS F0 x", "POKEFLOATREGS F0", "POKEFLOATREGS R0 1", "POKEDEBUGREGS D5 1", "POKEDEBUGREGS D1 x", "POKEDEBUGREGS D1 2", "POKEDEBUGREGS D4 2", "POKEDEBUGREGS D4 3", "POKEDEBUGREGS D4 0", "POKEDEBUGREGS D3", "POKEDEBUGREGS X1 2",
        "POKETEXT", "POKETEXT 0", "POKETEXT 99 NOP", "POKETEXT 0 FOO R1", "POKETEXT 0 MOV R0", "POKETEXT 0 MOV R0, 1 2", "POKETEXT 0 MOV R0, 9", "POKETEXT 3 HALT", "POKETEXT 2 ADD R1, [R2 + 1]", "POKETEXT 0 [", "POKETEXT x NOP", "POKETEXT -1 NOP", "REGCOUNT", "TEXTSIZE", "DATASIZE", "", " ", "continue", "STOPPED", "CONTINUEX", "PEEKDATAX 0 1"}) wide.push_back(s);
    auto suite = [&](string name, const vector<vector<string>>& al, size_t np, bool batch) {
        uint64_t N = 1; for (auto& a: al) N *= a.size();
        auto get = [&](uint64_t i) { auto p = i / N; ex::Digits r(i % N); vector<string> q; for (auto& a: al) q.push_back(a[r.take(a.size())]); return std::make_pair(p, q); };
        X.sweep(name, N * np, [&](uint64_t i) { auto [p, q] = get(i); string d; try { d = play(X, progs[p], q, batch); } catch (const vm::Deadlock& x) { d = x.what(); } catch (const std::exception& x) { d = string("exception: ") + x.what(); } if (!d.empty()) X.report(d); },
            [&](uint64_t i) { auto [p, q] = get(i); return vm::join(progs[p].prog) + " || " + vm::join(q, " | "); });
    };
    { // the sizes reported are those of the machine
        vector<std::pair<string,string>> q = {{"REGCOUNT", "REGCOUNT:4"}, {"DATASIZE", "DATASIZE:24"}, {"TEXTSIZE", "TEXTSIZE:6"}};
        X.sweep("sizes", q.size(), [&](uint64_t i) { vm::Box b(vm::assemble(vm::programText(progs[0].prog)), cfg); b.receive(); auto g = b.ask(q[i].first); if (g != q[i].second) X.report("replied " + g + ", expected " + q[i].second); }, [&](uint64_t i) { return q[i].first + " on a machine with 4 registers, 24 cells and 6 instructions"; });
    }
    auto C = core, W = wide; size_t P = progs.size();
    if (A) {
        suite("core-requests", vector<vector<string>>(T ? 4 : 3, C), P, false);
        suite("all-requests", {W, W}, P, false);
        suite("pipelined", vector<vector<string>>(T ? 3 : 2, C), P, true);
        suite("pipelined-all", {W}, P, true);
    } else {
        suite("core-requests", vector<vector<string>>(T ? 6 : 5, C), T ? P : 1, false);
        suite("core-requests-more", vector<vector<string>>(4, C), P, false);
        suite("all-requests", {W, W, C}, P, false);
        suite("late-requests", {C, C, W, C}, P, false);
        if (T) { suite("three-of-all", {W, W, W}, P, false); suite("late-pairs", {C, C, W, W}, P, false); }
        suite("pipelined", vector<vector<string>>(T ? 5 : 4, C), P, true);
        suite("pipelined-all", vector<vector<string>>(T ? 3 : 2, W), P, true);
    }
    return X.finish("every sequence of requests of the stated length over the request alphabet (well-formed, malformed and out of bounds), waiting for each reply and sent ahead, on three programs that reach every kind of stop; the complete message stream, the output and a full read-out afterwards are compared with the protocol model",
        {"extra words after a well-formed request are not part of the alphabet", "the instruction pointer at a CPU error is not specified", "the text of a refusal is free, it only must not be a confirmation"});
}
