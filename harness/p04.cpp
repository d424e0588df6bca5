// P04: the assembler keeps the meaning of accepted text and rejects the rest.
#include "isa.h"
using namespace isa; using runs::Init;
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    vector<string> ops; for (auto& [o, s]: table()) ops.push_back(o);
    auto go = [&](const string& n, uint64_t size, std::function<std::pair<string,vector<string>>(uint64_t)> g) {
        X.sweep(n, size, [&](uint64_t i) { auto [op, t] = g(i); auto s = spaced(op, t); auto v = verdict(op, t); X.visit(std::hash<string>{}(s)); auto d = judge(X, v, s, s, op); if (!d.empty()) X.report(d); },
            [&](uint64_t i) { auto [op, t] = g(i); return spaced(op, t); });
    };
    vector<string> al = {"R1", "F1", "5", "-", "1.5", "[", "]", "+", "*", ","};
    // 1. every token string up to a length, for every mnemonic
    for (unsigned len = 0; len <= (A ? (T ? 4u : 3u) : (T ? 6u : 5u)); ++len) {
        uint64_t n = ex::ipow(al.size(), len);
        go("tokens" + std::to_string(len), n * ops.size(), [&, n, len](uint64_t i) { uint64_t r = i % n; vector<string> t; for (unsigned k = 0; k < len; ++k) { t.push_back(al[r % al.size()]); r /= al.size(); } return std::make_pair(ops[i / n], t); });
    }
    // 2. operands assembled from documented forms, in every combination and order, then every one-token change of them
    struct F { string f; vector<string> t; };
    vector<F> forms = {{"R", {"R1"}}, {"R", {"SP"}}, {"F", {"F0"}}, {"i", {"5"}}, {"i", {"-", "7"}}, {"f", {"1.5"}}, {"f", {"-", "2.25"}}, {"R+i", {"R2", "+", "6"}}, {"R+i", {"BP", "-", "3"}}, {"R+i", {"R1", "+", "-", "2"}},
        {"[i]", {"[", "5", "]"}}, {"[R]", {"[", "R2", "]"}}, {"[R+i]", {"[", "R2", "+", "5", "]"}}, {"[R+i]", {"[", "BP", "-", "4", "]"}}, {"[R+i]", {"[", "SP", "+", "-", "1", "]"}}, {"[R*i]", {"[", "R1", "*", "2", "]"}}, {"[R+R]", {"[", "R1", "+", "R2", "]"}},
        {"[R+R*i]", {"[", "R2", "+", "R1", "*", "3", "]"}}, {"[R+i+R]", {"[", "R1", "+", "4", "+", "R2", "]"}}, {"[R+i+R]", {"[", "BP", "-", "4", "+", "R2", "]"}}, {"[R+i+R*i]", {"[", "R2", "+", "6", "+", "R1", "*", "3", "]"}}, {"[R+i+R*i]", {"[", "SP", "-", "2", "+", "R0", "*", "2", "]"}}};
    vector<std::pair<string,vector<string>>> base;
    for (auto& op: ops) { base.push_back({op, {}}); for (auto& a: forms) { base.push_back({op, a.t}); if (op != "MOV" && op != "LEA" && a.f != "R" && a.f != "F") continue; for (auto& b: forms) { auto t = a.t; t.push_back(","); t.insert(t.end(), b.t.begin(), b.t.end()); base.push_back({op, t}); } } }
    go("forms", base.size(), [&](uint64_t i) { return base[i]; });
    vector<string> ins = {"R1", "SP", "F0", "5", "-", "1.5", "[", "]", "+", "*", ",", ";", ".", "(", "\"s\"", "->", ":", "="};
    vector<std::pair<string,vector<string>>> good; for (auto& b: base) if (verdict(b.first, b.second) == V::Accept) good.push_back(b);
    struct Mut { size_t b; int kind, pos, tok; }; vector<Mut> muts; int step = A && !T ? 7 : 1;
    for (size_t b = 0; b < good.size(); b += step) { int n = (int)good[b].second.size();
        for (int p = 0; p < n; ++p) { muts.push_back({b, 0, p, 0}); if (p + 1 < n) muts.push_back({b, 1, p, 0}); muts.push_back({b, 4, p, 0}); for (int k = 0; k < (int)ins.size(); ++k) muts.push_back({b, 2, p, k}); }
        for (int p = 0; p <= n; ++p) for (int k = 0; k < (int)ins.size(); ++k) muts.push_back({b, 3, p, k}); }
    auto mutate = [&](const Mut& m) { auto [op, t] = good[m.b]; switch (m.kind) { case 0: t.erase(t.begin() + m.pos); break; case 1: std::swap(t[m.pos], t[m.pos+1]); break; case 2: t[m.pos] = ins[m.tok]; break; case 3: t.insert(t.begin() + m.pos, ins[m.tok]); break; case 4: t.resize(m.pos); } return std::make_pair(op, t); };
    go("changed-token", muts.size(), [&](uint64_t i) { return mutate(muts[i]); });
    if (T && !A) { // two changes
        vector<size_t> pick; for (size_t i = 0; i < muts.size(); ++i) if (good[muts[i].b].first == "MOV" || good[muts[i].b].first == "LEA" || good[muts[i].b].first == "ADD" || good[muts[i].b].first == "JZ" || good[muts[i].b].first == "FADD") pick.push_back(i);
        uint64_t per = 2 * 14 * ins.size();
        go("changed-two-tokens", pick.size() * per, [&, per](uint64_t i) { auto [op, t] = mutate(muts[pick[i / per]]); uint64_t r = i % per; int k = r % ins.size(); r /= ins.size(); size_t pos = r % 14; bool repl = r / 14; if (pos < t.size()) { if (repl) t[pos] = ins[k]; else t.insert(t.begin() + pos, ins[k]); } return std::make_pair(op, t); });
    }
    // 3. every constant in every constant position; base registers make up for the size of offsets
    {
        vector<string> cs = {"0", "1", "2", "7", "9", "10", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "4294967301", "9007199254740993", "4611686018427387904", "9223372036854775806", "9223372036854775807"};
        vector<string> neg = cs; for (auto& c: cs) if (c != "0") { neg.push_back("- " + c); if (!A) neg.push_back("-" + c); } neg.push_back("-9223372036854775808"); cs = neg;
        struct K { string text, op; runs::Init in; V v; }; vector<K> ks;
        auto val = [](string s) { string t; for (char c: s) if (c != ' ') t += c; return (int64_t)(t[0] == '-' ? 0 - std::stoull(t.substr(1)) : std::stoull(t)); };
        auto put = [&](const string& text, int64_t r1 = 2, int64_t r2 = 5) { Init in = init(0); in.r[1] = r1; in.r[2] = r2; ks.push_back({text, text.substr(0, text.find(' ')), in, V::Accept}); };
        for (auto& c: cs) { int64_t v = val(c); auto away = [&](int64_t t) { return (int64_t)((uint64_t)t - (uint64_t)v); };
            for (string s: {"MOV R0, ", "ADD R0, ", "SUB R0, ", "MUL R0, ", "IMUL R0, ", "AND R0, ", "OR R0, ", "XOR R0, ", "CMP R0, ", "PUSH ", "JMP ", "CALL ", "LOOP R0, ", "JNE ", "JE ", "MOV [3], ", "MOV [R1], ", "MOV [R1 + 2 + R2 * 1], "}) put(s + c);
            if (v) for (string s: {"DIV R0, ", "IDIV R0, "}) put(s + c);
            for (int64_t t: {0, 5, 23}) {
                for (string s: {"MOV R0, [R1 + " + c + "]", "MOV [R1 + " + c + "], 77", string("MOV F0, [3]"), "ADD R0, [R1 + " + c + "]", "CMP R0, [R1 + " + c + "]", "JNE [R1 + " + c + "]", "LEA R0, [R1 + " + c + "]", "XOR R0, R1 + " + c, "SUB R0, R1 + " + c}) put(s, away(t));
                for (string s: {"MOV R0, [R1 + " + c + " + R2]", "MOV [R1 + " + c + " + R2], R3", "LEA R0, [R1 + " + c + " + R2]", "MOV R0, [R1 + " + c + " + R2 * 1]", "LEA R3, [R1 + " + c + " + R2 * 2]"}) put(s, away(t) - 3, 3);
                for (string s: {"MOV R0, [R1 + R2 * " + c + "]", "MOV [R1 + R2 * " + c + "], 9", "LEA R0, [R1 + R2 * " + c + "]"}) put(s, away(t), 1);
                put("MOV R0, [R1 + 2 + R2 * " + c + "]", away(t) - 2, 1); put("LEA R0, [R1 + 2 + R2 * " + c + "]", away(t), 3);
                if (c[0] != '-') for (string s: {"MOV R0, [R1 - " + c + "]", "LEA R0, [R1 - " + c + "]", "ADD R0, R1 - " + c, "ADD R0, [R1 - " + c + "]"}) put(s, (int64_t)((uint64_t)t + (uint64_t)v));
            }
            put("MOV R0, [R1 * " + c + "]", v == 0 ? 9 : 1); put("MOV [R1 * " + c + "], 4", 0); if (v == 2) put("MOV R0, [R1 * " + c + "]", 7); if (v == -1) put("MOV R0, [R1 * " + c + "]", -7);
            if (v >= 0 && v < 30) { put("MOV R0, [" + c + "]"); put("MOV [" + c + "], 5"); put("ADD R0, [" + c + "]"); put("MOV F0, [" + c + "]"); put("CMP R0, [" + c + "]"); put("LSH R0, " + c); put("RSH R0, " + c); }
            put(c[0] == '-' ? "MOV R0, [R1 + R2]" : c + " MOV R0, R1");   // address before the instruction
        }
        for (string c: {"18446744073709551616", "99999999999999999999", "-18446744073709551616", "340282366920938463463374607431768211456"}) for (string s: {"MOV R0, ", "ADD R0, R1 + ", "PUSH ", "JMP ", "CALL "}) ks.push_back({s + c, s.substr(0, s.find(' ')), init(0), V::Reject});
        vector<string> fs = {"0.0", "1.0", "0.5", "0.1", "3.14159265358979", "123456789.0", "0.000001", "1000000000000000000000.0", "0.30000000000000004", "9007199254740993.0", "2.5", "00.25", "179769313486231570000000000000000000000.0"};
        size_t nf = fs.size(); for (size_t k = 0; k < nf; ++k) { fs.push_back("-" + fs[k]); fs.push_back("- " + fs[k]); }
        for (auto& f: fs) for (string s: {"MOV F0, ", "FADD F0, ", "FSUB F1, ", "FMUL F0, ", "FDIV F1, ", "FCMP F0, ", "FPUSH "}) put(s + f);
        for (string f: {"1.2.3", "1..2", "1.5.", ".5"}) for (string s: {"MOV F0, ", "FADD F0, ", "FPUSH "}) ks.push_back({s + f, s.substr(0, s.find(' ')), init(0), V::Reject});
        X.sweep("constants", ks.size(), [&](uint64_t i) { auto& k = ks[i]; string plain = k.text; if (isdigit((unsigned char)plain[0])) plain = plain.substr(plain.find(' ') + 1); auto d = judge(X, k.v, k.text, plain, plain.substr(0, plain.find(' ')), {k.in}); X.visit(std::hash<string>{}(k.text)); if (!d.empty()) X.report(d); }, [&](uint64_t i) { return ks[i].text; });
    }
    // 4. layout: what stands between two tokens does not matter
    {
        vector<string> gaps = {"", " ", "\t", "\n", "\r\n", "   ", " # MOV R0, 9\n", "#\n", "\v", " #[ + 5\r\n\t"};
        struct L { size_t b; int gap, pos; }; vector<L> ls; step = A ? 9 : 1;
        for (size_t b = 0; b < good.size(); b += step) for (int g = 0; g < (int)gaps.size(); ++g) for (int p = -1; p <= (int)good[b].second.size(); ++p) ls.push_back({b, g, p});
        auto text = [&](const L& l) { auto& [op, t] = good[l.b]; string s = op; for (size_t k = 0; k <= t.size(); ++k) { string g = l.pos == -1 || l.pos == (int)k ? gaps[l.gap] : " "; char a = s.back(), z = k < t.size() ? t[k][0] : ' '; bool wordy = (isalnum((unsigned char)a) && (isalnum((unsigned char)z))); if (g.empty() && wordy) g = " "; s += g; if (k < t.size()) s += t[k]; } return s; };
        X.sweep("layout", ls.size(), [&](uint64_t i) { auto& l = ls[i]; auto& [op, t] = good[l.b]; auto d = judge(X, V::Accept, text(l), spaced(op, t), op, {init(0)}); X.visit(std::hash<string>{}(text(l))); if (!d.empty()) X.report(d); }, [&](uint64_t i) { return text(ls[i]); });
    }
    // 5. names: every register name and near-misses of mnemonics
    {
        struct N { string text; V v; }; vector<N> ns; 
        for (string r: {"R0", "R1", "R2", "R3", "SP", "BP", "IP"}) { ns.push_back({"MOV R0, " + r, V::Accept}); ns.push_back({"PUSH " + r, V::Accept}); ns.push_back({"MOV R0, [" + r + "]", V::Accept}); ns.push_back({"LEA R0, [" + r + " + 3]", V::Accept}); ns.push_back({"ADD R0, " + r + " + 3", V::Accept}); ns.push_back({"MOV R2, [R1 + " + r + "]", V::Accept}); if (r != "IP") { ns.push_back({"MOV " + r + ", 5", V::Accept}); ns.push_back({"POP " + r, V::Accept}); ns.push_back({"INC " + r, V::Accept}); } }
        for (string r: {"R4", "R9", "R100", "R99999"}) { ns.push_back({"MOV R0, " + r, V::Accept}); ns.push_back({"MOV " + r + ", 5", V::Accept}); }
        for (string f: {"F0", "F1", "F2", "F77"}) { ns.push_back({"FADD F0, " + f, V::Accept}); ns.push_back({"FPOP " + f, V::Accept}); }
        for (string r: {"S", "B", "I", "SPP", "BPX", "SP1", "X1", "r1", "sp", "bp", "ip", "_R1", "_", "A0", "Q", "PC", "R18446744073709551616", "R1x", "R1_", "R0x1", "R2R", "IP0", "0R", "0x1"}) for (string s: {"PUSH ", "INC ", "MOV R0, ", "MOV R0, [", "POP "}) ns.push_back({s + r + (s.back() == '[' ? "]" : ""), V::Reject});
        for (string r: {"F1x", "F1_", "f0", "F18446744073709551616", "R1"}) for (string s: {"FPUSH ", "FADD F0, ", "FPOP "}) ns.push_back({s + r, V::Reject});
        for (string r: {"F1"}) for (string s: {"PUSH ", "ADD R0, ", "ADD R0, [", "INC ", "LEA R0, [R1 + "}) ns.push_back({s + r + (s.find('[') != s.npos ? "]" : ""), V::Reject});
        for (string op: ops) { auto& s = table().at(op); string o; if (s.n) { auto pick = [](const Forms& f) { return f.count("R") ? string(" R1") : f.count("F") ? string(" F1") : string(" [5]"); }; o = pick(s.alt[0].first); if (s.n == 2) o += "," + (s.alt[0].second.count("R") ? string(" R2") : s.alt[0].second.count("F") ? string(" F0") : string(" [R2 + 1]")); }
            string low = op; for (auto& c: low) c = tolower(c);
            for (auto m: {low, op + "X", op + "_", "_" + op, op + "0", op.substr(0, op.size()-1), op.substr(1), string(1, op[0]) + low.substr(1)}) if (!table().count(m)) ns.push_back({m + o, V::Reject});
            ns.push_back({op + o, V::Accept}); ns.push_back({op + o + " " + "R1", V::Reject}); ns.push_back({op + o + ", R1", V::Reject}); ns.push_back({op + o + " -", V::Reject}); ns.push_back({op + o + " 3", V::Reject}); ns.push_back({"- 3 " + op + o, V::Reject}); ns.push_back({"1.5 " + op + o, V::Reject}); ns.push_back({"3 4 " + op + o, V::Reject}); ns.push_back({"3: " + op + o, V::Reject}); ns.push_back({op + o + ";", V::Reject}); }
        for (string s: {"DBG", "DBG R0", "XCHG R0, R1", "R0", "5", "TEST R0, R1"}) ns.push_back({s, V::Reject});
        // names that the assembler is known to misread (known_findings.txt)
        for (string s: {"POP RBP", "PUSH R", "FPOP F"}) ns.push_back({s, V::Reject});
        X.sweep("names", ns.size(), [&](uint64_t i) { auto& n = ns[i]; string op = n.text.substr(0, n.text.find(' ')); auto d = judge(X, n.v, n.text, n.text, n.v == V::Reject ? "X" : op); X.visit(std::hash<string>{}(n.text)); if (!d.empty()) X.report(d); }, [&](uint64_t i) { return ns[i].text; });
    }
    // 6. every byte value at every gap and inside every token of some lines: refused or harmless
    {
        vector<string> lines = {"MOV R1, [R2 + 5 + R0 * 2]", "ADD R1, -17", "FADD F0, 1.25", "CALL 12", "HALT"};
        struct B { int l, pos, byte; bool repl; }; vector<B> bs; for (int l = 0; l < (int)lines.size(); ++l) for (int p = 0; p <= (int)lines[l].size(); ++p) for (int b = 0; b < 256; ++b) for (bool r: {false, true}) if (!r || p < (int)lines[l].size()) bs.push_back({l, p, b, r});
        auto text = [&](const B& b) { string s = lines[b.l]; if (b.repl) s[b.pos] = (char)b.byte; else s.insert(s.begin() + b.pos, (char)b.byte); return s; };
        X.sweep("bytes", A && !T ? bs.size() : bs.size(), [&](uint64_t i) { auto& b = bs[i]; string s = text(b); 
            // bytes outside the language must be refused wherever they stand, except after a comment sign
            static const string ok = " \t\n\r\v\f#.,;:+-*[](){}!=%<>/`$\"&|^_";
            V v = V::Either; if (!isalnum(b.byte) && ok.find((char)b.byte) == ok.npos) v = V::Reject; if (b.byte == 0) v = V::Reject;
            string after = s + "\n"; bool acc = true; 
            try { auto p = vm::assemble(".text\n" + after + "MOV [R1 + 77], R2\nHALT\n").moveInstructions(); size_t n = p.size(); if (b.byte != '.' && (n < 2 + (b.byte != '#') || p[n-1]->toString() != "HALT" || p[n-2]->toString().rfind("MOV", 0))) { X.report("accepted, but the rest of the program is lost"); return; } }
            catch (const ParserError&) { acc = false; } catch (const std::exception& e) { X.report(string("the assembler fails with ") + e.what()); return; }
            X.visit(std::hash<string>{}(s)); if (v == V::Reject && acc) X.report("accepted"); },
            [&](uint64_t i) { string s = text(bs[i]), r; for (unsigned char c: s) if (c < 32 || c > 126) { char t[8]; snprintf(t, 8, "\\x%02x", c); r += t; } else r += c; return r; });
    }
    return X.finish("every token string up to the stated length after every mnemonic; every combination of documented operand forms and every one-token deletion, swap, truncation, replacement and insertion of the accepted ones; every boundary constant in every constant position; every layout of every gap; register names, near-miss mnemonics; every byte at every position; each text is accepted or refused as documented and, when accepted, executed on the machine in two states and compared with the reference including flags",
        {"R - -i, [R - i + R] and LEA [R * i] may be accepted or refused, but when accepted must mean what they say", "MOV R, R + i is documented but refused by the assembler; both are allowed", "constants between 2^63 and 2^64 are not judged"});
}
