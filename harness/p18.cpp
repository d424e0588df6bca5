// P18: program files: data, text, line table, debug information and source text against a reference reader.
#include "fakeproc.h"
#include "debugger/Source/Parser.h"
#include "vm.h"
#include <bit>
using std::string; using std::vector; using std::optional;
namespace {
struct Bad {};   // the file is malformed
struct Open {};  // the documentation does not say
// ---- reference lexer (lazy, because skipped sections are read with other rules)
struct RL {
    const string& t; size_t i = 0; bool lenient = false; string k, s; uint64_t n = 0;   // kinds: id num flt str sym("the symbol itself") "" = end
    explicit RL(const string& t): t(t) {}
    int at(size_t p) const { return p < t.size() ? (unsigned char)t[p] : -1; }
    void next() {
        while (true) {
            int c = at(i); s.clear();
            if (c < 0) { k = ""; return; }
            if (c == '#') { while (at(i) >= 0 && at(i) != '\n') ++i; continue; }
            if (isspace(c)) { ++i; continue; }
            if (isdigit(c)) { bool fl = false; while (isdigit(at(i)) || at(i) == '.') { if (at(i) == '.') { if (fl) throw Bad(); fl = true; } s += t[i++]; } k = fl ? "flt" : "num"; if (fl) { if (!std::isfinite(strtod(s.c_str(), 0))) throw Bad(); } else { errno = 0; n = strtoull(s.c_str(), 0, 10); if (errno) throw Bad(); } return; }
            if (isalpha(c) || c == '_') { while (isalnum(at(i)) || at(i) == '_') s += t[i++]; k = "id"; return; }
            if (c == '"') { ++i; while (true) { c = at(i++); if (c < 0) throw Bad(); if (c == '"') break; if (c == '\\') { c = at(i++); if (c == 'n') s += '\n'; else if (c == 't') s += '\t'; else if (c == '\\' || c == '"') s += (char)c; else throw Bad(); } else s += (char)c; } k = "str"; return; }
            static const vector<string> two = {"==", "!=", "<=", ">=", "<<", ">>", "&&", "||", "->"}; string w = t.substr(i, 2); if (std::find(two.begin(), two.end(), w) != two.end()) { k = w; i += 2; return; }
            if (string(";,[]{}()!=%+->:/*<`$.&|^").find((char)c) != string::npos) { k = string(1, c); ++i; return; }
            if (!lenient) throw Bad(); ++i;
        }
    }
};
string esc(const string& s) { string r; for (unsigned char c: s) if (c < 32 || c > 126 || c == '\\') { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += (char)c; return r; }
// ---- reference reader of the debugger's part
struct Ref { optional<std::map<size_t, uint64_t>> lines; optional<string> die; optional<vector<string>> src; };
vector<string> splitLines(const string& s) { vector<string> r; string cur; for (char c: s) if (c == '\n') { r.push_back(cur); cur.clear(); } else cur += c; if (!cur.empty()) r.push_back(cur); return r; }
struct RP {
    RL l; Ref r; explicit RP(const string& t): l(t) {}
    void need(const string& k) { if (l.k != k) throw Bad(); }
    string locProg() {
        string r; auto offset = [&] { bool neg = l.k == "-"; if (neg) l.next(); need("num"); uint64_t v = neg ? 0 - l.n : l.n; l.next(); return std::to_string((int64_t)v); };
        auto one = [&] { need("id"); auto id = l.s; l.next(); if (id == "ADD") r += "ADD;"; else if (id == "DEREFERENCE") r += "DEREFERENCE;"; else if (id == "BASE_REG_OFFSET") r += "BASE " + offset() + ";"; else if (id == "PUSH") { if (l.k == "id") { r += "PUSH " + l.s + ";"; l.next(); } else r += "PUSH " + offset() + ";"; } else throw Bad(); };
        if (l.k == "`") { l.next(); if (l.k != "`") one(); need("`"); l.next(); return r; }
        need("["); l.next(); while (l.k != "]") { one(); if (l.k == ";") l.next(); else need("]"); } l.next(); return r;
    }
    string body(const string& tag) {   // from ':' on
        static const vector<string> tags = {"DIE_function", "DIE_primitive_type", "DIE_structured_type", "DIE_pointer_type", "DIE_array_type", "DIE_variable", "DIE_scope", "DIE_compilation_unit"};
        if (std::find(tags.begin(), tags.end(), tag) == tags.end()) throw Bad();
        need(":"); l.next(); need("{"); l.next(); string at, ch;
        while (l.k != "}") { need("id"); auto id = l.s; l.next();
            if (id.rfind("DIE_", 0) == 0) ch += body(id); else { need(":"); l.next(); static const vector<string> nums = {"ATTR_type", "ATTR_id", "ATTR_begin_addr", "ATTR_end_addr", "ATTR_size"};
                if (id == "ATTR_name") { if (l.k != "id") need("str"); at += "name=" + esc(l.s) + " "; l.next(); }
                else if (std::find(nums.begin(), nums.end(), id) != nums.end()) { need("num"); at += id.substr(5) + "=" + std::to_string(l.n) + " "; l.next(); }
                else if (id == "ATTR_members") { need("{"); l.next(); at += "members="; while (l.k != "}") { need("num"); auto o = l.n; l.next(); need(":"); l.next(); need("{"); l.next(); need("num"); auto t = l.n; l.next(); need(":"); l.next(); need("id"); auto n = l.s; l.next(); need("}"); at += std::to_string((int64_t)o) + "/" + std::to_string(t) + "/" + n + ","; l.next(); if (l.k == ",") l.next(); else need("}"); } at += " "; l.next(); }
                else if (id == "ATTR_location") at += "location=" + locProg() + " "; else throw Bad(); }
            if (l.k == ",") l.next(); else need("}"); }
        l.next(); return tag.substr(4) + "(" + at + "){" + ch + "}";
    }
    Ref run() {
        l.next();
        while (l.k != "") { need("."); l.next(); need("id"); auto name = l.s;
            if (name == "debug_source") { if (l.at(l.i) >= 0 && l.at(l.i) != '\n') throw Open(); r.src = splitLines(l.i < l.t.size() ? l.t.substr(l.i + 1) : ""); return r; }
            if (name == "debug_line") { l.next(); std::map<size_t, uint64_t> m; while (l.k != "." && l.k != "") { need("num"); auto a = l.n; l.next(); need(":"); l.next(); need("num"); m[a] = l.n; l.next(); } r.lines = m; }
            else if (name == "debug_info") { l.next(); if (l.k == "." || l.k == "") r.die = "empty"; else { need("id"); auto id = l.s; l.next(); r.die = body(id); } }
            else { auto save = l; bool strictOk = true; try { save.next(); } catch (Bad) { strictOk = false; } l.lenient = true; try { do l.next(); while (l.k != "." && l.k != ""); } catch (Bad) { throw Open(); } l.lenient = false; if (!strictOk) throw Open(); } }
        return r;
    }
};
string show(const Ref& r) { string s = "lines "; if (r.lines) { for (auto& [a, b]: *r.lines) s += std::to_string(a) + ":" + std::to_string(b) + ","; } else s += "none"; s += "\ninfo " + r.die.value_or("none") + "\nsource "; if (r.src) { for (auto& x: *r.src) s += "|" + esc(x); } else s += "none"; return s; }
string show(const DIE& d) {
    static const std::map<DIE::TAG, string> tg = {{DIE::TAG::function, "function"}, {DIE::TAG::scope, "scope"}, {DIE::TAG::variable, "variable"}, {DIE::TAG::primitive_type, "primitive_type"}, {DIE::TAG::structured_type, "structured_type"}, {DIE::TAG::pointer_type, "pointer_type"}, {DIE::TAG::array_type, "array_type"}, {DIE::TAG::compilation_unit, "compilation_unit"}};
    if (d.get_tag() == DIE::TAG::invalid) return "empty";
    string at, ch; for (auto a = d.begin_attr(); a != d.end_attr(); ++a) std::visit(utils::overloaded{
        [&](const ATTR_name& x) { at += "name=" + esc(x.n) + " "; }, [&](const ATTR_begin_addr& x) { at += "begin_addr=" + std::to_string(x.addr) + " "; }, [&](const ATTR_end_addr& x) { at += "end_addr=" + std::to_string(x.addr) + " "; },
        [&](const ATTR_type& x) { at += "type=" + std::to_string(x.type_id) + " "; }, [&](const ATTR_size& x) { at += "size=" + std::to_string(x.size) + " "; }, [&](const ATTR_id& x) { at += "id=" + std::to_string(x.id) + " "; },
        [&](const ATTR_members& x) { at += "members="; for (auto& m: x.m) at += std::to_string(m.offset) + "/" + std::to_string(m.type_id) + "/" + m.name + ","; at += " "; },
        [&](const ATTR_location_expr& x) { at += "location="; for (auto& e: x.locs) std::visit(utils::overloaded{[&](const expr::Push& p) { at += "PUSH "; if (auto* r = std::get_if<expr::Register>(&p.value)) at += r->name; else at += std::to_string(std::get<expr::Offset>(p.value).value); at += ";"; }, [&](const expr::Add&) { at += "ADD;"; }, [&](const expr::FrameBaseRegisterOffset& f) { at += "BASE " + std::to_string(f.offset) + ";"; }, [&](const expr::Dereference&) { at += "DEREFERENCE;"; }}, e); at += " "; } }, *a);
    for (auto& c: d) ch += show(c); return tg.at(d.get_tag()) + "(" + at + "){" + ch + "}";
}
string show(const dbg::DebuggingInfo& i) { Ref r; r.lines = i.line_mapping; if (i.top_die) r.die = show(*i.top_die); if (i.source_code) r.src = i.source_code->GetLines(); return show(r); }
string want(const string& t) { try { RP p(t); return show(p.run()); } catch (Bad) { return "error"; } catch (Open) { return "open"; } }
dbg::DebuggingInfo parseDbg(const string& t) { std::istringstream is(t); dbg::Parser p(is); return p.Parse(); }
// Uses everything the information offers; only refusals are allowed.
void exercise(dbg::DebuggingInfo&& i) {
    Source s; if (i.line_mapping) s.RegisterLineMapping(std::move(*i.line_mapping)); if (i.source_code) s.RegisterSourceFile(std::move(*i.source_code)); if (i.top_die) s.RegisterDebuggingInformation(std::move(*i.top_die));
    FakeState fs; fs.regs = {{"IP", 3}, {"SP", 2}, {"BP", 2}, {"R0", 1}, {"R2", 5}, {"R3", 4}}; fs.mem = {3, 1, 0, 2, 7, 6, 65, 0}; Native n(std::make_unique<FakeProcess>(fs));
    for (uint64_t ip: {0, 3, 8}) { fs.regs["IP"] = ip; s.GetFunctionNameByAddress(ip); s.AddrToLine(ip); s.LineToAddr(ip);
        for (auto& v: s.GetScopedVariables(ip)) for (auto& e: {v, "*" + v, v + "[0]", v + ".v", v + "->v", v + " = " + v, v + " + 1"}) try { auto [val, k] = s.EvaluateExpression(n, e, false); s.TypedValueToString(n, val); s.TypedValueTypeToString(val); } catch (const DebuggerError&) {} }
    s.GetFunctionAddrByName("main"); s.GetLine(1); s.GetLinesRange(0, 3);
}
string parseAll(ex::Explorer& X, const string& t, bool strictOpen = false) {
    auto w = want(t); string g; optional<dbg::DebuggingInfo> i;
    try { i = parseDbg(t); g = show(*i); } catch (const ParserError&) { g = "error"; }
    X.visit(std::hash<string>{}(g) ^ std::hash<string>{}(t));
    if (w == "open" ? strictOpen : g != w) return "the debug sections are read as\n" + g + "\nexpected\n" + w;
    if (i) exercise(std::move(*i));
    try { std::istringstream is(t); Parser p(is); p.Parse(); } catch (const ParserError&) {}
    return "";
}
const string DOC = ".text\n0       CALL    7            # main\n1       HALT\n2       MOV     R0, [R2]\n6       RET\n7       MOV     [SP + -2], 3   # a\n8 FADD F0, 1.5\n.data\n\"AB\\n\" 33\n\n.debug_line\n0: 2\n1: 2\n6: 7\n\n.debug_info\nDIE_compilation_unit: {\nDIE_primitive_type: {\n    ATTR_name: int,\n    ATTR_id: 0,\n    ATTR_size: 1,\n},\nDIE_pointer_type: {\n    ATTR_type: 1, ATTR_size: 1, ATTR_id: 1,\n},\nDIE_structured_type: {\n ATTR_size: 2, ATTR_id: 2, ATTR_name: \"struct list\", ATTR_members: { 0: {0: v}, 1: {1: next}, },\n},\nDIE_function: {\n    ATTR_name: main,\n    ATTR_begin_addr: 2,\n    ATTR_end_addr: 18,\n    DIE_scope: {\n        ATTR_begin_addr: 2,\n        ATTR_end_addr: 18,\n        DIE_variable: {\n            ATTR_name: a,\n            ATTR_type: 0,\n            ATTR_location: [PUSH SP; PUSH -2; ADD],\n        },\n        DIE_variable: {\n            ATTR_name: b,\n            ATTR_type: 2,\n            ATTR_location: `BASE_REG_OFFSET -2`,\n        }\n    }\n}\n}\n\n.debug_source\nvoid swap() {\n    .x \"\n\n}\n";
const string SMALL = ".debug_line 0:2 1:3 .debug_info DIE_compilation_unit:{DIE_variable:{ATTR_name:x,ATTR_location:[PUSH 1;ADD],ATTR_type:1,},DIE_array_type:{ATTR_id:1,ATTR_size:2,ATTR_type:0},DIE_structured_type:{ATTR_members:{0:{1:v}}}}";
vector<string> tokens(const string& t) { vector<string> r; size_t i = 0; while (i < t.size()) { if (t[i] == '#') { size_t e = t.find('\n', i); i = e == t.npos ? t.size() : e; continue; } if (isspace((unsigned char)t[i])) { ++i; continue; } size_t b = i; if (isalnum((unsigned char)t[i]) || t[i] == '_') { while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_')) ++i; } else if (t[i] == '"') { ++i; while (t[i] != '"') i += t[i] == '\\' ? 2 : 1; ++i; } else ++i; r.push_back(t.substr(b, i - b)); } return r; }
string joinTok(const vector<string>& v) { string r; for (size_t k = 0; k < v.size(); ++k) { bool glue = k && (v[k-1] == "." ); r += (k && !glue ? " " : "") + v[k]; if (v[k] == "debug_source") r += "\n"; } return r; }
// ---- machine side
struct Loaded { string err; vector<int64_t> data; size_t text; };
Loaded load(const string& t) { try { std::istringstream is(t); Parser p(is); auto pr = p.Parse(); return {"", pr.data(), pr.instructions().size()}; } catch (const ParserError& e) { return {"error", {}, 0}; } }
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    auto guard = [&](auto f) { string d; try { d = f(); } catch (const std::exception& x) { d = string("exception: ") + x.what(); } X.c().interesting++; X.c().traces++; if (!d.empty()) X.report(d); };
    auto seqGet = [](vector<string> al, unsigned L, const string& pre, const string& sep, const string& post) { vector<uint64_t> off{0}; for (unsigned l = 0; l <= L; ++l) off.push_back(off.back() + ex::ipow(al.size(), l)); return std::make_pair(off.back(), std::function<string(uint64_t)>([=](uint64_t i) { unsigned l = 0; while (off[l + 1] <= i) ++l; ex::Digits d(i - off[l]); string r = pre; for (unsigned k = 0; k < l; ++k) r += (k ? sep : "") + al[d.take(al.size())]; return r + post; })); };
    auto dbgSeq = [&](const string& name, vector<string> al, unsigned L, const string& pre, const string& sep, const string& post) { auto [n, get] = seqGet(al, L, pre, sep, post); auto g = get; X.sweep(name, n, [&, g](uint64_t i) { guard([&] { return parseAll(X, g(i)); }); }, [g](uint64_t i) { return esc(g(i)); }); };
    // what may stand in front and between
    dbgSeq("sections", {".", "text", "data", "debug_line", "debug_info", "debug_source\n", "1", ":", "\"x\"", "@", "#\n", "-", "HALT", "{"}, A ? 3 : (T ? 6 : 5), "", " ", "");
    dbgSeq("lines", {"0", "1", "18446744073709551615", "18446744073709551616", "1.5", ":", "-", ",", ".", "x", "#\n", "debug_line"}, A ? 3 : (T ? 6 : 5), ".debug_line ", " ", "");
    dbgSeq("locations", {"PUSH", "ADD", "DEREFERENCE", "BASE_REG_OFFSET", "R0", "1", "-", ";", "`", "[", "]", ","}, A ? 3 : (T ? 6 : 5), ".debug_info DIE_variable:{ATTR_location: ", " ", "}");
    dbgSeq("bracketed", {"PUSH", "ADD", "DEREFERENCE", "BASE_REG_OFFSET", "R0", "1", "9223372036854775808", "-", ";"}, A ? 4 : (T ? 7 : 6), ".debug_info DIE_variable:{ATTR_location:[", " ", "]}");
    dbgSeq("members", {"0", "1", ":", "{", "}", ",", "v", "-", "\"s\""}, A ? 4 : (T ? 7 : 6), ".debug_info DIE_structured_type:{ATTR_members: ", " ", "}");
    dbgSeq("entries", {"ATTR_name", "ATTR_id", "ATTR_foo", "DIE_scope", "DIE_foo", "foo", ":", "{", "}", ",", "1", "x", "\"s\""}, A ? 3 : (T ? 6 : 5), ".debug_info DIE_function:{", " ", "}");
    dbgSeq("names", {"a", "\\", "\"", "n", "t", "\n", "#", "."}, A ? 4 : (T ? 7 : 6), ".debug_info DIE_function:{ATTR_name:\"", "", "\"}");
    { auto [n, get] = seqGet({"a", "\n", ".", "#", "\"", " ", "\\", "\xff"}, A ? 4 : (T ? 8 : 6), ".debug_source\n", "", ""); auto g = get; X.sweep("source", n, [&, g](uint64_t i) { guard([&] { return parseAll(X, g(i)); }); }, [g](uint64_t i) { return esc(g(i)); }); }
    { // all trees of entries
        vector<string> attrs = {"ATTR_name: x", "ATTR_name: \"struct s\"", "ATTR_type: 0", "ATTR_id: 1", "ATTR_begin_addr: 0", "ATTR_end_addr: 18446744073709551615", "ATTR_size: 2", "ATTR_members: {}", "ATTR_members: {0: {0: v}}", "ATTR_members: {0: {0: v}, 1: {1: w},}", "ATTR_location: ``", "ATTR_location: `PUSH R0`", "ATTR_location: []", "ATTR_location: [PUSH SP; PUSH -2; ADD]"}, tags = {"DIE_function", "DIE_scope", "DIE_variable", "DIE_primitive_type", "DIE_pointer_type", "DIE_array_type", "DIE_structured_type", "DIE_compilation_unit"};
        unsigned size = A ? 2 : (T ? 4 : 3);
        // shapes: bracket words; '(' = an inner entry, 'a' = an attribute
        vector<string> shapes; std::function<void(string, unsigned, unsigned)> gen = [&](string s, unsigned left, unsigned open) { if (!open) shapes.push_back(s); if (open) gen(s + ")", left, open - 1); if (left) { gen(s + "a", left - 1, open); gen(s + "(", left - 1, open + 1); } }; gen("", size, 0);
        // gen emits closed words only when nothing is open; words with open brackets are completed by ')'
        vector<uint64_t> base{0}; for (auto& s: shapes) { uint64_t n = 3 * 2; for (char c: s) n *= c == 'a' ? attrs.size() : c == '(' ? tags.size() : 1; base.push_back(base.back() + n); }
        auto get = [=](uint64_t i) { size_t k = std::upper_bound(base.begin(), base.end(), i) - base.begin() - 1; ex::Digits d(i - base[k]); int fmt = d.take(3); bool trail = d.take(2); string r = ".debug_info\nDIE_compilation_unit" + string(fmt == 2 ? " : {" : ": {"); string nl = fmt == 0 ? "\n" : fmt == 1 ? "" : " # c\n\t"; bool first = true;
            for (char c: shapes[k]) { if (c == ')') { if (!first && trail) r += ","; r += nl + "}"; first = false; continue; } if (!first) r += ","; r += nl; if (c == 'a') { r += attrs[d.take(attrs.size())]; first = false; } else { r += tags[d.take(tags.size())] + ": {"; first = true; } }
            if (!first && trail) r += ","; return r + nl + "}"; };
        X.sweep("trees", base.back(), [&, get](uint64_t i) { guard([&] { auto t = get(i); auto d = parseAll(X, t); if (d.empty() && want(t) == "error") d = "the check's own text is malformed"; return d; }); }, [get](uint64_t i) { return esc(get(i)); });
    }
    { // all orders and subsets of the sections
        vector<vector<string>> body = {{"", "\"AB\" 33", "5 3"}, {"HALT", "0 MOV R0, 1 # .x\n1 PUTNUM R0\n2 HALT", "FADD F0, 1.5\nHALT"}, {"", "0: 2\n1: 3", "3:0 1:0"}, {"", "DIE_compilation_unit: {}", "DIE_compilation_unit: {DIE_variable: {ATTR_name: \"a.b\",},}"}, {"", "int main() {\n .text\n}\n", "\nx"}}; vector<string> names = {"data", "text", "debug_line", "debug_info"};
        vector<vector<int>> data = {{}, {'A', 'B', 0, 33}, {5, 3}}; vector<size_t> tn = {1, 3, 2};
        vector<vector<int>> orders; for (int m = 0; m < 16; ++m) { vector<int> s; for (int k = 0; k < 4; ++k) if (m >> k & 1) s.push_back(k); do orders.push_back(s); while (std::next_permutation(s.begin(), s.end())); }
        auto get = [=](uint64_t i) { ex::Digits d(i); auto o = orders[d.take(orders.size())]; int b[5]; for (auto& x: b) x = d.take(3); bool src = d.take(2); int sep = d.take(3); string t = sep == 2 ? "# header\n\n" : ""; for (int k: o) t += "." + names[k] + (sep == 1 ? " " : "\n") + body[k][b[k]] + (sep == 1 ? " " : sep == 2 ? "\n\n# end\n" : "\n"); if (src) t += ".debug_source\n" + body[4][b[4]]; return std::make_tuple(t, o, vector<int>(b, b + 5), src); };
        X.sweep("files", orders.size() * 243 * 6, [&, get](uint64_t i) { guard([&]() -> string { auto [t, o, b, src] = get(i); auto has = [&, &o = o](int k) { return std::find(o.begin(), o.end(), k) != o.end(); };
            auto w = want(t); if (w == "error" || w == "open") return "the check's own file is malformed"; auto d = parseAll(X, t); if (!d.empty()) return d; if (o.empty() && !src) return "";
            auto l = load(t); if (!l.err.empty()) return "the program is refused"; if (has(0) ? !std::equal(l.data.begin(), l.data.end(), data[b[0]].begin(), data[b[0]].end()) : !l.data.empty()) return "the data section is read wrongly"; if (l.text != (has(1) ? tn[b[1]] : 0)) return "the text section is read wrongly"; return ""; }); }, [get](uint64_t i) { return esc(std::get<0>(get(i))); });
    }
    { // data items, run on the machine
        struct It { string t; vector<int64_t> v; }; vector<It> its = {{"5", {5}}, {"-1", {-1}}, {"18446744073709551615", {-1}}, {"-9223372036854775808", {INT64_MIN}}, {"\"\"", {0}}, {"\"AB\"", {65, 66, 0}}, {"\"a\\n\\t\\\\\\\"#.;\"", {97, 10, 9, 92, 34, 35, 46, 59, 0}}, {"\"\n\"", {10, 0}}, {"# c \"\n", {}}, {".data", {}}, {"\".text\"", {46, 116, 101, 120, 116, 0}}};
        unsigned L = A ? 2 : (T ? 5 : 4); vector<uint64_t> off{0}; for (unsigned l = 0; l <= L; ++l) off.push_back(off.back() + ex::ipow(its.size(), l) * 2);
        auto get = [=](uint64_t i) { unsigned l = 0; while (off[l + 1] <= i) ++l; ex::Digits d(i - off[l]); bool after = d.take(2); string t = after ? ".text HALT .data " : ".data "; vector<int64_t> v; for (unsigned k = 0; k < l; ++k) { auto& x = its[d.take(its.size())]; t += x.t + (d.v % 2 ? "\n" : " "); v.insert(v.end(), x.v.begin(), x.v.end()); } if (!after) t += ".text HALT"; return std::make_pair(t, v); };
        X.sweep("data", off.back(), [&, get](uint64_t i) { guard([&]() -> string { auto [t, v] = get(i); auto l = load(t); if (!l.err.empty()) return "the program is refused"; if (l.data != v) return "the data section is read wrongly"; if (l.text != 1) return "the text section is read wrongly";
            std::istringstream is(t); Parser p(is); vm::Cfg c; c.nm = 48; vm::Box b(p.Parse(), c); b.receive(); for (size_t k = 0; k < 48; ++k) { auto r = b.ask("PEEKDATA " + std::to_string(k) + " 1"), w = std::to_string(k < v.size() ? v[k] : 0) + "\n"; if (r != w) return "memory cell " + std::to_string(k) + " starts with " + r; } return ""; }); }, [get](uint64_t i) { return esc(get(i).first); });
        auto [n, gs] = seqGet({"a", "\\", "\"", "n", "t", "\n", "#", ".", "\xe9", "0"}, A ? 4 : (T ? 7 : 5), ".data \"", "", "\" 7 .text HALT"); auto g = gs;
        X.sweep("strings", n, [&, g](uint64_t i) { guard([&]() -> string { auto t = g(i); vector<int64_t> v; string e; try { RL l(t); l.next(); l.next(); l.next(); while (l.k == "str" || l.k == "num" || l.k == "-") { if (l.k == "str") { for (char c: l.s) v.push_back(c); v.push_back(0); } else if (l.k == "-") throw Open(); else v.push_back((int64_t)l.n); l.next(); } if (l.k == "") throw Open(); if (l.k != ".") throw Bad(); l.next(); if (l.k != "id" || l.s != "text") throw Open(); } catch (Bad) { e = "error"; } catch (Open) { if (e.empty()) e = "open"; }
            auto l = load(t); X.visit(std::hash<string>{}(t)); if (e == "open") return ""; if (l.err != e) return e.empty() ? "the program is refused" : "a malformed string is accepted"; if (e.empty() && l.data != v) { bool same = l.data.size() == v.size(); for (size_t k = 0; same && k < v.size(); ++k) same = (uint8_t)v[k] == (uint8_t)l.data[k]; if (!same) return "the string is read wrongly"; } return ""; }); }, [g](uint64_t i) { return esc(g(i)); });
        X.sweep("memory sizes", 12 * 12, [&](uint64_t i) { guard([&]() -> string { size_t nd = i % 12, nm = i / 12 + 1; string t = ".data"; for (size_t k = 0; k < nd; ++k) t += " " + std::to_string(k + 5); t += " .text MOV R0, 65 PUTCHAR R0 HALT"; std::istringstream is(t); Parser p(is); auto pr = p.Parse();
            std::ostringstream os; auto* old = std::cout.rdbuf(os.rdbuf()); bool ok = false; string ex; try { tiny::t86::OS o(4, 2, nm); ok = o.Run(std::move(pr)); } catch (const std::exception& e) { ex = e.what(); } std::cout.rdbuf(old);
            if (!ex.empty()) return "the machine is ended by an exception: " + ex; if (ok != (nd <= nm)) return nd <= nm ? "the run fails" : "data larger than the memory is not reported"; if (ok && os.str() != "A") return "wrong output '" + os.str() + "'"; return ""; }); }, [](uint64_t i) { return std::to_string(i % 12) + " data items in " + std::to_string(i / 12 + 1) + " cells"; });
    }
    { // long runs of skipped text between the parts of a file
        vector<string> fill = {" ", "\n", "#\n", "# c \"\n", "\t#.\n", "\r\n"}; vector<size_t> cnt = {1, 1000, A ? 20000ul : 400000ul};
        vector<string> mid = {".data 5 ~.text 0 HALT", ".data ~5 .text 0 HALT", ".data 5 .text 0~HALT", ".data 5 .text 0 HALT ~", "~.data 5 .text HALT", ".data 5 .text HALT .foo x ~ 1 ", ".data 5 .text HALT .debug_line 0:~1", ".data 5 .text HALT .debug_info DIE_scope: {~}"};
        auto get = [=](uint64_t i) { ex::Digits d(i); auto f = fill[d.take(fill.size())]; auto m = mid[d.take(mid.size())]; size_t c = cnt[d.take(3)]; string r; for (size_t k = 0; k < c; ++k) r += f; auto p = m.find('~'); return m.substr(0, p) + (r[0] == '#' ? "\n" : "") + r + m.substr(p + 1); };
        X.sweep("long gaps", fill.size() * mid.size() * 3, [&, get](uint64_t i) { guard([&]() -> string { auto t = get(i); auto d = parseAll(X, t); if (!d.empty()) return "misread with a long gap"; auto l = load(t); if (!l.err.empty() || l.data != vector<int64_t>{5} || l.text != 1) return "the program is misread with a long gap"; return ""; }); }, [=](uint64_t i) { return esc(fill[i % fill.size()]) + " x " + std::to_string(cnt[i / fill.size() / mid.size()]) + " at ~ in " + mid[i / fill.size() % mid.size()]; });
        X.sweep("long ignored text", 3 * 2, [&](uint64_t i) { guard([&]() -> string { string g; for (size_t k = 0; k < cnt[i / 2]; ++k) g += i % 2 ? "@ " : "@"; string t = ".foo " + g + "\n.text 0 HALT .data 5"; auto d = parseAll(X, t); if (!d.empty()) return "misread with a long gap"; auto l = load(t); if (l.err != "error" && (!l.err.empty() || l.data != vector<int64_t>{5} || l.text != 1)) return "misread with a long gap"; return ""; }); }, [=](uint64_t i) { return std::to_string(cnt[i / 2]) + " characters without meaning in a skipped section"; });
    }
    // truncations and corruptions
    vector<std::pair<string, string>> files = {{"documented", DOC}, {"small", SMALL}};
    for (auto& [fn, t]: files) { auto text = t; X.sweep(fn + " truncated", text.size() + 1, [&, text](uint64_t i) { guard([&] { return parseAll(X, text.substr(0, i)); }); }, [](uint64_t i) { return "cut at byte " + std::to_string(i); });
        if (!A || text.size() < 400) X.sweep(fn + " bytes", text.size() * 257, [&, text](uint64_t i) { guard([&] { auto s = text; size_t p = i / 257; if (i % 257 == 256) s.erase(p, 1); else s[p] = (char)(i % 257); return parseAll(X, s); }); }, [text](uint64_t i) { return "byte " + std::to_string(i / 257) + " ('" + text[i/257] + "') " + (i % 257 == 256 ? "removed" : "replaced by " + std::to_string(i % 257)); });
        auto tk = tokens(text.substr(0, text.find(".debug_source"))); vector<string> vocab = {"", ".", ":", "{", "}", "[", "]", "`", ";", ",", "-", "0", "1.5", "18446744073709551615", "x", "\"s\"", "\"", "@", "ATTR_name", "ATTR_type", "ATTR_size", "ATTR_members", "ATTR_location", "ATTR_end_addr", "ATTR_", "DIE_variable", "DIE_scope", "DIE_", "PUSH", "ADD", "DEREFERENCE", "debug_line", "debug_info", "data", "text", "debug_source"};
        auto edit = [tk, vocab](uint64_t i) { ex::Digits d(i); auto v = tk; size_t p = d.take(tk.size()); bool ins = d.take(2); auto w = vocab[d.take(vocab.size())]; if (w.empty()) { if (ins) v.insert(v.begin() + p, v[p]); else v.erase(v.begin() + p); } else if (ins) v.insert(v.begin() + p, w); else v[p] = w; return joinTok(v); };
        X.sweep(fn + " tokens", tk.size() * 2 * vocab.size(), [&, edit](uint64_t i) { guard([&] { return parseAll(X, edit(i)); }); }, [edit](uint64_t i) { return esc(edit(i)); });
        if (fn == "small" && !A) { vector<string> few = {"", ".", ":", "{", "}", "]", ";", ",", "1", "x", "ATTR_type", "DIE_scope"}; size_t span = T ? tk.size() : 4; auto edit2 = [tk, few, span](uint64_t i) { ex::Digits d(i); auto v = tk; size_t p = d.take(tk.size()), q = std::min(p + 1 + d.take(span), tk.size() - 1); auto ed = [&](size_t at) { auto w = few[d.take(few.size())]; if (w.empty()) v.erase(v.begin() + at); else v[at] = w; }; ed(q); if (p < v.size()) ed(p); return joinTok(v); };
            X.sweep(fn + " two tokens", tk.size() * span * few.size() * few.size(), [&, edit2](uint64_t i) { guard([&] { return parseAll(X, edit2(i)); }); }, [edit2](uint64_t i) { return esc(edit2(i)); }); }
    }
    { // types and variables with any attribute missing
        vector<std::pair<string, vector<string>>> ds = {{"primitive_type", {"ATTR_name: int", "ATTR_size: 1", "ATTR_id: 0"}}, {"primitive_type", {"ATTR_name: \"unsigned\"", "ATTR_size: 1", "ATTR_id: 0"}}, {"primitive_type", {"ATTR_name: unsigned_int", "ATTR_size: 1", "ATTR_id: 0"}}, {"primitive_type", {"ATTR_name: unsigned", "ATTR_size: 0", "ATTR_id: 0"}}, {"primitive_type", {"ATTR_name: bool", "ATTR_size: 1", "ATTR_id: 0"}}, {"pointer_type", {"ATTR_type: 1", "ATTR_size: 1", "ATTR_id: 0"}}, {"pointer_type", {"ATTR_type: 7", "ATTR_size: 1", "ATTR_id: 0"}}, {"pointer_type", {"ATTR_type: 0", "ATTR_size: 1", "ATTR_id: 0"}}, {"array_type", {"ATTR_type: 1", "ATTR_size: 2", "ATTR_id: 0"}}, {"array_type", {"ATTR_type: 7", "ATTR_size: 2", "ATTR_id: 0"}}, {"array_type", {"ATTR_type: 1", "ATTR_size: 18446744073709551615", "ATTR_id: 0"}}, {"array_type", {"ATTR_type: 0", "ATTR_size: 1", "ATTR_id: 0"}}, {"structured_type", {"ATTR_name: S", "ATTR_size: 2", "ATTR_members: {0:{1:v}, 1:{0:n}}", "ATTR_id: 0"}}, {"structured_type", {"ATTR_name: S", "ATTR_size: 2", "ATTR_members: {0:{1:v}, 1:{7:n}}", "ATTR_id: 0"}}, {"structured_type", {"ATTR_name: S", "ATTR_size: 0", "ATTR_members: {18446744073709551615:{1:v}}", "ATTR_id: 0"}}, {"function", {"ATTR_name: main", "ATTR_begin_addr: 0", "ATTR_end_addr: 9", "ATTR_id: 0"}}, {"variable", {"ATTR_name: g", "ATTR_type: 0", "ATTR_location: `PUSH 3`", "ATTR_id: 0"}}};
        vector<string> locs = {"`PUSH 3`", "`PUSH R0`", "`PUSH R9`", "[]", "[ADD]", "[PUSH -1]", "[PUSH SP; PUSH 1; ADD]", ""}; vector<string> vt = {"0", "1", "9"};
        uint64_t per = 16 * locs.size() * vt.size() * 2; auto get = [=](uint64_t i) { ex::Digits d(i); auto& [tag, at] = ds[d.take(ds.size())]; unsigned m = d.take(16); auto l = locs[d.take(locs.size())]; auto ty = vt[d.take(3)]; bool fn = d.take(2); string t = ".debug_info DIE_compilation_unit: { DIE_primitive_type: {ATTR_name: char, ATTR_size: 1, ATTR_id: 1}, DIE_" + tag + ": {"; for (size_t k = 0; k < at.size(); ++k) if (m >> k & 1) t += at[k] + ","; t += "}, DIE_function: {" + string(fn ? "ATTR_name: main, ATTR_begin_addr: 0, ATTR_end_addr: 9, " : "ATTR_begin_addr: 0, ATTR_end_addr: 9, ") + "DIE_scope: {ATTR_begin_addr: 0, ATTR_end_addr: 9, DIE_variable: {ATTR_name: x, ATTR_type: " + ty + (l.empty() ? "" : ", ATTR_location: " + l) + "}, DIE_variable: {ATTR_name: y, ATTR_location: `PUSH 1`}, DIE_variable: {ATTR_type: 1, ATTR_location: `PUSH 1`}}}}"; return t; };
        X.sweep("missing attributes", ds.size() * per, [&, get](uint64_t i) { guard([&] { return parseAll(X, get(i)); }); }, [get](uint64_t i) { return get(i); });
    }
    return X.finish("all token sequences up to the stated length in every section and at every kind of place of the debug information, all entry trees of the stated size in three layouts, all orders and subsets of sections with three contents each, all sequences of data items (loaded into the real machine), all strings over the escape alphabet, every truncation, every replacement or removal of one byte, every insertion, replacement, removal and duplication of one token (and of two nearby tokens) of two complete files; accepted files must be read exactly like by the reference reader, all others must end in ParserError; everything read is then used by the debugger",
        {"a skipped section whose text the lexer cannot read may be refused or skipped", "text on the header line of .debug_source is not judged"});
}
