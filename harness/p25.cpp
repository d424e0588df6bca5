// P25: the stand-alone t86-cli runs a program file and prints exactly its output; what it cannot run it refuses with a message.
// Every case runs the real main() in a process of its own.
#include "direct.h"
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <dlfcn.h>
#include <errno.h>
#include <netinet/in.h>
#include <fcntl.h>
#include <sys/stat.h>
using runs::Init; using std::string; using std::vector; using direct::Cfg;
extern "C" int t86_cli_main(int argc, char* argv[]);
namespace net { bool on = false; int failAt = 0, peer = -1, listener = -1, port = 0; }   // failAt: 1 socket, 2 bind, 3 listen, 4 accept
extern "C" {
int socket(int a, int b, int c) { if (net::on && a == AF_INET) { if (net::failAt == 1) { errno = EMFILE; return -1; } return net::listener = syscall(SYS_socket, AF_UNIX, SOCK_STREAM, 0); } return syscall(SYS_socket, a, b, c); }
int setsockopt(int fd, int a, int b, const void* p, socklen_t l) { if (net::on) return 0; return syscall(SYS_setsockopt, fd, a, b, p, l); }
int bind(int fd, const sockaddr* a, socklen_t l) { if (!net::on) return syscall(SYS_bind, fd, a, l); if (net::failAt == 2) { errno = EADDRINUSE; return -1; } net::port = ntohs(((const sockaddr_in*)a)->sin_port); return 0; }
int listen(int fd, int n) { if (!net::on) return syscall(SYS_listen, fd, n); if (net::failAt == 3) { errno = EADDRINUSE; return -1; } return 0; }
int accept(int fd, sockaddr* a, socklen_t* l) { if (!net::on) return syscall(SYS_accept, fd, a, l); if (net::failAt == 4 || net::port != 9110) { errno = ECONNABORTED; return -1; } return net::peer; }
}
namespace {
struct Files { string good, other, bad, missing, dir; };
string base; int fdIn = -1, fdOut = -1, fdErr = -1;
void put(const string& p, const string& t) { FILE* f = fopen(p.c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
string get(int fd) { string s; char b[4096]; ssize_t n; off_t at = 0; while ((n = pread(fd, b, sizeof b, at)) > 0) { s.append(b, n); at += n; } return s; }
void prepare(ex::Explorer& X) {
    if (fdIn >= 0) return; fdIn = memfd_create("in", 0); fdOut = memfd_create("out", 0); fdErr = memfd_create("err", 0);
    base = X.o.out + "/w" + std::to_string(X.curWorker); mkdir(base.c_str(), 0700); mkdir((base + "/dir").c_str(), 0700);
}
struct Ran { int code = 0; bool died = false; string why, out, err, sent; };
Ran run(const vector<string>& args, const string& input, int failAt = 0, const vector<string>* debugger = nullptr) {
    for (int f: {fdIn, fdOut, fdErr}) { if (ftruncate(f, 0)) {} lseek(f, 0, SEEK_SET); } if (!input.empty() && write(fdIn, input.data(), input.size()) < 0) {} lseek(fdIn, 0, SEEK_SET);
    int sp[2] = {-1, -1};
    if (debugger) { if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) abort(); for (auto& s: *debugger) { size_t n = s.size(); if (write(sp[0], &n, 8) < 0 || write(sp[0], s.data(), n) < 0) {} } shutdown(sp[0], SHUT_WR); }
    fflush(nullptr); pid_t p = fork();
    if (!p) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); rlimit rl{3, 6}; setrlimit(RLIMIT_CPU, &rl);
#if !defined(__SANITIZE_ADDRESS__)
        rlimit as{2ull << 30, 2ull << 30}; setrlimit(RLIMIT_AS, &as);
#endif
        dup2(fdIn, 0); dup2(fdOut, 1); dup2(fdErr, 2); signal(SIGPIPE, SIG_DFL); std::cin.clear(); if (sp[0] >= 0) close(sp[0]);
        vector<string> a = args; a.insert(a.begin(), "t86-cli"); vector<char*> v; for (auto& s: a) v.push_back(s.data()); v.push_back(nullptr);
        net::on = true; net::failAt = failAt; net::peer = sp[1]; net::port = 0;
        exit(t86_cli_main((int)a.size(), v.data()));
    }
    Ran r; int st; if (sp[1] >= 0) close(sp[1]); waitpid(p, &st, 0); r.died = WIFSIGNALED(st); r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1; if (r.died) r.why = strsignal(WTERMSIG(st));
    r.out = get(fdOut); r.err = get(fdErr); if (!r.died && r.err.find("AddressSanitizer") != r.err.npos) { r.died = true; r.why = "memory error"; }
    if (sp[0] >= 0) { char b[4096]; ssize_t n; while ((n = read(sp[0], b, sizeof b)) > 0) r.sent.append(b, n); close(sp[0]); }
    if (r.died) r.why += ": " + r.err.substr(0, 600);
    return r;
}
string text(const vector<string>& p, const Init& in) { return vm::programText(p, in.data); }
// what running the program must look like
string judgeRun(ex::Explorer& X, const Ran& r, const vector<string>& prog, const Init& in, const Cfg& c) {
    if (r.died) return "t86-cli died: " + r.why;
    ref::Ev e = ref::Ev::Fault; string out;
    if (in.data.size() <= c.ram) { auto m = direct::makeRef(prog, in, c); e = runs::runRef(X, m, 200); out = m.out; }
    if (e == ref::Ev::Ok) { X.c().skipped++; return ""; }
    if (r.out != out) return "printed '" + r.out + "', expected '" + out + "'";
    if (e == ref::Ev::Halt && r.code) return "exit code " + std::to_string(r.code) + " of a program that halts";
    X.c().traces++; X.c().interesting++; return "";
}
bool ends(ex::Explorer& X, const vector<string>& prog, const Init& in, const Cfg& c) { if (in.data.size() > c.ram) return true; auto m = direct::makeRef(prog, in, c); return runs::runRef(X, m, 200) != ref::Ev::Ok; }
string judgeRefusal(const Ran& r) {
    if (r.died) return "t86-cli died: " + r.why; if (!r.code) return "exit code 0, expected a refusal"; if (!r.out.empty()) return "refused, but printed '" + r.out + "'"; if (r.err.empty()) return "refused without a message"; return "";
}
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan();
    auto sweep = [&](const string& n, uint64_t size, std::function<string(uint64_t)> f, std::function<string(uint64_t)> l) { X.sweep(n, size, [&](uint64_t i) { prepare(X); auto d = f(i); if (!d.empty()) X.report(d); }, l); };
    { // programs with input and output under several options
        vector<string> al = {"PUTNUM R0", "PUTCHAR R1", "GETCHAR R0", "INC R0", "MOV [R0], R1", "MOV R1, [2]", "PUSH R1", "JZ 3", "MOV R3, R0", "FADD F1, 0.5", "DIV R1, R0"};
        vector<vector<string>> ops = {{}, {"--register-cnt", "3"}, {"--memory-size", "3"}, {"--float-register-cnt", "1", "--memory-size", "100"}}; vector<Cfg> cf = {{8, 4, 1, 2, 1024, 4}, {3, 4, 1, 2, 1024, 4}, {8, 4, 1, 2, 3, 4}, {8, 1, 1, 2, 100, 4}};
        unsigned len = A ? 2 : T ? 5 : 4; Init in; in.data = {66, 0, 70}; in.input = " q\n7";
        auto get = [=](uint64_t i, int& o) { ex::Digits d(i); o = d.take(4); vector<string> p; for (unsigned k = 0; k < len; ++k) p.push_back(al[d.take(al.size())]); p.push_back("PUTNUM R0"); p.push_back("HALT"); return p; };
        sweep("programs", 4 * ex::ipow(al.size(), len), [&](uint64_t i) { int o; auto p = get(i, o); if (!ends(X, p, in, cf[o])) { X.c().skipped++; return string(); } string f = base + "/p.t86"; put(f, text(p, in)); auto a = ops[o]; if (i & 1) a.push_back(f); else a.insert(a.begin(), f); return judgeRun(X, run(a, in.input), p, in, cf[o]); },
            [&](uint64_t i) { int o; auto p = get(i, o); return vm::join(p) + " | " + vm::join(ops[o], " "); });
    }
    vector<string> prog = {"MOV R2, 5", "PUTNUM R2", "MOV F1, 2.5", "MOV [3], R2", "PUTNUM R2", "HALT"}; Init pin; pin.data = {7, 8};
    { // every order of options, values and file names, valid or not
        vector<string> tok = {"@good", "@missing", "@bad", "@dir", "--register-cnt", "--float-register-cnt", "--memory-size", "3", "1", "99", "abc", "-1", "", "2305843009213693952", "99999999999999999999", "3x", "--nonsense", "-x"};
        if (A) tok = {"@good", "@bad", "--register-cnt", "--memory-size", "3", "1", "abc"};
        unsigned len = T || A ? 4 : 3; vector<uint64_t> off = {0}; for (unsigned l = 0; l <= len; ++l) off.push_back(off.back() + ex::ipow(tok.size(), l));
        uint64_t n1 = off.back(), extra = A ? 0 : 1;   // and: file plus two complete options in every order
        vector<vector<string>> combos; if (extra) { vector<string> o = {"--register-cnt", "--float-register-cnt", "--memory-size"}, v = {"0", "1", "2", "3", "4", "5", "99", "1000", "abc", "-1", "1.5", "0x10", " 3", "3 ", "99999999999999999999", "2305843009213693952"}; for (auto& a: o) for (auto& b: o) for (auto& x: v) for (auto& y: v) { combos.push_back({"@good", a, x, b, y}); combos.push_back({a, x, "@good", b, y}); combos.push_back({a, x, b, y, "@good"}); combos.push_back({a, x, b, y}); } }
        auto get = [&](uint64_t i) { vector<string> r; if (i >= n1) return combos[i - n1]; unsigned l = 0; while (i >= off[l+1]) ++l; ex::Digits d(i - off[l]); for (unsigned k = 0; k < l; ++k) r.push_back(tok[d.take(tok.size())]); return r; };
        sweep("arguments", n1 + combos.size(), [&](uint64_t i) -> string {
            auto a = get(i); static bool made = false; if (!made) { made = true; put(base + "/good.t86", text(prog, pin)); put(base + "/bad.t86", ".text\nMOV R0\n"); }
            Cfg c{8, 4, 1, 2, 1024, 4}; string file; bool refuse = false, open = false; std::set<string> given;
            for (size_t k = 0; k < a.size(); ++k) {
                if (a[k].rfind("--", 0) == 0 && a[k] != "--nonsense") { if (!given.insert(a[k]).second) open = true; string o = a[k]; if (++k == a.size()) { open = true; break; } if (a[k].rfind("--", 0) == 0) { open = true; continue; }   // a missing value: argparse's own matter
                    const string& v = a[k]; if (v.empty() || v.find_first_not_of("0123456789") != v.npos || v.size() > 18) { if (v == "0x10" || v == " 3" || v == "3 ") open = true; else refuse = true; continue; }   // spaces and other bases: not documented
                    size_t n = std::stoull(v); (o == "--register-cnt" ? c.nr : o == "--float-register-cnt" ? c.nf : c.ram) = n; }
                else if (a[k] == "-1" || a[k] == "-x" || a[k] == "--nonsense") refuse = true;
                else if (!file.empty()) refuse = true; else file = a[k].empty() ? "?" : a[k];
            }
            if (file != "@good") refuse = true;   // missing, a directory, malformed, or none at all
            for (auto& s: a) if (s[0] == '@') s = base + "/" + s.substr(1) + (s == "@dir" ? "" : ".t86");
            auto r = run(a, "");
            if (r.died) return "t86-cli died: " + r.why;
            if (refuse && !open) return judgeRefusal(r);
            if (open) return "";
            if (c.nr > 1e9 || c.nf > 1e9 || c.ram > 1e9) return judgeRefusal(r);
            return judgeRun(X, r, prog, pin, c);
        }, [&](uint64_t i) { return "t86-cli " + vm::join(get(i), " "); });
    }
    { // every truncation and single-character corruption of a program file
        string t = "# c\n.data\n5\n\"a\\n\"\n.text\n0 MOV R0, [1]\nPUTNUM R0\nMOV [R0 + 1 + R1 * 2], F0\nPUSH -3\nHALT\n"; string ch = "\n\"[.#-A0\x01"; if (A) ch = "\"0";
        auto get = [&](uint64_t i) { string s = t; if (i <= s.size()) return s.substr(0, i); i -= s.size() + 1; size_t p = i % s.size(); s[p] = ch[i / s.size()]; return s; };
        sweep("files", t.size() + 1 + t.size() * ch.size(), [&](uint64_t i) -> string {
            string s = get(i), f = base + "/f.t86"; put(f, s); bool bad = false; try { vm::assemble(s); } catch (const std::exception&) { bad = true; }
            if (!bad && s.find("HALT") == s.npos) { X.c().skipped++; return ""; }   // runs on past its end
            auto r = run({f}, ""); if (r.died && r.why.find("CPU time") == r.why.npos) return "t86-cli died: " + r.why; if (bad) return judgeRefusal(r);
            X.c().traces++; return ""; }, [&](uint64_t i) { return get(i); });
    }
    { // waiting for a debugger: failures of the network, and debuggers that leave at any point
        vector<vector<string>> scripts = {{}, {"REASON"}, {"CONTINUE"}, {"STEP"}, {"STEP", "STEP"}, {"CONTINUE", "REASON"}, {"CONTINUE", "CONTINUE"}, {"CONTINUE", "TERMINATE"}, {"TERMINATE"}, {"POKEDATA 0 9", "CONTINUE"}, {"nonsense"}, {"", "CONTINUE"}};
        vector<vector<string>> args = {{"--debug", "@"}, {"@", "--debug"}, {"--memory-size", "50", "--debug", "@"}, {"@", "--debug", "--register-cnt", "4"}};
        sweep("debugger", args.size() * (4 + scripts.size()), [&](uint64_t i) -> string {
            ex::Digits d(i); auto a = args[d.take(args.size())]; size_t k = d.v; string f = base + "/d.t86"; put(f, text(prog, pin)); for (auto& s: a) if (s == "@") s = f; X.c().interesting++;
            if (k < 4) return judgeRefusal(run(a, "", k + 1, nullptr));
            auto& s = scripts[k-4]; auto r = run(a, "", 0, &s); if (r.died) return "t86-cli died: " + r.why;
            if (r.sent.size() < 15 || r.sent.substr(8, 7) != "STOPPED") return "the debugger was not told about the stop at the start";
            size_t conts = std::count(s.begin(), s.end(), "CONTINUE"); string want = conts ? "5\n5\n" : "";
            if (r.out != want) return "printed '" + r.out + "', expected '" + want + "'"; X.c().traces++; return "";
        }, [&](uint64_t i) { ex::Digits d(i); auto a = args[d.take(args.size())]; size_t k = d.v; return vm::join(a, " ") + (k < 4 ? string(" with failing ") + vector<string>{"socket", "bind", "listen", "accept"}[k] : " debugger sends: " + vm::join(scripts[k-4])); });
    }
    return X.finish("every bounded program under several option sets, every sequence of argument tokens up to the stated length, every truncation and single-character corruption of a program file, every failure of the network and early leave of a debugger; each runs the real main() in its own process: output equals the reference's, everything else is refused with a message and a non-zero exit code, and the process never dies",
        {"option values with spaces or in other bases and repeated options are not documented and judged only for not crashing", "the exit code of a program that fails is not documented and not judged"});
}
