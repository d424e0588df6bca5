// P21: debugging over TCP.  A real machine waits for the debugger in a thread of its own; the addresses of the
// connection are made up here, the bytes go through a pair of local sockets, which can be cut after any byte.
#include "cli.h"
#include <sys/syscall.h>
#include <sys/uio.h>
#include <poll.h>
using namespace cli;
namespace net {
std::mutex m; std::condition_variable cv; bool on = false; int listener = -1, waiting = -1; bool ready = false, vmDone = true;   // a connection waiting to be accepted
int ends[2] = {-1, -1}; std::atomic<int64_t> sent{0}; int64_t cutAt = -1; std::atomic<bool> cut{false}; bool reset = false; size_t cutLine = 0; vector<int64_t> calls; int connections = 0; bool unsafe = false;
bool mine(int fd) { return on && fd >= 0 && (fd == ends[0] || fd == ends[1]); }
void sever() { cutLine = feed ? feed->at : 0; if (cut.exchange(true)) return; syscall(SYS_shutdown, ends[0], SHUT_RDWR); syscall(SYS_shutdown, ends[1], SHUT_RDWR); }
ssize_t put(int fd, const void* p, size_t n, int flags) {
    if (cut) { if (!(flags & MSG_NOSIGNAL)) unsafe = true; errno = reset ? ECONNRESET : EPIPE; return -1; }
    calls.push_back(sent); size_t k = n; if (cutAt >= 0 && sent + (int64_t)n > cutAt) k = cutAt - sent;
    sent += k; if (k) syscall(SYS_sendto, fd, p, k, MSG_NOSIGNAL, 0, 0);   // counted first: the other side may answer at once
    if (k < n) { sever(); if (!k) { if (!(flags & MSG_NOSIGNAL)) unsafe = true; errno = reset ? ECONNRESET : EPIPE; return -1; } }
    return k; }
void forget() { for (int* f: {&ends[0], &ends[1], &listener}) if (*f != -1 && f != &ends[0]) { syscall(SYS_close, *f); *f = -1; } }   // what the machine left open is closed when its process ends
ssize_t get(int fd, void* p, size_t n, int flags) { if (cut && reset) { errno = ECONNRESET; return -1; } ssize_t r = syscall(SYS_recvfrom, fd, p, n, flags, 0, 0); if (cut && reset) { errno = ECONNRESET; return -1; } return r; }
}
extern "C" {
ssize_t send(int fd, const void* p, size_t n, int fl) { if (net::mine(fd)) return net::put(fd, p, n, fl); return syscall(SYS_sendto, fd, p, n, fl, 0, 0); }
ssize_t sendto(int fd, const void* p, size_t n, int fl, const sockaddr* a, socklen_t l) { if (net::mine(fd)) return net::put(fd, p, n, fl); return syscall(SYS_sendto, fd, p, n, fl, a, l); }
ssize_t write(int fd, const void* p, size_t n) { if (net::mine(fd)) return net::put(fd, p, n, 0); return syscall(SYS_write, fd, p, n); }
static string flat(const iovec* v, size_t c) { string s; for (size_t i = 0; i < c; ++i) s.append((char*)v[i].iov_base, v[i].iov_len); return s; }
ssize_t writev(int fd, const iovec* v, int c) { if (net::mine(fd)) { auto s = flat(v, c); return net::put(fd, s.data(), s.size(), 0); } return syscall(SYS_writev, fd, v, c); }
ssize_t sendmsg(int fd, const msghdr* m, int fl) { if (net::mine(fd)) { auto s = flat(m->msg_iov, m->msg_iovlen); return net::put(fd, s.data(), s.size(), fl); } return syscall(SYS_sendmsg, fd, m, fl); }
ssize_t read(int fd, void* p, size_t n) { if (net::mine(fd)) return net::get(fd, p, n, 0); return syscall(SYS_read, fd, p, n); }
ssize_t recv(int fd, void* p, size_t n, int fl) { if (net::mine(fd)) return net::get(fd, p, n, fl); return syscall(SYS_recvfrom, fd, p, n, fl, 0, 0); }
ssize_t recvfrom(int fd, void* p, size_t n, int fl, sockaddr* a, socklen_t* l) { if (net::mine(fd)) return net::get(fd, p, n, fl); return syscall(SYS_recvfrom, fd, p, n, fl, a, l); }
int close(int fd) { if (net::on && fd >= 0) { bool debugger = fd == net::ends[0]; for (int* f: {&net::ends[0], &net::ends[1], &net::listener}) if (*f == fd) *f = -1; if (debugger) { syscall(SYS_shutdown, fd, SHUT_RDWR); int r = syscall(SYS_close, fd); std::unique_lock k(net::m); net::cv.wait(k, [] { return net::vmDone; }); return r; } }   // the machine is a process of its own: here it shares statistics with the next one, so its end is waited for
    return syscall(SYS_close, fd); }
int setsockopt(int fd, int a, int b, const void* p, socklen_t l) { if (net::on) return 0; return syscall(SYS_setsockopt, fd, a, b, p, l); }
int bind(int fd, const sockaddr* a, socklen_t l) { if (net::on) return 0; return syscall(SYS_bind, fd, a, l); }
int listen(int fd, int n) { if (net::on) { net::listener = fd; return 0; } return syscall(SYS_listen, fd, n); }
int accept(int fd, sockaddr* a, socklen_t* l) { if (!net::on) return syscall(SYS_accept, fd, a, l); std::unique_lock k(net::m); net::ready = true; net::cv.notify_all(); net::cv.wait(k, [] { return net::waiting != -1; }); int r = net::waiting; net::waiting = -1; if (r == -2) { errno = ECONNABORTED; return -1; } return r; }
int connect(int fd, const sockaddr* a, socklen_t l) { if (!net::on) return syscall(SYS_connect, fd, a, l); std::unique_lock k(net::m); if (!net::ready || ntohs(((const sockaddr_in*)a)->sin_port) != 9110) { errno = ECONNREFUSED; return -1; }
    net::ready = false; int sp[2]; if (syscall(SYS_socketpair, AF_UNIX, SOCK_STREAM, 0, sp)) abort(); dup2(sp[0], fd); syscall(SYS_close, sp[0]); net::ends[0] = fd; net::ends[1] = sp[1]; net::sent = 0; net::cut = false; net::calls.clear(); net::waiting = sp[1]; ++net::connections; net::cv.notify_all(); return 0; }
}
namespace {
const vector<string> SRC = {"int f() {", "  store", "}", "main:", " call f", " x = r", " print", " end"};
Prog withInfo() { Prog p; p.name = "a"; p.text = {"MOV R0, 2", "CALL 6", "MOV [3], R0", "PUTNUM R0", "MOV [4], 9", "HALT", "ADD R0, 1", "MOV [4], R0", "RET"}; p.data = {5, 6, 65}; p.lines = {{0, 6}, {1, 7}, {3, 0}, {4, 1}, {5, 2}, {6, 3}, {7, 5}}; p.fns = {{"f", 6, 9}, {"g", 4, 6}, {"main", 0, 4}}; p.vars = {{"x", 3, 0, 4}, {"y", 4, 0, 4}, {"z", 4, 6, 9}}; p.src = SRC; return p; }
Prog fault() { Prog p; p.name = "e"; p.text = {"MOV R0, 1", "MOV [3], R0", "MOV [5000], R0", "HALT"}; p.fns = {{"main", 0, 9}}; p.lines = {{0, 1}}; p.src = {"oops"}; return p; }
// the machine that waits for a debugger
struct Waiting { std::thread t; string ended; bool cancelled = false;
    void start(const Prog& p) { net::ready = false; net::waiting = -1; ended.clear(); cancelled = false; net::vmDone = false;
        t = std::thread([this, p] { try { std::istringstream is(p.file()); Parser q(is); auto prog = q.Parse(); tiny::t86::OS os(8, 4, 1024); auto s = std::make_unique<TCP::TCPServer>(9110); s->Initialize(); os.SetDebuggerComms(std::move(s)); os.Run(std::move(prog)); } catch (const std::exception& e) { ended = string("exception: ") + e.what(); } catch (...) { ended = "exception"; } std::unique_lock k(net::m); net::vmDone = true; net::cv.notify_all(); });
        std::unique_lock k(net::m); net::cv.wait(k, [] { return net::ready; }); }
    void join() { if (!t.joinable()) return; { std::unique_lock k(net::m); if (net::ready) { net::ready = false; net::waiting = -2; cancelled = true; net::cv.notify_all(); } } t.join(); if (cancelled) ended.clear(); net::forget(); } };
struct Played { Result r; string vm; int64_t bytes = 0; vector<int64_t> calls; bool cut = false, unsafe = false; size_t at = 0; };
Played once(ex::Explorer& X, const Prog& p, const vector<string>& script, int64_t cutAt, bool reset) {   // !v starts a machine that waits for a debugger
    string path = "w" + std::to_string(X.curWorker) + ".t86"; static string have; if (auto t = p.file(); have != t) { FILE* f = fopen(path.c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); have = t; }
    Played out; Waiting vm; net::ready = false; net::waiting = -1; net::cutAt = cutAt; net::reset = reset; net::sent = 0; net::cut = net::unsafe = false; net::ends[0] = net::ends[1] = -1; net::calls.clear(); net::connections = 0; net::on = true;
    auto note = [&] { vm.join(); if (!vm.ended.empty()) out.vm = vm.ended; if (net::connections == 1) { out.bytes = net::sent; out.calls = net::calls; out.cut = net::cut; out.at = net::cutLine; out.unsafe = net::unsafe; } if (net::connections) net::cutAt = -1; };
    out.r = cli::run(path, script, [&](const string&) { note(); vm.start(p); }, note); net::on = false; return out;
}
void pin(int w) { static bool done = false; if (done) return; done = true; cpu_set_t s, all; sched_getaffinity(0, sizeof all, &all); int want = std::max(w, 0) % CPU_COUNT(&all); for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &all) && want-- == 0) { CPU_ZERO(&s); CPU_SET(c, &s); sched_setaffinity(0, sizeof s, &s); break; } }
struct Want { Text out; string prog; };
string judge(const vector<string>& script, const vector<Want>& want, const Result& r, size_t from, size_t to) {
    for (size_t k = from; k < to; ++k) if (script[k][0] != '!') {
        if (auto d = compare(want[k].out, r.steps[k].out); !d.empty()) return "command " + std::to_string(k + 1) + " ('" + script[k] + "'): " + d;
        if (r.steps[k].prog != want[k].prog) return "after command " + std::to_string(k + 1) + " ('" + script[k] + "') the program has printed '" + r.steps[k].prog + "', expected '" + want[k].prog + "'"; }
    return ""; }
string ended(const Played& o, const vector<string>& script) {
    if (!o.r.escaped.empty()) return "the session is ended by an " + o.r.escaped + " after '" + (o.r.steps.empty() ? "" : o.r.steps.back().line) + "'";
    if (o.r.steps.size() != script.size()) return "the session stopped reading commands";
    if (!o.vm.empty()) return "the machine is ended by an " + o.vm;
    if (o.unsafe) return "writing to a closed connection raises SIGPIPE, which ends the process"; return ""; }
optional<vector<Want>> model(Session& S, vector<string>& script) {   // also leaves out the !v that can not happen
    vector<Want> w; vector<string> done;
    for (auto& l: script) { if (l == "!v") { if (S.listening || (S.attached && S.active)) continue; S.listening = true; w.push_back({{}, S.printed + S.m.out}); done.push_back(l); continue; } auto t = S.exec(l); if (S.unjudged) return {}; done.push_back(l); w.push_back({t, S.printed + S.m.out}); }
    script = done; return w; }
string play(ex::Explorer& X, const Prog& p, vector<string> script, bool keepPrefix = true) {
    string path = "w" + std::to_string(X.curWorker) + ".t86"; Session S(path, p); S.keepPrefix = keepPrefix; auto all = script; auto w = model(S, script); if (!w) { X.c().skipped++; return ""; } for (auto& x: *w) X.visit(std::hash<string>{}(join(x.out) + x.prog));
    auto o = once(X, p, script, -1, false); X.c().traces++; X.c().interesting++; if (auto e = ended(o, script); !e.empty()) return e;
    auto d = judge(script, *w, o.r, 0, script.size()); if (!d.empty() && S.ambiguous && keepPrefix) return play(X, p, all, false); return d; }
const vector<string> AUDIT = {"breakpoint list", "watchpoint list", "register", "memory get 0 8", "disassemble from 0"};
vector<string> operator+(vector<string> a, const vector<string>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
bool needsMachine(const string& c) { for (auto x: {"register", "memory get", "disassemble", "c", "is", "in"}) if (pre(x, c)) return true; return false; }
// One history with the connection cut at every place.
string cuts(ex::Explorer& X, const Prog& p, const vector<string>& hist, int how, bool everyByte) {
    const vector<string> probe = {"register", "memory get 0 8", "disassemble from 0"}; vector<string> back = how ? vector<string>{"attach 1", "!v", "attach 9110"} : vector<string>{"run"}, clean = {"b irem 2", "b irem 6", "w irem 3"}, check = probe + vector<string>{"c"};
    vector<string> head = vector<string>{"!v", "attach 9110"} + hist, script = head + probe + back + clean + check; string path = "w" + std::to_string(X.curWorker) + ".t86";
    Session S(path, p), F(path, p); auto before = script; S.keepPrefix = false; auto w = model(S, script); if (!w) { X.c().skipped++; return ""; } if (script != before) return "(harness) unexpected script";
    auto tail = (how ? vector<string>{"!v", "attach 9110"} : vector<string>{"run"}) + check; auto fresh = model(F, tail); size_t tailAt = script.size() - check.size(), backAt = head.size() + probe.size();
    auto ref = once(X, p, script, -1, false); if (auto e = ended(ref, script); !e.empty()) return e;
    vector<int64_t> places; if (everyByte) for (int64_t b = 0; b < ref.bytes; ++b) places.push_back(b); else places = ref.calls;
    string beforeOut = (*w)[backAt - 1].prog, freshOut = fresh->back().prog;
    for (int64_t at: places) for (int reset = 0; reset < 2; ++reset) {
        X.beat();
        auto o = once(X, p, script, at, reset); X.c().traces++; X.c().transitions++; string where = "connection " + string(reset ? "reset" : "closed") + " after byte " + std::to_string(at) + " of " + std::to_string(ref.bytes) + ": ";
        if (auto e = ended(o, script); !e.empty()) return where + e; if (!o.cut) return where + "the exchange is not the same as without the loss";
        size_t k = o.at - 1; X.visit(at * 2 + reset + 1000003 * std::hash<string>{}(script[k])); if (auto e = judge(script, *w, o.r, 0, std::min(k, backAt)); !e.empty()) return where + e;
        if (k < backAt && script[k] != "frame" && o.r.steps[k].out.find("Error: ") == string::npos) return where + "the loss is not reported by '" + script[k] + "', which shows\n" + o.r.steps[k].out;
        for (size_t j = k + 1; j < backAt; ++j) if (needsMachine(script[j]) && (o.r.steps[j].out.find("Error: ") != 0)) return where + "'" + script[j] + "' without a machine shows\n" + o.r.steps[j].out;
        if (!how && o.r.steps[backAt].out != join((*w)[backAt].out)) return where + "'run' after the loss shows\n" + o.r.steps[backAt].out;
        for (size_t j = 0; j < check.size(); ++j) if (auto d = compare((*fresh)[fresh->size() - check.size() + j].out, o.r.steps[tailAt + j].out); !d.empty()) return where + "in the process after the loss, '" + check[j] + "': " + d;
        auto& pr = o.r.prog; if (pr.size() < freshOut.size() || pr.substr(pr.size() - freshOut.size()) != freshOut || !pre(pr.substr(0, pr.size() - freshOut.size()), beforeOut)) return where + "the programs have printed '" + pr + "', expected a part of '" + beforeOut + "' and then '" + freshOut + "'";
    }
    X.c().interesting++; return "";
}
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough(), A = X.asan(); usages();
    auto text = [](const vector<string>& s) { string r; for (auto& l: s) r += (l == "!v" ? "(a machine starts waiting)" : l) + "; "; return r; };
    auto hist = [](const vector<string>& a, uint64_t i, unsigned depth) { ex::Digits d(i); vector<string> s; for (unsigned k = 0; k < depth; ++k) s.push_back(a[d.take(a.size())]); return s; };
    { // sessions with a machine that was attached
        vector<string> a = {"!v", "attach 9110", "run", "c", "is", "s", "fin", "b iset 2", "b set f", "w iset 3", "reg set R0 7", "reg fset F1 2.5", "mem set 3 9 8", "p x = 5", "attach 1"}; vector<Prog> ps = {withInfo(), fault()}; unsigned depth = A ? 1 : (T ? 5 : 4); if (A) ps.resize(1);
        X.sweep("attached sessions", ps.size() * ex::ipow(a.size(), depth), [&, a, ps, depth](uint64_t i) { pin(X.curWorker); auto d = play(X, ps[i % ps.size()], vector<string>{"!v", "attach 9110"} + hist(a, i / ps.size(), depth) + AUDIT + vector<string>{"c", "c"}); if (!d.empty()) X.report(d); }, [=](uint64_t i) { return ps[i % ps.size()].name + ": a machine starts waiting; attach 9110; " + text(hist(a, i / ps.size(), depth)) + "audit; c; c"; });
    }
    vector<string> a = {"c", "is", "in", "s", "n", "fin", "b iset 2", "b set f", "b irem 2", "b idis 2", "w iset 3", "w irem 3", "reg", "reg set R0 7", "reg get R0", "reg fset F0 2", "reg fget F0", "mem get 0 8", "mem set 3 1 2", "mem gets 2 1", "dis", "dis from 0", "dis fun f", "frame", "source", "p x", "p x = 5", "h"};
    auto lost = [&](const string& name, vector<string> al, unsigned depth, bool everyByte) {
        X.sweep(name, 2 * ex::ipow(al.size(), depth), [&, al, depth, everyByte](uint64_t i) { pin(X.curWorker); auto d = cuts(X, withInfo(), hist(al, i / 2, depth), i % 2, everyByte); if (!d.empty()) X.report(d); }, [=](uint64_t i) { return "attached; " + text(hist(al, i / 2, depth)) + (i % 2 ? "then attached to another machine" : "then run"); }); };
    if (A) lost("connections lost", {"c", "b iset 2", "frame"}, 1, false);
    else { lost("connections lost at every byte", a, T ? 2 : 1, true); lost("connections lost at every message", T ? vector<string>{"c", "is", "n", "fin", "b iset 2", "b irem 2", "w iset 3", "reg set R0 7", "mem set 3 1 2", "p x = 5"} : a, T ? 3 : 2, false); }
    return X.finish("all histories of the stated length with machines that wait for the debugger (real TCPServer, TCPClient, machine and command interpreter over local sockets), compared with the model of a local session; and, for all histories of the lost-connection suites, the connection is closed and reset after every byte (or before every write) of the whole exchange: commands before the loss, the report of the loss, commands without a machine and a complete session afterwards (run or attach) are judged, and the machine must end without an exception",
        {"the reads and writes of both sides alternate, as requests and answers; their interleavings over one connection are fixed by the protocol", "whether breakpoints of an earlier process are kept when attaching is not specified; both are accepted", "a machine that runs forever does not notice the loss before it stops"});
}
