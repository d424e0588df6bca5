// P14: socket messages survive any segmentation.  The real framing code runs on model sockets: this file
// defines send, recv, read, write, close, connect... for descriptors >= 5000; every transfer size and every failure is a choice.
#include "dbg.h"
#include "common/TCP.h"
#include <sys/uio.h>
#include <sys/syscall.h>
#include <poll.h>
#include <dlfcn.h>
using std::string; using std::vector;
namespace net {
struct Blocked : std::exception { const char* what() const noexcept override { return "it waits for bytes that were never sent"; } };
struct Loops : std::exception { const char* what() const noexcept override { return "it calls the socket for ever (endless loop)"; } };
struct Choice { vector<int> c, alt; size_t pos = 0; int dev = 0, maxDev = 1000;
    int pick(int n) { if (n <= 1 || (dev >= maxDev && pos >= c.size())) { if (n > 1) n = 1; if (n <= 1) return 0; } if (pos >= c.size()) c.push_back(0); alt.resize(pos + 1); alt[pos] = n; int r = c[pos++]; if (r) ++dev; return r; } } ch;
struct Stream { string b; bool eof = false; };
struct Sock { Stream* in = nullptr; Stream* out = nullptr; };
vector<Sock> socks; constexpr int BASE = 5000; bool on = false;
// what the transport does
bool splitReads = false, splitSends = false, allSizes = true; int64_t failSendAt = -1, failReadAt = -1; int failErrno = EPIPE; bool zeroSend = false; bool coroYield = false; std::function<void()> whenEmpty;
uint64_t sent = 0, got = 0; unsigned calls = 0; vector<string> failed; string failCall; string unsafe;
void reset() { ch.pos = 0; ch.dev = 0; ch.alt.clear(); sent = got = 0; calls = 0; failed.clear(); unsafe.clear(); }
void count() { if (++calls > 20000) throw Loops(); }
size_t part(size_t n, bool split) { if (!split || n <= 1) return n; if (allSizes && n <= 64) { int k = ch.pick((int)n); return k ? (size_t)k : n; }   // 0 = everything
    size_t opt[] = {n, 1, n / 2, n - 1, std::min<size_t>(n - 1, 7), std::min<size_t>(n - 1, 4096)}; return std::max<size_t>(1, opt[ch.pick(6)]); }
ssize_t doSend(int fd, const void* p, size_t n, int flags) {
    count(); auto& s = socks.at(fd - BASE); if (!n) return 0; size_t k = part(n, splitSends);
    if (failSendAt >= 0) { if (sent >= (uint64_t)failSendAt) { if (failErrno == EPIPE && !(flags & MSG_NOSIGNAL)) unsafe = "writing to a closed connection raises SIGPIPE, which ends the process"; errno = failErrno; return -1; } k = std::min<size_t>(k, failSendAt - sent); }
    s.out->b.append((const char*)p, k); sent += k; return k;
}
ssize_t doRecv(int fd, void* p, size_t n, int flags) {
    count(); auto& s = socks.at(fd - BASE); if (!n) return 0;
    if (failReadAt >= 0 && got >= (uint64_t)failReadAt) { errno = failErrno; return -1; }
    while (s.in->b.empty() && !s.in->eof) { if (!whenEmpty) throw Blocked(); whenEmpty(); }
    if (s.in->b.empty()) return 0;
    size_t k = std::min(n, s.in->b.size()); if (failReadAt >= 0) k = std::min<size_t>(k, failReadAt - got);
    if (!(flags & MSG_WAITALL)) k = part(k, splitReads); else if (k < n && !s.in->eof) throw Blocked();
    memcpy(p, s.in->b.data(), k); if (!(flags & MSG_PEEK)) { s.in->b.erase(0, k); got += k; } return k;
}
bool fails(const char* f) { count(); if (failCall == f) { errno = EADDRINUSE; failed.push_back(f); return true; } return false; }
}
#define MINE(fd) (net::on && (fd) >= net::BASE)
extern "C" {
ssize_t send(int fd, const void* p, size_t n, int fl) { if (MINE(fd)) return net::doSend(fd, p, n, fl); return syscall(SYS_sendto, fd, p, n, fl, 0, 0); }
ssize_t sendto(int fd, const void* p, size_t n, int fl, const sockaddr* a, socklen_t l) { if (MINE(fd)) return net::doSend(fd, p, n, fl); return syscall(SYS_sendto, fd, p, n, fl, a, l); }
ssize_t write(int fd, const void* p, size_t n) { if (MINE(fd)) return net::doSend(fd, p, n, 0); return syscall(SYS_write, fd, p, n); }
ssize_t writev(int fd, const iovec* v, int c) { if (MINE(fd)) { string s; for (int i = 0; i < c; ++i) s.append((char*)v[i].iov_base, v[i].iov_len); return net::doSend(fd, s.data(), s.size(), 0); } return syscall(SYS_writev, fd, v, c); }
ssize_t sendmsg(int fd, const msghdr* m, int fl) { if (MINE(fd)) { string s; for (size_t i = 0; i < m->msg_iovlen; ++i) s.append((char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return net::doSend(fd, s.data(), s.size(), fl); } return syscall(SYS_sendmsg, fd, m, fl); }
ssize_t read(int fd, void* p, size_t n) { if (MINE(fd)) return net::doRecv(fd, p, n, 0); return syscall(SYS_read, fd, p, n); }
ssize_t recv(int fd, void* p, size_t n, int fl) { if (MINE(fd)) return net::doRecv(fd, p, n, fl); return syscall(SYS_recvfrom, fd, p, n, fl, 0, 0); }
ssize_t recvfrom(int fd, void* p, size_t n, int fl, sockaddr* a, socklen_t* l) { if (MINE(fd)) return net::doRecv(fd, p, n, fl); return syscall(SYS_recvfrom, fd, p, n, fl, a, l); }
int poll(pollfd* f, nfds_t n, int t) { for (nfds_t i = 0; i < n; ++i) if (MINE(f[i].fd)) { net::count(); f[i].revents = f[i].events; return 1; } return syscall(SYS_poll, f, n, t); }
int socket(int a, int b, int c) { if (net::on) { if (net::fails("socket")) return -1; net::socks.emplace_back(); return net::BASE + (int)net::socks.size() - 1; } return syscall(SYS_socket, a, b, c); }
int setsockopt(int fd, int a, int b, const void* p, socklen_t l) { if (MINE(fd)) return net::fails("setsockopt") ? -1 : 0; return syscall(SYS_setsockopt, fd, a, b, p, l); }
int bind(int fd, const sockaddr* a, socklen_t l) { if (MINE(fd)) return net::fails("bind") ? -1 : 0; return syscall(SYS_bind, fd, a, l); }
int listen(int fd, int n) { if (MINE(fd)) return net::fails("listen") ? -1 : 0; return syscall(SYS_listen, fd, n); }
int connect(int fd, const sockaddr* a, socklen_t l) { if (MINE(fd)) return net::fails("connect") ? -1 : 0; return syscall(SYS_connect, fd, a, l); }
int accept(int fd, sockaddr* a, socklen_t* l) { if (MINE(fd)) { if (net::fails("accept")) return -1; net::socks.emplace_back(); return net::BASE + (int)net::socks.size() - 1; } return syscall(SYS_accept, fd, a, l); }
int shutdown(int fd, int h) { if (MINE(fd)) return 0; return syscall(SYS_shutdown, fd, h); }
int close(int fd) { if (MINE(fd)) return 0; return syscall(SYS_close, fd); }
}
namespace {
string content(int kind, size_t n) { string s; for (size_t i = 0; i < n; ++i) s += kind == 0 ? (char)('a' + i % 26) : kind == 1 ? (char)(i * 131 + 7) : kind == 2 ? (char)0 : (char)(i % 8 == 0); return s; }
struct Sc { vector<size_t> len; int kind; string text() const { string s; for (auto l: len) s += (s.empty() ? "" : ",") + std::to_string(l); return "messages of " + s + " bytes, content " + std::to_string(kind); } vector<string> msgs() const { vector<string> m; for (size_t i = 0; i < len.size(); ++i) m.push_back(content(kind, len[i] + 0)); for (size_t i = 0; i < m.size(); ++i) if (!m[i].empty()) m[i][0] = char(m[i][0] + i); return m; } };
// depth-first over all transport choices
template<class F> string dfs(ex::Explorer& X, F once, int maxDev, uint64_t prefix = 0, uint64_t nPrefix = 1) {
    net::ch = {}; net::ch.maxDev = maxDev;
    while (true) { net::reset(); string d = once(); X.c().traces++; X.visit(std::hash<string>{}(string((char*)net::ch.c.data(), net::ch.c.size() * 4)) + X.curIdx * 0x9E3779B97F4A7C15ull);
        if (!d.empty()) { string t; for (auto c: net::ch.c) t += " " + std::to_string(c); return d + " (transfer choices" + t + ")"; }
        auto& c = net::ch.c; c.resize(std::min(c.size(), net::ch.alt.size()));
        auto dev = [&](size_t n) { int k = 0; for (size_t i = 0; i < n; ++i) k += c[i] != 0; return k; };
        while (!c.empty() && (c.back() + 1 >= net::ch.alt[c.size()-1] || (c.back() == 0 && dev(c.size()-1) >= maxDev))) c.pop_back();
        if (c.empty()) return ""; ++c.back(); }
}
struct On { On() { net::on = true; } ~On() { net::on = false; } };
struct Both { net::Stream ab, ba; Both() { net::socks.assign(2, {}); net::socks[0] = {&ba, &ab}; net::socks[1] = {&ab, &ba}; } };
const int A = net::BASE, B = net::BASE + 1;
string transfer(const vector<string>& m, bool sendSide, bool readSide, bool interleave) {
    Both w; net::splitSends = sendSide; net::splitReads = readSide; net::failSendAt = net::failReadAt = -1;
    try {
        if (!interleave) for (auto& s: m) TCP::Send(A, s);
        for (size_t i = 0; i < m.size(); ++i) { if (interleave) TCP::Send(A, m[i]); auto r = TCP::Receive(B); if (!r) return "message " + std::to_string(i) + " is reported as a closed connection"; if (*r != m[i]) return "message " + std::to_string(i) + " arrives changed (" + std::to_string(r->size()) + " bytes, sent " + std::to_string(m[i].size()) + ")"; }
        if (!w.ab.b.empty()) return std::to_string(w.ab.b.size()) + " bytes are left in the connection";
        w.ab.eof = true; auto r = TCP::Receive(B); if (r) return "a message of " + std::to_string(r->size()) + " bytes is received from a closed connection";
    } catch (const TCP::TCPError& e) { return string("an error is reported: ") + e.what(); } catch (const std::exception& e) { return e.what(); }
    return "";
}
string closedAt(const vector<string>& m, size_t pos, int how, bool split) {   // the reader's side ends after pos bytes: how 0 closed, else errno
    Both w; net::splitSends = false; net::splitReads = split; net::failSendAt = net::failReadAt = -1;
    try {
        for (auto& s: m) TCP::Send(A, s);
        size_t whole = 0, at = 0; { net::Stream keep = w.ab; size_t left = w.ab.b.size(); bool sp = net::splitReads; net::splitReads = false; for (auto& s: m) { (void)s; TCP::Receive(B); size_t used = left - w.ab.b.size(); if (used <= pos) ++whole; } w.ab = keep; net::splitReads = sp; net::got = 0; } (void)at;
        if (how == 0) { w.ab.b.resize(pos); w.ab.eof = true; } else { net::failReadAt = pos; net::failErrno = how; }
        for (size_t i = 0; i <= whole; ++i) {
            std::optional<string> r; bool err = false; try { r = TCP::Receive(B); } catch (const TCP::TCPError&) { err = true; }
            if (i < whole) { if (err) return "an error is reported for message " + std::to_string(i) + " which arrived whole"; if (!r || *r != m[i]) return "message " + std::to_string(i) + " is wrong although it arrived whole"; }
            else { if (r) return "a message of " + std::to_string(r->size()) + " bytes is received although the connection ended inside it"; }
        }
    } catch (const TCP::TCPError& e) { return string("unexpected error: ") + e.what(); } catch (const std::exception& e) { return e.what(); }
    return "";
}
string sendFails(const vector<string>& m, size_t pos, int e, bool split) {
    Both w; net::splitSends = split; net::splitReads = false; net::failReadAt = -1; net::failSendAt = pos; net::failErrno = e; size_t okCount = 0; bool err = false;
    try { for (auto& s: m) { TCP::Send(A, s); ++okCount; } } catch (const TCP::TCPError&) { err = true; } catch (const std::exception& x) { return string("sending: ") + x.what(); }
    if (!net::unsafe.empty()) return net::unsafe;
    size_t total = 0; for (auto& s: m) total += 8 + s.size();
    if (!err && pos < total) return "a message that could not be sent is not reported";
    w.ab.eof = true; net::failSendAt = -1;
    try { for (size_t i = 0; i <= m.size(); ++i) { std::optional<string> r; try { r = TCP::Receive(B); } catch (const TCP::TCPError&) { break; } if (!r) { if (i < okCount) return "message " + std::to_string(i) + " was sent but does not arrive"; break; } if (i >= m.size() || *r != m[i]) return "the other end receives a wrong message"; } } catch (const std::exception& x) { return string("receiving: ") + x.what(); }
    return "";
}
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough();
    auto go = [&](const string& n, size_t size, std::function<string(size_t)> f, std::function<string(size_t)> l) { X.sweep(n, size, [&](uint64_t i) { On on; string d; try { d = f(i); } catch (const std::exception& e) { d = e.what(); } X.c().interesting++; if (!d.empty()) X.report(d); }, l, 1); };
    // every way to split the byte stream, for one and two messages
    vector<Sc> one, two, three, longs; vector<size_t> ls = {0, 1, 2, 3, 5, 8};
    for (int k = 0; k < 4; ++k) { for (auto a: ls) one.push_back({{a}, k}); for (auto a: {0, 1, 3}) for (auto b: {0, 1, 2}) two.push_back({{(size_t)a, (size_t)b}, k}); for (auto a: {0, 1, 9}) for (auto b: {0, 2, 12}) for (auto c: {0, 3}) three.push_back({{(size_t)a, (size_t)b, (size_t)c}, k}); for (size_t a: {20, 255, 256, 1000, 65535, 65536, 100000}) longs.push_back({{a, 3, a / 2}, k}); }
    struct J { Sc s; int mode; }; auto modes = [](const vector<Sc>& v) { vector<J> r; for (auto& s: v) for (int m = 1; m < 8; ++m) { if (!(m & 3)) continue; if (m & 4 && s.len.size() == 1) continue; r.push_back({s, m}); } return r; };
    auto suite = [&](const string& n, vector<Sc> v, int single, int both) { auto js = modes(v); go(n, js.size(), [&, js, single, both](size_t i) { auto& j = js[i]; auto m = j.s.msgs(); return dfs(X, [&] { return transfer(m, j.mode & 1, j.mode & 2, j.mode & 4); }, (j.mode & 3) == 3 ? both : single); }, [js](size_t i) { auto& j = js[i]; return j.s.text() + (j.mode & 1 ? ", split sends" : "") + (j.mode & 2 ? ", split reads" : "") + (j.mode & 4 ? ", read after each" : ""); }); };
    suite("one", one, 1000, T ? 4 : 3); suite("two", two, T ? 1000 : 6, T ? 4 : 3); suite("three", three, T ? 4 : 3, T ? 3 : 2); suite("long", longs, T ? 3 : 2, T ? 2 : 1);
    { // the connection ends or fails at every byte
        struct C { Sc s; size_t pos; int how; bool split; int side; }; vector<C> cs;
        vector<Sc> v; for (int k = 0; k < 4; ++k) for (vector<size_t> l: vector<vector<size_t>>{{0}, {1}, {5}, {12}, {3, 0}, {0, 4}, {9, 2}, {2, 9, 1}}) v.push_back({l, k});
        for (auto& s: v) { size_t tot = 0; for (auto l: s.len) tot += 8 + l; for (size_t p = 0; p <= tot; ++p) for (bool sp: {false, true}) { for (int how: {0, ECONNRESET, ETIMEDOUT}) if (how || p <= tot) cs.push_back({s, p, how, sp, 0}); for (int e: {EPIPE, ECONNRESET, ENOBUFS}) cs.push_back({s, p, e, sp, 1}); } }
        go("ends", cs.size(), [&](size_t i) { auto& c = cs[i]; auto m = c.s.msgs(); return dfs(X, [&] { return c.side ? sendFails(m, c.pos, c.how, c.split) : closedAt(m, c.pos, c.how, c.split); }, T ? 3 : 2); }, [&](size_t i) { auto& c = cs[i]; return c.s.text() + (c.side ? ", sending fails with " : c.how ? ", reading fails with " : ", closed") + string(c.how ? strerrorname_np(c.how) : "") + " after " + std::to_string(c.pos) + " bytes" + (c.split ? ", split" : ""); });
    }
    { // the messenger classes: every failing call is reported, use before initialisation is reported
        struct M { bool server; string call; }; vector<M> ms; for (bool s: {false, true}) for (string c: {"", "socket", "connect", "setsockopt", "bind", "listen", "accept", "uninitialised", "twice"}) ms.push_back({s, c});
        go("set-up", ms.size() , [&](size_t i) -> string { auto& m = ms[i]; net::reset(); net::socks.clear(); net::failCall = m.call; net::failSendAt = net::failReadAt = -1; net::splitReads = net::splitSends = false; string r;
            auto use = [&](auto& e) -> string {
                auto err = [&](auto f) { try { f(); return false; } catch (const TCP::TCPError&) { return true; } };
                if (m.call == "uninitialised") return err([&] { e.Send("x"); }) && err([&] { e.Receive(); }) ? "" : "use before initialisation is not reported";
                bool a = err([&] { e.Initialize(); });
                if (m.call == "twice") return !a && err([&] { e.Initialize(); }) ? "" : "a second initialisation is not reported";
                if (net::failed.empty()) { if (a) return "an error is reported although every call succeeded"; net::Stream in, out; for (auto& s: net::socks) s = {&in, &out}; e.Send("hello"); in.b = out.b; auto r = e.Receive(); return r && *r == "hello" ? "" : "the message is lost"; }
                if (a) return "";
                // the failure has to surface at the first use
                net::Stream in, out; for (auto& s: net::socks) s = {&in, &out}; bool b; try { b = err([&] { e.Receive(); }); } catch (const std::exception& x) { return string("a failing ") + m.call + " is not reported, and then " + x.what(); } return b ? "" : "a failing " + m.call + " is not reported"; };
            if (m.server) { TCP::TCPServer s(9110); r = use(s); } else { TCP::TCPClient c(9110); r = use(c); }
            net::failCall = ""; return r; }, [&](size_t i) { auto& m = ms[i]; return string(m.server ? "server" : "client") + ", " + (m.call.empty() ? "no failure" : m.call); });
    }
    { // a debugging session of the real debugger and machine over a split connection gives the same answers
        vector<string> prog = {"MOV R0, 3", "ADD R1, 2", "MOV [R1], R0", "LOOP R0, 1", "PUTNUM R1", "HALT"}; vm::Cfg cfg; cfg.alu = 2;
        struct Tcp : Messenger { int fd; explicit Tcp(int fd): fd(fd) {} std::optional<string> Receive() override { return TCP::Receive(fd); } void Send(const string& s) override { TCP::Send(fd, s); } };
        auto session = [&](int64_t cut) -> string {   // cut: the debugger's connection ends after that many bytes of requests
            Both w; net::failSendAt = net::failReadAt = -1; net::failCall = ""; string log; bool ended = false, ok = false; 
            tiny::t86::StatsLogger::instance().reset(); vm::configure(cfg); std::ostringstream out; auto* old = std::cout.rdbuf(out.rdbuf());
            bool inVm = false; vm::Coro* co = nullptr; string escaped; uint64_t idle = 0;
            vm::Coro c([&] { try { tiny::t86::OS os(cfg.nr, cfg.nf, cfg.nm); os.SetDebuggerComms(std::make_unique<Tcp>(B)); ok = os.Run(vm::assemble(vm::programText(prog))); } catch (const std::exception& e) { escaped = e.what(); } ended = true; }); co = &c;
            net::whenEmpty = [&] { if (++idle > 3000) throw net::Blocked(); if (inVm) { inVm = false; co->yield(); inVm = true; } else { if (co->done()) throw net::Blocked(); inVm = true; co->resume(); inVm = false; } };
            string d;
            try {
                Native n(std::make_unique<T86Process>(std::make_unique<Tcp>(A), cfg.nr, cfg.nf, cfg.nm));
                auto ev = [&] { log += dbg::conv(n.WaitForDebugEvent()).str() + ";"; };
                ev(); n.SetBreakpoint(3); n.ContinueExecution(); ev(); for (auto& [k, v]: n.GetRegisters()) log += k + "=" + std::to_string(v) + ","; n.SetRegister("R1", 7); log += dbg::conv(n.PerformSingleStep()).str() + ";"; for (auto& t: n.ReadText(0, 6)) log += t + "/"; for (auto v: n.ReadMemory(0, 8)) log += std::to_string(v) + " "; n.UnsetBreakpoint(3); n.ContinueExecution(); ev(); log += std::to_string(n.GetRegister("R1"));
                n.ContinueExecution(); w.ab.eof = true; for (int k = 0; k < 50 && !ended; ++k) { inVm = true; co->resume(); inVm = false; }
            } catch (const std::exception& e) { d = e.what(); }
            if (d.empty() && !ended) d = "the machine did not end";
            for (int k = 0; k < 200 && !co->done(); ++k) { w.ab.eof = w.ba.eof = true; inVm = true; co->resume(); inVm = false; }
            net::whenEmpty = nullptr; std::cout.rdbuf(old); if (!escaped.empty()) d += " the machine fails with " + escaped;
            static string first; string all = log + "|" + out.str(); if (d.empty()) { if (first.empty()) first = all; if (all != first) d = "the session differs: " + all + " instead of " + first; if (all.find("breakpoint@3;") == string::npos || all.find("end;") == string::npos) d = "unexpected session " + all; }
            return d; };
        // the place of the deviations is spread over cases: case = (side, index of the first deviating transfer)
        go("session", 2, [&](size_t i) { net::splitSends = false; net::splitReads = false; net::allSizes = true; auto none = session(-1); if (!none.empty()) return "unsplit: " + none; net::splitSends = i == 0; net::splitReads = i == 1; return dfs(X, [&] { net::splitSends = i == 0; net::splitReads = i == 1; return session(-1); }, 1); }, [](size_t i) { return string("a session with one split ") + (i ? "read" : "send") + " at every place"; });
    }
    return X.finish("every split of the byte streams of one and two messages into partial sends and reads (three and long messages: bounded number of short transfers), a close and each error at every byte of message sequences, every failing call while connecting, a debugging session of the real debugger and machine with a short transfer at every place",
        {"the transport delivers bytes in order", "an interrupted call (EINTR) is not distinguished from other errors"});
}
