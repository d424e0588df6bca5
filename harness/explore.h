// Exhaustive parallel enumeration of an index space on forked workers.
// Every index is a complete case (program, history, schedule root...).  A worker that dies or hangs
// is a violation of the case it was running; the enumeration carries on behind it.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace ex {
struct Counters {
    std::atomic<uint64_t> cases{0}, states{0}, transitions{0}, traces{0}, skipped{0}, interesting{0};
};
struct Slot { std::atomic<uint64_t> cur; std::atomic<int64_t> startMs; std::atomic<uint64_t> next, end; std::atomic<int> viol; };
struct Shared {
    Counters c; std::atomic<uint64_t> cursor; std::atomic<int> violations; std::atomic<int> stop;
    Slot slot[64];
};
inline int64_t nowMs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec*1000LL + t.tv_nsec/1000000; }

struct Violation { std::string suite; uint64_t idx; std::string desc; };

struct Opts {
    std::string prop, tier = "quick", out = ".", replay; int workers = 8; int64_t hangMs = 20000; double budget = 0;
    std::map<std::string,std::string> kv; std::string only;
};

class Explorer {
public:
    Opts o; Shared* sh; std::vector<Violation> viol; std::vector<std::string> samples;
    std::map<std::string,uint64_t> suiteCases; std::map<std::string,double> suiteSecs;
    int64_t t0 = nowMs();
    int maxViol = 20;
    bool truncated = false;
    int curWorker = -1; std::string curSuite; uint64_t curIdx = 0;

    Explorer(int argc, char** argv) {
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i]; auto e = a.find('=');
            std::string k = a.substr(0,e), v = e==a.npos ? "" : a.substr(e+1);
            if (k=="--prop") o.prop = v; else if (k=="--tier") o.tier = v; else if (k=="--out") o.out = v;
            else if (k=="--workers") o.workers = std::stoi(v); else if (k=="--replay") o.replay = v;
            else if (k=="--only") o.only = v;
            else if (k=="--max") maxViol = std::stoi(v);
            else o.kv[k] = v;
        }
        sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
        new (sh) Shared();
        bitmap = mmap(nullptr, 1u<<27, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        signal(SIGPIPE, SIG_IGN);
    }
    void beat() { if (curWorker >= 0 && sh->slot[curWorker].startMs) sh->slot[curWorker].startMs = nowMs(); }   // a long case is still moving
    // Record a visited model state; distinct states are counted in a shared bitmap (2^30 bits, so a tiny undercount).
    void visit(uint64_t h) {
        h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; h &= (1ull<<30)-1;
        auto& b = ((std::atomic<uint8_t>*)bitmap)[h>>3]; uint8_t m = 1u << (h&7);
        if (!(b.load(std::memory_order_relaxed) & m) && !(b.fetch_or(m) & m)) sh->c.states++;
        sh->c.transitions++;
    }
    void* bitmap = nullptr;
    std::string pass() const { auto it = o.kv.find("--pass"); return it == o.kv.end() ? "asan" : it->second; }
    bool asan() const { return pass() == "asan"; }   // the build with memory-error detection, about 100 times slower
    bool thorough() const { return o.tier == "thorough"; }
    Counters& c() { return sh->c; }

    // To be called by a case on a violation (in the worker).
    void report(const std::string& desc) {
        if (curWorker < 0) { printf("replay: case %s#%llu: VIOLATED: %s\n", curSuite.c_str(), (unsigned long long)curIdx, desc.c_str()); replayHit = true; return; }
        if (sh->slot[curWorker].viol.fetch_add(1) == 0) {
            std::ofstream f(vfile(curWorker), std::ios::app);
            std::string d = desc; for (auto& ch: d) if (ch=='\n') ch = '\x01';
            f << curIdx << "\t" << d << "\n"; f.flush();
            sh->violations++;
        }
    }
    bool replayHit = false;

    // Enumerate [0,n).  `label(i)` describes a case (used for crash reports and samples).
    void sweep(const std::string& suite0, uint64_t n, const std::function<void(uint64_t)>& f,
               const std::function<std::string(uint64_t)>& label, uint64_t chunk = 0) {
        const std::string suite = suite0 + "/" + pass();
        if (!o.only.empty() && suite.find(o.only) == suite.npos) return;
        curSuite = suite;
        if (!o.replay.empty()) {
            auto h = o.replay.find('#'); if (o.replay.substr(0,h) != suite) return;
            curIdx = std::stoull(o.replay.substr(h+1));
            printf("replay %s#%llu:\n%s\n", suite.c_str(), (unsigned long long)curIdx, label(curIdx).c_str()); fflush(stdout);
            f(curIdx); printf("replay finished: %s\n", replayHit ? "VIOLATED" : "held"); return;
        }
        if (sh->violations >= maxViol) { truncated = true; return; }
        int64_t s0 = nowMs(); uint64_t c0 = sh->c.cases;
        int W = (int)std::min<uint64_t>(o.workers, n ? n : 1);
        if (!chunk) { chunk = n / (W*64); if (chunk < 1) chunk = 1; if (chunk > 2000) chunk = 2000; }
        sh->cursor = 0; sh->stop = 0;
        std::vector<pid_t> pid(W, -1);
        fflush(stdout); fflush(stderr);
        auto spawn = [&](int w) {
            pid_t p = fork();
            if (p == 0) { curWorker = w; worker(w, n, chunk, f); fflush(nullptr); _exit(0); }
            pid[w] = p;
        };
        for (int w = 0; w < W; ++w) { auto& s = sh->slot[w]; s.next = s.end = 0; s.startMs = 0; unlink(vfile(w).c_str()); spawn(w); }
        int live = W;
        while (live) {
            bool any = false;
            for (int w = 0; w < W; ++w) if (pid[w] > 0) {
                int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
                auto& s = sh->slot[w];
                if (r == pid[w]) {
                    any = true;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[w] = -1; --live; continue; }
                    uint64_t idx = s.cur;
                    std::string why = WIFSIGNALED(st) ? std::string("the process died with signal ") + strsignal(WTERMSIG(st))
                                                      : "the process exited with code " + std::to_string(WEXITSTATUS(st));
                    bool wasHung = hung.count(w);
                    if (wasHung && retried.insert({suite, idx}).second) { hung.erase(w); s.next = idx; s.startMs = 0; spawn(w); continue; }   // not believed before it happens again
                    if (wasHung && ++hangs >= 6) maxViol = 0;
                    if (wasHung) { why = hung[w] == 2 ? "the case did not finish before it used 1.5 GB of memory (hang)" : "the case did not finish within " + std::to_string(o.hangMs/1000) + " s (hang)"; hung.erase(w); }
                    add(suite, idx, why + "\ncase: " + label(idx) + tailErr(w));
                    s.next = idx + 1;
                    if (sh->violations >= maxViol || ++restarts > 60) { s.next = s.end.load(); sh->stop = 1; truncated = true; pid[w] = -1; --live; continue; }
                    s.startMs = 0; spawn(w);
                } else {
                    int64_t st0 = s.startMs;
                    // Time counts only while this process runs too, and mostly as processor time: neither a suspended nor a busy machine looks like a hang.
                    auto& wt = watch[w]; int64_t now = nowMs();
                    if (wt.start != st0) wt = Watch{st0, 0, 0, -1};
                    if (wt.last) wt.acc += std::min<int64_t>(now - wt.last, 50);
                    wt.last = now;
                    if (st0 && wt.acc > 1000 && wt.cpu < 0) wt.cpu = cpuMs(pid[w]);
                    if (st0 && wt.acc > o.hangMs && (cpuMs(pid[w]) - wt.cpu > o.hangMs/2 || wt.acc > 3*o.hangMs)) { hung[w] = 1; kill(pid[w], SIGKILL); s.startMs = 0; }
                    else if (st0 && wt.acc > 1000 && rssMb(pid[w]) > 1500) { hung[w] = 2; kill(pid[w], SIGKILL); s.startMs = 0; }
                }
            }
            if (sh->violations >= maxViol) { if (!sh->stop) truncated = true; sh->stop = 1; }
            if (!any) usleep(2000);
        }
        for (int w = 0; w < W; ++w) {
            std::ifstream in(vfile(w)); std::string line;
            while (std::getline(in, line)) {
                auto t = line.find('\t'); uint64_t idx = std::stoull(line.substr(0,t)); std::string d = line.substr(t+1);
                for (auto& ch: d) if (ch=='\x01') ch = '\n';
                viol.push_back({suite, idx, d + "\ncase: " + label(idx)});
            }
            unlink(vfile(w).c_str()); unlink(efile(w).c_str());
        }
        suiteCases[suite] += sh->c.cases - c0; suiteSecs[suite] += (nowMs()-s0)/1000.0;
        if (n) { samples.push_back(suite + "#0: " + label(0)); samples.push_back(suite + "#" + std::to_string(n/2) + ": " + label(n/2)); samples.push_back(suite + "#" + std::to_string(n-1) + ": " + label(n-1)); }
        fprintf(stderr, "[%s] %s: %llu cases in %.1f s, %d violations so far\n", o.prop.c_str(), suite.c_str(),
                (unsigned long long)(sh->c.cases - c0), (nowMs()-s0)/1000.0, (int)sh->violations);
    }
    // Writes result JSON for the driver and returns the exit code.
    int finish(const std::string& rule, const std::vector<std::string>& assumptions) {
        if (!o.replay.empty()) return replayHit ? 1 : 0;
        std::ofstream f(o.out + "/result.json");
        auto& c = sh->c;
        f << "{\"cases\":" << c.cases << ",\"states\":" << c.states << ",\"transitions\":" << c.transitions
          << ",\"traces\":" << c.traces << ",\"skipped\":" << c.skipped << ",\"interesting\":" << c.interesting
          << ",\"truncated\":" << (truncated?"true":"false")
          << ",\"rule\":" << js(rule) << ",\"assumptions\":[";
        for (size_t i = 0; i < assumptions.size(); ++i) f << (i?",":"") << js(assumptions[i]);
        f << "],\"suites\":{"; bool first = true;
        for (auto& [k,v]: suiteCases) { f << (first?"":",") << js(k) << ":" << v; first = false; }
        f << "},\"samples\":["; for (size_t i = 0; i < samples.size(); ++i) f << (i?",":"") << js(samples[i]);
        f << "],\"violations\":[";
        for (size_t i = 0; i < viol.size(); ++i)
            f << (i?",":"") << "{\"suite\":" << js(viol[i].suite) << ",\"idx\":" << viol[i].idx << ",\"desc\":" << js(viol[i].desc) << "}";
        f << "],\"wall_s\":" << (nowMs()-t0)/1000.0 << "}\n";
        return viol.empty() ? 0 : 1;
    }
    static std::string js(const std::string& s) {
        std::string r = "\""; char b[8];
        for (unsigned char ch: s) { if (ch=='"'||ch=='\\') { r += '\\'; r += ch; } else if (ch=='\n') r += "\\n"; else if (ch<32||ch>126) { snprintf(b,8,"\\u%04x",ch); r += b; } else r += ch; }
        return r + "\"";
    }
private:
    std::map<int,int> hung; int restarts = 0, hangs = 0; std::set<std::pair<std::string,uint64_t>> retried;
    struct Watch { int64_t start = 0, last = 0, acc = 0, cpu = -1; }; std::map<int,Watch> watch;
    static int64_t cpuMs(pid_t p) { std::ifstream f("/proc/" + std::to_string(p) + "/stat"); std::string l; std::getline(f, l); auto q = l.rfind(')'); if (q == l.npos) return 0; std::istringstream is(l.substr(q + 1)); std::string t; for (int i = 0; i < 11; ++i) is >> t; int64_t u = 0, k = 0; is >> u >> k; return (u + k) * 1000 / sysconf(_SC_CLK_TCK); }
    static long rssMb(pid_t p) { std::ifstream f("/proc/" + std::to_string(p) + "/statm"); long a = 0, b = 0; f >> a >> b; return b / 256; }
    std::string vfile(int w) { return o.out + "/viol." + std::to_string(w); }
    std::string efile(int w) { return o.out + "/stderr." + std::to_string(w); }
    std::string tailErr(int w) {
        std::ifstream in(efile(w)); std::stringstream ss; ss << in.rdbuf(); std::string s = ss.str();
        if (s.size() > 1500) s = s.substr(0, 1500);
        return s.empty() ? "" : "\nstderr: " + s;
    }
    void add(const std::string& suite, uint64_t idx, const std::string& d) { viol.push_back({suite, idx, d}); sh->violations++; }
    void worker(int w, uint64_t n, uint64_t chunk, const std::function<void(uint64_t)>& f) {
        int fd = open(efile(w).c_str(), O_CREAT|O_TRUNC|O_WRONLY|O_APPEND, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); }
        rlimit rl{0,0}; setrlimit(RLIMIT_CORE, &rl);
        auto& s = sh->slot[w];
        while (true) {
            if (s.next >= s.end) {
                uint64_t b = sh->cursor.fetch_add(chunk); if (b >= n) return;
                s.next = b; s.end = std::min(n, b + chunk);
            }
            while (s.next < s.end) {
                if (sh->stop) return;
                uint64_t i = s.next; s.cur = i; curIdx = i; s.viol = 0; s.startMs = nowMs();
                f(i); sh->c.cases++;
                s.startMs = 0; s.next = i + 1;
            }
        }
    }
};
// mixed-radix helper
struct Digits { uint64_t v; explicit Digits(uint64_t v): v(v) {} uint64_t take(uint64_t radix) { uint64_t d = v % radix; v /= radix; return d; } };
inline uint64_t ipow(uint64_t b, unsigned e) { uint64_t r = 1; while (e--) r *= b; return r; }
} // namespace ex
