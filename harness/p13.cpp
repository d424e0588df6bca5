// P13: in-process messages are delivered once, in order, under any schedule.
// This file (and so every inline function of threads_messenger.h) is compiled with memory access hooks.
#include "explore.h"
#include "mcsched.h"
#include "common/threads_messenger.h"
using std::string; using std::vector;
namespace {
struct Sc { string a, b; int owner; int content; };   // what each end does: 's' send, 'r' receive
bool completes(const string& a, const string& b) { size_t i = 0, j = 0; int ab = 0, ba = 0; bool go = true; while (go) { go = false; while (i < a.size() && (a[i] == 's' || ba)) { a[i] == 's' ? ++ab : --ba; ++i; go = true; } while (j < b.size() && (b[j] == 's' || ab)) { b[j] == 's' ? ++ba : --ab; ++j; go = true; } } return i == a.size() && j == b.size(); }
string msg(int content, int end, int k) { switch (content) { case 0: return string(end ? "b" : "a") + std::to_string(k); case 1: return k % 2 ? string() : string(40, 'x') + std::to_string(k); default: return string(1, (char)(k * 37)) + string("\0\n", 2) + string(end * 20, 'y'); } }
struct World {
    ThreadQueue<string> q1, q2; std::unique_ptr<Messenger> ea, eb; vector<string> ga, gb; bool na = false, nb = false;
    World(int owner) { if (owner) { auto o = std::make_unique<ThreadMessengerOwner>(); eb = std::make_unique<ThreadMessenger>(o->GetOutQueue(), o->GetInQueue()); ea = std::move(o); } else { ea = std::make_unique<ThreadMessenger>(q1, q2); eb = std::make_unique<ThreadMessenger>(q2, q1); } }
};
void act(Messenger& m, const string& what, int content, int end, vector<string>& got, bool& none) { int k = 0; unsigned n = 0; for (char ch: what) { mc::note(++n * 1000 + got.size() * 17 + end); if (ch == 's') m.Send(msg(content, end, k++)); else { auto r = m.Receive(); if (!r) { none = true; return; } got.push_back(*r); } } }
}
int main(int argc, char** argv) {
    ex::Explorer X(argc, argv); bool T = X.thorough();
    mc::onState = [&](uint64_t h) { X.visit(h * 31 + X.curIdx / 81); };
    auto explore = [&](const string& name, const vector<Sc>& scs, int spurious, int preempt = -1) {
        const int P = 4; const uint64_t per = 81;
        auto pre = [&](uint64_t i) { vector<int> p; uint64_t r = i % per; for (int k = 0; k < P; ++k) { p.push_back(r % 3); r /= 3; } return p; };
        auto label = [&](uint64_t i) { auto& s = scs[i / per]; string p; for (auto c: pre(i)) p += std::to_string(c); return "ends do '" + s.a + "' and '" + s.b + "', " + (s.owner ? "owning messenger" : "two messengers") + ", content " + std::to_string(s.content) + ", schedules beginning " + p + ", spurious wake-ups " + std::to_string(spurious) + (preempt >= 0 ? ", preemptions " + std::to_string(preempt) : ""); };
        X.sweep(name, scs.size() * per, [&](uint64_t i) {
            auto& s = scs[i / per]; std::unique_ptr<World> w;
            auto st = mc::explore([&] { w = std::make_unique<World>(s.owner); auto* p = w.get(); return vector<std::function<void()>>{[p, &s] { act(*p->ea, s.a, s.content, 0, p->ga, p->na); }, [p, &s] { act(*p->eb, s.b, s.content, 1, p->gb, p->nb); }}; },
                [&]() -> string { string d; if (w->na || w->nb) d = "Receive returned nothing although the connection is open";
                    auto cmp = [&](const vector<string>& g, int from) { for (size_t k = 0; k < g.size(); ++k) if (g[k] != msg(s.content, from, (int)k)) d = "message " + std::to_string(k) + " of end " + std::to_string(from) + " arrives as '" + g[k] + "'"; }; cmp(w->ga, 1); cmp(w->gb, 0);
                    auto nr = [](const string& s) { return (size_t)std::count(s.begin(), s.end(), 'r'); }; if (d.empty() && (w->ga.size() != nr(s.a) || w->gb.size() != nr(s.b))) d = "not every message was received"; w.reset(); return d; },
                pre(i), spurious, 400, 0, preempt);
            X.c().traces += st.schedules; if (st.schedules) X.c().interesting++; if (st.truncated) X.c().skipped++;
            if (!st.violation.empty()) { string t; for (auto c: st.trace) t += std::to_string(c); X.report(st.violation + " (schedule choices " + t + ")"); }
        }, label, 9);
    };
    vector<Sc> small, big; unsigned L = T ? 5 : 4;
    for (unsigned la = 0; la <= L; ++la) for (unsigned lb = 0; lb <= L; ++lb) for (unsigned x = 0; x < (1u << la); ++x) for (unsigned y = 0; y < (1u << lb); ++y) {
        string a, b; for (unsigned k = 0; k < la; ++k) a += x >> k & 1 ? 'r' : 's'; for (unsigned k = 0; k < lb; ++k) b += y >> k & 1 ? 'r' : 's';
        if (a.find('r') == a.npos && b.find('r') == b.npos) continue; if (!completes(a, b)) continue;
        for (int o = 0; o < 2; ++o) small.push_back({a, b, o, int(small.size() % 3)}); }
    explore("exchanges", small, 0);
    { vector<Sc> s; for (auto& x: small) if (x.a.size() + x.b.size() <= (T ? 7u : 6u)) s.push_back(x); explore("spurious", s, T ? 2 : 1); }
    // longer conversations in the style of the debug protocol: request/answer, unsolicited stop notices, pipelined requests
    for (auto [a, b]: vector<std::pair<string,string>>{{"srsrsrsr", "rsrsrsrs"}, {"rsrsrrsr", "srsrssrs"}, {"ssssssrrrrrr", "rrrrrrssssss"}, {"ssrsrr", "rsrrss"}, {"rrrrrrrr", "ssssssss"}, {"srrsrr", "rssrss"}, {"rsrsrsrrsrs", "srsrsrssrsr"}})
        for (int o = 0; o < 2; ++o) for (int c = 0; c < 3; ++c) big.push_back({a, b, o, c});
    explore("conversations", big, 1, T ? 3 : 2);
    return X.finish("every pair of send/receive sequences of bounded length that can complete, on both messenger classes, under every schedule of the real messengers (scheduling points: every lock, wait, notify, atomic operation; every choice of woken thread; spurious wake-ups); unordered conflicting memory accesses, deadlock, loss, duplication, reordering or change of a message is a violation",
        {"one thread per end, as in the debugger", "sequentially consistent memory between synchronisation points, justified by the race check in every schedule"});
}
