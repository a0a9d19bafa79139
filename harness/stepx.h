// Exploration at the level of single service calls: the environment's answer (byte available or not, write accepted
// or refused) is chosen anew at every call, and the shell's exact states are explored to a fixpoint, so every
// pattern of refusals of any length is covered for the given input.
#pragma once
#include "explore.h"
#include "worlds.h"

namespace mc {
// case numbers: world id, allow read refusal, state cap; the input is given by table index n[3]
struct StepX {
    std::function<World(long)> world;
    std::function<string(long)> script;
    bool refuse_write = true, refuse_read = false;
    Explorer make() const {
        Explorer x;
        auto self = *this;
        x.make = [self](const vector<long> &n) {
            static std::map<long, World> ws;
            if (!ws.count(n[0])) ws[n[0]] = self.world(n[0]);
            auto e = std::make_unique<Env>(ws[n[0]]);
            if (n[3] >= 0) { e->drive(); e->input = self.script(n[3]); e->ipos = 0; }
            return e;
        };
        x.acts = [self](const vector<long> &n) {
            vector<Action> a;
            auto act = [](const char *name, bool rd, bool wr) {
                return Action{name, [rd, wr](Env &e) {
                    e.read_ready = [rd] { return rd; };
                    e.write_ready = [wr] { return wr; };
                    bool r = e.step();
                    if (!e.err.empty()) return;
                    if (!r && (e.n_read && !e.starved)) { e.fail("service read a byte and reported 'nothing to do'"); return; }
                    if (!r && (e.n_write || !e.m.queue_empty())) { e.fail("service reported 'nothing to do' with output pending: " + e.pending()); return; }
                    if (e.starved && r) { e.fail("service reported progress although no input was available"); return; }
                    if (e.starved && !e.m.queue_empty()) e.fail("shell asks for input with output missing: " + e.pending());
                }};
            };
            a.push_back(act("ready", true, true));
            if (self.refuse_write) a.push_back(act("write refused", true, false));
            if (self.refuse_read) a.push_back(act("no input yet", false, true));
            return a;
        };
        x.extra = [](Env &e) { return num(e.ipos); };
        x.set_extra = [self](Env &e, const string &s) { e.input = cur(); e.ipos = atol(s.c_str()); };
        return x;
    }
    static string &cur() { static string s; return s; }
    string run(const Case &c) const {
        cur() = c.n[3] >= 0 ? script(c.n[3]) : "";
        Explorer x = make();
        x.max_states = c.n[2];
        return explore(x, c);
    }
};
// refuse the write attempts listed (index of attempt -> how often), accept all others; same for reads
struct Pattern {
    std::map<long, long> w, r; long wn = 0, rn = 0, wleft = -1, rleft = -1;
    long every_w = 0, every_r = 0;       // this many refusals before each accepted byte
    void attach(Env &e) {
        e.write_ready = [this] { return go(wn, wleft, w, every_w); };
        e.read_ready = [this] { return go(rn, rleft, r, every_r); };
    }
    static bool go(long &n, long &left, std::map<long, long> &m, long every) {
        if (left < 0) { auto it = m.find(n); left = every + (it == m.end() ? 0 : it->second); }
        if (left > 0) { left--; return false; }
        left = -1; n++;
        return true;
    }
};
} // namespace mc
