// Explicit-state exploration of the real shell: every action is applied to a snapshot of every reachable state
// (object, buffers, mounted nodes, library globals, file contents, and the reference model), states are
// deduplicated on their exact memory image plus the model state, and a path is kept for replay.
#pragma once
#include "core.h"

namespace mc {
struct Action { string name; std::function<void(Env &)> f; };

struct Explorer {
    std::function<std::unique_ptr<Env>(const vector<long> &)> make;
    std::function<vector<Action>(const vector<long> &)> acts;
    std::function<void(Env &)> invariant;          // may call e.fail
    std::function<string(Env &)> extra;            // harness state that belongs to the key
    std::function<void(Env &, const string &)> set_extra;
    size_t max_states = 200000; int max_depth = 1000000;
};

// case kinds: "<k>" explores, "<k>@" replays the action path in c.s (two bytes per action)
inline string explore(const Explorer &x, const Case &c) {
    bool replay = !c.kind.empty() && c.kind.back() == '@';
    auto e = x.make(c.n);
    auto acts = x.acts(c.n);
    if (!e->err.empty()) return "during setup: " + e->err;
    auto act_at = [&](const string &s, size_t i) { return (size_t)((unsigned char)s[i] * 256 + (unsigned char)s[i + 1]); };
    auto describe = [&](const string &p) {
        string r;
        for (size_t i = 0; i + 1 < p.size(); i += 2) r += (i ? ", " : "") + acts[act_at(p, i)].name;
        return r;
    };
    if (replay) {
        for (size_t i = 0; i + 1 < c.s.size(); i += 2) {
            acts[act_at(c.s, i)].f(*e);
            if (e->err.empty() && x.invariant) x.invariant(*e);
            if (!e->err.empty()) return "after [" + describe(c.s.substr(0, i + 2)) + "]: " + e->err;
        }
        return "";
    }
    struct N { uint32_t parent; uint16_t act; uint16_t depth; };
    vector<N> nodes;
    std::deque<std::pair<uint32_t, Env::Snap>> frontier;
    std::deque<string> fextra;
    std::unordered_set<uint64_t> seen;
    auto key = [&](Env &v) {
        string k = v.memory();
        uint64_t h = hash_str(k);
        for (auto &l : v.fdata) for (auto &f : l) h = hash_bytes(f.data(), f.size(), h ^ 0x77);
        string m = v.m.state();
        for (size_t i = v.m.qh; i < v.m.q.size(); i++) { m += v.m.q[i].cb ? '<' : '.'; if (v.m.q[i].cb) m += v.m.cbs[v.m.q[i].id]; else m += v.m.q[i].ch; }
        m += v.offered ? string("!") + v.offered_ch : string("");
        if (x.extra) m += "#" + x.extra(v);
        return hash_bytes(m.data(), m.size(), h);
    };
    auto path = [&](uint32_t n) {
        string p;
        while (n) { string a; a += (char)(nodes[n].act >> 8); a += (char)(nodes[n].act & 255); p = a + p; n = nodes[n].parent; }
        return p;
    };
    nodes.push_back({0, 0, 0});
    seen.insert(key(*e)); stats().state(key(*e));
    frontier.push_back({0, e->snap()});
    fextra.push_back(x.extra ? x.extra(*e) : "");
    bool bounded = false;
    Case pc(c.kind + "@", c.n);
    while (!frontier.empty()) {
        uint32_t id = frontier.front().first;
        Env::Snap s = std::move(frontier.front().second);
        string ex = std::move(fextra.front());
        frontier.pop_front(); fextra.pop_front();
        if ((int)nodes[id].depth >= x.max_depth) { bounded = true; continue; }
        string p = path(id);
        for (size_t a = 0; a < acts.size(); a++) {
            e->restore(s);
            if (x.set_extra) x.set_extra(*e, ex);
            pc.s = p; pc.s += (char)(a >> 8); pc.s += (char)(a & 255);
            stats().current(pc);
            acts[a].f(*e);
            if (e->err.empty() && x.invariant) x.invariant(*e);
            if (!e->err.empty()) return "after [" + describe(pc.s) + "]: " + e->err;
            stats().validated++;
            uint64_t k = key(*e);
            if (!seen.insert(k).second) continue;
            stats().state(k);
            if (nodes.size() >= x.max_states) { bounded = true; continue; }
            nodes.push_back({id, (uint16_t)a, (uint16_t)(nodes[id].depth + 1)});
            frontier.push_back({(uint32_t)(nodes.size() - 1), e->snap()});
            fextra.push_back(x.extra ? x.extra(*e) : "");
        }
    }
    if (bounded) stats().bounded++; else stats().fixpoints++;
    return "";
}
inline Action send_act(const string &s) { return {"\"" + vis(s) + "\"", [s](Env &e) { e.send(s); }}; }
} // namespace mc
