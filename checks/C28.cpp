// C28: the prompt. Every answer ends with exactly one prompt made of the host name as it is at that moment and the last
// part of the current directory.
#include "stepx.h"
#include "dims.h"
using namespace mc;

static const size_t CAP = 700;
static World world(const string &host) {
    World w = tree_world();
    w.host = host; w.hostcap = CAP; w.path = 48;
    List l;
    l.push_back(Fx("host", X_HOOK));                    // exec: host := argument
    FSpec f = Frw("name", ""); f.sx = X_HOOK + 1; l.push_back(f);   // setter: host := text
    w.mount("/h", l);
    w.gexec = true;
    return w;
}
static string &next_host() { static string s; return s; }
static Env &env() {
    Env &e = fresh("w", [] { return world("start"); });
    e.hook = [](Env &v, int, int, char **) { v.set_host(next_host()); };
    e.m.hook = [](Model &m, int, const vector<string> &) { m.host = next_host(); m.prompt(); };
    e.on_gexec = nullptr; e.on_getter = nullptr; e.keep = false; e.lockstep = true; e.read_ready = e.write_ready = nullptr;
    return e;
}
static vector<string> lines() {
    vector<string> r;
    for (auto &s : command_lines()) r.push_back(s);
    for (const char *s : {"e\x09\x09", "d\x09\x09q\r", "abc\x03", "cat /dev/led /dev2/led ro\r", "ls /dev\r", "cd /dev/bus\rpwd\r"}) r.push_back(s);
    return r;
}
static const vector<string> after = {"\r", "pwd\r", "cd dev\rls\r", "cd /dev/bus/i2c\rcd ..\r", "e\x09\x09", "nosuch\r", "x\x03"};
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C28";
    ck.bounds = "host names of every length 0..300 and around 512, and of every byte value 1..255 alone, inside and at the end; as first name and as a change made by a command, a setter, the general callback, a getter and between lines, from 5 directories; a change at every service call of 55 "
                "inputs (before the prompt has begun the new name shows); directory names of every length 1..80 and byte value in the last, middle and first level, reached by every spelling of cd; each followed by 7 further inputs; refusals of every pattern on 6 host names (fixpoint); host and directory names of 66000 characters; sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    auto ls = lines();
    auto steps = [](const string &s) { Env &e = env(); uint64_t s0 = e.steps; e.send(s); return (long)(e.steps - s0); };
    ck.enumerate = [ls, steps](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(28, tier == "thorough", sink);
        session_cases({SES_HOST, SES_CD}, sink);
        bool T = tier == "thorough";
        for (long k : {(long)HUGE_HOST}) sink(Case("huge", {k}));
        vector<string> hosts;
        for (long n = 0; n <= 300; n++) { string h; for (long i = 0; i < n; i++) h += (char)('a' + i * 7 % 26); hosts.push_back(h); }
        for (long n : {511, 512, 513, 699}) hosts.push_back(rep("h", n));
        for (int b = 1; b < 256; b++) for (int k = 0; k < 4; k++) hosts.push_back(k == 0 ? string(1, (char)b) : k == 1 ? string("ab") + (char)b + "c" : k == 2 ? string("x") + (char)b : string(1, (char)b) + "%s%n\\");
        for (auto &h : hosts) { sink(Case("first", {}, h)); for (long how = 0; how < 6; how++) for (long d = 0; d < 5; d++) if (T || (how + (long)h.size()) % 5 == d) sink(Case("change", {how, d}, h)); }
        for (long i = 0; i < (long)ls.size(); i++) { long n = steps(ls[i]); for (long k = 0; k <= n; k++) for (const char *h : {"", "Z", "newhostname", "start2"}) sink(Case("step", {i, k}, h)); }
        for (long n = 1; n <= 80; n++) for (long lev = 0; lev < 3; lev++) for (long sp = 0; sp < 6; sp++) sink(Case("dir", {n, lev, sp, 'a'}));
        for (int b = 1; b < 256; b++) if (b != '/') for (long lev = 0; lev < 3; lev++) sink(Case("dir", {5, lev, 6, b}));
        for (long i = 0; i < 6; i++) sink(Case("slow", {i, 0, T ? 100000 : 20000, 0}));
    };
    static const vector<string> cds = {"", "cd dev\r", "cd /dev/bus/i2c\r", "cd /dev/bus\r", "cd etc\r"};
    auto follow = [](Env &e) { for (auto &s : after) if (e.err.empty()) e.send(s); };
    ck.run = [=](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        if (c.kind == "huge") return run_huge(c.n[0]);
        if (c.kind == "first") {
            World w = world(c.s);
            Env e(w);
            e.drive();
            follow(e);
            return e.err;
        }
        if (c.kind == "change") {
            Env &e = env();
            if (cds[c.n[1]].size()) e.send(cds[c.n[1]]);
            next_host() = c.s;
            switch (c.n[0]) {
            case 0: e.send("/h/host x\r"); break;
            case 1: e.send("echo x > /h/name\r"); break;
            case 2: e.on_gexec = [](Env &v) { v.set_host(next_host()); v.on_gexec = nullptr; }; e.m.on_gexec = [](Model &m) { m.host = next_host(); m.on_gexec = nullptr; }; e.send("pwd\r"); break;
            case 3: e.on_getter = [](Env &v, FileId) { v.set_host(next_host()); v.on_getter = nullptr; }; e.m.on_get = [](Model &m, int) { m.host = next_host(); }; e.send("cat /ro /var\r"); e.on_getter = nullptr; e.m.on_get = nullptr; break;
            case 4: e.set_host(c.s); e.m.host = c.s; break;
            case 5: e.send("pw"); e.set_host(c.s); e.m.host = c.s; e.send("d"); break;
            }
            follow(e);
            outcome(e);
            return e.err;
        }
        if (c.kind == "step") {
            Env &e = env();
            e.input = ls[c.n[0]]; e.ipos = 0;
            long k = 0;
            for (; k < c.n[1] && e.err.empty(); k++) e.step();
            if (!e.err.empty()) return e.err;
            // what is still expected of the answer under way
            string rest; size_t cbs = 0;
            for (size_t i = e.m.qh; i < e.m.q.size(); i++) { if (e.m.q[i].cb) cbs++; else rest += e.m.q[i].ch; }
            Model p = e.m; p.clear_queue(); string keep_line = p.line; p.prompt(); string oldp; for (auto &v : p.q) oldp += v.ch;
            p = e.m; p.clear_queue(); p.host = c.s; p.prompt(); string newp; for (auto &v : p.q) newp += v.ch;
            string tail = keep_line;                        // after a listing the line is shown again
            e.set_host(c.s);
            if (rest.empty()) e.m.host = c.s;
            else if (cbs) {
                // callbacks still to come: what they do does not depend on the host name; only the prompt does
                size_t at = rest.rfind(oldp);
                if (at == string::npos) { e.m.host = c.s; }
                else {
                    Model::Ev last = e.m.q.back(); (void)last;
                    size_t cut = rest.size() - at, drop = cut;
                    while (drop && !e.m.q.empty() && !e.m.q.back().cb) { e.m.q.pop_back(); drop--; }
                    e.m.host = c.s;
                    for (char ch : newp + rest.substr(at + oldp.size())) e.m.q.push_back({false, ch, 0});
                }
            } else {
                size_t at = rest.rfind(oldp);
                if (at == string::npos || at < 2) {
                    // the prompt is being written (or just about to be): any mixture of both names, then all is new
                    e.lockstep = false;
                    for (long i = 0; i < 20000; i++) { e.step(); if (e.n_read) break; }
                    if (!e.n_read) return "the shell does not finish its prompt after the host name changed";
                    e.m.clear_queue(); e.m.host = c.s; e.lockstep = true;
                    if (!e.starved) e.m.feed(e.input[e.ipos - 1]);
                } else {
                    e.m.host = c.s;
                    e.m.q.resize(e.m.q.size() - (rest.size() - at));
                    for (char ch : newp + rest.substr(at + oldp.size())) e.m.q.push_back({false, ch, 0});
                }
            }
            e.drive();
            follow(e);
            outcome(e);
            return e.err;
        }
        if (c.kind == "dir") {
            long n = c.n[0];
            string name;
            for (long i = 0; i < n; i++) name += (char)(c.n[3] == 'a' ? 'a' + i * 7 % 26 : i == 2 ? (char)c.n[3] : 'k');
            World w;
            w.in = 300; w.out = 64; w.path = 400; w.host = "h";
            vector<string> ps = c.n[1] == 0 ? vector<string>{"/" + name, "/" + name + "/in", "/" + name + "/in/deep"} : c.n[1] == 1 ? vector<string>{"/top", "/top/" + name, "/top/" + name + "/deep"} : vector<string>{"/top", "/top/in", "/top/in/" + name};
            w.mount("/", {Fx("t", X_PRINT)});
            for (auto &p : ps) w.mount(p, {Fx("u", X_SILENT)});
            Env e(w);
            e.drive();
            vector<string> sp;
            if (c.n[2] == 0) sp = {ps[0], ps[1], ps[2], ps[0]};
            if (c.n[2] == 1) sp = {ps[0].substr(1), ps[1].substr(ps[0].size() + 1), ps[2].substr(ps[1].size() + 1), "..", "..", ".."};
            if (c.n[2] == 2) sp = {ps[2] + "/..", "..", ".", ".."};
            if (c.n[2] == 3) sp = {ps[2] + "/", ps[1] + "/", ps[0] + "/", "/"};
            if (c.n[2] == 4) sp = {"." + ps[1], "../.." + ps[2], "../../../../" + ps[0].substr(1)};
            if (c.n[2] == 5) sp = {ps[2], "/nope", ps[1] + "/nope", "../../x", "."};
            if (c.n[2] == 6) { for (auto &p : ps) { if (!e.err.empty()) break; ush_node_set_current_dir(e.o, p.c_str()); e.m.api_cd(p); e.send("t\r"); e.send("\r"); } return e.err; }
            for (auto &s : sp) { if (e.err.empty()) e.send("cd " + s + "\r"); if (e.err.empty()) e.send("t\r"); if (e.err.empty()) e.send("/u\r"); }
            return e.err;
        }
        StepX x;
        static const vector<string> hs = {"", "h", "two", "a b%s", "longer-host-name", "\xff"};
        x.world = [](long i) { return world(hs[i]); };
        x.script = [](long) { return string("cd dev\r\rx\x03"); };
        x.refuse_read = true;
        return x.run(Case(c.kind, c.n, c.s));
    };
    return mc_main(argc, argv, ck);
}
