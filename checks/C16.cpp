// C16: completion. TAB extends the last word by what all candidates share and nothing else, lists them when they
// share nothing more, never touches the rest of the line, and what is then executed is what is shown.
#include "stepx.h"
#include "dims.h"
using namespace mc;
static const vector<string> &names() {
    static vector<string> v;
    if (v.empty()) sequences(2, 1, 3, [&](const vector<int> &x) { string s; for (int i : x) s += "ab"[i]; v.push_back(s); return true; });
    return v;
}
// placement digits: 0 command, 1 file here, 2 directory here, 3 file in another directory
static World place(const vector<long> &n) {
    World w;
    w.in = 40; w.out = 40; w.path = 32;
    List here, cmds; vector<string> dirs;
    for (size_t i = 0; i + 1 < n.size(); i += 2) {
        const string &s = names()[n[i]];
        switch (n[i + 1]) {
        case 0: cmds.push_back(Fx(s, X_ARG)); break;
        case 1: here.push_back(Fx(s, X_PRINTF)); break;
        case 2: dirs.push_back(s); break;
        default: break;
        }
    }
    w.mount("/", {Fx("x", X_SILENT)});
    if (here.empty()) w.mount("/d"); else w.mount("/d", here);
    for (auto &s : dirs) w.mount("/d/" + s);
    List other;
    for (size_t i = 0; i + 1 < n.size(); i += 2) if (n[i + 1] == 3) other.push_back(Fx(names()[n[i]], X_PRINT));
    if (other.size()) w.mount("/e", other);
    if (cmds.size()) w.group(cmds);
    return w;
}
static World sized(long in, long len, long two) {
    World w;
    w.in = in; w.out = 40; w.path = 32;
    string n = rep("kmnopqrstu", len / 10 + 1).substr(0, len);
    List l = {Fx(n, X_ARG)};
    if (two) { l.push_back(Fx(n + "A", X_PRINT)); l.push_back(Fx(n + "BB", X_PRINT)); }
    w.mount("/", l);
    return w;
}
static World many(long n) {
    World w;
    w.in = 40; w.out = 40; w.path = 32;
    List l, g;
    for (long i = 0; i < n; i++) { l.push_back(Fx("zf" + num(i), X_PRINT)); g.push_back(Fx("zc" + num(i), X_PRINT)); }
    if (n) { w.mount("/", l); w.group(g); } else w.mount("/");
    for (long i = 0; i < n; i++) w.mount("/zd" + num(i));
    return w;
}
static Explorer typing() {
    Explorer x;
    x.make = [](const vector<long> &n) {
        static std::map<long, World> ws;
        World w = tree_world();
        w.lists[0].push_back(Fx("abc", X_PRINT)); w.lists[0].push_back(Fx("abd", X_PRINT)); w.lists[0].push_back(Fx("b", X_ARG));
        w.in = n[0]; ws[n[0]] = w;
        auto e = std::make_unique<Env>(ws[n[0]]);
        e->drive();
        return e;
    };
    x.acts = [](const vector<long> &n) {
        static const vector<vector<string>> sets = {{"a", "b", "\x09", "\x08", "\r"}, {"a", " ", "\x09", "\x7f", "c"}, {"d", "e", "\x09", "/", "\x08"}, {"\x1b", "a", "\x09", "[", "\x03"}};
        vector<Action> a;
        for (auto &s : sets[n[1]]) a.push_back(send_act(s));
        return a;
    };
    return x;
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C16";
    ck.bounds = "every set of 1..3 of the 14 names over {a,b} up to 3 letters, each placed as command, file here, directory here or file elsewhere; all 15 prefixes, alone and behind other words, with 1-2 TABs, more typing, erasing and Enter; names of every length "
                "against lines of every length around the input size for 6 buffer sizes; 0..120 candidates of each kind; exact-state exploration of typing with TAB (buffers of 4..10 bytes); 65540 candidates, common beginnings of 3000 characters; sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(16, tier == "thorough", sink);
        session_cases({SES_TAB}, sink);
        bool T = tier == "thorough";
        for (long k : {(long)HUGE_TAB, (long)HUGE_TAB2, (long)HUGE_TAB3, (long)HUGE_TAB4}) sink(Case("huge", {k}));
        for (long in = 4; in <= 10; in++) for (long s = 0; s < 4; s++) sink(Case("bfs", {in, s, T ? 100000 : 5000}));
        for (long n = 0; n <= 270; n++) if (T || n < 24 || n % 12 == 0 || (n > 80 && n < 90) || (n > 250 && n < 260)) sink(Case("many", {n}));
        for (long in : {8L, 9L, 12L, 16L, 20L, 33L}) for (long len = 1; len <= in + 3; len++) for (long pre = 0; pre <= len; pre++) for (long two = 0; two < 2; two++) sink(Case("size", {in, len, pre, two}));
        const long N = names().size();
        for (long a = 0; a < N; a++) for (long pa = 0; pa < 4; pa++) {
            sink(Case("set", {a, pa}));
            for (long b = a; b < N; b++) for (long pb = 0; pb < 4; pb++) {
                sink(Case("set", {a, pa, b, pb}));
                if (a == b) continue;
                sink(Case("set", {b, pb, a, pa}));
                for (long c = b + 1; c < N; c++) for (long pc = 0; pc < 4; pc++) if (T || (a + b + c + pa + pb + pc) % 3 == 0) sink(Case("set", {a, pa, b, pb, c, pc}));
            }
        }
    };
    ck.run = [](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        if (c.kind == "huge") return run_huge(c.n[0]);
        if (c.kind.rfind("bfs", 0) == 0) { Explorer x = typing(); x.max_states = c.n[2]; return explore(x, c); }
        if (c.kind == "many") {
            World w = many(c.n[0]);
            Env e(w);
            e.drive();
            e.send("z\x09\x09\x08zf\x09\x09\x03zc\x09\x09" "1\x09\rzd1\x09\x09\x03\x09");
            outcome(e);
            return e.err;
        }
        if (c.kind == "size") {
            Env &e = fresh("s" + num(c.n[0]) + "," + num(c.n[1]) + "," + num(c.n[3]), [&] { return sized(c.n[0], c.n[1], c.n[3]); });
            string n = rep("kmnopqrstu", c.n[1] / 10 + 1).substr(0, c.n[1]);
            for (long lead = 0; lead <= c.n[0] && e.err.empty(); lead++) {
                // some other word, then the prefix, TAB, look at the line by running it
                string l = rep("w", lead ? lead - 1 : 0) + (lead ? " " : "") + n.substr(0, c.n[2]);
                if ((long)l.size() >= c.n[0] - 1) break;
                e.send(l + "\x09\x09");
                if (e.err.empty()) e.send("\x08" "k\r\x03");
                if (e.err.empty()) e.send(l + "\x09\r\x03");
            }
            outcome(e);
            return e.err;
        }
        static std::unique_ptr<Env> keep;
        World w = place(c.n);
        Env e(w);
        e.drive();
        e.send("cd d\r");
        for (size_t i = 0; i <= names().size() && e.err.empty(); i++) {
            string p = i ? names()[i - 1] : "";
            e.send(p + "\x09" "1\r");
            if (e.err.empty()) e.send(p + "\x09\x09\r");
            if (e.err.empty()) e.send("q " + p + "\x09\x08\x09 x\r");
            if (e.err.empty()) e.send("a b " + p + "\x09 \x09\x03");
        }
        outcome(e);
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
