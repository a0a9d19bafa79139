// C08: the registry of global commands: groups come and go in any order, the newest group wins, nothing else changes.
#include "worlds.h"
#include "dims.h"
#include "explore.h"
using namespace mc;
static World mkworld() {
    World w;
    w.in = 48; w.out = 40; w.path = 24;
    w.lists.push_back({Fx("x", X_PRINT), H(D(Fx("one", X_ARG), "first"), "h1\r\n")});
    w.lists.push_back({D(Fx("x", X_PRINT_NN), "dx"), Fx("two", X_ARG)});
    w.lists.push_back({F("x"), H(D(Fx("ls", X_PRINT), "shadow ls"), "own ls\r\n"), Fx("three", X_SILENT)});
    w.lists.push_back({Fx("one", X_PRINT_NN), Fx("f", X_ARG), Fx("four", X_ARG), Fx("x", X_SILENT)});
    w.mount("/", {Fx("x", X_STATUS), Fx("f", X_PRINT), Fr("file", "content")});
    w.mount("/d", {Fx("two", X_PRINT), Fx("x", X_PRINT)});
    return w;
}
static const int NG = 4;
static void probe(Env &e) {
    e.send("help\r");
    for (const char *l : {"x a\r", "one a\r", "two a\r", "three\r", "four b\r", "f c\r", "ls\r", "help x\r", "help one\r", "help ls\r", "pwd\r", "cat file\r", "o\x09\r", "cd d\rtwo\rx q\rcd ..\r", "\x09\r"})
        if (e.err.empty()) e.send(l);
}
static void add(Env &e, int i) {
    bool present = std::find(e.m.groups.begin(), e.m.groups.end(), i + 1) != e.m.groups.end();
    if (present) return;
    int got = ush_commands_add(e.o, e.gnodes[i], e.lists[i], e.list_size(i));
    if (got) e.fail("adding a command group failed");
    e.m.groups.insert(e.m.groups.begin(), i + 1);
}
static void rem(Env &e, int i) {
    auto it = std::find(e.m.groups.begin(), e.m.groups.end(), i + 1);
    int want = it == e.m.groups.end() ? S_NODE_NOT_FOUND : S_OK;
    if (it != e.m.groups.end()) e.m.groups.erase(it);
    int got = ush_commands_remove(e.o, e.gnodes[i]);
    if (got != want) e.fail(string("removing a command group returned '") + status_text(got) + "', expected '" + status_text(want) + "'");
}
static Explorer ex() {
    Explorer x;
    static World w = mkworld();
    x.make = [](const vector<long> &) {
        auto e = std::make_unique<Env>(w);
        for (int i = 0; i < NG; i++) e->gnodes.push_back(Env::new_node());
        e->drive();
        probe(*e);
        return e;
    };
    x.acts = [](const vector<long> &) {
        vector<Action> a;
        for (int i = 0; i < NG; i++) {
            a.push_back({"add " + num(i), [i](Env &e) { add(e, i); }});
            a.push_back({"remove " + num(i), [i](Env &e) { rem(e, i); }});
        }
        return a;
    };
    x.invariant = probe;
    return x;
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C08";
    ck.bounds = "every sequence of add/remove over 4 groups with overlapping names, to a fixpoint over exact states, with help, dispatch, per-command help and completion read back after each step; "
                "removal of every pair out of 1..10 groups; groups of 1..300 commands; group nodes holding garbage or reused after removal; a group of 65540 commands; sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(8, tier == "thorough", sink);
        session_cases({SES_GROUP}, sink);
        for (long k : {(long)HUGE_GROUP}) sink(Case("huge", {k}));
        sink(Case("bfs", {tier == "thorough" ? 100000 : 20000}));
        for (long n = 1; n <= 10; n++) for (long k = 0; k < n; k++) for (long j = 0; j < n; j++) sink(Case("many", {n, k, j}));
        for (long n : {1L, 2L, 31L, 255L, 256L, 257L, 300L}) sink(Case("big", {n}));
        for (long f : {0L, 0xffL, 0xa5L}) for (long n = 1; n < 5; n++) sink(Case("fill", {f, n}));
        for (long n = 1; n < 6; n++) for (long t : {2L, 100L, 300L}) sink(Case("reuse", {n, t}));
    };
    ck.run = [](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        if (c.kind == "huge") return run_huge(c.n[0]);
        if (c.kind.rfind("bfs", 0) == 0) { Explorer x = ex(); x.max_states = c.n[0]; return explore(x, c); }
        World w;
        w.in = 48; w.out = 40; w.path = 24;
        w.mount("/", {Fx("r", X_PRINT)});
        if (c.kind == "many" || c.kind == "fill" || c.kind == "reuse") {
            long n = c.kind == "fill" ? c.n[1] : c.n[0];
            for (long i = 0; i < n; i++) w.lists.push_back({Fx("c" + num(i), X_ARG), Fx("all", i % 2 ? X_PRINT : X_PRINT_NN)});
            w.mounts[0].second = 0;
            Env e(w, false);
            for (long i = 0; i <= n; i++) { auto p = Env::new_node(); if (c.kind == "fill") memset(p, c.n[0], sizeof *p); e.gnodes.push_back(p); }
            e.begin();
            e.drive();
            for (long i = 0; i < n && e.err.empty(); i++) { add(e, i + 1 <= n ? i + 1 : n); }
            auto q = [&] { if (e.err.empty()) e.send("help\rall x\rr\r"); for (long i = 0; i < n && e.err.empty(); i++) e.send("c" + num(i) + " v\r"); };
            q();
            if (c.kind == "many") { rem(e, c.n[1] + 1); q(); rem(e, c.n[2] + 1); q(); if (e.err.empty()) { add(e, c.n[1] + 1); q(); } }
            if (c.kind == "reuse") for (long t = 0; t < c.n[1] && e.err.empty(); t++) { rem(e, 1 + t % n); add(e, 1 + t % n); if (t < 5 || t % 50 == 0) q(); }
            outcome(e);
            return e.err;
        }
        List l;
        for (long i = 0; i < c.n[0]; i++) l.push_back(i % 2 ? D(Fx("k" + num(i), X_ARG), "d" + num(i)) : Fx("k" + num(i), X_SILENT));
        w.group(l);
        w.group({Fx("k0", X_PRINT)});
        Env e(w);
        e.drive();
        e.send("help\r");
        for (long i = 0; i <= c.n[0] && e.err.empty(); i++) e.send("k" + num(i) + " z\r");
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
