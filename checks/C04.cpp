// C04: which file a command word runs, in which order callbacks happen, and what is reported otherwise.
#include "worlds.h"
#include "dims.h"
using namespace mc;
// digits in base 4 for: newest group, older group, cwd, parent of cwd, root, sub directory; 0 absent, 1 not executable, 2 executable, 3 twice (plain first)
static World world(long code, long gexec) {
    World w;
    w.in = 64; w.out = 40; w.path = 40; w.gexec = gexec;
    auto list = [&](int k, const char *other) {
        List l;
        l.push_back(Fx(string(other) + "1", X_PRINT_NN));
        if (k == 1) l.push_back(F("x"));
        if (k == 2) l.push_back(Fx("x", X_ARG));
        if (k == 3) { l.push_back(F("x")); l.push_back(Fx("x", X_PRINT)); }
        l.push_back(Fx("xy", X_SILENT));
        return l;
    };
    int d[6];
    for (int i = 0; i < 6; i++) { d[i] = code % 4; code /= 4; }
    w.mount("/", list(d[4], "r"));
    w.mount("/p", list(d[3], "p"));
    w.mount("/p/c", list(d[2], "c"));
    w.mount("/p/c/s", list(d[5], "s"));
    if (d[1]) { w.group(d[1] == 1 ? List{F("x"), Fx("o", X_PRINT)} : d[1] == 2 ? List{Fx("o", X_PRINT), Fx("x", X_ARG)} : List{F("x"), Fx("x", X_PRINT)}); }
    if (d[0]) { w.group(d[0] == 1 ? List{Fx("n", X_PRINT), F("x")} : d[0] == 2 ? List{Fx("x", X_PRINT), Fx("n", X_PRINT)} : List{F("x"), Fx("x", X_PRINT)}); }
    return w;
}
static World many(long n) {
    World w;
    w.in = 64; w.out = 40; w.path = 40; w.gexec = true;
    List l, g;
    for (long i = 0; i < n; i++) { l.push_back(i % 3 ? Fx("f" + num(i), X_ARG) : F("f" + num(i))); g.push_back(Fx("g" + num(i), X_SILENT)); }
    w.mount("/", l);
    w.mount("/d", l);
    if (n) w.group(g);
    return w;
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C04";
    ck.bounds = "all 4^6 placements of one name over two command groups, current/parent/root/sub directory (absent, not executable, executable, duplicated) x 14 ways to write the name x "
                "with/without general callback; every index of file tables with up to 300 entries; all names of up to 3 letters against a table of prefixes; argument counts; all pairs of names up to length 20 (30) and of 31..80 that differ in one position by letter, case, end or top bit; a table of 65540 files and names of 66000 characters; sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(4, tier == "thorough", sink);
        session_cases({SES_RUN, SES_ERR}, sink);
        bool T = tier == "thorough";
        for (long k : {(long)HUGE_RUN, (long)HUGE_NAMES}) sink(Case("huge", {k}));
        for (long code = 0; code < 4096; code++) for (long g = 0; g < 2; g++) if (T || g == 1 || code % 3 == 0) sink(Case("place", {code, g}));
        for (long n : {0L, 1L, 2L, 15L, 16L, 17L, 255L, 256L, 257L, 300L})
            for (long i = 0; i <= n + 1; i++) sink(Case("many", {n, i}));
        sequences(4, 0, 4, [&](const vector<int> &v) { string s; for (int i : v) s += "lsxh"[i]; return sink(Case("pre", {}, s)); });
        for (int b = 1; b < 256; b++) sink(Case("pre", {}, string("ls") + (char)b));
        for (long n = 0; n < 28; n++) sink(Case("args", {n}));
        near_cases(T ? 30 : 20, [&](long l, long k, long v) { return sink(Case("near", {l, k, v, 0})) && sink(Case("near", {l, k, v, 1})); });
        for (const char *s : {"LS", "Ls", "lS", "PWD", "ls/", "/ls", "./ls", "ls.", ".ls", "help/", "l", "lss", "pw", "pwdd"}) sink(Case("pre", {}, s));
    };
    ck.run = [](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        if (c.kind == "huge") return run_huge(c.n[0]);
        if (c.kind == "place") {
            World w = world(c.n[0], c.n[1]);
            Env e(w);
            e.keep = true;
            e.send("cd p/c\r");
            for (const char *n : {"x", "./x", "../x", "/x", "/p/x", "/p/c/x", "s/x", "s/../x", "x/", "./s/./x", "xy", "o q", "n", "c1 z"})
                if (e.err.empty()) e.send(string(n) + " arg\r");
            if (e.err.empty()) e.send("cd /\rx k\r./x\rp/c/x m\rp/xy\rls1\r");
            outcome(e);
            return e.err;
        }
        if (c.kind == "many") {
            long n = c.n[0];
            Env &e = fresh("m" + num(n), [=] { return many(n); });
            string i = num(c.n[1]);
            e.send("f" + i + " a\rg" + i + " b c\r/d/f" + i + "\r./f" + i + " \"q r\"\rcd d\rf" + i + "\r../f" + i + " z\r");
            outcome(e);
            return e.err;
        }
        if (c.kind == "near") {
            auto p = near_names(c.n[0], c.n[1], c.n[2]);
            string a = c.n[3] ? p.second : p.first, b = c.n[3] ? p.first : p.second;
            World w;
            w.in = 200; w.out = 40; w.path = 120; w.gexec = true;
            w.mount("/", {Fx("r" + a, X_PRINT), Fx("r" + b, X_ARG)});
            w.mount("/d", {Frw("e" + a, "a"), Frw("e" + b, "b")});
            w.group({Fx("g" + a, X_PRINT), Fx("g" + b, X_SILENT)});
            Env e(w);
            e.drive();
            for (auto &n : {a, b}) if (e.err.empty()) e.send("r" + n + " q\r/r" + n + "\rg" + n + "\rcat d/e" + n + "\recho z > /d/e" + n + "\rcd /d\rcat e" + n + "\r../r" + n + "\rcd /\r");
            outcome(e);
            return e.err;
        }
        if (c.kind == "args") {
            Env &e = fresh("t", tree_world);
            e.send("run" + rep(" a", c.n[0]) + "\rver" + rep(" b", c.n[0]) + "\rreboot" + rep(" b", c.n[0]) + "\rpwd" + rep(" c", c.n[0]) + "\r");
            return e.err;
        }
        Env &e = fresh("pre", [] {
            World w = tree_world();
            w.gexec = true;
            w.group({Fx("l", X_PRINT), Fx("lsx", X_SILENT), Fx("lsh", X_PRINT_NN), Fx("h", X_SILENT), F("xl"), Fx("xls", X_ARG)});
            w.mount("/s", {Fx("sx", X_PRINT), Fx("s", X_PRINT_NN)});
            return w;
        });
        e.send(c.s + " q\r" + c.s + "\rcd s\r" + c.s + "\r./" + c.s + "\r");
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
