// C05: path resolution and the current directory.
#include "worlds.h"
#include "dims.h"
using namespace mc;
static World world() {
    World w;
    w.in = 64; w.out = 40; w.path = 32; w.gexec = false;
    auto l = [](const char *t) { return List{Fr("f", t), Fx("g", X_PRINT), Fr("a", string("file-a-") + t)}; };
    w.mount("/", l("root"));
    w.mount("/a", l("A"));
    w.mount("/a/b", l("AB"));
    w.mount("/a/a", l("AA"));
    w.mount("/b", l("B"));
    w.mount("/a/b/a", l("ABA"));
    w.mount("/ab", l("-ab"));
    w.mount("/a.b", l("-a.b"));
    return w;
}
static const vector<string> cwds = {"/", "/a", "/a/b", "/a/a", "/b", "/a/b/a", "/ab"};
static World deep(long n, long pmax) {
    World w;
    w.in = 400; w.out = 40; w.path = pmax;
    string p = "/";
    w.mount(p, {Fr("f", "0")});
    for (long i = 1; i <= n; i++) { p = path_join(p, string(1, 'a' + i % 26) + (i % 5 ? "" : "yz")); w.mount(p, {Fr("f", num(i))}); }
    return w;
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C05";
    ck.bounds = "all path strings up to length 6 (quick) / 8 (thorough) over {/ . a b} from 7 working directories for cd, ls, cat and execution, each followed by pwd; all cd sequences of "
                "length 3/4 over 14 paths; all component sequences of length 5/6 over 6 components; directory chains of depth 0..60; path limits 2..40 against paths of every length around the limit and file names of every length around it in 3 directories; pairs of directory names up to length 18 (30) and of 31..80 that differ in one position; paths of 131072 characters, a chain of 300 levels; sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    // what an empty component (doubled separator) means is not documented, so such paths are left to C01
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> all) {
        auto sink = [all](const Case &c) { return c.s.find("//") != string::npos || all(c); };
        dim_cases(5, tier == "thorough", sink);
        bool T = tier == "thorough";
        session_cases({SES_CD}, sink);
        for (long k : {(long)HUGE_PATH, (long)HUGE_LEVELS, (long)HUGE_HOST}) sink(Case("huge", {k}));
        for (long n = 0; n <= 60; n++) sink(Case("deep", {n}));
        for (long pm = 2; pm <= 40; pm++) sink(Case("limit", {pm}));
        for (long pm = 6; pm <= (T ? 60 : 24); pm++) sink(Case("names", {pm}));
        for (long pm = 2; pm <= 14; pm++) for (long k = 1; k < 30; k++) sink(Case("limit2", {pm, k}));
        sequences(14, 1, T ? 4 : 3, [&](const vector<int> &v) { string s; for (int i : v) s += (char)('0' + i); return sink(Case("cds", {}, s)); });
        // component sequences, absolute and relative, with and without trailing slash
        static const vector<string> comp = {"a", "b", ".", "..", "...", "ab", ""};
        sequences(comp.size(), 1, T ? 6 : 5, [&](const vector<int> &v) {
            string s;
            for (size_t i = 0; i < v.size(); i++) s += (i ? "/" : "") + comp[v[i]];
            if (s.empty()) return true;
            if (!sink(Case("path", {2}, s))) return false;
            return sink(Case("path", {0}, "/" + s + "/"));
        });
        sequences(4, 1, T ? 8 : 6, [&](const vector<int> &v) {
            string s;
            for (int i : v) s += "/.ab"[i];
            for (long c = 0; c < (long)cwds.size(); c++) if (!sink(Case("path", {c}, s))) return false;
            return true;
        });
        near_cases(T ? 30 : 18, [&](long l, long k, long v) { return sink(Case("near", {l, k, v, 0})) && sink(Case("near", {l, k, v, 1})); });
        for (const char *s : {".a", "..a", "a.", "a..", "...", "....", "a.b", "a.b/..", "..b/a", ".b/..", "a/..b", "a/...", "a/b../", "a/.../..", "/..a", "/...", "a/./b", "/./a", "/../a", "\"a b\""})
            for (long c = 0; c < (long)cwds.size(); c++) sink(Case("path", {c}, s));
    };
    ck.run = [](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        if (c.kind == "huge") return run_huge(c.n[0]);
        if (c.kind == "deep") {
            Env &e = fresh("deep" + num(c.n[0]), [&] { return deep(c.n[0], 200); });
            string all;
            for (auto &kv : e.m.tree) { e.send("cd " + kv.first + "\rpwd\rcat f\rls\r"); if (!e.err.empty()) return e.err; all = kv.first.size() > all.size() ? kv.first : all; }
            e.send("cd " + all + "\r");
            for (long i = 0; i <= c.n[0] + 1 && e.err.empty(); i++) e.send("cat f\rcd ..\rpwd\r");
            for (long i = 1; i <= c.n[0] && e.err.empty(); i++) { string n = string(1, 'a' + i % 26) + (i % 5 ? "" : "yz"); e.send("cd " + n + "\rpwd\rcat ./f\r"); }
            if (e.err.empty()) e.send("cd " + rep("../", std::min<long>(c.n[0] + 2, 90)) + "\rpwd\r");
            outcome(e);
            return e.err;
        }
        if (c.kind == "limit") {
            Env &e = fresh("lim" + num(c.n[0]), [&] { return deep(12, c.n[0]); });
            for (auto &kv : e.m.tree) {
                for (auto &p : {kv.first, kv.first + "/f", kv.first + "/", kv.first + "/..", "/nope/.." + kv.first, kv.first + "/nonexistent-directory-name"})
                    for (auto &cmd : {"cd ", "ls ", "cat ", "cd /\rcd .", ""})
                        if (e.err.empty()) e.send(cmd + string(p) + "\rpwd\r");
            }
            return e.err;
        }
        if (c.kind == "limit2") {       // relative paths of every length from directories of every depth
            Env &e = fresh("lim2" + num(c.n[0]), [&] { return deep(6, c.n[0]); });
            string d = "/";
            for (long i = 0; i < 7 && e.err.empty(); i++) {
                e.send("ls " + rep("x", c.n[1]) + "\rcat " + rep("y", c.n[1]) + "\r" + rep("z", c.n[1]) + "\rcd " + rep("./", c.n[1]) + "\rcat " + rep("./", c.n[1]) + "f\rpwd\r");
                e.send("cd " + string(1, 'a' + (i + 1) % 26) + (((i + 1) % 5) ? "" : "yz") + "\r");
            }
            return e.err;
        }
        if (c.kind == "names") {        // directories whose files have names of every length, around the limit
            Env &e = fresh("nam" + num(c.n[0]), [&] {
                World w;
                w.in = 200; w.out = 40; w.path = c.n[0];
                for (const char *d : {"/", "/d", "/d/ef"}) {
                    List l;
                    for (long n = c.n[0] + 3; n > 0; n--) l.push_back(Fr(rep("n", n), d + num(n)));
                    l.push_back(Fx("z", X_PRINT));
                    w.mount(d, l);
                }
                return w;
            });
            for (const char *d : {"/", "/d/", "/d/ef/"}) for (long n = 1; n <= c.n[0] + 3 && e.err.empty(); n++) {
                string f = rep("n", n);
                e.send(string("cd ") + d + "\rcat " + f + "\rcat ./" + f + "\rcat " + d + f + "\rz\r" + f + "\rcd /\rcat " + d + f + "\rcat " + (d + 1) + f + "\rz\r");
            }
            outcome(e);
            return e.err;
        }
        if (c.kind == "near") {
            auto p = near_names(c.n[0], c.n[1], c.n[2]);
            string a = c.n[3] ? p.second : p.first, b = c.n[3] ? p.first : p.second;
            World w;
            w.in = 300; w.out = 40; w.path = 200;
            w.mount("/", {Fr("f", "r")});
            w.mount("/" + a, {Fr("f", "A")});
            w.mount("/" + b, {Fr("f", "B")});
            w.mount("/" + a + "/" + b, {Fr("f", "AB")});
            w.mount("/" + b + "/" + b, {Fr("f", "BB")});
            w.mount("/" + b + "/" + a, {Fr("f", "BA")});
            Env e(w);
            e.drive();
            for (auto &n : {a, b}) if (e.err.empty()) e.send("cd " + n + "\rpwd\rcat f ../" + n + "/f " + b + "/f\rls /" + n + "\rcd ../" + b + "/" + n + "\rpwd\rls ..\rcd /" + n + "/" + n + "\rpwd\rcd /\r");
            outcome(e);
            return e.err;
        }
        Env &e = fresh("w", world);
        if (c.kind == "cds") {
            static const char *p[] = {"..", ".", "/", "a", "b", "a/b", "../b", "../a", "/a/b/a", "nope", "./a/../b/.", "../..", "f", "/ab/"};
            for (char ch : c.s) e.send(string("cd ") + p[ch - '0'] + "\rpwd\r");
            if (e.err.empty()) e.send("ls\rcat f\r");
            outcome(e);
            return e.err;
        }
        e.send("cd " + cwds[c.n[0]] + "\rcd " + c.s + "\rpwd\r");
        if (e.err.empty()) e.send("cd " + cwds[c.n[0]] + "\rls " + c.s + "\rcat " + c.s + "\rcat " + c.s + "/f\r" + c.s + "/g\r");
        outcome(e);
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
