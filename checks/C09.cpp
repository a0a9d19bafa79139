// C09: ls shows exactly what is there.
#include "worlds.h"
#include "dims.h"
using namespace mc;
static FSpec file(long bits, const string &name) {
    FSpec f = F(name);
    f.r = bits & 1; f.w = bits & 2; f.x = bits & 4 ? X_PRINT : X_NONE;
    if (bits & 8) f = H(f, "help\r\n");
    if (bits & 16) f = D(f, "desc " + name);
    return f;
}
static string listing(const World &w, const vector<string> &cmds) {
    Env e(w);
    e.drive();
    for (auto &c : cmds) if (e.err.empty()) e.send(c + "\r");
    outcome(e);
    return e.err;
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C09";
    ck.bounds = "all pairs of the 32 file kinds (permissions x help x description); name lengths 0..2*buffer+3 with and without description for several output buffer sizes; description lengths 0..300; "
                "0..300 files and 0..300 sub directories; all ordered directory trees up to 6 nodes listed at every node by absolute, relative and implicit path; a directory of 65540 files, names and descriptions of 66000 characters; sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(9, tier == "thorough", sink);
        session_cases({SES_LS}, sink);
        bool T = tier == "thorough";
        for (long k : {(long)HUGE_FILES, (long)HUGE_NAMES, (long)HUGE_NAMES2}) sink(Case("huge", {k}));
        for (long a = 0; a < 32; a++) for (long b = 0; b < 32; b++) sink(Case("kinds", {a, b}));
        for (long out : T ? vector<long>{26, 27, 28, 29, 30, 31, 32, 33, 40, 64, 100, 257} : vector<long>{26, 29, 32, 33, 64, 100, 300})
            for (long n = 0; n <= 2 * out + 3; n++) { sink(Case("name", {out, n})); }
        for (long n = 0; n <= 300; n++) sink(Case("desc", {n}));
        for (long n = 0; n <= 300; n += (n < 40 || T ? 1 : n == 254 || n == 255 || n == 256 ? 1 : 2)) { sink(Case("files", {n})); sink(Case("dirs", {n})); sink(Case("both", {n})); }
        // trees: parent of node i (1..k) is v[i] < i
        for (long k = 1; k <= (T ? 7 : 6); k++) {
            vector<int> v(k, 0);
            for (;;) {
                string s;
                for (int i : v) s += (char)('0' + i);
                sink(Case("tree", {}, s));
                int i = k - 1;
                while (i >= 0 && ++v[i] > i) v[i--] = 0;
                if (i < 0) break;
            }
        }
        for (long a = 0; a < 4; a++) sequences(7, 0, 3, [&](const vector<int> &v) { string s; for (int i : v) s += (char)('0' + i); return sink(Case("args", {a}, s)); });
    };
    ck.run = [](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        if (c.kind == "huge") return run_huge(c.n[0]);
        World w;
        w.in = 64; w.out = 40; w.path = 40;
        if (c.kind == "kinds") {
            w.mount("/", {file(c.n[0], "first"), file(c.n[1], "second")});
            w.mount("/d", {file(c.n[1], "u")});
            return listing(w, {"ls", "ls d", "cd d", "ls", "ls /"});
        }
        if (c.kind == "name") {
            w.out = c.n[0];
            string n = rep("abcdefghij", c.n[1] / 10 + 1).substr(0, c.n[1]);
            w.mount("/", {D(Fr(n, "x"), "described"), F("y" + n), D(Fr("z" + n, "x"), ""), F("q")});
            return listing(w, {"ls", "ls"});
        }
        if (c.kind == "desc") {
            w.mount("/", {D(Fr("f", "x"), rep("0123456789", c.n[0] / 10 + 1).substr(0, c.n[0])), F("after")});
            return listing(w, {"ls"});
        }
        if (c.kind == "files" || c.kind == "dirs" || c.kind == "both") {
            long nf = c.kind == "dirs" ? 0 : c.n[0], nd = c.kind == "files" ? 0 : c.n[0];
            List l;
            for (long i = 0; i < nf; i++) l.push_back(file(i * 7, "f" + num(i)));
            w.mount("/", {F("one")});
            if (nf) w.mount("/p", l); else w.mount("/p");
            for (long i = 0; i < nd; i++) w.mount("/p/d" + num(i));
            return listing(w, {"ls p", "cd p", "ls", "ls .", "ls /"});
        }
        if (c.kind == "tree") {
            vector<string> path = {"/"};
            w.path = 64;
            w.mount("/", {F("f0")});
            for (size_t i = 0; i < c.s.size(); i++) {
                path.push_back(path_join(path[c.s[i] - '0'], string(1, 'a' + i)));
                if (i % 2) w.mount(path.back()); else w.mount(path.back(), {F("f" + num(i))});
            }
            vector<string> cmds;
            for (auto &p : path) { cmds.push_back("ls " + p); cmds.push_back("cd " + p); cmds.push_back("ls"); cmds.push_back("ls .."); cmds.push_back("ls " + path.back()); }
            return listing(w, cmds);
        }
        static const char *words[] = {"dev", "..", "/", "nope", "ro", ".", "\"\""};
        static const char *cw[] = {"/", "/dev", "/dev/bus", "/etc"};
        Env &e = fresh("t", tree_world);
        string s = string("cd ") + cw[c.n[0]] + "\rls";
        for (char ch : c.s) s += string(" ") + words[ch - '0'];
        e.send(s + "\rls\r");
        outcome(e);
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
