// C13: help lists every global command, and prints a file's manual verbatim.
#include "worlds.h"
#include "dims.h"
using namespace mc;
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C13";
    ck.bounds = "name lengths 0..2*buffer+3 with/without description for 4 output buffer sizes; description lengths 0..300; 0..300 commands in one group and 0..40 groups; help text of every length 0..600 and with every byte value; "
                "help for every file of a tree by absolute, relative, dotted and duplicate name; all argument lists up to length 3 over 9 words from 4 directories; a group of 65540 commands, manuals, names and descriptions of 66000 characters; sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(13, tier == "thorough", sink);
        session_cases({SES_HELP}, sink);
        bool T = tier == "thorough";
        for (long k : {(long)HUGE_GROUP, (long)HUGE_NAMES, (long)HUGE_NAMES2}) sink(Case("huge", {k}));
        for (long out : {29L, 33L, 40L, 64L, 100L, 300L}) for (long n = 0; n <= 2 * out + 3; n++) sink(Case("name", {out, n}));
        for (long n = 0; n <= 300; n++) sink(Case("desc", {n}));
        for (long n = 0; n <= 300; n++) if (T || n < 40 || n % 5 == 0 || (n > 250 && n < 260)) sink(Case("cmds", {n}));
        for (long n = 0; n <= 40; n++) sink(Case("groups", {n}));
        for (long n = 0; n <= (T ? 3000 : 600); n++) sink(Case("help", {n}));
        for (long b = 1; b < 256; b++) sink(Case("byte", {b}));
        for (long d = 0; d < 4; d++) sequences(11, 0, 3, [&](const vector<int> &v) { string s; for (int i : v) s += (char)('0' + i); return sink(Case("args", {d}, s)); });
    };
    ck.run = [](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        if (c.kind == "huge") return run_huge(c.n[0]);
        World w;
        w.in = 400; w.out = 40; w.path = 40;
        auto go = [&](const string &s) {
            Env e(w);
            e.drive();
            e.send(s, 4000000);
            return e.err;
        };
        if (c.kind == "name") {
            w.out = c.n[0];
            string n = rep("abcdefghij", c.n[1] / 10 + 1).substr(0, c.n[1]);
            w.mount("/", {H(F(n + "1"), "manual\r\n")});
            w.group({D(Fx(n, X_PRINT), "described"), Fx("y" + n, X_PRINT), D(F("z" + n), "")});
            return go("help\rhelp \"" + n + "1\"\rhelp y" + n + "\r");
        }
        if (c.kind == "desc") {
            w.mount("/", {F("f")});
            w.group({D(F("a"), rep("0123456789", c.n[0] / 10 + 1).substr(0, c.n[0])), F("b")});
            return go("help\r");
        }
        if (c.kind == "cmds" || c.kind == "groups") {
            w.mount("/", {H(F("f"), "x")});
            auto mk = [&](long i) { FSpec f = Fx("c" + num(i), X_SILENT); if (i % 3) f = D(f, "description " + num(i)); if (i % 2) f = H(f, "manual " + num(i) + "\r\n"); return f; };
            if (c.kind == "cmds") { List l; for (long i = 0; i < c.n[0]; i++) l.push_back(mk(i)); if (c.n[0]) w.group(l); }
            else for (long i = 0; i < c.n[0]; i++) w.group({mk(i), mk(i + 100)});
            string s = "help\rhelp f\r";
            for (long i = 0; i < c.n[0]; i += (c.n[0] > 30 ? 17 : 1)) s += "help c" + num(i) + "\r";
            return go(s + "help\r");
        }
        if (c.kind == "help") {
            string t;
            for (long i = 0; i < c.n[0]; i++) t += (char)(0x20 + i % 95);
            w.mount("/", {H(F("f"), t), H(Fx("g", X_PRINT), "g-help\r\n")});
            w.group({H(F("h"), t + "\r\n")});
            return go("help f\rhelp g\rhelp h\rhelp f\r");
        }
        if (c.kind == "byte") {
            w.mount("/", {H(D(F("f"), string("x") + (char)c.n[0] + "y"), string("m") + (char)c.n[0])});
            w.group({H(D(F("h"), string("x") + (char)c.n[0] + "y"), string("m") + (char)c.n[0])});
            return go("help f\rhelp h\rhelp\rls\r");
        }
        static const char *words[] = {"ls", "run", "./run", "/dev/led", "ver", "nope", "..", "help", "../run", "led", "\"\""};
        static const char *cw[] = {"/", "/dev", "/dev/bus", "/etc"};
        Env &e = fresh("t", tree_world);
        string s = string("cd ") + cw[c.n[0]] + "\rhelp";
        for (char ch : c.s) s += string(" ") + words[ch - '0'];
        e.send(s + "\r");
        outcome(e);
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
