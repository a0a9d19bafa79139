// C01: memory safety. Whatever bytes arrive, with whatever legal buffer sizes, the shell stays inside its buffers,
// never crashes and always comes back to reading. Oracle: address/undefined-behaviour sanitizers on exact-size
// buffers, read-only pages for user constants, hang detection. Output contents are not judged here.
#include "worlds.h"
#include "explore.h"
#include "dims.h"
using namespace mc;

static World world(const vector<long> &n) {          // in, out, path, variant
    World w;
    w.in = n[0]; w.out = n[1]; w.path = n[2]; w.fill = 0xA5;
    switch (n[3]) {
    case 0:
        w.mount("/", {Fx("a", X_ARG), Frw("b", "xyz")});
        break;
    case 1:
        w.mount("/", {Fx("aa", X_PRINTF2), H(D(Frw("ab", "data"), "descr"), "help\r\n")});
        w.mount("/aa", {Fr("ac", rep("0123456789", 7))});
        w.mount("/aa/ab");
        break;
    case 2:
        w.mount("/", {D(Fr(rep("n", n[1]), "q"), "d"), Fr(rep("m", n[1] - 1), "q"), D(Fr(rep("k", 17), "q"), rep("d", 90)), Fx("p", X_PRINTF)});
        w.mount("/" + rep("dir", 12), {Fr("x", "")});
        w.group({D(Fx(rep("cmd", 30), X_PRINTF), "c"), Fx(rep("g", n[1] - 1), X_PRINTF)});
        break;
    case 3: {
        w = tree_world();
        w.in = n[0]; w.out = n[1]; w.path = n[2]; w.fill = 0xA5;
        break;
    }
    case 4: {
        FSpec e = Fr("nil", ""); e.nullget = 2;
        w.mount("/", {e, Fr("", "empty-name"), H(Fx("h", X_RESET), ""), D(Fx("d", X_PRINTF2), "")});
        break;
    }
    }
    return w;
}
static Env &env(const vector<long> &n) {
    Env &e = fresh(num(n[0]) + "," + num(n[1]) + "," + num(n[2]) + "," + num(n[3]), [&] { return world(n); });
    e.lockstep = false;
    return e;
}
static Explorer tiny() {
    Explorer x;
    x.make = [](const vector<long> &n) {
        static std::map<vector<long>, World> ws;
        ws[n] = world(n);
        auto e = std::make_unique<Env>(ws[n]);
        e->lockstep = false; e->drive();
        return e;
    };
    x.acts = [](const vector<long> &n) {
        vector<Action> a;
        vector<vector<string>> sets = {
            {"a", "/", ".", "\x09", "\x08", "\r", string(1, 0)},
            {"a", " ", "\"", "\\", "\r", "\x03", string(1, 0)},
            {"a", "\x1b", "[", "\x09", "\x7f", "\n"},
            {"ls ", "cat ", "a", "/", "..", "\x09", "\r"},
            {"echo ", "xxd ", "b", "\\x4", " > ", "\r"},
        };
        for (auto &s : sets[n[4]]) a.push_back(send_act(s));
        return a;
    };
    return x;
}

int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C01";
    ck.bounds = "exact-state exploration (to fixpoint or state cap) with input buffers of 2..7 bytes and 5 alphabets incl. NUL, TAB, ESC; every command line of a battery, "
                "truncated at every length and padded, for input sizes 2..40 x output sizes x path limits; all byte sequences up to length 6/7 over 7 bytes; all byte pairs; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> sink) {
        bool T = tier == "thorough";
        dim_cases(1, T, sink);
        for (long in = 2; in <= (T ? 7 : 5); in++)
            for (long var : {0L, 1L}) for (long set = 0; set < 5; set++) sink(Case("bfs", {in, 26, in % 2 ? 4 : 2, var, set, T ? 400000 : 12000}));
        for (long var : {0L, 1L}) for (long set : {3L, 4L}) sink(Case("bfs", {12, 26, 5, var, set, T ? 200000 : 12000}));
        auto lines = command_lines();
        for (string l : {"nnn\x09\r", "mm\x09\r", "cmd\x09\x09\r", "di\x09\r", "d\x09", "g\x09\x09\x09\r", "k x\r", "p a\r", "ls dirdirdirdirdirdirdirdirdirdirdirdir\r", "ls .//../.././/a\r",
                         "cd aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\r", "cd /a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t\r", "ls ./././././././././././././././././.\r",
                         "cat /a/../a/../a/../a/../a/../a/../a\r", "echo \\x\r", "echo \\x4\r", "echo \\\\\r", "echo \\x41\\x4\\x > b\r", "\"\r", "\"\"\r", "\\\r", "a \"\r", "cat nil\r", "xxd nil\r",
                         "cat nil nil\r", "h\r", "d x y\r", "help h\r", "help d\r", "\x09\x09\r", "./\x09\r", "/\x09\r", "../\x09\r", "ab\x09\x09\r", "aa \x09\r", "ls aa\x09\x09\r", "xxd ac\r", "cd aa\rxxd ac\rcat ac ac\rls ..\r"})
            lines.push_back(l);
        for (long li = 0; li < (long)lines.size(); li++)
            for (long in = 2; in <= 40; in++)
                for (long out : {26L, 33L}) for (long path : T ? vector<long>{2, 3, 4, 5, 8, 13, 21} : vector<long>{2, 5, 13})
                    for (long var = 0; var < 5; var++) sink(Case("line", {in, out, path, var}, lines[li]));
        // lines cut or extended around the buffer size
        for (long in : {4, 8, 16, 31}) for (long n = 0; n <= 2 * in + 3; n++)
            for (const char *f : {"a", "/", " ", "\"", "\\", ".", "a ", "a/", "../", "./", "\\x", "\x09" "a", "a\x09", "\x1b[", "\xff"})
                for (const char *t : {"\r", "\n", "\x09\r", "\x08\x09\r", "\x03"})
                    for (long var : {0L, 1L, 3L}) sink(Case("line", {in, 26, 6, var}, rep(f, n) + t + "a b\r"));
        for (int a = 0; a < 256; a++) sink(Case("pairs", {8, 26, 4, 1, a}));
        static const vector<string> keys = {"a", "/", " ", "\x09", "\x08", "\x1b", "\r"};
        sequences(keys.size(), 1, T ? 7 : 6, [&](const vector<int> &v) {
            string s;
            for (int i : v) s += keys[i];
            return sink(Case("line", {5, 26, 3, 1}, s + "\r"));
        });
        static const vector<string> k2 = {"aaa", "a", string(1, 0), "\x09", "\x7f", "\r"};
        sequences(k2.size(), 1, T ? 7 : 6, [&](const vector<int> &v) {
            string s;
            for (int i : v) s += k2[i];
            return sink(Case("line", {7, 26, 4, 1}, s + "\n"));
        });
    };
    ck.run = [](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind.rfind("bfs", 0) == 0) { Explorer x = tiny(); x.max_states = c.n[5]; return explore(x, c); }
        Env &e = env(c.n);
        if (c.kind == "pairs") {
            for (int b = 0; b < 256 && e.err.empty(); b++) e.send(string("a") + (char)c.n[4] + (char)b + "\x09\x08" + (char)b + "\r");
        } else {
            e.send(c.s);
            if (e.err.empty()) e.send(" x\x03\r");
        }
        stats().state(hash_str(e.memory()));
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
