// C23: no memory of the past. What a line does depends on the directory, the tree and the file contents only, not on
// which lines, failures, completions or interruptions came before.
#include "stepx.h"
#include "dims.h"
using namespace mc;
static World fixw() {
    World w;
    w.in = 24; w.out = 27; w.path = 16;
    w.mount("/", {Frw("v", "1"), Fr("r", "read"), Fx("run", X_PRINTF), Fx("arg", X_ARG)});
    w.mount("/d", {Fr("r", "dr")});
    w.group({D(Fx("ver", X_PRINT_NN), "version")});
    return w;
}
static const vector<vector<string>> alph = {
    {"ls\r", "cd d\r", "cd /\r", "cat r\r", "r\x09", "\r"},
    {"xxd r\r", "echo \\x41 > v\r", "echo 1 > v\r", "cat v r\r", "\x03"},
    {"help\r", "help ls\r", "ver\r", "run a\r", "arg zz\r", "arg\r"},
    {"nosuch\r", "ls nope\r", "cat v nope\r", "cd nope\r", "r x\r", "pwd\r"},
    {"v\x09", "r\x09", "\x08", "\x1b[A", "\x03", "\r"},
    {"\"a b\" c\r", "\\\r", "\"\r", "arg \"q w\"\r", "  \r", "run 1 2 3 4\r"},
    {"echo long-long-long\r", "echo\r", "echo a\r", "echo \\x4\r", "xxd v\r", "pwd\r"},
    {"ls\r", "\x09", "he\x09\r", "ls d\r", "cat r r r\r", "aaaaaaaaaaaaaaaaaaaaaaaaaaaa\r"},
};
static vector<string> reps(const vector<string> &cl) {
    vector<string> v = cl;
    for (const char *s : {"\x03", "\x09", "q\x08", "q", "d\x09", "\x1b[A", "\x1b", "\x08", "q\x03", " ", "\n", "\"", "\\", "cd dev\rcd ..\r", "ls\rnosuch\r", "cd /dev\rcat var\rcd ..\r"}) v.push_back(s);
    return v;
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C23";
    ck.bounds = "8 alphabets of 5-6 inputs: every history of any length (exact memory states explored to a fixpoint or the state cap, each transition compared with the memoryless model); all ordered pairs and triples of 47 command lines in a "
                "tree with 6 directories; all pairs (quick) / triples (thorough) of 26 lines with texts and arguments of hundreds of bytes; each of 63 inputs repeated 1..20 (thorough 70), 33..260 and, for 6 of them, 66000 times from 3 directories; (thorough) all 4-tuples of 24; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    auto cl = command_lines();
    ck.enumerate = [cl](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(23, tier == "thorough", sink);
        bool T = tier == "thorough";
        for (long i = 0; i < (long)alph.size(); i++) sink(Case("bfs", {i, T ? 200000 : 8000}));
        sequences(cl.size(), 1, 3, [&](const vector<int> &v) { vector<long> n(v.begin(), v.end()); return sink(Case("hist", n)); });
        sequences(long_lines().size() + 6, 2, 2, [&](const vector<int> &v) { vector<long> n(v.begin(), v.end()); return sink(Case("long", n)); });
        if (T) sequences(long_lines().size() + 6, 3, 3, [&](const vector<int> &v) { vector<long> n(v.begin(), v.end()); return sink(Case("long", n)); });
        // the same input again and again, then everything else
        for (long i = 0; i < (long)reps(cl).size(); i++) for (long d = 0; d < 3; d++) {
            for (long k = 1; k <= (T ? 70 : 20); k++) sink(Case("rep", {i, k, d}));
            for (long k : {33L, 64L, 100L, 129L, 260L}) sink(Case("rep", {i, k, d}));
        }
        for (long i : {0L, 3L, 5L, 7L, 50L, 52L}) sink(Case("rep", {i, 66000, 1}));
        if (T) sequences(24, 4, 4, [&](const vector<int> &v) { vector<long> n; for (int i : v) n.push_back(i * 2 % 47); return sink(Case("hist", n)); });
    };
    ck.run = [cl](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind.rfind("bfs", 0) == 0) {
            Explorer x;
            x.max_states = c.n[1];
            x.make = [](const vector<long> &) { static World w = fixw(); auto e = std::make_unique<Env>(w); e->drive(); return e; };
            x.acts = [](const vector<long> &n) { vector<Action> a; for (auto &s : alph[n[0]]) a.push_back(send_act(s)); return a; };
            return explore(x, c);
        }
        if (c.kind == "rep") {
            static const char *start[] = {"", "cd dev\r", "cd /dev/bus\r"};
            Env &e = fresh("t", tree_world);
            e.send(start[c.n[2]]);
            string s = reps(cl)[c.n[0]];
            for (long k = 0; k < c.n[1] && e.err.empty(); k++) e.send(s);
            if (e.err.empty()) e.send("\rpwd\rls\rcat var led\rhelp\rl\x09\rled q\r\x09\x08\rcd ..\rpwd\r");
            outcome(e);
            return e.err;
        }
        if (c.kind == "long") {
            Env &e = fresh("l", long_world);
            auto ll = long_lines();
            for (const char *s : {"a\r", "arg x\r", "cd /\r", "\x03", "nosuch\r", "echo \\x41 > var\r"}) ll.push_back(s);
            for (long i : c.n) if (e.err.empty()) e.send(ll[i]);
            if (e.err.empty()) e.send("\rcat /var\rls\r");
            outcome(e);
            return e.err;
        }
        Env &e = fresh("t", tree_world);
        for (long i : c.n) if (e.err.empty()) e.send(cl[i]);
        outcome(e);
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
