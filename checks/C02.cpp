// C02: line editing. Every typed byte is echoed, backspace/DEL takes back exactly one character, cursor escapes are
// swallowed, and the command receives exactly the edited line.
#include "worlds.h"
#include "dims.h"
#include "explore.h"
using namespace mc;

static World world(long in) {
    World w;
    w.in = in; w.out = 32; w.path = 16; w.gexec = true;
    w.mount("/", {Fx("a", X_ARG), Fx("b", X_SILENT)});
    return w;
}
static Env &env(long in) { return fresh("w" + num(in), [=] { return world(in); }); }

static Explorer tiny() {
    Explorer x;
    x.make = [](const vector<long> &n) { static std::map<long, World> ws; ws[n[0]] = world(n[0]); auto e = std::make_unique<Env>(ws[n[0]]); e->drive(); return e; };
    x.acts = [](const vector<long> &n) {
        vector<Action> a;
        static const vector<vector<string>> sets = {
            {"a", "\x7f", "\r"}, {"a", "\x08", "\x1b", "[", "\r"}, {"a", " ", "\x08", "\x03", "\n"}, {"a", "\"", "\\", "\x7f", "\r"}};
        for (auto &s : sets[n[1]]) a.push_back(send_act(s));
        return a;
    };
    x.max_states = 60000;
    return x;
}

int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C02";
    ck.bounds = "all key sequences up to length 6 (quick) / 7 over {a, b, space, BS, DEL, ESC, '[', 'O', CR}; all 256 byte values in 6 line positions, all "
                "256x256 byte pairs after ESC; typed length x erased length x retyped length sweeps for several buffer sizes; 8 editing keys on a line of every length up to 600 (1100); exact-state fixpoint exploration with tiny buffers; lines of 65530..66000 characters; sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(2, tier == "thorough", sink);
        session_cases({SES_EDIT, SES_ESC, SES_EMPTY}, sink);
        bool T = tier == "thorough";
        for (long k : {(long)HUGE_EDIT}) sink(Case("huge", {k}));
        for (long in : {2, 3, 4, 5, 6}) for (long set = 0; set < 4; set++) if (T || in <= 4) sink(Case("bfs", {in, set}));
        // every byte value at different places of a line
        for (int b = 0; b < 256; b++)
            for (int pos = 0; pos < 6; pos++) {
                string l = "a b c";
                l.insert(pos, 1, (char)b);
                sink(Case("line", {24}, l + "\rb x\r"));
                sink(Case("line", {24}, l + "\x7f\x08z\rb y\r"));
            }
        // escape sequences: everything that can follow ESC
        for (int b1 = 0; b1 < 256; b1++) sink(Case("esc", {24, b1}));
        // long runs of escapes and edits
        for (int n = 0; n < 40; n++)
            for (const char *s : {"\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1bOA", "\x1bOH", "\x1b\x1b[A", "a\x08", "ab\x7f\x7f", "\x08", "\x7f"}) {
                sink(Case("line", {24}, "b" + rep(s, n) + "q\rb r\r"));
                sink(Case("line", {24}, rep(s, n) + "b q\rb r\r"));
            }
        // typed length, erased length, retyped length
        for (long in : T ? vector<long>{8, 9, 16, 24, 64, 130} : vector<long>{8, 16, 24})
            for (long n = 0; n <= 3 * in + 2; n++)
                for (long m : {0L, 1L, 2L, n / 2, n - 1, n, n + 1, n + 300})
                    for (long k : {0L, 1L, 3L, in - 3, in - 1}) if (m >= 0 && k >= 0) sink(Case("edit", {in, n, m, k}));
        // one editing key on a line of every length
        for (long in : T ? vector<long>{258, 600, 1100} : vector<long>{258, 600})
            for (long n = 0; n < in; n++) for (long key = 0; key < 8; key++) if (T || in == 258 ? true : key < 2 || n > 250) sink(Case("key", {in, n, key}));
        // long histories of lines
        for (long n : {3, 100, 260, 600}) sink(Case("hist", {16, n}));
        // all short key sequences
        static const vector<string> keys = {"a", "b", " ", "\x08", "\x7f", "\x1b", "[", "O", "\r"};
        sequences(keys.size(), 1, T ? 7 : 6, [&](const vector<int> &v) {
            string s;
            for (int i : v) s += keys[i];
            return sink(Case("line", {8}, s + "\r"));
        });
        // all short texts around the buffer size
        static const vector<string> k2 = {"a", "bcd", "\x08", "\x1b[A", "\r"};
        sequences(k2.size(), 1, T ? 8 : 7, [&](const vector<int> &v) {
            string s;
            for (int i : v) s += k2[i];
            return sink(Case("line", {6}, s + "\n"));
        });
    };
    ck.run = [](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        if (c.kind == "huge") return run_huge(c.n[0]);
        if (c.kind.rfind("bfs", 0) == 0) return explore(tiny(), c);
        Env &e = env(c.n[0]);
        if (c.kind == "line") e.send(c.s);
        else if (c.kind == "esc") {
            for (int b2 = 0; b2 < 256 && e.err.empty(); b2++)
                e.send(string("b k\x1b") + (char)c.n[1] + (char)b2 + "m\rb n\r");
        } else if (c.kind == "edit") {
            string s;
            for (long i = 0; i < c.n[1]; i++) s += (char)('a' + i % 26);
            s += rep("\x7f", c.n[2]);
            for (long i = 0; i < c.n[3]; i++) s += (char)('A' + i % 26);
            e.send(s + "\rb end\r");
        } else if (c.kind == "key") {
            static const char *keys[] = {"\x08", "\x7f", "\x1b[A", "\x1bOHz", "\x03" "b", "\x08\x08yz", "\x7f\x7f\x7f \x08", " \x08\x08q r"};
            string s = "b ";
            for (long i = 2; i < c.n[1]; i++) s += (char)(i % 9 == 8 ? ' ' : 'a' + i % 26);
            s.resize(c.n[1]);
            e.send(s + keys[c.n[2]] + "\rb end\r");
        } else if (c.kind == "hist") {
            for (long i = 0; i < c.n[1] && e.err.empty(); i++) e.send("a v" + num(i) + (i % 3 ? "" : "x\x08") + "\r");
        }
        outcome(e);
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
