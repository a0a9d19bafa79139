// C03: splitting a line into arguments.
#include "worlds.h"
#include "dims.h"
#include "explore.h"
using namespace mc;
static World world(long in) {
    World w;
    w.in = in; w.out = 32; w.path = 24; w.gexec = true;
    w.mount("/", {Fx("a", X_SILENT)});
    w.group({Fx("go", X_SILENT)});
    return w;
}
static vector<string> huge() {
    return {"go " + rep("w", 65533), "go " + rep("w", 66000) + " v", "go" + rep(" a", 32769), "go " + rep("a b ", 16500), "go" + rep(" a", 65536), "go" + rep(" a", 65537), "go \"" + rep("q ", 33000) + "\" z", rep("w", 65537), "go" + rep(" ", 65600) + "x"};
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C03";
    ck.bounds = "all lines up to length 7 (quick) / 8 (thorough) over {a, b, space, quote, backslash, x, '} and length 9/10 over {a, space, quote, backslash}; every byte value inside, "
                "before and after a word, quotes and a backslash; argument counts 0..620, around 32768 and around 65536; words and lines beyond 65536 characters; word lengths to the buffer size; pairs of words built from 16 fragments; sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(3, tier == "thorough", sink);
        session_cases({SES_ARGS}, sink);
        bool T = tier == "thorough";
        // lines and argument counts beyond 16 bits
        for (long i = 0; i < (long)huge().size(); i++) sink(Case("huge", {131600, i}));
        for (long in = 65530; in <= 65545; in += 3) sink(Case("huge", {in, -1}));
        for (int b = 0; b < 256; b++)
            for (const char *f : {"go a?b c", "go ?", "?", "go \"a?b\" c", "go \"?", "go \\?b c", "go a\\?b", "go \"a\\?b\" c", "go a ?b", "go a? b", "go \"\"? b", "go a\"?\"b c", "go  ?  ?", "? go"}) {
                string l;
                for (const char *p = f; *p; p++) l += *p == '?' ? (char)b : *p;
                sink(Case("line", {64}, l));
            }
        for (long n = 0; n <= 620; n++) {
            sink(Case("line", {1400}, "go" + rep(" a", n)));
            if (n < 300 || T) {
                sink(Case("line", {1400}, "go" + rep("  \"b c\"", n % 180)));
                sink(Case("line", {1400}, rep("w", n) + " " + rep("v", n)));
                sink(Case("line", {1400}, "go" + rep(" ", n) + "x" + rep(" ", n)));
                sink(Case("line", {1400}, "go \"" + rep("q ", n) + "\""));
                sink(Case("line", {1400}, "go " + rep("\\y", n) + " z"));
                sink(Case("line", {1400}, "go " + rep("\\x41", n % 320) + " z"));
                sink(Case("line", {1400}, "go " + rep("\"\" ", n) + " z"));
            }
        }
        for (long in : {4, 5, 6, 8, 12, 16, 33}) for (long n = 0; n + 2 <= in; n++)
            for (const char *f : {"a", "a ", "\"", "\\", "\\x", "\" ", " "}) {
                string l = rep(f, n);
                l.resize(std::min<size_t>(l.size(), in - 2));
                sink(Case("line", {in}, l));
            }
        static const vector<string> frag = {"a", "go", "\"a b\"", "\"\"", "\\\"", "\\\\", "\\x41", "\"\\x4\"", "a\"b", "\"a\"\"b\"", "\\ ", "\"", "\\", "'a b'", "a\\ b", "\"a\\\"b\""};
        sequences(frag.size(), 1, 4, [&](const vector<int> &v) {
            string s;
            for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + frag[v[i]];
            return sink(Case("line", {64}, s));
        });
        static const char *al = "ab \"\\x'";
        sequences(7, 1, T ? 8 : 7, [&](const vector<int> &v) {
            string s;
            for (int i : v) s += al[i];
            return sink(Case("line", {16}, s));
        });
        static const char *al2 = "a \"\\";
        sequences(4, 8, T ? 11 : 9, [&](const vector<int> &v) {
            string s;
            for (int i : v) s += al2[i];
            return sink(Case("line", {16}, s));
        });
    };
    ck.run = [](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        long in = c.n[0];
        Env &e = fresh("w" + num(in), [=] { return world(in); });
        static const vector<string> hl = huge();
        e.send((c.kind != "huge" ? c.s : c.n[1] < 0 ? "go b " + rep("c", in - 7) : hl[c.n[1]]) + "\r");
        if (e.err.empty()) e.send(string("go b") + (in > 8 ? " c" : "") + "\n");
        stats().state(hash_str(e.memory()));
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
