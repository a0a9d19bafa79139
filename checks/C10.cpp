// C10: cat delivers every byte of every readable file, in argument order, and nothing else.
#include "worlds.h"
#include "dims.h"
using namespace mc;
static string pattern(long size, long kind) {
    string s(size, 0);
    uint32_t x = 12345 + (uint32_t)kind;
    for (long i = 0; i < size; i++) {
        switch (kind) {
        case 0: s[i] = (char)(i * 7 + i / 256); break;                 // all byte values, NULs included
        case 1: s[i] = 0; break;
        case 2: s[i] = (char)0xff; break;
        case 3: s[i] = "ab\r\n\0\x1b[0m%s%n\\"[i % 13]; break;
        default: x = x * 1664525u + 1013904223u; s[i] = (char)(x >> 24); break;
        }
    }
    return s;
}
static World one(const string &data) {
    World w;
    w.in = 64; w.out = 40; w.path = 32;
    w.mount("/", {Fr("f", data), Fr("t", "tail")});
    w.mount("/d", {Fr("f", "other")});
    return w;
}
static const vector<string> names = {"r", "s", "b", "z", "nil", "rw", "d/r", "/d/n", "v"};
static World many() {
    World w;
    w.in = 96; w.out = 40; w.path = 32;
    FSpec nil = Fr("nil", ""), zero = Fr("z", ""); nil.nullget = 1; zero.nullget = 2;
    w.mount("/", {Fr("r", "r-data\r\n"), Fr("s", "s"), Fr("b", string("\0\1\2\xff\r\n\0", 7)), zero, nil, Frw("rw", "old"), Fw("w"), F("none"), Fx("x", X_PRINT)});
    w.mount("/d", {Fr("r", "d/r-data"), Fr("n", rep("0123456789", 30))});
    w.group({Fr("v", "global\r\n"), Fx("cmd", X_SILENT)});
    return w;
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C10";
    ck.bounds = "file sizes 0..600 (quick) / 0..2100 (thorough) and around 2^8, 2^12, 2^15, 2^16, 2^17 for 3/5 contents (all byte values, all NUL, all 0xFF, control sequences); one file with each single byte value; "
                "all argument lists of length 1..4 (quick) / 1..5 over 9 readable files from two directories and the global group, incl. empty files and getters that set no pointer or a null pointer; 1..40 times the same file; "
                "all lists of length 1..3 over {readable, writable only, bare, executable, missing, directory}; reads after writes; a table of 65540 files; sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(10, tier == "thorough", sink);
        session_cases({SES_CAT}, sink);
        bool T = tier == "thorough";
        for (long k : {(long)HUGE_RUN}) sink(Case("huge", {k}));
        for (long n = 0; n <= (T ? 2100 : 600); n++) for (long k = 0; k < (T ? 5 : 2); k++) sink(Case("size", {n, T || k == 0 ? k : 3}));
        for (long b : {1000L, 1024L, 4096L, 32768L, 65536L, 131072L}) for (long d : {-1L, 0L, 1L}) for (long k = 0; k < (T ? 5 : 1); k++) sink(Case("size", {b + d, k}));
        if (T) sink(Case("size", {300000, 0}));
        for (long b = 0; b < 256; b++) for (long n : {1L, 3L}) sink(Case("byte", {b, n}));
        sequences(names.size(), 1, T ? 5 : 4, [&](const vector<int> &v) { string s; for (int i : v) s += (char)('0' + i); return sink(Case("list", {0}, s)); });
        for (long n = 1; n <= 40; n++) sink(Case("same", {n}));
        static const vector<string> mixed = {"r", "w", "none", "x", "nope", "d", "v"};
        sequences(mixed.size(), 1, T ? 4 : 3, [&](const vector<int> &v) { string s; for (int i : v) s += (char)('0' + i); return sink(Case("mixed", {0}, s)); });
        for (long n = 0; n <= 40; n++) sink(Case("rw", {n}));
    };
    ck.run = [](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        if (c.kind == "huge") return run_huge(c.n[0]);
        if (c.kind == "size" || c.kind == "byte") {
            World w = one(c.kind == "size" ? pattern(c.n[0], c.n[1]) : rep(string(1, (char)c.n[0]), c.n[1]));
            Env e(w);
            e.drive();
            e.send("cat f\r", 6000000);
            if (e.err.empty()) e.send("cat t f d/f t\r", 6000000);
            return e.err;
        }
        Env &e = fresh("many", many);
        if (c.kind == "list") {
            string l = "cat";
            for (char ch : c.s) l += " " + names[ch - '0'];
            e.send(l + "\r");
            if (e.err.empty()) e.send("cd d\rcat r ../r n\r");
        } else if (c.kind == "same") {
            string l = "cat";
            for (long i = 0; i < c.n[0]; i++) l += " s";
            e.send(l + "\r");
        } else if (c.kind == "mixed") {
            static const char *mixed[] = {"r", "w", "none", "x", "nope", "d", "v"};
            string l = "cat";
            for (char ch : c.s) l += string(" ") + mixed[ch - '0'];
            e.send(l + "\rcat r\r");
        } else {
            e.send("cat rw\recho " + rep("q", c.n[0]) + "\\x00\\x41 > rw\rcat rw s rw\recho new > rw\rcat rw\r");
            outcome(e);
        }
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
