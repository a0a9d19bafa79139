// C11: xxd shows offset, hex and text of every byte of the file.
#include "worlds.h"
#include "dims.h"
using namespace mc;
static World one(const string &data, size_t out) {
    World w;
    w.in = 64; w.out = out; w.path = 32;
    w.mount("/", {Fr("f", data), Fr("t", "tail")});
    return w;
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C11";
    ck.bounds = "for row widths 8, 1, 3, 4 and 16: file sizes 0..1100 (quick) / 0..5000 (thorough) and around 2^12, 2^16 (offset of more than four digits); every byte value at every column of a row and in last, partly "
                "filled rows; all pairs of byte values from {NUL, 1f, 20, 7e, 7f, 80, ff, '%', '\\\\'}; empty file and getter that sets no pointer; output buffer at its minimum; sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(11, tier == "thorough", sink);
        session_cases({SES_XXD}, sink);
        bool T = tier == "thorough";
        for (long n = 0; n <= (T ? 5000 : 1100); n++) sink(Case("size", {n}));
        for (long b : {4096L, 65536L}) for (long d = -17; d <= 17; d++) if (T || d % 8 == 0 || d == 1 || d == -1) sink(Case("size", {b + d}));
        if (T) sink(Case("size", {1100000}));
        for (long b = 0; b < 256; b++) for (long pos = 0; pos < 20; pos++) sink(Case("byte", {b, pos}));
        for (long a = 0; a < 9; a++) for (long b = 0; b < 9; b++) for (long pos = 0; pos < 18; pos++) sink(Case("pair", {a, b, pos}));
        sink(Case("nil", {}));
    };
    ck.run = [](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        size_t minout = std::max<size_t>(MC_XXD_COLS * 3 + 2, std::max<size_t>(MC_ALIGN + 10, 11));
        if (c.kind == "nil") {
            World w;
            w.out = minout;
            FSpec nil = Fr("nil", ""); nil.nullget = 1;
            FSpec zero = Fr("e", ""); zero.nullget = 2;
            w.mount("/", {nil, zero, Fw("w"), Fr("x", "x")});
            Env e(w);
            e.drive();
            e.send("xxd nil\rxxd e\rxxd nil\rxxd x\rxxd nil\rxxd w\rxxd nope\rxxd\rxxd x x\rxxd /\r");
            return e.err;
        }
        string data;
        static const unsigned char vals[] = {0, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0xff, '%', '\\'};
        if (c.kind == "size") for (long i = 0; i < c.n[0]; i++) data += (char)(i * 5 + i / 256 * 3 + i / 65536 * 7);
        if (c.kind == "byte") { data = rep("a", c.n[1]) + (char)c.n[0] + rep("b", (c.n[0] + c.n[1]) % 9); }
        if (c.kind == "pair") { data = rep("a", c.n[2]) + (char)vals[c.n[0]] + (char)vals[c.n[1]]; }
        World w = one(data, c.n[0] % 2 ? minout : 80);
        Env e(w);
        e.drive();
        e.send("xxd f\r", 40000000);
        if (e.err.empty()) e.send("xxd t\r");
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
