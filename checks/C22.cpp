// C22: every build configuration gives a working shell: it compiles, and does exactly what the enabled features promise;
// disabled commands do not exist, disabled completion ignores TAB, disabled styles print no escapes.
#include "stepx.h"
#include "dims.h"
using namespace mc;
static World world(long which) {
    World w = tree_world();
    w.out = std::max<size_t>({64, MC_XXD_COLS * 3 + 2, MC_ALIGN + 10});
    if (which == 1) { w.groups.clear(); w.gexec = true; }
    if (which == 2) w.out = std::max<size_t>({(size_t)26, (size_t)MC_XXD_COLS * 3 + 2, (size_t)MC_ALIGN + 10});
    if (which >= 3) {                          // the smallest output buffer the configuration accepts, and one more
        size_t n = 4;
        if (MC_COMMANDS && (MC_CMDSET & 0x03)) n = std::max<size_t>(n, MC_ALIGN + (MC_STYLES ? 5 : 0) + 4);
        if (MC_COMMANDS && (MC_CMDSET & 0x20)) n = std::max<size_t>(n, MC_XXD_COLS > 3 ? MC_XXD_COLS * 3 + 2 : 11);
        w.out = n + which - 3;
    }
    return w;
}
static vector<string> lines() {
    auto v = command_lines();
    for (const char *s : {"h\x09\r", "l\x09\r", "c\x09\x09\r", "p\x09\r", "x\x09\r", "e\x09\x09 q\r", "r\x09\x09\r", "\x09", "ls /\r", "help help\r", "help cd\r", "help pwd\r", "help cat\r", "help xxd\r", "help echo\r", "cd dev\rls ..\r", "xxd /dev/time\r",
                          "cd /dev2\rcat led\r", "echo \\xff\\x80\\x7f > var\rxxd var\rcat var\r", "\xe9\xff q\r", "echo \xc3\xa9 \r", "run \x80\xff\r"}) v.push_back(s);
    return v;
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C22";
    ck.bounds = "37 configurations in quick (each single feature off, each single command off, each single command alone, column widths 1..100, alignments 1..100, translated texts, assertions off, platform header, and 5 compilers and ABI variants: unsigned char, short enums, gcc -O2 and -Os, clang -O3) and all 127 command subsets in thorough; per configuration the "
                "banner, all single inputs and all ordered pairs of 69 inputs in 5 worlds, two of them with the smallest output buffer the configuration accepts and one byte more; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more)";
    auto ls = lines();
    ck.enumerate = [ls](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(22, false, sink, tier == "thorough");
        for (long w = 0; w < 5; w++) sink(Case("boot", {w}));
        for (long w = 0; w < 5; w++) sequences(ls.size(), 1, 2, [&](const vector<int> &v) { vector<long> n = {w}; for (int i : v) n.push_back(i); return sink(Case("lines", n)); });
    };
    ck.run = [ls](const Case &c) -> string {
        dim_min_out() = world(2).out;
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "boot") { World w = world(c.n[0]); Env e(w); e.drive(); if (e.err.empty()) e.send("pwd\r\rcd dev\rx\x03"); return e.err; }
        Env &e = fresh("w" + num(c.n[0]), [&] { return world(c.n[0]); });
        for (size_t i = 1; i < c.n.size() && e.err.empty(); i++) e.send(ls[c.n[i]]);
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
