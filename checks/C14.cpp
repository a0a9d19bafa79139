// C14: a slow or blocked output changes nothing but the timing: no byte is lost, duplicated, reordered or altered, no
// callback is repeated, whatever pattern of refused writes the output shows.
#include "stepx.h"
#include "dims.h"
using namespace mc;
static vector<string> scripts() {
    auto v = command_lines();
    for (const char *s : {"l\x09\r", "he\x09\x09 ls\r", "\x09", "e\x09", "ls /d\x09\x09\r", "ab\x08\x7f" "c\r", "\x1b[Aq\r", "ls\rcd dev\rpwd\r", "run a\rrun\r", "x\r\n\r", "echo a > var\rcat var\r", "q\x03\x03", "cat var\rxxd var\r", "cd dev\rl\x09\x09s\r", "cd dev/bus\r\x09\x03", "cd dev\rcd bus\rls ..\rcat led ../led\r", "cd dev\rnosuch\r./led\rcd nosuch\rtime\rpwd\r", "cd dev/bus\recho z > led\rcat led\rxxd led\rhelp\r"}) v.push_back(s);
    return v;
}
static World small() {
    World w = tree_world();
    w.out = 27;
    return w;
}
static long writes_of(const string &key, const std::function<World()> &mk, const string &s) {
    static std::map<string, long> memo;
    auto it = memo.find(key + s);
    if (it != memo.end()) return it->second;
    Env &e = fresh(key, mk);
    long n = 0;
    e.write_ready = [&] { n++; return true; };
    e.read_ready = nullptr;
    e.send(s);
    e.write_ready = nullptr;
    return memo[key + s] = n;
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C14";
    ck.bounds = "for the welcome banner and 64 inputs covering every command: all patterns of refused writes of any length (exact-state exploration to a fixpoint, ready/refused chosen at each service call); additionally one stall of "
                "1..65537 refusals at every output position, the same stall before every byte, all pairs of single refusals of inputs with up to 150 output bytes (quick) / all (thorough), and every periodic pattern up to period 12; 20 lines with texts of hundreds of bytes with a stall at every output position and periodic stalls; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    auto sc = scripts();
    ck.enumerate = [sc](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(14, tier == "thorough", sink);
        bool T = tier == "thorough";
        for (long w = 0; w < 2; w++) for (long i = -1; i < (long)sc.size(); i++) sink(Case("bfs", {w, 0, 20000, i}));
        for (long i = 0; i < (long)long_lines().size(); i++) {
            for (long a = 1; a <= 20; a++) for (long b : {1L, 2L, 3L, 255L, 256L}) sink(Case("lperiod", {i, a, b}));
            long n = writes_of("l", long_world, long_lines()[i]);
            for (long k = 0; k < n; k++) for (long r : {1L, 2L, 256L}) sink(Case("lone", {i, k, r}));
        }
        for (long i = 0; i < (long)sc.size(); i++) {
            for (long r : {1L, 2L, 3L, 7L, 8L, 9L, 15L, 16L, 17L, 63L, 64L, 65L, 127L, 128L, 129L, 255L, 256L, 257L, 300L, 1000L}) sink(Case("every", {i, r}));
            for (long a = 1; a <= 12; a++) for (long b = 1; b <= 12; b++) sink(Case("period", {i, a, b}));
            long n = writes_of("t", tree_world, sc[i]);
            for (long k = 0; k < n; k++) {
                for (long r : {1L, 2L, 5L, 16L, 255L, 256L, 257L, 1000L}) sink(Case("one", {i, k, r}));
                if (k < 6 || T) { sink(Case("one", {i, k, 65535})); sink(Case("one", {i, k, 65537})); }
                if (n <= 150 || T) for (long k2 = k + 1; k2 < n; k2++) sink(Case("two", {i, k, k2}));
            }
        }
    };
    ck.run = [sc](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind.rfind("bfs", 0) == 0) {
            StepX x;
            x.world = [](long w) { return w ? small() : tree_world(); };
            x.script = [sc](long i) { return sc[i]; };
            return x.run(c);
        }
        if (c.kind == "lone" || c.kind == "lperiod") {
            Env &e = fresh("l", long_world);
            Pattern p;
            if (c.kind == "lone") p.w[c.n[1]] = c.n[2]; else for (long k = c.n[1]; k < 9000; k += c.n[1]) p.w[k] = c.n[2];
            p.attach(e);
            e.send(long_lines()[c.n[0]], 4000000);
            if (e.err.empty()) e.send("\x03pwd\rcat var\r", 4000000);
            e.write_ready = nullptr; e.read_ready = nullptr;
            return e.err;
        }
        Env &e = fresh("t", tree_world);
        Pattern p;
        if (c.kind == "one") p.w[c.n[1]] = c.n[2];
        if (c.kind == "two") { p.w[c.n[1]] = 1; p.w[c.n[2]] = 1; }
        if (c.kind == "every") p.every_w = c.n[1];
        if (c.kind == "period") for (long k = c.n[1]; k < 3000; k += c.n[1]) p.w[k] = c.n[2];
        p.attach(e);
        e.send(sc[c.n[0]], 4000000);
        if (e.err.empty()) e.send("pwd\rcat var\r", 4000000);
        e.write_ready = nullptr; e.read_ready = nullptr;
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
