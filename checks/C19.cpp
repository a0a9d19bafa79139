// C19: independent instances. Two shells in one program never influence each other, however their service calls are
// interleaved, also when one is serviced from inside the other's callbacks or interrupts it at any memory access.
#include "stepx.h"
using namespace mc;

// ---- preemption points: every basic block, load and store of the library (compiler instrumentation)
static long points = 0, trigger = -1;
static bool preempting = false;
static void (*preempt)() = nullptr;
static inline void point() {
    if (!in_lib() || preempting) return;
    if (points++ == trigger && preempt) {
        preempting = true;
        { Outside out_; preempt(); }
        preempting = false;
    }
}
extern "C" {
void __sanitizer_cov_trace_pc() { point(); }
void __sanitizer_cov_load1(uint8_t *) { point(); }
void __sanitizer_cov_load2(uint16_t *) { point(); }
void __sanitizer_cov_load4(uint32_t *) { point(); }
void __sanitizer_cov_load8(uint64_t *) { point(); }
void __sanitizer_cov_load16(__uint128_t *) { point(); }
void __sanitizer_cov_store1(uint8_t *) { point(); }
void __sanitizer_cov_store2(uint16_t *) { point(); }
void __sanitizer_cov_store4(uint32_t *) { point(); }
void __sanitizer_cov_store8(uint64_t *) { point(); }
void __sanitizer_cov_store16(__uint128_t *) { point(); }
}
static World worldA() { World w = tree_world(); w.in = 420; return w; }
static World worldB() {
    World w;
    w.host = "second"; w.in = 400; w.out = 33; w.path = 20;
    w.mount("/", {Frw("var", "B-var"), Fr("ro", "B-ro"), H(Fx("run", X_PRINTF), "B help\r\n"), Fx("plain", X_ARG)});
    w.mount("/dev", {Frw("led", "B-led")});
    w.mount("/etc");
    w.mount("/etc/x", {Fr("f", "B-f")});
    w.group({D(Fx("ver", X_PRINTF2), "B version"), Fx("only", X_PRINT)});
    return w;
}
static const vector<string> sA = {"ls\r", "cd dev/bus\rpwd\r", "cat ro var /dev/led\r", "xxd ro\r", "echo \\x41b > var\rcat var\r", "he\x09 ls\r", "l\x09\x09\x08\r", "run \"a b\" c\r", "fmt q\r", "ls /d\x09\r", "help\r", "nosuch\rx\x03", "./run x\rcd ..\r"};
static const vector<string> sB = {"ls /etc\r", "cd etc/x\rcat f\r", "cat ro var\r", "xxd var\r", "echo \\x5az > dev/led\rcat dev/led\r", "ver a\r", "p\x09\x09\r", "run z\r", "help run\r", "only\x09\r", "\x1b[A\"q w\"\r", "cd ../dev\recho hi\rpwd\r"};
// long inputs, only alternated: full lines, many arguments, long texts, lists and files
static const vector<string> lA = {rep("x", 390) + "\r", "run" + rep(" a", 190) + "\r", "echo " + rep("\\x41q", 70) + " > var\rxxd var\r", "cat" + rep(" ro", 60) + "\r", "cd " + rep("./", 150) + "dev\rpwd\r", rep("w", 380) + " l\x09\r"};
static const vector<string> lB = {rep("y", 380) + "\r", "run" + rep(" b", 180) + "\r", "echo " + rep("\\x5az", 60) + " > dev/led\rxxd dev/led\r", "cat" + rep(" var", 50) + "\r", "cd " + rep("./", 150) + "etc\rpwd\r", rep("v", 370) + " r\x09\r"};
static Env &A() { Env &e = fresh("A", worldA); return e; }
static Env &B() { Env &e = fresh("B", worldB); return e; }
static const string brief = "pwd\rrun 1\rcat var\r";
static const string after = "pwd\rls\rcat var ro\rhelp\rrun 1\r";
// finish both; each keeps to its own model all the time
static string finish(Env &a, Env &b) {
    a.on_io = b.on_io = nullptr; a.read_ready = b.read_ready = a.write_ready = b.write_ready = nullptr;
    if (a.err.empty()) a.drive();
    if (b.err.empty()) b.drive();
    if (a.err.empty()) a.send(brief);
    if (b.err.empty()) b.send(brief);
    return !a.err.empty() ? "first shell: " + a.err : !b.err.empty() ? "second shell: " + b.err : "";
}
static long steps_of(Env &(*f)(), const string &s) {
    static std::map<string, long> memo;
    string k = (f == A ? "A" : "B") + s;
    if (memo.count(k)) return memo[k];
    Env &e = f();
    uint64_t s0 = e.steps;
    e.send(s);
    return memo[k] = e.steps - s0;
}
static long points_of(const string &s) {
    Env &e = A();
    points = 0; trigger = -1;
    e.send(s);
    return points;
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C19";
    ck.bounds = "two live shells with different trees, buffers and inputs (13 x 12 scripts): schedules of their service calls with 2 context switches at every (quick: every second) call, with 3 switches for 13 script pairs on a stride (quick) / half of all pairs (thorough), every a:b "
                "alternation up to 4:4 for all pairs, alternations up to 3:3 with 4 offsets for 6 x 6 pairs of long inputs (full lines, 190 arguments, long texts), one shell serviced 1, 3, 12 calls or to the end inside every (quick: every fourth) i/o callback of the other; the second shell's whole script run at basic blocks, loads and stores of the first shell's run (every second point, one of the 12 scripts each, "
                "in quick, a quarter of all point x script pairs in thorough); init, deinit and reset of one, and a third shell, at every call of the other; 3..257 shells serviced in turn, at different scripts and at the same";
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> sink) {
        bool T = tier == "thorough";
        for (long i = 0; i < (long)sA.size(); i++) for (long j = 0; j < (long)sB.size(); j++) {
            for (long a = 1; a <= 4; a++) for (long b = 1; b <= 4; b++) sink(Case("alt", {i, j, a, b}));
            long na = steps_of(A, sA[i]), nb = steps_of(B, sB[j]);
            for (long k = 0; k <= na; k++) {
                if (T || (k + i + j) % 2 == 0) sink(Case("switch", {i, j, k, nb}));
                if (T || (k + i + j) % 4 == 0) for (long r : {1L, 3L, 12L, 100000L}) sink(Case("nest", {i, j, k, r}));
                if (T ? (i + j) % 2 == 0 : j == i % 12 && k % 5 == i % 5) for (long k2 = 0; k2 < nb; k2 += T ? 1 : 2) sink(Case("switch", {i, j, k, k2}));
            }
            for (long k = 0; k <= nb; k++) if (T || (k + i + j) % 2 == 0) sink(Case("switch", {i, j, 0, k}));
        }
        for (long n : {3L, 4L, 5L, 8L, 9L, 17L, 33L, 65L, 257L}) for (long i = 0; i < (n > 60 ? 4 : (long)sA.size()); i++) for (long a = 1; a <= (n > 20 ? 2 : 4); a++) for (long same = 0; same < 2; same++) sink(Case("many", {n, i, a, same}));
        for (long i = 0; i < (long)lA.size(); i++) for (long j = 0; j < (long)lB.size(); j++)
            for (long a = 1; a <= 3; a++) for (long b = 1; b <= 3; b++) for (long off = 0; off < 4; off++) sink(Case("long", {i, j, a, b, off}));
        for (long i = 0; i < (long)sA.size(); i++) {
            long na = steps_of(A, sA[i]);
            for (long k = 0; k <= na; k++) for (long what = 0; what < 4; what++) sink(Case("life", {i, k, what}));
        }
        for (long i = 0; i < (long)sA.size(); i++) {
            long n = points_of(sA[i]);
            for (long p = 0; p < n; p++) for (long j = 0; j < (long)sB.size(); j++) if (T ? (p + j) % 4 == 0 : p % 2 == i % 2 && (p / 2 + j) % 12 == 0) sink(Case("preempt", {i, j, p}));
        }
    };
    ck.run = [](const Case &c) -> string {
        if (c.kind == "many") {
            // any number of shells, serviced in turn, each at its own script (or all at the same)
            static World wa = worldA(), wb = worldB();
            vector<std::unique_ptr<Env>> v;
            for (long k = 0; k < c.n[0]; k++) {
                v.emplace_back(new Env(k % 2 && !c.n[3] ? wb : wa));
                auto &sc = k % 2 && !c.n[3] ? sB : sA;
                v[k]->input = sc[(c.n[1] + (c.n[3] ? 0 : k / 2)) % sc.size()] + "pwd\r";
            }
            size_t left = v.size();
            for (int i = 0; i < 60000 && left; i++) {
                left = 0;
                for (auto &e : v) {
                    for (long k = 0; k < c.n[2]; k++) e->step();
                    if (!e->err.empty()) return "shell " + num(&e - &v[0]) + " of " + num(v.size()) + ": " + e->err;
                    if (!e->starved || e->ipos < e->input.size()) left++;
                }
            }
            for (auto &e : v) { e->drive(); if (e->err.empty()) e->send(brief); if (!e->err.empty()) return "shell " + num(&e - &v[0]) + " of " + num(v.size()) + ": " + e->err; }
            return "";
        }
        Env &a = A(), &b = B();
        for (Env *e : {&a, &b}) { e->on_io = nullptr; e->read_ready = e->write_ready = nullptr; }
        trigger = -1; preempt = nullptr;
        bool lng = c.kind == "long";
        a.input = (lng ? lA : sA)[c.n[0]]; a.ipos = 0;
        if (c.kind != "life") { b.input = (lng ? lB : sB)[c.n[1]]; b.ipos = 0; }
        auto ok = [&] { return a.err.empty() && b.err.empty(); };
        if (c.kind == "alt" || lng) {
            if (lng) for (long k = 0; k < c.n[4]; k++) b.step();
            for (int i = 0; i < 30000 && ok(); i++) {
                for (long k = 0; k < c.n[2]; k++) a.step();
                for (long k = 0; k < c.n[3]; k++) b.step();
                if (a.starved && b.starved && a.ipos >= a.input.size() && b.ipos >= b.input.size()) break;
            }
        } else if (c.kind == "switch") {
            for (long k = 0; k < c.n[2] && ok(); k++) a.step();
            for (long k = 0; k < c.n[3] && ok(); k++) b.step();
        } else if (c.kind == "nest") {
            // at the n-th i/o callback of the first shell the second one is serviced
            long n = 0; Env *pb = &b;
            a.on_io = [&n, pb, c](Env &) {
                if (n++ != c.n[2]) return;
                for (long r = 0; r < c.n[3] && pb->err.empty(); r++) { pb->step(); if (pb->starved && pb->ipos >= pb->input.size()) break; }
            };
            a.drive();
        } else if (c.kind == "life") {
            for (long k = 0; k < c.n[1] && ok(); k++) a.step();
            if (c.n[2] == 0) { Inside in_; ush_deinit(b.o); }
            if (c.n[2] == 1) b.reset();
            if (c.n[2] == 2) b.reboot();
            if (c.n[2] == 3) { World w = worldB(); Env third(w); third.drive(); third.send("ls\rxxd var\r"); if (!third.err.empty()) return "third shell: " + third.err; { Inside in_; ush_deinit(third.o); } }
            if (a.err.empty()) a.drive();
            if (a.err.empty()) a.send(after);
            if (!a.err.empty()) return a.err;
            if (c.n[2] == 0) b.reboot();
        } else if (c.kind == "preempt") {
            static Env *pb; pb = &b;
            points = 0; trigger = c.n[2];
            preempt = [] { pb->drive(); };
            a.drive();
            preempt = nullptr; trigger = -1;
        }
        return finish(a, b);
    };
    return mc_main(argc, argv, ck);
}
