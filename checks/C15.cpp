// C15: what one service call does: at most one byte moved in one direction, a bounded amount of work, and a return
// value that tells "input is empty, nothing to do" from "call me again".
#include "stepx.h"
using namespace mc;
static vector<string> scripts() {
    auto v = command_lines();
    for (const char *s : {"l\x09\r", "he\x09\x09 ls\r", "\x09", "e\x09", "ls /d\x09\x09\r", "ab\x08\x7f" "c\r", "\x1b[Aq\r", "\x1b\x1b[[[", "run a\rrun\r", "x\r\n\r", "q\x03\x03"}) v.push_back(s);
    return v;
}
// silent calls (no byte moved, no callback) in a row: everything the shell does between two bytes is bounded by the
// size of its tables and of the line
static World wide(long n) {
    World w;
    w.in = 96; w.out = 40; w.path = 40;
    List l, g;
    for (long i = 0; i < n; i++) { l.push_back(Fr("file" + num(i), "data" + num(i))); g.push_back(Fx("cmd" + num(i), X_PRINT)); }
    w.mount("/", {F("one")});
    if (n) { w.mount("/p", l); w.group(g); } else w.mount("/p");
    for (long i = 0; i < n; i++) w.mount("/p/d" + num(i));
    return w;
}
static string discipline(Env &e, const string &in, long bound, bool slow) {
    e.input = in; e.ipos = 0;
    long silent = 0, worst = 0; int idle = 0;
    bool flip = false;
    e.write_ready = [&] { flip = !flip; return !slow || flip; };
    e.read_ready = [&] { flip = !flip; return !slow || flip; };
    for (long i = 0; i < 400000; i++) {
        size_t before = e.m.qh, ib = e.ipos;
        bool r = e.step();
        if (!e.err.empty()) return e.err;
        bool moved = e.n_read || e.n_write || e.n_cb;
        if (e.n_cb > 2) return "one service call made " + num(e.n_cb) + " user callbacks";
        if (!r && (e.n_write || !e.m.queue_empty())) return "service returned 'nothing to do' although output is pending: " + e.pending();
        if (r && e.starved) return "service returned 'busy' although the input was empty";
        if (e.ipos > ib && !r) return "service read a byte but returned 'nothing to do'";
        if (e.starved && !e.m.queue_empty()) return "shell asks for input with output missing: " + e.pending();
        silent = moved ? 0 : silent + 1;
        worst = std::max(worst, silent);
        if (silent > bound) return num(silent) + " service calls in a row without reading, writing or calling back (bound " + num(bound) + ")";
        (void)before;
        if (e.starved && e.ipos >= e.input.size()) {
            // idle: further calls change nothing
            if (++idle > 3) { stats().state(e.mstate()); return ""; }
        } else if (!(e.starved)) { if (idle) return "idle shell became active without input"; }
    }
    return "shell did not come back to reading";
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C15";
    ck.bounds = "the banner and 57 inputs with every pattern of refused writes and empty reads (exact-state exploration to a fixpoint, each service call judged); silent-call bound over directories and groups of 0..120 entries, lines "
                "of every length to 90 and 0..40 arguments, with ready and alternating environments; 1..300 idle calls before each input";
    auto sc = scripts();
    ck.enumerate = [sc](const string &tier, std::function<bool(const Case &)> sink) {
        bool T = tier == "thorough";
        for (long i = -1; i < (long)sc.size(); i++) sink(Case("bfs", {0, 1, 20000, i}));
        for (long i = 0; i < (long)sc.size(); i++) for (long slow = 0; slow < 2; slow++) sink(Case("line", {i, slow}));
        for (long n = 0; n <= 120; n++) if (T || n < 20 || n % 10 == 0) for (long slow = 0; slow < 2; slow++) for (long k = 0; k < 14; k++) sink(Case("wide", {n, k, slow}));
        for (long i = 0; i < (long)long_lines().size(); i++) for (long slow = 0; slow < 2; slow++) sink(Case("long", {i, slow}));
        for (long n = 0; n <= 90; n++) for (long k = 0; k < 6; k++) sink(Case("len", {n, k}));
        for (long n = 1; n <= 300; n++) sink(Case("idle", {n}));
    };
    ck.run = [sc](const Case &c) -> string {
        if (c.kind.rfind("bfs", 0) == 0) {
            StepX x;
            x.refuse_read = true;
            x.world = [](long) { return tree_world(); };
            x.script = [sc](long i) { return sc[i]; };
            return x.run(c);
        }
        string r;
        if (c.kind == "line") {
            Env &e = fresh("t", tree_world);
            // 17 files and commands, 96 input bytes: far below this bound
            r = discipline(e, sc[c.n[0]], 96 * 4 + 17 * 8 + 40, c.n[1]);
        } else if (c.kind == "long") {
            Env &e = fresh("l", long_world);
            r = discipline(e, long_lines()[c.n[0]], 640 * 4 + 250 * 17 * 8 + 40, c.n[1]);
        } else if (c.kind == "wide") {
            static const char *l[] = {"ls p\r", "cd p\rls\r", "help\r", "\x09", "c\x09\x09", "cmd1\x09\r", "cd p\rfile\x09\x09\r", "cd p\rd\x09", "/p/\x09\x09", "nosuch\r", "cat /p/file0 /p/file1\r", "cmd0\r", "zz\x09", "cd /p/d1\rcd ../\x09"};
            Env &e = fresh("w" + num(c.n[0]), [&] { return wide(c.n[0]); });
            r = discipline(e, l[c.n[1]], 96 * 4 + (3 * c.n[0] + 12) * 8 + 40, c.n[2]);
        } else if (c.kind == "len") {
            static const char *f[] = {"a", " ", "a ", "\"", "\\", "\\x"};
            string s;
            while ((long)s.size() < c.n[0]) s += f[c.n[1]];
            Env &e = fresh("t", tree_world);
            r = discipline(e, s + "\r", 96 * 4 + 17 * 8 + 40, false);
        } else {
            Env &e = fresh("t", tree_world);
            for (long i = 0; i < c.n[0] && r.empty(); i++) { bool b = e.step(); if (b || e.n_write || e.n_cb) r = "idle service call did something"; if (!e.err.empty()) r = e.err; }
            if (r.empty()) r = discipline(e, "run x\rls\rpwd\r", 600, false);
        }
        if (!c.kind.empty() && r.empty()) { }
        for (auto e : Env::all()) { e->write_ready = nullptr; e->read_ready = nullptr; }
        return r;
    };
    return mc_main(argc, argv, ck);
}
