// C20: life cycle. A shell can be taken down and started again at any moment, from any memory contents, and then
// behaves like a new one; taking it down leaves the object and all its nodes cleared.
#include "stepx.h"
#include "dims.h"
using namespace mc;
static vector<string> scripts() {
    auto v = command_lines();
    for (const char *s : {"\x09", "d\x09", "cat \x09\rls", "ls dev\x09\x09", "cd /dev\rcat \x09 x\x09", "l\x09\x09s\r", "he\x09", "ls /d\x09\x09\r", "ab\x08\x7f" "c", "\x1b[", "cd dev/bus\rls", "echo \"a b", "cd dev\rls\r", "echo n > var\rcat var\r", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"}) v.push_back(s);
    size_t n = v.size();
    for (const char *d : {"cd dev\r", "cd dev/bus\r"}) for (size_t i = 0; i < n; i++) v.push_back(d + v[i]);    // the same from other directories
    return v;
}
static const string after = "x\x08ls\rpwd\rcat var ro\rrun q\rl\x09\x08\x08ls\r\x09\rcd dev\rls\recho z > led\rcat led\rxxd led\rhelp ls\rls /dev/bus\r/dev/bus/scan\rhelp\r";
static string cleared(Env &e) {
    for (size_t i = 0; i < sizeof *e.o; i++) if (((char *)e.o)[i]) return "object is not cleared by deinit (offset " + num(i) + ")";
    for (size_t k = 0; k < e.mnodes.size(); k++) for (size_t i = 0; i < sizeof(ush_node_object); i++) if (((char *)e.mnodes[k])[i]) return "node of " + e.w->mounts[k].first + " is not cleared by deinit";
    return "";
}
static World wide(long n, long shape) {
    World w;
    w.in = 64; w.out = 40; w.path = 200;
    w.mount("/", {Fr("f", "x")});
    string p = "";
    for (long i = 0; i < n; i++) {
        if (shape == 0) w.mount("/d" + num(i));                               // flat
        else if (shape == 1) { p += "/d"; w.mount(p, {Fr("f", num(i))}); }    // chain
        else { p = i % 3 == 0 ? "/b" + num(i) : p; w.mount(i % 3 == 0 ? p : p + "/" + num(i)); }   // bushes
    }
    return w;
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C20";
    ck.bounds = "for 62 inputs, each from three directories: deinit + init, and init alone, before every service call (and with a refused byte pending), followed by a battery of all commands; 1..20, 300 and 66000 restarts in a row; flat, deep and bushy trees of 0..120 nodes cleared and rebuilt; trees after every single "
                "unmount; all 256 fill bytes of object, nodes and buffers before the first init; two shells with different trees handing over the same object and nodes; shells taken down with nothing mounted (yet or any more) and 0..3 command groups; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    auto sc = scripts();
    ck.enumerate = [sc](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(20, tier == "thorough", sink);
        bool T = tier == "thorough";
        for (long n : {300L, 66000L}) for (long de = 0; de < 3; de++) sink(Case("many", {n, de}));
        for (long f = 0; f < 256; f++) sink(Case("fill", {f}));
        for (long n = 0; n <= 120; n++) for (long s = 0; s < 3; s++) if (s != 1 || n < 60) sink(Case("tree", {n, s}));
        for (long i = 0; i < (long)sc.size(); i++) {
            Env &e = fresh("t", tree_world);
            uint64_t s0 = e.steps;
            e.send(sc[i]);
            long n = e.steps - s0;
            if (i >= (long)sc.size() / 3) {
                for (long k = 0; k <= n; k++) sink(Case("at", {i, k, k % 2, k / 2 % 2}));
                continue;
            }
            for (long k = 0; k <= n; k++) for (long de = 0; de < 2; de++) {
                sink(Case("at", {i, k, de, 0}));
                if (k % (T ? 1 : 4) == 0) sink(Case("at", {i, k, de, 1}));
            }
            for (long k = 1; k <= 20; k++) sink(Case("again", {i, k}));
        }
        for (long a = 0; a < 8; a++) for (long b = 0; b < 8; b++) for (long de = 0; de < 2; de++) sink(Case("other", {a, b, de}));
        for (long k = 1; k < 6; k++) sink(Case("unmounted", {k}));
        for (long g = 0; g < 4; g++) for (long s = 0; s < 40; s++) for (long t = 0; t < 4; t++) sink(Case("bare", {g, s, t}));
    };
    ck.run = [sc](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "fill") {
            World w = tree_world();
            w.fill = c.n[0];
            Env e(w);
            e.drive();
            e.send(after);
            return e.err;
        }
        if (c.kind == "many") {
            World w = tree_world();
            Env e(w);
            for (long i = 0; i < c.n[0] && e.err.empty(); i++) {
                if (i % 64 == 0 || i > c.n[0] - 3) { e.drive(); if (e.err.empty()) e.send("cd dev\rpwd\r"); }
                else if (i % 8 == 0) e.step();
                if (!e.err.empty()) break;
                if (c.n[1] == 0 || (c.n[1] == 2 && i % 3)) { { Inside in_; ush_deinit(e.o); } if (i % 64 == 0) { string r = cleared(e); if (!r.empty()) return r; } }
                e.reboot();
            }
            if (e.err.empty()) e.drive();
            if (e.err.empty()) e.send(after);
            return e.err;
        }
        if (c.kind == "tree") {
            World w = wide(c.n[0], c.n[1]);
            Env e(w);
            e.drive();
            for (int i = 0; i < 3 && e.err.empty(); i++) {
                e.send("ls\rls /d0\rcat f\rls /d\rls /b0\r");
                { Inside in_; ush_deinit(e.o); }
                string r = cleared(e);
                if (!r.empty()) return r;
                e.reboot();
                e.drive();
            }
            if (e.err.empty()) e.send("ls\r");
            return e.err;
        }
        if (c.kind == "other") {
            // the object passes from one configuration to another
            World wa = wide(c.n[0] * 3, c.n[0] % 3), wb = wide(c.n[1] * 3, c.n[1] % 3);
            wa.in = 30; wb.out = 33; wb.host = "other"; wb.group({Fx("extra", X_PRINT)});
            Env a(wa), b(wb, false);
            a.drive();
            a.send("ls\rcd d0\rpwd\r");
            if (!a.err.empty()) return a.err;
            if (c.n[2]) { Inside in_; ush_deinit(a.o); }
            ush_object *keep = b.o;
            b.o = a.o; a.o = nullptr;
            vector<ush_node_object *> mine = a.mnodes;
            b.begin();
            b.drive();
            if (b.err.empty()) b.send("ls\rpwd\rextra\rcat f\rhelp\rls /d\r");
            a.o = b.o; b.o = keep;
            return b.err;
        }
        if (c.kind == "bare") {
            // taken down without a tree: nothing mounted yet, or everything unmounted again; with any number of groups
            World w;
            w.in = 40; w.out = 40; w.path = 20;
            for (long i = 0; i < c.n[0]; i++) w.group({Fx("g" + num(i), X_PRINT)});
            w.lists.push_back({Fr("f", "1")});
            Env e(w, false);
            char *root = e.dup("/"), *sub = e.dup("/s");
            e.mnodes = {Env::new_node(), Env::new_node()};
            e.begin();
            long t = c.n[2];
            Inside in_;
            if (t >= 1) { ush_node_mount(e.o, root, e.mnodes[0], e.lists.back(), 1); }
            if (t >= 2) { for (long k = 0; k < c.n[1]; k++) ush_service(e.o); }
            if (t >= 3) { ush_node_mount(e.o, sub, e.mnodes[1], e.lists.back(), 1); ush_node_unmount(e.o, sub); }
            bool gone = t == 1 || t == 3;
            if (gone && t >= 1) ush_node_unmount(e.o, root);
            ush_deinit(e.o);
            for (size_t i = 0; i < sizeof *e.o; i++) if (((char *)e.o)[i]) return "object is not cleared by deinit (offset " + num(i) + ")";
            if (t == 2) for (size_t i = 0; i < sizeof(ush_node_object); i++) if (((char *)e.mnodes[0])[i]) return "node of / is not cleared by deinit";
            return "";
        }
        if (c.kind == "unmounted") {
            static const char *p[] = {"/", "/dev", "/dev/bus", "/dev/bus/i2c", "/dev2", "/etc"};
            World w = tree_world();
            Env e(w);
            e.drive();
            int want = e.m.api_unmount(p[c.n[0]]);
            int got = ush_node_unmount(e.o, p[c.n[0]]);
            if (want != got) return "unmount status";
            e.send("ls\r");
            { Inside in_; ush_deinit(e.o); }
            for (size_t i = 0; i < sizeof *e.o; i++) if (((char *)e.o)[i]) return "object is not cleared by deinit";
            e.reboot(); e.drive();
            if (e.err.empty()) e.send(after);
            return e.err;
        }
        Env &e = fresh("t", tree_world);
        e.write_ready = nullptr;
        if (c.kind == "again") {
            for (long k = 0; k < c.n[1] && e.err.empty(); k++) {
                e.send(sc[c.n[0]]);
                if (k % 2) { { Inside in_; ush_deinit(e.o); } string r = cleared(e); if (!r.empty()) return r; }
                if (e.err.empty()) { e.reboot(); e.drive(); }
            }
            if (e.err.empty()) e.send("ls\rcat var\rhelp\r");
            return e.err;
        }
        e.input = sc[c.n[0]]; e.ipos = 0;
        for (long k = 0; k < c.n[1] && e.err.empty(); k++) e.step();
        if (c.n[3]) { e.write_ready = [] { return false; }; e.step(); e.step(); e.write_ready = nullptr; }
        if (!e.err.empty()) return e.err;
        if (c.n[2]) {
            { Inside in_; ush_deinit(e.o); }
            string r = cleared(e);
            if (!r.empty()) return r;
        }
        e.reboot();
        if (e.err.empty()) e.drive();
        if (e.err.empty()) e.send(after);
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
