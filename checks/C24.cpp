// C24: the shell works with the memory it is given: it never allocates, keeps no state of its own outside the object
// and the buffers, and changes nothing that belongs to the user: descriptor, tables, names, texts, file contents.
#include "stepx.h"
#include <sanitizer/allocator_interface.h>
using namespace mc;
static volatile long allocs = 0, frees = 0;
static void on_malloc(const volatile void *, size_t) { if (in_lib()) { allocs++; } }
static void on_free(const volatile void *) { if (in_lib()) frees++; }
static bool globals_changed() {
    for (auto &s : globals().segs) if (!Globals::same(s.img.data(), s.p, s.n)) return true;
    return false;
}
static string judge(Env &e) {
    if (allocs) return "the library allocated memory dynamically";
    if (frees) return "the library freed memory";
    if (globals_changed()) return "the library changed a variable of its own outside the shell object";
    for (size_t l = 0; l < e.fdata.size(); l++) for (size_t i = 0; i < e.fdata[l].size(); i++)
        if (memcmp(e.fbuf[l][i].p, e.fdata[l][i].data(), e.fdata[l][i].size())) return "the contents of file " + e.m.L()[l + 1][i].name + " were changed behind the setter's back";
    return "";
}
static string run(Env &e, const string &s) {
    e.input = s; e.ipos = 0;
    for (long i = 0; i < 3000000; i++) {
        e.step();
        string r = judge(e);
        if (!r.empty()) return r;
        if (!e.err.empty()) return e.err;
        if (e.starved && e.ipos >= e.input.size()) return "";
    }
    return "shell did not come back to reading input";
}
static vector<string> scripts() {
    auto v = command_lines();
    for (const char *s : {"l\x09\r", "he\x09\x09 ls\r", "\x09", "e\x09", "ls /d\x09\x09\r", "ab\x08\x7f" "c\r", "\x1b[Aq\r", "run a\rrun\r", "echo \\x00\\xff > var\rcat var\rxxd var\r", "q\x03", "\"a\\\"b\" c\r", "cd dev/bus/../../etc\r"}) v.push_back(s);
    return v;
}
static World sized(const vector<long> &n) {
    World w;
    w.in = 700; w.out = n[0]; w.path = n[1];
    string all;
    for (long i = 0; i < n[3]; i++) all += (char)(i * 7 + n[2]);
    w.mount("/", {D(Fr(rep("n", n[2]), all), rep("d", n[2])), H(Fx(rep("x", n[2]), X_ARG), rep("help", n[3])), Frw("f", all)});
    if (n[2] && n[2] + 2 < n[1]) { w.mount("/" + rep("p", n[2]), {Fr("g", "")}); }
    w.group({D(Fx(rep("c", n[2]), X_PRINTF), rep("q", n[3]))});
    return w;
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C24";
    ck.bounds = "every service call of 61 inputs and (thorough) all their ordered pairs, in a tree of 6 directories; lengths of names 0..90, data 0..400 and path limits 4..64 for 3 output buffer sizes; 0..340 arguments; all sequences up to length 5 (quick) / 6 of 9 keys; all printing calls; "
                "init, deinit, reset, mount, unmount, command groups and current directory calls with every status; allocation calls, library data segments and all user data judged after each call";
    auto sc = scripts();
    ck.enumerate = [sc](const string &tier, std::function<bool(const Case &)> sink) {
        bool T = tier == "thorough";
        for (long i = 0; i < (long)sc.size(); i++) { sink(Case("one", {i})); for (long j = 0; j < (long)sc.size(); j++) if (T || (i * 7 + j) % 5 == 0) sink(Case("pair", {i, j})); }
        for (long o : {27L, 40L, 64L}) for (long p : {4L, 16L, 64L}) {
            for (long n = 1; n <= 90; n++) sink(Case("size", {o, p, n, 3}));
            for (long n = 0; n <= 400; n += T ? 1 : 7) sink(Case("size", {o, p, 5, n}));
        }
        for (long n = 0; n <= 340; n++) sink(Case("args", {n}));
        sequences(9, 1, T ? 6 : 5, [&](const vector<int> &v) { string s; for (int i : v) s += "ae \"\\\x09\x08\x1b\r"[i]; return sink(Case("keys", {}, s)); });
        for (long k = 0; k < 9; k++) for (long len = 0; len < 200; len += (len < 70 ? 1 : 13)) sink(Case("print", {k, len}));
        for (long c = 0; c < 400; c++) sink(Case("api", {c}));
    };
    ck.run = [sc](const Case &c) -> string {
        static bool once = [] { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); return true; }();
        (void)once;
        allocs = frees = 0;
        if (c.kind == "one" || c.kind == "pair") {
            Env &e = fresh("t", tree_world);
            string r;
            for (size_t i = 0; i < c.n.size() && r.empty(); i++) r = run(e, sc[c.n[i]]);
            return r;
        }
        if (c.kind == "keys") {
            Env &e = fresh("k", [] { World w = tree_world(); w.in = 20; return w; });
            return run(e, c.s);
        }
        if (c.kind == "size") {
            World w = sized(c.n);
            Env e(w);
            string nm = rep("n", c.n[2]);
            string r = run(e, "ls\rhelp\rcat f\rxxd f\rhelp " + rep("x", c.n[2]) + "\r" + nm + "\r" + rep("x", c.n[2]) + " " + nm + "\rcat " + nm + "\r\x09\r" + rep("c", c.n[2] / 2) + "\x09\rcd " + rep("p", c.n[2]) + "\rls\rcat " + rep("../", c.n[2]) + "f\r");
            return r;
        }
        if (c.kind == "args") {
            Env &e = fresh("a", [] { World w; w.in = 700; w.out = 40; w.path = 24; w.mount("/", {Fx("x", X_PRINTF), Fr("f", "1")}); return w; });
            return run(e, "x" + rep(" a", c.n[0]) + "\rcat" + rep(" f", c.n[0]) + "\recho" + rep(" b", c.n[0]) + "\r");
        }
        if (c.kind == "print") {
            World w = tree_world();
            w.out = 40;
            w.group({Fx("pp", X_HOOK)});
            Env e(w);
            e.drive();
            static string text; text = rep("t", c.n[1]);
            long k = c.n[0];
            string fin;
            e.lockstep = false;
            e.hook = [k, &fin](Env &e, int, int, char **) {
                Inside in_;
                switch (k) {
                case 0: ush_print(e.o, (char *)text.c_str()); break;
                case 1: ush_print_no_newline(e.o, (char *)text.c_str()); break;
                case 2: ush_printf(e.o, "%s", text.c_str()); break;
                case 3: ush_printf(e.o, "%s", text.c_str()); ush_printf(e.o, "%s|%d|%x", text.c_str(), 5, 77u); break;
                case 4: ush_print_status(e.o, (ush_status_t)(text.size() % USH_STATUS__TOTAL_NUM)); break;
                case 5: ush_flush(e.o); break;
                case 6: ush_printf(e.o, "%c%5d%-7u|%08lx", 'q', -3, 99u, 0xabcdefl); ush_print(e.o, (char *)text.c_str()); break;
                case 7: ush_reset(e.o); break;
                case 8: ush_printf(e.o, "%*d", (int)text.size(), 3); break;
                }
            };
            return run(e, "pp\rls\r");
        }
        if (c.kind == "api") {
            World w = tree_world();
            w.lists.push_back({Fr("s", "1"), Fx("t", X_PRINT)});
            Env e(w);
            long sp = w.lists.size() - 1;
            string r = judge(e);
            if (!r.empty()) return "during init: " + r;
            e.drive();
            static const char *paths[] = {"/", "/dev", "/new", "/dev/bus", "/dev/bus/i2c", "/x/y", "/etc", "/dev2/n", "nope", "/etc/deep/er"};
            e.lockstep = false;
            auto n1 = Env::new_node(0xA5), n2 = Env::new_node(0x5A);
            e.mnodes.push_back(n1); e.mnodes.push_back(n2);
            long x = c.n[0];
            auto p = [&](long k) { return (char *)paths[k % 10]; };
            {
                Inside in_;
                ush_node_unmount(e.o, p(x));
                ush_node_mount(e.o, p(x / 10), n1, e.lists[sp], 2);
                ush_node_set_current_dir(e.o, p(x / 3));
                ush_commands_add(e.o, n2, e.lists[sp], 2);
                ush_commands_remove(e.o, x % 2 ? n2 : e.gnodes[0]);
            }
            r = judge(e);
            if (!r.empty()) return r;
            for (long k = 0; k < x % 37; k++) e.step();
            { Inside in_; ush_reset(e.o); }
            r = run(e, "ls\rcd ..\rcat s\r");
            if (!r.empty()) return r;
            { Inside in_; ush_deinit(e.o); }
            return judge(e);
        }
        return "unknown case";
    };
    return mc_main(argc, argv, ck);
}
