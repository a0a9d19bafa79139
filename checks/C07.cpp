// C07: operations that are rejected change nothing: the error is reported, no setter or getter runs, the tree, the
// current directory, file contents and the objects handed in stay as they were.
#include "worlds.h"
#include "dims.h"
using namespace mc;

static const vector<string> mpaths = {"/", "/dev", "/dev/bus", "/dev/bus/i2c", "/dev2", "/etc", "/x/y", "/dev/led/z", "/nope/a", "/dev/nope/b", "/etc2/a/b", "/de/x"};
static World tw() { return tree_world(); }

int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C07";
    ck.bounds = "every rejected mount (12 paths, three node fillings, and with each node already mounted and 3 file lists), unmount, cd and set_current_dir from every working directory; cat with all argument lists up to length 4/5 over {readable, "
                "writable-only, missing, directory, other readable}; echo/xxd/help/ls/cd/pwd with every argument list up to length 4 over 8 words; each followed by a read-back of the whole tree; sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(7, tier == "thorough", sink);
        session_cases({SES_FAIL}, sink);
        bool T = tier == "thorough";
        for (long c = 0; c < 6; c++) for (long p = 0; p < (long)mpaths.size(); p++) for (long fill : {0x00L, 0xA5L, 0xFFL}) sink(Case("mount", {c, p, fill}));
        // the node handed in is one that is mounted already, at this path or another
        for (long c = 0; c < 6; c++) for (long p = 0; p < (long)mpaths.size(); p++) for (long k = 0; k < 6; k++) for (long l = 0; l < 3; l++) sink(Case("again", {c, p, k, l}));
        for (long c = 0; c < 6; c++) for (long p = 0; p < (long)mpaths.size(); p++) { sink(Case("unmount", {c, p})); sink(Case("setdir", {c, p})); }
        sequences(6, 1, T ? 5 : 4, [&](const vector<int> &v) { string s; for (int i : v) s += (char)('0' + i); return sink(Case("cat", {}, s)); });
        for (const char *cmd : {"echo", "xxd", "help", "ls", "cd", "pwd"})
            sequences(9, 0, T ? 5 : 4, [&](const vector<int> &v) {
                static const char *w[] = {"ro", "wo", "nope", "dev", ">", "var", "/dev/led", "\"\"", "run"};
                string s = cmd;
                for (int i : v) s += string(" ") + w[i];
                return sink(Case("cmd", {}, s));
            });
    };
    static const vector<string> cwds = {"/", "/dev", "/dev/bus", "/dev/bus/i2c", "/dev2", "/etc"};
    auto readback = [](Env &e) {
        if (!e.err.empty()) return;
        e.send("pwd\rls /\rls /dev\rls /dev/bus\rls /dev/bus/i2c\rls /dev2\rls /etc\rcat /var /ro /dev/led /dev/bus/led /dev2/led\rhelp\r");
    };
    ck.run = [=](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        Env &e = fresh("t", tw);
        if (c.kind == "mount") {
            e.send("cd " + cwds[c.n[0]] + "\r");
            const string &p = mpaths[c.n[1]];
            Model before = e.m;
            int want = before.api_mount(p, -1);
            if (want == S_OK) return "harness: not a rejected mount";
            ush_node_object *n = (ush_node_object *)malloc(sizeof *n), cp;
            memset(n, (int)c.n[2], sizeof *n);
            memcpy(&cp, n, sizeof cp);
            string nodes; for (auto x : e.mnodes) nodes.append((char *)x, sizeof *x);
            int got = ush_node_mount(e.o, p.c_str(), n, e.lists[1], 1);
            if (got != want) e.fail("mount of " + p + " returned '" + status_text(got) + "', expected '" + status_text(want) + "'");
            if (memcmp(n, &cp, sizeof cp)) e.fail("rejected mount of " + p + " modified the node");
            string after; for (auto x : e.mnodes) after.append((char *)x, sizeof *x);
            if (after != nodes) e.fail("rejected mount of " + p + " modified mounted nodes");
            free(n);
            readback(e);
            return e.err;
        }
        if (c.kind == "again") {
            e.send("cd " + cwds[c.n[0]] + "\r");
            const string &p = mpaths[c.n[1]];
            Model before = e.m;
            int want = before.api_mount(p, -1);
            string nodes; for (auto x : e.mnodes) nodes.append((char *)x, sizeof *x);
            int l = c.n[3] == 0 ? -1 : (int)c.n[3];
            int got = ush_node_mount(e.o, p.c_str(), e.mnodes[c.n[2]], l < 0 ? nullptr : e.lists[l], e.list_size(l));
            if (got != want) e.fail("mount of " + p + " with a node in use returned '" + status_text(got) + "', expected '" + status_text(want) + "'");
            string after; for (auto x : e.mnodes) after.append((char *)x, sizeof *x);
            if (after != nodes) e.fail("rejected mount of " + p + " with a node in use modified mounted nodes");
            readback(e);
            return e.err;
        }
        if (c.kind == "unmount" || c.kind == "setdir") {
            e.send("cd " + cwds[c.n[0]] + "\r");
            const string &p = mpaths[c.n[1]];
            Model b = e.m;
            if (c.kind == "unmount") {
                int want = b.api_unmount(p);
                if (want == S_OK) return "";
                string nodes; for (auto x : e.mnodes) nodes.append((char *)x, sizeof *x);
                int got = ush_node_unmount(e.o, p.c_str());
                if (got != want) e.fail("unmount of " + p + " returned '" + status_text(got) + "', expected '" + status_text(want) + "'");
                string after; for (auto x : e.mnodes) after.append((char *)x, sizeof *x);
                if (after != nodes) e.fail("rejected unmount of " + p + " modified mounted nodes");
            } else {
                int want = e.m.api_cd(p);
                int got = ush_node_set_current_dir(e.o, p.c_str());
                if (got != want) e.fail("set_current_dir " + p + " returned '" + status_text(got) + "', expected '" + status_text(want) + "'");
            }
            readback(e);
            return e.err;
        }
        if (c.kind == "cat") {
            static const char *w[] = {"ro", "wo", "nope", "dev", "/dev/led", "var"};
            string s = "cat";
            for (char ch : c.s) s += string(" ") + w[ch - '0'];
            e.send(s + "\r");
        } else e.send(c.s + "\r");
        if (e.err.empty()) e.send("pwd\rcat /var /ro /dev/led /dev/bus/led\rls\r");
        outcome(e);
        stats().state(hash_str(e.memory()));
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
