// C06: the directory tree built by mount/unmount. Every reachable tree over several path sets is explored to a
// fixpoint (exact memory states); after each operation the whole tree is read back through ls, cd, pwd and cat.
#include "worlds.h"
#include "dims.h"
#include "explore.h"
using namespace mc;

static const vector<vector<string>> sets = {
    {"/", "/a", "/b", "/c", "/a/b"},
    {"/", "/a", "/a/b", "/a/b/c", "/a/b/c/d", "/x/y"},
    {"/", "/a", "/aa", "/a/a", "/aa/a", "/a/aa"},
    {"/", "/b", "/b/b", "/b/b/b", "/bb", "/c/b"},
    {"/", "/p", "/q", "/r", "/s"},
    {"/", "/p", "/p/1", "/p/2", "/p/3", "/p/4"},
    {"/", "/a", "/b", "/a/x", "/b/x", "/a/x/z", "/b/x/z"},
    {"/", "/1", "/2", "/3", "/4", "/5"},
    {"/", "/a", "/b", "/c", "/a/1", "/b/1", "/c/1"},
    {"/", "/a.b", "/a", "/a b", "/.c", "/a/.d"},
};
// what the directories hold: 0 two files each, 1 nothing, 2 every second one nothing, 3 all the same table
static World mkworld(const vector<string> &paths, int fill) {
    World w;
    w.in = 48; w.out = 40; w.path = 24;
    if (fill == 3) { w.lists.push_back({Fr("f", "same"), Fx("g", X_PRINT)}); return w; }
    for (auto &p : paths) w.lists.push_back({Fr("f", p), Fx("g", X_PRINT)});
    return w;
}
// node k belongs to path k; root is mounted by the setup
struct Sys {
    vector<string> paths; World w; vector<char *> cpaths;
    int fill = 0;
    int list(size_t k) { return fill == 1 ? -1 : fill == 2 ? (k % 2 ? (int)k : -1) : fill == 3 ? 0 : (int)k; }
};
static const char *ls_name(int s) { return status_text(s); }
static int do_mount(Env &e, char *cp, const string &p, long k, long li) {
    int want = e.m.api_mount(p, (int)li);
    int got = ush_node_mount(e.o, cp, e.mnodes[k], li < 0 ? nullptr : e.lists[li], e.list_size(li));
    if (got != want) e.fail("mount " + p + " returned '" + ls_name(got) + "', expected '" + ls_name(want) + "'");
    return got;
}
static int do_mount(Env &e, char *cp, const string &p, long k) { return do_mount(e, cp, p, k, k); }
static int do_unmount(Env &e, const string &p) {
    int want = e.m.api_unmount(p);
    int got = ush_node_unmount(e.o, p.c_str());
    if (got != want) e.fail("unmount " + p + " returned '" + ls_name(got) + "', expected '" + ls_name(want) + "'");
    return got;
}
static void dump(Env &e, const vector<string> &paths) {
    string cwd = e.m.cwd;
    e.send("pwd\r");
    for (auto &p : paths) {
        if (!e.err.empty()) return;
        string q = "\"" + p + "\"";
        e.send("ls " + q + "\rcat \"" + path_join(p, "f") + "\"\r");
    }
    (void)cwd;
}
static Explorer ex() {
    Explorer x;
    static std::map<long, std::shared_ptr<Sys>> sys;
    auto get = [](long id) {
        auto &s = sys[id];
        if (!s) { s.reset(new Sys); s->paths = sets[id % 100]; s->fill = (int)(id / 100); s->w = mkworld(s->paths, s->fill); }
        return s;
    };
    x.make = [get](const vector<long> &n) {
        auto s = get(n[0]);
        auto e = std::make_unique<Env>(s->w, false);
        s->cpaths.clear();
        for (auto &p : s->paths) { s->cpaths.push_back(e->dup(p)); e->mnodes.push_back(Env::new_node()); }
        e->begin();
        do_mount(*e, s->cpaths[0], "/", 0, s->list(0));
        e->m.clear_queue(); e->m.welcome();
        e->drive();
        dump(*e, s->paths);
        return e;
    };
    x.acts = [get](const vector<long> &n) {
        auto s = get(n[0]);
        vector<Action> a;
        for (size_t i = 1; i < s->paths.size(); i++) {
            string p = s->paths[i];
            a.push_back({"mount " + p, [s, i, p](Env &e) { do_mount(e, s->cpaths[i], p, i, s->list(i)); }});
            a.push_back({"unmount " + p, [p](Env &e) { do_unmount(e, p); }});
        }
        a.push_back({"mount /", [s](Env &e) { do_mount(e, s->cpaths[0], "/", 0, s->list(0)); }});
        a.push_back({"unmount / while it may have children", [](Env &e) { if (e.m.tree["/"].kids.size()) do_unmount(e, "/"); }});
        for (size_t i = 0; i < s->paths.size(); i += 2) a.push_back(send_act("cd \"" + s->paths[i] + "\"\r"));
        a.push_back(send_act("cd ..\r"));
        return a;
    };
    x.invariant = [](Env &e) { dump(e, sets[0]); };
    return x;
}
// nodes are interchangeable: any node that is not in use may be mounted at any path with any file table, also an empty one
static const vector<vector<string>> rsets = {{"/", "/a", "/b", "/a/b"}, {"/", "/a", "/a/b", "/a/b/c"}, {"/", "/a", "/b", "/c"}};
struct Reuse { World w; vector<string> paths; };
static vector<int> &owner() { static vector<int> v; return v; }      // path index of each free node, -1: not mounted
static string owner_text() { string s; for (int o : owner()) s += (char)('b' + o); return s; }
static void set_owner(const string &s) { owner().clear(); for (char ch : s) owner().push_back(ch - 'b'); }
static Explorer reuse() {
    static std::map<long, std::shared_ptr<Reuse>> rs;
    auto get = [](long id) {
        auto &r = rs[id];
        if (r) return r;
        r.reset(new Reuse);
        r->paths = rsets[id];
        r->w.in = 48; r->w.out = 40; r->w.path = 24;
        r->w.mount("/", {Fr("f", "root")});
        r->w.lists.push_back({Fr("f", "one"), Fx("g", X_PRINT)});
        r->w.lists.push_back({Fr("f", "two")});
        return r;
    };
    Explorer x;
    x.make = [get](const vector<long> &n) {
        auto r = get(n[0]);
        auto e = std::make_unique<Env>(r->w, false);
        e->cpaths.clear();
        e->begin();
        for (int k = 0; k < 3; k++) e->mnodes.push_back(Env::new_node());
        owner().assign(3, -1);
        e->drive();
        dump(*e, r->paths);
        return e;
    };
    x.acts = [get](const vector<long> &n) {
        auto r = get(n[0]);
        vector<Action> a;
        for (size_t i = 1; i < r->paths.size(); i++) {
            for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++)
                a.push_back({"mount node " + num(k) + " at " + r->paths[i] + " with " + num(2 - l) + " files", [r, i, k, l](Env &e) {
                    if (owner()[k] >= 0) return;
                    static std::map<string, char *> keep;              // the node keeps the pointer to its path
                    char *&cp = keep[r->paths[i]];
                    if (!cp) cp = strdup(r->paths[i].c_str());
                    int li = l == 2 ? -1 : l + 1;
                    int want = e.m.api_mount(r->paths[i], li);
                    int got = ush_node_mount(e.o, cp, e.mnodes[1 + k], li < 0 ? nullptr : e.lists[li], e.list_size(li));
                    if (got != want) e.fail(string("mount returned '") + ls_name(got) + "', expected '" + ls_name(want) + "'");
                    if (want == 0) owner()[k] = (int)i;
                }});
            string p = r->paths[i];
            a.push_back({"unmount " + p, [r, i, p](Env &e) { if (do_unmount(e, p) == 0) for (int &o : owner()) if (o == (int)i) o = -1; }});
        }
        a.push_back(send_act("cd /a\r"));
        return a;
    };
    return x;
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C06";
    ck.bounds = "every sequence of mount/unmount/cd operations over 10 path sets (5-7 directories each: siblings, chains, prefix names, same names at several levels, missing parents), "
                "explored over exact states to a fixpoint, reading the whole tree back after each operation; wide directories of 0..300 children with removal of every child; chains to depth 60; root remount; directories that are empty, alternately empty or share one file table; interchangeable nodes (3 nodes, 3 path sets, file tables of 0..2 files) mounted and unmounted in every order; pairs of names up to length 14 (24) and of 31..80 that differ in one position; sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(6, tier == "thorough", sink);
        session_cases({SES_MOUNT}, sink);
        bool T = tier == "thorough";
        for (long i = 0; i < (long)sets.size(); i++) sink(Case("bfs", {i, T ? 300000 : 4000}));
        for (long f = 1; f < 4; f++) for (long i = 0; i < (long)sets.size(); i++) if (T || i % 4 == 0) sink(Case("bfs", {i + 100 * f, T ? 300000 : 4000}));
        for (long i = 0; i < (long)rsets.size(); i++) sink(Case("reuse", {i, T ? 300000 : 4000}));
        for (long n = 0; n <= 12; n++) for (long k = 0; k < n; k++) for (long j = 0; j < n; j++) sink(Case("wide", {n, k, j}));
        for (long n : {50L, 255L, 256L, 257L, 300L}) for (long k : {0L, 1L, n / 2, n - 2, n - 1}) sink(Case("wide", {n, k, (k * 7 + 3) % n}));
        for (long n = 1; n <= 60; n++) sink(Case("chain", {n}));
        for (long k = 0; k < 8; k++) sink(Case("root", {k}));
        near_cases(T ? 24 : 14, [&](long l, long k, long v) { return sink(Case("near", {l, k, v, 0})) && sink(Case("near", {l, k, v, 1})); });
    };
    ck.run = [](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        if (c.kind.rfind("bfs", 0) == 0) {
            Explorer x = ex();
            x.max_states = c.n[1];
            auto paths = sets[c.n[0] % 100];
            x.invariant = [paths](Env &e) { dump(e, paths); };
            return explore(x, c);
        }
        if (c.kind.rfind("reuse", 0) == 0) {
            Explorer x = reuse();
            x.max_states = c.n[1];
            auto paths = rsets[c.n[0]];
            x.invariant = [paths](Env &e) { dump(e, paths); };
            x.extra = [](Env &) { return owner_text(); };
            x.set_extra = [](Env &, const string &s) { set_owner(s); };
            return explore(x, c);
        }
        if (c.kind == "wide") {
            long n = c.n[0];
            World w;
            w.in = 32; w.out = 40; w.path = 32;
            w.mount("/", {Fr("f", "root")});
            w.mount("/d");
            for (long i = 0; i < n; i++) w.mount("/d/c" + num(i), {Fr("f", num(i))});
            Env e(w);
            e.drive();
            e.send("ls /d\r");
            if (e.err.empty()) do_unmount(e, "/d/c" + num(c.n[1]));
            if (e.err.empty()) e.send("ls /d\rcd /d/c" + num(c.n[1]) + "\rcat /d/c" + num(c.n[1]) + "/f\r");
            if (e.err.empty()) do_unmount(e, "/d/c" + num(c.n[2]));
            if (e.err.empty()) e.send("ls /d\r");
            // the first one comes back, under its old name, then everything is removed
            char buf[32]; snprintf(buf, sizeof buf, "/d/c%ld", c.n[1]);
            if (e.err.empty()) {
                int want = e.m.api_mount(buf, c.n[1] + 1), got = ush_node_mount(e.o, buf, e.mnodes[c.n[1] + 2], e.lists[c.n[1] + 1], 1);
                if (want != got) e.fail("remount returned a wrong status");
                e.send("ls /d\rcat /d/c" + num(c.n[1]) + "/f\r");
            }
            for (long i = 0; i < n && e.err.empty(); i++) {
                do_unmount(e, "/d/c" + num(i));
                if (n < 20 && e.err.empty()) e.send("ls /d\r");
            }
            if (e.err.empty()) do_unmount(e, "/d");
            if (e.err.empty()) e.send("ls /\rls /d\r");
            outcome(e);
            return e.err;
        }
        if (c.kind == "near") {
            auto p = near_names(c.n[0], c.n[1], c.n[2]);
            string a = "/" + (c.n[3] ? p.second : p.first), b = "/" + (c.n[3] ? p.first : p.second);
            World w;
            w.in = 300; w.out = 40; w.path = 200;
            w.mount("/", {Fr("f", "root")});
            w.lists.push_back({Fr("f", "A")}); w.lists.push_back({Fr("f", "B")}); w.lists.push_back({Fr("f", "AB")});
            Env e(w, true);
            char *ca = e.dup(a), *cb = e.dup(b), *cab = e.dup(a + b);
            e.mnodes.resize(1);
            for (int i = 0; i < 3; i++) e.mnodes.push_back(Env::new_node());
            e.drive();
            vector<string> ps = {"/", a, b, a + b};
            do_mount(e, ca, a, 1);
            if (e.err.empty()) do_unmount(e, b);
            if (e.err.empty()) do_mount(e, cb, b, 2);
            if (e.err.empty()) do_mount(e, cab, a + b, 3);
            if (e.err.empty()) dump(e, ps);
            if (e.err.empty()) do_unmount(e, a);
            if (e.err.empty()) do_unmount(e, b);
            if (e.err.empty()) dump(e, ps);
            if (e.err.empty()) do_unmount(e, a + b);
            if (e.err.empty()) do_unmount(e, a);
            if (e.err.empty()) dump(e, ps);
            outcome(e);
            return e.err;
        }
        if (c.kind == "chain") {
            World w;
            w.in = 400; w.out = 40; w.path = 300;
            string p = "/";
            w.mount(p, {Fr("f", "0")});
            vector<string> ps;
            for (long i = 1; i <= c.n[0]; i++) { p = path_join(p, "d" + num(i % 4)); ps.push_back(p); w.mount(p, {Fr("f", num(i))}); }
            Env e(w);
            e.drive();
            for (auto &q : ps) if (e.err.empty()) e.send("cd " + q + "\rcat f\rls\r");
            if (e.err.empty()) do_unmount(e, "/d1");
            for (size_t i = ps.size(); i-- > 0 && e.err.empty();) {
                do_unmount(e, ps[i]);
                if (e.err.empty()) e.send("pwd\rls\rcd " + ps[i] + "\r");
                if (e.err.empty()) do_unmount(e, ps[i]);
            }
            return e.err;
        }
        // root is taken away (when empty) and mounted again with another file list before the shell runs on
        World w;
        w.in = 32; w.out = 40; w.path = 24;
        w.lists.push_back({Fr("f", "one")});
        w.lists.push_back({Fr("f", "two"), Fx("g", X_PRINT)});
        w.lists.push_back({Fr("f", "sub")});
        Env e(w, false);
        char *root = e.dup("/"), *sub = e.dup("/s");
        for (int i = 0; i < 3; i++) e.mnodes.push_back(Env::new_node());
        e.begin();
        e.m.clear_queue();
        for (long i = 0; i < 3 && e.err.empty(); i++) {
            long k = (c.n[0] >> i) & 1;
            do_mount(e, root, "/", k);
            if (i == 0) e.m.welcome();
            e.drive();
            e.send("ls\rcat f\rpwd\r");
            if (e.err.empty()) do_mount(e, sub, "/s", 2);
            if (e.err.empty()) e.send("cd s\rls\rcat f\r");
            if (e.err.empty()) do_unmount(e, "/");
            if (e.err.empty()) do_mount(e, root, "/", 1 - k);
            if (e.err.empty()) do_unmount(e, "/s");
            if (e.err.empty()) e.send("pwd\rls /\r");
            if (e.err.empty()) do_unmount(e, "/");
        }
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
