// C26: changes at run time. Directories and command groups may come and go, and the current directory may be set, at
// any service call and from any file callback: a command in progress shows the state before or after the change,
// later lines show the state after it.
#include "stepx.h"
#include "dims.h"
using namespace mc;

struct Call { int k; long i; string p; };    // 0 mount spare i at p, 1 unmount p, 2 add group i, 3 remove group i, 4 set_current_dir p
typedef vector<Call> Op;
static const vector<Op> &ops() {
    static const vector<Op> v = {
        {{0, 0, "/new"}}, {{0, 0, "/dev/new"}}, {{0, 1, "/dev/bus/n"}}, {{1, 0, "/dev2"}}, {{1, 0, "/dev/bus/i2c"}}, {{1, 0, "/etc"}},
        {{2, 0, ""}}, {{3, 0, ""}}, {{3, 1, ""}}, {{4, 0, "/dev"}}, {{4, 0, "/"}}, {{4, 0, "/dev/bus"}},
        {{1, 0, "/dev2"}, {0, 0, "/dev2"}}, {{1, 0, "/dev/bus/i2c"}, {1, 0, "/dev/bus"}, {0, 1, "/dev/bus"}}, {{3, 0, ""}, {3, 1, ""}, {2, 0, ""}},
        {{1, 0, "/dev"}}, {{1, 0, "/nope"}}, {{0, 0, "/x/y"}}, {{0, 0, "/"}}, {{4, 0, "/nope"}},
        {{1, 0, "/etc"}, {1, 0, "/dev2"}, {0, 0, "/a1"}, {0, 1, "/a2"}, {4, 0, "/a1"}},
    };
    return v;
}
enum { NOP = 21 };
static World world() {
    World w = tree_world();
    List l;
    for (int i = 0; i < NOP; i++) l.push_back(Fx("op" + num(i), X_HOOK + i));
    for (int i = 0; i < NOP; i++) { FSpec f = Frw("w" + num(i), ""); f.sx = X_HOOK + i; l.push_back(f); }
    w.mount("/o", l);
    w.group({Fx("go", X_PRINT), Fx("run", X_PRINT_NN)});
    w.gexec = true;
    w.lists.push_back({Fr("f", "spare0"), Frw("led", "s0"), Fx("ver", X_PRINTF), Fx("run", X_PRINT)});
    w.lists.push_back({Fr("ro", "spare1"), Fx("go", X_SILENT), F("led")});
    w.lists.push_back({D(Fx("ver", X_SILENT), "new ver"), Fx("pwd", X_PRINT), Fx("late", X_ARG), Fx("lsx", X_ARG)});
    return w;
}
// index of the spare lists in world lists
static int nlists(const World &w) { return (int)w.lists.size(); }
struct Spare { vector<ush_node_object *> nodes; ush_node_object *group; };
static std::map<Env *, Spare> &spares() { static std::map<Env *, Spare> m; return m; }
static vector<char *> &paths() { static vector<char *> v; return v; }
static char *cpath(const string &p) {
    static std::map<string, char *> m;
    auto &c = m[p];
    if (!c) c = strdup(p.c_str());
    return c;
}
static int model_call(Model &m, const Call &c) {
    int n = (int)m.w->lists.size();
    switch (c.k) {
    case 0: return m.api_mount(c.p, n - 3 + c.i);
    case 1: return m.api_unmount(c.p);
    case 2: m.groups.insert(m.groups.begin(), n - 1 + 1); return 0;
    case 3: {
        int id = m.w->groups[c.i] + 1;
        auto it = std::find(m.groups.begin(), m.groups.end(), id);
        if (it == m.groups.end()) return S_NODE_NOT_FOUND;
        m.groups.erase(it);
        return 0;
    }
    default: { int r = m.api_cd(c.p); return r ? 1 : 0; }
    }
}
static int real_call(Env &e, const Call &c) {
    Spare &s = spares()[&e];
    int n = nlists(*e.w);
    Inside in_;
    switch (c.k) {
    case 0: return ush_node_mount(e.o, cpath(c.p), s.nodes[c.i], e.lists[n - 3 + c.i], e.list_size(n - 3 + c.i));
    case 1: return ush_node_unmount(e.o, cpath(c.p));
    case 2: return ush_commands_add(e.o, s.group, e.lists[n - 1], e.list_size(n - 1));
    case 3: return ush_commands_remove(e.o, e.gnodes[c.i]);
    default: return ush_node_set_current_dir(e.o, c.p.c_str()) ? 1 : 0;
    }
}
static void model_op(Model &m, int k) { for (auto &c : ops()[k]) model_call(m, c); }
// the return values do not depend on what is in progress; judged against a copy of the model
static void real_op(Env &e, int k, const Model &before) {
    Model m = before;
    for (auto &c : ops()[k]) {
        int want = model_call(m, c), got = real_call(e, c);
        if (want != got) { e.fail("runtime call " + num(c.k) + " " + c.p + " returned " + num(got) + ", expected " + num(want)); return; }
    }
}
static Env &env(long start) {
    static std::map<long, std::unique_ptr<Env>> es; static std::map<long, Env::Snap> sn; static World w = world();
    static const vector<string> cds = {"", "cd dev\r", "cd dev2\r", "cd dev/bus/i2c\r"};
    auto &p = es[start];
    if (!p) {
        p.reset(new Env(w, false));
        for (auto &c : w.mounts) p->cpaths.push_back(p->dup(c.first));
        p->arena->seal();
        for (size_t i = 0; i < w.mounts.size(); i++) p->mnodes.push_back(Env::new_node());
        for (size_t i = 0; i < w.groups.size(); i++) p->gnodes.push_back(Env::new_node());
        Spare s;
        for (int i = 0; i < 2; i++) { s.nodes.push_back(Env::new_node(0xA5)); p->mnodes.push_back(s.nodes.back()); }
        s.group = Env::new_node(0xA5); p->mnodes.push_back(s.group);
        spares()[p.get()] = s;
        p->boot();
        p->hook = [](Env &e, int k, int, char **) { Model m = e.m; (void)m; for (auto &c : ops()[k]) real_call(e, c); };
        p->m.hook = [](Model &m, int k, const vector<string> &) { model_op(m, k); m.prompt(); };
        p->drive();
        if (cds[start].size()) p->send(cds[start]);
        if (!p->err.empty()) { fprintf(stderr, "setup: %s\n", p->err.c_str()); abort(); }
        sn[start] = p->snap();
    }
    p->on_io = nullptr; p->on_getter = nullptr; p->on_gexec = nullptr; p->keep = false; p->lockstep = true; p->read_ready = p->write_ready = nullptr;
    p->restore(sn[start]);
    return *p;
}
static vector<string> scripts() {
    auto v = command_lines();
    for (const char *s : {"ls /dev\r", "ls dev2\r", "cat ro /dev2/led var\r", "cat /dev2/led /dev/bus/led /dev2/led\r", "cd dev2\r", "cd /etc\r", "cd /dev/bus/i2c\r", "xxd /dev2/led\r", "/dev/bus/scan a\r", "go\r", "late x\r", "help go\r", "ls ..\r", "cat ../dev2/led\r", "echo q > /dev2/led\r",
                          "cd ..\r"}) v.push_back(s);
    vector<string> r;
    for (auto &s : v) if (s.find('\x09') == string::npos) r.push_back(s);
    return r;
}
static vector<string> tabs() { return {"\x09", "d\x09", "l\x09", "e\x09", "n\x09", "v\x09", "g\x09\x09", "r\x09\x09", "o\x09", "p\x09", "ls d\x09", "ls /d\x09", "ls /dev/\x09", "lat\x09", "q \x09", "w\x09\x09", "b\x09", "i\x09", "ls dev\x09\x09"}; }
static const string battery = "pwd\rls\rls /\rls /dev\rcat led\rver a\rrun b\rhelp\rcd /dev2\rpwd\rls /dev/bus\rcat /dev2/led /dev2/f\rlate z\rcd /dev/bus\rls\rcat ro\r";
static const string brief = "pwd\rls\rver a\rcd /dev2\rcat led\rhelp\r";
// everything the model would emit for the pending queue, as one string with callbacks marked
static string drain(Model &m) {
    string s;
    for (size_t i = m.qh; i < m.q.size(); i++) if (m.q[i].cb) s += "\x01<" + m.cbs[m.q[i].id] + "\x02"; else s += m.q[i].ch;
    m.clear_queue();
    return s;
}

int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C26";
    ck.bounds = "21 changes (mount, unmount, replace a directory, add/remove/replace command groups, change directory, rejected calls, combinations) at every service call of 58 lines from 4 working directories, and of 19 completions; made from a command's callback, from the general exec callback before each of the 58 lines is looked up, from a setter, and from each "
                "getter call of cat with 1..3 files; all ordered pairs of changes at the prompt and at all pairs of service calls on a stride (thorough: every pair for 12 lines); each followed by a read-back of tree, commands and files; sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    auto sc = scripts(); auto tb = tabs();
    auto steps_of = [](const string &s, long start) { Env &e = env(start); uint64_t s0 = e.steps; e.send(s); return (long)(e.steps - s0); };
    auto memo = std::make_shared<std::map<string, long>>();
    auto steps = [=](const string &s, long start) { string k = num(start) + s; auto it = memo->find(k); if (it != memo->end()) return it->second; return (*memo)[k] = steps_of(s, start); };
    ck.enumerate = [sc, tb, steps](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(26, tier == "thorough", sink);
        session_cases({SES_INSIDE}, sink);
        bool T = tier == "thorough";
        for (long a = 0; a < NOP; a++) for (long b = 0; b < NOP; b++) for (long st = 0; st < 4; st++) sink(Case("idle", {a, b, st}));
        for (long a = 0; a < NOP; a++) for (long st = 0; st < 4; st++) { sink(Case("exec", {a, st})); sink(Case("set", {a, st})); for (long g = 0; g < 3; g++) for (long f = 0; f < 6; f++) sink(Case("get", {a, st, g, f})); }
        for (long a = 0; a < NOP; a++) for (long st = 0; st < 4; st++) for (long i = 0; i < (long)sc.size(); i++) sink(Case("gexec", {a, st, i}));
        for (long st = 0; st < 4; st++) for (long i = 0; i < (long)sc.size(); i++) {
            long n = steps(sc[i], st);
            if (n < 0) continue;
            for (long a = 0; a < NOP; a++)
                for (long k = 0; k <= n; k++) if (T || k < 40 || (k + a + st) % 3 == 0) sink(Case("step", {a, st, k, i}));
        }
        for (long st = 0; st < 4; st++) for (long i = 0; i < (long)tb.size(); i++) {
            long n = steps(tb[i], st);
            for (long a = 0; a < NOP; a++) for (long k = 0; k <= n; k++) sink(Case("tab", {a, st, k, i}));
        }
        if (T) for (long i = 0; i < (long)sc.size(); i += 5) {
            long n = steps(sc[i], 0);
            for (long a = 0; a < NOP; a++) for (long k = 0; k <= n; k += 3) for (long k2 = k; k2 <= n; k2 += 7) sink(Case("two", {a, (a * 5 + k2) % NOP, k, k2, i}));
        }
    };
    ck.run = [sc, tb](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        if (c.kind == "idle") {
            Env &e = env(c.n[2]);
            for (int i = 0; i < 2 && e.err.empty(); i++) {
                if (i == 1 && c.n[0] == c.n[1]) break;
                // a spare node or group already in use is not handed in again
                bool reuse = false;
                if (i == 1) for (auto &x : ops()[c.n[0]]) for (auto &y : ops()[c.n[1]]) if ((x.k == 0 && y.k == 0 && x.i == y.i) || (x.k == 2 && y.k == 2)) reuse = true;
                if (reuse) break;
                real_op(e, (int)c.n[i], e.m);
                model_op(e.m, (int)c.n[i]);
                if (e.err.empty()) e.send(i ? battery : "pwd\rls\r");
            }
            if (c.n[0] == c.n[1] && e.err.empty()) e.send(battery);
            outcome(e);
            return e.err;
        }
        if (c.kind == "exec" || c.kind == "set") {
            Env &e = env(c.n[1]);
            string p = c.kind == "exec" ? "/o/op" + num(c.n[0]) + " arg\r" : "echo text > /o/w" + num(c.n[0]) + "\r";
            e.send(p);
            if (e.err.empty()) e.send(battery);
            outcome(e);
            return e.err;
        }
        if (c.kind == "gexec") {
            // the general callback runs before the line's command is looked up
            Env &e = env(c.n[1]);
            int a = (int)c.n[0];
            e.on_gexec = [a](Env &v) { for (auto &x : ops()[a]) real_call(v, x); v.on_gexec = nullptr; };
            e.m.on_gexec = [a](Model &m) { model_op(m, a); m.on_gexec = nullptr; };
            e.send(sc[c.n[2]]);
            e.on_gexec = nullptr; e.m.on_gexec = nullptr;
            if (e.err.empty()) e.send(battery);
            outcome(e);
            return e.err;
        }
        if (c.kind == "get") {
            static const vector<string> cats = {"cat /dev2/led\r", "cat /dev2/led /dev2/led\r", "cat /ro /dev2/led /dev/bus/led\r", "cat led led\r", "cat /dev/bus/led /var /dev2/led\r", "xxd /dev2/led\r"};
            Env &e = env(c.n[1]);
            long g = c.n[2], n = 0, a = c.n[0];
            bool xx = c.n[3] == 5;
            if (xx && g) return "";
            e.on_getter = [&n, g, a](Env &e, FileId) { if (n++ == g) for (auto &x : ops()[a]) real_call(e, x); };
            bool applied = false;
            e.m.on_get = [g, a, &applied](Model &m, int i) { if (i - 1 == g) { model_op(m, (int)a); applied = true; } };
            if (xx) {
                // one getter call: the answer is the old contents, the prompt the new state
                e.lockstep = false; e.keep = true; e.output.clear();
                e.send(cats[5]);
                Model m = e.m; m.clear_queue();
                for (char ch : cats[5]) { if (ch == '\r') { } m.feed(ch); }
                string t = drain(m), old = t, p0;
                Model mp = m; mp.clear_queue(); mp.prompt(); p0 = drain(mp);
                bool got = t.find("\x01<get") != string::npos;
                if (got) model_op(m, (int)a);
                mp = m; mp.clear_queue(); mp.prompt();
                t = t.substr(0, t.size() - p0.size()) + drain(mp);
                string bytes;
                for (size_t i = 0; i < t.size(); i++) { if (t[i] == 1) { i = t.find('\x02', i); continue; } bytes += t[i]; }
                if (e.output != bytes) return "xxd of a file whose getter changes the tree printed \"" + vis(e.output) + "\", expected \"" + vis(bytes) + "\"";
                m.clear_queue(); m.on_get = nullptr;
                e.m = m; e.lockstep = true; e.keep = false; e.on_getter = nullptr;
            } else {
                e.send(cats[c.n[3]]);
                e.on_getter = nullptr; e.m.on_get = nullptr;
            }
            if (e.err.empty()) e.send(battery);
            outcome(e);
            return e.err;
        }
        if (c.kind == "step" || c.kind == "two") {
            bool two = c.kind == "two";
            Env &e = env(two ? 0 : c.n[1]);
            string line = sc[c.n[two ? 4 : 3]];
            vector<std::pair<long, int>> when;
            if (two) { when = {{c.n[2], (int)c.n[0]}, {c.n[3], (int)c.n[1]}}; } else when = {{c.n[2], (int)c.n[0]}};
            if (two) {
                for (auto &x : ops()[c.n[0]]) for (auto &y : ops()[c.n[1]]) if ((x.k == 0 && y.k == 0 && x.i == y.i) || (x.k == 2 && y.k == 2)) return "";
                if (c.n[0] == c.n[1]) return "";
            }
            // keep the model as it was when the line's last byte was read
            Model before = e.m;
            e.input = line; e.ipos = 0;
            long s0 = 0;
            string done;                                        // what has been seen of the answer since then
            // phase 1: up to the first change, in lockstep
            while (s0 < when[0].first && e.err.empty()) {
                if (e.m.queue_empty() && e.ipos < e.input.size()) { before = e.m; }
                e.step(); s0++;
            }
            if (!e.err.empty()) return e.err;
            if (e.m.queue_empty()) {
                // nothing under way: the next line sees the change
                real_op(e, when[0].second, e.m);
                model_op(e.m, when[0].second);
                if (two) { for (; s0 < when[1].first && e.err.empty(); s0++) { e.step(); } if (e.err.empty() && e.m.queue_empty()) { real_op(e, when[1].second, e.m); model_op(e.m, when[1].second); } }
                if (e.err.empty()) e.drive();
                if (e.err.empty()) e.send(brief);
                outcome(e);
                return e.err;
            }
            // what the last byte read has caused so far
            for (size_t i = 0; i < e.m.qh; i++) if (e.m.q[i].cb) done += "\x01<" + e.m.cbs[e.m.q[i].id] + "\x02"; else done += e.m.q[i].ch;
            char last = e.ipos ? e.input[e.ipos - 1] : 0;
            // candidates: how much of the changes the command saw, and how much its prompt saw
            struct Cand { string text; Model m; };
            vector<Cand> cand;
            vector<Call> calls = ops()[when[0].second];
            if (two) for (auto &x : ops()[when[1].second]) calls.push_back(x);
            auto upto = [&](Model m, size_t from, size_t to) { for (size_t i = from; i < to; i++) model_call(m, calls[i]); return m; };
            auto prompt_of = [](Model m) { m.clear_queue(); m.prompt(); return drain(m); };
            for (size_t j = 0; j <= calls.size(); j++)
                for (long g = 0; g < 4; g++) {                 // g: which getter call was the last before the change (0: change before or after as a whole)
                    Model m = upto(before, 0, j);
                    m.clear_queue();
                    bool hit = false;
                    size_t jj = j;
                    if (g) m.on_get = [&](Model &mm, int i) { if (i == g) { for (size_t q = jj; q < calls.size(); q++) model_call(mm, calls[q]); hit = true; } };
                    m.feed(last);
                    m.on_get = nullptr;
                    if (g && !hit) break;
                    string t = drain(m);
                    string p0 = prompt_of(m);
                    bool pr = t.size() >= p0.size() && t.compare(t.size() - p0.size(), p0.size(), p0) == 0 && (last == '\r' || last == 3);
                    Model rest = hit ? m : upto(m, j, calls.size());
                    rest.clear_queue();
                    cand.push_back({t, rest});
                    // a listing under way: the directory was chosen before the change, its contents are read after it
                    auto words = Model::tokenize(before.line);
                    if (j == 0 && !g && last == '\r' && words.size() && words[0] == "ls") {
                        string d = words.size() > 1 ? before.norm(before.resolve(words[1])) : before.cwd;
                        Model aft = upto(m, 0, calls.size());
                        if (before.has_dir(d) && aft.has_dir(d)) {
                            string l0 = m.ls_text(d), t2 = t.substr(0, t.size() - p0.size());
                            size_t z = t2.find(l0);
                            if (z != string::npos) cand.push_back({t2.replace(z, l0.size(), aft.ls_text(d)) + prompt_of(aft), rest});
                        }
                    }
                    if (pr && !hit) for (size_t q = j + 1; q <= calls.size(); q++) cand.push_back({t.substr(0, t.size() - p0.size()) + prompt_of(upto(m, j, q)), rest});
                }
            Model now = e.m; now.clear_queue();
            e.lockstep = false;
            string rec;
            // record bytes and callbacks in order
            e.keep = true; e.output.clear(); e.cblog.clear();
            size_t ncb = 0, no = 0;
            auto pull = [&] { while (ncb < e.cblog.size()) rec += "\x01<" + e.cblog[ncb++] + "\x02"; rec += e.output.substr(no); no = e.output.size(); };
            real_op(e, when[0].second, now);
            bool second = !two, judge = calls.size() == 1;   // with several changes during one line only safety is judged
            for (long i = 0; i < 200000; i++) {
                if (!second && s0 >= when[1].first) { second = true; for (auto &x : ops()[when[1].second]) real_call(e, x); }
                e.step(); s0++;
                pull();
                if (!e.err.empty()) return e.err;
                if (second && e.starved) break;
                if (!second && e.starved && e.ipos >= e.input.size()) { second = true; for (auto &x : ops()[when[1].second]) real_call(e, x); }
                if (e.n_read && !e.starved) {                   // the next byte of the same input has been read
                    break;
                }
            }
            string rest_in = e.input.substr(e.ipos - ((e.n_read && !e.starved) ? 1 : 0));
            vector<Cand> ok;
            string got = done + rec;
            for (auto &x : cand) if (x.text == got) ok.push_back(x);
            if (ok.empty() && judge) {
                string s = "with change " + num(when[0].second) + " after " + num(when[0].first) + " service calls the shell answered \"" + vis(got) + "\"; allowed:";
                std::set<string> u;
                for (auto &x : cand) if (u.insert(x.text).second) s += "\n  \"" + vis(x.text) + "\"";
                return s;
            }
            rec.clear();
            e.drive();
            if (e.err.empty()) { e.input.clear(); e.ipos = 0; e.input = brief; e.drive(); }
            if (!e.err.empty()) return e.err;
            if (!judge) return "";
            pull();
            string first;
            for (auto &x : ok) {
                Model m = x.m;
                for (char ch : rest_in + brief) m.feed(ch);
                // callbacks and bytes are recorded per service call, in which at most one of both happens
                string want, cbs;
                for (auto &ev : m.q) if (ev.cb) cbs += m.cbs[ev.id] + ";"; else want += ev.ch;
                string gw, gc;
                gw = rec; string bytes, gcs;
                for (size_t i = 0; i < gw.size(); i++) { if (gw[i] == 1) { size_t z = gw.find("\x02", i); gcs += gw.substr(i + 2, z - i - 2) + ";"; i = z; } else bytes += gw[i]; }
                if (bytes == want && gcs == cbs) { stats().state(hash_str(m.state())); return ""; }
                first = "later lines answered \"" + vis(bytes) + "\" with callbacks " + gcs + ", expected \"" + vis(want) + "\" with " + cbs;
            }
            return first;
        }
        if (c.kind == "tab") {
            // whatever completion makes of the change: what is shown is what runs, and later lines are right
            Env &e = env(c.n[1]);
            long s0 = 0;
            e.input = tb[c.n[3]]; e.ipos = 0;
            Model start = e.m;
            e.lockstep = false; e.keep = true; e.output.clear();
            for (; s0 < c.n[2]; s0++) e.step();
            for (auto &x : ops()[c.n[0]]) real_call(e, x);
            e.drive();
            if (!e.err.empty()) return e.err;
            // the line as a terminal shows it
            size_t ps = e.output.rfind("]$ ");
            string shown;
            string vis_out = ps == string::npos ? e.output : e.output.substr(ps + 3);
            if (ps != string::npos && MC_STYLES) { if (vis_out.compare(0, 4, ST_RESET) != 0) return "prompt not finished"; vis_out = vis_out.substr(4); }
            for (char ch : vis_out) { if (ch == 8) { if (shown.size()) shown.pop_back(); } else shown += ch; }
            for (size_t z; (z = shown.find("\x08 \x08")) != string::npos;) shown.erase(z ? z - 1 : 0, z ? 4 : 3);
            e.cblog.clear();
            e.send("z q\r");
            if (!e.err.empty()) return e.err;
            string want = "gexec " + Model::argstr(Model::tokenize(shown + "z q"));
            if (e.cblog.empty() || e.cblog[0] != want) return "the line shows \"" + vis(shown) + "z q\" but " + (e.cblog.empty() ? "nothing" : e.cblog[0]) + " was executed";
            Model m = start;
            model_op(m, (int)c.n[0]);
            m.clear_queue(); m.line = ""; m.esc = 0;
            e.m = m; e.lockstep = true; e.keep = false;
            e.send(brief);
            outcome(e);
            return e.err;
        }
        return "unknown case";
    };
    return mc_main(argc, argv, ck);
}
