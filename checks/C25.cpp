// C25: stack use. The stack needed by a service call does not depend on how many files, directories and commands there
// are, how long names, texts and file contents are, or what happened before; it is bounded by the configured path
// length and by the number of arguments of the line. (No recursion, no copies of user data.)
#include "worlds.h"
using namespace mc;
extern "C" {
static const char *g_in; static size_t g_n, g_p;
static int t_read(ush_object *, char *c) { if (g_p >= g_n) return 0; *c = g_in[g_p++]; return 1; }
static int t_write(ush_object *, char) { return 1; }
static const char *g_data; static size_t g_len;
static size_t t_get(ush_object *, const ush_file_descriptor *, uint8_t **d) { *d = (uint8_t *)g_data; return g_len; }
static void t_set(ush_object *, const ush_file_descriptor *, uint8_t *, size_t) {}
static void t_exec(ush_object *o, const ush_file_descriptor *, int argc, char **argv) { ush_print(o, argv[argc - 1]); }
}
static const size_t AREA = 3 << 19;
// paints the stack below the caller's frame; later tells the deepest byte changed
__attribute__((noinline)) static volatile char *paint() {
    volatile char *top = (volatile char *)__builtin_frame_address(0);
    for (size_t i = 200; i < AREA; i++) top[-(long)i] = (char)0xC7;
    return top;
}
__attribute__((noinline)) static size_t deepest(volatile char *top) { size_t i = AREA - 1; while (i > 200 && top[-(long)i] == (char)0xC7) i--; return i; }
struct Par { string word; long files = 2, dirs = 2, cmds = 2, name = 3, text = 5, data = 5, path = 64, args = 2, hist = 1, depth = 1, in = 600; };
static size_t run(const Par &p, long *calls) {
    std::deque<string> keep;
    auto str = [&](const string &s) { keep.push_back(s); return keep.back().c_str(); };
    vector<ush_file_descriptor> files(p.files), cmds(p.cmds);
    auto fill = [&](vector<ush_file_descriptor> &v, const char *pre) {
        for (size_t i = 0; i < v.size(); i++) {
            memset(&v[i], 0, sizeof v[i]);
            v[i].name = str(pre + num(i) + rep("n", p.name)); v[i].description = str(rep("d", p.text)); v[i].help = str(rep("h", p.text));
            v[i].get_data = t_get; v[i].set_data = t_set; v[i].exec = t_exec;
        }
    };
    fill(files, "f"); fill(cmds, "c");
    string data = rep("x", p.data);
    g_data = data.c_str(); g_len = data.size();
    vector<char> in(p.in), out(64);
    ush_io_interface io = {t_read, t_write};
    ush_descriptor d; memset(&d, 0, sizeof d);
    d.io = &io; d.input_buffer = in.data(); d.input_buffer_size = p.in; d.output_buffer = out.data(); d.output_buffer_size = out.size(); d.path_max_length = p.path; d.hostname = (char *)"h";
    ush_object o; memset(&o, 0, sizeof o);
    vector<ush_node_object> nodes(p.dirs + p.depth + 2);
    ush_node_object g;
    ush_init(&o, &d);
    ush_node_mount(&o, "/", &nodes[0], files.data(), files.size());
    for (long i = 0; i < p.dirs; i++) ush_node_mount(&o, str("/d" + num(i)), &nodes[1 + i], files.data(), files.size());
    string dp = "";
    for (long i = 0; i < p.depth && dp.size() + 3 < (size_t)p.path - 12; i++) { dp += "/z"; ush_node_mount(&o, str(dp), &nodes[1 + p.dirs + i], files.data(), files.size()); }
    if (p.cmds) ush_commands_add(&o, &g, cmds.data(), cmds.size());
    string f0 = string("f0") + rep("n", p.name), line = "ls\rls /d1\rhelp\rcat " + f0 + "\rxxd " + f0 + "\recho abc > " + f0 + "\recho x\rcd /d1\rls ..\rpwd\rcd " + dp + "\rpwd\rls\rcd ../..\rcd /\rls /nope\rcat nope\r\x09l\x09\r" "f\x09\r" "f0\x09\r" "c0" "\x09 q\r/d\x09\r" + f0 + " a b\r";
    string lng = f0;
    for (long i = 1; i < p.args; i++) lng += " a";
    lng += "\rcat";
    for (long i = 1; i < p.args; i++) lng += " nope";
    lng += "\r";
    if (p.word.size()) lng += p.word + "\rcat " + p.word + "\rls " + p.word + "\rcd " + p.word + "\rhelp " + p.word + "\recho x > " + p.word + "\rxxd " + p.word + "\recho " + p.word + "\r" + p.word + "\x09\x03";
    string input;
    for (long i = 0; i < p.hist; i++) input += line;
    input += lng;
    g_in = input.c_str(); g_n = input.size(); g_p = 0;
    volatile char *top = paint();
    long n = 0; int idle = 0;
    for (; n < 60000000 && idle < 3; n++) { if (!ush_service(&o)) { if (g_p >= g_n) idle++; } else idle = 0; if ((n & 0xffff) == 0) stats().beat(); }
    stats().transitions += n;
    *calls = n;
    ush_node_unmount(&o, dp.c_str());
    ush_node_set_current_dir(&o, dp.c_str());
    if (p.cmds) ush_commands_remove(&o, &g);
    ush_reset(&o);
    ush_deinit(&o);
    return deepest(top);
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C25";
    ck.bounds = "deepest stack byte touched over all service calls of a session with every built-in command, completion, file and error, for numbers of files, directories, commands 0..300, directory depth to 40, name, text and data lengths to 300/1000/70000, sessions repeated up to 50 times (each must need no "
                "more than the small world plus alignment), every path limit 16..1000 (at most 32 bytes of stack per path byte), 0..250 arguments (at most 64 bytes per argument) and words of 1..1200 characters and path parts (at most 64 bytes per character)";
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> sink) {
        bool T = tier == "thorough";
        for (long k = 0; k < 9; k++) for (long n = 1; n <= 300; n = T || n < 24 ? n + 1 : n + 23) sink(Case("grow", {k, n}));
        for (long n = 2000; n <= 70000; n += 17000) sink(Case("grow", {5, n}));
        for (long p = 20; p <= 1000; p += T ? 1 : 7) sink(Case("path", {p}));
        for (long l = 1; l <= 1200; l += T ? 7 : 50) for (long k = 0; k < 5; k++) sink(Case("word", {l, k}));
        for (long a = 0; a <= 250; a += T ? 1 : 3) sink(Case("args", {a}));
    };
    ck.run = [](const Case &c) -> string {
        static std::map<long, size_t> bases;                          // small session, per path limit
        long calls;
        auto small = [&](long path, const string &word = "") { Par q; q.path = path; q.word = word; size_t &b = bases[path * 10000 + word.size()]; if (!b) { run(q, &calls); b = run(q, &calls); } return b; };   // the first run also resolves symbols
        Par p;
        size_t base = small(64);
        if (base > 60000) return "a small session needs " + num(base) + " bytes of stack";
        size_t limit = base + 64;
        if (c.kind == "grow") {
            long n = c.n[1];
            switch (c.n[0]) {
            case 0: p.files = n; break;
            case 1: p.dirs = n + 1; break;
            case 2: p.cmds = n; break;
            case 3: p.name = n; p.path = 400; limit = small(400, "f0" + rep("n", n)) + 64; break;   // the name is typed, too
            case 4: p.text = n * 3; break;
            case 5: p.data = n; break;
            case 6: p.hist = 1 + n / 6; break;
            case 7: p.depth = 1 + n / 8; p.path = 100; limit = small(100) + 64; break;
            case 8: p.in = 300 + n * 100; break;
            }
        }
        if (c.kind == "path") { p.path = c.n[0]; limit = base + 64 + 32 * std::max<long>(0, p.path - 64); }
        if (c.kind == "args") { p.args = c.n[0]; p.in = 2000; limit = base + 64 + 64 * p.args; }
        if (c.kind == "word") { static const char *pat[] = {"a", "/", "/a", "../", "./"}; p.in = 2000; while ((long)p.word.size() < c.n[0]) p.word += pat[c.n[1]]; limit = base + 64 + 64 * p.word.size(); }
        size_t got = run(p, &calls);
        if (getenv("MC_SHOW")) return "base " + num(base) + " got " + num(got) + " limit " + num(limit);
        stats().outcome(got); stats().state(hash_bytes(&p, sizeof p));
        if (got > limit) return "a service call needs " + num(got) + " bytes of stack (limit " + num(limit) + ", small session " + num(base) + ")";
        return "";
    };
    return mc_main(argc, argv, ck);
}
