// Worlds (configurations of mounts, files, buffers) shared by several checks.
#pragma once
#include "core.h"

namespace mc {
// A medium directory tree: nested directories, name prefixes, all file permissions, shared names.
inline World tree_world() {
    World w;
    w.in = 96; w.out = 64; w.path = 48;
    w.mount("/", {H(D(Fx("run", X_ARG), "runs"), "run help\r\n"), Frw("var", "root"), Fr("ro", "ro-data\r\n"), Fw("wo"), F("plain")});
    w.mount("/dev", {Frw("led", "0\r\n"), D(Fr("time", "12:00\r\n"), "clock"), Fx("reboot", X_SILENT)});
    w.mount("/dev/bus", {Frw("led", "bus\r\n"), Fx("scan", X_PRINT)});
    w.mount("/dev/bus/i2c");
    w.mount("/dev2", {Fr("led", "two")});
    w.mount("/etc");
    w.group({D(Fx("ver", X_PRINT_NN), "version"), Fx("fmt", X_PRINTF)});
    return w;
}
// Everything long: texts, names, file contents, lines of several hundred bytes.
inline string ramp(size_t n, char first = 'a') { string s; for (size_t i = 0; i < n; i++) s += (char)(first + i * 11 % 26); return s; }
inline World long_world() {
    World w;
    w.in = 640; w.out = 300; w.path = 300;
    string big; for (int i = 0; i < 700; i++) big += (char)(i * 37 + 1);
    string dir = "/" + ramp(150);
    w.mount("/", {Frw("big", big), H(D(Fx("arg", X_ARG), ramp(400)), ramp(600)), Fr("q" + ramp(200) + "1", ramp(300)), Fx("q" + ramp(200) + "2", X_PRINTF), D(Fr("z" + ramp(299), "z"), ramp(40)), Frw("var", "")});
    w.mount(dir, {Fr("u" + ramp(120), ramp(90)), Fx("arg", X_PRINTF)});
    w.mount(dir + "/" + ramp(90, 'A'));
    w.group({D(Fx("v" + ramp(180), X_PRINT_NN), ramp(290)), D(Fx("w" + ramp(310), X_PRINT_NN), ramp(20)), H(Fx("fmt", X_PRINTF), ramp(257))});
    return w;
}
inline vector<string> long_lines() {
    string d = ramp(150);
    return {"cat big\r", "xxd big\r", "help arg\r", "ls\r", "help\r", "arg " + ramp(500) + "\r", "echo " + ramp(400) + "\r", "echo " + ramp(300) + " > var\r", "cd " + d + "\r", "cd " + d + "/" + ramp(90, 'A') + "/..\rpwd\r",
            "q\x09\x09", "q\x09" "2\r", "z\x09\r", "cat /q\x09", "v\x09\r", ramp(550) + "\r", "fmt " + ramp(400) + "\r", "cat big big q" + ramp(200) + "1\r", "ls " + d + "\r", "help fmt\r"};
}
inline string run_bytes(const World &w, const string &s) {
    Env e(w);
    e.keep = true;
    e.send(s);
    return e.err;
}
}

namespace mc {
// One live shell per world, rewound to its just-booted state before each use (exact memory image, model included).
inline Env &fresh(const string &key, const std::function<World()> &mk) {
    struct Slot { World w; std::unique_ptr<Env> e; Env::Snap s; };
    static std::map<string, std::unique_ptr<Slot>> slots;
    auto it = slots.find(key);
    if (it != slots.end()) { it->second->e->restore(it->second->s); it->second->e->output.clear(); it->second->e->cblog.clear(); return *it->second->e; }
    if (slots.size() > 200) slots.clear();
    auto &sl = slots[key];
    sl.reset(new Slot);
    sl->w = mk();
    sl->e.reset(new Env(sl->w));
    sl->e->drive();
    sl->s = sl->e->snap();
    return *sl->e;
}
inline void outcome(Env &e) { if (e.lockstep) stats().state(hash_bytes(&e.wh, 8, hash_str(e.m.state()))); }
inline string rep(const string &s, size_t n) { string r; for (size_t i = 0; i < n; i++) r += s; return r; }
inline string num(long v) { return std::to_string(v); }

// Two names that differ in exactly one respect: at position k another letter (v 0), another case (1), the end of one
// of them (2), the top bit (3).
inline std::pair<string, string> near_names(long len, long k, long v) {
    string a;
    for (long i = 0; i < len; i++) a += (char)('a' + i * 7 % 26);
    string b = a;
    if (v == 0) b[k] = b[k] == 'z' ? 'y' : b[k] + 1;
    if (v == 1) b[k] = b[k] - 32;
    if (v == 2) b = a.substr(0, k);
    if (v == 3) b[k] = (char)(b[k] | 0x80);
    return {a, b};
}
// every length and position up to n, then a few around powers of two
inline void near_cases(long n, const std::function<bool(long, long, long)> &f) {
    vector<long> lens;
    for (long i = 1; i <= n; i++) lens.push_back(i);
    for (long i : {31L, 32L, 33L, 63L, 64L, 65L, 80L}) if (i > n) lens.push_back(i);
    for (long l : lens) for (long k = 0; k < l; k++) for (long v = 0; v < 4; v++) { if (v == 2 && k == 0) continue; if (!f(l, k, v)) return; }
}

// The lines used where "any command" is meant: every builtin in every argument shape, user commands, edge inputs.
inline vector<string> command_lines() {
    return {
        "\r", "ls\r", "ls dev\r", "ls /nope\r", "ls a b\r", "cd dev\r", "cd ..\r", "cd /\r", "cd dev/bus\r", "cd\r", "cd nope\r",
        "pwd\r", "pwd x\r", "cat ro\r", "cat var ro /dev/led\r", "cat\r", "cat ro nope\r", "cat wo\r", "xxd ro\r", "xxd\r", "xxd nope\r",
        "xxd var\r", "echo hi\r", "echo\r", "echo \\x41B > var\r", "echo long-text-here > /dev/led\r", "echo x > ro\r", "echo x > nope\r", "echo a b\r",
        "echo \"a b\" > var\r", "help\r", "help ls\r", "help run\r", "help nope\r", "help var\r", "run one two\r", "./run x\r", "fmt q r\r", "ver\r", "plain\r",
        "nosuch a\r", "x\x03", "\x1b[A", "l\x09", "he\x09\r", "c\x08ls\r", " \" \\ \r", "/dev/bus/scan\r", "led\r",
    };
}
} // namespace mc

namespace mc {
// Sizes beyond 16 bits: numbers of files and characters that a shell with plenty of memory may be given.
enum { HUGE_FILES, HUGE_RUN, HUGE_GROUP, HUGE_NAMES, HUGE_NAMES2, HUGE_ECHO, HUGE_TAB, HUGE_TAB2, HUGE_PRINT, HUGE_HOST, HUGE_PATH, HUGE_LEVELS, HUGE_EDIT, HUGE_TAB3, HUGE_TAB4 };
inline string run_huge(long k) {
    World w;
    vector<string> s;
    w.in = 200; w.out = 40; w.path = 40; w.gexec = true;
    auto files = [&](const string &p, long N = 65540) { List l; for (long i = 0; i < N; i++) l.push_back(i % 64 == 3 || i > 65530 ? D(Fx(p + num(i), X_ARG), "d") : i % 5 ? Fx(p + num(i), X_PRINT_NN) : Frw(p + num(i), "x")); return l; };
    switch (k) {
    case HUGE_FILES: w.mount("/", {F("one")}); w.mount("/p", files("f")); s = {"ls p", "cat p/f65535 p/f65530", "help /p/f65537"}; break;
    case HUGE_RUN: w.mount("/", {F("one")}); w.mount("/p", files("f")); s = {"cd p", "f65539 a", "f65536 b", "./f65534 c", "/p/f65537", "../p/f3 d", "f65540", "echo n > f65535", "cat f65535", "xxd f65535"}; break;
    case HUGE_GROUP: w.mount("/", {F("one")}); w.group(files("g")); w.group({Fx("z", X_PRINT)}); s = {"g65539 a", "g65536 b", "z", "g3 d", "g65540", "ls", "help", "help g65535"}; break;
    case HUGE_NAMES: case HUGE_NAMES2:
        w.out = k == HUGE_NAMES ? 40 : 66200; w.in = 66300;
        w.mount("/", {D(Fx(ramp(66000), X_PRINT), "short"), D(H(Fx("x", X_PRINT), ramp(66001)), ramp(66002)), F("y" + ramp(65600)), Fr("r", ramp(66003))});
        w.group({D(Fx("v" + ramp(66000), X_PRINTF), ramp(66007)), Fx("w" + ramp(66000), X_PRINT), H(Fx("u", X_SILENT), ramp(65536))});
        s = {"ls", "help", "help x", "help u", ramp(66000), "v" + ramp(66000) + " q", "cat r", "w" + ramp(65999)};
        break;
    case HUGE_ECHO:
        w.in = 263000; w.mount("/", {Frw("w", "old")});
        for (const string &t : {ramp(66000), rep("\\x41", 65537) + "z", rep("q", 65530) + "\\x00\\xffabc\\x41", string("")}) { s.push_back("echo " + t); s.push_back("echo " + t + " > w"); s.push_back("cat w"); }
        break;
    case HUGE_TAB: w.mount("/", {F("one")}); w.mount("/p", files("f")); s = {"cat /p/f6553\x09\x03", "cd p\r./f65539\x09", "cat f65535\x09", "f6553\x09" "4 \x09\x03"}; break;
    case HUGE_TAB2: w.in = 66300; w.mount("/", {Fx("k" + ramp(3000) + "1", X_PRINT), Fx("k" + ramp(3000) + "2", X_PRINT), Fx("one", X_PRINT)}); s = {"k\x09" "2", "k\x09" "1 a", "o\x09", "cat k\x09\x09\x03"}; break;
    case HUGE_TAB3: w.mount("/", {F("one")}); w.mount("/p", files("f", 65536)); w.mount("/q", files("g", 65537)); s = {"cat /p/f\x09", "cat /q/\x09", "cd q\r\x09\x03"}; break;
    case HUGE_TAB4: w.in = 66700; w.mount("/", {Fx("k" + ramp(65540) + "1", X_PRINT), Fx("k" + ramp(65540) + "2", X_PRINT)}); s = {"k\x09" "2", "a k" + ramp(9) + "\x09\x09\x03"}; break;
    case HUGE_PRINT: w.in = 66300; w.out = 66200; w.mount("/", {Fx("a", X_ARG), Fx("p", X_PRINTF), Fx("q", X_PRINT), Fx("n", X_PRINT_NN)}); for (const char *c : {"a ", "p ", "q ", "n "}) for (long n : {65534, 65537, 66000}) s.push_back(c + ramp(n)); break;
    case HUGE_HOST: w.path = 66300; w.in = 66300; w.host = ramp(66000); w.mount("/", {Fx("a", X_ARG)}); w.mount("/" + ramp(66100)); s = {"a b", "cd " + ramp(66100), "/a c", "pwd", "cd ..", "ls"}; break;
    case HUGE_PATH: {
        w.path = 140000; w.in = 140100;
        string d = "/" + ramp(65530), e = d + "/" + ramp(65540);
        w.mount("/", {Fr("f", "root")}); w.mount("/a", {Fr("f", "a")}); w.mount(d, {Fr("f", "d")}); w.mount(e, {Fr("f", "e")}); w.mount("/" + ramp(65529), {Fr("f", "other")});
        s = {"cd " + d, "cat f", "cd " + ramp(65540), "pwd", "cat f ../f /f", "cd ..", "pwd", "cat " + e + "/f", "ls /", "cd /", "cat " + ramp(65529) + "/f", "cat " + rep("./", 33000) + "a/f", "cd " + rep("a/../", 14000) + "a", "pwd", "cat " + rep("../", 33000) + "f"};
        break;
    }
    case HUGE_LEVELS: {
        // a directory 65 540 levels deep (only its own node is mounted with its parents as the shell requires: a chain)
        w.path = 700; w.in = 1400; string p = "/"; w.mount(p, {Fr("f", "0")});
        for (long i = 1; i <= 300; i++) { p = path_join(p, string(1, 'a' + i % 26)); w.mount(p, {Fr("f", num(i))}); }
        s = {"cd " + p, "pwd", "cat f", "cd " + rep("../", 299), "pwd", "cat f", "cd " + p, "cd " + rep("../", 255), "pwd", "cd " + p, "cd " + rep("../", 256), "pwd", "cd " + p, "cd " + rep("../", 257), "pwd", "cat f"};
        break;
    }
    case HUGE_EDIT:
        w.in = 66300; w.mount("/", {Fx("a", X_ARG)});
        for (long n : {65530, 65534, 65538, 66000}) { s.push_back("a " + ramp(n) + "\x08z"); s.push_back("a " + ramp(n) + rep("\x7f", n) + "end"); s.push_back("a " + ramp(n) + "\x1b[A\x1b[D" + rep("\x08", 65536) + "t"); s.push_back("a " + ramp(n) + rep("\x08", 65535) + "t u"); s.push_back(rep("\x08", 65537) + "a k"); }
        break;
    }
    Env e(w);
    e.drive(4000000);
    for (auto &l : s) if (e.err.empty()) e.send(l.find('\x09') != string::npos && l.back() == '\x03' ? l : l + "\r", 40000000);
    return e.err;
}

// Long sessions: the same operations many times in a row, so that nothing that counts may run over (each answer is followed in lockstep).
enum { SES_EDIT, SES_ESC, SES_ARGS, SES_RUN, SES_ERR, SES_CD, SES_MOUNT, SES_FAIL, SES_GROUP, SES_LS, SES_CAT, SES_XXD, SES_ECHO, SES_HELP, SES_TAB, SES_BREAK, SES_RESET, SES_PRINT, SES_INSIDE, SES_HOST, SES_EMPTY, SES_LINES, SES_TYPED };
inline World session_world() {
    World w;
    w.in = 64; w.out = 40; w.path = 32; w.gexec = true; w.host = "ses"; w.hostcap = 16;
    FSpec sp = Frw("sp", "o"); sp.sx = X_PRINT;
    w.mount("/", {D(Fx("run", X_ARG), "d"), Fr("f", "text\r\n"), Frw("w", "old"), H(Fx("hp", X_PRINTF2), "hp text\r\n"), Fx("pr", X_PRINT), Fx("pf", X_PRINTF), sp, Fr("e", ""), Fx("hk", X_HOOK)});
    w.mount("/d", {Fx("run", X_PRINT_NN), Fr("f", "in d")});
    w.mount("/d/sub", {Fr("f", "in sub")});
    w.lists.push_back({Fx("ls", X_PRINT), Fx("gx", X_ARG), Fr("f", "spare")});
    return w;
}
inline string run_session(long k, long n) {
    World w = session_world();
    if (k == SES_XXD) w.out = 1000;
    const int L = (int)w.lists.size() - 1;
    Env e(w);
    e.mnodes.push_back(Env::new_node()); size_t mn = e.mnodes.size() - 1;
    e.gnodes.push_back(Env::new_node()); size_t gn = e.gnodes.size() - 1;
    e.drive();
    char *sub2 = e.dup("/d/two"), *bad = e.dup("/no/two"), *again = e.dup("/d");
    auto mount = [&](Env &v, char *p) {
        int want = v.m.api_mount(p, L), got;
        { Inside in_; got = ush_node_mount(v.o, p, v.mnodes[mn], v.lists[L], v.list_size(L)); }
        if (want != got) v.fail("mount returned '" + string(status_text(got)) + "', expected '" + status_text(want) + "'");
    };
    auto unmount = [&](Env &v, const char *p) {
        int want = v.m.api_unmount(p), got;
        { Inside in_; got = ush_node_unmount(v.o, p); }
        if (want != got) v.fail("unmount returned '" + string(status_text(got)) + "', expected '" + status_text(want) + "'");
    };
    auto add = [&](Env &v) { { Inside in_; if (ush_commands_add(v.o, v.gnodes[gn], v.lists[L], v.list_size(L))) v.fail("adding a group failed"); } v.m.groups.insert(v.m.groups.begin(), L + 1); };
    auto rem = [&](Env &v) { { Inside in_; if (ush_commands_remove(v.o, v.gnodes[gn])) v.fail("removing a group failed"); } v.m.groups.erase(std::find(v.m.groups.begin(), v.m.groups.end(), L + 1)); };
    long inside = 0;
    e.hook = [&](Env &v, int, int, char **) {
        Inside in_;
        if (inside & 1) { ush_node_unmount(v.o, "/d/two"); ush_commands_remove(v.o, v.gnodes[gn]); ush_node_set_current_dir(v.o, "/d"); }
        else { ush_node_mount(v.o, sub2, v.mnodes[mn], v.lists[L], v.list_size(L)); ush_commands_add(v.o, v.gnodes[gn], v.lists[L], v.list_size(L)); ush_node_set_current_dir(v.o, "/d/two"); }
    };
    e.m.hook = [&](Model &m, int, const vector<string> &) {
        if (inside & 1) { m.api_unmount("/d/two"); m.groups.erase(std::find(m.groups.begin(), m.groups.end(), L + 1)); m.cwd = "/d"; }
        else { m.api_mount("/d/two", L); m.groups.insert(m.groups.begin(), L + 1); m.cwd = "/d/two"; }
        m.prompt();
    };
    auto say = [&](const char *s) { if (e.err.empty()) e.send(s); };
    if (k != SES_RESET && k != SES_MOUNT) say("cd d\r");
    for (long i = 0; i < n && e.err.empty(); i++) {
        switch (k) {
        case SES_EDIT: say("/runx\x08\x7f\x08n ab\x08 c\r"); break;
        case SES_ESC: say("/r\x1b[Au\x1bOBn\x1b\x1b[C q\r"); break;
        case SES_ARGS: say("/run a \"b c\" d\\ e\r"); break;
        case SES_RUN: say(i & 1 ? "run\r" : "/run b\r"); break;
        case SES_ERR: say(i % 3 == 0 ? "nosuch\r" : i % 3 == 1 ? "f\r" : "/d\r"); break;
        case SES_CD: say(i % 3 == 0 ? "cd sub\r" : i % 3 == 1 ? "cd ..\r" : "cd nosuch\r"); break;
        case SES_MOUNT:
            mount(e, sub2); if (i % 256 == 0 || i > n - 3) say("ls /d\rcat /d/two/f\r");
            unmount(e, "/d/two"); if (i % 256 == 0 || i > n - 3) say("ls /d\r");
            break;
        case SES_FAIL: mount(e, bad); mount(e, again); unmount(e, "/d"); unmount(e, "/d/two"); if (i % 4 == 0) say("cat f nosuch\r"); if (i % 4 == 1) say("echo a b /w\r"); if (i % 4 == 2) say("echo a > f\r"); if (i % 4 == 3) say("cd f\r"); break;
        case SES_GROUP: add(e); if (i % 16 == 0 || i > n - 3) say("ls\rgx a\r"); rem(e); if (i % 16 == 0 || i > n - 3) say("gx\rpwd\r"); break;
        case SES_LS: say("ls sub\r"); break;
        case SES_CAT: say(i & 1 ? "cat f\r" : "cat /e f\r"); break;
        case SES_XXD: say("xxd f\r"); break;
        case SES_ECHO: say(i % 4 == 0 ? "echo a\\x00b > /w\r" : i % 4 == 1 ? "echo hi\r" : i % 4 == 2 ? "echo q > /sp\r" : "echo a b\r"); break;
        case SES_HELP: say(i % 8 ? "help /hp\r" : "help /run\r"); break;
        case SES_TAB: say(i % 3 == 0 ? "/r\x09\x03" : i % 3 == 1 ? "cat s\x09/f\r" : "zz\x09\x03"); break;
        case SES_BREAK: say(i & 1 ? "\x03" : "ab\x03"); break;
        case SES_RESET: e.reset(); e.drive(); if (i % 16 == 0) say("pwd\r"); break;
        case SES_PRINT: say(i % 3 == 0 ? "/pf a\r" : i % 3 == 1 ? "/hp\r" : "/pr\r"); break;
        case SES_INSIDE: inside = i; say("/hk\r"); if (i % 64 < 2) say("ls\rgx\rls /d\r"); break;
        case SES_HOST: { string h = "h" + num(i % 100); e.set_host(h); e.m.host = h; say("\r"); break; }
        case SES_EMPTY: say("\r"); break;
        case SES_LINES: say("pwd\n"); break;
        case SES_TYPED: say("pwd\rrun\r\r"); break;
        }
    }
    say("pwd\rls\rcat f\rcat /w /sp\rhelp /hp\rxxd f\recho x > /w\r/run z\rr\x09\rcd ..\rls\r");
    if (e.err.empty()) outcome(e);
    return e.err;
}
inline bool session_cases(std::initializer_list<int> ks, const std::function<bool(const Case &)> &sink) {
    for (int k : ks) for (long n : {300L, 66000L}) if (!sink(Case("session", {k, n}))) return false;
    return true;
}
}
