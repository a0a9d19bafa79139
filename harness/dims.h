// One size at a time: for every property its own script of lines is run in worlds in which one dimension (a buffer, a
// limit, the length of a name or text, a number of files, directories or groups, the length of an argument, the place of
// a word in the line) takes every value from 0 to some hundreds while the others stay small. Everything is in lockstep.
#pragma once
#include "stepx.h"
namespace mc {
enum { D_IN, D_OUT, D_PATH, D_HOST, D_ROOTFILES, D_FILES, D_GROUPS, D_GROUPSIZE, D_DEPTH, D_DIRS, D_PAD, D_BLANKS, D_NAME, D_DESC, D_HELP, D_DATA, D_WORDS, D_DIRNAME, D_BYTE, D_N };
struct Dims { long v[D_N]; };
inline Dims dims_default() {
    Dims d;
    long x[D_N] = {340, 120, 330, 4, 3, 2, 1, 2, 2, 2, 3, 1, 3, 5, 6, 9, 2, 2, 0};
    memcpy(d.v, x, sizeof x);
    return d;
}
// legal range of each dimension (quick: every value up to the second number)
inline std::pair<long, long> dims_range(int k) {
    switch (k) {
    case D_IN: return {2, 340};
    case D_OUT: return {60, 400};
    case D_PATH: return {2, 330};
    case D_DEPTH: return {1, 60};
    case D_DIRNAME: return {1, 200};
    case D_NAME: return {1, 300};
    case D_BYTE: return {1, 255};
    case D_ROOTFILES: case D_FILES: case D_GROUPS: case D_GROUPSIZE: case D_DIRS: return {0, 80};
    case D_PAD: case D_BLANKS: return {0, 345};
    default: return {0, 300};
    }
}
inline string letters(long n, char c) { string s; for (long i = 0; i < n; i++) s += (char)(c + i * 7 % 20); return s; }
struct DimWorld { World w; string cwd, dir, file, pad, blanks, words; };
inline DimWorld dim_world(const Dims &d) {
    DimWorld x;
    World &w = x.w;
    w.in = d.v[D_IN]; w.out = d.v[D_OUT]; w.path = d.v[D_PATH]; w.gexec = true;
    w.host = letters(d.v[D_HOST], 'e');
    x.pad = letters(d.v[D_PAD], 'h'); x.blanks = rep(" ", d.v[D_BLANKS]);
    for (long i = 0; i < d.v[D_WORDS]; i++) x.words += " " + string(1, (char)('a' + i % 26));
    x.file = "m" + letters(d.v[D_NAME] - 1, 'd');
    string data; for (long i = 0; i < d.v[D_DATA]; i++) data += (char)(i * 29 + 3);
    string desc = letters(d.v[D_DESC], 'A'), help = letters(d.v[D_HELP], 'A') + "\r\n", dirname = letters(d.v[D_DIRNAME] - 1, 'c');
    if (d.v[D_BYTE]) {                           // one byte value in the middle of everything
        char b = (char)d.v[D_BYTE];
        for (string *t : {&w.host, &x.pad, &x.file, &data, &desc, &help, &dirname}) if ((b != '/' && b != '\r' && b != '\n') || (t != &x.file && t != &dirname)) t->insert(t->size() / 2 + (t == &x.file), 1, b);
        x.words += string(" ") + b + "y z" + b;
    }
    auto fill = [&](List l, long n, const char *p) {
        for (long i = 0; i < n; i++) l.push_back(i % 3 == 0 ? Fx(p + num(i), X_ARG) : i % 3 == 1 ? Frw(p + num(i), "c" + num(i)) : D(Fr(p + num(i), num(i)), "desc " + num(i)));
        return l;
    };
    FSpec sp = Frw("sp", "o"); sp.sx = X_PRINT;
    List base = {D(H(Fx("go", X_ARG), help), desc), Frw("w", "old"), D(H(Fr(x.file, data), help), desc), Fx("pf", X_PRINTF2), Fx("pr", X_PRINT), sp, Fr("e", ""),
        D(Fr("X" + letters(135, 'd'), "l"), "long"), D(Fr("Y" + letters(128, 'e'), "l"), "long too"), Fr("Z" + letters(130, 'e'), "l"), Fx("ZZ" + letters(130, 'e'), X_PRINT), D(Fr("YY" + letters(120, 'e'), "l"), "and long")};
    w.mount("/", fill(base, d.v[D_ROOTFILES], "r"));
    string p = "";
    for (long i = 0; i < d.v[D_DEPTH]; i++) { p += "/" + string(1, (char)('s' + i % 4)) + dirname; w.mount(p, fill(base, d.v[D_FILES], "q")); }
    x.cwd = p; x.dir = p.substr(p.rfind('/') + 1);
    for (long i = 0; i < d.v[D_DIRS]; i++) w.mount(p + "/n" + num(i), i % 2 ? List{} : List{Fr("f", num(i))});
    for (long i = 0; i < d.v[D_GROUPS]; i++) {
        List l;
        for (long k = 0; k < d.v[D_GROUPSIZE]; k++) l.push_back(k % 2 ? D(Fx("k" + num(i) + "_" + num(k), X_PRINT_NN), desc) : H(Fx("k" + num(k), X_ARG), "g" + num(i) + help));
        if (l.empty()) l.push_back(Fx("k" + num(i), X_PRINT));
        if (i == 0) for (const char *c : {"U", "V"}) { l.push_back(D(Fx(c + letters(133, 'e'), X_PRINT), "long")); l.push_back(Fx(c + letters(134, 'f'), X_PRINT)); }
        w.group(l);
    }
    return x;
}
// the lines that matter for a property
inline vector<string> dim_lines(int prop, const DimWorld &x) {
    const string dots = rep("./", x.pad.size()), &P = x.pad, &B = x.blanks, &F = x.file, &W = x.words, C = x.cwd, Dn = x.dir;
    string cd = "cd " + C + "\r";
    auto tab = [&](const string &s) { return s + "\x09\r"; };
    switch (prop) {
    case 2: return {"go " + P + "\x08\x7fq\r", P + "\x1b[A" + P + "\x08t\r", "g" + P + rep("\x08", P.size() + 3) + "go" + B + "x\r", "pwd" + B + "\n", P + "\x03" + "go " + P + "\n"};
    case 3: return {"go" + B + P + W + "\r", B + "go \"" + P + "\"" + W + B + "\r", "go \"" + P + B + "\"\\ x\r", "go \\" + P + "x" + B + "\\y\\\r", "go \\\"" + P + B + "\\\\ \\ z" + B + "\\x41 \"\\\"\" \"\\x\\ \"\\\"\r", "go " + P + "\\\"" + P + "\\x41\r", B + "\"go\"" + W + " \"" + B + "\"\r"};
    case 4: return {cd, "go " + P + W + "\r", B + "/go" + W + "\r", P + "x" + W + "\r", "w " + P + W + "\r", F + W + "\r", C + "/go " + P + "\r", "./go\r", "/" + P + "\r", "q0 a\r", "r0\r", "/r0 " + P + "\r", Dn + "\r", "k0 " + P + "\r", "k0_1\r", "k1_0" + W + "\r", "/" + P + "/go\r"};
    case 5: return {cd, "cd " + dots + "\r", "cd " + dots + ".\r", "pwd\r", "pwd\r", "cd ../" + Dn + B + "\r", "cd .\r", "cd ..\r", "cd " + P + "\r", "cd " + P + "/..\r", "cd " + C + "/n0\r", "pwd\r", "cat ../" + F + "\r", "cat f ./f " + C + "/n0/f\r", "cd " + P + "x y" + W + "\r", "pwd " + P + W + "\r", "cd\r", "ls ..\r", "cd " + F + "\r", "cd /\r", "pwd\r", "cd " + C + "/" + P + "\r", "cat " + C + "/e /" + F + "\r"};
    case 7: return {cd, "cat " + F + " " + P + "x\r", "cat" + W + "\r", "echo a b " + P + W + "\r", "echo t > " + P + "x\r", "echo t > " + F + "\r", "echo " + P + " > " + F + "\r", "ls a " + P + W + "\r", "ls " + P + "x\r", "help a " + P + W + "\r", "help " + P + "x\r", "help w\r", "xxd " + P + "x\r", "xxd w " + P + W + "\r", "cd " + P + "x\r", "cd " + F + "\r", "xxd go\r", "cat go\r", "cat w\r", "cat" + rep(" w", W.size() / 2) + " go\r", "cat" + rep(" w", W.size() / 2) + " none w\r", "cat w" + rep(" e", W.size() / 4) + " sp pf" + rep(" w", W.size() / 4) + "\r", "pwd\r"};
    case 9: return {cd, "ls\r", "ls .." + B + "\r", "ls /\r", "ls " + C + "\r", "ls n0\r", "ls n1/..\r", "ls " + dots + "\r", "ls " + dots + ".\r", "ls " + P + "\r", "ls " + P + "/..\r", "ls a" + W + " " + P + "\r"};
    case 10: return {cd, "cat " + dots + F + " ./" + dots + "w\r", "cat " + F + "\r", "cat " + F + B + " /" + F + " e w\r", "cat" + rep(" w", W.size() / 2) + "\r", "cat " + P + "x\r", "cat " + C + "/" + F + "\r", "cat q1 q2\r", "cat /r1 /r2\r", "cat ../" + Dn + "/" + F + "\r", "cat w " + P + "x\r", "cat" + rep(" w", W.size() / 2) + " go\r", "cat" + rep(" e", W.size() / 2) + " none w\r"};
    case 11: return {cd, "xxd " + dots + F + "\r", "xxd ./" + dots + "w\r", "xxd " + F + "\r", "xxd" + B + " /" + F + "\r", "xxd e\r", "xxd " + C + "/" + F + "\r", "xxd " + P + "x\r", "xxd a" + W + P + "\r"};
    case 12: return {cd, "echo ab > " + dots + "w\r", "cat w\r", "echo " + P + "\r", "echo \"" + P + B + "\"\r", "echo \\x41" + P + "\\x00\\x0a > w\r", "cat w\r", "echo " + P + " > /w\r", "xxd /w\r", "echo " + P + " > " + P + "x\r", "echo" + W + " " + P + "\r", "echo" + W + "\r", "echo q > " + C + "/w\r", "cat w\r", "echo " + P + "> w\r"};
    case 13: return {cd, "help " + dots + F + "\r", "help\r", "help go\r", "help" + B + " " + F + "\r", "help " + P + "x\r", "help a" + W + " " + P + "\r", "help k0\r", "help k1\r", "help " + C + "/go\r", "help w\r", "help k0_1\r"};
    case 16: return {cd, tab("g"), P + " " + tab("g"), "cat" + B + " " + F.substr(0, F.size() / 2 + 1) + "\x09\r", tab(F.substr(0, 1)), P + " q\x09\x03", P + "z\x09\x08\r", "\x09\x03", P + B + "n\x09\x09" "1\r", P + " k\x09\x09\x03", "go " + P + tab(" p"), "cat " + tab("/" + F.substr(0, 1)), "k0\x09\r", P + " r\x09\x03", "cd " + C + "/n\x09\r"};
    case 18: return {cd, P + "\x03", B + "go " + P + "\x03pwd\r", "\x03", "go" + W + "\x03", "l\x09\x03ls\r", P + "\x1b\x03go\r", "\"" + P + "\x03go " + P + "\r"};
    case 21: return {cd, "pf " + P + W + "\r", "pr " + P + "\r", "echo " + P + " > sp\r", "k0_1\r", "go " + P + W + "\r", "pf" + B + "\r", "k0 " + P + W + "\r"};
    case 28: return {"\r", cd, "\r", "pwd\r", P + "x\r", P + "\x03", "ls n0\r", "cat " + F + "\r", "cd n0\r", "cd ..\r", "g\x09\x09\r", "q\x09\x03", "help\r", "cd /\r", "echo " + P + "\r", "xxd w\r"};
    }
    return {cd, "ls\r", "pwd\r", "go " + P + W + "\r", "cat " + F + " w\r", "xxd " + F + "\r", "help\r", "help go\r", "echo " + P + " > w\r", "cat w\r", "g\x09 " + P + "\r", "q\x09\x03", "pf " + P + "\r", "cd n0\r", "cd ..\r", P + "x\r", B + "k0 " + P + "\r", "ls /\r"};
}
inline long &dim_min_out() { static long n = 0; return n; }
inline string run_dim(int prop, const vector<long> &n) {
    Dims d = dims_default();
    if (prop == 8 || prop == 26) d.v[D_GROUPS] = 3;
    for (size_t i = 0; i + 1 < n.size(); i += 2) d.v[n[i]] = n[i + 1];
    // the input buffer has to be varied around the lines, not below the cd that starts the script
    DimWorld x = dim_world(d);
    x.w.out = std::max((long)x.w.out, dim_min_out());
    Env e(x.w);
    if (prop == 1) e.lockstep = false;
    size_t extra = e.mnodes.size(), root_list = x.w.mounts[0].second, cwd_list = d.v[D_DEPTH] ? x.w.mounts[1].second : root_list;
    e.mnodes.push_back(Env::new_node()); e.mnodes.push_back(Env::new_node());
    e.gnodes.push_back(Env::new_node());
    char *top = e.dup("/zz"), *deep = e.dup(x.cwd + "/zz");
    Pattern pat;
    if (prop == 14) { pat.every_w = 1 + n[1] % 3; pat.attach(e); }
    if (prop == 17) { pat.every_r = 1 + n[1] % 3; pat.every_w = n[1] % 2; pat.attach(e); }
    e.drive();
    auto lines = dim_lines(prop, x);
    if (n[0] == D_BLANKS || n[0] == D_HELP || n[0] == D_HOST) {      // every line also with another end
        static const char *ends[] = {"\\\r", "\"\r", " \r", "\n", "\"\"\r", " \\\n", "\r\n", "\x08\x7f\r"};
        vector<string> more;
        int k = (int)n[1];
        for (auto &l : lines) { more.push_back(l); if (l.size() > 1 && l.back() == '\r') for (int i = 0; i < 2; i++) { more.push_back(l.substr(0, l.size() - 1) + ends[k++ % 8]); if (more.size() % 3) more.push_back(l); } }
        lines = more;
    }
    if (n[0] == D_WORDS || n[0] == D_PAD || n[0] == D_BLANKS) {      // every line also right behind one of that size
        vector<string> two;
        for (auto &l : lines) { two.push_back(l); two.push_back("go" + x.blanks + x.pad + x.words + "\r"); two.push_back(l); }
        lines = two;
    }
    auto check = [&](int want, int got, const char *what) { if (e.err.empty() && want != got) e.fail(string(what) + " returned '" + status_text(got) + "', expected '" + status_text(want) + "'"); };
    auto mount = [&](char *p, int k, int l) { int want = e.m.api_mount(p, l), got; { Inside in_; got = ush_node_mount(e.o, p, e.mnodes[extra + k], e.lists[l], e.list_size(l)); } check(want, got, "mount"); };
    auto unmount = [&](const string &p) { int want = e.m.api_unmount(p), got; { Inside in_; got = ush_node_unmount(e.o, p.c_str()); } check(want, got, "unmount"); };
    auto add = [&] { { Inside in_; ush_commands_add(e.o, e.gnodes.back(), e.lists[cwd_list], e.list_size(cwd_list)); } e.m.groups.insert(e.m.groups.begin(), (int)cwd_list + 1); };
    auto rem = [&](size_t k, int l) { { Inside in_; ush_commands_remove(e.o, e.gnodes[k]); } e.m.groups.erase(std::find(e.m.groups.begin(), e.m.groups.end(), l + 1)); };
    auto say = [&](const string &s) { if (e.err.empty()) e.send(s); };
    if (prop == 6) {
        // mounting and unmounting around what is there
        mount(top, 0, (int)cwd_list); mount(deep, 1, (int)root_list);
        say("ls\rcd " + x.cwd + "\rls\rls /zz\rcat zz/" + x.file + "\r");
        mount(deep, 1, (int)root_list); unmount(x.cwd); unmount("/zz"); say("ls /\rls\r");
        unmount(x.cwd + "/zz"); say("ls\r");
        for (long i = 0; i < d.v[D_DIRS] && e.err.empty(); i++) if (i % 3 != 1) unmount(x.cwd + "/n" + num(i));
        say("ls\rpwd\rcd n1\rpwd\rls /\rcd ..\r");
        if (d.v[D_DIRS] < 2) { unmount(x.cwd); say("pwd\rls\rls /\r"); }
    } else if (prop == 8) {
        say("help\rk0 a\rk0_1\r");
        add(); say("help\rgo a\rpf\rls\r");
        if (d.v[D_GROUPS] > 0) { rem(0, x.w.groups[0]); say("help\rk0 a\rk0_1\rgo b\rls\r"); }
        if (d.v[D_GROUPS] > 2) { size_t k = d.v[D_GROUPS] / 2; rem(k, x.w.groups[k]); say("help\rk0 a\rls\r"); }
        rem(e.gnodes.size() - 1, (int)cwd_list);
        say("help\rk0 a\rk" + num(d.v[D_GROUPS] - 1) + "_1\rls\rcd " + x.cwd + "\rk0\rgo " + x.pad + "\r");
        add(); say("k0\rgo a\rls\r"); rem(e.gnodes.size() - 1, (int)cwd_list); say("k0\rgo a\rg\x09\x09\r");
        add(); rem(e.gnodes.size() - 1, (int)cwd_list); say("xxd " + x.file + "\r"); add(); say("help\rgo x\r");
    } else if (prop == 20) {
        for (auto &l : lines) say(l);
        for (int i = 0; i < 2 && e.err.empty(); i++) {
            say("go " + x.pad.substr(0, x.pad.size() / 2));
            if (i == 0) {
                { Inside in_; ush_deinit(e.o); }
                for (size_t b = 0; b < sizeof *e.o; b++) if (((char *)e.o)[b]) return "object is not cleared by deinit";
                for (size_t k = 0; k < x.w.mounts.size(); k++) for (size_t b = 0; b < sizeof(ush_node_object); b++) if (((char *)e.mnodes[k])[b]) return "node of " + x.w.mounts[k].first + " is not cleared by deinit";
            }
            e.reboot(); e.drive();
            for (size_t k = 0; k < lines.size(); k += 2) say(lines[k]);
        }
    } else if (prop == 26) {
        // every kind of change while a line stands half typed
        say("cd " + x.cwd + "\r");
        for (int k = 0; k < 7 && e.err.empty(); k++) {
            string l = k == 6 ? "cat " + x.pad : "go " + x.pad;
            say(l);
            if (!e.err.empty()) break;
            switch (k) {
            case 0: mount(deep, 1, (int)root_list); break;
            case 1: add(); break;
            case 2: mount(top, 0, (int)cwd_list); break;
            case 3: unmount(x.cwd + "/zz"); break;
            case 4: if (d.v[D_GROUPS]) rem(0, x.w.groups[0]); break;
            case 5: unmount("/zz"); break;
            case 6: rem(e.gnodes.size() - 1, (int)cwd_list); break;
            }
            if (e.err.empty() && k % 2) { string to = k == 1 ? "/" : k == 3 ? x.cwd : "/"; int got; { Inside in_; got = ush_node_set_current_dir(e.o, to.c_str()); } if (got == 0) e.m.cwd = to; else if (to == "/") e.fail("the root cannot be made the current directory"); }
            say(x.words + "\r"); say("ls\rpwd\rhelp\r");
        }
    } else if (prop == 23) {
        string first;
        for (int i = 0; i < 2; i++) for (auto &l : lines) say(l);
    } else if (prop == 18) {
        for (auto &l : lines) say(l);
        for (auto &l : lines) {
            if (!e.err.empty()) break;
            e.input = l; e.ipos = 0;
            for (size_t k = 0; k < l.size() + x.w.in / 3 && e.err.empty(); k++) e.step();
            if (e.err.empty()) { e.reset(); e.drive(); }
            say("pwd\rgo " + x.pad + "\r");
        }
    } else for (auto &l : lines) say(l);
    if (e.err.empty()) outcome(e);
    return e.err;
}
inline bool dim_cases(int prop, bool thorough, const std::function<bool(const Case &)> &sink, bool pairs = true) {
    for (int k = 0; k < D_N; k++) {
        auto r = dims_range(k);
        for (long v = r.first; v <= r.second; v++) if (!sink(Case("dim", {prop, k, v}))) return false;
        // a dimension together with a small buffer or limit, and with a long line
        for (int j : {(int)D_IN, (int)D_OUT, (int)D_PATH, (int)D_PAD, (int)D_DEPTH}) {
            if (j == k || !pairs) continue;
            static const std::map<int, vector<long>> at = {{D_IN, {24, 48, 100}}, {D_OUT, {60, 61, 75}}, {D_PATH, {8, 16, 33}}, {D_PAD, {20, 37, 120}}, {D_DEPTH, {1, 3, 9}}};
            for (long u : at.at(j)) for (long v = r.first; v <= r.second; v += thorough ? 1 : v < 40 ? 3 : 17) if (!sink(Case("dim", {prop, k, v, j, u}))) return false;
        }
    }
    return true;
}
inline string run_dim(const Case &c) { return run_dim((int)c.n[0], vector<long>(c.n.begin() + 1, c.n.end())); }
}
