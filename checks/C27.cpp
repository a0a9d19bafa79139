// C27: the documented helper functions (paths, texts, lookup) return what their documentation promises for every string,
// and write only where they are told to.
#include "worlds.h"
#include "inc/ush_utils.h"
#include "inc/ush_node.h"
#include "inc/ush_file.h"
using namespace mc;

// heap copies of exactly the size needed; the sanitizer guards both ends
struct Buf {
    char *p; size_t n;
    explicit Buf(size_t n_) : p((char *)malloc(n_ ? n_ : 1)), n(n_) { memset(p, 0x5A, n_); }
    Buf(const string &s) : p((char *)malloc(s.size() + 1)), n(s.size() + 1) { memcpy(p, s.c_str(), n); }
    ~Buf() { free(p); }
    Buf(const Buf &) = delete;
};
static string bad(const char *f, const string &in, const string &got, const string &want) {
    return string(f) + "(\"" + vis(in) + "\") gave \"" + vis(got) + "\", expected \"" + vis(want) + "\"";
}
static size_t count(const string &s, char c) { return std::count(s.begin(), s.end(), c); }
static bool canonical(const string &p) { return p.size() && p[0] == '/' && (p == "/" || (p.back() != '/' && p.find("//") == string::npos)); }
static vector<string> split(const string &p) {          // components of a canonical path
    vector<string> v; string c;
    for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') { v.push_back(c); c = ""; } else c += p[i];
    return v;
}

// all of 0..n+2, for huge n only the ones near the ends and near powers of two
static bool skip(size_t i, size_t n) {
    if (n <= 2000 || i < 3 || i + 3 > n) return false;
    for (size_t b : {256, 32768, 65536}) if (i + 1 >= b && i <= b + 1) return false;
    return true;
}
static string test_string(const string &s) {
    Buf in(s);
    bool can = canonical(s), abs = s.size() && s[0] == '/';
    // level count
    size_t n = ush_utils_get_path_levels_count(in.p);
    if (s == "/" && n != 0) return bad("path_levels_count", s, num(n), "0");
    if (can && s != "/" && n != count(s, '/')) return bad("path_levels_count", s, num(n), num(count(s, '/')));
    // last part
    char *l = ush_utils_path_last(in.p);
    if (l < in.p || l > in.p + s.size()) return "path_last(\"" + vis(s) + "\") does not point into the string";
    if ((can && s != "/") || (!abs && s.size() > 1)) { string w = s.substr(s.rfind('/') == string::npos ? 0 : s.rfind('/') + 1); if (w != l) return bad("path_last", s, l, w); }
    if (s.size() == 1 && s != l) return bad("path_last", s, l, s);
    // last argument
    l = ush_utils_get_last_arg(in.p);
    if (l < in.p || l > in.p + s.size()) return "get_last_arg(\"" + vis(s) + "\") does not point into the string";
    { string w = s.substr(s.rfind(' ') == string::npos ? 0 : s.rfind(' ') + 1); if (w != l) return bad("get_last_arg", s, l, w); }
    // path of a level
    if (can) {
        auto v = split(s);
        for (size_t lev = 0; lev <= v.size() + 2; lev++) {
            if (skip(lev, v.size())) continue;
            string w = "";
            if (lev == 0) w = "/"; else if (s == "/") w = "/"; else for (size_t i = 0; i < lev && i < v.size(); i++) w += "/" + v[i];
            Buf o(w.size() + 1);
            ush_utils_get_path_level(lev, in.p, o.p);
            if (w != o.p) return bad(("get_path_level " + num(lev)).c_str(), s, o.p, w);
        }
    } else for (size_t lev = 1; lev < 5; lev++) { Buf o(s.size() + 1); ush_utils_get_path_level(lev, in.p, o.p); if (s.compare(0, strlen(o.p), o.p) != 0) return bad("get_path_level", s, o.p, "a beginning of it"); }
    if (memcmp(in.p, s.c_str(), s.size() + 1)) return "a read-only helper changed its input \"" + vis(s) + "\"";
    // one level up
    { Buf b(s); ush_utils_path_upper(b.p);
      if (s == "/" && *b.p) return bad("path_upper", s, b.p, "");
      if ((can && s != "/") || (!abs && count(s, '/') && s.back() != '/' && s.find("//") == string::npos)) { string w = s.substr(0, std::max<size_t>(s.rfind('/'), s[0] == '/' ? 1 : 0)); if (w != b.p) return bad("path_upper", s, b.p, w); } }
    // collapse
    { Buf b(s), o(std::max<size_t>(s.size() + 1, 2)); ush_utils_get_collapse_path(b.p, o.p);
      if (can) {
          string w; vector<string> r;
          if (s != "/") for (auto &c : split(s)) if (c == "..") { if (r.size()) r.pop_back(); } else if (c != ".") r.push_back(c);
          for (auto &c : r) w += "/" + c;
          if (w.empty()) w = "/";
          if (w != o.p) return bad("collapse_path", s, o.p, w);
      } }
    return "";
}
static string test_pair(const string &a, const string &b) {
    Buf A(a), B(b);
    bool w = a.compare(0, b.size(), b) == 0, g = ush_utils_startswith(A.p, B.p);
    if (w != g) return "startswith(\"" + vis(a) + "\", \"" + vis(b) + "\") is " + num(g);
    string j = a == "/" ? a + b : a + "/" + b;
    Buf o(j.size() + 1);
    ush_utils_join_path(A.p, B.p, o.p);
    if (j != o.p) return bad("join_path", a + "\" , \"" + b, o.p, j);
    if (memcmp(A.p, a.c_str(), a.size() + 1) || memcmp(B.p, b.c_str(), b.size() + 1)) return "a read-only helper changed its input";
    return "";
}
static string test_decode(const string &s) {
    string w = ascii_decode(s);
    for (size_t max = 0; max <= w.size() + 2; max++) {
        if (skip(max, w.size())) continue;
        Buf in(s), o(max);
        size_t n = ush_utils_decode_ascii(in.p, (uint8_t *)o.p, max);
        string want = w.substr(0, max);
        if (n > max) return "decode_ascii wrote " + num(n) + " of " + num(max) + " bytes";
        if (string(o.p, n) != want) return bad(("decode_ascii, limit " + num(max)).c_str(), s, string(o.p, n), want);
    }
    return "";
}
static World lw(long k) { World w = tree_world(); if (k) { w.path = 12; } return w; }
static string test_lookup(const string &s, long wk, const char *cwd) {
    Env &e = fresh("l" + num(wk), [=] { return lw(wk); });
    if (*cwd) { e.send(string("cd ") + cwd + "\r"); if (!e.err.empty()) return e.err; }
    Buf in(s);
    string mem = e.memory();
    auto nodeof = [&](const string &p) -> void * { for (size_t i = 0; i < e.w->mounts.size(); i++) if (e.w->mounts[i].first == p) return e.mnodes[i]; return nullptr; };
    auto name = [&](const void *n) -> string { if (!n) return "NULL"; for (size_t i = 0; i < e.mnodes.size(); i++) if (e.mnodes[i] == n) return e.w->mounts[i].first; return "?"; };
    void *g, *w;
    Inside in_;
    g = ush_node_get_by_path(e.o, in.p); w = nodeof(s);
    if ((canonical(s) || g) && s.size() && g != w) return bad("node_get_by_path", s, name(g), name(w));
    g = ush_node_get_parent_by_path(e.o, in.p);
    if (canonical(s)) { w = s == "/" ? nullptr : nodeof(path_parent(s)); if (g != w) return bad("node_get_parent_by_path", s, name(g), name(w)); }
    { Buf o(e.w->path); ush_node_get_absolute_path(e.o, in.p, o.p); if (!memchr(o.p, 0, o.n)) return "absolute path of \"" + vis(s) + "\" is not terminated";
      string want = e.m.resolve(s);
      bool plain = s.find("//") == string::npos && s.size() && s.back() != '/' && s.size() + e.m.cwd.size() + 2 < e.w->path;
      if (plain && want != o.p) return bad("node_get_absolute_path", s, o.p, want); }
    const ush_file_descriptor *f = ush_file_find_by_name(e.o, in.p);
    if (s.find("//") != string::npos) return e.memory() != mem ? "a lookup of \"" + vis(s) + "\" changed the shell" : "";   // undocumented
    FileId id = e.m.find(s);
    string fg = "nothing", fw = id.ok() ? e.m.file(id).name : "nothing";
    bool same;
    if (id.ok() && id.list > 0) same = f == &e.lists[id.list - 1][id.idx];
    else if (id.ok()) same = f && f->name == fw && !e.ident(f).ok();
    else same = f == nullptr;
    if (f) fg = f->name;
    if (!same) return bad("file_find_by_name", s, fg, fw);
    if (e.memory() != mem) return "a lookup of \"" + vis(s) + "\" changed the shell";
    return "";
}

static const vector<string> cwds = {"", "dev", "/dev/bus", "/dev2"};
static string cat(const vector<int> &v, const vector<string> &al) { string s; for (int i : v) s += al[i]; return s; }
static const vector<string> PA = {"/", "a", ".", "b"}, PB = {"a", "/", " ", "b"}, DA = {"\\", "x", "4", "F", "g", "a"},
    LA = {"/", "dev", "..", ".", "bus", "led", "var", "ver", "2", "i2c", "dev2", "ls"};
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C27";
    ck.bounds = "path helpers on every string up to length 8 (quick) / 10 over {/ a . b} and long paths up to 600 (and 65537) levels and characters; last argument, join and prefix test on every pair of strings up to length 4 / 5 over {a / space b} and near pairs up to 80 characters; ascii-hex "
                "decoding of every string up to length 6 / 7 over {\\ x 4 F g a} and of all \\xNN pairs of characters with every output limit; all 256 characters and all status codes; node, parent, absolute path and file lookup of every word sequence up to 5 / 6 over 12 parts from 4 "
                "directories with path limits 12 and 48; all buffers of exactly the documented size";
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> sink) {
        bool T = tier == "thorough";
        // one case covers all strings with a given beginning
        for (long len = 0; len <= 3; len++) sequences(4, len, len, [&](const vector<int> &v) { return sink(Case("str", {0}, cat(v, PA))); });
        sequences(4, 4, 4, [&](const vector<int> &v) { return sink(Case("str", {T ? 6L : 4L}, cat(v, PA))); });
        sequences(4, 0, T ? 5 : 4, [&](const vector<int> &v) { return sink(Case("pair", {T ? 5L : 4L}, cat(v, PB))); });
        near_cases(T ? 40 : 20, [&](long l, long k, long v) { return sink(Case("near", {l, k, v})); });
        sequences(6, 0, 2, [&](const vector<int> &v) { return sink(Case("dec", {v.size() == 2 ? (T ? 5L : 4L) : 0L}, cat(v, DA))); });
        for (long b = 0; b < 256; b++) sink(Case("hex", {b}));
        sink(Case("chars", {}));
        for (long n = 1; n <= 600; n++) sink(Case("long", {n}));
        for (long n : {65537L}) sink(Case("long", {n}));
        for (long c = 0; c < 4; c++) for (long w = 0; w < 2; w++) {
            sequences(LA.size(), 0, 2, [&](const vector<int> &v) { return sink(Case("look", {w, c, v.size() == 2 ? (T ? 4L : 3L) : 0L}, cat(v, LA))); });
        }
    };
    ck.run = [](const Case &c) -> string {
        string r;
        if (c.kind == "str") sequences(4, 0, c.n[0], [&](const vector<int> &v) { r = test_string(c.s + cat(v, PA)); stats().transitions++; return r.empty(); });
        else if (c.kind == "pair") sequences(4, 0, c.n[0], [&](const vector<int> &v) { string s = cat(v, PB); r = test_pair(c.s, s); if (r.empty()) r = test_string(c.s + s); stats().transitions++; return r.empty(); });
        else if (c.kind == "near") { auto p = near_names(c.n[0], c.n[1], c.n[2]); r = test_pair(p.first, p.second); if (r.empty()) r = test_pair(p.second, p.first); if (r.empty()) r = test_pair(p.first, p.first.substr(0, c.n[1])); }
        else if (c.kind == "dec") sequences(6, 0, c.n[0], [&](const vector<int> &v) { r = test_decode(c.s + cat(v, DA)); stats().transitions++; return r.empty(); });
        else if (c.kind == "hex") {
            for (int b = 1; b < 256 && r.empty(); b++) if (c.n[0]) r = test_decode(string("q\\x") + (char)c.n[0] + (char)b + "z");
            for (int b = 1; b < 256 && r.empty(); b++) if (c.n[0]) r = test_decode(string("\\") + (char)c.n[0] + (char)b);
        } else if (c.kind == "chars") {
            for (int b = 0; b < 256; b++) if (ush_utils_is_printable((uint8_t)b) != (b >= 0x20 && b <= 0x7e)) return "is_printable(" + num(b) + ") is wrong";
            for (int s = 0; s < S_NUM; s++) if (string(status_text(s)) != ush_utils_get_status_string((ush_status_t)s)) return bad("get_status_string", num(s), ush_utils_get_status_string((ush_status_t)s), status_text(s));
        } else if (c.kind == "long") {
            long n = c.n[0];
            for (const string &s : n > 2000 ? vector<string>{rep("/a", n), "/" + rep("x", n), "/" + rep("x", n) + "/..", rep("x", n), rep("x ", n) + "z"} : vector<string>{rep("/a", n), rep("/..", n), "/" + rep("x", n), "/" + rep("x", n) + "/..", rep("/ab/..", n) + "/q", rep("/.", n) + "/" + rep("y", n), rep("/q", n) + rep("/..", n - 1), rep("/", n), rep("x", n), rep("x ", n) + "z"}) { r = test_string(s); if (!r.empty()) return r; }
            r = test_pair(rep("a", n), rep("a", n - 1) + "b");
            if (r.empty()) r = test_pair(rep("/a", n), rep("q", n));
            if (r.empty()) r = test_decode(rep("\\x41", n));
            if (n <= 2000) for (long wk = 0; wk < 2 && r.empty(); wk++) for (const string &s : {"/dev/" + rep("x", n), rep("/dev", n), rep("../", n) + "var", rep("./", n) + "ver", rep("x", n), "/dev" + rep("/.", n), "/dev" + rep("/bus/..", n) + "/led"}) { r = test_lookup(s, wk, n % 2 ? "" : "dev"); if (!r.empty()) return r; }
        } else if (c.kind == "look") sequences(LA.size(), 0, c.n[2], [&](const vector<int> &v) { r = test_lookup(c.s + cat(v, LA), c.n[0], cwds[c.n[1]].c_str()); stats().transitions++; return r.empty(); });
        stats().state(hash_str(c.ser()));
        return r;
    };
    return mc_main(argc, argv, ck);
}
