// Reference model of the shell as seen from outside: which bytes it must emit and
// which user callbacks it must invoke, in which order, for every received byte.
// Deliberately simple (strings, vectors, maps); knows nothing about the implementation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace mc {
using std::string;
using std::vector;

#ifndef MC_STYLES
#define MC_STYLES 1
#endif
#ifndef MC_XXD_COLS
#define MC_XXD_COLS 8
#endif
#ifndef MC_ALIGN
#define MC_ALIGN 16
#endif
#ifndef MC_COMMANDS
#define MC_COMMANDS 1
#endif
#ifndef MC_AUTOCOMP
#define MC_AUTOCOMP 1
#endif
#ifndef MC_CMDSET
#define MC_CMDSET 0x7f   // bit order: help ls cd pwd cat xxd echo
#endif

#if MC_STYLES
static const char *const ST_RESET = "\x1b[0m", *const ST_GREEN = "\x1b[32m", *const ST_YELLOW = "\x1b[33m",
                         *const ST_MAGENTA = "\x1b[35m";
#else
static const char *const ST_RESET = "", *const ST_GREEN = "", *const ST_YELLOW = "", *const ST_MAGENTA = "";
#endif

// What an executable user file does when executed.
enum XB {
    X_NONE = -1,        // not executable
    X_SILENT = 0,       // prints nothing
    X_PRINT = 1,        // ush_print(constant)
    X_PRINT_NN = 2,     // ush_print_no_newline(constant)
    X_PRINTF = 3,       // ush_printf("n=%d last=%s\r\n", argc, argv[argc-1])
    X_PRINTF2 = 4,      // two ush_printf in a row
    X_FLUSH = 5,        // fills output buffer, ush_flush
    X_STATUS = 6,       // ush_print_status
    X_RESET = 7,        // ush_reset
    X_ARG = 8,          // ush_print(argv[1]) or silent
    X_EMPTY = 9,        // ush_print("")
    X_PRINTF_DOLLAR = 10, // ush_printf("%s", "...") then ush_print overriding
    X_HOOK = 100,       // 100+k: calls hook k on both sides
};

struct FSpec {
    string name;
    bool has_desc = false, has_help = false;
    string desc, help;
    bool r = false, w = false;
    int x = X_NONE;
    int sx = X_SILENT;      // what the setter does after storing the data
    string data;
    int nullget = 0;        // readable, but the getter leaves the data pointer alone (1) or sets it to NULL (2), and returns 0
};
inline FSpec F(const string &name) { FSpec f; f.name = name; return f; }
inline FSpec Fx(const string &name, int x) { FSpec f; f.name = name; f.x = x; return f; }
inline FSpec Fr(const string &name, const string &d) { FSpec f; f.name = name; f.r = true; f.data = d; return f; }
inline FSpec Fw(const string &name) { FSpec f; f.name = name; f.w = true; return f; }
inline FSpec Frw(const string &name, const string &d) { FSpec f = Fr(name, d); f.w = true; return f; }
inline FSpec D(FSpec f, const string &d) { f.has_desc = true; f.desc = d; return f; }
inline FSpec H(FSpec f, const string &h) { f.has_help = true; f.help = h; return f; }

typedef vector<FSpec> List;

struct World {
    string host = "host";
    size_t hostcap = 0;                       // not 0: the host name lives in a buffer of this size and may be changed
    size_t in = 64, out = 64, path = 64;
    bool gexec = false;                       // generic exec callback present
    int fill = 0;                             // byte the memory is filled with before ush_init
    vector<List> lists;
    vector<std::pair<string, int>> mounts;    // path, list (-1: no files), in mount order
    vector<int> groups;                       // lists added as global commands, in order
    int add(const List &l) { lists.push_back(l); return (int)lists.size() - 1; }
    void mount(const string &p, const List &l) { mounts.push_back({p, add(l)}); }
    void mount(const string &p) { mounts.push_back({p, -1}); }
    void group(const List &l) { groups.push_back(add(l)); }
};

enum Status {
    S_OK, S_NODE_NOT_FOUND, S_WITH_CHILDS, S_WITHOUT_PARENT, S_ALREADY, S_SYNTAX, S_WRONG_ARGS, S_NOT_EXEC,
    S_NOT_WRITABLE, S_NOT_READABLE, S_NO_HELP, S_FILE_NOT_FOUND, S_READ_ONLY, S_NUM
};
#ifndef MC_TRANSLATED
#define MC_TRANSLATED 0
#endif
inline const char *status_text_en(int s) {
    static const char *const t[] = {"ok", "error: directory not found", "error: nested directories exist",
        "error: cannot find parent node", "error: directory already mounted", "error: syntax error",
        "error: wrong arguments", "error: file not executable", "error: file not writable",
        "error: file not readable", "error: no help available", "error: file not found", "error: read only file"};
    return t[s];
}

// with the translated configuration every text fragment carries a mark
inline const char *status_text(int s) {
    static string r[S_NUM];
    if (r[s].empty()) {
        r[s] = status_text_en(s);
        if (MC_TRANSLATED) r[s] = s == S_OK ? "T-" + r[s] : "T-error: T-" + r[s].substr(7);
    }
    return r[s].c_str();
}
struct FileId { int list, idx; bool ok() const { return list >= 0; } };

// One directory of the model tree.
struct MDir {
    int list = -1;             // index into lists, -1: none
    vector<string> kids;       // full paths, newest first
};

inline string hexs(const string &s) {
    static const char *d = "0123456789abcdef";
    string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
inline string vis(const string &s) {   // readable rendering for messages
    string r;
    for (unsigned char c : s) {
        if (c == '\r') r += "\\r"; else if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\";
        else if (c >= 0x20 && c < 0x7f) r += (char)c;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r;
}

inline string path_parent(const string &p) {           // "" when there is none
    if (p.size() == 1) return "";
    size_t k = p.rfind('/');
    if (k == string::npos) return p;
    return k == 0 ? "/" : p.substr(0, k);
}
inline string path_last(const string &p) {
    if (p.size() == 1) return p;
    size_t k = p.rfind('/');
    return k == string::npos ? p : p.substr(k + 1);
}
inline string path_join(const string &d, const string &n) { return d == "/" ? "/" + n : d + "/" + n; }

inline int hexval(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    return 0;
}
// \xNN decodes to a byte; backslash + other char is that char.
inline string ascii_decode(const string &in) {
    string o;
    for (size_t i = 0; i < in.size();) {
        if (in[i] != '\\') { o += in[i++]; continue; }
        if (i + 1 >= in.size()) break;
        if (in[i + 1] != 'x') { o += in[i + 1]; i += 2; continue; }
        if (i + 3 >= in.size()) break;
        o += (char)(hexval(in[i + 2]) * 16 + hexval(in[i + 3]));
        i += 4;
    }
    return o;
}

class Model {
public:
    // ---- events the implementation has to produce, in order
    struct Ev { bool cb; char ch; int id; };
    string bytes;                    // pending events: byte events inline, callbacks as markers
    vector<Ev> q; size_t qh = 0;
    vector<string> cbs;
    bool queue_empty() const { return qh >= q.size(); }
    void clear_queue() { q.clear(); qh = 0; cbs.clear(); }

    // ---- configuration
    const World *w = nullptr;
    string host;
    size_t in_size = 64, out_size = 64, path_max = 64;
    bool gexec = false;
    static vector<FSpec> builtin() {
        vector<FSpec> v;
        auto add = [&](int bit, const char *n, const char *d, const char *h) {
            if (!(MC_CMDSET & (1 << bit))) return;
            FSpec f = H(D(Fx(n, 1000 + bit), d), h);
            v.push_back(f);
        };
        add(0, "help", "list available commands", "usage: help [file]\r\n");
        add(1, "ls", "list directory content", "usage: ls [path]\r\n");
        add(2, "cd", "change current directory", "usage: cd <path>\r\n");
        add(3, "pwd", "print current directory", "usage: pwd\r\n");
        add(4, "cat", "print files content", "usage: cat <files...>\r\n");
        add(5, "xxd", "dump file hex content", "usage: xxd <file>\r\n");
        add(6, "echo", "print string to file",
            "usage: echo <string> > <file>\r\n       echo [string]\r\n"
            "       * can be ascii-hex encoded string with \\xNN format.\r\n");
        return v;
    }

    // ---- state
    std::shared_ptr<vector<List>> slists;            // [0] = builtin commands, then the world's (never modified)
    const vector<List> &L() const { return *slists; }
    std::map<std::pair<int, int>, string> written;   // current contents of files that have been written
    vector<int> groups;              // newest first
    std::map<string, MDir> tree;     // mounted directories by full path
    string cwd;
    string line;                     // characters currently in the line
    bool wrapped_nl = false;
    int esc = 0;
    bool broken = false;             // behaviour no longer predicted
    bool echo_in_out = false;        // last thing written came from the output buffer (echo)
    std::function<void(Model &, int, const vector<string> &)> hook;
    uint64_t executed = 0;
    std::function<void(Model &)> on_gexec;         // what the general exec callback does to the tree
    std::function<void(Model &, int)> on_get;      // the tree may change while cat runs (argument number)

    Model() {}
    explicit Model(const World &wd) { init(wd); }
    void init(const World &wd) {
        w = &wd; host = wd.host; in_size = wd.in; out_size = wd.out; path_max = wd.path; gexec = wd.gexec;
        slists = std::make_shared<vector<List>>();
        slists->push_back(builtin());
        for (auto &l : wd.lists) slists->push_back(l);
        written.clear();
        groups.clear(); tree.clear(); cwd = ""; line = ""; esc = 0;
#if MC_COMMANDS
        groups.push_back(0);
#endif
    }
    // apply the world's mounts and groups, then the welcome message
    void setup() {
        for (auto &m : w->mounts) api_mount(m.first, m.second);
        for (int g : w->groups) groups.insert(groups.begin(), g + 1);
        welcome();
    }
    void welcome() { if (tree.count("/")) cwd = "/"; out("uShell 0.1.0\r\n"); prompt(); line = ""; esc = 0; }
    // ush_reset from outside: pending output is dropped, cwd is root, banner and prompt appear
    void api_reset() { clear_queue(); welcome(); }

    // ---- output helpers
    void out(const string &s) { for (char c : s) q.push_back({false, c, 0}); }
    void cb(const string &s) { cbs.push_back(s); q.push_back({true, 0, (int)cbs.size() - 1}); }
    void prompt() {
        out(string(ST_MAGENTA) + "[" + host + " " + path_last(cwd) + "]$ " + ST_RESET);
        line = ""; esc = 0;
    }
    void say(const string &s) { out(s); out("\r\n"); prompt(); }     // text, new line, prompt
    void say_nn(const string &s) { out(s); prompt(); }
    void status(int s) { say(status_text(s)); }

    // ---- tree
    const FSpec &file(FileId f) const { return L()[f.list][f.idx]; }
    static string fid(FileId f) { return std::to_string(f.list) + ":" + std::to_string(f.idx); }

    bool has_dir(const string &p) const {
        if (p.empty()) return tree.count("/");
        return tree.count(p) != 0;
    }
    string norm(const string &p) const { return p.empty() ? "/" : p; }
    int api_mount(const string &p, int list) {          // list: world list index or -1
        if (has_dir(p)) return S_ALREADY;
        string par = path_parent(p);
        if (!par.empty() && has_dir(par)) {
            tree[p].list = list < 0 ? -1 : list + 1;
            tree[norm(par)].kids.insert(tree[norm(par)].kids.begin(), p);
            return S_OK;
        }
        if (p == "/") {
            tree[p].list = list < 0 ? -1 : list + 1;
            cwd = "/";
            return S_OK;
        }
        return S_WITHOUT_PARENT;
    }
    int api_unmount(const string &p0) {
        if (!has_dir(p0)) return S_NODE_NOT_FOUND;
        string p = norm(p0);
        if (!tree[p].kids.empty()) return S_WITH_CHILDS;
        if (p == "/") { tree.erase(p); return S_OK; }
        string par = norm(path_parent(p));
        auto &k = tree[par].kids;
        for (size_t i = 0; i < k.size(); i++) if (k[i] == p) { k.erase(k.begin() + i); break; }
        if (cwd == p) cwd = par;
        tree.erase(p);
        return S_OK;
    }
    // absolute, collapsed path; "" if it cannot be resolved (too long)
    string resolve(const string &in) const {
        string a = in.size() && in[0] == '/' ? in : (cwd == "/" ? "/" + in : cwd + "/" + in);
        if (a.size() > 1 && a.back() == '/') a.pop_back();
        if (a != "/") {
            vector<string> comp, res;
            size_t i = 0;
            while (i < a.size()) {                      // a[i] == '/'
                size_t j = i + 1;
                if (j < a.size()) { j++; while (j < a.size() && a[j] != '/') j++; }
                comp.push_back(a.substr(i + 1, j - i - 1));
                i = j;
            }
            for (auto &c : comp) {
                if (c == "..") { if (!res.empty()) res.pop_back(); }
                else if (c == ".") {}
                else res.push_back(c);
            }
            a = "";
            for (auto &c : res) a += "/" + c;
            if (a.empty()) a = "/";
        }
        if (a.size() >= path_max) return ".";           // never exists
        return a;
    }
    FileId find(const string &name) const {
        for (int g : groups)
            for (size_t i = 0; i < L()[g].size(); i++)
                if (L()[g][i].name == name) return {g, (int)i};
        string a = resolve(name), par = path_parent(a);
        if (par.empty() || !has_dir(par)) return {-1, -1};
        const MDir &d = tree.at(norm(par));
        if (d.list >= 0)
            for (size_t i = 0; i < L()[d.list].size(); i++)
                if (path_join(norm(par), L()[d.list][i].name) == a) return {d.list, (int)i};
        return {-1, -1};
    }
    int api_cd(const string &p) {
        if (p.empty()) return S_NODE_NOT_FOUND;
        string a = resolve(p);
        if (!has_dir(a)) return S_NODE_NOT_FOUND;
        cwd = norm(a);
        return S_OK;
    }

    // ---- input
    void feed(char ch) {
        switch ((unsigned char)ch) {
        case 0x03: out("^C\r\n"); prompt(); return;
        case 0x08: case 0x7f:
            if (!line.empty()) { line.pop_back(); out("\x08 \x08"); }
            return;
        case 0x09:
#if MC_AUTOCOMP
            tab();
#endif
            return;
        case 0x1b: esc = 1; return;
        default: break;
        }
        if (esc == 1) { esc = (ch == '[' || ch == 'O') ? 2 : 0; return; }
        if (esc == 2) { esc = 0; return; }
        if (ch == '\r' || ch == '\n') {
            // a line of exactly size-1 characters has no room left for its end marker: its first character is lost
            if (line.size() == in_size - 1) line[0] = 0;
            nl = ch == '\r' ? "\r\n" : "\n";
            out(nl);
            string l = line;
            line = "";
            run_line(l);
            return;
        }
        line += ch;
        if (line.size() >= in_size) line = "";          // starts over
        if (ch) out(string(1, ch));                     // NUL has no echo
    }
    string nl;

    static vector<string> tokenize(const string &l) {
        // flat representation first, as words may contain NUL bytes
        string flat;
        size_t count = 0;
        enum { SEARCH, WORD, QUOTE } st = SEARCH;
        bool e = false;
        for (char c : l) {
            if (st == SEARCH) {
                if (c == ' ') continue;
                count++;
                if (c == '"') st = QUOTE;
                else { st = WORD; if (c == '\\') e = true; else flat += c; }
                continue;
            }
            if (e) { if (c == 'x') flat += '\\'; flat += c; e = false; continue; }
            if (c == '\\') { e = true; continue; }
            if (c == '"') { st = st == QUOTE ? WORD : QUOTE; continue; }
            if (c == ' ' && st == WORD) { flat += '\0'; st = SEARCH; continue; }
            flat += c;
        }
        flat += '\0';
        vector<string> a;
        size_t p = 0;
        for (size_t i = 0; i < count; i++) {
            size_t e2 = flat.find('\0', p);
            if (e2 == string::npos) break;
            a.push_back(flat.substr(p, e2 - p));
            p = e2 + 1;
        }
        return a;
    }
    static string argstr(const vector<string> &a) {
        string s = std::to_string(a.size());
        for (auto &x : a) s += " [" + vis(x) + "]";
        return s;
    }
    void run_line(const string &l) {
        vector<string> a = tokenize(l);
        if (a.empty()) { prompt(); return; }
        if (gexec) { cb("gexec " + argstr(a)); if (on_gexec) on_gexec(*this); }
        FileId f = find(a[0]);
        if (!f.ok()) { status(S_SYNTAX); return; }
        if (file(f).x == X_NONE) { status(S_NOT_EXEC); return; }
        executed++;
        if (file(f).x >= 1000) { builtin_cmd(file(f).x - 1000, a); return; }
        cb("exec " + fid(f) + " " + argstr(a));
        perform(file(f).x, a);
    }
    void perform(int x, const vector<string> &a) {
        if (x >= X_HOOK) { hook(*this, x - X_HOOK, a); return; }
        switch (x) {
        case X_SILENT: prompt(); break;
        case X_PRINT: say("printed text"); break;
        case X_PRINT_NN: say_nn("no newline"); break;
        case X_PRINTF: printf_seq({"n=" + std::to_string(a.size()) + " last=" + a.back() + "\r\n"}); break;
        case X_PRINTF2: printf_seq({"first " + a[0] + ";", "second " + std::to_string(a.size()) + "\r\n"}); break;
        case X_FLUSH: say_nn("flushed"); break;
        case X_STATUS: status(S_READ_ONLY); break;
        case X_RESET: welcome(); break;
        case X_ARG: if (a.size() > 1) say(a[1]); else prompt(); break;
        case X_EMPTY: say(""); break;
        case X_PRINTF_DOLLAR: say("final"); break;
        default: prompt(); break;
        }
    }
    // consecutive ush_printf calls of one command: concatenated in the output buffer behind the echoed newline
    void printf_seq(const vector<string> &parts) {
        string buf = nl;
        size_t pre = nl.size();
        size_t size = pre;                       // number of bytes that will have been sent in total
        const string marker = "...overflow error\r\n";
        for (auto &p : parts) {
            size_t cap = out_size - buf.size() - 1;
            string put = p.substr(0, cap);
            buf += put; size += put.size();
            if (put.size() < p.size()) {
                if (out_size - buf.size() >= marker.size() + 0 && out_size - buf.size() > marker.size()) {
                    buf += marker; size += marker.size();
                } else {
                    size_t ms = marker.size() + 1;
                    size_t at = out_size > ms ? out_size - ms : 0;
                    buf = buf.substr(0, at) + marker.substr(0, out_size - at - 1);
                    size = out_size;
                }
            }
        }
        buf += '\0';
        buf.resize(size, '\0');
        out(buf.substr(pre < buf.size() ? pre : buf.size()));
        prompt();
    }
    string data_of(FileId f) const {
        if (file(f).nullget) return "";
        auto it = written.find({f.list, f.idx});
        return it != written.end() ? it->second : file(f).data;
    }

    void builtin_cmd(int id, const vector<string> &a) {
        switch (id) {
        case 0: cmd_help(a); break;
        case 1: cmd_ls(a); break;
        case 2:
            if (a.size() != 2) { status(S_WRONG_ARGS); break; }
            { int s = api_cd(a[1]); if (s) status(s); else prompt(); }
            break;
        case 3: if (a.size() != 1) status(S_WRONG_ARGS); else say(cwd); break;
        case 4: {
            if (a.size() < 2) { status(S_WRONG_ARGS); break; }
            bool ok = true;
            for (size_t i = 1; i < a.size() && ok; i++) {
                FileId f = find(a[i]);
                if (!f.ok()) { status(S_FILE_NOT_FOUND); ok = false; }
                else if (!file(f).r) { status(S_NOT_READABLE); ok = false; }
            }
            if (!ok) break;
            for (size_t i = 1; i < a.size(); i++) {
                FileId f = find(a[i]);
                if (!f.ok()) { status(S_FILE_NOT_FOUND); return; }         // went away in the meantime
                if (!file(f).r) { status(S_NOT_READABLE); return; }
                cb("get " + fid(f));
                string data = data_of(f);
                out(data);
                if (on_get) on_get(*this, (int)i);
            }
            prompt();
            break;
        }
        case 5: {
            if (a.size() != 2) { status(S_WRONG_ARGS); break; }
            FileId f = find(a[1]);
            if (!f.ok()) { status(S_FILE_NOT_FOUND); break; }
            if (!file(f).r) { status(S_NOT_READABLE); break; }
            cb("get " + fid(f));
            out(xxd(data_of(f)));
            prompt();
            break;
        }
        case 6: cmd_echo(a); break;
        }
    }
    static string xxd(const string &d) {
        string o;
        size_t i = 0;
        do {
            char b[16];
            snprintf(b, sizeof b, "%08zX: ", i);
            o += b;
            string asc;
            for (size_t k = 0; k < MC_XXD_COLS; k++) {
                if (i + k < d.size()) {
                    unsigned char c = d[i + k];
                    snprintf(b, sizeof b, "%02X ", c);
                    o += b;
                    asc += (c >= 0x20 && c <= 0x7e) ? (char)c : '.';
                } else { o += "   "; asc += ' '; }
            }
            o += " " + asc + "\r\n";
            i += MC_XXD_COLS;
        } while (i < d.size());
        return o;
    }
    void cmd_echo(const vector<string> &a) {
        if (a.size() == 1) { say(""); return; }
        if (a.size() == 2) {
            string t = ascii_decode(a[1]);
            size_t z = t.find('\0');
            if (z != string::npos) t.resize(z);
            say(t);
            return;
        }
        if (a.size() != 4 || a[2] != ">") { status(S_WRONG_ARGS); return; }
        FileId f = find(a[3]);
        if (!f.ok()) { status(S_FILE_NOT_FOUND); return; }
        if (!file(f).w) { status(S_NOT_WRITABLE); return; }
        string t = ascii_decode(a[1]);
        cb("set " + fid(f) + " " + hexs(t));
        written[{f.list, f.idx}] = t;
        perform(file(f).sx, {"setter"});
    }
    string entry(const FSpec &f) {
        string o = f.name;
        if (f.has_desc) {
            while (o.size() < MC_ALIGN) o += ' ';
            o += string(" ") + ST_YELLOW + "- " + f.desc + ST_RESET;
        }
        return o + "\r\n";
    }
    void cmd_help(const vector<string> &a) {
        if (a.size() > 2) { status(S_WRONG_ARGS); return; }
        if (a.size() == 1) {
            for (int g : groups) for (auto &f : L()[g]) out(entry(f));
            prompt();
            return;
        }
        FileId f = find(a[1]);
        if (!f.ok()) status(S_FILE_NOT_FOUND);
        else if (!file(f).has_help) status(S_NO_HELP);
        else say_nn(file(f).help);
    }
    void cmd_ls(const vector<string> &a) {
        if (a.size() > 2) { status(S_WRONG_ARGS); return; }
        string p = cwd;
        if (a.size() == 2) {
            p = resolve(a[1]);
            if (!has_dir(p)) { status(S_NODE_NOT_FOUND); return; }
            p = norm(p);
        }
        out(ls_text(p));
        prompt();
    }
    string ls_text(const string &p) {
        string o;
        auto dir = [&](const string &n) { o += string("d---- ") + ST_GREEN + n; };
        dir("."); o += string(ST_RESET) + "\r\n";
        if (p != "/") { dir(".."); o += string(ST_RESET) + "\r\n"; }
        const MDir &d = tree.at(p);
        for (auto &k : d.kids) { dir(path_last(k)); o += string("/") + ST_RESET + "\r\n"; }
        if (d.list >= 0)
            for (auto &f : L()[d.list]) {
                o += '-';
                o += f.r ? 'r' : '-';
                o += f.w ? 'w' : '-';
                o += f.x != X_NONE ? 'x' : '-';
                o += f.has_help ? 'h' : '-';
                o += ' ';
                o += entry(f);
            }
        return o;
    }
    vector<string> candidates(const string &pre) const {
        vector<string> c;
        auto add = [&](const string &n) { if (n.compare(0, pre.size(), pre) == 0) c.push_back(n); };
        for (int g : groups) for (auto &f : L()[g]) add(f.name);
        const MDir &d = tree.at(cwd);
        if (d.list >= 0) for (auto &f : L()[d.list]) add(f.name);
        string dir = cwd;
        if (!pre.empty()) {
            string par = path_parent(resolve(pre));
            if (!par.empty() && has_dir(par)) dir = norm(par);
        }
        for (auto &k : tree.at(dir).kids) add(path_last(k));
        return c;
    }
    void tab() {
        size_t z = line.find('\0');
        if (z != string::npos) line.resize(z);
        size_t sp = line.rfind(' ');
        string pre = sp == string::npos ? line : line.substr(sp + 1);
        vector<string> c = candidates(pre);
        if (c.empty()) return;
        if (c.size() == 1) {
            if (line.size() - pre.size() + c[0].size() + 2 > in_size) return;   // does not fit
            string suf = c[0].substr(pre.size());
            line += suf; out(suf);
            return;
        }
        string lcp = c[0];
        for (auto &n : c) { size_t k = 0; while (k < lcp.size() && k < n.size() && lcp[k] == n[k]) k++; lcp.resize(k); }
        string suf = lcp.substr(pre.size());
        size_t room = line.size() + 2 < in_size ? in_size - 2 - line.size() : 0;
        if (suf.size() > room) suf.resize(room);
        if (!suf.empty()) { line += suf; out(suf); return; }
        out("\r\n");
        for (auto &n : c) out(n + "\r\n");
        string l = line; int e = esc;
        prompt();
        line = l; esc = e;
        out(l);
    }
    // canonical description of the quiescent state
    string state() const {
        string s = cwd + "|" + line + "|" + std::to_string(esc);
        for (auto &kv : tree) {
            s += "|" + kv.first + ":" + std::to_string(kv.second.list);
            for (auto &k : kv.second.kids) s += "," + k;
        }
        for (int g : groups) s += "|g" + std::to_string(g);
        for (auto &kv : written) s += "|" + std::to_string(kv.first.first) + ":" + std::to_string(kv.first.second) + "=" + kv.second;
        if (w->hostcap) s += "|h" + host;
        return s;
    }
};
} // namespace mc
