// Harness core: drives the real library through its public API, checks it in lockstep against the
// reference model, and runs enumerated cases in worker processes with replay before report.
#pragma once
#include "model.h"
#include <microshell.h>

#include <algorithm>
#include <cassert>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <link.h>
#include <memory>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <sanitizer/asan_interface.h>

namespace mc {

// ------------------------------------------------------------------ cases
struct Case {
    string kind;
    vector<long> n;
    string s;
    Case() {}
    Case(const string &k, vector<long> nn, const string &ss = "") : kind(k), n(nn), s(ss) {}
    string ser() const {
        string r = kind;
        for (long v : n) r += " " + std::to_string(v);
        return r + " | " + hexs(s);
    }
    static Case parse(const string &l) {
        Case c;
        std::istringstream is(l);
        is >> c.kind;
        string t;
        while (is >> t && t != "|") c.n.push_back(atol(t.c_str()));
        string h;
        is >> h;
        for (size_t i = 0; i + 1 < h.size(); i += 2) c.s += (char)(hexval(h[i]) * 16 + hexval(h[i + 1]));
        return c;
    }
    string text() const {
        string r = kind;
        for (long v : n) r += " " + std::to_string(v);
        return r + " \"" + vis(s.size() > 400 ? s.substr(0, 400) + "..." : s) + "\"";
    }
};

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
    const unsigned char *c = (const unsigned char *)p;
    while (n >= 8) {
        uint64_t v; memcpy(&v, c, 8);
        h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
        c += 8; n -= 8;
    }
    while (n--) h = (h ^ *c++) * 0x100000001b3ull;
    h ^= h >> 32; h *= 0xD6E8FEB86659FD93ull; h ^= h >> 32;
    return h;
}
inline uint64_t hash_str(const string &s) { return hash_bytes(s.data(), s.size()); }

struct Shared {
    volatile uint64_t beat;
    volatile uint64_t cases, transitions, validated, fixpoints, bounded;
    volatile int status;            // 0 running, 1 done, 2 violation
    volatile uint64_t caseno;
    char cur[1 << 16];
    char msg[1 << 13];
};

struct Stats {
    uint64_t cases = 0, transitions = 0, validated = 0, fixpoints = 0, bounded = 0;
    std::unordered_set<uint64_t> states, outcomes;
    Shared *sh = nullptr;
    size_t cap = 3000000;
    bool capped = false;
    void state(uint64_t h) { if (states.size() < cap) states.insert(h); else capped = true; }
    void outcome(uint64_t h) { if (outcomes.size() < cap) outcomes.insert(h); }
    void beat() { if (sh) sh->beat++; }
    void current(const Case &c) {
        if (!sh) return;
        string s = c.ser();
        size_t n = std::min(s.size(), sizeof(sh->cur) - 1);
        memcpy(sh->cur, s.data(), n); sh->cur[n] = 0;
        sh->beat++;
    }
};
inline Stats &stats() { static Stats s; return s; }

// ------------------------------------------------------------------ library globals (isolation between cases)
struct Globals {
    struct Seg { char *p; size_t n; vector<char> img; };
    vector<Seg> segs;
    static int cb(struct dl_phdr_info *i, size_t, void *d) {
        Globals *g = (Globals *)d;
        if (!i->dlpi_name || !strstr(i->dlpi_name, "libush_mc")) return 0;
        uintptr_t ro_s = 0, ro_e = 0;
        for (int k = 0; k < i->dlpi_phnum; k++)
            if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
                ro_s = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
                ro_e = ro_s + i->dlpi_phdr[k].p_memsz;
                ro_e = (ro_e + 4095) & ~4095ul;
                ro_s &= ~4095ul;
            }
        for (int k = 0; k < i->dlpi_phnum; k++) {
            auto &p = i->dlpi_phdr[k];
            if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
            uintptr_t s = i->dlpi_addr + p.p_vaddr, e = s + p.p_memsz;
            if (s >= ro_s && s < ro_e) s = std::min(e, ro_e);
            if (s < e) g->segs.push_back({(char *)s, e - s, {}});
        }
        return 0;
    }
    // plain word loops: libc's memcpy/memcmp would be checked by the sanitizer and trip over redzones
    static void rawcpy(char *d, const char *s, size_t n) { for (size_t i = 0; i < n; i++) ((volatile char *)d)[i] = s[i]; }
    static bool same(const char *a, const char *b, size_t n) {
        uint64_t x = 0;
        size_t i = 0;
        for (; i + 8 <= n; i += 8) x |= *(const uint64_t *)(a + i) ^ *(const uint64_t *)(b + i);
        for (; i < n; i++) x |= (uint64_t)(a[i] ^ b[i]);
        return x == 0;
    }
    void init() { dl_iterate_phdr(cb, this); for (auto &s : segs) { s.img.resize(s.n); rawcpy(s.img.data(), s.p, s.n); } }
    void restore() { for (auto &s : segs) if (!same(s.img.data(), s.p, s.n)) rawcpy(s.p, s.img.data(), s.n); }
    size_t bytes() const { size_t n = 0; for (auto &s : segs) n += s.n; return n; }
    // only what differs from the initial image
    void save(string &o) const {
        for (auto &s : segs) {
            if (same(s.img.data(), s.p, s.n)) { o += '0'; continue; }
            o += '1';
            size_t at = o.size(); o.resize(at + s.n); rawcpy(&o[at], s.p, s.n);
        }
    }
    void load(const char *d) const {
        for (auto &s : segs) {
            bool full = *d++ == '1';
            const char *src = full ? d : s.img.data();
            if (!same(src, s.p, s.n)) rawcpy(s.p, src, s.n);
            if (full) d += s.n;
        }
    }
};
inline Globals &globals() { static Globals g; return g; }

// ------------------------------------------------------------------ read-only arena for user supplied constants
// Everything the user hands over as constant (descriptor, io table, file tables, names, paths, texts) lives in
// pages that are read-only while the shell runs; objects are separated by poisoned gaps.
struct Arena {
    static const size_t CAP = 1 << 26;
    char *base = nullptr; size_t used = 0; bool sealed = false; bool big = false;
    static vector<Arena *> &pool() { static vector<Arena *> v; return v; }
    static Arena *get() {
        if (!pool().empty()) { Arena *a = pool().back(); pool().pop_back(); return a; }
        Arena *a = new Arena;
        a->base = (char *)mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        return a;
    }
    static void put(Arena *a) {
        a->unseal();
        ASAN_UNPOISON_MEMORY_REGION(a->base, std::min(CAP, (a->used + 4096) & ~4095ul));
        a->used = 0;
        pool().push_back(a);
    }
    void *alloc(size_t n) {
        unseal();
        size_t at = (used + 16 + 15) & ~15ul;
        if (at + n + 32 > CAP) { fprintf(stderr, "harness: arena full\n"); abort(); }
        ASAN_POISON_MEMORY_REGION(base + used, at - used);
        ASAN_UNPOISON_MEMORY_REGION(base + at, n);
        used = at + n;
        ASAN_POISON_MEMORY_REGION(base + ((used + 7) & ~7ul), 16);
        // partial granule at the end
        if (used & 7) ASAN_POISON_MEMORY_REGION(base + used, 8 - (used & 7));
        return base + at;
    }
    size_t len() const { return (used + 64 + 4095) & ~4095ul; }
    size_t sealed_len = 0;
    void seal() { if (!sealed) { sealed_len = len(); mprotect(base, sealed_len, PROT_READ); sealed = true; } }
    void unseal() { if (sealed) { mprotect(base, sealed_len, PROT_READ | PROT_WRITE); sealed = false; } }
};

// set while control is inside the library (cleared in user callbacks)
inline bool &in_lib() { static bool b = false; return b; }
struct Outside { bool old; Outside() : old(in_lib()) { in_lib() = false; } ~Outside() { in_lib() = old; } };
struct Inside { bool old; Inside() : old(in_lib()) { in_lib() = true; } ~Inside() { in_lib() = old; } };

// hash of everything observable in the current case: accepted bytes and callbacks, in order
inline uint64_t &trace_hash() { static uint64_t h = 0; return h; }

// ------------------------------------------------------------------ environment: one live shell instance
class Env {
public:
    const World *w;
    Model m;
    ush_object *o; ush_descriptor *d; ush_io_interface *io; char *in, *out, *host;
    bool note = true;                     // count quiescent states
    bool lockstep = true;                 // compare with the model while running
    string input; size_t ipos = 0;        // bytes the shell may read
    string output;                        // everything accepted by write (when keep)
    bool keep = false;
    vector<string> cblog;                 // callbacks that happened (when keep)
    string err;
    uint64_t steps = 0;
    // environment answers; default: always ready
    std::function<bool()> read_ready, write_ready;
    // per service call observations
    int n_read = 0, n_write = 0, n_cb = 0; bool starved = false;
    bool offered = false; char offered_ch = 0;    // character refused last time
    std::function<void(Env &, int, int, char **)> hook;
    std::function<void(Env &)> on_io;     // called inside every io callback (nested activity)

    std::function<void(Env &)> on_gexec;            // called inside the general exec callback
    std::function<void(Env &, FileId)> on_getter;   // called inside file getters
    struct Node { string path; int list; ush_node_object *n; bool used; };
    uint64_t wh = 0;                      // identifies the configuration
    vector<ush_file_descriptor *> lists;  // per world list: malloc'd array
    vector<vector<string>> fdata;         // current file contents, per world list
    struct FBuf {                         // contents handed out by the getter; bytes behind the end are poisoned
        uint8_t *p; size_t cap;
        void set(const string &v) {
            if (v.size() > cap) { fprintf(stderr, "harness: file too long\n"); abort(); }
            ASAN_UNPOISON_MEMORY_REGION(p, cap);
            memcpy(p, v.data(), v.size());
            if (cap > v.size()) { memset(p + v.size(), 0xEE, cap - v.size()); ASAN_POISON_MEMORY_REGION(p + v.size(), cap - v.size()); }
        }
    };
    vector<vector<FBuf>> fbuf;
    vector<ush_node_object *> mnodes;     // per world mount entry
    vector<ush_node_object *> gnodes;     // per world group entry

    static string num_(long v) { return std::to_string(v) + ","; }
    static vector<Env *> &all() { static vector<Env *> v; return v; }
    static Env *of(ush_object *o) { for (auto e : all()) if (e->o == o) return e; return nullptr; }

    Arena *arena = Arena::get();
    char *dup(const string &s) { char *p = (char *)arena->alloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
    void *zalloc(size_t n) { void *p = arena->alloc(n); memset(p, 0, n); return p; }

    explicit Env(const World &wd, bool start = true) : w(&wd), m(wd) {
        o = (ush_object *)malloc(sizeof(ush_object));
        d = (ush_descriptor *)zalloc(sizeof(ush_descriptor));
        io = (ush_io_interface *)zalloc(sizeof(ush_io_interface));
        in = (char *)malloc(wd.in); out = (char *)malloc(wd.out);
        memset(o, wd.fill, sizeof *o); memset(in, wd.fill, wd.in); memset(out, wd.fill, wd.out);
        if (wd.hostcap) { host = (char *)malloc(wd.hostcap); set_host(wd.host); }
        else host = dup(wd.host);
        io->read = s_read; io->write = s_write;
        d->io = io; d->input_buffer = in; d->input_buffer_size = wd.in; d->output_buffer = out;
        d->output_buffer_size = wd.out; d->path_max_length = wd.path; d->hostname = host;
        d->exec = wd.gexec ? s_gexec : nullptr;
        all().push_back(this);
        m.hook = [](Model &mm, int, const vector<string> &) { mm.prompt(); };
        for (auto &l : wd.lists) make_list(l);
        wh = hash_str(wd.host + num_(wd.in) + num_(wd.out) + num_(wd.path) + (wd.gexec ? "g" : ""));
        for (auto &l : wd.lists) for (auto &f : l) wh = hash_bytes(f.data.data(), f.data.size(), hash_str(f.name + "|" + f.desc + "|" + f.help + num_(f.r + 2 * f.w) + num_(f.x)) ^ wh * 3);
        for (auto &mt : wd.mounts) wh = hash_bytes(mt.first.data(), mt.first.size(), wh + mt.second);
        if (start) begin();
    }
    Env(const Env &) = delete;
    ~Env() {
        auto &v = all();
        v.erase(std::find(v.begin(), v.end(), this));
        free(o); free(in); free(out);
        if (w->hostcap) free(host);
        for (auto &l : fbuf) for (auto p : l) free(p.p);
        Arena::put(arena);
        for (auto p : mnodes) free(p);
        for (auto p : gnodes) free(p);
    }
    void set_host(const string &h) {          // the user rewrites the host name
        if (h.size() >= w->hostcap) { fprintf(stderr, "harness: host too long\n"); abort(); }
        memset(host, 0x7e, w->hostcap); memcpy(host, h.c_str(), h.size() + 1);
    }
    int make_list(const List &l) {
        ush_file_descriptor *a = (ush_file_descriptor *)zalloc(l.size() * sizeof(ush_file_descriptor));
        vector<string> data; vector<FBuf> bufs;
        for (size_t i = 0; i < l.size(); i++) {
            const FSpec &f = l[i];
            a[i].name = dup(f.name);
            if (f.has_desc) a[i].description = dup(f.desc);
            if (f.has_help) a[i].help = dup(f.help);
            if (f.x != X_NONE) a[i].exec = s_exec;
            if (f.r) a[i].get_data = s_get;
            if (f.w) a[i].set_data = s_set;
            data.push_back(f.data);
            FBuf b;
            b.cap = f.w ? std::max(f.data.size(), w->in + 8) : f.data.size();
            b.p = (uint8_t *)malloc(b.cap);
            b.set(f.data);
            bufs.push_back(b);
        }
        lists.push_back(a); fdata.push_back(data); fbuf.push_back(bufs);
        return (int)lists.size() - 1;
    }
    size_t list_size(int l) const { return l < 0 ? 0 : fdata[l].size(); }
    static ush_node_object *new_node(int fill = 0) { auto n = (ush_node_object *)malloc(sizeof(ush_node_object)); memset(n, fill, sizeof *n); return n; }

    vector<char *> cpaths;
    // ush_init + mounts + groups, and the model's expectation of the banner
    void begin() {
        for (auto &mt : w->mounts) cpaths.push_back(dup(mt.first));
        arena->seal();
        for (size_t i = 0; i < w->mounts.size(); i++) mnodes.push_back(new_node(w->fill));
        for (size_t i = 0; i < w->groups.size(); i++) gnodes.push_back(new_node(w->fill));
        boot();
    }
    void boot() {
        {
            Inside in_;
            ush_init(o, d);
            for (size_t i = 0; i < w->mounts.size(); i++) {
                int l = w->mounts[i].second;
                ush_node_mount(o, cpaths[i], mnodes[i], l < 0 ? nullptr : lists[l], list_size(l));
            }
            for (size_t i = 0; i < w->groups.size(); i++) ush_commands_add(o, gnodes[i], lists[w->groups[i]], list_size(w->groups[i]));
        }
        m.setup();
    }
    // the same shell is initialised again, with the same nodes; what the files hold stays
    void reboot() {
        auto hk = m.hook;
        drop_pending();
        auto written = m.written;
        m = Model(*w);
        m.hook = hk; m.written = written;
        offered = false; input.clear(); ipos = 0;
        boot();
    }
    void fail(const string &s) { if (err.empty()) err = s; }

    // ---- callbacks
    static int s_read(ush_object *o, char *ch) { Outside out_; Env *e = of(o); if (!e) abort(); return e->do_read(ch); }
    static int s_write(ush_object *o, char ch) { Outside out_; Env *e = of(o); if (!e) abort(); return e->do_write(ch); }
    int do_read(char *ch) {
        n_read++;
        if (on_io) on_io(*this);
        if (read_ready && !read_ready()) { starved = true; return 0; }
        if (ipos >= input.size()) { starved = true; return 0; }
        char c = input[ipos++];
        if (lockstep && err.empty()) {
            if (!m.queue_empty()) fail("shell read the next input byte before finishing its output; still expected: " + pending());
            else { m.clear_queue(); m.feed(c); }
        }
        *ch = c;
        return 1;
    }
    string pending() const {
        string s;
        for (size_t i = m.qh; i < m.q.size() && s.size() < 120; i++) {
            if (m.q[i].cb) s += "<" + m.cbs[m.q[i].id] + ">"; else s += vis(string(1, m.q[i].ch));
        }
        return s.empty() ? "(nothing)" : "\"" + s + "\"";
    }
    int do_write(char ch) {
        n_write++;
        if (on_io) on_io(*this);
        if (offered && ch != offered_ch)
            fail(string("refused byte ") + vis(string(1, offered_ch)) + " was not offered again; got " + vis(string(1, ch)));
        if (write_ready && !write_ready()) { offered = true; offered_ch = ch; return 0; }
        offered = false;
        if (keep) output += ch;
        trace_hash() = (trace_hash() ^ (unsigned char)ch) * 0x100000001b3ull;
        if (lockstep && err.empty()) {
            if (m.queue_empty() || m.q[m.qh].cb || m.q[m.qh].ch != ch)
                fail("wrote byte '" + vis(string(1, ch)) + "' but expected " + pending() + (keep ? " after output \"" + vis(output.substr(output.size() > 80 ? output.size() - 80 : 0)) + "\"" : ""));
            else m.qh++;
        }
        return 1;
    }
    void event(const string &s) {
        n_cb++;
        if (keep) cblog.push_back(s);
        trace_hash() = hash_bytes(s.data(), s.size(), trace_hash());
        if (!lockstep || !err.empty()) return;
        if (m.queue_empty() || !m.q[m.qh].cb || m.cbs[m.q[m.qh].id] != s)
            fail("callback <" + s + "> happened but expected " + pending());
        else m.qh++;
    }
    FileId ident(const ush_file_descriptor *f) const {
        for (size_t l = 0; l < lists.size(); l++)
            if (f >= lists[l] && f < lists[l] + fdata[l].size()) return {(int)l, (int)(f - lists[l])};
        return {-1, -1};
    }
    static string argstr(int argc, char **argv) {
        string s = std::to_string(argc);
        for (int i = 0; i < argc; i++) s += string(" [") + (argv[i] ? vis(argv[i]) : "NULL") + "]";
        if (argv[argc] != nullptr) s += " (argv not NULL-terminated)";
        return s;
    }
    static void s_gexec(ush_object *o, const ush_file_descriptor *f, int argc, char **argv) {
        Outside out_;
        Env *e = of(o);
        e->event(string("gexec ") + (f ? "(file not NULL) " : "") + argstr(argc, argv));
        if (e->on_gexec) e->on_gexec(*e);
    }
    static string fidstr(FileId f) { return std::to_string(f.list + 1) + ":" + std::to_string(f.idx); }
    static void s_exec(ush_object *o, const ush_file_descriptor *f, int argc, char **argv) {
        Outside out_;
        Env *e = of(o);
        FileId id = e->ident(f);
        e->event("exec " + fidstr(id) + " " + argstr(argc, argv));
        if (!id.ok()) { e->fail("exec callback got an unknown file descriptor"); return; }
        int x = e->w_x(id);
        if (x >= X_HOOK) { if (e->hook) e->hook(*e, x - X_HOOK, argc, argv); return; }
        perform(o, x, argc, argv);
    }
    static void perform(ush_object *o, int x, int argc, char **argv) {
        Inside in_;
        switch (x) {
        case X_PRINT: ush_print(o, (char *)"printed text"); break;
        case X_PRINT_NN: ush_print_no_newline(o, (char *)"no newline"); break;
        case X_PRINTF: ush_printf(o, "n=%d last=%s\r\n", argc, argv[argc - 1]); break;
        case X_PRINTF2: ush_printf(o, "first %s;", argv[0]); ush_printf(o, "second %d\r\n", argc); break;
        case X_FLUSH: strcpy(o->desc->output_buffer, "flushed"); ush_flush(o); break;
        case X_STATUS: ush_print_status(o, USH_STATUS_ERROR_FILE_READ_ONLY); break;
        case X_RESET: ush_reset(o); break;
        case X_ARG: if (argc > 1) ush_print(o, argv[1]); break;
        case X_EMPTY: ush_print(o, (char *)""); break;
        case X_PRINTF_DOLLAR: ush_printf(o, "%s", "lost"); ush_print(o, (char *)"final"); break;
        default: break;
        }
    }
    std::map<std::pair<int, int>, int> xover;
    int w_x(FileId id) const {
        auto it = xover.find({id.list, id.idx});
        if (it != xover.end()) return it->second;
        return m.L()[id.list + 1][id.idx].x;
    }
    static size_t s_get(ush_object *o, const ush_file_descriptor *f, uint8_t **data) {
        Outside out_;
        Env *e = of(o);
        FileId id = e->ident(f);
        e->event("get " + fidstr(id));
        if (!id.ok()) { e->fail("getter got an unknown file descriptor"); return 0; }
        if (e->on_getter) e->on_getter(*e, id);
        if (int ng = e->m.L()[id.list + 1][id.idx].nullget) { if (ng == 2) *data = nullptr; return 0; }
        *data = e->fbuf[id.list][id.idx].p;
        return e->fdata[id.list][id.idx].size();
    }
    static void s_set(ush_object *o, const ush_file_descriptor *f, uint8_t *data, size_t size) {
        Outside out_;
        Env *e = of(o);
        FileId id = e->ident(f);
        string v((const char *)data, size);
        e->event("set " + fidstr(id) + " " + hexs(v));
        if (!id.ok()) { e->fail("setter got an unknown file descriptor"); return; }
        e->set_file(id, v);
        int sx = e->m.L()[id.list + 1][id.idx].sx;
        if (sx >= X_HOOK) { if (e->hook) e->hook(*e, sx - X_HOOK, 0, nullptr); }
        else if (sx != X_SILENT) { char a0[] = "setter"; char *av[] = {a0, nullptr}; perform(o, sx, 1, av); }
    }
    void set_file(FileId id, const string &v) {
        fdata[id.list][id.idx] = v;
        fbuf[id.list][id.idx].set(v);
    }

    // ---- driving
    // one service call; returns its result
    bool step() {
        n_read = n_write = n_cb = 0; starved = false;
        bool r;
        { Inside in_; r = ush_service(o); }
        steps++; stats().transitions++;
        if ((steps & 63) == 0) stats().beat();
        if (lockstep && err.empty()) {
            if (n_read > 1) fail("one service call read more than one byte");
            if (n_write > 1) fail("one service call wrote more than one byte");
            if (n_read && n_write) fail("one service call both read and wrote");
        }
        return r;
    }
    // run until the shell asks for input and none is left
    bool drive(uint64_t max = 400000) {
        max += 64 * (input.size() - ipos + w->in);
        for (uint64_t i = 0; i < max; i++) {
            bool r = step();
            if (!err.empty()) return false;
            if (starved && ipos >= input.size()) {
                if (r) { fail("service reported progress although nothing was available to read"); return false; }
                if (lockstep && !m.queue_empty()) { fail("shell went idle with output missing: " + pending()); return false; }
                if (lockstep && note) stats().state(hash_bytes(&wh, 8, hash_str(m.state())));
                return true;
            }
        }
        fail("shell did not come back to reading input after " + std::to_string(max) + " service calls; missing output: " + pending());
        return false;
    }
    // what the pending (never to happen) part of the current line would have written is taken back in the model
    void drop_pending() {
        for (size_t i = m.qh; i < m.q.size(); i++)
            if (m.q[i].cb && m.cbs[m.q[i].id].rfind("set ", 0) == 0) {
                for (auto it = m.written.begin(); it != m.written.end();) {
                    auto &k = it->first;
                    it->second = fdata[k.first - 1][k.second];
                    if (it->second == m.L()[k.first][k.second].data) it = m.written.erase(it); else ++it;
                }
                return;
            }
    }
    // ush_reset from outside, at any moment
    void reset() { { Inside in_; ush_reset(o); } drop_pending(); m.api_reset(); offered = false; input.clear(); ipos = 0; }
    bool send(const string &s, uint64_t max = 400000) {
        if (ipos >= input.size()) { input.clear(); ipos = 0; }
        input += s;
        return drive(max);
    }
    uint64_t mstate() const { return hash_str(m.state()); }

    // ---- exact snapshots of everything the shell can read or write (plus the model)
    struct Snap { string mem; vector<vector<string>> fd; Model m; bool offered; char och; size_t nglob; };
    vector<std::pair<char *, size_t>> areas() const {
        vector<std::pair<char *, size_t>> v = {{(char *)o, sizeof *o}, {in, w->in}, {out, w->out}};
        if (w->hostcap) v.push_back({host, w->hostcap});
        for (auto n : mnodes) v.push_back({(char *)n, sizeof *n});
        for (auto n : gnodes) v.push_back({(char *)n, sizeof *n});
        return v;
    }
    string memory() const {
        string s;
        for (auto &a : areas()) s.append(a.first, a.second);
        globals().save(s);
        return s;
    }
    Snap snap() const { return {memory(), fdata, m, offered, offered_ch, 0}; }
    void restore(const Snap &s) {
        size_t p = 0;
        for (auto &a : areas()) { memcpy(a.first, s.mem.data() + p, a.second); p += a.second; }
        globals().load(s.mem.data() + p);
        for (size_t i = 0; i < fdata.size(); i++)
            for (size_t k = 0; k < fdata[i].size(); k++)
                if (fdata[i][k] != s.fd[i][k]) { fdata[i][k] = s.fd[i][k]; fbuf[i][k].set(s.fd[i][k]); }
        m = s.m; offered = s.offered; offered_ch = s.och;
        input.clear(); ipos = 0; err.clear(); starved = false;
    }
};

// ------------------------------------------------------------------ runner
struct Check {
    string prop;
    std::function<void(const string &tier, std::function<bool(const Case &)> sink)> enumerate;
    std::function<string(const Case &)> run;
    string bounds;                                 // one-line statement of the enumerated space
    std::map<string, string> extra;
};

inline string run_isolated(const Check &ck, const Case &c) {
    globals().restore();
    trace_hash() = 0;
    string r = ck.run(c);
    stats().outcome(trace_hash());
    return r;
}

inline string tail_of(const string &file, size_t n) {
    std::ifstream f(file);
    string s((std::istreambuf_iterator<char>(f)), {});
    // prefer the informative lines
    std::istringstream is(s);
    string l, keep;
    while (std::getline(is, l))
        if (l.find("runtime error") != string::npos || l.find("ERROR: AddressSanitizer") != string::npos ||
            l.find("ASSERT") != string::npos || l.find("SUMMARY") != string::npos || l.find("    #") == 0)
            { keep += l + "\n"; if (keep.size() > n) break; }
    return keep.substr(0, n);
}

// processor seconds used by a process: a loaded machine must not look like a hang
inline double cpu_of(pid_t p) {
    clockid_t id; timespec t;
    if (clock_getcpuclockid(p, &id) || clock_gettime(id, &t)) return 0;
    return t.tv_sec + t.tv_nsec * 1e-9;
}
// run one case alone - or a function - in a fresh process; "" when fine
inline string confirm(const Check &ck, const Case &c, const string &tmp, int limit_s, const std::function<string()> &fn = nullptr) {
    string errf = tmp + "/confirm.err";
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork();
    if (p == 0) {
        int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 2); dup2(fd, 1);
        stats().sh = nullptr;
        string r = fn ? fn() : run_isolated(ck, c);
        snprintf(sh->msg, sizeof sh->msg, "%s", r.c_str());
        sh->status = r.empty() ? 1 : 2;
        _exit(0);
    }
    int st = 0;
    bool hung = false;
    for (int i = 0;; i++) {
        pid_t q = waitpid(p, &st, WNOHANG);
        if (q == p) break;
        if ((i % 50 == 49 && cpu_of(p) > limit_s) || i > limit_s * 300) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
        usleep(10000);
    }
    string res;
    if (hung) res = "no answer within " + std::to_string(limit_s) + " s (endless loop inside one service call)";
    else if (sh->status == 2) res = sh->msg;
    else if (sh->status != 1) {
        res = "process died: ";
        if (WIFSIGNALED(st)) res += "signal " + std::to_string(WTERMSIG(st));
        else res += "exit " + std::to_string(WEXITSTATUS(st));
        res += "\n" + tail_of(errf, 1500);
    }
    munmap(sh, sizeof(Shared));
    return res;
}

inline string jstr(const string &s) {
    string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}

// the cases of one worker up to a given one, in one process: wild writes of earlier cases only show in later ones
inline string run_shard(const Check &ck, const string &tier, int jobs, int j, uint64_t upto) {
    uint64_t idx = 0; string res;
    ck.enumerate(tier, [&](const Case &c) -> bool {
        uint64_t my = idx++;
        if (my > upto) return false;
        if ((int)(my % jobs) != j) return true;
        res = run_isolated(ck, c);
        return res.empty();
    });
    return res;
}

inline int mc_main(int argc, char **argv, Check ck) {
    string tier = "quick", outf, replay, tmp = "/tmp", replay_out, known;
    int jobs = 8;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        auto nx = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = nx();
        else if (a == "--out") outf = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--case") known = nx();
        else if (a == "--tmp") tmp = nx();
        else if (a == "--replay-out") replay_out = nx();
        else if (a == "--jobs") jobs = atoi(nx().c_str());
    }
    globals().init();
    if (!known.empty() || !replay.empty()) {
        string line = known;
        if (!replay.empty()) {
            std::ifstream f(replay);
            while (std::getline(f, line)) if (line.rfind("case: ", 0) == 0) { line = line.substr(6); break; }
        }
        Case c = Case::parse(line);
        printf("replaying %s\n", c.text().c_str());
        string r;
        if (line.find(" @shard ") != string::npos) {
            char t[32] = ""; int n = 1, j = 0; unsigned long up = 0;
            sscanf(line.c_str() + line.find(" @shard ") + 8, "%31s %d %d %lu", t, &n, &j, &up);
            c = Case::parse(line.substr(0, line.find(" @shard ")));
            r = confirm(ck, c, tmp, 400, [&]() { return run_shard(ck, t, n, j, up); });
        } else
        r = confirm(ck, c, tmp, 120);
        printf("%s\n", r.empty() ? "held" : ("FAILED: " + r).c_str());
        return r.empty() ? 0 : 1;
    }
    auto t0 = std::chrono::steady_clock::now();
    vector<Shared *> sh(jobs);
    vector<pid_t> pid(jobs);
    vector<bool> done(jobs, false);
    fflush(stdout);
    for (int j = 0; j < jobs; j++) {
        sh[j] = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        pid[j] = fork();
        if (pid[j] == 0) {
            string errf = tmp + "/worker." + std::to_string(j) + ".err";
            int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(fd, 2); dup2(fd, 1);
            Stats &s = stats();
            s.sh = sh[j];
            uint64_t idx = 0;
            vector<string> samples;
            ck.enumerate(tier, [&](const Case &c) -> bool {
                uint64_t my = idx++;
                if ((int)(my % jobs) != j) return true;
                s.current(c);
                sh[j]->caseno = my;
                uint64_t before = s.validated;
                string r = run_isolated(ck, c);
                s.cases++;
                if (s.validated == before) s.validated++;
                if (samples.size() < 2 || (s.cases & (s.cases - 1)) == 0) { if (samples.size() < 12) samples.push_back(c.text()); }
                if (!r.empty()) {
                    snprintf(sh[j]->msg, sizeof sh[j]->msg, "%s", r.c_str());
                    sh[j]->status = 2;
                    _exit(0);
                }
                return true;
            });
            std::ofstream o(tmp + "/worker." + std::to_string(j) + ".bin", std::ios::binary);
            auto dump = [&](std::unordered_set<uint64_t> &u) {
                uint64_t n = u.size(); o.write((char *)&n, 8);
                for (uint64_t v : u) o.write((char *)&v, 8);
            };
            dump(s.states); dump(s.outcomes);
            o.close();
            std::ofstream so(tmp + "/worker." + std::to_string(j) + ".txt");
            for (auto &x : samples) so << x << "\n";
            so.close();
            sh[j]->cases = s.cases; sh[j]->transitions = s.transitions; sh[j]->validated = s.validated;
            sh[j]->fixpoints = s.fixpoints; sh[j]->bounded = s.bounded;
            sh[j]->status = s.capped ? 3 : 1;
            _exit(0);
        }
    }
    // supervise
    vector<uint64_t> last(jobs, 0); vector<double> since(jobs, 0), used(jobs, 0);
    auto now = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    int left = jobs, bad = -1; bool hang = false;
    while (left > 0 && bad < 0) {
        for (int j = 0; j < jobs; j++) {
            if (done[j]) continue;
            int st;
            pid_t q = waitpid(pid[j], &st, WNOHANG);
            if (q == pid[j]) {
                done[j] = true; left--;
                if (sh[j]->status != 1 && sh[j]->status != 3) { bad = j; break; }
                continue;
            }
            if (sh[j]->beat != last[j]) { last[j] = sh[j]->beat; since[j] = now(); used[j] = cpu_of(pid[j]); }
            else if ((now() - since[j] > 40 && cpu_of(pid[j]) - used[j] > 40) || now() - since[j] > 240) { bad = j; hang = true; break; }
        }
        usleep(3000);
    }
    if (bad >= 0) {
        for (int j = 0; j < jobs; j++) if (!done[j]) { kill(pid[j], SIGKILL); waitpid(pid[j], nullptr, 0); }
        Case c = Case::parse(string(sh[bad]->cur));
        string r = confirm(ck, c, tmp, hang ? 60 : 150);
        if (r.empty()) r = confirm(ck, c, tmp, hang ? 60 : 150);
        string shard;
        if (r.empty() && !hang) {                 // a wild write of an earlier case? run them again in the same order
            uint64_t up = sh[bad]->caseno;
            r = confirm(ck, c, tmp, 250, [&]() { return run_shard(ck, tier, jobs, bad, up); });
            if (r.empty()) {                      // different addresses: the report of the worker itself, if it lies in the library
                string t = tail_of(tmp + "/worker." + std::to_string(bad) + ".err", 1500);
                if (t.find("/src/src/") != string::npos && t.find("out of memory") == string::npos) r = "process died\n" + t;
            }
            shard = " @shard " + tier + " " + std::to_string(jobs) + " " + std::to_string(bad) + " " + std::to_string(up);
        }
        if (r.empty()) {
            fprintf(stderr, "check error: worker failed on case %s but it does not reproduce alone\n%s\n%s\n", c.text().c_str(), sh[bad]->msg,
                tail_of(tmp + "/worker." + std::to_string(bad) + ".err", 1500).c_str());
            return 3;
        }
        if (!replay_out.empty()) {
            std::ofstream o(replay_out);
            o << "property: " << ck.prop << "\ncase: " << c.ser() << shard << "\nreadable: " << c.text() << "\nresult: " << r << "\n";
        }
        printf("FAILING CASE %s\n%s\n", c.text().c_str(), r.c_str());
        return 1;
    }
    uint64_t cases = 0, trans = 0, val = 0, fixp = 0, bnd = 0; bool capped = false;
    std::unordered_set<uint64_t> st, oc;
    vector<string> samples;
    for (int j = 0; j < jobs; j++) {
        cases += sh[j]->cases; trans += sh[j]->transitions; val += sh[j]->validated; fixp += sh[j]->fixpoints; bnd += sh[j]->bounded;
        if (sh[j]->status == 3) capped = true;
        std::ifstream f(tmp + "/worker." + std::to_string(j) + ".bin", std::ios::binary);
        for (int k = 0; k < 2; k++) {
            uint64_t n = 0; f.read((char *)&n, 8);
            vector<uint64_t> v(n); f.read((char *)v.data(), 8 * n);
            (k ? oc : st).insert(v.begin(), v.end());
        }
        std::ifstream so(tmp + "/worker." + std::to_string(j) + ".txt");
        string l; while (std::getline(so, l)) if (samples.size() < 24) samples.push_back(l);
    }
    double wall = now();
    if (!outf.empty()) {
        std::ofstream o(outf);
        o << "{\"states\":" << st.size() << ",\"transitions\":" << trans << ",\"traces_validated_against_impl\":" << val
          << ",\"executions\":" << cases << ",\"distinct_outcomes\":" << oc.size() << ",\"state_count_capped\":" << (capped ? "true" : "false")
          << ",\"library_mutable_global_bytes_reset_per_case\":" << globals().bytes()
          << ",\"explorations_to_fixpoint\":" << fixp << ",\"explorations_to_depth_bound\":" << bnd << ",\"bounds\":" << jstr(ck.bounds) << ",\"explore_wall_s\":" << wall << ",\"samples\":[";
        for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << jstr(samples[i]);
        o << "]}\n";
    }
    printf("%s: executions=%lu states=%zu transitions=%lu outcomes=%zu wall=%.1fs\n", ck.prop.c_str(), cases, st.size(), trans, oc.size(), wall);
    return 0;
}

// ------------------------------------------------------------------ enumeration helpers
// all sequences over alphabet of length lo..hi, shortest first
inline bool sequences(int k, int lo, int hi, const std::function<bool(const vector<int> &)> &f) {
    for (int len = lo; len <= hi; len++) {
        vector<int> v(len, 0);
        for (;;) {
            if (!f(v)) return false;
            int i = len - 1;
            while (i >= 0 && ++v[i] == k) v[i--] = 0;
            if (i < 0) break;
        }
    }
    return true;
}
} // namespace mc
