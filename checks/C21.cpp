// C21: the printing API. Text printed from a user callback comes out exactly once, complete, between the echo of the
// line and the next prompt; the last of several prints wins, consecutive ush_printf calls are joined.
#include "stepx.h"
#include "dims.h"
using namespace mc;
// one API call of a callback: kind and parameter
struct Call { int k; long n; };
enum { C_PRINT, C_NN, C_PRINTF, C_STATUS, C_FLUSH, C_NONE };
static string text(long n) { string s; for (long i = 0; i < n; i++) s += (char)('A' + i % 57); return s; }
static vector<Call> &calls() { static vector<Call> v; return v; }
static vector<string> &texts() { static vector<string> v; return v; }     // stay valid while printed
static size_t &split() { static size_t n = 0; return n; }    // so many calls are made by the general exec callback
static void do_calls(Env &e, size_t from = split(), size_t to = 1000) {
    Inside in_;
    if (from == 0 || split() == 0) { texts().clear(); texts().reserve(calls().size() + 1); }
    for (size_t q = from; q < std::min(to, calls().size()); q++) {
        auto &c = calls()[q];
        texts().push_back(text(c.n));
        switch (c.k) {
        case C_PRINT: ush_print(e.o, (char *)texts().back().c_str()); break;
        case C_NN: ush_print_no_newline(e.o, (char *)texts().back().c_str()); break;
        case C_PRINTF: {                          // the text as argument, as the format itself, or in two pieces
            const string &t = texts().back();
            if ((q + c.n) % 3 == 0) ush_printf(e.o, "%s", t.c_str());
            else if ((q + c.n) % 3 == 1) ush_printf(e.o, t.c_str());
            else ush_printf(e.o, "%.*s%s", (int)(t.size() / 2), t.c_str(), t.c_str() + t.size() / 2);
            break;
        }
        case C_STATUS: ush_print_status(e.o, (ush_status_t)c.n); break;
        case C_FLUSH: strcpy(e.out, texts().back().substr(0, e.w->out - 1).c_str()); ush_flush(e.o); break;
        }
    }
}
static void model_calls(Model &m) {
    // what counts is the last call; printf joins an immediately preceding run of printf
    auto &v = calls();
    size_t i = v.size();
    if (!i) { m.prompt(); return; }
    Call l = v[i - 1];
    switch (l.k) {
    case C_PRINT: m.say(text(l.n)); break;
    case C_NN: m.say_nn(text(l.n)); break;
    case C_STATUS: m.status(l.n); break;
    case C_FLUSH: m.say_nn(text(l.n).substr(0, m.out_size - 1)); break;
    case C_PRINTF: {
        vector<string> parts;
        while (i > 0 && v[i - 1].k == C_PRINTF) parts.insert(parts.begin(), text(v[--i].n));
        string nl = m.nl;
        if (i > 0) m.nl = "";              // an earlier print took the place of the echo: printf starts with an empty buffer
        m.printf_seq(parts);
        m.nl = nl;
        break;
    }
    }
}
static World world(long out) {
    World w;
    w.in = 40; w.out = out; w.path = 32; w.gexec = true;
    FSpec s = Frw("set", "x"); s.sx = X_HOOK;
    w.mount("/", {Fx("h", X_HOOK), s, Fx("p", X_PRINTF)});
    w.group({Fx("g", X_HOOK)});
    return w;
}
static Env &env(long out) {
    Env &e = fresh("o" + num(out), [&] { return world(out); });
    e.hook = [](Env &v, int, int, char **) { do_calls(v); };
    e.m.hook = [](Model &m, int, const vector<string> &) { model_calls(m); };
    e.on_gexec = nullptr; split() = 0;
    return e;
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C21";
    ck.bounds = "all sequences of up to 4 (quick) / 5 (thorough) calls over {print, print without newline, printf, empty print, long printf, status, flush} made in a command or a setter, and of up to 3 / 4 calls split between the general exec callback and the command, an unknown command or a file that cannot be executed (no flush or print before a later printf); one printf of every length 0..2*buffer+5 and all pairs "
                "of printf lengths, triples on a grid, for buffers of 26..64 bytes; pairs and triples around the limits of buffers of 255..520 and 66000 bytes; up to 600 consecutive calls; print/flush texts of length 0..700; all 13 status codes; CR and LF line ends; write refusals to a fixpoint; printf with a failing conversion behind texts of every length; texts of 65534..66000 characters; sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(21, tier == "thorough", sink);
        session_cases({SES_PRINT}, sink);
        bool T = tier == "thorough";
        for (long k : {(long)HUGE_PRINT, (long)HUGE_NAMES}) sink(Case("huge", {k}));
        for (long s = 0; s < 13; s++) for (long how = 0; how < 4; how++) sink(Case("calls", {64, how, C_STATUS, s}));
        for (long n = 0; n <= 700; n++) for (long k : {(long)C_PRINT, (long)C_NN}) sink(Case("calls", {40, n % 4, k, n}));
        for (long out : {26L, 27L, 29L, 33L, 40L, 64L}) {
            for (long n = 0; n <= 2 * out + 5; n++) for (long how = 0; how < 4; how++) sink(Case("calls", {out, how, C_PRINTF, n}));
            for (long n = 0; n < out; n++) for (long how = 0; how < 4; how++) sink(Case("calls", {out, how, C_FLUSH, n}));
            for (long a = 0; a <= out + 2; a++) for (long b = 0; b <= out + 2; b++) sink(Case("calls", {out, (a + b) % 4, C_PRINTF, a, C_PRINTF, b}));
            long g = T ? 1 : 4;
            for (long a = 0; a <= out; a += g) for (long b = 0; b <= out; b += g) for (long c = 0; c <= out; c += g) sink(Case("calls", {out, (a + b + c) % 4, C_PRINTF, a, C_PRINTF, b, C_PRINTF, c}));
        }
        static const vector<Call> al = {{C_PRINT, 9}, {C_NN, 5}, {C_PRINTF, 6}, {C_PRINT, 0}, {C_PRINTF, 47}, {C_STATUS, 7}, {C_FLUSH, 8}, {C_PRINTF, 0}};
        sequences(al.size(), 0, T ? 5 : 4, [&](const vector<int> &v) {
            // flush or a plain print of the buffer followed by printf: not specified, left out
            for (size_t i = 0; i + 1 < v.size(); i++) if (al[v[i]].k == C_FLUSH && al[v[i + 1]].k == C_PRINTF) return true;
            for (long how = 0; how < 4; how++) {
                vector<long> n = {40, how};
                for (int i : v) { n.push_back(al[i].k); n.push_back(al[i].n); }
                sink(Case("calls", n));
            }
            return true;
        });
        // the general callback prints, then the command itself prints too, or is unknown, or cannot be executed
        sequences(al.size(), 1, T ? 4 : 3, [&](const vector<int> &v) {
            for (size_t i = 0; i + 1 < v.size(); i++) if (al[v[i]].k == C_FLUSH && al[v[i + 1]].k == C_PRINTF) return true;
            for (long sp = 1; sp <= (long)v.size(); sp++) for (long how = 0; how < 4; how++) {
                vector<long> n = {40, how, sp};
                for (int i : v) { n.push_back(al[i].k); n.push_back(al[i].n); }
                sink(Case("gcalls", n));
            }
            return true;
        });
        // output buffers beyond 8 and 16 bits
        for (long out : {255L, 256L, 257L, 300L, 520L, 66000L}) {
            vector<long> ls = {0, 1, 100, 254, 255, 256, 257, 299, out / 2, out - 30, out - 2, out - 1, out, out + 1, out + 300};
            if (out > 60000) for (long x : {65534L, 65535L, 65536L, 65537L}) ls.push_back(x);
            for (long a : ls) for (long b : ls) {
                if (out > 60000 && a < 60000 && b < 60000) continue;
                sink(Case("calls", {out, (a + b) % 4, C_PRINTF, a, C_PRINTF, b}));
                if (T || (a + b) % 3 == 0) sink(Case("calls", {out, (a + b) % 4, C_PRINTF, a, C_PRINTF, 5, C_PRINTF, b}));
            }
            for (long n : ls) sink(Case("calls", {out, n % 4, C_FLUSH, n}));
        }
        for (long out : {64L, 300L, 600L, 66000L}) for (long n : {2L, 20L, 60L, 255L, 256L, 257L, 300L, 600L}) for (long len : {0L, 1L, 2L, 110L}) {
            if (n * len > 70000 || (out > 60000 && len < 110)) continue;
            sink(Case("parts", {out, (n + len) % 4, n, len}));
        }
        for (long i = 0; i < 8; i++) sink(Case("slow", {i}));
        for (long out : {26L, 27L, 33L, 40L, 64L}) for (long a = 0; a <= out + 2; a++) for (long b = 0; b <= out + 2; b += a < 5 ? 1 : out) sink(Case("format", {out, a, b}));
        for (long out : {300L, 520L, 66000L}) for (long a : {0L, 1L, 254L, 255L, 256L, 257L, out - 40, out - 19, out - 18, out - 17, out - 2, out + 1}) for (long b : {0L, 1L, 255L, 256L, 260L, out / 2, out - 30, out - 17, out - 1, out}) sink(Case("format", {out, a, b}));
    };
    ck.run = [](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        if (c.kind == "huge") return run_huge(c.n[0]);
        static const char *how[] = {"h q\r", "g\n", "echo v > set\r", "\"h\" \"a b\"\r"};
        if (c.kind == "calls") {
            Env &e = env(c.n[0]);
            calls().clear();
            for (size_t i = 2; i + 1 < c.n.size(); i += 2) calls().push_back({(int)c.n[i], c.n[i + 1]});
            e.send(how[c.n[1]]);
            if (e.err.empty()) e.send("p a\r");
            if (e.err.empty()) e.send(how[(c.n[1] + 1) % 4]);
            if (e.err.empty()) e.send("ls\r");
            return e.err;
        }
        if (c.kind == "parts") {
            Env &e = env(c.n[0]);
            calls().clear();
            for (long i = 0; i < c.n[2]; i++) calls().push_back({C_PRINTF, c.n[3]});
            e.send(how[c.n[1]]);
            if (e.err.empty()) e.send("p a\r");
            if (e.err.empty()) e.send(how[(c.n[1] + 1) % 4]);
            return e.err;
        }
        if (c.kind == "gcalls") {
            static const char *lines[] = {"h q\r", "g\n", "nosuch\r", "set x\r"};
            Env &e = env(c.n[0]);
            calls().clear();
            for (size_t i = 3; i + 1 < c.n.size(); i += 2) calls().push_back({(int)c.n[i], c.n[i + 1]});
            split() = c.n[2];
            e.on_gexec = [](Env &v) { do_calls(v, 0, split()); };
            e.send(lines[c.n[1]]);
            e.on_gexec = nullptr; split() = 0;
            if (e.err.empty()) e.send("p a\r");
            if (e.err.empty()) e.send("ls\r");
            return e.err;
        }
        if (c.kind == "slow") {
            Env &e = env(33);
            calls().clear();
            static const vector<vector<Call>> v = {{{C_PRINT, 50}}, {{C_NN, 50}}, {{C_PRINTF, 20}}, {{C_PRINTF, 10}, {C_PRINTF, 30}}, {{C_FLUSH, 9}}, {{C_STATUS, 5}}, {{C_PRINT, 3}, {C_NN, 4}}, {{C_NN, 3}, {C_PRINTF, 12}}};
            calls() = v[c.n[0]];
            for (long every = 0; every < 5 && e.err.empty(); every++) for (long k = 0; k < 120 && e.err.empty(); k++) {
                Pattern p; p.every_w = every; p.w[k] = 3;
                p.attach(e);
                e.send(how[c.n[0] % 4]);
            }
            e.write_ready = nullptr; e.read_ready = nullptr;
            return e.err;
        }
        // a conversion that fails (invalid wide character) is reported, the text before it is kept or dropped, the shell goes on
        Env &e = env(c.n[0]);
        long before = c.n[1], part = c.n[2];
        e.hook = [=](Env &v, int, int, char **) { wchar_t bad[2] = {(wchar_t)0x7fffffff, 0}; Inside in_; if (part) ush_printf(v.o, "%s", text(part).c_str()); ush_printf(v.o, "%s%ls", text(before).c_str(), bad); };
        e.m.hook = [](Model &m, int, const vector<string> &) { m.prompt(); };
        e.lockstep = false; e.keep = true;
        e.send("h\r");
        if (e.err.empty() && e.output.find("...format error\r\n") == string::npos) e.fail("printf that cannot be formatted is not reported: \"" + vis(e.output) + "\"");
        if (e.err.empty()) {
            // what stands between the echo and the message: the texts as far as they were written, whole where there is room
            static const string msg = "...format error\r\n";
            size_t at = e.output.find("\r\n"), m = e.output.find(msg);
            string shown = at == string::npos || at + 2 > m ? "?" : e.output.substr(at + 2, m - at - 2), full = text(part) + text(before);
            if (part + 3 > c.n[0]) {}                   // the earlier text was cut itself
            else if (full.compare(0, shown.size(), shown) != 0) e.fail("the text before a failing conversion is altered: \"" + vis(e.output.substr(0, 4000)) + "\"");
            else if ((long)shown.size() < part && part + (long)msg.size() + 4 < c.n[0]) e.fail("the text of an earlier printf is lost when a conversion fails: \"" + vis(e.output.substr(0, 4000)) + "\"");
        }
        size_t p = e.output.rfind("]$ ");
        if (e.err.empty() && p == string::npos) e.fail("no prompt after a failing printf");
        e.output.clear();
        e.send("pwd\r");
        if (e.err.empty() && e.output.find("/\r\n") == string::npos) e.fail("shell does not go on after a failing printf");
        e.keep = false; e.lockstep = true; e.output.clear();
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
