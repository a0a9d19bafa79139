// C18: interrupting. Ctrl+C abandons the line being typed, ush_reset abandons whatever the shell is doing at whatever
// moment; afterwards the shell behaves as after its start (Ctrl+C: in the same directory), and nothing leaks over.
#include "stepx.h"
#include "dims.h"
using namespace mc;
static vector<string> scripts() {
    auto v = command_lines();
    for (const char *s : {"l\x09\x09s\r", "he\x09", "e\x09", "ls /d\x09\x09\r", "ab\x08\x7f" "c", "\x1b", "\x1b[", "\x1b[Aq", "cat ro var /dev/led", "echo \"a b", "ab\\", "cd dev\rls\r", "echo n > var\rcat var\r"}) v.push_back(s);
    // the same from other directories
    size_t n = v.size();
    for (const char *d : {"cd dev\r", "cd dev/bus\r"}) for (size_t i = 0; i < n; i++) v.push_back(d + v[i]);
    return v;
}
static const string after = "x\x08ls\rpwd\rcat var ro\rrun q\rl\x09\x08\x08ls\r\x09\rcd dev\rls\recho z > led\rcat led\rxxd led\rhelp ls\r";
// The first command after the interruption: the one that would meet whatever the interrupted one left behind.
static const vector<string> first = {"", "help\r", "cat var\r", "xxd var\r", "help ls\r", "e\x09\x03", "pwd\r"};
static Explorer typing() {
    Explorer x;
    x.make = [](const vector<long> &n) {
        static std::map<long, World> ws;
        World w = tree_world(); w.in = n[0]; ws[n[0]] = w;
        auto e = std::make_unique<Env>(ws[n[0]]);
        e->drive();
        return e;
    };
    x.acts = [](const vector<long> &n) {
        static const vector<vector<string>> sets = {
            {"a", "\x1b", "[", "\x03", "\r", "\x08"},
            {"cd dev\r", "l", "\x09", "\x03", "\x1b", "\""},
            {"\x03", "echo ", "\\", "\"", "a", "\r"},
        };
        vector<Action> a;
        for (auto &s : sets[n[1]]) a.push_back(send_act(s));
        a.push_back({"ush_reset", [](Env &e) { e.reset(); e.drive(); }});
        return a;
    };
    return x;
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C18";
    ck.bounds = "for 60 inputs, each from three directories: reset before every service call (with the current byte delivered or refused), two resets at all pairs of calls up to distance 12 (quick) / 60 (thorough), Ctrl+C after every prefix of the input, each followed by (after a reset: each of 7 first commands - for the long texts in rotation in quick - then) a "
                "battery of all commands; the same (every 7th call in quick) for 20 lines with texts and arguments of hundreds of bytes; exact-state exploration of typing alphabets with Ctrl+C and reset for input buffers of 4..8 bytes; sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    auto sc = scripts();
    ck.enumerate = [sc](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(18, tier == "thorough", sink);
        session_cases({SES_BREAK, SES_RESET}, sink);
        bool T = tier == "thorough";
        for (long in = 4; in <= 8; in++) for (long s = 0; s < 3; s++) sink(Case("bfs", {in, s, T ? 100000 : 6000}));
        auto ll = long_lines();
        for (long i = 0; i < (long)ll.size(); i++) {
            for (long k = 0; k <= (long)ll[i].size(); k++) sink(Case("lctrlc", {i, k}));
            Env &e = fresh("l", long_world);
            uint64_t s0 = e.steps;
            e.send(ll[i]);
            long n = e.steps - s0;
            for (long k = 0; k <= n; k += T ? 1 : 7) for (long f = 0; f < (long)first.size(); f++) if (T || k / 7 % (long)first.size() == f) sink(Case("lreset", {i, k, k & 1, f}));
        }
        for (long i = 0; i < (long)sc.size(); i++) {
            for (long k = 0; k <= (long)sc[i].size(); k++) sink(Case("ctrlc", {i, k}));
            // number of service calls until idle
            Env &e = fresh("t", tree_world);
            uint64_t s0 = e.steps;
            e.send(sc[i]);
            long n = e.steps - s0;
            if (i >= (long)sc.size() / 3) {
                for (long k = 0; k <= n; k++) for (long h = 0; h < 2; h++) for (long f = 0; f < (long)first.size(); f++) if (T || (k + h) % (long)first.size() == f) sink(Case("reset", {i, k, h, f}));
                continue;
            }
            for (long k = 0; k <= n; k++) {
                for (long f = 0; f < (long)first.size(); f++) { sink(Case("reset", {i, k, 0, f})); sink(Case("reset", {i, k, 1, f})); }
                if (k % (T ? 1 : 3) == 0) for (long d = 0; d <= (T ? 60 : 12); d++) sink(Case("reset2", {i, k, d}));
            }
        }
    };
    ck.run = [sc](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        if (c.kind.rfind("bfs", 0) == 0) { Explorer x = typing(); x.max_states = c.n[2]; return explore(x, c); }
        bool lng = c.kind[0] == 'l';
        Env &e = lng ? fresh("l", long_world) : fresh("t", tree_world);
        string line = lng ? long_lines()[c.n[0]] : sc[c.n[0]], kind = lng ? c.kind.substr(1) : c.kind;
        e.write_ready = nullptr;
        auto reset = [&] { e.reset(); };
        if (kind == "ctrlc") {
            e.send(line.substr(0, c.n[1]) + "\x03");
            if (e.err.empty()) e.send("\x03\x03" "pwd\r");
        } else {
            e.input = line; e.ipos = 0;
            for (long k = 0; k < c.n[1] && e.err.empty(); k++) e.step();
            if (kind == "reset" && c.n[2]) { e.write_ready = [] { return false; }; e.step(); e.step(); e.write_ready = nullptr; }
            if (!e.err.empty()) return e.err;
            reset();
            if (c.kind == "reset2") { e.input = "ls\r"; for (long k = 0; k < c.n[2] && e.err.empty(); k++) e.step(); if (e.err.empty()) reset(); }
            if (e.err.empty()) e.drive();
        }
        if (e.err.empty() && kind == "reset") e.send(first[c.n[3]]);
        if (e.err.empty()) e.send(lng ? "ls\rhelp\rpwd\rcat var\rarg x\rq\x09\x03z\x09\r" : after);
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
