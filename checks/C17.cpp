// C17: the answer to typed input does not depend on when its bytes arrive; every line gets its one answer and prompt,
// in order, also when lines are typed ahead or the input stalls anywhere.
#include "stepx.h"
#include "dims.h"
using namespace mc;
static vector<string> bursts() {
    return {"ls\rpwd\r", "cd dev\rls\rcd ..\rpwd\r", "echo x > var\rcat var\r", "run a\rfmt b c\r\r\r", "help\rver\r", "x\r\n\r", "\x1b[Als\r", "\x1bOApwd\r", "l\x09\x09s\r", "he\x09\rpwd\r", "ab\x08\x7f" "pwd\r", "q\x03pwd\r", "\x1b", "\x1b[",
            "\"a b\" c\r\rls x\r", "xxd ro\rcat ro var\r", "cd dev/bus\r./scan\rcd\r", "nosuch\rplain\rls /nope\r", "echo \\x41\r", "\x09\rls\r", "/d\x09\x09\r", "run\rrun\rrun\rrun\r", "\r\r\r\r\r", "\n\n\n", "pwd\npwd\r\npwd\n\r", "cd dev\rl\x09\x09s\rpwd\r", "cd dev/bus\r\x09\x03ls\r", "cd dev\rnosuch\rcd bus\r./scan\rpwd\r"};
}
static size_t count(const string &s, const string &t) { size_t n = 0, p = 0; while ((p = s.find(t, p)) != string::npos) { n++; p += t.size(); } return n; }
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C17";
    ck.bounds = "28 multi-line inputs with every pattern of empty reads and refused writes of any length (exact-state exploration to a fixpoint); one pause of 1..65537 empty reads at every input position, all pairs of pauses, uniform pauses; "
                "all ordered pairs (quick) and triples (thorough) of 47 command lines typed ahead in one burst, with the number of prompts counted; split of each burst at every position into two bursts; 20 lines with answers and arguments of hundreds of bytes with a byte of every value typed ahead, and all their pairs (quick) / triples (thorough); sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    auto bs = bursts();
    auto cl = command_lines();
    ck.enumerate = [bs, cl](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(17, tier == "thorough", sink);
        session_cases({SES_LINES, SES_TYPED}, sink);
        bool T = tier == "thorough";
        for (long i = 0; i < (long)bs.size(); i++) sink(Case("bfs", {0, 0, 20000, i}));
        for (long i = 0; i < (long)bs.size(); i++) {
            long n = bs[i].size();
            for (long r : {1L, 2L, 3L, 5L, 8L, 16L, 17L, 64L, 100L, 255L, 256L, 257L, 1000L}) sink(Case("every", {i, r}));
            for (long k = 0; k <= n; k++) {
                for (long r : {1L, 2L, 10L, 255L, 256L, 257L, 65535L, 65536L, 65537L}) sink(Case("one", {i, k, r}));
                for (long k2 = k + 1; k2 <= n; k2++) for (long r : {1L, 3L}) sink(Case("two", {i, k, k2, r}));
                sink(Case("split", {i, k}));
            }
        }
        sequences(cl.size(), 2, 2, [&](const vector<int> &v) { vector<long> n(v.begin(), v.end()); return sink(Case("burst", n)); });
        if (T) sequences(cl.size(), 3, 3, [&](const vector<int> &v) { vector<long> n(v.begin(), v.end()); return sink(Case("burst", n)); });
        // long answers with a byte of every value typed ahead
        for (long i = 0; i < (long)long_lines().size(); i++) for (long b = 0; b < 256; b++) sink(Case("ahead", {i, b}));
        sequences(long_lines().size(), 2, T ? 3 : 2, [&](const vector<int> &v) { vector<long> n(v.begin(), v.end()); return sink(Case("long", n)); });
        for (long n = 1; n <= 120; n++) for (long i = 0; i < (long)cl.size(); i += T ? 1 : 3) sink(Case("flood", {n, i}));
    };
    ck.run = [bs, cl](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        if (c.kind.rfind("bfs", 0) == 0) {
            StepX x;
            x.refuse_read = true;
            x.world = [](long) { return tree_world(); };
            x.script = [bs](long i) { return bs[i]; };
            return x.run(c);
        }
        if (c.kind == "ahead" || c.kind == "long") {
            Env &e = fresh("l", long_world);
            e.write_ready = nullptr; e.read_ready = nullptr;
            auto ll = long_lines();
            string s;
            if (c.kind == "ahead") s = ll[c.n[0]] + (char)c.n[1] + "\x03pwd\r"; else for (long i : c.n) s += ll[i];
            e.send(s, 4000000);
            if (e.err.empty()) e.send("\x03" "cat var\rpwd\r");
            outcome(e);
            return e.err;
        }
        Env &e = fresh("t", tree_world);
        Pattern p;
        e.write_ready = nullptr;
        if (c.kind == "split") {
            e.send(bs[c.n[0]].substr(0, c.n[1]));
            for (int i = 0; i < 3 && e.err.empty(); i++) e.step();
            if (e.err.empty()) e.send(bs[c.n[0]].substr(c.n[1]));
            outcome(e);
            return e.err;
        }
        if (c.kind == "burst" || c.kind == "flood") {
            string s;
            if (c.kind == "burst") for (long i : c.n) s += cl[i]; else s = rep(cl[c.n[1]], c.n[0]);
            e.keep = true;
            e.send(s, 10000000);
            if (e.err.empty()) {
                // lines that end in Enter or Ctrl+C each produce exactly one prompt; completion lists may add theirs
                size_t lines = count(s, "\r") + count(s, "\x03"), prompts = count(e.output, "]$ ");
                bool tab = s.find('\x09') != string::npos;
                if (tab ? prompts < lines : prompts != lines) e.fail(num(lines) + " lines were answered by " + num(prompts) + " prompts");
            }
            e.keep = false; e.output.clear(); e.cblog.clear();
            outcome(e);
            return e.err;
        }
        if (c.kind == "one") p.r[c.n[1]] = c.n[2];
        if (c.kind == "two") { p.r[c.n[1]] = c.n[3]; p.r[c.n[2]] = c.n[3]; }
        if (c.kind == "every") p.every_r = c.n[1];
        p.attach(e);
        e.input = bs[c.n[0]]; e.ipos = 0;
        // run until the input is used up and the shell is idle
        long idle = 0;
        for (long i = 0; i < 4000000 && e.err.empty() && idle < 3; i++) {
            bool r = e.step();
            if (e.starved && e.ipos >= e.input.size()) { idle++; if (r) e.fail("busy without input"); if (!e.m.queue_empty()) e.fail("output missing: " + e.pending()); }
        }
        if (e.err.empty() && idle < 3) e.fail("input was not used up");
        e.read_ready = nullptr; e.write_ready = nullptr;
        if (e.err.empty()) e.send("\rpwd\r");
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
