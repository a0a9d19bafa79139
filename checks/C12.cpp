// C12: echo decodes its argument exactly and prints it or hands it to the file's setter.
#include "worlds.h"
#include "dims.h"
using namespace mc;
static World world(long in) {
    World w;
    w.in = in; w.out = 40; w.path = 32;
    w.mount("/", {Frw("w", "old"), Fr("r", "ro"), F("n"), Frw("v", "")});
    w.mount("/d", {Frw("w", "d-old")});
    return w;
}
int main(int argc, char **argv) {
    Check ck;
    ck.prop = "C12";
    ck.bounds = "all arguments up to length 5 (quick) / 6 (thorough) over {\\, x, 4, a, F, g, quote, blank} both printed and written; all 256 \\xNN with every digit case, alone, between text and twice; every pair of two hex-ish characters after \\x (96^2); "
                "every byte value raw; argument lengths to the input size with 0..6 escapes; all argument lists up to length 4 over {text, >, writable, read-only, missing, directory, quoted >, >>}; all words up to length 3 (4) over 11 characters, and every byte next to >, in place of the redirection sign; texts of 66000 characters; sessions of 300 and 66000 repetitions; one-dimension sweeps: a script of this property's lines in a world where one of 18 sizes takes every value of its range (0..300 and more) (also with each of 15 settings of a second one)";
    ck.enumerate = [](const string &tier, std::function<bool(const Case &)> sink) {
        dim_cases(12, tier == "thorough", sink);
        session_cases({SES_ECHO}, sink);
        bool T = tier == "thorough";
        for (long k : {(long)HUGE_ECHO}) sink(Case("huge", {k}));
        static const vector<string> al = {"\\", "x", "4", "a", "F", "g", "\"", " "};
        for (long b = 0; b < 256; b++) for (long k = 0; k < 4; k++) sink(Case("hex", {b, k}));
        for (long a = 0x20; a < 0x7f; a++) sink(Case("pair", {a}));
        for (long b = 1; b < 256; b++) sink(Case("raw", {b}));
        { // everything that is nearly a redirection
            static const string rd = ">< w-\\\"1&|x";
            sequences(rd.size(), 1, T ? 4 : 3, [&](const vector<int> &v) { string s; for (int i : v) s += rd[i]; return sink(Case("redir", {}, s)); });
            for (int b = 1; b < 256; b++) { sink(Case("redir", {}, string(1, (char)b))); sink(Case("redir", {}, string(">") + (char)b)); sink(Case("redir", {}, string(1, (char)b) + ">")); }
        }
        for (long in : {20L, 32L, 48L}) for (long n = 0; n <= in; n++) for (long k = 0; k <= 6; k++) for (long at = 0; at < 3; at++) sink(Case("len", {in, n, k, at}));
        static const vector<string> words = {"hi", ">", "w", "r", "nope", "d", "\">\"", "d/w", "\"\"", "\\x41", ">>"};
        sequences(words.size(), 0, T ? 5 : 4, [&](const vector<int> &v) { string s; for (int i : v) s += (char)('0' + i); return sink(Case("args", {}, s)); });
        sequences(al.size(), 1, T ? 6 : 5, [&](const vector<int> &v) { string s; for (int i : v) s += al[i]; return sink(Case("str", {}, s)); });
    };
    ck.run = [](const Case &c) -> string {
        if (c.kind == "dim") return run_dim(c);
        if (c.kind == "session") return run_session(c.n[0], c.n[1]);
        if (c.kind == "huge") return run_huge(c.n[0]);
        if (c.kind == "len") {
            Env &e = fresh("l" + num(c.n[0]), [&] { return world(c.n[0]); });
            string esc = rep("\\x41", c.n[2]), txt = rep("q", c.n[1]);
            string a = c.n[3] == 0 ? esc + txt : c.n[3] == 1 ? txt + esc : txt.substr(0, txt.size() / 2) + esc + txt.substr(txt.size() / 2);
            e.send("echo " + a + "\r"); if (e.err.empty()) e.send("\x03");
            if (e.err.empty()) e.send("echo " + a + " > w\r");
            if (e.err.empty()) e.send("\x03" "cat w\r");
            outcome(e);
            return e.err;
        }
        Env &e = fresh("w", [] { return world(80); });
        auto both = [&](const string &a) {
            if (e.err.empty()) e.send("echo " + a + "\r");
            if (e.err.empty()) e.send("echo " + a + " > w\rcat w\recho " + a + " > d/w\r");
        };
        if (c.kind == "hex") {
            static const char *f[] = {"\\x%02x", "\\x%02X", "ab\\x%02xcd", "\\x%02x\\x%02X"};
            char b[64];
            snprintf(b, sizeof b, f[c.n[1]], (int)c.n[0], (int)c.n[0]);
            both(b);
        } else if (c.kind == "pair") {
            for (int b = 0x20; b < 0x7f; b++) { string s = "\"m\\x"; s += (char)c.n[0]; s += (char)b; both(s + "n\""); if (!e.err.empty()) break; e.send("\x03"); }
        } else if (c.kind == "raw") {
            e.send("echo a" + string(1, (char)c.n[0]) + "b > w\r");
            if (e.err.empty()) e.send("\x03" "cat w\r");
        } else if (c.kind == "redir") {
            e.send("echo t " + c.s + " w\r");
            if (e.err.empty()) e.send("\x03" "cat w\recho t" + c.s + "w\r");
            if (e.err.empty()) e.send("\x03" "echo t" + c.s + " w\r\x03");
            if (e.err.empty()) e.send("echo t " + c.s + "w\r\x03" "cat w d/w\r");
        } else if (c.kind == "args") {
            static const char *words[] = {"hi", ">", "w", "r", "nope", "d", "\">\"", "d/w", "\"\"", "\\x41", ">>"};
            string l = "echo";
            for (char ch : c.s) l += string(" ") + words[ch - '0'];
            e.send(l + "\rcat w d/w v r\r");
        } else {
            e.send("echo " + c.s + "\r");
            if (e.err.empty()) e.send("echo " + c.s + " > w\r");
            if (e.err.empty()) e.send("echo \"" + c.s + "\" > d/w\rcat w d/w\r");
        }
        outcome(e);
        return e.err;
    };
    return mc_main(argc, argv, ck);
}
