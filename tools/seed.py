#!/usr/bin/env python3
"""Make and confirm planted bugs. usage: seed.py SPEC.py [id...]
SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo='C source', sh=None)].
Each one is confirmed in a scratch copy of /repo (patch applies, builds, stable tests pass, demo exits 0 before and nonzero after)
and written to /verif/seeded/<id>/; then the property's quick check is run against the patched copy (MC_REPO)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_H = open(os.path.join(V, "tools", "demo.h")).read()
SH = '''#!/bin/sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
gcc -w -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -I src %s $(find src/src -name '*.c') -I "$D" "$D/demo.c" -o "$T/demo" || exit 99
ASAN_OPTIONS=detect_leaks=0 timeout 100 "$T/demo"
r=$?
rm -f "$T/demo"
rmdir "$T"
exit $r
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def tests_ok(repo):
    b = tempfile.mkdtemp(prefix="seedb_")
    try:
        r = sh(["cmake", "-G", "Ninja", "-S", repo, "-B", b, "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_PROJECT_INCLUDE=/opt/vp/unity_from_apt.cmake"])
        if r.returncode: return False, r.stdout[-800:]
        r = sh(["ninja", "-C", b])
        if r.returncode: return False, r.stdout[:3000]
        r = sh(["ctest", "-j8", "--timeout", "20"], cwd=b)
        return r.returncode == 0, "\n".join(l for l in r.stdout.splitlines() if "***" in l)
    finally:
        shutil.rmtree(b)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(a for a in sys.argv[2:] if not a.startswith("-"))
    for b in bugs:
        if only and b["id"] not in only: continue
        d = os.path.join(V, "seeded", b["id"])
        tmp = tempfile.mkdtemp(prefix="seed_")
        try:
            repo = os.path.join(tmp, "repo")
            sh(["git", "clone", "-q", "/repo", repo])
            ok = True
            for f, old, new in b["edits"]:
                p = os.path.join(repo, f)
                s = open(p, newline="").read()
                crlf = "\r\n" in s
                if crlf: s = s.replace("\r\n", "\n")
                if s.count(old) != 1:
                    print(b["id"], "EDIT DOES NOT MATCH", f, s.count(old)); ok = False; break
                s = s.replace(old, new)
                if crlf: s = s.replace("\n", "\r\n")
                open(p, "w", newline="").write(s)
            if not ok: continue
            patch = subprocess.run(["git", "-C", repo, "diff"], stdout=subprocess.PIPE).stdout
            t, log = tests_ok(repo)
            if not t:
                print(b["id"], "TESTS FAIL:", "\n".join(l for l in log.splitlines() )[:600]); continue
            dd = os.path.join(tmp, "demo"); os.makedirs(dd)
            open(os.path.join(dd, "demo.c"), "w").write('#include "demo.h"\n' + b["demo"].lstrip("\n"))
            open(os.path.join(dd, "demo.h"), "w").write(DEMO_H)
            open(os.path.join(dd, "demo.sh"), "w").write(SH % b.get("defs", "-DUSH_CONFIG_PLATFORM_POSIX"))
            for k, v in b.get("files", {}).items(): open(os.path.join(dd, k), "w").write(v)
            os.chmod(os.path.join(dd, "demo.sh"), 0o755)
            r0 = sh(["sh", os.path.join(dd, "demo.sh")], cwd="/repo")
            r1 = sh(["sh", os.path.join(dd, "demo.sh")], cwd=repo)
            if r0.returncode != 0 or r1.returncode in (0, 99):
                print(b["id"], "DEMO unchanged=%d patched=%d" % (r0.returncode, r1.returncode), r0.stdout[-600:], r1.stdout[-600:]); continue
            if os.path.exists(d): shutil.rmtree(d)
            shutil.copytree(dd, d)
            open(os.path.join(d, "patch.diff"), "wb").write(patch)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            env = dict(os.environ, MC_REPO=repo)
            r = sh([sys.executable, os.path.join(V, "run.py"), b["property"]], env=env, cwd=V)
            print(b["id"], b["property"], "CAUGHT" if r.returncode == 1 else "*** MISSED (%d)" % r.returncode, (r.stdout.strip().splitlines() or [""])[-1][:150] if r.returncode != 1 else "", flush=True)
        finally:
            shutil.rmtree(tmp)


main()
