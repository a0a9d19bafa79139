#!/usr/bin/env python3
"""Build the library from /repo's working tree, run one property's model-checking harness, write its evidence.

usage: run.py <property> [--tier quick|thorough] [--replay FILE | --case "CASE"]
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: the check itself failed.
"""
from concurrent.futures import ThreadPoolExecutor
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
SRC = os.path.join(REPO, "src")
JOBS = min(8, os.cpu_count() or 8)

LIBFLAGS = ["-fPIC", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=function,pointer-overflow",
            "-ftrivial-auto-var-init=pattern"]
PLAINFLAGS = ["-fPIC", "-O1", "-g", "-w", "-ftrivial-auto-var-init=pattern"]

sys.path.insert(0, VERIF)
from configs import CONFIGS, CHECKS, config_header  # noqa: E402


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(SRC, "src")):
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".c")]
    return sorted(out)


def sh_parallel(cmds, jobs):
    fail = None
    queue = list(cmds)
    running = []
    while queue or running:
        while queue and len(running) < jobs:
            c = queue.pop(0)
            running.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        c, p = running.pop(0)
        out, _ = p.communicate()
        if p.returncode != 0:
            fail = (c, out.decode(errors="replace"))
    return fail


def build(tmp, prop, cfgname, jobs=JOBS):
    """library (one per configuration) + harness; returns (binary, error)"""
    d = os.path.join(tmp, cfgname)
    os.makedirs(os.path.join(d, "obj"))
    cfg = CONFIGS[cfgname]
    defs = ["-I" + SRC]
    if cfg is None:
        defs += ["-DUSH_CONFIG_PLATFORM_POSIX"]
    elif "flags" in cfg:
        defs += cfg["flags"]
    else:
        with open(os.path.join(d, "mc_config.h"), "w") as f:
            f.write(config_header(cfg))
        defs += ["-I" + d, '-DUSH_CONFIG_CUSTOM_FILE="mc_config.h"']
    mcdefs = []
    if cfg:
        mcdefs = ["-DMC_%s=%s" % (k, v) for k, v in cfg.get("mc", {}).items()]
    opts = CHECKS[prop]
    flags = (LIBFLAGS if opts.get("asan", True) else PLAINFLAGS) + opts.get("libflags", [])
    c = cfg or {}
    cc = c.get("cc", "clang")
    flags = c.get("only", flags + c.get("cflags", [])) + c.get("abi", [])
    mainflags = c.get("abi", []) + c.get("main", [])
    cmds, objs = [], []
    for s in sources():
        o = os.path.join(d, "obj", os.path.relpath(s, SRC).replace("/", "_") + ".o")
        objs.append(o)
        cmds.append([cc] + flags + defs + ["-c", s, "-o", o])
    main = os.path.join(d, "main.o")
    cmds.insert(0, ["clang++", "-std=c++17", "-O1", "-w", "-I" + os.path.join(VERIF, "harness")] + mainflags + defs + mcdefs
                + ["-DMC_CONFIG_NAME=\"%s\"" % cfgname, "-DMC_ASAN=%d" % (1 if opts.get("asan", True) else 0)]
                + ["-c", os.path.join(VERIF, "checks", opts.get("source", prop) + ".cpp"), "-o", main])
    fail = sh_parallel(cmds, jobs)
    if fail:
        return None, fail
    san = ["-fsanitize=address,undefined"] if opts.get("asan", True) else []
    lib = os.path.join(d, "libush_mc.so")
    r = subprocess.run([cc, "-shared"] + flags + ["-Wl,-z,now,-z,relro", "-o", lib] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return None, ("link lib", r.stdout.decode(errors="replace"))
    exe = os.path.join(d, "mc_" + prop)
    r = subprocess.run(["clang++"] + san + [main, "-o", exe, "-L" + d, "-lush_mc", "-Wl,-rpath," + d, "-lpthread", "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return None, ("link harness", r.stdout.decode(errors="replace"))
    return exe, None


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.append(l)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = case = None
    a = sys.argv[2:]
    only_cfg = None
    while a:
        k = a.pop(0)
        if k == "--tier": tier = a.pop(0)
        elif k == "--replay": replay = os.path.abspath(a.pop(0))
        elif k == "--case": case = a.pop(0)
        elif k == "--config": only_cfg = a.pop(0)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    opts = CHECKS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="mc_%s_" % prop)
    rc = 2
    try:
        rc = run(prop, tier, seed, opts, tmp, replay, case, only_cfg, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, opts, tmp, replay, case, only_cfg, t0):
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:quarantine_size_mb=8:handle_segv=1:handle_abort=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    cfgs = opts.get("configs", ["default"])
    if tier == "thorough":
        cfgs = opts.get("thorough_configs", cfgs)
    if replay:
        for l in open(replay):
            if l.startswith("config: "):
                only_cfg = l.split()[1]
    if only_cfg:
        cfgs = [only_cfg]
    total = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "executions": 0, "distinct_outcomes": 0,
             "explorations_to_fixpoint": 0, "explorations_to_depth_bound": 0}
    samples, extras, bounds, capped = [], [], "", False
    replay_out = os.path.join(evdir, "%s.replay" % prop)
    if os.path.exists(replay_out) and not replay:
        os.remove(replay_out)
    viol = 0
    pool = ThreadPoolExecutor(max_workers=min(JOBS, len(cfgs)))
    builds = {c: pool.submit(build, tmp, prop, c, max(1, JOBS // len(cfgs))) for c in cfgs}
    for cfg in cfgs:
        exe, err = builds[cfg].result()
        if err:
            if opts.get("build_failure_is_violation"):
                with open(replay_out, "w") as f:
                    f.write("property: %s\nconfig: %s\ncase: build | \nresult: does not build\n%s\n%s\n" % (prop, cfg, err[0], err[1][:4000]))
                print("configuration %s does not build:\n%s" % (cfg, err[1][:3000]))
                print("VIOLATION property=%s replay=%s" % (prop, replay_out))
                return 1
            print("check error: build failed: %s\n%s" % (err[0], err[1][:4000]))
            return 2
        out = os.path.join(tmp, "out_%s.json" % cfg)
        wt = os.path.join(tmp, "w_" + cfg)
        os.makedirs(wt)
        rp = os.path.join(tmp, "replay_%s.txt" % cfg)
        cmd = [exe, "--tier", tier, "--out", out, "--tmp", wt, "--replay-out", rp, "--jobs", str(JOBS)]
        if replay: cmd += ["--replay", replay]
        if case: cmd += ["--case", case]
        p = subprocess.run(cmd, env=env, cwd=wt)
        if replay or case:
            if p.returncode != 0:
                return p.returncode
            continue
        if p.returncode == 1:
            viol = 1
            with open(rp) as f:
                body = f.read()
            with open(replay_out, "w") as f:
                f.write("config: %s\n" % cfg + body)
            print("configuration: %s" % cfg)
            break
        if p.returncode != 0:
            print("check error: harness ended with %d" % p.returncode)
            return 2
        r = json.load(open(out))
        for k in total:
            total[k] += r.get(k, 0)
        capped = capped or r.get("state_count_capped", False)
        samples += r.get("samples", [])[: (16 if len(cfgs) == 1 else 3)]
        bounds = r.get("bounds", bounds)
        extras.append({"config": cfg, "states": r["states"], "executions": r["executions"], "transitions": r["transitions"],
                       "library_mutable_global_bytes_reset_per_case": r["library_mutable_global_bytes_reset_per_case"]})
        for k, v in r.get("extra", {}).items():
            total[k] = total.get(k, 0) + v
        shutil.rmtree(os.path.join(tmp, cfg), ignore_errors=True)
    if replay or case:
        return 0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": dict(total, samples=samples[:24], bounds=bounds, state_count_capped=capped, configurations=extras),
          "assumptions": opts.get("assumptions", ["user callbacks respect the documented callback contract", "the compiler and sanitizer runtime are trusted"]),
          "wall_s": round(time.time() - t0, 2), "violations": viol}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k.split(" ", 2)[2]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, replay_out))
        return 1
    print("OK property=%s tier=%s wall=%.1fs" % (prop, tier, time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
