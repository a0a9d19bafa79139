"""Library configurations the checks are built against, and per-property options."""

CMDS = ["HELP", "LS", "CD", "PWD", "CAT", "XXD", "ECHO"]


TR = {"OK": "ok", "ERROR": "error", "DIRECTORY_NOT_FOUND": "directory not found",
      "NESTED_DIRECTORIES_EXIST": "nested directories exist", "CANNOT_FIND_PARENT_NODE": "cannot find parent node",
      "DIRECTORY_ALREADY_MOUNTED": "directory already mounted", "SYNTAX_ERROR": "syntax error",
      "WRONG_ARGUMENTS": "wrong arguments", "FILE_NOT_EXECUTABLE": "file not executable",
      "FILE_NOT_WRITABLE": "file not writable", "FILE_NOT_READABLE": "file not readable",
      "NO_HELP_AVAILABLE": "no help available", "FILE_NOT_FOUND": "file not found", "READ_ONLY_FILE": "read only file"}


def cfg(cmds=None, autocomp=1, styles=1, commands=1, align=16, cols=8, translate=0, asserts=1):
    on = CMDS if cmds is None else cmds
    mask = 0
    for i, c in enumerate(CMDS):
        if c in on:
            mask |= 1 << i
    d = {"USH_CONFIG_ENABLE_COMMAND_" + c: int(c in on) for c in CMDS}
    d.update({"USH_CONFIG_ENABLE_FEATURE_COMMANDS": commands, "USH_CONFIG_ENABLE_FEATURE_AUTOCOMPLETE": autocomp,
              "USH_CONFIG_ENABLE_FEATURE_SHELL_STYLES": styles, "USH_CONFIG_FILENAME_ALIGN_SPACE": align,
              "USH_CONFIG_CMD_XXD_COLUMNS": cols})
    if translate:
        d.update({"USH_CONFIG_TRANSLATION_" + k: '"T-%s"' % v for k, v in TR.items()})
    if not asserts:
        d["USH_ASSERT(cond)"] = "{ }"
    return {"defs": d, "mc": {"TRANSLATED": translate, "STYLES": styles, "XXD_COLS": cols, "ALIGN": align, "COMMANDS": commands, "AUTOCOMP": autocomp,
                              "CMDSET": "0x%02x" % mask}}


CONFIGS = {
    "default": None,
    "nostyles": cfg(styles=0),
    "noautocomp": cfg(autocomp=0),
    "nocommands": cfg(commands=0),
    "bare": cfg(commands=0, autocomp=0, styles=0),
    "plain": cfg(autocomp=0, styles=0),
    "align4": cfg(align=4, cols=16),
    "align40": cfg(align=40, cols=4),
    "cols16": cfg(cols=16),
    "cols1": cfg(cols=1, align=1),
    "cols3": cfg(cols=3, styles=0),
}
CONFIGS["cols32"] = cfg(cols=32, align=2)
CONFIGS["big"] = cfg(cols=100, align=100)
CONFIGS["odd"] = cfg(cols=5, align=7, styles=0)
CONFIGS["translated"] = cfg(translate=1)
CONFIGS["noassert"] = cfg(asserts=0)
CONFIGS["noassert_bare"] = cfg(asserts=0, commands=0, autocomp=0, styles=0)
CONFIGS["arduino"] = {"flags": ["-DARDUINO"], "mc": {}}
# the same library as other compilers and targets see it
CONFIGS["uchar"] = {"flags": ["-DUSH_CONFIG_PLATFORM_POSIX"], "abi": ["-funsigned-char"]}
CONFIGS["shortenum"] = {"flags": ["-DUSH_CONFIG_PLATFORM_POSIX"], "abi": ["-fshort-enums"]}
CONFIGS["o3"] = {"flags": ["-DUSH_CONFIG_PLATFORM_POSIX"], "cflags": ["-O3"]}
CONFIGS["gcc"] = {"flags": ["-DUSH_CONFIG_PLATFORM_POSIX"], "cc": "gcc", "only": ["-fPIC", "-O2", "-g", "-w", "-ftrivial-auto-var-init=pattern"]}
CONFIGS["gcc_os"] = {"flags": ["-DUSH_CONFIG_PLATFORM_POSIX"], "cc": "gcc", "abi": ["-funsigned-char"], "only": ["-fPIC", "-Os", "-g", "-w", "-fshort-enums", "-ftrivial-auto-var-init=zero"], "main": ["-fshort-enums"]}
for m in range(1, 128):
    CONFIGS["sub_%02x" % m] = cfg(cmds=[c for i, c in enumerate(CMDS) if m >> i & 1], autocomp=m & 1, styles=m >> 1 & 1)
for i, c in enumerate(CMDS):
    CONFIGS["no_" + c.lower()] = cfg(cmds=[x for x in CMDS if x != c])
    CONFIGS["only_" + c.lower()] = cfg(cmds=[c])


def config_header(c):
    s = '#include "config/posix/ush_config.h"\n'
    for k, v in sorted(c["defs"].items()):
        s += "#undef %s\n#define %s %s\n" % (k.split("(")[0], k, v)
    return s


CHECKS = {"C%02d" % i: {} for i in range(1, 40)}
QUICK = ["default", "nostyles", "noautocomp", "nocommands", "bare", "plain", "align4", "align40", "cols16", "cols1", "cols3", "cols32", "big", "odd",
         "translated", "noassert", "noassert_bare", "arduino", "uchar", "shortenum", "o3", "gcc", "gcc_os"] + ["no_" + c.lower() for c in CMDS] + ["only_" + c.lower() for c in CMDS]
CHECKS["C22"] = {"configs": QUICK, "thorough_configs": QUICK + ["sub_%02x" % m for m in range(1, 128)], "build_failure_is_violation": True}
CHECKS["C11"] = {"configs": ["default", "cols1", "cols3", "cols16"], "thorough_configs": ["default", "cols1", "cols3", "cols16", "align40", "cols32"]}
COV = ["-O0", "-fsanitize-coverage=bb,no-prune,trace-pc,trace-loads,trace-stores"]
CHECKS["C19"] = {"libflags": COV}
CHECKS["C25"] = {"asan": False}
