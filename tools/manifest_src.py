SM = "stateless model checking of the real code (bounded exhaustive enumeration of "
EX = "explicit-state model checking of the real code (exact memory states, "
N = ("Runs the compiled library itself (address/undefined sanitizers, exact-size buffers, read-only constants) in lockstep with an executable reference model of the shell; every execution is a conformance run of a model trace. "
     "Exhaustive within the bounds written to the evidence file; trusts compiler, sanitizer runtime and the reference model.")
TECH = {
    "C01": (EX + "fixpoints over byte alphabets) plus exhaustive enumeration of size configurations, sanitizers as safety oracle", N),
    "C02": (SM + "key sequences) plus explicit-state fixpoints on tiny buffers, lockstep reference model", N),
    "C03": (SM + "lines up to a length), lockstep reference tokenizer", N),
    "C04": (SM + "all placements and spellings of a name), lockstep reference model", N),
    "C05": (SM + "path strings and cd sequences), lockstep reference model", N),
    "C06": (EX + "all mount/unmount/cd histories to a fixpoint), tree read back after each transition", N),
    "C07": (SM + "rejected operations in every directory, argument lists), read-back of all state", N),
    "C08": (EX + "all add/remove histories to a fixpoint), read back after each transition", N),
    "C09": (SM + "file kinds, lengths, counts, ordered trees), lockstep reference model", N),
    "C10": (SM + "contents, sizes, argument lists), lockstep reference model", N),
    "C11": (SM + "contents, sizes, row widths), lockstep reference model", N),
    "C12": (SM + "argument strings and argument lists), lockstep reference model", N),
    "C13": (SM + "lengths, counts, argument lists), lockstep reference model", N),
    "C14": (EX + "accept/refuse chosen at every service call, to a fixpoint) plus enumeration of stall positions", N),
    "C15": (EX + "each service call judged under all accept/refuse patterns, to a fixpoint)", N),
    "C16": (SM + "candidate sets, placements, prefixes, edits) plus explicit-state fixpoints, lockstep reference model", N),
    "C17": (EX + "read/write readiness chosen at every service call, to a fixpoint) plus enumeration of pauses and typed-ahead bursts", N),
    "C18": (SM + "interruption points) plus explicit-state fixpoints, lockstep reference model", N),
    "C19": (SM + "schedules of two instances, preemption-bounded, at service call, callback and memory access granularity)", N),
    "C20": (SM + "shut-down/restart points and tree shapes), lockstep reference model", N),
    "C21": (SM + "call sequences and text lengths), lockstep reference model", N),
    "C22": (SM + "inputs and input pairs in every enumerated build configuration), lockstep reference model", N),
    "C23": (EX + "histories of any length to a fixpoint or state cap) compared with a memoryless reference model, plus all pairs/triples of lines", N),
    "C24": (SM + "inputs and size configurations), allocation hooks and comparison of all non-shell memory after every service call", N),
    "C25": (SM + "table sizes, lengths, depths, argument counts and histories), stack depth measured on every execution", N),
    "C26": (SM + "moments of change: every service call and every callback of every input), before-or-after oracle from the reference model", N),
    "C27": (SM + "strings and string pairs up to a length, exact-size buffers), executable specification of each function", N),
    "C28": (SM + "host names, directory names, moments of change) plus explicit-state fixpoint over output refusals, lockstep reference model", N),
}
NOT_APPLICABLE = []
NOTES = ("No hooks in /repo. All checks drive the public API of the unmodified library built from /repo/src by clang with sanitizers (run.py). "
         "Replay a reported violation with: python3 run.py <id> --replay <path>. Genuine defects repaired are listed in known_findings.txt and DESIGN.md.")
