"""Source of properties.jsonl (python3 tools/gen.py rewrites properties.jsonl and MANIFEST.json from this and configs.py)."""

S = "src/src/"
C = "src/src/commands/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe) or ["io read/write callbacks", "file and exec callbacks"], "hook_needed": None}})


p("C01", "Memory safety and liveness for every input",
  "Whatever bytes the input delivers, whatever legal sizes the input, output and path buffers have and whatever files and directories are mounted, the shell never reads or writes outside its object, the buffers and the "
  "data handed to it, never modifies what was handed to it as constant, and never crashes or trips an assertion. After every input it comes back to reading the next byte within a bounded number of service calls.",
  ["inputs", "histories", "configurations"],
  "all byte sequences over adversarial alphabets up to a fixpoint of exact shell states, for input buffers 2..7 bytes and a range of output and path sizes; every command line of a battery in worlds whose names, paths and texts sit at the buffer limits",
  "Unit tests use a few well-formed lines with comfortable buffers and without sanitizers; a one byte overflow needs a particular length/size relation or a particular history of edits.",
  [S + "ush_read_char.c", S + "ush_autocomp.c", S + "ush_parse_char.c", S + "ush_file.c", S + "ush_node.c", S + "ush_utils.c", C + "ush_cmd_ls.c", C + "ush_cmd_help.c", C + "ush_cmd_xxd.c"],
  [("input length limit", S + "ush_read_utils.c"), ("path length limit", S + "ush_file.c, ush_node_utils.c"), ("output formatting limits", C + "*.c, src/src/ush.c (ush_printf)")])

p("C02", "Line editing: echo, erase and escape handling",
  "Every ordinary typed byte is echoed exactly once and becomes part of the line; backspace and DEL take back exactly the last character (and do nothing on an empty line); cursor escape sequences leave no trace. "
  "When Enter (CR or LF) is typed, the command executed is exactly the line as edited, and what was shown on the terminal is that line.",
  ["inputs", "histories"], "all key sequences up to length 6-8 over {letters, space, BS, DEL, ESC, '[', 'O', CR, ...}; all 256 byte values at several line positions; lines of every length around the buffer size; exact-state exploration to a fixpoint with tiny buffers",
  "The tests feed single characters to single functions; interplay of erase, escape state, buffer limit and Enter is a matter of sequences.",
  [S + "ush_read_char.c", S + "ush_read_utils.c", S + "ush_read.c", S + "ush_write.c"],
  [("character state machine", S + "ush_read_char.c"), ("echo", S + "ush_read_utils.c")])

p("C03", "A line is split into the documented arguments",
  "An executed command receives argc and a NULL-terminated argv that are exactly the words of the line: separated by blanks, with double quotes grouping blanks and backslash taking the next character literally (a backslash before x keeps the hex escape for later decoding). "
  "Nothing of earlier lines, of other words or beyond the line ever shows up, however many words there are or wherever quotes and backslashes are placed.",
  ["inputs"], "all lines up to length 7-10 over {a, b, blank, quote, backslash, x, '}; every byte value in 14 contexts; 0..620 arguments; word lengths to the buffer limit; pairs of 16 word fragments",
  "A handful of example lines cannot settle a tokenizer with quote/escape state over all strings and over argument counts larger than any array.",
  [S + "ush_parse.c", S + "ush_parse_char.c", S + "ush_parse_utils.c"],
  [("parser state machine", S + "ush_parse_char.c"), ("argv construction", S + "ush_parse_utils.c")])

p("C04", "Command dispatch: which file runs, callback order, error reports",
  "The first word of a line selects a global command of the newest group that has that name, otherwise the file found at that path (relative to the current directory); exactly that file's exec callback runs, exactly once, with the file's own descriptor, after the generic exec callback if there is one. "
  "If there is no such file or it is not executable, no file callback runs and the matching error text is printed.",
  ["inputs", "configurations"], "all 4^6 placements of a name over command groups and directories (absent / not executable / executable / duplicated) x 14 spellings x generic callback on/off",
  "Tests mount one or two files; precedence between groups, directories and duplicates is combinatorial.",
  [S + "ush_process.c", S + "ush_file.c", S + "ush_parse.c"],
  [("file lookup order", S + "ush_file.c"), ("execution", S + "ush_process.c")])

p("C05", "Path resolution and current directory",
  "Every path argument - absolute or relative, with '.', '..' and a trailing slash - denotes the directory or file obtained by walking it from the current directory, '..' at the root staying at the root. "
  "cd changes the current directory to exactly that directory or changes nothing and reports 'directory not found'; pwd, the prompt, ls, cat and execution agree on the current directory at all times, and a path longer than the configured maximum is never found.",
  ["inputs", "histories"], "all path strings up to length 6-8 over {/ . a b} from 7 directories for cd, ls, cat and execution, each with read-back; all cd sequences; path lengths around every configured maximum",
  "Path strings form an infinite language with corner cases ('..' past root, prefix names, dots in names, lengths) that examples only sample.",
  [S + "ush_utils.c", S + "ush_node.c", S + "ush_node_utils.c", S + "ush_file.c", C + "ush_cmd_cd.c"],
  [("path collapsing", S + "ush_utils.c"), ("lookup", S + "ush_node_utils.c, ush_file.c")])

p("C06", "The directory tree reflects exactly the history of mounts and unmounts",
  "After any sequence of mount and unmount calls the shell shows exactly the directories mounted and not unmounted, each with its own files, its parent, and its children. "
  "Mounting fails exactly when the path is already mounted or its parent is not, unmounting exactly when the path is not mounted or still has children, each with its documented status; nodes can be reused afterwards.",
  ["histories"], "all operation sequences over 10 path sets of 5-7 directories, explored over exact memory states to a fixpoint, with the whole tree read back through ls/cd/pwd/cat after every operation; wide (0..300) and deep (60) trees",
  "Linked-list removal bugs depend on position and history; tests unmount one or two nodes.",
  [S + "ush_node_mount.c", S + "ush_node.c", S + "ush_node_utils.c"],
  [("mount/unmount list operations", S + "ush_node_mount.c"), ("parent lookup", S + "ush_node_utils.c")],
  ["return values of mount/unmount", "ls, cd, pwd, cat output"])

p("C07", "Rejected operations have no side effects",
  "An operation that is reported as failed (cd, cat, xxd, echo, help, ls, mount, unmount, changing directory by API) runs no getter or setter, and leaves file contents, the current directory, the directory tree and the objects passed in as they were. "
  "In particular cat with several files delivers nothing if any of them cannot be read.",
  ["inputs", "histories"], "every rejected mount/unmount/cd from every working directory for three fillings of the node; all argument lists up to length 4-5 for all built-in commands; each followed by a read-back of the whole tree",
  "Tests check the error text of a failure, hardly ever the absence of side effects, and not for all argument positions.",
  [S + "ush_node_mount.c", C + "ush_cmd_cat.c", C + "ush_cmd_echo.c", C + "ush_cmd_cd.c", C + "ush_cmd_ls.c"],
  [("checks before effects", C + "*.c, src/src/ush_node_mount.c")])

p("C08", "Registry of global commands",
  "Adding a group of commands makes exactly its files callable from every directory, listed by help and completed, before those of older groups with the same name; removing a group takes exactly that group away, whatever its position, and leaves all others as they were. "
  "Adding or removing one group never affects directories, files or the current directory.",
  ["histories"], "every add/remove sequence over 4 groups with overlapping names to a fixpoint over exact states, help, dispatch, per-command help and completion read back after each step; 0..40 groups removed in several orders",
  "Tests add one group; unlinking at every position after every history is not tested.",
  [S + "ush_commands.c", C + "ush_cmd.c", S + "ush_file.c"],
  [("group list", S + "ush_commands.c")], ["help output", "dispatch", "return values"])

p("C09", "ls lists exactly the directory",
  "ls prints '.', '..' (except in the root), every mounted sub directory once and every file of the directory once, in order, each with correct type, permission flags (readable, writable, executable, help available), full name and description, and nothing else. "
  "This holds for any number of entries and any length of names and descriptions, for the current and for a named directory.",
  ["inputs", "configurations"], "all pairs of the 32 file kinds; name lengths 0..2*buffer+3 for several buffer sizes; description lengths 0..300; 0..300 files and directories; all ordered trees up to 6 nodes listed at every node",
  "Only a few fixed listings are tested; counters, buffer limits and combinations of flags are not.",
  [C + "ush_cmd_ls.c", S + "ush_write_utils.c"], [("listing state machine", C + "ush_cmd_ls.c")])

p("C10", "cat delivers file contents byte for byte",
  "cat prints, for each of its arguments in order, exactly the bytes the file's getter returned - all of them, any values and any length, including none - calling each getter once, and nothing in between or behind them.",
  ["inputs"], "file sizes 0..600 and around 2^8..2^17 with 3-5 contents; each single byte value; all argument lists up to length 4-5 over 9 files (same file twice, empty, missing data pointer)",
  "Tests read a few short texts.", [C + "ush_cmd_cat.c", S + "ush_write_utils.c", S + "ush_write.c"], [("data writer", S + "ush_write_utils.c"), ("file iteration", C + "ush_cmd_cat.c")])

p("C11", "xxd dumps every byte at its right place",
  "xxd prints the file in rows with increasing 8-digit hex offset, each byte once as two hex digits in its column and as itself (printable) or '.' in the text column, last row padded, for every file length and content and every configured row width. An empty file prints one row without bytes.",
  ["inputs", "configurations"], "sizes 0..1100 and around 2^12, 2^16; every byte value at every column; pairs of special bytes; row widths 1, 3, 8, 16 (and 4, 32 in thorough)",
  "Tests dump two or three short buffers with the default row width.", [C + "ush_cmd_xxd.c"], [("row formatting", C + "ush_cmd_xxd.c")])

p("C12", "echo decodes its text and stores or prints exactly that",
  "echo TEXT prints TEXT with \\xNN decoded to the byte, followed by a new line; echo TEXT > FILE passes exactly the decoded bytes and their count - NUL bytes included - to the setter of FILE, once, and prints nothing; what cat then returns is what was written. "
  "Any other form of arguments is refused without touching a file.",
  ["inputs"], "all arguments up to length 5-6 over {\\, x, 4, a, F, g, quote, blank}; all 256 escapes in every digit case and context; all pairs behind \\x; all lengths to the buffer limit; all argument lists up to length 4-5 over 10 words",
  "A few fixed strings are tested.", [C + "ush_cmd_echo.c", S + "ush_utils.c"], [("hex decoding", S + "ush_utils.c"), ("redirection", C + "ush_cmd_echo.c")])

p("C13", "help lists all commands and prints manuals verbatim",
  "help lists every global command of every group exactly once, newest group first, with its description; help FILE prints exactly the manual text of the file that FILE denotes, or says that there is none or that the file does not exist.",
  ["inputs", "configurations"], "name/description lengths around and beyond the output buffer for 4 buffer sizes; 0..300 commands, 0..40 groups; manual texts of length 0..600 and of every byte value; all argument lists up to length 3 from 4 directories",
  "Tests list the default commands.", [C + "ush_cmd_help.c", S + "ush_process.c"], [("listing state machine", C + "ush_cmd_help.c")])

p("C14", "Blocked output loses, repeats or alters nothing",
  "If the output refuses a byte, exactly that byte is offered again; whatever the pattern of refusals, the accepted byte stream, the user callbacks and their order, and the final state of the shell are the same as without any refusal.",
  ["schedules", "fault_sequences"], "all refusal patterns of any length for the banner and 59 inputs over all commands, by exact-state exploration of service calls to a fixpoint; stalls of 1..65537 refusals at every write position, pairs of stalls, uniform rates",
  "Test doubles for output almost always accept; there is one refusal in a few tests, never at every point.",
  [S + "ush_write.c", S + "ush_write_utils.c", S + "ush.c"], [("write retry", S + "ush_write_utils.c, ush_write.c")])

p("C15", "One service call does one small step",
  "A single service call moves at most one byte in one direction, returns after a bounded amount of work and reports truthfully: 'nothing to do' only when no input was available and nothing is left to output. "
  "The shell never needs more than a number of calls bounded by its table sizes and line length between two bytes, so output and input always make progress.",
  ["schedules", "inputs"], "each service call of the exact-state exploration of 57 inputs with all refusal patterns is judged; bounds over directories and groups of 0..120 entries and lines up to the limit",
  "Tests count calls for a few flows.", [S + "ush.c", S + "ush_process.c", S + "ush_read.c", S + "ush_write.c", S + "ush_autocomp.c"], [("service state machine", S + "ush.c")],
  ["return value of the service call", "io callbacks per call"])

p("C16", "Completion completes to what exists and what is shown is what runs",
  "TAB extends the last word exactly by what all matching names (commands, files of the current directory, sub directories) have in common; when they share nothing more, it lists exactly the matching names and shows prompt and line again; without a match it does nothing. "
  "The rest of the line stays as it was, further typing, erasing and Enter work on the line as shown, and no completion exceeds the line length.",
  ["inputs", "histories"], "every set of 1..3 of 14 names in 4 placements with 15 prefixes, 1-2 TABs and following edits; candidate lengths around the buffer limit; exact-state exploration to fixpoints",
  "Tests run single completion functions on a few candidate lists.", [S + "ush_autocomp.c", S + "ush_autocomp_state.c", S + "ush_autocomp_utils.c", S + "ush_utils.c"],
  [("candidate search and common prefix", S + "ush_autocomp_state.c, ush_autocomp_utils.c")])

p("C17", "Answers do not depend on input timing; typed-ahead lines are answered in order",
  "The output and callbacks for an input are the same whether its bytes arrive at once, one by one, with pauses of any length or while earlier output is still being sent; no input byte is read before the previous line's output is complete. "
  "Every line gets exactly one answer and one prompt, in the order typed.",
  ["schedules", "inputs"], "25 multi-line inputs with every pattern of empty reads and refused writes of any length (exact-state fixpoint); pauses of 1..65537 polls at every position; all ordered pairs (triples in thorough) of 47 lines typed ahead",
  "Tests deliver one line at a time with input always ready.", [S + "ush_read.c", S + "ush.c", S + "ush_write.c"], [("reading only when output is finished", S + "ush.c, ush_read.c")])

p("C18", "Ctrl+C and reset abandon everything cleanly",
  "Ctrl+C at any point of typing discards the line, prints ^C and a fresh prompt, and leaves directory and files as they are; a reset by API at any moment - also in the middle of output, completion, listing, or from a callback - restarts with banner, prompt and root directory. "
  "In both cases nothing of the abandoned line is executed, printed or carried over to later lines.",
  ["crash_points", "histories"], "reset before every service call of 60 inputs, pairs of resets, Ctrl+C after every prefix, each followed by a battery of all commands; exact-state exploration over 3 alphabets with Ctrl+C",
  "Tests reset an idle shell.", [S + "ush_reset.c", S + "ush_read_char.c", S + "ush.c"], [("reset of all sub states", S + "ush_reset.c")])

p("C19", "Shell instances are independent",
  "Several shells in one program never influence each other: however their service calls, initialisations, resets and shut-downs interleave, including one being serviced from within the callbacks of another or preempting it in the middle of a call, each produces exactly the output and callbacks it would produce alone.",
  ["schedules"], "two shells, 13 x 12 scripts: all 2-switch schedules, alternations, nesting at i/o callbacks, preemption at basic blocks, loads and stores; init/deinit/reset of one at every call of the other",
  "Tests use one instance at a time.", ["src/inc/ush_types.h", S + "ush.c", S + "ush_utils.c", C + "ush_cmd_ls.c"], [("no shared mutable state", "src/src (all)")])

p("C20", "Shut-down and restart work at any moment and from any memory contents",
  "De-initialisation at any moment clears the object and unmounts every node; initialisation of an object with arbitrary previous contents, at any moment, yields a shell that behaves exactly like a new one, and all nodes can be mounted again.",
  ["crash_points", "histories"], "deinit+init and init alone before every service call of 57 inputs; up to 20 restarts in a row; flat, deep and bushy trees of 0..120 nodes; trees after unmounts; several memory fillings",
  "Tests initialise zeroed objects and de-initialise idle ones.", [S + "ush.c", S + "ush_node_mount.c", S + "ush_commands.c", S + "ush_reset.c"], [("init/deinit", S + "ush.c")])

p("C21", "Text printed by callbacks comes out once, complete and in place",
  "Text printed through the printing API from an exec callback (the general one or the file's own, which then count as one) or a set callback appears exactly once, unaltered, after the echo of the line and before the next prompt; the last of several prints replaces earlier ones, consecutive formatted prints are joined, and a formatted print too long for the output buffer is cut with a visible overflow mark, never beyond the buffer.",
  ["inputs", "programs"], "all sequences of up to 4-5 printing calls of 7 kinds in a command, a setter, or split between the general callback and the command; every formatted length 0..2*buffer+5 and pairs of lengths around the limit for several buffer sizes; all status codes",
  "Tests call each function once.", [S + "ush.c", S + "ush_write_utils.c", S + "ush_process.c"], [("deferred printing", S + "ush.c")])

p("C22", "Every build configuration gives a working shell",
  "With any combination of enabled commands and features, configured texts and widths the library compiles and behaves exactly as the enabled features promise: disabled commands do not exist, disabled completion ignores TAB, disabled styles print no escape codes, and everything else is unchanged.",
  ["configurations", "inputs"], "35 configurations (features, commands, widths, texts, assertions, character signedness, enum size, compilers) in quick and all 127 command subsets in thorough; all single inputs and ordered pairs of 69 inputs in 3 worlds each",
  "The test suite builds one configuration.", ["src/inc/ush_preconfig.h", "src/config/posix/ush_config.h", "src/config/arduino/ush_config.h", C + "ush_cmd.c", S + "ush_prompt.c"], [("conditional compilation", "src/inc/ush_preconfig.h")])

p("C23", "A line's effect depends only on directory, tree and files, not on earlier lines",
  "What a line prints and does is determined by that line, the current directory, the mounted tree and the file contents alone; earlier successful or failed commands, long lines, completions, escapes and interruptions leave no trace.",
  ["histories"], "8 alphabets of 5-6 inputs explored over exact memory states to a fixpoint (or state cap), each transition compared with a memoryless model; all ordered pairs and triples of 47 lines",
  "Tests start each case from a fresh or memset object.", [S + "ush_read_utils.c", S + "ush_process.c", S + "ush_write_utils.c", C + "ush_cmd_cat.c", C + "ush_cmd_echo.c"], [("state re-initialisation between lines", S + "ush_read_utils.c, ush_write_utils.c")])

p("C24", "The shell uses only the memory it is given and changes none of the user's",
  "The library never allocates memory, keeps no state of its own outside the shell object, the nodes and the buffers handed to it, and never changes anything that belongs to the user: descriptor, file tables, names, texts and file contents.",
  ["inputs", "configurations"], "every service call of 61 inputs, all key sequences to a depth, in every size/length configuration around the output buffer and path limits; all API calls; judged after each single call by allocation hooks, comparison of the library's own variables and of all user data",
  "Tests never look at allocation, static variables or the bytes of their own tables after a call.",
  [S + "ush.c", S + "ush_node.c", S + "ush_node_mount.c", S + "ush_commands.c", S + "ush_process.c", C + "ush_cmd_cat.c", C + "ush_cmd_xxd.c"],
  [("all state in the object", "src/inc/ush_types.h")])

p("C25", "Stack use is bounded by path and line length alone",
  "The stack needed by one service call does not grow with the number or depth of directories, the number of files and commands, the length of names, texts and file contents, or with what happened before; it grows at most linearly with the configured path length and with the length of the line (its words and their number). The same holds for mount, unmount, reset and shut-down calls, except that shut-down may need a fixed amount per directory level.",
  ["inputs", "histories"], "the painted-stack depth of each run over a product of table sizes, name/text/content lengths, tree depths, path limits, argument counts, word lengths and history lengths",
  "Tests never measure stack; unbounded recursion or a copy of user data only shows with large tables.",
  [S + "ush_process.c", S + "ush_parse.c", S + "ush_node_utils.c", S + "ush_utils.c", C + "ush_cmd_ls.c"],
  [("argument vector and path buffers on the stack", S + "ush_process.c, ush_file.c")], ["stack of the caller of ush_service"])

p("C26", "The tree and command list may change at any moment",
  "Directories and command groups can be added and removed, and the current directory set, between any two service calls and from any file callback. "
  "A line in progress shows the state before or after the change and is otherwise complete; every later line sees exactly the state after it; after TAB during a change the line executed is still the line shown.",
  ["schedules", "histories"], "21 changes (and ordered pairs) at every service call of 58 lines and 19 completions from 4 directories, and from exec, set and get callbacks; each followed by a read-back of tree, commands and files",
  "Tests change the tree only while the shell is idle.",
  [S + "ush_node_mount.c", S + "ush_commands.c", S + "ush_node.c", S + "ush_process.c", C + "ush_cmd_cat.c", C + "ush_cmd_ls.c", S + "ush_autocomp_state.c"],
  [("linked lists of nodes and command groups", S + "ush_node_mount.c, ush_commands.c")])

p("C27", "Documented helper functions are right for every string",
  "The documented helper functions (path level count, path of a level, collapse, one level up, last part, join, last argument, prefix test, printable test, ascii-hex decoding, status texts, absolute path, lookup of directory, parent directory and file) return what their documentation promises for every string, "
  "change none of their read-only inputs, do not change the shell, and write no further than the documented space (a path of a level is never longer than the input, decoding never exceeds the given limit).",
  ["inputs"], "every string up to length 8-10 over path characters, up to length 6-7 over escape characters, every pair of short strings, near pairs up to 80 characters, long paths up to 600 levels; lookups of every word sequence up to length 5-6 over 12 path parts from 4 directories under two path limits; buffers of exactly the needed size",
  "Unit tests check a handful of strings per function, mostly with large buffers.",
  [S + "ush_utils.c", S + "ush_node.c", S + "ush_node_utils.c", S + "ush_file.c", "src/inc/ush_utils.h", "src/inc/ush_node.h", "src/inc/ush_file.h"],
  [("path and text helpers", S + "ush_utils.c"), ("lookup", S + "ush_node_utils.c, ush_file.c")], ["return value and output buffer of each function"])

p("C28", "The prompt shows the current host name and directory",
  "Every answer, and every completion list, ends with exactly one prompt '[host dir]$ ' that shows the host name as it is when the prompt is written - also when the user has rewritten the host name from a callback or between service calls - and the last part of the current directory ('/' for the root), whatever their length and bytes.",
  ["inputs", "histories", "schedules"], "host names and directory names of every length to 300 / 80 and every byte value; host name changes from each kind of callback, between lines, in the middle of a line and at every service call of 55 inputs; all spellings of cd; all refusal patterns",
  "Tests use one fixed host name and short directory names.",
  [S + "ush_prompt.c", S + "ush_reset.c", S + "ush_autocomp_state.c", S + "ush_utils.c"], [("prompt state machine", S + "ush_prompt.c")])
