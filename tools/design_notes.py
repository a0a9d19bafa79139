R = "Lockstep reference model: every byte accepted by the output and every user callback must be the next one the model predicts for the bytes read so far. "
NOTES = {
"C01": "Address and undefined-behaviour sanitizers on exact-size heap buffers for object, input, output, nodes and file contents (bytes behind the end poisoned); user constants in pages that are read-only while the shell runs; uninitialised locals pattern-filled; a call that does not return within 40 s, or an input not finished within a call budget, is a violation. Output contents are not judged here. Deciding step: enumeration; the sanitizer is the monitor.",
"C02": R,
"C03": R + "The tokenizer of the model is a 20-line rewrite of the documented rules. A line of exactly input_size-1 characters plus Enter loses its first character in the original; the test suite pins the wrap-around, the model emulates it.",
"C04": R,
"C05": R + "Paths are resolved by the model on component lists. Mount paths that are not canonical are outside the property.",
"C06": R + "Statuses of the API calls are compared, and the tree is read back with pwd, ls and cat after every operation. Unmounting the root leaves the current directory undefined (the shell needs a root to run): the precondition is that a root is mounted before the next service call.",
"C07": R + "All nodes, file contents and user data are compared before and after.",
"C08": R, "C09": R, "C10": R, "C11": R, "C12": R, "C13": R,
"C14": R + "Runs with refusals have to follow the same model, which knows nothing about refusals; a refused byte must be the next one offered.",
"C15": "Counts of io and user callbacks per service call, truth of the return value against the model's pending output, bound on silent calls proportional to table sizes and line length. One false answer at the end of a line (the call that prepares reading) is allowed: nothing is lost by it.",
"C16": R + "Candidates beginning with '.' and completion of path prefixes are not promised and not judged. When the longest common completion does not fit the line, the model demands no overflow and that the line shown is the line run.",
"C17": R + "Reading a byte while output is missing is a violation wherever it happens, in every check.",
"C18": R + "A reset drops what the model still expected and predicts banner, prompt and root directory.",
"C19": "Each of the two shells is followed by its own reference model; a schedule is a violation if any byte or callback differs. Preemption inside calls uses compiler coverage callbacks at every basic block, load and store of the library as scheduling points (-fsanitize-coverage), so the real code is interrupted between any two memory accesses.",
"C20": R + "Memory of object, nodes and buffers is filled with every byte value before the first init.",
"C21": R + "Formatted print after a plain print of the output buffer itself, or after a flush, is unspecified and not enumerated; flush prints what the output buffer holds including the echo of the line.",
"C22": R + "The model is compiled with the same feature switches. A configuration that does not compile is a violation. Not covered: all seven commands disabled while FEATURE_COMMANDS is on (asserts by design), 32-bit builds (no -m32 here).",
"C23": "The model has no memory of earlier lines beyond directory, tree and contents, so following it is the property. Where the state cap is not reached this holds for histories of any length.",
"C24": "malloc family interposed (a call from inside the library is a violation), writable segments of the library compared, arena of user data read-only and compared after each service call.",
"C25": "Stack is painted below the caller and inspected after the run. The limits (32 bytes per byte of path limit, 64 bytes per argument and character) are several times what the code needs, so that only growth of another order shows. Shut-down recurses once per directory level in the original; this is allowed by the statement.",
"C26": "The model is run for the state before and for the state after the change; the real line has to equal one of them (cat: file by file). Several changes within one line: only safety and the state afterwards are judged. Unmounting the very node that ls or help is walking through: output may stop, nothing else. TAB during a change: the line shown is the line run.",
"C27": "Each function has an executable specification written from the header documentation. collapse and level count are judged for canonical input; for other strings (double slashes, no leading slash) only memory safety and termination are, and the path level must not become longer than the input.",
"C28": R + "If the user rewrites the host name while the prompt is being written, any mixture is allowed; before and after, it must be exact.",
}
