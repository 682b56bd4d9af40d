# oracle / bounds per property (used by tools/design.py)
N = {
"C01": ("the marks of the script of calls the case makes, and the path's facts on tested tokens", "scripts of up to 3 operations (thorough 4) out of a table of output, fail, diff and assertion calls, an ending by exception; with and without a snapshot of unknown lines"),
"C02": ("the tokens written through tested calls against the snapshot's tokens, by the path's equality facts", "scripts of up to 2 calls (thorough 3) and every other tested call, snapshots of up to 3 unknown lines of up to 2 tokens"),
"C03": ("the path's own fact about the (unknown) condition or measured time", "every assertion helper, through the case and through `TestIt`, with output and marks before and after"),
"C04": ("the list of selected cases against the start events", "up to 3 cases (thorough 4) ending by pass, diff, fail, any modelled exception class incl. SystemExit, CancelledError; storing the result raising any of five errors; unknown fail-fast"),
"C05": ("the check's own table of verdict × answer", "up to 2–3 cases per entry point, all answers, interrupts while waiting and while asking, damaged worker reports"),
"C06": ("records expected from the start events, answers and earlier report", "2–3 cases, every earlier report of them, serial, asynchronous, parallel, review"),
"C07": ("the earlier report's records", "2–3 cases × earlier report × selection"),
"C08": ("the written triple", "names, verdicts and durations as unknown terms; a table of damaged line shapes at every position"),
"C09": ("effects classified by their path term: below the output directory, the index, or the accepted case's files", "a table of decorator stacks × endings × modes × stored, old-format and damaged snapshots"),
"C10": ("truth table mode × verdict × answer, taken from the property", "one case with every answer sequence of up to the loop bound, two cases with fewer answers"),
"C11": ("abstract file system before and after", "0–2 files of the case × old snapshots × missing text × ways of accepting"),
"C12": ("effects partitioned by process", "1–2 workers (thorough 3), stale batches of earlier runs, unknown interactive/accept settings"),
"C13": ("identity of `sys.stderr` and of the root handlers; open/close typestate", "1–2 cases × endings incl. interrupts × handler lists (known, none, unknown) × cases that meddle with them"),
"C14": ("value of every named variable on entry and on every exit", "three decorators × two variables (present or absent: unknown) × effects of the case × endings × faults of the output"),
"C15": ("identity of every replaced attribute before and after", "a table of decorator stacks × endings × modes × the k-th outside operation failing (all k)"),
"C16": ("order of the events", "0–2 cases × endings × serial, asynchronous, parallel; stacked decorators"),
"C17": ("file contents tagged with the run that wrote them", "kinds of left-over files × endings × modes × two runs"),
"C18": ("a reference model of snapshot stores (`Oracle` in checks/snap.py)", "histories of up to 3 runs of 1–3 calls of every kind with unknown inputs, each stored or not, old and new file forms; body read, streamed, closed unread, or failing while it is read"),
"C19": ("the same reference model", "the same, with -s, -S and both"),
"C20": ("the same reference model", "capture, accept, replay histories"),
"C21": ("taint: secret terms must not be part of any written term", "requests and httpx, header names in different case, old files captured with details"),
"C22": ("pairs of calls which differ in exactly one input term", "every input of requests, httpx (sync, async) and function calls; repetitions 2–4; custom encoders and hashes"),
"C23": ("the terms of the response on capture and on replay", "a table of response kinds (text, json, binary, any bytes, headers, encodings), old and new file forms; body read, streamed, closed unread, or failing while it is read"),
"C24": ("the value each variable must have, per mode", "two variables, unknown presence, stored or not; unknown capture mode"),
"C25": ("topological condition on start events", "dependency graphs of up to 4 cases, listings in all (4 cases: four) orders, stored results, options, serial and parallel"),
"C26": ("overlap of the intervals from submission to observed completion", "2–3 cases (thorough 4) with shared, bridging and equal resources; all poll interleavings"),
"C27": ("counts per case of submissions and reports", "1–3 cases × every state a worker may leave its report in × poll interleavings × dependency graphs × failing setup"),
"C28": ("argument list of the body", "every order of up to 4 declarations; books with two instances; decorators above and below"),
"C29": ("the returned term against the stored one; a reference LRU", "endings × kinds of value × caches × earlier stored values; cache histories"),
"C30": ("call, arguments, result and exception of the body", "every decorator, every ordered pair, the whole list in both orders; sync and async"),
"C31": ("a path-component matcher in the check", "every pair of entries of a pool over a tree of names with common prefixes, triples in every order; also through configuration"),
"C32": ("last source wins", "every subset of sources per setting, several settings, two invocations in one process"),
"C33": ("a table option → effect taken from the help text", "every option alone and in pairs (settings), every option serial and parallel (effects)"),
"C34": ("no start event, no changing file event", "commands × selections × options × states of the books directory"),
"C35": ("set difference of files and known cases' files", "directory contents with names that are prefixes of one another × cases × selections"),
"C36": ("symbolic positions and character facts; each step from an arbitrary position", "text length unbounded; loops in a step by their consumption per iteration, unrolled 4 (thorough 8) times"),
"C37": ("concatenation of the written terms", "scripts of up to 3 calls (thorough 4) with unknown texts"),
"C38": ("equality of the results under permutations of the listing", "trees with up to a few entries per directory; every kind of run for the index"),
"C39": ("a reference cursor over unknown lines", "scripts of up to 3 (headers: 4) calls, snapshots of 0–3 (thorough 4) unknown lines"),
"C40": ("equality facts between items and lines", "sets of up to 3 items against snapshots of up to 4 lines, text before and after"),
"C41": ("answers and earlier values", "all answers empty, all given, one given, one empty × earlier settings of every source"),
"C42": ("the verdict table of C05/C10 against the printed lines, parsed into words and unknown parts", "1–2 cases (review: 3) × verdicts × modes × answers"),
"C43": ("a table answer → tool and files, taken from the help of the dialogue and of the options", "dialogues of up to 3 answers; texts that exist or not"),
}
