#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

# ---------------------------------------------------------------- verdicts and reporting
p("C01", "A case's verdict reflects every failure and difference it produced",
  "Whatever a test case does, its verdict is FAIL if it raised an exception or marked any line as failed; otherwise DIFF if any line was marked as differing or no accepted snapshot exists; and OK only if none of these happened. This holds for every order and number of marks, whatever is printed after them, and whether or not the marked line was ended with a newline.",
  ["inputs", "histories"], "all sequences of output, fail and diff marks and exceptions of a test case, with and without an accepted snapshot",
  "The suite only ever runs cases that end OK, so no stable test reaches a FAIL or a DIFF verdict, an exception in a case, or a mark on an unterminated line.",
  ["booktest/testcaserun.py", "booktest/testrun.py"],
  [("verdict computed from error and diff counters", "TestCaseRun.end"), ("marks are counted when a line is committed", "TestCaseRun.commit_line"), ("exceptions become a failed line", "TestRun.run_case")],
  [("errors/diffs", "lines marked failed / differing so far", "TestCaseRun"), ("line_error/line_diff", "marks on the line being written", "TestCaseRun")],
  ["return value of TestRun.run_case / TestCaseRun.end", "cases.txt"])
p("C02", "Tested output is compared to the snapshot, informational output never judged",
  "Text written through the tested output calls (t, tln, headers, anchors' text, key-value lines, lists) is compared token by token with the accepted snapshot at the cursor, and any mismatch marks the line as differing. Text written through the informational calls (i, iln, ifloatln) never marks a line as differing or failed, whatever the snapshot contains.",
  ["inputs"], "all texts and all snapshot contents", "Stable tests only compare matching output: a comparison that is skipped or inverted for some call still passes them.",
  ["booktest/testcaserun.py"], [("token comparison", "TestCaseRun.feed_token"), ("tested vs informational feeds", "TestCaseRun.test_feed / feed")],
  observe=["verdict of a case whose text differs from the snapshot"])
p("C03", "A false assertion always fails the case, a true one never does",
  "assertln(c), must_apply, must_contain, must_equal and must_be_a mark the current line as failed exactly when their condition is false for the given object, and the timed call with a maximum does so exactly when the measured time exceeds the maximum. The failed line always counts towards a FAIL verdict.",
  ["inputs"], "all conditions, objects and measured times", "Stable tests contain only assertions that hold.",
  ["booktest/testcaserun.py"], [("assertion helpers", "TestCaseRun.assertln / must_* / tmsln, TestIt")], observe=["verdict of the case"])
p("C04", "One case's failure never stops the others",
  "An exception raised by a test case, by anything it calls, or while its return value is being stored never escapes the run: the case is recorded as not OK and every remaining selected case is still run. A run stops early only when the user asks to quit or, with fail-fast, after a case whose final verdict is not OK.",
  ["inputs", "fault_sequences", "configurations"], "all exceptions at any case, all return values, with and without fail-fast",
  "No stable test raises, returns an unpicklable value or aborts.",
  ["booktest/testrun.py"], [("exception barrier around the case", "TestRun.run_case"), ("case loop and early exit", "TestRun.run_async")], observe=["cases.txt", "exit status"])
p("C05", "The exit status is zero only if every case ended OK",
  "A serial, asynchronous or parallel run and a review return exit status 0 when every case they processed ended OK after review, and a non-zero status when any of them ended as DIFF or FAIL or the run was interrupted. The same holds for the result value of a run object: it is OK only if every case was.",
  ["inputs", "configurations", "fault_sequences"], "all combinations of case verdicts, run modes, aborts and interruptions",
  "Stable tests run serially with every case OK, so a status that ignores failures passes them.",
  ["booktest/runs.py", "booktest/testrun.py", "booktest/review.py", "booktest/reports.py"],
  [("verdict to exit code", "reports.test_result_to_exit_code"), ("serial accumulation", "TestRun.run_async"), ("parallel accumulation", "runs.parallel_run_tests"), ("review accumulation", "review.review")], observe=["process exit status"])
p("C06", "Every finished case is recorded once with its final verdict",
  "Each case that is run is written to the case report exactly once, with its own name and its verdict after review, and flushed before the next case starts. Records of cases that are not selected or are skipped are carried over unchanged, in serial runs, parallel runs and reviews. (Cases still running when a parallel run is aborted may be left out.)",
  ["histories", "configurations", "crash_points"], "all sequences of cases, verdicts and earlier reports; a kill between any two cases",
  "Stable tests neither read an earlier report nor check the verdicts recorded for failing cases.",
  ["booktest/testrun.py", "booktest/runs.py", "booktest/review.py", "booktest/reports.py"],
  [("record writer", "CaseReports.write_case"), ("serial recording", "TestRun.run_async"), ("parallel recording", "runs.parallel_run_tests"), ("review rewrite", "review.review")], observe=["<books>/.out/cases.txt"])
p("C07", "Continue skips exactly the cases recorded as OK",
  "With the continue option a run or review skips exactly the selected cases whose recorded verdict is OK and processes all the others, including those recorded as DIFF or FAIL and those without a record; without the option every selected case is processed.",
  ["histories", "configurations"], "all earlier reports and selections", "No stable test uses continue.",
  ["booktest/reports.py", "booktest/testrun.py", "booktest/runs.py", "booktest/review.py"], [("partition into done and todo", "CaseReports.cases_to_done_and_todo"), ("users", "TestRun.run_async, parallel_run_tests, review")], observe=["which cases run"])
p("C08", "Recorded verdicts are read back as written, damaged records never pass",
  "For every verdict, the record a run writes is read back as the same case name, verdict and duration. A record line that is incomplete or carries an unknown verdict is ignored: it neither aborts reading nor counts as a passed case.",
  ["inputs", "crash_points"], "all verdicts, names and durations, and all damaged lines", "Nothing in the suite reads back a report with DIFF, FAIL or damaged lines.",
  ["booktest/reports.py"], [("writer", "CaseReports.write_case / to_file"), ("reader", "CaseReports.of_file"), ("metrics writer and reader", "Metrics")], observe=["cases.txt", "metrics.json"])

# ---------------------------------------------------------------- acceptance
p("C09", "Accepted snapshots change only by acceptance",
  "Running cases (with any snapshot or mock decorator), in serial or in parallel, creates, overwrites, renames or deletes files of the accepted snapshots only as part of accepting a case; apart from that a run writes only below its output directory and the book index. In particular captured HTTP, function and environment snapshots are written to the output directory, never directly to the accepted snapshots.",
  ["inputs", "configurations", "programs"], "all test programs, configurations and verdicts", "Stable tests compare results but not who wrote which file; writing a capture straight into the accepted snapshot is invisible to them.",
  ["booktest/testcaserun.py", "booktest/testrun.py", "booktest/runs.py", "booktest/review.py", "booktest/env.py", "booktest/functions.py", "booktest/requests.py", "booktest/httpx.py"],
  [("output and expectation paths", "TestCaseRun.__init__"), ("only writer of accepted snapshots", "review.freeze_case"), ("index", "review.create_index")], observe=["files below the books directory outside .out"])
p("C10", "A case is accepted exactly when the user or the mode asks for it, never on FAIL",
  "A result is accepted exactly when the user answers accept to a result that is not FAIL, when update mode is on and the verdict is OK, or when accept mode is on and the verdict is DIFF; a FAIL is never accepted. An accepted result is reported as OK (unless its return value cannot be stored), and a result that is not accepted keeps its verdict; the user is asked only in always-interactive mode or, in interactive mode, when the verdict is not OK.",
  ["inputs", "configurations"], "all verdicts, configurations and sequences of user answers", "Stable tests run non-interactively without accept or update and only see OK.",
  ["booktest/review.py"], [("acceptance decision", "review.case_review"), ("prompt", "review.interact")], observe=["accepted snapshot files", "reported verdict", "prompts"])
p("C11", "Accepting replaces the whole snapshot and loses nothing when it cannot",
  "After a case is accepted, its accepted text and attached files are exactly those of the accepted run: the text and the file directory of the run are moved into place, and files of the previous snapshot do not survive. If the run's text is not there to be accepted, the previously accepted snapshot is left untouched.",
  ["crash_points", "histories"], "all states of the output and snapshot directories, repeated acceptance of the same result", "No stable test accepts a result, let alone one whose output was already moved.",
  ["booktest/review.py"], [("replace snapshot", "review.freeze_case")], observe=["accepted snapshot files"])
p("C12", "Parallel workers never prompt or accept; only the main process does",
  "In a parallel run the worker processes neither ask the user nor accept results nor skip cases, whatever the configuration; every verdict is reviewed, and accepted if need be, exactly once in the main process before it is recorded.",
  ["configurations", "schedules"], "all configurations and schedules", "Parallel mode is not run by the stable tests at all.",
  ["booktest/runs.py"], [("job configuration", "ParallelRunner.__init__"), ("review in the main process", "runs.parallel_run_tests")], observe=["accepted snapshots and prompts in parallel runs"])

# ---------------------------------------------------------------- isolation
p("C13", "Standard error and logging are given back after every case",
  "While a case runs, standard error and the root logger write to that case's log file; after it has ended, whatever its verdict and whether or not it raised, standard error and the root logger's handlers are the ones from before the case, and the case's files are closed.",
  ["inputs", "fault_sequences"], "all cases and exceptions", "The one stable test on logging looks inside its own case; nothing looks at the streams afterwards.",
  ["booktest/testcaserun.py", "booktest/testrun.py"], [("swap", "TestCaseRun.open"), ("restore", "TestCaseRun.close")], observe=["sys.stderr and logging handlers after a run"])
p("C14", "Environment variables are given back exactly",
  "After a case decorated with snapshot_env, mock_env or mock_missing_env has ended, normally or by exception, and also if the setup itself fails part-way, every variable named by the decorator has exactly the value (or absence) it had before, even if the case changed or deleted it. Undoing one variable never prevents undoing another.",
  ["inputs", "fault_sequences"], "all environments, variable sets and test bodies, and exceptions at any point", "Stable tests never look at the environment after a case and never let a case fail or alter a mocked variable.",
  ["booktest/env.py"], [("save/apply", "SnapshotEnv.start, MockEnv.start, MockMissingEnv.start"), ("restore", "*.stop")], observe=["os.environ after the case"])
p("C15", "Mocked functions and HTTP clients are given back on every exit",
  "After a case decorated with snapshot_functions, mock_functions, snapshot_requests or snapshot_httpx has ended, normally, by exception, or by an error while storing or reporting the captured data, every function and HTTP entry point that was replaced is the original again. Outside the decorated case nothing is replaced.",
  ["inputs", "fault_sequences"], "all test bodies and exceptions at any point", "Stable tests never run code after a failing decorated case in the same process.",
  ["booktest/functions.py", "booktest/requests.py", "booktest/httpx.py"], [("patch/unpatch", "SnapshotFunctions, MockFunctions, SnapshotRequests, SnapshotHttpx start/stop")], observe=["identity of patched attributes after the case"])
p("C16", "Setup and teardown bracket every run and case",
  "The process setup runs before the cases of a serial run, and in a parallel run before each case in its worker process, and its teardown runs exactly once afterwards, also when a case or the run raises. The setup_teardown decorator does the same around a single case, and the case runs between the two.",
  ["inputs", "fault_sequences"], "all setups, cases and exceptions", "The stable test checks only that setup happened, serially; nothing observes teardown.",
  ["booktest/utils.py", "booktest/runs.py", "booktest/detection.py"], [("generator driver", "utils.SetupTeardown"), ("uses", "run_tests, run_tests_async, RunBatch.__call__, utils.setup_teardown")], observe=["order of setup, case, teardown"])
p("C17", "A case starts without leftovers of its earlier runs",
  "When a case starts, the file directory and temporary directory left by its previous run have been removed and its text, report and log files are written anew, so nothing of an earlier run can be read by the case or accepted with its result. Files and temporary files that a case requests by a plain name always lie in its own output directories.",
  ["histories", "inputs"], "all earlier runs of the same case", "Stable tests start from an empty output directory.",
  ["booktest/testcaserun.py"], [("purge", "TestCaseRun.__init__"), ("output files", "TestCaseRun.open, file, tmp_path")], observe=["<books>/.out/<case> when the case starts"])

# ---------------------------------------------------------------- snapshots of the outside world
p("C18", "Replay never touches the outside world",
  "When neither completing nor refreshing snapshots, a snapshotted function, requests call, httpx call (sync or async) or environment variable is answered only from the stored snapshots: the real function or network is never called, and a call or variable without a stored snapshot raises an error instead. A stored snapshot is used only for the call it was recorded for (a function is identified by its qualified name).",
  ["inputs", "configurations"], "all calls, stored snapshots and configurations", "Stable tests replay calls that are all stored; the missing-snapshot and capture paths are never taken.",
  ["booktest/functions.py", "booktest/requests.py", "booktest/httpx.py", "booktest/env.py"], [("lookup before real call", "SnapshotFunctions.snapshot, SnapshotAdapter.lookup_snapshot/send, SnapshotHttpx.lookup_snapshot/handle_request/handle_async_request, SnapshotEnv.start")], observe=["real calls made", "errors raised"])
p("C19", "Complete keeps stored snapshots, refresh discards them",
  "When completing snapshots, calls and variables with a stored snapshot are answered from it and only missing ones are taken from the real world; when refreshing, stored snapshots are ignored and every call and variable is taken from the real world. A call that is taken from the real world reaches the real function or client once, with the arguments and options of the caller.",
  ["configurations", "inputs"], "all combinations of stored snapshots and options", "Neither option is used by the stable tests.",
  ["booktest/functions.py", "booktest/requests.py", "booktest/httpx.py", "booktest/env.py"], [("loading", "constructors and start methods of the four snapshotters")], observe=["which calls reach the real function or network"])
p("C20", "Everything a case used is saved, where and how replay reads it",
  "At the end of a snapshotted case every snapshot it used and every call it captured is written to the case's output files, each with the response the case saw, at the place and in the fields from which the next run reads it once accepted. Accepting a run therefore never loses a snapshot the case still needs.",
  ["inputs", "histories"], "all sequences of used and captured calls", "Stable tests do not look at the saved files and do not run a second round from them.",
  ["booktest/functions.py", "booktest/requests.py", "booktest/httpx.py", "booktest/env.py"], [("record on hit and on capture", "snapshot/lookup_snapshot/send/handle_request"), ("save", "stop methods"), ("load", "constructors/start, from_json_object")], observe=["saved .json files"])
p("C21", "Ignored headers and hidden details never reach the saved files or the hash",
  "Request headers that are ignored (all of them by default, or those listed, compared without regard to case) influence neither the hash that identifies a request nor the saved snapshot. When request details are hidden (the default), no request headers and no request body are saved.",
  ["inputs", "configurations"], "all headers, bodies and ignore lists", "Stable snapshots were recorded long ago; the recording path that decides what is saved is never run.",
  ["booktest/requests.py", "booktest/httpx.py"], [("header removal", "RequestKey.__init__"), ("detail removal", "RequestKey.to_json_object")], observe=["saved .requests.json/.httpx.json"])
p("C22", "A snapshot is identified by all of a call's inputs",
  "The identity of a request covers its url, method, body and every header that is not ignored, and that of a function call covers its name and all positional and keyword arguments, so that calls differing in one of them get different identities. A custom body encoder or hash function is applied to every request, also when the same request is repeated, and the n-th repetition gets an identity of its own.",
  ["inputs", "configurations"], "all requests, calls, repetitions and custom functions", "Stable tests use a handful of recorded requests; a dropped component still matches them only if hashes are unchanged, but capture, ordering and custom hashing paths are not exercised.",
  ["booktest/requests.py", "booktest/httpx.py", "booktest/functions.py"], [("request identity", "RequestKey"), ("repetition", "mark_order/increase_order"), ("call identity", "FunctionCall")], observe=["hash in saved snapshots"])
p("C23", "A captured response is replayed unchanged",
  "The status, headers (looked up without regard to case), body bytes and, for requests, encoding, url and request of a captured response are the same when it is replayed from its saved form, for every response that could be saved and whether the case reads the body, streams it or closes it unread (for httpx the body is the decoded one and the header naming its content encoding is dropped); a function's captured result is returned as saved.",
  ["inputs"], "all responses that can be saved", "Stable tests replay a few text responses and never compare them with a live response.",
  ["booktest/requests.py", "booktest/httpx.py", "booktest/functions.py"], [("save", "RequestSnapshot.json_object, FunctionCallSnapshot.json_object"), ("restore", "*.from_json_object")], observe=["response given to the test on replay"])
p("C24", "Environment mocks take effect exactly as specified",
  "Inside a mock_env case every listed variable has the given value, or is absent for None. mock_missing_env sets a variable only if it was absent, never overrides an existing value, and does nothing while snapshots are being captured; snapshot_env sets the stored value, or keeps the live one when capturing.",
  ["inputs", "configurations"], "all environments, mock tables and options", "Stable tests cover one environment each and never capture.",
  ["booktest/env.py"], [("apply", "SnapshotEnv.start, MockEnv.start, MockMissingEnv.start")], observe=["os.environ during the case"])

# ---------------------------------------------------------------- dependencies and scheduling
p("C25", "A case never runs before the cases it depends on",
  "If a selected case depends, directly or through other cases that are to be run, on cases that are to be run, it is started only after all of them have finished, in a serial and in a parallel run. A dependency without a stored result, or one being refreshed, is run as well even if it was not selected, and no case is run twice.",
  ["schedules", "programs", "configurations"], "all dependency graphs, selections, stored results and schedules", "The stable tests have a few fixed dependencies in serial order only.",
  ["booktest/tests.py", "booktest/runs.py"], [("serial order", "Tests.selected_names, all_method_dependencies"), ("parallel planning", "ParallelRunner.plan, thread_function")], observe=["start order of cases"])
p("C26", "Cases sharing an exclusive resource never overlap",
  "Two cases that declare an equal resource are never in execution at the same time in a parallel run: a case is started only if none of its resources is held, it holds them from before it is started until its completion has been observed, and they are released then. Two resources are equal exactly when their identifiers are.",
  ["schedules", "programs"], "all resource declarations and completion orders", "The stable tests run serially; overlap is impossible there.",
  ["booktest/runs.py", "booktest/dependencies.py", "booktest/tests.py"], [("reserve/release", "ParallelRunner.plan, thread_function"), ("resource identity", "dependencies.Resource")], observe=["concurrently running cases"])
p("C27", "A parallel run reports every case exactly once and terminates",
  "In a parallel run that is not aborted every case is submitted exactly once, and every finished case yields exactly one report, which is FAIL if the worker left no readable report, whatever the worker did short of being killed. The scheduler thread never dies from a missing, empty or damaged worker report, so the run always ends.",
  ["schedules", "fault_sequences"], "all completion orders and worker failures", "Parallel mode is not covered, let alone failing workers.",
  ["booktest/runs.py"], [("scheduler", "ParallelRunner.thread_function"), ("worker", "RunBatch.__call__"), ("handover", "has_next/next_report")], observe=["reports of a parallel run"])
p("C28", "Each declared dependency is passed in order with its own result",
  "A case that declares dependencies and resources is called with exactly one extra argument for each, in the order declared: the stored result of the dependency, or the value of the resource. For a method of a test book the result of the same book instance is preferred; if a dependency's result is missing, the case fails instead of running with something else.",
  ["programs", "inputs"], "all dependency declarations and stored results", "Stable tests use one dependency or one resource at a time and never a missing result.",
  ["booktest/dependencies.py", "booktest/testrun.py"], [("injection", "call_class_method_test, call_function_test, depends_on"), ("lookup", "TestRun.get_test_result")], observe=["arguments of the test"])
p("C29", "A case's result is stored iff it did not fail, and read back whatever the cache",
  "The return value of a case is stored for its dependents exactly when its verdict is OK or DIFF; returning nothing removes an older stored value, and a failed case stores nothing. What a dependent receives is the stored value (unspecified if the dependency returned nothing), whatever in-memory cache is used, be it a dictionary, an LRU cache of any size or no cache, and an LRU cache never holds more entries than its size.",
  ["histories", "configurations"], "all verdicts, return values, cache kinds and access sequences", "Stable tests use the default cache with a handful of small results and no failures.",
  ["booktest/testrun.py", "booktest/cache.py"], [("store", "TestRun.save_test_result, run_case"), ("load", "TestRun.get_test_result"), ("caches", "cache.LruCache, cache.NoCache")], observe=["value passed to dependents", "*.bin"])
p("C30", "Decorators keep the case intact and can be combined in any order",
  "Every booktest decorator calls the decorated case, sync or async, exactly once with the arguments it was given (a single depends_on adds the declared values), completes it inside its own scope, and returns its result and passes on its exceptions. Dependencies, resources and identity declared below a decorator stay visible through it, so decorators can be stacked in any order.",
  ["programs", "inputs"], "all stackings, sync and async cases, results and exceptions", "Stable tests stack a few decorators around cases without results.",
  ["booktest/functions.py", "booktest/requests.py", "booktest/httpx.py", "booktest/env.py", "booktest/utils.py", "booktest/dependencies.py", "booktest/coroutines.py"], [("wrappers", "all decorator factories"), ("sync/async call", "coroutines.maybe_async_call"), ("identity", "dependencies.get_decorated_attr, testrun.match_method")], observe=["calls of the test function"])

# ---------------------------------------------------------------- selection, command line, configuration
p("C31", "Selections match whole path components and skips win",
  "A case is selected exactly when no skip entry matches it and either some positive entry matches it or there are no positive entries; an entry matches a case if it is empty, or equals the case's path, or is a prefix of it ending at a path separator, and the positive entry '*' matches everything. The order of the entries does not matter.",
  ["inputs"], "all case names and selections", "The stable run uses the default selection; no test uses skips or partial names.",
  ["booktest/tests.py"], [("selection", "Tests.is_selected")], observe=["booktest -l"])
p("C32", "Configuration layers override in order and options do not leak",
  "A setting given on the command line overrides one from BOOKTEST_ environment variables, which overrides the project's .booktest file, which overrides the one in the home directory; comment and blank lines are ignored. Options given to one invocation affect only that invocation, not a later one in the same process.",
  ["configurations", "histories"], "all combinations of sources and sequences of invocations", "The stable tests run with no configuration file and one invocation per process.",
  ["booktest/config.py", "booktest/tests.py"], [("layers", "config.resolve_default_config"), ("options", "Tests.exec_parsed")], observe=["booktest --config", "behaviour of a second invocation"])
p("C33", "Every option switches on what it documents and nothing else",
  "Each command line option that changes how cases are run (-i, -I, -v, -L, -f, -c, -r, -u, -a, -p, -s, -S, --cov, -md-viewer, -diff-tool) sets the one setting that the code acting on it reads, and an option that is not given changes no setting. The selection and the settings reach the run unchanged, in serial and in parallel mode.",
  ["configurations"], "all combinations of options", "The stable run uses only -v.",
  ["booktest/tests.py", "booktest/review.py", "booktest/testcaserun.py", "booktest/testrun.py", "booktest/runs.py"], [("parser and mapping", "Tests.setup_parser, exec_parsed"), ("readers", "config.get in the runner, reviewer and snapshotters")], observe=["effect of each option"])
p("C34", "Listing and printing commands change nothing and run nothing",
  "Listing (-l), --garbage, --print, --path, --view and --config neither run a case nor create, change or delete any file; --forget rewrites only the case report, removing exactly the records of the selected cases (and of dependencies that a selected case needs and that have no stored result); a review runs no case.",
  ["configurations", "inputs"], "all selections and states of the books directory", "Only -l is ever run, and its effects are not looked at.",
  ["booktest/tests.py", "booktest/review.py"], [("command dispatch", "Tests.exec_parsed"), ("review", "review.review")], observe=["files below the books directory", "cases run"])
p("C35", "Cleaning removes only what belongs to no known case",
  "--clean deletes exactly the files that --garbage lists: those below the books directory that are neither the index nor the text of a known case nor inside the file directory of a known case. Which cases are selected makes no difference, so accepted snapshots of existing cases are never removed.",
  ["inputs", "configurations"], "all directory contents, case names and selections", "Neither command is run by the stable tests.",
  ["booktest/tests.py"], [("garbage detection", "Tests.exec_parsed garbage/is_garbage")], observe=["files removed"])

# ---------------------------------------------------------------- text
p("C36", "Tokenizing loses nothing and always ends",
  "For every text, the tokens produced by the tokenizer, put together, are exactly the text, and every step consumes at least one character, so reading any text ends. A line break is always a token of its own.",
  ["inputs"], "all texts, including control characters", "The stable tests tokenize a handful of ordinary lines.",
  ["booktest/tokenizer.py"], [("tokenizer", "TestTokenizer.__next__")], observe=["written output", "termination"])
p("C37", "Everything written appears in the result, line by line",
  "Every piece of text given to a tested or informational output call appears in the case's result text, in order and exactly once, also on marked lines and on a last line without newline; each line break ends one result line. The report of the case shows the same lines.",
  ["inputs"], "all output call sequences, with and without marks", "Stable tests only write unmarked, terminated lines.",
  ["booktest/testcaserun.py"], [("buffering and committing", "TestCaseRun.feed_token, commit_line, write_line, end")], observe=["<books>/.out/<case>.md"])
p("C38", "The order of cases and the index do not depend on the file system",
  "The cases found in a directory, their order, and the book index are determined by the content of the test tree, not by the order in which the file system lists it. Every test function, book class and suite of the tree's test files is found once. The index of a run lists every known case once, under the headings of its directory and with a link to its text, whichever cases were selected.",
  ["inputs", "configurations"], "all directory listing orders and selections", "A run on one machine sees one listing order.",
  ["booktest/detection.py", "booktest/review.py", "booktest/testrun.py", "booktest/runs.py"], [("detection", "detection.detect_tests, detect_setup"), ("index", "review.create_index")], observe=["booktest -l", "<books>/index.md"])

p("C39", "Anchors find the right section of the snapshot",
  "When an anchor, a header, the key of a key-value line or a seek is written at the beginning of a line, the snapshot cursor is placed on the next snapshot line (from the cursor on) that equals the line sought, or starts with the prefix sought; if there is none, on the first such line before the cursor; and it stays where it was if no line matches. The tested text that follows is compared from there. (A header written after the end of the snapshot is only required to be found, the empty line before it is not.)",
  ["inputs", "histories"], "all snapshots and all orders of anchors, seeks and tested lines", "A few fixed shuffles of sections are tested, all with matching content.",
  ["booktest/testcaserun.py"], [("seek and jump", "TestCaseRun.seek, jump, reset_exp_reader, next_exp_line"), ("anchors", "TestCaseRun.anchor, anchorln, header, keyvalueln")],
  observe=["verdict of the case"])
p("C40", "Set comparison does not depend on order",
  "tset of pairwise different items reports a difference exactly when the set of written items differs from the set of items at the cursor of the snapshot (its following lines that begin with the prefix), whatever the order of either, also at the end of the snapshot. The tested text after it is compared with what follows that set in the snapshot.",
  ["inputs"], "all item sets, orders, prefixes and surrounding lines", "Only one unchanged set is tested, in one order.", ["booktest/testcaserun.py"], [("set comparison", "TestCaseRun.tset")],
  observe=["verdict of the case"])

# ---------------------------------------------------------------- not decided statically
p("C41", "Setup stores exactly what was answered",
  "booktest --setup asks once for each of the settings diff_tool, fast_diff_tool, md_viewer, log_viewer, test_paths, default_tests and books_path, and stores for each the answer, or, if the answer is empty, the value the setting had so far, else its default; the next invocation reads exactly these values. No case is run and no file other than the project's .booktest is written. (Answers of '0', '1' or with surrounding blanks are not covered.)",
  ["inputs", "configurations"], "all answers and all earlier settings in the project, home and environment", "Setup is interactive and not tested.",
  ["booktest/setup.py", "booktest/config.py", "booktest/tests.py"], [("dialogue and file", "setup.setup_booktest, prompt_config"), ("reading", "config.parse_config_file")], observe=[".booktest", "booktest --config"])

p("C42", "The printed report tells the truth about every case",
  "A run, a parallel run and a review print exactly one line with the timing for each case they process, with the word DIFFERED exactly if the case ended as DIFF and FAILED exactly if it ended as FAIL. The summary at the end ('... failed in N ms' or '... succeeded in N ms') names exactly the processed cases whose final verdict, after acceptance, is not OK, each once, and says succeeded only if there is none.",
  ["inputs", "configurations"], "all verdicts, answers, modes (verbose, interactive, accept, update, continue, asynchronous cases) and earlier reports", "Stable tests only see cases that succeed.",
  ["booktest/reports.py", "booktest/review.py", "booktest/testrun.py", "booktest/runs.py"], [("per-case line", "review.report_case_result, TestRun.run_case"), ("summary", "review.end_report")], observe=["standard output"])

p("C43", "The dialogue and the viewing commands show the right files",
  "In the dialogue about a case, in a run, a parallel run or a review, the answers v, l, d and D run the command set as md_viewer, log_viewer, diff_tool and fast_diff_tool, once, with files of just this case: v the accepted text, if there is one, and the new text; l the log; d and D the accepted and the new text, in this order. If the command is not set, nothing is run and the user is told. These answers, and any other but a, c and q, decide nothing and change no file: the user is asked again about the same case. No tool is run without such an answer. --view runs md_viewer once on the accepted texts of exactly the selected cases that have one, --print prints exactly these texts in order, and --path prints the path of the accepted text of each selected case (-c not considered).",
  ["inputs", "histories", "configurations"], "all dialogues, verdicts, settings, selections and accepted texts that exist or not", "The dialogue is interactive and not tested.",
  ["booktest/review.py", "booktest/tests.py", "booktest/runs.py"], [("dialogue", "review.interact, run_tool"), ("commands", "Tests.exec_parsed")], observe=["commands run", "standard output"])

p("N03", "A killed worker process does not hang a parallel run",
  "If a worker process is killed while running a case, the run still ends and reports that case as failed.",
  ["fault_sequences", "schedules"], "kills at any point", "Parallel mode is not tested.", ["booktest/runs.py"], [("process pool", "ParallelRunner")])
p("N04", "Distinct tests get distinct names",
  "Two different test functions or methods found in a test tree never get the same case name.",
  ["programs"], "all test trees", "A few names are tested.", ["booktest/naming.py", "booktest/detection.py", "booktest/testbook.py"], [("naming", "naming.class_to_test_path, clean_method_name")])
p("N05", "Interrupting a write never damages stored results",
  "If the process dies while storing a case's result, report or capture, the next run reads either the old or the new content, never a truncated one.",
  ["crash_points"], "all crash points within a write", "No test crashes.", ["booktest/testrun.py", "booktest/runs.py", "booktest/requests.py", "booktest/httpx.py"], [("plain writes", "save_test_result, write_case, stop")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
for d in P:
    assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
print(len(P), "properties")
