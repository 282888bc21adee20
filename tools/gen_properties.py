"""Writes properties.jsonl (kept as Python so that the text is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

R = "shellous/runner.py"; H = "shellous/harvest.py"; RD = "shellous/redirect.py"; PR = "shellous/prompt.py"
C = "shellous/command.py"; PL = "shellous/pipeline.py"; U = "shellous/util.py"; RS = "shellous/result.py"
PT = "shellous/pty_util.py"; W = "shellous/watcher.py"; L = "shellous/log.py"

p("C01", "No child process outlives the command, pipeline or block that started it",
  "When awaiting a command or pipeline, leaving its `async with` block, finishing or closing its line iterator, or leaving its prompt block returns or raises, every process it started (including pipeline members and process substitutions) has exited and been reaped. This holds for success, failure to launch, non-zero exit, timeout, exceptions in user code and cancellation at any moment.",
  ["schedules", "fault_sequences", "programs"],
  "Every interleaving of child-process steps, I/O readiness and event-loop callbacks, one or two cancellations injected at any point between callbacks, exec failure of any member, over the command, pipeline, substitution, prompt, iterator and pty scenarios (within a deviation bound).",
  "Tests run one schedule per scenario and cancel after fixed sleeps; the dangerous cancellations are the ones between exec and the first await, or during clean-up.",
  [R, H, U], [("Runner._kill/_kill_wait escalate and wait", R), ("uninterrupted() shields the exec", U), ("PipeRunner._wait(kill=True)", R)],
  ["waitpid bookkeeping of every spawned process when the public call returns"])

p("C02", "File descriptors are conserved and never closed twice",
  "After a command, pipeline or block finishes in any way, the set of file descriptors open in the calling process equals the set before it started, except that descriptors the user handed over with close=True/pass_fds_close are closed and other user descriptors remain open. No descriptor number is ever closed twice or closed when it belongs to somebody else.",
  ["schedules", "fault_sequences", "configurations"],
  "Every schedule/cancellation point as in C01 plus failure of any single descriptor-creating or exec step (k-th pipe, openpty, open, exec) in commands, pipelines, process substitutions, ptys, file and fd redirections.",
  "The suite compares fd counts only around fault-free tests; failures of the k-th allocation and cancellation between allocations are not sampled.",
  [R, PT, U], [("_RunOptions.open_fds/__exit__/_cleanup", R), ("PtyFds.close / ChildFd", PT), ("PipeRunner._start exception path", R), ("close_fds", U)],
  ["/proc/self/fd", "os.close results"])

p("C03", "Nothing is left running in the event loop when a command finishes",
  "When a command, pipeline, iterator or prompt block finishes in any way, no background task, timer or I/O registration that it created is still pending, and no exception or warning from it is later reported to the loop's exception handler (never-retrieved exceptions, un-awaited coroutines, unclosed transports).",
  ["schedules", "fault_sequences"],
  "Every schedule/cancellation point/launch failure within the bound, over all scenario families.",
  "Tests check leftover tasks on the schedules they run; leaks depend on which of several sibling tasks finish, fail or are cancelled first.",
  [R, H, PR, U], [("harvest consumes and waits for every task", H), ("_stop_timer", R), ("Prompt._drain cancels its reader", PR)],
  ["asyncio.all_tasks()", "loop exception handler", "scheduled timers", "selector registrations"])

p("C04", "Cancelling sends the cancel signal, then SIGKILL only after the grace period",
  "A cancelled, timed-out or failed-in-block command that is still running is first sent its configured cancel signal, exactly once per stop; SIGKILL follows only if it is still running after the cancel timeout (or the wait is cancelled again), and the caller resumes only after the process exited. A process that exits by itself, or in reaction to the first signal within the cancel timeout, never receives SIGKILL (except when SIGKILL is the configured cancel signal), and no signal is ever sent after it was reaped.",
  ["schedules", "programs", "configurations"],
  "All moments of cancellation, all child reactions (dies at once, dies after a delay below/above the limit, ignores the signal, closes pipes but lives, grandchild keeps pipes), all configured cancel signals, within the deviation bound.",
  "Tests use real sleeps and a couple of signal-ignoring children; they cannot enumerate where the cancel falls relative to process exit.",
  [R, H], [("Runner._kill", R), ("Runner._kill_wait", R), ("Runner._signal", R), ("harvest(timeout=...)", H)],
  ["signals delivered to each process with virtual time stamps"])

p("C05", "A cancellation is neither swallowed nor invented",
  "If the task awaiting a command or pipeline is cancelled before the await completes, the await raises CancelledError (or the documented TimeoutError when the command had itself already timed out) and never returns a value as if nothing happened; conversely CancelledError is raised only if somebody cancelled. Inside an `async with` block, a cancellation is visible afterwards: the object reports itself cancelled and asking for its checked result raises CancelledError.",
  ["schedules"],
  "One or two cancellations at every point between event-loop callbacks of awaited commands, pipelines, iterators and context-manager blocks.",
  "The existing tests cancel at a handful of instants; the swallowing windows are single callbacks during close/clean-up.",
  [R, H, U], [("Runner.__aexit__/_finish", R), ("harvest_wait cancellation path", H), ("check_result", RS)],
  ["outcome of the awaiting task"])

p("C06", "A timeout fires exactly when the process is still running at the deadline",
  "A command whose process and I/O finish before its timeout behaves exactly as if no timeout was set; one whose process is still running at the deadline is stopped through the cancel protocol and the caller gets TimeoutError (not CancelledError, not a partial value). If the process has exited and only some other process holds its output open at the deadline, either outcome is possible. The timeout of one member of a pipeline fails the pipeline (with TimeoutError, or the failure of a neighbour that follows from it), never lets it succeed or hang. A timeout leaves no pending timer and leaves the caller's task not marked as being cancelled, so that enclosing timeouts and task groups keep working.",
  ["schedules", "configurations"],
  "All interleavings of timer expiry with process exit, EOF and callbacks, including simultaneous ones; timeouts of 0, shorter than, equal to and longer than the run; nested in an outer timeout scope.",
  "Tests use generous real-time margins and never hit expiry in the same loop iteration as exit.",
  [R], [("_start_timer/_set_timer_expired/_stop_timer", R), ("TimeoutError conversion in __aexit__", R)],
  ["outcome, pending timers and cancellation count of the calling task"])

p("C07", "Captured output is complete, ordered and exact for every sink",
  "Whatever bytes a process writes to standard output or error, in whatever chunks and at whatever pace, the configured destination (returned value, bytearray, BytesIO, StringIO, stream writer, file, descriptor, logger) ends up with exactly those bytes in order, decoded only as a whole with the configured encoding, before the command returns. Output already received before a failing exit, a cancellation or a timeout is kept in the result; what a process writes after it was told to stop may or may not be.",
  ["schedules", "inputs"],
  "All chunkings of short byte strings (including multi-byte characters split across reads, CR/LF, empty, larger than pipe/read sizes) interleaved with reads and exit, for each sink type.",
  "Tests write through real programs, which deliver one chunking; split code points and data arriving together with exit are not systematically covered.",
  [R, RD, RS], [("copy_* tasks", RD), ("_setup_output_sink", R), ("Result.output decode", RS)],
  ["contents of the sink when the call returns"])

p("C08", "Input reaches the process exactly, then end-of-file, and early exit is tolerated",
  "A process that reads its standard input to the end sees exactly the configured input bytes followed by end-of-file, for every input kind (text, bytes, bytearray, file path, descriptor, BytesIO/StringIO, stream reader that reaches its end, default empty). If the process stops reading or exits early, the command still completes with the process's own status: no hang, and no error from the unread input.",
  ["schedules", "inputs", "programs"],
  "All chunk sizes in which the child consumes input, all points at which it closes stdin or exits, inputs from empty to larger than the pipe buffer, both start orders.",
  "Tests use cat/head-like programs with one timing; the broken-pipe windows depend on the interleaving of drain, close and exit.",
  [R, RD], [("write_stream / write_reader / _drain", RD), ("_setup_input_source", R), ("Runner._close waits stdin closed", R)],
  ["bytes the child read"])

p("C09", "Buffered stderr is capped but always fully drained",
  "When standard error is buffered, the result holds exactly the first N bytes written (N = the configured limit, all of them if unlimited), for every chunking; the process is never blocked or broken by reaching the limit, and standard output capture is unaffected.",
  ["schedules", "inputs", "configurations"],
  "All chunkings of stderr output below, at and above limits {0,1,small,None}, including output larger than the pipe buffer interleaved with stdout output.",
  "Tests use one large burst per limit; off-by-one around chunk boundaries and writer blocking need all chunkings.",
  [RD, R], [("copy_bytearray_limit", RD), ("error_limit wiring in Runner._start", R)],
  ["Result.error_bytes, child progress"])

p("C10", "Exit status maps exactly to return value or ResultError",
  "The reported exit code is the process's real status (negative signal number when killed by a signal); a command returns its output iff that code is in the allowed set (only 0 by default) and it was not cancelled, and otherwise raises ResultError carrying the same code, output, error text and cancelled flag. `.result` returns the full result without raising for any exit status. (An empty allowed set means the default.)",
  ["inputs", "configurations", "schedules"],
  "All exit codes 0..255 and fatal signals against the allowed-set options, and small result lists for pipelines, combined with cancelled/timed-out flags.",
  "Tests check about ten codes; the combination space (code x allowed set x cancelled x timed out x result mode) is not enumerated.",
  [RS, R], [("check_result / convert_result_list", RS), ("Runner.returncode/result", R)],
  ["returned value / raised exception"])

p("C11", "Commands terminate: no deadlock whatever the order of events",
  "If each process would eventually exit when its pipes are serviced, then every command, pipeline, process substitution, iterator and prompt session over them completes, and does so without needing any internal fallback timeout to expire, no matter how the processes' reads, writes and exits interleave with the event loop, including when outputs exceed the pipe buffers.",
  ["schedules", "programs"],
  "All interleavings within the deviation bound of child scripts that fill stdout, stderr and stdin pipes in different orders, with shrunken pipe buffers, and of launch failures in any pipeline position.",
  "A deadlock needs one specific order; tests would only ever observe it as a rare hang.",
  [R, H, RD, PR], [("concurrent copy tasks", R), ("PipeRunner._setup_capturing", R), ("Prompt._drain reads while writing", PR)],
  ["completion within virtual time; virtual clock at completion"])

p("C12", "Audit callbacks are correctly bracketed",
  "For every run of a command with an audit callback, exactly one \"start\" is reported first and exactly one \"stop\" last, even when the launch fails or is cancelled (then the stop carries the failure's name, and otherwise an empty one); in between there is exactly one \"signal\" report per signal sent, before it is sent, naming that signal, and when \"stop\" is reported the process has exited.",
  ["schedules", "fault_sequences"],
  "Every schedule/cancellation/launch fault within the bound for commands, pipelines and iterators with an audit callback.",
  "Tests assert a few fixed sequences; double stop, missing stop or signal after stop appear only at specific cancel points.",
  [R], [("_audit_callback in __aenter__/__aexit__/_signal", R)],
  ["callback log"])

p("C13", "Pipelines connect their commands and report the right result",
  "In a pipeline each command reads exactly what its left neighbour wrote and nothing else, standard input feeds the first, the result is the last command's output, and every command sees end-of-file as soon as its left neighbour is finished. The pipeline's exit status and error text come from the first command with a non-zero exit that was not stopped by shellous (or from the last command if there is none), and its value/exception follows the last command's options, including its allowed exit codes.",
  ["schedules", "inputs", "programs"],
  "Pipelines of 2-3 commands with all combinations of member exit codes, early-closing readers, and all interleavings within the bound.",
  "The suite checks a few fixed pipelines with real programs; combinations of member outcomes and completion orders are not enumerated.",
  [R, RS, PL], [("PipeRunner._setup_pipeline", R), ("convert_result_list", RS)],
  ["bytes read by each member, pipeline Result"])

p("C14", "Failure of one pipeline member stops the rest promptly and is reported",
  "If any pipeline member cannot be launched, raises, or the pipeline is cancelled, then in every usage form (await, `async with`, `async for`, prompt) the other members are stopped and the original error is raised to the caller; the call never hangs and never reports success.",
  ["schedules", "fault_sequences", "configurations"],
  "Launch failure (missing program, permission, bad redirect) at each position of 2-3 member pipelines, in each usage form and every schedule within the bound, plus cancellation.",
  "Only a missing first/last command in the await form is tested; the capturing forms depend on the order in which members launch.",
  [R], [("PipeRunner._setup_capturing ready futures", R), ("PipeRunner.__aenter__ error path", R), ("harvest_results", H)],
  ["outcome and virtual duration"])

p("C15", "Process substitutions run exactly once and live within their parent command",
  "A command passed as an argument is started exactly once if and only if the parent process is launched, is connected through the path given to the parent in the direction requested, and is finished (or stopped) when the parent command returns. A failing or unlaunchable substitution fails the parent command, unless the failure is only that its partner stopped reading; if the parent cannot launch, no substitution runs.",
  ["schedules", "fault_sequences", "programs"],
  "Readable and writable substitutions (commands and pipelines), one or two per command, failing at exec in parent or child, early-exit of either side, all schedules and cancellations within the bound.",
  "Tests use a few fixed shell programs; ordering between parent exit and substitution exit is not controlled.",
  [R], [("_setup_process_substitution", R), ("add_task(cmd.coro(), 'procsub')", R)],
  ["exec log, bytes passed"])

p("C16", "Gathering helper: every awaitable is finished before it returns or raises",
  "When the structured gathering helpers return or raise, all given awaitables are done: on success with all results; on a failure the remaining ones were cancelled and the failure is reported; on timeout TimeoutError after cancelling the rest; on cancellation CancelledError (or a cancelled flag in the collecting form) after cancelling the rest, or letting them finish if so requested. The collecting form returns results in argument order, and if an awaitable refuses to stop within the limit an explicit error is raised.",
  ["schedules", "programs"],
  "All vectors of up to 3 awaitables drawn from a catalogue (return, raise, sleep-then-X, ignore cancel, slow clean-up, raise in clean-up), all timer/callback orders, with one or two cancellations at any point.",
  "Tests use fixed sleeps; which of several tasks completes in the same loop iteration as a timeout or cancel is not controlled.",
  [H], [("harvest_wait/_cancel_wait/_cancel_waiter", H), ("harvest_results", H)],
  ["task states at return"])

p("C17", "Prompt matching does not depend on how output is split, and loses no text",
  "For a stream of co-process output, the sequence of values returned by expect/read_pending/read_all/command is the same for every split of the bytes into reads for split-insensitive patterns, and concatenating returned text, matched prompts and the pending buffer always reproduces exactly the decoded output received so far (with newline normalisation applied when requested).",
  ["inputs", "schedules"],
  "All splits of short outputs with multi-byte characters, CR/LF pairs, repeated and overlapping prompts, at all read chunk sizes, against literal, list and regex prompts, and all call sequences up to a depth.",
  "Tests see the chunking the OS happens to give; splits inside a character, inside CRLF or inside a prompt are rarely produced.",
  [PR], [("incremental decoder", PR), ("_search_pending/_read_to_pattern", PR)],
  ["returned values and pending buffer"])

p("C18", "Prompt send/expect survive timeouts, cancellation, EOF and full pipes",
  "A prompt operation that times out, is cancelled or meets end-of-file raises TimeoutError, CancelledError or EOFError respectively and leaves all text received so far available to the next operation; at_eof is true exactly when the co-process closed its output and everything was consumed. send never deadlocks with a co-process that is itself blocked writing, delivers its bytes exactly once and in order, and reports a broken connection only as an error of the send itself.",
  ["schedules", "programs"],
  "All interleavings of co-process reads/writes/exit with send, expect, read_all and command calls, timeouts at every relative instant, cancellations at every point, shrunken pipes.",
  "The concurrent read during drain, timeout at the moment data arrives and EOF while sending need exact interleavings.",
  [PR], [("Prompt._drain/_read_some", PR), ("harvest_results(timeout)", H)],
  ["returned values, exceptions, pending buffer, bytes received by the co-process"])

p("C19", "A secret sent with no_echo is never echoed or logged",
  "Text sent with no_echo is written to the terminal only after terminal echo is off; if echo stays on, an error is raised after the waiting limit (about 30 seconds) and the text is never written. The text never appears in log output, even with all tracing enabled.",
  ["schedules", "configurations"],
  "All instants at which the co-process turns echo off (never, before, between any two polls), with trace logging on and off.",
  "Tests use a real getpass-like program with one timing; a race between echo-off and the write is not reproducible by sampling.",
  [PR], [("_wait_no_echo", PR), ("_log_send", PR)],
  ["bytes on the terminal, log records"])

p("C20", "Commands, contexts and pipelines are immutable values with consistent equality",
  "Every builder operation returns a new object and leaves all its operands unchanged; it changes exactly the setting it names and keeps every other one. Objects built from equal parts are equal and hash equally regardless of the order in which settings were applied, and pipeline composition is associative.",
  ["histories", "inputs"],
  "All sequences of builder operations up to length 3 (4 thorough) over contexts, commands and pipelines, compared with a reference model after every step.",
  "Tests check single operations; the interactions of operation sequences (e.g. append/close flags left over from an earlier redirect, env order) are not enumerated.",
  [C, PL, U], [("dataclasses.replace based set_*", C), ("EnvironmentDict", U), ("Pipeline._add/_set", PL)],
  ["object fields, ==, hash"])

p("C21", "Arguments are passed to the program exactly as the coercion rules say",
  "Arguments are flattened through nested lists/tuples in order, text, bytes and paths are passed unchanged, byte buffers and in-memory files by content, other scalars by their text form, and mappings, sets, generators, ranges, None and Ellipsis are rejected with TypeError before anything runs; a custom coercion function is applied exactly once to each top-level argument. The program receives exactly that argument vector, located through the command's search path.",
  ["inputs"],
  "All argument trees up to depth 3 / width 3 over a catalogue of leaf types, with and without a coercion function, across call styles.",
  "Tests check about twenty examples; nesting and repeated application are not enumerated.",
  [C, R], [("coerce()", C), ("CmdContext.__call__/Command.__call__", C), ("PATH resolution in _RunOptions", R)],
  ["argv at exec"])

p("C22", "The child environment is exactly the composition of the settings",
  "The environment of the started process is the parent's environment (if inherited) overridden by the command's variables, or only those variables if not inherited; later settings override earlier ones and replacing the environment discards earlier additions; the parent environment and the user's dictionaries are never modified.",
  ["histories", "configurations"],
  "All sequences up to length 4 of env additions/replacements/inherit switches over 2 keys on contexts and commands, compared with a dictionary model at exec.",
  "Tests cover single additions; sequences mixing replace, add and inherit switches are not enumerated.",
  [C, U, R], [("Options.runtime_env/add_env/set", C), ("EnvironmentDict", U)],
  ["env passed to exec"])

p("C23", "Redirections send each stream where the command says",
  "For every combination of stdin, stdout and stderr settings (capture, buffer, inherit, discard, merge stderr into stdout, file, append, descriptor, in-memory sink), the process's three standard streams are connected to exactly the configured places: plain redirects truncate, append keeps earlier content, merged streams keep their write order, discarded data goes nowhere. Unsupported combinations are rejected with an error before anything is started.",
  ["configurations", "inputs"],
  "The full product of stdin x stdout x stderr x append settings for a child that writes tagged bytes to both outputs and reads its input, with pre-filled destinations.",
  "Tests cover the common settings one stream at a time, not the product.",
  [R, RD, C], [("_setup_input/_setup_output/_setup_redirects", R), ("Redirect.from_default", RD), ("_set_position", R)],
  ["content of every destination afterwards"])

p("C24", "One command object can run many times at once without mix-ups",
  "The same command or pipeline object may be entered repeatedly, nested and from concurrent tasks; every exit finishes exactly the run started by the matching enter in that task, results are those of that run only, and runs that overlap behave as if they were started from separate equal objects.",
  ["schedules", "histories"],
  "All interleavings of up to 2-3 tasks entering/leaving one shared object with nesting up to 3, awaiting it concurrently, and task identity reuse.",
  "Tests nest once; concurrent overlapping enters in different orders are not explored.",
  [U, C, PL], [("context_aenter/context_aexit stacks", U)],
  ["pid/result pairing"])

p("C25", "Pseudo-terminal runs deliver data, end-of-file and clean up like pipes do",
  "A command run on a pseudo-terminal has its three standard streams on one terminal that is its controlling terminal; all output it writes before exiting is delivered, its exit is seen as end-of-file rather than an I/O error, configured input ends with the terminal's end-of-file so that a line-reading process terminates, and terminal descriptors are released however the run ends.",
  ["schedules", "inputs", "fault_sequences"],
  "Terminal modes cooked/no-echo/raw/cbreak x inputs with and without trailing newline x all interleavings of child reads, writes, exit and loop callbacks, exec failure and cancellation during set-up.",
  "Tests run real programs; data loss at exit (EIO vs pending data) and cancel during terminal set-up are schedule dependent.",
  [PT, R, RD], [("PtyStreamReaderProtocol", PT), ("write_stream eof", RD), ("_setup_pty1", R)],
  ["bytes delivered, fds"])

p("C26", "The child watcher reports each exit exactly once",
  "For every watched process the registered callback is invoked exactly once with its real exit status, whatever the relative order of registration, process exit, notification and other registrations from any thread; if a process cannot be monitored because its pidfd cannot be opened or registered, it is killed, still reported once, and nothing leaks. Closing the watcher never blocks forever, does not lose the report of a process that exited before close was called, and releases its descriptors and threads.",
  ["schedules", "fault_sequences"],
  "All thread interleavings at line granularity up to a preemption bound of registering threads, the watcher thread, process exits and close, with pidfd/epoll/pipe/thread failures injected, for every strategy (registration happens on a thread with a running loop and not concurrently with close; kqueue is a simulated one).",
  "Tests use real threads and timing; the lazy-initialisation, register/exit and close races need specific preemptions.",
  [W], [("DefaultChildWatcher._init_strategy lock", W), ("EPollStrategy._run/_reap_pidfd/_add_pidfd", W), ("ThreadStrategy", W)],
  ["callback log, fds"])

p("C27", "Tracing changes nothing but the log",
  "With any trace setting enabled, every command, pipeline, iterator and prompt session has the same outcomes, side effects and clean-up as without it.",
  ["configurations", "schedules"],
  "The scenario catalogue under each trace setting on the explored schedules (cancellations and launch failures included): the set of observable outcomes of each scenario must be the same; for pseudo-terminals, where the kernel's own timing takes part, the undisturbed schedules only.",
  "The test suite runs with one trace setting per process.",
  [L, R, PR], [("log_method/log_thread/log_timer wrappers", L), ("LOG_PROMPT branches", PR)],
  ["outcome sets"])

p("C28", "Iterating a command yields exactly its lines and stops it when abandoned",
  "Iterating over a command or pipeline yields the process's output split after each newline, in order, the last line without a newline included, joined text equal to the whole output; iteration ends normally only at the real end of the output (a non-zero exit status alone does not make it raise); if the command cannot be launched, times out, is cancelled or its output cannot be decoded, it raises. A line longer than the stream limit raises ValueError. Abandoning the loop (break plus close, exception, cancellation) stops the process; so does dropping or forgetting the iteration (break without close, garbage collection, close from another task, shutdown of the loop), without trouble in the task that iterated and without leaving anything behind.",
  ["schedules", "inputs"],
  "All chunkings of short outputs with 0-3 newlines, exits and failures, break/raise/cancel after each line and at each callback.",
  "Tests iterate fixed outputs; cancellation in the middle of iteration is not explored.",
  [C, PL, R, RD], [("_readlines", C), ("read_lines", RD), ("aiter_preflight", RD)],
  ["yielded lines, outcome"])

p("C29", "The handle of a run tells the truth about its process at every moment",
  "While and after a command runs, what its Runner says agrees with what its process did. pid names the process it started. returncode is None until the exit has been collected, from then on it is the process's real exit status and never changes; it is set when the block has been left. result() raises TypeError exactly while returncode is None and afterwards carries that status and the cancelled flag, giving the same answer every time. cancelled never goes back to False. stdin, stdout and stderr are streams exactly when they are captured. Signals sent through the handle after the exit reach nobody. Prompt.result raises RuntimeError inside the block and is the process's result afterwards. Tasks added with add_task() to a command's or pipeline's handle are finished when the block is left: awaited if all goes well (their failure stops the run and is raised by the block or result()), cancelled if not; they do not otherwise change the result.",
  ["schedules", "configurations", "programs"],
  "Every scheduling point (between any two callbacks, and at every step of a process) of every schedule with one cancellation, fault or reordering of all general scenarios; all stream settings x terminal x six endings for a command and a pipeline; 13 sets of background tasks x 4 ways to leave the block x 4 processes.",
  "Tests look at these attributes once, after everything is over or at one arbitrary moment.",
  [R, RS, PR], [("Runner.returncode/result/cancelled", R), ("Runner.add_task", R), ("PipeRunner.add_task/_wait", R), ("Prompt.result/_finish_", PR)],
  ["attributes of Runner, PipeRunner and Prompt at every scheduling point"])

p("C30", "A process inherits its three streams, what it was given, and nothing else",
  "However a command is started (alone, in a pipeline, as an argument of another command, inside another block, in a terminal), its process inherits exactly: its three standard streams, each open in the right direction; the descriptors in pass_fds, under their own numbers and still referring to the user's files, also when pass_fds_close is set; and the /dev/fd/N ends of its own process substitutions. It inherits no end of another process's pipe and no terminal of another process, so every pipe between two processes has one reading and one writing process. Descriptors of the caller that are not inheritable are never inherited, inheritable ones only with close_fds=False and neither pass_fds nor a process substitution. A process gets a session of its own exactly when it has a pseudo-terminal. It starts in the caller's working directory, with the caller's user, umask and process group, the default action for SIGPIPE and no shell in between; the streams made for it are blocking.",
  ["configurations", "schedules"],
  "19 ways to use a command x 7 sets of passed descriptors x close_fds x 16 redirections, in 4 scheduling orders, and every schedule with one reordering (thorough).",
  "An inherited extra descriptor shows only as an end of file that never comes, in one combination of redirection, substitution and order of launch.",
  [R, C, PL], [("_setup_pass_fds", R), ("_setup_proc_sub", R), ("_setup_redirects", R), ("Runner._setup_pty1", R), ("PipeRunner._setup", R)],
  ["pass_fds", "pass_fds_close", "close_fds", "process substitution", "pipes", "pty"])

p("C31", "Running a command changes nothing in the calling process",
  "Whatever a command is given and however its run ends, the calling process is afterwards (and while it runs) what it was: its environment, working directory, umask, signal handlers and mask, limits, threads, event-loop settings and context variables; the standard streams; the flags of descriptors it passed or redirected to (blocking mode, inheritability) and the settings of terminals among them; the kind and mode of files that were redirected to, the contents of files that were read; and the lists, dicts and buffers it handed over. The command object itself stays equal to what it was.",
  ["configurations", "schedules", "fault_sequences"],
  "21 kinds of things handed over x 10 ways to use a command x 6 endings, with one cancellation, fault or reordering anywhere; and the general scenarios with one cancellation, fault or reordering.",
  "Tests look at outputs, not at the state of the process that runs them; a shared file description or the environment changes silently.",
  [R, C, RD, PT], [("_setup_redirects/_setup_output", R), ("_setup_pass_fds", R), ("Options.runtime_env", C), ("open_pty", PT)],
  ["os.environ", "descriptor flags", "terminal settings", "signal handlers", "context variables", "the caller's objects"])

p("C32", "A command can be run again, whatever became of its earlier runs",
  "A command or pipeline is a value: running it, in any way and with any end (success, failure, launch error, time-out, cancellation, an exception in the caller's block, an iteration left early, or a run still going on), leaves it equal to what it was, and a later run of the same object starts the same processes with the same arguments, environment, descriptors and input, writes the same to its destinations, and has the same outcome as a run of an equal object that was never used.",
  ["histories", "configurations", "schedules"],
  "35 kinds of command x 5 shapes (alone, first, last, middle of a pipeline, argument of another command) x 5 ways of the first use x 11 ways it ends x 4 ways of the second use; and a selection of them with every reordering.",
  "State left behind by one particular kind of ending is only seen by a second run, which tests hardly ever do.",
  [C, PL, R, U], [("Command.coro/_readlines/__aenter__", C), ("_RunOptions._setup_process_substitution", R), ("Options", C), ("context_aenter", U)],
  ["two runs of one object"])

p("C33", "The program that is started is the one the search path leads to",
  "A command whose name has a directory starts that file; otherwise it starts the first executable regular file of that name in the directories of its search path (its `path` option if set, else the PATH of the calling process when it runs, else the system default; never the PATH it passes to the program), whether the name is a str, bytes or path object and wherever the command stands; find_command() names the same file. If there is none, it fails with an error and nothing is started. A run is called, in audit reports too, by the alt_name of its command or its first argument, shortened to the last 31 characters.",
  ["configurations"],
  "4^3 contents of three directories x 19 search paths x 9 spellings of the name x 7 uses x 3 ways to set the path (a selection of contents for the full product in the quick check); names of 1-39, 64 and 200 characters.",
  "Tests run programs from the normal PATH.",
  [C, R], [("Options.which", C), ("CmdContext.find_command", C), ("_RunOptions.__enter__", R), ("Command.name", C)],
  ["find_command", "path option", "alt_name"])

p("C34", "A slow consumer slows the producer down: nothing piles up in between",
  "When whatever takes a process's output stops taking it for a while (a block or loop that does not read, a prompt session, a StreamWriter whose other end is not read, another process that reads late through a pipe, a StreamReader source or a process substitution), the process is soon blocked in its write: what has left it and has not been consumed is bounded by the stream, transport and kernel buffers (far below 1 MiB; 1.5 MiB for a chain of two copies), however much more it wants to write. Once the consumer goes on, everything arrives, complete.",
  ["configurations", "schedules"],
  "20 ways to consume a stream x 0, 1 or 5 lines taken before the pause, in every scheduling order, and every schedule with one reordering.",
  "Tests read as fast as the process writes; memory that grows with the data shows only in production.",
  [RD, R, PR], [("write_reader", RD), ("copy_streamwriter", RD), ("_drain", RD), ("Runner._setup_output_sink", R)],
  ["bytes written by the process while its consumer pauses", "bytes consumed at the end"])

p("C35", "A run that is over is forgotten: nothing keeps it in memory",
  "However a command or pipeline is run (awaited, as a block, iterated, as a prompt session; with every redirection, process substitution or terminal) and however the run ends (exit status, signal, launch failure, timeout, cancellation, an exception in the block, abandonment), nothing in the library, its watcher, the event loop or the command object keeps the run alive afterwards: repeating it leaves no more runners, processes, transports, streams, tasks or futures in memory than before.",
  ["configurations", "schedules", "fault_sequences"],
  "35 kinds of command x 5 shapes x 4 uses x 9 endings, each run three times in a row in one task, and every schedule with one reordering of a selection.",
  "A test process ends before anything that is kept adds up; only the one use and ending that forgets to let go leaks.",
  [R, "shellous/util.py", PR, C], [("context_aenter/context_aexit", "shellous/util.py"), ("uninterrupted", "shellous/util.py"), ("Runner", R), ("PipeRunner", R)],
  ["objects alive after a garbage collection"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
