#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
H = "libs/cmdr11/include/cmdr11/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": [H + f if not f.startswith(("addons/",)) else f for f in files], "mechanism": mech}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "thread_pool runs each accepted task exactly once and resolves its future",
  "Every task accepted by cmdr::pool::thread_pool::queue_task before shutdown starts is executed exactly once by a pool thread, or, if join()/the destructor discards it while still queued, never; its future then carries exactly the value the task returned or the exception it threw, or broken_promise for a discarded task. No future stays pending once the pool has been destroyed, a task that throws neither kills a worker nor loses later tasks, and active_threads() never exceeds total_threads() and is 0 when all tasks are done.",
  ["schedules", "programs", "fault_sequences"],
  "for every interleaving of any number of submitters and workers, every mix of returning, throwing, nested-submitting and slow tasks, and every point at which shutdown begins",
  "tests/pool.cc runs one fixed batch under whatever schedule the OS picks; a lost or doubled task needs a particular preemption between queue, wakeup and completion",
  ["cmdr_pool.hh"], "threaded_message_queue under _m/_cv, packaged_task wrapping in queue_task, worker loop in start_thread, _active counter", "_tasks, _active, _threads")
p("C02", "thread_pool start-up and shutdown always terminate and leave nothing running",
  "Constructing a thread_pool with n workers returns with all n workers started (or throws if a worker thread cannot be created, leaving no thread behind), and join() or the destructor, called at any moment, returns after a bounded number of scheduling steps once running tasks finish. After it has returned no task body runs any more, all workers have ended, and calling join() again returns as well.",
  ["schedules", "fault_sequences", "programs"],
  "for every schedule of constructor, submitters, workers and the shutting-down thread, spurious wakeups included, and for every worker at which thread creation may fail",
  "a missed wakeup or a thread-creation failure hangs only under one schedule or fault; a test run either passes or never ends and cannot show the absence of the hang",
  ["cmdr_pool.hh"], "thread_pool ctor/start_thread/clear_threads, _cv_started or _sync_point, _future_ended, threaded_message_queue::clear", "_abort, _threads, _future_ended")
p("C03", "thread_pool_lite dispatches in FIFO order and drains on destruction",
  "thread_pool_lite starts tasks in the order enqueue() accepted them, runs each exactly once and delivers its value or exception through the returned future; its destructor returns only after every accepted task has finished, and enqueue() after shutdown began throws and does not run the task. If a worker thread cannot be created the constructor throws std::system_error and leaves no thread behind.",
  ["schedules", "programs", "fault_sequences"],
  "for every interleaving of enqueuers, workers and the destructor, and every worker whose creation may fail",
  "no repository test exercises thread_pool_lite at all; order and drain violations depend on preemption inside the locked regions and failing pthread_create cannot be provoked by a unit test",
  ["cmdr_pool.hh"], "thread_pool_lite::enqueue/start/clear with queue_mutex, condition, stop", "tasks, stop, workers")
p("C04", "threaded_message_queue delivers each message to one consumer and abort wakes all",
  "Each message put in with emplace_back is returned by exactly one pop_front call, unmodified and newest-first among the messages present, and never duplicated, invented or lost while the queue is live; a consumer waiting on an empty queue wakes when a message arrives. After clear() (or destruction begins) every blocked and every later pop_front returns an empty optional in a bounded number of steps.",
  ["schedules", "histories"],
  "for every number of producers and consumers, every interleaving, spurious wakeups, and every moment clear() is called",
  "test_mq uses one producer and one consumer on one schedule; a lost wakeup or double delivery needs specific interleavings",
  ["cmdr_pool.hh"], "threaded_message_queue emplace_back/pop_front/clear with _m and _cv", "_data, _abort")
p("C05", "conditional_wait loses no signal and its timeouts tell the truth",
  "A thread in wait() on a conditional_wait_for_bool/_int returns only when the condition holds (set() or set_for_all() done the needed number of times); a sole waiter returns once set() makes it hold, and after set_for_all() or kill() makes it hold every waiter returns. wait_for(d)/wait_until(t) return true iff the condition holds on return, never return false before the deadline on their clock, and the argument-less wait_for()/wait_until() wait without a practical limit.",
  ["schedules", "fault_sequences"],
  "for every interleaving of setters and waiters, every spurious wakeup, every timeout length and every jump of the realtime clock (for steady-clock waits)",
  "timing tests can only sleep and hope; the claim is about all orders of set, wakeup and expiry including ones an idle machine never produces",
  ["cmdr_pool.hh"], "conditional_wait::wait/wait_for/wait_until/set/set_for_all, predicates evaluated under _m", "_var")
p("C06", "timer_killer ends a periodic loop promptly and never early",
  "In a loop 'while(!tk.wait_for(d)) work();' every iteration lasts at least d of steady time unless killed, wait_for returns true only after kill()/set, and after kill() each looping thread performs no further complete period: it leaves the loop within one wakeup, no matter how long d is.",
  ["schedules", "fault_sequences"],
  "for every number of looping threads, every d, every instant of kill(), spurious wakeups and realtime clock jumps",
  "a test can observe only a couple of periods on the wall clock and cannot place kill() between the predicate check and the wait",
  ["cmdr_pool.hh"], "timer_killer over conditional_wait_for_bool, kill() = set_for_all()", "_var")
p("C07", "Auto-locked observable never loses or corrupts a registration",
  "With AutoLock (both with and without CNS) concurrent add_observer/remove_observer/emit calls from any threads behave as if executed one after another: when they have finished, exactly the observers that were added and not removed are registered, each as often as it was added, and no call crashes or hangs. registerer removes on scope exit exactly the observer it added.",
  ["schedules", "histories"],
  "for every interleaving of add, remove and emit over any number of threads and observers, for both locking policies",
  "tests/observer.cc is single-threaded; lost updates between copying and swapping the chain need two registrations to overlap",
  ["cmdr_common.hh"], "observable::add_observer/remove_observer copy-and-swap or locked edit under _m", "_observers")
p("C08", "observable emit reaches every live registered observer exactly once",
  "emit(e) calls observe(e) exactly once per registration for each observer registered for the whole duration of the emit, in registration order, passes e unchanged, and skips observers whose owner has released them without touching freed memory. With AutoLock, an observer whose remove_observer has returned is not notified until it is added again. An exception thrown by an observer reaches the emitter.",
  ["schedules", "histories", "fault_sequences"],
  "for every interleaving of emitters with registrations, removals and destruction of observers, and observers that throw",
  "requires overlapping emit with removal and with the death of the observer's owner; the test uses a fixed single-threaded sequence",
  ["cmdr_common.hh"], "observable::emit under _m with weak_ptr::lock", "_observers")
p("C09", "singleton constructs once even under concurrent first access",
  "For every class derived from cmdr::util::singleton<T> (app_holder included) and for singleton_with_optional_construction_args, any number of threads making the first instance() call concurrently all get a reference to the same, completely constructed object and the constructor runs exactly once. If construction throws, a later call tries again and succeeds.",
  ["schedules", "fault_sequences"],
  "for every interleaving of first and later instance() calls and every failing first construction",
  "mem_test_for_singleton.cc calls from one thread; a double construction needs two first calls to overlap",
  ["cmdr_common.hh", "cmdr_internals.hh"], "function-local static unique_ptr in singleton<T>::instance, _instance pointer in singleton_with_optional_construction_args", "static instance")
p("C10", "Option store keeps its index intact under concurrent writers and readers",
  "Concurrent set_raw/set calls on any keys and has/get_raw/subtree lookups of a cmdr::vars::store from different threads behave as if executed one after another: no key set is ever lost or attached to the wrong dotted path, a lookup that starts after a set returned finds the key, and no lookup sees a half-built node or freed memory. walk_by_full_keys running meanwhile visits, once and in order, every key whose set had returned before and no key whose set has not begun.",
  ["schedules", "histories"],
  "for every interleaving of writers of new and existing keys with lookups (values of a key are read only when nobody writes that key)",
  "the store tests are single-threaded; the shared_mutex discipline is only visible when insertion and lookup overlap",
  ["cmdr_var_t.hh", "cmdr_var_t_inl.h"], "nodeT::mutex_ (shared_mutex) in _set/_get_raw/has/subtree", "_children, _indexes")
p("C11", "Option store is a faithful map of dotted keys for any history",
  "After any history of set_raw/set_raw_p/reset calls and assignments through get_raw, get_raw(key) yields the value last set for exactly that dotted key (null when never set), has(prefix,key) is true iff prefix.key was set, subtree(prefix) yields the node holding exactly the keys below prefix, and walk_by_full_keys, dump_full_keys and dump_tree show each set key once with its current value (sorted; as a tree with its inner nodes). A lookup that runs out of memory throws, it never answers for another key. A set that fails for lack of memory leaves all other keys readable and the store usable.",
  ["histories", "fault_sequences"],
  "for every sequence of operations over arbitrary dotted keys, prefixes and value types, with allocation failures at any point",
  "tests check a handful of keys in one order; index/children divergence shows up only for particular set/reset/prefix histories or failing allocations",
  ["cmdr_var_t.hh", "cmdr_var_t_inl.h"], "nodeT::_set recursion keeping _children and every ancestor's _indexes in step", "_children, _indexes")
p("C12", "Every slot of a signal gets every event, once, in order and unchanged",
  "For any history of connect/on and emit (or operator()) on a cmdr::util::signal, and of add_callback/on and emit on an observable_bindable, each emit calls every slot connected before it exactly once, in order of connection, with the values emitted, whether the slots take them by value, by reference or by rvalue, through a member function or with bound leading arguments. A slot may itself connect further slots or emit again. A connect that fails leaves the slots connected before; an exception of a slot reaches the emitter and only ends that emit.",
  ["histories", "fault_sequences"],
  "for every sequence of connections and emissions, including those made by slots, with slots that throw and connections that fail for lack of memory",
  "tests/observer.cc connects and emits once each and prints; which slot consumed or lost a value, and re-entrant histories, never show",
  ["cmdr_common.hh"], "signal::emit passing the subjects to each slot, bind_tie", "_callbacks")
p("I01", "process::exec captures the complete stdout and stderr of a command",
  "Reading a cmdr::process::exec as a stream yields byte for byte everything the command wrote to its standard output, and stderr_stream() everything it wrote to standard error, for a command of any length or shell form. How the pipe delivers the data (short reads, interrupted reads, delays) makes no difference.",
  ["inputs", "fault_sequences"],
  "for every command text, every output content and size, every chunking of the pipe and every interrupted read",
  "the test runs one command; truncation occurs only when a read is interrupted or the command text is long or compound",
  ["cmdr_process.hh", "cmdr_path.hh"], "execbuf: popen of the command with stderr redirected to a file, read loop, ifstream on the file", "output, _ef")
p("I02", "process::exec never reports success for a command that failed",
  "exec::ret_code() is the exit status of the command when it exited by itself and is non-zero when the command was killed by a signal or its status could not be collected; if the command could not be started at all the constructor throws. A process handle is always reaped, also when reading fails.",
  ["inputs", "fault_sequences"],
  "for every exit status and terminating signal, and for failures of popen and pclose",
  "tests only see commands that exit normally; signal deaths and failing system calls are never produced",
  ["cmdr_process.hh"], "execbuf: popen/pclose through the unique_ptr deleter, ret_code()", "_rc")
p("I03", "Concurrent process::exec calls do not mix their output",
  "Any number of exec objects, created one after another or concurrently in different threads and alive at the same time, each keep showing exactly their own command's stdout, stderr and exit code.",
  ["schedules", "histories"],
  "for every interleaving of the start, reading and completion of several commands",
  "a unit test runs one command at a time and reads it at once; sharing a capture file shows only when executions overlap",
  ["cmdr_process.hh", "cmdr_path.hh"], "execbuf's stderr capture file named by path::tmpname_for_stderr", "tmpfile_stderr")
p("I04", "Every live mmap object has its own zero-filled file of the right size",
  "Each cmdr::mmap::mmap<..>(size) that is_open() maps a temporary file of exactly size bytes that reads as zeros, shares no backing file with any other live mmap object whatever thread created it, and, when writeable, keeps what was written through data(). Destroying it removes its file and releases the descriptor and the mapping, and nothing else.",
  ["schedules", "histories"],
  "for every interleaving of creation, use and destruction in several threads and every sequence in one thread",
  "names come from a shared counter: a collision needs two creations to overlap, which single-threaded tests never do",
  ["cmdr_mmap.hh", "cmdr_path.hh"], "tmpname_autoincr counter, create_sparse_file, mmaplib::connect/cleanup, ~mmap", "static id, fd_, addr_")
p("I05", "mmap failures are reported and leak nothing",
  "If creating, opening, stat-ing or mapping the backing file fails at any step, the object reports is_open()==false (or construction throws) and size()==0, no descriptor, mapping or temporary file is left behind after destruction, and no foreign descriptor or mapping is closed or unmapped. An object reported open always gives access to size() valid bytes, and each descriptor and mapping is released exactly once, also when mmaplib objects are moved or copied.",
  ["fault_sequences", "histories"],
  "for every system call on the path failing with every errno, in every combination over several objects",
  "system-call failures cannot be produced by an ordinary unit test, and double release is silent",
  ["cmdr_mmap.hh", "cmdr_path.hh"], "mmaplib::connect/cleanup/__copy, io::create_sparse_file", "fd_, addr_, size_")
p("I06", "File helpers report what really happened on disk",
  "io::create_sparse_file returns true only if the file exists with exactly the requested size afterwards, and false only if a step failed; io::delete_file returns true iff it removed the file; path::ensure_directory and ensure_file leave the directory or file in place without touching existing contents, or report the failure; io::read_file_content returns exactly the file's bytes.",
  ["inputs", "fault_sequences"],
  "for every size and content, with open, write, seek, close and mkdir failing (ENOSPC, EMFILE, EACCES, EIO) or interrupted or short",
  "a healthy file system never fails in a test run, so the false success is never seen",
  ["cmdr_path.hh"], "io::create_sparse_file/read_file_content/delete_file, path::ensure_directory/ensure_file", None)
p("I07", "Stream redirection is always undone",
  "While a pipe_stdin_to/pipe_stdout_to/pipe_stderr_to/pipe_stdlog_to/pipe_all_to object lives, the streams it covers (and only those) use the given buffer; after it goes out of scope, on a normal path or through an exception thrown at any point, every standard stream has exactly the buffer it had before, for any properly nested history. The ios state savers restore flags, width, precision and fill likewise.",
  ["histories", "fault_sequences"],
  "for every nesting of redirections and every point at which an exception or a failing stream write unwinds them",
  "tests redirect once and leave normally; nesting with exceptional exits is a history property",
  ["cmdr_os_io_redirect.hh", "cmdr_ios.hh"], "constructor saves rdbuf, destructor restores; savers in cmdr_ios.hh", "stream_buffer_*")
p("I08", "Completion generation reports a script only when it is fully written",
  "Bash completion generation reports a target path and success only if that file exists with the complete script; when a candidate location cannot be created or written it goes on to the next one, and when none works it reports failure (non-zero) and claims no file.",
  ["fault_sequences", "configurations"],
  "for every combination of failing directories, opens, writes and closes over the candidate locations",
  "needs a full disk or unwritable system directories at a particular step",
  ["cmdr_app_inl.h", "cmdr_cmd_inl.h"], "app::generate_bash_completion / _write_bash_comp_file_to candidate chain", None)
p("L01", "Log lines come out whole, complete and once",
  "Each cmdr_print/cmdr_debug/cmdr_verbose_debug call writes exactly one line that holds the whole formatted message, whatever its length and content, with the time of the call and the calling place, and nothing of another call; the lines of one thread come out in the order of its calls, for any number of threads. A call that fails for lack of memory throws and writes nothing or the whole line.",
  ["schedules", "inputs", "fault_sequences"],
  "for every interleaving of threads that log, every message, and allocation failures in any call",
  "no test looks at what the logger prints, and two lines run into each other only when two threads log at the same moment",
  ["cmdr_log.hh"], "holder::operator(), Log::vdebug: format into a buffer, one printf", "the singleton Log, stdout")
p("T01", "Elapsed-time measurement ignores wall-clock jumps",
  "cmdr::chrono::high_res_duration reports through its callback exactly once, when it goes out of scope, an elapsed time that is never negative and equals the steady time that passed between its construction and the report, no matter how the system's realtime clock is set in between.",
  ["schedules", "fault_sequences"],
  "for every elapsed time and every forward or backward jump of the realtime clock",
  "a test cannot step the system clock",
  ["cmdr_chrono.hh"], "high_res_duration: clock sampled in constructor and destructor", "_start")
p("T02", "Time conversion and formatting are correct when used from several threads",
  "Converting or formatting different time points concurrently (cmdr::chrono time_point/tm/string helpers and the log line time stamp) gives in every thread the result that thread's own time point gives when formatted alone.",
  ["schedules"],
  "for every interleaving of conversions in different threads",
  "std::gmtime/std::localtime share one static buffer: the mix-up needs a preemption between the call and the copy",
  ["cmdr_chrono.hh", "cmdr_log.hh", "cmdr_defs.hh"], "time_point_2_tm/time_t_2_tm/format helpers calling gmtime/localtime", "libc static struct tm")
p("A01", "app::run honours the hook life cycle under every failure",
  "In every app::run: pre-invoke hooks run before the command's action, a non-zero pre-invoke result prevents the action and is the result, post-invoke hooks run exactly once after the action even if it throws, and every on_post_run hook runs exactly once per run on every way out. A std::exception thrown by a hook, loader or action makes run return -1 instead of escaping (a cmdr_biz_error escapes exactly when the app asked for it), and the app remains usable for the next run.",
  ["fault_sequences", "histories", "programs"],
  "for every combination of failing, refusing and succeeding hooks, loaders and actions, over repeated runs",
  "the combinations of hook failures are too many for examples and the tests use none that throw",
  ["cmdr_impl.hh", "cmdr_app.hh"], "app::run, after_run, invoke_command, post_run, exception handling", "_run_is_singleton, hook lists")
p("A02", "Concurrent app::run calls are serialised",
  "When several threads call run() on the same app, the runs happen one at a time: no hook, loader or action of one run executes while another run is between its start and its post-run hooks, every run completes with the result its own command line gives, and a run that ends with an exception does not block later ones.",
  ["schedules", "fault_sequences"],
  "for every interleaving of concurrent runs, with actions that throw, block or sleep",
  "tests run one command line in one thread; overlap is only prevented by one lock guard",
  ["cmdr_impl.hh", "cmdr_app.hh"], "app::run guarded by _run_is_singleton", "_run_is_singleton, _store")
p("A03", "Option values follow default < config < environment < command line",
  "After parsing, each option's value in the store is the one from the strongest source that supplied it: command line over environment variable over external loader over registered default, with the type of the registered default kept, whatever subset of sources is present; options no source mentions keep their default. Text in an environment variable that is no value of the option's type counts as absent.",
  ["configurations", "histories"],
  "for every assignment of options to sources, every option type and every order of flags",
  "the product of sources, types and options is far beyond example tests, and external state (environment, loader) must be varied per run",
  ["cmdr_impl.hh", "cmdr_arg.hh", "cmdr_var_t.hh"], "app::prepare (load_externals, apply_env_vars) then process_flag/on_arg_matched", "_store")
p("A04", "A command line selects its command, flags and arguments regardless of history",
  "run() invokes exactly the command named by the sequence of (long, short or alias) command names, with every flag value and the remaining arguments of that line, stops with an error and without invoking anything on an unknown command or flag or a missing required flag, and parsing never alters the registered commands and flags: the same line means the same in every later run. A flag given text that is no value of its type (or out of its range) is reported and counts as not given, and the hit counts and names an action sees are those of its own line; an app that was told to tolerate unknown words skips them.",
  ["inputs", "histories"],
  "for every command tree and every command line in the supported forms, in every order of previous runs",
  "history dependence shows only for particular earlier lines (e.g. one that used a short name or failed)",
  ["cmdr_impl.hh", "cmdr_cmd.hh", "cmdr_cmd_inl.h"], "matching_command, matching_flag_on, process_flag/process_command, check_required_flags", "_long_commands, _short_commands, hit counts")
p("A05", "External configuration loading is all-or-error",
  "With the YAML loader, every scalar of a readable config file appears in the store under its dotted key (an option keeps the type of its default), and a config file that cannot be read or parsed makes run() return -1 without invoking the command, with config.file.loaded not set by that file; an absent file changes nothing.",
  ["fault_sequences", "configurations"],
  "for every generated config document and every open/read failure, truncation and corruption while loading it",
  "tests load one good file; damaged and failing files are fault sequences",
  ["addons/loaders/yaml_loader.hh", "cmdr_impl.hh"], "yaml_loader::operator()/load_to, app::load_externals", "config.file.*")
p("A06", "Registration is all-or-nothing and takes effect in the next run",
  "Registering a command or flag whose title, short title or alias duplicates one its parent already has throws a dup_error; a registration that throws, for that or any other reason (no memory, a handler that throws), leaves the app exactly as it was: the same help screens, the same meaning of every command line, no effect of the refused item's defaults, titles or requirements, and the same item can be registered later. What was registered between two runs, and what is registered after app::reset(), counts from the next run as if it had been there from the start.",
  ["histories", "fault_sequences"],
  "for every order of registrations, refused registrations and runs, and every allocation in a registration that may fail",
  "tests register everything once, successfully, before the only run; half-done registrations only show in later runs",
  ["cmdr_cmd_inl.h", "cmdr_impl.hh"], "cmd::add(arg), cmd::add(cmd), app::on_arg_added, app::reset", "_all_args, _long_args, _short_args, _grouped_args, _all_commands, ...")
p("A07", "Help and tree screens list exactly what is registered, every time",
  "For every registered command tree and terminal size, asking for help on a command ends, returns 0 without invoking anything, and lists each visible sub-command and each visible flag of the command and of its ancestors exactly once with all its titles, description and environment variables, and nothing hidden or foreign; the tree screen lists all visible commands below likewise. On the same terminal the same request prints the same screen again, no matter which runs, failures or other screens came before.",
  ["configurations", "histories", "fault_sequences"],
  "for every tree, grouping, title length, terminal width and history of runs and screens",
  "layout depends on title lengths, group names, the terminal and on widths left over from earlier screens; tests print one screen at one width",
  ["cmdr_cmd_inl.h", "cmdr_impl.hh", "cmdr_app_inl.h", "cmdr_terminal.hh"], "app::print_cmd, cmd::print_commands/print_flags, detail::sort_keys/_out_desc, print_tree_screen", "_minimal_tab_width, _grouped_args, _grouped_commands")
p("A08", "Shell completion is offered exactly what can be typed next",
  "For every registered command tree and every line typed so far that names a command, with options and values in between, the listing the generated completion script asks for (the line with --help -hhncsc, or any other way to give --help, --no-color and --shell-completion) ends, returns 0 without invoking anything and offers every sub-command of the command reached and every option of it and of its ancestors once with all its titles - hidden ones only when help is asked for three times - and nothing else: one line each, uncoloured, titles before the first '|', or in the form zsh wants when SHELL is zsh, on a terminal of any width. No run, failure or screen before changes what is offered.",
  ["configurations", "histories", "fault_sequences"],
  "for every tree, partial line, shell, terminal width and history of runs and screens",
  "no test ever asks for a completion list; that flags of one run leak into the next or a title gets lost shows only for particular trees and histories",
  ["cmdr_cmd_inl.h", "cmdr_impl.hh", "cmdr_app_inl.h"], "app::print_usages/print_cmd, cmd::print_commands/print_flags with shell_completion_mode", "the flags shell-completion, no-color and help's hit count")
# ---- not applicable for this technique family
p("N01", "Duration and time-point text formatting round-trips",
  "format_duration / operator<< for std::chrono durations and the chrono parse helpers are inverse to each other and choose the documented unit for every value.",
  ["inputs"], "for every duration value and format", "value space is unbounded; tests use samples",
  ["cmdr_chrono.hh"], "format_duration, parse_duration, iom format flags")
p("N02", "String utilities and fuzzy matching are mathematically correct",
  "trim/split/join/pad/replace/strip_quotes and jaro_winkler_distance satisfy their definitions for every string (symmetry, bounds, identity).",
  ["inputs"], "for every string", "value space is unbounded",
  ["cmdr_string.hh"], "cmdr::string and cmdr::text functions")
p("N03", "priority_queue yields elements in comparator order",
  "cmdr::collections priority queue pops elements in comparator order and keeps size consistent for every history of a single owner.",
  ["histories"], "for every push/pop history", "histories are unbounded",
  ["cmdr_priority_queue.hh"], "push/pop/top over the underlying tree")
p("N04", "Small-string implementations behave as std::string for every content",
  "small-string-optimised string types keep content, length and termination for every length across the inline/heap boundary.",
  ["inputs"], "for every string length and content", "boundary lengths are many",
  ["cmdr_small_string.hh"], "inline/heap switch")
p("N05", "Factory and visitor dispatch to the registered type",
  "util factories create exactly the type registered under a name and visitors dispatch on the dynamic type.",
  ["programs"], "for every set of registered types", "compile-time type sets are unbounded",
  ["cmdr_utils.hh", "cmdr_common.hh"], "factory registry, visitor templates")
p("N06", "Terminal colouring and help layout are well formed",
  "colourised text always resets attributes and help screens align columns for every command tree and width.",
  ["inputs", "configurations"], "for every tree, colour and width", "layout space is unbounded",
  ["cmdr_terminal.hh", "cmdr_impl.hh"], "colorize, print_cmd")
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    for x in P: assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
