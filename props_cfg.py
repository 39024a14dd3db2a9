C17, C20 = "-std=c++17", "-std=c++20"
R0, R1 = "-DCMDR_ENABLE_THREAD_POOL_READY_SIGNAL=0", "-DCMDR_ENABLE_THREAD_POOL_READY_SIGNAL=1"
POOLV = [("c17r1", [C17, R1]), ("c20r1", [C20, R1]), ("c17r0", [C17, R0])]
A_SC = ["the simulator executes one thread at a time, i.e. explores sequentially consistent executions; weaker orderings show up only as happens-before races",
        "instrumented accesses are those of the harness and of the inlined repository headers and C++ library templates; code inside libstdc++.so/libc is executed atomically between scheduling points",
        "randomised search: a clean batch is evidence, not proof"]
REAL_T = ["all cmdr headers involved (compiled from /repo's working tree)", "std::thread, std::async, std::future, std::function, containers (libstdc++)"]
STUB_T = ["OS scheduler and clocks (simulated)", "pthread mutex/cond/rwlock/once/create/join and futex (simulated semantics)", "malloc/free (arena with poisoning)"]
REAL_IO = REAL_T + ["file streams and std::filesystem of libstdc++", "the kernel's file system below a scratch directory", "/bin/sh and coreutils as child processes"]
STUB_IO = STUB_T + ["open/fopen/read/write/writev/lseek/fstat/stat/mkdir/unlink/remove/rename/mmap/munmap/close/fclose/mkstemp: real effect below the scratch root, with injected errors, short counts, EINTR", "popen/pclose: the command is really run by /bin/sh, its output is delivered by the simulator"]
REAL_APP = REAL_IO + ["the whole cmdr::app: registration, option store, parsing, hooks, help, generators"]
NOTE = ("Seeded random exploration of schedules, timings and faults of the real headers; every reported violation is replayed in a fresh process first. "
        "Absence of a violation is evidence for the explored runs only. Trusts the simulated pthread/clock/file semantics in /verif/sim; explores sequentially consistent executions plus happens-before race detection.")
NOT_APPLICABLE = {
 "N01": "pure value functions: no schedule, clock, fault, I/O or multi-party behaviour for a simulation to vary; deciding it means plain input generation, another technique",
 "N02": "pure string functions: nothing for a simulated scheduler or fault injector to decide",
 "N03": "single-owner container without concurrency, time or I/O: simulation would degenerate to random unit testing",
 "N04": "single-owner string value type without concurrency, time or I/O",
 "N05": "compile-time/registry dispatch of a single thread without faults or I/O",
 "N06": "pure rendering of a command tree: depends on no schedule, time, fault or external party",
}
PROPS = {
 "C01": dict(how="seeded schedules of submitters/workers/shutdown, future and exactly-once oracle", src="C01.cc", variants=POOLV, quick=30, nontrivial="at least one task ran on a pool worker"),
 "C02": dict(how="seeded schedules and thread-creation faults of pool start-up/shutdown, progress and residue oracle", src="C02.cc", variants=POOLV, quick=30, nontrivial="the pool was constructed and shut down, or construction failed by an injected fault"),
 "C03": dict(how="seeded schedules and thread-creation faults, FIFO/drain oracle", src="C03.cc", variants=[("c17", [C17]), ("c20", [C20])], quick=30, nontrivial="at least one task was accepted or construction failed by an injected fault"),
 "C04": dict(how="seeded schedules of producers/consumers/abort, linearizability check against a LIFO model", src="C04.cc", variants=[("c17", [C17])], quick=30, nontrivial="at least one message was consumed by a concurrent consumer"),
 "C05": dict(how="seeded schedules, spurious wakeups and clock jumps, wait/timeout oracle", src="C05.cc", variants=[("c17", [C17])], quick=30, nontrivial="a waiter and a setter overlapped or a timeout expired"),
 "C06": dict(how="seeded schedules, simulated time, period/kill oracle", src="C06.cc", variants=[("c17", [C17])], quick=25, nontrivial="a looping thread was killed"),
 "C07": dict(how="seeded schedules, serializability and race oracle", src="C07.cc", variants=[("c17", [C17])], quick=30, nontrivial="at least two threads modified the chain"),
 "C08": dict(how="seeded schedules, interval oracle over the notification history", src="C08.cc", variants=[("c17", [C17])], quick=30, nontrivial="an emit reached an observer"),
 "C09": dict(how="seeded schedules of first accesses and throwing constructors", src="C09.cc", variants=[("c17", [C17])], quick=25, nontrivial="at least two threads called instance()"),
 "C10": dict(how="seeded schedules of writers and lookups, linearizability rules and final-state oracle", src="C10.cc", variants=[("c17", [C17])], quick=30, nontrivial="a lookup found a key set concurrently"),
 "C11": dict(how="generated histories with injected allocation failures against a reference map", src="C11.cc", variants=[("c17", [C17])], quick=25, nontrivial="at least one key was set and read back"),
 "C12": dict(how="generated histories of connecting and emitting, also from inside slots, with throwing slots and injected allocation failures, delivery oracle", src="C12.cc", variants=[("c17", [C17])], quick=20, nontrivial="an event went to several slots"),
 "I01": dict(how="generated shell commands, simulated pipe delivery (short/interrupted/delayed reads), byte-exact oracle", src="I01.cc", io=True, variants=[("c17", [C17])], quick=30, nontrivial="the command wrote something", real=REAL_IO, stubs=STUB_IO),
 "I02": dict(how="generated commands with start/status/memory/file faults, exit-status reference", src="I02.cc", io=True, variants=[("c17", [C17])], quick=30, nontrivial="the command failed or a fault hit", real=REAL_IO, stubs=STUB_IO),
 "I03": dict(how="seeded schedules of concurrent exec objects, per-command oracle", src="I03.cc", io=True, variants=[("c17", [C17])], quick=30, nontrivial="several exec objects alive at once", real=REAL_IO, stubs=STUB_IO),
 "I04": dict(how="seeded schedules of threads (and a second process) creating, using and destroying mmap objects, ownership oracle", src="I04.cc", io=True, variants=[("c17", [C17])], quick=30, nontrivial="several objects alive at once or several threads", real=REAL_IO, stubs=STUB_IO),
 "I05": dict(how="injected failures of every file/mapping call and allocation, move/copy histories, release-exactly-once oracle", src="I05.cc", io=True, variants=[("c17", [C17])], quick=30, nontrivial="an object was opened or an injected failure was reported", real=REAL_IO, stubs=STUB_IO),
 "I06": dict(how="generated histories of file operations with injected call failures, seeded schedules of several threads ensuring the same target, disk-state oracle", src="I06.cc", io=True, variants=[("c17", [C17])], quick=25, nontrivial="an operation was performed", real=REAL_IO, stubs=STUB_IO),
 "I07": dict(how="generated nested histories with injected stream failures, allocation failures and exceptions at any point, buffer-identity oracle", src="I07.cc", variants=[("c17", [C17])], quick=20, nontrivial="a redirection or saver scope was entered and left"),
 "I08": dict(how="generated directory states and call failures over histories of generate runs, disk-state oracle", src="I08.cc", io=True, variants=[("c17", [C17])], quick=30, nontrivial="a script was to be written", real=REAL_APP, stubs=STUB_IO),
 "L01": dict(how="seeded schedules of threads printing generated messages (stdio calls as scheduling points), injected allocation failures, whole-line oracle over the captured output", src="L01.cc", variants=[("c17", [C17])], quick=20, nontrivial="several threads printed", stubs=STUB_T + ["stdout: a memory file, one stdio call at a time"]),
 "T01": dict(how="simulated steady and realtime clocks with jumps, nested and concurrent measurements, time oracle", src="T01.cc", variants=[("c17", [C17])], quick=20, nontrivial="time passed while measuring"),
 "T02": dict(how="seeded schedules of threads converting generated time points, each compared with the same conversion alone", src="T02.cc", variants=[("c17", [C17])], quick=25, nontrivial="several threads converted times"),
 "A01": dict(how="generated apps, command lines and plans of failing, refusing and throwing hooks over repeated runs, trace oracle", src="A01.cc", variants=[("c17", [C17])], quick=35, nontrivial="an action ran", real=REAL_T + ["the whole cmdr::app"], stubs=STUB_T),
 "A02": dict(how="seeded schedules of threads running generated command lines on one app, overlap and result oracle", src="A02.cc", variants=[("c17", [C17])], quick=50, nontrivial="several threads ran command lines", real=REAL_T + ["the whole cmdr::app"], stubs=STUB_T),
 "A03": dict(how="generated options, config hooks, environments and command lines over repeated runs, precedence oracle", src="A03.cc", variants=[("c17", [C17])], quick=35, nontrivial="a stronger source had to win over a weaker one", real=REAL_T + ["the whole cmdr::app"], stubs=STUB_T),
 "A04": dict(how="generated command trees, command lines and histories of runs with failing runs in between, reference parser", src="A04.cc", variants=[("c17", [C17])], quick=50, nontrivial="a command was invoked and compared", real=REAL_T + ["the whole cmdr::app"], stubs=STUB_T),
 "A05": dict(how="generated config documents with truncation, corruption and open/read failures over repeated runs, all-or-error oracle", src="A05.cc", io=True, libs=["-lyaml-cpp"], variants=[("c17", [C17])], quick=50, nontrivial="a config file was loaded or refused", real=REAL_APP + ["the YAML loader add-on and yaml-cpp"], stubs=STUB_IO),
 "A06": dict(how="generated registrations (also duplicate, out of memory or refused by a handler) between runs of one app, compared with a reference model", src="A06.cc", variants=[("c17", [C17])], quick=50, nontrivial="a command was invoked and compared", real=REAL_T + ["the whole cmdr::app"], stubs=STUB_T),
 "A07": dict(how="generated command trees, terminal sizes and histories of runs and screens (also out of memory), compared with the reference model", src="A07.cc", variants=[("c17", [C17])], quick=50, nontrivial="a help or tree screen was compared", real=REAL_T + ["the whole cmdr::app"], stubs=STUB_T + ["terminal size"]),
 "A08": dict(how="generated command trees, partial lines, shells and histories of runs and screens (also out of memory), compared with the reference model", src="A08.cc", variants=[("c17", [C17])], quick=50, nontrivial="a completion list was compared", real=REAL_T + ["the whole cmdr::app"], stubs=STUB_T + ["terminal size", "the awk part of the generated script"]),
}
for k, v in PROPS.items():
    v.setdefault("assumptions", A_SC)
    v.setdefault("real", REAL_T)
    v.setdefault("stubs", STUB_T)
