"""Which suites decide which property (see DESIGN.md)."""

def S(bin="ctl", crash=("C12",), hang=("C12", "C23"), typ=15, **kw):
    return dict(bin=bin, crash_tags=list(crash), hang_tags=list(hang), typ=typ, **kw)

SUITES = {
    "fault": S(typ=15),
    "faultpair": S(typ=3),
    "panicpair": S(typ=2),
    "graph": S(crash=("C05", "C12"), hang=("C05", "C23"), typ=28),
    "large": S(crash=("C05", "C12"), hang=("C05", "C23"), typ=7),
    "marathon": S(hang=("C12", "C23"), typ=5),
    "options": S(crash=("C07", "C12"), hang=("C23", "C12"), typ=3),
    "links": S(crash=("C09", "C12"), hang=("C09", "C23"), typ=2),
    "hist": S(typ=30),
    "delay": S(crash=("C12", "C03"), typ=10),
    "names": S(crash=("C13", "C12"), hang=("C13", "C23"), typ=2),
    "imports": S(crash=("C06", "C12"), hang=("C06", "C23"), typ=3),
    "vault": S(crash=("C10", "C12"), hang=("C10", "C23"), typ=5),
    "invoke": S(crash=("C11",), hang=("C11",), typ=3),
    "callbacks": S(crash=("C12", "C14"), typ=4),
    "missing": S(crash=("C22", "C12"), hang=("C22",), typ=1),
    "static": S(crash=("C15", "C12"), hang=("C15",), typ=2),
    "lookup": S(crash=("C16",), hang=("C16",), typ=1),
    "snap": S(crash=("C17", "C12"), hang=("C17",), typ=2),
    "collide": S(crash=("C17", "C12"), hang=("C17",), typ=1),
    "big": S(crash=("C17", "C12"), hang=("C17",), typ=4),
    "conc": S(crash=("C12", "C23"), hang=("C23",), typ=20),
    "race": S(bin="race", crash=("C23",), hang=("C23",), race_tags=["C23"], typ=10),
    "readrace": S(bin="race", crash=("C02", "C16"), hang=("C02", "C16"), race_tags=["C02", "C16"], typ=2),
    "twin": S(crash=("C26",), hang=("C26", "C23"), typ=6),
    "twinrace": S(bin="race", crash=("C26",), hang=("C26",), race_tags=["C26"], typ=3),
    "oddpanic": S(crash=("C12", "C11"), typ=1),
    "slowread": S(crash=("C12",), hang=("C02", "C23"), typ=1),
    "copy": S(bin="cli", crash=(), hang=("C18",), typ=4),
    "live": S(bin="cli", crash=(), hang=("C19",), typ=25),
    "statgen": S(bin="cli", crash=(), hang=("C20",), typ=20),
    "args": S(bin="cli", crash=(), hang=("C25",), typ=8),
    "climissing": S(bin="cli", crash=(), hang=("C22",), typ=3),
    "real": S(bin="cli", crash=("C17",), hang=("C23", "C12"), typ=15),
    "clifault": S(bin="cli", crash=(), hang=("C21",), typ=22),
    "opfault": S(crash=("C01", "C12"), typ=1),
    "untouched": S(crash=("C12", "C27"), typ=9),
    "leak": S(crash=("C12", "C28"), typ=3),
}

RULE = ("one evaluation = one complete execution of the real code (a history of loads, reloads and pauses, or one schedule) compared step by step "
        "with the reference model and the trace monitors; distinct = distinct abstract states (current versions, pending frees with their age, counter, last outcome, directory) reached")

def C(level, technique, note, suites, **kw):
    return dict(level=level, technique=technique, note=note, suites=suites, rule=kw.pop("rule", RULE), **kw)

MC = "model_checking"
FE = "fault_enumeration"

LEDGER = "as C01"

CLI = "runs the command built from /repo's working tree in scratch modules; the go tool is real except in the suite clifault, where 'go build' is a stand-in that records what it is given"
CLIRULE = ("one evaluation = one scenario run through the real hotswap command and judged file by file; distinct = distinct scenarios or directory states reached; "
           "transitions = runs of the command that were judged")

CHECKS = {
    "C01": C(FE, "exhaustive fault enumeration on the real code under a virtual clock, judged by a reference model",
             "every single fault and every ordered pair within the stated bounds is executed, plus every failing file operation; trusts the in-memory plugin loader (bound to real .so plugins by the conformance suite)",
             ["marathon", "faultpair", "opfault", "fault", "hist", "real"]),
    "C02": C(MC, "systematic schedule exploration (preemption-bounded) of loads, reloads and readers on the real code under a controlled scheduler",
             "all schedules up to the stated preemption bound; scheduling points are the synchronisation operations, goroutine starts, sleeps and plugin-function boundaries", ["slowread", "readrace", "conc"]),
    "C03": C(MC, "explicit-state exploration of histories of loads, reloads and pauses of the real code under a virtual clock, with an OnFree ledger", LEDGER, ["marathon", "options", "panicpair", "delay", "real", "large", "hist", "conc"]),
    "C04": C(FE, "exhaustive fault enumeration with an OnFree ledger", LEDGER, ["panicpair", "faultpair", "opfault", "large", "fault"]),
    "C05": C(MC, "exhaustive enumeration of dependency graphs x map iteration orders on the real code",
             "all labelled digraphs up to the stated size; map iteration start offsets are enumerated, not all permutations", ["large", "graph"]),
    "C06": C(MC, "exhaustive enumeration of import shapes x exported objects x name spellings on the real code", LEDGER, ["imports", "links", "graph"]),
    "C07": C(FE, "exhaustive fault enumeration with a lifecycle automaton over the event trace", LEDGER, ["options", "panicpair", "fault"]),
    "C08": C(MC, "explicit-state exploration of directory and reload histories of the real code against a reference model", LEDGER, ["marathon", "collide", "snap", "big", "names", "real", "hist"]),
    "C09": C(MC, "explicit-state exploration of reload histories over all small dependency graphs of the real code", LEDGER, ["links", "hist", "graph"]),
    "C10": C(MC, "exhaustive enumeration of live names per plugin and of reload histories of the real code", LEDGER, ["options", "vault", "hist"]),
    "C11": C(FE, "exhaustive enumeration of failing subsets on the real code", LEDGER, ["oddpanic", "invoke"]),
    "C12": C(FE, "exhaustive enumeration of panic positions (singles, pairs, delayed frees)", LEDGER, ["oddpanic", "large", "panicpair", "faultpair", "delay", "fault"]),
    "C13": C(MC, "exhaustive enumeration of directory contents and whitelists on the real code", LEDGER, ["options", "names"]),
    "C14": C(MC, "exhaustive enumeration of callback outcomes over call sequences of the real code", LEDGER, ["marathon", "options", "callbacks", "hist", "conc"]),
    "C15": C(MC, "exhaustive differential exploration of static against dynamic loading of the real code", LEDGER, ["static"]),
    "C16": C(MC, "exhaustive enumeration of symbol kinds x out arguments on the real code", LEDGER, ["lookup", "readrace", "real"]),
    "C17": C(FE, "exhaustive enumeration of file changes at every file operation of a load of the real code", LEDGER, ["collide", "snap", "big", "real"]),
    "C22": C(MC, "exhaustive enumeration of the subsets of required functions on the real code", LEDGER, ["missing", "climissing"]),
    "C18": C(MC, "exhaustive enumeration of source layouts, file kinds, package-clause and import forms, run through the real command and compared with an independent rewrite", CLI,
             ["copy"], rule=CLIRULE),
    "C19": C(MC, "exhaustive enumeration of declarations x packages x prefixes x build modes; the generated code is compiled and executed", CLI, ["live", "statgen"], rule=CLIRULE),
    "C20": C(MC, "explicit-state exploration of all reachable directory states under generate, clean and edit, run through the real command", CLI, ["statgen"], rule=CLIRULE),
    "C21": C(FE, "exhaustive enumeration of faults, torn writes and signals at every file operation and every started program, with the signal handler's removal ordered before every later operation",
             CLI, ["clifault", "copy", "live"], rule=CLIRULE),
    "C24": C(MC, "explicit-state exploration of directory and reload histories of the real code; every manager's descriptions are compared with a reference model", LEDGER,
             ["names", "links", "static", "callbacks", "hist"]),
    "C25": C(MC, "exhaustive enumeration of directory spellings x output directories x flags x build-flag lists and of refusable invocations, run through the real command with a recording compiler",
             "runs the command built from /repo's working tree in scratch modules; 'go build' is a stand-in that records what it is given, all other tools are real", ["args"], rule=CLIRULE),
    "C26": C(MC, "exhaustive exploration of interleaved and nested operations of two swappers of the real code, each against a reference model of its own, and of concurrent ones under the race detector", LEDGER,
             ["twinrace", "twin"]),
    "C27": C(FE, "exhaustive enumeration of histories, of sets of failing file operations and of clashes with another process over a directory full of other people's files, all of which are compared after every call", LEDGER,
             ["untouched"]),
    "C28": C(MC, "exhaustive enumeration of repeated histories of the real code with goroutines, descriptors, process-wide settings, liveness after garbage collection and reachable objects compared with what they were", LEDGER,
             ["leak"]),
    "C23": C(MC, "systematic schedule exploration (preemption-bounded) of overlapping loads and reloads on the real code under a controlled scheduler",
             "as C02; in addition every schedule of the race suite runs under the happens-before race detector with the scheduler's own edges hidden", ["race", "conc"]),
}
