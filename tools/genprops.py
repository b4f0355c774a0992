#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": list(files),
         "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": list(observe), "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why, "anchors": a})

PM, SW, ST, PL = "pluginManager.go", "pluginManagerSwapper.go", "staticPlugin.go", "plugin.go"
BUILD = "cli/hotswap/cmd/build.go"

prop("C01", "A load or reload is all-or-nothing",
 "When LoadPlugins or Reload fails for any reason (unreadable or unloadable file, missing function, dependency or naming error, an error or panic from any plugin function or reload callback), it returns an error and the current manager is the same object with the same plugins, links and vault as before, none of its plugins has been freed, and the reload counter has not moved. When it succeeds, the current manager is a new one holding exactly the selected plugins, all of them initialised. A failed attempt has no influence on what later attempts with freshly built files do.",
 ["fault_sequences", "histories", "configurations"],
 "Every single fault (and every ordered pair across two attempts) at every plugin function of every plugin and at the reload callbacks, for every dependency shape on up to 3 plugins and every mix of kept, rebuilt, new and removed plugins, in histories of load / faulty reload / reload / retirement.",
 "The tests inject one fixed panic per function into one fixed two-plugin first load and never inspect the current manager after a failed reload of an already running set; the space of (who fails, where, what else was kept) is a product no fixed list covers.",
 [PM, SW], [("deferred recover + release of the half-built manager", PM + " loadPlugins"), ("publication only after callbacks", SW + " loadPluginFiles"), ("callback recover", SW + " invokeReloadCallbacks")],
 [("current", "the published manager", SW)], ["LoadPlugins/Reload return values", "Current()", "Plugins()", "ReloadCounter()", "vault"])

prop("C02", "Readers only ever see completely initialised, never older, managers",
 "At any moment, whatever loads and reloads are running or failing in other goroutines, Current() returns nil or a manager whose plugins have all completed OnInit, whose vault is complete and whose reload callbacks have all succeeded. Successive calls never go back to an older manager, and once a load or reload has returned success every later call returns that manager or a newer one. Reading and invoking plugins of a manager obtained earlier is never blocked by a reload in progress, and any number of goroutines may do so at once.",
 ["schedules"],
 "Every interleaving (up to a preemption bound, at lock, atomic, goroutine-start, timer wake-up and plugin-callback points) of one or two loading goroutines with a reading goroutine, with succeeding and failing reloads and delayed frees firing in between.",
 "The tests are single-threaded: none calls Current() while a load runs.",
 [SW, PM], [("atomic publication after callbacks", SW + " loadPluginFiles"), ("Current", SW + " Current")],
 [("current", "the published manager", SW)], ["Current()", "Plugins()", "LiveFuncs", "InvokeEach"])

prop("C03", "OnFree runs exactly once, only after retirement plus the free delay",
 "OnFree of a plugin version that was part of a current manager is called exactly once: when the last manager containing that version has been replaced and then the free delay (the configured one, but at least 15 seconds) has elapsed since that replacement. It is never called while the version is part of the current manager or of a manager replaced less than the free delay ago, no matter how many managers shared the version, how many reloads failed meanwhile, or in which order delayed frees fire.",
 ["histories", "schedules", "configurations"],
 "All histories of successful and failed reloads and pauses up to a bounded length over up to 3 plugins with every kept/rebuilt/removed pattern and several free delays, on a virtual clock; plus all bounded interleavings of two delayed frees and a reload.",
 "One test waits 1.2 s after a single reload; sharing across several managers, failed reloads in between, the real 15 s minimum and overlapping retirements are never exercised.",
 [PM, SW], [("reference count shared by copies", PM + " addUnchanged / invokeEveryOnFree"), ("delayed release goroutine", SW + " loadPluginFiles")],
 [("Refs", "number of unreleased managers sharing the version", PL)], ["OnFree calls with their (virtual) time"])

prop("C04", "A failed attempt frees exactly the plugins it had newly loaded",
 "When a load or reload attempt fails, every plugin version this attempt had newly loaded (its Export had returned) gets OnFree exactly once before the failing call returns, in reverse dependency order if any OnLoad had been called. OnFree of versions kept from the current manager is not called, and their later freeing is neither advanced nor delayed nor lost. A panic in one OnFree does not keep the others from being freed.",
 ["fault_sequences", "configurations"],
 "Every fault position in every plugin function and reload callback, optionally combined with an OnFree panic of any plugin, for every dependency shape on up to 3 plugins and every kept/rebuilt/new mix, followed by a successful reload and full retirement.",
 "Tests check OnFree log lines for a handful of panics in a first load of two plugins; no test fails a reload that keeps plugins and then follows their lifetime.",
 [PM, SW], [("release on failure", PM + " loadPlugins deferred function"), ("release on callback failure", SW + " invokeReloadCallbacks")],
 [("Refs", "number of unreleased managers sharing the version", PL)], ["OnFree calls"])

prop("C05", "Every dependency graph is honoured; cycles are rejected before OnLoad",
 "A load succeeds only if the dependency graph of its plugins is acyclic, and then Plugins(), OnLoad, OnInit and InvokeEach all put every plugin after all of its direct and indirect dependencies, including plugins kept from the previous manager, while InvokeEachBackward runs in exactly the reverse order of InvokeEach and OnFree is called for a plugin before it is called for its dependencies. If the graph has a cycle of any length (a self-dependency included) the load fails before any OnLoad is called.",
 ["configurations", "inputs"],
 "All labelled digraphs on up to 4 plugins (self-loops up to 3), all DAGs on 5 (all digraphs on 5 and DAGs on 6 in the thorough tier), under every rotation of map iteration order, for first loads, reloads that keep the plugins, failed loads and retirement.",
 "The tests contain three fixed graphs; map iteration order is left to chance.",
 [PM], [("cycle search", PM + " checkCyclicDependency"), ("topological order", PM + " orderPlugins"), ("reverse iteration", PM + " invokeEveryOnFree / InvokeEachBackward")],
 (), ["Plugins()", "OnLoad/OnInit/OnFree/InvokeFunc call order"])

prop("C06", "Imports receive exactly the named plugins' exports, or the load fails",
 "Before any OnLoad is called, every exported field of a plugin's Import object that is not tagged hotswap:\"-\" holds the object exported by the loaded plugin whose name equals the field name regardless of letter case, or is left unset if that plugin exports nil; every other field is left untouched. The load fails if a field names no loaded plugin, is embedded, or has a type the exported object cannot be assigned to, or if Import returns something other than nil or a pointer to a struct.",
 ["inputs", "configurations"],
 "All Import objects of up to 2 (thorough 3) fields over an alphabet of field shapes (names in several cases and scripts, tags, embedding, field types) crossed with the kinds of exported values and all shapes of Import results.",
 "Six fixed Import objects are tested, all with ASCII names; combinations and neighbouring fields are not.",
 [PM], [("field loop", PM + " initDeps")], (), ["Import object contents at OnLoad", "load result", "Plugin.Deps"])

prop("C07", "Lifecycle phases run in order, once per new plugin, with barriers",
 "In every attempt each newly loaded plugin gets Reloadable, Export, Import, OnLoad and OnInit at most once each and in this order (exactly once if the attempt succeeds); no Import is called before all Exports, no OnLoad before all Imports, and no OnInit before all OnLoads have returned and the vault is filled. OnLoad receives the caller's data value. Kept plugins get none of these calls, and after the first failing call no further plugin function other than OnFree is started.",
 ["configurations", "fault_sequences", "histories"],
 "Every dependency shape on up to 3 plugins, every kept/rebuilt/new/removed mix and every fault position, in first loads and reloads, in dynamic and static mode.",
 "Tests look for selected log lines of three plugins; multiplicity, barriers across plugins and behaviour after the first failure are not asserted.",
 [PM, ST], [("phase sequence", PM + " loadPlugins"), ("phase sequence (static)", ST + " loadStaticPlugins")], (), ["call trace of plugin functions"])

prop("C08", "Reload keeps, replaces, adds and drops exactly the right plugins",
 "On a reload, a selected plugin whose running version is not reloadable, or whose file is byte-for-byte the one it was loaded from, is kept as the very same live instance; every other selected plugin is loaded afresh from its present file, and plugins whose file is gone are no longer part of the new manager. The returned details name every selected plugin exactly once, as \"not reloadable\", \"unchanged\" or \"ok\" respectively (a non-reloadable one as \"not reloadable\" even if its file is unchanged).",
 ["histories", "configurations"],
 "All sequences of bounded length of directory changes (each of up to 3 plugins: same, rebuilt reloadable, rebuilt non-reloadable, removed, re-added, touched without change) with successful and failed reloads in between.",
 "Tests cover one reload with one plugin of each kind; long histories (kept twice, changed during a failed reload, removed then rebuilt) are not covered.",
 [PM, SW], [("partition of the files", PM + " removeNotReloadable / removeUnchanged / addUnchanged"), ("details", SW + " loadPluginFiles")],
 [("FileSha1", "identity of the loaded file", PL), ("reloadable", "answer given by the running version", PL)], ["Details", "Plugins()", "FindPlugin()", "instance reached through InvokeFunc"])

prop("C09", "No manager ever mixes versions of a plugin and its dependencies",
 "In every manager that becomes current, each plugin is linked to exactly the dependency versions that are part of that same manager. A reload that would keep a plugin while replacing or dropping any of its dependencies fails, and so does loading a non-reloadable plugin that depends on a reloadable one.",
 ["histories", "configurations"],
 "All dependency shapes on up to 3 plugins, all reloadability assignments and all sequences of bounded length of kept/rebuilt/removed patterns, with dependencies that change between versions.",
 "Tests contain two fixed reload sequences over one graph; the interaction of 'kept', 'not reloadable' and changed dependencies is combinatorial.",
 [PM], [("rebuilt-dependency check", PM + " initDeps"), ("non-reloadable check", PM + " initDeps")], [("Deps", "dependencies recorded at load", PL)], ["Import object contents", "load result", "Plugins()"])

prop("C10", "The vault is complete, conflict-free, fresh and shared",
 "After every successful load the manager's LiveFuncs and LiveTypes are exactly the union of what its plugins provide, kept plugins included, and a live function or live type name provided by two of them makes the load fail. Every manager starts with an empty DataBag and an Extension obtained by one call of the extension creator. All OnInit calls of an attempt receive the vault of the manager under construction, already holding all live functions and types.",
 ["configurations", "histories"],
 "All assignments of up to 2 live function and type names (each plugin: none, own, shared with another plugin) to up to 3 plugins, over all kept/rebuilt/removed reload patterns.",
 "Two tests check one duplicate each in a first load; vaults after reloads that keep plugins are not compared.",
 [PM, "vault/vault.go"], [("union with duplicate detection", PM + " setupVault"), ("fresh vault", PM + " newPluginManager")], (), ["PluginManager.Vault", "vault passed to OnInit"])

prop("C11", "InvokeEach reaches every plugin once, whatever the others do",
 "InvokeEach and InvokeEachBackward call InvokeFunc of every plugin of the manager exactly once with the given name and parameters, for every subset of plugins that return errors or panic. They never panic or stop early themselves, and each error or panic is reported to the logger.",
 ["fault_sequences", "configurations"],
 "Every assignment of {ok, error, panic} to up to 4 plugins under all dependency shapes of 3, for managers with new, kept and statically linked plugins, with zero to two parameters.",
 "One test with two plugins that both fail the same way.",
 [PM], [("per-plugin recover", PM + " InvokeEach / InvokeEachBackward")], (), ["InvokeFunc calls", "logger"])

prop("C12", "No plugin or callback panic escapes or jams the swapper",
 "A panic raised by any plugin function that the swapper calls itself (Reloadable, Export, Import, OnLoad, OnInit, the live registries, OnFree during a failed attempt or during a delayed free) or by a reload callback never propagates to the caller and never kills the process: a load or reload attempt turns it into a returned error that carries the panic value. Afterwards the swapper still works: the next correct reload succeeds and delayed frees of the other plugins still take place.",
 ["fault_sequences"],
 "Every single panic and every pair of panics at distinct plugin functions (including OnFree) and callbacks over 3 plugins with each chain/independent dependency shape, in first loads, reloads and delayed frees, with several kinds of panic values.",
 "Each test provokes one kind of panic once, never two together and never in the delayed free.",
 [PM, SW, PL, ST], [("recover wrappers", PL + " invokeExport/Import/Reloadable"), ("recover in phases", PM), ("recover in callbacks", SW)], (), ["error values", "process survival", "next Reload"])

prop("C13", "Exactly the intended plugin files are loaded, under unambiguous names",
 "A load selects exactly the regular files directly inside the plugin directory whose names end in .so and, if a whitelist is set, whose base names are in it; it fails without loading anything if the directory is unusable, a whitelisted plugin has no file, or two selected plugins' names differ only in letter case. Every loaded plugin is found by FindPlugin under any letter case and no other name is found. If nothing is selected the call succeeds with no details and changes nothing.",
 ["inputs", "configurations"],
 "All directories made of up to 6 entries from an alphabet of names (case variants, other suffixes, hidden, sub-directories named like plugins) crossed with all whitelists of up to 2 (thorough 3) names, repetitions included, in dynamic and, for whitelist and names, static mode.",
 "The tests never use a whitelist and use one list of colliding names.",
 [SW, PM, ST], [("directory scan + whitelist", SW + " loadPluginsImpl"), ("duplicate names", PM + " loadPlugins"), ("static whitelist", ST + " loadStaticPlugins")], (), ["LoadPlugins result", "Plugins()", "FindPlugin()", "opened files"])

prop("C14", "Reload callbacks and the reload counter are exact",
 "Every attempt whose plugins initialised successfully calls the configured reload callback and then the callback given for this call, each exactly once, with the new manager and the manager that is current at that time (nil before the first load), before the new manager becomes current; if one fails or panics the later one is not called and the attempt fails. A callback given for one reload is never called for another. The reload counter equals the number of Reload and ReloadWithCallback calls that returned without error (LoadPlugins does not count), also when calls overlap.",
 ["histories", "schedules", "configurations"],
 "All sequences of up to 4 calls of LoadPlugins / Reload / ReloadWithCallback with every outcome assignment of both callbacks, with and without a configured callback; and all bounded interleavings of two overlapping calls.",
 "One fixed sequence of five calls, single-threaded, never looks at the counter or at the manager arguments.",
 [SW], [("callback list", SW + " ReloadWithCallback / invokeReloadCallbacks"), ("counter", SW + " ReloadWithCallback")], [("reloadCounter", "successful reloads", SW)], ["callback arguments", "ReloadCounter()", "Current()"])

prop("C15", "Statically linked plugins behave like dynamically loaded ones",
 "Loading a set of plugins through static linking has the same observable outcome as a first load of the same plugins from files: the same success or failure, the same plugin function calls in the same phases and dependency order, the same dependency injection, vault, error containment and freeing after failure, with every plugin reported as \"ok\". In static mode Reload and ReloadWithCallback return an error without calling anything or changing the current manager or the counter, and StaticLinkingMode() reports the mode.",
 ["configurations", "fault_sequences"],
 "The cross product of dependency shapes on up to 3 plugins, reloadability, export kinds, live names and every single fault, each executed in both modes and compared.",
 "One test loads three plugins statically and checks names and vault sizes; nothing compares the two modes.",
 [ST, PM, SW], [("static load path", ST + " loadStaticPlugins"), ("mode check", SW + " ReloadWithCallback")], [("staticPlugins", "static mode switch", SW)], ["same as for dynamic loads, compared pairwise"])

prop("C16", "Symbol lookup assigns the right thing or fails without side effects",
 "Plugin.Lookup assigns to *out the plugin's exported function or variable of that name - for a variable either its address or, if out points to a value of the variable's type, its present value - and returns nil exactly when such an assignment is type-correct. Otherwise it returns an error, which is ErrNotExist exactly when the arguments are valid and the symbol does not exist, and leaves *out unchanged. It never panics, and neither earlier nor simultaneous lookups, in the same or in other plugins and versions, have any influence.",
 ["inputs"],
 "The full product of symbol kinds (functions of several signatures, variables of basic, struct, pointer, interface, func and nil kinds, missing, empty name) and out arguments (nil, typed nil, non-pointers, pointers to each of these types, to named types and to interfaces).",
 "The test tries ten combinations.",
 [PL], [("Lookup", PL + " Lookup")], (), ["Lookup result", "*out"])

prop("C17", "Loaded code is a private snapshot of the file that was read",
 "The code of a plugin version is exactly the content its file had when the attempt read it, and the recorded checksum is that content's: overwriting, truncating or deleting the file in the plugin directory at any time during or after the load affects neither the loaded version nor its recorded identity, and the next reload compares the file with what was really loaded. A file once opened as a plugin is never written, truncated or opened for another version again, so versions live side by side in isolation.",
 ["schedules", "histories"],
 "A writer goroutine replacing, truncating or deleting plugin files interleaved at every file, callback and plugin-open point of loads and reloads (bounded preemptions), and all short histories including several loads within one clock second and returning to earlier contents.",
 "Tests only rebuild files between loads and at least a second apart; nothing checks what was opened against what was read.",
 [PM], [("copy before open", PM + " copyPlugin"), ("checksum of the bytes read", PM + " fileInfoMap.add")], [("dirName", "per-manager copy directory", PM)], ["content of opened files", "FileSha1", "Details"])

prop("C18", "A plugin build compiles a faithful private copy of the sources",
 "Building a plugin works on a temporary copy made of exactly the plugin's non-test, non-generated .go files plus the files matched by --include and not by --exclude, in the same layout; the root package becomes main, imports of the plugin's own packages are redirected to the copy, and apart from that every file is byte-identical to its source. Every build uses a fresh copy path, so two builds never share a package path. The plugin's source directory is left untouched.",
 ["programs", "inputs"],
 "All source trees assembled from an alphabet of files and directory positions and of Go source fragments (import styles, package clauses, comments, string and raw-string literals that resemble import paths or package clauses) with all include/exclude combinations of a small set; compared with a reference transformation based on go/parser.",
 "The tests build a fixed set of well-behaved plugins and never look at the copy.",
 [BUILD], [("file selection", BUILD + " collectFiles"), ("rewriting", BUILD + " copyFiles"), ("copy path", BUILD + " execute")], (), ["temporary directory with --goBuild=false", "source directory"])

prop("C19", "Exactly the live functions and types are registered, in both build modes",
 "The code generated for a plugin registers exactly the top-level functions (not methods) and struct types, in all packages of the plugin, whose names start with the live prefix in any letter case, each under its own name; a live type's factory returns a pointer to a new zero value of that type. A live name declared twice in the plugin, or a live type that is not a struct, makes the build fail. Plugin builds and static-linking builds of the same source register the same set.",
 ["programs", "configurations"],
 "All plugin source trees assembled from an alphabet of declarations (functions, methods, struct and non-struct types, grouped declarations, constants, look-alike names, test files) placed in the root, sub- and nested packages, singly and in pairs, with default and custom prefixes, in both modes.",
 "Tests check the registry of one plugin.",
 [BUILD, "cli/hotswap/cmd/hotswapLive.tpl", "cli/hotswap/cmd/hotswapMain.tpl", "cli/hotswap/cmd/hotswapBureau.tpl"], [("declaration scan", BUILD + " completePlugin"), ("templates", "cli/hotswap/cmd/*.tpl")], (), ["generated files", "exit status"])

prop("C20", "Static-link generation is idempotent, isolated per plugin and cleanable",
 "After any sequence of static-linking generations and cleans of several plugins sharing one output directory, the generated files are those of exactly the plugins generated and not cleaned since, each identical to what generating that plugin alone produces; hand-written files are never created, changed or removed. Generating the same plugin twice changes nothing, and the init file of a plugin registers it under its directory name with each required function in its proper place.",
 ["histories", "programs"],
 "All reachable file-system states under generate/clean of 2-3 plugins (explicit-state search with the real command as transition function) including stale generated files and hand-written look-alikes.",
 "Plain testAll.sh loses the earlier plugins' files and then silently skips the only static test; sequences are never examined.",
 [BUILD, "cli/hotswap/cmd/hotswapStaticPluginInit.tpl", "cli/hotswap/cmd/hotswapStaticPlugins.tpl"], [("removal of stale files", BUILD + " removeStaticFiles"), ("init file", BUILD + " genHotswapStaticPluginInit")], (), ["files in plugin and output directories"])

prop("C21", "Builds clean up after success, failure and interruption at any point",
 "A plugin build that succeeds, fails at any step, or receives SIGINT or SIGTERM at any step leaves no temporary directory behind (unless asked to keep it), does not touch the plugin's sources, and exits with status 0 only if the plugin file was really built. With --leaveTemps or --goBuild=false the complete temporary copy is kept.",
 ["crash_points", "fault_sequences"],
 "Every file-system and sub-process operation of a build as the point where the operation fails or where SIGINT/SIGTERM is delivered and handled before the build continues.",
 "No test interrupts a build or makes an intermediate step fail.",
 [BUILD], [("signal goroutine and deferred clean-up", BUILD + " execute"), ("removal", BUILD + " removeTmpDir")], (), ["file system after exit", "exit status"])

prop("C22", "Plugins lacking any required function are rejected, naming what is missing",
 "For every proper subset of the required functions, loading a plugin that provides only that subset fails before any of its functions is called and the error names exactly the missing functions, in dynamic and in static mode; a required function of the wrong type is rejected too. The build command likewise refuses sources lacking any of the seven user-written functions, naming exactly the missing ones and producing nothing (methods, test files and sub-packages do not count).",
 ["inputs", "programs"],
 "All 2^9 subsets of the runtime functions in both modes, every single wrong-typed function, and all 2^7 subsets of the user-written functions for the build command.",
 "The tests use two plugins with fixed sets of missing functions.",
 [PM, ST, BUILD], [("symbol check", PM + " loadPlugin"), ("static check", ST + " loadStaticPlugin"), ("source check", BUILD + " parseRequiredPluginFuncs")], (), ["error text", "calls", "exit status"])

prop("C23", "Overlapping loads and reloads are serialised and never deadlock",
 "However many LoadPlugins, Reload and ReloadWithCallback calls overlap, they take effect one after another: plugin functions and callbacks of two attempts never interleave, each attempt keeps and retires plugins of the manager left by the previous successful attempt, and no attempt's result is lost. All calls return as long as plugin functions and callbacks return, also after failures and panics, and none of this involves a data race.",
 ["schedules"],
 "Every interleaving up to a preemption bound of two (thorough three) overlapping calls with every outcome assignment, a reader and delayed frees; data-race freedom additionally by a race-detector run of the same harness bodies.",
 "No test runs two calls concurrently.",
 [SW, PM], [("mutex around an attempt", SW + " LoadPlugins / ReloadWithCallback")], [("mu", "serialises attempts", SW)], ["call trace", "Current()", "Details"])

prop("C24", "Managers and details describe their plugins truthfully",
 "In every manager that becomes current each plugin carries the name and path of the file it was loaded from, the checksum of that file's content, the time of the attempt that loaded it and exactly the names of its direct dependencies. A kept plugin keeps all of these and carries the reason it was kept as its note, the same reason its entry in the details gives; a freshly loaded one carries no such reason. The descriptions in managers obtained earlier never change, whatever happens afterwards, and the printed form of the details names every selected plugin exactly once with its outcome.",
 ["histories", "configurations"],
 "All directory contents, dependency graphs and short histories of loads and reloads of the other suites; after every successful attempt every plugin of the new manager is compared with the reference model, and every manager obtained earlier with the copy taken when it became current.",
 "Tests never look at Name, File, When, Deps or Note after a reload, nor at managers that have been replaced.",
 [PM, SW], [("filling in the description", PM + " loadPlugin / loadPlugins"), ("sharing plugins between managers", PM + " loadPlugins"), ("printing", SW + " Details.String")], (), ["PluginManager.Plugins / FindPlugin", "Plugin fields", "Details.String"])

prop("C25", "A build invocation is carried out exactly as given or refused without effect",
 "An invocation of the build command that can be carried out, however its directories are spelled (relative, absolute, '.', trailing slash, detours) and from whichever directory it is started, compiles exactly the named plugin once, as a plugin with trimmed paths, from its private copy and in module mode, hands everything behind -- unchanged and in order to the compiler, writes <outputDir>/<name of the plugin's directory>.so and no other file, creating the output directory if need be, and prints that path; --goBuild=false compiles nothing, and --staticLinking generates the same files however the directories are spelled. An invocation that cannot be carried out (missing, superfluous or unusable directories, no module or repository, missing tools, contradictory, unknown or malformed flags, a static output directory equal to or inside the plugin) exits with a non-zero status and a message, compiles nothing and changes no file.",
 ["inputs", "configurations"],
 "The product of directory spellings, output directories, flag sets, build-flag lists and flag positions, with and without an earlier plugin file, and a catalogue of invocations to be refused, each run through the real command with a recording compiler.",
 "Tests invoke the command with one spelling and no build flags, and never with wrong arguments.",
 [BUILD, "cli/hotswap/hotswap.go", "internal/hutils/hutils.go"], [("argument checks", BUILD + " execute"), ("compiler invocation", BUILD + " buildPlugin"), ("arguments behind --", "cli/hotswap/hotswap.go main")], (), ["exit status", "stdout", "arguments of go build", "file system"])

prop("C26", "Several swappers in one process are independent",
 "Any number of swappers may live in one process, also with plugins of the same names, with live functions of the same names, or on one plugin directory with disjoint whitelists. Each behaves exactly as it would alone: which plugins it loads, keeps and frees and when, its free delay, links, vault, extension, callbacks, counter and details are never influenced by what another swapper does or fails to do, in whichever order the operations come. A swapper may be loaded or reloaded from within any plugin function, callback or delayed free of another one without blocking either, and using several concurrently involves no data race.",
 ["histories", "schedules", "inputs"],
 "Every interleaving of operations of two swappers up to a depth, every operation of one nested in every plugin function and callback of the other, and every schedule of concurrent operations under the race detector; package-level state can leak in any of them.",
 "Tests only ever use one swapper at a time.",
 [SW, PM, ST], [("the state of a swapper", SW + " PluginManagerSwapper"), ("names of temporary directories", PM + " newPluginManager"), ("delayed frees", SW + " loadPluginFiles")], (), ["PluginManagerSwapper methods", "plugin functions called"])

prop("C27", "Loading leaves everybody else's files alone",
 "Loading and reloading only ever read the plugin files and create private copies of their own. Whether an attempt succeeds, fails, panics or is cut short by a failing file operation, and whenever delayed frees run, every file and directory that was there before and is not one of this swapper's own private copies stays exactly as it was, with its content, name, permissions and (files) modification time: the plugin files themselves (also unloadable, duplicate, incomplete, kept and retired ones), files and directories beside, below and above the plugin directory, and whatever else is in the directory that holds the private copies, including the copies of other processes that share the plugin directory, even if those bear the very names this process is about to use.",
 ["histories", "fault_sequences", "inputs"],
 "Every word of operations up to a depth in directories surrounded by files of others, every set of failing file operations in an attempt, and another process creating any of the paths an attempt is about to create a moment earlier.",
 "Tests load from directories of their own and never look at what else is in them, nor at several processes sharing one.",
 [PM, SW], [("private copies", PM + " copyPlugin"), ("selection of files", SW + " loadPluginsImpl")], (), ["file system"])

prop("C28", "Years of reloading leave nothing behind in the process",
 "What a process holds does not grow with the number of loads, reloads, failures and panics it has seen, apart from the code of the plugins and their private copies on disk. Once attempts have returned and the delayed frees they started have run, no goroutines pile up, no file is left open, no process-wide setting (working directory, environment, umask) has changed; managers that are not current any more and managers of failed attempts, their vaults and extensions, and the data and callbacks given to earlier attempts do not pile up in memory unless the user keeps them, and the swapper itself does not grow.",
 ["histories", "fault_sequences"],
 "Every word of successful, failing, panicking and empty reloads up to a depth, repeated with the delayed frees in between or at the end; after each, goroutines, open files, process-wide settings, what survives garbage collection and what is reachable from the swapper are compared with what they were.",
 "Tests reload a handful of times and never look at what remains.",
 [SW, PM, ST], [("delayed frees", SW + " loadPluginFiles"), ("state of a swapper", SW + " PluginManagerSwapper"), ("private copies", PM + " copyPlugin")], (), ["goroutines", "/proc/self/fd", "weak pointers after garbage collection", "reachable objects"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
