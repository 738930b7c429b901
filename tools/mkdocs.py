#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.
A property is claimed if it is in CLAIMED, otherwise it is listed under
not_applicable with the reason given."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "expreduce/"
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), na=None, technique=None, note=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=list(observe), state=list(state), na=na, technique=technique, note=note)

P = []
P.append(p("C01", "Sessions in one process do not influence one another",
 "Every answer and every line of output a session gives is the same whether it is alone in the process or other sessions are created, evaluated, reset or fail beside it in any interleaving.",
 ["schedules", "programs", "histories"], "all programs of any number of sessions and all interleavings of their steps, including the creation and resetting of sessions while others evaluate",
 "The tests use one session at a time; the quantifier is over interleavings of several sessions and over what happened in the process before.",
 [E+"evalstate.go", E+"easyrun.go", E+"definition_map.go", E+"streammanager/streammanager.go", E+"logging/caslogger.go"],
 [("all state of a session hangs off its evaluation state", E+"evalstate.go: EvalState")],
 ["results of inputs", "standard output and standard error"]))
P.append(p("C02", "Sessions share no memory without synchronisation",
 "When sessions of one process evaluate at the same time, no two of them ever access the same memory without synchronisation where one of the accesses is a write.",
 ["schedules", "programs"], "all pairs of programs in different sessions and all schedules, including session creation, debug logging and drawing of random numbers",
 "A test that happens not to overlap two sessions, or runs without a race detector, cannot see unsynchronised access; the repository's tests never run two sessions at once.",
 [E+"evalstate.go", E+"atoms/ex_symbol.go", E+"logging/caslogger.go", E+"builtin_random.go", E+"builtin_number_theory.go"],
 [("session-private state; atomic caches for the few shared symbols", E+"evalstate.go, "+E+"atoms/ex_symbol.go")],
 ["happens-before race detector over the simulated schedule"]))
P.append(p("C03", "ParallelTable gives what Table gives, under every schedule",
 "A parallel table of elements that do not depend on one another gives, under every schedule of their evaluation, exactly the result of the sequential table: every element, in order, with the iteration variables' values of its position, and with the values sown by the elements in order. Exceptions thrown by elements reach the enclosing catch as in the sequential table, and the evaluation always ends.",
 ["schedules", "programs"], "all element expressions without shared assignments (definitions, scoping constructs, loops, iterations, recursion, nested parallel tables, throws, sown values, reading of shared definitions), all iteration specifications and all schedules of the element evaluations",
 "The tests evaluate two tiny parallel tables under whatever schedule the Go runtime picks; a wrong interleaving is not reached and would not repeat.",
 [E+"builtin_list.go", E+"evalstate.go", E+"definition_map.go", E+"iterspec/iterspec.go"],
 [("elements are evaluated on forks of the session and joined in order", E+"builtin_list.go: ParallelTable; "+E+"evalstate.go: Fork, Join")],
 ["the value of the parallel table", "variables and definitions of the session afterwards"]))
P.append(p("C04", "Definitions made by concurrent evaluations are never lost",
 "Of the definitions, attributes and new names that concurrently evaluated elements of a parallel table make in the session, none is lost, duplicated or damaged: afterwards each of them has the value some element gave it last and everything the elements did not touch is as before. (A statement that reads and then assigns, such as incrementing a shared counter or adding to a shared list or set of attributes, is two steps; what it assigns is still never lost or damaged by assignments to anything else.)",
 ["schedules", "programs"], "all schedules of the elements of a parallel table whose elements assign values, memoise, add rules, set attributes and clear definitions of shared and of separate symbols",
 "Lost updates need two elements to interleave inside a read-modify-write of one definition; the tests never assign from concurrent elements.",
 [E+"evalstate.go", E+"definition_map.go"],
 [("definitions are replaced under a lock, copy on write", E+"evalstate.go: Define, Clear, defineAttrs"), ("concurrent definition map", E+"definition_map.go")],
 ["values, rule lists and attributes after the parallel table"]))
P.append(p("C05", "Results do not depend on map order, clock, address or schedule",
 "The same inputs given to a new session give the same results and output in every execution, whatever the iteration order of hash tables, the time and speed of the clock, and the schedule of the session's own helper threads.",
 ["programs", "schedules", "configurations"], "all programs that do not ask for the time or for unseeded random numbers, all hash table iteration orders, clock epochs and rates, and schedules",
 "A test compares one execution with one expectation; dependence on map order shows only in some executions and is not repeatable there.",
 [E+"eval.go", E+"matcher/matchq.go", E+"matcher/pdmanager.go", E+"atoms/order.go", E+"builtin_list.go"],
 [("sorted iteration wherever order can be observed", E+"builtin_system.go: Names; "+E+"matcher: PDManager")],
 ["results and output of all inputs under different simulated environments"]))
P.append(p("C06", "Seeded random numbers repeat exactly and stay in range",
 "After seeding its generator a session draws the same sequence whenever the seed is the same, whatever other sessions draw or seed in between, whatever else the session evaluates between draws, and whatever the clock shows. Every number drawn lies in the requested range, and sessions that were not seeded and were started in different seconds draw different sequences.",
 ["schedules", "histories", "inputs"], "all interleavings of sessions that seed and draw, all seeds and ranges",
 "The tests draw from one session with nothing else running; sharing of the generator shows only when draws of several sessions interleave.",
 [E+"builtin_random.go", E+"evalstate.go"],
 [("a generator for every session", E+"evalstate.go: Init, GetRandom")],
 ["values drawn"]))
P.append(p("C07", "An interrupt ends any evaluation promptly with $Aborted",
 "When an interrupt arrives while an input is evaluated, the evaluation ends with $Aborted as its result within a bounded number of further evaluation steps, however deeply it is nested in loops, iterations, recursion, replacements, functional operations, pauses, files being read or parallel tables.",
 ["schedules", "programs", "fault_sequences"], "all programs built from evaluation constructs, all points of the evaluation at which the interrupt can arrive",
 "No test delivers an interrupt at all; which construct ignores it depends on the exact point of delivery.",
 [E+"eval.go", E+"builtin_flowcontrol.go", E+"builtin_list.go", E+"builtin_functional.go", E+"builtin_time.go", E+"evalstate.go"],
 [("interrupt flag tested in the evaluation loop and in every loop of built-in functions", E+"eval.go: evalExpression")],
 ["number of steps from the interrupt to the answer", "the answer"]))
P.append(p("C08", "A session stays intact and usable after an interrupt",
 "After an interrupt at any point of an evaluation, the next input is evaluated normally, the assignments made are exactly those of a prefix of the interrupted computation, no variable or definition holds an aborted or half-made value, and no later input is affected by the interrupt.",
 ["schedules", "programs", "fault_sequences"], "all programs of assignments, definitions, list updates, loops, counters and scoping constructs, and all points at which one or several interrupts arrive",
 "No test delivers an interrupt; damage needs the interrupt to fall between particular steps.",
 [E+"eval.go", E+"evalstate.go", E+"builtin_flowcontrol.go", E+"iterspec/iterspec.go", E+"builtin_system.go"],
 [("an interrupted argument ends the evaluation before the function sees it", E+"eval.go: evalExpression"), ("the flag is cleared with the top-level input", E+"evalstate.go: ProcessTopLevelResult")],
 ["values of variables after the interrupt", "results of later inputs"]))
P.append(p("C09", "Iteration and local variables are restored however a scope is left",
 "Whenever a table, sum, product, loop or module ends - normally, by a return, a break, an exception thrown at any depth or an interrupt at any point - every variable it iterated over or made local has the value, rules and attributes it had before, and local values were never visible outside.",
 ["programs", "schedules", "fault_sequences"], "all nestings of scoping constructs, all ways and points of leaving them",
 "Tests leave scopes normally; the combination of nesting, exit kind and exit point is unbounded.",
 [E+"iterspec/iterspec.go", E+"iterspec/iterspec.go", E+"builtin_list.go", E+"builtin_flowcontrol.go", E+"builtin_system.go"],
 [("snapshot and restoration of the variables' definitions", E+"iterspec: TakeVarSnapshot, RestoreVarSnapshot")],
 ["definition and value of the variables before and after"]))
P.append(p("C10", "Throw unwinds to the nearest Catch and never past its input",
 "A thrown value ends all evaluation up to the nearest enclosing catch, which returns it, with no side effect of the code in between; code after the throw does not run. An exception nobody catches is reported and has no influence on any later input or on any other session.",
 ["programs", "histories", "schedules"], "all programs nesting throws and catches in all evaluation constructs, sequences of inputs, and interleavings with other sessions and interrupts",
 "Tests have a handful of fixed programs; the property is over all nestings and over what the session does in later inputs.",
 [E+"eval.go", E+"builtin_system.go", E+"evalstate.go", E+"builtin_flowcontrol.go", E+"builtin_functional.go"],
 [("pending exception checked after every evaluated argument", E+"eval.go: evalExpression"), ("cleared at top level", E+"evalstate.go: ProcessTopLevelResult")],
 ["result and order of side effects, against a reference interpreter"]))
P.append(p("C11", "The history of inputs and outputs is complete and consistent",
 "The session's line counter advances by exactly one with every input given at top level, whatever its outcome; the n-th output recalled is the n-th result, the n-th input recalled re-evaluates what was entered, and this holds for inputs that print, throw, are interrupted at any point, or contain errors.",
 ["histories", "schedules", "fault_sequences"], "all sequences of inputs, with interrupts at any point including while the result is being recorded",
 "Tests never interrupt and check histories of two or three inputs.",
 [E+"evalstate.go", "expreduce.go", E+"resources/init.m", E+"parser/interp.go"],
 [("recording of inputs and outputs", E+"evalstate.go: ProcessTopLevelResult")],
 ["$Line, In, Out, % and %%"]))
P.append(p("C12", "Saving and loading definitions reproduces them exactly",
 "Definitions saved to a file and loaded into the same or a new session behave exactly as the saved ones: values of every kind, rules with their order, conditions and defaults, attributes and memoised values, independent of what the receiving session defined before and of how the operating system splits the reads and writes.",
 ["inputs", "histories", "fault_sequences"], "all definable values and rules, all splits of file operations into short reads and writes and interrupted calls",
 "The tests never save or load a definitions file.",
 [E+"builtin_system.go", E+"atoms/gob.go"],
 [("encoding of definitions, compressed with a checksum", E+"builtin_system.go: Save, Get")],
 ["behaviour of the loaded definitions"]))
P.append(p("C13", "A crash while saving leaves the old or the new file, and success is durable",
 "If the process or machine stops at any point while definitions are being saved over an existing file, loading the file afterwards gives completely the old or completely the new definitions. Once saving has answered success, the new definitions survive a power failure.",
 ["crash_points", "fault_sequences"], "all points between and inside the file operations of saving, and all states of the disk that a power failure can leave behind, given what was synced",
 "No test writes a file, let alone crashes while doing so.",
 [E+"builtin_system.go"],
 [("write to a temporary file, sync, rename, sync the directory", E+"builtin_system.go: replaceFile")],
 ["disk contents after the simulated crash, loaded by a new session"]))
P.append(p("C14", "File errors are reported and never half-applied",
 "When any file operation of saving or loading definitions fails, or a definitions file is truncated or damaged anywhere behind the mark by which it is recognised, the operation answers $Failed instead of ending the process, an existing file keeps its contents, no temporary file is left behind, and the session's definitions are unchanged. (If only the final sync of the directory fails, the new contents may already be in place; a file whose mark is damaged is read as a script.) An operation that answers success did all of its work.",
 ["fault_sequences", "inputs"], "all sequences of failing, short and interrupted file operations; all truncations and byte corruptions of the file",
 "No test makes a file operation fail or loads a damaged file.",
 [E+"builtin_system.go"],
 [("error handling of the file functions", E+"builtin_system.go: Save, Get, replaceFile, tryReadFile")],
 ["answers, disk contents, definitions"]))
P.append(p("C15", "Reading a script evaluates a prefix of its statements, in order, exactly once",
 "Reading a source file evaluates its statements one after the other, each exactly once, and stops at the first one that is incomplete or malformed, reporting a syntax error: a file cut off or damaged at any point never has an effect beyond the statements in front of the damage, never ends the process and never hangs. A file that cannot be read completely is reported as failed and evaluates nothing.",
 ["inputs", "crash_points", "fault_sequences"], "all scripts, all truncation points and damaged bytes, all read errors and short reads",
 "Tests read no damaged scripts; the quantifier is over every cut point and every split of the reads.",
 [E+"easyrun.go", E+"parser/interp.go", E+"builtin_system.go"],
 [("statement-wise parsing and evaluation", E+"easyrun.go: EvalInterpMany, ReadList")],
 ["effects of the statements", "messages"]))
P.append(p("C16", "Printed output appears completely, in order, on the right stream",
 "Everything a session prints or writes to its standard streams appears exactly once, in the order of evaluation and on the stream named, also when the operating system takes it in pieces or interrupts the call. A write the operating system refuses is reported to the program as $Failed and nothing else is affected.",
 ["fault_sequences", "schedules", "programs"], "all sequences of print and write operations, all failing, short and interrupted writes, interleaved with other sessions",
 "Tests do not look at what is printed and never make a write fail.",
 [E+"streammanager/streammanager.go", E+"builtin_system.go"],
 [("stream registry and write-through", E+"streammanager/streammanager.go: WriteString")],
 ["bytes arriving on the streams, answers of the write functions"]))
P.append(p("C17", "Clock functions follow the right clock",
 "The current time reported is that of the wall clock at a moment of the evaluation; measured durations are the time that really elapsed and pauses last at least and hardly more than the requested time, whatever jumps the wall clock makes meanwhile and whatever other sessions do.",
 ["fault_sequences", "schedules", "inputs"], "all clock epochs, rates and jumps forward and backward at any point; all durations; all schedules of other sessions",
 "Tests run with the machine's clock, which does not jump while they run.",
 [E+"builtin_time.go", E+"builtin_system.go"],
 [("monotonic clock for durations", E+"builtin_time.go: Pause; "+E+"builtin_system.go: Timing")],
 ["reported times against the simulated clocks"]))
P.append(p("C18", "Profiling counts every evaluation exactly once",
 "The profiling tables count every recorded evaluation exactly once and their times add up to what was recorded, also when concurrent evaluations record at the same time, when tables are merged, and when the wall clock jumps; they list the entries in decreasing order of time and are the same in every execution.",
 ["schedules", "programs", "fault_sequences"], "all sequences and interleavings of recordings, merges and printings; all clock jumps",
 "Tests do not read the profiling tables and never record concurrently.",
 [E+"timecounter/timecounter.go", E+"eval.go", E+"evalstate.go"],
 [("locked counter groups", E+"timecounter/timecounter.go: Group")],
 ["the printed tables, against a model"]))
P.append(p("C19", "Generated names are always new",
 "A name made up for a local variable or asked for as a unique symbol is never one that exists in the session already, was generated before or is generated by a concurrent evaluation, whatever names the user has introduced and however the name counter was set.",
 ["schedules", "histories", "programs"], "all histories of introduced and generated names, settings of the counter, and interleavings of elements of parallel tables that generate names",
 "Tests generate one name at a time and never introduce a colliding one.",
 [E+"builtin_system.go", E+"evalstate.go"],
 [("claiming a name is atomic", E+"evalstate.go: ClaimName; "+E+"builtin_system.go: snagUnique")],
 ["names generated"]))
P.append(p("C20", "A reset session is indistinguishable from a new one",
 "After a session is reset, whatever was evaluated before - including changes to built-in symbols, attributes, contexts and counters, pending exceptions and interrupted evaluations - every input gives exactly the answer and output it gives in a new session. (Whether debug logging is on is not part of what is reset, the random number generator is seeded anew, and an interrupt during the reset itself is not covered.)",
 ["histories", "fault_sequences"], "all programs evaluated and interrupts delivered before the reset, all programs after it",
 "Tests reset between groups of examples but compare nothing with a new session.",
 [E+"evalstate.go"],
 [("initialisation from scratch", E+"evalstate.go: ClearAll, Init")],
 ["answers and output after the reset"]))
P.append(p("C21", "Debug logging of one session leaves the others' as it is",
 "Switching debug logging or its level in one session changes neither what other sessions log nor what any session computes; a session logs the messages of its level and no others, whenever other sessions are created or switched.",
 ["schedules", "histories"], "all interleavings of sessions that switch logging, evaluate and are created",
 "Tests do not switch logging and run one session.",
 [E+"logging/caslogger.go", E+"builtin_system.go"],
 [("a logging backend for every session", E+"logging/caslogger.go: SetUpLogging")],
 ["log lines by session"]))
P.append(p("C23", "Evaluating does not change what has been stored",
 "Using a stored value, definition, delayed right-hand side, held expression or earlier result in any evaluation does not change it: as long as it is not assigned to, it keeps its form, and evaluating a definition, a delayed right-hand side or a held expression again always uses the present values of the variables in it. A part extracted from or replaced in a copy leaves the original as it was.",
 ["programs", "histories", "schedules"], "all programs that store expressions, share them between variables and use them in evaluations, list operations, replacements, iterations and concurrent elements",
 "The tests evaluate each stored expression once; aliasing shows only when it is used again after something else has changed.",
 [E+"eval.go", E+"evalstate.go", E+"replace.go", E+"matcher/pdreplace.go", E+"builtin_list.go"],
 [("the evaluator works on a copy", E+"eval.go: evalExpression")],
 ["stored expressions before and after use, against a reference model"]))
P.append(p("C24", "Pattern match enumerations are independent of one another",
 "Enumerating the matches of a pattern yields the same matches in the same order, each exactly once and none missing, however the enumeration is interleaved with other enumerations over the same or other expressions, with evaluations, and with concurrent enumerations in other threads.",
 ["schedules", "inputs"], "all expressions and patterns (sequences, orderless and flat operators, alternatives, repeated and optional parts), all interleavings of the steps of several enumerations",
 "Tests drain one enumeration at a time.",
 [E+"matcher/matchq.go", E+"matcher/allocations.go", E+"matcher/blank.go", E+"matcher/pdmanager.go"],
 [("iterators own their state", E+"matcher/matchq.go: NewMatchIter")],
 ["matches produced, against brute-force counts and solo enumeration"]))
P.append(p("C25", "Iteration specifications enumerate exactly their points",
 "An iteration over one or several variables visits exactly the points its bounds, steps and lists describe, in lexicographic order, and gives every variable back the value it had before, however it is nested in or interleaved with other iterations over the same variables, and whether or not the body assigns them. Iterations run by concurrent evaluations visit the same points, and one that an interrupt or exception cuts short has visited the first of them and no others. The variables of a parallel table are replaced in its body like a function's parameters, so its body does not reuse their names for other purposes.",
 ["inputs", "schedules"], "all numeric bounds and steps of either sign (integers, rationals, reals), lists, numbers of variables, nestings and interleavings, points of interruption",
 "Tests sample a few specifications one at a time.",
 [E+"iterspec/iterspec.go", E+"iterspec/iterspec.go", E+"builtin_list.go"],
 [("iteration state in the iterator", E+"iterspec")],
 ["points visited, against a reference model"]))
P.append(p("C26", "The read-eval-print loop answers every line, however input arrives",
 "The interactive loop answers every line exactly once and in order, numbered consecutively, and the transcript depends only on the text, not on how it is split into reads or interrupted; the last line counts even without a newline. Errors, uncaught exceptions and interrupts in one line, an initialisation file or a script do not affect the following lines.",
 ["schedules", "fault_sequences", "histories"], "all texts entered, all splits of the input into reads, interrupted reads, end of input at any byte, interrupts at any point",
 "No test runs the interactive loop.",
 ["expreduce.go", E+"evalstate.go", E+"easyrun.go"],
 [("reading loop", "expreduce.go: interactiveSession, scriptSession")],
 ["the transcript on standard output"]))
NA = [
 ("N01", "Pattern matching finds a match exactly if one exists", "For every expression and pattern, matching succeeds exactly if the pattern language's meaning admits a match, with the bindings it prescribes.", ["inputs"], [E+"matcher/matchq.go"], "a pure function of expression and pattern: there is no schedule, clock, fault or crash it could depend on (how enumerations interleave is C24)"),
 ("N02", "Arithmetic on exact numbers is exact", "Sums, products and powers of integers and rationals are exact and in lowest terms for every operand size.", ["inputs"], [E+"builtin_arithmetic.go", E+"atoms/ex_rational.go"], "a pure function of its operands without time, I/O or concurrency"),
 ("N03", "Canonical ordering is a total order", "The canonical order of expressions is total, antisymmetric and transitive, so that sorting and orderless operators give one normal form.", ["inputs"], [E+"atoms/order.go"], "a pure function of two expressions; independence of map order and schedule is C05"),
 ("N04", "Printing and parsing are inverse", "Parsing the full form printed for any expression gives the expression back.", ["inputs"], [E+"parser/interp.go", E+"atoms"], "a pure function of the expression without time, I/O or concurrency"),
 ("N05", "Symbolic calculus and algebra are sound", "Derivatives, integrals, expansions, factorisations, simplifications and solutions are mathematically equal to what was asked for.", ["inputs"], [E+"resources/calculus.m", E+"resources/simplify.m", E+"resources/solve.m"], "a mathematical relation between input and output; simulation of schedules and faults adds nothing to evaluating inputs"),
 ("N06", "Equal expressions have equal hashes", "Structurally identical expressions have the same hash and caches of it are never stale.", ["inputs"], [E+"atoms"], "a pure function of the expression (stale caches through shared evaluation are covered by C23)"),
]
CLAIMED = set(open(os.path.join(V, "tools", "claimed.txt")).read().split())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        o = {"id": q["id"], "title": q["title"], "statement": q["statement"],
             "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
             "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                         "observe_at": q["observe"], "hook_needed": None}}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(o) + "\n")
    for id, t, s, over, files, why in NA:
        assert len(t) <= 80
        f.write(json.dumps({"id": id, "title": t, "statement": s, "quantifier": {"over": over, "text": "all inputs"},
            "why_tests_cant": "the tests sample a few inputs out of infinitely many",
            "anchors": {"files": files, "mechanism": []}}) + "\n")
NOTE = "seeded random search over schedules and faults: a clean run is evidence for the executions sampled, not proof; steps between two statements are atomic and memory is sequentially consistent"
checks, na = [], []
for q in P:
    if q["id"] in CLAIMED:
        checks.append({"property": q["id"], "quick_cmd": "./check.sh %s quick" % q["id"], "thorough_cmd": "./check.sh %s thorough" % q["id"],
            "technique": q["technique"] or "deterministic simulation with fault injection: seeded search over schedules, faults and programs", "level": "exploration", "level_note": q["note"] or NOTE})
    else:
        na.append({"property": q["id"], "reason": q["na"] or "its check is not built yet"})
for id, t, s, over, files, why in NA:
    na.append({"property": id, "reason": why})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
