#!/usr/bin/env python3
"""Writes known-findings.json.  Nothing at run time adds to that file."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
C02 b278726 two sessions that evaluate at the same time wrote the cached hash of shared symbols without synchronisation
C01 92041e8 PrimePi[3] after PrimePi[10] in any session of the process ended the process (shared table)
C15 9502d44 a file whose last statement is malformed near its end ended the process (index out of range)
C15 b88d33b a file or input with an unterminated string never ended
C14 bdc14dc Get of a truncated or damaged definitions file ended the process
C13 e29bde6 a crash or error while saving over a file left it truncated; Save answered Null although nothing was saved
C16 cb5aa80 WriteString["stderr", ...] was refused; a write that failed answered Null
C06 c60bfce draws of one session changed the sequence of another; SeedRandom in one reseeded all
C18 2af63d7 merged profiling tables lost counts; order of equal entries followed the hash table
C18 70df4b8 concurrent evaluations recorded profiling times without synchronisation
C09 c2b2322 Throw or an interrupt inside Table, Do, Sum left the iteration variable with its last value; loops went on after Throw
C04 6811263 definitions made by concurrent elements of a ParallelTable were lost
C03 7e387b6 elements of a ParallelTable saw one another's iteration variables; iterations lost the rules and attributes of their variables
C19 3d17a0f Module and Unique generated names that existed already
C15 0d19dd9 Names with an invalid pattern ended the process
C23 f8d14c2 evaluating a delayed definition changed it: later evaluations used the variables' values of the first
C11 ab510ec an interrupt or exception during the recording of an input left it out of the history
C21 c1688de setting the log level in one session set it in all
C18 edaee5b profiled durations went negative when the wall clock was set back
C17 50c65b0 Pause could not be interrupted and Pause of a large number returned at once
C12 1465f09 a snapshot of the definitions had neither attributes nor defaults
C12 fb91e29 Get of a saved built-in symbol removed its function
C15 961a5b2 an uncaught exception or interrupt in a file being read did not end the reading
C15 7d362ea a file or input with unsupported syntax ended the process
C20 e779eac a reset session still had the pending exception, interrupt and sown values
C26 212124c -rawterm lost lines that arrived together with another
C26 2482533 an exception in the initialisation file ended the first input
C07 cd53d1b Nest- and Array-like functions built their whole term before the interrupt was seen
C08 d3ddd31 an interrupt that arrived between two inputs aborted the later one
C23 d2bf45d Rational[a, b] with a = 2, b = 4 changed the values of a and b to 1 and 2
C23 6ec7e15 n! changed n: after s = 7; s! the value of s was 0, and a stored 5! was 1 from the second evaluation on
C10 b9c35d1 code after a Throw still ran: Module[{x = Throw[1]}, z := 5] defined z, and Which[Throw[1], a, True, b] evaluated b
C18 ca50aee the evaluation that switched profiling on was recorded with the time since the year 1 or an empty name
C25 abe3f81 Table[i, {i, 5, 1, -1}] and Range[3, 1, -1] were empty, and {i, 0, 2, 0.5} and {i, 1.0, 1} lost their last point
C10 48be25f Catch[x := Evaluate[Throw[1]]] defined x, and an interrupt inside Evaluate left $Aborted in the definition
C25 5429271 ParallelTable[g, {i, 3}] after g := i had elements i: definitions did not see the iteration variable
C07 5429271 ParallelTable[i, {i, 10^8}] went on listing its elements after an interrupt
C15 d02d0f0 ReadList took a script with \\[Alpha] in it for a syntax error
C15 265e459 an unknown character name in a comment or string hung the reading for ever; NUL or an escape cut off ended a script without a syntax error
C19 ec60ab0 Module named a local variable t$5 although loaded definitions contained t$5
"""
KNOWN = [
]
out = list(KNOWN)
for l in FIXED.strip().splitlines():
    pr, c, what = l.split(" ", 2)
    out.append({"status": "fixed", "property": pr, "commit": c, "line": "fixed: property=%s %s %s" % (pr, c, what)})
json.dump(out, open(os.path.join(V, "known-findings.json"), "w"), indent=1)
