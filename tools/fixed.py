#!/usr/bin/env python3
"""Writes known_findings.jsonl: the repaired defects (one "fix:" commit each). Fixed entries suppress nothing."""
import subprocess, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property of a commit, by words of its subject (first match)
RULES = [("a format string with a huge", "P14"), ("break and clear commands", "P22"), ("breakpoints for a module", "P22"), ("strings with a zero byte", "P13"), ("replace used texts", "P13"), ("comparing values with nil", "P39"), ("adding an element to a list value", "P39"), ("doc and searchdoc of the prompt", "P37"), ("expressions and conditions evaluated by the debugger lost", "P37"), ("date-time returned", "P36"), ("the tracing flag of the scope", "P35"), ("is-...-p", "P28"), ("the syntax of <<", "P27"), ("evalstr switched", "P32"), ("the documentation functions", "P24"), ("functions defined after evalstr", "P27"), ("errors and stops of the debugger", "P19"), ("evaluating a function call", "P23"), ("a break command with", "P22"), ("the errors of a script were written twice", "P24"), ("variables of an imported module", "P21"), ("reading a directory", "P25"), ("File-WriteAllText reported", "P25"), ("output was added to the trace", "P32"), ("shift count", "P04"), ("without arguments or block", "P01"), ("evalstr crashed", "P01"), ("dictionary functions crashed", "P01"), ("lists starting with the name of a global", "P17"),
 ("debugger set a breakpoint", "P22"), ("clear without a number", "P22"), ("could not show the code", "P23"), ("prompt of the debugger", "P23"), ("conditional breakpoint", "P22"), ("debugger crashed", "P23"),
 ("failing import", "P21"), ("return of a previous", "P18"), ("signature and documentation of the defn", "P27"), ("setf of a place returned", "P31"), ("evaluating an expression at the prompt", "P23"), ("the debugger", "P22"), ("output of a dict", "P12"), ("lambdas defined", "P27"), ("a conditional breakpoint", "P22"), ("debugger crashed", "P23"), ("a failing import", "P21"), ("a return of a previous", "P18"), ("shift by a count", "P04"), ("fn without arg", "P01"), ("errors in setf", "P18"), ("errors inside of functions lost", "P18"),
 ("quasiquote did not", "P16"), ("dictionaries lost the type", "P12"), ("output of a dictionary", "P12"), ("dictionary keys", "P12"), ("setf of an element behind", "P11"), ("parse-float", "P26"), ("int and float of values", "P26"),
 ("doc and searchdoc", "P27"), ("trace output", "P32"), ("args, argscount", "P08"), ("return, trace and sleep", "P01"), ("definition of a compile time", "P15"), ("results of compile time", "P15"), ("macro arguments containing", "P15"),
 ("calling a macro with missing", "P15"), ("string literals in the body", "P15"), ("using a value as list", "P01"), ("a local variable of an enclosing", "P07"), ("arguments behind a spliced", "P16"), ("errors without a location", "P24"),
 ("options -t", "P24"), ("option -e", "P24"), ("option -l", "P24"), ("format replaced", "P14"), ("search with position", "P13"), ("slice, first", "P13"), ("access to elements outside", "P10"), ("integer division", "P04"),
 ("number literals out", "P02"), ("a symbol or number directly before", "P02"), ("a semicolon inside", "P02"), ("an empty comment", "P02"), ("parser crashed", "P03"), ("a quote directly after", "P03"),
 ("expressions without a result", "P01"), ("map, reduce and apply", "P10"), ("equality of lists", "P05"), ("or/||", "P06")]
EXTRA = {}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "362c182..HEAD"], text=True)
with open(HERE + "/known_findings.jsonl", "w") as f:
    for line in log.splitlines():
        h, s = line.split(" ", 1)
        if not s.startswith("fix:"): continue
        s = s[4:].strip()
        p = next((p for k, p in RULES if s.startswith(k)), EXTRA.get(s))
        assert p, s
        f.write(json.dumps({"property": p, "status": "fixed", "commit": h, "what": s, "text": "fixed: property=%s %s %s" % (p, h, s)}) + "\n")
