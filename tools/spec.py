#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/spec.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "CppLisp/CppLispInterpreter/"
D = "CppLisp/CppLispDebugger/Debugger.cpp"
PROPS = []
def P(id, title, statement, over, text, why, files, mech, note, variant=None, observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, variant=variant, observe=observe, state=state))

REFNOTE = "Every execution in the stated bounds is run on the real interpreter and compared with an independent reference interpreter (mc/ref*), step by step. Trusted: the reference model where both agree by the same mistake, the compiler; programs the language leaves open are skipped and counted."

P("P01", "Any program ends in a value or a reported language error, and is survivable",
  "Evaluating any program text (well formed or not, any builtin with any arguments) terminates with a value or a language error that the caller can catch: it never crashes the process, never reads or writes outside its data, never leaks a foreign exception and never hangs by itself. After it the same session accepts and evaluates further code.",
  ["inputs", "programs"], "for every program text, every builtin and every argument tuple",
  "The tests call each builtin with a few well-typed arguments; crashes sit in unusual arities, types, places and texts.",
  [C+"Environment.cpp", C+"Interpreter.cpp", C+"Variant.cpp", C+"Parser.cpp", C+"Tokenizer.cpp", C+"Lisp.cpp"],
  [("argument checks of builtins", "Environment.cpp: Check* helpers"), ("conversion checks", "Variant.cpp"), ("error wrapping", "Lisp.cpp: SaveEval")],
  "Bounded-exhaustive execution of the real interpreter in killable worker processes with container precondition checks on; signals, foreign exceptions and time-outs are violations.")
P("P02", "The scanner splits any text into exactly the tokens the language defines",
  "Scanning a text yields the sequence of tokens of the language with their kind, value, start and stop offset and line, or rejects the text; comments, strings with escapes, numbers, quotes and separators never change, lose or duplicate neighbouring tokens.",
  ["inputs"], "for every text", "Tests scan a handful of texts; adjacency of lexemes and positions need all combinations.",
  [C+"Tokenizer.cpp", C+"Token.cpp"], [("scanner loop", "Tokenizer.cpp: LispTokenizer::Tokenize"), ("token classification", "Token.cpp: LispToken")],
  "All texts over an alphabet up to a length and all lexeme sequences, each compared token by token with an independent scanner.")
P("P03", "The reader builds the tree the brackets and quotes describe, or rejects the text",
  "Reading a text gives exactly the nested list structure described by its brackets, quotes and atoms, and a text with unbalanced brackets or a quote without operand is rejected with a language error.",
  ["inputs"], "for every token sequence", "Tests read a few well formed programs.",
  [C+"Parser.cpp"], [("recursive reader", "Parser.cpp: LispParser::ParseTokens")],
  "All token sequences in the bounds, each tree compared with an independent reader.")
P("P04", "Arithmetic follows the numeric tower and never corrupts or kills the process",
  "Arithmetic, bit and comparison operators return for every operand list the value given by left folding 32 bit integer and double arithmetic (string and list concatenation for +), converting to double as soon as one operand is one, and report an error for operands they cannot use, including division by zero.",
  ["inputs"], "for every operator and operand list", "Tests compute some dozens of sums; boundary values and mixed types are a product space.",
  [C+"Variant.cpp", C+"Environment.cpp"], [("operators of values", "Variant.cpp: operator+ ..."), ("folding", "Environment.cpp: ArithmetricOperation")], REFNOTE)
P("P05", "Comparison operators are lawful",
  "Equality is reflexive, symmetric and structural (numbers by value, lists element by element), not equal is its negation, the order operators are consistent with each other and total and transitive on numbers and on strings, and comparing what cannot be compared is an error.",
  ["inputs"], "for every pair and triple of values", "Laws quantify over pairs and triples; tests check single comparisons.",
  [C+"Variant.cpp", C+"Environment.cpp"], [("EqualOp / CompareAny", "Variant.cpp, Environment.cpp")], REFNOTE + " The laws are also evaluated directly on the implementation.")
P("P06", "and, or, not and if evaluate exactly the operands they need, left to right",
  "Operands are evaluated from left to right, each at most once; and stops at the first false operand, or at the first true one, if evaluates the condition and exactly one branch, and the result is the value the definition gives.",
  ["programs"], "for every nesting of conditional and ordinary forms", "Side effects of operands that must not run are only visible with effectful leaves in every place.",
  [C+"Environment.cpp", C+"Interpreter.cpp"], [("special forms", "Environment.cpp: and, or, if_form"), ("argument evaluation", "Interpreter.cpp: EvalAst")], REFNOTE)
P("P07", "Names resolve lexically: locals, closures, globals",
  "A name refers to the innermost binding visible where the code was written (argument, local, captured scope, global); closures keep and share the variables they captured; definitions and assignments change exactly the binding they name and no other.",
  ["programs", "histories"], "for every nesting of scopes and order of definitions, assignments and calls", "Capture and shadowing bugs need specific combinations of four levels and several calls.",
  [C+"Scope.cpp", C+"Environment.cpp", C+"Interpreter.cpp"], [("ResolveInScopes, SetInScopes", "Scope.cpp"), ("fn_form, def, gdef, setf", "Environment.cpp"), ("ResolveArgsInScopes", "Interpreter.cpp")], REFNOTE)
P("P08", "Function calls bind arguments by position and hand over lists by reference",
  "A call binds the actual to the formal arguments in order, missing ones are nil, additional ones are reachable by args, arg and argscount only; apply is the same call; scalars are passed by value and lists by reference.",
  ["programs"], "for every formal and actual argument list", "Tests call functions with matching argument lists.",
  [C+"Environment.cpp"], [("fn_form, apply, args, arg, argscount", "Environment.cpp")], REFNOTE)
P("P09", "Loops, sequences and return transfer control exactly as written",
  "do, while, if and return execute exactly the statements the program text prescribes: a return leaves the innermost function at once with its value, a loop runs its body as long as the condition holds, and the rest of an abandoned sequence has no effect.",
  ["programs"], "for every nesting of statements", "The interplay of return with loops and nested calls is a product space.",
  [C+"Environment.cpp", C+"Interpreter.cpp"], [("IsInReturn", "Scope.h, Environment.cpp: return_form, do_form, while_form")], REFNOTE)
P("P10", "List functions compute the mathematical result and leave their operands alone",
  "The functions that read or build lists (first, rest, nth, cons, append, reverse, map, reduce, list, len, slice and friends) return the sequence their definition gives for lists of every length, never change their operands, and report an error for a position outside of the list.",
  ["inputs", "programs"], "for every list term", "Nested data, edges and sharing are rarely tested.",
  [C+"Environment.cpp"], [("list builtins", "Environment.cpp: FirstCar ... Reduce")], REFNOTE)
P("P11", "Updates of lists are seen through all and only their aliases",
  "push, pop and assignment to an element change exactly the list object they are applied to, at exactly the given position; every variable, element and closure that shares the object sees the change and no other list is affected.",
  ["histories"], "for every history of updates of lists that share structure", "Aliasing faults need a history: share, update, read through the other name.",
  [C+"Environment.cpp", C+"Variant.cpp", C+"csobject.cpp"], [("Push, Pop, setf of places", "Environment.cpp"), ("reference semantics of lists", "csobject.cpp, Variant.cpp")], REFNOTE)
P("P12", "Dictionaries behave as finite maps",
  "After any history of set, get, remove and clear a dictionary holds exactly the last value set for every key not removed since; keys of different types or values are different keys, values keep their type, and aliases see the same dictionary.",
  ["histories"], "for every history of operations and every pair of keys", "Key collisions and order corruption show only for particular key pairs and histories.",
  [C+"Environment.cpp", C+"Variant.cpp", C+"cstypes.h"], [("dict builtins", "Environment.cpp: Dict*"), ("key order", "Variant.cpp: operator<")], REFNOTE)
P("P13", "String functions return exactly the specified characters",
  "Length, slice, search, replace, trim, case mapping, first/rest/nth, concatenation and literal escapes return for every string and position exactly the characters of their definition, and positions behind the end never read outside of the string.",
  ["inputs"], "for every string, position and length", "Off-by-one errors appear at particular lengths and positions.",
  [C+"Environment.cpp", C+"csstring.cpp", C+"Tokenizer.cpp"], [("string builtins", "Environment.cpp"), ("string class", "csstring.cpp")], REFNOTE)
P("P14", "format and the print functions write exactly the specified text",
  "format substitutes every placeholder by the text of its argument with the requested width and alignment and leaves everything else untouched, and print, println and str write or return the concatenated texts of their arguments in order, nothing lost, repeated or reordered. readline returns the lines of the input one after the other, unchanged.",
  ["inputs", "programs"], "for every format string, argument list, sequence of output statements and input", "Placeholders repeated, adjacent or contained in arguments are combinations.",
  [C+"Environment.cpp", C+"csstring.cpp", C+"Variant.cpp"], [("format, print", "Environment.cpp: Format, Print"), ("string::Format", "csstring.cpp"), ("input", "cstypes.cpp: TextReader")], REFNOTE)
P("P15", "Macros substitute each argument exactly once, by position, at the right time",
  "A macro call behaves as its body with every occurrence of a formal argument replaced by the text of the actual argument, evaluated in the scope of the call; run time macros and compile time macros differ only in when they expand, and redefinition affects later uses only.",
  ["programs", "histories"], "for every macro definition, argument list and place of use", "Substitution faults depend on names, nesting and literals inside the body and the arguments.",
  [C+"Interpreter.cpp", C+"Environment.cpp"], [("ExpandMacro", "Interpreter.cpp"), ("define-macro-*", "Environment.cpp")], REFNOTE)
P("P16", "quote and quasiquote build exactly the written data",
  "Quoting returns the written structure unevaluated, quasiquoting the same structure with every unquoted expression replaced by its value and every spliced list inserted element by element, at every nesting depth and position, fresh for every evaluation of unquoted parts.",
  ["programs"], "for every template", "Tests use flat templates.",
  [C+"Environment.cpp", C+"Interpreter.cpp"], [("quote_form, quasiquote_form, ProcessQuotedSExpression", "Environment.cpp")], REFNOTE)
P("P17", "Evaluating code as data equals running it in place",
  "eval of a quoted expression and evalstr of its text give the same value, output and effects as the expression written in place, in whatever scope they are used.",
  ["programs"], "for every program and scope", "Equivalence quantifies over programs.",
  [C+"Environment.cpp", C+"Interpreter.cpp", C+"Lisp.cpp"], [("eval, evalstr", "Environment.cpp")], REFNOTE)
P("P18", "A failing evaluation leaves a session that works",
  "An error raised anywhere inside an evaluation keeps the effects that happened before it, has no further effects, and every later evaluation in the same session behaves as if the failed one had ended normally at that point.",
  ["histories", "fault_sequences"], "for every failing operation, place of failure and history of evaluations after it", "Tests check that an error is raised, not what the session does afterwards.",
  [C+"Lisp.cpp", C+"Environment.cpp", C+"Interpreter.cpp", C+"Scope.h"], [("restoring scopes on errors", "Environment.cpp, Interpreter.cpp: GlobalScope, Next/Previous"), ("SaveEval", "Lisp.cpp")], REFNOTE)
P("P35", "No evaluation reads or writes memory it does not own",
  "Evaluating any program never accesses memory outside of live objects and never executes an operation the C++ language leaves undefined.",
  ["inputs", "programs"], "for every program text, every builtin and every argument tuple", "Undefined behaviour often goes unnoticed in the ordinary build the tests run.",
  [C+"Environment.cpp", C+"Variant.cpp", C+"csobject.cpp", C+"Interpreter.cpp", C+"csstring.cpp"],
  [("checked access", "Environment.cpp, cstypes.h")],
  "The same exhaustive space as P01 (smaller bounds) executed on the real code built with address and undefined behaviour sanitizers.", variant="san")

exec(open(os.path.join(HERE, "tools", "spec_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "spec_more.py")) else None

def main():
    PROPS.sort(key=lambda p: p["id"])
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in PROPS:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            a["observe_at"] = p["observe"] or ["Lisp::Eval result, exception, written output and global variables"]
            a["hook_needed"] = None
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks = []
    for p in PROPS:
        v = " " + p["variant"] if p["variant"] else ""
        checks.append({"property": p["id"], "quick_cmd": "./run.sh %s quick%s" % (p["id"], v), "thorough_cmd": "./run.sh %s thorough%s" % (p["id"], v),
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "stateless bounded-exhaustive exploration of the implementation" + (", lock-step with a reference model" if "reference" in p["note"] or "independent" in p["note"] else ""),
            "level": "model_checking", "level_note": p["note"]})
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
        "notes": "No hooks in /repo: the checks use its public C++ entry points. See DESIGN.md."}, open(HERE + "/MANIFEST.json", "w"), indent=1)
main()
