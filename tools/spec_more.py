# further properties (executed by spec.py)
P("P19", "Errors name the place in the source where they happened",
  "An error raised by a program carries the line, the start and stop offset and the module of the expression that failed, as it is written in the source text, at every nesting depth, after comments and strings of any form, and for errors inside of functions, macros and imported modules.",
  ["programs"], "for every failing expression, every place it can be written in and every text before it", "A position shifts only for particular neighbours: multi line strings, comments, calls of functions defined elsewhere.",
  [C+"Exception.cpp", C+"Interpreter.cpp", C+"Tokenizer.cpp", C+"Lisp.cpp"], [("positions of errors", "Exception.cpp: AddModuleNameAndStackInfos, AddTokenInfos"), ("current token", "Interpreter.cpp: EvalAst"), ("line counting", "Tokenizer.cpp")],
  "Every program in the bounds is run on the real interpreter and the reported place is compared with the place computed from the text by an independent scanner and reader.",
  observe=["data of the LispException: LineNo, StartPos, StopPos, ModuleName"])
P("P20", "Sessions are isolated from each other",
  "Two interpreter sessions of one process behave as if each was alone: definitions, redefined builtins, macros, traces, output, input and failures of one never influence the other, in whatever order their evaluations are interleaved.",
  ["histories", "schedules"], "for every pair of histories and every interleaving of them", "Shared statics show only when two sessions interleave; tests use one at a time.",
  [C+"Lisp.cpp", C+"Environment.cpp", C+"Scope.cpp"], [("CreateDefaultScope", "Environment.cpp"), ("macro table of the global scope", "Environment.cpp: GetMacro, SetMacro")], REFNOTE)
P("P21", "Import makes exactly the definitions of a module available, found in order",
  "import evaluates the module once per call in the documented search order (as given, library path, ./Library, ./lib/fuel, FUELPATH, with and without .fuel), its functions, macros and variables become usable by the importing program without replacing its own, its functions keep using the variables of their module, and a missing or failing module is a language error that leaves the session usable.",
  ["histories", "configurations"], "for every history of imports and uses, and every set of places a module exists in", "Search order and visibility are products of places, names and histories.",
  [C+"Environment.cpp", C+"Scope.cpp", C+"Utils.cpp", C+"fuel.cpp"], [("Import", "Environment.cpp"), ("ModulesScope", "Scope.h, Scope.cpp: ResolveInScopes")], REFNOTE)
P("P25", "File functions transfer exactly the bytes and report failures",
  "File-WriteAllText leaves exactly the text in the file or reports false, File-ReadAllText returns exactly the content (the empty text for a file that cannot be read), File-Exists tells whether a file is there, and no other file is touched, also if the file system fails at any byte.",
  ["histories", "inputs", "fault_sequences"], "for every content, history of file operations and point of failure of the file system", "Tests neither use all bytes nor full disks.",
  [C+"Environment.cpp", C+"Utils.cpp"], [("File-*", "Environment.cpp"), ("ReadFileOrEmptyString, WriteTextFile", "Utils.cpp, cstypes.cpp")], REFNOTE)
P("P22", "Breakpoints stop exactly at the matching executions of their line",
  "A program run in the debugger stops before exactly those evaluations of calls whose module (named by its file name, with or without its path) and first line match an active breakpoint whose condition is true there, in every history of setting, listing, clearing and changing breakpoints and continuing, and malformed breakpoint commands change nothing.",
  ["histories", "programs"], "for every sequence of debugger commands and every program", "Which stops happen depends on the history of commands and on the path of the program.",
  [D, C+"Interpreter.cpp"], [("NeedsBreak, HasHitBreakpoint", "Debugger.cpp"), ("AddBreakpoint, ClearBreakpoint", "Debugger.cpp"), ("debugger hook", "Interpreter.cpp: EvalAst")],
  "Every command sequence in the bounds is executed by the real debugger and its complete transcript is compared with a reference debugger on top of the reference interpreter.")
P("P23", "Stepping follows the calls of the program and never changes what it does",
  "step, over, out and run stop at exactly the next call, the next call not deeper, the next call of the caller and the next breakpoint; looking at the stack, the variables, the code and values of expressions at a stop shows the state there, and the output and result of the program are those of a run without debugger.",
  ["histories", "programs"], "for every sequence of stepping and inspecting commands and every program", "Call depth and stop positions multiply with the command histories.",
  [D, C+"Interpreter.cpp", C+"Scope.cpp"], [("InteractiveLoop", "Debugger.cpp"), ("NeedsBreak", "Debugger.cpp"), ("DumpStackToString, DumpVars", "Scope.cpp")],
  "Every command sequence in the bounds is executed by the real debugger and its complete transcript is compared with a reference debugger on top of the reference interpreter; runs without stops are compared with the run without debugger.")
P("P24", "The command line does what its options say, in any combination and order",
  "For every list of arguments the program writes exactly what the documented options ask for: the output of the given scripts in order or of the code of -e, expansions, results, times, version or help, and a message for an unknown option or a failing script, each of it once and on the standard output.",
  ["configurations", "programs"], "for every sequence of arguments", "Options interact; tests start the program with few fixed argument lists.",
  [C+"fuel.cpp", C+"Utils.cpp", C+"Lisp.cpp"], [("MainExtended", "fuel.cpp"), ("ContainsOptionAndRemove", "Utils.cpp"), ("SaveEval", "Lisp.cpp")],
  "Every argument list in the bounds is executed by the real command line driver and its complete output is compared with a model of the command line on the reference interpreter.")
P("P26", "Numbers keep their value between text, literals and conversions",
  "Every integer in range written in a program, as text or parsed is the same number and is written with the same digits again, decimals stand for the double nearest to their text, and int, float, parse-integer, parse-float and str convert exactly as documented or report an error, for every input text.",
  ["inputs"], "for every integer and decimal text and every conversion in the bounds", "Number texts have boundary cases at every power of two and ten; tests use a few small numbers.",
  [C+"Token.cpp", C+"Variant.cpp", C+"Environment.cpp", C+"csstring.cpp"], [("number literals", "Token.cpp: LispToken"), ("int, float, parse-*", "Environment.cpp: ToInt, ToDouble, ParseInteger, ParseFloat"), ("text of numbers", "Variant.cpp: ToString")], REFNOTE)
P("P27", "Documentation shows exactly the definitions with their signature and comment",
  "doc and searchdoc show exactly the functions whose name starts with or contains the asked text, each one with the signature and the comment of its latest definition, htmldoc, doc and help show every builtin function exactly once under its own name, and nothing but the result is written.",
  ["histories", "inputs"], "for every history of definitions with comments in any position and every query", "Which comment belongs to which definition depends on the positions of both and on what was evaluated before.",
  [C+"Environment.cpp", C+"Scope.cpp"], [("UpdateDocumentationInformationAtScope, GetTokenBeforeDefn", "Environment.cpp"), ("GetFunctionsHelpFormated, DumpBuiltinFunctionsHelp*", "Scope.cpp"), ("DumpDocumentation", "Environment.cpp")],
  "The entries shown by the implementation after every history are compared with the documentation known by construction of the history.")
P("P28", "The standard library does what it documents",
  "The functions and macros of fuellib (find, foreach, dotimes, defstruct, setq, second, length and others) give the documented value for every argument, in every context they are used in, with no other visible effect.",
  ["inputs", "programs"], "for every argument tuple, use and history in the bounds", "The library is written in the language itself with helper variables and macros that can capture names of the caller.",
  ["Library/fuellib.fuel"], [("dotimes, defstruct, setq", "fuellib.fuel: macros"), ("find, foreach, second, length", "fuellib.fuel: functions")], REFNOTE)
P("P29", "Values keep type and content on every way they are handed over",
  "A value of any type is the same value of the same type after being defined, assigned, passed, returned, stored in a list or dictionary, captured, quoted, spliced or evaluated in any combination of these ways.",
  ["programs"], "for every value and every pair of ways to hand it over", "A lost type shows only for one kind of value on one combination of ways.",
  [C+"Interpreter.cpp", C+"Environment.cpp", C+"Variant.cpp", C+"csobject.cpp"], [("ValueOf, ResolveArgInScopes", "Interpreter.cpp, Scope.cpp"), ("copying of values", "csobject.cpp, Variant.cpp")], REFNOTE)
P("P30", "The interactive prompt evaluates like a program",
  "At the interactive prompt every line is evaluated once in one session, shows its output and its value or its error, keeps the session usable after any error, and the values are those of the same lines evaluated without the prompt.",
  ["histories"], "for every session of lines typed at the prompt in the bounds", "State carried from line to line only shows in long sessions mixing commands, errors and definitions.",
  [D, C+"fuel.cpp"], [("InteractiveLoop", "Debugger.cpp"), ("option -i", "fuel.cpp")],
  "The complete transcript of the real prompt is compared with a model of the prompt on the reference interpreter and with an implementation session without prompt.")
P("P31", "Assignments change exactly the place they name",
  "setf, setq and the element places of lists and dictionaries (nth, first, last, rest, functions returning places) change exactly the named place, evaluate the value and the place once and in order, and are errors that change nothing if there is no such place.",
  ["programs", "histories"], "for every place, value, context and history of assignments in the bounds", "Aliasing and scopes decide which variables change; tests look at one variable.",
  [C+"Environment.cpp", C+"Scope.cpp", C+"Interpreter.cpp"], [("setf_form", "Environment.cpp"), ("SetInScopes", "Scope.cpp"), ("NeedsLValue", "Scope.h, Interpreter.cpp")], REFNOTE)
P("P32", "Tracing records and announces without changing the program",
  "trace and gettrace record exactly what the print functions write while tracing is on, call tracing announces every call and result in order, and values, output and variables are the same with and without tracing.",
  ["histories", "programs"], "for every history of trace operations and every program traced and untraced", "Tracing is a mode: its effects depend on when it is switched and in which scope.",
  [C+"Environment.cpp", C+"Interpreter.cpp", C+"Scope.cpp"], [("TracePrint, GetTracePrint", "Environment.cpp"), ("print functions", "Environment.cpp: Print, PrintLn"), ("call tracing", "Interpreter.cpp: EvalAst")], REFNOTE)
P("P33", "Data survives being printed and read back",
  "Every value made of numbers, truth values, symbols, strings and lists that is printed and read again, as quoted literal, by evalstr or through a file, is equal to the original.",
  ["inputs"], "for every data expression in the bounds", "Nesting, quoting and separators combine; a lost blank or bracket appears for one shape only.",
  [C+"Variant.cpp", C+"Tokenizer.cpp", C+"Parser.cpp"], [("ToString, ToStringDetailed", "Variant.cpp"), ("reading", "Tokenizer.cpp, Parser.cpp")], "Every data expression in the bounds is written and read by the implementation and compared with itself and with the text of the reference interpreter.")
P("P34", "Mathematical functions are exact and obey their laws",
  "The Math functions give the value of the mathematical function for every number, accept integers and doubles alike, report an error for anything else, and obey the laws between them (inverse functions, symmetry, periods, rounding).",
  ["inputs"], "for every argument, pair of functions and law in the bounds", "Tests use one argument per function.",
  [C+"Environment.cpp"], [("Math-*", "Environment.cpp: Math_function")], "Values are compared with the mathematics library and with algebraic laws.")
P("P36", "Clock functions follow the clock of the host",
  "date-time returns year, month (1 to 12), day, hour, minute and second of the local time, tickcount advances by the milliseconds that pass, sleep waits at least the given number of milliseconds, and version, platform, fuel and copyright always describe this interpreter, at every moment and in every time zone.",
  ["inputs", "histories"], "for every day of 1970..2037 and every history of clock operations in the bounds", "Tests see only the moment they are run at and cannot control the clock.",
  [C+"Environment.cpp", C+"Lisp.cpp"], [("Datetime, Tickcount, Sleep", "Environment.cpp"), ("Fuel, Copyright, Platform, version", "Environment.cpp, Lisp.cpp")],
  "The implementation runs on a virtual clock (the time functions of the C library are replaced); every result is compared with the calendar computed independently and with the recorded requests to sleep.")
P("P37", "The prompt lists exactly what is defined",
  "funcs, macros, modules, builtins, globals, locals, doc, searchdoc and code show exactly the functions, macros, modules, variables and source text that are defined at this moment, with signature, value and module, at the prompt, at every stop of a program and after an error, and asking changes neither the program nor later answers.",
  ["histories"], "for every history of definitions and questions and every stop in the bounds", "What has to be listed depends on the whole history of definitions, imports, deletions and failures before.",
  [D, C+"Scope.cpp", C+"Scope.h", C+"Utils.cpp"], [("InteractiveLoop, ShowDocumentation, ShowSourceCode, ShowInteractiveCmds", "Debugger.cpp"), ("Dump, DumpFunctions, DumpMacros, DumpModules, DumpVars", "Scope.cpp, Scope.h"), ("ShowVersion, ShowAbout", "Utils.cpp")],
  "The complete transcript of the real prompt is compared with a model of the prompt and debugger on the reference interpreter.")
P("P38", "Sessions on different threads run as if each was alone",
  "Programs that are evaluated at the same time on different threads of a host, each in a session of its own, have the values, errors, output and definitions they have alone, in every schedule of the threads and from the very first evaluation of the process on, and no memory is accessed by two threads without order.",
  ["schedules", "programs"], "for every pair of programs and every schedule of the two threads in the bounds", "Tests run on one thread; shared state shows up only in particular schedules.",
  [C+"Interpreter.cpp", C+"Environment.cpp", C+"Variant.cpp", C+"Scope.cpp", C+"Tokenizer.cpp", C+"Lisp.cpp"], [("state of an evaluation lives in its scope", "Scope.h: LispScope"), ("evaluation steps", "Interpreter.cpp: EvalAst, NeedsBreak"), ("static data", "Environment.cpp, Variant.cpp, Lisp.cpp")],
  "Stateless exploration of the real code, built with ThreadSanitizer, under a controlled scheduler with bounded preemptions; the scheduler hands over in a way the race detector does not see, so that unordered accesses are reported in every schedule. Trusted: preemption points are allocations and evaluation steps.", variant="tsan")
P("P39", "The embedding application sees and adds values as they are",
  "An application that embeds the interpreter reads every value with its type and content (conversions, comparisons and operators on values behave like those of the language, wrong types are language errors, reading changes nothing), and variables and functions it adds to a session, also functions that raise errors or evaluate programs themselves, behave like defined ones.",
  ["inputs", "histories"], "for every value, accessor, pair of values and history of application and program in the bounds", "Tests read one result of one program; how values, errors and nested evaluations pass the border depends on kind and history.",
  [C+"Variant.cpp", C+"Variant.h", C+"csobject.cpp", C+"Lisp.cpp", C+"Scope.cpp", C+"Interpreter.cpp"], [("conversions, operators, CompareTo, KeyLess, Add", "Variant.cpp, Variant.h"), ("Lisp::Eval", "Lisp.cpp"), ("LispFunctionWrapper", "cstypes.h")],
  "Every value, pair and history is run on the real interface of the library and compared with a table by kind of value and with the reference interpreter given the same functions and variables.")
