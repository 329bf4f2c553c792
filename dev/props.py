# -*- coding: utf-8 -*-
NOTES = ("Every check is static: a rustc driver (driver/) dumps the type-checked MIR of /repo's current tree, sa/ analyses it path-sensitively, "
         "and sa/rules*.py decide one property each. No code of /repo is executed and no solver is used. No hooks are added to /repo.")
PROPS = []
INIT = "src/binary/init/"


def P(id, title, statement, q, why, files, mech, tech=None, note=None, na=None, over=("inputs",), **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, q=q, why=why, files=list(files), mech=list(mech), tech=tech, note=note, na=na, over=list(over), **kw))


VF = "path-sensitive value-flow analysis of the builtins' MIR against a table of normal forms"
VFN = ("Every path of the builtin's MIR is covered (loops summarised as folds over all iterations). A returned value must equal the contract's normal form; "
       "results the analysis cannot bring into a comparable normal form are counted as undecided and not reported. Trusts the models of std in sa/models.py.")
T13 = "The 13 stable tests only tokenise and parse a few fixed strings; none calls a builtin, so every argument value and kind is unexplored."

P("P22", "Numeric builtins of math compute the named function on every argument",
  "Every function of the math module returns, for every integer and float argument (and every mix of the two), the mathematical function its name and help text promise, applied to its arguments in the documented order; integer arguments of rounding functions come back unchanged and integer powers, factorials, absolute values and shifts are either exact or an error. The constants are the documented ones.",
  "for all integer and float arguments of every math builtin", T13, [INIT + "math_module.rs"],
  [("math builtins", INIT + "math_module.rs")], VF, VFN)
P("P27", "List builtins return exactly the documented elements in order",
  "For every list, the list builtins (append, cons, head, tail, rev, len, take, drop, split-at, nth, range, zip, unzip, foldl, foldr, chunk) return exactly the documented elements, each once, in the documented order, and folds apply the function once per element in the documented direction with the accumulator on the documented side. No element is lost, duplicated or reordered, and a valid index is never reported as out of range.",
  "for all lists, indices and functions", T13, [INIT + "list_module.rs"], [("list builtins", INIT + "list_module.rs")], VF, VFN)
P("P28", "String builtins transform exactly the string they are given",
  "For every string, the string builtins (case conversion, trimming, splitting into chars, lines, words and paragraphs, joining, replacing, reversing, testing character classes, prefixes, suffixes and substrings, caesar, title case) return the documented transformation of that very string with the remaining arguments in their documented roles. Character-class tests hold exactly when every character has the property.",
  "for all strings and arguments", T13, [INIT + "string_module.rs", INIT + "mod.rs"], [("string builtins", INIT + "string_module.rs"), ("str, lines", INIT + "mod.rs")], VF, VFN)
P("P29", "Dictionary builtins keep exactly the documented keys and values",
  "For every dictionary, insert, remove, has?, keys, values, items, from-items, len, union, intersect, difference and flatten (and the global insert, keys, vals and len) return exactly the documented keys with their own values: insert adds or replaces one key and keeps all others, remove drops exactly the given key, union keeps all keys with the second dictionary winning, and keys, values and items enumerate every entry once.",
  "for all dictionaries, keys and values", T13, [INIT + "dict_module.rs", INIT + "mod.rs", INIT + "list_module.rs"],
  [("dict builtins", INIT + "dict_module.rs"), ("insert, keys, vals, len", INIT + "mod.rs")], VF, VFN)
P("P33", "Conversions keep the value they convert",
  "Converting with int returns an integer unchanged, truncates a float and parses exactly the given string (otherwise an error); `a to b` yields every integer from a up to but excluding b, in order.",
  "for all integers, floats and strings", T13, [INIT + "mod.rs"], [("int, to", INIT + "mod.rs")], VF, VFN)
CW = "path-sensitive value-flow summaries of the builtins over MIR, interpreted statically with reference evaluation rules in small models and compared with reference definitions"
CWN = ("Returned terms, environment changes and evaluation events of every path are interpreted on argument expressions and environments (evaluations by the language's reference rules) and compared with "
       "the documented result; models are finite (lists up to twelve elements, nested definitions, failing and effectful arguments). Constant scripts are parsed by a small parser of our own; anything else in them is undecided.")
P("P34", "Higher-order functions apply the function once per element, in order",
  "fn@map returns the function's results for every element in list order, fn@filter returns exactly the elements whose predicate result is truthy, in order, fn@reduce folds from the left starting at the initial value with the accumulator first, and fn@apply calls the function with exactly the list's elements as arguments; given fewer arguments they wait for the rest. fn@? evaluates its condition and exactly one branch, fn@curry takes the arguments one by one and passes them in order, and id, const, flip and compose are those functions.",
  "for all functions and lists", T13, [INIT + "fn_module.rs"], [("map, filter, reduce, apply, curry, conditional", INIT + "fn_module.rs")], CW, CWN)
P("P31", "Environment builtins act on exactly the right binding and environment",
  "eval and import evaluate the value of their argument (or the named file, resolved against the shell's directory) without changing the caller's environment, exec and include evaluate it in that environment, and every error in it is reported. set, unset and unbind define and remove exactly the named binding with the expression as given, defined? tells whether a name is bound, quote returns its argument unevaluated, and cwd, env and vars return the shell's directory and bindings.",
  "for all expressions, names and environments", T13, [INIT + "sys_module.rs", INIT + "mod.rs"], [("eval, exec, include, import, set, unset, defined?, cwd, env, quote", INIT + "sys_module.rs"), ("eval, exec, unbind, vars", INIT + "mod.rs")], CW, CWN)

P("P24", "Parsed JSON and TOML documents keep every value",
  "parse@json and parse@toml return exactly the document's value: every string, integer, float, boolean, null, list (all elements, in order) and table (all keys) at every depth, as the dune value of the same kind (JSON numbers as floats, date-times as their text); invalid text, a wrong argument kind and errors of the argument are errors.",
  "for all documents and nestings", T13, [INIT + "parse_module.rs"], [("parse_json, parse_toml, json_to_expr, toml_to_expr", INIT + "parse_module.rs")],
  "path-sensitive value-flow summaries of the parsing builtins and their recursive conversion over MIR, interpreted statically on document models of every kind and nesting",
  "The text-to-document step of the json and toml crates is trusted (a model's document is a tree given to the summary); date-times are compared as their text. Documents are finite models, nested up to four levels.")
P("P32", "Random builtins only draw what was asked for",
  "rand@int a b returns an integer of a..b (without b) and can return each of them, rand@choose returns an element of the list it is given and can return each, rand@shuffle returns a permutation of its list, every order being possible; ranges and lists with nothing to draw from and arguments of other kinds are errors.",
  "for all ranges, lists and generator outcomes", T13, [INIT + "rand_module.rs"], [("rand builtins", INIT + "rand_module.rs")],
  "path-sensitive value-flow summaries of the random builtins over MIR, interpreted statically with the generator's outcome as a universally quantified model parameter",
  "The generator itself (rand crate) is trusted to return every member of the range or permutation it is asked for; how often each one occurs is P52, not decided.", over=["inputs", "schedules"])
P("P36", "Console and printing builtins write exactly the documented text",
  "print, println, echo, report and debug write exactly the displayed (debug: literal) values of their arguments, in order, each evaluated once; the console builtins write exactly the control sequence they are named after with the given coordinates and text (one positioned line per line of text), switch the terminal mode they name and report a terminal that refuses. read-key returns for every key the sequence that console@keyboard@keys lists for it, the character for a character key and None for other events.",
  "for all arguments, terminals and key events", T13, [INIT + "console_module.rs", INIT + "mod.rs"], [("console builtins", INIT + "console_module.rs"), ("print, println, echo, report", INIT + "mod.rs")],
  "path-sensitive value-flow summaries of the builtins over MIR, with written text and terminal calls as effects, interpreted statically on models and compared with reference definitions",
  "Texts are compared as written, two spellings of one cursor move being equal; how values are displayed inside one write is taken from the reference display for the scalar kinds. The crossterm and terminal_size crates are trusted.", over=["inputs"])
P("P37", "The shell exits exactly when asked, with exactly the given status",
  "os@exit, exit and quit end the process with the given integer as status (0 without one); an argument of another kind or an error in it leaves the shell running and is reported. No other builtin ends the process, except that one reading a line from the user ends it when the input ends.",
  "for all arguments and builtins", T13, [INIT + "os_module.rs", INIT + "mod.rs"], [("os@exit", INIT + "os_module.rs"), ("exit, quit", INIT + "mod.rs")],
  "path-sensitive value-flow summaries over MIR interpreted on models, and an effect analysis (call-graph reachability of process::exit and abort) over every builtin",
  "The status is the low 32 bits the operating system takes. Calls through function values (user functions, other builtins) are not followed by the effect analysis: those are builtins with their own obligation.")

OM = INIT + "operator_module.rs"
EV = "src/expr.rs"
EVT = "symbolic value-flow analysis of one turn of eval_mut's loop over MIR, compared with the language's evaluation table"
EVN = ("eval_mut's loop is cut after one turn, so every path of one step of evaluation is covered for an arbitrary expression, environment and depth; nested evaluations stay "
       "symbolic. Paths the analysis cannot bring into the table's form are counted as undecided and not reported. Trusts the models of std in sa/models.py.")
TEV = "No stable test evaluates anything beyond a few fixed expressions, so the expression kinds, environments and error paths are unexplored."

P("P01", "No builtin, operator or evaluation step panics",
  "Calling any registered builtin or operator with any number of arguments of any kinds and values, or evaluating any expression, yields a value or an error; it never panics (index or slice out of range, unwrap of an absent value, arithmetic overflow, division by zero, splitting inside a character).",
  "for all builtins, operators, argument counts, kinds and values", T13, [INIT + "mod.rs", INIT + "list_module.rs", INIT + "string_module.rs", OM, EV],
  [("every function registered by init", INIT + "mod.rs"), ("Expression::eval_mut", EV), ("operator impls", EV)],
  "abstract interpretation over MIR: every panic site reachable from a registered builtin, an operator or the evaluator is a proof obligation on every path",
  "Intervals, linear inequalities and enum-variant facts; sites whose obligation concerns unconstrained user input and cannot be discharged are violations, sites whose obligation depends on terms outside the domain are counted as open and not reported. Arguments are taken unevaluated with symbolic results. Recursion depth (P15), allocation failure and panics inside dependencies are out of scope.", level="other")
P("P03", "Integer arithmetic is exact or an error",
  "For all 64-bit integers, + - * // % and unary minus return the exact result when it exists and an error when it overflows or the divisor is zero, never a wrapped or different value; with three or more operands they fold from the left.",
  "for all pairs (and longer sequences) of 64-bit integers", T13, [EV, OM], [("Add, Sub, Mul, Div, Rem, Neg for Expression", EV), ("arithmetic builtins", OM)],
  "path-sensitive value-flow analysis of the operator impls' MIR against the table of exact operations, with overflow facts on every path",
  "Covers every path of each operator builtin and impl for symbolic operands; `/` on integers is registered as `//` in this language's operator table. Trusts the models of std's checked_* functions.")
P("P04", "Operators compute the documented result for every pair of operand kinds",
  "For every pair of operand kinds, + - * // % unary minus, == != < <= > >=, && || ! and @ give exactly the documented value (string and list concatenation, repetition, mixed integer/float arithmetic, map union, indexing) or an error; comparisons of same-kind values follow their contents, and truthiness depends only on the value. && and || yield the conjunction and disjunction of the truth values of all operands.",
  "for all operand kinds and values", T13, [EV, OM], [("operator impls of Expression, PartialOrd, is_truthy", EV), ("operator builtins", OM)],
  "path-sensitive value-flow analysis of the operator impls' MIR against a table operand kinds -> normal form",
  VFN)
P("P11", "Applying an unbound name runs exactly that program with exactly those arguments",
  "Applying an unbound symbol (or a string) to arguments starts the program of that name once, with each argument's value passed as one argument in order (lists flattened element by element, none arguments dropped), in the shell's working directory, with the shell's bindings as environment, inheriting the shell's standard streams, and waits for it. A program that cannot be started is reported by kind: not found, permission denied, or other.",
  "for all program names, argument lists and environments", TEV, [EV], [("eval_mut, application of Symbol/String; flatten", EV)], EVT, EVN, over=["inputs", "configurations"])
P("P12", "A pipeline feeds each stage exactly the previous stage's output",
  "In a pipeline of any length every stage runs once in order: a program stage reads exactly what the previous stage produced (its standard output, or the value of a function stage), inner stages' output is collected, the last writes to the shell's output and is waited for, and a function stage is applied to the value so far. A stage that cannot be started is an error. Programs get their own evaluated arguments, the shell's directory and bindings.",
  "for all pipelines of any length and any mix of program and function stages", T13, [OM], [("pipe_builtin", OM), ("expr_to_command", OM)],
  "symbolic value-flow analysis of the pipeline loop's MIR (one arbitrary iteration with loop-carried values) against the stage contract",
  "Covers every path of one iteration at an arbitrary position (first, inner, last). Deadlock when a program fills its output pipe before reading all of its input is a runtime quantity and not claimed.", over=["inputs", "schedules"])
P("P13", "A call's definitions stay inside the called function",
  "Calling a lambda binds its parameter, and everything its body defines, only in the call's own copy of the captured environment: neither the caller's environment nor the lambda's own changes. Arguments are evaluated in the caller's environment, the body in the lambda's; define and undefine change exactly the named binding of one environment and lookups prefer the inner scope.",
  "for all lambdas, arguments and environments", TEV, [EV], [("eval_mut, application of Lambda", EV), ("Environment::define, undefine, get, is_defined", EV)], EVT, EVN)
P("P14", "A closure captures every variable its body uses",
  "Evaluating a lambda literal binds in its captured environment every symbol its body uses that the current environment defines, with the value it has there, except its own parameter and names already captured; the symbols an expression uses include those of every sub-expression. Later changes to the defining environment do not affect the closure.",
  "for all lambda bodies and environments", TEV, [EV], [("eval_mut, Lambda literal", EV), ("get_used_symbols", EV)], EVT, EVN)
P("P15", "Recursion fails with an error at a constant depth",
  "Every step of evaluation checks its depth against a constant bound and fails with RecursionDepth beyond it, and every nested evaluation or tail step runs at a greater depth, so unbounded recursion in a program ends in an error and not in a native stack overflow.",
  "for all programs and call depths", TEV, [EV], [("eval_mut, depth guard", EV), ("Expression::eval", EV)], EVT + "; call-graph query for re-entries that do not grow the depth",
  EVN + " One known finding: Expression::eval (used by builtins) restarts at depth 0.", over=["inputs", "histories"])
P("P16", "Control flow evaluates exactly the sub-expressions the language says",
  "For every kind of expression, evaluation evaluates exactly the right sub-expressions, once each, in order and in the right environment: if evaluates the condition and one branch, for runs the body once per element in order, do runs every statement in order and yields the last value, assignment binds the evaluated value, quotes and builtins' arguments are not evaluated, macros run in the caller's environment, and an error in a sub-expression ends the evaluation with that error.",
  "for all expressions and environments", TEV, [EV], [("eval_mut", EV)], EVT, EVN)
P("P05", "Each error has its published code and err@try sees exactly that error",
  "Every kind of runtime error has one constant code, the one err@codes publishes under its name. err@try returns the value of its first argument unchanged when it evaluates, and otherwise applies the handler, once, to a dictionary with that error's message, code and expression.",
  "for all errors, expressions and handlers", TEV, [INIT + "err_module.rs", "src/error.rs"], [("err_module::get, try_builtin", INIT + "err_module.rs"), ("Error::code", "src/error.rs")],
  VF, VFN)
P("P06", "No builtin swallows an evaluation error",
  "When evaluating an argument, an element or a callback's application fails inside any builtin, pipeline or evaluation step, nothing further is evaluated and exactly that error is the result; only err@try turns an error into something else.",
  "for all builtins, arguments and failing sub-evaluations", T13, [INIT + "mod.rs", INIT + "fn_module.rs", INIT + "list_module.rs", OM, EV],
  [("every builtin registered by init", INIT + "mod.rs"), ("eval_mut", EV), ("pipe_builtin", OM)],
  "error-flow analysis over the MIR of every registered builtin: every path on which an evaluation failed must end there with that error",
  VFN)
P("P20", "Log functions print exactly when the level admits them, and print every line",
  "log@error, warn, info, debug and trace print their arguments if and only if the current level is at least that function's level, each line of each argument after the function's own prefix and in order; log@set-level, get-level, disable and enabled? write and read that one level, for later calls too; echo prints every argument in order whatever the level is.",
  "for all levels, call histories and arguments", T13, [INIT + "log_module.rs", INIT + "mod.rs"], [("log builtins, is_log_level_enabled", INIT + "log_module.rs"), ("echo", INIT + "mod.rs")],
  "path-sensitive MIR analysis; the level tests are decided for every level, the printing loops for one arbitrary argument and line", VFN, over=["inputs", "histories"])
P("P21", "Console styles wrap exactly the given text",
  "fmt@X returns the argument's text, complete and unchanged, after the ANSI code that X names and before a reset; href and wrap keep url, text and width in their places; fmt@strip removes exactly the escape sequences ESC...m and keeps every other character in order.",
  "for all texts", T13, [INIT + "fmt_module.rs", "src/bin.rs"], [("fmt builtins", INIT + "fmt_module.rs"), ("strip_ansi_escapes", "src/bin.rs")],
  "value-flow analysis of the builtins' MIR against the SGR table; the escape remover's loop is decided as a finite automaton over an arbitrary character", VFN)
P("P30", "Every builtin accepts exactly the documented number of arguments",
  "Every builtin rejects, with an error and before it evaluates an argument's effect or changes anything, every number of arguments other than the documented ones, never rejects a documented number because of the count, and takes each argument from its documented position.",
  "for all builtins and all numbers of arguments", T13, [INIT + "mod.rs"], [("check_exact_args_len, check_args_len and every registered builtin", INIT + "mod.rs")],
  "path feasibility over the argument-count conditions in the MIR of every registered builtin, against an arity table", VFN)

FSF = INIT + "fs_module.rs"
FSW = "path-sensitive summaries of the file builtins' MIR (conditions, calls in order, returned term) compared with the documented effect in finite models of a file system whose every call may fail"
FSN = ("The builtin is not run: its statically derived summary is interpreted, path by path, in models that vary the argument (absolute, relative, nested, missing, `..`, directory, file, empty, binary), "
       "the shell's and the process's working directory and the failing call. Paths whose terms the interpretation cannot read are undecided and not reported. Trusts the table of std::fs calls in sa/r_fs.py. "
       "Not modelled: symbolic links, copying a directory into itself, concurrent changes by other processes.")
FSA = [("file builtins", FSF)]
P("P07", "A failed file operation is reported as an error",
  "Every file builtin (read, write, append, head, tail, ls, cp, mv, rm, rmdir, mkdir, canon, glob, cd) returns an error when the operation it stands for fails - a missing, unreadable or unwritable file, a wrong kind of path, a full disk, a failing entry in the middle of a recursive copy - and succeeds when it does not fail. No failure is swallowed and no success is reported for work that was not done.",
  "for all paths, file-system states and failing calls", T13, [FSF, INIT + "os_module.rs", INIT + "sys_module.rs"], FSA + [("cd", INIT + "os_module.rs"), ("cd", INIT + "sys_module.rs")], FSW, FSN, over=["inputs", "faults"])
P("P08", "cp and mv never overwrite or lose a file",
  "fs@cp and fs@mv refuse, with an error and without changing anything, to write to a destination that exists; on success the destination (with everything below it) has exactly the source's contents, cp leaves the source as it was, and mv removes it only once it is at the destination. No other file changes.",
  "for all sources, destinations, directory trees and failing calls", T13, [FSF], [("fs@cp, copy_path, fs@mv", FSF)], FSW, FSN, over=["inputs", "faults"])
P("P09", "File builtins change exactly what they are told to change",
  "mkdir, rmdir, rm, mv, cp, write and append make exactly the documented change to exactly the named path (rmdir only removes an empty directory, rm removes a file or a whole directory) and touch nothing else; read, head, tail, ls, tree, glob, canon, exists?, is-dir? and is-file? change neither a file nor a directory nor the working directory.",
  "for all paths and file-system states", T13, [FSF], FSA, FSW, FSN)
P("P10", "Relative paths are resolved against the shell's directory",
  "Every file builtin resolves a relative path against the shell's current directory (the one cd sets), never against the directory the process happens to be in; absolute paths are taken as they are.",
  "for all paths and all pairs of shell and process directory", T13, [FSF], FSA, FSW, FSN, over=["inputs", "histories"])
P("P35", "Files are read, written and listed exactly",
  "read returns the whole contents of the named file (text as a string, anything else as bytes), head and tail return its first or last n lines in order, write leaves exactly the given contents and append adds them after the old ones, ls lists every entry of the named directory once, tree describes the whole tree to the given depth, glob returns exactly the matching paths, and exists?, is-dir? and is-file? tell what the named path is.",
  "for all file contents, paths and line counts", T13, [FSF], FSA, FSW, FSN)
P("P26", "cd changes to exactly the named directory or changes nothing",
  "os@cd and sys@cd set the shell's directory to the canonical form of the named directory, resolved against the current one; when the name is not an existing directory that can be entered they return an error and the shell stays where it was.",
  "for all directory names and current directories", T13, [INIT + "os_module.rs", INIT + "sys_module.rs"], [("cd", INIT + "os_module.rs"), ("cd", INIT + "sys_module.rs")], FSW, FSN)

NA_T = "No test runs this at more than a few inputs."
P("P50", "Printing a value and reading it back gives the same value",
  "Displaying any literal value (numbers, strings, lists, maps, lambdas, quotes) gives source text that parses back to an equal value.",
  "for all values", NA_T, [EV, "src/parser.rs"], [("Debug/Display for Expression", EV), ("parse_script", "src/parser.rs")],
  na="Round-trip equality of a hand-written printer and parser quantifies over unbounded trees and over the text of formatted numbers and strings; no structural part we could name is necessary and sufficient (several value kinds deliberately have no source form).")
P("P51", "Floating-point builtins are numerically accurate",
  "The results of sin, cos, tan, sqrt, pow, log and the other floating-point builtins are within one ulp of the true value.",
  "for all floating-point arguments", NA_T, [INIT + "math_module.rs"], [("math builtins", INIT + "math_module.rs")],
  na="Numerical accuracy is a runtime quantity of libm; P22 decides statically that the right function is applied to the right argument.")
P("P52", "Random builtins draw from the documented distribution",
  "rand@int, rand@choose and rand@shuffle draw uniformly: every value of the range, every element and every order is equally likely.",
  "for all ranges and lists", NA_T, [INIT + "rand_module.rs"], [("rand builtins", INIT + "rand_module.rs")],
  na="A distribution over runs cannot be decided from the shape of the source beyond the call of the rand crate.")
P("P53", "Parsing and evaluation finish in bounded time",
  "Parsing takes time polynomial in the length of the source and every builtin finishes in time proportional to its input.",
  "for all inputs", NA_T, ["src/parser.rs", EV], [("parse_script", "src/parser.rs")],
  na="Running time and termination are runtime quantities; the backtracking parser has no structural bound we could check (deeply nested groups are exponential today).")
P("P54", "Pipelines never deadlock",
  "A pipeline of programs whose stages each terminate when run alone terminates, whatever the amount of data that flows between the stages.",
  "for all programs, data sizes and schedules", NA_T, [OM], [("pipe_builtin", OM)], over=["inputs", "schedules"],
  na="Whether a program blocks depends on how much it writes before it reads, a runtime quantity of another process; P12 decides the data flow between the stages.")
P("P55", "Interrupting the REPL never loses the shell's state",
  "Pressing Ctrl-C at any moment ends only the running program: the shell keeps its bindings, its history and its terminal settings.",
  "for all interrupt times", NA_T, ["src/bin.rs"], [("repl, ctrl-c handler", "src/bin.rs")], over=["schedules"],
  na="Signal delivery and the line editor live in dependencies and the kernel; the source shows only the registration of an empty handler.")
