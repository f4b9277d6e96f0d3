#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os, sys
S='src/'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":[S+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,title)
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Tokenization is lossless, total and position-exact",
 "Tokenizing any byte string terminates without failure and yields tokens whose source sequences, concatenated in order, are exactly the input; each token's byte index, line and column are those of its first byte in the input. Each token has the type and the unescaped literal that the escape, continuation, whitespace and delimiter-run rules of the syntax give to that sequence, for every escape form (control, octal, hexadecimal, Unicode, invalid rune) and every way the input can end inside one. Tokenizing a stream token by token yields the same tokens as tokenizing the whole input.",
 ["inputs"],"every byte string, including invalid UTF-8, NUL bytes, truncated escapes and delimiters at end of input",
 "The tokenizer specs sample one input per rule; combinations of runs, escapes at boundaries, non-ASCII bytes and position bookkeeping across lines and continuations are an unbounded input space.",
 ["core/tokenizer.go","core/source.go"],
 [("token accumulation and escape decoding","core/tokenizer.go Tokenizer.Next/TokenAccumulator"),("position tracking","core/tokenizer.go StringIterator / SourcePosition")],
 observe=["core.Tokenizer.Tokenize","core.Tokenizer.Begin/End/Next/CurrentToken"])

prop("C02","Parsing accepts exactly the grammar and builds the tree it prescribes",
 "For every source text the parser either returns the one syntax tree the Helena grammar assigns to it (sentences, words, morphemes with their values, nesting, delimiters and, when requested, first-token source positions) or fails with the error of the first construct that breaks the grammar; it never crashes or hangs. Substitution marks, selectors, comments, here-strings, tagged strings, block strings and ignored tokens are attributed to the word they belong to whatever precedes or follows them. Each word of the tree is classified into the word category its morphemes allow, or rejected when none does.",
 ["inputs"],"every source text, well formed or not, nested to any depth, in every parser entry mode and with position capture on or off",
 "Parser specs check individual constructs; the context-dependent rules ($ state, selector attachment, delimiter matching, comment nesting) interact, and only sampled pairs are tested.",
 ["core/parser.go","core/syntax.go","core/tokenizer.go"],
 [("context-stack state machine","core/parser.go Parser.parseWord/parseString/parseBlock/..."),("substitution state","core/parser.go parserContext.substitutionMode/beginSubstitution"),("word classification","core/syntax.go SyntaxChecker.CheckWord")],
 observe=["core.Parser.Parse / ParseTokens","core.SyntaxChecker.CheckWord"])

prop("C03","Incremental parsing is equivalent to one-shot parsing",
 "Feeding the complete tokens of a source to the incremental parsing interface one by one, or in any runs, gives, when the stream is closed, the same tree or the same error as parsing the whole text at once, and fails no later and no earlier than at the first offending token. A parser stopped after any complete prefix, or reused after a success or a failure, behaves like a fresh one. A script is reported incomplete exactly while some delimiter is still open.",
 ["inputs","histories"],"every source, every split into token feeds, every sequence of parses on one parser object",
 "Incremental tests feed a few scripts; agreement at every prefix and after every earlier failure is a quantification over prefixes and histories.",
 ["core/parser.go","core/tokenizer.go","cli/cli.go"],
 [("Begin/Next/End stream interface","core/parser.go Parser.BeginStream/Next/CloseStream/ParseStream"),("context reset","core/parser.go Parser.begin")],
 observe=["core.Parser.ParseStream/Begin/Next/CloseStream"])

prop("C04","Compiled evaluation of words and sentences equals the substitution rules",
 "Compiling and executing any script gives the result that the written substitution rules give to its syntax tree: every word is evaluated once, left to right, before its command is called; literals, tuples, blocks, strings, expressions, substitutions (any depth), selectors (index, key, generic, on any kind of source), expansion and last-result / pipe commands each produce the specified value or the specified error. The result of a script is that of its last command, and the words of one sentence never influence those of another.",
 ["programs","inputs"],"every script and every nesting of word constructs, evaluated with any variable, command and selector resolver state",
 "Compiler specs check one construct at a time on fixed opcodes; the compositions (expansion inside tuples, selectors on multi-level substitutions, inlined expressions, qualified words) form an unbounded program space.",
 ["core/compiler.go","core/evaluator.go","core/selectors.go","core/values.go"],
 [("compilation to opcodes","core/compiler.go Compiler.CompileScript and emit*"),("virtual machine","core/compiler.go Executor.Execute"),("frame stack","core/compiler.go ProgramState")],
 observe=["results and command-call log of executed scripts"])

prop("C05","Position capture is neutral and error stacks are accurate",
 "Turning source-position capture on or off never changes the value, error message, side effects or termination of any script. When capture is on, an error's stack lists, innermost first, one entry per active command call from the failing command out to the script's top level, each with the evaluated words of that command and the line, column and byte index of its first character in the source it came from. Error reporting itself never fails, whatever the position of the failing command.",
 ["programs","configurations"],"every script that fails at any nesting depth, through any combination of control commands, closures, macros, procedures, aliases, ensembles, namespaces, modules and coroutines, with capture on and off",
 "Error-stack tests check a dozen fixed call chains with capture on; which frames appear and where they point depends on every command on the chain and on whether it was reached by a tail continuation.",
 ["core/errors.go","core/compiler.go","core/parser.go","helena_dialect/core.go"],
 [("opcode positions","core/compiler.go Program.OpCodePositions"),("stack accumulation","core/errors.go ErrorStack; helena_dialect/core.go Process")],
 observe=["result data of failing top-level evaluation (error stack levels)","CLI error report"])

prop("C06","Displayed values read back as the same value",
 "The display form of any value that has one, evaluated as a Helena word, gives back an equal value: strings with any bytes, numbers, booleans, blocks (whose text holds no escape sequence or continuation), lists, dictionaries, tuples and qualified words (selected by keys or indexes), nested to any depth, scalars being equal when their string forms are. Display never fails, and values that have no literal form are displayed as an undisplayable block comment that still parses as one word.",
 ["inputs"],"every value and nesting of values; every byte string as a string value",
 "Display specs cover a handful of literals; quoting must be right for every byte sequence and every nesting.",
 ["core/display.go","core/values.go","core/syntax.go","helena_dialect/lists.go","helena_dialect/dicts.go"],
 [("literal quoting","core/display.go DisplayLiteralOrString/DisplayLiteralOrBlock"),("structural display","core/values.go Display methods; helena_dialect DisplayListValue/DisplayDictionaryValue")],
 observe=["display text of values re-evaluated by the interpreter"])

prop("C07","Suspension and resumption are transparent",
 "A script whose commands suspend (yield) at any points and are resumed later computes exactly what it computes when those commands return their resume value directly: same result, same errors, same effects in the same order, each performed once. This holds for suspensions anywhere: inside words, expressions, loop bodies and tests, branches, handlers, closures, macros, procedures, namespaces, ensembles, aliases, guards and coroutines, any number of times, and whatever other scripts run between suspension and resumption.",
 ["programs","schedules"],"every script, every set of suspension points in it, every interleaving of several suspended computations",
 "Each command's spec yields once at one place; the state kept across a suspension is hand-written per command and only wrong for particular combinations of nesting, repetition and interleaving.",
 ["core/compiler.go","helena_dialect/core.go","helena_dialect/controls.go","helena_dialect/logic.go","helena_dialect/ensembles.go","helena_dialect/closures.go","helena_dialect/procs.go","helena_dialect/macros.go","helena_dialect/namespaces.go","helena_dialect/basic_commands.go"],
 [("continuations","helena_dialect/core.go ContinuationValue/Process"),("resumable commands","core/commands.go ResumableCommand; per-command Resume methods"),("program state reuse","core/compiler.go ProgramState.Resume")],
 observe=["results and effect logs of suspended versus direct executions"])

prop("C08","Values are immutable and results never alias later changes",
 "Once a script holds a value (list, tuple, dictionary, string, script, argument list, command arguments), no later operation on that value, on anything derived from it, or on the variable it came from changes what the holder observes. Every operation that \"modifies\" a collection returns a new value and leaves its operands as they were. Host code that keeps a returned value sees the same content for ever.",
 ["histories","programs"],"every sequence of operations on every value held anywhere: variables, constants, captured arguments, collection elements, host references",
 "Specs check the returned value, not that operands are untouched, and aliasing only shows when spare slice capacity or reused buffers meet a later operation.",
 ["core/values.go","helena_dialect/lists.go","helena_dialect/dicts.go","helena_dialect/argspecs.go","helena_dialect/ensembles.go","helena_dialect/aliases.go","helena_dialect/tuples.go"],
 [("copy-on-write collection commands","helena_dialect/lists.go, dicts.go"),("argument slices","core/compiler.go frame args; helena_dialect/ensembles.go")],
 observe=["deep snapshots of every value held, re-read after each later operation"])

prop("C09","No script crashes or hangs the host",
 "Whatever source text and command arguments are given, parsing, compiling and running a script (whose own recursion and loops are bounded) ends with a result or a reported error; the host never panics, faults, deadlocks or runs forever. Wrong argument counts, wrong value types, values without a string form and malformed scripts passed to any command are reported as script errors. After an error the same interpreter goes on working and its state is as the commands executed so far left it.",
 ["programs","inputs","histories"],"every command of every dialect and native module, with every number and type of arguments, in every nesting",
 "Specs check selected arities and types; a crash needs a particular value type at a particular argument of a particular subcommand.",
 ["helena_dialect/core.go","core/compiler.go","core/values.go","core/parser.go","picol_dialect/picol_dialect.go","native/go_regexp/go_regexp.go"],
 [("result codes","core/results.go"),("value conversion helpers","core/values.go ValueToString/ValueToInteger/..."),("arity checks","ARITY_ERROR in every command")],
 observe=["process exit of a worker running the real interpreter","result after each error"])

prop("C10","Numbers and mathematics",
 "Integer and real number words, prefix-free infix arithmetic and comparison commands, and the number conversion and type commands compute the mathematically specified results: arithmetic left to right on the same operator rules, integer-valued results presented as integers, comparisons by numeric value, and invalid operands, missing operands or unknown operators reported as errors. The textual form of a number reads back as the same number. The result does not depend on whether operands are given as literals, strings or computed values.",
 ["inputs"],"every numeric literal form, magnitude (including extremes, infinities and NaN where expressible) and operand list",
 "Number specs use a few small operands; overflow, precision, mixed int/real and formatting behaviour at the extremes are not sampled.",
 ["helena_dialect/numbers.go","helena_dialect/math.go","core/values.go"],
 [("arithmetic and comparison","helena_dialect/numbers.go"),("conversions","core/values.go ValueToInteger/ValueToFloat/StringIsNumber")],
 observe=["results of number commands"])

prop("C11","Lists and tuples obey sequence semantics",
 "Every list and tuple operation (length, at with default, range, append, remove, insert, replace, foreach, sort, conversion, display, selection by index, key and tuple) returns what the mathematical sequence operation with the documented index clamping returns, or the documented error, for every index and range including negative, reversed, empty and extreme ones. Sorting returns a permutation ordered by the comparator; iteration visits every element once in order and honours break, continue, return, yield and error. Chained operations equal the composition of the single ones.",
 ["inputs","histories"],"every list content, index, range and sequence of operations",
 "List specs check a few ranges on a three-element list; boundary arithmetic and composition have unbounded inputs.",
 ["helena_dialect/lists.go","helena_dialect/tuples.go","core/values.go","core/selectors.go"],
 [("range clamping","helena_dialect/lists.go range/remove/insert/replace"),("index access","core/values.go ListAt")],
 observe=["results of list and tuple commands"])

prop("C12","Strings obey byte-sequence semantics",
 "Every string operation (length, at with default, range, append, remove, insert, replace, comparisons, conversion) returns what the operation on the string's byte sequence with the documented index clamping returns, or the documented error, for every content and index. Comparisons are by byte order and agree with each other for every pair of operands. Operands of any convertible type behave as their string form does.",
 ["inputs"],"every string content including empty, multi-byte and non-UTF-8 bytes; every index and range",
 "String specs use short ASCII strings and few ranges.",
 ["helena_dialect/strings.go","core/values.go"],
 [("range clamping","helena_dialect/strings.go"),("index access","core/values.go StringAt")],
 observe=["results of string commands"])

prop("C13","Dictionaries obey finite-map semantics",
 "Every dictionary operation (size, has, get with one or many keys and defaults, add, remove, merge, keys, values, entries, foreach, selection by key, conversion from lists and tuples) agrees with a finite map from strings to values: last write wins, absent keys are reported or defaulted, every entry is iterated exactly once and keys, values, entries and iteration describe the same map. Malformed entry lists and keys are rejected with the documented error and without effect. Entry order is the only unspecified aspect.",
 ["inputs","histories"],"every map content, key type and sequence of operations",
 "Dictionary specs use a three-entry map; duplicates, non-string keys, overlapping merges and mixed iteration outcomes are sampled at most once.",
 ["helena_dialect/dicts.go","core/values.go"],
 [("map operations","helena_dialect/dicts.go"),("conversion","helena_dialect/dicts.go ValueToDictionaryValue/ValueToMap")],
 observe=["results of dict commands up to entry order"])

prop("C14","Logic operators evaluate exactly the operands they need, once",
 "Boolean words and the not, and, or operators return the truth value of their operands by Boolean algebra; and / or evaluate their script operands left to right, each at most once, and stop at the first one that decides the result. Any other outcome of an operand (error, return, break, continue, yield, non-boolean value) is propagated at that point with no later operand evaluated. The conditional forms of the boolean words select exactly one of their two arguments, the documented one.",
 ["programs"],"every operand list of literals, values and scripts with every outcome, including suspended ones",
 "Logic specs cover two or three operands with fixed outcomes.",
 ["helena_dialect/logic.go","core/values.go"],
 [("short-circuit loops","helena_dialect/logic.go andCmd/orCmd Execute/Resume"),("condition execution","helena_dialect/logic.go executeCondition")],
 observe=["effect log of operand scripts and result"])

prop("C15","Conditionals and loops run the right bodies the right number of times",
 "if, when, while, loop and foreach test conditions in order, each at most once per turn, run exactly the selected body, and return its result (or the empty result when none is selected); loops iterate every source in step, stop when the test fails, all sources are exhausted or the body breaks, skip on continue, and return the last completed body result. Return, errors, suspensions and custom results leave the construct at once with the given value. Loop variables are bound afresh, destructuring as specified, and are local to the body.",
 ["programs"],"every clause list, condition kind, source combination and body outcome, nested to any depth",
 "Control specs exercise each outcome once at one nesting level and mostly one source.",
 ["helena_dialect/controls.go","helena_dialect/lists.go","helena_dialect/dicts.go","helena_dialect/logic.go"],
 [("state machines","helena_dialect/controls.go whileCmd/loopCmd/ifCmd/whenCmd"),("iteration sources","helena_dialect/controls.go loop sources")],
 observe=["effect log of conditions and bodies; result code and value"])

prop("C16","catch routes every outcome to the right handler and always runs finally",
 "For every outcome of its body (normal, return, yield, error, break, continue, custom) catch runs exactly the handler given for it, with its value bound, and gives the handler's outcome; with no matching handler the outcome itself is propagated; a pass in a handler propagates the original outcome, and a suspended body can be resumed through it. The finally script runs exactly once when the body has ended and no handler left the construct early, in every such case, after the handler. Without handlers, catch returns the outcome's code name and value, and an outcome never escapes its innermost matching catch.",
 ["programs"],"every body outcome times handler set times handler outcome, nested and suspended at any point",
 "catch specs enumerate single handlers with simple bodies; the product of outcomes, handlers, passes, finally and suspensions is not covered.",
 ["helena_dialect/controls.go"],
 [("catch state machine","helena_dialect/controls.go catchCmd Execute/Resume/run")],
 observe=["effect log of handlers; result code and value"])

prop("C17","Variables, constants and destructuring",
 "let creates a constant that can never be changed, redefined or removed; set and get read back exactly what was last assigned; exists agrees with get; unset removes a variable and only a variable. Destructuring a tuple name binds every nested name to the matching element, reports a shape or name error without having bound anything, and qualified and tuple names read exactly the elements they denote. Names are resolved in the innermost scope that the scoping rules give them and never leak into another.",
 ["histories","inputs"],"every sequence of let, set, get, exists, unset on scalar, tuple and qualified names in every scope kind",
 "Variable specs check one command at a time; all-or-nothing binding, constant protection and scope interaction are properties of histories.",
 ["helena_dialect/variables.go","helena_dialect/core.go","core/selectors.go"],
 [("scope tables","helena_dialect/core.go Scope/Context"),("destructuring in two passes","helena_dialect/core.go DestructureValue/CheckDestructure")],
 observe=["get/exists results and error messages"])

prop("C18","Closures, macros and procedures bind and return as specified",
 "A closure runs in the scope where it was defined, a macro in the scope where it is called, a procedure in a fresh scope below its defining one; their arguments are bound as locals invisible outside, never overwritten by the body's own names and gone after the call, also after errors, early returns, recursion and suspension. return ends exactly the innermost call with its value, and break, continue and errors are reported as specified. A return guard is applied to the result exactly once, in the scope of the definition, and its verdict decides the call's result.",
 ["programs","histories"],"every nesting of definitions and calls, argument lists, body outcomes and guards",
 "Specs call each kind in one or two scopes with simple bodies; scoping is a matter of combinations.",
 ["helena_dialect/closures.go","helena_dialect/macros.go","helena_dialect/procs.go","helena_dialect/core.go","helena_dialect/argspecs.go"],
 [("local scopes","helena_dialect/core.go NewLocalScope/ClearLocals"),("guards","helena_dialect/closures.go, macros.go, procs.go Resume")],
 observe=["results, effect log and variables seen inside and outside calls"])

prop("C19","Argument specifications bind deterministically and describe themselves",
 "For every valid argument specification and argument list there is one specified assignment of arguments to required, optional, default, remainder, option and flag arguments, guards applied in order, and it is the one made; any argument list outside the specification's arity is rejected with its usage text and nothing bound. The usage text, help and signature derived from a specification describe exactly the argument lists it accepts. Every malformed specification is rejected with the error naming its fault.",
 ["inputs"],"every specification (valid or not) and every argument list",
 "Argspec specs cover each specifier kind alone and few combinations; the distribution of optional and remainder arguments among options is combinatorial.",
 ["helena_dialect/argspecs.go","helena_dialect/arguments.go"],
 [("specification parsing","helena_dialect/arguments.go BuildArguments"),("assignment","helena_dialect/argspecs.go ApplyArguments/SetArguments/CheckArity"),("usage","helena_dialect/argspecs.go / arguments.go BuildUsage")],
 observe=["bound variables, errors and usage text"])

prop("C20","Coroutines follow their life cycle",
 "A coroutine runs its body step by step: each wait starts or resumes it and returns the next yielded value or the final one, yield passes its value in as the result of the suspended command, and active and done report the state truthfully at every moment. Finished, failed, running or inactive coroutines refuse the operations that do not apply with the specified error and without side effect. Any number of coroutines interleaved in any order keep independent states.",
 ["histories","schedules"],"every body and every sequence of wait, yield, active and done calls on any set of coroutines, from inside and outside them",
 "Coroutine specs run one coroutine through one sequence.",
 ["helena_dialect/coroutines.go","helena_dialect/core.go"],
 [("state machine","helena_dialect/coroutines.go"),("process","helena_dialect/core.go Process")],
 observe=["results of coroutine commands along a history"])

prop("C21","Namespaces and scopes isolate and share exactly what they should",
 "Commands and variables defined inside a scope or namespace are visible there and to the scopes below for commands, and nowhere else unless called, selected or imported through it; the body's result decides whether the command is defined at all. Evaluating or calling through it runs in its own scope whatever the caller, imports copy exactly the named command under the requested name, and redefinition or removal of the outer name leaves earlier references working. Variables of enclosing scopes are never read or written implicitly.",
 ["programs","histories"],"every nesting and history of scope and namespace definitions, calls, evals, imports and selections",
 "Specs use one level of nesting and one definition each.",
 ["helena_dialect/namespaces.go","helena_dialect/scopes.go","helena_dialect/core.go"],
 [("context chain","helena_dialect/core.go Context/Scope.ResolveNamedCommand"),("metacommand","helena_dialect/namespaces.go, scopes.go")],
 observe=["results and visible names in each scope"])

prop("C22","Ensembles dispatch to their subcommands",
 "Calling an ensemble with its ensemble arguments and a subcommand runs exactly the command defined by that name in the ensemble, in the caller's scope, with the guarded ensemble arguments first and the remaining words after; with no subcommand it returns the ensemble arguments, and unknown subcommands or wrong arities are errors that run nothing. Built-in ensembles (lists, dictionaries, strings, numbers and the like) can be extended and called the same way, including through nesting and the list of subcommands. Calling never alters the words of the caller.",
 ["programs","inputs"],"every ensemble definition, argument specification, nesting, extension and call",
 "Specs define one or two subcommands with fixed arities.",
 ["helena_dialect/ensembles.go","helena_dialect/subcommands.go","helena_dialect/argspecs.go"],
 [("dispatch","helena_dialect/ensembles.go EnsembleCommand.Execute"),("argument shifting","helena_dialect/ensembles.go")],
 observe=["argument log of subcommands; results"])

prop("C23","Command values, tuple prefixes and aliases are interchangeable with names",
 "A command can be called by name, through its command value, as the first word of a tuple (nested to any depth) or through an alias with partial arguments, with identical results, effects, errors and suspensions; the words after the prefix are appended in order. An alias keeps calling what it was defined with as resolved at call time, and its metacommand reports that command. Numeric and boolean words used as commands act on their value however they were obtained.",
 ["programs"],"every command, prefix shape, alias chain and argument split",
 "Specs check one alias of one command and one tuple.",
 ["helena_dialect/aliases.go","helena_dialect/core.go","helena_dialect/basic_commands.go"],
 [("prefix expansion","helena_dialect/core.go ExpandPrefixCommand/ExpandPrefix"),("alias","helena_dialect/aliases.go")],
 observe=["argument log, results"])

prop("C24","Modules load once, export exactly what they declare, and never mix",
 "Importing a module runs its body once per registry whatever the number, order and place of imports, and makes available exactly the exported commands, under the requested names, each running in the module's own scope with its state shared by all importers. Missing files, unknown exports, malformed import lists, failing bodies and circular imports are reported as errors that leave importer and registry usable and unchanged. Relative paths are resolved from the importing file.",
 ["histories","configurations","fault_sequences"],"every graph of modules on disk and in scripts, every sequence of imports, every failing module",
 "Module specs import two fixed files.",
 ["helena_dialect/modules.go"],
 [("registry","helena_dialect/modules.go ModuleRegistry"),("path resolution and cycle detection","helena_dialect/modules.go resolve/reserve")],
 observe=["load-effect log per file, results"])

prop("C25","Independent interpreters can run concurrently",
 "Scripts run at the same time in different interpreters of one host process give the results they give alone, and never race on shared memory, whatever the schedule, the dialect and the mix of parsing, compiling, running, suspending and displaying. Compiled programs and values built once can be executed by many interpreters at once without being changed.",
 ["schedules"],"every interleaving of any number of independent interpreters",
 "All existing tests are sequential.",
 ["core/compiler.go","helena_dialect/core.go","core/values.go","picol_dialect/picol_dialect.go"],
 [("shared pools","helena_dialect sync.Pool users; core program state pools"),("package-level tables","package variables across dialects")],
 observe=["Go race detector reports; per-interpreter results against the sequential ones"])

prop("C26","A script's outcome does not depend on unrelated history",
 "Running a script in a fresh interpreter gives the same result whatever scripts ran before in the same host process, in other interpreters, successfully, failing or left suspended for ever. A compiled script run again, in the same or another interpreter, behaves as if compiled afresh. Internally reused objects never carry data from one use to another and are never in use twice.",
 ["histories"],"every history of unrelated evaluations preceding or interleaved with a script",
 "Tests start from fresh fixtures and never look at recycled internal state.",
 ["core/compiler.go","helena_dialect/core.go","helena_dialect/controls.go","helena_dialect/closures.go"],
 [("object pools","sync.Pool users in core and helena_dialect"),("state clearing","core/compiler.go ProgramState.clear / helena_dialect pooled states")],
 observe=["results after varied histories; instrumented pool Get/Put"])

prop("C27","Script nesting and repetition use bounded host stack",
 "Evaluating loops, long sentences and chains of tail calls through control commands, closures, macros, procedures, aliases, ensembles and namespaces uses host call-stack space that does not grow with the number of iterations or the depth of script-level calls made through continuations; the bodies of catch, of coroutines and of modules are processes of their own, and each level of them may take its own host frames. Repeating any script any number of times in one interpreter neither accumulates interpreter state nor slows it without bound.",
 ["programs","histories"],"every depth of nesting of the continuation-based commands and every number of repetitions",
 "No test measures host stack or retained state.",
 ["helena_dialect/core.go","core/compiler.go","helena_dialect/controls.go"],
 [("process stack of continuations instead of host recursion","helena_dialect/core.go Process.Run")],
 observe=["host stack depth inside a native probe command at nesting depth N; retained heap after repetitions"])

prop("C28","The Picol dialect evaluates as Tcl-like semantics prescribe",
 "Every Picol command (arithmetic and comparison, set, incr, if, for, while, proc, return, break, continue, error and the others) gives for all arguments the result, effect or error its Tcl-like definition prescribes, including conditions and bodies given as values or scripts, argument defaults, scoping of procedure variables and propagation of return, break, continue and errors through nested bodies. Variables of one procedure call are invisible to the others.",
 ["programs"],"every Picol script",
 "Picol specs check each command on one or two scripts.",
 ["picol_dialect/picol_dialect.go","core/compiler.go"],
 [("command set","picol_dialect/picol_dialect.go"),("scopes","picol_dialect/picol_dialect.go PicolScope")],
 observe=["results and effect log"])

prop("C29","Native modules expose the host functions faithfully",
 "The regular-expression, logging and operating-system modules return for every argument what the host library returns for it, converted as documented, with host failures and bad arguments reported as script errors. They change nothing but what was asked for: no hidden state is kept between calls and no value passed in is altered (except a regular expression by its Longest method, as in Go).",
 ["inputs"],"every pattern, text, count and argument combination; every environment",
 "Regexp specs check one example per method; logging and os have almost none.",
 ["native/go_regexp/go_regexp.go","native/go_slog/go_slog.go","native/go_os/go_os.go"],
 [("method table","native/go_regexp/go_regexp.go"),("conversion of results to lists","native/go_regexp/go_regexp.go")],
 observe=["results compared with the host library called directly"])

prop("C30","The command line runs scripts and sessions faithfully",
 "Running a file evaluates it exactly once and prints its result with status zero, or its error message on the error output with a failing status; an interactive session evaluates each complete command exactly once in order, keeps waiting while a delimiter or continuation is open, prints each result in display form with its type, or the error message preceded by its call stack with positions, carries state and last result across lines, and survives every error. Input split over lines in any way gives the same results as entered at once.",
 ["inputs","histories"],"every script file and every sequence of interactive lines",
 "The command line has no tests.",
 ["cli/cli.go","main.go"],
 [("REPL reader","cli/cli.go prompt / reader"),("file runner","cli/cli.go source / run")],
 observe=["standard output and exit status of the built executable"])

prop("C31","Arity errors, usage and help agree with what each command accepts",
 "For every built-in and user-defined command and subcommand, a call is rejected for its number of words exactly when the usage shown by its help does not admit that number, and the rejection message shows that same usage (with a placeholder for the name of commands called by value and of subcommands of ensembles, which show the arguments they receive). help accepts exactly the prefixes of valid calls and describes the command that would be called, through aliases, tuples, ensembles and nested subcommands; it never runs the command. The subcommands listed for a command are exactly those it dispatches.",
 ["inputs","configurations"],"every command, subcommand and word count, including user-defined ones with any argument specification",
 "Help specs check literal texts per command; agreement between help, arity errors and dispatch is quantified over all counts and definitions.",
 ["helena_dialect/basic_commands.go","helena_dialect/subcommands.go","helena_dialect/ensembles.go","helena_dialect/aliases.go","helena_dialect/argspecs.go"],
 [("Help methods","helena_dialect per-command Help"),("arity checks","helena_dialect ARITY_ERROR")],
 observe=["messages of wrong-arity calls versus help text"])

prop("C32","Script values split, join and run without change of meaning",
 "Parsing a string into a script value, measuring, appending and splitting scripts preserve their sentences: the split parts appended together are the original, lengths add up, and evaluating a parsed script equals evaluating the same text written in place. Scripts remember their exact source text whenever they have one, and operations on scripts never change the operands. Malformed text is reported as an error and gives no script.",
 ["inputs","programs"],"every script text and every sequence of script operations",
 "Script specs check fixed two-sentence scripts.",
 ["helena_dialect/scripts.go","core/parser.go","core/values.go"],
 [("script commands","helena_dialect/scripts.go")],
 observe=["results of script commands; effects of evaluating the parts"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
try:
    import jsonschema
    sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p,sch)
except ImportError: pass
print(len(P))
