#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mechanism],
        "observe_at": list(observe), "hook_needed": hook}})
SERVE = "cfg dune_verif: src/bin.rs hands the initialised environment to an external serve loop"
T = "The 13 tests are fixed tokenizer/parser snapshots"

p("C01", "Tokenizing any text is total, lossless and classifies by the lexical rules",
  "For every text, tokenizing terminates without crashing and yields tokens that are non-empty, adjacent and together cover the text exactly. Each token's kind is the one the lexical rules give (operators and keywords only when not followed by a symbol character, comments to the end of line, strings with their escapes up to the closing quote or the end, numbers with optional sign and fraction, symbols, whitespace), and exactly the malformed escapes, numbers and characters carry a diagnostic, located on the malformed text.",
  ["inputs"], "all Unicode texts (explored: all short strings over a hostile alphabet, random token soups up to a few hundred characters)",
  T + " over about ten texts; they never vary what follows an operator, what an escape looks like or non-ASCII input.",
  ["src/tokenizer.rs", "src/tokens.rs"], [("ordered alternatives + keyword_tag lookahead", "src/tokenizer.rs parse_token, keyword_tag"), ("one-character illegal token fallback", "src/tokenizer.rs parse_token")],
  observe=["dune::tokenize"])
p("C02", "A program parses to the one tree the grammar prescribes, or is rejected",
  "For every token sequence, the parser accepts exactly the programs of Dune's grammar and produces the tree fixed by precedence (indexing, then * // %, then + -, then comparisons and ranges, then && ||, then application, lambdas, macros, let, if and for, then pipes and redirections) with left associativity, blocks, maps, lists, quotes and optional semicolons after the last statement. Everything else, including adjacent words without whitespace and integers that do not fit 64 bits, is rejected with a syntax error; the verdict and the tree do not depend on how much whitespace or commenting separates the tokens.",
  ["programs"], "all token sequences (explored: every sequence of up to 3-4 tokens over the token vocabulary, random derivations of the grammar, and mutations of valid programs)",
  T + ": three programs are parsed; no test looks at precedence, associativity, blocks versus maps, or rejection.",
  ["src/parser.rs"], [("precedence ladder prec_one..prec_seven, parse_expression", "src/parser.rs"), ("adjacent symbol-like token check", "src/parser.rs parse_script")],
  observe=["dune::parse_script"])
p("C03", "Every rejected text is reported at its place, with the right line, no crash",
  "For every text that is not a valid program, Dune reports an error whose rendering never crashes, quotes the source line (or lines) containing the offending region with the region highlighted, and numbers each quoted line with its real 1-based line number. Malformed tokens are each reported once, in source order.",
  ["inputs"], "all rejected texts: multi-line, long lines, non-ASCII, error at line starts, at end of input, spanning lines",
  T + "; no test renders an error at all.",
  ["src/error.rs", "src/parser.rs", "src/tokenizer.rs"], [("fmt_syntax_error / print_error_lines", "src/error.rs"), ("error positions carried as source slices", "src/parser.rs SyntaxError")],
  observe=["Display of dune::Error", "stderr of dunesh FILE"])
p("C04", "Functions are lexically scoped closures with by-value capture",
  "A function sees its parameter, and for every other name its body uses the value that name had when the function value was created; later changes to those names, and the names visible at the call site, never affect a call. Calling a function never defines, changes or removes a name of the caller, parameters shadow outer names, and applying a function to several arguments equals applying it to them one at a time.",
  ["programs", "histories"], "all programs built of definitions, redefinitions, nested functions and calls (explored: exhaustive small programs and random larger ones)",
  "No test evaluates anything.",
  ["src/expr.rs", "src/env.rs"], [("capture of used symbols", "src/expr.rs eval_mut Lambda, get_used_symbols"), ("call in captured environment", "src/expr.rs eval_mut Apply/Lambda"), ("Environment define/get", "src/env.rs")],
  state=[("bindings", "name to value map of a scope", "src/env.rs Environment.bindings")],
  observe=["value of a program", "bindings after a program"], hook=SERVE)
p("C05", "Macros run in the scope of their caller",
  "Calling a macro behaves exactly like binding its parameter to the evaluated argument in the caller's scope and then executing its body there: definitions made by the body persist in the caller, free names are those of the caller at call time, and the parameter stays bound afterwards. Applying a macro to several arguments passes the rest to the value of its body, each argument evaluated when it is consumed.",
  ["programs", "histories"], "all programs mixing macros, functions, definitions and nested calls",
  "No test evaluates anything.",
  ["src/expr.rs"], [("macro application in the calling environment", "src/expr.rs eval_mut Apply/Macro")],
  observe=["value of a program", "bindings after a program"], hook=SERVE)
p("C06", "Control flow evaluates each part the right number of times, in order",
  "Statements, list elements, arguments and operands are evaluated once each and left to right; an if evaluates its condition once and only the chosen branch; a for evaluates its list once, then its body once per item in order with the loop name bound to that item, and yields the list of body results; let binds only after its value is computed and yields nothing; a block yields its last value and does not open a scope. Truthiness is that of non-zero numbers, non-empty strings, lists and maps, True and callables; everything else is false.",
  ["programs"], "all programs of assignments, blocks, conditionals, loops, boolean operators and printing",
  "No test evaluates anything, so neither order nor multiplicity of effects is ever observed.",
  ["src/expr.rs", "src/binary/init/operator_module.rs", "src/binary/init/mod.rs"], [("eval_mut If/For/Do/Assign/List/Map", "src/expr.rs"), ("is_truthy", "src/expr.rs"), ("&& || ! and to", "operator_module.rs, init/mod.rs")],
  observe=["printed output", "value and bindings"], hook=SERVE)
p("C07", "Errors stop exactly what they should, and err@try catches them faithfully",
  "When a part of a program fails, nothing after it is evaluated, everything it did before stays, and the error of the failing part is the error of the whole. err@try yields the value of its first argument without touching the handler when it succeeds, and otherwise applies the handler to a record of the message, the failed expression and the code that err@codes documents for that kind of error.",
  ["programs", "fault_sequences"], "all programs with failing parts at every position, nested tries and failing handlers",
  "No test evaluates anything; error codes are never compared with the kinds they stand for.",
  ["src/error.rs", "src/expr.rs", "src/binary/init/err_module.rs"], [("? propagation", "src/expr.rs eval_mut"), ("Error::code / Error::codes", "src/error.rs"), ("try_builtin", "src/binary/init/err_module.rs")],
  observe=["error kind of a program", "handler argument", "bindings and output after the failure"], hook=SERVE)
p("C08", "Unbounded recursion is an error, never a crash",
  "A program whose recursion never ends is stopped with a recursion error that can be caught and that leaves the shell running; the process never overflows its stack, however the recursion is built (macros, self-passed functions, builtin operators or combinators in between, quoted code evaluated again). Recursion that stays shallow, and iteration of any length, are never stopped.",
  ["programs"], "all recursion shapes: direct, mutual, through operators, through higher-order builtins, through eval/exec/try, and terminating recursions of every depth below the limit",
  "No test evaluates anything; depth is only reachable by a running program.",
  ["src/expr.rs", "src/binary/init"], [("depth counter", "src/expr.rs eval_mut, MAX_RECURSION_DEPTH")],
  observe=["exit status of dunesh", "error kind"], hook=SERVE)
p("C09", "Arithmetic is exact or an error, and comparison is a consistent order",
  "Integer + - * // % and negation give the exact mathematical result (quotient truncated toward zero, remainder with the dividend's sign) when it fits 64 bits and otherwise a catchable error, never a wrapped value or a crash; string, list and number operands follow the documented overloads and every other combination is an error. == and != are each other's negation and structural, and < <= > >= agree with the numeric, lexicographic (text, lists) order and are all false for incomparable values.",
  ["inputs"], "all operand values including the 64-bit extremes, all operators and arities one to three",
  "No test evaluates anything; overflow and sign cases are never sampled.",
  ["src/expr.rs", "src/binary/init/operator_module.rs"], [("checked integer operations", "src/expr.rs impl Add/Sub/Mul/Div/Rem/Neg"), ("PartialOrd", "src/expr.rs"), ("operator builtins", "operator_module.rs")],
  observe=["value or error of a program"], hook=SERVE)
p("C10", "Quoted code is inert data until evaluated, in the scope the evaluator promises",
  "A quote yields its expression unevaluated with no effects. eval (and import of a file) computes what executing the code here would compute but leaves every binding of the caller as it was, exec (and include of a file) executes it in the caller's scope so its definitions persist, and parsing text then executing it equals having written that text in place.",
  ["programs", "histories"], "all quoted programs, nested quotes, code read from text and files, evaluated in all four ways",
  "No test evaluates anything.",
  ["src/expr.rs", "src/binary/init/mod.rs", "src/binary/init/sys_module.rs", "src/binary/init/parse_module.rs"], [("eval in a cloned environment, exec in place", "init/mod.rs, sys_module.rs")],
  observe=["value and bindings"], hook=SERVE)
p("C11", "List, dictionary and function library operations obey their algebra",
  "For all lists, maps and functions: indexing, insert, head/tail/nth/take/drop/split-at/chunk/zip/unzip/rev/append/cons/range, dict items/keys/values/insert/remove/has?/union/intersect/difference/from-items/flatten, and map/filter/reduce/foldl/foldr/apply/curry/compose/flip/const give the mathematically defined result for every length, index and key, calling the given function on the elements in the defined order exactly once each. They never modify their operands, and arguments they cannot handle (wrong type or count, index out of range) give an error or None, never a crash.",
  ["inputs", "histories"], "all lists, maps, functions, indices (negative, zero, length, beyond) and call chains",
  "No test evaluates anything.",
  ["src/binary/init/list_module.rs", "src/binary/init/dict_module.rs", "src/binary/init/fn_module.rs", "src/binary/init/mod.rs", "src/expr.rs"], [("list builtins", "list_module.rs"), ("dict builtins", "dict_module.rs"), ("fn builtins", "fn_module.rs"), ("Index", "src/expr.rs")],
  observe=["value or error of a program"], hook=SERVE)
p("C12", "String operations are exact on every text",
  "For all texts, the string library (split, join, replace, trim, lines, words, paragraphs, chars, rev, split-at, case conversion and case tests, prefix/suffix/containment, caesar, widths and lengths) returns the defined result, working on characters and never corrupting non-ASCII text; splitting then joining on the same separator, and caesar by k then by -k, give back the original. Arguments it cannot handle give an error or None, never a crash.",
  ["inputs"], "all texts (empty, whitespace, separators at both ends, overlapping patterns, multi-byte characters) and all offsets",
  "No test evaluates anything.",
  ["src/binary/init/string_module.rs", "src/binary/init/mod.rs"], [("string builtins", "string_module.rs")],
  observe=["value or error of a program"], hook=SERVE)
p("C13", "File operations do exactly what they say, and failures change nothing",
  "fs@write, append, mkdir, rmdir, mv, cp, rm and >> / >>> change the file tree exactly as defined and nothing else, and an operation that reports an error leaves the tree as it was; mv and cp never overwrite an existing destination, rmdir never removes a non-empty directory, mkdir creates missing parents, cp and rm act on whole directories, append adds to the end. fs@read, ls, exists?, is-dir?, is-file?, head and tail report the tree as it is, and what was written is what is read back, byte for byte.",
  ["histories", "inputs"], "all sequences of operations over small trees, with present, absent, nested, identical and conflicting source and destination paths, relative, dotted and absolute, of names the file system accepts",
  "No test touches the file system.",
  ["src/binary/init/fs_module.rs", "src/binary/init/operator_module.rs"], [("copy_path/move_path/remove_path/list_directory", "fs_module.rs"), ("destination-exists checks", "fs_module.rs")],
  state=[("file tree", "paths to directories and file contents", "the real file system under the working directory")],
  observe=["file tree after each operation", "values returned"], hook=SERVE)
p("C14", "One working directory governs every relative path",
  "After cd to an existing directory, and only then, the working directory is that directory in canonical form, everywhere at once: pwd, CWD and sys@cwd report it, relative paths of every file operation, include and import resolve against it, and programs start in it; a failing cd changes none of these. A function body always uses the working directory of its caller, and a cd inside a function does not move the caller's.",
  ["histories"], "all sequences of cd (absolute, relative, .., missing, into a file, through links), function and macro calls, file operations and program launches",
  "No test changes directory or runs a program.",
  ["src/env.rs", "src/expr.rs", "src/binary/init/os_module.rs", "src/binary/init/sys_module.rs", "src/binary/init/fs_module.rs"], [("CWD binding", "src/env.rs get_cwd/set_cwd"), ("set_cwd at function call and creation", "src/expr.rs eval_mut"), ("cd", "os_module.rs, sys_module.rs")],
  state=[("CWD", "current directory of a scope", "Environment.bindings[\"CWD\"]")],
  observe=["CWD, pwd, getcwd of launched programs, files touched"], hook=SERVE)
p("C15", "Pipelines and redirections deliver every byte, in order, and finish",
  "In a pipeline each stage receives exactly the complete output of the stage before it (program output as standard input of a program, or as the argument of a function or macro; a value as its text or bytes), whatever the amount of data and whether or not the next program reads it all, and the value of the last stage is the value of the pipeline. The pipeline always finishes once its programs can; >> replaces the file by exactly the piped data, >>> appends it, << feeds the file's contents.",
  ["inputs", "schedules"], "all mixes of program, function, macro and value stages, payload sizes around and beyond the pipe capacity, binary data, consumers that stop early, produce while reading, or do not read",
  "No test runs a program.",
  ["src/binary/init/operator_module.rs", "src/parser.rs"], [("pipe_builtin", "operator_module.rs"), ("expr_to_command", "operator_module.rs"), ("pipe parsing", "src/parser.rs parse_expression")],
  observe=["output of the last stage, files written, value, termination"])
p("C16", "Programs are launched with exactly the given arguments, variables and cwd",
  "Calling an undefined name or a string runs that program once with exactly the given arguments in order: strings verbatim, lists and groups flattened, other values as their printed text, None omitted, nothing split or globbed. Its environment holds the shell's bindings (those not longer than the documented limit) over the inherited one and its directory is the shell's working directory; a program that does not exist, or may not be run, is reported with that specific error, and a non-zero exit status is not an error.",
  ["inputs", "configurations"], "all argument values (empty, spaces, quotes, wildcards, nested lists, None, numbers), variable bindings, aliases, quoted and string program names",
  "No test runs a program.",
  ["src/expr.rs", "src/binary/init/operator_module.rs"], [("Command construction", "src/expr.rs eval_mut Apply"), ("Expression::flatten", "src/expr.rs"), ("expr_to_command", "operator_module.rs")],
  observe=["argv, environment, cwd seen by the program"])
p("C17", "An interactive session equals its complete entries run in order",
  "The REPL collects lines until they form a complete program, then runs it once in the session's environment; its printed result, its effects and the pending state depend only on the sequence of lines. A failing or rejected entry is reported and never ends the session or loses earlier definitions; an empty line abandons an unfinished entry; None prints nothing, a symbol result runs that program, a macro result is called with the working directory, any other value is shown through report; end of input or exit ends it.",
  ["histories"], "all sequences of complete, incomplete, invalid, failing and empty lines",
  "No test starts the shell.",
  ["src/bin.rs"], [("repl loop with pending lines", "src/bin.rs repl")],
  state=[("lines", "pending lines of the current entry", "src/bin.rs repl")],
  observe=["stdout and stderr of dunesh reading lines from standard input"])
p("C18", "No call of a library function can crash the shell",
  "Calling any builtin with any number of arguments of any types and values, including none, ends in a value or a catchable error; it never panics, aborts or hangs the shell, and printing the result in any form does not either.",
  ["inputs"], "every builtin of every module (those that need a terminal or end the process aside), zero to four arguments drawn from every type and from extreme values",
  "No test calls a builtin.",
  ["src/binary/init", "src/expr.rs"], [("argument count and type checks", "src/binary/init/*.rs")],
  observe=["outcome of each call"], hook=SERVE)
p("C19", "Logging prints a message exactly when its level is enabled",
  "log@error, warn, info, debug and trace print their message, with the level's prefix on every line, if and only if the current level is at least theirs; a message that is not printed is not even evaluated. set-level, disable, get-level and enabled? read and write that one level for the whole session, including inside functions.",
  ["histories"], "all sequences of level changes and log calls, all integer levels, single and multi-line messages, several arguments",
  "No test logs anything.",
  ["src/binary/init/log_module.rs"], [("LOG_LEVEL and is_log_level_enabled", "log_module.rs")],
  state=[("LOG_LEVEL", "session log level", "log_module.rs")],
  observe=["stdout of the session"], hook=SERVE)
p("C20", "Text widgets are always exact rectangles",
  "widget@create yields a frame of exactly the requested width and height for every title and text that fit, with the title in the top border and the text wrapped, cut to the frame and never spilling; requests that cannot fit are errors. joinx places widgets of equal height side by side line by line and joiny stacks widgets of equal width, preserving every character; unequal sizes are errors.",
  ["inputs"], "all titles, texts (words longer than the frame, newlines, empty), widths and heights, and nested joins",
  "No test builds a widget.",
  ["src/binary/init/widget_module.rs"], [("create/joinx/joiny", "widget_module.rs")],
  observe=["the string returned"], hook=SERVE)
p("C21", "JSON and TOML documents convert to the same data, or are errors",
  "parse@json and parse@toml convert every valid document to the Dune value with the same structure: objects to maps with the same keys, arrays to lists in order, strings, booleans, null and numbers to the same values at every nesting depth. An empty JSON text is None; any other text that is no document gives an error; and parsing never executes anything.",
  ["inputs"], "all documents generated from nested values, with escapes, empty containers, duplicate and odd keys, and corrupted documents",
  "No test parses a document.",
  ["src/binary/init/parse_module.rs"], [("json_to_expr / toml_to_expr", "parse_module.rs")],
  observe=["value or error"], hook=SERVE)
p("C22", "Highlighting never alters the text being typed",
  "For every input line, complete or not, valid or not, the highlighted line is the same text with colour codes inserted: removing the codes gives back the line exactly, colours never leak past the end of the line, and each token is coloured by its kind with malformed parts marked as errors.",
  ["inputs"], "all lines",
  "No test highlights anything.",
  ["src/bin.rs"], [("syntax_highlight", "src/bin.rs")],
  observe=["result of the highlighter"], hook=SERVE)
p("C23", "Random operations stay within their contract",
  "rand@int l h yields an integer with l <= n < h, rand@choose an element of the list, rand@shuffle a permutation of it, and every permitted outcome can occur; requests with no permitted outcome are errors, and operands are not modified.",
  ["inputs", "histories"], "all bounds and lists, over repeated draws",
  "No test draws anything.",
  ["src/binary/init/rand_module.rs"], [("int/choose/shuffle", "rand_module.rs")],
  observe=["values drawn"], hook=SERVE)
p("C24", "The command line runs the file, then the inline code, then the prompt",
  "dunesh FILE executes the whole file, -x executes its words joined by spaces and reports the result, -i continues into the prompt; given together they run in that order in one environment, each at most once, and without -i the shell exits after them. Missing files, syntax errors and failing programs are reported on standard error without losing what already ran, and exit n ends the process with status n at once.",
  ["configurations", "inputs"], "all combinations of FILE, -x and -i with succeeding, failing, invalid and exiting programs",
  "No test starts the shell.",
  ["src/bin.rs", "src/binary/init/os_module.rs"], [("main", "src/bin.rs"), ("exit", "os_module.rs")],
  observe=["stdout, stderr, exit status of dunesh"])
p("C25", "Mathematics is exact on integers and follows one definition everywhere",
  "math@abs, sum, product, max, min, pow, fact, lsh, rsh, l-rsh, a-rsh, iseven and isodd give the exact integer result, or an error when it does not fit 64 bits or an argument is not of the domain; floor, ceil, round and trunc give the integer the definition prescribes; the analysis functions (roots, logarithms, exponentials, trigonometry and their inverses) give the values of the functions they name at every point of their domain. Wrong counts and kinds of arguments are errors and operands are evaluated once, in order.",
  ["inputs"], "all numbers: integers around zero, powers of two and the 64-bit limits, halves and other floats, mixed and nested operands, wrong kinds and counts",
  "No test calls a mathematical function; an off-by-one at a limit, a wrong base or a swapped function shows for particular operands only.",
  ["src/binary/init/math_module.rs"], [("one closure per function", "src/binary/init/math_module.rs get")],
  observe=["value or error of each call"], hook=SERVE)
p("C26", "Every way to bind, read and remove a name acts on one set of bindings",
  "let, sys@set, unbind, sys@unset, for and parameters change exactly the named binding; a name, sys@env, vars, sys@defined? and eval of the quoted name agree about what it is bound to at every moment and in every scope; removing a name makes it undefined and nothing else; quoting yields the code unevaluated and evaluating it gives what the code would have given there.",
  ["histories"], "all sequences of bindings, removals and reads of names (fresh, shadowing builtins, odd symbols, unbound) by all of these means, at top level and inside functions, macros, loops and quoted code",
  "No test evaluates a program, and agreement between the different ways of reading a binding only shows over histories.",
  ["src/env.rs", "src/expr.rs", "src/binary/init/sys_module.rs", "src/binary/init/mod.rs"], [("Environment define/get/undefine", "src/env.rs"), ("set, unset, defined?, env, vars", "src/binary/init/sys_module.rs")],
  state=[("Environment.bindings", "names of one scope", "src/env.rs")],
  observe=["value, output and bindings after each program"], hook=SERVE)
p("C27", "Styles and terminal control write exactly their sequences and leak nothing",
  "Each fmt style and colour function wraps the printed text of its argument in exactly its own sequence and the one that ends it, however they are nested or joined, and fmt@strip gives the text back; console@write puts the lines of a text at the place asked for and leaves the cursor where it was; the cursor, mode and title functions write their one sequence with exactly the numbers given; wrong arguments are errors that write nothing.",
  ["inputs"], "all texts (empty, several lines, other scripts, texts with sequences in them), values, nestings of styles, positions and sizes",
  "No test styles a text.",
  ["src/binary/init/fmt_module.rs", "src/binary/init/console_module.rs"], [("style closures", "src/binary/init/fmt_module.rs get"), ("write, move and mode closures", "src/binary/init/console_module.rs")],
  observe=["value and exact output of each call"], hook=SERVE)
p("C28", "Listings, patterns and trees report exactly what is in the file tree",
  "fs@ls names every entry of a directory once and nothing else; fs@glob gives exactly the paths that match its pattern (?, *, sets, ** and trailing slashes), once each and in order, relative to the shell's working directory, whatever characters that directory has; fs@tree nests exactly the entries down to the depth asked for with the path of each; fs@canon gives the one absolute name. They all agree with one another and with the tree at that moment, and missing places or malformed patterns are errors.",
  ["inputs", "histories"], "all file trees (empty, nested, crowded, hidden, oddly named, linked), patterns, depths and working directories, before and after changes",
  "No test touches the file system.",
  ["src/binary/init/fs_module.rs"], [("list_directory", "src/binary/init/fs_module.rs"), ("tree", "src/binary/init/fs_module.rs"), ("glob, canon", "src/binary/init/fs_module.rs")],
  observe=["value or error of each call"], hook=SERVE)
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
