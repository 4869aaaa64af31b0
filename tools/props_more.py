prop("C04", "Labels are unique and every jump reaches the construct it was written for",
     "Every label in the emitted program is defined exactly once and every branch target is defined. Each jump, branch and call reaches the construct it was written for, for any number and nesting of conditionals, loops, switches, blocks, functions, routers and inner transactions, including blocks and functions of the same name in different scopes. A program whose own names collide with each other or with generated labels is rejected with a diagnostic instead of compiled to ambiguous code.",
     ["programs"], "every combination of label-producing constructs side by side and nested, same-named blocks and functions in different scopes, names that collide with generated labels",
     "tests compile single constructs; label clashes need two or more constructs of particular kinds and names in one program",
     [T + "nodes.py", T + "base.py", T + "__init__.py"], [("conditional and loop counters", T + "__init__.py"), ("block and function labels", T + "base.py, nodes.py Block, Func"), ("duplicate label check", T + "__init__.py")],
     EM + "label uniqueness and target resolution over the emitted control-flow graph, and bisimulation with reference code whose labels are unique by construction",
     "pairs and nests of all label-producing constructs", ["emitted TEAL"])

prop("C05", "A variable holds its last assigned value whatever runs in between",
     "Reading a variable gives the value last assigned to that variable, whatever statements, loops, function calls, blocks and inner transaction groups ran in between: variables that are in scope at the same time, or that belong to functions that may be active at the same time, never share a scratch slot with each other, with function parameters, loop variables, or with the compiler's own inner group flag. Only slots 0 to 255 are used; a program that needs more is rejected with a diagnostic.",
     ["programs"], "every kind of scope holding variables x every kind of event between assignment and use (declarations, loops, conditionals, calls with parameters and locals, call chains, groups) x number of variables up to and above the slot limit",
     "slot clashes depend on the history of scopes and calls across a whole program; tests fix the slots of a few short programs",
     [T + "nodes.py", T + "base.py", T + "scope.py", T + "__init__.py"], [("slot allocation", T + "base.py, scope.py find_slot, declare_scratch_var"), ("function slots", T + "nodes.py Func.process"), ("release of loop variables", T + "nodes.py ForStatement")],
     EM + "scratch-slot value numbering over the emitted control-flow graph against reference code with one location per variable",
     "holders x events enumerated; limits probed around 150..300 variables", ["emitted TEAL"])

DONE |= {"C04", "C05"}

prop("C06", "Struct and box fields keep the declared layout",
     "For every struct, fields are laid out one after another in the order of declaration, without gap or overlap, each with the size of its type, and the struct's size is their sum. Reading a field of a struct variable or of a typed box yields exactly that field's bytes (integers converted from big-endian), wherever the variable lives; writing a field replaces exactly that field's bytes, integers converted to the field's size, and leaves every other field as it was. CreateBox, OpenBox and Box make the documented existence and size checks with the struct's size, and SizeOf and the inspect output report the same sizes and offsets. Structs with fields of no fixed size or repeated fields, and uses of unknown fields, are rejected with a diagnostic.",
     ["programs"], "every kind, number and order of field types, fields at every position including beyond 255 bytes, struct variables and boxes in every scope, nested structs, several structs with the same field names; arbitrary stored values",
     "the tests contain a handful of structs with small fields; offsets, sizes and encodings of other layouts, large structs and several structs in one program are never compared",
     [T + "types.py", T + "nodes.py", T + "expression_nodes.py", T + "stdlib.py", T + "base.py"],
     [("layout", T + "types.py Struct, StructField, define_struct"), ("field reads", T + "expression_nodes.py StructOrBoxField"), ("field writes", T + "nodes.py StructOrBoxAssignment"), ("box declarations", T + "nodes.py BoxDeclaration")],
     EM + "value-numbering equivalence of emitted field accesses with reference code derived from an independent layout computation",
     "field lists are enumerated (all triples of six types in the thorough tier, sizes around 255/256); stored values and keys are holes", ["emitted TEAL", "inspect output"])
DONE |= {"C06"}

prop("C07", "Values of the wrong type or number are rejected everywhere, others compile",
     "Every place that takes typed values - variable declarations and assignments (of one or several values), constants, arguments and return values of functions, fields of structs and boxes, box keys, assertions, operands of operators and opcodes, arguments of standard library functions - is checked, at every nesting of constructs and for every kind of expression the value comes from: a value whose type does not fit, too few or too many values, and expressions of no or several values where one is needed are rejected with a diagnostic, and well-typed uses compile to code that uses the value unchanged.",
     ["programs"], "every kind of place x every construct around it x every kind of type given and expected x every kind of expression; every operand of every opcode of the language specification",
     "tests reject a few ill-typed statements at top level; a missing check in one construct, position or nesting goes unnoticed",
     [T + "nodes.py", T + "expression_nodes.py", T + "stdlib.py", T + "types.py", T + "utils.py"],
     [("assignments and declarations", T + "nodes.py Assignment, DeclarationWithAssignment"), ("arguments", T + "base.py check_arg_types"), ("returns", T + "nodes.py Return"), ("single values", T + "base.py check_single_value")],
     "Abstract interpretation of the compiler's syntax tree over program templates whose expressions are holes of a chosen type: every path must end in a diagnostic for ill-typed places, or in code equivalent to the reference for well-typed ones",
     "representative types per place in the quick tier, all pairs of 15 target and 30 value types in the thorough tier", ["diagnostics", "emitted TEAL"])
prop("C08", "The type relation is the documented one",
     "A value fits a place exactly if the documented rules say so: int and uint64 are the same; smaller integers fit larger ones, never the other way; bytes[N], addr, uint8[N], structs and bytes of the same size are interchangeable exactly when the sizes are equal, while values of unknown size need a cast; any and bytes accept bytes of every size; int and bytes never mix; a reference to a box is neither the struct in it nor a reference to a box of another struct. Type names mean what the documentation says, with the documented sizes, and unknown type names are rejected. Literals, constants, opcodes, struct fields and functions have the type the documentation or the AVM specification gives them.",
     ["programs"], "every ordered pair of types of the language with sizes equal and different, every way of naming types, every literal form, every source of typed values",
     "the tests sample a few pairs; the relation is a matrix over an infinite set of sizes",
     [T + "types.py", T + "expression_nodes.py", T + "nodes.py", T + "langspec.py"], [("relation", T + "types.py can_hold of every class"), ("type names", T + "types.py get_type_instance"), ("literal types", T + "nodes.py Literal*")],
     "Abstract interpretation of the compiler's syntax tree over assignment templates for every ordered pair of types, compared with an independently written relation",
     "sizes 1..52 around each boundary; 16 targets x 34 values; literals up to 4096 bytes", ["diagnostics", "emitted TEAL"])
DONE |= {"C07", "C08"}

prop("C09", "Standard library functions do what the documentation says for all arguments",
     "Each Tealish function (Cast, UncheckedCast, Convert, FromBytes, ToBytes, Concat, Rpad, Lpad, SizeOf, Address, ARC28Event, EnsureType, Error and the others) compiles to code that computes its documented value for every value of its arguments, makes exactly the documented run-time assertions (lengths in bytes, integers that fit) and no others, evaluates each argument once and in order, has the documented type, and works in every place an expression can stand and nested in other calls. Wrong numbers or kinds of arguments are rejected with a diagnostic.",
     ["programs"], "every function x every type and size of argument and target (1..70 bytes and beyond 255) x every place an expression can stand; arbitrary argument values",
     "tests compile one or two calls of some functions and never run the code; sizes, paddings and assertions of other sizes and types are unchecked",
     [T + "stdlib.py", T + "expression_nodes.py", T + "types.py"], [("functions", T + "stdlib.py"), ("calls", T + "expression_nodes.py FunctionCall")],
     EM + "value-numbering equivalence with reference code for every function, argument type and size",
     "sizes are enumerated around 1..70, 255..257 and 4096; arguments are holes", ["emitted TEAL", "diagnostics"])
prop("C10", "The router reaches the named public function with checked arguments",
     "A router dispatches on the first application argument: each listed name, and no other value, reaches the function of that name, only under the OnCompletion (or creation) its decorator declares; every argument is taken from the application argument of its position, converted to the declared type with its length or range checked; the return values are logged once, in order, integers as 8 bytes, with the documented prefix, and the program then succeeds. Any other first argument fails. Routes to functions that do not exist or are not public, and decorators whose parameters are not understood, are rejected with a diagnostic.",
     ["programs"], "every number of routes, OnCompletion, number and type of arguments and return values at every position, router in the main program or in a block, other statements around it, any function names",
     "the tests contain two routers of two functions as text; other types, positions, names and counts are unchecked and the dispatch is never executed",
     [T + "nodes.py", T + "types.py"], [("dispatch", T + "nodes.py Router"), ("decorators", T + "nodes.py FunctionDecorator, Func")],
     EM + "control-flow and value-numbering equivalence of the emitted dispatch with reference code",
     "0..15 arguments, pairs (thorough: triples) of 12 argument types, 1..3 return values of 8 types, up to 40 routes; argument values are unbounded", ["emitted TEAL", "diagnostics"])
DONE |= {"C09", "C10"}

prop("C11", "Calls pass arguments and results by position, from every call site",
     "Every call of a user function, from the main program, blocks, other functions, loops and groups, and nested in the arguments of other calls, runs the function of that name that is in scope with each parameter holding the argument of its position, and each return statement, at any nesting of constructs inside the function, hands back exactly its expressions, each to the name of its position, leaving the caller's operands untouched. Return expressions may contain commas, parentheses and quotes in strings and calls. Functions that can end without a return statement, returns outside of functions, and returns or calls of the wrong number of values are rejected with a diagnostic.",
     ["programs"], "0..16 parameters and 0..8 results of every type, returns at every nesting of conditionals and loops, call graphs over four functions in program and block scope in every order, nested calls in every kind of place, every form of returned expression",
     "the tests contain a few functions of one or two parameters; positions, nestings and call graphs beyond them are unchecked",
     [T + "nodes.py", T + "expression_nodes.py", T + "scope.py", T + "base.py"], [("definitions", T + "nodes.py Func, ArgsList"), ("returns", T + "nodes.py Return, split_return_args"), ("calls", T + "expression_nodes.py FunctionCall, UserDefinedFuncCall")],
     EM + "value-numbering equivalence through calls with reference code whose parameters are bound by position",
     "enumerated shapes (thorough: triples of types, nestings to depth 3, all definition orders); argument values are holes", ["emitted TEAL", "diagnostics"])
prop("C12", "Inner transactions carry their own fields and are submitted as written",
     "Each inner transaction is begun, given exactly the fields written in it, each with the value of its own expression and in the order written (array fields by rising index), and submitted at once; transactions executed inside an inner group - directly, in conditionals and loops, or in functions called from it - are submitted together at its end, in the order of execution, and transactions before and after the group, or of the same functions called outside of it, stay on their own. This holds at every position of the program and leaves variables and the stack untouched. Array fields out of order and texts that are not fields are rejected with a diagnostic, none is ignored.",
     ["programs"], "every field and array field, any number and order of fields and transactions, groups with any statements between, functions with inner transactions called in and outside of groups, at every program position",
     "tests compile three fixed groups and compare text; which group a transaction ends up in depends on run-time history",
     [T + "nodes.py"], [("transactions", T + "nodes.py InnerTxn, InnerTxnFieldSetter"), ("groups", T + "nodes.py InnerGroup"), ("group flag and macros", T + "nodes.py Program.process, Program.write_teal")],
     EM + "lockstep dataflow with constant propagation of the group flag against reference code that tracks the group in a location of its own",
     "control flow inside groups to depth 2; 45 fields and 6 arrays up to index 15", ["emitted TEAL", "diagnostics"])
DONE |= {"C11", "C12"}

prop("C13", "The source map leads every emitted line to the line it was written on",
     "For every compiled program the source map has exactly one entry for each emitted line (numbered from 1), and it names the line of the Tealish source (numbered from 1) holding the statement, branch, field or expression that the emitted code was generated for: all code of a single-line statement maps to that line, code of elif and return to the line of that elif and return, an inner transaction field to the line of the field; only shared support code may belong to no line. Both directions of the map agree, whatever comments, blank lines and declarations surround the statement. Each `// tl:N:` comment in the TEAL quotes line N of the source. The message of each assert, whole and for that assert's line only, is recorded in the map, whatever characters the message and the condition contain.",
     ["programs"], "every statement and expression form at every position of a program, nested control flow, functions, groups, any lines before and between, messages and conditions with strings of any content",
     "tests never look at the source map; a wrong line only misleads the developer who debugs a failed transaction",
     [T + "__init__.py", T + "nodes.py", T + "base.py", T + "utils.py"], [("line bookkeeping", T + "__init__.py TealWriter.write, get_map"), ("line numbers of nodes", T + "nodes.py Node.__init__, base.py line_no"), ("messages", T + "nodes.py Assert"), ("map", T + "utils.py TealishMap")],
     EM + "lockstep simulation with a reference program whose instructions are tagged with source lines; region rule for instructions without observable effect",
     "shapes enumerated from the statement and expression catalogues; instructions without effect are placed by the statement they stand in", ["TealishMap", "TEAL comments"])
DONE |= {"C13"}

prop("C18", "Commands write exactly their result, and only when they succeed",
     "`tealish compile`, `build`, `format`, `inspect`, `stats` and `langspec` create or alter no file but their documented output: compile writes the TEAL of each source to build/<name>.teal beside it, where <name> is the name of the source without its final .tl, so that different sources never share an output; build also writes the bytes the chosen assembler returned for exactly that TEAL, and a valid JSON map; format replaces the file by the whole formatted program; inspect, stats and langspec diff write nothing, and stats prints for each program the number of its lines that are neither blank, a comment nor `end`; --quiet prints no progress; langspec fetch and update write ./langspec.json with what was fetched. When the program is rejected - whatever the error - the source and all earlier outputs are left as they were, and the command ends with an error message naming the problem, not a traceback; when an assembler or download fails no output of it is written and the command fails.",
     ["programs", "fault_sequences"], "every command x programs and names of every kind, directories, earlier outputs longer and shorter than the new, every kind of rejected program, failing or missing assembler and network",
     "no test runs a command of the command line tools",
     [T + "cli.py", T + "build.py", T + "langspec.py", T + "__init__.py"], [("compile and build", T + "cli.py _build"), ("format and inspect", T + "cli.py"), ("langspec", T + "cli.py, langspec.py"), ("assemblers", T + "build.py")],
     "Effect analysis: each command, found through its click decorators, is interpreted over the syntax tree with a modelled file system, assembler and network; the set of altered files and their contents (templates) are compared with the documented effect",
     "the file system itself does not fail; a crash in the middle of a write is not covered", ["files", "exit status"])
prop("C19", "Results do not depend on what was compiled before or on the environment",
     "The TEAL, map, formatted text, inspect output or error of a program is determined by its text and the language specification alone: compiling, formatting, inspecting or rejecting any other programs before, after or interleaved in the same process (structs, constants, functions, blocks, messages, labels, slots or line numbers of the same or other names), the order in which sets are iterated, the time, random values, environment variables and memory addresses make no difference, and a result once returned is not altered by later calls.",
     ["programs", "histories"], "every ordered pair of programs covering every kind of definition, valid or rejected at any stage, x compile, format and inspect, and interleavings of the stages of two compilers",
     "each test compiles its program and looks at that result alone; leaks between programs only show for particular histories",
     [T + "__init__.py", T + "types.py", T + "scope.py", T + "nodes.py", T + "langspec.py"], [("compiler state", T + "__init__.py TealishCompiler, TealWriter"), ("types of the program", T + "scope.py Scope.structs"), ("scopes", T + "scope.py")],
     "Abstract interpretation of pairs of calls over one heap (module, class and default-argument state included, caches modelled), compared with the same call on a fresh heap; reversed set iteration; taint of environment values",
     "pairs of calls; threads only at the granularity of the compiler's stages", ["emitted TEAL", "TealishMap", "inspect output", "diagnostics"])
DONE |= {"C18", "C19"}

prop("C21", "Program counters lead to the source line and assert message they belong to",
     "Once a program's map is updated with the assembler's source map, every program counter leads to the line (numbered from 1) of TEAL holding the opcode at that program counter, to the line of Tealish that opcode was emitted for, and to the message of the assert there, if and only if that opcode ends that assert; program counters that belong to no opcode have no line and no message. The same answers are given after the map was written as JSON and read back, by the library and by the map file `tealish build` writes, whatever the length of the program, of its comments and of its messages.",
     ["programs"], "programs with asserts in every construct, code before and after, messages of any content, TEAL with several opcodes or none on a line, every program counter; map written and read back",
     "no test looks at program counters; a map that is off by one line only misleads the developer who debugs a failed transaction",
     [T + "utils.py", T + "build.py", T + "cli.py", T + "__init__.py"], [("map", T + "utils.py TealishMap"), ("assembler source map", T + "build.py assemble_with_algod"), ("map file", T + "cli.py _build")],
     "Abstract interpretation of the compiler and the map over the syntax tree; the assembler is a model giving each opcode of the emitted TEAL its program counter in the algosdk SourceMap convention; answers are compared with the emitted lines themselves",
     "the assembler's own map is taken to be right; sizes of opcodes are arbitrary distinct values", ["TealishMap", "map files"])
DONE |= {"C21"}

prop("C17", "Formatting keeps the program, its comments and its lines",
     "For every program that compiles, `tealish format` and reformat_program succeed, and the result is the same program: every line keeps its code (names, types, literals, operators, order of arguments - only the spacing is changed) and its comment, on its own line or at the end of a line, every blank line stays, and nothing is lost, added or moved; the formatted program compiles to the same TEAL, source map and assert messages. Formatting it again changes nothing, the result does not depend on the indentation and spacing of the source, and every level of nesting is indented by four spaces. A program that does not parse or compile is rejected with a diagnostic, never rewritten into another one.",
     ["programs"], "every statement and expression form at every position, every kind of definition and literal, comments and blank lines at every line of programs with every construct, several indentations and spacings",
     "the tests format four small programs; a construct that is formatted wrongly silently rewrites the source of whoever uses it",
     [T + "nodes.py", T + "expression_nodes.py", T + "__init__.py", T + "stdlib.py"], [("statements", T + "nodes.py _tealish methods"), ("expressions", T + "expression_nodes.py _tealish methods"), ("comments", T + "__init__.py TealishCompiler.peek, reformat")],
     "Abstract interpretation of compile, format, compile, format over program templates; the templates are compared line by line and token by token, the emitted programs instruction by instruction",
     "shapes enumerated from the statement and expression catalogues; names, literals, comments and operands are holes", ["formatted source", "emitted TEAL", "TealishMap"])
DONE |= {"C17"}

prop("C20", "Every invalid program is rejected at once, with a diagnostic naming its line",
     "For every text, compiling ends: either with the compiled program or with a ParseError or CompileError whose message names the line (counted from 1) of the statement at fault - never with another exception, never by running forever or for a time exponential in the length of a line or the depth of nesting. Every statement that is not a statement of the language, uses a name, type, field, block or function that does not exist, declares a name, constant, function, block, struct or field a second time, has values of the wrong number or type or out of range, or stands where it is not allowed, and every construct that is not closed, is rejected, at every position of a program, whatever comes before it.",
     ["programs"], "some 190 kinds of invalid statement at thirteen positions, 108 kinds of program with a broken structure, changes of one token, lines left out, repeated or swapped, programs cut off after any line, nested expressions of every form, every regular expression applied to a line",
     "the tests contain a few dozen errors, mostly on the first line of a program of one statement; other exceptions, wrong line numbers and hangs show for particular texts only",
     [T + "nodes.py", T + "expression_nodes.py", T + "base.py", T + "errors.py", T + "tealish_expressions.tx", T + "tx_expressions.py", T + "stdlib.py"], [("diagnostics", T + "errors.py CompileError, nodes.py ParseError"), ("structure", T + "nodes.py Node.add_child, consume methods"), ("names", T + "base.py lookups"), ("expressions", T + "tx_expressions.py, tealish_expressions.tx")],
     "Abstract interpretation of the compiler over invalid program templates (typed outcome: exception class and line in the message); ambiguity analysis of the automata of all regular expressions; step-counting of the grammar",
     "shapes enumerated; the quick tier samples one changed token in eight", ["diagnostics"])
DONE |= {"C20"}

prop("C16", "Every accepted program is well-formed TEAL",
     "The TEAL of every program that compiles is accepted by the assembler as it is: every line is an opcode of the language specification, a label, a #pragma or a #define; every opcode has exactly the immediate arguments it takes, each of the right kind and in range (uint8 slots, indexes and counts, field names of that opcode's own group of fields, integers below 2^64, byte literals and escapes TEAL can read, valid addresses); every name used is defined before, every label branched to is defined once, and no name or label can be mistaken for an opcode's field or keyword. What TEAL can not express - integers out of range, unknown escapes, broken hex, invalid addresses, indexes above 255, unknown fields, missing or surplus immediates - is rejected with a diagnostic, and everything TEAL can express is accepted and denotes the value written.",
     ["programs"], "the programs of all other families, all literals (integers at the limits, strings with every escape and quote, hex, addresses), every named field with every index, names equal to fields, opcodes and keywords, changed programs that are still accepted",
     "no test assembles the emitted TEAL; whether an assembler takes a line depends on the literal, the index and the names of the particular program",
     [T + "expression_nodes.py", T + "nodes.py", T + "tealish_builtins.py", T + "__init__.py"], [("literals", T + "expression_nodes.py Integer, Bytes, HexBytes"), ("fields and indexes", T + "expression_nodes.py GroupIndex, field expressions, nodes.py InnerTxnFieldSetter"), ("constants", T + "nodes.py Const"), ("slots and labels", T + "scope.py, nodes.py")],
     "Abstract interpretation of the compiler over program templates; each emitted line (a template, slots and operands as intervals) is checked against an independent table of the assembler's syntax, definitions and uses of names are matched",
     "the table of the assembler is written by hand for TEAL 8; program size limits are not covered", ["emitted TEAL", "diagnostics"])
prop("C22", "Opcodes are called with their own arguments, in order, and no others",
     "Every opcode of the language specification can be called by its name as documented: immediate arguments first, exactly as many as the opcode has, then exactly its stack arguments; the call compiles to the code of each stack argument, in the order written, followed by that one opcode with those immediates, and its values are those the opcode leaves, with their types, in the order the specification gives. Fields, labels, bytes or integers are only taken as immediates where the opcode has that kind of immediate. Calls with too few or too many arguments of either kind, with arguments of wrong types, or of names that are no opcode are rejected with a diagnostic.",
     ["programs"], "every opcode of the specification x every number of arguments, immediates of every kind and value, stack arguments of every type and form, results used in every way",
     "the tests call a handful of opcodes with one set of arguments each; a wrong signature of any other opcode goes unnoticed until the program fails on chain",
     [T + "langspec.py", T + "expression_nodes.py", T + "langspec.json"], [("opcode calls", T + "expression_nodes.py FunctionCall op calls"), ("signatures", T + "langspec.py Op, LangSpec"), ("specification", T + "langspec.json")],
     "Abstract interpretation of the compiler over one call template per opcode and number of arguments; emitted code and result types are compared with an independent table of TEAL 8 opcodes (immediates, arguments, results)",
     "the independent table is written by hand; opcodes that can not be calls (branches, constant blocks) have to be rejected or keep their documented form", ["emitted TEAL", "diagnostics"])
prop("C23", "Minifying TEAL keeps the code and leads each line back to its origin",
     "minify_teal and strip_comments return, for any TEAL (compiled or written by hand), the same program: the same instructions, macros and pragmas in the same order, string literals untouched whatever they contain (//, labels, colons, quotes), every branch, callsub, switch and match leading to the same place; only comments, blank lines, surrounding spaces and repeated labels of one place are dropped. minify_teal leaves one label for each place - never renaming anything else that only looks like a label or contains one - and its map gives for each line of the result the line (from 1) of the original it was. strip_comments keeps all labels. Minifying the result again changes nothing.",
     ["programs"], "TEAL of all statement and expression forms, and hand-written TEAL with strings, comments, labels that are prefixes of others or of opcodes and fields, several labels of one place in any order, several opcodes on a line",
     "the test minifies one program; a label within another label or a // in a string corrupts only particular programs, silently",
     [T + "utils.py"], [("minify", T + "utils.py minify_teal"), ("comments", T + "utils.py strip_comments, get_code"), ("labels", T + "utils.py replace_labels")],
     "Abstract interpretation of both functions over lists of TEAL lines (templates); statements of argument and result are compared, with labels resolved to the instruction they stand before",
     "hand-written TEAL is enumerated; strings in it are holes or a list of awkward texts", ["TEAL"])
DONE |= {"C16", "C22", "C23"}
prop("C15", "Nothing that is written is ignored",
     "Every token and every line of an accepted program takes effect: adding, leaving out, repeating, replacing or exchanging tokens or lines of it - a surplus word, bracket, operator, argument, negation, literal or statement anywhere in a line, before it or after it - either makes the program be rejected with a diagnostic, or changes the compiled code or assert messages. Nothing is read only in part, skipped, or taken for something shorter. Only spacing, blank lines, comments, leading zeros and digit separators, the size in the name of a type (which is only checked) and the names and types of things that are not used have no effect.",
     ["programs"], "programs with every construct x every token added, left out, repeated, exchanged or replaced, every line added, left out or repeated",
     "the tests contain programs that are right and a few that are wrong; that a surplus token is ignored shows for no program that is written as it should be",
     [T + "nodes.py", T + "tealish_expressions.tx", T + "tx_expressions.py", T + "base.py"], [("line patterns", T + "nodes.py Node.pattern, consume methods"), ("expressions", T + "tealish_expressions.tx"), ("calls", T + "expression_nodes.py FunctionCall")],
     "Abstract interpretation of the compiler over program templates and their edited variants; the sets of compiled code and assert messages of all partitions are compared",
     "the quick tier samples the edits: repeated tokens and text before or after a line are always tried, one in sixty of the others (thorough: one in four)", ["emitted TEAL", "TealishMap", "diagnostics"])
DONE |= {"C15"}
prop("C14", "A name denotes the innermost visible definition and nothing else",
     "Every use of a variable, struct variable, box reference, constant, function argument, function or block denotes the innermost definition of that name visible there. Blocks, functions, while loops and for loops have scopes of their own, the branches of an if do not. A variable, box reference or constant is visible after its declaration (not in it) in its scope and the scopes within, the variable of a for loop and the arguments of a function only within; functions and blocks are visible everywhere in the scope they are defined in and in the scopes within. Functions can read the variables around them but not assign to them. Using a name where no definition of that kind is visible, declaring a variable, reference, argument or constant where one of its name is visible, or defining a function or block twice in one scope is rejected with a diagnostic; the same name in scopes apart, or for a variable, a function and a block, is accepted and each keeps its own meaning. Names are compared as a whole, whatever keyword, opcode, type or other name they resemble.",
     ["programs"], "every kind of definition at 25 places of a program of nested blocks, functions and loops x every place of use, reads and assignments; pairs of definitions of one name; every set of scopes defining a function or block; 100 names like keywords, opcodes, types, labels and other names",
     "the tests use distinct names in flat programs; a name that leaks out of a loop, a block or a function, or resolves to another definition, shows only for particular combinations of places",
     [T + "scope.py", T + "base.py", T + "nodes.py", T + "expression_nodes.py"], [("scopes", T + "scope.py Scope"), ("lookups", T + "base.py get_scope, get_var, get_blocks, declare_scratch_var"), ("scopes of constructs", T + "nodes.py new_scope of Block, Func, WhileStatement, ForStatement")],
     "Abstract interpretation of the compiler over programs with definitions and uses at every pair of places; an independent scope rule decides acceptance and what each use denotes, the emitted code is compared with reference code in which every definition has its own location",
     "places and names are enumerated; the quick tier samples the invalid pairs of struct variables, references and constants", ["emitted TEAL", "diagnostics"])
DONE |= {"C14"}
prop("C24", "The active language specification decides what opcodes and fields there are",
     "The active specification is that of ./langspec.json if there is one, else the packaged one, and nothing else decides which opcodes can be called by name and which fields Txn, Gtxn, Itxn, Global and inner transactions have. An opcode of it, new or changed, whatever its number of arguments, results and immediates, is called with exactly those arguments and immediates, type-checked, and leaves its results with their types, in order (the top of the stack first); the fields have the types and are the arrays it says; an opcode or field it does not have is rejected, even if the packaged one has it, and its name is free for functions and constants. compare_langspecs, new_ops, get_new_local_ops and `tealish langspec diff`, `fetch` and `update` give exactly the opcodes the one specification has and the other lacks, in the order of the specification, with name, arguments and results. A branch name leads to langspec.json of that branch of go-algorand, a URL to that URL - only /blob/ of a GitHub page becomes /raw/ - and what is read there is what is written.",
     ["configurations", "programs"], "specifications with 30 new opcodes (each number and type of arguments, results, immediates and field names), changed, missing and reordered opcodes, other fields of every namespace x calls with right and wrong arguments; pairs of nine specifications compared; branch names and URLs",
     "the tests run with the packaged specification only; supporting opcodes it does not have is what langspec.json is for, and every wrong assumption about signatures shows only with such opcodes",
     [T + "langspec.py", T + "base.py", T + "cli.py", T + "expression_nodes.py"], [("specification", T + "langspec.py Op, LangSpec, get_active_langspec"), ("comparison", T + "langspec.py compare_langspecs, get_new_local_ops"), ("fetching", T + "langspec.py fetch_langspec, cli.py langspec_*"), ("lookups", T + "base.py lookup_op, get_field_type, lookup_op_field")],
     "Abstract interpretation of package, compiler and commands with a model of the working directory and the network that holds a synthetic specification; emitted code is compared with the signature given there by dataflow over its control-flow graph",
     "specifications have the form of the packaged one; the effect of new opcodes is not known, each is one observable event", ["emitted TEAL", "diagnostics", "command output"])
DONE |= {"C24"}

prop("C25", "Compiled programs run within the limits of the AVM",
     "A compiled program that passes its own assertions runs to its end within the AVM's limits: opcode budget, stack depth, call depth, length of byte strings and program size.",
     ["inputs", "programs"], "every accepted program x every transaction it is run with",
     "how often a loop runs and how long a byte string is depends on the transaction; the tests execute nothing",
     [T + "nodes.py", T + "expression_nodes.py", T + "stdlib.py"], [("emission", T + "nodes.py write_teal of each statement")],
     "none", "not claimed", ["emitted TEAL"])
prop("C26", "The bytecode that is built means what the TEAL says",
     "The bytecode, the hash and the source map that `tealish build` writes are those of the emitted TEAL program: the assembler translates every instruction of it.",
     ["programs"], "every program that is built",
     "the tests have no assembler",
     [T + "build.py", T + "cli.py"], [("assembling", T + "build.py assemble_with_goal, assemble_with_algod")],
     "none", "not claimed", ["bytecode"])
NA.append(("C25", "cost, stack depth and lengths are runtime quantities of the transaction and of loops whose number of rounds no static argument over the compiler's source bounds; tealish promises no bound either (C02 and C05 decide that each statement is balanced and slots stay in range)"))
NA.append(("C26", "goal and algod translate TEAL to bytecode; they are outside the repository and not installed here (C18 and C21 decide that what they return is written and mapped unchanged)"))
