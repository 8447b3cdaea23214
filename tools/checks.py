NA = {}
T = {}
T["C03"] = ("interprocedural typestate of every error value over the control flow graphs in SSA form",
            "every call that yields an error, in every function reachable from the compiler; errors of the library's own guards included")
T["C04"] = ("effect analysis of every writer of standard output and files, and path sensitive walk of main, the logger and the argument parser",
            "all sites of the program including the library; panics of the Go runtime end the process with a status of their own")
T["C05"] = ("path sensitive walk of the argument loop, reachable loop states as a finite automaton, and the use of every setting in main",
            "options are found by the constants arguments are compared with; the effect of the debug flag is decided by who reads its setting")
T["C06"] = ("path sensitive data flow over SSA: every use of an evaluated property value is guarded by its type and domain checks",
            "every path of every instantiation function is walked with symbolic type chains, properties and members; values are symbolic")
T["C07"] = ("typestate over SSA paths: set-once markers of every property, exclusions and defaults",
            "loop facts are recorded per back edge and imported into the paths that return")
T["C08"] = ("path sensitive data flow over SSA: a uniqueness fact must hold for every list of members at every insertion",
            "insertions into functionalities, constant containers and symbol containers")
T["C10"] = ("path sensitive data flow over SSA: field coverage of the hash functions and provenance of the ID static",
            "every path of every hash function reachable from a block is walked; collisions of the checksum itself are out of reach")
T["C19"] = ("symbolic walk over SSA of expression building and evaluation: the value term of every path compared with the operation of the operator, plus loop and token facts of the parser",
            "every kind of expression and every operator type of the tokenizer; integers wrap at 64 bits, the standard library is trusted")
T["C20"] = ("path sensitive data flow over SSA: facts at every insertion of a member decided against the containment table",
            "the allowed table of the language is part of the rule")
T["C22"] = ("path sensitive data flow over SSA: provenance of every stored attribute from the property of its name",
            "provenance through conversions; the conversion functions themselves are judged by their own rule")
T["C11"] = ("path sensitive data flow over SSA with exact linear and quotient arithmetic on the numbers of the descriptors",
            "every path of every function that makes a descriptor, for all counts, addresses, bits, widths and bus widths; float64 is taken to be exact and overflow is not modelled")
T["C12"] = ("path sensitive data flow over SSA with exact linear arithmetic on register positions; loops summarised by what each iteration places",
            "every path of registerification, for all numbers of functionalities and widths; groups and blackboxes are not placed by this version of the program")
T["C13"] = ("path sensitive walk of the recursive sizing and addressing functions with exact linear arithmetic; loops summarised per iteration",
            "block arrays are taken to have at least one instance, the block tree to share no block; overflow of int64 is not modelled")
T["C14"] = ("path sensitive data flow over SSA with exact linear arithmetic on gaps, and list algebra for the insides of the gap pool",
            "every gap added to or taken from a pool, in every path of registerification")
T["C15"] = ("symbolic walk over SSA of every lookup, builder and resolver: which definition each path answers with, and which scope every expression, definition and chain of types is given",
            "every lookup method of every scope, every function that builds a symbol or an expression, every path; loops summarised per iteration")
T["C17"] = ("symbolic walk over SSA of argument resolution and binding: every store into the bindings of a functionality, and loop summaries for all arguments, parameters, symbols and packages",
            "every path; lists and maps of any length, loops summarised per iteration")
T["C16"] = ("symbolic walk over SSA of import building, package matching and import binding: which package every path answers with, and loop summaries for all imports of all files",
            "every path; the file system decides which directories are packages, the walk over it is judged by which paths are given to which package")
T["C18"] = ("symbolic walk over SSA of doc parsing and attachment: which token every doc attribute comes from, exact linear arithmetic on token lines, and which fields reach the output",
            "every path that builds a symbol from a syntax tree and every functionality or constant made from a symbol; the text of a comment token is trusted to the tokenizer rules of C03")

T["C01"] = ("effect analysis with heap write summaries, symbolic walk over SSA of every loop over a map, and flow of every list made in map order",
            "values of time, chance, addresses, directory order, scheduling; every map order; the standard library's sorts and encoders are trusted to be deterministic")
T["C02"] = ("lockset and effect analysis over goroutines, typestate of locks and wait groups, symbolic walk over SSA of the loops over packages and files",
            "every spawned goroutine, every heap location it may reach by a type and field based abstraction; objects reached through two different globals are taken to be different; number of packages and files unbounded")
T["C23"] = ("recursion analysis over the call graph: every call that may come back is, by a symbolic walk over SSA, either to a part of what the caller was given or under a mark of a typestate; ranking functions for loops",
            "every recursion and loop of name binding, evaluation, instantiation, registerification and hashing; the recursion of the parser follows the finite text and is left out; structures are taken to be built bottom up")
T["C21"] = ("interprocedural must-be-set-before-read data flow over every package level variable reached from the library, with heap write summaries and a symbolic walk of marks that are taken away",
            "every function reached from the library's entry; objects of one compilation are reached only from its own packages, state kept by the operating system (files, environment) is input")
T["C09"] = ("dispatch coverage: set of kinds that can reach each dispatch, decided on a symbolic walk over SSA of every fallback; panics, type assertions and divisions of the later phases shown to be unreachable by path facts",
            "every base type, expression kind, function and property, every path of every instantiating function and of registerification; widths and counts are at least 0, the bus width at least 1; panics on an error reported by a call are left to C03")
