package checks

// tableMins are the least numbers of decided instances per rule; fewer means the analysis lost its subject.
var tableMins = map[string]map[string]int{
	"C05": {"library code": 60, "routines": 30, "program entry": 6, "symbols": 200, "external functions": 20, "headers": 300, "shapes": 20, "dispatch": 10, "descriptors": 30, "roots": 100, "references are followed": 8, "release": 300},
	"C06": {"array access": 200, "array write": 15, "element of every type": 150, "library accessors": 8, "library objects": 9, "panic": 3},
	"C23": {"roots": 100, "release": 300, "heap list": 300, "marks are cleared": 100, "new object": 300, "program start": 5, "references are followed": 8, "read-only and marked objects are left alone": 20, "runtime state in C": 10, "words that are not objects are left alone": 2, "order of phases": 100, "type descriptors": 400},
	"C07": {"binary operator": 30000, "conditional": 2000, "conditional result": 2000, "operator result": 1200, "other operands": 100, "range": 2000, "unary operator": 500},
	"C08": {"assigned and returned types": 40000, "element types": 4000, "statements": 3000},
	"C09": {"argument types": 50000, "declared parameter types": 10000, "number and types of arguments": 2000, "resolution": 2500},
	"C11": {"acceptance": 3000, "match": 150},
	"C12": {"for": 500},
	"C13": {"function value": 1500},
	"C15": {"accepted only if every path returns": 2500, "leaves the function": 3000},
	"C18": {"denoted declaration": 450, "scopes": 600, "top-level names": 60},
	"C21": {"resolved function": 1200, "labels": 5000},
	"C22": {"expression": 5000, "nested expression": 5000, "statement": 1000, "value call": 100, "program": 100, "encodable": 10000, "printing": 40},
	"C24": {"any expression anywhere": 5000, "any name anywhere": 1000, "beyond a limit": 60, "within a limit": 150},
}

var schemaAssume = append([]string{
	"token sequences of the schemas are those of the language (the lexer is decided by C16)",
	"names drawn with math/rand are distinct",
	"the processor and assembler behave as modelled; library routines called by name behave as C05, C06, C14 and C23 decide",
}, cgAssume...)

var libAssume = append([]string{
	"the library's source means what the language defines (C01-C22 decide the compiler)",
	"lists and stacks longer than the bound are treated alike by the same loop",
	"numbers stay within the 63 bits of the tagged representation where stated by the partition",
}, cgAssume...)

var acceptAssume = []string{
	"token sequences of the schemas are those of the language (the lexer is decided by C16)",
	"a schema stands for every program with the same kinds of types and constructs: the checker's decisions depend on type structure and symbol kinds only",
}

func init() {
	for id, d := range map[string]doc{
		"C05": {"The whole installed library is put through the abstractly interpreted compiler and the code of each of its functions must have the effects, result and root maps of its source. The routines the generator writes itself must have the effects their library declarations are used for; the C main function, entry stub and entry function must fit; every symbol used must be defined by the other side and every C function declared with its word count and representation; headers, descriptors, frames, closures and enums must be laid out as the library's interpreted collector and dispatcher read them.", libAssume},
		"C06": {"Emitted code of every element read and write, in every position, must reach the element only under index < length (unsigned) and otherwise call indexOutOfBounds with the index and length; every form of index into every form of array. In the library, interpreted over abstract words, every raw access of an accessor must lie inside the object for all arguments or follow a panic, every object it builds must be allocated with room for the length it stores, and the panics must end the program.", libAssume},
		"C23": {"The allocator, collector and start-up code of the library are interpreted over abstract words on every heap of up to 3 blocks and stack of up to 2 frames (5 and 3 in the thorough run): exactly the frames' roots and the runtime data are marked, exactly the unmarked blocks are released once, the list and headers are restored. Marking is interpreted on every class of word and object. C cells holding collector state are read from LLVM IR. Emitted descriptors must list exactly the reference fields.", libAssume},
		"C07": {"Every operator applied to every pair from a universe of 52 types (each type kind, nested, generic and named) is put through the abstractly interpreted front end; it must be accepted exactly where the operator's signature admits the pair, and the accepted expression must have the operator's result type (tested by assigning it to each type).", acceptAssume},
		"C08": {"Every statement form over every pair of declared and supplied types must be accepted exactly where the types are the same, the condition is bool, the iterated value an array or range, the field exists and the target is writable; decided by abstract interpretation of the front end over type schemas. Mutually dependent generic types are declared in every order; each selection, case and construction through them must be accepted with exactly the declared type under the arguments. Types nested to depth 6 (12) and function types of every parameter count are told apart in every constituent.", acceptAssume},
		"C09": {"Calls of named, overloaded, generic and value callees over every pair of parameter and argument types and all counts must be accepted exactly where counts agree and the types unify with consistent bindings, and the result type must be the declared one under the binding. Argument types nested to depth 6 (12) and function types of every count included.", acceptAssume},
		"C11": {"Matches over enums with 1..n constructors, all positions and payloads are compiled abstractly; the emitted code must test the tag of the once-evaluated value, run exactly that case and bind variables to payload places. All missing, duplicate, unknown, misnumbered case sets must be rejected. Enums of up to 34 (66) constructors are matched in three orders and constructed.", schemaAssume},
		"C12": {"For loops over arrays and ranges, nested in and containing every other construct, are compiled abstractly; the emitted code's effects over abstract words must be those of the loop's definition on all paths (two iterations of each back edge); bodies of up to 70 (300) statements included.", schemaAssume},
		"C13": {"Function literals mentioning outer variables in every syntactic position, nested, stored, returned and invoked are compiled abstractly; creation must capture exactly the mentioned variables' values, the body must read them from their places, invocation must pass arguments in order to the right code. The captured mention is also placed in every composition of two expression forms of a typed grammar, with collector roots checked.", schemaAssume},
		"C14": {"Constructors of structs, enums and array literals with every field count, type and position are compiled abstractly; the emitted constructor must allocate a large enough object labelled with its type's descriptor whose pointer map lists exactly the reference fields, store each argument once at the place selectors and cases read, and return it. Fields of every type of the universe, self- and mutually-referring types, programs of 300 types and literals of 130 (300) elements included.", schemaAssume},
		"C15": {"Bodies built from every combination of terminating and non-terminating statements must be accepted exactly where every path returns; every emitted function must leave by its own return on every path (skip form for Clara callers, plain return for C callers). Chains of up to 20 branches with one that does not return at each place included.", schemaAssume},
		"C18": {"Declarations and uses placed in all combinations of nested scopes must be accepted exactly where the use is inside the declaring scope and no duplicate exists; the emitted code must use the innermost declaration's storage or code. A variable is declared at every place of a body with all scope-opening constructs and mentioned, or declared again, at every other place; blocks, matches and literals nested to depth 35.", schemaAssume},
		"C19": {"Literal tokens at and around every boundary of the 63-bit range and immediate encodings, in decimal and hexadecimal, negated or not, in every position, must be stored as the tagged value or rejected; string objects in emitted data must have the header, length, bytes and terminator the text denotes, for every length up to 130 and among literals that differ little.", schemaAssume},
		"C20": {"Every expression form nested in every expression position, and every statement form nested in every statement position, must be compiled to code with the definitional effects; every ill-typed construct nested in every position must be diagnosed. Every composition of two forms of a typed expression grammar, bodies of up to 70 (300) statements and nestings to that depth must compile to the definitional effects.", schemaAssume},
		"C21": {"Overload sets over all type kinds, counts, names and constructors are compiled abstractly; each declaration must have its own symbol with its own body's code and each use resolved to a declaration must reach that symbol. In programs of all forms, and of thousands of functions, literals, branches, strings and overloads, every label is defined once and every local reference is defined. Names of up to 600 characters that differ in the last one are told apart.", schemaAssume},
		"C22": {"The instruction stream the generator hands to the clean-up stage is captured in the abstract interpretation beside the stream that is printed; both are cut at labels, calls and data, compared per straight-line stretch by value numbering (the same final live registers, flags and memory writes in order) and every printed instruction must exist with those operands and denote the generated one. Frames of up to 1100 (thorough: 4200) words must address every variable at its own place.", cgAssume},
		"C25": {"No function reachable from the driver stores to a package variable or anything loaded from one, or calls a process-wide setter (SSA dataflow). Everything reachable from package variables is frozen and schemas of every form are compiled by abstract interpretation: no write may reach it; a second compilation in the same abstract state must emit the same code, with its own scratch files.", []string{"variables of the standard library are not part of the compiler's state", "random names are distinct"}},
		"C16": {"The lexer (goroutine, channel and state functions) is interpreted on texts whose characters are unknown: each has an encoded width and otherwise only the facts the lexer's own tests establish, every undecided test being explored both ways. On each partition the delivered tokens' kinds, texts and lines must be those of the language's definition, evaluated on the same partition.", []string{"the lexer keeps no state besides its scanner fields, so behaviour after a long token is that after a short one (probed with long tokens)", "unicode character classes are those of the Go tables"}},
		"C17": {"Every pair and triple of binary operators, with unary, postfix, parenthesised and conditional forms, every pair of statements in sequence, every list-like part in every length and every declaration form, and every composition of two forms of a typed expression grammar, is compiled by abstract interpretation; the emitted code must have the effects and result of the tree an independent parser of the language reads. The same tokens in different layouts, through the interpreted lexer, must give the same code.", schemaAssume},
		"C10": {"A program with every form, cut at every token, and with every token deleted, doubled, swapped, replaced or preceded by each token kind, is put through the abstractly interpreted driver: wherever an independent parser of the language finds the text invalid, problems must be returned, nothing linked and no executable named. The same for lexical errors at every token, problems of every later stage (alone, after other functions and in the library), unreadable files, a failing scratch file and a failing linker; main must print every problem and end with a non-zero status (as the system keeps it). Programs with hundreds of problems, and problems in programs of over 64 KB, included.", acceptAssume},
		"C24": {"Programs at and beyond each limit, and every expression form in every position and every name kind in every form and every type in every place a type can stand, with uses of its values (well-typed or not), must give a diagnostic or code, never a panic of the interpreted compiler.", acceptAssume},
	} {
		docs[id] = d
	}
}
