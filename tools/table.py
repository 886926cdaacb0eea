"""The properties: one table from which properties.jsonl and MANIFEST.json are made."""
PP = "protox-parse/src/"
PX = "protox/src/"

def p(id, title, statement, over, text, why, files, mechanism, observe, technique=None, note=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, observe=observe, technique=technique, note=note, na=na)

MODEL_NOTE = ("Every execution is judged by an independently written reference (lexer, parser, descriptor builder); "
              "trusts that reference, itself compared with protoc and 471 real files. Sampled, not exhaustive.")

PROPS = [
 p("C01", "No input can crash, abort or hang the compiler",
   "Parsing any UTF-8 text, and compiling any set of such files or decoding any bytes as a descriptor set, returns either a result or an error: it never panics, overflows the stack, corrupts memory, or runs without end. This holds also for hostile input such as truncated, deeply nested, very long or random text, in builds with debug assertions and overflow checks as well as without.",
   ["inputs"], "every source text, set of source files and byte string, of any size and nesting",
   "The tests parse a few dozen small well-formed files and a few fixed errors; the claim is about every text, most of it malformed.",
   [PP+"parse/mod.rs", PP+"lex/mod.rs", PP+"generate/mod.rs", PX+"compile/mod.rs", PX+"file/descriptor_set.rs"],
   [("errors are collected, not unwrapped", PP+"parse/mod.rs"), ("checked integer conversions", PP+"lib.rs index_to_i32"), ("explicit nesting limit", PP+"parse/mod.rs")],
   ["return of parse/compile/decode", "process status", "sanitizer reports"],
   "runtime monitoring: mutation and grammar fuzzing with panic, signal, CPU-time and overflow monitors; ASan in the thorough tier",
   "Executions only. One known finding (very deep aggregate options overflow the stack in the prost-reflect dependency) is listed in known-findings.txt."),
 p("C02", "A source text is accepted exactly when it is valid protobuf syntax",
   "A text is accepted if and only if it is a lexically and syntactically valid proto2 or proto3 file: every construct of the language is accepted in each place it may occur, with any identifier, keyword-like name or spelling the language allows there, and nothing else is accepted. Names and imports that the language forbids, a syntax other than proto2 and proto3, repeated package statements, and nesting deeper than protoc allows are rejected.",
   ["inputs"], "every source text",
   "Tests sample a few dozen accepted texts and about as many rejected ones; acceptance must be right for each of the combinations of token and context.",
   [PP+"parse/mod.rs", PP+"lex/mod.rs", PP+"generate/mod.rs"],
   [("token by token recursive descent", PP+"parse/mod.rs"), ("lexer", PP+"lex/mod.rs")],
   ["Ok/Err of parse"],
   "runtime monitoring: differential oracle (reference parser) over generated, mutated, real and exhaustively token-mutated files", MODEL_NOTE),
 p("C03", "The descriptor holds exactly the declarations of the file, in order",
   "For every accepted file the descriptor contains every declaration of the source and nothing else, in source order and at the right place in the nesting: package, syntax, imports with their public and weak marks, messages, fields with number, label, type and type name, extensions with extendee, oneofs with their members, enums with values, services with methods and streaming marks, reserved names. Names are kept exactly as written.",
   ["inputs", "programs"], "every accepted file",
   "Snapshot tests fix the descriptors of some forty small files; the mapping must hold for every combination and order of declarations.",
   [PP+"generate/mod.rs", PP+"parse/mod.rs", PP+"ast/mod.rs"],
   [("AST to descriptor", PP+"generate/mod.rs"), ("AST construction", PP+"parse/mod.rs")],
   ["FileDescriptorProto returned by parse"],
   "runtime monitoring: descriptor compared with that of a reference implementation, on generated and mutated files", MODEL_NOTE),
 p("C04", "Literals are decoded to exactly the value they denote",
   "String and bytes literals decode to the bytes that their characters and escapes (octal, hexadecimal, unicode, simple) denote, adjacent literals concatenate in order, integers in decimal, octal and hexadecimal and floating-point literals in every spelling have the value they denote, and the sign applies once. A literal that denotes nothing (bad escape, out-of-range code point or integer, text that is not UTF-8 where text is needed, unterminated) is rejected, not altered.",
   ["inputs"], "every literal in every place a literal may occur",
   "Tests decode about thirty literals; there are hundreds of escapes and unboundedly many numbers, each in several contexts.",
   [PP+"lex/mod.rs", PP+"parse/mod.rs", PP+"generate/mod.rs"],
   [("escape decoding", PP+"lex/mod.rs"), ("number conversion", PP+"lex/mod.rs"), ("UTF-8 check", PP+"parse/mod.rs")],
   ["uninterpreted option values, defaults, json names, import names in the descriptor"],
   "runtime monitoring: reference decoder as oracle; all escapes in all contexts enumerated, numbers at boundaries and random bit patterns", MODEL_NOTE),
 p("C05", "Numbers and ranges are checked against their limits and encoded exactly",
   "Field and extension numbers are accepted exactly within 1 to 536,870,911 outside 19,000 to 19,999, enum numbers exactly within 32-bit signed range, and ranges exactly when their bounds are valid and in order. Accepted ranges are encoded with an exclusive end for messages and an inclusive end for enums, and `max` stands for the greatest number allowed there, which for extension ranges of a message-set message is 2,147,483,646.",
   ["inputs"], "every number and range in every place one may occur, in every spelling",
   "Tests use a handful of numbers; limits fail at particular values in particular places.",
   [PP+"generate/mod.rs", PP+"parse/mod.rs", PP+"lex/mod.rs"],
   [("number checks", PP+"generate/mod.rs"), ("range generation", PP+"generate/mod.rs")],
   ["Ok/Err of parse", "number and range fields of the descriptor"],
   "runtime monitoring: reference oracle over the full product of position, boundary value, sign and spelling, plus generated files",
   MODEL_NOTE + " Explicit numbers above 536,870,911 in message sets are outside the statement (protox rejects them, protoc does not)."),
 p("C06", "Layout never changes meaning",
   "Two texts with the same tokens, however separated by spaces, line ends of either kind, tabs, comments or a leading byte order mark, have the same outcome: the same descriptor apart from source info, whose locations cover the same tokens, or the same error at the same token.",
   ["inputs"], "every token sequence and every way of laying it out",
   "A relation between unboundedly many pairs of texts; tests compare none.",
   [PP+"lex/mod.rs", PP+"parse/mod.rs", PP+"parse/comments.rs"],
   [("whitespace and comments skipped in the lexer", PP+"lex/mod.rs")],
   ["results of parse for both texts"],
   "runtime monitoring: metamorphic monitor over pairs of layouts of generated, mutated and real token sequences",
   "Sampled pairs; needs no model of the language beyond token boundaries."),
 p("C07", "Source locations have the right paths and exact spans",
   "The source info of an accepted file holds a location for the file and for every declaration and declared component, with the descriptor path of that element, and a span that runs exactly from the start of its first token to the end of its last, in zero-based lines and byte columns, in the three-number form when on one line. No location is missing, duplicated, invented or attached to another element's path.",
   ["inputs"], "every accepted file",
   "Snapshots fix the locations of some forty small files, nearly all ASCII with LF line ends.",
   [PP+"generate/mod.rs", PP+"generate/lines.rs", PP+"parse/mod.rs", PP+"tag.rs"],
   [("path stack and locations", PP+"generate/mod.rs"), ("line index", PP+"generate/lines.rs")],
   ["source_code_info of the descriptor"],
   "runtime monitoring: every location compared with that of a reference implementation", MODEL_NOTE),
 p("C08", "Comments are attributed to the right declaration with their exact text",
   "Each comment of an accepted file becomes, by protoc's rules of adjacency and blank lines, the leading, trailing or leading detached comment of the right declaration, or is attached to nothing; none is lost, duplicated or moved. Its text is what follows the comment markers, with the indentation and asterisks of block comment lines removed and everything else kept.",
   ["inputs"], "every accepted file with comments",
   "Snapshots cover a dozen arrangements; what decides is the combination of comment kind, blank lines, line ends and neighbouring tokens.",
   [PP+"parse/comments.rs", PP+"parse/mod.rs", PP+"lex/mod.rs", PP+"generate/mod.rs"],
   [("comment buffer", PP+"parse/comments.rs"), ("comment tokens", PP+"lex/mod.rs")],
   ["comments in source_code_info"],
   "runtime monitoring: comments compared with those of a reference implementation, on heavily commented layouts", MODEL_NOTE),
 p("C09", "Options are preserved in place, order, name and value",
   "Every option of an accepted file, in option statements and bracketed lists, appears among the uninterpreted options of exactly its own element, in source order, with the parts of its name and their parentheses as written and its value of the right kind: identifier, positive or negative integer, float, string or aggregate. An aggregate keeps the meaning of its source text, and the options the parser itself interprets (default, json_name) do not appear.",
   ["inputs"], "every option on every kind of element",
   "Tests show one or two options per element kind; values, name forms, nesting of aggregates and places combine freely.",
   [PP+"generate/mod.rs", PP+"parse/mod.rs", PP+"ast/mod.rs"],
   [("option generation", PP+"generate/mod.rs"), ("option parsing", PP+"parse/mod.rs")],
   ["uninterpreted_option of every element"],
   "runtime monitoring: options compared with those of a reference implementation", MODEL_NOTE),
 p("C10", "Default values and JSON names are exact and checked",
   "A field's default is accepted exactly when its literal fits the field's type, label and syntax, and is stored in the canonical text for that type: integers in decimal, floats as the same number, booleans, enum names, strings as text, bytes escaped. The JSON name is the one given, or the lower-camel-case form of the field name (for extensions as protoc does), and repeated or badly typed default or json_name settings are rejected.",
   ["inputs"], "every field type, default literal and field name",
   "Tests cover a few defaults; types, literal kinds and boundary values multiply.",
   [PP+"generate/mod.rs", PP+"case.rs", PP+"lex/mod.rs"],
   [("default generation", PP+"generate/mod.rs"), ("case conversion", PP+"case.rs")],
   ["default_value and json_name", "Ok/Err of parse"],
   "runtime monitoring: reference oracle over the full product of field type, literal, sign and place, plus generated files", MODEL_NOTE),
 p("C11", "Maps, groups and optional proto3 fields expand to the right declarations",
   "A map field yields a repeated message field and exactly one nested entry message with its key and value fields and the map-entry mark; a group yields a field with the lower-case name and a nested message; a proto3 optional field yields a one-member synthetic oneof, after all real oneofs, whose name is distinct from every other field and oneof of the message. All of them refer to each other and are placed among their siblings as protoc does.",
   ["inputs"], "every combination of maps, groups, oneofs and optional fields, with any names",
   "Snapshots show one or two of each in fixed arrangements; indexes and names depend on everything else in the message.",
   [PP+"generate/mod.rs", PP+"case.rs"],
   [("map entries, groups and synthetic oneofs", PP+"generate/mod.rs"), ("entry names", PP+"case.rs")],
   ["nested_type, oneof_decl, oneof_index, proto3_optional in the descriptor"],
   "runtime monitoring: reference oracle over generated messages, colliding names and the product of labels, kinds and scopes", MODEL_NOTE),
 p("C12", "Label and kind rules of proto2 and proto3 are enforced everywhere",
   "A field, map or group is accepted exactly when its label and kind are allowed in its place: a proto2 field outside a oneof needs a label, a proto3 field may not be required, members of oneofs and map fields take no label, groups exist only in proto2, map keys are integers, booleans or strings, and extensions hold no maps, oneofs or required fields. The rule applies in every nesting.",
   ["inputs"], "the product of label, kind, scope, nesting and syntax",
   "Tests try about fifteen of the thousands of combinations.",
   [PP+"generate/mod.rs", PP+"parse/mod.rs"],
   [("label checks", PP+"generate/mod.rs"), ("field parsing", PP+"parse/mod.rs")],
   ["Ok/Err of parse"],
   "runtime monitoring: reference oracle over the exhaustive product of label, kind, scope, syntax and options, plus generated files", MODEL_NOTE),
 p("C13", "Errors point at the offending file and text",
   "Every error report names the file it concerns and has a span within that file, on character boundaries, that marks the offending token or a real cause; its debug form gives the one-based line and column of that span, and it renders without failure whatever the source. A syntax error names the token that is there, and every token it says was expected would be allowed in its place. An error about an import (missing or listed twice) names the importing file and marks that import.",
   ["inputs", "configurations"], "every rejected text and every failed import",
   "Tests fix about a hundred errors in short ASCII texts; positions go wrong with other characters, line ends and contexts.",
   [PP+"error.rs", PP+"parse/mod.rs", PP+"lex/mod.rs", PX+"error.rs"],
   [("labelled errors", PP+"error.rs"), ("import spans", PX+"error.rs")],
   ["ParseError file, span, Debug, labels", "Error of compilation"],
   "runtime monitoring: every error report examined against the reference's set of possible causes, and rendered", MODEL_NOTE),

 p("C14", "Results depend only on the input, on every thread and in every order",
   "Parsing and compiling are functions of their input: the same files give byte-identical output and the same error whether run again, after other work, in another process, on another thread or on many threads at once, with one resolver or compiler history or another. Nothing is shared between runs that could race or leak from one to the next.",
   ["inputs", "schedules", "histories"], "every input, every number of threads and interleaving, every history of earlier work",
   "Tests run each input once, in a fresh state; a leak of state or an unordered traversal shows only in repetition and concurrency.",
   [PP+"generate/mod.rs", PX+"compile/mod.rs", PX+"file/google.rs", PX+"file/descriptor_set.rs"],
   [("no global mutable state", PP+"lib.rs"), ("ordered file list", PX+"compile/mod.rs")],
   ["encoded descriptor sets, errors, and their rendering"],
   "runtime monitoring: output compared across repetition, threads with injected delays, and processes with different hash seeds; ThreadSanitizer in the thorough tier",
   "Sampled inputs and schedules; the schedules are those of the operating system with random delays injected in the resolver."),
 p("C15", "Time and memory grow no more than about linearly with the input",
   "The processor time and the memory needed to parse or compile grow at most about in proportion to the size of the input, whatever is repeated in it: tokens, comments, literals, declarations, options, names, nested blocks, files and imports, or errors. No construct makes small inputs expensive.",
   ["inputs"], "every way of growing an input, valid or not",
   "A test on one size says nothing about growth.",
   [PP+"parse/comments.rs", PP+"generate/mod.rs", PP+"generate/lines.rs", PP+"lex/mod.rs", PX+"compile/mod.rs"],
   [("binary search of lines", PP+"generate/lines.rs"), ("single pass lexer", PP+"lex/mod.rs")],
   ["instructions of allocation, bytes allocated, thread CPU time"],
   "runtime monitoring: counting allocator and thread clocks over families of inputs grown eightfold, with reconfirmation",
   "A fixed list of some 130 families plus random combinations of fragments; time ratios are judged with a wide margin (4 times linear) and reconfirmed."),
 p("C16", "Opening a file loads exactly its import closure, in dependency order",
   "After a file is opened successfully, the compiler holds exactly the files opened so far and everything they import, directly or not, each once; every file comes after all it imports; each was asked of the resolver exactly once; those opened themselves are marked as not imports; and the descriptors keep the imports as written with their public and weak marks, and refer to the right types.",
   ["inputs", "histories"], "every import graph and every sequence of opens",
   "Tests use graphs of two to four files; order and once-only loading depend on the shape of the whole graph.",
   [PX+"compile/mod.rs", PX+"file/mod.rs"],
   [("add_import", PX+"compile/mod.rs"), ("check_file", PX+"compile/mod.rs")],
   ["file_descriptor_set, files, descriptor_pool, calls of the resolver"],
   "runtime monitoring: executable model of the import graph compared after every step; the resolver logs every call",
   "Random graphs of 2 to 14 files and chains of up to 250, files given as source or as descriptors."),
 p("C17", "Every defective import graph is rejected with a true description",
   "Opening a file fails when, among it and all it imports, there is a missing file, an import listed twice, an import cycle, a file that does not parse or refers to unknown types, or a failure of the resolver; and the error describes a defect that is really there: the missing name and who imports it, the exact cycle from the opened file back to itself, the importing statement, the resolver's own error. The classification of the error agrees.",
   ["inputs"], "every import graph with defects",
   "Tests cover one cycle, one missing and one repeated import each, in tiny graphs.",
   [PX+"compile/mod.rs", PX+"error.rs"],
   [("cycle detection", PX+"compile/mod.rs"), ("import errors", PX+"error.rs")],
   ["Error: message, file, classification, labels"],
   "runtime monitoring: executable model of the graph decides whether opening must fail and validates each error against the defects present",
   "Where several defects are reachable, any may be reported."),
 p("C18", "Files are found by include path order, and names map to paths one way",
   "A file name is opened from the first include directory that has it, in the order given, and from the built-in Google files only if none has it. A path given on disk is mapped to the one name by which it is importable, by removing the first include directory that contains it; a path that is under no include directory, or whose name leads to a different file because an earlier directory shadows it, is refused. A file's name, path and content always belong together.",
   ["configurations", "inputs"], "every arrangement of include directories and files, and every spelling of paths",
   "Tests use one or two directories; precedence, shadowing and spelling of paths combine.",
   [PX+"file/include.rs", PX+"file/mod.rs", PX+"file/google.rs", PX+"file/chain.rs", PX+"compile/mod.rs"],
   [("resolve_path", PX+"file/include.rs"), ("check_shadow", PX+"compile/mod.rs"), ("chain", PX+"file/chain.rs")],
   ["outcome of open_file, FileMetadata name and path, descriptor content"],
   "runtime monitoring: real directory trees in a scratch folder, a path model decides what must be found; content of every file says where it came from",
   "Unix only; symbolic links and relative paths included; case-insensitive file systems are not available here."),
 p("C19", "Output flags select exactly what they say, and all outputs agree",
   "The descriptor set holds exactly the opened files, or with imports also everything they import, in dependency order, and source info exactly when asked for, for any order of setting flags and opening files. The in-memory set, the encoded set, the descriptor pool and the metadata describe the same files; the encoded set also keeps custom options, so that decoding it with their definitions gives their values, and compiling its output again gives the same set.",
   ["inputs", "configurations", "histories"], "every program, flag setting and order of settings and opens",
   "Tests check a few flag combinations on tiny inputs.",
   [PX+"compile/mod.rs", PX+"file/mod.rs"],
   [("file_descriptor_set, encode_file_descriptor_set", PX+"compile/mod.rs")],
   ["file_descriptor_set, encode_file_descriptor_set, descriptor_pool, files, protox::compile"],
   "runtime monitoring: four outputs of the same compilation cross-checked on generated programs with custom options", "Sampled programs of one to five files."),
 p("C20", "Compiled descriptors agree with protoc's",
   "For every program that protoc accepts and whose literals all denote a value (protoc lets a few pass that do not, such as a lone surrogate), protox accepts it and produces the same descriptors, apart from the textual form of floating-point defaults: names resolved by the scoping rules to the same fully qualified types, defaults, JSON names, maps, groups, synthetic oneofs, and interpreted options with the same values, custom ones included.",
   ["programs"], "every valid program of any number of files",
   "Snapshot tests compare a few dozen files and need a submodule that is often absent.",
   [PX+"compile/mod.rs", PP+"generate/mod.rs", PP+"parse/mod.rs"],
   [("compilation pipeline", PX+"compile/mod.rs")],
   ["encoded descriptor set against protoc's"],
   "runtime monitoring: differential oracle, protoc 3.21.12 on generated programs of several files",
   "Sampled programs in the features of protobuf 3.21. One known finding: chained public imports fail in the prost-reflect dependency."),
 p("C21", "A failed open leaves the compiler as if it had not happened",
   "After a call that fails, the compiler is usable and consistent: files opened before are unchanged, the failed file is not there, anything left of its imports is complete, and every later open, flag change and output has the result it would have had without the failed call.",
   ["histories", "fault_sequences"], "every history of opens and settings, with failures of every kind at every point",
   "No test goes on after a failure.",
   [PX+"compile/mod.rs"],
   [("files added only after checking", PX+"compile/mod.rs")],
   ["state of the compiler after each step of a history"],
   "runtime monitoring: random histories with injected faults, in memory and on a directory that changes, state compared after each step with a model and with a fresh compiler",
   "Histories of 4 to 14 operations on graphs of 2 to 9 files. Imports completely loaded by a failed open may stay, as imports."),
 p("C22", "Every I/O outcome is reported as what it is, and content is read exactly",
   "Opening a file from disk gives the same result as parsing its text, whatever its size and content. A file that does not exist is reported as not found, text that is not UTF-8 and files too large as such, any other failure of the file system as an I/O error with the path and the system's error; none is mistaken for another, hidden, or answered with partial content. What a resolver reports reaches the caller unchanged.",
   ["fault_sequences", "inputs"], "every state of the file system and every content",
   "Tests try a missing file; the failures of a file system are many and need to be produced.",
   [PX+"file/mod.rs", PX+"error.rs", PX+"file/include.rs", PX+"compile/mod.rs"],
   [("File::open, map_io_err", PX+"file/mod.rs"), ("Error classification", PX+"error.rs")],
   ["Error::is_*, message, source chain; descriptor and source of File"],
   "runtime monitoring: real file system faults injected (missing, directory, link loop, long and malformed names, bad UTF-8, huge, FIFO and /dev files)",
   "Runs as root, so permission failures cannot be produced; they take the same branch as the others."),
 p("C23", "Descriptor files read back are exactly the files that were written",
   "A file given as an encoded or in-memory descriptor, alone or through a descriptor-set resolver, is used exactly as it is: its descriptor, its unknown fields and custom options pass through to the output unchanged, it can be imported and opened like a source, and mixing sources and descriptors gives the same result as sources alone. Decoding works for every way the buffer is cut into chunks, and bytes that are no descriptor are rejected.",
   ["inputs", "fault_sequences"], "every descriptor set, valid or damaged, and every chunking of the buffer",
   "Tests round-trip one set; loss of unknown fields or of a file in a set needs varied content.",
   [PX+"file/descriptor_set.rs", PX+"file/mod.rs", PX+"compile/mod.rs"],
   [("DescriptorSetFileResolver", PX+"file/descriptor_set.rs"), ("encoded form kept", PX+"file/mod.rs")],
   ["output of recompiling from descriptors, errors on damaged bytes"],
   "runtime monitoring: round trips of generated programs through descriptor sets with unknown fields, damaged bytes and split buffers; compared with compiling from source",
   "Sampled programs; damage is random flips, cuts and insertions."),
 p("C24", "The command line writes exactly what the library would, or nothing",
   "The command compiles the files given with the include paths and flags given, and on success writes to the output file exactly the bytes of the library's encoded descriptor set and exits with status zero. On any failure it exits with a non-zero status, reports the error on standard error, and leaves the output file as it was. It changes nothing else, and every documented spelling of the flags means the same.",
   ["configurations", "inputs", "fault_sequences"], "every command line and state of the files",
   "Nothing tests the command at all.",
   [PX+"main.rs", PX+"compile/mod.rs"],
   [("argument parsing and main", PX+"main.rs")],
   ["exit status, output file, standard error, directory tree before and after"],
   "runtime monitoring: the built command run as a process on generated programs and faults; output compared byte by byte with the library's, and the directory tree compared before and after",
   "The command is built from the repository's sources by a manifest of the harness, because the repository's own cannot be built here."),
]
