//! Every check: its streams of executions, and what counts as having observed something.
use crate::checks_after as f;
use crate::checks_any as a;
use crate::checks_cli as c;
use crate::checks_compile as k;
use crate::checks_disk as d;
use crate::checks_graph as g;
use crate::checks_grow as w;
use crate::checks_hist as h;
use crate::checks_out as o;
use crate::checks_parse as p;
use crate::checks_same as m;
use crate::drive::{CaseFn, Check, Stream};

fn s(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Stream {
    Stream {
        name,
        quick,
        thorough,
        f,
    }
}

const MODEL: &str = "the reference lexer and parser in harness/src/{lex,spec}.rs state the language correctly (validated against protoc 3.21 and a corpus of 471 real files)";
const GRAY: &str = "inputs on which the language specification and protoc leave the answer open are counted but not judged";

const K: u64 = 1000;

/// How much more than what the table says a quick run does.
const MORE: &[(&str, u64)] = &[
    ("C02", 4), ("C03", 4), ("C04", 6), ("C05", 8), ("C06", 6), ("C07", 3), ("C08", 3), ("C09", 3), ("C10", 8), ("C11", 2), ("C12", 10),
    ("C13", 4), ("C16", 3), ("C17", 6), ("C18", 4), ("C20", 2), ("C21", 2), ("C22", 5), ("C24", 4),
];

/// Large texts take long.
const LARGE: u64 = 34 * 10;

pub fn checks() -> Vec<Check> {
    let mut v = table();
    for c in &mut v {
        let m = MORE.iter().find(|m| m.0 == c.id).map_or(1, |m| m.1);
        for s in &mut c.streams {
            // what is enumerated in full has no more
            if s.name != "large" {
                s.quick = s.thorough.min(s.quick * m);
            }
            if crate::drive::sanitized() {
                s.thorough = s.quick;
            }
        }
    }
    v
}

fn table() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            rule: "one execution is one input of any kind that is parsed, compiled or decoded, and its error rendered; a panic, a signal or more than a minute of processor time is a violation; distinct by hash of the input",
            assumptions: &["stacks of 8 MB, as main threads have; built with debug assertions and overflow checks"],
            streams: vec![
                s("characters", 100 * K, 10_000 * K, a::characters),
                s("tokens", 100 * K, 5_000 * K, a::tokens),
                s("mutants", 60 * K, 5_000 * K, a::mutants),
                s("short texts", a::short_len(), a::short_len(), a::short),
                s("nesting", a::nesting_len(), a::nesting_len(), a::nesting),
                s("long", 150, 2000, a::long),
                s("programs", 6 * K, 500 * K, a::programs),
                s("strangers", 4 * K, 300 * K, a::strangers),
                s("graphs", 12, 48, a::graphs),
                s("descriptors", 40 * K, 4_000 * K, a::descriptors),
                s("bytes", 40 * K, 4_000 * K, a::bytes),
                s("fixed", a::FIXED.len() as u64, a::FIXED.len() as u64, a::fixed),
            ],
            need: &["texts accepted", "texts rejected", "errors rendered", "files compiled", "files not compiled", "large graphs compiled", "large graphs not compiled", "byte strings read as sets", "byte strings that are no set", "byte strings compiled", "nested more than 1000 deep"],
        },
        Check {
            id: "C02",
            rule: "one execution is one source text given to protox_parse::parse and to the reference parser; counted as non-trivial and distinct by the hash of the text when the reference has a definite verdict or descriptor for it",
            assumptions: &[MODEL, GRAY],
            streams: vec![
                s("generated", 60 * K, 4000 * K, p::lang_gen),
                s("large", LARGE, 60 * K, p::lang_large),
                s("wild", 90 * K, 6000 * K, p::lang_wild),
                s("corpus mutants", 30 * K, 2000 * K, p::lang_corpus),
                s("nested", 2 * K, 50 * K, p::lang_nested),
                s("every single-token change", p::systematic_len(), p::systematic_len(), p::lang_systematic),
            ],
            need: &["large texts that are valid", "valid files", "invalid files", "rejections: Lexical", "rejections: Syntax", "rejections: Names", "rejections: Nesting"],
        },
        Check {
            id: "C03",
            rule: "one execution is one valid source text whose descriptor is compared with the reference's, declaration by declaration; distinct by hash of the text",
            assumptions: &[MODEL, GRAY],
            streams: vec![
                s("names", 70 * K, 5000 * K, p::decl_gen),
                s("large", LARGE, 60 * K, p::decl_large),
                s("plain", 50 * K, 3000 * K, p::decl_plain),
                s("corpus mutants", 30 * K, 2000 * K, p::decl_corpus),
                s("every single-token change", p::systematic_len(), p::systematic_len(), p::decl_systematic),
            ],
            need: &["large texts that are valid", "valid files", "declarations: field", "declarations: message", "declarations: service", "declarations: extend"],
        },
        Check {
            id: "C04",
            rule: "one execution is one source text with literals, decoded by the code and by the reference; distinct by hash of the text; every escape sequence in every string context is enumerated",
            assumptions: &[MODEL, GRAY],
            streams: vec![
                s("generated", 50 * K, 4000 * K, p::lit_gen),
                s("large", LARGE, 60 * K, p::lit_large),
                s("escapes", p::escapes_len(), p::escapes_len(), p::lit_escapes),
                s("floats", 12 * K, 1500 * K, p::lit_floats),
                s("defaults product", p::def_product_len(), p::def_product_len(), p::lit_def_product),
            ],
            need: &["large texts that are valid", "valid files", "invalid files", "rejections: Lexical", "declarations: option statement"],
        },
        Check {
            id: "C05",
            rule: "one execution is one source text with field numbers, enum numbers or ranges; the product of position, boundary value, sign and spelling is enumerated in full; distinct by hash of the text",
            assumptions: &[MODEL],
            streams: vec![
                s("product", p::num_product_len(), p::num_product_len(), p::num_product),
                s("generated", 90 * K, 6000 * K, p::num_gen),
                s("large", LARGE, 60 * K, p::num_large),
            ],
            need: &["large texts that are valid", "valid files", "rejections: Number", "declarations: range"],
        },
        Check {
            id: "C06",
            rule: "one execution is one token sequence laid out in two ways (whitespace, comments, line ends) and parsed twice; distinct by hash of the plain layout",
            assumptions: &["the reference lexer confirms that both layouts hold the same tokens; pairs for which it does not are discarded"],
            streams: vec![
                s("pairs", 60 * K, 4000 * K, p::layout_pair),
                s("real files", 3 * K, 200 * K, p::layout_corpus),
            ],
            need: &["pairs with a very long gap", "pairs accepted", "pairs rejected"],
        },
        Check {
            id: "C07",
            rule: "one execution is one valid source text whose list of locations (path, span) is compared with the reference's; distinct by hash of the text",
            assumptions: &[MODEL, GRAY],
            streams: vec![
                s("spans", 50 * K, 4000 * K, p::loc_gen),
                s("large", LARGE, 60 * K, p::loc_large),
                s("options", 20 * K, 1500 * K, p::loc_opts),
                s("plain", 30 * K, 2000 * K, p::loc_plain),
                s("corpus mutants", 30 * K, 2000 * K, p::loc_corpus),
            ],
            need: &["large texts that are valid", "valid files", "declarations: field", "declarations: range", "declarations: option statement"],
        },
        Check {
            id: "C08",
            rule: "one execution is one valid source text with comments, whose leading, trailing and detached comments are compared with the reference's; non-trivial when at least one comment is attached; distinct by hash of the text",
            assumptions: &[MODEL, "files in which a comment lies where the specification does not say to what it belongs are not judged"],
            streams: vec![
                s("generated", 70 * K, 5000 * K, p::com_gen),
                s("large", LARGE, 60 * K, p::com_large),
                s("options", 20 * K, 1500 * K, p::com_opts),
                s("corpus mutants", 30 * K, 2000 * K, p::com_corpus),
            ],
            need: &["large texts that are valid", "comments attached"],
        },
        Check {
            id: "C09",
            rule: "one execution is one source text with options, whose uninterpreted options, aggregates and locations are compared with the reference's; distinct by hash of the text",
            assumptions: &[MODEL, GRAY],
            streams: vec![
                s("generated", 70 * K, 5000 * K, p::opt_gen),
                s("large", LARGE, 60 * K, p::opt_large),
                s("literals", 30 * K, 2000 * K, p::opt_lit),
                s("corpus mutants", 30 * K, 2000 * K, p::opt_corpus),
            ],
            need: &["large texts that are valid", "valid files", "declarations: option statement", "declarations: field option list"],
        },
        Check {
            id: "C10",
            rule: "one execution is one field with a default or json_name; the product of field type, literal, sign and place is enumerated in full; distinct by hash of the text",
            assumptions: &[MODEL, "float defaults are compared as numbers, not as text"],
            streams: vec![
                s("product", p::def_product_len(), p::def_product_len(), p::def_product),
                s("generated", 60 * K, 5000 * K, p::def_gen),
                s("large", LARGE, 60 * K, p::def_large),
            ],
            need: &["large texts that are valid", "valid files", "rejections: Default", "declarations: field option list"],
        },
        Check {
            id: "C11",
            rule: "one execution is one valid source text with maps, groups or proto3 optional fields, whose descriptor is compared with the reference's; distinct by hash of the text",
            assumptions: &[MODEL],
            streams: vec![
                s("generated", 60 * K, 5000 * K, p::syn_gen),
                s("large", LARGE, 60 * K, p::syn_large),
                s("colliding names", 40 * K, 3000 * K, p::syn_collide),
                s("label and kind product", p::rules_product_len(), p::rules_product_len(), p::syn_rules_product),
            ],
            need: &["large texts that are valid", "declarations: map", "declarations: group", "declarations: synthetic oneof"],
        },
        Check {
            id: "C12",
            rule: "one execution is one source text with fields; the product of label, kind, scope, syntax and options is enumerated in full; distinct by hash of the text",
            assumptions: &[MODEL],
            streams: vec![
                s("product", p::rules_product_len(), p::rules_product_len(), p::rules_product),
                s("generated", 60 * K, 5000 * K, p::rules_gen),
                s("large", LARGE, 60 * K, p::rul_large),
                s("plain", 20 * K, 1000 * K, p::rules_plain),
            ],
            need: &["large texts that are valid", "valid files", "rejections: Label", "rejections: Kind"],
        },
        Check {
            id: "C13",
            rule: "one execution is one invalid source text (or compilation) whose error report is examined: file, span, position, message, rendering; distinct by hash of the text",
            assumptions: &[MODEL, "an unterminated string is reported at the line end that cuts it, as the existing tests require"],
            streams: vec![
                s("generated", 60 * K, 4000 * K, p::err_gen),
                s("large", LARGE, 60 * K, p::err_large),
                s("rules", 30 * K, 2000 * K, p::err_rules),
                s("defaults", 10 * K, 500 * K, p::err_defaults),
                s("corpus mutants", 15 * K, 1000 * K, p::err_corpus),
                s("every single-token change", p::systematic_len(), p::systematic_len(), p::err_systematic),
                s("label and kind product", p::rules_product_len(), p::rules_product_len(), p::err_rules_product),
                s("defaults product", p::def_product_len(), p::def_product_len(), p::err_def_product),
                s("failed imports", 5 * K, 300 * K, g::imports),
                s("all defects of graphs", 5 * K, 300 * K, g::errors),
                s("large", 100, 20 * K, g::large),
                s("seen to be misplaced", 1, 1, g::semantic_fixed),
            ],
            need: &["large texts that are valid", "error reports checked", "error reports rendered", "tokens said to be expected, tried there"],
        },
            Check {
            id: "C14",
            rule: "one execution is a batch of six inputs (parsed, or compiled from memory, disk or descriptors) whose results are compared across repetitions in other orders, across threads with delays in the resolver, or with those of another process with another environment; distinct by hash of the batch",
            assumptions: &["the entries of a map in a custom option are compared without their order (known finding)", "schedules are those of the operating system, with delays added"],
            streams: vec![
                s("again", 1500, 60 * K, m::again),
                s("threads", 1500, 60 * K, m::threads),
                s("processes", 1500, 40 * K, m::processes),
                s("fixed", m::FIXED.len() as u64, m::FIXED.len() as u64, m::fixed),
            ],
            need: &["parsed", "not parsed", "compiled", "not compiled", "repetitions compared", "results of threads compared", "results of processes compared", "context switches while racing"],
        },
        Check {
            id: "C15",
            rule: "one execution is a pair of inputs of the same kind, one up to 256 times as large, whose processor time, allocations, bytes allocated and peak memory are compared; distinct by hash of what is repeated",
            assumptions: &["growth up to 4 times (time) or 2.6 times (memory) of what is linear is taken for linear, as is any growth below 40 us or 16 kB", "memory is what goes through the Rust allocator"],
            streams: vec![
                s("families", w::family_count(), w::family_count(), w::fixed),
                s("pumped", 4000, 20 * K, w::pumped),
            ],
            need: &["large inputs accepted", "large inputs rejected"],
        },
        Check {
            id: "C16",
            rule: "one execution is one import graph (2 to 14 files, as source or as descriptors) and a sequence of opens and settings, every step compared with an executable model; distinct by hash of graph and operations",
            assumptions: &["resolvers return files under the names they were asked for"],
            streams: vec![
                s("graphs", 12 * K, 800 * K, g::valid),
                s("dense graphs", 4 * K, 200 * K, g::dense),
                s("histories with failures", 6 * K, 400 * K, g::histories),
                s("chains", 24, 500, g::chain),
                s("large", 300, 60 * K, g::large),
                s("graphs on disk", 3 * K, 300 * K, g::disk),
            ],
            need: &["successful opens", "states compared", "graphs on disk", "large graphs"],
        },
        Check {
            id: "C17",
            rule: "one execution is one import graph with defects and a sequence of opens; each error is checked to describe a defect that is really there and reachable; distinct by hash of graph and operations",
            assumptions: &["where several defects are reachable any of them may be reported"],
            streams: vec![
                s("all defects", 14 * K, 800 * K, g::errors),
                s("cycles", 8 * K, 400 * K, g::cycles),
                s("missing and repeated imports", 8 * K, 400 * K, g::imports),
                s("large", 400, 60 * K, g::large),
                s("graphs on disk", 1500, 150 * K, g::disk),
            ],
            need: &["graphs on disk", "large graphs", "errors: cycle", "errors: import not found", "errors: duplicate import", "errors: parse error", "errors: semantic error", "errors: resolver failure", "errors: i/o failure", "errors: root not found"],
        },
        Check {
            id: "C21",
            rule: "one execution is one import graph with defects and a history of 4 to 14 opens and settings; after each step the state is compared with an executable model and at the end with a fresh compiler that did only the successful opens; distinct by hash of graph and operations",
            assumptions: &["a failed open may leave imports that were loaded completely"],
            streams: vec![s("histories", 18 * K, 1000 * K, g::histories), s("large", 300, 60 * K, g::large), s("graphs on disk", 3 * K, 300 * K, g::disk), s("after failures", 3 * K, 300 * K, f::after_failures),
                s("on disk", 12 * K, 600 * K, h::disk)],
            need: &["graphs on disk", "large graphs", "failed opens", "successful opens", "states compared", "opened", "failed to open", "outputs compared", "extensions seen from their messages", "changes on disk", "shadowed paths of imports", "failed, and left imports"],
        },
        Check {
            id: "C20",
            rule: "one execution is one program of one to five files compiled by protox and by protoc, whose descriptor sets are compared file by file with custom options decoded; distinct by hash of the program",
            assumptions: &["protoc 3.21.12 in /usr/bin is right about programs it accepts; programs it rejects are counted but not judged", "default values of float fields are compared as numbers"],
            streams: vec![s("programs", 4 * K, 200 * K, k::protoc_agrees), s("large", 300, 20 * K, k::protoc_agrees_large), s("seen to differ", k::FIXED_LEN, k::FIXED_LEN, k::protoc_fixed)],
            need: &["programs protoc accepts"],
        },
        Check {
            id: "C18",
            rule: "one execution is one directory tree with include paths and paths to open, one chain of resolvers, or one include path against all paths of up to four parts; distinct by hash of tree, includes and paths",
            assumptions: &["a path under an include directory that has no such file, but whose name is that of a built-in file, is not judged", "a directory in place of a file is not judged"],
            streams: vec![
                s("paths on disk", 30 * K, 1500 * K, d::paths),
                s("chains of resolvers", 30 * K, 500 * K, d::chains),
                s("every short path", d::lexical_len(), d::lexical_len(), d::lexical),
                s("built-in files", d::BUILTINS_LEN, d::BUILTINS_LEN, d::builtins),
            ],
            need: &["trees made after the compiler", "files opened", "shadowed paths", "paths that lead nowhere", "paths that have no name", "built-in files", "missing imports", "names looked up"],
        },
        Check {
            id: "C22",
            rule: "one execution is one file content read from disk and from memory, or one fault of the file system met by File::open, the include resolver, the compiler and an import; distinct by hash of content or fault",
            assumptions: &["runs as root, to be able to drop and take back the right to read files"],
            streams: vec![
                s("largest file", 2, 2, d::largest),
                s("largest text", 2, 2, d::largest_text),
                s("contents", 30 * K, 1000 * K, d::contents),
                s("faults", 15 * K, 400 * K, d::faults),
                s("failures of resolvers", 5 * K, 100 * K, d::passed_on),
            ],
            need: &["files read", "files with errors", "pipes read", "no UTF-8", "a file too large", "a directory", "a link to itself", "a socket", "a name too long", "a NUL in the name", "files at the limit of size", "nothing there", "a dangling link", "found in the next include path", "failures passed on"],
        },
        Check {
            id: "C19",
            rule: "one execution is one program, a random order of opens and settings, and the outputs under all four settings compared with each other; distinct by hash of program and order",
            assumptions: &["prost-reflect decodes descriptors and options correctly (also compared with protoc in C20)"],
            streams: vec![s("programs", 2 * K, 100 * K, o::flags), s("large", 150, 20 * K, o::flags_large), s("packed field", 1, 1, o::packed)],
            need: &["sets compared", "custom options seen", "compiled in one call", "elements of pools compared"],
        },
        Check {
            id: "C23",
            rule: "one execution is one program compiled from source and again from its descriptors (whole, in pieces, per file in mixed forms, with unknown fields), or one descriptor set damaged twelve times; distinct by hash of the program",
            assumptions: &["prost decides which bytes are a descriptor"],
            streams: vec![
                s("round trips", 1500, 100 * K, o::round_trip),
                s("large", 100, 10 * K, o::round_trip_large),
                s("unknown fields", 1000, 60 * K, o::unknown),
                s("damaged bytes", 1000, 80 * K, o::damaged),
                s("names", 5 * K, 200 * K, o::names),
            ],
            need: &["programs sent round", "unknown fields added", "damaged sets rejected", "sets read", "damaged files rejected", "damaged files compiled", "files as parsed", "files as compiled", "files as source", "files found by name", "names of no file"],
        },
        Check {
            id: "C24",
            rule: "one execution is one run of the command on a generated program with random spelling of its flags, half of them with something wrong; distinct by hash of command line and program",
            assumptions: &["the command is built from /repo/protox/src by a manifest of the harness"],
            streams: vec![s("commands", 5 * K, 200 * K, c::commands), s("large", 400, 20 * K, c::large)],
            need: &["outputs to a pipe compared", "outputs by another name compared", "failures: the file is elsewhere", "outputs compared", "runs without output", "failures: Mutated", "failures: MissingImport", "failures: MissingRoot", "failures: NotUtf8", "failures: OutDirMissing", "failures: OutIsDir", "failures: OutFull", "failures: NoFiles", "failures: UnknownFlag", "failures: ValueMissing"],
        },
    ]
}
