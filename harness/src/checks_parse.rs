//! Checks of single files against the reference model.
use crate::cmp::{diff, Diff, Facet};
use crate::drive::*;
use crate::gen::{self, Cfg, Gen, Weights};
use crate::judge::{self, Judged};
use crate::lex;
use crate::rng::{fnv, Rng};
use crate::spec::{Class, Verdict};

/// What of a judged file concerns a property.
pub struct Sel {
    pub facets: &'static [Facet],
    pub classes: &'static [Class],
    pub nontrivial: fn(&Judged) -> bool,
}

fn stream_id(s: &str) -> u64 {
    fnv(s.as_bytes())
}

pub fn rng(env: &Env, stream: &str, i: u64) -> Rng {
    Rng::new(env.seed ^ stream_id(env.id).rotate_left(17) ^ stream_id(stream), i)
}

const FILE_NAMES: &[&str] = &["f.proto", "dir/f.proto", "a b.proto", "\u{e9}\u{4e16}.proto", "x", "C:/f.proto"];

pub fn judged(src: &str, sel: &Sel) -> (Case, Judged) {
    let name = FILE_NAMES[(fnv(src.as_bytes()) % 40).min(6) as usize % FILE_NAMES.len()];
    let mut c = Case::new(src.to_owned());
    let j = judge::judge(name, src);
    for d in &j.diffs {
        let relevant = match d.facet {
            Facet::Verdict => {
                sel.facets.contains(&Facet::Verdict) && j.classes.iter().any(|c| sel.classes.contains(c))
            }
            f => sel.facets.contains(&f),
        };
        if relevant {
            c.diffs.push(d.clone());
        }
    }
    if j.expectations > 0 {
        c.stat("tokens said to be expected, tried there", j.expectations);
    }
    if j.gray {
        c.stat("no verdict (specification leaves it open)", 1);
    } else {
        c.stat(if j.want_accept { "valid files" } else { "invalid files" }, 1);
        if let Verdict::Reject(e) = &j.model.verdict {
            c.stat(format!("rejections: {:?}", e[0].class), 1);
        }
        if (sel.nontrivial)(&j) {
            c.nontrivial = Some(fnv(src.as_bytes()));
        }
        c.stat("tokens", j.model.ntoks);
        for (k, n) in &j.model.decls {
            c.stat(format!("declarations: {k}"), *n);
        }
        c.stat("comments attached", j.model.attached);
    }
    (c, j)
}

pub fn seen(j: &Judged, what: &[&str]) -> bool {
    j.want_accept && what.iter().any(|w| j.model.decls.contains_key(w))
}

fn w(f: impl Fn(&mut Weights)) -> Weights {
    let mut w = Cfg::default().weights;
    f(&mut w);
    w
}

// ---- profiles

pub fn cfg_plain() -> Cfg {
    Cfg::default()
}
/// Valid files only, small
pub fn cfg_valid() -> Cfg {
    Cfg {
        viol: 0,
        mutate: 0,
        ..Cfg::default()
    }
}
pub fn cfg_wild() -> Cfg {
    Cfg {
        mutate: 70,
        bytes: 25,
        viol: 150,
        inner: 8,
        nonascii: 25,
        stmts: (1, 4),
        ..Cfg::default()
    }
}
pub fn cfg_names() -> Cfg {
    Cfg {
        keywords: 45,
        mutate: 5,
        viol: 15,
        weights: w(|w| {
            w.group = 8;
            w.map = 12;
            w.service = 20;
            w.import = 20;
            w.extend = 14;
        }),
        ..Cfg::default()
    }
}
pub fn cfg_literals() -> Cfg {
    Cfg {
        odd_strings: 85,
        options: 60,
        boundary: 50,
        defaults: 60,
        proto3: 15,
        viol: 60,
        mutate: 3,
        nonascii: 20,
        ..Cfg::default()
    }
}
pub fn cfg_numbers() -> Cfg {
    Cfg {
        boundary: 85,
        viol: 700,
        mutate: 0,
        options: 8,
        defaults: 5,
        weights: w(|w| {
            w.reserved = 50;
            w.extensions = 40;
            w.enum_ = 40;
            w.extend = 10;
        }),
        ..Cfg::default()
    }
}
pub fn cfg_layout() -> Cfg {
    Cfg {
        comments: 55,
        inner: 15,
        crlf: 25,
        viol: 3,
        mutate: 3,
        nonascii: 30,
        empty_stmt: 1,
        ..Cfg::default()
    }
}
pub fn cfg_spans() -> Cfg {
    Cfg {
        comments: 20,
        inner: 25,
        crlf: 30,
        viol: 3,
        mutate: 0,
        nonascii: 50,
        empty_stmt: 6,
        ..Cfg::default()
    }
}
pub fn cfg_options() -> Cfg {
    Cfg {
        options: 75,
        viol: 40,
        mutate: 5,
        weights: w(|w| {
            w.option = 40;
            w.extensions = 12;
            w.enum_ = 20;
            w.oneof = 16;
            w.service = 25;
        }),
        ..Cfg::default()
    }
}
pub fn cfg_defaults() -> Cfg {
    Cfg {
        defaults: 90,
        proto3: 12,
        viol: 500,
        mutate: 0,
        odd_strings: 40,
        weights: w(|w| {
            w.field = 90;
            w.extend = 15;
        }),
        ..Cfg::default()
    }
}
pub fn cfg_synth() -> Cfg {
    Cfg {
        proto3: 60,
        viol: 8,
        mutate: 0,
        keywords: 6,
        stmts: (1, 9),
        weights: w(|w| {
            w.map = 35;
            w.group = 30;
            w.oneof = 20;
            w.extend = 14;
        }),
        ..Cfg::default()
    }
}
pub fn cfg_rules() -> Cfg {
    Cfg {
        viol: 1200,
        mutate: 0,
        weights: w(|w| {
            w.map = 20;
            w.group = 20;
            w.oneof = 20;
            w.extend = 20;
            w.message = 4;
        }),
        stmts: (1, 3),
        ..Cfg::default()
    }
}
pub fn cfg_errors() -> Cfg {
    Cfg {
        viol: 400,
        mutate: 45,
        bytes: 10,
        inner: 10,
        comments: 20,
        crlf: 20,
        nonascii: 50,
        odd_strings: 40,
        ..Cfg::default()
    }
}

pub fn generated(env: &Env, stream: &str, i: u64, cfg: &Cfg) -> String {
    let mut r = rng(env, stream, i);
    gen::make(&mut r, cfg)
}

// ---- systematic single-token mutations of small files that cover every production

pub const SEEDS: &[&str] = &[
    "syntax = \"proto2\" ; package a . b ; import \"x.proto\" ; import public \"y.proto\" ; import weak 'z.proto' ;",
    "syntax = 'proto' \"3\" ; message M { string a = 1 ; repeated . a . B b = 2 ; optional int32 c = 3 ; }",
    "message M { optional int32 a = 1 [ default = - 5 , json_name = \"x\" , ( o ) . p = { a : 1 } ] ; required bytes b = 0x2 ; }",
    "message M { oneof o { option x = 1 ; int32 a = 1 ; group G = 2 { } } }",
    "message M { map < string , a . B > m = 1 [ deprecated = true ] ; map x = 2 ; }",
    "message M { repeated group G = 1 [ a = b ] { optional float f = 1 ; } extend . X { optional group H = 2 { } } }",
    "message M { reserved 1 , 2 to 3 , 4 to max ; reserved \"a\" , \"b\" 'c' ; extensions 5 to 6 , 7 [ a = 1 , b = 2 ] ; }",
    "enum E { option allow_alias = true ; A = 0 ; B = - 1 [ x = y ] ; reserved - 5 to - 2 , 8 to max ; reserved 'C' ; }",
    "extend a . B { optional int32 x = 1 ; repeated string y = 2 ; ; }",
    "service S { option a = 1 ; rpc R ( stream . A ) returns ( stream b . C ) ; rpc Q ( A ) returns ( B ) { option x = y ; ; } ; }",
    "option a = - 1 ; option ( . b . c ) . d . ( e ) = 1.5 ; option f = - inf ; option g = \"x\" 'y' ; option h = { a < > [ x . y / z ] : 1 , } ;",
    "message A { message B { enum C { } ; } option x = nan ; ; } ;",
    "extend X { repeated map m = 1 ; }",
    "message M { int32 a = 1 ; }",
    "syntax = \"proto3\" ; message M { oneof o { map n = 1 ; . x . y z = 2 ; } optional M o1 = 3 ; }",
    "import 'a' 'b' ; package map ; message package { optional option message = 1 ; }",
];
pub const ALPHABET: &[&str] = &[
    "syntax", "import", "weak", "public", "package", "option", "inf", "nan", "repeated", "optional", "required", "bool",
    "string", "int32", "group", "oneof", "map", "extensions", "to", "max", "reserved", "enum", "message", "extend", "service",
    "rpc", "stream", "returns", "true", "default", "json_name", "foo", "Foo", "_", ".", "-", "+", "(", ")", "{", "}", "[", "]",
    "<", ">", ",", "=", ":", ";", "/", "0", "1", "08", "0x1F", "1x", "18446744073709551616", "1.5", "1f", "\"s\"", "'a\\q'", "\"",
    "@", "\u{e9}", "#c\n", "//c\n", "/*c*/", "/*", "\"\\xff\"", "\"\\0\"",
];

pub fn systematic(i: u64) -> Option<String> {
    let mut i = i as usize;
    for s in SEEDS {
        let toks: Vec<&str> = s.split(' ').collect();
        let per = 2 + 2 * ALPHABET.len() + 1; // delete, duplicate, replace*, insert*, truncate
        let n = toks.len() * per;
        if i < n {
            let (at, op) = (i / per, i % per);
            let mut t: Vec<&str> = toks.clone();
            match op {
                0 => {
                    t.remove(at);
                }
                1 => t.insert(at, toks[at]),
                2 => t.truncate(at),
                x if x < 3 + ALPHABET.len() => t[at] = ALPHABET[x - 3],
                x => t.insert(at, ALPHABET[x - 3 - ALPHABET.len()]),
            }
            return Some(t.join(" "));
        }
        i -= n;
    }
    None
}
pub fn systematic_len() -> u64 {
    let mut n = 0;
    for s in SEEDS {
        n += s.split(' ').count() * (2 * ALPHABET.len() + 3);
    }
    n as u64
}

// ---- real files

pub fn corpus() -> &'static Vec<(String, String)> {
    static C: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        let dirs = [
            concat!(env!("CARGO_MANIFEST_DIR"), "/../shadow/protox/protobuf/src/google/protobuf"),
            concat!(env!("CARGO_MANIFEST_DIR"), "/../shadow/protox/protobuf/src/google/protobuf/compiler"),
            "/repo/protox/tests/data",
        ];
        for d in dirs {
            let Ok(es) = std::fs::read_dir(d) else { continue };
            for e in es.flatten() {
                if e.path().extension().map_or(false, |x| x == "proto") {
                    if let Ok(t) = std::fs::read_to_string(e.path()) {
                        v.push((e.path().display().to_string(), t));
                    }
                }
            }
        }
        v.sort();
        v
    })
}

/// A window of a real file's tokens, mutated and laid out again; or its text with bytes mutated.
pub fn corpus_mutant(env: &Env, stream: &str, i: u64, cfg: &Cfg) -> String {
    let mut r = rng(env, stream, i);
    let c = corpus();
    let (_, text) = &c[r.below(c.len())];
    if r.one_in(3) {
        // the text as it is, from one blank line to another, one change
        let mut t = text.clone();
        if t.len() > 3000 {
            let cuts: Vec<usize> = t.match_indices("\n\n").map(|x| x.0).collect();
            if cuts.len() > 4 {
                let a = r.below(cuts.len() - 2);
                let b = (a + r.range(1, 12)).min(cuts.len() - 1);
                t = t[cuts[a]..cuts[b]].to_owned();
            }
        }
        if r.one_in(4) {
            return t;
        }
        return gen::mutate_bytes(&mut r, &t);
    }
    let l = lex::lex(text);
    let toks: Vec<gen::T> = l
        .toks
        .iter()
        .enumerate()
        .map(|(k, t)| gen::T {
            text: text[t.s..t.e].to_owned(),
            start: k == 0 || matches!(l.toks[k - 1].k, lex::K::Sym(b';' | b'{' | b'}')),
        })
        .collect();
    let (a, b) = if toks.len() > 150 {
        // whole top-level declarations
        let starts: Vec<usize> = {
            let mut d = 0i32;
            let mut v = vec![];
            for (k, t) in l.toks.iter().enumerate() {
                if d == 0 && toks[k].start {
                    v.push(k)
                }
                match t.k {
                    lex::K::Sym(b'{') => d += 1,
                    lex::K::Sym(b'}') => d -= 1,
                    _ => (),
                }
            }
            v
        };
        let x = r.below(starts.len());
        let y = (x + r.range(1, 6)).min(starts.len());
        (starts[x], starts.get(y).copied().unwrap_or(toks.len()).min(starts[x] + 400))
    } else {
        (0, toks.len())
    };
    let part = toks[a..b].to_vec();
    let mut g = Gen::new(&mut r, cfg.clone());
    g.t = part;
    if g.r.pct(70) {
        g.mutate();
    }
    let t = std::mem::take(&mut g.t);
    gen::layout(&mut r, cfg, &t)
}

// ---- selections

const ALL_CLASSES: &[Class] = &[
    Class::Lexical,
    Class::Syntax,
    Class::Names,
    Class::Number,
    Class::Label,
    Class::Kind,
    Class::Default,
    Class::OptionValue,
    Class::Nesting,
];

fn yes(_: &Judged) -> bool {
    true
}

pub const LANG: Sel = Sel {
    facets: &[Facet::Verdict, Facet::Crash],
    classes: &[Class::Lexical, Class::Syntax, Class::Names, Class::Nesting, Class::OptionValue],
    nontrivial: yes,
};
pub const DECL: Sel = Sel {
    facets: &[Facet::Decl, Facet::Synth],
    classes: &[],
    nontrivial: |j| j.want_accept && j.model.ntoks > 4,
};
pub const LIT: Sel = Sel {
    facets: &[Facet::Lit, Facet::Default, Facet::Range, Facet::Verdict],
    classes: &[Class::Lexical],
    nontrivial: |j| seen(j, &["option statement", "option list", "field option list", "range", "field"]) || !j.want_accept,
};
pub const NUM: Sel = Sel {
    facets: &[Facet::Range, Facet::Verdict],
    classes: &[Class::Number],
    nontrivial: |j| seen(j, &["range", "field", "enum value"]) || !j.want_accept,
};
pub const LOC: Sel = Sel {
    facets: &[Facet::Loc],
    classes: &[],
    nontrivial: |j| j.want_accept && j.model.ntoks > 2,
};
pub const COM: Sel = Sel {
    facets: &[Facet::Comment],
    classes: &[],
    nontrivial: |j| j.want_accept && j.model.attached > 0 && !j.model.fuzzy_comments,
};
pub const OPT: Sel = Sel {
    facets: &[Facet::Opt, Facet::Lit, Facet::Verdict],
    classes: &[Class::OptionValue],
    nontrivial: |j| seen(j, &["option statement", "option list", "field option list"]),
};
pub const DEF: Sel = Sel {
    facets: &[Facet::Default, Facet::Verdict],
    classes: &[Class::Default],
    nontrivial: |j| seen(j, &["field option list"]) || !j.want_accept,
};
pub const SYN: Sel = Sel {
    facets: &[Facet::Synth, Facet::Decl],
    classes: &[],
    nontrivial: |j| seen(j, &["map", "group", "synthetic oneof"]),
};
pub const RULES: Sel = Sel {
    facets: &[Facet::Verdict],
    classes: &[Class::Label, Class::Kind],
    nontrivial: |j| seen(j, &["field", "map", "group", "oneof"]) || !j.want_accept,
};
pub const ERR: Sel = Sel {
    facets: &[Facet::Error],
    classes: &[],
    nontrivial: |j| !j.want_accept,
};
#[allow(dead_code)]
pub const EVERYTHING: Sel = Sel {
    facets: &[
        Facet::Verdict,
        Facet::Decl,
        Facet::Range,
        Facet::Opt,
        Facet::Lit,
        Facet::Default,
        Facet::Synth,
        Facet::Loc,
        Facet::Comment,
        Facet::Error,
    ],
    classes: ALL_CLASSES,
    nontrivial: yes,
};

macro_rules! stream {
    ($name:ident, $label:expr, $cfg:expr, $sel:expr) => {
        pub fn $name(env: &Env, i: u64) -> Case {
            judged(&generated(env, $label, i, &$cfg), &$sel).0
        }
    };
}
macro_rules! corpus_stream {
    ($name:ident, $label:expr, $cfg:expr, $sel:expr) => {
        pub fn $name(env: &Env, i: u64) -> Case {
            judged(&corpus_mutant(env, $label, i, &$cfg), &$sel).0
        }
    };
}

macro_rules! large_stream {
    ($name:ident, $sel:expr) => {
        pub fn $name(env: &Env, i: u64) -> Case {
            let (mut c, j) = judged(&crate::big::text(env, i), &$sel);
            c.stat(if j.want_accept { "large texts that are valid" } else { "large texts that are not" }, 1);
            if std::env::var_os("VMON_SHOW").is_some() && !j.gray {
                println!("{} {} {}", i % 34, j.want_accept, c.input.len());
            }
            c
        }
    };
}

large_stream!(lang_large, LANG);
large_stream!(decl_large, DECL);
large_stream!(lit_large, LIT);
large_stream!(num_large, NUM);
large_stream!(loc_large, LOC);
large_stream!(com_large, COM);
large_stream!(opt_large, OPT);
large_stream!(def_large, DEF);
large_stream!(syn_large, SYN);
large_stream!(rul_large, RULES);
large_stream!(err_large, ERR);

stream!(lang_gen, "gen", cfg_plain(), LANG);
stream!(lang_wild, "wild", cfg_wild(), LANG);
corpus_stream!(lang_corpus, "corpus", cfg_wild(), LANG);
pub fn lang_systematic(_: &Env, i: u64) -> Case {
    judged(&systematic(i).unwrap_or_default(), &LANG).0
}
/// Messages, groups and extended groups inside each other, about as deep as allowed.
pub fn nested(env: &Env, stream: &str, i: u64) -> String {
    let mut r = rng(env, stream, i);
    let depth = r.range(27, 36);
    let (mut s, mut close) = (String::new(), vec![]);
    let mut in_message = false;
    for d in 0..depth {
        let k = if in_message { r.below(6) } else { *r.pick(&[0usize, 0, 3]) };
        let (open, end, m) = match k {
            0 | 1 => (format!("message M{d} {{ "), "}", true),
            2 => (format!("optional group G{d} = {} {{ ", d + 1), "}", true),
            3 => (format!("extend X {{ repeated group H{d} = {} {{ ", d + 1), "} }", true),
            4 => (format!("oneof o{d} {{ group I{d} = {} {{ ", d + 1), "} }", true),
            _ => (format!("message N{d} {{ }} enum E{d} {{ A{d} = 0; }} required group J{d} = {} {{ ", d + 1), "}", true),
        };
        s += &open;
        close.push(end);
        in_message = m;
    }
    if r.one_in(2) {
        s += "map<int32, M0> last = 100; enum E { A = 0; } oneof o { int32 z = 101; } ";
    }
    while let Some(c) = close.pop() {
        s += c;
        // siblings after a deep part: depth must be given back
        if r.one_in(12) && !close.is_empty() {
            s += " message S { message T { message U { } } } ";
        }
    }
    s
}
pub fn lang_nested(env: &Env, i: u64) -> Case {
    judged(&nested(env, "nested", i), &LANG).0
}
stream!(decl_gen, "gen", cfg_names(), DECL);
stream!(decl_plain, "plain", cfg_plain(), DECL);
corpus_stream!(decl_corpus, "corpus", cfg_plain(), DECL);
pub fn decl_systematic(_: &Env, i: u64) -> Case {
    judged(&systematic(i).unwrap_or_default(), &DECL).0
}
stream!(lit_gen, "gen", cfg_literals(), LIT);
stream!(num_gen, "gen", cfg_numbers(), NUM);
stream!(loc_gen, "gen", cfg_spans(), LOC);
stream!(loc_opts, "options", Cfg { nonascii: 40, inner: 10, ..cfg_options() }, LOC);
stream!(loc_plain, "plain", cfg_names(), LOC);
corpus_stream!(loc_corpus, "corpus", cfg_spans(), LOC);
stream!(com_gen, "gen", cfg_layout(), COM);
stream!(com_opts, "options", Cfg { comments: 50, ..cfg_options() }, COM);
corpus_stream!(com_corpus, "corpus", cfg_layout(), COM);
stream!(opt_gen, "gen", cfg_options(), OPT);
stream!(opt_lit, "literals", Cfg { options: 80, ..cfg_literals() }, OPT);
corpus_stream!(opt_corpus, "corpus", cfg_options(), OPT);
stream!(def_gen, "gen", cfg_defaults(), DEF);
stream!(syn_gen, "gen", cfg_synth(), SYN);
stream!(rules_gen, "gen", cfg_rules(), RULES);
stream!(rules_plain, "plain", cfg_numbers(), RULES);

// ---- error reports: as judged, and rendered

fn with_rendering(src: &str, every: u64) -> Case {
    let (mut c, j) = judged(src, &ERR);
    if let Err(e) = &j.got {
        c.stat("error reports checked", 1);
        if fnv(src.as_bytes()) % every == 0 {
            c.stat("error reports rendered", 1);
            c.diffs.extend(sut(|| judge::render(e)));
        }
    }
    c
}
pub fn err_gen(env: &Env, i: u64) -> Case {
    with_rendering(&generated(env, "gen", i, &cfg_errors()), 8)
}
pub fn err_rules(env: &Env, i: u64) -> Case {
    with_rendering(
        &generated(
            env,
            "rules",
            i,
            &Cfg {
                nonascii: 40,
                inner: 8,
                crlf: 20,
                ..cfg_rules()
            },
        ),
        8,
    )
}
pub fn err_defaults(env: &Env, i: u64) -> Case {
    with_rendering(&generated(env, "defaults", i, &cfg_defaults()), 8)
}
pub fn err_corpus(env: &Env, i: u64) -> Case {
    with_rendering(&corpus_mutant(env, "corpus", i, &cfg_errors()), 8)
}
pub fn err_systematic(_: &Env, i: u64) -> Case {
    with_rendering(&systematic(i).unwrap_or_default(), 4)
}

// ---- numbers: every position x every boundary x spelling

const NUMS: &[&str] = &[
    "0", "1", "2", "100", "18999", "19000", "19001", "19999", "20000", "268435455", "268435456", "536870909", "536870910",
    "536870911", "536870912", "536870913", "1073741823", "1073741824", "2147483646", "2147483647", "2147483648", "2147483649",
    "4294967294", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808",
    "18446744073709551614", "18446744073709551615", "18446744073709551616", "4831838208", "4831838209",
];
const NUM_POS: &[&str] = &[
    "message M { optional int32 a = N; }",
    "message M { repeated group G = N {} }",
    "message M { map<int32, M> a = N; }",
    "message M { oneof o { M a = N; } }",
    "message M { oneof o { group G = N { optional int32 b = 7; } } }",
    "extend M { optional M a = N; }",
    "message M { extend M { optional M a = N; repeated M b = 2; } }",
    "syntax = \"proto3\"; message M { optional int32 a = N; int32 b = N; }",
    "message M { reserved N; }",
    "message M { reserved N to 100; reserved 3, N; }",
    "message M { reserved 100 to N; }",
    "message M { reserved N to N, 5; }",
    "message M { reserved N to max; }",
    "message M { extensions N; }",
    "message M { extensions N to 100; }",
    "message M { extensions 100 to N [a = 1]; }",
    "message M { extensions 1, N to max; }",
    "message M { option message_set_wire_format = true; extensions N to max; reserved N to max, 6 to 7, 8; }",
    "message M { extensions 4 to max; reserved N; option message_set_wire_format = true; }",
    "message M { option message_set_wire_format = false; extensions N to max; }",
    "message M { option (message_set_wire_format) = true; extensions N to max; }",
    "message M { option message_set_wire_format.x = true; extensions N to max; }",
    "message O { option message_set_wire_format = true; message M { extensions N to max; reserved 7 to max; } extensions 2 to max; }",
    "message O { message M { option message_set_wire_format = true; extensions N to max; } extensions 2 to max; reserved 8 to max; }",
    "message O { option message_set_wire_format = true; optional group G = 1 { extensions N to max; } extend O { optional group H = N { reserved 2 to max; } } }",
    "enum E { A = N; }",
    "enum E { A = 0; B = N [a = 1]; }",
    "enum E { reserved N; }",
    "enum E { reserved N to 2147483647; }",
    "enum E { reserved -2147483648 to N; }",
    "enum E { reserved N to max, N; }",
    "message M { enum E { A = N; reserved N to N, 5 to max; } }",
    "message M { optional int32 a = 5; reserved 5, N; extensions 5 to 9; }",
];

pub fn num_product_len() -> u64 {
    (NUM_POS.len() * NUMS.len() * 2 * 5) as u64
}
pub fn num_product(_: &Env, i: u64) -> Case {
    let mut i = i as usize;
    let mut take = |n: usize| {
        let x = i % n;
        i /= n;
        x
    };
    let (sp, neg, n, pos) = (take(5), take(2), take(NUMS.len()), take(NUM_POS.len()));
    let v = NUMS[n];
    let x: u128 = v.parse().unwrap();
    let v = match sp {
        0 => v.to_owned(),
        1 => format!("0x{x:x}"),
        2 => format!("0X0{x:X}"),
        3 => format!("0{x:o}"),
        _ => format!("000{x:o}"),
    };
    let v = if neg == 1 { format!("-{v}") } else { v };
    judged(&NUM_POS[pos].replace('N', &v), &NUM).0
}

// ---- labels and kinds: the full product

const R_LABELS: &[&str] = &["", "optional ", "required ", "repeated "];
const R_KINDS: &[&str] = &[
    "double a = 1", "float a = 1", "int32 a = 1", "int64 a = 1", "uint32 a = 1", "uint64 a = 1", "sint32 a = 1",
    "sint64 a = 1", "fixed32 a = 1", "fixed64 a = 1", "sfixed32 a = 1", "sfixed64 a = 1", "bool a = 1", "string a = 1",
    "bytes a = 1", "Foo a = 1", ".x.Foo a = 1", "map<string, Foo> a = 1", "map<.x.Y, int32> a = 1", "map<float, int32> a = 1",
    "map<double, Foo> a = 1", "map<bytes, int32> a = 1", "map<bool, map> a = 1", "map<int32, bytes> a = 1", "group A = 1", "group a = 1", "map a = 1", "map.B a = 1",
    "group _A = 1",
];
const R_SCOPES: &[&str] = &[
    "message M { @ }",
    "message M { oneof o { @ } }",
    "message M { oneof o { int32 q = 9; @ } oneof p { @ } }",
    "extend X { @ }",
    "message M { extend X { @ } }",
    "message N { message M { @ } }",
    "message N { oneof o { } @ }",
    "message N { optional group G = 5 { @ } }",
    "message N { oneof o { group G = 5 { @ } } }",
    "extend X { optional group G = 5 { @ } }",
    "extend X { optional group G = 5 { oneof o { @ } extend Y { @ } } }",
    "service S { } enum E { } message M { message N { } @ option a = b; }",
];
const R_SYNTAX: &[&str] = &["", "syntax = \"proto2\"; ", "syntax = 'proto3'; "];
const R_OPTS: &[&str] = &["", " [default = 1]", " [json_name = \"x\"]", " [packed = true, deprecated = false]"];

pub fn rules_product_len() -> u64 {
    (R_LABELS.len() * R_KINDS.len() * R_SCOPES.len() * R_SYNTAX.len() * R_OPTS.len()) as u64
}
fn rules_text(i: u64) -> String {
    let mut i = i as usize;
    let mut take = |n: usize| {
        let x = i % n;
        i /= n;
        x
    };
    let (l, k, s, y, o) = (
        take(R_LABELS.len()),
        take(R_KINDS.len()),
        take(R_SCOPES.len()),
        take(R_SYNTAX.len()),
        take(R_OPTS.len()),
    );
    let kind = R_KINDS[k];
    let end = if kind.starts_with("group") { " { }" } else { ";" };
    let f = format!("{}{}{}{}", R_LABELS[l], kind, R_OPTS[o], end);
    format!("{}{}", R_SYNTAX[y], R_SCOPES[s].replace('@', &f))
}
pub fn rules_product(_: &Env, i: u64) -> Case {
    judged(&rules_text(i), &RULES).0
}
pub fn err_rules_product(_: &Env, i: u64) -> Case {
    with_rendering(&rules_text(i), 16)
}
pub fn syn_rules_product(_: &Env, i: u64) -> Case {
    judged(&rules_text(i), &SYN).0
}

// ---- defaults: type x literal

const D_TYPES: &[&str] = &[
    "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64",
    "bool", "string", "bytes", "Foo", ".a.Foo",
];
const D_VALUES: &[&str] = &[
    "0", "1", "127", "128", "2147483646", "2147483647", "2147483648", "2147483649", "4294967294", "4294967295", "4294967296",
    "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551614",
    "18446744073709551615", "18446744073709551616", "0x7fffffff", "0x80000000", "0xffffffff", "0x100000000",
    "0x7fffffffffffffff", "0x8000000000000000", "0xFFFFFFFFFFFFFFFF", "0x10000000000000000", "017777777777", "020000000000",
    "037777777777", "040000000000", "1777777777777777777777", "01777777777777777777777", "1.0", "0.0", "1.5", "1e3", ".5", "5.",
    "1e400", "1e-400", "3.4028235e38", "3.4028236e38", "1e39", "1e-46", "123456789.125", "0.1", "1e10", "1e21", "16777217",
    "inf", "nan", "true", "false", "True", "FALSE", "infinity", "foo", "INF", "NaN", "\"\"", "\"abc\"", "'a' \"b\"", "\"\\x00\\n\\t\\\\\\\"'\"",
    "\"\\377\\xff\"", "'\u{e9}\u{1f600}'", "\"true\"", "\"1\"", "\"inf\"", "{ a: 1 }", "{ }", "1f", "10F", "'?\\?\\a\\b\\f\\v\\r'", "\"\\x7f\\x80\\x1f \"",
    "\"\\xc3\\xa9\"", "\"\\xc3\"", "\"\\xed\\xa0\\x80\"",
];
const D_FORMS: &[&str] = &[
    "message M { optional T a = 1 [default = V]; }",
    "message M { required T a = 1 [deprecated = true, default = V, json_name = \"q\"]; }",
    "extend M { optional T a = 1 [json_name = \"x\", default = V]; }",
    "message M { oneof o { T a = 1 [default = V]; } }",
    "message M { extend M { optional T a = 1 [default = V, (x).default = 3]; } }",
];

pub fn def_product_len() -> u64 {
    (D_TYPES.len() * D_VALUES.len() * 2 * D_FORMS.len()) as u64
}
fn def_text(i: u64) -> String {
    let mut i = i as usize;
    let mut take = |n: usize| {
        let x = i % n;
        i /= n;
        x
    };
    let (neg, v, t, f) = (take(2), take(D_VALUES.len()), take(D_TYPES.len()), take(D_FORMS.len()));
    let v = if neg == 1 {
        format!("-{}", D_VALUES[v])
    } else {
        D_VALUES[v].to_owned()
    };
    D_FORMS[f].replace('T', D_TYPES[t]).replace('V', &v)
}
pub fn def_product(_: &Env, i: u64) -> Case {
    judged(&def_text(i), &DEF).0
}
pub fn lit_def_product(_: &Env, i: u64) -> Case {
    judged(&def_text(i), &LIT).0
}
pub fn err_def_product(_: &Env, i: u64) -> Case {
    with_rendering(&def_text(i), 16)
}

// ---- string escapes: every one, in context

const E_CONTEXT: &[&str] = &[
    "option a = \"@\";",
    "option a = '@';",
    "option a = \"x@7f\";",
    "message M { optional bytes a = 1 [default = \"@\"]; }",
    "message M { optional bytes a = 1 [default = '0@0' '@']; }",
    "message M { optional string a = 1 [json_name = \"@g\"]; }",
    "option a = { b: \"@\" };",
    "import \"a@b\";",
    "message M { reserved \"@\"; }",
];

fn escapes() -> &'static Vec<String> {
    static E: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    E.get_or_init(|| {
        let mut v = vec![];
        for c in 0..128u8 {
            v.push((c as char).to_string());
            v.push(format!("\\{}", c as char));
        }
        for x in 0..256 {
            v.push(format!("\\x{x:x}"));
            v.push(format!("\\x{x:02X}"));
            v.push(format!("\\X{x:02x}"));
        }
        for x in 0..512 {
            v.push(format!("\\{x:o}"));
            v.push(format!("\\{x:03o}"));
        }
        v.push("\\x123".into());
        v.push("\\1234".into());
        v.push("\\0000".into());
        for x in (0..0x11_1000u32).step_by(997).chain([
            0, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10fffe,
            0x10ffff, 0x110000, 0xffff_ffff, 0x8000_0000,
        ]) {
            if x < 0x10000 {
                v.push(format!("\\u{x:04x}"));
                v.push(format!("\\u{x:04X}0"));
            }
            v.push(format!("\\U{x:08x}"));
            v.push(format!("\\U{x:08X}f"));
            if let Some(c) = char::from_u32(x) {
                v.push(c.to_string());
                v.push(format!("\\{c}"));
            }
        }
        for s in [
            "\\u", "\\u1", "\\u12", "\\u123", "\\U", "\\U1", "\\U0001f60", "\\x", "\\xg", "\\xG1", "\\u00e", "\\u00 9", "\\8", "\\9",
            "\\ud83d\\ude00", "\\\\", "\\\\\\\\n", "\\?", "??/", "a\\\nb", "a\\\r\nb", "\r", "\t", "\\\t",
        ] {
            v.push(s.into());
        }
        v
    })
}
pub fn escapes_len() -> u64 {
    (escapes().len() * E_CONTEXT.len()) as u64
}
pub fn lit_escapes(_: &Env, i: u64) -> Case {
    let i = i as usize;
    let e = &escapes()[i / E_CONTEXT.len()];
    judged(&E_CONTEXT[i % E_CONTEXT.len()].replace('@', e), &LIT).0
}

/// Floats: random bit patterns in several spellings, and long digit strings near halfway points.
pub fn lit_floats(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "floats", i);
    let mut s = String::from("message M {\n");
    for k in 1..=10 {
        let bits = r.next();
        let x = f64::from_bits(bits).abs();
        let t = if !x.is_finite() {
            "1e999".to_string()
        } else {
            match r.below(6) {
                0 => format!("{x:e}"),
                1 => format!("{:.25}e-3", x % 1e9),
                2 => {
                    let y = f32::from_bits(r.next() as u32).abs();
                    if y.is_finite() { format!("{:e}", y as f64) } else { "4e38".into() }
                }
                3 => {
                    // just off a halfway point of two floats
                    let y = f32::from_bits((r.next() as u32) & 0x7eff_ffff);
                    let z = f32::from_bits(y.to_bits() + 1);
                    format!("{:e}", (y as f64 + z as f64) / 2.0)
                }
                4 => format!("{:.3}", x % 1e6),
                _ => {
                    let mut g = Gen::new(&mut r, cfg_valid());
                    g.float()
                }
            }
        };
        let t = if t.contains('e') || t.contains('.') || t.contains('E') { t } else { format!("{t}.0") };
        let neg = if r.one_in(3) { "-" } else { "" };
        let ty = *r.pick(&["float", "double"]);
        s += &format!("  optional {ty} f{k} = {k} [default = {neg}{t}, (o) = {neg}{t}, (p) = {{ a: {neg}{t} }}];\n");
    }
    s += "}\n";
    judged(&s, &LIT).0
}

// ---- synthesised names: collisions

const S_NAMES: &[&str] = &[
    "a", "_a", "__a", "X_a", "XX_a", "XXX_a", "X__a", "A", "foo_bar", "_foo_bar", "FooBarEntry", "foo_bar_", "fooBar", "FOO_BAR", "f_1_b",
    "_", "__", "X_", "x1", "a_1", "_1a", "aB_cD", "entry", "Entry", "group", "map", "message", "o", "O", "_X_a", "Xa",
];
pub fn syn_collide(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "collide", i);
    let mut s = String::new();
    let p3 = !r.one_in(4);
    if p3 {
        s += "syntax = \"proto3\";\n";
    }
    s += "message M {\n";
    let n = r.range(1, 9);
    for k in 1..=n {
        let name = *r.pick(S_NAMES);
        match r.below(if p3 { 8 } else { 6 }) {
            0 => s += &format!("  map<{}, {}> {name} = {k};\n", r.pick(&gen::SCALARS[2..14]), r.pick(&["int32", "M", ".a.B", "bytes", "map", "group"])),
            1 => s += &format!("  oneof {name} {{ {} {} = {k}; }}\n", r.pick(&["int32", "M", "map"]), r.pick(S_NAMES)),
            2 if !p3 => {
                let n = r.pick(S_NAMES);
                let n = n[..1].to_uppercase() + &n[1..];
                let n = if n.starts_with('_') { format!("G{n}") } else { n };
                let l = *r.pick(&["optional", "required", "repeated"]);
                s += &format!("  {l} group {n} = {k} {{ optional group {n} = 1 {{}} {} }}\n", if r.one_in(3) { "oneof o { group Q = 3 {} }" } else { "" })
            }
            3 => s += &format!("  extend M {{ repeated {} {name} = {k}; {} }}\n", r.pick(&["M", "int32"]), if p3 { "optional M z = 5;" } else { "optional group Zz = 5 {}" }),
            4 => s += &format!("  message {} {{ {}int32 {name} = {k}; }}\n", r.pick(S_NAMES), "optional "),
            _ => s += &format!("  optional {} {name} = {k}{};\n", r.pick(&["int32", "M", "string"]), if r.one_in(4) { " [deprecated = true]" } else { "" }),
        }
    }
    s += "}\n";
    if p3 && r.one_in(4) {
        s += "extend M { optional int32 e = 1; }\n";
    }
    judged(&s, &SYN).0
}

// ---- layout does not matter

/// Whether all the hash comments of the text are where such comments may be.
fn hashes_fit(l: &lex::Lexed, text: &str) -> bool {
    l.hashes.is_empty()
        || match crate::spec::model("f.proto", text).verdict {
            crate::spec::Verdict::Reject(e) => e.iter().all(|e| e.kind != "comments are not allowed here"),
            _ => true,
        }
}

pub fn layout_pair(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "pair", i);
    let mut cfg = Cfg {
        viol: 30,
        mutate: 15,
        ..Cfg::default()
    };
    if r.one_in(3) {
        cfg = cfg_options();
    }
    let mut g = Gen::new(&mut r, cfg.clone());
    g.file();
    if g.r.pct(cfg.mutate) {
        g.mutate();
    }
    let t = std::mem::take(&mut g.t);
    let plain = Cfg {
        comments: 0,
        inner: 0,
        crlf: 0,
        ..Cfg::default()
    };
    let busy = Cfg {
        comments: 60,
        inner: *r.pick(&[5, 20, 60]),
        crlf: 40,
        nonascii: 30,
        ..Cfg::default()
    };
    let a = gen::layout(&mut r, &plain, &t);
    let mut b = gen::layout(&mut r, &busy, &t);
    let long = r.one_in(400);
    if long {
        // one very long gap
        let l = lex::lex(&b);
        if !l.toks.is_empty() {
            let at = l.toks[r.below(l.toks.len())].s;
            let n = crate::big::count(&mut r, true);
            let gap = r.pick(&[" ", "\n", "\r\n", "\t", "/* \u{e9} */", "// c\n", " /**/\n\n"]).repeat(n);
            b.insert_str(at, &gap);
        }
    }
    let mut c = Case::new(format!("{a}\n==== laid out differently\n{b}"));
    if long {
        c.stat("pairs with a very long gap", 1);
    }
    let (la, lb) = (lex::lex(&a), lex::lex(&b));
    let key = |l: &lex::Lexed, s: &str| l.toks.iter().map(|t| s[t.s..t.e].to_owned()).collect::<Vec<_>>();
    if !la.errs.is_empty() || !lb.errs.is_empty() || la.gray || lb.gray || !hashes_fit(&la, &a) || !hashes_fit(&lb, &b) || key(&la, &a) != key(&lb, &b) {
        c.stat("pairs not comparable (token boundaries)", 1);
        return c;
    }
    about_to_try(&b);
    let (ra, rb) = sut(|| (protox_parse::parse("f.proto", &a), protox_parse::parse("f.proto", &b)));
    let at = |l: &lex::Lexed, sp: Option<std::ops::Range<usize>>| {
        sp.map(|sp| {
            (
                l.toks.iter().position(|t| t.s == sp.start),
                l.toks.iter().position(|t| t.e == sp.end),
            )
        })
    };
    match (ra, rb) {
        (Ok(mut x), Ok(mut y)) => {
            c.stat("pairs accepted", 1);
            let paths = |f: &prost_types::FileDescriptorProto, l: &lex::Lexed, s: &str| -> Vec<(Vec<i32>, Option<usize>, Option<usize>)> {
                let starts: Vec<usize> = std::iter::once(0).chain(s.match_indices('\n').map(|x| x.0 + 1)).collect();
                f.source_code_info
                    .iter()
                    .flat_map(|s| &s.location)
                    .map(|loc| {
                        let (a, b, c, d) = match loc.span[..] {
                            [a, b, c] => (a, b, a, c),
                            [a, b, c, d] => (a, b, c, d),
                            _ => (0, 0, 0, 0),
                        };
                        let off = |l: i32, c: i32| starts.get(l as usize).map(|s| s + c as usize);
                        (
                            loc.path.clone(),
                            off(a, b).and_then(|o| l.toks.iter().position(|t| t.s == o)),
                            off(c, d).and_then(|o| l.toks.iter().position(|t| t.e == o)),
                        )
                    })
                    .collect()
            };
            let (px, py) = (paths(&x, &la, &a), paths(&y, &lb, &b));
            if px != py {
                let k = px.iter().zip(&py).position(|(p, q)| p != q).unwrap_or(px.len().min(py.len()));
                c.diffs.push(diff(
                    Facet::Meta,
                    format!("locations cover different tokens: {:?} and {:?}", px.get(k), py.get(k)),
                ));
            }
            x.source_code_info = None;
            y.source_code_info = None;
            // aggregates are text, in which layout may show
            let (rx, ry) = (crate::cmp::rows(&x), crate::cmp::rows(&y));
            if rx != ry {
                let d = crate::cmp::compare(&x, &y);
                c.diffs.push(diff(Facet::Meta, format!("descriptors differ: {:?}", d.first().map(|d| &d.what))));
            }
            c.nontrivial = Some(fnv(a.as_bytes()));
        }
        (Err(x), Err(y)) => {
            c.stat("pairs rejected", 1);
            if x.to_string() != y.to_string() || at(&la, x.span()) != at(&lb, y.span()) {
                c.diffs.push(diff(
                    Facet::Meta,
                    format!("errors differ: {x:?} at token {:?} and {y:?} at token {:?}", at(&la, x.span()), at(&lb, y.span())),
                ));
            }
            c.nontrivial = Some(fnv(a.as_bytes()));
        }
        (x, y) => c.diffs.push(diff(
            Facet::Meta,
            format!("one layout is accepted and the other is not: {:?} / {:?}", x.err(), y.err()),
        )),
    }
    c
}
/// The same for real files.
pub fn layout_corpus(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "layout corpus", i);
    let cs = corpus();
    let (_, text) = &cs[r.below(cs.len())];
    let l = lex::lex(text);
    let t: Vec<gen::T> = l
        .toks
        .iter()
        .enumerate()
        .map(|(k, t)| gen::T {
            text: text[t.s..t.e].to_owned(),
            start: k == 0 || matches!(l.toks[k - 1].k, lex::K::Sym(b';' | b'{' | b'}')),
        })
        .collect();
    let busy = Cfg {
        comments: 30,
        inner: *r.pick(&[0, 5, 30]),
        crlf: 40,
        ..Cfg::default()
    };
    let b = gen::layout(&mut r, &busy, &t);
    let mut c = Case::new(format!("{text}\n==== laid out differently\n{b}"));
    let lb = lex::lex(&b);
    if lb.gray || lb.toks.len() != l.toks.len() || l.toks.iter().zip(&lb.toks).any(|(x, y)| text[x.s..x.e] != b[y.s..y.e]) {
        c.stat("pairs not comparable (token boundaries)", 1);
        return c;
    }
    about_to_try(&b);
    let (ra, rb) = sut(|| (protox_parse::parse("f.proto", text), protox_parse::parse("f.proto", &b)));
    match (ra, rb) {
        (Ok(mut x), Ok(mut y)) => {
            x.source_code_info = None;
            y.source_code_info = None;
            if crate::cmp::rows(&x) != crate::cmp::rows(&y) {
                let d = crate::cmp::compare(&x, &y);
                c.diffs.push(diff(Facet::Meta, format!("descriptors differ: {:?}", d.first().map(|d| &d.what))));
            }
            c.nontrivial = Some(fnv(b.as_bytes()));
            c.stat("pairs accepted", 1);
        }
        (Err(_), Err(_)) => c.stat("pairs rejected", 1),
        (x, y) => c.diffs.push(diff(
            Facet::Meta,
            format!("one layout is accepted and the other is not: {:?} / {:?}", x.err(), y.err()),
        )),
    }
    c
}

pub fn diffs_of(d: Vec<Diff>) -> Vec<Diff> {
    d
}
