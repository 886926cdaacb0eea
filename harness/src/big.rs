//! Texts that are large in one dimension: many of the same, one that is very long, lines that are
//! far down or far to the right. What holds for a few must hold for many.
use crate::checks_parse::{nested, rng};
use crate::drive::Env;
use crate::rng::Rng;

/// How many: just over what fits into seven, eight or sixteen bits, or anything below.
pub fn count(r: &mut Rng, cheap: bool) -> usize {
    match r.below(if cheap { 12 } else { 10 }) {
        0..=3 => r.range(129, 140),
        4..=6 => r.range(257, 300),
        7 => r.range(20, 128),
        8 => r.range(1025, 1100),
        9 => r.range(300, 3000),
        10 => r.range(4097, 9000),
        _ => r.range(65_537, 66_000),
    }
}

fn ident(r: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n);
    s.push(*r.pick(b"abxyzABZ_") as char);
    for _ in 1..n {
        s.push(*r.pick(b"abcxyz019_ABZ_") as char);
    }
    s
}

fn gap(r: &mut Rng, style: usize) -> &'static str {
    match style {
        0 => "\n",
        1 => " ",
        2 => "",
        3 => "\r\n",
        _ => *r.pick(&["\n", " ", "\n\n", "\t", "\n  ", " // c\n", " /* b */ ", "\n// l\n", "\n// l\n\n"]),
    }
}

/// `n` times what `f` gives.
fn many(r: &mut Rng, n: usize, mut f: impl FnMut(&mut Rng, usize) -> String) -> String {
    let style = r.below(5);
    let mut s = String::new();
    for i in 0..n {
        s += &f(r, i);
        s += gap(r, style);
    }
    s
}

fn list(r: &mut Rng, n: usize, mut f: impl FnMut(&mut Rng, usize) -> String) -> String {
    let style = r.below(5);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s += ",";
            s += gap(r, style);
        }
        s += &f(r, i);
    }
    s
}

/// Some other declarations, to be before or after.
fn few(r: &mut Rng) -> String {
    let mut s = String::new();
    for i in 0..r.below(3) {
        s += match r.below(8) {
            0 => "message Few { optional int32 a = 1; }",
            1 => "enum Few { A = 0; reserved 5; }",
            2 => "service Few { rpc A(B) returns (stream C); }",
            3 => "option few = 1;",
            4 => "extend Few { optional int32 b = 5 [c = 6]; }",
            5 => "import 'few';",
            6 => "// comment on few\nmessage Few { oneof o { int32 a = 1; } } // after few\n",
            _ => ";",
        };
        s += if i % 2 == 0 { "\n" } else { " " };
    }
    s
}

/// A text of dimension `k` made large.
fn dimension(r: &mut Rng, k: usize) -> String {
    let cheap = count(r, true);
    let n = count(r, false);
    match k {
        0 => many(r, n, |r, i| format!("import {}\"d/{i}.proto\";", r.pick(&["", "", "public ", "weak "]))),
        1 => many(r, n, |r, i| match r.below(4) {
            0 => format!("message M{i} {{ }}"),
            1 => format!("message M{i} {{ enum E {{ A = 0; }} extend X {{ optional M{i} a = {}; }} }}", i + 1),
            _ => format!("message M{i} {{ optional int32 a = {}; }}", i + 1),
        }),
        2 => many(r, n, |r, i| format!("enum E{i} {{ A{i} = 0; {} }}", if r.one_in(4) { "reserved 'x', 'y';" } else { "" })),
        3 => format!("message M {{ {} }}", many(r, cheap, |r, i| format!("{} {} f{i} = {};", r.pick(&["optional", "repeated", "required"]), r.pick(&["int32", "bytes", ".a.B", "C"]), i % 18_000 + 1))),
        4 => format!("message M {{ {} }}", many(r, n, |r, i| match r.below(5) {
            0 => format!("map<string, M{i}> m{i} = {};", i + 1),
            1 => format!("repeated group G{i} = {} {{ optional int32 x = 1; }}", i + 1),
            2 => format!("oneof o{i} {{ int32 x{i} = {}; }}", i + 1),
            3 => format!("message N{i} {{ extensions {}; }}", i + 1),
            _ => format!("enum E{i} {{ V = {i}; }}"),
        })),
        5 => format!("syntax = 'proto3'; message M {{ {} }}", many(r, n, |r, i| match r.below(5) {
            0 => format!("oneof o{i} {{ int32 x{i} = {}; }}", i + 1),
            1 => format!("map<int32, bool> m{i} = {};", i + 1),
            2 => format!("repeated string r{i} = {};", i + 1),
            _ => format!("optional {} p{i} = {};", r.pick(&["int32", "M"]), i + 1),
        })),
        6 => format!("message M {{ oneof first {{ int32 x = 1; }} oneof o {{ {} }} oneof last {{ int32 y = 2; }} }}", many(r, n, |r, i| {
            if r.one_in(5) { format!("group G{i} = {} {{ }}", i + 3) } else { format!("string x{i} = {};", i + 3) }
        })),
        7 => format!("enum E {{ {} }}", many(r, cheap, |r, i| format!("V{i} = {}{i}{};", if i > 0 && r.one_in(9) { "-" } else { "" }, if r.one_in(9) { " [deprecated = true]" } else { "" }))),
        8 => {
            let l = list(r, cheap, |r, i| if r.one_in(3) { format!("{} to {}", 3 * i + 1, 3 * i + 3) } else { format!("{}", 3 * i + 1) });
            if r.one_in(2) { format!("message M {{ reserved {l}; reserved 500000000 to max; }}") } else { format!("enum E {{ A = -1; reserved {l}, 2000000000 to max; reserved -9 to -5; }}") }
        }
        9 => {
            let l = many(r, n, |r, i| match r.below(3) {
                0 => format!("reserved 'n{i}', \"m{i}\";"),
                1 => format!("reserved {}, {};", 3 * i + 1, 3 * i + 2),
                _ => format!("reserved {} to {};", 3 * i + 1, 3 * i + 3),
            });
            if r.one_in(2) { format!("message M {{ {l} }}") } else { format!("enum E {{ A = -1; {l} }}") }
        }
        10 => {
            let l = list(r, cheap, |_, i| format!("'name{i}'"));
            if r.one_in(2) { format!("message M {{ reserved {l}; }}") } else { format!("enum E {{ A = 0; reserved {l}; }}") }
        }
        11 => match r.below(2) {
            0 => format!("message M {{ extensions {} [a = 1, b = 'x']; }}", list(r, n, |_, i| format!("{}", 2 * i + 1))),
            _ => format!("message M {{ {} }}", many(r, n, |r, i| format!("extensions {} to {}{};", 5 * i + 1, 5 * i + 4, if r.one_in(4) { " [(x).y = Z]" } else { "" }))),
        },
        12 => format!("extend .a.X {{ {} }}", many(r, n, |r, i| match r.below(4) {
            0 => format!("repeated group G{i} = {} {{ }}", i + 1),
            _ => format!("optional int32 e{i} = {};", i + 1),
        })),
        13 => many(r, n, |_, i| format!("extend X{i} {{ optional int32 e{i} = {}; }}", i + 1)),
        14 => format!("service S {{ {} }}", many(r, n, |r, i| format!("rpc M{i}({}A) returns ({}.b.C){}", r.pick(&["", "stream "]), r.pick(&["", "stream "]), r.pick(&[";", ";", "{ option a = 1; }", "{ }"])))),
        15 => many(r, n, |_, i| format!("service S{i} {{ rpc M(A) returns (B); }}")),
        16 => {
            let o = many(r, n, |r, i| match r.below(5) {
                0 => format!("option (a.b{i}).c = {{ x: {i} }};"),
                1 => format!("option o{i} = -{i};"),
                2 => format!("option o{i} = 'v{i}';"),
                3 => format!("option o{i} = V{i};"),
                _ => format!("option o{i} = {i}.5;"),
            });
            match r.below(6) {
                0 => o,
                1 => format!("message M {{ {o} }}"),
                2 => format!("enum E {{ A = 0; {o} }}"),
                3 => format!("service S {{ {o} }}"),
                4 => format!("service S {{ rpc A(B) returns (C) {{ {o} }} }}"),
                _ => format!("message M {{ oneof q {{ int32 z = 1; {o} }} }}"),
            }
        }
        17 => {
            let at = r.below(n);
            let o = list(r, n, |r, i| {
                if i == at { return "json_name = 'j'".into() }
                match r.below(3) {
                    0 => format!("(.a.b).c{i} = {i}"),
                    1 => format!("o{i} = 'x'"),
                    _ => format!("o{i} = {{ a: 'b' }}"),
                }
            });
            match r.below(3) {
                0 => format!("enum E {{ A = 0 [{o}]; B = 1; }}"),
                1 => format!("message M {{ optional int32 a = 1 [{o}]; optional string b = 2 [{o}, default = 'x']; }}"),
                _ => format!("message M {{ extensions 5, 7 [{o}]; }}"),
            }
        }
        18 => {
            let name = (0..n).map(|i| format!("p{i}")).collect::<Vec<_>>().join(".");
            match r.below(7) {
                0 => format!("package {name};"),
                1 => format!("message M {{ optional .{name} a = 1; map<int32, {name}> m = 2; }}"),
                2 => format!("extend {name} {{ optional int32 a = 1; }}"),
                3 => format!("service S {{ rpc A({name}) returns (stream .{name}); }}"),
                4 => format!("option {name} = 1;"),
                5 => format!("option ({name}).{name} = 1;"),
                _ => format!("option {} = true;", (0..n).map(|i| format!("(x{i})")).collect::<Vec<_>>().join(".")),
            }
        }
        19 => {
            // literals: one long, or many pieces
            let lit = if r.one_in(2) {
                let body: String = (0..cheap).map(|_| *r.pick(&["a", "\\n", "\\x41", "\\101", "\u{e9}", "\\u00e9", "\\\\", " "])).collect();
                format!("'{body}'")
            } else {
                many(r, n, |r, i| format!("{}", r.pick(&[&format!("'p{i}'"), "\"\"", "'\\000'", "\"q\\\"\""][..])))
            };
            match r.below(5) {
                0 => format!("option o = {lit};"),
                1 => format!("message M {{ optional string s = 1 [default = {lit}]; }}"),
                2 => format!("message M {{ optional bytes s = 1 [default = {lit}, json_name = 'x']; }}"),
                3 => format!("message M {{ optional int32 s = 1 [json_name = {lit}]; }}"),
                _ => format!("option o = {{ a: {lit} b: [{lit}] }};"),
            }
        }
        20 => {
            // comments of many lines
            let c = many_lines(r, cheap.min(9000));
            match r.below(4) {
                0 => format!("message Before {{ }}\n\n{c}message M {{ }}\n"),
                1 => format!("message M {{\n{c}\n optional int32 a = 1;\n{c}}}\n"),
                2 => format!("message M {{ }} \n{c}\n\nmessage N {{ }}\n"),
                _ => format!("syntax = 'proto2';\n{c}\n{c}\npackage p;\n"),
            }
        }
        21 => {
            let body = (0..cheap).map(|_| *r.pick(&["x", " ", "*", "\n", "\n * y", "\n\n", "\t", "é", "\r\n"])).collect::<String>().replace("*/", "* /").replace("/*", "/ *");
            format!("/*{} */\nmessage M {{ /* {} */ optional int32 a = 1; }}\n", body, body.replace('/', "|"))
        }
        22 => {
            // one long line comment
            let body: String = (0..cheap).map(|_| *r.pick(&['x', ' ', '\u{4e16}', '/', '*'])).collect();
            format!("message A {{ }} //{body}\n//{body}\nmessage M {{ }}\n")
        }
        23 => {
            // detached comments
            many(r, n, |r, i| format!("// detached {i}\n\n{}", if r.one_in(3) { format!("/* block {i} */") } else { String::new() })) + "message M { }\n"
        }
        24 => {
            // far to the right
            let pad: String = if r.one_in(2) { " ".repeat(cheap) } else { format!("/*{}*/", "\u{e9}".repeat(cheap / 2)) };
            format!("message A {{ }}\n{pad}message M {{ optional int32 a = 1 [default = 5]; }} {pad} option\n{pad}a.b{pad} = 1; /* x */ // y\n")
        }
        25 => {
            // far down
            let pad = r.pick(&["\n", "\r\n", " \n", "// c\n\n", "\n/* x */\n"]).repeat(cheap);
            format!("{}{pad}message M {{{pad} optional int32{pad} a = 1 [default = 5]; }} // c\n{pad}enum E {{ A = 0; }}", few(r))
        }
        26 => {
            let (a, b, c) = (ident(r, cheap), ident(r, n), ident(r, n));
            match r.below(6) {
                0 => format!("message {a} {{ optional {b} {c} = 1; }}"),
                1 => format!("enum {a} {{ {b} = 0; }}"),
                2 => format!("syntax = 'proto3'; message M {{ optional int32 {a} = 1; map<int32, {b}> {c} = 2; oneof {b} {{ int32 z = 3; }} }}"),
                3 => format!("message M {{ optional group G{a} = 1 {{ }} reserved '{b}'; }}"),
                4 => format!("service {a} {{ rpc {b}({c}) returns ({a}); }}"),
                _ => format!("option {a}.({b}) = {c}; package {c};"),
            }
        }
        27 => {
            // numerals with many digits
            let z = "0".repeat(n);
            match r.below(6) {
                0 => format!("option a = 0{z}7; option b = 0x{z}fF; option c = -0x{z}1;"),
                1 => format!("option a = 1.{z}5; option b = .{z}1e{n}; option c = 1{z}e-{n};"),
                2 => format!("message M {{ optional double d = 1 [default = 0.{z}1]; optional float e = 2 [default = 1{z}.0]; }}"),
                3 => format!("message M {{ optional int32 d = 0x{z}1; reserved 0{z}2 to 0{z}5; }}"),
                4 => format!("option a = 1{z};"),
                _ => format!("enum E {{ A = 0{z}; B = -0x{z}80000000; }}"),
            }
        }
        28 => {
            let inner = list(r, n, |_, i| format!("k{i}: {i}"));
            match r.below(3) {
                0 => format!("option a = {{ {inner} }};"),
                1 => format!("message M {{ optional int32 a = 1 [(x) = {{ l: [{}] }}]; }}", list(r, n, |_, i| format!("{i}"))),
                _ => format!("option a = {}x: 1{};", "{ a ".repeat(n.min(900)), "}".repeat(n.min(900))),
            }
        }
        29 => format!("{}message M {{ {} }}{}", ";".repeat(cheap), "; ".repeat(cheap), ";\n".repeat(n)),
        _ => String::new(),
    }
}

fn many_lines(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        s += match r.below(4) {
            0 => "//",
            1 => "// ",
            2 => "//  indented ",
            _ => "\t// ",
        };
        s += &i.to_string();
        s += if i % 7 == 3 { " text\r\n" } else { " some text\n" };
    }
    s
}

pub fn text(env: &Env, i: u64) -> String {
    let mut r = rng(env, "large", i);
    let k = (i % 34) as usize;
    if k > 29 {
        return nested(env, "large nested", i);
    }
    let d = dimension(&mut r, k);
    let (a, b) = (few(&mut r), few(&mut r));
    // what stands first must stand first
    let mut s = if d.starts_with("syntax") { d + &b } else { a + &d + &b };
    if r.one_in(4) {
        // an error near the end, or anywhere
        match r.below(5) {
            0 => s += "message Broken { optional int32 zero = 0; }",
            1 => s += "message { }",
            2 => s += "option a = ;",
            3 => s += "%",
            _ => {
                let mut at = r.below(s.len().max(1));
                while !s.is_char_boundary(at) {
                    at -= 1;
                }
                s.insert(at, *r.pick(&['%', ';', '}', '{', '\'', '0', '\u{e9}']));
            }
        }
    }
    s
}
