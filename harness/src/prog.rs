//! Generates programs of several files that are valid by construction, nearly always: types that
//! refer to each other across files, extensions, custom options on everything.
use crate::gen;
use crate::rng::Rng;
use std::collections::HashSet;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub struct Program {
    pub files: Vec<(String, String)>,
    pub roots: Vec<String>,
}

impl Program {
    pub fn show(&self) -> String {
        let mut s = format!("roots: {:?}\n", self.roots);
        for (n, t) in &self.files {
            let _ = write!(s, "==== {n}\n{t}");
        }
        s
    }
    pub fn get(&self, name: &str) -> Option<&str> {
        self.files.iter().find(|f| f.0 == name).map(|f| f.1.as_str())
    }
}

#[derive(Clone)]
struct MsgT {
    full: String,
    file: usize,
    proto3: bool,
    ext: bool, // has an extension range
    ext_used: i32,
    fields: Vec<Fld>,
}
#[derive(Clone)]
struct EnumT {
    full: String,
    file: usize,
    proto3: bool,
    values: Vec<String>,
    scope: String,
}
#[derive(Clone, Debug)]
enum Ty {
    S(&'static str),
    M(String),
    E(String),
    Map(&'static str, Box<Ty>),
}
#[derive(Clone)]
struct Fld {
    name: String,
    ty: Ty,
    repeated: bool,
    group: bool,
}
#[derive(Clone)]
struct Opt {
    full: String, // full name of the extension
    file: usize,
    target: &'static str,
    fld: Fld,
}

const TARGETS: &[&str] = &[
    "FileOptions",
    "MessageOptions",
    "FieldOptions",
    "OneofOptions",
    "EnumOptions",
    "EnumValueOptions",
    "ServiceOptions",
    "MethodOptions",
    "ExtensionRangeOptions",
];
const SCALARS: &[&str] = &[
    "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32",
    "sfixed64", "bool", "string", "bytes",
];
const KEYS: &[&str] = &[
    "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string",
];

pub struct G<'r> {
    r: &'r mut Rng,
    msgs: Vec<MsgT>,
    enums: Vec<EnumT>,
    opts: Vec<Opt>,
    vis: Vec<HashSet<usize>>,  // files visible to each file
    pkgs: Vec<String>,
    n: usize,
    next_opt: i32,
    out: String,
    file: usize,
    proto3: bool,
    ind: usize,
    used: HashSet<String>,
    pub options: usize,
    pub wkt: bool,
}

fn camel_key(s: &str) -> String {
    s.replace('_', "").to_lowercase()
}

impl<'r> G<'r> {
    fn id(&mut self) -> usize {
        self.n += 1;
        self.n
    }
    /// A name that no other declaration has: it carries the number.
    fn named(&mut self, base: &str, i: usize) -> String {
        match self.r.below(16) {
            0 => format!("{base}{i}_"),
            1 => format!("{base}_{i}"),
            2 => format!("{base}{i}__x"),
            3 => format!("{base}{i}URLof_Y2_k"),
            4 => format!("{base}__{i}_"),
            5 => format!("{base}{i}{}", "long".repeat(40)),
            // groups must begin with a capital
            6 if base != "Grp" => format!("_{base}{i}"),
            7 if base != "Grp" => format!("{}{i}", base.to_lowercase()),
            _ => format!("{base}{i}"),
        }
    }
    fn line(&mut self, s: &str) {
        for _ in 0..self.ind {
            self.out.push_str("  ");
        }
        if self.r.one_in(25) {
            self.out.push_str(if self.r.one_in(2) { "// a comment\n" } else { "/* a\n * b */ " });
        }
        self.out.push_str(s);
        if self.r.one_in(30) {
            self.out.push_str(" // trailing");
        }
        self.out.push('\n');
    }

    fn sees(&self, f: usize) -> bool {
        f == self.file || self.vis[self.file].contains(&f)
    }

    /// A way of writing a full name (without leading dot) from the given scope.
    fn refer(&mut self, full: &str, scope: &str) -> String {
        let (a, b): (Vec<&str>, Vec<&str>) = (full.split('.').collect(), scope.split('.').filter(|x| !x.is_empty()).collect());
        let mut common = 0;
        while common < a.len() - 1 && common < b.len() && a[common] == b[common] {
            common += 1;
        }
        match self.r.below(5) {
            0 => format!(".{full}"),
            1 => full.to_owned(),
            2 => a[self.r.below(common + 1)..].join("."),
            _ => a[common..].join("."),
        }
    }

    fn pick_msg(&mut self) -> Option<String> {
        let c: Vec<&MsgT> = self.msgs.iter().filter(|m| self.sees(m.file)).collect();
        if c.is_empty() {
            return None;
        }
        Some(c[self.r.below(c.len())].full.clone())
    }
    fn pick_enum(&mut self) -> Option<String> {
        let p3 = self.proto3;
        let c: Vec<&EnumT> = self.enums.iter().filter(|m| self.sees(m.file) && (!p3 || m.proto3)).collect();
        if c.is_empty() {
            return None;
        }
        Some(c[self.r.below(c.len())].full.clone())
    }
    fn ty(&mut self) -> Ty {
        match self.r.below(10) {
            0..=2 => self.pick_msg().map_or(Ty::S("int32"), Ty::M),
            3..=4 => self.pick_enum().map_or(Ty::S("string"), Ty::E),
            _ => Ty::S(self.r.pick(SCALARS)),
        }
    }
    fn write_ty(&mut self, t: &Ty, scope: &str) -> String {
        match t {
            Ty::S(s) => (*s).to_owned(),
            Ty::M(f) | Ty::E(f) => self.refer(f, scope),
            Ty::Map(k, v) => {
                let v = self.write_ty(v, scope);
                format!("map<{k}, {v}>")
            }
        }
    }

    fn scalar_literal(&mut self, s: &str, in_aggregate: bool) -> String {
        let r = &mut *self.r;
        match s {
            "double" | "float" => match r.below(8) {
                0 if in_aggregate => "inf".into(),
                1 if in_aggregate => "-inf".into(),
                2 if in_aggregate => "nan".into(),
                3 => format!("-{}", r.below(1000)),
                4 => format!("{}.{}", r.below(1000), r.below(1000)),
                5 => format!("-{}e{}", r.range(1, 99), r.range(0, 20)),
                6 => format!(".{}E-{}", r.range(1, 99), r.range(0, 20)),
                _ => format!("{}", r.below(100_000)),
            },
            "int32" | "sint32" | "sfixed32" => (*r.pick(&["0", "1", "-1", "2147483647", "-2147483648", "0x7f", "017", "-0x1F", "42"])).into(),
            "int64" | "sint64" | "sfixed64" => {
                (*r.pick(&["0", "-1", "9223372036854775807", "-9223372036854775808", "0xffffffffff", "0777", "42"])).into()
            }
            "uint32" | "fixed32" => (*r.pick(&["0", "1", "4294967295", "0xFFFFFFFF", "017", "42"])).into(),
            "uint64" | "fixed64" => (*r.pick(&["0", "1", "18446744073709551615", "0xFFFFFFFFFFFFFFFF", "0777", "42"])).into(),
            "bool" => (*r.pick(&["true", "false"])).into(),
            "string" => (*r.pick(&[
                "\"\"", "\"abc\"", "'it\\'s'", "\"a\" 'b'", "\"\\n\\t\\\\\"", "\"\u{e9}\u{4e16}\u{1f600}\"", "'\\x41\\102'", "\"\\u00e9\"", "'\"'",
            ]))
            .into(),
            _ => (*r.pick(&["\"\"", "'\\xff\\000'", "\"abc\"", "'\\377' \"z\"", "\"\\n\\\\\\\"'\""])).into(),
        }
    }
    fn enum_value(&mut self, full: &str) -> String {
        let e = self.enums.iter().find(|e| e.full == full).unwrap();
        let i = self.r.below(e.values.len());
        e.values[i].clone()
    }

    /// The body of an aggregate for the given message, at most `depth` deep.
    fn aggregate(&mut self, full: &str, depth: usize) -> String {
        let Some(m) = self.msgs.iter().find(|m| m.full == full).cloned() else { return String::new() };
        let mut s = String::new();
        let mut seen = HashSet::new();
        for _ in 0..self.r.below(4) {
            if m.fields.is_empty() {
                break;
            }
            let f = m.fields[self.r.below(m.fields.len())].clone();
            if !f.repeated && !seen.insert(f.name.clone()) {
                continue;
            }
            let name = if f.group {
                let Ty::M(t) = &f.ty else { unreachable!() };
                t.rsplit('.').next().unwrap().to_owned()
            } else {
                f.name.clone()
            };
            let n = if f.repeated && self.r.one_in(3) { self.r.below(4) } else { 99 };
            match &f.ty {
                Ty::Map(k, v) => {
                    if depth == 0 {
                        continue;
                    }
                    let key = self.scalar_literal(k, true);
                    let val = match &**v {
                        Ty::S(x) => format!("value: {}", self.scalar_literal(x, true)),
                        Ty::E(e) => format!("value: {}", self.enum_value(e)),
                        Ty::M(t) => format!("value {{ {} }}", self.aggregate(t, depth - 1)),
                        Ty::Map(..) => unreachable!(),
                    };
                    let _ = write!(s, "{name} {{ key: {key} {val} }} ");
                }
                Ty::M(t) => {
                    if depth == 0 {
                        continue;
                    }
                    if n < 99 {
                        let items: Vec<String> = (0..n).map(|_| format!("{{ {} }}", self.aggregate(t, depth - 1))).collect();
                        let _ = write!(s, "{name}: [{}] ", items.join(", "));
                    } else {
                        let inner = self.aggregate(t, depth - 1);
                        match self.r.below(3) {
                            0 => {
                                let _ = write!(s, "{name}: {{ {inner} }} ");
                            }
                            1 => {
                                let _ = write!(s, "{name} < {inner} > ");
                            }
                            _ => {
                                let _ = write!(s, "{name} {{ {inner} }} ");
                            }
                        }
                    }
                }
                t => {
                    let mut one = |g: &mut Self| match t {
                        Ty::S(x) => g.scalar_literal(x, true),
                        Ty::E(e) => g.enum_value(e),
                        _ => unreachable!(),
                    };
                    if n < 99 {
                        let items: Vec<String> = (0..n).map(|_| one(self)).collect();
                        let _ = write!(s, "{name}: [{}] ", items.join(", "));
                    } else {
                        let v = one(self);
                        let _ = write!(s, "{name}: {v} ");
                    }
                }
            }
            if self.r.one_in(3) {
                s.push_str(if self.r.one_in(2) { ", " } else { "; " });
            }
        }
        s
    }

    /// `name = value` for some options of the given kind of element.
    fn opts_for(&mut self, target: &'static str, scope: &str) -> Vec<String> {
        let mut v = vec![];
        if !self.r.pct(self.options) {
            return v;
        }
        let mut seen = HashSet::new();
        for _ in 0..self.r.range(1, 3) {
            let c: Vec<Opt> = self.opts.iter().filter(|o| o.target == target && self.sees(o.file)).cloned().collect();
            if c.is_empty() || self.r.one_in(4) {
                let b = self.builtin(target);
                if !b.is_empty() && seen.insert(b.split(' ').next().unwrap().to_owned()) {
                    v.push(b);
                }
                continue;
            }
            let o = c[self.r.below(c.len())].clone();
            if !o.fld.repeated && !seen.insert(o.full.clone()) {
                continue;
            }
            let name = self.refer(&o.full, scope);
            match &o.fld.ty {
                Ty::S(x) => v.push(format!("({name}) = {}", self.scalar_literal(x, false))),
                Ty::E(e) => v.push(format!("({name}) = {}", self.enum_value(e))),
                Ty::M(t) => {
                    let m = self.msgs.iter().find(|m| m.full == *t).cloned().unwrap();
                    let simple: Vec<&Fld> = m
                        .fields
                        .iter()
                        .filter(|f| !f.repeated && matches!(f.ty, Ty::S(_) | Ty::E(_)))
                        .collect();
                    if !o.fld.repeated && !simple.is_empty() && self.r.one_in(2) {
                        let mut names = HashSet::new();
                        for _ in 0..self.r.range(1, 3) {
                            let f = simple[self.r.below(simple.len())].clone();
                            if !names.insert(f.name.clone()) {
                                continue;
                            }
                            let val = match &f.ty {
                                Ty::S(x) => self.scalar_literal(x, false),
                                Ty::E(e) => self.enum_value(e),
                                _ => unreachable!(),
                            };
                            v.push(format!("({name}).{} = {val}", f.name));
                        }
                    } else {
                        let a = self.aggregate(t, 3);
                        v.push(format!("({name}) = {{ {a} }}"));
                    }
                }
                Ty::Map(..) => (),
            }
        }
        v
    }
    fn builtin(&mut self, target: &str) -> String {
        let r = &mut *self.r;
        match target {
            "FileOptions" => (*r.pick(&[
                "java_package = \"com.foo\"",
                "java_multiple_files = true",
                "optimize_for = SPEED",
                "optimize_for = CODE_SIZE",
                "go_package = 'x' \"/y\"",
                "cc_enable_arenas = false",
                "objc_class_prefix = \"\"",
                "deprecated = true",
            ]))
            .into(),
            "MessageOptions" => (*r.pick(&["deprecated = true", "no_standard_descriptor_accessor = true"])).into(),
            "FieldOptions" => (*r.pick(&["deprecated = true", "deprecated = false", "ctype = CORD", "deprecated = true"])).into(),
            "EnumOptions" | "EnumValueOptions" | "ServiceOptions" => "deprecated = true".into(),
            "MethodOptions" => (*r.pick(&["deprecated = true", "idempotency_level = IDEMPOTENT", "idempotency_level = NO_SIDE_EFFECTS"])).into(),
            _ => String::new(),
        }
    }
    fn bracket(&mut self, target: &'static str, scope: &str, mut first: Vec<String>) -> String {
        first.extend(self.opts_for(target, scope));
        if first.is_empty() {
            return String::new();
        }
        format!(" [{}]", first.join(", "))
    }
    fn statements(&mut self, target: &'static str, scope: &str) {
        for o in self.opts_for(target, scope) {
            self.line(&format!("option {o};"));
        }
    }

    fn field_name(&mut self, taken: &mut HashSet<String>) -> String {
        loop {
            let n = match self.r.below(5) {
                0 => format!("field_{}", self.r.below(20)),
                1 => (*self.r.pick(&[
                    "message", "option", "map", "to", "max", "foo_bar", "fooBar", "FooBar", "a__b", "x1_y2", "rpc", "stream", "inf_", "import",
                    "string", "_under", "trail_", "int32", "group", "A_B_C", "weak", "package",
                ]))
                .to_owned(),
                2 => format!("f{}", self.r.below(30)),
                _ => format!("value{}", self.r.below(100)),
            };
            if taken.insert(camel_key(&n)) {
                return n;
            }
        }
    }

    fn enum_def(&mut self, scope: &str) {
        let i = self.id();
        let name = self.named("E", i);
        let style = self.r.below(8);
        let full = if scope.is_empty() { name.clone() } else { format!("{scope}.{name}") };
        self.line(&format!("enum {name} {{"));
        self.ind += 1;
        self.statements("EnumOptions", &full);
        let alias = self.r.one_in(6);
        let mut taken = HashSet::new();
        if alias {
            self.line("option allow_alias = true;");
        }
        let n = self.r.range(1, 5);
        let mut values = vec![];
        for k in 0..n {
            let v = match style {
                0 => format!("e{i}v{k}"),
                1 => format!("E{i}_V{k}_"),
                2 => format!("_E{i}_v_{k}"),
                3 => format!("V{k}_of_{i}_x"),
                _ => format!("E{i}_V{k}"),
            };
            let num = if k == 0 {
                "0".to_owned()
            } else {
                match self.r.below(6) {
                    0 => format!("-{k}"),
                    1 => format!("0x{:x}", k + 10),
                    2 if k == 1 => "2147483647".into(),
                    3 if k == 2 => "-2147483648".into(),
                    _ => format!("{}", k * 7),
                }
            };
            let num = if alias && k == n - 1 { "0".to_owned() } else { num };
            let val = num.strip_prefix("0x").map_or_else(|| num.parse().unwrap(), |h| i64::from_str_radix(h, 16).unwrap());
            let num = if taken.insert(val) || alias {
                num
            } else {
                taken.insert(1000 + k as i64);
                (1000 + k).to_string()
            };
            let b = self.bracket("EnumValueOptions", &full, vec![]);
            self.line(&format!("{v} = {num}{b};"));
            values.push(v);
        }
        if alias && n == 1 {
            self.line(&format!("E{i}_VA = 0;"));
        }
        if self.r.one_in(4) {
            let t = *self.r.pick(&["reserved 100 to 200, 300;", "reserved \"OLD\", 'OLDER';", "reserved -50 to -40;", "reserved 5000 to max;"]);
            if !(t.contains("max") && values.len() > 1) {
                self.line(t);
            }
        }
        self.ind -= 1;
        self.line("}");
        self.enums.push(EnumT {
            full,
            file: self.file,
            proto3: self.proto3,
            values,
            scope: scope.to_owned(),
        });
        let _ = &self.enums.last().unwrap().scope;
    }

    fn default_for(&mut self, t: &Ty) -> Option<String> {
        match t {
            Ty::S(x) => Some(self.scalar_literal(x, false)),
            Ty::E(e) => Some(self.enum_value(e)),
            _ => None,
        }
    }

    fn message_def(&mut self, scope: &str, depth: usize) {
        let i = self.id();
        let name = match self.r.below(8) {
            0 => format!("msg_{i}"),
            1 => format!("M{i}Type"),
            _ => self.named("M", i),
        };
        self.line(&format!("message {name} {{"));
        let full = if scope.is_empty() { name.clone() } else { format!("{scope}.{name}") };
        self.body(full, depth);
        self.line("}");
    }

    fn body(&mut self, full: String, depth: usize) {
        self.ind += 1;
        let me = self.msgs.len();
        let mset = !self.proto3 && self.r.one_in(40);
        self.msgs.push(MsgT {
            full: full.clone(),
            file: self.file,
            proto3: self.proto3,
            ext: false,
            ext_used: 0,
            fields: vec![],
        });
        self.statements("MessageOptions", &full);
        if mset {
            self.line("option message_set_wire_format = true;");
            self.line("extensions 4 to max;");
            self.ind -= 1;
            return;
        }
        if depth > 0 {
            for _ in 0..self.r.below(3) {
                if self.r.one_in(2) {
                    self.message_def(&full, depth - 1)
                } else {
                    self.enum_def(&full)
                }
            }
        }
        let mut taken = HashSet::new();
        let mut num = 0;
        let n = self.r.below(6);
        let mut fields = vec![];
        for _ in 0..n {
            num += self.r.range(1, 3) as i32;
            if self.r.one_in(12) {
                // a oneof
                let mut on = self.field_name(&mut taken);
                while self.msgs.iter().any(|m| m.full == format!("{full}.{on}")) {
                    on = self.field_name(&mut taken);
                }
                self.line(&format!("oneof {on} {{"));
                self.ind += 1;
                self.statements("OneofOptions", &full);
                for _ in 0..self.r.range(1, 3) {
                    num += 1;
                    if !self.proto3 && self.r.one_in(8) && depth > 0 {
                        let i = self.id();
                        let g = self.named("Grp", i);
                        taken.insert(camel_key(&g));
                        let b = self.bracket("FieldOptions", &full, vec![]);
                        self.line(&format!("group {g} = {num}{b} {{"));
                        self.body(format!("{full}.{g}"), depth - 1);
                        self.line("}");
                        continue;
                    }
                    let t = self.ty();
                    let name = self.field_name(&mut taken);
                    let w = self.write_ty(&t, &full);
                    let b = self.bracket("FieldOptions", &full, vec![]);
                    self.line(&format!("{w} {name} = {num}{b};"));
                }
                self.ind -= 1;
                self.line("}");
                continue;
            }
            if self.r.one_in(8) {
                let k = *self.r.pick(KEYS);
                let v = self.ty();
                let name = self.field_name(&mut taken);
                let t = Ty::Map(k, Box::new(v));
                let w = self.write_ty(&t, &full);
                let b = self.bracket("FieldOptions", &full, vec![]);
                self.line(&format!("{w} {name} = {num}{b};"));
                fields.push(Fld {
                    name,
                    ty: t,
                    repeated: true,
                    group: false,
                });
                continue;
            }
            if !self.proto3 && self.r.one_in(10) && depth > 0 {
                let i = self.id();
                let g = self.named("Grp", i);
                taken.insert(camel_key(&g));
                let l = *self.r.pick(&["optional", "repeated"]);
                let b = self.bracket("FieldOptions", &full, vec![]);
                self.line(&format!("{l} group {g} = {num}{b} {{"));
                let gf = format!("{full}.{g}");
                self.body(gf.clone(), depth - 1);
                self.line("}");
                fields.push(Fld {
                    name: g.to_lowercase(),
                    ty: Ty::M(gf),
                    repeated: l == "repeated",
                    group: true,
                });
                continue;
            }
            let t = self.ty();
            let name = self.field_name(&mut taken);
            let label = if self.proto3 {
                *self.r.pick(&["", "", "optional ", "repeated "])
            } else {
                *self.r.pick(&["optional ", "optional ", "repeated "])
            };
            let mut first = vec![];
            if !self.proto3 && label == "optional " && self.r.one_in(3) {
                if let Some(d) = self.default_for(&t) {
                    first.push(format!("default = {d}"));
                }
            }
            if self.r.one_in(10) {
                let i = self.id();
                first.push(format!("json_name = \"json{i}\""));
            }
            if label == "repeated " && self.r.one_in(4) {
                if let Ty::S(x) = &t {
                    if *x != "string" && *x != "bytes" {
                        first.push(format!("packed = {}", self.r.one_in(2)));
                    }
                }
            }
            let w = self.write_ty(&t, &full);
            let b = self.bracket("FieldOptions", &full, first);
            self.line(&format!("{label}{w} {name} = {num}{b};"));
            fields.push(Fld {
                name,
                ty: t,
                repeated: label == "repeated ",
                group: false,
            });
        }
        if !self.proto3 && self.r.one_in(3) {
            let b = self.bracket("ExtensionRangeOptions", &full, vec![]);
            let end = *self.r.pick(&["2000", "max", "536870911"]);
            self.line(&format!("extensions 1000 to {end}{b};"));
            self.msgs[me].ext = true;
        }
        if self.r.one_in(5) {
            let t = *self.r.pick(&["reserved 500, 600 to 700;", "reserved \"old\", 'older';", "reserved 0x1f4;"]);
            self.line(t);
        }
        self.msgs[me].fields = fields;
        if depth > 0 && self.r.one_in(6) {
            self.extend_def(&full);
        }
        self.ind -= 1;
    }

    fn extend_def(&mut self, scope: &str) {
        // plain extensions of extensible messages of this program
        if self.proto3 {
            return;
        }
        let c: Vec<usize> = (0..self.msgs.len()).filter(|m| self.msgs[*m].ext && self.sees(self.msgs[*m].file)).collect();
        if c.is_empty() {
            return;
        }
        let m = c[self.r.below(c.len())];
        let full = self.msgs[m].full.clone();
        let r = self.refer(&full, scope);
        self.line(&format!("extend {r} {{"));
        self.ind += 1;
        for _ in 0..self.r.range(1, 2) {
            let num = 1000 + self.msgs[m].ext_used;
            if num > 2000 {
                break;
            }
            self.msgs[m].ext_used += 1;
            let t = self.ty();
            let w = self.write_ty(&t, scope);
            let i = self.id();
            let l = *self.r.pick(&["optional", "repeated"]);
            let mut first = vec![];
            if l == "optional" && !self.proto3 && self.r.one_in(3) {
                if let Some(d) = self.default_for(&t) {
                    first.push(format!("default = {d}"));
                }
            }
            let b = self.bracket("FieldOptions", scope, first);
            if self.r.one_in(6) {
                let g = self.named("Grp", i);
                let b = self.bracket("FieldOptions", scope, vec![]);
                self.line(&format!("{l} group {g} = {num}{b} {{"));
                self.body(if scope.is_empty() { g } else { format!("{scope}.{g}") }, 0);
                self.line("}");
                continue;
            }
            let name = self.named("ext", i);
            self.line(&format!("{l} {w} {name} = {num}{b};"));
        }
        self.ind -= 1;
        self.line("}");
    }

    fn custom_options(&mut self, scope: &str) {
        for _ in 0..self.r.range(2, 6) {
            let target = *self.r.pick(TARGETS);
            self.line(&format!("extend google.protobuf.{target} {{"));
            self.ind += 1;
            for _ in 0..self.r.range(1, 3) {
                let t = self.ty();
                let repeated = self.r.one_in(4);
                let i = self.id();
                let name = self.named("opt", i);
                let w = self.write_ty(&t, scope);
                let l = if repeated {
                    "repeated "
                } else if self.proto3 && self.r.one_in(2) {
                    ""
                } else {
                    "optional "
                };
                let l = if l.is_empty() && !self.proto3 { "optional " } else { l };
                self.line(&format!("{l}{w} {name} = {};", self.next_opt));
                self.next_opt += 1;
                let full = if scope.is_empty() { name.clone() } else { format!("{scope}.{name}") };
                self.opts.push(Opt {
                    full,
                    file: self.file,
                    target,
                    fld: Fld {
                        name,
                        ty: t,
                        repeated,
                        group: false,
                    },
                });
            }
            self.ind -= 1;
            self.line("}");
        }
    }

    fn service_def(&mut self, scope: &str) {
        let i = self.id();
        let name = self.named("S", i);
        self.line(&format!("service {name} {{"));
        self.ind += 1;
        let full = if scope.is_empty() { name } else { format!("{scope}.{name}") };
        self.statements("ServiceOptions", &full);
        for k in 0..self.r.below(4) {
            let (Some(a), Some(b)) = (self.pick_msg(), self.pick_msg()) else { break };
            let (a, b) = (self.refer(&a, &full), self.refer(&b, &full));
            let (x, y) = (if self.r.one_in(3) { "stream " } else { "" }, if self.r.one_in(3) { "stream " } else { "" });
            let o = self.opts_for("MethodOptions", &full);
            if o.is_empty() {
                self.line(&format!("rpc Call{k}({x}{a}) returns ({y}{b});"));
            } else {
                self.line(&format!("rpc Call{k}({x}{a}) returns ({y}{b}) {{"));
                self.ind += 1;
                for o in o {
                    self.line(&format!("option {o};"));
                }
                self.ind -= 1;
                self.line("}");
            }
        }
        self.ind -= 1;
        self.line("}");
    }
}

const WKT: &[(&str, &str)] = &[
    ("google/protobuf/any.proto", "google.protobuf.Any"),
    ("google/protobuf/timestamp.proto", "google.protobuf.Timestamp"),
    ("google/protobuf/struct.proto", "google.protobuf.Struct"),
    ("google/protobuf/duration.proto", "google.protobuf.Duration"),
    ("google/protobuf/empty.proto", "google.protobuf.Empty"),
    ("google/protobuf/wrappers.proto", "google.protobuf.Int32Value"),
    ("google/protobuf/field_mask.proto", "google.protobuf.FieldMask"),
    ("google/protobuf/type.proto", "google.protobuf.Type"),
    ("google/protobuf/api.proto", "google.protobuf.Api"),
    ("google/protobuf/source_context.proto", "google.protobuf.SourceContext"),
    ("google/protobuf/compiler/plugin.proto", "google.protobuf.compiler.Version"),
];

pub fn program(r: &mut Rng, max_files: usize) -> Program {
    let n = r.range(1, max_files);
    let options = *r.pick(&[0, 20, 45, 70]);
    let mut g = G {
        r,
        msgs: vec![],
        enums: vec![],
        opts: vec![],
        vis: vec![],
        pkgs: vec![],
        n: 0,
        next_opt: 50000,
        out: String::new(),
        file: 0,
        proto3: false,
        ind: 0,
        used: HashSet::new(),
        options,
        wkt: true,
    };
    // file i may import files before it; public imports make visibility transitive
    let mut names: Vec<String> = vec![];
    let mut public: Vec<Vec<usize>> = vec![];
    let mut files = vec![];
    for i in 0..n {
        let base = *g.r.pick(&["a", "b", "x/a", "x/y/b", "dir/c", "sp ace", "d-e.f", "\u{e9}t\u{e9}", "x/c"]);
        let mut name = format!("{base}.proto");
        if names.contains(&name) {
            name = format!("{base}{i}.proto");
        }
        names.push(name);
        g.file = i;
        g.out.clear();
        g.ind = 0;
        g.proto3 = g.r.one_in(2);
        g.line(if g.proto3 {
            "syntax = \"proto3\";"
        } else {
            "syntax = 'proto2';"
        });
        if g.r.one_in(12) && !g.proto3 {
            g.out.clear(); // no syntax statement
        }
        let pkg = (*g.r.pick(&["", "pkg", "pkg.sub", "pkg.sub.deep", "other", "google.x", "pkg"])).to_owned();
        let mut vis = HashSet::new();
        let mut pubs = vec![];
        let mut imports = vec![];
        for j in 0..i {
            if g.r.pct(55) {
                let kind = *g.r.pick(&["", "", "", "public ", "weak "]);
                let kind = if kind == "weak " && g.proto3 { "" } else { kind };
                imports.push(format!("import {kind}\"{}\";", names[j]));
                vis.insert(j);
                // what they import publicly is visible too; further down is a known finding of C20
                vis.extend(public[j].iter().copied());
                if kind == "public " {
                    pubs.push(j);
                }
            }
        }
        let with_options = g.r.one_in(2) && g.options > 0;
        let mut wkt_msgs = vec![];
        if with_options || g.r.one_in(10) {
            imports.push("import \"google/protobuf/descriptor.proto\";".into());
        }
        if g.r.one_in(3) {
            for _ in 0..g.r.range(1, 2) {
                let (f, m) = *g.r.pick(WKT);
                let l = format!("import \"{f}\";");
                if !imports.contains(&l) {
                    imports.push(l);
                    wkt_msgs.push(m);
                }
            }
        }
        g.vis.push(vis);
        public.push(pubs);
        g.pkgs.push(pkg.clone());
        if g.r.one_in(3) {
            let k = imports.len();
            if k > 1 {
                let (a, b) = (g.r.below(k), g.r.below(k));
                imports.swap(a, b);
            }
        }
        if !pkg.is_empty() && g.r.one_in(2) {
            g.line(&format!("package {pkg};"));
            for l in imports {
                g.line(&l);
            }
        } else {
            for l in imports {
                g.line(&l);
            }
            if !pkg.is_empty() {
                g.line(&format!("package {pkg};"));
            }
        }
        // well-known types are visible only here
        let mark = g.msgs.len();
        for m in &wkt_msgs {
            g.msgs.push(MsgT {
                full: (*m).to_owned(),
                file: i,
                proto3: true,
                ext: false,
                ext_used: 0,
                fields: vec![],
            });
        }
        g.statements("FileOptions", &pkg);
        for _ in 0..g.r.range(1, 6) {
            match g.r.below(10) {
                0..=4 => g.message_def(&pkg, 2),
                5 | 6 => g.enum_def(&pkg),
                7 => g.extend_def(&pkg),
                _ => g.service_def(&pkg),
            }
        }
        if with_options {
            g.custom_options(&pkg);
            for _ in 0..g.r.below(3) {
                match g.r.below(4) {
                    0 | 1 => g.message_def(&pkg, 1),
                    2 => g.enum_def(&pkg),
                    _ => g.service_def(&pkg),
                }
            }
        }
        // no longer to be picked, but still there for aggregates of existing fields
        for k in 0..wkt_msgs.len() {
            g.msgs[mark + k].file = usize::MAX;
        }
        let text = std::mem::take(&mut g.out);
        files.push((names[i].clone(), text));
    }
    let _ = (&g.used, &g.wkt);
    // the roots
    let mut roots = vec![];
    let k = g.r.range(1, n.min(3));
    for _ in 0..k {
        let f = files[files.len() - 1 - g.r.below(files.len().min(3))].0.clone();
        if !roots.contains(&f) {
            roots.push(f);
        }
    }
    let _ = gen::SCALARS;
    Program { files, roots }
}

/// A program that is large in one dimension or more: in files, or in the declarations of one file.
pub fn large(r: &mut Rng) -> Program {
    let mut p = program(r, 3);
    let n = *r.pick(&[30, 45, 70, 130, 140, 260]);
    let n = n + r.below(10);
    let shape = r.below(3);
    let mut names: Vec<String> = vec![];
    for i in 0..n {
        let mut s = format!("syntax = \"{}\";\n", r.pick(&["proto2", "proto3"]));
        s += &format!("package filler.n{i};\n");
        let mut imports: Vec<usize> = match shape {
            0 if i > 0 => vec![i - 1],
            1 if i > 0 => (0..r.below(4)).map(|_| r.below(i)).collect(),
            _ => vec![],
        };
        imports.sort();
        imports.dedup();
        for j in &imports {
            s += &format!("import \"{}\";\n", names[*j]);
        }
        if r.one_in(3) {
            s += "option java_package = \"x\";\n";
        }
        s += &format!("// comment on {i}\nmessage M{i} {{\n");
        for (k, j) in imports.iter().enumerate() {
            s += &format!("  repeated filler.n{j}.M{j} f{k} = {}; // trailing\n", k + 1);
        }
        s += "}\n";
        names.push(format!("{}{i}.proto", r.pick(&["fill/f", "f", "z/z"])));
        p.files.push((names[i].clone(), s));
    }
    // one that is long itself
    let m = *r.pick(&[130, 260, 300]);
    let mut s = String::from("syntax = \"proto3\";\npackage filler.long;\n");
    match r.below(5) {
        0 => (0..m).for_each(|i| s += &format!("message L{i} {{ optional int32 a = 1; }}\n")),
        1 => {
            s += "message L {\n";
            (0..m).for_each(|i| s += &format!("  optional string some_field_{i} = {}; // f{i}\n", i + 1));
            s += "}\n";
        }
        2 => {
            s += "enum L {\n";
            (0..m).for_each(|i| s += &format!("  VALUE_{i} = {};\n", if i == 0 { 0 } else { i * 1_000_003 % 2_000_000_011 }));
            s += "}\n";
        }
        3 => {
            s += "message A {}\nservice L {\n";
            (0..m).for_each(|i| s += &format!("  rpc Call{i}(A) returns (stream A);\n"));
            s += "}\n";
        }
        _ => {
            s += "message L {\n";
            (0..m).for_each(|i| s += &format!("  oneof o{i} {{ int32 a{i} = {}; string b{i} = {}; }}\n  map<string, L> m{i} = {};\n", 3 * i + 1, 3 * i + 2, 3 * i + 3));
            s += "}\n";
        }
    }
    p.files.push(("the long one.proto".into(), s));
    // and one that imports them
    let mut s = String::from("syntax = \"proto2\";\n");
    for (i, f) in names.iter().enumerate() {
        if shape == 2 || i + 1 == n || r.one_in(4) {
            s += &format!("import '{f}';\n");
        }
    }
    s += "import 'the long one.proto';\nmessage ImporterOfAll {}\n";
    p.files.push(("top/all.proto".into(), s));
    let at = r.below(p.roots.len() + 1);
    p.roots.insert(at, "top/all.proto".into());
    if r.one_in(3) {
        let f = r.pick(&names).clone();
        p.roots.push(f);
    }
    p
}

/// A large program for a stream of that name.
pub fn of(r: &mut Rng, stream: &str, max_files: usize) -> Program {
    match stream.contains("large") {
        true => large(r),
        false => program(r, max_files),
    }
}
