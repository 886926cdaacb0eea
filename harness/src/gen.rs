//! Grammar-based generator of .proto files: a token list first, then a layout with comments.
//! With small probability each decision breaks one of the language's rules; token mutations and
//! byte mutations break the rest.
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub proto3: usize,     // percent
    pub viol: usize,       // per ten thousand decisions
    pub mutate: usize,     // percent of files with token mutations
    pub bytes: usize,      // percent of files with byte mutations
    pub comments: usize,   // percent of gaps at statement boundaries with comments
    pub inner: usize,      // percent of other gaps with odd trivia
    pub crlf: usize,       // percent of files with CRLF line ends
    pub stmts: (usize, usize),
    pub depth: usize,
    pub boundary: usize,   // percent of numbers from the boundary pool
    pub odd_strings: usize, // percent of strings with escapes, splits and odd bytes
    pub options: usize,    // percent of places with options
    pub keywords: usize,   // percent of names that are keywords
    pub defaults: usize,   // percent of proto2 fields with defaults
    pub empty_stmt: usize, // percent
    pub weights: Weights,
    pub nonascii: usize, // percent of comments and strings with non-ASCII text
}

#[derive(Clone, Debug)]
pub struct Weights {
    pub field: usize,
    pub map: usize,
    pub group: usize,
    pub oneof: usize,
    pub extend: usize,
    pub message: usize,
    pub enum_: usize,
    pub reserved: usize,
    pub extensions: usize,
    pub option: usize,
    pub service: usize,
    pub import: usize,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            proto3: 40,
            viol: 60,
            mutate: 15,
            bytes: 0,
            comments: 15,
            inner: 3,
            crlf: 8,
            stmts: (1, 6),
            depth: 4,
            boundary: 20,
            odd_strings: 25,
            options: 20,
            keywords: 12,
            defaults: 25,
            empty_stmt: 4,
            weights: Weights {
                field: 40,
                map: 8,
                group: 6,
                oneof: 8,
                extend: 6,
                message: 10,
                enum_: 9,
                reserved: 7,
                extensions: 5,
                option: 7,
                service: 8,
                import: 8,
            },
            nonascii: 8,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct T {
    pub text: String,
    /// Starts a statement
    pub start: bool,
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub c: Cfg,
    pub t: Vec<T>,
    pub proto3: bool,
    start: bool,
    budget: usize,
}

pub const KEYWORDS: &[&str] = &[
    "syntax", "import", "weak", "public", "package", "option", "inf", "nan", "repeated", "optional",
    "required", "bool", "string", "bytes", "float", "double", "int32", "int64", "uint32", "uint64",
    "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "group", "oneof", "map",
    "extensions", "to", "max", "reserved", "enum", "message", "extend", "service", "rpc", "stream",
    "returns", "true", "false", "default", "json_name", "option",
];
pub const SCALARS: &[&str] = &[
    "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32",
    "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes",
];
const NAMES: &[&str] = &[
    "a", "b", "foo", "Foo", "foo_bar", "FooBar", "fooBar", "_x", "x_", "_", "__", "a__b", "FOO", "foo1",
    "foo_1", "f2_b", "X", "Xfoo", "_foo", "very_long_name_with_many_parts", "x1y2", "oNe_TwO", "_A_b_",
    "deprecated", "features",
];
const BOUNDS: &[&str] = &[
    "0", "1", "2", "15", "16", "127", "128", "255", "2047", "18999", "19000", "19999", "20000", "536870910",
    "536870911", "536870912", "2147483646", "2147483647", "2147483648", "4294967295", "4294967296",
    "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
    "99999999999999999999999",
];

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, c: Cfg) -> Gen<'r> {
        Gen {
            r,
            c,
            t: vec![],
            proto3: false,
            start: false,
            budget: 400,
        }
    }
    fn p(&mut self, s: impl Into<String>) {
        let start = std::mem::replace(&mut self.start, false);
        self.t.push(T {
            text: s.into(),
            start,
        });
    }
    fn ps(&mut self, ss: &[&str]) {
        for s in ss {
            self.p(*s)
        }
    }
    fn viol(&mut self) -> bool {
        self.r.below(10_000) < self.c.viol
    }
    pub fn name(&mut self) -> String {
        if self.r.pct(self.c.keywords) {
            return self.r.pick(KEYWORDS).to_string();
        }
        match self.r.below(4) {
            0 => {
                let n = self.r.range(1, 8);
                let mut s = String::new();
                for i in 0..n {
                    let set: &[u8] = if i == 0 {
                        b"abcXYZ_qrfeEx"
                    } else {
                        b"abcXYZ_019feEx_"
                    };
                    s.push(*self.r.pick(set) as char);
                }
                s
            }
            _ => self.r.pick(NAMES).to_string(),
        }
    }
    fn full(&mut self) {
        let n = self.name();
        self.p(n);
        while self.r.one_in(4) {
            self.p(".");
            let n = self.name();
            self.p(n);
        }
    }
    fn type_name(&mut self) {
        if self.r.one_in(5) {
            self.p(".");
        }
        self.full()
    }
    /// A type name which cannot be mistaken for a scalar or label in this position.
    fn named_type(&mut self) {
        if self.r.one_in(6) {
            self.p(".");
            self.full();
        } else {
            let at = self.t.len();
            self.full();
            // labels, and what introduces other statements, mean those here
            if self.r.pct(90) {
                let s = &self.t[at].text;
                if KEYWORDS.contains(&s.as_str()) {
                    self.t[at].text = self.r.pick(NAMES).to_string();
                }
            }
        }
    }
    pub fn spell_int(&mut self, v: &str) -> String {
        if self.r.pct(75) {
            return v.to_owned();
        }
        match v.parse::<u128>() {
            Ok(x) => {
                let s = match self.r.below(4) {
                    0 => format!("0x{x:x}"),
                    1 => format!("0X{x:X}"),
                    2 => format!("0{x:o}"),
                    _ => format!("0x00{x:X}"),
                };
                if x == 0 && s == "00" {
                    return "0".into();
                }
                s
            }
            Err(_) => v.to_owned(),
        }
    }
    pub fn uint(&mut self) -> String {
        let v = if self.r.pct(self.c.boundary) {
            let n = if self.r.one_in(12) { BOUNDS.len() } else { BOUNDS.len() - 2 };
            BOUNDS[self.r.below(n)].to_string()
        } else {
            match self.r.below(3) {
                0 => self.r.range(0, 9).to_string(),
                1 => self.r.range(0, 9999).to_string(),
                _ => (self.r.next() >> self.r.clone().range(0, 63)).to_string(),
            }
        };
        self.spell_int(&v)
    }
    fn number(&mut self) {
        // field numbers
        if self.viol() {
            if self.r.one_in(2) {
                self.p("-");
            }
            let v = self.uint();
            return self.p(v);
        }
        let v = if self.r.pct(self.c.boundary) {
            let v = *self.r.pick(&BOUNDS[1..15]);
            v.to_string()
        } else {
            self.r.range(1, 200).to_string()
        };
        let v = self.spell_int(&v);
        self.p(v);
    }
    fn enum_number(&mut self) {
        if self.viol() {
            if self.r.one_in(2) {
                self.p("-");
            }
            let v = self.uint();
            return self.p(v);
        }
        let neg = self.r.one_in(4);
        let v = if self.r.pct(self.c.boundary) {
            let n = BOUNDS.iter().position(|b| *b == "2147483647").unwrap();
            if neg && self.r.one_in(3) {
                "2147483648".to_string()
            } else {
                BOUNDS[self.r.below(n + 1)].to_string()
            }
        } else {
            self.r.range(0, 50).to_string()
        };
        if neg {
            self.p("-");
        }
        let v = self.spell_int(&v);
        self.p(v);
    }
    pub fn float(&mut self) -> String {
        let d = |r: &mut Rng, lo: usize| {
            let n = r.range(lo, 4);
            (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>()
        };
        match self.r.below(12) {
            0 => "1e400".into(),
            1 => "4.9e-324".into(),
            2 => "1.7976931348623157e308".into(),
            3 => "3.4028235e38".into(),
            4 => "1e-46".into(),
            5 => "0.1".into(),
            _ => {
                let r = &mut *self.r;
                let mut s = String::new();
                let exp = |r: &mut Rng, s: &mut String| {
                    s.push(if r.one_in(2) { 'e' } else { 'E' });
                    match r.below(3) {
                        0 => s.push('+'),
                        1 => s.push('-'),
                        _ => (),
                    }
                    s.push_str(&r.range(0, 40).to_string());
                };
                match r.below(4) {
                    0 => {
                        s.push('.');
                        s += &d(r, 1);
                    }
                    1 => {
                        s += &d(r, 1);
                        s.push('.');
                    }
                    2 => {
                        s += &d(r, 1);
                        exp(r, &mut s);
                        return s;
                    }
                    _ => {
                        s += &d(r, 1);
                        s.push('.');
                        s += &d(r, 1);
                    }
                }
                if r.one_in(3) {
                    exp(r, &mut s)
                }
                s
            }
        }
    }

    /// A string literal for `bytes`, spelled at random; any byte string if `bytes` is not UTF-8.
    pub fn literal(&mut self, bytes: &[u8]) -> String {
        let q = if self.r.one_in(2) { b'"' } else { b'\'' };
        let odd = self.r.pct(self.c.odd_strings);
        let mut s = String::new();
        s.push(q as char);
        let text = std::str::from_utf8(bytes).ok();
        let mut i = 0;
        while i < bytes.len() {
            let ch = text.and_then(|t| t[i..].chars().next());
            let b = bytes[i];
            let next = bytes.get(i + 1).copied().unwrap_or(b'z');
            let raw_ok = match ch {
                Some(c) => c != '\n' && c != '\0' && c != '\\' && c as u32 != q as u32 && c != '\r',
                None => b >= 32 && b < 127 && b != b'\\' && b != q,
            };
            let n = ch.map_or(1, |c| c.len_utf8());
            if raw_ok && !(odd && self.r.one_in(3)) {
                match ch {
                    Some(c) => s.push(c),
                    None => s.push(b as char),
                }
                i += n;
                continue;
            }
            let simple = match b {
                7 => Some('a'),
                8 => Some('b'),
                12 => Some('f'),
                10 => Some('n'),
                13 => Some('r'),
                9 => Some('t'),
                11 => Some('v'),
                b'\\' => Some('\\'),
                b'\'' => Some('\''),
                b'"' => Some('"'),
                b'?' => Some('?'),
                _ => None,
            };
            if let Some(c) = simple {
                if self.r.one_in(2) {
                    s.push('\\');
                    s.push(c);
                    i += 1;
                    continue;
                }
            }
            if let (Some(c), true) = (ch, self.r.one_in(2)) {
                if c as u32 <= 0xffff && self.r.one_in(2) {
                    s += &format!("\\u{:04x}", c as u32);
                } else {
                    s += &format!("\\U{:08X}", c as u32);
                }
                i += n;
                continue;
            }
            // every byte on its own; an escape runs on into a following digit, so pad it
            let oct_next = next.is_ascii_digit();
            let hex_next = next.is_ascii_hexdigit();
            for k in 0..n {
                let b = bytes[i + k];
                match self.r.below(4) {
                    0 if !hex_next || n > 1 && k + 1 < n => s += &format!("\\x{b:x}"),
                    0 | 1 => s += &format!("\\x{b:02X}"),
                    2 if !oct_next || n > 1 && k + 1 < n => s += &format!("\\{b:o}"),
                    _ => s += &format!("\\{b:03o}"),
                }
            }
            i += n;
        }
        s.push(q as char);
        s
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let n = match self.r.below(10) {
            0 => 0,
            1 => self.r.range(0, 60),
            _ => self.r.range(0, 8),
        };
        let modes = if self.r.pct(self.c.odd_strings) { 4 } else { 1 };
        let mode = self.r.below(modes);
        let mut v = vec![];
        for _ in 0..n {
            match mode {
                0 => v.push(*self.r.pick(b"abc xyz/._019\"'")),
                1 => v.push(self.r.next() as u8),
                2 => {
                    let c = *self.r.pick(&['a', '\u{e9}', '\u{4e16}', '\u{1f600}', '\n', '\0', '\r', '\\', '?', '\u{7f}', '\t', '\u{fffd}', '0', '7', 'f']);
                    let mut b = [0; 4];
                    v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                }
                _ => v.push(*self.r.pick(&[0u8, 7, 8, 9, 10, 11, 12, 13, 27, 34, 39, 63, 92, 127, 128, 255, b'0', b'8', b'a'])),
            }
        }
        v
    }
    /// One or more adjacent literals that spell `bytes`.
    fn spell(&mut self, bytes: &[u8]) {
        let mut rest = bytes;
        while self.r.pct(self.c.odd_strings / 2) {
            let mut n = self.r.range(0, rest.len());
            if let Ok(t) = std::str::from_utf8(rest) {
                while !t.is_char_boundary(n) {
                    n -= 1
                }
            }
            let l = self.literal(&rest[..n]);
            self.p(l);
            rest = &rest[n..];
        }
        let l = self.literal(rest);
        self.p(l);
    }
    fn bad_literal(&mut self) -> String {
        self.r
            .pick(&[
                "\"\\q\"", "'\\x'", "\"\\u12\"", "'\\U00110000'", "\"\\U0011ffff\"", "\"abc", "'\\", "\"a\0b\"", "\"\\8\"",
                "'\\xg'", "\"\\u12g4\"", "'\\U0001f60'", "\"\\ \"", "\"\\400\"", "'\\ud83d'", "\"\\u\u{e9}000\"",
            ])
            .to_string()
    }
    fn string(&mut self) {
        if self.viol() {
            let l = self.bad_literal();
            return self.p(l);
        }
        let b = self.bytes();
        self.spell(&b)
    }
    fn text_string(&mut self) {
        if self.viol() {
            return self.string();
        }
        loop {
            let b = self.bytes();
            if std::str::from_utf8(&b).is_ok() {
                return self.spell(&b);
            }
        }
    }

    fn aggregate(&mut self, depth: usize) {
        self.p("{");
        let n = self.r.range(0, 4);
        for _ in 0..n {
            if self.r.one_in(8) {
                self.p("[");
                self.full();
                if self.r.one_in(3) {
                    self.p("/");
                    self.full();
                }
                self.p("]");
            } else {
                let n = self.name();
                self.p(n);
            }
            match self.r.below(7) {
                0 if depth > 0 => self.aggregate(depth - 1),
                1 => {
                    self.p(":");
                    self.string()
                }
                2 => {
                    self.ps(&[":", "["]);
                    let k = self.r.range(0, 3);
                    for i in 0..k {
                        if i > 0 {
                            self.p(",");
                        }
                        let v = self.uint();
                        self.p(v);
                    }
                    self.p("]");
                }
                3 => {
                    self.ps(&[":", "<"]);
                    self.p(">");
                }
                4 => {
                    self.p(":");
                    if self.r.one_in(2) {
                        self.p("-");
                    }
                    let mut f = self.float();
                    if self.r.one_in(3) {
                        f.push('f');
                    }
                    self.p(f);
                }
                5 => {
                    self.p(":");
                    let n = self.name();
                    self.p(n);
                }
                _ => {
                    self.p(":");
                    let v = self.uint();
                    self.p(v);
                }
            }
            if self.r.one_in(3) {
                let s = *self.r.pick(&[",", ";"]);
                self.p(s);
            }
        }
        self.p("}");
    }

    fn option_value(&mut self) {
        match self.r.below(10) {
            0 | 1 => {
                if self.viol() {
                    self.p("-");
                }
                let n = self.name();
                self.p(n)
            }
            2 | 3 => {
                let v = self.uint();
                self.p(v)
            }
            4 => {
                self.p("-");
                let v = if self.viol() {
                    self.uint()
                } else if self.r.one_in(3) {
                    self.r
                        .pick(&["9223372036854775808", "9223372036854775807", "0", "1", "2147483648"])
                        .to_string()
                } else {
                    self.r.below(100000).to_string()
                };
                let v = self.spell_int(&v);
                self.p(v)
            }
            5 => {
                if self.r.one_in(3) {
                    self.p("-");
                }
                let mut f = self.float();
                if self.viol() {
                    f.push('f');
                }
                self.p(f)
            }
            6 | 7 => self.string(),
            8 => self.aggregate(2),
            _ => {
                let s = *self.r.pick(&["true", "false", "inf", "nan"]);
                self.p(s)
            }
        }
    }
    fn option_body(&mut self) {
        let n = if self.r.one_in(3) { self.r.range(1, 4) } else { 1 };
        for i in 0..n {
            if i > 0 {
                self.p(".");
            }
            if self.r.one_in(3) {
                self.p("(");
                self.type_name();
                self.p(")");
            } else {
                let n = self.name();
                self.p(n);
            }
        }
        self.p("=");
        self.option_value();
    }
    fn option_stmt(&mut self) {
        self.start = true;
        self.p("option");
        if self.r.one_in(8) {
            self.p("message_set_wire_format");
            self.p("=");
            let v = if self.r.one_in(4) { "false" } else { "true" };
            self.p(v);
        } else {
            self.option_body();
        }
        self.p(";");
    }
    fn option_list(&mut self) {
        if self.r.pct(self.c.options) {
            self.p("[");
            let n = self.r.range(1, 3);
            for i in 0..n {
                if i > 0 {
                    self.p(",");
                }
                self.option_body();
            }
            self.p("]");
        }
    }
    fn default_for(&mut self, ty: &str) {
        let ty = if self.viol() {
            *self.r.pick(SCALARS)
        } else {
            ty
        };
        let int = |g: &mut Gen, bounds: &[&str], neg: bool| {
            if g.viol() {
                if g.r.one_in(2) {
                    g.p("-");
                }
                let v = g.uint();
                return g.p(v);
            }
            let v = if g.r.pct(40) {
                let v = *g.r.pick(bounds);
                match v.strip_prefix('-') {
                    Some(v) => {
                        g.p("-");
                        v.to_string()
                    }
                    None => v.to_string(),
                }
            } else {
                if neg && g.r.one_in(3) {
                    g.p("-");
                    g.r.range(1, 100000).to_string()
                } else {
                    g.r.range(0, 100000).to_string()
                }
            };
            let v = g.spell_int(&v);
            g.p(v)
        };
        match ty {
            "int32" | "sint32" | "sfixed32" => {
                int(self, &["2147483647", "-2147483648", "0", "-1", "-2147483647"], true)
            }
            "int64" | "sint64" | "sfixed64" => int(
                self,
                &["9223372036854775807", "-9223372036854775808", "0", "-1", "4294967296"],
                true,
            ),
            "uint32" | "fixed32" => int(self, &["4294967295", "0", "2147483648"], false),
            "uint64" | "fixed64" => int(
                self,
                &["18446744073709551615", "0", "9223372036854775808"],
                false,
            ),
            "float" | "double" => {
                if self.r.one_in(3) {
                    self.p("-");
                }
                match self.r.below(4) {
                    0 => {
                        let s = *self.r.pick(&["inf", "nan"]);
                        self.p(s)
                    }
                    1 => {
                        let v = self.r.next() >> self.r.clone().range(0, 63);
                        let v = self.spell_int(&v.to_string());
                        self.p(v)
                    }
                    _ => {
                        let f = self.float();
                        self.p(f)
                    }
                }
            }
            "bool" => {
                let s = *self.r.pick(&["true", "false"]);
                self.p(s)
            }
            "string" => self.text_string(),
            "bytes" => self.string(),
            _ => {
                if self.viol() {
                    self.p("-");
                }
                let n = self.name();
                self.p(n)
            }
        }
    }

    fn field_options(&mut self, ty: &str, default_ok: bool) {
        let mut items: Vec<usize> = vec![];
        let dflt = if default_ok { self.r.pct(self.c.defaults) } else { self.viol() };
        if dflt {
            items.push(0)
        }
        if self.r.pct(self.c.options / 2) {
            items.push(1)
        }
        while self.r.pct(self.c.options) && items.len() < 4 {
            items.push(2)
        }
        if items.is_empty() {
            return;
        }
        for i in (1..items.len()).rev() {
            items.swap(i, self.r.below(i + 1));
        }
        self.p("[");
        for (i, k) in items.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            match k {
                0 => {
                    self.ps(&["default", "="]);
                    self.default_for(ty)
                }
                1 => {
                    self.ps(&["json_name", "="]);
                    if self.viol() {
                        self.option_value()
                    } else {
                        self.text_string()
                    }
                }
                _ => self.option_body(),
            }
        }
        self.p("]");
    }

    /// scope: 0 message, 1 oneof, 2 extend
    fn field(&mut self, scope: usize) {
        self.start = true;
        let good = !self.viol();
        let label = match scope {
            1 => None,
            2 if self.proto3 => *self.r.pick(&[None, Some("optional"), Some("repeated")]),
            2 => *self.r.pick(&[Some("optional"), Some("repeated")]),
            _ if self.proto3 => *self.r.pick(&[None, None, Some("optional"), Some("repeated")]),
            _ => *self.r.pick(&[Some("optional"), Some("optional"), Some("required"), Some("repeated")]),
        };
        let label = if good {
            label
        } else {
            *self.r.pick(&[None, Some("optional"), Some("required"), Some("repeated")])
        };
        if let Some(l) = label {
            self.p(l);
        }
        let ty = if self.r.pct(25) {
            self.named_type();
            "named"
        } else {
            let t = *self.r.pick(SCALARS);
            self.p(t);
            t
        };
        let n = self.name();
        self.p(n);
        self.p("=");
        self.number();
        let d = !self.proto3 && label != Some("repeated");
        self.field_options(ty, d);
        self.p(";");
    }
    fn map(&mut self) {
        self.start = true;
        if self.viol() {
            let l = *self.r.pick(&["optional", "required", "repeated"]);
            self.p(l);
        }
        self.ps(&["map", "<"]);
        if self.viol() {
            if self.r.one_in(2) {
                self.type_name()
            } else {
                let t = *self.r.pick(&["float", "double", "bytes"]);
                self.p(t)
            }
        } else {
            let t = *self.r.pick(&SCALARS[2..14]);
            self.p(t);
        }
        self.p(",");
        if self.r.one_in(3) {
            self.named_type();
        } else {
            let t = *self.r.pick(SCALARS);
            self.p(t);
        }
        self.p(">");
        let n = self.name();
        self.p(n);
        self.p("=");
        self.number();
        self.field_options("int32", false);
        self.p(";");
    }
    fn group(&mut self, scope: usize, depth: usize) {
        self.start = true;
        let label = match scope {
            1 => None,
            2 => *self.r.pick(&[Some("optional"), Some("repeated")]),
            _ => *self.r.pick(&[Some("optional"), Some("required"), Some("repeated")]),
        };
        let label = if self.viol() {
            *self.r.pick(&[None, Some("optional"), Some("required"), Some("repeated")])
        } else {
            label
        };
        if let Some(l) = label {
            self.p(l);
        }
        self.p("group");
        let mut n = self.name();
        if !self.viol() {
            let c = n.remove(0);
            n.insert(
                0,
                if c.is_ascii_alphabetic() {
                    c.to_ascii_uppercase()
                } else {
                    'G'
                },
            );
        }
        self.p(n);
        self.p("=");
        self.number();
        self.field_options("group", false);
        self.body(depth);
    }
    fn ranges(&mut self, en: bool) {
        let n = if self.r.one_in(3) { self.r.range(1, 4) } else { 1 };
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            if en {
                self.enum_number()
            } else {
                self.number()
            }
            match self.r.below(5) {
                0 | 1 => {
                    self.p("to");
                    if en {
                        self.enum_number()
                    } else {
                        self.number()
                    }
                }
                2 => self.ps(&["to", "max"]),
                _ => (),
            }
        }
    }
    fn reserved(&mut self, en: bool) {
        self.start = true;
        self.p("reserved");
        if self.r.one_in(2) {
            self.ranges(en);
        } else {
            let n = if self.r.one_in(3) { self.r.range(1, 4) } else { 1 };
            for i in 0..n {
                if i > 0 {
                    self.p(",");
                }
                if self.viol() {
                    self.string()
                } else {
                    let s = self.name();
                    self.spell(s.as_bytes());
                }
            }
        }
        self.p(";");
    }
    fn extensions(&mut self) {
        self.start = true;
        self.p("extensions");
        self.ranges(false);
        self.option_list();
        self.p(";");
    }
    fn oneof(&mut self, depth: usize) {
        self.start = true;
        self.p("oneof");
        let n = self.name();
        self.p(n);
        self.p("{");
        let n = if self.viol() { 0 } else { self.r.range(1, 4) };
        for _ in 0..n {
            if self.r.pct(self.c.options / 3) {
                self.option_stmt();
            }
            if self.viol() {
                self.map()
            } else if (!self.proto3 && self.r.one_in(8) || self.viol()) && depth > 0 {
                self.group(1, depth - 1)
            } else {
                self.oneof_field()
            }
            self.empty();
        }
        self.close();
    }
    fn oneof_field(&mut self) {
        self.field(1)
    }
    fn close(&mut self) {
        self.start = true;
        self.p("}");
    }
    fn empty(&mut self) {
        if self.r.pct(self.c.empty_stmt) {
            self.start = true;
            self.p(";");
        }
    }
    fn extend(&mut self, depth: usize) {
        self.start = true;
        self.p("extend");
        self.type_name();
        self.p("{");
        let n = self.r.range(0, 3);
        for _ in 0..n {
            if self.viol() {
                self.map()
            } else if (!self.proto3 && self.r.one_in(6) || self.viol()) && depth > 0 {
                self.group(2, depth - 1)
            } else {
                self.field(2)
            }
            self.empty();
        }
        self.close();
    }
    fn enum_(&mut self) {
        self.start = true;
        self.p("enum");
        let n = self.name();
        self.p(n);
        self.p("{");
        let n = self.r.range(0, 5);
        for _ in 0..n {
            match self.r.below(8) {
                0 => self.reserved(true),
                1 => self.option_stmt(),
                _ => {
                    self.start = true;
                    let n = self.name();
                    self.p(n);
                    self.p("=");
                    self.enum_number();
                    self.option_list();
                    self.p(";");
                }
            }
            self.empty();
        }
        self.close();
    }
    pub fn body(&mut self, depth: usize) {
        self.p("{");
        let n = self.r.range(0, self.c.stmts.1);
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            let w = self.c.weights.clone();
            let choices = [
                w.field, w.map, w.group, w.oneof, w.extend, w.message, w.enum_, w.reserved, w.extensions, w.option,
            ];
            let total: usize = choices.iter().sum();
            let mut x = self.r.below(total);
            let mut k = 0;
            while x >= choices[k] {
                x -= choices[k];
                k += 1;
            }
            match k {
                1 => self.map(),
                2 if depth > 0 && (!self.proto3 || self.viol()) => self.group(0, depth - 1),
                3 => self.oneof(depth),
                4 if depth > 0 => self.extend(depth - 1),
                5 if depth > 0 => self.message(depth - 1),
                6 => self.enum_(),
                7 => self.reserved(false),
                8 => self.extensions(),
                9 => self.option_stmt(),
                _ => self.field(0),
            }
            self.empty();
        }
        self.close();
    }
    pub fn message(&mut self, depth: usize) {
        self.start = true;
        self.p("message");
        let n = self.name();
        self.p(n);
        self.body(depth);
    }
    fn service(&mut self) {
        self.start = true;
        self.p("service");
        let n = self.name();
        self.p(n);
        self.p("{");
        let n = self.r.range(0, 3);
        for _ in 0..n {
            if self.r.pct(self.c.options / 2) {
                self.option_stmt();
            }
            self.start = true;
            self.p("rpc");
            let n = self.name();
            self.p(n);
            for k in 0..2 {
                if k == 1 {
                    self.p("returns");
                }
                self.p("(");
                if self.r.one_in(3) {
                    self.p("stream");
                }
                self.type_name();
                self.p(")");
            }
            if self.r.one_in(2) {
                self.p(";");
            } else {
                self.p("{");
                while self.r.pct(self.c.options) {
                    self.option_stmt();
                    self.empty();
                }
                self.close();
            }
            self.empty();
        }
        self.close();
    }
    fn import(&mut self) {
        self.start = true;
        self.p("import");
        match self.r.below(6) {
            0 => self.p("public"),
            1 => self.p("weak"),
            _ => (),
        }
        if self.viol() {
            if self.r.one_in(3) {
                self.string()
            } else {
                let s = self
                    .r
                    .pick(&["", "a//b", "./a", "a/../b", "a\\b", "/a", "a/", ".", "..", "a/./b", "a\u{0}\\"])
                    .to_string();
                self.spell(s.as_bytes());
            }
        } else {
            let s = self
                .r
                .pick(&["a.proto", "dir/b.proto", "x/y/z.proto", "...", "a b.proto", "\u{e9}/\u{4e16}.proto", "..a/b..", "a:b"])
                .to_string();
            self.spell(s.as_bytes());
        }
        self.p(";");
    }
    fn package(&mut self) {
        self.start = true;
        self.p("package");
        self.full();
        self.p(";");
    }
    pub fn syntax(&mut self) {
        self.start = true;
        self.ps(&["syntax", "="]);
        if self.viol() {
            self.string()
        } else {
            let s = if self.proto3 { "proto3" } else { "proto2" };
            self.spell(s.as_bytes());
        }
        self.p(";");
    }
    pub fn file(&mut self) {
        self.proto3 = self.r.pct(self.c.proto3);
        if self.r.one_in(60) {
            self.start = true;
            self.p(";");
        }
        if self.proto3 || self.r.one_in(2) {
            self.syntax();
        }
        let n = self.r.range(self.c.stmts.0, self.c.stmts.1);
        let mut packaged = false;
        for _ in 0..n {
            let w = self.c.weights.clone();
            let choices = [
                w.message + w.field,
                w.enum_,
                w.extend,
                w.service,
                w.import,
                w.option,
                5,
            ];
            let total: usize = choices.iter().sum();
            let mut x = self.r.below(total);
            let mut k = 0;
            while x >= choices[k] {
                x -= choices[k];
                k += 1;
            }
            match k {
                1 => self.enum_(),
                2 => self.extend(self.c.depth),
                3 => self.service(),
                4 => self.import(),
                5 => self.option_stmt(),
                6 if !packaged || self.viol() => {
                    packaged = true;
                    self.package()
                }
                _ => self.message(self.c.depth),
            }
            self.empty();
            if self.viol() {
                self.syntax();
            }
        }
    }
    /// Token-level mutations.
    pub fn mutate(&mut self) {
        let n = self.r.range(1, 2);
        for _ in 0..n {
            if self.t.is_empty() {
                return;
            }
            let i = self.r.below(self.t.len());
            match self.r.below(9) {
                0 => {
                    self.t.remove(i);
                }
                1 => {
                    let x = self.t[i].clone();
                    self.t.insert(i, x);
                }
                2 => {
                    let j = self.r.below(self.t.len());
                    self.t.swap(i, j);
                }
                3 if i + 1 < self.t.len() => self.t.swap(i, i + 1),
                4 => self.t.truncate(i),
                5 => {
                    let j = self.r.below(self.t.len());
                    self.t[i] = self.t[j].clone();
                }
                6 => {
                    let x = self.junk();
                    self.t[i].text = x;
                }
                _ => {
                    let x = self.junk();
                    self.t.insert(
                        i,
                        T {
                            text: x,
                            start: false,
                        },
                    );
                }
            }
        }
    }
    fn junk(&mut self) -> String {
        match self.r.below(8) {
            0 => self.r.pick(KEYWORDS).to_string(),
            1 => self.uint(),
            2 => self.float(),
            3 => {
                let b = self.bytes();
                self.literal(&b)
            }
            4 => self.bad_literal(),
            5 => self
                .r
                .pick(&[
                    "@", "$", "\u{e9}", "\\", "%", "!", "\u{feff}", "\u{a0}", "#", "/", "1x", "0x", "0xg", "1.5f", "10f", "08",
                    "1.5abc", "99999999999999999999", "0x1ffffffffffffffff", "/*", "//", "/* /* */", "#c", "*", "*/", "&", "|",
                    "~", "`", "\u{1f600}", "\0", "1e", "1e+", "0777777777777777777777777", "..", ".5.", "1_000", "0b1",
                ])
                .to_string(),
            6 => self.name(),
            _ => self
                .r
                .pick(&[".", "-", "+", "(", ")", "{", "}", "[", "]", "<", ">", ",", "=", ":", ";", "/"])
                .to_string(),
        }
    }
}

fn wordish(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || c == '.'
}

/// Whether two tokens need something between them.
fn needs_gap(a: &str, b: &str) -> bool {
    match (a.chars().last(), b.chars().next()) {
        (Some(x), Some(y)) => {
            // a number followed by anything that could extend it, and words
            let num = |s: &str| {
                s.starts_with(|c: char| c.is_ascii_digit())
                    || (s.starts_with('.') && s.len() > 1)
            };
            if wordish(x) && wordish(y) {
                let dot = |s: &str| s == ".";
                if (dot(a) && !num(b) && y != '.') || (dot(b) && !num(a) && x != '.') {
                    return false;
                }
                return true;
            }
            (x == '/' && (y == '/' || y == '*')) || (num(a) && (y == '+' || y == '-'))
        }
        _ => false,
    }
}

const WORDS: &[&str] = &[
    "comment", "a longer line of text;", " = 1;", "message Foo {", "}", "*", "/", "//", "\"quote", "'", "\\n", "#", "1.5f", "\t",
    "  ", "0x", "@", "\u{feff}",
];

fn comment_text(r: &mut Rng, c: &Cfg) -> String {
    let mut s = String::new();
    let n = r.below(4);
    for _ in 0..n {
        if r.one_in(2) {
            s.push(' ');
        }
        s += r.pick(WORDS);
        if r.pct(c.nonascii) {
            s += r.pick(&["\u{e9}", "\u{4e16}\u{754c}", "\u{1f600}"]);
        }
    }
    s
}

fn line_comment(r: &mut Rng, c: &Cfg, nl: &str, out: &mut String) {
    marked_comment(r, c, "//", nl, out)
}

fn marked_comment(r: &mut Rng, c: &Cfg, mark: &str, nl: &str, out: &mut String) {
    out.push_str(mark);
    out.push_str(&comment_text(r, c));
    out.push_str(nl);
}

fn block_comment(r: &mut Rng, c: &Cfg, nl: &str, out: &mut String) {
    let mut s = String::new();
    let lines = *r.pick(&[1, 1, 1, 2, 3, 4]);
    for i in 0..lines {
        if i > 0 {
            s += nl;
            s += r.pick(&["", " ", "\t", " * ", "*", " *", "\t*\t", "   ", " ** "]);
        }
        s += &comment_text(r, c);
    }
    let mut s = s.replace("*/", "* ").replace("/*", "/ ");
    if s.starts_with('/') {
        s.insert(0, ' ');
    }
    if s.ends_with('*') || s.ends_with('/') {
        s.push(' ');
    }
    out.push_str("/*");
    out.push_str(&s);
    out.push_str("*/");
}

fn trivia(r: &mut Rng, c: &Cfg, nl: &str, text_format: bool, out: &mut String) {
    for _ in 0..r.range(1, 3) {
        match r.below(9) {
            3 if text_format && r.one_in(2) => marked_comment(r, c, "#", nl, out),
            0 => out.push('\t'),
            1 | 2 => out.push_str(nl),
            3 => line_comment(r, c, nl, out),
            4 => block_comment(r, c, nl, out),
            5 => out.push(*r.pick(&['\u{b}', '\u{c}', ' ', '\r'])),
            _ => out.push(' '),
        }
    }
}

/// Comments before a statement, after the previous one.
fn comments(r: &mut Rng, c: &Cfg, nl: &str, indent: &str, out: &mut String) {
    // trailing, on the same line
    match r.below(4) {
        0 => {
            out.push(' ');
            line_comment(r, c, nl, out);
        }
        1 => {
            out.push(' ');
            block_comment(r, c, nl, out);
            out.push_str(nl);
        }
        _ => out.push_str(nl),
    }
    for _ in 0..r.below(4) {
        match r.below(6) {
            0 => out.push_str(nl),
            1 | 2 => {
                out.push_str(indent);
                line_comment(r, c, nl, out)
            }
            3 => {
                out.push_str(indent);
                block_comment(r, c, nl, out);
                out.push_str(nl)
            }
            4 => {
                out.push_str(indent);
                line_comment(r, c, nl, out);
                out.push_str(nl);
            }
            _ => {
                out.push_str(indent);
                line_comment(r, c, nl, out);
                out.push_str(indent);
                line_comment(r, c, nl, out);
            }
        }
    }
    if r.one_in(8) {
        block_comment(r, c, nl, out);
        out.push_str(r.pick(&["", " "]));
    }
}

/// Sets the tokens out as text.
pub fn layout(r: &mut Rng, c: &Cfg, t: &[T]) -> String {
    let mut out = String::new();
    let nl = if r.pct(c.crlf) { "\r\n" } else { "\n" };
    if r.one_in(100) {
        out.push('\u{feff}');
    }
    let dense = r.one_in(12);
    let mut depth = 0usize;
    // braces open since the start of the aggregate value the token is in
    let mut agg = 0usize;
    for (i, x) in t.iter().enumerate() {
        if x.text == "}" {
            depth = depth.saturating_sub(1);
        }
        let prev = if i > 0 { t[i - 1].text.as_str() } else { "" };
        let before = out.len();
        let indent = "  ".repeat(depth.min(6));
        if x.start {
            if r.pct(c.comments) {
                comments(r, c, nl, &indent, &mut out);
                out.push_str(&indent);
            } else if r.pct(c.inner) {
                trivia(r, c, nl, agg > 0, &mut out);
            } else if !dense && i > 0 {
                if r.one_in(10) {
                    out.push(' ');
                } else {
                    out.push_str(nl);
                    if r.one_in(6) {
                        out.push_str(nl);
                    }
                    out.push_str(&indent);
                }
            }
        } else if r.pct(c.inner) {
            trivia(r, c, nl, agg > 0, &mut out);
        } else if !dense && i > 0 {
            let tight = matches!(x.text.as_str(), ";" | "," | ")" | ">" | "." | "(" | "<" | "]")
                || matches!(prev, "(" | "<" | "." | "[" | "-");
            if !tight || r.one_in(20) {
                out.push(' ');
            }
        }
        if out.len() == before && needs_gap(prev, &x.text) {
            out.push(' ');
        }
        out.push_str(&x.text);
        if x.text == "{" {
            depth += 1;
            if agg > 0 || prev == "=" {
                agg += 1;
            }
        } else if x.text == "}" {
            agg = agg.saturating_sub(1);
        }
    }
    match r.below(4) {
        0 => (),
        1 => comments(r, c, nl, "", &mut out),
        2 => {
            out.push_str(" // last");
        }
        _ => out.push_str(nl),
    }
    out
}

/// Byte-level mutations that keep the text UTF-8.
pub fn mutate_bytes(r: &mut Rng, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 4) {
        if cs.is_empty() {
            cs.push('x');
        }
        let i = r.below(cs.len());
        match r.below(6) {
            0 => {
                cs.remove(i);
            }
            1 => {
                let c = cs[r.below(cs.len())];
                cs.insert(i, c);
            }
            2 => cs.truncate(i),
            3 => {
                let j = r.below(cs.len());
                cs.swap(i, j)
            }
            4 => {
                let n = r.range(1, 20).min(cs.len() - i);
                let part: Vec<char> = cs[i..i + n].to_vec();
                let j = r.below(cs.len());
                for (k, c) in part.into_iter().enumerate() {
                    cs.insert(j + k, c);
                }
            }
            _ => {
                cs[i] = *r.pick(&[
                    '"', '\'', '\\', '/', '*', '\n', '\r', '\0', '{', '}', '#', '\u{e9}', '\u{1f600}', '\u{feff}', '0', 'x',
                    'f', 'e', '.', '-', ';', '\u{2028}', '\u{7f}', 'u', 'U',
                ])
            }
        }
    }
    cs.into_iter().collect()
}

/// One file.
pub fn make(r: &mut Rng, c: &Cfg) -> String {
    let mut g = Gen::new(r, c.clone());
    g.file();
    if g.r.pct(c.mutate) {
        g.mutate();
    }
    let t = std::mem::take(&mut g.t);
    let mut s = layout(r, c, &t);
    if r.pct(c.bytes) {
        s = mutate_bytes(r, &s);
    }
    s
}
