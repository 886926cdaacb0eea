//! Reference lexer for the .proto language, written from the language specification and protoc's
//! documented tokenizer rules, independently of the code under test.
//!
//! It is three-valued: where the specification leaves a spelling open (a number running straight
//! into another number, say) the token is marked `gray`, and no verdict is given on the file.

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Id,
    Int(u64),
    Float(f64),
    Str(Vec<u8>),
    Sym(u8),
    /// A character that starts no token.
    Bad,
}

#[derive(Clone, Debug)]
pub struct Tk {
    pub k: K,
    pub s: usize,
    pub e: usize,
    /// A float literal with an `f` suffix, which only text format allows.
    pub fsuffix: bool,
}

#[derive(Clone, Debug)]
pub struct LexErr {
    /// Where the offending text is.
    pub s: usize,
    pub e: usize,
    pub kind: &'static str,
    /// The error is reported as an unexpected end of file, without a span.
    pub eof: bool,
}

#[derive(Default, Debug)]
pub struct Lexed {
    pub toks: Vec<Tk>,
    pub errs: Vec<LexErr>,
    /// `#` comments, which only text format allows.
    pub hashes: Vec<(usize, usize)>,
    pub gray: bool,
    pub comments: usize,
}

fn digits(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1
    }
    i
}

/// `[eE][+-]?[0-9]+`, or `i` if there is none.
fn exponent(b: &[u8], i: usize) -> usize {
    if i < b.len() && (b[i] | 32) == b'e' {
        let mut j = i + 1;
        if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
            j += 1;
        }
        let k = digits(b, j);
        if k > j {
            return k;
        }
    }
    i
}

fn number(b: &[u8], s: usize, out: &mut Lexed) -> usize {
    let is_f = |i: usize| i < b.len() && (b[i] | 32) == b'f';
    // Longest float at s: (end, has suffix)
    let mut fl: Option<(usize, bool)> = None;
    let mut put = |e: usize, suf: bool| {
        if fl.map_or(true, |(x, _)| e > x) {
            fl = Some((e, suf))
        }
    };
    let d = digits(b, s);
    if d > s {
        if d < b.len() && b[d] == b'.' {
            let e = exponent(b, digits(b, d + 1));
            put(e, false);
            if is_f(e) {
                put(e + 1, true)
            }
        }
        let e = exponent(b, d);
        if e > d {
            put(e, false);
            if is_f(e) {
                put(e + 1, true)
            }
        }
        if is_f(d) && (b[s] != b'0' || d == s + 1) {
            put(d + 1, true)
        }
    } else {
        // ".5"
        let e = exponent(b, digits(b, s + 1));
        put(e, false);
        if is_f(e) {
            put(e + 1, true)
        }
    }
    // Longest integer at s: (end, radix, digits start)
    let mut int: Option<(usize, u32, usize)> = None;
    if d > s {
        if b[s] != b'0' {
            int = Some((d, 10, s));
        } else {
            let mut e = s + 1;
            while e < b.len() && b[e].is_ascii_digit() {
                e += 1
            }
            int = Some((e, 8, if e > s + 1 { s + 1 } else { s }));
            if s + 1 < b.len() && (b[s + 1] | 32) == b'x' {
                let mut e = s + 2;
                while e < b.len() && b[e].is_ascii_hexdigit() {
                    e += 1
                }
                if e > s + 2 {
                    int = Some((e, 16, s + 2));
                }
            }
        }
    }
    let fe = fl.map_or(0, |x| x.0);
    let ie = int.map_or(0, |x| x.0);
    let after = |e: usize| b.get(e).copied().unwrap_or(b' ');
    if fe > ie {
        let suf = fl.unwrap().1;
        let text = std::str::from_utf8(&b[s..fe - suf as usize]).unwrap();
        let c = after(fe);
        if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' {
            out.gray = true;
        }
        out.toks.push(Tk {
            k: K::Float(text.parse().unwrap()),
            s,
            e: fe,
            fsuffix: suf,
        });
        fe
    } else {
        let (e, radix, ds) = int.unwrap();
        let c = after(e);
        if c.is_ascii_alphabetic() || c == b'_' {
            let mut x = e;
            while x < b.len() && (b[x].is_ascii_alphanumeric() || b[x] == b'_') {
                x += 1
            }
            out.errs.push(LexErr {
                s,
                e: x,
                kind: "whitespace is required",
                eof: false,
            });
        } else if c.is_ascii_digit() || c == b'.' {
            out.gray = true;
        }
        let mut v: Option<u64> = Some(0);
        if radix == 8 && b[ds..e].iter().any(|c| *c >= b'8') {
            out.errs.push(LexErr {
                s,
                e,
                kind: "invalid octal integer",
                eof: false,
            });
        }
        for &c in &b[ds..e] {
            let dv = ((c as char).to_digit(10.max(radix)).unwrap() as u64).min(radix as u64 - 1);
            v = v
                .and_then(|v| v.checked_mul(radix as u64))
                .and_then(|v| v.checked_add(dv));
        }
        if v.is_none() {
            out.errs.push(LexErr {
                s,
                e,
                kind: "integer is too large",
                eof: false,
            });
        }
        out.toks.push(Tk {
            k: K::Int(v.unwrap_or(0)),
            s,
            e,
            fsuffix: false,
        });
        e
    }
}

fn string(src: &str, s: usize, out: &mut Lexed) -> usize {
    let b = src.as_bytes();
    let q = b[s];
    let mut i = s + 1;
    let mut v = Vec::new();
    let mut bad: Option<&'static str> = None;
    let hexval = |c: u8| (c as char).to_digit(16);
    let end;
    loop {
        if i >= b.len() {
            out.errs.push(LexErr {
                s,
                e: b.len(),
                kind: "end of file",
                eof: true,
            });
            end = b.len();
            break;
        }
        let c = b[i];
        if c == q {
            end = i + 1;
            break;
        }
        match c {
            b'\n' => {
                out.errs.push(LexErr {
                    s,
                    e: i + 1,
                    kind: "unterminated string",
                    eof: false,
                });
                end = i + 1;
                break;
            }
            0 => {
                bad = bad.or(Some("invalid string"));
                i += 1;
            }
            b'\\' => {
                let n = b.get(i + 1).copied().unwrap_or(0);
                match n {
                    b'a' | b'b' | b'f' | b'n' | b'r' | b't' | b'v' | b'?' | b'\\' | b'\'' | b'"' => {
                        v.push(match n {
                            b'a' => 7,
                            b'b' => 8,
                            b'f' => 12,
                            b'n' => 10,
                            b'r' => 13,
                            b't' => 9,
                            b'v' => 11,
                            x => x,
                        });
                        i += 2;
                    }
                    b'0'..=b'7' => {
                        let mut x = 0u32;
                        let mut j = i + 1;
                        while j < b.len() && j < i + 4 && (b'0'..=b'7').contains(&b[j]) {
                            x = x * 8 + (b[j] - b'0') as u32;
                            j += 1;
                        }
                        if x > 255 {
                            // no byte has this value (protoc drops a bit silently)
                            bad = bad.or(Some("invalid string"));
                        }
                        v.push(x as u8);
                        i = j;
                    }
                    b'x' | b'X' => {
                        let mut x = 0u32;
                        let mut j = i + 2;
                        while j < b.len() && j < i + 4 && b[j].is_ascii_hexdigit() {
                            x = x * 16 + hexval(b[j]).unwrap();
                            j += 1;
                        }
                        if j == i + 2 {
                            bad = bad.or(Some("invalid string"));
                        } else {
                            v.push(x as u8);
                        }
                        i = j;
                    }
                    b'u' | b'U' => {
                        let want = if n == b'u' { 4 } else { 8 };
                        let mut x = 0u32;
                        let mut j = i + 2;
                        while j < b.len() && j < i + 2 + want && b[j].is_ascii_hexdigit() {
                            x = x.wrapping_mul(16) + hexval(b[j]).unwrap();
                            j += 1;
                        }
                        if j < i + 2 + want {
                            bad = bad.or(Some("invalid string"));
                        } else if (0xD800..0xE000).contains(&x) {
                            // protoc combines surrogate pairs, the specification does not mention them
                            let low = src.get(j..j + 6).and_then(|l| l.strip_prefix("\\u")).and_then(|l| u32::from_str_radix(l, 16).ok());
                            if x < 0xDC00 && n == b'u' && low.is_some_and(|l| (0xDC00..0xE000).contains(&l)) {
                                out.gray = true;
                                j += 6;
                            }
                            bad = bad.or(Some("invalid string"));
                        } else if let Some(ch) = char::from_u32(x) {
                            let mut buf = [0; 4];
                            v.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                        } else {
                            bad = bad.or(Some("invalid string"));
                        }
                        i = j;
                    }
                    _ => {
                        bad = bad.or(Some("invalid string"));
                        // the character after the backslash is still subject to the rules above
                        i += 1;
                        if i < b.len() && b[i] != b'\n' && b[i] != 0 {
                            i += src[i..].chars().next().unwrap().len_utf8();
                        }
                    }
                }
            }
            _ => {
                v.push(c);
                i += 1;
            }
        }
    }
    if let Some(kind) = bad {
        out.errs.push(LexErr {
            s,
            e: end,
            kind,
            eof: false,
        });
    }
    out.toks.push(Tk {
        k: K::Str(v),
        s,
        e: end,
        fsuffix: false,
    });
    end
}

pub const BOM: &str = "\u{feff}";

pub fn lex(src: &str) -> Lexed {
    let b = src.as_bytes();
    let mut out = Lexed::default();
    let mut i = if src.starts_with(BOM) { BOM.len() } else { 0 };
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' | 0x0b | 0x0c => i += 1,
            b'A'..=b'Z' | b'a'..=b'z' | b'_' => {
                let s = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1
                }
                out.toks.push(Tk {
                    k: K::Id,
                    s,
                    e: i,
                    fsuffix: false,
                });
            }
            b'0'..=b'9' => i = number(b, i, &mut out),
            b'.' if i + 1 < b.len() && b[i + 1].is_ascii_digit() => i = number(b, i, &mut out),
            b'"' | b'\'' => i = string(src, i, &mut out),
            b'/' if i + 1 < b.len() && b[i + 1] == b'/' => {
                out.comments += 1;
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'#' => {
                let s = i;
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
                out.hashes.push((s, (i + 1).min(b.len())));
            }
            b'/' if i + 1 < b.len() && b[i + 1] == b'*' => {
                out.comments += 1;
                let s = i;
                match src[i + 2..].find("*/") {
                    Some(n) => {
                        let e = i + 2 + n + 2;
                        if let Some(p) = src[i + 2..e - 2].find("/*") {
                            out.errs.push(LexErr {
                                s: i + 2 + p,
                                e: i + 4 + p,
                                kind: "nested block comments",
                                eof: false,
                            });
                            out.gray = true; // where a nested comment ends is anyone's guess
                        } else if src[i + 2..].get(n.saturating_sub(1)..n + 2) == Some("/*/") {
                            // "/* /*/": overlapping delimiters
                            out.gray = true;
                        }
                        i = e;
                    }
                    None => {
                        out.errs.push(LexErr {
                            s,
                            e: b.len(),
                            kind: "end of file",
                            eof: true,
                        });
                        if src[i + 2..].contains("/*") {
                            out.gray = true;
                        }
                        i = b.len();
                    }
                }
            }
            b'.' | b'-' | b'+' | b'(' | b')' | b'{' | b'}' | b'[' | b']' | b'<' | b'>' | b','
            | b'=' | b':' | b';' | b'/' => {
                out.toks.push(Tk {
                    k: K::Sym(c),
                    s: i,
                    e: i + 1,
                    fsuffix: false,
                });
                i += 1;
            }
            _ => {
                let n = src[i..].chars().next().unwrap().len_utf8();
                out.toks.push(Tk {
                    k: K::Bad,
                    s: i,
                    e: i + n,
                    fsuffix: false,
                });
                i += n;
            }
        }
    }
    out
}

#[derive(Default, Debug, Clone, PartialEq)]
pub struct Gap {
    pub trailing: Option<String>,
    pub detached: Vec<String>,
    pub leading: Option<String>,
}

/// Attribution of the comments between two consecutive tokens, as protoc documents it for
/// `SourceCodeInfo.Location`. `text` is the source between the tokens; `first` says there is no
/// previous token, `closes` that the next token is `}`, `]` or `)` or the end of the file.
pub fn gap(text: &str, first: bool, closes: bool) -> Gap {
    struct Coll {
        g: Gap,
        buf: String,
        has: bool,
        line: bool,
        attach: bool,
    }
    impl Coll {
        fn flush(&mut self) {
            if self.has {
                let t = std::mem::take(&mut self.buf);
                if self.attach {
                    self.g.trailing = Some(t);
                    self.attach = false;
                } else {
                    self.g.detached.push(t);
                }
                self.has = false;
            }
        }
        fn push_line(&mut self, t: &str) {
            if self.has && !self.line {
                self.flush();
            }
            self.has = true;
            self.line = true;
            self.buf.push_str(t);
        }
        fn push_block(&mut self, t: &str) {
            if self.has {
                self.flush();
            }
            self.has = true;
            self.line = false;
            self.buf.push_str(t);
        }
    }
    let mut c = Coll {
        g: Gap::default(),
        buf: String::new(),
        has: false,
        line: false,
        attach: !first,
    };
    let b = text.as_bytes();
    let mut i = 0;
    let ws = |mut i: usize| {
        while i < b.len() && matches!(b[i], b' ' | b'\t' | b'\r' | 0x0b | 0x0c) {
            i += 1
        }
        i
    };
    let line = |i: usize| -> (String, usize) {
        let e = text[i..].find('\n').map_or(text.len(), |n| i + n + 1);
        (text[i + 2..e].replace("\r\n", "\n"), e)
    };
    let block = |i: usize| -> (String, usize) {
        let n = text[i + 2..].find("*/").map_or(text.len(), |n| i + 2 + n);
        let body = &text[i + 2..n];
        let mut out = String::new();
        for (k, l) in body.split('\n').enumerate() {
            let mut l = l;
            if k > 0 {
                out.push('\n');
                l = l.trim_start_matches([' ', '\t', '\r', '\x0b', '\x0c']);
                l = l.strip_prefix('*').unwrap_or(l);
            }
            out.push_str(l);
        }
        (out.replace("\r\n", "\n"), (n + 2).min(text.len()))
    };
    if !first {
        i = ws(i);
        if text[i..].starts_with("//") {
            let (t, e) = line(i);
            c.push_line(&t);
            i = e;
            c.flush();
        } else if text[i..].starts_with("/*") {
            let (t, e) = block(i);
            let j = ws(e);
            if b.get(j) != Some(&b'\n') {
                return c.g; // the next token is on the same line: attached to nothing
            }
            c.push_block(&t);
            c.flush();
            i = j + 1;
        } else if b.get(i) == Some(&b'\n') {
            i += 1;
        } else {
            return c.g;
        }
    }
    loop {
        i = ws(i);
        if text[i..].starts_with("//") {
            let (t, e) = line(i);
            c.push_line(&t);
            i = e;
        } else if text[i..].starts_with("/*") {
            let (t, e) = block(i);
            c.push_block(&t);
            i = ws(e);
            if b.get(i) == Some(&b'\n') {
                i += 1;
            }
        } else if b.get(i) == Some(&b'\n') {
            i += 1;
            c.flush();
            c.attach = false;
        } else {
            if closes {
                c.flush();
            }
            break;
        }
    }
    if c.has {
        c.g.leading = Some(c.buf);
    }
    c.g
}
