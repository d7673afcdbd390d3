//! The language's grammar, written once more and independently as a recursive descent over bytes. Every construct
//! is described by what it looks like, when a choice is final ("committed") and which tree it stands for.
use crate::tree::{n, N, NONE, P};

/// `true`: committed, no alternative is tried. `false`: the alternative does not apply.
pub type R<T> = Result<T, bool>;

pub struct Reader<'a> {
    s: &'a [u8],
    at: usize,
}

const KEYWORDS: [&str; 9] = ["as", "else", "export", "for", "foreign", "if", "in", "import", "type"];

fn is_alpha(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_'
}
fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}
fn priority(o: &str) -> u32 {
    match o {
        "|" => 1,
        "&" => 2,
        "+" | "-" => 4,
        "*" | "/" => 5,
        _ => 3,
    }
}

fn cut<T>(r: R<T>) -> R<T> {
    r.map_err(|_| true)
}

impl<'a> Reader<'a> {
    pub fn new(s: &'a [u8]) -> Self {
        Self { s, at: 0 }
    }
    fn peek(&self) -> u8 {
        // 0 is no byte of the grammar, so it can stand for the end.
        if self.at < self.s.len() {
            self.s[self.at]
        } else {
            0
        }
    }
    fn blank(&mut self) {
        loop {
            match self.peek() {
                b' ' | b'\t' | b'\r' | b'\n' => self.at += 1,
                b'#' => {
                    while self.at < self.s.len() && self.s[self.at] != b'\n' && self.s[self.at] != b'\r' {
                        self.at += 1;
                    }
                }
                _ => return,
            }
        }
    }
    /// The position of the next token.
    fn here(&mut self) -> P {
        self.blank();
        self.position()
    }
    fn position(&self) -> P {
        let (mut line, mut start) = (1, 0);
        for i in 0..self.at {
            if self.s[i] == b'\n' {
                line += 1;
                start = i + 1;
            }
        }
        (line, (self.at - start) as u32 + 1)
    }
    fn attempt<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<Option<T>> {
        let save = self.at;
        match f(self) {
            Ok(x) => Ok(Some(x)),
            Err(true) => Err(true),
            Err(false) => {
                self.at = save;
                Ok(None)
            }
        }
    }
    fn many<T>(&mut self, f: impl Fn(&mut Self) -> R<T>) -> R<Vec<T>> {
        let mut v = vec![];
        while let Some(x) = self.attempt(&f)? {
            v.push(x);
        }
        Ok(v)
    }
    fn tag(&mut self, s: &str) -> R<()> {
        for (k, b) in s.bytes().enumerate() {
            if self.at + k >= self.s.len() || self.s[self.at + k] != b {
                return Err(false);
            }
        }
        self.at += s.len();
        Ok(())
    }
    fn sign(&mut self, s: &str) -> R<()> {
        self.blank();
        self.tag(s)?;
        if s.bytes().any(|c| b"+-*/=<>&|!?".contains(&c)) && self.peek() == b'=' {
            return Err(false);
        }
        Ok(())
    }
    fn keyword(&mut self, s: &str) -> R<()> {
        self.blank();
        self.tag(s)?;
        if is_word(self.peek()) {
            return Err(false);
        }
        Ok(())
    }
    fn word(&mut self) -> R<String> {
        let start = self.at;
        if !is_alpha(self.peek()) {
            return Err(false);
        }
        while is_word(self.peek()) {
            self.at += 1;
        }
        let w = &self.s[start..self.at];
        if KEYWORDS.iter().any(|k| k.as_bytes() == w) {
            return Err(false);
        }
        Ok(text(w))
    }
    fn identifier(&mut self) -> R<String> {
        self.blank();
        self.word()
    }
    fn qualified(&mut self) -> R<String> {
        self.blank();
        let mut w = self.word()?;
        if self.peek() == b'\'' {
            self.at += 1;
            let x = cut(self.word())?;
            w.push('\'');
            w.push_str(&x);
        }
        Ok(w)
    }
    fn list1<T>(&mut self, f: impl Fn(&mut Self) -> R<T>) -> R<Vec<T>> {
        let v = self.separated(&f)?;
        self.attempt(|r| r.sign(","))?;
        Ok(v)
    }
    fn list0<T>(&mut self, f: impl Fn(&mut Self) -> R<T>) -> R<Vec<T>> {
        Ok(self.attempt(|r| r.list1(&f))?.unwrap_or_default())
    }
    fn separated<T>(&mut self, f: &impl Fn(&mut Self) -> R<T>) -> R<Vec<T>> {
        let mut v = vec![f(self)?];
        while let Some(x) = self.attempt(|r| {
            r.sign(",")?;
            f(r)
        })? {
            v.push(x);
        }
        Ok(v)
    }

    pub fn module(&mut self) -> R<N> {
        let p = self.here();
        let imports = self.many(Self::import)?;
        let foreign = self.many(Self::foreign_import)?;
        let types = self.many(Self::type_definition)?;
        let functions = self.many(Self::function)?;
        self.blank();
        if self.at != self.s.len() {
            return Err(false);
        }
        Ok(n(
            "module",
            p,
            "",
            vec![
                n("imports", NONE, "", imports),
                n("foreign-imports", NONE, "", foreign),
                n("types", NONE, "", types),
                n("functions", NONE, "", functions),
            ],
        ))
    }

    fn import(&mut self) -> R<N> {
        let p = self.here();
        self.keyword("import")?;
        self.blank();
        let path = if let Some(package) = self.attempt(Self::word)? {
            let c = cut(self.components(true))?;
            n("external", NONE, &package, c)
        } else {
            let c = self.components(false)?;
            n("internal", NONE, "", c)
        };
        cut((|| {
            let prefix = self.attempt(|r| {
                r.keyword("as")?;
                r.identifier()
            })?;
            let names = self.attempt(|r| {
                r.sign("{")?;
                let l = r.list1(|r| {
                    let p = r.here();
                    Ok(n("unqualified", p, &r.identifier()?, vec![]))
                })?;
                r.sign("}")?;
                Ok(l)
            })?;
            Ok(n(
                "import",
                p,
                "",
                vec![
                    path,
                    n("prefix", NONE, "", prefix.iter().map(|x| n("name", NONE, x, vec![])).collect()),
                    n("names", NONE, "", names.unwrap_or_default()),
                ],
            ))
        })())
    }
    fn components(&mut self, public: bool) -> R<Vec<N>> {
        let v = self.many(|r| {
            r.tag("'")?;
            let x = r.identifier()?;
            if public && !x.as_bytes()[0].is_ascii_uppercase() {
                return Err(false);
            }
            Ok(n("name", NONE, &x, vec![]))
        })?;
        if v.is_empty() {
            return Err(false);
        }
        Ok(v)
    }
    fn convention(&mut self) -> R<N> {
        let c = self.attempt(|r| {
            let s = r.string()?;
            if s.text != "c" {
                return Err(false);
            }
            Ok(())
        })?;
        Ok(n("name", NONE, if c.is_some() { "c" } else { "native" }, vec![]))
    }
    fn foreign_import(&mut self) -> R<N> {
        let p = self.here();
        self.keyword("import")?;
        self.keyword("foreign")?;
        cut((|| {
            let c = self.convention()?;
            let x = self.identifier()?;
            let t = self.type_()?;
            Ok(n("foreign-import", p, &x, vec![c, t]))
        })())
    }
    fn type_definition(&mut self) -> R<N> {
        let p = self.here();
        self.keyword("type")?;
        let x = self.identifier()?;
        if self.attempt(|r| r.sign("="))?.is_some() {
            let t = cut(self.type_())?;
            return Ok(n("alias", p, &x, vec![t]));
        }
        self.sign("{")?;
        cut((|| {
            let fields = self.many(|r| {
                let p = r.here();
                let x = r.identifier()?;
                let t = r.type_()?;
                Ok(n("field", p, &x, vec![t]))
            })?;
            self.sign("}")?;
            Ok(n("record-definition", p, &x, fields))
        })())
    }
    fn function(&mut self) -> R<N> {
        let p = self.here();
        let export = self.attempt(|r| {
            r.keyword("foreign")?;
            r.convention()
        })?;
        let x = self.identifier()?;
        self.sign("=")?;
        let l = cut(self.lambda())?;
        Ok(n("function", p, &x, vec![n("export", NONE, "", export.into_iter().collect()), l]))
    }

    fn type_(&mut self) -> R<N> {
        let p = self.here();
        if self.attempt(|r| r.sign("\\("))?.is_some() {
            return cut((|| {
                let arguments = self.list0(Self::type_)?;
                self.sign(")")?;
                let t = self.type_()?;
                Ok(n("function-type", p, "", vec![n("arguments", NONE, "", arguments), t]))
            })());
        }
        let mut t = self.atomic_type()?;
        while let Some(x) = self.attempt(|r| {
            r.sign("|")?;
            r.atomic_type()
        })? {
            // A union starts where its first member does.
            let q = t.pos;
            t = n("union", q, "", vec![t, x]);
        }
        Ok(t)
    }
    fn atomic_type(&mut self) -> R<N> {
        let p = self.here();
        if let Some(x) = self.attempt(Self::qualified)? {
            return Ok(n("reference", p, &x, vec![]));
        }
        match self.peek() {
            b'[' => cut((|| {
                self.at += 1;
                let t = self.type_()?;
                self.sign("]")?;
                Ok(n("list-type", p, "", vec![t]))
            })()),
            b'{' => cut((|| {
                self.at += 1;
                let k = self.type_()?;
                self.sign(":")?;
                let v = self.type_()?;
                self.sign("}")?;
                Ok(n("map-type", p, "", vec![k, v]))
            })()),
            b'(' => cut((|| {
                self.at += 1;
                let t = self.type_()?;
                self.sign(")")?;
                Ok(t)
            })()),
            _ => Err(false),
        }
    }

    fn block(&mut self) -> R<N> {
        let p = self.here();
        self.sign("{")?;
        cut((|| {
            let mut v = self.many(|r| {
                let p = r.here();
                let x = r.attempt(|r| {
                    let x = r.identifier()?;
                    r.sign("=")?;
                    Ok(n("name", NONE, &x, vec![]))
                })?;
                let e = r.expression()?;
                Ok(n("statement", p, "", vec![n("let", NONE, "", x.into_iter().collect()), e]))
            })?;
            self.sign("}")?;
            let mut last = v.pop().ok_or(true)?;
            if !last.kids[0].kids.is_empty() {
                return Err(true);
            }
            v.push(last.kids.pop().unwrap());
            Ok(n("block", p, "", v))
        })())
    }

    /// Operands and operators, then precedence climbing over them.
    pub fn expression(&mut self) -> R<N> {
        let first = self.operand()?;
        let mut rest = self
            .many(|r| {
                let p = r.here();
                let o = r.operator()?;
                let e = cut(r.operand())?;
                Ok((p, o, e))
            })?
            .into_iter()
            .peekable();
        Ok(climb(first, &mut rest, 0))
    }
    fn operator(&mut self) -> R<&'static str> {
        self.blank();
        let c = self.peek();
        let next = if self.at + 1 < self.s.len() { self.s[self.at + 1] } else { 0 };
        let after = if self.at + 2 < self.s.len() { self.s[self.at + 2] } else { 0 };
        let (o, l) = match (c, next == b'=') {
            (b'=', true) => ("==", 2),
            (b'!', true) => ("!=", 2),
            (b'<', true) => ("<=", 2),
            (b'>', true) => (">=", 2),
            (b'<', false) => ("<", 1),
            (b'>', false) => (">", 1),
            (b'+', false) => ("+", 1),
            (b'-', false) => ("-", 1),
            (b'*', false) => ("*", 1),
            (b'/', false) => ("/", 1),
            (b'&', false) => ("&", 1),
            (b'|', false) => ("|", 1),
            _ => return Err(false),
        };
        if l == 2 && after == b'=' {
            return Err(false);
        }
        self.at += l;
        Ok(o)
    }
    fn operand(&mut self) -> R<N> {
        let p = self.here();
        if self.attempt(|r| r.sign("!"))?.is_some() {
            let e = cut(self.operand())?;
            return Ok(n("not", p, "", vec![e]));
        }
        let mut e = self.atom()?;
        loop {
            // A call's parenthesis follows at once.
            if self.peek() == b'(' {
                let p = self.position();
                self.at += 1;
                let a = cut((|| {
                    let a = self.list0(Self::expression)?;
                    self.sign(")")?;
                    Ok(a)
                })())?;
                let mut kids = vec![e];
                kids.extend(a);
                e = n("call", p, "", kids);
                continue;
            }
            let save = self.at;
            let p = self.here();
            if self.peek() == b'.' {
                self.at += 1;
                let x = cut(self.identifier())?;
                e = n("access", p, &x, vec![e]);
            } else if self.attempt(|r| r.sign("?"))?.is_some() {
                e = n("try", p, "", vec![e]);
            } else {
                self.at = save;
                return Ok(e);
            }
        }
    }
    fn atom(&mut self) -> R<N> {
        let p = self.here();
        if self.peek() == b'\\' {
            return self.lambda();
        }
        let start = self.at;
        if self.attempt(|r| r.keyword("if"))?.is_some() {
            let body = self.at;
            for f in [Self::if_type, Self::if_list, Self::if_map, Self::if_] {
                self.at = body;
                if let Some(x) = self.attempt(|r| f(r, p))? {
                    return Ok(x);
                }
            }
            self.at = start;
            return Err(false);
        }
        if let Some(x) = self.attempt(|r| r.record(p))? {
            return Ok(x);
        }
        match self.peek() {
            b'[' => {
                if let Some(x) = self.attempt(|r| r.comprehension(p))? {
                    return Ok(x);
                }
                self.at += 1;
                return cut((|| {
                    let t = self.type_()?;
                    let l = self.list0(|r| {
                        let m = r.attempt(|r| r.sign("..."))?.is_some();
                        let e = if m { cut(r.expression())? } else { r.expression()? };
                        Ok(n(if m { "multiple" } else { "single" }, NONE, "", vec![e]))
                    })?;
                    self.sign("]")?;
                    let mut kids = vec![t];
                    kids.extend(l);
                    Ok(n("list", p, "", kids))
                })());
            }
            b'{' => {
                self.at += 1;
                return cut((|| {
                    let k = self.type_()?;
                    self.sign(":")?;
                    let v = self.type_()?;
                    let l = self.list0(Self::map_element)?;
                    self.sign("}")?;
                    let mut kids = vec![k, v];
                    kids.extend(l);
                    Ok(n("map", p, "", kids))
                })());
            }
            b'"' => return self.string(),
            b'(' => {
                self.at += 1;
                let e = self.expression()?;
                self.sign(")")?;
                return Ok(e);
            }
            _ => {}
        }
        if let Some(x) = self.attempt(Self::number)? {
            return Ok(x);
        }
        let x = self.qualified()?;
        Ok(n("variable", p, &x, vec![]))
    }
    fn map_element(&mut self) -> R<N> {
        let p = self.here();
        if let Some((k, v)) = self.attempt(|r| {
            let k = r.expression()?;
            r.sign(":")?;
            Ok((k, cut(r.expression())?))
        })? {
            return Ok(n("entry", p, "", vec![k, v]));
        }
        self.sign("...")?;
        let e = cut(self.expression())?;
        Ok(n("multiple", NONE, "", vec![e]))
    }
    fn lambda(&mut self) -> R<N> {
        let p = self.here();
        self.sign("\\(")?;
        cut((|| {
            let arguments = self.list0(|r| {
                let p = r.here();
                let x = r.identifier()?;
                let t = cut(r.type_())?;
                Ok(n("argument", p, &x, vec![t]))
            })?;
            self.sign(")")?;
            let t = self.type_()?;
            let b = self.block()?;
            Ok(n("lambda", p, "", vec![n("arguments", NONE, "", arguments), t, b]))
        })())
    }
    fn else_if(&mut self) -> R<bool> {
        Ok(self
            .attempt(|r| {
                r.keyword("else")?;
                r.keyword("if")
            })?
            .is_some())
    }
    fn if_type(&mut self, p: P) -> R<N> {
        let x = self.identifier()?;
        self.sign("=")?;
        let e = self.expression()?;
        self.keyword("as")?;
        cut((|| {
            let mut kids = vec![e];
            loop {
                let t = self.type_()?;
                let b = self.block()?;
                kids.push(n("branch", NONE, "", vec![t, b]));
                if !self.else_if()? {
                    break;
                }
            }
            let b = self.attempt(|r| {
                r.keyword("else")?;
                r.block()
            })?;
            kids.push(n("else", NONE, "", b.into_iter().collect()));
            Ok(n("if-type", p, &x, kids))
        })())
    }
    fn if_list(&mut self, p: P) -> R<N> {
        self.sign("[")?;
        cut((|| {
            let a = self.identifier()?;
            self.sign(",")?;
            self.sign("...")?;
            let b = self.identifier()?;
            self.sign("]")?;
            self.sign("=")?;
            let e = self.expression()?;
            let t = self.block()?;
            self.keyword("else")?;
            let f = self.block()?;
            Ok(n("if-list", p, "", vec![n("name", NONE, &a, vec![]), n("name", NONE, &b, vec![]), e, t, f]))
        })())
    }
    fn if_map(&mut self, p: P) -> R<N> {
        let x = self.identifier()?;
        self.sign("=")?;
        let m = self.expression()?;
        self.sign("[")?;
        cut((|| {
            let k = self.expression()?;
            self.sign("]")?;
            let t = self.block()?;
            self.keyword("else")?;
            let f = self.block()?;
            Ok(n("if-map", p, &x, vec![m, k, t, f]))
        })())
    }
    fn if_(&mut self, p: P) -> R<N> {
        cut((|| {
            let mut kids = vec![];
            loop {
                let c = self.expression()?;
                let b = self.block()?;
                kids.push(n("branch", NONE, "", vec![c, b]));
                if !self.else_if()? {
                    break;
                }
            }
            self.keyword("else")?;
            kids.push(self.block()?);
            Ok(n("if", p, "", kids))
        })())
    }
    fn record(&mut self, p: P) -> R<N> {
        let x = self.qualified()?;
        self.sign("{")?;
        let mut update = vec![];
        let field = |r: &mut Self| {
            let p = r.here();
            let x = r.identifier()?;
            r.sign(":")?;
            let e = cut(r.expression())?;
            Ok(n("field", p, &x, vec![e]))
        };
        let fields = if self.attempt(|r| r.sign("..."))?.is_some() {
            update.push(cut((|| {
                let e = self.expression()?;
                self.sign(",")?;
                Ok(e)
            })())?);
            cut(self.list1(field))?
        } else {
            self.list0(field)?
        };
        for i in 0..fields.len() {
            for j in 0..i {
                if fields[i].text.as_bytes() == fields[j].text.as_bytes() {
                    return Err(false);
                }
            }
        }
        self.sign("}")?;
        let mut kids = vec![n("update", NONE, "", update)];
        kids.extend(fields);
        Ok(n("record", p, &x, kids))
    }
    fn comprehension(&mut self, p: P) -> R<N> {
        self.sign("[")?;
        let t = self.type_()?;
        let e = self.expression()?;
        let l = self.many(|r| {
            let p = r.here();
            r.keyword("for")?;
            cut((|| {
                let names = r.list1(|r| Ok(n("name", NONE, &r.identifier()?, vec![])))?;
                r.keyword("in")?;
                let values = r.list1(Self::expression)?;
                let c = r.attempt(|r| {
                    r.keyword("if")?;
                    r.expression()
                })?;
                Ok(n(
                    "for",
                    p,
                    "",
                    vec![
                        n("names", NONE, "", names),
                        n("in", NONE, "", values),
                        n("if", NONE, "", c.into_iter().collect()),
                    ],
                ))
            })())
        })?;
        if l.is_empty() {
            return Err(false);
        }
        self.sign("]")?;
        let mut kids = vec![t, e];
        kids.extend(l);
        Ok(n("comprehension", p, "", kids))
    }
    fn digits(&mut self, f: impl Fn(u8) -> bool) -> R<()> {
        let start = self.at;
        while f(self.peek()) {
            self.at += 1;
        }
        if self.at == start {
            Err(false)
        } else {
            Ok(())
        }
    }
    fn number(&mut self) -> R<N> {
        let p = self.here();
        let start = self.at;
        let t;
        if self.attempt(|r| r.tag("0b"))?.is_some() {
            cut(self.digits(|c| c == b'0' || c == b'1'))?;
            t = n("binary-number", p, &text(&self.s[start + 2..self.at]), vec![]);
        } else if self.attempt(|r| r.tag("0x"))?.is_some() {
            cut(self.digits(|c| c.is_ascii_hexdigit()))?;
            let x: String = self.s[start + 2..self.at].iter().map(|c| c.to_ascii_lowercase() as char).collect();
            t = n("hexadecimal", p, &x, vec![]);
        } else {
            let digit = |c: u8| c.is_ascii_digit();
            if matches!(self.peek(), b'+' | b'-') {
                self.at += 1;
            }
            if self.peek() == b'.' {
                self.at += 1;
                self.digits(digit)?;
            } else {
                self.digits(digit)?;
                if self.peek() == b'.' {
                    self.at += 1;
                    let _ = self.digits(digit);
                }
            }
            if matches!(self.peek(), b'e' | b'E') {
                self.at += 1;
                if matches!(self.peek(), b'+' | b'-') {
                    self.at += 1;
                }
                cut(self.digits(digit))?;
            }
            t = n("decimal", p, &text(&self.s[start..self.at]), vec![]);
        }
        if self.peek().is_ascii_digit() {
            return Err(false);
        }
        Ok(t)
    }
    fn string(&mut self) -> R<N> {
        let p = self.here();
        self.tag("\"")?;
        let start = self.at;
        cut((|| loop {
            match self.peek() {
                b'"' => {
                    let t = text(&self.s[start..self.at]);
                    self.at += 1;
                    return Ok(n("string", p, &t, vec![]));
                }
                b'\\' => {
                    self.at += 1;
                    match self.peek() {
                        b'\\' | b'"' | b'n' | b'r' | b't' => self.at += 1,
                        b'x' => {
                            self.at += 1;
                            for _ in 0..2 {
                                if !self.peek().is_ascii_hexdigit() {
                                    return Err(true);
                                }
                                self.at += 1;
                            }
                        }
                        _ => return Err(true),
                    }
                }
                _ if self.at >= self.s.len() => return Err(true),
                _ => self.at += 1,
            }
        })())
    }
}

fn climb(mut lhs: N, rest: &mut std::iter::Peekable<std::vec::IntoIter<(P, &'static str, N)>>, least: u32) -> N {
    while let Some((_, o, _)) = rest.peek() {
        let q = priority(o);
        if q <= least {
            break;
        }
        let (p, o, rhs) = rest.next().unwrap();
        let rhs = climb(rhs, rest, q);
        lhs = n("binary", p, o, vec![lhs, rhs]);
    }
    lhs
}

fn text(b: &[u8]) -> String {
    // Slices end at ASCII bytes, so they are UTF-8 as the source is.
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}

/// The comments of a source in order: text after `#`, and position.
pub fn comments(s: &[u8]) -> Option<Vec<(String, P)>> {
    let mut v = vec![];
    let mut r = Reader::new(s);
    while r.at < s.len() {
        match s[r.at] {
            b'#' => {
                let p = r.position();
                let start = r.at + 1;
                while r.at < s.len() && s[r.at] != b'\n' && s[r.at] != b'\r' {
                    r.at += 1;
                }
                v.push((text(&s[start..r.at]), p));
            }
            b'"' => {
                r.string().ok()?;
            }
            _ => r.at += 1,
        }
    }
    Some(v)
}
