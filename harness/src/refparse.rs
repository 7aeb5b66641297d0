//! The reference parser: a recursive-descent reading of the documented grammar, written without looking at how the
//! library does it. It turns any text into the document it is (with all of its formatting) and the position where the
//! text stops being TOML.
use crate::ast::*;

pub struct Parsed {
    pub doc: Doc,
    /// Where the unparsed rest of the text begins; the length of the text if there is none.
    pub end: usize,
    /// The text uses something whose treatment is not specified (a trailing comma in an inline table).
    pub undefined: bool,
}

struct P<'a> {
    s: &'a str,
    b: &'a [u8],
    undefined: bool,
}

type R<T> = Option<(T, usize)>;

pub fn key_ok(k: &str) -> bool {
    let p = P { s: k, b: k.as_bytes(), undefined: false };
    match p.key(0) {
        Some((_, e)) => e == k.len(),
        None => false,
    }
}

pub fn int_ok(s: &str) -> bool {
    P { s, b: s.as_bytes(), undefined: false }.int(0) == Some(s.len())
}

pub fn float_ok(s: &str) -> bool {
    P { s, b: s.as_bytes(), undefined: false }.float(0) == Some(s.len())
}

/// Whether a text is the content of a string of the given kind: put between the quotes, it is one whole string.
pub fn str_ok(s: &str, t: St) -> bool {
    let full = format!("{}{}{}", t.quote(), s, t.quote());
    let p = P { s: &full, b: full.as_bytes(), undefined: false };
    let e = match t {
        St::Basic => p.basic(0, false),
        St::MlBasic => p.ml_basic(0),
        St::Literal => p.literal(0),
        St::MlLiteral => p.ml_literal(0),
    };
    e == Some(full.len())
}

pub fn dt_parse(s: &str) -> Option<Dt> {
    let p = P { s, b: s.as_bytes(), undefined: false };
    match p.date_time(0) {
        Some((d, e)) if e == s.len() => Some(d),
        _ => None,
    }
}

pub fn parse(s: &str) -> Parsed {
    let mut p = P { s, b: s.as_bytes(), undefined: false };
    let mut items = vec![];
    let mut pos = 0;
    loop {
        let (mut item, e) = p.expression(pos);
        pos = e;
        let nl = p.newline(pos);
        if nl > 0 {
            item.nl = s[pos..pos + nl].to_string();
        }
        items.push(item);
        pos += nl;
        if nl == 0 {
            break;
        }
    }
    Parsed { doc: Doc { items }, end: pos, undefined: p.undefined }
}

impl<'a> P<'a> {
    fn at(&self, p: usize) -> u8 {
        *self.b.get(p).unwrap_or(&0)
    }
    fn is(&self, p: usize, t: &str) -> bool {
        self.b[p.min(self.b.len())..].starts_with(t.as_bytes())
    }
    fn sub(&self, a: usize, b: usize) -> String {
        self.s[a..b].to_string()
    }
    fn newline(&self, p: usize) -> usize {
        if self.is(p, "\n") {
            1
        } else if self.is(p, "\r\n") {
            2
        } else {
            0
        }
    }
    fn ws(&self, mut p: usize) -> usize {
        while self.at(p) == b' ' || self.at(p) == b'\t' {
            p += 1;
        }
        p
    }
    /// The end of a comment that starts at p.
    fn comment(&self, p: usize) -> Option<usize> {
        if self.at(p) != b'#' {
            return None;
        }
        let mut e = p;
        while e < self.b.len() && (self.b[e] == b'\t' || self.b[e] >= 0x20) {
            e += 1;
        }
        Some(e)
    }
    /// Whitespace, newlines and comments.
    fn trivia(&self, mut p: usize) -> usize {
        loop {
            let q = p;
            p = self.ws(p);
            p += self.newline(p);
            if let Some(e) = self.comment(p) {
                p = e;
            }
            if p == q {
                return p;
            }
        }
    }

    fn expression(&mut self, p: usize) -> (Item, usize) {
        let start = self.ws(p);
        let pre = self.sub(p, start);
        let found = match self.header(start) {
            Some(x) => Some(x),
            None => self.keyval(start).map(|((key, ws1, ws2, val), e)| (Kind::KeyVal { key, ws1, ws2, val }, e)),
        };
        let (kind, mut e) = found.unwrap_or((Kind::Blank, start));
        let mut post = String::new();
        if e > start {
            let w = self.ws(e);
            post = self.sub(e, w);
            e = w;
        }
        let mut comment = None;
        if let Some(c) = self.comment(e) {
            comment = Some(self.sub(e + 1, c));
            e = c;
        }
        (Item { pre, kind, post, comment, nl: String::new() }, e)
    }

    fn header(&self, p: usize) -> R<Kind> {
        for array in [true, false] {
            let (open, close) = if array { ("[[", "]]") } else { ("[", "]") };
            if !self.is(p, open) {
                continue;
            }
            let mut pos = p + open.len();
            let mut keys = vec![];
            let ok = loop {
                let k = self.ws(pos);
                match self.key(k) {
                    Some((key, e)) => {
                        let w = self.ws(e);
                        keys.push(HKey { pre: self.sub(pos, k), key, post: self.sub(e, w) });
                        pos = w;
                        if self.at(pos) == b'.' {
                            pos += 1;
                            continue;
                        }
                        break self.is(pos, close);
                    }
                    None => break false,
                }
            };
            if ok {
                return Some((Kind::Header { array, keys }, pos + close.len()));
            }
        }
        None
    }

    fn key(&self, p: usize) -> R<String> {
        if self.at(p) == b'"' {
            return match self.basic(p, true) {
                Some(e) if e > p + 2 => Some((self.sub(p, e), e)),
                _ => None,
            };
        }
        let mut e = p;
        while self.at(e).is_ascii_alphanumeric() || self.at(e) == b'-' || self.at(e) == b'_' {
            e += 1;
        }
        if e > p {
            Some((self.sub(p, e), e))
        } else {
            None
        }
    }

    fn keyval(&mut self, p: usize) -> R<(String, String, String, Val)> {
        let (key, e) = self.key(p)?;
        let eq = self.ws(e);
        if self.at(eq) != b'=' {
            return None;
        }
        let v = self.ws(eq + 1);
        let (val, end) = self.val(v)?;
        Some(((key, self.sub(e, eq), self.sub(eq + 1, v), val), end))
    }

    /// A comma with what may stand before it and the whitespace after it.
    fn sep(&self, p: usize) -> R<Option<(String, String)>> {
        let c = self.trivia(p);
        if self.at(c) == b',' {
            let e = self.ws(c + 1);
            Some((Some((self.sub(p, c), self.sub(c + 1, e))), e))
        } else {
            Some((None, p))
        }
    }

    fn val(&mut self, p: usize) -> R<Val> {
        match self.at(p) {
            b'[' => return self.array(p),
            b'{' => return self.inline(p),
            _ => (),
        }
        if let Some((d, e)) = self.date_time(p) {
            return Some((Val::Scalar(MVal::Dt(d)), e));
        }
        if let Some(e) = self.float(p) {
            return Some((Val::Scalar(MVal::Float(self.sub(p, e))), e));
        }
        if let Some(e) = self.int(p) {
            return Some((Val::Scalar(MVal::Int(self.sub(p, e))), e));
        }
        if self.is(p, "true") {
            return Some((Val::Scalar(MVal::Bool(true)), p + 4));
        }
        if self.is(p, "false") {
            return Some((Val::Scalar(MVal::Bool(false)), p + 5));
        }
        for (e, t) in [
            (self.ml_literal(p), St::MlLiteral),
            (self.ml_basic(p), St::MlBasic),
            (self.basic(p, false), St::Basic),
            (self.literal(p), St::Literal),
        ] {
            if let Some(e) = e {
                let q = t.quote().len();
                return Some((Val::Scalar(MVal::Str(self.sub(p + q, e - q), t)), e));
            }
        }
        None
    }

    fn array(&mut self, p: usize) -> R<Val> {
        let mut pos = self.trivia(p + 1);
        let open = self.sub(p + 1, pos);
        let mut elems = vec![];
        loop {
            if self.at(pos) == b']' {
                return Some((Val::Arr { open, elems }, pos + 1));
            }
            let (val, e) = self.val(pos)?;
            let (sep, e) = self.sep(e)?;
            pos = self.trivia(e);
            let last = sep.is_none();
            elems.push(Elem { val, sep, trivia: self.sub(e, pos) });
            if last && self.at(pos) != b']' {
                return None;
            }
        }
    }

    fn inline(&mut self, p: usize) -> R<Val> {
        let mut pos = self.ws(p + 1);
        let open = self.sub(p + 1, pos);
        let mut pairs: Vec<Pair> = vec![];
        loop {
            if self.at(pos) == b'}' {
                if pairs.last().map_or(false, |p| p.sep.is_some()) {
                    self.undefined = true;
                }
                return Some((Val::Inl { open, pairs, close: String::new() }, pos + 1));
            }
            let ((key, ws1, ws2, val), e) = self.keyval(pos)?;
            let (sep, e) = self.sep(e)?;
            pos = self.trivia(e);
            let last = sep.is_none();
            pairs.push(Pair { key, ws1, ws2, val, sep, trivia: self.sub(e, pos) });
            if last && self.at(pos) != b'}' {
                return None;
            }
        }
    }

    fn digits(&self, p: usize, n: usize) -> bool {
        (0..n).all(|i| self.at(p + i).is_ascii_digit())
    }

    fn date_time(&self, p: usize) -> R<Dt> {
        if !(self.digits(p, 4) && self.at(p + 4) == b'-' && self.digits(p + 5, 2) && self.at(p + 7) == b'-' && self.digits(p + 8, 2)) {
            return None;
        }
        let mut e = p + 10;
        let mut tm = None;
        if self.at(e) == b'T'
            && self.digits(e + 1, 2)
            && self.at(e + 3) == b':'
            && self.digits(e + 4, 2)
            && self.at(e + 6) == b':'
            && self.digits(e + 7, 2)
        {
            let (h, m, s) = (self.sub(e + 1, e + 3), self.sub(e + 4, e + 6), self.sub(e + 7, e + 9));
            e += 9;
            let mut frac = None;
            if self.at(e) == b'.' && self.digits(e + 1, 1) {
                let f = e + 1;
                e = f;
                while self.digits(e, 1) {
                    e += 1;
                }
                frac = Some(self.sub(f, e));
            }
            let mut off = Off::None;
            if self.at(e) == b'Z' {
                off = Off::Zulu;
                e += 1;
            } else if (self.at(e) == b'+' || self.at(e) == b'-')
                && self.digits(e + 1, 2)
                && self.at(e + 3) == b':'
                && self.digits(e + 4, 2)
            {
                off = Off::Amount(self.at(e) as char, self.sub(e + 1, e + 3), self.sub(e + 4, e + 6));
                e += 6;
            }
            tm = Some(Tm { h, m, s, frac, off });
        }
        Some((Dt { y: self.sub(p, p + 4), mo: self.sub(p + 5, p + 7), d: self.sub(p + 8, p + 10), tm }, e))
    }

    /// Digits with underscores between them.
    fn digit_run(&self, p: usize) -> Option<usize> {
        if !self.digits(p, 1) {
            return None;
        }
        let mut e = p + 1;
        loop {
            if self.digits(e, 1) {
                e += 1;
            } else if self.at(e) == b'_' && self.digits(e + 1, 1) {
                e += 2;
            } else {
                return Some(e);
            }
        }
    }

    fn int(&self, p: usize) -> Option<usize> {
        let d = if self.at(p) == b'+' || self.at(p) == b'-' { p + 1 } else { p };
        if self.at(d) == b'0' {
            return Some(d + 1);
        }
        self.digit_run(d)
    }

    fn float(&self, p: usize) -> Option<usize> {
        let mut e = self.int(p)?;
        let mut any = false;
        if self.at(e) == b'.' {
            if let Some(f) = self.digit_run(e + 1) {
                e = f;
                any = true;
            }
        }
        if self.at(e) == b'e' || self.at(e) == b'E' {
            if let Some(x) = self.int(e + 1) {
                e = x;
                any = true;
            }
        }
        if any {
            Some(e)
        } else {
            None
        }
    }

    /// The end of one character or escape of a basic string.
    fn basic_char(&self, p: usize, ml: bool) -> Option<usize> {
        let c = self.s[p..].chars().next()?;
        match c {
            '\\' => match self.at(p + 1) {
                b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't' => Some(p + 2),
                u @ b'u' | u @ b'U' => {
                    let n = if u == b'u' { 4 } else { 8 };
                    if (0..n).all(|i| self.at(p + 2 + i).is_ascii_hexdigit()) {
                        Some(p + 2 + n)
                    } else {
                        None
                    }
                }
                _ if ml && self.newline(p + 1) > 0 => Some(p + 1 + self.newline(p + 1)),
                _ => None,
            },
            '"' if !ml => None,
            '\t' if ml => Some(p + 1),
            '\n' | '\r' if ml && self.newline(p) > 0 => Some(p + self.newline(p)),
            c if c >= ' ' => Some(p + c.len_utf8()),
            _ => None,
        }
    }
    fn basic(&self, p: usize, _key: bool) -> Option<usize> {
        if self.at(p) != b'"' {
            return None;
        }
        let mut e = p + 1;
        loop {
            if self.at(e) == b'"' {
                return Some(e + 1);
            }
            if e >= self.b.len() {
                return None;
            }
            e = self.basic_char(e, false)?;
        }
    }
    fn ml_basic(&self, p: usize) -> Option<usize> {
        if !self.is(p, "\"\"\"") {
            return None;
        }
        let mut e = p + 3;
        loop {
            if self.is(e, "\"\"\"") {
                return Some(e + 3);
            }
            if e >= self.b.len() {
                return None;
            }
            e = self.basic_char(e, true)?;
        }
    }
    fn literal(&self, p: usize) -> Option<usize> {
        if self.at(p) != b'\'' {
            return None;
        }
        let mut e = p + 1;
        while e < self.b.len() {
            match self.b[e] {
                b'\'' => return Some(e + 1),
                b'\t' => (),
                c if c >= 0x20 => (),
                _ => return None,
            }
            e += 1;
        }
        None
    }
    fn ml_literal(&self, p: usize) -> Option<usize> {
        if !self.is(p, "'''") {
            return None;
        }
        let mut e = p + 3;
        while e < self.b.len() {
            if self.is(e, "'''") {
                return Some(e + 3);
            }
            match self.b[e] {
                b'\t' => e += 1,
                c if c >= 0x20 => e += 1,
                _ if self.newline(e) > 0 => e += self.newline(e),
                _ => return None,
            }
        }
        None
    }
}
