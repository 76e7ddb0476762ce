//! Reference parser of the value syntax: recursive descent over byte positions, written from the
//! syntax documentation. Also reference versions of the hex and ss58 parsers.
use scale_value::stringify::custom_parsers::ParseHexError;
use scale_value::stringify::*;
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};

pub type Custom<'a> = dyn FnMut(usize, &str) -> Option<Result<(Value<()>, usize), ParseError>> + 'a;

pub struct P<'a> {
    pub s: &'a str,
    /// Offered (absolute position, remaining text); returns the value and how many bytes it took.
    pub custom: Option<&'a mut Custom<'a>>,
    /// Number of values parsed, deepest nesting.
    pub values: usize,
    pub deepest: usize,
    depth: usize,
}

fn err(kind: impl Into<ParseErrorKind>, start: usize, end: Option<usize>) -> ParseError {
    ParseError { start_loc: start, end_loc: end, err: kind.into() }
}

pub fn parse(s: &str) -> Result<(Value<()>, usize), ParseError> {
    P::new(s, None).value(0)
}

impl<'a> P<'a> {
    pub fn new(s: &'a str, custom: Option<&'a mut Custom<'a>>) -> P<'a> {
        P { s, custom, values: 0, deepest: 0, depth: 0 }
    }
    fn at(&self, p: usize) -> Option<char> {
        self.s[p..].chars().next()
    }
    fn ws(&self, p: usize) -> usize {
        let rest = &self.s[p..];
        p + rest.find(|c: char| !c.is_whitespace()).unwrap_or(rest.len())
    }
    pub fn value(&mut self, p: usize) -> Result<(Value<()>, usize), ParseError> {
        self.values += 1;
        if let Some(c) = &mut self.custom {
            match c(p, &self.s[p..]) {
                None => {}
                Some(Ok((v, n))) => return Ok((v, p + n)),
                Some(Err(e)) => return Err(err(e.err, p + e.start_loc, e.end_loc.map(|x| x + p))),
            }
        }
        let rest = &self.s[p..];
        let prim = |x| Value { value: ValueDef::Primitive(x), context: () };
        if rest.starts_with("true") {
            return Ok((prim(Primitive::Bool(true)), p + 4));
        }
        if rest.starts_with("false") {
            return Ok((prim(Primitive::Bool(false)), p + 5));
        }
        match self.at(p) {
            None => Err(err(ParseErrorKind::ExpectedValue, p, None)),
            Some('\'') => {
                let (c, p) = self.chr(p)?;
                Ok((prim(Primitive::Char(c)), p))
            }
            Some('"') => {
                let (c, p) = self.string(p)?;
                Ok((prim(Primitive::String(c)), p))
            }
            Some('+' | '-' | '0'..='9') => {
                let (c, p) = self.number(p)?;
                Ok((prim(c), p))
            }
            Some('{' | '(') => {
                let (c, p) = self.composite(p)?;
                Ok((Value { value: ValueDef::Composite(c), context: () }, p))
            }
            Some('<') => {
                let mut q = p + 1;
                let mut bits = vec![];
                while let Some(c @ ('0' | '1')) = self.at(q) {
                    bits.push(c == '1');
                    q += 1;
                }
                if self.at(q) != Some('>') {
                    return Err(err(ParseBitSequenceError::ExpectedClosingBracketToMatch(p), q, Some(q + 1)));
                }
                Ok((Value { value: ValueDef::BitSequence(bits.into_iter().collect()), context: () }, q + 1))
            }
            Some(c) => {
                let none = err(ParseErrorKind::ExpectedValue, p, None);
                let (name, q) = if c == 'v' && self.at(p + 1) == Some('"') {
                    match self.string(p + 1) {
                        Ok(x) => x,
                        Err(_) => return Err(none),
                    }
                } else {
                    match self.ident(p) {
                        Some(x) => x,
                        None => return Err(none),
                    }
                };
                let q = self.ws(q);
                match self.at(q) {
                    Some('{' | '(') => {
                        let (values, q) = self.composite(q)?;
                        Ok((Value { value: ValueDef::Variant(Variant { name, values }), context: () }, q))
                    }
                    _ => Err(none),
                }
            }
        }
    }
    fn ident(&self, p: usize) -> Option<(String, usize)> {
        let mut q = p;
        let mut out = String::new();
        while let Some(c) = self.at(q) {
            if c.is_alphabetic() || (!out.is_empty() && (c.is_alphanumeric() || c == '_')) {
                out.push(c);
                q += c.len_utf8();
            } else {
                break;
            }
        }
        if out.is_empty() {
            None
        } else {
            Some((out, q))
        }
    }
    fn composite(&mut self, start: usize) -> Result<(Composite<()>, usize), ParseError> {
        self.depth += 1;
        self.deepest = self.deepest.max(self.depth);
        let r = self.composite_inner(start);
        self.depth -= 1;
        r
    }
    fn composite_inner(&mut self, start: usize) -> Result<(Composite<()>, usize), ParseError> {
        let named = self.at(start) == Some('{');
        let close = if named { '}' } else { ')' };
        let mut nvals = vec![];
        let mut uvals = vec![];
        let mut p = self.ws(start + 1);
        if self.at(p) == Some(close) {
            p += 1;
        } else {
            loop {
                if named {
                    let (name, q) = if self.at(p) == Some('"') {
                        self.string(p)?
                    } else {
                        match self.ident(p) {
                            Some(x) => x,
                            None => {
                                return Err(err(ParseComplexError::InvalidStartingCharacterInIdent, p, Some(p + 1)))
                            }
                        }
                    };
                    let q = self.ws(q);
                    if self.at(q) != Some(':') {
                        return Err(err(ParseComplexError::MissingFieldSeparator(':'), q, Some(q + 1)));
                    }
                    let q = self.ws(q + 1);
                    let (v, q) = self.value(q)?;
                    nvals.push((name, v));
                    p = q;
                } else {
                    let (v, q) = self.value(p)?;
                    uvals.push(v);
                    p = q;
                }
                p = self.ws(p);
                match self.at(p) {
                    Some(',') => p = self.ws(p + 1),
                    Some(c) if c == close => {
                        p += 1;
                        break;
                    }
                    _ => return Err(err(ParseComplexError::ExpectedCloserToMatch(close, start), p, Some(p + 1))),
                }
            }
        }
        Ok((if named { Composite::Named(nvals) } else { Composite::Unnamed(uvals) }, p))
    }
    fn code(c: char) -> Option<char> {
        Some(match c {
            'n' => '\n',
            't' => '\t',
            'r' => '\r',
            '0' => '\0',
            '"' | '\'' | '\\' => c,
            _ => return None,
        })
    }
    fn chr(&self, start: usize) -> Result<(char, usize), ParseError> {
        let p = start + 1;
        let Some(c) = self.at(p) else {
            return Err(err(ParseCharError::ExpectedValidCharacter, p, Some(p + 1)));
        };
        let mut p = p + c.len_utf8();
        let mut ch = c;
        if c == '\\' {
            let bad = |p: usize| err(ParseCharError::ExpectedValidEscapeCode, p, Some(p + 1));
            let Some(c) = self.at(p) else { return Err(bad(p)) };
            p += c.len_utf8();
            ch = Self::code(c).ok_or(bad(p))?;
        }
        if self.at(p) != Some('\'') {
            return Err(err(ParseCharError::ExpectedClosingQuoteToMatch(start), p, Some(p + 1)));
        }
        Ok((ch, p + 1))
    }
    fn string(&self, start: usize) -> Result<(String, usize), ParseError> {
        let mut p = start + 1;
        let mut out = String::new();
        let unclosed = |p: usize| err(ParseStringError::ExpectedClosingQuoteToMatch(start), p, Some(p + 1));
        loop {
            let Some(c) = self.at(p) else { return Err(unclosed(p)) };
            match c {
                '"' => return Ok((out, p + 1)),
                '\\' => {
                    let q = p + 1;
                    let Some(c) = self.at(q) else { return Err(unclosed(q)) };
                    match Self::code(c) {
                        Some(c) => out.push(c),
                        None => return Err(err(ParseStringError::ExpectedValidEscapeCode, q, Some(q + 1))),
                    }
                    p = q + c.len_utf8();
                }
                c => {
                    out.push(c);
                    p += c.len_utf8();
                }
            }
        }
    }
    fn number(&self, start: usize) -> Result<(Primitive, usize), ParseError> {
        let b = self.s.as_bytes();
        let neg = b[start] == b'-';
        let mut p = start + (b[start] == b'-' || b[start] == b'+') as usize;
        if !b.get(p).is_some_and(|c| c.is_ascii_digit()) {
            return Err(err(ParseNumberError::ExpectedDigit, p, Some(p + 1)));
        }
        // magnitude, None once it is over 2^128
        let mut m: Option<u128> = Some(0);
        while let Some(c) = b.get(p) {
            match c {
                b'0'..=b'9' => {
                    m = m.and_then(|m| m.checked_mul(10)).and_then(|m| m.checked_add((c - b'0') as u128));
                }
                b'_' => {}
                _ => break,
            }
            p += 1;
        }
        if neg {
            match m {
                Some(m) if m <= 1 << 127 => Ok((Primitive::I128((m as i128).wrapping_neg()), p)),
                _ => Err(err(ParseNumberError::ParsingFailed("-999".parse::<i8>().unwrap_err()), start, Some(p))),
            }
        } else {
            match m {
                Some(m) => Ok((Primitive::U128(m), p)),
                None => Err(err(ParseNumberError::ParsingFailed("999".parse::<u8>().unwrap_err()), start, Some(p))),
            }
        }
    }
}

fn byte_list(b: &[u8]) -> Value<()> {
    Value {
        value: ValueDef::Composite(Composite::Unnamed(
            b.iter().map(|b| Value { value: ValueDef::Primitive(Primitive::U128(*b as u128)), context: () }).collect(),
        )),
        context: (),
    }
}

/// 0x followed by pairs of hex digits.
pub fn hex(s: &str) -> Option<Result<(Value<()>, usize), ParseError>> {
    let body = s.strip_prefix("0x")?;
    let n = body.bytes().take_while(|b| b.is_ascii_alphanumeric()).count();
    let body = &body.as_bytes()[..n];
    if let Some(i) = body.iter().position(|b| !b.is_ascii_hexdigit()) {
        let k = ParseErrorKind::Custom(ParseHexError::InvalidChar(body[i] as char).to_string());
        return Some(Err(err(k, 2 + i, None)));
    }
    if n % 2 == 1 {
        let k = ParseErrorKind::Custom(ParseHexError::WrongLength.to_string());
        return Some(Err(err(k, 0, Some(2 + n))));
    }
    let bytes: Vec<u8> = body
        .chunks(2)
        .map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap())
        .collect();
    Some(Ok((byte_list(&bytes), 2 + n)))
}

pub const B58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

pub fn base58(data: &[u8]) -> String {
    // repeated division of the big-endian number by 58
    let mut num = data.to_vec();
    let mut out = vec![];
    while num.iter().any(|b| *b != 0) {
        let mut rem = 0u32;
        for b in num.iter_mut() {
            let cur = rem * 256 + *b as u32;
            *b = (cur / 58) as u8;
            rem = cur % 58;
        }
        out.push(B58[rem as usize]);
    }
    for b in data {
        if *b != 0 {
            break;
        }
        out.push(b'1');
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}
pub fn unbase58(s: &str) -> Option<Vec<u8>> {
    let mut num: Vec<u8> = vec![]; // little endian
    for c in s.bytes() {
        let mut carry = B58.iter().position(|x| *x == c)? as u32;
        for b in num.iter_mut() {
            let cur = *b as u32 * 58 + carry;
            *b = cur as u8;
            carry = cur >> 8;
        }
        while carry > 0 {
            num.push(carry as u8);
            carry >>= 8;
        }
        // what the base58 library has room for, besides leading zeros
        if num.len() > 132 {
            return None;
        }
    }
    let zeros = s.bytes().take_while(|c| *c == b'1').count();
    num.extend(std::iter::repeat(0).take(zeros));
    num.reverse();
    Some(num)
}
pub fn ss58_sum(data: &[u8]) -> [u8; 2] {
    use blake2::{Blake2b512, Digest};
    let mut h = Blake2b512::new();
    h.update([b"SS58PRE".as_slice(), data].concat());
    let h = h.finalize();
    [h[0], h[1]]
}
pub fn ss58_bytes(s: &str) -> Option<(Vec<u8>, usize)> {
    let n = s.bytes().take_while(|b| b.is_ascii_alphanumeric()).count();
    let t = &s[..n];
    if t.is_empty() || t == "true" || t == "false" || t.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    // a name goes on with any letters, digits and underscores
    if let Some('(' | '{') = s[n..].chars().skip_while(|c| c.is_alphanumeric() || *c == '_').find(|c| !c.is_whitespace()) {
        return None;
    }
    let b = unbase58(t)?;
    let pre = match *b.first()? {
        0..=63 => 1,
        64..=127 => 2,
        _ => return None,
    };
    if b.len() < pre + 2 {
        return None;
    }
    let (body, sum) = b.split_at(b.len() - 2);
    if sum != ss58_sum(body) {
        return None;
    }
    Some((body[pre..].to_vec(), n))
}
pub fn ss58(s: &str) -> Option<Result<(Value<()>, usize), ParseError>> {
    ss58_bytes(s).map(|(b, n)| Ok((byte_list(&b), n)))
}
