// What the tokens of a text must be; used symbolically by the harness and natively by the replay tool.
// An independent reading of the SMT-LIB lexicon (with the extensions the lexer documents) on bytes.
use carcara::parser::{Lexer, Reserved, Token};
use rug::{Integer, Rational};

enum Tok { Open, Close, Symbol(String), Keyword(String), Word(&'static str), Num(bool, Integer), Dec(bool, Integer, Integer), Bits(Integer, usize), Str(String), Eof, Error, Anything }

const WORDS: [&str; 24] = ["_", "!", "as", "let", "exists", "forall", "match", "choice", "lambda", "cl", "assume", "step", "anchor", "declare-fun", "declare-const", "declare-sort", "define-fun", "define-fun-rec",
    "define-funs-rec", "define-sort", "assert", "check-sat-assuming", "set-logic", "declare-rare-rule"];

fn digit(b: u8) -> bool { b >= b'0' && b <= b'9' }
fn letter(b: u8) -> bool { (b >= b'a' && b <= b'z') || (b >= b'A' && b <= b'Z') }
fn hex(b: u8) -> bool { digit(b) || (b >= b'a' && b <= b'f') || (b >= b'A' && b <= b'F') }
fn hex_value(b: u8) -> u64 { (if digit(b) { b - b'0' } else if b >= b'a' { b - b'a' + 10 } else { b - b'A' + 10 }) as u64 }
fn symbol(b: u8) -> bool {
    if letter(b) || digit(b) { return true; }
    for c in b"+-/*=%?!.$_~&^<>@'" { if b == *c { return true; } }
    false
}
fn text(b: &[u8]) -> String { unsafe { String::from_utf8_unchecked(b.to_vec()) } }
fn utf8(code: u64, out: &mut Vec<u8>) {
    if code < 0x80 { out.push(code as u8); }
    else if code < 0x800 { out.push(0xc0 | (code >> 6) as u8); out.push(0x80 | (code & 63) as u8); }
    else if code < 0x10000 { out.push(0xe0 | (code >> 12) as u8); out.push(0x80 | (code >> 6 & 63) as u8); out.push(0x80 | (code & 63) as u8); }
    else { out.push(0xf0 | (code >> 18) as u8); out.push(0x80 | (code >> 12 & 63) as u8); out.push(0x80 | (code >> 6 & 63) as u8); out.push(0x80 | (code & 63) as u8); }
}
fn number(b: &[u8]) -> Integer { let mut v = 0u64; for c in b { v = v * 10 + (*c - b'0') as u64; } Integer::from(v) }

fn next(b: &[u8], i: &mut usize) -> Tok {
    // white space and comments
    loop {
        if *i == b.len() { return Tok::Eof; }
        let c = b[*i];
        if c == b' ' || c == b'\t' || c == b'\r' || c == b'\n' { *i += 1; continue; }
        if c == 11 || c == 12 { return Tok::Anything; }
        if c == b';' { while *i < b.len() && b[*i] != b'\n' { *i += 1; } continue; }
        break;
    }
    let st = *i;
    let c = b[st];
    *i += 1;
    let at = |i: usize, f: fn(u8) -> bool| i < b.len() && f(b[i]);
    if c == b'(' { return Tok::Open; }
    if c == b')' { return Tok::Close; }
    if c == b'|' {
        while *i < b.len() && b[*i] != b'|' { if b[*i] == b'\\' { return Tok::Error; } *i += 1; }
        if *i == b.len() { return Tok::Error; }
        *i += 1;
        return Tok::Symbol(text(&b[st + 1..*i - 1]));
    }
    if c == b':' {
        while at(*i, symbol) { *i += 1; }
        return if *i == st + 1 { Tok::Anything } else { Tok::Keyword(text(&b[st + 1..*i])) };
    }
    if c == b'#' {
        if at(*i, |c| c == b'b') {
            *i += 1;
            let s = *i;
            let mut v = 0u64;
            while at(*i, |c| c == b'0' || c == b'1') { v = v * 2 + (b[*i] - b'0') as u64; *i += 1; }
            return if *i == s { Tok::Error } else { Tok::Bits(Integer::from(v), *i - s) };
        }
        if at(*i, |c| c == b'x') {
            *i += 1;
            let s = *i;
            let mut v = 0u64;
            while at(*i, hex) { v = v * 16 + hex_value(b[*i]); *i += 1; }
            return if *i == s { Tok::Error } else { Tok::Bits(Integer::from(v), 4 * (*i - s)) };
        }
        return Tok::Error;
    }
    if c == b'"' { return string(b, i); }
    let negated = c == b'-' && at(*i, digit);
    if digit(c) || negated {
        let s = if negated { *i } else { st };
        while at(*i, digit) { *i += 1; }
        if *i - s > 1 && b[s] == b'0' { return Tok::Error; }
        let e = *i;
        let point = |c: u8| c == b'.' || c == b'/';
        if !at(e, point) { return Tok::Num(negated, number(&b[s..e])); }
        *i += 1;
        while at(*i, digit) { *i += 1; }
        if *i == e + 1 { return Tok::Anything; }
        if at(*i, point) { return Tok::Error; }
        if b[e] == b'/' {
            let d = number(&b[e + 1..*i]);
            return if d == 0 { Tok::Error } else { Tok::Dec(negated, number(&b[s..e]), d) };
        }
        let mut d = Integer::from(1);
        for _ in e + 1..*i { d *= 10u32; }
        let mut all = b[s..e].to_vec();
        all.extend_from_slice(&b[e + 1..*i]);
        return Tok::Dec(negated, number(&all), d);
    }
    if symbol(c) {
        while at(*i, symbol) { *i += 1; }
        let t = &b[st..*i];
        for w in WORDS { if t == w.as_bytes() { return Tok::Word(w); } }
        return Tok::Symbol(text(t));
    }
    Tok::Error
}
/// the rest of a string literal
fn string(b: &[u8], i: &mut usize) -> Tok {
    let mut out = vec![];
    loop {
        if *i == b.len() { return Tok::Error; }
        let c = b[*i];
        if c == b'"' {
            *i += 1;
            if *i < b.len() && b[*i] == b'"' { out.push(b'"'); *i += 1; continue; }
            return Tok::Str(text(&out));
        }
        if c == b'\\' && *i + 1 < b.len() && b[*i + 1] == b'u' {
            // \u{d}, ..., \u{ddddd} up to 2FFFF, or \udddd; anything else stands for itself
            let (mut k, brace) = if *i + 2 < b.len() && b[*i + 2] == b'{' { (*i + 3, true) } else { (*i + 2, false) };
            let s = k;
            let mut code = 0u64;
            while k < b.len() && k - s < (if brace { 5 } else { 4 }) && hex(b[k]) { code = code * 16 + hex_value(b[k]); k += 1; }
            let good = if brace { k > s && k < b.len() && b[k] == b'}' && code <= 0x2FFFF } else { k - s == 4 };
            if good {
                if code >= 0xD800 && code <= 0xDFFF { return Tok::Error; }
                utf8(code, &mut out);
                *i = if brace { k + 1 } else { k };
                continue;
            }
        }
        out.push(c);
        *i += 1;
    }
}
fn same_bytes(a: &str, b: &str) -> bool {
    if a.len() != b.len() { return false; }
    for (x, y) in a.bytes().zip(b.bytes()) { if x != y { return false; } }
    true
}
/// None if the lexer reads the text as it should
pub fn lexer_wrong(b: &[u8]) -> Option<&'static str> {
    let mut lexer = match Lexer::new(b) { Ok(x) => x, Err(_) => return Some("the text cannot be read") };
    let mut i = 0;
    loop {
        let token = lexer.next_token();
        let want = next(b, &mut i);
        if let Tok::Anything = want { return None; }
        if let Tok::Error = want { return if token.is_err() { None } else { Some("a malformed text has a token") }; }
        let Ok((token, _)) = token else { return Some("a well-formed text has no token") };
        match (&want, &token) {
            (Tok::Eof, Token::Eof) => return None,
            (Tok::Open, Token::OpenParen) | (Tok::Close, Token::CloseParen) => {}
            (Tok::Symbol(x), Token::Symbol(y)) => if !same_bytes(x, y) { return Some("another symbol"); },
            (Tok::Keyword(x), Token::Keyword(y)) => if !same_bytes(x, y) { return Some("another keyword"); },
            (Tok::Word(x), Token::ReservedWord(y)) => if Some(*y) != word(x) { return Some("another reserved word"); },
            (Tok::Num(n, x), Token::Numeral(y)) => { let y = if *n { Integer::from(-y) } else { y.clone() }; if *x != y { return Some("another number"); } }
            (Tok::Dec(n, x, d), Token::Decimal(y)) => { let y = if *n { Rational::from(-y) } else { y.clone() }; if Integer::from(y.numer() * d) != Integer::from(x * y.denom()) { return Some("another number"); } }
            (Tok::Bits(v, w), Token::Bitvector { value, width }) => if v != value || w != width { return Some("another bit-vector"); },
            (Tok::Str(x), Token::String(y)) => if !same_bytes(x, y) { return Some("another string"); },
            _ => return Some("another kind of token"),
        }
    }
}
fn word(s: &str) -> Option<Reserved> {
    Some(match s {
        "_" => Reserved::Underscore, "!" => Reserved::Bang, "as" => Reserved::As, "let" => Reserved::Let, "exists" => Reserved::Exists, "forall" => Reserved::Forall, "match" => Reserved::Match,
        "choice" => Reserved::Choice, "lambda" => Reserved::Lambda, "cl" => Reserved::Cl, "assume" => Reserved::Assume, "step" => Reserved::Step, "anchor" => Reserved::Anchor, "declare-fun" => Reserved::DeclareFun,
        "declare-const" => Reserved::DeclareConst, "declare-sort" => Reserved::DeclareSort, "define-fun" => Reserved::DefineFun, "define-fun-rec" => Reserved::DefineFunRec, "define-funs-rec" => Reserved::DefineFunsRec,
        "define-sort" => Reserved::DefineSort, "assert" => Reserved::Assert, "check-sat-assuming" => Reserved::CheckSatAssuming, "set-logic" => Reserved::SetLogic, "declare-rare-rule" => Reserved::DeclareRareRule,
        _ => return None,
    })
}
