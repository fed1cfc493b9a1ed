//! Tokens written out come back from the lexer.

use dot_parser::lexer::{Lexer, Token};
use vh::lex::SPACES;
use vh::{ensure, must, worker, Ctx, Res, Src};

fn digits(s: &mut Src, n: usize) -> String {
    (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect()
}

fn letter(s: &mut Src) -> char {
    match s.below(4) {
        0 => '_',
        1 => *s.pick(&['a', 'z', 'A', 'Z', 'n', 'e', 'E', 'x']),
        2 => (b'a' + s.below(26) as u8) as char,
        _ => (b'A' + s.below(26) as u8) as char,
    }
}

/// Any character, by kind of encoding; not a quote and not a backslash.
pub fn plain_char(s: &mut Src) -> char {
    loop {
        let c = match s.below(9) {
            0 => *s.pick(&SPACES),
            1 => *s.pick(&['-', '>', '{', '}', '[', ']', '=', ',', ';', '.', '\'', '/', '#']),
            2 => *s.pick(&['\u{feff}', '\u{0}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{fffd}']),
            3 => char::from_u32(s.below(0x800) as u32).unwrap_or('x'),
            4 => char::from_u32(s.below(0x11_0000) as u32).unwrap_or('y'),
            5 => *s.pick(&['é', 'ß', '日', '本', '😀', '𝒳', 'ا', '\u{301}']),
            6 => (b'0' + s.below(10) as u8) as char,
            _ => (0x20 + s.below(0x5f) as u8) as char,
        };
        if c != '"' && c != '\\' {
            return c;
        }
    }
}

#[derive(PartialEq, Clone, Copy)]
enum Kind {
    Word,
    Num,
    Other,
}

fn length(s: &mut Src, long: usize) -> usize {
    if long > 500 && s.chance(1, 2) {
        s.urange(long / 4, long)
    } else {
        s.size(long.min(300))
    }
}

/// One token, and how it is written.
fn token(s: &mut Src, ctx: &mut Ctx, long: usize) -> (Token, String, Kind) {
    let k = s.below(12);
    match k {
        0..=2 => {
            let n = length(s, long);
            let mut w = String::new();
            w.push(letter(s));
            for _ in 0..n {
                if s.chance(1, 4) {
                    w.push((b'0' + s.below(10) as u8) as char);
                } else {
                    w.push(letter(s));
                }
            }
            ctx.ev("identifiers", 1);
            (Token::Ident(w.clone()), w, Kind::Word)
        }
        3 => {
            // built digit by digit, so the value is known without parsing
            let (v, w): (i64, String) = match s.below(6) {
                0 => (i64::MAX, "9223372036854775807".into()),
                1 => {
                    let z = if s.chance(1, 20) { 700 } else { 30 };
                    let v = if s.chance(1, 2) { 0 } else { s.range(1, 999) };
                    let z = s.urange(1, z);
                    (v, if v == 0 { "0".repeat(z) } else { format!("{}{}", "0".repeat(z), v) })
                }
                2 => {
                    let v = i64::MAX - s.below(1000) as i64;
                    (v, format!("{}", v))
                }
                3 => {
                    let v = s.range(0, 1 << 40);
                    (v, format!("{}{}", "0".repeat(s.us(4)), v))
                }
                _ => {
                    let v = s.range(0, 999);
                    (v, format!("{}", v))
                }
            };
            ctx.ev("integers", 1);
            (Token::Integer(v), w, Kind::Num)
        }
        4 => {
            let (v, w): (f64, String) = match s.below(3) {
                0 => {
                    // exact in binary: i + k/1024, written with all its decimals
                    let i = s.range(0, 1 << 30);
                    let k = s.range(0, 1023);
                    let frac = (k as u64) * 9765625; // k/1024 = k * 5^10 / 10^10
                    (i as f64 + k as f64 / 1024.0, format!("{}.{:010}", i, frac))
                }
                1 => {
                    let i = s.range(0, 1 << 20);
                    let z = s.urange(1, 40);
                    (i as f64, format!("{}.{}", i, "0".repeat(z)))
                }
                _ => {
                    let most = if s.chance(1, 20) { 300 } else { 25 };
                    let a = s.urange(1, most);
                    let b = s.urange(1, most);
                    let w = format!("{}.{}", digits(s, a), digits(s, b));
                    (w.parse().unwrap(), w)
                }
            };
            ctx.ev("decimals", 1);
            (Token::Float(v), w, Kind::Num)
        }
        5 | 6 => {
            let n = length(s, long);
            let (mut v, mut w) = (String::new(), String::from("\""));
            for _ in 0..n {
                if s.chance(1, 4) {
                    w.push('\\');
                    let c = match s.below(4) {
                        0 => *s.pick(&['n', 't', 'r']),
                        1 => *s.pick(&['"', '\\', 'N', 'l', 'G', '0', 'u', '\n', ' ']),
                        _ => plain_char(s),
                    };
                    w.push(c);
                    match c {
                        'n' => v.push('\n'),
                        't' => v.push('\t'),
                        'r' => v.push('\r'),
                        c => {
                            v.push('\\');
                            v.push(c);
                        }
                    }
                    ctx.ev("escapes", 1);
                } else {
                    let c = plain_char(s);
                    v.push(c);
                    w.push(c);
                }
            }
            w.push('"');
            ctx.ev("strings", 1);
            (Token::String(v), w, Kind::Other)
        }
        7 => (Token::Arrow, "->".into(), Kind::Other),
        _ => {
            ctx.ev("punctuation", 1);
            match s.below(7) {
                0 => (Token::LCurly, "{".into(), Kind::Other),
                1 => (Token::RCurly, "}".into(), Kind::Other),
                2 => (Token::LSquare, "[".into(), Kind::Other),
                3 => (Token::RSquare, "]".into(), Kind::Other),
                4 => (Token::Equals, "=".into(), Kind::Other),
                5 => (Token::Comma, ",".into(), Kind::Other),
                _ => (Token::Semicolon, ";".into(), Kind::Other),
            }
        }
    }
}

fn same(a: &Token, b: &Token) -> bool {
    match (a, b) {
        (Token::Float(x), Token::Float(y)) => x.to_bits() == y.to_bits(),
        _ => a == b,
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    // rarely, few tokens of great length
    let (n, long) = match s.below(40_000) {
        0..=1 if ctx.scale > 0 => (s.urange(1, 3), 150_000),
        2..=200 if ctx.scale > 0 => (s.urange(1, 8), 5_000),
        201..=600 if ctx.scale > 0 => (s.urange(1, 12), 600),
        // or a great many short ones
        601..=604 if ctx.scale > 0 => (s.urange(10_000, 140_000), 5),
        _ => (s.size(ctx.by_scale(12, 40, 300)), ctx.by_scale(8, 40, 200)),
    };
    let tight = s.below(4); // how often white space is left out where it may be
    let mut text = String::new();
    let mut want = Vec::new();
    let mut last = Kind::Other;
    for i in 0..n {
        let (t, w, k) = token(s, ctx, long);
        let merge = match (last, k) {
            (Kind::Word, Kind::Word) | (Kind::Word, Kind::Num) | (Kind::Num, Kind::Num) => true,
            _ => false,
        };
        let blanks = if merge {
            1 + s.us(2)
        } else if s.below(4) < tight {
            0
        } else {
            s.us(4)
        };
        if i > 0 || s.chance(1, 3) {
            for _ in 0..blanks {
                text.push(*s.pick(&SPACES));
            }
        }
        text.push_str(&w);
        want.push(t);
        last = k;
    }
    for _ in 0..s.us(3) {
        text.push(*s.pick(&SPACES));
    }
    ctx.fp_str(&text);
    ctx.sample(|| format!("{:?}", text));
    let mut lx = must("Lexer::new", || Lexer::new(&text))?;
    let mut got = Vec::new();
    let inherent = s.chance(1, 2);
    loop {
        let t = must("Lexer::next", || if inherent { lx.next() } else { Iterator::next(&mut lx) })?;
        match t {
            Some(t) => got.push(t),
            None => break,
        }
        ensure!(got.len() <= want.len(), "more tokens than were written: {:?} from {:?}", got, text);
    }
    if lx.has_errors() || !lx.errors().is_empty() {
        let mut o = String::new();
        must("write_errors", || lx.write_errors(&mut o).unwrap())?;
        vh::viol!("error {:?} for {:?}", o, text);
    }
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {
        ensure!(same(a, b), "token {} is {:?} instead of {:?} in {:?}", i, a, b, text);
    }
    ensure!(got.len() == want.len(), "{} tokens instead of {} from {:?}", got.len(), want.len(), text);
    ensure!(must("Lexer::next", || lx.next())?.is_none(), "a token after the end of {:?}", text);
    let mut o = String::new();
    must("write_errors", || lx.write_errors(&mut o).unwrap())?;
    ensure!(o.is_empty(), "errors {:?} are written for {:?}", o, text);
    // two lexers over halves of the time: one read in steps and one at once agree
    let again: Vec<Token> = must("collecting", || Lexer::new(&text).collect())?;
    ensure!(
        again.len() == want.len() && again.iter().zip(&want).all(|(a, b)| same(a, b)),
        "collected: {:?} instead of {:?} from {:?}",
        again,
        want,
        text
    );
    if long > 500 {
        ctx.ev("texts with very long tokens", 1);
    }
    ctx.ev("tokens compared", want.len() as u64);
    ctx.max("longest text", text.len() as u64);
    if want.len() >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    worker("X01", run)
}
