//! Any text: the lexer ends, and names the first bad place.

use dot_parser::lexer::{Lexer, Token};
use vh::lex::{reference, SPACES};
use vh::{ensure, must, worker, Ctx, Res, Src};

fn any_char(s: &mut Src) -> char {
    match s.below(6) {
        0 => *s.pick(&SPACES),
        1 => *s.pick(&['é', '日', '😀', '\u{0}', '\u{7f}', '\u{80}', '\u{10ffff}', '\u{200b}', 'ª', '٣', '²', 'Ⅷ']),
        2 => char::from_u32(s.below(0x11_0000) as u32).unwrap_or('?'),
        3 => *s.pick(&['"', '\\', '-', '>', '.', '\n', '{', '=', '0', 'a', '_']),
        _ => (0x20 + s.below(0x5f) as u8) as char,
    }
}

fn piece(s: &mut Src, text: &mut String) {
    match s.below(14) {
        0 | 1 => {
            // words
            for _ in 0..1 + s.us(6) {
                text.push(*s.pick(&['a', 'b', 'Z', '_', '9', 'q']));
            }
            text.push(' ');
        }
        2 => text.push_str(s.pick(&["{", "}", "[", "]", "=", ",", ";", "->", " -> "])),
        3 => text.push_str(s.pick(&["0", "7", "42", "9223372036854775807", "1.5", "0.25", "007", "12abc"])),
        4 => text.push_str(s.pick(&["\"x\"", "\"a b\\n\"", "\"é\\\"", "\"\"", "\"\\\\\"", "\"日本\"", "\"a\nb\""])),
        5..=7 => {
            for _ in 0..1 + s.us(3) {
                text.push(*s.pick(&SPACES));
            }
        }
        8 => text.push_str(s.pick(&["\n", "\r\n", "\n\n", "\t", "\u{2028}"])),
        // what is wrong, or may be
        9 => text.push_str(s.pick(&["-", "->", "--", "->>", "-1", "- >"])),
        10 => text.push_str(s.pick(&[
            "9223372036854775808", "99999999999999999999", "1.2.3", "1.", "1..2", ".5", "1.x", "1.é", "00.5.",
            "99999999999999999999.5", "1e5", "0x1F",
        ])),
        11 => text.push_str(s.pick(&["\"", "\"abc", "\\", "\"abc\\", "'", "#", "/", "<b>", "@"])),
        _ => {
            for _ in 0..1 + s.us(4) {
                text.push(any_char(s));
            }
        }
    }
}

fn same(a: &Token, b: &Token) -> bool {
    match (a, b) {
        (Token::Float(x), Token::Float(y)) => x.to_bits() == y.to_bits(),
        _ => a == b,
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut text = String::new();
    let wild = s.chance(1, 4);
    let n = s.size(ctx.by_scale(10, 30, 200));
    // rarely, many lines or a long line come first
    let lead = match s.below(40_000) {
        0..=1 if ctx.scale > 0 => s.urange(20_000, 150_000),
        2..=200 if ctx.scale > 0 => s.urange(200, 10_000),
        _ => 0,
    };
    if lead > 0 {
        let unit = *s.pick(&["\n", "\r\n", "a\n", "\n\n", " ", "é", "{ ", "\u{2003}"]);
        let quoted = unit == "é" || s.chance(1, 4);
        if quoted {
            text.push('"');
        }
        for _ in 0..lead {
            text.push_str(unit);
        }
        if quoted {
            text.push('"');
        }
        ctx.ev("long texts", 1);
    }
    if s.chance(1, 2) {
        // a valid stretch first, so that the error comes late
        for _ in 0..s.size(ctx.by_scale(10, 60, 400)) {
            let was = text.len();
            piece(s, &mut text);
            let v: Vec<char> = text[was..].chars().collect();
            if reference(&v).1.is_some() {
                text.truncate(was);
            } else if s.chance(1, 2) {
                text.push(*s.pick(&SPACES));
            }
        }
    }
    for _ in 0..n {
        if wild {
            text.push(any_char(s));
        } else {
            piece(s, &mut text);
        }
    }
    let chars: Vec<char> = text.chars().collect();
    let (want, bad) = reference(&chars);
    if let Some(b) = bad {
        if chars[b] == '\u{feff}' {
            return Ok(()); // whether a byte-order mark is a token is left open
        }
    }
    ctx.fp_str(&text);
    ctx.sample(|| format!("{:?}", text));
    let mut lx = must("Lexer::new", || Lexer::new(&text))?;
    let mut got = Vec::new();
    while let Some(t) = must("Lexer::next", || lx.next())? {
        got.push(t);
        ensure!(got.len() <= chars.len(), "more tokens than characters in {:?}", text);
    }
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {
        ensure!(same(a, b), "token {} is {:?} instead of {:?} in {:?}", i, a, b, text);
    }
    ensure!(
        got.len() == want.len(),
        "{} tokens before the end or the first error instead of {}: {:?} in {:?}",
        got.len(),
        want.len(),
        got,
        text
    );
    ensure!(lx.has_errors() == !lx.errors().is_empty(), "has_errors and errors disagree for {:?}", text);
    let mut o = String::new();
    must("write_errors", || lx.write_errors(&mut o).unwrap())?;
    match bad {
        None => {
            ensure!(!lx.has_errors() && o.is_empty(), "error {:?} for the valid text {:?}", o, text);
            ctx.ev("valid texts", 1);
        }
        Some(b) => {
            ensure!(lx.errors().len() == 1, "{} errors for {:?}", lx.errors().len(), text);
            let (mut line, mut col) = (1, 1);
            for c in &chars[..b] {
                if *c == '\n' {
                    line += 1;
                    col = 1;
                } else {
                    col += 1;
                }
            }
            let head = format!("({}, {}): ", line, col);
            ensure!(
                o.starts_with(&head) && o.len() > head.len() + 1 && o.ends_with('\n') && o.lines().count() == 1,
                "the error is written as {:?}, its place is line {} column {} of {:?}",
                o,
                line,
                col,
                text
            );
            // writing is repeatable
            let mut o2 = String::new();
            must("write_errors", || lx.write_errors(&mut o2).unwrap())?;
            ensure!(o == o2, "the errors are written differently the second time");
            ctx.ev("texts with an error", 1);
            if line > 1 {
                ctx.ev("errors after the first line", 1);
            }
            if chars[..b].iter().any(|c| c.len_utf8() > 1) {
                ctx.ev("errors after multi-byte characters", 1);
            }
            ctx.max("latest line of an error", line as u64);
        }
    }
    // the rest: whatever comes after an error, the lexer gets to the end of the text
    let mut nones = 0;
    let mut calls = 0;
    while nones < chars.len() + 2 {
        calls += 1;
        if must("Lexer::next after an error", || lx.next())?.is_none() {
            nones += 1;
        }
        ensure!(calls <= 3 * chars.len() + 10, "the lexer does not come to an end in {:?}", text);
    }
    ctx.ev("tokens compared", want.len() as u64);
    if !chars.is_empty() {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    worker("X02", run)
}
