//! What the lexer is to do, written down once more over an indexed array of characters.

use dot_parser::lexer::Token;

pub const SPACES: [char; 25] = [
    ' ', '\t', '\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}',
    '\u{2003}', '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}',
    '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
];

pub fn digit(c: char) -> bool {
    ('0'..='9').contains(&c)
}
pub fn word_start(c: char) -> bool {
    ('a'..='z').contains(&c) || ('A'..='Z').contains(&c) || c == '_'
}

/// The tokens up to the first bad place, and that place as an index of characters.
pub fn reference(text: &[char]) -> (Vec<Token>, Option<usize>) {
    let mut out = Vec::new();
    let n = text.len();
    let mut i = 0;
    while i < n {
        let c = text[i];
        let start = i;
        if SPACES.contains(&c) {
            i += 1;
            continue;
        }
        let simple = match c {
            '=' => Some(Token::Equals),
            '{' => Some(Token::LCurly),
            '}' => Some(Token::RCurly),
            '[' => Some(Token::LSquare),
            ']' => Some(Token::RSquare),
            ',' => Some(Token::Comma),
            ';' => Some(Token::Semicolon),
            _ => None,
        };
        if let Some(t) = simple {
            out.push(t);
            i += 1;
        } else if c == '-' {
            if i + 1 < n && text[i + 1] == '>' {
                out.push(Token::Arrow);
                i += 2;
            } else {
                return (out, Some(start));
            }
        } else if word_start(c) {
            while i < n && (word_start(text[i]) || digit(text[i])) {
                i += 1;
            }
            out.push(Token::Ident(text[start..i].iter().collect()));
        } else if digit(c) {
            let mut dots = 0;
            loop {
                while i < n && digit(text[i]) {
                    i += 1;
                }
                if i + 1 < n && text[i] == '.' && digit(text[i + 1]) {
                    dots += 1;
                    i += 1;
                } else {
                    break;
                }
            }
            let s: String = text[start..i].iter().collect();
            match dots {
                0 => {
                    let mut v: Option<i64> = Some(0);
                    for d in s.bytes() {
                        v = v.and_then(|v| v.checked_mul(10)).and_then(|v| v.checked_add((d - b'0') as i64));
                    }
                    match v {
                        Some(v) => out.push(Token::Integer(v)),
                        None => return (out, Some(start)),
                    }
                }
                1 => out.push(Token::Float(s.parse().unwrap())),
                _ => return (out, Some(start)),
            }
        } else if c == '"' {
            let mut v = String::new();
            i += 1;
            loop {
                if i >= n {
                    return (out, Some(start));
                }
                match text[i] {
                    '"' => break,
                    '\\' => {
                        i += 1;
                        if i >= n {
                            return (out, Some(start));
                        }
                        match text[i] {
                            'n' => v.push('\n'),
                            't' => v.push('\t'),
                            'r' => v.push('\r'),
                            c => {
                                v.push('\\');
                                v.push(c);
                            }
                        }
                    }
                    c => v.push(c),
                }
                i += 1;
            }
            i += 1;
            out.push(Token::String(v));
        } else {
            return (out, Some(start));
        }
    }
    (out, None)
}
