//! Lexical structure of the language, written by hand.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum L {
    Keyword,
    Name,
    Hole,
    Punct,
    Oper,
    Number,
    Str,
    Comment,
}

pub const KEYWORDS: &[&str] = &["import", "from", "export", "let", "match", "with", "end", "if", "then", "else", "type", "int", "bool", "string", "true", "false", "fold", "rec"];

/// The tokens and comments with their extents; `None` where the text has a
/// lexical error. Comments end before the line break, `\r` included or not.
pub fn lex(s: &str) -> Option<Vec<(usize, usize, L)>> {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    let wordc = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < b.len() {
        let c = b[i];
        let rest = &b[i..];
        if c == b' ' || c == b'\n' {
            i += 1;
        } else if rest.starts_with(b"\r\n") {
            i += 2;
        } else if rest.starts_with(b"--") {
            let n = rest.iter().position(|&x| x == b'\n').unwrap_or(rest.len());
            out.push((i, i + n, L::Comment));
            i += n;
        } else if c.is_ascii_alphabetic() || c == b'_' {
            let n = rest.iter().position(|&x| !wordc(x)).unwrap_or(rest.len());
            let k = if KEYWORDS.contains(&&s[i..i + n]) { L::Keyword } else { L::Name };
            out.push((i, i + n, k));
            i += n;
        } else if c.is_ascii_digit() {
            let n = rest.iter().position(|&x| !wordc(x)).unwrap_or(rest.len());
            out.push((i, i + n, L::Number));
            i += n;
        } else if c == b'?' {
            let n = 1 + rest[1..].iter().position(|&x| !wordc(x)).unwrap_or(rest.len() - 1);
            if n == 1 {
                return None;
            }
            out.push((i, i + n, L::Hole));
            i += n;
        } else if c == b'"' {
            let n = rest[1..].iter().position(|&x| x == b'"' || x == b'\n' || x == b'\\')?;
            if rest[1 + n] != b'"' {
                return None;
            }
            out.push((i, i + n + 2, L::Str));
            i += n + 2;
        } else {
            let two = ["<=", ">=", "==", "!=", "|>", "->"];
            if let Some(t) = two.iter().find(|t| rest.starts_with(t.as_bytes())) {
                out.push((i, i + 2, if *t == "->" { L::Punct } else { L::Oper }));
                i += 2;
            } else if b"+-*/%<>".contains(&c) {
                out.push((i, i + 1, L::Oper));
                i += 1;
            } else if b":=()\\|,.;".contains(&c) {
                out.push((i, i + 1, L::Punct));
                i += 1;
            } else {
                return None;
            }
        }
    }
    Some(out)
}
