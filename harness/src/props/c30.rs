//! The token formatter: every token once and in order, white space as asked.

use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use formatter::{FormatBuilder, Node, Sticky};

pub const C30: Prop = Prop {
    id: "C30",
    quick: 100000,
    thorough: 5000000,
    rule: "ten or more tokens, nested indenting nodes with line breaks inside, and a sticky token",
    assumptions: &["token texts hold no white space and are not empty"],
    f: c30,
};

#[derive(Clone, Debug)]
enum Do {
    Token(String, Sticky),
    Newline,
    Large,
    Space(String),
    Open(bool, bool),
    Close,
}

fn actions(src: &mut Src) -> Vec<Do> {
    let n = src.us(50);
    let mut open = 0;
    let mut out = Vec::new();
    for i in 0..n {
        out.push(match src.weighted(&[45, 12, 12, 5, 16, 14]) {
            0 => {
                let s = match src.weighted(&[60, 12, 14, 14]) {
                    0 => Sticky::None,
                    1 => Sticky::Both,
                    2 => Sticky::Prev,
                    _ => Sticky::Next,
                };
                let t = if src.pct(50) { format!("t{}", i) } else { (*src.pick(&["(", ")", ",", ";", "->", "\u{e9}", "let", "="])).to_owned() };
                Do::Token(t, s)
            }
            1 => Do::Newline,
            2 => Do::Large,
            3 => Do::Space((*src.pick(&["", " ", "\n", "\n\n", "  \n  ", "\t", "\r\n"])).to_owned()),
            4 => {
                open += 1;
                Do::Open(src.pct(25), src.pct(70))
            }
            _ if open > 0 => {
                open -= 1;
                Do::Close
            }
            _ => Do::Newline,
        });
    }
    // what is left open at the end is closed or not
    if src.pct(70) {
        out.extend((0..open).map(|_| Do::Close));
    }
    out
}

fn run(acts: &[Do]) -> String {
    let mut b = FormatBuilder::new();
    for a in acts {
        match a {
            Do::Token(t, Sticky::None) => b.add_token(t),
            Do::Token(t, s) => b.add_sticky_token(t, *s),
            Do::Newline => b.add_newline(),
            Do::Large => b.add_large_newline(),
            Do::Space(s) => b.add_whitespace(s),
            Do::Open(large, indents) => b.start_node(Node { large: *large, indents: *indents }),
            Do::Close => b.finish_node(),
        }
    }
    b.finish()
}

/// For every node, in the order of opening: is it large, by itself or by one inside?
fn large(acts: &[Do]) -> Vec<bool> {
    let mut all = vec![false];
    let mut open = vec![0];
    for a in acts {
        match a {
            Do::Open(l, _) => {
                open.push(all.len());
                all.push(*l);
                if *l {
                    open.iter().for_each(|&i| all[i] = true);
                }
            }
            Do::Close => {
                open.pop();
            }
            _ => {}
        }
    }
    all
}

/// An indenting node that is open: its level, whether it has a token of its
/// own, whether it broken a line of its own.
struct Level {
    level: usize,
    tokens: bool,
    broke: bool,
}

fn expected(acts: &[Do]) -> String {
    let large = large(acts);
    let mut lines: Vec<(usize, String)> = vec![(0, String::new())];
    let mut levels = vec![Level { level: 0, tokens: true, broke: true }];
    let mut open: Vec<(usize, bool)> = vec![(0, false)];
    let mut count = 0;
    let mut glue = true;
    for a in acts {
        let brk = match a {
            Do::Newline => true,
            Do::Large => large[open.last().unwrap().0],
            Do::Space(s) => s.contains('\n'),
            Do::Open(_, indents) => {
                count += 1;
                open.push((count, *indents));
                if *indents {
                    let up = levels.last().unwrap();
                    let level = up.level + usize::from(up.broke);
                    levels.push(Level { level, tokens: false, broke: false });
                }
                false
            }
            Do::Close => {
                if open.pop().unwrap().1 {
                    levels.pop();
                }
                false
            }
            Do::Token(t, s) => {
                let first = lines.last().unwrap().1.is_empty();
                if first {
                    lines.last_mut().unwrap().0 = levels.iter().rev().find(|l| l.tokens).unwrap().level;
                } else if !glue && !matches!(s, Sticky::Both | Sticky::Prev) {
                    lines.last_mut().unwrap().1.push(' ');
                }
                lines.last_mut().unwrap().1.push_str(t);
                glue = matches!(s, Sticky::Both | Sticky::Next);
                levels.last_mut().unwrap().tokens = true;
                false
            }
        };
        if brk && !lines.last().unwrap().1.is_empty() {
            lines.push((0, String::new()));
            levels.last_mut().unwrap().broke = true;
        }
    }
    let lines: Vec<String> = lines.into_iter().map(|(n, s)| if s.is_empty() { s } else { "    ".repeat(n) + &s }).collect();
    lines.join("\n")
}

fn c30(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let acts = actions(src);
    generated(src);
    case.text = format!("{:?}", acts);
    let tokens = acts.iter().filter(|a| matches!(a, Do::Token(..))).count();
    let sticky = acts.iter().any(|a| matches!(a, Do::Token(_, s) if *s != Sticky::None));
    let mut depth = 0;
    let mut deep = false;
    for a in &acts {
        match a {
            Do::Open(..) => depth += 1,
            Do::Close => depth -= 1,
            Do::Newline | Do::Large => deep |= depth >= 2,
            _ => {}
        }
    }
    case.nontrivial = tokens >= 10 && sticky && deep;
    case.label_if(acts.iter().any(|a| matches!(a, Do::Open(true, _))), "large node");
    let got = guard(|| run(&acts))?;
    let flat = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
    let all: String = acts.iter().filter_map(|a| if let Do::Token(t, _) = a { Some(&t[..]) } else { None }).collect();
    if flat(&got) != all {
        return Err(format!("tokens are not the ones given: {:?}", got));
    }
    if got.lines().any(|l| l.ends_with(' ') || l.is_empty()) || got.starts_with(['\n', ' ']) {
        return Err(format!("stray white space: {:?}", got));
    }
    let want = expected(&acts);
    if got != want {
        return Err(format!("white space is not as asked for:\n{:?}\ninstead of\n{:?}", got, want));
    }
    Ok(())
}
