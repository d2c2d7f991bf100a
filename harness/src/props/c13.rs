//! Hover.

use crate::ast::*;
use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::gen::{program, Cfg};
use crate::infer::Infer;
use crate::print::{Layout, Style, TK};
use std::collections::HashMap;
use ticc::Pos;

pub const C13: Prop = Prop {
    id: "C13",
    quick: 28000,
    thorough: 300000,
    rule: "a program in which an unannotated binding and an expression were hovered",
    assumptions: &[
        "a part of a type that nothing determines may be shown as `_` or as `int`",
        "a type that is not exported from where it is declared may be shown as ???",
        "the offset between two adjacent tokens may belong to either",
        "a module qualifier may be shown as the expression it is part of, or not at all",
    ],
    f: c13,
};

/// Expected text, in the notation of the hover answers.
pub fn ty_text(p: &Prog, t: &Ty, prec: u8, meta: &str, hidden: &dyn Fn(B) -> bool, out: &mut String) {
    match t {
        Ty::Int => out.push_str("int"),
        Ty::Bool => out.push_str("bool"),
        Ty::Str => out.push_str("string"),
        Ty::Con(c, args) => {
            let paren = prec >= 2 && !args.is_empty();
            if paren {
                out.push('(');
            }
            out.push_str(if hidden(*c) { "???" } else { p.name(*c) });
            for a in args {
                out.push(' ');
                ty_text(p, a, 2, meta, hidden, out);
            }
            if paren {
                out.push(')');
            }
        }
        Ty::Var(v) => out.push_str(p.name(*v)),
        Ty::Fn(a, b) => {
            if prec >= 1 {
                out.push('(');
            }
            ty_text(p, a, 1, meta, hidden, out);
            out.push_str(" -> ");
            ty_text(p, b, 0, meta, hidden, out);
            if prec >= 1 {
                out.push(')');
            }
        }
        Ty::Folded(a, b) => {
            out.push('{');
            ty_text(p, a, 0, meta, hidden, out);
            out.push_str(" => ");
            ty_text(p, b, 0, meta, hidden, out);
            out.push('}');
        }
        Ty::Meta(_) => out.push_str(meta),
    }
}

fn c13(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let cfg = Cfg {
        odd_names: *src.pick(&[4, 40]),
        shadow: *src.pick(&[20, 60]),
        holes: *src.pick(&[0, 5]),
        types: (0, 3),
        omit: *src.pick(&[35, 80]),
        fuel: *src.pick(&[8, 16, 30]),
        poly: *src.pick(&[30, 60]),
        modules: *src.pick(&[(0, 0), (0, 2), (1, 3)]),
        ..Cfg::default()
    };
    let pg = program(src, cfg);
    let lay = Layout::random(src);
    let r = pg.render(&Style { qual: *src.pick(&[10, 40, 90]), parens: *src.pick(&[5, 25]), ..Style::default() }, lay, src);
    let p = &pg.p;
    let (pr, la) = &r.root;
    case.text = r.texts.show();

    // types
    let mut exprs: HashMap<u32, Ty> = HashMap::new();
    let mut local: HashMap<B, Ty> = HashMap::new();
    for it in &p.modules[pg.root].items {
        if let Item::Val(v) = it {
            let (_, inf) = Infer::new(p).value(v).map_err(|e| format!("harness: {}", e)).unwrap();
            exprs.extend(inf.exprs);
            local.extend(inf.binders);
        }
    }
    let mut exported_types: Vec<B> = Vec::new();
    for (m, md) in p.modules.iter().enumerate() {
        for it in &md.items {
            if let Item::Type(t) = it {
                if t.export || m == pg.root {
                    exported_types.push(t.b);
                }
            }
        }
    }
    let texts = |t: &Ty| -> Vec<String> {
        let mut out = Vec::new();
        for meta in ["_", "int"] {
            for hide in [true, false] {
                let mut s = String::new();
                ty_text(p, t, 0, meta, &|c| hide && !exported_types.contains(&c), &mut s);
                if !out.contains(&s) {
                    out.push(s);
                }
            }
        }
        out
    };
    let name_docs = |b: B| -> Vec<String> {
        let n = p.name(b);
        match &p.binders[b].kind {
            BK::Value(s) => {
                let t = local.get(&b).unwrap_or(&s.ty);
                texts(t).into_iter().map(|t| format!("{}: {}", n, t)).collect()
            }
            BK::Ctor(t, k) => texts(&p.ctor_scheme(*t, *k).ty).into_iter().map(|t| format!("{}: {}", n, t)).collect(),
            BK::Type => vec![format!("{}: *{}", n, " -> *".repeat(p.decls.get(&b).map_or(0, |d| d.params.len())))],
            BK::TyVar => vec![format!("{}: *", n)],
            BK::Module => vec![],
        }
    };

    // innermost expression over tokens i..=j
    let innermost = |i: usize, j: usize| -> Option<usize> {
        (0..pr.exprs.len()).filter(|&k| pr.exprs[k].lo <= i && pr.exprs[k].hi >= j).min_by_key(|&k| (pr.exprs[k].hi - pr.exprs[k].lo, usize::MAX - k))
    };

    let n = pr.toks.len();
    let mut at: Vec<(usize, usize, bool)> = Vec::new(); // token, offset, in the gap after it
    for _ in 0..40 {
        let i = src.us(n);
        let (a, b) = la.spans[i];
        if i + 1 < n && src.pct(20) {
            let c = la.spans[i + 1].0;
            if c > b + 1 {
                at.push((i, b + 1 + src.us(c - b - 1), true));
                continue;
            }
        }
        let off = a + src.us(b - a);
        if off == a && i > 0 && la.spans[i - 1].1 == a {
            continue;
        }
        at.push((i, off, false));
    }
    generated(src);

    let (mut inferred, mut other) = (false, false);
    let mut unit = guard(|| r.texts.unit(false, true)).map_err(|e| format!("panic: {}", e))?;
    for (i, off, gap) in at {
        let got = guard(|| unit.info(Pos::new(off as u32)))
            .map_err(|e| format!("panic in hover: {}", e))?
            .map(|i| ((i.span.start().source_pos(), i.span.end().source_pos()), i.doc));
        let t = &pr.toks[i];
        let mut want: Vec<((usize, usize), String)> = Vec::new();
        let mut none_ok = false;
        let mut what = "expression";
        if !gap && t.kind == TK::Name {
            let o = t.occ.as_ref().unwrap();
            for &b in &o.bs {
                if matches!(p.binders[b].kind, BK::Module) {
                    none_ok = true;
                }
                if let BK::Value(_) = p.binders[b].kind {
                    inferred |= local.contains_key(&b);
                }
                want.extend(name_docs(b).into_iter().map(|d| (la.spans[i], d)));
            }
            what = "name";
        }
        if what == "expression" || none_ok {
            match innermost(i, if gap { i + 1 } else { i }) {
                Some(k) => {
                    let e = &pr.exprs[k];
                    let span = (la.spans[e.lo].0, la.spans[e.hi].1);
                    want.extend(texts(&exprs[&e.id]).into_iter().map(|d| (span, d)));
                    other |= e.lo < e.hi;
                }
                None => none_ok = true,
            }
        }
        let ok = match &got {
            None => none_ok,
            Some((s, d)) => want.iter().any(|(ws, wd)| ws == s && wd == d),
        };
        if !ok {
            return Err(format!(
                "hover on {}: at {} ({:?}{}): got {:?}, expected {}{:?}",
                what,
                off,
                t.text,
                if gap { ", in the gap behind it" } else { "" },
                got,
                if none_ok { "nothing or one of " } else { "one of " },
                want
            ));
        }
    }
    case.label_if(inferred, "unannotated binding");
    case.label_if(other, "compound expression");
    case.nontrivial = inferred && other;
    Ok(())
}
