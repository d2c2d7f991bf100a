//! Match checking.

use crate::ast::*;
use crate::choice::Src;
use crate::engine::{generated, Case, Prop};
use crate::gen::{program, Cfg};
use crate::infer::Infer;
use crate::print::{Layout, Style};
use crate::sut::{fmt_diags, Texts};
use std::collections::HashMap;

pub const C21: Prop = Prop {
    id: "C21",
    quick: 60000,
    thorough: 1000000,
    rule: "a program with a match of three or more constructors, or with a faulty match",
    assumptions: &[
        "a missing constructor is reported with the extent of the match, a repeated one within the repeated case, a scrutinee of another type anywhere in its match",
        "a match whose scrutinee has a type that nothing determines is left out",
    ],
    f: c21,
};

type S = (usize, usize);

#[derive(Default)]
struct Expect {
    /// extent of a match, missing constructors
    missing: Vec<(S, Vec<String>)>,
    /// where a repeated case may be reported
    repeated: Vec<S>,
    /// anywhere in these
    bad: Vec<S>,
    big: bool,
}

fn check(t: &Texts, ex: &Expect) -> Result<(), String> {
    let ds = t.errors()?;
    let show = |e: String| format!("{}; errors: {}", e, fmt_diags(&t.root, &ds));
    let within = |a: S, b: S| b.0 <= a.0 && a.1 <= b.1;
    let mut m_hit = vec![false; ex.missing.len()];
    let mut r_hit = vec![false; ex.repeated.len()];
    let mut b_hit = vec![false; ex.bad.len()];
    for d in &ds {
        let s = (d.span.start().source_pos(), d.span.end().source_pos());
        let mut known = false;
        for (i, (w, names)) in ex.missing.iter().enumerate() {
            if *w == s {
                if !names.iter().any(|n| d.message.contains(n.as_str())) {
                    return Err(show(format!("missing constructor misnamed: {:?} instead of one of {:?}", d.message, names)));
                }
                m_hit[i] = true;
                known = true;
            }
        }
        if !known {
            // the innermost one
            let inner = ex.repeated.iter().enumerate().filter(|(_, w)| within(s, **w)).min_by_key(|(_, w)| w.1 - w.0).map(|x| x.0);
            if let Some(i) = inner {
                r_hit[i] = true;
                known = true;
            }
        }
        for (i, w) in ex.bad.iter().enumerate() {
            if within(s, *w) {
                b_hit[i] = true;
                known = true;
            }
        }
        if !known {
            return Err(show(format!("unexpected error: {:?} at {:?}", d.message, s)));
        }
    }
    if let Some(i) = m_hit.iter().position(|h| !h) {
        return Err(show(format!("missing constructor accepted: {:?} in the match at {:?}", ex.missing[i].1, ex.missing[i].0)));
    }
    if let Some(i) = r_hit.iter().position(|h| !h) {
        return Err(show(format!("repeated constructor accepted: at {:?}", ex.repeated[i])));
    }
    if let Some(i) = b_hit.iter().position(|h| !h) {
        return Err(show(format!("match on something else accepted: at {:?}", ex.bad[i])));
    }
    Ok(())
}

fn c21(src: &mut Src, case: &mut Case) -> Result<(), String> {
    if src.pct(60) {
        return written(src, case);
    }
    case.label("damaged program");
    let cfg = Cfg {
        shadow: *src.pick(&[20, 50]),
        types: (1, 3),
        omit: 10,
        fuel: *src.pick(&[16, 30]),
        modules: *src.pick(&[(0, 0), (0, 2), (1, 3)]),
        ..Cfg::default()
    };
    let mut pg = program(src, cfg);
    let mut spots: Vec<(usize, u32)> = Vec::new();
    for (i, it) in pg.p.modules[pg.root].items.iter().enumerate() {
        if let Item::Val(v) = it {
            if v.ann {
                walk(&v.e, &mut |x| {
                    if let K::Match { .. } = x.k {
                        spots.push((i, x.id));
                    }
                });
            }
        }
    }
    if spots.is_empty() {
        return case.discard();
    }
    for _ in 0..src.us(4) {
        let &(i, id) = src.pick(&spots);
        let Item::Val(v) = pg.p.modules[pg.root].items[i].clone() else { unreachable!() };
        let mut e = v.e.clone();
        walk_mut(&mut e, &mut |x| {
            if x.id != id {
                return;
            }
            let K::Match { arms, .. } = &mut x.k else { return };
            match src.weighted(&[30, 30, 25, 15]) {
                0 if !arms.is_empty() => {
                    arms.remove(src.us(arms.len()));
                }
                1 if !arms.is_empty() => {
                    let mut a = arms[src.us(arms.len())].clone();
                    if src.pct(60) || !matches!(a.body.k, K::Match { .. }) {
                        walk_mut(&mut a.body, &mut |y| y.id = pg.p.id());
                        arms.insert(src.us(arms.len() + 1), a);
                    }
                }
                2 => src.shuffle(arms),
                _ => {
                    let n = src.us(arms.len() + 1);
                    arms.truncate(n);
                }
            }
        });
        let Item::Val(v) = &mut pg.p.modules[pg.root].items[i] else { unreachable!() };
        v.e = e;
    }
    // is it still well typed, and is it known what is matched?
    let mut types: HashMap<u32, Ty> = HashMap::new();
    let mut unknown = false;
    for it in &pg.p.modules[pg.root].items {
        if let Item::Val(v) = it {
            let Ok((_, inf)) = Infer::new(&pg.p).value(v) else { return case.discard() };
            walk(&v.e, &mut |x| {
                if let K::Match { scrut, .. } = &x.k {
                    let t = match &inf.exprs[&scrut.id] {
                        Ty::Folded(t, _) => (**t).clone(),
                        t => t.clone(),
                    };
                    unknown |= matches!(t, Ty::Meta(_));
                    types.insert(x.id, t);
                }
            });
        }
    }
    if unknown {
        return case.discard();
    }
    let lay = Layout::random(src);
    let r = pg.render(&Style { qual: *src.pick(&[10, 50]), ..Style::default() }, lay, src);
    let (pr, la) = &r.root;
    let mut ex = Expect::default();
    let ext = |id: u32, paren: bool| -> S {
        // the outermost parentheses come first
        let e = pr.exprs.iter().find(|e| e.id == id && (paren || !e.paren)).unwrap();
        (la.spans[e.lo].0, la.spans[e.hi].1)
    };
    for it in &pg.p.modules[pg.root].items {
        let Item::Val(v) = it else { continue };
        walk(&v.e, &mut |x| {
            let K::Match { scrut, arms } = &x.k else { return };
            let Ty::Con(c, _) = &types[&x.id] else { return };
            let m = ext(x.id, false);
            let mut left: Vec<B> = pg.p.decls[c].ctors.iter().map(|c| c.b).collect();
            ex.big |= left.len() >= 3;
            let mut end = ext(scrut.id, true).1;
            for a in arms {
                let body = ext(a.body.id, true);
                match left.iter().position(|&b| b == a.ctor) {
                    Some(k) => {
                        left.remove(k);
                    }
                    None => ex.repeated.push((end, body.1)),
                }
                end = body.1;
            }
            if !left.is_empty() {
                ex.missing.push((m, left.iter().map(|&b| pg.p.name(b).to_owned()).collect()));
            }
        });
    }
    case.text = r.texts.show();
    case.nontrivial = ex.big || !ex.missing.is_empty() || !ex.repeated.is_empty();
    case.label_if(!ex.missing.is_empty(), "missing constructor");
    case.label_if(!ex.repeated.is_empty(), "repeated constructor");
    case.label_if(ex.missing.is_empty() && ex.repeated.is_empty(), "exact");
    generated(src);
    check(&r.texts, &ex)
}

// ------------------------------------------------------- written from scratch

#[derive(Clone, Copy, PartialEq)]
enum F {
    Int,
    Rec,
    Par,
    Fun,
    Str,
}

struct W<'a> {
    src: &'a mut Src,
    out: String,
    ctors: Vec<(String, Vec<F>)>,
    prefix: Vec<String>,
    ex: Expect,
    clean: bool,
    n: usize,
    fuel: usize,
}

impl<'a> W<'a> {
    fn sp(&mut self) {
        let s = *self.src.pick(&[" ", " ", " ", "\n", "  ", " -- c\n", "\r\n"]);
        self.out.push_str(s);
    }
    fn put(&mut self, t: &str) {
        self.out.push_str(t);
        self.sp();
    }
    fn ctor(&mut self, k: usize) {
        let p = self.src.pick(&self.prefix).clone();
        let t = format!("{}{}", p, self.ctors[k].0);
        self.put(&t);
    }
    /// `vars`: what can be matched, with whether it is of the declared type
    fn body(&mut self, vars: &[(String, Option<F>)], fold: bool) {
        self.fuel = self.fuel.saturating_sub(1);
        if self.fuel > 0 && self.src.pct(30) {
            let (v, f) = self.src.pick(vars).clone();
            let ok = f.is_none() || (f == Some(F::Rec) && !fold);
            if ok || self.src.pct(15) {
                if !ok {
                    self.clean = false;
                }
                return self.matching(&v, ok, vars, fold && f.is_none());
            }
        }
        let t = self.src.below(9).to_string();
        self.put(&t);
    }
    fn matching(&mut self, scrut: &str, ok: bool, vars: &[(String, Option<F>)], fold: bool) {
        let start = self.out.len();
        self.put("match");
        let paren = self.src.pct(15);
        if paren {
            self.out.push('(');
        }
        self.out.push_str(scrut);
        if paren {
            self.out.push(')');
        }
        let mut prev = self.out.len();
        self.sp();
        self.put("with");
        let n = self.ctors.len();
        let mut arms: Vec<usize> = (0..n).collect();
        if self.src.pct(60) {
            self.src.shuffle(&mut arms);
        }
        if !self.clean {
            match self.src.weighted(&[40, 25, 20, 10, 5]) {
                0 => {}
                1 => {
                    let k = self.src.us(arms.len());
                    arms.remove(k);
                }
                2 => {
                    let k = self.src.us(arms.len());
                    let a = arms[k];
                    let at = self.src.us(arms.len() + 1);
                    arms.insert(at, a);
                }
                3 => {
                    for _ in 0..self.src.urange(2, 4) {
                        if !arms.is_empty() {
                            let k = self.src.us(arms.len());
                            let a = arms[k];
                            if self.src.pct(50) {
                                arms.remove(k);
                            } else {
                                let at = self.src.us(arms.len() + 1);
                                arms.insert(at, a);
                            }
                        }
                    }
                }
                _ => arms.clear(),
            }
        }
        if !ok && self.src.pct(60) {
            arms.truncate(1);
        }
        let mut seen: Vec<usize> = Vec::new();
        for k in arms {
            self.out.push('|');
            if self.src.pct(80) {
                self.sp();
            }
            self.ctor(k);
            let mut inner = vars.to_vec();
            for f in self.ctors[k].1.clone() {
                self.n += 1;
                let v = if self.src.pct(5) { "_".to_owned() } else { format!("p{}", self.n) };
                self.put(&v);
                if v != "_" {
                    inner.push((v, Some(f)));
                }
            }
            self.put("->");
            self.body(&inner, fold);
            let end = self.out.len();
            if ok && seen.contains(&k) {
                self.ex.repeated.push((prev, end));
            }
            prev = end;
            seen.push(k);
        }
        self.out.push_str("end");
        let s = (start, self.out.len());
        self.sp();
        if ok {
            self.ex.big |= n >= 3;
            let left: Vec<String> = (0..n).filter(|k| !seen.contains(k)).map(|k| self.ctors[k].0.clone()).collect();
            if !left.is_empty() {
                self.ex.missing.push((s, left));
            }
        } else {
            // nothing is known about what is in there
            self.ex.missing.retain(|m| m.0 .0 < start);
            self.ex.repeated.retain(|r| r.0 < start);
            self.ex.bad.retain(|b| b.0 < start);
            self.ex.bad.push(s);
        }
    }
}

fn written(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let params = src.weighted(&[40, 40, 20]);
    let n = if src.pct(4) { *src.pick(&[17, 31, 32, 33, 34, 40, 63, 64, 65, 66, 80, 129]) } else { *src.pick(&[2, 1, 3, 3, 4, 6, 9, 14]) };
    let mut ctors = Vec::new();
    for k in 0..n {
        let m = *src.pick(&[0, 1, 1, 2, 3, 11]);
        let mut fs = Vec::new();
        for _ in 0..m {
            fs.push(match src.us(5) {
                0 => F::Int,
                1 => F::Rec,
                2 if params > 0 => F::Par,
                3 => F::Fun,
                4 => F::Str,
                _ => F::Int,
            });
        }
        // constructors may be named like other things
        let name = if src.pct(10) { format!("f{}", k) } else { format!("{}{}", src.pick(&["C", "Cons", "P", "c_"]), k) };
        ctors.push((name, fs));
    }
    let mut decl = String::from("export type T");
    for k in 0..params {
        decl.push_str(&format!(" a{}", k));
    }
    decl.push_str(" = export");
    for (c, fs) in &ctors {
        decl.push_str(&format!(" | {}", c));
        for f in fs {
            decl.push_str(match f {
                F::Int => " int",
                F::Rec => " rec",
                F::Par => " a0",
                F::Fun => " (int -> int)",
                F::Str => " string",
            });
        }
    }
    decl.push_str(";\n");
    let mut files = Vec::new();
    let mut prefix = vec![String::new()];
    let mut tname = vec!["T".to_owned()];
    let mut w = W { out: String::new(), ctors: ctors.clone(), prefix: vec![], ex: Expect::default(), clean: src.pct(35), n: 0, fuel: 12, src };
    match w.src.weighted(&[40, 20, 20, 20]) {
        0 => w.out.push_str(&decl),
        k => {
            files.push(("m".to_owned(), decl.clone()));
            let mut names = vec!["T".to_owned()];
            names.extend(ctors.iter().map(|c| c.0.clone()));
            let list = names.join(", ");
            match k {
                1 => {
                    w.out.push_str("import M from \"m\";\n");
                    prefix = vec!["M.".to_owned()];
                    tname = vec!["M.T".to_owned()];
                }
                2 => w.out.push_str(&format!("import ({}) from \"m\";\n", list)),
                _ => {
                    w.out.push_str(&format!("import M ({}) from \"m\";\n", list));
                    prefix = vec!["M.".to_owned(), String::new()];
                    tname = vec!["M.T".to_owned(), "T".to_owned()];
                }
            }
            case.label("imported type");
            // a type of the same name elsewhere is another type
            if k == 1 && w.src.pct(50) {
                let t = format!("type T = {} | Other int;\n", ctors[0].0);
                w.out.push_str(&t);
            }
        }
    }
    w.prefix = prefix;
    let arg = |src: &mut Src| (0..params).map(|_| *src.pick(&[" int", " string", " b", " (b -> int)", " bool"])).collect::<String>();
    for i in 0..w.src.urange(1, 2) {
        let t = w.src.pick(&tname).clone();
        let args = arg(w.src);
        let fold = w.src.pct(30);
        let ty = format!("{}{}", t, args);
        match w.src.weighted(&[60, 12, 14, 14]) {
            0 => {
                // parameter
                let d = format!("export let g{} : {} -> int = \\{}x ->", i, ty, if fold { "fold " } else { "" });
                w.put(&d);
                w.matching("x", true, &[("x".to_owned(), None)], fold);
                case.label_if(fold, "fold");
            }
            1 => {
                // something that is not of a declared type
                let other = *w.src.pick(&["int", "bool", "string", "(int -> int)", "b", "(b -> b)"]);
                let d = format!("export let g{} : {} -> int = \\{}x ->", i, other, if fold { "fold " } else { "" });
                w.put(&d);
                let at = w.out.len() - 3;
                w.clean = true;
                w.matching("x", false, &[("x".to_owned(), None)], false);
                // what is inside of it is not looked at
                let end = w.out.len();
                let from = w.out[..at].rfind("export").unwrap();
                w.ex.repeated.retain(|r| r.0 < from);
                w.ex.missing.retain(|m| m.0 .0 < from);
                w.ex.bad.retain(|b| b.0 < from);
                w.ex.bad.push((from, end));
                case.label("other scrutinee");
            }
            2 => {
                // bound without an annotation
                let d = format!("export let g{} : {} -> int = \\x -> let y = x;", i, ty);
                w.put(&d);
                w.matching("y", true, &[("x".to_owned(), None), ("y".to_owned(), None)], false);
            }
            _ => {
                // the result of a call
                let d = format!("export let g{} : (int -> {}) -> {} -> int = \\h -> \\x ->", i, ty, ty);
                w.put(&d);
                let s = *w.src.pick(&["(h 0)", "(0 |> h)", "(if true then h 1 else x)", "h 2"]);
                w.matching(s, true, &[("x".to_owned(), None)], false);
            }
        }
        w.out.push_str(";\n");
    }
    let W { out, ex, .. } = w;
    let mut t = Texts::single(&out);
    for (n, f) in files {
        t.files.insert(n, f);
    }
    case.text = t.show();
    case.label_if(!ex.missing.is_empty(), "missing constructor");
    case.label_if(!ex.repeated.is_empty(), "repeated constructor");
    case.label_if(ex.missing.is_empty() && ex.repeated.is_empty() && ex.bad.is_empty(), "exact");
    case.nontrivial = ex.big || !ex.missing.is_empty() || !ex.repeated.is_empty() || !ex.bad.is_empty();
    generated(src);
    check(&t, &ex)
}
