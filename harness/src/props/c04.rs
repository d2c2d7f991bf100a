//! Accepted programs do not go wrong: near misses of well-typed programs.

use crate::ast::*;
use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::eval::{Eval, Stop};
use crate::gen::{program, Cfg, Program};
use crate::print::{Layout, Style};
use crate::sut::{Texts, RUNNERS};
use std::rc::Rc;

pub const C04: Prop = Prop {
    id: "C04",
    quick: 16000,
    thorough: 600000,
    rule: "a mutated program (or one without annotations) that the compiler accepts and that differs from a generated well-typed one; or one that is generated without any annotation",
    assumptions: &[
        "validity of the core program is what the compiler's own verifier checks after core generation and around every pass; evaluation on all runners and the reference evaluator complement it",
        "programs whose reference run exceeds the step budget are discarded; token-level mutants are evaluated only when they contain no fold and no import",
    ],
    f: c04,
};

/// Applies `f` to the node with preorder number `n`.
fn at_node(e: &mut E, n: usize, f: &mut dyn FnMut(&mut E)) {
    let mut i = 0;
    let mut done = false;
    walk_mut(e, &mut |x| {
        if i == n && !done {
            done = true;
            f(x);
        }
        i += 1;
    });
}

fn size(e: &E) -> usize {
    let mut n = 0;
    walk(e, &mut |_| n += 1);
    n
}

fn children(e: &E) -> Vec<E> {
    match &e.k {
        K::App(a, b) | K::Bin(_, a, b) => vec![(**a).clone(), (**b).clone()],
        K::If(a, b, c) => vec![(**a).clone(), (**b).clone(), (**c).clone()],
        K::Lam { body, .. } => vec![(**body).clone()],
        K::Let { val, body, .. } => vec![(**val).clone(), (**body).clone()],
        K::Match { scrut, arms } => {
            let mut v = vec![(**scrut).clone()];
            v.extend(arms.iter().map(|a| a.body.clone()));
            v
        }
        _ => vec![],
    }
}

/// Local variables in scope at a node.
fn scope_at(e: &E, id: u32, sc: &mut Vec<B>) -> Option<Vec<B>> {
    if e.id == id {
        return Some(sc.clone());
    }
    let n = sc.len();
    let mut found = None;
    match &e.k {
        K::Var(_) | K::Int(_) | K::Bool(_) | K::Str(_) | K::Hole(_) => {}
        K::App(a, b) | K::Bin(_, a, b) => found = scope_at(a, id, sc).or_else(|| scope_at(b, id, sc)),
        K::If(a, b, c) => found = scope_at(a, id, sc).or_else(|| scope_at(b, id, sc)).or_else(|| scope_at(c, id, sc)),
        K::Lam { p, body, .. } => {
            sc.push(*p);
            found = scope_at(body, id, sc);
        }
        K::Let { b, val, body, .. } => {
            found = scope_at(val, id, sc);
            if found.is_none() {
                sc.push(*b);
                found = scope_at(body, id, sc);
            }
        }
        K::Match { scrut, arms } => {
            found = scope_at(scrut, id, sc);
            for a in arms {
                if found.is_none() {
                    sc.extend(&a.vars);
                    found = scope_at(&a.body, id, sc);
                    sc.truncate(n);
                }
            }
        }
    }
    sc.truncate(n);
    found
}

/// An expression whose only purpose is what it demands of the types of variables.
fn relate(p: &mut Prog, scope: &[B], src: &mut Src) -> Option<(&'static str, E)> {
    let var = |p: &mut Prog, b: B| p.mk(Ty::Int, K::Var(b));
    let local = |p: &mut Prog, n: &str| p.fresh(n, BK::Value(Scheme { vars: vec![], ty: Ty::Int }));
    let same = |p: &mut Prog, a: E, b: E| {
        let c = p.mk(Ty::Bool, K::Bool(true));
        p.mk(Ty::Int, K::If(Box::new(c), Box::new(a), Box::new(b)))
    };
    let lit = |p: &mut Prog, src: &mut Src| {
        let k = match src.us(3) {
            0 => K::Int(1),
            1 => K::Bool(true),
            _ => K::Str(Rc::from("s")),
        };
        p.mk(Ty::Int, k)
    };
    let kind = if scope.is_empty() { 3 } else { src.weighted(&[20, 25, 15, 20, 20]) };
    if kind != 3 && scope.is_empty() {
        return None;
    }
    Some(match kind {
        0 => {
            // two variables of one type
            if scope.len() < 2 {
                return None;
            }
            let a = *src.pick(scope);
            let b = *src.pick(scope);
            let (a, b) = (var(p, a), var(p, b));
            ("one type", same(p, a, b))
        }
        1 => {
            // what a fold folds is what another one folds, and with the same result
            let y = local(p, "y");
            let folded: Vec<B> = scope.iter().copied().filter(|&b| matches!(&p.binders[b].kind, BK::Value(s) if s.ty.has_folded())).collect();
            let any = folded.is_empty() || src.pct(20);
            let s = *src.pick(if any { scope } else { &folded });
            let (a, b) = (var(p, s), var(p, y));
            let rel = if src.pct(50) { same(p, a, b) } else { same(p, b, a) };
            let w = local(p, "w");
            let l = lit(p, src);
            let body = p.mk(Ty::Int, K::Let { b: w, ann: false, val: Box::new(rel), body: Box::new(l) });
            ("one folded type", p.mk(Ty::Int, K::Lam { p: y, fold: true, body: Box::new(body) }))
        }
        2 => {
            // a variable applied to another one
            let a = *src.pick(scope);
            let b = *src.pick(scope);
            let (a, b) = (var(p, a), var(p, b));
            ("apply", p.mk(Ty::Int, K::App(Box::new(a), Box::new(b))))
        }
        3 => {
            // a type within itself
            let y = local(p, "y");
            let gens: Vec<B> = (0..p.binders.len())
                .filter(|&b| match &p.binders[b].kind {
                    BK::Ctor(t, i) => {
                        let d = &p.decls[t];
                        !d.params.is_empty() && matches!(d.ctors[*i].fields.first(), Some(Field::Ty(Ty::Var(_))))
                    }
                    BK::Value(s) => matches!(&s.ty, Ty::Fn(a, r) if matches!(&**a, Ty::Var(v) if r.mentions(*v))),
                    _ => false,
                })
                .collect();
            let (mut a, b) = (var(p, y), var(p, y));
            match src.us(4) {
                0 => {
                    // a function that returns its argument's kind
                    let z = local(p, "z");
                    a = p.mk(Ty::Int, K::Lam { p: z, fold: false, body: Box::new(a) });
                }
                1 => {
                    let l = lit(p, src);
                    a = p.mk(Ty::Int, K::App(Box::new(a), Box::new(l)));
                }
                _ => {
                    if gens.is_empty() {
                        return None;
                    }
                    let n = src.urange(1, 2);
                    for _ in 0..n {
                        let g = *src.pick(&gens);
                        let f = var(p, g);
                        a = p.mk(Ty::Int, K::App(Box::new(f), Box::new(a)));
                    }
                }
            }
            let rel = if src.pct(50) { same(p, a, b) } else { same(p, b, a) };
            ("own part", p.mk(Ty::Int, K::Lam { p: y, fold: false, body: Box::new(rel) }))
        }
        _ => {
            // an unannotated function demands it of its parameters
            let y = local(p, "y");
            let s = *src.pick(scope);
            let t = *src.pick(scope);
            let (a, b) = (var(p, s), var(p, y));
            let rel = same(p, a, b);
            let lam = p.mk(Ty::Int, K::Lam { p: y, fold: false, body: Box::new(rel) });
            let arg = if src.pct(70) { var(p, t) } else { lit(p, src) };
            ("pass", p.mk(Ty::Int, K::App(Box::new(lam), Box::new(arg))))
        }
    })
}

pub fn mutate(pg: &mut Program, src: &mut Src) -> &'static str {
    // where
    let mut spots: Vec<(usize, usize)> = Vec::new();
    for (m, module) in pg.p.modules.iter().enumerate() {
        if module.std {
            continue;
        }
        for (i, it) in module.items.iter().enumerate() {
            if let Item::Val(_) = it {
                spots.push((m, i));
            }
        }
    }
    if spots.is_empty() {
        return "none";
    }
    let &(m, i) = src.pick(&spots);
    let Item::Val(v) = pg.p.modules[m].items[i].clone() else { unreachable!() };
    let mut e = v.e.clone();
    let n = size(&e);
    let mut nodes: Vec<E> = Vec::new();
    walk(&e, &mut |x| nodes.push(x.clone()));
    let mut kind = 0;
    let mut fits: Vec<usize> = Vec::new();
    for _ in 0..4 {
        kind = src.weighted(&[16, 10, 14, 10, 12, 12, 8, 12, 12, 6, 16]);
        fits = (0..n)
        .filter(|&i| match (kind, &nodes[i].k) {
            (2, _) => !children(&nodes[i]).is_empty(),
            (3, k) => matches!(k, K::App(..) | K::Bin(..) | K::If(..)),
            (4, k) => matches!(k, K::Match { .. }),
            (6, k) => matches!(k, K::Lam { .. }),
            (7, k) => matches!(k, K::Let { .. }),
            (9, k) => matches!(k, K::Bin(..)),
            (10, _) => i == 0 || scope_at(&e, nodes[i].id, &mut Vec::new()).map_or(false, |s| !s.is_empty()),
            _ => true,
        })
        .collect();
        if !fits.is_empty() {
            break;
        }
    }
    if fits.is_empty() {
        return "none";
    }
    let at = *src.pick(&fits);
    let mut what = "none";
    match kind {
        0 => {
            let donor = src.pick(&nodes).clone();
            if donor.id != nodes[at].id {
                what = "transplant";
                at_node(&mut e, at, &mut |x| *x = donor.clone());
            }
        }
        1 => {
            let k = match src.below(3) {
                0 => K::Int(src.below(4)),
                1 => K::Bool(src.pct(50)),
                _ => K::Str(Rc::from("s")),
            };
            what = "literal";
            at_node(&mut e, at, &mut |x| x.k = k.clone());
        }
        2 => {
            let cs = children(&nodes[at]);
            if !cs.is_empty() {
                let c = src.pick(&cs).clone();
                what = "hoist";
                at_node(&mut e, at, &mut |x| *x = c.clone());
            }
        }
        3 => {
            at_node(&mut e, at, &mut |x| match &mut x.k {
                K::App(a, b) | K::Bin(_, a, b) => {
                    std::mem::swap(a, b);
                    what = "swap";
                }
                K::If(_, a, b) => {
                    std::mem::swap(a, b);
                    what = "swap branches";
                }
                _ => {}
            });
        }
        4 => {
            let (r1, r2, r3) = (src.below(64) as usize, src.below(64) as usize, src.below(5));
            at_node(&mut e, at, &mut |x| {
                if let K::Match { arms, .. } = &mut x.k {
                    if arms.is_empty() {
                        return;
                    }
                    let (a, b) = (r1 % arms.len(), r2 % arms.len());
                    match r3 {
                        0 => {
                            arms.remove(a);
                            what = "drop arm";
                        }
                        1 if a != b => {
                            let t = arms[a].ctor;
                            arms[a].ctor = arms[b].ctor;
                            arms[b].ctor = t;
                            what = "swap constructors";
                        }
                        2 if a != b => {
                            let t = arms[a].body.clone();
                            arms[a].body = arms[b].body.clone();
                            arms[b].body = t;
                            what = "swap bodies";
                        }
                        3 => {
                            let c = arms[a].clone();
                            arms.push(c);
                            what = "repeat arm";
                        }
                        _ => {
                            if !arms[a].vars.is_empty() {
                                let k = r2 % arms[a].vars.len();
                                arms[a].vars.remove(k);
                                what = "drop variable";
                            }
                        }
                    }
                }
            });
        }
        5 => {
            // use another name
            let mut vars: Vec<B> = Vec::new();
            for x in &nodes {
                if let K::Var(b) = x.k {
                    vars.push(b);
                }
            }
            for (b, bi) in pg.p.binders.iter().enumerate() {
                let near = matches!(bi.kind, BK::Value(_) | BK::Ctor(..));
                if near && src.pct(10) {
                    vars.push(b);
                }
            }
            let leaves: Vec<usize> = nodes.iter().enumerate().filter(|(_, x)| matches!(x.k, K::Var(_))).map(|(i, _)| i).collect();
            if !leaves.is_empty() && !vars.is_empty() {
                let l = *src.pick(&leaves);
                let b = *src.pick(&vars);
                what = "other name";
                at_node(&mut e, l, &mut |x| x.k = K::Var(b));
            }
        }
        6 => {
            at_node(&mut e, at, &mut |x| {
                if let K::Lam { fold, .. } = &mut x.k {
                    *fold = !*fold;
                    what = "toggle fold";
                }
            });
        }
        7 => {
            // another annotation on a local definition
            let tys: Vec<Ty> = nodes.iter().map(|x| x.ty.clone()).filter(|t| !t.has_folded() && !t.has_meta()).collect();
            if !tys.is_empty() {
                let t = src.pick(&tys).clone();
                let mut target = None;
                for x in nodes.iter().skip(at).chain(nodes.iter()) {
                    if let K::Let { b, .. } = x.k {
                        target = Some((b, x.id));
                        break;
                    }
                }
                if let Some((b, id)) = target {
                    if let BK::Value(s) = &mut pg.p.binders[b].kind {
                        s.ty = t;
                        what = "other annotation";
                    }
                    walk_mut(&mut e, &mut |x| {
                        if x.id == id {
                            if let K::Let { ann, .. } = &mut x.k {
                                *ann = true;
                            }
                        }
                    });
                }
            }
        }
        8 => {
            // let-bind or eta-expand a node
            let name = format!("z{}", src.below(3));
            let b = pg.p.fresh(&name, BK::Value(Scheme { vars: vec![], ty: nodes[at].ty.clone() }));
            let id = pg.p.id();
            let how = src.below(4);
            what = "wrap";
            at_node(&mut e, at, &mut |x| {
                let t = x.ty.clone();
                let var = E { id, ty: t.clone(), k: K::Var(b) };
                let inner = x.clone();
                x.k = match how {
                    0 => K::Let { b, ann: false, val: Box::new(inner), body: Box::new(var) },
                    1 => K::Lam { p: b, fold: false, body: Box::new(inner) },
                    2 => K::Lam { p: b, fold: false, body: Box::new(E { id, ty: t.clone(), k: K::App(Box::new(inner), Box::new(var)) }) },
                    _ => K::App(Box::new(E { id, ty: t.clone(), k: K::Lam { p: b, fold: false, body: Box::new(var) } }), Box::new(inner)),
                };
            });
        }
        10 => {
            let scope = scope_at(&e, nodes[at].id, &mut Vec::new()).unwrap_or_default();
            let w = relate(&mut pg.p, &scope, src);
            if let Some((name, val)) = w {
                what = name;
                let b = pg.p.fresh("zw", BK::Value(Scheme { vars: vec![], ty: Ty::Int }));
                let id = pg.p.id();
                at_node(&mut e, at, &mut |x| {
                    let old = x.clone();
                    *x = E { id, ty: old.ty.clone(), k: K::Let { b, ann: false, val: Box::new(val.clone()), body: Box::new(old) } };
                });
            }
        }
        _ => {
            let op = *src.pick(&[Op::Pipe, Op::Lt, Op::Add, Op::Eq]);
            at_node(&mut e, at, &mut |x| {
                if let K::Bin(o, ..) = &mut x.k {
                    if *o != op {
                        *o = op;
                        what = "other operator";
                    }
                }
            });
        }
    }
    let Item::Val(v) = &mut pg.p.modules[m].items[i] else { unreachable!() };
    v.e = e;
    what
}

fn drop_annotations(pg: &mut Program, src: &mut Src, pct: u64) {
    for module in pg.p.modules.iter_mut().filter(|m| !m.std) {
        for it in &mut module.items {
            if let Item::Val(v) = it {
                if src.pct(pct) {
                    v.ann = false;
                }
                walk_mut(&mut v.e, &mut |x| {
                    if let K::Let { ann, .. } = &mut x.k {
                        if src.pct(pct) {
                            *ann = false;
                        }
                    }
                });
            }
        }
    }
}

fn holes_of(t: &Texts, m: &str) -> bool {
    let Some(h) = m.strip_prefix("encountered ?") else { return false };
    let q = format!("?{}", h);
    t.root.contains(&q) || t.files.values().any(|f| f.contains(&q))
}

fn compile_only(t: &Texts) -> Result<bool, String> {
    if !t.errors()?.is_empty() {
        return Ok(false);
    }
    for opt in [false, true] {
        guard(|| t.unit(opt, true).emit_ir()).map_err(|p| format!("invalid core for an accepted program (optimize {}): {}", opt, p))?;
    }
    Ok(true)
}

fn c04(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut cfg = Cfg::default();
    cfg.holes = if src.pct(30) { 4 } else { 0 };
    cfg.unicode = false;
    cfg.fuel = *src.pick(&[16, 8, 26]);
    cfg.poly = 45;
    cfg.shadow = *src.pick(&[20, 60]);
    if src.pct(65) {
        cfg.modules = (0, 0);
    } else {
        cfg.modules = (1, 2);
    }
    let tokens = src.pct(20);
    if tokens {
        cfg.modules = (0, 0);
        cfg.std = 40;
        return token_mutant(src, case, cfg);
    }
    let mut pg = program(src, cfg);
    let bare = src.weighted(&[50, 20, 30]);
    let n = if bare == 2 { src.weighted(&[30, 40, 30]) } else { src.weighted(&[0, 50, 35, 15]) };
    for _ in 0..n {
        let w = mutate(&mut pg, src);
        case.label(w);
    }
    match bare {
        1 => drop_annotations(&mut pg, src, 50),
        2 => drop_annotations(&mut pg, src, 100),
        _ => {}
    }
    // names that are not visible where they ended up cannot be written
    let r = match guard(|| pg.render(&Style::default(), Layout::PLAIN, src)) {
        Ok(r) => r,
        Err(_) => return case.discard(),
    };
    case.text = r.texts.show();
    generated(src);
    // all modules must be fine, an importer only reports its own errors
    for (_, _, laid) in &r.mods {
        let t = Texts { root: laid.text.clone(), files: r.texts.files.clone() };
        if !t.errors()?.is_empty() {
            case.label("rejected");
            return Ok(());
        }
    }
    if !compile_only(&r.texts)? {
        case.label("rejected");
        return Ok(());
    }
    case.label("accepted");
    let mut ev = Eval::new(&pg.p, pg.st, 20_000);
    let want = guard(|| ev.run(pg.root));
    if let Ok(Err(Stop::Fuel)) = want {
        return case.discard();
    }
    case.nontrivial = true;
    case.label_if(bare == 2, "accepted without annotations");
    for opt in [false, true] {
        for run in RUNNERS {
            if opt && run != RUNNERS[(case.index % 3) as usize] {
                continue;
            }
            let out = r.texts.run(run, opt).map_err(|p| format!("evaluation goes wrong on {} (optimize {}): {}", run, opt, p))?;
            match (&out, &want) {
                (Err(m), _) if !holes_of(&r.texts, m) => return Err(format!("trap that is no hole on {} (optimize {}): {}", run, opt, m)),
                (Ok(s), Ok(Ok(w))) if s != w => return Err(format!("accepted program evaluates differently on {} (optimize {}): got\n{}reference\n{}", run, opt, s, w)),
                (Err(m), Ok(Ok(w))) => return Err(format!("unexpected trap on {} (optimize {}): {} reference\n{}", run, opt, m, w)),
                (o, Err(p)) => return Err(format!("accepted program is ill typed: reference evaluation says {}; {} gives {:?}", p, run, o)),
                _ => {}
            }
        }
    }
    Ok(())
}

fn token_mutant(src: &mut Src, case: &mut Case, cfg: Cfg) -> Result<(), String> {
    let pg = program(src, cfg);
    let r = pg.render(&Style::default(), Layout::PLAIN, src);
    let mut toks: Vec<String> = r.root.0.toks.iter().map(|t| t.text.clone()).collect();
    let orig = toks.clone();
    for _ in 0..src.urange(1, 4) {
        if toks.len() < 3 {
            break;
        }
        let i = src.below(toks.len() as u64) as usize;
        let j = src.below(toks.len() as u64) as usize;
        match src.weighted(&[20, 10, 15, 30, 15, 10]) {
            0 => {
                toks.remove(i);
            }
            1 => {
                let t = toks[i].clone();
                toks.insert(i, t);
            }
            2 => toks.swap(i, j),
            3 => toks[i] = toks[j].clone(),
            4 => {
                let t = *src.pick(&["int", "string", "bool", "a", "rec", "fold", "(", ")", "->", "=", "0", "true", "\"\"", ";", "|", "match", "let", "export", "\\", ".", "_", "?h", "b", "(b)", "(int -> a)"]);
                toks[i] = t.to_owned();
            }
            _ => {
                // drop the annotation after a colon
                if let Some(c) = (i..toks.len()).find(|&k| toks[k] == ":") {
                    if let Some(d) = (c..toks.len()).find(|&k| toks[k] == "=") {
                        toks.drain(c..d);
                    }
                }
            }
        }
    }
    let text = toks.join(" ");
    case.text = text.clone();
    case.label("token mutant");
    generated(src);
    let t = Texts::single(&text);
    if !compile_only(&t)? {
        case.label("rejected");
        return Ok(());
    }
    case.label("accepted token mutant");
    case.nontrivial = toks != orig;
    if !text.contains("import") && !text.contains("fold") {
        for run in RUNNERS {
            match t.run(run, false) {
                Err(p) => return Err(format!("evaluation goes wrong on {}: {}", run, p)),
                Ok(Err(m)) if !holes_of(&t, &m) => return Err(format!("trap that is no hole on {}: {}", run, m)),
                _ => {}
            }
        }
    }
    Ok(())
}
