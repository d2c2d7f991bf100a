//! The verifier of the intermediate representation: well-formed programs
//! pass, programs with one thing wrong do not.

use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::irgen::{self, Shape};
use ticc_core::ir::{self, Expr, Name, Ty, TyVar};

pub const C27: Prop = Prop {
    id: "C27",
    quick: 60000,
    thorough: 3000000,
    rule: "a well-formed program of 10 or more printed lines, verified as it is and with one defect put somewhere into it",
    assumptions: &[
        "whether a match has a branch for every constructor is not what the verifier is about: no such program is generated",
        "rejection is a panic, as everywhere the verifier is used",
    ],
    f: c27,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Pos {
    Callee,
    /// under a type application
    Inst,
    Other,
}

struct Site {
    def: usize,
    idx: usize,
    /// a change of this expression's type cannot go unnoticed
    here: bool,
    flow: bool,
    pos: Pos,
    scope: Vec<Name>,
    tyscope: Vec<TyVar>,
}

fn kids(e: &Expr) -> Vec<&Expr> {
    match e {
        Expr::Bool(_) | Expr::Int(_) | Expr::String(_) | Expr::Name(_) | Expr::Trap(..) => vec![],
        Expr::Call(f, xs) => std::iter::once(&**f).chain(xs).collect(),
        Expr::If(a, b, c) => vec![a, b, c],
        Expr::Op(a, _, b) => vec![a, b],
        Expr::Intrinsic(_, xs) | Expr::Construct(_, _, xs) => xs.iter().collect(),
        Expr::Lambda(_, b) => vec![b],
        Expr::Match(d, bs) => std::iter::once(&**d).chain(bs.iter().map(|b| &b.value)).collect(),
        Expr::Let(_, a, b) | Expr::LetRec(_, _, a, b) => vec![a, b],
        Expr::Pi(_, b) | Expr::PiApply(b, _) => vec![b],
    }
}

fn kids_mut(e: &mut Expr) -> Vec<&mut Expr> {
    match e {
        Expr::Bool(_) | Expr::Int(_) | Expr::String(_) | Expr::Name(_) | Expr::Trap(..) => vec![],
        Expr::Call(f, xs) => std::iter::once(&mut **f).chain(xs).collect(),
        Expr::If(a, b, c) => vec![a, b, c],
        Expr::Op(a, _, b) => vec![a, b],
        Expr::Intrinsic(_, xs) | Expr::Construct(_, _, xs) => xs.iter_mut().collect(),
        Expr::Lambda(_, b) => vec![b],
        Expr::Match(d, bs) => std::iter::once(&mut **d).chain(bs.iter_mut().map(|b| &mut b.value)).collect(),
        Expr::Let(_, a, b) | Expr::LetRec(_, _, a, b) => vec![a, b],
        Expr::Pi(_, b) | Expr::PiApply(b, _) => vec![b],
    }
}

fn nth(e: &mut Expr, n: &mut usize, f: &mut dyn FnMut(&mut Expr)) -> bool {
    if *n == 0 {
        f(e);
        return true;
    }
    *n -= 1;
    kids_mut(e).into_iter().any(|k| nth(k, n, f))
}

struct Walk {
    def: usize,
    next: usize,
    env: Vec<Name>,
    tyenv: Vec<TyVar>,
    sites: Vec<Site>,
    binders: Vec<Name>,
    tybinders: Vec<TyVar>,
}

impl Walk {
    fn go(&mut self, e: &Expr, here: bool, flow: bool, pos: Pos) {
        let scope = if matches!(e, Expr::Name(_)) { self.env.clone() } else { Vec::new() };
        self.sites.push(Site { def: self.def, idx: self.next, here, flow, pos, scope, tyscope: self.tyenv.clone() });
        self.next += 1;
        let depth = self.env.len();
        match e {
            Expr::Call(f, xs) => {
                self.go(f, false, flow, Pos::Callee);
                xs.iter().for_each(|x| self.go(x, true, true, Pos::Other));
            }
            Expr::Lambda(ps, b) => {
                self.env.extend(ps.iter().map(|p| p.name));
                self.binders.extend(ps.iter().map(|p| p.name));
                self.go(b, flow, flow, Pos::Other);
            }
            Expr::Match(d, bs) => {
                self.go(d, true, true, Pos::Other);
                for b in bs {
                    self.env.extend(&b.bindings);
                    self.binders.extend(&b.bindings);
                    if bs.len() > 1 {
                        self.go(&b.value, true, true, Pos::Other);
                    } else {
                        self.go(&b.value, here, flow, pos);
                    }
                    self.env.truncate(depth);
                }
            }
            Expr::Let(n, a, b) => {
                self.go(a, false, false, Pos::Other);
                self.env.push(*n);
                self.binders.push(*n);
                self.go(b, here, flow, pos);
            }
            Expr::LetRec(n, _, a, b) => {
                self.env.push(*n);
                self.binders.push(*n);
                self.go(a, true, true, Pos::Other);
                self.go(b, here, flow, pos);
            }
            Expr::Pi(v, b) => {
                self.tybinders.push(*v);
                self.tyenv.push(*v);
                self.go(b, flow, flow, Pos::Other);
                self.tyenv.pop();
            }
            Expr::PiApply(b, _) => self.go(b, true, flow, Pos::Inst),
            _ => kids(e).into_iter().for_each(|k| self.go(k, true, true, Pos::Other)),
        }
        self.env.truncate(depth);
    }
}

fn count_ty(t: &Ty) -> usize {
    1 + match t {
        Ty::Named(_, xs) => xs.iter().map(count_ty).sum(),
        Ty::Fn(ps, r) => ps.iter().map(count_ty).sum::<usize>() + count_ty(r),
        Ty::Abs(_, t) => count_ty(t),
        _ => 0,
    }
}

fn nth_ty(t: &mut Ty, n: &mut usize, f: &mut dyn FnMut(&mut Ty)) -> bool {
    if *n == 0 {
        f(t);
        return true;
    }
    *n -= 1;
    match t {
        Ty::Named(_, xs) => xs.iter_mut().any(|x| nth_ty(x, n, f)),
        Ty::Fn(ps, r) => ps.iter_mut().any(|x| nth_ty(x, n, f)) || nth_ty(r, n, f),
        Ty::Abs(_, b) => nth_ty(b, n, f),
        _ => false,
    }
}

/// Makes the written type one that does not exist.
fn spoil(src: &mut Src, t: &mut Ty, alien: TyVar) -> &'static str {
    let mut k = src.us(count_ty(t));
    let (more, fewer) = (src.pct(40), src.pct(50));
    let mut what = "type variable not in scope";
    nth_ty(t, &mut k, &mut |t| match t {
        Ty::Named(_, xs) if more => {
            if fewer && !xs.is_empty() {
                xs.pop();
            } else {
                xs.push(Ty::Int);
            }
            what = "number of type arguments";
        }
        _ => *t = Ty::Var(alien),
    });
    what
}

/// A type variable that means nothing here: one never bound, or one that
/// another type definition or another place in the program binds.
fn stranger(src: &mut Src, p: &mut ir::Program<'static>, binders: &[TyVar], seen: &[TyVar]) -> TyVar {
    let defined = p.types.iter().flat_map(|t| t.vars.iter().copied());
    let known: Vec<TyVar> = defined.chain(binders.iter().copied()).filter(|v| !seen.contains(v)).collect();
    if known.is_empty() || src.pct(40) {
        return p.ty.next();
    }
    *src.pick(&known)
}

fn later(t: &Ty) -> Ty {
    Ty::Fn(vec![Ty::Int], Box::new(t.clone()))
}

/// One defect; what it is.
fn wreck(src: &mut Src, p: &mut ir::Program<'static>) -> Option<&'static str> {
    let mut w = Walk { def: 0, next: 0, env: Vec::new(), tyenv: Vec::new(), sites: Vec::new(), binders: Vec::new(), tybinders: Vec::new() };
    for (i, d) in p.defs.iter().enumerate() {
        w.def = i;
        w.next = 0;
        w.go(&d.value, true, true, Pos::Other);
        w.env.push(d.name);
        w.binders.push(d.name);
    }
    // definitions and types
    match src.weighted(&[88, 4, 3, 3, 2]) {
        1 => {
            let i = src.us(p.defs.len());
            let d = &mut p.defs[i];
            d.ty = later(&d.ty);
            return Some("type of a definition");
        }
        2 => {
            let i = src.us(p.defs.len());
            let v = stranger(src, p, &w.tybinders, &[]);
            return Some(spoil(src, &mut p.defs[i].ty, v));
        }
        3 if !p.types.is_empty() => {
            let i = src.us(p.types.len());
            let own = p.types[i].vars.clone();
            let v = stranger(src, p, &w.tybinders, &own);
            let all: usize = p.types[i].cases.iter().map(|c| c.fields.len()).sum();
            if all > 0 {
                let mut k = src.us(all);
                for c in &mut p.types[i].cases {
                    if k < c.fields.len() {
                        return Some(spoil(src, &mut c.fields[k], v));
                    }
                    k -= c.fields.len();
                }
            }
        }
        4 if p.defs.len() > 1 => {
            let n = p.defs[0].name;
            p.defs.last_mut().unwrap().name = n;
            return Some("definition made twice");
        }
        _ => {}
    }
    for _ in 0..40 {
        let s = &w.sites[src.us(w.sites.len())];
        let (here, flow, pos) = (s.here, s.flow, s.pos);
        let mut what = None;
        // outside names that the place does not see
        let strange: Vec<Name> = w.binders.iter().copied().filter(|b| !s.scope.contains(b)).collect();
        let bound: Vec<Name> = w.binders.clone();
        let tybound = w.tybinders.clone();
        let fresh = p.names.new_fresh("u");
        let unbound = p.ty.next();
        let alien = stranger(src, p, &w.tybinders, &s.tyscope);
        let tydefs = p.types.clone();
        let def = s.def;
        let mut idx = s.idx;
        let choice = src.us(4);
        let at = src.us(8);
        let body = &mut p.defs[def].value;
        let mut change = |e: &mut Expr| {
            let lit = |e: &Expr| matches!(e, Expr::Bool(_) | Expr::Int(_) | Expr::String(_));
            let take = |e: &mut Expr| std::mem::replace(e, Expr::Int(0));
            match (choice, &mut *e) {
                (0, _) if here => {
                    let x = Box::new(take(e));
                    *e = match at % 3 {
                        0 | 1 => Expr::Lambda(vec![ir::LambdaParam { name: fresh, ty: Ty::Int }], x),
                        _ if pos == Pos::Inst && !flow => Expr::Lambda(vec![ir::LambdaParam { name: fresh, ty: Ty::Int }], x),
                        _ => Expr::Pi(unbound, x),
                    };
                    what = Some("type of an expression");
                }
                (_, Expr::Bool(_) | Expr::Int(_) | Expr::String(_)) if here => {
                    if choice == 1 {
                        let x = Box::new(take(e));
                        *e = Expr::PiApply(x, Ty::Int);
                        what = Some("type argument to what takes none");
                    } else if choice == 2 {
                        let x = Box::new(take(e));
                        *e = Expr::Call(x, vec![Expr::Int(1)]);
                        what = Some("call of what is no function");
                    } else {
                        *e = match e {
                            Expr::Int(_) => {
                                if at % 2 == 0 {
                                    Expr::Bool(true)
                                } else {
                                    Expr::String(vec![b'a'].into())
                                }
                            }
                            Expr::Bool(_) => Expr::String(vec![b'a'].into()),
                            _ => Expr::Int(3),
                        };
                        what = Some("literal of another type");
                    }
                }
                (_, Expr::Name(n)) => {
                    if choice == 1 || strange.is_empty() {
                        *n = fresh;
                        what = Some("unbound name");
                    } else if choice == 2 && !tydefs.is_empty() {
                        let t = &tydefs[at % tydefs.len()];
                        *n = if at % 2 == 0 { t.name } else { t.cases[at % t.cases.len()].name };
                        what = Some("type or constructor as a value");
                    } else {
                        *n = strange[(at * 7919) % strange.len()];
                        what = Some("name not in scope");
                    }
                }
                (1, Expr::Call(f, _)) => {
                    if matches!(**f, Expr::Name(_) | Expr::Call(..)) || !lit(f) {
                        **f = Expr::Int(7);
                    }
                    what = Some("call of what is no function");
                }
                (2, Expr::Call(_, xs)) if !xs.is_empty() => {
                    xs.pop();
                    what = Some("too few arguments");
                }
                (_, Expr::Call(_, xs)) => {
                    xs.push(Expr::Int(0));
                    what = Some("too many arguments");
                }
                (_, Expr::Op(_, o, _)) => {
                    if here && choice == 1 {
                        *o = match o {
                            ir::Op::Add | ir::Op::Subtract | ir::Op::Multiply | ir::Op::Divide | ir::Op::Modulo => [ir::Op::Less, ir::Op::LessEq, ir::Op::Greater, ir::Op::GreaterEq, ir::Op::Equal, ir::Op::NotEqual][at % 6],
                            _ => [ir::Op::Add, ir::Op::Subtract, ir::Op::Multiply, ir::Op::Divide, ir::Op::Modulo][at % 5],
                        };
                        what = Some("operator of another type");
                    } else {
                        let x = Box::new(take(e));
                        *e = Expr::PiApply(x, Ty::Int);
                        what = Some("type argument to what takes none");
                    }
                }
                (_, Expr::Intrinsic(i, xs)) => {
                    use ir::Intrinsic::*;
                    let all = [(StringLen, "s", 'i'), (StringConcat, "ss", 's'), (StringCharAt, "is", 'i'), (StringSubstring, "iis", 's'), (StringFromChar, "i", 's'), (IntToString, "i", 's')];
                    let mine = all.iter().find(|x| x.0 == *i).unwrap();
                    let other = all[at % 6];
                    if choice == 1 {
                        xs.pop();
                        what = Some("too few arguments");
                    } else if choice == 2 {
                        xs.push(Expr::String(vec![].into()));
                        what = Some("too many arguments");
                    } else if other.1 != mine.1 || (here && other.2 != mine.2) {
                        *i = other.0;
                        what = Some("another intrinsic");
                    }
                }
                (1, Expr::Lambda(ps, _)) if here && !ps.is_empty() => {
                    let k = at % ps.len();
                    ps[k].ty = later(&ps[k].ty);
                    what = Some("type of a parameter");
                }
                (2, Expr::Lambda(ps, _)) if here => {
                    ps.push(ir::LambdaParam { name: fresh, ty: Ty::Int });
                    what = Some("one more parameter");
                }
                (_, Expr::Lambda(ps, _)) if !ps.is_empty() => {
                    let k = at % ps.len();
                    let others: Vec<Name> = bound.iter().copied().filter(|b| *b != ps[k].name).collect();
                    if !others.is_empty() {
                        ps[k].name = others[(at * 31) % others.len()];
                        what = Some("name bound twice");
                    }
                }
                (1, Expr::Match(_, bs)) => {
                    let k = at % bs.len();
                    bs[k].bindings.push(fresh);
                    what = Some("too many fields in a branch");
                }
                (2, Expr::Match(_, bs)) => {
                    let k = at % bs.len();
                    if bs[k].bindings.pop().is_some() {
                        what = Some("too few fields in a branch");
                    } else {
                        bs.clear();
                        what = Some("match without branches");
                    }
                }
                (3, Expr::Match(_, bs)) => {
                    let k = at % bs.len();
                    let i = tydefs.iter().position(|t| t.cases.iter().any(|x| x.name == bs[k].ctor));
                    let others: Vec<Name> = tydefs.iter().enumerate().filter(|t| Some(t.0) != i).flat_map(|t| t.1.cases.iter()).filter(|c| c.fields.len() == bs[k].bindings.len()).map(|c| c.name).collect();
                    if !others.is_empty() {
                        bs[k].ctor = others[at % others.len()];
                        what = Some("branch for another type");
                    } else if bs[k].bindings.len() > 1 {
                        bs[k].bindings[1] = bs[k].bindings[0];
                        what = Some("name bound twice");
                    }
                }
                (1, Expr::Construct(_, _, xs)) => {
                    xs.push(Expr::Int(0));
                    what = Some("too many fields");
                }
                (2, Expr::Construct(_, ts, _)) => {
                    if at % 2 == 0 && !ts.is_empty() {
                        ts.pop();
                    } else {
                        ts.push(Ty::Int);
                    }
                    what = Some("number of type arguments");
                }
                (_, Expr::Construct(c, ts, xs)) => {
                    let mine = own_of(&tydefs, *c);
                    // another type's constructor that could be filled the same
                    let others: Vec<Name> = tydefs
                        .iter()
                        .enumerate()
                        .filter(|t| here && Some(t.0) != mine && t.1.vars.len() == ts.len())
                        .flat_map(|t| t.1.cases.iter())
                        .filter(|k| k.fields.len() == xs.len())
                        .map(|k| k.name)
                        .collect();
                    if !others.is_empty() {
                        *c = others[at % others.len()];
                        what = Some("constructor of another type");
                    } else if xs.pop().is_some() {
                        what = Some("too few fields");
                    }
                }
                (1, Expr::Let(n, ..)) | (1, Expr::LetRec(n, ..)) => {
                    let others: Vec<Name> = bound.iter().copied().filter(|b| b != n).collect();
                    if !others.is_empty() {
                        *n = others[(at * 31) % others.len()];
                        what = Some("name bound twice");
                    }
                }
                (2, Expr::LetRec(_, t, ..)) => {
                    *t = later(t);
                    what = Some("type of a recursive function");
                }
                (_, Expr::PiApply(x, _)) if (here && pos != Pos::Inst) || pos == Pos::Callee => {
                    let x = std::mem::replace(&mut **x, Expr::Int(0));
                    *e = x;
                    what = Some("missing type argument");
                }
                (_, Expr::Pi(v, _)) if tybound.len() > 1 => {
                    let others: Vec<TyVar> = tybound.iter().copied().filter(|b| b != v).collect();
                    *v = others[(at * 31) % others.len()];
                    what = Some("type variable bound twice");
                }
                _ => {}
            }
        };
        nth(body, &mut idx, &mut change);
        if what.is_some() {
            return what;
        }
        // types that are written down
        let mut idx = s.idx;
        let mut what = None;
        nth(&mut p.defs[def].value, &mut idx, &mut |e| match e {
            Expr::Lambda(ps, _) if !ps.is_empty() => {
                let k = at % ps.len();
                what = Some(spoil(src, &mut ps[k].ty, alien));
            }
            Expr::LetRec(_, t, ..) | Expr::Trap(_, t) => what = Some(spoil(src, t, alien)),
            Expr::PiApply(_, t) => {
                spoil(src, t, alien);
                what = Some("type argument that is no type");
            }
            Expr::Construct(_, ts, _) if !ts.is_empty() => {
                let k = at % ts.len();
                spoil(src, &mut ts[k], alien);
                what = Some("type argument that is no type");
            }
            _ => {}
        });
        if what.is_some() {
            return what;
        }
    }
    None
}

fn own_of(tydefs: &[ir::TyDef], c: Name) -> Option<usize> {
    tydefs.iter().position(|t| t.cases.iter().any(|x| x.name == c))
}

fn c27(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let size = *src.pick(&[6, 15, 30, 60]);
    let traps = if src.pct(30) { 4 } else { 0 };
    let nullary = src.pct(10);
    let mut p = irgen::program(src, Shape { size, traps, nullary });
    let show = |p: &ir::Program<'_>| format!("{}{}", p.types.iter().map(|t| format!("{:?}\n", t)).collect::<String>(), ticc_core::pretty_print(p));
    case.text = guard(|| show(&p))?;
    case.nontrivial = case.text.lines().count() >= 10;
    guard(|| ticc_core::assert_valid(&p)).map_err(|e| format!("well-formed program is rejected: {}", e))?;
    // expressions to be evaluated in its scope
    let mut values: Vec<(Expr, Ty)> = p.defs.iter().map(|d| (Expr::Name(d.name), d.ty.clone())).collect();
    guard(|| ticc_core::assert_valid_with_values(&p, &values)).map_err(|e| format!("well-formed values are rejected: {}", e))?;
    let what = if src.pct(8) {
        let i = src.us(values.len());
        let what = match src.us(3) {
            0 => {
                values[i].1 = later(&values[i].1);
                "type of a value"
            }
            1 => {
                values[i].0 = Expr::Name(p.names.new_fresh("v"));
                "unbound name in a value"
            }
            _ => {
                values[i].0 = Expr::PiApply(Box::new(Expr::Int(1)), Ty::Int);
                values[i].1 = Ty::Int;
                "type argument to a value"
            }
        };
        generated(src);
        if guard(|| ticc_core::assert_valid_with_values(&p, &values)).is_ok() {
            return Err(format!("ill-formed value is accepted: {} {:?}", what, values[i]));
        }
        what
    } else {
        let Some(what) = wreck(src, &mut p) else { return case.discard() };
        generated(src);
        case.text = guard(|| show(&p))?;
        if guard(|| ticc_core::assert_valid(&p)).is_ok() {
            return Err(format!("ill-formed program is accepted: {}", what));
        }
        what
    };
    case.label(what);
    Ok(())
}
