//! Operator grouping.

use crate::ast::*;
use crate::choice::Src;
use crate::engine::{generated, Case, Prop};
use crate::eval::Eval;
use crate::gen::Program;
use crate::infer::Infer;
use crate::print::{Layout, Style};
use crate::sut::{fmt_diags, Texts};
use ticc::{Diagnostic, Runner};

pub const C07: Prop = Prop {
    id: "C07",
    quick: 40000,
    thorough: 500000,
    rule: "the expressions contain three or more binary operators of at least two precedence levels",
    assumptions: &["the tree an operator chain denotes is built by this harness' own precedence climbing from the documented table"],
    f: c07,
};

struct Names {
    ints: Vec<B>,
    bools: Vec<B>,
    f: Vec<B>,
    g: B,
    k: Vec<B>,
    h: B,
    apply: B,
}

struct Ops<'a> {
    p: Prog,
    src: &'a mut Src,
    n: Names,
    ops: usize,
    levels: [bool; 5],
    fresh: usize,
}

impl Ops<'_> {
    fn mk(&mut self, k: K) -> E {
        self.p.mk(Ty::Int, k)
    }
    fn var(&mut self, b: B) -> E {
        self.mk(K::Var(b))
    }
    fn app(&mut self, f: E, a: E) -> E {
        self.mk(K::App(Box::new(f), Box::new(a)))
    }
    fn op(&mut self) -> Op {
        let o = match self.src.weighted(&[10, 10, 10, 6, 6, 6, 5, 10]) {
            0 => Op::Add,
            1 => Op::Sub,
            2 => Op::Mul,
            3 => Op::Div,
            4 => Op::Mod,
            5 => *self.src.pick(&[Op::Lt, Op::Gt, Op::Le, Op::Ge]),
            6 => *self.src.pick(&[Op::Eq, Op::Ne]),
            _ => Op::Pipe,
        };
        o
    }
    /// An operand that needs no parentheses (or, rarely, does).
    fn operand(&mut self, depth: usize) -> E {
        if depth > 0 && self.src.pct(14) {
            return self.any(depth - 1);
        }
        match self.src.weighted(&[44, 32, 8, 8, 7, 1]) {
            0 => {
                let v = match self.src.below(3) {
                    0 => self.src.below(10),
                    1 => self.src.below(1000),
                    _ => self.src.int(),
                };
                self.mk(K::Int(v))
            }
            1 => {
                let b = *self.src.pick(&self.n.ints.clone());
                self.var(b)
            }
            2 => {
                let f = *self.src.pick(&self.n.f.clone());
                let f = self.var(f);
                let a = self.operand(depth.saturating_sub(1));
                self.app(f, a)
            }
            3 => {
                let g = self.var(self.n.g);
                let a = self.operand(depth.saturating_sub(1));
                let b = self.operand(depth.saturating_sub(1));
                let ga = self.app(g, a);
                self.app(ga, b)
            }
            4 => {
                let h = self.var(self.n.h);
                let a = if self.src.pct(50) {
                    let b = *self.src.pick(&self.n.bools.clone());
                    self.var(b)
                } else {
                    let a = self.operand(depth.saturating_sub(1));
                    let k = *self.src.pick(&self.n.k.clone());
                    let k = self.var(k);
                    self.app(k, a)
                };
                self.app(h, a)
            }
            _ => {
                let b = *self.src.pick(&self.n.bools.clone());
                self.var(b)
            }
        }
    }
    /// What may follow `|>`.
    fn callee(&mut self, depth: usize) -> E {
        match self.src.weighted(&[40, 25, 15, 10, 10]) {
            0 => {
                let b = *self.src.pick(&self.n.f.clone());
                self.var(b)
            }
            1 => {
                let g = self.var(self.n.g);
                let a = self.operand(depth.saturating_sub(1));
                self.app(g, a)
            }
            2 => {
                let b = *self.src.pick(&self.n.k.clone());
                self.var(b)
            }
            3 => self.var(self.n.h),
            _ => {
                let a = self.var(self.n.apply);
                let b = *self.src.pick(&self.n.f.clone());
                let b = self.var(b);
                self.app(a, b)
            }
        }
    }
    fn chain(&mut self, depth: usize) -> E {
        let n = self.src.urange(1, 6);
        let mut operands = vec![self.operand(depth)];
        let mut ops = Vec::new();
        let mut compared = false;
        let typed = self.src.pct(88);
        let mut piped = false;
        for _ in 0..n {
            let mut o = self.op();
            if typed && piped {
                o = Op::Pipe;
            }
            piped |= o == Op::Pipe;
            // two comparisons in one chain are ill typed: keep them rare
            if matches!(o.prec(), 2) {
                if compared && self.src.pct(85) {
                    o = Op::Add;
                }
                compared = true;
            }
            self.ops += 1;
            self.levels[o.prec() as usize] = true;
            let x = if o == Op::Pipe {
                if compared && self.src.pct(85) {
                    compared = false;
                    self.var(self.n.h)
                } else {
                    self.callee(depth)
                }
            } else {
                self.operand(depth)
            };
            ops.push(o);
            operands.push(x);
        }
        // shunting yard
        let mut out: Vec<E> = vec![operands[0].clone()];
        let mut stack: Vec<Op> = Vec::new();
        for (o, x) in ops.into_iter().zip(operands.into_iter().skip(1)) {
            while let Some(&t) = stack.last() {
                if t.prec() < o.prec() {
                    break;
                }
                stack.pop();
                self.reduce(&mut out, t);
            }
            stack.push(o);
            out.push(x);
        }
        while let Some(t) = stack.pop() {
            self.reduce(&mut out, t);
        }
        out.pop().unwrap()
    }
    fn reduce(&mut self, out: &mut Vec<E>, o: Op) {
        let b = out.pop().unwrap();
        let a = out.pop().unwrap();
        let e = self.mk(K::Bin(o, Box::new(a), Box::new(b)));
        out.push(e);
    }
    fn local(&mut self) -> B {
        self.fresh += 1;
        let name = format!("l{}", self.fresh);
        self.p.fresh(&name, BK::Value(Scheme { vars: vec![], ty: Ty::Int }))
    }
    fn any(&mut self, depth: usize) -> E {
        if depth == 0 {
            return self.chain(0);
        }
        match self.src.weighted(&[55, 15, 12, 10, 8]) {
            0 => self.chain(depth - 1),
            1 => {
                let a = self.any(depth - 1);
                let c = if self.src.pct(60) {
                    let x = self.operand(0);
                    let y = self.operand(0);
                    self.mk(K::Bin(Op::Lt, Box::new(x), Box::new(y)))
                } else {
                    self.any(depth - 1)
                };
                let b = self.any(depth - 1);
                self.mk(K::If(Box::new(c), Box::new(a), Box::new(b)))
            }
            2 => {
                let val = self.any(depth - 1);
                let b = self.local();
                let keep = self.n.ints.len();
                self.n.ints.push(b);
                let body = self.any(depth - 1);
                self.n.ints.truncate(keep);
                self.mk(K::Let { b, ann: false, val: Box::new(val), body: Box::new(body) })
            }
            3 => {
                // (\x -> ...) a
                let b = self.local();
                let keep = self.n.ints.len();
                self.n.ints.push(b);
                let body = self.any(depth - 1);
                self.n.ints.truncate(keep);
                let lam = self.mk(K::Lam { p: b, fold: false, body: Box::new(body) });
                let a = self.operand(depth - 1);
                if self.src.pct(50) {
                    self.app(lam, a)
                } else {
                    self.mk(K::Bin(Op::Pipe, Box::new(a), Box::new(lam)))
                }
            }
            _ => {
                let b = self.local();
                let keep = self.n.ints.len();
                self.n.ints.push(b);
                let body = self.any(depth - 1);
                self.n.ints.truncate(keep);
                self.mk(K::Lam { p: b, fold: false, body: Box::new(body) })
            }
        }
    }
}

/// Severity, message and the place without parentheses and blanks.
fn plain(t: &Texts, ds: &[Diagnostic]) -> Vec<String> {
    let mut v: Vec<String> = ds
        .iter()
        .map(|d| {
            let s = t.root.get(d.span.start().source_pos()..d.span.end().source_pos()).unwrap_or("<bad span>");
            let s: String = s.chars().filter(|c| !"() \n".contains(*c)).collect();
            format!("{:?} {} at {}", d.severity, d.message, s)
        })
        .collect();
    v.sort();
    v
}

fn c07(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let (mut p, st) = crate::stdlib::base();
    p.modules.push(Module { path: "root".into(), std: false, items: Vec::new() });
    let root = p.modules.len() - 1;
    let mut o = Ops {
        p,
        src,
        n: Names { ints: vec![], bools: vec![], f: vec![], g: 0, k: vec![], h: 0, apply: 0 },
        ops: 0,
        levels: [false; 5],
        fresh: 0,
    };
    let int = Ty::Int;
    let mut items: Vec<(B, E)> = Vec::new();
    let add = |o: &mut Ops, items: &mut Vec<(B, E)>, name: &str, ty: Ty, e: E| -> B {
        let b = o.p.fresh(name, BK::Value(Scheme { vars: vec![], ty }));
        items.push((b, e));
        b
    };
    for name in ["x", "y"] {
        let v = o.src.int();
        let e = o.mk(K::Int(v));
        let b = add(&mut o, &mut items, name, int.clone(), e);
        o.n.ints.push(b);
    }
    let v = o.src.pct(50);
    let e = o.mk(K::Bool(v));
    let b = add(&mut o, &mut items, "t", Ty::Bool, e);
    o.n.bools.push(b);
    let lam = |o: &mut Ops, body: &dyn Fn(&mut Ops, E) -> E| -> E {
        let p = o.local();
        let v = o.var(p);
        let body = body(o, v);
        o.mk(K::Lam { p, fold: false, body: Box::new(body) })
    };
    let c = o.src.below(50);
    let e = lam(&mut o, &|o, v| {
        let three = o.mk(K::Int(3));
        let m = o.mk(K::Bin(Op::Mul, Box::new(v), Box::new(three)));
        let c = o.mk(K::Int(c));
        o.mk(K::Bin(Op::Add, Box::new(m), Box::new(c)))
    });
    let b = add(&mut o, &mut items, "f", Ty::func(int.clone(), int.clone()), e);
    o.n.f.push(b);
    let e = lam(&mut o, &|o, a| {
        let p = o.local();
        let v = o.var(p);
        let two = o.mk(K::Int(2));
        let m = o.mk(K::Bin(Op::Mul, Box::new(a), Box::new(two)));
        let body = o.mk(K::Bin(Op::Sub, Box::new(m), Box::new(v)));
        o.mk(K::Lam { p, fold: false, body: Box::new(body) })
    });
    o.n.g = add(&mut o, &mut items, "g", Ty::funcs(&[int.clone(), int.clone()], int.clone()), e);
    let e = lam(&mut o, &|o, v| {
        let c = o.mk(K::Int(c * 4));
        o.mk(K::Bin(Op::Lt, Box::new(v), Box::new(c)))
    });
    let b = add(&mut o, &mut items, "k", Ty::func(int.clone(), Ty::Bool), e);
    o.n.k.push(b);
    let e = lam(&mut o, &|o, v| {
        let a = o.mk(K::Int(11));
        let b = o.mk(K::Int(4));
        o.mk(K::If(Box::new(v), Box::new(a), Box::new(b)))
    });
    o.n.h = add(&mut o, &mut items, "h", Ty::func(Ty::Bool, int.clone()), e);
    let e = lam(&mut o, &|o, f| {
        let p = o.local();
        let v = o.var(p);
        let one = o.app(f.clone(), v);
        let body = o.app(f, one);
        o.mk(K::Lam { p, fold: false, body: Box::new(body) })
    });
    let ii = Ty::func(int.clone(), int.clone());
    o.n.apply = add(&mut o, &mut items, "twice", Ty::func(ii.clone(), ii), e);
    for (b, e) in items {
        o.p.modules[root].items.push(Item::Val(ValDecl { b, ann: true, export: false, e }));
    }
    let n = o.src.urange(1, 2);
    let mut well = true;
    for i in 0..n {
        let depth = o.src.urange(0, 3);
        let e = o.any(depth);
        let name = format!("r{}", i);
        let b = o.p.fresh(&name, BK::Value(Scheme { vars: vec![], ty: Ty::Int }));
        let mut v = ValDecl { b, ann: false, export: true, e };
        match Infer::new(&o.p).value(&v) {
            Ok((t, _)) if !t.has_meta() => {
                o.p.binders[b].kind = BK::Value(Scheme { vars: vec![], ty: t });
                v.ann = o.src.pct(50);
            }
            Ok(_) => {}
            Err(_) => well = false,
        }
        o.p.modules[root].items.push(Item::Val(v));
    }
    let (ops, levels) = (o.ops, o.levels.iter().filter(|x| **x).count());
    let pg = Program { p: o.p, st, root };
    let styles = [
        Style { parens: 0, qual: 0, snap: false, full: false, zeros: false },
        Style { parens: 0, qual: 0, snap: false, full: true, zeros: false },
        Style { parens: 40, qual: 0, snap: false, full: false, zeros: false },
    ];
    let texts: Vec<Texts> = styles.iter().map(|s| pg.render(s, Layout::PLAIN, src).texts).collect();
    case.text = texts[0].show();
    case.nontrivial = ops >= 3 && levels >= 2;
    case.label_if(!well, "ill typed");
    generated(src);
    let mut first: Option<Vec<String>> = None;
    for (t, what) in texts.iter().zip(["minimal", "fully parenthesized", "redundant"]) {
        let ds = t.diagnostics()?;
        let errs: Vec<Diagnostic> = t.errors()?;
        if well && !errs.is_empty() {
            return Err(format!("{} form of a well-typed expression rejected: {}\n{}", what, fmt_diags(&t.root, &errs), t.root));
        }
        if !well && errs.is_empty() {
            return Err(format!("{} form of an ill-typed expression accepted: {}", what, t.root));
        }
        let d = plain(t, &ds);
        match &first {
            None => first = Some(d),
            Some(f) if *f != d => return Err(format!("parentheses change the diagnostics: {} {:?} instead of {:?}\n{}", what, d, f, t.root)),
            _ => {}
        }
    }
    if well {
        let want = Eval::new(&pg.p, pg.st, 100_000).run(root).map_err(|_| ()).unwrap_or_default();
        for (t, what) in texts.iter().zip(["minimal", "fully parenthesized", "redundant"]) {
            match t.run(Runner::Treewalk, false) {
                Ok(Ok(s)) if s == want => {}
                other => return Err(format!("wrong value for the {} form: {:?} instead of {:?}\n{}", what, other, want, t.root)),
            }
        }
    }
    Ok(())
}
