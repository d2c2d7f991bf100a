//! Type-directed generator of well-typed programs.

use crate::ast::*;
use crate::choice::Src;
use crate::scope::Scope;
use crate::stdlib::{self, StdTypes, STD};
use std::rc::Rc;

#[derive(Clone)]
pub struct Cfg {
    pub modules: (usize, usize),
    pub items: (usize, usize),
    pub fuel: usize,
    /// percent of modules importing std modules
    pub std: u64,
    /// percent per expression
    pub holes: u64,
    /// percent of inferable annotations left out
    pub omit: u64,
    /// percent of names taken from those already visible
    pub shadow: u64,
    /// percent of value definitions exported
    pub export: u64,
    pub folds: bool,
    pub poly: u64,
    /// unused definitions are as likely as used ones
    pub types: (usize, usize),
    /// names of values may look like those of constructors and vice versa
    pub odd_names: u64,
    /// string literals may contain non-ASCII text
    pub unicode: bool,
    /// root also exports `main : string -> string`
    pub main: bool,
    /// avoid exporting values whose type contains arrays
    pub show: bool,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            modules: (0, 2),
            items: (1, 6),
            fuel: 22,
            std: 55,
            holes: 0,
            omit: 35,
            shadow: 35,
            export: 70,
            folds: true,
            poly: 30,
            types: (0, 2),
            odd_names: 4,
            unicode: true,
            main: false,
            show: true,
        }
    }
}

pub struct Gen<'a> {
    pub p: Prog,
    pub st: StdTypes,
    pub src: &'a mut Src,
    pub cfg: Cfg,
    pub scope: Scope,
    m: usize,
    counter: usize,
    depth: usize,
    /// generation steps left for the current item
    budget: usize,
}

const VALUE_NAMES: &[&str] = &["x", "y", "z", "f", "g", "h", "n", "acc", "xs", "foo", "bar_1", "_u", "x2", "letter", "endx", "if_", "typed", "A", "r", "t", "fn", "in"];
const TYPE_NAMES: &[&str] = &["T", "U", "Tree", "Box", "Pair", "Shape", "list", "Wrap", "E", "In"];
const CTOR_NAMES: &[&str] = &["A", "B", "C", "Leaf", "Node", "MkT", "D", "Zero", "Succ", "Branch", "F", "G", "Some", "Nil", "c0"];
const TV_NAMES: &[&str] = &["a", "b", "c", "t", "elem", "k", "rest", "x1"];

/// Types of simple size used when nothing restricts the choice.
impl<'a> Gen<'a> {
    pub fn new(src: &'a mut Src, cfg: Cfg) -> Gen<'a> {
        let (p, st) = stdlib::base();
        Gen { p, st, src, cfg, scope: Scope::default(), m: 0, counter: 0, depth: 0, budget: 0 }
    }

    // ------------------------------------------------------------ names

    fn value_name(&mut self) -> String {
        if self.src.pct(self.cfg.shadow) {
            let vis = self.scope.visible(&self.p, Ns::Value);
            if !vis.is_empty() && self.src.pct(50) {
                let b = *self.src.pick(&vis);
                if !self.is_odd(b) || self.src.pct(self.cfg.odd_names * 5) {
                    return self.p.name(b).to_owned();
                }
            }
            return (*self.src.pick(VALUE_NAMES)).to_owned();
        }
        self.counter += 1;
        let base = ["v", "w", "q", "_p", "loop"][self.src.weighted(&[60, 15, 10, 8, 7])];
        format!("{}{}", base, self.counter)
    }
    /// a constructor, seen from the value namespace
    fn is_odd(&self, b: B) -> bool {
        matches!(self.p.binders[b].kind, BK::Ctor(..))
    }
    fn local_name(&mut self) -> String {
        if self.src.pct(8) {
            return "_".into();
        }
        self.value_name()
    }
    fn tyvar_name(&mut self) -> Option<String> {
        for _ in 0..6 {
            let n = *self.src.pick(TV_NAMES);
            if self.scope.lookup(&self.p, Ns::Type, n).is_none() {
                return Some(n.to_owned());
            }
        }
        None
    }

    // ------------------------------------------------------------ types

    fn data_types(&self) -> Vec<B> {
        self.reachable(Ns::Type).into_iter().filter(|&b| matches!(self.p.binders[b].kind, BK::Type)).collect()
    }

    /// Everything that can be written here in a namespace.
    pub fn reachable(&self, ns: Ns) -> Vec<B> {
        let mut out = self.scope.visible(&self.p, ns);
        for (_, m) in self.scope.visible_modules(&self.p) {
            for (n, _, b) in self.p.exports(m) {
                if n == ns && !out.contains(&b) {
                    out.push(b);
                }
            }
        }
        out
    }

    pub fn ty(&mut self, depth: usize) -> Ty {
        let tvs: Vec<B> = self.scope.types.iter().copied().filter(|&b| matches!(self.p.binders[b].kind, BK::TyVar)).collect();
        let tvs: Vec<B> = tvs.into_iter().filter(|&b| self.scope.reach(&self.p, Ns::Type, b)).collect();
        let w_tv = if tvs.is_empty() { 0 } else { 30 };
        let (w_con, w_fn) = if depth == 0 { (0, 0) } else { (45, 18) };
        match self.src.weighted(&[30, 14, 16, w_tv, w_con, w_fn]) {
            0 => Ty::Int,
            1 => Ty::Bool,
            2 => Ty::Str,
            3 => Ty::Var(*self.src.pick(&tvs)),
            4 => {
                let ds = self.data_types();
                if ds.is_empty() {
                    return Ty::Int;
                }
                let d = *self.src.pick(&ds);
                let n = self.p.decls[&d].params.len();
                let args = (0..n).map(|_| self.ty(depth - 1)).collect();
                Ty::Con(d, args)
            }
            _ => {
                let a = self.ty(depth - 1);
                let b = self.ty(depth - 1);
                Ty::func(a, b)
            }
        }
    }

    fn has_array(&self, t: &Ty) -> bool {
        let a = self.st.array;
        t.any(&mut |t| matches!(t, Ty::Con(c, _) if *c == a))
            || t.any(&mut |t| match t {
                // a declared type may hide an array in its fields
                Ty::Con(c, _) => self.decl_mentions_array(*c, 4),
                _ => false,
            })
    }
    fn decl_mentions_array(&self, c: B, depth: usize) -> bool {
        if c == self.st.array {
            return true;
        }
        if depth == 0 {
            return false;
        }
        self.p.decls[&c].ctors.iter().any(|k| {
            k.fields.iter().any(|f| match f {
                Field::Rec => false,
                Field::Ty(t) => t.any(&mut |t| matches!(t, Ty::Con(d, _) if *d != c && self.decl_mentions_array(*d, depth - 1))),
            })
        })
    }

    // ------------------------------------------------------------ matching of schemes

    fn match_ty(vars: &[B], pat: &Ty, t: &Ty, s: &mut Vec<(B, Ty)>) -> bool {
        match (pat, t) {
            (Ty::Var(v), _) if vars.contains(v) => {
                if let Some((_, u)) = s.iter().find(|(b, _)| b == v) {
                    u == t
                } else {
                    s.push((*v, t.clone()));
                    true
                }
            }
            (Ty::Con(a, xs), Ty::Con(b, ys)) => a == b && xs.iter().zip(ys).all(|(x, y)| Self::match_ty(vars, x, y, s)),
            (Ty::Fn(a, b), Ty::Fn(c, d)) | (Ty::Folded(a, b), Ty::Folded(c, d)) => Self::match_ty(vars, a, c, s) && Self::match_ty(vars, b, d, s),
            (a, b) => a == b,
        }
    }

    fn count_info(&self, b: B) -> Option<(&'static str, &'static str)> {
        if b >= self.p.binders.len() {
            return None;
        }
        for (m, (path, funs)) in STD.iter().enumerate() {
            for it in &self.p.modules[m].items {
                if let Item::Val(v) = it {
                    if v.b == b {
                        let n = self.p.name(b);
                        let name = funs.iter().find(|(f, _)| *f == n).map(|(f, _)| *f).unwrap_or("");
                        return Some((path, name));
                    }
                }
            }
        }
        None
    }

    /// An application of something visible with the wanted result type.
    fn from_scope(&mut self, t: &Ty, fuel: usize, args_ok: bool) -> Option<E> {
        if self.budget == 0 {
            return None;
        }
        self.budget -= 1;
        let pool = self.scope_candidates(t, args_ok);
        for _ in 0..if fuel > 0 { 3 } else { 2 } {
            if pool.is_empty() || self.budget == 0 {
                return None;
            }
            let (b, k, inst) = self.src.pick(&pool).clone();
            if let Some(e) = self.build_app(b, k, inst, t, fuel) {
                return Some(e);
            }
        }
        None
    }

    fn scope_candidates(&mut self, t: &Ty, args_ok: bool) -> Vec<(B, usize, Vec<(B, Ty)>)> {
        let mut local = Vec::new();
        let mut far = Vec::new();
        for b in self.scope.visible(&self.p, Ns::Value) {
            self.candidate(b, t, args_ok, &mut local);
        }
        for (_, m) in self.scope.visible_modules(&self.p) {
            for (ns, _, b) in self.p.exports(m) {
                if ns == Ns::Value {
                    self.candidate(b, t, args_ok, &mut far);
                }
            }
        }
        if local.is_empty() || (!far.is_empty() && self.src.pct(35)) {
            far
        } else {
            local
        }
    }

    fn candidate(&self, b: B, t: &Ty, args_ok: bool, out: &mut Vec<(B, usize, Vec<(B, Ty)>)>) {
        let s = match &self.p.binders[b].kind {
            BK::Value(s) => s.clone(),
            BK::Ctor(ty, i) => self.p.ctor_scheme(*ty, *i),
            _ => return,
        };
        let mut cur = &s.ty;
        let mut k = 0;
        loop {
            let mut inst = Vec::new();
            if Self::match_ty(&s.vars, cur, t, &mut inst) {
                // a bare variable result matches anything: useful, but rarely
                let ok = match cur {
                    Ty::Var(v) if s.vars.contains(v) => k > 0,
                    _ => true,
                };
                if ok && (k == 0 || args_ok) {
                    let min = match self.count_info_cheap(b) {
                        Some((m, n)) => (0..6).filter(|&i| stdlib::count_param(m, n, i)).max().map(|i| i + 1).unwrap_or(0),
                        None => 0,
                    };
                    // nothing counts past the parameters that exist
                    let arity = {
                        let mut a = 0;
                        let mut c = &s.ty;
                        while let Ty::Fn(_, r) = c {
                            a += 1;
                            c = r;
                        }
                        a
                    };
                    if k >= min.min(arity) {
                        out.push((b, k, inst));
                    }
                }
            }
            match cur {
                Ty::Fn(_, r) => {
                    cur = r;
                    k += 1;
                }
                _ => break,
            }
        }
    }
    fn count_info_cheap(&self, b: B) -> Option<(&'static str, &'static str)> {
        // std binders come first
        if b > self.p.modules[..STD.len()].last().map(|m| match m.items.last() {
            Some(Item::Val(v)) => v.b,
            _ => 0,
        }).unwrap_or(0) {
            return None;
        }
        self.count_info(b)
    }

    fn build_app(&mut self, b: B, k: usize, mut inst: Vec<(B, Ty)>, t: &Ty, fuel: usize) -> Option<E> {
        let s = self.p.scheme(b);
        for &v in &s.vars {
            if !inst.iter().any(|(x, _)| *x == v) {
                let t = self.ty(1);
                inst.push((v, t));
            }
        }
        let full = s.ty.subst(&inst);
        let counts = self.count_info_cheap(b);
        let mut args = Vec::new();
        let mut cur = full.clone();
        for i in 0..k {
            let Ty::Fn(a, r) = cur else { return None };
            let share = if fuel > k + 1 { (fuel - 1) / k } else { 0 };
            let is_count = counts.map(|(m, n)| stdlib::count_param(m, n, i)).unwrap_or(false);
            let e = if is_count {
                let v = if counts == Some(("std/list", "range")) { i as u64 * 3 + self.src.below(5) } else { self.src.below(5) };
                self.p.mk(Ty::Int, K::Int(v))
            } else {
                self.expr(&a, share)?
            };
            args.push(e);
            cur = (*r).clone();
        }
        // `range` needs start <= stop: the second literal is never smaller
        if counts == Some(("std/list", "range")) && k == 2 {
            if let (K::Int(x), K::Int(y)) = (args[0].k.clone(), args[1].k.clone()) {
                if x > y {
                    args[1].k = K::Int(x + y);
                }
            }
        }
        if cur != *t {
            return None;
        }
        let mut e = self.p.mk(full.clone(), K::Var(b));
        let mut ft = full;
        let n = args.len();
        for (i, a) in args.into_iter().enumerate() {
            let Ty::Fn(_, r) = ft else { unreachable!() };
            let rt = (*r).clone();
            e = if i + 1 == n && self.src.pct(10) {
                self.p.mk(rt.clone(), K::Bin(Op::Pipe, Box::new(a), Box::new(e)))
            } else {
                self.p.mk(rt.clone(), K::App(Box::new(e), Box::new(a)))
            };
            ft = rt;
        }
        Some(e)
    }

    // ------------------------------------------------------------ expressions

    pub fn str_lit(&mut self) -> Rc<str> {
        let n = match self.src.weighted(&[20, 30, 20, 15, 13, 2]) {
            5 => self.src.urange(5, 60),
            n => n,
        };
        let pool: &[&str] = if self.cfg.unicode {
            &["a", "b", " ", "0", "7", "z", "--", ";", "é", "λ", "😀", "\t", "'", "?", "let"]
        } else {
            &["a", "b", " ", "0", "7", "z", "--", ";", "(", "'", "?", "let"]
        };
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(self.src.pick(pool));
        }
        s.as_str().into()
    }

    fn hole(&mut self, t: &Ty) -> E {
        let h = (*self.src.pick(&["h", "todo", "x", "1", "_"])).to_owned();
        self.p.mk(t.clone(), K::Hole(h))
    }

    /// A small expression of the type, if one can be built.
    fn leaf(&mut self, t: &Ty, depth: usize) -> Option<E> {
        if self.cfg.holes > 0 && self.src.pct(self.cfg.holes) {
            return Some(self.hole(t));
        }
        if self.src.pct(if matches!(t, Ty::Int | Ty::Bool | Ty::Str) { 45 } else { 60 }) {
            if let Some(e) = self.from_scope(t, 0, false) {
                return Some(e);
            }
        }
        let r = match t {
            Ty::Int => {
                let v = self.src.int();
                Some(self.p.mk(Ty::Int, K::Int(v)))
            }
            Ty::Bool => {
                let v = self.src.pct(50);
                Some(self.p.mk(Ty::Bool, K::Bool(v)))
            }
            Ty::Str => {
                let s = self.str_lit();
                Some(self.p.mk(Ty::Str, K::Str(s)))
            }
            Ty::Fn(a, b) => {
                let keep = self.scope.values.len();
                let name = self.local_name();
                let pb = self.p.fresh(&name, BK::Value(Scheme { vars: vec![], ty: (**a).clone() }));
                self.scope.values.push(pb);
                let body = self.leaf(b, depth);
                self.scope.values.truncate(keep);
                body.map(|b| self.p.mk(t.clone(), K::Lam { p: pb, fold: false, body: Box::new(b) }))
            }
            Ty::Con(c, args) => {
                if depth == 0 {
                    None
                } else {
                    self.construct(*c, args, t, depth, 0)
                }
            }
            Ty::Var(_) => None,
            _ => None,
        };
        if r.is_some() {
            return r;
        }
        if let Some(e) = self.from_scope(t, 0, false) {
            return Some(e);
        }
        if depth > 0 && self.depth < 30 {
            self.depth += 6;
            let r = self.from_scope(t, 0, true);
            self.depth -= 6;
            if r.is_some() {
                return r;
            }
        }
        if self.cfg.holes > 0 {
            return Some(self.hole(t));
        }
        None
    }

    fn construct(&mut self, c: B, args: &[Ty], t: &Ty, depth: usize, fuel: usize) -> Option<E> {
        let d = self.p.decls[&c].clone();
        if c == self.st.array {
            return None;
        }
        let mut order: Vec<usize> = (0..d.ctors.len()).collect();
        let inst: Vec<(B, Ty)> = d.params.iter().copied().zip(args.iter().cloned()).collect();
        if fuel == 0 {
            order.sort_by_key(|&i| (d.ctors[i].fields.iter().any(|f| matches!(f, Field::Rec)), d.ctors[i].fields.len()));
            // any of the simplest ones
            let best = d.ctors[order[0]].fields.len();
            let n = order.iter().filter(|&&i| d.ctors[i].fields.len() == best && !d.ctors[i].fields.iter().any(|f| matches!(f, Field::Rec))).count();
            if n > 1 {
                let k = self.src.us(n);
                order.swap(0, k);
            }
        } else {
            self.src.shuffle(&mut order);
        }
        for i in order {
            let k = d.ctors[i].b;
            if !self.scope.reach(&self.p, Ns::Value, k) {
                continue;
            }
            let n = d.ctors[i].fields.len();
            let mut fields = Vec::new();
            let mut ok = true;
            for f in &d.ctors[i].fields {
                let ft = match f {
                    Field::Rec => t.clone(),
                    Field::Ty(x) => x.subst(&inst),
                };
                let share = if fuel > n { (fuel - 1) / n } else { 0 };
                let e = if share == 0 { self.leaf(&ft, depth.saturating_sub(1)) } else { self.expr(&ft, share) };
                match e {
                    Some(e) => fields.push((ft, e)),
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if !ok {
                continue;
            }
            let mut ty = Ty::funcs(&fields.iter().map(|f| f.0.clone()).collect::<Vec<_>>(), t.clone());
            let mut e = self.p.mk(ty.clone(), K::Var(k));
            for (_, a) in fields {
                let Ty::Fn(_, r) = ty else { unreachable!() };
                ty = (*r).clone();
                e = self.p.mk(ty.clone(), K::App(Box::new(e), Box::new(a)));
            }
            return Some(e);
        }
        None
    }

    pub fn expr(&mut self, t: &Ty, fuel: usize) -> Option<E> {
        if fuel <= 1 || self.depth > 24 {
            return self.leaf(t, 3);
        }
        self.depth += 1;
        let r = self.expr_inner(t, fuel);
        self.depth -= 1;
        match r {
            Some(e) => Some(e),
            None => self.leaf(t, 3),
        }
    }

    fn expr_inner(&mut self, t: &Ty, fuel: usize) -> Option<E> {
        if self.cfg.holes > 0 && self.src.pct(self.cfg.holes) {
            return Some(self.hole(t));
        }
        let w_op = match t {
            Ty::Int => 25,
            Ty::Bool => 25,
            _ => 0,
        };
        let w_lam = if matches!(t, Ty::Fn(..)) { 70 } else { 0 };
        let w_con = if matches!(t, Ty::Con(..)) { 30 } else { 0 };
        let w_fold = if self.cfg.folds { 7 } else { 0 };
        match self.src.weighted(&[8, w_op, 28, 10, 15, 12, w_lam, w_con, w_fold, 5]) {
            0 => self.leaf(t, 3),
            1 => {
                let op = if *t == Ty::Int { *self.src.pick(&INT_OPS) } else { *self.src.pick(&CMP_OPS) };
                let half = (fuel - 1) / 2;
                let a = self.expr(&Ty::Int, half)?;
                // sometimes the same variable or number on both sides
                let again = match &a.k {
                    K::Var(v) if self.src.pct(12) => Some(K::Var(*v)),
                    K::Int(n) if self.src.pct(8) => Some(K::Int(*n)),
                    _ => None,
                };
                let b = match again {
                    Some(k) => self.p.mk(Ty::Int, k),
                    None => self.expr(&Ty::Int, half)?,
                };
                Some(self.p.mk(t.clone(), K::Bin(op, Box::new(a), Box::new(b))))
            }
            2 => self.from_scope(t, fuel, true),
            3 => {
                let third = (fuel - 1) / 3;
                let c = self.expr(&Ty::Bool, third)?;
                let a = self.expr(t, third)?;
                let b = self.expr(t, third)?;
                Some(self.p.mk(t.clone(), K::If(Box::new(c), Box::new(a), Box::new(b))))
            }
            4 => self.let_(t, fuel),
            5 => self.match_(t, fuel),
            6 => self.lambda(t, fuel),
            7 => {
                let Ty::Con(c, args) = t else { unreachable!() };
                self.construct(*c, &args.clone(), t, 3, fuel)
            }
            8 => {
                // apply a fold on the spot
                // sometimes the same fold again, within its own body
                let outer = self.folded_of(None, t);
                let data = match outer.first() {
                    Some(&b) if self.src.pct(40) => match &self.p.binders[b].kind {
                        BK::Value(Scheme { ty: Ty::Folded(a, _), .. }) if matches!(**a, Ty::Con(..)) => Some((**a).clone()),
                        _ => None,
                    },
                    _ => None,
                };
                let data = match data {
                    Some(d) => d,
                    None => match self.rec_type() {
                        Some(d) => d,
                        None => return self.let_(t, fuel),
                    },
                };
                let half = (fuel - 1) / 2;
                let f = self.fold_lambda(&data, t, half)?;
                let a = self.expr(&data, half)?;
                Some(self.apply_somehow(f, a, t))
            }
            _ => {
                // apply a lambda on the spot
                if self.cfg.folds && self.src.pct(10) {
                    // fold what is folded already
                    let folded: Vec<B> = self
                        .scope
                        .visible(&self.p, Ns::Value)
                        .into_iter()
                        .filter(|&b| matches!(&self.p.binders[b].kind, BK::Value(s) if s.vars.is_empty() && matches!(s.ty, Ty::Folded(..))))
                        .collect();
                    if !folded.is_empty() {
                        let b = *self.src.pick(&folded);
                        let at = self.p.scheme(b).ty.clone();
                        let f = self.fold_any(&at, t, (fuel - 1) / 2)?;
                        let a = self.p.mk(at, K::Var(b));
                        return Some(self.apply_somehow(f, a, t));
                    }
                }
                let at = self.ty(1);
                let half = (fuel - 1) / 2;
                let ft = Ty::func(at.clone(), t.clone());
                let f = self.lambda(&ft, half)?;
                let a = self.expr(&at, half)?;
                Some(self.apply_somehow(f, a, t))
            }
        }
    }

    fn apply_somehow(&mut self, f: E, a: E, t: &Ty) -> E {
        if self.src.pct(30) {
            self.p.mk(t.clone(), K::Bin(Op::Pipe, Box::new(a), Box::new(f)))
        } else {
            self.p.mk(t.clone(), K::App(Box::new(f), Box::new(a)))
        }
    }

    /// some declared type, preferably recursive
    fn rec_type(&mut self) -> Option<Ty> {
        let ds: Vec<B> = self
            .data_types()
            .into_iter()
            .filter(|d| *d != self.st.array && self.p.decls[d].ctors.iter().all(|c| self.scope.reach(&self.p, Ns::Ctor, c.b)))
            .collect();
        if ds.is_empty() {
            return None;
        }
        let rec: Vec<B> = ds.iter().copied().filter(|d| self.p.decls[d].ctors.iter().any(|c| c.fields.iter().any(|f| matches!(f, Field::Rec)))).collect();
        let d = if !rec.is_empty() && self.src.pct(75) { *self.src.pick(&rec) } else { *self.src.pick(&ds) };
        let n = self.p.decls[&d].params.len();
        let args = (0..n).map(|_| self.ty(1)).collect();
        Some(Ty::Con(d, args))
    }

    fn lambda(&mut self, t: &Ty, fuel: usize) -> Option<E> {
        let Ty::Fn(a, b) = t else { return None };
        let (a, b) = ((**a).clone(), (**b).clone());
        if self.cfg.folds {
            if let Ty::Con(..) = a {
                if self.src.pct(50) {
                    return self.fold_lambda(&a, &b, fuel);
                }
            } else if self.src.pct(4) {
                // folding something that has no recursive structure
                return self.fold_any(&a, &b, fuel);
            }
        }
        let name = self.local_name();
        let pb = self.p.fresh(&name, BK::Value(Scheme { vars: vec![], ty: a }));
        let keep = self.scope.values.len();
        self.scope.values.push(pb);
        let body = self.expr(&b, fuel.saturating_sub(1));
        self.scope.values.truncate(keep);
        Some(self.p.mk(t.clone(), K::Lam { p: pb, fold: false, body: Box::new(body?) }))
    }

    fn fold_any(&mut self, a: &Ty, b: &Ty, fuel: usize) -> Option<E> {
        let name = self.local_name();
        let folded = Ty::Folded(Rc::new(a.clone()), Rc::new(b.clone()));
        let pb = self.p.fresh(&name, BK::Value(Scheme { vars: vec![], ty: folded }));
        let keep = self.scope.values.len();
        self.scope.values.push(pb);
        let body = self.expr(b, fuel.saturating_sub(1));
        self.scope.values.truncate(keep);
        Some(self.p.mk(Ty::func(a.clone(), b.clone()), K::Lam { p: pb, fold: true, body: Box::new(body?) }))
    }

    fn fold_lambda(&mut self, data: &Ty, r: &Ty, fuel: usize) -> Option<E> {
        let Ty::Con(c, args) = data else { return self.fold_any(data, r, fuel) };
        let d = self.p.decls[c].clone();
        if *c == self.st.array || !d.ctors.iter().all(|k| self.scope.reach(&self.p, Ns::Ctor, k.b)) || self.src.pct(5) {
            return self.fold_any(data, r, fuel);
        }
        let name = self.local_name();
        let folded = Ty::Folded(Rc::new(data.clone()), Rc::new(r.clone()));
        let pb = self.p.fresh(&name, BK::Value(Scheme { vars: vec![], ty: folded.clone() }));
        let keep = self.scope.values.len();
        self.scope.values.push(pb);
        // sometimes through another name, sometimes under another binder
        let alias = if self.src.pct(12) {
            let n = self.local_name();
            Some(self.p.fresh(&n, BK::Value(Scheme { vars: vec![], ty: folded.clone() })))
        } else {
            None
        };
        let target = alias.unwrap_or(pb);
        if let Some(a) = alias {
            self.scope.values.push(a);
        }
        let body = if self.scope.reach(&self.p, Ns::Value, target) {
            let scrut = self.p.mk(folded.clone(), K::Var(target));
            let scrut = self.one_of_folded(scrut, target, &folded);
            self.match_on(scrut, &d, &args.clone(), r, r, fuel.saturating_sub(1))
        } else {
            self.expr(r, fuel.saturating_sub(1))
        };
        self.scope.values.truncate(keep);
        let mut body = body?;
        if let Some(a) = alias {
            let val = self.p.mk(folded, K::Var(pb));
            body = self.p.mk(r.clone(), K::Let { b: a, ann: false, val: Box::new(val), body: Box::new(body) });
        }
        Some(self.p.mk(Ty::func(data.clone(), r.clone()), K::Lam { p: pb, fold: true, body: Box::new(body) }))
    }

    /// Parameters of enclosing folds with result `r`, of `data` if given.
    fn folded_of(&mut self, data: Option<&Ty>, r: &Ty) -> Vec<B> {
        self.scope
            .visible(&self.p, Ns::Value)
            .into_iter()
            .filter(|&b| match &self.p.binders[b].kind {
                BK::Value(Scheme { ty: Ty::Folded(a, b), .. }) => **b == *r && data.map_or(true, |d| **a == *d),
                _ => false,
            })
            .collect()
    }

    /// A way to say what is matched that makes two folded types meet.
    fn one_of_folded(&mut self, scrut: E, this: B, folded: &Ty) -> E {
        let Ty::Folded(data, r) = folded else { return scrut };
        let others: Vec<B> = self.folded_of(Some(data), r).into_iter().filter(|&b| b != this).collect();
        if others.is_empty() || !self.src.pct(60) {
            return scrut;
        }
        let other = *self.src.pick(&others);
        let other = self.p.mk(folded.clone(), K::Var(other));
        let c = self.src.pct(50);
        let c = self.p.mk(Ty::Bool, K::Bool(c));
        let (a, b) = if self.src.pct(70) { (scrut, other) } else { (other, scrut) };
        self.p.mk(folded.clone(), K::If(Box::new(c), Box::new(a), Box::new(b)))
    }

    fn match_on(&mut self, scrut: E, d: &TypeDecl, args: &[Ty], rec: &Ty, r: &Ty, fuel: usize) -> Option<E> {
        let inst: Vec<(B, Ty)> = d.params.iter().copied().zip(args.iter().cloned()).collect();
        let mut order: Vec<usize> = (0..d.ctors.len()).collect();
        if self.src.pct(40) {
            self.src.shuffle(&mut order);
        }
        let share = fuel.saturating_sub(1) / d.ctors.len().max(1);
        let mut arms = Vec::new();
        for i in order {
            let mut vars = Vec::new();
            let keep = self.scope.values.len();
            let mut used: Vec<String> = Vec::new();
            for f in &d.ctors[i].fields {
                let ft = match f {
                    Field::Rec => rec.clone(),
                    Field::Ty(t) => t.subst(&inst),
                };
                let mut n = self.local_name();
                while n != "_" && used.contains(&n) {
                    self.counter += 1;
                    n = format!("v{}", self.counter);
                }
                used.push(n.clone());
                vars.push(self.p.fresh(&n, BK::Value(Scheme { vars: vec![], ty: ft })));
            }
            self.scope.values.extend(vars.iter().copied());
            let body = self.expr(r, share);
            self.scope.values.truncate(keep);
            arms.push(Arm { ctor: d.ctors[i].b, vars, body: body? });
        }
        Some(self.p.mk(r.clone(), K::Match { scrut: Box::new(scrut), arms }))
    }

    fn match_(&mut self, t: &Ty, fuel: usize) -> Option<E> {
        // something in scope that can be matched
        let mut cands: Vec<(B, Ty)> = Vec::new();
        for b in self.scope.visible(&self.p, Ns::Value) {
            if let BK::Value(s) = &self.p.binders[b].kind {
                if s.vars.is_empty() {
                    let inner = match &s.ty {
                        Ty::Folded(a, _) => (**a).clone(),
                        t => t.clone(),
                    };
                    if let Ty::Con(c, _) = inner {
                        let d = &self.p.decls[&c];
                        if c != self.st.array && d.ctors.iter().all(|k| self.scope.reach(&self.p, Ns::Ctor, k.b)) {
                            cands.push((b, s.ty.clone()));
                        }
                    }
                }
            }
        }
        if !cands.is_empty() && self.src.pct(60) {
            let (b, ty) = self.src.pick(&cands).clone();
            let (data, rec) = match &ty {
                Ty::Folded(a, r) => ((**a).clone(), (**r).clone()),
                t => (t.clone(), t.clone()),
            };
            let Ty::Con(c, args) = &data else { unreachable!() };
            let d = self.p.decls[c].clone();
            let scrut = self.p.mk(ty, K::Var(b));
            return self.match_on(scrut, &d, args, &rec, t, fuel - 1);
        }
        let data = self.rec_type()?;
        let Ty::Con(c, args) = &data else { unreachable!() };
        let d = self.p.decls[c].clone();
        let third = fuel / 3;
        let scrut = self.expr(&data, third)?;
        self.match_on(scrut, &d, args, &data, t, fuel - third)
    }

    fn let_(&mut self, t: &Ty, fuel: usize) -> Option<E> {
        let third = fuel / 3;
        let keep_t = self.scope.types.len();
        let mut vars = Vec::new();
        if self.src.pct(self.cfg.poly / 2) {
            vars = self.new_tyvars();
        }
        let mut vt = if vars.is_empty() { self.ty(2) } else { self.poly_ty(&vars) };
        self.drop_unused(keep_t, &mut vars, &vt);
        let mut val = self.expr(&vt, third);
        if val.is_none() && !vars.is_empty() {
            self.scope.types.truncate(keep_t);
            vars.clear();
            vt = self.ty(1);
            val = self.expr(&vt, third);
        }
        self.scope.types.truncate(keep_t);
        let val = val?;
        let name = self.local_name();
        let must = !vars.is_empty();
        let can = self.scope_with(&vars, |g| g.scope.reach_ty(&g.p, &vt));
        if must && !can {
            return None;
        }
        let ann = must || (can && self.src.pct(100 - self.cfg.omit));
        let b = self.p.fresh(&name, BK::Value(Scheme { vars, ty: vt }));
        let keep = self.scope.values.len();
        self.scope.values.push(b);
        let body = self.expr(t, fuel - third);
        self.scope.values.truncate(keep);
        Some(self.p.mk(t.clone(), K::Let { b, ann, val: Box::new(val), body: Box::new(body?) }))
    }

    fn scope_with<T>(&mut self, tvs: &[B], f: impl FnOnce(&mut Self) -> T) -> T {
        let keep = self.scope.types.len();
        self.scope.types.extend(tvs.iter().copied());
        let r = f(self);
        self.scope.types.truncate(keep);
        r
    }

    /// A variable that is not written in the annotation is not introduced by it.
    fn drop_unused(&mut self, keep: usize, vars: &mut Vec<B>, t: &Ty) {
        vars.retain(|&v| t.mentions(v));
        self.scope.types.truncate(keep);
        self.scope.types.extend(vars.iter().copied());
    }

    fn new_tyvars(&mut self) -> Vec<B> {
        let n = self.src.urange(1, 2);
        let mut out = Vec::new();
        for _ in 0..n {
            if let Some(name) = self.tyvar_name() {
                let b = self.p.fresh(&name, BK::TyVar);
                self.scope.types.push(b);
                out.push(b);
            }
        }
        out
    }

    /// A function type mentioning the variables, such that values exist.
    fn poly_ty(&mut self, vars: &[B]) -> Ty {
        let n = self.src.urange(1, 3);
        let mut args = Vec::new();
        for i in 0..n {
            if i < vars.len() && self.src.pct(60) {
                args.push(Ty::Var(vars[i]));
            } else {
                args.push(self.ty(2));
            }
        }
        let r = if self.src.pct(50) { Ty::Var(*self.src.pick(vars)) } else { self.ty(1) };
        Ty::funcs(&args, r)
    }

    // ------------------------------------------------------------ items

    fn type_item(&mut self, root: bool) -> TypeDecl {
        let name = if self.src.pct(30) {
            (*self.src.pick(TYPE_NAMES)).to_owned()
        } else {
            self.counter += 1;
            format!("T{}", self.counter)
        };
        let b = self.p.fresh(&name, BK::Type);
        let np = self.src.weighted(&[45, 35, 15, 5]);
        let mut params: Vec<B> = Vec::new();
        let keep = self.scope.types.len();
        for k in 0..np {
            // type parameters may shadow declared types
            let mut n = (*self.src.pick(TV_NAMES)).to_owned();
            if params.iter().any(|&q| self.p.name(q) == n) {
                n = format!("{}{}", n, k + 5);
            }
            let v = self.p.fresh(&n, BK::TyVar);
            params.push(v);
            self.scope.types.push(v);
        }
        let nc = self.src.weighted(&[0, 20, 35, 25, 11, 4, 2, 1, 1, 1]);
        let mut ctors = Vec::new();
        let mut names: Vec<String> = Vec::new();
        for i in 0..nc {
            let mut n = if self.src.pct(35) {
                (*self.src.pick(CTOR_NAMES)).to_owned()
            } else {
                self.counter += 1;
                format!("C{}", self.counter)
            };
            if self.src.pct(self.cfg.odd_names) {
                n = name.clone();
            }
            if names.contains(&n) {
                self.counter += 1;
                n = format!("K{}", self.counter);
            }
            names.push(n.clone());
            let nf = if i == 0 { self.src.weighted(&[60, 20, 15, 5]) } else { self.src.weighted(&[20, 30, 25, 15, 5, 2, 1, 1, 1]) };
            let mut fields = Vec::new();
            for _ in 0..nf {
                if i > 0 && self.src.pct(35) {
                    fields.push(Field::Rec);
                } else if !params.is_empty() && self.src.pct(45) {
                    fields.push(Field::Ty(Ty::Var(*self.src.pick(&params))));
                } else {
                    fields.push(Field::Ty(self.ty(2)));
                }
            }
            let cb = self.p.fresh(&n, BK::Ctor(b, i));
            ctors.push(CtorDecl { b: cb, fields });
        }
        self.scope.types.truncate(keep);
        let export = self.src.pct(if root { 25 } else { 80 });
        let export_ctors = self.src.pct(if root { 25 } else { 75 });
        let d = TypeDecl { b, params, ctors, export, export_ctors };
        self.p.decls.insert(b, Rc::new(d.clone()));
        d
    }

    fn import_item(&mut self, target: usize) -> Import {
        let style = self.src.weighted(&[40, 25, 35]);
        let path = self.p.modules[target].path.clone();
        let alias = if style != 1 {
            let n = if self.src.pct(60) {
                let last = path.rsplit('/').next().unwrap().to_owned();
                let mut c = last.chars();
                let f = c.next().unwrap().to_ascii_uppercase();
                format!("{}{}", f, c.as_str())
            } else {
                self.counter += 1;
                (*self.src.pick(&["M", "L", "Lib", "list_mod", "S"])).to_owned() + &if self.src.pct(50) { self.counter.to_string() } else { String::new() }
            };
            Some(self.p.fresh(&n, BK::Module))
        } else {
            None
        };
        let exposed = if style >= 1 {
            let ex = self.p.exports(target);
            let mut names: Vec<String> = Vec::new();
            for (_, n, b) in &ex {
                let is_type = !matches!(self.p.binders[*b].kind, BK::Value(_));
                if !names.contains(n) && self.src.pct(if is_type { 80 } else { 20 }) {
                    names.push(n.clone());
                }
            }
            let mut out = Vec::new();
            for n in names {
                let mut bs: Vec<B> = Vec::new();
                for ns in [Ns::Value, Ns::Type, Ns::Ctor] {
                    if let Some(b) = self.p.export(target, ns, &n) {
                        if !bs.contains(&b) {
                            bs.push(b);
                        }
                    }
                }
                out.push(Exposed { name: n, binders: bs });
            }
            Some(out)
        } else {
            None
        };
        Import { target, alias, exposed }
    }

    fn value_item(&mut self, root: bool, allow_export: bool) -> Option<ValDecl> {
        for attempt in 0..3 {
            self.budget = 40 + 6 * self.cfg.fuel;
            let keep_t = self.scope.types.len();
            let mut vars = Vec::new();
            if self.src.pct(self.cfg.poly) && attempt < 2 {
                vars = self.new_tyvars();
            }
            let t = if !vars.is_empty() {
                self.poly_ty(&vars)
            } else if attempt == 2 {
                Ty::Int
            } else {
                self.ty(2)
            };
            self.drop_unused(keep_t, &mut vars, &t);
            let fuel = self.src.urange(1, self.cfg.fuel.max(2));
            let e = self.expr(&t, fuel);
            let nameable = self.scope.reach_ty(&self.p, &t);
            self.scope.types.truncate(keep_t);
            let Some(e) = e else { continue };
            if !nameable {
                continue;
            }
            let name = self.value_name();
            let mut export = allow_export && self.src.pct(if root { self.cfg.export } else { 80 });
            if self.cfg.show && self.has_array(&t) && root {
                export = false;
            }
            // exported values never share a name with an exported constructor
            if export && self.p.modules[self.m].items.iter().any(|i| match i {
                Item::Type(d) => d.export_ctors && d.ctors.iter().any(|c| self.p.name(c.b) == name),
                _ => false,
            }) {
                export = false;
            }
            if name == "main" {
                export = false;
            }
            let must = !vars.is_empty();
            let omit = !must && self.src.pct(self.cfg.omit / 2);
            let b = self.p.fresh(&name, BK::Value(Scheme { vars, ty: t }));
            let mut v = ValDecl { b, ann: true, export, e };
            if omit {
                v.ann = false;
                // an annotation is needed where inference leaves something open
                match crate::infer::Infer::new(&self.p).value(&v) {
                    Ok((t, _)) if !t.has_meta() => {}
                    _ => v.ann = true,
                }
            }
            return Some(v);
        }
        None
    }

    fn push_item(&mut self, it: Item) {
        self.scope.add_item(&self.p, &it);
        self.p.modules[self.m].items.push(it);
    }

    fn module(&mut self, path: &str, users: &[usize], root: bool) -> usize {
        self.scope = Scope::default();
        self.p.modules.push(Module { path: path.to_owned(), std: false, items: Vec::new() });
        self.m = self.p.modules.len() - 1;
        let mut imports: Vec<usize> = Vec::new();
        if self.src.pct(self.cfg.std) {
            let n = self.src.urange(1, 3);
            for _ in 0..n {
                let k = self.src.weighted(&[8, 16, 8, 30, 14, 14, 10]);
                if !imports.contains(&k) {
                    imports.push(k);
                }
            }
        }
        for &u in users {
            if self.src.pct(if root { 85 } else { 50 }) {
                imports.push(u);
            }
        }
        let mut late: Vec<usize> = Vec::new();
        for i in imports {
            if self.src.pct(10) {
                late.push(i);
                continue;
            }
            let im = self.import_item(i);
            self.push_item(Item::Import(im));
        }
        let nt = self.src.urange(self.cfg.types.0, self.cfg.types.1);
        let nv = self.src.urange(self.cfg.items.0, self.cfg.items.1);
        let mut kinds: Vec<bool> = vec![true; nt];
        kinds.extend(vec![false; nv]);
        if self.src.pct(30) {
            self.src.shuffle(&mut kinds);
        }
        for k in kinds {
            if let Some(i) = late.pop() {
                let im = self.import_item(i);
                self.push_item(Item::Import(im));
            }
            if k {
                let d = self.type_item(root);
                self.push_item(Item::Type(d));
            } else if let Some(v) = self.value_item(root, true) {
                self.push_item(Item::Val(v));
            }
        }
        if root && self.cfg.main {
            self.budget = 40 + 6 * self.cfg.fuel;
            let t = Ty::func(Ty::Str, Ty::Str);
            let fuel = self.cfg.fuel;
            if let Some(e) = self.expr(&t, fuel) {
                let b = self.p.fresh("main", BK::Value(Scheme { vars: vec![], ty: t }));
                self.push_item(Item::Val(ValDecl { b, ann: true, export: true, e }));
            }
        }
        self.m
    }

    /// Starts the root of a program built by hand.
    pub fn start(&mut self, path: &str) {
        self.scope = Scope::default();
        self.p.modules.push(Module { path: path.to_owned(), std: false, items: Vec::new() });
        self.m = self.p.modules.len() - 1;
        self.budget = 400;
    }
    pub fn add(&mut self, it: Item) {
        self.budget = 400;
        self.push_item(it);
    }
    pub fn finish(self) -> Program {
        Program { p: self.p, st: self.st, root: self.m }
    }

    /// Generates all modules; the last one is the root.
    pub fn program(mut self) -> Program {
        let mut n = self.src.urange(self.cfg.modules.0, self.cfg.modules.1);
        if self.cfg.modules.1 > 1 && self.src.pct(4) {
            n += self.src.urange(1, 4);
        }
        let mut users = Vec::new();
        for k in 0..n {
            let m = self.module(&format!("m{}", k), &users.clone(), false);
            users.push(m);
        }
        let root = self.module("root", &users, true);
        Program { p: self.p, st: self.st, root }
    }
}

#[derive(Clone)]
pub struct Program {
    pub p: Prog,
    pub st: StdTypes,
    pub root: usize,
}

pub fn program(src: &mut Src, cfg: Cfg) -> Program {
    Gen::new(src, cfg).program()
}

use crate::print::{layout, print_module, Laid, Layout, Printed, Style};
use crate::sut::Texts;

pub struct Rendered {
    pub texts: Texts,
    pub root: (Printed, Laid),
    /// the other modules, by index
    pub mods: Vec<(usize, Printed, Laid)>,
}

impl Program {
    pub fn render(&self, st: &Style, lay: Layout, src: &mut Src) -> Rendered {
        let mut files = std::collections::HashMap::new();
        let mut mods = Vec::new();
        let mut root = None;
        for (m, module) in self.p.modules.iter().enumerate() {
            if module.std {
                continue;
            }
            let pr = print_module(&self.p, m, st, src);
            let laid = layout(&pr.toks, lay, src);
            if m == self.root {
                root = Some((pr, laid));
            } else {
                files.insert(module.path.clone(), laid.text.clone());
                mods.push((m, pr, laid));
            }
        }
        let root = root.unwrap();
        Rendered { texts: Texts { root: root.1.text.clone(), files }, root, mods }
    }
    pub fn render_plain(&self, src: &mut Src) -> Rendered {
        self.render(&Style::default(), Layout::PLAIN, src)
    }
    pub fn values(&self) -> impl Iterator<Item = (usize, &ValDecl)> {
        self.p.modules.iter().enumerate().filter(|(_, m)| !m.std).flat_map(|(i, m)| {
            m.items.iter().filter_map(move |it| match it {
                Item::Val(v) => Some((i, v)),
                _ => None,
            })
        })
    }
}
