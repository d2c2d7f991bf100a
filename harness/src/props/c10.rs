//! Go-to-definition and find-references.

use crate::ast::*;
use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::gen::{program, Cfg};
use crate::print::{Layout, Style, TK};
use std::collections::BTreeMap;
use ticc::{CompilationUnit, Pos};

pub const C10: Prop = Prop {
    id: "C10",
    quick: 16000,
    thorough: 300000,
    rule: "a program with a binding that has two references and a name with two bindings",
    assumptions: &[
        "a name reached only through a module alias has its definition outside of the text: no definition, no references",
        "names of modules are not asked about",
        "an exposed name that stands for several things may answer for any of them",
        "the offset right behind a name may answer for that name or for nothing",
    ],
    f: c10,
};

type S = (usize, usize);

fn ask(u: &mut CompilationUnit, pos: usize) -> Result<(Option<S>, Option<Vec<S>>), String> {
    let cv = |s: ticc::Span| (s.start().source_pos(), s.end().source_pos());
    let p = Pos::new(pos as u32);
    let d = guard(|| u.find_definition(p)).map_err(|e| format!("panic in definition: {}", e))?.map(cv);
    let r = guard(|| u.find_references(p)).map_err(|e| format!("panic in references: {}", e))?.map(|v| {
        let mut v: Vec<S> = v.into_iter().map(cv).collect();
        v.sort();
        v
    });
    Ok((d, r))
}

fn c10(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let cfg = Cfg {
        odd_names: *src.pick(&[4, 40]),
        shadow: *src.pick(&[20, 50, 80]),
        holes: 4,
        types: (0, 3),
        fuel: *src.pick(&[8, 16, 30]),
        poly: *src.pick(&[30, 60]),
        modules: *src.pick(&[(0, 0), (0, 2), (1, 3)]),
        ..Cfg::default()
    };
    let pg = program(src, cfg);
    let lay = Layout::random(src);
    let r = pg.render(&Style { qual: *src.pick(&[10, 40, 90]), ..Style::default() }, lay, src);
    let p = &pg.p;
    let (pr, la) = &r.root;
    case.text = r.texts.show();

    // by binder
    let mut defs: BTreeMap<B, Vec<usize>> = BTreeMap::new();
    let mut refs: BTreeMap<B, Vec<usize>> = BTreeMap::new();
    for (i, t) in pr.toks.iter().enumerate() {
        if let Some(o) = &t.occ {
            for &b in &o.bs {
                if o.def { &mut defs } else { &mut refs }.entry(b).or_default().push(i);
            }
        }
    }
    let mut names: BTreeMap<&str, usize> = BTreeMap::new();
    for &b in defs.keys() {
        *names.entry(p.name(b)).or_default() += 1;
    }
    case.nontrivial = refs.values().any(|v| v.len() >= 2) && names.values().any(|&n| n >= 2);
    case.label_if(names.values().any(|&n| n >= 4), "name bound four times");
    case.label_if(defs.values().any(|v| v.len() >= 2), "exposed twice");

    // what to ask
    let mut order: Vec<usize> = (0..pr.toks.len()).filter(|&i| pr.toks[i].kind == TK::Name).collect();
    src.shuffle(&mut order);
    order.truncate(60);
    let asks: Vec<(usize, usize, bool)> = order
        .iter()
        .map(|&i| {
            let (a, b) = la.spans[i];
            let off = match src.weighted(&[40, 20, 40]) {
                0 => a,
                1 => b,
                _ => a + src.us(b - a),
            };
            (i, off, src.pct(8))
        })
        .collect();
    let mut covered = vec![false; la.text.len() + 2];
    for (i, &(a, b)) in la.spans.iter().enumerate() {
        if pr.toks[i].kind == TK::Name {
            covered[a..=b].fill(true);
        }
    }
    let free: Vec<usize> = (0..=la.text.len()).filter(|&o| !covered[o]).collect();
    let mut others: Vec<usize> = Vec::new();
    if !free.is_empty() {
        for _ in 0..20 {
            others.push(*src.pick(&free));
        }
    }
    generated(src);

    let mut unit = guard(|| r.texts.unit(false, true)).map_err(|e| format!("panic: {}", e))?;
    let sp = |i: &usize| la.spans[*i];
    for (i, off, fresh) in asks {
        let t = &pr.toks[i];
        let o = t.occ.as_ref().unwrap();
        let bs: Vec<B> = o.bs.iter().copied().filter(|&b| !matches!(p.binders[b].kind, BK::Module)).collect();
        if bs.is_empty() {
            continue;
        }
        let (d, rf) = if fresh {
            ask(&mut r.texts.unit(false, true), off)?
        } else {
            ask(&mut unit, off)?
        };
        let at_end = off == la.spans[i].1;
        if at_end && d.is_none() && rf.is_none() {
            continue;
        }
        let what = format!("{:?} at {:?} asked at {}", t.text, la.spans[i], off);
        // a name may stand for one of several
        let mut fits = false;
        let mut want = Vec::new();
        for &b in &bs {
            let ds: Vec<S> = defs.get(&b).into_iter().flatten().map(sp).collect();
            let mut rs: Vec<S> = refs.get(&b).into_iter().flatten().map(sp).collect();
            rs.sort();
            let d_ok = match d {
                None => ds.is_empty(),
                Some(s) => ds.contains(&s),
            };
            let r_ok = match &rf {
                None => ds.is_empty(),
                Some(v) => *v == rs,
            };
            fits |= d_ok && r_ok;
            want.push((ds, rs));
        }
        if bs.len() > 1 && !fits {
            // the listing of everything the name stands for is fine too
            let mut all: Vec<S> = want.iter().flat_map(|w| w.1.iter().copied()).collect();
            all.sort();
            all.dedup();
            fits = rf == Some(all) && d.map_or(false, |d| want.iter().any(|w| w.0.contains(&d)));
        }
        if !fits {
            let class = if want.iter().all(|w| match d {
                None => !w.0.is_empty(),
                Some(s) => !w.0.contains(&s),
            }) {
                "wrong definition"
            } else {
                "wrong references"
            };
            return Err(format!("{}: {}: definition {:?} references {:?}, expected one of {:?}", class, what, d, rf, want));
        }
    }
    for off in others {
        let (d, rf) = ask(&mut unit, off)?;
        if d.is_some() || rf.is_some() {
            return Err(format!("answer where there is no name: at {}: definition {:?} references {:?}", off, d, rf));
        }
    }
    Ok(())
}
