//! Programs split into modules.

use super::c04::mutate;
use crate::ast::*;
use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::eval::{Eval, Stop};
use crate::gen::{program, Cfg, Program};
use crate::print::{Laid, Layout, Printed, Style, TK};
use crate::sut::{fmt_diags, Texts};
use std::collections::BTreeMap;
use std::process::{Command, Stdio};

pub const C15: Prop = Prop {
    id: "C15",
    quick: 6000,
    thorough: 400000,
    rule: "two or more modules of which one uses something of another; split and as a single module, or with one fault at an import or a use of an import",
    assumptions: &[
        "modules are evaluated in the order of their first import, depth first",
        "an import cycle is looked for with the command line tool, since what closes it is not in the root module",
    ],
    f: c15,
};

type Mods = BTreeMap<usize, (Printed, Laid)>;

fn c15(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let cfg = Cfg {
        modules: *src.pick(&[(1, 2), (2, 3), (3, 4)]),
        items: *src.pick(&[(1, 5), (2, 7)]),
        fuel: *src.pick(&[16, 10, 24]),
        holes: *src.pick(&[0, 0, 4]),
        types: (0, 3),
        std: 35,
        ..Cfg::default()
    };
    let mut pg = program(src, cfg);
    if src.pct(55) {
        flat(&mut pg, src, case)
    } else {
        fault(&pg, src, case)
    }
}

/// Modules below `m`, in the order they are evaluated, `m` last.
pub fn order(p: &Prog, m: usize, out: &mut Vec<usize>) {
    if p.modules[m].std || out.contains(&m) {
        return;
    }
    for it in &p.modules[m].items {
        if let Item::Import(i) = it {
            order(p, i.target, out);
        }
    }
    out.push(m);
}

fn flat(pg: &mut Program, src: &mut Src, case: &mut Case) -> Result<(), String> {
    let kind = src.weighted(&[65, 35]);
    if kind == 1 {
        for _ in 0..src.urange(1, 2) {
            case.label(mutate(pg, src));
        }
    }
    let mut seq = Vec::new();
    order(&pg.p, pg.root, &mut seq);
    // globally unique names for everything at the top level
    let mut n = 0;
    let mut aliases: Vec<B> = Vec::new();
    for &m in &seq {
        let items = pg.p.modules[m].items.clone();
        for it in &items {
            let mut set = |b: B, p: &mut Prog| {
                n += 1;
                let c = p.binders[b].name.chars().next().unwrap();
                p.binders[b].name = if c.is_ascii_uppercase() { format!("Xq{}", n) } else { format!("xq{}", n) };
            };
            match it {
                Item::Import(i) => aliases.extend(i.alias),
                Item::Type(t) => {
                    set(t.b, &mut pg.p);
                    for c in &t.ctors {
                        set(c.b, &mut pg.p);
                    }
                }
                Item::Val(v) => set(v.b, &mut pg.p),
            }
        }
    }
    // local names and aliases stay; the flat program imports library modules once, by names of its own
    let mut p3 = pg.p.clone();
    let mut items: Vec<Item> = Vec::new();
    for m in 0..p3.modules.len() {
        if p3.modules[m].std {
            n += 1;
            let a = p3.fresh(&format!("Xm{}", n), BK::Module);
            items.push(Item::Import(Import { target: m, alias: Some(a), exposed: None }));
        }
    }
    for &m in &seq {
        for it in &pg.p.modules[m].items {
            let mut it = it.clone();
            match &mut it {
                Item::Import(_) => continue,
                Item::Type(t) if m != pg.root => {
                    t.export = false;
                    t.export_ctors = false;
                }
                Item::Val(v) if m != pg.root => v.export = false,
                _ => {}
            }
            items.push(it);
        }
    }
    // exposed names are spelled as in the module they come from
    for m in seq.iter().copied() {
        let mut its = pg.p.modules[m].items.clone();
        for it in its.iter_mut() {
            if let Item::Import(i) = it {
                for e in i.exposed.iter_mut().flatten() {
                    // what shared a name may not share it now
                    let first = e.binders[0];
                    let name = pg.p.name(first).to_owned();
                    e.binders.retain(|&b| pg.p.name(b) == name);
                    e.name = name;
                }
            }
        }
        pg.p.modules[m].items = its;
    }
    p3.modules[pg.root].items = items;
    for &m in &seq {
        if m != pg.root {
            p3.modules[m].items.clear();
        }
    }
    let style = Style { qual: *src.pick(&[10, 50, 90]), ..Style::default() };
    let Ok(split) = guard(|| pg.render(&style, Layout::PLAIN, src)) else { return case.discard() };
    let pf = Program { p: p3, st: pg.st.clone(), root: pg.root };
    let Ok(one) = guard(|| pf.render(&style, Layout::PLAIN, src)) else { return case.discard() };
    let single = Texts::single(&one.root.1.text);
    case.text = format!("{}\n==== as one module\n{}", split.texts.show(), single.show());
    let uses = split.root.0.toks.iter().any(|t| t.occ.as_ref().map_or(false, |o| !o.def && o.ns != Ns::Module && !in_items(&pg.p, pg.root, o.bs[0]) && seq.iter().any(|&m| in_items(&pg.p, m, o.bs[0]))));
    case.nontrivial = seq.len() >= 2 && uses;
    case.label(["split", "split mutant"][kind]);
    case.label(&format!("{} modules", seq.len()));
    let want = guard(|| Eval::new(&pg.p, pg.st, 20_000).run(pg.root));
    let evals = matches!(&want, Ok(r) if !matches!(r, Err(Stop::Fuel)));
    generated(src);

    let mut wrong = None;
    for (name, text) in split.texts.files.iter().map(|(n, t)| (n.as_str(), t)).chain([("root", &split.texts.root)]) {
        let used = name == "root" || seq.iter().any(|&m| pg.p.modules[m].path == name);
        if !used {
            continue;
        }
        let t = Texts { root: text.clone(), files: split.texts.files.clone() };
        let ds = t.errors()?;
        if !ds.is_empty() {
            wrong = Some(format!("{}: {}", name, fmt_diags(text, &ds)));
        }
    }
    let ds = single.errors()?;
    if wrong.is_some() != !ds.is_empty() {
        return Err(format!("acceptance differs: split {}, as one module {}", wrong.unwrap_or("accepted".into()), if ds.is_empty() { "accepted".into() } else { fmt_diags(&single.root, &ds) }));
    }
    if kind == 0 && wrong.is_some() {
        return Err(format!("well-formed program rejected: {}", wrong.unwrap()));
    }
    if wrong.is_some() || !evals {
        case.label("not evaluated");
        return Ok(());
    }
    for optimize in [false, true] {
        let a = split.texts.run_all(optimize);
        let b = single.run_all(optimize);
        for ((r, a), (_, b)) in a.into_iter().zip(b) {
            let (a, b) = (a.map_err(|p| format!("panic, split: {}", p))?, b.map_err(|p| format!("panic, as one module: {}", p))?);
            let same = match (&a, &b) {
                (Err(_), Err(_)) if optimize => true,
                (Err(_), Ok(_)) | (Ok(_), Err(_)) if optimize && matches!(want, Ok(Err(_))) => true,
                (a, b) => a == b,
            };
            if !same {
                return Err(format!("results differ on {} (optimize {}): split {:?}, as one module {:?}", r, optimize, a, b));
            }
            if let (Ok(x), Ok(Ok(w))) = (&a, &want) {
                if x != w {
                    return Err(format!("wrong result on {} (optimize {}): {:?} instead of {:?}", r, optimize, x, w));
                }
            }
        }
    }
    Ok(())
}

fn in_items(p: &Prog, m: usize, b: B) -> bool {
    p.modules[m].items.iter().any(|it| match it {
        Item::Import(_) => false,
        Item::Type(t) => t.b == b || t.ctors.iter().any(|c| c.b == b),
        Item::Val(v) => v.b == b,
    })
}

fn fault(pg: &Program, src: &mut Src, case: &mut Case) -> Result<(), String> {
    let p = &pg.p;
    let r = pg.render(&Style { qual: *src.pick(&[10, 50, 90]), ..Style::default() }, Layout::PLAIN, src);
    let mut mods: Mods = r.mods.iter().map(|(m, a, b)| (*m, (a.clone(), b.clone()))).collect();
    mods.insert(pg.root, r.root.clone());
    let seq: Vec<usize> = mods.keys().copied().collect();
    let texts = |mods: &Mods, m: usize| Texts {
        root: mods[&m].1.text.clone(),
        files: mods.iter().filter(|(i, _)| **i != pg.root).map(|(i, x)| (p.modules[*i].path.clone(), x.1.text.clone())).collect(),
    };
    // replaces tokens i..=j of module m by one text, gives its extent
    let patch = |mods: &mut Mods, m: usize, i: usize, j: usize, new: &str| -> (usize, usize) {
        let (_, la) = mods.get_mut(&m).unwrap();
        let (a, b) = (la.spans[i].0, la.spans[j].1);
        la.text.replace_range(a..b, new);
        (a, a + new.len())
    };
    // not exported by m, but known in it
    let hidden = |m: usize, src: &mut Src| -> String {
        let mut pool: Vec<String> = Vec::new();
        if let Some((pr, _)) = mods.get(&m) {
            pool.extend(pr.toks.iter().filter(|t| t.kind == TK::Name).map(|t| t.text.clone()));
        }
        pool.push("nothing".into());
        pool.push("List".into());
        pool.retain(|n| [Ns::Value, Ns::Ctor, Ns::Type].iter().all(|&ns| p.export(m, ns, n).is_none()));
        if pool.is_empty() {
            "nothing".into()
        } else {
            src.pick(&pool).clone()
        }
    };
    let importers: Vec<usize> = seq.iter().copied().filter(|&m| p.modules[m].items.iter().any(|i| matches!(i, Item::Import(_)))).collect();
    if importers.is_empty() {
        return case.discard();
    }
    let m = *src.pick(&importers);
    let imports: Vec<usize> = p.modules[m].items.iter().enumerate().filter(|(_, i)| matches!(i, Item::Import(_))).map(|(k, _)| k).collect();
    let kind = src.weighted(&[25, 30, 25, 12, 8]);
    match kind {
        // a name that is not exported in the list of an import
        0 => {
            let k = *src.pick(&imports);
            let Item::Import(im) = &p.modules[m].items[k] else { unreachable!() };
            let name = hidden(im.target, src);
            let (first, last) = mods[&m].0.items[k];
            let open = (first..=last).find(|&i| mods[&m].0.toks[i].text == "(");
            let (a, b) = match open {
                Some(i) => {
                    let (a, _) = patch(&mut mods, m, i, i, &format!("({}, ", name));
                    (a + 1, a + 1 + name.len())
                }
                None => {
                    let i = (first..=last).find(|&i| mods[&m].0.toks[i].text == "from").unwrap();
                    let (a, _) = patch(&mut mods, m, i, i, &format!("({}) from", name));
                    (a + 1, a + 1 + name.len())
                }
            };
            case.label("hidden name in an import list");
            done(case, src, &texts(&mods, m), (a, b), (a, b), "not exported")
        }
        // a qualified name that is not exported
        1 => {
            let toks = &mods[&m].0.toks;
            let spots: Vec<usize> = (0..toks.len()).filter(|&i| toks[i].occ.as_ref().map_or(false, |o| o.qual.is_some())).collect();
            if spots.is_empty() {
                return case.discard();
            }
            let i = *src.pick(&spots);
            let o = toks[i].occ.clone().unwrap();
            let name = hidden(o.qual.unwrap(), src);
            case.label(&format!("hidden {:?}", o.ns));
            patch(&mut mods, m, i, i, &name);
            let a = mods[&m].1.spans[i - 2].0;
            let b = mods[&m].1.spans[i].0 + name.len();
            done(case, src, &texts(&mods, m), (a, b), (a, b), "not exported")
        }
        // something is exported no more
        2 => {
            let mut spots: Vec<(usize, usize, Vec<B>)> = Vec::new();
            for (&d, (pr, _)) in &mods {
                if d == pg.root {
                    continue;
                }
                for (k, it) in p.modules[d].items.iter().enumerate() {
                    let (first, last) = pr.items[k];
                    match it {
                        Item::Val(v) if v.export => spots.push((d, first, vec![v.b])),
                        Item::Type(t) => {
                            if t.export {
                                spots.push((d, first, vec![t.b]));
                            }
                            if t.export_ctors {
                                let i = (first + 1..=last).find(|&i| pr.toks[i].text == "export").unwrap();
                                spots.push((d, i, t.ctors.iter().map(|c| c.b).collect()));
                            }
                        }
                        _ => {}
                    }
                }
            }
            if spots.is_empty() {
                return case.discard();
            }
            let (d, i, bs) = src.pick(&spots).clone();
            patch(&mut mods, d, i, i, "      ");
            case.text = texts(&mods, pg.root).show();
            generated(src);
            let mut used = false;
            for &m in &seq {
                // an earlier export of the same name comes into view: out of scope here
                let (pr, la) = &mods[&m];
                let mut want: Vec<(usize, usize)> = Vec::new();
                let mut any = m == d;
                let mut unclear = false;
                for (i, t) in pr.toks.iter().enumerate() {
                    let Some(o) = &t.occ else { continue };
                    if !o.bs.iter().any(|b| bs.contains(b)) {
                        continue;
                    }
                    any = true;
                    let gone = |ns: Ns| !exports_without(p, d, &bs, ns, &t.text);
                    let gone_all = [Ns::Value, Ns::Ctor, Ns::Type].iter().all(|&ns| gone(ns));
                    if m == d {
                        continue;
                    }
                    if o.qual == Some(d) {
                        if gone(o.ns) {
                            want.push((la.spans[i - 2].0, la.spans[i].1));
                        } else {
                            unclear = true;
                        }
                    } else if o.def {
                        if gone_all {
                            want.push(la.spans[i]);
                        } else {
                            unclear = true;
                        }
                    }
                }
                let ds = texts(&mods, m).errors()?;
                used |= !want.is_empty();
                for &(a, b) in &want {
                    if !ds.iter().any(|e| a <= e.span.start().source_pos() && e.span.end().source_pos() <= b) {
                        return Err(format!("no error where a name that is exported no more is used, module {} at {}: {}", p.modules[m].path, a, fmt_diags(&la.text, &ds)));
                    }
                }
                if (!any || m == d) && !ds.is_empty() {
                    return Err(format!("error in a module that does not use the name, module {}: {}", p.modules[m].path, fmt_diags(&la.text, &ds)));
                }
                case.label_if(unclear, "another export of the name");
            }
            case.label("export removed");
            case.label_if(used, "used elsewhere");
            case.nontrivial = used;
            Ok(())
        }
        // no such module
        3 => {
            let k = *src.pick(&imports);
            let (first, last) = mods[&m].0.items[k];
            let i = (first..=last).find(|&i| mods[&m].0.toks[i].kind == TK::Str).unwrap();
            let old = mods[&m].0.toks[i].text.clone();
            let new = match src.below(4) {
                0 => "\"\"".to_string(),
                1 => "\"std/nothing\"".to_string(),
                2 => old.replace('"', "").chars().rev().collect::<String>().replace('/', "-"),
                _ => format!("{}x\"", &old[..old.len() - 1]),
            };
            let new = if new.starts_with('"') { new } else { format!("\"{}\"", new) };
            if mods.keys().any(|&o| format!("\"{}\"", p.modules[o].path) == new) {
                return case.discard();
            }
            let (a, b) = patch(&mut mods, m, i, i, &new);
            case.label("no such module");
            done(case, src, &texts(&mods, m), (a, b), (a, b), "missing module")
        }
        // a module that is reached imports one on the way to it
        _ => {
            let mut reach = Vec::new();
            order(p, pg.root, &mut reach);
            let d = *src.pick(&reach);
            let mut back: Vec<usize> = reach
                .iter()
                .copied()
                .filter(|&b| {
                    let mut below = Vec::new();
                    order(p, b, &mut below);
                    below.contains(&d)
                })
                .collect();
            back.sort();
            let b = *src.pick(&back);
            let name = |m: usize| if m == pg.root { "main.tic".to_string() } else { p.modules[m].path.clone() };
            let line = match src.below(3) {
                0 => format!("import Zz from \"{}\";\n", name(b)),
                1 => format!("import () from \"{}\";\n", name(b)),
                _ => format!("import from \"{}\";\n", name(b)),
            };
            mods.get_mut(&d).unwrap().1.text.insert_str(0, &line);
            let dir = crate::cli::Scratch::new();
            for (&m, (_, la)) in &mods {
                dir.write(&name(m), &la.text);
            }
            case.text = texts(&mods, pg.root).show();
            case.label("cycle");
            case.nontrivial = true;
            generated(src);
            let o = crate::cli::command(crate::cli::ticc()).arg("main.tic").arg("--check").current_dir(dir.path()).stdin(Stdio::null()).output().expect("cannot run ticc");
            let err = String::from_utf8_lossy(&o.stderr);
            if o.status.code() != Some(1) || !err.contains("import cycle") {
                return Err(format!("cycle not reported: exit code {:?}, {}", o.status.code(), err));
            }
            Ok(())
        }
    }
}

/// Does the module still export the name when these are not exported?
fn exports_without(p: &Prog, m: usize, gone: &[B], ns: Ns, name: &str) -> bool {
    p.modules[m].items.iter().any(|it| match it {
        Item::Import(_) => false,
        Item::Type(t) => (t.export && ns == Ns::Type && !gone.contains(&t.b) && p.name(t.b) == name) || (t.export_ctors && (ns == Ns::Ctor || ns == Ns::Value) && t.ctors.iter().any(|c| !gone.contains(&c.b) && p.name(c.b) == name)),
        Item::Val(v) => v.export && ns == Ns::Value && !gone.contains(&v.b) && p.name(v.b) == name,
    })
}

fn done(case: &mut Case, src: &mut Src, t: &Texts, want: (usize, usize), _item: (usize, usize), what: &str) -> Result<(), String> {
    case.text = t.show();
    case.nontrivial = true;
    generated(src);
    let ds = t.errors()?;
    if !ds.iter().any(|e| want.0 <= e.span.start().source_pos() && e.span.end().source_pos() <= want.1) {
        return Err(format!("no error at the place, {} at {}..{}: {}", what, want.0, want.1, fmt_diags(&t.root, &ds)));
    }
    Ok(())
}
