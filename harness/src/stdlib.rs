//! What the standard library is specified to contain: names, types, models.

use crate::ast::*;
use std::rc::Rc;

pub const STD: &[(&str, &[(&str, &str)])] = &[
    ("std/intrinsics", &[
        ("iterate", "int -> (a -> a) -> a -> a"),
        ("stringLength", "string -> int"),
        ("stringConcat", "string -> string -> string"),
        ("stringCharAt", "int -> string -> int"),
        ("stringSubstring", "int -> int -> string -> string"),
        ("stringFromChar", "int -> string"),
        ("intToString", "int -> string"),
    ]),
    ("std/option", &[
        ("map", "(a -> b) -> Option a -> Option b"),
        ("andThen", "(a -> Option b) -> Option a -> Option b"),
        ("flatten", "Option (Option a) -> Option a"),
        ("unwrapOr", "a -> Option a -> a"),
        ("apply", "Option a -> Option (a -> b) -> Option b"),
        ("isSome", "Option a -> bool"),
        ("isNone", "Option a -> bool"),
    ]),
    ("std/result", &[
        ("map", "(a -> b) -> Result a e -> Result b e"),
        ("mapErr", "(a -> b) -> Result t a -> Result t b"),
        ("andThen", "(a -> Result b e) -> Result a e -> Result b e"),
        ("flatten", "Result (Result a e) e -> Result a e"),
        ("unwrapOr", "a -> Result a e -> a"),
        ("ok", "Result a e -> Option a"),
        ("err", "Result a e -> Option e"),
        ("okOr", "e -> Option a -> Result a e"),
        ("apply", "Result a e -> Result (a -> b) e -> Result b e"),
        ("join", "Result a a -> a"),
    ]),
    ("std/list", &[
        ("map", "(a -> b) -> List a -> List b"),
        ("filter", "(a -> bool) -> List a -> List a"),
        ("sum", "List int -> int"),
        ("product", "List int -> int"),
        ("any", "List bool -> bool"),
        ("all", "List bool -> bool"),
        ("head", "List a -> Option a"),
        ("tail", "List a -> Option (List a)"),
        ("reverse", "List a -> List a"),
        ("max", "List int -> Option int"),
        ("min", "List int -> Option int"),
        ("maxBy", "(a -> a -> bool) -> List a -> Option a"),
        ("minBy", "(a -> a -> bool) -> List a -> Option a"),
        ("allSome", "List (Option a) -> Option (List a)"),
        ("allOk", "List (Result a e) -> Result (List a) e"),
        ("skip", "int -> List a -> List a"),
        ("take", "int -> List a -> List a"),
        ("length", "List a -> int"),
        ("foldr", "(a -> b -> b) -> b -> List a -> b"),
        ("foldl", "b -> (b -> a -> b) -> List a -> b"),
        ("repeat", "int -> a -> List a"),
        ("filterMap", "(a -> Option b) -> List a -> List b"),
        ("concat", "List a -> List a -> List a"),
        ("sortBy", "(a -> a -> bool) -> List a -> List a"),
        ("join", "string -> List string -> string"),
        ("range", "int -> int -> List int"),
        ("zip", "(a -> b -> c) -> List a -> List b -> List c"),
        ("flatMap", "(a -> List b) -> List a -> List b"),
        ("flatten", "List (List a) -> List a"),
    ]),
    ("std/string", &[
        ("length", "string -> int"),
        ("concat", "string -> string -> string"),
        ("charAt", "int -> string -> int"),
        ("substring", "int -> int -> string -> string"),
        ("fromChar", "int -> string"),
        ("split", "int -> string -> List string"),
        ("lines", "string -> List string"),
        ("foldChars", "a -> (a -> int -> a) -> string -> a"),
        ("equal", "string -> string -> bool"),
        ("startsWith", "string -> string -> bool"),
        ("chars", "string -> List int"),
        ("trim", "string -> string"),
        ("newline", "string"),
    ]),
    ("std/int", &[
        ("iterate", "int -> (a -> a) -> a -> a"),
        ("toString", "int -> string"),
        ("parse", "string -> Result int ParseErr"),
        ("min", "int -> int -> int"),
        ("max", "int -> int -> int"),
        ("gcd", "int -> int -> int"),
        ("lcm", "int -> int -> int"),
        ("bitXor", "int -> int -> int"),
        ("bitAnd", "int -> int -> int"),
        ("bitOr", "int -> int -> int"),
    ]),
    ("std/array", &[
        ("length", "Array a -> int"),
        ("empty", "Array a"),
        ("new", "int -> a -> Array a"),
        ("mapIdx", "int -> (a -> a) -> Array a -> Array a"),
        ("get", "int -> Array a -> Option a"),
        ("set", "int -> a -> Array a -> Array a"),
        ("toList", "Array a -> List a"),
        ("fromList", "List a -> Array a"),
        ("truncate", "int -> Array a -> Array a"),
    ]),
];

/// Where the std types sit among the binders of a fresh program.
#[derive(Clone, Copy, Debug)]
pub struct StdTypes {
    pub option: B,
    pub none: B,
    pub some: B,
    pub result: B,
    pub ok: B,
    pub err: B,
    pub list: B,
    pub nil: B,
    pub cons: B,
    pub array: B,
    pub parse_err: B,
    pub parse_err_c: B,
}

/// Argument positions whose value is a repetition count.
pub fn count_param(module: &str, name: &str, idx: usize) -> bool {
    matches!(
        (module, name, idx),
        ("std/intrinsics", "iterate", 0)
            | ("std/int", "iterate", 0)
            | ("std/list", "skip", 0)
            | ("std/list", "take", 0)
            | ("std/list", "repeat", 0)
            | ("std/list", "range", _)
            | ("std/array", "new", 0)
    )
}

fn declare(p: &mut Prog, name: &str, params: &[&str], ctors: &[(&str, Vec<Option<usize>>)], export_ctors: bool) -> (TypeDecl, Vec<B>) {
    let b = p.fresh(name, BK::Type);
    let ps: Vec<B> = params.iter().map(|n| p.fresh(n, BK::TyVar)).collect();
    let mut cs = Vec::new();
    let mut ids = Vec::new();
    for (i, (n, fields)) in ctors.iter().enumerate() {
        let cb = p.fresh(n, BK::Ctor(b, i));
        ids.push(cb);
        cs.push(CtorDecl {
            b: cb,
            fields: fields
                .iter()
                .map(|f| match f {
                    Some(i) => Field::Ty(Ty::Var(ps[*i])),
                    None => Field::Rec,
                })
                .collect(),
        });
    }
    let d = TypeDecl { b, params: ps, ctors: cs, export: true, export_ctors };
    p.decls.insert(b, Rc::new(d.clone()));
    (d, ids)
}

/// A program containing only the std modules (indices 0..7).
pub fn base() -> (Prog, StdTypes) {
    let mut p = Prog { binders: Vec::new(), modules: Vec::new(), decls: Default::default(), next_id: 0 };
    let (opt, oc) = declare(&mut p, "Option", &["a"], &[("None", vec![]), ("Some", vec![Some(0)])], true);
    let (res, rc) = declare(&mut p, "Result", &["t", "e"], &[("Ok", vec![Some(0)]), ("Err", vec![Some(1)])], true);
    let (list, lc) = declare(&mut p, "List", &["a"], &[("Nil", vec![]), ("Cons", vec![Some(0), None])], true);
    // the representation of arrays is private
    let (arr, _) = declare(&mut p, "Array", &["a"], &[("NonEmptyArray", vec![]), ("EmptyArray", vec![])], false);
    let (pe, pc) = declare(&mut p, "ParseErr", &[], &[("ParseErr", vec![])], true);
    let st = StdTypes {
        option: opt.b,
        none: oc[0],
        some: oc[1],
        result: res.b,
        ok: rc[0],
        err: rc[1],
        list: list.b,
        nil: lc[0],
        cons: lc[1],
        array: arr.b,
        parse_err: pe.b,
        parse_err_c: pc[0],
    };
    for (path, funs) in STD {
        let mut items = Vec::new();
        match *path {
            "std/option" => items.push(Item::Type(opt.clone())),
            "std/result" => items.push(Item::Type(res.clone())),
            "std/list" => items.push(Item::Type(list.clone())),
            "std/array" => items.push(Item::Type(arr.clone())),
            "std/int" => items.push(Item::Type(pe.clone())),
            _ => {}
        }
        for (name, ty) in *funs {
            let mut vars: Vec<(String, B)> = Vec::new();
            let t = parse_ty(&mut p, &st, ty, &mut vars);
            let b = p.fresh(name, BK::Value(Scheme { vars: vars.iter().map(|v| v.1).collect(), ty: t.clone() }));
            let e = p.mk(t, K::Hole("intrinsic".into()));
            items.push(Item::Val(ValDecl { b, ann: true, export: true, e }));
        }
        p.modules.push(Module { path: (*path).to_owned(), std: true, items });
    }
    (p, st)
}

fn parse_ty(p: &mut Prog, st: &StdTypes, s: &str, vars: &mut Vec<(String, B)>) -> Ty {
    let mut toks: Vec<String> = Vec::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            ' ' => {}
            '(' | ')' => toks.push(c.to_string()),
            '-' => {
                it.next();
                toks.push("->".into());
            }
            c => {
                let mut w = c.to_string();
                while let Some(c) = it.peek() {
                    if c.is_alphanumeric() {
                        w.push(*c);
                        it.next();
                    } else {
                        break;
                    }
                }
                toks.push(w);
            }
        }
    }
    toks.reverse();
    fn atom(p: &mut Prog, st: &StdTypes, t: &mut Vec<String>, vars: &mut Vec<(String, B)>, app: bool) -> Option<Ty> {
        let w = t.last()?.clone();
        if w == ")" || w == "->" {
            return None;
        }
        t.pop();
        Some(match w.as_str() {
            "(" => {
                let r = whole(p, st, t, vars);
                t.pop();
                r
            }
            "int" => Ty::Int,
            "bool" => Ty::Bool,
            "string" => Ty::Str,
            "List" | "Option" | "Result" | "Array" | "ParseErr" => {
                let c = match w.as_str() {
                    "List" => st.list,
                    "Option" => st.option,
                    "Result" => st.result,
                    "Array" => st.array,
                    _ => st.parse_err,
                };
                let mut args = Vec::new();
                if app {
                    while let Some(a) = atom(p, st, t, vars, false) {
                        args.push(a);
                    }
                }
                Ty::Con(c, args)
            }
            v => {
                if let Some((_, b)) = vars.iter().find(|(n, _)| n == v) {
                    Ty::Var(*b)
                } else {
                    let b = p.fresh(v, BK::TyVar);
                    vars.push((v.to_owned(), b));
                    Ty::Var(b)
                }
            }
        })
    }
    fn whole(p: &mut Prog, st: &StdTypes, t: &mut Vec<String>, vars: &mut Vec<(String, B)>) -> Ty {
        let a = atom(p, st, t, vars, true).unwrap();
        if t.last().map(|s| s.as_str()) == Some("->") {
            t.pop();
            let b = whole(p, st, t, vars);
            Ty::func(a, b)
        } else {
            a
        }
    }
    whole(p, st, &mut toks, vars)
}
