//! A recognizer for single items. It errs on the side of accepting.

use crate::lexref::{lex, L};

struct R<'a> {
    t: Vec<(&'a str, L)>,
    i: usize,
}

type Ok_ = Option<()>;

impl<'a> R<'a> {
    fn at(&self, s: &str) -> bool {
        self.t.get(self.i).map_or(false, |t| t.0 == s && !matches!(t.1, L::Str))
    }
    fn kind(&self) -> Option<L> {
        self.t.get(self.i).map(|t| t.1)
    }
    fn eat(&mut self, s: &str) -> bool {
        let a = self.at(s);
        if a {
            self.i += 1;
        }
        a
    }
    fn need(&mut self, s: &str) -> Ok_ {
        if self.eat(s) {
            Some(())
        } else {
            None
        }
    }
    fn name(&mut self) -> Ok_ {
        if self.kind() == Some(L::Name) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn item(&mut self) -> Ok_ {
        if self.eat("import") {
            let _ = self.name();
            if self.eat("(") {
                loop {
                    if self.eat(")") {
                        break;
                    }
                    self.name()?;
                    if !self.eat(",") {
                        self.need(")")?;
                        break;
                    }
                }
            }
            self.need("from")?;
            if self.kind() != Some(L::Str) {
                return None;
            }
            self.i += 1;
            return self.need(";");
        }
        self.eat("export");
        if self.eat("type") {
            self.name()?;
            while self.name().is_some() {}
            self.need("=")?;
            self.eat("export");
            self.eat("|");
            loop {
                self.name()?;
                loop {
                    if self.eat("rec") {
                        continue;
                    }
                    let k = self.i;
                    if self.type_atom().is_none() {
                        if self.i != k {
                            return None;
                        }
                        break;
                    }
                }
                if !self.eat("|") {
                    break;
                }
            }
            return self.need(";");
        }
        self.need("let")?;
        self.name()?;
        if self.eat(":") {
            self.type_()?;
        }
        self.need("=")?;
        self.expr()?;
        self.need(";")
    }
    fn type_atom(&mut self) -> Ok_ {
        if self.eat("int") || self.eat("bool") || self.eat("string") {
            return Some(());
        }
        if self.eat("(") {
            self.type_()?;
            return self.need(")");
        }
        self.name()?;
        if self.eat(".") {
            self.name()?;
        }
        Some(())
    }
    fn type_(&mut self) -> Ok_ {
        self.type_atom()?;
        loop {
            let k = self.i;
            if self.type_atom().is_none() {
                if self.i != k {
                    return None;
                }
                break;
            }
        }
        if self.eat("->") {
            self.type_()?;
        }
        Some(())
    }
    fn expr(&mut self) -> Ok_ {
        loop {
            if self.eat("let") {
                self.name()?;
                if self.eat(":") {
                    self.type_()?;
                }
                self.need("=")?;
                self.expr()?;
                self.need(";")?;
                return self.expr();
            }
            if self.eat("if") {
                self.expr()?;
                self.need("then")?;
                self.expr()?;
                self.need("else")?;
                return self.expr();
            }
            if self.eat("\\") {
                self.eat("fold");
                self.name()?;
                self.need("->")?;
                return self.expr();
            }
            if self.eat("match") {
                self.expr()?;
                self.need("with")?;
                while self.eat("|") {
                    self.name()?;
                    if self.eat(".") {
                        self.name()?;
                    }
                    while self.name().is_some() {}
                    self.need("->")?;
                    self.expr()?;
                }
                self.need("end")?;
            } else {
                self.atom()?;
                loop {
                    let k = self.i;
                    if self.atom().is_none() {
                        if self.i != k {
                            return None;
                        }
                        break;
                    }
                }
            }
            if self.kind() == Some(L::Oper) {
                self.i += 1;
            } else {
                return Some(());
            }
        }
    }
    fn atom(&mut self) -> Ok_ {
        if self.eat("true") || self.eat("false") {
            return Some(());
        }
        match self.kind()? {
            L::Number | L::Str | L::Hole => {
                self.i += 1;
                return Some(());
            }
            L::Name => {
                self.i += 1;
                if self.eat(".") {
                    self.name()?;
                }
                return Some(());
            }
            _ => {}
        }
        self.need("(")?;
        self.expr()?;
        self.need(")")
    }
}

/// `false` only where the text is certainly not one item.
pub fn maybe_item(text: &str) -> bool {
    let Some(ts) = lex(text) else { return false };
    let t: Vec<(&str, L)> = ts.into_iter().filter(|t| t.2 != L::Comment).map(|(a, b, l)| (&text[a..b], l)).collect();
    let n = t.len();
    let mut r = R { t, i: 0 };
    r.item().is_some() && r.i == n
}
