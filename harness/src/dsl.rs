//! Independent reader of the grammar language: own scanner, own recursive descent.
use crate::model::*;

#[derive(Clone, Debug, PartialEq)]
enum T {
    P(&'static str),
    Str(String),
    Id(String),
    Frag(String),
}

fn scan(src: &str) -> Result<Vec<T>, String> {
    let cs: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        match c {
            '(' => {
                // runs to the last closing parenthesis on its line
                let mut end = None;
                let mut j = i + 1;
                while j < cs.len() && cs[j] != '\n' {
                    if cs[j] == ')' {
                        end = Some(j);
                    }
                    j += 1;
                }
                let e = end.ok_or("unclosed fragment")?;
                out.push(T::Frag(cs[i + 1..e].iter().collect()));
                i = e + 1;
            }
            '"' => {
                let mut s = String::new();
                let mut j = i + 1;
                loop {
                    match cs.get(j) {
                        None => return Err("unclosed string".into()),
                        Some('"') => break,
                        Some('\\') => match cs.get(j + 1) {
                            Some(e @ ('\\' | '"')) => {
                                s.push('\\');
                                s.push(*e);
                                j += 2;
                            }
                            _ => return Err("bad escape".into()),
                        },
                        Some(c) => {
                            s.push(*c);
                            j += 1;
                        }
                    }
                }
                out.push(T::Str(s));
                i = j + 1;
            }
            '=' => {
                if cs.get(i + 1) == Some(&'>') {
                    out.push(T::P("=>"));
                    i += 2;
                } else {
                    out.push(T::P("="));
                    i += 1;
                }
            }
            ':' | '[' | ']' | ',' | '<' | '>' => {
                out.push(T::P(match c {
                    ':' => ":",
                    '[' => "[",
                    ']' => "]",
                    ',' => ",",
                    '<' => "<",
                    _ => ">",
                }));
                i += 1;
            }
            c if c.is_ascii_alphabetic() || c == '_' => {
                let mut j = i;
                while j < cs.len() && (cs[j].is_ascii_alphanumeric() || cs[j] == '_') {
                    j += 1;
                }
                let w: String = cs[i..j].iter().collect();
                out.push(match w.as_str() {
                    "export" => T::P("export"),
                    "start" => T::P("start"),
                    "r" => T::P("r"),
                    _ => T::Id(w),
                });
                i = j;
            }
            _ => return Err(format!("unexpected character {:?}", c)),
        }
    }
    Ok(out)
}

fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            if let Some(n) = it.next() {
                o.push(n);
            }
        } else {
            o.push(c);
        }
    }
    o
}

struct P {
    t: Vec<T>,
    i: usize,
}

type R<X> = Result<X, String>;

impl P {
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), Some(T::P(q)) if *q == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        if self.is(p) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            Ok(())
        } else {
            Err(format!("expected {} at token {}", p, self.i))
        }
    }
    fn id(&mut self) -> R<String> {
        match self.peek() {
            Some(T::Id(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            _ => Err(format!("expected name at token {}", self.i)),
        }
    }
    fn frag(&mut self) -> R<String> {
        match self.peek() {
            Some(T::Frag(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            _ => Err(format!("expected fragment at token {}", self.i)),
        }
    }
    fn symbol(&mut self) -> R<Sym> {
        match self.peek().cloned() {
            Some(T::Str(s)) => {
                self.i += 1;
                Ok(Sym::Lit(unescape(&s)))
            }
            Some(T::P("r")) => {
                self.i += 1;
                match self.peek().cloned() {
                    Some(T::Str(s)) => {
                        self.i += 1;
                        Ok(Sym::Re(s))
                    }
                    _ => Err("expected regex".into()),
                }
            }
            Some(T::Id(s)) => {
                self.i += 1;
                Ok(Sym::Nt(s))
            }
            _ => Err(format!("expected symbol at token {}", self.i)),
        }
    }
    fn body(&mut self) -> R<Body> {
        let mut syms = vec![];
        while !self.is("=>") {
            if self.eat("<") {
                let n = self.id()?;
                self.need(":")?;
                let s = self.symbol()?;
                self.need(">")?;
                syms.push((Some(n), s));
            } else {
                syms.push((None, self.symbol()?));
            }
        }
        if syms.is_empty() {
            return Err("empty alternative".into());
        }
        self.need("=>")?;
        let map = self.frag()?;
        Ok(Body { syms, map })
    }
    fn prod(&mut self) -> R<Prod> {
        let exp = self.eat("export");
        let start = if exp { self.eat("start") } else { false };
        let name = self.id()?;
        self.need(":")?;
        let ts = self.frag()?;
        self.need("=")?;
        self.need("[")?;
        let mut bodies = vec![];
        while !self.is("]") {
            bodies.push(self.body()?);
            if !self.eat(",") {
                break;
            }
        }
        self.need("]")?;
        Ok(Prod {
            name,
            ts,
            start,
            bodies,
        })
    }
}

pub fn read(src: &str) -> Result<Gram, String> {
    let mut p = P { t: scan(src)?, i: 0 };
    let mut g = Gram::default();
    loop {
        g.prods.push(p.prod()?);
        if p.peek().is_none() {
            return Ok(g);
        }
    }
}
