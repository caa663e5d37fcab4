//! Independent model of a grammar and of its concrete syntax.
use crate::util::Rng;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sym {
    Lit(String),
    Nt(String),
    /// exactly as written between the quotes
    Re(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Body {
    pub syms: Vec<(Option<String>, Sym)>,
    pub map: String,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Prod {
    pub name: String,
    pub ts: String,
    pub start: bool,
    pub bodies: Vec<Body>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Gram {
    pub prods: Vec<Prod>,
}

/// Layout choices; none of them may change what is read.
#[derive(Clone, Copy)]
pub struct Layout {
    pub wild: bool,
}

pub fn escape_lit(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
        }
        o.push(c);
    }
    o
}

impl Gram {
    pub fn print(&self) -> String {
        self.print_with(&mut Rng::new(0), Layout { wild: false })
    }

    pub fn print_with(&self, rng: &mut Rng, lay: Layout) -> String {
        let mut toks: Vec<String> = vec![];
        for p in &self.prods {
            if p.start {
                toks.push("export".into());
                toks.push("start".into());
            } else if !lay.wild || rng.chance(1, 2) {
                toks.push("export".into());
            }
            toks.push(p.name.clone());
            toks.push(":".into());
            toks.push(format!("({})", p.ts));
            toks.push("=".into());
            toks.push("[".into());
            for (i, b) in p.bodies.iter().enumerate() {
                for (n, s) in &b.syms {
                    if let Some(n) = n {
                        toks.push("<".into());
                        toks.push(n.clone());
                        toks.push(":".into());
                    }
                    match s {
                        Sym::Lit(l) => toks.push(format!("\"{}\"", escape_lit(l))),
                        Sym::Nt(l) => toks.push(l.clone()),
                        Sym::Re(l) => {
                            toks.push("r".into());
                            toks.push(format!("\"{}\"", l));
                        }
                    }
                    if n.is_some() {
                        toks.push(">".into());
                    }
                }
                toks.push("=>".into());
                toks.push(format!("({})", b.map));
                if i + 1 < p.bodies.len() || (lay.wild && rng.chance(1, 2)) {
                    toks.push(",".into());
                }
            }
            toks.push("]".into());
        }
        let mut o = String::new();
        if lay.wild && rng.chance(1, 3) {
            o.push_str(ws(rng));
        }
        for i in 0..toks.len() {
            o.push_str(&toks[i]);
            if i + 1 == toks.len() {
                break;
            }
            let (a, b) = (&toks[i], &toks[i + 1]);
            // a fragment is greedy to the last `)` of its line: keep other `)` off its line
            let ends_frag = a.starts_with('(');
            let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
            let glue_ok = !(a.ends_with(word) && b.starts_with(word)) && !(a == "=" && b.starts_with('>'));
            // does a `)` occur later before a newline we are not sure to emit?
            let later_paren = ends_frag && toks[i + 1..].iter().any(|t| t.contains(')'));
            if later_paren {
                let s = if lay.wild { ws(rng) } else { "" };
                o.push_str(s);
                if !s.contains('\n') {
                    o.push('\n');
                }
            } else if lay.wild {
                if !(glue_ok && rng.chance(1, 3)) {
                    o.push_str(ws(rng));
                }
            } else {
                o.push(' ');
            }
        }
        if lay.wild && rng.chance(1, 2) {
            o.push_str(ws(rng));
        }
        o
    }

    pub fn prod(&self, name: &str) -> Option<&Prod> {
        self.prods.iter().find(|p| p.name == name)
    }
}

fn ws(rng: &mut Rng) -> &'static str {
    if rng.chance(1, 60) {
        return WS_LONG;
    }
    rng.pick(&[
        " ", "  ", "\n", "\n\n", "\t", " \n ", "\r\n", "   \t \n", "\u{a0}", "\u{2003}", "\u{c}", "\u{b} ", "\u{3000}", "\u{2028}", "\u{85}", "\r",
        "\n        ",
    ])
}

const WS_LONG: &str = concat!(
    "                                                                                        ",
    "\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\t\t\t\t\t\t\t\t"
);

/// One terminal or nonterminal number in the indexed grammar.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum S {
    T(u32),
    N(u32),
}

/// Indexed grammar: terminal 0 is the end marker, rule 0 the added start rule.
#[derive(Clone, Debug)]
pub struct Cfg {
    /// terminals[0] is a placeholder for the end marker
    pub terminals: Vec<Sym>,
    /// nonterminals[0] is the added start
    pub nts: Vec<String>,
    pub rules: Vec<(u32, Vec<S>)>,
    pub by_nt: Vec<Vec<usize>>,
}

impl Cfg {
    /// The start is the first production marked so. None if there is none.
    pub fn of(g: &Gram) -> Option<Cfg> {
        let start = g.prods.iter().find(|p| p.start)?.name.clone();
        let mut c = Cfg {
            terminals: vec![Sym::Lit("<end>".into())],
            nts: vec![format!("{}'", start)],
            rules: vec![],
            by_nt: vec![],
        };
        let mut raw: Vec<(String, Vec<Sym>)> = vec![];
        for p in &g.prods {
            for b in &p.bodies {
                raw.push((p.name.clone(), b.syms.iter().map(|(_, s)| s.clone()).collect()));
            }
        }
        fn nt(c: &mut Cfg, n: &str) -> u32 {
            // the added start (index 0) is not nameable in the source
            if let Some(i) = c.nts.iter().skip(1).position(|x| x == n) {
                return i as u32 + 1;
            }
            c.nts.push(n.to_string());
            c.nts.len() as u32 - 1
        }
        let s = nt(&mut c, &start);
        c.rules.push((0, vec![S::N(s)]));
        for (lhs, rhs) in raw {
            let l = nt(&mut c, &lhs);
            let mut r = vec![];
            for s in rhs {
                match s {
                    Sym::Nt(n) => {
                        let i = nt(&mut c, &n);
                        r.push(S::N(i));
                    }
                    t => {
                        let i = match c.terminals.iter().skip(1).position(|x| *x == t) {
                            Some(i) => i + 1,
                            None => {
                                c.terminals.push(t);
                                c.terminals.len() - 1
                            }
                        };
                        r.push(S::T(i as u32));
                    }
                }
            }
            c.rules.push((l, r));
        }
        c.by_nt = vec![vec![]; c.nts.len()];
        for (i, (l, _)) in c.rules.iter().enumerate() {
            c.by_nt[*l as usize].push(i);
        }
        Some(c)
    }

    pub fn term(&self, s: &Sym) -> Option<u32> {
        self.terminals.iter().skip(1).position(|x| x == s).map(|i| i as u32 + 1)
    }
    pub fn nt(&self, n: &str) -> Option<u32> {
        self.nts.iter().skip(1).position(|x| x == n).map(|i| i as u32 + 1)
    }

    /// Nonterminals used somewhere reachable from the start that have no rule.
    pub fn undefined_reachable(&self) -> bool {
        let mut seen = vec![false; self.nts.len()];
        let mut st = vec![0usize];
        seen[0] = true;
        while let Some(n) = st.pop() {
            if self.by_nt[n].is_empty() {
                return true;
            }
            for &r in &self.by_nt[n] {
                for s in &self.rules[r].1 {
                    if let S::N(m) = s {
                        if !seen[*m as usize] {
                            seen[*m as usize] = true;
                            st.push(*m as usize);
                        }
                    }
                }
            }
        }
        false
    }

    pub fn all_defined(&self) -> bool {
        self.by_nt.iter().all(|r| !r.is_empty())
    }

    /// Every nonterminal derives a terminal string and is reachable.
    pub fn reduced(&self) -> bool {
        let mut prod = vec![false; self.nts.len()];
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if !prod[*l as usize]
                    && r.iter().all(|s| match s {
                        S::T(_) => true,
                        S::N(n) => prod[*n as usize],
                    })
                {
                    prod[*l as usize] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut seen = vec![false; self.nts.len()];
        seen[0] = true;
        let mut st = vec![0u32];
        while let Some(n) = st.pop() {
            for &r in &self.by_nt[n as usize] {
                for s in &self.rules[r].1 {
                    if let S::N(m) = s {
                        if !seen[*m as usize] {
                            seen[*m as usize] = true;
                            st.push(*m);
                        }
                    }
                }
            }
        }
        prod.iter().all(|x| *x) && seen.iter().all(|x| *x)
    }

    /// Minimal height of a derivation of a terminal string per nonterminal.
    pub fn min_height(&self) -> Vec<u32> {
        let mut h = vec![u32::MAX; self.nts.len()];
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                let mut m = 0u32;
                for s in r {
                    if let S::N(n) = s {
                        m = m.max(h[*n as usize]);
                    }
                }
                if m != u32::MAX && m + 1 < h[*l as usize] {
                    h[*l as usize] = m + 1;
                    ch = true;
                }
            }
            if !ch {
                return h;
            }
        }
    }

    /// Nonterminals that can derive themselves again, and those leading to one.
    fn recursive(&self) -> Vec<bool> {
        let n = self.nts.len();
        let mut reach = vec![vec![false; n]; n];
        for (l, r) in &self.rules {
            for s in r {
                if let S::N(m) = s {
                    reach[*l as usize][*m as usize] = true;
                }
            }
        }
        for k in 0..n {
            for i in 0..n {
                if reach[i][k] {
                    for j in 0..n {
                        if reach[k][j] {
                            reach[i][j] = true;
                        }
                    }
                }
            }
        }
        (0..n).map(|i| (0..n).any(|j| (i == j || reach[i][j]) && reach[j][j])).collect()
    }

    /// Random sentence that keeps growing for about `budget` steps where the grammar allows it.
    pub fn long_sentence(&self, rng: &mut Rng, budget: usize) -> Option<Vec<u32>> {
        let rec = self.recursive();
        self.derive(rng, budget, |rule| self.rules[rule].1.iter().any(|s| matches!(s, S::N(n) if rec[*n as usize])), 20000)
    }

    /// Random sentence (terminal numbers) derived from the start; None if unproductive.
    pub fn sentence(&self, rng: &mut Rng, budget: usize) -> Option<Vec<u32>> {
        self.derive(rng, budget, |_| false, 4000)
    }

    fn derive(&self, rng: &mut Rng, budget: usize, prefer: impl Fn(usize) -> bool, limit: usize) -> Option<Vec<u32>> {
        let h = self.min_height();
        if h[0] == u32::MAX {
            return None;
        }
        let mut out = vec![];
        let mut stack = vec![S::N(0)];
        let mut steps = 0;
        while let Some(s) = stack.pop() {
            match s {
                S::T(t) => out.push(t),
                S::N(n) => {
                    steps += 1;
                    let rules: Vec<usize> = self.by_nt[n as usize]
                        .iter()
                        .copied()
                        .filter(|r| {
                            let (_, rhs) = &self.rules[*r];
                            let m = rhs
                                .iter()
                                .map(|s| if let S::N(n) = s { h[*n as usize] } else { 0 })
                                .max()
                                .unwrap_or(0);
                            m != u32::MAX && (steps < budget || m + 1 == h[n as usize])
                        })
                        .collect();
                    if rules.is_empty() || steps > limit {
                        return None;
                    }
                    let grow: Vec<usize> = rules.iter().copied().filter(|r| steps < budget && prefer(*r)).collect();
                    let rules = if grow.is_empty() || rng.chance(1, 40) { rules } else { grow };
                    let r = *rng.pick(&rules);
                    for s in self.rules[r].1.iter().rev() {
                        stack.push(*s);
                    }
                }
            }
        }
        Some(out)
    }
}
