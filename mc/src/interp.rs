//! A small evaluator for the Rust that the generators emit.  It gives the meaning of the generated
//! functions (next_action, goto_state, ...) for given arguments without compiling them, so that
//! very many generated parsers can be explored.  It evaluates the code, not its layout: match arms,
//! if chains, helper functions, constants, let bindings, early returns etc. in any arrangement.
//! (The evaluator itself is validated against rustc by the C15 check.)
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum V {
    Unit,
    Bool(bool),
    Int(i64),
    Str(String),
    Term(u16),
    Nt(u16),
    Data(String, Vec<V>),
    Tuple(Vec<V>),
    Set(BTreeSet<V>),
    List(Vec<V>),
    /// symbolic attributes
    Rhs(usize),
    Default,
    Call(String, Vec<V>),
    /// attribute at "length minus n" of the parse stack
    Stack(usize),
    Token(u16),
    Attrs,
    Myself,
    Inject,
    Fmt,
    Closure(usize),
}

#[derive(Debug, Clone)]
pub enum Stop {
    Panic(String),
    Return(V),
    Unsupported(String),
}
type R = Result<V, Stop>;

fn unsup<T>(s: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Unsupported(s.into()))
}

pub struct Program {
    pub terms: Vec<String>,
    pub nts: Vec<String>,
    term_ix: HashMap<String, u16>,
    nt_ix: HashMap<String, u16>,
    fns: BTreeMap<String, (syn::Signature, syn::Block)>,
    consts: BTreeMap<String, syn::Expr>,
    display: BTreeMap<String, (syn::Signature, syn::Block)>,
    lexer: Vec<syn::Expr>,
    pub trait_path: String,
    pub self_ty: String,
    pub file: syn::File,
    /// dispatch of large matches, by place in the source and kind of value
    arms: std::cell::RefCell<HashMap<(usize, u8), (HashMap<i64, usize>, usize)>>,
}

#[derive(Default)]
pub struct Run {
    pub env: Vec<(String, V)>,
    pub out: String,
    pub effects: Vec<(V, V)>,
    /// answers for successive predicate calls, and the calls made
    pub script: Vec<bool>,
    pub asked: Vec<(String, Vec<V>)>,
    pub closures: Vec<(Vec<syn::Pat>, syn::Expr)>,
    pub depth: usize,
    pub fuel: u64,
}

fn scalar(v: &V) -> Option<(u8, i64)> {
    match v {
        V::Int(i) => Some((0, *i)),
        V::Term(t) => Some((1, *t as i64)),
        V::Nt(t) => Some((2, *t as i64)),
        _ => None,
    }
}

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

fn find_lexer(ts: proc_macro2::TokenStream, out: &mut Vec<proc_macro2::TokenStream>) {
    use proc_macro2::TokenTree as T;
    let v: Vec<T> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        if let T::Group(g) = t {
            if i >= 4
                && v[i - 1].to_string() == "new"
                && v[i - 2].to_string() == ":"
                && v[i - 3].to_string() == ":"
                && v[i - 4].to_string() == "LexicalAnalyzer"
                && g.delimiter() == proc_macro2::Delimiter::Parenthesis
            {
                out.push(g.stream());
            }
            find_lexer(g.stream(), out);
        }
    }
}

impl Program {
    pub fn parse(code: &str) -> Result<Program, String> {
        let file = syn::parse_file(code).map_err(|e| {
            let s = e.span().start();
            format!("generated code is not Rust: {e} at {}:{}", s.line, s.column)
        })?;
        let mut p = Program {
            terms: vec![],
            nts: vec![],
            term_ix: HashMap::new(),
            nt_ix: HashMap::new(),
            fns: BTreeMap::new(),
            consts: BTreeMap::new(),
            display: BTreeMap::new(),
            lexer: vec![],
            trait_path: String::new(),
            self_ty: String::new(),
            file: file.clone(),
            arms: Default::default(),
        };
        for it in &file.items {
            match it {
                syn::Item::Enum(e) => {
                    let names: Vec<String> =
                        e.variants.iter().map(|v| v.ident.to_string()).collect();
                    if e.ident == "AATerminal" {
                        p.terms = names;
                    } else if e.ident == "AANonTerminal" {
                        p.nts = names;
                    }
                }
                syn::Item::Fn(f) => {
                    p.fns.insert(f.sig.ident.to_string(), (f.sig.clone(), (*f.block).clone()));
                }
                syn::Item::Const(c) => {
                    p.consts.insert(c.ident.to_string(), (*c.expr).clone());
                }
                syn::Item::Static(c) => {
                    p.consts.insert(c.ident.to_string(), (*c.expr).clone());
                }
                syn::Item::Impl(im) => {
                    let tr = im.trait_.as_ref().map(|t| toks(&t.1).replace(' ', ""));
                    let ty = toks(&*im.self_ty).replace(' ', "");
                    for f in &im.items {
                        match f {
                            syn::ImplItem::Fn(f) => {
                                let e = (f.sig.clone(), f.block.clone());
                                if f.sig.ident == "fmt" {
                                    p.display.insert(ty.clone(), e);
                                } else {
                                    p.fns.insert(f.sig.ident.to_string(), e);
                                }
                            }
                            syn::ImplItem::Const(c) => {
                                p.consts.insert(c.ident.to_string(), c.expr.clone());
                            }
                            _ => (),
                        }
                    }
                    if let Some(t) = tr {
                        if t.contains("Parser<") {
                            p.trait_path = t;
                            p.self_ty = ty;
                        }
                    }
                }
                _ => (),
            }
        }
        for (i, n) in p.terms.iter().enumerate() {
            p.term_ix.insert(n.clone(), i as u16);
        }
        for (i, n) in p.nts.iter().enumerate() {
            p.nt_ix.insert(n.clone(), i as u16);
        }
        if p.terms.is_empty() || p.nts.is_empty() {
            return Err("no symbol enumerations in the generated code".into());
        }
        let mut l = vec![];
        find_lexer(file.to_token_stream(), &mut l);
        if l.len() != 1 {
            return Err(format!("{} lexical analyser constructions", l.len()));
        }
        use syn::parse::Parser;
        let args = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated
            .parse2(l.pop().unwrap())
            .map_err(|e| format!("lexical analyser arguments: {e}"))?;
        p.lexer = args.into_iter().collect();
        Ok(p)
    }

    pub fn has_fn(&self, n: &str) -> bool {
        self.fns.contains_key(n)
    }

    /// calls the function `name`; arguments are bound to its parameters in order (receiver first
    /// if it has one)
    pub fn call(&self, run: &mut Run, name: &str, args: Vec<V>) -> R {
        let Some((sig, block)) = self.fns.get(name) else {
            return unsup(format!("no function {name}"));
        };
        self.apply(run, sig, block, args)
    }

    fn apply(&self, run: &mut Run, sig: &syn::Signature, block: &syn::Block, args: Vec<V>) -> R {
        if run.depth == 0 {
            run.fuel = 2_000_000;
        }
        run.depth += 1;
        if run.depth > 200 {
            return unsup("recursion too deep");
        }
        let saved = std::mem::take(&mut run.env);
        let mut it = args.into_iter();
        for a in &sig.inputs {
            match a {
                syn::FnArg::Receiver(_) => {
                    let v = it.next();
                    run.env.push(("self".into(), v.unwrap_or(V::Myself)));
                }
                syn::FnArg::Typed(t) => {
                    let Some(v) = it.next() else {
                        return unsup("too few arguments");
                    };
                    if !self.bind(run, &t.pat, &v)? {
                        return unsup("argument pattern");
                    }
                }
            }
        }
        let r = self.block(run, block);
        run.env = saved;
        run.depth -= 1;
        match r {
            Err(Stop::Return(v)) => Ok(v),
            r => r,
        }
    }

    pub fn display(&self, ty: &str, v: V) -> Result<String, Stop> {
        let Some((sig, block)) = self.display.get(ty) else {
            return unsup(format!("no Display for {ty}"));
        };
        let mut run = Run::default();
        self.apply(&mut run, sig, block, vec![v, V::Fmt])?;
        Ok(run.out)
    }

    /// (literals, regular expressions, skips, end marker)
    #[allow(clippy::type_complexity)]
    pub fn lexer_defs(
        &self,
    ) -> Result<(Vec<(u16, String)>, Vec<(u16, String)>, Vec<String>, u16), Stop> {
        if self.lexer.len() != 4 {
            return unsup("lexical analyser arguments");
        }
        let mut run = Run {
            fuel: 2_000_000,
            ..Run::default()
        };
        let pairs = |v: V| -> Result<Vec<(u16, String)>, Stop> {
            let V::List(l) = v else { return unsup("list expected") };
            l.into_iter()
                .map(|x| match x {
                    V::Tuple(t) => match &t[..] {
                        [V::Term(a), V::Str(s)] => Ok((*a, s.clone())),
                        _ => unsup("pair expected"),
                    },
                    _ => unsup("pair expected"),
                })
                .collect()
        };
        let a = pairs(self.expr(&mut run, &self.lexer[0])?)?;
        let b = pairs(self.expr(&mut run, &self.lexer[1])?)?;
        let c = match self.expr(&mut run, &self.lexer[2])? {
            V::List(l) => l
                .into_iter()
                .map(|x| match x {
                    V::Str(s) => Ok(s),
                    _ => unsup("string expected"),
                })
                .collect::<Result<Vec<String>, Stop>>()?,
            _ => return unsup("list expected"),
        };
        let d = match self.expr(&mut run, &self.lexer[3])? {
            V::Term(t) => t,
            _ => return unsup("end marker expected"),
        };
        Ok((a, b, c, d))
    }

    fn lookup(&self, run: &Run, n: &str) -> Option<V> {
        run.env.iter().rev().find(|(k, _)| k == n).map(|(_, v)| v.clone())
    }

    fn path(&self, run: &mut Run, p: &syn::Path) -> R {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = segs.last().cloned().unwrap_or_default();
        if segs.len() == 1 {
            if let Some(v) = self.lookup(run, &last) {
                return Ok(v);
            }
            if let Some(i) = self.term_ix.get(&last) {
                return Ok(V::Term(*i));
            }
            if let Some(i) = self.nt_ix.get(&last) {
                return Ok(V::Nt(*i));
            }
        } else {
            let q = &segs[segs.len() - 2];
            if q == "AATerminal" {
                return match self.term_ix.get(&last) {
                    Some(i) => Ok(V::Term(*i)),
                    None => unsup(format!("no terminal {last}")),
                };
            }
            if q == "AANonTerminal" {
                return match self.nt_ix.get(&last) {
                    Some(i) => Ok(V::Nt(*i)),
                    None => unsup(format!("no non terminal {last}")),
                };
            }
        }
        if let Some(e) = self.consts.get(&last) {
            let saved = std::mem::take(&mut run.env);
            let e = e.clone();
            let r = self.expr(run, &e);
            run.env = saved;
            return r;
        }
        if last.chars().next().is_some_and(|c| c.is_uppercase()) {
            return Ok(V::Data(last, vec![]));
        }
        unsup(format!("name {}", segs.join("::")))
    }

    fn lit(&self, l: &syn::Lit) -> R {
        Ok(match l {
            syn::Lit::Int(i) => V::Int(i.base10_parse().map_err(|_| Stop::Unsupported("int".into()))?),
            syn::Lit::Str(s) => V::Str(s.value()),
            syn::Lit::Bool(b) => V::Bool(b.value),
            syn::Lit::ByteStr(s) => V::Str(String::from_utf8_lossy(&s.value()).into_owned()),
            syn::Lit::Char(c) => V::Str(c.value().to_string()),
            _ => return unsup("literal"),
        })
    }

    /// for values of a scalar kind: the first arm for each value named by the leading arms that only
    /// name values, and the number of these arms
    fn dispatch(&self, m: &syn::ExprMatch, kind: u8) -> (HashMap<i64, usize>, usize) {
        let mut map = HashMap::new();
        for (i, a) in m.arms.iter().enumerate() {
            let mut keys = vec![];
            if a.guard.is_some() || !self.named(&a.pat, kind, &mut keys) {
                return (map, i);
            }
            for k in keys {
                map.entry(k).or_insert(i);
            }
        }
        (map, m.arms.len())
    }

    fn named(&self, p: &syn::Pat, kind: u8, out: &mut Vec<i64>) -> bool {
        match p {
            syn::Pat::Lit(x) if kind == 0 => match self.lit(&x.lit) {
                Ok(V::Int(i)) => {
                    out.push(i);
                    true
                }
                _ => false,
            },
            syn::Pat::Path(x) if x.qself.is_none() && x.path.segments.len() > 1 => {
                let n = x.path.segments.len();
                let (q, l) = (x.path.segments[n - 2].ident.to_string(), x.path.segments[n - 1].ident.to_string());
                let i = match (kind, q.as_str()) {
                    (1, "AATerminal") => self.term_ix.get(&l),
                    (2, "AANonTerminal") => self.nt_ix.get(&l),
                    _ => None,
                };
                match i {
                    Some(i) => {
                        out.push(*i as i64);
                        true
                    }
                    None => false,
                }
            }
            syn::Pat::Ident(x) if kind > 0 && x.subpat.is_none() => {
                let l = x.ident.to_string();
                match if kind == 1 { self.term_ix.get(&l) } else { self.nt_ix.get(&l) } {
                    Some(i) => {
                        out.push(*i as i64);
                        true
                    }
                    None => false,
                }
            }
            syn::Pat::Or(o) => o.cases.iter().all(|c| self.named(c, kind, out)),
            syn::Pat::Paren(x) => self.named(&x.pat, kind, out),
            _ => false,
        }
    }

    /// does the pattern match (binding its variables)?
    fn bind(&self, run: &mut Run, p: &syn::Pat, v: &V) -> Result<bool, Stop> {
        match p {
            syn::Pat::Wild(_) => Ok(true),
            syn::Pat::Rest(_) => Ok(true),
            syn::Pat::Ident(i) => {
                let n = i.ident.to_string();
                match v {
                    V::Term(t) => {
                        if let Some(x) = self.term_ix.get(&n) {
                            return Ok(x == t);
                        }
                    }
                    V::Nt(t) => {
                        if let Some(x) = self.nt_ix.get(&n) {
                            return Ok(x == t);
                        }
                    }
                    V::Data(d, a) => {
                        if n == "None" || (n == *d && a.is_empty()) {
                            return Ok(n == *d);
                        }
                    }
                    _ => {
                        if self.consts.contains_key(&n) {
                            let c = self.consts[&n].clone();
                            return Ok(self.expr(run, &c)? == *v);
                        }
                    }
                }
                if let Some((_, sub)) = &i.subpat {
                    if !self.bind(run, sub, v)? {
                        return Ok(false);
                    }
                }
                run.env.push((n, v.clone()));
                Ok(true)
            }
            syn::Pat::Path(x) => {
                let w = self.path(run, &x.path)?;
                Ok(w == *v)
            }
            syn::Pat::Lit(x) => Ok(self.lit(&x.lit)? == *v),
            syn::Pat::Or(o) => {
                for c in &o.cases {
                    if self.bind(run, c, v)? {
                        return Ok(true);
                    }
                }
                Ok(false)
            }
            syn::Pat::Paren(x) => self.bind(run, &x.pat, v),
            syn::Pat::Reference(x) => self.bind(run, &x.pat, v),
            syn::Pat::Type(x) => self.bind(run, &x.pat, v),
            syn::Pat::Tuple(t) => match v {
                V::Tuple(l) if l.len() == t.elems.len() => {
                    for (a, b) in t.elems.iter().zip(l) {
                        if !self.bind(run, a, b)? {
                            return Ok(false);
                        }
                    }
                    Ok(true)
                }
                _ => unsup("tuple pattern"),
            },
            syn::Pat::TupleStruct(t) => {
                let n = t.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                match v {
                    V::Data(d, l) => {
                        if *d != n || l.len() != t.elems.len() {
                            return Ok(false);
                        }
                        for (a, b) in t.elems.iter().zip(l) {
                            if !self.bind(run, a, b)? {
                                return Ok(false);
                            }
                        }
                        Ok(true)
                    }
                    _ => unsup("struct pattern"),
                }
            }
            syn::Pat::Slice(s) => match v {
                V::List(l) => {
                    if s.elems.iter().any(|e| matches!(e, syn::Pat::Rest(_)))
                        || l.len() != s.elems.len()
                    {
                        if s.elems.iter().any(|e| matches!(e, syn::Pat::Rest(_))) {
                            // only [a, b, ..]
                            let n = s.elems.len() - 1;
                            if l.len() < n || !matches!(s.elems.last(), Some(syn::Pat::Rest(_))) {
                                return Ok(false);
                            }
                            for (a, b) in s.elems.iter().take(n).zip(l) {
                                if !self.bind(run, a, b)? {
                                    return Ok(false);
                                }
                            }
                            return Ok(true);
                        }
                        return Ok(false);
                    }
                    for (a, b) in s.elems.iter().zip(l) {
                        if !self.bind(run, a, b)? {
                            return Ok(false);
                        }
                    }
                    Ok(true)
                }
                _ => unsup("slice pattern"),
            },
            syn::Pat::Range(r) => {
                let V::Int(i) = v else { return unsup("range pattern") };
                let lo = match &r.start {
                    Some(e) => match self.expr(run, e)? {
                        V::Int(x) => x,
                        _ => return unsup("range"),
                    },
                    None => i64::MIN,
                };
                let hi = match &r.end {
                    Some(e) => match self.expr(run, e)? {
                        V::Int(x) => x,
                        _ => return unsup("range"),
                    },
                    None => i64::MAX,
                };
                Ok(match r.limits {
                    syn::RangeLimits::Closed(_) => lo <= *i && *i <= hi,
                    syn::RangeLimits::HalfOpen(_) => lo <= *i && (*i < hi || r.end.is_none()),
                })
            }
            _ => unsup(format!("pattern {}", toks(p))),
        }
    }

    fn block(&self, run: &mut Run, b: &syn::Block) -> R {
        let n = run.env.len();
        let r = self.stmts(run, &b.stmts);
        run.env.truncate(n);
        r
    }

    fn stmts(&self, run: &mut Run, stmts: &[syn::Stmt]) -> R {
        let mut last = V::Unit;
        for (k, s) in stmts.iter().enumerate() {
            last = V::Unit;
            match s {
                syn::Stmt::Local(l) => {
                    if let Some(init) = &l.init {
                        let v = self.expr(run, &init.expr)?;
                        if !self.bind(run, &l.pat, &v)? {
                            if let Some((_, e)) = &init.diverge {
                                self.expr(run, e)?;
                            }
                            return unsup("let pattern");
                        }
                    } else {
                        self.bind(run, &l.pat, &V::Unit)?;
                    }
                }
                syn::Stmt::Item(_) => (),
                syn::Stmt::Expr(e, semi) => {
                    let v = self.expr(run, e)?;
                    if semi.is_none() && k + 1 == stmts.len() {
                        last = v;
                    }
                }
                syn::Stmt::Macro(m) => {
                    let v = self.mac(run, &m.mac)?;
                    if m.semi_token.is_none() && k + 1 == stmts.len() {
                        last = v;
                    }
                }
            }
        }
        Ok(last)
    }

    fn truth(&self, run: &mut Run, e: &syn::Expr) -> Result<bool, Stop> {
        match e {
            syn::Expr::Let(l) => {
                let v = self.expr(run, &l.expr)?;
                self.bind(run, &l.pat, &v)
            }
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
                Ok(self.truth(run, &b.left)? && self.truth(run, &b.right)?)
            }
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::Or(_)) => {
                Ok(self.truth(run, &b.left)? || self.truth(run, &b.right)?)
            }
            syn::Expr::Paren(p) => self.truth(run, &p.expr),
            _ => match self.expr(run, e)? {
                V::Bool(b) => Ok(b),
                v => unsup(format!("condition {v:?}")),
            },
        }
    }

    fn args(
        &self,
        run: &mut Run,
        a: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>,
    ) -> Result<Vec<V>, Stop> {
        a.iter().map(|e| self.expr(run, e)).collect()
    }

    fn show(&self, v: &V) -> Result<String, Stop> {
        match v {
            V::Str(s) => Ok(s.clone()),
            V::Int(i) => Ok(i.to_string()),
            V::Bool(b) => Ok(b.to_string()),
            V::Term(_) => self.display("AATerminal", v.clone()),
            V::Nt(_) => self.display("AANonTerminal", v.clone()),
            _ => Ok(format!("{v:?}")),
        }
    }

    fn format(&self, run: &mut Run, args: &[syn::Expr]) -> Result<String, Stop> {
        let Some(syn::Expr::Lit(l)) = args.first() else {
            return unsup("format string");
        };
        let V::Str(f) = self.lit(&l.lit)? else { return unsup("format string") };
        let mut rest = args[1..].iter();
        let mut o = String::new();
        let mut it = f.chars().peekable();
        while let Some(c) = it.next() {
            if c == '{' {
                if it.peek() == Some(&'{') {
                    it.next();
                    o.push('{');
                    continue;
                }
                let mut name = String::new();
                for d in it.by_ref() {
                    if d == '}' {
                        break;
                    }
                    name.push(d);
                }
                let name = name.split(':').next().unwrap_or("").to_string();
                let v = if name.is_empty() {
                    match rest.next() {
                        Some(e) => self.expr(run, e)?,
                        None => return unsup("format arguments"),
                    }
                } else {
                    match self.lookup(run, &name) {
                        Some(v) => v,
                        None => return unsup(format!("format argument {name}")),
                    }
                };
                o += &self.show(&v)?;
            } else if c == '}' {
                if it.peek() == Some(&'}') {
                    it.next();
                }
                o.push('}');
            } else {
                o.push(c);
            }
        }
        Ok(o)
    }

    fn mac(&self, run: &mut Run, m: &syn::Macro) -> R {
        use syn::parse::Parser;
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if name == "matches" {
            let p = |i: syn::parse::ParseStream| {
                let e: syn::Expr = i.parse()?;
                i.parse::<syn::Token![,]>()?;
                let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                let _ = i.parse::<Option<syn::Token![,]>>();
                Ok((e, p))
            };
            let (e, p) = p
                .parse2(m.tokens.clone())
                .map_err(|e| Stop::Unsupported(format!("matches!: {e}")))?;
            let v = self.expr(run, &e)?;
            let n = run.env.len();
            let r = self.bind(run, &p, &v);
            run.env.truncate(n);
            return r.map(V::Bool);
        }
        let args: Vec<syn::Expr> =
            syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated
                .parse2(m.tokens.clone())
                .map_err(|e| Stop::Unsupported(format!("{name}!: {e}")))?
                .into_iter()
                .collect();
        match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                Err(Stop::Panic(self.format(run, &args).unwrap_or_default()))
            }
            "ordered_set" => {
                let mut s = BTreeSet::new();
                for a in &args {
                    s.insert(self.expr(run, a)?);
                }
                Ok(V::Set(s))
            }
            "vec" => {
                let mut s = vec![];
                for a in &args {
                    s.push(self.expr(run, a)?);
                }
                Ok(V::List(s))
            }
            "write" | "writeln" => {
                let s = self.format(run, &args[1..])?;
                run.out += &s;
                if name == "writeln" {
                    run.out.push('\n');
                }
                Ok(V::Data("Ok".into(), vec![V::Unit]))
            }
            "format" => Ok(V::Str(self.format(run, &args)?)),
            "debug_assert" | "assert" => match self.expr(run, &args[0])? {
                V::Bool(true) => Ok(V::Unit),
                V::Bool(false) => Err(Stop::Panic("assertion".into())),
                _ => unsup("assert"),
            },
            "debug_assert_eq" | "debug_assert_ne" | "println" | "eprintln" => Ok(V::Unit),
            _ => unsup(format!("macro {name}")),
        }
    }

    fn call_closure(&self, run: &mut Run, c: usize, args: Vec<V>) -> R {
        let (pats, body) = run.closures[c].clone();
        let n = run.env.len();
        for (p, v) in pats.iter().zip(args) {
            if !self.bind(run, p, &v)? {
                return unsup("closure pattern");
            }
        }
        let r = self.expr(run, &body);
        run.env.truncate(n);
        match r {
            Err(Stop::Return(v)) => Ok(v),
            r => r,
        }
    }

    fn callable(&self, run: &mut Run, name: &str, args: Vec<V>, qualified: &str) -> R {
        if let Some(v) = self.lookup(run, name) {
            match v {
                V::Inject => {
                    if args.len() != 2 {
                        return unsup("inject arguments");
                    }
                    run.effects.push((args[0].clone(), args[1].clone()));
                    return Ok(V::Unit);
                }
                V::Closure(c) => return self.call_closure(run, c, args),
                _ => (),
            }
        }
        match name {
            "pr" => {
                let k = run.asked.len();
                run.asked.push(("pr".into(), args));
                return Ok(V::Bool(run.script.get(k).copied().unwrap_or(true)));
            }
            "act" => return Ok(V::Call("act".into(), args)),
            "drop" | "black_box" | "forget" => return Ok(V::Unit),
            "identity" => return Ok(args.into_iter().next().unwrap_or(V::Unit)),
            _ => (),
        }
        if let Some((sig, block)) = self.fns.get(name) {
            let mut args = args;
            let recv = sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Receiver(_)));
            if recv && args.len() + 1 == sig.inputs.len() {
                args.insert(0, V::Myself);
            }
            return self.apply(run, &sig.clone(), &block.clone(), args);
        }
        match name {
            "default" => return Ok(V::Default),
            "new" if qualified == "String" => return Ok(V::Str(String::new())),
            "new" if qualified == "Vec" => return Ok(V::List(vec![])),
            "new" => return Ok(V::Set(BTreeSet::new())),
            "from" | "into" | "from_iter" if args.len() == 1 => {
                let v = args.into_iter().next().unwrap();
                return Ok(match (qualified, v) {
                    ("OrderedSet", V::List(l)) | ("BTreeSet", V::List(l)) => {
                        V::Set(l.into_iter().collect())
                    }
                    (_, v) => v,
                });
            }
            "OrderedSet" if args.len() == 1 => return Ok(args.into_iter().next().unwrap()),
            _ => (),
        }
        if name.chars().next().is_some_and(|c| c.is_uppercase()) {
            return Ok(V::Data(name.to_string(), args));
        }
        unsup(format!("call of {qualified}::{name}"))
    }

    fn place<'a>(&self, run: &'a mut Run, e: &syn::Expr) -> Option<&'a mut V> {
        match e {
            syn::Expr::Path(p) => {
                let n = p.path.get_ident()?.to_string();
                run.env.iter_mut().rev().find(|(k, _)| *k == n).map(|(_, v)| v)
            }
            syn::Expr::Paren(p) => self.place(run, &p.expr),
            syn::Expr::Reference(p) => self.place(run, &p.expr),
            syn::Expr::Unary(p) => self.place(run, &p.expr),
            _ => None,
        }
    }

    fn method(&self, run: &mut Run, m: &syn::ExprMethodCall) -> R {
        let name = m.method.to_string();
        let recv = self.expr(run, &m.receiver)?;
        let args = self.args(run, &m.args)?;
        match name.as_str() {
            "clone" | "as_ref" | "to_owned" | "borrow" | "iter" | "copied" | "cloned" | "as_str"
            | "into" | "into_iter" | "as_slice" | "deref" | "collect" | "borrow_mut" | "as_mut"
            | "to_vec" | "by_ref" => Ok(recv),
            "to_string" => Ok(V::Str(self.show(&recv)?)),
            "tag" => match recv {
                V::Token(t) => Ok(V::Term(t)),
                _ => unsup("tag of something else"),
            },
            "write_str" => {
                let V::Str(s) = &args[0] else { return unsup("write_str") };
                run.out += s;
                Ok(V::Data("Ok".into(), vec![V::Unit]))
            }
            "pad" => {
                let V::Str(s) = &args[0] else { return unsup("pad") };
                run.out += s;
                Ok(V::Data("Ok".into(), vec![V::Unit]))
            }
            "fmt" => {
                let s = self.show(&recv)?;
                run.out += &s;
                Ok(V::Data("Ok".into(), vec![V::Unit]))
            }
            "first" | "get" | "last" => {
                let V::List(l) = &recv else { return unsup(name) };
                let i = match name.as_str() {
                    "first" => 0,
                    "last" => l.len().wrapping_sub(1),
                    _ => match args.first() {
                        Some(V::Int(i)) => *i as usize,
                        _ => return unsup("get"),
                    },
                };
                Ok(match l.get(i) {
                    Some(v) => V::Data("Some".into(), vec![v.clone()]),
                    None => V::Data("None".into(), vec![]),
                })
            }
            "len" => match &recv {
                V::List(l) => Ok(V::Int(l.len() as i64)),
                V::Set(l) => Ok(V::Int(l.len() as i64)),
                V::Str(l) => Ok(V::Int(l.len() as i64)),
                _ => unsup("len"),
            },
            "is_empty" => match &recv {
                V::List(l) => Ok(V::Bool(l.is_empty())),
                V::Set(l) => Ok(V::Bool(l.is_empty())),
                V::Str(l) => Ok(V::Bool(l.is_empty())),
                _ => unsup("is_empty"),
            },
            "is_some" => Ok(V::Bool(matches!(&recv, V::Data(n, _) if n == "Some"))),
            "is_none" => Ok(V::Bool(matches!(&recv, V::Data(n, _) if n == "None"))),
            "contains" => match &recv {
                V::List(l) => Ok(V::Bool(l.contains(&args[0]))),
                V::Set(l) => Ok(V::Bool(l.contains(&args[0]))),
                _ => unsup("contains"),
            },
            "insert" | "push" | "extend" => {
                let a = args.into_iter().next();
                let Some(p) = self.place(run, &m.receiver) else { return unsup(name) };
                match (p, a) {
                    (V::Set(s), Some(V::List(l))) if name == "extend" => {
                        s.extend(l);
                        Ok(V::Unit)
                    }
                    (V::Set(s), Some(V::Set(l))) if name == "extend" => {
                        s.extend(l);
                        Ok(V::Unit)
                    }
                    (V::List(s), Some(V::List(l))) if name == "extend" => {
                        s.extend(l);
                        Ok(V::Unit)
                    }
                    (V::Set(s), Some(a)) => Ok(V::Bool(s.insert(a))),
                    (V::List(s), Some(a)) => {
                        s.push(a);
                        Ok(V::Unit)
                    }
                    (V::Str(s), Some(V::Str(a))) => {
                        s.push_str(&a);
                        Ok(V::Unit)
                    }
                    _ => unsup(name),
                }
            }
            "unwrap" | "expect" => match recv {
                V::Data(n, mut a) if (n == "Some" || n == "Ok") && a.len() == 1 => {
                    Ok(a.pop().unwrap())
                }
                V::Data(_, _) => Err(Stop::Panic("unwrap".into())),
                _ => unsup("unwrap"),
            },
            "unwrap_or_default" => match recv {
                V::Data(n, mut a) if n == "Some" && a.len() == 1 => Ok(a.pop().unwrap()),
                _ => Ok(V::Default),
            },
            "unwrap_or" => match recv {
                V::Data(n, mut a) if n == "Some" && a.len() == 1 => Ok(a.pop().unwrap()),
                _ => Ok(args.into_iter().next().unwrap_or(V::Unit)),
            },
            "unwrap_or_else" => match recv {
                V::Data(n, mut a) if n == "Some" && a.len() == 1 => Ok(a.pop().unwrap()),
                _ => match args.first() {
                    Some(V::Closure(c)) => self.call_closure(run, *c, vec![]),
                    _ => Ok(V::Default),
                },
            },
            "map" => match (recv, args.first()) {
                (V::Data(n, mut a), Some(V::Closure(c))) if n == "Some" && a.len() == 1 => {
                    let v = self.call_closure(run, *c, vec![a.pop().unwrap()])?;
                    Ok(V::Data("Some".into(), vec![v]))
                }
                (V::Data(n, a), _) if n == "None" => Ok(V::Data(n, a)),
                _ => unsup("map"),
            },
            "map_or_else" => match (recv, args.first(), args.get(1)) {
                (V::Data(n, mut a), _, Some(V::Closure(c))) if n == "Some" => {
                    self.call_closure(run, *c, vec![a.pop().unwrap()])
                }
                (V::Data(_, _), Some(V::Closure(c)), _) => self.call_closure(run, *c, vec![]),
                (V::Data(n, mut a), _, _) if n == "Some" => Ok(a.pop().unwrap()),
                _ => Ok(V::Default),
            },
            "at_len_minus_n" => match (&recv, args.first()) {
                (V::Attrs, Some(V::Int(n))) => Ok(V::Stack(*n as usize)),
                _ => unsup("at_len_minus_n"),
            },
            "binary_search" => unsup("binary_search"),
            _ => {
                if let Some((sig, block)) = self.fns.get(&name) {
                    let mut a = vec![recv];
                    a.extend(args);
                    return self.apply(run, &sig.clone(), &block.clone(), a);
                }
                unsup(format!("method {name}"))
            }
        }
    }

    fn expr(&self, run: &mut Run, e: &syn::Expr) -> R {
        if run.fuel == 0 {
            return unsup("out of fuel");
        }
        run.fuel -= 1;
        match e {
            syn::Expr::Lit(l) => self.lit(&l.lit),
            syn::Expr::Path(p) => self.path(run, &p.path),
            syn::Expr::Paren(p) => self.expr(run, &p.expr),
            syn::Expr::Group(p) => self.expr(run, &p.expr),
            syn::Expr::Reference(p) => self.expr(run, &p.expr),
            syn::Expr::Cast(p) => self.expr(run, &p.expr),
            syn::Expr::Try(p) => match self.expr(run, &p.expr)? {
                V::Data(n, mut a) if (n == "Ok" || n == "Some") && a.len() == 1 => {
                    Ok(a.pop().unwrap())
                }
                v => Err(Stop::Return(v)),
            },
            syn::Expr::Unary(u) => {
                let v = self.expr(run, &u.expr)?;
                match (&u.op, v) {
                    (syn::UnOp::Deref(_), v) => Ok(v),
                    (syn::UnOp::Not(_), V::Bool(b)) => Ok(V::Bool(!b)),
                    (syn::UnOp::Neg(_), V::Int(b)) => Ok(V::Int(-b)),
                    _ => unsup("unary"),
                }
            }
            syn::Expr::Tuple(t) => {
                if t.elems.is_empty() {
                    Ok(V::Unit)
                } else {
                    Ok(V::Tuple(self.args(run, &t.elems)?))
                }
            }
            syn::Expr::Array(t) => Ok(V::List(self.args(run, &t.elems)?)),
            syn::Expr::Block(b) => self.block(run, &b.block),
            syn::Expr::Unsafe(b) => self.block(run, &b.block),
            syn::Expr::If(i) => {
                let n = run.env.len();
                let r = if self.truth(run, &i.cond)? {
                    self.block(run, &i.then_branch)
                } else {
                    run.env.truncate(n);
                    match &i.else_branch {
                        Some((_, e)) => self.expr(run, e),
                        None => Ok(V::Unit),
                    }
                };
                run.env.truncate(n);
                r
            }
            syn::Expr::Match(m) => {
                let v = self.expr(run, &m.expr)?;
                let n = run.env.len();
                let mut from = 0;
                if m.arms.len() > 8 {
                    if let Some(k) = scalar(&v) {
                        let at = m.match_token.span.byte_range().start;
                        let mut cache = self.arms.borrow_mut();
                        let d = cache.entry((at, k.0)).or_insert_with(|| self.dispatch(m, k.0));
                        if let Some(i) = d.0.get(&k.1) {
                            let i = *i;
                            drop(cache);
                            let r = self.expr(run, &m.arms[i].body);
                            run.env.truncate(n);
                            return r;
                        }
                        from = d.1;
                    }
                }
                for a in &m.arms[from..] {
                    if self.bind(run, &a.pat, &v)?
                        && match &a.guard {
                            None => true,
                            Some((_, g)) => self.truth(run, g)?,
                        }
                    {
                        let r = self.expr(run, &a.body);
                        run.env.truncate(n);
                        return r;
                    }
                    run.env.truncate(n);
                }
                unsup("no arm matches")
            }
            syn::Expr::Let(_) => self.truth(run, e).map(V::Bool),
            syn::Expr::Return(r) => {
                let v = match &r.expr {
                    Some(e) => self.expr(run, e)?,
                    None => V::Unit,
                };
                Err(Stop::Return(v))
            }
            syn::Expr::Macro(m) => self.mac(run, &m.mac),
            syn::Expr::Closure(c) => {
                run.closures.push((c.inputs.iter().cloned().collect(), (*c.body).clone()));
                Ok(V::Closure(run.closures.len() - 1))
            }
            syn::Expr::Call(c) => {
                let args = self.args(run, &c.args)?;
                let mut f = &*c.func;
                while let syn::Expr::Paren(p) = f {
                    f = &p.expr;
                }
                match f {
                    syn::Expr::Path(p) => {
                        let segs: Vec<String> =
                            p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        let q = if segs.len() > 1 { segs[segs.len() - 2].clone() } else { String::new() };
                        self.callable(run, segs.last().unwrap(), args, &q)
                    }
                    f => match self.expr(run, f)? {
                        V::Closure(i) => self.call_closure(run, i, args),
                        V::Inject => {
                            run.effects.push((args[0].clone(), args[1].clone()));
                            Ok(V::Unit)
                        }
                        _ => unsup("call"),
                    },
                }
            }
            syn::Expr::MethodCall(m) => self.method(run, m),
            syn::Expr::Index(i) => {
                let v = self.expr(run, &i.expr)?;
                let k = self.expr(run, &i.index)?;
                match (v, k) {
                    (V::List(l), V::Int(k)) => match l.get(k as usize) {
                        Some(v) => Ok(v.clone()),
                        None => Err(Stop::Panic(format!("index {k} of {}", l.len()))),
                    },
                    _ => unsup("index"),
                }
            }
            syn::Expr::Field(f) => {
                let v = self.expr(run, &f.base)?;
                match (&f.member, v) {
                    (syn::Member::Unnamed(i), V::Tuple(l)) => Ok(l[i.index as usize].clone()),
                    (syn::Member::Unnamed(i), s @ V::Set(_)) if i.index == 0 => Ok(s),
                    _ => unsup("field"),
                }
            }
            syn::Expr::Assign(a) => {
                let v = self.expr(run, &a.right)?;
                if let syn::Expr::Infer(_) = &*a.left {
                    return Ok(V::Unit);
                }
                match self.place(run, &a.left) {
                    Some(p) => {
                        *p = v;
                        Ok(V::Unit)
                    }
                    None => unsup("assignment"),
                }
            }
            syn::Expr::Binary(b) => {
                use syn::BinOp as B;
                if matches!(b.op, B::And(_) | B::Or(_)) {
                    return self.truth(run, e).map(V::Bool);
                }
                let x = self.expr(run, &b.left)?;
                let y = self.expr(run, &b.right)?;
                if let (V::Int(a), V::Int(c)) = (&x, &y) {
                    let assign = |s: &Self, run: &mut Run, v: i64| match s.place(run, &b.left) {
                        Some(p) => {
                            *p = V::Int(v);
                            Ok(V::Unit)
                        }
                        None => unsup("assignment"),
                    };
                    return Ok(match b.op {
                        B::Add(_) => V::Int(a + c),
                        B::Sub(_) => V::Int(a - c),
                        B::Mul(_) => V::Int(a * c),
                        B::Div(_) if *c != 0 => V::Int(a / c),
                        B::Rem(_) if *c != 0 => V::Int(a % c),
                        B::Eq(_) => V::Bool(a == c),
                        B::Ne(_) => V::Bool(a != c),
                        B::Lt(_) => V::Bool(a < c),
                        B::Le(_) => V::Bool(a <= c),
                        B::Gt(_) => V::Bool(a > c),
                        B::Ge(_) => V::Bool(a >= c),
                        B::AddAssign(_) => return assign(self, run, a + c),
                        B::SubAssign(_) => return assign(self, run, a - c),
                        _ => return unsup("operator"),
                    });
                }
                match b.op {
                    B::Eq(_) => Ok(V::Bool(x == y)),
                    B::Ne(_) => Ok(V::Bool(x != y)),
                    B::BitAnd(_) | B::BitOr(_) => match (x, y) {
                        (V::Bool(x), V::Bool(y)) => {
                            Ok(V::Bool(if matches!(b.op, B::BitAnd(_)) { x & y } else { x | y }))
                        }
                        _ => unsup("operator"),
                    },
                    _ => unsup("operator"),
                }
            }
            syn::Expr::ForLoop(f) => {
                let items: Vec<V> = match self.expr(run, &f.expr)? {
                    V::List(l) => l,
                    V::Set(l) => l.into_iter().collect(),
                    _ => return unsup("for"),
                };
                for v in items {
                    let n = run.env.len();
                    if !self.bind(run, &f.pat, &v)? {
                        return unsup("for pattern");
                    }
                    self.block(run, &f.body)?;
                    run.env.truncate(n);
                }
                Ok(V::Unit)
            }
            _ => unsup(format!("expression {}", toks(e))),
        }
    }
}
