//! vx REPO CONTRACTS MODE OUT [--vacuity]
//!
//! Extracts the functions listed in CONTRACTS/select.txt from REPO, applies the desugarings of
//! `Desugar` (each one is a local rewrite of a construct Verus does not accept), merges the
//! contracts of CONTRACTS/*.vx and writes one Verus file.  OUT.map lists, per line range, the
//! function it belongs to; OUT.log lists everything that was rewritten or dropped.
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::visit_mut::{self, VisitMut};
use syn::*;

type Sections = BTreeMap<String, String>;

fn die(m: &str) -> ! {
    eprintln!("vx: {m}");
    std::process::exit(3)
}
fn ts<T: ToTokens>(x: &T) -> String {
    x.to_token_stream().to_string()
}
/// Token text without blanks, to compare loop headers.
fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

struct Loop {
    header: String,
    /// text of the pattern variable(s) and range, printed
    head: String,
    pre: String,
    body: Block,
}
struct Desugar {
    mode_a: bool,
    loops: Vec<Option<Loop>>,
    log: BTreeMap<String, usize>,
    err: Option<String>,
    closures: usize,
}
impl Desugar {
    fn note(&mut self, s: &str) {
        *self.log.entry(s.to_string()).or_insert(0) += 1;
    }
    fn fail(&mut self, s: String) {
        if self.err.is_none() {
            self.err = Some(s);
        }
    }
}
fn parse<T: parse::Parse>(t: proc_macro2::TokenStream) -> T {
    let s = t.to_string();
    parse2(t).unwrap_or_else(|e| die(&format!("internal: {e} in {s}")))
}
/// Spec-mode text of a pure field expression.
fn spec_expr(e: &Expr) -> Option<String> {
    Some(match e {
        Expr::Paren(p) => spec_expr(&p.expr)?,
        Expr::Group(p) => spec_expr(&p.expr)?,
        Expr::Unary(u) => match u.op {
            UnOp::Deref(_) => format!("(*{})", spec_expr(&u.expr)?),
            UnOp::Neg(_) => format!("fneg({})", spec_expr(&u.expr)?),
            _ => return None,
        },
        Expr::Path(_) => ts(e),
        Expr::Binary(b) => {
            let (l, r) = (spec_expr(&b.left)?, spec_expr(&b.right)?);
            match b.op {
                BinOp::Add(_) => format!("fadd({l}, {r})"),
                BinOp::Sub(_) => format!("fsub({l}, {r})"),
                BinOp::Mul(_) => format!("fmul({l}, {r})"),
                _ => return None,
            }
        }
        _ => return None,
    })
}
impl VisitMut for Desugar {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // loops are cut out first so that they are numbered in source order
        if let Expr::ForLoop(f) = e {
            let k = self.loops.len();
            self.loops.push(None);
            let header = squash(&format!("{} in {}", ts(&f.pat), ts(&f.expr)));
            let mut body = f.body.clone();
            let (head, pre);
            let mut it = (*f.expr).clone();
            while let Expr::Paren(p) = it {
                it = *p.expr;
            }
            if let Expr::Range(r) = &mut it {
                if !matches!(r.limits, RangeLimits::HalfOpen(_)) || r.start.is_none() || r.end.is_none() {
                    self.fail(format!("loop header {header}"));
                }
                let var = match &*f.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    Pat::Wild(_) => {
                        self.note("`for _ in` gets a named counter");
                        format!("vx_k{k}")
                    }
                    _ => {
                        self.fail(format!("loop header {header}"));
                        String::new()
                    }
                };
                self.visit_expr_range_mut(r);
                let end = r.end.as_deref().unwrap().clone();
                if squash(&ts(&end)).contains('(') {
                    self.note("the end of a loop range is named before the loop");
                    let n = Ident::new(&format!("vx_hi{k}"), proc_macro2::Span::call_site());
                    pre = format!("let {n} = {};", ts(&end));
                    r.end = Some(parse(quote!(#n)));
                } else {
                    pre = String::new();
                }
                head = format!("for {var} in {}", ts(&*r));
            } else {
                self.visit_expr_mut(&mut it);
                self.note("`for P in ITERATOR` becomes a counted loop over the iterator's items");
                let n: Ident = Ident::new(&format!("vx_it{k}"), proc_macro2::Span::call_site());
                let c: Ident = Ident::new(&format!("vx_k{k}"), proc_macro2::Span::call_site());
                pre = format!("let {n} = {};", ts(&it));
                head = format!("for {c} in 0..{n}.vx_len()");
                let mut stmts = self.bind(&f.pat, &n, &c, k, &header);
                stmts.extend(body.stmts);
                body.stmts = stmts;
            }
            if f.label.is_some() {
                self.fail("loop label".into());
            }
            self.visit_block_mut(&mut body);
            self.loops[k] = Some(Loop { header, head, pre, body });
            let lit = LitInt::new(&k.to_string(), proc_macro2::Span::call_site());
            *e = parse(quote!(__vx_loop! { #lit }));
            return;
        }
        if matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::Async(_) | Expr::Unsafe(_) | Expr::TryBlock(_)) {
            self.fail(format!("construct: {}", ts(e).chars().take(60).collect::<String>()));
            return;
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "collect" || m.method == "fold" {
                let m = m.clone();
                match self.iterator_loop(&m) {
                    Some(x) => {
                        *e = x;
                        return;
                    }
                    None => self.fail(format!("iterator: {}", ts(&m).chars().take(60).collect::<String>())),
                }
                return;
            }
        }
        if let Expr::Path(p) = e {
            let seg = &p.path.segments;
            if seg.len() == 2 && seg[0].ident == "crate" {
                let name = seg[1].ident.to_string();
                if name.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_') {
                    let n = Ident::new(&format!("vx_{}", name.to_lowercase()), proc_macro2::Span::call_site());
                    self.note("`crate::NAME` (a parameter set) becomes a call `vx_name()`");
                    *e = parse(quote!(#n()));
                }
            }
            return;
        }
        // assignments to an index, compound assignments
        if let Expr::Binary(b) = e {
            let op = match b.op {
                BinOp::AddAssign(_) => Some(quote!(+)),
                BinOp::SubAssign(_) => Some(quote!(-)),
                BinOp::MulAssign(_) => Some(quote!(*)),
                _ => None,
            };
            if let Some(op) = op {
                let (l, r) = (&b.left, &b.right);
                let x: Expr = parse(quote!(#l = #l #op (#r)));
                self.note("`a op= b` becomes `a = a op (b)`");
                *e = x;
            }
        }
        if let Expr::Assign(a) = e {
            if let Expr::Index(ix) = &mut *a.left {
                if self.mode_a {
                    self.visit_expr_mut(&mut a.right);
                    self.visit_expr_mut(&mut ix.index);
                    let (arr, i, v) = (&ix.expr, &ix.index, &a.right);
                    let x: Expr = parse(quote!(vx_set(&mut #arr, #i, #v)));
                    self.note("mode A: `a[i] = v` diverges when out of range");
                    *e = x;
                    return;
                }
                // keep the left side as a place
                self.visit_expr_mut(&mut a.right);
                self.visit_expr_mut(&mut ix.index);
                return;
            }
            self.visit_expr_mut(&mut a.right);
            return;
        }
        // X.try_into().expect(..)
        if let Expr::MethodCall(m) = e {
            if (m.method == "expect" || m.method == "unwrap") && m.args.len() <= 1 {
                if let Expr::MethodCall(t) = &mut *m.receiver {
                    if t.method == "try_into" {
                        self.visit_expr_mut(&mut t.receiver);
                        let r = &t.receiver;
                        let x: Expr = parse(quote!(vx_try_into(#r)));
                        self.note("`x.try_into().expect(..)` (slice to array) becomes `vx_try_into(x)`");
                        *e = x;
                        return;
                    }
                }
            }
            if m.method == "copy_from_slice" {
                if let Expr::Index(ix) = &*m.receiver {
                    if let Expr::Range(r) = &*ix.index {
                        if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                            let arr = &ix.expr;
                            let mut src = m.args[0].clone();
                            self.visit_expr_mut(&mut src);
                            let x: Expr = parse(quote!(vx_copy_range(&mut #arr, #a, #b, #src)));
                            self.note("`x[a..b].copy_from_slice(s)` becomes `vx_copy_range(&mut x, a, b, s)`");
                            *e = x;
                            return;
                        }
                    }
                }
                self.fail("copy_from_slice".into());
                return;
            }
        }
        // &X[a..b], X[a..b]
        let idx = match e {
            Expr::Reference(r) if r.mutability.is_none() => match &*r.expr {
                Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_)) => Some(ix.clone()),
                _ => None,
            },
            Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_)) => Some(ix.clone()),
            _ => None,
        };
        if let Some(mut ix) = idx {
            self.visit_expr_mut(&mut ix.expr);
            let Expr::Range(r) = &*ix.index else { unreachable!() };
            if !matches!(r.limits, RangeLimits::HalfOpen(_)) {
                self.fail("inclusive slice".into());
            }
            let zero: Expr = parse_quote!(0);
            let arr = &ix.expr;
            let mut a = r.start.as_deref().cloned().unwrap_or(zero);
            self.visit_expr_mut(&mut a);
            let x: Expr = match &r.end {
                Some(b) => {
                    let mut b = (**b).clone();
                    self.visit_expr_mut(&mut b);
                    parse(quote!(#arr.vx_slice(#a, #b)))
                }
                None => parse(quote!(#arr.vx_slice_from(#a))),
            };
            self.note("`&x[a..b]` becomes `x.vx_slice(a, b)`");
            *e = x;
            return;
        }
        if let Expr::Binary(b) = e {
            let konst = |e: &Expr| match e {
                Expr::Path(p) => p.path.get_ident().map_or(false, |i| {
                    let s = i.to_string();
                    s.len() > 1 && s.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_')
                }),
                _ => false,
            };
            if self.mode_a && konst(&b.left) && konst(&b.right) {
                let m = match b.op {
                    BinOp::Mul(_) => Some(quote!(wrapping_mul)),
                    BinOp::Add(_) => Some(quote!(wrapping_add)),
                    BinOp::Sub(_) => Some(quote!(wrapping_sub)),
                    _ => None,
                };
                if let Some(m) = m {
                    let (l, r) = (&b.left, &b.right);
                    let x: Expr = parse(quote!(#l.#m(#r)));
                    self.note("mode A: `*`, `+`, `-` of two const parameters wrap (release build)");
                    *e = x;
                    return;
                }
            }
        }
        match e {
            Expr::Repeat(r) => {
                self.visit_expr_mut(&mut r.expr);
                let (x, n) = (&r.expr, &r.len);
                let n = if let Expr::Path(_) | Expr::Lit(_) = **n { quote!(#n) } else { quote!({#n}) };
                let x: Expr = parse(quote!(vx_rep::<_, #n>(#x)));
                self.note("`[x; N]` becomes `vx_rep::<_, N>(x)`");
                *e = x;
            }
            Expr::Macro(m) => {
                let x = self.mac(&m.mac);
                *e = x;
            }
            Expr::Index(ix) if self.mode_a => {
                self.visit_expr_mut(&mut ix.expr);
                self.visit_expr_mut(&mut ix.index);
                let (arr, i) = (&ix.expr, &ix.index);
                let x: Expr = parse(quote!((*vx_ref(&#arr, #i))));
                self.note("mode A: `a[i]` diverges when out of range");
                *e = x;
            }
            Expr::MethodCall(m) => {
                if m.method == "zip" && m.args.len() == 1 {
                    if let Expr::Reference(r) = &m.args[0] {
                        let inner = &r.expr;
                        let x: Expr = parse(quote!(#inner.iter()));
                        m.args[0] = x;
                    }
                }
                if m.method == "sum" || m.method == "power" {
                    m.turbofish = None;
                }
                visit_mut::visit_expr_method_call_mut(self, m);
                let name = m.method.to_string();
                let new = match name.as_str() {
                    "iter" | "enumerate" | "zip" | "map" | "sum" | "chunks" | "expect" | "ok_or" | "rev" | "skip"
                    | "take" | "to_vec" => Some(format!("vx_{name}")),
                    _ => None,
                };
                if let Some(n) = new {
                    self.note(&format!("`.{name}(..)` becomes the sequence-valued `.{n}(..)`"));
                    m.method = Ident::new(&n, m.method.span());
                }
            }
            Expr::Closure(c) => {
                self.closures += 1;
                let Some(sp) = spec_expr(&c.body) else {
                    self.fail(format!("closure {}", ts(c)));
                    return;
                };
                if c.inputs.len() != 1 {
                    self.fail(format!("closure {}", ts(c)));
                    return;
                }
                let id = self.closures;
                let p = Ident::new(&format!("vx_p{id}"), proc_macro2::Span::call_site());
                let mut lets = String::new();
                let ty;
                match &c.inputs[0] {
                    Pat::Tuple(t) if t.elems.len() == 2 => {
                        ty = "(&Fq, &Fq)";
                        for (x, field) in t.elems.iter().zip(["0", "1"]) {
                            match x {
                                Pat::Ident(i) => write!(lets, "let {} = {p}.{field}; ", i.ident).unwrap(),
                                Pat::Reference(r) => write!(lets, "let {} = *{p}.{field}; ", ts(&r.pat)).unwrap(),
                                Pat::Wild(_) => {}
                                _ => self.fail(format!("closure {}", ts(c))),
                            }
                        }
                    }
                    Pat::Ident(i) => {
                        ty = "&Fq";
                        write!(lets, "let {} = {p}; ", i.ident).unwrap();
                    }
                    _ => {
                        self.fail(format!("closure {}", ts(c)));
                        return;
                    }
                }
                self.note("a closure over field elements gets its body as its `ensures`");
                let body = ts(&c.body);
                let text = format!("|{p}: {ty}| -> (vx_r: Fq) ensures vx_r == ({{ {lets} {sp} }}) {{ {lets} {body} }}");
                let lit = LitStr::new(&text, proc_macro2::Span::call_site());
                *e = parse(quote!(__vx_raw!(#lit)));
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let semi = m.semi_token;
            let mut e = self.mac(&m.mac);
            if semi.is_some() && squash(&ts(&e)) == "vx_panic()" {
                e = parse_quote!(vx_panic::<()>());
            }
            *s = Stmt::Expr(e, semi);
            return;
        }
        visit_mut::visit_stmt_mut(self, s)
    }
    fn visit_item_mut(&mut self, i: &mut Item) {
        self.fail(format!("nested item {}", ts(i).chars().take(40).collect::<String>()));
    }
}
impl Desugar {
    /// `let PAT = ITER.vx_at(k);`
    fn bind(&mut self, pat: &Pat, n: &Ident, c: &Ident, k: usize, header: &str) -> Vec<Stmt> {
        let mut stmts: Vec<Stmt> = Vec::new();
        match pat {
            Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => {
                let i = &i.ident;
                stmts.push(parse(quote!(let #i = #n.vx_at(#c);)));
            }
            Pat::Tuple(t) if t.elems.len() == 2 => {
                let tmp = Ident::new(&format!("vx_t{k}"), proc_macro2::Span::call_site());
                stmts.push(parse(quote!(let #tmp = #n.vx_at(#c);)));
                for (x, field) in t.elems.iter().zip(["0", "1"]) {
                    let fi: Member = parse_str(field).unwrap();
                    match x {
                        Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => {
                            let i = &i.ident;
                            stmts.push(parse(quote!(let #i = #tmp.#fi;)));
                        }
                        Pat::Reference(r) => match &*r.pat {
                            Pat::Ident(i) => {
                                let i = &i.ident;
                                stmts.push(parse(quote!(let #i = *#tmp.#fi;)));
                            }
                            _ => self.fail(format!("loop pattern {header}")),
                        },
                        Pat::Wild(_) => {}
                        _ => self.fail(format!("loop pattern {header}")),
                    }
                }
            }
            _ => self.fail(format!("loop pattern {header}")),
        }
        stmts
    }
    /// `X.map(|p| e).collect()` and `X.fold(a, |s, p| e)` as counted loops over the items of X.
    fn iterator_loop(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let id = |s: String| Ident::new(&s, proc_macro2::Span::call_site());
        let closure = |e: &Expr| match e {
            Expr::Closure(c) => Some(c.clone()),
            _ => None,
        };
        let untyped = |p: &Pat| match p {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        if m.method == "collect" {
            let Expr::MethodCall(mm) = &*m.receiver else { return None };
            if mm.method != "map" || mm.args.len() != 1 {
                return None;
            }
            let c = closure(&mm.args[0])?;
            let k = self.loops.len();
            self.loops.push(None);
            let pat = untyped(c.inputs.first()?);
            let header = squash(&format!("{} in {}", ts(&pat), ts(&mm.receiver)));
            let mut it = (*mm.receiver).clone();
            self.visit_expr_mut(&mut it);
            let (n, i, out) = (id(format!("vx_it{k}")), id(format!("vx_k{k}")), id(format!("vx_out{k}")));
            let mut stmts = self.bind(&pat, &n, &i, k, &header);
            let mut e = (*c.body).clone();
            self.visit_expr_mut(&mut e);
            let val = id(format!("vx_val{k}"));
            stmts.push(parse(quote!(let #val = #e;)));
            stmts.push(parse(quote!(#out.push(#val);)));
            let body: Block = parse(quote!({ #(#stmts)* }));
            self.note("`X.map(|p| e).collect()` becomes a counted loop that pushes e");
            let (pre, head) = (format!("let {n} = {};", ts(&it)), format!("for {i} in 0..{n}.vx_len()"));
            self.loops[k] = Some(Loop { header, head, pre, body });
            let lit = LitInt::new(&k.to_string(), proc_macro2::Span::call_site());
            return Some(parse(quote!({ let mut #out = Vec::new(); __vx_loop!(#lit); #out })));
        }
        if m.method == "fold" && m.args.len() == 2 {
            let c = closure(&m.args[1])?;
            if c.inputs.len() != 2 {
                return None;
            }
            let k = self.loops.len();
            self.loops.push(None);
            let (acc, pat) = (untyped(&c.inputs[0]), untyped(&c.inputs[1]));
            let Pat::Ident(acc) = acc else { return None };
            let acc = acc.ident;
            let header = squash(&format!("{} in {}", ts(&pat), ts(&m.receiver)));
            let mut it = (*m.receiver).clone();
            self.visit_expr_mut(&mut it);
            let mut init = m.args[0].clone();
            self.visit_expr_mut(&mut init);
            let (n, i) = (id(format!("vx_it{k}")), id(format!("vx_k{k}")));
            let mut stmts = self.bind(&pat, &n, &i, k, &header);
            let mut e = (*c.body).clone();
            self.visit_expr_mut(&mut e);
            stmts.push(parse(quote!(#acc = #e;)));
            let body: Block = parse(quote!({ #(#stmts)* }));
            self.note("`X.fold(a, |s, p| e)` becomes a counted loop");
            let (pre, head) = (format!("let {n} = {};", ts(&it)), format!("for {i} in 0..{n}.vx_len()"));
            self.loops[k] = Some(Loop { header, head, pre, body });
            let lit = LitInt::new(&k.to_string(), proc_macro2::Span::call_site());
            return Some(parse(quote!({ let mut #acc = #init; __vx_loop!(#lit); #acc })));
        }
        None
    }
    fn mac(&mut self, m: &Macro) -> Expr {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        match name.as_str() {
            "panic" | "unimplemented" | "unreachable" | "todo" => {
                self.note("`panic!` becomes a call of `vx_panic()`");
                parse_quote!(vx_panic())
            }
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" if self.mode_a => {
                self.note("mode A: `debug_assert!` is left out (release build)");
                parse_quote!(())
            }
            "assert" | "debug_assert" => {
                let args: punctuated::Punctuated<Expr, Token![,]> = m
                    .parse_body_with(punctuated::Punctuated::parse_terminated)
                    .unwrap_or_else(|e| die(&format!("assert: {e}")));
                let mut c = args[0].clone();
                self.visit_expr_mut(&mut c);
                self.note("`assert!(c)` becomes `if !(c) { vx_panic() }`");
                parse(quote!(if !(#c) { vx_panic() }))
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let args: punctuated::Punctuated<Expr, Token![,]> = m
                    .parse_body_with(punctuated::Punctuated::parse_terminated)
                    .unwrap_or_else(|e| die(&format!("assert: {e}")));
                let (mut a, mut b) = (args[0].clone(), args[1].clone());
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                self.note("`assert_eq!(a, b)` becomes `if !(a == b) { vx_panic() }`");
                if name.ends_with("_ne") {
                    parse(quote!(if (#a) == (#b) { vx_panic() }))
                } else {
                    parse(quote!(if !((#a) == (#b)) { vx_panic() }))
                }
            }
            "__vx_loop" | "__vx_raw" => Expr::Macro(ExprMacro { attrs: vec![], mac: m.clone() }),
            _ => {
                self.fail(format!("macro {name}!"));
                Expr::Macro(ExprMacro { attrs: vec![], mac: m.clone() })
            }
        }
    }
}

/// `(fn, loop)` sections of the contract files.
fn read_contracts(dir: &str, mode: &str) -> Sections {
    let mut out = Sections::new();
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .unwrap_or_else(|e| die(&format!("{dir}: {e}")))
        .filter_map(|f| f.ok())
        .map(|f| f.path())
        .filter(|p| p.extension().map_or(false, |x| x == "vx"))
        .collect();
    files.sort();
    for f in files {
        let mut key = String::new();
        for l in std::fs::read_to_string(&f).unwrap().lines() {
            if let Some(k) = l.strip_prefix("== ") {
                key = k.trim().to_string();
                if out.contains_key(&key) {
                    die(&format!("duplicate section {key}"));
                }
                out.insert(key.clone(), String::new());
                continue;
            }
            if key.is_empty() || l.trim_start().starts_with("##") {
                continue;
            }
            // `A: text` / `B: text` are mode-specific lines
            let text = match (l.strip_prefix("A: "), l.strip_prefix("B: ")) {
                (Some(t), _) => {
                    if mode != "A" {
                        continue;
                    }
                    t
                }
                (_, Some(t)) => {
                    if mode != "B" {
                        continue;
                    }
                    t
                }
                _ => l,
            };
            let s = out.get_mut(&key).unwrap();
            s.push_str(text);
            s.push('\n');
        }
    }
    out
}

struct Func {
    key: String,
    file: String,
    line: usize,
    generics: String, // impl header, or empty
    attrs_dropped: usize,
    f: ImplItemFn,
}

fn strip_self_output(f: &mut ImplItemFn, ty: &Type) {
    struct V<'a>(&'a Type);
    impl VisitMut for V<'_> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if squash(&ts(t)) == "Self::Output" {
                *t = self.0.clone();
                return;
            }
            visit_mut::visit_type_mut(self, t)
        }
    }
    V(ty).visit_impl_item_fn_mut(f)
}
fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => squash(&ts(t)),
    }
}
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| squash(&ts(a)).contains("cfg(test)"))
}

/// Replaces `__vx_loop!(k)` and `__vx_raw!("..")` in printed text.
struct Printer<'a> {
    loops: Vec<Option<Loop>>,
    key: &'a str,
    sec: &'a Sections,
    used: BTreeSet<String>,
    missing: Vec<String>,
    vacuity: bool,
}
impl Printer<'_> {
    fn get(&mut self, k: String) -> String {
        match self.sec.get(&k) {
            Some(t) => {
                self.used.insert(k);
                t.clone()
            }
            None => String::new(),
        }
    }
    fn block(&mut self, b: &Block, begin: &str, end: &str) -> String {
        let mut s = String::from("{\n");
        s.push_str(begin);
        let n = b.stmts.len();
        for (i, st) in b.stmts.iter().enumerate() {
            let last = i + 1 == n;
            let t = self.text(&ts(st));
            if last && !end.trim().is_empty() {
                if let Stmt::Expr(e, None) = st {
                    // unit-valued tail statement (a loop, an if) or a value
                    if matches!(e, Expr::Macro(m) if m.mac.path.is_ident("__vx_loop")) {
                        s.push_str(&t);
                        s.push('\n');
                        s.push_str(end);
                    } else if matches!(e, Expr::Assign(_)) {
                        s.push_str(&t);
                        s.push_str(";\n");
                        s.push_str(end);
                    } else {
                        s.push_str("let vx_tail = ");
                        s.push_str(&t);
                        s.push_str(";\n");
                        s.push_str(end);
                        s.push_str("vx_tail\n");
                    }
                    continue;
                }
                s.push_str(&t);
                s.push('\n');
                s.push_str(end);
                continue;
            }
            s.push_str(&t);
            s.push('\n');
        }
        if n == 0 {
            s.push_str(end);
        }
        s.push_str("}\n");
        s
    }
    fn text(&mut self, t: &str) -> String {
        let mut out = String::new();
        let mut rest = t;
        loop {
            let a = rest.find("__vx_loop !");
            let b = rest.find("__vx_raw !");
            let (p, is_loop) = match (a, b) {
                (None, None) => break,
                (Some(a), Some(b)) => (a.min(b), a < b),
                (Some(a), None) => (a, true),
                (None, Some(b)) => (b, false),
            };
            out.push_str(&rest[..p]);
            rest = &rest[p..];
            let close = if is_loop {
                rest.find([')', '}']).unwrap()
            } else {
                // string literal
                let q = rest.find('"').unwrap();
                let bytes = rest.as_bytes();
                let mut i = q + 1;
                while bytes[i] != b'"' {
                    if bytes[i] == b'\\' {
                        i += 1;
                    }
                    i += 1;
                }
                i + rest[i..].find(')').unwrap()
            };
            let inner = &rest[rest.find(['(', '{']).unwrap() + 1..close];
            if is_loop {
                let k: usize = inner.trim().parse().unwrap();
                out.push_str(&self.lp(k));
            } else {
                let l: LitStr = parse_str(inner.trim()).unwrap();
                out.push_str(&l.value());
            }
            rest = &rest[close + 1..];
        }
        out.push_str(rest);
        out
    }
    fn lp(&mut self, k: usize) -> String {
        let l = self.loops[k].take().unwrap();
        let base = format!("loop {}#{k}", self.key);
        let mut inv = String::new();
        // header anchor
        let keys: Vec<String> = self.sec.keys().filter(|x| x.starts_with(&format!("{base} :: "))).cloned().collect();
        match keys.first() {
            Some(full) => {
                let want = squash(full.split(" :: ").nth(1).unwrap());
                if want != l.header {
                    self.missing.push(format!("loop {k} of {} is `{}`, contract is for `{}`", self.key, l.header, want));
                }
                inv = self.get(full.clone());
            }
            None => self.missing.push(format!("loop {k} of {} (`{}`) has no invariant", self.key, l.header)),
        }
        let begin = self.get(format!("at {}#{k}.begin", self.key));
        let end = self.get(format!("at {}#{k}.end", self.key));
        let ghost = self.get(format!("ghost {}#{k}", self.key));
        let before = self.get(format!("at {}#{k}.before", self.key));
        let after = self.get(format!("at {}#{k}.after", self.key));
        let wrap = |p: String| if p.trim().is_empty() { p } else { format!("proof {{\n{p}}}\n") };
        let vac = if self.vacuity { "assert(false); // vacuity canary\n".to_string() } else { String::new() };
        let b = self.block(&l.body, &format!("{vac}{}", wrap(begin)), &wrap(end));
        format!("{}\n{}{}{}\n{}{}{}", l.pre, ghost, wrap(before), l.head, inv, b, wrap(after))
    }
}
fn indent(s: &str) -> String {
    // light layout of token text
    let mut out = String::new();
    let mut depth: i32 = 0;
    for l in s.lines() {
        let t = l.trim();
        if t.is_empty() {
            continue;
        }
        let opens = t.matches('{').count() as i32;
        let closes = t.matches('}').count() as i32;
        if t.starts_with('}') {
            depth -= closes.max(1);
            let extra = closes - closes.max(1);
            depth -= extra;
            for _ in 0..depth.max(0) {
                out.push_str("    ");
            }
            out.push_str(t);
            depth += opens;
        } else {
            for _ in 0..depth.max(0) {
                out.push_str("    ");
            }
            out.push_str(t);
            depth += opens - closes;
        }
        out.push('\n');
    }
    out
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        die("usage: vx REPO CONTRACTS MODE OUT [--vacuity] [--assume=KEY,KEY]");
    }
    let (repo, dir, mode, outf) = (&a[1], &a[2], a[3].as_str(), &a[4]);
    let vacuity = a.iter().any(|x| x == "--vacuity");
    // functions whose bodies are left out (their contracts are then assumed, and reported as such)
    let assume: BTreeSet<String> =
        a.iter().filter_map(|x| x.strip_prefix("--assume=")).flat_map(|x| x.split(',')).map(String::from).collect();
    let mut assumed: Vec<String> = vec![];
    let sec = read_contracts(dir, mode);
    let select = std::fs::read_to_string(format!("{dir}/select.txt")).unwrap_or_else(|e| die(&e.to_string()));
    let mut files: Vec<(String, String)> = vec![];
    let mut wanted: BTreeSet<String> = BTreeSet::new();
    for l in select.lines() {
        let l = l.split('#').next().unwrap().trim();
        if l.is_empty() {
            continue;
        }
        if let Some(f) = l.strip_prefix("file ") {
            // `file PATH as PREFIX`: the free functions of that file get the prefix
            let (f, p) = f.split_once(" as ").unwrap_or((f, ""));
            files.push((f.trim().to_string(), p.trim().to_string()));
        } else if let Some(r) = l.strip_prefix("only ") {
            let (m, r) = r.split_once(' ').unwrap();
            if m == mode {
                wanted.extend(r.split_whitespace().map(String::from));
            }
        } else {
            wanted.extend(l.split_whitespace().map(String::from));
        }
    }
    let mut types: Vec<(String, String)> = vec![];
    let mut funcs: Vec<Func> = vec![];
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut dropped: Vec<String> = vec![];
    let mut defaults: Vec<(String, ImplItemFn, String)> = vec![]; // trait, method
    let mut impls_of: Vec<(String, String, Type, String)> = vec![]; // trait, impl header, type, file
    for (f, prefix) in &files {
        let src = std::fs::read_to_string(format!("{repo}/{f}")).unwrap_or_else(|e| die(&format!("{f}: {e}")));
        let file = parse_file(&src).unwrap_or_else(|e| die(&format!("{f}: {e}")));
        for it in file.items {
            match it {
                Item::Struct(mut s) => {
                    let key = s.ident.to_string();
                    if !wanted.contains(&key) {
                        dropped.push(format!("{f}: struct {key}"));
                        continue;
                    }
                    seen.insert(key.clone());
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for fl in s.fields.iter_mut() {
                        fl.attrs.clear();
                        fl.vis = parse_quote!(pub);
                    }
                    types.push((key, ts(&s)));
                }
                Item::Enum(mut s) => {
                    let key = s.ident.to_string();
                    if !wanted.contains(&key) {
                        dropped.push(format!("{f}: enum {key}"));
                        continue;
                    }
                    seen.insert(key.clone());
                    let copy = s.attrs.iter().any(|a| squash(&ts(a)).contains("Copy"));
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for v in s.variants.iter_mut() {
                        v.attrs.clear();
                    }
                    types.push((key, format!("{}{}", if copy { "#[derive(Clone, Copy)] " } else { "" }, ts(&s))));
                }
                Item::Fn(mut g) => {
                    if is_test(&g.attrs) {
                        continue;
                    }
                    let key = format!("{prefix}{}", g.sig.ident);
                    if !wanted.contains(&key) {
                        dropped.push(format!("{f}: fn {key}"));
                        continue;
                    }
                    seen.insert(key.clone());
                    let line = g.sig.ident.span().start().line;
                    g.sig.ident = Ident::new(&key, g.sig.ident.span());
                    funcs.push(Func {
                        key,
                        file: f.clone(),
                        line,
                        generics: String::new(),
                        attrs_dropped: 0,
                        f: ImplItemFn { attrs: vec![], vis: g.vis, defaultness: None, sig: g.sig, block: *g.block },
                    });
                }
                Item::Trait(t) => {
                    for ti in t.items {
                        if let TraitItem::Fn(tf) = ti {
                            if let Some(b) = tf.default {
                                defaults.push((
                                    t.ident.to_string(),
                                    ImplItemFn { attrs: vec![], vis: parse_quote!(pub), defaultness: None, sig: tf.sig, block: b },
                                    f.clone(),
                                ));
                            }
                        }
                    }
                }
                Item::Impl(im) => {
                    if is_test(&im.attrs) {
                        continue;
                    }
                    let ty = (*im.self_ty).clone();
                    let name = type_name(&ty);
                    let (ig, _, wc) = im.generics.split_for_impl();
                    let header = format!("impl {} {} {}", ts(&ig), ts(&ty), wc.map_or(String::new(), |w| ts(w)));
                    let mut out_ty = None;
                    if let Some((_, p, _)) = &im.trait_ {
                        let tr = p.segments.last().unwrap().ident.to_string();
                        impls_of.push((tr, header.clone(), ty.clone(), f.clone()));
                    }
                    for ii in &im.items {
                        if let ImplItem::Type(t) = ii {
                            if t.ident == "Output" {
                                out_ty = Some(t.ty.clone());
                            }
                        }
                    }
                    for ii in im.items {
                        if let ImplItem::Fn(mut g) = ii {
                            let key = format!("{name}::{}", g.sig.ident);
                            if !wanted.contains(&key) {
                                dropped.push(format!("{f}: fn {key}"));
                                continue;
                            }
                            if !seen.insert(key.clone()) {
                                die(&format!("two definitions of {key}"));
                            }
                            if let Some(o) = &out_ty {
                                strip_self_output(&mut g, o);
                            }
                            let line = g.sig.ident.span().start().line;
                            let n = g.attrs.len();
                            funcs.push(Func { key, file: f.clone(), line, generics: header.clone(), attrs_dropped: n, f: g });
                        }
                    }
                }
                _ => {}
            }
        }
    }
    for (tr, g, f) in &defaults {
        for (t2, header, ty, _) in &impls_of {
            if tr == t2 {
                let key = format!("{}::{}", type_name(ty), g.sig.ident);
                if wanted.contains(&key) && seen.insert(key.clone()) {
                    let line = g.sig.ident.span().start().line;
                    funcs.push(Func { key, file: f.clone(), line, generics: header.clone(), attrs_dropped: 0, f: g.clone() });
                }
            }
        }
    }
    let mut problems: Vec<String> = vec![];
    for w in &wanted {
        if !seen.contains(w) {
            assumed.push(format!("{w}: not in the source any more"));
        }
    }
    let mut text = String::new();
    let mut log = String::new();
    let mut notes: BTreeMap<String, usize> = BTreeMap::new();
    let mut map = String::new();
    text.push_str("#![allow(non_snake_case, unused, non_camel_case_types)]\nuse vstd::prelude::*;\nuse vstd::std_specs::ops::*;\nverus! {\n");
    for p in ["prelude.rs", "specs.rs", "lemmas.rs"] {
        let t = std::fs::read_to_string(format!("{dir}/{p}")).unwrap_or_default();
        for l in t.lines() {
            match (l.strip_prefix("/*A*/"), l.strip_prefix("/*B*/")) {
                (Some(x), _) if mode == "A" => text.push_str(x),
                (_, Some(x)) if mode == "B" => text.push_str(x),
                (None, None) => text.push_str(l),
                _ => {}
            }
            text.push('\n');
        }
    }
    writeln!(text, "// ---- types of the repository").unwrap();
    for (k, t) in &types {
        writeln!(text, "{t}").unwrap();
        let v: String = sec.get(&format!("type {k}")).cloned().unwrap_or_default();
        text.push_str(&v);
    }
    let mut used: BTreeSet<String> = BTreeSet::new();
    for k in sec.keys() {
        if k.starts_with("type ") {
            used.insert(k.clone());
        }
        if let Some(g) = k.strip_prefix("raw ") {
            if sec[k].trim().is_empty() {
                continue;
            }
            used.insert(k.clone());
            writeln!(text, "// ---- {g}\n{}", sec[k]).unwrap();
        }
    }
    writeln!(text, "// ---- functions of the repository").unwrap();
    for fu in funcs {
        let mut d = Desugar { mode_a: mode == "A", loops: vec![], log: BTreeMap::new(), err: None, closures: 0 };
        let mut f = fu.f.clone();
        f.attrs.clear();
        d.visit_block_mut(&mut f.block);
        if f.sig.constness.is_some() {
            f.sig.constness = None;
            d.note("`const fn` becomes `fn`");
        }
        if f.sig.generics.where_clause.is_some() {
            f.sig.generics.where_clause = None;
            d.note("`where Self: Sized` dropped");
        }
        let mut why: Vec<String> = vec![];
        if assume.contains(&fu.key) {
            why.push("not accepted by the verifier".to_string());
        }
        if let Some(e) = &d.err {
            why.push(format!("outside the accepted subset: {e}"));
        }
        for (k, n) in &d.log {
            *notes.entry(k.clone()).or_insert(0) += n;
        }
        let ret = match &f.sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => {
                let t = ts(t);
                let t = if squash(&t) == "Chunks<Fq>" || squash(&t) == "Chunks<'_,Fq>" {
                    "VxIter<&[Fq]>".to_string()
                } else {
                    t
                };
                format!("-> (r: {t})")
            }
        };
        // a by-value `mut` parameter or `self` is fine; patterns are not
        let args = ts(&f.sig.inputs);
        let gen = ts(&f.sig.generics);
        let nloops = d.loops.len();
        let contract_loops =
            sec.keys().filter(|k| k.starts_with(&format!("loop {}#", fu.key))).count();
        if nloops != contract_loops {
            why.push(format!("{nloops} loops, its contract has {contract_loops}"));
        }
        let mut p = Printer { loops: d.loops, key: &fu.key, sec: &sec, used: BTreeSet::new(), missing: vec![], vacuity };
        let c = p.get(format!("fn {}", fu.key));
        if !sec.contains_key(&format!("fn {}", fu.key)) {
            problems.push(format!("{} has no contract", fu.key));
        }
        let wrap = |p: String| if p.trim().is_empty() { p } else { format!("proof {{\n{p}}}\n") };
        let begin = wrap(p.get(format!("at {}.begin", fu.key)));
        let end = wrap(p.get(format!("at {}.end", fu.key)));
        let vac = if vacuity { "assert(false); // vacuity canary\n" } else { "" };
        let mut attrs = p.get(format!("attr {}", fu.key));
        let mut body = if why.is_empty() { p.block(&f.block, &format!("{vac}{begin}"), &end) } else { String::new() };
        why.extend(p.missing.iter().cloned());
        used.extend(p.used.iter().cloned());
        if why.is_empty() {
            for k in sec.keys() {
                let t = k.split_whitespace().nth(1).unwrap_or("").split(['#', '.']).next().unwrap();
                if t == fu.key && !used.contains(k) {
                    why.push(format!("contract section `{k}` matches nothing in it"));
                }
            }
        }
        if !why.is_empty() {
            assumed.push(format!("{}: {}", fu.key, why.join("; ")));
            attrs = "#[verifier::external_body]\n".to_string();
            body = "{ unimplemented!() }\n".to_string();
        }
        let start = text.lines().count() + 1;
        writeln!(text, "// {} ({}:{})", fu.key, fu.file, fu.line).unwrap();
        let sigtext = format!("{attrs}pub fn {} {gen} ({args}) {ret}\n{c}{body}", f.sig.ident);
        if fu.generics.is_empty() {
            text.push_str(&indent(&sigtext));
        } else {
            text.push_str(&indent(&format!("{} {{\n{sigtext}}}\n", fu.generics)));
        }
        let endl = text.lines().count();
        writeln!(map, "{start} {endl} {} {}:{} {nloops}", fu.key, fu.file, fu.line).unwrap();
        let _ = fu.attrs_dropped;
    }
    text.push_str("}\nfn main() {}\n");
    for k in sec.keys() {
        let f = k.split_whitespace().nth(1).unwrap_or("").split(['#', '.']).next().unwrap().to_string();
        if !used.contains(k) && wanted.contains(&f) && !assumed.iter().any(|p| p.starts_with(&format!("{f}:"))) {
            problems.push(format!("contract section `{k}` matches nothing in the source"));
        }
    }
    for (k, n) in &notes {
        writeln!(log, "REWRITE {n} x {k}").unwrap();
    }
    for x in &dropped {
        writeln!(log, "DROPPED {x}").unwrap();
    }
    for x in &assumed {
        writeln!(log, "ASSUMED {x}").unwrap();
    }
    for x in &problems {
        writeln!(log, "PROBLEM {x}").unwrap();
    }
    std::fs::write(outf, text).unwrap();
    std::fs::write(format!("{outf}.map"), map).unwrap();
    std::fs::write(format!("{outf}.log"), log).unwrap();
    std::process::exit(if problems.is_empty() { 0 } else { 4 });
}
