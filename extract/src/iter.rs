//! Iterator chains become index loops (rule "iterator chain -> index loop").
//!
//! `X.iter()`, `X.iter_mut()`, `X.into_iter()`, `&X`, `X` (slices, arrays, vectors), values of an
//! iterator type, `zip`, `enumerate`, `copied`, `take`, `map`, `chunks`, `chunks_mut` and `collect`
//! are understood; the loop runs over the smallest of the lengths and binds the pattern to the
//! elements with the same index, which is what these adapters do. Everything else is refused.
use crate::xform::{format_ident, X};
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Ref,
    Val,
    Mut,
}
#[derive(Clone)]
pub enum It {
    Idx(Expr, Mode),
    Next(Expr),
    Chunks(Expr, Expr, bool),
    Zip(Box<It>, Box<It>),
    Enumerate(Box<It>),
    Take(Box<It>, Expr),
    Skip(Box<It>, Expr),
    Map(Box<It>, ExprClosure),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Vt {
    Iter,
    Vec,
    Opt,
    Arr,
    Other,
}
pub fn vt(t: &Type) -> Vt {
    let s = t.to_token_stream().to_string();
    match t {
        Type::Array(_) => Vt::Arr,
        Type::ImplTrait(_) if s.contains("Iterator") => Vt::Iter,
        Type::Path(p) => {
            let n = p.path.segments.last().unwrap().ident.to_string();
            match n.as_str() {
                "Option" => Vt::Opt,
                "Vec" => Vt::Vec,
                "PIter" => Vt::Iter,
                "Box" if s.contains("Iterator") => Vt::Iter,
                _ => Vt::Other,
            }
        }
        _ => Vt::Other,
    }
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        e => e,
    }
}
fn is_place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        _ => false,
    }
}
/// alias of a pattern variable for a place inside the iterated object
enum Al {
    Place(Expr, TokenStream, TokenStream, Option<usize>),
    Chunk(Expr, TokenStream),
}
/// elements borrowed mutably which outlive their turn come from an iterator value
fn mut_values(it: &mut It) {
    match it {
        It::Idx(p, Mode::Mut) => *it = It::Next(syn::parse_quote!(pi_mut(#p))),
        It::Zip(a, b) => {
            mut_values(a);
            mut_values(b);
        }
        It::Chunks(b, n, true) => *it = It::Next(syn::parse_quote!(pi_chunks_mut(#b, #n))),
        It::Enumerate(a) | It::Take(a, _) | It::Skip(a, _) | It::Map(a, _) => mut_values(a),
        _ => {}
    }
}
struct Subst<'a> {
    al: &'a [(String, Al)],
    bad: Option<String>,
}
impl<'a> Subst<'a> {
    fn get(&self, e: &Expr) -> Option<&'a Al> {
        if let Expr::Path(p) = strip(e) {
            let n = p.path.get_ident()?.to_string();
            return self.al.iter().find(|a| a.0 == n).map(|a| &a.1);
        }
        None
    }
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) => {
                match self.get(&m.receiver) {
                    Some(Al::Place(b, ix, _, None)) if m.method == "write" && m.args.len() == 1 => {
                        let b = b.clone();
                        self.visit_expr_mut(&mut m.args[0]);
                        let a = &m.args[0];
                        *e = syn::parse_quote!(#b.put(#ix, #a));
                        return;
                    }
                    Some(Al::Chunk(b, lohi)) if m.method == "len" && m.args.is_empty() => {
                        *e = syn::parse_quote!(chunk_len(#b.n_(), #lohi));
                        return;
                    }
                    Some(Al::Chunk(b, lohi)) if m.method == "copy_from_slice" && m.args.len() == 1 => {
                        let (b, lohi) = (b.clone(), lohi.clone());
                        self.visit_expr_mut(&mut m.args[0]);
                        let a = &m.args[0];
                        *e = syn::parse_quote!(chunk_copy(#b, #lohi, 0usize, chunk_len(#b.n_(), #lohi), #a));
                        return;
                    }
                    Some(Al::Chunk(..)) => self.bad = Some(format!("method {} on a chunk", m.method)),
                    _ => {}
                }
                // chunk[..n].copy_from_slice(src)
                if let Expr::Index(ix) = strip(&m.receiver) {
                    if let Some(Al::Chunk(b, lohi)) = self.get(&ix.expr) {
                        if let (Expr::Range(r), "copy_from_slice", 1) = (strip(&ix.index), m.method.to_string().as_str(), m.args.len()) {
                            if let RangeLimits::HalfOpen(_) = &r.limits {
                                let (b, lohi) = (b.clone(), lohi.clone());
                                let mut a = m.args[0].clone();
                                self.visit_expr_mut(&mut a);
                                let mut lo: Expr = match &r.start { Some(x) => (**x).clone(), None => syn::parse_quote!(0usize) };
                                self.visit_expr_mut(&mut lo);
                                let mut hi: Expr = match &r.end { Some(x) => (**x).clone(), None => syn::parse_quote!(chunk_len(#b.n_(), #lohi)) };
                                if r.end.is_some() {
                                    self.visit_expr_mut(&mut hi);
                                }
                                *e = syn::parse_quote!(chunk_copy(#b, #lohi, #lo, #hi, #a));
                                return;
                            }
                        }
                        self.bad = Some("use of a chunk".into());
                    }
                }
            }
            Expr::Unary(u) => {
                if let (UnOp::Deref(_), Some(Al::Place(_, _, p, _))) = (&u.op, self.get(&u.expr)) {
                    *e = syn::parse_quote!(#p);
                    return;
                }
            }
            Expr::Call(c) => {
                let take = c.func.to_token_stream().to_string().ends_with("take");
                if take && c.args.len() == 1 {
                    if let Some(Al::Place(_, _, p, _)) = self.get(&c.args[0]) {
                        let f = &c.func;
                        *e = syn::parse_quote!(#f(&mut #p));
                        return;
                    }
                }
            }
            Expr::Path(_) => match self.get(e) {
                Some(Al::Place(_, _, p, _)) => {
                    *e = syn::parse_quote!(#p);
                    return;
                }
                Some(_) => self.bad = Some("use of a chunk".into()),
                None => {}
            },
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// a chain made of `next`, `take` and `skip` only, as a value
fn piter(it: &It) -> Option<Expr> {
    match it {
        It::Next(e) => Some(e.clone()),
        It::Take(a, n) => piter(a).map(|a| syn::parse_quote!(pi_take(#a, #n))),
        It::Skip(a, n) => piter(a).map(|a| syn::parse_quote!(pi_skip(#a, #n))),
        _ => None,
    }
}
fn has_next(it: &It) -> bool {
    match it {
        It::Next(_) => true,
        It::Idx(..) | It::Chunks(..) => false,
        It::Zip(a, b) => has_next(a) || has_next(b),
        It::Enumerate(a) | It::Take(a, _) | It::Skip(a, _) | It::Map(a, _) => has_next(a),
    }
}
pub struct Loop {
    k: usize,
    pre: Vec<TokenStream>,
    bases: usize,
}
impl<'a> X<'a> {
    pub fn var(&self, e: &Expr) -> Option<Vt> {
        if let Expr::Path(p) = strip(e) {
            let n = p.path.get_ident()?.to_string();
            return self.vtypes.iter().rev().find(|v| v.0 == n).map(|v| v.1);
        }
        None
    }
    pub fn is_lazy(&self, e: &Expr) -> bool {
        matches!(strip(e), Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.lazy.iter().any(|l| i == &l.0)))
    }
    /// a chain with an element source the standard library iterates over by reference
    pub fn is_chain(&self, e: &Expr) -> bool {
        fn root(i: &It) -> bool {
            match i {
                It::Idx(..) | It::Next(_) => false,
                It::Chunks(..) | It::Zip(..) => true,
                It::Enumerate(a) | It::Take(a, _) | It::Skip(a, _) | It::Map(a, _) => root(a),
            }
        }
        self.chain(e, false).is_some_and(|i| root(&i))
    }
    /// `want` - the caller knows that `e` is iterated over
    pub fn chain(&self, e: &Expr, want: bool) -> Option<It> {
        let e = strip(e);
        match e {
            Expr::MethodCall(m) => {
                let r = || -> Expr { (*m.receiver).clone() };
                let n = m.method.to_string();
                match (n.as_str(), m.args.len()) {
                    ("zip", 1) => Some(It::Zip(Box::new(self.chain(&m.receiver, want)?), Box::new(self.chain(&m.args[0], true)?))),
                    ("enumerate", 0) => Some(It::Enumerate(Box::new(self.chain(&m.receiver, true)?))),
                    ("copied" | "cloned", 0) => match self.chain(&m.receiver, false)? {
                        It::Idx(p, Mode::Ref) => Some(It::Idx(p, Mode::Val)),
                        _ => None,
                    },
                    ("iter", 0) => Some(It::Idx(r(), Mode::Ref)),
                    ("iter_mut", 0) => Some(It::Idx(r(), Mode::Mut)),
                    ("into_iter", 0) => {
                        if let Some(i) = self.chain(&m.receiver, false) {
                            return Some(i);
                        }
                        match self.var(&m.receiver) {
                            Some(Vt::Vec) => {
                                let x = r();
                                Some(It::Next(syn::parse_quote!(pi_vec(#x))))
                            }
                            Some(Vt::Iter) => Some(It::Next(r())),
                            _ => Some(It::Idx(r(), Mode::Val)),
                        }
                    }
                    ("into_par_iter", 0) if self.par => match self.chain(&m.receiver, true)? {
                        It::Idx(p, Mode::Val) if is_place(&p) => Some(It::Next(syn::parse_quote!(pi_vec(#p)))),
                        i @ It::Next(_) => Some(i),
                        _ => None,
                    },
                    ("take", 1) => Some(It::Take(Box::new(self.chain(&m.receiver, true)?), m.args[0].clone())),
                    ("skip", 1) => Some(It::Skip(Box::new(self.chain(&m.receiver, true)?), m.args[0].clone())),
                    ("chunks", 1) => Some(It::Chunks(r(), m.args[0].clone(), false)),
                    ("chunks_mut", 1) => Some(It::Chunks(r(), m.args[0].clone(), true)),
                    ("map", 1) => {
                        let i = self.chain(&m.receiver, false)?;
                        match &m.args[0] {
                            Expr::Closure(c) if c.inputs.len() == 1 => Some(It::Map(Box::new(i), c.clone())),
                            _ => None,
                        }
                    }
                    ("planes" | "planes_mut", 0) => Some(It::Next(e.clone())),
                    _ => None,
                }
            }
            Expr::Path(p) => {
                let n = p.path.get_ident()?.to_string();
                if let Some(l) = self.lazy.iter().find(|l| l.0 == n) {
                    return self.chain(&l.1.clone(), true);
                }
                match self.var(e) {
                    Some(Vt::Iter) => Some(It::Next(e.clone())),
                    Some(Vt::Vec) if want => Some(It::Next(syn::parse_quote!(pi_vec(#e)))),
                    Some(Vt::Opt) => None,
                    _ if want => Some(It::Idx(e.clone(), Mode::Val)),
                    _ => None,
                }
            }
            Expr::Reference(r) if want && is_place(&r.expr) => {
                Some(It::Idx((*r.expr).clone(), if r.mutability.is_some() { Mode::Mut } else { Mode::Ref }))
            }
            Expr::Field(_) if want => Some(It::Idx(e.clone(), Mode::Val)),
            Expr::Call(c) => {
                let n = c.func.to_token_stream().to_string();
                if n == "infer" || n.ends_with(":: infer") {
                    return Some(It::Next(e.clone()));
                }
                None
            }
            _ => None,
        }
    }
    fn prep(&mut self, it: &mut It, l: &mut Loop) {
        match it {
            It::Idx(p, m) => {
                self.visit_expr_mut(p);
                let (k, i) = (l.k, l.bases);
                l.bases += 1;
                let g = format_ident(&format!("b{k}_{i}"));
                if !is_place(p) && *m != Mode::Mut {
                    let b = format_ident(&format!("v{k}_{i}"));
                    l.pre.push(quote!(let #b = #p;));
                    *p = syn::parse_quote!(#b);
                }
                l.pre.push(quote!(__ghost!(let #g = #p);));
            }
            It::Next(e) => {
                let (k, i) = (l.k, l.bases);
                l.bases += 1;
                self.visit_expr_mut(e);
                let b = format_ident(&format!("nx{k}_{i}"));
                let g = format_ident(&format!("b{k}_{i}"));
                l.pre.push(quote!(let mut #b = #e;));
                l.pre.push(quote!(__ghost!(let #g = #b.rest());));
                *e = syn::parse_quote!(#b);
            }
            It::Chunks(b, n, _) => {
                self.visit_expr_mut(b);
                self.visit_expr_mut(n);
                let (k, i) = (l.k, l.bases);
                l.bases += 1;
                let s = format_ident(&format!("cs{k}_{i}"));
                l.pre.push(quote!(let #s: usize = #n;));
                *n = syn::parse_quote!(#s);
            }
            It::Zip(a, b) => {
                self.prep(a, l);
                self.prep(b, l);
            }
            It::Enumerate(a) => self.prep(a, l),
            It::Take(a, n) => {
                self.prep(a, l);
                self.visit_expr_mut(n);
            }
            It::Map(a, _) => self.prep(a, l),
            It::Skip(a, n) => {
                if piter(a).is_some() {
                    let mut b = &mut **a;
                    while let It::Take(x, _) | It::Skip(x, _) = b {
                        b = x;
                    }
                    if let It::Next(e) = b {
                        self.visit_expr_mut(e);
                        let (k, i) = (l.k, l.bases);
                        let v = format_ident(&format!("nb{k}_{i}"));
                        let g = format_ident(&format!("s{k}_{i}"));
                        l.pre.push(quote!(let #v = #e;));
                        l.pre.push(quote!(__ghost!(let #g = #v.rest());));
                        *e = syn::parse_quote!(#v);
                    }
                    let p = piter(a).unwrap();
                    *it = It::Next(syn::parse_quote!(pi_skip(#p, #n)));
                    return self.prep(it, l);
                }
                if has_next(a) {
                    self.fail("skip".into());
                }
                self.prep(a, l);
                self.visit_expr_mut(n);
                let (k, i) = (l.k, l.bases);
                l.bases += 1;
                let s = format_ident(&format!("sk{k}_{i}"));
                l.pre.push(quote!(let #s: usize = #n;));
                *n = syn::parse_quote!(#s);
            }
        }
    }
    fn len(it: &It) -> TokenStream {
        match it {
            It::Idx(p, _) | It::Next(p) => quote!(#p.n_()),
            It::Chunks(b, n, _) => quote!(n_chunks(#b.n_(), #n)),
            It::Zip(a, b) => {
                let (a, b) = (Self::len(a), Self::len(b));
                quote!(min_(#a, #b))
            }
            It::Enumerate(a) | It::Map(a, _) => Self::len(a),
            It::Take(a, n) => {
                let a = Self::len(a);
                quote!(min_(#a, #n))
            }
            It::Skip(a, n) => {
                let a = Self::len(a);
                quote!(sub_sat(#a, #n))
            }
        }
    }
    fn value(&mut self, it: &It, ix: &Ident) -> TokenStream {
        match it {
            It::Idx(p, Mode::Ref) => quote!(&#p[#ix]),
            It::Idx(p, Mode::Val) => quote!(#p[#ix]),
            It::Idx(p, Mode::Mut) => {
                self.fail("mutable element as a value".into());
                quote!(#p)
            }
            It::Next(e) => quote!(#e.next_()),
            It::Chunks(b, n, false) => quote!(chunk(#b, #ix, #n)),
            It::Chunks(..) => {
                self.fail("mutable chunk as a value".into());
                quote!(())
            }
            It::Zip(a, b) => {
                let (a, b) = (self.value(a, ix), self.value(b, ix));
                quote!((#a, #b))
            }
            It::Enumerate(a) => {
                let a = self.value(a, ix);
                quote!((#ix, #a))
            }
            It::Take(a, _) => self.value(a, ix),
            It::Skip(a, n) => {
                let j = format_ident(&format!("{ix}_s"));
                let v = self.value(a, &j);
                quote!({ let #j = #ix + #n; #v })
            }
            It::Map(a, c) => {
                let (st, b) = self.bound_body(&c.inputs[0], a, ix, &c.body);
                quote!({ #(#st)* #b })
            }
        }
    }
    /// statements binding `pat` to the element, and the body with aliases replaced and visited
    fn bound_body(&mut self, pat: &Pat, it: &It, ix: &Ident, body: &Expr) -> (Vec<TokenStream>, TokenStream) {
        let mut st = vec![];
        let mut al = vec![];
        self.bind(pat, it, ix, &mut st, &mut al);
        let mut body = body.clone();
        let mut s = Subst { al: &al, bad: None };
        s.visit_expr_mut(&mut body);
        if let Some(b) = s.bad {
            self.fail(b);
        }
        self.visit_expr_mut(&mut body);
        (st, body.to_token_stream())
    }
    fn bind(&mut self, pat: &Pat, it: &It, ix: &Ident, st: &mut Vec<TokenStream>, al: &mut Vec<(String, Al)>) {
        if let Pat::Paren(p) = pat {
            return self.bind(&p.pat, it, ix, st, al);
        }
        if let Pat::Type(p) = pat {
            return self.bind(&p.pat, it, ix, st, al);
        }
        match (pat, it) {
            (Pat::Wild(_), It::Next(_)) => {
                let v = self.value(it, ix);
                st.push(quote!(let _ = #v;));
            }
            (Pat::Wild(_), _) => {}
            (Pat::Tuple(t), It::Zip(a, b)) if t.elems.len() == 2 => {
                self.bind(&t.elems[0], a, ix, st, al);
                self.bind(&t.elems[1], b, ix, st, al);
            }
            (Pat::Tuple(t), It::Enumerate(a)) if t.elems.len() == 2 => {
                let i = &t.elems[0];
                st.push(quote!(let #i = #ix;));
                self.bind(&t.elems[1], a, ix, st, al);
            }
            (_, It::Take(a, _)) => self.bind(pat, a, ix, st, al),
            (_, It::Skip(a, n)) => {
                let j = format_ident(&format!("{ix}_s"));
                st.push(quote!(let #j = #ix + #n;));
                self.bind(pat, a, &j, st, al)
            }
            (Pat::Reference(r), It::Idx(p, Mode::Ref | Mode::Val)) => {
                let q = &r.pat;
                st.push(quote!(let #q = #p[#ix];));
            }
            (Pat::Tuple(t), It::Idx(p, Mode::Ref)) => {
                for (j, q) in t.elems.iter().enumerate() {
                    let j = proc_macro2::Literal::usize_unsuffixed(j);
                    match q {
                        Pat::Wild(_) => {}
                        Pat::Reference(q) => {
                            let q = &q.pat;
                            st.push(quote!(let #q = #p[#ix].#j;))
                        }
                        q => st.push(quote!(let #q = &#p[#ix].#j;)),
                    }
                }
            }
            (Pat::Ident(i), It::Idx(p, Mode::Mut)) => {
                al.push((i.ident.to_string(), Al::Place(p.clone(), quote!(#ix), quote!(#p[#ix]), None)));
            }
            (Pat::Tuple(t), It::Idx(p, Mode::Mut)) => {
                for (j, q) in t.elems.iter().enumerate() {
                    let l = proc_macro2::Literal::usize_unsuffixed(j);
                    match q {
                        Pat::Ident(i) => al.push((i.ident.to_string(), Al::Place(p.clone(), quote!(#ix), quote!(#p[#ix].#l), Some(j)))),
                        Pat::Wild(_) => {}
                        _ => self.fail("pattern of a mutable element".into()),
                    }
                }
            }
            (Pat::Ident(i), It::Chunks(b, n, true)) => {
                al.push((i.ident.to_string(), Al::Chunk(b.clone(), quote!(#ix, #n))));
            }
            _ => {
                let v = self.value(it, ix);
                st.push(quote!(let #pat = #v;));
            }
        }
    }
    /// `for pat in it { body }`
    pub fn for_chain(&mut self, pat: &Pat, mut it: It, body: &Block) -> Option<Expr> {
        self.rule("iterator chain -> index loop");
        let k = self.loop_no;
        self.loop_no += 1;
        let mut l = Loop { k, pre: vec![], bases: 0 };
        self.prep(&mut it, &mut l);
        let ix = format_ident(&format!("ix_{k}"));
        let bx = Expr::Block(ExprBlock { attrs: vec![], label: None, block: body.clone() });
        let (st, b) = self.bound_body(pat, &it, &ix, &bx);
        Some(self.finish(&l, &it, quote!(#(#st)* #b), quote!(), quote!()))
    }
    fn finish(&mut self, l: &Loop, it: &It, inner: TokenStream, before: TokenStream, after: TokenStream) -> Expr {
        let k = l.k;
        let f = |s: &str| format_ident(&format!("{s}_{k}"));
        let (itv, ix, end) = (f("it"), f("ix"), f("end"));
        let (lb, le, lp, la) = (f("__loop_begin"), f("__loop_end"), f("__loop_pre"), f("__loop_after"));
        let pre = &l.pre;
        let len = Self::len(it);
        let ts = quote!({
            #before
            #(#pre)*
            let #end: usize = #len;
            let mut #itv: usize = 0;
            #lp!();
            while #itv < #end {
                #lb!();
                let #ix = #itv;
                #itv = #itv + 1;
                #inner
                #le!();
            }
            #la!();
            #after
        });
        Expr::Verbatim(ts)
    }
    /// `X.into_par_iter().zip(Y).try_for_each(|pat| body)`: the items are handled one by one; which ones are
    /// left out after a failure, and which failure is returned, is arbitrary
    pub fn par_chain(&mut self, recv: &Expr, c: &ExprClosure) -> Option<Expr> {
        self.par = true;
        let it = self.chain(recv, true);
        self.par = false;
        let mut it = it?;
        if c.inputs.len() != 1 {
            return None;
        }
        fn owned(it: &mut It) {
            match it {
                It::Idx(p, Mode::Val) if is_place(p) => *it = It::Next(syn::parse_quote!(pi_vec(#p))),
                It::Zip(a, b) => {
                    owned(a);
                    owned(b);
                }
                _ => {}
            }
        }
        owned(&mut it);
        if crate::xform::leaves(&c.body) {
            return None;
        }
        let body = (*c.body).clone();
        // the items hold vectors of planes
        struct Names(Vec<String>);
        impl<'a> syn::visit::Visit<'a> for Names {
            fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                self.0.push(p.ident.to_string());
            }
        }
        let mut nm = Names(vec![]);
        syn::visit::Visit::visit_pat(&mut nm, &c.inputs[0]);
        let saved = self.vtypes.len();
        self.vtypes.extend(nm.0.into_iter().map(|n| (n, Vt::Vec)));
        self.rule("parallel try_for_each -> loop over the items in any schedule");
        let k = self.loop_no;
        self.loop_no += 1;
        let mut l = Loop { k, pre: vec![], bases: 0 };
        self.prep(&mut it, &mut l);
        let ix = format_ident(&format!("ix_{k}"));
        let (st, b) = self.bound_body(&c.inputs[0], &it, &ix, &body);
        self.vtypes.truncate(saved);
        let f = |s: &str| format_ident(&format!("{s}_{k}"));
        let (res, skip, one, hook) = (f("res"), f("skipped"), f("one"), f("__loop_one"));
        Some(self.finish(
            &l,
            &it,
            quote!(#(#st)* if par_skip() { #skip = true; } else { let #one = #b; #hook!(); #res = par_join(#res, #one); }),
            quote!(let mut #res = Ok(()); let mut #skip = false;),
            {
                let done = f("__loop_done");
                quote!(par_done(#skip, &#res); #done!(); #res)
            },
        ))
    }
    /// `it.collect()` into a vector
    pub fn collect_chain(&mut self, mut it: It) -> Expr {
        mut_values(&mut it);
        if let It::Next(e) = &mut it {
            self.visit_expr_mut(e);
            return syn::parse_quote!(pi_collect(#e));
        }
        self.rule("iterator chain -> index loop");
        let k = self.loop_no;
        self.loop_no += 1;
        let mut l = Loop { k, pre: vec![], bases: 0 };
        self.prep(&mut it, &mut l);
        let ix = format_ident(&format!("ix_{k}"));
        let col = format_ident(&format!("col_{k}"));
        let item = format_ident(&format!("item_{k}"));
        let v = self.value(&it, &ix);
        self.finish(&l, &it, quote!(let #item = #v; #col.push(#item);), quote!(let mut #col = Vec::new();), quote!(#col))
    }
    /// array.map(closure)
    pub fn array_map(&mut self, recv: Expr, c: &ExprClosure) -> Expr {
        self.rule("array map -> index loop");
        let k = self.loop_no;
        self.loop_no += 1;
        let mut l = Loop { k, pre: vec![], bases: 0 };
        let mut it = It::Map(Box::new(It::Idx(recv, Mode::Val)), c.clone());
        self.prep(&mut it, &mut l);
        let ix = format_ident(&format!("ix_{k}"));
        let col = format_ident(&format!("col_{k}"));
        let item = format_ident(&format!("item_{k}"));
        let v = self.value(&it, &ix);
        self.finish(&l, &it, quote!(let #item = #v; #col.put(#ix, #item);), quote!(let mut #col = Slots::new();), quote!(#col.finish()))
    }
}
