//! The fixed rewrite rules applied to extracted code (see DESIGN.md, "What the extraction does").
use crate::iter::{vt, Vt};
use crate::source::{attrs_cfg_out, item_attrs, Source};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Opts {
    /// type parameters which are monomorphised away
    pub mono: Vec<String>,
    /// functions/methods with a contract in the template (never inlined)
    pub known: BTreeSet<String>,
    /// `unsafe fn f(&mut [&mut V; N])`-style pointwise functions
    pub pointwise: BTreeSet<String>,
    /// parameters passed by value in the source which are passed as `&mut`
    pub by_mut: Vec<String>,
    /// functions extracted under another name: file, selector, name
    pub nested: Vec<(String, Vec<String>, String)>,
    pub tryconv: bool,
    /// raw-pointer reads/writes, transmutes and float-to-int casts become calls of modelled functions
    pub raw: bool,
}

pub struct X<'a> {
    pub src: &'a Source,
    pub file: String,
    pub scope: Vec<Item>,
    pub nested: Vec<Item>,
    pub opts: &'a Opts,
    pub generics: Vec<String>,
    pub self_ty: Option<String>,
    pub rules: BTreeSet<String>,
    pub inlined: Vec<String>,
    pub err: Option<String>,
    pub loop_no: usize,
    pub depth: usize,
    pub alias: Vec<(String, Vec<Expr>)>,
    pub chunks: Vec<(String, String, usize)>,
    pub fnargs: Vec<(String, Expr)>,
    /// source name of the array-of-&mut parameter of a pointwise function
    pub pw: Option<String>,
    /// kinds of parameters and locals, where they matter
    pub vtypes: Vec<(String, Vt)>,
    /// inside of a parallel iterator chain
    pub par: bool,
    /// locals bound to iterator chains which are not consumed yet
    pub lazy: Vec<(String, Expr)>,
    /// nested functions with a contract of their own: source name -> name in the template
    pub renames: Vec<(String, String)>,
    /// `expect`/`unwrap` of this function may panic
    pub maypanic: bool,
    /// array types of locals and parameters (only with `raw`)
    pub atypes: Vec<(String, Type)>,
}

pub fn print(ts: TokenStream) -> String {
    let mut s = String::new();
    emit(ts, &mut s);
    s
}
fn emit(ts: TokenStream, s: &mut String) {
    let mut joint = false;
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !s.is_empty() && !joint && !s.ends_with('\n') {
                    s.push(' ');
                }
                s.push_str(o);
                if o == "{" {
                    s.push('\n');
                }
                emit(g.stream(), s);
                if !s.ends_with('\n') {
                    s.push(' ');
                }
                s.push_str(c);
                if c == "}" {
                    s.push('\n');
                }
                joint = false;
            }
            TokenTree::Punct(p) => {
                if !joint && !s.is_empty() && !s.ends_with('\n') {
                    s.push(' ');
                }
                s.push(p.as_char());
                joint = p.spacing() == Spacing::Joint;
                if p.as_char() == ';' {
                    s.push('\n');
                    joint = false;
                }
            }
            t => {
                if !joint && !s.is_empty() && !s.ends_with('\n') {
                    s.push(' ');
                }
                s.push_str(&t.to_string());
                joint = false;
            }
        }
    }
}
/// normal form used by `//@subst`: the printed tokens with all whitespace collapsed
pub fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn drop_param(g: &mut Generics, mono: &[String]) {
    g.params = g
        .params
        .iter()
        .filter(|p| match p {
            GenericParam::Type(t) => !mono.contains(&t.ident.to_string()),
            _ => true,
        })
        .cloned()
        .collect();
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            // 'static and Debug bounds carry no proof obligation
            t.bounds = t
                .bounds
                .iter()
                .filter(|b| !matches!(b, TypeParamBound::Lifetime(_)))
                .cloned()
                .collect();
        }
    }
    if let Some(w) = &mut g.where_clause {
        w.predicates = w
            .predicates
            .iter()
            .filter(|p| match p {
                WherePredicate::Type(t) => {
                    let b = &t.bounded_ty;
                    !mono.contains(&quote!(#b).to_string())
                }
                _ => true,
            })
            .cloned()
            .collect();
        if w.predicates.is_empty() {
            g.where_clause = None;
        }
    }
}
fn float_real(digits: &str, neg: bool) -> Expr {
    let d: String = digits.chars().filter(|c| *c != '_').collect();
    // normalise exponents into plain decimals
    let (m, e) = match d.find(|c| c == 'e' || c == 'E') {
        Some(i) => (d[..i].to_string(), d[i + 1..].parse::<i32>().unwrap_or(0)),
        None => (d.clone(), 0),
    };
    let (ip, fp) = m.split_once('.').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((m, String::new()));
    let (mut ip, mut fp) = (ip, fp);
    for _ in 0..e.max(0) {
        if fp.is_empty() {
            ip.push('0');
        } else {
            ip.push(fp.remove(0));
        }
    }
    for _ in 0..(-e).max(0) {
        let c = if ip.is_empty() { '0' } else { ip.pop().unwrap() };
        fp.insert(0, c);
    }
    if ip.is_empty() {
        ip = "0".into();
    }
    if fp.is_empty() {
        fp = "0".into();
    }
    let ip = {
        let t = ip.trim_start_matches('0');
        if t.is_empty() { "0".to_string() } else { t.to_string() }
    };
    let lit: TokenStream = format!("{ip}.{fp}real").parse().unwrap();
    let neg = if neg { quote!(-) } else { quote!() };
    Expr::Verbatim(quote!(lit(Ghost(#neg #lit))))
}

impl<'a> X<'a> {
    pub fn fail(&mut self, m: String) {
        if self.err.is_none() {
            self.err = Some(m);
        }
    }
    pub fn rule(&mut self, r: &str) {
        self.rules.insert(r.to_string());
    }
    pub fn generics(&mut self, g: &mut Generics) {
        drop_param(g, &self.opts.mono);
    }

    fn find_fn(&self, name: &str) -> Option<(Signature, Block, bool)> {
        for set in [&self.nested, &self.scope] {
            for i in set.iter() {
                if let Item::Fn(f) = i {
                    if f.sig.ident == name {
                        return Some((f.sig.clone(), (*f.block).clone(), false));
                    }
                }
            }
        }
        // other files: unique free function of that name anywhere in the crate
        let mut found = vec![];
        fn rec(items: &[Item], name: &str, out: &mut Vec<ItemFn>) {
            for i in items {
                if attrs_cfg_out(item_attrs(i)) {
                    continue;
                }
                match i {
                    Item::Fn(f) if f.sig.ident == name => out.push(f.clone()),
                    Item::Mod(m) => {
                        if let Some((_, its)) = &m.content {
                            rec(its, name, out)
                        }
                    }
                    _ => {}
                }
            }
        }
        for (_, f) in &self.src.files {
            rec(&f.items, name, &mut found);
        }
        if found.len() == 1 {
            let f = found.pop().unwrap();
            return Some((f.sig, *f.block, false));
        }
        None
    }
    fn find_method(&self, ty: Option<&str>, name: &str) -> Option<(Signature, Block, Generics)> {
        let mut out = vec![];
        for (_, f) in &self.src.files {
            fn rec(items: &[Item], ty: Option<&str>, name: &str, out: &mut Vec<(Signature, Block, Generics)>) {
                for i in items {
                    if attrs_cfg_out(item_attrs(i)) {
                        continue;
                    }
                    match i {
                        Item::Impl(im) if im.trait_.is_none() => {
                            if ty.map_or(true, |t| crate::source::type_name(&im.self_ty) == t) {
                                for ii in &im.items {
                                    if let ImplItem::Fn(f) = ii {
                                        if f.sig.ident == name {
                                            out.push((f.sig.clone(), f.block.clone(), im.generics.clone()));
                                        }
                                    }
                                }
                            }
                        }
                        Item::Mod(m) => {
                            if let Some((_, its)) = &m.content {
                                rec(its, ty, name, out)
                            }
                        }
                        _ => {}
                    }
                }
            }
            rec(&f.items, ty, name, &mut out);
        }
        if out.len() == 1 {
            out.pop()
        } else {
            None
        }
    }
    fn is_const_path(&self, e: &Expr) -> bool {
        if let Expr::Path(p) = e {
            let n = p.path.segments.last().unwrap().ident.to_string();
            return p.qself.is_none()
                && n.len() > 1
                && n.chars().all(|c| c.is_uppercase() || c.is_numeric() || c == '_')
                && !self.generics.contains(&format!("const {n}"))
                && !self.opts.known.contains(&n)
                && (p.path.segments.len() == 1
                    || p.path.segments[0].ident.to_string().starts_with(|c: char| c.is_lowercase()))
                && self.find_const(&n).is_some();
        }
        false
    }
    /// `Variant` -> `Enum::Variant` for variants brought into scope by `use Enum::*`
    fn glob_variant(&mut self, name: &str) -> Option<Expr> {
        if !name.starts_with(|c: char| c.is_uppercase()) {
            return None;
        }
        let mut globs = vec![];
        fn rec(t: &UseTree, last: Option<String>, out: &mut Vec<String>) {
            match t {
                UseTree::Path(p) => rec(&p.tree, Some(p.ident.to_string()), out),
                UseTree::Glob(_) => out.extend(last),
                UseTree::Group(g) => {
                    for i in &g.items {
                        rec(i, last.clone(), out)
                    }
                }
                _ => {}
            }
        }
        for i in self.nested.iter().chain(self.scope.iter()) {
            if let Item::Use(u) = i {
                rec(&u.tree, None, &mut globs);
            }
        }
        globs.sort();
        globs.dedup();
        let mut hits: Vec<String> = vec![];
        for g in globs {
            let g = if g == "Self" { self.self_ty.clone().unwrap_or(g) } else { g };
            for (_, f) in &self.src.files {
                for it in &f.items {
                    if let Item::Enum(en) = it {
                        if en.ident == g && en.variants.iter().any(|v| v.ident == name) {
                            hits.push(g.clone());
                        }
                    }
                }
            }
        }
        if hits.len() > 1 {
            self.fail(format!("ambiguous variant {name}"));
            return None;
        }
        let en = format_ident(hits.first()?);
        let v = format_ident(name);
        self.rule("use Enum::* resolved");
        Some(syn::parse_quote!(#en::#v))
    }
    fn find_const(&self, name: &str) -> Option<Expr> {
        for set in [&self.nested, &self.scope] {
            for i in set.iter() {
                match i {
                    Item::Const(c) if c.ident == name => return Some((*c.expr).clone()),
                    Item::Static(c) if c.ident == name => return Some((*c.expr).clone()),
                    _ => {}
                }
            }
        }
        // constants brought into scope by `use ..::module::*` or `use ..::module::NAME`
        fn uses(t: &UseTree, last: Option<String>, name: &str, out: &mut Vec<String>) {
            match t {
                UseTree::Path(p) => uses(&p.tree, Some(p.ident.to_string()), name, out),
                UseTree::Glob(_) => out.extend(last),
                UseTree::Name(n) if n.ident == name => out.extend(last),
                UseTree::Group(g) => {
                    for i in &g.items {
                        uses(i, last.clone(), name, out)
                    }
                }
                _ => {}
            }
        }
        let mut mods = vec![];
        for i in self.nested.iter().chain(self.scope.iter()) {
            if let Item::Use(u) = i {
                uses(&u.tree, None, name, &mut mods);
            }
        }
        mods.sort();
        mods.dedup();
        fn in_mod(items: &[Item], mods: &[String], name: &str, here: bool, out: &mut Vec<Expr>) {
            for i in items {
                match i {
                    Item::Const(c) if here && c.ident == name => out.push((*c.expr).clone()),
                    Item::Static(c) if here && c.ident == name => out.push((*c.expr).clone()),
                    Item::Mod(m) if !attrs_cfg_out(item_attrs(i)) => {
                        if let Some((_, its)) = &m.content {
                            in_mod(its, mods, name, mods.contains(&m.ident.to_string()), out)
                        }
                    }
                    _ => {}
                }
            }
        }
        let mut hits = vec![];
        for (p, f) in &self.src.files {
            let stem = file_module(p);
            in_mod(&f.items, &mods, name, mods.contains(&stem), &mut hits);
        }
        if hits.len() == 1 {
            return hits.pop();
        }
        let mut found = vec![];
        fn rec(items: &[Item], name: &str, out: &mut Vec<Expr>) {
            for i in items {
                if attrs_cfg_out(item_attrs(i)) {
                    continue;
                }
                match i {
                    Item::Const(c) if c.ident == name => out.push((*c.expr).clone()),
                    Item::Static(c) if c.ident == name => out.push((*c.expr).clone()),
                    Item::Mod(m) => {
                        if let Some((_, its)) = &m.content {
                            rec(its, name, out)
                        }
                    }
                    _ => {}
                }
            }
        }
        for (_, f) in &self.src.files {
            rec(&f.items, name, &mut found);
        }
        if found.len() == 1 {
            found.pop()
        } else {
            None
        }
    }

    /// AST-level inlining of a helper function without a contract.
    fn inline(
        &mut self,
        sig: Signature,
        mut block: Block,
        recv: Option<Expr>,
        args: Vec<Expr>,
        turbofish: Option<AngleBracketedGenericArguments>,
        owner: Option<String>,
    ) -> Option<Expr> {
        if self.depth > 6 {
            self.fail(format!("inlining too deep at {}", sig.ident));
            return None;
        }
        // no early exits
        struct Exits(bool);
        impl VisitMut for Exits {
            fn visit_expr_return_mut(&mut self, _: &mut ExprReturn) {
                self.0 = true;
            }
            fn visit_expr_try_mut(&mut self, _: &mut ExprTry) {
                self.0 = true;
            }
            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
        }
        let mut e = Exits(false);
        e.visit_block_mut(&mut block);
        if e.0 {
            self.fail(format!("helper `{}` has an early exit and no contract", sig.ident));
            return None;
        }
        // generic parameters
        let tparams: Vec<String> = sig
            .generics
            .params
            .iter()
            .filter_map(|p| match p {
                GenericParam::Type(t) => Some(t.ident.to_string()),
                GenericParam::Const(c) => Some(c.ident.to_string()),
                _ => None,
            })
            .collect();
        let mut map: Vec<(String, TokenStream)> = vec![];
        if let Some(o) = &owner {
            let o = format_ident(o);
            map.push(("Self".into(), quote!(#o)));
        }
        if let Some(tf) = &turbofish {
            let targs: Vec<_> = tf
                .args
                .iter()
                .filter(|a| !matches!(a, GenericArgument::Lifetime(_)))
                .collect();
            if targs.len() == tparams.len() {
                for (p, a) in tparams.iter().zip(targs) {
                    map.push((p.clone(), quote!(#a)));
                }
            }
        }
        for p in &tparams {
            if map.iter().any(|m| &m.0 == p) || self.generics.contains(p) || self.opts.mono.contains(p) {
                continue;
            }
            // named in the signature only
            let body = quote!(#block).to_string();
            if !body.split(|c: char| !c.is_alphanumeric() && c != '_').any(|t| t == p) {
                continue;
            }
            // a single Vector parameter of the caller
            if let Some(g) = self.generics.iter().find(|g| g.as_str() == "V") {
                let g = format_ident(g);
                map.push((p.clone(), quote!(#g)));
            } else {
                self.fail(format!("cannot instantiate generic {p} of helper {}", sig.ident));
                return None;
            }
        }
        let mut pats: Vec<TokenStream> = vec![];
        let mut vals: Vec<TokenStream> = vec![];
        let mut fnargs = vec![];
        let mut newv = vec![];
        let mut it = args.into_iter();
        for inp in sig.inputs.iter() {
            match inp {
                FnArg::Receiver(_) => {}
                FnArg::Typed(t) => {
                    let a = it.next()?;
                    let ty = &*t.ty;
                    let tys = quote!(#ty).to_string();
                    let is_fn = matches!(ty, Type::BareFn(_)) || tys.contains("Fn");
                    if is_fn {
                        if let (Pat::Ident(pi), Expr::Path(_)) = (&*t.pat, &a) {
                            fnargs.push((pi.ident.to_string(), a.clone()));
                            continue;
                        }
                        self.fail("function-valued argument".into());
                        return None;
                    }
                    let p = &t.pat;
                    if let Pat::Ident(pi) = &**p {
                        newv.push((pi.ident.to_string(), crate::iter::vt(ty)));
                    }
                    pats.push(quote!(#p));
                    // a reference is lent, not given away
                    let lend = match ty {
                        Type::Reference(r) if matches!(&*r.elem, Type::TraitObject(_) | Type::ImplTrait(_)) => {
                            matches!(&a, Expr::Path(p) if p.path.get_ident().is_some_and(|i| i != "self")).then_some(r.mutability.is_some())
                        }
                        _ => None,
                    };
                    vals.push(match lend {
                        Some(true) => quote!(&mut *#a),
                        Some(false) => quote!(&*#a),
                        None => quote!(#a),
                    });
                }
            }
        }
        self.inlined.push(sig.ident.to_string());
        self.rule("inline-helper");
        // substitute generics / self in the body
        struct Sub<'b> {
            map: &'b [(String, TokenStream)],
            recv: &'b Option<Expr>,
        }
        impl<'b> VisitMut for Sub<'b> {
            fn visit_path_mut(&mut self, p: &mut Path) {
                if let Some(f) = p.segments.first() {
                    let n = f.ident.to_string();
                    if let Some((_, ts)) = self.map.iter().find(|m| m.0 == n) {
                        let rest: Vec<_> = p.segments.iter().skip(1).cloned().collect();
                        let mut s = quote!(#ts);
                        for r in rest {
                            s = quote!(#s :: #r);
                        }
                        if let Ok(np) = syn::parse2::<Path>(s) {
                            *p = np;
                        }
                    }
                }
                visit_mut::visit_path_mut(self, p);
            }
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Path(p) = e {
                    if p.path.is_ident("self") {
                        if let Some(r) = self.recv {
                            *e = r.clone();
                        }
                        return;
                    }
                    if p.path.segments.len() == 1 && p.qself.is_none() {
                        let n = p.path.segments[0].ident.to_string();
                        if let Some((_, ts)) = self.map.iter().find(|m| m.0 == n) {
                            if let Ok(x) = syn::parse2::<Expr>(ts.clone()) {
                                *e = x;
                                return;
                            }
                        }
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        Sub { map: &map, recv: &recv }.visit_block_mut(&mut block);
        let stmts = &block.stmts;
        let new: Expr = if pats.is_empty() {
            syn::parse2(quote!({ #(#stmts)* })).ok()?
        } else {
            syn::parse2(quote!({ let (#(#pats,)*) = (#(#vals,)*); #(#stmts)* })).ok()?
        };
        let saved = self.fnargs.len();
        self.fnargs.extend(fnargs);
        let vsaved = self.vtypes.len();
        self.vtypes.extend(newv);
        self.depth += 1;
        let mut new = new;
        self.visit_expr_mut(&mut new);
        self.depth -= 1;
        self.vtypes.truncate(vsaved);
        self.fnargs.truncate(saved);
        Some(new)
    }
}
pub fn format_ident(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}

fn macro_to_expr(m: &Macro) -> Option<Expr> {
    let n = m.path.segments.last()?.ident.to_string();
    let args = m
        .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
        .ok()?;
    let a: Vec<&Expr> = args.iter().collect();
    let ts = match n.as_str() {
        "assert" | "debug_assert" => {
            let c = a.first()?;
            quote!(chk(#c))
        }
        "assert_eq" | "debug_assert_eq" => {
            let (x, y) = (a.first()?, a.get(1)?);
            quote!(chk(#x == #y))
        }
        "assert_ne" | "debug_assert_ne" => {
            let (x, y) = (a.first()?, a.get(1)?);
            quote!(chk(#x != #y))
        }
        "panic" | "unreachable" | "todo" | "unimplemented" => quote!(unreached()),
        "is_x86_feature_detected" => quote!(feature_detected()),
        "vec" if a.is_empty() => quote!(Vec::new()),
        "matches" => return None,
        _ => return None,
    };
    syn::parse2(ts).ok()
}

impl<'a> VisitMut for X<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.path.is_ident("f32") {
                *t = syn::parse_quote!(F);
                self.rule("f32->F(real)");
                return;
            }
        }
        if let Some(item) = iterator_item(t) {
            self.rule("iterator type -> PIter (the sequence of its items)");
            *t = syn::parse_quote!(PIter<#item>);
        }
        if let Type::Array(a) = t {
            if let Type::Path(p) = &*a.elem {
                let s = p.path.segments.last().unwrap();
                if s.ident == "MaybeUninit" {
                    if let PathArguments::AngleBracketed(g) = &s.arguments {
                        let (g, n) = (&g.args, &a.len);
                        self.rule("[MaybeUninit<T>; N] -> Slots<T, N>");
                        *t = syn::parse_quote!(Slots<#g, #n>);
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_arguments_mut(&mut self, a: &mut PathArguments) {
        if let PathArguments::AngleBracketed(ab) = a {
            let mono = &self.opts.mono;
            ab.args = ab
                .args
                .iter()
                .filter(|g| match g {
                    GenericArgument::Type(Type::Path(p)) => {
                        !(p.path.segments.len() == 1 && mono.contains(&p.path.segments[0].ident.to_string()))
                    }
                    _ => true,
                })
                .cloned()
                .collect();
        }
        visit_mut::visit_path_arguments_mut(self, a);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        // PhantomData<&'a [P]> keeps its argument
        if p.segments.last().map_or(false, |s| s.ident == "PhantomData") {
            if p.segments.len() > 1 {
                *p = Path::from(p.segments.last().unwrap().clone());
            }
            return;
        }
        if p.segments.len() > 1 && p.segments[0].ident == "f32" {
            p.segments[0].ident = format_ident("F");
        }
        // module qualification is dropped for items the template knows by their last segment
        visit_mut::visit_path_mut(self, p);
        if p.segments.len() > 1 {
            let first = p.segments[0].ident.to_string();
            if first == "crate" || first == "super" || first == "std" || first == "self" || first == "core" {
                let last = p.segments.last().unwrap().clone();
                let l2 = p.segments[p.segments.len() - 2].clone();
                // keep Type::Variant / module::function pairs
                let l2n = l2.ident.to_string();
                if l2n.chars().next().map_or(false, |c| c.is_uppercase()) || l2n.starts_with("bt2100") {
                    let mut np = Path::from(l2);
                    np.segments.push(last);
                    *p = np;
                } else {
                    *p = Path::from(last);
                }
            }
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        f.attrs.clear();
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(i) = p {
            let n = i.ident.to_string();
            if n != "None" && n.starts_with(|c: char| c.is_uppercase()) {
                match self.glob_variant(&n) {
                    Some(Expr::Path(np)) => {
                        *p = Pat::Path(np);
                        return;
                    }
                    _ => self.fail(format!("unresolved pattern {n}")),
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // collect nested items first
        let mut keep = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Item(i) => {
                    if !attrs_cfg_out(item_attrs(&i)) {
                        self.nested.push(i);
                    }
                }
                Stmt::Local(mut l) => {
                    if attrs_cfg_out(&l.attrs) {
                        continue;
                    }
                    l.attrs.clear();
                    // array destructuring of read_planes
                    keep.push(Stmt::Local(l));
                }
                Stmt::Expr(e, semi) => {
                    let attrs = expr_attrs(&e);
                    if attrs_cfg_out(attrs) {
                        continue;
                    }
                    keep.push(Stmt::Expr(strip_attrs(e), semi));
                }
                Stmt::Macro(m) => {
                    if attrs_cfg_out(&m.attrs) {
                        continue;
                    }
                    match macro_to_expr(&m.mac) {
                        Some(e) => {
                            self.rule("assert->obligation");
                            keep.push(Stmt::Expr(e, Some(Default::default())))
                        }
                        None => keep.push(Stmt::Macro(m)),
                    }
                }
            }
        }
        b.stmts = keep;
        if local_closures(&mut b.stmts) {
            self.rule("calls of local closures -> their bodies");
        }
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            self.stmt(s, &mut out);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.expr_inner(e);
        if fold_lits(e) {
            self.rule("arithmetic on float literals folded");
        }
        if unshift(e) {
            self.rule("usize: e >> k, e << k, e & 1, e & !1 -> e / 2^k, e * 2^k (an overflow is an error), e % 2, e / 2 * 2 (a type error for other types)");
        }
    }

}

/// shifts and masks of a usize as divisions (the suffix makes it a type error for every other type)
fn unshift(e: &mut Expr) -> bool {
    fn int(e: &Expr) -> Option<u64> {
        match e {
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok(),
            Expr::Paren(p) => int(&p.expr),
            _ => None,
        }
    }
    fn not1(e: &Expr) -> bool {
        match e {
            Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && int(&u.expr) == Some(1),
            Expr::Paren(p) => not1(&p.expr),
            _ => false,
        }
    }
    let Expr::Binary(b) = e else { return false };
    if int(&b.left).is_some() {
        return false;
    }
    let l = &b.left;
    let n: Expr = match b.op {
        BinOp::Shr(_) => match int(&b.right) {
            Some(k @ 1..=16) => {
                let d = LitInt::new(&format!("{}usize", 1u64 << k), proc_macro2::Span::call_site());
                parse_quote!(((#l) / #d))
            }
            _ => return false,
        },
        BinOp::Shl(_) => match int(&b.right) {
            Some(k @ 1..=16) => {
                let d = LitInt::new(&format!("{}usize", 1u64 << k), proc_macro2::Span::call_site());
                parse_quote!(((#l) * #d))
            }
            _ => return false,
        },
        BinOp::BitAnd(_) if int(&b.right) == Some(1) => parse_quote!(((#l) % 2usize)),
        BinOp::BitAnd(_) if not1(&b.right) => parse_quote!(((#l) / 2usize * 2usize)),
        _ => return false,
    };
    *e = n;
    true
}

pub fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::Block(b) => &b.attrs,
        Expr::If(b) => &b.attrs,
        Expr::Call(b) => &b.attrs,
        Expr::MethodCall(b) => &b.attrs,
        Expr::Macro(b) => &b.attrs,
        Expr::Unsafe(b) => &b.attrs,
        Expr::Match(b) => &b.attrs,
        Expr::ForLoop(b) => &b.attrs,
        Expr::Assign(b) => &b.attrs,
        _ => &[],
    }
}
fn strip_attrs(mut e: Expr) -> Expr {
    match &mut e {
        Expr::Block(b) => b.attrs.clear(),
        Expr::If(b) => b.attrs.clear(),
        Expr::Call(b) => b.attrs.clear(),
        Expr::MethodCall(b) => b.attrs.clear(),
        Expr::Macro(b) => b.attrs.clear(),
        Expr::Unsafe(b) => b.attrs.clear(),
        Expr::Match(b) => b.attrs.clear(),
        Expr::ForLoop(b) => b.attrs.clear(),
        Expr::Assign(b) => b.attrs.clear(),
        _ => {}
    }
    e
}

/// `let f = |x| body;` whose every use is a call: the calls become the body
fn local_closures(stmts: &mut Vec<Stmt>) -> bool {
    use std::collections::HashSet;
    struct Free {
        names: HashSet<String>,
        exits: bool,
    }
    impl VisitMut for Free {
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            if let Some(i) = p.path.get_ident() {
                self.names.insert(i.to_string());
            }
            visit_mut::visit_expr_path_mut(self, p);
        }
        fn visit_expr_return_mut(&mut self, _: &mut ExprReturn) {
            self.exits = true;
        }
        fn visit_expr_try_mut(&mut self, _: &mut ExprTry) {
            self.exits = true;
        }
        fn visit_expr_macro_mut(&mut self, _: &mut ExprMacro) {
            self.exits = true;
        }
        fn visit_stmt_macro_mut(&mut self, _: &mut StmtMacro) {
            self.exits = true;
        }
    }
    struct Uses<'b> {
        name: &'b str,
        args: usize,
        free: &'b HashSet<String>,
        bad: bool,
    }
    impl<'b> VisitMut for Uses<'b> {
        fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.name)) {
                self.bad |= c.args.len() != self.args;
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            } else {
                visit_mut::visit_expr_call_mut(self, c);
            }
        }
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            self.bad |= p.path.is_ident(self.name);
        }
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            let n = p.ident.to_string();
            self.bad |= n == self.name || self.free.contains(&n);
            visit_mut::visit_pat_ident_mut(self, p);
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) {
            self.bad |= m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|t| t == self.name);
        }
    }
    struct Put<'b> {
        name: &'b str,
        c: &'b ExprClosure,
    }
    impl<'b> VisitMut for Put<'b> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(c) = e {
                if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.name)) {
                    let body = &self.c.body;
                    let (mut pats, mut tys, mut typed) = (vec![], vec![], false);
                    for i in &self.c.inputs {
                        match i {
                            Pat::Type(t) => {
                                let (p, ty) = (&t.pat, &t.ty);
                                pats.push(quote!(#p));
                                tys.push(quote!(#ty));
                                typed = true;
                            }
                            p => {
                                pats.push(quote!(#p));
                                tys.push(quote!(_));
                            }
                        }
                    }
                    let args = c.args.iter();
                    let n: Option<Expr> = if pats.is_empty() {
                        syn::parse2(quote!({ #body })).ok()
                    } else if typed {
                        syn::parse2(quote!({ let (#(#pats,)*): (#(#tys,)*) = (#(#args,)*); #body })).ok()
                    } else {
                        syn::parse2(quote!({ let (#(#pats,)*) = (#(#args,)*); #body })).ok()
                    };
                    if let Some(n) = n {
                        *e = n;
                    }
                }
            }
        }
    }
    let mut any = false;
    let mut i = 0;
    while i < stmts.len() {
        let found = match &stmts[i] {
            Stmt::Local(l) => match (&l.pat, &l.init) {
                (Pat::Ident(p), Some(init)) if init.diverge.is_none() && p.by_ref.is_none() && p.subpat.is_none() => match &*init.expr {
                    Expr::Closure(c) if c.capture.is_none() => Some((p.ident.to_string(), c.clone())),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        if let Some((name, mut c)) = found {
            let mut free = Free { names: HashSet::new(), exits: false };
            free.visit_expr_mut(&mut c.body);
            struct Bound<'b>(&'b mut HashSet<String>);
            impl<'b> VisitMut for Bound<'b> {
                fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                    self.0.remove(&p.ident.to_string());
                }
            }
            for i in c.inputs.iter_mut() {
                Bound(&mut free.names).visit_pat_mut(i);
            }
            if !free.exits {
                let mut u = Uses { name: &name, args: c.inputs.len(), free: &free.names, bad: false };
                for s in stmts[i + 1..].iter_mut() {
                    u.visit_stmt_mut(s);
                }
                if !u.bad {
                    let mut put = Put { name: &name, c: &c };
                    for s in stmts[i + 1..].iter_mut() {
                        put.visit_stmt_mut(s);
                    }
                    stmts.remove(i);
                    any = true;
                    continue;
                }
            }
        }
        i += 1;
    }
    any
}

impl<'a> X<'a> {
    fn stmt(&mut self, s: Stmt, out: &mut Vec<Stmt>) {
        match s {
            Stmt::Local(mut l) => {
                // `let mut i = [&mut a, &mut b, ...]` used only through pointwise calls / chunks
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Array(a) = &*init.expr {
                        if !a.elems.is_empty()
                            && a.elems.iter().all(|e| matches!(e, Expr::Reference(r) if r.mutability.is_some()))
                        {
                            self.rule("mut-borrow-array alias");
                            self.alias.push((pi.ident.to_string(), a.elems.iter().cloned().collect()));
                            return;
                        }
                    }
                    // let mut iter = i.chunks_exact_mut(3)
                    if let Expr::MethodCall(m) = &*init.expr {
                        if m.method == "chunks_exact_mut" {
                            if let (Expr::Path(p), Some(Expr::Lit(ExprLit { lit: Lit::Int(n), .. }))) =
                                (&*m.receiver, m.args.first())
                            {
                                let nm = p.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                                if self.alias.iter().any(|a| a.0 == nm) {
                                    self.chunks.push((pi.ident.to_string(), nm, n.base10_parse().unwrap_or(1)));
                                    return;
                                }
                            }
                        }
                    }
                }
                // array pattern of a read_planes call -> tuple
                let is_planes = l.init.as_ref().map_or(false, |i| {
                    let e = &i.expr;
                    let s = quote!(#e).to_string();
                    s.starts_with("read_planes") || s.contains(":: read_planes")
                });
                let mut pty: Option<Type> = None;
                if let Pat::Type(pt) = &l.pat {
                    if matches!(&*pt.pat, Pat::Slice(_)) {
                        pty = Some((*pt.ty).clone());
                        let p = (*pt.pat).clone();
                        l.pat = p;
                    }
                }
                if self.opts.raw {
                    if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                        if let Some(t) = self.atype(&init.expr) {
                            self.atypes.push((pi.ident.to_string(), t));
                        }
                    }
                }
                if let Pat::Slice(sl) = &l.pat {
                    let n = sl.elems.len();
                    let els: Vec<&Pat> = sl.elems.iter().collect();
                    if is_planes {
                        let newpat: Pat = syn::parse2::<PatTupleP>(quote!((#(#els,)*))).unwrap().0;
                        l.pat = newpat;
                        struct Ren(usize);
                        impl VisitMut for Ren {
                            fn visit_ident_mut(&mut self, i: &mut Ident) {
                                if i == "read_planes" || i == "read_planes_mut" {
                                    *i = format_ident(&format!("{}_{}", i, self.0));
                                }
                            }
                        }
                        if let Some(init) = &mut l.init {
                            Ren(n).visit_expr_mut(&mut init.expr);
                        }
                        self.rule("plane-array pattern -> tuple");
                    } else {
                        // general array pattern: nested constant indexing
                        let tmp = format_ident(&format!("__arr_{}", out.len() + self.depth * 100));
                        if let Some(init) = &mut l.init {
                            self.visit_expr_mut(&mut init.expr);
                            let ie = &init.expr;
                            out.push(match &mut pty {
                                Some(t) => {
                                    self.visit_type_mut(t);
                                    syn::parse_quote!(let #tmp: #t = #ie;)
                                }
                                None => syn::parse_quote!(let #tmp = #ie;),
                            });
                        }
                        let mut res = vec![];
                        flatten_arr(&Pat::Slice(sl.clone()), quote!(#tmp), &mut res);
                        for r in res {
                            if let Ok(f) = syn::parse2::<StmtP>(r) {
                                out.extend(f.0);
                            }
                        }
                        self.rule("array pattern -> indexing");
                        return;
                    }
                }
                if let Pat::Tuple(t) = &l.pat {
                    if t.elems.iter().any(|p| matches!(p, Pat::Slice(_))) {
                        // ([a,b], c) = e  ->  (tmp, c) = e; a = tmp[0]...
                        let mut els: Vec<TokenStream> = vec![];
                        let mut later = vec![];
                        for (i, p) in t.elems.iter().enumerate() {
                            if let Pat::Slice(_) = p {
                                let tmp = format_ident(&format!("__tup_{}_{}", out.len() + self.depth * 100, i));
                                els.push(quote!(#tmp));
                                flatten_arr(p, quote!(#tmp), &mut later);
                            } else {
                                els.push(quote!(#p));
                            }
                        }
                        if let Some(init) = &mut l.init {
                            self.visit_expr_mut(&mut init.expr);
                            let ie = &init.expr;
                            out.push(syn::parse_quote!(let (#(#els,)*) = #ie;));
                        }
                        for r in later {
                            if let Ok(f) = syn::parse2::<StmtP>(r) {
                                out.extend(f.0);
                            }
                        }
                        self.rule("array pattern -> indexing");
                        return;
                    }
                }
                let mut newv = vec![];
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    let n = pi.ident.to_string();
                    let is_lazy = matches!(strip_paren(&init.expr), Expr::MethodCall(m)
                        if matches!(m.method.to_string().as_str(), "chunks" | "chunks_mut" | "take" | "skip" | "zip" | "enumerate" | "copied" | "cloned" | "iter" | "iter_mut"));
                    if is_lazy && self.chain(&init.expr, false).is_some() {
                        self.rule("local iterator chain moved to its use");
                        self.lazy.push((n, (*init.expr).clone()));
                        return;
                    }
                    let k = match strip_paren(&init.expr) {
                        Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "planes" | "planes_mut") => Vt::Iter,
                        Expr::MethodCall(m) if m.method == "collect" => Vt::Vec,
                        Expr::Path(_) => self.var(&init.expr).unwrap_or(Vt::Other),
                        Expr::MethodCall(m) if m.method == "map" => self.var(&m.receiver).unwrap_or(Vt::Other),
                        _ => Vt::Other,
                    };
                    newv.push((n, k));
                }
                if let Pat::Type(t) = &l.pat {
                    if let Pat::Ident(pi) = &*t.pat {
                        newv.push((pi.ident.to_string(), vt(&t.ty)));
                    }
                }
                visit_mut::visit_local_mut(self, &mut l);
                self.vtypes.extend(newv);
                out.push(Stmt::Local(l));
            }
            Stmt::Expr(Expr::ForLoop(f), _) => {
                let body = f.body.clone();
                let pat = f.pat.clone();
                // chunks
                let k = self.loop_no;
                let range: Option<(Expr, Expr, Expr)> = match strip_paren(&f.expr) {
                    Expr::Range(r) => match (&r.start, &r.end, &r.limits) {
                        (Some(a), Some(b), RangeLimits::HalfOpen(_)) => {
                            Some(((**a).clone(), (**b).clone(), syn::parse_quote!(1)))
                        }
                        _ => None,
                    },
                    Expr::MethodCall(m) if m.method == "step_by" => match strip_paren(&m.receiver) {
                        Expr::Range(r) => match (&r.start, &r.end, &r.limits) {
                            (Some(a), Some(b), RangeLimits::HalfOpen(_)) => {
                                Some(((**a).clone(), (**b).clone(), m.args.first().unwrap().clone()))
                            }
                            _ => None,
                        },
                        _ => None,
                    },
                    _ => None,
                };
                // pointwise `for v in i { **v = ... }`
                if range.is_none() {
                    if let (Pat::Ident(p), Expr::Path(ep)) = (&*f.pat, &*f.expr) {
                        let it = ep.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                        if self.pw.as_deref() == Some(it.as_str()) {
                            let v = p.ident.to_string();
                            let iid = format_ident(&it);
                            struct R {
                                v: String,
                                to: Ident,
                                bad: bool,
                            }
                            impl VisitMut for R {
                                fn visit_expr_mut(&mut self, e: &mut Expr) {
                                    if let Expr::Unary(u) = e {
                                        if let (UnOp::Deref(_), Expr::Unary(u2)) = (&u.op, &*u.expr) {
                                            if let (UnOp::Deref(_), Expr::Path(p)) = (&u2.op, &*u2.expr) {
                                                if p.path.is_ident(&self.v) {
                                                    let t = &self.to;
                                                    *e = syn::parse_quote!(*#t);
                                                    return;
                                                }
                                            }
                                        }
                                    }
                                    if let Expr::Path(p) = e {
                                        if p.path.is_ident(&self.v) {
                                            self.bad = true;
                                        }
                                    }
                                    visit_mut::visit_expr_mut(self, e);
                                }
                            }
                            let mut b = body;
                            let mut r = R { v, to: iid, bad: false };
                            r.visit_block_mut(&mut b);
                            if r.bad {
                                self.fail("pointwise loop uses its element other than through **v".into());
                            }
                            self.rule("pointwise loop -> element function");
                            self.visit_block_mut(&mut b);
                            out.push(Stmt::Expr(
                                Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }),
                                None,
                            ));
                            return;
                        }
                    }
                }
                if range.is_none() {
                    if let Some(it) = self.chain(&f.expr, true) {
                        if let Some(e) = self.for_chain(&f.pat, it, &f.body) {
                            out.push(Stmt::Expr(e, None));
                            return;
                        }
                    }
                }
                let Some((mut a, mut b, mut n)) = range else {
                    let e = &f.expr;
                    self.fail(format!("unsupported loop: for .. in {}", quote!(#e)));
                    return;
                };
                self.rule("for-range -> while");
                self.loop_no += 1;
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                self.visit_expr_mut(&mut n);
                let mut body = body;
                self.visit_block_mut(&mut body);
                let (it, end, step) = (
                    format_ident(&format!("it_{k}")),
                    format_ident(&format!("end_{k}")),
                    format_ident(&format!("step_{k}")),
                );
                let (lb, le) = (format_ident(&format!("__loop_begin_{k}")), format_ident(&format!("__loop_end_{k}")));
                let lp = format_ident(&format!("__loop_pre_{k}"));
                let stmts = &body.stmts;
                let blk: Expr = syn::parse_quote!({
                    let #end: usize = #b;
                    let #step: usize = #n;
                    let mut #it: usize = #a;
                    #lp!();
                    while #it < #end {
                        #lb!();
                        let #pat = #it;
                        #it = sat_add(#it, #step);
                        { #(#stmts)* }
                        #le!();
                    }
                });
                out.push(Stmt::Expr(blk, None));
            }
            Stmt::Expr(Expr::While(w), semi) => {
                // while let Some([r, g, b]) = iter.next() over an aliased chunks_exact_mut
                if let Expr::Let(l) = &*w.cond {
                    if let (Expr::MethodCall(m), Pat::TupleStruct(ts)) = (&*l.expr, &*l.pat) {
                        if m.method == "next" {
                            if let (Expr::Path(p), Some(Pat::Slice(sl))) = (&*m.receiver, ts.elems.first()) {
                                let nm = p.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                                if let Some((_, al, n)) = self.chunks.iter().find(|c| c.0 == nm).cloned() {
                                    let places = self.alias.iter().find(|a| a.0 == al).unwrap().1.clone();
                                    let names: Vec<String> = sl
                                        .elems
                                        .iter()
                                        .map(|p| quote!(#p).to_string())
                                        .collect();
                                    if names.len() == n {
                                        self.rule("chunked while-let unrolled");
                                        for ch in places.chunks_exact(n) {
                                            let mut b = w.body.clone();
                                            struct D<'c> {
                                                names: &'c [String],
                                                pl: &'c [Expr],
                                            }
                                            impl<'c> VisitMut for D<'c> {
                                                fn visit_expr_mut(&mut self, e: &mut Expr) {
                                                    if let Expr::Unary(u) = e {
                                                        if let (UnOp::Deref(_), Expr::Unary(u2)) = (&u.op, &*u.expr) {
                                                            if let (UnOp::Deref(_), Expr::Path(p)) = (&u2.op, &*u2.expr) {
                                                                for (n, pl) in self.names.iter().zip(self.pl) {
                                                                    if p.path.is_ident(n) {
                                                                        if let Expr::Reference(r) = pl {
                                                                            *e = (*r.expr).clone();
                                                                            return;
                                                                        }
                                                                    }
                                                                }
                                                            }
                                                        }
                                                    }
                                                    visit_mut::visit_expr_mut(self, e);
                                                }
                                            }
                                            D { names: &names, pl: ch }.visit_block_mut(&mut b);
                                            self.visit_block_mut(&mut b);
                                            out.push(Stmt::Expr(
                                                Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }),
                                                None,
                                            ));
                                        }
                                        return;
                                    }
                                }
                            }
                        }
                    }
                    self.fail("while-let loop".into());
                    return;
                }
                let k = self.loop_no;
                self.loop_no += 1;
                let mut w = w;
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let (lb, le) = (format_ident(&format!("__loop_begin_{k}")), format_ident(&format!("__loop_end_{k}")));
                let st = &w.body.stmts;
                let c = &w.cond;
                let blk: Expr = syn::parse_quote!(while #c { #lb!(); #(#st)* #le!(); });
                out.push(Stmt::Expr(blk, semi));
            }
            Stmt::Expr(mut e, semi) => {
                self.visit_expr_mut(&mut e);
                out.push(Stmt::Expr(e, semi));
            }
            mut s => {
                visit_mut::visit_stmt_mut(self, &mut s);
                out.push(s);
            }
        }
    }
}
struct PatTupleP(Pat);
impl syn::parse::Parse for PatTupleP {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        Pat::parse_single(i).map(PatTupleP)
    }
}
struct StmtP(Vec<Stmt>);
impl syn::parse::Parse for StmtP {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        Block::parse_within(i).map(StmtP)
    }
}
fn flatten_arr(p: &Pat, base: TokenStream, out: &mut Vec<TokenStream>) {
    match p {
        Pat::Slice(s) => {
            for (i, e) in s.elems.iter().enumerate() {
                let ix = proc_macro2::Literal::usize_unsuffixed(i);
                flatten_arr(e, quote!(#base[#ix]), out);
            }
        }
        p => out.push(quote!(let #p = #base;)),
    }
}
fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        e => e,
    }
}

fn iterator_item(t: &Type) -> Option<TokenStream> {
    fn bounds<'b>(b: impl Iterator<Item = &'b TypeParamBound>) -> Option<TokenStream> {
        for x in b {
            if let TypeParamBound::Trait(tb) = x {
                let s = tb.path.segments.last()?;
                if s.ident == "Iterator" {
                    if let PathArguments::AngleBracketed(g) = &s.arguments {
                        if let Some(GenericArgument::AssocType(a)) = g.args.first() {
                            let ty = &a.ty;
                            return Some(quote!(#ty));
                        }
                    }
                }
            }
        }
        None
    }
    match t {
        Type::ImplTrait(i) => bounds(i.bounds.iter()),
        Type::Path(p) => {
            let s = p.path.segments.last()?;
            if s.ident != "Box" {
                return None;
            }
            if let PathArguments::AngleBracketed(g) = &s.arguments {
                if let Some(GenericArgument::Type(Type::TraitObject(o))) = g.args.first() {
                    return bounds(o.bounds.iter());
                }
            }
            None
        }
        _ => None,
    }
}

/// transform a signature: drop attributes/const/async, monomorphised generics, types
pub fn sig(x: &mut X, s: &mut Signature) -> Vec<(String, String)> {
    let _ = &s;
    drop_param(&mut s.generics, &x.opts.mono);
    for p in s.generics.params.iter() {
        match p {
            GenericParam::Type(t) => x.generics.push(t.ident.to_string()),
            GenericParam::Const(c) => x.generics.push(format!("const {}", c.ident)),
            _ => {}
        }
    }
    let mut lets = vec![];
    let mut dyns = 0;
    let mut newg: Vec<GenericParam> = vec![];
    for i in s.inputs.iter_mut() {
        if let FnArg::Typed(t) = i {
            t.attrs.clear();
            if let Pat::Ident(p) = &*t.pat {
                x.vtypes.push((p.ident.to_string(), vt(&t.ty)));
                if x.opts.raw && matches!(&*t.ty, Type::Array(_)) {
                    x.atypes.push((p.ident.to_string(), (*t.ty).clone()));
                }
            }
            if let Type::Reference(r) = &mut *t.ty {
                if let Type::TraitObject(o) = &*r.elem {
                    if let Some(TypeParamBound::Trait(tb)) = o.bounds.first() {
                        let d = format_ident(&format!("D{dyns}"));
                        dyns += 1;
                        let tb = &tb.path;
                        newg.push(syn::parse_quote!(#d: #tb));
                        x.rule("dyn Trait parameter -> generic parameter");
                        r.elem = syn::parse_quote!(#d);
                    }
                }
            }
            if let Pat::Ident(p) = &mut *t.pat {
                if p.mutability.is_some() && p.by_ref.is_none() {
                    let n = p.ident.to_string();
                    p.mutability = None;
                    lets.push((format!("mut {n}"), n));
                }
            }
            x.visit_type_mut(&mut t.ty);
        } else if let FnArg::Receiver(r) = i {
            r.attrs.clear();
        }
    }
    if let ReturnType::Type(_, t) = &mut s.output {
        x.visit_type_mut(t);
    }
    s.generics.params.extend(newg);
    lets
}

pub fn toks<T: ToTokens>(t: &T) -> String {
    print(t.to_token_stream())
}

fn file_module(p: &str) -> String {
    let parts: Vec<&str> = p.trim_end_matches(".rs").split('/').collect();
    match parts.last() {
        Some(&"mod") if parts.len() > 1 => parts[parts.len() - 2].to_string(),
        Some(x) => x.to_string(),
        None => String::new(),
    }
}

/// exact value of a literal written by `float_real` / `fold_lits`
fn lit_real(e: &Expr) -> Option<(i128, i128)> {
    use proc_macro2::{Delimiter, TokenTree};
    fn real(t: TokenStream) -> Option<i128> {
        // `[-] N.0real`, always a plain decimal
        let s = t.to_string().replace(' ', "");
        s.strip_suffix("real")?.strip_suffix(".0")?.parse().ok()
    }
    fn rec(t: TokenStream) -> Option<(i128, i128)> {
        let v: Vec<TokenTree> = t.into_iter().collect();
        match &v[..] {
            [TokenTree::Group(g)] if g.delimiter() != Delimiter::Bracket => rec(g.stream()),
            [l, TokenTree::Group(g)] if l.to_string() == "lit" => {
                let w: Vec<TokenTree> = g.stream().into_iter().collect();
                match &w[..] {
                    [l, TokenTree::Group(g)] if l.to_string() == "Ghost" => {
                        let s = g.stream().to_string().replace(' ', "");
                        let s = s.strip_suffix("real")?;
                        let (neg, s) = match s.strip_prefix('-') {
                            Some(s) => (-1, s),
                            None => (1, s),
                        };
                        let (a, b) = s.split_once('.')?;
                        if b.len() > 20 {
                            return None;
                        }
                        let den = 10i128.checked_pow(b.len() as u32)?;
                        let num = a.parse::<i128>().ok()?.checked_mul(den)?.checked_add(b.parse::<i128>().ok()?)?;
                        Some((neg * num, den))
                    }
                    _ => None,
                }
            }
            [l, TokenTree::Group(g)] if l.to_string() == "litq" => {
                let w: Vec<TokenTree> = g.stream().into_iter().collect();
                match &w[..] {
                    [_, TokenTree::Group(p), _, _, TokenTree::Group(q)] => Some((real(p.stream())?, real(q.stream())?)),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    match e {
        Expr::Paren(_) | Expr::Verbatim(_) | Expr::Call(_) | Expr::Group(_) => rec(e.to_token_stream()),
        _ => None,
    }
}
fn ratio(p: i128, q: i128) -> Expr {
    fn gcd(a: i128, b: i128) -> i128 {
        if b == 0 { a.abs() } else { gcd(b, a % b) }
    }
    let g = gcd(p, q).max(1);
    let (p, q) = if q < 0 { (-p / g, -q / g) } else { (p / g, q / g) };
    let f = |x: i128| -> TokenStream { format!("{x}.0real").parse().unwrap() };
    let (p, q) = (f(p), f(q));
    Expr::Verbatim(quote!(litq(Ghost(#p), Ghost(#q))))
}
/// arithmetic on literals is done here, exactly
fn fold_lits(e: &mut Expr) -> bool {
    let r = match &*e {
        Expr::Binary(b) => {
            let (Some(x), Some(y)) = (lit_real(&b.left), lit_real(&b.right)) else { return false };
            let m = |a: i128, b: i128| a.checked_mul(b);
            match &b.op {
                BinOp::Add(_) => (|| Some((m(x.0, y.1)?.checked_add(m(y.0, x.1)?)?, m(x.1, y.1)?)))(),
                BinOp::Sub(_) => (|| Some((m(x.0, y.1)?.checked_sub(m(y.0, x.1)?)?, m(x.1, y.1)?)))(),
                BinOp::Mul(_) => (|| Some((m(x.0, y.0)?, m(x.1, y.1)?)))(),
                BinOp::Div(_) if y.0 != 0 => (|| Some((m(x.0, y.1)?, m(x.1, y.0)?)))(),
                _ => return false,
            }
        }
        Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("fneg")) => {
            lit_real(&c.args[0]).map(|x| (-x.0, x.1))
        }
        _ => return false,
    };
    match r {
        Some((p, q)) => {
            *e = ratio(p, q);
            true
        }
        None => false,
    }
}
/// `p.cast::<T>()` -> (p, T)
fn cast_of(e: &Expr) -> (Expr, Type) {
    if let Expr::MethodCall(m) = strip_paren(e) {
        if m.method == "cast" && m.args.is_empty() {
            if let Some(tf) = &m.turbofish {
                if let Some(GenericArgument::Type(t)) = tf.args.first() {
                    return ((*m.receiver).clone(), t.clone());
                }
            }
        }
    }
    (e.clone(), syn::parse_quote!(u8))
}
fn array_len(t: &Type) -> Option<(Type, usize)> {
    let Type::Array(a) = t else { return None };
    let Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) = &a.len else { return None };
    Some(((*a.elem).clone(), n.base10_parse().ok()?))
}
impl<'a> X<'a> {
    /// array type of an expression, where it is written down
    fn atype(&self, e: &Expr) -> Option<Type> {
        match strip_paren(e) {
            Expr::Path(p) => {
                let n = p.path.get_ident()?.to_string();
                self.atypes.iter().rev().find(|a| a.0 == n).map(|a| a.1.clone())
            }
            Expr::MethodCall(m) if m.method == "read_unaligned" || m.method == "read" => {
                let t = cast_of(&m.receiver).1;
                matches!(t, Type::Array(_)).then_some(t)
            }
            Expr::Index(i) => Some(array_len(&self.atype(&i.expr)?)?.0),
            Expr::Array(a) => {
                let n = a.elems.len();
                let t = a.elems.first().and_then(|x| self.atype(x)).unwrap_or_else(|| syn::parse_quote!(__unknown));
                Some(syn::parse_quote!([#t; #n]))
            }
            _ => None,
        }
    }
    fn raw_expr(&mut self, e: &mut Expr) -> bool {
        match e {
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "read_unaligned" | "read") && m.args.is_empty() => {
                let (mut p, t) = cast_of(&m.receiver);
                self.visit_expr_mut(&mut p);
                self.rule("raw read -> rd::<T>");
                *e = syn::parse_quote!(rd::<#t>(#p));
                true
            }
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "write_unaligned" | "write") && m.args.len() == 1 => {
                let (mut p, t) = cast_of(&m.receiver);
                let mut v = m.args[0].clone();
                self.visit_expr_mut(&mut p);
                self.visit_expr_mut(&mut v);
                self.rule("raw write -> wr::<T>");
                *e = syn::parse_quote!(wr::<#t>(#p, #v));
                true
            }
            Expr::MethodCall(m) if m.method == "add" && m.args.len() == 1 => {
                let (mut p, mut n) = ((*m.receiver).clone(), m.args[0].clone());
                self.visit_expr_mut(&mut p);
                self.visit_expr_mut(&mut n);
                self.rule("ptr.add(n) -> &p[n..]");
                *e = syn::parse_quote!(tail(#p, #n));
                true
            }
            Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => {
                let (Some((el, n)), Expr::Closure(c)) = (self.atype(&m.receiver).and_then(|t| array_len(&t)), &m.args[0]) else { return false };
                if c.inputs.len() != 1 {
                    return false;
                }
                let r = strip_paren(&m.receiver).clone();
                let (pre, items): (Option<TokenStream>, Vec<Expr>) = match &r {
                    Expr::Array(a) => (None, a.elems.iter().cloned().collect()),
                    Expr::Path(_) | Expr::Index(_) => (None, (0..n).map(|i| {
                        let ix = proc_macro2::Literal::usize_unsuffixed(i);
                        syn::parse_quote!(#r[#ix])
                    }).collect()),
                    _ => {
                        let mut v = r.clone();
                        self.visit_expr_mut(&mut v);
                        (Some(quote!(let __m = #v;)), (0..n).map(|i| {
                            let ix = proc_macro2::Literal::usize_unsuffixed(i);
                            syn::parse_quote!(__m[#ix])
                        }).collect())
                    }
                };
                let p = c.inputs[0].clone();
                let name = match &p {
                    Pat::Ident(i) => i.ident.to_string(),
                    Pat::Type(t) => quote!(#t).to_string().split_whitespace().next().unwrap_or("").to_string(),
                    _ => String::new(),
                };
                let mut outs: Vec<TokenStream> = vec![];
                for mut it in items {
                    self.visit_expr_mut(&mut it);
                    let mut b = (*c.body).clone();
                    self.atypes.push((name.clone(), el.clone()));
                    self.visit_expr_mut(&mut b);
                    self.atypes.pop();
                    outs.push(quote!({ let #p = #it; #b }));
                }
                self.rule("map over a constant-size array -> unrolled");
                *e = Expr::Verbatim(match pre {
                    Some(pre) => quote!({ #pre [#(#outs),*] }),
                    None => quote!([#(#outs),*]),
                });
                true
            }
            Expr::Cast(c) => {
                let Type::Path(p) = &*c.ty else { return false };
                let Some(t) = p.path.get_ident().map(|i| i.to_string()) else { return false };
                let inner = strip_paren(&c.expr);
                let fl = matches!(inner, Expr::MethodCall(m) if matches!(m.method.to_string().as_str(),
                    "round_ties_even" | "round" | "floor" | "ceil" | "trunc" | "clamp" | "max" | "min"));
                if !fl || !matches!(t.as_str(), "u8" | "u16" | "i32" | "u32") {
                    return false;
                }
                let mut x = inner.clone();
                self.visit_expr_mut(&mut x);
                let f = format_ident(&format!("f_as_{t}"));
                self.rule("float as int -> saturating truncation");
                *e = syn::parse_quote!(#f(#x));
                true
            }
            _ => false,
        }
    }
    fn expr_inner(&mut self, e: &mut Expr) {
        if self.opts.raw && self.raw_expr(e) {
            return;
        }
        // rewrite rules, innermost forms first where needed
        match e {
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => {
                *e = float_real(f.base10_digits(), false);
                self.rule("float-literal->real");
                return;
            }
            Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) => {
                let mut inner = (**expr).clone();
                while let Expr::Paren(p) = &inner {
                    inner = (*p.expr).clone();
                }
                if let Expr::Lit(ExprLit { lit: Lit::Int(_), .. }) = &inner {
                    return;
                }
                if let Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) = &inner {
                    *e = float_real(f.base10_digits(), true);
                    self.rule("float-literal->real");
                    return;
                }
                self.visit_expr_mut(expr);
                let x = expr.clone();
                *e = syn::parse_quote!(fneg(#x));
                return;
            }
            Expr::Macro(m) => {
                if let Some(mut n) = macro_to_expr(&m.mac) {
                    self.rule("assert->obligation");
                    self.visit_expr_mut(&mut n);
                    *e = n;
                    return;
                }
            }
            Expr::Cast(c) => {
                if let Type::Path(p) = &*c.ty {
                    if p.path.is_ident("f32") {
                        self.visit_expr_mut(&mut c.expr);
                        let x = c.expr.clone();
                        *e = syn::parse_quote!(f_from((#x) as u32));
                        self.rule("int as f32 -> exact real");
                        return;
                    }
                }
            }
            Expr::Reference(r) if r.mutability.is_none() && self.is_const_path(&r.expr) => {
                // a reference to a constant has static lifetime
                let mut x = (*r.expr).clone();
                self.visit_expr_mut(&mut x);
                *e = syn::parse_quote!(static_ref(#x));
                self.rule("const-inlined");
                return;
            }
            Expr::Reference(r) => {
                if let (Some(_), Expr::Index(ix)) = (&r.mutability, &*r.expr) {
                    if let Expr::Range(rg) = &*ix.index {
                        if let (Some(s), None) = (&rg.start, &rg.end) {
                            let (mut b, mut s) = ((*ix.expr).clone(), (**s).clone());
                            self.visit_expr_mut(&mut b);
                            self.visit_expr_mut(&mut s);
                            *e = syn::parse_quote!(tail_mut(#b, #s));
                            self.rule("&mut x[o..] -> tail_mut");
                            return;
                        }
                    }
                }
            }
            Expr::Path(p) => {
                if p.qself.is_none() && p.path.segments.len() == 1 {
                    if let Some(np) = self.glob_variant(&p.path.segments[0].ident.to_string()) {
                        *e = np;
                        return;
                    }
                }
                if p.qself.is_none() && p.path.segments.len() <= 2 {
                    let seg = p.path.segments.last().unwrap().clone();
                    let n = seg.ident.to_string();
                    let upper = n.chars().all(|c| c.is_uppercase() || c.is_numeric() || c == '_');
                    if upper
                        && (p.path.segments.len() == 1
                            || p.path.segments[0].ident.to_string().starts_with(|c: char| c.is_lowercase()))
                        && !self.generics.contains(&format!("const {n}"))
                        && !self.opts.known.contains(&n)
                    {
                        if let Some(c) = self.find_const(&n) {
                            self.rule("const-inlined");
                            let mut c: Expr = syn::parse_quote!((#c));
                            // consts of consts
                            if self.depth < 20 {
                                self.depth += 1;
                                self.visit_expr_mut(&mut c);
                                self.depth -= 1;
                            }
                            *e = c;
                            return;
                        }
                    }
                }
            }
            // `scope(|s| { .. s.spawn(move |_| { .. }) .. })`: every spawned closure runs once before the scope ends;
            // closures which run side by side own disjoint memory, so they are run where they are spawned
            Expr::Call(c)
                if c.args.len() == 1
                    && matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident == "scope")
                    && matches!(&c.args[0], Expr::Closure(k) if k.inputs.len() == 1) =>
            {
                let Expr::Closure(k) = &c.args[0] else { unreachable!() };
                let Pat::Ident(name) = &k.inputs[0] else {
                    self.fail("scope".into());
                    return;
                };
                let mut sp = Spawns { name: name.ident.to_string(), bad: false };
                let mut b = (*k.body).clone();
                sp.visit_expr_mut(&mut b);
                if sp.bad {
                    self.fail("scope".into());
                    return;
                }
                self.rule("scope/spawn -> the closures' bodies");
                self.visit_expr_mut(&mut b);
                *e = b;
                return;
            }
            Expr::Call(c)
                if c.args.len() == 1
                    && matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "Box" && p.path.segments[1].ident == "new")
                    && self.chain(&c.args[0], false).is_some() =>
            {
                let it = self.chain(&c.args[0], false).unwrap();
                self.rule("lazy iterator value evaluated eagerly");
                let v = self.collect_chain(it);
                *e = Expr::Verbatim(quote!(pi_vec(#v)));
                return;
            }
            Expr::Call(c) => {
                if self.maypanic && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("chk")) {
                    self.rule("assert may panic");
                    c.func = Box::new(syn::parse_quote!(refuse_unless));
                }
                if let Expr::Path(p) = &mut *c.func {
                    if p.path.leading_colon.is_none() && p.path.segments.len() == 1 {
                        let i = p.path.segments[0].ident.to_string();
                        if let Some((_, n)) = self.renames.iter().find(|r| r.0 == i) {
                            p.path.segments[0].ident = format_ident(n);
                        }
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    // function-valued parameter of an inlined helper
                    if segs.len() == 1 {
                        if let Some((_, f)) = self.fnargs.iter().rev().find(|f| f.0 == segs[0]).cloned() {
                            c.func = Box::new(f);
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                    let last = segs.last().cloned().unwrap_or_default();
                    let full = segs.join("::");
                    let tf = match &p.path.segments.last().unwrap().arguments {
                        PathArguments::AngleBracketed(a) => Some(a.clone()),
                        _ => None,
                    };
                    let is_known = self.opts.known.contains(&last) || self.opts.known.contains(&full);
                    if !is_known && p.qself.is_none() {
                        let lower = last.chars().next().map_or(false, |c| c.is_lowercase());
                        let hit = if segs.len() == 1 && lower {
                            self.find_fn(&last).map(|(s, b, _)| (s, b))
                        } else if segs.len() == 2 && lower {
                            let t = if segs[0] == "Self" { self.self_ty.clone() } else { Some(segs[0].clone()) };
                            match self.find_method(t.as_deref(), &last) {
                                Some((s, b, _)) => Some((s, b)),
                                None => None,
                            }
                        } else if lower && matches!(segs[0].as_str(), "crate" | "super" | "self") {
                            self.find_fn(&last).map(|(s, b, _)| (s, b))
                        } else {
                            None
                        };
                        let owner = (segs.len() == 2 && segs[0] != "Self" && segs[0].chars().next().map_or(false, |c| c.is_uppercase()))
                            .then(|| segs[0].clone());
                        if let Some((sig, blk)) = hit {
                            let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                            let mut recv = None;
                            if sig.receiver().is_some() && !args.is_empty() {
                                let mut r = args.remove(0);
                                if let Expr::Reference(rr) = &r {
                                    r = (*rr.expr).clone();
                                }
                                recv = Some(r);
                            }
                            if let Some(n) = self.inline(sig, blk, recv, args, tf, owner) {
                                *e = n;
                                return;
                            }
                        }
                    }
                }
            }
            Expr::Repeat(r) if quote!(#r).to_string().contains("MaybeUninit :: uninit") => {
                self.rule("[MaybeUninit<T>; N] -> Slots<T, N>");
                *e = syn::parse_quote!(Slots::new());
                return;
            }
            Expr::MethodCall(m) if m.method == "collect" && m.args.is_empty() => {
                if let Some(it) = self.chain(&m.receiver, true) {
                    *e = self.collect_chain(it);
                    return;
                }
            }
            Expr::MethodCall(m) if m.method == "try_for_each" && m.args.len() == 1 => {
                if let Expr::Closure(c) = m.args[0].clone() {
                    let r = (*m.receiver).clone();
                    if let Some(n) = self.par_chain(&r, &c) {
                        *e = n;
                        return;
                    }
                }
                self.fail("try_for_each".into());
                return;
            }
            Expr::MethodCall(m) if self.maypanic && matches!(m.method.to_string().as_str(), "expect" | "unwrap") => {
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                self.rule("expect/unwrap may panic");
                *e = syn::parse_quote!(or_panic(#r));
                return;
            }
            Expr::Try(t) if self.opts.tryconv => {
                let mut r = (*t.expr).clone();
                self.visit_expr_mut(&mut r);
                self.rule("? on a Result -> match");
                *e = Expr::Verbatim(quote!(match #r { Ok(ok_) => ok_, Err(err_) => return Err(From::from(err_)), }));
                return;
            }
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "zip" | "map" | "skip" | "take") && self.is_chain(&Expr::MethodCall(m.clone())) => {
                if let Some(it) = self.chain(&Expr::MethodCall(m.clone()), false) {
                    let v = self.collect_chain(it);
                    self.rule("lazy iterator value evaluated eagerly");
                    *e = Expr::Verbatim(quote!(pi_vec(#v)));
                    return;
                }
            }
            Expr::MethodCall(m)
                if m.method == "map" && m.args.len() == 1 && quote!(#m).to_string().contains("assume_init")
                    && self.var(&m.receiver) == Some(Vt::Arr) =>
            {
                let r = &m.receiver;
                let c = &m.args[0];
                let t = quote!(#c).to_string().replace(' ', "");
                let ok = t.strip_prefix('|').and_then(|t| t.split_once('|')).is_some_and(|(v, b)| b == format!("unsafe{{{v}.assume_init()}}"));
                if ok {
                    self.rule("[MaybeUninit<T>; N] -> Slots<T, N>");
                    *e = syn::parse_quote!(#r.finish());
                    return;
                }
                self.fail("assume_init".into());
                return;
            }
            Expr::MethodCall(m)
                if matches!(m.method.to_string().as_str(), "map" | "unwrap_or_else")
                    && m.args.len() == 1
                    && matches!(&m.args[0], Expr::Closure(_))
                    && (self.var(&m.receiver).is_some_and(|v| v == Vt::Opt || v == Vt::Arr)
                        || (m.method == "unwrap_or_else" && matches!(&m.args[0], Expr::Closure(c) if c.inputs.is_empty()))) =>
            {
                let v = self.var(&m.receiver);
                let Expr::Closure(c) = m.args[0].clone() else { unreachable!() };
                let mut r = (*m.receiver).clone();
                if v == Some(Vt::Arr) {
                    if m.method == "map" && c.inputs.len() == 1 {
                        *e = self.array_map(r, &c);
                        return;
                    }
                } else {
                    self.visit_expr_mut(&mut r);
                    let mut b = (*c.body).clone();
                    self.visit_expr_mut(&mut b);
                    self.rule("Option combinator -> match");
                    let some = format_ident("some_");
                    *e = if m.method == "map" && c.inputs.len() == 1 {
                        let p = &c.inputs[0];
                        syn::parse_quote!(match #r { Some(#some) => { let #p = #some; Some(#b) } None => None })
                    } else {
                        syn::parse_quote!(match #r { Some(#some) => #some, None => #b })
                    };
                    return;
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if self.opts.pointwise.contains(&name) {
                    let mut recv = (*m.receiver).clone();
                    self.visit_expr_mut(&mut recv);
                    let places: Option<Vec<Expr>> = match m.args.first() {
                        Some(Expr::Reference(r)) => match &*r.expr {
                            Expr::Array(a) => Some(a.elems.iter().cloned().collect()),
                            Expr::Path(p) => {
                                let n = p.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                                self.alias.iter().find(|a| a.0 == n).map(|a| a.1.clone())
                            }
                            _ => None,
                        },
                        _ => None,
                    };
                    if let Some(ps) = places {
                        let meth = m.method.clone();
                        self.rule("pointwise-array-call");
                        *e = syn::parse_quote!({ #( #recv.#meth(#ps); )* });
                        return;
                    }
                    self.fail(format!("pointwise call {name}: argument is not an array of places"));
                    return;
                }
                if !self.opts.known.contains(&name) {
                    // inherent helper methods of the crate without a contract
                    let recv_is_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                    let ty = if recv_is_self { self.self_ty.clone() } else { None };
                    let hit = if recv_is_self {
                        self.find_method(ty.as_deref(), &name)
                    } else {
                        None
                    };
                    if let Some((sig, blk, _)) = hit {
                        let tf = m.turbofish.clone();
                        let args: Vec<Expr> = m.args.iter().cloned().collect();
                        let recv = (*m.receiver).clone();
                        if let Some(n) = self.inline(sig, blk, Some(recv), args, tf, None) {
                            *e = n;
                            return;
                        }
                    }
                }
            }
            Expr::ForLoop(_) | Expr::While(_) => {
                // handled in stmt(); expression position is not used by the crate
                let mut out = vec![];
                self.stmt(Stmt::Expr(e.clone(), None), &mut out);
                *e = syn::parse_quote!({ #(#out)* });
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `s.spawn(move |_| body)` -> `body`
struct Spawns {
    name: String,
    bad: bool,
}
impl VisitMut for Spawns {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if m.method == "spawn" && m.args.len() == 1 && matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident(&self.name)) {
                if let Expr::Closure(c) = &m.args[0] {
                    let mut b = (*c.body).clone();
                    self.bad |= !matches!(c.inputs.first(), Some(Pat::Wild(_))) || leaves(&b);
                    self.visit_expr_mut(&mut b);
                    *e = b;
                    return;
                }
            }
        }
        if let Expr::Path(p) = e {
            self.bad |= p.path.is_ident(&self.name);
        }
        if let Expr::Return(_) | Expr::Try(_) = e {
            self.bad = true;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// contains `return` or `?`, which would leave the closure only
pub fn leaves(e: &Expr) -> bool {
    struct Leaves(bool);
    impl<'a> syn::visit::Visit<'a> for Leaves {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Return(_) | Expr::Try(_) => self.0 = true,
                Expr::Closure(_) => return,
                _ => {}
            }
            syn::visit::visit_expr(self, e);
        }
    }
    let mut l = Leaves(false);
    syn::visit::Visit::visit_expr(&mut l, e);
    l.0
}
