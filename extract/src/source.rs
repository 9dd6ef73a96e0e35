//! Source tree index: finds items by (file, selector path).
use std::path::Path;
use syn::*;

pub struct Source {
    pub files: Vec<(String, File)>,
}

#[derive(Clone)]
pub enum Found {
    Fn(ItemFn),
    Method {
        imp: ItemImpl,
        f: ImplItemFn,
    },
    TraitMethod {
        f: TraitItemFn,
    },
    Struct(ItemStruct),
    Enum(ItemEnum),
    Impl(ItemImpl),
    Trait(ItemTrait),
    Const(ItemConst),
}

fn cfg_out(attrs: &[Attribute]) -> bool {
    // evaluate the cfg attributes the crate uses for the verified configuration:
    // x86_64, feature "unstable" off, tests off
    fn eval(m: &Meta) -> bool {
        match m {
            Meta::Path(p) => {
                if p.is_ident("test") {
                    return false;
                }
                if p.is_ident("unix") || p.is_ident("debug_assertions") {
                    return true;
                }
                false
            }
            Meta::NameValue(nv) => {
                let v = match &nv.value {
                    Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
                    _ => String::new(),
                };
                if nv.path.is_ident("feature") {
                    v == "multi-thread" || v == "resize" || v == "default"
                } else if nv.path.is_ident("target_arch") {
                    v == "x86_64"
                } else if nv.path.is_ident("target_pointer_width") {
                    v == "64"
                } else if nv.path.is_ident("target_endian") {
                    v == "little"
                } else {
                    false
                }
            }
            Meta::List(l) => {
                let nested = l
                    .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                    .map(|p| p.into_iter().collect::<Vec<_>>())
                    .unwrap_or_default();
                if l.path.is_ident("all") {
                    nested.iter().all(eval)
                } else if l.path.is_ident("any") {
                    nested.iter().any(eval)
                } else if l.path.is_ident("not") {
                    !nested.iter().all(eval)
                } else {
                    true
                }
            }
        }
    }
    attrs.iter().any(|a| {
        if a.path().is_ident("cfg") {
            match a.parse_args::<Meta>() {
                Ok(m) => !eval(&m),
                Err(_) => false,
            }
        } else {
            false
        }
    })
}
pub fn attrs_cfg_out(a: &[Attribute]) -> bool {
    cfg_out(a)
}

pub fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Fn(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Const(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        _ => &[],
    }
}

fn walk(dir: &Path, root: &Path, out: &mut Vec<(String, File)>) -> std::result::Result<(), String> {
    let mut ents: Vec<_> = std::fs::read_dir(dir)
        .map_err(|e| format!("{dir:?}: {e}"))?
        .filter_map(|e| e.ok().map(|e| e.path()))
        .collect();
    ents.sort();
    for p in ents {
        if p.is_dir() {
            walk(&p, root, out)?;
        } else if p.extension().map_or(false, |e| e == "rs") {
            let t = std::fs::read_to_string(&p).map_err(|e| format!("{p:?}: {e}"))?;
            let mut f = syn::parse_file(&t).map_err(|e| format!("{p:?}: {e}"))?;
            expand_macros(&mut f.items);
            out.push((p.strip_prefix(root).unwrap().display().to_string(), f));
        }
    }
    Ok(())
}

/// expands item-position `macro_rules!` of the one shape the crate uses: a single repetition
/// `$( ... )*` of fragments and literal tokens.
fn expand_macros(items: &mut Vec<Item>) {
    use proc_macro2::{TokenStream, TokenTree};
    let mut defs: Vec<(String, Vec<TokenTree>, TokenStream)> = vec![];
    for i in items.iter() {
        if let Item::Macro(m) = i {
            if m.mac.path.is_ident("macro_rules") {
                let name = m.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
                let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                // ( pattern ) => { body } [;]
                let mut groups = toks.iter().filter_map(|t| match t {
                    TokenTree::Group(g) => Some(g.stream()),
                    _ => None,
                });
                if let (Some(p), Some(b)) = (groups.next(), groups.next()) {
                    defs.push((name, p.into_iter().collect(), b));
                }
            }
        }
    }
    let mut new = vec![];
    for i in items.drain(..) {
        match &i {
            Item::Macro(m) if !m.mac.path.is_ident("macro_rules") => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if let Some((_, p, b)) = defs.iter().find(|d| d.0 == n) {
                    if let Some(its) = expand_one(p, b, m.mac.tokens.clone()) {
                        new.extend(its);
                        continue;
                    }
                }
                new.push(i);
            }
            _ => new.push(i),
        }
    }
    for i in new.iter_mut() {
        if let Item::Mod(m) = i {
            if let Some((_, its)) = &mut m.content {
                expand_macros(its);
            }
        }
    }
    *items = new;
}

fn rep(ts: &[proc_macro2::TokenTree]) -> Option<Vec<proc_macro2::TokenTree>> {
    use proc_macro2::TokenTree::*;
    // $ ( ... ) *
    match ts {
        [Punct(a), Group(g), Punct(b)] if a.as_char() == '$' && b.as_char() == '*' => {
            Some(g.stream().into_iter().collect())
        }
        _ => None,
    }
}

fn expand_one(
    pat: &[proc_macro2::TokenTree],
    body: &proc_macro2::TokenStream,
    input: proc_macro2::TokenStream,
) -> Option<Vec<Item>> {
    use proc_macro2::TokenTree;
    let inner = rep(pat)?;
    let bodyv: Vec<TokenTree> = body.clone().into_iter().collect();
    let binner = rep(&bodyv)?;
    let inp: Vec<TokenTree> = input.into_iter().collect();
    let mut pos = 0;
    let mut out = proc_macro2::TokenStream::new();
    while pos < inp.len() {
        let mut binds: Vec<(String, proc_macro2::TokenStream)> = vec![];
        let mut i = 0;
        while i < inner.len() {
            match &inner[i] {
                TokenTree::Punct(p) if p.as_char() == '$' => {
                    let name = inner.get(i + 1)?.to_string();
                    let frag = inner.get(i + 3)?.to_string();
                    i += 4;
                    let mut ts = proc_macro2::TokenStream::new();
                    if frag == "ident" {
                        ts.extend([inp.get(pos)?.clone()]);
                        pos += 1;
                    } else {
                        let stop = inner.get(i).map(|t| t.to_string());
                        let mut e = proc_macro2::TokenStream::new();
                        while pos < inp.len() && Some(inp[pos].to_string()) != stop {
                            e.extend([inp[pos].clone()]);
                            pos += 1;
                        }
                        ts.extend([TokenTree::Group(proc_macro2::Group::new(
                            proc_macro2::Delimiter::Parenthesis,
                            e,
                        ))]);
                    }
                    binds.push((name, ts));
                }
                t => {
                    if inp.get(pos)?.to_string() != t.to_string() {
                        return None;
                    }
                    pos += 1;
                    i += 1;
                }
            }
        }
        out.extend(subst(&binner, &binds));
    }
    syn::parse2::<File>(out).ok().map(|f| f.items)
}
fn subst(
    body: &[proc_macro2::TokenTree],
    binds: &[(String, proc_macro2::TokenStream)],
) -> proc_macro2::TokenStream {
    use proc_macro2::TokenTree;
    let mut out = proc_macro2::TokenStream::new();
    let mut i = 0;
    while i < body.len() {
        match &body[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                let n = body.get(i + 1).map(|t| t.to_string()).unwrap_or_default();
                if let Some((_, ts)) = binds.iter().find(|b| b.0 == n) {
                    out.extend(ts.clone());
                    i += 2;
                    continue;
                }
                out.extend([body[i].clone()]);
            }
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                out.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), subst(&inner, binds)))]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        Type::TraitObject(o) => format!("dyn {}", quote::quote!(#o)),
        t => quote::quote!(#t).to_string().replace(' ', ""),
    }
}

impl Source {
    pub fn load(root: &Path) -> std::result::Result<Source, String> {
        let mut files = vec![];
        walk(root, root, &mut files)?;
        Ok(Source { files })
    }

    /// sel: list of selector parts, e.g. ["mod bt2100_pq", "fn linear_to_scaled"]
    pub fn find(&self, file: &str, sel: &[String]) -> std::result::Result<(String, Vec<Item>, Found), String> {
        let mut all = vec![];
        for (n, f) in &self.files {
            if n == file {
                for (scope, x) in find_in(&f.items, sel) {
                    all.push((n.clone(), scope, x));
                }
            }
        }
        if all.is_empty() {
            for (n, f) in &self.files {
                for (scope, x) in find_in(&f.items, sel) {
                    all.push((n.clone(), scope, x));
                }
            }
        }
        match all.len() {
            1 => Ok(all.pop().unwrap()),
            0 => Err(format!("anchor not found: {file} # {}", sel.join(" # "))),
            _ => Err(format!("anchor ambiguous ({}): {file} # {}", all.len(), sel.join(" # "))),
        }
    }
    pub fn file_items(&self, file: &str) -> &[Item] {
        self.files.iter().find(|f| f.0 == file).map(|f| &f.1.items[..]).unwrap_or(&[])
    }
}

/// items declared anywhere in a block which is part of the verified configuration
fn nested_items(b: &Block) -> Vec<Item> {
    struct N(Vec<Item>);
    impl<'a> visit::Visit<'a> for N {
        fn visit_expr(&mut self, e: &'a Expr) {
            if !attrs_cfg_out(crate::xform::expr_attrs(e)) {
                visit::visit_expr(self, e);
            }
        }
        fn visit_item(&mut self, i: &'a Item) {
            if !attrs_cfg_out(item_attrs(i)) {
                self.0.push(i.clone());
            }
        }
    }
    let mut n = N(vec![]);
    visit::Visit::visit_block(&mut n, b);
    n.0
}
fn find_in(items: &[Item], sel: &[String]) -> Vec<(Vec<Item>, Found)> {
    let mut out = vec![];
    let (kind, name) = sel[0].split_once(' ').unwrap_or((&sel[0], ""));
    let name = name.trim();
    for it in items {
        if cfg_out(item_attrs(it)) {
            continue;
        }
        match (kind, it) {
            ("mod", Item::Mod(m)) if m.ident == name => {
                if let Some((_, its)) = &m.content {
                    out.extend(find_in(its, &sel[1..]));
                }
            }
            ("fn", Item::Fn(f)) if f.sig.ident == name => {
                if sel.len() > 1 {
                    // nested fn
                    out.extend(find_in(&nested_items(&f.block), &sel[1..]).into_iter().map(|(mut s, f)| { s.extend(items.to_vec()); (s, f) }));
                } else {
                    out.push((items.to_vec(), Found::Fn(f.clone())));
                }
            }
            ("struct", Item::Struct(s)) if s.ident == name => out.push((items.to_vec(), Found::Struct(s.clone()))),
            ("enum", Item::Enum(s)) if s.ident == name => out.push((items.to_vec(), Found::Enum(s.clone()))),
            ("const", Item::Const(s)) if s.ident == name => out.push((items.to_vec(), Found::Const(s.clone()))),
            ("trait", Item::Trait(t)) if t.ident == name => {
                if sel.len() == 1 {
                    out.push((items.to_vec(), Found::Trait(t.clone())));
                } else {
                    let n = sel[1].trim_start_matches("fn ").trim();
                    for ti in &t.items {
                        if let TraitItem::Fn(f) = ti {
                            if f.sig.ident == n && !cfg_out(&f.attrs) {
                                out.push((items.to_vec(), Found::TraitMethod { f: f.clone() }));
                            }
                        }
                    }
                }
            }
            ("impl", Item::Impl(i)) => {
                let ty = type_name(&i.self_ty);
                let st = &i.self_ty;
                let full = quote::quote!(#st).to_string().replace(' ', "");
                let ok = match name.split_once(" for ") {
                    Some((tr, t)) => {
                        let trn = i.trait_.as_ref().map(|t| {
                            let p = &t.1;
                            (
                                p.segments.last().unwrap().ident.to_string(),
                                quote::quote!(#p).to_string().replace(' ', ""),
                            )
                        });
                        match trn {
                            Some((a, b)) => (a == tr.trim() || b == tr.replace(' ', "")) && (ty == t.trim() && !(t.contains('&')) || full == t.replace(' ', "")),
                            None => false,
                        }
                    }
                    None => i.trait_.is_none() && ty == name,
                };
                if ok {
                    if sel.len() == 1 {
                        out.push((items.to_vec(), Found::Impl(i.clone())));
                    } else {
                        let n = sel[1].trim_start_matches("fn ").trim();
                        for ii in &i.items {
                            if let ImplItem::Fn(f) = ii {
                                if f.sig.ident == n && !cfg_out(&f.attrs) {
                                    if sel.len() > 2 {
                                        // nested fn
                                        let its = nested_items(&f.block);
                                        out.extend(find_in(&its, &sel[2..]).into_iter().map(|(mut s, f)| { s.extend(items.to_vec()); (s, f) }));
                                        continue;
                                    }
                                    out.push((
                                        items.to_vec(),
                                        Found::Method { imp: i.clone(), f: f.clone() },
                                    ));
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    out
}
