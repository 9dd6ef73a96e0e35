//! Template expansion.
use crate::source::{Found, Source};
use crate::xform::{self, *};
use quote::quote;
use std::collections::BTreeSet;
use std::path::Path;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Default, Clone)]
struct FnDir {
    file: String,
    sel: Vec<String>,
    params: Vec<String>,
    ret: Option<String>,
    name: Option<String>,
    attrs: Vec<String>,
    spec: String,
    pre: String,
    post: String,
    mid: Vec<(String, String)>,
    loops: Vec<(usize, String, String)>,
    pointwise: Option<String>,
    external: bool,
    mirror: Option<String>,
    lets: bool,
    maypanic: bool,
}

pub fn expand(
    src: &Source,
    path: &Path,
    vars: &[(String, String)],
) -> std::result::Result<(String, String), String> {
    let mut lines = vec![];
    include(path, vars, &mut lines)?;
    let mut opts = Opts {
        mono: vec![],
        known: BTreeSet::new(),
        pointwise: BTreeSet::new(),
        by_mut: vec![],
        nested: vec![],
        raw: lines.iter().any(|l| l.trim() == "//@raw"),
        tryconv: lines.iter().any(|l| l.trim() == "//@tryconv"),
    };
    let mut substs: Vec<(String, String)> = vec![];
    // first pass: known functions
    let mut cur: Option<(String, Vec<String>)> = None;
    for l in &lines {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@fn ") {
            let (mut f, mut sel) = (String::new(), vec![]);
            parse_anchor(r, &mut f, &mut sel);
            cur = Some((f, sel));
        } else if let (Some(n), Some((f, sel))) = (t.strip_prefix("//@ name "), &cur) {
            opts.nested.push((f.clone(), sel.clone(), n.trim().to_string()));
            opts.known.insert(n.trim().to_string());
        }
        if let Some(r) = t.strip_prefix("//@fn ") {
            let n = r.rsplit('#').next().unwrap().trim().trim_start_matches("fn ").trim().to_string();
            // free functions in modules are known by `mod::name` and by plain name
            opts.known.insert(n);
        } else if let Some(r) = t.strip_prefix("//@known ") {
            opts.known.extend(r.split_whitespace().map(String::from));
        } else if let Some(r) = t.strip_prefix("//@mono ") {
            opts.mono.extend(r.split_whitespace().map(String::from));
        } else if let Some(r) = t.strip_prefix("//@pointwise ") {
            opts.pointwise.extend(r.split_whitespace().map(String::from));
        } else if let Some(r) = t.strip_prefix("//@unknown ") {
            for n in r.split_whitespace() {
                opts.known.remove(n);
            }
        } else if let Some(r) = t.strip_prefix("//@subst ") {
            if let Some((a, b)) = r.split_once("=>") {
                substs.push((norm_toks(a), b.trim().to_string()));
            }
        }
    }
    let mut out = String::new();
    let mut report = String::new();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].clone();
        let t = l.trim().to_string();
        i += 1;
        if !t.starts_with("//@") {
            out.push_str(&l);
            out.push('\n');
            continue;
        }
        if t.starts_with("//@known") || t == "//@tryconv" || t == "//@raw" || t.starts_with("//@mono") || t.starts_with("//@subst")
            || t.starts_with("//@pointwise") || t.starts_with("//@unknown") {
            continue;
        }
        if let Some(r) = t.strip_prefix("//@fn ") {
            let mut d = FnDir::default();
            parse_anchor(r, &mut d.file, &mut d.sel);
            let mut mode: Option<String> = None;
            loop {
                if i >= lines.len() {
                    return Err(format!("template: unterminated //@fn {r}"));
                }
                let l = lines[i].clone();
                let t = l.trim().to_string();
                i += 1;
                if t == "//@end" {
                    break;
                }
                if let Some(x) = t.strip_prefix("//@ ") {
                    let (k, v) = x.split_once(' ').unwrap_or((x, ""));
                    let v = v.trim().to_string();
                    match k {
                        "params" => d.params = v.split_whitespace().map(String::from).collect(),
                        "ret" => d.ret = Some(v),
                        "mirror" => d.mirror = Some(v),
                        "name" => d.name = Some(v),
                        "attr" => d.attrs.push(v),
                        "pointwise" => d.pointwise = Some(v),
                        "external" => d.external = true,
                        "maypanic" => d.maypanic = true,
                        "spec" | "pre" | "post" => mode = Some(k.to_string()),
                        "loop" => mode = Some(format!("loop {v}")),
                        "before" | "after" => mode = Some(format!("{k} {v}")),
                        _ => return Err(format!("template: unknown option {k}")),
                    }
                    if let Some(m) = &mode {
                        if let Some(m) = m.strip_prefix("loop ") {
                            let (n, k) = m.split_once(' ').unwrap_or((m, "inv"));
                            if k == k && (t.contains("loop")) {
                                d.loops.push((n.parse().unwrap_or(0), k.to_string(), String::new()));
                            }
                        } else if m.starts_with("before ") || m.starts_with("after ") {
                            d.mid.push((m.clone(), String::new()));
                        }
                    }
                    continue;
                }
                match mode.as_deref() {
                    Some("spec") => d.spec += &(l + "\n"),
                    Some("pre") => d.pre += &(l + "\n"),
                    Some("post") => d.post += &(l + "\n"),
                    Some(m) if m.starts_with("loop") => d.loops.last_mut().unwrap().2 += &(l + "\n"),
                    Some(m) if m.starts_with("before") || m.starts_with("after") => {
                        d.mid.last_mut().unwrap().1 += &(l + "\n")
                    }
                    _ => {}
                }
            }
            let (text, rep) = gen_fn(src, &d, &opts, &substs)?;
            out.push_str(&text);
            report.push_str(&rep);
            continue;
        }
        if let Some(r) = t.strip_prefix("//@struct ").or(t.strip_prefix("//@enum ")) {
            let (mut file, mut sel) = (String::new(), vec![]);
            parse_anchor(r, &mut file, &mut sel);
            let (f, scope, found) = src.find(&file, &sel)?;
            let mut x = mkx(src, &f, scope, &opts, None);
            let mut after = String::new();
            let text = match found {
                Found::Struct(mut s) => {
                    s.attrs.clear();
                    s.vis = Visibility::Inherited;
                    x.generics(&mut s.generics);
                    for f in s.fields.iter_mut() {
                        f.attrs.clear();
                        f.vis = Visibility::Inherited;
                    }
                    x.visit_item_struct_mut(&mut s);
                    toks(&s)
                }
                Found::Enum(mut e) => {
                    // thiserror's `#[from]`
                    for v in &e.variants {
                        if x.opts.tryconv && v.fields.len() == 1 && v.fields.iter().any(|f| f.attrs.iter().any(|a| a.path().is_ident("from"))) {
                            let (n, vn, t) = (&e.ident, &v.ident, toks(&v.fields.iter().next().unwrap().ty));
                            after.push_str(&format!(
                                "impl From<{t}> for {n} {{ fn from(x: {t})->(r: Self) {{ {n}::{vn}(x) }} }}\nimpl vstd::std_specs::convert::FromSpecImpl<{t}> for {n} {{ open spec fn obeys_from_spec()->bool {{ true }} open spec fn from_spec(x: {t})->Self {{ {n}::{vn}(x) }} }}\n"
                            ));
                        }
                    }
                    e.attrs.clear();
                    e.vis = Visibility::Inherited;
                    for v in e.variants.iter_mut() {
                        v.attrs.clear();
                        for f in v.fields.iter_mut() {
                            f.attrs.clear();
                        }
                    }
                    x.visit_item_enum_mut(&mut e);
                    toks(&e)
                }
                _ => return Err(format!("not a struct/enum: {r}")),
            };
            out.push_str(&apply(&text, &substs));
            out.push_str(&after);
            report.push_str(&format!("type\t{f}\t{}\t\n", sel.join(" # ")));
            continue;
        }
        if let Some(r) = t.strip_prefix("//@impl ") {
            let (mut file, mut sel) = (String::new(), vec![]);
            parse_anchor(r, &mut file, &mut sel);
            let (f, scope, found) = src.find(&file, &sel)?;
            let mut x = mkx(src, &f, scope, &opts, None);
            if let Found::Impl(mut im) = found {
                im.attrs.clear();
                im.unsafety = None;
                im.items.clear();
                x.generics(&mut im.generics);
                x.visit_item_impl_mut(&mut im);
                let s = toks(&im);
                let s = s.trim_end().trim_end_matches('}').to_string();
                out.push_str(&apply(&s, &substs));
                out.push('\n');
            } else {
                return Err(format!("not an impl: {r}"));
            }
            continue;
        }
        if t.starts_with("//@end") {
            continue;
        }
        return Err(format!("template: unknown directive {t}"));
    }
    Ok((out, report))
}

fn include(path: &Path, vars: &[(String, String)], out: &mut Vec<String>) -> std::result::Result<(), String> {
    let mut t = std::fs::read_to_string(path).map_err(|e| format!("{path:?}: {e}"))?;
    for (k, v) in vars {
        t = t.replace(&format!("%{k}%"), v);
    }
    let mut skip: Vec<bool> = vec![];
    // `//@with K=V ...` .. `//@endwith`: variables of the files included in between
    let mut scopes: Vec<Vec<(String, String)>> = vec![vars.to_vec()];
    for l in t.lines() {
        let s = l.trim();
        let vars = scopes.last().unwrap().clone();
        let vars = &vars[..];
        if let Some(c) = s.strip_prefix("//@if ") {
            let (k, v) = c.split_once('=').unwrap_or((c, ""));
            let ok = vars.iter().any(|x| x.0 == k.trim() && x.1 == v.trim());
            skip.push(!ok);
            continue;
        }
        if s == "//@else" {
            if let Some(b) = skip.last_mut() {
                *b = !*b;
            }
            continue;
        }
        if s == "//@endif" {
            skip.pop();
            continue;
        }
        if skip.iter().any(|b| *b) {
            continue;
        }
        if let Some(kv) = s.strip_prefix("//@with ") {
            let mut v = vars.to_vec();
            for (k, x) in kv.split_whitespace().filter_map(|x| x.split_once('=')) {
                v.retain(|y| y.0 != k);
                v.push((k.into(), x.into()));
            }
            scopes.push(v);
            continue;
        }
        if s == "//@endwith" {
            scopes.pop();
            continue;
        }
        if let Some(f) = s.strip_prefix("//@include ") {
            include(&path.parent().unwrap().join(f.trim()), vars, out)?;
            continue;
        }
        out.push(l.to_string());
        // the contract is used here and proved in another unit
        if s.starts_with("//@fn ") && vars.iter().any(|v| v.0 == "EXT" && v.1 == "1") {
            out.push("//@ external".into());
        }
    }
    Ok(())
}

/// `__ghost!(let x = e);` becomes `let ghost x = e;`
fn ghost_lets(s: &str) -> String {
    const M: &str = "__ghost ! (";
    let mut out = String::new();
    let mut rest = s;
    while let Some(p) = rest.find(M) {
        out.push_str(&rest[..p]);
        let b = &rest[p + M.len()..];
        let mut depth = 1;
        let end = b
            .char_indices()
            .find(|(_, c)| {
                match c {
                    '(' => depth += 1,
                    ')' => depth -= 1,
                    _ => {}
                }
                depth == 0
            })
            .map_or(b.len(), |x| x.0);
        out.push_str(&b[..end].replacen("let ", "let ghost ", 1));
        rest = &b[(end + 1).min(b.len())..];
    }
    out + rest
}
fn parse_anchor(r: &str, file: &mut String, sel: &mut Vec<String>) {
    let mut it = r.split('#').map(|s| s.trim().to_string());
    *file = it.next().unwrap_or_default();
    *sel = it.collect();
}
fn norm_toks(s: &str) -> String {
    match s.trim().parse::<proc_macro2::TokenStream>() {
        Ok(t) => norm(&xform::print(t)),
        Err(_) => norm(s),
    }
}
/// length of the text at the start of `s` which is `a` up to white space
fn starts(s: &str, a: &str) -> Option<usize> {
    let (mut si, mut ai) = (s.char_indices().peekable(), a.chars().peekable());
    loop {
        match ai.next() {
            None => return Some(si.peek().map_or(s.len(), |x| x.0)),
            Some(c) if c.is_whitespace() => {
                if !si.peek().is_some_and(|x| x.1.is_whitespace()) {
                    return None;
                }
                while si.peek().is_some_and(|x| x.1.is_whitespace()) {
                    si.next();
                }
                while ai.peek().is_some_and(|x| x.is_whitespace()) {
                    ai.next();
                }
            }
            Some(c) => {
                if si.next().map(|x| x.1) != Some(c) {
                    return None;
                }
            }
        }
    }
}
fn apply(s: &str, substs: &[(String, String)]) -> String {
    let mut s = s.to_string();
    for (a, b) in substs {
        // whole-token matches only
        let mut out = String::new();
        let mut p = 0;
        let mut before_ok = true;
        while p < s.len() {
            if before_ok {
                if let Some(n) = starts(&s[p..], a) {
                    let end = p + n;
                    if end == s.len() || s[end..].starts_with(|c: char| c.is_whitespace()) {
                        out.push_str(b);
                        p = end;
                        before_ok = false;
                        continue;
                    }
                }
            }
            let c = s[p..].chars().next().unwrap();
            out.push(c);
            before_ok = c.is_whitespace();
            p += c.len_utf8();
        }
        s = out;
    }
    s
}
fn mkx<'a>(src: &'a Source, file: &str, scope: Vec<Item>, opts: &'a Opts, self_ty: Option<String>) -> X<'a> {
    X {
        src,
        file: file.to_string(),
        scope,
        nested: vec![],
        opts,
        generics: vec![],
        self_ty,
        rules: BTreeSet::new(),
        inlined: vec![],
        err: None,
        loop_no: 0,
        depth: 0,
        alias: vec![],
        chunks: vec![],
        fnargs: vec![],
        pw: None,
        vtypes: vec![],
        par: false,
        lazy: vec![],
        renames: vec![],
        maypanic: false,
        atypes: vec![],
    }
}

fn gen_fn(
    src: &Source,
    d: &FnDir,
    opts: &Opts,
    substs: &[(String, String)],
) -> std::result::Result<(String, String), String> {
    let (file, scope, found) = src.find(&d.file, &d.sel)?;
    let mut self_ty = None;
    let mut extra_generics: Vec<String> = vec![];
    let mut in_trait_impl = false;
    let (mut sg, block) = match found {
        Found::Fn(f) => (f.sig, Some(*f.block)),
        Found::Method { imp, f } => {
            self_ty = Some(crate::source::type_name(&imp.self_ty));
            in_trait_impl = imp.trait_.is_some();
            for p in imp.generics.params.iter() {
                match p {
                    GenericParam::Type(t) => extra_generics.push(t.ident.to_string()),
                    GenericParam::Const(c) => extra_generics.push(format!("const {}", c.ident)),
                    _ => {}
                }
            }
            (f.sig, Some(f.block))
        }
        Found::TraitMethod { f } => (f.sig, f.default),
        _ => return Err(format!("not a function: {}", d.sel.join(" # "))),
    };
    let _ = in_trait_impl;
    let line = sg.ident.span().start().line;
    let orig = sg.ident.to_string();
    let mut x = mkx(src, &file, scope, opts, self_ty);
    x.generics = extra_generics;
    x.maypanic = d.maypanic;
    for (f, sel, n) in &opts.nested {
        if *f == d.file && sel.len() == d.sel.len() + 1 && sel[..d.sel.len()] == d.sel[..] {
            x.renames.push((sel.last().unwrap().trim_start_matches("fn ").trim().to_string(), n.clone()));
        }
    }
    if let Some(pw) = &d.pointwise {
        // i: &mut [&mut V; N] -> &mut V
        let mut ok = false;
        let pos = d.params.iter().position(|p| p == pw);
        if let Some(FnArg::Typed(t)) = pos.and_then(|p| sg.inputs.iter_mut().nth(p)) {
            if let Pat::Ident(p) = &*t.pat {
                x.pw = Some(p.ident.to_string());
                if let Type::Reference(r) = &mut *t.ty {
                    if let Type::Array(a) = &*r.elem {
                        if let Type::Reference(r2) = &*a.elem {
                            r.elem = r2.elem.clone();
                            ok = true;
                        }
                    }
                }
            }
        }
        if !ok {
            return Err(format!("{orig}: parameter {pw} is not an array of mutable references"));
        }
        sg.generics.params = sg
            .generics
            .params
            .iter()
            .filter(|p| !matches!(p, GenericParam::Const(_)))
            .cloned()
            .collect();
        x.rules.insert("pointwise loop -> element function".into());
    }
    let mut lets = xform::sig(&mut x, &mut sg);
    // canonical parameter names
    if !d.params.is_empty() {
        let mut names: Vec<String> = vec![];
        for i in sg.inputs.iter() {
            match i {
                FnArg::Receiver(_) => names.push("self".into()),
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(p) => names.push(p.ident.to_string()),
                    p => names.push(quote!(#p).to_string()),
                },
            }
        }
        if names.len() != d.params.len() {
            return Err(format!("{orig}: expected {} parameters, found {}", d.params.len(), names.len()));
        }
        for ((n, c), i) in names.iter().zip(&d.params).zip(sg.inputs.iter_mut()) {
            if n != c {
                if n == "self" || c == "self" {
                    return Err(format!("{orig}: receiver changed"));
                }
                if let FnArg::Typed(t) = i {
                    let id = xform::format_ident(c);
                    let old = t.pat.clone();
                    *t.pat = syn::parse_quote!(#id);
                    // `mut x` lets refer to the canonical name
                    let olds = quote!(#old).to_string();
                    if let Some(l) = lets.iter_mut().find(|l| l.1 == olds) {
                        l.1 = c.clone();
                    } else if olds != "_" {
                        lets.insert(0, (olds, c.clone()));
                    }
                }
            }
        }
    }
    if let Some(n) = &d.name {
        sg.ident = xform::format_ident(n);
    }
    let mut s = String::new();
    // the body once more, as a specification: constants become numbers
    if let (Some(n), Some(b)) = (&d.mirror, &block) {
        let mut y = mkx(src, &file, x.scope.clone(), opts, x.self_ty.clone());
        y.generics = x.generics.clone();
        let mut b = b.clone();
        y.visit_block_mut(&mut b);
        if let Some(e) = &y.err {
            return Err(format!("{orig} ({file}): {e}"));
        }
        let body: String = b.stmts.iter().map(|st| toks(st)).collect::<Vec<_>>().join(" ");
        let body = body.split_whitespace().collect::<Vec<_>>().join(" ");
        let body = body.replace("static_ref (", "(").replace("lit ( Ghost (", "( (").replace('[', "seq! [");
        s += &format!("    spec fn {n}(self)->Seq<Seq<real>> {{ {body} }}\n");
    }
    for a in &d.attrs {
        s += &format!("    {a}\n");
    }
    if d.external && block.is_some() {
        s += "    #[verifier::external_body]\n";
    }
    // print signature with named return
    let ret = match (&sg.output, &d.ret) {
        (ReturnType::Type(_, t), Some(r)) => Some((r.clone(), toks(&**t))),
        _ => None,
    };
    let mut sg2 = sg.clone();
    let wc = sg2.generics.where_clause.take();
    if ret.is_some() {
        sg2.output = ReturnType::Default;
    }
    let mut st = toks(&sg2).trim_end().to_string();
    if let Some((r, t)) = &ret {
        st += &format!(" -> ({r}: {t} )");
    }
    if let Some(w) = wc {
        st += &format!("\n    {}", toks(&w));
    }
    let st = apply(&st, substs);
    s += &format!("    // [{}] {}:{} {}\n    {}\n", "fn", file, line, d.sel.join(" # "), st);
    s += &d.spec;
    match block {
        None => {
            s += "    ;\n";
        }
        Some(mut b) => {
            if d.external {
                s += "    { unimplemented!() }\n";
            } else {
                x.visit_block_mut(&mut b);
                if let Some(e) = &x.err {
                    return Err(format!("{orig} ({file}): {e}"));
                }
                let mut body = String::new();
                for st in &b.stmts {
                    body += &toks(st);
                    body += "\n";
                }
                let mut body = ghost_lets(&apply(&body, substs));
                // an iteration may also end with `continue`
                let mut at = 0;
                while let Some(p) = body[at..].find("continue").map(|p| p + at) {
                    at = p + "continue".len();
                    let word = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
                    if word(body[..p].chars().next_back()) || word(body[at..].chars().next()) || body[at..].trim_start().starts_with('\'') {
                        continue;
                    }
                    let k = (0..x.loop_no)
                        .filter_map(|k| Some((body.find(&format!("__loop_begin_{k} ! ( ) ;"))?, body.find(&format!("__loop_end_{k} ! ( ) ;"))?, k)))
                        .filter(|l| l.0 < p && p < l.1)
                        .max();
                    if let Some((_, _, k)) = k {
                        let new = format!("{{ __loop_end_{k} ! ( ) ; continue }}");
                        body.replace_range(p..at, &new);
                        at = p + new.len();
                    }
                }
                // loops
                for k in 0..x.loop_no {
                    let get = |kind: &str| -> String {
                        d.loops.iter().filter(|l| l.0 == k && l.1 == kind).map(|l| l.2.clone()).collect()
                    };
                    let (inv, begin, end, pre) = (get("inv"), get("begin"), get("end"), get("pre"));
                    body = body.replace(&format!("__loop_pre_{k} ! ( ) ;"), &pre);
                    let m = format!("__loop_begin_{k} ! ( ) ;");
                    if let Some(p) = body.find(&m) {
                        let o = body[..p].rfind('{').unwrap();
                        let cond_part = body[..o].to_string();
                        let rest = body[p + m.len()..].to_string();
                        body = format!("{cond_part}\n{inv}\n{{\n{begin}\n{rest}");
                    }
                    body = body.replace(&format!("__loop_end_{k} ! ( ) ;"), &end);
                    for at in ["after", "one", "done"] {
                        body = body.replace(&format!("__loop_{at}_{k} ! ( ) ;"), &get(at));
                    }
                }
                let nl = d.loops.iter().map(|l| l.0 + 1).max().unwrap_or(0);
                if nl != x.loop_no {
                    return Err(format!("{orig}: {} loops in the source, {} in the contract", x.loop_no, nl));
                }
                s += "    {\n";
                s += &d.pre;
                for (a, b) in &lets {
                    s += &format!("    let {a} = {b};\n");
                }
                let is_unit = matches!(sg.output, ReturnType::Default);
                if d.post.is_empty() {
                    s += &body;
                } else if is_unit {
                    s += "    {\n";
                    s += &body;
                    s += "    }\n";
                    s += &d.post;
                } else {
                    s += "    let __r = {\n";
                    s += &body;
                    s += "    };\n";
                    s += &d.post;
                    s += "    __r\n";
                }
                s += "    }\n";
            }
        }
    }
    let rep = format!(
        "{}\t{file}:{line}\t{}\t{}\tinlined: {}\n",
        if d.external { "contract only" } else { "fn" },
        d.sel.join(" # "),
        x.rules.iter().cloned().collect::<Vec<_>>().join("; "),
        x.inlined.join(",")
    );
    Ok((s, rep))
}
