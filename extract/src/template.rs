use crate::ast::*;
use crate::iter::Low;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit_mut::VisitMut;
use syn::*;

type Res<T> = std::result::Result<T, String>;

struct FnDir {
    file: String,
    path: String,
    params: Option<Vec<String>>,
    opts: BTreeMap<String, String>,
    contract: String,
    locals: Option<Vec<String>>,
    loops: BTreeMap<usize, String>,
    at: BTreeMap<String, String>, // "start", "end", "loop 0 start", ...
}

struct Found {
    sig: Signature,
    block: Block,
    self_ty: Option<Type>,
    trait_: Option<Path>,
    output: Option<Type>,
    line: usize,
    generics: Generics,
}

struct Files {
    repo: String,
    cache: BTreeMap<String, File>,
}
impl Files {
    fn get(&mut self, f: &str) -> Res<&File> {
        if !self.cache.contains_key(f) {
            let p = format!("{}/{}", self.repo, f);
            let s = std::fs::read_to_string(&p).map_err(|e| format!("cannot read {}: {}", p, e))?;
            let a = syn::parse_file(&s).map_err(|e| format!("cannot parse {}: {}", p, e))?;
            self.cache.insert(f.to_string(), a);
        }
        Ok(&self.cache[f])
    }
}

fn norm<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

fn walk_items<'a>(items: &'a [Item], o: &Opts, out: &mut Vec<&'a Item>) {
    for i in items {
        match i {
            Item::Mod(m) if cfg_on(&m.attrs, o) => {
                if let Some((_, it)) = &m.content {
                    walk_items(it, o, out)
                }
            }
            i => out.push(i),
        }
    }
}

/// `Self::X` -> the type the impl gives to X
struct AssocTy(Vec<(String, Type)>);
impl VisitMut for AssocTy {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                let n = p.path.segments[1].ident.to_string();
                if let Some((_, x)) = self.0.iter().find(|x| x.0 == n) {
                    *t = x.clone();
                }
            }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
}

fn find_fn(f: &File, path: &str, o: &Opts) -> Res<Found> {
    // const:NAME: a constant, as a function without parameters
    if let Some(n) = path.strip_prefix("const:") {
        let ix = index_file(f, o);
        let c = ix.consts.get(n).ok_or_else(|| format!("constant {} not found", n))?;
        let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
        let fun: ItemFn = parse_quote!(pub fn #id() -> #ty { let vp_c = #e; vp_c });
        return Ok(Found { sig: fun.sig, block: *fun.block, self_ty: None, trait_: None, output: None, line: c.ident.span().start().line, generics: Default::default() });
    }
    // outer/inner: a function declared inside another
    if let Some((outer, inner)) = path.split_once('/') {
        let out = find_fn(f, outer, o)?;
        for s in &out.block.stmts {
            if let Stmt::Item(Item::Fn(fun)) = s {
                if fun.sig.ident == inner {
                    return Ok(Found { sig: fun.sig.clone(), block: (*fun.block).clone(), self_ty: None, trait_: None, output: None, line: fun.sig.ident.span().start().line, generics: Default::default() });
                }
            }
        }
        return Err(format!("function {} not found", path));
    }
    let mut items = vec![];
    walk_items(&f.items, o, &mut items);
    let parts: Vec<&str> = if path.contains("::") { path.split("::").collect() } else { path.split(':').collect() };
    let inherent = path.contains("::");
    let mut cands: Vec<(i32, Found)> = vec![];
    for i in items {
        match i {
            Item::Fn(fun) if parts.len() == 1 && fun.sig.ident == parts[0] && cfg_on(&fun.attrs, o) => {
                cands.push((0, Found {
                    sig: fun.sig.clone(),
                    block: (*fun.block).clone(),
                    self_ty: None,
                    trait_: None,
                    output: None,
                    line: fun.sig.ident.span().start().line,
                    generics: Default::default(),
                }));
            }
            Item::Trait(t) if inherent && parts.len() == 2 && t.ident == parts[0] => {
                for it in &t.items {
                    if let TraitItem::Fn(fun) = it {
                        if fun.sig.ident == parts[1] && fun.default.is_some() {
                            cands.push((1, Found {
                                sig: fun.sig.clone(),
                                block: fun.default.clone().unwrap(),
                                self_ty: Some(parse_str::<Type>(parts[0]).unwrap()),
                                trait_: None,
                                output: None,
                                line: fun.sig.ident.span().start().line,
                                generics: Default::default(),
                            }));
                        }
                    }
                }
            }
            Item::Impl(im) if cfg_on(&im.attrs, o) && parts.len() >= 2 => {
                let tn = type_name(&im.self_ty);
                let full = norm(&im.self_ty);
                if parts[0] != tn && parts[0].replace(' ', "") != full {
                    continue;
                }
                let exact = parts[0].replace(' ', "") == full;
                let tr = im.trait_.as_ref().map(|t| t.1.clone());
                let fname;
                let mut score = if exact { 0 } else { 5 };
                if inherent {
                    if tr.is_some() {
                        continue;
                    }
                    fname = parts[1];
                } else {
                    let Some(tr) = &tr else { continue };
                    let seg = tr.segments.last().unwrap();
                    let want = parts[1].replace(' ', "");
                    if norm(seg) == want {
                    } else if seg.ident.to_string() == want {
                        score += 1;
                    } else {
                        continue;
                    }
                    fname = parts[2];
                }
                let mut output = None;
                for it in &im.items {
                    if let ImplItem::Type(t) = it {
                        output = Some(t.ty.clone());
                    }
                }
                for it in &im.items {
                    if let ImplItem::Fn(fun) = it {
                        if fun.sig.ident == fname && cfg_on(&fun.attrs, o) {
                            let mut fun = fun.clone();
                            let types: Vec<(String, Type)> = im.items.iter().filter_map(|x| if let ImplItem::Type(t) = x { Some((t.ident.to_string(), t.ty.clone())) } else { None }).collect();
                            AssocTy(types).visit_impl_item_fn_mut(&mut fun);
                            let fun = &fun;
                            cands.push((score, Found {
                                sig: fun.sig.clone(),
                                block: fun.block.clone(),
                                self_ty: Some((*im.self_ty).clone()),
                                trait_: tr.clone(),
                                output: output.clone(),
                                line: fun.sig.ident.span().start().line,
                                generics: im.generics.clone(),
                            }));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if cands.is_empty() {
        return Err(format!("function {} not found", path));
    }
    cands.sort_by_key(|c| c.0);
    Ok(cands.remove(0).1)
}

/// names bound by `let` and patterns, in order
struct Locals(Vec<String>);
impl VisitMut for Locals {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        self.0.push(p.ident.to_string());
        visit_mut::visit_pat_ident_mut(self, p);
    }
}

fn subst(text: &str, m: &BTreeMap<String, String>) -> String {
    if m.is_empty() {
        return text.to_string();
    }
    let mut out = String::new();
    let mut cur = String::new();
    let mut prev_dot = false;
    let flush = |cur: &mut String, out: &mut String, dot: bool| {
        if !cur.is_empty() {
            match m.get(cur) {
                Some(x) if !dot => out.push_str(x),
                _ => out.push_str(cur),
            }
            cur.clear();
        }
    };
    let mut dot_at_start = false;
    for c in text.chars() {
        if c.is_alphanumeric() || c == '_' {
            if cur.is_empty() {
                dot_at_start = prev_dot;
            }
            cur.push(c);
        } else {
            flush(&mut cur, &mut out, dot_at_start);
            out.push(c);
        }
        prev_dot = c == '.';
    }
    flush(&mut cur, &mut out, dot_at_start);
    out
}

fn ops_companion(tr: &Path, self_ty: &Type, output: &Type, req: &str) -> Option<String> {
    let seg = tr.segments.last()?;
    let n = seg.ident.to_string();
    let lower = match n.as_str() {
        "Add" | "Sub" | "Mul" | "Div" | "Rem" => n.to_lowercase(),
        "Neg" => {
            let (s, o) = (norm_sp(self_ty), norm_sp(output));
            return Some(format!("impl vstd::std_specs::ops::NegSpecImpl for {s} {{ open spec fn obeys_neg_spec() -> bool {{ false }} open spec fn neg_req(self) -> bool {{ {req} }} open spec fn neg_spec(self) -> {o} {{ arbitrary() }} }}\n"));
        }
        _ => return None,
    };
    let rhs = match &seg.arguments {
        PathArguments::AngleBracketed(a) => a.args.to_token_stream().to_string(),
        _ => norm_sp(self_ty),
    };
    let (s, o) = (norm_sp(self_ty), norm_sp(output));
    Some(format!("impl vstd::std_specs::ops::{n}SpecImpl<{rhs}> for {s} {{ open spec fn obeys_{lower}_spec() -> bool {{ false }} open spec fn {lower}_req(self, rhs: {rhs}) -> bool {{ {req} }} open spec fn {lower}_spec(self, rhs: {rhs}) -> {o} {{ arbitrary() }} }}\n"))
}
fn norm_sp<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

struct Gen<'a> {
    files: Files,
    base: Opts,
    known: BTreeSet<String>,
    lits: BTreeMap<String, String>,
    report: Vec<String>,
    dump_locals: bool,
    _p: std::marker::PhantomData<&'a ()>,
}

impl<'a> Gen<'a> {
    fn emit_fn(&mut self, d: &FnDir) -> Res<String> {
        let mut o = self.base.clone();
        o.castr = d.opts.contains_key("castr");
        o.panics_ok = d.opts.contains_key("panics_ok");
        o.noassign = d.opts.contains_key("noassign");
        if let Some(f) = d.opts.get("features") {
            o.features = f.split(',').map(|s| s.to_string()).collect();
        }
        if let Some(f) = d.opts.get("noinline") {
            o.noinline = f.split(',').map(|s| s.to_string()).collect();
        }
        if let Some(f) = d.opts.get("mono") {
            for kv in f.split(',') {
                let (k, v) = kv.split_once('/').unwrap();
                o.mono.insert(k.into(), v.into());
            }
        }
        let file = self.files.get(&d.file)?.clone();
        let found = find_fn(&file, &d.path, &o).map_err(|e| format!("{} in {}", e, d.file))?;
        let mut ix = index_file(&file, &o);
        // constants of the crate root (used as crate::NAME)
        let rt = d.file.split("/src/").next().unwrap_or("").to_string() + "/src/lib.rs";
        if rt != d.file && d.file.contains("/src/") {
            if let Ok(l) = self.files.get(&rt) {
                let l = index_file(l, &o);
                for (k, v) in l.consts {
                    ix.consts.entry(k).or_insert(v);
                }
            }
        }
        if let Some(f) = d.opts.get("assignfn") {
            o.assignfn = f.split(',').map(|s| s.to_string()).collect();
        }
        let Found { mut sig, mut block, self_ty, trait_, output, line, generics } = found;
        let self_name = self_ty.as_ref().map(type_name).unwrap_or_default();
        CfgFilter(&o).visit_block_mut(&mut block);
        LitRef(0, d.opts.contains_key("cloned"), 0).visit_block_mut(&mut block);
        // inline helpers that have no contract of their own
        let mut known = self.known.clone();
        known.insert(sig.ident.to_string());
        block.stmts.retain(|s| match s {
            Stmt::Item(Item::Fn(f)) => {
                ix.free.insert(f.sig.ident.to_string(), f.clone());
                false
            }
            _ => true,
        });
        let mut il = IterLet { done: vec![] };
        il.visit_block_mut(&mut block);
        let mut ci = ClosureInline { done: vec![] };
        ci.visit_block_mut(&mut block);
        let mut inl = Inliner { ix: &ix, self_ty: self_name.clone(), known: &known, o: &o, depth: 0, done: vec![], ret_result: false };
        inl.visit_block_mut(&mut block);
        let mut inlined = inl.done.clone();
        inlined.extend(ci.done);
        inlined.extend(il.done);
        // file-level constants used by the body become lets
        {
            let body_txt = block.to_token_stream().to_string();
            let words: BTreeSet<String> = body_txt.split(|c: char| !(c.is_alphanumeric() || c == '_')).map(|s| s.to_string()).collect();
            let mut pre: Vec<Stmt> = vec![];
            let mut added: BTreeSet<String> = BTreeSet::new();
            let mut work: Vec<String> = words.into_iter().collect();
            let mut lets: Vec<(String, Stmt)> = vec![];
            while let Some(w) = work.pop() {
                if added.contains(&w) || o.map.contains_key(&w) {
                    continue;
                }
                if let Some(c) = ix.consts.get(&w) {
                    added.insert(w.clone());
                    let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                    lets.push((w.clone(), parse_quote!(let #id: #ty = #e;)));
                    for x in e.to_token_stream().to_string().split(|c: char| !(c.is_alphanumeric() || c == '_')) {
                        work.push(x.to_string());
                    }
                } else if let Some(c) = ix.aconsts.get(&(self_name.clone(), w.clone())) {
                    added.insert(w.clone());
                    let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                    lets.push((w.clone(), parse_quote!(let #id: #ty = #e;)));
                    // Self::X -> X
                    struct V<'b>(&'b str);
                    impl<'b> VisitMut for V<'b> {
                        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                            let n = p.path.segments.len();
                            if n == 2 && p.path.segments[1].ident == self.0 {
                                let l = p.path.segments.last().unwrap().clone();
                                p.path.segments = std::iter::once(l).collect();
                            }
                        }
                    }
                    V(&w).visit_block_mut(&mut block);
                }
            }
            lets.reverse();
            for (_, s) in lets {
                pre.push(s);
            }
            pre.append(&mut block.stmts);
            block.stmts = pre;
        }
        AttrDrop.visit_block_mut(&mut block);
        // names: contract parameters -> actual parameters
        let mut sub: BTreeMap<String, String> = BTreeMap::new();
        let mut actual: Vec<String> = vec![];
        for i in sig.inputs.iter() {
            match i {
                FnArg::Receiver(_) => actual.push("self".into()),
                FnArg::Typed(t) => actual.push(match &*t.pat {
                    Pat::Ident(p) => p.ident.to_string(),
                    Pat::Wild(_) => "_".into(),
                    p => return Err(format!("parameter pattern {} in {}", norm_sp(p), d.path)),
                }),
            }
        }
        if let Some(ps) = &d.params {
            if ps.len() != actual.len() {
                return Err(format!("{} has {} parameters, contract expects {}", d.path, actual.len(), ps.len()));
            }
            for (a, b) in ps.iter().zip(actual.iter()) {
                if a != b {
                    sub.insert(a.clone(), b.clone());
                }
            }
        }
        let mut loc = Locals(vec![]);
        loc.visit_block_mut(&mut block);
        if self.dump_locals {
            eprintln!("LOCALS {} {}", d.path, loc.0.join(" "));
        }
        if let Some(l) = &d.locals {
            if l.len() == loc.0.len() {
                let mut ren = BTreeMap::new();
                for (a, b) in l.iter().zip(loc.0.iter()) {
                    if a != b {
                        ren.insert(a.clone(), b.clone());
                    }
                }
                // a consistent renaming only
                for (a, b) in ren {
                    sub.entry(a).or_insert(b);
                }
            }
        }
        // rewriting
        let mut rw = Rw { o: &o, low: Low { n: 0, elem: d.opts.get("velem").map(|t| parse_str(t).expect("velem")), refs: sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => match (&*t.pat, &*t.ty) { (Pat::Ident(i), Type::Reference(r)) if r.mutability.is_none() => Some(i.ident.to_string()), _ => None }, _ => None }).collect() }, lits: &mut self.lits, notes: Default::default(), err: None, ranges: Default::default() };
        rw.visit_block_mut(&mut block);
        let mut cs = ChunkSub { err: None };
        cs.visit_block_mut(&mut block);
        if cs.err.is_some() {
            rw.err = cs.err;
        }
        for i in sig.inputs.iter_mut() {
            rw.visit_fn_arg_mut(i);
        }
        let mut st = self_ty.clone();
        if let Some(t) = st.as_mut() {
            rw.visit_type_mut(t);
        }
        let mut out_ty = output.clone();
        if let Some(t) = out_ty.as_mut() {
            rw.visit_type_mut(t);
        }
        let mut ret = match &sig.output {
            ReturnType::Default => None,
            ReturnType::Type(_, t) => Some((**t).clone()),
        };
        if let Some(t) = ret.as_mut() {
            rw.visit_type_mut(t);
        }
        if let Some(e) = &rw.err {
            return Err(format!("{} in {}: unsupported construct: {}", d.path, d.file, e));
        }
        let mut trait2 = trait_.clone();
        if let Some(t) = trait2.as_mut() {
            for s in t.segments.iter_mut() {
                if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                    for g in a.args.iter_mut() {
                        if let GenericArgument::Type(t) = g {
                            rw.visit_type_mut(t);
                        }
                    }
                }
            }
        }
        let notes = rw.notes.clone();
        if let Some(Stmt::Expr(Expr::Return(r), _)) = block.stmts.last() {
            if let Some(e) = r.expr.clone() { let n = block.stmts.len(); block.stmts[n - 1] = Stmt::Expr(*e, None); }
        }
        // call markers
        for key in d.at.keys().filter(|k| k.starts_with("call ")) {
            let w: Vec<&str> = key.split_whitespace().collect();
            ElseIf.visit_block_mut(&mut block);
            let mut cm = CallMark { name: w[1].to_string(), k: w[2].parse().unwrap(), after: w[3] == "after", n: 0, id: format!("__vp_call_{}_{}_{}", w[1], w[2], w[3]), done: false };
            cm.visit_block_mut(&mut block);
            if !cm.done {
                return Err(format!("{} in {} has no call number {} of {}", d.path, d.file, w[2], w[1]));
            }
        }
        // loop markers
        let mut lm = LoopMark { n: 0, names: vec![] };
        lm.visit_block_mut(&mut block);
        let loop_names = lm.names.clone();
        if lm.n < d.loops.len() {
            return Err(format!("{} has {} loops, contract annotates {}", d.path, lm.n, d.loops.len()));
        }
        let want = d.opts.get("loops").map(|x| x.parse::<usize>().unwrap());
        if let Some(w) = want {
            if lm.n != w {
                return Err(format!("{} has {} loops, contract expects {}", d.path, lm.n, w));
            }
        }
        // drop a trailing `mut` warning etc. is harmless. Parameters declared `mut x` -> rebind
        let mut pre_mut = String::new();
        let mut args: Vec<String> = vec![];
        for i in sig.inputs.iter() {
            match i {
                FnArg::Receiver(r) => {
                    if r.reference.is_none() && r.mutability.is_some() {
                        args.push("self".to_string());
                        pre_mut.push_str("let mut vp_self = self;\n");
                    } else {
                        args.push(norm_sp(r))
                    }
                }
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(p) => {
                        let ty = norm_sp(&t.ty);
                        if p.mutability.is_some() {
                            pre_mut.push_str(&format!("let mut {0} = {0};\n", p.ident));
                        }
                        args.push(format!("{}: {}", p.ident, ty));
                    }
                    Pat::Wild(_) => args.push(format!("_: {}", norm_sp(&t.ty))),
                    _ => {}
                },
            }
        }
        if pre_mut.contains("vp_self") {
            let m: BTreeMap<String, String> = [("self".to_string(), "vp_self".to_string())].into();
            block = syn::parse2(rename(block.to_token_stream(), &m)).map_err(|e| e.to_string())?;
        }
        let mut body = String::new();
        let inner: proc_macro2::TokenStream = block.stmts.iter().map(|s| s.to_token_stream()).collect();
        print_tokens(inner, &mut body);
        // substitute loop markers
        let body0 = body.clone();
        // the accumulator of a lowered iterator consumer carries the number before that of its loop counter
        let acc_of = |kn: &str| -> String {
            let n: usize = kn.trim_start_matches("__vpk").parse().unwrap_or(0);
            for l in ["v", "a", "b", "p"] {
                let s = format!("__vp{}{}", l, n.wrapping_sub(1));
                if body0.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == s) {
                    return s;
                }
            }
            String::new()
        };
        for k in 0..lm.n {
            let mk = format!("__vp_loop_{} ;\n", k);
            let (mut inv, ls, le) = (
                d.loops.get(&k).cloned().unwrap_or_default(),
                d.at.get(&format!("loop {} start", k)).cloned().unwrap_or_default(),
                d.at.get(&format!("loop {} end", k)).cloned().unwrap_or_default(),
            );
            if !d.loops.contains_key(&k) {
                inv = String::new();
            }
            let (kn, nn, zero) = loop_names[k].clone();
            if !kn.is_empty() {
                let auto = if zero { format!("{} <= {},", kn, nn) } else { String::new() };
                if inv.contains("invariant ") {
                    inv = inv.replacen("invariant ", &format!("invariant {} ", auto), 1);
                } else {
                    inv = if auto.is_empty() { inv } else { format!("invariant {}\n{}", auto, inv) };
                }
                if !inv.contains("decreases") {
                    inv.push_str(&format!("\ndecreases {} - {}", nn, kn));
                }
            }
            let fix = |s: &str| -> String {
                let mut s = s.to_string();
                for j in (0..lm.n).rev() {
                    s = s.replace(&format!("$k{}", j), &loop_names[j].0).replace(&format!("$n{}", j), &loop_names[j].1).replace(&format!("$acc{}", j), &acc_of(&loop_names[j].0)).replace(&format!("$w{}", j), &loop_names[j].0.replace("__vpk", "__vpw"));
                }
                subst(&s.replace("$acc", &acc_of(&kn)).replace("$o", &kn.replace("__vpk", "__vpo")).replace("$w", &kn.replace("__vpk", "__vpw")).replace("$k", &kn).replace("$n", &nn), &sub)
            };
            let inv = fix(&inv);
            let ls = fix(&ls);
            let le = fix(&le);
            // the marker is the first statement of the loop body: `{\n__vp_loop !(k ) ;\n`
            let pat = format!("{{\n{}", mk);
            if !body.contains(&pat) {
                return Err(format!("internal: loop marker {} lost in {}: {}", k, d.path, body));
            }
            body = body.replacen(&pat, &format!("\n{}\n{{\n{}\n", inv, ls), 1);
            let mke = format!("__vp_loop_end_{} ;\n", k);
            body = body.replacen(&mke, &format!("{}\n", le), 1);
            let mkb = format!("__vp_loop_before_{} ;\n", k);
            let lb = fix(&d.at.get(&format!("loop {} before", k)).cloned().unwrap_or_default());
            body = body.replacen(&mkb, &format!("{}\n", lb), 1);
            let mka = format!("__vp_loop_after_{} ;\n", k);
            let la = fix(&d.at.get(&format!("loop {} after", k)).cloned().unwrap_or_default());
            body = body.replacen(&mka, &format!("{}\n", la), 1);
        }
        let fixall = |s: &str| -> String {
            let mut s = s.to_string();
            for j in (0..lm.n).rev() {
                s = s.replace(&format!("$k{}", j), &loop_names[j].0).replace(&format!("$n{}", j), &loop_names[j].1).replace(&format!("$acc{}", j), &acc_of(&loop_names[j].0)).replace(&format!("$w{}", j), &loop_names[j].0.replace("__vpk", "__vpw"));
            }
            subst(&s, &sub)
        };
        for (key, v) in d.at.iter().filter(|(k, _)| k.starts_with("call ")) {
            let w: Vec<&str> = key.split_whitespace().collect();
            body = body.replacen(&format!("__vp_call_{}_{}_{} ;\n", w[1], w[2], w[3]), &format!("{}\n", fixall(v)), 1);
        }
        let start = fixall(&d.at.get("start").cloned().unwrap_or_default());
        let end = d.at.get("end").map(|s| fixall(s));
        if let Some(e) = end {
            // before the tail expression
            let n = block.stmts.len();
            let tail = matches!(block.stmts.last(), Some(Stmt::Expr(_, None))) && ret.is_some();
            // re-print: everything but the tail, then proof, then tail
            if tail {
                let mut tail_txt = String::new();
                print_tokens(block.stmts[n - 1].to_token_stream(), &mut tail_txt);
                if body.ends_with(&tail_txt) {
                    let cut = body.len() - tail_txt.len();
                    body = format!("{}let vp_ret = {};\n{}\nvp_ret\n", &body[..cut], tail_txt, e);
                } else {
                    body = format!("let vp_ret = {{\n{}\n}};\n{}\nvp_ret\n", body, e);
                }
            } else {
                body = format!("{}\n;{}\n", body, e);
            }
        }
        // reachability run: only the entry of each function is of interest
        let (start, body) = if std::env::var("VPX_VACUITY").is_ok() { ("proof { assert(false); }\n".to_string(), "vp_unreached()\n".to_string()) } else { (start, body) };
        let contract = subst(&d.contract, &sub);
        let retname = d.opts.get("ret").cloned().unwrap_or("ret".into());
        let ret_txt = match &ret {
            None => String::new(),
            Some(t) => format!(" -> ({}: {})", retname, norm_sp(t)),
        };
        let fname = d.opts.get("as").cloned().unwrap_or(sig.ident.to_string());
        let mut gparams = String::new();
        if !sig.generics.params.is_empty() && !d.opts.contains_key("nogen") {
            let ps: Vec<String> = sig.generics.params.iter().filter(|p| match p {
                GenericParam::Type(t) => !o.mono.contains_key(&t.ident.to_string()),
                _ => true,
            }).map(|p| norm_sp(p)).collect();
            if !ps.is_empty() {
                gparams = format!("<{}>", ps.join(", "));
            }
        }
        let attrs = d.opts.get("attr").map(|a| format!("#[{}]\n", a)).unwrap_or_default();
        let marker = format!("// VPFN {} {}\n", d.path.replace(" ", "").replace("const:", ""), d.file);
        let text_fn = |vis: &str| {
            format!(
                "{}{}{} fn {}{}({}){}\n{}\n{{\n{}{}\n{}}}\n// VPEND\n",
                marker, attrs, vis, fname, gparams, args.join(", "), ret_txt, contract, pre_mut, start, body
            )
        };
        let mut lts: Vec<String> = generics.lifetimes().map(|l| norm_sp(&l.lifetime)).collect();
        if !st.as_ref().map_or(false, |t| self.base.strip_generics.contains(&type_name(t))) {
            lts.extend(generics.const_params().map(|c| norm_sp(c)));
        }
        let lts = if lts.is_empty() { String::new() } else { format!("<{}>", lts.join(", ")) };
        let txt = match &st {
            None => text_fn("pub"),
            Some(t) => {
                let opstr = trait2.as_ref().and_then(|t| t.segments.last().map(|s| s.ident.to_string())).unwrap_or_default();
                let is_op = matches!(opstr.as_str(), "Add" | "Sub" | "Mul" | "Div" | "Neg" | "Rem");
                let keep = is_op && !d.opts.contains_key("as");
                let tt = norm_sp(t);
                if keep {
                    let tr = trait2.clone().unwrap();
                    let ot = out_ty.clone().ok_or("no Output")?;
                    // Self -> the type
                    let m: BTreeMap<String, String> = BTreeMap::new();
                    let _ = m;
                    let ot_txt = norm_sp(&ot).replace("Self", &tt);
                    let ot2: Type = parse_str(&ot_txt).map_err(|e| e.to_string())?;
                    let req = d.opts.get("req").cloned().unwrap_or("true".into());
                    let comp = ops_companion(&tr, t, &ot2, &req).ok_or("op")?;
                    let seg = tr.segments.last().unwrap();
                    format!("{}impl core::ops::{} for {} {{ type Output = {};\n{}}}\n", comp, norm_sp(seg), tt, ot_txt, text_fn(""))
                } else {
                    let tt2 = match t {
                        Type::Reference(r) => norm_sp(&r.elem),
                        _ => tt.clone(),
                    };
                    let mut f = text_fn("pub");
                    if matches!(t, Type::Reference(_)) {
                        // `self` is already a reference: impl for &T
                        f = f.replacen("(self", "(&self", 1);
                    }
                    format!("impl{} {} {{\n{}}}\n", lts, tt2, f)
                }
            }
        };
        self.report.push(format!(
            "{{\"fn\":{:?},\"file\":{:?},\"line\":{},\"loops\":{},\"inlined\":{:?},\"rewrites\":{:?}}}",
            d.path, d.file, line, lm.n, inlined, notes.iter().collect::<Vec<_>>()
        ));
        Ok(txt)
    }

    fn emit_struct(&mut self, file: &str, name: &str, opts: &BTreeMap<String, String>) -> Res<String> {
        let o = self.base.clone();
        let f = self.files.get(file)?.clone();
        let mut items = vec![];
        walk_items(&f.items, &o, &mut items);
        for i in items {
            match i {
                Item::Struct(s) if s.ident == name && cfg_on(&s.attrs, &o) => {
                    let copy = s.attrs.iter().any(|a| norm(a).contains("Copy"));
                    let mut s = s.clone();
                    CfgFilter(&o).visit_item_struct_mut(&mut s);
                    if let Some(only) = opts.get("only") {
                        let set: BTreeSet<&str> = only.split(',').collect();
                        if let Fields::Named(n) = &mut s.fields {
                            let have: BTreeSet<String> = n.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
                            for w in &set {
                                if !have.contains(*w) {
                                    return Err(format!("struct {} has no field {}", name, w));
                                }
                            }
                            n.named = n.named.iter().filter(|f| set.contains(f.ident.as_ref().unwrap().to_string().as_str())).cloned().collect();
                        }
                    }
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for f in s.fields.iter_mut() {
                        f.attrs.clear();
                        f.vis = parse_quote!(pub);
                    }
                    let mut o = o.clone();
                    if opts.contains_key("keepgen") {
                        o.mono.clear();
                    }
                    let o = &o;
                    let mut rw = Rw { o, low: Low::default(), lits: &mut self.lits, notes: Default::default(), err: None, ranges: Default::default() };
                    for f in s.fields.iter_mut() {
                        rw.visit_type_mut(&mut f.ty);
                    }
                    if o.strip_generics.contains(name) {
                        s.generics = Default::default();
                    }
                    if opts.contains_key("keepgen") {
                        for g in s.generics.params.iter_mut() {
                            if let GenericParam::Type(t) = g {
                                t.bounds.clear();
                                t.colon_token = None;
                            }
                        }
                    }
                    let mut t = String::new();
                    print_tokens(s.to_token_stream(), &mut t);
                    return Ok(format!("{}{}", if copy && !opts.contains_key("nocopy") { "#[derive(Clone, Copy)]\n" } else { "" }, t));
                }
                Item::Enum(s) if s.ident == name && cfg_on(&s.attrs, &o) => {
                    let copy = s.attrs.iter().any(|a| norm(a).contains("Copy"));
                    let mut s = s.clone();
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    let mut rw = Rw { o: &o, low: Low::default(), lits: &mut self.lits, notes: Default::default(), err: None, ranges: Default::default() };
                    for v in s.variants.iter_mut() {
                        v.attrs.clear();
                        for f in v.fields.iter_mut() {
                            f.attrs.clear();
                            rw.visit_type_mut(&mut f.ty);
                        }
                    }
                    let mut t = String::new();
                    print_tokens(s.to_token_stream(), &mut t);
                    return Ok(format!("{}{}", if copy { "#[derive(Clone, Copy)]\n" } else { "" }, t));
                }
                _ => {}
            }
        }
        Err(format!("struct {} not found in {}", name, file))
    }
}

/// puts markers at the first position of each loop body, in pre-order
/// puts a marker before or after the statement that holds the k-th call of a function (source order)
struct CallMark {
    name: String,
    k: usize,
    after: bool,
    n: usize,
    id: String,
    done: bool,
}
struct CallCount<'n> {
    name: &'n str,
    n: usize,
}
impl<'a, 'n> syn::visit::Visit<'a> for CallCount<'n> {
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if p.path.segments.last().map_or(false, |s| s.ident == self.name) {
                self.n += 1;
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        if c.method == self.name {
            self.n += 1;
        }
        syn::visit::visit_expr_method_call(self, c);
    }
}
/// `else if c {..}` as `else { if c {..} }`, so that the inner condition has a place before it
struct ElseIf;
impl VisitMut for ElseIf {
    fn visit_expr_if_mut(&mut self, e: &mut ExprIf) {
        if let Some((_, x)) = &mut e.else_branch {
            if matches!(**x, Expr::If(_)) {
                let y = x.clone();
                **x = parse_quote!({ #y });
            }
        }
        syn::visit_mut::visit_expr_if_mut(self, e);
    }
}
impl VisitMut for CallMark {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut c = CallCount { name: &self.name, n: 0 };
            syn::visit::Visit::visit_stmt(&mut c, &b.stmts[i]);
            let here = c.n;
            if !self.done && self.n <= self.k && self.k < self.n + here {
                self.done = true;
                let id = format_ident!("{}", self.id);
                let m: Stmt = parse_quote!(#id;);
                if self.after {
                    if let Stmt::Expr(_, semi) = &mut b.stmts[i] {
                        *semi = Some(Default::default());
                    }
                    b.stmts.insert(i + 1, m);
                } else {
                    b.stmts.insert(i, m);
                }
                i += 2;
                self.n += here;
                continue;
            }
            self.n += here;
            self.visit_stmt_mut(&mut b.stmts[i]);
            i += 1;
        }
    }
}
struct LoopMark {
    n: usize,
    names: Vec<(String, String, bool)>,
}
impl VisitMut for LoopMark {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let mut last_zero = false;
        for mut s in b.stmts.drain(..) {
            let is_loop = matches!(&s, Stmt::Expr(Expr::While(_), _) | Stmt::Expr(Expr::Loop(_), _));
            let k = self.n;
            if is_loop {
                out.push({ let id = format_ident!("__vp_loop_before_{}", k); parse_quote!(#id;) });
                if let Stmt::Expr(Expr::While(w), _) = &s {
                    let c = w.cond.to_token_stream().to_string();
                    let mut kn = String::new();
                    let mut nn = String::new();
                    if let Some(r) = c.strip_prefix("__vpk") {
                        let num: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
                        if c == format!("__vpk{0} < __vpn{0}", num) {
                            kn = format!("__vpk{}", num);
                            nn = format!("__vpn{}", num);
                        }
                    }
                    self.names.push((kn, nn, last_zero));
                } else {
                    self.names.push((String::new(), String::new(), false));
                }
                self.n += 1;
                match &mut s {
                    Stmt::Expr(Expr::While(w), _) => {
                        visit_mut::visit_block_mut(self, &mut Block { brace_token: Default::default(), stmts: vec![] });
                        self.visit_block_mut(&mut w.body);
                        w.body.stmts.insert(0, { let id = format_ident!("__vp_loop_{}", k); parse_quote!(#id;) });
                        // before the increment if it is a lowered loop
                        let pos = w.body.stmts.len();
                        let pos = if !self.names[k].0.is_empty() { pos - 1 } else { pos };
                        w.body.stmts.insert(pos, { let id = format_ident!("__vp_loop_end_{}", k); parse_quote!(#id;) });
                    }
                    Stmt::Expr(Expr::Loop(w), _) => {
                        self.visit_block_mut(&mut w.body);
                        w.body.stmts.insert(0, { let id = format_ident!("__vp_loop_{}", k); parse_quote!(#id;) });
                        w.body.stmts.push({ let id = format_ident!("__vp_loop_end_{}", k); parse_quote!(#id;) });
                    }
                    _ => {}
                }
                out.push(s);
                out.push({ let id = format_ident!("__vp_loop_after_{}", k); parse_quote!(#id;) });
            } else {
                last_zero = match &s {
                    Stmt::Local(l) => {
                        let t = l.to_token_stream().to_string();
                        t.starts_with("let mut __vpk") && t.trim_end_matches(';').trim().ends_with("= 0")
                    }
                    _ => false,
                };
                self.visit_stmt_mut(&mut s);
                out.push(s);
            }
        }
        b.stmts = out;
    }
}

fn parse_opts(ws: &[&str]) -> BTreeMap<String, String> {
    ws.iter()
        .map(|w| match w.split_once('=') {
            Some((a, b)) => (a.to_string(), b.to_string()),
            None => (w.to_string(), String::new()),
        })
        .collect()
}

pub fn run(repo: &str, tpl: &str, prelude: &str, out: &str, report: &str) -> Res<()> {
    let text = std::fs::read_to_string(tpl).map_err(|e| format!("{}: {}", tpl, e))?;
    let pre = std::fs::read_to_string(prelude).map_err(|e| format!("{}: {}", prelude, e))?;
    let mut g = Gen {
        files: Files { repo: repo.to_string(), cache: Default::default() },
        base: Opts::default(),
        known: Default::default(),
        lits: Default::default(),
        report: vec![],
        dump_locals: std::env::var("VPX_LOCALS").is_ok(),
        _p: std::marker::PhantomData,
    };
    // resolve includes
    let mut lines: Vec<String> = vec![];
    fn load(text: &str, dir: &std::path::Path, lines: &mut Vec<String>) -> Res<()> {
        for l in text.lines() {
            if let Some(f) = l.trim().strip_prefix("//@include ") {
                let p = dir.join(f.trim());
                let t = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p.display(), e))?;
                load(&t, dir, lines)?;
            } else {
                lines.push(l.to_string());
            }
        }
        Ok(())
    }
    load(&text, std::path::Path::new(tpl).parent().unwrap(), &mut lines)?;
    // known names
    for l in pre.lines().chain(lines.iter().map(|s| s.as_str())) {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@fn ") {
            let ws: Vec<&str> = r.split_whitespace().collect();
            if ws.len() >= 2 {
                let p = ws[1];
                let n = p.rsplit([':', '/']).next().unwrap();
                g.known.insert(n.to_string());
            }
        } else if !t.starts_with("//") {
            let mut rest = t;
            while let Some(i) = rest.find("fn ") {
                let r = &rest[i + 3..];
                let n: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                if !n.is_empty() {
                    g.known.insert(n);
                }
                rest = r;
            }
        }
    }
    let mut body = String::new();
    let mut i = 0;
    let mut lost: Vec<String> = vec![];
    while i < lines.len() {
        let l = lines[i].clone();
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@fn ") {
            // //@fn file path (params) opts
            let mut r = r.to_string();
            let params = match (r.find('('), r.find(')')) {
                (Some(a), Some(b)) if a < b => {
                    let ps: Vec<String> = r[a + 1..b].split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
                    r.replace_range(a..=b, "");
                    Some(ps)
                }
                _ => None,
            };
            let ws: Vec<&str> = r.split_whitespace().collect();
            let mut d = FnDir {
                file: ws[0].into(),
                path: ws[1].into(),
                params,
                opts: parse_opts(&ws[2..]),
                contract: String::new(),
                locals: None,
                loops: Default::default(),
                at: Default::default(),
            };
            i += 1;
            let mut cur: Option<String> = None; // None: contract
            loop {
                if i >= lines.len() {
                    return Err("unterminated //@fn".into());
                }
                let l = &lines[i];
                let t = l.trim();
                if t == "//@endfn" {
                    break;
                }
                if let Some(r) = t.strip_prefix("//@loop ") {
                    cur = Some(format!("L{}", r.trim()));
                    d.loops.insert(r.trim().parse().unwrap(), String::new());
                } else if let Some(r) = t.strip_prefix("//@at ") {
                    cur = Some(format!("A{}", r.trim()));
                } else if let Some(r) = t.strip_prefix("//@locals ") {
                    d.locals = Some(r.split_whitespace().map(|s| s.to_string()).collect());
                } else {
                    match &cur {
                        None => {
                            d.contract.push_str(l);
                            d.contract.push('\n');
                        }
                        Some(c) if c.starts_with('L') => {
                            let s = d.loops.get_mut(&c[1..].parse::<usize>().unwrap()).unwrap();
                            s.push_str(l);
                            s.push('\n');
                        }
                        Some(c) => {
                            let s = d.at.entry(c[1..].to_string()).or_default();
                            s.push_str(l);
                            s.push('\n');
                        }
                    }
                }
                i += 1;
            }
            match g.emit_fn(&d) {
                Ok(t) => body.push_str(&t),
                Err(e) => lost.push(e),
            }
        } else if let Some(r) = t.strip_prefix("//@struct ").or(t.strip_prefix("//@enum ")) {
            let ws: Vec<&str> = r.split_whitespace().collect();
            match g.emit_struct(ws[0], ws[1], &parse_opts(&ws[2..])) {
                Ok(t) => body.push_str(&t),
                Err(e) => lost.push(e),
            }
        } else if let Some(r) = t.strip_prefix("//@map ") {
            let (a, b) = r.split_once('=').ok_or("bad map")?;
            g.base.map.insert(a.trim().into(), b.trim().into());
        } else if let Some(r) = t.strip_prefix("//@mono ") {
            let (a, b) = r.split_once('=').ok_or("bad mono")?;
            g.base.mono.insert(a.trim().into(), b.trim().into());
        } else if let Some(r) = t.strip_prefix("//@macros ") {
            let f = g.files.get(r.trim())?.clone();
            for it in &f.items {
                if let Item::Macro(m) = it {
                    if let (Some(id), true) = (&m.ident, m.mac.path.is_ident("macro_rules")) {
                        // ( $a : expr, .. ) => { body } ;   or   ( $( $e : expr ),+ ) => { body }
                        let v: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().filter(|t| t.to_string() != ";").collect();
                        let one = v.len() <= 4;
                        for arm in v.chunks(4) {
                            if let (Some(proc_macro2::TokenTree::Group(ps)), Some(proc_macro2::TokenTree::Group(body))) = (arm.get(0), arm.get(3)) {
                                let txt = ps.stream().to_string().replace(' ', "");
                                if let Some(n) = txt.strip_prefix("$($").and_then(|x| x.strip_suffix(":expr),+").or(x.strip_suffix(":expr),*"))) {
                                    g.base.macros.insert(id.to_string(), (vec![format!("*{}", n)], body.stream()));
                                    continue;
                                }
                                let names: Option<Vec<String>> = if txt.is_empty() { Some(vec![]) } else { txt.split(',').map(|p| p.strip_prefix('$').and_then(|p| p.strip_suffix(":expr")).map(|p| p.to_string())).collect() };
                                if let (Some(n), true) = (names, one) {
                                    g.base.macros.insert(id.to_string(), (n, body.stream()));
                                }
                            }
                        }
                    }
                }
            }
        } else if let Some(r) = t.strip_prefix("//@strip ") {
            g.base.strip_generics.insert(r.trim().into());
        } else if let Some(r) = t.strip_prefix("//@features ") {
            g.base.features = r.split_whitespace().map(|s| s.to_string()).collect();
        } else {
            // real literals written in spec text stay as they are
            body.push_str(&l);
            body.push('\n');
        }
        i += 1;
    }
    if !lost.is_empty() {
        return Err(lost.join("; "));
    }
    let mut lits = String::new();
    for (n, v) in &g.lits {
        lits.push_str(&format!("#[verifier::external_body] pub fn {}() -> (r: R) ensures r@ == {} {{ unimplemented!() }}\n", n, v));
    }
    let full = format!(
        "// generated by vpx from {} -- do not edit\n{}\nverus! {{\n{}\n{}\n}} // verus!\nfn main() {{}}\n",
        tpl, pre, lits, body
    );
    std::fs::write(out, full).map_err(|e| e.to_string())?;
    std::fs::write(report, format!("[{}]\n", g.report.join(",\n"))).map_err(|e| e.to_string())?;
    let _ = (quote!(), format_ident!("x"), Locals(vec![]), block_span);
    Ok(())
}
fn block_span(b: &Block) -> usize {
    b.span().start().line
}
