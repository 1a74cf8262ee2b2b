//! AST rewriting: cfg filtering, helper inlining, float -> R, macros, compound assignment, casts.
use crate::iter::{strip, Low};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default, Clone)]
pub struct Opts {
    pub features: BTreeSet<String>,
    pub castr: bool,
    pub panics_ok: bool,
    pub noassign: bool,
    pub noinline: BTreeSet<String>,
    pub mono: BTreeMap<String, String>,
    pub strip_generics: BTreeSet<String>,
    pub map: BTreeMap<String, String>,
    pub keep_debug_assert: bool,
    pub drop_calls: BTreeSet<String>,
    pub keepfn: bool,
    pub macros: BTreeMap<String, (Vec<String>, TokenStream)>,
    pub assignfn: BTreeSet<String>,
}

pub fn cfg_on(attrs: &[Attribute], o: &Opts) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let Meta::List(l) = &a.meta {
                if let Ok(m) = syn::parse2::<Meta>(l.tokens.clone()) {
                    if !cfg_meta(&m, o) {
                        return false;
                    }
                } else {
                    return false;
                }
            }
        }
    }
    true
}
fn cfg_meta(m: &Meta, o: &Opts) -> bool {
    match m {
        Meta::Path(_) => false, // test, debug_assertions, hooks: off
        Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                    return o.features.contains(&s.value());
                }
            }
            false
        }
        Meta::List(l) => {
            let items: Vec<Meta> = l
                .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect())
                .unwrap_or_default();
            if l.path.is_ident("not") {
                !items.iter().all(|i| cfg_meta(i, o))
            } else if l.path.is_ident("any") {
                items.iter().any(|i| cfg_meta(i, o))
            } else {
                items.iter().all(|i| cfg_meta(i, o))
            }
        }
    }
}

fn stmt_attrs(s: &Stmt) -> Vec<Attribute> {
    match s {
        Stmt::Local(l) => l.attrs.clone(),
        Stmt::Macro(m) => m.attrs.clone(),
        Stmt::Expr(e, _) => expr_attrs(e),
        Stmt::Item(i) => match i {
            Item::Const(c) => c.attrs.clone(),
            Item::Fn(c) => c.attrs.clone(),
            Item::Use(c) => c.attrs.clone(),
            _ => vec![],
        },
    }
}
fn expr_attrs(e: &Expr) -> Vec<Attribute> {
    match e {
        Expr::Block(x) => x.attrs.clone(),
        Expr::If(x) => x.attrs.clone(),
        Expr::Call(x) => x.attrs.clone(),
        Expr::MethodCall(x) => x.attrs.clone(),
        Expr::Assign(x) => x.attrs.clone(),
        Expr::Macro(x) => x.attrs.clone(),
        Expr::ForLoop(x) => x.attrs.clone(),
        Expr::Match(x) => x.attrs.clone(),
        Expr::Return(x) => x.attrs.clone(),
        Expr::Binary(x) => x.attrs.clone(),
        _ => vec![],
    }
}

/// removes what cfg switches off, then every attribute
pub struct CfgFilter<'a>(pub &'a Opts);
impl<'a> VisitMut for CfgFilter<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| cfg_on(&stmt_attrs(s), self.0));
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain(|a| cfg_on(&a.attrs, self.0));
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_struct_mut(&mut self, m: &mut ExprStruct) {
        let f: punctuated::Punctuated<FieldValue, Token![,]> =
            m.fields.iter().filter(|a| cfg_on(&a.attrs, self.0)).cloned().collect();
        m.fields = f;
        visit_mut::visit_expr_struct_mut(self, m);
    }
    fn visit_fields_named_mut(&mut self, m: &mut FieldsNamed) {
        let f: punctuated::Punctuated<Field, Token![,]> =
            m.named.iter().filter(|a| cfg_on(&a.attrs, self.0)).cloned().collect();
        m.named = f;
        visit_mut::visit_fields_named_mut(self, m);
    }
}
/// `let x = …&0.5…;` -> `let __vplit0 = 0.5; let x = …&__vplit0…;` (rustc promotes the literal to a constant),
/// `let x = place.iter().cloned()[.rev()];` -> `let x = vp_cloned(&place)[.rev()];`
pub struct LitRef(pub usize, pub bool, pub usize);
struct LitRefIn<'a>(&'a mut usize, Vec<Stmt>);
impl<'a> VisitMut for LitRefIn<'a> {
    fn visit_block_mut(&mut self, _: &mut Block) {}
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Reference(r) = e {
            if matches!(&*r.expr, Expr::Lit(l) if matches!(l.lit, Lit::Float(_))) {
                let id = format_ident!("__vplit{}", self.0);
                *self.0 += 1;
                let l = &r.expr;
                self.1.push(parse_quote!(let #id = #l;));
                *e = parse_quote!(&#id);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn tried_iter(e: &mut Expr) -> Option<&mut Expr> {
    if let Expr::MethodCall(m) = e {
        if m.method == "iter" && m.args.is_empty() && matches!(&*m.receiver, Expr::Try(_)) {
            return Some(&mut m.receiver);
        }
        return tried_iter(&mut m.receiver);
    }
    None
}
fn cloned_chain(e: &Expr) -> Option<Expr> {
    if let Expr::MethodCall(m) = e {
        if m.method == "rev" && m.args.is_empty() {
            let i = cloned_chain(&m.receiver)?;
            return Some(parse_quote!(#i.rev()));
        }
        if m.method == "cloned" && m.args.is_empty() {
            if let Expr::MethodCall(k) = &*m.receiver {
                if k.method == "iter" && k.args.is_empty() {
                    let p = &k.receiver;
                    return Some(parse_quote!(vp_cloned(&#p)));
                }
            }
        }
    }
    None
}
impl VisitMut for LitRef {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut st: Vec<Stmt> = vec![];
        for mut s in b.stmts.drain(..) {
            if let Stmt::Local(l) = &mut s {
                if let Some(i) = &mut l.init {
                    if let (true, Some(c)) = (self.1, cloned_chain(&i.expr)) {
                        *i.expr = c;
                    }
                    // `expr?.iter()…` -> `let __vptryN = expr?; __vptryN.iter()…`
                    if let Some(r) = tried_iter(&mut i.expr) {
                        let id = format_ident!("__vptry{}", self.2);
                        self.2 += 1;
                        let l = r.clone();
                        *r = parse_quote!(#id);
                        st.push(parse_quote!(let #id = #l;));
                    }
                    let mut v = LitRefIn(&mut self.0, vec![]);
                    v.visit_expr_mut(&mut i.expr);
                    st.extend(v.1);
                }
            }
            st.push(s);
        }
        b.stmts = st;
    }
}
pub struct AttrDrop;
impl VisitMut for AttrDrop {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

// ---------------------------------------------------------------- inlining
pub struct FnIndex {
    /// free functions
    pub free: BTreeMap<String, ItemFn>,
    /// (type, name) -> fn
    pub methods: BTreeMap<(String, String), ImplItemFn>,
    pub consts: BTreeMap<String, ItemConst>,
    pub aconsts: BTreeMap<(String, String), ImplItemConst>,
}
pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => type_name(&r.elem),
        _ => String::new(),
    }
}
pub fn index_file(f: &File, o: &Opts) -> FnIndex {
    let mut ix = FnIndex { free: Default::default(), methods: Default::default(), consts: Default::default(), aconsts: Default::default() };
    fn walk(items: &[Item], ix: &mut FnIndex, o: &Opts) {
        for i in items {
            match i {
                Item::Fn(f) if cfg_on(&f.attrs, o) => {
                    ix.free.insert(f.sig.ident.to_string(), f.clone());
                }
                Item::Const(c) if cfg_on(&c.attrs, o) => {
                    ix.consts.insert(c.ident.to_string(), c.clone());
                }
                Item::Impl(im) if cfg_on(&im.attrs, o) && im.trait_.is_none() => {
                    let t = type_name(&im.self_ty);
                    for it in &im.items {
                        match it {
                            ImplItem::Fn(f) if cfg_on(&f.attrs, o) => {
                                ix.methods.insert((t.clone(), f.sig.ident.to_string()), f.clone());
                            }
                            ImplItem::Const(c) if cfg_on(&c.attrs, o) => {
                                ix.aconsts.insert((t.clone(), c.ident.to_string()), c.clone());
                            }
                            _ => {}
                        }
                    }
                }
                Item::Mod(m) if cfg_on(&m.attrs, o) => {
                    if let Some((_, items)) = &m.content {
                        walk(items, ix, o)
                    }
                }
                _ => {}
            }
        }
    }
    walk(&f.items, &mut ix, o);
    ix
}

/// `if c { ..; return x; } rest`  ->  `if c { ..; x } else { rest }`, `return x;` at the end -> `x`
fn tailify(b: &Block) -> Option<Block> {
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in b.stmts.iter().enumerate() {
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = &r.expr {
                    out.push(Stmt::Expr((**e).clone(), None));
                }
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            Stmt::Expr(Expr::If(f), _) if has_return_block(&f.then_branch) && f.else_branch.is_none() => {
                if !ends_in_return(&f.then_branch) {
                    return None;
                }
                let then = tailify(&f.then_branch)?;
                let rest = Block { brace_token: b.brace_token, stmts: b.stmts[i + 1..].to_vec() };
                let rest = tailify(&rest)?;
                let c = &f.cond;
                let e: Expr = parse_quote!(if #c #then else #rest);
                out.push(Stmt::Expr(e, None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            Stmt::Expr(e, semi) => {
                if i + 1 == b.stmts.len() && semi.is_none() {
                    let e2 = match e {
                        Expr::If(f) if has_return(e) => {
                            let th = tailify(&f.then_branch)?;
                            let c = &f.cond;
                            match &f.else_branch {
                                Some((_, el)) => match &**el {
                                    Expr::Block(eb) => {
                                        let el = tailify(&eb.block)?;
                                        parse_quote!(if #c #th else #el)
                                    }
                                    _ => return None,
                                },
                                None => return None,
                            }
                        }
                        Expr::Match(m) if has_return(e) => {
                            let mut m = m.clone();
                            for a in m.arms.iter_mut() {
                                match &*a.body {
                                    Expr::Block(b) => {
                                        let t = tailify(&b.block)?;
                                        *a.body = parse_quote!(#t);
                                    }
                                    Expr::Return(r) => {
                                        let e = r.expr.clone()?;
                                        *a.body = (*e).clone();
                                    }
                                    x if has_return(x) => return None,
                                    _ => {}
                                }
                            }
                            Expr::Match(m)
                        }
                        e if has_return(e) => return None,
                        e => e.clone(),
                    };
                    out.push(Stmt::Expr(e2, None));
                } else {
                    if has_return(e) {
                        return None;
                    }
                    out.push(s.clone());
                }
            }
            s => {
                if has_return_stmt(s) {
                    return None;
                }
                out.push(s.clone())
            }
        }
    }
    Some(Block { brace_token: b.brace_token, stmts: out })
}
struct HasRet(bool);
impl<'a> syn::visit::Visit<'a> for HasRet {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_return(e: &Expr) -> bool {
    let mut h = HasRet(false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}
fn has_return_stmt(e: &Stmt) -> bool {
    let mut h = HasRet(false);
    syn::visit::Visit::visit_stmt(&mut h, e);
    h.0
}
fn has_return_block(b: &Block) -> bool {
    let mut h = HasRet(false);
    syn::visit::Visit::visit_block(&mut h, b);
    h.0
}
fn ends_in_return(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

pub struct Inliner<'a> {
    pub ix: &'a FnIndex,
    pub self_ty: String,
    pub known: &'a BTreeSet<String>,
    pub o: &'a Opts,
    pub depth: usize,
    pub done: Vec<String>,
    pub ret_result: bool,
}
impl<'a> Inliner<'a> {
    fn splice(&mut self, name: &str, sig: &Signature, body: &Block, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 4 || !sig.generics.params.is_empty() {
            return None;
        }
        let mut body = body.clone();
        CfgFilter(self.o).visit_block_mut(&mut body);
        let body = tailify(&body)?;
        let mut pats: Vec<Pat> = vec![];
        let mut tys: Vec<Type> = vec![];
        for i in &sig.inputs {
            if let FnArg::Typed(t) = i {
                pats.push((*t.pat).clone());
                tys.push((*t.ty).clone());
            }
        }
        if pats.len() != args.len() {
            return None;
        }
        let mut blk = body;
        self.depth += 1;
        self.visit_block_mut(&mut blk);
        self.depth -= 1;
        self.done.push(name.to_string());
        let st = &blk.stmts;
        // bindings whose name equals the argument are dropped (no rebinding needed)
        let mut p2: Vec<&Pat> = vec![];
        let mut t2: Vec<&Type> = vec![];
        let mut a2: Vec<&Expr> = vec![];
        for i in 0..pats.len() {
            let ps = pats[i].to_token_stream().to_string();
            let as_ = args[i].to_token_stream().to_string();
            if ps == as_ {
                continue;
            }
            p2.push(&pats[i]);
            t2.push(&tys[i]);
            a2.push(&args[i]);
        }
        Some(match p2.len() {
            0 => parse_quote!({ #(#st)* }),
            1 => {
                let (p, t, a) = (p2[0], t2[0], a2[0]);
                parse_quote!({ let #p: #t = #a; #(#st)* })
            }
            _ => parse_quote!({ let (#(#p2),*): (#(#t2),*) = (#(#a2),*); #(#st)* }),
        })
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let r = match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().cloned().unwrap_or_default();
                    if self.known.contains(&name) || self.o.noinline.contains(&name) {
                        None
                    } else if segs.len() == 1 {
                        self.ix.free.get(&name).cloned().and_then(|f| {
                            self.splice(&name, &f.sig, &f.block, c.args.iter().cloned().collect())
                        })
                    } else if segs.len() == 2 {
                        let t = if segs[0] == "Self" { self.self_ty.clone() } else { segs[0].clone() };
                        self.ix.methods.get(&(t, name.clone())).cloned().and_then(|f| {
                            if f.sig.receiver().is_some() {
                                return None;
                            }
                            self.splice(&name, &f.sig, &f.block, c.args.iter().cloned().collect())
                        })
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let is_self = matches!(strip(&m.receiver), Expr::Path(p) if p.path.is_ident("self"));
                if !is_self || self.known.contains(&name) || self.o.noinline.contains(&name) {
                    None
                } else {
                    self.ix.methods.get(&(self.self_ty.clone(), name.clone())).cloned().and_then(|f| {
                        f.sig.receiver()?;
                        self.splice(&name, &f.sig, &f.block, m.args.iter().cloned().collect())
                    })
                }
            }
            _ => None,
        };
        if let Some(r) = r {
            *e = r;
        }
    }
}

/// `let f = |a, b| body;` whose only uses are calls `f(x, y)`: the calls become blocks
pub struct ClosureInline {
    pub done: Vec<String>,
}
impl VisitMut for ClosureInline {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut hit: Option<(Ident, ExprClosure)> = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                let pat = match &l.pat {
                    Pat::Type(t) => &*t.pat,
                    p => p,
                };
                if let (Pat::Ident(pi), Some(init)) = (pat, &l.init) {
                    if let Expr::Closure(c) = strip(&init.expr) {
                        hit = Some((pi.ident.clone(), c.clone()));
                    }
                }
            }
            if let Some((name, c)) = hit {
                let body: Block = match &*c.body {
                    Expr::Block(b) => b.block.clone(),
                    e => parse_quote!({ #e }),
                };
                if let Some(body) = tailify(&body) {
                    let rest = &b.stmts[i + 1..];
                    let mut u = Uses { name: name.to_string(), all: 0, calls: 0 };
                    for s in rest {
                        syn::visit::Visit::visit_stmt(&mut u, s);
                    }
                    let in_macro = rest.iter().any(|s| macro_mentions(s, &name.to_string()));
                    if u.all == u.calls && !in_macro {
                        let mut r = CallSub { name: name.to_string(), c: &c, body: &body };
                        let mut new: Vec<Stmt> = rest.to_vec();
                        for s in new.iter_mut() {
                            r.visit_stmt_mut(s);
                        }
                        b.stmts.truncate(i);
                        b.stmts.extend(new);
                        self.done.push(format!("closure {}", name));
                        continue;
                    }
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
fn macro_mentions(s: &Stmt, name: &str) -> bool {
    struct M<'b>(&'b str, bool);
    impl<'a, 'b> syn::visit::Visit<'a> for M<'b> {
        fn visit_macro(&mut self, m: &'a Macro) {
            if m.tokens.to_string().split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == self.0) {
                self.1 = true;
            }
        }
    }
    let mut m = M(name, false);
    syn::visit::Visit::visit_stmt(&mut m, s);
    m.1
}
struct Uses {
    name: String,
    all: usize,
    calls: usize,
}
impl<'a> syn::visit::Visit<'a> for Uses {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if p.path.is_ident(&self.name) {
                self.calls += 1;
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if p.path.is_ident(&self.name) {
            self.all += 1;
        }
    }
}
struct CallSub<'b> {
    name: String,
    c: &'b ExprClosure,
    body: &'b Block,
}
impl<'b> VisitMut for CallSub<'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(&self.name) && c.args.len() == self.c.inputs.len() {
                    let st = &self.body.stmts;
                    let mut a: Vec<Expr> = c.args.iter().cloned().collect();
                    for (x, i) in a.iter_mut().zip(self.c.inputs.iter()) {
                        if let (Expr::Path(_), Pat::Type(t)) = (&*x, i) {
                            if matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()) {
                                let y = x.clone();
                                *x = parse_quote!(&mut *#y);
                            }
                        }
                    }
                    let mut ps: Vec<Pat> = vec![];
                    let mut ts: Vec<Type> = vec![];
                    let mut typed = true;
                    for i in &self.c.inputs {
                        match i {
                            Pat::Type(t) => {
                                ps.push((*t.pat).clone());
                                ts.push((*t.ty).clone());
                            }
                            x => {
                                ps.push(x.clone());
                                typed = false;
                            }
                        }
                    }
                    *e = match (ps.len(), typed) {
                        (0, _) => parse_quote!({ #(#st)* }),
                        (1, true) => {
                            let (p, t, a) = (&ps[0], &ts[0], &a[0]);
                            parse_quote!({ let #p: #t = #a; #(#st)* })
                        }
                        (1, false) => {
                            let (p, a) = (&ps[0], &a[0]);
                            parse_quote!({ let #p = #a; #(#st)* })
                        }
                        (_, true) => parse_quote!({ let (#(#ps),*): (#(#ts),*) = (#(#a),*); #(#st)* }),
                        _ => parse_quote!({ let (#(#ps),*) = (#(#a),*); #(#st)* }),
                    };
                }
            }
        }
    }
}

// ---------------------------------------------------------------- main rewriting
pub struct Rw<'a> {
    pub o: &'a Opts,
    pub low: Low,
    pub lits: &'a mut BTreeMap<String, String>,
    pub notes: BTreeSet<String>,
    pub err: Option<String>,
    /// constant ranges of the function, put where they are used
    pub ranges: BTreeMap<String, ExprRange>,
}

pub fn lit_fn(lits: &mut BTreeMap<String, String>, digits: &str) -> String {
    let d = digits.replace('_', "");
    let name: String = format!(
        "rl_{}",
        d.chars()
            .map(|c| match c {
                '.' => 'p',
                '-' => 'm',
                '+' => 'q',
                c => c,
            })
            .collect::<String>()
    );
    lits.insert(name.clone(), real_text(&d));
    name
}
/// decimal float text -> a real expression
pub fn real_text(d: &str) -> String {
    let (m, e) = match d.find(['e', 'E']) {
        Some(i) => (d[..i].to_string(), d[i + 1..].parse::<i32>().unwrap_or(0)),
        None => (d.to_string(), 0),
    };
    let (ip, fp) = match m.find('.') {
        Some(i) => (m[..i].to_string(), m[i + 1..].to_string()),
        None => (m.clone(), String::new()),
    };
    let digits = format!("{}{}", ip, fp);
    let digits = digits.trim_start_matches('0').to_string();
    let digits = if digits.is_empty() { "0".to_string() } else { digits };
    let exp = e - fp.len() as i32;
    // strip trailing zeros
    let (mut digits, mut exp) = (digits, exp);
    while exp < 0 && digits.ends_with('0') && digits.len() > 1 {
        digits.pop();
        exp += 1;
    }
    if digits == "0" {
        return "0real".into();
    }
    if exp >= 0 {
        format!("{}{}real", digits, "0".repeat(exp as usize))
    } else {
        format!("({}real / 1{}real)", digits, "0".repeat((-exp) as usize))
    }
}

fn is_float_ty(t: &Type) -> bool {
    if let Type::Path(p) = t {
        if let Some(s) = p.path.segments.last() {
            let s = s.ident.to_string();
            return s == "Float" || s == "f64" || s == "f32";
        }
    }
    false
}

impl<'a> Rw<'a> {
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        if let Some((ps, body)) = self.o.macros.get(&name).cloned() {
            let a: Vec<Expr> = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?.into_iter().collect();
            let rep = ps.len() == 1 && ps[0].starts_with('*');
            if a.len() != ps.len() && !rep || a.is_empty() && rep {
                return None;
            }
            let ts = macro_subst(body, &ps, &a);
            let mut e: Expr = syn::parse2(ts).ok()?;
            self.notes.insert(format!("{}!() expanded from its definition", name));
            self.visit_expr_mut(&mut e);
            return Some(e);
        }
        let args = || -> Option<Vec<Expr>> {
            m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                .ok()
                .map(|p| p.into_iter().collect())
        };
        match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.notes.insert(format!("{}!() -> obligation `unreachable` (message dropped)", name));
                if self.o.panics_ok {
                    Some(parse_quote!(vp_abort()))
                } else {
                    Some(parse_quote!(vp_panic()))
                }
            }
            "format" => {
                self.notes.insert("format!() text -> opaque String".into());
                Some(parse_quote!(vp_string()))
            }
            "assert" => {
                let a = args()?;
                let mut c = a[0].clone();
                self.visit_expr_mut(&mut c);
                self.notes.insert("assert!(c) -> obligation c".into());
                Some(parse_quote!(vp_assert(#c)))
            }
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" | "println" | "eprintln" | "print" | "eprint" | "dbg" => {
                self.notes.insert(format!("{}! dropped", name));
                Some(parse_quote!(()))
            }
            "vec" => {
                if let Ok(r) = syn::parse2::<ExprRepeat>({
                    let t = &m.tokens;
                    quote!([#t])
                }) {
                    let (mut x, mut n) = ((*r.expr).clone(), (*r.len).clone());
                    self.visit_expr_mut(&mut x);
                    self.visit_expr_mut(&mut n);
                    Some(parse_quote!(vp_vec_elem(#x, #n)))
                } else {
                    let mut a = args()?;
                    for x in a.iter_mut() {
                        self.visit_expr_mut(x);
                    }
                    if a.is_empty() {
                        Some(parse_quote!(Vec::new()))
                    } else {
                        Some(parse_quote!(vp_vec_of([#(#a),*])))
                    }
                }
            }
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e: Expr = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>();
                        Ok(M(e, p, g))
                    }
                }
                let M(mut e, p, g) = m.parse_body::<M>().ok()?;
                self.visit_expr_mut(&mut e);
                Some(match g {
                    Some(mut g) => {
                        self.visit_expr_mut(&mut g);
                        parse_quote!(match #e { #p if #g => true, _ => false })
                    }
                    None => parse_quote!(match #e { #p => true, _ => false }),
                })
            }
            "assert_eq" => {
                let a = args()?;
                let (mut x, mut y) = (a[0].clone(), a[1].clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut y);
                Some(parse_quote!(vp_assert(#x == #y)))
            }
            _ => None,
        }
    }
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if is_float_ty(t) {
            *t = parse_quote!(R);
            return;
        }
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                let n = p.path.segments[0].ident.to_string();
                if let Some(x) = self.o.mono.get(&n) {
                    let id = format_ident!("{}", x);
                    *t = parse_quote!(#id);
                    return;
                }
            }
            // crate::a::B -> B
            if p.qself.is_none() && p.path.segments.len() > 1 {
                let first = p.path.segments[0].ident.to_string();
                if first != "Self" {
                    let last = p.path.segments.last().unwrap().clone();
                    p.path.leading_colon = None;
                    p.path.segments = std::iter::once(last).collect();
                }
            }
            if let Some(s) = p.path.segments.last_mut() {
                if self.o.strip_generics.contains(&s.ident.to_string()) {
                    s.arguments = PathArguments::None;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // consts inside a function become lets at its start
        let mut st: Vec<Stmt> = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Item(Item::Const(c)) if matches!(&*c.expr, Expr::Range(_)) => {
                    if let Expr::Range(r) = &*c.expr {
                        self.ranges.insert(c.ident.to_string(), r.clone());
                    }
                }
                // a whole number may be the length of an array: it stays a const
                Stmt::Item(Item::Const(c)) if matches!(&*c.expr, Expr::Lit(l) if matches!(l.lit, Lit::Int(_))) && !matches!(&*c.ty, Type::Path(p) if p.path.is_ident("Float")) => {
                    st.push(Stmt::Item(Item::Const(c)));
                }
                Stmt::Item(Item::Const(c)) => {
                    let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                    st.push(parse_quote!(let #id: #ty = #e;));
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Macro(m) => {
                    let semi = m.semi_token;
                    match self.mac(&m.mac) {
                        Some(e) => {
                            if e.to_token_stream().to_string() == "()" {
                                continue;
                            }
                            if semi.is_some() && e.to_token_stream().to_string() == "vp_panic ()" {
                                st.push(parse_quote!(vp_panic::<()>();));
                            } else {
                                st.push(Stmt::Expr(e, semi))
                            }
                        }
                        None => {
                            self.err = Some(format!("macro {}", m.mac.path.to_token_stream()));
                        }
                    }
                }
                s => st.push(s),
            }
        }
        b.stmts = st;
        visit_mut::visit_block_mut(self, b);
        // drop `()` statements and calls that only report
        b.stmts.retain(|s| match s {
            Stmt::Expr(Expr::Tuple(t), _) => !t.elems.is_empty(),
            _ => true,
        });
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        // a::b::Enum::Variant -> Enum::Variant
        let path = match p { Pat::TupleStruct(x) => Some(&mut x.path), Pat::Path(x) => Some(&mut x.path), Pat::Struct(x) => Some(&mut x.path), _ => None };
        if let Some(path) = path {
            let k: Vec<PathSegment> = path.segments.iter().cloned().collect();
            if k.len() > 2 && k[k.len() - 2].ident.to_string().chars().next().map_or(false, |c| c.is_uppercase()) {
                path.segments = k[k.len() - 2..].iter().cloned().collect();
            }
        }
        if let Pat::Type(t) = p {
            let _ = t;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order: iterator chains and closures are handled on the raw form of their parts
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if matches!(name.as_str(), "for_each" | "collect" | "count" | "fold" | "sum" | "any" | "all" | "binary_search_by" | "position") {
                if let Some(x) = self.low.consumer(m) {
                    self.notes.insert(if name == "binary_search_by" { "binary_search_by -> the linear search std documents it to agree with on sorted data".to_string() } else { format!("iterator .{}() -> index loop", name) });
                    *e = x;
                    return self.visit_expr_mut(e);
                }
            }
            if name == "copy_from_slice" && m.args.len() == 1 {
                // dst[a..b].copy_from_slice(&src[c..d])
                fn rng(e: &Expr) -> Option<(Expr, Expr, Expr)> {
                    let e = match strip(e) {
                        Expr::Reference(r) => strip(&r.expr),
                        x => x,
                    };
                    if let Expr::Index(i) = e {
                        if let Expr::Range(r) = strip(&i.index) {
                            if let (RangeLimits::HalfOpen(_), v) = (&r.limits, &i.expr) {
                                let lo: Expr = r.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                                let hi: Expr = r.end.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!((#v).len()));
                                return Some(((*i.expr).clone(), lo, hi));
                            }
                        }
                    }
                    None
                }
                let dst = m.receiver.clone();
                let src = m.args[0].clone();
                fn whole(e: &Expr, dst: bool) -> (Expr, Expr, Expr) {
                    let v: Expr = match strip(e) {
                        Expr::Reference(r) => (*r.expr).clone(),
                        Expr::MethodCall(x) if dst && x.method == "as_mut_slice" => (*x.receiver).clone(),
                        x => x.clone(),
                    };
                    let l: Expr = parse_quote!((#v).len());
                    (v, parse_quote!(0), l)
                }
                let (dr, sr) = (rng(&dst).unwrap_or_else(|| whole(&dst, true)), rng(&src).unwrap_or_else(|| whole(&src, false)));
                {
                    let ((d, a, b), (s, c, f)) = (dr, sr);
                    self.notes.insert("dst[a..b].copy_from_slice(&src[c..d]) -> vp_copy_range (std contract)".into());
                    *e = parse_quote!((#d).vp_copy_range(#a, #b, (#s).vp_slice(), #c, #f));
                    return self.visit_expr_mut(e);
                }
            }
            if name == "contains" && m.args.len() == 1 {
                let named = match strip(&m.receiver) {
                    Expr::Path(p) if p.path.segments.len() == 1 => self.ranges.get(&p.path.segments[0].ident.to_string()).cloned(),
                    _ => None,
                };
                let recv = named.map(Expr::Range).unwrap_or_else(|| (*m.receiver).clone());
                if let Expr::Range(r) = strip(&recv) {
                    if let (Some(lo), Some(hi)) = (&r.start, &r.end) {
                        let x: Expr = match &m.args[0] {
                            Expr::Reference(r) => (*r.expr).clone(),
                            o => parse_quote!(*#o),
                        };
                        *e = if matches!(r.limits, RangeLimits::Closed(_)) {
                            parse_quote!((#x >= #lo && #x <= #hi))
                        } else {
                            parse_quote!((#x >= #lo && #x < #hi))
                        };
                        return self.visit_expr_mut(e);
                    }
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            // inner loops first (their `continue`s are theirs)
            let mut f2 = f.clone();
            struct Inner<'b, 'c>(&'b mut Rw<'c>);
            impl<'b, 'c> VisitMut for Inner<'b, 'c> {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    if let Expr::ForLoop(_) = e {
                        let Expr::ForLoop(f) = e.clone() else { return };
                        let mut f = f;
                        self.visit_block_mut(&mut f.body);
                        match self.0.low.for_loop(&f) {
                            Some(x) => *e = x,
                            None => {
                                self.0.err = Some(format!("for loop over {}", f.expr.to_token_stream()));
                            }
                        }
                    } else {
                        visit_mut::visit_expr_mut(self, e);
                    }
                }
            }
            Inner(self).visit_block_mut(&mut f2.body);
            match self.low.for_loop(&f2) {
                Some(x) => {
                    self.notes.insert("for loop -> while loop with explicit counter".into());
                    *e = x
                }
                None => {
                    self.err = Some(format!("for loop over {}", f2.expr.to_token_stream()));
                    return;
                }
            }
            return self.visit_expr_mut(e);
        }
        if let Expr::Macro(m) = e {
            match self.mac(&m.mac) {
                Some(x) => *e = x,
                None => self.err = Some(format!("macro {}", m.mac.path.to_token_stream())),
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        // &x[a..b] -> vp_sub (std's contract of a subslice)
        if let Expr::Reference(r) = e {
            if let (None, Expr::Index(i)) = (&r.mutability, strip(&r.expr)) {
                if let Expr::Range(g) = strip(&i.index) {
                    let v = &i.expr;
                    let lo: Expr = g.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                    let hi: Expr = match (&g.end, &g.limits) {
                        (Some(x), RangeLimits::HalfOpen(_)) => (**x).clone(),
                        (Some(x), RangeLimits::Closed(_)) => parse_quote!((#x) + 1),
                        (None, _) => parse_quote!((#v).len()),
                    };
                    self.notes.insert("&x[a..b] -> vp_sub (std contract)".into());
                    *e = parse_quote!(vp_sub((#v).vp_slice(), #lo, #hi));
                    return;
                }
            }
        }
        match e {
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => {
                let n = lit_fn(self.lits, f.base10_digits());
                let id = format_ident!("{}", n);
                *e = parse_quote!(#id());
            }
            Expr::Cast(c) => {
                if c.ty.to_token_stream().to_string() == "R" {
                    let x = &c.expr;
                    // int literal -> exact real
                    if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = strip(x) {
                        let n = lit_fn(self.lits, i.base10_digits());
                        let id = format_ident!("{}", n);
                        *e = parse_quote!(#id());
                    } else {
                        *e = parse_quote!((#x).to_r());
                    }
                    self.notes.insert("`as Float` -> exact conversion to a real".into());
                } else if self.o.castr {
                    let x = &c.expr;
                    let m = format_ident!("as_{}", c.ty.to_token_stream().to_string());
                    *e = parse_quote!((#x).#m());
                }
            }
            Expr::Path(p) => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let full = segs.join("::");
                if let Some(x) = self.o.map.get(&full) {
                    *e = syn::parse_str(x).expect("map");
                } else if segs.len() >= 2 && segs[segs.len() - 2] == "consts" && segs[segs.len() - 1] == "PI" {
                    *e = parse_quote!(r_pi());
                } else if segs.len() >= 2 && (segs[segs.len() - 2] == "Float" || segs[segs.len() - 2] == "f64") {
                    let id = format_ident!("{}", segs[segs.len() - 1]);
                    if segs[segs.len() - 1].chars().all(|c| c.is_uppercase() || c == '_') {
                        *e = parse_quote!(R::#id());
                    } else {
                        *e = parse_quote!(R::#id);
                    }
                } else if segs.len() > 2 {
                    // crate::x::f / std::mem::swap -> last two segments at most
                    if segs[0] == "crate" {
                        let k: Vec<PathSegment> = p.path.segments.iter().cloned().collect();
                        let up = segs[segs.len() - 2].chars().next().map_or(false, |c| c.is_uppercase());
                        let keep = if up { 2 } else { 1 };
                        p.path.segments = k[k.len() - keep..].iter().cloned().collect();
                    }
                } else if segs.len() == 2 && segs[0] == "crate" {
                    let last = p.path.segments.last().unwrap().clone();
                    p.path.segments = std::iter::once(last).collect();
                    return self.visit_expr_mut(e);
                }
                if let Expr::Path(p) = e {
                    for s in p.path.segments.iter_mut() {
                        if self.o.strip_generics.contains(&s.ident.to_string()) {
                            s.arguments = PathArguments::None;
                        }
                    }
                    if p.path.segments.len() == 2 {
                        let n = p.path.segments[0].ident.to_string();
                        if let Some(x) = self.o.mono.get(&n) {
                            p.path.segments[0].ident = format_ident!("{}", x);
                        }
                    }
                }
            }
            Expr::Binary(b) if !self.o.noassign => {
                let op: Option<BinOp> = match b.op {
                    BinOp::AddAssign(_) => Some(BinOp::Add(Default::default())),
                    BinOp::SubAssign(_) => Some(BinOp::Sub(Default::default())),
                    BinOp::MulAssign(_) => Some(BinOp::Mul(Default::default())),
                    BinOp::DivAssign(_) => Some(BinOp::Div(Default::default())),
                    BinOp::RemAssign(_) => Some(BinOp::Rem(Default::default())),
                    _ => None,
                };
                if let (Some(_), Expr::Unary(u)) = (&op, strip(&b.left)) {
                    if let (UnOp::Deref(_), Expr::Path(p)) = (&u.op, strip(&u.expr)) {
                        let n = p.path.segments.last().unwrap().ident.to_string();
                        if self.o.assignfn.contains(&n) {
                            let id = format_ident!("vp_{}", match b.op { BinOp::AddAssign(_) => "add_assign", BinOp::SubAssign(_) => "sub_assign", BinOp::MulAssign(_) => "mul_assign", BinOp::DivAssign(_) => "div_assign", _ => "rem_assign" });
                            let (l, r) = (&u.expr, &b.right);
                            *e = parse_quote!((#l).#id(#r));
                            return;
                        }
                    }
                }
                if let (Some(_), Expr::Field(f)) = (&op, strip(&b.left)) {
                    if let syn::Member::Named(n) = &f.member {
                        if self.o.assignfn.contains(&n.to_string()) {
                            let id = format_ident!("vp_{}", match b.op { BinOp::AddAssign(_) => "add_assign", BinOp::SubAssign(_) => "sub_assign", BinOp::MulAssign(_) => "mul_assign", BinOp::DivAssign(_) => "div_assign", _ => "rem_assign" });
                            let (l, r) = (&b.left, &b.right);
                            *e = parse_quote!((#l).#id(#r));
                            return;
                        }
                    }
                }
                if let Some(op) = op {
                    let (l, r) = (&b.left, &b.right);
                    self.notes.insert("`a op= b` -> `a = a op b`".into());
                    *e = parse_quote!(#l = #l #op (#r));
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "powi" => {
                        if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = strip(&m.args[0]) {
                            if ["2", "3", "4"].contains(&i.base10_digits()) {
                                let r = &m.receiver;
                                let id = format_ident!("powi{}", i.base10_digits());
                                *e = parse_quote!((#r).#id());
                            }
                        }
                    }
                    "fill" if m.args.len() == 1 => {
                        m.method = format_ident!("vp_fill");
                        self.notes.insert("slice::fill -> vp_fill (std contract)".into());
                    }
                    "ok_or" | "ok_or_else" => {
                        let r = &m.receiver;
                        *e = parse_quote!(vp_ok_or(#r));
                        self.notes.insert("error texts -> opaque String".into());
                    }
                    "map_err" => {
                        let r = &m.receiver;
                        *e = parse_quote!(vp_map_err(#r));
                        self.notes.insert("error texts -> opaque String".into());
                    }
                    "expect" | "unwrap" => {
                        let r = m.receiver.clone();
                        if let Expr::MethodCall(x) = strip(&r) {
                            let v = &x.receiver;
                            if x.method == "last" && x.args.is_empty() {
                                *e = parse_quote!(&(#v)[(#v).len() - 1]);
                                return;
                            }
                            if x.method == "first" && x.args.is_empty() {
                                *e = parse_quote!(&(#v)[0]);
                                return;
                            }
                        }
                        *e = parse_quote!((#r).unwrap());
                    }
                    "to_string" | "into" | "to_owned" | "to_vec" | "as_str" => {
                        if let Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) = strip(&m.receiver) {
                            *e = parse_quote!(vp_string());
                        } else if name == "to_owned" || name == "to_vec" {
                            let r = m.receiver.clone();
                            *e = parse_quote!((#r).vp_to_vec());
                        }
                    }
                    _ => {}
                }
            }
            Expr::Call(c) => {
                // Err("text") -> Err(vp_string())
                if let Expr::Path(p) = &*c.func {
                    if p.path.is_ident("Err") && c.args.len() == 1 {
                        if let Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) = &c.args[0] {
                            *e = parse_quote!(Err(vp_string()));
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

/// `$x` -> (argument)
pub fn macro_subst(ts: TokenStream, ps: &[String], a: &[Expr]) -> TokenStream {
    let mut out = TokenStream::new();
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        // $( $e , )*
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g)), Some(q)) = (&v[i], v.get(i + 1), v.get(i + 2)) {
            if p.as_char() == '$' && ps.len() == 1 && ps[0].starts_with('*') {
                if g.stream().to_string().replace(' ', "") == format!("${},", &ps[0][1..]) && q.to_string() == "*" {
                    out.extend(quote!(#(#a,)*));
                    i += 3;
                    continue;
                }
            }
        }
        if let (TokenTree::Punct(p), Some(TokenTree::Ident(id))) = (&v[i], v.get(i + 1)) {
            if p.as_char() == '$' {
                if let Some(k) = ps.iter().position(|x| *id == x.as_str()) {
                    let e = &a[k];
                    out.extend(quote!((#e)));
                    i += 2;
                    continue;
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => out.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), macro_subst(g.stream(), ps, a)))]),
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

/// uses of `x` bound by `let x = __vpchunk(place, off, len)`: x[i] -> place[off + i], x.len() -> len
pub struct ChunkSub {
    pub err: Option<String>,
}
impl VisitMut for ChunkSub {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut hit = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Call(c) = strip(&init.expr) {
                        if c.func.to_token_stream().to_string() == "__vpchunk" {
                            hit = Some((pi.ident.clone(), c.args[0].clone(), c.args[1].clone(), c.args[2].clone()));
                        }
                    }
                }
            }
            if let Some((id, place, off, len)) = hit {
                b.stmts.remove(i);
                let mut s = ChunkUse { id: id.to_string(), place, off, len, bad: 0 };
                for st in b.stmts[i..].iter_mut() {
                    s.visit_stmt_mut(st);
                }
                if s.bad > 0 {
                    self.err = Some(format!("use of chunk {}", id));
                }
                continue;
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
struct ChunkUse {
    id: String,
    place: Expr,
    off: Expr,
    len: Expr,
    bad: usize,
}
impl ChunkUse {
    fn is(&self, e: &Expr) -> bool {
        matches!(strip(e), Expr::Path(p) if p.path.is_ident(&self.id))
    }
}
impl VisitMut for ChunkUse {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Index(x) if self.is(&x.expr) => {
                self.visit_expr_mut(&mut x.index);
                let (p, o, k) = (&self.place, &self.off, &x.index);
                *e = parse_quote!((#p)[#o + #k]);
            }
            Expr::MethodCall(m) if self.is(&m.receiver) && m.method == "len" => {
                let l = &self.len;
                *e = parse_quote!((#l));
            }
            Expr::Path(p) if p.path.is_ident(&self.id) => self.bad += 1,
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// `let it = <iterator>;` used once in what follows: the use is replaced by the iterator
pub struct IterLet {
    pub done: Vec<String>,
}
fn iter_init(e: &Expr) -> Option<Expr> {
    if let Expr::MethodCall(m) = strip(e) {
        if m.method == "collect" {
            return None;
        }
        if crate::iter::parse(e).is_some() {
            return Some(e.clone());
        }
    }
    None
}
fn binds<T: ToTokens>(p: &T, id: &str) -> bool {
    p.to_token_stream().to_string().split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == id)
}
struct CountId(String, usize);
impl<'a> syn::visit::Visit<'a> for CountId {
    fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) {
        self.visit_expr(&f.expr);
        if !binds(&f.pat, &self.0) {
            self.visit_block(&f.body);
        }
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        if !c.inputs.iter().any(|p| binds(p, &self.0)) {
            self.visit_expr(&c.body);
        }
    }
    fn visit_block(&mut self, b: &'a Block) {
        for s in &b.stmts {
            self.visit_stmt(s);
            if matches!(s, Stmt::Local(l) if binds(&l.pat, &self.0)) {
                break;
            }
        }
    }
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if p.path.is_ident(&self.0) {
            self.1 += 1;
        }
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if m.tokens.to_string().split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == self.0) {
            self.1 += 100;
        }
    }
}
struct SubId(String, Expr);
impl VisitMut for SubId {
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        self.visit_expr_mut(&mut f.expr);
        if !binds(&f.pat, &self.0) {
            self.visit_block_mut(&mut f.body);
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        if !c.inputs.iter().any(|p| binds(p, &self.0)) {
            self.visit_expr_mut(&mut c.body);
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            self.visit_stmt_mut(s);
            if matches!(s, Stmt::Local(l) if binds(&l.pat, &self.0)) {
                break;
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Path(p) if p.path.is_ident(&self.0)) {
            let x = &self.1;
            *e = parse_quote!((#x));
        } else {
            visit_mut::visit_expr_mut(self, e);
        }
    }
}
impl VisitMut for IterLet {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut hit = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                let (pat, ty) = match &l.pat {
                    Pat::Type(t) => (&*t.pat, t.ty.to_token_stream().to_string().replace(' ', "")),
                    p => (p, String::new()),
                };
                if let (Pat::Ident(pi), Some(init)) = (pat, &l.init) {
                    if let Some(x) = iter_init(&init.expr) {
                        hit = Some((pi.ident.to_string(), x));
                    } else if ty.starts_with("Vec<&[") {
                        // a vector of borrowed chunks is only another view of the same data
                        if let Expr::MethodCall(m) = strip(&init.expr) {
                            if m.method == "collect" && crate::iter::parse(&m.receiver).is_some() {
                                hit = Some((pi.ident.to_string(), (*m.receiver).clone()));
                            }
                        }
                    }
                }
            }
            if let Some((id, x)) = hit {
                // scope: up to and including the init of a shadowing let
                let mut end = b.stmts.len();
                for j in i + 1..b.stmts.len() {
                    if let Stmt::Local(l) = &b.stmts[j] {
                        let p = match &l.pat {
                            Pat::Type(t) => &*t.pat,
                            p => p,
                        };
                        if matches!(p, Pat::Ident(q) if q.ident == id) {
                            end = j + 1;
                            break;
                        }
                    }
                }
                let mut c = CountId(id.clone(), 0);
                for s in &b.stmts[i + 1..end] {
                    syn::visit::Visit::visit_stmt(&mut c, s);
                }
                if c.1 == 1 {
                    let mut s = SubId(id.clone(), x);
                    for st in b.stmts[i + 1..end].iter_mut() {
                        s.visit_stmt_mut(st);
                    }
                    b.stmts.remove(i);
                    self.done.push(format!("iterator {}", id));
                    continue;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}

/// renames identifiers (locals) in a body
pub fn rename(ts: TokenStream, m: &BTreeMap<String, String>) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) => match m.get(&i.to_string()) {
                Some(x) => TokenTree::Ident(proc_macro2::Ident::new(x, i.span())),
                None => TokenTree::Ident(i),
            },
            TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), rename(g.stream(), m))),
            t => t,
        })
        .collect()
}

pub fn print_tokens(ts: TokenStream, out: &mut String) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                out.push_str(&i.to_string());
                out.push(' ');
            }
            TokenTree::Literal(l) => {
                out.push_str(&l.to_string());
                out.push(' ');
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.as_char() == ';' {
                    out.push('\n');
                } else if p.spacing() == Spacing::Alone {
                    out.push(' ');
                }
            }
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Brace => ("{\n", "}\n"),
                    Delimiter::Parenthesis => ("(", ") "),
                    Delimiter::Bracket => ("[", "] "),
                    Delimiter::None => ("", ""),
                };
                out.push_str(a);
                print_tokens(g.stream(), out);
                out.push_str(b);
            }
        }
    }
}
