//! Lowering of iterator chains to index loops.
use quote::{format_ident, quote};
use syn::*;

pub enum It {
    Slice { place: Expr, mutable: bool },
    Range { lo: Expr, hi: Expr, incl: bool },
    Enumerate(Box<It>),
    Zip(Box<It>, Box<It>),
    Skip(Box<It>, Expr),
    Take(Box<It>, Expr),
    Rev(Box<It>),
    Copied(Box<It>),
    Map(Box<It>, ExprClosure),
    StepBy(Box<It>, Expr),
    Chunks { place: Expr, size: Expr, mutable: bool },
}

pub fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

fn is_place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Index(i) => is_place(&i.expr) && is_place_or_lit(&i.index),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr),
        Expr::Reference(r) => is_place(&r.expr),
        _ => false,
    }
}
fn is_place_or_lit(e: &Expr) -> bool {
    matches!(strip(e), Expr::Lit(_)) || is_place(e)
}

pub fn parse(e: &Expr) -> Option<It> {
    match strip(e) {
        Expr::Range(r) => {
            let lo = r.start.as_ref()?;
            let hi = r.end.as_ref()?;
            Some(It::Range {
                lo: (**lo).clone(),
                hi: (**hi).clone(),
                incl: matches!(r.limits, RangeLimits::Closed(_)),
            })
        }
        Expr::Reference(r) => {
            if is_place(&r.expr) {
                Some(It::Slice { place: (*r.expr).clone(), mutable: r.mutability.is_some() })
            } else {
                None
            }
        }
        Expr::Call(c) if c.args.len() == 2 => {
            // std::iter::zip(a, b)
            if let Expr::Path(p) = &*c.func {
                let n = p.path.segments.len();
                if n >= 2 && p.path.segments[n - 1].ident == "zip" && p.path.segments[n - 2].ident == "iter" {
                    return Some(It::Zip(Box::new(parse(&c.args[0])?), Box::new(parse(&c.args[1])?)));
                }
            }
            None
        }
        Expr::MethodCall(m) => {
            let name = m.method.to_string();
            let args: Vec<&Expr> = m.args.iter().collect();
            match (name.as_str(), args.len()) {
                ("iter", 0) | ("iter_mut", 0) => {
                    if is_place(&m.receiver) {
                        let place = match strip(&m.receiver) {
                            Expr::Reference(r) => (*r.expr).clone(),
                            o => o.clone(),
                        };
                        Some(It::Slice { place, mutable: name == "iter_mut" })
                    } else {
                        None
                    }
                }
                ("chunks_exact", 1) | ("chunks_exact_mut", 1) if is_place(&m.receiver) => Some(It::Chunks { place: (*m.receiver).clone(), size: args[0].clone(), mutable: name == "chunks_exact_mut" }),
                ("step_by", 1) => Some(It::StepBy(Box::new(parse(&m.receiver)?), args[0].clone())),
                ("into_iter", 0) => parse(&m.receiver),
                ("enumerate", 0) => Some(It::Enumerate(Box::new(parse(&m.receiver)?))),
                ("rev", 0) => Some(It::Rev(Box::new(parse(&m.receiver)?))),
                ("copied", 0) | ("cloned", 0) => Some(It::Copied(Box::new(parse(&m.receiver)?))),
                ("skip", 1) => Some(It::Skip(Box::new(parse(&m.receiver)?), args[0].clone())),
                ("take", 1) => Some(It::Take(Box::new(parse(&m.receiver)?), args[0].clone())),
                ("zip", 1) => {
                    let a = parse(&m.receiver)?;
                    let b = match parse(args[0]) {
                        Some(b) => b,
                        // a reference to a slice or vector (an owned one does not type-check after the rewriting)
                        None if matches!(strip(args[0]), Expr::Path(p) if p.path.get_ident().is_some()) => It::Slice { place: strip(args[0]).clone(), mutable: false },
                        None => return None,
                    };
                    Some(It::Zip(Box::new(a), Box::new(b)))
                }
                ("map", 1) => {
                    if let Expr::Closure(c) = strip(args[0]) {
                        Some(It::Map(Box::new(parse(&m.receiver)?), c.clone()))
                    } else {
                        None
                    }
                }
                _ => None,
            }
        }
        _ => None,
    }
}

impl It {
    pub fn len(&self) -> Expr {
        match self {
            It::Slice { place, .. } => parse_quote!((#place).len()),
            It::Range { lo, hi, incl } => {
                if *incl {
                    parse_quote!(vp_range_len(#lo, (#hi) + 1))
                } else {
                    parse_quote!(vp_range_len(#lo, #hi))
                }
            }
            It::Enumerate(i) | It::Rev(i) | It::Copied(i) | It::Map(i, _) => i.len(),
            It::Zip(a, b) => {
                let (a, b) = (a.len(), b.len());
                parse_quote!(vp_min(#a, #b))
            }
            It::Skip(i, n) => {
                let l = i.len();
                parse_quote!(vp_range_len(#n, #l))
            }
            It::Take(i, n) => {
                let l = i.len();
                parse_quote!(vp_min(#l, #n))
            }
            It::StepBy(i, s) => {
                let l = i.len();
                parse_quote!(vp_steps(#l, #s))
            }
            It::Chunks { place, size, .. } => parse_quote!(vp_chunks((#place).len(), #size)),
        }
    }
    /// the item at position k; statements needed before it go to `pre`
    pub fn item(&self, k: &Expr, pre: &mut Vec<Stmt>, n: &mut usize) -> Expr {
        match self {
            It::Slice { place, mutable } => {
                if *mutable {
                    parse_quote!(&mut (#place)[#k])
                } else {
                    parse_quote!(&(#place)[#k])
                }
            }
            It::Range { lo, .. } => match strip(lo) {
                Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.base10_digits() == "0" => k.clone(),
                _ => parse_quote!((#lo + #k)),
            },
            It::Enumerate(i) => {
                let x = i.item(k, pre, n);
                parse_quote!((#k, #x))
            }
            It::Zip(a, b) => {
                let x = a.item(k, pre, n);
                let y = b.item(k, pre, n);
                parse_quote!((#x, #y))
            }
            It::Skip(i, s) => {
                let kk: Expr = parse_quote!((#k + #s));
                i.item(&kk, pre, n)
            }
            It::Take(i, _) => i.item(k, pre, n),
            It::StepBy(i, s) => {
                let kk: Expr = parse_quote!((#k * #s));
                i.item(&kk, pre, n)
            }
            It::Chunks { place, size, mutable } => {
                let _ = mutable;
                *n += 1;
                let id = format_ident!("__vpoff{}", *n);
                pre.push(parse_quote!(let #id: usize = #k * #size;));
                parse_quote!(__vpchunk(#place, #id, #size))
            }
            It::Rev(i) => {
                let l = i.len();
                let kk: Expr = parse_quote!((#l - 1 - #k));
                i.item(&kk, pre, n)
            }
            It::Copied(i) => {
                let x = i.item(k, pre, n);
                match &x {
                    Expr::Reference(r) => (*r.expr).clone(),
                    _ => parse_quote!(*(#x)),
                }
            }
            It::Map(i, c) => {
                let x = i.item(k, pre, n);
                *n += 1;
                let id = format_ident!("__vpm{}", *n);
                let body = &c.body;
                let mut st = bind(&c.inputs[0], x);
                pre.append(&mut st);
                pre.push(parse_quote!(let #id = #body;));
                parse_quote!(#id)
            }
        }
    }
}

/// `let pat = e;` with `&p` patterns turned into dereferences and type ascriptions kept
pub fn bind(p: &Pat, e: Expr) -> Vec<Stmt> {
    match p {
        Pat::Wild(_) => vec![],
        Pat::Type(t) => bind(&t.pat, e),
        Pat::Reference(r) => {
            let e2: Expr = match &e {
                Expr::Reference(r) => (*r.expr).clone(),
                _ => parse_quote!(*(#e)),
            };
            bind(&r.pat, e2)
        }
        Pat::Tuple(t) => {
            if let Expr::Tuple(et) = &e {
                if et.elems.len() == t.elems.len() {
                    let mut v = vec![];
                    for (a, b) in t.elems.iter().zip(et.elems.iter()) {
                        v.append(&mut bind(a, b.clone()));
                    }
                    return v;
                }
            }
            vec![parse_quote!(let #p = #e;)]
        }
        _ => vec![parse_quote!(let #p = #e;)],
    }
}

#[derive(Default)]
pub struct Low {
    pub n: usize,
    /// element type of collected vectors, where inference needs it
    pub elem: Option<Type>,
    /// parameters that are references: `for x in p` gives references
    pub refs: Vec<String>,
}
impl Low {
    fn loop_of(&mut self, it: &It, mut body: impl FnMut(Expr, &mut Vec<Stmt>)) -> Vec<Stmt> {
        self.n += 1;
        let k = format_ident!("__vpk{}", self.n);
        let nn = format_ident!("__vpn{}", self.n);
        let ke: Expr = parse_quote!(#k);
        let mut stm: Vec<Stmt> = vec![];
        let mut c = self.n * 100;
        let item = it.item(&ke, &mut stm, &mut c);
        body(item, &mut stm);
        // `continue` in the original body must still advance the counter
        let mut blk: Block = parse_quote!({ #(#stm)* });
        fix_continue(&mut blk, &k);
        let stm = blk.stmts;
        let len = it.len();
        let (a, b, w): (Stmt, Stmt, Stmt) = (
            parse_quote!(let #nn: usize = #len;),
            parse_quote!(let mut #k: usize = 0;),
            parse_quote!(while #k < #nn { #(#stm)* #k = #k + 1; }),
        );
        vec![a, b, w]
    }
    pub fn for_loop(&mut self, f: &ExprForLoop) -> Option<Expr> {
        // plain ranges keep the type of their bounds
        if let Expr::Range(r) = strip(&f.expr) {
            let lo = r.start.as_ref()?;
            let hi = r.end.as_ref()?;
            self.n += 1;
            let k = format_ident!("__vpk{}", self.n);
            let nn = format_ident!("__vpn{}", self.n);
            let mut body = f.body.clone();
            fix_continue(&mut body, &k);
            let st = body.stmts;
            let b = bind(&f.pat, parse_quote!(#k));
            let hi: Expr = if matches!(r.limits, RangeLimits::Closed(_)) {
                parse_quote!(#hi + 1)
            } else {
                (**hi).clone()
            };
            return Some(parse_quote!({
                let #nn = #hi;
                let mut #k = #lo;
                while #k < #nn { #(#b)* #(#st)* #k = #k + 1; }
            }));
        }
        // `for x in value` over a vector made for the loop (of plain values)
        let owned = match &*f.expr { Expr::Try(t) if matches!(strip(&t.expr), Expr::MethodCall(_) | Expr::Call(_)) => true, Expr::Call(_) => true, _ => false };
        if owned {
            let w = format_ident!("__vpw{}", self.n + 1);
            let place: Expr = parse_quote!(#w);
            let body = f.body.stmts.clone();
            let pat = (*f.pat).clone();
            let st = self.loop_of(&It::Copied(Box::new(It::Slice { place, mutable: false })), |item, s| {
                s.append(&mut bind(&pat, item));
                s.extend(body.clone());
            });
            let e = &f.expr;
            return Some(parse_quote!({ let #w = #e; #(#st)* }));
        }
        let it = parse(&f.expr).or_else(|| {
            // `for x in v` over a place
            if is_place(&f.expr) {
                let s = It::Slice { place: (*f.expr).clone(), mutable: false };
                match &*f.expr {
                    Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.refs.contains(&i.to_string())) => Some(s),
                    _ => Some(It::Copied(Box::new(s))),
                }
            } else {
                None
            }
        })?;
        let body = f.body.stmts.clone();
        let pat = (*f.pat).clone();
        let st = self.loop_of(&it, |item, s| {
            s.append(&mut bind(&pat, item));
            s.extend(body.clone());
        });
        Some(parse_quote!({ #(#st)* }))
    }
    pub fn consumer(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        match name.as_str() {
            "for_each" => {
                let it = parse(&m.receiver)?;
                let c = closure(m.args.first()?)?;
                let st = self.loop_of(&it, |item, s| {
                    s.append(&mut bind(&c.inputs[0], item));
                    let b = &c.body;
                    match &**b {
                        Expr::Block(b) => s.extend(b.block.stmts.clone()),
                        b => s.push(parse_quote!(#b;)),
                    }
                });
                let st = fix_unit_tail(st);
                Some(parse_quote!({ #(#st)* }))
            }
            "collect" if matches!(strip(&m.receiver), Expr::MethodCall(f) if (f.method == "filter_map" || f.method == "filter") && f.args.len() == 1) => {
                let Expr::MethodCall(f) = strip(&m.receiver) else { return None };
                if let Some(t) = &m.turbofish {
                    let s = quote!(#t).to_string();
                    if s.contains("Result") || s.contains("Option") || s.contains("Map") || s.contains("String") {
                        return None;
                    }
                }
                let it = parse(&f.receiver)?;
                let c = closure(f.args.first()?)?;
                let map = f.method == "filter_map";
                self.n += 1;
                let v = format_ident!("__vpv{}", self.n);
                let vv = v.clone();
                let st = self.loop_of(&it, move |item, s| {
                    let b = &c.body;
                    if map {
                        s.append(&mut bind(&c.inputs[0], item));
                        s.push(parse_quote!(if let Some(__vpx) = #b { #vv.push(__vpx); }));
                    } else {
                        s.append(&mut bind(&c.inputs[0], parse_quote!(&(#item))));
                        s.push(parse_quote!(if #b { #vv.push(#item); }));
                    }
                });
                let t: Type = match &self.elem {
                    Some(t) => parse_quote!(Vec<#t>),
                    None => parse_quote!(Vec<_>),
                };
                Some(parse_quote!({ let mut #v: #t = Vec::new(); #(#st)* #v }))
            }
            "count" => {
                let (it, c) = match strip(&m.receiver) {
                    Expr::MethodCall(f) if f.method == "filter" && f.args.len() == 1 => (parse(&f.receiver)?, Some(closure(f.args.first()?)?)),
                    _ => (parse(&m.receiver)?, None),
                };
                self.n += 1;
                let acc = format_ident!("__vpa{}", self.n);
                let acc2 = acc.clone();
                let st = self.loop_of(&it, move |item, s| match &c {
                    Some(c) => {
                        s.append(&mut bind(&c.inputs[0], parse_quote!(&(#item))));
                        let b = &c.body;
                        s.push(parse_quote!(if #b { #acc2 = #acc2 + 1; }));
                    }
                    None => s.push(parse_quote!(#acc2 = #acc2 + 1;)),
                });
                Some(parse_quote!({ let mut #acc: usize = 0; #(#st)* #acc }))
            }
            "collect" => {
                let it = parse(&m.receiver)?;
                if let Some(t) = &m.turbofish {
                    let s = quote!(#t).to_string();
                    if s.contains("Result") || s.contains("Option") || s.contains("Map") || s.contains("String") {
                        return None;
                    }
                }
                self.n += 1;
                let v = format_ident!("__vpv{}", self.n);
                let vv = v.clone();
                let st = self.loop_of(&it, move |item, s| {
                    s.push(parse_quote!(#vv.push(#item);));
                });
                let t: Type = match &self.elem {
                    Some(t) => parse_quote!(Vec<#t>),
                    None => parse_quote!(Vec<_>),
                };
                Some(parse_quote!({ let mut #v: #t = Vec::new(); #(#st)* #v }))
            }
            "fold" => {
                let it = parse(&m.receiver)?;
                let init = &m.args[0];
                let c = closure(&m.args[1])?;
                self.n += 1;
                let acc = format_ident!("__vpa{}", self.n);
                let acc2 = acc.clone();
                let st = self.loop_of(&it, move |item, s| {
                    s.append(&mut bind(&c.inputs[0], parse_quote!(#acc2)));
                    s.append(&mut bind(&c.inputs[1], item));
                    let b = &c.body;
                    s.push(parse_quote!(#acc2 = #b;));
                });
                Some(parse_quote!({ let mut #acc = #init; #(#st)* #acc }))
            }
            "sum" => {
                let it = parse(&m.receiver)?;
                self.n += 1;
                let acc = format_ident!("__vpa{}", self.n);
                let acc2 = acc.clone();
                let st = self.loop_of(&it, move |item, s| {
                    s.push(parse_quote!(#acc2 = #acc2 + vp_deref(#item);));
                });
                Some(parse_quote!({ let mut #acc = vp_zero(); #(#st)* #acc }))
            }
            "binary_search_by" => {
                if !is_place(&m.receiver) {
                    return None;
                }
                let v = &m.receiver;
                let c = closure(m.args.first()?)?;
                self.n += 1;
                let k = format_ident!("__vpk{}", self.n);
                let nn = format_ident!("__vpn{}", self.n);
                let o = format_ident!("__vpo{}", self.n);
                let b1 = bind(&c.inputs[0], parse_quote!(&(#v)[#k]));
                let body = &c.body;
                Some(parse_quote!({
                    let mut #o: Option<usize> = None;
                    let #nn: usize = (#v).len();
                    let mut #k: usize = 0;
                    while #k < #nn {
                        #(#b1)*
                        match #body { Ordering::Less => {}, Ordering::Equal => { #o = Some(#k); break; }, Ordering::Greater => { break; } }
                        #k = #k + 1;
                    }
                    match #o { Some(__i) => Ok(__i), None => Err(#k) }
                }))
            }
            "position" => {
                let it = parse(&m.receiver)?;
                let c = closure(m.args.first()?)?;
                self.n += 1;
                let acc = format_ident!("__vpp{}", self.n);
                let acc2 = acc.clone();
                let kk = format_ident!("__vpk{}", self.n + 1);
                let st = self.loop_of(&it, move |item, s| {
                    s.append(&mut bind(&c.inputs[0], item));
                    let b = &c.body;
                    s.push(parse_quote!(if #b { #acc2 = Some(#kk); break; }));
                });
                Some(parse_quote!({ let mut #acc: Option<usize> = None; #(#st)* #acc }))
            }
            "any" | "all" => {
                let it = parse(&m.receiver)?;
                let c = closure(m.args.first()?)?;
                self.n += 1;
                let acc = format_ident!("__vpb{}", self.n);
                let acc2 = acc.clone();
                let any = name == "any";
                let st = self.loop_of(&it, move |item, s| {
                    s.append(&mut bind(&c.inputs[0], item));
                    let b = &c.body;
                    if any {
                        s.push(parse_quote!(if #b { #acc2 = true; }));
                    } else {
                        s.push(parse_quote!(if !(#b) { #acc2 = false; }));
                    }
                });
                let init: Expr = if any { parse_quote!(false) } else { parse_quote!(true) };
                Some(parse_quote!({ let mut #acc = #init; #(#st)* #acc }))
            }
            _ => None,
        }
    }
}

fn closure(e: &Expr) -> Option<ExprClosure> {
    match strip(e) {
        Expr::Closure(c) => Some(c.clone()),
        _ => None,
    }
}
/// the last expression of a closure body becomes a statement
fn fix_unit_tail(mut st: Vec<Stmt>) -> Vec<Stmt> {
    if let Some(Stmt::Expr(Expr::While(w), _)) = st.last_mut() {
        let n = w.body.stmts.len();
        for i in 0..n {
            if let Stmt::Expr(e, semi @ None) = &mut w.body.stmts[i] {
                if !matches!(e, Expr::If(_) | Expr::While(_) | Expr::Match(_) | Expr::Block(_) | Expr::ForLoop(_) | Expr::Loop(_)) {
                    *semi = Some(Default::default());
                }
            }
        }
    }
    st
}

pub fn fix_continue(b: &mut Block, k: &Ident) {
    struct V<'a>(&'a Ident);
    impl<'a> syn::visit_mut::VisitMut for V<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Closure(_) => {}
                Expr::Continue(_) => {
                    let k = self.0;
                    *e = parse_quote!({ #k = #k + 1; continue; });
                }
                _ => syn::visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    syn::visit_mut::VisitMut::visit_block_mut(&mut V(k), b);
}
