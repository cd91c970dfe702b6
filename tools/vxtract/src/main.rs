//! vxtract: mechanically extracts functions and types of the Rust sources under /repo into one Verus
//! crate, inserting the contracts kept beside it in /verif/contracts.
//!
//! It never invents executable code: every function body it prints is the source's own token stream after the
//! closed list of rewrites below (each use is counted in the metadata, see `Xf::note`).
//!
//!   T1  attributes and doc comments dropped; `cfg(test)` / inactive `cfg(feature)` items dropped
//!   T2  `tracing::*!` / `log::*!` statements dropped, and `if tracing::enabled!(..)` around nothing else
//!   T3  `assert*!/debug_assert*!` -> `vx_assert(cond)` (requires cond: an obligation);
//!       `panic!/unreachable!/todo!/unimplemented!` -> `vx_unreachable()` (requires false: an obligation)
//!   T4  the type parameters of the generic configuration are instantiated (config `mono`, `type_map`)
//!   T5  Option/Result combinators applied to a closure literal are unfolded to the `match` of their std definition
//!   T6  loops get their invariants (and a name for the ghost iterator)
//!   T7  `async`/`.await` dropped (the awaited call is the contract boundary)
//!   T8  `#[derive(PartialEq|PartialOrd|Ord|Default)]` of listed types expanded to the field-wise code of the derive
//!   T9  `format!` -> an unspecified string; T10 declared per-function expression rewrites (listed in evidence)
//!   T11 `a + b`, `a += b` -> mathematical addition where a function is marked `math` (listed in evidence)
//!   T16 `for p in e` over the `&mut` elements of a vector (loops marked `iter=mut`) -> a loop over the index
//!   T17 `x == &y` -> `*x == y`: a comparison of references compares what they refer to
//!   T18 `x.unwrap().m(..);` -> `let mut t = x.unwrap(); t.m(..);` in functions marked `shim`
//!   T19 `match x.as_mut() { P if g => a, _ => b }` -> `match x.as_mut() { P => if g { a } else { b }, _ => b }`
//!   T20 in functions marked `inline_async`, `async move { b }` -> `{ b }`: a task runs where it is made
//!   T12 calls of small functions without a contract are inlined (call-by-value, no early return)
//!   T13 visibility widened to `pub`
//!   T14 in functions marked `shim`, iterator and std-collection methods are called under the name `vx_<method>`, an
//!       extension trait of the prelude with the assumed contract of the std method (an iterator is represented by the
//!       `Vec` of the items it yields)

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fs;

use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// T15: `continue` as the last statement of a guard at the top level of a `for` body
fn nest_continue(stmts: Vec<Stmt>, note: &mut dyn FnMut()) -> Vec<Stmt> {
    let mut out = vec![];
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        if let Stmt::Expr(Expr::If(i), _) = &s {
            if i.else_branch.is_none() && matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none()) {
                let mut i = i.clone();
                i.then_branch.stmts.pop();
                let rest = nest_continue(it.by_ref().collect(), note);
                note();
                let b: Block = parse_quote!({ #(#rest)* });
                i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }))));
                out.push(Stmt::Expr(Expr::If(i), None));
                return out;
            }
        }
        out.push(s);
    }
    out
}

/// `&x == y` -> `x == *y`: a comparison of references compares what they refer to
fn unref_pair(x: &Expr, y: &Expr) -> (Expr, Expr) {
    match (x, y) {
        (Expr::Reference(a), Expr::Reference(b)) => ((*a.expr).clone(), (*b.expr).clone()),
        (Expr::Reference(a), y) => ((*a.expr).clone(), parse_quote!(*(#y))),
        (x, Expr::Reference(b)) => (parse_quote!(*(#x)), (*b.expr).clone()),
        _ => (x.clone(), y.clone()),
    }
}

fn norm(s: &str) -> String {
    // normalise token text: parse and print
    match s.parse::<TokenStream>() {
        Ok(t) => t.to_string().split_whitespace().collect::<String>(),
        Err(_) => s.split_whitespace().collect::<String>(),
    }
}
fn toks<T: ToTokens>(t: &T) -> String {
    // re-parse, so that invisible groups and spacing are uniform
    norm(&t.to_token_stream().to_string())
}

struct Global {
    mono: HashSet<String>,
    type_map: HashMap<String, String>,
    expr_map: HashMap<String, String>,
    drop_params: HashSet<String>,
    unwrap_types: HashSet<String>,
    features: HashSet<String>,
    no_unfold: HashSet<String>,
    rename: HashMap<String, String>,
    shims: HashSet<String>,
    drop_assoc: HashSet<String>,
    drop_bounds: HashSet<String>,
    shim_paths: HashMap<String, String>,
    drop_args: HashMap<String, Vec<usize>>,
}

#[derive(Default, Clone)]
struct LoopSpec {
    iter: Option<String>,
    spec: String,
    body_start: String,
    body_end: String,
    before: String,
    after: String,
}

#[derive(Default, Clone)]
struct FnSpec {
    key: String,
    ret: String,
    spec: String,
    trusted: bool,
    math: bool,
    loops: BTreeMap<usize, LoopSpec>,
    proof_start: String,
    proof_end: String,
    proof_return: String,
    proof_after: Vec<(String, String)>,
    proof_before: Vec<(String, String)>,
    closures: BTreeMap<usize, String>,
    rewrites: Vec<(String, String)>,
    subst: HashMap<String, String>,
    argty: HashMap<String, String>,
    drop_bounds: HashSet<String>,
    attrs: String,
    nounfold: bool,
    trymatch: bool,
    inline_async: bool,
    try_option: bool,
    shim: bool,
    rename_to: Option<String>,
    retty: Option<String>,
    emit_self: Option<String>,
    forloop: HashSet<usize>,
}

struct Placeholders {
    n: usize,
    texts: Vec<String>,
}
impl Placeholders {
    fn put(&mut self, text: String) -> proc_macro2::Ident {
        let id = format_ident!("VXPH{}HPXV", self.n);
        self.n += 1;
        self.texts.push(text);
        id
    }
}

fn cfg_active(g: &Global, attrs: &[Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let Meta::List(l) = &a.meta {
                if let Ok(m) = syn::parse2::<Meta>(l.tokens.clone()) {
                    if !cfg_eval(g, &m) {
                        return false;
                    }
                } else if l.tokens.to_string() == "test" {
                    return false;
                }
            }
        }
    }
    true
}
fn cfg_eval(g: &Global, m: &Meta) -> bool {
    match m {
        Meta::Path(p) => {
            if p.is_ident("test") || p.is_ident("openraft_verif") || p.is_ident("kani") || p.is_ident("verus_keep_ghost") {
                return false;
            }
            p.is_ident("debug_assertions") || p.is_ident("unix")
        }
        Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                if let Expr::Lit(l) = &nv.value {
                    if let Lit::Str(s) = &l.lit {
                        return g.features.contains(&s.value());
                    }
                }
            }
            false
        }
        Meta::List(l) => {
            let inner: Vec<Meta> = l
                .parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect())
                .unwrap_or_default();
            if l.path.is_ident("not") {
                !inner.iter().all(|x| cfg_eval(g, x))
            } else if l.path.is_ident("any") {
                inner.iter().any(|x| cfg_eval(g, x))
            } else {
                inner.iter().all(|x| cfg_eval(g, x))
            }
        }
    }
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Meta::List(l) = &a.meta {
                if let Ok(ps) = l.parse_args_with(Punctuated::<Path, Token![,]>::parse_terminated) {
                    for p in ps {
                        v.push(p.segments.last().unwrap().ident.to_string());
                    }
                }
            }
        }
    }
    v
}

/// AST transformer for types, expressions, statements.
struct Xf<'g> {
    g: &'g Global,
    f: FnSpec,
    ph: &'g mut Placeholders,
    loop_no: usize,
    closure_no: usize,
    notes: BTreeMap<String, usize>,
    used_rewrites: HashSet<usize>,
    used_anchor: HashSet<String>,
    calls: BTreeSet<String>,
    helpers: &'g HashMap<String, Helper>,
    inlining: Vec<String>,
    inline_no: usize,
    has_loop_lost: Vec<String>,
}

#[derive(Clone)]
struct Helper {
    item: ImplItemFn,
    is_method: bool,
    owner: String,
    subst: HashMap<String, String>,
}

/// `tracing::enabled!(..)`
fn is_log_guard(e: &Expr) -> bool {
    matches!(e, Expr::Macro(m) if m.mac.path.segments.len() == 2 && m.mac.path.segments[0].ident == "tracing" && m.mac.path.segments[1].ident == "enabled")
}

/// nothing but log statements, and loops over nothing but log statements
fn only_logs(b: &Block) -> bool {
    b.stmts.iter().all(|s| match s {
        Stmt::Macro(m) => matches!(m.mac.path.segments.first(), Some(x) if m.mac.path.segments.len() == 2 && (x.ident == "tracing" || x.ident == "log")),
        Stmt::Expr(Expr::ForLoop(f), _) => only_logs(&f.body),
        _ => false,
    })
}

impl<'g> Xf<'g> {
    fn note(&mut self, k: &str) {
        *self.notes.entry(k.to_string()).or_insert(0) += 1;
    }

    fn mac_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let first = m.path.segments.first().unwrap().ident.to_string();
        if first == "tracing" || first == "log" {
            self.note("T2 tracing dropped");
            return Some(parse_quote!(()));
        }
        let args = || -> Vec<Expr> {
            m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect())
                .unwrap_or_default()
        };
        match name.as_str() {
            "debug_assert" | "assert" => {
                let a = args();
                if a.is_empty() {
                    return None;
                }
                self.note("T3 assert -> obligation");
                let c = &a[0];
                Some(parse_quote!(vx_assert(#c)))
            }
            "debug_assert_eq" | "assert_eq" => {
                let a = args();
                self.note("T3 assert -> obligation");
                let (x, y) = unref_pair(&a[0], &a[1]);
                Some(parse_quote!(vx_assert((#x) == (#y))))
            }
            "debug_assert_ne" | "assert_ne" => {
                let a = args();
                self.note("T3 assert -> obligation");
                let (x, y) = unref_pair(&a[0], &a[1]);
                Some(parse_quote!(vx_assert((#x) != (#y))))
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => {
                self.note("T3 panic -> obligation");
                Some(parse_quote!(vx_unreachable()))
            }
            "format" => {
                self.note("T9 format");
                Some(parse_quote!(vx_string()))
            }
            "func_name" => Some(parse_quote!("")),
            "btreeset" => {
                let a = args();
                self.note("T5 btreeset! unfolded");
                if a.is_empty() {
                    return Some(parse_quote!(BTreeSet::new()));
                }
                Some(parse_quote!({ let mut vx_s = BTreeSet::new(); #( vx_s.insert(#a); )* vx_s }))
            }
            "btreemap" => {
                let pairs = m
                    .parse_body_with(|input: syn::parse::ParseStream| {
                        let mut v: Vec<(Expr, Expr)> = vec![];
                        while !input.is_empty() {
                            let a: Expr = input.parse()?;
                            let _: Token![=>] = input.parse()?;
                            let b: Expr = input.parse()?;
                            v.push((a, b));
                            let _: Option<Token![,]> = input.parse()?;
                        }
                        Ok(v)
                    })
                    .ok()?;
                self.note("T5 btreemap! unfolded");
                if pairs.is_empty() {
                    return Some(parse_quote!(BTreeMap::new()));
                }
                let (a, b): (Vec<Expr>, Vec<Expr>) = pairs.into_iter().unzip();
                Some(parse_quote!({ let mut vx_m = BTreeMap::new(); #( vx_m.insert(#a, #b); )* vx_m }))
            }
            "matches" => {
                let parsed = m.parse_body_with(|input: syn::parse::ParseStream| {
                    let e: Expr = input.parse()?;
                    let _: Token![,] = input.parse()?;
                    let p = Pat::parse_multi_with_leading_vert(input)?;
                    let guard: Option<Expr> = if input.peek(Token![if]) {
                        let _: Token![if] = input.parse()?;
                        Some(input.parse()?)
                    } else {
                        None
                    };
                    let _: Option<Token![,]> = input.parse()?;
                    Ok((e, p, guard))
                });
                if let Ok((e, p, gd)) = parsed {
                    self.note("T5 matches! unfolded");
                    return Some(match gd {
                        Some(gd) => parse_quote!((match #e { #p if #gd => true, _ => false })),
                        None => parse_quote!((match #e { #p => true, _ => false })),
                    });
                }
                None
            }
            _ => None,
        }
    }

    fn map_type_path(&mut self, p: &Path) -> Option<Type> {
        let s = toks(p);
        if let Some(t) = self.f.subst.get(&s) {
            return Some(syn::parse_str(t).unwrap());
        }
        if let Some(t) = self.g.type_map.get(&s) {
            self.note("T4 type instantiated");
            return Some(syn::parse_str(t).unwrap());
        }
        None
    }

    fn fix_path_args(&mut self, p: &mut Path) {
        // drop generic args of mono types
        let n = p.segments.len();
        for (i, seg) in p.segments.iter_mut().enumerate() {
            if self.g.mono.contains(&seg.ident.to_string()) {
                seg.arguments = match &seg.arguments {
                    PathArguments::AngleBracketed(a) => {
                        let lts: Vec<_> = a
                            .args
                            .iter()
                            .filter(|x| matches!(x, GenericArgument::Lifetime(_)))
                            .cloned()
                            .collect();
                        if lts.is_empty() {
                            PathArguments::None
                        } else {
                            parse_quote_args(&lts)
                        }
                    }
                    x => x.clone(),
                };
            }
            if let Some(pos) = self.g.drop_args.get(&seg.ident.to_string()) {
                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                    let mut k = 0;
                    let mut keep: Vec<GenericArgument> = vec![];
                    for x in a.args.iter() {
                        match x {
                            GenericArgument::Type(_) => {
                                if !pos.contains(&k) { keep.push(x.clone()); }
                                k += 1;
                            }
                            _ => keep.push(x.clone()),
                        }
                    }
                    // already reduced (a path is visited again after a substitution)
                    if k > pos.len() {
                        seg.arguments = if keep.is_empty() { PathArguments::None } else { parse_quote_args(&keep) };
                    }
                }
            }
            let _ = (i, n);
        }
        // `crate::a::b::X` -> `X` (flat namespace)
        if p.segments.len() > 1 {
            let first = p.segments[0].ident.to_string();
            if first == "crate" || first == "super" {
                // keep from first segment starting with an upper-case letter; else only the last
                let mut start = p.segments.len() - 1;
                for (i, s) in p.segments.iter().enumerate() {
                    if s.ident.to_string().chars().next().unwrap().is_uppercase() {
                        start = i;
                        break;
                    }
                }
                let segs: Vec<_> = p.segments.iter().skip(start).cloned().collect();
                p.segments = segs.into_iter().collect();
                p.leading_colon = None;
            }
        }
        if let Some(first) = p.segments.first_mut() {
            if let Some(r) = self.g.rename.get(&first.ident.to_string()) {
                first.ident = format_ident!("{}", r);
            }
        }
    }
}

fn parse_quote_args(lts: &[GenericArgument]) -> PathArguments {
    let ab: AngleBracketedGenericArguments = parse_quote!(<#(#lts),*>);
    PathArguments::AngleBracketed(ab)
}

fn strip_attrs(v: &mut Vec<Attribute>) {
    v.clear();
}

const OPT_UNFOLD: &[&str] = &[
    "map", "and_then", "unwrap_or_else", "map_or", "is_some_and", "ok_or_else", "map_err", "map_or_else", "or_else",
    "filter",
];

fn chain_has_iter(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if matches!(
                n.as_str(),
                "iter" | "into_iter" | "iter_mut" | "keys" | "values" | "chain" | "enumerate" | "rev" | "zip" | "nodes"
                    | "voter_ids" | "learner_ids" | "ids" | "drain" | "skip" | "take_while" | "filter_map" | "flat_map" | "union"
                    | "difference" | "intersection"
            ) {
                return true;
            }
            if matches!(n.as_str(), "next" | "last" | "first" | "get" | "max" | "min" | "find" | "pop" | "peek") {
                return false;
            }
            chain_has_iter(&m.receiver)
        }
        Expr::Paren(p) => chain_has_iter(&p.expr),
        _ => false,
    }
}

fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}
fn block_has_return(b: &Block) -> bool {
    has_return(&Expr::Block(ExprBlock {
        attrs: vec![],
        label: None,
        block: b.clone(),
    }))
}

impl<'g> VisitMut for Xf<'g> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        strip_attrs(a);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        // whole-type substitution
        let s = toks(t);
        if let Some(r) = self.f.subst.get(&s).or_else(|| self.g.type_map.get(&s)) {
            *t = syn::parse_str(r).unwrap_or_else(|e| panic!("bad type map {r}: {e}"));
            self.note("T4 type instantiated");
            return;
        }
        if let Type::Path(tp) = t {
            if tp.qself.is_none() {
                if let Some(r) = self.map_type_path(&tp.path) {
                    *t = r;
                    return;
                }
                // wrappers dropped: Valid<T> -> T
                let last = tp.path.segments.last().unwrap();
                if self.g.unwrap_types.contains(&last.ident.to_string()) {
                    if let PathArguments::AngleBracketed(a) = &last.arguments {
                        let inner: Vec<_> = a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }).collect();
                        if let Some(i) = inner.into_iter().next() {
                            *t = i;
                            self.note("T4 wrapper type dropped");
                            self.visit_type_mut(t);
                            return;
                        }
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        self.fix_path_args(p);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_lifetime_mut(&mut self, _l: &mut Lifetime) {}

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let old = std::mem::take(&mut b.stmts);
        for st in old {
            // cfg on statements
            let active = match &st {
                Stmt::Local(l) => cfg_active(self.g, &l.attrs),
                Stmt::Macro(m) => cfg_active(self.g, &m.attrs),
                Stmt::Expr(Expr::Block(eb), _) => cfg_active(self.g, &eb.attrs),
                Stmt::Expr(Expr::If(eb), _) => cfg_active(self.g, &eb.attrs),
                Stmt::Expr(Expr::MethodCall(eb), _) => cfg_active(self.g, &eb.attrs),
                Stmt::Expr(Expr::Call(eb), _) => cfg_active(self.g, &eb.attrs),
                Stmt::Item(Item::Use(_)) => false,
                _ => true,
            };
            if !active {
                continue;
            }
            let text = toks(&st);
            let mut before = vec![];
            let mut after = vec![];
            for (i, (pat, proof)) in self.f.proof_after.clone().into_iter().enumerate() {
                let k = format!("after{i}");
                if !self.used_anchor.contains(&k) && anchor_match(&text, &pat) && !stmt_nested_has(&st, &pat) {
                    self.used_anchor.insert(k);
                    after.push(proof);
                }
            }
            for (i, (pat, proof)) in self.f.proof_before.clone().into_iter().enumerate() {
                let k = format!("before{i}");
                if !self.used_anchor.contains(&k) && anchor_match(&text, &pat) && !stmt_nested_has(&st, &pat) {
                    self.used_anchor.insert(k);
                    before.push(proof);
                }
            }
            if matches!(&st, Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && is_log_guard(&i.cond) && only_logs(&i.then_branch)) {
                self.note("T2 tracing dropped");
                continue;
            }
            let mut st = match st {
                Stmt::Macro(sm) => {
                    let name = sm.mac.path.segments.first().unwrap().ident.to_string();
                    if name == "tracing" || name == "log" {
                        self.note("T2 tracing dropped");
                        continue;
                    }
                    let last = sm.mac.path.segments.last().unwrap().ident.to_string();
                    match self.mac_expr(&sm.mac) {
                        Some(e) => {
                            let never = matches!(last.as_str(), "unreachable" | "panic" | "todo" | "unimplemented" | "btreemap" | "btreeset" | "matches");
                            let e = if sm.semi_token.is_some() && matches!(last.as_str(), "unreachable" | "panic" | "todo" | "unimplemented") { parse_quote!(return #e) } else { e };
                            Stmt::Expr(e, if never && sm.semi_token.is_none() { None } else { Some(Default::default()) })
                        }
                        None => Stmt::Macro(sm),
                    }
                }
                s => s,
            };
            // T18: a statement `x.unwrap().m(..);` names the value the call is made on
            let mut named = None;
            if self.f.shim {
                if let Stmt::Expr(Expr::MethodCall(mc), Some(_)) = &mut st {
                    if matches!(&*mc.receiver, Expr::MethodCall(u) if u.method == "unwrap" && matches!(&*u.receiver, Expr::MethodCall(_))) {
                        self.note("T18 the receiver of a call is named");
                        let id = format_ident!("vx_t{}", self.inline_no);
                        self.inline_no += 1;
                        let recv = std::mem::replace(&mut *mc.receiver, parse_quote!(#id));
                        let mut l: Stmt = parse_quote!(let mut #id = #recv;);
                        self.visit_stmt_mut(&mut l);
                        named = Some(l);
                    }
                }
            }
            self.visit_stmt_mut(&mut st);
            for t in before {
                let id = self.ph.put(t);
                out.push(Stmt::Expr(Expr::Verbatim(quote!(#id)), None));
            }
            out.extend(named);
            out.push(st);
            for t in after {
                let id = self.ph.put(t);
                // a proof after the tail expression makes no sense; keep order
                out.push(Stmt::Expr(Expr::Verbatim(quote!(#id)), None));
            }
        }
        b.stmts = out;
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // T19
        if let Expr::Match(m) = e {
            let n = m.arms.len();
            if n >= 2 && m.arms[n - 2].guard.is_some() && m.arms[n - 1].guard.is_none() && matches!(m.arms[n - 1].pat, Pat::Wild(_))
                && m.expr.to_token_stream().to_string().contains("as_mut")
            {
                let rest = m.arms[n - 1].body.clone();
                let a = &mut m.arms[n - 2];
                let (_, g) = a.guard.take().unwrap();
                let b = &a.body;
                let nb: Expr = parse_quote!(if #g { #b } else { #rest });
                *a.body = nb;
                self.note("T19 `P if g => a, _ => b` -> `P => if g { a } else { b }, _ => b`");
            }
        }
        let text = toks(e);
        for (i, (from, to)) in self.f.rewrites.clone().into_iter().enumerate() {
            if text == from {
                *e = syn::parse_str(&to).unwrap_or_else(|er| panic!("bad rewrite {to}: {er}"));
                self.used_rewrites.insert(i);
                self.note(&format!("T10 rewrite `{from}` -> `{to}`"));
                return;
            }
        }
        if let Some(r) = self.g.expr_map.get(&text) {
            *e = syn::parse_str(r).unwrap();
            self.note(&format!("T4 `{text}` -> `{r}`"));
            return;
        }
        // macros
        if let Expr::Macro(m) = e {
            if let Some(ne) = self.mac_expr(&m.mac.clone()) {
                *e = ne;
                self.visit_expr_mut(e);
                return;
            }
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if name == "vec" {
                if let Ok(args) = m.mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
                    let mut args: Vec<Expr> = args.into_iter().collect();
                    for a in args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    *e = parse_quote!(vec![#(#args),*]);
                    return;
                }
            }
            if name == "btreeset" {
                if let Ok(args) = m.mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
                    let mut args: Vec<Expr> = args.into_iter().collect();
                    for a in args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    *e = parse_quote!({ let mut vx_s = BTreeSet::new(); #(vx_s.insert(#args);)* vx_s });
                    return;
                }
            }
            return;
        }
        if self.f.trymatch {
            if let Expr::Try(t) = e {
                self.note("T5 `?` on a Result unfolded");
                let inner = (*t.expr).clone();
                if self.f.try_option {
                    *e = parse_quote!((match #inner { Some(vx_v) => vx_v, None => return None }));
                } else {
                *e = parse_quote!((match #inner { Ok(vx_v) => vx_v, Err(vx_e) => return Err(From::from(vx_e)) }));
                }
                self.visit_expr_mut(e);
                return;
            }
        }
        // await
        if let Expr::Await(a) = e {
            self.note("T7 await dropped");
            let inner = (*a.base).clone();
            *e = inner;
            self.visit_expr_mut(e);
            return;
        }
        if let Expr::Async(a) = e {
            if self.f.inline_async {
                self.note("T20 async block run where it is made");
                let b = a.block.clone();
                *e = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b });
                self.visit_expr_mut(e);
                return;
            }
        }
        // option combinators
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if !self.f.nounfold && !self.g.no_unfold.contains(&text) && OPT_UNFOLD.contains(&name.as_str()) && !chain_has_iter(&m.receiver) {
                if let Some(ne) = unfold(m) {
                    self.note("T5 combinator unfolded");
                    *e = ne;
                    self.visit_expr_mut(e);
                    return;
                }
            }
            self.calls.insert(name);
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                self.calls.insert(p.path.segments.last().unwrap().ident.to_string());
            }
        }
        // inline helpers
        if let Some(ne) = self.try_inline(e) {
            *e = ne;
            self.visit_expr_mut(e);
            self.inlining.pop();
            return;
        }
        // T14
        if self.f.shim {
            if let Expr::MethodCall(m) = e {
                let n = m.method.to_string();
                if self.g.shims.contains(&n) {
                    m.method = format_ident!("vx_{}", n);
                    self.note("T14 std collection/iterator method through an assumed contract");
                }
            }
            if let Expr::Call(c) = e {
                if let Expr::Path(p) = &*c.func {
                    let t = toks(&p.path);
                    if let Some(n) = self.g.shim_paths.get(&t) {
                        let f: Expr = syn::parse_str(n).unwrap();
                        *c.func = f;
                        self.note("T14 std collection/iterator method through an assumed contract");
                    }
                }
            }
        }
        // math addition
        if self.f.math {
            if let Expr::Binary(b) = e {
                if matches!(b.op, BinOp::Add(_)) {
                    let (l, r) = (b.left.clone(), b.right.clone());
                    self.note("T11 mathematical addition");
                    *e = parse_quote!(vx_add(#l, #r));
                    self.visit_children_call(e);
                    return;
                }
                if matches!(b.op, BinOp::AddAssign(_)) {
                    let (l, r) = (b.left.clone(), b.right.clone());
                    self.note("T11 mathematical addition");
                    *e = parse_quote!(#l = vx_add(#l, #r));
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
        }
        // wrappers dropped: Valid::new(x) -> x
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let n = p.path.segments.len();
                if n >= 2 && c.args.len() == 1 && p.path.segments[n - 1].ident == "new" && self.g.unwrap_types.contains(&p.path.segments[n - 2].ident.to_string()) {
                    let a = c.args[0].clone();
                    self.note("T4 type instantiated");
                    *e = parse_quote!((#a));
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
        }
        // paths in expression position
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                let s = toks(&p.path);
                if let Some(t) = self.f.subst.get(&s) {
                    if let Ok(ne) = syn::parse_str::<Expr>(t) {
                        *e = ne;
                        return;
                    }
                }
                // `C::NodeId::default()` -> `<u64>::default()`
                if p.path.segments.len() > 1 {
                    let n = p.path.segments.len();
                    let head: Vec<_> = p.path.segments.iter().take(n - 1).cloned().collect();
                    let head_s = norm(&head.iter().map(|x| x.to_token_stream().to_string()).collect::<Vec<_>>().join("::"));
                    let last = p.path.segments.last().unwrap().clone();
                    let r = self.f.subst.get(&head_s).or_else(|| self.g.type_map.get(&head_s)).cloned();
                    if let Some(r) = r {
                        let t: Type = syn::parse_str(&r).unwrap();
                        *e = match &t {
                            Type::Path(tp) if tp.path.segments.len() == 1 && tp.path.segments[0].arguments.is_none() => {
                                let i = &tp.path.segments[0].ident;
                                parse_quote!(#i::#last)
                            }
                            _ => parse_quote!(<#t>::#last),
                        };
                        self.note("T4 type instantiated");
                        return;
                    }
                }
            }
        }
        // closures
        if let Expr::Closure(c) = e {
            let k = self.closure_no;
            self.closure_no += 1;
            if let Some(sig) = self.f.closures.get(&k).cloned() {
                let mut body = (*c.body).clone();
                self.visit_expr_mut(&mut body);
                let id = self.ph.put(sig);
                let mv = &c.capture;
                let _ = mv;
                let b = match &body {
                    Expr::Block(b) => b.block.to_token_stream(),
                    o => quote!({ #o }),
                };
                *e = Expr::Verbatim(quote!(#id #b));
                return;
            }
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        // loops
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                let k = self.loop_no;
                self.loop_no += 1;
                let ls = self.f.loops.get(&k).cloned();
                if ls.is_none() {
                    self.has_loop_lost.push(format!("loop {k} has no invariant"));
                }
                if let Expr::ForLoop(f) = e {
                    let st = std::mem::take(&mut f.body.stmts);
                    f.body.stmts = nest_continue(st, &mut || self.note("T15 `if c { ..; continue; } rest` -> `if c { .. } else { rest }`"));
                }
                visit_mut::visit_expr_mut(self, e);
                let ls = ls.unwrap_or_default();
                let spec = self.ph.put(format!("\n{}\n", ls.spec));
                let wrap = |ph: &mut Placeholders, s: &str| -> TokenStream {
                    if s.is_empty() {
                        quote!()
                    } else {
                        let id = ph.put(format!("\n{}\n", s));
                        quote!(#id)
                    }
                };
                let bs = wrap(self.ph, &ls.body_start);
                let be = wrap(self.ph, &ls.body_end);
                let bef = wrap(self.ph, &ls.before);
                let aft = wrap(self.ph, &ls.after);
                if let (Expr::ForLoop(f), Some(mode @ ("mut" | "idx"))) = (&*e, ls.iter.as_deref()) {
                    // T16: a loop over `&mut` of the elements of a vector, or over a vector of references
                    if has_continue(&f.body) {
                        self.has_loop_lost.push(format!("loop {k}: continue"));
                    }
                    self.note("T16 `for p in vec` -> index loop");
                    let (p, x, stmts, label) = (&f.pat, &f.expr, &f.body.stmts, &f.label);
                    let it = format_ident!("vx_it{}", k);
                    let i = format_ident!("vx_i{}", k);
                    let dec = self.ph.put(format!("\ndecreases {it}.len() - {i},\n"));
                    let el = if mode == "mut" { quote!(&mut #it[#i]) } else { quote!(#it[#i]) };
                    *e = Expr::Verbatim(quote!({ let #it = #x; let mut #i: usize = 0; #bef #label while #i < #it.len() #spec #dec { #bs let #p = #el; #(#stmts)* #i = #i + 1; #be } #aft }));
                    return;
                }
                let (head, body, label) = match e {
                    Expr::ForLoop(f) => {
                        let (p, x) = (&f.pat, &f.expr);
                        let h = match &ls.iter {
                            Some(n) => {
                                let n = format_ident!("{}", n);
                                quote!(for #p in #n : #x)
                            }
                            None => quote!(for #p in #x),
                        };
                        (h, f.body.clone(), f.label.clone())
                    }
                    Expr::While(w) => {
                        let c = &w.cond;
                        (quote!(while #c), w.body.clone(), w.label.clone())
                    }
                    Expr::Loop(l) => (quote!(loop), l.body.clone(), l.label.clone()),
                    _ => unreachable!(),
                };
                let stmts = &body.stmts;
                let lp = quote!(#label #head #spec { #bs #(#stmts)* #be });
                *e = Expr::Verbatim(if bef.is_empty() && aft.is_empty() { lp } else { quote!({ #bef #lp #aft }) });
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // `match .. {} == x` must be parenthesised: binary operands and receivers
        match e {
            Expr::Binary(b) => {
                // T17
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (matches!(*b.left, Expr::Reference(_)) || matches!(*b.right, Expr::Reference(_))) {
                    let (x, y) = unref_pair(&b.left, &b.right);
                    *b.left = x;
                    *b.right = y;
                }
                paren_if_block(&mut b.left);
                paren_if_block(&mut b.right);
            }
            Expr::MethodCall(m) => paren_if_block(&mut m.receiver),
            Expr::Try(m) => paren_if_block(&mut m.expr),
            Expr::Unary(m) => paren_if_block(&mut m.expr),
            Expr::Field(m) => paren_if_block(&mut m.base),
            Expr::Let(l) => paren_if_block(&mut l.expr),
            Expr::Match(l) => paren_if_block(&mut l.expr),
            Expr::Reference(l) => paren_if_block(&mut l.expr),
            _ => {}
        }
    }
}

fn has_continue(b: &Block) -> bool {
    struct F(bool);
    impl<'a> syn::visit::Visit<'a> for F {
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true; }
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut f = F(false);
    syn::visit::Visit::visit_block(&mut f, b);
    f.0
}

/// ghost code before every return of a function (and before its tail expression)
fn proof_at_returns(b: &mut Block, id: &proc_macro2::Ident) {
    struct R<'x>(&'x proc_macro2::Ident);
    impl<'x> VisitMut for R<'x> {
        fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Return(r) = e {
                let r = r.clone();
                *e = ghost_before(Expr::Return(r), self.0);
            }
        }
    }
    fn ghost_before(e: Expr, id: &proc_macro2::Ident) -> Expr {
        let g: Expr = parse_quote!(#id);
        Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(g, None), Stmt::Expr(e, None)] } })
    }
    fn tail(e: &mut Expr, id: &proc_macro2::Ident) {
        match e {
            Expr::Block(b) if b.label.is_none() => tail_block(&mut b.block, id),
            Expr::If(i) => {
                tail_block(&mut i.then_branch, id);
                if let Some((_, x)) = &mut i.else_branch {
                    tail(x, id);
                }
            }
            Expr::Match(m) => {
                for a in &mut m.arms {
                    tail(&mut a.body, id);
                }
            }
            Expr::Return(_) => {}
            _ => {
                let x = std::mem::replace(e, parse_quote!(()));
                *e = ghost_before(x, id);
            }
        }
    }
    fn tail_block(b: &mut Block, id: &proc_macro2::Ident) {
        let g: Expr = parse_quote!(#id);
        match b.stmts.last_mut() {
            Some(Stmt::Expr(Expr::Return(_), _)) => {}
            Some(Stmt::Expr(Expr::ForLoop(_) | Expr::While(_), None)) => b.stmts.push(Stmt::Expr(g, None)),
            Some(Stmt::Expr(Expr::If(i), None)) if i.else_branch.is_none() => b.stmts.push(Stmt::Expr(g, None)),
            Some(Stmt::Expr(e @ (Expr::Block(_) | Expr::If(_) | Expr::Match(_)), None)) => tail(e, id),
            Some(Stmt::Expr(_, None)) => {
                let n = b.stmts.len() - 1;
                b.stmts.insert(n, Stmt::Expr(g, None));
            }
            _ => b.stmts.push(Stmt::Expr(g, None)),
        }
    }
    tail_block(b, id);
    R(id).visit_block_mut(b);
}

fn anchor_match(text: &str, pat: &str) -> bool {
    text.contains(pat)
}
fn stmt_nested_has(st: &Stmt, pat: &str) -> bool {
    // true when the pattern is inside a nested block of this statement (then the inner statement gets it)
    struct V<'p>(&'p str, bool);
    impl<'a, 'p> syn::visit::Visit<'a> for V<'p> {
        fn visit_block(&mut self, b: &'a Block) {
            for s in &b.stmts {
                if toks(s).contains(self.0) {
                    self.1 = true;
                }
            }
        }
    }
    let mut v = V(pat, false);
    syn::visit::Visit::visit_stmt(&mut v, st);
    v.1
}

fn paren_if_block(e: &mut Expr) {
    let need = matches!(e, Expr::Match(_) | Expr::If(_) | Expr::Block(_) | Expr::Verbatim(_));
    if need {
        let inner = e.clone();
        *e = parse_quote!((#inner));
    }
}

fn unfold(m: &ExprMethodCall) -> Option<Expr> {
    let name = m.method.to_string();
    let recv = &m.receiver;
    let cl = |i: usize| -> Option<(Option<Pat>, Expr)> {
        match m.args.iter().nth(i)? {
            Expr::Closure(c) => {
                if has_return(&c.body) {
                    return None;
                }
                let p = c.inputs.first().cloned().map(|p| match p {
                    Pat::Type(t) => *t.pat,
                    p => p,
                });
                Some((p, (*c.body).clone()))
            }
            _ => None,
        }
    };
    let n = m.args.len();
    Some(match (name.as_str(), n) {
        ("map", 1) => {
            let (p, b) = cl(0)?;
            let p = p?;
            parse_quote!((match #recv { Some(#p) => Some(#b), None => None }))
        }
        ("and_then", 1) => {
            let (p, b) = cl(0)?;
            let p = p?;
            parse_quote!((match #recv { Some(#p) => #b, None => None }))
        }
        ("is_some_and", 1) => {
            let (p, b) = cl(0)?;
            let p = p?;
            parse_quote!((match #recv { Some(#p) => #b, None => false }))
        }
        ("map_or", 2) => {
            let (p, b) = cl(1)?;
            let p = p?;
            let d = &m.args[0];
            parse_quote!((match #recv { Some(#p) => #b, None => #d }))
        }
        ("map_or_else", 2) => {
            let (_, d) = cl(0)?;
            let (p, b) = cl(1)?;
            let p = p?;
            parse_quote!((match #recv { Some(#p) => #b, None => #d }))
        }
        ("filter", 1) => {
            let (p, b) = cl(0)?;
            let p = p?;
            parse_quote!((match #recv { Some(vx_f) => { let vx_k = { let #p = &vx_f; #b }; if vx_k { Some(vx_f) } else { None } } None => None }))
        }
        ("unwrap_or_else", 1) => {
            let (p, b) = cl(0)?;
            if p.is_some() {
                let p = p?;
                parse_quote!((match #recv { Ok(vx_v) => vx_v, Err(#p) => #b }))
            } else {
                parse_quote!((match #recv { Some(vx_v) => vx_v, None => #b }))
            }
        }
        ("or_else", 1) => {
            let (p, b) = cl(0)?;
            if p.is_some() {
                return None;
            }
            parse_quote!((match #recv { Some(vx_v) => Some(vx_v), None => #b }))
        }
        ("ok_or_else", 1) => {
            let (_, b) = cl(0)?;
            parse_quote!((match #recv { Some(vx_v) => Ok(vx_v), None => Err(#b) }))
        }
        ("map_err", 1) => {
            let (p, b) = cl(0)?;
            let p = p?;
            parse_quote!((match #recv { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b) }))
        }
        _ => return None,
    })
}

impl<'g> Xf<'g> {
    fn visit_children_call(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            for a in c.args.iter_mut() {
                self.visit_expr_mut(a);
            }
        }
    }

    /// T12: a call of a function of the same source file that has no contract is replaced by its body.
    fn try_inline(&mut self, e: &Expr) -> Option<Expr> {
        let (name, recv, args): (String, Option<Expr>, Vec<Expr>) = match e {
            Expr::MethodCall(m) => (m.method.to_string(), Some((*m.receiver).clone()), m.args.iter().cloned().collect()),
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = segs.len();
                if n == 2 && segs[0].chars().next()?.is_uppercase() {
                    (segs[1].clone(), None, c.args.iter().cloned().collect())
                } else if n == 1 {
                    (segs[0].clone(), None, c.args.iter().cloned().collect())
                } else {
                    return None;
                }
            }
            _ => return None,
        };
        let h = self.helpers.get(&name)?.clone();
        if self.inlining.contains(&name) || self.inlining.len() > 4 {
            return None;
        }
        if block_has_return(&h.item.block) {
            return None;
        }
        if h.is_method && recv.is_none() || !h.is_method && recv.is_some() {
            return None;
        }
        let k = self.inline_no;
        let mut recv_binding = quote!();
        let mut self_ident: Option<proc_macro2::Ident> = None;
        let mut self_expr: Option<Expr> = None;
        if let Some(r) = recv {
            // only on a plain path receiver (self, local or field path): no double evaluation
            fn plain(e: &Expr) -> bool {
                match e {
                    Expr::Path(p) => p.path.segments.len() == 1,
                    Expr::Field(f) => plain(&f.base),
                    Expr::Paren(p) => plain(&p.expr),
                    _ => false,
                }
            }
            if plain(&r) {
                self_expr = Some(r);
            } else {
                let rc = h.item.sig.receiver()?;
                let id = format_ident!("vx_self{}", k);
                if rc.reference.is_some() && rc.mutability.is_some() {
                    recv_binding = quote!(let #id = #r;);
                } else {
                    recv_binding = quote!(let #id = #r;);
                }
                self_ident = Some(id);
            }
        }
        let mut lets = vec![];
        let mut params = h.item.sig.inputs.iter().filter_map(|a| match a {
            FnArg::Typed(t) => Some(t.clone()),
            _ => None,
        });
        let mut renames: HashMap<String, proc_macro2::Ident> = HashMap::new();
        for a in args {
            let p = params.next()?;
            let ty = &p.ty;
            let (mutab, nm) = match &*p.pat {
                Pat::Ident(pi) => (pi.mutability, pi.ident.clone()),
                _ => return None,
            };
            if ty.to_token_stream().to_string().starts_with("impl") {
                return None;
            }
            let fresh = format_ident!("vx_a{}_{}", k, nm);
            renames.insert(nm.to_string(), fresh.clone());
            // the type is not printed when it mentions generics of the helper
            let gen_names: Vec<String> = h.item.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
            let tstr = ty.to_token_stream().to_string();
            if gen_names.iter().any(|g| tstr.contains(g)) || tstr.contains("Self") {
                lets.push(quote!(let #mutab #fresh = #a;));
            } else {
                lets.push(quote!(let #mutab #fresh: #ty = #a;));
            }
        }
        let mut block = h.item.block.clone();
        struct Ren<'a> {
            m: &'a HashMap<String, proc_macro2::Ident>,
            self_ident: Option<proc_macro2::Ident>,
            self_expr: Option<Expr>,
            owner: String,
        }
        impl<'a> VisitMut for Ren<'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Path(p) = e {
                    if p.path.segments.len() == 1 {
                        let s = p.path.segments[0].ident.to_string();
                        if s == "self" {
                            if let Some(x) = &self.self_expr {
                                *e = x.clone();
                                return;
                            }
                            if let Some(x) = &self.self_ident {
                                *e = parse_quote!(#x);
                                return;
                            }
                        }
                        if let Some(x) = self.m.get(&s) {
                            *e = parse_quote!(#x);
                            return;
                        }
                    }
                }
                if let Expr::Struct(s) = e {
                    for f in s.fields.iter_mut() {
                        f.colon_token = Some(Default::default());
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            fn visit_macro_mut(&mut self, m: &mut Macro) {
                let name = m.path.segments.last().unwrap().ident.to_string();
                if matches!(name.as_str(), "vec" | "debug_assert" | "assert" | "assert_eq" | "debug_assert_eq") {
                    if let Ok(args) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
                        let mut args: Vec<Expr> = args.into_iter().collect();
                        for a in args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        m.tokens = quote!(#(#args),*);
                    }
                }
            }
            fn visit_path_mut(&mut self, p: &mut Path) {
                if let Some(f) = p.segments.first_mut() {
                    if f.ident == "Self" && !self.owner.is_empty() {
                        f.ident = format_ident!("{}", self.owner);
                    }
                }
                visit_mut::visit_path_mut(self, p);
            }
        }
        let mut r = Ren {
            m: &renames,
            self_ident,
            self_expr,
            owner: h.owner.clone(),
        };
        r.visit_block_mut(&mut block);
        self.inline_no += 1;
        self.inlining.push(name.clone());
        self.note(&format!("T12 inlined {name}"));
        let stmts = &block.stmts;
        Some(parse_quote!({ #recv_binding #(#lets)* #(#stmts)* }))
    }

    fn run_block(&mut self, b: &mut Block) {
        self.visit_block_mut(b);
    }
}

// ---------------------------------------------------------------------------------------------- printing

fn print_tokens(ts: TokenStream, out: &mut String, depth: usize) {
    let mut last_joint = false;
    let mut iter = ts.into_iter().peekable();
    while let Some(t) = iter.next() {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::Brace {
                    out.push_str(" {\n");
                    print_tokens(g.stream(), out, depth + 1);
                    out.push('\n');
                    out.push_str("}\n");
                } else {
                    out.push_str(o);
                    print_tokens(g.stream(), out, depth + 1);
                    out.push_str(c);
                    out.push(' ');
                }
                last_joint = false;
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                last_joint = p.spacing() == Spacing::Joint;
                if p.as_char() == ';' {
                    out.push('\n');
                    last_joint = false;
                } else if !last_joint {
                    out.push(' ');
                }
            }
            t => {
                out.push_str(&t.to_string());
                // a lifetime quote is a joint punct before the ident
                out.push(' ');
                last_joint = false;
            }
        }
        let _ = last_joint;
    }
}

// ---------------------------------------------------------------------------------------------- driver

fn s(v: &Value, k: &str) -> String {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string()
}
fn strset(v: &Value) -> HashSet<String> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
        .unwrap_or_default()
}
fn strmap(v: &Value) -> HashMap<String, String> {
    v.as_object()
        .map(|o| o.iter().map(|(k, v)| (norm(k), v.as_str().unwrap().to_string())).collect())
        .unwrap_or_default()
}

struct FoundFn {
    item: ImplItemFn,
    imp: Option<ItemImpl>,
    from_trait: bool,
    trait_item: Option<TraitItemFn>,
}

fn self_ident(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => self_ident(&r.elem),
        _ => String::new(),
    }
}

fn flatten<'a>(g: &Global, items: &'a [Item], out: &mut Vec<&'a Item>) {
    for i in items {
        let attrs = match i {
            Item::Fn(x) => &x.attrs,
            Item::Impl(x) => &x.attrs,
            Item::Struct(x) => &x.attrs,
            Item::Enum(x) => &x.attrs,
            Item::Mod(x) => &x.attrs,
            Item::Trait(x) => &x.attrs,
            Item::Const(x) => &x.attrs,
            Item::Type(x) => &x.attrs,
            _ => continue,
        };
        if !cfg_active(g, attrs) {
            continue;
        }
        if let Item::Mod(m) = i {
            if let Some((_, its)) = &m.content {
                flatten(g, its, out);
            }
            continue;
        }
        out.push(i);
    }
}

fn find_fn(g: &Global, items: &[&Item], key: &str) -> Option<FoundFn> {
    // forms: `name`, `Type::name`, `Trait for SelfTy::name` (SelfTy is normalised token text)
    if let Some((tr, rest)) = key.split_once(" for ") {
        let pos = rest.rfind("::")?;
        let (st, name) = (norm(&rest[..pos]), &rest[pos + 2..]);
        for i in items {
            if let Item::Impl(im) = i {
                if let Some((_, p, _)) = &im.trait_ {
                    let tseg = p.segments.last().unwrap();
                    let tname = toks(p);
                    if (tseg.ident == tr || tname == norm(tr)) && (toks(&*im.self_ty) == st || self_ident(&im.self_ty) == st) {
                        for it in &im.items {
                            if let ImplItem::Fn(f) = it {
                                if f.sig.ident == name && cfg_active(g, &f.attrs) {
                                    return Some(FoundFn {
                                        item: f.clone(),
                                        imp: Some(im.clone()),
                                        from_trait: false,
                                        trait_item: None,
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
        return None;
    }
    if let Some(pos) = key.rfind("::") {
        let (ty, name) = (&key[..pos], &key[pos + 2..]);
        for i in items {
            match i {
                Item::Impl(im) if im.trait_.is_none() => {
                    if self_ident(&im.self_ty) == ty || toks(&*im.self_ty) == norm(ty) {
                        for it in &im.items {
                            if let ImplItem::Fn(f) = it {
                                if f.sig.ident == name && cfg_active(g, &f.attrs) {
                                    return Some(FoundFn {
                                        item: f.clone(),
                                        imp: Some(im.clone()),
                                        from_trait: false,
                                        trait_item: None,
                                    });
                                }
                            }
                        }
                    }
                }
                Item::Trait(tr) if tr.ident == ty => {
                    for it in &tr.items {
                        if let TraitItem::Fn(f) = it {
                            if f.sig.ident == name && cfg_active(g, &f.attrs) {
                                let block = f.default.clone().unwrap_or_else(|| parse_quote!({}));
                                return Some(FoundFn {
                                    item: ImplItemFn {
                                        attrs: f.attrs.clone(),
                                        vis: Visibility::Inherited,
                                        defaultness: None,
                                        sig: f.sig.clone(),
                                        block,
                                    },
                                    imp: None,
                                    from_trait: true,
                                    trait_item: Some(f.clone()),
                                });
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        return None;
    }
    for i in items {
        if let Item::Fn(f) = i {
            if f.sig.ident == key {
                return Some(FoundFn {
                    item: ImplItemFn {
                        attrs: f.attrs.clone(),
                        vis: f.vis.clone(),
                        defaultness: None,
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                    },
                    imp: None,
                    from_trait: false,
                    trait_item: None,
                });
            }
        }
    }
    None
}

fn clean_generics(xf: &mut Xf, gen: &mut Generics) {
    let drop: HashSet<String> = xf.g.drop_params.iter().cloned().chain(xf.f.subst.keys().cloned()).collect();
    let params: Vec<GenericParam> = gen
        .params
        .iter()
        .filter(|p| match p {
            GenericParam::Type(t) => !drop.contains(&t.ident.to_string()),
            _ => true,
        })
        .cloned()
        .collect();
    gen.params = params.into_iter().collect();
    // bounds that no contract can use (formatting, thread safety), and those a contract declares unused
    let gb = xf.g.drop_bounds.clone();
    let lb = xf.f.drop_bounds.clone();
    let keep = |b: &TypeParamBound| match b {
        TypeParamBound::Trait(t) => {
            let n = t.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
            !gb.contains(&n) && !lb.contains(&n)
        }
        _ => true,
    };
    for p in gen.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            let bs: Vec<TypeParamBound> = t.bounds.iter().filter(|b| keep(b)).cloned().collect();
            t.bounds = bs.into_iter().collect();
            if t.bounds.is_empty() {
                t.colon_token = None;
            }
        }
    }
    if let Some(w) = &mut gen.where_clause {
        for p in w.predicates.iter_mut() {
            if let WherePredicate::Type(t) = p {
                let bs: Vec<TypeParamBound> = t.bounds.iter().filter(|b| keep(b)).cloned().collect();
                t.bounds = bs.into_iter().collect();
            }
        }
        let kept: Vec<WherePredicate> = w.predicates.iter().filter(|p| !matches!(p, WherePredicate::Type(t) if t.bounds.is_empty())).cloned().collect();
        w.predicates = kept.into_iter().collect();
        let preds: Vec<WherePredicate> = w
            .predicates
            .iter()
            .filter(|p| match p {
                WherePredicate::Type(t) => {
                    let b = toks(&t.bounded_ty);
                    let head = b.split("::").next().unwrap_or("").trim().to_string();
                    !drop.contains(&head)
                }
                _ => true,
            })
            .cloned()
            .collect();
        w.predicates = preds.into_iter().collect();
        if w.predicates.is_empty() {
            gen.where_clause = None;
        }
    }
    if gen.params.is_empty() {
        gen.lt_token = None;
        gen.gt_token = None;
    }
    xf.visit_generics_mut(gen);
}

fn fnspec_from(v: &Value) -> FnSpec {
    let mut f = FnSpec {
        key: s(v, "key"),
        ret: if s(v, "ret").is_empty() { "r".into() } else { s(v, "ret") },
        spec: s(v, "spec"),
        trusted: v.get("trusted").and_then(|x| x.as_bool()).unwrap_or(false),
        math: v.get("math").and_then(|x| x.as_bool()).unwrap_or(false),
        shim: v.get("shim").and_then(|x| x.as_bool()).unwrap_or(false),
        nounfold: v.get("nounfold").and_then(|x| x.as_bool()).unwrap_or(false),
        try_option: false,
        inline_async: v.get("inline_async").and_then(|x| x.as_bool()).unwrap_or(false),
        trymatch: v.get("trymatch").and_then(|x| x.as_bool()).unwrap_or(false),
        proof_start: s(v, "proof_start"),
        proof_end: s(v, "proof_end"),
        proof_return: s(v, "proof_return"),
        attrs: s(v, "attrs"),
        ..Default::default()
    };
    if !s(v, "rename").is_empty() {
        f.rename_to = Some(s(v, "rename"));
    }
    if !s(v, "retty").is_empty() {
        f.retty = Some(s(v, "retty"));
    }
    if !s(v, "as").is_empty() {
        f.emit_self = Some(s(v, "as"));
    }
    if let Some(o) = v.get("loops").and_then(|x| x.as_object()) {
        for (k, l) in o {
            f.loops.insert(
                k.parse().unwrap(),
                LoopSpec {
                    iter: l.get("iter").and_then(|x| x.as_str()).map(|x| x.to_string()),
                    spec: s(l, "spec"),
                    body_start: s(l, "start"),
                    body_end: s(l, "end"),
                    before: s(l, "before"),
                    after: s(l, "after"),
                },
            );
        }
    }
    for (name, dst) in [("proof_after", 0), ("proof_before", 1)] {
        if let Some(a) = v.get(name).and_then(|x| x.as_array()) {
            for p in a {
                let x = (norm(p[0].as_str().unwrap()), p[1].as_str().unwrap().to_string());
                if dst == 0 {
                    f.proof_after.push(x)
                } else {
                    f.proof_before.push(x)
                }
            }
        }
    }
    if let Some(o) = v.get("closures").and_then(|x| x.as_object()) {
        for (k, l) in o {
            f.closures.insert(k.parse().unwrap(), l.as_str().unwrap().to_string());
        }
    }
    if let Some(a) = v.get("rewrites").and_then(|x| x.as_array()) {
        for p in a {
            f.rewrites.push((norm(p[0].as_str().unwrap()), p[1].as_str().unwrap().to_string()));
        }
    }
    f.drop_bounds = strset(&v["drop_bounds"]);
    f.subst = v.get("subst").map(strmap).unwrap_or_default();
    f.argty = v
        .get("argty")
        .and_then(|x| x.as_object())
        .map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect())
        .unwrap_or_default();
    f
}

fn expand_derive(name: &Ident, data: &Fields, enum_: Option<&ItemEnum>, which: &str, gen: &Generics) -> TokenStream {
    let (ig, tg, wc) = gen.split_for_impl();
    match (which, enum_) {
        ("PartialEq", None) => {
            let conds: Vec<TokenStream> = data
                .iter()
                .enumerate()
                .map(|(i, f)| {
                    let m = match &f.ident {
                        Some(id) => quote!(#id),
                        None => {
                            let ix = Index::from(i);
                            quote!(#ix)
                        }
                    };
                    quote!(self.#m == other.#m)
                })
                .collect();
            let body = if conds.is_empty() { quote!(true) } else { quote!(#(#conds)&&*) };
            quote! {
                impl #ig vstd::std_specs::cmp::PartialEqSpecImpl for #name #tg #wc {
                    open spec fn obeys_eq_spec() -> bool { true }
                    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
                }
                impl #ig PartialEq for #name #tg #wc {
                    fn eq(&self, other: &Self) -> bool { #body }
                }
            }
        }
        ("PartialEq", Some(e)) => {
            let mut arms = vec![];
            for v in &e.variants {
                let id = &v.ident;
                match &v.fields {
                    Fields::Unit => arms.push(quote!((#name::#id, #name::#id) => true)),
                    Fields::Named(nf) => {
                        let fs: Vec<_> = nf.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                        let a: Vec<_> = fs.iter().map(|f| format_ident!("a_{}", f)).collect();
                        let b: Vec<_> = fs.iter().map(|f| format_ident!("b_{}", f)).collect();
                        arms.push(quote!((#name::#id { #(#fs: #a),* }, #name::#id { #(#fs: #b),* }) => { #( *#a == *#b )&&* }));
                    }
                    Fields::Unnamed(uf) => {
                        let a: Vec<_> = (0..uf.unnamed.len()).map(|i| format_ident!("a_{}", i)).collect();
                        let b: Vec<_> = (0..uf.unnamed.len()).map(|i| format_ident!("b_{}", i)).collect();
                        arms.push(quote!((#name::#id ( #(#a),* ), #name::#id ( #(#b),* )) => { #( *#a == *#b )&&* }));
                    }
                }
            }
            quote! {
                impl #ig vstd::std_specs::cmp::PartialEqSpecImpl for #name #tg #wc {
                    open spec fn obeys_eq_spec() -> bool { true }
                    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
                }
                impl #ig PartialEq for #name #tg #wc {
                    fn eq(&self, other: &Self) -> bool { match (self, other) { #(#arms,)* _ => false } }
                }
            }
        }
        ("Eq", _) => quote!(impl #ig Eq for #name #tg #wc {}),
        ("PartialOrd", None) => {
            // the derive's lexicographic comparison, fields in declaration order
            let mut chain = quote!(Some(core::cmp::Ordering::Equal));
            let fs: Vec<_> = data.iter().enumerate().collect();
            for (k, (i, f)) in fs.iter().rev().enumerate() {
                let m = match &f.ident {
                    Some(id) => quote!(#id),
                    None => {
                        let ix = Index::from(*i);
                        quote!(#ix)
                    }
                };
                if k == 0 {
                    chain = quote!(self.#m.partial_cmp(&other.#m));
                } else {
                    chain = quote!(match self.#m.partial_cmp(&other.#m) {
                        Some(core::cmp::Ordering::Equal) => { #chain }
                        vx_c => vx_c,
                    });
                }
            }
            quote! {
                impl #ig PartialOrd for #name #tg #wc {
                    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> { #chain }
                }
            }
        }
        ("Ord", None) => {
            let mut chain = quote!(core::cmp::Ordering::Equal);
            let fs: Vec<_> = data.iter().enumerate().collect();
            for (k, (i, f)) in fs.iter().rev().enumerate() {
                let m = match &f.ident {
                    Some(id) => quote!(#id),
                    None => {
                        let ix = Index::from(*i);
                        quote!(#ix)
                    }
                };
                if k == 0 {
                    chain = quote!(self.#m.cmp(&other.#m));
                } else {
                    chain = quote!(match self.#m.cmp(&other.#m) {
                        core::cmp::Ordering::Equal => { #chain }
                        vx_c => vx_c,
                    });
                }
            }
            quote! {
                impl #ig Ord for #name #tg #wc {
                    fn cmp(&self, other: &Self) -> core::cmp::Ordering { #chain }
                }
            }
        }
        ("Default", Some(e)) => match e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))) {
            Some(v) => {
                let id = &v.ident;
                quote! {
                    impl #ig Default for #name #tg #wc {
                        fn default() -> (r: Self) ensures r == #name::#id { #name::#id }
                    }
                }
            }
            None => quote!(),
        },
        ("Default", None) => {
            let inits: Vec<TokenStream> = data
                .iter()
                .map(|f| {
                    let id = &f.ident;
                    quote!(#id: Default::default())
                })
                .collect();
            let ens: Vec<TokenStream> = data
                .iter()
                .map(|f| {
                    let id = &f.ident;
                    let ty = &f.ty;
                    quote!(call_ensures(<#ty as Default>::default, (), r.#id))
                })
                .collect();
            quote! {
                impl #ig Default for #name #tg #wc {
                    fn default() -> (r: Self) ensures #(#ens),* { #name { #(#inits),* } }
                }
            }
        }
        _ => quote!(),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cfg: Value = serde_json::from_str(&fs::read_to_string(&args[1]).unwrap()).unwrap();
    let root = s(&cfg, "root");
    let g = Global {
        mono: strset(&cfg["mono"]),
        shims: strset(&cfg["shims"]),
        drop_assoc: strset(&cfg["drop_assoc"]),
        drop_bounds: strset(&cfg["drop_bounds"]),
        shim_paths: strmap(&cfg["shim_paths"]),
        drop_args: cfg["drop_args"]
            .as_object()
            .map(|o| {
                o.iter()
                    .map(|(k, v)| (k.clone(), v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()))
                    .collect()
            })
            .unwrap_or_default(),
        type_map: strmap(&cfg["type_map"]),
        expr_map: strmap(&cfg["expr_map"]),
        drop_params: strset(&cfg["drop_params"]),
        unwrap_types: strset(&cfg["unwrap_types"]),
        features: strset(&cfg["features"]),
        no_unfold: strset(&cfg["no_unfold"]).into_iter().map(|x| norm(&x)).collect(),
        rename: strmap(&cfg["rename"]),
    };
    let excluded = strset(&cfg["excluded"]);
    let mut ph = Placeholders { n: 0, texts: vec![] };
    let mut out = String::new();
    out.push_str(&s(&cfg, "prelude"));
    out.push('\n');
    let mut meta_fns: Vec<Value> = vec![];
    let mut meta_types: Vec<Value> = vec![];
    let mut errors: Vec<Value> = vec![];
    let mut files: HashMap<String, File> = HashMap::new();

    let mods = cfg["modules"].as_array().unwrap();
    // names with a contract anywhere: never inlined
    let mut contracted: HashSet<String> = HashSet::new();
    for m in mods {
        for it in m["items"].as_array().unwrap() {
            if it["kind"] == "fn" {
                let k = s(it, "key");
                let n = k.rsplit("::").next().unwrap().to_string();
                contracted.insert(n);
            }
        }
        for n in strset(&m["names"]) {
            contracted.insert(n);
        }
    }
    for n in strset(&cfg["known_names"]) {
        contracted.insert(n);
    }

    for m in mods {
        let mname = s(m, "name");
        let mut body = TokenStream::new();
        let items = m["items"].as_array().unwrap();
        // load sources
        let mut srcs: Vec<String> = vec![];
        for it in items {
            let p = s(it, "source");
            if !p.is_empty() && !srcs.contains(&p) {
                srcs.push(p);
            }
        }
        for p in &srcs {
            if !files.contains_key(p) {
                let text = match fs::read_to_string(format!("{root}/{p}")) {
                    Ok(t) => t,
                    Err(e) => {
                        errors.push(json!({"what": "lost source", "source": p, "err": e.to_string()}));
                        continue;
                    }
                };
                match syn::parse_file(&text) {
                    Ok(f) => {
                        files.insert(p.clone(), f);
                    }
                    Err(e) => errors.push(json!({"what": "parse", "source": p, "err": e.to_string()})),
                }
            }
        }
        // helpers: functions of these sources without a contract
        let mut helpers: HashMap<String, Helper> = HashMap::new();
        for p in &srcs {
            let Some(f) = files.get(p) else { continue };
            let mut its = vec![];
            flatten(&g, &f.items, &mut its);
            for i in its {
                match i {
                    Item::Impl(im) if im.trait_.is_none() => {
                        for x in &im.items {
                            if let ImplItem::Fn(f) = x {
                                let n = f.sig.ident.to_string();
                                if !contracted.contains(&n) {
                                    helpers.insert(
                                        n,
                                        Helper {
                                            item: f.clone(),
                                            is_method: f.sig.receiver().is_some(),
                                            owner: self_ident(&im.self_ty),
                                            subst: HashMap::new(),
                                        },
                                    );
                                }
                            }
                        }
                    }
                    Item::Fn(f) => {
                        let n = f.sig.ident.to_string();
                        if !contracted.contains(&n) {
                            helpers.insert(
                                n,
                                Helper {
                                    item: ImplItemFn {
                                        attrs: vec![],
                                        vis: f.vis.clone(),
                                        defaultness: None,
                                        sig: f.sig.clone(),
                                        block: (*f.block).clone(),
                                    },
                                    is_method: false,
                                    owner: String::new(),
                                    subst: HashMap::new(),
                                },
                            );
                        }
                    }
                    _ => {}
                }
            }
        }
        // trait impls are grouped
        let mut trait_groups: BTreeMap<String, (TokenStream, TokenStream)> = BTreeMap::new();
        for it in items {
            let kind = s(it, "kind");
            let src = s(it, "source");
            let file_items: Vec<&Item> = match files.get(&src) {
                Some(f) => {
                    let mut v = vec![];
                    flatten(&g, &f.items, &mut v);
                    v
                }
                None => vec![],
            };
            match kind.as_str() {
                "raw" => {
                    let id = ph.put(format!("\n{}\n", s(it, "text")));
                    body.extend(quote!(#id));
                }
                "type" => {
                    let name = s(it, "key");
                    let want: Vec<String> = it["derive"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
                    let opaque = strset(&it["opaque_fields"]);
                    let dropf = strset(&it["drop_fields"]);
                    let keepv = strset(&it["keep_variants"]);
                    let mut found = false;
                    let spec = fnspec_from(it);
                    for i in &file_items {
                        let empty = HashMap::new();
                        let mut xf = Xf {
                            g: &g,
                            f: spec.clone(),
                            ph: &mut ph,
                            loop_no: 0,
                            closure_no: 0,
                            notes: Default::default(),
                            used_rewrites: Default::default(),
                            used_anchor: Default::default(),
                            calls: Default::default(),
                            helpers: &empty,
                            inlining: vec![],
                            inline_no: 0,
                            has_loop_lost: vec![],
                        };
                        match i {
                            Item::Struct(st) if st.ident == name => {
                                found = true;
                                let ds = derives(&st.attrs);
                                let mut st = st.clone();
                                strip_attrs(&mut st.attrs);
                                st.vis = parse_quote!(pub);
                                clean_generics(&mut xf, &mut st.generics);
                                if let Fields::Named(nf) = &mut st.fields {
                                    let kept: Vec<Field> = nf
                                        .named
                                        .iter()
                                        .filter(|f| cfg_active(&g, &f.attrs) && !dropf.contains(&f.ident.as_ref().unwrap().to_string()))
                                        .cloned()
                                        .collect();
                                    nf.named = kept.into_iter().collect();
                                    if !nf.named.empty_or_trailing() {
                                        nf.named.push_punct(Default::default());
                                    }
                                }
                                for f in st.fields.iter_mut() {
                                    strip_attrs(&mut f.attrs);
                                    f.vis = parse_quote!(pub);
                                    if f.ident.as_ref().map(|x| opaque.contains(&x.to_string())).unwrap_or(false) {
                                        f.ty = parse_quote!(VxOpaque);
                                    } else {
                                        xf.visit_type_mut(&mut f.ty);
                                    }
                                }
                                let copy: Vec<Ident> = ["Clone", "Copy"]
                                    .iter()
                                    .filter(|d| ds.contains(&d.to_string()) && want.contains(&d.to_string()))
                                    .map(|d| format_ident!("{}", d))
                                    .collect();
                                if copy.iter().any(|c| c == "Copy") {
                                    body.extend(quote!(#[derive(#(#copy),*)]));
                                } else if !copy.is_empty() {
                                    // derive(Clone) of a type that is not Copy: assumed to be the field-wise clone
                                    let (ig, tg, wc) = st.generics.split_for_impl();
                                    let nm = &st.ident;
                                    body.extend(quote!(impl #ig Clone for #nm #tg #wc {
                                        #[verifier::external_body]
                                        fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
                                    }));
                                }
                                let at = spec.attrs.parse::<TokenStream>().unwrap();
                                body.extend(at);
                                st.to_tokens(&mut body);
                                for w in &want {
                                    if matches!(w.as_str(), "Clone" | "Copy") {
                                        continue;
                                    }
                                    if !ds.contains(w) {
                                        errors.push(json!({"what": "derive not found", "item": name, "derive": w}));
                                        continue;
                                    }
                                    let dk = format!("derive {w} for {name}");
                                    let mk = ph.put(format!("\n//@FN {dk} {src}:{}\n", st.ident.span().start().line));
                                    let mk2 = ph.put("\n//@END\n".to_string());
                                    let d = expand_derive(&st.ident, &st.fields, None, w, &st.generics);
                                    body.extend(quote!(#mk #d #mk2));
                                    meta_fns.push(json!({"key": dk, "source": src, "line": st.ident.span().start().line, "end_line": st.ident.span().start().line, "module": mname, "derived": true, "notes": {}, "trusted": false, "excluded": false, "lost": []}));
                                }
                                meta_types.push(json!({"type": name, "source": src, "derives": ds}));
                            }
                            Item::Enum(st) if st.ident == name => {
                                found = true;
                                let ds = derives(&st.attrs);
                                let orig = st.clone();
                                let mut st = st.clone();
                                strip_attrs(&mut st.attrs);
                                st.vis = parse_quote!(pub);
                                clean_generics(&mut xf, &mut st.generics);
                                if !keepv.is_empty() {
                                    let kept: Vec<Variant> = st.variants.iter().filter(|v| keepv.contains(&v.ident.to_string())).cloned().collect();
                                    st.variants = kept.into_iter().collect();
                                }
                                for v in st.variants.iter_mut() {
                                    strip_attrs(&mut v.attrs);
                                    for f in v.fields.iter_mut() {
                                        strip_attrs(&mut f.attrs);
                                        xf.visit_type_mut(&mut f.ty);
                                    }
                                }
                                let copy: Vec<Ident> = ["Clone", "Copy"]
                                    .iter()
                                    .filter(|d| ds.contains(&d.to_string()) && want.contains(&d.to_string()))
                                    .map(|d| format_ident!("{}", d))
                                    .collect();
                                if copy.iter().any(|c| c == "Copy") {
                                    body.extend(quote!(#[derive(#(#copy),*)]));
                                } else if !copy.is_empty() {
                                    // derive(Clone) of a type that is not Copy: assumed to be the field-wise clone
                                    let (ig, tg, wc) = st.generics.split_for_impl();
                                    let nm = &st.ident;
                                    body.extend(quote!(impl #ig Clone for #nm #tg #wc {
                                        #[verifier::external_body]
                                        fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
                                    }));
                                }
                                let at = spec.attrs.parse::<TokenStream>().unwrap();
                                body.extend(at);
                                st.to_tokens(&mut body);
                                for w in &want {
                                    if matches!(w.as_str(), "Clone" | "Copy") {
                                        continue;
                                    }
                                    if !ds.contains(w) {
                                        errors.push(json!({"what": "derive not found", "item": name, "derive": w}));
                                        continue;
                                    }
                                    let dk = format!("derive {w} for {name}");
                                    let mk = ph.put(format!("\n//@FN {dk} {src}:{}\n", st.ident.span().start().line));
                                    let mk2 = ph.put("\n//@END\n".to_string());
                                    let d = expand_derive(&st.ident, &Fields::Unit, Some(if w == "Default" { &orig } else { &st }), w, &st.generics);
                                    body.extend(quote!(#mk #d #mk2));
                                    meta_fns.push(json!({"key": dk, "source": src, "line": st.ident.span().start().line, "end_line": st.ident.span().start().line, "module": mname, "derived": true, "notes": {}, "trusted": false, "excluded": false, "lost": []}));
                                }
                                meta_types.push(json!({"type": name, "source": src, "derives": ds}));
                            }
                            Item::Type(t) if t.ident == name => {
                                found = true;
                                let mut t = t.clone();
                                strip_attrs(&mut t.attrs);
                                t.vis = parse_quote!(pub);
                                clean_generics(&mut xf, &mut t.generics);
                                xf.visit_type_mut(&mut t.ty);
                                t.to_tokens(&mut body);
                            }
                            Item::Const(t) if t.ident == name => {
                                found = true;
                                let mut t = t.clone();
                                strip_attrs(&mut t.attrs);
                                t.vis = parse_quote!(pub);
                                t.to_tokens(&mut body);
                            }
                            _ => {}
                        }
                    }
                    if !found {
                        errors.push(json!({"what": "lost anchor", "item": name, "source": src}));
                    }
                }
                "fn" => {
                    let mut spec = fnspec_from(it);
                    let key = spec.key.clone();
                    let Some(found) = find_fn(&g, &file_items, &key) else {
                        errors.push(json!({"what": "lost anchor", "item": key, "source": src}));
                        continue;
                    };
                    // a body that is verified once for each of several groups of cases goes by the name of each
                    let key = match (&spec.rename_to, key.rsplit_once("::")) {
                        (Some(r), Some((t, n))) if r.starts_with(&format!("{n}_")) => format!("{t}::{r}"),
                        _ => key,
                    };
                    let is_excluded = excluded.contains(&key);
                    if is_excluded {
                        spec.trusted = true;
                    }
                    let mut item = found.item.clone();
                    spec.try_option = matches!(&item.sig.output, ReturnType::Type(_, t) if toks(t).starts_with("Option<"));
                    let line = item.sig.ident.span().start().line;
                    let end_line = item.block.span().end().line;
                    let mut xf = Xf {
                        g: &g,
                        f: spec.clone(),
                        ph: &mut ph,
                        loop_no: 0,
                        closure_no: 0,
                        notes: Default::default(),
                        used_rewrites: Default::default(),
                        used_anchor: Default::default(),
                        calls: Default::default(),
                        helpers: &helpers,
                        inlining: vec![],
                        inline_no: 0,
                        has_loop_lost: vec![],
                    };
                    // signature
                    if item.sig.asyncness.is_some() {
                        item.sig.asyncness = None;
                        xf.note("T7 async dropped");
                    }
                    let mut mut_self = false;
                    clean_generics(&mut xf, &mut item.sig.generics);
                    for a in item.sig.inputs.iter_mut() {
                        match a {
                            FnArg::Typed(t) => {
                                strip_attrs(&mut t.attrs);
                                let nm = match &*t.pat {
                                    Pat::Ident(pi) => pi.ident.to_string(),
                                    p => toks(p),
                                };
                                if let Some(ty) = spec.argty.get(&nm) {
                                    *t.ty = syn::parse_str(ty).unwrap();
                                    xf.note(&format!("T10 argument type of {nm} instantiated as {ty}"));
                                } else {
                                    xf.visit_type_mut(&mut t.ty);
                                }
                            }
                            FnArg::Receiver(r) => {
                                strip_attrs(&mut r.attrs);
                                if r.reference.is_none() && r.mutability.is_some() {
                                    r.mutability = None;
                                    mut_self = true;
                                }
                            }
                        }
                    }
                    if mut_self {
                        xf.note("T15 `mut self` -> `let mut vx_self = self`");
                        struct RS;
                        impl VisitMut for RS {
                            fn visit_path_mut(&mut self, p: &mut Path) {
                                if p.is_ident("self") {
                                    *p = parse_quote!(vx_self);
                                }
                                visit_mut::visit_path_mut(self, p);
                            }
                        }
                        RS.visit_block_mut(&mut item.block);
                        item.block.stmts.insert(0, parse_quote!(let mut vx_self = self;));
                    }
                    if let ReturnType::Type(_, t) = &mut item.sig.output {
                        xf.visit_type_mut(t);
                        if let Some(rt) = &spec.retty {
                            **t = syn::parse_str(rt).unwrap();
                        }
                    }
                    let trusted = spec.trusted;
                    if !trusted {
                        xf.run_block(&mut item.block);
                    }
                    let mut lost: Vec<String> = xf.has_loop_lost.clone();
                    if !trusted && !spec.proof_return.is_empty() {
                        let id = xf.ph.put(format!("\n{}\n", spec.proof_return));
                        proof_at_returns(&mut item.block, &id);
                    }
                    if !trusted {
                        for (i, (p, _)) in spec.proof_after.iter().enumerate() {
                            if !xf.used_anchor.contains(&format!("after{i}")) {
                                lost.push(format!("proof anchor lost: after `{p}`"));
                            }
                        }
                        for (i, (p, _)) in spec.proof_before.iter().enumerate() {
                            if !xf.used_anchor.contains(&format!("before{i}")) {
                                lost.push(format!("proof anchor lost: before `{p}`"));
                            }
                        }
                        for (i, (p, _)) in spec.rewrites.iter().enumerate() {
                            if !xf.used_rewrites.contains(&i) {
                                lost.push(format!("rewrite anchor lost: `{p}`"));
                            }
                        }
                        for k in spec.loops.keys() {
                            if *k >= xf.loop_no {
                                lost.push(format!("loop {k} not found"));
                            }
                        }
                        for k in spec.closures.keys() {
                            if *k >= xf.closure_no {
                                lost.push(format!("closure {k} not found"));
                            }
                        }
                    }
                    let notes = xf.notes.clone();
                    let calls = xf.calls.clone();
                    // emit
                    let name = match &spec.rename_to {
                        Some(n) => format_ident!("{}", n),
                        None => item.sig.ident.clone(),
                    };
                    let gen = &item.sig.generics;
                    let (lt, pr, gt, wc) = (&gen.lt_token, &gen.params, &gen.gt_token, &gen.where_clause);
                    let inputs = &item.sig.inputs;
                    let retid = format_ident!("{}", spec.ret);
                    let output = match &item.sig.output {
                        ReturnType::Default => quote!(),
                        ReturnType::Type(_, t) => quote!(-> (#retid : #t)),
                    };
                    let start = ph.put(format!("\n//@FN {key} {src}:{line}\n"));
                    let end = ph.put("\n//@END\n".to_string());
                    let spec_ph = if spec.spec.trim().is_empty() {
                        quote!()
                    } else {
                        let id = ph.put(format!("\n{}\n", spec.spec));
                        quote!(#id)
                    };
                    let attrs: TokenStream = spec.attrs.parse().unwrap();
                    let attrs = if trusted { quote!(#[verifier::external_body] #attrs) } else { attrs };
                    let stmts = &item.block.stmts;
                    let ps = if spec.proof_start.is_empty() || trusted {
                        quote!()
                    } else {
                        let id = ph.put(format!("\n{}\n", spec.proof_start));
                        quote!(#id)
                    };
                    let bodyts = if trusted {
                        quote!({ unimplemented!() })
                    } else if spec.proof_end.is_empty() {
                        quote!({ #ps #(#stmts)* })
                    } else {
                        let id = ph.put(format!("\n{}\n", spec.proof_end));
                        if output.is_empty() {
                            // make sure the last statement is terminated
                            quote!({ #ps #(#stmts)* ; #id })
                        } else {
                            quote!({ #ps let #retid = { #(#stmts)* }; #id #retid })
                        }
                    };
                    let is_trait_impl = spec.emit_self.is_none() && found.imp.as_ref().map(|i| i.trait_.is_some()).unwrap_or(false);
                    let trait_decl_only = found.trait_item.as_ref().map(|t| t.default.is_none()).unwrap_or(false);
                    let vis = if is_trait_impl { quote!() } else { quote!(pub) };
                    let bodyts = if trait_decl_only && !trusted { quote!(;) } else { bodyts };
                    let fnts = quote!(#start #attrs #vis fn #name #lt #pr #gt (#inputs) #output #wc #spec_ph #bodyts #end);
                    match (&found.imp, found.from_trait) {
                        (Some(im), _) => {
                            let mut im = im.clone();
                            if spec.emit_self.is_some() {
                                // a method of a trait impl, emitted as an inherent method
                                im.trait_ = None;
                            }
                            if let Some(es) = spec.emit_self.as_deref().filter(|x| x.starts_with("impl")) {
                                im = syn::parse_str(&format!("{es} {{}}")).unwrap();
                            }
                            let empty = HashMap::new();
                            let mut xf = Xf {
                                g: &g,
                                f: spec.clone(),
                                ph: &mut ph,
                                loop_no: 0,
                                closure_no: 0,
                                notes: Default::default(),
                                used_rewrites: Default::default(),
                                used_anchor: Default::default(),
                                calls: Default::default(),
                                helpers: &empty,
                                inlining: vec![],
                                inline_no: 0,
                                has_loop_lost: vec![],
                            };
                            clean_generics(&mut xf, &mut im.generics);
                            xf.visit_type_mut(&mut im.self_ty);
                            let (ig, _, wc) = im.generics.split_for_impl();
                            let st = &im.self_ty;
                            if let Some((_, tp, _)) = &im.trait_ {
                                let mut tp = tp.clone();
                                // trait generic args
                                if let Some(t) = xf.map_type_path(&tp) {
                                    if let Type::Path(x) = t {
                                        tp = x.path;
                                    }
                                } else {
                                    xf.visit_path_mut(&mut tp);
                                }
                                let mut assoc = TokenStream::new();
                                for x in &im.items {
                                    if let ImplItem::Type(t) = x {
                                        if g.drop_assoc.contains(&t.ident.to_string()) {
                                            continue;
                                        }
                                        let mut t = t.clone();
                                        strip_attrs(&mut t.attrs);
                                        xf.visit_type_mut(&mut t.ty);
                                        t.to_tokens(&mut assoc);
                                    }
                                }
                                let hdr = quote!(impl #ig #tp for #st #wc);
                                let e = trait_groups.entry(hdr.to_string()).or_insert_with(|| (hdr, assoc));
                                e.1.extend(fnts);
                            } else {
                                body.extend(quote!(impl #ig #st #wc { #fnts }));
                            }
                        }
                        (None, true) => {
                            // default method of a trait, emitted as an inherent method of the type named by `as`
                            let es = spec.emit_self.as_deref().unwrap_or("VxSelf");
                            if es.starts_with("impl") {
                                let im: ItemImpl = syn::parse_str(&format!("{es} {{}}")).unwrap();
                                let (ig, _, wc) = im.generics.split_for_impl();
                                let st = &im.self_ty;
                                body.extend(quote!(impl #ig #st #wc { #fnts }));
                            } else {
                                let st: Type = syn::parse_str(es).unwrap();
                                body.extend(quote!(impl #st { #fnts }));
                            }
                        }
                        (None, false) => body.extend(fnts),
                    }
                    meta_fns.push(json!({
                        "key": key, "source": src, "line": line, "end_line": end_line, "module": mname,
                        "notes": notes, "calls": calls, "trusted": spec.trusted && !is_excluded, "excluded": is_excluded, "lost": lost,
                        "loops": 0, "derived": false, "has_spec": !spec.spec.trim().is_empty(),
                    }));
                }
                _ => panic!("unknown item kind {kind}"),
            }
        }
        for (_, (hdr, b)) in trait_groups {
            body.extend(quote!(#hdr { #b }));
        }
        let mut text = String::new();
        print_tokens(body, &mut text, 0);
        out.push_str(&format!("\npub mod {mname} {{\nuse crate::*;\nverus! {{\n{text}\n}} // verus!\n}} // mod {mname}\n"));
    }
    out.push_str(&s(&cfg, "epilogue"));
    // substitute placeholders (they may nest)
    for _ in 0..3 {
        let mut res = String::with_capacity(out.len());
        let mut rest = out.as_str();
        let mut any = false;
        while let Some(p) = rest.find("VXPH") {
            let tail = &rest[p + 4..];
            if let Some(q) = tail.find("HPXV") {
                if let Ok(n) = tail[..q].parse::<usize>() {
                    res.push_str(&rest[..p]);
                    res.push_str(&ph.texts[n]);
                    rest = &tail[q + 4..];
                    any = true;
                    continue;
                }
            }
            res.push_str(&rest[..p + 4]);
            rest = &rest[p + 4..];
        }
        res.push_str(rest);
        out = res;
        if !any {
            break;
        }
    }
    // line map
    let mut fn_lines: Vec<Value> = vec![];
    let mut cur: Option<(String, usize)> = None;
    for (i, l) in out.lines().enumerate() {
        if let Some(r) = l.strip_prefix("//@FN ") {
            let key = r.rsplit_once(' ').map(|x| x.0).unwrap_or(r);
            cur = Some((key.to_string(), i + 1));
        } else if l.starts_with("//@END") {
            if let Some((k, st)) = cur.take() {
                fn_lines.push(json!({"key": k, "start": st, "end": i + 1}));
            }
        }
    }
    fs::write(&args[2], out).unwrap();
    let meta = json!({"fns": meta_fns, "types": meta_types, "errors": errors, "lines": fn_lines});
    fs::write(&args[3], serde_json::to_string_pretty(&meta).unwrap()).unwrap();
}
