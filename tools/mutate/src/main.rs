//! Development aid: rewrites the library so that every mutant is compiled in and
//! picked at run time by the environment variable MUT.
//!
//! mutate SRC OUT [DROP]: DROP lists the numbers of mutants to leave out.

use quote::{quote, ToTokens};
use std::collections::HashSet;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct M {
    file: String,
    next: usize,
    drop: HashSet<usize>,
    list: Vec<String>,
    used: Vec<usize>,
}

fn short(t: String) -> String {
    let t: String = t.split_whitespace().collect::<Vec<_>>().join(" ");
    t.chars().take(90).collect()
}

impl M {
    /// The number of the next mutant, unless it is to be left out.
    fn take(&mut self, line: usize, what: String) -> Option<Ident> {
        let n = self.next;
        self.next += 1;
        if self.drop.contains(&n) {
            return None;
        }
        self.list.push(format!("{}\t{}:{}\t{}", n, self.file, line, what));
        self.used.push(n);
        Some(Ident::new(&format!("m{}", n), proc_macro2::Span::call_site()))
    }

    fn wrap(&mut self, e: &mut Expr, line: usize, original: &Expr, variants: Vec<Expr>) {
        for v in variants {
            let what = format!("{}  =>  {}", short(original.to_token_stream().to_string()), short(v.to_token_stream().to_string()));
            if let Some(id) = self.take(line, what) {
                let cur = e.clone();
                *e = Expr::Verbatim(quote! { ( __NL__ if crate::m::#id() { #v } else { __NL__ #cur } ) });
            }
        }
    }
}

fn e(t: proc_macro2::TokenStream) -> Expr {
    Expr::Verbatim(t)
}

impl VisitMut for M {
    fn visit_item_mod_mut(&mut self, i: &mut ItemMod) {
        if i.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) {
            return;
        }
        visit_mut::visit_item_mod_mut(self, i);
    }
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_item_static_mut(&mut self, _: &mut ItemStatic) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        let original = s.clone();
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Expr(x, Some(_)) = &original {
            if matches!(x, Expr::MethodCall(_) | Expr::Call(_) | Expr::Assign(_) | Expr::Binary(_) | Expr::Try(_) | Expr::Continue(_) | Expr::Return(_)) {
                let what = format!("delete: {}", short(x.to_token_stream().to_string()));
                if let Some(id) = self.take(x.span().start().line, what) {
                    let cur = s.clone();
                    *s = Stmt::Expr(Expr::Verbatim(quote! { __NL__ if !crate::m::#id() { __NL__ #cur } }), None);
                }
            }
        }
    }

    fn visit_expr_mut(&mut self, x: &mut Expr) {
        let o = x.clone();
        let line = o.span().start().line;
        if let Expr::Let(l) = x {
            // Only what is matched on.
            self.visit_expr_mut(&mut l.expr);
            return;
        }
        visit_mut::visit_expr_mut(self, x);
        let mut v: Vec<Expr> = vec![];
        match &o {
            Expr::Binary(b) => {
                let (l, r) = (&b.left, &b.right);
                let ops: Vec<proc_macro2::TokenStream> = match b.op {
                    BinOp::Lt(_) => vec![quote!(<=), quote!(>=), quote!(!=)],
                    BinOp::Le(_) => vec![quote!(<), quote!(>), quote!(==)],
                    BinOp::Gt(_) => vec![quote!(>=), quote!(<=), quote!(!=)],
                    BinOp::Ge(_) => vec![quote!(>), quote!(<), quote!(==)],
                    BinOp::Eq(_) => vec![quote!(!=), quote!(<=), quote!(>=)],
                    BinOp::Ne(_) => vec![quote!(==), quote!(<), quote!(>)],
                    BinOp::And(_) => vec![quote!(||)],
                    BinOp::Or(_) => vec![quote!(&&)],
                    BinOp::Add(_) => vec![quote!(-)],
                    BinOp::Sub(_) => vec![quote!(+)],
                    BinOp::Mul(_) => vec![quote!(+)],
                    BinOp::Div(_) => vec![quote!(*)],
                    BinOp::Rem(_) => vec![quote!(/)],
                    BinOp::Shl(_) => vec![quote!(>>)],
                    BinOp::Shr(_) => vec![quote!(<<)],
                    BinOp::BitAnd(_) => vec![quote!(|)],
                    BinOp::BitOr(_) => vec![quote!(&)],
                    BinOp::AddAssign(_) => vec![quote!(-=)],
                    BinOp::SubAssign(_) => vec![quote!(+=)],
                    _ => vec![],
                };
                for op in ops {
                    v.push(e(quote!(#l #op #r)));
                }
                if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) {
                    v.push(e(quote!(#l)));
                    v.push(e(quote!(#r)));
                }
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) => {
                    if let Ok(n) = i.base10_parse::<u64>() {
                        let a = Literal::u64_unsuffixed(n + 1);
                        v.push(e(quote!(#a)));
                        if n > 0 {
                            let z = Literal::u64_unsuffixed(n - 1);
                            v.push(e(quote!(#z)));
                        }
                    }
                }
                Lit::Bool(b) => {
                    let n = !b.value;
                    v.push(e(quote!(#n)));
                }
                Lit::Str(s) => {
                    let t = if s.value().is_empty() { "q" } else { "" };
                    v.push(e(quote!(#t)));
                }
                Lit::Char(_) => v.push(e(quote!('q'))),
                _ => {}
            },
            Expr::Unary(u) => {
                let i = &u.expr;
                match u.op {
                    UnOp::Not(_) | UnOp::Neg(_) => v.push(e(quote!(#i))),
                    _ => {}
                }
            }
            Expr::If(i) if !matches!(*i.cond, Expr::Let(_)) => {
                // The condition itself.
                if let Expr::If(cur) = x {
                    let c = (*i.cond).clone();
                    let mut now = (*cur.cond).clone();
                    self.wrap(&mut now, line, &c, vec![e(quote!(true)), e(quote!(false))]);
                    *cur.cond = now;
                }
            }
            Expr::MethodCall(m) => {
                let (r, a) = (&m.receiver, &m.args);
                let name = m.method.to_string();
                let swap: &[&str] = match name.as_str() {
                    "is_some" => &["is_none"],
                    "is_none" => &["is_some"],
                    "first" => &["last"],
                    "last" => &["first"],
                    "min" => &["max"],
                    "max" => &["min"],
                    "starts_with" => &["ends_with", "contains"],
                    "ends_with" => &["starts_with", "contains"],
                    "contains" => &["starts_with"],
                    "find" => &["rfind"],
                    "rfind" => &["find"],
                    "any" => &["all"],
                    "all" => &["any"],
                    "cmp" => &[],
                    "push" => &[],
                    "pop" => &[],
                    "or_else" | "or" => &[],
                    "replacen" => &[],
                    "wrapping_add" => &["wrapping_sub"],
                    "splitn" => &["rsplitn"],
                    "next" => &["last"],
                    "set_query" | "set_fragment" => &[],
                    "to_lowercase" => &["to_uppercase"],
                    "split" => &["rsplit"],
                    "unwrap_or" => &[],
                    "eq_ignore_ascii_case" => &["eq"],
                    _ => &[],
                };
                for s in swap {
                    let s = Ident::new(s, proc_macro2::Span::call_site());
                    v.push(e(quote!(#r.#s(#a))));
                }
                match name.as_str() {
                    "filter" | "skip" | "take" | "rev" | "trim" | "trim_start" | "trim_end" | "trim_matches" | "trim_start_matches"
                    | "trim_end_matches" | "or_else" | "or" | "to_lowercase" | "to_ascii_lowercase" | "replace" | "replacen" | "then"
                    | "then_with" | "dedup" | "chain" | "skip_while" | "take_while" | "and_then" | "abs" | "saturating_sub"
                    | "saturating_add" | "map" | "wrapping_neg" | "unwrap_or" | "map_err" | "insert_str" => v.push(e(quote!(#r))),
                    _ => {}
                }
                if name == "cmp" && a.len() == 1 {
                    let w = &a[0];
                    v.push(e(quote!((#w).cmp(&#r))));
                    v.push(e(quote!(std::cmp::Ordering::Equal)));
                }
                if name == "then" || name == "then_with" || name == "or" {
                    if let Some(w) = a.first() {
                        v.push(e(quote!(#w)));
                    }
                }
                if ["is_some", "is_none", "contains", "starts_with", "is_empty", "contains_key", "has"].contains(&name.as_str()) {
                    v.push(e(quote!(true)));
                    v.push(e(quote!(false)));
                }
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string();
                if f == "Some" {
                    v.push(e(quote!(None)));
                }
                if f == "Err" || f == "Ok" {}
            }
            Expr::Cast(c) => {
                let t = c.ty.to_token_stream().to_string();
                let i = &c.expr;
                let ty = &c.ty;
                if ["usize", "i32", "u32", "i64", "u64", "isize"].contains(&t.as_str()) {
                    v.push(e(quote!((#i) as i16 as #ty)));
                    v.push(e(quote!((#i) as u16 as #ty)));
                }
            }
            Expr::Range(r) => {
                if let (Some(a), Some(b)) = (&r.start, &r.end) {
                    if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                        v.push(e(quote!(#a..#b + 1)));
                        v.push(e(quote!(#a + 1..#b)));
                        v.push(e(quote!(#a..#b - 1)));
                    }
                }
            }
            _ => {}
        }
        self.wrap(x, line, &o, v);
    }
}

use proc_macro2::Literal;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, out) = (&a[1], &a[2]);
    let drop: HashSet<usize> = a
        .get(3)
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|t| t.split_whitespace().filter_map(|w| w.parse().ok()).collect())
        .unwrap_or_default();
    let mut m = M { file: String::new(), next: 1, drop, list: vec![], used: vec![] };
    let files = ["array_set", "base64", "base64_vlq", "binary_search", "consumer", "generator", "mapping", "mapping_list", "source_map", "util"];
    for f in files {
        let text = std::fs::read_to_string(format!("{}/{}.rs", src, f)).unwrap();
        let mut t = parse_file(&text).unwrap();
        m.file = format!("{}.rs", f);
        m.visit_file_mut(&mut t);
        let s = t.into_token_stream().to_string();
        let s = s.replace("__NL__", "\n").replace(" ; ", " ;\n");
        std::fs::write(format!("{}/{}.rs", out, f), s).unwrap();
    }
    let mut s = String::from(
        "static ON: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);\nfn on(n: usize) -> bool { let mut v = ON.load(std::sync::atomic::Ordering::Relaxed); if v == usize::MAX { v = std::env::var(\"MUT\").ok().and_then(|x| x.parse().ok()).unwrap_or(0); ON.store(v, std::sync::atomic::Ordering::Relaxed); } v == n }\n",
    );
    for n in &m.used {
        s += &format!("pub fn m{}() -> bool {{ on({}) }}\n", n, n);
    }
    std::fs::write(format!("{}/m.rs", out), s).unwrap();
    println!("{}", m.list.join("\n"));
}
