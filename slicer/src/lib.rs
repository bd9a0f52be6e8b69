//! Cuts from a source file of /repo the items that given ones need, so that code
//! whose file as a whole needs crates that are not here can still be compiled.
//! What is cut out is the file's own tokens, except that everything is made public.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeSet, HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::{Attribute, ImplItem, Item, UseTree, Visibility};

pub struct Slice {
    file: String,
    roots: Vec<String>,
    prune: Vec<String>,
    drop: Vec<String>,
    external: Vec<String>,
    keep: Vec<String>,
    edits: Vec<(String, String)>,
}

/// Of the given file of /repo.
pub fn of(file: &str) -> Slice {
    Slice {
        file: format!("/repo/{file}"),
        roots: vec![],
        prune: ["crate", "super", "self", "typst", "reflexo_typst", "reflexo", "tinymist_query"].map(String::from).to_vec(),
        drop: vec![],
        external: vec![],
        keep: vec![],
        edits: vec![],
    }
}

fn idents(t: TokenStream, out: &mut HashSet<String>) {
    for t in t {
        match t {
            TokenTree::Ident(i) => drop(out.insert(i.to_string().trim_start_matches("r#").to_owned())),
            TokenTree::Group(g) => idents(g.stream(), out),
            // Names within format strings.
            TokenTree::Literal(l) => {
                let l = l.to_string();
                if l.contains('{') {
                    for w in l.split(|c: char| !c.is_alphanumeric() && c != '_') {
                        if !w.is_empty() {
                            out.insert(w.to_owned());
                        }
                    }
                }
            }
            TokenTree::Punct(_) => {}
        }
    }
}

/// The methods called as `self.m`, `Self::m`, `Type::m` or `x.m(`.
fn own_calls(t: TokenStream, own: &HashSet<String>, out: &mut HashSet<String>) {
    let all: Vec<TokenTree> = t.into_iter().collect();
    for (i, t) in all.iter().enumerate() {
        match t {
            TokenTree::Group(g) => own_calls(g.stream(), own, out),
            TokenTree::Ident(x) if x == "self" || x == "Self" || own.contains(&x.to_string()) => {
                let name = all[i + 1..].iter().skip_while(|t| matches!(t, TokenTree::Punct(_))).next();
                if let Some(TokenTree::Ident(n)) = name {
                    out.insert(n.to_string());
                }
            }
            TokenTree::Punct(p) if p.as_char() == '.' && p.spacing() == Spacing::Alone => {
                if let (Some(TokenTree::Ident(n)), Some(TokenTree::Group(g))) = (all.get(i + 1), all.get(i + 2)) {
                    if g.delimiter() == Delimiter::Parenthesis {
                        out.insert(n.to_string());
                    }
                }
            }
            _ => {}
        }
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("test") || (a.path().is_ident("cfg") && a.to_token_stream().to_string().replace(' ', "") == "#[cfg(test)]"))
}

fn attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

fn last(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
        syn::Type::Reference(r) => last(&r.elem),
        _ => None,
    }
}

fn names(i: &Item) -> Vec<String> {
    let one = |x: &syn::Ident| vec![x.to_string()];
    match i {
        Item::Const(x) if x.ident == "_" => vec![],
        Item::Const(x) => one(&x.ident),
        Item::Enum(x) => one(&x.ident),
        Item::Fn(x) => one(&x.sig.ident),
        Item::Macro(x) => x.ident.iter().map(|i| i.to_string()).collect(),
        Item::Mod(x) if x.content.is_some() => one(&x.ident),
        Item::Static(x) => one(&x.ident),
        Item::Struct(x) => one(&x.ident),
        Item::Trait(x) => one(&x.ident),
        Item::Type(x) => one(&x.ident),
        _ => vec![],
    }
}

fn flatten(t: &UseTree, at: Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
    match t {
        UseTree::Path(p) => {
            let mut at = at;
            at.push(p.ident.to_string());
            flatten(&p.tree, at, out)
        }
        UseTree::Name(n) => {
            let mut full = at;
            let n = n.ident.to_string();
            let name = if n == "self" { full.last().cloned().unwrap() } else { n.clone() };
            if n != "self" {
                full.push(n);
            }
            out.push((full, name))
        }
        UseTree::Rename(r) => {
            let mut full = at;
            if r.ident != "self" {
                full.push(r.ident.to_string());
            }
            out.push((full, r.rename.to_string()))
        }
        UseTree::Glob(_) => {
            let mut full = at;
            full.push("*".into());
            out.push((full, "*".into()))
        }
        UseTree::Group(g) => {
            for t in &g.items {
                flatten(t, at.clone(), out)
            }
        }
    }
}

struct Public;
impl VisitMut for Public {
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        *v = syn::parse_quote!(pub);
    }
    fn visit_item_impl_mut(&mut self, i: &mut syn::ItemImpl) {
        if i.trait_.is_none() {
            syn::visit_mut::visit_item_impl_mut(self, i)
        }
    }
    fn visit_variant_mut(&mut self, _: &mut syn::Variant) {}
    fn visit_block_mut(&mut self, _: &mut syn::Block) {}
    fn visit_item_trait_mut(&mut self, t: &mut syn::ItemTrait) {
        t.vis = syn::parse_quote!(pub);
    }
}

impl Slice {
    /// An item, or `Type::method` for a method of a type that is not cut out itself.
    pub fn root(mut self, r: &str) -> Self {
        self.roots.push(r.to_owned());
        self
    }
    pub fn roots(mut self, r: &[&str]) -> Self {
        self.roots.extend(r.iter().map(|s| s.to_string()));
        self
    }
    /// Imports of this crate are kept only where their name is mentioned.
    pub fn prune(mut self, p: &[&str]) -> Self {
        self.prune.extend(p.iter().map(|s| s.to_string()));
        self
    }
    /// Imports that are kept (a path, or its beginning), e.g. of traits.
    pub fn keep(mut self, p: &[&str]) -> Self {
        self.keep.extend(p.iter().map(|s| s.to_string()));
        self
    }
    /// Imports that are dropped (a path, or its beginning).
    pub fn without(mut self, p: &[&str]) -> Self {
        self.drop.extend(p.iter().map(|s| s.to_string()));
        self
    }
    /// Items of the file the harness has its own stand-in for.
    pub fn external(mut self, p: &[&str]) -> Self {
        self.external.extend(p.iter().map(|s| s.to_string()));
        self
    }
    /// A replacement in the resulting text, for paths to stand-ins.
    pub fn edit(mut self, a: &str, b: &str) -> Self {
        self.edits.push((a.to_owned(), b.to_owned()));
        self
    }

    pub fn text(&self) -> String {
        println!("cargo:rerun-if-changed={}", self.file);
        let src = std::fs::read_to_string(&self.file).unwrap_or_else(|e| panic!("{}: {e}", self.file));
        let file = syn::parse_file(&src).unwrap_or_else(|e| panic!("{}: {e}", self.file));
        let mut items: Vec<Item> = file.items.into_iter().filter(|i| !is_test(attrs(i))).collect();
        let mut by_name: HashMap<String, Vec<usize>> = HashMap::new();
        for (n, i) in items.iter().enumerate() {
            for name in names(i) {
                by_name.entry(name).or_default().push(n);
            }
        }
        for e in &self.external {
            by_name.remove(e);
        }
        let methods: Vec<(String, String)> = self.roots.iter().filter_map(|r| r.split_once("::").map(|(a, b)| (a.to_owned(), b.to_owned()))).collect();
        let partial: HashSet<String> = methods.iter().map(|m| m.0.clone()).collect();

        let mut keep: BTreeSet<usize> = BTreeSet::new();
        let mut kept_methods: HashSet<(usize, usize)> = HashSet::new();
        let mut seen: HashSet<String> = HashSet::new();
        let mut called: HashSet<String> = HashSet::new();
        let mut fresh: HashSet<String> = self.roots.iter().filter(|r| !r.contains("::")).cloned().collect();
        for r in &fresh {
            if !by_name.contains_key(r) {
                panic!("{}: there is no {r}", self.file);
            }
        }
        for (t, m) in &methods {
            let mut found = false;
            // `Type::Self`: the type itself, but of its methods only those asked for.
            if m == "Self" {
                for k in by_name.get(t).into_iter().flatten() {
                    found = true;
                    if keep.insert(*k) {
                        idents(items[*k].to_token_stream(), &mut fresh);
                    }
                }
            }
            for (n, i) in items.iter().enumerate() {
                let Item::Impl(x) = i else { continue };
                if last(&x.self_ty).as_ref() != Some(t) {
                    continue;
                }
                for (k, it) in x.items.iter().enumerate() {
                    if let ImplItem::Fn(f) = it {
                        if f.sig.ident == m.as_str() {
                            found = true;
                            kept_methods.insert((n, k));
                            idents(f.to_token_stream(), &mut fresh);
                            own_calls(f.to_token_stream(), &partial, &mut called);
                        }
                    }
                }
            }
            if !found {
                panic!("{}: there is no {t}::{m}", self.file);
            }
        }
        loop {
            let new: Vec<String> = fresh.drain().filter(|n| seen.insert(n.clone())).collect();
            let before = (keep.len(), kept_methods.len());
            for n in &new {
                if partial.contains(n) {
                    continue;
                }
                for k in by_name.get(n).into_iter().flatten() {
                    if keep.insert(*k) {
                        idents(items[*k].to_token_stream(), &mut fresh);
                    }
                }
            }
            // The implementations of what is kept.
            for (n, i) in items.iter().enumerate() {
                let Item::Impl(x) = i else { continue };
                let own = last(&x.self_ty).unwrap_or_default();
                if partial.contains(&own) {
                    if x.trait_.is_none() {
                        for (k, it) in x.items.iter().enumerate() {
                            if let ImplItem::Fn(f) = it {
                                if called.contains(&f.sig.ident.to_string()) && !self.external.contains(&format!("{own}::{}", f.sig.ident)) && !is_test(&f.attrs) && kept_methods.insert((n, k)) {
                                    idents(f.to_token_stream(), &mut fresh);
                                    own_calls(f.to_token_stream(), &partial, &mut called);
                                }
                            }
                        }
                    }
                    continue;
                }
                let of_kept = |name: &str| by_name.get(name).is_some_and(|v| v.iter().any(|k| keep.contains(k)));
                let here = by_name.contains_key(&own) || self.external.contains(&own);
                let of_trait = x.trait_.as_ref().and_then(|t| t.1.segments.last()).is_some_and(|s| of_kept(&s.ident.to_string()));
                if (of_kept(&own) || (!here && of_trait)) && keep.insert(n) {
                    idents(i.to_token_stream(), &mut fresh);
                }
            }
            if fresh.iter().all(|f| seen.contains(f)) && before == (keep.len(), kept_methods.len()) {
                break;
            }
        }

        let outer: HashSet<String> = items.iter().filter_map(|i| if let Item::Mod(m) = i { m.content.is_none().then(|| m.ident.to_string()) } else { None }).collect();
        let mut out = String::new();
        for i in &items {
            let Item::Use(u) = i else { continue };
            let mut all = vec![];
            flatten(&u.tree, vec![], &mut all);
            let lead = if u.leading_colon.is_some() { "::" } else { "" };
            let vis = u.vis.to_token_stream().to_string();
            let gates: String = u.attrs.iter().filter(|a| a.path().is_ident("cfg")).map(|a| a.to_token_stream().to_string()).collect();
            for (path, name) in all {
                let full = path.join("::");
                let starts = |d: &String| full == *d || full.starts_with(&format!("{d}::"));
                let pruned = !self.keep.iter().any(starts) && (self.prune.contains(&path[0]) || (path.len() == 1 && by_name.contains_key(&name)));
                let of_mod = name == "*" && (outer.contains(&path[0]) || (path[0] == "self" && path.len() > 1 && outer.contains(&path[1])));
                if of_mod || self.drop.iter().any(starts) || (pruned && name != "*" && !seen.contains(&name)) {
                    continue;
                }
                let rename = if path.last() == Some(&name) { String::new() } else { format!(" as {name}") };
                out += &format!("{gates}#[allow(unused_imports)]{vis} use {lead}{full}{rename};\n");
            }
        }
        for (n, i) in items.iter_mut().enumerate() {
            if let Item::Impl(x) = i {
                if partial.contains(&last(&x.self_ty).unwrap_or_default()) {
                    let mut k = 0;
                    x.items.retain(|_| {
                        k += 1;
                        kept_methods.contains(&(n, k - 1))
                    });
                    if x.items.is_empty() {
                        continue;
                    }
                } else if !keep.contains(&n) {
                    continue;
                }
            } else if !keep.contains(&n) {
                continue;
            }
            Public.visit_item_mut(i);
            out += &quote!(#[allow(dead_code)] #i).to_string();
            out += "\n";
        }
        for (a, b) in &self.edits {
            out = out.replace(a, b);
        }
        out
    }

    /// Into `OUT_DIR/name.rs`.
    pub fn write(self, name: &str) {
        let dir = std::env::var("OUT_DIR").unwrap();
        std::fs::write(format!("{dir}/{name}.rs"), self.text()).unwrap();
    }
}
