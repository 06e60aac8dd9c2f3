//! Copies the crates of /repo and replaces, in the sources of those named, the modules `std::sync`, `std::cell` and
//! `std::thread` by the instrumented ones of `vsync`.  Nothing else of the sources changes.
//!
//!   conc-rewrite <repo> <destination> <crate directory>...
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::path::Path;
use syn::visit_mut::VisitMut;

const MODULES: [&str; 3] = ["sync", "cell", "thread"];
const ROOTS: [&str; 3] = ["std", "core", "alloc"];

struct Rewriter;

fn std_like(a: &Ident, b: &Ident) -> bool {
    ROOTS.iter().any(|r| a == r) && MODULES.iter().any(|m| b == m)
}

fn tokens(stream: TokenStream) -> TokenStream {
    let list: Vec<TokenTree> = stream.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    for (i, t) in list.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), tokens(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            TokenTree::Ident(a) => {
                let colon = |k: usize| matches!(list.get(i + k), Some(TokenTree::Punct(p)) if p.as_char() == ':');
                match list.get(i + 3) {
                    Some(TokenTree::Ident(b)) if colon(1) && colon(2) && std_like(a, b) => out.push(TokenTree::Ident(Ident::new("vsync", a.span()))),
                    _ => out.push(t.clone()),
                }
            }
            _ => out.push(t.clone()),
        }
    }
    out.into_iter().collect()
}

/// All leaves of a use tree: the path and the last part (name, rename or glob).
fn leaves(tree: &syn::UseTree, prefix: &[Ident], out: &mut Vec<(Vec<Ident>, syn::UseTree)>) {
    match tree {
        syn::UseTree::Path(p) => {
            let mut n = prefix.to_vec();
            n.push(p.ident.clone());
            leaves(&p.tree, &n, out);
        }
        syn::UseTree::Group(g) => {
            for t in &g.items {
                leaves(t, prefix, out);
            }
        }
        other => out.push((prefix.to_vec(), other.clone())),
    }
}

fn uses(item: &syn::ItemUse) -> Vec<syn::ItemUse> {
    let mut list = vec![];
    leaves(&item.tree, &[], &mut list);
    let mut out = vec![];
    for (mut path, last) in list {
        // `{self}` names the path itself.
        let (last, is_self) = match last {
            syn::UseTree::Name(n) if n.ident == "self" && !path.is_empty() => {
                let l = path.pop().unwrap();
                (syn::UseTree::Name(syn::UseName { ident: l }), true)
            }
            syn::UseTree::Rename(r) if r.ident == "self" && !path.is_empty() => {
                let l = path.pop().unwrap();
                (syn::UseTree::Rename(syn::UseRename { ident: l, ..r }), true)
            }
            other => (other, false),
        };
        let _ = is_self;
        let second = match (&path[..], &last) {
            ([_, b, ..], _) => Some(b.clone()),
            ([_], syn::UseTree::Name(n)) => Some(n.ident.clone()),
            ([_], syn::UseTree::Rename(n)) => Some(n.ident.clone()),
            _ => None,
        };
        let mut leading = item.leading_colon;
        if let (Some(first), Some(second)) = (path.first().cloned(), second) {
            if std_like(&first, &second) {
                path[0] = Ident::new("vsync", first.span());
                leading = Some(Default::default());
            }
        }
        let mut tree = last;
        for ident in path.into_iter().rev() {
            tree = syn::UseTree::Path(syn::UsePath { ident, colon2_token: Default::default(), tree: Box::new(tree) });
        }
        out.push(syn::ItemUse { attrs: item.attrs.clone(), vis: item.vis.clone(), use_token: item.use_token, leading_colon: leading, tree, semi_token: item.semi_token });
    }
    out
}

impl VisitMut for Rewriter {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.segments.len() >= 2 && std_like(&p.segments[0].ident, &p.segments[1].ident) {
            p.segments[0].ident = Ident::new("vsync", Span::call_site());
            p.leading_colon = Some(Default::default());
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = tokens(m.tokens.clone());
        syn::visit_mut::visit_macro_mut(self, m);
    }
    fn visit_file_mut(&mut self, f: &mut syn::File) {
        f.items = f.items.drain(..).flat_map(flat).collect();
        syn::visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, m: &mut syn::ItemMod) {
        if let Some((_, items)) = &mut m.content {
            *items = items.drain(..).flat_map(flat).collect();
        }
        syn::visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts = b
            .stmts
            .drain(..)
            .flat_map(|s| match s {
                syn::Stmt::Item(i) => flat(i).into_iter().map(syn::Stmt::Item).collect(),
                s => vec![s],
            })
            .collect();
        syn::visit_mut::visit_block_mut(self, b);
    }
}

fn flat(i: syn::Item) -> Vec<syn::Item> {
    match i {
        syn::Item::Use(u) => uses(&u).into_iter().map(syn::Item::Use).collect(),
        i => vec![i],
    }
}

fn copy(from: &Path, to: &Path, rewrite: bool) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let name = e.file_name();
        let (f, t) = (e.path(), to.join(&name));
        if e.file_type().unwrap().is_dir() {
            if name == "target" || name == "tests" || name == "l10n" || name == ".git" {
                continue;
            }
            copy(&f, &t, rewrite);
        } else if rewrite && f.extension().is_some_and(|x| x == "rs") {
            let text = std::fs::read_to_string(&f).unwrap();
            let mut file = match syn::parse_file(&text) {
                Ok(f) => f,
                Err(err) => {
                    eprintln!("{}: {err}", f.display());
                    std::process::exit(1);
                }
            };
            Rewriter.visit_file_mut(&mut file);
            std::fs::write(&t, file.into_token_stream().to_string()).unwrap();
        } else {
            std::fs::copy(&f, &t).unwrap();
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, to) = (Path::new(&a[1]), Path::new(&a[2]));
    let vsync = std::env::current_exe().ok().and_then(|_| std::env::var("VSYNC").ok()).expect("VSYNC: directory of the vsync crate");
    let _ = std::fs::remove_dir_all(to);
    std::fs::create_dir_all(to).unwrap();
    for f in ["Cargo.toml", "Cargo.lock"] {
        if repo.join(f).exists() {
            std::fs::copy(repo.join(f), to.join(f)).unwrap();
        }
    }
    copy(&repo.join("crates"), &to.join("crates"), false);
    for c in &a[3..] {
        let src = repo.join(c).join("src");
        copy(&src, &to.join(c).join("src"), true);
        let toml = to.join(c).join("Cargo.toml");
        let text = std::fs::read_to_string(&toml).unwrap();
        assert!(text.contains("\n[dependencies]"), "{c}: no dependencies section");
        std::fs::write(&toml, text.replacen("\n[dependencies]", &format!("\n[dependencies]\nvsync = {{ path = \"{vsync}\" }}"), 1)).unwrap();
    }
}
