//! C26: derived code forwards and names exactly what the declaration says.
//!
//! Programs using the macros are generated, compiled with the derive library built from /repo,
//! and run; they print what the derived code does.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use vcommon::scratch::Scratch;
use vcommon::{bx, ensure, Check, Opts, Verdict};

/// What a field is.
#[derive(Serialize, Deserialize, Debug, Clone)]
enum Is {
    /// A context, by how the structure holds it.
    Ctx(u8),
    Other(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Struct {
    name: u8,
    tuple: bool,
    fields: Vec<(u8, Is)>,
    /// The context's place among the fields, how it is held, and whether an attribute says so.
    at: u8,
    held: u8,
    explicit: bool,
    /// Whether a structure whose context is declared also has a field of the default name.
    decoy: bool,
    look: u8,
    calls: Vec<(bool, u32, bool)>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Enum {
    name: u8,
    /// Name and payload type of the variants, and what the payload of the judged value says.
    variants: Vec<(u16, u8, String, u32)>,
    look: u8,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Item {
    Struct(Struct),
    Enum(Enum),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case(Vec<Item>);

const PRELUDE: &str = r##"#![allow(dead_code, unused, non_camel_case_types, non_snake_case)]
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;
use std::sync::Arc;
use std::marker::PhantomData;
use tinymist_derive::{BindTyCtx, DeclEnum};

pub struct Interned<T: ?Sized>(Arc<T>);
impl<T: ?Sized> std::ops::Deref for Interned<T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
impl<T: ?Sized> Clone for Interned<T> { fn clone(&self) -> Self { Interned(self.0.clone()) } }
impl From<&str> for Interned<str> { fn from(s: &str) -> Self { Interned(s.into()) } }
pub fn of<T>(t: T) -> Interned<T> { Interned(Arc::new(t)) }

pub struct TypeVar(u32);
pub struct DynTypeBounds(u64);
pub struct Ty(u64);
pub trait TyCtx {
    fn local_bind_of(&self, var: &Interned<TypeVar>) -> Option<Ty>;
    fn global_bounds(&self, var: &Interned<TypeVar>, pol: bool) -> Option<DynTypeBounds>;
}

thread_local!(static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) });
pub fn log(s: String) { LOG.with(|l| l.borrow_mut().push(s)) }
pub fn logged() -> String { LOG.with(|l| l.borrow_mut().drain(..).collect::<Vec<_>>().join(";")) }
pub fn answer(id: u64, kind: u64, var: u32, pol: bool) -> Option<u64> {
    let r = id * 1000003 + var as u64 * 31 + pol as u64 * 7 + kind * 3;
    (r % 5 != 0).then_some(r)
}

#[derive(Clone)]
pub struct Rec(u64);
impl TyCtx for Rec {
    fn local_bind_of(&self, var: &Interned<TypeVar>) -> Option<Ty> {
        log(format!("local {} {}", self.0, var.0.0));
        answer(self.0, 1, var.0.0, false).map(Ty)
    }
    fn global_bounds(&self, var: &Interned<TypeVar>, pol: bool) -> Option<DynTypeBounds> {
        log(format!("global {} {} {}", self.0, var.0.0, pol));
        answer(self.0, 2, var.0.0, pol).map(DynTypeBounds)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Copy)]
pub struct Span(u32);
macro_rules! payload {
    ($name:ident, $how:literal) => {
        #[derive(Clone)]
        pub struct $name { name: Interned<str>, at: Span }
        impl $name {
            pub fn name(&self) -> &Interned<str> { &self.name }
            pub fn span(&self) -> Span { self.at }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, $how, &*self.name, self.at.0) }
        }
    };
}
pub fn twice(x: u8) -> u8 { x.wrapping_mul(2) }
payload!(SpannedDecl, "{}@{}");
payload!(ModuleDecl, "..{:?}{{{}}}");
payload!(SpanDecl, "{}|{}");
/// One that is shown the way derived code shows it.
#[derive(Clone)]
pub struct DocsDecl { name: Interned<str>, at: Span }
impl DocsDecl {
    pub fn name(&self) -> &Interned<str> { &self.name }
    pub fn span(&self) -> Span { self.at }
}
impl fmt::Debug for DocsDecl {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("DocsDecl").field("name", &&*self.name).field("at", &self.at.0).finish()
    }
}
"##;

/// How a structure holds a context: its type and the value for context `id`.
const HELD: &[(&str, &str, &str)] = &[
    // type, value, parameters it needs
    ("Rec", "Rec(ID)", ""),
    ("&'a Rec", "&Rec(ID)", "'a"),
    ("&'a mut Rec", "&mut Rec(ID)", "'a"),
    ("Box<Rec>", "Box::new(Rec(ID))", ""),
    ("Box<dyn TyCtx>", "Box::new(Rec(ID))", ""),
    ("&'a mut dyn TyCtx", "&mut Rec(ID)", "'a"),
    ("Arc<Rec>", "Arc::new(Rec(ID))", ""),
    ("T", "Rec(ID)", "T"),
    ("&'a mut T", "&mut Rec(ID)", "'a T"),
    ("&'a T", "&Rec(ID)", "'a T"),
    ("Rc<T>", "Rc::new(Rec(ID))", "T"),
    ("&'x mut &'a T", "&mut &Rec(ID)", "'x 'a T"),
];
const OTHER: &[(&str, &str, &str)] = &[
    ("u8", "1", ""),
    ("&'b str", "\"b\"", "'b"),
    ("F", "twice", "F"),
    ("PhantomData<U>", "PhantomData::<i8>", "U"),
    ("[u8; N]", "[1, 2, 3]", "N"),
    ("Vec<Option<String>>", "vec![]", ""),
    ("&'b mut Option<U>", "&mut Some(3i8)", "'b U"),
    ("fn(Ty) -> Ty", "|t| t", ""),
];
const FIELDS: &[&str] = &["ctx", "checker", "base", "types", "defines", "this", "var", "pol", "global_bounds", "local_bind_of", "self_", "name", "x", "f", "r#type", "tyctx_", "bind", "stack", "tyctx2", "result"];
const TYPES: &[&str] = &["Checker", "BoundPred", "S", "TyCtxOf", "Driver", "Decl", "lower"];
const ENUMS: &[&str] = &["Decl", "Decl", "Decls", "Kind", "Definition"];
const VARIANTS: &[&str] = &["Func", "ImportAlias", "Var", "IdentRef", "Module", "ModuleAlias", "PathStem", "Import", "Label", "Closure", "Spread", "Docs", "Generated", "Some", "None", "Ok", "Err", "Decl", "Debug", "Span", "A", "B", "a", "x", "Name", "é"];

fn variant(n: u16) -> String {
    let base = VARIANTS[n as usize % VARIANTS.len()];
    match n as usize / VARIANTS.len() {
        0 => base.to_owned(),
        k => format!("{base}{k}"),
    }
}

fn answer(id: u64, kind: u64, var: u32, pol: bool) -> Option<u64> {
    let r = id * 1000003 + var as u64 * 31 + pol as u64 * 7 + kind * 3;
    (r % 5 != 0).then_some(r)
}

fn docs(look: u8) -> &'static str {
    ["", "/// The context of it.\n    ", "#[allow(dead_code)]\n    ", "/** b */ #[doc = \"bind(other)\"] "][look as usize % 4]
}

impl Struct {
    /// The module of the structure and the statements judging it, and what these print.
    fn write(&self, k: usize, src: &mut String, main: &mut String, want: &mut String) {
        let name = TYPES[self.name as usize % TYPES.len()];
        let mut fields: Vec<(String, &'static (&str, &str, &str), u64)> = Vec::new();
        let mut taken: Vec<&str> = Vec::new();
        for (i, (n, is)) in self.fields.iter().enumerate() {
            let f = FIELDS[*n as usize % FIELDS.len()];
            if taken.contains(&f) {
                continue;
            }
            taken.push(f);
            let t = match is {
                // Only one type parameter is the context's.
                Is::Ctx(h) => &HELD[*h as usize % 7],
                Is::Other(o) => &OTHER[*o as usize % OTHER.len()],
            };
            fields.push((f.to_owned(), t, (k * 100 + i + 1) as u64));
        }
        let explicit = self.explicit || self.tuple;
        let decoy = explicit && self.decoy && !self.tuple;
        let ctx = (k * 100 + 99) as u64;
        let held = &HELD[self.held as usize % HELD.len()];
        let at = self.at as usize % (fields.len() + 1);
        let field = if explicit {
            // A name none of the other fields has.
            let free: Vec<_> = FIELDS.iter().filter(|f| !taken.contains(f)).collect();
            free[self.at as usize % free.len()].to_string()
        } else {
            "tyctx".to_owned()
        };
        fields.insert(at, (field.clone(), held, ctx));
        if decoy {
            let place = (self.at as usize / 3) % (fields.len() + 1);
            fields.insert(place, ("tyctx".to_owned(), &HELD[self.at as usize % 7], (k * 100 + 98) as u64));
        }
        let mut needs: Vec<&str> = Vec::new();
        for (_, t, _) in &fields {
            for n in t.2.split(' ').filter(|n| !n.is_empty()) {
                if !needs.contains(&n) {
                    needs.push(n);
                }
            }
        }
        needs.sort();
        let whr = self.look & 4 != 0;
        let (mut params, mut clauses) = (Vec::new(), Vec::new());
        for n in &needs {
            match *n {
                "'x" if needs.contains(&"'a") => {
                    // The lifetimes are in the order of their names.
                    params.push("'x".to_owned());
                    clauses.push("'a: 'x".to_owned());
                }
                "T" if whr => {
                    params.push("T".into());
                    clauses.push("T: TyCtx".into());
                }
                "T" => params.push(if self.look & 8 != 0 { "T: TyCtx + Sized".into() } else { "T: TyCtx".into() }),
                "F" if whr => {
                    params.push("F".into());
                    clauses.push("F: Fn(u8) -> u8".into());
                }
                "F" => params.push("F: Fn(u8) -> u8".into()),
                "U" => params.push(if self.look & 16 != 0 { "U: Copy = i8".into() } else { "U".into() }),
                "N" => params.push("const N: usize".into()),
                l => params.push(l.to_owned()),
            }
        }
        // Lifetimes come first, defaults last.
        params.sort_by_key(|p| (!p.starts_with('\''), p.contains(" = ")));
        let generics = if params.is_empty() { String::new() } else { format!("<{}>", params.join(", ")) };
        let clause = if clauses.is_empty() { String::new() } else { format!(" where {}", clauses.join(", ")) };
        let place = fields.iter().position(|f| f.2 == ctx).unwrap();
        let attr = match (explicit, self.tuple) {
            (false, _) => String::new(),
            (true, true) => format!("#[bind({place})]\n"),
            (true, false) => format!("#[bind({field})]\n"),
        };
        let vis = ["pub ", "pub(crate) ", "", "pub(super) "][self.look as usize % 4];
        let body = |sep: &str| -> String {
            let mut s = String::new();
            for (i, (f, t, _)) in fields.iter().enumerate() {
                let doc = docs((self.look / 4).wrapping_add(i as u8));
                if self.tuple {
                    write!(s, "{doc}pub {}{sep}", t.0).unwrap();
                } else {
                    write!(s, "{doc}pub {f}: {}{sep}", t.0).unwrap();
                }
            }
            s
        };
        let more = ["", "/// Docs of it.\n", "#[allow(dead_code)]\n", "/// bind(x)\n#[repr(C)]\n"][(self.look / 16) as usize % 4];
        let (before, after) = if self.look & 32 != 0 { ("", more) } else { (more, "") };
        let derive = if explicit || self.look & 64 != 0 { "#[derive(BindTyCtx)]\n" } else { "#[derive(tinymist_derive::BindTyCtx)]\n" };
        let vis = if vis.is_empty() { "pub " } else { vis };
        if self.tuple {
            writeln!(src, "mod m{k} {{\nuse super::*;\n{before}{derive}{attr}{after}{vis}struct {name}{generics}({}){clause};\n}}", body(", ")).unwrap();
        } else {
            writeln!(src, "mod m{k} {{\nuse super::*;\n{before}{derive}{attr}{after}{vis}struct {name}{generics}{clause} {{\n    {}}}\n}}", body(",\n    ")).unwrap();
        }
        let values: Vec<String> = fields.iter().map(|(f, t, id)| {
            let v = t.1.replace("ID", &id.to_string());
            if self.tuple { v } else { format!("{f}: {v}") }
        }).collect();
        let (open, close) = if self.tuple { ("(", ")") } else { (" { ", " }") };
        writeln!(main, "    {{\n        let v = m{k}::{name}{open}{}{close};", values.join(", ")).unwrap();
        for (j, (global, var, pol)) in self.calls.iter().enumerate() {
            if *global {
                writeln!(main, "        println!(\"{k}.{j} {{:?}} {{}}\", TyCtx::global_bounds(&v, &of(TypeVar({var})), {pol}).map(|t| t.0), logged());").unwrap();
                writeln!(want, "{k}.{j} {:?} global {ctx} {var} {pol}", answer(ctx, 2, *var, *pol)).unwrap();
            } else {
                writeln!(main, "        println!(\"{k}.{j} {{:?}} {{}}\", TyCtx::local_bind_of(&v, &of(TypeVar({var}))).map(|t| t.0), logged());").unwrap();
                writeln!(want, "{k}.{j} {:?} local {ctx} {var}", answer(ctx, 1, *var, false)).unwrap();
            }
        }
        writeln!(main, "    }}").unwrap();
    }
}

impl Enum {
    fn write(&self, k: usize, src: &mut String, main: &mut String, want: &mut String) {
        const PAYLOADS: &[(&str, &str)] = &[("SpannedDecl", "P"), ("ModuleDecl", "P"), ("SpanDecl", "P"), ("Box<SpannedDecl>", "Box::new(P)"), ("DocsDecl", "P")];
        let name = ENUMS[self.name as usize % ENUMS.len()];
        let derive = ["#[derive(DeclEnum)]", "#[derive(Clone, DeclEnum)]", "#[derive(DeclEnum, Clone)]", "#[derive(tinymist_derive::DeclEnum)]"][self.look as usize % 4];
        let mut variants: Vec<(String, u8, &str, u32)> = Vec::new();
        for (n, p, text, at) in &self.variants {
            let v = variant(*n);
            if !variants.iter().any(|w| w.0 == v) {
                variants.push((v, p % 5, text, *at));
            }
        }
        write!(src, "mod m{k} {{\nuse super::*;\n{}{derive}\npub enum {name} {{\n", ["", "/// Declarations\n", "#[allow(clippy::all)]\n"][(self.look / 4) as usize % 3]).unwrap();
        for (i, (v, p, ..)) in variants.iter().enumerate() {
            writeln!(src, "    {}{v}({}),", docs((self.look / 16).wrapping_add(i as u8)), PAYLOADS[*p as usize].0).unwrap();
        }
        src.push_str("}\n}\n");
        writeln!(main, "    {{\n        use m{k}::{name} as E;").unwrap();
        for (i, (v, p, text, at)) in variants.iter().enumerate() {
            let ty = ["SpannedDecl", "ModuleDecl", "SpanDecl", "SpannedDecl", "DocsDecl"][*p as usize];
            let payload = format!("{ty} {{ name: {text:?}.into(), at: Span({at}) }}");
            let value = if *p == 3 { format!("Box::new({payload})") } else { payload };
            writeln!(main, "        let v = E::{v}({value});\n        println!(\"{k}.{i} {{:?}} {{}} {{:?}}\", &**v.name(), v.span().0, v);").unwrap();
            let inner = match p {
                0 | 3 => format!("{text}@{at}"),
                1 => format!("..{text:?}{{{at}}}"),
                4 => format!("DocsDecl {{ name: {text:?}, at: {at} }}"),
                _ => format!("{text}|{at}"),
            };
            writeln!(want, "{k}.{i} {text:?} {at} {v}({inner})").unwrap();
        }
        writeln!(main, "    }}").unwrap();
    }
}

/// The derive library, built from /repo.
fn library() -> &'static PathBuf {
    static LIB: OnceLock<PathBuf> = OnceLock::new();
    LIB.get_or_init(|| {
        let out = Command::new("cargo")
            .args(["build", "--offline", "-p", "tinymist-derive", "--message-format=json"])
            .current_dir(env!("CARGO_MANIFEST_DIR"))
            .stderr(Stdio::null())
            .output()
            .expect("cargo runs");
        for line in String::from_utf8_lossy(&out.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(line) else { continue };
            if v["target"]["name"] == "tinymist_derive" || v["target"]["name"] == "tinymist-derive" {
                if let Some(f) = v["filenames"].as_array().and_then(|f| f.iter().filter_map(|f| f.as_str()).find(|f| f.ends_with(".so"))) {
                    return PathBuf::from(f);
                }
            }
        }
        panic!("the derive library was not built");
    })
}

fn judge(case: &Case) -> Verdict {
    let (mut src, mut main, mut want) = (PRELUDE.to_owned(), String::new(), String::new());
    for (k, item) in case.0.iter().enumerate() {
        match item {
            Item::Struct(s) => s.write(k, &mut src, &mut main, &mut want),
            Item::Enum(e) => e.write(k, &mut src, &mut main, &mut want),
        }
    }
    write!(src, "fn main() {{\n{main}}}\n").unwrap();
    let dir = Scratch::new();
    let file = dir.path().join("p.rs");
    std::fs::write(&file, &src).unwrap();
    let exe = dir.path().join("p");
    let out = Command::new("rustc")
        .args(["--edition", "2021", "-Cdebuginfo=0", "-Copt-level=0", "-Ccodegen-units=1", "--error-format=short", "--cap-lints=allow"])
        .arg("--extern").arg(format!("tinymist_derive={}", library().display()))
        .arg("-o").arg(&exe).arg(&file)
        .output()
        .expect("rustc runs");
    ensure!(out.status.success(), "a program in the macros' input shape does not compile:\n{}\n{}", tail(&out.stderr), &src[PRELUDE.len()..]);
    let out = Command::new(&exe).output().expect("the program runs");
    let got = String::from_utf8_lossy(&out.stdout).into_owned();
    ensure!(out.status.success(), "the program fails: {}\n{}", tail(&out.stderr), &src[PRELUDE.len()..]);
    let (g, w): (Vec<_>, Vec<_>) = (got.lines().collect(), want.lines().collect());
    for i in 0..g.len().max(w.len()) {
        ensure!(g.get(i) == w.get(i), "the derived code says {:?}, the declaration {:?}, in\n{}", g.get(i), w.get(i), &src[PRELUDE.len()..]);
    }
    Ok(!w.is_empty())
}

fn tail(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    s.chars().take(1500).collect()
}

fn structs() -> impl Strategy<Value = Struct> {
    let field = (any::<u8>(), prop_oneof![any::<u8>().prop_map(Is::Ctx), any::<u8>().prop_map(Is::Other)]);
    let calls = prop::collection::vec((any::<bool>(), 0u32..50, any::<bool>()), 1..6);
    (any::<u8>(), prop::bool::weighted(0.3), prop::collection::vec(field, 0..6), (any::<u8>(), any::<u8>()), prop::bool::weighted(0.6), any::<bool>(), any::<u8>(), calls)
        .prop_map(|(name, tuple, fields, (at, held), explicit, decoy, look, calls)| Struct { name, tuple, fields, at, held, explicit, decoy, look, calls })
}

fn enums() -> impl Strategy<Value = Enum> {
    let text = prop_oneof![3 => "[a-z_]{1,8}", 1 => "\\PC{0,6}", 1 => "[\"{}\\\\ ]{0,5}"];
    let variant = (0u16..80, any::<u8>(), text, any::<u32>());
    (any::<u8>(), prop_oneof![3 => prop::collection::vec(variant.clone(), 1..6), 1 => prop::collection::vec(variant, 20..70)], any::<u8>())
        .prop_map(|(name, variants, look)| Enum { name, variants, look })
}

fn main() {
    Check::main("C26", "at least one derived query or accessor was called and compared", |c| {
        library();
        c.note("case", "a program of up to twelve derived structures or five enums, compiled and run");
        c.prop(
            "structs",
            Opts::new(240).thorough(12).shards(8).shrink(60),
            || bx(prop::collection::vec(structs().prop_map(Item::Struct), 1..13).prop_map(Case)),
            judge,
        );
        c.prop(
            "enums",
            Opts::new(120).thorough(12).shards(8).shrink(60),
            || bx(prop::collection::vec(enums().prop_map(Item::Enum), 1..6).prop_map(Case)),
            judge,
        );
    });
}
