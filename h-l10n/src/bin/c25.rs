//! C25: extraction finds exactly the translatable calls in the sources.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use vcommon::scratch::Scratch;
use vcommon::{bx, ensure, ensure_eq, gen, Check, Hex, Opts, Verdict};

/// A character of a literal, and how it is written.
#[derive(Serialize, Deserialize, Debug, Clone)]
enum Ch {
    Plain(char),
    /// With the escape of its own (`\n`, `\"`, ..).
    Short(char),
    /// `\x41`
    Hex(u8),
    /// `\u{..}`, or `\u....`
    Uni(char),
    /// The same with underscores and upper-case digits.
    Wide(char, u8),
    /// A line that goes on in the next one, which is indented.
    Join(u8),
}

type Lit = Vec<Ch>;

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Piece {
    /// The call: by `bail!`, its key and message, the blanks in it, further arguments.
    Call { bail: bool, key: Lit, message: Lit, blanks: [u8; 5], rest: u8, inner: Vec<Piece> },
    Code(u8),
    /// Code with a string in it.
    Text(Lit),
    Block(Vec<Piece>),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct File {
    path: Vec<String>,
    pieces: Vec<Piece>,
    /// What the file ends with, which may be cut off anywhere.
    tail: u8,
    cut: u8,
    crlf: bool,
    bom: bool,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    ts: bool,
    files: Vec<File>,
    others: Vec<(Vec<String>, Hex)>,
    old: Vec<(String, String)>,
    threads: u8,
}

const BLANKS: &[&str] = &["", "", " ", "\n    ", "\t", "\n\n"];
const CODE_RS: &[&str] = &[
    "let t = 1;\n", "fn f<'a>(x: &'a str) {}\n", "let c = '\"';\n", "// a comment, \"quoted\n", "/* t! */\n", "use tinymist_l10n::t;\n", "tinymist_l10n::set_locale(\"zh\");\n", "tinymist_l10n::t_without_args(\"no\", \"call\");\n",
    "tinymist_l10n::t!(KEY, \"message\");\n", "tinymist_l10n::t!(\"key\", MESSAGE);\n", "tinymist_l10n::bail!(key, \"m\");\n", "tinymist_l10n::t!();\n", "tinymist_l10n::to!(\"a\", \"b\");\n", "t! {}", "r#\"raw \\\"#;\n", "x.t(\"a\", \"b\");\n", "tinymist_l10n::t;\n", "tttt tinymist_l10n:: tinymist", "println!(\"{}\", 1);\n", "é数据👩‍💻\n", "b'\\\\'", "tinymist_l10n::DebugL10n::x(\"a\", \"b\");\n", "tinymist_l10n::t!(1, \"b\");\n", "format!(\"t!(\\\"a\\\", \\\"b\\\")\");\n",
];
const CODE_TS: &[&str] = &[
    "let l = 1;\n", "function f(l: string): void {}\n", "const c = '\"';\n", "// l10n, \"quoted\n", "/* l10n */\n", "import { l10nMsg } from \"../l10n\";\n", "l10nMsg(key);\n", "l10nMsg();\n", "l10nMsgs(\"no\");\n", "l10n(\"no\");\n", "l10nMsg;\n", "export function l10nMsg(message: string) {}\n", "`template ${l} \"`;\n", "/\\\"/.test(l);\n", "llll l10nMs", "é数据👩‍💻\n", "vscode.l10n.t(\"no\");\n", "l10nMsg(1, \"b\");\n", "x.l10n_msg(\"a\");\n", "L10nMsg(\"no\");\n", "l10nMSG(\"no\");\n", "l10nMsg[\"no\"];\n",
];
const TAIL_RS: &[&str] = &["", "\n", "tinymist_l10n::t!(\"abc", "tinymist_l10n::t!(\"abc\", \"d\\", "tinymist_l10n::bail!(\"é\", \"数", "tinymist_l10n::t!", "tinymist_l10n::bail!  (", "tinymist_l10n::", "t", "tinymist_l10n::t!(\"abc\"", "tinymist_l10n::t!(\"\\"];
const TAIL_TS: &[&str] = &["", "\n", "l10nMsg(\"abc", "l10nMsg(\"ab\\", "l10nMsg(\"数", "l10nMsg", "l10nMsg  (", "l", "l10nMsg(\"\\"];

fn write(lit: &Lit, ts: bool) -> String {
    let mut t = String::from("\"");
    for c in lit {
        match c {
            Ch::Plain(c) => t.push(*c),
            Ch::Short(c) => {
                t.push('\\');
                t.push(match c {
                    '\n' => 'n',
                    '\r' => 'r',
                    '\t' => 't',
                    '\0' => '0',
                    c => *c,
                });
            }
            Ch::Hex(b) => t += &format!("\\x{:02x}", b & 0x7f),
            Ch::Uni(c) if ts => {
                let mut b = [0; 2];
                c.encode_utf16(&mut b).iter().for_each(|u| t += &format!("\\u{u:04x}"));
            }
            Ch::Uni(c) => t += &format!("\\u{{{:x}}}", *c as u32),
            Ch::Wide(c, n) => {
                let mut d: String = format!("{:X}", *c as u32);
                while d.len() < 6 && n & 1 == 1 {
                    d.insert(0, '0');
                }
                for (i, k) in (1..=d.len()).rev().zip(0..8) {
                    if n >> k & 2 == 2 {
                        d.insert(i, '_');
                    }
                }
                t += &format!("\\u{{{d}}}");
            }
            Ch::Join(n) => t += &format!("\\\n{}{}", ["", "\n", "  \n\t\n", "\t"][*n as usize / 9 % 4], " ".repeat(*n as usize % 9)),
        }
    }
    t.push('"');
    t
}

/// What the compiler takes a literal for.
fn read(lit: &Lit) -> String {
    let mut t = String::new();
    let mut skip = false;
    for c in lit {
        match c {
            // Blanks after a joined line are part of its indentation.
            Ch::Plain(' ' | '\n' | '\t') if skip => continue,
            Ch::Plain(c) | Ch::Short(c) | Ch::Uni(c) | Ch::Wide(c, _) => t.push(*c),
            Ch::Hex(b) => t.push((b & 0x7f) as char),
            Ch::Join(_) => {
                skip = true;
                continue;
            }
        }
        skip = false;
    }
    t
}

type Found = BTreeMap<String, BTreeSet<String>>;

fn source(pieces: &[Piece], ts: bool, out: &mut String, found: &mut Found) {
    for p in pieces {
        match p {
            Piece::Call { bail, key, message, blanks, rest, inner } => {
                let b: Vec<&str> = blanks.iter().map(|i| BLANKS[*i as usize % BLANKS.len()]).collect();
                if ts {
                    *out += &format!("l10nMsg{}({}{}", b[0], b[1], write(key, true));
                    found.entry(read(key)).or_default().insert(read(key));
                } else {
                    let name = if *bail { "bail" } else { "t" };
                    *out += &format!("tinymist_l10n::{name}!{}({}{}{},{}{}", b[0], b[1], write(key, false), b[2], b[3], write(message, false));
                    found.entry(read(key)).or_default().insert(read(message));
                }
                *out += b[4];
                match rest % 4 {
                    0 => *out += ", ",
                    1 => *out += ", value = value.debug_l10n()",
                    _ => {}
                }
                if !inner.is_empty() {
                    *out += ", x = ";
                    source(inner, ts, out, found);
                }
                *out += ");\n";
            }
            Piece::Code(i) => {
                let all = if ts { CODE_TS } else { CODE_RS };
                *out += all[*i as usize % all.len()];
            }
            Piece::Text(l) => *out += &format!("say({});\n", write(l, ts)),
            Piece::Block(ps) => {
                *out += "if l {";
                source(ps, ts, out, found);
                *out += "}\n";
            }
        }
    }
}

fn content(f: &File, ts: bool, found: &mut Found) -> String {
    let mut t = String::new();
    if f.bom {
        t.push('\u{feff}');
    }
    source(&f.pieces, ts, &mut t, found);
    let tails = if ts { TAIL_TS } else { TAIL_RS };
    let tail = tails[f.tail as usize % tails.len()];
    let n = tail.chars().count();
    t.extend(tail.chars().take(n - f.cut as usize % (n + 1)));
    if f.crlf {
        t = t.replace('\n', "\r\n");
    }
    t
}

fn put(root: &Path, path: &[String], data: &[u8]) -> bool {
    let mut p = root.to_path_buf();
    p.extend(path);
    if p.exists() || std::fs::create_dir_all(p.parent().unwrap()).is_err() {
        return false;
    }
    std::fs::write(p, data).is_ok()
}

static RUNS: AtomicU64 = AtomicU64::new(0);

fn extract(dir: &Path, out: &Path, ts: bool, threads: u8) -> Result<String, String> {
    RUNS.fetch_add(1, Ordering::Relaxed);
    let tool = std::env::current_exe().unwrap().with_file_name("l10n-tool");
    let o = Command::new(tool).args(["--kind", if ts { "ts" } else { "rs" }, "--dir"]).arg(dir).arg("--output").arg(out).env("RAYON_NUM_THREADS", threads.to_string()).output().map_err(|e| format!("the tool cannot be run: {e}"))?;
    if !o.status.success() {
        return Err(format!("the tool ends with {}: {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(400).collect::<String>()));
    }
    std::fs::read_to_string(out).map_err(|e| format!("its output: {e}"))
}

fn judge(c: &Case) -> Verdict {
    let s = Scratch::new();
    let (one, two) = (s.path().join("one"), s.path().join("two"));
    let ext = if c.ts { "ts" } else { "rs" };
    let mut files: Vec<(Vec<String>, Vec<u8>)> = vec![];
    let mut found = Found::new();
    let mut paths = BTreeSet::new();
    for (i, f) in c.files.iter().enumerate() {
        let mut path = f.path.clone();
        *path.last_mut().unwrap() += &format!("{i}.{ext}");
        if !paths.insert(path.clone()) {
            continue;
        }
        let text = content(f, c.ts, &mut found);
        files.push((path, text.into_bytes()));
    }
    for (p, d) in &c.others {
        files.push((p.clone(), d.0.clone()));
    }
    for d in [&one, &two] {
        std::fs::create_dir(d).unwrap();
        // A directory by the name of a source file.
        std::fs::create_dir(d.join(format!("dir.{ext}"))).unwrap();
    }
    files.iter().for_each(|(p, d)| {
        put(&one, p, d);
    });
    files.iter().rev().for_each(|(p, d)| {
        put(&two, p, d);
    });
    let out = s.path().join("out.toml");
    let out2 = s.path().join("out2.toml");
    if !c.old.is_empty() {
        let mut t = String::new();
        for (k, v) in &c.old {
            let k = if c.ts { format!("\"{k}\"") } else { k.clone() };
            t += &format!("[{k}]\nen = \"before\"\nzh = \"{v}\"\n");
        }
        std::fs::write(&out, &t).unwrap();
        std::fs::write(&out2, &t).unwrap();
    }
    let text = extract(&one, &out, c.ts, 1)?;
    let again = extract(&two, &out2, c.ts, c.threads % 8 + 1)?;
    ensure_eq!(again, text, "the same files in another order, with {} threads", c.threads % 8 + 1);
    ensure_eq!(extract(&one, &out, c.ts, c.threads % 3 + 1)?, text, "extracting again");
    // What it found.
    let mut got: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
    let mut key = None;
    for line in text.split('\n') {
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        if let Some(k) = line.strip_prefix('[').and_then(|l| l.strip_suffix(']')) {
            let k: String = if c.ts { serde_json::from_str(k).map_err(|e| format!("the key {k:?}: {e}"))? } else { k.to_owned() };
            ensure!(got.insert(k.clone(), BTreeMap::new()).is_none(), "the key {k:?} is reported twice");
            key = Some(k);
            continue;
        }
        let (Some(k), Some((l, v))) = (&key, line.split_once('=')) else { return Err(format!("the line {line:?}").into()) };
        let v: String = serde_json::from_str(v.trim()).map_err(|e| format!("the message {v:?}: {e}"))?;
        got.get_mut(k).unwrap().insert(l.trim().to_owned(), v);
    }
    ensure_eq!(got.keys().collect::<Vec<_>>(), found.keys().collect::<Vec<_>>(), "the keys that are found");
    for (k, m) in &got {
        let en = m.get("en");
        ensure!(en.is_some_and(|e| found[k].contains(e)), "the message of {k:?} is {en:?}, in the sources {:?}", found[k]);
        let zh = c.old.iter().rev().find(|(o, _)| o == k).map(|(_, v)| v);
        ensure_eq!(m.get("zh"), zh, "the translation of {k:?}");
    }
    Ok(found.len() > 1 && c.files.len() > 1)
}

fn literal(ts: bool, key: bool) -> BoxedStrategy<Lit> {
    let plain = gen::text(4).prop_map(|s| s.chars().filter(|c| !matches!(c, '"' | '\\' | '\r' | '\n') && !(*c as u32 <= 0x1f)).map(Ch::Plain).collect::<Vec<_>>());
    let words = prop::sample::select(vec!["tinymist", "config.bad", "the {value} message", "t", "l10n", "路径：{root:?}", "it's", ")", ",", "(", "//"]).prop_map(|s| s.chars().map(Ch::Plain).collect::<Vec<_>>());
    let escaped = match (ts, key) {
        (true, _) => prop::sample::select(vec!['"', '\\', '\n']).prop_map(Ch::Short).boxed(),
        (false, true) => prop::sample::select(vec!['"', '\\', '\'']).prop_map(Ch::Short).boxed(),
        (false, false) => prop_oneof![
            6 => prop::sample::select(vec!['"', '\\', '\n', '\t', '\r', '\'', '\0']).prop_map(Ch::Short),
            1 => any::<u8>().prop_map(Ch::Hex),
            1 => any::<char>().prop_map(Ch::Uni),
            1 => (prop_oneof![any::<char>(), gen::odd_char()], any::<u8>()).prop_map(|(c, n)| Ch::Wide(c, n)),
            1 => prop::sample::select(vec!['\n', '\t']).prop_map(Ch::Plain),
            1 => any::<u8>().prop_map(Ch::Join),
        ]
        .boxed(),
    };
    let special = prop::collection::vec(escaped, 0..2);
    let long = (words.clone(), prop_oneof![4 => 1usize..1500, 1 => 1500usize..9000]).prop_map(|(w, n)| w.iter().cycle().take(w.len() * n).cloned().collect::<Vec<_>>());
    let word = prop_oneof![150 => words, 50 => plain, 1 => long].boxed();
    // What looks like a call inside a literal is taken for one: the scanner
    // reads text, not syntax.
    (word.clone(), special, word)
        .prop_map(|(a, b, c)| a.into_iter().chain(b).chain(c).collect())
        .prop_filter("no call inside a literal", |l: &Lit| {
            let k = read(l);
            !["l10nMsg", "t!", "bail!"].iter().any(|m| k.contains(m))
        })
        .boxed()
}

fn key(ts: bool) -> BoxedStrategy<Lit> {
    // Keys are often the same in several places.
    let simple = prop::sample::select(vec!["a", "b.c", "tinymist.config.bad-value", "d"]).prop_map(|s| s.chars().map(Ch::Plain).collect::<Lit>());
    prop_oneof![3 => simple, 2 => literal(ts, true)]
        .prop_filter("a key on one line", move |l| {
            let k = read(l);
            !k.is_empty() && (ts || !k.contains('\n')) && k.trim() == k
        })
        .boxed()
}

fn piece(ts: bool) -> BoxedStrategy<Piece> {
    let call = move |inner: BoxedStrategy<Vec<Piece>>| (any::<bool>(), key(ts), literal(ts, false), any::<[u8; 5]>(), any::<u8>(), inner).prop_map(|(bail, key, message, blanks, rest, inner)| Piece::Call { bail, key, message, blanks, rest, inner });
    let leaf = prop_oneof![
        4 => call(Just(vec![]).boxed()),
        4 => any::<u8>().prop_map(Piece::Code),
        1 => literal(ts, false).prop_map(Piece::Text),
    ];
    leaf.prop_recursive(3, 10, 3, move |p| {
        prop_oneof![
            call(prop::collection::vec(p.clone(), 1..2).boxed()),
            prop::collection::vec(p, 0..3).prop_map(Piece::Block),
        ]
    })
    .boxed()
}

fn case(ts: bool) -> BoxedStrategy<Case> {
    let dir = || prop::sample::select(vec!["src", "a", ".hidden", "deep", "x y", "é"]).prop_map(str::to_owned);
    let dirs = prop_oneof![4 => prop::collection::vec(dir(), 1..4), 1 => prop::collection::vec(dir(), 4..12)];
    let file = (dirs.clone(), prop::collection::vec(piece(ts), 0..6), any::<u8>(), any::<u8>(), prop::bool::weighted(0.2), prop::bool::weighted(0.1)).prop_map(|(path, pieces, tail, cut, crlf, bom)| File { path, pieces, tail, cut, crlf, bom });
    let decoy = prop_oneof![
        Just(b"tinymist_l10n::t!(\"not\", \"here\"); l10nMsg(\"not here\");".to_vec()),
        Just(b"\xff\xfetinymist_l10n::t!(\"not\", \"text\"); l10nMsg(\"not text\");".to_vec()),
    ];
    let ext = if ts { vec!["rs", "tsx", "js", "ts.bak", "TS"] } else { vec!["ts", "rs.bk", "txt", "RS", "toml"] };
    let this = if ts { "ts" } else { "rs" };
    let other = (dirs, prop::sample::select(ext), decoy).prop_map(move |(mut p, e, d)| {
        // What is no text is ignored in source files, too.
        let e = if d[0] == 0xff { this } else { e };
        p.push(format!("decoy.{e}"));
        (p, Hex(d))
    });
    let old = prop::collection::vec((prop::sample::select(vec!["a", "b.c", "unused", "d"]).prop_map(str::to_owned), prop::sample::select(vec!["x", "中文", "= [y]"]).prop_map(str::to_owned)), 0..3).prop_map(|mut v| {
        let mut seen = BTreeSet::new();
        v.retain(|(k, _)| seen.insert(k.clone()));
        v
    });
    (prop::collection::vec(file, 1..5), prop::collection::vec(other, 0..3), old, any::<u8>()).prop_map(move |(files, others, old, threads)| Case { ts, files, others, old, threads }).boxed()
}

fn main() {
    Check::main("C25", "a case is a tree of source files built from calls and other code, extracted twice with the files in different orders and with different numbers of threads, and once more (non-trivial: over one key and over one file)", |c| {
        c.assume("calls are written as the sources write them: tinymist_l10n::t!, tinymist_l10n::bail! and l10nMsg, with parentheses and ordinary string literals; calls in comments and strings are not generated");
        c.assume("TypeScript literals have the escapes that JSON has too, and each key is spelt in one way");
        c.assume("which of several messages for one key is reported is open, as long as it does not depend on order or threads");
        c.prop("rust", Opts::new(10_000).shards(8).shrink(400), || bx(case(false)), judge);
        c.prop("typescript", Opts::new(6_000).shards(8).shrink(400), || bx(case(true)), judge);
        c.note("extractions", RUNS.load(Ordering::Relaxed));
    });
}
