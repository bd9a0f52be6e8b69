//! Shared parts of the localization checks.
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Serialize};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::FromRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// The helper process: forks a child per request, as translations can only be
/// set once in a process.
pub fn helper<Q: DeserializeOwned, A: Serialize>(run: impl Fn(Q) -> A) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let q: Q = serde_json::from_str(&line).expect("request");
        let mut text = vec![];
        let mut st = 0;
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let said = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(q))) {
                    Ok(a) => serde_json::json!({ "ok": a }),
                    Err(p) => {
                        let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                        serde_json::json!({"panic": m.unwrap_or_default()})
                    }
                };
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let _ = f.write_all(&serde_json::to_vec(&said).unwrap());
                libc::_exit(0);
            }
            libc::close(fds[1]);
            let mut f = std::fs::File::from_raw_fd(fds[0]);
            let _ = f.read_to_end(&mut text);
            libc::waitpid(pid, &mut st, 0);
        }
        if text.is_empty() {
            text = serde_json::to_vec(&serde_json::json!({"panic": format!("the process ended with {st}")})).unwrap();
        }
        text.push(b'\n');
        out.write_all(&text).unwrap();
        out.flush().unwrap();
    }
    std::process::exit(0)
}

struct Helper(Child, ChildStdin, BufReader<ChildStdout>);

impl Drop for Helper {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

thread_local!(static HELPER: std::cell::RefCell<Option<Helper>> = const { std::cell::RefCell::new(None) });

/// Answers a request in a process of its own.
pub fn apart<Q: Serialize, A: DeserializeOwned>(q: &Q) -> Result<A, String> {
    HELPER.with(|h| {
        let mut h = h.borrow_mut();
        let h = h.get_or_insert_with(|| {
            let mut c = Command::new(std::env::current_exe().unwrap()).arg("--helper").env("RAYON_NUM_THREADS", "2").stderr(Stdio::null()).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
            let (i, o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
            Helper(c, i, o)
        });
        writeln!(h.1, "{}", serde_json::to_string(q).unwrap()).map_err(|e| e.to_string())?;
        h.1.flush().map_err(|e| e.to_string())?;
        let mut line = String::new();
        h.2.read_line(&mut line).map_err(|e| e.to_string())?;
        let v: serde_json::Value = serde_json::from_str(&line).map_err(|e| e.to_string())?;
        match v.get("ok") {
            Some(a) => serde_json::from_value(a.clone()).map_err(|e| e.to_string()),
            None => Err(format!("it panics: {}", v["panic"])),
        }
    })
}

/// Text that lives as long as the process.
pub fn keep(s: &str) -> &'static str {
    Box::leak(s.to_owned().into_boxed_str())
}

/// Keys of messages as they are written.
pub fn key() -> BoxedStrategy<String> {
    prop_oneof![
        6 => prop::collection::vec(prop::sample::select(vec!["a", "b", "tinymist", "config", "x-y", "badValue", "badvalue"]), 1..4).prop_map(|v| v.join(".")),
        1 => vcommon::gen::text(6).prop_map(|s| s.chars().filter(|c| !c.is_control() && !c.is_whitespace() && *c != '\u{85}').collect::<String>()),
        1 => prop::sample::select(vec!["\"quoted key\"", "a]b", "[a]", "k=v", "#", "é", "}", "a b"]).prop_map(str::to_owned),
    ]
    .prop_map(|s| if s.is_empty() { "k".to_owned() } else { s })
    .boxed()
}

/// Names of locales in catalogues.
pub fn lang() -> BoxedStrategy<String> {
    prop::sample::select(vec!["zh", "fr", "zh-CN", "zh-TW", "zh-Hant", "zh-Hant-TW", "pt", "pt-BR", "de", "ja", "e", "english", "zhx", "sr-Latn-RS", "pt-br", "x"]).prop_map(str::to_owned).boxed()
}

/// Text of messages.
pub fn message() -> BoxedStrategy<String> {
    prop_oneof![
        4 => vcommon::gen::text(10),
        2 => prop::sample::select(vec!["", " ", "= x", "[a]", "# no comment", "a\nb = c\n[d]\n# e", "\"", "\\", "\\\"", "\r\n", "\t", "{value}", "{value:?}", "数据", "\u{2028}", "\u{0}", "\"quoted\"", "en = \"x\"", "a\u{85}", "\u{3000}"]).prop_map(str::to_owned),
        2 => (vcommon::gen::text(4), vcommon::gen::text(4)).prop_map(|(a, b)| format!("{a}\n{b}\"")),
    ]
    .boxed()
}

/// Writes a message: plainly where `how` is 0 and that is possible, or quoted
/// with more or fewer escapes.
pub fn quote(m: &str, how: u8) -> String {
    let plain = how == 0 && !m.is_empty() && !m.starts_with('"') && m.trim() == m && !m.contains('\n');
    if plain {
        return m.to_owned();
    }
    let mut t = String::from("\"");
    for (i, c) in m.chars().enumerate() {
        match c {
            '"' => t += "\\\"",
            '\\' => t += "\\\\",
            '\n' if how != 2 => t += "\\n",
            '/' if how == 3 => t += "\\/",
            c if (c as u32) < 0x20 || (how >= 2 && (i + how as usize) % 2 == 0) => {
                let mut b = [0; 2];
                c.encode_utf16(&mut b).iter().for_each(|u| t += &format!("\\u{u:04x}"));
            }
            c => t.push(c),
        }
    }
    t.push('"');
    t
}
