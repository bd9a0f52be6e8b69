//! C47: which pages may talk to a preview.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tinymist::tool::preview::http::is_valid_origin_impl;
use tinymist::tool::preview::HeaderValue;
use vcommon::{bx, ensure_eq, no_panic, Check, Fail, Opts, Verdict};

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    scheme: String,
    /// Before the host.
    user: Option<String>,
    host: String,
    port: Option<u16>,
    /// After the port.
    rest: String,
    /// Replaces some bytes.
    noise: Vec<(u16, u8)>,
    /// Where the preview is served.
    addr: String,
    own: u16,
    gitpod: Option<(String, String)>,
    /// Takes the origin from that of the preview or of gitpod.
    from: u8,
}

fn name() -> BoxedStrategy<String> {
    let label = || prop::sample::select(vec!["a", "evil", "localhost", "127", "com", "gitpod", "0", "1", "xn--bcher-kva"]);
    bx(prop_oneof![
        2 => Just("localhost".to_owned()),
        2 => Just("127.0.0.1".to_owned()),
        3 => prop::collection::vec(label(), 1..5).prop_map(|mut v| {
            // Numbers at the end are those of an address, in short.
            if v.last().is_some_and(|l| l.parse::<u8>().is_ok()) {
                v.push("com");
            }
            v.join(".")
        }),
        1 => prop::sample::select(vec!["[::1]", "[::ffff:7f00:1]", "127.0.0.2", "0.0.0.0", "10.0.0.1", "localhost.", "notlocalhost", "localhost-a", "alocalhost", "127.0.0.1.com", "127.0.0.10", "1127.0.0.1", "localhost.com"]).prop_map(str::to_owned),
    ])
}
fn cases() -> BoxedStrategy<Case> {
    let scheme = prop_oneof![
        6 => Just("http"),
        2 => Just("https"),
        3 => prop::sample::select(vec!["vscode-webview", "vscode-webviews", "xvscode-webview", "file", "ws", "chrome-extension", "null", "httpx", "ftp", ""]),
    ];
    let rest = prop_oneof![
        8 => Just(String::new()),
        1 => Just("/".to_owned()),
        2 => (prop::sample::select(vec!["/", "#", "?", "\\", ":", "@", "/@", " ", "\t", "%2e", "/x", ":80@"]), name()).prop_map(|(a, b)| format!("{a}{b}")),
    ];
    let user = prop::option::weighted(0.12, prop_oneof![name(), Just("localhost:80".to_owned()), Just("127.0.0.1#".to_owned())]);
    let port = || prop_oneof![3 => any::<u16>(), 1 => prop::sample::select(vec![80u16, 443, 8080, 23627, 1, 0])];
    let addr = (prop_oneof![4 => Just("127.0.0.1".to_owned()), 1 => Just("localhost".to_owned()), 2 => prop::sample::select(vec!["192.168.0.7", "0.0.0.0", "[::1]", "host.internal"]).prop_map(str::to_owned)], port()).prop_map(|(h, p)| format!("{h}:{p}"));
    let gitpod = prop::option::weighted(0.3, (prop::sample::select(vec!["w", "ws-1", "a.b"]), prop::sample::select(vec!["gitpod.io", "eu.gitpod.io"])).prop_map(|(a, b)| (a.to_owned(), b.to_owned())));
    let noise = prop_oneof![8 => Just(vec![]), 1 => prop::collection::vec((any::<u16>(), any::<u8>()), 1..3)];
    bx(((scheme, user, name(), prop::option::of(port()), rest), noise, addr, port(), gitpod, 0..6u8).prop_map(|((scheme, user, host, port, rest), noise, addr, own, gitpod, from)| Case {
        scheme: scheme.to_owned(),
        user,
        host,
        port,
        rest,
        noise,
        addr,
        own,
        gitpod,
        from,
    }))
}

/// The origin, as its parts.
fn parts(c: &Case) -> (String, String, Option<u16>) {
    let own = c.addr.rsplit_once(':').unwrap().0.to_owned();
    match (c.from, &c.gitpod) {
        (0, _) => ("http".into(), own, Some(c.own)),
        // Almost that.
        (1, _) => (c.scheme.clone(), own, Some(c.own)),
        (2, _) => ("http".into(), own, c.port),
        (3, Some((w, h))) => ("https".into(), format!("{}-{w}.{h}", c.own), None),
        (4, Some((w, h))) => ("https".into(), format!("{}-{w}.{h}", c.port.unwrap_or(80)), None),
        _ => (c.scheme.clone(), c.host.clone(), c.port),
    }
}

fn judge(c: &Case) -> Verdict {
    let (scheme, host, port) = parts(c);
    let user = c.user.as_ref().map(|u| format!("{u}@")).unwrap_or_default();
    let port_ = port.map(|p| format!(":{p}")).unwrap_or_default();
    let mut text = format!("{scheme}://{user}{host}{port_}{}", c.rest).into_bytes();
    for (at, b) in &c.noise {
        let at = (*at as usize * text.len()) >> 16;
        text[at] = *b;
    }
    let shown = String::from_utf8_lossy(&text).into_owned();
    let header = HeaderValue(text);
    let got = no_panic(|| is_valid_origin_impl(&header, &c.addr, c.own, &c.gitpod)).map_err(|e| Fail::from(format!("{shown:?} panics: {e}")))?;
    if !c.noise.is_empty() {
        // Nothing but that it ends; unless it is plainly elsewhere.
        return Ok(false);
    }
    let own = c.addr.rsplit_once(':').unwrap().0;
    let loopback = matches!(host.as_str(), "localhost" | "127.0.0.1");
    // An origin has no user and nothing after its port.
    if !user.is_empty() || !(c.rest.is_empty() || c.rest == "/") {
        // Whatever a part of it says, the host is what counts. The one that is
        // loopback may be accepted.
        let after = |r: &str| r.starts_with(['@', ':']) || r.contains('@') || r.starts_with('%') || r.starts_with(['\t', ' ']);
        if loopback || scheme == "vscode-webview" || after(&c.rest) || c.user.as_deref().is_some_and(|u| u.contains('#')) {
            let trusted = url::Url::parse(&shown).is_ok_and(|u| {
                let local = matches!(u.host_str(), Some("localhost" | "127.0.0.1")) && u.scheme() == "http";
                local || u.scheme() == "vscode-webview"
            });
            if !trusted {
                ensure_eq!(got, false, "{shown:?} is accepted, for {own}:{}", c.own);
            }
            return Ok(true);
        }
        ensure_eq!(got, false, "{shown:?} is accepted, for {own}:{}", c.own);
        return Ok(true);
    }
    let mine = scheme == "http" && host == own && port == Some(c.own) && c.rest.is_empty();
    let local = scheme == "http" && loopback;
    let gitpod = c.gitpod.as_ref().is_some_and(|(w, h)| scheme == "https" && host == format!("{}-{w}.{h}", c.own) && port.is_none() && c.rest.is_empty());
    let webview = scheme == "vscode-webview";
    let fine = url::Url::parse(&shown).is_ok();
    ensure_eq!(got, fine && (mine || local || gitpod || webview), "whether {shown:?} is accepted, for {own}:{} and {:?}", c.own, c.gitpod);
    Ok(!got)
}

fn main() {
    Check::main("C47", "an origin that is not accepted", |c| {
        c.prop("origins", Opts::new(200000).thorough(40).shards(24), cases, judge);
    })
}
