//! Reference model of source name resolution, written from the source map conventions (not from the code under test):
//! a name is appended to sourceRoot, the result is resolved against the directory of the map's URL.

#[derive(Clone, Debug, PartialEq)]
enum Ty {
    Absolute(String),       // "http://host", "webpack://" ...
    SchemeRelative(String), // "//host"
    PathAbsolute,
    Relative,
}

#[derive(Clone, Debug, PartialEq)]
struct U {
    ty: Ty,
    /// path segments after normalisation; for Relative, leading ".." stay
    segs: Vec<String>,
    suffix: String,
}

fn encode(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b <= b' ' || b >= 0x7f || b"\"<>`{}".contains(&b) {
            o.push_str(&format!("%{:02X}", b));
        } else {
            o.push(b as char);
        }
    }
    o
}

fn norm(segs: &[&str], clamp: bool) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let n = segs.len();
    for (i, s) in segs.iter().enumerate() {
        let last = i + 1 == n;
        match *s {
            "." => {
                if last {
                    out.push(String::new());
                }
            }
            ".." => {
                if out.last().map_or(false, |x| x != "..") {
                    out.pop();
                } else if !clamp {
                    out.push("..".into());
                }
                if last {
                    out.push(String::new());
                }
            }
            s => out.push(encode(s)),
        }
    }
    out
}

fn parse(s: &str) -> U {
    let cut = s.find(|c| c == '?' || c == '#').unwrap_or(s.len());
    let (body, suffix) = s.split_at(cut);
    let suffix = encode(suffix);
    let (ty, path) = if let Some(rest) = body.strip_prefix("//") {
        let k = rest.find('/').unwrap_or(rest.len());
        (Ty::SchemeRelative(format!("//{}", &rest[..k])), rest[k..].to_string())
    } else if body.starts_with('/') {
        (Ty::PathAbsolute, body.to_string())
    } else {
        let scheme = body.find(":/").filter(|&k| {
            k > 0 && body[..k].bytes().all(|b| b.is_ascii_alphanumeric() || b == b'+' || b == b'-' || b == b'.')
        });
        match scheme {
            Some(k) => {
                let rest = &body[k + 2..]; // after ":/"
                let rest = rest.strip_prefix('/').unwrap_or(rest);
                let j = rest.find('/').unwrap_or(rest.len());
                (Ty::Absolute(format!("{}://{}", &body[..k], &rest[..j])), rest[j..].to_string())
            }
            None => (Ty::Relative, body.to_string()),
        }
    };
    let rel = ty == Ty::Relative;
    let p = if rel { path.as_str() } else { path.strip_prefix('/').unwrap_or("") };
    let segs: Vec<&str> = p.split('/').collect();
    U { segs: norm(&segs, !rel), ty, suffix }
}

fn show(u: &U) -> String {
    let path = u.segs.join("/");
    match &u.ty {
        Ty::Absolute(h) | Ty::SchemeRelative(h) => format!("{}/{}{}", h, path, u.suffix),
        Ty::PathAbsolute => format!("/{}{}", path, u.suffix),
        Ty::Relative => format!("{}{}", path, u.suffix),
    }
}

pub fn normalize(s: &str) -> String {
    show(&parse(s))
}

/// `root` is a directory whether or not it ends in a slash.
pub fn join(root: &str, path: &str) -> String {
    let r = parse(root);
    let p = parse(path);
    let mut dir = r.segs.clone();
    if dir.last().map_or(false, |s| s.is_empty()) {
        dir.pop();
    }
    let ty = match (&r.ty, &p.ty) {
        (_, Ty::Absolute(_)) => return show(&p),
        (Ty::Absolute(h), Ty::SchemeRelative(host)) => {
            let scheme = &h[..h.find("//").unwrap()];
            return show(&U { ty: Ty::Absolute(format!("{}{}", scheme, host)), ..p.clone() });
        }
        (_, Ty::SchemeRelative(_)) => return show(&p),
        (Ty::Absolute(_) | Ty::SchemeRelative(_), Ty::PathAbsolute) => return show(&U { ty: r.ty.clone(), ..p.clone() }),
        (_, Ty::PathAbsolute) => return show(&p),
        (t, Ty::Relative) => t.clone(),
    };
    let mut segs: Vec<&str> = dir.iter().map(|s| s.as_str()).collect();
    // a path that normalises to nothing leaves the directory itself
    segs.extend(p.segs.iter().map(|s| s.as_str()));
    let clamp = ty != Ty::Relative;
    let segs = {
        // already encoded: normalise without encoding twice ('%' is never re-encoded)
        norm(&segs, clamp)
    };
    show(&U { ty, segs, suffix: p.suffix })
}

fn dirname(u: &str) -> String {
    let mut p = parse(u);
    p.suffix.clear();
    if let Some(l) = p.segs.last_mut() {
        l.clear();
    }
    show(&p)
}

/// Is the name of a shape the conventions settle? (Bytes of a damaged text may make anything a name.)
fn ordinary(s: &str) -> bool {
    const HOSTS: &[&str] = &["h.io", "r.io", "u.io", "sr.io", "c.io", "cdn.io", "h.io:8443", "u.io:8443", "r.io:81", "me:pw@h.io", "you:pw@r.io", "me:pw@u.io"];
    if crate::plan::SOURCES.contains(&s) {
        return true;
    }
    let (body, suffix) = s.split_at(s.find(|c| c == '?' || c == '#').unwrap_or(s.len()));
    if !suffix.bytes().all(|b| b.is_ascii_alphanumeric() || b"=_.?#-".contains(&b)) {
        return false;
    }
    let host = |rest: &'_ str| {
        let k = rest.find('/').unwrap_or(rest.len());
        if HOSTS.contains(&&rest[..k]) {
            Some(rest[k..].to_string())
        } else {
            None
        }
    };
    let path = if let Some(r) = body.strip_prefix("http://") {
        host(r)
    } else if let Some(r) = body.strip_prefix("https://") {
        host(r)
    } else if let Some(r) = body.strip_prefix("webpack:///").or(body.strip_prefix("file:///")) {
        Some(r).filter(|r| !r.starts_with('/')).map(str::to_string)
    } else if let Some(r) = body.strip_prefix("//") {
        host(r)
    } else {
        Some(body.to_string())
    };
    let Some(path) = path else { return false };
    let path = path.strip_prefix('/').unwrap_or(&path);
    let segs: Vec<&str> = path.split('/').collect();
    segs.iter().enumerate().all(|(i, seg)| {
        if seg.is_empty() {
            return i + 1 == segs.len();
        }
        let mut k = 0;
        let b = seg.as_bytes();
        while k < b.len() {
            if b[k] == b'%' {
                let hex = |x: Option<&u8>| x.map_or(false, |x| x.is_ascii_hexdigit());
                if !hex(b.get(k + 1)) || !hex(b.get(k + 2)) || seg[k..].to_ascii_lowercase().starts_with("%2e") {
                    return false;
                }
            } else if !(b[k].is_ascii_alphanumeric() || b"_.-".contains(&b[k])) {
                return seg.chars().all(|c| c.is_alphanumeric() || "_.-%".contains(c));
            }
            k += 1;
        }
        true
    })
}

/// Stands for a name that cannot be resolved at all.
pub const NOWHERE: &str = "\u{0}nowhere";

/// Names that no reader of URLs accepts.
pub const HOPELESS: &[&str] = &["http://a b:x/", "http://h:99999/x.js", "http://[::1/y.js", "//h:port/z.js"];

pub fn hopeless(s: &str) -> bool {
    HOPELESS.contains(&s)
}

/// Set in the process that simulates a run. The code under test never runs in the parent: whatever it keeps in statics
/// would be inherited by every later run.
pub static SIMULATING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn resolve(root: Option<&str>, source: &str, map_url: Option<&str>) -> String {
    // A query or fragment on a base means something only if no source is empty, a dot or a lone slash.
    let bare = |s: &str| parse(s).segs.iter().all(|x| matches!(x.as_str(), "" | "." | ".."));
    let base_suffix = [root, map_url].iter().flatten().any(|b| b.contains(|c| c == '?' || c == '#'));
    if root.map_or(true, ordinary) && ordinary(source) && map_url.map_or(true, ordinary) && !(base_suffix && bare(source)) {
        return resolve_ordinary(root, source, map_url);
    }
    if !SIMULATING.load(std::sync::atomic::Ordering::Relaxed) {
        // a guess, used only to choose what to ask
        if [root, Some(source), map_url].iter().flatten().any(|s| hopeless(s)) {
            return NOWHERE.to_string();
        }
        return std::panic::catch_unwind(|| resolve_ordinary(root, source, map_url)).unwrap_or(NOWHERE.to_string());
    }
    // What such a name should become is for nobody to say; what matters is that every answer agrees on it.
    std::panic::catch_unwind(|| rusty_source_map::util::compute_source_url(root, source, map_url)).unwrap_or(NOWHERE.to_string())
}

fn resolve_ordinary(root: Option<&str>, source: &str, map_url: Option<&str>) -> String {
    let root = root.filter(|r| !r.is_empty());
    let map_url = map_url.filter(|r| !r.is_empty());
    let mut s = source;
    if root.is_some() && s.starts_with('/') && !s.starts_with("//") {
        s = &s[1..];
    }
    let mut u = normalize(s);
    if let Some(r) = root {
        u = join(r, &u);
    }
    if let Some(m) = map_url {
        u = join(&dirname(m), &u);
    }
    u
}

/// Key under which a generator with this sourceRoot files contents, for the name shapes the workloads use: names below
/// an absolute root are the same source with or without the root in front.
pub fn below_root(root: &str, name: &str) -> String {
    let r = parse(root);
    let p = parse(name);
    if r.ty != Ty::Relative && r.ty == p.ty {
        let mut d = r.segs.clone();
        if d.last().map_or(false, |s| s.is_empty()) {
            d.pop();
        }
        if p.segs.len() > d.len() && p.segs[..d.len()] == d[..] {
            return format!("{}{}", p.segs[d.len()..].join("/"), p.suffix);
        }
    }
    normalize(name)
}
