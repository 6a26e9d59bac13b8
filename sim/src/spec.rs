//! Documents the workloads are made of, and how they are written down as text.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Seg {
    /// all 0-based
    pub gl: u32,
    pub gc: i64,
    pub orig: Option<(u32, i64, i64)>,
    pub name: Option<u32>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Basic {
    pub version: i64,
    pub file: Option<String>,
    pub sources: Vec<String>,
    pub names: Option<Vec<String>>,
    pub root: Option<String>,
    pub contents: Option<Vec<Option<String>>>,
    pub segs: Vec<Seg>,
    /// a literal mappings text instead of `segs`
    pub raw: Option<String>,
    /// leave out "sources" / "mappings"
    #[serde(default)]
    pub no_sources: bool,
    #[serde(default)]
    pub no_mappings: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Section {
    pub line: i64,
    pub col: i64,
    pub url: Option<String>,
    pub map: Basic,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Body {
    Basic(Basic),
    Indexed { version: i64, sections: Vec<Section> },
}

/// What happens to the text between writing and reading.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Damage {
    /// only the first bytes were written (per mille of the length, then minus `less`)
    Cut { permille: u32, less: u32 },
    FlipBit { at: u64, bit: u8 },
    /// replace a byte by another base64 or JSON character
    SetByte { at: u64, byte: u8 },
    /// a block was lost
    Drop { at: u64, len: u32 },
    /// a block was written twice
    Dup { at: u64, len: u32 },
    /// a block was zeroed (or shows as spaces)
    Blank { at: u64, len: u32, byte: u8 },
    /// the file was extended in front or behind: by zeros, by spaces, by another header, by itself
    Grow { front: bool, with: String },
    /// a letter of the k-th key was changed
    Key { at: u64 },
    /// what follows the k-th key was overwritten
    Value { at: u64, with: String },
    /// the tail of an older, other text follows a short overwrite
    Mix { other: usize, at: u64 },
    /// damage inside the mappings text only: replace the k-th character
    Vlq { at: u64, with: String },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Doc {
    pub body: Body,
    pub damage: Vec<Damage>,
    pub style: u8,
}

const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn vlq(v: i64, out: &mut String) {
    let mut x: u64 = if v < 0 { ((-(v as i128)) as u64) << 1 | 1 } else { (v as u64) << 1 };
    loop {
        let mut d = (x & 31) as usize;
        x >>= 5;
        if x > 0 {
            d |= 32;
        }
        out.push(B64[d] as char);
        if x == 0 {
            break;
        }
    }
}

pub fn mappings_text(segs: &[Seg]) -> String {
    let mut o = String::new();
    let (mut line, mut gc, mut src, mut ol, mut oc, mut nm) = (0u32, 0i64, 0i64, 0i64, 0i64, 0i64);
    let mut first = true;
    let mut order: Vec<&Seg> = segs.iter().collect();
    order.sort_by_key(|s| s.gl); // stable: keeps the column order as given within a line
    for s in order {
        while line < s.gl {
            o.push(';');
            line += 1;
            gc = 0;
            first = true;
        }
        if !first {
            o.push(',');
        }
        first = false;
        vlq(s.gc - gc, &mut o);
        gc = s.gc;
        if let Some((a, b, c)) = s.orig {
            vlq(a as i64 - src, &mut o);
            src = a as i64;
            vlq(b - ol, &mut o);
            ol = b;
            vlq(c - oc, &mut o);
            oc = c;
            if let Some(n) = s.name {
                vlq(n as i64 - nm, &mut o);
                nm = n as i64;
            }
        }
    }
    o
}

fn basic_value(b: &Basic, style: u8) -> Vec<(String, serde_json::Value)> {
    use serde_json::{json, Value};
    let mut v: Vec<(String, Value)> = vec![("version".into(), json!(b.version))];
    if !b.no_sources {
        v.push(("sources".into(), json!(b.sources)));
    }
    if let Some(n) = &b.names {
        v.push(("names".into(), json!(n)));
    }
    if let Some(f) = &b.file {
        v.push(("file".into(), json!(f)));
    }
    if let Some(r) = &b.root {
        v.push(("sourceRoot".into(), json!(r)));
    }
    if let Some(c) = &b.contents {
        v.push(("sourcesContent".into(), json!(c)));
    }
    if !b.no_mappings {
        let m = b.raw.clone().unwrap_or_else(|| mappings_text(&b.segs));
        v.push(("mappings".into(), json!(m)));
    }
    if style & 1 != 0 {
        v.push(("x_note".into(), json!({"k": [1, null, "z"]})));
    }
    if style & 2 != 0 {
        v.reverse();
    }
    v
}

fn obj(v: &[(String, serde_json::Value)], style: u8) -> String {
    let sep = if style & 4 != 0 { ",\n  " } else { "," };
    let parts: Vec<String> = v
        .iter()
        .map(|(k, x)| format!("{}:{}{}", serde_json::to_string(k).unwrap(), if style & 4 != 0 { " " } else { "" }, x))
        .collect();
    format!("{{{}}}", parts.join(sep))
}

impl Doc {
    pub fn clean_text(&self) -> String {
        match &self.body {
            Body::Basic(b) => obj(&basic_value(b, self.style), self.style),
            Body::Indexed { version, sections } => {
                let mut parts = vec![];
                for s in sections {
                    let mut f = vec![format!("\"offset\":{{\"line\":{},\"column\":{}}}", s.line, s.col)];
                    if let Some(u) = &s.url {
                        f.push(format!("\"url\":{}", serde_json::to_string(u).unwrap()));
                    }
                    f.push(format!("\"map\":{}", obj(&basic_value(&s.map, self.style), self.style)));
                    parts.push(format!("{{{}}}", f.join(",")));
                }
                format!("{{\"version\":{},\"sections\":[{}]}}", version, parts.join(","))
            }
        }
    }
    /// The text as read back.
    pub fn text(&self, all: &[Doc]) -> String {
        let mut t = self.clean_text().into_bytes();
        for d in &self.damage {
            let n = t.len() as u64;
            if n == 0 {
                break;
            }
            match d {
                Damage::Cut { permille, less } => {
                    let k = (n * *permille as u64 / 1000).saturating_sub(*less as u64).min(n - 1);
                    t.truncate(k as usize);
                }
                Damage::FlipBit { at, bit } => t[(at % n) as usize] ^= 1 << (bit & 7),
                Damage::SetByte { at, byte } => t[(at % n) as usize] = *byte,
                Damage::Drop { at, len } => {
                    let a = (at % n) as usize;
                    let b = (a + *len as usize).min(t.len());
                    t.drain(a..b);
                }
                Damage::Dup { at, len } => {
                    let a = (at % n) as usize;
                    let b = (a + *len as usize).min(t.len());
                    let blk = t[a..b].to_vec();
                    for (i, x) in blk.into_iter().enumerate() {
                        t.insert(b + i, x);
                    }
                }
                Damage::Blank { at, len, byte } => {
                    let a = (at % n) as usize;
                    let b = (a + *len as usize).min(t.len());
                    for x in &mut t[a..b] {
                        *x = *byte;
                    }
                }
                Damage::Grow { front, with } => {
                    let more = if with.is_empty() { t.clone() } else { with.clone().into_bytes() };
                    if *front {
                        t.splice(0..0, more);
                    } else {
                        t.extend(more);
                    }
                }
                Damage::Key { at } => {
                    let k = keys(&t);
                    if !k.is_empty() {
                        t[k[(*at % k.len() as u64) as usize].0] ^= 2;
                    }
                }
                Damage::Value { at, with } => {
                    let k = keys(&t);
                    if !k.is_empty() {
                        let a = k[(*at % k.len() as u64) as usize].1;
                        let b = value_end(&t, a);
                        t.splice(a..b, with.bytes());
                    }
                }
                Damage::Mix { other, at } => {
                    let o = all.get(*other).map(|d| d.clean_text()).unwrap_or_default().into_bytes();
                    let a = ((at % n) as usize).min(o.len());
                    let tail = o[a..].to_vec();
                    t.truncate((at % n) as usize);
                    t.extend(tail);
                }
                Damage::Vlq { at, with } => {
                    let s = String::from_utf8_lossy(&t).into_owned();
                    if let Some(p) = s.find("\"mappings\":") {
                        let rest = &s[p + 11..];
                        if let Some(q) = rest.find('"') {
                            if let Some(e) = rest[q + 1..].find('"') {
                                let (a, b) = (p + 11 + q + 1, p + 11 + q + 1 + e);
                                if b > a {
                                    let k = a + (*at as usize) % (b - a);
                                    if s.is_char_boundary(k) && s.is_char_boundary(k + 1) {
                                        t = format!("{}{}{}", &s[..k], with, &s[k + 1..]).into_bytes();
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        String::from_utf8_lossy(&t).into_owned()
    }
}

/// First letter of every key, and where its value starts.
fn keys(t: &[u8]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'"' {
            let a = i + 1;
            i = a;
            while i < t.len() && t[i] != b'"' {
                i += if t[i] == b'\\' { 2 } else { 1 };
            }
            let mut c = i + 1;
            while c < t.len() && t[c].is_ascii_whitespace() {
                c += 1;
            }
            if c < t.len() && t[c] == b':' && i > a {
                out.push((a, c + 1));
            }
        }
        i += 1;
    }
    out
}

fn value_end(t: &[u8], a: usize) -> usize {
    let mut depth = 0;
    let mut i = a;
    while i < t.len() {
        match t[i] {
            b'"' => {
                i += 1;
                while i < t.len() && t[i] != b'"' {
                    i += if t[i] == b'\\' { 2 } else { 1 };
                }
            }
            b'[' | b'{' => depth += 1,
            b']' | b'}' if depth == 0 => return i,
            b']' | b'}' => depth -= 1,
            b',' if depth == 0 => return i,
            _ => {}
        }
        i += 1;
    }
    t.len()
}
