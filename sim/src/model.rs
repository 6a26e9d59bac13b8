//! The reference model: what the text of a map says, and what every call must answer. Written from the source map
//! format and the properties, with its own decoder; it shares no code with the system under test.
use crate::plan::GMap;
use crate::url;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct MMapping {
    pub gl: u32,
    pub gc: u32,
    /// source, line, column (0-based), name
    pub orig: Option<(u32, u32, u32, Option<u32>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Maps {
    /// sorted by generated position
    Valid(Vec<MMapping>),
    /// some mapping refers to a source or name that is not there
    BadRef(Vec<MMapping>),
    /// not a mappings text: every use of it must be refused
    Refused,
    /// out of the ordinary (odd field counts, numbers no position can have): nothing is said about the answers
    Lenient,
}

#[derive(Clone, Debug)]
pub struct MBasic {
    pub raw_sources: Vec<String>,
    pub sources: Vec<String>,
    pub names: Option<Vec<String>>,
    pub root: Option<String>,
    pub url: Option<String>,
    pub contents: Option<Vec<Option<String>>>,
    pub maps: Maps,
    /// written by a generator: repeated mappings count once
    pub set: bool,
    /// some name in it is nothing a URL can be made of
    pub nowhere: bool,
    /// position -> (number of mappings there, column of the next position on the line)
    spans: HashMap<(u32, u32), (u32, Option<u32>)>,
}

#[derive(Clone, Debug)]
pub struct MSection {
    pub line: i64,
    pub col: i64,
    pub map: MBasic,
}

#[derive(Clone, Debug)]
pub struct MIndexed {
    pub sections: Vec<MSection>,
    pub version_ok: bool,
    pub has_url: bool,
    pub ordered: bool,
    pub negative: bool,
    /// a section's map lacks its sources or mappings
    pub incomplete: bool,
}

#[derive(Clone, Debug)]
pub enum Parsed {
    /// not JSON, or not of the right shape
    Bad,
    /// right shape, but a basic map without sources or mappings
    Incomplete,
    Basic(MBasic),
    Indexed(MIndexed),
}

#[derive(Deserialize)]
struct JMap {
    version: i32,
    sources: Option<Vec<String>>,
    names: Option<Vec<String>>,
    mappings: Option<String>,
    #[allow(dead_code)]
    file: Option<String>,
    #[serde(rename = "sourceRoot")]
    source_root: Option<String>,
    #[serde(rename = "sourcesContent")]
    sources_content: Option<Vec<Option<String>>>,
    sections: Option<Vec<JSection>>,
}
#[derive(Deserialize)]
struct JSection {
    offset: JPos,
    map: Box<JMap>,
    url: Option<String>,
}
#[derive(Deserialize)]
struct JPos {
    line: i32,
    column: i32,
}

fn digit(b: u8) -> Option<u64> {
    Some(match b {
        b'A'..=b'Z' => b - b'A',
        b'a'..=b'z' => b - b'a' + 26,
        b'0'..=b'9' => b - b'0' + 52,
        b'+' => 62,
        b'/' => 63,
        _ => return None,
    } as u64)
}

/// Mappings in text order.
pub fn decode(text: &str) -> Result<Vec<MMapping>, Maps> {
    let mut out = vec![];
    let (mut src, mut ol, mut oc, mut nm) = (0i64, 0i64, 0i64, 0i64);
    let mut odd = false;
    for (gl, line) in text.split(';').enumerate() {
        let mut gc = 0i64;
        for seg in line.split(',') {
            if seg.is_empty() {
                continue;
            }
            let mut fields = vec![];
            let (mut acc, mut shift, mut open, mut n) = (0u64, 0u32, false, 0);
            for b in seg.bytes() {
                let d = match digit(b) {
                    Some(d) => d,
                    None => return Err(Maps::Refused),
                };
                n += 1;
                if n > 12 {
                    return Err(Maps::Lenient);
                }
                acc |= (d & 31) << shift;
                shift += 5;
                open = d & 32 != 0;
                if !open {
                    let v = (acc >> 1) as i64;
                    fields.push(if acc & 1 == 1 { -v } else { v });
                    acc = 0;
                    shift = 0;
                    n = 0;
                }
            }
            if open {
                return Err(if fields.len() < 5 { Maps::Refused } else { Maps::Lenient });
            }
            if !matches!(fields.len(), 1 | 4 | 5) {
                odd = true;
            }
            let put = |k: usize, v: &mut i64| -> bool {
                if let Some(f) = fields.get(k) {
                    *v += *f;
                }
                *v >= 0 && *v <= u32::MAX as i64
            };
            if !(put(0, &mut gc) && put(1, &mut src) && put(2, &mut ol) && put(3, &mut oc) && put(4, &mut nm)) {
                return Err(if odd { Maps::Lenient } else { Maps::Refused });
            }
            if [gc, src, ol, oc, nm].iter().any(|&v| v >= i32::MAX as i64) || gl as i64 >= i32::MAX as i64 {
                odd |= [gc, src, ol, oc, nm].iter().any(|&v| v > i32::MAX as i64) || ol >= i32::MAX as i64;
            }
            let orig = if fields.len() >= 4 {
                Some((src as u32, ol as u32, oc as u32, if fields.len() >= 5 { Some(nm as u32) } else { None }))
            } else {
                None
            };
            out.push(MMapping { gl: gl as u32, gc: gc as u32, orig });
        }
    }
    if odd {
        return Err(Maps::Lenient);
    }
    Ok(out)
}

impl MBasic {
    #[allow(clippy::too_many_arguments)]
    fn make(
        raw_sources: Vec<String>,
        names: Option<Vec<String>>,
        root: Option<String>,
        url: Option<&str>,
        contents: Option<Vec<Option<String>>>,
        maps: Maps,
        set: bool,
    ) -> MBasic {
        let sources: Vec<String> = raw_sources.iter().map(|s| url::resolve(root.as_deref(), s, url)).collect();
        let nowhere = sources.iter().any(|s| s == url::NOWHERE) || url::resolve(root.as_deref(), "a.js", url) == url::NOWHERE;
        let mut maps = maps;
        let mut spans: HashMap<(u32, u32), (u32, Option<u32>)> = HashMap::new();
        if let Maps::Valid(v) | Maps::BadRef(v) = &mut maps {
            v.sort();
            if set {
                v.dedup();
            }
            let mut next: Option<(u32, u32)> = None;
            let mut i = v.len();
            while i > 0 {
                let key = (v[i - 1].gl, v[i - 1].gc);
                let mut j = i - 1;
                while j > 0 && (v[j - 1].gl, v[j - 1].gc) == key {
                    j -= 1;
                }
                let nx = next.filter(|n| n.0 == key.0).map(|n| n.1);
                spans.insert(key, ((i - j) as u32, nx));
                next = Some(key);
                i = j;
            }
        }
        MBasic { raw_sources, sources, names, root, url: url.map(|s| s.to_string()), contents, maps, set, spans, nowhere }
    }
    /// Is this a name that cannot be resolved against this map at all?
    pub fn hopeless(&self, q: &str) -> bool {
        url::resolve(None, q, self.url.as_deref()) == url::NOWHERE || url::resolve(self.root.as_deref(), q, self.url.as_deref()) == url::NOWHERE
    }
    pub fn find(&self, q: &str) -> Option<usize> {
        let a = url::resolve(None, q, self.url.as_deref());
        if let Some(i) = self.sources.iter().position(|s| *s == a) {
            return Some(i);
        }
        let b = url::resolve(self.root.as_deref(), q, self.url.as_deref());
        self.sources.iter().position(|s| *s == b)
    }
}

fn basic(j: JMap, url: Option<&str>) -> Option<MBasic> {
    let sources = j.sources?;
    let text = j.mappings?;
    let maps = match decode(&text) {
        Err(m) => m,
        Ok(v) => {
            let nn = j.names.as_ref().map_or(0, |n| n.len());
            let bad = v.iter().any(|m| {
                m.orig.as_ref().map_or(false, |o| o.0 as usize >= sources.len() || o.3.map_or(false, |n| n as usize >= nn))
            });
            if bad {
                Maps::BadRef(v)
            } else {
                Maps::Valid(v)
            }
        }
    };
    Some(MBasic::make(sources, j.names, j.source_root, url, j.sources_content, maps, false))
}

/// What the text is, read as any reader of the format would.
pub fn parse(text: &str, url: Option<&str>) -> Parsed {
    let j: JMap = match serde_json::from_str(text) {
        Ok(j) => j,
        Err(_) => return Parsed::Bad,
    };
    match j.sections {
        None => match basic(j, url) {
            Some(b) => Parsed::Basic(b),
            None => Parsed::Incomplete,
        },
        Some(v) => {
            let mut x = MIndexed {
                sections: vec![],
                version_ok: j.version == 3,
                has_url: false,
                ordered: true,
                negative: false,
                incomplete: false,
            };
            let mut last = (i64::MIN, i64::MIN);
            for s in v {
                let off = (s.offset.line as i64, s.offset.column as i64);
                x.has_url |= s.url.is_some();
                x.ordered &= off >= last;
                x.negative |= off.0 < 0 || off.1 < 0;
                last = off;
                match basic(*s.map, url) {
                    Some(b) => x.sections.push(MSection { line: off.0, col: off.1, map: b }),
                    None => x.incomplete = true,
                }
            }
            Parsed::Indexed(x)
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------------
// answers

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MapAns {
    pub gen: (i32, i32),
    pub orig: Option<(i32, i32)>,
    pub src: Option<String>,
    pub name: Option<String>,
    pub last: Option<i32>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Raw {
    pub m: MMapping,
    pub last: Option<u32>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ans {
    /// the object this call is for is not there
    Skip,
    Panic(String),
    Err(String),
    Unit,
    Basic,
    Indexed,
    Map(Option<MapAns>),
    Pos(Option<(i32, i32)>),
    Raws(Vec<Raw>),
    Each { seen: Vec<Raw>, cut: bool },
    Str(Option<String>),
    Strs(Vec<String>),
    Bool(bool),
    Text(String),
    Num(Option<i64>),
    GMaps { seen: Vec<GMap>, cut: bool },
    Nest { outer: Box<Ans>, inner: Box<Ans> },
}

impl Ans {
    pub fn failed(&self) -> bool {
        match self {
            Ans::Panic(_) | Ans::Err(_) => true,
            Ans::Nest { outer, .. } => outer.failed(),
            _ => false,
        }
    }
}

pub type Verdict = Result<(), (&'static str, String)>;

fn bad<T: std::fmt::Debug>(label: &'static str, want: T, got: &Ans) -> Verdict {
    let w = clip(format!("{:?}", want), 700);
    let g = clip(format!("{:?}", got), 700);
    Err((label, format!("expected {}, got {}", w, g)))
}
pub fn clip(mut s: String, n: usize) -> String {
    if s.len() > n {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push_str("...");
    }
    s
}

/// Where a basic map sits in a whole file.
#[derive(Clone, Copy, Debug, Default)]
pub struct Shift {
    pub line: i64,
    pub col: i64,
    /// start of the next section
    pub next: Option<(i64, i64)>,
}

impl Shift {
    fn gen(&self, gl: u32, gc: u32) -> (i64, i64) {
        (gl as i64 + self.line, gc as i64 + if gl == 0 { self.col } else { 0 })
    }
}

/// Spans of the mappings at a position that may be reported: (open ends as None, in whole-file columns).
fn span_ok(b: &MBasic, sh: &Shift, gl: u32, gc: u32, last: Option<i64>, requested: bool, single: bool) -> bool {
    let (k, nx) = match b.spans.get(&(gl, gc)) {
        Some(x) => *x,
        None => return true,
    };
    let add = if gl == 0 { sh.col } else { 0 };
    let mut ok: Vec<Option<i64>> = vec![nx.map(|c| c as i64 + add)];
    if k > 1 {
        ok.push(Some(gc as i64 + add));
    }
    if nx.is_none() {
        if let Some((l, c)) = sh.next {
            if l == gl as i64 + sh.line {
                if requested {
                    ok.retain(|x| x.is_some());
                }
                ok.push(Some(c));
            }
        }
    }
    if !requested && last.is_none() {
        return true;
    }
    let seen = if single && last == Some(-1) { None } else { last };
    if single && requested && last.is_none() {
        return false;
    }
    ok.contains(&seen)
}

fn bad_pos(line: i32, col: i32) -> bool {
    line < 1 || col < 0
}

/// What is known about a consumer's past.
#[derive(Clone, Copy, Debug, Default)]
pub struct Past {
    pub spans: bool,
    pub cut: bool,
    pub failed: bool,
}

enum Use<'a> {
    Maps(&'a [MMapping], bool),
    Refuse,
    Any,
}
fn usable(b: &MBasic) -> Use<'_> {
    match &b.maps {
        Maps::Valid(v) => Use::Maps(v, false),
        Maps::BadRef(v) => Use::Maps(v, true),
        Maps::Refused => Use::Refuse,
        Maps::Lenient => Use::Any,
    }
}
/// A call that needs a mappings text that is not one (or refers to what is not there).
fn refusal(a: &Ans) -> bool {
    match a {
        Ans::Panic(_) | Ans::Err(_) | Ans::Map(None) | Ans::Pos(None) => true,
        Ans::Raws(v) => v.is_empty(),
        Ans::Each { seen, cut } => seen.is_empty() && !cut,
        _ => false,
    }
}

fn too_big(p: (i64, i64)) -> bool {
    p.0 >= i32::MAX as i64 || p.1 > i32::MAX as i64
}

fn name_of(b: &MBasic, n: Option<u32>) -> Option<String> {
    n.and_then(|i| b.names.as_ref().and_then(|v| v.get(i as usize).cloned()))
}

/// original_position_for on a basic map, for a position relative to it.
pub fn fwd_candidates(v: &[MMapping], gl: u32, gc: u32, lub: bool) -> &[MMapping] {
    let a = v.partition_point(|m| m.gl < gl);
    let z = v.partition_point(|m| m.gl <= gl);
    let line = &v[a..z];
    if lub {
        let i = line.partition_point(|m| m.gc < gc);
        if i == line.len() {
            return &[];
        }
        let c = line[i].gc;
        let j = line.partition_point(|m| m.gc <= c);
        &line[i..j]
    } else {
        let j = line.partition_point(|m| m.gc <= gc);
        if j == 0 {
            return &[];
        }
        let c = line[j - 1].gc;
        let i = line.partition_point(|m| m.gc < c);
        &line[i..j]
    }
}

pub fn check_fwd(
    b: &MBasic,
    sh: &Shift,
    rel: (i64, i64),
    lub: bool,
    past: Past,
    label: &'static str,
    ans: &Ans,
) -> Verdict {
    let (v, lax) = match usable(b) {
        Use::Any => return Ok(()),
        Use::Refuse => return if refusal(ans) { Ok(()) } else { bad(label, "a refusal (the mappings are not valid)", ans) },
        Use::Maps(v, lax) => (v, lax),
    };
    if lax && refusal(ans) {
        return Ok(());
    }
    let c = fwd_candidates(v, rel.0 as u32, rel.1 as u32, lub);
    if c.iter().any(|m| too_big(sh.gen(m.gl, m.gc))) {
        return Ok(());
    }
    let want: Vec<Option<MapAns>> = if c.is_empty() {
        vec![None]
    } else {
        c.iter()
            .map(|m| {
                let g = sh.gen(m.gl, m.gc);
                m.orig.as_ref().map(|o| MapAns {
                    gen: (g.0 as i32 + 1, g.1 as i32),
                    orig: Some((o.1 as i32 + 1, o.2 as i32)),
                    src: b.sources.get(o.0 as usize).cloned(),
                    name: name_of(b, o.3),
                    last: None,
                })
            })
            .collect()
    };
    match ans {
        Ans::Map(got) => {
            let mut bare = got.clone();
            if let Some(x) = &mut bare {
                x.last = None;
            }
            if !want.contains(&bare) {
                return bad(label, want, ans);
            }
            if let Some(x) = got {
                let m = &c[0];
                if !span_ok(b, sh, m.gl, m.gc, x.last.map(|l| l as i64), past.spans, false) {
                    return bad("C09", format!("the span of {:?} in {:?} (requested: {})", b.spans.get(&(m.gl, m.gc)), sh, past.spans), ans);
                }
            }
            Ok(())
        }
        _ => bad(label, want, ans),
    }
}

fn by_source(v: &[MMapping], s: u32) -> Vec<&MMapping> {
    let mut o: Vec<&MMapping> = v.iter().filter(|m| m.orig.as_ref().map_or(false, |o| o.0 == s)).collect();
    o.sort_by_key(|m| {
        let q = m.orig.as_ref().unwrap();
        (q.1, q.2, m.gl, m.gc)
    });
    o
}

/// Mappings closest to an original position.
fn rev_candidates<'a>(v: &'a [MMapping], s: u32, l: u32, c: u32, lub: bool) -> Vec<&'a MMapping> {
    let o = by_source(v, s);
    let key = |m: &MMapping| {
        let q = m.orig.as_ref().unwrap();
        (q.1, q.2)
    };
    let best = if lub { o.iter().map(|m| key(m)).find(|k| *k >= (l, c)) } else { o.iter().map(|m| key(m)).filter(|k| *k <= (l, c)).last() };
    match best {
        None => vec![],
        Some(k) => o.into_iter().filter(|m| key(m) == k).collect(),
    }
}

pub fn check_rev(b: &MBasic, src: &str, line: i32, col: i32, lub: bool, past: Past, ans: &Ans) -> Verdict {
    let label = "C06";
    let s = b.find(src);
    if bad_pos(line, col) {
        return match (ans, s) {
            (Ans::Panic(_), _) | (Ans::Map(None), None) => Ok(()),
            _ => bad(label, "a refusal of the position", ans),
        };
    }
    let s = match s {
        None => return if *ans == Ans::Map(None) { Ok(()) } else { bad(label, "nothing (unknown source)", ans) },
        Some(s) => s as u32,
    };
    let (v, lax) = match usable(b) {
        Use::Any => return Ok(()),
        Use::Refuse => return if refusal(ans) { Ok(()) } else { bad(label, "a refusal (the mappings are not valid)", ans) },
        Use::Maps(v, lax) => (v, lax),
    };
    if lax && refusal(ans) {
        return Ok(());
    }
    let c = rev_candidates(v, s, line as u32 - 1, col as u32, lub);
    let want: Vec<Option<MapAns>> = if c.is_empty() {
        vec![None]
    } else {
        c.iter()
            .map(|m| {
                let o = m.orig.as_ref().unwrap();
                Some(MapAns {
                    gen: (m.gl as i32 + 1, m.gc as i32),
                    orig: Some((o.1 as i32 + 1, o.2 as i32)),
                    src: b.sources.get(o.0 as usize).cloned(),
                    name: name_of(b, o.3),
                    last: None,
                })
            })
            .collect()
    };
    match ans {
        Ans::Map(got) => {
            let mut bare = got.clone();
            if let Some(x) = &mut bare {
                x.last = None;
            }
            if !want.contains(&bare) {
                return bad(label, want, ans);
            }
            if let Some(x) = got {
                let (gl, gc) = (x.gen.0 as u32 - 1, x.gen.1 as u32);
                if !span_ok(b, &Shift::default(), gl, gc, x.last.map(|l| l as i64), past.spans, true) {
                    return bad("C09", format!("the span of {:?} (requested: {})", b.spans.get(&(gl, gc)), past.spans), ans);
                }
            }
            Ok(())
        }
        _ => bad(label, want, ans),
    }
}

fn all_wanted(v: &[MMapping], s: u32, line: u32, col: Option<u32>) -> Vec<MMapping> {
    let o = by_source(v, s);
    let q = |m: &MMapping| {
        let q = m.orig.as_ref().unwrap();
        (q.1, q.2)
    };
    match col {
        None => match o.iter().map(|m| q(m).0).find(|l| *l >= line) {
            None => vec![],
            Some(l) => o.into_iter().filter(|m| q(m).0 == l).cloned().collect(),
        },
        Some(c) => match o.iter().map(|m| q(m)).find(|k| k.0 == line && k.1 >= c) {
            None => vec![],
            Some(k) => o.into_iter().filter(|m| q(m) == k).cloned().collect(),
        },
    }
}

/// Compare reported mappings (as a multiset, or as a set) with the expected ones of one basic map at `sh`.
fn same_maps(b: &MBasic, sh: &Shift, want: &[MMapping], got: &[Raw]) -> bool {
    let mut w: Vec<MMapping> = want
        .iter()
        .map(|m| {
            let g = sh.gen(m.gl, m.gc);
            MMapping { gl: g.0 as u32, gc: g.1 as u32, orig: m.orig.clone() }
        })
        .collect();
    let mut g: Vec<MMapping> = got.iter().map(|r| r.m.clone()).collect();
    w.sort();
    g.sort();
    if b.set {
        w.dedup();
        g.dedup();
    }
    w == g
}
fn spans_fine(b: &MBasic, sh: &Shift, got: &[Raw], past: Past) -> Option<Raw> {
    for r in got {
        let gl = r.m.gl as i64 - sh.line;
        let gc = r.m.gc as i64 - if gl == 0 { sh.col } else { 0 };
        if !span_ok(b, sh, gl as u32, gc as u32, r.last.map(|l| l as i64), past.spans, false) {
            return Some(r.clone());
        }
    }
    None
}

#[allow(clippy::too_many_arguments)]
pub fn check_all(
    b: &MBasic,
    sh: &Shift,
    src: &str,
    line: i32,
    col: Option<i32>,
    past: Past,
    label: &'static str,
    ans: &Ans,
) -> Verdict {
    let s = b.find(src);
    if bad_pos(line, col.unwrap_or(0)) {
        return match (ans, s) {
            (Ans::Panic(_), _) => Ok(()),
            (Ans::Raws(v), None) if v.is_empty() => Ok(()),
            (Ans::Raws(v), _) if v.is_empty() && label == "C12" => Ok(()),
            _ => bad(label, "a refusal of the position", ans),
        };
    }
    let s = match s {
        None => {
            return match ans {
                Ans::Raws(v) if v.is_empty() => Ok(()),
                _ => bad(label, "nothing (unknown source)", ans),
            }
        }
        Some(s) => s as u32,
    };
    let (v, lax) = match usable(b) {
        Use::Any => return Ok(()),
        Use::Refuse => return if refusal(ans) { Ok(()) } else { bad(label, "a refusal (the mappings are not valid)", ans) },
        Use::Maps(v, lax) => (v, lax),
    };
    if lax && refusal(ans) {
        return Ok(());
    }
    let want = all_wanted(v, s, line as u32 - 1, col.map(|c| c as u32));
    if want.iter().any(|m| too_big(sh.gen(m.gl, m.gc))) {
        return Ok(());
    }
    match ans {
        Ans::Raws(got) => {
            if !same_maps(b, sh, &want, got) {
                return bad(label, (sh, &want), ans);
            }
            if let Some(r) = spans_fine(b, sh, got, past) {
                return Err(("C09", format!("wrong span in {:?}, shift {:?}, requested {}: {:?}", r, sh, past.spans, clip(format!("{:?}", want), 300))));
            }
            Ok(())
        }
        _ => bad(label, want, ans),
    }
}

fn gen_key(m: &MMapping) -> (u32, u32) {
    (m.gl, m.gc)
}
fn orig_key(m: &MMapping) -> (u32, u32, u32) {
    let o = m.orig.as_ref().unwrap();
    (o.0, o.1, o.2)
}

/// The mappings an iteration over sections (one, for a basic map) reports, in order.
pub fn check_each(
    parts: &[(&MBasic, Shift)],
    original: bool,
    panic_at: Option<u32>,
    past: Past,
    label: &'static str,
    ans: &Ans,
) -> Verdict {
    if parts.iter().any(|p| matches!(p.0.maps, Maps::Lenient)) {
        return Ok(());
    }
    let invalid = parts.iter().any(|p| matches!(p.0.maps, Maps::Refused | Maps::BadRef(_)));
    if invalid && refusal(ans) {
        return Ok(());
    }
    let (seen, cut) = match ans {
        Ans::Each { seen, cut } => (seen, *cut),
        _ => return bad(label, "an iteration", ans),
    };
    let stop = panic_at.map(|k| k as usize + 1).unwrap_or(usize::MAX);
    if cut && seen.len() != stop {
        return Err((label, format!("the callback panicked at call {} but saw {}", stop, seen.len())));
    }
    if !cut && seen.len() >= stop {
        return Err((label, "the callback's panic did not end the iteration".to_string()));
    }
    let mut fuel = 20_000u32;
    each_part(parts, original, stop, past, label, seen, cut, 0, &mut fuel)
}

/// Judge the sections from the first of `parts` on, which report `seen[pos..]`. Where one section ends and the next begins
/// is not always evident (a refused section may report nothing, a set-like one may repeat itself): any reading will do.
#[allow(clippy::too_many_arguments)]
fn each_part(
    parts: &[(&MBasic, Shift)],
    original: bool,
    stop: usize,
    past: Past,
    label: &'static str,
    seen: &[Raw],
    cut: bool,
    pos: usize,
    fuel: &mut u32,
) -> Verdict {
    if cut && pos == stop {
        return Ok(());
    }
    let Some((b, sh)) = parts.first() else {
        if pos != seen.len() {
            return Err((label, format!("visited too many: {:?}", &seen[pos..seen.len().min(pos + 3)])));
        }
        return Ok(());
    };
    if *fuel == 0 {
        return Ok(());
    }
    *fuel -= 1;
    let rest = |at: usize, fuel: &mut u32| each_part(&parts[1..], original, stop, past, label, seen, cut, at, fuel);
    let want: Vec<MMapping> = match &b.maps {
        Maps::Valid(v) | Maps::BadRef(v) => v.iter().filter(|m| !original || m.orig.is_some()).cloned().collect(),
        _ => vec![],
    };
    if want.iter().any(|m| too_big(sh.gen(m.gl, m.gc))) {
        return Ok(());
    }
    if matches!(b.maps, Maps::BadRef(_)) && rest(pos, fuel).is_ok() {
        return Ok(()); // this section's mappings are refused as a whole
    }
    let left = &seen[pos.min(seen.len())..];
    let whole: Vec<MMapping> = want
        .iter()
        .map(|m| {
            let g = sh.gen(m.gl, m.gc);
            MMapping { gl: g.0 as u32, gc: g.1 as u32, orig: m.orig.clone() }
        })
        .collect();
    let mut cnt: HashMap<&MMapping, i64> = HashMap::new();
    for m in &whole {
        *cnt.entry(m).or_insert(0) += 1;
    }
    if b.set {
        // the number of reports may exceed the number of distinct mappings
        cnt.values_mut().for_each(|c| *c = 1);
    }
    let mut total: i64 = cnt.values().sum();
    let mut taken = 0usize;
    let mut err = None;
    for (i, r) in left.iter().enumerate() {
        if total == 0 && !b.set {
            break;
        }
        match cnt.get_mut(&r.m) {
            Some(c) if *c > 0 => {
                *c -= 1;
                total -= 1;
            }
            Some(_) if b.set => {}
            _ => {
                err = Some(format!("visited {:?}, which the map does not have (or not that often); section at {:?}", r, sh));
                break;
            }
        }
        if i > 0 {
            let p = &left[i - 1].m;
            let fine = if original { orig_key(p) <= orig_key(&r.m) } else { gen_key(p) <= gen_key(&r.m) };
            if !fine {
                err = Some(format!("{:?} visited before {:?}", p, r.m));
                break;
            }
        }
        taken += 1;
        if total == 0 && b.set && parts.len() > 1 && spans_fine(b, sh, &left[..taken], past).is_none() {
            // the section may end here, or repeat some more
            if rest(pos + taken, fuel).is_ok() {
                return Ok(());
            }
        }
    }
    if total > 0 {
        if let Some(e) = err {
            return Err((label, e));
        }
        // cut short: everything before the last one visited must have been visited
        if !(cut && pos + taken == stop) {
            let miss: Vec<&MMapping> = cnt.iter().filter(|(_, c)| **c > 0).map(|(m, _)| *m).take(3).collect();
            return Err((label, format!("not visited: {:?}; section at {:?}", miss, sh)));
        }
        if let Some(l) = left[..taken].last() {
            for (m, c) in &cnt {
                if *c > 0 && (if original { orig_key(m) < orig_key(&l.m) } else { gen_key(m) < gen_key(&l.m) }) {
                    return Err((label, format!("{:?} not visited before {:?}", m, l.m)));
                }
            }
        }
    }
    if let Some(r) = spans_fine(b, sh, &left[..taken], past) {
        return Err(("C09", format!("wrong span in {:?}, shift {:?}, requested {}", r, sh, past.spans)));
    }
    rest(pos + taken, fuel)
}

pub fn check_content(b: &MBasic, src: &str, panic: Option<bool>, ans: &Ans) -> Verdict {
    let label = "C10";
    let may_panic = panic.unwrap_or(true);
    match (b.find(src), &b.contents) {
        (Some(_), None) => {
            if *ans == Ans::Str(None) {
                Ok(())
            } else {
                bad(label, "nothing (the map has no contents)", ans)
            }
        }
        (Some(i), Some(c)) => {
            let want = Ans::Str(c.get(i).cloned().flatten());
            if *ans == want {
                Ok(())
            } else {
                bad(label, want, ans)
            }
        }
        (None, c) => match ans {
            Ans::Panic(_) if may_panic => Ok(()),
            Ans::Str(None) if !may_panic || c.is_none() => Ok(()),
            _ => bad(label, "an unknown source", ans),
        },
    }
}

/// None: not decided.
pub fn has_all(b: &MBasic) -> Option<bool> {
    let n = b.sources.len();
    match &b.contents {
        None => {
            if n == 0 {
                None
            } else {
                Some(false)
            }
        }
        Some(c) => {
            if c.iter().skip(n).any(|x| x.is_none()) {
                return None;
            }
            let each = (0..n).all(|i| c.get(i).map_or(false, |x| x.is_some()));
            let distinct = (0..n).all(|i| {
                let first = b.sources.iter().position(|s| *s == b.sources[i]).unwrap();
                c.get(first).map_or(false, |x| x.is_some())
            });
            if n == 0 || each != distinct {
                None
            } else {
                Some(each)
            }
        }
    }
}

pub fn check_has(b: &MBasic, ans: &Ans) -> Verdict {
    match (has_all(b), ans) {
        (None, Ans::Bool(_)) => Ok(()),
        (Some(w), Ans::Bool(g)) if w == *g => Ok(()),
        (w, _) => bad("C10", w, ans),
    }
}

// indexed ------------------------------------------------------------------------------------------------------------

impl MIndexed {
    pub fn shift(&self, i: usize) -> Shift {
        Shift {
            line: self.sections[i].line,
            col: self.sections[i].col,
            next: self.sections.get(i + 1).map(|s| (s.line, s.col)),
        }
    }
    pub fn must_fail(&self) -> bool {
        !self.version_ok || self.has_url || !self.ordered
    }
    pub fn check_fwd(&self, line: i32, col: i32, lub: bool, past: Past, ans: &Ans) -> Verdict {
        let label = "C11";
        if bad_pos(line, col) {
            return match ans {
                Ans::Panic(_) | Ans::Map(None) => Ok(()),
                _ => bad(label, "nothing or a refusal", ans),
            };
        }
        let p = (line as i64 - 1, col as i64);
        let idx = self.sections.iter().rposition(|s| (s.line, s.col) <= p);
        let idx = match idx {
            None => return if *ans == Ans::Map(None) { Ok(()) } else { bad(label, "nothing (before the first section)", ans) },
            Some(i) => i,
        };
        let at = (self.sections[idx].line, self.sections[idx].col);
        let mut first = Ok(());
        let mut k = idx;
        loop {
            let s = &self.sections[k];
            if (s.line, s.col) != at {
                break;
            }
            let rel = (p.0 - s.line, p.1 - if p.0 == s.line { s.col } else { 0 });
            let r = check_fwd(&s.map, &self.shift(k), rel, lub, past, label, ans);
            if r.is_ok() {
                return r;
            }
            if k == idx {
                first = r;
            }
            if k == 0 {
                break;
            }
            k -= 1;
        }
        first
    }
    fn lister(&self, src: &str) -> Option<usize> {
        self.sections.iter().position(|s| s.map.find(src).is_some())
    }
    pub fn check_rev(&self, src: &str, line: i32, col: i32, lub: bool, ans: &Ans) -> Verdict {
        let label = "C12";
        if bad_pos(line, col) {
            return match ans {
                Ans::Panic(_) | Ans::Pos(None) => Ok(()),
                _ => bad(label, "nothing or a refusal", ans),
            };
        }
        let k = match self.lister(src) {
            None => return if *ans == Ans::Pos(None) { Ok(()) } else { bad(label, "nothing (no section lists the source)", ans) },
            Some(k) => k,
        };
        let b = &self.sections[k].map;
        let s = b.find(src).unwrap() as u32;
        let (v, lax) = match usable(b) {
            Use::Any => return Ok(()),
            Use::Refuse => return if refusal(ans) { Ok(()) } else { bad(label, "a refusal (the mappings are not valid)", ans) },
            Use::Maps(v, lax) => (v, lax),
        };
        if lax && refusal(ans) {
            return Ok(());
        }
        let sh = self.shift(k);
        let c = rev_candidates(v, s, line as u32 - 1, col as u32, lub);
        if c.iter().any(|m| too_big(sh.gen(m.gl, m.gc))) {
            return Ok(());
        }
        let want: Vec<Option<(i32, i32)>> = if c.is_empty() {
            vec![None]
        } else {
            c.iter()
                .map(|m| {
                    let g = sh.gen(m.gl, m.gc);
                    Some((g.0 as i32 + 1, g.1 as i32))
                })
                .collect()
        };
        match ans {
            Ans::Pos(g) if want.contains(g) => Ok(()),
            _ => bad(label, (k, &sh, want), ans),
        }
    }
    pub fn check_all(&self, src: &str, line: i32, col: Option<i32>, past: Past, ans: &Ans) -> Verdict {
        match self.lister(src) {
            None => match ans {
                Ans::Raws(v) if v.is_empty() => Ok(()),
                Ans::Panic(_) if bad_pos(line, col.unwrap_or(0)) => Ok(()),
                _ => bad("C12", "nothing (no section lists the source)", ans),
            },
            Some(k) => check_all(&self.sections[k].map, &self.shift(k), src, line, col, past, "C12", ans),
        }
    }
    pub fn check_content(&self, src: &str, panic: Option<bool>, ans: &Ans) -> Verdict {
        let label = "C13";
        for s in &self.sections {
            if let (Some(i), Some(c)) = (s.map.find(src), &s.map.contents) {
                if let Some(Some(text)) = c.get(i) {
                    let want = Ans::Str(Some(text.clone()));
                    return if *ans == want { Ok(()) } else { bad(label, want, ans) };
                }
            }
        }
        match ans {
            Ans::Str(None) if panic == Some(false) || self.lister(src).is_some() => Ok(()),
            Ans::Panic(_) if panic != Some(false) => Ok(()),
            _ => bad(label, "no section holds this content", ans),
        }
    }
    pub fn check_has(&self, ans: &Ans) -> Verdict {
        let each: Vec<Option<bool>> = self.sections.iter().map(|s| has_all(&s.map)).collect();
        let want = if each.contains(&Some(false)) {
            Some(false)
        } else if each.contains(&None) {
            None
        } else {
            Some(true)
        };
        match (want, ans) {
            (None, Ans::Bool(_)) => Ok(()),
            (Some(w), Ans::Bool(g)) if w == *g => Ok(()),
            _ => bad("C13", want, ans),
        }
    }
    pub fn sources(&self) -> Vec<String> {
        self.sections.iter().flat_map(|s| s.map.sources.iter().cloned()).collect()
    }
    pub fn parts(&self) -> Vec<(&MBasic, Shift)> {
        (0..self.sections.len()).map(|i| (&self.sections[i].map, self.shift(i))).collect()
    }
}

// generator ------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct MGen {
    pub file: Option<String>,
    pub root: Option<String>,
    pub adds: Vec<GMap>,
    pub sources: Vec<String>,
    pub names: Vec<String>,
    pub contents: BTreeMap<String, String>,
}

impl MGen {
    pub fn new(file: Option<String>, root: Option<String>) -> MGen {
        MGen { file, root, adds: vec![], sources: vec![], names: vec![], contents: BTreeMap::new() }
    }
    pub fn add(&mut self, m: &GMap) {
        if let Some((s, _, _)) = &m.src {
            if !self.sources.contains(s) {
                self.sources.push(s.clone());
            }
        }
        if let Some(n) = &m.name {
            if !self.names.contains(n) {
                self.names.push(n.clone());
            }
        }
        self.adds.push(m.clone());
    }
    fn key(&self, s: &str) -> String {
        match &self.root {
            None => s.to_string(),
            Some(r) => url::below_root(r, s),
        }
    }
    pub fn content(&mut self, s: &str, c: &Option<String>) {
        let k = self.key(s);
        match c {
            Some(c) => {
                self.contents.insert(k, c.clone());
            }
            None => {
                self.contents.remove(&k);
            }
        }
    }
    fn content_table(&self) -> Option<Vec<Option<String>>> {
        if self.contents.is_empty() {
            return None;
        }
        Some(self.sources.iter().map(|s| self.contents.get(&self.key(s)).cloned()).collect())
    }
    fn mappings(&self) -> Vec<MMapping> {
        self.adds
            .iter()
            .map(|m| MMapping {
                gl: m.gl as u32 - 1,
                gc: m.gc as u32,
                orig: m.src.as_ref().map(|(s, l, c)| {
                    let si = self.sources.iter().position(|x| x == s).unwrap() as u32;
                    let ni = m.name.as_ref().map(|n| self.names.iter().position(|x| x == n).unwrap() as u32);
                    (si, *l as u32 - 1, *c as u32, ni)
                }),
            })
            .collect()
    }
    /// What a consumer of this generator's text must know.
    pub fn consumer(&self, url: Option<&str>) -> MBasic {
        MBasic::make(
            self.sources.clone(),
            Some(self.names.clone()),
            self.root.clone(),
            url,
            self.content_table(),
            Maps::Valid(self.mappings()),
            true,
        )
    }
    /// Check the text this generator wrote.
    pub fn check_text(&self, text: &str) -> Verdict {
        let short = clip(text.to_string(), 500);
        let v: serde_json::Value = match serde_json::from_str(text) {
            Ok(v) => v,
            Err(e) => return Err(("C14", format!("the text is not JSON ({}): {}", e, short))),
        };
        let get = |k: &str| v.get(k).filter(|x| !x.is_null()).cloned();
        let strs = |k: &str| get(k).and_then(|x| serde_json::from_value::<Vec<String>>(x).ok());
        if get("version") != Some(serde_json::json!(3)) {
            return Err(("C15", format!("version is not 3: {}", short)));
        }
        if get("file").and_then(|x| x.as_str().map(|s| s.to_string())) != self.file
            || get("sourceRoot").and_then(|x| x.as_str().map(|s| s.to_string())) != self.root
        {
            return Err(("C15", format!("file or sourceRoot differ from {:?} and {:?}: {}", self.file, self.root, short)));
        }
        if strs("sources").as_ref() != Some(&self.sources) {
            return Err(("C15", format!("sources should be {:?}: {}", self.sources, short)));
        }
        if strs("names").as_ref() != Some(&self.names) {
            return Err(("C15", format!("names should be {:?}: {}", self.names, short)));
        }
        if get("sections").is_some() {
            return Err(("C15", format!("a basic map has no sections: {}", short)));
        }
        let got: Option<Vec<Option<String>>> = match get("sourcesContent") {
            None => None,
            Some(x) => match serde_json::from_value(x) {
                Ok(c) => Some(c),
                Err(_) => return Err(("C15", format!("sourcesContent is not a list of texts: {}", short))),
            },
        };
        let want = self.content_table();
        let same = match (&want, &got) {
            (None, Some(g)) => g.len() == self.sources.len() && g.iter().all(|x| x.is_none()),
            (Some(w), None) => w.iter().all(|x| x.is_none()),
            (w, g) => w == g,
        };
        if !same {
            return Err(("C15", format!("sourcesContent should be {:?} for {:?}: {}", want, self.sources, short)));
        }
        let m = match get("mappings").and_then(|x| x.as_str().map(|s| s.to_string())) {
            Some(m) => m,
            None => return Err(("C14", format!("no mappings: {}", short))),
        };
        let got = match decode(&m) {
            Ok(v) => v,
            Err(e) => return Err(("C14", format!("the mappings do not decode ({:?}): {}", e, short))),
        };
        for w in got.windows(2) {
            if gen_key(&w[0]) > gen_key(&w[1]) {
                return Err(("C14", format!("{:?} comes before {:?}: {}", w[0], w[1], short)));
            }
            if w[0] == w[1] {
                return Err(("C14", format!("{:?} is written twice in a row: {}", w[0], short)));
            }
        }
        let mut g = got;
        let mut w = self.mappings();
        g.sort();
        g.dedup();
        w.sort();
        w.dedup();
        if g != w {
            let miss: Vec<_> = w.iter().filter(|m| g.binary_search(m).is_err()).take(3).collect();
            let extra: Vec<_> = g.iter().filter(|m| w.binary_search(m).is_err()).take(3).collect();
            return Err(("C14", format!("missing {:?}, not added {:?}: {}", miss, extra, short)));
        }
        Ok(())
    }
}

// sets and lists -------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct MSet {
    pub list: Vec<String>,
}
impl MSet {
    pub fn add(&mut self, s: &str, dup: bool) {
        if dup || !self.list.iter().any(|x| x == s) {
            self.list.push(s.to_string());
        }
    }
    pub fn distinct(&self) -> usize {
        let mut v: Vec<&String> = self.list.iter().collect();
        v.sort();
        v.dedup();
        v.len()
    }
}
