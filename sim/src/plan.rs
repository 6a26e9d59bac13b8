//! A run is a plan: documents, clients with explicit operations, and the simulator's settings. Plans are generated from
//! one seed and can be written down, edited (minimised) and replayed.
use crate::model::{self, MBasic, Maps, Parsed};
use crate::prng::Rng;
use crate::rt::{Policy, SimCfg};
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// Where an object lives: shared by all clients (behind a lock), or owned by one client.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum T {
    S(usize),
    L(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum How {
    Create,
    New,
    FromJson,
    Consume,
}

/// A mapping as given to a generator: 1-based lines, 0-based columns.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct GMap {
    pub gl: i32,
    pub gc: i32,
    pub src: Option<(String, i32, i32)>,
    pub name: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Build { t: T, doc: usize, url: Option<String>, how: How, indexed: bool },
    Fwd { t: T, line: i32, col: i32, lub: Option<bool> },
    Rev { t: T, src: String, line: i32, col: i32, lub: Option<bool> },
    All { t: T, src: String, line: i32, col: Option<i32> },
    Each { t: T, original: bool, panic_at: Option<u32> },
    Spans { t: T },
    Content { t: T, src: String, panic: Option<bool> },
    HasAll { t: T },
    Sources { t: T },
    GenNew { t: T, file: Option<String>, root: Option<String> },
    GenAdd { t: T, m: GMap },
    GenContent { t: T, src: String, content: Option<String> },
    GenText { t: T, store: Option<usize> },
    GenBuild { t: T, from: T, url: Option<String> },
    StoreBuild { t: T, store: usize, url: Option<String>, how: How },
    StoreIndexed { t: T, parts: Vec<(usize, i64, i64)>, url: Option<String> },
    SetNew { t: T, init: Vec<String>, dup: bool },
    SetAdd { t: T, s: String, dup: bool },
    SetHas { t: T, s: String },
    SetIndex { t: T, s: String },
    SetAt { t: T, i: i32 },
    SetVec { t: T },
    SetSize { t: T },
    ListNew { t: T },
    ListAdd { t: T, m: GMap },
    ListEach { t: T, panic_at: Option<u32> },
    ListArray { t: T },
    Util { f: u8, a: String, b: String, c: Option<String> },
    Drop { t: T },
    /// iterate, and from within the callback, at its `at`-th call, make another call on another object of the client's own
    Nest { t: T, original: bool, panic_at: Option<u32>, at: u32, with: usize, inner: Box<Op> },
    /// exchange the object with one of the client's own: each then lives where the other did
    Swap { t: T, with: usize },
}

impl Op {
    pub fn target(&self) -> Option<T> {
        use Op::*;
        Some(match self {
            Build { t, .. } | Fwd { t, .. } | Rev { t, .. } | All { t, .. } | Each { t, .. } | Spans { t } | Content { t, .. }
            | HasAll { t } | Sources { t } | GenNew { t, .. } | GenAdd { t, .. } | GenContent { t, .. } | GenText { t, .. }
            | GenBuild { t, .. } | StoreBuild { t, .. } | StoreIndexed { t, .. } | SetNew { t, .. } | SetAdd { t, .. }
            | SetHas { t, .. } | SetIndex { t, .. } | SetAt { t, .. } | SetVec { t } | SetSize { t } | ListNew { t }
            | ListAdd { t, .. } | ListEach { t, .. } | ListArray { t } | Drop { t } | Swap { t, .. } | Nest { t, .. } => *t,
            Util { .. } => return None,
        })
    }
    pub fn set_target(&mut self, x: T) {
        use Op::*;
        match self {
            Fwd { t, .. } | Rev { t, .. } | All { t, .. } | Each { t, .. } | Spans { t } | Content { t, .. } | HasAll { t } | Sources { t } => *t = x,
            _ => {}
        }
    }
    pub fn kind(&self) -> &'static str {
        use Op::*;
        match self {
            Build { .. } => "build",
            Fwd { .. } => "original_position_for",
            Rev { .. } => "generated_position_for",
            All { .. } => "all_generated_position_for",
            Each { panic_at: None, .. } => "each_mapping",
            Each { .. } => "each_mapping(interrupted)",
            Spans { .. } => "compute_column_spans",
            Content { .. } => "source_content_for",
            HasAll { .. } => "has_contents_of_all_sources",
            Sources { .. } => "get_sources",
            GenNew { .. } => "generator new",
            GenAdd { .. } => "add_mapping",
            GenContent { .. } => "set_source_content",
            GenText { .. } => "as_string",
            GenBuild { .. } => "from_source_map",
            StoreBuild { .. } => "build from written text",
            StoreIndexed { .. } => "build indexed from written texts",
            SetNew { .. } | SetAdd { .. } | SetHas { .. } | SetIndex { .. } | SetAt { .. } | SetVec { .. } | SetSize { .. } => {
                "array set"
            }
            ListNew { .. } | ListAdd { .. } | ListEach { .. } | ListArray { .. } => "mapping list",
            Util { .. } => "url helper",
            Drop { .. } => "drop",
            Swap { .. } => "swap",
            Nest { .. } => "each_mapping(with a call inside)",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub sim: SimCfg,
    pub docs: Vec<Doc>,
    pub shared: usize,
    pub stores: usize,
    /// run by the first thread before the clients start
    pub setup: Vec<Op>,
    pub clients: Vec<Vec<Op>>,
}

macro_rules! long {
    ($end:literal) => {
        concat!(
            "workspace/node_modules/.pnpm/some-rather-long-package-name@10.20.30_peer-dependency@1.2.3/node_modules/",
            "some-rather-long-package-name/dist/esm/internal/implementation/of/things/that/nobody/should/import/directly/",
            "but/everybody/does/anyway/because/the/public/interface/lacks/them/index.generated.module.", $end
        )
    };
}
pub const LONG_A: &str = long!("a.js");
pub const LONG_B: &str = long!("b.js");

pub const SOURCES: &[&str] = &[
    "a.js", "b.js", "lib/c.js", "./d.js", "../e.js", "/abs/f.js", "http://h.io/g.js", "webpack:///src/h.js", "x", "\u{fc}ber.js",
    "sp ace.js", "a.js?v=1", "src/a.js", "src/lib/c.js", "//cdn.io/k.js", "/a.js", "b.js#frag", "lib/../b.js", "/root/a.js",
    "packages/application/src/components/header/index/a.js", "packages/application/src/components/header/index/b.js", LONG_A, LONG_B,
    "dist/a.js", "http://r.io/base/a.js", "a", "lib/deep/er/z.ts", "A.js", "p0/p1.js", "a.js/", "../../up/y.js",
    "https://h.io/g.js", "http://h.io:8443/g.js", "http://me:pw@h.io/g.js", "http://you:pw@r.io/base/a.js", "https://r.io/base/a.js",
    "http://r.io:81/base/a.js", "file:///abs/f.js", "..", "lib/", "a%20b.js",
];
pub const ROOTS: &[Option<&str>] = &[
    None, None, None, None, Some(""), Some("src"), Some("src/"), Some("/root"), Some("/root/"), Some("http://r.io/base"),
    Some("http://r.io/base/"), Some("webpack:///"), Some("../up"), Some("."), Some("./"), Some("//sr.io/p"), Some("s"), Some("/"),
    Some("https://r.io/base"), Some("http://r.io:81/base/"), Some("http://you:pw@r.io/base"), Some("file:///abs"),
];
pub const URLS: &[Option<&str>] = &[
    None, None, None, None, Some(""), Some("m.map"), Some("dist/m.map"), Some("/maps/m.map"), Some("http://u.io/dist/m.map"),
    Some("http://u.io/dist/m.map?x=1#f"), Some("../m.map"), Some("//c.io/q/m.map"), Some("http://r.io/base/o/m.map"),
    Some("dist/deep/m.map"), Some("m"), Some("http://u.io/m.map"), Some("dist/"),
    Some("https://u.io:8443/dist/m.map"), Some("http://me:pw@u.io/m.map"), Some("file:///abs/m.map"),
];
pub const NAMES: &[&str] = &["foo", "bar", "baz", "n", "\u{4e2d}", "x y", "constructor", "__proto__", "$", "a", "", "toString", "foo2", LONG_A, LONG_B];

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub inv: u64, // chance of invalid arguments, per mille
    pub long: bool, // many cheap operations
}

fn own(o: Option<&str>) -> Option<String> {
    o.map(|s| s.to_string())
}

impl<'a> G<'a> {
    pub fn col(&mut self) -> i64 {
        match self.r.below(20) {
            0 => 0,
            1..=12 => self.r.range(0, 12),
            13..=16 => self.r.range(0, 200),
            17 if self.r.chance(1, 2) => self.r.range(0, 100_000),
            17 => {
                // around a power of two, or that many times a smaller one and something small
                let k = 7 + self.r.below(23);
                let m = if self.r.chance(1, 2) { 1 } else { 1 + self.r.range(0, (1 << (30 - k)) - 1).min(300) };
                (m << k) + self.r.range(-3, 12)
            }
            18 => self.r.range(1 << 29, (1 << 31) - 2),
            _ => *self.r.pick(&[15, 16, 31, 32, 511, 512, 1023, 1024, 32767, 32768, 65535, 65536, (1 << 30) - 1, 1 << 30]),
        }
    }
    pub fn source(&mut self) -> String {
        if self.r.chance(if self.long { 4 } else { 1 }, 12) {
            return format!("f{}.js", self.r.below(if self.long { 500 } else { 40 }));
        }
        self.r.pick(SOURCES).to_string()
    }
    pub fn root(&mut self) -> Option<String> {
        own(*self.r.pick(ROOTS))
    }
    pub fn url(&mut self) -> Option<String> {
        own(*self.r.pick(URLS))
    }
    pub fn basic(&mut self, size: u32) -> Basic {
        let r = &mut *self.r;
        let many = size >= 2 && r.chance(1, 6) || self.long && r.chance(1, 2);
        let ns = match r.below(12) {
            0 => 0,
            1..=4 => 1,
            5..=9 => 1 + r.us(4),
            _ => 1 + r.us(10),
        } + if many { 60 + r.us(300) } else { 0 };
        let mut sources: Vec<String> = vec![];
        for i in 0..ns {
            let s = if many && self.r.chance(9, 10) {
                format!("m/f{}.js", i)
            } else if self.r.chance(1, 14) && !sources.is_empty() {
                self.r.pick(&sources).clone()
            } else {
                self.source()
            };
            sources.push(s);
        }
        let r = &mut *self.r;
        let nn = match r.below(6) {
            0 => 0,
            5 if many => 150,
            _ => 1 + r.us(6),
        };
        let mut names: Vec<String> = vec![];
        for i in 0..nn {
            names.push(if i < 8 { r.pick(NAMES).to_string() } else { format!("n{}", i) });
        }
        let names = if nn == 0 && r.chance(1, 3) { None } else { Some(names) };
        let contents = match r.below(7) {
            0 | 1 => None,
            k => {
                let mut c: Vec<Option<String>> = (0..ns)
                    .map(|i| match k {
                        2 | 3 => Some(format!("content {} of {}", i, ns)),
                        4 if r.chance(1, 2) => None,
                        _ if r.chance(1, 4) => None,
                        _ if r.chance(1, 8) => Some(String::new()),
                        _ if r.chance(1, 60) => Some("0123456789abcdef".repeat(300 + r.us(4000)) + &format!("{}", i)),
                        _ => Some(format!("text{}\n\u{1F600}", r.below(50))),
                    })
                    .collect();
                if k == 5 && !c.is_empty() && r.chance(1, 2) {
                    let n = r.us(c.len());
                    c.truncate(n);
                }
                if k == 6 && r.chance(1, 3) {
                    c.push(Some("extra".into()));
                }
                Some(c)
            }
        };
        // mappings
        let nseg = match size {
            0 => r.us(8),
            1 => match r.below(10) {
                0 => 0,
                1..=6 => 1 + r.us(12),
                7 | 8 => 1 + r.us(60),
                _ => 1 + r.us(300),
            },
            _ => 50 + r.us(2500),
        };
        let nlines = match r.below(5) {
            0 => 1,
            1 | 2 => 1 + r.below(4),
            3 => 1 + r.below(12),
            _ => 1 + r.below(60),
        };
        // a few lines far apart instead
        let sparse = r.chance(1, 25);
        let far = sparse && size == 0 && r.chance(1, 4);
        let origlines = match r.below(4) {
            0 => 2,
            1 => 6,
            2 => 40,
            _ => 2000,
        };
        let sortcols = r.chance(3, 4);
        let sless = r.below(3) * 120;
        let dense = r.chance(1, 2);
        let dupseg = if r.chance(1, 3) { 100 } else { 20 };
        let hasname = r.below(5) * 200;
        let mut segs: Vec<Seg> = vec![];
        for _ in 0..nseg {
            if !segs.is_empty() && self.r.chance(dupseg, 1000) {
                let mut s = self.r.pick(&segs).clone();
                match self.r.below(4) {
                    0 => {}
                    1 => s.gc = self.col(),
                    2 => {
                        if let Some(o) = &mut s.orig {
                            o.2 = self.r.range(0, 9);
                        }
                    }
                    _ => s.gl = self.r.below(nlines) as u32,
                }
                segs.push(s);
                continue;
            }
            let gl = if sparse {
                let most = if far { 14 } else { 11 };
                [0, 1, 127, 128, 255, 256, 257, 300, 511, 512, 1024, 65535, 65536, 65537][self.r.us(most)]
            } else {
                self.r.below(nlines) as u32
            };
            let gc = if dense { self.r.range(0, 30) } else { self.col() };
            let orig = if ns == 0 || self.r.chance(sless, 1000) {
                None
            } else {
                let src = if self.r.chance(1, 2) { self.r.us(ns.min(3)) } else { self.r.us(ns) };
                let ol = if self.r.chance(1, 60) { self.col() } else { self.r.range(0, origlines) };
                let oc = if dense { self.r.range(0, 12) } else { self.col() };
                Some((src as u32, ol, oc))
            };
            let name = match (&orig, &names) {
                (Some(_), Some(n)) if !n.is_empty() && self.r.chance(hasname, 1000) => Some(self.r.us(n.len()) as u32),
                _ => None,
            };
            segs.push(Seg { gl, gc, orig, name });
        }
        if sortcols {
            segs.sort_by_key(|s| (s.gl, s.gc));
        }
        Basic {
            version: 3,
            file: if self.r.chance(1, 2) { Some("out.js".into()) } else { None },
            sources,
            names,
            root: self.root(),
            contents,
            segs,
            raw: None,
            no_sources: false,
            no_mappings: false,
        }
    }
    pub fn sections(&mut self, size: u32) -> Body {
        let n = match self.r.below(16) {
            0 => 0,
            1 | 2 => 1,
            3..=6 => 2,
            7..=11 => 2 + self.r.us(5),
            12..=14 => 4 + self.r.us(20),
            _ if size >= 1 => 20 + self.r.us(if size >= 2 { 280 } else { 44 }),
            _ => 3,
        };
        let mut v: Vec<Section> = vec![];
        let (mut line, mut col) = (0i64, 0i64);
        if self.r.chance(1, 3) {
            line = self.r.range(0, 5);
            col = self.r.range(0, 9);
        }
        let sameline = self.r.below(3) * 30;
        let uniq = self.r.chance(1, 2);
        for i in 0..n {
            if i > 0 {
                match self.r.below(100) {
                    x if x < 4 => {}
                    x if x < 4 + sameline => col += self.r.range(1, 40),
                    98 if self.r.chance(1, 4) => {
                        line += *self.r.pick(&[256, 1000, 32768, 65536, 1 << 20, 1 << 27]);
                        col = self.col().min(1 << 27);
                    }
                    _ => {
                        line += if self.r.chance(1, 10) { self.r.range(1, 400) } else { self.r.range(1, 6) };
                        col = if self.r.chance(1, 2) { 0 } else { self.r.range(0, 50) };
                    }
                }
            }
            let long = std::mem::replace(&mut self.long, false);
            let mut map = self.basic(if n > 12 { 0 } else { size.min(1) });
            self.long = long;
            if uniq {
                // keep the sources of most sections apart
                for (k, s) in map.sources.iter_mut().enumerate() {
                    if self.r.chance(3, 4) {
                        *s = format!("s{}/f{}.js", i, k);
                    }
                }
            }
            v.push(Section { line, col, url: None, map });
        }
        Body::Indexed { version: 3, sections: v }
    }
    /// Break an indexed map in one of the ways that must be refused.
    pub fn spoil(&mut self, b: &mut Body) {
        if let Body::Indexed { version, sections } = b {
            let n = sections.len();
            match self.r.below(12) {
                0 => *version = *self.r.pick(&[2, 4, 0, -3, 33]),
                1 if n > 0 => {
                    let i = self.r.us(n);
                    sections[i].url = Some("http://x.io/other.map".into());
                }
                2 | 3 if n > 1 => {
                    let i = 1 + self.r.us(n - 1);
                    sections[i].line = sections[i - 1].line - 1 - self.r.range(0, 2).min(sections[i - 1].line);
                    if sections[i].line < 0 {
                        sections[i].line = 0;
                    }
                }
                4 | 5 | 6 if n > 1 => {
                    // a column that goes back on the same line
                    let i = 1 + self.r.us(n - 1);
                    if sections[i - 1].col == 0 {
                        sections[i - 1].col = self.r.range(1, 9);
                    }
                    sections[i].line = sections[i - 1].line;
                    sections[i].col = sections[i - 1].col - 1;
                }
                7 if n > 1 => sections.reverse(),
                8 if n > 2 => {
                    // only the last two are out of order
                    sections.swap(n - 2, n - 1);
                }
                9 if n > 1 => sections.swap(0, 1),
                _ if n > 1 => {
                    let i = self.r.us(n);
                    let j = self.r.us(n);
                    sections.swap(i, j);
                }
                _ => *version = 1,
            }
        }
    }
    pub fn damage(&mut self, ndocs: usize) -> Damage {
        let at = self.r.next() >> 16;
        let len = if self.r.chance(1, 4) { 16 << self.r.below(6) } else { 1 + self.r.below(12) } as u32;
        match self.r.below(13) {
            0 | 1 => Damage::Cut { permille: self.r.below(1001) as u32, less: self.r.below(4) as u32 },
            2 => Damage::FlipBit { at, bit: self.r.below(7) as u8 },
            3 | 4 => Damage::SetByte { at, byte: *self.r.pick(b"ACgDzI9/+;,:\"{}[]05- tfne\\") },
            5 => Damage::Drop { at, len },
            6 => Damage::Dup { at, len },
            7 => Damage::Blank { at, len, byte: *self.r.pick(&[b' ', 0]) },
            9 => Damage::Grow {
                front: self.r.chance(1, 3),
                with: self.r.pick(&["\0", "\0\0\0\0\0\0\0\0", " ", "\n", "\u{feff}", ")]}'\n", ")]}", "", "null", ";", "}", "\u{1a}", "//", "0"]).to_string(),
            },
            10 => Damage::Key { at },
            11 => Damage::Value {
                at,
                with: self
                    .r
                    .pick(&["null", "[]", "\"\"", "0", "3", "-1", "{}", "true", "[null]", "\"3\"", "1.5", "\"AAAA\"", "2147483648", "[[]]", "", "[\"x\"]", "1e3"])
                    .to_string(),
            },
            8 => Damage::Mix { other: self.r.us(ndocs.max(1)), at },
            _ => Damage::Vlq {
                at,
                with: self
                    .r
                    .pick(&["A", "C", "D", "g", "w", ";", ",", "", "AAAA", "y", "0", "ggggggggB", "!", "/", "wB", "-", "gggggC", "+/////D"])
                    .to_string(),
            },
        }
    }
    pub fn doc(&mut self, indexed: bool, size: u32) -> Doc {
        let body = if indexed { self.sections(size) } else { Body::Basic(self.basic(size)) };
        let style = if self.r.chance(1, 4) { self.r.below(8) as u8 } else { 0 };
        Doc { body, damage: vec![], style }
    }
    /// A name to ask a map for.
    pub fn ask(&mut self, b: Option<&MBasic>) -> String {
        if self.r.chance(self.inv, 6000) {
            return self.r.pick(crate::url::HOPELESS).to_string();
        }
        let r = &mut *self.r;
        let b = match b {
            Some(b) if !b.raw_sources.is_empty() && r.chance(15, 16) => b,
            _ => return if r.chance(1, 3) { "missing.js".into() } else { self.source() },
        };
        let i = if r.chance(1, 2) { r.us(b.raw_sources.len().min(3)) } else { r.us(b.raw_sources.len()) };
        match r.below(10) {
            0..=3 => b.raw_sources[i].clone(),
            4..=7 => b.sources[i].clone(),
            _ if b.raw_sources[i].contains(':') || b.raw_sources[i].starts_with('/') => b.raw_sources[i].clone(),
            8 => format!("./{}", b.raw_sources[i]),
            _ => match &b.root {
                Some(root) if root.ends_with('/') => format!("{}{}", root, b.raw_sources[i]),
                Some(root) if !root.is_empty() => format!("{}/{}", root, b.raw_sources[i]),
                _ => self.source(),
            },
        }
    }
    fn jitter(&mut self, v: i64) -> i64 {
        let v = match self.r.below(10) {
            0..=4 => v,
            5 | 6 => v - 1,
            7 | 8 => v + 1,
            _ => v + self.r.range(-20, 20),
        };
        v.clamp(0, i32::MAX as i64)
    }
    pub fn bad_pos(&mut self) -> (i32, i32) {
        *self.r.pick(&[(0, 0), (-1, 0), (1, -1), (0, -1), (i32::MIN, 0), (3, i32::MIN), (-7, 5), (0, 5)])
    }
    /// A position to look up: near one of the mappings, `off` being the offset of the section they are in.
    pub fn gen_pos(&mut self, b: Option<&MBasic>, off: (i64, i64)) -> (i32, i32) {
        if self.r.chance(self.inv, 1000) {
            return self.bad_pos();
        }
        if self.r.chance(1, 40) {
            return *self.r.pick(&[(1, i32::MAX), (i32::MAX, 0), (i32::MAX, i32::MAX), (1, 0), (100_000, 3)]);
        }
        let mut p = (self.r.range(0, 6), self.r.range(0, 30));
        if let Some(b) = b {
            if let Maps::Valid(v) | Maps::BadRef(v) = &b.maps {
                if !v.is_empty() && self.r.chance(9, 10) {
                    let m = self.r.pick(v);
                    p = (m.gl as i64, m.gc as i64);
                }
            }
        }
        if p.0 == 0 {
            p.1 += off.1;
        }
        p.0 += off.0;
        if self.r.chance(1, 12) {
            p.0 = self.jitter(p.0);
        }
        if self.r.chance(1, 16) {
            // exactly at, just before or just after the offset itself
            p = (off.0, (off.1 + self.r.range(-1, 1)).max(0));
        }
        p.1 = self.jitter(p.1);
        ((p.0 + 1).min(i32::MAX as i64) as i32, p.1.min(i32::MAX as i64) as i32)
    }
    /// A source position to look up.
    pub fn orig_pos(&mut self, b: Option<&MBasic>) -> (String, i32, i32) {
        let mut name = self.ask(b);
        if self.r.chance(self.inv, 1000) {
            let p = self.bad_pos();
            return (name, p.0, p.1);
        }
        let mut p = (self.r.range(0, 6), self.r.range(0, 30));
        if let Some(b) = b {
            if let Maps::Valid(v) | Maps::BadRef(v) = &b.maps {
                for _ in 0..6 {
                    if v.is_empty() {
                        break;
                    }
                    let m = self.r.pick(v).clone();
                    if let Some((s, l, c, _)) = m.orig {
                        p = (l as i64, c as i64);
                        if (s as usize) < b.sources.len() && self.r.chance(4, 5) {
                            name = if self.r.chance(1, 2) { b.sources[s as usize].clone() } else { b.raw_sources[s as usize].clone() };
                        }
                        break;
                    }
                }
            }
        }
        if self.r.chance(1, 4) {
            p.0 = self.jitter(p.0);
        }
        p.1 = self.jitter(p.1);
        if self.r.chance(1, 40) {
            p.1 = i32::MAX as i64;
        }
        (name, (p.0 + 1).min(i32::MAX as i64) as i32, p.1 as i32)
    }
    pub fn bias(&mut self) -> Option<bool> {
        match self.r.below(5) {
            0 | 1 => None,
            2 => Some(false),
            _ => Some(true),
        }
    }
    /// One query on the object `t` built from what `p` describes. `w`: weights of
    /// fwd, rev, all, each, spans, content, has_all, sources.
    pub fn query(&mut self, t: T, p: &Parsed, w: &[u64; 8]) -> Op {
        let (b, off): (Option<&MBasic>, (i64, i64)) = match p {
            Parsed::Basic(b) => (Some(b), (0, 0)),
            Parsed::Indexed(x) if !x.sections.is_empty() => {
                let s = self.r.pick(&x.sections);
                (Some(&s.map), (s.line, s.col))
            }
            _ => (None, (0, 0)),
        };
        let total: u64 = w.iter().sum();
        let mut k = self.r.below(total);
        let mut i = 0;
        while k >= w[i] {
            k -= w[i];
            i += 1;
        }
        match i {
            0 => {
                let (line, col) = self.gen_pos(b, off);
                Op::Fwd { t, line, col, lub: self.bias() }
            }
            1 => {
                let (src, line, col) = self.orig_pos(b);
                Op::Rev { t, src, line, col, lub: self.bias() }
            }
            2 => {
                let (src, line, col) = self.orig_pos(b);
                let none = self.r.chance(1, 2);
                Op::All { t, src, line, col: if none && col >= 0 { None } else { Some(col) } }
            }
            3 => {
                let panic_at = if self.inv > 0 && self.r.chance(1, 3) {
                    Some(match self.r.below(3) {
                        0 => 0,
                        1 => self.r.below(4) as u32,
                        _ => self.r.below(30) as u32,
                    })
                } else {
                    None
                };
                Op::Each { t, original: self.r.chance(1, 2), panic_at }
            }
            4 => Op::Spans { t },
            5 => {
                let src = self.ask(b);
                let panic = *self.r.pick(&[None, Some(true), Some(false), Some(false)]);
                Op::Content { t, src, panic }
            }
            6 => Op::HasAll { t },
            _ => Op::Sources { t },
        }
    }
    pub fn gmap(&mut self, few: bool) -> GMap {
        let r = &mut *self.r;
        let gl = match r.below(8) {
            0 => 1,
            1..=5 => 1 + r.below(4) as i32,
            6 => 1 + r.below(30) as i32,
            _ if r.chance(1, 12) => *r.pick(&[128, 129, 256, 257, 258, 512, 1025, 4000, 10_000]),
            _ => 1 + r.below(400) as i32,
        };
        let gc = if few { self.r.range(0, 4) } else { self.col() } as i32;
        if self.r.chance(1, 6) {
            return GMap { gl, gc, src: None, name: None };
        }
        let k = if few { [0, 1, 2, 13][self.r.us(4)] } else { self.r.us(GEN_SOURCES.len()) };
        let src = if self.r.chance(if self.long { 20 } else { 1 }, 30) { format!("g{}.js", self.r.below(if self.long { 900 } else { 200 })) } else { GEN_SOURCES[k].to_string() };
        let (ol, oc) = if few { (1 + self.r.range(0, 2), self.r.range(0, 3)) } else { (1 + self.col(), self.col()) };
        let name = if self.r.chance(1, 2) {
            None
        } else if self.r.chance(if self.long { 8 } else { 1 }, 20) {
            Some(format!("name{}", self.r.below(if self.long { 900 } else { 300 })))
        } else {
            let k = self.r.us(if few { 2 } else { NAMES.len() });
            Some(NAMES[k].to_string())
        };
        GMap { gl, gc, src: Some((src, ol.min(i32::MAX as i64) as i32, oc as i32)), name }
    }
    pub fn gen_root(&mut self) -> Option<String> {
        own(*self.r.pick(&[None, None, None, Some("/root"), Some("/root/"), Some("http://r.io/base"), Some("src"), Some(""), Some("http://you:pw@r.io/base"), Some("http://r.io:81/base/"), Some("//r.io/base"), Some("lib"), Some("/")]))
    }
    pub fn gen_source_name(&mut self, root: &Option<String>) -> String {
        let s = GEN_SOURCES[self.r.us(GEN_SOURCES.len())].to_string();
        if self.long && self.r.chance(1, 2) {
            return format!("g{}.js", self.r.below(900));
        }
        match root {
            Some(r) if (r.starts_with('/') || r.starts_with("http")) && self.r.chance(1, 4) => {
                if s.starts_with('/') || s.contains("//") || s.starts_with('.') {
                    s
                } else if r.ends_with('/') {
                    format!("{}{}", r, s)
                } else {
                    format!("{}/{}", r, s)
                }
            }
            _ => s,
        }
    }
    /// One operation on a generator (not its creation).
    pub fn gen_op(&mut self, t: T, root: &Option<String>, few: bool, stores: usize) -> Op {
        let k = self.r.below(20);
        match if self.long && k > 16 && self.r.chance(19, 20) { 0 } else { k } {
            0..=12 => Op::GenAdd { t, m: self.gmap(few) },
            13..=16 => {
                let src = self.gen_source_name(root);
                let content = if self.r.chance(1, 4) { None } else { Some(format!("c{} \"\\\u{e9}", self.r.below(1000))) };
                Op::GenContent { t, src, content }
            }
            _ => Op::GenText { t, store: if stores > 0 && self.r.chance(1, 2) { Some(self.r.us(stores)) } else { None } },
        }
    }
    pub fn set_op(&mut self, t: T) -> Op {
        let s = if self.r.chance(if self.long { 7 } else { 1 }, 10) { format!("e{}", self.r.below(if self.long { 1500 } else { 300 })) } else { self.r.pick(NAMES).to_string() };
        match self.r.below(14) {
            0..=5 => Op::SetAdd { t, s, dup: self.r.chance(1, 3) },
            6 | 7 => Op::SetHas { t, s },
            8 | 9 => Op::SetIndex { t, s },
            10 | 11 => Op::SetAt { t, i: *self.r.pick(&[0, 1, 2, 3, 5, 8, 13, -1, i32::MIN, i32::MAX, 40, 127, 256, 400, 1024]) },
            12 if !self.long || self.r.chance(1, 10) => Op::SetVec { t },
            _ => Op::SetSize { t },
        }
    }
    pub fn list_op(&mut self, t: T, few: bool) -> Op {
        match self.r.below(10) {
            0..=6 => Op::ListAdd { t, m: self.gmap(few) },
            7.. if self.long && self.r.chance(9, 10) => Op::ListAdd { t, m: self.gmap(few) },
            7 => Op::ListEach { t, panic_at: if self.inv > 0 && self.r.chance(1, 2) { Some(self.r.below(5) as u32) } else { None } },
            _ => Op::ListArray { t },
        }
    }
    pub fn util_op(&mut self) -> Op {
        let pool = |g: &mut G| match g.r.below(3) {
            0 => g.source(),
            1 => g.root().filter(|s| !s.is_empty()).unwrap_or("lib".into()),
            _ => g.url().filter(|s| !s.is_empty()).unwrap_or("dist/m.map".into()),
        };
        let a = pool(self);
        let b = pool(self);
        let c = self.url();
        Op::Util { f: self.r.below(3) as u8, a, b, c }
    }
}

pub const GEN_SOURCES: &[&str] = &[
    "one.js", "two.js", "x", "lib/three.js", "/root/four.js", "http://r.io/base/five.js", "./six.js", "s even.js", "src/eight.js",
    "nine.js?q=1", "\u{e9}.js", "a", "three.js", "lib/one.js", "dist/lib/three.js", "js", "one.js.x", "One.js", LONG_A, LONG_B,
    "https://r.io/base/five.js", "http://r.io:81/base/five.js", "http://you:pw@r.io/base/five.js", "http://you:no@r.io/base/five.js",
    "http://me:pw@r.io/base/five.js", "http://h.io/base/five.js", "//r.io/base/five.js", "/root", "/rooted/four.js", "http://r.io/based/x.js",
];

/// Which machinery a plan exercises.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Basic,
    Indexed,
    Gen,
    Round,
    SetList,
    Mixed,
}

fn sim_cfg(r: &mut Rng, seed: u64, threads: bool, spawn: bool) -> SimCfg {
    let mut s = SimCfg::serial(seed);
    s.hash_seed = r.next() >> 8;
    s.clock_base = 1_000_000_000 + r.below(3_000_000_000);
    s.pool = match r.below(8) {
        0 => 1,
        1..=3 => 2,
        4 | 5 => 3,
        6 => 4,
        _ => 5 + r.below(4) as u32,
    };
    if !threads {
        s.clock_jump = 50;
        return s;
    }
    s.policy = match r.below(12) {
        0..=2 => Policy::Walk { mean: 1 + r.below(12) },
        3 | 4 => Policy::Walk { mean: 20 + r.below(300) },
        5 => Policy::Walk { mean: 1000 + r.below(20_000) },
        6 | 7 => Policy::Pct { changes: 1 + r.below(4) as u32, horizon: 3_000 },
        8 => Policy::Pct { changes: 2 + r.below(12) as u32, horizon: 200_000 },
        9 => Policy::Robin { quantum: 1 + r.below(40) },
        10 => Policy::Robin { quantum: 100 + r.below(5000) },
        _ => Policy::Block,
    };
    let faults = r.below(64);
    if faults & 1 != 0 {
        s.stall = *r.pick(&[5, 50, 300]);
    }
    if faults & 2 != 0 {
        s.spurious = *r.pick(&[20, 150, 400]);
    }
    if faults & 4 != 0 {
        s.eintr = *r.pick(&[20, 150]);
    }
    s.wake_any = faults & 8 != 0;
    if faults & 16 != 0 {
        s.clock_jump = 100;
    }
    if spawn {
        s.spawn_fail = Some(1 + r.below(s.pool as u64) as u32);
    }
    s
}

pub fn generate(prop: &str, seed: u64) -> Plan {
    let mut rng = Rng::new(seed ^ 0x9a17_71d3_0f00_0000);
    let r = &mut rng;
    let kind = match prop {
        "C01" | "C02" | "C11" | "C12" | "C13" => Kind::Indexed,
        "C03" => *r.pick(&[Kind::Basic, Kind::Basic, Kind::Indexed, Kind::Indexed, Kind::Mixed, Kind::Gen, Kind::SetList]),
        "C04" => *r.pick(&[Kind::Mixed, Kind::Mixed, Kind::Basic, Kind::Indexed, Kind::Gen, Kind::Round]),
        "C18" => *r.pick(&[Kind::Mixed, Kind::Basic, Kind::Indexed, Kind::Gen, Kind::Gen, Kind::Round]),
        "C05" | "C06" | "C07" | "C08" | "C10" => Kind::Basic,
        "C09" => *r.pick(&[Kind::Basic, Kind::Basic, Kind::Indexed]),
        "C14" | "C15" => Kind::Gen,
        "C16" => Kind::Round,
        "C17" => *r.pick(&[Kind::Basic, Kind::Basic, Kind::Indexed]),
        "C19" => Kind::SetList,
        _ => Kind::Mixed,
    };
    let own_only = matches!(prop, "C04" | "C18");
    let inv = match prop {
        "C03" => 250,
        "C18" | "C04" => *r.pick(&[0, 60]),
        "C17" => 20,
        _ => *r.pick(&[0, 0, 40, 150]),
    };
    let size = match r.below(60) {
        0 => 2,
        1..=21 => 1,
        _ => 0,
    };
    let nclients = if prop == "C04" {
        2 + r.us(3)
    } else if prop == "C18" {
        1 + r.us(2)
    } else {
        match r.below(10) {
            0..=3 => 1,
            4..=6 => 2,
            7 | 8 => 3,
            _ => 4 + r.us(3),
        }
    };
    let nops = match r.below(10) {
        0 => 1 + r.us(4),
        1..=6 => 4 + r.us(16),
        7 | 8 => 10 + r.us(50),
        _ => 40 + r.us(160),
    };
    let long = size < 2 && r.chance(1, 50);
    let (nops, nclients, size) = if long {
        (if matches!(kind, Kind::Indexed | Kind::Mixed) { 60 + r.us(200) } else { 300 + r.us(match prop { "C04" => 300, "C18" => 600, "C16" => 700, _ => 1500 }) }, nclients.min(2), 0)
    } else if size == 2 || nclients > 3 {
        (nops.min(30), nclients, size)
    } else {
        (nops, nclients, size)
    };
    // more clients at once than there are slots in any table somebody may have sized by hand
    let crowd = !long && prop != "C17" && r.chance(1, if prop == "C04" { 40 } else { 100 });
    let kind = if crowd && prop == "C04" && r.chance(1, 2) { Kind::Basic } else { kind };
    let (nops, nclients, size) = if crowd { (1 + r.us(4), 60 + r.us(90), 0) } else { (nops, nclients, size) };
    let weights: [u64; 8] = match prop {
        "C05" => [30, 6, 4, 5, 3, 2, 1, 1],
        "C06" => [6, 30, 4, 5, 3, 4, 1, 1],
        "C07" => [5, 5, 30, 4, 3, 3, 1, 1],
        "C08" => [6, 5, 4, 30, 3, 2, 1, 1],
        "C09" => [10, 10, 8, 8, 9, 2, 1, 1],
        "C10" => [3, 5, 2, 1, 1, 26, 3, 6],
        "C01" => [3, 3, 1, 1, 1, 1, 1, 2],
        "C11" => [30, 5, 3, 4, 3, 3, 1, 1],
        "C12" => [5, 18, 16, 4, 3, 3, 1, 1],
        "C13" => [4, 4, 3, 18, 3, 12, 5, 3],
        _ => [10, 8, 6, 6, 3, 6, 2, 3],
    };
    let mut g = G { r, inv, long };
    let threads = nclients > 1 || matches!(kind, Kind::Indexed | Kind::Mixed) || prop == "C18";
    let spawn = matches!(prop, "C01" | "C03") && g.r.chance(1, 8);
    let mut sim = sim_cfg(g.r, seed, threads, spawn);
    if crowd && g.r.chance(2, 3) {
        // all of them at once, rather than one after another
        sim.policy = match g.r.below(4) {
            0 => Policy::Walk { mean: 3 + g.r.below(20) },
            1 => Policy::Walk { mean: 50 + g.r.below(300) },
            2 => Policy::Walk { mean: 300 + g.r.below(3000) },
            _ => Policy::Robin { quantum: 30 + g.r.below(3000) },
        };
    }
    let few = g.r.chance(1, if long { 10 } else { 2 });

    let mut plan = Plan {
        prop: prop.to_string(),
        sim,
        docs: vec![],
        shared: 0,
        stores: 0,
        setup: vec![],
        clients: vec![vec![]; nclients],
    };
    match kind {
        Kind::Basic => gen_basic(&mut g, &mut plan, prop, size, nops, &weights, own_only),
        Kind::Indexed => gen_indexed(&mut g, &mut plan, prop, size, nops, &weights),
        Kind::Gen => gen_generators(&mut g, &mut plan, prop, nops, few, own_only),
        Kind::Round => gen_round(&mut g, &mut plan, nops, few, &weights, own_only),
        Kind::SetList => gen_setlist(&mut g, &mut plan, nops, few),
        Kind::Mixed => gen_mixed(&mut g, &mut plan, if long { nops } else { nops.min(40) }, few, &weights, own_only),
    }
    if g.inv > 0 && g.r.chance(1, if prop == "C03" { 2 } else { 6 }) {
        unreachable_names(&mut g, &mut plan);
    }
    if !long && !crowd && size < 2 && prop != "C17" && g.r.chance(1, if prop == "C18" { 20 } else { 50 }) {
        churn(&mut g, &mut plan);
    }
    if prop == "C18" {
        // every client has a twin that makes the same calls on fresh objects
        let twins = plan.clients.clone();
        plan.clients.extend(twins);
    }
    plan
}

/// Calls that must fail because a name in them cannot be resolved, among the others; nothing uses what they build.
fn unreachable_names(g: &mut G, plan: &mut Plan) {
    let doc = plan.docs.len();
    let indexed = g.r.chance(1, 2);
    let mut d = g.doc(indexed, 0);
    let bad = g.r.pick(crate::url::HOPELESS).to_string();
    let b = match &mut d.body {
        Body::Basic(b) => Some(b),
        Body::Indexed { sections, .. } => {
            let n = sections.len();
            if n == 0 {
                None
            } else {
                let i = g.r.us(n);
                Some(&mut sections[i].map)
            }
        }
    };
    if let Some(b) = b {
        if b.root.is_some() && g.r.chance(1, 3) {
            b.root = Some(bad);
        } else {
            let k = g.r.us(b.sources.len() + 1);
            b.sources.insert(k, bad);
        }
    }
    plan.docs.push(d);
    for c in 0..plan.clients.len() {
        for _ in 0..g.r.us(4) {
            let bad = g.r.pick(crate::url::HOPELESS).to_string();
            let op = match g.r.below(4) {
                0 => Op::Util { f: g.r.below(3) as u8, a: "lib".into(), b: bad, c: None },
                1 => Op::Util { f: 2, a: bad, b: "a.js".into(), c: None },
                _ => {
                    let h = how(g, false);
                    let url = if g.r.chance(1, 6) { Some(bad) } else { g.url() };
                    Op::Build { t: T::L(20), doc, url, how: h, indexed }
                }
            };
            let at = g.r.us(plan.clients[c].len() + 1);
            plan.clients[c].insert(at, op);
        }
    }
}

/// Another document, or (often as long) the first of those before but for one thing.
fn like_before(g: &mut G, before: &[Doc], other: impl Fn(&mut G) -> Doc) -> Doc {
    if before.is_empty() || g.r.chance(3, 4) {
        return other(g);
    }
    let mut d = before[0].clone();
    d.damage.clear();
    let b = match &mut d.body {
        Body::Basic(b) => b,
        Body::Indexed { sections, .. } if !sections.is_empty() => {
            let i = g.r.us(sections.len());
            match g.r.below(8) {
                0 => {
                    let last = sections.len() - 1;
                    sections[last].line += 1;
                    return d;
                }
                1 if sections.len() > 1 => {
                    // the same maps at each other's places
                    let j = g.r.us(sections.len());
                    let m = sections[i].map.clone();
                    sections[i].map = sections[j].map.clone();
                    sections[j].map = m;
                    return d;
                }
                _ => &mut sections[i].map,
            }
        }
        _ => return other(g),
    };
    for _ in 0..1 + g.r.us(2) {
        match g.r.below(8) {
            0..=3 if !b.segs.is_empty() => {
                let k = g.r.us(b.segs.len());
                match &mut b.segs[k] {
                    Seg { orig: Some(o), .. } if g.r.chance(1, 2) => o.1 ^= 1,
                    Seg { orig: Some(o), .. } if g.r.chance(1, 2) => o.2 ^= 1,
                    s => s.gc ^= 1,
                }
            }
            4 if b.sources.len() > 1 => {
                let (i, j) = (g.r.us(b.sources.len()), g.r.us(b.sources.len()));
                b.sources.swap(i, j);
            }
            5 => {
                if let Some(c) = b.contents.as_mut().filter(|c| c.len() > 1) {
                    let (i, j) = (g.r.us(c.len()), g.r.us(c.len()));
                    c.swap(i, j);
                }
            }
            6 => b.root = g.root(),
            _ => {
                if let Some(n) = b.names.as_mut().filter(|n| n.len() > 1) {
                    n.rotate_left(1);
                }
            }
        }
    }
    d
}

fn how(g: &mut G, damaged: bool) -> How {
    if damaged {
        *g.r.pick(&[How::Create, How::Create, How::Create, How::New])
    } else {
        *g.r.pick(&[How::Create, How::Create, How::Create, How::New, How::FromJson, How::Consume])
    }
}

fn gen_basic(g: &mut G, plan: &mut Plan, prop: &str, size: u32, nops: usize, w: &[u64; 8], own_only: bool) {
    let ndocs = 1 + g.r.us(3);
    for _ in 0..ndocs {
        let mut d = like_before(g, &plan.docs, |g| g.doc(false, size));
        if prop == "C17" && g.r.chance(3, 4) || prop == "C03" && g.r.chance(1, 4) {
            for _ in 0..1 + g.r.us(2) {
                let dm = g.damage(ndocs);
                d.damage.push(dm);
            }
        }
        if prop == "C17" && g.r.chance(1, 12) {
            if let Body::Basic(b) = &mut d.body {
                if g.r.chance(1, 2) {
                    b.no_sources = true
                } else {
                    b.no_mappings = true
                }
            }
        }
        if prop == "C17" && g.r.chance(1, 6) {
            bad_reference(g, &mut d);
        }
        plan.docs.push(d);
    }
    let mut urls: Vec<Option<String>> = (0..ndocs).map(|_| g.url()).collect();
    if g.r.chance(1, 3) {
        let u = urls[0].clone();
        urls.iter_mut().for_each(|x| *x = u.clone());
    }
    let parsed: Vec<Parsed> = (0..ndocs).map(|i| model::parse(&plan.docs[i].text(&plan.docs), urls[i].as_deref())).collect();
    let nshared = if own_only { 0 } else { g.r.us(3) };
    plan.shared = nshared;
    let mut objs: Vec<(T, usize)> = vec![];
    for i in 0..nshared {
        let d = g.r.us(ndocs);
        let h = how(g, !plan.docs[d].damage.is_empty());
        plan.setup.push(Op::Build { t: T::S(i), doc: d, url: urls[d].clone(), how: h, indexed: false });
        objs.push((T::S(i), d));
    }
    let sweep = size == 2 && g.r.chance(1, 2);
    for c in 0..plan.clients.len() {
        let mut mine = objs.clone();
        let nloc = if nshared == 0 { 1 + g.r.us(2) } else { g.r.us(3) };
        for i in 0..nloc {
            let d = g.r.us(ndocs);
            let h = how(g, !plan.docs[d].damage.is_empty());
            plan.clients[c].push(Op::Build { t: T::L(i), doc: d, url: urls[d].clone(), how: h, indexed: false });
            mine.push((T::L(i), d));
        }
        if sweep && c == 0 {
            // ask for every source there is, and again, so that whatever is remembered is used
            let (t, d) = *g.r.pick(&mine);
            if let Parsed::Basic(b) = &parsed[d] {
                for round in 0..2 {
                    for i in 0..b.raw_sources.len() {
                        let src = if round == 0 { b.raw_sources[i].clone() } else { b.sources[i].clone() };
                        plan.clients[c].push(match g.r.below(3) {
                            0 => Op::Content { t, src, panic: Some(false) },
                            1 => Op::Rev { t, src, line: i32::MAX, col: i32::MAX, lub: None },
                            _ => Op::All { t, src, line: 1, col: None },
                        });
                    }
                }
            }
        }
        for _ in 0..nops {
            if g.r.chance(1, 30) {
                let k = g.r.us(mine.len());
                if g.r.chance(1, 2) {
                    // another map where this one was
                    mine[k].1 = g.r.us(ndocs);
                }
                let (t, d) = mine[k];
                let h = how(g, !plan.docs[d].damage.is_empty());
                plan.clients[c].push(Op::Build { t, doc: d, url: urls[d].clone(), how: h, indexed: false });
                continue;
            }
            if g.r.chance(1, 40) {
                swap(g, plan, c, &mut mine);
            }
            let (t, d) = *g.r.pick(&mine);
            if g.r.chance(1, 30) {
                nest(g, plan, c, &mine, &parsed, &urls, w);
            }
            if g.r.chance(1, 7) {
                twist(g, plan, c, &mine);
                continue;
            }
            let op = g.query(t, &parsed[d], w);
            // repeat a call now and then
            let again = g.r.chance(1, 8);
            if again {
                plan.clients[c].push(op.clone());
            }
            plan.clients[c].push(op);
            if g.r.chance(1, 12) && plan.clients[c].len() > 1 {
                let k = g.r.us(plan.clients[c].len());
                let old = plan.clients[c][k].clone();
                plan.clients[c].push(old);
            }
        }
    }
}

/// Two objects change places, and what the client believes to be where with them.
fn swap(g: &mut G, plan: &mut Plan, c: usize, mine: &mut [(T, usize)]) {
    let a = g.r.us(mine.len());
    let b = g.r.us(mine.len());
    if let T::L(with) = mine[b].0 {
        if a != b {
            plan.clients[c].push(Op::Swap { t: mine[a].0, with });
            let d = mine[a].1;
            mine[a].1 = mine[b].1;
            mine[b].1 = d;
        }
    }
}

/// An earlier query again, with one thing about it changed.
fn twist(g: &mut G, plan: &mut Plan, c: usize, mine: &[(T, usize)]) {
    let n = plan.clients[c].len();
    if n == 0 {
        return;
    }
    let k = if g.r.chance(2, 3) { n - 1 - g.r.us(n.min(4)) } else { g.r.us(n) };
    let mut op = plan.clients[c][k].clone();
    let was = op.clone();
    let by = *g.r.pick(&[1i32, -1, 1, -1, 2, 256, -256, 65536, -65536, 128, 1000]);
    let what = g.r.below(6);
    let other = g.r.pick(mine).0;
    match &mut op {
        Op::Fwd { line, col, lub, .. } | Op::Rev { line, col, lub, .. } if *line > 0 && *col >= 0 => match what {
            0 | 1 => *line = line.saturating_add(by).max(1),
            2 => *col = col.saturating_add(by).max(0),
            3 | 4 => *lub = if *lub == Some(true) { Some(false) } else { Some(true) },
            _ => op.set_target(other),
        },
        Op::All { line, col, .. } if *line > 0 => match what {
            0 | 1 => *line = line.saturating_add(by).max(1),
            2 => *col = Some(col.unwrap_or(0).saturating_add(by).max(0)),
            3 | 4 => *col = None,
            _ => op.set_target(other),
        },
        Op::Each { original, panic_at, .. } => match what {
            0..=2 => *original = !*original,
            3 => *panic_at = None,
            _ => op.set_target(other),
        },
        Op::Content { .. } | Op::HasAll { .. } | Op::Sources { .. } | Op::Spans { .. } => op.set_target(other),
        _ => return,
    }
    if op != was {
        plan.clients[c].push(op);
    }
}

/// An iteration whose callback uses another object.
fn nest(g: &mut G, plan: &mut Plan, c: usize, mine: &[(T, usize)], parsed: &[Parsed], urls: &[Option<String>], w: &[u64; 8]) {
    let (t, _) = *g.r.pick(mine);
    let (other, d) = *g.r.pick(mine);
    let (with, inner) = match other {
        T::L(k) if other != t => (k, if g.r.chance(1, 8) { None } else { Some(g.query(other, &parsed[d], w)) }),
        _ => (21, None),
    };
    let other = T::L(with);
    // a new object, if there is no other
    let inner = inner.unwrap_or_else(|| {
        let indexed = matches!(plan.docs[d].body, Body::Indexed { .. });
        Op::Build { t: other, doc: d, url: urls[d].clone(), how: how(g, !plan.docs[d].damage.is_empty()), indexed }
    });
    let at = if g.r.chance(1, 2) { 0 } else { g.r.below(6) as u32 };
    let panic_at = if g.inv > 0 && g.r.chance(1, 5) { Some(g.r.below(8) as u32) } else { None };
    plan.clients[c].push(Op::Nest { t, original: g.r.chance(1, 2), panic_at, at, with, inner: Box::new(inner) });
}

/// Hundreds of short-lived objects, made and asked the same few things, before and between the other calls.
fn churn(g: &mut G, plan: &mut Plan) {
    let c = g.r.us(plan.clients.len());
    let most = if g.r.chance(1, 2) { 90 } else { 700 };
    let n = 40 + g.r.us(most);
    let docs: Vec<usize> = (0..plan.docs.len()).filter(|&i| plan.docs[i].damage.is_empty()).collect();
    let mut ops = vec![];
    if docs.is_empty() {
        let slots = 1 + g.r.us(4);
        let set = g.r.chance(1, 4);
        let words: Vec<String> = (0..4).map(|_| g.r.pick(NAMES).to_string()).collect();
        let maps: Vec<GMap> = (0..4).map(|_| g.gmap(true)).collect();
        for _ in 0..n {
            let t = T::L(40 + g.r.us(slots));
            if set {
                ops.push(Op::SetNew { t, init: vec![g.r.pick(&words).clone()], dup: false });
                let s = g.r.pick(&words).clone();
                ops.push(Op::SetIndex { t, s: s.clone() });
            } else {
                ops.push(Op::GenNew { t, file: None, root: None });
                let m = g.r.pick(&maps).clone();
                ops.push(Op::GenAdd { t, m });
                ops.push(Op::GenText { t, store: None });
            }
        }
    } else {
        let mut extra = vec![];
        if g.r.chance(1, 2) {
            // something quicker to build than what there is
            let i = plan.docs.len();
            let d = g.doc(false, 0);
            plan.docs.push(d);
            extra.push(i);
        }
        let few: Vec<usize> = (0..2 + g.r.us(2)).map(|_| {
            let from = if extra.is_empty() || g.r.chance(1, 2) { &docs } else { &extra };
            *g.r.pick(from)
        }).collect();
        let parsed: Vec<Parsed> = few.iter().map(|&i| model::parse(&plan.docs[i].text(&plan.docs), None)).collect();
        let pool: Vec<Op> = (0..1 + g.r.us(4))
            .map(|_| {
                let k = g.r.us(few.len());
                g.query(T::L(40), &parsed[k], &[14, 6, 4, 2, 1, 6, 1, 2])
            })
            .collect();
        let slots = 1 + g.r.us(4);
        for _ in 0..n {
            let i = *g.r.pick(&few);
            let t = T::L(40 + g.r.us(slots));
            let ix = matches!(plan.docs[i].body, Body::Indexed { .. });
            ops.push(Op::Build { t, doc: i, url: None, how: How::Create, indexed: ix });
            for _ in 0..g.r.us(3) {
                let mut q = g.r.pick(&pool).clone();
                q.set_target(t);
                ops.push(q);
            }
        }
    }
    let cut = if g.r.chance(1, 2) { ops.len() } else { g.r.us(ops.len() + 1) };
    let rest = ops.split_off(cut);
    let at = g.r.us(plan.clients[c].len() + 1);
    plan.clients[c].splice(at..at, rest);
    plan.clients[c].splice(0..0, ops);
}

fn bad_reference(g: &mut G, d: &mut Doc) {
    let b = match &mut d.body {
        Body::Basic(b) => b,
        Body::Indexed { sections, .. } if !sections.is_empty() => {
            let i = g.r.us(sections.len());
            &mut sections[i].map
        }
        _ => return,
    };
    if b.segs.is_empty() {
        return;
    }
    let k = g.r.us(b.segs.len());
    let by = *g.r.pick(&[0u32, 1, 5, 1000, 50_000_000, 2_000_000_000]);
    if g.r.chance(1, 2) {
        b.segs[k].orig = Some((b.sources.len() as u32 + by, 1, 1));
    } else if b.segs[k].orig.is_some() {
        b.segs[k].name = Some(b.names.as_ref().map_or(0, |n| n.len() as u32) + by);
    }
}

fn gen_indexed(g: &mut G, plan: &mut Plan, prop: &str, size: u32, nops: usize, w: &[u64; 8]) {
    let ndocs = 1 + g.r.us(3);
    for _ in 0..ndocs {
        let mut d = like_before(g, &plan.docs, |g| g.doc(true, size));
        let spoil = match prop {
            "C01" => g.r.chance(1, 2),
            "C03" => g.r.chance(1, 3),
            "C02" => g.r.chance(1, 10),
            "C17" => g.r.chance(1, 10),
            _ => g.r.chance(1, 30),
        };
        if spoil {
            g.spoil(&mut d.body);
        }
        if prop == "C17" && g.r.chance(3, 4) || prop == "C03" && g.r.chance(1, 4) {
            for _ in 0..1 + g.r.us(2) {
                let dm = g.damage(ndocs);
                d.damage.push(dm);
            }
        }
        if prop == "C17" && g.r.chance(1, 8) {
            if let Body::Indexed { sections, .. } = &mut d.body {
                if !sections.is_empty() {
                    let i = g.r.us(sections.len());
                    if g.r.chance(1, 2) {
                        sections[i].map.no_sources = true
                    } else {
                        sections[i].map.no_mappings = true
                    }
                }
            }
        }
        if prop == "C17" && g.r.chance(1, 6) {
            bad_reference(g, &mut d);
        }
        plan.docs.push(d);
    }
    let mut urls: Vec<Option<String>> = (0..ndocs).map(|_| g.url()).collect();
    if g.r.chance(1, 3) {
        let u = urls[0].clone();
        urls.iter_mut().for_each(|x| *x = u.clone());
    }
    let parsed: Vec<Parsed> = (0..ndocs).map(|i| model::parse(&plan.docs[i].text(&plan.docs), urls[i].as_deref())).collect();
    let rebuild = if prop == "C01" { 4 } else { 25 };
    for c in 0..plan.clients.len() {
        let nloc = 1 + g.r.us(2);
        let mut mine = vec![];
        for i in 0..nloc {
            let d = g.r.us(ndocs);
            let h = how(g, !plan.docs[d].damage.is_empty());
            plan.clients[c].push(Op::Build { t: T::L(i), doc: d, url: urls[d].clone(), how: h, indexed: true });
            mine.push((T::L(i), d));
        }
        for _ in 0..nops {
            if g.r.chance(1, 40) {
                swap(g, plan, c, &mut mine);
            }
            let k = g.r.us(mine.len());
            let again = g.r.chance(1, rebuild);
            if again && g.r.chance(1, 2) {
                mine[k].1 = g.r.us(ndocs);
            }
            let (t, d) = mine[k];
            if again {
                let h = how(g, !plan.docs[d].damage.is_empty());
                plan.clients[c].push(Op::Build { t, doc: d, url: urls[d].clone(), how: h, indexed: true });
                continue;
            }
            if g.r.chance(1, 30) {
                nest(g, plan, c, &mine, &parsed, &urls, w);
            }
            if g.r.chance(1, 7) {
                twist(g, plan, c, &mine);
                continue;
            }
            let op = g.query(t, &parsed[d], w);
            plan.clients[c].push(op);
            if g.r.chance(1, 12) {
                let k = g.r.us(plan.clients[c].len());
                let old = plan.clients[c][k].clone();
                plan.clients[c].push(old);
            }
        }
    }
}

fn gen_generators(g: &mut G, plan: &mut Plan, _prop: &str, nops: usize, few: bool, own_only: bool) {
    let nshared = if own_only { 0 } else { g.r.us(3) };
    plan.shared = nshared;
    let mut objs: Vec<(T, Option<String>)> = vec![];
    let file = |g: &mut G| if g.r.chance(1, 2) { Some("out.js".to_string()) } else { None };
    for i in 0..nshared {
        let root = g.gen_root();
        let f = file(g);
        plan.setup.push(Op::GenNew { t: T::S(i), file: f, root: root.clone() });
        objs.push((T::S(i), root));
    }
    for c in 0..plan.clients.len() {
        let mut mine = objs.clone();
        let nloc = if nshared == 0 { 1 + g.r.us(2) } else { g.r.us(2) };
        for i in 0..nloc {
            let root = g.gen_root();
            let f = file(g);
            plan.clients[c].push(Op::GenNew { t: T::L(i), file: f, root: root.clone() });
            mine.push((T::L(i), root));
        }
        for _ in 0..nops {
            let (t, root) = g.r.pick(&mine).clone();
            if matches!(t, T::L(_)) && g.r.chance(1, 30) {
                let f = file(g);
                gen_again(g, plan, c, t, &root, f, few);
            }
            let op = g.gen_op(t, &root, few, 0);
            plan.clients[c].push(op);
            if g.r.chance(1, 10) {
                let k = g.r.us(plan.clients[c].len());
                let old = plan.clients[c][k].clone();
                if !matches!(old, Op::GenNew { .. }) {
                    plan.clients[c].push(old);
                }
            }
        }
        for (t, _) in mine {
            plan.clients[c].push(Op::GenText { t, store: None });
        }
    }
}

/// A generator like an earlier one in the same place: the same additions again, but for a few.
fn gen_again(g: &mut G, plan: &mut Plan, c: usize, t: T, root: &Option<String>, file: Option<String>, few: bool) {
    let adds: Vec<GMap> = plan.clients[c]
        .iter()
        .filter_map(|o| match o {
            Op::GenAdd { m, .. } => Some(m.clone()),
            _ => None,
        })
        .collect();
    // those of the one that is there now
    let now = plan.clients[c].iter().rposition(|o| matches!(o, Op::GenNew { t: x, .. } if *x == t)).unwrap_or(0);
    let last: Vec<GMap> = plan.clients[c][now..]
        .iter()
        .filter_map(|o| match o {
            Op::GenAdd { t: x, m } if *x == t => Some(m.clone()),
            _ => None,
        })
        .collect();
    plan.clients[c].push(Op::GenNew { t, file, root: root.clone() });
    let (n, from) = if last.len() <= 12 && g.r.chance(2, 3) {
        (last.len(), usize::MAX)
    } else {
        let n = g.r.us(5).min(adds.len());
        (n, g.r.us(adds.len() - n + 1))
    };
    let (adds, from) = if from == usize::MAX { (last, 0) } else { (adds, from) };
    let changed = g.r.us(n + 1);
    for k in 0..n {
        let mut m = adds[from + k].clone();
        if k == changed {
            match (&mut m.src, g.r.below(4)) {
                (Some(s), 0) => s.1 = if s.1 == 1 { 2 } else { 1 },
                (Some(s), 1) => s.2 ^= 1,
                (_, 2) => m.gc ^= 1,
                _ => m = g.gmap(few),
            }
        }
        plan.clients[c].push(Op::GenAdd { t, m });
    }
}

fn gen_round(g: &mut G, plan: &mut Plan, nops: usize, few: bool, w: &[u64; 8], own_only: bool) {
    let nshared = if own_only { 0 } else { g.r.us(3) };
    plan.shared = nshared;
    plan.stores = if own_only { 0 } else { 1 + g.r.us(3) };
    let mut gens: Vec<(T, Option<String>)> = vec![];
    for i in 0..nshared {
        let root = g.gen_root();
        plan.setup.push(Op::GenNew { t: T::S(i), file: None, root: root.clone() });
        gens.push((T::S(i), root));
    }
    for s in 0..plan.stores {
        if nshared > 0 && g.r.chance(1, 2) {
            let t = T::S(g.r.us(nshared));
            for _ in 0..g.r.us(6) {
                plan.setup.push(Op::GenAdd { t, m: g.gmap(few) });
            }
            plan.setup.push(Op::GenText { t, store: Some(s) });
        }
    }
    // what has been added so far, as far as one client can know, to choose questions from
    let mut known: BTreeMap<T, model::MGen> = BTreeMap::new();
    let mut written: BTreeMap<usize, model::MGen> = BTreeMap::new();
    fn note(op: &Op, known: &mut BTreeMap<T, model::MGen>, written: &mut BTreeMap<usize, model::MGen>) {
        match op {
            Op::GenNew { t, file, root } => {
                known.insert(*t, model::MGen::new(file.clone(), root.clone()));
            }
            Op::GenAdd { t, m } => {
                if let Some(k) = known.get_mut(t) {
                    k.add(m);
                }
            }
            Op::GenContent { t, src, content } => {
                if let Some(k) = known.get_mut(t) {
                    k.content(src, content);
                }
            }
            Op::GenText { t, store: Some(s) } => {
                if let Some(k) = known.get(t) {
                    written.insert(*s, k.clone());
                }
            }
            _ => {}
        }
    }
    for op in &plan.setup {
        note(op, &mut known, &mut written);
    }
    for c in 0..plan.clients.len() {
        let mut mine = gens.clone();
        known.retain(|t, _| matches!(t, T::S(_)));
        let nloc = if nshared == 0 { 1 + g.r.us(2) } else { g.r.us(2) };
        for i in 0..nloc {
            let root = g.gen_root();
            plan.clients[c].push(Op::GenNew { t: T::L(i), file: None, root: root.clone() });
            mine.push((T::L(i), root));
        }
        for _ in 0..g.r.us(8) {
            let (t, root) = g.r.pick(&mine).clone();
            let op = g.gen_op(t, &root, few, plan.stores);
            plan.clients[c].push(op);
        }
        let cons = T::L(10);
        let mut asked = Parsed::Bad;
        let mut url = g.url();
        let mut have = false;
        let mut seen = 0;
        for _ in 0..nops {
            for op in &plan.clients[c][seen..] {
                note(op, &mut known, &mut written);
            }
            seen = plan.clients[c].len();
            let k = g.r.below(20);
            if !have || k < 3 {
                let (t, root) = g.r.pick(&mine).clone();
                if matches!(t, T::L(_)) && g.r.chance(1, 4) {
                    gen_again(g, plan, c, t, &root, None, few);
                    for op in &plan.clients[c][seen..] {
                        note(op, &mut known, &mut written);
                    }
                    seen = plan.clients[c].len();
                }
                if g.r.chance(1, 2) {
                    url = g.url();
                }
                let how = *g.r.pick(&[How::Create, How::Create, How::New, How::FromJson, How::Consume]);
                let of = |k: Option<&model::MGen>| match k {
                    Some(k) => Parsed::Basic(k.consumer(url.as_deref())),
                    None => Parsed::Bad,
                };
                let op = match g.r.below(4) {
                    2 if plan.stores > 0 => {
                        let n = 1 + g.r.us(4);
                        let (mut line, mut col) = (g.r.range(0, 3), g.r.range(0, 5));
                        let mut parts = vec![];
                        let mut sections = vec![];
                        for _ in 0..n {
                            let k = g.r.us(plan.stores);
                            parts.push((k, line, col));
                            if let Some(m) = written.get(&k) {
                                sections.push(model::MSection { line, col, map: m.consumer(url.as_deref()) });
                            }
                            if g.r.chance(1, 3) {
                                col += g.r.range(0, 20);
                            } else {
                                line += g.r.range(1, 9);
                                col = g.r.range(0, 9);
                            }
                        }
                        asked = Parsed::Indexed(model::MIndexed {
                            sections,
                            version_ok: true,
                            has_url: false,
                            ordered: true,
                            negative: false,
                            incomplete: false,
                        });
                        Op::StoreIndexed { t: cons, parts, url: url.clone() }
                    }
                    3 if plan.stores > 0 => {
                        let store = g.r.us(plan.stores);
                        asked = of(written.get(&store));
                        Op::StoreBuild { t: cons, store, url: url.clone(), how }
                    }
                    _ => {
                        asked = of(known.get(&t));
                        Op::GenBuild { t: cons, from: t, url: url.clone() }
                    }
                };
                plan.clients[c].push(op);
                have = true;
            } else if k < 8 {
                let (t, root) = g.r.pick(&mine).clone();
                let op = g.gen_op(t, &root, few, plan.stores);
                plan.clients[c].push(op);
            } else if k < 10 {
                twist(g, plan, c, &[(cons, 0)]);
            } else {
                let op = g.query(cons, &asked, w);
                plan.clients[c].push(op);
            }
        }
    }
}

fn gen_setlist(g: &mut G, plan: &mut Plan, nops: usize, few: bool) {
    plan.shared = 1 + g.r.us(3);
    let mut objs = vec![];
    for i in 0..plan.shared {
        if g.r.chance(1, 2) {
            let n = g.r.us(5);
            let init = (0..n).map(|_| g.r.pick(NAMES).to_string()).collect();
            let dup = g.r.chance(1, 2);
            plan.setup.push(Op::SetNew { t: T::S(i), init, dup });
            objs.push((T::S(i), true));
        } else {
            plan.setup.push(Op::ListNew { t: T::S(i) });
            objs.push((T::S(i), false));
        }
    }
    for c in 0..plan.clients.len() {
        for _ in 0..nops {
            let (t, set) = *g.r.pick(&objs);
            let op = if set { g.set_op(t) } else { g.list_op(t, few) };
            plan.clients[c].push(op);
        }
        for &(t, set) in &objs {
            plan.clients[c].push(if set { Op::SetVec { t } } else { Op::ListArray { t } });
        }
    }
}

fn gen_mixed(g: &mut G, plan: &mut Plan, nops: usize, few: bool, w: &[u64; 8], own_only: bool) {
    let ndocs = 2 + g.r.us(3);
    for i in 0..ndocs {
        let mut d = if i < 2 { g.doc(i % 2 == 1, 0) } else { like_before(g, &plan.docs[i - 2..], |g| g.doc(i % 2 == 1, 0)) };
        if plan.prop == "C03" && g.r.chance(1, 3) {
            if g.r.chance(1, 2) {
                g.spoil(&mut d.body);
            } else {
                let dm = g.damage(ndocs);
                d.damage.push(dm);
            }
        }
        plan.docs.push(d);
    }
    let mut urls: Vec<Option<String>> = (0..ndocs).map(|_| g.url()).collect();
    if g.r.chance(1, 3) {
        let u = urls[0].clone();
        urls.iter_mut().for_each(|x| *x = u.clone());
    }
    let parsed: Vec<Parsed> = (0..ndocs).map(|i| model::parse(&plan.docs[i].text(&plan.docs), urls[i].as_deref())).collect();
    let nshared = if own_only { 0 } else { g.r.us(3) };
    plan.shared = nshared;
    let mut shared = vec![];
    for i in 0..nshared {
        plan.setup.push(Op::Build { t: T::S(i), doc: 0, url: urls[0].clone(), how: How::Create, indexed: false });
        shared.push((T::S(i), 0usize));
    }
    for c in 0..plan.clients.len() {
        let mut mine = shared.clone();
        let mut gens: Vec<(T, Option<String>)> = vec![];
        for _ in 0..nops {
            match g.r.below(16) {
                0 | 1 => {
                    let t = T::L(g.r.us(3));
                    let d = g.r.us(ndocs);
                    mine.retain(|m| m.0 != t);
                    mine.push((t, d));
                    let ix = matches!(plan.docs[d].body, Body::Indexed { .. });
                    let h = how(g, !plan.docs[d].damage.is_empty());
                    plan.clients[c].push(Op::Build { t, doc: d, url: urls[d].clone(), how: h, indexed: ix });
                }
                2 => {
                    let t = T::L(5 + g.r.us(2));
                    let root = g.gen_root();
                    gens.retain(|m| m.0 != t);
                    gens.push((t, root.clone()));
                    plan.clients[c].push(Op::GenNew { t, file: Some("f.js".into()), root });
                }
                3..=5 if !gens.is_empty() => {
                    let (t, root) = g.r.pick(&gens).clone();
                    let op = g.gen_op(t, &root, few, 0);
                    plan.clients[c].push(op);
                }
                6 | 7 => {
                    let op = g.util_op();
                    plan.clients[c].push(op);
                }
                8 => {
                    if g.r.chance(1, 4) {
                        plan.clients[c].push(Op::SetNew { t: T::L(8), init: vec![], dup: false });
                    } else {
                        let op = g.set_op(T::L(8));
                        plan.clients[c].push(op);
                    }
                }
                9 => {
                    if g.r.chance(1, 4) {
                        plan.clients[c].push(Op::ListNew { t: T::L(9) });
                    } else {
                        let op = g.list_op(T::L(9), few);
                        plan.clients[c].push(op);
                    }
                }
                _ if !mine.is_empty() => {
                    if g.r.chance(1, 7) {
                        twist(g, plan, c, &mine);
                        continue;
                    }
                    if g.r.chance(1, 12) {
                        nest(g, plan, c, &mine, &parsed, &urls, w);
                        continue;
                    }
                    let (t, d) = *g.r.pick(&mine);
                    let op = g.query(t, &parsed[d], w);
                    plan.clients[c].push(op);
                }
                _ => {
                    let t = T::L(0);
                    mine.push((t, 0));
                    plan.clients[c].push(Op::Build { t, doc: 0, url: urls[0].clone(), how: How::Create, indexed: false });
                }
            }
        }
    }
}
