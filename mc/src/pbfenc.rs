//! Independent encoder of OSM PBF files (hand-written protobuf wire format).
use crate::model::*;
use std::io::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct PMeta {
    pub version: Option<i32>,
    pub ts: Option<i64>,
    pub changeset: Option<i64>,
    pub uid: Option<i32>,
    pub user: Option<String>,
    pub visible: Option<bool>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct PObj {
    pub kind: K,
    pub id: i64,
    pub meta: Option<PMeta>,
    pub tags: Vec<(String, String)>,
    pub lat: i64,
    pub lon: i64,
    pub refs: Vec<i64>,
    pub members: Vec<(K, i64, String)>,
}
impl PObj {
    pub fn of(m: &MObj) -> PObj {
        PObj {
            kind: m.kind,
            id: m.id,
            meta: Some(PMeta { version: m.version.map(|v| v as i32), ts: m.ts.as_ref().map(|t| t.epoch().unwrap()), changeset: m.changeset.map(|v| v as i64), uid: m.uid.map(|v| v as i32), user: m.user.clone(), visible: if m.deleted { Some(false) } else { Some(true) } }),
            tags: m.tags.clone(),
            lat: m.pos.map_or(0, |p| p.0 as i64),
            lon: m.pos.map_or(0, |p| p.1 as i64),
            refs: m.nodes.clone(),
            members: m.members.clone(),
        }
    }
    pub fn full(k: K, id: i64) -> PObj {
        PObj::of(&MObj::full(k, id))
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Group {
    Dense(Vec<PObj>),
    Nodes(Vec<PObj>),
    Ways(Vec<PObj>),
    Rels(Vec<PObj>),
    Changesets(usize),
    Empty,
}
impl Group {
    pub fn objs(&self) -> &[PObj] {
        match self {
            Group::Dense(v) | Group::Nodes(v) | Group::Ways(v) | Group::Rels(v) => v,
            _ => &[],
        }
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Block {
    pub gran: Option<i32>,
    pub lat_off: Option<i64>,
    pub lon_off: Option<i64>,
    pub date_gran: Option<i32>,
    pub groups: Vec<Group>,
}
impl Block {
    pub fn of(groups: Vec<Group>) -> Block {
        Block { groups, ..Default::default() }
    }
    /// Position of a stored node in nanodegrees.
    pub fn nano(&self, o: &PObj) -> (i128, i128) {
        let g = self.gran.unwrap_or(100) as i128;
        (self.lat_off.unwrap_or(0) as i128 + g * o.lat as i128, self.lon_off.unwrap_or(0) as i128 + g * o.lon as i128)
    }
    pub fn expect(&self) -> Vec<MObj> {
        let mut out = vec![];
        for g in &self.groups {
            for o in g.objs() {
                out.push(self.expect_obj(o));
            }
        }
        out
    }
    pub fn expect_obj(&self, o: &PObj) -> MObj {
        let mut m = MObj::new(o.kind, o.id);
        m.tags = o.tags.clone();
        m.nodes = o.refs.clone();
        m.members = o.members.clone();
        if o.kind == K::N {
            let (a, b) = self.nano(o);
            m.pos = Some(((a / 100) as i32, (b / 100) as i32));
        }
        if let Some(i) = &o.meta {
            m.version = i.version.map(|v| v as u32);
            m.changeset = i.changeset.map(|v| v as u32);
            m.uid = i.uid.map(|v| v as u32);
            m.user = i.user.clone();
            let dg = self.date_gran.unwrap_or(1000) as i64;
            m.ts = i.ts.map(|t| Ts::Epoch(t * dg / 1000));
            m.deleted = i.visible == Some(false);
        }
        m
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Comp {
    Zlib(u32),
    Raw,
    RawSized,
    Lzma,
    Bz2,
    Lz4,
    Zstd,
    NoData,
}
pub const UNK_FRAMEHDR: u32 = 1;
pub const UNK_BLOB: u32 = 2;
pub const UNK_BLOCK: u32 = 4;
pub const UNK_GROUP: u32 = 8;
pub const UNK_OBJ: u32 = 16;
pub const UNK_INFO: u32 = 32;
pub const UNK_ST: u32 = 64;

#[derive(Clone, Debug, PartialEq)]
pub struct Wire {
    pub comp: Comp,
    pub index: Option<usize>,
    pub unknown: u32,
    pub unpacked: bool,
    pub split_packed: bool,
    pub st_rev: bool,
    pub st_unused: usize,
    pub st_dup: bool,
    pub field_rev: bool,
    pub pad_varint: bool,
    pub explicit_defaults: bool,
    /// "" as user or role refers to entry 0
    pub zero_sid: bool,
    /// omit keys_vals if no node of the group has tags
    pub omit_kv: bool,
    pub hdr_rev: bool,
}
impl Default for Wire {
    fn default() -> Self {
        Wire { comp: Comp::Zlib(6), index: None, unknown: 0, unpacked: false, split_packed: false, st_rev: false, st_unused: 0, st_dup: false, field_rev: false, pad_varint: false, explicit_defaults: false, zero_sid: false, omit_kv: false, hdr_rev: false }
    }
}

pub struct PB<'a> {
    pub b: Vec<u8>,
    w: &'a Wire,
}
pub fn zz(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}
impl<'a> PB<'a> {
    pub fn new(w: &'a Wire) -> Self {
        PB { b: vec![], w }
    }
    pub fn varint(&mut self, mut v: u64) {
        let n0 = self.b.len();
        loop {
            let x = (v & 0x7f) as u8;
            v >>= 7;
            if v == 0 {
                self.b.push(x);
                break;
            }
            self.b.push(x | 0x80);
        }
        // a varint may be padded with redundant groups up to 10 bytes
        if self.w.pad_varint && self.b.len() - n0 < 9 {
            let l = self.b.len() - 1;
            self.b[l] |= 0x80;
            self.b.push(0);
        }
    }
    pub fn key(&mut self, f: u32, t: u32) {
        // tags are never padded
        let mut v = (f << 3 | t) as u64;
        loop {
            let x = (v & 0x7f) as u8;
            v >>= 7;
            if v == 0 {
                self.b.push(x);
                break;
            }
            self.b.push(x | 0x80);
        }
    }
    pub fn int(&mut self, f: u32, v: i64) {
        self.key(f, 0);
        self.varint(v as u64);
    }
    pub fn sint(&mut self, f: u32, v: i64) {
        self.key(f, 0);
        self.varint(zz(v));
    }
    pub fn bytes(&mut self, f: u32, v: &[u8]) {
        self.key(f, 2);
        self.varint(v.len() as u64);
        self.b.extend_from_slice(v);
    }
    /// repeated numeric field of raw varints
    pub fn rep(&mut self, f: u32, v: &[u64]) {
        if v.is_empty() {
            return;
        }
        if self.w.unpacked {
            for &x in v {
                self.key(f, 0);
                self.varint(x);
            }
        } else {
            let parts: Vec<&[u64]> = if self.w.split_packed && v.len() > 1 { vec![&v[..1], &v[1..]] } else { vec![v] };
            for p in parts {
                let mut t = PB::new(self.w);
                for &x in p {
                    t.varint(x);
                }
                self.bytes(f, &t.b);
            }
        }
    }
    fn unknown(&mut self, bit: u32) {
        if self.w.unknown & bit != 0 {
            self.int(1000, 12345);
            self.bytes(1001, b"\x00\xff\x08unknown");
            self.key(1002, 5);
            self.b.extend_from_slice(&[1, 2, 3, 4]);
            self.key(1003, 1);
            self.b.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8]);
        }
    }
}

struct St<'a> {
    w: &'a Wire,
    v: Vec<String>,
    map: std::collections::HashMap<String, usize>,
}
impl<'a> St<'a> {
    fn collect(b: &Block, w: &'a Wire) -> St<'a> {
        let mut v: Vec<String> = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut add = |s: &str| {
            if w.st_dup || seen.insert(s.to_string()) {
                v.push(s.to_string());
            }
        };
        for g in &b.groups {
            for o in g.objs() {
                for (k, x) in &o.tags {
                    add(k);
                    add(x);
                }
                if let Some(u) = o.meta.as_ref().and_then(|m| m.user.as_ref()) {
                    add(u);
                }
                for m in &o.members {
                    add(&m.2);
                }
            }
        }
        if w.st_rev {
            v.reverse();
        }
        let mut all = vec![String::new()];
        for i in 0..w.st_unused {
            all.push(format!("u{i}"));
        }
        all.extend(v);
        let mut map = std::collections::HashMap::new();
        for (i, s) in all.iter().enumerate() {
            if i > w.st_unused {
                // with duplicates: the last copy is the one referred to
                map.insert(s.clone(), i);
            }
        }
        St { w, v: all, map }
    }
    fn ix(&self, s: &str) -> u64 {
        self.map[s] as u64
    }
    fn ix0(&self, s: &str) -> u64 {
        if self.w.zero_sid && s.is_empty() { 0 } else { self.ix(s) }
    }
}

fn info(m: &PMeta, st: &St, w: &Wire) -> Vec<u8> {
    let mut p = PB::new(w);
    p.unknown(UNK_INFO);
    if let Some(v) = m.version {
        p.int(1, v as i64);
    }
    if let Some(v) = m.ts {
        p.int(2, v);
    }
    if let Some(v) = m.changeset {
        p.int(3, v);
    }
    if let Some(v) = m.uid {
        p.int(4, v as i64);
    }
    if let Some(v) = &m.user {
        p.int(5, st.ix0(v) as i64);
    }
    if let Some(v) = m.visible {
        p.int(6, v as i64);
    }
    p.b
}
fn deltas(v: impl Iterator<Item = i64>) -> Vec<u64> {
    let mut last = 0i64;
    v.map(|x| {
        let d = x.checked_sub(last).expect("HARNESS: delta not representable");
        last = x;
        zz(d)
    })
    .collect()
}

fn group(g: &Group, st: &St, w: &Wire) -> Vec<u8> {
    let mut p = PB::new(w);
    p.unknown(UNK_GROUP);
    match g {
        Group::Empty => {}
        Group::Changesets(n) => {
            for i in 0..*n {
                let mut c = PB::new(w);
                c.int(1, 77 + i as i64);
                p.bytes(5, &c.b);
            }
        }
        Group::Dense(v) => {
            let mut d = PB::new(w);
            d.unknown(UNK_OBJ);
            d.rep(1, &deltas(v.iter().map(|o| o.id)));
            let metas: Vec<&PMeta> = v.iter().filter_map(|o| o.meta.as_ref()).collect();
            if !metas.is_empty() {
                assert_eq!(metas.len(), v.len(), "HARNESS: mixed dense metadata");
                let mut i = PB::new(w);
                i.unknown(UNK_INFO);
                macro_rules! col {
                    ($f:ident) => {{
                        let n = metas.iter().filter(|m| m.$f.is_some()).count();
                        assert!(n == 0 || n == metas.len(), "HARNESS: mixed dense column");
                        n > 0
                    }};
                }
                if col!(version) {
                    i.rep(1, &metas.iter().map(|m| m.version.unwrap() as i64 as u64).collect::<Vec<_>>());
                }
                if col!(ts) {
                    i.rep(2, &deltas(metas.iter().map(|m| m.ts.unwrap())));
                }
                if col!(changeset) {
                    i.rep(3, &deltas(metas.iter().map(|m| m.changeset.unwrap())));
                }
                if col!(uid) {
                    i.rep(4, &deltas(metas.iter().map(|m| m.uid.unwrap() as i64)));
                }
                if col!(user) {
                    i.rep(5, &deltas(metas.iter().map(|m| st.ix0(m.user.as_ref().unwrap()) as i64)));
                }
                if col!(visible) {
                    i.rep(6, &metas.iter().map(|m| m.visible.unwrap() as u64).collect::<Vec<_>>());
                }
                d.bytes(5, &i.b);
            }
            d.rep(8, &deltas(v.iter().map(|o| o.lat)));
            d.rep(9, &deltas(v.iter().map(|o| o.lon)));
            let any = v.iter().any(|o| !o.tags.is_empty());
            if any || !w.omit_kv {
                let mut kv = vec![];
                for o in v {
                    for (k, x) in &o.tags {
                        kv.push(st.ix(k));
                        kv.push(st.ix(x));
                    }
                    kv.push(0);
                }
                d.rep(10, &kv);
            }
            p.bytes(2, &d.b);
        }
        Group::Nodes(v) | Group::Ways(v) | Group::Rels(v) => {
            for o in v {
                let mut d = PB::new(w);
                if matches!(g, Group::Nodes(_)) {
                    d.sint(1, o.id);
                } else {
                    d.int(1, o.id);
                }
                d.unknown(UNK_OBJ);
                d.rep(2, &o.tags.iter().map(|t| st.ix(&t.0)).collect::<Vec<_>>());
                d.rep(3, &o.tags.iter().map(|t| st.ix(&t.1)).collect::<Vec<_>>());
                if let Some(m) = &o.meta {
                    d.bytes(4, &info(m, st, w));
                }
                match g {
                    Group::Nodes(_) => {
                        d.sint(8, o.lat);
                        d.sint(9, o.lon);
                        p.bytes(1, &d.b);
                    }
                    Group::Ways(_) => {
                        d.rep(8, &deltas(o.refs.iter().copied()));
                        p.bytes(3, &d.b);
                    }
                    _ => {
                        d.rep(8, &o.members.iter().map(|m| st.ix0(&m.2)).collect::<Vec<_>>());
                        d.rep(9, &deltas(o.members.iter().map(|m| m.1)));
                        d.rep(10, &o.members.iter().map(|m| match m.0 { K::N => 0, K::W => 1, K::R => 2 }).collect::<Vec<_>>());
                        p.bytes(4, &d.b);
                    }
                }
            }
        }
    }
    p.b
}

pub fn block_bytes(b: &Block, w: &Wire) -> Vec<u8> {
    let st = St::collect(b, w);
    let mut s = PB::new(w);
    s.unknown(UNK_ST);
    for x in &st.v {
        s.bytes(1, x.as_bytes());
    }
    let mut parts: Vec<Vec<u8>> = vec![];
    let mut p = PB::new(w);
    p.bytes(1, &s.b);
    parts.push(p.b);
    let mut gs = PB::new(w);
    for g in &b.groups {
        gs.bytes(2, &group(g, &st, w));
    }
    parts.push(gs.b);
    let mut p = PB::new(w);
    p.unknown(UNK_BLOCK);
    let d = w.explicit_defaults;
    if let Some(v) = b.gran.or(if d { Some(100) } else { None }) {
        p.int(17, v as i64);
    }
    if let Some(v) = b.date_gran.or(if d { Some(1000) } else { None }) {
        p.int(18, v as i64);
    }
    if let Some(v) = b.lat_off.or(if d { Some(0) } else { None }) {
        p.int(19, v);
    }
    if let Some(v) = b.lon_off.or(if d { Some(0) } else { None }) {
        p.int(20, v);
    }
    parts.push(p.b);
    if w.field_rev {
        parts.reverse();
    }
    parts.concat()
}

pub fn zlib(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

/// One length-prefixed file block.
pub fn frame(ty: &str, payload: &[u8], w: &Wire) -> Vec<u8> {
    let mut b = PB::new(w);
    if w.hdr_rev {
        b.unknown(UNK_BLOB);
    }
    match w.comp {
        Comp::Raw => b.bytes(1, payload),
        Comp::RawSized => {
            b.int(2, payload.len() as i64);
            b.bytes(1, payload);
        }
        Comp::Zlib(l) => {
            let z = zlib(payload, l);
            if w.hdr_rev {
                b.bytes(3, &z);
                b.int(2, payload.len() as i64);
            } else {
                b.int(2, payload.len() as i64);
                b.bytes(3, &z);
            }
        }
        Comp::Lzma | Comp::Bz2 | Comp::Lz4 | Comp::Zstd => {
            b.int(2, payload.len() as i64);
            let f = match w.comp {
                Comp::Lzma => 4,
                Comp::Bz2 => 5,
                Comp::Lz4 => 6,
                _ => 7,
            };
            b.bytes(f, b"\x5d\x00\x00compressed-by-something-else");
        }
        Comp::NoData => b.int(2, payload.len() as i64),
    }
    if !w.hdr_rev {
        b.unknown(UNK_BLOB);
    }
    frame_of_blob(ty, &b.b, w)
}
pub fn frame_of_blob(ty: &str, blob: &[u8], w: &Wire) -> Vec<u8> {
    let mut h = PB::new(w);
    h.unknown(UNK_FRAMEHDR);
    if w.hdr_rev {
        h.int(3, blob.len() as i64);
        if let Some(n) = w.index {
            h.bytes(2, &vec![0xA5; n]);
        }
        h.bytes(1, ty.as_bytes());
    } else {
        h.bytes(1, ty.as_bytes());
        if let Some(n) = w.index {
            h.bytes(2, &vec![0xA5; n]);
        }
        h.int(3, blob.len() as i64);
    }
    let mut out = (h.b.len() as u32).to_be_bytes().to_vec();
    out.extend_from_slice(&h.b);
    out.extend_from_slice(blob);
    out
}
pub fn data_frame(b: &Block, w: &Wire) -> Vec<u8> {
    frame("OSMData", &block_bytes(b, w), w)
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hdr {
    Minimal,
    Full,
    Sorted,
}
pub fn header_frame(h: Hdr, w: &Wire) -> Vec<u8> {
    let mut p = PB::new(w);
    if h == Hdr::Full {
        let mut bb = PB::new(w);
        bb.sint(1, -180_000_000_000);
        bb.sint(2, 180_000_000_000);
        bb.sint(3, 90_000_000_000);
        bb.sint(4, -90_000_000_000);
        p.bytes(1, &bb.b);
    }
    p.bytes(4, b"OsmSchema-V0.6");
    p.bytes(4, b"DenseNodes");
    if h != Hdr::Minimal {
        p.bytes(4, b"HistoricalInformation");
        p.bytes(5, b"Sort.Type_then_ID");
    }
    if h == Hdr::Full {
        p.bytes(16, b"verif");
        p.bytes(17, b"nowhere");
        p.int(32, 1_700_000_000);
        p.int(33, 4711);
        p.bytes(34, b"http://localhost/");
    }
    frame("OSMHeader", &p.b, w)
}
/// Plain file: minimal header and the blocks, default packaging.
pub fn file(blocks: &[Block]) -> Vec<u8> {
    file_w(blocks, &Wire::default())
}
pub fn file_w(blocks: &[Block], w: &Wire) -> Vec<u8> {
    let mut out = header_frame(Hdr::Minimal, &Wire::default());
    for b in blocks {
        out.extend(data_frame(b, w));
    }
    out
}
pub fn expect_all(blocks: &[Block]) -> Vec<MObj> {
    blocks.iter().flat_map(|b| b.expect()).collect()
}

/// Objects in file order, split into groups (consecutive objects of one kind) of dense nodes, ways and relations.
pub fn groups_of(objs: &[PObj]) -> Vec<Group> {
    let mut out: Vec<Group> = vec![];
    for o in objs {
        match (out.last_mut(), o.kind) {
            (Some(Group::Dense(v)), K::N) | (Some(Group::Ways(v)), K::W) | (Some(Group::Rels(v)), K::R) => v.push(o.clone()),
            _ => out.push(one_group(vec![o.clone()])),
        }
    }
    out
}
pub fn one_group(v: Vec<PObj>) -> Group {
    match v[0].kind {
        K::N => Group::Dense(v),
        K::W => Group::Ways(v),
        K::R => Group::Rels(v),
    }
}
