//! C01-C04, C06: decoding PBF streams.
use crate::engine::*;
use crate::model::*;
use crate::pbfenc::*;
use crate::rd::*;

pub const IDS: &[i64] = &[1, 0, -1, 2, 63, 64, 127, 128, -64, -65, 8191, 8192, 1 << 31, (1 << 31) - 1, -(1 << 31), (1 << 32) + 7, 1 << 53, (1 << 53) + 1, (1 << 61) + 3, -(1 << 61) - 9, 1 << 40];
pub const TEXTS: &[&str] = &["a", "", "b", "name", "Straße", "日本語テキスト", "😀", "a b", "=", "\"", "\\", "x\ny", "0123456789012345678901", "01234567890123456789012", "012345678901234567890123", "no"];

fn all_readers(bytes: &[u8]) -> Vec<(Rk, Run)> {
    PBFS.iter().map(|&k| (k, read_all(k, bytes))).collect()
}
fn note_file(cx: &mut Cx, blocks: &[Block], w: &Wire) {
    cx.note(|| format!("wire {w:?}\nblocks {blocks:#?}"));
}
pub fn hexs(b: &[u8]) -> String {
    b.iter().take(4000).map(|x| format!("{x:02x}")).collect()
}

/// Both readers deliver `want` under projection `f`.
fn check_proj(cx: &mut Cx, blocks: &[Block], w: &Wire, f: fn(&MObj) -> MObj) -> Res {
    let bytes = file_w(blocks, w);
    check_bytes(cx, &bytes, &expect_all(blocks), f, || format!("{blocks:?} {w:?}"))
}
fn check_bytes(cx: &mut Cx, bytes: &[u8], want: &[MObj], f: fn(&MObj) -> MObj, desc: impl Fn() -> String) -> Res {
    let want: Vec<MObj> = want.iter().map(f).collect();
    for (k, r) in all_readers(bytes) {
        cx.steps(r.objs.len() + 1);
        let got: Vec<MObj> = r.objs.iter().map(f).collect();
        cx.state(&got);
        if let End::Fail(e) = &r.end {
            cx.note(|| format!("file {}", hexs(bytes)));
            return Err(format!("{k:?} reader failed on a valid file after {} objects: {e}; file: {}", got.len(), trunc(desc())).into());
        }
        if let Some(d) = diff(&got, &want) {
            cx.note(|| format!("file {}", hexs(bytes)));
            return Err(format!("{k:?} reader: {d}; file: {}", trunc(desc())).into());
        }
    }
    Ok(())
}
fn trunc(s: String) -> String {
    if s.len() > 3000 { s.chars().take(3000).collect::<String>() + ".." } else { s }
}
fn content(m: &MObj) -> MObj {
    m.content()
}
fn meta_only(m: &MObj) -> MObj {
    MObj { tags: vec![], pos: None, nodes: vec![], members: vec![], ..m.clone() }
}
pub fn whole(m: &MObj) -> MObj {
    m.clone()
}

pub struct IdGen(i64);
impl IdGen {
    pub fn new() -> Self {
        IdGen(0)
    }
    /// Object whose contents depend on its running number.
    pub fn obj(&mut self, k: K) -> PObj {
        self.0 += 1;
        let n = self.0;
        let mut o = PObj::full(k, n * 7 - 3);
        let nt = [1, 0, 2, 3, 0][(n % 5) as usize];
        o.tags = (0..nt).map(|i| (format!("k{i}"), format!("v{n}_{i}"))).collect();
        o
    }
    pub fn objs(&mut self, k: K, n: usize) -> Vec<PObj> {
        (0..n).map(|_| self.obj(k)).collect()
    }
}

/// The group alphabet of the arrangement exploration.
pub fn group_of(ch: &mut Ch, g: &mut IdGen, wide: bool) -> Group {
    let n = if wide { 13 } else { 8 };
    match ch.pick(n) {
        0 => Group::Dense(g.objs(K::N, 1)),
        1 => Group::Ways(g.objs(K::W, 1)),
        2 => Group::Rels(g.objs(K::R, 1)),
        3 => Group::Dense(g.objs(K::N, 3)),
        4 => Group::Ways(g.objs(K::W, 2)),
        5 => Group::Nodes(g.objs(K::N, 2)),
        6 => Group::Empty,
        7 => Group::Dense(vec![]),
        8 => Group::Rels(g.objs(K::R, 2)),
        9 => Group::Nodes(g.objs(K::N, 1)),
        10 => Group::Dense(g.objs(K::N, 2)),
        11 => Group::Changesets(2),
        _ => Group::Ways(g.objs(K::W, 3)),
    }
}
pub fn layout(ch: &mut Ch, max_blocks: usize, max_groups: usize, wide: bool) -> Vec<Block> {
    let mut g = IdGen::new();
    let nb = ch.pick(max_blocks + 1);
    (0..nb)
        .map(|_| {
            let ng = ch.pick(max_groups + 1);
            Block::of((0..ng).map(|_| group_of(ch, &mut g, wide)).collect())
        })
        .collect()
}
pub fn sizes(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=70).collect();
    v.extend([99, 100, 101, 126, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 399, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1999, 2000, 2001, 2047, 2048, 2049, 4095, 4096, 4097, 7999, 8000, 8001, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 20000]);
    if thorough {
        v.extend(71..2500);
        v.extend([32767, 32768, 32769, 40000, 50000, 65535, 65536, 65537, 100000, 131072]);
        v.sort();
        v.dedup();
    }
    v
}

/// A one-object group of the kind (nodes: dense or plain).
fn group_kind(ch: &mut Ch, v: impl Fn(K) -> Vec<PObj>) -> Group {
    match ch.pick(4) {
        0 => Group::Dense(v(K::N)),
        1 => Group::Ways(v(K::W)),
        2 => Group::Rels(v(K::R)),
        _ => Group::Nodes(v(K::N)),
    }
}

pub fn c01(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let f = content as fn(&MObj) -> MObj;
    v.push(sc("arrange-2x2", 0, move |ch, cx| {
        let b = layout(ch, 2, 2, true);
        note_file(cx, &b, &Wire::default());
        check_proj(cx, &b, &Wire::default(), f)
    }));
    v.push(sc("arrange-1x4", 0, move |ch, cx| {
        let b = layout(ch, 1, 4, thorough);
        note_file(cx, &b, &Wire::default());
        check_proj(cx, &b, &Wire::default(), f)
    }));
    v.push(sc("arrange-4x1", 0, move |ch, cx| {
        let b = layout(ch, 4, 1, thorough);
        note_file(cx, &b, &Wire::default());
        check_proj(cx, &b, &Wire::default(), f)
    }));
    if thorough {
        v.push(sc("arrange-3x2", 0, move |ch, cx| {
            let b = layout(ch, 3, 2, false);
            check_proj(cx, &b, &Wire::default(), f)
        }));
        v.push(sc("arrange-2x3", 0, move |ch, cx| {
            let b = layout(ch, 2, 3, false);
            check_proj(cx, &b, &Wire::default(), f)
        }));
    }
    // every assignment of tag counts to the nodes of a dense group (key/value cursor)
    let tn = if thorough { 7 } else { 5 };
    v.push(sc("tag-counts", 0, move |ch, cx| {
        let n = ch.pick(tn) + 1;
        let omit = ch.flag();
        let two = ch.flag();
        let counts: Vec<usize> = (0..n).map(|_| ch.pick(4)).collect();
        let plain = ch.pick(4);
        let mk = |k: K, base: i64| -> Vec<PObj> {
            counts
                .iter()
                .enumerate()
                .map(|(i, c)| {
                    let mut o = PObj::full(k, base + i as i64);
                    o.tags = (0..*c).map(|j| (format!("k{j}"), format!("v{i}.{j}"))).collect();
                    o
                })
                .collect()
        };
        let k = [K::N, K::N, K::W, K::R][plain];
        let wrap = |v: Vec<PObj>| match plain {
            0 => Group::Dense(v),
            1 => Group::Nodes(v),
            2 => Group::Ways(v),
            _ => Group::Rels(v),
        };
        let mut groups = vec![wrap(mk(k, 10))];
        if two {
            groups.push(wrap(mk(k, 100)));
        }
        let w = Wire { omit_kv: omit, ..Wire::default() };
        check_proj(cx, &[Block::of(groups)], &w, f)
    }));
    // ids: all triples of boundary values
    v.push(sc("id-triples", 0, move |ch, cx| {
        let n = if thorough { 3 } else { 2 };
        let pre = ch.pick(2);
        let ids: Vec<i64> = (0..n + pre).map(|i| if i < pre { 5 } else { *ch.of(IDS) }).collect();
        let g = group_kind(ch, |k| ids.iter().map(|&i| PObj { id: i, ..PObj::full(k, 1) }).collect());
        check_proj(cx, &[Block::of(vec![g])], &Wire::default(), f)
    }));
    v.push(sc("ref-triples", 0, move |ch, cx| {
        let n = ch.pick(if thorough { 5 } else { 4 });
        let refs: Vec<i64> = (0..n).map(|_| *ch.of(if n >= 3 { &IDS[..if n > 3 { 8 } else { 14 }] } else { IDS })).collect();
        let rel = ch.flag();
        let mut o = PObj::full(if rel { K::R } else { K::W }, 3);
        if rel {
            o.members = refs.iter().enumerate().map(|(i, r)| ([K::R, K::N, K::W][i % 3], *r, format!("r{i}"))).collect();
        } else {
            o.refs = refs;
        }
        // a second object shows whether the state restarts
        let o2 = PObj::full(o.kind, 9);
        check_proj(cx, &[Block::of(vec![one_group(vec![o, o2])])], &Wire::default(), f)
    }));
    v.push(sc("members", 0, move |ch, cx| {
        let n = ch.pick(if thorough { 4 } else { 3 });
        let mut o = PObj::full(K::R, 3);
        let ids: &[i64] = if n > 2 { &[1, -7] } else { &[1, -7, 1 << 40] };
        let roles: &[&str] = if n > 2 { &["", "x", "01234567890123456789012345"] } else { &["", "outer", "inner", "役割", "01234567890123456789012345"] };
        o.members = (0..n).map(|_| (*ch.of(&KINDS), *ch.of(ids), ch.of(roles).to_string())).collect();
        let zero = ch.flag();
        let o2 = PObj::full(K::R, 9);
        check_proj(cx, &[Block::of(vec![Group::Rels(vec![o, o2])])], &Wire { zero_sid: zero, ..Wire::default() }, f)
    }));
    // tag texts
    v.push(sc("tag-texts", 0, move |ch, cx| {
        let n = 1 + ch.pick(2);
        let mut tags: Vec<(String, String)> = vec![];
        for i in 0..n {
            let (a, b) = (*ch.of(if i == 0 { TEXTS } else { &TEXTS[..5] }), *ch.of(if i == 0 { TEXTS } else { &TEXTS[..5] }));
            let mut k = a.to_string();
            if tags.iter().any(|t| t.0 == k) {
                k.push_str(&format!("#{i}"));
            }
            tags.push((k, b.to_string()));
        }
        let g = group_kind(ch, |k| vec![PObj { tags: tags.clone(), ..PObj::full(k, 1) }, PObj::full(k, 2)]);
        check_proj(cx, &[Block::of(vec![g])], &Wire::default(), f)
    }));
    v.push(sc("words", 0, move |ch, cx| {
        let objs: Vec<PObj> = word_objs(ch.of(WORDS), ch.of(WVALS)).iter().map(PObj::of).collect();
        let b = if ch.flag() {
            Block::of(groups_of(&objs))
        } else {
            Block::of(objs.chunk_by(|a, b| a.kind == b.kind).map(|c| if c[0].kind == K::N { Group::Nodes(c.to_vec()) } else { one_group(c.to_vec()) }).collect())
        };
        check_proj(cx, &[b], &Wire::default(), f)
    }));
    // size sweeps
    let sz = sizes(thorough);
    v.push(sc("sizes", 0, move |ch, cx| {
        let what = ch.pick(13);
        let n = *ch.of(&sz);
        let big = if thorough { 140_000 } else { 20_000 };
        let lim = [big, big, big, big, 10_001, 10_001, 10_001, 10_001, big, big, 2001, 2001, 2001][what];
        let n = if (8..=9).contains(&what) && n == 20_000 { *ch.of(&[20_000usize, 32_767, 32_768, 40_000, 65_535, 65_536, 70_000]) } else { n.min(lim) };
        let mut g = IdGen::new();
        let kinds = [K::N, K::N, K::W, K::R];
        let wrap = |i: usize, v: Vec<PObj>| match i {
            0 => Group::Dense(v),
            1 => Group::Nodes(v),
            2 => Group::Ways(v),
            _ => Group::Rels(v),
        };
        let blocks = match what {
            0..=3 => vec![Block::of(vec![wrap(what, g.objs(kinds[what], n))])],
            4..=7 => {
                let i = what - 4;
                let mut o = g.objs(kinds[i], 3);
                o[1].tags = (0..n).map(|j| (format!("key{j}"), format!("value {}", j * 3))).collect();
                vec![Block::of(vec![wrap(i, o)])]
            }
            8 => {
                let mut o = g.objs(K::W, 3);
                o[1].refs = (0..n as i64).map(|i| (i * i) % 1009 - 300).collect();
                vec![Block::of(vec![Group::Ways(o)])]
            }
            9 => {
                let mut o = g.objs(K::R, 3);
                o[1].members = (0..n as i64).map(|i| (KINDS[(i % 3) as usize], (i * i) % 1009 - 300, format!("r{}", i % 17))).collect();
                vec![Block::of(vec![Group::Rels(o)])]
            }
            10 => (0..n).map(|i| Block::of(vec![one_group(vec![g.obj(KINDS[i % 3])])])).collect(),
            11 => vec![Block::of((0..n).map(|i| one_group(vec![g.obj(KINDS[i % 3])])).collect())],
            // n empty or foreign blocks before the one that matters
            _ => {
                let mut v: Vec<Block> = (0..n).map(|_| Block::of(vec![])).collect();
                v.push(Block::of(vec![Group::Dense(g.objs(K::N, 2))]));
                v
            }
        };
        check_proj(cx, &blocks, &Wire::default(), f)
    }));
    v.push(sc("huge", 0, move |ch, cx| {
        // more of everything than 16 bits count
        let n = *ch.of::<usize>(if thorough { &[65_536, 65_537, 70_000, 140_000, 300_000] } else { &[70_000, 140_000] });
        let mut g = IdGen::new();
        let small = |g: &mut IdGen, k: K, n: usize| -> Vec<PObj> {
            let mut v = g.objs(k, n);
            for o in &mut v {
                o.meta = None;
                o.refs.truncate(1);
                o.members.truncate(1);
                o.tags.truncate(1);
            }
            v
        };
        let blocks = match ch.pick(8) {
            0 => vec![Block::of(vec![Group::Dense(small(&mut g, K::N, n))])],
            1 => vec![Block::of(vec![Group::Nodes(small(&mut g, K::N, n))])],
            2 => vec![Block::of(vec![Group::Ways(small(&mut g, K::W, n))])],
            3 => vec![Block::of(vec![Group::Rels(small(&mut g, K::R, n))])],
            4 => (0..n).map(|i| Block::of(vec![one_group(small(&mut g, KINDS[i % 3], 1))])).collect(),
            5 => vec![Block::of((0..n).map(|i| one_group(small(&mut g, KINDS[i % 3], 1))).collect())],
            6 => {
                let mut v: Vec<Block> = (0..n).map(|_| Block::of(vec![])).collect();
                v.push(Block::of(vec![Group::Dense(g.objs(K::N, 2))]));
                v
            }
            _ => {
                let mut v: Vec<Group> = (0..n).map(|_| Group::Empty).collect();
                v.push(Group::Dense(g.objs(K::N, 2)));
                vec![Block::of(v)]
            }
        };
        check_proj(cx, &blocks, &Wire::default(), f)
    }));
    let mut lens: Vec<usize> = (0..=300).collect();
    lens.extend([511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 65535, 65536, 65537, 1 << 20]);
    v.push(sc("text-lengths", 0, move |ch, cx| {
        let n = *ch.of(&lens);
        let place = ch.pick(3);
        let wide = ch.flag();
        let s: String = if wide { "é".repeat(n / 2) + if n % 2 == 1 { "x" } else { "" } } else { (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect() };
        let g = group_kind(ch, |k| {
            let mut o = PObj::full(k, 1);
            match place {
                0 => o.tags = vec![(s.clone(), "v".into()), ("second".into(), "w".into())],
                1 => o.tags = vec![("k".into(), s.clone()), ("second".into(), s.clone())],
                _ => {
                    if k == K::R {
                        o.members = vec![(K::N, 1, s.clone()), (K::W, 2, "z".into())]
                    } else {
                        o.tags = vec![(s.clone() + "1", s.clone()), ("second".into(), "w".into())]
                    }
                }
            }
            vec![o, PObj::full(k, 2)]
        });
        check_proj(cx, &[Block::of(vec![g])], &Wire::default(), f)
    }));
    // every Unicode scalar value as a tag key and value
    v.push(sc("unicode", 0, move |ch, cx| {
        let page = ch.pick(0x110000 / 1024);
        let g = group_kind(ch, |k| {
            let mut v = vec![];
            for sub in 0..2u32 {
                let mut o = PObj::full(k, 1 + sub as i64);
                o.tags = (0..512u32)
                    .filter_map(|i| char::from_u32(page as u32 * 1024 + sub * 512 + i))
                    .map(|c| (format!("k{c}"), format!("{c}")))
                    .collect();
                v.push(o);
            }
            v
        });
        check_proj(cx, &[Block::of(vec![g])], &Wire::default(), f)
    }));
    // string table index sizes
    v.push(sc("table-index", 0, move |ch, cx| {
        let un = *ch.of(&[0usize, 1, 62, 63, 64, 124, 125, 126, 127, 128, 8190, 8191, 8192, 16380, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 70000]);
        let g = group_kind(ch, |k| vec![PObj { tags: vec![("a".into(), "b".into()), ("b".into(), "a".into())], ..PObj::full(k, 1) }, PObj::full(k, 2)]);
        check_proj(cx, &[Block::of(vec![g])], &Wire { st_unused: un, ..Wire::default() }, f)
    }));
    v
}

fn c02_check(cx: &mut Cx, b: &Block) -> Res {
    let bytes = file(std::slice::from_ref(b));
    let objs: Vec<&PObj> = b.groups.iter().flat_map(|g| g.objs()).filter(|o| o.kind == K::N).collect();
    let test = |who: &str, got: &[(i64, Option<(i32, i32)>)], end: &End| -> Result<(), String> {
        if let End::Fail(e) = end {
            return Err(format!("{who} failed: {e}; block {b:?}"));
        }
        if got.len() != objs.len() {
            return Err(format!("{who} delivered {} nodes of {}; block {b:?}", got.len(), objs.len()));
        }
        for (g, o) in got.iter().zip(&objs) {
            let (a, c) = b.nano(o);
            let Some((x, y)) = g.1 else { return Err(format!("{who}: node without position; block {b:?}")) };
            for (what, unit, nano) in [("lat", x, a), ("lon", y, c)] {
                let d = unit as i128 * 100 - nano;
                if (nano % 100 == 0 && d != 0) || d.abs() >= 100 {
                    return Err(format!("{who}: node {} {what} is {unit} units, stored position is {nano} nanodegrees; block {b:?}", g.0));
                }
            }
        }
        Ok(())
    };
    for (k, r) in all_readers(&bytes) {
        let got: Vec<_> = r.objs.iter().filter(|o| o.kind == K::N).map(|o| (o.id, o.pos)).collect();
        cx.steps(got.len());
        cx.state(&got);
        test(&format!("{k:?} reader"), &got, &r.end)?;
    }
    let r = read_pos(bytes.as_slice());
    cx.steps(r.objs.len());
    let got: Vec<_> = r.objs.iter().map(|o| (o.0, Some(o.1))).collect();
    test("position reader", &got, &r.end)?;
    Ok(())
}
fn units_to_raw(u: i128, gran: i128, off: i128) -> i64 {
    ((u * 100 - off).div_euclid(gran)) as i64
}
pub fn c02(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let grans: &'static [i32] = &[100, 1, 2, 3, 7, 10, 25, 50, 99, 101, 150, 200, 250, 1000, 10_000, 12_345, 1_000_000, 10_000_000, 100_000_000, 1_000_000_000, i32::MAX];
    let offs: &'static [i64] = &[0, 1, -1, 50, -50, 99, -99, 100, -100, 101, -101, 150, -250, 1_000_000_000, -1_000_000_000, 90_000_000_000, -180_000_000_000, 2_147_483_648 * 100 - 100, -214_748_364_800, 4_294_967_296, -3_000_000_001];
    let units: &'static [i64] = &[0, 1, -1, 515_000_000, -899_999_999, 900_000_000, 1_800_000_000, -1_800_000_000, i32::MAX as i64, i32::MIN as i64, 20_000_001, -3];
    let nu = if thorough { units.len() } else { 10 };
    v.push(sc("granularity-offset", 0, move |ch, cx| {
        let g = *ch.of(grans);
        let lo = *ch.of(offs);
        let oi = ch.pick(if thorough { offs.len() } else { 5 });
        let oo = if thorough { offs[oi] } else { [0i64, 70, -1_000_000_000, 3, -12_345_678_900][oi] };
        let (u1, u2) = (units[ch.pick(nu)], units[ch.pick(nu)]);
        let plain = ch.flag();
        let mut b = Block { gran: Some(g), lat_off: Some(lo), lon_off: Some(oo), ..Default::default() };
        let mut objs = vec![];
        for (i, (la, lo_u)) in [(u1, u2), (u2, u1), (u1, u1)].iter().enumerate() {
            let mut o = PObj::full(K::N, i as i64 + 1);
            o.lat = units_to_raw(*la as i128, g as i128, lo as i128);
            o.lon = units_to_raw(*lo_u as i128, g as i128, oo as i128);
            objs.push(o);
        }
        // only positions that a coordinate can hold
        for o in &mut objs {
            let fits = |n: i128| n / 100 >= i32::MIN as i128 && n / 100 <= i32::MAX as i128 && n >= i32::MIN as i128 * 100;
            let (a, c) = b.nano(o);
            if !fits(a) {
                o.lat += 1;
            }
            if !fits(c) {
                o.lon += 1;
            }
            let (a, c) = b.nano(o);
            if !fits(a) || !fits(c) {
                return Ok(());
            }
        }
        b.groups = vec![if plain { Group::Nodes(objs) } else { Group::Dense(objs) }];
        c02_check(cx, &b)
    }));
    // neighbourhoods: consecutive raw values under every small granularity
    v.push(sc("neighbours", 0, move |ch, cx| {
        let g = 1 + ch.pick(if thorough { 1000 } else { 260 }) as i32;
        let lo = *ch.of(&[0i64, 1, 37, -37, 99, 100, -150, 7_000_000_049]);
        let plain = ch.flag();
        let mut b = Block { gran: Some(g), lat_off: Some(lo), lon_off: Some(-lo), ..Default::default() };
        let objs: Vec<PObj> = (-60..60).map(|i| PObj { lat: i * 3, lon: 515_000_000 * 100 / g as i64 + i, ..PObj::full(K::N, i) }).collect();
        b.groups = vec![if plain { Group::Nodes(objs) } else { Group::Dense(objs) }];
        c02_check(cx, &b)
    }));
    // default granularity: triples of boundary raw values
    let mut raws: Vec<i64> = vec![0, 1, -1, i32::MAX as i64, i32::MIN as i64, 900_000_000, -900_000_000, 1_800_000_000, -1_800_000_000];
    for k in [6, 7, 13, 14, 20, 21, 27, 28, 30] {
        raws.push(1 << k);
        raws.push(-(1 << k) - 1);
        if thorough {
            raws.push((1 << k) - 1);
            raws.push(-(1 << k));
        }
    }
    v.push(sc("raw-triples", 0, move |ch, cx| {
        let vals: Vec<i64> = (0..3).map(|_| *ch.of(&raws)).collect();
        let n = 1 + ch.pick(2);
        let objs = |base: i64| -> Vec<PObj> { (0..3).map(|i| PObj { lat: vals[i], lon: vals[2 - i], ..PObj::full(K::N, base + i as i64) }).collect() };
        // second group: the accumulators restart
        let groups = (0..n).map(|i| Group::Dense(objs(10 * i as i64))).collect();
        c02_check(cx, &Block::of(groups))
    }));
    v.push(sc("block-parameters-do-not-leak", 0, move |ch, cx| {
        let mut blocks = vec![];
        for i in 0..2 {
            let g = *ch.of(&[None, Some(100), Some(1000), Some(50)]);
            let lo = *ch.of(&[None, Some(0i64), Some(1_000_000_000), Some(-300)]);
            let oo = *ch.of(&[None, Some(500i64), Some(-1_000_000_000)]);
            let o = PObj { lat: 1234567, lon: -7654320, ..PObj::full(K::N, i) };
            let o2 = PObj { lat: 1234560, lon: -7654321, ..PObj::full(K::N, i + 10) };
            blocks.push(Block { gran: g, lat_off: lo, lon_off: oo, groups: vec![Group::Dense(vec![o, o2])], ..Default::default() });
        }
        let bytes = file(&blocks);
        let want: Vec<_> = blocks.iter().flat_map(|b| b.groups[0].objs().iter().map(move |o| b.nano(o))).collect();
        let test = |who: &str, got: Vec<Option<(i32, i32)>>, end: &End| -> Res {
            let ok = *end == End::Clean && got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.is_some_and(|g| (g.0 as i128 * 100 - w.0).abs() < 100 && (g.1 as i128 * 100 - w.1).abs() < 100 && (w.0 % 100 != 0 || g.0 as i128 * 100 == w.0) && (w.1 % 100 != 0 || g.1 as i128 * 100 == w.1)));
            if ok { Ok(()) } else { Err(format!("{who}: positions {got:?} end {end:?}, stored nanodegrees {want:?}; blocks {blocks:?}").into()) }
        };
        for (k, r) in all_readers(&bytes) {
            cx.steps(r.objs.len());
            let got: Vec<_> = r.objs.iter().map(|o| o.pos).collect();
            cx.state(&got);
            test(&format!("{k:?} reader"), got, &r.end)?;
        }
        let r = read_pos(bytes.as_slice());
        test("position reader", r.objs.iter().map(|o| Some(o.1)).collect(), &r.end)
    }));
    v
}

pub fn c03(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let f = meta_only as fn(&MObj) -> MObj;
    let vers: &'static [i32] = &[1, 0, 2, 127, 128, 16383, 16384, 65535, 65536, i32::MAX - 1, i32::MAX];
    let tss: &'static [i64] = &[0, 1, -1, 1_300_000_000, i32::MAX as i64, 1 << 31, (1 << 32) - 1, 1 << 32, -(1 << 31), -(1 << 31) - 1, 4_102_444_800, 253_402_300_799, -62_167_219_200, 1_000_000];
    let css: &'static [i64] = &[0, 1, 127, 128, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 77];
    let uids: &'static [i32] = &[0, 1, 127, 128, 1 << 20, i32::MAX - 1, i32::MAX, 9];
    let users: &'static [&str] = &["", "a", "b", "user name", "Ünï", "😀😀", "0123456789012345678901", "01234567890123456789012", "012345678901234567890123", "a\tb\n<&>\"'"];
    let n = if thorough { 3 } else { 2 };
    v.push(sc("field-sequences", 0, move |ch, cx| {
        let field = ch.pick(6);
        let two_groups = ch.flag();
        let metas: Vec<PMeta> = (0..n)
            .map(|_| {
                let mut m = PObj::full(K::N, 5).meta.unwrap();
                match field {
                    0 => m.version = Some(*ch.of(vers)),
                    1 => m.ts = Some(*ch.of(tss)),
                    2 => m.changeset = Some(*ch.of(css)),
                    3 => m.uid = Some(*ch.of(uids)),
                    4 => m.user = Some(ch.of(users).to_string()),
                    _ => m.visible = Some(ch.flag()),
                }
                m
            })
            .collect();
        let zero = field == 4 && ch.flag();
        let g = group_kind(ch, |k| metas.iter().enumerate().map(|(i, m)| PObj { meta: Some(m.clone()), ..PObj::full(k, i as i64 + 1) }).collect());
        let blocks = if two_groups { vec![Block::of(vec![g.clone(), g])] } else { vec![Block::of(vec![g])] };
        check_proj(cx, &blocks, &Wire { zero_sid: zero, ..Wire::default() }, f)
    }));
    // all fields moving together
    v.push(sc("all-fields-move", 0, move |ch, cx| {
        let s: Vec<usize> = (0..3).map(|_| ch.pick(8)).collect();
        let g = group_kind(ch, |k| {
            s.iter()
                .enumerate()
                .map(|(i, &x)| {
                    let m = PMeta { version: Some(vers[x % vers.len()]), ts: Some(tss[(x * 3 + 1) % tss.len()]), changeset: Some(css[(x * 5 + 2) % css.len()]), uid: Some(uids[(x * 7 + 3) % uids.len()]), user: Some(users[x].into()), visible: Some(x % 2 == 0) };
                    PObj { meta: Some(m), ..PObj::full(k, i as i64 + 1) }
                })
                .collect()
        });
        check_proj(cx, &[Block::of(vec![g])], &Wire::default(), f)
    }));
    // a few values of all fields in any combination
    v.push(sc("combinations", 0, move |ch, cx| {
        let m = PMeta {
            version: *ch.of(&[None, Some(0), Some(1), Some(7)]),
            ts: *ch.of(&[None, Some(0), Some(1_300_000_000)]),
            changeset: *ch.of(&[None, Some(0), Some(5)]),
            uid: *ch.of(&[None, Some(0), Some(3)]),
            user: ch.of(&[None, Some(""), Some("u")]).map(|u| u.into()),
            visible: *ch.of(&[None, Some(true), Some(false)]),
        };
        let tagged = ch.flag();
        let first = ch.flag();
        let g = group_kind(ch, |k| {
            let mut o = PObj { meta: Some(m.clone()), ..PObj::full(k, 2) };
            if !tagged {
                o.tags.clear();
            }
            // in a dense group all objects have the same columns
            let mut n = o.clone();
            n.id = 3;
            let full = PObj::full(k, 4).meta.unwrap();
            n.meta = Some(PMeta {
                version: m.version.and(full.version),
                ts: m.ts.and(full.ts),
                changeset: m.changeset.and(full.changeset),
                uid: m.uid.and(full.uid),
                user: m.user.as_ref().and(full.user),
                visible: m.visible.and(full.visible),
            });
            if first { vec![o, n] } else { vec![n, o] }
        });
        check_proj(cx, &[Block::of(vec![g])], &Wire::default(), whole)
    }));
    // every subset of omitted metadata
    v.push(sc("omitted", 0, move |ch, cx| {
        fn mask(m: usize, i: i64) -> Option<PMeta> {
            if m == 64 {
                return None;
            }
            let f = PObj::full(K::N, i).meta.unwrap();
            Some(PMeta {
                version: f.version.filter(|_| m & 1 == 0),
                ts: f.ts.filter(|_| m & 2 == 0),
                changeset: f.changeset.filter(|_| m & 4 == 0),
                uid: f.uid.filter(|_| m & 8 == 0),
                user: f.user.filter(|_| m & 16 == 0),
                visible: if m & 32 == 0 { Some(i % 2 == 0) } else { None },
            })
        }
        let kind = ch.pick(4);
        let m1 = ch.pick(65);
        // in a dense group omission is per column
        let m2 = if kind == 0 { m1 } else { ch.pick(65) };
        let after = ch.pick(2);
        let k = [K::N, K::W, K::R, K::N][kind];
        let v = vec![PObj { meta: mask(m1, 3), ..PObj::full(k, 1) }, PObj { meta: mask(m2, 4), ..PObj::full(k, 2) }, PObj { meta: mask(m1, 5), ..PObj::full(k, 3) }];
        let g = match kind {
            0 => Group::Dense(v),
            1 => Group::Ways(v),
            2 => Group::Rels(v),
            _ => Group::Nodes(v),
        };
        let mut groups = vec![g];
        if after == 1 {
            groups.push(Group::Dense(vec![PObj::full(K::N, 8)]));
        }
        check_proj(cx, &[Block::of(groups)], &Wire::default(), f)
    }));
    v.push(sc("visible-patterns", 0, move |ch, cx| {
        let n = 1 + ch.pick(if thorough { 8 } else { 5 });
        let vis: Vec<bool> = (0..n).map(|_| ch.flag()).collect();
        let g = group_kind(ch, |k| {
            vis.iter()
                .enumerate()
                .map(|(i, &x)| {
                    let mut o = PObj::full(k, i as i64 + 1);
                    o.meta.as_mut().unwrap().visible = Some(x);
                    o
                })
                .collect()
        });
        check_proj(cx, &[Block::of(vec![g])], &Wire::default(), f)
    }));
    v.push(sc("date-granularity", 0, move |ch, cx| {
        let dg = *ch.of(&[None, Some(1000), Some(1), Some(10), Some(100), Some(250), Some(500), Some(999), Some(1001), Some(1500), Some(2000), Some(60_000), Some(3_600_000), Some(86_400_000), Some(i32::MAX)]);
        let d = dg.unwrap_or(1000) as i64;
        let secs: Vec<i64> = (0..2).map(|_| *ch.of(&[0i64, 86_400, 1_300_000_020, 2_147_483_640, 4_102_444_800, 253_402_300_740, 7_000_020])).collect();
        // stored counts whose instant is a whole number of seconds or lies above one
        let extra = ch.pick(3) as i64;
        let g = group_kind(ch, |k| {
            secs.iter()
                .enumerate()
                .map(|(i, &s)| {
                    let mut o = PObj::full(k, i as i64 + 1);
                    o.meta.as_mut().unwrap().ts = Some(s * 1000 / d + extra);
                    o
                })
                .collect()
        });
        let two = ch.flag();
        let b = Block { date_gran: dg, groups: vec![g.clone()], ..Default::default() };
        let blocks = if two { vec![b, Block::of(vec![g])] } else { vec![b] };
        check_proj(cx, &blocks, &Wire::default(), f)
    }));
    v.push(sc("long-groups", 0, move |ch, cx| {
        let n = *ch.of(&[10usize, 100, 1000, 8000, 20000]);
        let g = group_kind(ch, |k| {
            (0..n as i64)
                .map(|i| {
                    let m = PMeta { version: Some((i % 300) as i32 + 1), ts: Some(1_000_000_000 + (i * i) % 1_000_003), changeset: Some((i * 7919) % 4_000_000_000), uid: Some(((i * 31) % 10_000_000) as i32), user: Some(format!("u{}", i % 701)), visible: Some(i % 7 != 3) };
                    PObj { meta: Some(m), ..PObj::full(k, i + 1) }
                })
                .collect()
        });
        check_proj(cx, &[Block::of(vec![g])], &Wire::default(), f)
    }));
    v.push(sc("users", 0, move |ch, cx| {
        // every word as the user of one object among others
        let w = *ch.of(WORDS);
        let place = ch.pick(3);
        let g = group_kind(ch, |k| {
            (0..3)
                .map(|i| {
                    let mut o = PObj::full(k, 1 + i as i64);
                    if i == place {
                        o.meta.as_mut().unwrap().user = Some(w.into());
                    }
                    o
                })
                .collect()
        });
        check_proj(cx, &[Block::of(vec![g])], &Wire::default(), f)
    }));
    v.push(sc("user-lengths", 0, move |ch, cx| {
        let n = ch.pick(if thorough { 1200 } else { 300 });
        let g = group_kind(ch, |k| {
            let mut o = PObj::full(k, 1);
            o.meta.as_mut().unwrap().user = Some("ü".repeat(n / 2) + if n % 2 == 1 { "x" } else { "" });
            vec![o, PObj::full(k, 2)]
        });
        check_proj(cx, &[Block::of(vec![g])], &Wire::default(), f)
    }));
    v
}

// ------------------------------------------------------------------ C04

pub fn dataset(which: usize) -> Vec<PObj> {
    let mut g = IdGen::new();
    match which {
        0 => {
            let mut v = g.objs(K::N, 3);
            v.extend(g.objs(K::W, 2));
            v.extend(g.objs(K::R, 2));
            v
        }
        1 => vec![],
        2 => {
            // mixed order, strings shared between roles, awkward texts
            let mut v = vec![g.obj(K::W), g.obj(K::N), g.obj(K::R), g.obj(K::N)];
            v[0].tags = vec![("name".into(), "".into()), ("a".into(), "name".into())];
            v[1].tags = vec![("".into(), "x".into())];
            v[2].members.push((K::W, 1 << 40, "name".into()));
            v[3].meta.as_mut().unwrap().user = Some("".into());
            v
        }
        3 => {
            let mut v = g.objs(K::N, 2);
            for o in &mut v {
                o.tags.clear();
            }
            v
        }
        _ => {
            let mut v = g.objs(K::N, 400);
            v.extend(g.objs(K::W, 200));
            v.extend(g.objs(K::R, 100));
            for (i, o) in v.iter_mut().enumerate() {
                o.tags.push(("note".into(), format!("{:x}", (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)).repeat(8)));
            }
            v
        }
    }
}

pub fn wire_dev(ch: &mut Ch) -> Wire {
    Wire {
        comp: *ch.devof(&[Comp::Zlib(6), Comp::Raw, Comp::RawSized, Comp::Zlib(0), Comp::Zlib(1), Comp::Zlib(9)]),
        index: *ch.devof(&[None, Some(0), Some(10), Some(300)]),
        unknown: *ch.devof(&[0, UNK_FRAMEHDR, UNK_BLOB, UNK_BLOCK, UNK_GROUP, UNK_OBJ, UNK_INFO, UNK_ST, 127]),
        unpacked: ch.devflag(),
        split_packed: ch.devflag(),
        st_rev: ch.devflag(),
        st_unused: *ch.devof(&[0, 1, 130, 17000]),
        st_dup: ch.devflag(),
        field_rev: ch.devflag(),
        pad_varint: ch.devflag(),
        explicit_defaults: ch.devflag(),
        zero_sid: ch.devflag(),
        omit_kv: ch.devflag(),
        hdr_rev: ch.devflag(),
    }
}
/// A legal packaging of the objects, default: one header, one block per kind run, zlib.
pub fn package(ch: &mut Ch, objs: &[PObj]) -> (Vec<u8>, String) {
    let mut desc = String::new();
    let mut out = vec![];
    let nodes_plain = ch.devflag();
    if nodes_plain {
        desc.push_str("plain nodes; ");
    }
    match ch.dev(5) {
        0 => out.extend(header_frame(Hdr::Minimal, &Wire::default())),
        1 => desc.push_str("no header; "),
        2 => out.extend(header_frame(Hdr::Full, &Wire::default())),
        3 => out.extend(header_frame(Hdr::Minimal, &Wire { comp: Comp::Raw, ..Wire::default() })),
        _ => {
            out.extend(header_frame(Hdr::Sorted, &Wire::default()));
            out.extend(header_frame(Hdr::Full, &Wire { comp: Comp::Lzma, ..Wire::default() }));
        }
    }
    // one wire deviation set for the first frame, another for the rest
    let w1 = wire_dev(ch);
    let w2 = if ch.devflag() { Wire::default() } else { w1.clone() };
    desc.push_str(&format!("w1={w1:?} w2same={} ", w1 == w2));
    // groups: runs of one kind, with deviations in where they are cut
    let mut groups: Vec<Group> = vec![];
    let mut i = 0;
    while i < objs.len() {
        let mut j = i + 1;
        while j < objs.len() && objs[j].kind == objs[i].kind {
            j += 1;
        }
        let run = &objs[i..j];
        let cut = if run.len() > 1 { ch.dev(run.len().min(8)) } else { 0 };
        let mut parts = vec![];
        if cut == 0 {
            parts.push(run.to_vec());
        } else {
            parts.push(run[..cut].to_vec());
            parts.push(run[cut..].to_vec());
        }
        for p in parts {
            groups.push(match p[0].kind {
                K::N if nodes_plain => Group::Nodes(p),
                _ => one_group(p),
            });
        }
        i = j;
    }
    // insert something empty
    let ins = ch.dev(5);
    if ins > 0 {
        let at = ch.pick(groups.len() + 1);
        groups.insert(at, match ins {
            1 => Group::Empty,
            2 => Group::Dense(vec![]),
            3 => Group::Changesets(1),
            _ => Group::Changesets(3),
        });
        desc.push_str(&format!("insert {ins} at {at}; "));
    }
    // blocks: one per group by default; or all in one; or a cut
    let blocks: Vec<Block> = match ch.dev(3) {
        0 => groups.into_iter().map(|g| Block::of(vec![g])).collect(),
        1 => vec![Block::of(groups)],
        _ => {
            let at = ch.pick(groups.len() + 1);
            let b = groups.split_off(at);
            vec![Block::of(groups), Block::of(b)]
        }
    };
    desc.push_str(&format!("{} blocks; ", blocks.len()));
    let foreign = ch.dev(6);
    let fat = if foreign > 0 { ch.pick(blocks.len() + 1) } else { usize::MAX };
    let put_foreign = |out: &mut Vec<u8>| match foreign {
        1 => out.extend(frame("X-unknown", b"\xff\xff\xff\xff\xff\xff\xff\xff", &Wire::default())),
        2 => out.extend(frame_of_blob("osmdata", b"not a blob at all \xff\xff", &Wire::default())),
        3 => out.extend(frame_of_blob("OSMDataX", b"", &Wire::default())),
        4 => out.extend(frame_of_blob("OSMDat", &vec![7u8; 70_000], &Wire::default())),
        5 => out.extend(header_frame(Hdr::Full, &Wire::default())),
        _ => {}
    };
    for (i, b) in blocks.iter().enumerate() {
        if i == fat {
            put_foreign(&mut out);
        }
        out.extend(data_frame(b, if i == 0 { &w1 } else { &w2 }));
    }
    if fat == blocks.len() {
        put_foreign(&mut out);
    }
    desc.push_str(&format!("foreign {foreign} at {fat}"));
    (out, desc)
}

pub fn c04(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    for d in 0..5 {
        let bound = if thorough { if d == 4 { 2 } else { 3 } } else if d == 4 { 1 } else { 2 };
        v.push(sc(&format!("packaging-{d}"), bound, move |ch, cx| {
            let objs = dataset(d);
            let (bytes, desc) = package(ch, &objs);
            let want = Block::of(groups_of(&objs)).expect();
            cx.note(|| format!("{desc}\nfile {}", hexs(&bytes)));
            check_bytes(cx, &bytes, &want, whole, || desc.clone())?;
            let wp: Vec<_> = want.iter().filter(|o| o.kind == K::N).map(|o| (o.id, o.pos.unwrap())).collect();
            let r = read_pos(bytes.as_slice());
            cx.steps(r.objs.len());
            if r.end != End::Clean || r.objs != wp {
                return Err(format!("position reader: {:?} {:?}, expected {wp:?}; {desc}", r.objs, r.end).into());
            }
            Ok(())
        }));
    }
    // zlib levels x payload sizes (stored blocks, several deflate blocks, long matches)
    v.push(sc("compression-sizes", 0, move |ch, cx| {
        let lvl = ch.pick(12);
        let n = *ch.of(&[1usize, 3, 40, 500, 3000, 12000]);
        let kind = ch.pick(3);
        let mut g = IdGen::new();
        let mut objs = g.objs(KINDS[kind], n);
        for (i, o) in objs.iter_mut().enumerate() {
            o.tags.push(("h".into(), format!("{:x}", (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15))));
        }
        let w = Wire { comp: if lvl == 10 { Comp::Raw } else if lvl == 11 { Comp::RawSized } else { Comp::Zlib(lvl as u32) }, ..Wire::default() };
        let b = Block::of(vec![one_group(objs)]);
        let bytes = file_w(&[b.clone()], &w);
        check_bytes(cx, &bytes, &b.expect(), whole, || format!("level {lvl} n {n}"))
    }));
    // every size class the format allows: blob headers up to 64 KiB, blobs up to 32 MiB
    v.push(sc("size-limits", 0, move |ch, cx| {
        let what = ch.pick(3);
        let mut g = IdGen::new();
        let mut groups = vec![Group::Dense(g.objs(K::N, 2)), one_group(g.objs(K::W, 2)), one_group(g.objs(K::R, 2))];
        let tail = Block::of(vec![one_group(g.objs(K::N, 1))]);
        let mut w = Wire::default();
        match what {
            0 => w.index = Some(*ch.of(&[100usize, 105, 110, 115, 120, 127, 128, 230, 235, 240, 245, 255, 256, 1000, 4096, 16383, 16384, 30000, 32700, 32767, 32768, 40000, 50000, 65000])),
            1 => {
                w.st_unused = *ch.of(&[120usize, 250, 260, 16_380, 32_760, 32_800, 65_530, 65_540, 70_000, 140_000]);
                w.st_rev = ch.flag();
            }
            _ => {
                let n = *ch.of(&[60_000usize, 65_536, 70_000, 1 << 20, (1 << 21) + 5, (1 << 24) - 100, 1 << 24, (1 << 24) + 100, 31 << 20]);
                w.comp = *ch.of(&[Comp::Raw, Comp::RawSized, Comp::Zlib(0), Comp::Zlib(1), Comp::Zlib(6)]);
                if let Group::Ways(v) = &mut groups[1] {
                    let mut t = String::with_capacity(n + 8);
                    let mut x = 1u64;
                    while t.len() < n {
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        t.push((b'a' + (x >> 60) as u8) as char);
                    }
                    v[0].tags.push(("note".into(), t));
                }
            }
        }
        let b = Block::of(groups);
        let mut bytes = header_frame(Hdr::Minimal, &Wire::default());
        bytes.extend(data_frame(&b, &w));
        bytes.extend(data_frame(&tail, &Wire::default()));
        let want: Vec<MObj> = b.expect().into_iter().chain(tail.expect()).collect();
        check_bytes(cx, &bytes, &want, whole, || format!("{w:?}"))
    }));
    // frames that carry no data, of every type, place, index size and blob size
    v.push(sc("foreign-frames", 0, move |ch, cx| {
        let ty = *ch.of(&["OSMHeader", "X-unknown", "OSMDataX", "", "OSMChangesets"]);
        let at = ch.pick(4);
        let times = 1 + ch.pick(2);
        let (mut w, mut blob) = (Wire::default(), 10usize);
        match ch.pick(4) {
            0 => w.index = Some(*ch.of(&[0usize, 1, 10, 100, 127, 128, 200, 201, 255, 256, 300, 1000, 4096, 16384, 32767, 32768, 40000, 65000])),
            1 => blob = *ch.of(&[0usize, 1, 100, 4095, 4096, 8191, 8192, 8193, 65535, 65536, 65537, 100_000, 1 << 20]),
            2 => w.unknown = *ch.of(&[1u32, 2, 4, 8, 16, 32, 64, 127]),
            _ => w.hdr_rev = true,
        }
        let mut g = IdGen::new();
        let blocks: Vec<Block> = KINDS.iter().map(|&k| Block::of(vec![one_group(g.objs(k, 2))])).collect();
        let mut bytes = vec![];
        let put = |out: &mut Vec<u8>| {
            for _ in 0..times {
                if ty == "OSMHeader" {
                    out.extend(header_frame(Hdr::Full, &w));
                } else {
                    out.extend(frame_of_blob(ty, &vec![0xffu8; blob], &w));
                }
            }
        };
        for (i, b) in blocks.iter().enumerate() {
            if i == at {
                put(&mut bytes);
            }
            bytes.extend(data_frame(b, &Wire::default()));
        }
        if at == 3 {
            put(&mut bytes);
        }
        let want: Vec<MObj> = blocks.iter().flat_map(|b| b.expect()).collect();
        check_bytes(cx, &bytes, &want, whole, || format!("{times} frames {ty:?} at {at}: blob {blob} {w:?}"))?;
        let wp: Vec<_> = want.iter().filter(|o| o.kind == K::N).map(|o| (o.id, o.pos.unwrap())).collect();
        let r = read_pos(bytes.as_slice());
        if r.end != End::Clean || r.objs != wp {
            return Err(format!("position reader: {:?} {:?}, expected {wp:?}; {times} frames {ty:?} at {at}: blob {blob} {w:?}", r.objs, r.end).into());
        }
        Ok(())
    }));
    // data that cannot be read is never skipped
    v.push(sc("unreadable-compression", 0, move |ch, cx| {
        let comp = *ch.of(&[Comp::Lzma, Comp::Bz2, Comp::Lz4, Comp::Zstd]);
        let n = 1 + ch.pick(3);
        let at = ch.pick(n);
        let mut g = IdGen::new();
        let blocks: Vec<Block> = (0..n).map(|_| Block::of(vec![one_group(g.objs(KINDS[ch.pick(3)], 2))])).collect();
        let filter = ch.pick(4);
        let mut bytes = header_frame(Hdr::Minimal, &Wire::default());
        for (i, b) in blocks.iter().enumerate() {
            bytes.extend(data_frame(b, &Wire { comp: if i == at { comp } else { Comp::Zlib(6) }, ..Wire::default() }));
        }
        let want: Vec<MObj> = blocks[..at].iter().flat_map(|b| b.expect()).collect();
        cx.steps(n);
        if filter == 0 {
            for (k, r) in all_readers(&bytes) {
                cx.state(&r.objs);
                if !r.end.failed() {
                    return Err(format!("{k:?} reader ended normally although block {at} of {n} is {comp:?} compressed, which it cannot read").into());
                }
                if let Some(d) = diff(&r.objs, &want) {
                    return Err(format!("{k:?} reader: {d}").into());
                }
            }
            let r = read_pos(bytes.as_slice());
            if !r.end.failed() {
                return Err(format!("position reader ended normally although block {at} is {comp:?}").into());
            }
        } else {
            // a filtered iteration cannot know what the block holds either
            let mut r = osmio::stringpbf::PBFReader::new_(&bytes);
            let e = guard(|| match filter {
                1 => r.nodes().count(),
                2 => r.ways().count(),
                _ => r.relations().count(),
            });
            if let Ok(n) = e {
                return Err(format!("filtered iteration {filter} returned {n} objects normally although block {at} is {comp:?}").into());
            }
        }
        Ok(())
    }));
    v
}
trait NewExt<'a> {
    fn new_(b: &'a [u8]) -> Self;
}
impl<'a> NewExt<'a> for osmio::stringpbf::PBFReader<&'a [u8]> {
    fn new_(b: &'a [u8]) -> Self {
        osmio::OSMReader::new(b)
    }
}

// ------------------------------------------------------------------ C06
fn agree(cx: &mut Cx, bytes: &[u8], nodes: &[(i64, (i32, i32))], desc: &dyn Fn() -> String) -> Res {
    let a = read_all(Rk::Str, bytes);
    let b = read_all(Rk::Arc, bytes);
    let p = read_pos(bytes);
    cx.steps(a.objs.len() + b.objs.len() + p.objs.len());
    cx.state(&(&p.objs, &a.objs));
    for e in [&a.end, &b.end, &p.end] {
        if let End::Fail(m) = e {
            return Err(format!("a reader failed on a valid file: {m}; {}", trunc(desc())).into());
        }
    }
    if let Some(d) = diff(&a.objs, &b.objs) {
        return Err(format!("the two full readers differ (string vs arc): {d}; {}", trunc(desc())).into());
    }
    let from_full: Vec<(i64, (i32, i32))> = a.objs.iter().filter(|o| o.kind == K::N).map(|o| (o.id, o.pos.unwrap_or((i32::MIN, 7)))).collect();
    if p.objs != from_full {
        return Err(format!("position reader {:?} differs from the full reader's nodes {:?}; {}", crate::c_pbf::few(&p.objs), few(&from_full), trunc(desc())).into());
    }
    if p.objs != nodes {
        return Err(format!("position reader {:?}, stored nodes {:?}; {}", few(&p.objs), few(nodes), trunc(desc())).into());
    }
    Ok(())
}
pub fn few<T: Clone>(v: &[T]) -> Vec<T> {
    v.iter().take(8).cloned().collect()
}
fn nodes_of(want: &[MObj]) -> Vec<(i64, (i32, i32))> {
    want.iter().filter(|o| o.kind == K::N).map(|o| (o.id, o.pos.unwrap())).collect()
}
pub fn c06(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    for (name, mb, mg, wide) in [("layouts-2x2", 2, 2, true), ("layouts-1x4", 1, 4, thorough), ("layouts-4x1", 4, 1, thorough)] {
        v.push(sc(name, 0, move |ch, cx| {
            let b = layout(ch, mb, mg, wide);
            let bytes = file(&b);
            agree(cx, &bytes, &nodes_of(&expect_all(&b)), &|| format!("{b:?}"))
        }));
    }
    for d in [0, 2, 3] {
        v.push(sc(&format!("packaging-{d}"), if thorough { 3 } else { 2 }, move |ch, cx| {
            let objs = dataset(d);
            let (bytes, desc) = package(ch, &objs);
            agree(cx, &bytes, &nodes_of(&Block::of(groups_of(&objs)).expect()), &|| desc.clone())
        }));
    }
    let sz = sizes(thorough);
    v.push(sc("sizes", 0, move |ch, cx| {
        let n = *ch.of(&sz);
        let plain = ch.flag();
        let tagged = ch.flag();
        let mut g = IdGen::new();
        let mut o = g.objs(K::N, n);
        if !tagged {
            o.iter_mut().for_each(|x| x.tags.clear());
        }
        for (i, x) in o.iter_mut().enumerate() {
            x.lat = (i as i64 * 7_919_123) % 900_000_000 - 450_000_000;
            x.lon = (i as i64 * 104_729_777) % 1_800_000_000 - 900_000_000;
        }
        let b = vec![Block::of(vec![if plain { Group::Nodes(o) } else { Group::Dense(o) }, Group::Ways(g.objs(K::W, 1))])];
        let bytes = file_w(&b, &Wire { omit_kv: !tagged, ..Wire::default() });
        agree(cx, &bytes, &nodes_of(&expect_all(&b)), &|| format!("{n} nodes"))
    }));
    v.push(sc("huge", 0, move |ch, cx| {
        // far more of what the position reader skips, and of what it delivers, than 16 bits count
        let n = *ch.of::<usize>(if thorough { &[65_537, 70_000, 140_000, 300_000] } else { &[70_000] });
        let what = ch.pick(5);
        let mut g = IdGen::new();
        let mut skip = |n: usize, k: K| -> Vec<PObj> {
            let mut v = g.objs(k, n);
            for o in &mut v {
                o.meta = None;
                o.refs.truncate(1);
                o.members.truncate(1);
                o.tags.truncate(1);
            }
            v
        };
        let b = match what {
            0 => {
                let mut v: Vec<Block> = (0..n).map(|i| Block::of(vec![one_group(skip(1, [K::W, K::R][i % 2]))])).collect();
                v.push(Block::of(vec![Group::Dense(skip(2, K::N))]));
                v
            }
            1 => {
                let mut v: Vec<Group> = (0..n).map(|i| one_group(skip(1, [K::W, K::R][i % 2]))).collect();
                v.push(Group::Nodes(skip(2, K::N)));
                vec![Block::of(v)]
            }
            2 => vec![Block::of(vec![Group::Ways(skip(n, K::W)), Group::Dense(skip(2, K::N)), Group::Rels(skip(n, K::R)), Group::Nodes(skip(2, K::N))])],
            3 => vec![Block::of(vec![Group::Dense(skip(n, K::N)), Group::Nodes(skip(n, K::N))])],
            _ => (0..n).map(|_| Block::of(vec![one_group(skip(1, K::N))])).collect(),
        };
        agree(cx, &file(&b), &nodes_of(&expect_all(&b)), &|| format!("huge {n} {what}"))
    }));
    v.push(sc("coordinates", 0, move |ch, cx| {
        let g = *ch.of(&[100, 1, 50, 99, 150, 1000, 1_000_000]);
        let lo = *ch.of(&[0i64, 1, -99, 250, -1_000_000_000]);
        let us: Vec<i64> = (0..2).map(|_| *ch.of(&[0i64, 1, -1, 900_000_000, -900_000_000, 515_000_049])).collect();
        let plain = ch.flag();
        let mut b = Block { gran: Some(g), lat_off: Some(lo), lon_off: Some(-lo), ..Default::default() };
        let o: Vec<PObj> = (0..2).map(|i| PObj { lat: units_to_raw(us[i] as i128, g as i128, lo as i128), lon: units_to_raw(us[1 - i] as i128, g as i128, -lo as i128), ..PObj::full(K::N, i as i64 + 1) }).collect();
        b.groups = vec![if plain { Group::Nodes(o) } else { Group::Dense(o) }];
        let bytes = file(std::slice::from_ref(&b));
        // agreement of the readers only; exactness is C02's matter
        let a = read_all(Rk::Str, bytes.as_slice());
        let nodes: Vec<_> = a.objs.iter().map(|o| (o.id, o.pos.unwrap_or((0, 0)))).collect();
        agree(cx, &bytes, &nodes, &|| format!("{b:?}"))
    }));
    // ways, relations and metadata: the two full readers agree
    v.push(sc("full-readers-metadata", 0, move |ch, cx| {
        let kind = ch.pick(4);
        let k = [K::N, K::W, K::R, K::N][kind];
        let m = ch.pick(65);
        let dg = *ch.of(&[None, Some(1), Some(500), Some(3000)]);
        let objs: Vec<PObj> = (0..3i64)
            .map(|i| {
                let mut o = PObj::full(k, i * 5 + 1);
                if m == 64 {
                    o.meta = None;
                } else {
                    let x = o.meta.as_mut().unwrap();
                    if m & 1 != 0 { x.version = None }
                    if m & 2 != 0 { x.ts = None }
                    if m & 4 != 0 { x.changeset = None }
                    if m & 8 != 0 { x.uid = None }
                    if m & 16 != 0 { x.user = None }
                    x.visible = if m & 32 != 0 { None } else { Some(i != 1) };
                }
                o
            })
            .collect();
        let g = match kind {
            0 => Group::Dense(objs),
            1 => Group::Ways(objs),
            2 => Group::Rels(objs),
            _ => Group::Nodes(objs),
        };
        let b = Block { date_gran: dg, groups: vec![g], ..Default::default() };
        let bytes = file(std::slice::from_ref(&b));
        agree(cx, &bytes, &nodes_of(&b.expect()), &|| format!("{b:?}"))
    }));
    v
}
