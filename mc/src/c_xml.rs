//! C09-C13: reading and writing OSM XML and osmChange documents.
use crate::c_pbf::IDS;
use crate::engine::*;
use crate::model::*;
use crate::rd::*;
use crate::src::Sink;
use crate::xmlgen::*;
use crate::xmlparse;
use osmio::obj_types::*;
use osmio::osc::OSCWriter;
use osmio::xml::XMLWriter;
use osmio::{OSMObj, OSMWriter};

pub const XTEXTS: &[&str] = &["a", "", "&", "<", ">", "\"", "'", "a&amp;b", "&#65;", "<tag k=\"x\"/>", "]]>", "--", "é", "日本語", "😀", "  two  spaces  ", " ", "\t", "\n", "\r", "a\r\nb", "\u{85}", "\u{2028}", "\u{a0}", "\u{fffd}", "\u{e000}", "%", ";", "/>", "01234567890123456789012345"];
pub const ALPHA: &[char] = &['a', '&', '<', '>', '"', '\'', ' ', '\t', '\n', '\r', ';', '#', 'é', '😀', ']', '/'];
pub const UNITS: &[i32] = &[0, 1, -1, 9, 10, -10, 9_999_999, 10_000_000, -10_000_001, 123_456_789, 515_000_000, 899_999_999, 900_000_000, -900_000_000, 1_799_999_999, 1_800_000_000, -1_800_000_000, i32::MAX, i32::MIN, 5, 100_000];
pub const U32S: &[u32] = &[1, 0, 2, 9, 10, 65535, 65536, i32::MAX as u32, 1 << 31, u32::MAX];
pub const ISOS: &[&str] = &["2020-01-01T00:00:00Z", "1970-01-01T00:00:00Z", "2004-02-29T23:59:59Z", "2038-01-19T03:14:08Z", "1969-12-31T23:59:59Z", "0000-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "2012-09-12T10:11:12+02:00", "2012-09-12T10:11:12-09:30"];

/// Full object with a textual timestamp, as documents have it.
pub fn xfull(k: K, id: i64) -> MObj {
    let mut o = MObj::full(k, id);
    let s = (id.unsigned_abs() % 1000) as i64;
    o.ts = Some(Ts::Iso(crate::cal::iso(2010 + s % 10, 1 + s % 12, 1 + s % 28, s % 24, s % 60, (s * 7) % 60)));
    o
}
pub fn xdata(which: usize) -> Vec<MObj> {
    match which {
        0 => vec![xfull(K::N, 1), xfull(K::N, 2), xfull(K::W, 3), xfull(K::R, 4)],
        1 => {
            // blanks and bare objects
            let mut a = MObj::new(K::N, 5);
            a.pos = Some((1, -1));
            let mut b = xfull(K::W, -6);
            b.tags.clear();
            b.nodes.clear();
            let mut c = MObj::new(K::R, 7);
            c.members = vec![(K::W, 1, "".into()), (K::N, -2, "a & b".into())];
            let mut d = MObj::new(K::N, 8);
            d.deleted = true;
            vec![a, b, c, d, MObj::new(K::W, 9), MObj::new(K::R, 10)]
        }
        2 => {
            // awkward texts
            let mut a = xfull(K::N, 11);
            a.user = Some("<b> & \"q\" 'r'".into());
            a.tags = vec![("k=\"1\"".into(), "<node id=\"9\"/>".into()), ("id".into(), "".into()), ("visible".into(), "false".into())];
            let mut b = xfull(K::R, 12);
            b.members = vec![(K::R, 12, "ключ > </relation>".into()), (K::R, 12, "tab\there".into())];
            b.tags = vec![("note".into(), "line1\nline2\r\nline3".into()), ("name".into(), "😀 é".into()), ("x".into(), "&amp;".into())];
            b.user = Some("".into());
            b.deleted = true;
            let mut c = xfull(K::W, 13);
            c.nodes = vec![1, 1, 2, -3, 1 << 40, 1];
            vec![c, a, b]
        }
        3 => vec![],
        _ => {
            let mut v: Vec<MObj> = (0..60).map(|i| xfull(KINDS[(i % 3) as usize], 100 + i)).collect();
            for (i, o) in v.iter_mut().enumerate() {
                o.tags.push(("note".into(), "lorem & ipsum ".repeat(i)));
            }
            v
        }
    }
}
pub fn short_doc(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.len() > 2500 { s.chars().take(2500).collect::<String>() + ".." } else { s.into_owned() }
}
fn check_read(cx: &mut Cx, rk: Rk, doc: &[u8], want: &[MObj]) -> Res {
    let r = read_all(rk, doc);
    cx.steps(r.objs.len() + 1);
    cx.state(&r.objs);
    cx.note(|| format!("document:\n{}", String::from_utf8_lossy(doc)));
    if let End::Fail(e) = &r.end {
        return Err(format!("reader failed on a valid document after {} objects: {e}; document: {}", r.objs.len(), short_doc(doc)).into());
    }
    if let Some(d) = diff(&r.objs, want) {
        return Err(format!("{d}; document: {}", short_doc(doc)).into());
    }
    Ok(())
}
fn text_places(o: &mut MObj, place: usize, t: &str) {
    match place {
        0 => o.user = Some(t.into()),
        1 => o.tags = vec![("before".into(), "1".into()), (t.into(), "v".into()), ("after\u{1F600}".into(), "2".into())],
        2 => o.tags = vec![("before".into(), "1".into()), ("k".into(), t.into()), ("after".into(), "2".into())],
        _ => o.members = vec![(K::N, 1, "before".into()), (K::W, 2, t.into()), (K::R, 3, "after".into())],
    }
}

/// An object with any combination of a few values of all fields.
pub fn combination(ch: &mut Ch, id: i64) -> MObj {
    let k = *ch.of(&KINDS);
    let mut o = MObj::new(k, id);
    o.version = *ch.of(&[None, Some(0), Some(1), Some(7)]);
    o.deleted = ch.flag();
    o.changeset = *ch.of(&[None, Some(0), Some(5)]);
    o.uid = *ch.of(&[None, Some(0), Some(3)]);
    o.user = ch.of(&[None, Some(""), Some("u")]).map(|u| u.into());
    o.ts = ch.of(&[None, Some("2012-03-04T05:06:07Z")]).map(|t| Ts::Iso(t.into()));
    o.tags = (0..ch.pick(3)).map(|i| (["k", "created_by"][i].into(), ["", "v"][i].into())).collect();
    match (k, ch.pick(3)) {
        (_, 0) => {}
        (K::N, x) => o.pos = Some([(0, 0), (-1, 512_345_678)][x - 1]),
        (K::W, x) => o.nodes = vec![0, id][..x].to_vec(),
        (K::R, x) => o.members = vec![(k, id, "".into()), (K::N, 0, "r".into())][..x].to_vec(),
    }
    o
}
/// The object exploration shared by XML and osmChange, reading and writing.
/// `run` receives the objects of one document (timestamps textual if `iso`).
type RunF = std::sync::Arc<dyn Fn(&mut Ch, &mut Cx, Vec<MObj>) -> Res + Sync + Send>;
fn object_space(thorough: bool, run: RunF) -> Vec<Scenario> {
    let mut v = vec![];
    let r = run.clone();
    v.push(sc("kinds", 0, move |ch, cx| {
        let n = ch.pick(if thorough { 6 } else { 5 });
        let full = ch.flag();
        let objs = (0..n)
            .map(|i| {
                let k = *ch.of(&KINDS);
                if full { xfull(k, i as i64 + 1) } else { MObj::new(k, i as i64 + 1) }
            })
            .collect();
        r(ch, cx, objs)
    }));
    let r = run.clone();
    v.push(sc("metadata-presence", 0, move |ch, cx| {
        let mk = |ch: &mut Ch, id: i64| {
            let k = *ch.of(&KINDS);
            let m = ch.pick(if k == K::N { 256 } else { 128 });
            let mut o = xfull(k, id);
            if m & 1 != 0 { o.version = None }
            if m & 2 != 0 { o.changeset = None }
            if m & 4 != 0 { o.ts = None }
            if m & 8 != 0 { o.uid = None }
            if m & 16 != 0 { o.user = None }
            if m & 32 != 0 { o.deleted = true }
            if m & 64 != 0 { o.tags.clear() }
            if m & 128 != 0 { o.pos = None }
            o
        };
        let o = mk(ch, 2);
        let objs = match ch.pick(3) {
            0 => vec![o],
            1 => vec![xfull(K::N, 1), o, xfull(K::W, 3)],
            _ => vec![o.clone(), MObj { id: 3, ..o.clone() }, xfull(o.kind, 4)],
        };
        r(ch, cx, objs)
    }));
    let r = run.clone();
    v.push(sc("combinations", 0, move |ch, cx| {
        let o = combination(ch, 2);
        r(ch, cx, vec![o, xfull(K::N, 3)])
    }));
    let r = run.clone();
    v.push(sc("children", 0, move |ch, cx| {
        let mut objs = vec![];
        for i in 0..2 {
            let k = *ch.of(&KINDS);
            let mut o = xfull(k, i + 1);
            o.tags = (0..ch.pick(4)).map(|j| (format!("k{j}"), format!("v{i}{j}"))).collect();
            match k {
                K::W => o.nodes = (0..ch.pick(4) as i64).map(|j| 10 * i + j % 2).collect(),
                K::R => o.members = (0..ch.pick(4)).map(|j| (KINDS[(j + i as usize) % 3], 10 * i + j as i64, ["", "r", ""][j % 3].to_string())).collect(),
                _ => {}
            }
            objs.push(o);
        }
        r(ch, cx, objs)
    }));
    let r = run.clone();
    v.push(sc("numbers", 0, move |ch, cx| {
        let k = *ch.of(&KINDS);
        let mut o = xfull(k, 1);
        match ch.pick(7) {
            0 => o.id = *ch.of(IDS),
            1 => o.id = *ch.of(&[i64::MAX, i64::MIN, 0]),
            2 => o.version = Some(*ch.of(U32S)),
            3 => {
                o.changeset = Some(*ch.of(U32S));
                o.uid = Some(*ch.of(U32S));
            }
            4 => {
                let (a, b) = (*ch.of(IDS), *ch.of(IDS));
                o.nodes = if k == K::W { vec![a, b] } else { vec![] };
                if k == K::R {
                    o.members = vec![(K::N, a, "".into()), (*ch.of(&KINDS), b, "x".into())];
                }
            }
            5 => {
                if k == K::N {
                    o.pos = Some((*ch.of(UNITS), *ch.of(UNITS)));
                }
            }
            _ => o.ts = Some(Ts::Iso(ch.of(ISOS).to_string())),
        }
        r(ch, cx, vec![o, xfull(k, 2)])
    }));
    // positions: every number of leading and trailing zeros, both signs, around every power
    let r = run.clone();
    v.push(sc("positions", 0, move |ch, cx| {
        let p = ch.pick(10) as u32;
        let d = ch.pick(if thorough { 2001 } else { 201 }) as i64 - if thorough { 1000 } else { 100 };
        let m = 1 + ch.pick(18) as i64;
        let v = (10i64.pow(p) * m + d).clamp(i32::MIN as i64, i32::MAX as i64) as i32;
        let mut a = xfull(K::N, 1);
        a.pos = Some((v, -v.max(-i32::MAX)));
        let mut b = xfull(K::N, 2);
        b.pos = Some((-v.max(-i32::MAX), v));
        r(ch, cx, vec![a, b])
    }));
    let r = run.clone();
    v.push(sc("text-pairs", 0, move |ch, cx| {
        let place = ch.pick(4);
        let k = if place == 3 { K::R } else { *ch.of(&KINDS) };
        let mut o = xfull(k, 1);
        let (a, b) = (*ch.of(XTEXTS), *ch.of(if thorough { XTEXTS } else { &XTEXTS[..1] }));
        text_places(&mut o, place, &format!("{a}{b}"));
        let mut o2 = xfull(k, 2);
        text_places(&mut o2, (place + 1) % 3, a);
        r(ch, cx, vec![o, o2])
    }));
    let r = run.clone();
    v.push(sc("text-sequences", 0, move |ch, cx| {
        let place = ch.pick(4);
        let n = 1 + ch.pick(if thorough { 4 } else { 3 });
        let mut t = String::new();
        let first = ch.pick(ALPHA.len());
        t.push(ALPHA[first]);
        // the last two characters are enumerated inside one document, as separate objects
        for _ in 1..n.saturating_sub(1) {
            t.push(*ch.of(ALPHA));
        }
        let tails: Vec<String> = if n == 1 { vec!["".into()] } else { ALPHA.iter().map(|c| c.to_string()).collect() };
        let objs = tails
            .iter()
            .enumerate()
            .map(|(i, s)| {
                let mut o = xfull(if place == 3 { K::R } else { KINDS[i % 3] }, i as i64 + 1);
                text_places(&mut o, place, &format!("{t}{s}"));
                o
            })
            .collect();
        cx.inner += tails.len() as u64 - 1;
        r(ch, cx, objs)
    }));
    let r = run.clone();
    v.push(sc("unicode", 0, move |ch, cx| {
        let page = ch.pick(0x110000 / 512) as u32;
        let place = ch.pick(4);
        let chars: Vec<char> = (page * 512..page * 512 + 512).filter_map(char::from_u32).filter(|c| xmlparse::is_char(*c)).collect();
        let mut objs = vec![];
        for (i, part) in chars.chunks(64).enumerate() {
            let mut o = xfull(K::R, i as i64 + 1);
            match place {
                0 => o.user = Some(part.iter().collect()),
                1 => o.tags = part.iter().map(|c| (format!("{c}k"), "v".into())).collect(),
                2 => o.tags = part.iter().enumerate().map(|(i, c)| (format!("k{i}"), format!("{c}"))).collect(),
                _ => o.members = part.iter().map(|c| (K::N, 1, format!("{c}"))).collect(),
            }
            objs.push(o);
        }
        r(ch, cx, objs)
    }));
    let r = run.clone();
    v.push(sc("sizes", 0, move |ch, cx| {
        let what = ch.pick(6);
        let mut ns: Vec<usize> = vec![1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 2000, 2001];
        if thorough {
            ns.extend([4095, 4096, 4097, 8000, 10000, 20000]);
        }
        let n = *ch.of(&ns);
        let objs = match what {
            0 => (0..n as i64).map(|i| xfull(KINDS[(i % 3) as usize], i + 1)).collect(),
            1 => {
                let k = *ch.of(&KINDS);
                let mut o = xfull(k, 1);
                o.tags = (0..n).map(|i| (format!("key{i}"), format!("value{}", i * 7))).collect();
                vec![o, xfull(k, 2)]
            }
            2 => vec![MObj { nodes: (0..n as i64).map(|i| (i * i) % 1013 - 100).collect(), ..xfull(K::W, 1) }, xfull(K::W, 2)],
            3 => vec![MObj { members: (0..n as i64).map(|i| (KINDS[(i % 3) as usize], (i * i) % 1013 - 100, format!("r{}", i % 13))).collect(), ..xfull(K::R, 1) }, xfull(K::R, 2)],
            4 => (0..n as i64).map(|i| MObj { pos: Some((i as i32, -(i as i32))), ..MObj::new(K::N, i + 1) }).collect(),
            _ => {
                let place = ch.pick(4);
                let mut o = xfull(K::R, 1);
                text_places(&mut o, place, &(0..n).map(|i| ['x', 'é', '&', 'y'][i % 4]).collect::<String>());
                vec![o, xfull(K::R, 2)]
            }
        };
        r(ch, cx, objs)
    }));
    let r = run.clone();
    v.push(sc("large", 0, move |ch, cx| {
        // more than any small counter or buffer holds
        let n = *ch.of(&[5000usize, 20_000, 70_000]);
        let objs = match ch.pick(7) {
            0 => (0..n as i64).map(|i| MObj::new(KINDS[(i % 3) as usize], i + 1)).collect(),
            1 => {
                let k = *ch.of(&KINDS);
                (0..n as i64).map(|i| MObj { tags: vec![("k".into(), format!("{i}"))], ..MObj::new(k, n as i64 - i) }).collect()
            }
            2 => {
                let k = *ch.of(&KINDS);
                // setting a tag looks at all the others
                let n = n.min(20_000);
                vec![MObj { tags: (0..n).map(|i| (format!("key{i}"), format!("{}", i * 7))).collect(), ..xfull(k, 1) }, xfull(k, 2)]
            }
            3 => vec![MObj { nodes: (0..n as i64).map(|i| (i * i) % 1013 - 100).collect(), ..xfull(K::W, 1) }, xfull(K::W, 2)],
            4 => vec![MObj { members: (0..n as i64).map(|i| (KINDS[(i % 3) as usize], (i * i) % 1013 - 100, format!("r{}", i % 13))).collect(), ..xfull(K::R, 1) }, xfull(K::R, 2)],
            _ => {
                let mut o = xfull(K::R, 1);
                text_places(&mut o, ch.pick(4), &(0..n * 15).map(|i| ['x', 'é', '&', '\n', ' ', 'y'][i % 6]).collect::<String>());
                vec![o, xfull(K::R, 2)]
            }
        };
        r(ch, cx, objs)
    }));
    let r = run.clone();
    v.push(sc("words", 0, move |ch, cx| {
        let w = *ch.of(WORDS);
        let val = *ch.of(WVALS);
        let objs = word_objs(w, val).into_iter().map(|o| MObj { ts: xfull(o.kind, o.id).ts, ..o }).collect();
        r(ch, cx, objs)
    }));
    let r = run.clone();
    v.push(sc("text-lengths", 0, move |ch, cx| {
        let block = ch.pick(if thorough { 40 } else { 10 }) * 32;
        let place = ch.pick(4);
        let wide = ch.flag();
        let objs: Vec<MObj> = (block..block + 32)
            .map(|n| {
                let mut o = xfull(K::R, n as i64 + 1);
                text_places(&mut o, place, &(if wide { "é" } else { "x" }).repeat(n));
                o
            })
            .collect();
        r(ch, cx, objs)
    }));
    v
}

/// The document in another encoding: UTF-16 in both byte orders, ISO-8859-1, US-ASCII, UTF-8 with a mark.
fn reencode(which: usize, doc: &[u8]) -> Vec<u8> {
    let t = std::str::from_utf8(doc).expect("HARNESS: document");
    let body = &t[t.find("?>").expect("HARNESS: declaration") + 2..];
    let decl = |e: &str| format!("<?xml version=\"1.0\" encoding=\"{e}\"?>{body}");
    let narrow = |s: &str| s.chars().map(|c| c as u32 as u8).collect::<Vec<u8>>();
    let mark = |s: String| format!("\u{feff}{s}");
    match which {
        0 => mark(decl("UTF-16")).encode_utf16().flat_map(u16::to_le_bytes).collect(),
        1 => mark(decl("utf-16")).encode_utf16().flat_map(u16::to_be_bytes).collect(),
        2 => narrow(&decl("ISO-8859-1")),
        3 => narrow(&decl("US-ASCII")),
        _ => mark(decl("UTF-8")).into_bytes(),
    }
}
fn encodings(rk: Rk) -> Scenario {
    sc("encodings", 1, move |ch, cx| {
        let e = ch.pick(5);
        let d = ch.pick(5);
        // what the narrow ones lack has to be written as a reference
        let s = Style { refs: if e == 2 || e == 3 { 4 } else { 0 }, quote: ch.dev(3), order: ch.dev(3), closing: ch.dev(3), ws: ch.dev(5), ..Style::default() };
        let objs = xdata(d);
        let (doc, want) = match rk {
            Rk::Xml => (xml_doc(&objs, &s).bytes, objs),
            _ => {
                let secs = vec![(Sec::Create, objs.clone()), (Sec::Delete, objs)];
                (osc_doc(&secs, &s).bytes, osc_expect(&secs))
            }
        };
        let doc = reencode(e, &doc);
        check_read(cx, rk, &doc, &want).map_err(|x| Fail { msg: format!("document in encoding {e}: {}", x.msg), ..x })
    })
}
pub fn c09(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![encodings(Rk::Xml)];
    for d in 0..5 {
        let b = if thorough { if d == 4 { 3 } else { 4 } } else if d == 4 { 2 } else { 3 };
        v.push(sc(&format!("spelling-{d}"), b, move |ch, cx| {
            let s = style_dev(ch);
            cx.note(|| format!("{s:?}"));
            let objs = xdata(d);
            check_read(cx, Rk::Xml, &xml_doc(&objs, &s).bytes, &objs)
        }));
    }
    let run: RunF = std::sync::Arc::new(move |ch, cx, objs| {
        let s = Style { refs: if objs.len() < 40 { ch.dev(5) } else { 0 }, quote: ch.dev(3), num: ch.dev(4), ..Style::default() };
        check_read(cx, Rk::Xml, &xml_doc(&objs, &s).bytes, &objs)
    });
    let mut o = object_space(thorough, run);
    for s in &mut o {
        s.bound = if s.name == "unicode" && !thorough { 0 } else { 1 };
    }
    v.extend(o);
    v.push(sc("attribute-normalisation", 0, move |ch, cx| {
        // white space written literally in a value means spaces
        let w = *ch.of(&["\t", "\n", "\r\n", "\r", "\n\n", " \t "]);
        let place = ch.pick(3);
        let want_ws = w.replace("\r\n", "\n").replace(['\t', '\n', '\r'], " ");
        let v = format!("a{w}b");
        let doc = format!(
            "<osm version=\"0.6\"><relation id=\"1\" user=\"{}\"><member type=\"node\" ref=\"4\" role=\"{}\"/><tag k=\"x\" v=\"{}\"/></relation></osm>",
            if place == 0 { &v } else { "u" },
            if place == 1 { &v } else { "r" },
            if place == 2 { &v } else { "v" }
        );
        let e = format!("a{want_ws}b");
        let mut o = MObj::new(K::R, 1);
        o.user = Some(if place == 0 { e.clone() } else { "u".into() });
        o.members = vec![(K::N, 4, if place == 1 { e.clone() } else { "r".into() })];
        o.tags = vec![("x".into(), if place == 2 { e } else { "v".into() })];
        check_read(cx, Rk::Xml, doc.as_bytes(), &[o])
    }));
    v
}

pub fn secs_of(ch: &mut Ch, objs: Vec<MObj>) -> Vec<(Sec, Vec<MObj>)> {
    // default: one modify section; a few cuts
    let mut out = vec![];
    let how = ch.dev(4);
    match how {
        0 => out.push((Sec::Modify, objs)),
        1 => out.push((Sec::Create, objs)),
        2 => out.push((Sec::Delete, objs)),
        _ => {
            for (i, o) in objs.into_iter().enumerate() {
                out.push((SECS[(i + 2) % 3], vec![o]));
            }
        }
    }
    out
}
pub fn c12(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![encodings(Rk::Osc)];
    v.push(sc("sections", 0, move |ch, cx| {
        let n = ch.pick(if thorough { 5 } else { 4 });
        let mut id = 0;
        let secs: Vec<(Sec, Vec<MObj>)> = (0..n)
            .map(|_| {
                let s = *ch.of(&SECS);
                let m = ch.pick(3);
                let objs = (0..m)
                    .map(|_| {
                        id += 1;
                        let mut o = xfull(if n > 2 { KINDS[id as usize % 3] } else { *ch.of(&KINDS) }, id);
                        o.deleted = ch.flag();
                        if n <= 2 && ch.flag() {
                            o.tags.clear();
                            o.nodes.clear();
                            o.members.clear();
                            o.pos = None;
                        }
                        o
                    })
                    .collect();
                (s, objs)
            })
            .collect();
        let st = Style { visible: ch.pick(2), closing: ch.pick(2), ..Style::default() };
        cx.note(|| format!("{secs:?}"));
        check_read(cx, Rk::Osc, &osc_doc(&secs, &st).bytes, &osc_expect(&secs))
    }));
    for d in 0..5 {
        let b = if thorough { if d == 4 { 2 } else { 4 } } else if d == 4 { 1 } else { 3 };
        v.push(sc(&format!("spelling-{d}"), b, move |ch, cx| {
            let s = style_dev(ch);
            cx.note(|| format!("{s:?}"));
            let secs = secs_of(ch, xdata(d));
            check_read(cx, Rk::Osc, &osc_doc(&secs, &s).bytes, &osc_expect(&secs))
        }));
    }
    let run: RunF = std::sync::Arc::new(move |ch, cx, objs| {
        let s = Style { refs: if objs.len() < 40 { ch.dev(5) } else { 0 }, quote: ch.dev(3), visible: ch.dev(2), ..Style::default() };
        let secs = if objs.len() > 100 { vec![(Sec::Create, objs)] } else { secs_of(ch, objs) };
        check_read(cx, Rk::Osc, &osc_doc(&secs, &s).bytes, &osc_expect(&secs))
    });
    let mut o = object_space(thorough, run);
    for s in &mut o {
        s.bound = if s.name == "unicode" && !thorough { 0 } else { 1 };
    }
    v.extend(o);
    v
}

// ------------------------------------------------------------------ writing

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fam {
    S,
    A,
    R,
}
pub const FAMS: [Fam; 3] = [Fam::S, Fam::A, Fam::R];
pub fn arc_obj(m: &MObj) -> ArcOSMObj {
    let mut o = hooked::blank_arc(m.kind, m.id);
    fill_obj(&mut o, m);
    o
}
pub fn rc_obj(m: &MObj) -> RcOSMObj {
    let mut o = hooked::blank_rc(m.kind, m.id);
    fill_obj(&mut o, m);
    o
}
#[cfg(osmio_verif)]
mod hooked {
    use super::*;
    pub fn blank_arc(k: K, id: i64) -> ArcOSMObj {
        match k {
            K::N => ArcOSMObj::Node(ArcNode::verif_blank(id)),
            K::W => ArcOSMObj::Way(ArcWay::verif_blank(id)),
            K::R => ArcOSMObj::Relation(ArcRelation::verif_blank(id)),
        }
    }
    pub fn blank_rc(k: K, id: i64) -> RcOSMObj {
        match k {
            K::N => RcOSMObj::Node(RcNode::verif_blank(id)),
            K::W => RcOSMObj::Way(RcWay::verif_blank(id)),
            K::R => RcOSMObj::Relation(RcRelation::verif_blank(id)),
        }
    }
}
/// If the hooks do not build: shared objects come from the PBF reader, which leaves only the Arc family.
#[cfg(not(osmio_verif))]
mod hooked {
    use super::*;
    use crate::pbfenc::*;
    use osmio::{OSMObjBase, OSMReader};
    pub fn blank_arc(k: K, id: i64) -> ArcOSMObj {
        thread_local!(static BLANK: Vec<ArcOSMObj> = [K::N, K::W, K::R].into_iter().map(|k| {
            let mut m = MObj::new(k, 1);
            m.pos = (k == K::N).then_some((0, 0));
            let f = file(&[Block::of(vec![one_group(vec![PObj::of(&m)])])]);
            let mut o = osmio::arcpbf::PBFReader::new(&f[..]).next().expect("an object");
            o.set_user(None);
            o
        }).collect());
        let mut o = BLANK.with(|b| b[k as usize].clone());
        o.set_id(id);
        o
    }
    pub use blank_arc as blank_rc;
}
#[cfg(not(osmio_verif))]
pub use osmio::obj_types::ArcOSMObj as RcOSMObj;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fmt {
    Xml,
    Osc,
}
impl Fmt {
    pub fn rk(self) -> Rk {
        match self {
            Fmt::Xml => Rk::Xml,
            Fmt::Osc => Rk::Osc,
        }
    }
    pub fn parse(self, b: &[u8]) -> Result<xmlparse::Osm, String> {
        match self {
            Fmt::Xml => xmlparse::osm(b),
            Fmt::Osc => xmlparse::osc(b),
        }
    }
}
pub fn write_obj<W: OSMWriter<Sink>>(w: &mut W, fam: Fam, m: &MObj) -> Result<(), osmio::OSMWriteError> {
    match fam {
        Fam::S => w.write_obj(&to_string_obj(m)),
        Fam::A => w.write_obj(&arc_obj(m)),
        Fam::R => w.write_obj(&rc_obj(m)),
    }
}
/// The complete document for the objects: closed explicitly, by dropping, or made by `from_iter`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    Close,
    Drop,
    FromIter,
}
pub fn write_doc(fmt: Fmt, fam: Fam, how: How, hdr: &[(&str, &str)], objs: &[MObj], sink: Sink) -> Result<Vec<u8>, String> {
    fn go<W: OSMWriter<Sink>>(fam: Fam, how: How, hdr: &[(&str, &str)], objs: &[MObj], sink: Sink) -> Result<Vec<u8>, String> {
        let s2 = sink.clone();
        if how == How::FromIter {
            let w = match fam {
                Fam::S => W::from_iter(sink, objs.iter().map(to_string_obj)),
                Fam::A => W::from_iter(sink, objs.iter().map(arc_obj)),
                Fam::R => W::from_iter(sink, objs.iter().map(rc_obj)),
            };
            let b = s2.bytes();
            drop(w);
            return Ok(b);
        }
        let mut w = W::new(sink);
        for (i, h) in hdr.iter().enumerate() {
            w.set_header(*h).map_err(|e| format!("set_header {i}: {e}"))?;
        }
        for (i, o) in objs.iter().enumerate() {
            write_obj(&mut w, fam, o).map_err(|e| format!("write_obj {i}: {e}"))?;
        }
        if how == How::Close {
            w.close().map_err(|e| format!("close: {e}"))?;
            let b = s2.bytes();
            drop(w);
            return Ok(b);
        }
        drop(w);
        Ok(s2.bytes())
    }
    let r = guard(|| match fmt {
        Fmt::Xml => go::<XMLWriter<Sink>>(fam, how, hdr, objs, sink),
        Fmt::Osc => go::<OSCWriter<Sink>>(fam, how, hdr, objs, sink),
    });
    match r {
        Ok(x) => x,
        Err(p) => Err(format!("writer panicked: {p}")),
    }
}
/// Textual timestamps exact, numeric ones as instants.
pub fn same_stated(got: &MObj, want: &MObj) -> bool {
    match (&got.ts, &want.ts) {
        (Some(Ts::Iso(_)), Some(Ts::Epoch(e))) => got.ts.as_ref().unwrap().epoch() == Some(*e) && MObj { ts: None, ..got.clone() } == MObj { ts: None, ..want.clone() },
        _ => got == want,
    }
}
pub fn check_stated(fmt: Fmt, doc: &[u8], hdr: &[(&str, &str)], objs: &[MObj]) -> Result<(), String> {
    let p = fmt.parse(doc).map_err(|e| format!("the document is not well-formed OSM XML: {e}; document: {}", short_doc(doc)))?;
    let mut root: std::collections::BTreeMap<String, String> = [("version", "0.6"), ("generator", &format!("osmio/{}", osmio::version()))].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    for (k, v) in hdr {
        root.insert(k.to_string(), v.to_string());
    }
    let got: std::collections::BTreeMap<String, String> = p.root.iter().cloned().collect();
    if got != root {
        return Err(format!("root attributes {got:?}, expected {root:?}"));
    }
    for i in 0..p.objs.len().max(objs.len()) {
        match (p.objs.get(i), objs.get(i)) {
            (Some(g), Some(w)) if same_stated(g, w) => {}
            (g, w) => return Err(format!("object {i}: the document states {g:?}, written was {w:?}; document: {}", short_doc(doc))),
        }
    }
    Ok(())
}
fn run_write(fmt: Fmt) -> RunF {
    std::sync::Arc::new(move |ch, cx, mut objs| {
        let fam = FAMS[ch.dev(3)];
        let how = [How::Close, How::Drop, How::FromIter][ch.dev(3)];
        if ch.devflag() {
            for o in &mut objs {
                *o = o.instants();
            }
        }
        let doc = write_doc(fmt, fam, how, &[], &objs, Sink::new())?;
        cx.steps(objs.len() + 2);
        cx.state(&doc);
        cx.note(|| format!("{fam:?} {how:?}: {}", String::from_utf8_lossy(&doc)));
        check_stated(fmt, &doc, &[], &objs).map_err(Fail::from)
    })
}
fn no_dup_keys(objs: &[MObj]) -> bool {
    objs.iter().all(|o| o.tags.iter().map(|t| &t.0).collect::<std::collections::HashSet<_>>().len() == o.tags.len())
}
fn write_space(thorough: bool, fmt: Fmt) -> Vec<Scenario> {
    let mut v = object_space(thorough, run_write(fmt));
    for s in &mut v {
        s.bound = 1;
    }
    v.push(sc("timestamps", 0, move |ch, cx| {
        // epoch values over years 0-9999, one document per slice
        let slice = ch.pick(64) as i64;
        let lo = crate::cal::epoch(0, 1, 1, 0, 0, 0);
        let hi = crate::cal::epoch(9999, 12, 31, 23, 59, 59);
        let step = (hi - lo) / (64 * 40);
        let objs: Vec<MObj> = (0..40).map(|i| MObj { ts: Some(Ts::Epoch((lo + (slice * 40 + i) * step + i * 86_399).min(hi))), ..xfull(K::W, i + 1) }).collect();
        let doc = write_doc(fmt, Fam::S, How::Close, &[], &objs, Sink::new())?;
        cx.steps(42);
        cx.state(&doc);
        check_stated(fmt, &doc, &[], &objs).map_err(Fail::from)
    }));
    v
}
pub fn c10(thorough: bool) -> Vec<Scenario> {
    let mut v = write_space(thorough, Fmt::Xml);
    v.push(sc("headers", 0, move |ch, cx| {
        let keys = ["a", "generator", "version", "copyright", "xmlns", "Attribution", "é", "x-y.Z_1", "A"];
        let n = ch.pick(3) + 1;
        let mut calls: Vec<(&str, &str)> = vec![];
        for i in 0..n {
            let k = *ch.of(if i == 2 { &keys[..3] } else { &keys });
            let val = *ch.of(if i == 0 { XTEXTS } else { &XTEXTS[..6] });
            calls.push((k, val));
        }
        let objs = if ch.flag() { vec![xfull(K::N, 1)] } else { vec![] };
        let doc = write_doc(Fmt::Xml, Fam::S, How::Close, &calls, &objs, Sink::new())?;
        cx.steps(n + 2);
        cx.state(&calls);
        cx.note(|| format!("{calls:?}: {}", String::from_utf8_lossy(&doc)));
        check_stated(Fmt::Xml, &doc, &calls, &objs).map_err(Fail::from)
    }));
    v.push(sc("header-counts", 0, move |ch, cx| {
        let i = ch.pick(140);
        let n = if i < 130 { i } else { [200usize, 255, 256, 257, 500, 1000, 1001, 2000, 4096, 5000][i - 130] };
        let own = ch.pick(3);
        let mut calls: Vec<(String, String)> = (0..n).map(|i| (format!("h{i}"), format!("{}", i * 7))).collect();
        match own {
            1 => calls.insert(0, ("generator".into(), "me".into())),
            2 => calls.push(("version".into(), "0.7".into())),
            _ => {}
        }
        let calls: Vec<(&str, &str)> = calls.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
        let doc = write_doc(Fmt::Xml, Fam::S, How::Close, &calls, &[], Sink::new())?;
        cx.steps(n + 2);
        check_stated(Fmt::Xml, &doc, &calls, &[]).map_err(Fail::from)
    }));
    v.push(sc("header-text", 0, move |ch, cx| {
        let n = 1 + ch.pick(if thorough { 4 } else { 3 });
        let t: String = (0..n).map(|_| *ch.of(ALPHA)).collect();
        let doc = write_doc(Fmt::Xml, Fam::S, How::Drop, &[("h", &t)], &[], Sink::new())?;
        cx.steps(2);
        check_stated(Fmt::Xml, &doc, &[("h", &t)], &[]).map_err(Fail::from)
    }));
    v
}
pub fn c13(thorough: bool) -> Vec<Scenario> {
    write_space(thorough, Fmt::Osc)
}

fn roundtrip(cx: &mut Cx, fmt: Fmt, fam: Fam, how: How, objs: &[MObj]) -> Res {
    let doc = write_doc(fmt, fam, how, &[], objs, Sink::new())?;
    cx.steps(objs.len() * 2 + 2);
    cx.state(&doc);
    cx.note(|| format!("{fam:?} {how:?}: {}", String::from_utf8_lossy(&doc)));
    back(fmt, &doc, objs)
}
fn back(fmt: Fmt, doc: &[u8], objs: &[MObj]) -> Res {
    use osmio::OSMReader;
    fn go<R: OSMReader<Obj = StringOSMObj>>(mut r: R, objs: &[MObj]) -> Result<(), String> {
        for (i, m) in objs.iter().enumerate() {
            let Some(o) = r.next() else { return Err(format!("the reader ends after {i} of {} objects", objs.len())) };
            let w = to_string_obj(m);
            let (a, b) = (observe(&o).instants(), m.instants());
            if a != b {
                return Err(format!("object {i} reads back as {a:?}, written was {b:?}"));
            }
            if o != w {
                return Err(format!("object {i} reads back as {o:?}, which does not equal the written {w:?}"));
            }
        }
        if let Some(o) = r.next() {
            return Err(format!("the reader adds {o:?}"));
        }
        Ok(())
    }
    let r = guard(|| match fmt {
        Fmt::Xml => go(osmio::xml::XMLReader::new(doc), objs),
        Fmt::Osc => go(osmio::osc::OSCReader::new(doc), objs),
    });
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("{e}; document: {}", short_doc(doc)).into()),
        Err(p) => Err(format!("the reader failed on the writer's document: {p}; document: {}", short_doc(doc)).into()),
    }
}
pub fn c11(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    for fmt in [Fmt::Xml, Fmt::Osc] {
        let run: RunF = std::sync::Arc::new(move |ch, cx, mut objs| {
            let fam = FAMS[ch.dev(3)];
            let how = [How::Drop, How::Close][ch.dev(2)];
            if ch.devflag() {
                for o in &mut objs {
                    *o = o.instants();
                }
            }
            assert!(no_dup_keys(&objs), "HARNESS: duplicate keys");
            roundtrip(cx, fmt, fam, how, &objs)
        });
        let mut o = object_space(thorough, run);
        for s in &mut o {
            s.bound = if s.name == "unicode" && !thorough { 0 } else { 1 };
            s.name = format!("{}-{fmt:?}", s.name);
        }
        v.extend(o);
        // objects that come from PBF
        v.push(sc(&format!("from-pbf-{fmt:?}"), if thorough { 2 } else { 1 }, move |ch, cx| {
            use crate::c_pbf::*;
            use osmio::OSMReader;
            let which = ch.pick(4);
            let via = ch.pick(3);
            let objs = dataset(which);
            let (bytes, desc) = package(ch, &objs);
            let src: Vec<StringOSMObj> = match via {
                0 => osmio::stringpbf::PBFReader::new(bytes.as_slice()).objects().collect(),
                _ => osmio::arcpbf::PBFReader::new(bytes.as_slice()).objects().map(|o| o.into()).collect(),
            };
            let ms: Vec<MObj> = src.iter().map(observe).collect();
            cx.steps(ms.len() * 3);
            let sink = Sink::new();
            let s2 = sink.clone();
            if via == 2 {
                // written directly from the shared objects
                let mut r = osmio::arcpbf::PBFReader::new(bytes.as_slice());
                fn w<W: OSMWriter<Sink>>(sink: Sink, it: &mut dyn Iterator<Item = ArcOSMObj>) {
                    let mut w = W::new(sink);
                    for o in it {
                        w.write_obj(&o).unwrap();
                    }
                }
                match fmt {
                    Fmt::Xml => w::<XMLWriter<Sink>>(sink, &mut r.objects()),
                    Fmt::Osc => w::<OSCWriter<Sink>>(sink, &mut r.objects()),
                }
            } else {
                fn w<W: OSMWriter<Sink>, O: OSMObj>(sink: Sink, v: &[O]) {
                    let mut w = W::new(sink);
                    for o in v {
                        w.write_obj(o).unwrap();
                    }
                }
                match fmt {
                    Fmt::Xml => w::<XMLWriter<Sink>, _>(sink, &src),
                    Fmt::Osc => w::<OSCWriter<Sink>, _>(sink, &src),
                }
            }
            if ms.len() != objs.len() {
                return Err(format!("{} of {} objects read from the PBF file {desc}", ms.len(), objs.len()).into());
            }
            back(fmt, &s2.bytes(), &ms)
        }));
    }
    // XML -> osmChange -> XML keeps everything
    v.push(sc("chain", 0, move |ch, cx| {
        let d = ch.pick(5);
        let start = ch.flag();
        let n = 1 + ch.pick(3);
        let mut objs = xdata(d);
        for i in 0..n {
            let fmt = if (i % 2 == 0) == start { Fmt::Xml } else { Fmt::Osc };
            let doc = write_doc(fmt, FAMS[i % 3], How::Drop, &[], &objs, Sink::new())?;
            back(fmt, &doc, &objs)?;
            let r = read_all(fmt.rk(), doc.as_slice());
            cx.steps(objs.len() * 2);
            if let Some(d) = diff(&r.objs, &objs) {
                return Err(d.into());
            }
            objs = r.objs;
        }
        Ok(())
    }));
    v
}
