//! C22, C23: changeset dumps.
use crate::c_xml::*;
use crate::engine::*;
use crate::model::{WORDS, WVALS};
use crate::rd::*;
use crate::xmlgen::*;

pub fn csdata(which: usize) -> Vec<Cs> {
    match which {
        0 => {
            let mut b = Cs::full(2);
            b.tags.clear();
            let mut c = Cs::full(3);
            c.open = true;
            c.closed = None;
            let mut d = Cs::full(4);
            d.discussion = Some(vec![("ann".into(), "please <tag k='x'> & fix".into())]);
            vec![Cs::full(1), b, c, d]
        }
        1 => {
            let mut a = Cs::full(5);
            a.tags.clear();
            a.user = None;
            a.uid = None;
            a.bbox = false;
            a.discussion = Some(vec![]);
            let mut b = Cs::full(6);
            b.tags.truncate(1);
            b.discussion = Some(vec![("bob".into(), "".into()), ("eve".into(), "2".into())]);
            let mut c = Cs::full(7);
            c.tags.clear();
            c.closed = None;
            c.open = true;
            c.num_changes = 0;
            c.comments = 0;
            vec![a, b, c, Cs::full(7)]
        }
        2 => {
            let mut a = Cs::full(8);
            a.user = Some("<b> & \"q\" 'r'".into());
            a.tags = vec![("id".into(), "99".into()), ("comment".into(), "<changeset id=\"5\"/>".into()), ("k=\"1\"".into(), "".into())];
            let mut b = Cs::full(9);
            b.user = Some("".into());
            b.tags = vec![("note".into(), "line1\nline2\r\nline3\ttab".into()), ("open".into(), "true".into()), ("".into(), "😀 é &amp;".into())];
            b.uid = Some(-1);
            vec![b, a]
        }
        3 => vec![],
        _ => (0..60)
            .map(|i| {
                let mut c = Cs::full(100 + i);
                if i % 3 == 0 {
                    c.tags.clear();
                }
                if i % 4 == 1 {
                    c.tags.push(("note".into(), "lorem & ipsum ".repeat(i as usize)));
                }
                if i % 5 == 2 {
                    c.discussion = Some(vec![("ann".into(), "hello".repeat(i as usize))]);
                }
                c
            })
            .collect(),
    }
}
fn shape(ch: &mut Ch, id: u32) -> Cs {
    let mut c = Cs::full(id);
    c.tags.truncate(ch.pick(3));
    c.discussion = match ch.pick(3) {
        0 => None,
        1 => Some(vec![]),
        _ => Some(vec![("ann".into(), "hi".into())]),
    };
    if ch.flag() {
        c.open = true;
        c.closed = None;
    }
    c
}
fn check(cx: &mut Cx, ak: Ak, css: &[Cs], s: &Style) -> Res {
    let d = cs_doc(css, s, &[]);
    let r = read_any(ak, &d.bytes[..]);
    cx.steps(css.len() + 1);
    cx.state(&d.bytes);
    cx.note(|| format!("{}\n{:?}", String::from_utf8_lossy(&d.bytes), r.items));
    check_exact(&r, &want_cs(ak, css)).map_err(|e| format!("{ak:?} reader: {e}; document: {}", short_doc(&d.bytes)).into())
}
/// Delivered items against a document with spoiled changesets.
fn check_spoiled(cx: &mut Cx, ak: Ak, css: &[Cs], spoil: &[Spoil], s: &Style) -> Res {
    let d = cs_doc(css, s, spoil);
    let r = read_any(ak, &d.bytes[..]);
    cx.steps(css.len() + 1);
    cx.state(&r.items);
    cx.note(|| format!("{spoil:?}\n{}\n{:?} {:?}", String::from_utf8_lossy(&d.bytes), r.items, r.end));
    let bad = |i: usize| spoil.iter().any(|s| matches!(s, Spoil::Drop(j, _) | Spoil::Set(j, _, _) | Spoil::Tag(j, _, _) if *j == i));
    let first = (0..css.len()).find(|i| bad(*i)).unwrap();
    let say = |m: String| -> Res { Err(format!("{ak:?} reader, {spoil:?}: {m}; delivered {:?}, end {:?}; document: {}", r.items, r.end, short_doc(&d.bytes)).into()) };
    // which entries are visible to this reader
    let vis: Vec<usize> = (0..css.len()).filter(|i| ak != Ak::Tag || !css[*i].tags.is_empty()).collect();
    let want: Vec<Any> = vis.iter().map(|i| want_cs(ak, &css[*i..=*i]).remove(0)).collect();
    let lead = vis.iter().filter(|i| **i < first).count();
    for i in 0..lead {
        if r.items.get(i) != Some(&want[i]) {
            return say(format!("item {i} is not the changeset {:?}", want[i]));
        }
    }
    // after the spoiled one: errors, or changesets of the document in order, each with its own values
    let mut at = lead;
    for it in &r.items[lead..] {
        match it {
            Any::E(_) => {}
            Any::T(id, tags) => {
                let Some(j) = (at..vis.len()).find(|j| css[vis[*j]].id as u64 == *id && if bad(vis[*j]) { tags.iter().all(|t| css[vis[*j]].tags.contains(t)) && !spoil.contains(&Spoil::Drop(vis[*j], "id")) } else { want[*j] == *it }) else {
                    return say(format!("{it:?} is not what the document says about any changeset"));
                };
                // a malformed changeset may come in parts
                at = if bad(vis[j]) { j } else { j + 1 };
            }
            _ => match (at..vis.len()).find(|j| !bad(vis[*j]) && want[*j] == *it) {
                Some(j) => at = j + 1,
                None => return say(format!("{it:?} is not what the document says about any intact changeset")),
            },
        }
    }
    if ak != Ak::Tag && !r.failed() {
        return say("the spoiled changeset is not reported as an error".into());
    }
    Ok(())
}
const IDS32: &[u32] = &[1, 0, 9, 10, 65535, 65536, i32::MAX as u32, 1 << 31, u32::MAX];
const U64S: &[u64] = &[0, 1, 9, 10, 10_000, u32::MAX as u64, 1 << 32, 1 << 53, (1 << 53) + 1, i64::MAX as u64, u64::MAX];
const I64S: &[i64] = &[0, 1, -1, 10, i32::MAX as i64, 1 << 31, 1 << 32, (1 << 53) + 1, i64::MAX, i64::MIN];

fn space(ak: Ak, thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    for d in 0..5 {
        let bound = if d == 4 { 1 } else if thorough { 3 } else { 2 };
        v.push(sc(&format!("spelling-{d}"), bound, move |ch, cx| {
            let s = style_dev(ch);
            check(cx, ak, &csdata(d), &s)
        }));
    }
    v.push(sc("documents", 0, move |ch, cx| {
        let n = ch.pick(if thorough { 5 } else { 4 });
        let css: Vec<Cs> = (0..n).map(|i| shape(ch, 10 + i as u32)).collect();
        check(cx, ak, &css, &Style::default())
    }));
    v.push(sc("documents-styles", 1, move |ch, cx| {
        let n = ch.pick(if thorough { 4 } else { 3 });
        let css: Vec<Cs> = (0..n).map(|i| shape(ch, 10 + i as u32)).collect();
        let s = style_dev(ch);
        check(cx, ak, &css, &s)
    }));
    v.push(sc("shapes-values", 1, move |ch, cx| {
        // one changeset of every shape with every id, count or user id, between two others
        let mut c = Cs::full(7);
        c.tags = (0..ch.pick(5)).map(|i| (format!("k{i}"), ["v", "", "a<b&"][i % 3].to_string())).collect();
        c.discussion = match ch.pick(4) {
            0 => None,
            1 => Some(vec![]),
            n => Some((1..n).map(|i| (format!("user{i}"), "text".to_string())).collect()),
        };
        match ch.pick(4) {
            0 if ak == Ak::Tag => c.id = *ch.of(U64S),
            0 => c.id = *ch.of(IDS32) as u64,
            1 => c.num_changes = *ch.of(U64S),
            2 => c.comments = *ch.of(U64S),
            _ => c.uid = *ch.of(&I64S.iter().map(|x| Some(*x)).chain([None]).collect::<Vec<_>>()),
        }
        if ch.flag() {
            c.user = None;
        }
        let (mut a, mut b) = (Cs::full(5), Cs::full(9));
        match ch.pick(3) {
            0 => {}
            1 => a.tags.clear(),
            _ => b.tags.clear(),
        }
        let s = Style { closing: ch.dev(3), child_order: ch.dev(4), nested: ch.dev(6), ws: ch.dev(5), order: ch.dev(3), ..Style::default() };
        check(cx, ak, &[a, c, b], &s)
    }));
    v.push(sc("values", 0, move |ch, cx| {
        // two changesets with different combinations of optional parts and values
        let mut css = vec![Cs::full(1), Cs::full(2), Cs::full(3)];
        let which = ch.pick(3);
        let c = &mut css[which];
        match ch.pick(8) {
            0 if ak == Ak::Tag => c.id = *ch.of(U64S),
            0 => c.id = *ch.of(IDS32) as u64,
            1 => c.num_changes = *ch.of(U64S),
            2 => c.comments = *ch.of(U64S),
            3 => c.uid = *ch.of(&I64S.iter().map(|x| Some(*x)).chain([None]).collect::<Vec<_>>()),
            4 => c.created = ch.of(ISOS).to_string(),
            5 => c.closed = ch.of(&ISOS.iter().map(|x| Some(x.to_string())).chain([None]).collect::<Vec<_>>()).clone(),
            6 => c.user = ch.of(&XTEXTS.iter().map(|x| Some(x.to_string())).chain([None]).collect::<Vec<_>>()).clone(),
            _ => {
                c.open = ch.flag();
                c.bbox = ch.flag();
                if ch.flag() {
                    c.closed = None;
                }
                if ch.flag() {
                    c.user = None;
                }
                if ch.flag() {
                    c.uid = None;
                }
            }
        }
        let tagged = ch.flag();
        if !tagged {
            c.tags.clear();
        }
        let s = Style { closing: ch.pick(3), ..Style::default() };
        check(cx, ak, &css, &s)
    }));
    v.push(sc("tags", 0, move |ch, cx| {
        let n = ch.pick(if thorough { 5 } else { 4 });
        let mut c = Cs::full(2);
        c.tags.clear();
        for i in 0..n {
            let k = format!("{}{}", if i == 0 { *ch.of(XTEXTS) } else { *ch.of(&XTEXTS[..if n > 3 { 3 } else { 7 }]) }, if i > 0 { format!("{i}") } else { String::new() });
            let val = if n > 2 { *ch.of(&XTEXTS[..3]) } else { *ch.of(XTEXTS) };
            if c.tags.iter().any(|t| t.0 == k) {
                return Ok(());
            }
            c.tags.push((k, val.to_string()));
        }
        check(cx, ak, &[Cs::full(1), c, Cs::full(3)], &Style::default())
    }));
    v.push(sc("words", 0, move |ch, cx| {
        let (w, x) = (*ch.of(WORDS), *ch.of(WVALS));
        let t = |a: &str, b: &str| (a.to_string(), b.to_string());
        let mut css: Vec<Cs> = (1..=4).map(Cs::full).collect();
        css[0].tags = vec![t(w, x)];
        css[1].tags = vec![t("first", "1"), t(w, x), t("kk", w), t("last", x)];
        css[2].user = Some(w.into());
        css[2].tags = vec![t("kk", w), t(w, w)];
        check(cx, ak, &css, &Style { closing: ch.pick(3), ..Style::default() })
    }));
    v.push(sc("text", 0, move |ch, cx| {
        let n = 1 + ch.pick(if thorough { 4 } else { 3 });
        let t: String = (0..n).map(|_| *ch.of(ALPHA)).collect();
        let s = Style { quote: ch.pick(2), refs: ch.pick(2) * 2, ..Style::default() };
        let mut c = Cs::full(2);
        match ch.pick(3) {
            0 => c.tags[0].0 = t,
            1 => c.tags[1].1 = t,
            _ => c.user = Some(t),
        }
        check(cx, ak, &[c], &s)
    }));
    v.push(sc("attribute-normalisation", 0, move |ch, cx| {
        // white space written literally in a value means spaces
        let w = *ch.of(&["\t", "\n", "\r\n", "\r", "\n\n", " \t ", "  "]);
        let e = w.replace("\r\n", "\n").replace(['\t', '\n', '\r'], " ");
        let mut c = Cs::full(2);
        let hold = "@@@";
        match ch.pick(3) {
            0 => c.tags[0].0 = hold.into(),
            1 => c.tags[1].1 = hold.into(),
            _ => c.user = Some(hold.into()),
        }
        let at = ch.pick(3);
        let put = |x: &str| match at {
            0 => format!("a{x}b"),
            1 => format!("{x}b"),
            _ => format!("a{x}"),
        };
        let s = Style { quote: ch.pick(2), closing: ch.pick(3), ..Style::default() };
        let d = cs_doc(std::slice::from_ref(&c), &s, &[]);
        let doc = String::from_utf8(d.bytes).expect("HARNESS: document").replace(hold, &put(w));
        let fix = |t: &mut String| {
            if t == hold {
                *t = put(&e);
            }
        };
        c.tags.iter_mut().for_each(|t| {
            fix(&mut t.0);
            fix(&mut t.1);
        });
        if let Some(u) = &mut c.user {
            fix(u);
        }
        let r = read_any(ak, doc.as_bytes());
        cx.steps(2);
        cx.state(&doc);
        check_exact(&r, &want_cs(ak, &[c])).map_err(|e| format!("{ak:?} reader: {e}; document: {}", short_doc(doc.as_bytes())).into())
    }));
    v.push(sc("many-tags", 0, move |ch, cx| {
        let n = *ch.of(&[1usize, 7, 8, 9, 31, 32, 33, 100, 1000, 5000, 70_000]);
        let mut c = Cs::full(2);
        c.tags = (0..n).map(|i| (format!("key {i}"), format!("value {}", i * 7))).collect();
        let len = *ch.of(&[0usize, 255, 8191, 8192, 8193, 65536, 100_000]);
        c.tags[n / 2].1 = "x".repeat(len);
        let d = ch.flag();
        let mut f = Cs::full(1);
        if d {
            f.discussion = Some((0..n).map(|i| (format!("u{i}"), "hello".into())).collect());
        }
        check(cx, ak, &[f, c, Cs::full(3)], &Style::default())
    }));
    v.push(sc("many", 0, move |ch, cx| {
        let n = *ch.of(&[10u32, 100, 1000, 5000, 70_000]);
        let m = 1 + ch.pick(4) as u32;
        let css: Vec<Cs> = (0..n)
            .map(|i| {
                let mut c = Cs::full(i * 3 + 1);
                if i % m != 0 {
                    c.tags.clear();
                }
                c
            })
            .collect();
        check(cx, ak, &css, &Style::default())
    }));
    v
}
pub fn c22(thorough: bool) -> Vec<Scenario> {
    let mut v = space(Ak::Cs, thorough);
    v.push(sc("spoiled", 1, move |ch, cx| {
        let n = 1 + ch.pick(3);
        let mut css: Vec<Cs> = (0..n).map(|i| Cs::full(20 + i as u32)).collect();
        for c in &mut css {
            match ch.pick(3) {
                0 => {}
                1 => c.tags.clear(),
                _ => c.discussion = Some(vec![("a".into(), "b".into())]),
            }
        }
        let i = ch.pick(n);
        let req = ["id", "created_at", "open", "num_changes", "comments_count"];
        let a = *ch.of(&req);
        let mut sp = vec![];
        let bad: &[&str] = match a {
            "created_at" => &[],
            "open" => &["", "maybe", "truefalse", "tru"],
            "id" => &["", "x", "-1", "4294967296", "1.5", "12x"],
            _ => &["", "x", "-1", "18446744073709551616", "1e3", "12x"],
        };
        sp.push(match ch.pick(bad.len() + 1) {
            0 => Spoil::Drop(i, a),
            k => Spoil::Set(i, a, bad[k - 1]),
        });
        // a second one
        if ch.flag() {
            let j = ch.pick(n);
            let b = *ch.of(&req);
            if (j, b) != (i, a) {
                sp.push(Spoil::Drop(j, b));
            }
        }
        let s = Style { closing: ch.dev(3), order: ch.dev(3), quote: ch.dev(2), ws: ch.dev(5), ..Style::default() };
        check_spoiled(cx, Ak::Cs, &css, &sp, &s)
    }));
    v
}
pub fn c23(thorough: bool) -> Vec<Scenario> {
    let mut v = space(Ak::Tag, thorough);
    v.push(sc("malformed", 1, move |ch, cx| {
        let n = 1 + ch.pick(if thorough { 4 } else { 3 });
        let mut css: Vec<Cs> = (0..n).map(|i| Cs::full(20 + i as u32)).collect();
        for c in &mut css {
            match ch.pick(4) {
                0 => {}
                1 => c.tags.clear(),
                2 => c.tags.truncate(1),
                _ => c.discussion = Some(vec![("a".into(), "b".into())]),
            }
        }
        let mut sp = vec![];
        for _ in 0..1 + ch.pick(2) {
            let i = ch.pick(n);
            sp.push(match ch.pick(8) {
                0 => Spoil::Drop(i, "id"),
                1 => Spoil::Set(i, "id", ""),
                2 => Spoil::Set(i, "id", "x"),
                3 => Spoil::Set(i, "id", "-1"),
                4 => Spoil::Set(i, "id", "18446744073709551616"),
                k => Spoil::Tag(i, ch.pick(2), k - 5),
            });
        }
        let s = Style { closing: ch.dev(3), order: ch.dev(3), child_order: ch.dev(4), ws: ch.dev(5), ..Style::default() };
        check_spoiled(cx, Ak::Tag, &css, &sp, &s)
    }));
    v
}
