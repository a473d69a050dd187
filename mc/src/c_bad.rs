//! C30-C33: readers and writers side by side, malformed XML, inconsistent PBF blocks, and
//! readers that hand their source back.
use crate::c_fault::*;
use crate::c_pbf::*;
use crate::c_xml::*;
use crate::engine::*;
use crate::model::*;
use crate::pbfenc::*;
use crate::rd::*;
use crate::src::*;
use crate::xmlgen::*;
use osmio::changesets::*;
use osmio::osc::{OSCReader, OSCWriter};
use osmio::xml::{XMLReader, XMLWriter};
use osmio::{OSMReader, OSMWriter};

// ------------------------------------------------------------------ C30
/// Something that is advanced step by step: a reader or a writer with its own input.
type Machine = Box<dyn FnMut() -> Step>;
#[derive(Clone, Debug, PartialEq, Hash)]
enum Step {
    Item(Any),
    Wrote(Result<Vec<u8>, String>),
    Ended,
    Failed,
}
fn osm_machine<R: OSMReader + 'static>(make: impl FnOnce() -> R + 'static) -> Machine {
    let mut make = Some(make);
    let mut r = None;
    Box::new(move || {
        let g = guard(|| {
            if let Some(m) = make.take() {
                r = Some(m());
            }
            r.as_mut().unwrap().next().map(|o| observe(&o))
        });
        match g {
            Ok(Some(o)) => Step::Item(Any::O(o)),
            Ok(None) => Step::Ended,
            Err(_) => Step::Failed,
        }
    })
}
fn iter_machine<I: Iterator + 'static>(make: impl FnOnce() -> I + 'static, f: impl Fn(I::Item) -> Any + 'static) -> Machine {
    let mut make = Some(make);
    let mut r = None;
    Box::new(move || {
        let g = guard(|| {
            if let Some(m) = make.take() {
                r = Some(m());
            }
            r.as_mut().unwrap().next().map(&f)
        });
        match g {
            Ok(Some(Any::E(_))) => Step::Item(Any::E(String::new())),
            Ok(Some(o)) => Step::Item(o),
            Ok(None) => Step::Ended,
            Err(_) => Step::Failed,
        }
    })
}
/// Writes one object per step, then closes, then drops; shows what the sink has got.
fn wr_machine<W: OSMWriter<Sink> + 'static>(objs: Vec<MObj>, fam: Fam) -> Machine {
    let sink = Sink::new();
    let mut w: Option<W> = None;
    let mut at = 0;
    Box::new(move || {
        if w.is_none() && at == 0 {
            w = Some(W::new(sink.clone()));
        }
        let i = at;
        at += 1;
        let r = guard(|| {
            if i < objs.len() {
                write_obj(w.as_mut().unwrap(), fam, &objs[i]).map_err(|e| e.to_string())
            } else if i == objs.len() {
                w.as_mut().unwrap().close().map_err(|e| e.to_string())
            } else {
                w = None;
                Ok(())
            }
        });
        match r {
            Err(_) => Step::Failed,
            Ok(r) if i <= objs.len() => Step::Wrote(r.map(|_| sink.bytes())),
            Ok(_) => Step::Ended,
        }
    })
}
const MACHINES: usize = 22;
fn mname(which: usize) -> String {
    let n = ["stringpbf", "arcpbf", "positions", "XML", "osmChange", "changesets", "tags", "compressed changesets", "XML writer", "osmChange writer", "stringpbf ways"];
    format!("{} {}", n[which % 11], which / 11)
}
/// Kind of machine, and which of two inputs. `n` items at most.
fn machine(which: usize, n: usize) -> Machine {
    let (kind, set) = (which % 11, which / 11);
    // the two inputs have the same ids and other contents, so that anything mixed up shows
    let mut g = IdGen::new();
    let pobjs: Vec<PObj> = (0..n)
        .map(|i| {
            let mut o = g.obj(if kind == 10 || (i + set) % 2 == 1 && kind != 2 { K::W } else { K::N });
            o.tags.push((format!("file{set}"), format!("object{i}")));
            o.tags.insert(0, (format!("frst{set}"), format!("1{set}")));
            o.meta.as_mut().unwrap().user = Some(format!("user{set}{i}"));
            o.lat += set as i64 * 777;
            o
        })
        .collect();
    let w = if set == 0 { Wire::default() } else { Wire { comp: Comp::Raw, ..Wire::default() } };
    let pbf = || {
        // the first two objects in one block, each other one in a block of its own
        let (a, b) = pobjs.split_at(n.min(2));
        let mut blocks = vec![Block::of(groups_of(a))];
        blocks.extend(b.iter().map(|o| Block::of(vec![one_group(vec![o.clone()])])));
        blocks[0].gran = Some(100 + 100 * set as i32);
        file_w(&blocks, &w)
    };
    let mobjs: Vec<MObj> = (0..n)
        .map(|i| {
            let mut o = xfull([K::W, K::R, K::N][(i + set) % 3], 40 + i as i64);
            o.tags.push((format!("file{set}"), format!("object{i}")));
            o.tags.insert(0, (format!("frst{set}"), format!("1{set}")));
            o.user = Some(format!("user{set}{i}"));
            o
        })
        .collect();
    let css: Vec<Cs> = (0..n)
        .map(|i| {
            let mut c = Cs::full(60 + i as u32);
            c.tags.push((format!("file{set}"), format!("changeset{i}")));
            c.tags.insert(0, (format!("frst{set}"), format!("1{set}")));
            c.user = Some(format!("user{set}{i}"));
            c
        })
        .collect();
    let own = |b: Vec<u8>| std::io::Cursor::new(b);
    match kind {
        0 => {
            let b = own(pbf());
            osm_machine(move || osmio::stringpbf::PBFReader::new(b))
        }
        1 => {
            let b = own(pbf());
            osm_machine(move || osmio::arcpbf::PBFReader::new(b))
        }
        2 => {
            let b = own(pbf());
            iter_machine(move || osmio::stringpbf::PBFNodePositionReader::from_reader(b), |(i, (a, b))| Any::P(i, (a.inner(), b.inner())))
        }
        3 => {
            let b = own(xml_doc(&mobjs, &Style::default()).bytes);
            osm_machine(move || XMLReader::new(b))
        }
        4 => {
            let secs = vec![(if set == 0 { Sec::Create } else { Sec::Delete }, mobjs)];
            let b = own(osc_doc(&secs, &Style::default()).bytes);
            osm_machine(move || OSCReader::new(b))
        }
        5 => {
            // the second input lacks an id
            let sp = if set == 0 { vec![] } else { vec![Spoil::Drop(n - 1, "id")] };
            let b = own(cs_doc(&css, &Style::default(), &sp).bytes);
            iter_machine(
                move || ChangesetReader::new(b),
                |c| match c {
                    Ok(c) => Any::C(GotCs::of(c)),
                    Err(e) => Any::E(e.to_string()),
                },
            )
        }
        6 => {
            let b = own(cs_doc(&css, &Style::default(), &[]).bytes);
            iter_machine(
                move || tag_reader(b),
                |c| match c {
                    Ok((i, t)) => Any::T(i, t),
                    Err(e) => Any::E(e.to_string()),
                },
            )
        }
        7 => {
            let b = own(bz(&cs_doc(&css, &Style::default(), &[]).bytes, 1 + set as u32));
            iter_machine(
                move || ChangesetReader::from_bz2_reader(b),
                |c| match c {
                    Ok(c) => Any::C(GotCs::of(c)),
                    Err(e) => Any::E(e.to_string()),
                },
            )
        }
        8 => wr_machine::<XMLWriter<Sink>>(mobjs, if set == 0 { Fam::S } else { Fam::A }),
        9 => wr_machine::<OSCWriter<Sink>>(mobjs, if set == 0 { Fam::S } else { Fam::A }),
        _ => {
            let mut b = pbf();
            if set == 1 {
                // the last block is cut
                b.truncate(b.len() - 3);
            }
            let b = own(b);
            osm_machine(move || osmio::stringpbf::PBFReader::new(b))
        }
    }
}
/// What one of them does alone, in a thread that has done nothing else.
fn alone(which: usize, n: usize) -> Vec<Step> {
    thread_local!(static SEEN: std::cell::RefCell<std::collections::HashMap<(usize, usize), Vec<Step>>> = Default::default());
    SEEN.with(|s| {
        s.borrow_mut()
            .entry((which, n))
            .or_insert_with(|| {
                std::thread::spawn(move || {
                    let mut m = machine(which, n);
                    (0..n + 2).map(|_| m()).collect()
                })
                .join()
                .expect("HARNESS: machine")
            })
            .clone()
    })
}
/// Each one in a thread of its own, advanced one at a time in the order chosen.
fn threads(ch: &mut Ch, cx: &mut Cx, which: &[usize], n: usize) -> Res {
    let want: Vec<Vec<Step>> = which.iter().map(|w| alone(*w, n)).collect();
    std::thread::scope(|s| {
        let ends: Vec<_> = which
            .iter()
            .map(|w| {
                let w = *w;
                let (go, gone) = std::sync::mpsc::channel::<()>();
                let (put, get) = std::sync::mpsc::channel::<Step>();
                s.spawn(move || {
                    let mut m = machine(w, n);
                    while gone.recv().is_ok() {
                        let _ = put.send(m());
                    }
                });
                (go, get)
            })
            .collect();
        let mut at = vec![0; which.len()];
        let mut order = vec![];
        loop {
            let live: Vec<usize> = (0..which.len()).filter(|i| at[*i] < n + 2).collect();
            if live.is_empty() {
                break;
            }
            let i = live[ch.pick(live.len())];
            order.push(i);
            let got = if ends[i].0.send(()).is_ok() { ends[i].1.recv().ok() } else { None };
            cx.steps(1);
            if got.as_ref() != want[i].get(at[i]) {
                return Err(format!("{:?} in threads of their own, steps in the order {order:?}: step {} of {} (number {i}) gives {got:?}, alone it gives {:?}", which.iter().map(|w| mname(*w)).collect::<Vec<_>>(), at[i], mname(which[i]), want[i][at[i]]).into());
            }
            at[i] += 1;
        }
        cx.state(&(which, order));
        Ok(())
    })
}
fn interleave(ch: &mut Ch, cx: &mut Cx, which: &[usize], n: usize) -> Res {
    let want: Vec<Vec<Step>> = which.iter().map(|w| alone(*w, n)).collect();
    let mut ms: Vec<Machine> = which.iter().map(|w| machine(*w, n)).collect();
    let mut at = vec![0; ms.len()];
    let mut order = vec![];
    loop {
        let live: Vec<usize> = (0..ms.len()).filter(|i| at[*i] < n + 2).collect();
        if live.is_empty() {
            break;
        }
        let i = live[ch.pick(live.len())];
        order.push(i);
        let got = ms[i]();
        cx.steps(1);
        if got != want[i][at[i]] {
            return Err(format!("{:?} side by side, steps in the order {order:?}: step {} of {} (number {i}) gives {got:?}, alone it gives {:?}", which.iter().map(|w| mname(*w)).collect::<Vec<_>>(), at[i], mname(which[i]), want[i][at[i]]).into());
        }
        at[i] += 1;
    }
    cx.state(&(which, order));
    Ok(())
}
pub fn c30(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(sc("pairs", 0, move |ch, cx| {
        let a = ch.pick(MACHINES);
        let b = ch.pick(MACHINES);
        interleave(ch, cx, &[a, b], if thorough { 3 } else { 2 })
    }));
    v.push(sc("threads", 0, move |ch, cx| {
        let a = ch.pick(MACHINES);
        let b = ch.pick(MACHINES);
        threads(ch, cx, &[a, b], if thorough { 3 } else { 2 })
    }));
    v.push(sc("dropped", 0, move |ch, cx| {
        // either one may be dropped at any point; the other one goes on as if alone
        let which = [ch.pick(MACHINES), ch.pick(MACHINES)];
        let n = if thorough { 2 } else { 1 };
        let want: Vec<Vec<Step>> = which.iter().map(|w| alone(*w, n)).collect();
        let mut ms: Vec<Option<Machine>> = which.iter().map(|w| Some(machine(*w, n))).collect();
        let mut at = [0; 2];
        let mut order = vec![];
        loop {
            let live: Vec<usize> = (0..2).filter(|i| ms[*i].is_some() && at[*i] < n + 2).collect();
            if live.is_empty() {
                break;
            }
            let c = ch.pick(live.len() * 2);
            let i = live[c / 2];
            order.push((i, c % 2 == 1));
            if c % 2 == 1 {
                ms[i] = None;
                continue;
            }
            let got = ms[i].as_mut().unwrap()();
            cx.steps(1);
            if got != want[i][at[i]] {
                return Err(format!("{:?} side by side, (which, dropped) in the order {order:?}: step {} of {} gives {got:?}, alone it gives {:?}", which.iter().map(|w| mname(*w)).collect::<Vec<_>>(), at[i], mname(which[i]), want[i][at[i]]).into());
            }
            at[i] += 1;
        }
        cx.state(&(which, order));
        Ok(())
    }));
    v.push(sc("triples", 0, move |ch, cx| {
        let k: &[usize] = if thorough { &[0, 1, 3, 4, 5, 6, 8, 9, 11, 12, 14, 15] } else { &[0, 1, 4, 6, 9, 14] };
        let w = [*ch.of(k), *ch.of(k), *ch.of(k)];
        interleave(ch, cx, &w, 1)
    }));
    v.push(sc("sizes", 0, move |ch, cx| {
        // blocks of very different sizes against each other: all orders with a bounded number of
        // switches, each reader of a kind of its own
        let shapes: &[&[usize]] = &[&[7, 1, 1], &[1, 8], &[3, 0, 4], &[9]];
        let which = [(ch.pick(4), ch.pick(shapes.len())), (ch.pick(4), ch.pick(shapes.len()))];
        let mut ms = vec![];
        let mut want: Vec<Vec<Step>> = vec![];
        for (i, (kind, shape)) in which.iter().enumerate() {
            let mut g = IdGen::new();
            let bl: Vec<Block> = shapes[*shape]
                .iter()
                .map(|n| {
                    let mut v = g.objs(if *kind == 3 { K::R } else { K::N }, *n);
                    v.iter_mut().for_each(|o| {
                        o.lat += i as i64 * 500;
                        o.tags.push((format!("file{i}"), format!("of {n}")))
                    });
                    Block::of(groups_of(&v))
                })
                .collect();
            let d = std::io::Cursor::new(file_w(&bl, &Wire { comp: if i == 0 { Comp::Zlib(6) } else { Comp::Raw }, ..Wire::default() }));
            let all = expect_all(&bl);
            let (m, mut w): (Machine, Vec<Step>) = match kind {
                0 | 3 => (osm_machine(move || osmio::stringpbf::PBFReader::new(d)), all.into_iter().map(|o| Step::Item(Any::O(o))).collect()),
                1 => (osm_machine(move || osmio::arcpbf::PBFReader::new(d)), all.into_iter().map(|o| Step::Item(Any::O(o))).collect()),
                _ => (
                    iter_machine(move || osmio::stringpbf::PBFNodePositionReader::from_reader(d), |(i, (a, b))| Any::P(i, (a.inner(), b.inner()))),
                    all.iter().map(|o| Step::Item(Any::P(o.id, o.pos.unwrap()))).collect(),
                ),
            };
            w.push(Step::Ended);
            ms.push(m);
            want.push(w);
        }
        let mut at = [0; 2];
        let mut order = vec![];
        let mut i = ch.pick(2);
        let switches = if thorough { 5 } else { 3 };
        while at[0] < want[0].len() || at[1] < want[1].len() {
            let left = want[i].len() - at[i];
            // how many steps before the other one's turn
            let turn = if order.len() >= switches || at[1 - i] == want[1 - i].len() { left } else { ch.pick(left + 1) };
            order.push((i, turn));
            for _ in 0..turn {
                let got = ms[i]();
                cx.steps(1);
                if got != want[i][at[i]] {
                    return Err(format!("(reader, blocks) {:?} side by side, (which, steps) in the order {order:?}: step {} of number {i} gives {got:?}, not {:?}", which.map(|(k, s)| (["stringpbf", "arcpbf", "positions", "stringpbf relations"][k], shapes[s])), at[i], want[i][at[i]]).into());
                }
                at[i] += 1;
            }
            i = 1 - i;
        }
        cx.state(&(which, order));
        Ok(())
    }));
    v.push(sc("kept", 0, move |ch, cx| {
        // objects are kept while their reader goes on, ends and is dropped, and while others read
        let (a, b) = (ch.pick(4), ch.pick(4));
        let (n, m) = (ch.pick(4), ch.pick(4));
        let mk = |which: usize, n: usize, tag: &str| -> (Vec<u8>, Vec<MObj>) {
            let objs: Vec<MObj> = (0..n).map(|i| xfull(KINDS[(i + n) % 3], i as i64 + 1)).map(|mut o| { o.user = Some(tag.to_string()); o.tags.push((tag.into(), tag.into())); o }).collect();
            match which {
                0 | 1 => {
                    let p: Vec<PObj> = objs.iter().map(PObj::of).collect();
                    let bl = [Block::of(groups_of(&p)), Block::of(groups_of(&p))];
                    (file(&bl), expect_all(&bl))
                }
                2 => (xml_doc(&objs, &Style::default()).bytes, objs),
                _ => {
                    let secs = vec![(Sec::Modify, objs)];
                    (osc_doc(&secs, &Style::default()).bytes, osc_expect(&secs))
                }
            }
        };
        enum Kept {
            S(Vec<osmio::obj_types::StringOSMObj>),
            A(Vec<osmio::obj_types::ArcOSMObj>),
        }
        let read = |which: usize, b: Vec<u8>| -> Result<Kept, String> {
            guard(|| match which {
                0 => Kept::S(osmio::stringpbf::PBFReader::new(b.as_slice()).objects().collect()),
                1 => Kept::A(osmio::arcpbf::PBFReader::new(b.as_slice()).objects().collect()),
                2 => Kept::S(XMLReader::new(b.as_slice()).objects().collect()),
                _ => Kept::S(OSCReader::new(b.as_slice()).objects().collect()),
            })
        };
        let look = |k: &Kept| -> Vec<MObj> {
            match k {
                Kept::S(v) => v.iter().map(observe).collect(),
                Kept::A(v) => v.iter().map(observe).collect(),
            }
        };
        let (d1, w1) = mk(a, n, "first");
        let (d2, w2) = mk(b, m, "second");
        let k1 = read(a, d1)?;
        let k2 = read(b, d2)?;
        let (g1, g2) = (look(&k1), look(&k2));
        cx.steps(g1.len() + g2.len());
        cx.state(&(&g1, &g2));
        for (g, w) in [(g1, w1), (g2, w2)] {
            if let Some(d) = diff(&g, &w) {
                return Err(format!("objects kept after reading on (readers {a} and {b}): {d}").into());
            }
        }
        Ok(())
    }));
    v.push(sc("large", 0, move |ch, cx| {
        // block by block against each other: two files of many blocks, read in turns of several sizes
        let turn = *ch.of(&[1usize, 2, 7, 50]);
        let (a, b) = (ch.pick(2), ch.pick(2));
        let mk = |s: &str| {
            let mut g = IdGen::new();
            let bl: Vec<Block> = (0..40)
                .map(|i| {
                    let mut v = g.objs(KINDS[i % 3], 9);
                    v.iter_mut().for_each(|o| o.tags.push((s.into(), format!("{s}{i}"))));
                    Block::of(vec![one_group(v)])
                })
                .collect();
            (file(&bl), expect_all(&bl))
        };
        let ((d1, w1), (d2, w2)) = (mk("one"), mk("two"));
        let own = |k: usize, d: Vec<u8>| if k == 0 { osm_machine(move || osmio::stringpbf::PBFReader::new(std::io::Cursor::new(d))) } else { osm_machine(move || osmio::arcpbf::PBFReader::new(std::io::Cursor::new(d))) };
        let (mut m1, mut m2) = (own(a, d1), own(b, d2));
        let (mut i1, mut i2) = (0, 0);
        while i1 < w1.len() || i2 < w2.len() {
            for _ in 0..turn.min(w1.len() - i1) {
                if m1() != Step::Item(Any::O(w1[i1].clone())) {
                    return Err(format!("object {i1} of the first of two files read in turns of {turn} is not {:?}", w1[i1]).into());
                }
                i1 += 1;
            }
            for _ in 0..turn.min(w2.len() - i2) {
                if m2() != Step::Item(Any::O(w2[i2].clone())) {
                    return Err(format!("object {i2} of the second of two files read in turns of {turn} is not {:?}", w2[i2]).into());
                }
                i2 += 1;
            }
        }
        cx.steps(i1 + i2);
        cx.state(&(turn, a, b));
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------ C31
/// A document with parts of it changed: if it is no longer well-formed, reading has to fail, after
/// everything that was complete before the change.
fn bad_doc(cx: &mut Cx, t: &TDoc, doc: &[u8], at: usize, desc: &dyn Fn() -> String) -> Res {
    let verdict = crate::xmlparse::parse_up_to(doc, false);
    cx.inner += 1;
    let r = read_any(t.ak, doc);
    cx.steps(r.items.len() + 1);
    let got = &r.items[..r.first_failure()];
    cx.state(&(verdict.is_ok(), got.len(), r.failed()));
    let Err(why) = verdict else { return Ok(()) };
    let say = |m: String| -> Res { Err(format!("{}: {why}, {m}; delivered {:?}, end {:?}; {}; document: {}", desc(), r.items.iter().take(8).collect::<Vec<_>>(), r.end, t.desc, short_doc(doc)).into()) };
    if !r.failed() {
        return say("but reading ended normally".into());
    }
    for (i, (w, _)) in t.want.iter().take_while(|w| w.1.1 <= at).enumerate() {
        if got.get(i) != Some(w) {
            return say(format!("and item {i}, which is complete before that, is not delivered as {w:?}"));
        }
    }
    Ok(())
}
const BYTES: &[&[u8]] = &[b"<", b">", b"&", b"\"", b"'", b"/", b"=", b"?", b"!", b"-", b" ", b"\n", b"a", b":", b";", b"#", b"]", b"0", b"\x00", b"\x01", b"\x1f", "é".as_bytes(), b"\xff", b"\xc3", "\u{fffe}".as_bytes()];
/// The tags of a document (start, end, is end tag), outside of comments and the like.
fn tokens(doc: &[u8]) -> Vec<(usize, usize, bool)> {
    let mut v = vec![];
    let mut i = 0;
    while i < doc.len() {
        if doc[i] == b'<' && i + 1 < doc.len() && doc[i + 1] != b'!' && doc[i + 1] != b'?' {
            let mut j = i;
            let mut q = None;
            loop {
                match (q, doc[j]) {
                    (None, b'>') => break,
                    (None, c @ (b'"' | b'\'')) => q = Some(c),
                    (Some(c), d) if c == d => q = None,
                    _ => {}
                }
                j += 1;
            }
            v.push((i, j + 1, doc[i + 1] == b'/'));
            i = j + 1;
        } else {
            i += 1;
        }
    }
    v
}
pub fn c31(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let tiny = move |rk: Rk, s: &Style| -> TDoc {
        let mut w = MObj::new(K::W, 3);
        w.tags = vec![("k&".into(), "é".into()), ("b".into(), "".into())];
        w.nodes = vec![1, 2];
        w.user = Some("u'\"".into());
        let mut r = MObj::new(K::R, 5);
        r.members = vec![(K::N, 1, "x".into())];
        r.version = Some(2);
        let objs = vec![MObj { pos: Some((1, -20_000_000)), ..MObj::new(K::N, 4) }, w, r];
        let (doc, want) = if rk == Rk::Xml {
            (xml_doc(&objs, s), objs)
        } else {
            let secs = vec![(Sec::Create, objs[..1].to_vec()), (Sec::Delete, objs[1..].to_vec())];
            (osc_doc(&secs, s), osc_expect(&secs))
        };
        let want = want.into_iter().map(Any::O).zip(doc.spans.iter().copied()).collect();
        TDoc { doc, ak: Ak::O(rk, None), want, desc: format!("{rk:?} {s:?}") }
    };
    let styles = |thorough: bool| -> Vec<Style> {
        let d = Style { decl: 1, ..Style::default() };
        let mut v = vec![d.clone(), Style { closing: 1, quote: 1, ws: 1, ..d.clone() }, Style { comment: 1, pi: 1, text: 3, extra_el: 2, tail: 2, ..d.clone() }];
        if thorough {
            v.extend([Style { refs: 2, ws: 2, text: 2, root: 2, ..d.clone() }, Style { ws: 3, comment: 4, nested: 2, closing: 2, ..d.clone() }, Style { decl: 7, quote: 2, refs: 4, child_order: 2, visible: 1, ..d }]);
        }
        v
    };
    for rk in [Rk::Xml, Rk::Osc] {
        v.push(sc(&format!("bytes-{rk:?}"), 0, move |ch, cx| {
            let s = ch.of(&styles(thorough)).clone();
            let t = tiny(rk, &s);
            let doc = &t.doc.bytes;
            let at = ch.pick(doc.len());
            let how = ch.pick(3);
            if how == 2 {
                let d = [&doc[..at], &doc[at + 1..]].concat();
                return bad_doc(cx, &t, &d, at, &|| format!("byte {at} left out"));
            }
            for b in BYTES {
                let d = [&doc[..at], b, &doc[at + how..]].concat();
                bad_doc(cx, &t, &d, at, &|| format!("byte {at} {} {:?}", ["preceded by", "replaced by"][how], String::from_utf8_lossy(b)))?;
            }
            Ok(())
        }));
        if thorough {
            v.push(sc(&format!("byte-pairs-{rk:?}"), 0, move |ch, cx| {
                let t = tiny(rk, &styles(false)[ch.pick(2)]);
                let doc = &t.doc.bytes;
                let at = ch.pick(doc.len() - 1);
                let d2 = 1 + ch.pick(4);
                if at + d2 >= doc.len() {
                    return Ok(());
                }
                for a in BYTES {
                    for b in BYTES {
                        let d = [&doc[..at], a, &doc[at + 1..at + d2], b, &doc[at + d2 + 1..]].concat();
                        bad_doc(cx, &t, &d, at, &|| format!("byte {at} replaced by {:?} and byte {} by {:?}", String::from_utf8_lossy(a), at + d2, String::from_utf8_lossy(b)))?;
                    }
                }
                Ok(())
            }));
        }
    }
    // tags that are missing, doubled, renamed or out of place
    for &ak in XAK {
        v.push(sc(&format!("tags-{}", match ak { Ak::O(rk, _) => format!("{rk:?}"), x => format!("{x:?}") }), 0, move |ch, cx| {
            let set = ch.pick(4);
            let s = [Style { decl: 1, ..Style::default() }, Style { closing: 1, nested: 2, extra_el: 4, ws: 1, ..Style::default() }][ch.pick(2)].clone();
            let t = tdoc(ak, set, &s);
            let doc = &t.doc.bytes;
            let tk = tokens(doc);
            let i = ch.pick(tk.len());
            let (a, b, end) = tk[i];
            let (pre, tag, post) = (&doc[..a], &doc[a..b], &doc[b..]);
            let how = ch.pick(6);
            let d = match how {
                0 => [pre, post].concat(),
                1 => [pre, tag, tag, post].concat(),
                2 if end => [pre, b"</x>", post].concat(),
                2 => return Ok(()),
                3 if end => [pre, &tag[..tag.len() - 1], b"x>", post].concat(),
                3 => [pre, b"<x>", tag, post].concat(),
                4 => [pre, b"</x>", tag, post].concat(),
                _ => match tk.get(i + 1) {
                    Some(&(c, e, _)) => [pre, &doc[c..e], &doc[b..c], tag, &doc[e..]].concat(),
                    None => return Ok(()),
                },
            };
            bad_doc(cx, &t, &d, a, &|| format!("tag {:?} {}", String::from_utf8_lossy(tag), ["left out", "doubled", "replaced by </x>", "renamed or preceded by <x>", "preceded by </x>", "exchanged with the next one"][how]))
        }));
    }
    // objects which have no valid id
    v.push(sc("ids", 1, move |ch, cx| {
        let rk = *ch.of(&[Rk::Xml, Rk::Osc]);
        let filter = *ch.of(&[None, Some(K::N), Some(K::W), Some(K::R)]);
        let n = 1 + ch.pick(3);
        let objs: Vec<MObj> = (0..n).map(|i| xfull(*ch.of(&KINDS), i as i64 + 71)).collect();
        let bad = ch.pick(n);
        let idv = *ch.of(&[None, Some(""), Some("x"), Some("71x"), Some("1.5"), Some("9223372036854775808"), Some("-"), Some("0x10"), Some("１"), Some("7 1")]);
        let s = style_dev(ch);
        let secs: Vec<(Sec, Vec<MObj>)> = objs.iter().enumerate().map(|(i, o)| (SECS[(i + n) % 3], vec![o.clone()])).collect();
        let doc = if rk == Rk::Xml { xml_doc(&objs, &s) } else { osc_doc(&secs, &s) };
        let want = if rk == Rk::Xml { objs.clone() } else { osc_expect(&secs) };
        let (a, b) = doc.spans[bad];
        // the id of that object, whatever its spelling, is replaced: it is written with a style of its own
        let plain = Style { visible: s.visible, num: s.num, ..Style::default() };
        let mut g = Gen::new(&plain);
        let (x, y) = g.obj(&objs[bad], 1);
        let txt = g.out[x..y].replacen(&format!(" id=\"{}\"", objs[bad].id), &idv.map_or(String::new(), |v| format!(" id=\"{v}\"")), 1);
        let d = [&doc.bytes[..a], txt.as_bytes(), &doc.bytes[b..]].concat();
        let r = read_any(Ak::O(rk, filter), d.as_slice());
        cx.steps(r.items.len() + 1);
        cx.state(&(rk, bad, n, idv, r.items.len()));
        let lead = want_objs(Ak::O(rk, filter), &want[..bad]);
        if r.items != lead || !r.failed() {
            return Err(format!("{rk:?} reader, filter {filter:?}: object {bad} of {n} has the id {idv:?}: expected a failure after {} objects, got {:?}, end {:?}; document: {}", lead.len(), r.items, r.end, short_doc(&d)).into());
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------ C32
/// String table of the blocks of C32: entries 0 to 4 are texts, 5 is no UTF-8.
const ST: [&[u8]; 6] = [b"", b"k", b"v", b"user", b"role", b"a\xff\xfeb"];
fn text(i: u64) -> Option<String> {
    ST.get(i as usize).and_then(|b| std::str::from_utf8(b).ok()).map(|s| s.to_string())
}
fn raw_block(group: &[u8], bad_text: bool) -> Vec<u8> {
    let w = Wire::default();
    let mut s = PB::new(&w);
    for x in &ST[..if bad_text { 6 } else { 5 }] {
        s.bytes(1, x);
    }
    let mut p = PB::new(&w);
    p.bytes(1, &s.b);
    p.bytes(2, group);
    p.b
}
struct RawObj {
    kind: K,
    id: Option<i64>,
    keys: Vec<u64>,
    vals: Vec<u64>,
    user: Option<u64>,
    pos: (Option<i64>, Option<i64>),
    roles: Vec<u64>,
    memids: Vec<i64>,
    types: Vec<u64>,
}
impl RawObj {
    fn new(kind: K, id: i64) -> RawObj {
        let r = kind == K::R;
        RawObj { kind, id: Some(id), keys: vec![1], vals: vec![2], user: Some(3), pos: (Some(5 + id), Some(6 + id)), roles: if r { vec![4] } else { vec![] }, memids: if r { vec![70 + id] } else { vec![] }, types: if r { vec![1] } else { vec![] } }
    }
    fn uses_bad(&self) -> bool {
        self.keys.iter().chain(&self.vals).chain(&self.roles).chain(&self.user).any(|i| *i == 5)
    }
    fn bytes(&self) -> Vec<u8> {
        let w = Wire::default();
        let mut d = PB::new(&w);
        if let Some(id) = self.id {
            if self.kind == K::N { d.sint(1, id) } else { d.int(1, id) }
        }
        d.rep(2, &self.keys);
        d.rep(3, &self.vals);
        if let Some(u) = self.user {
            let mut i = PB::new(&w);
            i.int(5, u as i64);
            d.bytes(4, &i.b);
        }
        match self.kind {
            K::N => {
                if let Some(v) = self.pos.0 {
                    d.sint(8, v);
                }
                if let Some(v) = self.pos.1 {
                    d.sint(9, v);
                }
            }
            K::W => d.rep(8, &[zz(90), zz(1)]),
            K::R => {
                d.rep(8, &self.roles);
                let mut last = 0;
                d.rep(9, &self.memids.iter().map(|m| { let x = zz(m - last); last = *m; x }).collect::<Vec<_>>());
                d.rep(10, &self.types);
            }
        }
        let mut p = PB::new(&w);
        p.bytes(match self.kind { K::N => 1, K::W => 3, K::R => 4 }, &d.b);
        p.b
    }
    /// The object, if what is stored makes sense.
    fn expect(&self) -> Option<MObj> {
        let mut m = MObj::new(self.kind, self.id?);
        if self.keys.len() != self.vals.len() {
            return None;
        }
        for (k, v) in self.keys.iter().zip(&self.vals) {
            m.tags.push((text(*k)?, text(*v)?));
        }
        if let Some(u) = self.user {
            m.user = Some(text(u)?);
        }
        match self.kind {
            K::N => m.pos = Some((i32::try_from(self.pos.0?).ok()?, i32::try_from(self.pos.1?).ok()?)),
            K::W => m.nodes = vec![90, 91],
            K::R => {
                if self.roles.len() != self.memids.len() || self.types.len() != self.memids.len() {
                    return None;
                }
                for i in 0..self.roles.len() {
                    m.members.push((*KINDS.get(self.types[i] as usize)?, self.memids[i], text(self.roles[i])?));
                }
            }
        }
        Some(m)
    }
}
/// A file with a block before and a block behind the one in question. `objs`: what that block
/// says, None from the first object on that makes no sense. `whole`: the group as such makes sense.
fn bad_block(cx: &mut Cx, ak: Ak, group: &[u8], objs: &[Option<MObj>], bad_text: bool, desc: &dyn Fn() -> String) -> Res {
    let mut g = IdGen::new();
    let first = Block::of(vec![one_group(g.objs(KINDS[objs.len() % 3], 2))]);
    let last = Block::of(vec![one_group(g.objs(K::N, 1)), one_group(g.objs(K::W, 1)), one_group(g.objs(K::R, 1))]);
    let w = Wire { comp: if objs.len() % 2 == 0 { Comp::Raw } else { Comp::Zlib(6) }, ..Wire::default() };
    let mut b = header_frame(Hdr::Minimal, &w);
    b.extend(data_frame(&first, &w));
    b.extend(frame("OSMData", &raw_block(group, bad_text), &w));
    b.extend(data_frame(&last, &w));
    let ok: Vec<MObj> = objs.iter().map_while(|o| o.clone()).collect();
    let fine = ok.len() == objs.len();
    let r = read_any(ak, b.as_slice());
    cx.inner += 1;
    cx.steps(r.items.len() + 1);
    cx.state(&(fine, r.items.len(), r.failed()));
    let say = |m: String| -> Res { Err(format!("{ak:?}, {}: {m}; delivered {:?}, end {:?}", desc(), r.items, r.end).into()) };
    let all = want_objs(ak, &[first.expect(), ok.clone(), last.expect()].concat());
    if fine {
        if r.failed() || r.items != all {
            return say(format!("expected {all:?}"));
        }
        return Ok(());
    }
    // reported, after the block before and at most the objects in front of the one that makes no sense
    let lead = want_objs(ak, &[first.expect(), ok].concat());
    let min = want_objs(ak, &first.expect()).len();
    if !r.failed() {
        return say("what makes no sense is not reported".into());
    }
    if r.items.len() < min || r.items.len() > lead.len() || r.items[..] != lead[..r.items.len()] {
        return say(format!("before the failure only a leading part (at least {min}) of {lead:?} may be delivered"));
    }
    Ok(())
}
/// The readers which have to decode the objects of this kind.
fn decoders(k: K) -> [Ak; 4] {
    [Ak::O(Rk::Str, None), Ak::O(Rk::Arc, None), Ak::O(Rk::Str, Some(k)), Ak::O(Rk::Arc, Some(k))]
}
pub fn c32(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    // one object of a group spoiled in every one of many ways
    let plain = |cx: &mut Cx, ak: Ak, k: K, n: usize, at: usize, o: RawObj| -> Res {
        let mut group = vec![];
        let mut objs = vec![];
        let bad = o.uses_bad();
        let desc = format!("{k:?} {at} of {n}: id {:?} keys {:?} vals {:?} user {:?} pos {:?} roles {:?} memids {:?} types {:?}", o.id, o.keys, o.vals, o.user, o.pos, o.roles, o.memids, o.types);
        let mut o = Some(o);
        for i in 0..n {
            let x = if i == at { o.take().unwrap() } else { RawObj::new(k, 11 + i as i64) };
            group.extend(x.bytes());
            objs.push(x.expect());
        }
        bad_block(cx, ak, &group, &objs, bad, &|| desc.clone())
    };
    const IX: &[u64] = &[0, 1, 2, 5, 6, 7, 1000, u32::MAX as u64];
    v.push(sc("tags", 0, move |ch, cx| {
        let k = *ch.of(&KINDS);
        let ak = *ch.of(&decoders(k));
        let n = 1 + ch.pick(3);
        let at = ch.pick(n);
        let mut o = RawObj::new(k, 11 + at as i64);
        let max = if thorough { 3 } else { 2 };
        let (nk, nv) = (ch.pick(max + 1), ch.pick(max + 1));
        o.keys = (0..nk).map(|i| if i == 0 { *ch.of(IX) } else { *ch.of(&[1, 5, 6]) }).collect();
        o.vals = (0..nv).map(|i| if i == 0 { *ch.of(IX) } else { *ch.of(&[2, 5, 6]) }).collect();
        // a key or value beyond the string table
        plain(cx, ak, k, n, at, o)
    }));
    v.push(sc("members", 0, move |ch, cx| {
        let ak = *ch.of(&decoders(K::R));
        let n = 1 + ch.pick(2);
        let at = ch.pick(n);
        let mut o = RawObj::new(K::R, 11 + at as i64);
        let max = if thorough { 4 } else { 3 };
        let (a, b, c) = (ch.pick(max + 1), ch.pick(max + 1), ch.pick(max + 1));
        o.roles = (0..a as u64).map(|i| i % 5).collect();
        o.memids = (0..b as i64).map(|i| 5 - 3 * i).collect();
        o.types = (0..c as u64).map(|i| i % 3).collect();
        plain(cx, ak, K::R, n, at, o)
    }));
    v.push(sc("member-values", 0, move |ch, cx| {
        let ak = *ch.of(&decoders(K::R));
        let n = 1 + ch.pick(3);
        let at = ch.pick(n);
        let m = 1 + ch.pick(3);
        let bad = ch.pick(m);
        let mut o = RawObj::new(K::R, 11 + at as i64);
        o.memids = (0..m as i64).collect();
        o.roles = vec![4; m];
        o.types = vec![2; m];
        if ch.flag() {
            o.roles[bad] = *ch.of(&[0, 4, 5, 6, 7, 1 << 20, i32::MAX as u64, u64::MAX, i32::MIN as i64 as u64]);
        } else {
            o.types[bad] = *ch.of(&[0, 1, 2, 3, 4, 5, 255, 256, 257, 1 << 16, i32::MAX as u64, u64::MAX]);
        }
        plain(cx, ak, K::R, n, at, o)
    }));
    v.push(sc("ids-users-positions", 0, move |ch, cx| {
        let k = *ch.of(&KINDS);
        let n = 1 + ch.pick(3);
        let at = ch.pick(n);
        let mut o = RawObj::new(k, 11 + at as i64);
        let pos = [Some(0), None, Some(i32::MAX as i64), Some(i32::MAX as i64 + 1), Some(i32::MIN as i64), Some(i32::MIN as i64 - 1), Some(1 << 32), Some(-(1 << 32)), Some((1 << 32) + 5), Some(1 << 48)];
        let mut affects_pos = false;
        match ch.pick(4) {
            0 => {
                o.id = None;
                affects_pos = true;
            }
            1 => o.user = *ch.of(&[None, Some(0), Some(3), Some(5), Some(6), Some(1 << 20), Some(u32::MAX as u64)]),
            2 => {
                o.pos.0 = *ch.of(&pos);
                affects_pos = true;
            }
            _ => {
                o.pos.1 = *ch.of(&pos);
                affects_pos = true;
            }
        }
        if k != K::N && o.pos != (Some(5), Some(6)) && affects_pos && o.id.is_some() {
            return Ok(());
        }
        let mut aks = decoders(k).to_vec();
        if k == K::N && affects_pos {
            aks.push(Ak::Pos);
        }
        let ak = *ch.of(&aks);
        plain(cx, ak, k, n, at, o)
    }));
    // dense nodes: lists of every combination of lengths
    fn dense(ids: &[i64], lats: &[i64], lons: &[i64], kv: &[u64], users: Option<&[i64]>) -> Vec<u8> {
        let w = Wire::default();
        let dl = |v: &[i64]| -> Vec<u64> {
            let mut l = 0i64;
            v.iter().map(|x| { let d = zz(x - l); l = *x; d }).collect()
        };
        let mut d = PB::new(&w);
        d.rep(1, &dl(ids));
        if let Some(u) = users {
            let mut i = PB::new(&w);
            i.rep(5, &dl(u));
            d.bytes(5, &i.b);
        }
        d.rep(8, &dl(lats));
        d.rep(9, &dl(lons));
        d.rep(10, kv);
        let mut p = PB::new(&w);
        p.bytes(2, &d.b);
        p.b
    }
    v.push(sc("dense-lengths", 0, move |ch, cx| {
        let max = if thorough { 5 } else { 4 };
        let (a, b, c) = (ch.pick(max), ch.pick(max), ch.pick(max));
        let tags = ch.flag();
        let ids: Vec<i64> = (0..a as i64).map(|i| 20 + i * i).collect();
        let lats: Vec<i64> = (0..b as i64).map(|i| 7 - 3 * i).collect();
        let lons: Vec<i64> = (0..c as i64).map(|i| 5 * i).collect();
        let kv = if tags { [1, 2, 0].repeat(a) } else { vec![] };
        let ok = a == b && b == c;
        let mut objs: Vec<Option<MObj>> = (0..a.min(b).min(c))
            .map(|i| {
                let mut m = MObj::new(K::N, ids[i]);
                m.pos = Some((lats[i] as i32, lons[i] as i32));
                if tags {
                    m.tags = vec![("k".into(), "v".into())];
                }
                Some(m)
            })
            .collect();
        if !ok {
            objs.push(None);
        }
        let ak = *ch.of(&[&decoders(K::N)[..], &[Ak::Pos]].concat());
        bad_block(cx, ak, &dense(&ids, &lats, &lons, &kv, None), &objs, false, &|| format!("dense nodes with {a} ids, {b} latitudes, {c} longitudes"))
    }));
    // every list of tags up to a length
    v.push(sc("dense-tags", 0, move |ch, cx| {
        let ak = *ch.of(&decoders(K::N));
        let n = ch.pick(3);
        let l = ch.pick(if thorough { 8 } else { 6 });
        let kv: Vec<u64> = (0..l).map(|_| *ch.of(&[0u64, 1, 2, 5, 6])).collect();
        let kv = if thorough && ch.flag() { kv.iter().map(|x| if *x == 6 { u64::MAX } else { *x }).collect() } else { kv };
        let ids: Vec<i64> = (0..n as i64).map(|i| 20 + i).collect();
        let mut objs: Vec<Option<MObj>> = vec![];
        let mut it = kv.iter();
        'a: for i in 0..n {
            let mut m = MObj::new(K::N, ids[i]);
            m.pos = Some((ids[i] as i32, ids[i] as i32));
            while !kv.is_empty() {
                match it.next() {
                    Some(0) => break,
                    Some(k) => {
                        let (Some(k), Some(v)) = (text(*k), it.next().and_then(|v| text(*v))) else {
                            objs.push(None);
                            break 'a;
                        };
                        m.tags.push((k, v));
                    }
                    None => {
                        objs.push(None);
                        break 'a;
                    }
                }
            }
            objs.push(Some(m));
        }
        if it.next().is_some() && objs.iter().all(|o| o.is_some()) {
            objs.push(None);
        }
        // whether an entry 0 which stands for a value is a text or the end is open
        if kv_zero_value(&kv) {
            return Ok(());
        }
        bad_block(cx, ak, &dense(&ids, &ids, &ids, &kv, None), &objs, kv.contains(&5), &|| format!("{n} dense nodes with keys_vals {kv:?}"))
    }));
    v.push(sc("dense-values", 0, move |ch, cx| {
        let n = 1 + ch.pick(3);
        let at = ch.pick(n);
        let mut ids: Vec<i64> = (0..n as i64).map(|i| 20 + i).collect();
        let (mut lats, mut lons) = (ids.clone(), ids.clone());
        let mut users: Vec<i64> = vec![3; n];
        ids[at] = 3;
        let which = ch.pick(3);
        match which {
            0 => users[at] = *ch.of(&[0i64, 3, 5, 6, 1 << 20, -1, i32::MIN as i64]),
            1 => lats[at] = *ch.of(&[0i64, i32::MAX as i64, i32::MAX as i64 + 1, i32::MIN as i64, i32::MIN as i64 - 1, 1 << 32, (1 << 32) + 9, 1 << 48]),
            _ => lons[at] = *ch.of(&[0i64, i32::MAX as i64, i32::MAX as i64 + 1, i32::MIN as i64, i32::MIN as i64 - 1, 1 << 32, (1 << 32) + 9, -(1 << 48)]),
        }
        let objs: Vec<Option<MObj>> = (0..n)
            .map(|i| {
                let mut m = MObj::new(K::N, ids[i]);
                m.pos = Some((i32::try_from(lats[i]).ok()?, i32::try_from(lons[i]).ok()?));
                m.user = Some(text(users[i] as u64)?);
                Some(m)
            })
            .collect();
        let ak = *ch.of(&[&decoders(K::N)[..], if which > 0 { &[Ak::Pos] } else { &[] }].concat());
        if ak == Ak::Pos && which == 0 {
            return Ok(());
        }
        let bad = users.contains(&5);
        bad_block(cx, ak, &dense(&ids, &lats, &lons, &[], Some(&users)), &objs, bad, &|| format!("dense nodes, latitudes {lats:?} longitudes {lons:?} users {users:?}"))
    }));
    v
}
/// A value of 0 behind a key: the end of the list of a node, or the text "".
fn kv_zero_value(kv: &[u64]) -> bool {
    let mut it = kv.iter();
    while let Some(k) = it.next() {
        if *k != 0 && it.next() == Some(&0) {
            return true;
        }
    }
    false
}

// ------------------------------------------------------------------ C33
/// Reads `take` objects, then looks at the source and hands it back.
fn hand_back<'a, R: OSMReader<R = Src<'a>>>(cx: &mut Cx, mut r: R, f: &Framed, take: usize, filter: Option<K>, at_end: bool, sorted: usize) -> Result<(Src<'a>, usize), String> {
    let want = want_objs(Ak::O(Rk::Str, filter), &f.objs);
    let mut got = 0;
    if r.inner().pos != 0 {
        return Err(format!("the new reader has read {} bytes already", r.inner().pos));
    }
    match sorted {
        1 if filter.is_none() => r.assume_sorted(),
        2 => r.assume_unsorted(),
        _ => {}
    }
    for i in 0..take.min(want.len()) {
        let o = guard(|| match filter {
            None => r.next().map(|o| observe(&o)),
            Some(K::N) => OSMReader::nodes(&mut r).next().map(|o| observe_node(&o)),
            Some(K::W) => OSMReader::ways(&mut r).next().map(|o| observe_way(&o)),
            Some(K::R) => OSMReader::relations(&mut r).next().map(|o| observe_rel(&o)),
        })?;
        cx.steps(1);
        if o.map(Any::O).as_ref() != Some(&want[i]) {
            return Err(format!("object {i} is not {:?}", want[i]));
        }
        got += 1;
        // the number of this object in the file, and the end of the block it is in
        let n = (0..f.objs.len()).filter(|j| filter.is_none_or(|k| f.objs[*j].kind == k)).nth(i).unwrap();
        let end = f.bounds.iter().find(|b| b.1 > n).unwrap().0;
        let pos = r.inner().pos;
        if pos != end {
            return Err(format!("after object {i}, which is in the block that ends at {end}, the source is at {pos}"));
        }
        let p2 = r.objects().inner().inner().pos;
        if p2 != pos {
            return Err(format!("objects().inner() shows the source at {p2}, inner() at {pos}"));
        }
    }
    if at_end {
        let o = guard(|| r.next().map(|o| observe(&o)))?;
        if take >= want.len() && filter.is_none() {
            if o.is_some() {
                return Err(format!("another object {o:?}"));
            }
            if r.inner().pos != f.bytes.len() {
                return Err(format!("at the end of the file the source is at {} of {}", r.inner().pos, f.bytes.len()));
            }
        }
    }
    if sorted == 3 {
        r.assume_sorted();
    }
    let pos = r.inner().pos;
    let s = r.into_inner();
    if s.pos != pos {
        return Err(format!("into_inner() gives the source at {}, inner() showed it at {pos}", s.pos));
    }
    Ok((s, got))
}
pub fn c33(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(sc("pbf", 0, move |ch, cx| {
        let which = ch.pick(14);
        let f = framed_file(which);
        let rk = *ch.of(&PBFS);
        let filter = *ch.of(&[None, Some(K::N), Some(K::W), Some(K::R)]);
        let take = ch.pick(f.objs.len() + 1);
        let at_end = ch.flag();
        let chunk = *ch.of(if thorough { &[usize::MAX, 1, 2, 7, 64][..] } else { &[usize::MAX, 1, 7][..] });
        let then = ch.pick(3);
        let sorted = ch.pick(4);
        let src = Src::new(&f.bytes).chunk(chunk);
        let desc = || format!("file {which} (blocks end at {:?}), {rk:?} reader, filter {filter:?}, {take} objects read, reads of {chunk} bytes, sorted assumption {sorted}", f.bounds);
        let r = match rk {
            Rk::Str => hand_back(cx, osmio::stringpbf::PBFReader::new(src), &f, take, filter, at_end, sorted),
            _ => hand_back(cx, osmio::arcpbf::PBFReader::new(src), &f, take, filter, at_end, sorted),
        };
        let (s, _) = r.map_err(|e| format!("{}: {e}", desc()))?;
        let pos = s.pos;
        // a reader on the rest goes on with the next block
        let rest: Vec<MObj> = match f.bounds.iter().rfind(|b| b.0 == pos) {
            Some(b) => f.objs[b.1..].to_vec(),
            None => return Err(format!("{}: the source is handed back in the middle of a block, at {pos}", desc()).into()),
        };
        let ak = [Ak::O(Rk::Str, None), Ak::O(Rk::Arc, None), Ak::Pos][then];
        let r = read_any(ak, s);
        cx.steps(r.items.len() + 1);
        cx.state(&(which, pos, then));
        check_exact(&r, &want_objs(ak, &rest)).map_err(|e| format!("{}: {ak:?} on the source that was handed back at {pos}: {e}", desc()).into())
    }));
    v.push(sc("xml", 0, move |ch, cx| {
        // readers that buffer: the same source, advanced at least behind what was delivered
        let ak = *ch.of(XAK);
        if ak == Ak::Tag {
            return Ok(());
        }
        let set = ch.pick(4);
        let t = tdoc(ak, set, &Style::default());
        let take = ch.pick(t.want.len() + 2);
        let chunk = *ch.of(&[usize::MAX, 1, 7, 64]);
        let src = Src::new(&t.doc.bytes).chunk(chunk);
        let need = match take.min(t.want.len()) {
            0 => 0,
            n => t.want[n - 1].1.1,
        };
        let r = guard(|| {
            let mut seen = None;
            let s = match ak {
                Ak::O(Rk::Xml, _) => {
                    let mut r = XMLReader::new(src);
                    (0..take).for_each(|_| drop(r.next()));
                    seen = Some(r.inner().pos);
                    r.into_inner()
                }
                Ak::O(..) => {
                    let mut r = OSCReader::new(src);
                    (0..take).for_each(|_| drop(r.next()));
                    seen = Some(r.inner().pos);
                    r.into_inner()
                }
                _ => {
                    let mut r = ChangesetReader::new(src);
                    (0..take).for_each(|_| drop(r.next()));
                    seen = Some(r.get_ref().pos);
                    r.into_inner()
                }
            };
            (s.pos, seen, s.data == t.doc.bytes.as_slice())
        });
        cx.steps(take + 1);
        cx.state(&(set, take, chunk, &r));
        let (pos, seen, same) = r.map_err(|e| format!("{ak:?}, {take} items read: {e}"))?;
        if !same || pos < need || seen.is_some_and(|p| p != pos) {
            return Err(format!("{ak:?}, {take} items read (the last ends at {need}): the source is handed back at {pos}, get_ref() or inner() showed {seen:?}, same source {same}").into());
        }
        Ok(())
    }));
    v
}
