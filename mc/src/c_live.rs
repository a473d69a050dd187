//! C34: readers deliver what has arrived.
use crate::c_fault::*;
use crate::c_pbf::*;
use crate::c_xml::*;
use crate::engine::*;
use crate::model::*;
use crate::pbfenc::*;
use crate::rd::*;
use crate::xmlgen::*;
use osmio::changesets::*;
use osmio::OSMReader;
use std::cell::Cell;
use std::io::{self, Read};
use std::rc::Rc;

/// Counts what it has handed out. After `data` comes whatever `more` gives (for ever, or nothing).
struct Tap {
    data: Vec<u8>,
    at: usize,
    given: Rc<Cell<usize>>,
    chunk: usize,
    more: Option<Box<dyn FnMut() -> Vec<u8>>>,
}
impl Read for Tap {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.at == self.data.len() {
            if let Some(m) = &mut self.more {
                self.data = m();
                self.at = 0;
            }
        }
        let n = buf.len().min(self.chunk).min(self.data.len() - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        self.given.set(self.given.get() + n);
        Ok(n)
    }
}
type Next = Box<dyn FnMut() -> Option<Any>>;
fn osm<R: OSMReader + 'static>(mut r: R, k: Option<K>) -> Next {
    match k {
        None => Box::new(move || r.next().map(|o| Any::O(observe(&o)))),
        Some(K::N) => Box::new(move || OSMReader::nodes(&mut r).next().map(|o| Any::O(observe_node(&o)))),
        Some(K::W) => Box::new(move || OSMReader::ways(&mut r).next().map(|o| Any::O(observe_way(&o)))),
        Some(K::R) => Box::new(move || OSMReader::relations(&mut r).next().map(|o| Any::O(observe_rel(&o)))),
    }
}
/// The reader, to be advanced item by item; nothing if it cannot be had for any source.
fn reader(ak: Ak, s: Tap) -> Option<Next> {
    Some(match ak {
        Ak::O(Rk::Str, k) => osm(osmio::stringpbf::PBFReader::new(s), k),
        Ak::O(Rk::Arc, k) => osm(osmio::arcpbf::PBFReader::new(s), k),
        Ak::O(Rk::Xml, k) => osm(osmio::xml::XMLReader::new(s), k),
        Ak::O(Rk::Osc, k) => osm(osmio::osc::OSCReader::new(s), k),
        Ak::Pos => {
            let mut r = osmio::stringpbf::PBFNodePositionReader::from_reader(s);
            Box::new(move || r.next().map(|(i, (a, b))| Any::P(i, (a.inner(), b.inner()))))
        }
        Ak::Cs => {
            let mut r = ChangesetReader::new(s);
            Box::new(move || r.next().map(cs))
        }
        Ak::CsBz => {
            let mut r = ChangesetReader::from_bz2_reader(s);
            Box::new(move || r.next().map(cs))
        }
        Ak::Tag => {
            if !cfg!(osmio_verif) {
                return None;
            }
            let mut r = tag_reader(s);
            Box::new(move || {
                r.next().map(|x| match x {
                    Ok((i, t)) => Any::T(i, t),
                    Err(e) => Any::E(e.to_string()),
                })
            })
        }
    })
}
fn cs(c: anyhow::Result<Changeset>) -> Any {
    match c {
        Ok(c) => Any::C(GotCs::of(c)),
        Err(e) => Any::E(e.to_string()),
    }
}
/// Every item is delivered when the source has handed out no more than its limit, plus one read.
fn arrive(cx: &mut Cx, ak: Ak, bytes: Vec<u8>, chunk: usize, want: &[(Any, usize)], what: &dyn Fn() -> String) -> Res {
    let given = Rc::new(Cell::new(0));
    let total = bytes.len();
    let tap = Tap { data: bytes, at: 0, given: given.clone(), chunk, more: None };
    let mut next = match guard(|| reader(ak, tap))? {
        Some(n) => n,
        None => return Ok(()),
    };
    for (i, (w, limit)) in want.iter().enumerate() {
        let g = guard(&mut next).map_err(|p| format!("{ak:?}, {}: item {i}: {p}", what()))?;
        cx.steps(1);
        if g.as_ref() != Some(w) {
            return Err(format!("{ak:?}, {}: item {i} is {g:?}, not {w:?}", what()).into());
        }
        let max = limit + chunk - 1;
        if given.get() > max.max(chunk) {
            return Err(format!("{ak:?}, {}, read {chunk} bytes at a time: item {i} ({w:?}) is delivered only after {} of {total} bytes, it was complete after {limit}", what(), given.get()).into());
        }
        cx.state(&(i, given.get(), chunk));
    }
    Ok(())
}
/// The ends of the objects in the document: an item may wait for the end of the following one.
fn limits(t: &TDoc) -> Vec<(Any, usize)> {
    t.want
        .iter()
        .map(|(w, sp)| {
            let next = t.doc.spans.iter().map(|s| s.1).filter(|e| *e > sp.1).min();
            (w.clone(), next.unwrap_or(t.doc.root_end))
        })
        .collect()
}
pub fn c34(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let chunks: &'static [usize] = if thorough { &[1, 2, 3, 7, 16, 64, 255, 1000] } else { &[1, 7, 64] };
    v.push(sc("pbf", 0, move |ch, cx| {
        let which = ch.pick(14);
        let f = framed_file(which);
        let ak = *ch.of(PAK);
        let chunk = *ch.of(chunks);
        let want: Vec<(Any, usize)> = {
            // the block which every object is in
            let k = if let Ak::O(_, k) = ak { k } else { Some(K::N) };
            let ends = f.objs.iter().enumerate().filter(|(_, o)| k.is_none_or(|k| k == o.kind)).map(|(n, _)| f.bounds.iter().find(|b| b.1 > n).unwrap().0);
            want_objs(ak, &f.objs).into_iter().zip(ends).collect()
        };
        arrive(cx, ak, f.bytes.clone(), chunk, &want, &|| format!("file {which} (blocks end at {:?})", f.bounds))
    }));
    v.push(sc("packagings", 1, move |ch, cx| {
        // the blocks of a file packaged in every way, one after the other
        let mut g = IdGen::new();
        let w = wire_dev(ch);
        let n = 1 + ch.pick(3);
        let mut bytes = vec![];
        let mut want = vec![];
        let ak = *ch.of(&[Ak::O(Rk::Str, None), Ak::O(Rk::Arc, None), Ak::Pos]);
        for i in 0..n {
            let v: Vec<PObj> = (0..2).map(|_| g.obj(if ak == Ak::Pos { K::N } else { KINDS[i % 3] })).collect();
            let bl = [Block::of(groups_of(&v))];
            bytes.extend(file_w(&bl, &w));
            let end = bytes.len();
            want.extend(want_objs(ak, &expect_all(&bl)).into_iter().map(|o| (o, end)));
        }
        let chunk = *ch.of(&chunks[..2]);
        arrive(cx, ak, bytes, chunk, &want, &|| format!("{n} files of one block one after the other, {w:?}"))
    }));
    for &ak in XAK {
        let name = format!("{ak:?}").replace(['(', ')', ' ', ','], "");
        v.push(sc(&format!("documents-{name}"), if thorough { 3 } else { 2 }, move |ch, cx| {
            let set = ch.pick(5);
            let s = if set == 4 { Style::default() } else { style_dev(ch) };
            let t = tdoc(ak, set, &s);
            let chunk = *ch.of(chunks);
            arrive(cx, ak, t.doc.bytes.clone(), chunk, &limits(&t), &|| t.desc.clone())
        }));
    }
    v.push(sc("filtered", 0, move |ch, cx| {
        let ak = Ak::O(*ch.of(&[Rk::Xml, Rk::Osc]), Some(*ch.of(&KINDS)));
        let t = tdoc(ak, ch.pick(4), &Style::default());
        let chunk = *ch.of(chunks);
        arrive(cx, ak, t.doc.bytes.clone(), chunk, &limits(&t), &|| t.desc.clone())
    }));
    v.push(sc("compressed", 0, move |ch, cx| {
        // a compressed stream of its own for every changeset
        let t = tdoc(Ak::CsBz, ch.pick(4), &Style::default());
        let chunk = *ch.of(chunks);
        let mut cuts: Vec<usize> = t.doc.spans.iter().map(|s| s.1).collect();
        cuts.push(t.doc.bytes.len());
        let (mut b, mut at) = (vec![], 0);
        let mut ends = vec![];
        for c in cuts {
            b.extend(bz(&t.doc.bytes[at..c], 1 + ch.pick(2) as u32));
            at = c;
            ends.push(b.len());
        }
        let want: Vec<(Any, usize)> = t.want.iter().enumerate().map(|(i, (w, _))| (w.clone(), ends[i + 1])).collect();
        arrive(cx, Ak::CsBz, b, chunk, &want, &|| format!("{}, streams end at {ends:?}", t.desc))
    }));
    v.push(sc("endless", 0, move |ch, cx| {
        // a source which never ends: the items come, and what is read for them is bounded
        let ak = *ch.of(&[Ak::O(Rk::Str, None), Ak::O(Rk::Arc, None), Ak::Pos, Ak::O(Rk::Xml, None), Ak::O(Rk::Osc, None), Ak::O(Rk::Xml, Some(K::N)), Ak::O(Rk::Arc, Some(K::N)), Ak::O(Rk::Str, Some(K::N)), Ak::Cs, Ak::Tag, Ak::CsBz]);
        let chunk = *ch.of(&[usize::MAX, 4096, 100]);
        let n = *ch.of(if thorough { &[1usize, 10, 1000, 50_000][..] } else { &[1, 10, 1000, 5000] });
        let unit = move |i: usize| -> Vec<u8> {
            let text = format!("number {i}");
            match ak {
                Ak::O(Rk::Str | Rk::Arc, _) | Ak::Pos => {
                    let mut o = IdGen::new().obj(K::N);
                    o.id = i as i64 + 1;
                    let b = [Block::of(vec![one_group(vec![o])])];
                    if i == 0 { file(&b) } else { file_w(&b, &Wire { comp: Comp::Raw, ..Wire::default() }) }
                }
                Ak::O(..) => format!("<node id=\"{}\" lat=\"1\" lon=\"2\"><tag k=\"a\" v=\"{text}\"/></node>\n", i + 1).into_bytes(),
                _ => format!("<changeset id=\"{}\" created_at=\"2020-01-01T00:00:00Z\" open=\"true\" num_changes=\"0\" comments_count=\"0\"><tag k=\"a\" v=\"{text}\"/></changeset>\n", i + 1).into_bytes(),
            }
        };
        let pack = move |b: Vec<u8>| if ak == Ak::CsBz { bz(&b, 1) } else { b };
        let head: &[u8] = match ak {
            Ak::O(Rk::Xml, _) | Ak::Cs | Ak::CsBz | Ak::Tag => b"<osm version=\"0.6\">\n",
            Ak::O(Rk::Osc, _) => b"<osmChange version=\"0.6\">\n<modify>",
            _ => b"",
        };
        let given = Rc::new(Cell::new(0));
        let mut i = 0;
        let made = Rc::new(Cell::new(0usize));
        let made2 = made.clone();
        let more = move || {
            // a few items at a time
            let mut b = vec![];
            for _ in 0..50 {
                b.extend(unit(i));
                i += 1;
            }
            made2.set(i);
            // one which wants it all is stopped
            if i > 400_000 {
                livelock("an endless source");
            }
            pack(b)
        };
        let tap = Tap { data: if head.is_empty() { vec![] } else { pack(head.to_vec()) }, at: 0, given: given.clone(), chunk, more: Some(Box::new(more)) };
        let Some(mut next) = guard(|| reader(ak, tap))? else { return Ok(()) };
        for j in 0..n {
            let g = guard(&mut next).map_err(|p| format!("{ak:?} on an endless source: item {j}: {p}"))?;
            let id = match &g {
                Some(Any::O(o)) => o.id,
                Some(Any::P(i, _)) => *i,
                Some(Any::C(c)) => c.id as i64,
                Some(Any::T(i, _)) => *i as i64,
                _ => return Err(format!("{ak:?} on an endless source: item {j} is {g:?}").into()),
            };
            if id != j as i64 + 1 {
                return Err(format!("{ak:?} on an endless source: item {j} is {g:?}").into());
            }
            // 50 000 items ahead would be megabytes
            if made.get() > j + 50_000 {
                return Err(format!("{ak:?} on an endless source: {} items ({} bytes) were read for the first {}", made.get(), given.get(), j + 1).into());
            }
        }
        cx.steps(n);
        cx.state(&(format!("{ak:?}"), chunk, n));
        Ok(())
    }));
    v
}
