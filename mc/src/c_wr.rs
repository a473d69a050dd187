//! C14, C15: writer life cycle and failing sinks.
use crate::c_fault::{ERRS, KINDS_OF_FAILURE};
use crate::c_xml::*;
use crate::engine::*;
use crate::model::*;
use crate::src::Sink;
use osmio::osc::OSCWriter;
use osmio::xml::XMLWriter;
use osmio::{OSMWriteError, OSMWriter};
use std::io::ErrorKind;

const TAIL: &[u8] = b"\n</osm>";

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Header(&'static str, &'static str),
    Write(usize),
    Close,
    Drop,
    /// dropped because its owner panics
    Unwind,
}
fn wobjs() -> Vec<MObj> {
    let mut a = xfull(K::N, 1);
    a.tags.clear();
    let mut e = MObj::new(K::R, -5);
    e.members = vec![(K::N, 1, "<".into())];
    vec![a, xfull(K::W, 2), xfull(K::R, 3), xfull(K::N, 4), e]
}
fn errname(e: &OSMWriteError) -> &'static str {
    match e {
        OSMWriteError::FormatDoesntSupportHeaders => "FormatDoesntSupportHeaders",
        OSMWriteError::AlreadyStarted => "AlreadyStarted",
        OSMWriteError::AlreadyClosed => "AlreadyClosed",
        _ => "other",
    }
}
fn history<W: OSMWriter<Sink>>(cx: &mut Cx, fmt: Fmt, fam: Fam, ops: &[Op]) -> Res {
    let pool = wobjs();
    let sink = Sink::new();
    let mut w = Some(W::new(sink.clone()));
    // the model: what has been accepted, and whether it is closed
    let (mut started, mut closed) = (false, false);
    let mut hdr: Vec<(&str, &str)> = vec![];
    let mut objs: Vec<MObj> = vec![];
    let mut doc: Option<Vec<u8>> = None;
    let mut all = ops.to_vec();
    if !matches!(all.last(), Some(&Op::Drop | &Op::Unwind)) {
        all.push(Op::Drop);
    }
    for (i, op) in all.iter().enumerate() {
        let before = sink.bytes();
        let say = |m: String| -> Fail { format!("call {i} ({op:?}) of {all:?} on {fmt:?} writer: {m}; sink: {}", String::from_utf8_lossy(&sink.bytes())).into() };
        let was_closed = closed;
        let r: Result<Result<(), OSMWriteError>, String> = guard(|| {
            let ww = w.as_mut().unwrap();
            match op {
                Op::Header(k, v) => ww.set_header((k, v)),
                Op::Write(o) => write_obj(ww, fam, &pool[*o]),
                Op::Close => ww.close(),
                Op::Drop => {
                    drop(w.take());
                    Ok(())
                }
                Op::Unwind => {
                    let _owned = w.take();
                    panic!("the caller's own panic")
                }
            }
        });
        let r = match r {
            Err(p) if *op == Op::Unwind && p.contains("the caller's own panic") => Ok(Ok(())),
            r => r,
        };
        let r = r.map_err(|p| say(format!("panicked: {p}")))?;
        cx.steps(1);
        let after = sink.bytes();
        if !after.starts_with(&before) {
            return Err(say("bytes already written changed".into()));
        }
        match op {
            Op::Header(k, v) => {
                let want: &[&str] = match (fmt, was_closed, started) {
                    (Fmt::Osc, false, _) => &["FormatDoesntSupportHeaders"],
                    (Fmt::Osc, true, _) => &["FormatDoesntSupportHeaders", "AlreadyClosed"],
                    (_, true, _) => &["AlreadyClosed"],
                    (_, false, true) => &["AlreadyStarted"],
                    _ => &[],
                };
                match &r {
                    Ok(()) if want.is_empty() => {
                        hdr.retain(|h| h.0 != *k);
                        hdr.push((k, v));
                    }
                    Err(e) if want.contains(&errname(e)) => {}
                    r => return Err(say(format!("returned {r:?}, expected {}", if want.is_empty() { "success".into() } else { format!("error {want:?}") }))),
                }
                if r.is_err() && after != before {
                    return Err(say("a refused call changed the output".into()));
                }
            }
            Op::Write(o) => match (&r, was_closed) {
                (Ok(()), false) => {
                    started = true;
                    objs.push(pool[*o].clone());
                }
                (Err(OSMWriteError::AlreadyClosed), true) => {
                    if after != before {
                        return Err(say("a refused call changed the output".into()));
                    }
                }
                (r, _) => return Err(say(format!("returned {r:?}, writer closed: {was_closed}"))),
            },
            Op::Close | Op::Drop | Op::Unwind => {
                match &r {
                    Ok(()) => {}
                    Err(OSMWriteError::AlreadyClosed) if was_closed => {}
                    r => return Err(say(format!("returned {r:?}"))),
                }
                closed = true;
                started = true;
            }
        }
        if let Some(w) = &w {
            if w.is_open() == closed {
                return Err(say(format!("is_open() is {}", w.is_open())));
            }
        }
        match &doc {
            None if closed => {
                check_stated(fmt, &after, &hdr, &objs).map_err(say)?;
                doc = Some(after.clone());
            }
            Some(d) if *d != after => {
                let extra = &after[before.len()..];
                if fmt == Fmt::Xml && matches!(op, Op::Close | Op::Drop | Op::Unwind) && extra == TAIL {
                    let (key, m) = if *op == Op::Close { ("xmlwriter-close-again", "calling close() on a closed XMLWriter writes another \"\\n</osm>\"") } else { ("xmlwriter-drop-after-close", "dropping a closed XMLWriter writes another \"\\n</osm>\"") };
                    cx.finding(key.into(), format!("{m} after the complete document"));
                    doc = Some(after.clone());
                } else {
                    return Err(say(format!("the closed document changed, added {:?}", String::from_utf8_lossy(extra))));
                }
            }
            _ => {}
        }
        cx.state(&(fmt as u8, started, closed, hdr.len(), objs.len(), after.len()));
    }
    Ok(())
}
fn hist(cx: &mut Cx, fmt: Fmt, fam: Fam, ops: &[Op]) -> Res {
    match fmt {
        Fmt::Xml => history::<XMLWriter<Sink>>(cx, fmt, fam, ops),
        Fmt::Osc => history::<OSCWriter<Sink>>(cx, fmt, fam, ops),
    }
}
/// What `into_inner` gives; an error if it panics.
fn given_back<W: OSMWriter<Sink>>(sink: &Sink, objs: &[MObj], close: bool) -> Result<Sink, String> {
    let mut w = W::new(sink.clone());
    for o in objs {
        write_obj(&mut w, Fam::S, o).map_err(|e| format!("write_obj: {e}"))?;
    }
    if close {
        w.close().map_err(|e| format!("close: {e}"))?;
    }
    guard(move || w.into_inner())
}
pub fn c14(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(sc("into-inner", 0, move |ch, cx| {
        let fmt = [Fmt::Xml, Fmt::Osc][ch.pick(2)];
        let n = ch.pick(4);
        let close = ch.flag();
        let objs = &wobjs()[..n];
        let sink = Sink::new();
        let r = match fmt {
            Fmt::Xml => given_back::<XMLWriter<Sink>>(&sink, objs, close),
            Fmt::Osc => given_back::<OSCWriter<Sink>>(&sink, objs, close),
        };
        cx.steps(n + 2);
        cx.state(&(fmt as u8, n, close, r.is_ok()));
        match r {
            Err(p) if p.contains("not yet implemented") => cx.finding(format!("{}-into_inner", ["xmlwriter", "oscwriter"][fmt as usize]), format!("into_inner() of the {fmt:?} writer panics: {p}")),
            Err(p) => return Err(format!("{fmt:?} writer, {n} objects, closed {close}: {p}").into()),
            Ok(s) if !s.bytes().starts_with(&sink.bytes()) || !std::rc::Rc::ptr_eq(&s.st, &sink.st) => return Err(format!("into_inner() of the {fmt:?} writer gives another sink").into()),
            Ok(_) => {}
        }
        Ok(())
    }));
    for fmt in [Fmt::Xml, Fmt::Osc] {
        v.push(sc(&format!("histories-{fmt:?}"), 0, move |ch, cx| {
            let d = if thorough { 8 } else { 7 };
            let mut ops = vec![];
            while ops.len() < d {
                ops.push(match ch.pick(8) {
                    0 => Op::Drop,
                    7 => Op::Unwind,
                    1 => Op::Header("a", "x<"),
                    2 => Op::Header("a", "y&\""),
                    3 => Op::Header("version", "0.7"),
                    4 => Op::Write(0),
                    5 => Op::Write(1),
                    _ => Op::Close,
                });
                if matches!(ops.last(), Some(&Op::Drop | &Op::Unwind)) {
                    break;
                }
            }
            hist(cx, fmt, Fam::S, &ops)
        }));
        v.push(sc(&format!("objects-{fmt:?}"), 0, move |ch, cx| {
            // every object kind and family, with the calls around them
            let fam = *ch.of(&FAMS);
            let mut ops = vec![];
            if ch.flag() {
                ops.push(Op::Header("generator", "me"));
            }
            for _ in 0..ch.pick(if thorough { 5 } else { 4 }) {
                ops.push(Op::Write(ch.pick(5)));
            }
            for _ in 0..ch.pick(4) {
                ops.push(match ch.pick(3) {
                    0 => Op::Close,
                    1 => Op::Write(3),
                    _ => Op::Header("b", ""),
                });
            }
            hist(cx, fmt, fam, &ops)
        }));
        v.push(sc(&format!("many-{fmt:?}"), 0, move |ch, cx| {
            let n = *ch.of(&[10usize, 100, 1000]);
            let mut ops: Vec<Op> = (0..n).map(|i| Op::Write(i % 5)).collect();
            match ch.pick(4) {
                0 => {}
                1 => ops.push(Op::Close),
                2 => ops.extend([Op::Close, Op::Write(1), Op::Close]),
                _ => ops.extend([Op::Header("a", "b"), Op::Close, Op::Header("a", "b")]),
            }
            hist(cx, fmt, Fam::S, &ops)
        }));
    }
    v
}

// ------------------------------------------------------------------ C15
fn datasets(i: usize) -> Vec<MObj> {
    match i {
        0 => vec![],
        1 => wobjs(),
        2 => xdata(2),
        _ => {
            let mut v = xdata(1);
            v.truncate(3);
            v
        }
    }
}
/// All calls in order; after the first error `after` decides what else is called.
fn drive<W: OSMWriter<Sink>>(hdr: Option<(&str, &str)>, objs: &[MObj], fam: Fam, sink: &Sink, after: usize, full: &[u8], cx: &mut Cx) -> Result<bool, String> {
    let mut w = W::new(sink.clone());
    let n = objs.len();
    let mut failed_in: Option<usize> = None;
    let mut i = 0;
    while i < n + 2 {
        let had = sink.fails.get();
        let r = guard(|| {
            if i == 0 {
                match hdr {
                    Some(h) => w.set_header(h),
                    None => Ok(()),
                }
            } else if i <= n {
                write_obj(&mut w, fam, &objs[i - 1])
            } else {
                w.close()
            }
        })
        .map_err(|p| format!("call {i} of {} panicked: {p}; the sink accepted {} bytes", n + 2, sink.len()))?;
        cx.steps(1);
        let fails_now = sink.fails.get() > had;
        match (&r, fails_now) {
            (Ok(()), true) => return Err(format!("call {i} of {} succeeded although the sink failed in it at byte {}", n + 2, sink.len())),
            (Err(e), false) if failed_in.is_none() => return Err(format!("call {i} of {} returned {e:?} although the sink did not fail", n + 2)),
            _ => {}
        }
        if fails_now && failed_in.is_none() {
            failed_in = Some(i);
            let got = sink.bytes();
            if !full.starts_with(&got) {
                return Err(format!("after the failure in call {i} the sink holds {:?}, which is not a leading part of the complete document", String::from_utf8_lossy(&got)));
            }
            match after {
                0 => break,          // drop at once
                1 => {}              // carry on with all the other calls
                _ => i = n,          // close at once
            }
        }
        i += 1;
    }
    if failed_in.is_none() {
        let got = sink.bytes();
        if got != full {
            return Err(format!("every call succeeded, but the sink holds {} bytes {:?} instead of the complete document ({} bytes)", got.len(), String::from_utf8_lossy(&got), full.len()));
        }
    }
    guard(move || drop(w)).map_err(|p| format!("dropping the writer panicked: {p}; the sink accepted {} bytes", sink.len()))?;
    Ok(failed_in.is_some())
}
fn sinks(cx: &mut Cx, fmt: Fmt, hdr: Option<(&str, &str)>, objs: &[MObj], fam: Fam, sink: Sink, after: usize, expect_fail: bool, desc: &dyn Fn() -> String) -> Res {
    let full = full_doc(fmt, hdr, objs)?;
    let r = match fmt {
        Fmt::Xml => drive::<XMLWriter<Sink>>(hdr, objs, fam, &sink, after, &full, cx),
        Fmt::Osc => drive::<OSCWriter<Sink>>(hdr, objs, fam, &sink, after, &full, cx),
    };
    cx.state(&(sink.len(), r.is_ok()));
    match r {
        Err(e) => Err(format!("{fmt:?} writer, {}: {e}", desc()).into()),
        Ok(f) if f != expect_fail => Err(format!("{fmt:?} writer, {}: {}", desc(), if f { "a call failed" } else { "the complete document is larger than the failing sink, but no call failed" }).into()),
        Ok(_) => {
            // a sink which fails for good has received nothing else since
            if sink.fail_times == usize::MAX && expect_fail && sink.bytes() != full[..sink.fail_at.unwrap()] {
                return Err(format!("{fmt:?} writer, {}: the sink ends up with {:?}", desc(), String::from_utf8_lossy(&sink.bytes())).into());
            }
            Ok(())
        }
    }
}
fn full_doc(fmt: Fmt, hdr: Option<(&str, &str)>, objs: &[MObj]) -> Result<Vec<u8>, Fail> {
    let h: Vec<(&str, &str)> = hdr.into_iter().collect();
    let d = write_doc(fmt, Fam::S, How::Close, &h, objs, Sink::new())?;
    check_stated(fmt, &d, &h, objs)?;
    Ok(d)
}
/// (format, header, data set) with the complete documents' lengths known
fn target(ch: &mut Ch) -> (Fmt, Option<(&'static str, &'static str)>, usize) {
    let t = ch.pick(12);
    if t < 8 { (Fmt::Xml, if t % 2 == 1 { Some(("note", "a & \"b\"\n<c>")) } else { None }, t / 2) } else { (Fmt::Osc, None, t - 8) }
}
pub fn c15(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(sc("failures", 0, move |ch, cx| {
        let (fmt, hdr, d) = target(ch);
        let objs = datasets(d);
        let n = full_doc(fmt, hdr, &objs)?.len();
        let at = ch.pick(n + 1);
        let mut s = Sink::new();
        s.fail_at = Some(at);
        let m = ch.pick(if thorough { 9 } else { 4 });
        s.fail_zero = m == 1;
        s.fail_kind = match m {
            0 | 1 => ErrorKind::Other,
            2 => ErrorKind::WouldBlock,
            3 => ErrorKind::WriteZero,
            m => ERRS[m - 2],
        };
        let after = ch.pick(3);
        sinks(cx, fmt, hdr, &objs, Fam::S, s, after, at < n, &|| format!("data set {d}, header {hdr:?}, sink fails from byte {at} on (mode {m}), afterwards {after}"))
    }));
    v.push(sc("failure-kinds", 0, move |ch, cx| {
        let (fmt, hdr, d) = target(ch);
        let objs = datasets(d);
        let n = full_doc(fmt, hdr, &objs)?.len();
        let at = ch.pick(n);
        let mut s = Sink::new();
        s.fail_at = Some(at);
        s.fail_times = *ch.of(&[usize::MAX, 1]);
        s.fail_kind = *ch.of(KINDS_OF_FAILURE);
        let k = s.fail_kind;
        let after = if thorough { ch.pick(3) } else { 0 };
        sinks(cx, fmt, hdr, &objs, Fam::S, s, after, true, &|| format!("data set {d}, header {hdr:?}, sink fails with {k:?} at byte {at}, afterwards {after}"))
    }));
    v.push(sc("transient", 0, move |ch, cx| {
        let (fmt, hdr, d) = target(ch);
        let objs = datasets(d);
        let n = full_doc(fmt, hdr, &objs)?.len();
        let at = ch.pick(n);
        let mut s = Sink::new();
        s.fail_at = Some(at);
        s.fail_times = 1 + ch.pick(3);
        s.fail_zero = ch.flag();
        let after = ch.pick(3);
        let (times, zero) = (s.fail_times, s.fail_zero);
        sinks(cx, fmt, hdr, &objs, Fam::S, s, after, true, &|| format!("data set {d}, header {hdr:?}, sink fails {times} times at byte {at}, zero {zero}, afterwards {after}"))
    }));
    v.push(sc("short-writes", 0, move |ch, cx| {
        let (fmt, hdr, d) = target(ch);
        let objs = datasets(d);
        let fam = *ch.of(&FAMS);
        let mut s = Sink::new();
        s.chunk = *ch.of(&[1usize, 2, 3, 4, 5, 7, 8, 16, 64, usize::MAX]);
        s.interrupt_every = ch.flag();
        s.interrupt_run = if s.interrupt_every { 1 + 3 * ch.pick(2) } else { 1 };
        let c = s.chunk;
        sinks(cx, fmt, hdr, &objs, fam, s, 0, false, &|| format!("data set {d}, header {hdr:?}, {fam:?}, writes of at most {c}"))
    }));
    v.push(sc("splits", 0, move |ch, cx| {
        let (fmt, hdr, d) = target(ch);
        let objs = datasets(d);
        let n = full_doc(fmt, hdr, &objs)?.len();
        let at = ch.pick(n);
        let mut s = Sink::new();
        s.cuts = vec![at];
        let second = ch.pick(if thorough { 24 } else { 6 });
        if second > 0 {
            s.cuts.push(at + second);
        }
        if ch.flag() {
            s.interrupt_at = s.cuts.clone();
        }
        sinks(cx, fmt, hdr, &objs, Fam::S, s, 0, false, &|| format!("data set {d}, header {hdr:?}, short write at {at} and {second} later"))
    }));
    v.push(sc("short-then-fail", 0, move |ch, cx| {
        let (fmt, hdr, d) = target(ch);
        let objs = datasets(d);
        let n = full_doc(fmt, hdr, &objs)?.len();
        let at = ch.pick(n);
        let mut s = Sink::new();
        s.fail_at = Some(at);
        s.chunk = *ch.of(&[1usize, 3]);
        s.interrupt_every = ch.flag();
        s.interrupt_run = if s.interrupt_every { 1 + 3 * ch.pick(2) } else { 1 };
        s.fail_zero = ch.flag();
        let after = ch.pick(3);
        sinks(cx, fmt, hdr, &objs, Fam::S, s, after, true, &|| format!("data set {d}, header {hdr:?}, dribbling sink fails from byte {at} on, afterwards {after}"))
    }));
    v.push(sc("from_iter", 0, move |ch, cx| {
        let fmt = [Fmt::Xml, Fmt::Osc][ch.pick(2)];
        let d = ch.pick(4);
        let objs = datasets(d);
        let full = full_doc(fmt, None, &objs)?;
        let at = ch.pick(full.len());
        let mut s = Sink::new();
        s.fail_at = Some(at);
        s.fail_zero = ch.flag();
        let sink = s.clone();
        let r = guard(|| match fmt {
            Fmt::Xml => drop(XMLWriter::from_iter(s, objs.iter().map(to_string_obj))),
            Fmt::Osc => drop(OSCWriter::from_iter(s, objs.iter().map(to_string_obj))),
        });
        cx.steps(1);
        cx.state(&(at, r.is_ok()));
        let what = format!("{fmt:?} from_iter, data set {d}, sink fails from byte {at} on");
        if sink.bytes() != full[..at] {
            return Err(format!("{what}: the sink holds {:?}", String::from_utf8_lossy(&sink.bytes())).into());
        }
        match r {
            // no way to report it: the function returns the writer
            Ok(()) => return Err(format!("{what}: the failure is swallowed").into()),
            Err(_) => cx.finding("from_iter-panics".into(), "OSMWriter::from_iter panics when the sink fails (it returns the writer and cannot report an error)".into()),
        }
        Ok(())
    }));
    v.push(sc("from_iter-long", 0, move |ch, cx| {
        // failures far into a long output, and none at all
        let fmt = [Fmt::Xml, Fmt::Osc][ch.pick(2)];
        let n = *ch.of(&[1000usize, 5000, 20_000, 70_000]);
        let objs: Vec<MObj> = (0..n as i64).map(|i| MObj::new(KINDS[(i % 3) as usize], i + 1)).collect();
        let full = full_doc(fmt, None, &objs)?;
        let at = match ch.pick(6) {
            0 => usize::MAX,
            k => full.len() * k / 5 - 1,
        };
        let mut s = Sink::new();
        if at != usize::MAX {
            s.fail_at = Some(at);
        }
        let sink = s.clone();
        let mut held = None;
        let r = guard(|| match fmt {
            Fmt::Xml => drop(XMLWriter::from_iter(s, objs.iter().map(to_string_obj))),
            Fmt::Osc => {
                held = Some(OSCWriter::from_iter(s, objs.iter().map(to_string_obj)));
            }
        });
        cx.steps(n);
        cx.state(&(at, n, r.is_ok()));
        let what = format!("{fmt:?} from_iter, {n} objects, sink fails from byte {at} on");
        let got = sink.bytes();
        let (want, ok) = if at == usize::MAX { (&full[..], true) } else { (&full[..at], false) };
        // the second end tag written when it is dropped: see C14
        if got != want && !(fmt == Fmt::Xml && ok && got.strip_prefix(want) == Some(TAIL)) {
            return Err(format!("{what}: the sink holds {} bytes, which are not the {} expected", got.len(), want.len()).into());
        }
        if r.is_ok() != ok {
            return Err(format!("{what}: {}", if ok { "it panics" } else { "the failure is swallowed" }).into());
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------ C29
/// The characters of XML 1.0 (production [2]).
fn xml_char(c: char) -> bool {
    matches!(c as u32, 0x9 | 0xA | 0xD | 0x20..=0xD7FF | 0xE000..=0xFFFD | 0x10000..=0x10FFFF)
}
const PLACES: usize = 6;
/// An object with this text in one place; None if the kind has no such place.
fn with_text(k: K, place: usize, t: &str) -> Option<MObj> {
    let mut o = xfull(k, 7);
    match place {
        0 => o.tags.push((t.into(), "v".into())),
        1 => o.tags.insert(0, ("zz".into(), t.into())),
        2 => o.user = Some(t.into()),
        3 if k == K::R => o.members.push((K::W, 3, t.into())),
        4 if k == K::R => o.members.insert(0, (K::N, 3, t.into())),
        5 => o.tags = vec![(t.into(), t.into())],
        _ => return None,
    }
    Some(o)
}
fn refusal<W: OSMWriter<Sink>>(cx: &mut Cx, fmt: Fmt, fam: Fam, objs: &[MObj], bad: &[usize], close: bool) -> Result<(), String> {
    let sink = Sink::new();
    let good: Vec<MObj> = objs.iter().enumerate().filter(|(i, _)| !bad.contains(i)).map(|(_, o)| o.clone()).collect();
    let mut w = W::new(sink.clone());
    for (i, o) in objs.iter().enumerate() {
        let before = sink.bytes();
        let r = guard(|| write_obj(&mut w, fam, o)).map_err(|p| format!("write_obj {i} panicked: {p}"))?;
        cx.steps(1);
        match (r.is_ok(), bad.contains(&i)) {
            (true, false) => {}
            (false, true) => {
                if sink.bytes() != before {
                    return Err(format!("write_obj {i} refused {o:?} after writing {:?}", String::from_utf8_lossy(&sink.bytes()[before.len()..])));
                }
                if !w.is_open() {
                    return Err(format!("the writer is closed after refusing object {i}"));
                }
            }
            (true, true) => return Err(format!("write_obj {i} reports success for {o:?}, whose text XML cannot represent; sink: {}", String::from_utf8_lossy(&sink.bytes()))),
            (false, false) => return Err(format!("write_obj {i} refused {o:?}: {r:?}")),
        }
    }
    let doc = if close {
        guard(|| w.close()).map_err(|p| format!("close panicked: {p}"))?.map_err(|e| format!("close: {e}"))?;
        let b = sink.bytes();
        drop(w);
        b
    } else {
        drop(w);
        sink.bytes()
    };
    cx.state(&doc);
    check_stated(fmt, &doc, &[], &good)
}
fn refuse(cx: &mut Cx, fmt: Fmt, fam: Fam, objs: &[MObj], bad: &[usize], close: bool) -> Res {
    match fmt {
        Fmt::Xml => refusal::<XMLWriter<Sink>>(cx, fmt, fam, objs, bad, close),
        Fmt::Osc => refusal::<OSCWriter<Sink>>(cx, fmt, fam, objs, bad, close),
    }
    .map_err(|e| format!("{fmt:?} writer, {fam:?}: {e}").into())
}
pub fn c29(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(sc("characters", 0, move |ch, cx| {
        // every forbidden character and its neighbours, in every place of every kind of object
        let fmt = [Fmt::Xml, Fmt::Osc][ch.pick(2)];
        let fam = *ch.of(&FAMS);
        let cs: Vec<char> = (0..0x20).chain([0x20, 0x7e, 0x7f, 0x80, 0x85, 0x9f, 0xd7ff, 0xe000, 0xfdd0, 0xfdef, 0xfeff, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1fffe, 0x1ffff, 0x10fffe, 0x10ffff]).filter_map(char::from_u32).collect();
        let c = *ch.of(&cs);
        let k = *ch.of(&KINDS);
        let Some(o) = with_text(k, ch.pick(PLACES), &[format!("{c}"), format!("a{c}b"), format!("text {c}")][ch.pick(3)]) else { return Ok(()) };
        let bad: &[usize] = if xml_char(c) { &[] } else { &[1] };
        let n = ch.pick(2);
        let objs = [xfull(K::W, 1), o, xfull(K::R, 2)];
        if n == 0 {
            refuse(cx, fmt, fam, &objs, bad, ch.flag())
        } else {
            // nothing before it
            let bad: &[usize] = if bad.is_empty() { &[] } else { &[0] };
            refuse(cx, fmt, fam, &objs[1..], bad, ch.flag())
        }
    }));
    v.push(sc("unicode", 0, move |ch, cx| {
        // every Unicode scalar value by itself
        let fmt = [Fmt::Xml, Fmt::Osc][ch.pick(2)];
        let page = ch.pick(0x110000 / 256);
        let chars: Vec<char> = (0..256).filter_map(|i| char::from_u32(page as u32 * 256 + i)).collect();
        let objs: Vec<MObj> = chars.iter().enumerate().map(|(i, c)| with_text(K::W, i % 2, &format!("x{c}")).unwrap()).collect();
        let bad: Vec<usize> = chars.iter().enumerate().filter(|x| !xml_char(*x.1)).map(|x| x.0).collect();
        refuse(cx, fmt, Fam::S, &objs, &bad, true)
    }));
    v.push(sc("sequences", 0, move |ch, cx| {
        // every sequence of representable and unrepresentable objects
        let fmt = [Fmt::Xml, Fmt::Osc][ch.pick(2)];
        let n = ch.pick(if thorough { 6 } else { 5 });
        let mut objs = vec![];
        let mut bad = vec![];
        for i in 0..n {
            let x = ch.pick(5);
            if x > 2 {
                bad.push(i);
                objs.push(with_text([K::R, K::N][x - 3], 5 - x, "\u{1}").unwrap());
            } else {
                objs.push(xfull(KINDS[x], i as i64 + 1));
            }
        }
        refuse(cx, fmt, Fam::S, &objs, &bad, ch.flag())
    }));
    v.push(sc("long-text", 0, move |ch, cx| {
        // a forbidden character far into a long text, a long list of tags or members
        let fmt = [Fmt::Xml, Fmt::Osc][ch.pick(2)];
        let n = *ch.of(&[1usize, 22, 23, 24, 63, 64, 127, 255, 256, 1000, 4096, 70_000]);
        let c = *ch.of(&['\0', '\u{1f}', '\u{fffe}', 'z']);
        let what = ch.pick(4);
        let t = format!("{}{c}", "é".repeat(n));
        let o = match what {
            0 => with_text(K::N, 1, &t).unwrap(),
            1 => with_text(K::R, 3, &t).unwrap(),
            2 => MObj { tags: (0..n.min(4096)).map(|i| (format!("k{i}"), "v".into())).chain([("last".into(), format!("{c}"))]).collect(), ..xfull(K::W, 3) },
            _ => MObj { members: (0..n).map(|i| (K::N, i as i64, "r".into())).chain([(K::W, 1, format!("{c}"))]).collect(), ..xfull(K::R, 3) },
        };
        let bad: &[usize] = if xml_char(c) { &[] } else { &[0] };
        refuse(cx, fmt, Fam::S, &[o, xfull(K::N, 1)], bad, ch.flag())
    }));
    v.push(sc("headers", 0, move |ch, cx| {
        let cs: Vec<char> = (0..0x20).chain([0x7f, 0xfffd, 0xfffe, 0xffff, 0x10000]).filter_map(char::from_u32).collect();
        let c = *ch.of(&cs);
        let t = [format!("{c}"), format!("a{c}b")][ch.pick(2)].clone();
        let key = *ch.of(&["note", "generator", "version"]);
        let prior = ch.flag();
        let sink = Sink::new();
        let mut w = XMLWriter::new(sink.clone());
        let mut want: Vec<(&str, &str)> = vec![];
        if prior {
            w.set_header((key, "before")).unwrap();
            want.push((key, "before"));
        }
        let r = guard(|| w.set_header((key, &t))).map_err(|p| format!("set_header panicked: {p}"))?;
        cx.steps(2);
        if r.is_ok() != xml_char(c) {
            return Err(format!("set_header({key:?}, {t:?}) returned {r:?}").into());
        }
        if r.is_ok() {
            want = vec![(key, &t)];
        }
        let o = xfull(K::N, 4);
        write_obj(&mut w, Fam::S, &o).map_err(|e| format!("write_obj: {e}"))?;
        drop(w);
        check_stated(Fmt::Xml, &sink.bytes(), &want, &[o]).map_err(Fail::from)
    }));
    v.push(sc("header-names", 0, move |ch, cx| {
        // every Unicode scalar value in a name: at its start and behind it
        let page = ch.pick(0x110000 / 256);
        let start = ch.flag();
        let names: Vec<(String, bool)> = (0..256)
            .filter_map(|i| char::from_u32(page as u32 * 256 + i))
            .map(|c| {
                let n = if start { format!("{c}n") } else { format!("n{c}") };
                // a prefix would have to be declared
                let good = c != ':' && if start { crate::xmlparse::name_start(c) } else { crate::xmlparse::name_char(c) };
                (n, good)
            })
            .collect();
        name_check(cx, &names)
    }));
    v.push(sc("header-names-short", 0, move |ch, cx| {
        let mut n = String::new();
        for _ in 0..ch.pick(if thorough { 6 } else { 5 }) {
            n.push(*ch.of(&['a', '9', '-', ' ', '=', '"', 'é', ':']));
        }
        let good = !n.contains(':') && n.chars().next().is_some_and(crate::xmlparse::name_start) && n.chars().all(crate::xmlparse::name_char);
        name_check(cx, &[("before".into(), true), (n, good), ("after".into(), true)])
    }));
    v
}
/// Headers of these names, then an object: the proper names take effect, the others are refused.
fn name_check(cx: &mut Cx, names: &[(String, bool)]) -> Res {
    let sink = Sink::new();
    let mut w = XMLWriter::new(sink.clone());
    let mut want: Vec<(&str, &str)> = vec![];
    for (n, good) in names {
        let r = guard(|| w.set_header((n, "v"))).map_err(|p| format!("set_header({n:?}) panicked: {p}"))?;
        cx.steps(1);
        if r.is_ok() != *good {
            return Err(format!("set_header(({n:?}, \"v\")) returned {r:?}").into());
        }
        if *good {
            want.push((n, "v"));
        }
    }
    let o = xfull(K::W, 4);
    write_obj(&mut w, Fam::S, &o).map_err(|e| format!("write_obj: {e}"))?;
    drop(w);
    let doc = sink.bytes();
    check_stated(Fmt::Xml, &doc, &want, std::slice::from_ref(&o))?;
    let r = crate::rd::read_all(crate::rd::Rk::Xml, doc.as_slice());
    cx.state(&doc);
    if r.objs != [o] || r.end.failed() {
        return Err(format!("headers {:?}: read back {:?}, end {:?}", want, r.objs, r.end).into());
    }
    Ok(())
}
