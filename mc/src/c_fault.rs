//! C07, C08, C24: cut, failing and dribbling sources.
use crate::c_cs::*;
use crate::c_hist::fixed;
use crate::c_pbf::*;
use crate::c_xml::*;
use crate::engine::*;
use crate::model::*;
use crate::pbfenc::*;
use crate::rd::*;
use crate::src::Src;
use crate::xmlgen::*;
use std::io::ErrorKind;
use std::sync::{Arc, OnceLock};

pub const ERRS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::ConnectionReset, ErrorKind::InvalidData, ErrorKind::PermissionDenied, ErrorKind::BrokenPipe, ErrorKind::InvalidInput];
/// Every kind of failure a source or sink can name, but `Interrupted` (which asks for another try).
pub const KINDS_OF_FAILURE: &[ErrorKind] = &[
    ErrorKind::UnexpectedEof,
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::ConnectionRefused,
    ErrorKind::NotConnected,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::AlreadyExists,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::WriteZero,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::TooManyLinks,
    ErrorKind::ArgumentListTooLong,
];

pub const PAK: &[Ak] = &[
    Ak::O(Rk::Str, None),
    Ak::O(Rk::Arc, None),
    Ak::Pos,
    Ak::O(Rk::Str, Some(K::N)),
    Ak::O(Rk::Str, Some(K::W)),
    Ak::O(Rk::Str, Some(K::R)),
    Ak::O(Rk::Arc, Some(K::N)),
    Ak::O(Rk::Arc, Some(K::W)),
    Ak::O(Rk::Arc, Some(K::R)),
];

/// A PBF file with its frame boundaries: (end offset, objects so far).
pub struct Framed {
    pub bytes: Vec<u8>,
    pub bounds: Vec<(usize, usize)>,
    pub objs: Vec<MObj>,
}
impl Framed {
    fn new() -> Self {
        Framed { bytes: vec![], bounds: vec![(0, 0)], objs: vec![] }
    }
    fn push(&mut self, f: Vec<u8>, o: Vec<MObj>) {
        self.bytes.extend(f);
        self.objs.extend(o);
        self.bounds.push((self.bytes.len(), self.objs.len()));
    }
}
/// Boundaries found by walking the frames (our own files only).
pub fn frame_ends(b: &[u8]) -> Vec<usize> {
    let mut v = vec![0];
    let mut p = 0;
    while p < b.len() {
        let n = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
        let h = &b[p + 4..p + 4 + n];
        // datasize: field 3, varint; walk the header
        let (mut i, mut size) = (0, None);
        let var = |h: &[u8], i: &mut usize| {
            let (mut v, mut s) = (0u64, 0);
            loop {
                let c = h[*i];
                *i += 1;
                v |= ((c & 0x7f) as u64) << s;
                s += 7;
                if c & 0x80 == 0 {
                    return v;
                }
            }
        };
        while i < h.len() {
            let t = var(h, &mut i);
            match t & 7 {
                0 => {
                    let x = var(h, &mut i);
                    if t >> 3 == 3 {
                        size = Some(x as usize);
                    }
                }
                2 => {
                    let l = var(h, &mut i) as usize;
                    i += l;
                }
                1 => i += 8,
                5 => i += 4,
                _ => panic!("HARNESS: wire type"),
            }
        }
        p += 4 + n + size.expect("HARNESS: no datasize");
        v.push(p);
    }
    v
}
fn framed(which: usize) -> Framed {
    let raw = Wire { comp: Comp::Raw, ..Wire::default() };
    let mut f = Framed::new();
    if which >= 14 {
        // large blocks
        let objs = dataset(4);
        f.push(header_frame(Hdr::Full, &Wire::default()), vec![]);
        for g in groups_of(&objs) {
            let b = Block::of(vec![g]);
            f.push(data_frame(&b, &if which == 14 { Wire::default() } else { raw.clone() }), b.expect());
        }
        return f;
    }
    let (lay, w) = match which {
        x @ 0..=9 => (x, if x % 2 == 0 { Wire::default() } else { raw.clone() }),
        10 => (0, Wire { unknown: 127, index: Some(300), ..raw.clone() }),
        11 => (2, Wire { unknown: 127, pad_varint: true, hdr_rev: true, ..Wire::default() }),
        12 => (3, Wire { comp: Comp::Zlib(0), ..Wire::default() }),
        _ => (6, Wire { comp: Comp::RawSized, field_rev: true, ..Wire::default() }),
    };
    if which != 3 && which != 7 {
        f.push(header_frame(if which == 4 { Hdr::Full } else { Hdr::Minimal }, &w), vec![]);
    }
    for (i, b) in fixed(lay).iter().enumerate() {
        f.push(data_frame(b, &w), b.expect());
        if which >= 10 && i == 0 {
            f.push(frame("X-unknown", b"\xff\xff\xff\xff", &w), vec![]);
        }
    }
    f
}
pub fn framed_file(which: usize) -> Arc<Framed> {
    static F: OnceLock<Vec<Arc<Framed>>> = OnceLock::new();
    F.get_or_init(|| (0..16).map(|i| Arc::new(framed(i))).collect())[which].clone()
}
fn cut_check(cx: &mut Cx, ak: Ak, f: &Framed, at: usize, kind: Option<ErrorKind>, chunk: usize, desc: &dyn Fn() -> String) -> Res {
    let src = match kind {
        None => Src::new(&f.bytes[..at]),
        Some(k) => Src::new(&f.bytes).failing(at, k),
    };
    let r = read_any(ak, src.chunk(chunk));
    cx.steps(r.items.len() + 1);
    cx.state(&(at, r.items.len(), r.end.failed()));
    let what = || format!("{} {at} of {} bytes (frames end at {:?}), {ak:?}, {}", if let Some(k) = kind { format!("source fails ({k:?}) at byte") } else { "cut at byte".into() }, f.bytes.len(), f.bounds.iter().map(|b| b.0).take(20).collect::<Vec<_>>(), desc());
    cx.note(|| format!("{}: {:?} {:?}", what(), r.items, r.end));
    let want = want_objs(ak, &f.objs);
    for (i, o) in r.items.iter().enumerate() {
        if want.get(i) != Some(o) {
            return Err(format!("{}: object {i} delivered is {o:?}, the intact file has {:?}", what(), want.get(i)).into());
        }
    }
    let full = f.bounds.iter().filter(|b| b.0 <= at).map(|b| b.1).max().unwrap();
    let min = want_objs(ak, &f.objs[..full]).len();
    if r.items.len() < min {
        return Err(format!("{}: only {} objects delivered of {min} in wholly available blocks (end {:?})", what(), r.items.len(), r.end).into());
    }
    let boundary = f.bounds.iter().any(|b| b.0 == at);
    if kind.is_none() && boundary {
        if r.end.failed() || r.items.len() != min {
            return Err(format!("{}: the leading blocks are a complete file, but the reader delivered {} of {min} objects, end {:?}", what(), r.items.len(), r.end).into());
        }
    } else if !r.end.failed() {
        return Err(format!("{}: reading ended normally after {} objects", what(), r.items.len()).into());
    }
    Ok(())
}
pub fn c07(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(sc("cuts", 0, move |ch, cx| {
        let w = ch.pick(14);
        let f = framed_file(w);
        let ak = *ch.of(PAK);
        let at = ch.pick(f.bytes.len() + 1);
        cut_check(cx, ak, &f, at, None, usize::MAX, &|| format!("file {w}"))
    }));
    v.push(sc("failures", 0, move |ch, cx| {
        let w = ch.pick(14);
        let f = framed_file(w);
        let ak = *ch.of(if thorough { PAK } else { &PAK[..4] });
        let at = ch.pick(f.bytes.len() + 1);
        let k = *ch.of(if thorough { ERRS } else { &ERRS[..4] });
        cut_check(cx, ak, &f, at, Some(k), usize::MAX, &|| format!("file {w}"))
    }));
    v.push(sc("failure-kinds", 0, move |ch, cx| {
        let w = *ch.of(if thorough { &[0usize, 2, 4, 5, 10, 11, 12, 13][..] } else { &[2, 10] });
        let f = framed_file(w);
        let ak = *ch.of(&PAK[..3]);
        let at = ch.pick(f.bytes.len() + 1);
        let k = *ch.of(KINDS_OF_FAILURE);
        cut_check(cx, ak, &f, at, Some(k), usize::MAX, &|| format!("file {w}"))
    }));
    v.push(sc("dribbling", 0, move |ch, cx| {
        let w = *ch.of(&[2, 5, 10, 11]);
        let f = framed_file(w);
        let ak = *ch.of(&PAK[..3]);
        let at = ch.pick(f.bytes.len() + 1);
        let k = *ch.of(&[None, Some(ErrorKind::Other), Some(ErrorKind::WouldBlock)]);
        let c = *ch.of(&[1usize, 3]);
        cut_check(cx, ak, &f, at, k, c, &|| format!("file {w} chunks of {c}"))
    }));
    v.push(sc("large-blocks", 0, move |ch, cx| {
        let w = 14 + ch.pick(2);
        let f = framed_file(w);
        let ak = *ch.of(if thorough { PAK } else { &PAK[..3] });
        let n = f.bytes.len();
        // every byte near a frame boundary, and a stride elsewhere (thorough: every byte)
        let at = if thorough {
            ch.pick(n + 1)
        } else {
            let pts: Vec<usize> = (0..=n).filter(|p| p % 997 == 0 || f.bounds.iter().any(|b| p.abs_diff(b.0) < 40)).collect();
            *ch.of(&pts)
        };
        let k = *ch.of(&[None, Some(ErrorKind::Other)]);
        cut_check(cx, ak, &f, at, k, usize::MAX, &|| format!("file {w}"))
    }));
    for d in [0, 2] {
        v.push(sc(&format!("packaged-{d}"), 1, move |ch, cx| {
            let objs = dataset(d);
            let (bytes, desc) = package(ch, &objs);
            let ak = *ch.of(&PAK[..3]);
            let want = Block::of(groups_of(&objs)).expect();
            let ends = frame_ends(&bytes);
            // objects per frame, by reading the leading frames (checked elsewhere against the model)
            let mut f = Framed { bytes, bounds: vec![], objs: want };
            for e in ends {
                let r = read_any(Ak::O(Rk::Arc, None), &f.bytes[..e]);
                if r.end.failed() {
                    return Err(format!("the leading {e} bytes (whole blocks) cannot be read: {:?}; {desc}", r.end).into());
                }
                f.bounds.push((e, r.items.len()));
            }
            let n = f.bytes.len();
            let pts: Vec<usize> = if thorough { (0..=n).collect() } else { (0..=n).filter(|p| n < 2000 || f.bounds.iter().any(|b| p.abs_diff(b.0) < 64)).collect() };
            for at in pts {
                cx.inner += 2;
                cut_check(cx, ak, &f, at, None, usize::MAX, &|| desc.clone())?;
                cut_check(cx, ak, &f, at, Some(ErrorKind::Other), usize::MAX, &|| desc.clone())?;
            }
            Ok(())
        }));
    }
    v
}

// ------------------------------------------------------------------ C08
pub struct Sample {
    pub ak: Ak,
    pub bytes: Vec<u8>,
    pub want: Vec<Any>,
}
pub fn bz(data: &[u8], level: u32) -> Vec<u8> {
    use std::io::Write;
    let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
/// small: short documents for pairs of cuts.
pub fn samples(small: bool) -> Vec<Sample> {
    let mut v = vec![];
    let ids = if small { vec![2usize] } else { vec![2, 5, 10, 11, 14, 15] };
    for i in ids {
        let f = framed_file(i);
        for &ak in if small || i >= 14 { &PAK[..3] } else { PAK } {
            v.push(Sample { ak, bytes: f.bytes.clone(), want: want_objs(ak, &f.objs) });
        }
    }
    let styles = [
        Style::default(),
        Style { decl: 4, quote: 1, refs: 2, closing: 1, ws: 2, comment: 4, pi: 1, text: 3, extra_el: 2, tail: 2, ..Style::default() },
        Style { decl: 1, refs: 4, ws: 1, tail: 1, comment: 1, root: 2, ..Style::default() },
    ];
    let mut t = MObj::new(K::W, 3);
    t.tags = vec![("é😀".into(), "a&b日本".into())];
    t.nodes = vec![1, 2];
    let tiny = vec![t, MObj { pos: Some((1, 2)), ..MObj::new(K::N, 4) }];
    for (i, s) in styles.iter().enumerate() {
        let dsets: Vec<Vec<MObj>> = if small { vec![tiny.clone()] } else { vec![xdata(0), xdata(1), xdata(2), xdata(4)] };
        for objs in dsets {
            v.push(Sample { ak: Ak::O(Rk::Xml, None), bytes: xml_doc(&objs, s).bytes, want: want_objs(Ak::O(Rk::Xml, None), &objs) });
            let n = objs.len() / 2;
            let secs = vec![(Sec::Create, objs[..n].to_vec()), (Sec::Delete, objs[n..].to_vec())];
            v.push(Sample { ak: Ak::O(Rk::Osc, None), bytes: osc_doc(&secs, s).bytes, want: want_objs(Ak::O(Rk::Osc, None), &osc_expect(&secs)) });
        }
        let csets: Vec<Vec<Cs>> = if small {
            let mut c = Cs::full(3);
            c.bbox = false;
            c.tags = vec![("é".into(), "😀&".into())];
            vec![vec![c]]
        } else {
            vec![csdata(0), csdata(2), csdata(4)]
        };
        for cs in csets {
            let d = cs_doc(&cs, s, &[]).bytes;
            for ak in [Ak::Cs, Ak::Tag] {
                v.push(Sample { ak, bytes: d.clone(), want: want_cs(ak, &cs) });
            }
            if i < 2 {
                v.push(Sample { ak: Ak::CsBz, bytes: bz(&d, 9), want: want_cs(Ak::CsBz, &cs) });
                let m = d.len() / 3;
                v.push(Sample { ak: Ak::CsBz, bytes: [bz(&d[..m], 1), bz(&d[m..], 9)].concat(), want: want_cs(Ak::CsBz, &cs) });
            }
        }
    }
    v
}
pub fn sample(small: bool) -> &'static [Sample] {
    static A: OnceLock<Vec<Sample>> = OnceLock::new();
    static B: OnceLock<Vec<Sample>> = OnceLock::new();
    if small { A.get_or_init(|| samples(true)) } else { B.get_or_init(|| samples(false)) }
}
fn same(cx: &mut Cx, s: &Sample, src: Src, desc: impl Fn() -> String) -> Res {
    let r = read_any(s.ak, src);
    cx.steps(r.items.len() + 1);
    check_exact(&r, &s.want).map_err(|e| format!("{:?} on {} bytes, {}: {e}; input {}", s.ak, s.bytes.len(), desc(), short_doc(&s.bytes)).into())
}
pub fn c08(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(sc("chunks", 0, move |ch, cx| {
        let ss = sample(false);
        let i = ch.pick(ss.len());
        let s = &ss[i];
        let mut sizes: Vec<usize> = (1..=if s.bytes.len() > 20000 && !thorough { 16 } else { 72 }).collect();
        sizes.extend([100, 127, 128, 255, 256, 1000, 1023, 1024, 4096, 8191, 8192, 8193, 16384]);
        let c = *ch.of(&sizes);
        let mode = ch.pick(3);
        let mut src = Src::new(&s.bytes).chunk(c);
        if mode > 0 {
            src = src.interrupt_all().in_a_row(mode * mode);
        }
        cx.state(&(i, c));
        same(cx, s, src, || format!("chunks of {c}, interrupted {} times before each read", mode * mode))
    }));
    v.push(sc("splits", 0, move |ch, cx| {
        let ss = sample(false);
        let i = ch.pick(ss.len());
        let s = &ss[i];
        let n = s.bytes.len();
        let c = if n > 6000 && !thorough {
            // beyond the first 3000 bytes: around multiples of 1024, and the end
            let pts: Vec<usize> = (1..n).filter(|p| *p < 700 || p % 1024 < 3 || *p + 40 > n).collect();
            *ch.of(&pts)
        } else {
            1 + ch.pick(n - 1)
        };
        cx.state(&(i, c));
        let mut src = Src::new(&s.bytes).cuts(&[c]);
        let intr = ch.flag();
        if intr {
            src = src.interrupt_all();
        }
        same(cx, s, src, || format!("split at {c}, interrupted: {intr}"))
    }));
    v.push(sc("interrupts", 0, move |ch, cx| {
        let ss = sample(false);
        let i = ch.pick(ss.len());
        let s = &ss[i];
        let c = *ch.of(&[7usize, 64, 1000, usize::MAX]);
        let at = ch.pick(if thorough { 64 } else { 24 });
        let at2 = if ch.flag() { at + 1 } else { at };
        cx.state(&(i, c, at, at2));
        let run = *ch.of(&[1usize, 2, 9]);
        same(cx, s, Src::new(&s.bytes).chunk(c).interrupts(&[at, at2]).in_a_row(run), || format!("chunks of {c}, {run} interrupts before reads {at} and {at2}"))
    }));
    v.push(sc("pairs", 0, move |ch, cx| {
        let ss = sample(true);
        let i = ch.pick(ss.len());
        let s = &ss[i];
        let n = s.bytes.len();
        let a = 1 + ch.pick(n - 1);
        let max = if thorough { n } else { n.min(a + 48) };
        cx.inner += (max - a) as u64;
        for b in a + 1..max {
            same(cx, s, Src::new(&s.bytes).cuts(&[a, b]), || format!("splits at {a} and {b}"))?;
        }
        Ok(())
    }));
    v.push(sc("patterns", 0, move |ch, cx| {
        // repeating patterns of read sizes
        let ss = sample(true);
        let i = ch.pick(ss.len());
        let s = &ss[i];
        let k = 2 + ch.pick(if thorough { 3 } else { 2 });
        let pat: Vec<usize> = (0..k).map(|_| *ch.of(&[1usize, 2, 3, 5, 16, 61])).collect();
        let (mut cuts, mut p, mut j) = (vec![], 0, 0);
        while p < s.bytes.len() {
            p += pat[j % k];
            j += 1;
            cuts.push(p);
        }
        let mut src = Src::new(&s.bytes).cuts(&cuts);
        if ch.flag() {
            src = src.interrupt_all();
        }
        same(cx, s, src, || format!("pattern {pat:?}"))
    }));
    v
}

// ------------------------------------------------------------------ C24
pub struct TDoc {
    pub doc: Doc,
    pub ak: Ak,
    /// items in document order with the byte range they come from
    pub want: Vec<(Any, (usize, usize))>,
    pub desc: String,
}
pub fn tdoc(ak: Ak, set: usize, s: &Style) -> TDoc {
    let desc = format!("{ak:?} document {set} {s:?}");
    match ak {
        Ak::O(Rk::Xml, k) => {
            let o = xdata(set);
            let doc = xml_doc(&o, s);
            let want = o.iter().zip(&doc.spans).filter(|(o, _)| k.is_none_or(|k| k == o.kind)).map(|(o, s)| (Any::O(o.clone()), *s)).collect();
            TDoc { doc, ak, want, desc }
        }
        Ak::O(_, k) => {
            let o = xdata(set);
            let n = o.len() / 2;
            let secs = vec![(Sec::Modify, vec![]), (Sec::Create, o[..n].to_vec()), (Sec::Delete, o[n..].to_vec())];
            let doc = osc_doc(&secs, s);
            let want = osc_expect(&secs).into_iter().zip(&doc.spans).filter(|(o, _)| k.is_none_or(|k| k == o.kind)).map(|(o, s)| (Any::O(o), *s)).collect();
            TDoc { doc, ak, want, desc }
        }
        _ => {
            let c = csdata(set);
            let doc = cs_doc(&c, s, &[]);
            let want = c.iter().zip(&doc.spans).filter(|(c, _)| ak != Ak::Tag || !c.tags.is_empty()).map(|(c, s)| (want_cs(ak, std::slice::from_ref(c)).remove(0), *s)).collect();
            TDoc { doc, ak, want, desc }
        }
    }
}
fn trunc_check(cx: &mut Cx, t: &TDoc, at: usize, kind: Option<ErrorKind>, chunk: usize) -> Res {
    let src = match kind {
        None => Src::new(&t.doc.bytes[..at]),
        Some(k) => Src::new(&t.doc.bytes).failing(at, k),
    };
    let r = read_any(t.ak, src.chunk(chunk));
    cx.steps(r.items.len() + 1);
    cx.state(&(at, r.items.len(), r.failed()));
    let say = |m: String| -> Res {
        Err(format!(
            "{} {at} (root element ends at {}): {m}; delivered {:?}, end {:?}; {}; input up to there: {}",
            if let Some(k) = kind { format!("source fails ({k:?}) at byte") } else { "document cut at byte".into() },
            t.doc.root_end,
            r.items.iter().take(8).collect::<Vec<_>>(),
            r.end,
            t.desc,
            short_doc(&t.doc.bytes[..at])
        )
        .into())
    };
    let got = &r.items[..r.first_failure()];
    for (i, o) in got.iter().enumerate() {
        match t.want.get(i) {
            Some((w, sp)) if w == o => {
                if sp.1 > at {
                    return say(format!("object {i} is delivered although only a part of it is there"));
                }
            }
            w => return say(format!("item {i} is {o:?}, the intact document has {:?}", w.map(|x| &x.0))),
        }
    }
    if let Some(x) = r.items[got.len()..].iter().find(|x| !matches!(x, Any::E(_))) {
        return say(format!("{x:?} is delivered after the failure"));
    }
    let min = t.want.iter().filter(|w| w.1.1 <= at).count();
    if got.len() < min {
        return say(format!("{min} objects were wholly available"));
    }
    if at < t.doc.root_end && !r.failed() {
        return say("reading ended normally".into());
    }
    if at >= t.doc.root_end && kind.is_none() && at == t.doc.bytes.len() && r.failed() {
        return say("the complete document is reported as a failure".into());
    }
    Ok(())
}
pub const XAK: &[Ak] = &[Ak::O(Rk::Xml, None), Ak::O(Rk::Osc, None), Ak::Cs, Ak::Tag];
pub fn c24(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    for &ak in XAK {
        let name = format!("{ak:?}").replace(['(', ')', ' ', ','], "");
        v.push(sc(&format!("cuts-{name}"), if thorough { 2 } else { 1 }, move |ch, cx| {
            let set = ch.pick(4);
            let s = style_dev(ch);
            let t = tdoc(ak, set, &s);
            cx.inner += t.doc.bytes.len() as u64;
            for at in 0..=t.doc.bytes.len() {
                trunc_check(cx, &t, at, None, usize::MAX)?;
            }
            Ok(())
        }));
        v.push(sc(&format!("failures-{name}"), 1, move |ch, cx| {
            let set = ch.pick(4);
            let k = *ch.of(if thorough { ERRS } else { &ERRS[..1] });
            let s = style_dev(ch);
            let t = tdoc(ak, set, &s);
            cx.inner += t.doc.bytes.len() as u64;
            for at in 0..=t.doc.bytes.len() {
                trunc_check(cx, &t, at, Some(k), usize::MAX)?;
            }
            Ok(())
        }));
        v.push(sc(&format!("kinds-{name}"), 0, move |ch, cx| {
            let set = ch.pick(if thorough { 4 } else { 2 });
            let at = ch.pick(tdoc(ak, set, &Style::default()).doc.bytes.len() + 1);
            let k = *ch.of(&KINDS_OF_FAILURE.iter().map(|k| Some(*k)).chain([None]).collect::<Vec<_>>());
            let c = if k.is_none_or(|k| ERRS[..3].contains(&k)) { *ch.of(&[usize::MAX, 1, 5]) } else { usize::MAX };
            trunc_check(cx, &tdoc(ak, set, &Style::default()), at, k, c)
        }));
        v.push(sc(&format!("large-{name}"), 0, move |ch, cx| {
            let s = [Style::default(), Style { ws: 2, text: 3, comment: 2, extra_el: 4, nested: 2, ..Style::default() }][ch.pick(2)].clone();
            let t = tdoc(ak, 4, &s);
            let n = t.doc.bytes.len();
            let slices = 64;
            let i = ch.pick(slices);
            let step = if thorough { 1 } else { 5 };
            let mut at = i * n / slices;
            while at < (i + 1) * n / slices {
                cx.inner += 1;
                trunc_check(cx, &t, at, None, usize::MAX)?;
                at += step;
            }
            Ok(())
        }));
    }
    // the same through filtered iteration
    v.push(sc("filtered", 0, move |ch, cx| {
        let ak = Ak::O(*ch.of(&[Rk::Xml, Rk::Osc]), Some(*ch.of(&KINDS)));
        let set = ch.pick(4);
        let t = tdoc(ak, set, &Style::default());
        let at = ch.pick(t.doc.bytes.len() + 1);
        let k = *ch.of(&[None, Some(ErrorKind::Other)]);
        trunc_check(cx, &t, at, k, usize::MAX)
    }));
    v
}

// ------------------------------------------------------------------ C28
/// An OSMData block with this compressed data, stored as field 3 after the true size.
fn zframe(size: usize, z: &[u8]) -> Vec<u8> {
    let w = Wire::default();
    let mut b = PB::new(&w);
    b.int(2, size as i64);
    b.bytes(3, z);
    frame_of_blob("OSMData", &b.b, &w)
}
pub struct ZFile {
    pre: Vec<u8>,
    post: Vec<u8>,
    pub payload: Vec<u8>,
    pub level: u32,
    pub z: Vec<u8>,
    objs: Vec<MObj>,
    /// objects before the block in question
    before: usize,
}
impl ZFile {
    fn with(&self, z: &[u8]) -> Vec<u8> {
        [&self.pre[..], &zframe(self.payload.len(), z), &self.post].concat()
    }
}
fn zfile(which: usize) -> Arc<ZFile> {
    static F: OnceLock<Vec<Arc<ZFile>>> = OnceLock::new();
    F.get_or_init(|| {
        (0..10)
            .map(|i| {
                let mut g = IdGen::new();
                let first = Block::of(vec![one_group(g.objs(K::N, 1))]);
                let mid = if i < 8 {
                    let k = [K::N, K::W, K::R, K::N][i % 4];
                    let v = g.objs(k, if i % 4 == 3 { 9 } else { 2 });
                    Block::of(vec![if i % 4 == 3 { Group::Nodes(v) } else { one_group(v) }])
                } else {
                    Block::of(groups_of(&dataset(4)[380..620]))
                };
                let last = Block::of(vec![one_group(g.objs(K::W, 1))]);
                let w = Wire::default();
                let mut pre = header_frame(Hdr::Minimal, &w);
                pre.extend(data_frame(&first, &w));
                let level = [6, 0, 9, 1][(i / 4 + i) % 4];
                let payload = block_bytes(&mid, &w);
                let z = zlib(&payload, level);
                let before = first.expect().len();
                let objs = [first.expect(), mid.expect(), last.expect()].concat();
                let post = if i % 2 == 0 { data_frame(&last, &w) } else { vec![] };
                let objs = if i % 2 == 0 { objs } else { objs[..objs.len() - 1].to_vec() };
                Arc::new(ZFile { pre, post, payload, level, z, objs, before })
            })
            .collect()
    })[which]
        .clone()
}
/// The intact objects, or a failure after nothing but intact objects of the blocks before.
fn damage_check(cx: &mut Cx, ak: Ak, f: &ZFile, z: &[u8], desc: &dyn Fn() -> String) -> Res {
    // damage which the checksum of the data cannot reveal makes it other, valid data
    let mut plain = vec![];
    if std::io::Read::read_to_end(&mut flate2::read::ZlibDecoder::new(z), &mut plain).is_ok() && plain != f.payload {
        cx.state(&("collision", z));
        return Ok(());
    }
    let bytes = f.with(z);
    let r = read_any(ak, bytes.as_slice());
    let want = want_objs(ak, &f.objs);
    cx.steps(1 + r.items.len());
    cx.state(&(r.items.len(), r.end.failed()));
    if !r.end.failed() {
        if r.items != want {
            let at = (0..).find(|&i| r.items.get(i) != want.get(i)).unwrap();
            return Err(format!("{}, {ak:?}: reading ends normally, but item {at} of {} is {:?} where the intact file has {:?}", desc(), r.items.len(), r.items.get(at), want.get(at)).into());
        }
    } else {
        let min = want_objs(ak, &f.objs[..f.before]).len();
        if r.items.len() < min || r.items.iter().zip(&want).any(|(a, b)| a != b) || r.items.len() > want.len() {
            return Err(format!("{}, {ak:?}: before the failure {:?} were delivered, expected a leading part of at least {min} of {:?}", desc(), r.items.iter().take(6).collect::<Vec<_>>(), want.iter().take(6).collect::<Vec<_>>()).into());
        }
    }
    Ok(())
}
pub fn c28(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(sc("pbf-bytes", 0, move |ch, cx| {
        // every other value of every byte of the compressed data
        let w = ch.pick(8);
        let f = zfile(w);
        let ak = *ch.of(if thorough { PAK } else { &PAK[..3] });
        let at = ch.pick(f.z.len());
        cx.inner += 254;
        for x in 1..=255u8 {
            let mut z = f.z.clone();
            z[at] ^= x;
            damage_check(cx, ak, &f, &z, &|| format!("file {w} (zlib level {}): byte {at} of {} of the compressed data changed from {:#04x} to {:#04x}", f.level, f.z.len(), f.z[at], f.z[at] ^ x))?;
        }
        Ok(())
    }));
    v.push(sc("pbf-pairs", 0, move |ch, cx| {
        // every bit of every byte together with every bit of a byte close by; exchanged neighbours
        let w = ch.pick(4);
        let f = zfile(w);
        let ak = *ch.of(&PAK[..3]);
        let at = ch.pick(f.z.len() - 1);
        let d = 1 + ch.pick(if thorough { 6 } else { 2 });
        if at + d >= f.z.len() {
            return Ok(());
        }
        cx.inner += 64;
        for b in 0..64 {
            let mut z = f.z.clone();
            z[at] ^= 1 << (b % 8);
            z[at + d] ^= 1 << (b / 8);
            damage_check(cx, ak, &f, &z, &|| format!("file {w}: bit {} of byte {at} and bit {} of byte {} flipped", b % 8, b / 8, at + d))?;
        }
        let mut z = f.z.clone();
        z.swap(at, at + d);
        damage_check(cx, ak, &f, &z, &|| format!("file {w}: bytes {at} and {} exchanged", at + d))
    }));
    v.push(sc("pbf-cut", 0, move |ch, cx| {
        // compressed data that is cut short, lacks a byte, or has one too many, in a block that is framed correctly
        let w = ch.pick(8);
        let f = zfile(w);
        let ak = *ch.of(PAK);
        let at = ch.pick(f.z.len() + 1);
        let how = ch.pick(5);
        let (a, b) = f.z.split_at(at);
        let z = match how {
            0 => a.to_vec(),
            1 if !b.is_empty() => [a, &b[1..]].concat(),
            2 => [a, &[0], b].concat(),
            3 => [a, &[0xff], b].concat(),
            _ => [a, &vec![0; b.len()]].concat(),
        };
        damage_check(cx, ak, &f, &z, &|| format!("file {w}: compressed data {} at byte {at} of {}", ["cut", "lacks the byte", "has a zero inserted", "has 0xff inserted", "is zero from"][how], f.z.len()))
    }));
    v.push(sc("pbf-large", 0, move |ch, cx| {
        // a block of several hundred objects: one flipped bit anywhere
        let w = 8 + ch.pick(2);
        let f = zfile(w);
        let ak = *ch.of(&PAK[..3]);
        let n = f.z.len();
        let at = if thorough { ch.pick(n) } else { *ch.of(&(0..n).filter(|p| p % 13 == 0 || p + 6 > n || *p < 12).collect::<Vec<_>>()) };
        cx.inner += 7;
        for b in 0..8 {
            let mut z = f.z.clone();
            z[at] ^= 1 << b;
            damage_check(cx, ak, &f, &z, &|| format!("file {w}: bit {b} of byte {at} of {n} flipped"))?;
        }
        Ok(())
    }));
    // the size of the decompressed data as stated by the block is another check on it
    v.push(sc("bz2-bytes", 0, move |ch, cx| {
        let which = ch.pick(3);
        let cs = csdata([0, 2, 0][which]);
        let doc = cs_doc(&cs, &Style::default(), &[]).bytes;
        let z = if which == 2 { [bz(&doc[..doc.len() / 2], 1), bz(&doc[doc.len() / 2..], 1)].concat() } else { bz(&doc, 1) };
        let want = want_cs(Ak::CsBz, &cs);
        let at = ch.pick(z.len());
        let vals: Vec<u8> = if thorough { (1..=255).collect() } else { (0..8).map(|b| 1 << b).chain([0xff]).collect() };
        cx.inner += vals.len() as u64 - 1;
        for x in vals {
            let mut d = z.clone();
            d[at] ^= x;
            let r = read_any(Ak::CsBz, d.as_slice());
            cx.steps(1 + r.items.len());
            cx.state(&(which, at, r.items.len()));
            if !r.failed() && r.items != want {
                return Err(format!("bzip2 data {which}: byte {at} of {} changed from {:#04x} to {:#04x}: reading ends normally with {} changesets of {}", z.len(), z[at], z[at] ^ x, r.items.len(), want.len()).into());
            }
        }
        Ok(())
    }));
    v
}
