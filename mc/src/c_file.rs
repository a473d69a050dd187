//! C25 (opening files and compressed streams), C26 (the command-line tools).
use crate::c_cs::csdata;
use crate::c_fault::*;
use crate::c_xml::xfull;
use crate::engine::*;
use crate::model::*;
use crate::rd::*;
use crate::src::*;
use crate::xmlgen::*;
use std::collections::BTreeMap;
use std::io::ErrorKind;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, OnceLock};

// ------------------------------------------------------------------ C25
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    ReadPbf,
    StrPbf,
    AliasPbf,
    ArcPbf,
    PosPbf,
    ReadXml,
    XmlBz,
    XmlPlain,
    CsFile,
    TagFile,
    CsStream,
}
const OPS: &[Op] = &[Op::ReadPbf, Op::StrPbf, Op::AliasPbf, Op::ArcPbf, Op::PosPbf, Op::ReadXml, Op::XmlBz, Op::XmlPlain, Op::CsFile, Op::TagFile, Op::CsStream];
const BZOPS: &[Op] = &[Op::ReadXml, Op::XmlBz, Op::CsFile, Op::TagFile, Op::CsStream];
impl Op {
    fn bz(self) -> bool {
        BZOPS.contains(&self)
    }
    fn ak(self) -> Ak {
        match self {
            Op::ReadPbf | Op::StrPbf | Op::AliasPbf => Ak::O(Rk::Str, None),
            Op::ArcPbf => Ak::O(Rk::Arc, None),
            Op::PosPbf => Ak::Pos,
            Op::ReadXml | Op::XmlBz | Op::XmlPlain => Ak::O(Rk::Xml, None),
            Op::CsFile | Op::CsStream => Ak::Cs,
            Op::TagFile => Ak::Tag,
        }
    }
    fn utf8_only(self) -> bool {
        matches!(self, Op::CsFile | Op::TagFile)
    }
}
/// Open the file and read it to the end; Err: it could not be opened.
fn open(op: Op, p: &Path) -> Result<AnyRun, String> {
    use osmio::changesets::*;
    fn e<T, E: std::fmt::Display>(r: Result<Result<T, E>, String>) -> Result<T, String> {
        r.and_then(|x| x.map_err(|e| e.to_string()))
    }
    fn pos<R: std::io::Read>(mut r: osmio::stringpbf::PBFNodePositionReader<R>) -> AnyRun {
        collect(|| r.next(), |(i, (a, b))| Any::P(i, (a.inner(), b.inner())))
    }
    Ok(match op {
        Op::ReadPbf => run_osm(Ok(e(guard(|| osmio::read_pbf(p)))?), None),
        Op::StrPbf => run_osm(Ok(e(guard(|| osmio::stringpbf::PBFReader::from_filename(p)))?), None),
        Op::AliasPbf => run_osm(Ok(e(guard(|| osmio::pbf::PBFReader::from_filename(p)))?), None),
        Op::ArcPbf => run_osm(Ok(e(guard(|| osmio::arcpbf::PBFReader::from_filename(p)))?), None),
        Op::PosPbf => pos(e(guard(|| osmio::stringpbf::PBFNodePositionReader::from_filename(p)))?),
        Op::ReadXml => run_osm(Ok(e(guard(|| osmio::read_xml(p)))?), None),
        Op::XmlBz => run_osm(Ok(e(guard(|| osmio::xml::from_filename_bz2(p)))?), None),
        Op::XmlPlain => run_osm(Ok(e(guard(|| osmio::xml::from_filename_uncompressed(p)))?), None),
        Op::CsFile => run_cs(Ok(e(guard(|| ChangesetReader::from_filename(p.to_str().unwrap())))?)),
        Op::TagFile => run_tag(Ok(e(guard(|| ChangesetTagReader::from_filename(p.to_str().unwrap())))?)),
        Op::CsStream => {
            let f = std::fs::File::open(p).map_err(|e| e.to_string())?;
            run_cs(guard(|| ChangesetReader::from_bz2_reader(f)))
        }
    })
}
struct Content {
    bytes: Vec<u8>,
    want: Vec<Any>,
    root_end: usize,
}
/// What the opener is to find: PBF file or XML document `set` in style `s`.
fn content(op: Op, set: usize, s: &Style) -> Content {
    match op.ak() {
        Ak::O(Rk::Str | Rk::Arc, _) | Ak::Pos => {
            let f = framed_file(set);
            Content { bytes: f.bytes.clone(), want: want_objs(op.ak(), &f.objs), root_end: f.bytes.len() }
        }
        ak => {
            let t = tdoc(ak, set, s);
            Content { root_end: t.doc.root_end, bytes: t.doc.bytes, want: t.want.into_iter().map(|w| w.0).collect() }
        }
    }
}
fn sets(op: Op) -> usize {
    if op.bz() || op == Op::XmlPlain { 5 } else { 16 }
}
fn scratch(cx: &Cx) -> Result<PathBuf, Fail> {
    std::fs::create_dir_all(&cx.scratch).map_err(|e| Fail::from(format!("HARNESS: scratch: {e}")))?;
    Ok(cx.scratch.clone())
}
fn put(cx: &Cx, name: &str, b: &[u8]) -> Result<PathBuf, Fail> {
    let p = scratch(cx)?.join(name);
    std::fs::write(&p, b).map_err(|e| Fail::from(format!("HARNESS: scratch: {e}")))?;
    Ok(p)
}
fn file_exact(cx: &mut Cx, op: Op, p: &Path, c: &Content, what: &dyn Fn() -> String) -> Res {
    let r = open(op, p).map_err(|e| format!("{op:?}: cannot open {}: {e}", what()))?;
    cx.steps(r.items.len() + 1);
    cx.state(&r.items);
    cx.note(|| format!("{op:?} {}: {:?} {:?}", what(), r.items, r.end));
    check_exact(&r, &c.want).map_err(|e| format!("{op:?}, {}: {e}", what()).into())
}
/// The same through a source of ours (compressed streams only).
fn stream_run(op: Op, src: Src) -> AnyRun {
    match op {
        Op::CsStream | Op::CsFile => read_any(Ak::CsBz, src),
        _ => panic!("HARNESS: no stream opener"),
    }
}
fn leading(r: &AnyRun, c: &Content) -> Result<(), String> {
    let n = r.first_failure();
    if r.items[..n] != c.want[..n.min(c.want.len())] {
        return Err(format!("delivers {:?}, the intact content has {:?}", &r.items[..n], c.want));
    }
    if let Some(x) = r.items[n..].iter().find(|x| !matches!(x, Any::E(_))) {
        return Err(format!("{x:?} is delivered after the failure"));
    }
    Ok(())
}
/// Compressed content cut (or failing) at a byte. `ends`: (compressed offset, plain offset) of the complete streams.
fn cut_run(r: AnyRun, c: &Content, at: usize, total: usize, ends: &[(usize, usize)], failing: bool) -> Result<(), String> {
    leading(&r, c)?;
    if at == total && !failing {
        return check_exact(&r, &c.want);
    }
    // cut between two streams behind the end of the root element: nothing is missing
    if !failing && ends.iter().any(|e| e.0 == at && e.1 >= c.root_end) {
        return Ok(());
    }
    if !r.failed() {
        return Err(format!("reading ends normally after {} of {} items", r.items.len(), c.want.len()));
    }
    Ok(())
}
/// `bytes` as concatenated streams, split at these offsets (repeated: an empty stream).
fn streams(bytes: &[u8], splits: &[usize], level: u32) -> (Vec<u8>, Vec<(usize, usize)>) {
    let (mut out, mut ends, mut at) = (vec![], vec![], 0);
    for &s in splits.iter().chain([&bytes.len()]) {
        out.extend(bz(&bytes[at..s], level));
        at = s;
        ends.push((out.len(), s));
    }
    (out, ends)
}
const NAMES: &[&[u8]] = &[b"a.osm", b"a.osm.pbf", b"a.osm.bz2", b"noext", b".hidden", b"with space", b"\xc3\xa9\xf0\x9f\x98\x80.bz2", b"not-utf8-\xff\xfe.pbf", b"-", b"a\nb", b"*", b"%20"];

pub fn c25(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(sc("open", if thorough { 2 } else { 1 }, move |ch, cx| {
        // every opener, document and style of writing it
        let op = *ch.of(OPS);
        let set = ch.pick(sets(op));
        let xml = op.bz() || op == Op::XmlPlain;
        let s = if xml && set < 4 { style_dev(ch) } else { Style::default() };
        let level = if op.bz() { [9, 1, 5][ch.dev(3)] } else { 0 };
        let c = content(op, set, &s);
        let b = if op.bz() { bz(&c.bytes, level) } else { c.bytes.clone() };
        let p = put(cx, "file", &b)?;
        file_exact(cx, op, &p, &c, &|| format!("document {set}, level {level}, {s:?}"))
    }));
    v.push(sc("names", 0, move |ch, cx| {
        // names of every kind, absolute and through links and dots
        let op = *ch.of(OPS);
        let name = *ch.of(NAMES);
        let via = ch.pick(4);
        if op.utf8_only() && std::str::from_utf8(name).is_err() {
            return Ok(());
        }
        let c = content(op, 0, &Style::default());
        let b = if op.bz() { bz(&c.bytes, 9) } else { c.bytes.clone() };
        let dir = scratch(cx)?.join("names");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(dir.join("sub")).unwrap();
        let p = dir.join(std::ffi::OsStr::from_bytes(name));
        std::fs::write(&p, &b).unwrap();
        let q = match via {
            0 => p,
            1 => dir.join("sub/..").join(std::ffi::OsStr::from_bytes(name)),
            2 => {
                std::os::unix::fs::symlink(&p, dir.join("sub/link")).unwrap();
                dir.join("sub/link")
            }
            _ => {
                std::fs::hard_link(&p, dir.join("sub/other")).unwrap();
                dir.join("sub/other")
            }
        };
        file_exact(cx, op, &q, &c, &|| format!("{q:?}"))
    }));
    v.push(sc("missing", 0, move |ch, cx| {
        let op = *ch.of(OPS);
        let dir = scratch(cx)?.join("missing");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join("file"), b"").unwrap();
        std::os::unix::fs::symlink(dir.join("nothing"), dir.join("dangling")).unwrap();
        std::os::unix::fs::symlink(dir.join("loop"), dir.join("loop")).unwrap();
        let p = [dir.join("nothing"), dir.join("no/such/dir"), dir.join("file/below"), dir.join("dangling"), dir.join("loop"), PathBuf::from(""), dir.join("x".repeat(300)), dir.join("nul\0byte"), dir.clone()];
        let i = ch.pick(p.len());
        cx.steps(1);
        let r = open(op, &p[i]);
        cx.note(|| format!("{op:?} {:?}: {:?}", p[i], r.as_ref().map(|r| (&r.items, &r.end))));
        match r {
            // a directory can be opened, but not read
            Ok(r) if i == 8 && r.failed() && r.first_failure() == 0 => Ok(()),
            Ok(r) => Err(format!("{op:?}: opening {:?} succeeds and gives {:?} {:?}", p[i], r.items, r.end).into()),
            Err(e) if e.starts_with("panic") => Err(format!("{op:?}: opening {:?}: {e}", p[i]).into()),
            Err(_) => {
                // and nothing has been created
                if i < 8 && i != 3 && i != 4 && i != 5 && p[i].exists() { Err(format!("{op:?}: {:?} exists now", p[i]).into()) } else { Ok(()) }
            }
        }
    }));
    v.push(sc("split", 0, move |ch, cx| {
        // two streams split at every byte, every opener
        let op = *ch.of(BZOPS);
        let set = ch.pick(4);
        let c = content(op, set, &Style::default());
        let at = ch.pick(c.bytes.len() + 1);
        let level = if thorough { *ch.of(&[1, 9]) } else { [9, 1][at % 2] };
        let (b, _) = streams(&c.bytes, &[at], level);
        let p = put(cx, "file", &b)?;
        file_exact(cx, op, &p, &c, &|| format!("document {set} split at byte {at}, level {level}"))
    }));
    v.push(sc("split-three", 0, move |ch, cx| {
        // three or more streams, some of them empty; split at pairs of bytes
        let op = *ch.of(BZOPS);
        let c = content(op, if op.ak() == Ak::O(Rk::Xml, None) { 3 } else { 0 }, &Style { decl: 1, ..Style::default() });
        let n = c.bytes.len();
        let step = (n / if thorough { 60 } else { 24 }).max(1);
        let i = ch.pick(n / step + 1) * step;
        let j = i + ch.pick((n - i) / step + 1) * step;
        let mut sp = match ch.pick(4) {
            0 => vec![i, j],
            1 => vec![0, i, i, j],
            2 => vec![i, j, n],
            _ => vec![0, 0, i, j, j, n, n],
        };
        sp.sort();
        let (b, _) = streams(&c.bytes, &sp, 1);
        let p = put(cx, "file", &b)?;
        file_exact(cx, op, &p, &c, &|| format!("split at bytes {sp:?}"))
    }));
    v.push(sc("every-byte", 0, move |ch, cx| {
        // one stream per n bytes
        let op = *ch.of(BZOPS);
        let set = ch.pick(if thorough { 5 } else { 4 });
        let c = content(op, set, &Style::default());
        let n = *ch.of(&[1usize, 2, 3, 7, 64, 1000]);
        let sp: Vec<usize> = (n..c.bytes.len()).step_by(n).collect();
        let (b, _) = streams(&c.bytes, &sp, 1);
        let p = put(cx, "file", &b)?;
        file_exact(cx, op, &p, &c, &|| format!("document {set}, a stream for every {n} bytes"))
    }));
    v.push(sc("large", 0, move |ch, cx| {
        // content beyond one compression block and every buffer
        let op = *ch.of(OPS);
        let level = *ch.of(&[1u32, 9]);
        let sp = ch.pick(3);
        let c = big(op);
        let b = if op.bz() {
            let n = c.bytes.len();
            let s: Vec<usize> = match sp {
                0 => vec![],
                1 => vec![n / 2],
                _ => (1..10).map(|i| i * n / 10).collect(),
            };
            streams(&c.bytes, &s, level).0
        } else {
            c.bytes.clone()
        };
        let p = put(cx, "file", &b)?;
        file_exact(cx, op, &p, &c, &|| format!("large document, level {level}, split {sp}"))
    }));
    v.push(sc("cut-file", 0, move |ch, cx| {
        // every file cut at every byte, opened by name
        let op = *ch.of(OPS);
        let set = ch.pick(4);
        let split = if op.bz() { ch.pick(3) } else { 0 };
        let c = content(op, set, &Style { tail: 2, ..Style::default() });
        let n = c.bytes.len();
        let (b, ends) = if op.bz() {
            streams(&c.bytes, &[vec![], vec![n / 2], vec![n / 3, c.root_end]][split], 9)
        } else {
            (c.bytes.clone(), if op == Op::XmlPlain { (c.root_end..n).map(|i| (i, i)).collect() } else { framed_file(set).bounds.iter().map(|b| (b.0, b.0)).collect() })
        };
        let step = if thorough || op.bz() { 1 } else { 3 };
        for at in (0..=b.len()).rev().step_by(step) {
            cx.inner += 1;
            let p = put(cx, "file", &b[..at])?;
            let r = open(op, &p).map_err(|e| format!("{op:?}: cannot open: {e}"))?;
            cx.steps(r.items.len() + 1);
            cx.state(&(at, r.items.len(), r.failed()));
            let res = if op.bz() || op == Op::XmlPlain {
                cut_run(r, &c, at, b.len(), &ends, false)
            } else {
                // a PBF file may end between frames
                leading(&r, &c).and_then(|_| if ends.iter().any(|e| e.0 == at) || r.failed() { Ok(()) } else { Err("reading ends normally".into()) })
            };
            res.map_err(|e| format!("{op:?}: document {set}, streams {split}, file cut at byte {at} of {}: {e}", b.len()))?;
        }
        Ok(())
    }));
    v.push(sc("stream-faults", 0, move |ch, cx| {
        // compressed source delivering in small pieces, cut or failing at every byte
        let set = ch.pick(4);
        let split = ch.pick(4);
        let c = content(Op::CsStream, set, &Style { tail: 1, ..Style::default() });
        let n = c.bytes.len();
        let (b, ends) = streams(&c.bytes, &[vec![], vec![n / 2], vec![n / 3, n / 2, c.root_end], vec![0, n - 5, n]][split], 9);
        let kind = *ch.of(&[None, Some(ErrorKind::Other), Some(ErrorKind::UnexpectedEof), Some(ErrorKind::ConnectionReset), Some(ErrorKind::WouldBlock)]);
        let chunk = *ch.of(if thorough { &[usize::MAX, 1, 7, 64] } else { &[usize::MAX, 3] });
        for at in 0..=b.len() {
            cx.inner += 1;
            let src = match kind {
                None => Src::new(&b[..at]),
                Some(k) => Src::new(&b).failing(at, k),
            };
            let r = stream_run(Op::CsStream, src.chunk(chunk));
            cx.steps(r.items.len() + 1);
            cx.state(&(at, r.items.len(), r.failed()));
            // at the very end a failing source may or may not be asked again
            let fine = kind.is_some() && at == b.len();
            let res = if fine { leading(&r, &c) } else { cut_run(r, &c, at, b.len(), &ends, kind.is_some()) };
            res.map_err(|e| format!("compressed changesets {set}, streams {split}, {} byte {at} of {}, pieces of {chunk}: {e}", if let Some(k) = kind { format!("source fails ({k:?}) at") } else { "cut at".into() }, b.len()))?;
        }
        Ok(())
    }));
    v.push(sc("stream-delivery", 1, move |ch, cx| {
        // compressed source with every single piece boundary and interruption
        let set = ch.pick(if thorough { 4 } else { 2 });
        let split = ch.pick(3);
        let c = content(Op::CsStream, set, &Style::default());
        let n = c.bytes.len();
        let (b, _) = streams(&c.bytes, &[vec![], vec![n / 2], vec![0, n / 3, n / 2, n]][split], 1);
        let at = ch.dev(b.len());
        let mut src = Src::new(&b).cuts(&[at]).chunk(*ch.of(if thorough { &[usize::MAX, 1, 2, 50] } else { &[usize::MAX, 3] }));
        match ch.pick(3) {
            0 => {}
            1 => src = src.interrupts(&[0, 1, 2, 3, 5, 8]),
            _ => src = src.interrupt_all(),
        }
        let r = stream_run(Op::CsStream, src);
        cx.steps(r.items.len() + 1);
        check_exact(&r, &c.want).map_err(|e| format!("compressed changesets {set}, streams {split}, piece boundary at byte {at}: {e}").into())
    }));
    v
}
fn big(op: Op) -> Arc<Content> {
    static X: OnceLock<Vec<Arc<Content>>> = OnceLock::new();
    let all = X.get_or_init(|| {
        OPS.iter()
            .map(|op| {
                Arc::new(match op.ak() {
                    Ak::O(Rk::Xml, _) => {
                        let o: Vec<MObj> = (0..6000)
                            .map(|i| {
                                let mut m = crate::c_xml::xfull([K::N, K::W, K::R][i % 3], 1 + i as i64);
                                m.tags = vec![("ref".into(), format!("{:x}", i.wrapping_mul(2654435761)))];
                                m
                            })
                            .collect();
                        let d = xml_doc(&o, &Style::default());
                        Content { bytes: d.bytes, want: want_objs(op.ak(), &o), root_end: d.root_end }
                    }
                    Ak::Cs | Ak::Tag => {
                        let o = manycs(6000);
                        let d = cs_doc(&o, &Style::default(), &[]);
                        Content { bytes: d.bytes, want: want_cs(op.ak(), &o), root_end: d.root_end }
                    }
                    _ => content(*op, 14, &Style::default()),
                })
            })
            .collect()
    });
    all[OPS.iter().position(|o| *o == op).unwrap()].clone()
}
fn manycs(n: u32) -> Vec<Cs> {
    (0..n)
        .map(|i| {
            let mut c = Cs::full(10 + i);
            if i % 3 == 0 {
                c.tags.clear();
            }
            if i % 4 == 1 {
                c.tags.push(("note".into(), format!("{:x}", (i as u64).wrapping_mul(0x9e3779b97f4a7c15))));
            }
            c
        })
        .collect()
}

// ------------------------------------------------------------------ C26
fn tool(name: &str) -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join(name)
}
pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
}
impl Ran {
    fn ok(&self) -> bool {
        self.code == Some(0)
    }
    fn how(&self) -> String {
        format!("exit {:?} signal {:?}, output {:?}", self.code, self.signal, self.out.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect::<String>())
    }
}
fn run(cmd: &mut Command) -> Result<Ran, Fail> {
    let o = cmd.stdin(Stdio::null()).env("RUST_BACKTRACE", "0").output().map_err(|e| Fail::from(format!("HARNESS: cannot run {cmd:?}: {e}")))?;
    let mut out = String::from_utf8_lossy(&o.stdout).into_owned();
    out.push_str(&String::from_utf8_lossy(&o.stderr));
    Ok(Ran { code: o.status.code(), signal: o.status.signal(), out })
}
type Rows = BTreeMap<i64, Vec<(String, String)>>;
/// The committed rows of the database, recovered as any later user would; None: no table.
fn rows(db: &Path) -> Result<Option<Rows>, String> {
    if !db.exists() {
        return Ok(None);
    }
    let c = rusqlite::Connection::open(db).map_err(|e| format!("the database cannot be opened: {e}"))?;
    let n: i64 = c.query_row("SELECT count(*) FROM sqlite_master WHERE name = 'changeset_tags'", [], |r| r.get(0)).map_err(|e| format!("the database cannot be read: {e}"))?;
    if n == 0 {
        return Ok(None);
    }
    let mut st = c.prepare("SELECT id, CAST(other_tags AS BLOB) FROM changeset_tags ORDER BY id").map_err(|e| format!("no id and other_tags: {e}"))?;
    let mut out = Rows::new();
    let it = st.query_map([], |r| Ok((r.get::<_, i64>(0)?, r.get::<_, Vec<u8>>(1)?))).map_err(|e| e.to_string())?;
    for r in it {
        let (id, b) = r.map_err(|e| format!("a row cannot be read: {e}"))?;
        let t: Vec<(String, String)> = serde_json::from_slice(&b).map_err(|e| format!("the tags of changeset {id} are {:?}, not a JSON array: {e}", String::from_utf8_lossy(&b)))?;
        if out.insert(id, t).is_some() {
            return Err(format!("several rows for changeset {id}"));
        }
    }
    Ok(Some(out))
}
fn want_rows(c: &[Cs]) -> Rows {
    c.iter().filter(|c| !c.tags.is_empty()).map(|c| (c.id as i64, c.tags.clone())).collect()
}
fn dups(c: &[Cs]) -> bool {
    c.iter().filter(|c| !c.tags.is_empty()).count() != want_rows(c).len()
}
fn fresh(cx: &Cx) -> Result<PathBuf, Fail> {
    let d = scratch(cx)?.join("tool");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).map_err(|e| Fail::from(format!("HARNESS: scratch: {e}")))?;
    Ok(d)
}
fn sqlite_cmd(input: &Path, db: &Path) -> Command {
    let mut c = Command::new(tool("tool-changeset-tags"));
    c.arg(input).arg(db);
    c
}
/// The tool's closing statistics: numbers of changesets and distinct keys, and the most used keys.
fn statistics(out: &str, rows: &Rows) -> Result<(), String> {
    let mut count: BTreeMap<&str, usize> = BTreeMap::new();
    for t in rows.values() {
        for k in t.iter().map(|t| t.0.as_str()).collect::<std::collections::BTreeSet<_>>() {
            *count.entry(k).or_default() += 1;
        }
    }
    let n = rows.len();
    let ints = |l: &str| -> Vec<usize> { l.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).filter_map(|s| s.parse().ok()).collect() };
    let lines: Vec<&str> = out.lines().collect();
    let Some(at) = lines.iter().position(|l| l.contains("Inserted")) else { return Err("no statistics".into()) };
    if ints(lines[at]) != [n, count.len()] {
        return Err(format!("{:?}, but there are {n} tagged changesets and {} different keys", lines[at], count.len()));
    }
    // keys which take several lines, or look like parts of one, are left out
    if count.keys().any(|k| k.chars().any(|c| c.is_control() || c == '\u{85}' || c == '\u{2028}') || k.contains("tagged") || k.trim() != *k || k.is_empty()) || rows.values().any(|t| t.iter().map(|t| &t.0).collect::<std::collections::BTreeSet<_>>().len() != t.len()) {
        return Ok(());
    }
    let mut got = vec![];
    for l in &lines[at + 1..] {
        let Some((a, k)) = l.split_once(" tagged ") else { continue };
        match (<[usize; 2]>::try_from(ints(a)), count.get(k)) {
            (Ok([m, p]), Some(c)) if m == *c && p == c * 100 / n => got.push((m, k)),
            (_, c) => return Err(format!("{l:?}, but {c:?} of {n} changesets have this key")),
        }
    }
    let mut want: Vec<usize> = count.values().copied().filter(|c| c * 1000 >= n).collect();
    want.sort_by(|a, b| b.cmp(a));
    want.truncate(100);
    if got.iter().map(|g| g.0).collect::<Vec<_>>() != want || got.iter().map(|g| g.1).collect::<std::collections::BTreeSet<_>>().len() != got.len() {
        return Err(format!("the most used keys are listed as {:?}…, their numbers are {:?}… ({} and {} keys)", &got[..got.len().min(5)], &want[..want.len().min(5)], got.len(), want.len()));
    }
    Ok(())
}
/// A dump that can be read completely.
fn load_good(cx: &mut Cx, css: &[Cs], b: &[u8], what: &dyn Fn() -> String) -> Res {
    let d = fresh(cx)?;
    let (i, db) = (d.join("dump.osm.bz2"), d.join("tags.sqlite"));
    std::fs::write(&i, b).unwrap();
    let r = run(&mut sqlite_cmd(&i, &db))?;
    let got = rows(&db).map_err(|e| format!("{}: {e}; {}", what(), r.how()))?;
    cx.steps(css.len() + 1);
    cx.state(&(r.code, &got));
    cx.note(|| format!("{}: {} rows {got:?}", what(), r.how()));
    let want = want_rows(css);
    if dups(css) {
        // the second row for the same changeset cannot be stored
        if r.ok() || got.is_some_and(|g| !g.is_empty()) {
            return Err(format!("{}: a changeset occurs twice; {}, rows {:?}", what(), r.how(), rows(&db)).into());
        }
        return Ok(());
    }
    if !r.ok() {
        return Err(format!("{}: the tool fails: {}", what(), r.how()).into());
    }
    if got.as_ref() != Some(&want) {
        return Err(format!("{}: the database has {got:?}, expected {want:?}", what()).into());
    }
    statistics(&r.out, &want).map_err(|e| format!("{}: the tool says {e}; {}", what(), r.how()))?;
    if std::fs::read(&i).ok().as_deref() != Some(b) {
        return Err(format!("{}: the input has been changed", what()).into());
    }
    Ok(())
}
/// After an incomplete run: all rows or none of them; none if the input was bad.
fn none_or_all(db: &Path, want: &Rows, all_allowed: bool) -> Result<bool, String> {
    match rows(db)? {
        None => Ok(false),
        Some(r) if r.is_empty() => Ok(want.is_empty()),
        Some(r) if all_allowed && r == *want => Ok(true),
        Some(r) => Err(format!("the database has {} rows {:?}, the whole dump has {}", r.len(), r.iter().take(3).collect::<Vec<_>>(), want.len())),
    }
}
fn shimmed(c: &mut Command, dir: &Path, at: u64, mode: &str) {
    c.env("LD_PRELOAD", tool("faultshim.so")).env("SHIM_DIR", dir).env("SHIM_AT", at.to_string()).env("SHIM_MODE", mode).env("SHIM_LOG", dir.join("calls"));
}
fn css_small(which: usize) -> Vec<Cs> {
    match which {
        0..=3 => csdata(which),
        4 => {
            let mut c = csdata(0);
            c.push(c[0].clone());
            c
        }
        5 => {
            // the same id again, untagged
            let mut c = csdata(0);
            let mut d = c[0].clone();
            d.tags.clear();
            c.push(d);
            c
        }
        6 => {
            let mut c = csdata(0);
            c.reverse();
            c[0].id = u32::MAX as u64;
            c[2].id = 0;
            c
        }
        7 => {
            let mut c = Cs::full(1);
            c.tags = (0..40).map(|i| (format!("key \"{i}\" \\ é"), format!("value\n{i}\u{1F600}").repeat(i))).collect();
            vec![c]
        }
        8 => csdata(0).into_iter().map(|mut c| { c.tags.clear(); c }).collect(),
        _ => csdata(4),
    }
}
/// How many of the tool's operations on files can be made to fail, for this dump.
fn ncalls(which: usize) -> u64 {
    static N: OnceLock<std::sync::Mutex<BTreeMap<usize, u64>>> = OnceLock::new();
    let mut g = N.get_or_init(Default::default).lock().unwrap();
    if let Some(n) = g.get(&which) {
        return *n;
    }
    let d = std::env::temp_dir().join(format!("osmio-mc-n-{}-{which}", std::process::id()));
    let d = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm").join(d.file_name().unwrap()) } else { d };
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("HARNESS: scratch");
    std::fs::write(d.join("dump"), &*dump(which)).unwrap();
    let mut c = sqlite_cmd(&d.join("dump"), &d.join("db"));
    shimmed(&mut c, &d, u64::MAX, "count");
    let r = run(&mut c).map_err(|f| f.msg).unwrap();
    let n = std::fs::read_to_string(d.join("calls")).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(0);
    let _ = std::fs::remove_dir_all(&d);
    assert!(!r.ok() || n > 5, "HARNESS: the fault injector sees {n} operations: {}", r.how());
    g.insert(which, n);
    n
}
fn fault_css(which: usize) -> Arc<Vec<Cs>> {
    static C: OnceLock<Vec<Arc<Vec<Cs>>>> = OnceLock::new();
    C.get_or_init(|| {
        let wide = |n: u32, len: usize| {
            (0..n)
                .map(|i| {
                    let mut c = Cs::full(1 + i);
                    c.tags.push(("note".into(), "x".repeat(len)));
                    c
                })
                .collect::<Vec<_>>()
        };
        // the last ones are larger than the database's page cache
        [csdata(0), csdata(4), wide(300, 3000), wide(1200, 6000)].into_iter().map(Arc::new).collect()
    })[which]
        .clone()
}
fn dump(which: usize) -> Arc<Vec<u8>> {
    static D: OnceLock<Vec<Arc<Vec<u8>>>> = OnceLock::new();
    D.get_or_init(|| (0..4).map(|i| Arc::new(bz(&cs_doc(&fault_css(i), &Style::default(), &[]).bytes, 9))).collect())[which].clone()
}
const FAULTS: &[&str] = &["kill", "kill-torn", "kill-after", "enospc", "eio", "torn-enospc"];

pub fn c26(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(sc("tags-load", 1, move |ch, cx| {
        let which = ch.pick(10);
        let css = css_small(which);
        let s = style_dev(ch);
        let doc = cs_doc(&css, &s, &[]).bytes;
        let n = doc.len();
        let sp = [vec![], vec![n / 2], vec![0, n / 3, n]][ch.dev(3)].clone();
        let b = streams(&doc, &sp, 9).0;
        load_good(cx, &css, &b, &|| format!("dump {which} {s:?} split {sp:?}"))
    }));
    v.push(sc("tags-shapes", 0, move |ch, cx| {
        // every sequence of up to three (four) changesets with 0, 1 or 2 tags and repeated ids
        let n = ch.pick(if thorough { 5 } else { 4 });
        let css: Vec<Cs> = (0..n)
            .map(|i| {
                let mut c = Cs::full(1 + ch.pick(i + 1) as u32);
                c.tags.truncate(ch.pick(3));
                c
            })
            .collect();
        let doc = cs_doc(&css, &Style::default(), &[]).bytes;
        load_good(cx, &css, &bz(&doc, 1), &|| format!("changesets {:?}", css.iter().map(|c| (c.id, c.tags.len())).collect::<Vec<_>>()))
    }));
    v.push(sc("tags-many", 0, move |ch, cx| {
        let n = *ch.of(if thorough { &[1000, 10_001, 40_000, 200_000] } else { &[1000, 10_001] });
        let css = manycs(n);
        let b = bz(&cs_doc(&css, &Style::default(), &[]).bytes, 1);
        load_good(cx, &css, &b, &|| format!("{n} changesets"))
    }));
    v.push(sc("tags-statistics", 0, move |ch, cx| {
        // keys used by 0.1 % of the changesets and around that, and around a hundred different keys
        let n = *ch.of(&[1usize, 2, 3, 7, 99, 100, 101, 999, 1000, 1001, 1999, 2000, 2001]);
        let kinds = *ch.of(&[1usize, 2, 99, 100, 101]);
        let pad = ch.pick(2);
        let css: Vec<Cs> = (0..n)
            .flat_map(|i| {
                let mut c = Cs::full(2 * i as u32 + 1);
                // key j is used by j + 1 changesets
                c.tags = (0..kinds).filter(|j| i <= *j).map(|j| (format!("k{j}"), format!("{i}"))).collect();
                c.tags.push(("all".into(), "x".into()));
                if i % 2 == 0 {
                    c.tags.insert(0, ("some".into(), "".into()));
                }
                let mut d = Cs::full(2 * i as u32 + 2);
                d.tags.clear();
                if pad == 1 { vec![c, d] } else { vec![c] }
            })
            .collect();
        let b = bz(&cs_doc(&css, &Style::default(), &[]).bytes, 1);
        load_good(cx, &css, &b, &|| format!("{n} changesets, {kinds} keys"))
    }));
    v.push(sc("tags-large", 0, move |ch, cx| {
        // many tags, and long texts, in one changeset
        let n = *ch.of(&[200usize, 999, 1000, 5000, 70_000]);
        let mut css = vec![Cs::full(1), Cs::full(2), Cs::full(3)];
        let at = ch.pick(3);
        match ch.pick(3) {
            0 => css[at].tags = (0..n).map(|i| (format!("key{i}"), format!("{}", i * 3))).collect(),
            1 => css[at].tags[0].1 = "é\"\n ".repeat(n),
            _ => css[at].tags[1].0 = "key \\ ".repeat(n),
        }
        let b = bz(&cs_doc(&css, &Style::default(), &[]).bytes, 1);
        load_good(cx, &css, &b, &|| format!("changeset {at} large: {n}"))
    }));
    v.push(sc("tags-cut", 0, move |ch, cx| {
        // the document cut at every byte (and compressed), or the compressed file cut at every byte
        let which = ch.pick(if thorough { 3 } else { 2 });
        let css = css_small(which);
        let doc = cs_doc(&css, &Style::default(), &[]);
        let b = bz(&doc.bytes, 9);
        let input = if ch.flag() {
            let at = ch.pick(b.len());
            b[..at].to_vec()
        } else {
            let step = if thorough { 1 } else { 2 };
            let at = ch.pick(doc.root_end / step) * step;
            bz(&doc.bytes[..at], 9)
        };
        let d = fresh(cx)?;
        let (i, db) = (d.join("dump.osm.bz2"), d.join("tags.sqlite"));
        std::fs::write(&i, &input).unwrap();
        let r = run(&mut sqlite_cmd(&i, &db))?;
        cx.steps(1);
        cx.state(&r.code);
        cx.note(|| r.how());
        if r.ok() {
            return Err(format!("dump {which} is cut, and the tool reports success: {}", r.how()).into());
        }
        none_or_all(&db, &want_rows(&css), false).map(|_| ()).map_err(|e| format!("dump {which} is cut: {e}; {}", r.how()).into())
    }));
    v.push(sc("tags-spoiled", 0, move |ch, cx| {
        // one changeset which cannot be read, at every place of a dump
        let css = csdata(4);
        let tagged: Vec<usize> = (0..css.len()).filter(|i| !css[*i].tags.is_empty()).collect();
        let i = *ch.of(&tagged);
        let sp = match ch.pick(3) {
            0 => Spoil::Drop(i, "id".into()),
            1 => Spoil::Set(i, "id".into(), "12x".into()),
            _ => Spoil::Set(i, "id".into(), "".into()),
        };
        let doc = cs_doc(&css, &Style::default(), std::slice::from_ref(&sp));
        let d = fresh(cx)?;
        let (p, db) = (d.join("dump.osm.bz2"), d.join("tags.sqlite"));
        std::fs::write(&p, bz(&doc.bytes, 9)).unwrap();
        let r = run(&mut sqlite_cmd(&p, &db))?;
        cx.steps(1);
        cx.note(|| r.how());
        if r.ok() {
            return Err(format!("{sp:?}, and the tool reports success: {}", r.how()).into());
        }
        none_or_all(&db, &want_rows(&css), false).map(|_| ()).map_err(|e| format!("{sp:?}: {e}; {}", r.how()).into())
    }));
    v.push(sc("tags-existing", 0, move |ch, cx| {
        // whatever is there already stays as it is
        let d = fresh(cx)?;
        let db = d.join("tags.sqlite");
        let target = d.join("target");
        let kind = ch.pick(8);
        let input = ch.pick(3);
        let at = if kind == 7 { &target } else { &db };
        let sql = |s: &str, p: &Path| rusqlite::Connection::open(p).unwrap().execute_batch(s).unwrap();
        match kind {
            0 => std::fs::write(&db, b"").unwrap(),
            1 => sql("CREATE TABLE changeset_tags (id INTEGER PRIMARY KEY, other_tags TEXT NOT NULL); INSERT INTO changeset_tags VALUES (1, '[]'), (77, '[]')", &db),
            2 => sql("CREATE TABLE changeset_tags (id INTEGER PRIMARY KEY, other_tags TEXT NOT NULL)", &db),
            3 => sql("CREATE TABLE other (x)", &db),
            4 => std::fs::write(&db, b"not a database").unwrap(),
            5 => std::fs::write(&db, vec![0u8; 8192]).unwrap(),
            6 => std::fs::create_dir(&db).unwrap(),
            _ => {
                sql("CREATE TABLE other (x)", &target);
                std::os::unix::fs::symlink(&target, &db).unwrap();
            }
        }
        let before = std::fs::read(at).ok();
        let i = d.join("dump.osm.bz2");
        match input {
            0 => std::fs::write(&i, bz(&cs_doc(&csdata(0), &Style::default(), &[]).bytes, 9)).unwrap(),
            1 => std::fs::write(&i, b"").unwrap(),
            _ => {}
        }
        let list = |d: &Path| {
            let mut v: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().file_name()).collect();
            v.sort();
            v
        };
        let l0 = list(&d);
        let r = run(&mut sqlite_cmd(&i, &db))?;
        cx.steps(1);
        cx.note(|| r.how());
        if r.ok() {
            return Err(format!("the database (case {kind}) exists, and the tool reports success: {}", r.how()).into());
        }
        if std::fs::read(at).ok() != before || list(&d) != l0 {
            return Err(format!("the existing database (case {kind}) has been touched; files {l0:?} -> {:?}; {}", list(&d), r.how()).into());
        }
        // a second try does not differ
        let r2 = run(&mut sqlite_cmd(&i, &db))?;
        if r2.ok() || std::fs::read(at).ok() != before {
            return Err(format!("the existing database (case {kind}) is not refused the second time: {}", r2.how()).into());
        }
        Ok(())
    }));
    v.push(sc("tags-twice", 0, move |ch, cx| {
        // histories of runs of the tool on the same database file
        let d = fresh(cx)?;
        let db = d.join("tags.sqlite");
        let n = if thorough { 4 } else { 3 };
        let mut owner: Option<Vec<u8>> = None;
        for k in 0..n {
            let i = d.join("dump");
            let which = ch.pick(4);
            let (input, css): (Option<Vec<u8>>, Vec<Cs>) = match which {
                0 => (Some(bz(&cs_doc(&csdata(0), &Style::default(), &[]).bytes, 9)), csdata(0)),
                1 => (Some(bz(&cs_doc(&csdata(1), &Style::default(), &[]).bytes, 9)), csdata(1)),
                2 => (Some({ let b = cs_doc(&csdata(0), &Style::default(), &[]).bytes; bz(&b[..b.len() - 12], 9) }), vec![]),
                _ => (None, vec![]),
            };
            let _ = std::fs::remove_file(&i);
            if let Some(b) = &input {
                std::fs::write(&i, b).unwrap();
            }
            let existed = db.exists();
            let r = run(&mut sqlite_cmd(&i, &db))?;
            cx.steps(1);
            let good = which < 2 && !existed;
            if dups(&css) {
                // see tags-load
                return Ok(());
            }
            if r.ok() != good {
                return Err(format!("run {k}, input {which}, database {}: {}", if existed { "existed" } else { "new" }, r.how()).into());
            }
            if existed && std::fs::read(&db).ok() != owner {
                return Err(format!("run {k} has changed the existing database: {}", r.how()).into());
            }
            let got = rows(&db).map_err(|e| format!("run {k}: {e}"))?;
            if good && got.as_ref() != Some(&want_rows(&css)) {
                return Err(format!("run {k}: the database has {got:?}").into());
            }
            if !existed && !good && got.is_some_and(|g| !g.is_empty()) {
                return Err(format!("run {k} failed and left rows: {}", r.how()).into());
            }
            owner = std::fs::read(&db).ok();
        }
        Ok(())
    }));
    for which in 0..4usize {
        v.push(sc(&format!("tags-crash-{which}"), 0, move |ch, cx| {
            // the tool killed, or the disk failing, at every one of its operations on files
            let n = ncalls(which) as usize;
            let mode = *ch.of(FAULTS);
            let small = which < 2 || thorough && which == 2;
            // the larger dumps: the first and last operations, and evenly spaced ones between
            let pts: Vec<usize> = if small || n < 120 { (0..n).collect() } else { (0..40).chain((40..n - 40).step_by((n / if thorough { 600 } else { 30 }).max(1))).chain(n - 40..n).collect() };
            let at = *ch.of(&pts) as u64;
            let css = fault_css(which);
            let d = fresh(cx)?;
            let (i, db) = (d.join("dump.osm.bz2"), d.join("tags.sqlite"));
            std::fs::write(&i, &*dump(which)).unwrap();
            let mut c = sqlite_cmd(&i, &db);
            shimmed(&mut c, &d, at, mode);
            let r = run(&mut c)?;
            cx.steps(1);
            let all = none_or_all(&db, &want_rows(&css), true).map_err(|e| format!("dump {which}, {mode} at file operation {at} of {n}: {e}; {}", r.how()))?;
            cx.state(&(mode, r.code, r.signal, all));
            cx.note(|| format!("{mode} at {at}: all rows: {all}; {}", r.how()));
            if r.ok() && !all {
                return Err(format!("dump {which}, {mode} at file operation {at} of {n}: the tool reports success, and there are no rows: {}", r.how()).into());
            }
            Ok(())
        }));
    }
    v.push(sc("tags-output", 0, move |ch, cx| {
        // its own output cannot be written
        let css = csdata(*ch.of(&[0usize, 2, 4]));
        let d = fresh(cx)?;
        let (i, db) = (d.join("dump.osm.bz2"), d.join("tags.sqlite"));
        std::fs::write(&i, bz(&cs_doc(&css, &Style::default(), &[]).bytes, 9)).unwrap();
        let mut c = sqlite_cmd(&i, &db);
        let f = || std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
        let st = match ch.pick(3) {
            0 => c.stdin(Stdio::null()).stdout(f()).stderr(Stdio::null()).status(),
            1 => c.stdin(Stdio::null()).stdout(f()).stderr(f()).status(),
            _ => c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(f()).status(),
        }
        .map_err(|e| format!("HARNESS: {e}"))?;
        cx.steps(1);
        let all = none_or_all(&db, &want_rows(&css), true)?;
        if st.success() && !all {
            return Err("the tool reports success, and there are no rows".into());
        }
        Ok(())
    }));
    v.push(sc("osc-debug", 1, move |ch, cx| {
        // every object of the change file, in order
        let set = ch.pick(5);
        let s = style_dev(ch);
        let t = tdoc(Ak::O(Rk::Osc, None), set, &s);
        osc_debug(cx, &t, t.doc.bytes.len())
    }));
    v.push(sc("osc-debug-cut", 0, move |ch, cx| {
        let set = ch.pick(4);
        let t = tdoc(Ak::O(Rk::Osc, None), set, &Style::default());
        let step = if thorough { 1 } else { 2 };
        let at = ch.pick(t.doc.root_end / step) * step;
        osc_debug(cx, &t, at)
    }));
    v.push(sc("osc-debug-large", 0, move |ch, cx| {
        let n = *ch.of(&[1001i64, 4097, 20_001]);
        let k = *ch.of(&KINDS);
        let o: Vec<MObj> = (0..n).map(|i| MObj { tags: vec![("k".into(), format!("{i}"))], ..MObj::new(if i % 100 == 99 { KINDS[(i % 3) as usize] } else { k }, i + 1) }).collect();
        let secs = vec![(Sec::Modify, o)];
        let doc = osc_doc(&secs, &Style::default());
        let want = osc_expect(&secs).into_iter().zip(&doc.spans).map(|(o, s)| (Any::O(o), *s)).collect();
        let t = TDoc { doc, ak: Ak::O(Rk::Osc, None), want, desc: format!("change file of {n} objects") };
        let at = match ch.pick(3) {
            0 => t.doc.bytes.len(),
            1 => t.doc.root_end - 1,
            _ => t.doc.spans[n as usize - 5].1,
        };
        osc_debug(cx, &t, at)
    }));
    v.push(sc("read-speed-kinds", 0, move |ch, cx| {
        // objects of every kind, visible or deleted, tagged or not, in every order
        use crate::pbfenc::*;
        let n = if thorough { 4 } else { 3 };
        let mut id = 0;
        let mut blocks = vec![];
        let mut total = 0;
        for _ in 0..ch.pick(n + 1) {
            let kind = ch.pick(4);
            let deleted = ch.flag();
            let many = if ch.flag() { 3 } else { 1 };
            let objs: Vec<PObj> = (0..many)
                .map(|_| {
                    id += 1;
                    let m = MObj { deleted, ..if many == 1 { MObj::new([K::N, K::N, K::W, K::R][kind], id) } else { xfull([K::N, K::N, K::W, K::R][kind], id).instants() } };
                    PObj::of(&MObj { pos: m.pos.or((kind < 2).then_some((1, 2))), ..m })
                })
                .collect();
            total += many;
            let g = match kind {
                0 => Group::Dense(objs),
                1 => Group::Nodes(objs),
                2 => Group::Ways(objs),
                _ => Group::Rels(objs),
            };
            blocks.push(Block::of(vec![g]));
        }
        let b = file(&blocks);
        read_speed(cx, &b, Some(total), &|| format!("{blocks:?}"))
    }));
    v.push(sc("read-speed", 0, move |ch, cx| {
        let which = ch.pick(16);
        let f = framed_file(which);
        read_speed(cx, &f.bytes, Some(f.objs.len()), &|| format!("file {which}"))
    }));
    v.push(sc("read-speed-counts", 0, move |ch, cx| {
        // numbers of objects around the places where the output changes
        let l = [0usize, 1, 9, 10, 99, 100, 101, 999, 1000, 1001, 9999, 10_000, 100_000, 999_999, 1_000_000, 1_000_001, 1_000_002, 2_000_001];
        let n = *ch.of(if thorough { &l[..] } else { &l[..17] });
        read_speed(cx, &counted(n), Some(n), &|| format!("{n} nodes"))
    }));
    v.push(sc("read-speed-cut", 0, move |ch, cx| {
        let which = ch.pick(if thorough { 10 } else { 3 });
        let f = framed_file(which);
        let step = if thorough { 1 } else { 3 };
        let at = ch.pick(f.bytes.len() / step) * step;
        match f.bounds.iter().find(|b| b.0 == at) {
            Some(b) => read_speed(cx, &f.bytes[..at], Some(b.1), &|| format!("file {which} cut at byte {at}, between frames")),
            None => read_speed(cx, &f.bytes[..at], None, &|| format!("file {which} cut at byte {at}")),
        }
    }));
    v.push(sc("no-input", 0, move |ch, cx| {
        // no such file, no argument, an input that is something else: reported
        let d = fresh(cx)?;
        let t = *ch.of(&["tool-changeset-tags", "tool-osc-debug", "tool-read-speed"]);
        let db = d.join("db");
        let mut c = Command::new(tool(t));
        let what = ch.pick(5);
        match what {
            0 => {}
            1 => {
                c.arg(d.join("nothing"));
            }
            2 => {
                c.arg(&d);
            }
            3 => {
                std::fs::write(d.join("f"), b"this is something else entirely").unwrap();
                c.arg(d.join("f"));
            }
            _ => {
                c.arg("");
            }
        }
        if t == "tool-changeset-tags" && what > 0 {
            c.arg(&db);
        }
        let r = run(&mut c)?;
        cx.steps(1);
        cx.note(|| r.how());
        if r.ok() {
            return Err(format!("{t}, input case {what}: reports success: {}", r.how()).into());
        }
        if what > 0 {
            none_or_all(&db, &Rows::new(), false)?;
        }
        Ok(())
    }));
    v
}
fn osc_debug(cx: &mut Cx, t: &TDoc, at: usize) -> Res {
    let d = fresh(cx)?;
    let i = d.join("f.osc");
    std::fs::write(&i, &t.doc.bytes[..at]).unwrap();
    let r = run(Command::new(tool("tool-osc-debug")).arg(&i))?;
    let complete = at >= t.doc.root_end;
    // objects are recognized by their debug form, in the order of the file
    let mut seen = 0;
    let mut pos = 0;
    let mut pretty = None;
    for (w, _) in &t.want {
        let Any::O(m) = w else { panic!("HARNESS: not an object") };
        let o = to_string_obj(m);
        let find = |s: String| r.out[pos..].find(&s).map(|p| pos + p + s.len());
        if pretty.is_none() {
            pretty = Some(find(format!("{o:#?}")).is_some());
        }
        let found = find(if pretty == Some(true) { format!("{o:#?}") } else { format!("{o:?}") });
        let Some(p) = found else { break };
        pos = p;
        seen += 1;
    }
    cx.steps(seen + 1);
    cx.state(&(at, seen, r.code));
    cx.note(|| format!("cut at {at}: {} {}", r.how(), r.out));
    let min = t.want.iter().filter(|w| w.1.1 <= at).count();
    if seen < min {
        return Err(format!("{}, cut at {at}: object {seen} of the {min} that are there is not reported: {:?}; {}", t.desc, t.want[seen].0, r.how()).into());
    }
    // reported once each: nothing of the kind twice
    let n = r.out.lines().filter(|l| l.contains("] o = ")).count();
    if n > t.want.len() {
        return Err(format!("{}, cut at {at}: {n} objects reported, the file has {}", t.desc, t.want.len()).into());
    }
    if r.ok() != complete {
        return Err(format!("{}, {}: {}", t.desc, if complete { "complete".into() } else { format!("cut at {at}") }, r.how()).into());
    }
    Ok(())
}
fn read_speed(cx: &mut Cx, b: &[u8], n: Option<usize>, what: &dyn Fn() -> String) -> Res {
    let d = fresh(cx)?;
    let i = d.join("f.pbf");
    std::fs::write(&i, b).unwrap();
    let r = run(Command::new(tool("tool-read-speed")).arg(&i))?;
    cx.steps(1);
    cx.state(&(&r.code, n));
    cx.note(|| format!("{}: {}", what(), r.how()));
    let Some(n) = n else {
        return if r.ok() { Err(format!("{}: reports success: {}", what(), r.how()).into()) } else { Ok(()) };
    };
    // the last number of objects reported
    let got = r.out.lines().filter(|l| l.contains("objects in")).filter_map(|l| l.split("objects").next()).last().map(|s| s.chars().filter(|c| c.is_ascii_digit()).collect::<String>());
    if !r.ok() || got.as_deref() != Some(&n.to_string()) {
        return Err(format!("{}: {n} objects, reported {got:?}: {}", what(), r.how()).into());
    }
    Ok(())
}
/// A PBF file of n bare nodes.
fn counted(n: usize) -> Vec<u8> {
    use crate::pbfenc::*;
    let w = Wire::default();
    let mut out = header_frame(Hdr::Minimal, &w);
    let mut id = 0i64;
    while (id as usize) < n {
        let k = (n - id as usize).min(8000);
        let objs: Vec<PObj> = (0..k).map(|i| PObj { kind: K::N, id: id + 1 + i as i64, meta: None, tags: vec![], lat: 10 * i as i64, lon: -20 * i as i64, refs: vec![], members: vec![] }).collect();
        id += k as i64;
        let b = Block::of(vec![Group::Dense(objs)]);
        out.extend(data_frame(&b, &w));
    }
    out
}
