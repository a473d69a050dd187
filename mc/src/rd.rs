//! Running osmio's readers to their end, whatever that is.
use crate::engine::guard;
use crate::model::*;
use osmio::OSMReader;
use std::io::Read;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum End {
    Clean,
    Fail(String),
}
impl End {
    pub fn failed(&self) -> bool {
        matches!(self, End::Fail(_))
    }
}
pub struct Run {
    pub objs: Vec<MObj>,
    pub end: End,
}
pub const MAX_OBJS: usize = 3_000_000;

pub fn drain<R: OSMReader>(r: &mut R) -> Run {
    let mut objs = vec![];
    let end = loop {
        match guard(|| r.next().map(|o| observe(&o))) {
            Err(e) => break End::Fail(e),
            Ok(None) => break End::Clean,
            Ok(Some(o)) => objs.push(o),
        }
        if objs.len() > MAX_OBJS {
            crate::engine::livelock("reader delivers objects without end");
        }
    };
    Run { objs, end }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Rk {
    Str,
    Arc,
    Xml,
    Osc,
}
pub const PBFS: [Rk; 2] = [Rk::Str, Rk::Arc];

/// All objects through `objects()`/`next()`, then confirm the reader stays exhausted.
pub fn read_all<S: Read>(k: Rk, src: S) -> Run {
    fn go<R: OSMReader>(r: Result<R, String>) -> Run {
        match r {
            Err(e) => Run { objs: vec![], end: End::Fail(e) },
            Ok(mut r) => drain(&mut r),
        }
    }
    match k {
        Rk::Str => go(guard(|| osmio::stringpbf::PBFReader::new(src))),
        Rk::Arc => go(guard(|| osmio::arcpbf::PBFReader::new(src))),
        Rk::Xml => go(guard(|| osmio::xml::XMLReader::new(src))),
        Rk::Osc => go(guard(|| osmio::osc::OSCReader::new(src))),
    }
}
pub struct PosRun {
    pub objs: Vec<(i64, (i32, i32))>,
    pub end: End,
}
pub fn read_pos<S: Read>(src: S) -> PosRun {
    let mut objs = vec![];
    let mut r = match guard(|| osmio::stringpbf::PBFNodePositionReader::from_reader(src)) {
        Ok(r) => r,
        Err(e) => return PosRun { objs, end: End::Fail(e) },
    };
    let end = loop {
        match guard(|| r.next()) {
            Err(e) => break End::Fail(e),
            Ok(None) => break End::Clean,
            Ok(Some((i, (a, b)))) => objs.push((i, (a.inner(), b.inner()))),
        }
        if objs.len() > MAX_OBJS {
            crate::engine::livelock("reader delivers objects without end");
        }
    };
    PosRun { objs, end }
}

// ------------------------------------------------------------------ any reader at all
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct GotCs {
    pub id: u32,
    pub created: Ts,
    pub closed: Option<Ts>,
    pub open: bool,
    pub uid: Option<i64>,
    pub user: Option<String>,
    pub num_changes: u64,
    pub comments: u64,
    pub tags: std::collections::BTreeMap<String, String>,
    /// accessors which disagree with the fields
    pub odd: Vec<String>,
}
impl GotCs {
    pub fn of(mut c: osmio::changesets::Changeset) -> GotCs {
        let mut odd = vec![];
        for (k, v) in &c.tags {
            if c.tag(k) != Some(v.as_str()) || !c.has_tag(k) {
                odd.push(format!("tag({k:?}) is {:?}, has_tag {}", c.tag(k), c.has_tag(k)));
            }
        }
        for k in ["", "k", "name", "\u{1}", "created_by "] {
            if c.tag(k) != c.tags.get(k).map(|s| s.as_str()) || c.has_tag(k) != c.tags.contains_key(k) {
                odd.push(format!("tag({k:?}) is {:?}, has_tag {}", c.tag(k), c.has_tag(k)));
            }
        }
        let n = c.tags.len();
        if c.num_tags() != n || c.tagged() != (n > 0) || c.untagged() != (n == 0) {
            odd.push(format!("num_tags() {}, tagged() {}, untagged() {} with {n} tags", c.num_tags(), c.tagged(), c.untagged()));
        }
        let mut g = GotCs {
            id: c.id,
            created: Ts::of(&c.created),
            closed: c.closed.as_ref().map(Ts::of),
            open: c.open,
            uid: c.uid,
            user: c.user.clone(),
            num_changes: c.num_changes,
            comments: c.comments_count,
            tags: c.tags.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
            odd: vec![],
        };
        // an edit through tags_mut() shows everywhere, and into_tags() hands the tags over
        let had = c.tags_mut().insert("\u{1}new".into(), "x".into()).is_some();
        if c.tag("\u{1}new") != Some("x") || c.num_tags() != n + !had as usize || !c.tagged() {
            odd.push(format!("after adding a tag: tag() {:?}, num_tags() {}, tagged() {}", c.tag("\u{1}new"), c.num_tags(), c.tagged()));
        }
        c.tags_mut().remove("\u{1}new");
        let t: std::collections::BTreeMap<String, String> = c.into_tags().into_iter().collect();
        if t != g.tags {
            odd.push(format!("into_tags() gives {t:?}"));
        }
        g.odd = odd;
        g
    }
    pub fn want(c: &crate::xmlgen::Cs) -> GotCs {
        GotCs {
            id: c.id as _,
            created: Ts::Iso(c.created.clone()),
            closed: c.closed.clone().map(Ts::Iso),
            open: c.open,
            uid: c.uid,
            user: c.user.clone(),
            num_changes: c.num_changes,
            comments: c.comments,
            tags: c.tags.iter().cloned().collect(),
            odd: vec![],
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Any {
    O(MObj),
    P(i64, (i32, i32)),
    C(GotCs),
    T(u64, Vec<(String, String)>),
    E(String),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ak {
    O(Rk, Option<K>),
    Pos,
    Cs,
    Tag,
    CsBz,
}
pub struct AnyRun {
    pub items: Vec<Any>,
    pub end: End,
}
impl AnyRun {
    /// The readers of changesets report failures as items.
    pub fn failed(&self) -> bool {
        self.end.failed() || self.items.iter().any(|i| matches!(i, Any::E(_)))
    }
    pub fn first_failure(&self) -> usize {
        self.items.iter().position(|i| matches!(i, Any::E(_))).unwrap_or(self.items.len())
    }
}
pub fn collect<T>(mut next: impl FnMut() -> Option<T>, f: impl Fn(T) -> Any) -> AnyRun {
    let mut items = vec![];
    let end = loop {
        match guard(|| next().map(&f)) {
            Err(e) => break End::Fail(e),
            Ok(None) => break End::Clean,
            Ok(Some(o)) => items.push(o),
        }
        if items.len() > MAX_OBJS {
            crate::engine::livelock("reader delivers items without end");
        }
    };
    AnyRun { items, end }
}
pub fn run_osm<R: OSMReader>(r: Result<R, String>, k: Option<K>) -> AnyRun {
    let mut r = match r {
        Err(e) => return AnyRun { items: vec![], end: End::Fail(e) },
        Ok(r) => r,
    };
    match k {
        None => collect(|| r.next(), |o| Any::O(observe(&o))),
        Some(K::N) => {
            let mut i = r.nodes();
            collect(|| i.next(), |o| Any::O(observe_node(&o)))
        }
        Some(K::W) => {
            let mut i = r.ways();
            collect(|| i.next(), |o| Any::O(observe_way(&o)))
        }
        Some(K::R) => {
            let mut i = r.relations();
            collect(|| i.next(), |o| Any::O(observe_rel(&o)))
        }
    }
}
/// stringpbf has filtered iterators of its own.
fn run_str<S: Read>(r: Result<osmio::stringpbf::PBFReader<S>, String>, k: K) -> AnyRun {
    let mut r = match r {
        Err(e) => return AnyRun { items: vec![], end: End::Fail(e) },
        Ok(r) => r,
    };
    match k {
        K::N => {
            let mut i = osmio::stringpbf::PBFReader::nodes(&mut r);
            collect(|| i.next(), |o| Any::O(observe_node(&o)))
        }
        K::W => {
            let mut i = osmio::stringpbf::PBFReader::ways(&mut r);
            collect(|| i.next(), |o| Any::O(observe_way(&o)))
        }
        K::R => {
            let mut i = osmio::stringpbf::PBFReader::relations(&mut r);
            collect(|| i.next(), |o| Any::O(observe_rel(&o)))
        }
    }
}
pub fn run_cs<S: Read>(r: Result<osmio::changesets::ChangesetReader<S>, String>) -> AnyRun {
    match r {
        Err(e) => AnyRun { items: vec![], end: End::Fail(e) },
        Ok(mut r) => collect(
            || r.next(),
            |c| match c {
                Ok(c) => Any::C(GotCs::of(c)),
                Err(e) => Any::E(e.to_string()),
            },
        ),
    }
}
pub fn run_tag<S: Read>(r: Result<osmio::changesets::ChangesetTagReader<S>, String>) -> AnyRun {
    match r {
        Err(e) => AnyRun { items: vec![], end: End::Fail(e) },
        Ok(mut r) => collect(
            || r.next(),
            |c| match c {
                Ok((i, t)) => Any::T(i, t),
                Err(e) => Any::E(e.to_string()),
            },
        ),
    }
}
#[cfg(osmio_verif)]
pub fn tag_reader<S: Read>(src: S) -> osmio::changesets::ChangesetTagReader<S> {
    osmio::changesets::ChangesetTagReader::verif_from_reader(src)
}
/// If the hooks do not build: by way of a file, which is cut where the source fails.
#[cfg(not(osmio_verif))]
pub fn tag_reader<S: Read>(mut src: S) -> osmio::changesets::ChangesetTagReader<bzip2::read::MultiBzDecoder<std::fs::File>> {
    use std::io::Write;
    let mut all = vec![];
    let mut fails = false;
    let mut buf = [0; 4096];
    loop {
        match src.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => all.extend_from_slice(&buf[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(_) => {
                fails = true;
                break;
            }
        }
    }
    let mut enc = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::fast());
    enc.write_all(&all).unwrap();
    let mut bz = enc.finish().unwrap();
    if fails {
        bz.extend_from_slice(b"BZh9");
    }
    let name = format!("/dev/shm/mc-tag-{}-{:?}.bz2", std::process::id(), std::thread::current().id());
    std::fs::write(&name, bz).unwrap();
    let r = osmio::changesets::ChangesetTagReader::from_filename(&name);
    let _ = std::fs::remove_file(&name);
    r.unwrap()
}
pub fn read_any<S: Read>(k: Ak, src: S) -> AnyRun {
    use osmio::changesets::*;
    match k {
        Ak::O(Rk::Str, None) => run_osm(guard(|| osmio::stringpbf::PBFReader::new(src)), None),
        Ak::O(Rk::Str, Some(k)) => run_str(guard(|| osmio::stringpbf::PBFReader::new(src)), k),
        Ak::O(Rk::Arc, k) => run_osm(guard(|| osmio::arcpbf::PBFReader::new(src)), k),
        Ak::O(Rk::Xml, k) => run_osm(guard(|| osmio::xml::XMLReader::new(src)), k),
        Ak::O(Rk::Osc, k) => run_osm(guard(|| osmio::osc::OSCReader::new(src)), k),
        Ak::Pos => match guard(|| osmio::stringpbf::PBFNodePositionReader::from_reader(src)) {
            Err(e) => AnyRun { items: vec![], end: End::Fail(e) },
            Ok(mut r) => collect(|| r.next(), |(i, (a, b))| Any::P(i, (a.inner(), b.inner()))),
        },
        Ak::Cs => run_cs(guard(|| ChangesetReader::new(src))),
        Ak::CsBz => run_cs(guard(|| ChangesetReader::from_bz2_reader(src))),
        Ak::Tag => run_tag(guard(|| tag_reader(src))),
    }
}
/// What a reader is to deliver for these objects.
pub fn want_objs(k: Ak, objs: &[MObj]) -> Vec<Any> {
    match k {
        Ak::O(_, None) => objs.iter().cloned().map(Any::O).collect(),
        Ak::O(_, Some(k)) => objs.iter().filter(|o| o.kind == k).cloned().map(Any::O).collect(),
        Ak::Pos => objs.iter().filter(|o| o.kind == K::N).map(|o| Any::P(o.id, o.pos.unwrap())).collect(),
        _ => panic!("HARNESS: not an object reader"),
    }
}
pub fn want_cs(k: Ak, css: &[crate::xmlgen::Cs]) -> Vec<Any> {
    match k {
        Ak::Cs | Ak::CsBz => css.iter().map(|c| Any::C(GotCs::want(c))).collect(),
        Ak::Tag => css.iter().filter(|c| !c.tags.is_empty()).map(|c| Any::T(c.id, c.tags.clone())).collect(),
        _ => panic!("HARNESS: not a changeset reader"),
    }
}
/// Exactly the wanted items, and a normal end.
pub fn check_exact(r: &AnyRun, want: &[Any]) -> Result<(), String> {
    for i in 0..r.items.len().max(want.len()) {
        match (r.items.get(i), want.get(i)) {
            (Some(a), Some(b)) if a == b => {}
            (g, w) => return Err(format!("item {i}: got {g:?}, expected {w:?} ({} delivered, {} expected, end {:?})", r.items.len(), want.len(), r.end)),
        }
    }
    if let End::Fail(e) = &r.end {
        return Err(format!("reading failed after all {} items: {e}", want.len()));
    }
    Ok(())
}
