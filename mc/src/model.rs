//! The reference record of an OSM object, and how to read one off an osmio object.
use osmio::{Lat, Lon, Node, OSMObj, OSMObjBase, OSMObjectType, Relation, TimestampFormat, Way};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum K {
    N,
    W,
    R,
}
impl K {
    pub fn long(self) -> &'static str {
        match self {
            K::N => "node",
            K::W => "way",
            K::R => "relation",
        }
    }
    pub fn ty(self) -> OSMObjectType {
        match self {
            K::N => OSMObjectType::Node,
            K::W => OSMObjectType::Way,
            K::R => OSMObjectType::Relation,
        }
    }
    pub fn from_ty(t: OSMObjectType) -> K {
        match t {
            OSMObjectType::Node => K::N,
            OSMObjectType::Way => K::W,
            OSMObjectType::Relation => K::R,
        }
    }
}
/// Texts that mean something somewhere: tag keys and values of real data, names of elements and
/// attributes, words of other types.
pub const WORDS: &[&str] = &[
    "created_by", "source", "name", "name:en", "type", "area", "building", "highway", "natural", "landuse", "waterway", "boundary", "multipolygon", "note", "fixme", "FIXME", "comment", "description", "odbl", "attribution", "uploaded_by", "converted_by", "tiger:tlid", "locale", "host", "imagery_used", "changesets_count", "hashtags", "review_requested", "bot", "yes", "no", "true", "false", "-1", "0", "1", "00", "1.50", "1e5", "0x10", "null", "NULL", "None", "nil", "NaN", "inf", "undefined", "unknown", "id", "version", "visible", "user", "uid", "changeset", "timestamp", "lat", "lon",
    "k", "v", "ref", "role", "nd", "tag", "member", "node", "way", "relation", "osm", "osmChange", "create", "modify", "delete", "deleted", "generator", "bounds", "open", "created_at", "closed_at", "num_changes", "comments_count", "discussion", "text", "date", "min_lat", "outer", "inner", "forward", "stop", "platform", "anonymous", "Anonymous", "2020-01-01T00:00:00Z", "https://example.org/?a=1&b=2#c", "a;b", "a, b", "[]", "{}", "{\"a\":1}", "\\n", "%20", "+", "_", "-", ".", "/", ":", "x=y", "utf-8", "é", "É", "ß", "ﬁ", "e\u{301}", "\u{200b}", "\u{feff}x", "\u{a0}", " x", "x ",
    "9007199254740993", "18446744073709551615", "9223372036854775808", "-9223372036854775809", "340282366920938463463374607431768211456", "+1", "-0", "0.0", "1.", ".5", "1,5", "1e400", "Infinity", "1_000", "0b1", "١", "no;", "no,", "yes;no", "-no", "no-", "NO", "Yes", "True", "$type", "$ref", "@id", "_id", "#", "__proto__", "constructor", "\u{feff}", "x\u{feff}", "\u{fffd}", "\u{10ffff}", "\u{e000}", "\u{ad}", "\u{200e}", "\u{202e}x", "日本", "日本語の長い名前です日本語", "🇩🇪", "👩\u{200d}🚒", "İ", "ı", "ǆ", "Å", "\u{212b}", "'", "\"", "''", "\"\"", "<", ">", "&", "&amp;", "&#65;", "&lt;b&gt;", "<a/>", "]]>", "<!--", "-->", "<?x?>", "%s", "{0}", "${x}", "?", "??", ",", ";", "|", "\\", "\\\"", "\\u0041", "//", "a/b", "a\\b", "*", "~", "`", "name:", ":en", "addr:housenumber", "seamark:light:1:sequence", "maxspeed:lanes:forward:conditional", "50 @ (Mo-Fr 07:00-17:00)", "Mo-Fr 08:00-12:00,13:00-17:30; Sa 08:00-12:00; PH off", "1970-01-01T00:00:00Z", "1970-01-01", "2020-01-01T00:00:00+00:00", "abcdefghijklmnopqrstuv", "abcdefghijklmnopqrstuvw", "abcdefghijklmnopqrstuvwx",
    "", "none", "any", "all", "other", "n/a", "N/A", "na", "empty", "default", "test", "self", "Null", "nan", "void", "blank", "tbd", "TODO", "x", "X", "y", "n", "w", "r", "on", "off", "ok", "anon", "root", "admin", "system", "bot:", "import", "JOSM/1.5 (18700 en)", "iD 2.20.2", "Potlatch 2", "StreetComplete 51.0", "label", "admin_centre", "outline", "part", "entrance", "exit", "via", "from", "to", "backward", "main_stream", "side_stream", "across", "under", "house", "street", "route", "restriction", "site", "amenity", "shop", "surface", "layer", "bridge", "tunnel", "oneway", "barrier", "access", "wikidata", "wikipedia", "Q42", "en:Foo", "ref", "is_in", "place", "postal_code", "capacity", "height", "width", "start_date", "opening_hours", "operator", "brand", "network", "alt_name", "old_name", "loc_name", "short_name", "name:1", "source:date", "created", "modified", "last_modified", "nodes", "members", "tags", "refs", "role:", "action", "redacted", "license", "copyright", "xml", "xml:lang", "xmlns", "xmlns:x", "standalone", "encoding",
];
/// Values that are put behind every word used as a key, and the other way round.
pub const WVALS: &[&str] = &["yes", "no", "", "0", "-1", "x y", "true", "name"];
/// Objects with the word in every place: as user, tag key, tag value and role, alone and among others.
pub fn word_objs(w: &str, val: &str) -> Vec<MObj> {
    let mut v = vec![];
    for (i, k) in KINDS.into_iter().enumerate() {
        for j in 0..3i64 {
            let mut o = MObj::full(k, 100 + 10 * i as i64 + j);
            let t = |a: &str, b: &str| (a.to_string(), b.to_string());
            match j {
                0 => o.tags = vec![t(w, val)],
                1 => o.tags = vec![t("first", "1"), t(w, val), t("kk", w), t("last", val)],
                _ => {
                    o.user = Some(w.into());
                    o.tags = vec![t("kk", w), t(w, w)];
                }
            }
            if k == K::R {
                o.members = vec![(K::W, 4, val.into()), (KINDS[j as usize], 5, w.into()), (K::N, 6, w.into())];
            }
            v.push(o);
        }
    }
    v
}
pub const KINDS: [K; 3] = [K::N, K::W, K::R];

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ts {
    Epoch(i64),
    Iso(String),
}
impl Ts {
    pub fn of(t: &TimestampFormat) -> Ts {
        match t {
            TimestampFormat::ISOString(s) => Ts::Iso(s.clone()),
            TimestampFormat::EpochNumber(n) => Ts::Epoch(*n),
        }
    }
    pub fn to(&self) -> TimestampFormat {
        match self {
            Ts::Iso(s) => TimestampFormat::ISOString(s.clone()),
            Ts::Epoch(n) => TimestampFormat::EpochNumber(*n),
        }
    }
    /// The instant, by the harness's own calendar arithmetic.
    pub fn epoch(&self) -> Option<i64> {
        match self {
            Ts::Epoch(n) => Some(*n),
            Ts::Iso(s) => crate::cal::parse_iso(s),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct MObj {
    pub kind: K,
    pub id: i64,
    pub version: Option<u32>,
    pub deleted: bool,
    pub changeset: Option<u32>,
    pub ts: Option<Ts>,
    pub uid: Option<u32>,
    pub user: Option<String>,
    pub tags: Vec<(String, String)>,
    pub pos: Option<(i32, i32)>,
    pub nodes: Vec<i64>,
    pub members: Vec<(K, i64, String)>,
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 60 {
        format!("{:?}..({} bytes)", s.chars().take(50).collect::<String>(), s.len())
    } else {
        format!("{s:?}")
    }
}
impl std::fmt::Debug for MObj {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}#{} v={:?}", self.kind.long(), self.id, self.version)?;
        if self.deleted {
            write!(f, " DELETED")?;
        }
        write!(f, " cs={:?} ts={:?} uid={:?} user={}", self.changeset, self.ts, self.uid, match &self.user { None => "None".into(), Some(u) => short(u) })?;
        if let Some(p) = self.pos {
            write!(f, " pos={p:?}")?;
        }
        write!(f, " tags({})=[", self.tags.len())?;
        for (k, v) in self.tags.iter().take(6) {
            write!(f, "{}={},", short(k), short(v))?;
        }
        write!(f, "]")?;
        if !self.nodes.is_empty() {
            write!(f, " nodes({})={:?}", self.nodes.len(), &self.nodes[..self.nodes.len().min(12)])?;
        }
        if !self.members.is_empty() {
            write!(f, " members({})={:?}", self.members.len(), &self.members[..self.members.len().min(6)])?;
        }
        Ok(())
    }
}

impl MObj {
    pub fn new(kind: K, id: i64) -> MObj {
        MObj { kind, id, version: None, deleted: false, changeset: None, ts: None, uid: None, user: None, tags: vec![], pos: None, nodes: vec![], members: vec![] }
    }
    /// Fully populated, distinguishable object.
    pub fn full(kind: K, id: i64) -> MObj {
        let mut o = MObj::new(kind, id);
        let s = (id.unsigned_abs() % 1000) as u32;
        o.version = Some(1 + s);
        o.changeset = Some(1000 + 3 * s);
        o.ts = Some(Ts::Epoch(1_300_000_000 + 61 * s as i64));
        o.uid = Some(50 + 7 * s);
        o.user = Some(format!("user{s}"));
        o.tags = vec![(format!("k{s}"), format!("v{s}"))];
        match kind {
            K::N => o.pos = Some((515_000_000 + s as i32, -1_200_000 - s as i32)),
            K::W => o.nodes = vec![100 + id, 90 + id, 95 + id],
            K::R => o.members = vec![(K::N, 7 + id, "in".into()), (K::W, 3 + id, "".into()), (K::R, 11 + id, "sub".into())],
        }
        o
    }
    pub fn tag(&self, k: &str) -> Option<&str> {
        self.tags.iter().find(|t| t.0 == k).map(|t| t.1.as_str())
    }
    /// Only identity and contents.
    pub fn content(&self) -> MObj {
        MObj { version: None, deleted: false, changeset: None, ts: None, uid: None, user: None, pos: None, ..self.clone() }
    }
    /// Timestamps as instants (unparsable ones are left alone).
    pub fn instants(&self) -> MObj {
        let mut o = self.clone();
        if let Some(t) = &o.ts {
            if let Some(e) = t.epoch() {
                o.ts = Some(Ts::Epoch(e));
            }
        }
        o
    }
}

pub fn observe<O: OSMObj>(o: &O) -> MObj {
    let kind = K::from_ty(o.object_type());
    let mut m = MObj::new(kind, o.id());
    m.version = o.version();
    m.deleted = o.deleted();
    m.changeset = o.changeset_id();
    m.ts = o.timestamp().as_ref().map(Ts::of);
    m.uid = o.uid();
    m.user = o.user().map(|s| s.to_string());
    m.tags = o.tags().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    if let Some(n) = o.as_node() {
        m.pos = n.lat_lon().map(|(a, b)| (a.inner(), b.inner()));
    }
    if let Some(w) = o.as_way() {
        m.nodes = w.nodes().to_vec();
    }
    if let Some(r) = o.as_relation() {
        m.members = r.members().map(|(t, i, s)| (K::from_ty(t), i, s.to_string())).collect();
    }
    m
}

macro_rules! base_of {
    ($n:expr, $m:expr) => {{
        $m.version = $n.version();
        $m.deleted = $n.deleted();
        $m.changeset = $n.changeset_id();
        $m.ts = $n.timestamp().as_ref().map(Ts::of);
        $m.uid = $n.uid();
        $m.user = $n.user().map(|s| s.to_string());
        $m.tags = $n.tags().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    }};
}
pub fn observe_node<N: Node>(n: &N) -> MObj {
    let mut m = MObj::new(K::N, n.id());
    base_of!(n, m);
    m.pos = n.lat_lon().map(|(a, b)| (a.inner(), b.inner()));
    m
}
pub fn observe_way<N: Way>(n: &N) -> MObj {
    let mut m = MObj::new(K::W, n.id());
    base_of!(n, m);
    m.nodes = n.nodes().to_vec();
    m
}
pub fn observe_rel<N: Relation>(n: &N) -> MObj {
    let mut m = MObj::new(K::R, n.id());
    base_of!(n, m);
    m.members = n.members().map(|(t, i, s)| (K::from_ty(t), i, s.to_string())).collect();
    m
}

/// Every accessor of the common trait agrees with the record.
pub fn check_base<O: OSMObjBase>(o: &O, m: &MObj) -> Result<(), String> {
    macro_rules! eq {
        ($what:expr, $a:expr, $b:expr) => {{
            let (a, b) = (&$a, &$b);
            if a != b {
                return Err(format!("{} is {:?}, expected {:?} (object {:?})", $what, a, b, m));
            }
        }};
    }
    eq!("object_type()", K::from_ty(o.object_type()), m.kind);
    eq!("id()", o.id(), m.id);
    eq!("version()", o.version(), m.version);
    eq!("deleted()", o.deleted(), m.deleted);
    eq!("changeset_id()", o.changeset_id(), m.changeset);
    eq!("timestamp()", o.timestamp().as_ref().map(Ts::of), m.ts);
    eq!("uid()", o.uid(), m.uid);
    eq!("user()", o.user(), m.user.as_deref());
    let t: Vec<(String, String)> = o.tags().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    eq!("tags()", t, m.tags);
    eq!("tags().len()", o.tags().len(), m.tags.len());
    eq!("num_tags()", o.num_tags(), m.tags.len());
    eq!("tagged()", o.tagged(), !m.tags.is_empty());
    eq!("untagged()", o.untagged(), m.tags.is_empty());
    // partial consumption keeps the exact size exact
    let mut it = o.tags();
    for i in 0..m.tags.len().min(3) {
        it.next();
        eq!("tags().len() while iterating", it.len(), m.tags.len() - 1 - i);
    }
    for (k, _) in m.tags.iter().take(8).chain(m.tags.iter().rev().take(2)) {
        eq!("tag(k)", o.tag(k), m.tag(k));
        eq!("has_tag(k)", o.has_tag(k), true);
        let k2 = format!("{k}\u{1}x");
        eq!("tag(absent)", o.tag(&k2), m.tag(&k2));
    }
    for k in ["", "a", "area", "b", "name", "A"] {
        eq!("tag(probe)", o.tag(k), m.tag(k));
        eq!("has_tag(probe)", o.has_tag(k), m.tag(k).is_some());
    }
    Ok(())
}
pub fn check_node<N: Node>(o: &N, m: &MObj) -> Result<(), String> {
    check_base(o, m)?;
    let p = o.lat_lon().map(|(a, b)| (a.inner(), b.inner()));
    if p != m.pos || o.has_lat_lon() != m.pos.is_some() {
        return Err(format!("lat_lon() is {p:?}, has_lat_lon() {}, expected {:?}", o.has_lat_lon(), m.pos));
    }
    let f = o.lat_lon_f64();
    let e = m.pos.map(|(a, b)| (a as f64 / 1e7, b as f64 / 1e7));
    if f != e {
        return Err(format!("lat_lon_f64() is {f:?}, expected {e:?}"));
    }
    Ok(())
}
pub fn check_way<N: Way>(o: &N, m: &MObj) -> Result<(), String> {
    check_base(o, m)?;
    if o.nodes() != m.nodes.as_slice() || o.nids() != m.nodes.as_slice() || o.num_nodes() != m.nodes.len() {
        return Err(format!("nodes() {:?} nids() {:?} num_nodes() {}, expected {:?}", o.nodes(), o.nids(), o.num_nodes(), m.nodes));
    }
    for i in 0..m.nodes.len() + 2 {
        if o.node(i) != m.nodes.get(i).copied() {
            return Err(format!("node({i}) is {:?}, expected {:?}", o.node(i), m.nodes.get(i)));
        }
    }
    Ok(())
}
pub fn check_rel<N: Relation>(o: &N, m: &MObj) -> Result<(), String> {
    check_base(o, m)?;
    let v: Vec<(K, i64, String)> = o.members().map(|(t, i, s)| (K::from_ty(t), i, s.to_string())).collect();
    if v != m.members || o.members().len() != m.members.len() {
        return Err(format!("members() {:?} (len {}), expected {:?}", v, o.members().len(), m.members));
    }
    Ok(())
}
pub fn check_obj<O: OSMObj>(o: &O, m: &MObj) -> Result<(), String> {
    check_base(o, m)?;
    let views = (o.is_node(), o.is_way(), o.is_relation());
    let asv = (o.as_node().is_some(), o.as_way().is_some(), o.as_relation().is_some());
    let e = (m.kind == K::N, m.kind == K::W, m.kind == K::R);
    if views != e || asv != e {
        return Err(format!("is_* {views:?} as_* {asv:?}, expected {e:?}"));
    }
    let mut c = o.clone();
    let asm = (c.as_node_mut().is_some(), c.as_way_mut().is_some(), c.as_relation_mut().is_some());
    if asm != e {
        return Err(format!("as_*_mut {asm:?}, expected {e:?}"));
    }
    let into = (o.clone().into_node(), o.clone().into_way(), o.clone().into_relation());
    let intov = (into.0.is_some(), into.1.is_some(), into.2.is_some());
    if intov != e {
        return Err(format!("into_* {intov:?}, expected {e:?}"));
    }
    match m.kind {
        K::N => {
            check_node(o.as_node().unwrap(), m)?;
            check_node(&into.0.unwrap(), m)
        }
        K::W => {
            check_way(o.as_way().unwrap(), m)?;
            check_way(&into.1.unwrap(), m)
        }
        K::R => {
            check_rel(o.as_relation().unwrap(), m)?;
            check_rel(&into.2.unwrap(), m)
        }
    }
}

/// First difference between two object lists, in words.
pub fn diff(got: &[MObj], want: &[MObj]) -> Option<String> {
    for i in 0..got.len().max(want.len()) {
        match (got.get(i), want.get(i)) {
            (Some(g), Some(w)) if g == w => {}
            (g, w) => {
                let s = |x: Option<&MObj>| x.map_or("nothing".into(), |o| format!("{o:?}"));
                return Some(format!("object {} of {} (expected {}): got {}; expected {}", i, got.len(), want.len(), s(g), s(w)));
            }
        }
    }
    None
}

use osmio::obj_types::*;
macro_rules! fill {
    ($n:expr, $m:expr) => {{
        $n.set_version($m.version);
        $n.set_deleted($m.deleted);
        $n.set_changeset_id($m.changeset);
        $n.set_timestamp($m.ts.as_ref().map(|t| t.to()));
        $n.set_uid($m.uid);
        $n.set_user($m.user.as_deref());
        for (k, v) in &$m.tags {
            $n.set_tag(k, v.clone());
        }
    }};
}
pub fn fill_obj<O: OSMObj>(o: &mut O, m: &MObj) {
    o.set_id(m.id);
    fill!(o, m);
    if let Some(n) = o.as_node_mut() {
        n.set_lat_lon_direct(m.pos.map(|(a, b)| (Lat::from_inner(a), Lon::from_inner(b))));
    }
    if let Some(w) = o.as_way_mut() {
        w.set_nodes(m.nodes.iter().copied());
    }
    if let Some(r) = o.as_relation_mut() {
        r.set_members(m.members.iter().map(|(t, i, s)| (t.ty(), *i, s.clone())));
    }
}
pub fn blank_string(kind: K, id: i64) -> StringOSMObj {
    match kind {
        K::N => StringNodeBuilder::default()._id(id).build().unwrap().into(),
        K::W => StringWayBuilder::default()._id(id).build().unwrap().into(),
        K::R => StringRelationBuilder::default()._id(id).build().unwrap().into(),
    }
}
pub fn to_string_obj(m: &MObj) -> StringOSMObj {
    let mut o = blank_string(m.kind, m.id);
    fill_obj(&mut o, m);
    o
}
