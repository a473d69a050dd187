//! Independent generator of OSM XML, osmChange and changeset documents in many spellings.
use crate::engine::Ch;
use crate::model::*;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Style {
    pub quote: usize,
    pub order: usize,
    pub refs: usize,
    pub closing: usize,
    pub ws: usize,
    pub comment: usize,
    pub pi: usize,
    pub text: usize,
    pub extra_el: usize,
    pub extra_attr: usize,
    pub decl: usize,
    pub visible: usize,
    pub num: usize,
    pub root: usize,
    pub child_order: usize,
    pub nested: usize,
    pub tail: usize,
}
pub fn style_dev(ch: &mut Ch) -> Style {
    Style {
        quote: ch.dev(3),
        order: ch.dev(3),
        refs: ch.dev(5),
        closing: ch.dev(3),
        ws: ch.dev(5),
        comment: ch.dev(5),
        pi: ch.dev(3),
        text: ch.dev(4),
        extra_el: ch.dev(8),
        extra_attr: ch.dev(5),
        decl: ch.dev(9),
        visible: ch.dev(2),
        num: ch.dev(4),
        root: ch.dev(4),
        child_order: ch.dev(4),
        nested: ch.dev(6),
        tail: ch.dev(4),
    }
}

pub struct Gen<'a> {
    pub out: String,
    s: &'a Style,
    nattr: usize,
    nel: usize,
}
pub type Attrs = Vec<(String, String)>;

impl<'a> Gen<'a> {
    pub fn new(s: &'a Style) -> Self {
        Gen { out: String::new(), s, nattr: 0, nel: 0 }
    }
    fn value(&mut self, v: &str) {
        let q = match self.s.quote {
            0 => '"',
            1 => '\'',
            _ => ['"', '\''][self.nattr % 2],
        };
        self.nattr += 1;
        self.out.push(q);
        for c in v.chars() {
            let all = match self.s.refs {
                1 => Some(format!("&#{};", c as u32)),
                2 => Some(format!("&#x{:X};", c as u32)),
                3 => Some(format!("&#x{:08x};", c as u32)),
                4 if !c.is_ascii() => Some(format!("&#{};", c as u32)),
                _ => None,
            };
            match (all, c) {
                (Some(a), _) => self.out.push_str(&a),
                (_, '&') => self.out.push_str("&amp;"),
                (_, '<') => self.out.push_str("&lt;"),
                (_, '>') if self.s.quote != 1 => self.out.push_str("&gt;"),
                (_, '"') if q == '"' => self.out.push_str("&quot;"),
                (_, '\'') if q == '\'' => self.out.push_str("&apos;"),
                (_, '\t' | '\n' | '\r') => self.out.push_str(&format!("&#{};", c as u32)),
                (_, c) => self.out.push(c),
            }
        }
        self.out.push(q);
    }
    fn sep(&mut self, depth: usize) {
        match self.s.ws {
            0 => {
                self.out.push('\n');
                (0..depth).for_each(|_| self.out.push('\t'));
            }
            1 => {}
            2 => self.out.push_str("\r\n  \t"),
            3 => self.out.push_str("\n\n   \n"),
            _ => self.out.push(' '),
        }
        self.nel += 1;
        match self.s.comment {
            1 => self.out.push_str("<!-- a comment -->"),
            2 => self.out.push_str("<!--<node id=\"999\" lat=\"1\" lon=\"1\"/></osm><tag k=\"x\" v=\"y\"/>-->"),
            3 => self.out.push_str("<!---->"),
            4 => self.out.push_str("<!-- > & ' \" ]]> < é -->"),
            _ => {}
        }
        match self.s.pi {
            1 => self.out.push_str("<?app do something?>"),
            2 => self.out.push_str("<?app <node id=\"998\"/> > ' ?>"),
            _ => {}
        }
    }
    /// Character data where it is allowed (and means nothing).
    fn chars(&mut self) {
        match self.s.text {
            1 => self.out.push_str("some text"),
            2 => self.out.push_str("&lt;node id=&quot;5&quot;/&gt; &#65;"),
            3 => self.out.push_str("<![CDATA[<node id=\"6\"/></osm>&]]>"),
            _ => {}
        }
    }
    /// Start tag; `empty` closes it too. Returns nothing; explicit end via `close`.
    pub fn open(&mut self, name: &str, attrs: &Attrs, empty: bool) {
        let mut a: Attrs = attrs.clone();
        match self.s.extra_attr {
            1 => a.push(("foo".into(), "bar".into())),
            2 => a.insert(0, ("foo".into(), "1 < 2 & \"x\"".into())),
            3 => {
                a.insert(0, ("ident".into(), "77".into()));
                a.push(("_k".into(), "78".into()));
                a.push(("REF".into(), "79".into()));
            }
            4 => {
                a.insert(a.len() / 2, ("empty".into(), "".into()));
            }
            _ => {}
        }
        match self.s.order {
            1 => a.reverse(),
            2 => {
                let n = a.len() / 2;
                a.rotate_left(n);
            }
            _ => {}
        }
        self.out.push('<');
        self.out.push_str(name);
        for (k, v) in &a {
            self.out.push_str(match self.s.ws {
                2 => "\r\n ",
                3 => "  \t",
                _ => " ",
            });
            self.out.push_str(k);
            self.out.push_str(match self.s.ws {
                2 => " = ",
                3 => "\n=\n",
                _ => "=",
            });
            self.value(v);
        }
        match (empty, self.s.closing) {
            (true, 0) => self.out.push_str("/>"),
            (true, 1) => self.out.push_str(&format!("></{name}>")),
            (true, _) => self.out.push_str(&format!(" ></{name} >")),
            (false, _) => self.out.push_str(if self.s.ws == 2 { " >" } else { ">" }),
        }
    }
    pub fn close(&mut self, name: &str) {
        self.out.push_str("</");
        self.out.push_str(name);
        self.out.push_str(if self.s.ws == 3 { "\n>" } else { ">" });
    }
    fn leaf(&mut self, name: &str, attrs: &[(&str, &str)], depth: usize) {
        self.sep(depth);
        let a: Attrs = attrs.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        self.open(name, &a, true);
    }
    fn prolog(&mut self) {
        match self.s.decl {
            0 => self.out.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"),
            1 => {}
            2 => self.out.push_str("<?xml version='1.0'?>"),
            3 => self.out.push_str("<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>\r\n"),
            4 => self.out.push_str("\u{feff}<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"),
            5 => self.out.push_str("<?xml version=\"1.0\"  encoding='utf-8' ?>\n<!-- <osm> -->\n<?x y?>\n"),
            6 => self.out.push_str("<!-- prolog comment -->"),
            7 => self.out.push_str("\u{feff}"),
            _ => self.out.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n\n\n<!--\n-->\n"),
        }
    }
    fn epilog(&mut self) {
        match self.s.tail {
            1 => self.out.push('\n'),
            2 => self.out.push_str("\n<!-- the end <node id=\"1\"/> -->\n<?bye bye?>\n"),
            3 => self.out.push_str("   \r\n\t"),
            _ => {}
        }
    }
    fn extra(&mut self, depth: usize) {
        match self.s.extra_el {
            1 => self.leaf("bounds", &[("minlat", "50"), ("minlon", "-1"), ("maxlat", "51.5"), ("maxlon", "2")], depth),
            2 => {
                self.sep(depth);
                self.open("note", &vec![], false);
                self.out.push_str("The data included in this document is from www.openstreetmap.org.");
                self.close("note");
                self.leaf("meta", &[("osm_base", "2020-01-01T00:00:00Z")], depth);
            }
            3 => self.leaf("tags", &[("k", "not"), ("v", "a tag")], depth),
            4 => {
                self.sep(depth);
                self.open("nodes", &vec![("id".into(), "5".into())], false);
                self.leaf("ndx", &[("ref", "7")], depth + 1);
                self.close("nodes");
            }
            5 => self.leaf("changeset", &[("id", "5")], depth),
            6 => {
                self.sep(depth);
                self.open("user", &vec![], false);
                self.chars();
                self.close("user");
            }
            7 => self.similar(depth),
            _ => {}
        }
    }
    /// Elements whose names look like, but are not, those of the format.
    fn similar(&mut self, depth: usize) {
        for n in ["tags", "xtag", "Tag", "ndx", "nd_", "members", "xmember", "nodes", "xway", "Relation", "xchangeset", "changesets"] {
            self.leaf(n, &[("id", "71"), ("k", "similar"), ("v", "element"), ("type", "node"), ("ref", "72"), ("role", "r"), ("lat", "1"), ("lon", "2")], depth);
        }
        self.sep(depth);
        self.open("foo", &vec![("k", "a"), ("v", "b"), ("ref", "4")].into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), false);
        self.out.push_str("text");
        self.close("foo");
    }
    pub fn coord(&self, v: i32) -> String {
        let (sign, a) = (if v < 0 { "-" } else { "" }, (v as i64).abs());
        let (i, f) = (a / 10_000_000, a % 10_000_000);
        match self.s.num {
            0 => {
                let s = format!("{f:07}");
                let s = s.trim_end_matches('0');
                if s.is_empty() { format!("{sign}{i}") } else { format!("{sign}{i}.{s}") }
            }
            1 => format!("{sign}{i}.{f:07}"),
            2 => format!("{sign}{i}.{f:07}000"),
            _ => format!("{sign}{i:03}.{f:07}"),
        }
    }
    pub fn obj(&mut self, o: &MObj, depth: usize) -> (usize, usize) {
        self.sep(depth);
        let start = self.out.len();
        let mut a: Attrs = vec![("id".into(), o.id.to_string())];
        if o.deleted || self.s.visible == 0 {
            a.push(("visible".into(), (!o.deleted).to_string()));
        }
        if let Some(v) = o.version {
            a.push(("version".into(), v.to_string()));
        }
        if let Some(v) = o.changeset {
            a.push(("changeset".into(), v.to_string()));
        }
        if let Some(v) = &o.ts {
            let t = match v {
                Ts::Iso(s) => s.clone(),
                Ts::Epoch(_) => panic!("HARNESS: epoch timestamp in XML"),
            };
            a.push(("timestamp".into(), t));
        }
        if let Some(v) = &o.user {
            a.push(("user".into(), v.clone()));
        }
        if let Some(v) = o.uid {
            a.push(("uid".into(), v.to_string()));
        }
        if let Some((la, lo)) = o.pos {
            a.push(("lat".into(), self.coord(la)));
            a.push(("lon".into(), self.coord(lo)));
        }
        let name = o.kind.long();
        enum C<'b> {
            T(&'b (String, String)),
            N(i64),
            M(&'b (K, i64, String)),
        }
        let body: Vec<C> = o.nodes.iter().map(|n| C::N(*n)).chain(o.members.iter().map(C::M)).collect();
        let tags: Vec<C> = o.tags.iter().map(C::T).collect();
        let mut kids: Vec<C> = vec![];
        match self.s.child_order {
            0 => {
                kids.extend(body);
                kids.extend(tags);
            }
            1 => {
                kids.extend(tags);
                kids.extend(body);
            }
            x => {
                // interleaved
                let (mut t, mut b) = (tags.into_iter(), body.into_iter());
                loop {
                    let (p, q) = if x == 2 { (t.next(), b.next()) } else { (b.next(), t.next()) };
                    if p.is_none() && q.is_none() {
                        break;
                    }
                    kids.extend(p);
                    kids.extend(q);
                }
            }
        }
        let inner = self.s.nested;
        if kids.is_empty() && inner == 0 && self.s.text == 0 {
            self.open(name, &a, true);
            return (start, self.out.len());
        }
        self.open(name, &a, false);
        self.chars();
        if inner == 1 {
            self.leaf("center", &[("lat", "1.5"), ("lon", "2.5")], depth + 1);
        }
        if inner == 3 {
            self.leaf("bounds", &[("minlat", "1"), ("minlon", "1"), ("maxlat", "2"), ("maxlon", "2")], depth + 1);
        }
        if inner == 4 {
            self.similar(depth + 1);
        }
        for (at, k) in kids.into_iter().enumerate() {
            if at > 0 && inner == 5 {
                self.similar(depth + 1);
            }
            if at == 1 {
                self.chars();
            }
            match k {
                C::T((k, v)) => self.leaf("tag", &[("k", k), ("v", v)], depth + 1),
                C::N(n) => self.leaf("nd", &[("ref", &n.to_string())], depth + 1),
                C::M((t, i, r)) => self.leaf("member", &[("type", t.long()), ("ref", &i.to_string()), ("role", r)], depth + 1),
            }
        }
        if inner == 2 {
            self.sep(depth + 1);
            self.open("foo", &vec![("id".into(), "1".into())], false);
            self.leaf("bar", &[("k", "a"), ("v", "b"), ("ref", "4")], depth + 2);
            self.chars();
            self.close("foo");
        }
        self.sep(depth);
        self.close(name);
        (start, self.out.len())
    }
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub bytes: Vec<u8>,
    /// byte range of every object
    pub spans: Vec<(usize, usize)>,
    /// offset just after the root's end tag
    pub root_end: usize,
}
fn root_attrs(s: &Style) -> Attrs {
    let mut a: Attrs = vec![("version".into(), "0.6".into())];
    match s.root {
        0 => a.push(("generator".into(), "verif".into())),
        1 => a.clear(),
        2 => {
            a.push(("generator".into(), "CGImap 0.8.8 (é < \"x\")".into()));
            a.push(("copyright".into(), "OpenStreetMap and contributors".into()));
            a.push(("license".into(), "http://opendatacommons.org/licenses/odbl/1-0/".into()));
        }
        _ => a.push(("xmlns:x".into(), "http://example.org/".into())),
    }
    a
}
fn finish(g: Gen, spans: Vec<(usize, usize)>, root_end: usize) -> Doc {
    Doc { bytes: g.out.into_bytes(), spans, root_end }
}
pub fn xml_doc(objs: &[MObj], s: &Style) -> Doc {
    let mut g = Gen::new(s);
    g.prolog();
    let mut spans = vec![];
    if objs.is_empty() && s.closing == 0 && s.extra_el == 0 && s.text == 0 {
        g.open("osm", &root_attrs(s), true);
    } else {
        g.open("osm", &root_attrs(s), false);
        g.chars();
        g.extra(1);
        for (i, o) in objs.iter().enumerate() {
            spans.push(g.obj(o, 1));
            if i == 0 {
                g.chars();
                g.extra(1);
            }
        }
        g.sep(0);
        g.close("osm");
    }
    let re = g.out.len();
    g.epilog();
    finish(g, spans, re)
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sec {
    Create,
    Modify,
    Delete,
}
pub const SECS: [Sec; 3] = [Sec::Create, Sec::Modify, Sec::Delete];
impl Sec {
    pub fn name(self) -> &'static str {
        match self {
            Sec::Create => "create",
            Sec::Modify => "modify",
            Sec::Delete => "delete",
        }
    }
}
pub fn osc_doc(secs: &[(Sec, Vec<MObj>)], s: &Style) -> Doc {
    let mut g = Gen::new(s);
    g.prolog();
    let mut spans = vec![];
    if secs.is_empty() && s.closing == 0 && s.extra_el == 0 && s.text == 0 {
        g.open("osmChange", &root_attrs(s), true);
    } else {
        g.open("osmChange", &root_attrs(s), false);
        g.chars();
        g.extra(1);
        for (sec, objs) in secs {
            g.sep(1);
            let a: Attrs = if s.extra_attr == 0 && *sec == Sec::Delete && s.root == 2 { vec![("if-unused".into(), "true".into())] } else { vec![] };
            if objs.is_empty() {
                g.open(sec.name(), &a, true);
            } else {
                g.open(sec.name(), &a, false);
                g.chars();
                for o in objs {
                    spans.push(g.obj(o, 2));
                }
                g.extra(2);
                g.sep(1);
                g.close(sec.name());
            }
        }
        g.sep(0);
        g.close("osmChange");
    }
    let re = g.out.len();
    g.epilog();
    finish(g, spans, re)
}
/// What the change-file reader is to report.
pub fn osc_expect(secs: &[(Sec, Vec<MObj>)]) -> Vec<MObj> {
    secs.iter().flat_map(|(s, v)| v.iter().map(|o| MObj { deleted: o.deleted || *s == Sec::Delete, ..o.clone() })).collect()
}

// ------------------------------------------------------------------ changesets
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cs {
    pub id: u64,
    pub created: String,
    pub closed: Option<String>,
    pub open: bool,
    pub uid: Option<i64>,
    pub user: Option<String>,
    pub num_changes: u64,
    pub comments: u64,
    pub tags: Vec<(String, String)>,
    /// discussion comments: (user, text)
    pub discussion: Option<Vec<(String, String)>>,
    pub bbox: bool,
}
impl Cs {
    pub fn full(id: u32) -> Cs {
        let n = id % 1000;
        Cs {
            id: id as u64,
            created: crate::cal::iso(2010 + (n % 10) as i64, 1 + (n % 12) as i64, 1 + (n % 28) as i64, 3, 4, (n % 60) as i64),
            closed: Some(crate::cal::iso(2011 + (n % 10) as i64, 1 + (n % 12) as i64, 1 + (n % 28) as i64, 5, 6, (n % 60) as i64)),
            open: false,
            uid: Some(100 + n as i64),
            user: Some(format!("mapper {n}")),
            num_changes: 10 + n as u64,
            comments: n as u64 % 7,
            tags: vec![("created_by".into(), format!("JOSM {n}")), ("comment".into(), format!("edit {n}"))],
            discussion: None,
            bbox: true,
        }
    }
}
/// Attributes to leave out or to spoil, per changeset index.
#[derive(Clone, Debug, PartialEq)]
pub enum Spoil {
    Drop(usize, &'static str),
    Set(usize, &'static str, &'static str),
    /// changeset, tag: written without key (0), without value (1), with neither (2)
    Tag(usize, usize, usize),
}
pub fn cs_doc(css: &[Cs], s: &Style, spoil: &[Spoil]) -> Doc {
    let mut g = Gen::new(s);
    g.prolog();
    let mut spans = vec![];
    let mut ra = root_attrs(s);
    ra.retain(|x| x.0 != "xmlns:x");
    if css.is_empty() && s.closing == 0 && s.extra_el == 0 && s.text == 0 {
        g.open("osm", &ra, true);
    } else {
        g.open("osm", &ra, false);
        g.chars();
        if s.extra_el != 5 {
            g.extra(1);
        }
        for (i, c) in css.iter().enumerate() {
            g.sep(1);
            let start = g.out.len();
            let mut a: Attrs = vec![("id".into(), c.id.to_string()), ("created_at".into(), c.created.clone())];
            if let Some(x) = &c.closed {
                a.push(("closed_at".into(), x.clone()));
            }
            a.push(("open".into(), c.open.to_string()));
            a.push(("num_changes".into(), c.num_changes.to_string()));
            if let Some(x) = &c.user {
                a.push(("user".into(), x.clone()));
            }
            if let Some(x) = c.uid {
                a.push(("uid".into(), x.to_string()));
            }
            if c.bbox {
                for (k, v) in [("min_lat", "50.1"), ("max_lat", "50.2"), ("min_lon", "-1.5"), ("max_lon", "-1.25")] {
                    a.push((k.into(), v.into()));
                }
            }
            a.push(("comments_count".into(), c.comments.to_string()));
            for sp in spoil {
                match sp {
                    Spoil::Drop(j, k) if *j == i => a.retain(|x| x.0 != *k),
                    Spoil::Set(j, k, v) if *j == i => a.iter_mut().filter(|x| x.0 == *k).for_each(|x| x.1 = v.to_string()),
                    _ => {}
                }
            }
            if c.tags.is_empty() && c.discussion.is_none() && s.nested == 0 && s.text == 0 {
                g.open("changeset", &a, true);
            } else {
                g.open("changeset", &a, false);
                g.chars();
                let disc = |g: &mut Gen| {
                    if let Some(d) = &c.discussion {
                        g.sep(2);
                        if d.is_empty() {
                            g.open("discussion", &vec![], true);
                            return;
                        }
                        g.open("discussion", &vec![], false);
                        for (u, t) in d {
                            g.sep(3);
                            g.open("comment", &vec![("id".into(), "44".into()), ("uid".into(), "45".into()), ("user".into(), u.clone()), ("date".into(), "2015-01-01T18:56:48Z".into())], false);
                            g.sep(4);
                            g.open("text", &vec![], false);
                            let esc: String = t.replace('&', "&amp;").replace('<', "&lt;");
                            g.out.push_str(&esc);
                            g.close("text");
                            g.sep(3);
                            g.close("comment");
                        }
                        g.sep(2);
                        g.close("discussion");
                    }
                };
                if s.child_order == 1 {
                    disc(&mut g);
                }
                if s.nested == 4 {
                    g.similar(2);
                }
                for (j, (k, v)) in c.tags.iter().enumerate() {
                    let mut kv = vec![("k", k.as_str()), ("v", v.as_str())];
                    for sp in spoil {
                        match sp {
                            Spoil::Tag(a, b, 0) if (*a, *b) == (i, j) => kv.retain(|x| x.0 != "k"),
                            Spoil::Tag(a, b, 1) if (*a, *b) == (i, j) => kv.retain(|x| x.0 != "v"),
                            Spoil::Tag(a, b, _) if (*a, *b) == (i, j) => kv.clear(),
                            _ => {}
                        }
                    }
                    if s.nested == 5 && j > 0 {
                        g.similar(2);
                        g.chars();
                    }
                    g.leaf("tag", &kv, 2);
                    if j == 0 && s.child_order == 2 {
                        disc(&mut g);
                    }
                }
                if s.child_order == 0 || s.child_order == 3 || (s.child_order == 2 && c.tags.is_empty()) {
                    disc(&mut g);
                }
                if s.nested > 0 && s.nested < 4 {
                    g.sep(2);
                    g.open("foo", &vec![("id".into(), "1".into())], false);
                    g.leaf("bar", &[("k", "a"), ("v", "b")], 3);
                    g.close("foo");
                }
                g.sep(1);
                g.close("changeset");
            }
            spans.push((start, g.out.len()));
        }
        g.sep(0);
        g.close("osm");
    }
    let re = g.out.len();
    g.epilog();
    finish(g, spans, re)
}
