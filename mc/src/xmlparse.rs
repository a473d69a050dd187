//! Strict, independent parser of XML 1.0 documents (no DTD), and of OSM XML on top of it.
use crate::model::*;

#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<El>,
    pub text: String,
}
struct P<'a> {
    s: &'a [char],
    i: usize,
}
type R<T> = Result<T, String>;
pub fn is_char(c: char) -> bool {
    matches!(c as u32, 0x9 | 0xA | 0xD | 0x20..=0xD7FF | 0xE000..=0xFFFD | 0x10000..=0x10FFFF)
}
pub fn name_start(c: char) -> bool {
    matches!(c as u32, 0x3A | 0x41..=0x5A | 0x5F | 0x61..=0x7A | 0xC0..=0xD6 | 0xD8..=0xF6 | 0xF8..=0x2FF | 0x370..=0x37D | 0x37F..=0x1FFF | 0x200C..=0x200D | 0x2070..=0x218F | 0x2C00..=0x2FEF | 0x3001..=0xD7FF | 0xF900..=0xFDCF | 0xFDF0..=0xFFFD | 0x10000..=0xEFFFF)
}
pub fn name_char(c: char) -> bool {
    name_start(c) || matches!(c as u32, 0x2D | 0x2E | 0x30..=0x39 | 0xB7 | 0x300..=0x36F | 0x203F..=0x2040)
}
fn ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n')
}
impl P<'_> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn at(&self, t: &str) -> bool {
        t.chars().enumerate().all(|(j, c)| self.s.get(self.i + j) == Some(&c))
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.at(t) {
            self.i += t.chars().count();
            true
        } else {
            false
        }
    }
    fn err<T>(&self, m: &str) -> R<T> {
        Err(format!("{m} at character {} near {:?}", self.i, self.s[self.i.saturating_sub(20)..(self.i + 20).min(self.s.len())].iter().collect::<String>()))
    }
    fn skip_ws(&mut self) -> usize {
        let a = self.i;
        while self.peek().is_some_and(ws) {
            self.i += 1;
        }
        self.i - a
    }
    fn name(&mut self) -> R<String> {
        match self.peek() {
            Some(c) if name_start(c) => {}
            _ => return self.err("expected a name"),
        }
        let a = self.i;
        while self.peek().is_some_and(name_char) {
            self.i += 1;
        }
        Ok(self.s[a..self.i].iter().collect())
    }
    fn reference(&mut self) -> R<char> {
        // after '&'
        let a = self.i;
        while self.peek().is_some_and(|c| c != ';') && self.i - a < 12 {
            self.i += 1;
        }
        let t: String = self.s[a..self.i].iter().collect();
        if !self.eat(";") {
            return self.err("unterminated reference");
        }
        let c = match t.as_str() {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = t.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() } else if let Some(d) = t.strip_prefix('#') { d.parse().ok() } else { None };
                match n.and_then(char::from_u32) {
                    Some(c) if is_char(c) => c,
                    _ => return Err(format!("bad reference &{t};")),
                }
            }
        };
        Ok(c)
    }
    fn value(&mut self) -> R<String> {
        let q = match self.peek() {
            Some(c @ ('"' | '\'')) => c,
            _ => return self.err("expected a quoted value"),
        };
        self.i += 1;
        let mut out = String::new();
        loop {
            match self.peek() {
                None => return self.err("unterminated attribute value"),
                Some(c) if c == q => {
                    self.i += 1;
                    return Ok(out);
                }
                Some('<') => return self.err("'<' in an attribute value"),
                Some('&') => {
                    self.i += 1;
                    out.push(self.reference()?);
                }
                Some(c) if ws(c) => {
                    self.i += 1;
                    out.push(' ');
                }
                Some(c) => {
                    self.i += 1;
                    out.push(c);
                }
            }
        }
    }
    fn comment(&mut self) -> R<()> {
        // after "<!--"
        loop {
            if self.peek().is_none() {
                return self.err("unterminated comment");
            }
            if self.eat("--") {
                return if self.eat(">") { Ok(()) } else { self.err("'--' in a comment") };
            }
            self.i += 1;
        }
    }
    fn pi(&mut self) -> R<()> {
        let n = self.name()?;
        if n.eq_ignore_ascii_case("xml") {
            return self.err("XML declaration in the wrong place");
        }
        while !self.eat("?>") {
            if self.peek().is_none() {
                return self.err("unterminated processing instruction");
            }
            self.i += 1;
        }
        Ok(())
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.skip_ws();
            if self.eat("<!--") {
                self.comment()?;
            } else if self.at("<?") {
                self.i += 2;
                self.pi()?;
            } else {
                return Ok(());
            }
        }
    }
    fn element(&mut self, depth: usize) -> R<El> {
        if !self.eat("<") {
            return self.err("expected an element");
        }
        let name = self.name()?;
        let mut attrs: Vec<(String, String)> = vec![];
        loop {
            let n = self.skip_ws();
            if self.eat("/>") {
                return Ok(El { name, attrs, kids: vec![], text: String::new() });
            }
            if self.eat(">") {
                break;
            }
            if n == 0 {
                return self.err("expected white space before an attribute");
            }
            let k = self.name()?;
            self.skip_ws();
            if !self.eat("=") {
                return self.err("expected '='");
            }
            self.skip_ws();
            let v = self.value()?;
            if attrs.iter().any(|a| a.0 == k) {
                return Err(format!("duplicate attribute {k} of {name}"));
            }
            attrs.push((k, v));
        }
        let mut kids = vec![];
        let mut text = String::new();
        loop {
            if self.eat("</") {
                let n = self.name()?;
                if n != name {
                    return Err(format!("end tag {n} for {name}"));
                }
                self.skip_ws();
                if !self.eat(">") {
                    return self.err("expected '>'");
                }
                return Ok(El { name, attrs, kids, text });
            } else if self.eat("<!--") {
                self.comment()?;
            } else if self.eat("<![CDATA[") {
                while !self.eat("]]>") {
                    match self.peek() {
                        None => return self.err("unterminated CDATA"),
                        Some(c) => text.push(c),
                    }
                    self.i += 1;
                }
            } else if self.eat("<?") {
                self.pi()?;
            } else if self.at("<") {
                kids.push(self.element(depth + 1)?);
            } else if self.eat("&") {
                text.push(self.reference()?);
            } else {
                match self.peek() {
                    None => return self.err("unexpected end"),
                    Some(c) => {
                        if self.at("]]>") {
                            return self.err("']]>' in text");
                        }
                        text.push(c);
                        self.i += 1;
                    }
                }
            }
        }
    }
}
/// The root element of a well-formed UTF-8 document.
pub fn parse(bytes: &[u8]) -> R<El> {
    parse_up_to(bytes, true)
}
/// `whole`: look at what comes behind the root element, too.
pub fn parse_up_to(bytes: &[u8], whole: bool) -> R<El> {
    let t = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {e}"))?;
    let t = t.strip_prefix('\u{feff}').unwrap_or(t);
    // line end normalisation
    let chars: Vec<char> = t.replace("\r\n", "\n").replace('\r', "\n").chars().collect();
    if let Some(c) = chars.iter().find(|c| !is_char(**c)) {
        return Err(format!("character U+{:04X} is not allowed in XML", *c as u32));
    }
    let mut p = P { s: &chars, i: 0 };
    if p.at("<?xml ") {
        p.i += 5;
        let mut got = vec![];
        loop {
            let n = p.skip_ws();
            if p.eat("?>") {
                break;
            }
            if n == 0 {
                return p.err("bad XML declaration");
            }
            let k = p.name()?;
            p.skip_ws();
            if !p.eat("=") {
                return p.err("bad XML declaration");
            }
            p.skip_ws();
            got.push((k, p.value()?));
        }
        let names: Vec<&str> = got.iter().map(|g| g.0.as_str()).collect();
        if !matches!(names.as_slice(), ["version"] | ["version", "encoding"] | ["version", "standalone"] | ["version", "encoding", "standalone"]) {
            return Err(format!("bad XML declaration {got:?}"));
        }
        if got[0].1 != "1.0" {
            return Err(format!("XML version {:?}", got[0].1));
        }
        if let Some(e) = got.iter().find(|g| g.0 == "encoding") {
            if !e.1.eq_ignore_ascii_case("utf-8") {
                return Err(format!("declared encoding {:?}", e.1));
            }
        }
    }
    p.misc()?;
    let root = p.element(0)?;
    if !whole {
        return Ok(root);
    }
    p.misc()?;
    if p.i != chars.len() {
        return p.err("content after the root element");
    }
    Ok(root)
}

fn num<T: std::str::FromStr>(name: &str, s: &str) -> R<T> {
    if s.is_empty() || !s.strip_prefix('-').unwrap_or(s).chars().all(|c| c.is_ascii_digit()) {
        return Err(format!("attribute {name}: {s:?} is not an integer"));
    }
    s.parse().map_err(|_| format!("attribute {name}: {s:?} out of range"))
}
/// Exact decimal to units of 100 nanodegrees.
pub fn units(s: &str) -> R<i32> {
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s),
    };
    let (i, f) = t.split_once('.').unwrap_or((t, ""));
    if i.is_empty() || !i.chars().chain(f.chars()).all(|c| c.is_ascii_digit()) || i.len() > 9 || (t.contains('.') && f.is_empty()) {
        return Err(format!("{s:?} is not a plain decimal"));
    }
    let mut frac = f.to_string();
    while frac.len() < 7 {
        frac.push('0');
    }
    if frac[7..].chars().any(|c| c != '0') {
        return Err(format!("{s:?} is not a multiple of 100 nanodegrees"));
    }
    let v = i.parse::<i64>().unwrap() * 10_000_000 + frac[..7].parse::<i64>().unwrap();
    i32::try_from(if neg { -v } else { v }).map_err(|_| format!("{s:?} does not fit"))
}
fn no_text(e: &El) -> R<()> {
    if e.text.chars().all(ws) { Ok(()) } else { Err(format!("text {:?} in {}", e.text, e.name)) }
}
fn obj(e: &El) -> R<MObj> {
    no_text(e)?;
    let kind = match e.name.as_str() {
        "node" => K::N,
        "way" => K::W,
        "relation" => K::R,
        x => return Err(format!("unexpected element {x}")),
    };
    let mut o = MObj::new(kind, 0);
    let (mut id, mut lat, mut lon) = (false, None, None);
    for (k, v) in &e.attrs {
        match k.as_str() {
            "id" => {
                o.id = num(k, v)?;
                id = true;
            }
            "visible" => {
                o.deleted = match v.as_str() {
                    "true" => false,
                    "false" => true,
                    _ => return Err(format!("visible={v:?}")),
                }
            }
            "version" => o.version = Some(num(k, v)?),
            "changeset" => o.changeset = Some(num(k, v)?),
            "uid" => o.uid = Some(num(k, v)?),
            "user" => o.user = Some(v.clone()),
            "timestamp" => o.ts = Some(Ts::Iso(v.clone())),
            "lat" if kind == K::N => lat = Some(units(v)?),
            "lon" if kind == K::N => lon = Some(units(v)?),
            _ => return Err(format!("unexpected attribute {k} of {}", e.name)),
        }
    }
    if !id {
        return Err(format!("{} without id", e.name));
    }
    if lat.is_some() != lon.is_some() {
        return Err("half a position".into());
    }
    o.pos = lat.zip(lon);
    let get = |e: &El, names: &[&str]| -> R<Vec<String>> {
        no_text(e)?;
        if !e.kids.is_empty() {
            return Err(format!("children in {}", e.name));
        }
        let mut v = vec![];
        for n in names {
            v.push(e.attrs.iter().find(|a| a.0 == *n).ok_or(format!("{} without {n}", e.name))?.1.clone());
        }
        if e.attrs.len() != names.len() {
            return Err(format!("unexpected attributes of {}: {:?}", e.name, e.attrs));
        }
        Ok(v)
    };
    for c in &e.kids {
        match (c.name.as_str(), kind) {
            ("tag", _) => {
                let v = get(c, &["k", "v"])?;
                o.tags.push((v[0].clone(), v[1].clone()));
            }
            ("nd", K::W) => o.nodes.push(num("ref", &get(c, &["ref"])?[0])?),
            ("member", K::R) => {
                let v = get(c, &["type", "ref", "role"])?;
                let t = match v[0].as_str() {
                    "node" => K::N,
                    "way" => K::W,
                    "relation" => K::R,
                    x => return Err(format!("member type {x:?}")),
                };
                o.members.push((t, num("ref", &v[1])?, v[2].clone()));
            }
            (x, _) => return Err(format!("unexpected {x} in {}", e.name)),
        }
    }
    Ok(o)
}
#[derive(Clone, Debug, PartialEq)]
pub struct Osm {
    pub root: Vec<(String, String)>,
    pub objs: Vec<MObj>,
}
/// A whole OSM XML document.
pub fn osm(bytes: &[u8]) -> R<Osm> {
    let r = parse(bytes)?;
    if r.name != "osm" {
        return Err(format!("root element {}", r.name));
    }
    no_text(&r)?;
    Ok(Osm { root: r.attrs.clone(), objs: r.kids.iter().map(obj).collect::<R<_>>()? })
}
/// A whole osmChange document; objects in document order. Sections other than `delete` hold live
/// or explicitly invisible objects.
pub fn osc(bytes: &[u8]) -> R<Osm> {
    let r = parse(bytes)?;
    if r.name != "osmChange" {
        return Err(format!("root element {}", r.name));
    }
    no_text(&r)?;
    let mut objs = vec![];
    for s in &r.kids {
        no_text(s)?;
        match s.name.as_str() {
            "create" | "modify" => objs.extend(s.kids.iter().map(obj).collect::<R<Vec<_>>>()?),
            "delete" => {
                for o in &s.kids {
                    objs.push(MObj { deleted: true, ..obj(o)? });
                }
            }
            x => return Err(format!("section {x}")),
        }
        if !s.attrs.is_empty() {
            return Err("attributes on a section".into());
        }
    }
    Ok(Osm { root: r.attrs.clone(), objs })
}

#[test]
fn t() {
    assert!(parse(b"<a/>").is_ok());
    assert!(parse(b"<a></b>").is_err());
    assert!(parse(b"<a/><b/>").is_err());
    assert!(parse(b"<a b='1' b='2'/>").is_err());
    assert!(parse(b"<a b='<'/>").is_err());
    assert!(parse(b"<a b='&x;'/>").is_err());
    assert!(parse(b"<a").is_err());
    assert!(parse(b"").is_err());
    assert_eq!(parse("<a b='&#10;\n&amp;é'/>".as_bytes()).unwrap().attrs[0].1, "\n &é");
    assert_eq!(units("-0.0000001"), Ok(-1));
    assert_eq!(units("180"), Ok(1_800_000_000));
    assert!(units("1e5").is_err());
}
