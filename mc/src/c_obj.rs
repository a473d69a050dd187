//! C16-C19: objects as records.
use crate::c_xml::*;
use crate::engine::*;
use crate::model::*;
use crate::pbfenc::*;
use crate::rd::*;
use crate::xmlgen::*;
#[cfg(not(osmio_verif))]
use crate::c_xml::RcOSMObj;
use osmio::obj_types::*;
use osmio::{Lat, Lon, Node, OSMObj, OSMObjBase, OSMReader, Relation, Way};

#[derive(Clone, Debug, PartialEq)]
enum Ed {
    Id(i64),
    Version(Option<u32>),
    Deleted(bool),
    Changeset(Option<u32>),
    Time(Option<Ts>),
    Uid(Option<u32>),
    User(Option<&'static str>),
    /// a text of so many characters
    LongUser(usize),
    LongRole(usize),
    Set(String, String),
    Unset(String),
    Strip,
    // of one kind only
    Pos(Option<(i32, i32)>),
    PosF64(f64, f64),
    PosF32(f32, f32),
    PosNoneF64,
    UnsetPos,
    Nodes(Vec<i64>),
    Members(Vec<(K, i64, &'static str)>),
}
fn text_of(n: usize) -> String {
    ['x', 'é', ' ', '😀', '0'].iter().cycle().take(n).collect()
}
fn base_ed<O: OSMObjBase>(o: &mut O, e: &Ed) {
    match e {
        Ed::Id(v) => o.set_id(*v),
        Ed::Version(v) => match v {
            Some(x) if x % 2 == 1 => o.set_version(*x),
            v => o.set_version(*v),
        },
        Ed::Deleted(v) => o.set_deleted(*v),
        Ed::Changeset(v) => o.set_changeset_id(*v),
        Ed::Time(v) => o.set_timestamp(v.as_ref().map(|t| t.to())),
        Ed::Uid(v) => o.set_uid(*v),
        Ed::User(v) => o.set_user(*v),
        Ed::LongUser(n) => o.set_user(text_of(*n).as_str()),
        Ed::Set(k, v) => o.set_tag(k, v.clone()),
        Ed::Unset(k) => o.unset_tag(k),
        Ed::Strip => o.strip_metadata(),
        _ => {}
    }
}
fn node_ed<N: Node>(n: &mut N, e: &Ed) -> Result<(), String> {
    match e {
        Ed::Pos(p) => n.set_lat_lon_direct(p.map(|(a, b)| (Lat::from_inner(a), Lon::from_inner(b)))),
        Ed::PosF64(a, b) => {
            let r = n.set_lat_lon((*a, *b));
            if r.is_ok() != (fits(*a) && fits(*b)) {
                return Err(format!("set_lat_lon({a}, {b}) returned {r:?}"));
            }
        }
        Ed::PosF32(a, b) => {
            let r = n.set_lat_lon((*a, *b));
            if r.is_ok() != (fits(*a as f64) && fits(*b as f64)) {
                return Err(format!("set_lat_lon({a}, {b}) returned {r:?}"));
            }
        }
        Ed::PosNoneF64 => n.set_lat_lon(None as Option<(f64, f64)>).map_err(|e| format!("set_lat_lon(None): {e}"))?,
        Ed::UnsetPos => n.unset_lat_lon(),
        e => base_ed(n, e),
    }
    Ok(())
}
fn way_ed<W: Way>(n: &mut W, e: &Ed) -> Result<(), String> {
    match e {
        Ed::Nodes(v) => n.set_nodes(v.iter().copied()),
        e => base_ed(n, e),
    }
    Ok(())
}
fn rel_ed<R: Relation>(n: &mut R, e: &Ed) -> Result<(), String> {
    match e {
        Ed::Members(v) => n.set_members(v.iter().map(|(t, i, r)| (t.ty(), *i, *r))),
        Ed::LongRole(l) => n.set_members([(K::N.ty(), 1, "first".to_string()), (K::W.ty(), 2, text_of(*l)), (K::R.ty(), 3, "last".into())]),
        e => base_ed(n, e),
    }
    Ok(())
}
fn fits(a: f64) -> bool {
    a.is_finite() && a.abs() < 214.7
}
/// Directly, or through the typed view.
fn apply<O: OSMObj>(o: &mut O, e: &Ed, view: bool) -> Result<(), String> {
    let special = matches!(e, Ed::Pos(_) | Ed::PosF64(..) | Ed::PosF32(..) | Ed::PosNoneF64 | Ed::UnsetPos | Ed::Nodes(_) | Ed::Members(_) | Ed::LongRole(_));
    if !special && !view {
        base_ed(o, e);
        return Ok(());
    }
    if let Some(n) = o.as_node_mut() {
        return node_ed(n, e);
    }
    if let Some(n) = o.as_way_mut() {
        return way_ed(n, e);
    }
    if let Some(n) = o.as_relation_mut() {
        return rel_ed(n, e);
    }
    Err("the object has no typed view".into())
}
fn model(m: &mut MObj, e: &Ed) {
    match e {
        Ed::Id(v) => m.id = *v,
        Ed::Version(v) => m.version = *v,
        Ed::Deleted(v) => m.deleted = *v,
        Ed::Changeset(v) => m.changeset = *v,
        Ed::Time(v) => m.ts = v.clone(),
        Ed::Uid(v) => m.uid = *v,
        Ed::User(v) => m.user = v.map(|s| s.to_string()),
        Ed::LongUser(n) => m.user = Some(text_of(*n)),
        Ed::LongRole(l) if m.kind == K::R => m.members = vec![(K::N, 1, "first".into()), (K::W, 2, text_of(*l)), (K::R, 3, "last".into())],
        Ed::Set(k, v) => match m.tags.iter_mut().find(|t| t.0 == *k) {
            Some(t) => t.1 = v.clone(),
            None => m.tags.push((k.clone(), v.clone())),
        },
        Ed::Unset(k) => m.tags.retain(|t| t.0 != *k),
        Ed::Strip => {
            m.uid = None;
            m.user = None;
            m.changeset = None;
        }
        Ed::Pos(p) if m.kind == K::N => m.pos = *p,
        Ed::PosF64(a, b) if m.kind == K::N && fits(*a) && fits(*b) => m.pos = Some(((a * 1e7).round() as i32, (b * 1e7).round() as i32)),
        Ed::PosF32(a, b) if m.kind == K::N && fits(*a as f64) && fits(*b as f64) => m.pos = Some(((*a as f64 * 1e7).round() as i32, (*b as f64 * 1e7).round() as i32)),
        Ed::PosNoneF64 | Ed::UnsetPos if m.kind == K::N => m.pos = None,
        Ed::Nodes(v) if m.kind == K::W => m.nodes = v.clone(),
        Ed::Members(v) if m.kind == K::R => m.members = v.iter().map(|(t, i, r)| (*t, *i, r.to_string())).collect(),
        _ => {}
    }
}
fn alphabet(k: K) -> Vec<Ed> {
    let mut v = vec![
        Ed::Set("a".into(), "1".into()),
        Ed::Set("b".into(), "2".into()),
        Ed::Set("a".into(), "".into()),
        Ed::Unset("a".into()),
        Ed::Unset("b".into()),
        Ed::Strip,
        Ed::User(Some("ann")),
        Ed::User(None),
        Ed::Uid(Some(7)),
        Ed::Uid(None),
        Ed::Changeset(Some(9)),
        Ed::Version(Some(3)),
        Ed::Version(None),
        Ed::Deleted(true),
        Ed::Deleted(false),
        Ed::Time(Some(Ts::Iso("2020-01-01T00:00:00Z".into()))),
        Ed::Time(None),
        Ed::Id(-5),
    ];
    v.extend(match k {
        K::N => vec![Ed::Pos(Some((1, -2))), Ed::PosF64(1.5, -0.25), Ed::PosF64(f64::NAN, 0.0), Ed::UnsetPos],
        K::W => vec![Ed::Nodes(vec![1, 2, 1]), Ed::Nodes(vec![])],
        K::R => vec![Ed::Members(vec![(K::W, 1, "x"), (K::N, 1, "")]), Ed::Members(vec![])],
    });
    v
}
fn values(k: K) -> Vec<Ed> {
    let mut v = vec![];
    v.extend([0, 1, -1, i64::MAX, i64::MIN, 1 << 40].map(Ed::Id));
    for x in [None, Some(0), Some(1), Some(2), Some(u32::MAX), Some(1 << 31)] {
        v.push(Ed::Version(x));
        v.push(Ed::Changeset(x));
        v.push(Ed::Uid(x));
    }
    v.extend([true, false].map(Ed::Deleted));
    for t in [None, Some(Ts::Epoch(0)), Some(Ts::Epoch(-5)), Some(Ts::Epoch(1 << 33)), Some(Ts::Iso("2020-01-01T00:00:00Z".into())), Some(Ts::Iso("not a date".into())), Some(Ts::Iso("".into()))] {
        v.push(Ed::Time(t));
    }
    for u in [None, Some(""), Some("a"), Some("01234567890123456789012"), Some("012345678901234567890123"), Some("日本語テキスト 😀")] {
        v.push(Ed::User(u));
    }
    for t in ["", "a", "01234567890123456789012", "012345678901234567890123", "é😀", "a b\n\"", "\0"] {
        v.push(Ed::Set(t.into(), "x".into()));
        v.push(Ed::Set("k".into(), t.into()));
        v.push(Ed::Unset(t.into()));
    }
    v.push(Ed::Strip);
    match k {
        K::N => {
            for p in [None, Some((0, 0)), Some((i32::MAX, i32::MIN)), Some((-1, 1))] {
                v.push(Ed::Pos(p));
            }
            for (a, b) in [(0.0, 0.0), (-0.0, 90.0), (1e-7, -1e-7), (214.0, -214.0), (f64::NAN, 1.0), (1.0, f64::NAN), (300.0, 1.0), (1.0, -300.0), (f64::INFINITY, 1.0), (1.0, f64::NEG_INFINITY)] {
                v.push(Ed::PosF64(a, b));
                v.push(Ed::PosF32(a as f32, b as f32));
            }
            v.push(Ed::PosNoneF64);
            v.push(Ed::UnsetPos);
        }
        K::W => {
            for n in [0usize, 1, 2, 5, 6, 7, 8, 100] {
                v.push(Ed::Nodes((0..n as i64).map(|x| x * x - 20).collect()));
            }
            v.push(Ed::Nodes(vec![1, 1, 1, 1]));
        }
        K::R => {
            v.push(Ed::Members(vec![]));
            v.push(Ed::Members(vec![(K::N, 1, ""), (K::N, 1, ""), (K::W, i64::MIN, "日本語 and a long role, longer than 24 bytes")]));
            v.push(Ed::Members(KINDS.iter().cycle().take(50).enumerate().map(|(i, k)| (*k, i as i64, "m")).collect()));
        }
    }
    v
}
fn blank(fam: Fam, k: K) -> Obj {
    let m = MObj::new(k, 1);
    match fam {
        Fam::S => Obj::S(blank_string(k, 1)),
        Fam::A => Obj::A(arc_obj(&m)),
        Fam::R => Obj::R(rc_obj(&m)),
    }
}
#[derive(Clone, PartialEq, Debug)]
enum Obj {
    S(StringOSMObj),
    A(ArcOSMObj),
    R(RcOSMObj),
}
impl Obj {
    fn apply(&mut self, e: &Ed, view: bool) -> Result<(), String> {
        match self {
            Obj::S(o) => apply(o, e, view),
            Obj::A(o) => apply(o, e, view),
            Obj::R(o) => apply(o, e, view),
        }
    }
    fn check(&self, m: &MObj) -> Result<(), String> {
        match self {
            Obj::S(o) => check_obj(o, m),
            Obj::A(o) => check_obj(o, m),
            Obj::R(o) => check_obj(o, m),
        }
    }
}
/// One timestamp is text that is no date, the other is not: the properties do not say how they compare.
fn incomparable(a: &MObj, b: &MObj) -> bool {
    let odd = |t: &Option<Ts>| t.as_ref().map(|t| t.epoch().is_none());
    matches!((odd(&a.ts), odd(&b.ts)), (Some(x), Some(y)) if x != y)
}
fn run_edits(cx: &mut Cx, fam: Fam, k: K, eds: &[Ed], view: bool, every: bool) -> Result<(Obj, MObj), Fail> {
    let mut o = blank(fam, k);
    let mut m = MObj::new(k, 1);
    for (i, e) in eds.iter().enumerate() {
        let say = |s: String| Fail::from(format!("{fam:?} {k:?} after edits {:?} (through typed view: {view}): {s}", &eds[..=i]));
        let old = o.clone();
        let om = m.clone();
        o.apply(e, view).map_err(say)?;
        model(&mut m, e);
        cx.steps(1);
        if every || i + 1 == eds.len() {
            o.check(&m).map_err(say)?;
            old.check(&om).map_err(|s| say(format!("a clone made before the last edit changed: {s}")))?;
            // equal exactly when the fields are (text that is no date has no place among the instants)
            let same = om.instants() == m.instants();
            if incomparable(&om, &m) {
                continue;
            }
            if (o == old) != same || (old != o) == same {
                return Err(say(format!("comparison with the object before the last edit says {}, fields equal: {same}", o == old)));
            }
            #[allow(clippy::eq_op)]
            if o != o.clone() {
                return Err(say("the object does not equal its clone".into()));
            }
        }
    }
    cx.state(&(fam, m.clone()));
    Ok((o, m))
}
fn tag_alpha() -> Vec<Ed> {
    let mut v = vec![];
    for k in ["a", "b", "cc"] {
        v.push(Ed::Set(k.into(), "1".into()));
        v.push(Ed::Set(k.into(), "2".into()));
        v.push(Ed::Unset(k.into()));
    }
    v
}
/// Many tag keys alone, or a few with all the other fields.
fn closure_alpha(k: K, tags_only: usize, thorough: bool) -> Vec<Ed> {
    let mut v = vec![];
    let nkeys = if tags_only > 0 { tags_only } else if thorough { 3 } else { 2 };
    for key in &["a", "b", "", "a key longer than the inline size"][..nkeys] {
        for val in ["1", ""] {
            v.push(Ed::Set((*key).into(), val.into()));
        }
        v.push(Ed::Unset((*key).into()));
    }
    if tags_only > 0 {
        return v;
    }
    v.extend([Ed::Strip, Ed::User(Some("ann")), Ed::User(None), Ed::Uid(Some(7)), Ed::Uid(None), Ed::Changeset(Some(9)), Ed::Changeset(None)]);
    v.extend([Ed::Version(Some(3)), Ed::Version(None), Ed::Deleted(true), Ed::Deleted(false), Ed::Time(Some(Ts::Epoch(5))), Ed::Time(None), Ed::Id(-5), Ed::Id(1)]);
    v.extend(match k {
        K::N => vec![Ed::Pos(Some((1, -2))), Ed::PosF64(1.5, -0.25), Ed::PosF64(f64::NAN, 0.0), Ed::PosF64(1.0, 500.0), Ed::UnsetPos],
        K::W => vec![Ed::Nodes(vec![1, 2, 1]), Ed::Nodes(vec![]), Ed::Nodes((1..9).collect())],
        K::R => vec![Ed::Members(vec![(K::W, 1, "x"), (K::N, 1, "")]), Ed::Members(vec![]), Ed::Members(vec![(K::R, 3, "y")])],
    });
    v
}
/// Breadth-first search over the real object's states (everything its debug form shows).
fn closure(cx: &mut Cx, fam: Fam, k: K, a: &[Ed], view: bool) -> Res {
    use std::collections::{HashMap, VecDeque};
    use std::hash::{Hash, Hasher};
    let key = |o: &Obj| {
        let mut h = std::hash::DefaultHasher::new();
        format!("{o:?}").hash(&mut h);
        h.finish()
    };
    let o = blank(fam, k);
    // state -> (state before, edit)
    let mut seen: HashMap<u64, (u64, usize)> = HashMap::from([(key(&o), (0, usize::MAX))]);
    let mut todo = VecDeque::from([(o, MObj::new(k, 1))]);
    while let Some((o, m)) = todo.pop_front() {
        let at = key(&o);
        for (i, e) in a.iter().enumerate() {
            let (mut p, mut pm) = (o.clone(), m.clone());
            let r = p.apply(e, view).and_then(|()| {
                model(&mut pm, e);
                p.check(&pm)?;
                o.check(&m).map_err(|s| format!("a clone made before the last edit changed: {s}"))?;
                let same = m.instants() == pm.instants();
                if (o == p) != same || (p != o) == same {
                    return Err(format!("comparison with the object before the last edit says {}, fields equal: {same}", o == p));
                }
                Ok(())
            });
            cx.inner += 1;
            cx.steps(1);
            if let Err(s) = r {
                let mut h = vec![e];
                let mut x = at;
                while let Some((b, i)) = seen.get(&x) {
                    if *i == usize::MAX {
                        break;
                    }
                    h.push(&a[*i]);
                    x = *b;
                }
                h.reverse();
                return Err(format!("{fam:?} {k:?} after edits {h:?} (through typed view: {view}): {s}").into());
            }
            let n = key(&p);
            if let std::collections::hash_map::Entry::Vacant(v) = seen.entry(n) {
                v.insert((at, i));
                cx.state(&n);
                todo.push_back((p, pm));
            }
        }
        if seen.len() > 2_000_000 {
            return Err(format!("{fam:?} {k:?}: the states of an object do not end ({} reached)", seen.len()).into());
        }
    }
    Ok(())
}
pub fn c16(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    for fam in FAMS {
        v.push(sc(&format!("closure-{fam:?}"), 0, move |ch, cx| {
            // every state reachable with a finite alphabet of edits, by histories of any length
            let k = *ch.of(&KINDS);
            let view = ch.flag();
            let a = closure_alpha(k, if ch.flag() { 4 } else { 0 }, thorough);
            closure(cx, fam, k, &a, view)
        }));
        v.push(sc(&format!("tag-histories-{fam:?}"), 0, move |ch, cx| {
            let k = *ch.of(&KINDS);
            let view = ch.flag();
            let a = tag_alpha();
            let d = if thorough { 6 } else { 5 };
            let eds: Vec<Ed> = (0..d).map(|_| ch.of(&a).clone()).collect();
            run_edits(cx, fam, k, &eds, view, true).map(|_| ())
        }));
        v.push(sc(&format!("edit-histories-{fam:?}"), 0, move |ch, cx| {
            let k = *ch.of(&KINDS);
            let view = ch.flag();
            let a = alphabet(k);
            let d = if thorough { 4 } else { 3 };
            let eds: Vec<Ed> = (0..d).map(|_| ch.of(&a).clone()).collect();
            run_edits(cx, fam, k, &eds, view, true).map(|_| ())
        }));
        v.push(sc(&format!("values-{fam:?}"), 0, move |ch, cx| {
            let k = *ch.of(&KINDS);
            let view = ch.flag();
            let a = values(k);
            let d = if thorough { 3 } else { 2 };
            let eds: Vec<Ed> = (0..d).map(|_| ch.of(&a).clone()).collect();
            run_edits(cx, fam, k, &eds, view, true).map(|_| ())
        }));
        v.push(sc(&format!("full-objects-{fam:?}"), 0, move |ch, cx| {
            // two edits of an object with every field set
            let k = *ch.of(&KINDS);
            let mut m = xfull(k, 5);
            m.tags = vec![("a".into(), "1".into()), ("b".into(), "2".into()), ("area".into(), "no".into())];
            let mut o = match fam {
                Fam::S => Obj::S(to_string_obj(&m)),
                Fam::A => Obj::A(arc_obj(&m)),
                Fam::R => Obj::R(rc_obj(&m)),
            };
            o.check(&m)?;
            let mut eds = vec![];
            let a = [alphabet(k), values(k)].concat();
            for _ in 0..2 {
                let e = ch.of(&a).clone();
                let before = o.clone();
                let bm = m.clone();
                o.apply(&e, ch_view(&e))?;
                model(&mut m, &e);
                eds.push(e);
                cx.steps(1);
                o.check(&m).map_err(|e| format!("{fam:?} full {k:?} after {eds:?}: {e}"))?;
                if !incomparable(&bm, &m) && (o == before) != (bm.instants() == m.instants()) {
                    return Err(format!("{fam:?} full {k:?} after {eds:?}: compares {} with the object before the last edit", if o == before { "equal" } else { "unequal" }).into());
                }
            }
            cx.state(&m);
            Ok(())
        }));
        v.push(sc(&format!("many-tags-{fam:?}"), 0, move |ch, cx| {
            let k = *ch.of(&KINDS);
            let n = *ch.of(&[2usize, 7, 8, 9, 16, 33, 100]);
            let mut eds: Vec<Ed> = (0..n).map(|i| Ed::Set(format!("key{i}"), format!("v{i}"))).collect();
            let i = *ch.of(&[0, 1, n / 2, n - 1]);
            let j = *ch.of(&[0, 1, n / 2, n - 1, n]);
            let x = ch.pick(4);
            eds.push(if x % 2 == 0 { Ed::Unset(format!("key{i}")) } else { Ed::Set(format!("key{i}"), "new".into()) });
            eds.push(if x / 2 == 0 { Ed::Unset(format!("key{j}")) } else { Ed::Set(format!("key{j}"), "newer".into()) });
            if ch.flag() {
                // remove everything
                eds.extend((0..=n).map(|i| Ed::Unset(format!("key{i}"))));
            }
            run_edits(cx, fam, k, &eds, ch.flag(), false).map(|_| ())
        }));
        v.push(sc(&format!("similar-keys-{fam:?}"), 0, move |ch, cx| {
            // keys which are different but easily taken for each other
            const KEYS: &[&str] = &["a", "A", "ab", " a", "a ", "á", "a\u{301}", "", "\0", "a:b"];
            let k = *ch.of(&KINDS);
            let n = if thorough { 5 } else { 4 };
            let view = k == K::W;
            let mut eds: Vec<Ed> = (0..n - 1).map(|i| Ed::Set(ch.of(if i < 3 { KEYS } else { &KEYS[..4] }).to_string(), format!("{i}"))).collect();
            eds.push(Ed::Unset(ch.of(KEYS).to_string()));
            run_edits(cx, fam, k, &eds, view, false).map(|_| ())
        }));
        v.push(sc(&format!("text-lengths-{fam:?}"), 0, move |ch, cx| {
            let k = *ch.of(&KINDS);
            let view = ch.flag();
            let max = if thorough { 1100 } else { 300 };
            let more = [511usize, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65_535, 65_536, 65_537];
            let i = ch.pick(max + more.len());
            let n = if i < max { i } else { more[i - max] };
            let t = text_of(n);
            let mut eds = vec![Ed::LongUser(n), Ed::Set(t.clone(), "v".into()), Ed::Set("k".into(), t.clone()), Ed::Set(t.clone() + "x", t.clone()), Ed::LongRole(n)];
            if k != K::R {
                eds.pop();
            }
            eds.push(Ed::Unset(t));
            run_edits(cx, fam, k, &eds, view, true).map(|_| ())
        }));
        v.push(sc(&format!("list-sizes-{fam:?}"), 0, move |ch, cx| {
            // lists which replace one another
            let k = *ch.of(&[K::W, K::R]);
            let ns: &[usize] = if thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1999, 2000, 2001, 5000, 70_000] } else { &[0, 1, 2, 3, 5, 6, 7, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 257, 2000, 2001, 70_000] };
            let eds: Vec<Ed> = (0..2)
                .map(|j| {
                    let n = *ch.of(ns);
                    match k {
                        K::W => Ed::Nodes((0..n as i64).map(|i| i / 2 * (1 - 2 * j)).collect()),
                        _ => Ed::Members((0..n as i64).map(|i| (KINDS[(i + j) as usize % 3], i / 2 * (1 - 2 * j), ["", "a", "b"][i as usize / 2 % 3])).collect()),
                    }
                })
                .collect();
            run_edits(cx, fam, k, &eds, ch.flag(), false).map(|_| ())
        }));
        v.push(sc(&format!("equality-{fam:?}"), 0, move |ch, cx| {
            // all pairs of short histories
            let (k1, k2) = (*ch.of(&KINDS), *ch.of(&KINDS));
            let (a1, a2) = (alphabet(k1), alphabet(k2));
            let d = 2;
            let same_kind = k1 == k2;
            let e1: Vec<Ed> = (0..d).map(|_| ch.of(&a1).clone()).collect();
            let e2: Vec<Ed> = (0..if same_kind { d } else { 1 }).map(|_| ch.of(&a2).clone()).collect();
            let (o1, m1) = build(fam, k1, &e1)?;
            let (o2, m2) = build(fam, k2, &e2)?;
            cx.steps(4);
            let want = m1.instants() == m2.instants();
            if (o1 == o2) != want || (o2 == o1) != want || (o1 != o2) == want {
                return Err(format!("{fam:?} objects after {e1:?} and {e2:?}: compare {}, fields are {}", if o1 == o2 { "equal" } else { "unequal" }, if want { "equal" } else { "unequal" }).into());
            }
            Ok(())
        }));
    }
    v.push(sc("builders", 0, move |ch, cx| {
        // the string family's builders set exactly the fields given
        let k = *ch.of(&KINDS);
        let mask = ch.pick(1 << 9);
        let f = MObj { tags: vec![("a".into(), "b".into()), ("c".into(), "".into())], ..xfull(k, 77) };
        let mut m = MObj::new(k, 77);
        macro_rules! common {
            ($b:ident) => {{
                $b._id(77);
                if mask & 1 != 0 {
                    $b._version(f.version.unwrap());
                    m.version = f.version;
                }
                if mask & 2 != 0 {
                    $b._deleted(true);
                    m.deleted = true;
                }
                if mask & 4 != 0 {
                    $b._changeset_id(f.changeset.unwrap());
                    m.changeset = f.changeset;
                }
                if mask & 8 != 0 {
                    $b._timestamp(f.ts.as_ref().unwrap().to());
                    m.ts = f.ts.clone();
                }
                if mask & 16 != 0 {
                    $b._uid(f.uid.unwrap());
                    m.uid = f.uid;
                }
                if mask & 32 != 0 {
                    $b._user(f.user.clone().unwrap().into());
                    m.user = f.user.clone();
                }
                if mask & 64 != 0 {
                    $b._tags(f.tags.iter().map(|(k, v)| (k.as_str().into(), v.as_str().into())).collect());
                    m.tags = f.tags.clone();
                }
            }};
        }
        let o: StringOSMObj = match k {
            K::N => {
                let mut b = StringNodeBuilder::default();
                common!(b);
                if mask & 128 != 0 {
                    b._lat_lon((Lat::from_inner(5), Lon::from_inner(-6)));
                    m.pos = Some((5, -6));
                }
                b.build().map_err(|e| format!("{e:?}"))?.into()
            }
            K::W => {
                let mut b = StringWayBuilder::default();
                common!(b);
                if mask & 128 != 0 {
                    b._nodes(f.nodes.iter().copied().collect());
                    m.nodes = f.nodes.clone();
                }
                b.build().map_err(|e| format!("{e:?}"))?.into()
            }
            K::R => {
                let mut b = StringRelationBuilder::default();
                common!(b);
                if mask & 128 != 0 {
                    b._members(f.members.iter().map(|(t, i, r)| (t.ty(), *i, r.as_str().into())).collect());
                    m.members = f.members.clone();
                }
                b.build().map_err(|e| format!("{e:?}"))?.into()
            }
        };
        cx.steps(1);
        cx.state(&m);
        check_obj(&o, &m).map_err(|e| format!("builder, fields {mask:b}: {e}").into())
    }));
    v
}
fn ch_view(e: &Ed) -> bool {
    matches!(e, Ed::Set(..) | Ed::Strip)
}
fn build(fam: Fam, k: K, eds: &[Ed]) -> Result<(Obj, MObj), Fail> {
    let mut o = blank(fam, k);
    let mut m = MObj::new(k, 1);
    for e in eds {
        o.apply(e, false)?;
        model(&mut m, e);
    }
    Ok((o, m))
}

// ------------------------------------------------------------------ C17
fn convert_arc(o: ArcOSMObj, m: &MObj) -> Result<(), String> {
    check_obj(&o, m).map_err(|e| format!("before the conversion: {e}"))?;
    match o.clone() {
        ArcOSMObj::Node(n) => check_node(&StringNode::from(n), m),
        ArcOSMObj::Way(n) => check_way(&StringWay::from(n), m),
        ArcOSMObj::Relation(n) => check_rel(&StringRelation::from(n), m),
    }
    .map_err(|e| format!("typed conversion: {e}"))?;
    let s: StringOSMObj = o.into();
    check_obj(&s, m)?;
    if s != to_string_obj(m) {
        return Err(format!("the converted object does not equal an owned one with the same fields: {s:?}"));
    }
    Ok(())
}
fn convert_rc(o: RcOSMObj, m: &MObj) -> Result<(), String> {
    check_obj(&o, m).map_err(|e| format!("before the conversion: {e}"))?;
    match o.clone() {
        RcOSMObj::Node(n) => check_node(&StringNode::from(n), m),
        RcOSMObj::Way(n) => check_way(&StringWay::from(n), m),
        RcOSMObj::Relation(n) => check_rel(&StringRelation::from(n), m),
    }
    .map_err(|e| format!("typed conversion: {e}"))?;
    let s: StringOSMObj = o.into();
    check_obj(&s, m)?;
    if s != to_string_obj(m) {
        return Err(format!("the converted object does not equal an owned one with the same fields: {s:?}"));
    }
    Ok(())
}
fn conv(cx: &mut Cx, m: &MObj) -> Res {
    cx.steps(4);
    cx.state(m);
    convert_arc(arc_obj(m), m).map_err(|e| format!("ArcOSMObj {m:?}: {e}"))?;
    convert_rc(rc_obj(m), m).map_err(|e| format!("RcOSMObj {m:?}: {e}"))?;
    Ok(())
}
fn with(k: K, eds: &[Ed]) -> MObj {
    let mut m = MObj::new(k, 1);
    eds.iter().for_each(|e| model(&mut m, e));
    m
}
pub fn c17(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(sc("fields", 0, move |ch, cx| {
        let k = *ch.of(&KINDS);
        let a = [alphabet(k), values(k)].concat();
        let d = if thorough { 3 } else { 2 };
        let eds: Vec<Ed> = (0..d).map(|_| ch.of(&a).clone()).collect();
        conv(cx, &with(k, &eds))
    }));
    v.push(sc("words", 0, move |ch, cx| {
        let (w, x) = (*ch.of(WORDS), *ch.of(WVALS));
        for m in word_objs(w, x) {
            conv(cx, &m)?;
        }
        Ok(())
    }));
    v.push(sc("presence", 0, move |ch, cx| {
        // every combination of present and absent fields
        let k = *ch.of(&KINDS);
        let mut m = if ch.flag() { MObj::full(k, 9) } else { xfull(k, -7) };
        let mask = ch.pick(128);
        if mask & 1 != 0 {
            m.version = None;
        }
        if mask & 2 != 0 {
            m.changeset = None;
        }
        if mask & 4 != 0 {
            m.ts = None;
        }
        if mask & 8 != 0 {
            m.uid = None;
        }
        if mask & 16 != 0 {
            m.user = None;
        }
        if mask & 32 != 0 {
            m.pos = None;
            m.nodes.clear();
            m.members.clear();
        }
        m.deleted = mask & 64 != 0;
        let n = ch.pick(4);
        m.tags = (0..n).map(|i| (format!("k{}", (7 - i) % 5), format!("v{i}"))).collect();
        conv(cx, &m)
    }));
    v.push(sc("combinations", 0, move |ch, cx| conv(cx, &crate::c_xml::combination(ch, 3))));
    v.push(sc("edited", 0, move |ch, cx| {
        // objects with a history of edits
        let k = *ch.of(&KINDS);
        let a = tag_alpha();
        let eds: Vec<Ed> = (0..if thorough { 5 } else { 4 }).map(|_| ch.of(&a).clone()).collect();
        let fam = if ch.flag() { Fam::A } else { Fam::R };
        let (o, m) = build(fam, k, &eds)?;
        cx.steps(2);
        match o {
            Obj::A(o) => convert_arc(o, &m),
            Obj::R(o) => convert_rc(o, &m),
            _ => unreachable!(),
        }
        .map_err(|e| format!("{fam:?} {k:?} after {eds:?}: {e}").into())
    }));
    v.push(sc("sizes", 0, move |ch, cx| {
        let k = *ch.of(&KINDS);
        let n = *ch.of(&[0usize, 1, 2, 5, 6, 7, 8, 9, 100, 2000]);
        let t = *ch.of(&[0usize, 1, 2, 3, 8, 50]);
        let mut m = MObj::full(k, 3);
        m.tags = (0..t).map(|i| (format!("key {}", t - i), format!("{i}").repeat(i))).collect();
        m.nodes.clear();
        m.members.clear();
        match k {
            K::W => m.nodes = (0..n as i64).map(|i| (i * 37) % 101 - 7).collect(),
            K::R => m.members = (0..n as i64).map(|i| (KINDS[(i % 3) as usize], i * 5 - 3, format!("r{}", i % 4))).collect(),
            _ => {}
        }
        conv(cx, &m)
    }));
    v.push(sc("read-from-pbf", 1, move |ch, cx| {
        // shared objects as the reader makes them
        let objs = crate::c_pbf::dataset(ch.pick(5));
        let (bytes, desc) = crate::c_pbf::package(ch, &objs);
        let want = Block::of(groups_of(&objs)).expect();
        let mut r = osmio::arcpbf::PBFReader::new(&bytes[..]);
        let mut n = 0;
        while let Some(o) = OSMReader::next(&mut r) {
            cx.steps(1);
            convert_arc(o, &want[n]).map_err(|e| format!("object {n} of {desc}: {e}"))?;
            n += 1;
        }
        if n != want.len() {
            return Err(format!("{n} objects of {}", want.len()).into());
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------ C18
fn check_shape<W: Way>(w: &W, m: &MObj) -> Result<(), String> {
    let closed = !m.nodes.is_empty() && m.nodes[0] == m.nodes[m.nodes.len() - 1];
    let no = m.tags.iter().any(|t| t.0 == "area" && t.1 == "no");
    let area = closed && !no;
    if w.is_closed() != closed || w.is_area() != area {
        return Err(format!("nodes {:?} tags {:?}: is_closed() {} (expected {closed}), is_area() {} (expected {area})", short_list(&m.nodes), m.tags, w.is_closed(), w.is_area()));
    }
    Ok(())
}
fn short_list(v: &[i64]) -> String {
    if v.len() > 12 { format!("{:?}..({})..{:?}", &v[..6], v.len(), &v[v.len() - 3..]) } else { format!("{v:?}") }
}
fn shapes(cx: &mut Cx, m: &MObj) -> Res {
    cx.steps(6);
    cx.state(&(m.nodes.clone(), m.tags.clone()));
    let s = to_string_obj(m);
    check_shape(s.as_way().unwrap(), m).map_err(|e| format!("StringWay: {e}"))?;
    let a = arc_obj(m);
    check_shape(a.as_way().unwrap(), m).map_err(|e| format!("ArcWay: {e}"))?;
    let r = rc_obj(m);
    check_shape(r.as_way().unwrap(), m).map_err(|e| format!("RcWay: {e}"))?;
    check_shape(&StringWay::from(a.into_way().unwrap()), m).map_err(|e| format!("StringWay from ArcWay: {e}"))?;
    check_shape(&StringWay::from(r.into_way().unwrap()), m).map_err(|e| format!("StringWay from RcWay: {e}"))?;
    Ok(())
}
const AREAS: &[&str] = &["no", "yes", "", "No", "NO", "no ", " no", "n", "non", "false", "0", "nо", "no;yes", "highway"];
pub fn c18(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(sc("nodes", 0, move |ch, cx| {
        let n = ch.pick(if thorough { 8 } else { 7 });
        let mut m = MObj::new(K::W, 1);
        m.nodes = (0..n).map(|_| *ch.of(&[1i64, 2, -1])).collect();
        m.tags = match ch.pick(4) {
            0 => vec![],
            1 => vec![("area".into(), "no".into())],
            2 => vec![("area".into(), "yes".into())],
            _ => vec![("highway".into(), "no".into())],
        };
        shapes(cx, &m)
    }));
    v.push(sc("node-ids", 0, move |ch, cx| {
        // ids that agree in many bits
        let ids = [0i64, 1, -1, 1 << 32, (1 << 32) + 1, 1 << 31, i64::MAX, i64::MIN, 257, 1 << 53, (1 << 53) + 1];
        let (a, b) = (*ch.of(&ids), *ch.of(&ids));
        let mut m = MObj::new(K::W, 1);
        m.nodes = match ch.pick(4) {
            0 => vec![a],
            1 => vec![a, b],
            2 => vec![a, 5, b],
            _ => vec![a, b, a, b],
        };
        shapes(cx, &m)
    }));
    v.push(sc("tags", 0, move |ch, cx| {
        let keys = ["area", "Area", "area ", "area:highway", "", "are", "areas", "highway", "building"];
        let mut m = MObj::new(K::W, 1);
        m.nodes = [vec![1, 2, 3, 1], vec![1, 2, 3], vec![4], vec![], vec![1, 1]][ch.pick(5)].clone();
        for _ in 0..ch.pick(4) {
            let k = *ch.of(&keys);
            let val = if m.tags.is_empty() { *ch.of(AREAS) } else { *ch.of(&AREAS[..2]) };
            if m.tag(k).is_some() {
                return Ok(());
            }
            m.tags.push((k.into(), val.into()));
        }
        shapes(cx, &m)
    }));
    v.push(sc("words", 0, move |ch, cx| {
        // no other tag matters
        let mut m = MObj::new(K::W, 1);
        m.nodes = [vec![1, 2, 3, 1], vec![1, 2, 3], vec![], vec![1, 1]][ch.pick(4)].clone();
        let k = *ch.of(WORDS);
        m.tags = vec![(k.into(), (*ch.of(&["no", "yes", "*", "multipolygon"])).into())];
        if k != "area" {
            match ch.pick(3) {
                0 => {}
                1 => m.tags.push(("area".into(), "no".into())),
                _ => m.tags.insert(0, ("area".into(), (*ch.of(WORDS)).into())),
            }
        }
        shapes(cx, &m)
    }));
    v.push(sc("area-text", 0, move |ch, cx| {
        // every short text of the area tag
        let al = ['n', 'o', 'N', 'O', ' ', 'y', 'e', 's', '\0', 'о'];
        let t: String = (0..ch.pick(if thorough { 6 } else { 5 })).map(|_| *ch.of(&al)).collect();
        let mut m = MObj::new(K::W, 1);
        m.nodes = vec![7, 8, 7];
        m.tags = vec![("x".into(), "no".into()), ("area".into(), t)];
        if ch.flag() {
            m.tags.reverse();
        }
        shapes(cx, &m)
    }));
    v.push(sc("affixes", 0, move |ch, cx| {
        // "no" with any one character of the first planes before, in or after it, as value and as key
        let at = ch.pick(5);
        let b = ch.pick(if thorough { 0x1100 } else { 0x200 }) as u32;
        for x in 0..256 {
            let Some(c) = char::from_u32(b * 256 + x) else { continue };
            let mut m = MObj::new(K::W, 1);
            m.nodes = vec![7, 8, 7];
            m.tags = vec![match at {
                0 => ("area".into(), format!("no{c}")),
                1 => ("area".into(), format!("{c}no")),
                2 => ("area".into(), format!("n{c}o")),
                3 => (format!("area{c}"), "no".into()),
                _ => (format!("{c}area"), "no".into()),
            }];
            cx.inner += 1;
            shapes(cx, &m)?;
        }
        Ok(())
    }));
    v.push(sc("long", 0, move |ch, cx| {
        let n = *ch.of(&[2usize, 5, 6, 7, 8, 100, 2000, 5000]);
        let mut m = MObj::new(K::W, 1);
        m.nodes = (1..=n as i64).collect();
        match ch.pick(4) {
            0 => {}
            1 => m.nodes.push(1),
            2 => m.nodes.push(2),
            _ => {
                m.nodes[n - 1] = 1;
            }
        }
        m.tags = vec![("area".into(), AREAS[ch.pick(3)].into())];
        shapes(cx, &m)
    }));
    v.push(sc("edited", 0, move |ch, cx| {
        // the answer follows every edit
        let fam = *ch.of(&FAMS);
        let al = [Ed::Nodes(vec![1, 2, 1]), Ed::Nodes(vec![1, 2]), Ed::Nodes(vec![]), Ed::Set("area".into(), "no".into()), Ed::Set("area".into(), "yes".into()), Ed::Unset("area".into()), Ed::Set("b".into(), "no".into())];
        let mut o = blank(fam, K::W);
        let mut m = MObj::new(K::W, 1);
        let mut eds = vec![];
        for _ in 0..if thorough { 5 } else { 4 } {
            let e = ch.of(&al).clone();
            o.apply(&e, false)?;
            model(&mut m, &e);
            eds.push(e);
            cx.steps(1);
            match &o {
                Obj::S(o) => check_shape(o.as_way().unwrap(), &m),
                Obj::A(o) => check_shape(o.as_way().unwrap(), &m),
                Obj::R(o) => check_shape(o.as_way().unwrap(), &m),
            }
            .map_err(|e| format!("{fam:?} after {eds:?}: {e}"))?;
        }
        Ok(())
    }));
    v.push(sc("read", 0, move |ch, cx| {
        // ways as the readers make them
        let n = ch.pick(5);
        let mut m = xfull(K::W, 5);
        m.nodes = (0..n).map(|_| *ch.of(&[10i64, 11])).collect();
        m.tags = [vec![], vec![("area", "no")], vec![("area", "yes")], vec![("name", "no"), ("area", "no")], vec![("area", "NO")]][ch.pick(5)].iter().map(|t| (t.0.to_string(), t.1.to_string())).collect();
        cx.steps(4);
        let doc = xml_doc(std::slice::from_ref(&m), &Style::default()).bytes;
        let o = osmio::xml::XMLReader::new(&doc[..]).next().ok_or("no way read from XML")?;
        check_shape(o.as_way().ok_or("not a way")?, &m).map_err(|e| format!("read from XML: {e}"))?;
        let doc = osc_doc(&[(Sec::Create, vec![m.clone()])], &Style::default()).bytes;
        let o = osmio::osc::OSCReader::new(&doc[..]).next().ok_or("no way read from a change file")?;
        check_shape(o.as_way().ok_or("not a way")?, &m).map_err(|e| format!("read from a change file: {e}"))?;
        let p = PObj::of(&m);
        let f = file(&[Block::of(vec![one_group(vec![p])])]);
        let o = OSMReader::next(&mut osmio::stringpbf::PBFReader::new(&f[..])).ok_or("no way read from PBF")?;
        check_shape(o.as_way().ok_or("not a way")?, &m).map_err(|e| format!("read from PBF: {e}"))?;
        let o = OSMReader::next(&mut osmio::arcpbf::PBFReader::new(&f[..])).ok_or("no way read from PBF (arc)")?;
        check_shape(o.as_way().ok_or("not a way")?, &m).map_err(|e| format!("read from PBF (arc): {e}"))?;
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------ C19
/// A strict JSON object of strings, in the order written.
pub fn json_strings(s: &str) -> Result<Vec<(String, String)>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut p = 0;
    let ws = |p: &mut usize| {
        while *p < c.len() && matches!(c[*p], ' ' | '\t' | '\n' | '\r') {
            *p += 1;
        }
    };
    let want = |p: &mut usize, x: char| -> Result<(), String> {
        if c.get(*p) == Some(&x) {
            *p += 1;
            Ok(())
        } else {
            Err(format!("{x:?} expected at {p}, found {:?}", c.get(*p)))
        }
    };
    let hex4 = |p: &mut usize| -> Result<u32, String> {
        let t: String = c.get(*p..*p + 4).ok_or("short escape")?.iter().collect();
        if !t.chars().all(|x| x.is_ascii_hexdigit()) {
            return Err(format!("bad escape \\u{t}"));
        }
        *p += 4;
        Ok(u32::from_str_radix(&t, 16).unwrap())
    };
    let string = |p: &mut usize| -> Result<String, String> {
        want(p, '"')?;
        let mut out = String::new();
        loop {
            let x = *c.get(*p).ok_or("unterminated string")?;
            *p += 1;
            match x {
                '"' => return Ok(out),
                '\\' => {
                    let e = *c.get(*p).ok_or("unterminated escape")?;
                    *p += 1;
                    out.push(match e {
                        '"' | '\\' | '/' => e,
                        'b' => '\u{8}',
                        'f' => '\u{c}',
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        'u' => {
                            let a = hex4(p)?;
                            let v = if (0xD800..0xDC00).contains(&a) {
                                want(p, '\\')?;
                                want(p, 'u')?;
                                let b = hex4(p)?;
                                if !(0xDC00..0xE000).contains(&b) {
                                    return Err("bad surrogate pair".into());
                                }
                                0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00)
                            } else {
                                a
                            };
                            char::from_u32(v).ok_or("lone surrogate")?
                        }
                        e => return Err(format!("bad escape \\{e}")),
                    });
                }
                x if (x as u32) < 0x20 => return Err(format!("raw control character {:#x} in a string", x as u32)),
                x => out.push(x),
            }
        }
    };
    let mut out = vec![];
    ws(&mut p);
    want(&mut p, '{')?;
    ws(&mut p);
    if c.get(p) == Some(&'}') {
        p += 1;
    } else {
        loop {
            ws(&mut p);
            let k = string(&mut p)?;
            ws(&mut p);
            want(&mut p, ':')?;
            ws(&mut p);
            let v = string(&mut p)?;
            out.push((k, v));
            ws(&mut p);
            match c.get(p) {
                Some(',') => p += 1,
                Some('}') => {
                    p += 1;
                    break;
                }
                x => return Err(format!("',' or '}}' expected, found {x:?}")),
            }
        }
    }
    ws(&mut p);
    if p != c.len() {
        return Err(format!("text after the object: {:?}", c[p..].iter().take(10).collect::<String>()));
    }
    Ok(out)
}
fn json_ok(s: &str, m: &MObj) -> Result<(), String> {
    let mut got = json_strings(s).map_err(|e| format!("tags {:?} give {s:?}, which is not a JSON object of strings: {e}", m.tags))?;
    let mut want = m.tags.clone();
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("tags {:?} give {s:?}", m.tags));
    }
    if m.tags.is_empty() && s != "{}" {
        return Err(format!("an untagged object gives {s:?}"));
    }
    Ok(())
}
fn no_dups(m: &MObj) -> bool {
    m.tags.iter().enumerate().all(|(i, t)| m.tags[..i].iter().all(|u| u.0 != t.0))
}
fn jsons(cx: &mut Cx, m: &MObj) -> Res {
    cx.steps(3);
    cx.state(&m.tags);
    let s = to_string_obj(m);
    json_ok(&s.tags_json_string(), m).map_err(|e| format!("StringOSMObj: {e}"))?;
    let a = arc_obj(m);
    json_ok(&a.tags_json_string(), m).map_err(|e| format!("ArcOSMObj: {e}"))?;
    let r = rc_obj(m);
    json_ok(&r.tags_json_string(), m).map_err(|e| format!("RcOSMObj: {e}"))?;
    let t = match m.kind {
        K::N => (s.as_node().unwrap().tags_json_string(), a.as_node().unwrap().tags_json_string(), r.as_node().unwrap().tags_json_string()),
        K::W => (s.as_way().unwrap().tags_json_string(), a.as_way().unwrap().tags_json_string(), r.as_way().unwrap().tags_json_string()),
        K::R => (s.as_relation().unwrap().tags_json_string(), a.as_relation().unwrap().tags_json_string(), r.as_relation().unwrap().tags_json_string()),
    };
    for (n, x) in [("String", t.0), ("Arc", t.1), ("Rc", t.2)] {
        json_ok(&x, m).map_err(|e| format!("{n} {:?}: {e}", m.kind))?;
    }
    Ok(())
}
pub fn c19(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(sc("unicode", 0, move |ch, cx| {
        // every character, as key and as value
        let b = ch.pick(0x1100) as u32;
        for x in 0..256 {
            let Some(c) = char::from_u32(b * 256 + x) else { continue };
            let mut m = MObj::new(KINDS[(x % 3) as usize], 1);
            m.tags = vec![(c.to_string(), format!("a{c}b")), (format!("k{c}"), c.to_string())];
            cx.inner += 1;
            jsons(cx, &m)?;
        }
        Ok(())
    }));
    v.push(sc("text", 0, move |ch, cx| {
        let al = ['a', '"', '\\', '/', '\n', '\t', '\r', '\0', '\u{8}', '\u{c}', '\u{1f}', '\u{7f}', 'u', '0', '{', '}', ':', ',', 'é', '😀', '\u{2028}', '\u{ffff}'];
        let t: String = (0..ch.pick(if thorough { 5 } else { 4 })).map(|_| *ch.of(&al)).collect();
        let k = *ch.of(&KINDS);
        let mut m = MObj::new(k, 1);
        m.tags = if ch.flag() { vec![(t, "v".into())] } else { vec![("k".into(), t)] };
        jsons(cx, &m)
    }));
    v.push(sc("tags", 0, move |ch, cx| {
        let k = *ch.of(&KINDS);
        let mut m = MObj::full(k, 1);
        m.tags.clear();
        for _ in 0..ch.pick(if thorough { 5 } else { 4 }) {
            let key = *ch.of(&["b", "a", "", "name", "c\"", "B", "A long key, longer than 24 bytes"]);
            if m.tag(key).is_some() {
                return Ok(());
            }
            m.tags.push((key.into(), (*ch.of(&["1", "", "true", "x\\\"y"])).into()));
        }
        jsons(cx, &m)
    }));
    v.push(sc("words", 0, move |ch, cx| {
        let (w, x) = (*ch.of(WORDS), *ch.of(if thorough { WORDS } else { WVALS }));
        for m in word_objs(w, x).iter().filter(|m| no_dups(m)) {
            jsons(cx, m)?;
        }
        Ok(())
    }));
    v.push(sc("many", 0, move |ch, cx| {
        let k = *ch.of(&KINDS);
        let n = *ch.of(&[0usize, 1, 2, 7, 8, 9, 15, 16, 17, 100, 1000]);
        let len = *ch.of(&[0usize, 1, 22, 23, 24, 255, 5000]);
        let mut m = MObj::new(k, 1);
        m.tags = (0..n).map(|i| (format!("k{}", (i * 7919) % 1009), "é\"".repeat(len))).collect();
        jsons(cx, &m)
    }));
    v.push(sc("edited", 0, move |ch, cx| {
        let fam = *ch.of(&FAMS);
        let k = *ch.of(&KINDS);
        let a = tag_alpha();
        let eds: Vec<Ed> = (0..if thorough { 5 } else { 4 }).map(|_| ch.of(&a).clone()).collect();
        let (o, m) = build(fam, k, &eds)?;
        cx.steps(1);
        let s = match &o {
            Obj::S(o) => o.tags_json_string(),
            Obj::A(o) => o.tags_json_string(),
            Obj::R(o) => o.tags_json_string(),
        };
        json_ok(&s, &m).map_err(|e| format!("{fam:?} {k:?} after {eds:?}: {e}").into())
    }));
    v.push(sc("read", 1, move |ch, cx| {
        // objects as the readers make them
        let rk = *ch.of(&PBFS);
        let objs = crate::c_pbf::dataset(ch.pick(4));
        let (bytes, desc) = crate::c_pbf::package(ch, &objs);
        let want = Block::of(groups_of(&objs)).expect();
        fn go<R: OSMReader>(mut r: R, want: &[MObj], cx: &mut Cx) -> Result<(), String> {
            for m in want {
                let o = r.next().ok_or("the reader ends early")?;
                cx.steps(1);
                json_ok(&o.tags_json_string(), m)?;
            }
            Ok(())
        }
        match rk {
            Rk::Str => go(osmio::stringpbf::PBFReader::new(&bytes[..]), &want, cx),
            _ => go(osmio::arcpbf::PBFReader::new(&bytes[..]), &want, cx),
        }
        .map_err(|e| format!("{rk:?} {desc}: {e}").into())
    }));
    v
}
