//! C05: every history of full and type-filtered iteration against a list with a cursor.
use crate::c_pbf::*;
use crate::c_xml::*;
use crate::engine::*;
use crate::model::*;
use crate::pbfenc::*;
use crate::rd::*;
use crate::xmlgen::*;
use osmio::OSMReader;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Next,
    /// kind filter (None: `objects()`), reader's own method instead of the trait's, how many (None: all)
    It(Option<K>, bool, Option<usize>),
    Sorted(bool),
}
type Got = (Vec<MObj>, bool);

fn take<T>(it: &mut dyn Iterator<Item = T>, n: Option<usize>, f: fn(&T) -> MObj) -> Got {
    let mut v = vec![];
    loop {
        if n == Some(v.len()) {
            return (v, false);
        }
        match it.next() {
            Some(o) => v.push(f(&o)),
            None => {
                // an exhausted iterator stays exhausted
                if it.next().is_some() {
                    panic!("an exhausted iterator delivers another object");
                }
                return (v, true);
            }
        }
        if v.len() > MAX_OBJS {
            livelock("iterator delivers objects without end");
        }
    }
}
trait Hist: OSMReader + Sized {
    fn own(&mut self, k: K, n: Option<usize>) -> Got {
        tr(self, Some(k), n)
    }
}
fn tr<R: OSMReader>(r: &mut R, k: Option<K>, n: Option<usize>) -> Got {
    match k {
        None => take(&mut r.objects(), n, observe),
        Some(K::N) => take(&mut OSMReader::nodes(r), n, observe_node),
        Some(K::W) => take(&mut OSMReader::ways(r), n, observe_way),
        Some(K::R) => take(&mut OSMReader::relations(r), n, observe_rel),
    }
}
impl Hist for osmio::stringpbf::PBFReader<&[u8]> {
    fn own(&mut self, k: K, n: Option<usize>) -> Got {
        match k {
            K::N => take(&mut self.nodes(), n, observe_node),
            K::W => take(&mut self.ways(), n, observe_way),
            K::R => take(&mut self.relations(), n, observe_rel),
        }
    }
}
impl Hist for osmio::arcpbf::PBFReader<&[u8]> {
    fn own(&mut self, k: K, n: Option<usize>) -> Got {
        match k {
            K::N => take(&mut self.nodes(), n, observe_node),
            K::W => take(&mut self.ways(), n, observe_way),
            K::R => take(&mut self.relations(), n, observe_rel),
        }
    }
}
impl Hist for osmio::xml::XMLReader<&[u8]> {}
impl Hist for osmio::osc::OSCReader<&[u8]> {}

fn model(list: &[MObj], cur: &mut usize, k: Option<K>, n: Option<usize>) -> Got {
    let mut v = vec![];
    loop {
        if n == Some(v.len()) {
            return (v, false);
        }
        while *cur < list.len() && k.is_some_and(|k| list[*cur].kind != k) {
            *cur += 1;
        }
        if *cur >= list.len() {
            return (v, true);
        }
        v.push(list[*cur].clone());
        *cur += 1;
    }
}
fn run<R: Hist>(cx: &mut Cx, mut r: R, list: &[MObj], ops: &[Op], desc: &dyn Fn() -> String) -> Res {
    let mut cur = 0;
    let mut all = ops.to_vec();
    all.push(Op::It(None, false, None));
    all.push(Op::Next);
    all.push(Op::It(Some(K::N), true, None));
    for (i, op) in all.iter().enumerate() {
        let (k, n) = match op {
            Op::Next => (None, Some(1)),
            Op::It(k, _, n) => (*k, *n),
            Op::Sorted(_) => (None, Some(0)),
        };
        let got = guard(|| match op {
            Op::Next => match r.next() {
                Some(o) => (vec![observe(&o)], false),
                None => (vec![], true),
            },
            Op::It(Some(k), true, n) => r.own(*k, *n),
            Op::It(k, _, n) => tr(&mut r, *k, *n),
            Op::Sorted(b) => {
                if *b { r.assume_sorted() } else { r.assume_unsorted() }
                (vec![], false)
            }
        });
        let want = model(list, &mut cur, k, n);
        cx.steps(1);
        match got {
            Err(e) => return Err(format!("operation {i} of {all:?} failed: {e}; input {}", desc()).into()),
            Ok(g) => {
                cx.state(&(cur, &g.0.len(), g.1));
                if g != want {
                    let ids = |g: &Got| format!("{:?} ended={}", g.0.iter().map(|o| format!("{:?}{}", o.kind, o.id)).collect::<Vec<_>>(), g.1);
                    let d = diff(&g.0, &want.0).unwrap_or_default();
                    return Err(format!("operation {i} of {all:?} returned {}, expected {} (objects in the file {:?}); {d}; input {}", ids(&g), ids(&want), list.iter().take(40).map(|o| format!("{:?}{}", o.kind, o.id)).collect::<Vec<_>>(), desc()).into());
                }
            }
        }
    }
    Ok(())
}
fn run_rk(cx: &mut Cx, rk: Rk, bytes: &[u8], list: &[MObj], ops: &[Op], desc: &dyn Fn() -> String) -> Res {
    match rk {
        Rk::Str => run(cx, osmio::stringpbf::PBFReader::new(bytes), list, ops, desc),
        Rk::Arc => run(cx, osmio::arcpbf::PBFReader::new(bytes), list, ops, desc),
        Rk::Xml => run(cx, osmio::xml::XMLReader::new(bytes), list, ops, desc),
        Rk::Osc => run(cx, osmio::osc::OSCReader::new(bytes), list, ops, desc),
    }
}
/// 0: all ops; 1: a small alphabet
fn op(ch: &mut Ch, rk: Rk, small: bool) -> Op {
    let own = rk == Rk::Str;
    if small {
        return match ch.pick(7) {
            0 => Op::Next,
            x => Op::It(Some(KINDS[(x - 1) / 2]), own, [Some(1), None][(x - 1) % 2]),
        };
    }
    match ch.pick(3 + own as usize) {
        0 => Op::Next,
        1 => Op::It(None, false, *ch.of(&[Some(0), Some(1), Some(2), None])),
        2 => Op::It(Some(*ch.of(&KINDS)), own, *ch.of(&[Some(0), Some(1), Some(2), None])),
        _ => Op::It(Some(*ch.of(&KINDS)), false, *ch.of(&[Some(1), Some(2), None])),
    }
}
/// Files worth long histories.
pub fn fixed(i: usize) -> Vec<Block> {
    let mut g = IdGen::new();
    let mut b = |s: &str| -> Block {
        Block::of(
            s.split('|')
                .map(|t| match t {
                    "" => Group::Empty,
                    "p" => Group::Nodes(g.objs(K::N, 2)),
                    _ => {
                        let k = match &t[..1] {
                            "n" => K::N,
                            "w" => K::W,
                            _ => K::R,
                        };
                        one_group(g.objs(k, t.len()))
                    }
                })
                .collect(),
        )
    };
    match i {
        0 => vec![b("nn|ww|rr")],
        1 => vec![b("nn"), b("ww"), b("rr")],
        2 => vec![b("n|w"), b("w|r")],
        3 => vec![b("r|n|w"), b("n|w|r")],
        4 => vec![b("w"), b("n"), b("w"), b("n")],
        5 => vec![b(""), b("nnn"), b("|w|"), b("p|r")],
        6 => vec![b("nn|n"), b("n"), b("r|r"), b("w")],
        7 => vec![b("p"), b("w|p"), b("rr|n")],
        8 => vec![],
        _ => vec![b("nnnn|w|nn|rr|w|n")],
    }
}
fn dump(b: &[Block], w: &Wire) -> Vec<u8> {
    file_w(b, w)
}
pub fn c05(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    for rk in PBFS {
        let raw = Wire { comp: Comp::Raw, ..Wire::default() };
        let w = raw.clone();
        v.push(sc(&format!("histories-{rk:?}"), 0, move |ch, cx| {
            let f = ch.pick(10);
            let b = fixed(f);
            let d = if thorough { 4 } else { 3 };
            let ops: Vec<Op> = (0..d).map(|_| op(ch, rk, false)).collect();
            run_rk(cx, rk, &dump(&b, &w), &expect_all(&b), &ops, &|| format!("layout {f}"))
        }));
        let w = raw.clone();
        v.push(sc(&format!("deep-{rk:?}"), 0, move |ch, cx| {
            let f = ch.pick(10);
            let b = fixed(f);
            let d = if thorough { 6 } else { 5 };
            let ops: Vec<Op> = (0..d).map(|_| op(ch, rk, true)).collect();
            run_rk(cx, rk, &dump(&b, &w), &expect_all(&b), &ops, &|| format!("layout {f}"))
        }));
        let w = raw.clone();
        v.push(sc(&format!("layouts-{rk:?}"), 0, move |ch, cx| {
            let b = if ch.flag() { layout(ch, 2, 2, thorough) } else { layout(ch, 3, 1, true) };
            let ops: Vec<Op> = (0..if thorough { 3 } else { 2 }).map(|_| op(ch, rk, true)).collect();
            run_rk(cx, rk, &dump(&b, &w), &expect_all(&b), &ops, &|| format!("{b:?}"))
        }));
        let w = raw.clone();
        v.push(sc(&format!("sorted-{rk:?}"), 0, move |ch, cx| {
            // type-then-id sorted files; the assumption may be switched at any time
            let mut g = IdGen::new();
            let (n, wy, r) = (ch.pick(4), ch.pick(3), ch.pick(3));
            let groups: Vec<Group> = [(K::N, n), (K::W, wy), (K::R, r)].into_iter().filter(|x| x.1 > 0).map(|(k, n)| one_group(g.objs(k, n))).collect();
            let b = match ch.pick(2) {
                0 => vec![Block::of(groups)],
                _ => groups.into_iter().map(|g| Block::of(vec![g])).collect(),
            };
            let mut ops = vec![Op::Sorted(true), op(ch, rk, true)];
            if ch.flag() {
                ops.push(Op::Sorted(false));
            }
            ops.push(op(ch, rk, true));
            if thorough {
                ops.push(op(ch, rk, true));
            }
            let mut bytes = header_frame(Hdr::Sorted, &Wire::default());
            for x in &b {
                bytes.extend(data_frame(x, &w));
            }
            run_rk(cx, rk, &bytes, &expect_all(&b), &ops, &|| format!("{b:?}"))
        }));
        v.push(sc(&format!("packaged-{rk:?}"), if thorough { 2 } else { 1 }, move |ch, cx| {
            let d = ch.pick(4);
            let ops: Vec<Op> = (0..2).map(|_| op(ch, rk, true)).collect();
            let objs = dataset(d);
            let (bytes, desc) = package(ch, &objs);
            run_rk(cx, rk, &bytes, &Block::of(groups_of(&objs)).expect(), &ops, &|| desc.clone())
        }));
        v.push(sc(&format!("large-{rk:?}"), 0, move |ch, cx| {
            let n = *ch.of::<usize>(if thorough { &[100usize, 1000, 8000, 8001, 16000, 70_000, 140_000] } else { &[100usize, 8001, 70_000] });
            let shape = ch.pick(3);
            let mut g = IdGen::new();
            let b = match shape {
                0 => vec![Block::of(vec![Group::Dense(g.objs(K::N, n))]), Block::of(vec![Group::Ways(g.objs(K::W, n / 2))]), Block::of(vec![Group::Rels(g.objs(K::R, 7))])],
                1 => vec![Block::of(vec![Group::Dense(g.objs(K::N, n)), Group::Ways(g.objs(K::W, n / 4)), Group::Dense(g.objs(K::N, 3))])],
                _ => (0..n / 20).map(|i| Block::of(vec![one_group(g.objs(KINDS[i % 3], 20))])).collect(),
            };
            let ks: &[Option<usize>] = &[Some(1), Some(n / 2), None];
            let (ops, ks) = if n > 20_000 { (1, &ks[..1]) } else { (2, ks) };
            let ops: Vec<Op> = (0..ops).map(|_| Op::It(*ch.of(&[None, Some(K::N), Some(K::W), Some(K::R)]), true, *ch.of(ks))).collect();
            run_rk(cx, rk, &file(&b), &expect_all(&b), &ops, &|| format!("large {n} {shape}"))
        }));
    }
    for rk in [Rk::Xml, Rk::Osc] {
        v.push(sc(&format!("histories-{rk:?}"), 0, move |ch, cx| {
            let n = ch.pick(5);
            let objs: Vec<MObj> = (0..n).map(|i| xfull(*ch.of(&KINDS), i as i64 + 1)).collect();
            let d = if n > 3 && !thorough { 2 } else { 3 };
            let ops: Vec<Op> = (0..d).map(|_| op(ch, rk, n > 2 || d > 2)).collect();
            let secs = vec![(Sec::Create, objs[..n / 2].to_vec()), (Sec::Delete, objs[n / 2..].to_vec())];
            let (doc, want) = if rk == Rk::Xml { (xml_doc(&objs, &Style::default()), objs.clone()) } else { (osc_doc(&secs, &Style::default()), osc_expect(&secs)) };
            run_rk(cx, rk, &doc.bytes, &want, &ops, &|| String::from_utf8_lossy(&doc.bytes).into_owned())
        }));
        v.push(sc(&format!("all-ops-{rk:?}"), 0, move |ch, cx| {
            let which = ch.pick(4);
            let kinds: &[K] = [&[K::N, K::W, K::R, K::N][..], &[K::R, K::R, K::W, K::N, K::N], &[K::W], &[]][which];
            let objs: Vec<MObj> = kinds.iter().enumerate().map(|(i, k)| xfull(*k, i as i64 + 1)).collect();
            let ops: Vec<Op> = (0..if thorough { 4 } else { 3 }).map(|_| op(ch, rk, false)).collect();
            let secs = vec![(Sec::Modify, objs.clone())];
            let doc = if rk == Rk::Xml { xml_doc(&objs, &Style::default()) } else { osc_doc(&secs, &Style::default()) };
            run_rk(cx, rk, &doc.bytes, &objs, &ops, &|| String::from_utf8_lossy(&doc.bytes).into_owned())
        }));
    }
    v
}
