//! C20, C21, C27: coordinates, timestamps, names.
use crate::cal;
use crate::engine::*;
use crate::model::Ts;
use osmio::{Lat, Lon, OSMObjectType, TimestampFormat};
use std::cmp::Ordering;
use std::convert::TryFrom;
use std::str::FromStr;

/// Exact value of a decimal text, in 10^-18 degrees; None if it is too large to matter.
enum Dec {
    /// units of 1e-18 degree
    Exact(i128),
    Huge,
    Tiny,
    Bad,
}
/// plain: -?digits(.digits)?; otherwise a spelling that may be refused
fn decimal(s: &str) -> (Dec, bool) {
    let b = s.as_bytes();
    let mut p = 0;
    let mut plain = true;
    let neg = match b.first() {
        Some(b'-') => {
            p = 1;
            true
        }
        Some(b'+') => {
            plain = false;
            p = 1;
            false
        }
        _ => false,
    };
    let digits = |p: &mut usize| {
        let st = *p;
        while *p < b.len() && b[*p].is_ascii_digit() {
            *p += 1;
        }
        s[st..*p].to_string()
    };
    let int = digits(&mut p);
    let mut frac = String::new();
    if b.get(p) == Some(&b'.') {
        p += 1;
        frac = digits(&mut p);
        if frac.is_empty() {
            plain = false;
        }
    }
    if int.is_empty() {
        plain = false;
        if frac.is_empty() {
            return (Dec::Bad, false);
        }
    }
    let mut exp: i64 = 0;
    if matches!(b.get(p), Some(b'e' | b'E')) {
        plain = false;
        p += 1;
        let en = match b.get(p) {
            Some(b'-') => {
                p += 1;
                true
            }
            Some(b'+') => {
                p += 1;
                false
            }
            _ => false,
        };
        let d = digits(&mut p);
        if d.is_empty() {
            return (Dec::Bad, false);
        }
        exp = d.parse::<i64>().unwrap_or(99999).min(99999);
        if en {
            exp = -exp;
        }
    }
    if p != b.len() {
        return (Dec::Bad, false);
    }
    let all = format!("{int}{frac}");
    let sig = all.trim_start_matches('0');
    if sig.is_empty() {
        return (Dec::Exact(0), plain);
    }
    // value = sig * 10^(exp - frac.len()); in 1e-18: shift = exp - frac + 18
    let shift = exp - frac.len() as i64 + 18;
    if sig.len() as i64 + shift > 30 {
        return (Dec::Huge, plain);
    }
    if sig.len() > 36 || shift < 0 {
        return (if sig.len() as i64 + shift < 8 { Dec::Tiny } else { Dec::Bad }, plain);
    }
    let mut v: i128 = sig.parse().unwrap();
    for _ in 0..shift {
        v *= 10;
    }
    (Dec::Exact(if neg { -v } else { v }), plain)
}
const UNIT: i128 = 100_000_000_000; // 100 nanodegrees in 1e-18 degrees
/// The units accepted for an exact value: nearest one (either neighbour for ties), None: refusal.
fn nearest(v: i128) -> Vec<Option<i64>> {
    let lo = v.div_euclid(UNIT);
    let r = v.rem_euclid(UNIT);
    let c: Vec<i128> = match (r * 2).cmp(&UNIT) {
        Ordering::Less => vec![lo],
        Ordering::Greater => vec![lo + 1],
        Ordering::Equal => vec![lo, lo + 1],
    };
    let (min, max) = (i32::MIN as i128, i32::MAX as i128);
    let mut out: Vec<Option<i64>> = c.iter().map(|x| if (min..=max).contains(x) { Some(*x as i64) } else { None }).collect();
    // outside the range by less than half a unit: both are defensible
    if v > max * UNIT || v < min * UNIT {
        out.push(None);
    }
    out
}
fn units_text(u: i64) -> String {
    // exact decimal of u * 1e-7
    let (s, a) = (if u < 0 { "-" } else { "" }, u.unsigned_abs());
    format!("{s}{}.{:07}", a / 10_000_000, a % 10_000_000)
}
fn parse_one(s: &str) -> Result<[Option<i32>; 2], Fail> {
    let r = guard(|| [Lat::from_str(s).ok().map(|x| x.inner()), Lon::from_str(s).ok().map(|x| x.inner())]);
    r.map_err(|p| format!("parsing {s:?} panicked: {p}").into())
}
fn text_case(cx: &mut Cx, s: &str) -> Res {
    let (d, plain) = decimal(s);
    cx.steps(2);
    let want: Vec<Option<i64>> = match d {
        Dec::Exact(v) => {
            let mut w = nearest(v);
            if !plain {
                w.push(None);
            }
            w
        }
        Dec::Huge | Dec::Bad => vec![None],
        Dec::Tiny => vec![Some(0), if plain { Some(0) } else { None }],
    };
    for g in parse_one(s)? {
        if !want.contains(&g.map(|x| x as i64)) {
            return Err(format!("parsing {s:?} gives {g:?}, expected one of {want:?}").into());
        }
    }
    Ok(())
}
fn deg_roundtrip(i: i32) -> Option<String> {
    let (a, o) = (Lat::from_inner(i), Lon::from_inner(i));
    let (d, e) = (a.degrees(), o.degrees());
    let (fa, fo): (f64, f64) = (a.into(), o.into());
    if Lat::try_from(d).ok() != Some(a) || Lon::try_from(e).ok() != Some(o) || fa != d || fo != e {
        return Some(format!("inner value {i}: degrees {d}/{e}, f64 {fa}/{fo}, back {:?}/{:?}", Lat::try_from(d).map(|x| x.inner()), Lon::try_from(e).map(|x| x.inner())));
    }
    if a.inner() != i || o.inner() != i {
        return Some(format!("from_inner({i}).inner() is {}/{}", a.inner(), o.inner()));
    }
    None
}
fn text_roundtrip(i: i32, buf: &mut String) -> Option<String> {
    use std::fmt::Write;
    for lat in [true, false] {
        buf.clear();
        if lat {
            let _ = write!(buf, "{}", Lat::from_inner(i));
        } else {
            let _ = write!(buf, "{}", Lon::from_inner(i));
        }
        let back = if lat { Lat::from_str(buf).ok().map(|x| x.inner()) } else { Lon::from_str(buf).ok().map(|x| x.inner()) };
        if back != Some(i) {
            return Some(format!("inner value {i} prints as {buf:?}, which parses as {back:?}"));
        }
        // and the text itself states exactly that position
        match decimal(buf).0 {
            Dec::Exact(v) if v == i as i128 * UNIT => {}
            _ => return Some(format!("inner value {i} prints as {buf:?}, which is not its decimal value")),
        }
    }
    None
}
/// Inner values worth looking at: everything small, and windows around round numbers.
fn windows(w: i64) -> Vec<i32> {
    let mut c: Vec<i64> = vec![0, i32::MAX as i64, i32::MIN as i64, 900_000_000, -900_000_000, 1_800_000_000, -1_800_000_000];
    for k in 0..10 {
        for m in 1..10 {
            c.push(m * 10i64.pow(k));
            c.push(-m * 10i64.pow(k));
        }
    }
    for k in 0..32 {
        c.push(1 << k);
        c.push(-(1 << k));
    }
    for k in 0..215 {
        c.push(k * 10_000_000);
        c.push(-k * 10_000_000);
        c.push(k * 10_000_000 + 5_000_000);
    }
    let mut v: Vec<i32> = c.iter().flat_map(|c| c - w..=c + w).filter_map(|x| i32::try_from(x).ok()).collect();
    v.sort();
    v.dedup();
    v
}
/// f32 as an exact rational, in 1e-18 degrees times 2^shift
fn f32_units(x: f32) -> Vec<Option<i64>> {
    if !x.is_finite() {
        return vec![None];
    }
    let b = x.to_bits();
    let (e, m) = ((b >> 23 & 0xff) as i32, (b & 0x7f_ffff) as i128);
    let (m, e) = if e == 0 { (m, -149) } else { (m | 0x80_0000, e - 150) };
    let m = if b >> 31 == 1 { -m } else { m };
    // units = m * 2^e * 10^7
    let n = m * 10_000_000;
    if e >= 0 {
        if e > 40 && m != 0 {
            return vec![None];
        }
        let u = n << e.min(60);
        return nearest_ratio(u, 0);
    }
    if e < -100 {
        return vec![Some(0)];
    }
    nearest_ratio(n, -e)
}
fn nearest_ratio(n: i128, sh: i32) -> Vec<Option<i64>> {
    // n / 2^sh
    let den = 1i128 << sh;
    let lo = n.div_euclid(den);
    let r = n.rem_euclid(den);
    let c: Vec<i128> = match (r * 2).cmp(&den) {
        Ordering::Less => vec![lo],
        Ordering::Greater => vec![lo + 1],
        Ordering::Equal => vec![lo, lo + 1],
    };
    let (min, max) = (i32::MIN as i128, i32::MAX as i128);
    let mut out: Vec<Option<i64>> = c.iter().map(|x| if (min..=max).contains(x) { Some(*x as i64) } else { None }).collect();
    if n > max * den || n < min * den {
        out.push(None);
    }
    out
}
fn f32_case(x: f32) -> Option<String> {
    let (a, o) = (Lat::try_from(x).ok().map(|v| v.inner()), Lon::try_from(x).ok().map(|v| v.inner()));
    // fast path: the exact product fits a double
    let p = x as f64 * 1e7;
    if p.abs() > 2147483649.0 || p.is_nan() {
        return if (a, o) == (None, None) { None } else { Some(format!("f32 {x:?} ({:#x}) converts to {a:?}/{o:?} instead of being refused", x.to_bits())) };
    }
    let r = p.round();
    let fast = if r.is_finite() && (p - p.floor() - 0.5).abs() > 1e-6 && r.abs() < 2147483000.0 { Some(r as i32) } else { None };
    if let Some(f) = fast {
        if a == Some(f) && o == Some(f) {
            return None;
        }
    }
    let want = f32_units(x);
    if want.contains(&a.map(|v| v as i64)) && want.contains(&o.map(|v| v as i64)) {
        return None;
    }
    Some(format!("f32 {x:?} ({:#x}) converts to {a:?}/{o:?}, expected one of {want:?}", x.to_bits()))
}
pub fn c20(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(sc("degrees-all", 0, move |ch, cx| {
        // every one of the 2^32 coordinate values
        let b = ch.pick(4096) as u64;
        for i in 0..1u64 << 20 {
            let x = (b << 20 | i) as u32 as i32;
            if let Some(e) = deg_roundtrip(x) {
                return Err(e.into());
            }
        }
        cx.inner += 1 << 20;
        cx.steps(1 << 22);
        Ok(())
    }));
    v.push(sc("f32-all", 0, move |ch, cx| {
        // every f32
        let b = ch.pick(4096) as u32;
        for i in 0..1u32 << 20 {
            if let Some(e) = f32_case(f32::from_bits(b << 20 | i)) {
                return Err(e.into());
            }
        }
        cx.inner += 1 << 20;
        cx.steps(1 << 21);
        Ok(())
    }));
    v.push(sc("text-windows", 0, move |ch, cx| {
        let w = windows(if thorough { 3000 } else { 400 });
        let n = 256;
        let b = ch.pick(n);
        let mut buf = String::new();
        for x in w.iter().skip(b).step_by(n) {
            cx.inner += 1;
            cx.steps(4);
            if let Some(e) = text_roundtrip(*x, &mut buf) {
                return Err(e.into());
            }
            // where the debugging form is a number, it is the same one
            for t in [format!("{:?}", Lat::from_inner(*x)), format!("{:?}", Lon::from_inner(*x))] {
                if let (Dec::Exact(v), _) = decimal(&t) {
                    if v != *x as i128 * UNIT {
                        return Err(format!("inner value {x} prints for debugging as {t:?}").into());
                    }
                }
            }
        }
        Ok(())
    }));
    v.push(sc(if thorough { "text-all" } else { "text-small" }, 0, move |ch, cx| {
        // thorough: every value; quick: every value within 0.5 degrees, and every 4099th
        let mut buf = String::new();
        let b = ch.pick(4096) as u64;
        if thorough {
            for i in 0..1u64 << 20 {
                cx.inner += 1;
                cx.steps(4);
                if let Some(e) = text_roundtrip((b << 20 | i) as u32 as i32, &mut buf) {
                    return Err(e.into());
                }
            }
        } else {
            for i in 0..2440i64 {
                cx.inner += 1;
                cx.steps(4);
                if let Some(e) = text_roundtrip((b as i64 * 2440 + i - 5_000_000) as i32, &mut buf) {
                    return Err(e.into());
                }
            }
            let mut x = i32::MIN as i64 + b as i64 * 4099 * 256;
            for _ in 0..256 {
                cx.inner += 1;
                cx.steps(4);
                if x <= i32::MAX as i64 {
                    if let Some(e) = text_roundtrip(x as i32, &mut buf) {
                        return Err(e.into());
                    }
                }
                x += 4099;
            }
        }
        Ok(())
    }));
    v.push(sc("rounding", 0, move |ch, cx| {
        // decimal texts and doubles a few nanodegrees off a representable position
        let w = windows(if thorough { 40 } else { 4 });
        let n = 512;
        let b = ch.pick(n);
        for x in w.iter().skip(b).step_by(n) {
            for nano in (-49i64..=49).step_by(if thorough { 1 } else { 6 }) {
                let v = *x as i64 * 100 + nano;
                let (s, a) = (if v < 0 { "-" } else { "" }, v.unsigned_abs());
                let t = format!("{s}{}.{:09}", a / 1_000_000_000, a % 1_000_000_000);
                cx.inner += 1;
                text_case(cx, &t)?;
                let d: f64 = t.parse().unwrap();
                let want = nearest(v as i128 * 1_000_000_000);
                let got = [Lat::try_from(d).ok().map(|x| x.inner()), Lon::try_from(d).ok().map(|x| x.inner())];
                for g in got {
                    if !want.contains(&g.map(|x| x as i64)) {
                        return Err(format!("{t} degrees converts to {g:?}, expected one of {want:?}").into());
                    }
                }
            }
        }
        Ok(())
    }));
    v.push(sc("short-texts", 0, move |ch, cx| {
        // every short text over an alphabet of number characters
        let al = ['0', '1', '9', '.', '-', '+', 'e', 'n', ' '];
        let n = ch.pick(if thorough { 7 } else { 6 });
        let mut s: String = (0..n.min(3)).map(|_| *ch.of(&al)).collect();
        let rest = n.saturating_sub(3);
        let base = s.len();
        for i in 0..al.len().pow(rest as u32) {
            s.truncate(base);
            let mut j = i;
            for _ in 0..rest {
                s.push(al[j % al.len()]);
                j /= al.len();
            }
            cx.inner += 1;
            text_case(cx, &s)?;
        }
        Ok(())
    }));
    v.push(sc("odd-texts", 0, move |ch, cx| {
        let t = *ch.of(&[
            "", " ", "nan", "NaN", "-nan", "inf", "-inf", "+inf", "infinity", "Infinity", "1e400", "-1e400", "1e-400", "0x10", "1,5", "１", "--1", "1_000", "1.5.2", "1 2", "\n1", "1\n", "1\0", "½", "1°", "51.5N", "true", "214.7483647", "214.7483648", "214.74836475", "-214.7483648",
            "-214.7483649", "214.748364749", "-214.748364849", "300", "-300", "99999999999", "-99999999999999999999", "2147483647", "0.00000001", "0.00000005", "0.000000149", "-0", "-0.0", "000001.5", "1.50000000000000000", "1.23456789012345678", "e5", ".", "-", "+", "1e", "1e+", "١", "4294967296", "429.4967296",
            "-429.4967297", "858.9934592",
        ]);
        text_case(cx, t)
    }));
    v.push(sc("out-of-range", 0, move |ch, cx| {
        // doubles that do not fit, or are no numbers
        let mut list = vec![f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 214.7483648, -214.7483649, 215.0, -215.0, 360.0, 429.4967296, 429.4967295, -429.4967296, 858.9934592, 1e10, -1e10, 1e300, -1e300];
        for k in 8..1024 {
            list.push(2f64.powi(k));
            list.push(-2f64.powi(k));
        }
        for k in 0..2000u64 {
            list.push(f64::from_bits((k & 1) << 63 | 0x7ff0_0000_0000_0001 + k * 0x8_3126_e978)); // NaNs
        }
        let c = ch.pick(64);
        for x in list.iter().skip(c).step_by(64) {
            cx.inner += 1;
            cx.steps(2);
            let g = [Lat::try_from(*x).ok().map(|v| v.inner()), Lon::try_from(*x).ok().map(|v| v.inner())];
            if g != [None, None] {
                return Err(format!("{x} ({:#x}) converts to {g:?} instead of being refused", x.to_bits()).into());
            }
        }
        Ok(())
    }));
    v.push(sc("tiny", 0, move |ch, cx| {
        // subnormal and small doubles are position 0
        let k = ch.pick(1050) as i32;
        for s in [1.0, -1.0, 1.5, -1.9] {
            let x = s * 2f64.powi(-26 - k.min(1048));
            let g = [Lat::try_from(x).ok().map(|v| v.inner()), Lon::try_from(x).ok().map(|v| v.inner())];
            cx.steps(2);
            if g != [Some(0), Some(0)] {
                return Err(format!("{x:e} converts to {g:?}").into());
            }
        }
        Ok(())
    }));
    v.push(sc("order", 0, move |ch, cx| {
        // comparisons follow the position
        let w = windows(2);
        let a = *ch.of(&w);
        for b in w.iter().step_by(7) {
            cx.steps(2);
            let (x, y) = (Lat::from_inner(a), Lat::from_inner(*b));
            let (p, q) = (Lon::from_inner(a), Lon::from_inner(*b));
            if x.cmp(&y) != a.cmp(b) || p.cmp(&q) != a.cmp(b) || (x == y) != (a == *b) || (p == q) != (a == *b) {
                return Err(format!("positions {} and {} compare wrongly", units_text(a as i64), units_text(*b as i64)).into());
            }
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------ C21
fn conv_case(e: i64, iso: &str) -> Option<String> {
    let n = TimestampFormat::EpochNumber(e);
    let i = TimestampFormat::ISOString(iso.to_string());
    let bad = |what: &str, got: String| Some(format!("{what} of {iso} ({e}) is {got}"));
    if n.to_iso_string() != iso {
        return bad("ISO form of the epoch form", n.to_iso_string());
    }
    if n.to_epoch_number() != e {
        return bad("epoch number of the epoch form", n.to_epoch_number().to_string());
    }
    if i.to_epoch_number() != e {
        return bad("epoch number of the ISO form", i.to_epoch_number().to_string());
    }
    if i.to_iso_string() != iso {
        return bad("ISO form of the ISO form", i.to_iso_string());
    }
    match TimestampFormat::from_str(iso) {
        Ok(t) if t.to_epoch_number() == e => {}
        r => return bad("parsed text", format!("{r:?}")),
    }
    if n != i || i != n || n.partial_cmp(&i) != Some(Ordering::Equal) {
        return bad("comparison of the forms", "unequal".into());
    }
    if format!("{n}") != iso || format!("{i}") != iso {
        return bad("displayed text", format!("{n} / {i}"));
    }
    if osmio::utils::epoch_to_iso(e) != iso || osmio::utils::iso_to_epoch(iso) != e {
        return bad("utils conversion", format!("{} / {}", osmio::utils::epoch_to_iso(e), osmio::utils::iso_to_epoch(iso)));
    }
    None
}
fn with_offset(e: i64, off_min: i64) -> Option<String> {
    // local = e + off
    let l = e + off_min * 60;
    let (lo, hi) = (cal::epoch(0, 1, 1, 0, 0, 0), cal::epoch(9999, 12, 31, 23, 59, 59));
    if l < lo || l > hi {
        return None;
    }
    let (d, s) = (l.div_euclid(86400), l.rem_euclid(86400));
    let (y, m, dd) = civil(d);
    let (sg, a) = (if off_min < 0 { '-' } else { '+' }, off_min.abs());
    Some(format!("{y:04}-{m:02}-{dd:02}T{:02}:{:02}:{:02}{sg}{:02}:{:02}", s / 3600, s / 60 % 60, s % 60, a / 60, a % 60))
}
fn civil(d: i64) -> (i64, i64, i64) {
    // by search from an estimate: independent of the library under test
    let mut y = 1970 + d.div_euclid(366);
    while cal::days_from_civil(y + 1, 1, 1) <= d {
        y += 1;
    }
    while cal::days_from_civil(y, 1, 1) > d {
        y -= 1;
    }
    let mut m = 1;
    while m < 12 && cal::days_from_civil(y, m + 1, 1) <= d {
        m += 1;
    }
    (y, m, d - cal::days_from_civil(y, m, 1) + 1)
}
fn forms(e: i64) -> Vec<Ts> {
    let (d, s) = (e.div_euclid(86400), e.rem_euclid(86400));
    let (y, m, dd) = civil(d);
    let mut v = vec![Ts::Epoch(e), Ts::Iso(cal::iso(y, m, dd, s / 3600, s / 60 % 60, s % 60))];
    for o in [0, 60, -60, 330, -570, 14 * 60, -12 * 60, 1439, -1439, 1] {
        v.extend(with_offset(e, o).map(Ts::Iso));
    }
    // RFC 3339 allows small letters
    if let Ts::Iso(z) = v[1].clone() {
        v.extend([z.replace('T', "t"), z.replace('Z', "z"), z.to_lowercase()].map(Ts::Iso));
        v.extend(with_offset(e, 60).map(|s| Ts::Iso(s.to_lowercase())));
    }
    v
}
fn instants() -> Vec<i64> {
    let mut v = vec![];
    for c in [0i64, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, cal::epoch(2000, 2, 29, 12, 0, 0), cal::epoch(1900, 2, 28, 23, 59, 59), cal::epoch(2019, 12, 31, 23, 30, 0), cal::epoch(1, 1, 1, 0, 0, 0), cal::epoch(1999, 12, 31, 23, 59, 59)] {
        v.extend([c - 3600, c - 1, c, c + 1, c + 60, c + 3600]);
    }
    v.extend([cal::epoch(0, 1, 1, 0, 0, 0), cal::epoch(0, 1, 1, 0, 0, 1), cal::epoch(9999, 12, 31, 23, 59, 59), cal::epoch(9999, 12, 31, 23, 59, 58), cal::epoch(999, 12, 31, 23, 59, 59), cal::epoch(1000, 1, 1, 0, 0, 0)]);
    v.sort();
    v.dedup();
    v
}
pub fn c21(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(sc("days", 0, move |ch, cx| {
        // every day of the years 0 to 9999, at several times of day
        let y = ch.pick(10_000) as i64;
        let times: &[(i64, i64, i64)] = if thorough { &[(0, 0, 0), (0, 0, 1), (0, 59, 59), (11, 59, 59), (12, 0, 0), (13, 14, 15), (23, 0, 1), (23, 59, 59)] } else { &[(0, 0, 0), (23, 59, 59)] };
        for m in 1..=12 {
            for d in 1..=cal::month_len(y, m) {
                for (h, mi, s) in times {
                    cx.inner += 1;
                    cx.steps(9);
                    if let Some(e) = conv_case(cal::epoch(y, m, d, *h, *mi, *s), &cal::iso(y, m, d, *h, *mi, *s)) {
                        return Err(e.into());
                    }
                }
            }
        }
        Ok(())
    }));
    v.push(sc("seconds", 0, move |ch, cx| {
        // every second of some days
        let days: &[(i64, i64, i64)] = &[(1970, 1, 1), (1969, 12, 31), (2000, 2, 29), (2038, 1, 19), (0, 1, 1), (9999, 12, 31), (1900, 3, 1), (2016, 12, 31), (1901, 12, 13)];
        let (y, m, d) = *ch.of(days);
        let h = ch.pick(24) as i64;
        for s in 0..3600 {
            cx.inner += 1;
            cx.steps(9);
            if let Some(e) = conv_case(cal::epoch(y, m, d, h, s / 60, s % 60), &cal::iso(y, m, d, h, s / 60, s % 60)) {
                return Err(e.into());
            }
        }
        Ok(())
    }));
    v.push(sc("offsets", 0, move |ch, cx| {
        // every whole-minute UTC offset
        let e = *ch.of(&instants());
        for o in -1439..=1439 {
            let Some(s) = with_offset(e, o) else { continue };
            if cal::parse_iso(&s) != Some(e) {
                panic!("HARNESS: {s}");
            }
            cx.inner += 1;
            cx.steps(3);
            let t = TimestampFormat::ISOString(s.clone());
            if t.to_epoch_number() != e {
                return Err(format!("{s} has epoch number {}, expected {e}", t.to_epoch_number()).into());
            }
            match TimestampFormat::from_str(&s) {
                Ok(p) if p.to_epoch_number() == e => {}
                r => return Err(format!("{s} parses as {r:?}, expected {e}").into()),
            }
            if t != TimestampFormat::EpochNumber(e) || t == TimestampFormat::EpochNumber(e + 1) || t == TimestampFormat::EpochNumber(e - 1) {
                return Err(format!("{s} compares wrongly with {e}").into());
            }
        }
        Ok(())
    }));
    v.push(sc("pairs", 0, move |ch, cx| {
        // all pairs of instants in all pairs of forms
        let ins = instants();
        let (a, b) = (*ch.of(&ins), *ch.of(&ins));
        for x in forms(a) {
            for y in forms(b) {
                cx.inner += 1;
                cx.steps(4);
                let (p, q) = (x.to(), y.to());
                let c = p.partial_cmp(&q);
                if c != Some(a.cmp(&b)) || (p == q) != (a == b) || (p != q) == (a == b) || (p < q) != (a < b) || (p <= q) != (a <= b) || (p > q) != (a > b) || (p >= q) != (a >= b) {
                    return Err(format!("{x:?} and {y:?} compare as {c:?}, ==: {}, <: {}", p == q, p < q).into());
                }
            }
        }
        Ok(())
    }));
    v.push(sc("near", 0, move |ch, cx| {
        // ISO texts whose order as text differs from the order as instants: all hour offsets
        let e = *ch.of(&[cal::epoch(2020, 1, 1, 0, 0, 0), cal::epoch(2019, 12, 31, 12, 0, 0), 0, -1]);
        let d = *ch.of(&[-86400i64, -3601, -3600, -1800, -60, -1, 0, 1, 59, 1800, 3600, 7200, 86400]);
        for o1 in (-14..=14).map(|x| x * 60) {
            for o2 in (-14..=14).map(|x| x * 60) {
                let (s, t) = (with_offset(e, o1).unwrap(), with_offset(e + d, o2).unwrap());
                cx.inner += 1;
                cx.steps(2);
                let (p, q) = (TimestampFormat::ISOString(s.clone()), TimestampFormat::ISOString(t.clone()));
                if p.partial_cmp(&q) != Some(0.cmp(&d)) || (p == q) != (d == 0) {
                    return Err(format!("{s} and {t} compare as {:?}, == {}", p.partial_cmp(&q), p == q).into());
                }
            }
        }
        Ok(())
    }));
    v.push(sc("integers", 0, move |ch, cx| {
        // any integer type as an epoch number
        let i = ch.pick(6);
        cx.steps(1);
        let (t, e): (TimestampFormat, i64) = match i {
            0 => (i32::MIN.into(), i32::MIN as i64),
            1 => (i32::MAX.into(), i32::MAX as i64),
            2 => (u32::MAX.into(), u32::MAX as i64),
            3 => ((-1i64).into(), -1),
            4 => (253402300799i64.into(), 253402300799),
            _ => (0u8.into(), 0),
        };
        if t.to_epoch_number() != e {
            return Err(format!("{e} becomes {t:?}").into());
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------ C27
const TYPES: [(OSMObjectType, char, &str); 3] = [(OSMObjectType::Node, 'n', "node"), (OSMObjectType::Way, 'w', "way"), (OSMObjectType::Relation, 'r', "relation")];
fn type_text(s: &str) -> Res {
    let want = TYPES.iter().find(|t| s == t.2 || s == t.1.to_string()).map(|t| t.0);
    let got = guard(|| OSMObjectType::from_str(s).ok()).map_err(|p| format!("parsing {s:?} panicked: {p}"))?;
    // "rel" is an accepted abbreviation
    if got != want && !(s == "rel" && got == Some(OSMObjectType::Relation)) {
        return Err(format!("{s:?} is parsed as {got:?}, expected {want:?}").into());
    }
    Ok(())
}
fn json_rt<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T) -> Result<T, String> {
    let s = serde_json::to_string(v).map_err(|e| format!("cannot be serialised: {e}"))?;
    serde_json::from_str(&s).map_err(|e| format!("serialised form {s:?} cannot be read: {e}"))
}
pub fn c27(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(sc("type-names", 0, move |ch, cx| {
        let (t, c, l) = *ch.of(&TYPES);
        cx.steps(8);
        if t.name_short() != c || t.name_long() != l || format!("{t}") != l || format!("{t:?}") != c.to_string() {
            return Err(format!("{l}: names {:?} {:?}, displayed {t}, debug {t:?}", t.name_short(), t.name_long()).into());
        }
        if OSMObjectType::try_from(t.name_short()).ok() != Some(t) || OSMObjectType::from_str(t.name_long()).ok() != Some(t) || OSMObjectType::from_str(&t.name_short().to_string()).ok() != Some(t) {
            return Err(format!("{l}: its names are not converted back to it").into());
        }
        if json_rt(&t)? != t || format!("{t}").parse::<OSMObjectType>().ok() != Some(t) {
            return Err(format!("{l}: not restored from its serialised form").into());
        }
        Ok(())
    }));
    v.push(sc("chars", 0, move |ch, cx| {
        // every character
        let b = ch.pick(0x1100) as u32;
        for x in 0..256 {
            let Some(c) = char::from_u32(b * 256 + x) else { continue };
            cx.inner += 1;
            cx.steps(2);
            let want = TYPES.iter().find(|t| t.1 == c).map(|t| t.0);
            if OSMObjectType::try_from(c).ok() != want {
                return Err(format!("{c:?} becomes {:?}, expected {want:?}", OSMObjectType::try_from(c)).into());
            }
            type_text(&c.to_string())?;
        }
        Ok(())
    }));
    v.push(sc("short-texts", 0, move |ch, cx| {
        let al: Vec<char> = "nodewayrltiNWR ".chars().collect();
        let n = ch.pick(if thorough { 7 } else { 6 });
        let mut s: String = (0..n.min(2)).map(|_| *ch.of(&al)).collect();
        let base = s.len();
        let rest = n.saturating_sub(2);
        for i in 0..al.len().pow(rest as u32) {
            s.truncate(base);
            let mut j = i;
            for _ in 0..rest {
                s.push(al[j % al.len()]);
                j /= al.len();
            }
            cx.inner += 1;
            cx.steps(1);
            type_text(&s)?;
        }
        Ok(())
    }));
    v.push(sc("edited-names", 0, move |ch, cx| {
        // every name with one or two characters changed, inserted or removed
        let names = ["n", "w", "r", "node", "way", "relation", "rel"];
        let mut s: Vec<char> = ch.of(&names).chars().collect();
        for second in [false, true] {
            // quick: the second change is with the characters of the names
            let short = second && !thorough;
            let c = match ch.pick(4) {
                0 => continue,
                1 if !s.is_empty() => {
                    let p = ch.pick(s.len());
                    s.remove(p);
                    continue;
                }
                1 => continue,
                x if short => (x, *ch.of(&['n', 'w', 'r', 'e', 'l', ' ', 'N', '\u{130}'])),
                x => match ch.pick(96) {
                    95 => (x, '\u{130}'),
                    c => (x, (b' ' + c as u8) as char),
                },
            };
            if c.0 == 2 {
                let p = ch.pick(s.len() + 1);
                s.insert(p, c.1);
            } else if !s.is_empty() {
                let p = ch.pick(s.len());
                s[p] = c.1;
            }
        }
        cx.steps(1);
        type_text(&s.iter().collect::<String>())
    }));
    v.push(sc("coordinates", 0, move |ch, cx| {
        let w = windows(if thorough { 2000 } else { 300 });
        let n = 128;
        let b = ch.pick(n);
        for x in w.iter().skip(b).step_by(n) {
            cx.inner += 1;
            cx.steps(2);
            let (a, o) = (Lat::from_inner(*x), Lon::from_inner(*x));
            let (a2, o2): (Lat, Lon) = (json_rt(&a)?, json_rt(&o)?);
            if a2.inner() != *x || o2.inner() != *x {
                return Err(format!("coordinate {x} is restored as {}/{}", a2.inner(), o2.inner()).into());
            }
            let p: (Option<Lat>, Vec<Lon>) = json_rt(&(Some(a), vec![o, o]))?;
            if p.0 != Some(a) || p.1 != vec![o, o] {
                return Err(format!("coordinate {x} in a structure is restored differently").into());
            }
        }
        Ok(())
    }));
    v.push(sc("timestamps", 0, move |ch, cx| {
        let e = *ch.of(&instants());
        for f in forms(e).into_iter().chain([Ts::Iso("".into()), Ts::Iso("not a date \"\\ é😀\n".into()), Ts::Epoch(i64::MAX), Ts::Epoch(i64::MIN)]) {
            cx.inner += 1;
            cx.steps(1);
            let t = f.to();
            let r: TimestampFormat = json_rt(&t)?;
            if Ts::of(&r) != f {
                return Err(format!("{t:?} is restored as {r:?}").into());
            }
        }
        Ok(())
    }));
    v
}
