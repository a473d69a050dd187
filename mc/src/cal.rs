//! Proleptic Gregorian calendar arithmetic (independent of chrono).
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    // days before year y since 0000-01-01, plus days before month, plus day; shifted to 1970
    fn before_year(y: i64) -> i64 {
        // y >= 0
        if y == 0 {
            return 0;
        }
        let n = y - 1; // years 0..=y-1: leap years are those divisible
        365 * y + (n / 4 - n / 100 + n / 400) + 1 // year 0 is a leap year
    }
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let ml = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut n = before_year(y);
    for i in 0..(m - 1) as usize {
        n += ml[i];
    }
    n + d - 1 - 719_528
}
pub fn month_len(y: i64, m: i64) -> i64 {
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][(m - 1) as usize]
}
pub fn epoch(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64) -> i64 {
    days_from_civil(y, mo, d) * 86400 + h * 3600 + mi * 60 + s
}
pub fn iso(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64) -> String {
    format!("{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{s:02}Z")
}
/// Whole-second RFC 3339, with Z or a numeric offset.
pub fn parse_iso(s: &str) -> Option<i64> {
    let b = s.as_bytes();
    if b.len() < 20 {
        return None;
    }
    let num = |r: std::ops::Range<usize>| -> Option<i64> {
        let t = b.get(r)?;
        if t.iter().all(|c| c.is_ascii_digit()) { std::str::from_utf8(t).ok()?.parse().ok() } else { None }
    };
    if b[4] != b'-' || b[7] != b'-' || (b[10] != b'T') || b[13] != b':' || b[16] != b':' {
        return None;
    }
    let (y, mo, d, h, mi, se) = (num(0..4)?, num(5..7)?, num(8..10)?, num(11..13)?, num(14..16)?, num(17..19)?);
    if !(1..=12).contains(&mo) || d < 1 || d > month_len(y, mo) || h > 23 || mi > 59 || se > 59 {
        return None;
    }
    let base = epoch(y, mo, d, h, mi, se);
    match &b[19..] {
        b"Z" => Some(base),
        r if r.len() == 6 && (r[0] == b'+' || r[0] == b'-') && r[3] == b':' => {
            let (oh, om) = (num(20..22)?, num(23..25)?);
            if oh > 23 || om > 59 {
                return None;
            }
            let off = oh * 3600 + om * 60;
            Some(if r[0] == b'+' { base - off } else { base + off })
        }
        _ => None,
    }
}
#[test]
fn cal() {
    assert_eq!(epoch(1970, 1, 1, 0, 0, 0), 0);
    assert_eq!(epoch(2020, 1, 1, 0, 0, 0), 1577836800);
    assert_eq!(epoch(0, 1, 1, 0, 0, 0), -62167219200);
    assert_eq!(epoch(9999, 12, 31, 23, 59, 59), 253402300799);
    assert_eq!(epoch(2000, 3, 1, 0, 0, 0), 951868800);
    assert_eq!(epoch(1900, 3, 1, 0, 0, 0), -2203891200);
}
