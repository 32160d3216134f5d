//! Workload generators.  Every product format has an *independent* emitter
//! (written from the format description, not from siderust's writer) that
//! produces the bytes together with the records they encode; siderust's
//! reader is then judged against those records.

use crate::core::Sim;
use std::io::Read;

/// One record of a parsed product, reduced to comparable parts.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Rec {
    pub s: Vec<String>,
    pub n: Vec<f64>,
    /// instants, nanoseconds since the Unix epoch
    pub t: Vec<i64>,
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Parsed {
    pub head: Rec,
    pub recs: Vec<Rec>,
}

#[derive(Debug, Clone)]
pub struct Doc {
    pub bytes: Vec<u8>,
    pub expect: Parsed,
    /// Offset just past the end-of-product marker, if the format has one.
    pub term: Option<usize>,
}

pub struct Fmt {
    pub name: &'static str,
    pub gen: fn(&mut Sim) -> Doc,
    pub read: fn(&mut dyn Read) -> Result<Parsed, String>,
    /// Records come out in file order (so torn input yields a prefix).
    pub ordered: bool,
    /// Instant tolerance (ns) of the reader's time representation.
    pub tol: i64,
}

pub const T_TOL: i64 = 100_000;
/// Julian dates in one double resolve about 40 µs.
pub const JD_TOL: i64 = 100_000;

pub fn close(a: f64, b: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    a == b || (a - b).abs() <= 1e-12 * a.abs().max(b.abs()) + 1e-300
}

pub fn rec_eq(a: &Rec, b: &Rec, tol: i64) -> bool {
    let tol = tol.max(T_TOL);
    a.s == b.s
        && a.n.len() == b.n.len()
        && a.n.iter().zip(&b.n).all(|(x, y)| close(*x, *y))
        && a.t.len() == b.t.len()
        && a.t.iter().zip(&b.t).all(|(x, y)| x.abs_diff(*y) <= tol as u64)
}

pub fn parsed_diff(a: &Parsed, b: &Parsed, tol: i64) -> Option<String> {
    if !rec_eq(&a.head, &b.head, tol) {
        return Some(format!("header differs: {:?} vs {:?}", a.head, b.head));
    }
    for (i, (x, y)) in a.recs.iter().zip(&b.recs).enumerate() {
        if !rec_eq(x, y, tol) {
            return Some(format!("record {i} differs: {x:?} vs {y:?}"));
        }
    }
    if a.recs.len() != b.recs.len() {
        return Some(format!("{} records vs {}", a.recs.len(), b.recs.len()));
    }
    None
}

/// A decimal number with `dec` decimals: text and the nearest double.
pub fn num(s: &mut Sim, lo: f64, hi: f64, dec: usize) -> (String, f64) {
    let v = match s.below(8) {
        0 => 0.0,
        1 => *s.pick(&[lo, hi, lo / 2.0, hi / 3.0, 1.0, -1.0, 0.5]),
        _ => s.f64(lo, hi),
    };
    let v = v.clamp(lo, hi);
    let t = format!("{v:.dec$}");
    let t = if t.starts_with('-') && t[1..].chars().all(|c| c == '0' || c == '.') { t[1..].to_string() } else { t };
    let v = t.parse().unwrap();
    (t, v)
}

const UPPER: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
const NAMEY: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

pub fn civil_days(y: i64, m: i64, d: i64) -> i64 {
    // Howard Hinnant: days since 1970-01-01.
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}

pub fn days_in_month(y: i64, m: i64) -> i64 {
    let (ny, nm) = if m == 12 { (y + 1, 1) } else { (y, m + 1) };
    civil_days(ny, nm, 1) - civil_days(y, m, 1)
}

pub fn civil_from_days(z: i64) -> (i64, i64, i64) {
    let z = z + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}

#[derive(Clone, Copy, Debug)]
pub struct Civil {
    pub y: i64,
    pub mo: i64,
    pub d: i64,
    pub h: i64,
    pub mi: i64,
    pub s: i64,
    pub ns: i64,
}

impl Civil {
    pub fn unix_ns(&self) -> i64 {
        (civil_days(self.y, self.mo, self.d) * 86_400 + self.h * 3600 + self.mi * 60 + self.s) * 1_000_000_000 + self.ns
    }
    pub fn from_unix_ns(t: i64) -> Civil {
        let day = t.div_euclid(86_400_000_000_000);
        let r = t.rem_euclid(86_400_000_000_000);
        let (y, mo, d) = civil_from_days(day);
        let sec = r / 1_000_000_000;
        Civil { y, mo, d, h: sec / 3600, mi: sec / 60 % 60, s: sec % 60, ns: r % 1_000_000_000 }
    }
    pub fn doy(&self) -> i64 {
        civil_days(self.y, self.mo, self.d) - civil_days(self.y, 1, 1) + 1
    }
    pub fn sod_ns(&self) -> i64 {
        (self.h * 3600 + self.mi * 60 + self.s) * 1_000_000_000 + self.ns
    }
    pub fn mjd_day(&self) -> i64 {
        civil_days(self.y, self.mo, self.d) + 40_587
    }
}

/// Civil instant with fractional seconds quantised to `q` ns.
pub fn civil(s: &mut Sim, q: i64) -> Civil {
    let y = s.int(1995, 2034);
    let mo = s.int(1, 12);
    let d = match s.below(6) {
        0 => 1,
        1 => days_in_month(y, mo),
        _ => s.int(1, days_in_month(y, mo)),
    };
    let (h, mi, sec) = match s.below(6) {
        0 => (0, 0, 0),
        1 => (23, 59, 59),
        2 => (s.int(0, 23), 15 * s.int(0, 3), 0),
        _ => (s.int(0, 23), s.int(0, 59), s.int(0, 59)),
    };
    let ns = if q >= 1_000_000_000 || s.chance(1, 2) { 0 } else { q * s.int(0, 1_000_000_000 / q - 1) };
    Civil { y, mo, d, h, mi, s: sec, ns }
}

fn eol(s: &mut Sim) -> &'static str {
    if s.chance(1, 5) {
        "\r\n"
    } else {
        "\n"
    }
}

/// Document size class: mostly small, sometimes larger than one 8 KiB read buffer.
pub fn count(s: &mut Sim, big: i64) -> usize {
    (match s.below(8) {
        0 => s.int(0, 1),
        1..=5 => s.int(1, 6),
        6 => s.int(1, big / 4 + 1),
        _ => s.int(big / 2, big),
    }) as usize
}

pub fn utc_ns(t: &tempoch::Time<tempoch::UTC>) -> i64 {
    // chrono encodes an instant inside a leap second with a sub-second part above 1e9.
    let f = |c: chrono::DateTime<chrono::Utc>| c.timestamp_nanos_opt().map(|n| if c.timestamp_subsec_nanos() >= 1_000_000_000 { n - 1_000_000_000 } else { n });
    t.try_to_chrono().ok().and_then(f).unwrap_or(i64::MAX)
}

// ---------------------------------------------------------------- SP3

pub fn sp3_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let mut o = String::new();
    let mut head = Rec::default();
    for i in 0..s.int(0, 8) {
        let l = match i % 4 {
            0 => format!("#cP2024  1  1  0  0  0.00000000      96 ORBIT {} HLM  {}", s.ident(3, 5, UPPER), s.ident(3, 4, UPPER)),
            1 => format!("+   32   G01G02G03{}", s.ident(0, 20, UPPER)),
            2 => format!("%c G  cc GPS ccc {}", s.ident(0, 10, UPPER)),
            _ => format!("/* {}", s.ident(0, 40, NAMEY)),
        };
        o += &l;
        o += e;
        head.s.push(l);
    }
    let mut recs = Vec::new();
    let ne = count(s, 40);
    for _ in 0..ne {
        let c = civil(s, 10);
        o += &format!("*  {:4} {:>2} {:>2} {:>2} {:>2} {:2}.{:08}{e}", c.y, c.mo, c.d, c.h, c.mi, c.s, c.ns / 10);
        recs.push(Rec { s: vec!["epoch".into()], n: vec![], t: vec![c.unix_ns()] });
        for _ in 0..s.int(0, 5) {
            let id = format!("{}{:02}", s.pick(&["G", "R", "E", "C", "L", " "]), s.int(1, 99));
            let (xt, x) = num(s, -99_999.0, 99_999.0, 6);
            let (yt, y) = num(s, -99_999.0, 99_999.0, 6);
            let (zt, z) = num(s, -99_999.0, 99_999.0, 6);
            let (ct, c) = if s.chance(1, 6) { ("999999.999999".to_string(), 999999.999999) } else { num(s, -9_999.0, 9_999.0, 6) };
            let tail = if s.chance(1, 5) { "  7  7  6  92       EP" } else { "" };
            o += &format!("P{id} {xt:>14} {yt:>14} {zt:>14} {ct:>14}{tail}{e}");
            recs.push(Rec { s: vec![id.trim().to_string()], n: vec![x, y, z, c], t: vec![] });
            match s.below(8) {
                0 => o += &format!("V{id}  1234.567890  -2.000000  3.500000 999999.999999{e}"),
                1 => o += &format!("EP   55   55   55     222 1234567 -1234567 5999999 -30 21 -1230000{e}"),
                2 => o += &format!("EV   22   22   22     111 1234567 1234567 1234567{e}"),
                _ => {}
            }
        }
    }
    let mut term = None;
    if s.chance(4, 5) {
        o += &format!("EOF{e}");
        term = Some(o.len());
        if s.chance(1, 6) {
            o += "*  2000  1  1  0  0  0.00000000\nPG99 1.0 2.0 3.0 4.0\n";
        }
    }
    Doc { bytes: o.into_bytes(), expect: Parsed { head, recs }, term }
}

pub fn sp3_epochs(epochs: &[siderust::formats::igs::sp3::Sp3Epoch]) -> Vec<Rec> {
    let mut recs = Vec::new();
    for e in epochs {
        recs.push(Rec { s: vec!["epoch".into()], n: vec![], t: vec![utc_ns(&e.time)] });
        for p in &e.positions {
            recs.push(Rec { s: vec![p.sat_id.clone()], n: vec![p.position.x().value(), p.position.y().value(), p.position.z().value(), p.clock.value()], t: vec![] });
        }
    }
    recs
}

pub fn sp3_read(r: &mut dyn Read) -> Result<Parsed, String> {
    let rec = siderust::formats::igs::sp3::read_sp3(r).map_err(|e| e.to_string())?;
    Ok(Parsed { head: Rec { s: rec.header.clone(), ..Default::default() }, recs: sp3_epochs(&rec.epochs) })
}

// ---------------------------------------------------------------- ANTEX

fn hl(body: &str, label: &str, e: &str) -> String {
    format!("{body:<60}{label}{e}")
}

pub fn antex_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let mut o = hl("     1.4            M", "ANTEX VERSION / SYST", e);
    o += &hl("A", "PCV TYPE / REFANT", e);
    o += &hl("", "END OF HEADER", e);
    let mut map: std::collections::BTreeMap<(String, String), Rec> = Default::default();
    let mut names = std::collections::BTreeSet::new();
    let na = count(s, 30);
    for k in 0..na {
        let name = format!("{:<12} {}{k}", s.ident(3, 12, UPPER), s.ident(1, 4, UPPER)).trim().to_string();
        if !names.insert(name.clone()) {
            continue;
        }
        o += &hl("", "START OF ANTENNA", e);
        o += &hl(&name, "TYPE / SERIAL NO", e);
        if s.chance(1, 3) {
            o += &hl("     5.0", "DAZI", e);
            o += &hl("IGS14_2212", "SINEX CODE", e);
        }
        map.insert((name.clone(), String::new()), Rec { s: vec![name.clone()], ..Default::default() });
        let mut used = std::collections::BTreeSet::new();
        for _ in 0..s.int(0, 4) {
            let f = format!("{}{:02}", s.pick(&["G", "R", "E"]), s.int(1, 9));
            if !used.insert(f.clone()) {
                continue;
            }
            let (a, x) = num(s, -9_999.0, 9_999.0, 2);
            let (b, y) = num(s, -9_999.0, 9_999.0, 2);
            let (c, z) = num(s, -9_999.0, 9_999.0, 2);
            o += &hl(&format!("   {f}"), "START OF FREQUENCY", e);
            o += &hl(&format!("{a:>10}{b:>10}{c:>10}").replace("", ""), "NORTH / EAST / UP", e);
            o += &format!("   NOAZI    0.00   -0.10   -0.50   -1.00{e}");
            o += &hl(&format!("   {f}"), "END OF FREQUENCY", e);
            map.insert((name.clone(), f.clone()), Rec { s: vec![name.clone(), f], n: vec![x, y, z], t: vec![] });
        }
        o += &hl("", "END OF ANTENNA", e);
    }
    Doc { bytes: o.into_bytes(), expect: Parsed { head: Rec::default(), recs: map.into_values().collect() }, term: None }
}

pub fn antex_recs(cat: &siderust::formats::igs::antex::AntexCatalog) -> Vec<Rec> {
    let mut map: std::collections::BTreeMap<(String, String), Rec> = Default::default();
    for (a, m) in cat {
        map.insert((a.clone(), String::new()), Rec { s: vec![a.clone()], ..Default::default() });
        for (f, p) in m {
            map.insert((a.clone(), f.clone()), Rec { s: vec![a.clone(), f.clone()], n: vec![p.x().value(), p.y().value(), p.z().value()], t: vec![] });
        }
    }
    map.into_values().collect()
}

pub fn antex_read(r: &mut dyn Read) -> Result<Parsed, String> {
    let cat = siderust::formats::igs::antex::read_antex(r).map_err(|e| e.to_string())?;
    Ok(Parsed { head: Rec::default(), recs: antex_recs(&cat) })
}

// ---------------------------------------------------------------- SINEX

pub fn sinex_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let mut o = String::new();
    let mut head = Rec { s: vec![String::new()], ..Default::default() };
    if s.chance(5, 6) {
        let ag = s.ident(3, 3, UPPER);
        o += &format!("%=SNX 2.02 {ag} 24:001:00000 {ag} 24:001:00000 24:002:00000 C{e}");
        head.s[0] = ag;
    }
    let ns = count(s, 60);
    let mut codes = std::collections::BTreeSet::new();
    while codes.len() < ns {
        codes.insert(format!("{}{:02}", s.ident(2, 2, "ABCDEFGHIJKLMNOPQRSTUVWXYZ"), codes.len()));
    }
    o += &format!("+SITE/ID{e}");
    for c in &codes {
        o += &format!(" {c}  A 10002M006 P Somewhere{e}");
    }
    o += &format!("-SITE/ID{e}*{}{e}+SOLUTION/ESTIMATE{e}*INDEX TYPE__ CODE PT SOLN{e}", "-".repeat(70));
    // Each station: complete triplet (or incomplete, which is not a station).
    let mut rows: Vec<(String, usize)> = Vec::new();
    let mut model: Vec<Rec> = Vec::new();
    for (i, c) in codes.iter().enumerate() {
        let c0 = civil(s, 1_000_000_000);
        let ep = format!("{:02}:{:03}:{:05}", c0.y % 100, c0.doy(), c0.sod_ns() / 1_000_000_000);
        let pt = s.pick(&["A", "B"]).to_string();
        let soln = format!("{}", s.int(1, 9));
        let full = !s.chance(1, 6);
        let vel = s.chance(1, 2);
        let mut n = Vec::new();
        let comps: &[&str] = if vel { &["STAX", "STAY", "STAZ", "VELX", "VELY", "VELZ"] } else { &["STAX", "STAY", "STAZ"] };
        for (k, ty) in comps.iter().enumerate() {
            if !full && k == 1 {
                continue;
            }
            let (_, v) = if k < 3 { num(s, -6.4e6, 6.4e6, 4) } else { num(s, -0.1, 0.1, 5) };
            let vt = format!("{v:.15e}");
            let v: f64 = vt.parse().unwrap();
            n.push(v);
            rows.push((format!("{:6} {ty:<6} {c} {pt:>2} {soln:>4} {ep} m    2 {vt:>21} 1.00e-03", i * 6 + k + 1), i));
        }
        if full {
            let t = c0.unix_ns();
            model.push(Rec { s: vec![c.clone(), pt, soln, if vel { "v".into() } else { "-".into() }], n, t: vec![t] });
        }
    }
    if s.chance(1, 4) {
        // components interleaved across stations
        s.shuffle(&mut rows);
    }
    for (r, _) in &rows {
        o += &format!(" {}{e}", r.trim_start());
        if s.chance(1, 12) {
            o += &format!("* comment line{e}");
        }
    }
    o += &format!("-SOLUTION/ESTIMATE{e}");
    if s.chance(1, 3) {
        o += &format!("+SOLUTION/APRIORI{e}     1 STAX   ZZZZ  A    1 24:001:00000 m    2 1.0 1.0{e}-SOLUTION/APRIORI{e}");
    }
    o += &format!("%ENDSNX{e}");
    let term = Some(o.len());
    model.sort_by(|a, b| a.s.cmp(&b.s));
    Doc { bytes: o.into_bytes(), expect: Parsed { head, recs: model }, term }
}

fn mjd_ns(m: f64) -> i64 {
    let d = m.floor();
    (d as i64).saturating_sub(40_587).saturating_mul(86_400_000_000_000).saturating_add(((m - d) * 86_400e9).round() as i64)
}

pub fn sinex_read_mode(r: &mut dyn Read, mode: siderust::formats::ParseMode, sort: bool) -> Result<Parsed, String> {
    let sol = siderust::formats::igs::sinex::read_sinex(r, mode).map_err(|e| e.to_string())?;
    let mut recs: Vec<Rec> = sol
        .stations
        .iter()
        .map(|st| {
            let mut n = vec![st.position.x().value(), st.position.y().value(), st.position.z().value()];
            if let Some(v) = st.velocity_m_yr {
                n.extend(v);
            }
            Rec {
                s: vec![st.code.clone(), st.point_code.clone(), st.solution_id.clone(), if st.velocity_m_yr.is_some() { "v".into() } else { "-".into() }],
                n,
                t: vec![mjd_ns(st.ref_epoch_mjd)],
            }
        })
        .collect();
    if sort {
        recs.sort_by(|a, b| a.s.cmp(&b.s));
    }
    Ok(Parsed { head: Rec { s: vec![sol.agency], ..Default::default() }, recs })
}

pub fn sinex_read(r: &mut dyn Read) -> Result<Parsed, String> {
    sinex_read_mode(r, siderust::formats::ParseMode::Strict, true)
}

// ---------------------------------------------------------------- ORBEX

pub fn orbex_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let mut o = String::new();
    let mut head = Rec { s: vec![String::new()], ..Default::default() };
    if s.chance(5, 6) {
        o += &format!("%=ORBEX 0.09{e}");
        head.s[0] = "0.09".into();
    }
    o += &format!("+FILE/DESCRIPTION{e} DESCRIPTION test{e}-FILE/DESCRIPTION{e}+EPHEMERIS/DATA{e}");
    // Section marker, then epochs within.
    let (mut orb, mut clk, mut att) = (Vec::new(), Vec::new(), Vec::new());
    for _ in 0..s.int(0, 4) {
        let sec = s.below(3);
        o += ["#ORB", "#CLK", "#ATT"][sec as usize];
        o += e;
        for _ in 0..count(s, 30) {
            let c = civil(s, 100);
            let sod = c.sod_ns();
            o += &format!("## {} {:03} {:05}.{:07}{e}", c.y, c.doy(), sod / 1_000_000_000, sod % 1_000_000_000 / 100);
            for _ in 0..s.int(0, 4) {
                let sat = format!("{}{:02}", s.pick(&["G", "E", "R"]), s.int(1, 40));
                match sec {
                    0 => {
                        let k = if s.chance(1, 2) { 6 } else { 3 };
                        let mut n = Vec::new();
                        o += &format!(" {sat}");
                        for j in 0..k {
                            let (t, v) = if j < 3 { num(s, -4e7, 4e7, 4) } else { num(s, -9000.0, 9000.0, 6) };
                            o += &format!(" {t:>16}");
                            n.push(v);
                        }
                        o += e;
                        orb.push(Rec { s: vec!["orb".into(), sat], n, t: vec![c.unix_ns()] });
                    }
                    1 => {
                        let (t, v) = num(s, -1e-3, 1e-3, 12);
                        o += &format!(" {sat} {t}{e}");
                        clk.push(Rec { s: vec!["clk".into(), sat], n: vec![v], t: vec![c.unix_ns()] });
                    }
                    _ => {
                        let mut n = Vec::new();
                        o += &format!(" {sat}");
                        for _ in 0..4 {
                            let (t, v) = num(s, -1.0, 1.0, 10);
                            o += &format!(" {t}");
                            n.push(v);
                        }
                        o += e;
                        att.push(Rec { s: vec!["att".into(), sat], n, t: vec![c.unix_ns()] });
                    }
                }
            }
        }
    }
    o += &format!("-EPHEMERIS/DATA{e}");
    let mut term = None;
    if s.chance(4, 5) {
        o += &format!("%ENDORBEX{e}");
        term = Some(o.len());
    }
    let mut recs = orb;
    recs.append(&mut clk);
    recs.append(&mut att);
    Doc { bytes: o.into_bytes(), expect: Parsed { head, recs }, term }
}

pub fn orbex_read_mode(r: &mut dyn Read, mode: siderust::formats::ParseMode) -> Result<Parsed, String> {
    let p = siderust::formats::igs::orbex::read_orbex(r, mode).map_err(|e| e.to_string())?;
    let mut recs = Vec::new();
    for x in &p.orbits {
        let mut n = x.pos_m.to_vec();
        if let Some(v) = x.vel_m_s {
            n.extend(v);
        }
        recs.push(Rec { s: vec!["orb".into(), x.sat.clone()], n, t: vec![mjd_ns(x.epoch_mjd)] });
    }
    for x in &p.clocks {
        recs.push(Rec { s: vec!["clk".into(), x.sat.clone()], n: vec![x.bias_s], t: vec![mjd_ns(x.epoch_mjd)] });
    }
    for x in &p.attitudes {
        recs.push(Rec { s: vec!["att".into(), x.sat.clone()], n: x.quaternion.to_vec(), t: vec![mjd_ns(x.epoch_mjd)] });
    }
    Ok(Parsed { head: Rec { s: vec![p.version], ..Default::default() }, recs })
}

pub fn orbex_read(r: &mut dyn Read) -> Result<Parsed, String> {
    orbex_read_mode(r, siderust::formats::ParseMode::Strict)
}

// ---------------------------------------------------------------- vgosDB side-car

pub fn vgos_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let mut o = String::new();
    let code = s.ident(0, 12, NAMEY);
    let start = s.ident(0, 20, "0123456789-T:");
    let st: Vec<String> = (0..count(s, 900)).map(|_| s.ident(1, 8, UPPER)).collect();
    if s.chance(1, 2) {
        o += &format!("# comment{e}{e}");
    }
    o += &format!("session_code = {code}{e}");
    o += &format!("start_epoch={start}{e}");
    o += &format!("stations = {}{e}", st.join(if s.chance(1, 2) { ", " } else { "," }));
    let mut ss = vec![code, start];
    ss.extend(st);
    Doc { bytes: o.into_bytes(), expect: Parsed { head: Rec::default(), recs: vec![Rec { s: ss, ..Default::default() }] }, term: None }
}

pub fn vgos_read(r: &mut dyn Read) -> Result<Parsed, String> {
    let h = siderust::formats::vlbi::vgosdb::read_vgosdb_sidecar(r).map_err(|e| e.to_string())?;
    let mut ss = vec![h.session_code, h.start_epoch];
    ss.extend(h.stations);
    Ok(Parsed { head: Rec::default(), recs: vec![Rec { s: ss, ..Default::default() }] })
}

// ---------------------------------------------------------------- EOP C04

pub fn eop_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let mut o = String::new();
    for _ in 0..s.int(0, 5) {
        o += &format!("# EOP (IERS) 20 C04 {}{e}", s.ident(0, 30, NAMEY));
    }
    if s.chance(1, 4) {
        o += &format!("  Date      MJD      x          y        UT1-UTC       LOD         dX        dY        x Err     y Err{e}");
    }
    let mut recs = Vec::new();
    let start = s.int(47_000, 61_000);
    for k in 0..count(s, 120) {
        let mjd = start + k as i64;
        let (y, m, d) = civil_from_days(mjd - 40_587);
        let (at, a) = num(s, -0.9, 0.9, 6);
        let (bt, b) = num(s, -0.9, 0.9, 6);
        let (ct, c) = num(s, -0.9, 0.9, 7);
        let (dt, dd) = num(s, -0.01, 0.01, 7);
        let (et, ee) = num(s, -0.001, 0.001, 6);
        let (ft, f) = num(s, -0.001, 0.001, 6);
        let mt = if s.chance(1, 3) { format!("{mjd}.00") } else { format!("{mjd}") };
        o += &format!("{y:4}{m:4}{d:4} {mt:>9} {at:>11}{bt:>11}{ct:>12}{dt:>12}{et:>11}{ft:>11}   0.000048   0.000049  0.0000050  0.0000123    0.000010    0.000010{e}");
        recs.push(Rec { s: vec![], n: vec![a, b, c, dd, ee * 1000.0, f * 1000.0], t: vec![(mjd - 40_587) * 86_400_000_000_000] });
    }
    Doc { bytes: o.into_bytes(), expect: Parsed { head: Rec::default(), recs }, term: None }
}

pub fn eop_read(r: &mut dyn Read) -> Result<Parsed, String> {
    let v = siderust::formats::iers::eop::read_eop_c04(r).map_err(|e| e.to_string())?;
    Ok(Parsed {
        head: Rec::default(),
        recs: v
            .iter()
            .map(|x| Rec {
                s: vec![],
                n: vec![x.eop.xp.value(), x.eop.yp.value(), x.eop.dut1.value(), x.eop.lod.value(), x.eop.dx.value(), x.eop.dy.value()],
                t: vec![mjd_ns(x.mjd.raw().value())],
            })
            .collect(),
    })
}

// ---------------------------------------------------------------- CCSDS OPM

pub fn opm_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let c = civil(s, 1_000);
    let epoch = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06}", c.y, c.mo, c.d, c.h, c.mi, c.s, c.ns / 1000);
    let name = s.ident(1, 16, NAMEY);
    let id = format!("{}-{:03}A", c.y, s.int(1, 200));
    let mut lines = vec!["CCSDS_OPM_VERS = 2.0".to_string()];
    if s.chance(1, 2) {
        lines.push("COMMENT a comment = with an equals sign".into());
    }
    lines.push("META_START".into());
    let mut ss = vec![name.clone(), id.clone()];
    lines.push(format!("OBJECT_NAME = {name}"));
    lines.push(format!("OBJECT_ID = {id}"));
    let (cn, rf, ts) = (s.pick(&["EARTH", "MOON"]).to_string(), s.pick(&["GCRF", "EME2000", "TEME"]).to_string(), s.pick(&["UTC", "TAI", "TT"]).to_string());
    lines.push(format!("CENTER_NAME = {cn}"));
    lines.push(format!("REF_FRAME            = {rf}"));
    lines.push(format!("TIME_SYSTEM={ts}"));
    lines.push("META_STOP".into());
    lines.push(format!("EPOCH = {epoch}"));
    ss.extend([cn, rf, ts, epoch]);
    let mut n = Vec::new();
    for k in ["X", "Y", "Z"] {
        let (t, v) = num(s, -99_999.0, 99_999.0, 6);
        lines.push(format!("{k} = {t}"));
        n.push(v);
    }
    for k in ["X_DOT", "Y_DOT", "Z_DOT"] {
        let (t, v) = num(s, -20.0, 20.0, 6);
        lines.push(format!("{k} = {t}"));
        n.push(v);
    }
    if s.chance(1, 2) {
        for (k, lo, hi, d) in [
            ("SEMI_MAJOR_AXIS", 6400.0, 90_000.0, 6),
            ("ECCENTRICITY", 0.0, 0.99, 7),
            ("INCLINATION", 0.0, 180.0, 4),
            ("RA_OF_ASC_NODE", 0.0, 360.0, 4),
            ("ARG_OF_PERICENTER", 0.0, 360.0, 4),
            ("TRUE_ANOMALY", 0.0, 360.0, 4),
        ] {
            let (t, v) = num(s, lo, hi, d);
            lines.push(format!("{k} = {t}"));
            n.push(v);
        }
    }
    let o = lines.join(e) + e;
    Doc { bytes: o.into_bytes(), expect: Parsed { head: Rec::default(), recs: vec![Rec { s: ss, n, t: vec![] }] }, term: None }
}

pub fn opm_rec(m: &siderust::formats::ccsds::opm::OpmMessage) -> Rec {
    let md = &m.metadata;
    let mut n = m.state.position_km.to_vec();
    n.extend(m.state.velocity_km_s);
    if let Some(k) = &m.keplerian {
        n.extend([k.semi_major_axis_km, k.eccentricity, k.inclination_deg, k.ra_of_asc_node_deg, k.arg_of_pericenter_deg, k.true_anomaly_deg]);
    }
    Rec { s: vec![md.object_name.clone(), md.object_id.clone(), md.center_name.clone(), md.ref_frame.clone(), md.time_system.clone(), m.state.epoch.clone()], n, t: vec![] }
}

pub fn opm_read(r: &mut dyn Read) -> Result<Parsed, String> {
    let m = siderust::formats::ccsds::opm::read_opm(r).map_err(|e| e.to_string())?;
    Ok(Parsed { head: Rec::default(), recs: vec![opm_rec(&m)] })
}

// ---------------------------------------------------------------- CCSDS TDM

pub fn iso(c: &Civil, dec: usize) -> String {
    let f = format!("{:09}", c.ns);
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}{}", c.y, c.mo, c.d, c.h, c.mi, c.s, if dec > 0 { "." } else { "" }, &f[..dec])
}

pub fn tdm_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let mut o = format!("CCSDS_TDM_VERS = 1.0{e}COMMENT hello{e}");
    let mut recs = Vec::new();
    let mut obs = Vec::new();
    for _ in 0..s.int(1, 3) {
        o += &format!("META_START{e}");
        let mut ss = vec!["meta".to_string(), String::new(), String::new(), String::new()];
        if s.chance(3, 4) {
            ss[3] = s.pick(&["UTC", "TAI"]).to_string();
            o += &format!("TIME_SYSTEM = {}{e}", ss[3]);
        }
        for k in 0..s.int(0, 3) {
            let p = s.ident(1, 12, NAMEY);
            o += &format!("PARTICIPANT_{} = {p}{e}", k + 1);
            ss.push(p);
        }
        if s.chance(3, 4) {
            ss[1] = "SEQUENTIAL".into();
            o += &format!("MODE = SEQUENTIAL{e}");
        }
        if s.chance(3, 4) {
            ss[2] = s.pick(&["1,2,1", "2,1"]).to_string();
            o += &format!("PATH = {}{e}", ss[2]);
        }
        o += &format!("META_STOP{e}DATA_START{e}");
        recs.push(Rec { s: ss, ..Default::default() });
        for _ in 0..count(s, 60) {
            let (kw, name) = *s.pick(&[
                ("RANGE", "Range"),
                ("DOPPLER_INSTANTANEOUS", "Doppler"),
                ("DOPPLER_INTEGRATED", "Doppler"),
                ("ANGLE_1", "Angle1"),
                ("ANGLE_2", "Angle2"),
                ("PR_N0", "PR_N0"),
                ("RECEIVE_FREQ_2", "RECEIVE_FREQ_2"),
            ]);
            let c = civil(s, 1000);
            let ep = iso(&c, *s.pick(&[0usize, 3, 6]));
            let (t, v) = num(s, -1e6, 1e6, 7);
            let pad = if s.chance(1, 3) { "   " } else { "" };
            o += &format!("{kw}{pad} = {ep} : {t}{e}");
            obs.push(Rec { s: vec![name.to_string(), ep], n: vec![v], t: vec![] });
        }
        o += &format!("DATA_STOP{e}");
    }
    recs.extend(obs);
    Doc { bytes: o.into_bytes(), expect: Parsed { head: Rec::default(), recs }, term: None }
}

pub fn tdm_parsed(m: &siderust::formats::ccsds::tdm::TdmMessage) -> Parsed {
    use siderust::formats::ccsds::tdm::ObservationType as O;
    let mut recs = Vec::new();
    for x in &m.metadata {
        let mut ss = vec!["meta".to_string(), x.mode.clone(), x.path.clone(), x.time_system.clone()];
        ss.extend(x.participants.iter().cloned());
        recs.push(Rec { s: ss, ..Default::default() });
    }
    for x in &m.observations {
        let name = match &x.obs_type {
            O::Range => "Range".to_string(),
            O::Doppler => "Doppler".into(),
            O::Angle1 => "Angle1".into(),
            O::Angle2 => "Angle2".into(),
            O::Other(k) => k.clone(),
        };
        recs.push(Rec { s: vec![name, x.epoch.clone()], n: vec![x.value], t: vec![] });
    }
    Parsed { head: Rec::default(), recs }
}

pub fn tdm_read(r: &mut dyn Read) -> Result<Parsed, String> {
    Ok(tdm_parsed(&siderust::formats::ccsds::tdm::read_tdm(r).map_err(|e| e.to_string())?))
}

// ---------------------------------------------------------------- CCSDS OEM (KVN and XML)

fn jd_ns(jd: f64) -> i64 {
    // JD 2440587.5 = Unix epoch; the f64 JD itself resolves about 40 µs.
    let d = (jd + 0.5).floor();
    (d as i64).saturating_sub(2_440_588).saturating_mul(86_400_000_000_000).saturating_add(((jd + 0.5 - d) * 86_400e9).round() as i64)
}

pub fn oem_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let cd = iso(&civil(s, 1_000_000_000), 0);
    let org = s.ident(3, 12, UPPER);
    let mut o = format!("CCSDS_OEM_VERS = 2.0{e}COMMENT x{e}CREATION_DATE = {cd}{e}ORIGINATOR = {org}{e}{e}");
    let head = Rec { s: vec!["2.0".into(), cd, org], ..Default::default() };
    let mut recs = Vec::new();
    for _ in 0..s.int(1, 3) {
        let name = s.ident(1, 16, NAMEY);
        let id = s.ident(1, 12, NAMEY);
        let (cn, rf, ts) = (s.pick(&["EARTH", "MARS BARYCENTER"]).to_string(), s.pick(&["EME2000", "ITRF2000"]).to_string(), s.pick(&["UTC", "TDB"]).to_string());
        o += &format!("META_START{e}OBJECT_NAME = {name}{e}OBJECT_ID={id}{e}CENTER_NAME = {cn}{e}REF_FRAME          = {rf}{e}TIME_SYSTEM = {ts}{e}");
        o += &format!("START_TIME = 2024-01-01T00:00:00{e}STOP_TIME = 2025-01-01T00:00:00{e}");
        if s.chance(1, 3) {
            o += &format!("INTERPOLATION = HERMITE{e}INTERPOLATION_DEGREE = 7{e}");
        }
        o += &format!("META_STOP{e}{e}");
        recs.push(Rec { s: vec![id, name, rf, ts, cn], ..Default::default() });
        for _ in 0..count(s, 60) {
            let mut c = civil(s, 1000);
            let dec = *s.pick(&[6usize, 6, 3, 0]);
            c.ns -= c.ns % 10i64.pow(9 - dec as u32);
            o += &iso(&c, dec);
            let mut n = Vec::new();
            for j in 0..6 {
                let (t, v) = if j < 3 { num(s, -4e5, 4e5, 6) } else { num(s, -20.0, 20.0, 9) };
                o += &format!("{}{t}", if s.chance(1, 4) { "   " } else { " " });
                n.push(v);
            }
            o += e;
            if s.chance(1, 20) {
                o += &format!("COMMENT mid-segment{e}");
            }
            recs.push(Rec { s: vec![], n, t: vec![c.unix_ns()] });
        }
        if s.chance(1, 4) {
            o += &format!("{e}COVARIANCE_START{e}EPOCH = 2024-01-01T00:00:00{e}COV_REF_FRAME = RTN{e}3.3e-04{e}4.6e-04 6.7e-04{e}COVARIANCE_STOP{e}");
            s.probe("oem_covariance_block");
        }
    }
    Doc { bytes: o.into_bytes(), expect: Parsed { head, recs }, term: None }
}

pub fn oem_parsed(f: &siderust::formats::ccsds::oem::OemFile) -> Parsed {
    let mut recs = Vec::new();
    for g in &f.segments {
        let m = &g.metadata;
        recs.push(Rec { s: vec![m.object_id.clone(), m.object_name.clone(), m.ref_frame.clone(), m.time_system.clone(), m.center_name.clone()], ..Default::default() });
        for st in &g.states {
            let mut n = st.position_km.to_vec();
            n.extend(st.velocity_km_s);
            recs.push(Rec { s: vec![], n, t: vec![jd_ns(st.epoch_jd)] });
        }
    }
    Parsed { head: Rec { s: vec![f.version.clone(), f.creation_date.clone(), f.originator.clone()], ..Default::default() }, recs }
}

pub fn oem_read(r: &mut dyn Read) -> Result<Parsed, String> {
    Ok(oem_parsed(&siderust::formats::ccsds::oem::read_oem(r).map_err(|e| e.to_string())?))
}

pub fn oem_xml_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let cd = iso(&civil(s, 1_000_000_000), 0);
    let org = s.ident(3, 12, UPPER);
    let mut o = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>{e}<oem id=\"CCSDS_OEM_VERS\" version=\"2.0\">{e}<header><CREATION_DATE>{cd}</CREATION_DATE>{e}<ORIGINATOR>{org}</ORIGINATOR></header>{e}<body>{e}");
    let head = Rec { s: vec!["2.0".into(), cd, org], ..Default::default() };
    let mut recs = Vec::new();
    for _ in 0..s.int(1, 3) {
        let name = s.ident(1, 16, NAMEY);
        let id = s.ident(1, 12, NAMEY);
        let (cn, rf, ts) = (s.pick(&["EARTH", "MARS BARYCENTER"]).to_string(), s.pick(&["EME2000", "ITRF2000"]).to_string(), s.pick(&["UTC", "TDB"]).to_string());
        o += &format!("<segment>{e}<metadata>{e}<OBJECT_NAME>{name}</OBJECT_NAME>{e}<OBJECT_ID>{id}</OBJECT_ID>{e}<CENTER_NAME>{cn}</CENTER_NAME>{e}<REF_FRAME>{rf}</REF_FRAME>{e}<TIME_SYSTEM>{ts}</TIME_SYSTEM>{e}</metadata>{e}<data>{e}");
        recs.push(Rec { s: vec![id, name, rf, ts, cn], ..Default::default() });
        for _ in 0..count(s, 40) {
            let c = civil(s, 1000);
            o += &format!("  <stateVector>{e}    <EPOCH>{}</EPOCH>{e}", iso(&c, 6));
            let mut n = Vec::new();
            for (j, k) in ["X", "Y", "Z", "X_DOT", "Y_DOT", "Z_DOT"].iter().enumerate() {
                let (t, v) = if j < 3 { num(s, -4e5, 4e5, 6) } else { num(s, -20.0, 20.0, 9) };
                let u = if s.chance(1, 2) { if j < 3 { " units=\"km\"" } else { " units=\"km/s\"" } } else { "" };
                o += &format!("    <{k}{u}>{t}</{k}>{e}");
                n.push(v);
            }
            o += &format!("  </stateVector>{e}");
            recs.push(Rec { s: vec![], n, t: vec![c.unix_ns()] });
        }
        o += &format!("</data>{e}</segment>{e}");
    }
    o += &format!("</body>{e}</oem>{e}");
    Doc { bytes: o.into_bytes(), expect: Parsed { head, recs }, term: None }
}

pub fn oem_xml_read(r: &mut dyn Read) -> Result<Parsed, String> {
    Ok(oem_parsed(&siderust::formats::ccsds::oem::read_oem_xml(r).map_err(|e| e.to_string())?))
}

// ---------------------------------------------------------------- RINEX OBS

pub fn obs_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let mut o = hl("     3.04           OBSERVATION DATA    M (MIXED)", "RINEX VERSION / TYPE", e);
    let marker = s.ident(1, 20, UPPER);
    o += &hl(&marker, "MARKER NAME", e);
    let mut head = Rec { s: vec![marker], ..Default::default() };
    if s.chance(2, 3) {
        let mut body = String::new();
        for _ in 0..3 {
            let (t, v) = num(s, -6.4e6, 6.4e6, 4);
            body += &format!("{t:>14}");
            head.n.push(v);
        }
        o += &hl(&body, "APPROX POSITION XYZ", e);
        head.s.push("xyz".into());
    }
    let mut types: std::collections::BTreeMap<char, Vec<String>> = Default::default();
    for sys in ['G', 'R', 'E'] {
        if s.chance(1, 4) {
            continue;
        }
        let n = match s.below(4) {
            0 => s.int(13, 27),
            _ => s.int(1, 5),
        } as usize;
        let mut ts: Vec<String> = Vec::new();
        'outer: for k in ["C", "L", "D", "S"] {
            for b in 1..9 {
                ts.push(format!("{k}{b}{}", s.pick(&["C", "W", "X"])));
                if ts.len() == n {
                    break 'outer;
                }
            }
        }
        for (i, chunk) in ts.chunks(13).enumerate() {
            let mut body = if i == 0 { format!("{sys}  {:>3}", ts.len()) } else { "      ".to_string() };
            for t in chunk {
                body += &format!(" {t}");
            }
            o += &hl(&body, "SYS / # / OBS TYPES", e);
        }
        types.insert(sys, ts);
    }
    for (k, v) in &types {
        head.s.push(format!("{k}:{}", v.join(",")));
    }
    if s.chance(1, 2) {
        let (t, v) = num(s, 0.1, 60.0, 3);
        o += &hl(&format!("{t:>10}"), "INTERVAL", e);
        head.s.push("interval".into());
        head.n.push(v);
    }
    o += &hl("", "END OF HEADER", e);
    let mut recs = Vec::new();
    for _ in 0..count(s, 24) {
        let c = civil(s, 100);
        let mut sats = std::collections::BTreeSet::new();
        for _ in 0..s.int(0, 6) {
            sats.insert(format!("{}{:02}", s.pick(&["G", "R", "E"]), s.int(1, 32)));
        }
        o += &format!("> {:4} {:02} {:02} {:02} {:02} {:2}.{:07}  0 {:>2}{e}", c.y, c.mo, c.d, c.h, c.mi, c.s, c.ns / 100, sats.len());
        recs.push(Rec { s: vec!["epoch".into()], n: vec![], t: vec![c.unix_ns()] });
        for sat in sats {
            let ts = types.get(&sat.chars().next().unwrap()).cloned().unwrap_or_default();
            let mut row = sat.clone();
            let mut vals: Vec<(String, f64)> = Vec::new();
            for t in &ts {
                if s.chance(1, 6) {
                    row += &" ".repeat(16);
                } else {
                    let (x, v) = num(s, -9_999_999.0, 999_999_999.0, 3);
                    row += &format!("{x:>14}{}{}", if s.chance(1, 8) { "1" } else { " " }, if s.chance(1, 4) { "7" } else { " " });
                    vals.push((t.clone(), v));
                }
            }
            o += row.trim_end();
            o += e;
            vals.sort_by(|a, b| a.0.cmp(&b.0));
            let mut r = Rec { s: vec![sat], ..Default::default() };
            for (k, v) in vals {
                r.s.push(k);
                r.n.push(v);
            }
            recs.push(r);
        }
    }
    Doc { bytes: o.into_bytes(), expect: Parsed { head, recs }, term: None }
}

pub fn obs_parsed(x: &siderust::formats::rinex::obs::RinexObs) -> Parsed {
    let mut head = Rec { s: vec![x.marker.clone()], ..Default::default() };
    if let Some(p) = &x.approx_xyz_m {
        head.s.push("xyz".into());
        head.n.extend(p.iter().map(|v| v.value()));
    }
    let mut k: Vec<_> = x.obs_types.iter().collect();
    k.sort();
    for (c, v) in k {
        head.s.push(format!("{c}:{}", v.join(",")));
    }
    if let Some(i) = x.interval_s {
        head.s.push("interval".into());
        head.n.push(i.value());
    }
    let mut recs = Vec::new();
    for ep in &x.epochs {
        recs.push(Rec { s: vec!["epoch".into()], n: vec![], t: vec![utc_ns(&ep.time)] });
        let mut sats: Vec<_> = ep.satellites.iter().collect();
        sats.sort_by(|a, b| a.0.cmp(b.0));
        for (sat, vals) in sats {
            let mut v: Vec<_> = vals.iter().collect();
            v.sort_by(|a, b| a.0.cmp(b.0));
            let mut r = Rec { s: vec![sat.clone()], ..Default::default() };
            for (k, v) in v {
                r.s.push(k.clone());
                r.n.push(*v);
            }
            recs.push(r);
        }
    }
    Parsed { head, recs }
}

pub fn obs_read(r: &mut dyn Read) -> Result<Parsed, String> {
    Ok(obs_parsed(&siderust::formats::rinex::obs::read_rinex_obs(r).map_err(|e| e.to_string())?))
}

// ---------------------------------------------------------------- RINEX DORIS

pub fn doris_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let mut o = hl("     3.00           OBSERVATION DATA    D", "RINEX VERSION / TYPE", e);
    let (pg, ag, mk, an, re) = (s.ident(1, 18, UPPER), s.ident(1, 18, UPPER), s.ident(1, 30, UPPER), s.ident(1, 20, UPPER), s.ident(1, 18, UPPER));
    o += &hl(&format!("{pg:<20}{ag:<20}"), "PGM / RUN BY / DATE", e);
    o += &hl(&mk, "MARKER NAME", e);
    o += &hl(&format!("{:<20}{re:<20}", "1"), "REC # / TYPE / VERS", e);
    o += &hl(&format!("{:<20}{an}", "2"), "ANT # / TYPE", e);
    o += &hl("", "END OF HEADER", e);
    let head = Rec { s: vec!["3.00".into(), pg, ag, mk, an, re], ..Default::default() };
    let mut recs = Vec::new();
    for _ in 0..count(s, 60) {
        let c = civil(s, 1_000_000);
        o += &format!("> {:4} {:02} {:02} {:02} {:02} {:2}.{:03}{e}", c.y, c.mo, c.d, c.h, c.mi, c.s, c.ns / 1_000_000);
        for _ in 0..s.int(0, 4) {
            let sat = format!("D{:02}", s.int(1, 60));
            let (a, _) = num(s, -1e6, 1e6, 3);
            let (b, _) = num(s, -1e3, 1e3, 3);
            let raw = format!("{a} {b}");
            o += &format!("{sat} {raw}{e}");
            recs.push(Rec { s: vec![sat, raw], n: vec![], t: vec![c.unix_ns()] });
        }
    }
    Doc { bytes: o.into_bytes(), expect: Parsed { head, recs }, term: None }
}

pub fn doris_read(r: &mut dyn Read) -> Result<Parsed, String> {
    let d = siderust::formats::rinex::doris::read_rinex_doris(r).map_err(|e| e.to_string())?;
    let h = &d.header;
    Ok(Parsed {
        head: Rec { s: vec![h.version.clone(), h.program.clone(), h.agency.clone(), h.marker_name.clone(), h.antenna_type.clone(), h.receiver_type.clone()], ..Default::default() },
        recs: d.observations.iter().map(|x| Rec { s: vec![x.satellite_id.clone(), x.raw_measurements.clone()], n: vec![], t: vec![mjd_ns(x.epoch_mjd)] }).collect(),
    })
}

// ---------------------------------------------------------------- text-API formats behind a file seam

fn slurp(r: &mut dyn Read) -> Result<String, String> {
    let mut t = String::new();
    r.read_to_string(&mut t).map_err(|e| e.to_string())?;
    Ok(t)
}

pub fn cpf_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let src = s.ident(3, 4, UPPER);
    let name = format!("{}", s.int(1_000_000, 9_999_999));
    let sic = s.int(1, 9999);
    let norad = format!("{}", s.int(1, 99_999));
    let step = s.int(1, 900);
    let frame = s.int(0, 2).to_string();
    let mut o = format!("H1 CPF  2  {src} 2024  1  1  0  0011 01 lageos{e}");
    o += &format!("H2 {name} {sic} {norad} 2024  1  1  0  0  0 2024  1  5 23 59  0 {step} 0 {frame}{e}H9{e}");
    let head = Rec { s: vec!["2".into(), src, name, norad, frame], n: vec![sic as f64, step as f64], t: vec![] };
    let mut recs = Vec::new();
    let mut mjd = s.int(50_000, 62_000);
    for _ in 0..count(s, 100) {
        mjd += s.int(0, 1);
        let sod = match s.below(4) {
            0 => 0,
            1 => 86_399_999,
            _ => s.int(0, 86_399_999),
        };
        let (xt, x) = num(s, -5e7, 5e7, 3);
        let (yt, y) = num(s, -5e7, 5e7, 3);
        let (zt, z) = num(s, -5e7, 5e7, 3);
        o += &format!("10 0 {mjd} {}.{:03}  0 {xt:>17} {yt:>17} {zt:>17}{e}", sod / 1000, sod % 1000);
        if s.chance(1, 8) {
            o += &format!("20 0 123.4 567.8 901.2{e}");
        }
        recs.push(Rec { s: vec![], n: vec![x / 1000.0, y / 1000.0, z / 1000.0], t: vec![(mjd - 40_587) * 86_400_000_000_000 + sod * 1_000_000] });
    }
    o += &format!("99{e}");
    let term = Some(o.len());
    Doc { bytes: o.into_bytes(), expect: Parsed { head, recs }, term }
}

pub fn cpf_parsed(f: &siderust::formats::ilrs::cpf::CpfFile) -> Parsed {
    Parsed {
        head: Rec { s: vec![f.version.clone(), f.source.clone(), f.cospar_id.clone(), f.norad.clone(), f.reference_frame.clone()], n: vec![f.sic as f64, f.time_step_s], t: vec![] },
        recs: f
            .ephemeris
            .entries
            .iter()
            .map(|x| Rec { s: vec![], n: vec![x.position.x().value(), x.position.y().value(), x.position.z().value()], t: vec![utc_ns(&x.epoch)] })
            .collect(),
    }
}

pub fn cpf_read(r: &mut dyn Read) -> Result<Parsed, String> {
    let t = slurp(r)?;
    Ok(cpf_parsed(&siderust::formats::ilrs::cpf::parse_cpf(&t).map_err(|e| e.to_string())?))
}

pub fn crd_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let st = s.ident(4, 10, NAMEY);
    let sat = s.ident(4, 10, NAMEY);
    let (pad, sys, occ, sic) = (s.int(1000, 9999), s.int(1, 99), s.int(1, 99), s.int(1, 9999));
    let norad = format!("{}", s.int(1, 99_999));
    let c = civil(s, 1_000_000_000);
    let mut o = format!("H1 CRD  2 {} {:02} {:02} {:02}{e}H2 {st} {pad} {sys} {occ} 4 ILRS{e}H3 {sat} {sic} {norad} 0 1 1 na{e}", c.y, c.mo, c.d, c.h);
    o += &format!("H4  1 {} {:>2} {:>2} {:>2} {:>2} {:>2} {} {:>2} {:>2} 23 59 59  0 0 0 0 1 0 2 0{e}", c.y, c.mo, c.d, c.h, c.mi, c.s, c.y, c.mo, c.d);
    o += &format!("C0 0 532.000 std1 ml1 mcp mt1{e}");
    let head = Rec { s: vec!["2".into(), st, sat, norad], n: vec![pad as f64, sys as f64, occ as f64, sic as f64], t: vec![civil_days(c.y, c.mo, c.d) * 86_400_000_000_000] };
    let mut recs = Vec::new();
    for _ in 0..count(s, 100) {
        let sod = s.int(0, 86_399_999_999);
        let (tt, tof) = num(s, 0.001, 0.2, 12);
        let nr = s.int(1, 500);
        let (rt, rms) = num(s, 0.1, 99.0, 1);
        o += &format!("11 {}.{:06}00 {tt} std1 2 1 0 0 {nr} {rt} 0.000 -1.000 0.0 12.5 0{e}", sod / 1_000_000, sod % 1_000_000);
        if s.chance(1, 6) {
            o += &format!("20 100.0 1013.2 290.1 55 1{e}");
        }
        recs.push(Rec {
            s: vec!["std1".into(), "2".into(), "1".into(), "0".into(), "0".into(), nr.to_string()],
            n: vec![tof, tof * 299_792_458.0 / 2.0, rms * 1e-12 * 299_792_458.0 / 2.0],
            t: vec![civil_days(c.y, c.mo, c.d) * 86_400_000_000_000 + sod * 1000],
        });
    }
    o += &format!("H8{e}H9{e}");
    Doc { bytes: o.into_bytes(), expect: Parsed { head, recs }, term: None }
}

pub fn crd_read(r: &mut dyn Read) -> Result<Parsed, String> {
    let t = slurp(r)?;
    let f = siderust::formats::ilrs::crd::parse_crd(&t).map_err(|e| e.to_string())?;
    Ok(Parsed {
        head: Rec {
            s: vec![f.format_version.clone(), f.station_name.clone(), f.satellite_name.clone(), f.satellite_norad.clone()],
            n: vec![f.station_cdp_pad as f64, f.station.sys_no as f64, f.station.occ_no as f64, f.satellite_sic as f64],
            t: f.session_date.iter().map(utc_ns).collect(),
        },
        recs: f
            .normal_points
            .iter()
            .map(|p| Rec {
                s: vec![
                    p.system_config_id.clone(),
                    p.epoch_event.to_string(),
                    p.filter_flag.to_string(),
                    p.data_quality.to_string(),
                    p.format_flag.to_string(),
                    p.num_raws.map(|x| x.to_string()).unwrap_or_default(),
                ],
                n: vec![p.time_of_flight.value(), p.range_m.value(), p.bin_rms_m.map(|x| x.value()).unwrap_or(f64::NAN)],
                t: p.epoch.iter().map(utc_ns).collect(),
            })
            .collect(),
    })
}

fn fort(v: f64) -> String {
    // FORTRAN D19.12 as broadcast in RINEX navigation files.
    if v == 0.0 {
        return " 0.000000000000D+00".into();
    }
    let t = format!("{v:.12e}");
    let (m, x) = t.split_once('e').unwrap();
    let x: i32 = x.parse().unwrap();
    format!("{:>15}D{}{:02}", m, if x < 0 { '-' } else { '+' }, x.abs())
}

pub fn nav_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let mut o = hl("     3.04           N: GNSS NAV DATA    G", "RINEX VERSION / TYPE", e);
    o += &hl("", "END OF HEADER", e);
    let mut recs = Vec::new();
    // Real files pack the D19.12 fields without separating blanks.
    let sp = if s.chance(1, 2) { " " } else { "" };
    for _ in 0..count(s, 20) {
        let prn = s.int(1, 32);
        let c = civil(s, 1_000_000_000);
        let mut vals = Vec::new();
        for (i, &(lo, hi)) in [
            (-1e-3, 1e-3), (-1e-10, 1e-10), (-1e-15, 1e-15), (0.0, 255.0), (-500.0, 500.0), (1e-9, 9e-9), (-3.1, 3.1), (-1e-5, 1e-5),
            (0.0, 0.03), (-1e-5, 1e-5), (5153.0, 5154.0), (0.0, 604_784.0), (-1e-7, 1e-7), (-3.1, 3.1), (-1e-7, 1e-7), (0.9, 1.0),
            (-400.0, 400.0), (-3.1, 3.1), (-9e-9, -1e-9), (-1e-9, 1e-9),
        ]
        .iter()
        .enumerate()
        {
            let v = if s.chance(1, 10) { 0.0 } else { s.f64(lo, hi) };
            let t = fort(v);
            let v: f64 = t.trim().replace('D', "e").parse().unwrap();
            let _ = i;
            vals.push((t, v));
        }
        let f = |i: usize| vals[i].0.clone();
        o += &format!("G{prn:02} {:4} {:02} {:02} {:02} {:02} {:02}{sp}{}{sp}{}{sp}{}{e}", c.y, c.mo, c.d, c.h, c.mi, c.s, f(0), f(1), f(2));
        for r in 0..4 {
            o += &format!("    {sp}{}{sp}{}{sp}{}{sp}{}{e}", f(3 + r * 4), f(4 + r * 4), f(5 + r * 4), f(6 + r * 4));
        }
        o += &format!("    {sp}{}{sp}{}{sp}{}{sp}{}{e}", f(19), fort(1.0), fort(2200.0), fort(0.0));
        o += &format!("    {sp}{}{sp}{}{sp}{}{sp}{}{e}", fort(2.0), fort(0.0), fort(-1e-8), fort(25.0));
        o += &format!("     {} {}{e}", fort(518_400.0), fort(4.0));
        recs.push(Rec { s: vec![prn.to_string()], n: vals.iter().map(|x| x.1).collect(), t: vec![c.unix_ns()] });
        if s.chance(1, 8) {
            // another constellation in between: must be skipped
            o += &format!("R01 {:4} {:02} {:02} {:02} {:02} {:02} {} {} {}{e}", c.y, c.mo, c.d, c.h, c.mi, c.s, fort(1e-4), fort(0.0), fort(0.0));
            for _ in 0..3 {
                o += &format!("     {} {} {} {}{e}", fort(1.0), fort(2.0), fort(3.0), fort(4.0));
            }
        }
    }
    Doc { bytes: o.into_bytes(), expect: Parsed { head: Rec::default(), recs }, term: None }
}

pub fn nav_rec(r: &siderust::formats::rinex::nav::GpsNavRecord) -> Rec {
    Rec {
        s: vec![r.prn.to_string()],
        n: vec![
            r.af0.value(), r.af1, r.af2, r.iode, r.crs.value(), r.delta_n.value(), r.m0.value(), r.cuc.value(), r.e, r.cus.value(), r.sqrt_a,
            r.toe.value(), r.cic.value(), r.omega0.value(), r.cis.value(), r.i0.value(), r.crc.value(), r.omega.value(), r.omega_dot.value(), r.idot.value(),
        ],
        t: vec![utc_ns(&r.toc)],
    }
}

pub fn nav_read(r: &mut dyn Read) -> Result<Parsed, String> {
    let t = slurp(r)?;
    let f = siderust::formats::rinex::nav::parse_rinex_nav(&t).map_err(|e| e.to_string())?;
    Ok(Parsed { head: Rec::default(), recs: f.gps.iter().map(nav_rec).collect() })
}

pub fn csv_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let mut cols: Vec<&str> = vec!["source_id", "ra", "dec", "epoch"];
    for c in ["pmra", "pmdec", "parallax", "radial_velocity", "g_mag", "bp_mag", "rp_mag", "quality", "extra_col"] {
        if s.chance(2, 3) {
            cols.push(c);
        }
    }
    s.shuffle(&mut cols);
    let mut o = String::new();
    if s.chance(1, 3) {
        o += &format!("# Gaia export{e}");
    }
    o += &cols.iter().map(|c| if c.len() % 2 == 0 { c.to_uppercase() } else { c.to_string() }).collect::<Vec<_>>().join(",");
    o += e;
    let mut recs = Vec::new();
    for _ in 0..count(s, 120) {
        let mut r = Rec { s: vec![String::new(), "ok".into()], n: vec![f64::NAN; 10], t: vec![] };
        let mut row: Vec<String> = Vec::new();
        for c in &cols {
            let blank = s.chance(1, 6);
            let t = match *c {
                "source_id" => {
                    let v = s.u64() >> s.below(60);
                    r.s[0] = v.to_string();
                    v.to_string()
                }
                "ra" => {
                    let (t, v) = num(s, 0.0, 360.0, 9);
                    r.n[0] = v.to_radians();
                    t
                }
                "dec" => {
                    let (t, v) = num(s, -90.0, 90.0, 9);
                    r.n[1] = v.to_radians();
                    t
                }
                "epoch" => {
                    let (t, v) = num(s, 1990.0, 2030.0, 2);
                    r.n[2] = v;
                    t
                }
                "quality" if !blank => {
                    let q = *s.pick(&["1", "true", "ok", "OK", "0", "false", "bad"]);
                    r.s[1] = if ["1", "true", "ok", "OK"].contains(&q) { "ok" } else { "bad" }.into();
                    q.to_string()
                }
                "extra_col" => s.ident(0, 6, NAMEY),
                k if !blank => {
                    let i = ["pmra", "pmdec", "parallax", "radial_velocity", "g_mag", "bp_mag", "rp_mag"].iter().position(|x| *x == k);
                    match i {
                        Some(i) => {
                            let (t, v) = num(s, -500.0, 500.0, 5);
                            r.n[3 + i] = v;
                            t
                        }
                        None => String::new(),
                    }
                }
                _ => String::new(),
            };
            row.push(if s.chance(1, 5) { format!(" {t} ") } else { t });
        }
        o += &row.join(",");
        o += e;
        recs.push(r);
        if s.chance(1, 12) {
            o += &format!("# note{e}{e}");
        }
    }
    Doc { bytes: o.into_bytes(), expect: Parsed { head: Rec::default(), recs }, term: None }
}

pub fn csv_read(r: &mut dyn Read) -> Result<Parsed, String> {
    let t = slurp(r)?;
    let v = siderust::catalogs::ingest::parse_csv_chunk(&t).map_err(|e| e.to_string())?;
    Ok(Parsed {
        head: Rec::default(),
        recs: v
            .iter()
            .map(|x| Rec {
                s: vec![x.source_id.to_string(), if x.quality_ok { "ok".into() } else { "bad".into() }],
                n: vec![
                    x.ra.value(),
                    x.dec.value(),
                    x.epoch_jyr,
                    x.pm_ra_cosdec.unwrap_or(f64::NAN),
                    x.pm_dec.unwrap_or(f64::NAN),
                    x.parallax.map(|v| v.value()).unwrap_or(f64::NAN),
                    x.radial_velocity.map(|v| v.value()).unwrap_or(f64::NAN),
                    x.g_mag.unwrap_or(f64::NAN),
                    x.bp_mag.unwrap_or(f64::NAN),
                    x.rp_mag.unwrap_or(f64::NAN),
                ],
                t: vec![],
            })
            .collect(),
    })
}

/// Formats read from a byte stream.
pub static STREAM: &[Fmt] = &[
    Fmt { name: "sp3", gen: sp3_doc, read: sp3_read, ordered: true, tol: T_TOL },
    Fmt { name: "antex", gen: antex_doc, read: antex_read, ordered: false, tol: T_TOL },
    Fmt { name: "sinex", gen: sinex_doc, read: sinex_read, ordered: false, tol: T_TOL },
    Fmt { name: "orbex", gen: orbex_doc, read: orbex_read, ordered: false, tol: T_TOL },
    Fmt { name: "vgosdb", gen: vgos_doc, read: vgos_read, ordered: true, tol: T_TOL },
    Fmt { name: "eop_c04", gen: eop_doc, read: eop_read, ordered: true, tol: T_TOL },
    Fmt { name: "opm", gen: opm_doc, read: opm_read, ordered: true, tol: T_TOL },
    Fmt { name: "tdm", gen: tdm_doc, read: tdm_read, ordered: false, tol: T_TOL },
    Fmt { name: "oem", gen: oem_doc, read: oem_read, ordered: true, tol: JD_TOL },
    Fmt { name: "oem_xml", gen: oem_xml_doc, read: oem_xml_read, ordered: true, tol: JD_TOL },
    Fmt { name: "rinex_obs", gen: obs_doc, read: obs_read, ordered: true, tol: T_TOL },
    Fmt { name: "rinex_doris", gen: doris_doc, read: doris_read, ordered: true, tol: T_TOL },
];

// ---------------------------------------------------------------- CCSDS OMM

struct OmmItem {
    rec: Rec,
    /// (key, text) in schema order; optional fields may be missing
    kv: Vec<(&'static str, String)>,
}

fn omm_item(s: &mut Sim) -> OmmItem {
    let c = civil(s, 1_000);
    let dec = if c.ns == 0 { *s.pick(&[0usize, 3, 6]) } else { 6 };
    let z = *s.pick(&["", "", "Z"]);
    let epoch = iso(&c, dec) + z;
    let name = format!("{} {}", s.ident(1, 12, NAMEY), s.ident(1, 4, UPPER));
    let id = format!("{}-{:03}A", s.int(1957, 2056), s.int(1, 200));
    let mut n = Vec::new();
    let mut kv = vec![("OBJECT_NAME", name.clone()), ("OBJECT_ID", id.clone()), ("EPOCH", epoch)];
    for (k, lo, hi, d) in [
        ("MEAN_MOTION", 0.1, 17.0, 8),
        ("ECCENTRICITY", 0.0, 0.99, 7),
        ("INCLINATION", 0.0, 180.0, 4),
        ("RA_OF_ASC_NODE", 0.0, 360.0, 4),
        ("ARG_OF_PERICENTER", 0.0, 360.0, 4),
        ("MEAN_ANOMALY", 0.0, 360.0, 4),
    ] {
        let (t, v) = num(s, lo, hi, d);
        kv.push((k, t));
        n.push(v);
    }
    let class = s.pick(&["U", "C", "S"]).to_string();
    let mut out_class = "U".to_string();
    if s.chance(4, 5) {
        kv.push(("CLASSIFICATION_TYPE", class.clone()));
        out_class = class;
    }
    let norad = match s.below(4) {
        0 => s.int(100_000, 339_999),
        1 => s.int(340_000, 999_999_999),
        _ => s.int(1, 99_999),
    };
    kv.push(("NORAD_CAT_ID", norad.to_string()));
    let mut opt = |s: &mut Sim, k: &'static str, t: String, v: f64| {
        if s.chance(1, 6) {
            n.push(0.0);
        } else {
            kv.push((k, t));
            n.push(v);
        }
    };
    let v = s.int(0, 9);
    opt(s, "EPHEMERIS_TYPE", v.to_string(), v as f64);
    let v = s.int(0, 9999);
    opt(s, "ELEMENT_SET_NO", v.to_string(), v as f64);
    let v = s.int(0, 200_000);
    opt(s, "REV_AT_EPOCH", v.to_string(), v as f64);
    for k in ["BSTAR", "MEAN_MOTION_DOT", "MEAN_MOTION_DDOT"] {
        let (m, e) = (s.grid(-1.0, 1.0, 5), s.int(-9, 1));
        let t = match s.below(3) {
            0 => format!("{m}e{e}"),
            1 => format!("{:.4E}", m * 10f64.powi(e as i32)),
            _ => format!("{:.9}", m * 10f64.powi(e as i32)),
        };
        let v = t.parse().unwrap();
        opt(s, k, t, v);
    }
    n.insert(7, norad as f64);
    OmmItem { rec: Rec { s: vec![name, id, out_class], n, t: vec![c.unix_ns()] }, kv }
}

fn omm_rec(m: &siderust::formats::tle::omm::Omm) -> Rec {
    Rec {
        s: vec![m.object_name.clone(), m.object_id.clone(), m.classification.as_char().to_string()],
        n: vec![
            m.mean_motion.value(), m.eccentricity, m.inclination.value(), m.ra_of_asc_node.value(), m.arg_of_pericenter.value(), m.mean_anomaly.value(),
            m.ephemeris_type as f64, m.norad_id.0 as f64, m.element_set_no as f64, m.rev_at_epoch as f64, m.bstar, m.mean_motion_dot, m.mean_motion_ddot,
        ],
        t: vec![utc_ns(&m.epoch)],
    }
}

fn omm_done(bytes: String, recs: Vec<Rec>) -> Doc {
    Doc { bytes: bytes.into_bytes(), expect: Parsed { head: Rec::default(), recs }, term: None }
}

pub fn omm_kvn_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let it = omm_item(s);
    let mut kv = it.kv;
    if s.chance(1, 3) {
        s.shuffle(&mut kv);
    }
    let mut o = format!("CCSDS_OMM_VERS = 2.0{e}");
    if s.chance(1, 2) {
        o += &format!("COMMENT EPOCH = 1999-01-01T00:00:00 is not the epoch{e}{e}CREATION_DATE = 2020-01-01T00:00:00{e}ORIGINATOR = SIM{e}");
    }
    let theory = s.chance(1, 2);
    for (i, (k, t)) in kv.iter().enumerate() {
        if i == 2 && theory {
            o += &format!("REF_FRAME = TEME{e}MEAN_ELEMENT_THEORY = SGP4{e}");
        }
        match s.below(3) {
            0 => o += &format!("{k}={t}{e}"),
            1 => o += &format!("{k:<22}= {t}  {e}"),
            _ => o += &format!("{k} = {t}{e}"),
        }
    }
    omm_done(o, vec![it.rec])
}

pub fn omm_kvn_read(r: &mut dyn Read) -> Result<Parsed, String> {
    let m = siderust::formats::tle::omm::kvn::read(&slurp(r)?).map_err(|e| e.to_string())?;
    Ok(Parsed { head: Rec::default(), recs: vec![omm_rec(&m)] })
}

pub fn omm_xml_doc(s: &mut Sim) -> Doc {
    let e = eol(s);
    let it = omm_item(s);
    let units = s.chance(1, 3);
    let mut o = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>{e}<omm id=\"CCSDS_OMM_VERS\" version=\"2.0\">{e}<body><segment>{e}");
    let ind = " ".repeat(s.idx(5));
    for (k, t) in &it.kv {
        let attr = match *k {
            "MEAN_MOTION" if units => " units=\"rev/day\"",
            "INCLINATION" | "RA_OF_ASC_NODE" if units => " units=\"deg\"",
            "BSTAR" if units => " units=\"1/ER\"",
            _ => "",
        };
        let pad = if s.chance(1, 6) { " " } else { "" };
        o += &format!("{ind}<{k}{attr}>{pad}{t}{pad}</{k}>{e}");
    }
    o += &format!("</segment></body></omm>{e}");
    omm_done(o, vec![it.rec])
}

pub fn omm_xml_read(r: &mut dyn Read) -> Result<Parsed, String> {
    let m = siderust::formats::tle::omm::xml::read(&slurp(r)?).map_err(|e| e.to_string())?;
    Ok(Parsed { head: Rec::default(), recs: vec![omm_rec(&m)] })
}

pub fn omm_json_doc(s: &mut Sim) -> Doc {
    let mut recs = Vec::new();
    let mut objs = Vec::new();
    let sp = *s.pick(&["", " ", "\n  "]);
    for _ in 0..s.int(0, 4) {
        let it = omm_item(s);
        let mut kv = it.kv;
        if s.chance(1, 3) {
            s.shuffle(&mut kv);
        }
        let body: Vec<String> = kv
            .iter()
            .map(|(k, t)| match *k {
                "OBJECT_NAME" | "OBJECT_ID" | "EPOCH" | "CLASSIFICATION_TYPE" => format!("\"{k}\":{sp}\"{t}\""),
                _ => {
                    // A bare number the way JSON writes it.
                    let t = t.strip_prefix('+').unwrap_or(t);
                    format!("\"{k}\":{sp}{t}")
                }
            })
            .collect();
        objs.push(format!("{{{sp}{}{sp}}}", body.join(&format!(",{sp}"))));
        recs.push(it.rec);
    }
    omm_done(format!("[{}]", objs.join(",")), recs)
}

pub fn omm_json_read(r: &mut dyn Read) -> Result<Parsed, String> {
    let m = siderust::formats::tle::omm::json::read_many(&slurp(r)?).map_err(|e| e.to_string())?;
    Ok(Parsed { head: Rec::default(), recs: m.iter().map(omm_rec).collect() })
}

/// Formats siderust parses from text already in memory (file seam in the harness).
pub static TEXT: &[Fmt] = &[
    Fmt { name: "cpf", gen: cpf_doc, read: cpf_read, ordered: true, tol: T_TOL },
    Fmt { name: "crd", gen: crd_doc, read: crd_read, ordered: true, tol: T_TOL },
    Fmt { name: "rinex_nav", gen: nav_doc, read: nav_read, ordered: true, tol: T_TOL },
    Fmt { name: "omm_kvn", gen: omm_kvn_doc, read: omm_kvn_read, ordered: true, tol: T_TOL },
    Fmt { name: "omm_xml", gen: omm_xml_doc, read: omm_xml_read, ordered: true, tol: T_TOL },
    Fmt { name: "omm_json", gen: omm_json_doc, read: omm_json_read, ordered: true, tol: T_TOL },
    Fmt { name: "catalog_csv", gen: csv_doc, read: csv_read, ordered: true, tol: T_TOL },
];
