//! C15: orbital element bulletins (TLE lines, OMM in three encodings) on their
//! way from a publisher to a user.
//!
//! A publisher model composes element sets column by column; the links damage
//! them; relays convert them from one encoding to the next in a random order.

use crate::core::{no_panic, Sim, R};
use crate::gen::{self, Civil};
use crate::{ensure, viol, Prop};
use siderust::astro::sgp4::TlePropagator;
use siderust::formats::tle::{self as st, omm, Classification, InternationalDesignator, SatelliteNumber, TleBuilder, TLE};
use siderust::qtty::{angular::Degrees, angular::Turn, angular_rate::AngularRate, time::Day, Minutes};
use tempoch::{Time, UTC};

#[derive(Clone, Debug)]
pub(crate) struct Want {
    id: u32,
    class: char,
    desig: String,
    /// nanoseconds since the Unix epoch
    epoch: i64,
    ndot: f64,
    nddot: f64,
    bstar: f64,
    elset: u16,
    rev: u32,
    inc: f64,
    raan: f64,
    ecc: f64,
    argp: f64,
    ma: f64,
    mm: f64,
}

pub(crate) fn checksum(l: &str) -> u32 {
    l.bytes().map(|b| if b.is_ascii_digit() { (b - b'0') as u32 } else { (b == b'-') as u32 }).sum::<u32>() % 10
}

fn alpha5(id: u32) -> String {
    if id < 100_000 {
        return format!("{id:05}");
    }
    let letters = b"ABCDEFGHJKLMNPQRSTUVWXYZ";
    format!("{}{:04}", letters[(id / 10_000 - 10) as usize] as char, id % 10_000)
}

fn assumed(s: &mut Sim) -> (String, f64) {
    if s.chance(1, 4) {
        return (s.pick(&[" 00000-0", " 00000+0", "+00000-0", " 00000+9"]).to_string(), 0.0);
    }
    let m = match s.below(4) {
        0 => 10_000,
        1 => 99_999,
        2 => s.int(0, 99_999),
        _ => s.int(10_000, 99_999),
    };
    let top = if s.chance(1, 4) { 9 } else { 0 };
    let e = s.int(-9, top);
    let neg = s.chance(1, 3);
    let sign = if neg { "-" } else { *s.pick(&[" ", " ", "+"]) };
    let es = if e < 0 { '-' } else { '+' };
    let v: f64 = format!("{}0.{m:05}e{e}", if neg { "-" } else { "" }).parse().unwrap();
    (format!("{sign}{m:05}{es}{}", e.abs()), v)
}

fn angle(s: &mut Sim, hi: i64) -> (String, f64) {
    let v = match s.below(8) {
        0 => 0,
        1 => hi * 10_000 - 1,
        2 => s.int(0, 99_999),
        _ => s.int(0, hi * 10_000 - 1),
    };
    let pad = if s.chance(1, 5) { format!("{:03}.{:04}", v / 10_000, v % 10_000) } else { format!("{:>3}.{:04}", v / 10_000, v % 10_000) };
    (pad.clone(), pad.trim().parse().unwrap())
}

/// Compose the two lines and what they mean.
fn compose(s: &mut Sim) -> (String, String, Want) {
    let id = match s.below(5) {
        0 => s.int(0, 9),
        1 => *s.pick(&[99_999, 100_000, 179_999, 180_000, 229_999, 230_000, 339_999]),
        2 => s.int(100_000, 339_999),
        _ => s.int(1, 99_999),
    } as u32;
    let class = *s.pick(&['U', 'C', 'S']);
    let year = match s.below(4) {
        0 => *s.pick(&[1980i64, 1999, 2000, 2024, 2056]),
        _ => s.int(1980, 2056),
    };
    let desig = format!("{:02}{:03}{}", s.int(57, 156) % 100, s.int(1, 200), s.ident(1, 3, "ABCDEFGHIJKLMNOPQRSTUVWXYZ"));
    let last = gen::civil_days(year + 1, 1, 1) - gen::civil_days(year, 1, 1);
    let doy = match s.below(5) {
        0 => 1,
        1 => last,
        2 => *s.pick(&[59, 60, 61]),
        _ => s.int(1, last),
    };
    let frac = match s.below(5) {
        0 => 0,
        1 => 99_999_999,
        2 => 50_000_000,
        _ => s.int(0, 99_999_999),
    };
    let epoch = (gen::civil_days(year, 1, 1) + doy - 1) * 86_400_000_000_000 + frac * 864_000;
    let nd = match s.below(3) {
        0 => s.int(0, 9_999),
        1 => 0,
        _ => s.int(0, 99_999_999),
    };
    let neg = s.chance(1, 3);
    let ndt = format!("{}.{nd:08}", if neg { "-" } else { *s.pick(&[" ", "+"]) });
    let ndot: f64 = format!("{}0.{nd:08}", if neg { "-" } else { "" }).parse().unwrap();
    let ((ddt, nddot), (bt, bstar)) = (assumed(s), assumed(s));
    let elset = s.int(0, 9999);
    let et = if s.chance(1, 3) { format!("{elset:04}") } else { format!("{elset:>4}") };
    let dt = if s.chance(1, 4) { format!("{doy:>3}.{frac:08}") } else { format!("{doy:03}.{frac:08}") };
    let idt = if id < 100_000 && s.chance(1, 4) { format!("{id:>5}") } else { alpha5(id) };
    let mut l1 = format!("1 {idt}{class} {desig:<8} {:02}{dt} {ndt} {ddt} {bt} 0 {et}", year % 100);
    let ((it, inc), (rt, raan), (at, argp), (mt, ma)) = (angle(s, 180), angle(s, 360), angle(s, 360), angle(s, 360));
    let ecc = match s.below(4) {
        0 => s.int(0, 999),
        1 => 9_999_999,
        _ => s.int(0, 9_999_999),
    };
    let ect = if s.chance(1, 5) { format!("{ecc:>7}") } else { format!("{ecc:07}") };
    let mm = s.int(10_000_000, 1_799_999_999);
    let mmt = format!("{:>2}.{:08}", mm / 100_000_000, mm % 100_000_000);
    let rev = s.int(0, 99_999);
    let rvt = if s.chance(1, 3) { format!("{rev:05}") } else { format!("{rev:>5}") };
    let mut l2 = format!("2 {idt} {it} {rt} {ect} {at} {mt} {mmt}{rvt}");
    l1 += &checksum(&l1).to_string();
    l2 += &checksum(&l2).to_string();
    assert!(l1.len() == 69 && l2.len() == 69, "emitter: {l1:?} {l2:?}");
    let w = Want {
        id,
        class,
        desig,
        epoch,
        ndot,
        nddot,
        bstar,
        elset: elset as u16,
        rev: rev as u32,
        inc,
        raan,
        ecc: format!("0.{ecc:07}").parse().unwrap(),
        argp,
        ma,
        mm: mmt.trim().parse().unwrap(),
    };
    (l1, l2, w)
}

fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol + 1e-12 * b.abs()
}

/// `got` within `tol` ns of `want`; an instant just before a midnight may fall in a
/// leap second, which Unix time counts as the second after that midnight.
fn instant_ok(got: i64, want: i64, tol: i64) -> bool {
    if (got - want).abs() <= tol {
        return true;
    }
    let day = 86_400_000_000_000;
    let midnight = (want + day / 2).div_euclid(day) * day;
    (want - midnight).abs() <= tol && (got - midnight - 1_000_000_000).abs() <= tol
}

/// First field in which `t` differs from what was published.
fn differs(t: &TLE, w: &Want, epoch_tol: i64) -> Option<String> {
    let rel = |v: f64| v.abs() * 1e-9;
    let ns = gen::utc_ns(&t.epoch);
    let bad: &[(&str, bool, String)] = &[
        ("norad_id", t.norad_id.0 == w.id, t.norad_id.0.to_string()),
        ("classification", t.classification.as_char() == w.class, t.classification.as_char().to_string()),
        ("international_designator", t.international_designator.0 == w.desig, t.international_designator.0.clone()),
        ("epoch", instant_ok(ns, w.epoch, epoch_tol), ns.to_string()),
        ("mean_motion_dot", near(t.mean_motion_dot, w.ndot, rel(w.ndot)), t.mean_motion_dot.to_string()),
        ("mean_motion_ddot", near(t.mean_motion_ddot, w.nddot, rel(w.nddot)), t.mean_motion_ddot.to_string()),
        ("bstar", near(t.bstar, w.bstar, rel(w.bstar)), t.bstar.to_string()),
        ("element_set_number", t.element_set_number == w.elset, t.element_set_number.to_string()),
        ("revolution_number", t.revolution_number_at_epoch == w.rev, t.revolution_number_at_epoch.to_string()),
        ("inclination", near(t.inclination.value(), w.inc, 0.0), t.inclination.value().to_string()),
        ("raan", near(t.raan.value(), w.raan, 0.0), t.raan.value().to_string()),
        ("eccentricity", near(t.eccentricity, w.ecc, 1e-16), t.eccentricity.to_string()),
        ("argument_of_perigee", near(t.argument_of_perigee.value(), w.argp, 0.0), t.argument_of_perigee.value().to_string()),
        ("mean_anomaly", near(t.mean_anomaly.value(), w.ma, 0.0), t.mean_anomaly.value().to_string()),
        ("mean_motion", near(t.mean_motion.value(), w.mm, 0.0), t.mean_motion.value().to_string()),
    ];
    bad.iter().find(|b| !b.1).map(|b| format!("{} is {} in {w:?}", b.0, b.2))
}

const NS_TOL: i64 = 60_000;

fn name(s: &mut Sim) -> String {
    let mut n = s.ident(1, 16, "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -()");
    if s.chance(1, 3) {
        n += s.pick(&["<&>", "A&amp;B", "x = y", "\"q\"", "O'N", "\u{e9}\u{4e2d}", "&lt;", "a/b", "</OBJECT_NAME", "\\\\"]);
    }
    let n = n.trim().to_string();
    // A leading "0 " is the 3LE line marker.
    if n.is_empty() || n.starts_with("0 ") || n == "0" {
        "SAT".into()
    } else {
        n
    }
}

// --- damage ------------------------------------------------------------------

fn bulletin(s: &mut Sim) -> R {
    let n = s.int(2, 4) as usize;
    let sets: Vec<(String, String, Want)> = (0..n).map(|_| compose(s)).collect();
    for (l1, l2, w) in &sets {
        let nm = name(s);
        let t = match no_panic("parse_tle", || st::parse_tle(l1, l2))? {
            Ok(t) => t,
            Err(e) => viol!("rejected-intact", "intact element set\n{l1}\n{l2}\nrejected: {e}"),
        };
        s.checked();
        s.h(l1.as_bytes());
        s.h(l2.as_bytes());
        if let Some(x) = differs(&t, w, NS_TOL) {
            viol!("misread", "{l1}\n{l2}\n{x}");
        }
        let head = *s.pick(&["", "0 "]);
        match no_panic("parse_3le", || st::parse_3le(&format!("{head}{nm}"), l1, l2))? {
            Ok(t) => {
                ensure!(t.name.as_deref() == Some(nm.as_str()), "misread", "name {nm:?} read as {:?}", t.name);
                if let Some(x) = differs(&t, w, NS_TOL) {
                    viol!("misread", "{l1}\n{l2}\n{x}");
                }
            }
            Err(e) => viol!("rejected-intact", "{nm:?} {l1} {l2}: {e}"),
        }
        for l in [l1, l2] {
            ensure!(no_panic("validate_tle_checksum", || st::validate_tle_checksum(l))?.is_ok(), "rejected-intact", "checksum of {l}");
            ensure!(no_panic("compute", || st::compute_tle_checksum(&l[..68]))? as u32 == checksum(&l[..68]), "misread", "computed checksum of {l}");
        }
    }
    for _ in 0..10 {
        let i = s.idx(n);
        let (l1, l2, w) = &sets[i];
        let mut ls = [l1.clone(), l2.clone()];
        let k = s.idx(2);
        // Some(values) if accepting is fine as long as nothing changed.
        let mut harmless = false;
        match s.below(9) {
            0 | 1 | 2 => {
                s.fault("digit_changed");
                let pos: Vec<usize> = (0..69).filter(|&p| ls[k].as_bytes()[p].is_ascii_digit()).collect();
                let p = *s.pick(&pos);
                let old = ls[k].as_bytes()[p];
                let new = b'0' + (old - b'0' + 1 + s.below(9) as u8) % 10;
                ls[k].replace_range(p..p + 1, &(new as char).to_string());
            }
            3 => {
                s.fault("minus_lost");
                let pos: Vec<usize> = (0..69).filter(|&p| ls[k].as_bytes()[p] == b'-').collect();
                if pos.is_empty() {
                    continue;
                }
                let p = *s.pick(&pos);
                ls[k].replace_range(p..p + 1, s.pick(&["+", " ", "."]));
            }
            4 => {
                s.fault("digit_unreadable");
                let pos: Vec<usize> = (0..69).filter(|&p| (b'1'..=b'9').contains(&ls[k].as_bytes()[p])).collect();
                let p = *s.pick(&pos);
                ls[k].replace_range(p..p + 1, s.pick(&["?", "*", " ", "x", "\u{e9}"]));
            }
            5 => {
                // A zero erased: the checksum cannot tell, the value must not change.
                s.fault("zero_erased");
                let b = ls[k].as_bytes();
                let pos: Vec<usize> = (1..69).filter(|&p| b[p] == b'0' && b[p - 1] == b' ' && !(k == 0 && (9..17).contains(&p))).collect();
                if pos.is_empty() {
                    continue;
                }
                let p = *s.pick(&pos);
                ls[k].replace_range(p..p + 1, " ");
                harmless = true;
            }
            6 => {
                s.fault("line_length");
                match s.below(5) {
                    0 => ls[k].truncate(s.idx(69)),
                    1 => ls[k] += s.pick(&[" ", "0", "\r", "\n", "12345"]),
                    2 => ls[k].insert(0, ' '),
                    3 => {
                        // 69 bytes, but not 69 characters
                        let p = s.idx(67);
                        ls[k].replace_range(p..p + 2, "\u{e9}");
                    }
                    _ => {
                        let p = s.idx(69);
                        ls[k].remove(p);
                    }
                }
            }
            7 => {
                s.fault("lines_mixed");
                let j = (i + 1) % n;
                if sets[j].2.id == w.id {
                    continue;
                }
                match s.below(4) {
                    0 => ls[1] = sets[j].1.clone(),
                    1 => ls[0] = sets[j].0.clone(),
                    2 => ls.swap(0, 1),
                    _ => ls[1] = ls[0].clone(),
                }
            }
            _ => {
                s.fault("junk");
                ls[k] = match s.below(3) {
                    0 => s.ident(0, 80, "0123456789 .-+ABU\u{e9}\u{4e2d}"),
                    1 => s.ident(69, 69, "0123456789 .-+ABU"),
                    _ => {
                        // Valid frame and checksum around garbage.
                        let mut v: Vec<char> = ls[k].chars().collect();
                        for _ in 0..s.int(1, 6) {
                            let p = 2 + s.idx(66);
                            v[p] = *s.pick(&[' ', '-', '+', '.', '9', 'e', 'N', 'a', 'i', 'n', 'f', 'Z', 'I']);
                        }
                        let mut t: String = v.into_iter().collect();
                        t.truncate(68);
                        let c = checksum(&t);
                        t + &c.to_string()
                    }
                };
                // May well be another valid element set: only safety is asked for.
                let r = no_panic("parse_tle", || st::parse_tle(&ls[0], &ls[1]))?;
                let _ = no_panic("validate_tle_checksum", || st::validate_tle_checksum(&ls[k]).is_ok())?;
                s.checked();
                if let Ok(t) = r {
                    let vals = [t.mean_motion_dot, t.mean_motion_ddot, t.bstar, t.inclination.value(), t.raan.value(), t.eccentricity, t.argument_of_perigee.value(), t.mean_anomaly.value(), t.mean_motion.value()];
                    ensure!(vals.iter().all(|v| v.is_finite()), "misread", "{}\n{}\nread with non-finite elements {vals:?}", ls[0], ls[1]);
                    ensure!((0.0..1.0).contains(&t.eccentricity), "misread", "{}: eccentricity {}", ls[1], t.eccentricity);
                    let f = no_panic("format_tle", || st::format_tle(&t))?;
                    if let Ok((a, b)) = f {
                        ensure!(st::parse_tle(&a, &b).is_ok(), "unreadable-output", "{}\n{}\nrewritten as\n{a}\n{b}", ls[0], ls[1]);
                    }
                }
                continue;
            }
        }
        let r = no_panic("parse_tle", || st::parse_tle(&ls[0], &ls[1]))?;
        let r3 = no_panic("parse_3le", || st::parse_3le("SAT", &ls[0], &ls[1]))?;
        let _ = no_panic("validate_tle_checksum", || st::validate_tle_checksum(&ls[k]).is_ok())?;
        s.checked();
        s.h(ls[k].as_bytes());
        for r in [r, r3] {
            if let Ok(t) = r {
                if !harmless {
                    viol!("damaged-accepted", "accepted\n{}\n{}\npublished as\n{l1}\n{l2}", ls[0], ls[1]);
                }
                if let Some(x) = differs(&t, w, NS_TOL) {
                    viol!("damaged-accepted", "accepted with a zero erased\n{}\n{}\n{x}", ls[0], ls[1]);
                }
            }
        }
    }
    Ok(())
}

// --- relays ------------------------------------------------------------------

pub(crate) fn hop(s: &mut Sim, t: &TLE) -> R<Result<(TLE, &'static str), String>> {
    let k = s.below(6);
    let nm = t.name.clone();
    if k == 0 {
        return Ok(match no_panic("format_tle", || st::format_tle(t))? {
            Ok((a, b)) => {
                ensure!(a.len() == 69 && b.len() == 69 && a.is_ascii() && b.is_ascii(), "line-length", "written lines {a:?} {b:?}");
                let r = no_panic("parse_tle", || match &nm {
                    Some(n) => st::parse_3le(n, &a, &b),
                    None => st::parse_tle(&a, &b),
                })?;
                match r {
                    Ok(t) => Ok((t, "tle")),
                    Err(e) => viol!("unreadable-output", "written lines\n{a}\n{b}\ndo not read back: {e}"),
                }
            }
            Err(e) => Err(e.to_string()),
        });
    }
    let o = no_panic("Omm::from_tle", || omm::Omm::from_tle(t))?;
    let (what, text, back) = match k {
        1 | 2 => {
            let x = no_panic("kvn::write", || omm::kvn::write(&o))?;
            let b = match &x {
                Ok(x) => Some(no_panic("kvn::read", || omm::kvn::read(x))?),
                Err(_) => None,
            };
            ("kvn", x, b)
        }
        3 => {
            let x = no_panic("xml::write", || omm::xml::write(&o))?;
            let b = match &x {
                Ok(x) => Some(no_panic("xml::read", || omm::xml::read(x))?),
                Err(_) => None,
            };
            ("xml", x, b)
        }
        4 => {
            let x = no_panic("json::write", || omm::json::write(&o))?;
            let b = match &x {
                Ok(x) => Some(no_panic("json::read", || omm::json::read(x))?),
                Err(_) => None,
            };
            ("json", x, b)
        }
        _ => {
            let v = vec![o.clone(), o.clone()];
            let x = no_panic("json::write_many", || omm::json::write_many(&v))?;
            let b = match &x {
                Ok(x) => Some(no_panic("json::read_many", || omm::json::read_many(x))?.and_then(|mut v| {
                    assert_eq!(v.len(), 2);
                    Ok(v.remove(1))
                })),
                Err(_) => None,
            };
            ("json", x, b)
        }
    };
    match (text, back) {
        (Ok(_), Some(Ok(o))) => {
            let mut t = no_panic("to_tle", || o.to_tle())?;
            if nm.is_none() {
                let want = format!("NORAD {}", t.norad_id.0);
                ensure!(t.name.as_deref() == Some(want.as_str()), "name", "nameless element set named {:?}", t.name);
                t.name = None;
            }
            Ok(Ok((t, what)))
        }
        (Ok(x), Some(Err(e))) => viol!("unreadable-output", "{what} document does not read back: {e}\n{x}"),
        (Err(e), _) => Ok(Err(e.to_string())),
        _ => unreachable!(),
    }
}

fn relay(s: &mut Sim) -> R {
    let (l1, l2, w) = compose(s);
    let nm = if s.chance(1, 5) { None } else { Some(name(s)) };
    let first = match &nm {
        Some(n) => st::parse_3le(n, &l1, &l2),
        None => st::parse_tle(&l1, &l2),
    };
    let first = match first {
        Ok(t) => t,
        Err(e) => viol!("rejected-intact", "{l1}\n{l2}\n{e}"),
    };
    let hops = s.int(1, 6);
    let mut t = first.clone();
    let mut path = String::new();
    for _ in 0..hops {
        t = match hop(s, &t)? {
            Ok((t, k)) => {
                path += k;
                path += " ";
                t
            }
            Err(e) => viol!("refused", "{l1}\n{l2}\nafter {path}: {e}"),
        };
        s.checked();
    }
    s.note(format!("{l1} / {l2} via {path}"));
    s.h(path.as_bytes());
    s.h(l1.as_bytes());
    // A TLE hop re-rounds the epoch to 1e-8 day, every other hop keeps microseconds.
    let tol = 432_000 + hops * NS_TOL;
    if let Some(x) = differs(&t, &w, tol) {
        viol!("changed", "{l1}\n{l2}\nafter {path}: {x}");
    }
    ensure!(t.name == nm, "changed", "name {nm:?} became {:?} after {path}", t.name);
    // The user at the end of the chain sees the same orbit as one at the start.
    let (p, q) = (no_panic("from_tle", || TlePropagator::from_tle(&first))?, no_panic("from_tle", || TlePropagator::from_tle(&t))?);
    ensure!(p.is_ok() == q.is_ok(), "orbit", "{l1}\n{l2}: propagator {:?} before, {:?} after {path}", p.as_ref().err(), q.as_ref().err());
    // Near-parabolic orbits and absurd drag amplify the epoch's rounding without bound.
    let calm = w.ecc < 0.9 && w.nddot.abs() < 1e-2 && w.bstar.abs() < 1.0;
    if let (Ok(p), Ok(q), true) = (p, q, calm) {
        for _ in 0..3 {
            let dt = Minutes::new(s.f64(-3000.0, 3000.0));
            let (a, b) = (no_panic("propagate", || p.propagate_minutes(dt))?, no_panic("propagate", || q.propagate_minutes(dt))?);
            s.checked();
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    let (pa, pb) = (a.position(), b.position());
                    let d = [pa.x().value() - pb.x().value(), pa.y().value() - pb.y().value(), pa.z().value() - pb.z().value()];
                    let d = d.iter().map(|v| v * v).sum::<f64>().sqrt();
                    let r = (pa.x().value().powi(2) + pa.y().value().powi(2) + pa.z().value().powi(2)).sqrt();
                    ensure!(d <= 0.01 + 1e-5 * r, "orbit", "{l1}\n{l2}: {d} km apart at {dt:?} after {path}");
                }
                (a, b) => ensure!(a.is_err() && b.is_err(), "orbit", "{l1}\n{l2}: {:?} before, {:?} after {path}", a.err(), b.err()),
            }
        }
    }
    Ok(())
}

// --- arbitrary values --------------------------------------------------------

fn wild(s: &mut Sim, typical: f64) -> f64 {
    match s.below(12) {
        0 => *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300, 1e-300]),
        1 => *s.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 0.01, 9.99999e-5, 0.999995, 0.9999949, 0.99999999, 0.999999999, 0.0999999]),
        2 => 10f64.powi(s.int(-14, 4) as i32) * *s.pick(&[1.0, 0.999_999_9, 0.999_994, -1.0]),
        3 => s.normal() * 10f64.powi(s.int(-14, 12) as i32),
        _ => s.normal() * typical,
    }
}

fn wild_angle(s: &mut Sim) -> f64 {
    match s.below(8) {
        0 => *s.pick(&[f64::NAN, f64::INFINITY, -0.0, 359.999_99, 999.999_96, -99.999_96, 1e4, -180.0]),
        _ => s.f64(0.0, 360.0),
    }
}

/// A value is written within half a unit of the last column, or refused.
fn synthesis(s: &mut Sim) -> R {
    let id = match s.below(6) {
        0 => 340_000 + s.below(1000) as u32,
        _ => s.below(340_000) as u32,
    };
    let y = match s.below(8) {
        0 => s.int(2057, 2080),
        _ => s.int(1980, 2056),
    };
    let c = Civil { y, mo: s.int(1, 12), d: s.int(1, 28), h: 0, mi: 0, s: 0, ns: 0 };
    let day = 86_400_000_000_000i64;
    let base = match s.below(4) {
        0 => gen::civil_days(y, 12, 31) * day,
        _ => c.unix_ns(),
    };
    let ns = base + match s.below(4) {
        0 => day - s.int(1, 2_000_000),
        1 => s.int(0, 1_000_000),
        _ => s.int(0, day - 1),
    };
    let dt = chrono::DateTime::<chrono::Utc>::from_timestamp_nanos(ns);
    let Ok(epoch) = Time::<UTC>::try_from_chrono(dt) else {
        viol!("epoch", "no UTC time for {dt}")
    };
    let desig = match s.below(6) {
        0 => s.ident(0, 12, "ABC0123456789- \u{e9}"),
        _ => format!("{:02}{:03}A", s.below(100), s.int(1, 199)),
    };
    let (ndot, nddot, bstar) = (wild(s, 1e-4), wild(s, 1e-8), wild(s, 1e-4));
    let (inc, raan, argp, ma) = (wild_angle(s), wild_angle(s), wild_angle(s), wild_angle(s));
    let ecc = match s.below(6) {
        0 => *s.pick(&[f64::NAN, -0.1, 1.0, 0.999_999_96, 0.999_999_94, 1.5, -0.0, 1e-8]),
        _ => s.f64(0.0, 1.0),
    };
    let mm = match s.below(6) {
        0 => *s.pick(&[f64::NAN, 100.0, 99.999_999_999, -1.0, 0.0, 1e-9, 1e9]),
        _ => s.f64(0.1, 17.0),
    };
    let (big_e, big_r) = (s.chance(1, 6), s.chance(1, 6));
    let (elset, rev) = (s.below(if big_e { 65_536 } else { 10_000 }) as u16, s.below(if big_r { 1 << 32 } else { 100_000 }) as u32);
    let class = *s.pick(&[Classification::Unclassified, Classification::Classified, Classification::Secret]);
    let t = TleBuilder::new()
        .norad_id(SatelliteNumber(id))
        .classification(class)
        .international_designator(InternationalDesignator(desig.clone()))
        .epoch(epoch)
        .mean_motion_dot(ndot)
        .mean_motion_ddot(nddot)
        .bstar(bstar)
        .element_set_number(elset)
        .revolution_number_at_epoch(rev)
        .inclination(Degrees::new(inc))
        .raan(Degrees::new(raan))
        .eccentricity(ecc)
        .argument_of_perigee(Degrees::new(argp))
        .mean_anomaly(Degrees::new(ma))
        .mean_motion(AngularRate::<Turn, Day>::new(mm))
        .build();
    let t = match t {
        Ok(t) => t,
        Err(e) => viol!("refused", "builder with every field set: {e}"),
    };
    let fits = |v: f64, scale: f64, lo: f64, hi: f64| v.is_finite() && (lo..hi).contains(&(v * scale).round());
    let ang = |v: f64| fits(v, 1e4, -999_999.0, 9_999_999.5);
    let exp_ok = |v: f64| v.is_finite() && v.abs() < 9.9e8;
    let ok = id < 340_000
        && (1957..=2056).contains(&y)
        && desig.is_ascii()
        && desig.len() <= 8
        && fits(ndot, 1e8, -99_999_999.0, 99_999_999.5)
        && exp_ok(nddot)
        && exp_ok(bstar)
        && ang(inc)
        && ang(raan)
        && ang(argp)
        && ang(ma)
        && fits(ecc, 1e7, 0.0, 9_999_999.5)
        && fits(mm, 1e8, -999_999_999.0, 9_999_999_999.5)
        && elset <= 9999
        && rev <= 99_999;
    let r = no_panic("format_tle", || st::format_tle(&t))?;
    s.checked();
    let ctx = format!("{t:?}");
    let (a, b) = match r {
        Ok(x) => x,
        Err(e) => {
            s.fault("unrepresentable_value");
            // Rounding up at the end of 2056 leaves the two-digit range.
            ensure!(!ok || (y == 2056 && ns % day > day - 500_000), "refused", "{e}: {ctx}");
            return Ok(());
        }
    };
    s.h(a.as_bytes());
    s.h(b.as_bytes());
    ensure!(a.len() == 69 && b.len() == 69 && a.is_ascii() && b.is_ascii(), "line-length", "{a:?} {b:?} from {ctx}");
    let u = match no_panic("parse_tle", || st::parse_tle(&a, &b))? {
        Ok(u) => u,
        Err(e) => viol!("unreadable-output", "\n{a}\n{b}\n{e}: {ctx}"),
    };
    let fixed = |x: f64, y: f64, unit: f64| (x - y).abs() <= unit * 0.5 * (1.0 + 1e-6);
    // Five significant digits, exponent not below -9.
    let exp5 = |x: f64, y: f64| (x - y).abs() <= (5.0000001e-5 * y.abs()).max(5.0000001e-15);
    let list: &[(&str, bool)] = &[
        ("norad_id", u.norad_id.0 == id),
        ("classification", u.classification == class),
        ("designator", u.international_designator.0 == desig.trim()),
        ("epoch", instant_ok(gen::utc_ns(&u.epoch), ns, 432_000 + NS_TOL)),
        ("mean_motion_dot", fixed(u.mean_motion_dot, ndot, 1e-8)),
        ("mean_motion_ddot", exp5(u.mean_motion_ddot, nddot)),
        ("bstar", exp5(u.bstar, bstar)),
        ("element_set_number", u.element_set_number == elset),
        ("revolution_number", u.revolution_number_at_epoch == rev),
        ("inclination", fixed(u.inclination.value(), inc, 1e-4)),
        ("raan", fixed(u.raan.value(), raan, 1e-4)),
        ("eccentricity", fixed(u.eccentricity, ecc, 1e-7)),
        ("argument_of_perigee", fixed(u.argument_of_perigee.value(), argp, 1e-4)),
        ("mean_anomaly", fixed(u.mean_anomaly.value(), ma, 1e-4)),
        ("mean_motion", fixed(u.mean_motion.value(), mm, 1e-8)),
    ];
    if let Some(f) = list.iter().find(|f| !f.1) {
        viol!("changed", "{} changed by writing\n{a}\n{b}\nfrom {ctx}", f.0);
    }
    // The other encodings never crash on it either.
    let o = no_panic("Omm::from_tle", || omm::Omm::from_tle(&t))?;
    let _ = no_panic("omm writers", || (omm::kvn::write(&o).is_ok(), omm::xml::write(&o).is_ok(), omm::json::write(&o).is_ok()))?;
    let p = no_panic("TlePropagator::from_tle", || TlePropagator::from_tle(&t))?;
    if let Ok(p) = p {
        for _ in 0..2 {
            let m = Minutes::new(*s.pick(&[0.0, 1440.0, -1e5, 1e12, f64::NAN, f64::INFINITY, -1e300]));
            if let Ok(x) = no_panic("propagate_minutes", || p.propagate_minutes(m))? {
                let v = [x.position().x().value(), x.position().y().value(), x.position().z().value(), x.velocity().x().value(), x.velocity().y().value(), x.velocity().z().value()];
                ensure!(v.iter().all(|v| v.is_finite()), "orbit", "state {v:?} at {m:?} of\n{a}\n{b}");
            }
        }
    }
    Ok(())
}

pub static C15: Prop = Prop {
    id: "C15",
    scenarios: &[("bulletin", 3, bulletin), ("relay", 3, relay), ("synthesis", 3, synthesis)],
    runs_quick: 600_000,
    runs_thorough: 8_000_000,
    rule: "bulletin: element sets composed column by column are read, then delivered over a link that changes, garbles or erases single characters, truncates or pads lines, mixes lines of different objects or delivers junk; relay: an element set passes through 1-6 random conversions (TLE lines, OMM KVN, XML, JSON, JSON array) and must come out unchanged, and propagate to the same orbit; synthesis: arbitrary values (non-finite, out of range, at rounding carries) are written as lines, which must read back within half a unit of the last column, or be refused. Distinct = distinct hash of the delivered lines and conversion path.",
    real: &["formats::tle (parser, builder, formatter)", "formats::tle::omm (kvn, xml, json)", "astro::sgp4::TlePropagator"],
    stub: &["publisher (independent column emitter)", "links and relays"],
    assumptions: &["damage within the power of the line checksum: one digit or minus sign, or structural damage; an erased zero is undetectable and must be harmless", "object names without line breaks or surrounding blanks"],
};
