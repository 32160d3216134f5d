//! C30: satellites flown from their element sets.
//!
//! Bulletins are composed column by column, lost, repeated and delivered out of
//! order to desks whose clocks jump; each desk flies the newest set it holds.

use super::tle::checksum;
use crate::core::{no_panic, Sim, Viol, R};
use crate::gen;
use crate::kepler::{cross, dot, norm, scale, sub, V3};
use crate::{ensure, viol, Prop};
use siderust::astro::sgp4::{GravityModel, Sgp4Error, TemeState, TlePropagator};
use siderust::formats::tle::{self as st, TLE};
use siderust::qtty::{angular::Turn, angular_rate::AngularRate, time::Day, Degrees, Minutes};
use tempoch::JulianDate;
use std::f64::consts::{PI, TAU};
use tempoch::{Time, JD, UTC};

const DAY_NS: i64 = 86_400_000_000_000;

/// Days (since 1970) at whose start a leap second has just been inserted.
fn leap_days() -> Vec<i64> {
    [(1980, 1), (1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7), (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)]
        .iter()
        .map(|&(y, m)| gen::civil_days(y, m, 1))
        .collect()
}

/// SI nanoseconds between two civil instants given as Unix nanoseconds.
fn elapsed(from: i64, to: i64) -> i64 {
    let leaps = |t: i64| leap_days().iter().filter(|d| *d * DAY_NS <= t).count() as i64;
    to - from + (leaps(to) - leaps(from)) * 1_000_000_000
}

#[derive(Clone, Debug)]
struct Set {
    epoch: i64,
    /// Inclination, node, perigee, mean anomaly, degrees.
    ang: [f64; 4],
    e: f64,
    /// rev/day, and its derivatives as printed (halved, divided by six).
    n: f64,
    nd: f64,
    ndd: f64,
    bstar: f64,
    lines: (String, String),
}

struct Model {
    mu: f64,
    re: f64,
    j2: f64,
}

fn model(g: GravityModel) -> Model {
    match g {
        GravityModel::Wgs84 => Model { mu: 398_600.5, re: 6378.137, j2: 1.082_629_989_05e-3 },
        _ => Model { mu: 398_600.8, re: 6378.135, j2: 1.082_616e-3 },
    }
}

fn exp_field(s: &mut Sim, lo: i64, hi: i64) -> (String, f64) {
    if s.chance(1, 3) {
        return (" 00000-0".into(), 0.0);
    }
    let (m, e, neg) = (s.int(10_000, 99_999), s.int(lo, hi), s.chance(1, 3));
    let v: f64 = format!("{}0.{m:05}e-{e}", if neg { "-" } else { "" }).parse().unwrap();
    (format!("{}{m:05}-{e}", if neg { '-' } else { ' ' }), v)
}

fn set(s: &mut Sim, id: i64, epoch: i64) -> Set {
    // Whole units of the printed epoch, 1e-8 day.
    let epoch = epoch.div_euclid(864_000) * 864_000;
    let day = epoch.div_euclid(DAY_NS);
    let (y, _, _) = gen::civil_from_days(day);
    let doy = day - gen::civil_days(y, 1, 1) + 1;
    let frac = epoch.rem_euclid(DAY_NS) / 864_000;
    let e7 = match s.below(5) {
        0 => 0,
        1 => s.int(1, 2000),
        2 => 9_999_999 - 10i64.pow(s.int(0, 6) as u32),
        _ => s.int(0, 9_000_000),
    };
    let e: f64 = format!("0.{e7:07}").parse().unwrap();
    let n8 = match s.below(4) {
        0 => s.int(10_000_000, 200_000_000),
        1 => s.int(99_000_000, 101_000_000),
        _ => s.int(200_000_000, 1_700_000_000),
    };
    let drag = s.chance(1, 2);
    let nd8 = if drag { s.int(-300_000, 300_000) } else { 0 };
    let (ddt, ndd) = if drag { exp_field(s, 3, 9) } else { (" 00000-0".into(), 0.0) };
    let (bt, bstar) = exp_field(s, 3, 7);
    let mut ang4 = [s.int(0, 1_800_000), s.int(0, 3_599_999), s.int(0, 3_599_999), s.int(0, 3_599_999)];
    for a in &mut ang4 {
        if s.chance(1, 8) {
            *a = *s.pick(&[0, 900_000, 1_800_000]);
        }
    }
    // The critical inclination, where the perigee stands still.
    if s.chance(1, 10) {
        ang4[0] = 634_349;
    }
    let f = |v: i64| format!("{:>3}.{:04}", v / 10_000, v % 10_000);
    let ang = ang4.map(|v| v as f64 / 1e4);
    let mut l1 = format!("1 {id:05}U 98067A   {:02}{doy:03}.{frac:08} {}.{:08} {ddt} {bt} 0  292", y % 100, if nd8 < 0 { '-' } else { ' ' }, nd8.abs());
    let mut l2 = format!("2 {id:05} {} {} {e7:07} {} {} {:>2}.{:08}56353", f(ang4[0]), f(ang4[1]), f(ang4[2]), f(ang4[3]), n8 / 100_000_000, n8 % 100_000_000);
    l1 += &checksum(&l1).to_string();
    l2 += &checksum(&l2).to_string();
    Set { epoch, ang, e, n: n8 as f64 * 1e-8, nd: nd8 as f64 * 1e-8, ndd, bstar, lines: (l1, l2) }
}

fn parse(x: &Set) -> Result<TLE, Viol> {
    match st::parse_tle(&x.lines.0, &x.lines.1) {
        Ok(t) => Ok(t),
        Err(e) => viol!("rejected-intact", "{:?}: {e}", x.lines),
    }
}

fn wrap(x: f64) -> f64 {
    (x + PI).rem_euclid(TAU) - PI
}

/// The set's orbit must be the one the state osculates, `dt` days after the
/// epoch, give or take `slop` seconds.
fn judge(x: &Set, g: GravityModel, dt: f64, slop: f64, st: &TemeState, what: &str) -> R {
    let m = model(g);
    let (p, v) = (st.position(), st.velocity());
    let r: V3 = [p.x().value(), p.y().value(), p.z().value()];
    let v: V3 = [v.x().value(), v.y().value(), v.z().value()];
    ensure!(r.iter().chain(&v).all(|c| c.is_finite()), "finite", "{what}: {r:?} {v:?}");
    let si = TAU / 86_400.0;
    let n = x.n + 2.0 * x.nd * dt + 3.0 * x.ndd * dt * dt;
    // The drag term may shift the mean motion a little.
    let dn = 2e-5 * x.bstar.abs() * dt.abs() / n;
    let a = (m.mu / (n * si).powi(2)).cbrt();
    let (r0, h) = (norm(r), cross(r, v));
    let pp = a * (1.0 - x.e) * (1.0 + x.e);
    let tol = 1e-10 + 2.0 * dn;
    // Vis viva and angular momentum: size and shape.
    let en = dot(v, v) / 2.0 - m.mu / r0;
    ensure!((en + m.mu / (2.0 * a)).abs() < tol * m.mu / r0, "energy", "{what}: energy {en}, the set's {}", -m.mu / (2.0 * a));
    ensure!((norm(h) - (m.mu * pp).sqrt()).abs() < tol * (r0 * norm(v)).max(norm(h)), "momentum", "{what}: angular momentum {}, the set's {}", norm(h), (m.mu * pp).sqrt());
    // J2 rates, rad/day, with the mean motion at either end of the arc.
    let rates = |n: f64| {
        let a = (m.mu / (n * si).powi(2)).cbrt();
        let pp = a * (1.0 - x.e) * (1.0 + x.e);
        let k = m.j2 * (m.re / pp).powi(2) * n * TAU;
        let c = x.ang[0].to_radians().cos();
        [-1.5 * k * c, 0.75 * k * (5.0 * c * c - 1.0), 0.75 * k * ((1.0 - x.e) * (1.0 + x.e)).sqrt() * (3.0 * c * c - 1.0)]
    };
    let (lo, hi) = (rates(x.n), rates(n));
    let at = |i: usize, base: f64| base.to_radians() + hi[i] * dt;
    let spread = |i: usize| (hi[i] - lo[i]).abs() * dt.abs() * 1.1 + hi[i].abs() * (3.0 * dn * dt.abs() + slop / 86_400.0) + (1e-12 + 1e-15 / (1.0 - x.e)) * (10.0 + (hi[i] * dt).abs());
    let (i, o) = (x.ang[0].to_radians(), at(0, x.ang[1]));
    let w = at(1, x.ang[2]);
    let nrm: V3 = [o.sin() * i.sin(), -o.cos() * i.sin(), i.cos()];
    let hh = scale(h, 1.0 / norm(h));
    let tilt = norm(sub(hh, nrm));
    // A near-radial flight has an ill-defined plane.
    let round = 1e-15 * r0 * norm(v) / norm(h);
    ensure!(tilt < spread(0) * i.sin() + 1e-11 + 10.0 * round, "plane", "{what}: orbit normal {hh:?}, expected {nrm:?} ({tilt})");
    // Direction of perigee as the motion's own axis, and the point on the orbit.
    let ax = [o.cos() * w.cos() - o.sin() * w.sin() * i.cos(), o.sin() * w.cos() + o.cos() * w.sin() * i.cos(), w.sin() * i.sin()];
    let ay = cross(nrm, ax);
    let (px, py) = (dot(r, ax), dot(r, ay));
    let turn = spread(0) + spread(1);
    let b = a * ((1.0 - x.e) * (1.0 + x.e)).sqrt();
    let lim = r0 * (turn + tol + 1e-11) * (1.0 + a / b) + a * (tol + 1e-14);
    ensure!((r0 + x.e * px - pp).abs() < lim + 1e-12 * a, "conic", "{what}: {} km off its ellipse (a {a} e {})", r0 + x.e * px - pp, x.e);
    let ecc = (py / b).atan2(px / a + x.e);
    let anom = ecc - x.e * ecc.sin();
    let want = x.ang[3].to_radians() + TAU * (x.n * dt + x.nd * dt * dt + x.ndd * dt * dt * dt) + hi[2] * dt;
    let d = wrap(anom - want);
    // d(anomaly) = (r / a) dE, and dE follows the rotations through b.
    let lim = lim / b * 2.0 * (r0 / a + 1e-9) + spread(2) + n * TAU * slop / 86_400.0 + 1e-12 * (10.0 + want.abs()) + dn * (x.n * dt * TAU).abs();
    ensure!(d.abs() < lim, "phase", "{what}: mean anomaly {anom}, expected {} ({d} off, limit {lim})", want.rem_euclid(TAU));
    Ok(())
}

fn jd(ns: i64) -> Result<JulianDate<UTC>, Viol> {
    let dt = chrono::DateTime::<chrono::Utc>::from_timestamp_nanos(ns);
    match Time::<UTC>::try_from_chrono(dt) {
        Ok(t) => Ok(t.to::<JD>()),
        Err(e) => viol!("epoch", "no UTC time for {dt}: {e}"),
    }
}

fn gravity(s: &mut Sim) -> GravityModel {
    *s.pick(&[GravityModel::Wgs72, GravityModel::Wgs72Iau, GravityModel::Wgs84])
}

/// An instant no element set's arc puts out of reach.
fn when(s: &mut Sim, base: i64) -> i64 {
    base + match s.below(5) {
        0 => 0,
        1 => s.int(-DAY_NS, DAY_NS),
        2 => s.int(-30 * DAY_NS, 30 * DAY_NS),
        _ => s.int(-3 * DAY_NS, 3 * DAY_NS),
    }
}

fn desk(s: &mut Sim) -> R {
    // Around a leap second as often as not.
    let base = if s.chance(1, 2) {
        let l = leap_days();
        *s.pick(&l) * DAY_NS + s.int(-2 * DAY_NS, 2 * DAY_NS)
    } else {
        gen::civil_days(s.int(1980, 2055), 1, 1) * DAY_NS + s.int(0, 366 * DAY_NS)
    };
    let sats = s.int(1, 3);
    let mut sets: Vec<Vec<Set>> = vec![];
    for i in 0..sats {
        let mut v = vec![];
        for _ in 0..s.int(1, 3) {
            let at = base + s.int(-2 * DAY_NS, 2 * DAY_NS);
            v.push(set(s, i + 1, at));
        }
        sets.push(v);
    }
    // The link drops, repeats and reorders bulletins; a relay may re-encode them.
    let mut mail: Vec<(usize, usize)> = vec![];
    for (i, v) in sets.iter().enumerate() {
        for k in 0..v.len() {
            match s.below(8) {
                0 => s.fault("bulletin lost"),
                1 => {
                    s.fault("bulletin repeated");
                    mail.push((i, k));
                    mail.push((i, k));
                }
                _ => mail.push((i, k)),
            }
        }
    }
    if s.chance(1, 2) {
        s.fault("bulletins reordered");
        s.shuffle(&mut mail);
    }
    let mut held: Vec<Option<(usize, GravityModel, TlePropagator, f64)>> = (0..sats).map(|_| None).collect();
    let mut asked: Vec<(usize, usize, Result<i64, f64>, TemeState)> = vec![];
    let mut clock = base;
    for (i, k) in mail {
        let x = &sets[i][k];
        s.note(format!("{} / {}", x.lines.0, x.lines.1));
        let mut tle = parse(x)?;
        let mut slop = 1e-4;
        if s.chance(1, 4) {
            if let Ok((t, _)) = super::tle::hop(s, &tle)? {
                s.probe("re-encoded bulletin");
                tle = t;
                slop = 2e-3;
            }
        }
        let g = gravity(s);
        // A set older than the one held does not replace it.
        if held[i].as_ref().map_or(true, |h| sets[i][h.0].epoch <= x.epoch) {
            let p = no_panic("from_tle_with_model", || if g == GravityModel::Wgs72 { TlePropagator::from_tle(&tle) } else { TlePropagator::from_tle_with_model(&tle, g) })?;
            match p {
                Ok(p) => {
                    ensure!(p.gravity_model() == g, "model", "asked for {g:?}, flies {:?}", p.gravity_model());
                    ensure!((p.epoch_jd_utc().to_j2000s().duration_since(jd(x.epoch)?.to_j2000s()).value()).abs() <= slop, "epoch", "{:?} flown from {:?}", x.lines, p.epoch_jd_utc());
                    asked.retain(|q| q.0 != i);
                    held[i] = Some((k, g, p, slop));
                }
                Err(e) => viol!("refused", "{:?} refused: {e}", x.lines),
            }
        }
        for _ in 0..s.int(1, 5) {
            clock = if s.chance(1, 4) {
                s.fault("clock jump");
                when(s, base)
            } else {
                clock + s.int(0, 3_600_000_000_000)
            };
            s.advance(3_600_000_000_000);
            let who: Vec<usize> = (0..held.len()).filter(|j| held[*j].is_some()).collect();
            let j = *s.pick(&who);
            let by_minutes = s.chance(1, 3);
            let again = s.chance(1, 4);
            let (k, g, p, slop) = held[j].as_ref().unwrap();
            let x = &sets[j][*k];
            if again && !asked.is_empty() {
                let q = s.pick(&asked).clone();
                let (_, _, p, _) = held[q.0].as_ref().unwrap();
                let r = no_panic("propagate", || match q.2 {
                    Ok(ns) => jd(ns).map(|t| p.propagate_at(t)),
                    Err(m) => Ok(p.propagate_minutes(Minutes::new(m))),
                })??;
                let same = matches!(&r, Ok(t) if t.position() == q.3.position() && t.velocity() == q.3.velocity() && t.epoch() == q.3.epoch());
                ensure!(same, "history", "{:?} asked again at {:?}: {r:?}, before {:?}", x.lines, q.2, q.3);
                s.checked();
                continue;
            }
            let dt = elapsed(x.epoch, clock) as f64 / DAY_NS as f64;
            let n = x.n + 2.0 * x.nd * dt + 3.0 * x.ndd * dt * dt;
            // Beyond an absurd drag law's own reach there is nothing to compare.
            if n < 0.5 * x.n || n > 2.0 * x.n {
                continue;
            }
            let what = format!("{:?} {g:?} {dt} d after its epoch", x.lines);
            let (key, r, slop) = if by_minutes {
                let m = dt * 1440.0;
                (Err(m), no_panic("propagate_minutes", || p.propagate_minutes(Minutes::new(m)))?, 1e-9)
            } else {
                let t = jd(clock)?;
                (Ok(clock), no_panic("propagate_at", || p.propagate_at(t))?, *slop)
            };
            match r {
                Ok(st) => {
                    let off = st.epoch().to_j2000s().duration_since(jd(clock)?.to_j2000s()).value();
                    ensure!(off.abs() <= slop.max(2e-4) && (by_minutes || off.abs() < 1e-9 || st.epoch() == jd(clock)?), "label", "{what}: state dated {off} s away from the instant asked for");
                    judge(x, *g, dt, slop, &st, &what)?;
                    s.state((dt.abs() * 8.0) as u64 * 1_000 + (x.e * 100.0) as u64);
                    asked.push((j, *k, key, st));
                    s.checked();
                }
                Err(e) => viol!("refused", "{what}: {e}"),
            }
        }
    }
    Ok(())
}

/// Element sets no satellite can have, and instants nobody can ask about.
fn refuse(s: &mut Sim) -> R {
    let x = set(s, 5, gen::civil_days(2016, 5, 1) * DAY_NS);
    let good = parse(&x)?;
    let p = match TlePropagator::from_tle(&good) {
        Ok(p) => p,
        Err(e) => viol!("refused", "{:?} refused: {e}", x.lines),
    };
    let mut t = good.clone();
    let k = s.below(4);
    let bad = *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let what = match k {
        0 => {
            t.eccentricity = *s.pick(&[1.0, 1.0 + 1e-12, -1e-12, 3.0, bad]);
            format!("eccentricity {}", t.eccentricity)
        }
        1 => {
            t.mean_motion = AngularRate::<Turn, Day>::new(*s.pick(&[0.0, -0.0, -1.0, bad]));
            format!("mean motion {:?}", t.mean_motion)
        }
        2 => {
            let d = Degrees::new(bad);
            match s.below(4) {
                0 => t.inclination = d,
                1 => t.raan = d,
                2 => t.argument_of_perigee = d,
                _ => t.mean_anomaly = d,
            }
            "a non-finite angle".into()
        }
        _ => {
            match s.below(3) {
                0 => t.mean_motion_dot = bad,
                1 => t.mean_motion_ddot = bad,
                _ => t.bstar = bad,
            }
            "a non-finite drag term".into()
        }
    };
    s.fault("impossible element");
    s.h(what.as_bytes());
    let r = no_panic("from_tle", || TlePropagator::from_tle(&t))?;
    if k < 2 {
        ensure!(matches!(r, Err(Sgp4Error::InvalidElements { .. })), "accepted", "{what}: {r:?}");
    }
    if let Ok(q) = r {
        let r = no_panic("propagate_minutes", || q.propagate_minutes(Minutes::new(100.0)))?;
        ensure!(r.is_err(), "accepted", "{what}: flown to {r:?}");
    }
    // Instants: never finite nonsense, never a panic.
    for _ in 0..4 {
        let m = match s.below(3) {
            0 => *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
            1 => 10f64.powf(s.f64(6.0, 300.0)) * *s.pick(&[1.0, -1.0]),
            _ => s.f64(-1e6, 1e6),
        };
        s.fault("absurd instant");
        match no_panic("propagate_minutes", || p.propagate_minutes(Minutes::new(m)))? {
            Ok(st) => {
                let (a, b) = (st.position(), st.velocity());
                let all = [a.x().value(), a.y().value(), a.z().value(), b.x().value(), b.y().value(), b.z().value()];
                ensure!(m.is_finite() && all.iter().all(|c| c.is_finite()), "finite", "{m} minutes after the epoch of {:?}: {all:?}", x.lines);
            }
            Err(e) => ensure!(!m.is_finite() || x.nd != 0.0 || x.ndd != 0.0 || x.bstar != 0.0, "refused", "{m} minutes after the epoch of {:?}, without drag: {e}", x.lines),
        }
        s.checked();
    }
    Ok(())
}

pub static C30: Prop = Prop {
    id: "C30",
    scenarios: &[("desk", 5, desk), ("refuse", 1, refuse)],
    runs_quick: 600_000,
    runs_thorough: 12_000_000,
    rule: "the osculating orbit of every state is the element set's, carried forward by its secular rates",
    real: &["src/astro/sgp4", "src/formats/tle (reading, re-encoding)", "tempoch UTC"],
    stub: &["bulletin publisher and link"],
    assumptions: &["secular J2 model as documented; periodic SGP4 terms are out of scope by the crate's own statement"],
};
