//! C36: the Sun-Earth points, fitted, archived and looked up.

use crate::core::{no_panic, Sim, R};
use crate::kepler::{add, cross, dot, norm, scale, sub, V3};
use crate::{ensure, viol, Prop};
use siderust::coordinates::cartesian::{Position, Velocity};
use siderust::coordinates::centers::{Barycentric, Geocentric, Heliocentric};
use siderust::coordinates::frames::EclipticMeanJ2000;
use siderust::ephemeris::lagrange::fit::{evaluate_fitted, fit_sun_earth_lagrange, FitConfig, FitError, FittedPoint};
use siderust::ephemeris::lagrange::solver::{solve_sun_earth_lagrange_dyn, solve_sun_earth_lagrange_dyn_with_config, SolverConfig, SolverError};
use siderust::ephemeris::lagrange::SunEarthLagrangePoint as L;
use siderust::ephemeris::{AuPerDay, DynEphemeris, EphemerisError, Vsop87Ephemeris};
use siderust::formats::sck::parse_sck;
use siderust::qtty::{AstronomicalUnit, Kilometer, Kilometers, Meters, Seconds};
use siderust::time::JulianDate;
use std::cell::{Cell, RefCell};
use std::f64::consts::TAU;

const AU_KM: f64 = 149_597_870.7;
const DAY: f64 = 86_400.0;
const J2000: f64 = 2_451_545.0;
const GM: [f64; 3] = [1.327_124_400_41e11, 3.986_004_355e5, 4.902_800_1e3];
const POINTS: [L; 5] = [L::L1, L::L2, L::L3, L::L4, L::L5];

/// Mean anomaly to position and velocity on an ellipse, in its own plane.
fn ellipse(a: f64, e: f64, n: f64, m: f64) -> ([f64; 2], [f64; 2]) {
    let mut x = m + e * m.sin();
    for _ in 0..40 {
        let d = (x - e * x.sin() - m) / (1.0 - e * x.cos());
        x -= d;
        if d.abs() < 1e-16 {
            break;
        }
    }
    let b = (1.0 - e * e).sqrt();
    let xd = n / (1.0 - e * x.cos());
    ([a * (x.cos() - e), a * b * x.sin()], [-a * x.sin() * xd, a * b * x.cos() * xd])
}

fn turn(p: [f64; 2], peri: f64, inc: f64, node: f64) -> V3 {
    let (c, s) = (peri.cos(), peri.sin());
    let q = [p[0] * c - p[1] * s, p[0] * s + p[1] * c];
    let z = q[1] * inc.sin();
    let y = q[1] * inc.cos();
    [q[0] * node.cos() - y * node.sin(), q[0] * node.sin() + y * node.cos(), z]
}

#[derive(Clone, Debug)]
struct Sky {
    sun0: V3,
    drift: V3,
    a: f64,
    e: f64,
    m0: f64,
    peri: f64,
    inc: f64,
    node: f64,
    moon_a: f64,
    moon_e: f64,
    moon_m: f64,
    moon_inc: f64,
}

impl Sky {
    fn new(s: &mut Sim) -> Sky {
        Sky {
            sun0: std::array::from_fn(|_| s.f64(-0.01, 0.01)),
            drift: std::array::from_fn(|_| s.f64(-1e-5, 1e-5)),
            a: s.f64(0.98, 1.02),
            e: s.f64(0.0, 0.03),
            m0: s.f64(0.0, TAU),
            peri: s.f64(0.0, TAU),
            inc: if s.chance(1, 2) { 0.0 } else { s.f64(0.0, 0.02) },
            node: s.f64(0.0, TAU),
            moon_a: s.f64(370_000.0, 400_000.0),
            moon_e: s.f64(0.0, 0.06),
            moon_m: s.f64(0.0, TAU),
            moon_inc: s.f64(0.0, 0.1),
        }
    }
    fn n(&self) -> f64 {
        ((GM[0] + GM[1]) / (self.a * AU_KM).powi(3)).sqrt() * DAY
    }
    fn sun(&self, jd: f64) -> V3 {
        add(self.sun0, scale(self.drift, jd - J2000 - 7000.0))
    }
    /// Earth relative to the Sun, au and au/day.
    fn rel(&self, jd: f64) -> (V3, V3) {
        let (p, v) = ellipse(self.a, self.e, self.n(), self.m0 + self.n() * (jd - J2000));
        (turn(p, self.peri, self.inc, self.node), turn(v, self.peri, self.inc, self.node))
    }
    fn moon(&self, jd: f64) -> V3 {
        let n = ((GM[1] + GM[2]) / self.moon_a.powi(3)).sqrt() * DAY;
        let (p, _) = ellipse(self.moon_a, self.moon_e, n, self.moon_m + n * (jd - J2000));
        turn(p, 0.3, self.moon_inc, 1.0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// Refuses the n-th question, from whatever source.
    Nth(u64),
    /// Knows nothing outside this span.
    Span(f64, f64),
    /// The Earth sits in the Sun from the n-th question on.
    Collapse(u64),
    /// Answers with something that is not a number from the n-th question on.
    Nan(u64),
}

struct Source {
    sky: Sky,
    fault: Fault,
    calls: Cell<u64>,
    hit: Cell<bool>,
    asked: RefCell<(f64, f64)>,
}

type BaryAu = Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit>;

impl Source {
    fn new(sky: &Sky, fault: Fault) -> Source {
        Source { sky: sky.clone(), fault, calls: Cell::new(0), hit: Cell::new(false), asked: RefCell::new((f64::INFINITY, f64::NEG_INFINITY)) }
    }
    fn call(&self, jd: JulianDate, v: V3, earth: bool) -> Result<V3, EphemerisError> {
        let t = jd.raw().value();
        let k = self.calls.get() + 1;
        self.calls.set(k);
        {
            let mut a = self.asked.borrow_mut();
            *a = (a.0.min(t), a.1.max(t));
        }
        match self.fault {
            Fault::Nth(n) if n == k => {
                self.hit.set(true);
                Err(EphemerisError::OutOfRange { jd: t, start_jd: 0.0, end_jd: k as f64 })
            }
            Fault::Span(a, b) if t < a || t > b => {
                self.hit.set(true);
                Err(EphemerisError::OutOfRange { jd: t, start_jd: a, end_jd: b })
            }
            Fault::Collapse(n) if k >= n && earth => {
                self.hit.set(true);
                Ok(self.sky.sun(t))
            }
            Fault::Nan(n) if k >= n => {
                self.hit.set(true);
                Ok([f64::NAN; 3])
            }
            _ => Ok(v),
        }
    }
}

impl DynEphemeris for Source {
    fn try_sun_barycentric(&self, jd: JulianDate) -> Result<BaryAu, EphemerisError> {
        let v = self.call(jd, self.sky.sun(jd.raw().value()), false)?;
        Ok(BaryAu::new(v[0], v[1], v[2]))
    }
    fn sun_barycentric(&self, jd: JulianDate) -> BaryAu {
        self.try_sun_barycentric(jd).unwrap_or(BaryAu::new(f64::NAN, f64::NAN, f64::NAN))
    }
    fn try_earth_barycentric(&self, jd: JulianDate) -> Result<BaryAu, EphemerisError> {
        let t = jd.raw().value();
        let v = self.call(jd, add(self.sky.sun(t), self.sky.rel(t).0), true)?;
        Ok(BaryAu::new(v[0], v[1], v[2]))
    }
    fn earth_barycentric(&self, jd: JulianDate) -> BaryAu {
        self.try_earth_barycentric(jd).unwrap_or(BaryAu::new(f64::NAN, f64::NAN, f64::NAN))
    }
    fn try_earth_heliocentric(&self, jd: JulianDate) -> Result<Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit>, EphemerisError> {
        let v = self.call(jd, self.sky.rel(jd.raw().value()).0, true)?;
        Ok(Position::new(v[0], v[1], v[2]))
    }
    fn earth_heliocentric(&self, jd: JulianDate) -> Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit> {
        self.try_earth_heliocentric(jd).unwrap_or(Position::new(f64::NAN, f64::NAN, f64::NAN))
    }
    fn try_earth_barycentric_velocity(&self, jd: JulianDate) -> Result<Velocity<EclipticMeanJ2000, AuPerDay>, EphemerisError> {
        let v = self.call(jd, add(self.sky.rel(jd.raw().value()).1, self.sky.drift), true)?;
        Ok(Velocity::new(v[0], v[1], v[2]))
    }
    fn earth_barycentric_velocity(&self, _jd: JulianDate) -> Velocity<EclipticMeanJ2000, AuPerDay> {
        Velocity::new(f64::NAN, f64::NAN, f64::NAN)
    }
    fn try_moon_geocentric(&self, jd: JulianDate) -> Result<Position<Geocentric, EclipticMeanJ2000, Kilometer>, EphemerisError> {
        let v = self.call(jd, self.sky.moon(jd.raw().value()), false)?;
        Ok(Position::new(v[0], v[1], v[2]))
    }
    fn moon_geocentric(&self, jd: JulianDate) -> Position<Geocentric, EclipticMeanJ2000, Kilometer> {
        self.try_moon_geocentric(jd).unwrap_or(Position::new(f64::NAN, f64::NAN, f64::NAN))
    }
}

/// What is left of the pull on a body at rest at `p` in the frame that turns with the Earth (km, s).
fn left_over(sky: &Sky, jd: f64, p: V3) -> V3 {
    let sun = scale(sky.sun(jd), AU_KM);
    let (r, v) = sky.rel(jd);
    let (r, v) = (scale(r, AU_KM), scale(v, AU_KM / DAY));
    let earth = add(sun, r);
    let moon = add(earth, sky.moon(jd));
    let pull = |at: V3, of: V3, gm: f64| {
        let d = sub(of, at);
        scale(d, gm / norm(d).powi(3))
    };
    let total = GM[0] + GM[1];
    let origin = scale(add(scale(sun, GM[0]), scale(earth, GM[1])), 1.0 / total);
    let fall = scale(add(scale(pull(sun, moon, GM[2]), GM[0]), scale(pull(earth, moon, GM[2]), GM[1])), 1.0 / total);
    let h = cross(r, v);
    let w = scale(h, 1.0 / dot(r, r));
    let g = add(add(pull(p, sun, GM[0]), pull(p, earth, GM[1])), pull(p, moon, GM[2]));
    sub(sub(g, fall), cross(w, cross(w, sub(p, origin))))
}

fn km3(p: &Position<Barycentric, EclipticMeanJ2000, Kilometer>) -> V3 {
    [p.x().value(), p.y().value(), p.z().value()]
}

fn au3(p: &BaryAu) -> V3 {
    [p.x().value() * AU_KM, p.y().value() * AU_KM, p.z().value() * AU_KM]
}

fn place(sky: &Sky, jd: f64, p: V3, k: usize) -> R {
    let sun = scale(sky.sun(jd), AU_KM);
    let (r, v) = sky.rel(jd);
    let d = norm(r) * AU_KM;
    let u = scale(r, 1.0 / norm(r));
    let q = scale(sub(p, sun), 1.0 / d);
    let along = dot(q, u);
    let off = sub(q, scale(u, along));
    let side = norm(off);
    let lead = dot(off, v);
    let ok = match k {
        0 => (along - 0.99).abs() < 6e-3 && side < 2e-3,
        1 => (along - 1.01).abs() < 6e-3 && side < 2e-3,
        2 => (along + 1.0).abs() < 0.05 && side < 0.2,
        _ => (along - 0.5).abs() < 0.1 && (side - 0.75f64.sqrt()).abs() < 0.1 && (lead > 0.0) == (k == 3),
    };
    ensure!(ok, "place", "L{} at JD {jd} lies {along} along the Sun-Earth line and {side} off it (lead {lead}); {sky:?}", k + 1);
    Ok(())
}

fn jd_of(s: &mut Sim) -> f64 {
    match s.below(4) {
        0 => 2_451_545.0 + s.int(-3000, 9000) as f64,
        1 => 2_451_544.5 + s.int(-3000, 9000) as f64,
        2 => 2_451_544.5 + s.int(-3000, 9000) as f64 + s.int(0, 1439) as f64 / 1440.0,
        _ => s.f64(2_448_000.0, 2_461_000.0),
    }
}

fn balance(s: &mut Sim) -> R {
    let sky = Sky::new(s);
    let n = s.int(1, 8);
    for _ in 0..n {
        let jd = jd_of(s);
        s.h(&jd.to_le_bytes());
        s.advance(1_000_000_000);
        let k = s.idx(5);
        let j = JulianDate::new(jd);
        let fault = match s.below(6) {
            0 => {
                s.fault("source-refuses");
                Fault::Nth(1 + s.below(8))
            }
            1 => {
                s.fault("source-ends");
                let a = jd - s.f64(0.0, 0.03);
                Fault::Span(a, jd + s.f64(0.0, 0.03))
            }
            2 if s.chance(1, 2) => {
                s.fault("source-collapses");
                Fault::Collapse(1 + s.below(8))
            }
            2 => {
                s.fault("source-nan");
                Fault::Nan(1 + s.below(8))
            }
            _ => Fault::None,
        };
        let src = Source::new(&sky, fault);
        let got = no_panic("solve_sun_earth_lagrange_dyn", || solve_sun_earth_lagrange_dyn(&src, POINTS[k], j))?;
        s.checked();
        s.state(k as u64 * 8 + matches!(fault, Fault::None) as u64);
        match (&got, src.hit.get()) {
            (Ok(sol), false) => {
                let p = km3(&sol.position);
                place(&sky, jd, p, k)?;
                let r = norm(left_over(&sky, jd, p));
                let lim = if k < 2 { 1e-12 } else { 1e-9 };
                ensure!(r < lim, "balance", "L{} at JD {jd}: {r} km/s² left over at {p:?}, the solver says {} after {} steps; {sky:?}", k + 1, sol.residual_norm_km_s2, sol.iterations);
                ensure!((sol.residual_norm_km_s2 - r).abs() < 3e-12, "residual", "L{} at JD {jd}: the solver reports {} km/s², it is {r}", k + 1, sol.residual_norm_km_s2);
                // Asked again, starting from the answer or elsewhere nearby.
                let off: V3 = std::array::from_fn(|_| s.f64(-2000.0, 2000.0));
                let seed = Position::new(Kilometers::new(p[0] + off[0]), Kilometers::new(p[1] + off[1]), Kilometers::new(p[2] + off[2]));
                let again = no_panic("solve_sun_earth_lagrange_dyn_with_config", || solve_sun_earth_lagrange_dyn_with_config(&Source::new(&sky, Fault::None), POINTS[k], j, SolverConfig::default(), Some(seed)))?;
                match again {
                    Ok(b) => {
                        let r = norm(left_over(&sky, jd, km3(&b.position)));
                        ensure!(r < lim, "balance", "L{} at JD {jd} from a seed {off:?} km away: {r} km/s² left over", k + 1);
                        if k < 2 {
                            let d = norm(sub(km3(&b.position), p));
                            ensure!(d < 1.0, "seed", "L{} at JD {jd}: {d} km elsewhere from a seed {off:?} away", k + 1);
                        }
                    }
                    Err(e) => viol!("seed", "L{} at JD {jd} from a seed {off:?} km away: {e}", k + 1),
                }
            }
            (Err(e), false) => viol!("refused", "L{} at JD {jd}: {e}; {sky:?}", k + 1),
            (Err(SolverError::Ephemeris(EphemerisError::OutOfRange { start_jd, end_jd, .. })), true) => {
                let same = match fault {
                    Fault::Nth(n) => *end_jd == n as f64,
                    Fault::Span(a, b) => (*start_jd, *end_jd) == (a, b),
                    _ => false,
                };
                ensure!(same, "error", "L{} at JD {jd}: {got:?} under {fault:?}", k + 1);
            }
            (Err(_), true) => ensure!(matches!(fault, Fault::Collapse(_) | Fault::Nan(_)), "error", "L{} at JD {jd}: {got:?} under {fault:?}", k + 1),
            (Ok(sol), true) => {
                let p = km3(&sol.position);
                ensure!(!matches!(fault, Fault::Nth(_) | Fault::Span(..)), "swallowed", "L{} at JD {jd}: the source failed under {fault:?}, the solver answers {p:?}", k + 1);
            }
        }
    }
    Ok(())
}

fn cheb(c: &[f64], x: f64) -> f64 {
    // By angles, so that it shares nothing with a recurrence.
    let th = x.clamp(-1.0, 1.0).acos();
    c.iter().enumerate().map(|(k, c)| c * (k as f64 * th).cos()).sum()
}

struct Rec<'a> {
    mid: f64,
    rad: f64,
    c: [&'a [f64]; 3],
}

fn recs(f: &[f64], n: usize) -> Vec<Rec<'_>> {
    f.chunks_exact(2 + 3 * n).map(|r| Rec { mid: r[0], rad: r[1], c: [&r[2..2 + n], &r[2 + n..2 + 2 * n], &r[2 + 2 * n..]] }).collect()
}

fn fit(s: &mut Sim) -> R {
    let sky = Sky::new(s);
    let vsop = s.chance(1, 40);
    let k = s.idx(5);
    let from = jd_of(s);
    let span = match s.below(4) {
        0 => s.int(1, 64) as f64,
        1 => s.f64(0.01, 3.0),
        2 => s.int(1, 40) as f64 * 0.25,
        _ => s.f64(1.0, 64.0),
    } * if vsop { 0.25 } else { 1.0 };
    let to = from + span;
    let block_d = *s.pick(&[32.0, 32.0, 16.0, 8.0, span, span * 0.4, span / 3.0, 2.0 * span, 5.5]);
    let block_d = if block_d < span / 12.0 { span / 12.0 } else { block_d };
    let step_d = block_d.min(span) / s.int(3, 40) as f64;
    let step_d = if s.chance(1, 4) { (0.25f64).min(step_d.max(span / 60.0)) } else { step_d.max(span / 60.0) };
    let tol = *s.pick(&[100.0, 100.0, 10.0, 3000.0, 1e-4]);
    for v in [from, to, block_d, step_d, tol] {
        s.h(&v.to_le_bytes());
    }
    let mut cfg = FitConfig {
        from: JulianDate::new(from),
        to: JulianDate::new(to),
        block: Seconds::new(block_d * DAY),
        validation_step: Seconds::new(step_d * DAY),
        tolerance: Meters::new(tol),
        solver: SolverConfig::default(),
    };
    s.advance((span * 86_400e9) as u64);
    if s.chance(1, 10) {
        s.fault("bad-config");
        match s.below(8) {
            0 => cfg.to = cfg.from,
            1 => std::mem::swap(&mut cfg.from, &mut cfg.to),
            2 => cfg.block = Seconds::new(0.0),
            3 => cfg.block = Seconds::new(-5.0),
            4 => cfg.block = Seconds::new(f64::NAN),
            5 => cfg.validation_step = Seconds::new(0.0),
            6 => cfg.validation_step = Seconds::new(f64::INFINITY),
            _ => cfg.block = Seconds::new(f64::INFINITY),
        }
        let src = Source::new(&sky, Fault::None);
        let got = no_panic("fit_sun_earth_lagrange", || fit_sun_earth_lagrange(&src, POINTS[k], cfg))?;
        ensure!(got == Err(FitError::InvalidConfig), "config", "{cfg:?} accepted: {:?}", got.map(|f| f.stats));
        s.checked();
        return Ok(());
    }
    let fault = if vsop {
        Fault::None
    } else {
        match s.below(8) {
            0 => {
                s.fault("source-refuses");
                Fault::Nth(1 + s.below(8 * (16 * (span / block_d).ceil() as u64 + 4)))
            }
            1 => {
                s.fault("source-ends");
                let a = from - s.f64(0.0, 1.0);
                Fault::Span(a, to + s.f64(-0.2 * span, 0.02))
            }
            2 => {
                s.fault("source-nan");
                Fault::Nan(1 + s.below(8 * (16 * (span / block_d).ceil() as u64 + 4)))
            }
            _ => Fault::None,
        }
    };
    let src = Source::new(&sky, fault);
    let eph: &dyn DynEphemeris = if vsop { &Vsop87Ephemeris } else { &src };
    let got = no_panic("fit_sun_earth_lagrange", || fit_sun_earth_lagrange(eph, POINTS[k], cfg))?;
    s.checked();
    let what = format!("L{}, JD {from} to {to}, blocks of {block_d} d, checked every {step_d} d, tolerance {tol} m, {fault:?}", k + 1);
    if !vsop {
        let a = *src.asked.borrow();
        ensure!(a.0 >= from - 0.0101 && a.1 <= to + 0.0101, "asked", "the source was asked from JD {} to {}; {what}", a.0, a.1);
    }
    let f: FittedPoint = match got {
        Ok(f) => f,
        Err(FitError::Solver(SolverError::Ephemeris(_))) if matches!(fault, Fault::Nth(_) | Fault::Span(..)) && src.hit.get() => return Ok(()),
        Err(FitError::Solver(_)) if matches!(fault, Fault::Nan(_)) && src.hit.get() => return Ok(()),
        Err(FitError::ToleranceNotMet { max_abs_error }) if !src.hit.get() => {
            ensure!(max_abs_error.value() > tol, "tolerance", "refused with an error of {} m; {what}", max_abs_error.value());
            ensure!(tol < 1000.0 || vsop || block_d.min(span) > 20.0 || k > 1, "unfit", "best error {} m; {what}; {sky:?}", max_abs_error.value());
            return Ok(());
        }
        Err(e) => viol!("fit-refused", "{e}; {what}; {sky:?}"),
    };
    if matches!(fault, Fault::Nan(_)) && src.hit.get() {
        return Ok(());
    }
    ensure!(!src.hit.get(), "swallowed", "the source failed and a fit came out; {what}");
    ensure!(f.point == POINTS[k], "point", "fitted {:?}; {what}", f.point);
    s.state(f.ncoeff as u64);
    ensure!(f.records.len().is_multiple_of(2 + 3 * f.ncoeff) && f.records.iter().all(|x| x.is_finite()), "records", "{} numbers for {} coefficients; {what}", f.records.len(), f.ncoeff);
    let rs = recs(&f.records, f.ncoeff);
    let want = (span * DAY / (block_d * DAY) - 1e-9).ceil() as usize;
    ensure!(rs.len() == want || rs.len() == want + 1, "records", "{} blocks, expected {want}; {what}", rs.len());
    let (t0, t1) = ((from - J2000) * DAY, (to - J2000) * DAY);
    let mut at = t0;
    for r in &rs {
        ensure!((r.mid - r.rad - at).abs() < 1e-5 && r.rad > 0.0 && r.rad <= 0.5 * block_d * DAY + 1e-5, "blocks", "a block {}±{} s does not continue at {at}; {what}", r.mid, r.rad);
        at = r.mid + r.rad;
    }
    ensure!((at - t1).abs() < 1e-5, "blocks", "the blocks end at {at} s, the span at {t1}; {what}");
    ensure!(f.stats.max_abs_error.value() <= tol, "tolerance", "delivered with an error of {} m; {what}", f.stats.max_abs_error.value());
    ensure!(f.stats.rms_error.value() >= 0.0 && f.stats.rms_error.value() <= f.stats.max_abs_error.value() * (1.0 + 1e-12), "stats", "{:?}; {what}", f.stats);
    // Looked up at will, against the solver on the same source.
    let clean = Source::new(&sky, Fault::None);
    let eph: &dyn DynEphemeris = if vsop { &Vsop87Ephemeris } else { &clean };
    for i in 0..if vsop { 3 } else { 12 } {
        let jd = match i {
            0 => from,
            1 => to,
            2 if rs.len() > 1 => J2000 + (rs[s.idx(rs.len() - 1)].mid + rs[0].rad) / DAY,
            _ => s.f64(from, to),
        };
        let jd = jd.clamp(from, to);
        let j = JulianDate::new(jd);
        let p = match no_panic("evaluate_fitted", || evaluate_fitted(&f, j))? {
            Ok(p) => au3(&p),
            Err(e) => viol!("gap", "JD {jd} lies inside and is refused: {e}; {what}"),
        };
        let t = (jd - J2000) * DAY;
        let r = rs.iter().min_by(|a, b| ((t - a.mid).abs() - a.rad).total_cmp(&((t - b.mid).abs() - b.rad))).unwrap();
        let x = (t - r.mid) / r.rad;
        let own: V3 = std::array::from_fn(|i| cheb(r.c[i], x));
        ensure!(norm(sub(own, p)) < 1e-4 || rs.iter().any(|r| ((t - r.mid).abs() - r.rad).abs() < 1e-3), "evaluate", "JD {jd}: {p:?}, the coefficients say {own:?} ({x}); {what}");
        match no_panic("solve_sun_earth_lagrange_dyn", || solve_sun_earth_lagrange_dyn(eph, POINTS[k], j))? {
            Ok(sol) => {
                let d = norm(sub(km3(&sol.position), p)) * 1000.0;ensure!(k > 1 || d < 10.0 * tol + 50.0, "fit", "JD {jd}: the fit is {d} m from the solution; {:?}; {what}; {sky:?}", f.stats);
            }
            Err(e) => viol!("refused", "JD {jd}: {e}; {what}"),
        }
        s.checked();
    }
    for jd in [from - s.f64(1e-5, 5.0), to + s.f64(1e-5, 5.0)] {
        match no_panic("evaluate_fitted", || evaluate_fitted(&f, JulianDate::new(jd)))? {
            Ok(p) => viol!("outside", "JD {jd} answered with {p:?}; {what}"),
            Err(EphemerisError::OutOfRange { jd: q, start_jd, end_jd }) => ensure!(q == jd && (start_jd - from).abs() < 1e-7 && (end_jd - to).abs() < 1e-7, "outside", "JD {jd}: {q} is said to lie outside {start_jd} to {end_jd}; {what}"),
            Err(e) => viol!("outside", "JD {jd}: {e}; {what}"),
        }
    }
    // The statistics, recomputed at the same instants.
    if !vsop {
        let (mut t, mut worst, mut sum, mut n) = (t0, 0.0f64, 0.0, 0);
        while t <= t1 + 1e-9 {
            let j = JulianDate::new(J2000 + t / DAY);
            if let (Ok(sol), Ok(p)) = (solve_sun_earth_lagrange_dyn(eph, POINTS[k], j), evaluate_fitted(&f, j)) {
                let d = norm(sub(km3(&sol.position), au3(&p))) * 1000.0;
                worst = worst.max(d);
                sum += d * d;
                n += 1;
            }
            t += step_d * DAY;
        }
        let rms = (sum / n as f64).sqrt();
        // The unit changes cost a tenth of a millimetre.
        ensure!((worst - f.stats.max_abs_error.value()).abs() < 1e-6 * worst + 1e-3, "stats", "reported a largest error of {} m, it is {worst}; {what}", f.stats.max_abs_error.value());
        ensure!((rms - f.stats.rms_error.value()).abs() < 1e-6 * rms + 1e-3, "stats", "reported an rms of {} m, it is {rms}; {what}", f.stats.rms_error.value());
    }
    s.checked();
    Ok(())
}

/// The archive's file format: a header and records, written, damaged and read.
fn archive(s: &mut Sim) -> R {
    let ncoeff = s.int(0, 20) as u32;
    let count = s.int(0, 12) as u32;
    let ids: [u32; 4] = std::array::from_fn(|_| s.u64() as u32);
    let (a, b) = (s.f64(2.4e6, 2.5e6), s.f64(2.4e6, 2.5e6));
    let n = (2 + 3 * ncoeff as usize) * count as usize;
    let data: Vec<f64> = (0..n).map(|_| if s.chance(1, 30) { *s.pick(&[0.0, -0.0, f64::MAX, f64::INFINITY, 5e-324]) } else { s.normal() * 1e8 }).collect();
    let mut d = b"SCKERN01".to_vec();
    d.extend(ncoeff.to_le_bytes());
    d.extend(count.to_le_bytes());
    for i in ids {
        d.extend(i.to_le_bytes());
    }
    d.extend(a.to_le_bytes());
    d.extend(b.to_le_bytes());
    d.resize(64, s.below(256) as u8);
    for x in &data {
        d.extend(x.to_le_bytes());
    }
    s.h(&d);
    s.advance(1_000_000);
    let k = match no_panic("parse_sck", || parse_sck(&d))? {
        Ok(k) => k,
        Err(e) => viol!("sck-refused", "a sound archive of {count} records is refused: {e}"),
    };
    let h = k.header;
    ensure!((h.ncoeff, h.record_count, [h.center_id, h.target_id, h.frame_id, h.time_scale_id]) == (ncoeff, count, ids), "sck-header", "{h:?}, written {ncoeff} {count} {ids:?}");
    ensure!((h.valid_from_jd, h.valid_to_jd) == (a, b), "sck-header", "{h:?}, written {a} {b}");
    ensure!(k.record_stride() == 2 + 3 * ncoeff as usize, "sck-stride", "{}", k.record_stride());
    ensure!(k.records.len() == n && k.records.iter().zip(&data).all(|(x, y)| x.to_bits() == y.to_bits()), "sck-records", "{n} numbers written, {} came back", k.records.len());
    s.checked();
    for _ in 0..4 {
        let mut e = d.clone();
        let what = match s.below(6) {
            0 => {
                s.fault("cut");
                let n = s.idx(e.len());
                e.truncate(n);
                "cut"
            }
            1 => {
                s.fault("longer");
                let n = 1 + s.idx(40);
                e.resize(e.len() + n, 0);
                "longer"
            }
            2 => {
                s.fault("magic");
                let i = s.idx(8);
                e[i] ^= 1 << s.below(8);
                "magic"
            }
            3 => {
                s.fault("geometry");
                // Counts whose product no longer fits.
                let (c, r) = match s.below(3) {
                    0 => (u32::MAX - s.below(3) as u32, u32::MAX - s.below(3) as u32),
                    1 => (*s.pick(&[0x2AAA_AAAAu32, 0xAAAA_AAAA, 0x5555_5554, 2_863_311_530]), *s.pick(&[1u32 << 29, 1 << 30, 1 << 31, u32::MAX])),
                    _ => (s.u64() as u32, s.u64() as u32),
                };
                e[8..12].copy_from_slice(&c.to_le_bytes());
                e[12..16].copy_from_slice(&r.to_le_bytes());
                if s.chance(1, 2) {
                    e.truncate(64);
                }
                "geometry"
            }
            4 => {
                s.fault("count");
                let r = count.wrapping_add(1 + s.below(3) as u32);
                e[12..16].copy_from_slice(&r.to_le_bytes());
                "count"
            }
            _ => {
                s.fault("coefficients");
                let c = ncoeff + 1 + s.below(3) as u32;
                e[8..12].copy_from_slice(&c.to_le_bytes());
                "coefficients"
            }
        };
        let got = no_panic("parse_sck", || parse_sck(&e))?;
        s.checked();
        let c = u32::from_le_bytes(e.get(8..12).unwrap_or(&[0; 4]).try_into().unwrap()) as u128;
        let r = u32::from_le_bytes(e.get(12..16).unwrap_or(&[0; 4]).try_into().unwrap()) as u128;
        let sound = e.len() >= 64 && what != "magic" && (e.len() - 64) as u128 == (2 + 3 * c) * r * 8;
        ensure!(got.is_ok() == sound, "sck-damaged", "{what}: {} bytes with {c} coefficients and {r} records came out as {:?}", e.len(), got.map(|k| k.records.len()));
    }
    Ok(())
}

pub static C36: Prop = Prop {
    id: "C36",
    scenarios: &[("balance", 8, balance), ("fit", 3, fit), ("archive", 4, archive)],
    runs_quick: 16_000,
    runs_thorough: 400_000,
    rule: "at a solved Sun-Earth point an independent force balance in the turning frame leaves nothing over, the point lies where its number says, and a start elsewhere nearby leads to the same point; a fit covers its span in blocks without gaps, its coefficients evaluated by an independent sum give its answers, those agree with the solver anywhere inside within the tolerance, its statistics are the ones measured, and outside it is refused; a source that fails makes solver and fit fail with its error; an archive file reads back bit for bit and a damaged one is refused",
    real: &["ephemeris::lagrange::{solver,fit}", "formats::sck", "ephemeris::Vsop87Ephemeris"],
    stub: &["the source of Sun, Earth and Moon is a scripted two-body sky that fails at chosen questions, ends, collapses or answers NaN"],
    assumptions: &["the frame turns with the instantaneous angular velocity of the Earth about the Sun, as documented", "soft directions of L4 and L5 are judged by the force left over, not by distance"],
};
