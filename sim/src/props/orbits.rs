//! C29: bodies on conic orbits.

use crate::core::{no_panic, Sim, Viol, R};
use crate::kepler::{add, cross, dot, norm, scale, sub, V3};
use crate::{ensure, viol, Prop};
use siderust::astro::conic::{ConicError, ConicKind, ConicOrbit, MeanMotionOrbit};
use siderust::astro::conic_equations as ce;
use siderust::astro::orbit::{KeplerianOrbit, PreparedOrbit};
use siderust::coordinates::cartesian::position::EclipticMeanJ2000;
use siderust::qtty::angular_rate::AngularRate;
use siderust::qtty::unit::{AstronomicalUnit, Day, Degree};
use siderust::bodies::asteroid::AsteroidClass;
use siderust::bodies::comet::OrbitFrame;
use siderust::bodies::planets::{OrbitExt, PlanetBuilderError};
use siderust::bodies::{Asteroid, Comet, Planet};
use siderust::qtty::{Albedos, Kilograms, Kilometers};
use siderust::qtty::{AstronomicalUnits as Au, Degrees, GravitationalParameter};
use siderust::time::JulianDate;
use std::f64::consts::{PI, TAU};

const GAUSS: f64 = 0.017_202_098_95;
const AU_KM: f64 = 149_597_870.7;

#[derive(Clone, Copy, Debug)]
struct El {
    /// Periapsis distance, au.
    q: f64,
    e: f64,
    /// Inclination, node, periapsis, mean anomaly, degrees.
    ang: [f64; 4],
    epoch: f64,
}

fn v(p: EclipticMeanJ2000<AstronomicalUnit>) -> V3 {
    [p.x().value(), p.y().value(), p.z().value()]
}

/// Periapsis direction, the one 90 degrees ahead of it, and the orbit normal.
fn axes(el: &El) -> [V3; 3] {
    let [i, o, w, _] = el.ang.map(f64::to_radians);
    let p = [o.cos() * w.cos() - o.sin() * w.sin() * i.cos(), o.sin() * w.cos() + o.cos() * w.sin() * i.cos(), w.sin() * i.sin()];
    let n = [o.sin() * i.sin(), -o.cos() * i.sin(), i.cos()];
    [p, cross(n, p), n]
}

/// Mean anomaly at which a point of the orbit is reached, once it is known to
/// lie on it.
fn mean_of(el: &El, p: V3, what: &str) -> Result<f64, Viol> {
    let ax = axes(el);
    let r = norm(p);
    ensure!(r.is_finite() && r > 0.0, "orbit", "{what}: position {p:?}");
    ensure!(dot(p, ax[2]).abs() < 1e-13 * r * (1.0 + el.ang.iter().map(|a| a.abs()).sum::<f64>() / 360.0), "plane", "{what}: {p:?} lies {} au off the orbit plane", dot(p, ax[2]));
    let (x, y) = (dot(p, ax[0]), dot(p, ax[1]));
    // r + e x = q (1 + e): the conic, whatever its kind.
    // r = a (1 - e cos E) cancels towards e = 1.
    let lim = 1e-11 * (r + el.q) * (1.0 + el.e) + 1e-15 * el.q / (1.0 - el.e).abs();
    ensure!((r + el.e * x - el.q * (1.0 + el.e)).abs() < lim, "conic", "{what}: {p:?} is off the conic by {} au", r + el.e * x - el.q * (1.0 + el.e));
    if el.e < 1.0 {
        let a = el.q / (1.0 - el.e);
        let b = a * ((1.0 - el.e) * (1.0 + el.e)).sqrt();
        let ecc = (y / b).atan2(x / a + el.e);
        Ok(ecc - el.e * ecc.sin())
    } else {
        let a = el.q / (el.e - 1.0);
        let b = a * ((el.e - 1.0) * (el.e + 1.0)).sqrt();
        let h = (y / b).asinh();
        Ok(el.e * h.sinh() - h)
    }
}

fn element(s: &mut Sim, e: f64) -> El {
    let q = 10f64.powf(s.f64(-3.0, 2.0));
    let turn = if s.chance(1, 4) { 4_000.0 } else { 360.0 };
    let mut ang = [s.f64(0.0, 180.0), s.f64(-turn, turn), s.f64(-turn, turn), s.f64(-turn, turn)];
    for a in &mut ang {
        if s.chance(1, 6) {
            *a = *s.pick(&[0.0, 90.0, 180.0]);
        }
    }
    El { q, e, ang, epoch: s.f64(2_400_000.0, 2_500_000.0) }
}

fn ecc(s: &mut Sim) -> f64 {
    match s.below(6) {
        0 => 0.0,
        1 => 10f64.powf(s.f64(-12.0, -2.0)),
        2 => 1.0 - 10f64.powf(s.f64(-9.0, -1.0)),
        _ => s.f64(0.0, 0.98),
    }
}

fn wrap(x: f64) -> f64 {
    (x + PI).rem_euclid(TAU) - PI
}

fn deg(x: f64) -> Degrees {
    Degrees::new(x)
}

fn dates(s: &mut Sim, el: &El, n: f64) -> Vec<f64> {
    let mut out = vec![];
    for _ in 0..s.int(2, 10) {
        let dt = match s.below(6) {
            0 => 0.0,
            // Periapsis itself, and a whisker away from it.
            1 => -el.ang[3].to_radians() / n,
            2 => -el.ang[3].to_radians() / n + 10f64.powf(s.f64(-9.0, 0.0)) / n * *s.pick(&[1.0, -1.0]),
            3 => s.f64(-TAU, TAU) / n,
            4 => s.f64(-1.0, 1.0),
            _ => s.f64(-1e6, 1e6),
        };
        let jd = el.epoch + dt;
        if jd.abs() < 1e9 {
            out.push(jd);
        }
    }
    out
}

fn check(el: &El, n: f64, jd: f64, p: V3, what: &str) -> R {
    let m = mean_of(el, p, what)?;
    let dt = jd - el.epoch;
    let want = el.ang[3].to_radians() + n * dt;
    let d = if el.e < 1.0 { wrap(m - want) } else { m - want };
    // Dates resolve to a few 1e-10 days, angles to an ulp of what they sum.
    let cond = 1e-11 + 1e-12 / (1.0 - el.e).abs().sqrt();
    let lim = cond * (1.0 + el.ang[3].to_radians().abs() + (n * dt).abs() + m.abs()) + n * 2e-9;
    ensure!(d.abs() < lim, "kepler", "{what}: mean anomaly {m} {dt} d after the epoch, expected {want} ({el:?}, {p:?})");
    Ok(())
}

/// A body made from the elements keeps what it was made of, and its period is the time
/// of one turn.
fn body(s: &mut Sim, kep: &KeplerianOrbit, a: f64, n: f64) -> R {
    let p = kep.period().value() / 86_400.0;
    ensure!((p * n / TAU - 1.0).abs() < 1e-6, "period", "period {p} d of an orbit of {a} au turning {n} rad/d");
    let (m, r) = (Kilograms::new(10f64.powf(s.f64(10.0, 30.0))), Kilometers::new(s.f64(0.1, 1e5)));
    let alb = s.chance(1, 2).then(|| Albedos::new(0.3));
    let mut b = Planet::builder().mass(m).radius(r).orbit(*kep);
    if let Some(x) = alb {
        b = b.albedo(x);
    }
    for pl in [b.clone().build(), b.clone().build_unchecked()] {
        ensure!(pl.mass == m && pl.radius == r && pl.albedo == alb && pl.orbit == *kep, "builder", "built {pl:?} from {b:?}");
    }
    let err = [Planet::builder().radius(r).orbit(*kep).try_build(), Planet::builder().mass(m).orbit(*kep).try_build(), Planet::builder().mass(m).radius(r).try_build()];
    ensure!(matches!(err, [Err(PlanetBuilderError::MissingMass), Err(PlanetBuilderError::MissingRadius), Err(PlanetBuilderError::MissingOrbit)]), "builder", "incomplete planets: {err:?}");
    let frame = if s.chance(1, 2) { OrbitFrame::Heliocentric } else { OrbitFrame::Barycentric };
    let c = Comet::builder().name("C").tail_length(r).orbit(*kep).reference(frame).build();
    ensure!(c.name == "C" && c.tail_length == r && c.reference == frame && c.orbit == *kep, "builder", "built {c:?}");
    ensure!((c.period_years().value() * 365.25 / p - 1.0).abs() < 1e-4, "period", "comet period {}, orbit period {p} d", c.period_years());
    let mut b = Asteroid::builder().name("A").designation("(7)").orbit(*kep);
    if let Some(x) = alb {
        b = b.albedo(x);
    }
    let x = b.composition("rock").class(AsteroidClass::Trojan).build();
    ensure!(x.name == "A" && x.designation == "(7)" && x.composition == "rock" && x.class == AsteroidClass::Trojan && x.albedo == alb && x.orbit == *kep, "builder", "built {x:?}");
    Ok(())
}

fn ellipse(s: &mut Sim) -> R {
    let e = ecc(s);
    let el = element(s, e);
    let a = el.q / (1.0 - e);
    let n = GAUSS / (a * a.sqrt());
    let j0 = JulianDate::new(el.epoch);
    let [i, o, w, m] = el.ang.map(deg);
    let kep = KeplerianOrbit::try_new(Au::new(a), e, i, o, w, m, j0);
    s.h(format!("{el:?}").as_bytes());
    let prep = PreparedOrbit::try_from_elements(Au::new(a), e, i, o, w, m, j0);
    let con = ConicOrbit::try_new(Au::new(el.q), e, i, o, w, m, j0);
    let n2 = 10f64.powf(s.f64(-6.0, 1.0));
    let mm = MeanMotionOrbit::try_new(Au::new(a), e, i, o, w, AngularRate::<Degree, Day>::new(n2.to_degrees()), j0);
    let (kep, prep, con, mm) = match (kep, prep, con, mm) {
        (Ok(a), Ok(b), Ok(c), Ok(d)) => (a, b, c, d),
        x => viol!("refused", "elements {el:?} refused: {x:?}"),
    };
    ensure!(con.kind() == ConicKind::Elliptic, "kind", "eccentricity {e} classified as {:?}", con.kind());
    if s.chance(1, 50) {
        body(s, &kep, a, n)?;
    }
    let mu_km = 10f64.powf(s.f64(0.0, 12.0));
    let mu = GravitationalParameter::new(mu_km);
    let n3 = (mu_km * 86_400.0f64.powi(2) / AU_KM.powi(3) / a.powi(3)).sqrt();
    let walk = dates(s, &el, n);
    let what = format!("{el:?}");
    let mut first: Option<(f64, V3)> = None;
    for jd in walk {
        let j = JulianDate::new(jd);
        let p = v(no_panic("kepler_position", || kep.kepler_position(j))?);
        check(&el, n, jd, p, &what)?;
        let lim = 1e-11 * norm(p) * (1.0 + n * (jd - el.epoch).abs() + el.ang[3].abs()) / (1.0 - e) + 1e-300;
        let others = [
            ("prepared", v(no_panic("PreparedOrbit::position_at", || prep.position_at(j))?)),
            ("free function", v(no_panic("calculate_orbit_position", || ce::calculate_orbit_position(&kep, j))?)),
        ];
        for (name, x) in others {
            ensure!(norm(sub(x, p)) < lim, "routes", "{name} at JD {jd}: {x:?}, kepler_position {p:?} ({what})");
        }
        let x = match no_panic("ConicOrbit::position_at", || con.position_at(j))? {
            Ok(x) => v(x),
            Err(x) => viol!("refused", "position at JD {jd} refused: {x} ({what})"),
        };
        check(&el, n, jd, x, &what)?;
        let el0 = El { ang: [el.ang[0], el.ang[1], el.ang[2], 0.0], ..el };
        let x = match no_panic("MeanMotionOrbit::position_at", || mm.position_at(j))? {
            Ok(x) => v(x),
            Err(x) => viol!("refused", "position at JD {jd} refused: {x} ({what})"),
        };
        check(&el0, n2, jd, x, &what)?;
        let x = v(no_panic("position_with_mu", || kep.position_with_mu(j, mu))?);
        check(&el, n3, jd, x, &what)?;
        // Vis viva, from three positions close together.
        if e < 0.9 && n * (jd - el.epoch).abs() < 10.0 {
            let h = 1e-3 / n;
            if (1e-4..1e4).contains(&h) {
                let at = |d: f64| v(kep.kepler_position(JulianDate::new(jd + d)));
                let vel = scale(sub(at(h), at(-h)), 0.5 / ((jd + h) - jd));
                let (r, k2) = (norm(p), GAUSS * GAUSS);
                let want = k2 * (2.0 / r - 1.0 / a);
                ensure!((dot(vel, vel) - want).abs() < 0.05 * k2 * 2.0 / r, "energy", "speed {} at {r} au, expected {} ({what})", norm(vel), want.sqrt());
                ensure!(dot(cross(p, vel), axes(&el)[2]) > 0.0, "sense", "retrograde against its own normal ({what})");
            }
        }
        match first {
            None => first = Some((jd, p)),
            Some((j1, p1)) => ensure!(v(kep.kepler_position(JulianDate::new(j1))) == p1, "history", "asked again at JD {j1}: another position ({what})"),
        }
        s.checked();
    }
    Ok(())
}

fn hyperbola(s: &mut Sim) -> R {
    let e = match s.below(4) {
        0 => 1.0 + 10f64.powf(s.f64(-9.0, -1.0)),
        1 => s.f64(1.0, 2.0).max(1.0 + 1e-12),
        2 => s.f64(2.0, 50.0),
        _ => s.f64(1.001, 4.0),
    };
    let el = element(s, e);
    let a = el.q / (e - 1.0);
    let n = GAUSS / (a * a.sqrt());
    let [i, o, w, m] = el.ang.map(deg);
    s.h(format!("{el:?}").as_bytes());
    let con = match ConicOrbit::try_new(Au::new(el.q), e, i, o, w, m, JulianDate::new(el.epoch)) {
        Ok(c) => c,
        Err(x) => viol!("refused", "elements {el:?} refused: {x}"),
    };
    ensure!(con.kind() == ConicKind::Hyperbolic, "kind", "eccentricity {e} classified as {:?}", con.kind());
    ensure!(matches!(KeplerianOrbit::try_new(Au::new(a), e, i, o, w, m, JulianDate::new(el.epoch)), Err(_)), "accepted", "an ellipse with eccentricity {e} was accepted");
    for jd in dates(s, &el, n) {
        let p = match no_panic("ConicOrbit::position_at", || con.position_at(JulianDate::new(jd)))? {
            Ok(x) => v(x),
            Err(x) => viol!("solver", "position at JD {jd} refused: {x} ({el:?})"),
        };
        check(&el, n, jd, p, "hyperbola")?;
        s.checked();
    }
    Ok(())
}

/// Near-parabolic orbits on both sides of e = 1 run together.
fn parabola(s: &mut Sim) -> R {
    let el = El { ang: [s.f64(0.0, 180.0), s.f64(0.0, 360.0), s.f64(0.0, 360.0), 0.0], ..element(s, 1.0) };
    let [i, o, w, m] = el.ang.map(deg);
    let j0 = JulianDate::new(el.epoch);
    s.h(format!("{el:?}").as_bytes());
    let make = |e: f64| ConicOrbit::try_new(Au::new(el.q), e, i, o, w, m, j0);
    ensure!(matches!(make(1.0), Err(ConicError::ParabolicUnsupported)), "parabola", "eccentricity 1: {:?}", make(1.0));
    let d = 10f64.powf(s.f64(-6.0, -4.0));
    let (lo, hi) = match (make(1.0 - d), make(1.0 + d)) {
        (Ok(a), Ok(b)) => (a, b),
        x => viol!("refused", "near-parabolic elements refused: {x:?}"),
    };
    for _ in 0..6 {
        // Times measured in the swing-by time of the periapsis.
        let dt = s.f64(-3.0, 3.0) * el.q.powf(1.5) / GAUSS;
        let j = JulianDate::new(el.epoch + dt);
        let dt = j.raw().value() - el.epoch;
        // Barker's equation.
        let k = 1.5 * GAUSS * dt / (2.0f64.sqrt() * el.q.powf(1.5));
        let y = (k + (k * k + 1.0).sqrt()).cbrt();
        let t = y - 1.0 / y;
        let ax = axes(&El { e: 1.0, ..el });
        let want = add(scale(ax[0], el.q * (1.0 - t * t)), scale(ax[1], el.q * 2.0 * t));
        for (name, c) in [("below", &lo), ("above", &hi)] {
            let p = match no_panic("ConicOrbit::position_at", || c.position_at(j))? {
                Ok(x) => v(x),
                Err(x) => viol!("solver", "near-parabola ({name} by {d}) at {dt} d refused: {x} ({el:?})"),
            };
            // Time resolution, eccentricity, and M = E - e sin E cancelling.
            let lim = el.q * (100.0 * d + 20.0 * GAUSS * 2e-9 / el.q.powf(1.5) + 1e-13 / d.powf(1.5));
            ensure!(norm(sub(p, want)) < lim + 1e-9 * el.q, "parabola", "{name} e = 1 by {d}: {p:?}, the parabola gives {want:?} after {dt} d ({el:?})");
        }
        s.checked();
    }
    Ok(())
}

fn invalid(s: &mut Sim) -> R {
    let e = ecc(s);
    let el = element(s, e);
    let [i, o, w, m] = el.ang.map(deg);
    let j0 = JulianDate::new(el.epoch);
    let bad_angle = deg(*s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
    let a = el.q / (1.0 - e);
    let (mut aa, mut ee, mut ii, mut oo, mut ww, mut mm) = (a, e, i, o, w, m);
    let k = s.below(7);
    let mut j0 = j0;
    let ell_only = match k {
        6 => {
            // Some builds refuse to make such a date at all.
            let t = *s.pick(&[f64::INFINITY, f64::NEG_INFINITY]);
            match no_panic("JulianDate::new", || JulianDate::new(t)) {
                Ok(j) => j0 = j,
                Err(_) => return Ok(()),
            }
            false
        }
        0 => {
            aa = *s.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY]);
            false
        }
        1 => {
            ee = *s.pick(&[-1e-9, -0.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0, 1.0 + 1e-12, 1.5, 30.0]);
            ee > 1.0 && ee.is_finite()
        }
        2 => {
            ii = bad_angle;
            false
        }
        3 => {
            oo = bad_angle;
            false
        }
        4 => {
            ww = bad_angle;
            false
        }
        _ => {
            mm = bad_angle;
            false
        }
    };
    s.fault("invalid element");
    let what = format!("a or q {aa} e {ee} i {ii} node {oo} peri {ww} M {mm} epoch {}", j0.raw().value());
    let kep = no_panic("KeplerianOrbit::try_new", || KeplerianOrbit::try_new(Au::new(aa), ee, ii, oo, ww, mm, j0))?;
    ensure!(kep.is_err(), "accepted", "Keplerian orbit with {what}");
    let prep = no_panic("PreparedOrbit::try_from_elements", || PreparedOrbit::try_from_elements(Au::new(aa), ee, ii, oo, ww, mm, j0))?;
    ensure!(prep.is_err() && prep.err() == kep.err(), "accepted", "prepared orbit with {what}: {prep:?}");
    let con = no_panic("ConicOrbit::try_new", || ConicOrbit::try_new(Au::new(aa), ee, ii, oo, ww, mm, j0))?;
    ensure!(con.is_ok() == ell_only, "accepted", "conic orbit with {what}: {con:?}");
    let rate = if k == 5 { *s.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY]) } else { 1.0 };
    let mmo = no_panic("MeanMotionOrbit::try_new", || MeanMotionOrbit::try_new(Au::new(aa), ee, ii, oo, ww, AngularRate::<Degree, Day>::new(rate), j0))?;
    ensure!(mmo.is_err(), "accepted", "mean-motion orbit with {what}, rate {rate}");
    s.checked();
    Ok(())
}

pub static C29: Prop = Prop {
    id: "C29",
    scenarios: &[("ellipse", 5, ellipse), ("hyperbola", 3, hyperbola), ("parabola", 1, parabola), ("invalid", 1, invalid)],
    runs_quick: 1_500_000,
    runs_thorough: 4_000_000,
    rule: "every position lies on the conic of its elements, in its plane, at the mean anomaly of its date",
    real: &["src/astro/{orbit,conic,conic_equations,units}.rs", "keplerian anomaly solvers"],
    stub: &[],
    assumptions: &["sweeping clocks only; there is no concurrency or I/O in this area"],
};
