//! C32: where the Sun, the Moon, the planets and the aircraft overhead are.
//!
//! Observers whose clocks jump over millennia ask for bodies through every
//! route the crate offers, in any order; the sky itself must obey gravity.

use crate::core::{no_panic, Sim, R};
use crate::kepler::{add, cross, dot, norm, scale, sub, V3};
use crate::{ensure, Prop};
use siderust::bodies::aircraft::{AircraftState, AircraftTrack, MetersPerSecond};
use siderust::bodies::solar_system as ss;
use siderust::bodies::solar_system::{Earth, Jupiter, Mars, Mercury, Moon, Neptune, Saturn, Sun, Uranus, Venus};
use siderust::coordinates::cartesian::Position;
use siderust::coordinates::centers::{Barycentric, Geocentric, Geodetic, Heliocentric};
use siderust::coordinates::frames::{EclipticMeanJ2000, EquatorialMeanJ2000, ECEF};
use siderust::ephemeris::{DynEphemeris, Ephemeris, Pluto, Vsop87Ephemeris, VSOP87};
use siderust::qtty::{AstronomicalUnit, Degrees, Kilometer, Meter, Meters};
use siderust::targets::{CoordinateWithPM, Trackable};
use siderust::time::JulianDate;
use siderust_archive::elp::{constants as k, elp_data as elp, EarthPert, MainProblem, PlanetPert};
use siderust_archive::pluto::pluto_data as pl;
use siderust_archive::vsop::{vsop87a_data as va, vsop87e_data as ve, Vsop87};
use std::f64::consts::PI;
use tempoch::TDB;

const AU: f64 = 149_597_870.7;
const J2000: f64 = 2_451_545.0;
/// Gaussian constant squared: the Sun's pull in au^3/day^2.
const K2: f64 = 0.017_202_098_95 * 0.017_202_098_95;
/// Sun over planet (with its moons).
const IM: [f64; 8] = [6_023_600.0, 408_523.71, 328_900.56, 3_098_708.0, 1_047.3486, 3_497.898, 22_902.98, 19_412.24];
/// (Earth + Moon) over Moon.
const EM: f64 = 82.300_57;

macro_rules! v3 {
    ($e:expr) => {{
        let p = $e;
        [p.x().value(), p.y().value(), p.z().value()]
    }};
}

pub(super) fn jd(t: f64) -> JulianDate {
    JulianDate::new(t)
}

/// Centuries of dynamical time since J2000.
fn century(t: f64) -> f64 {
    (jd(t).to_scale::<TDB>().raw().value() - J2000) / 36_525.0
}

type Series = Vec<&'static [Vsop87]>;

macro_rules! xyz {
    ($m:ident, [$($x:ident)+] [$($y:ident)+] [$($z:ident)+]) => {
        [vec![$(&$m::$x[..]),+], vec![$(&$m::$y[..]),+], vec![$(&$m::$z[..]),+]]
    };
}

/// The published series of body `b` (0..8 planets, 8 Earth-Moon barycentre or Sun).
fn tables(b: usize, bary: bool) -> [Series; 3] {
    if bary {
        match b {
            0 => xyz!(ve, [MERCURY_X0 MERCURY_X1 MERCURY_X2 MERCURY_X3 MERCURY_X4 MERCURY_X5] [MERCURY_Y0 MERCURY_Y1 MERCURY_Y2 MERCURY_Y3 MERCURY_Y4 MERCURY_Y5] [MERCURY_Z0 MERCURY_Z1 MERCURY_Z2 MERCURY_Z3 MERCURY_Z4 MERCURY_Z5]),
            1 => xyz!(ve, [VENUS_X0 VENUS_X1 VENUS_X2 VENUS_X3 VENUS_X4 VENUS_X5] [VENUS_Y0 VENUS_Y1 VENUS_Y2 VENUS_Y3 VENUS_Y4 VENUS_Y5] [VENUS_Z0 VENUS_Z1 VENUS_Z2 VENUS_Z3 VENUS_Z4 VENUS_Z5]),
            2 => xyz!(ve, [EARTH_X0 EARTH_X1 EARTH_X2 EARTH_X3 EARTH_X4 EARTH_X5] [EARTH_Y0 EARTH_Y1 EARTH_Y2 EARTH_Y3 EARTH_Y4 EARTH_Y5] [EARTH_Z0 EARTH_Z1 EARTH_Z2 EARTH_Z3 EARTH_Z4 EARTH_Z5]),
            3 => xyz!(ve, [MARS_X0 MARS_X1 MARS_X2 MARS_X3 MARS_X4 MARS_X5] [MARS_Y0 MARS_Y1 MARS_Y2 MARS_Y3 MARS_Y4 MARS_Y5] [MARS_Z0 MARS_Z1 MARS_Z2 MARS_Z3 MARS_Z4 MARS_Z5]),
            4 => xyz!(ve, [JUPITER_X0 JUPITER_X1 JUPITER_X2 JUPITER_X3 JUPITER_X4 JUPITER_X5] [JUPITER_Y0 JUPITER_Y1 JUPITER_Y2 JUPITER_Y3 JUPITER_Y4 JUPITER_Y5] [JUPITER_Z0 JUPITER_Z1 JUPITER_Z2 JUPITER_Z3 JUPITER_Z4 JUPITER_Z5]),
            5 => xyz!(ve, [SATURN_X0 SATURN_X1 SATURN_X2 SATURN_X3 SATURN_X4 SATURN_X5] [SATURN_Y0 SATURN_Y1 SATURN_Y2 SATURN_Y3 SATURN_Y4 SATURN_Y5] [SATURN_Z0 SATURN_Z1 SATURN_Z2 SATURN_Z3 SATURN_Z4 SATURN_Z5]),
            6 => xyz!(ve, [URANUS_X0 URANUS_X1 URANUS_X2 URANUS_X3 URANUS_X4] [URANUS_Y0 URANUS_Y1 URANUS_Y2 URANUS_Y3 URANUS_Y4] [URANUS_Z0 URANUS_Z1 URANUS_Z2 URANUS_Z3]),
            7 => xyz!(ve, [NEPTUNE_X0 NEPTUNE_X1 NEPTUNE_X2 NEPTUNE_X3 NEPTUNE_X4] [NEPTUNE_Y0 NEPTUNE_Y1 NEPTUNE_Y2 NEPTUNE_Y3 NEPTUNE_Y4] [NEPTUNE_Z0 NEPTUNE_Z1 NEPTUNE_Z2 NEPTUNE_Z3]),
            _ => xyz!(ve, [SUN_X0 SUN_X1 SUN_X2 SUN_X3 SUN_X4 SUN_X5] [SUN_Y0 SUN_Y1 SUN_Y2 SUN_Y3 SUN_Y4 SUN_Y5] [SUN_Z0 SUN_Z1 SUN_Z2 SUN_Z3 SUN_Z4 SUN_Z5]),
        }
    } else {
        match b {
            0 => xyz!(va, [MERCURY_X0 MERCURY_X1 MERCURY_X2 MERCURY_X3 MERCURY_X4 MERCURY_X5] [MERCURY_Y0 MERCURY_Y1 MERCURY_Y2 MERCURY_Y3 MERCURY_Y4 MERCURY_Y5] [MERCURY_Z0 MERCURY_Z1 MERCURY_Z2 MERCURY_Z3 MERCURY_Z4 MERCURY_Z5]),
            1 => xyz!(va, [VENUS_X0 VENUS_X1 VENUS_X2 VENUS_X3 VENUS_X4 VENUS_X5] [VENUS_Y0 VENUS_Y1 VENUS_Y2 VENUS_Y3 VENUS_Y4 VENUS_Y5] [VENUS_Z0 VENUS_Z1 VENUS_Z2 VENUS_Z3 VENUS_Z4 VENUS_Z5]),
            2 => xyz!(va, [EARTH_X0 EARTH_X1 EARTH_X2 EARTH_X3 EARTH_X4 EARTH_X5] [EARTH_Y0 EARTH_Y1 EARTH_Y2 EARTH_Y3 EARTH_Y4 EARTH_Y5] [EARTH_Z0 EARTH_Z1 EARTH_Z2 EARTH_Z3 EARTH_Z4 EARTH_Z5]),
            3 => xyz!(va, [MARS_X0 MARS_X1 MARS_X2 MARS_X3 MARS_X4 MARS_X5] [MARS_Y0 MARS_Y1 MARS_Y2 MARS_Y3 MARS_Y4 MARS_Y5] [MARS_Z0 MARS_Z1 MARS_Z2 MARS_Z3 MARS_Z4 MARS_Z5]),
            4 => xyz!(va, [JUPITER_X0 JUPITER_X1 JUPITER_X2 JUPITER_X3 JUPITER_X4 JUPITER_X5] [JUPITER_Y0 JUPITER_Y1 JUPITER_Y2 JUPITER_Y3 JUPITER_Y4 JUPITER_Y5] [JUPITER_Z0 JUPITER_Z1 JUPITER_Z2 JUPITER_Z3 JUPITER_Z4 JUPITER_Z5]),
            5 => xyz!(va, [SATURN_X0 SATURN_X1 SATURN_X2 SATURN_X3 SATURN_X4 SATURN_X5] [SATURN_Y0 SATURN_Y1 SATURN_Y2 SATURN_Y3 SATURN_Y4 SATURN_Y5] [SATURN_Z0 SATURN_Z1 SATURN_Z2 SATURN_Z3 SATURN_Z4 SATURN_Z5]),
            6 => xyz!(va, [URANUS_X0 URANUS_X1 URANUS_X2 URANUS_X3 URANUS_X4] [URANUS_Y0 URANUS_Y1 URANUS_Y2 URANUS_Y3 URANUS_Y4] [URANUS_Z0 URANUS_Z1 URANUS_Z2 URANUS_Z3]),
            7 => xyz!(va, [NEPTUNE_X0 NEPTUNE_X1 NEPTUNE_X2 NEPTUNE_X3 NEPTUNE_X4] [NEPTUNE_Y0 NEPTUNE_Y1 NEPTUNE_Y2 NEPTUNE_Y3 NEPTUNE_Y4] [NEPTUNE_Z0 NEPTUNE_Z1 NEPTUNE_Z2 NEPTUNE_Z3]),
            _ => xyz!(va, [EMB_X0 EMB_X1 EMB_X2 EMB_X3 EMB_X4 EMB_X5] [EMB_Y0 EMB_Y1 EMB_Y2 EMB_Y3 EMB_Y4 EMB_Y5] [EMB_Z0 EMB_Z1 EMB_Z2 EMB_Z3 EMB_Z4 EMB_Z5]),
        }
    }
}

/// Position (au) and velocity (au/day) the published series give.
pub(super) fn series(b: usize, bary: bool, t: f64) -> (V3, V3) {
    let m = century(t) / 10.0;
    let (mut r, mut v) = ([0.0; 3], [0.0; 3]);
    for (c, powers) in tables(b, bary).iter().enumerate() {
        for (n, terms) in powers.iter().enumerate() {
            let (mut s, mut d) = (0.0, 0.0);
            for q in *terms {
                let (sn, cs) = (q.b.value() + q.c * m).sin_cos();
                s += q.a.value() * cs;
                d -= q.a.value() * q.c * sn;
            }
            r[c] += s * m.powi(n as i32);
            v[c] += d * m.powi(n as i32) + if n > 0 { n as f64 * m.powi(n as i32 - 1) * s } else { 0.0 };
        }
    }
    (r, scale(v, 1.0 / 365_250.0))
}

/// The lunar theory as published, in kilometres.
pub(super) fn lunar(t: f64) -> V3 {
    let c = (t - J2000) / 36_525.0;
    let poly = |p: &[f64]| p.iter().rev().fold(0.0, |a, x| a * c + x);
    let del: Vec<[f64; 5]> = k::DEL.iter().map(|d| d.map(|x| x.value())).collect();
    let full: Vec<f64> = del.iter().map(|d| poly(d)).collect();
    let lin: Vec<f64> = del.iter().map(|d| poly(&d[..2])).collect();
    let zeta = k::ZETA[0].value() + k::ZETA[1].value() * c;
    let pla: Vec<f64> = k::P_ARGS.iter().map(|p| p[0].value() + p[1].value() * c).collect();
    let main = |s: &[MainProblem], off: f64| -> f64 {
        s.iter()
            .map(|e| {
                let a = e.a + (e.b[0] + k::DTASM * e.b[4]) * (k::DELNP.value() - k::AM * k::DELNU.value()) + e.b[1] * k::DELG.value() + e.b[2] * k::DELE.value() + e.b[3] * k::DELEP.value();
                a * (off + (0..4).map(|i| e.ilu[i] as f64 * full[i]).sum::<f64>()).sin()
            })
            .sum()
    };
    let earth = |s: &[EarthPert], p: i32| -> f64 { s.iter().map(|e| e.a * (e.o.to_radians() + e.iz * zeta + (0..4).map(|i| e.ilu[i] as f64 * lin[i]).sum::<f64>()).sin()).sum::<f64>() * c.powi(p) };
    // Without the Sun's anomaly (10-15) or without Neptune (16-21).
    let planet = |s: &[PlanetPert], p: i32, sun: bool| -> f64 {
        s.iter()
            .map(|e| {
                let mut y = e.theta.to_radians();
                if sun {
                    y += (0..7).map(|i| e.ipla[i] as f64 * pla[i]).sum::<f64>() + (0..4).map(|i| e.ipla[7 + i] as f64 * lin[i]).sum::<f64>();
                } else {
                    y += (0..8).map(|i| e.ipla[i] as f64 * pla[i]).sum::<f64>() + e.ipla[8] as f64 * lin[0] + e.ipla[9] as f64 * lin[2] + e.ipla[10] as f64 * lin[3];
                }
                e.o * y.sin()
            })
            .sum::<f64>()
            * c.powi(p)
    };
    let lon = main(elp::ELP1, 0.0)
        + earth(elp::ELP4, 0) + earth(elp::ELP7, 1)
        + planet(elp::ELP10, 0, false) + planet(elp::ELP13, 1, false) + planet(elp::ELP16, 0, true) + planet(elp::ELP19, 1, true)
        + earth(elp::ELP22, 0) + earth(elp::ELP25, 1) + earth(elp::ELP28, 0) + earth(elp::ELP31, 0) + earth(elp::ELP34, 2);
    let lat = main(elp::ELP2, 0.0)
        + earth(elp::ELP5, 0) + earth(elp::ELP8, 1)
        + planet(elp::ELP11, 0, false) + planet(elp::ELP14, 1, false) + planet(elp::ELP17, 0, true) + planet(elp::ELP20, 1, true)
        + earth(elp::ELP23, 0) + earth(elp::ELP26, 1) + earth(elp::ELP29, 0) + earth(elp::ELP32, 0) + earth(elp::ELP35, 2);
    let r = main(elp::ELP3, PI / 2.0)
        + earth(elp::ELP6, 0) + earth(elp::ELP9, 1)
        + planet(elp::ELP12, 0, false) + planet(elp::ELP15, 1, false) + planet(elp::ELP18, 0, true) + planet(elp::ELP21, 1, true)
        + earth(elp::ELP24, 0) + earth(elp::ELP27, 1) + earth(elp::ELP30, 0) + earth(elp::ELP33, 0) + earth(elp::ELP36, 2);
    let as_rad = PI / 648_000.0;
    let (l, b) = (lon * as_rad + poly(&k::W1.map(|x| x.value())), lat * as_rad);
    let r = r * k::A0.value() / k::ATH.value();
    let x = [r * b.cos() * l.cos(), r * b.cos() * l.sin(), r * b.sin()];
    // From the ecliptic of date to that of J2000: a rotation about the node
    // given by half-angle sines p (along x) and q (along y).
    let p = poly(&[k::P1, k::P2, k::P3, k::P4, k::P5]) * c;
    let q = poly(&[k::Q1, k::Q2, k::Q3, k::Q4, k::Q5]) * c;
    let half = (p * p + q * q).sqrt();
    if half == 0.0 {
        return x;
    }
    let ax = [q / half, p / half, 0.0];
    let (s, cs) = (2.0 * half * (1.0 - half * half).sqrt(), 1.0 - 2.0 * half * half);
    add(add(scale(x, cs), scale(cross(ax, x), s)), scale(ax, dot(ax, x) * (1.0 - cs)))
}

/// Meeus' series for Pluto, heliocentric au.
fn pluto(t: f64) -> V3 {
    let c = (t - J2000) / 36_525.0;
    let (j, s, p) = (34.35 + 3034.9057 * c, 50.08 + 1222.1138 * c, 238.96 + 144.96 * c);
    let mut o = [238.958116 + 144.96 * c, -3.908239, 40.7241346];
    for (i, a) in pl::PLUTO_ARGUMENTS.iter().enumerate() {
        let (sn, cs) = (a.j * j + a.s * s + a.p * p).to_radians().sin_cos();
        for (n, (w, f)) in [(&pl::PLUTO_LONGITUDE_TERMS[i], 1e-6), (&pl::PLUTO_LATITUDE_TERMS[i], 1e-6), (&pl::PLUTO_RADIUS_TERMS[i], 1e-7)].into_iter().enumerate() {
            o[n] += f * (w.a * sn + w.b * cs);
        }
    }
    let (l, b) = (o[0].to_radians(), o[1].to_radians());
    scale([b.cos() * l.cos(), b.cos() * l.sin(), b.sin()], o[2])
}

const NAMES: [&str; 9] = ["Mercury", "Venus", "Earth", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune", "Sun/EMB"];

macro_rules! planet {
    ($b:expr, $P:ident => $e:expr) => {
        match $b {
            0 => { type $P = Mercury; const _B: $P = Mercury; $e(_B) }
            1 => { type $P = Venus; const _B: $P = Venus; $e(_B) }
            2 => { type $P = Earth; const _B: $P = Earth; $e(_B) }
            3 => { type $P = Mars; const _B: $P = Mars; $e(_B) }
            4 => { type $P = Jupiter; const _B: $P = Jupiter; $e(_B) }
            5 => { type $P = Saturn; const _B: $P = Saturn; $e(_B) }
            6 => { type $P = Uranus; const _B: $P = Uranus; $e(_B) }
            _ => { type $P = Neptune; const _B: $P = Neptune; $e(_B) }
        }
    };
}

/// Heliocentric position through one of the routes offered.
fn helio(b: usize, t: JulianDate, route: u64) -> V3 {
    if b == 8 {
        return if route % 2 == 0 { v3!(Moon::vsop87a(t)) } else { v3!(Moon::vsop87a_pos_vel(t).0) };
    }
    if b == 2 && route > 2 {
        return match route {
            3 => v3!(<Vsop87Ephemeris as Ephemeris>::earth_heliocentric(t)),
            4 => v3!((&Vsop87Ephemeris as &dyn DynEphemeris).earth_heliocentric(t)),
            5 => <Vsop87Ephemeris as Ephemeris>::try_earth_heliocentric(t).map_or([f64::NAN; 3], |p| v3!(p)),
            _ => (&Vsop87Ephemeris as &dyn DynEphemeris).try_earth_heliocentric(t).map_or([f64::NAN; 3], |p| v3!(p)),
        };
    }
    match route % 3 {
        0 => planet!(b, P => |_| v3!(P::vsop87a(t))),
        1 => planet!(b, P => |_| v3!(P::vsop87a_pos_vel(t).0)),
        _ => planet!(b, P => |x| v3!(VSOP87::vsop87a(&x, t))),
    }
}

/// Barycentric position; 8 is the Sun.
fn bary(b: usize, t: JulianDate, route: u64) -> V3 {
    type E = Vsop87Ephemeris;
    if b == 8 {
        return match route {
            0 => v3!(<E as Ephemeris>::sun_barycentric(t)),
            1 => v3!((&Vsop87Ephemeris as &dyn DynEphemeris).sun_barycentric(t)),
            2 => <E as Ephemeris>::try_sun_barycentric(t).map_or([f64::NAN; 3], |p| v3!(p)),
            3 => (&Vsop87Ephemeris as &dyn DynEphemeris).try_sun_barycentric(t).map_or([f64::NAN; 3], |p| v3!(p)),
            4 => v3!(Sun.track(t).position),
            _ => v3!(Sun::vsop87e(t)),
        };
    }
    if b == 2 && route > 2 {
        return match route {
            3 => v3!(<E as Ephemeris>::earth_barycentric(t)),
            4 => v3!((&Vsop87Ephemeris as &dyn DynEphemeris).earth_barycentric(t)),
            5 => <E as Ephemeris>::try_earth_barycentric(t).map_or([f64::NAN; 3], |p| v3!(p)),
            _ => (&Vsop87Ephemeris as &dyn DynEphemeris).try_earth_barycentric(t).map_or([f64::NAN; 3], |p| v3!(p)),
        };
    }
    match route % 4 {
        0 => planet!(b, P => |_| v3!(P::vsop87e(t))),
        1 => planet!(b, P => |_| v3!(P::vsop87e_pos_vel(t).0)),
        2 => planet!(b, P => |x| v3!(VSOP87::vsop87e(&x, t))),
        _ => planet!(b, P => |x: P| v3!(x.track(t).position)),
    }
}

fn helio_vel(b: usize, t: JulianDate, route: u64) -> V3 {
    match (b, route % 2) {
        (8, 0) => v3!(Moon::vsop87a_vel(t)),
        (8, _) => v3!(Moon::vsop87a_pos_vel(t).1),
        (_, 0) => planet!(b, P => |_| v3!(P::vsop87a_vel(t))),
        _ => planet!(b, P => |_| v3!(P::vsop87a_pos_vel(t).1)),
    }
}

fn bary_vel(b: usize, t: JulianDate, route: u64) -> V3 {
    type E = Vsop87Ephemeris;
    match (b, route) {
        (2, 3) => v3!(<E as Ephemeris>::earth_barycentric_velocity(t)),
        (2, 4) => v3!((&Vsop87Ephemeris as &dyn DynEphemeris).earth_barycentric_velocity(t)),
        (2, 5) => <E as Ephemeris>::try_earth_barycentric_velocity(t).map_or([f64::NAN; 3], |p| v3!(p)),
        (2, 6) => (&Vsop87Ephemeris as &dyn DynEphemeris).try_earth_barycentric_velocity(t).map_or([f64::NAN; 3], |p| v3!(p)),
        (_, r) if r % 2 == 0 => planet!(b, P => |_| v3!(P::vsop87e_vel(t))),
        _ => planet!(b, P => |_| v3!(P::vsop87e_pos_vel(t).1)),
    }
}

fn moon(t: JulianDate, route: u64) -> V3 {
    type E = Vsop87Ephemeris;
    match route {
        0 => v3!(Moon::get_geo_position::<Kilometer>(t)),
        1 => scale(v3!(Moon::get_geo_position::<AstronomicalUnit>(t)), AU),
        2 => scale(v3!(Moon::get_geo_position::<Meter>(t)), 1e-3),
        3 => v3!(<E as Ephemeris>::moon_geocentric(t)),
        4 => v3!((&Vsop87Ephemeris as &dyn DynEphemeris).moon_geocentric(t)),
        5 => <E as Ephemeris>::try_moon_geocentric(t).map_or([f64::NAN; 3], |p| v3!(p)),
        _ => v3!(Moon.track(t)),
    }
}

fn date(s: &mut Sim) -> f64 {
    match s.below(4) {
        0 => J2000 + s.f64(-150.0, 150.0) * 365.25,
        1 => J2000 + s.f64(-3000.0, 3000.0) * 365.25,
        2 => J2000 + s.f64(-20.0, 20.0),
        _ => J2000 + (s.int(-365_250, 365_250) as f64) * if s.chance(1, 2) { 0.5 } else { 1.0 },
    }
}

/// Observers share an almanac and ask it anything in any order.
fn almanac(s: &mut Sim) -> R {
    let mut asked: Vec<(u8, usize, f64, u64, V3)> = vec![];
    let mut clock = date(s);
    for _ in 0..s.int(3, 8) {
        if s.chance(1, 3) {
            s.fault("clock jump");
            clock = date(s);
        } else {
            clock += s.f64(0.0, 1.0);
        }
        s.advance(86_400_000_000_000);
        let kind = s.below(12) as u8;
        let again = s.chance(1, 4) && !asked.is_empty();
        let (kind, b, t, route) = if again {
            let q = s.pick(&asked).clone();
            (q.0, q.1, q.2, q.3)
        } else {
            let b = match kind {
                0..=2 => s.idx(9),
                3..=5 => s.idx(9),
                6 | 7 => s.idx(9),
                8 | 9 => s.idx(8),
                _ => 0,
            };
            (kind, b, clock, s.below(7))
        };
        let ask = jd(t);
        s.h(format!("{kind} {b} {t} {route}").as_bytes());
        let (what, got, want, lim) = match kind {
            0..=2 => ("heliocentric position of", no_panic("heliocentric", || helio(b, ask, route))?, series(b, false, t).0, 1e-10),
            3..=5 => ("barycentric position of", no_panic("barycentric", || bary(b, ask, route))?, series(b, true, t).0, 1e-10),
            6 | 7 => ("heliocentric velocity of", no_panic("velocity", || helio_vel(b, ask, route))?, series(b, false, t).1, 1e-11),
            8 | 9 => ("barycentric velocity of", no_panic("velocity", || bary_vel(b, ask, route))?, series(b, true, t).1, 1e-11),
            10 => ("geocentric position of the Moon", no_panic("moon", || moon(ask, route))?, lunar(t), 0.02),
            _ => ("heliocentric position of Pluto", no_panic("pluto", || v3!(Pluto::get_heliocentric(ask)))?, pluto(t), 1e-9),
        };
        let name = if kind < 10 { NAMES[b] } else { "" };
        if again {
            let old = asked.iter().find(|q| (q.0, q.1, q.2, q.3) == (kind, b, t, route)).unwrap().4;
            ensure!(old.iter().zip(&got).all(|(a, b)| a.to_bits() == b.to_bits()), "history", "{what} {name} at {t}: {got:?}, {old:?} before");
        }
        let d = norm(sub(got, want));
        ensure!(d < lim, "place", "{what} {name} at {t} by route {route}: {got:?}, published theory {want:?} ({d:e} apart)");
        if !again {
            asked.push((kind, b, t, route, got));
        }
        s.state((t / 3652.5) as u64 * 1000 + kind as u64 * 64 + b as u64 * 7 + route);
        s.checked();
    }
    Ok(())
}

/// Second derivative by a five-point rule.
fn accel(f: &dyn Fn(f64) -> V3, t: f64, h: f64) -> V3 {
    let w = [-1.0, 16.0, -30.0, 16.0, -1.0];
    let mut r = [0.0; 3];
    for (i, w) in w.iter().enumerate() {
        r = add(r, scale(f(t + (i as f64 - 2.0) * h), *w));
    }
    scale(r, 1.0 / (12.0 * h * h))
}

/// Nobody can fake gravity: what the ephemeris says accelerates as it must.
fn gravity(s: &mut Sim) -> R {
    let t = J2000 + s.f64(-2000.0, 2000.0) * 365.25;
    let far = (t - J2000).abs() / 36_525.0;
    let all: Vec<V3> = (0..8).map(|b| if b == 2 { helio(8, jd(t), 0) } else { helio(b, jd(t), 0) }).collect();
    // The Sun balances the planets about the barycentre.
    let mut c = bary(8, jd(t), 5);
    for (b, im) in IM.iter().enumerate() {
        c = add(c, scale(bary(b, jd(t), 0), 1.0 / im));
    }
    ensure!(norm(c) < 2e-5, "barycentre", "the bodies balance {c:?} au off the barycentre at {t}");
    // Both theories place the planets alike.
    let b = s.idx(8);
    let e = sub(sub(bary(b, jd(t), 0), bary(8, jd(t), 5)), helio(b, jd(t), 0));
    let lim = [1e-8, 1e-8, 1e-8, 6e-8, 1e-7, 1e-7, 5e-7, 5e-7][b] * (1.0 + far * far / 10.0);
    ensure!(norm(e) < lim, "theories", "{} at {t}: heliocentric and barycentric positions disagree by {e:?} au", NAMES[b]);
    // The Moon holds the Earth off their common barycentre.
    let m = scale(moon(jd(t), 0), 1.0 / AU);
    let off = sub(sub(all[2], helio(2, jd(t), 0)), scale(m, 1.0 / EM));
    ensure!(norm(off) < 8e-9 * (1.0 + far * far / 6.0), "barycentre", "Earth and Moon balance {off:?} au off their barycentre at {t}");
    // Newton.
    let p = s.idx(8);
    let (name, q) = if p == 2 { ("Earth-Moon barycentre", 8) } else { (NAMES[p], p) };
    let h = [1.0, 2.0, 2.0, 3.0, 20.0, 30.0, 40.0, 50.0][p];
    let a = accel(&|t| helio(q, jd(t), 0), t, h);
    let r = all[p];
    let mut g = scale(r, -K2 * (1.0 + 1.0 / IM[p]) / norm(r).powi(3));
    for j in (0..8).filter(|j| *j != p) {
        let d = sub(all[j], r);
        g = add(g, scale(sub(scale(d, norm(d).powi(-3)), scale(all[j], norm(all[j]).powi(-3))), K2 / IM[j]));
    }
    let miss = norm(sub(a, g)) / (K2 / dot(r, r));
    let lim = [3e-5, 3e-6, 4e-6, 8e-6, 1e-4, 8e-4, 4e-3, 8e-3][p] * (1.0 + far * far / 40.0);
    ensure!(miss < lim, "gravity", "{name} at {t} accelerates {a:?}, gravity asks for {g:?} ({miss:e} of the Sun's pull)");
    let a = accel(&|t| scale(moon(jd(t), 0), 1.0 / AU), t, 0.25);
    let mu = K2 * (1.0 / IM[2]);
    let sun = scale(helio(2, jd(t), 0), -1.0);
    let sm = sub(sun, m);
    let mut g = scale(m, -mu / norm(m).powi(3));
    g = add(g, scale(sub(scale(sm, norm(sm).powi(-3)), scale(sun, norm(sun).powi(-3))), K2));
    let miss = norm(sub(a, g)) / (mu / dot(m, m));
    ensure!(miss < 1e-5 * (1.0 + far * far / 100.0), "gravity", "the Moon at {t} accelerates {a:?}, gravity asks for {g:?} ({miss:e} of the Earth's pull)");
    let vm = norm(cross(m, helio(2, jd(t), 0)));
    s.state((t / 3652.5) as u64 * 64 + p as u64 * 8 + b as u64);
    s.h(&(vm as f32).to_le_bytes());
    s.checked();
    Ok(())
}

/// A target followed into other frames and centres, and the catalogue's orbits.
fn follow(s: &mut Sim) -> R {
    let t = J2000 + s.f64(-150.0, 50.0) * 365.25;
    let b = s.idx(8);
    let q: CoordinateWithPM<Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit>> = planet!(b, P => |x: P| x.track(jd(t)));
    ensure!(q.time == jd(t) && q.proper_motion.is_none(), "target", "{} tracked at {t} is dated {:?}", NAMES[b], q.time);
    let r = v3!(q.position);
    let name = NAMES[b];
    let (got, want) = match s.below(3) {
        0 => {
            let g = CoordinateWithPM::<Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit>>::from(&q);
            (v3!(g.position), sub(r, bary(8, jd(t), 5)))
        }
        1 => {
            let g = CoordinateWithPM::<Position<Geocentric, EclipticMeanJ2000, AstronomicalUnit>>::from(&q);
            (v3!(g.position), sub(r, bary(2, jd(t), 0)))
        }
        _ => {
            let g = CoordinateWithPM::<Position<Geocentric, EquatorialMeanJ2000, AstronomicalUnit>>::from(&q);
            let e = sub(r, bary(2, jd(t), 0));
            let (sn, cs) = (84_381.406 / 3600.0f64).to_radians().sin_cos();
            (v3!(g.position), [e[0], e[1] * cs - e[2] * sn, e[1] * sn + e[2] * cs])
        }
    };
    ensure!(norm(sub(got, want)) < 2e-7 * (1.0 + norm(want)), "target", "{name} at {t} followed to {got:?}, it is at {want:?}");
    // The mean orbits of the catalogue are those of the planets.
    let y = s.f64(-100.0, 50.0) * 365.25;
    let t = J2000 + y;
    let mean = v3!(no_panic("kepler_position", || ss::PLANETS[b].orbit.kepler_position(jd(t)))?);
    let real = helio(if b == 2 { 8 } else { b }, jd(t), 0);
    let miss = norm(sub(mean, real)) / norm(real);
    ensure!(miss < [0.01, 0.01, 0.01, 0.03, 0.06, 0.08, 0.1, 0.1][b], "orbit", "{name} at {t}: catalogue orbit at {mean:?}, the planet at {real:?} ({miss})");
    s.h(format!("{b} {t} {miss}").as_bytes());
    // The catalogue's Sun and Moon at their epoch.
    let e = scale(bary(2, jd(J2000), 0), -1.0);
    let sun = add(e, bary(8, jd(J2000), 5));
    let (sn, cs) = (23.439_28f64).to_radians().sin_cos();
    let dir = scale([sun[0], sun[1] * cs - sun[2] * sn, sun[1] * sn + sun[2] * cs], 1.0 / norm(sun));
    let c = &ss::SUN.coordinate.position;
    let (ra, dec) = (c.azimuth.value().to_radians(), c.polar.value().to_radians());
    let cat = [dec.cos() * ra.cos(), dec.cos() * ra.sin(), dec.sin()];
    ensure!(norm(sub(cat, dir)) < 0.02, "sun", "the catalogue's Sun is at RA {} Dec {}, direction {cat:?}; the Sun of J2000 is at {dir:?}", c.azimuth.value(), c.polar.value());
    let el = &ss::MOON.orbit;
    let now = moon(jd(J2000), 0);
    let mean = v3!(no_panic("kepler_position", || el.kepler_position(jd(J2000)))?);
    ensure!(norm(sub(scale(mean, 1.0 / norm(mean)), scale(now, 1.0 / norm(now)))) < 0.1, "moon", "the catalogue's Moon of J2000 is towards {mean:?}, the Moon towards {now:?}");
    let d = norm(mean) * AU;
    ensure!((d - norm(now)).abs() < 30_000.0, "moon-size", "the catalogue's Moon is {d} km away, the Moon {} km", norm(now));
    s.checked();
    Ok(())
}

pub(super) fn ecef(lon: f64, lat: f64, h: f64) -> V3 {
    let (a, f) = (6_378_137.0, 1.0 / 298.257_223_563);
    let e2 = f * (2.0 - f);
    let (lo, la) = (lon.to_radians(), lat.to_radians());
    let n = a / (1.0 - e2 * la.sin() * la.sin()).sqrt();
    [(n + h) * la.cos() * lo.cos(), (n + h) * la.cos() * lo.sin(), (n * (1.0 - e2) + h) * la.sin()]
}

/// A radar follows an aircraft between its squitters, on a clock that jumps.
fn radar(s: &mut Sim) -> R {
    let lat = match s.below(6) {
        0 => *s.pick(&[90.0, -90.0, 89.999, -89.999]),
        1 => s.f64(-89.9, 89.9),
        _ => s.f64(-60.0, 60.0),
    };
    let lon = if s.chance(1, 3) { *s.pick(&[180.0, -180.0, 179.999, -179.99, 0.0]) } else { s.f64(-180.0, 180.0) };
    let h = s.f64(0.0, 13_000.0);
    let gs = s.f64(0.0, 340.0);
    let tr = if s.chance(1, 3) { *s.pick(&[0.0, 90.0, 180.0, 270.0, 360.0, 45.0]) } else { s.f64(0.0, 360.0) };
    let vr = s.f64(-30.0, 30.0);
    let t0 = 2_460_000.5 + s.f64(-3000.0, 3000.0);
    let track = AircraftTrack::new(
        AircraftState { position: Geodetic::<ECEF>::new(Degrees::new(lon), Degrees::new(lat), Meters::new(h)), ground_speed: MetersPerSecond::new(gs), track_angle: Degrees::new(tr), vertical_rate: MetersPerSecond::new(vr) },
        jd(t0),
    );
    s.h(format!("{lon} {lat} {gs} {tr} {vr}").as_bytes());
    let from = ecef(lon, lat, h);
    let (lo, la, az) = (lon.to_radians(), lat.to_radians(), tr.to_radians());
    let north = [-la.sin() * lo.cos(), -la.sin() * lo.sin(), la.cos()];
    let east = [-lo.sin(), lo.cos(), 0.0];
    let up = [la.cos() * lo.cos(), la.cos() * lo.sin(), la.sin()];
    for _ in 0..3 {
        let dt = match s.below(4) {
            0 => 0.0,
            1 => s.f64(-300.0, 0.0),
            _ => s.f64(0.0, 300.0),
        };
        if dt < 0.0 {
            s.fault("clock set back");
        }
        let t = t0 + dt / 86_400.0;
        let dt = (t - t0) * 86_400.0;
        let st = no_panic("track", || track.track(jd(t)))?;
        ensure!(st.ground_speed == track.state.ground_speed && st.vertical_rate == track.state.vertical_rate && st.track_angle == track.state.track_angle, "kept", "speed or track changed: {st:?}");
        let p = (st.position.lon.value(), st.position.lat.value(), st.position.height.value());
        ensure!((-180.0..=180.0).contains(&p.0) && (-90.0..=90.0).contains(&p.1), "range", "from {lon} {lat} at {gs} m/s on {tr} for {dt} s: {p:?}");
        ensure!((p.2 - h - vr * dt).abs() < 1e-6 + 1e-4 * vr.abs(), "height", "climbs {vr} m/s for {dt} s from {h} to {}", p.2);
        // Within the kilometre the model promises, by flat geometry.
        let d = gs * dt;
        if lat.abs() <= 60.0 {
            let moved = sub(ecef(p.0, p.1, h), from);
            let want = add(scale(north, d * az.cos()), scale(east, d * az.sin()));
            let flat = sub(moved, scale(up, dot(moved, up)));
            let miss = norm(sub(flat, want));
            let lim = 0.02 + d.abs() * 0.0085 + d * d * (1.0 + la.tan().abs()) / 6.3e6;
            ensure!(miss < lim, "track", "from {lon} {lat} at {gs} m/s on {tr} for {dt} s: {p:?}, {miss} m off its track (limit {lim})");
        }
        s.state((lat + 90.0) as u64 * 400 + tr as u64);
        s.checked();
    }
    Ok(())
}

pub static C32: Prop = Prop {
    id: "C32",
    scenarios: &[("almanac", 3, almanac), ("gravity", 1, gravity), ("follow", 1, follow), ("radar", 1, radar)],
    runs_quick: 40_000,
    runs_thorough: 1_000_000,
    rule: "every route gives the body's place of the published theory, which obeys gravity",
    real: &["src/ephemeris (vsop87, elp2000, pluto, vsop87_backend)", "src/bodies (solar_system, aircraft)", "src/targets"],
    stub: &[],
    assumptions: &["coefficient tables come from the siderust-archive dependency and are checked only through gravity"],
};
