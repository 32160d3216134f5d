//! C28: coordinates carried between frames and centres.

use crate::core::{no_panic, Sim, R};
use crate::kepler::{add, cross, dot, norm, scale, sub, V3};
use crate::{ensure, viol, Prop};
use siderust::astro::earth_rotation::jd_ut1_from_tt_eop;
use siderust::astro::eop::{EopError, EopProvider, EopValues, NullEop};
use siderust::astro::nutation::{Iau2000A, Iau2000B, Iau2006, Iau2006A, NutationModel};
use siderust::astro::orientation::{HasIauRotation, IauRotationParams};
use siderust::astro::sidereal::gast_iau2006;
use siderust::bodies::solar_system as ss;
use siderust::coordinates::cartesian::{Direction, Position, Vector, Velocity};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::planetary::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::transform::context::AstroContext;
use siderust::coordinates::transform::providers::{
    center_shift_with, frame_rotation_with, CenterShiftProvider, FrameRotationProvider,
};
use siderust::coordinates::horizontal::{convert_azimuth, convert_direction, AzimuthOrigin, AzimuthSense, HorizontalConvention};
use siderust::coordinates::observation::{Astrometric, ObserverState};
use siderust::coordinates::transform::{
    FromEclipticTrueOfDate, FromHorizontal, ToEclipticTrueOfDate, ToHorizontal, TopocentricEquatorialExt,
    TopocentricHorizontalExt, Transform, TransformCenter,
};
use siderust::astro::light_deflection as ld;
use siderust::astro::proper_motion::{propagate_space_motion, StarSpaceMotion};
use siderust::coordinates::transform::ext::{DirectionAstroExt, PositionAstroExt, SphericalDirectionAstroExt, UsingEngine, VectorAstroExt};
use siderust::ephemeris::{AuPerDay, Ephemeris};
use siderust::qtty::unit::{AstronomicalUnit, Kilometer};
use siderust::qtty::{Arcseconds, AstronomicalUnits as Au, Degrees, GravitationalParameter, Meters, MilliArcseconds, Radians, Seconds};
use siderust::time::JulianDate;
use std::cell::RefCell;
use std::f64::consts::{FRAC_PI_2, PI, TAU};

type M3 = [[f64; 3]; 3];
const AS: f64 = PI / 648_000.0;
const AU_KM: f64 = 149_597_870.7;

fn mul(a: M3, b: M3) -> M3 {
    let mut m = [[0.0; 3]; 3];
    for (i, r) in m.iter_mut().enumerate() {
        for (j, x) in r.iter_mut().enumerate() {
            *x = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    m
}
fn tr(a: M3) -> M3 {
    let mut m = [[0.0; 3]; 3];
    for (i, r) in m.iter_mut().enumerate() {
        for (j, x) in r.iter_mut().enumerate() {
            *x = a[j][i];
        }
    }
    m
}
fn app(a: M3, v: V3) -> V3 {
    [dot(a[0], v), dot(a[1], v), dot(a[2], v)]
}
fn diff(a: M3, b: M3) -> f64 {
    (0..9).map(|i| (a[i / 3][i % 3] - b[i / 3][i % 3]).abs()).fold(0.0, |m, x| if x > m || x.is_nan() { x } else { m })
}
const ID: M3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
/// Passive rotations: the axes turn by `a`, as IERS writes R1, R2, R3.
fn r1(a: f64) -> M3 {
    let (s, c) = a.sin_cos();
    [[1.0, 0.0, 0.0], [0.0, c, s], [0.0, -s, c]]
}
fn r2(a: f64) -> M3 {
    let (s, c) = a.sin_cos();
    [[c, 0.0, -s], [0.0, 1.0, 0.0], [s, 0.0, c]]
}
fn r3(a: f64) -> M3 {
    let (s, c) = a.sin_cos();
    [[c, s, 0.0], [-s, c, 0.0], [0.0, 0.0, 1.0]]
}
fn prod(l: &[M3]) -> M3 {
    l.iter().fold(ID, |a, b| mul(a, *b))
}
fn unit(v: V3) -> V3 {
    scale(v, 1.0 / norm(v))
}
fn radec(ra: f64, dec: f64) -> V3 {
    [dec.cos() * ra.cos(), dec.cos() * ra.sin(), dec.sin()]
}

// ── scripted Earth orientation ──────────────────────────────────────────────

#[derive(Clone, Copy, Debug, Default)]
struct Eop {
    t0: f64,
    dut1: [f64; 2],
    xp: [f64; 2],
    yp: [f64; 2],
    dx: [f64; 2],
    dy: [f64; 2],
    out: (f64, f64),
}

thread_local! {
    static EOP: RefCell<Eop> = const { RefCell::new(Eop { t0: 0.0, dut1: [0.0; 2], xp: [0.0; 2], yp: [0.0; 2], dx: [0.0; 2], dy: [0.0; 2], out: (0.0, 0.0) }) };
    static SKY: RefCell<Sky> = const { RefCell::new(Sky { t0: 0.0, sun: ([0.0; 3], [0.0; 3]), earth: ([0.0; 3], [0.0; 3]), moon: ([0.0; 3], [0.0; 3]) }) };
}

/// Orientation values handed to the code under test by the simulator: linear
/// drifts, and a stretch of days for which no record arrived.
#[derive(Clone, Copy, Debug, Default)]
struct ScriptEop;

impl Eop {
    fn at(&self, jd: f64) -> EopValues {
        if jd >= self.out.0 && jd < self.out.1 {
            return EopValues::default();
        }
        let f = |p: [f64; 2]| p[0] + p[1] * (jd - self.t0);
        EopValues {
            dut1: Seconds::new(f(self.dut1)),
            xp: Arcseconds::new(f(self.xp)),
            yp: Arcseconds::new(f(self.yp)),
            dx: MilliArcseconds::new(f(self.dx)),
            dy: MilliArcseconds::new(f(self.dy)),
            lod: Seconds::new(0.001),
        }
    }
}

impl EopProvider for ScriptEop {
    fn try_eop_at(&self, jd: JulianDate) -> Result<EopValues, EopError> {
        let jd = jd.raw().value();
        EOP.with(|e| {
            let e = e.borrow();
            if jd >= e.out.0 && jd < e.out.1 {
                return Err(EopError::NoData { jd_utc: jd, mjd_utc: jd - 2_400_000.5 });
            }
            Ok(e.at(jd))
        })
    }
    fn eop_at(&self, jd: JulianDate) -> EopValues {
        self.try_eop_at(jd).unwrap_or_default()
    }
}

// ── scripted solar system ───────────────────────────────────────────────────

#[derive(Clone, Copy, Debug)]
struct Sky {
    t0: f64,
    sun: (V3, V3),
    earth: (V3, V3),
    moon: (V3, V3),
}

impl Sky {
    fn go(&self, p: (V3, V3), jd: JulianDate) -> V3 {
        add(p.0, scale(p.1, jd.raw().value() - self.t0))
    }
}

#[derive(Clone, Copy, Debug, Default)]
struct SimSky;

fn sky() -> Sky {
    SKY.with(|s| *s.borrow())
}

impl Ephemeris for SimSky {
    fn sun_barycentric(jd: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> {
        let [x, y, z] = sky().go(sky().sun, jd);
        Position::new(x, y, z)
    }
    fn earth_barycentric(jd: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> {
        let [x, y, z] = sky().go(sky().earth, jd);
        Position::new(x, y, z)
    }
    fn earth_heliocentric(jd: JulianDate) -> Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit> {
        let [x, y, z] = sub(sky().go(sky().earth, jd), sky().go(sky().sun, jd));
        Position::new(x, y, z)
    }
    fn earth_barycentric_velocity(_: JulianDate) -> Velocity<EclipticMeanJ2000, AuPerDay> {
        let [x, y, z] = sky().earth.1;
        Velocity::new(x, y, z)
    }
    fn moon_geocentric(jd: JulianDate) -> Position<Geocentric, EclipticMeanJ2000, Kilometer> {
        let [x, y, z] = sky().go(sky().moon, jd);
        Position::new(x, y, z)
    }
}

type Ctx = AstroContext<SimSky, ScriptEop>;

// ── every frame pair the library offers ─────────────────────────────────────

#[derive(Clone, Copy, PartialEq, Debug)]
enum Nm {
    A00,
    B00,
    None06,
    A06,
}

fn angles(m: Nm, jd: JulianDate) -> (f64, f64, f64) {
    let n = match m {
        Nm::A00 => Iau2000A::nutation(jd),
        Nm::B00 => Iau2000B::nutation(jd),
        Nm::None06 => Iau2006::nutation(jd),
        Nm::A06 => Iau2006A::nutation(jd),
    };
    (n.dpsi.value(), n.deps.value(), n.mean_obliquity.value())
}

fn rot<A, B>(jd: JulianDate, m: Nm, ctx: &Ctx) -> M3
where
    (): FrameRotationProvider<A, B>,
{
    *match m {
        Nm::A06 => frame_rotation_with::<A, B, _>(jd, ctx),
        Nm::A00 => frame_rotation_with::<A, B, _>(jd, &ctx.with_model::<Iau2000A>()),
        Nm::B00 => frame_rotation_with::<A, B, _>(jd, &ctx.with_model::<Iau2000B>()),
        Nm::None06 => frame_rotation_with::<A, B, _>(jd, &ctx.with_model::<Iau2006>()),
    }
    .as_matrix()
}

/// The same rotation through the public typed routes.
fn carry<A: ReferenceFrame, B: ReferenceFrame>(jd: JulianDate, ctx: &Ctx, v: V3) -> [V3; 3]
where
    (): FrameRotationProvider<A, B>,
{
    let d = Direction::<A>::new_unchecked(v[0], v[1], v[2]).to_frame_with::<B, _>(&jd, ctx);
    let p = Position::<Geocentric, A, Kilometer>::new(v[0], v[1], v[2]).to_frame_with::<B, _>(&jd, ctx);
    let w = Vector::<A, Kilometer>::new(v[0], v[1], v[2]).to_frame_with::<B, _>(&jd, ctx);
    [[d.x(), d.y(), d.z()], [p.x().value(), p.y().value(), p.z().value()], [w.x().value(), w.y().value(), w.z().value()]]
}

type RotFn = fn(JulianDate, Nm, &Ctx) -> M3;
type DirFn = fn(JulianDate, &Ctx, V3) -> [V3; 3];

struct Edge {
    a: &'static str,
    b: &'static str,
    rot: RotFn,
    back: RotFn,
    dir: DirFn,
}

macro_rules! edges {
    ($($a:ident $b:ident),* $(,)?) => {
        &[$(Edge { a: stringify!($a), b: stringify!($b), rot: rot::<$a, $b>, back: rot::<$b, $a>, dir: carry::<$a, $b> }),*]
    };
}

#[rustfmt::skip]
static EDGES: &[Edge] = edges![
    CIRS EME2000, CIRS EclipticMeanJ2000, CIRS EquatorialMeanJ2000, CIRS EquatorialMeanOfDate, CIRS EquatorialTrueOfDate, CIRS FK4B1950, CIRS GCRS,
    CIRS Galactic, CIRS ICRF, CIRS ICRS, CIRS TEME, CIRS TIRS, ECEF EME2000, ECEF EclipticMeanJ2000, ECEF EquatorialMeanJ2000,
    ECEF EquatorialMeanOfDate, ECEF EquatorialTrueOfDate, ECEF FK4B1950, ECEF GCRS, ECEF Galactic, ECEF ICRF, ECEF ICRS, ECEF ITRF, ECEF TEME,
    EME2000 EclipticMeanJ2000, EME2000 EquatorialMeanJ2000, EME2000 EquatorialMeanOfDate, EME2000 EquatorialTrueOfDate, EME2000 GCRS, EME2000 ICRF,
    EME2000 ICRS, EME2000 ITRF, EME2000 JupiterSystemIII, EME2000 MarsFixed, EME2000 MercuryFixed, EME2000 MoonPrincipalAxes, EME2000 NeptuneFixed,
    EME2000 PlutoFixed, EME2000 SaturnFixed, EME2000 TIRS, EME2000 UranusFixed, EME2000 VenusFixed, EclipticMeanJ2000 EquatorialMeanJ2000,
    EclipticMeanJ2000 GCRS, EclipticMeanJ2000 Galactic, EclipticMeanJ2000 ICRF, EclipticMeanJ2000 ICRS, EclipticMeanJ2000 ITRF,
    EclipticMeanJ2000 JupiterSystemIII, EclipticMeanJ2000 MarsFixed, EclipticMeanJ2000 MercuryFixed, EclipticMeanJ2000 MoonPrincipalAxes,
    EclipticMeanJ2000 NeptuneFixed, EclipticMeanJ2000 PlutoFixed, EclipticMeanJ2000 SaturnFixed, EclipticMeanJ2000 TIRS,
    EclipticMeanJ2000 UranusFixed, EclipticMeanJ2000 VenusFixed, EquatorialMeanJ2000 EquatorialMeanOfDate, EquatorialMeanJ2000 EquatorialTrueOfDate,
    EquatorialMeanJ2000 FK4B1950, EquatorialMeanJ2000 GCRS, EquatorialMeanJ2000 Galactic, EquatorialMeanJ2000 ICRF, EquatorialMeanJ2000 ICRS,
    EquatorialMeanJ2000 ITRF, EquatorialMeanJ2000 TIRS, EquatorialMeanOfDate EquatorialTrueOfDate, EquatorialMeanOfDate ICRF,
    EquatorialMeanOfDate ICRS, EquatorialMeanOfDate ITRF, EquatorialMeanOfDate TIRS, EquatorialTrueOfDate GCRS, EquatorialTrueOfDate ICRF,
    EquatorialTrueOfDate ICRS, EquatorialTrueOfDate ITRF, EquatorialTrueOfDate TEME, EquatorialTrueOfDate TIRS, FK4B1950 ICRS, FK4B1950 ITRF,
    FK4B1950 TIRS, GCRS ICRS, GCRS ITRF, GCRS TIRS, Galactic ICRS, Galactic ITRF, Galactic TIRS, ICRF ICRS, ICRF ITRF, ICRF TIRS, ICRS ITRF,
    ICRS JupiterSystemIII, ICRS MarsFixed, ICRS MercuryFixed, ICRS MoonPrincipalAxes, ICRS NeptuneFixed, ICRS PlutoFixed, ICRS SaturnFixed, ICRS TEME,
    ICRS TIRS, ICRS UranusFixed, ICRS VenusFixed, ITRF TEME, ITRF TIRS, TEME TIRS,];

const INERTIAL: [&str; 8] = ["ICRS", "ICRF", "GCRS", "EquatorialMeanJ2000", "EME2000", "EclipticMeanJ2000", "Galactic", "FK4B1950"];

fn poly(t: f64, c: &[f64]) -> f64 {
    c.iter().rev().fold(0.0, |a, x| a * t + x)
}

/// ICRS → mean equator of date, from the published angles (not the
/// four-angle form the library evaluates).
fn bias() -> M3 {
    prod(&[r1(0.006_819_2 * AS), r2(-0.041_775 * (84_381.448 * AS).sin() * AS), r3(-0.0146 * AS)])
}
fn precess(t: f64) -> M3 {
    let e0 = 84_381.406 * AS;
    let psi = poly(t, &[0.0, 5038.481_507, -1.079_006_9, -0.001_140_45, 0.000_132_851, -0.000_000_095_1]) * AS;
    let om = e0 + poly(t, &[0.0, -0.025_754, 0.051_262_3, -0.007_725_03, -0.000_000_467, 0.000_000_333_7]) * AS;
    let chi = poly(t, &[0.0, 10.556_403, -2.381_429_2, -0.001_211_97, 0.000_170_663, -0.000_000_056_0]) * AS;
    prod(&[r3(chi), r1(-om), r3(-psi), r1(e0)])
}
fn obliquity(t: f64) -> f64 {
    poly(t, &[84_381.406, -46.836_769, -0.000_183_1, 0.002_003_40, -0.000_000_576, -0.000_000_043_4]) * AS
}
fn era(ut1: f64) -> f64 {
    let d = ut1 - 2_451_545.0;
    TAU * (0.779_057_273_264_0 + 0.002_737_811_911_354_48 * d + d.rem_euclid(1.0))
}

/// Pole direction and prime meridian at J2000 with their rates (IAU working
/// group report 2015, linear part), in degrees per century and per day.
struct Pole(&'static str, fn() -> IauRotationParams, [f64; 6], f64);
const POLES: [Pole; 9] = [
    Pole("MercuryFixed", || <ss::Mercury as HasIauRotation>::ROTATION, [281.0103, -0.0328, 61.4155, -0.0049, 329.5988, 6.1385108], 0.05),
    Pole("VenusFixed", || <ss::Venus as HasIauRotation>::ROTATION, [272.76, 0.0, 67.16, 0.0, 160.2, -1.4813688], 0.05),
    Pole("MarsFixed", || <ss::Mars as HasIauRotation>::ROTATION, [317.269, -0.1093, 54.4325, -0.0583, 176.05, 350.891982443], 0.05),
    Pole("MoonPrincipalAxes", || <ss::Moon as HasIauRotation>::ROTATION, [269.9949, 0.0031, 66.5392, 0.013, 38.3213, 13.17635815], 0.05),
    Pole("JupiterSystemIII", || <ss::Jupiter as HasIauRotation>::ROTATION, [268.0566, -0.0065, 64.4953, 0.0024, 284.95, 870.536], 0.05),
    Pole("SaturnFixed", || <ss::Saturn as HasIauRotation>::ROTATION, [40.589, -0.036, 83.537, -0.004, 38.9, 810.7939024], 0.05),
    Pole("UranusFixed", || <ss::Uranus as HasIauRotation>::ROTATION, [257.311, 0.0, -15.175, 0.0, 203.81, -501.1600928], 0.05),
    Pole("NeptuneFixed", || <ss::Neptune as HasIauRotation>::ROTATION, [299.36, 0.0, 43.46, 0.0, 249.978, 541.1397757], 0.05),
    Pole("PlutoFixed", || <ss::Pluto as HasIauRotation>::ROTATION, [132.993, 0.0, -6.163, 0.0, 302.695, 56.3625225], 0.05),
];

/// ICRS → `f`, assembled independently, with the accuracy it has.
fn reference(f: &str, jd: f64, m: Nm) -> (M3, f64) {
    let t = (jd - 2_451_545.0) / 36_525.0;
    let b = bias();
    match f {
        "ICRS" | "ICRF" | "GCRS" => return (ID, 0.0),
        "EquatorialMeanJ2000" | "EME2000" => return (b, 1e-10),
        "EclipticMeanJ2000" => return (mul(r1(84_381.406 * AS), b), 1e-10),
        "Galactic" => {
            // Pole 12h51m26.282s +27°07′42.01″, node at l = 32.93192°.
            let d = PI / 180.0;
            let m = prod(&[r3(-32.931_92 * d), r1((90.0 - 27.128_25) * d), r3((192.859_48 + 90.0) * d)]);
            return (m, 1e-6);
        }
        "FK4B1950" => {
            let m = [[0.999_925_679_5, -0.011_181_482_8, -0.004_859_004_0], [0.011_181_482_8, 0.999_937_484_9, -0.000_027_155_7], [0.004_859_003_9, -0.000_027_177_1, 0.999_988_194_6]];
            return (mul(tr(m), b), 1e-7);
        }
        _ => {}
    }
    if let Some(p) = POLES.iter().find(|p| p.0 == f) {
        let r = p.1();
        let d = PI / 180.0;
        let al = r.alpha0_deg.value() + r.alpha0_rate.value() * t;
        let de = r.delta0_deg.value() + r.delta0_rate.value() * t;
        let w = r.w0_deg.value() + (r.w_rate.value() * (jd - 2_451_545.0)).rem_euclid(360.0);
        return (prod(&[r3(w * d), r1((90.0 - de) * d), r3((90.0 + al) * d)]), 1e-8);
    }
    let far = t.abs().max(1.0);
    let base = 2e-10 * far * far;
    let pb = mul(precess(t), b);
    if f == "EquatorialMeanOfDate" {
        return (pb, base);
    }
    let eop = EOP.with(|e| e.borrow().at(jd));
    let (dpsi, deps, _) = angles(m, JulianDate::new(jd));
    let eps = obliquity(t);
    let (dx, dy) = (eop.dx.value() * 1e-3 * AS, eop.dy.value() * 1e-3 * AS);
    // The two ways of applying a celestial pole offset differ by the
    // precession accumulated since J2000.
    let off = (dx.abs() + dy.abs()) * (0.03 * t.abs() + 1e-3);
    let (dp, de) = (dpsi + dx / eps.sin(), deps + dy);
    let tod = mul(prod(&[r1(-(eps + de)), r3(-dp), r1(eps)]), pb);
    match f {
        "EquatorialTrueOfDate" => return (tod, base + off),
        "TEME" => return (mul(r3(dpsi * eps.cos()), tod), base + off),
        _ => {}
    }
    // Celestial intermediate frame: same pole, origin fixed by s.
    let p = tod[2];
    let s = -p[0] * p[1] / 2.0 + poly(t, &[94.0, 3_808.65, -122.68, -72_574.11]) * 1e-6 * AS;
    let e = p[1].atan2(p[0]);
    let d = (p[0].hypot(p[1])).atan2(p[2]);
    let cirs = prod(&[r3(-(e + s)), r2(d), r3(e)]);
    let ct = base + off + 3e-8 * far * far;
    if f == "CIRS" {
        return (cirs, ct);
    }
    let zero = jd_ut1_from_tt_eop(JulianDate::new(jd), &EopValues::default()).raw().value();
    let ut1 = zero + eop.dut1.value() / 86_400.0;
    let tirs = mul(r3(era(ut1)), cirs);
    let tt = ct + 1e-8;
    if f == "TIRS" {
        return (tirs, tt);
    }
    let (xp, yp) = (eop.xp.value() * AS, eop.yp.value() * AS);
    let w = prod(&[r1(-yp), r2(-xp), r3(-47.0e-6 * t * AS)]);
    assert!(f == "ITRF" || f == "ECEF", "{f}");
    (mul(w, tirs), tt + 1e-11)
}

fn pick_jd(s: &mut Sim) -> f64 {
    let jd = if s.chance(1, 12) { s.f64(2_200_000.0, 2_700_000.0) } else { archive_jd(s) };
    s.h(&jd.to_le_bytes());
    jd
}

/// A date for which the Sun-Earth points are on file (with an invented sky the solver need not succeed).
fn archive_jd(s: &mut Sim) -> f64 {
    let jd = match s.below(6) {
        0 => 2_451_545.0 + s.int(-40, 40) as f64 * 365.25,
        1 => s.int(2_415_021 * 2, 2_488_070 * 2) as f64 / 2.0,
        _ => s.f64(2_415_020.0, 2_488_070.0),
    };
    s.h(&jd.to_le_bytes());
    jd
}

fn script_eop(s: &mut Sim, jd: f64) {
    let mut e = Eop { t0: jd, ..Eop::default() };
    if s.chance(5, 6) {
        e.dut1 = [s.f64(-0.9, 0.9), s.f64(-0.002, 0.002)];
        e.xp = [s.f64(-0.6, 0.6), s.f64(-0.002, 0.002)];
        e.yp = [s.f64(-0.6, 0.6), s.f64(-0.002, 0.002)];
        if s.chance(2, 3) {
            let k = *s.pick(&[0.5, 5.0, 50.0]);
            e.dx = [s.f64(-k, k), 0.0];
            e.dy = [s.f64(-k, k), 0.0];
        }
    }
    if s.chance(1, 8) {
        s.fault("no orientation record for the date");
        e.out = (jd - 2.0, jd + 2.0);
    }
    // A constant lead on the scripted drift keeps TT versus UTC irrelevant.
    for p in [&mut e.dut1, &mut e.xp, &mut e.yp] {
        p[1] *= 1e-3;
    }
    EOP.with(|x| *x.borrow_mut() = e);
}

fn frames(s: &mut Sim) -> R {
    let jd = pick_jd(s);
    s.advance(1_000_000_000);
    script_eop(s, jd);
    let e = EOP.with(|e| *e.borrow());
    let m = *s.pick(&[Nm::A06, Nm::A06, Nm::A00, Nm::B00, Nm::None06]);
    let ctx = Ctx::with_types();
    let j = JulianDate::new(jd);
    let what = format!("JD {jd} {m:?} {e:?}");
    // Reach a subset of frames from ICRS by the library's own conversions.
    let mut order: Vec<usize> = (0..EDGES.len()).collect();
    s.shuffle(&mut order);
    let keep = if s.chance(1, 4) { EDGES.len() } else { s.int(12, 45) as usize };
    order.truncate(keep);
    let v = unit([s.f64(-1.0, 1.0), s.f64(-1.0, 1.0), s.f64(-1.0, 1.0)]);
    let mut mats: Vec<(usize, M3)> = vec![];
    for &k in &order {
        let g = &EDGES[k];
        let name = format!("{} to {}", g.a, g.b);
        let r = no_panic(&name, || (g.rot)(j, m, &ctx))?;
        let q = no_panic(&name, || (g.back)(j, m, &ctx))?;
        ensure!(diff(mul(r, tr(r)), ID) < 1e-9 && (dot(r[0], cross(r[1], r[2])) - 1.0).abs() < 1e-9, "not-a-rotation", "{name} is no rotation: {r:?}; {what}");
        ensure!(diff(mul(q, r), ID) < 1e-9, "round-trip", "{name} and back is {:?}; {what}", mul(q, r));
        let (ra, ta) = reference(g.a, jd, m);
        let (rb, tb) = reference(g.b, jd, m);
        let want = mul(rb, tr(ra));
        let d = diff(r, want);
        ensure!(d <= ta + tb + 1e-12, "rotation", "{name} is off by {d:e} rad (allowed {:e}): {r:?}, expected {want:?}; {what}", ta + tb);
        if m == Nm::A06 {
            for (i, x) in (g.dir)(j, &ctx, v).into_iter().enumerate() {
                let d = norm(sub(x, app(r, v)));
                ensure!(d < 1e-14, "carry", "{name}: route {i} carried {v:?} to {x:?}, the rotation gives {:?}; {what}", app(r, v));
            }
        }
        s.state(((k as u64) << 8) ^ m as u64);
        mats.push((k, r));
    }
    // Different paths between two frames agree.
    let mut m0: Vec<(&str, M3)> = vec![("ICRS", ID)];
    loop {
        let n = m0.len();
        for (k, r) in &mats {
            let g = &EDGES[*k];
            let a = m0.iter().find(|x| x.0 == g.a).map(|x| x.1);
            let b = m0.iter().find(|x| x.0 == g.b).map(|x| x.1);
            match (a, b) {
                (Some(a), None) => m0.push((g.b, mul(*r, a))),
                (None, Some(b)) => m0.push((g.a, mul(tr(*r), b))),
                _ => {}
            }
        }
        if m0.len() == n {
            break;
        }
    }
    for (k, r) in &mats {
        let g = &EDGES[*k];
        let a = m0.iter().find(|x| x.0 == g.a).map(|x| x.1);
        let b = m0.iter().find(|x| x.0 == g.b).map(|x| x.1);
        if let (Some(a), Some(b)) = (a, b) {
            let d = diff(mul(b, tr(a)), *r);
            ensure!(d < 2e-9, "path", "{} to {} differs by {d:e} rad from the way round; {what}", g.a, g.b);
        }
    }
    // Other dates and orientations asked for in between leave no trace.
    let other = pick_jd(s);
    script_eop(s, other);
    let n = s.int(1, 6);
    for _ in 0..n {
        let g = &EDGES[s.below(EDGES.len() as u64) as usize];
        let k = *s.pick(&[Nm::A06, Nm::A00, Nm::B00, Nm::None06]);
        no_panic(g.a, || (g.rot)(JulianDate::new(other), k, &ctx))?;
    }
    EOP.with(|x| *x.borrow_mut() = e);
    for (k, r) in &mats {
        let g = &EDGES[*k];
        let again = (g.rot)(j, m, &ctx);
        ensure!(again == *r, "history", "{} to {} changed after other conversions; {what}", g.a, g.b);
        if INERTIAL.contains(&g.a) && INERTIAL.contains(&g.b) {
            let x = (g.rot)(JulianDate::new(other), m, &ctx);
            ensure!(x == *r, "fixed-frame", "{} to {} depends on the date", g.a, g.b);
        }
    }
    s.checked();
    Ok(())
}

fn wrap(x: f64) -> f64 {
    (x + PI).rem_euclid(TAU) - PI
}

/// Earth rotation as the two standard descriptions give it, and the
/// constants behind the body-fixed frames.
fn spin(s: &mut Sim) -> R {
    let jd = pick_jd(s);
    script_eop(s, jd);
    let ctx = Ctx::with_types();
    let j = JulianDate::new(jd);
    let t = (jd - 2_451_545.0) / 36_525.0;
    let eop = EOP.with(|e| e.borrow().at(jd));
    let ut1 = jd_ut1_from_tt_eop(j, &eop);
    let (dpsi, deps, eps) = angles(Nm::A06, j);
    ensure!((eps - obliquity(t)).abs() < 1e-12, "obliquity", "mean obliquity {eps} at {jd}, expected {}", obliquity(t));
    // Equinox based and CIO based rotation lead to the same Earth.
    let (dx, dy) = (eop.dx.value() * 1e-3 * AS, eop.dy.value() * 1e-3 * AS);
    let gast = gast_iau2006(ut1, j, Radians::new(dpsi + dx / eps.sin()), Radians::new(eps)).value();
    let a = mul(r3(gast), rot::<GCRS, EquatorialTrueOfDate>(j, Nm::A06, &ctx));
    let b = mul(rot::<CIRS, TIRS>(j, Nm::A06, &ctx), rot::<GCRS, CIRS>(j, Nm::A06, &ctx));
    let d = diff(a, b);
    ensure!(d < 5e-8 * t.abs().max(1.0).powi(2) + dy.abs() * 1e-3, "equinox-cio", "equinox and CIO based Earth rotation differ by {d:e} rad at JD {jd}");
    let _ = deps;
    // Nutation series against each other and against their leading terms.
    let (p0, e0, _) = angles(Nm::A00, j);
    let (pb, eb, _) = angles(Nm::B00, j);
    let (pn, en, _) = angles(Nm::None06, j);
    let (p6, e6, _) = angles(Nm::A06, j);
    ensure!(pn == 0.0 && en == 0.0, "nutation-model", "the precession-only model nutates: {pn} {en}");
    let q = t.abs().max(1.0);
    ensure!((p0 - pb).abs() < 0.01 * AS * q && (e0 - eb).abs() < 0.01 * AS * q, "nutation-model", "2000A {p0} {e0} and 2000B {pb} {eb} at {jd}");
    let f = 1.0 + 0.4697e-6 - 2.7774e-6 * t;
    ensure!((p6 - p0 * f).abs() < 1e-12 && (e6 - e0 * (1.0 - 2.7774e-6 * t)).abs() < 1e-12, "nutation-model", "2006A {p6} {e6} is not the scaled 2000A {p0} {e0} at {jd}");
    let r = PI / 180.0;
    let om = poly(t, &[125.044_555_01, -1_934.136_261_97, 0.002_075_61]) * r;
    let l = poly(t, &[280.466_46, 36_000.769_83]) * r;
    let lm = poly(t, &[218.316_5, 481_267.881_3]) * r;
    let lp = -17.2 * om.sin() - 1.32 * (2.0 * l).sin() - 0.23 * (2.0 * lm).sin() + 0.21 * (2.0 * om).sin();
    let le = 9.2 * om.cos() + 0.57 * (2.0 * l).cos() + 0.1 * (2.0 * lm).cos() - 0.09 * (2.0 * om).cos();
    ensure!((p0 - lp * AS).abs() < 0.6 * AS && (e0 - le * AS).abs() < 0.2 * AS, "nutation", "nutation {} {} at {jd}, leading terms {lp} {le} arcsec", p0 / AS, e0 / AS);
    for p in &POLES {
        let k = p.1();
        let got = [k.alpha0_deg.value(), k.alpha0_rate.value(), k.delta0_deg.value(), k.delta0_rate.value(), k.w0_deg.value(), k.w_rate.value()];
        for i in 0..6 {
            let tol = [p.3, 0.01, p.3, 0.01, p.3, 1e-6][i];
            ensure!((got[i] - p.2[i]).abs() <= tol, "pole", "{}: {got:?}, reports give {:?}", p.0, p.2);
        }
        // Now, and in another age.
        for d in [jd, 2_451_545.0 + s.f64(-7e5, 7e5)] {
            let at = JulianDate::new(d);
            let w = <IauRotationParams>::w(&k, at).value();
            let want = k.w0_deg.value() + k.w_rate.value() * (d - 2_451_545.0);
            ensure!(wrap((w - want) * r).abs() < 1e-6, "pole", "{}: prime meridian {w} at JD {d}, expected {want}", p.0);
            let c = (d - 2_451_545.0) / 36_525.0;
            let (a, dd) = (k.alpha0(at).value(), k.delta0(at).value());
            ensure!((a - k.alpha0_deg.value() - k.alpha0_rate.value() * c).abs() < 1e-9 && (dd - k.delta0_deg.value() - k.delta0_rate.value() * c).abs() < 1e-9, "pole", "{}: pole {a} {dd} at JD {d}", p.0);
        }
    }
    {
        use affn::frames::{EME2000, GCRS};
        use siderust::astro::frame_bias::{Eme2000FrameBias, GcrsFrameBias, IcrsFrameBias};
        let b = bias();
        let there = [*<GCRS as GcrsFrameBias>::frame_bias_to_eme2000().as_matrix(), *<ICRS as IcrsFrameBias>::frame_bias_to_eme2000().as_matrix()];
        let back = [*<EME2000 as Eme2000FrameBias>::frame_bias_to_gcrs().as_matrix(), *<EME2000 as Eme2000FrameBias>::frame_bias_to_icrs().as_matrix()];
        for i in 0..3 {
            for k in 0..3 {
                ensure!(there.iter().all(|m| (m[i][k] - b[i][k]).abs() < 1e-10) && back.iter().all(|m| (m[k][i] - b[i][k]).abs() < 1e-10), "bias", "frame bias {there:?} and {back:?}, published {b:?}");
            }
        }
    }
    s.checked();
    Ok(())
}

// ── centres ─────────────────────────────────────────────────────────────────

const CN: [&str; 17] = [
    "Barycentric", "Heliocentric", "Geocentric", "Selenocentric", "Mercurycentric", "Venuscentric", "Marscentric", "Jovicentric", "Saturnocentric", "Uranocentric", "Neptunocentric", "Plutocentric",
    "SunEarthL1", "SunEarthL2", "SunEarthL3", "SunEarthL4", "SunEarthL5",
];
const FN: [&str; 5] = ["ICRS", "EclipticMeanJ2000", "EquatorialMeanJ2000", "CIRS", "Galactic"];

fn step<C1, C2, F, const KM: bool>(jd: JulianDate, ctx: &Ctx, v: V3) -> [V3; 2]
where
    C1: ReferenceCenter<Params = ()>,
    C2: ReferenceCenter<Params = ()>,
    F: ReferenceFrame,
    (): CenterShiftProvider<C1, C2, F>,
{
    let p = Position::<C1, F, AstronomicalUnit>::new(v[0], v[1], v[2]);
    let q: Position<C2, F, AstronomicalUnit> = p.to_center_with((), jd, ctx);
    let k: Position<C2, F, Kilometer> = p.to_unit::<Kilometer>().to_center_with((), jd, ctx);
    let s = center_shift_with::<C1, C2, F, _>(jd, ctx);
    let _ = KM;
    assert!((0..3).all(|i| (s[i].value() + v[i] - [q.x(), q.y(), q.z()][i].value()).abs() < 1e-12 * (1.0 + s[i].value().abs())), "typed centre change differs from the shift");
    [[q.x().value(), q.y().value(), q.z().value()], [k.x().value() / AU_KM, k.y().value() / AU_KM, k.z().value() / AU_KM]]
}

/// Centre change, then frame change, in one call.
fn both<C1, C2, F1, F2>(jd: JulianDate, ctx: &Ctx, v: V3) -> V3
where
    C1: ReferenceCenter<Params = ()>,
    C2: ReferenceCenter<Params = ()>,
    F1: ReferenceFrame,
    F2: ReferenceFrame,
    (): CenterShiftProvider<C1, C2, F1>,
    (): FrameRotationProvider<F1, F2>,
{
    let q = Position::<C1, F1, AstronomicalUnit>::new(v[0], v[1], v[2]).to_with::<C2, F2, _>(&jd, ctx);
    [q.x().value(), q.y().value(), q.z().value()]
}

type StepFn = fn(JulianDate, &Ctx, V3) -> [V3; 2];
type BothFn = fn(JulianDate, &Ctx, V3) -> V3;

macro_rules! steps {
    ($($a:ident $b:ident),* $(,)?) => {
        &[$(
            (stringify!($a), stringify!($b), [step::<$a, $b, ICRS, true> as StepFn, step::<$a, $b, EclipticMeanJ2000, true>, step::<$a, $b, EquatorialMeanJ2000, true>, step::<$a, $b, CIRS, true>, step::<$a, $b, Galactic, true>]),
            (stringify!($b), stringify!($a), [step::<$b, $a, ICRS, true> as StepFn, step::<$b, $a, EclipticMeanJ2000, true>, step::<$b, $a, EquatorialMeanJ2000, true>, step::<$b, $a, CIRS, true>, step::<$b, $a, Galactic, true>]),
        )*]
    };
}

#[rustfmt::skip]
static STEPS: &[(&str, &str, [StepFn; 5])] = steps![
    Barycentric Heliocentric, Barycentric Geocentric, Heliocentric Geocentric,
    Barycentric Selenocentric, Heliocentric Selenocentric, Geocentric Selenocentric,
    Barycentric Mercurycentric, Heliocentric Mercurycentric, Geocentric Mercurycentric,
    Barycentric Venuscentric, Heliocentric Venuscentric, Geocentric Venuscentric,
    Barycentric Marscentric, Heliocentric Marscentric, Geocentric Marscentric,
    Barycentric Jovicentric, Heliocentric Jovicentric, Geocentric Jovicentric,
    Barycentric Saturnocentric, Heliocentric Saturnocentric, Geocentric Saturnocentric,
    Barycentric Uranocentric, Heliocentric Uranocentric, Geocentric Uranocentric,
    Barycentric Neptunocentric, Heliocentric Neptunocentric, Geocentric Neptunocentric,
    Barycentric Plutocentric, Heliocentric Plutocentric, Geocentric Plutocentric,
    Barycentric SunEarthL1, Heliocentric SunEarthL1, Geocentric SunEarthL1,
    Barycentric SunEarthL2, Heliocentric SunEarthL2, Geocentric SunEarthL2,
    Barycentric SunEarthL3, Heliocentric SunEarthL3, Geocentric SunEarthL3,
    Barycentric SunEarthL4, Heliocentric SunEarthL4, Geocentric SunEarthL4,
    Barycentric SunEarthL5, Heliocentric SunEarthL5, Geocentric SunEarthL5,
];

#[rustfmt::skip]
static BOTH: &[(usize, usize, usize, usize, BothFn)] = &[
    (0, 2, 0, 4, both::<Barycentric, Geocentric, ICRS, Galactic>),
    (2, 0, 4, 0, both::<Geocentric, Barycentric, Galactic, ICRS>),
    (1, 2, 1, 2, both::<Heliocentric, Geocentric, EclipticMeanJ2000, EquatorialMeanJ2000>),
    (2, 1, 3, 1, both::<Geocentric, Heliocentric, CIRS, EclipticMeanJ2000>),
    (2, 3, 2, 0, both::<Geocentric, Selenocentric, EquatorialMeanJ2000, ICRS>),
    (3, 1, 4, 1, both::<Selenocentric, Heliocentric, Galactic, EclipticMeanJ2000>),
    (0, 6, 1, 3, both::<Barycentric, Marscentric, EclipticMeanJ2000, CIRS>),
    (11, 2, 0, 1, both::<Plutocentric, Geocentric, ICRS, EclipticMeanJ2000>),
];

fn sky_script(s: &mut Sim, jd: f64) -> Sky {
    let mut v = |k: f64| [s.f64(-k, k), s.f64(-k, k), s.f64(-k, k)];
    let sky = Sky { t0: jd, sun: (v(0.01), v(1e-5)), earth: (v(1.0), v(0.02)), moon: (v(4e5), v(9e4)) };
    SKY.with(|x| *x.borrow_mut() = sky);
    sky
}

fn ecl(p: Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit>) -> V3 {
    [p.x().value(), p.y().value(), p.z().value()]
}

/// Where a centre is at `jd`: barycentric, ecliptic, in au.
fn centre(c: usize, jd: JulianDate, ctx: &Ctx) -> V3 {
    let k = sky();
    match c {
        0 => [0.0; 3],
        1 => k.go(k.sun, jd),
        2 => k.go(k.earth, jd),
        3 => add(k.go(k.earth, jd), scale(k.go(k.moon, jd), 1.0 / AU_KM)),
        4 => ecl(ss::Mercury::vsop87e(jd)),
        5 => ecl(ss::Venus::vsop87e(jd)),
        6 => ecl(ss::Mars::vsop87e(jd)),
        7 => ecl(ss::Jupiter::vsop87e(jd)),
        8 => ecl(ss::Saturn::vsop87e(jd)),
        9 => ecl(ss::Uranus::vsop87e(jd)),
        10 => ecl(ss::Neptune::vsop87e(jd)),
        11 => {
            let p = ss::PLUTO.orbit.kepler_position(jd);
            add([p.x().value(), p.y().value(), p.z().value()], k.go(k.sun, jd))
        }
        // The Lagrange points come from an archive of their own.
        _ => {
            let f = STEPS.iter().find(|x| x.0 == CN[c] && x.1 == "Barycentric").unwrap();
            (f.2[1])(jd, ctx, [0.0; 3])[0]
        }
    }
}

/// The Sun-Earth points, as served from the archive and as solved for.
fn lagrange(s: &mut Sim, jd: JulianDate, ctx: &Ctx) -> R {
    use siderust::ephemeris::lagrange::{solver::solve_sun_earth_lagrange, try_sun_earth_lagrange_barycentric, SunEarthLagrangePoint as L};
    let sun = ecl(ss::Sun::vsop87e(jd));
    let earth = ecl(ss::Earth::vsop87e(jd));
    let d = sub(earth, sun);
    let (r, u) = (norm(d), unit(d));
    let k = s.below(5) as usize;
    let point = [L::L1, L::L2, L::L3, L::L4, L::L5][k];
    let check = |p: V3, who: &str| -> R {
        let p = sub(p, sun);
        let along = dot(p, u) / r;
        let side = norm(sub(p, scale(u, along * r))) / r;
        let lead = cross(u, p)[2];
        let ok = match k {
            0 => (along - 0.99).abs() < 3e-3 && side < 1e-3,
            1 => (along - 1.01).abs() < 3e-3 && side < 1e-3,
            2 => (along + 1.0).abs() < 0.02 && side < 0.02,
            _ => (along - 0.5).abs() < 0.01 && (side - 0.75f64.sqrt()).abs() < 0.02 && (lead > 0.0) == (k == 3),
        };
        ensure!(ok, "lagrange", "{who}: L{} at JD {} lies at {along} along the Sun-Earth line and {side} off it ({lead})", k + 1, jd.raw().value());
        Ok(())
    };
    match no_panic("solve_sun_earth_lagrange", || solve_sun_earth_lagrange::<siderust::ephemeris::Vsop87Ephemeris>(point, jd))? {
        Ok(sol) => check(scale([sol.position.x().value(), sol.position.y().value(), sol.position.z().value()], 1.0 / AU_KM), "solver")?,
        Err(e) => viol!("lagrange", "L{} at JD {}: {e}", k + 1, jd.raw().value()),
    }
    let (from, to) = (2_415_020.5, 2_488_070.5);
    let t = jd.raw().value();
    match no_panic("try_sun_earth_lagrange_barycentric", || try_sun_earth_lagrange_barycentric(point, jd))? {
        Err(e) => ensure!(!(from..=to).contains(&t), "coverage", "L{} at JD {t} refused: {e}", k + 1),
        Ok(p) => {
            // The last record may reach past the end of the declared span.
            ensure!(t >= from - 32.0 && t <= to + 32.0, "coverage", "L{} answered for JD {t}, outside its archive", k + 1);
            let p = ecl(p);
            let via = centre(12 + k, jd, ctx);
            ensure!(norm(sub(p, via)) < 1e-9, "lagrange", "L{} at JD {t} is at {p:?}, as a centre at {via:?}", k + 1);
            // The shipped archive holds a circular orbit in the ecliptic that
            // starts at longitude zero at J2000.
            let lon = TAU * (t - 2_451_545.0) / 365.256_363 + [0.0, 0.0, PI, PI / 3.0, -PI / 3.0][k];
            let rr = [0.99, 1.01, 1.0, 1.0, 1.0][k];
            let toy = [rr * lon.cos(), rr * lon.sin(), 0.0];
            if p[2] == 0.0 && norm(sub(p, toy)) < 0.01 {
                if let Err(e) = check(p, "archive") {
                    viol!("lagrange-archive", "{}", e.msg);
                }
            }
            check(p, "archive")?;
        }
    }
    Ok(())
}

fn centers(s: &mut Sim) -> R {
    let jd = archive_jd(s);
    s.advance(1_000_000_000);
    script_eop(s, jd);
    let off = s_off(s);
    let sk = sky_script(s, jd + off);
    let ctx = Ctx::with_types();
    let j = JulianDate::new(jd);
    let what = format!("JD {jd}, {sk:?}");
    let rots: Vec<M3> = vec![ID, rot::<EclipticMeanJ2000, ICRS>(j, Nm::A06, &ctx), rot::<EquatorialMeanJ2000, ICRS>(j, Nm::A06, &ctx), rot::<CIRS, ICRS>(j, Nm::A06, &ctx), rot::<Galactic, ICRS>(j, Nm::A06, &ctx)];
    // The point itself, kept in barycentric ecliptic coordinates.
    let to_ecl = |c: usize, f: usize, v: V3| add(app(mul(tr(rots[1]), rots[f]), v), centre(c, j, &ctx));
    let from_ecl = |c: usize, f: usize, p: V3| app(mul(tr(rots[f]), rots[1]), sub(p, centre(c, j, &ctx)));
    let (mut c, mut f) = (s.below(3) as usize, s.below(5) as usize);
    let size = *s.pick(&[1e-6, 0.01, 1.0, 40.0]);
    let mut v = [s.f64(-size, size), s.f64(-size, size), s.f64(-size, size)];
    let p = to_ecl(c, f, v);
    let home = (c, f, v);
    let mut path = format!("{}/{}", CN[c], FN[f]);
    let n = s.int(3, 14);
    for i in 0..=n {
        if i < n && s.chance(1, 6) {
            // Somebody else asks about another time meanwhile.
            let other = JulianDate::new(archive_jd(s));
            let e = &STEPS[s.below(STEPS.len() as u64) as usize];
            let k = s.below(5) as usize;
            no_panic("centre change", || (e.2[k])(other, &ctx, v))?;
        }
        if i < n && s.chance(1, 3) {
            let g = s.below(5) as usize;
            v = app(mul(tr(rots[g]), rots[f]), v);
            f = g;
        } else if let Some(b) = BOTH.iter().find(|b| i < n && b.0 == c && b.2 == f) {
            v = no_panic("to_with", || (b.4)(j, &ctx, v))?;
            (c, f) = (b.1, b.3);
        } else {
            let opts: Vec<_> = STEPS.iter().filter(|e| e.0 == CN[c] && (i < n || e.1 == CN[home.0])).collect();
            if opts.is_empty() {
                // Already home, or no direct way: go through the barycentre.
                if c == home.0 {
                    break;
                }
                continue;
            }
            let e = opts[s.below(opts.len() as u64) as usize];
            let [q, km] = no_panic("centre change", || (e.2[f])(j, &ctx, v))?;
            let lim = 1e-12 * (norm(v) + norm(q) + 40.0);
            ensure!(norm(sub(q, km)) < lim, "units", "{} to {}: {q:?} in au, {km:?} through km; {what}", e.0, e.1);
            c = CN.iter().position(|x| *x == e.1).unwrap();
            v = q;
        }
        path.push_str(&format!(" {}/{}", CN[c], FN[f]));
        s.state((c as u64) * 8 + f as u64);
        let want = from_ecl(c, f, p);
        ensure!(norm(sub(v, want)) < 2e-12 * (norm(want) + norm(p) + 40.0), "centre", "after {path} the point is at {v:?}, it belongs at {want:?}; {what}");
    }
    let v2 = app(mul(tr(rots[home.1]), rots[f]), v);
    if c == home.0 {
        ensure!(norm(sub(v2, home.2)) < 1e-10, "home", "{path}: left from {:?}, back at {v2:?}; {what}", home.2);
    }
    s.checked();
    lagrange(s, j, &ctx)
}

fn s_off(s: &mut Sim) -> f64 {
    if s.chance(1, 2) {
        0.0
    } else {
        s.f64(-3.0, 3.0)
    }
}

// ── bodies on orbits ────────────────────────────────────────────────────────

fn orbit_state(el: [f64; 6], mu: f64, dt: f64) -> V3 {
    let [a, e, i, om, w, m] = el;
    // Perihelion state, moved by the mean anomaly and the time.
    let q = a * (1.0 - e);
    let v = (mu / a * (1.0 + e) / (1.0 - e)).sqrt();
    let n = (mu / a.powi(3)).sqrt();
    let t = dt + m / n;
    let s = crate::kepler::kepler([q, 0.0, 0.0, 0.0, v, 0.0], t, mu);
    app(prod(&[r3(-om), r1(-i), r3(-w)]), [s[0], s[1], s[2]])
}

fn bodycentric(s: &mut Sim) -> R {
    let jd = pick_jd(s);
    script_eop(s, jd);
    sky_script(s, jd);
    let ctx = Ctx::with_types();
    let j = JulianDate::new(jd);
    let (oc, mu_km, amin, amax) = *s.pick(&[
        (OrbitReferenceCenter::Heliocentric, 132_712_440_041.279, 0.3, 40.0),
        (OrbitReferenceCenter::Geocentric, 398_600.435_507, 5e-5, 3e-3),
        (OrbitReferenceCenter::Barycentric, 132_712_440_041.279, 0.3, 40.0),
    ]);
    let el = [s.f64(amin, amax), if s.chance(1, 5) { 0.0 } else { s.f64(0.0, 0.9) }, s.f64(0.0, PI), s.f64(0.0, TAU), s.f64(0.0, TAU), s.f64(0.0, TAU)];
    let epoch = jd + s.f64(-2_000.0, 2_000.0);
    let d = 180.0 / PI;
    let orb = siderust::astro::orbit::KeplerianOrbit::try_new(
        siderust::qtty::AstronomicalUnits::new(el[0]),
        el[1],
        Degrees::new(el[2] * d),
        Degrees::new(el[3] * d),
        Degrees::new(el[4] * d),
        Degrees::new(el[5] * d),
        JulianDate::new(epoch),
    );
    let orb = match orb {
        Ok(o) => o,
        Err(e) => viol!("orbit", "elements {el:?} refused: {e}"),
    };
    let mu = GravitationalParameter::new(mu_km);
    let par = BodycentricParams::new(orb, oc, mu);
    let mu_au = mu_km / AU_KM.powi(3) * 86_400.0f64.powi(2);
    let body = orbit_state(el, mu_au, jd - epoch);
    let got = orb.position_with_mu(j, mu);
    let got = [got.x().value(), got.y().value(), got.z().value()];
    let tol = 1e-8 * el[0] * (1.0 + (mu_au / el[0].powi(3)).sqrt() * 1e-3) / (1.0 - el[1]);
    ensure!(norm(sub(got, body)) < tol, "orbit", "elements {el:?} from {epoch}: at {jd} the body is at {got:?}, two-body motion gives {body:?}");
    let k = sky();
    let bary = match oc {
        OrbitReferenceCenter::Heliocentric => add(got, k.go(k.sun, j)),
        OrbitReferenceCenter::Geocentric => add(got, k.go(k.earth, j)),
        OrbitReferenceCenter::Barycentric => got,
    };
    let v = [s.f64(-2.0, 2.0), s.f64(-2.0, 2.0), s.f64(-2.0, 2.0)];
    macro_rules! leg {
        ($c:ident, $f:ident, $off:expr, $m:expr) => {{
            let m: M3 = $m;
            let want = sub(v, app(m, sub(bary, $off)));
            let p = Position::<$c, $f, AstronomicalUnit>::new(v[0], v[1], v[2]);
            let q: Position<Bodycentric, $f, AstronomicalUnit> = p.to_center_with(par, j, &ctx);
            let g = [q.x().value(), q.y().value(), q.z().value()];
            ensure!(norm(sub(g, want)) < 1e-11 * (1.0 + norm(want)), "bodycentric", "{} {} to a body {oc:?}: {g:?}, expected {want:?} at JD {jd}", stringify!($c), stringify!($f));
            let r: Position<Geocentric, $f, AstronomicalUnit> = q.to_center_with((), j, &ctx);
            let g = [r.x().value(), r.y().value(), r.z().value()];
            let want = add(v, app(m, sub($off, k.go(k.earth, j))));
            ensure!(norm(sub(g, want)) < 1e-11 * (1.0 + norm(want) + norm(bary)), "bodycentric", "back from a body {oc:?}: {g:?}, expected {want:?} at JD {jd}");
        }};
    }
    let (eq, ic) = (rot::<EclipticMeanJ2000, EquatorialMeanJ2000>(j, Nm::A06, &ctx), rot::<EclipticMeanJ2000, ICRS>(j, Nm::A06, &ctx));
    let which = s.below(9);
    match which {
        0 => leg!(Geocentric, ICRS, k.go(k.earth, j), ic),
        1 => leg!(Geocentric, EquatorialMeanJ2000, k.go(k.earth, j), eq),
        2 => leg!(Geocentric, EclipticMeanJ2000, k.go(k.earth, j), ID),
        3 => leg!(Heliocentric, ICRS, k.go(k.sun, j), ic),
        4 => leg!(Heliocentric, EquatorialMeanJ2000, k.go(k.sun, j), eq),
        5 => leg!(Heliocentric, EclipticMeanJ2000, k.go(k.sun, j), ID),
        6 => leg!(Barycentric, ICRS, [0.0; 3], ic),
        7 => leg!(Barycentric, EquatorialMeanJ2000, [0.0; 3], eq),
        _ => leg!(Barycentric, EclipticMeanJ2000, [0.0; 3], ID),
    }
    s.state(which * 4 + oc as u64);
    s.checked();
    Ok(())
}

// ── observers on the ground ─────────────────────────────────────────────────

fn pick_site(s: &mut Sim) -> (f64, f64, f64) {
    let lat = match s.below(6) {
        0 => *s.pick(&[90.0, -90.0, 0.0, 89.999, -89.999]),
        _ => s.f64(-90.0, 90.0),
    };
    let lon = *s.pick(&[0.0, 180.0, -180.0, 359.9, 1e9]);
    let lon = if lon > 1e8 { s.f64(-180.0, 180.0) } else { lon };
    (lon, lat, s.f64(-400.0, 9_000.0))
}

/// WGS84 site in metres.
fn site_xyz(p: (f64, f64, f64)) -> V3 {
    let (a, f) = (6_378_137.0, 1.0 / 298.257_223_563);
    let e2 = f * (2.0 - f);
    let (sl, cl) = (p.1 * PI / 180.0).sin_cos();
    let n = a / (1.0f64 - e2 * sl * sl).sqrt();
    let (so, co) = (p.0 * PI / 180.0).sin_cos();
    [(n + p.2) * cl * co, (n + p.2) * cl * so, (n * (1.0 - e2) + p.2) * sl]
}

fn geodetic(p: (f64, f64, f64)) -> Geodetic<ECEF> {
    Geodetic::<ECEF>::new(Degrees::new(p.0), Degrees::new(p.1), Meters::new(p.2))
}

fn dv<F>(d: &Direction<F>) -> V3
where
    F: ReferenceFrame,
{
    [d.x(), d.y(), d.z()]
}

/// The sky of an observer: horizontal coordinates, azimuth conventions and the
/// ecliptic of date.
fn horizon(s: &mut Sim) -> R {
    let jd = pick_jd(s);
    script_eop(s, jd);
    let j = JulianDate::new(jd);
    let t = (jd - 2_451_545.0) / 36_525.0;
    let eop = EOP.with(|e| e.borrow().at(jd));
    let ut1 = jd_ut1_from_tt_eop(j, &eop);
    let at = pick_site(s);
    let site = geodetic(at);
    let (dpsi, _, eps) = angles(Nm::A06, j);
    let gast = gast_iau2006(ut1, j, Radians::new(dpsi), Radians::new(eps)).value();
    let (lon, lat) = (at.0 * PI / 180.0, at.1 * PI / 180.0);
    // Local axes in the frame of date turned by sidereal time.
    let axes = |theta: f64| {
        let z = radec(theta + lon, lat);
        let e = [-(theta + lon).sin(), (theta + lon).cos(), 0.0];
        [cross(z, e), e, z]
    };
    let v = match s.below(6) {
        0 => axes(gast)[2],
        1 => [0.0, 0.0, *s.pick(&[1.0, -1.0])],
        2 => unit(add(axes(gast)[2], scale([s.f64(-1.0, 1.0), s.f64(-1.0, 1.0), s.f64(-1.0, 1.0)], 1e-7))),
        _ => unit([s.f64(-1.0, 1.0), s.f64(-1.0, 1.0), s.f64(-1.0, 1.0)]),
    };
    let what = format!("JD {jd}, site {at:?}, direction {v:?}");
    let h = axes(gast);
    let want = app(h, v);
    let d = Direction::<EquatorialTrueOfDate>::new_unchecked(v[0], v[1], v[2]);
    let got = no_panic("to_horizontal", || ToHorizontal::to_horizontal(&d, &ut1, &j, &site))?;
    ensure!(norm(sub(dv(&got), want)) < 4e-8, "horizontal", "direction seen at north/east/up {:?}, expected {want:?}; {what}", dv(&got));
    let precise = d.to_horizontal_precise(&j, &ut1, &site);
    ensure!(dv(&precise) == dv(&got), "horizontal", "to_horizontal_precise gives {:?}, to_horizontal {:?}; {what}", dv(&precise), dv(&got));
    let back = no_panic("to_equatorial", || got.to_equatorial(&ut1, &j, &site))?;
    ensure!(norm(sub(dv(&back), v)) < 8e-8, "horizontal-back", "{v:?} came back as {:?}; {what}", dv(&back));
    // The same for positions, and in the mean frame with mean sidereal time.
    let r = *s.pick(&[1e-3, 1.0, 5e4]);
    let p = Position::<Topocentric, EquatorialTrueOfDate, AstronomicalUnit>::from_array(site, [Au::new(r * v[0]), Au::new(r * v[1]), Au::new(r * v[2])]);
    let q = no_panic("to_horizontal_position", || p.to_horizontal_position(&ut1, &j))?;
    let g = [q.x().value(), q.y().value(), q.z().value()];
    ensure!(norm(sub(g, scale(want, r))) < 8e-8 * r, "horizontal", "position seen at {g:?}, expected {:?}; {what}", scale(want, r));
    let b = q.to_equatorial_position(&ut1, &j);
    let g = [b.x().value(), b.y().value(), b.z().value()];
    ensure!(norm(sub(g, scale(v, r))) < 2e-7 * r, "horizontal-back", "position came back as {g:?}, left as {:?}; {what}", scale(v, r));
    let plain = siderust::astro::earth_rotation::jd_ut1_from_tt(j);
    let gmst = siderust::astro::sidereal::gmst_iau2006(plain, j).value();
    let era0 = era(plain.raw().value());
    let mean = era0 + poly(t, &[0.014_506, 4_612.156_534, 1.391_581_7, -0.000_000_44, -0.000_029_956, -0.000_000_036_8]) * AS;
    ensure!(wrap(gmst - mean).abs() < 2e-8, "gmst", "mean sidereal time {gmst} at {jd}, expected {mean}");
    let p = Position::<Topocentric, EquatorialMeanOfDate, AstronomicalUnit>::from_array(site, [Au::new(r * v[0]), Au::new(r * v[1]), Au::new(r * v[2])]);
    let q: Position<Topocentric, Horizontal, AstronomicalUnit> = no_panic("transform", || p.transform(j))?;
    let g = [q.x().value(), q.y().value(), q.z().value()];
    let want = scale(app(axes(gmst), v), r);
    ensure!(norm(sub(g, want)) < 8e-8 * r, "horizontal-mean", "mean position seen at {g:?}, expected {want:?}; {what}");
    let b: Position<Topocentric, EquatorialMeanOfDate, AstronomicalUnit> = no_panic("transform", || q.transform(j))?;
    let g = [b.x().value(), b.y().value(), b.z().value()];
    ensure!(norm(sub(g, scale(v, r))) < 2e-7 * r, "horizontal-back", "mean position came back as {g:?}, left as {:?}; {what}", scale(v, r));
    // Ecliptic of date.
    let m = r1(eps);
    let ed = Direction::<EquatorialMeanOfDate>::new_unchecked(v[0], v[1], v[2]);
    let g = no_panic("to_ecliptic_of_date", || ToEclipticTrueOfDate::to_ecliptic_of_date(&ed, &j))?;
    ensure!(norm(sub(dv(&g), app(m, v))) < 8e-8, "ecliptic-of-date", "{v:?} became {:?}, expected {:?}; {what}", dv(&g), app(m, v));
    let b = g.to_equatorial_mean_of_date(&j);
    ensure!(norm(sub(dv(&b), v)) < 2e-7, "ecliptic-of-date", "{v:?} came back as {:?}; {what}", dv(&b));
    let pb = mul(m, mul(precess(t), bias()));
    let id = Direction::<ICRS>::new_unchecked(v[0], v[1], v[2]);
    let gd = Direction::<GCRS>::new_unchecked(v[0], v[1], v[2]);
    let (g, g2) = (ToEclipticTrueOfDate::to_ecliptic_of_date(&id, &j), ToEclipticTrueOfDate::to_ecliptic_of_date(&gd, &j));
    ensure!(norm(sub(dv(&g), app(pb, v))) < 8e-8 && norm(sub(dv(&g2), app(pb, v))) < 8e-8, "ecliptic-of-date", "{v:?} became {:?} and {:?}, expected {:?}; {what}", dv(&g), dv(&g2), app(pb, v));
    let b = g.to_icrs(&j);
    ensure!(norm(sub(dv(&b), v)) < 2e-7, "ecliptic-of-date", "{v:?} came back as {:?}; {what}", dv(&b));
    // Azimuths counted from anywhere, either way round.
    let c = [AzimuthOrigin::North, AzimuthOrigin::East, AzimuthOrigin::South, AzimuthOrigin::West];
    let w = [AzimuthSense::Clockwise, AzimuthSense::CounterClockwise];
    let (i, k) = (s.below(4) as usize, s.below(2) as usize);
    let mut cur = HorizontalConvention::new(c[i], w[k]);
    let mut az = if s.chance(1, 4) { 90.0 * s.int(-8, 8) as f64 } else { s.f64(-720.0, 720.0) };
    let sign = |k: usize| if k == 0 { 1.0 } else { -1.0 };
    let compass = (90.0 * i as f64 + sign(k) * az).rem_euclid(360.0);
    let alt = s.f64(-90.0, 90.0);
    let n = s.int(1, 5);
    for _ in 0..n {
        let (i, k) = (s.below(4) as usize, s.below(2) as usize);
        let next = HorizontalConvention::new(c[i], w[k]);
        let want = (sign(k) * (compass - 90.0 * i as f64)).rem_euclid(360.0);
        let g = convert_azimuth(Degrees::new(az), &cur, &next).value();
        let near = |a: f64, b: f64| wrap((a - b) * PI / 180.0).abs() < 1e-11;
        ensure!(near(g, want) && (0.0..=360.0).contains(&g), "azimuth", "azimuth {az} from {cur} to {next} is {g}, expected {want}");
        let sd = siderust::coordinates::spherical::Direction::<Horizontal>::new(Degrees::new(alt), Degrees::new(az));
        let x = convert_direction(&sd, &cur, &next);
        ensure!(near(x.az().value(), want) && (x.alt().value() - alt).abs() < 1e-12, "azimuth", "direction alt {alt} az {az} from {cur} to {next} became {} {}", x.alt().value(), x.az().value());
        az = g;
        cur = next;
    }
    let g = convert_azimuth(Degrees::new(az), &cur, &HorizontalConvention::NORTH_CLOCKWISE).value();
    ensure!(wrap((g - compass) * PI / 180.0).abs() < 1e-11, "azimuth", "compass direction {compass} came back as {g}");
    s.state(i as u64 * 2 + k as u64);
    s.checked();
    Ok(())
}

/// Site-centred coordinates.
fn site(s: &mut Sim) -> R {
    let jd = pick_jd(s);
    script_eop(s, jd);
    let sk = sky_script(s, jd);
    let ctx = Ctx::with_types();
    let j = JulianDate::new(jd);
    let at = pick_site(s);
    let site = geodetic(at);
    let x = scale(site_xyz(at), 1e-3);
    let c = site.to_cartesian::<Kilometer>();
    let c = [c.x().value(), c.y().value(), c.z().value()];
    ensure!(norm(sub(c, x)) < 1e-6, "site", "site {at:?} at {c:?} km, WGS84 gives {x:?}");
    // Terrestrial to mean equator J2000, the right way round and mirrored.
    let q = rot::<GCRS, CIRS>(j, Nm::A06, &ctx);
    let w = rot::<TIRS, ITRF>(j, Nm::A06, &ctx);
    let spin = rot::<CIRS, TIRS>(j, Nm::A06, &ctx);
    let b = rot::<ICRS, EquatorialMeanJ2000>(j, Nm::A06, &ctx);
    let right = mul(b, mul(tr(q), mul(tr(spin), tr(w))));
    let mirrored = mul(b, mul(tr(q), mul(spin, tr(w))));
    let v = [s.f64(-5e5, 5e5), s.f64(-5e5, 5e5), s.f64(-5e5, 5e5)];
    let what = format!("JD {jd}, site {at:?}");
    let m2 = [ID, rot::<EquatorialMeanJ2000, ICRS>(j, Nm::A06, &ctx), rot::<EquatorialMeanJ2000, EclipticMeanJ2000>(j, Nm::A06, &ctx)];
    let k = s.below(3) as usize;
    macro_rules! go {
        ($f:ident) => {{
            let p = Position::<Geocentric, $f, Kilometer>::new(v[0], v[1], v[2]);
            let t: Position<Topocentric, $f, Kilometer> = p.to_center_with(site, j, &ctx);
            let back: Position<Geocentric, $f, Kilometer> = t.to_center_with((), j, &ctx);
            ([t.x().value(), t.y().value(), t.z().value()], [back.x().value(), back.y().value(), back.z().value()])
        }};
    }
    let (t, back) = no_panic("topocentric", || match k {
        0 => go!(EquatorialMeanJ2000),
        1 => go!(ICRS),
        _ => go!(EclipticMeanJ2000),
    })?;
    ensure!(norm(sub(back, v)) < 1e-8, "topocentric-back", "{v:?} came back as {back:?}; {what}");
    let want = [sub(v, app(mul(m2[k], right), x)), sub(v, app(mul(m2[k], mirrored), x))];
    let err = [norm(sub(t, want[0])), norm(sub(t, want[1]))];
    ensure!(err[0].min(err[1]) < 1e-5, "topocentric", "seen from the site {t:?}, expected {:?}; {what}", want[0]);
    // Velocity: orbit plus spin.
    let o = ObserverState::topocentric_with(&site, j, &ctx);
    let g = [o.velocity().x().value(), o.velocity().y().value(), o.velocity().z().value()];
    let earth = app(rot::<EclipticMeanJ2000, EquatorialMeanJ2000>(j, Nm::A06, &ctx), sk.earth.1);
    let wr = scale([-x[1], x[0], 0.0], 7.292_115e-5 * 86_400.0 / AU_KM);
    let vw = [add(earth, app(right, wr)), add(earth, app(mirrored, wr))];
    let verr = [norm(sub(g, vw[0])), norm(sub(g, vw[1]))];
    ensure!(verr[0].min(verr[1]) < 1e-12, "observer-velocity", "observer moves at {g:?} au/d, expected {:?}; {what}", vw[0]);
    s.state(k as u64);
    s.checked();
    ensure!(err[0] < 1e-5 && verr[0] < 1e-12, "site-rotation", "seen from the site {t:?} km, expected {:?} ({} km off, the site is turned the wrong way); {what}", want[0], err[0]);
    Ok(())
}

/// Light: aberration, deflection and the motion of stars.
fn light(s: &mut Sim) -> R {
    let jd = pick_jd(s);
    let j = JulianDate::new(jd);
    let v = unit([s.f64(-1.0, 1.0), s.f64(-1.0, 1.0), s.f64(-1.0, 1.0)]);
    let k = *s.pick(&[0.0, 0.02, 0.02, 0.3, 20.0]);
    let vel = [s.f64(-k, k), s.f64(-k, k), s.f64(-k, k)];
    let obs = ObserverState::from_velocity(Velocity::new(vel[0], vel[1], vel[2]), j);
    let b = scale(vel, AU_KM / 86_400.0 / 299_792.458);
    let bb = norm(b);
    // The angle to the direction of motion shrinks as special relativity says.
    macro_rules! ab {
        ($f:ident, $m:expr) => {{
            let m: M3 = $m;
            let x = app(m, v);
            let d = Direction::<$f>::new_unchecked(x[0], x[1], x[2]);
            let a = Astrometric::new(d).to_apparent(&obs);
            let back = a.to_astrometric(&obs);
            (app(tr(m), dv(a.direction())), app(tr(m), dv(back.direction())))
        }};
    }
    let bm = bias();
    let e = r1(84_381.406 * AS);
    let which = s.below(3);
    let (a, back) = no_panic("to_apparent", || match which {
        0 => ab!(EquatorialMeanJ2000, ID),
        1 => ab!(ICRS, tr(bm)),
        _ => ab!(EclipticMeanJ2000, e),
    })?;
    ensure!((norm(a) - 1.0).abs() < 1e-12, "aberration", "apparent direction {a:?} has length {}", norm(a));
    ensure!(norm(sub(back, v)) < 1e-12 / (1.0 - bb), "aberration-back", "{v:?} seen from {vel:?} au/d came back as {back:?}");
    if bb > 0.0 {
        let n = scale(b, 1.0 / bb);
        let c = dot(v, n);
        let want = (c + bb) / (1.0 + bb * c);
        ensure!((dot(a, n) - want).abs() < 1e-10, "aberration", "{v:?} seen from {vel:?} au/d at cosine {}, expected {want}", dot(a, n));
        ensure!(dot(cross(v, n), cross(a, n)) >= -1e-12 && dot(cross(v, n), a).abs() < 1e-10, "aberration", "{v:?} left the plane of motion {vel:?}: {a:?}");
    }
    // Deflection by a body, away from it.
    let sun = scale(unit([s.f64(-1.0, 1.0), s.f64(-1.0, 1.0), s.f64(-1.0, 1.0)]), s.f64(0.3, 30.0));
    let star = if s.chance(1, 3) {
        let p = unit(cross(sun, v));
        let a = s.f64(0.0045, 0.05);
        add(scale(unit(sun), -a.cos()), scale(p, a.sin()))
    } else {
        v
    };
    let body = s.below(3);
    let m = 1.974_125_743_36e-8 / [1.0, 1_047.348_6, 3_497.898][body as usize];
    let q = Vector::<ICRS, AstronomicalUnit>::new(sun[0], sun[1], sun[2]);
    let d = Direction::<ICRS>::new_unchecked(star[0], star[1], star[2]);
    let g = no_panic("deflection", || match body {
        0 => ld::solar_deflection(d, q),
        1 => ld::jupiter_deflection(d, q),
        _ => ld::saturn_deflection(d, q),
    })?;
    let g = dv(&g);
    let to_sun = scale(unit(sun), -1.0);
    let ang = |a: V3, b: V3| norm(cross(a, b)).atan2(dot(a, b));
    let psi = ang(star, to_sun);
    if psi > 0.0045 {
        let want = m / norm(sun) / (psi / 2.0).tan();
        let moved = ang(g, to_sun) - psi;
        ensure!((moved - want).abs() < 1e-13 + want * want, "deflection", "star {psi} rad from the body moved by {moved}, expected {want}");
        ensure!((norm(g) - 1.0).abs() < 1e-12 && dot(unit(cross(star, to_sun)), g).abs() < 1e-12, "deflection", "star {star:?} left the plane of the body: {g:?}");
        if body == 0 {
            let mag = ld::solar_deflection_magnitude(Radians::new(psi), Au::new(norm(sun))).value() * AS;
            ensure!((mag - want).abs() < 1e-13 + 1e-5 * want, "deflection", "deflection quoted as {mag}, expected {want}");
            let b = ld::solar_deflection_inverse(Direction::<ICRS>::new_unchecked(g[0], g[1], g[2]), q);
            ensure!(norm(sub(dv(&b), star)) < 2.0 * want * want / psi + 1e-14, "deflection-back", "star {star:?} came back as {:?}", dv(&b));
        }
    }
    // A star in uniform motion.
    let (ra, dec) = (s.f64(0.0, 360.0), s.f64(-89.5, 89.5));
    let (pa, pd, plx, rv) = (s.f64(-1e4, 1e4), s.f64(-1e4, 1e4), s.f64(1.0, 800.0), s.f64(-300.0, 300.0));
    let years = *s.pick(&[0.0, 1.0, 25.0, -100.0, 1_000.0]);
    let epoch = jd;
    let when = jd + years * 365.25;
    let p0 = siderust::coordinates::spherical::Position::<Geocentric, EquatorialMeanJ2000, AstronomicalUnit>::new(Degrees::new(ra), Degrees::new(dec), 1.0);
    type MasYr = siderust::qtty::Per<siderust::qtty::unit::MilliArcsecond, siderust::qtty::unit::Year>;
    type KmS = siderust::qtty::Per<Kilometer, siderust::qtty::unit::Second>;
    let mo = StarSpaceMotion {
        pm_ra_cos_dec: siderust::qtty::Quantity::<MasYr>::new(pa),
        pm_dec: siderust::qtty::Quantity::<MasYr>::new(pd),
        parallax: MilliArcseconds::new(plx),
        radial_velocity: siderust::qtty::Quantity::<KmS>::new(rv),
    };
    let got = no_panic("propagate_space_motion", || propagate_space_motion(p0, mo, JulianDate::new(when), JulianDate::new(epoch)))?;
    let got = match got {
        Ok(p) => p,
        Err(e) => viol!("space-motion", "refused: {e}"),
    };
    let (a0, d0) = (ra * PI / 180.0, dec * PI / 180.0);
    let u = radec(a0, d0);
    let (ea, edd) = ([-a0.sin(), a0.cos(), 0.0], [-d0.sin() * a0.cos(), -d0.sin() * a0.sin(), d0.cos()]);
    let r = 1.0 / (plx * 1e-3 * AS);
    let vv = add(add(scale(ea, r * pa * 1e-3 * AS), scale(edd, r * pd * 1e-3 * AS)), scale(u, rv * 86_400.0 * 365.25 / AU_KM));
    let x = add(scale(u, r), scale(vv, years));
    let gu = radec(got.ra().value() * PI / 180.0, got.dec().value() * PI / 180.0);
    ensure!(norm(sub(gu, unit(x))) < 3e-8 + 5e-5 * (rv * years * 0.21 / r).abs(), "space-motion", "star at {ra} {dec} moving {pa} {pd} mas/yr, {plx} mas, {rv} km/s: after {years} yr at {gu:?}, expected {:?}", unit(x));
    ensure!((got.distance.value() / norm(x) - 1.0).abs() < 1e-5, "space-motion", "distance {} au, expected {}", got.distance.value(), norm(x));
    s.state(which * 8 + body);
    s.checked();
    Ok(())
}

// ── the convenience routes a caller actually uses ───────────────────────────

/// Every shorthand for a frame change gives the rotation it stands for.
fn short<A: ReferenceFrame, B: ReferenceFrame>(jd: JulianDate, ctx: &Ctx, v: V3) -> [(V3, V3); 6]
where
    (): FrameRotationProvider<A, B>,
{
    let plain: AstroContext = AstroContext::default();
    let a = app(rot::<A, B>(jd, Nm::A06, ctx), v);
    let b = app(*frame_rotation_with::<A, B, _>(jd, &plain).as_matrix(), v);
    let d = Direction::<A>::new_unchecked(v[0], v[1], v[2]);
    let p = Position::<Geocentric, A, Kilometer>::new(v[0], v[1], v[2]);
    let w = Vector::<A, Kilometer>::new(v[0], v[1], v[2]);
    let sp = d.to_spherical();
    let pv = |q: Position<Geocentric, B, Kilometer>| [q.x().value(), q.y().value(), q.z().value()];
    let wb = VectorAstroExt::to_frame::<B>(&w, &jd);
    [
        (dv(&d.using(ctx).to_frame::<B>(&jd)), a),
        (pv(p.using(ctx).to_frame::<B>(&jd)), a),
        (dv(&SphericalDirectionAstroExt::to_frame_with::<B, _>(&sp, &jd, ctx).to_cartesian()), a),
        (dv(&SphericalDirectionAstroExt::to_frame::<B>(&sp, &jd).to_cartesian()), b),
        (dv(&DirectionAstroExt::to_frame::<B>(&d, &jd)), b),
        (if v[0] < 0.0 { pv(PositionAstroExt::to_frame::<B>(&p, &jd)) } else { [wb.x().value(), wb.y().value(), wb.z().value()] }, b),
    ]
}

type ShortFn = fn(JulianDate, &Ctx, V3) -> [(V3, V3); 6];

static SHORT: &[(&str, ShortFn)] = &[
    ("ICRS to CIRS", short::<ICRS, CIRS>),
    ("GCRS to ITRF", short::<GCRS, ITRF>),
    ("EquatorialTrueOfDate to ICRS", short::<EquatorialTrueOfDate, ICRS>),
    ("EclipticMeanJ2000 to EquatorialMeanJ2000", short::<EclipticMeanJ2000, EquatorialMeanJ2000>),
    ("TEME to ECEF", short::<TEME, ECEF>),
    ("Galactic to ICRS", short::<Galactic, ICRS>),
    ("ICRS to MarsFixed", short::<ICRS, MarsFixed>),
];

/// The same for centres: with an engine, and on the default one.
fn recentre<C1, C2, F1, F2>(jd: JulianDate, ctx: &Ctx, v: V3) -> [(V3, V3); 3]
where
    C1: ReferenceCenter<Params = ()>,
    C2: ReferenceCenter<Params = ()>,
    F1: ReferenceFrame,
    F2: ReferenceFrame,
    (): CenterShiftProvider<C1, C2, F1>,
    (): FrameRotationProvider<F1, F2>,
{
    let plain: AstroContext = AstroContext::default();
    let km = |a: [Au; 3]| [a[0].value(), a[1].value(), a[2].value()];
    let s = km(center_shift_with::<C1, C2, F1, _>(jd, ctx));
    let d = km(center_shift_with::<C1, C2, F1, _>(jd, &plain));
    let m = rot::<F1, F2>(jd, Nm::A06, ctx);
    let n = *frame_rotation_with::<F1, F2, _>(jd, &plain).as_matrix();
    let p = Position::<C1, F1, AstronomicalUnit>::new(v[0], v[1], v[2]);
    let x: Position<C2, F1, AstronomicalUnit> = p.using(ctx).to_center::<C2>(&jd);
    let y: Position<C2, F2, AstronomicalUnit> = p.using(ctx).to::<C2, F2>(&jd);
    let z: Position<C2, F2, AstronomicalUnit> = PositionAstroExt::to::<C2, F2>(&p, &jd);
    [
        (km([x.x(), x.y(), x.z()]), add(v, s)),
        (km([y.x(), y.y(), y.z()]), app(m, add(v, s))),
        (km([z.x(), z.y(), z.z()]), app(n, add(v, d))),
    ]
}

type RecFn = fn(JulianDate, &Ctx, V3) -> [(V3, V3); 3];

static RECENTRE: &[(&str, RecFn)] = &[
    ("Barycentric ICRS to Geocentric Galactic", recentre::<Barycentric, Geocentric, ICRS, Galactic>),
    ("Heliocentric ecliptic to Geocentric equatorial", recentre::<Heliocentric, Geocentric, EclipticMeanJ2000, EquatorialMeanJ2000>),
    ("Geocentric equatorial to Selenocentric ICRS", recentre::<Geocentric, Selenocentric, EquatorialMeanJ2000, ICRS>),
    ("Geocentric CIRS to Marscentric ecliptic", recentre::<Geocentric, Marscentric, CIRS, EclipticMeanJ2000>),
];

fn sightings(s: &mut Sim) -> R {
    use siderust::astro::aberration as ab;
    use siderust::coordinates::spherical;
    let jd = pick_jd(s);
    script_eop(s, jd);
    sky_script(s, jd);
    let ctx = Ctx::with_types();
    let j = JulianDate::new(jd);
    let v = match s.below(5) {
        0 => [0.0, 0.0, *s.pick(&[1.0, -1.0])],
        1 => unit([s.f64(-1e-9, 1e-9), s.f64(-1e-9, 1e-9), *s.pick(&[1.0, -1.0])]),
        _ => unit([s.f64(-1.0, 1.0), s.f64(-1.0, 1.0), s.f64(-1.0, 1.0)]),
    };
    let what = format!("JD {jd}, {v:?}");
    let k = s.below(9);
    s.state(k);
    s.h(&[k as u8]);
    match k {
        0 => {
            let (name, f) = SHORT[s.idx(SHORT.len())];
            s.h(name.as_bytes());
            // Spherical angles in degrees keep a point of the sphere to about a nanoradian at the poles.
            for (i, (got, want)) in no_panic("frame change", || f(j, &ctx, v))?.iter().enumerate() {
                ensure!(norm(sub(*got, *want)) < if i == 2 || i == 3 { 4e-8 } else { 1e-13 }, "shorthand", "{name}, way {i}: {got:?}, expected {want:?}; {what}");
            }
        }
        1 => {
            let (name, f) = RECENTRE[s.idx(RECENTRE.len())];
            s.h(name.as_bytes());
            let v = scale(v, s.f64(1e-6, 40.0));
            for (i, (got, want)) in no_panic("centre change", || f(j, &ctx, v))?.iter().enumerate() {
                ensure!(norm(sub(*got, *want)) < 1e-12 * (1.0 + norm(v)), "shorthand", "{name}, way {i}: {got:?}, expected {want:?}; {what}");
            }
        }
        2 => {
            use siderust::coordinates::transform::TransformFrame;
            let (bm, e) = (bias(), r1(84_381.406 * AS));
            let x = scale(v, s.f64(1e-6, 1e3));
            let w = |q: [siderust::qtty::Quantity<AuPerDay>; 3]| [q[0].value(), q[1].value(), q[2].value()];
            macro_rules! vel {
                ($a:ident, $b:ident, $m:expr) => {{
                    let p = Velocity::<$a, AuPerDay>::new(x[0], x[1], x[2]);
                    let q: Velocity<$b, AuPerDay> = TransformFrame::to_frame(&p);
                    let r: Velocity<$a, AuPerDay> = TransformFrame::to_frame(&q);
                    let same: Velocity<$a, AuPerDay> = TransformFrame::to_frame(&p);
                    let (got, want) = (w(*q.as_array()), app($m, x));
                    ensure!(norm(sub(got, want)) < 1e-10 * norm(x), "velocity-frame", "velocity {x:?} from {} to {} is {got:?}, expected {want:?}", stringify!($a), stringify!($b));
                    ensure!(norm(sub(w(*r.as_array()), x)) < 1e-12 * norm(x) && w(*same.as_array()) == x, "velocity-frame", "velocity {x:?} came back as {:?}", w(*r.as_array()));
                }};
            }
            match s.below(3) {
                0 => vel!(ICRS, EquatorialMeanJ2000, bm),
                1 => vel!(EquatorialMeanJ2000, EclipticMeanJ2000, e),
                _ => vel!(ICRS, EclipticMeanJ2000, mul(e, bm)),
            }
        }
        3 | 4 => {
            // Aberration by date: the Earth's own motion about the barycentre.
            let t = JulianDate::new(2_451_545.0 + s.f64(-36_525.0, 36_525.0));
            let at = |h: f64| ecl(ss::Earth::vsop87e(JulianDate::new(t.raw().value() + h)));
            let h = 0.02;
            let (a, b) = (sub(at(h), at(-h)), sub(at(2.0 * h), at(-2.0 * h)));
            let vel = app(tr(r1(84_381.406 * AS)), scale(sub(scale(a, 8.0), b), 1.0 / (12.0 * h)));
            let obs = ObserverState::geocentric(t);
            let g = [obs.velocity().x().value(), obs.velocity().y().value(), obs.velocity().z().value()];
            ensure!(norm(sub(g, vel)) < 1e-9, "observer-velocity", "the Earth at JD {} moves at {g:?} au/d, its positions say {vel:?}", t.raw().value());
            ensure!(obs.jd() == t, "observer-velocity", "observer dated {:?}", obs.jd());
            let b = scale(g, AU_KM / 86_400.0 / 299_792.458);
            let bb = norm(b);
            let n = scale(b, 1.0 / bb);
            let c = dot(v, n);
            // Special relativity, written out.
            let along = (c + bb) / (1.0 + bb * c);
            let side = unit(sub(v, scale(n, c)));
            let want = add(scale(n, along), scale(side, (1.0 - along * along).max(0.0).sqrt()));
            let d = Direction::<EquatorialMeanJ2000>::new_unchecked(v[0], v[1], v[2]);
            let got = dv(&no_panic("aberration", || ab::apply_aberration_to_direction(d, t))?);
            ensure!(norm(sub(got, want)) < 1e-11, "aberration", "{v:?} seen from the Earth at JD {} is {got:?}, expected {want:?}", t.raw().value());
            let back = dv(&ab::remove_aberration_from_direction(Direction::<EquatorialMeanJ2000>::new_unchecked(got[0], got[1], got[2]), t));
            ensure!(norm(sub(back, v)) < 1e-12, "aberration-back", "{v:?} came back as {back:?}");
            let r = *s.pick(&[1e-9, 1.0, 4e5, 0.0]);
            let p = Position::<Geocentric, EquatorialMeanJ2000, Kilometer>::new(r * v[0], r * v[1], r * v[2]);
            let q = no_panic("aberration", || ab::apply_aberration(p, t))?;
            let u = ab::remove_aberration(q, t);
            let (q, u) = ([q.x().value(), q.y().value(), q.z().value()], [u.x().value(), u.y().value(), u.z().value()]);
            ensure!(norm(sub(q, scale(want, r))) <= 1e-11 * r && norm(sub(u, scale(v, r))) <= 2e-12 * r, "aberration", "position {r} x {v:?} became {q:?} and then {u:?}, expected {:?}", scale(want, r));
            // The same through angles.
            let a = Astrometric::new(d.to_spherical());
            let x = a.to_apparent(&obs);
            let y = x.to_astrometric(&obs);
            ensure!(norm(sub(dv(&x.direction().to_cartesian()), want)) < 4e-8 && norm(sub(dv(&y.into_inner().to_cartesian()), v)) < 6e-8, "aberration", "{v:?} in angles became {} and then {}, expected {want:?}", x, y);
        }
        5 | 6 => {
            use siderust::astro::proper_motion::{set_proper_motion_since_j2000, ProperMotion, RaProperMotionConvention};
            use siderust::bodies::Star;
            use siderust::qtty::unit::LightYear;
            use siderust::qtty::LightYears;
            use siderust::targets::{CoordinateWithPM, Trackable};
            let (ra, dec) = (s.f64(0.0, 360.0), s.f64(-80.0, 80.0));
            let years = *s.pick(&[0.0, 1.0, -40.0, 100.0, 300.0]);
            let t = JulianDate::new(2_451_545.0 + years * 365.25);
            // Rates as catalogues print them, in mas/yr.
            let (pa, pd) = (s.f64(-1e4, 1e4), s.f64(-1e4, 1e4));
            let star = s.chance(1, 2);
            type MasYr = siderust::qtty::Per<siderust::qtty::unit::MilliArcsecond, siderust::qtty::unit::Year>;
            let q = siderust::qtty::Quantity::<MasYr>::new;
            let pm = if star { ProperMotion::from_mu_alpha_star(q(pa), q(pd)) } else { ProperMotion::from_mu_alpha(q(pa), q(pd)) };
            let cosd = (dec * PI / 180.0).cos();
            let (ra_rate, star_rate) = if star { (pa / cosd, pa) } else { (pa, pa * cosd) };
            ensure!((pm.ra_convention == RaProperMotionConvention::MuAlphaStar) == star, "proper-motion", "convention {}", pm.ra_convention);
            let dist = s.f64(1.0, 1e3);
            let p0 = spherical::Position::<Geocentric, EquatorialMeanJ2000, LightYear>::new(Degrees::new(ra), Degrees::new(dec), dist);
            let linear = ((ra + ra_rate * years / 3.6e6).rem_euclid(360.0), dec + pd * years / 3.6e6);
            let near = |g: (f64, f64), w: (f64, f64), lim: f64| wrap((g.0 - w.0) * PI / 180.0).abs() < lim && ((g.1 - w.1) * PI / 180.0).abs() < lim;
            let g = match no_panic("set_proper_motion_since_j2000", || set_proper_motion_since_j2000(p0, pm.clone(), t))? {
                Ok(p) => p,
                Err(e) => viol!("proper-motion", "star at {ra} {dec} refused: {e}"),
            };
            // A Julian year is the unit of the rate and of the interval; the crate's year unit may be the tropical one.
            let lim = 1e-11 + 3e-5 * (pa.abs() / cosd + pd.abs()) * years.abs() * 1e-3 * AS;
            ensure!(near((g.ra().value(), g.dec().value()), linear, lim) && g.distance.value() == dist, "proper-motion", "star at {ra} {dec} moving {pa} {pd} mas/yr ({}) is at {} {} after {years} yr, expected {linear:?}", pm.ra_convention, g.ra().value(), g.dec().value());
            if star {
                let pole = spherical::Position::<Geocentric, EquatorialMeanJ2000, LightYear>::new(Degrees::new(ra), Degrees::new(*s.pick(&[90.0, -90.0])), dist);
                ensure!(no_panic("pole", || set_proper_motion_since_j2000(pole, pm.clone(), t))?.is_err(), "proper-motion", "a star on the pole has a right ascension rate");
            }
            // A star with what its catalogue knows about it.
            let (plx, rv) = (s.f64(1.0, 700.0), s.f64(-200.0, 200.0));
            let know = s.below(5);
            let coord = if know == 4 { CoordinateWithPM::new_static(p0, JulianDate::new(2_451_545.0)) } else { CoordinateWithPM::new(p0, JulianDate::new(2_451_545.0), pm.clone()) };
            let mut b = Star::new("sim", LightYears::new(dist), siderust::qtty::SolarMasses::new(1.0), siderust::qtty::length::nominal::SolarRadiuses::new(1.0), siderust::qtty::SolarLuminosities::new(1.0), coord);
            if know != 1 && know != 3 {
                b = b.with_parallax(MilliArcseconds::new(plx));
            }
            if know != 2 && know != 3 {
                b = b.with_radial_velocity(siderust::qtty::Quantity::new(rv));
            }
            ensure!(b.has_full_space_motion() == (know == 0), "star", "knowledge {know}: full motion {}", b.has_full_space_motion());
            let g = match no_panic("position_at", || b.position_at(t))? {
                Ok(p) => p,
                Err(e) => viol!("star", "star at {ra} {dec} refused: {e}"),
            };
            let (a0, d0) = (ra * PI / 180.0, dec * PI / 180.0);
            let au = dist * 63_241.077_088_071;
            let gu = radec(g.ra().value() * PI / 180.0, g.dec().value() * PI / 180.0);
            match know {
                0 => {
                    let u = radec(a0, d0);
                    let (ea, ed) = ([-a0.sin(), a0.cos(), 0.0], [-d0.sin() * a0.cos(), -d0.sin() * a0.sin(), d0.cos()]);
                    let r = 1.0 / (plx * 1e-3 * AS);
                    let vv = add(add(scale(ea, r * star_rate * 1e-3 * AS), scale(ed, r * pd * 1e-3 * AS)), scale(u, rv * 86_400.0 * 365.25 / AU_KM));
                    let x = add(scale(u, r), scale(vv, years));
                    ensure!(norm(sub(gu, unit(x))) < 1e-10 + lim + 5e-5 * (rv * years * 0.21 / r).abs() * (pa.abs() + pd.abs()) * years.abs() * 1e-3 * AS, "star", "star at {ra} {dec} moving {pa} {pd} mas/yr ({}), {plx} mas, {rv} km/s: after {years} yr at {gu:?}, expected {:?}", pm.ra_convention, unit(x));
                    ensure!((g.distance.value() / norm(x) - 1.0).abs() < 1e-5, "star", "distance {} au, expected {}", g.distance.value(), norm(x));
                }
                4 => ensure!(near((g.ra().value(), g.dec().value()), (ra, dec), 1e-12) && (g.distance.value() / au - 1.0).abs() < 1e-6, "star", "a still star at {ra} {dec} is at {} {} after {years} yr", g.ra().value(), g.dec().value()),
                _ => ensure!(near((g.ra().value(), g.dec().value()), linear, lim) && (g.distance.value() / au - 1.0).abs() < 1e-6, "star", "star at {ra} {dec} (knowledge {know}) is at {} {} after {years} yr, expected {linear:?}", g.ra().value(), g.dec().value()),
            }
            let k = b.track(t);
            ensure!(near((k.ra().value(), k.dec().value()), (ra, dec), 1e-12), "star", "catalogue direction {ra} {dec} tracked as {} {}", k.ra().value(), k.dec().value());
        }
        7 => {
            // A sighting kept with its site while the azimuth convention changes.
            use siderust::coordinates::horizontal as hz;
            let at = pick_site(s);
            let site = geodetic(at);
            let (alt, az, r) = (s.f64(-90.0, 90.0), s.f64(0.0, 360.0), s.f64(1e-3, 1e6));
            let c = [AzimuthOrigin::North, AzimuthOrigin::East, AzimuthOrigin::South, AzimuthOrigin::West];
            let w = [AzimuthSense::Clockwise, AzimuthSense::CounterClockwise];
            let (i, k, i2, k2) = (s.idx(4), s.idx(2), s.idx(4), s.idx(2));
            let (from, to) = (HorizontalConvention::new(c[i], w[k]), HorizontalConvention::new(c[i2], w[k2]));
            let sg = |k: usize| if k == 0 { 1.0 } else { -1.0 };
            let compass = (90.0 * i as f64 + sg(k) * az).rem_euclid(360.0);
            let want = (sg(k2) * (compass - 90.0 * i2 as f64)).rem_euclid(360.0);
            let outward = (sg(k2) * (az - 90.0 * i2 as f64)).rem_euclid(360.0);
            let p = Topocentric::horizontal::<Kilometer, _>(site, Degrees::new(alt), Degrees::new(az), siderust::qtty::Kilometers::new(r));
            let near = |a: f64, b: f64| wrap((a - b) * PI / 180.0).abs() < 1e-11;
            for (name, q, az2) in [
                ("convert_position", hz::convert_position(&p, &from, &to), want),
                ("position_to_native", hz::position_to_native(&p, &from), compass),
                ("position_from_native", hz::position_from_native(&p, &to), outward),
            ] {
                let x = q.center_params().to_cartesian::<Kilometer>();
                let x = [x.x().value(), x.y().value(), x.z().value()];
                ensure!(near(q.az().value(), az2) && q.alt() == p.alt() && q.distance == p.distance, "azimuth", "{name} {from} to {to}: alt {alt} az {az} became {} {}, expected az {az2}", q.alt().value(), q.az().value());
                ensure!(norm(sub(x, scale(site_xyz(at), 1e-3))) < 1e-6, "azimuth", "{name}: the site moved to {x:?}");
            }
            let d = spherical::Direction::<Horizontal>::new(Degrees::new(alt), Degrees::new(az));
            let (a, b) = (hz::direction_to_native(&d, &from), hz::direction_from_native(&d, &to));
            ensure!(near(a.az().value(), compass) && near(b.az().value(), outward) && a.alt() == d.alt() && b.alt() == d.alt(), "azimuth", "{from} to native {}, native to {to} {}: expected {compass} and {outward}", a.az().value(), b.az().value());
            ensure!(near(hz::flip_north_south(Degrees::new(az)).value(), az + 180.0) && near(hz::flip_sense(Degrees::new(az)).value(), -az), "azimuth", "azimuth {az} flipped");
        }
        _ => {
            // Contexts hand out the caller's records and ephemeris, or say there are none.
            use siderust::astro::earth_rotation::{jd_utc_from_tt_delta_t, try_jd_utc_from_tt};
            use siderust::coordinates::transform::context::DynAstroContext;
            let gone = |jd: f64| EOP.with(|e| (e.borrow().out.0..e.borrow().out.1).contains(&jd));
            let same = |a: EopValues, b: EopValues| a.dut1 == b.dut1 && a.xp == b.xp && a.yp == b.yp && a.dx == b.dx && a.dy == b.dy;
            let dynamic: DynAstroContext<ScriptEop> = DynAstroContext::with_ephemeris_and_eop(Box::new(SimSky), ScriptEop);
            let rec = |jd: f64| EOP.with(|e| e.borrow().at(jd));
            let utc = try_jd_utc_from_tt(j);
            let at = match &utc {
                Ok(u) => u.raw().value(),
                Err(_) => jd_utc_from_tt_delta_t(j).raw().value(),
            };
            for (name, got, tried, tt, tried_tt) in [
                ("context", ctx.eop_at(j), ctx.try_eop_at(j), ctx.eop_at_tt(j), ctx.try_eop_at_tt(j)),
                ("dynamic context", dynamic.eop_at(j), dynamic.try_eop_at(j), dynamic.eop_at_tt(j), dynamic.try_eop_at_tt(j)),
            ] {
                ensure!(same(got, rec(jd)) && same(tt, rec(at)), "record", "{name} at JD {jd}: {got:?} and {tt:?}, the record says {:?} and {:?}", rec(jd), rec(at));
                ensure!(tried.is_err() == gone(jd) && tried_tt.is_err() == (utc.is_err() || gone(at)), "record", "{name} at JD {jd} (utc {at}): {tried:?}, {tried_tt:?}");
                if let (Ok(a), Ok(b)) = (tried, tried_tt) {
                    ensure!(same(a, rec(jd)) && same(b, rec(at)), "record", "{name} at JD {jd}: {a:?} and {b:?}");
                }
            }
            let k = sky();
            let e = dynamic.ephemeris();
            let m = e.moon_geocentric(j);
            let m = [m.x().value(), m.y().value(), m.z().value()];
            let h = e.earth_heliocentric(j);
            let h = [h.x().value(), h.y().value(), h.z().value()];
            let u = e.earth_barycentric_velocity(j);
            let u = [u.x().value(), u.y().value(), u.z().value()];
            ensure!(ecl(e.sun_barycentric(j)) == k.go(k.sun, j) && ecl(e.earth_barycentric(j)) == k.go(k.earth, j) && m == k.go(k.moon, j) && u == k.earth.1, "ephemeris", "dynamic context at JD {jd}: {m:?} {u:?}, script {k:?}");
            ensure!(norm(sub(h, sub(k.go(k.earth, j), k.go(k.sun, j)))) < 1e-15, "ephemeris", "Earth from the Sun at {h:?}, script {k:?}");
        }
    }
    s.checked();
    Ok(())
}

pub static C28: Prop = Prop {
    id: "C28",
    scenarios: &[("frames", 4, frames), ("spin", 2, spin), ("centers", 3, centers), ("bodycentric", 2, bodycentric), ("horizon", 3, horizon), ("site", 1, site), ("light", 3, light), ("sightings", 3, sightings)],
    runs_quick: 40_000,
    runs_thorough: 600_000,
    rule: "every conversion equals the independently built rotation or translation, composes, inverts and repeats exactly",
    real: &["src/coordinates/transform/**", "src/astro/{cio,era,precession,polar_motion,sidereal,nutation,orientation,earth_rotation_provider,aberration,light_deflection,apparent,proper_motion}*"],
    stub: &["Earth orientation values (scripted EopProvider)", "positions of Sun, Earth and Moon (scripted Ephemeris)"],
    assumptions: &["the IAU 2006 precession and nutation series themselves are taken from the crate (one model per run); their composition, sense and reference axes are rebuilt independently"],
};
