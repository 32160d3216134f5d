//! C18, C19, C20: orbit dynamics over simulated environment services.

use crate::core::{no_panic, Sim, R};
use crate::kepler::{self, add, cross, dot, norm, scale, sub, S6, V3};
use crate::props::est::{mul, state, tr, vec6, M6};
use crate::{ensure, viol, Prop};
use principia::{GravityFieldProvider, PrincipiaError};
use siderust::astro::dynamics::forces::{AccelerationModel, AccelerationPartials, GravitationalParameter, ShadowModel, ThirdBody, TwoBody, J2};
use siderust::astro::dynamics::{Acceleration, DensityProvider, DynamicsContext, DynamicsError, OrbitState, Propagator, PropagatorConfig, SpacecraftProperties, SpacecraftState};
use principia::EventDirection;
use siderust::astro::dynamics::{FixedRk4Adapter, RadialThresholdEvent};
use siderust::astro::dynamics::density::{ConstantDensity, ExponentialAtmosphere, Nrlmsise00LiteApprox};
use siderust::astro::dynamics::gravity::{LowDegreeEarth, TwoBodyEarth};
use siderust::astro::earth_rotation::jd_ut1_from_tt;
use siderust::coordinates::cartesian::{Position, Velocity};
use siderust::coordinates::centers::{Barycentric, Geocentric, Heliocentric};
use siderust::coordinates::frames::{EclipticMeanJ2000, GCRS};
use siderust::ephemeris::{AuPerDay, DynEphemeris, EphemerisError};
use siderust::pod::force::{DynSiderustForceModel, ForceModelConfig, ForceModelFactory, ForceModelParams, ForceModelRegistry, ForceModelSpec, PeriodicHarmonic, SiderustCompositeModel};
use siderust::pod::propagation::{param_partials_central_diff, propagate_orbit, propagate_spacecraft, Dop853Integrator, Dopri5Integrator, Integrator, PodDynamicsError, propagate_stm, validation::max_rel_stm_predict_error, Rk4Integrator, VariationalPropagator};
use siderust::qtty::unit::{AstronomicalUnit, Kilometer};
use siderust::qtty::{AreaToMass, DragCoefficient, IntegratorTolerances, KilogramsPerCubicMeter, Kilometers, KmPerSecondsSquared, Second, SrpCoefficient};
use siderust::time::{JulianDate, JD, TT};
use std::sync::{Arc, Mutex};

// --- simulated services ------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Svc {
    Sun,
    Earth,
    Moon,
    Density,
    Gravity,
    Model,
}

/// Call log and fault plan shared by all services of one world.
#[derive(Default)]
pub struct Bus {
    calls: u64,
    fail_at: Option<u64>,
    sticky: bool,
    fired: Option<Svc>,
    log: Vec<(Svc, f64)>,
}

type Shared = Arc<Mutex<Bus>>;

/// One service call: true when it is to fail.
fn call(b: &Shared, svc: Svc, arg: f64) -> bool {
    let mut b = b.lock().unwrap();
    let k = b.calls;
    b.calls += 1;
    if b.log.len() < 4096 {
        b.log.push((svc, arg));
    }
    let hit = b.fail_at.is_some_and(|f| k == f || (b.sticky && k > f));
    if hit && b.fired.is_none() {
        b.fired = Some(svc);
    }
    hit
}

fn plan(b: &Shared, fail_at: Option<u64>, sticky: bool) {
    let mut b = b.lock().unwrap();
    *b = Bus { fail_at, sticky, ..Bus::default() };
}

#[derive(Clone, Copy, Debug)]
pub struct Sky {
    sun0: V3,
    e_phase: f64,
    e_rate: f64,
    m_r: f64,
    m_phase: f64,
    m_rate: f64,
    m_inc: f64,
    rho0: f64,
    h_scale: f64,
    jd0: f64,
}

impl Sky {
    fn new(s: &mut Sim) -> Sky {
        Sky {
            sun0: std::array::from_fn(|_| s.f64(-0.01, 0.01)),
            e_phase: s.f64(0.0, 6.3),
            // Faster than nature, so that a wrong epoch is visible.
            e_rate: *s.pick(&[0.017_2, 0.5, 3.0]),
            m_r: s.f64(356_000.0, 406_000.0),
            m_phase: s.f64(0.0, 6.3),
            m_rate: *s.pick(&[0.23, 2.0, 10.0]),
            m_inc: s.f64(-0.1, 0.1),
            rho0: 10f64.powf(s.f64(-13.0, -11.0)),
            h_scale: s.f64(30.0, 100.0),
            jd0: 2_460_000.5,
        }
    }
    fn sun(&self, jd: f64) -> V3 {
        [self.sun0[0] + 1e-6 * (jd - self.jd0), self.sun0[1], self.sun0[2]]
    }
    fn earth(&self, jd: f64) -> V3 {
        let a = self.e_phase + self.e_rate * (jd - self.jd0);
        [a.cos(), a.sin(), 1e-5 * (3.0 * a).sin()]
    }
    fn moon(&self, jd: f64) -> V3 {
        let a = self.m_phase + self.m_rate * (jd - self.jd0);
        [self.m_r * a.cos(), self.m_r * a.sin() * self.m_inc.cos(), self.m_r * a.sin() * self.m_inc.sin()]
    }
    fn rho(&self, h: f64) -> f64 {
        self.rho0 * (-(h - 400.0) / self.h_scale).exp()
    }
}

struct SimEph(Shared, Sky);

impl SimEph {
    fn fail(jd: f64) -> EphemerisError {
        EphemerisError::OutOfRange { jd, start_jd: 0.0, end_jd: 1.0 }
    }
}

type BaryAu = Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit>;

impl DynEphemeris for SimEph {
    fn try_sun_barycentric(&self, jd: JulianDate) -> Result<BaryAu, EphemerisError> {
        if call(&self.0, Svc::Sun, jd.value()) {
            return Err(Self::fail(jd.value()));
        }
        let v = self.1.sun(jd.value());
        Ok(BaryAu::new(v[0], v[1], v[2]))
    }
    fn sun_barycentric(&self, jd: JulianDate) -> BaryAu {
        // The infallible interface cannot report the fault: a caller that uses
        // it gets nonsense, as it would from a real ephemeris out of range.
        self.try_sun_barycentric(jd).unwrap_or(BaryAu::new(f64::NAN, f64::NAN, f64::NAN))
    }
    fn try_earth_barycentric(&self, jd: JulianDate) -> Result<BaryAu, EphemerisError> {
        if call(&self.0, Svc::Earth, jd.value()) {
            return Err(Self::fail(jd.value()));
        }
        let v = self.1.earth(jd.value());
        Ok(BaryAu::new(v[0], v[1], v[2]))
    }
    fn earth_barycentric(&self, jd: JulianDate) -> BaryAu {
        self.try_earth_barycentric(jd).unwrap_or(BaryAu::new(f64::NAN, f64::NAN, f64::NAN))
    }
    fn try_earth_heliocentric(&self, jd: JulianDate) -> Result<Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit>, EphemerisError> {
        if call(&self.0, Svc::Earth, jd.value()) {
            return Err(Self::fail(jd.value()));
        }
        let v = sub(self.1.earth(jd.value()), self.1.sun(jd.value()));
        Ok(Position::new(v[0], v[1], v[2]))
    }
    fn earth_heliocentric(&self, jd: JulianDate) -> Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit> {
        self.try_earth_heliocentric(jd).unwrap_or(Position::new(f64::NAN, f64::NAN, f64::NAN))
    }
    fn try_earth_barycentric_velocity(&self, jd: JulianDate) -> Result<Velocity<EclipticMeanJ2000, AuPerDay>, EphemerisError> {
        Err(Self::fail(jd.value()))
    }
    fn earth_barycentric_velocity(&self, _jd: JulianDate) -> Velocity<EclipticMeanJ2000, AuPerDay> {
        Velocity::new(f64::NAN, f64::NAN, f64::NAN)
    }
    fn try_moon_geocentric(&self, jd: JulianDate) -> Result<Position<Geocentric, EclipticMeanJ2000, Kilometer>, EphemerisError> {
        if call(&self.0, Svc::Moon, jd.value()) {
            return Err(Self::fail(jd.value()));
        }
        let v = self.1.moon(jd.value());
        Ok(Position::new(v[0], v[1], v[2]))
    }
    fn moon_geocentric(&self, jd: JulianDate) -> Position<Geocentric, EclipticMeanJ2000, Kilometer> {
        self.try_moon_geocentric(jd).unwrap_or(Position::new(f64::NAN, f64::NAN, f64::NAN))
    }
}

struct SimAir(Shared, Sky);

impl DensityProvider for SimAir {
    fn name(&self) -> &'static str {
        "simulated"
    }
    fn density(&self, altitude: Kilometers) -> Result<KilogramsPerCubicMeter, DynamicsError> {
        let h = altitude.value();
        if call(&self.0, Svc::Density, h) {
            return Err(DynamicsError::AtmosphereProviderError(Box::new(std::io::Error::other("simulated outage"))));
        }
        Ok(KilogramsPerCubicMeter::new(self.1.rho(h)))
    }
}

#[derive(Clone, Debug)]
pub struct Field {
    max: usize,
    max_order: usize,
    c: Vec<Vec<f64>>,
    s: Vec<Vec<f64>>,
}

struct SimGravity(Shared, Field);

impl GravityFieldProvider for SimGravity {
    fn mu(&self) -> GravitationalParameter {
        GravitationalParameter::new(kepler::MU)
    }
    fn reference_radius(&self) -> Kilometers {
        Kilometers::new(RE)
    }
    fn max_degree(&self) -> usize {
        self.1.max
    }
    fn max_order(&self) -> usize {
        self.1.max_order
    }
    fn c_normalized(&self, n: usize, m: usize) -> Result<f64, PrincipiaError> {
        if call(&self.0, Svc::Gravity, n as f64) {
            return Err(PrincipiaError::GravityCoefficientUnavailable { degree: n as u16, order: m as u16 });
        }
        Ok(self.1.c[n][m])
    }
    fn s_normalized(&self, n: usize, m: usize) -> Result<f64, PrincipiaError> {
        if call(&self.0, Svc::Gravity, n as f64) {
            return Err(PrincipiaError::GravityCoefficientUnavailable { degree: n as u16, order: m as u16 });
        }
        Ok(self.1.s[n][m])
    }
}

pub struct World {
    bus: Shared,
    sky: Sky,
    field: Field,
}

impl World {
    fn new(s: &mut Sim) -> World {
        let max = s.int(2, 6) as usize;
        let max_order = if s.chance(1, 5) { s.int(0, max as i64) as usize } else { max };
        let mut c = vec![];
        let mut sn = vec![];
        for n in 0..=max {
            let mut a: Vec<f64> = (0..=n).map(|_| s.normal() * 3e-6 / (n * n).max(1) as f64).collect();
            let mut b: Vec<f64> = (0..=n).map(|_| s.normal() * 3e-6 / (n * n).max(1) as f64).collect();
            b[0] = 0.0;
            if n == 0 {
                a[0] = 1.0;
            }
            if n == 1 {
                a = vec![0.0; 2];
                b = vec![0.0; 2];
            }
            if n == 2 {
                a[0] = -4.8e-4;
            }
            c.push(a);
            sn.push(b);
        }
        World { bus: Arc::new(Mutex::new(Bus::default())), sky: Sky::new(s), field: Field { max, max_order, c, s: sn } }
    }
    fn ctx(&self, eph: bool, air: bool, grav: bool) -> DynamicsContext {
        let mut b = DynamicsContext::builder();
        if eph {
            b = b.with_ephemeris(Arc::new(SimEph(self.bus.clone(), self.sky)));
        }
        if air {
            b = b.with_atmosphere(Arc::new(SimAir(self.bus.clone(), self.sky)));
        }
        if grav {
            b = b.with_gravity(Arc::new(SimGravity(self.bus.clone(), self.field.clone())));
        }
        b.build()
    }
}

// --- reference accelerations ---------------------------------------------------

const RE: f64 = 6378.137;
const AU: f64 = 149_597_870.7;
const GM_SUN: f64 = 1.327_124_400_18e11;
const GM_MOON: f64 = 4_902.800_066;
const OMEGA: f64 = 7.292_115_146_706_979e-5;

fn to_equatorial(v: V3) -> V3 {
    let e = (84_381.406f64 / 3600.0).to_radians();
    let (s, c) = e.sin_cos();
    [v[0], c * v[1] - s * v[2], s * v[1] + c * v[2]]
}

fn sun_geo(k: &Sky, jd: f64) -> V3 {
    to_equatorial(scale(sub(k.sun(jd), k.earth(jd)), AU))
}

fn third(r: V3, b: V3, gm: f64) -> V3 {
    let d = sub(b, r);
    // Direct form: cancels ~5 digits, the tolerance accounts for it.
    sub(scale(d, gm / norm(d).powi(3)), scale(b, gm / norm(b).powi(3)))
}

/// Cunningham's V, W recursion with unnormalised coefficients (Montenbruck & Gill 3.2.4).
fn harmonics(f: &Field, deg: usize, ord: usize, r: V3, th: f64) -> V3 {
    let (st, ct) = th.sin_cos();
    let b = [ct * r[0] + st * r[1], -st * r[0] + ct * r[1], r[2]];
    let n1 = deg + 2;
    let mut v = vec![vec![0.0; n1 + 1]; n1 + 1];
    let mut w = v.clone();
    let r2 = dot(b, b);
    let rho = RE * RE / r2;
    let (x0, y0, z0) = (RE * b[0] / r2, RE * b[1] / r2, RE * b[2] / r2);
    v[0][0] = RE / r2.sqrt();
    for m in 0..n1 {
        if m > 0 {
            v[m][m] = (2 * m - 1) as f64 * (x0 * v[m - 1][m - 1] - y0 * w[m - 1][m - 1]);
            w[m][m] = (2 * m - 1) as f64 * (x0 * w[m - 1][m - 1] + y0 * v[m - 1][m - 1]);
        }
        for n in m + 1..=n1 {
            let (a, q) = ((2 * n - 1) as f64 / (n - m) as f64, (n + m - 1) as f64 / (n - m) as f64);
            let (pv, pw) = if n >= m + 2 { (v[n - 2][m], w[n - 2][m]) } else { (0.0, 0.0) };
            v[n][m] = a * z0 * v[n - 1][m] - q * rho * pv;
            w[n][m] = a * z0 * w[n - 1][m] - q * rho * pw;
        }
    }
    let fact = |k: usize| (1..=k).map(|i| i as f64).product::<f64>();
    let mut acc = [0.0; 3];
    for n in 0..=deg {
        for m in 0..=n.min(ord) {
            let nn = ((2 * n + 1) as f64 * fact(n - m) / fact(n + m) * if m == 0 { 1.0 } else { 2.0 }).sqrt();
            let (c, s) = (f.c[n][m] * nn, f.s[n][m] * nn);
            if m == 0 {
                acc[0] -= c * v[n + 1][1];
                acc[1] -= c * w[n + 1][1];
                acc[2] -= (n + 1) as f64 * c * v[n + 1][0];
            } else {
                let q = fact(n - m + 2) / fact(n - m);
                acc[0] += 0.5 * ((-c * v[n + 1][m + 1] - s * w[n + 1][m + 1]) + q * (c * v[n + 1][m - 1] + s * w[n + 1][m - 1]));
                acc[1] += 0.5 * ((-c * w[n + 1][m + 1] + s * v[n + 1][m + 1]) + q * (-c * w[n + 1][m - 1] + s * v[n + 1][m - 1]));
                acc[2] += (n - m + 1) as f64 * (-c * v[n + 1][m] - s * w[n + 1][m]);
            }
        }
    }
    let a = scale(acc, kepler::MU / (RE * RE));
    [ct * a[0] - st * a[1], st * a[0] + ct * a[1], a[2]]
}

/// Geodetic altitude by bisection on the foot point's parametric latitude.
fn altitude(r: V3) -> f64 {
    let f = 1.0 / 298.257_223_563;
    let (a, b) = (RE, RE * (1.0 - f));
    let p = (r[0] * r[0] + r[1] * r[1]).sqrt();
    let z = r[2].abs();
    // Foot point (a cos u, b sin u): derivative of the squared distance.
    let g = |u: f64| (p - a * u.cos()) * a * u.sin() - (z - b * u.sin()) * b * u.cos();
    let (mut lo, mut hi) = (0.0, std::f64::consts::FRAC_PI_2);
    for _ in 0..100 {
        let m = 0.5 * (lo + hi);
        if g(m) > 0.0 {
            hi = m;
        } else {
            lo = m;
        }
    }
    let u = 0.5 * (lo + hi);
    let (dx, dz) = (p - a * u.cos(), z - b * u.sin());
    let d = (dx * dx + dz * dz).sqrt();
    if dx * (a * u.cos()) / (a * a) + dz * (b * u.sin()) / (b * b) < 0.0 {
        -d
    } else {
        d
    }
}

/// What the library's altitude may be off by, km.
fn altitude_tol(h: f64) -> f64 {
    1e-5 + if h > 2000.0 { 1e-6 * h } else { 0.0 }
}

fn lit(r: V3, sun: V3, shadow: ShadowModel) -> f64 {
    match shadow {
        ShadowModel::None => 1.0,
        ShadowModel::Cylindrical => {
            let u = scale(sun, 1.0 / norm(sun));
            let along = dot(r, u);
            if along < 0.0 && norm(sub(r, scale(u, along))) < RE {
                0.0
            } else {
                1.0
            }
        }
        ShadowModel::Conical => {
            let to_sun = sub(sun, r);
            let e = (RE / norm(r)).asin();
            let s = (695_700.0 / norm(to_sun)).asin();
            let sep = (-dot(r, to_sun) / norm(r) / norm(to_sun)).clamp(-1.0, 1.0).acos();
            if sep >= e + s {
                return 1.0;
            }
            if sep <= e - s {
                return 0.0;
            }
            // Two circular segments.
            let al = ((sep * sep + s * s - e * e) / (2.0 * sep * s)).clamp(-1.0, 1.0).acos();
            let be = ((sep * sep + e * e - s * s) / (2.0 * sep * e)).clamp(-1.0, 1.0).acos();
            let area = s * s * (al - al.sin() * al.cos()) + e * e * (be - be.sin() * be.cos());
            1.0 - area / (std::f64::consts::PI * s * s)
        }
    }
}

/// How far the satellite is from a shadow boundary where the model jumps, km.
fn edge(r: V3, sun: V3) -> f64 {
    let u = scale(sun, 1.0 / norm(sun));
    let along = dot(r, u);
    (norm(sub(r, scale(u, along))) - RE).abs().min(along.abs())
}

fn rtn(x: S6, c: V3) -> V3 {
    let (r, v) = kepler::rv(x);
    let n = cross(r, v);
    let (rh, nh) = (scale(r, 1.0 / norm(r)), scale(n, 1.0 / norm(n)));
    let th = cross(nh, rh);
    add(add(scale(rh, c[0]), scale(th, c[1])), scale(nh, c[2]))
}

/// Reference contributions of a configuration, with a tolerance per contribution.
fn reference(cfg: &ForceModelConfig, w: &World, x: S6, jd: f64) -> Vec<(V3, f64)> {
    let (r, v) = kepler::rv(x);
    let mut out = vec![];
    let rel = |a: V3, k: f64| (a, k * norm(a));
    if cfg.two_body {
        out.push(rel(scale(r, -kepler::MU / norm(r).powi(3)), 1e-13));
    }
    if cfg.j2 {
        let j2 = 1.082_626_68e-3;
        let q = 1.5 * j2 * kepler::MU * RE * RE / norm(r).powi(5);
        let z = 5.0 * r[2] * r[2] / dot(r, r);
        let a = [q * r[0] * (z - 1.0), q * r[1] * (z - 1.0), q * r[2] * (z - 3.0)];
        out.push((a, 1e-12 * q * norm(r)));
    }
    if let Some((d, o)) = cfg.harmonics {
        let th = rotation(jd);
        let a = harmonics(&w.field, d, o, r, th);
        // principia's square root of three is off by 1e-9, which the pole amplifies.
        out.push(rel(a, 1e-11 + 1e-11 / colatitude(x)));
    }
    for (on, b, gm) in [(cfg.third_body_sun, sun_geo(&w.sky, jd), GM_SUN), (cfg.third_body_moon, to_equatorial(w.sky.moon(jd)), GM_MOON)] {
        if on {
            out.push((third(r, b, gm), 1e-14 * gm / dot(b, b) + 1e-9 * gm * norm(r) / norm(b).powi(3) + 1e-11 * gm * norm(b) / norm(sub(b, r)).powi(3)));
        }
    }
    if let Some((cd, am)) = cfg.drag {
        let vr = sub(v, cross([0.0, 0.0, OMEGA], r));
        let rho = w.sky.rho(altitude(r));
        // rho * v^2 in SI, then back to km/s^2.
        let k = 0.5 * cd.value() * am.value() * rho * norm(vr) * 1e3 * norm(vr) * 1e3 / 1e3;
        out.push(rel(scale(vr, -k / norm(vr)), 1e-6 + 2.0 * altitude_tol(altitude(r)) / w.sky.h_scale));
    }
    if let Some((cr, am, sh)) = cfg.srp {
        let sun = sun_geo(&w.sky, jd);
        let d = sub(r, sun);
        let k = cr.value() * am.value() * 4.56e-6 * (AU / norm(d)).powi(2) / 1e3;
        out.push((scale(d, lit(r, sun, sh) * k / norm(d)), 1e-6 * k));
    }
    if cfg.relativity {
        let c2 = 299_792.458f64.powi(2);
        let rr = norm(r);
        let a = scale(add(scale(r, 4.0 * kepler::MU / rr - dot(v, v)), scale(v, 4.0 * dot(r, v))), kepler::MU / (c2 * rr.powi(3)));
        out.push((a, 1e-11 * (kepler::MU / (c2 * rr.powi(3))) * (4.0 * kepler::MU + rr * dot(v, v))));
    }
    if let Some((a, b, c)) = cfg.empirical_constant {
        out.push(rel(rtn(x, [a.value(), b.value(), c.value()]), 1e-11));
    }
    for (mult, e) in [(1.0, cfg.empirical_1cpr), (2.0, cfg.empirical_2cpr)] {
        if let Some((t0, per, c)) = e {
            let th = mult * std::f64::consts::TAU * (jd - t0.value()) * 86_400.0 / per.value();
            let q = |k: usize| c[k].value() * th.cos() + c[k + 1].value() * th.sin();
            let mag: f64 = c.iter().map(|v| v.value().abs()).sum();
            // Epochs as Julian dates resolve 40 microseconds.
            out.push((rtn(x, [q(0), q(2), q(4)]), mag * (1e-10 + 1e-3 / per.value())));
        }
    }
    out
}

/// Angle the Earth has turned at an instant of terrestrial time. The difference between
/// the two times is asked of the tree to the microsecond, and held against the measured one.
fn rotation(jd: f64) -> f64 {
    let ut = jd_ut1_from_tt(JulianDate::new(jd)).raw().value();
    let measured = super::almanac::delta_t(jd - 2_400_000.5);
    let ut = if ((jd - ut) * 86_400.0 - measured).abs() < 2.0 { ut } else { jd - measured / 86_400.0 };
    std::f64::consts::TAU * (0.779_057_273_264 + 1.002_737_811_911_354_5 * (ut - 2_451_545.0)).rem_euclid(1.0)
}

/// Sine of the angle from the axis, kept away from zero.
fn colatitude(x: S6) -> f64 {
    (x[0].hypot(x[1]) / norm([x[0], x[1], x[2]])).max(1e-6)
}

fn total(parts: &[(V3, f64)]) -> V3 {
    parts.iter().fold([0.0; 3], |a, p| add(a, p.0))
}

fn config(s: &mut Sim, w: &World, jd: f64) -> ForceModelConfig {
    let kms2 = KmPerSecondsSquared::new;
    let periodic = |s: &mut Sim| {
        let t0 = JulianDate::new(jd + s.f64(-1.0, 1.0));
        let c: [f64; 6] = std::array::from_fn(|_| s.normal() * 1e-10);
        (t0, Second::new(s.f64(3000.0, 20_000.0)), c.map(kms2))
    };
    let deg = s.int(0, w.field.max as i64);
    let ord = s.int(0, deg.min(w.field.max_order as i64));
    // The expansion starts at degree zero: it brings its own central and J2 terms (see `central`).
    let harmonics = if s.chance(1, 3) { Some((deg as usize, ord as usize)) } else { None };
    let (two_body, j2) = (s.chance(7, 8), s.chance(1, 2));
    ForceModelConfig {
        two_body: two_body && harmonics.is_none(),
        j2: j2 && harmonics.is_none(),
        harmonics,
        third_body_sun: s.chance(1, 3),
        third_body_moon: s.chance(1, 3),
        drag: if s.chance(1, 3) { Some((DragCoefficient::new(s.f64(1.0, 3.0)), AreaToMass::new(s.f64(0.001, 0.1)))) } else { None },
        srp: if s.chance(1, 3) {
            let sh = *s.pick(&[ShadowModel::None, ShadowModel::Cylindrical, ShadowModel::Conical]);
            Some((SrpCoefficient::new(s.f64(1.0, 2.0)), AreaToMass::new(s.f64(0.001, 0.1)), sh))
        } else {
            None
        },
        relativity: s.chance(1, 4),
        empirical_constant: if s.chance(1, 4) {
            let c: V3 = std::array::from_fn(|_| s.normal() * 1e-10);
            Some((kms2(c[0]), kms2(c[1]), kms2(c[2])))
        } else {
            None
        },
        empirical_1cpr: if s.chance(1, 4) { Some(periodic(s)) } else { None },
        empirical_2cpr: if s.chance(1, 4) { Some(periodic(s)) } else { None },
    }
}

fn uses(cfg: &ForceModelConfig) -> (bool, bool, bool) {
    (cfg.third_body_sun || cfg.third_body_moon || cfg.srp.is_some(), cfg.drag.is_some(), cfg.harmonics.is_some())
}

fn build(cfg: &ForceModelConfig) -> R<SiderustCompositeModel> {
    match no_panic("ForceModelRegistry::build", || ForceModelRegistry::with_builtins().build(&cfg.to_specs()))? {
        Ok(m) => Ok(m),
        Err(e) => viol!("refused", "{cfg:?}: {e}"),
    }
}

fn acc3(a: &Acceleration<GCRS>) -> V3 {
    [a.x().value(), a.y().value(), a.z().value()]
}

fn names(cfg: &ForceModelConfig) -> Vec<&'static str> {
    let mut v = vec![];
    let mut put = |on: bool, n: &'static str| {
        if on {
            v.push(n);
        }
    };
    put(cfg.two_body, "two_body");
    put(cfg.j2, "j2");
    put(cfg.harmonics.is_some(), "geopotential");
    put(cfg.third_body_sun, "third_body_sun");
    put(cfg.third_body_moon, "third_body_moon");
    put(cfg.drag.is_some(), "drag");
    put(cfg.srp.is_some(), "srp_cannonball");
    put(cfg.relativity, "relativity");
    put(cfg.empirical_constant.is_some(), "empirical_constant");
    put(cfg.empirical_1cpr.is_some(), "empirical_1cpr");
    put(cfg.empirical_2cpr.is_some(), "empirical_2cpr");
    v
}

// --- C20 -----------------------------------------------------------------------

/// A satellite position, sometimes placed relative to the shadow.
fn place(s: &mut Sim, w: &World, jd: f64) -> S6 {
    let mut x = kepler::orbit(s, (6550.0, 45_000.0), 0.6);
    if s.chance(1, 3) {
        // Behind the Earth, at an angle around the shadow edge.
        let sun = sun_geo(&w.sky, jd);
        let u = scale(sun, -1.0 / norm(sun));
        let mut p = cross(u, [s.normal(), s.normal(), s.normal()]);
        p = scale(p, 1.0 / norm(p).max(1e-9));
        let off = RE * s.f64(0.0, 1.3);
        let back = if s.chance(1, 4) { s.f64(200_000.0, 2_000_000.0) } else { s.f64(0.0, 45_000.0) };
        let r = add(scale(u, back), scale(p, off));
        if norm(r) > 6600.0 {
            x = kepler::join(r, [x[3], x[4], x[5]]);
        }
    }
    if s.chance(1, 12) {
        // Over a pole or on the equator, exactly or nearly.
        let r = norm([x[0], x[1], x[2]]);
        let t = *s.pick(&[0.0, 1e-9, 1e-3]);
        let p = if s.chance(1, 2) { [t, 0.0, r * if s.chance(1, 2) { 1.0 } else { -1.0 }] } else { [r, 0.0, t] };
        x = kepler::join(p, [x[3], x[4], x[5]]);
    }
    x
}

fn stack(s: &mut Sim) -> R {
    let w = World::new(s);
    let jd = w.sky.jd0 + s.f64(-30.0, 30.0);
    let cfg = config(s, &w, jd);
    let specs = cfg.to_specs();
    let got: Vec<&str> = specs.iter().map(|p| p.name.as_str()).collect();
    ensure!(got == names(&cfg), "specs", "{got:?} for {cfg:?}");
    let model = build(&cfg)?;
    ensure!(model.len() == got.len(), "specs", "{} models for {got:?}", model.len());
    let ctx = w.ctx(true, true, true);
    for _ in 0..s.int(1, 4) {
        let jdk = jd + s.f64(0.0, 1.0);
        let x = place(s, &w, jdk);
        let st = state(jdk, x);
        let jdk = st.epoch.to::<JD>().value();
        plan(&w.bus, None, false);
        let a = match no_panic("acceleration", || model.acceleration(&st, &ctx))? {
            Ok(a) => acc3(&a),
            Err(e) => viol!("refused", "acceleration at {x:?}: {e:?} ({cfg:?})"),
        };
        s.checked();
        s.h(format!("{x:?}").as_bytes());
        let parts = reference(&cfg, &w, x, jdk);
        let (want, tol) = (total(&parts), parts.iter().map(|p| p.1).sum::<f64>());
        // On the axis the expansion has no longitude; principia drops the horizontal part there.
        let polar = cfg.harmonics.is_some() && x[0].hypot(x[1]) < 1e-5 * x[2].abs();
        let jumpy = polar || matches!(cfg.srp, Some((_, _, ShadowModel::Cylindrical))) && edge([x[0], x[1], x[2]], sun_geo(&w.sky, jdk)) < 1e-3;
        if jumpy {
            s.probe("shadow_edge");
        } else {
            ensure!(norm(sub(a, want)) <= tol + 1e-300, "acceleration", "{a:?} expected {want:?}, {} off with tolerance {tol}; parts {:?} at {x:?} jd {jdk} of {:?}", norm(sub(a, want)), parts, names(&cfg));
        }
        // Every service was asked about this very instant.
        let log = w.bus.lock().unwrap().log.clone();
        for (svc, q) in &log {
            match svc {
                Svc::Sun | Svc::Earth | Svc::Moon => ensure!((q - jdk).abs() < 1e-9, "epoch", "{svc:?} asked at {q} for a state at {jdk}"),
                Svc::Density => ensure!((q - altitude([x[0], x[1], x[2]])).abs() < altitude_tol(*q), "altitude", "density asked at {q} km, altitude is {} km", altitude([x[0], x[1], x[2]])),
                _ => {}
            }
        }
        s.state(log.len() as u64);
        // Each contribution alone, and again in another order.
        let mut order: Vec<usize> = (0..specs.len()).collect();
        s.shuffle(&mut order);
        let shuffled: Vec<ForceModelSpec> = order.iter().map(|&i| specs[i].clone()).collect();
        let Ok(m2) = no_panic("build", || ForceModelRegistry::default().build(&shuffled))? else { viol!("refused", "{shuffled:?}") };
        let Ok(a2) = no_panic("acceleration", || m2.acceleration(&st, &ctx))? else { viol!("refused", "reordered stack") };
        ensure!(norm(sub(acc3(&a2), a)) <= 1e-13 * parts.iter().map(|p| norm(p.0)).sum::<f64>(), "order", "{:?} in one order, {a:?} in another", acc3(&a2));
        if !specs.is_empty() {
            let i = s.idx(specs.len());
            let Ok(one) = no_panic("build_one", || ForceModelRegistry::default().build_one(&specs[i]))? else { viol!("refused", "{:?}", specs[i]) };
            let Ok(b) = no_panic("acceleration", || one.acceleration(&st, &ctx))? else { viol!("refused", "{:?} alone", specs[i]) };
            ensure!(jumpy || norm(sub(acc3(&b), parts[i].0)) <= parts[i].1 + 1e-300, "acceleration", "{} alone: {:?} expected {:?} (tolerance {}) at {x:?} jd {jdk}", specs[i].name, acc3(&b), parts[i].0, parts[i].1);
        }
    }
    Ok(())
}

struct Stub(&'static str, f64, Shared);
struct StubFactory(&'static str, f64, Shared, bool);

impl AccelerationModel<DynamicsContext, TT, Geocentric, GCRS> for Stub {
    fn name(&self) -> &'static str {
        self.0
    }
    fn acceleration(&self, _: &OrbitState, _: &DynamicsContext) -> Result<Acceleration<GCRS>, PrincipiaError> {
        if call(&self.2, Svc::Model, self.1) {
            return Err(PrincipiaError::PropagationFailed { reason: "simulated outage" });
        }
        Ok(Acceleration::<GCRS>::new(self.1, 2.0 * self.1, -self.1))
    }
}

impl ForceModelFactory for StubFactory {
    fn name(&self) -> &'static str {
        self.0
    }
    fn build(&self, _: &ForceModelParams) -> Result<Box<DynSiderustForceModel>, PodDynamicsError> {
        if self.3 {
            return Err(PodDynamicsError::FeatureNotImplemented("simulated"));
        }
        Ok(Box::new(Stub(self.0, self.1, self.2.clone())))
    }
}

const BUILTIN: [&str; 12] = ["drag", "empirical_1cpr", "empirical_2cpr", "empirical_constant", "geopotential", "j2", "relativity", "srp_cannonball", "third_body_moon", "third_body_sun", "third_body_sun_moon", "two_body"];

/// Registration histories and specs with wrong parameters.
fn registry(s: &mut Sim) -> R {
    const NAMES: [&str; 5] = ["alpha", "beta", "drag", "two_body", "Alpha"];
    let bus: Shared = Arc::default();
    let builtins = s.chance(1, 2);
    let mut reg = if builtins { ForceModelRegistry::with_builtins() } else { ForceModelRegistry::new() };
    // name -> Some(value) for a stub, None for a builtin; bool: build refuses.
    let mut model: std::collections::BTreeMap<&str, (Option<f64>, bool)> = Default::default();
    if builtins {
        for n in BUILTIN {
            model.insert(n, (None, false));
        }
    }
    for k in 0..s.int(0, 8) {
        let n = *s.pick(&NAMES);
        let v = (k + 1) as f64;
        let bad = s.chance(1, 6);
        no_panic("register", || reg.register(Box::new(StubFactory(n, v, bus.clone(), bad))))?;
        model.insert(n, (Some(v), bad));
        let want: Vec<&str> = model.keys().copied().collect();
        ensure!(reg.names() == want, "registry", "names {:?} expected {want:?}", reg.names());
    }
    let st = state(2_460_000.5, [7000.0, 0.0, 0.0, 0.0, 7.5, 0.1]);
    let ctx = DynamicsContext::empty();
    let mut specs = vec![];
    let mut sum = 0.0;
    let mut fails = None;
    for _ in 0..s.int(0, 5) {
        let n = if s.chance(1, 5) { "gamma" } else { *s.pick(&NAMES) };
        ensure!(reg.is_registered(n) == model.contains_key(n), "registry", "is_registered({n})");
        specs.push(ForceModelSpec::named(n));
        if fails.is_none() {
            match model.get(n) {
                None => fails = Some("unknown"),
                Some((_, true)) => fails = Some("factory"),
                Some((Some(v), _)) => sum += v,
                Some((None, _)) if n == "drag" => fails = Some("parameters"),
                Some((None, _)) => sum += 1000.0,
            }
        }
    }
    s.h(format!("{specs:?}").as_bytes());
    let got = no_panic("build", || reg.build(&specs))?;
    s.checked();
    match (fails, got) {
        (Some("unknown"), Err(PodDynamicsError::UnknownModel(n))) => ensure!(n == "gamma" || !model.contains_key(n.as_str()), "registry", "{n} reported unknown"),
        (Some("factory"), Err(PodDynamicsError::FeatureNotImplemented(_))) => {
            s.fault("factory_failure");
        }
        (Some("parameters"), Err(PodDynamicsError::InvalidParameters { name, .. })) => ensure!(name == "drag", "registry", "{name} reported for drag"),
        (None, Ok(m)) => {
            ensure!(m.len() == specs.len(), "registry", "{} models for {} specs", m.len(), specs.len());
            let two = specs.iter().filter(|p| p.name == "two_body" && model["two_body"].0.is_none()).count() as f64;
            let Ok(a) = no_panic("acceleration", || m.acceleration(&st, &ctx))? else { viol!("refused", "stub stack") };
            let want = (sum - 1000.0 * two) * 2.0;
            ensure!((acc3(&a)[1] - want).abs() < 1e-9, "registry", "{:?} expected y {want} from {specs:?}", acc3(&a));
        }
        (f, g) => viol!("registry", "{specs:?}: expected {f:?}, got {}", match g { Ok(m) => format!("{} models", m.len()), Err(e) => e.to_string() }),
    }
    // Wrong parameter kinds for every builtin that needs parameters.
    let reg = ForceModelRegistry::with_builtins();
    let k = KmPerSecondsSquared::new(1e-9);
    let periodic = |h| ForceModelParams::EmpiricalPeriodic { harmonic: h, epoch_ref: JulianDate::new(2_460_000.5), period: Second::new(6000.0), coeffs: [k; 6] };
    let all = [
        ("geopotential", ForceModelParams::Geopotential { degree: 2, order: 0 }),
        ("drag", ForceModelParams::Drag { cd: DragCoefficient::new(2.0), area_to_mass: AreaToMass::new(0.01) }),
        ("srp_cannonball", ForceModelParams::SrpCannonball { cr: SrpCoefficient::new(1.0), area_to_mass: AreaToMass::new(0.01), shadow: ShadowModel::None }),
        ("empirical_constant", ForceModelParams::EmpiricalConstant { radial: k, transverse: k, normal: k }),
        ("empirical_1cpr", periodic(PeriodicHarmonic::OncePerRev)),
        ("empirical_2cpr", periodic(PeriodicHarmonic::TwicePerRev)),
        ("none", ForceModelParams::None),
        ("custom", ForceModelParams::Custom("x".into())),
    ];
    let (i, j) = (s.idx(6), s.idx(8));
    let r = no_panic("build_one", || reg.build_one(&ForceModelSpec::with_params(all[i].0, all[j].1.clone())).map(|_| ()))?;
    s.checked();
    if i != j {
        s.fault("wrong_parameters");
    }
    match r {
        Ok(()) => ensure!(i == j, "invalid-accepted", "{} built from {:?}", all[i].0, all[j].1),
        Err(PodDynamicsError::InvalidParameters { name, .. }) => ensure!(i != j && name == all[i].0, "refused", "{} from {:?} refused as {name}", all[i].0, all[j].1),
        Err(e) => viol!("refused", "{} from {:?}: {e}", all[i].0, all[j].1),
    }
    Ok(())
}

/// Selected effects count once, however they are combined.
fn central(s: &mut Sim) -> R {
    let w = World::new(s);
    let jd = w.sky.jd0;
    let deg = s.int(0, w.field.max as i64) as usize;
    let (two_body, j2) = (s.chance(3, 4), s.chance(1, 2));
    let cfg = ForceModelConfig { two_body, j2, harmonics: Some((deg, 0)), ..ForceModelConfig::default() };
    let x = place(s, &w, jd);
    let st = state(jd, x);
    let model = build(&cfg)?;
    let ctx = w.ctx(false, false, true);
    let Ok(a) = no_panic("acceleration", || model.acceleration(&st, &ctx))? else { viol!("refused", "{cfg:?}") };
    s.checked();
    s.h(format!("{x:?}").as_bytes());
    let parts = reference(&cfg, &w, x, jd);
    let field = parts.last().expect("field").0;
    // The field alone; below degree two the J2 model still adds something.
    let mut once = field;
    if j2 && deg < 2 {
        once = add(once, parts[parts.len() - 2].0);
    }
    // A library that swaps its J2 for the field's degree two is as good.
    let only = ForceModelConfig { two_body: false, j2: true, harmonics: None, ..cfg.clone() };
    let j = reference(&only, &w, x, jd)[0].0;
    let f20 = sub(harmonics(&w.field, 2, 0, [x[0], x[1], x[2]], 0.0), scale([x[0], x[1], x[2]], -kepler::MU / norm([x[0], x[1], x[2]]).powi(3)));
    let alt = if j2 && deg >= 2 { add(sub(field, f20), j) } else { once };
    let lim = (1e-9 + 1e-11 / colatitude(x)) * norm(field);
    let got = acc3(&a);
    if norm(sub(got, once)) <= lim || norm(sub(got, alt)) <= lim {
        return Ok(());
    }
    if norm(sub(got, total(&parts))) <= lim {
        viol!("harmonics-counted-on-top", "two_body {two_body}, j2 {j2} and harmonics to degree {deg} together pull {} times as hard as the field", norm(got) / norm(field));
    }
    viol!("acceleration", "{got:?} expected {once:?} of {:?}", names(&cfg));
}

/// The tree's own atmospheres and gravity fields follow the laws and tables they name.
fn services(s: &mut Sim) -> R {
    let mut w = World::new(s);
    let jd = w.sky.jd0;
    let x = place(s, &w, jd);
    let st = state(jd, x);
    s.h(format!("{x:?}").as_bytes());
    let rho = |p: &dyn DensityProvider, h: f64| no_panic("density", || p.density(Kilometers::new(h)).map(|d| d.value()));
    // Thin air: one exponential, a constant, a table joined by exponentials.
    let (rho0, h0, scale_h) = (10f64.powf(s.f64(-16.0, -8.0)), s.f64(0.0, 900.0), s.f64(5.0, 300.0));
    let exp = ExponentialAtmosphere { rho0: KilogramsPerCubicMeter::new(rho0), h0: Kilometers::new(h0), scale_height: Kilometers::new(scale_h) };
    let h = if s.chance(1, 4) { *s.pick(&[0.0, 100.0, 500.0, 1000.0, 1500.0]) } else { s.f64(0.0, 2500.0) };
    let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * b.abs();
    s.checked();
    match rho(&exp, h)? {
        Ok(d) => ensure!(close(d, rho0 * ((h0 - h) / scale_h).exp()), "density", "{exp:?} has {d} at {h} km"),
        Err(e) => viol!("refused", "{exp:?} at {h} km: {e}"),
    }
    let k = ConstantDensity { rho: KilogramsPerCubicMeter::new(rho0) };
    ensure!(matches!(rho(&k, h)?, Ok(d) if d == rho0), "density", "{k:?} at {h} km");
    ensure!(matches!(rho(&ExponentialAtmosphere::LEO_500KM, h)?, Ok(d) if close(d, 6.967e-13 * ((500.0 - h) / 63.822).exp())), "density", "the 500 km reference atmosphere at {h} km");
    let table: Vec<(f64, f64)> = siderust_archive::atmosphere::tables::NRLMSISE_TABLE.iter().map(|p| (p.0.value(), p.1.value())).collect();
    let at = s.below(table.len() as u64) as usize;
    let h = if s.chance(1, 3) { table[at].0 } else { h };
    let i = table.iter().rposition(|p| p.0 <= h).unwrap_or(0).min(table.len() - 2);
    let (a, b) = (table[i], table[i + 1]);
    let want = if h <= table[0].0 { table[0].1 } else { a.1 * (b.1 / a.1).powf((h - a.0) / (b.0 - a.0)) };
    match rho(&Nrlmsise00LiteApprox, h)? {
        Ok(d) => ensure!(close(d, want), "density", "table has {want} at {h} km, the model {d}"),
        Err(e) => viol!("refused", "table atmosphere at {h} km: {e}"),
    }
    let bad = *s.pick(&[f64::NAN, -1e-9, -30.0, f64::NEG_INFINITY]);
    for p in [&exp as &dyn DensityProvider, &Nrlmsise00LiteApprox, &ExponentialAtmosphere::LEO_500KM] {
        let d = rho(p, bad)?;
        ensure!(d.is_err(), "accepted", "{} gives {d:?} at an altitude of {bad} km", p.name());
    }
    // Drag through the tree's atmosphere is drag through the same air simulated.
    let air: Arc<dyn DensityProvider> = Arc::new(ExponentialAtmosphere { rho0: KilogramsPerCubicMeter::new(w.sky.rho0), h0: Kilometers::new(400.0), scale_height: Kilometers::new(w.sky.h_scale) });
    let cfg = ForceModelConfig { two_body: false, j2: false, drag: Some((DragCoefficient::new(2.2), AreaToMass::new(0.01))), ..ForceModelConfig::default() };
    let ctx = DynamicsContext::builder().with_atmosphere(air).build();
    match no_panic("acceleration", || build(&cfg).map(|m| m.acceleration(&st, &ctx)))?? {
        Ok(a) => {
            let want = reference(&cfg, &w, x, jd)[0];
            ensure!(norm(sub(acc3(&a), want.0)) <= want.1, "drag", "{x:?}: {:?} expected {:?} by {}", acc3(&a), want.0, want.1);
        }
        Err(e) => viol!("refused", "drag: {e}"),
    }
    // Gravity: the published coefficients, and none beyond the degree they reach.
    let egm = siderust_archive::gravity::tables::EGM2008_COEFFS;
    let low = s.chance(2, 3);
    let max = if low { 4 } else { 0 };
    w.field = Field { max, max_order: max, c: (0..=4).map(|n| vec![0.0; n + 1]).collect(), s: (0..=4).map(|n| vec![0.0; n + 1]).collect() };
    w.field.c[0][0] = 1.0;
    if low {
        for &(n, m, c, sn) in egm {
            if n <= 4 {
                w.field.c[n][m] = c;
                w.field.s[n][m] = sn;
            }
        }
        ensure!((w.field.c[2][0] + 4.841_651_437_908_15e-4).abs() < 1e-9 && (w.field.c[2][2] - 2.439_383_573_283e-6).abs() < 1e-11, "field", "coefficient table");
    }
    let field: Arc<dyn GravityFieldProvider + Send + Sync> = if low { Arc::new(LowDegreeEarth) } else { Arc::new(TwoBodyEarth) };
    ensure!(field.mu().value() == 398_600.441_8 && field.reference_radius().value() == 6_378.137 && field.max_degree() == max && field.max_order() == max, "field", "mu, radius or degree of the field");
    let n = s.below(7) as usize;
    let m = s.below(n as u64 + 1) as usize;
    let want = if n <= max && m <= n { (w.field.c[n][m], w.field.s[n][m]) } else { (0.0, 0.0) };
    let got = (field.c_normalized(n, m), field.s_normalized(n, m));
    let zero = |g: &Result<f64, PrincipiaError>, v: f64| matches!(g, Ok(a) if *a == v) || (v == 0.0 && g.is_err());
    ensure!(zero(&got.0, want.0) && zero(&got.1, want.1), "field", "coefficient {n},{m} is {got:?}, published {want:?}");
    let ctx = DynamicsContext::builder().with_gravity(field).build();
    let deg = s.int(0, 6) as usize;
    let ord = s.int(0, deg as i64) as usize;
    let cfg = ForceModelConfig { two_body: false, j2: false, harmonics: Some((deg, ord)), ..ForceModelConfig::default() };
    match no_panic("acceleration", || build(&cfg).map(|m| m.acceleration(&st, &ctx)))?? {
        Ok(a) if deg <= max => {
            let want = reference(&cfg, &w, x, jd)[0];
            // The tree's own gravitational parameter differs from the simulated one by rounding.
            // On the axis principia drops the terms of order one.
            let axis = if x[0].hypot(x[1]) < 1e-3 { 1e-4 } else { 1e-9 };
            ensure!(norm(sub(acc3(&a), want.0)) <= want.1 + axis * norm(want.0), "field", "{x:?} {deg},{ord}: {:?} expected {:?}", acc3(&a), want.0);
        }
        Ok(a) => viol!("accepted", "degree {deg} of a field of degree {max}: {:?}", acc3(&a)),
        Err(e) => ensure!(deg > max, "refused", "{deg},{ord} of a field of degree {max}: {e}"),
    }
    Ok(())
}

/// Degenerate geometry, missing services and impossible requests are errors.
fn limits(s: &mut Sim) -> R {
    let w = World::new(s);
    let jd = w.sky.jd0;
    let x = kepler::orbit(s, (6600.0, 9000.0), 0.05);
    let st = state(jd, x);
    let reg = ForceModelRegistry::with_builtins();
    let full = w.ctx(true, true, true);
    let k = KmPerSecondsSquared::new(1e-9);
    let drag = ForceModelSpec::with_params("drag", ForceModelParams::Drag { cd: DragCoefficient::new(2.0), area_to_mass: AreaToMass::new(0.01) });
    let geo = |d: usize, o: usize| ForceModelSpec::with_params("geopotential", ForceModelParams::Geopotential { degree: d, order: o });
    let rtn = ForceModelSpec::with_params("empirical_constant", ForceModelParams::EmpiricalConstant { radial: k, transverse: k, normal: k });
    let per = ForceModelSpec::with_params("empirical_1cpr", ForceModelParams::EmpiricalPeriodic { harmonic: PeriodicHarmonic::OncePerRev, epoch_ref: JulianDate::new(jd), period: Second::new(6000.0), coeffs: [k; 6] });
    let srp = ForceModelSpec::with_params("srp_cannonball", ForceModelParams::SrpCannonball { cr: SrpCoefficient::new(1.0), area_to_mass: AreaToMass::new(0.01), shadow: ShadowModel::Conical });
    let acc = |spec: &ForceModelSpec, st: &OrbitState, ctx: &DynamicsContext| no_panic("acceleration", || reg.build_one(spec).map(|m| m.acceleration(st, ctx).map(|a| acc3(&a)).map_err(DynamicsError::from)));
    macro_rules! refused {
        ($what:expr, $spec:expr, $st:expr, $ctx:expr, $($pat:pat_param)|+) => {{
            s.checked();
            match acc(&$spec, &$st, &$ctx)? {
                Ok(Err($($pat)|+)) => {}
                Ok(Err(e)) => viol!("wrong-error", "{}: {e:?}", $what),
                Ok(Ok(a)) => viol!("accepted", "{}: acceleration {a:?}", $what),
                Err(e) => viol!("refused", "{}: {e}", $what),
            }
        }};
    }
    match s.below(8) {
        0 => {
            s.fault("service_missing");
            let c = w.ctx(false, true, true);
            let spec = s.pick(&[ForceModelSpec::named("third_body_sun"), ForceModelSpec::named("third_body_moon"), ForceModelSpec::named("third_body_sun_moon"), srp]).clone();
            refused!("no ephemeris", spec, st, c, DynamicsError::EphemerisUnavailable { .. });
        }
        1 => {
            s.fault("service_missing");
            refused!("no atmosphere", drag, st, w.ctx(true, false, true), DynamicsError::AtmosphereProviderError(_));
        }
        2 => {
            s.fault("service_missing");
            refused!("no gravity field", geo(2, 2), st, w.ctx(true, true, false), DynamicsError::GravityFieldUnavailable);
        }
        3 => {
            let extra = s.int(1, 3) as usize;
            let d = w.field.max + extra;
            match acc(&geo(d, 0), &st, &full)? {
                Ok(Err(_)) => {}
                x => viol!("accepted", "degree {d} of a field of degree {}: {x:?}", w.field.max),
            }
        }
        4 => match acc(&geo(1, 2), &st, &full)? {
            Ok(Err(_)) => {}
            x => viol!("accepted", "order above degree: {x:?}"),
        },
        5 => {
            // Inside the Earth there is no drag altitude.
            let h = s.f64(20.0, 3000.0);
            let r = norm([x[0], x[1], x[2]]);
            let u = scale([x[0], x[1], x[2]], (6378.0 - 22.0 - h) / r);
            refused!("drag below the surface", drag, state(jd, kepler::join(u, [x[3], x[4], x[5]])), full, DynamicsError::AltitudeBelowSurface { .. } | DynamicsError::DegenerateGeometry { .. });
        }
        6 => {
            // No orbital plane, no RTN axes.
            let v = scale([x[0], x[1], x[2]], *s.pick(&[0.0, 1.0 / 1024.0, -1.0 / 1024.0]));
            let spec = if s.chance(1, 2) { rtn } else { per };
            let bad = state(jd, [x[0], 0.0, 0.0, v[0], 0.0, 0.0]);
            refused!("RTN of a radial trajectory", spec, bad, full, DynamicsError::DegenerateGeometry { .. });
        }
        _ => {
            // Custom third bodies: none, or several that add up.
            let empty = ThirdBody::new();
            let c = DynamicsContext::empty();
            let Ok(a) = no_panic("acceleration", || empty.acceleration(&st, &c))? else { viol!("refused", "no bodies, no ephemeris needed") };
            ensure!(acc3(&a) == [0.0; 3], "acceleration", "no bodies pull {:?}", acc3(&a));
            let both = ThirdBody::new().with_moon().with_sun().with_moon();
            let Ok(a) = no_panic("acceleration", || both.acceleration(&st, &full))? else { viol!("refused", "sun and moons") };
            let jd = st.epoch.to::<JD>().value();
            let r = [x[0], x[1], x[2]];
            let want = add(third(r, sun_geo(&w.sky, jd), GM_SUN), scale(third(r, to_equatorial(w.sky.moon(jd)), GM_MOON), 2.0));
            s.checked();
            ensure!(norm(sub(acc3(&a), want)) <= 1e-6 * norm(want) + 1e-19, "acceleration", "{:?} expected {want:?}", acc3(&a));
        }
    }
    Ok(())
}

pub static C20: Prop = Prop {
    id: "C20",
    scenarios: &[("stack", 4, stack), ("registry", 2, registry), ("limits", 2, limits), ("services", 1, services), ("central", 1, central)],
    runs_quick: 1_000_000,
    runs_thorough: 60_000_000,
    rule: "stack: a random force configuration is built through the registry and evaluated at random states and epochs over simulated ephemeris, atmosphere and gravity services; the sum, a reordering and single contributions are compared with independently coded accelerations and the services' query log with the state's epoch and altitude. registry: register/replace/build histories against a map; wrong parameter kinds. limits: missing services, degenerate geometry, requests beyond the field. Distinct = distinct hash of states and specs.",
    real: &["pod::force::{ForceModelConfig, ForceModelRegistry}", "astro::dynamics::forces (drag, srp, third body, geopotential, relativity, empirical)", "pod::force::empirical_periodic", "astro::dynamics::density::geodetic_altitude", "principia (two-body, J2, composite)"],
    stub: &["ephemeris, atmosphere and gravity-field services"],
    assumptions: &["positions above the surface except where tested; Earth rotation from UT1, taken from the tree and held against the measured difference"],
};

// --- C18 -----------------------------------------------------------------------

/// A force model that also counts as a service and can fail (with partials).
struct Flaky<'a>(&'a SiderustCompositeModel, Shared);

impl AccelerationModel<DynamicsContext, TT, Geocentric, GCRS> for Flaky<'_> {
    fn name(&self) -> &'static str {
        "flaky"
    }
    fn acceleration(&self, st: &OrbitState, ctx: &DynamicsContext) -> Result<Acceleration<GCRS>, PrincipiaError> {
        if call(&self.1, Svc::Model, 0.0) {
            return Err(PrincipiaError::PropagationFailed { reason: "simulated outage" });
        }
        self.0.acceleration(st, ctx)
    }
    fn partials(&self, st: &OrbitState, ctx: &DynamicsContext) -> Result<AccelerationPartials<GCRS>, PrincipiaError> {
        if call(&self.1, Svc::Model, 1.0) {
            return Err(PrincipiaError::PropagationFailed { reason: "simulated outage" });
        }
        self.0.partials(st, ctx)
    }
}

/// What a client gets from one propagation.
#[derive(Debug, Clone)]
enum Out {
    Bits(Vec<u64>),
    Err(&'static str, String),
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

fn sbits(st: &OrbitState) -> Vec<u64> {
    let mut v = bits(&vec6(st));
    v.push(st.epoch.to::<JD>().value().to_bits());
    v
}

fn category(e: &DynamicsError) -> &'static str {
    match e {
        DynamicsError::EphemerisUnavailable { .. } => "ephemeris",
        DynamicsError::AtmosphereProviderError(_) => "atmosphere",
        DynamicsError::GravityCoefficientUnavailable { .. } | DynamicsError::GravityFieldUnavailable => "gravity",
        DynamicsError::InvalidStepRequest { .. } => "step",
        DynamicsError::DegenerateGeometry { .. } | DynamicsError::AltitudeBelowSurface { .. } => "geometry",
        _ => "other",
    }
}

fn pod_out<T>(r: Result<T, PodDynamicsError>, f: impl Fn(T) -> Vec<u64>) -> Out {
    match r {
        Ok(v) => Out::Bits(f(v)),
        Err(PodDynamicsError::Dynamics(siderust::pod::propagation::DynamicsError::Upstream(e))) => Out::Err(category(&e), e.to_string()),
        Err(e) => Out::Err("other", e.to_string()),
    }
}

fn low_out<T>(r: Result<T, siderust::pod::propagation::DynamicsError>, f: impl Fn(T) -> Vec<u64>) -> Out {
    pod_out(r.map_err(PodDynamicsError::from), f)
}

fn up_out<T>(r: Result<T, DynamicsError>, f: impl Fn(T) -> Vec<u64>) -> Out {
    low_out(r.map_err(siderust::pod::propagation::DynamicsError::from), f)
}

const CLIENTS: [&str; 10] = ["rk4", "dopri5", "dop853", "orbit", "spacecraft", "facade_rk4", "facade_dopri5", "events", "arc", "partials"];

struct Job {
    client: &'static str,
    st: OrbitState,
    dt: f64,
    step: f64,
}

fn run_job(j: &Job, m: &Flaky, w: &World, ctx: &dyn Fn() -> DynamicsContext) -> R<Out> {
    let tol = IntegratorTolerances::uniform(1e-9, 1e-6, 1e-9);
    let dt = Second::new(j.dt);
    let rk = Rk4Integrator { step: Second::new(j.step) };
    let pc = PropagatorConfig { tolerances: tol, max_steps: 100_000, event_dt: None };
    let c = ctx();
    no_panic(j.client, || match j.client {
        "rk4" => low_out(rk.propagate(m, j.st, dt, &c), |s| sbits(&s)),
        "dopri5" => low_out(Dopri5Integrator { tolerances: tol }.propagate(m, j.st, dt, &c), |s| sbits(&s)),
        "dop853" => low_out(Dop853Integrator { tolerances: tol }.propagate(m, j.st, dt, &c), |s| sbits(&s)),
        "orbit" => pod_out(propagate_orbit(&rk, m, j.st, dt, &c), |s| sbits(&s)),
        "spacecraft" => {
            let p = SpacecraftProperties::demo_leo();
            pod_out(propagate_spacecraft(&rk, m, SpacecraftState { orbit: j.st, properties: p }, dt, &c), |s| {
                let q = s.properties;
                let mut v = sbits(&s.orbit);
                v.extend(bits(&[q.mass.value(), q.drag_area.value(), q.cd.value(), q.srp_area.value(), q.cr.value()]));
                v
            })
        }
        "facade_rk4" => {
            let f = Flaky(m.0, w.bus.clone());
            up_out(Propagator::new(FixedRk4Adapter::new(Second::new(j.step)), f, pc, ctx()).propagate(j.st, dt), |s| sbits(&s))
        }
        "facade_dopri5" => {
            let f = Flaky(m.0, w.bus.clone());
            up_out(Propagator::new(principia::Dopri5::new(tol), f, pc, ctx()).propagate(j.st, dt), |s| sbits(&s))
        }
        "events" => {
            let f = Flaky(m.0, w.bus.clone());
            let e = RadialThresholdEvent::new(Kilometers::new(7000.0)).direction(EventDirection::Either);
            up_out(Propagator::new(principia::Dopri5::new(tol), f, pc, ctx()).propagate_with_events(j.st, dt, e), |r| {
                let mut v: Vec<u64> = r.samples.iter().flat_map(sbits).collect();
                v.extend(r.events.iter().flat_map(|e| sbits(&e.state)));
                v.push(r.steps_taken as u64);
                v
            })
        }
        "arc" => {
            let n = 4;
            pod_out(VariationalPropagator { step: Second::new(j.dt / n as f64) }.propagate(m, j.st, n, &c), |a| {
                a.steps.iter().flat_map(|(s, p)| sbits(s).into_iter().chain(p.as_array().iter().flat_map(|r| bits(r))).collect::<Vec<_>>()).collect()
            })
        }
        _ => pod_out(param_partials_central_diff(&rk, j.st, dt, &c, 1.0, 1e-3, |_| Flaky(m.0, w.bus.clone())), |p| bits(&p.0)),
    })
}

fn want_category(svc: Svc) -> &'static [&'static str] {
    match svc {
        Svc::Sun | Svc::Earth | Svc::Moon => &["ephemeris"],
        Svc::Density => &["atmosphere"],
        Svc::Gravity => &["gravity"],
        Svc::Model => &["step"],
    }
}

fn outage(s: &mut Sim) -> R {
    let w = World::new(s);
    let client = *s.pick(&CLIENTS);
    let jd = w.sky.jd0 + s.f64(0.0, 1.0);
    let mut cfg = config(s, &w, jd);
    cfg.two_body = cfg.harmonics.is_none();
    let mut x = kepler::orbit(s, (6700.0, 9000.0), 0.1);
    if client == "arc" {
        // Only these models provide partials.
        cfg = ForceModelConfig { j2: cfg.j2, ..ForceModelConfig::default() };
    }
    if matches!(cfg.srp, Some((_, _, ShadowModel::Cylindrical))) {
        x = kepler::orbit(s, (20_000.0, 30_000.0), 0.1);
    }
    let mut dt = s.f64(10.0, 600.0);
    if s.chance(1, 3) {
        dt = -dt;
    }
    let j = Job { client, st: state(jd, x), dt, step: s.f64(10.0, 120.0) };
    let comp = build(&cfg)?;
    let m = Flaky(&comp, w.bus.clone());
    let ctx = || w.ctx(true, true, true);
    // Undisturbed run.
    plan(&w.bus, None, false);
    let clean = run_job(&j, &m, &w, &ctx)?;
    let calls = w.bus.lock().unwrap().calls;
    let guess = matches!(client, "dopri5" | "dop853");
    // Calls before the third evaluation of the force model.
    let guess_calls = w.bus.lock().unwrap().log.iter().enumerate().filter(|(_, l)| l.0 == Svc::Model).nth(2).map_or(0, |l| l.0 as u64);
    s.checked();
    s.advance((dt.abs() * 1e9) as u64);
    s.h(format!("{client}{x:?}{cfg:?}").as_bytes());
    let Out::Bits(want) = &clean else { viol!("refused", "{client} over {dt} s of {:?} without any fault: {clean:?}", names(&cfg)) };
    ensure!(want.iter().all(|b| f64::from_bits(*b).is_finite()), "non-finite", "{client}: {want:?}");
    ensure!(calls > 0, "service-ignored", "{client} never evaluated the force model");
    // The k-th service call fails.
    let k = s.below(calls);
    let sticky = s.chance(1, 3);
    plan(&w.bus, Some(k), sticky);
    let got = run_job(&j, &m, &w, &ctx)?;
    let fired = w.bus.lock().unwrap().fired;
    s.checked();
    let Some(svc) = fired else { viol!("schedule", "{client} made fewer calls the second time ({k} of {calls} never reached)") };
    let c = CLIENTS.iter().position(|c| *c == client).unwrap_or(0) as u64;
    s.state(c << 16 | (svc as u64) << 8 | u64::from(sticky) << 7 | (k * 16 / calls.max(1)));
    s.fault(match svc {
        Svc::Sun | Svc::Earth | Svc::Moon => "ephemeris_outage",
        Svc::Density => "atmosphere_outage",
        Svc::Gravity => "gravity_outage",
        Svc::Model => "force_model_outage",
    });
    match &got {
        // An adaptive integrator may do without the two evaluations that only guess its first step.
        Out::Bits(b) if guess && k < guess_calls => {
            s.probe("step_guess_lost");
            let off = (0..3).map(|i| (f64::from_bits(b[i]) - f64::from_bits(want[i])).powi(2)).sum::<f64>().sqrt();
            ensure!(off < 1e-3, "failure-lost", "{client}: {svc:?} failed during the step guess and the result moved by {off} km");
        }
        Out::Err(..) if guess && k < guess_calls && sticky => {}
        Out::Bits(_) => viol!("failure-lost", "{client} over {dt} s returned a result although {svc:?} call {k} of {calls} failed"),
        Out::Err(c, e) => ensure!(want_category(svc).iter().any(|k| k.as_bytes() == c.as_bytes()), "wrong-error", "{client}: {svc:?} failed but the error is '{e}'"),
    }
    // Recovery: the retry is the undisturbed run.
    plan(&w.bus, None, false);
    match run_job(&j, &m, &w, &ctx)? {
        Out::Bits(b) => ensure!(b == *want, "retry-differs", "{client}: the run after an outage differs from the undisturbed run"),
        e => viol!("no-recovery", "{client} after the outage ended: {e:?}"),
    }
    s.checked();
    // A service that is not there at all.
    let (eph, air, grav) = uses(&cfg);
    let mut missing = vec![];
    if eph {
        missing.push("ephemeris");
    }
    if air {
        missing.push("atmosphere");
    }
    if grav {
        missing.push("gravity");
    }
    if !missing.is_empty() && client != "arc" {
        let which = *s.pick(&missing);
        s.fault("service_missing");
        let part = || w.ctx(which != "ephemeris", which != "atmosphere", which != "gravity");
        match run_job(&j, &m, &w, &part)? {
            Out::Err(c, _) if c == which => {}
            o => viol!("failure-lost", "{client} without {which}: {o:?}"),
        }
        s.checked();
    }
    Ok(())
}

/// Several clients share one world and take turns segment by segment, some of
/// them hit by outages and retrying from their last good state.
fn shared(s: &mut Sim) -> R {
    let w = World::new(s);
    let jd = w.sky.jd0;
    let n = s.int(2, 4) as usize;
    let mut cfgs = vec![];
    let mut xs = vec![];
    let mut comps = vec![];
    for _ in 0..n {
        let mut c = config(s, &w, jd);
        c.two_body = c.harmonics.is_none();
        comps.push(build(&c)?);
        cfgs.push(c);
        xs.push(state(jd, kepler::orbit(s, (6700.0, 9000.0), 0.1)));
    }
    let segs = s.int(1, 4) as usize;
    let seg = Second::new(s.f64(20.0, 120.0));
    let rk = Rk4Integrator { step: Second::new(s.f64(10.0, 60.0)) };
    let ctx = w.ctx(true, true, true);
    // Alone.
    plan(&w.bus, None, false);
    let mut want = vec![];
    for i in 0..n {
        let mut st = xs[i];
        for _ in 0..segs {
            st = match no_panic("rk4", || rk.propagate(&comps[i], st, seg, &ctx))? {
                Ok(x) => x,
                Err(e) => viol!("refused", "{e}"),
            };
        }
        want.push(st);
    }
    // Together.
    let mut cur = xs.clone();
    let mut done = vec![0usize; n];
    while done.iter().any(|d| *d < segs) {
        let live: Vec<usize> = (0..n).filter(|&i| done[i] < segs).collect();
        let i = *s.pick(&live);
        s.h(&[i as u8]);
        let fail = if s.chance(1, 4) { Some(s.below(60)) } else { None };
        plan(&w.bus, fail, s.chance(1, 2));
        let m = Flaky(&comps[i], w.bus.clone());
        let r = no_panic("rk4", || rk.propagate(&m, cur[i], seg, &ctx))?;
        s.checked();
        let fired = w.bus.lock().unwrap().fired;
        match (r, fired) {
            (Ok(x), None) => {
                cur[i] = x;
                done[i] += 1;
            }
            (Err(_), Some(_)) => {
                s.fault("outage_in_turn");
            }
            (Ok(_), Some(f)) => viol!("failure-lost", "a failing {f:?} call was ignored"),
            (Err(e), None) => viol!("refused", "{e}"),
        }
        s.advance((seg.value() * 1e9) as u64);
    }
    for i in 0..n {
        ensure!(sbits(&cur[i]) == sbits(&want[i]), "interference", "client {i} of {n} got {:?}, alone {:?}", vec6(&cur[i]), vec6(&want[i]));
    }
    Ok(())
}

/// Intervals and steps that are not numbers are refused by every client.
fn nonsense(s: &mut Sim) -> R {
    let w = World::new(s);
    let cfg = ForceModelConfig { j2: s.chance(1, 2), ..ForceModelConfig::default() };
    let comp = build(&cfg)?;
    let m = Flaky(&comp, w.bus.clone());
    let client = *s.pick(&CLIENTS);
    let x = kepler::orbit(s, (6700.0, 9000.0), 0.1);
    let bad = *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let mut j = Job { client, st: state(w.sky.jd0, x), dt: 60.0, step: 20.0 };
    plan(&w.bus, None, false);
    s.h(format!("{client}{bad}").as_bytes());
    s.fault("invalid_interval");
    let stepper = matches!(client, "rk4" | "orbit" | "spacecraft" | "facade_rk4" | "partials");
    let what = if stepper && s.chance(1, 2) {
        j.step = *s.pick(&[f64::NAN, 0.0]);
        "step"
    } else {
        j.dt = bad;
        "interval"
    };
    // Safety net: an endless propagation stops when its service fails for good.
    plan(&w.bus, Some(20_000), true);
    let out = run_job(&j, &m, &w, &|| w.ctx(true, true, true))?;
    s.checked();
    ensure!(w.bus.lock().unwrap().fired.is_none(), "endless", "{client} keeps integrating with dt {} step {}", j.dt, j.step);
    ensure!(matches!(out, Out::Err(..)), "invalid-accepted", "{client} with {what} dt {} step {}: {out:?}", j.dt, j.step);
    // Zero interval: nothing happens.
    let mut z = Job { client, st: state(w.sky.jd0, x), dt: 0.0, step: 20.0 };
    if s.chance(1, 2) {
        z.dt = -0.0;
    }
    plan(&w.bus, None, false);
    let out = run_job(&z, &m, &w, &|| w.ctx(true, true, true))?;
    s.checked();
    if !matches!(client, "events" | "arc" | "partials") {
        let Out::Bits(b) = &out else { viol!("refused", "{client} over zero seconds: {out:?}") };
        ensure!(b[..7] == sbits(&z.st)[..], "zero", "{client} over zero seconds moved the state");
    }
    Ok(())
}

pub static C18: Prop = Prop {
    id: "C18",
    scenarios: &[("outage", 4, outage), ("shared", 1, shared), ("nonsense", 1, nonsense)],
    runs_quick: 400_000,
    runs_thorough: 20_000_000,
    rule: "outage: one of ten propagation clients over a random force stack; the k-th call to any service (ephemeris, atmosphere, gravity, force model) fails once or for good, k uniform over the calls of the undisturbed run; error and category required, then bit-identical retry; then each service missing altogether. shared: 2-4 clients take turns on one world with outages and retries, each must end where it ends alone. nonsense: non-finite intervals and steps. Distinct = distinct hash of client, state, configuration and turn order.",
    real: &["pod::propagation (integrators, adapter, variational)", "astro::dynamics::propagation", "astro::dynamics::{forces, errors, context}", "pod::force", "principia integrators"],
    stub: &["ephemeris, atmosphere, gravity-field services and a force-model wrapper that can fail"],
    assumptions: &["services fail by returning an error, not by returning non-finite values"],
};

// --- C19 -----------------------------------------------------------------------

fn ref_rhs(cfg: &ForceModelConfig, w: &World, x: S6, jd: f64) -> S6 {
    let a = total(&reference(cfg, w, x, jd));
    [x[3], x[4], x[5], a[0], a[1], a[2]]
}

fn axpy(x: &S6, k: &S6, h: f64) -> S6 {
    std::array::from_fn(|i| x[i] + h * k[i])
}

fn ref_rk4(cfg: &ForceModelConfig, w: &World, mut x: S6, jd0: f64, dt: f64, n: usize) -> S6 {
    let h = dt / n as f64;
    for i in 0..n {
        let t = |f: f64| jd0 + (i as f64 + f) * h / 86_400.0;
        let k1 = ref_rhs(cfg, w, x, t(0.0));
        let k2 = ref_rhs(cfg, w, axpy(&x, &k1, h / 2.0), t(0.5));
        let k3 = ref_rhs(cfg, w, axpy(&x, &k2, h / 2.0), t(0.5));
        let k4 = ref_rhs(cfg, w, axpy(&x, &k3, h), t(1.0));
        x = std::array::from_fn(|j| x[j] + h / 6.0 * (k1[j] + 2.0 * k2[j] + 2.0 * k3[j] + k4[j]));
    }
    x
}

fn dist(a: &S6, b: &S6) -> (f64, f64) {
    (norm(sub([a[0], a[1], a[2]], [b[0], b[1], b[2]])), norm(sub([a[3], a[4], a[5]], [b[3], b[4], b[5]])))
}

/// Full propagation against an independent integrator over the reference forces.
fn twin(s: &mut Sim) -> R {
    let w = World::new(s);
    let jd = w.sky.jd0 + s.f64(0.0, 1.0);
    let mut cfg = config(s, &w, jd);
    cfg.two_body = cfg.harmonics.is_none();
    cfg.srp = cfg.srp.map(|(a, b, sh)| (a, b, if sh == ShadowModel::Cylindrical { ShadowModel::Conical } else { sh }));
    let x = kepler::orbit(s, (6650.0, 12_000.0), 0.3);
    let step = s.f64(5.0, 60.0);
    let mut dt = if s.chance(1, 4) { step * s.int(1, 20) as f64 } else { s.f64(0.5, 1500.0) };
    if s.chance(1, 3) {
        dt = -dt;
    }
    let comp = build(&cfg)?;
    let ctx = w.ctx(true, true, true);
    let st = state(jd, x);
    let jd = st.epoch.to::<JD>().value();
    let rk = Rk4Integrator { step: Second::new(if s.chance(1, 4) { -step } else { step }) };
    let facade = s.chance(1, 3);
    let res = no_panic("rk4", || {
        if facade {
            let pc = PropagatorConfig { tolerances: IntegratorTolerances::uniform(1e-9, 1e-6, 1e-9), max_steps: 100_000, event_dt: None };
            Propagator::new(FixedRk4Adapter::new(rk.step), comp, pc, ctx).propagate(st, Second::new(dt)).map_err(|e| e.to_string())
        } else {
            rk.propagate(&comp, st, Second::new(dt), &ctx).map_err(|e| e.to_string())
        }
    })?;
    let y = match res {
        Ok(y) => y,
        Err(e) => viol!("refused", "{e}"),
    };
    s.checked();
    s.advance((dt.abs() * 1e9) as u64);
    s.h(format!("{x:?}{dt}{step}").as_bytes());
    let n = (dt.abs() / step).ceil().max(1.0) as usize;
    let want = ref_rk4(&cfg, &w, x, jd, dt, n);
    let (dr, dv) = dist(&vec6(&y), &want);
    // Harmonics and the drag altitude limit the agreement of the force models.
    let mut lim = 1e-8 + 1e-13 * dt * dt;
    if facade {
        // full steps and a short last one instead of equal steps
        let m = ((dt.abs() / step).floor() as usize).max(1);
        let (er, ev) = dist(&ref_rk4(&cfg, &w, x, jd, dt, m), &ref_rk4(&cfg, &w, x, jd, dt, 2 * m));
        lim += 0.5 * er + 100.0 * ev;
    }
    ensure!(dr <= lim * 10.0 && dv <= lim / 50.0, "trajectory", "{dr} km, {dv} km/s off after {dt} s in steps of {step} with {:?}", names(&cfg));
    let el = (y.epoch - st.epoch).value();
    ensure!((el - dt).abs() <= 1e-6, "epoch", "{el} s elapsed, {dt} asked");
    // No evaluation step was longer than asked for: the sky was sampled at least that often.
    let mut q: Vec<f64> = w.bus.lock().unwrap().log.iter().filter(|l| matches!(l.0, Svc::Sun | Svc::Moon)).map(|l| l.1).collect();
    if q.len() > 4 && q.len() < 4000 {
        q.sort_by(f64::total_cmp);
        let gap = q.windows(2).map(|p| (p[1] - p[0]) * 86_400.0).fold(0.0, f64::max);
        ensure!(gap <= step + 1e-3, "step", "services went {gap} s without being asked, step is {step} s");
    }
    Ok(())
}

/// Two-body propagation by every client against the analytic solution; composition and reversal.
fn analytic(s: &mut Sim) -> R {
    let x = kepler::orbit(s, (6600.0, 30_000.0), 0.7);
    let per = kepler::period(x, kepler::MU);
    let jd = 2_460_000.5 + s.f64(0.0, 100.0);
    let mut dt = per * s.f64(0.0, 1.5);
    if s.chance(1, 3) {
        dt = -dt;
    }
    let tb = TwoBody::new(GravitationalParameter::new(kepler::MU));
    let st = state(jd, x);
    let want = kepler::kepler(x, dt, kepler::MU);
    let rp = norm([x[0], x[1], x[2]]).min(norm([want[0], want[1], want[2]]));
    let ctx = DynamicsContext::empty();
    let tol = IntegratorTolerances::uniform(1e-10, 1e-7, 1e-10);
    let pc = PropagatorConfig { tolerances: tol, ..PropagatorConfig::default() };
    let step = Second::new(s.f64(5.0, 40.0));
    let d = Second::new(dt);
    let which = s.below(7);
    let leg = |st: OrbitState, d: Second| {
        no_panic("propagate", || match which {
            0 => Rk4Integrator { step }.propagate(&tb, st, d, &ctx).map_err(|e| e.to_string()),
            1 => Dopri5Integrator { tolerances: tol }.propagate(&tb, st, d, &ctx).map_err(|e| e.to_string()),
            2 => Dop853Integrator { tolerances: tol }.propagate(&tb, st, d, &ctx).map_err(|e| e.to_string()),
            3 => Propagator::new(FixedRk4Adapter::new(step), tb, pc.clone(), DynamicsContext::empty()).propagate(st, d).map_err(|e| e.to_string()),
            4 => Propagator::new(principia::Dopri5::new(tol), tb, pc.clone(), DynamicsContext::empty()).propagate(st, d).map_err(|e| e.to_string()),
            5 => Propagator::new(principia::Dop853::new(tol), tb, pc.clone(), DynamicsContext::empty()).propagate(st, d).map_err(|e| e.to_string()),
            _ => Propagator::new(principia::Dopri5::new(tol), tb, pc.clone(), DynamicsContext::empty()).propagate_with_stm(st, d).map(|x| x.0).map_err(|e| e.to_string()),
        })
    };
    let y = match leg(st, d)? {
        Ok(y) => y,
        Err(e) => viol!("refused", "client {which} over {dt} s: {e}"),
    };
    s.checked();
    s.advance((dt.abs() * 1e9) as u64);
    s.h(format!("{which}{x:?}{dt}").as_bytes());
    let (dr, dv) = dist(&vec6(&y), &want);
    let _ = rp;
    ensure!(dr <= 0.5 && dv <= 1e-3, "trajectory", "client {which}: {dr} km and {dv} km/s from the analytic orbit {x:?} after {dt} s (step {step:?})");
    ensure!(((y.epoch - st.epoch).value() - dt).abs() <= 1e-6, "epoch", "client {which}: {} s elapsed, {dt} asked", (y.epoch - st.epoch).value());
    // Crash and restart: the run is cut anywhere and continued from the saved state.
    let cut = dt * s.unit();
    let mid = match leg(st, Second::new(cut))? {
        Ok(m) => m,
        Err(e) => viol!("refused", "client {which} over {cut} s: {e}"),
    };
    s.fault("restart_from_checkpoint");
    let saved = OrbitState::new(mid.epoch, mid.position, mid.velocity);
    let left = (st.epoch + d - saved.epoch).value();
    let z = match leg(saved, Second::new(left))? {
        Ok(z) => z,
        Err(e) => viol!("refused", "client {which} over the remaining {left} s: {e}"),
    };
    s.checked();
    let (dr, dv) = dist(&vec6(&z), &vec6(&y));
    ensure!(dr <= 1.0 && dv <= 2e-3, "restart", "client {which}: continuing from {cut} s ends {dr} km, {dv} km/s away");
    ensure!((z.epoch - y.epoch).value().abs() <= 1e-5, "restart", "client {which}: epochs differ");
    // And back.
    let b = match leg(y, Second::new(-dt))? {
        Ok(b) => b,
        Err(e) => viol!("refused", "client {which} backwards: {e}"),
    };
    s.checked();
    let (dr, dv) = dist(&vec6(&b), &x);
    ensure!(dr <= 1.0 && dv <= 2e-3, "reversal", "client {which}: forth and back ends {dr} km, {dv} km/s away");
    ensure!((b.epoch - st.epoch).value().abs() <= 1e-5, "reversal", "client {which}: epoch after forth and back");
    Ok(())
}

fn sym(p: &M6) -> f64 {
    // Hamiltonian flow: PHI' J PHI = J.
    let mut j = [[0.0; 6]; 6];
    for i in 0..3 {
        j[i][i + 3] = 1.0;
        j[i + 3][i] = -1.0;
    }
    let q = mul(&mul(&tr(p), &j), p);
    let mut worst = 0.0f64;
    for a in 0..6 {
        for b in 0..6 {
            let sc: f64 = (0..6).map(|k| (p[k][a] * p[(k + 3) % 6][b]).abs()).sum::<f64>().max(1.0);
            worst = worst.max((q[a][b] - j[a][b]).abs() / sc);
        }
    }
    worst
}

/// State-transition matrices: finite differences, cumulation, symplecticity; arcs step by step.
fn stm(s: &mut Sim) -> R {
    let x = kepler::orbit(s, (6700.0, 20_000.0), 0.3);
    let jd = 2_460_000.5;
    let n = s.int(0, 6) as usize;
    let mut h = s.f64(10.0, 400.0);
    if s.chance(1, 4) {
        h = -h;
    }
    let with_j2 = s.chance(1, 2);
    let cfg = ForceModelConfig { j2: with_j2, ..ForceModelConfig::default() };
    let w = World::new(s);
    let comp = build(&cfg)?;
    let ctx = DynamicsContext::empty();
    let st = state(jd, x);
    let vp = VariationalPropagator { step: Second::new(h) };
    let arc = match no_panic("VariationalPropagator", || vp.propagate(&comp, st, n, &ctx))? {
        Ok(a) => a,
        Err(e) => viol!("refused", "{e}"),
    };
    s.checked();
    s.advance((h.abs() * n as f64 * 1e9) as u64);
    s.h(format!("{x:?}{h}{n}").as_bytes());
    ensure!(arc.len() == n && arc.is_empty() == (n == 0) && arc.final_state().is_some() == (n > 0) && arc.final_stm().is_some() == (n > 0), "arc", "{} steps, {n} asked", arc.len());
    for (k, (y, phi)) in arc.steps.iter().enumerate() {
        let t = h * (k + 1) as f64;
        ensure!(((y.epoch - st.epoch).value() - t).abs() <= 1e-6, "epoch", "step {k} at {} s, expected {t}", (y.epoch - st.epoch).value());
        let sub = (t.abs() / 5.0).ceil() as usize;
        let flow = |x: S6| if with_j2 { ref_rk4(&cfg, &w, x, jd, t, sub) } else { kepler::kepler(x, t, kepler::MU) };
        let (dr, dv) = dist(&vec6(y), &flow(x));
        ensure!(dr <= 1e-2 && dv <= 1e-5, "trajectory", "step {k}: {dr} km {dv} km/s off");
        let p = phi.as_array();
        ensure!(sym(p) <= 1e-6, "symplectic", "step {k}: {}", sym(p));
        if k + 1 == n {
            let mut worst = 0.0f64;
            for c in 0..6 {
                let e = if c < 3 { 0.05 } else { 5e-5 };
                let (mut a, mut b) = (x, x);
                a[c] += e;
                b[c] -= e;
                let (fa, fb) = (flow(a), flow(b));
                for r in 0..6 {
                    let num = (fa[r] - fb[r]) / (2.0 * e);
                    // Scale each block: 1, s; 1/s, 1.
                    let sc = match (r < 3, c < 3) {
                        (true, true) | (false, false) => 1.0 + t.abs() / 300.0,
                        (true, false) => 1.0 + t.abs(),
                        (false, true) => 1e-3,
                    };
                    worst = worst.max((num - p[r][c]).abs() / sc);
                }
            }
            ensure!(worst <= 2e-4, "stm", "after {t} s the transition matrix misses the difference quotient by {worst}: {p:?}");
        }
    }
    // An arc cut and continued elsewhere: same states, and the matrices chain.
    if n > 1 {
        let cut = s.int(1, n as i64 - 1) as usize;
        s.fault("restart_from_checkpoint");
        let (a0, p0) = arc.steps[cut - 1];
        let rest = match no_panic("VariationalPropagator", || vp.propagate(&comp, a0, n - cut, &ctx))? {
            Ok(a) => a,
            Err(e) => viol!("refused", "{e}"),
        };
        for k in 0..n - cut {
            ensure!(sbits(&rest.steps[k].0) == sbits(&arc.steps[cut + k].0), "restart", "state {k} after the restart differs");
            let chain = mul(rest.steps[k].1.as_array(), p0.as_array());
            let full = arc.steps[cut + k].1.as_array();
            for i in 0..6 {
                for j in 0..6 {
                    let sc: f64 = (0..6).map(|q| (rest.steps[k].1.as_array()[i][q] * p0.as_array()[q][j]).abs()).sum();
                    ensure!((chain[i][j] - full[i][j]).abs() <= 1e-11 * sc + 1e-300, "chain", "PHI[{i}][{j}] {} from the chain, {} cumulated", chain[i][j], full[i][j]);
                }
            }
        }
        s.checked();
    }
    // The published linearity check measures what the matrix misses, either way in time.
    let big = s.f64(0.001, 40.0);
    let mut d6 = [0.0; 6];
    for (c, d) in d6.iter_mut().enumerate() {
        *d = s.f64(-1.0, 1.0) * if c < 3 { big } else { 1e-3 * big };
    }
    let t = h * n.max(1) as f64;
    let sub = if s.chance(1, 2) { 5.0 } else { -5.0 };
    let got = match no_panic("max_rel_stm_predict_error", || max_rel_stm_predict_error(&comp, st, Second::new(t), Second::new(sub), d6, &ctx))? {
        Ok(e) => e,
        Err(e) => viol!("refused", "{e}"),
    };
    let phi = match no_panic("propagate_stm", || propagate_stm(&comp, st, Second::new(t), &ctx))? {
        Ok(y) => *y.1.as_array(),
        Err(e) => viol!("refused", "{e}"),
    };
    let fine = (t.abs() / 5.0).ceil() as usize;
    let flow = |x: S6| if with_j2 { ref_rk4(&cfg, &w, x, jd, t, fine) } else { kepler::kepler(x, t, kepler::MU) };
    let mut moved = x;
    for c in 0..6 {
        moved[c] += d6[c];
    }
    let (fa, fb) = (flow(moved), flow(x));
    let act: Vec<f64> = (0..6).map(|i| fa[i] - fb[i]).collect();
    let sc = act.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let want = (0..6).map(|i| (act[i] - (0..6).map(|c| phi[i][c] * d6[c]).sum::<f64>()).abs() / sc).fold(0.0, f64::max);
    let slack = 2e-3 / sc.max(1e-3) * 1e-3 + 0.02 * want;
    ensure!((got - want).abs() <= slack + 1e-7, "linearity", "linear prediction of {d6:?} over {t} s said to miss by {got}, it misses by {want}");
    // Central differences in a parameter: here GM.
    let eps = kepler::MU * s.f64(1e-8, 1e-6);
    let mut asked = vec![];
    let dt = s.f64(10.0, 900.0);
    let rk = Rk4Integrator { step: Second::new(5.0) };
    let col = no_panic("param_partials", || {
        param_partials_central_diff(&rk, st, Second::new(dt), &ctx, kepler::MU, eps, |p| {
            asked.push(p);
            TwoBody::new(GravitationalParameter::new(p))
        })
    })?;
    let col = match col {
        Ok(c) => c,
        Err(e) => viol!("refused", "{e}"),
    };
    s.checked();
    asked.sort_by(f64::total_cmp);
    ensure!(asked == vec![kepler::MU - eps, kepler::MU + eps], "partials", "model built at {asked:?}");
    let (fa, fb) = (kepler::kepler(x, dt, kepler::MU + 50.0), kepler::kepler(x, dt, kepler::MU - 50.0));
    for i in 0..6 {
        let want = (fa[i] - fb[i]) / 100.0;
        let sc = if i < 3 { dt * dt / 1e7 } else { dt / 1e7 };
        ensure!((col.0[i] - want).abs() <= 3e-3 * sc.max(1e-8) + 1e-6 * want.abs() + 1e-12 * 7000.0 / eps, "partials", "d/dGM component {i}: {} expected {want} over {dt} s", col.0[i]);
    }
    let bad = *s.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY]);
    ensure!(matches!(param_partials_central_diff(&rk, st, Second::new(dt), &ctx, 1.0, bad, |_| J2::new(GravitationalParameter::new(1.0), Kilometers::new(1.0), 0.0)), Err(PodDynamicsError::InvalidParamStep(_))), "invalid-accepted", "epsilon {bad}");
    Ok(())
}

/// Event watching: every crossing is reported once, in order, where it happens.
fn events(s: &mut Sim) -> R {
    let x = kepler::orbit(s, (6700.0, 9000.0), 0.2);
    let per = kepler::period(x, kepler::MU);
    let mut dt = per * s.f64(0.1, 2.0);
    if s.chance(1, 4) {
        dt = -dt;
    }
    let (rv, v) = kepler::rv(x);
    let a = 1.0 / (2.0 / norm(rv) - dot(v, v) / kepler::MU);
    let thr = a * s.f64(0.85, 1.15);
    let dir = *s.pick(&[EventDirection::Rising, EventDirection::Falling, EventDirection::Either]);
    let term = s.chance(1, 4);
    let out = if s.chance(1, 2) { Some(s.f64(20.0, 400.0)) } else { None };
    let tol = IntegratorTolerances::uniform(1e-10, 1e-7, 1e-10);
    let pc = PropagatorConfig { tolerances: tol, max_steps: 100_000, event_dt: out.map(Second::new) };
    let tb = TwoBody::new(GravitationalParameter::new(kepler::MU));
    let st = state(2_460_000.5, x);
    let ev = RadialThresholdEvent::new(Kilometers::new(thr)).direction(dir).terminal(term);
    let step = s.f64(5.0, 30.0);
    let fixed = s.chance(1, 2);
    let res = no_panic("propagate_with_events", || {
        if fixed {
            Propagator::new(FixedRk4Adapter::new(Second::new(step)), tb, pc.clone(), DynamicsContext::empty()).propagate_with_events(st, Second::new(dt), ev)
        } else {
            Propagator::new(principia::Dopri5::new(tol), tb, pc.clone(), DynamicsContext::empty()).propagate_with_events(st, Second::new(dt), ev)
        }
    })?;
    let r = match res {
        Ok(r) => r,
        Err(e) => viol!("refused", "events over {dt} s, fixed {fixed} step {step}, output every {out:?}: {e}"),
    };
    s.checked();
    s.advance((dt.abs() * 1e9) as u64);
    s.h(format!("{x:?}{dt}{thr}").as_bytes());
    let sg = dt.signum();
    let at = |q: &OrbitState| (q.epoch - st.epoch).value() * sg;
    ensure!(r.samples.windows(2).all(|p| at(&p[1]) >= at(&p[0])), "samples", "out of order");
    ensure!(at(&r.samples[0]) == 0.0, "samples", "first sample at {}", at(&r.samples[0]));
    let end = at(r.samples.last().expect("sample"));
    let hit = term && !r.events.is_empty();
    if !hit {
        ensure!((end - dt.abs()).abs() <= 1e-6, "samples", "ends at {end} of {dt}");
        if let Some(o) = out {
            let n = (dt.abs() / o + 1e-9).floor() as usize;
            for k in 1..=n {
                ensure!(r.samples.iter().any(|q| (at(q) - o * k as f64).abs() < 1e-6), "samples", "no sample at {} s (every {o} s over {dt} s, fixed {fixed} step {step})", o * k as f64);
            }
        }
    }
    for q in &r.samples {
        let (dr, _) = dist(&vec6(q), &kepler::kepler(x, at(q) * sg, kepler::MU));
        ensure!(dr <= 1.0, "trajectory", "sample at {} s is {dr} km off", at(q));
    }
    if fixed {
        ensure!(hit || r.steps_taken as f64 >= dt.abs() / step - 1e-6, "step", "{} steps of at most {step} s covered {dt} s", r.steps_taken);
        ensure!(r.steps_taken as f64 <= dt.abs() / step.min(30.0) + out.map_or(0.0, |o| dt.abs() / o) + 3.0, "steps", "{} steps of {step} s for {dt} s with output every {out:?}", r.steps_taken);
        // Fine steps: the crossings are those of the analytic orbit.
        let g = |t: f64| { let y = kepler::kepler(x, t * sg, kepler::MU); norm([y[0], y[1], y[2]]) - thr };
        let mut want = vec![];
        let m = (dt.abs() / 2.0).ceil() as usize;
        let stepw = dt.abs() / m as f64;
        let mut near = false;
        for k in 0..m {
            let (g0, g1) = (g(k as f64 * stepw), g((k + 1) as f64 * stepw));
            near |= g0.abs() < 1.5;
            let ok = match dir {
                EventDirection::Rising => g0 < 0.0 && g1 >= 0.0,
                EventDirection::Falling => g0 > 0.0 && g1 <= 0.0,
                EventDirection::Either => g0 * g1 < 0.0,
            };
            if ok {
                want.push((k as f64 + g0.abs() / (g0.abs() + g1.abs())) * stepw);
            }
        }
        // Grazing passages and crossings at the ends are ambiguous.
        let rate = want.iter().all(|t| ((g(t + 5.0) - g(t - 5.0)) / 10.0).abs() > 0.05 && *t > 40.0 && *t < dt.abs() - 40.0);
        let _ = near;
        let graze = (a * (1.0 - ecc(x)) - thr).abs() < 3.0 || (a * (1.0 + ecc(x)) - thr).abs() < 3.0 || g(0.0).abs() < 3.0 || g(dt.abs()).abs() < 3.0;
        if rate && !graze && !term {
            let got: Vec<f64> = r.events.iter().map(|e| at(&e.state)).collect();
            ensure!(got.len() == want.len(), "events", "crossings of {thr} km at {want:?}, reported at {got:?} ({dir:?})");
            for (x, y) in got.iter().zip(&want) {
                ensure!((x - y).abs() <= 15.0, "events", "crossing at {y} s reported at {x} s");
            }
        }
        if term && !want.is_empty() && rate && !graze {
            ensure!(r.events.len() == 1 && end <= want[0] + 61.0, "events", "terminal event at {} s, run went on to {end} s", want[0]);
        }
    }
    Ok(())
}

fn ecc(x: S6) -> f64 {
    let (r, v) = kepler::rv(x);
    let h = cross(r, v);
    norm(sub(scale(cross(v, h), 1.0 / kepler::MU), scale(r, 1.0 / norm(r))))
}

pub static C19: Prop = Prop {
    id: "C19",
    scenarios: &[("twin", 2, twin), ("analytic", 2, analytic), ("stm", 1, stm), ("events", 1, events)],
    runs_quick: 50_000,
    runs_thorough: 3_000_000,
    rule: "twin: a random force stack integrated by the library and by an independent fixed-step integrator over independently coded forces; analytic: seven propagation clients against the closed two-body solution, then cut anywhere and restarted from the saved state, then run backwards; stm: arcs of transition matrices against difference quotients of an independent flow, symplecticity, chaining across a restart, parameter partials; events: threshold crossings and output samples against the analytic orbit. Distinct = distinct hash of client, state and interval.",
    real: &["pod::propagation (all)", "astro::dynamics::propagation (Propagator, FixedRk4Adapter)", "pod::force and astro::dynamics::forces", "principia integrators"],
    stub: &["ephemeris, atmosphere, gravity-field services"],
    assumptions: &["elliptic orbits above 6600 km, eccentricity up to 0.7, steps 5-60 s, up to two revolutions"],
};
