//! Independent two-body solution (Lagrange f and g) and small vector helpers.

pub const MU: f64 = 398_600.441_8;
pub type V3 = [f64; 3];
pub type S6 = [f64; 6];

pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn norm(a: V3) -> f64 {
    dot(a, a).sqrt()
}
pub fn scale(a: V3, k: f64) -> V3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn rv(s: S6) -> (V3, V3) {
    ([s[0], s[1], s[2]], [s[3], s[4], s[5]])
}
pub fn join(r: V3, v: V3) -> S6 {
    [r[0], r[1], r[2], v[0], v[1], v[2]]
}

/// Elliptic two-body motion over `dt` seconds.
pub fn kepler(s: S6, dt: f64, mu: f64) -> S6 {
    let (r0v, v0v) = rv(s);
    let r0 = norm(r0v);
    let a = 1.0 / (2.0 / r0 - dot(v0v, v0v) / mu);
    assert!(a > 0.0, "elliptic orbits only");
    let n = (mu / a.powi(3)).sqrt();
    let period = std::f64::consts::TAU / n;
    let dt = dt - (dt / period).round() * period;
    let sig = dot(r0v, v0v) / (mu * a).sqrt();
    let m = n * dt;
    let f = |e: f64| e + sig * (1.0 - e.cos()) - (1.0 - r0 / a) * e.sin() - m;
    // Bracketed Newton: f is monotone.
    let (mut lo, mut hi) = (m - 4.0, m + 4.0);
    let mut e = m;
    for _ in 0..100 {
        let v = f(e);
        if v > 0.0 {
            hi = e;
        } else {
            lo = e;
        }
        let d = 1.0 + sig * e.sin() - (1.0 - r0 / a) * e.cos();
        let mut nx = e - v / d;
        if !(nx > lo && nx < hi) {
            nx = 0.5 * (lo + hi);
        }
        if (nx - e).abs() < 1e-16 * (1.0 + e.abs()) {
            e = nx;
            break;
        }
        e = nx;
    }
    let (c, sn) = (e.cos(), e.sin());
    let r = a + (r0 - a) * c + sig * a * sn;
    let ff = 1.0 - a / r0 * (1.0 - c);
    let g = dt - (e - sn) / n;
    let fd = -(mu * a).sqrt() / (r * r0) * sn;
    let gd = 1.0 - a / r * (1.0 - c);
    join(add(scale(r0v, ff), scale(v0v, g)), add(scale(r0v, fd), scale(v0v, gd)))
}

/// Period of the osculating ellipse.
pub fn period(s: S6, mu: f64) -> f64 {
    let (r, v) = rv(s);
    let a = 1.0 / (2.0 / norm(r) - dot(v, v) / mu);
    std::f64::consts::TAU * (a.powi(3) / mu).sqrt()
}

/// A bound orbit of any orientation with the given perigee radius and eccentricity.
pub fn orbit(s: &mut crate::core::Sim, rp: (f64, f64), emax: f64) -> S6 {
    let q = s.f64(rp.0, rp.1);
    let e = match s.below(4) {
        0 => 0.0,
        _ => s.f64(0.0, emax),
    };
    let nu = s.f64(0.0, std::f64::consts::TAU);
    let (i, w, o) = (s.f64(0.0, std::f64::consts::PI), s.f64(0.0, 6.283), s.f64(0.0, 6.283));
    let p = q * (1.0 + e);
    let r = p / (1.0 + e * nu.cos());
    let k = (MU / p).sqrt();
    let (x, y, vx, vy) = (r * nu.cos(), r * nu.sin(), -k * nu.sin(), k * (e + nu.cos()));
    let rot = |x: f64, y: f64| {
        let (x1, y1) = (x * w.cos() - y * w.sin(), x * w.sin() + y * w.cos());
        let (y2, z2) = (y1 * i.cos(), y1 * i.sin());
        [x1 * o.cos() - y2 * o.sin(), x1 * o.sin() + y2 * o.cos(), z2]
    };
    join(rot(x, y), rot(vx, vy))
}
