//! C24: event searches over a simulated sky (and the real one), window by window.

use crate::core::{no_panic, Sim, R};
use crate::{ensure, viol, Prop};
use siderust::astro::apparent::CorrectionPolicy;
use siderust::bodies::solar_system::{Jupiter, Mars, Moon, Sun, Venus};
use siderust::bodies::Star;
use siderust::coordinates::spherical::position::EquatorialMeanJ2000;
use siderust::qtty::length::nominal::SolarRadiuses;
use siderust::qtty::{LightYears, SolarLuminosities, SolarMasses};
use siderust::targets::CoordinateWithPM;
use siderust::coordinates::cartesian::{Position, Velocity};
use siderust::coordinates::centers::{Barycentric, Geocentric, Geodetic, Heliocentric};
use siderust::coordinates::frames::{EclipticMeanJ2000, ECEF};
use siderust::coordinates::spherical::direction;
use siderust::ephemeris::{AuPerDay, Ephemeris};
use siderust::event::altitude::{above_threshold, altitude_ranges, below_threshold, crossings, culminations, AltitudeProvider, CrossingDirection, CulminationKind, SearchOpts};
use siderust::event::azimuth::{azimuth_crossings, azimuth_extrema, azimuth_ranges, in_azimuth_range, outside_azimuth_range, AzimuthExtremumKind, AzimuthProvider, AzimuthQuery};
use siderust::event::lunar::phase::{find_phase_events, illumination_above, illumination_below, illumination_range, moon_phase_geocentric, MoonPhaseLabel, MoonPhaseSeries, PhaseKind, PhaseSearchOpts};
use siderust::qtty::unit::{AstronomicalUnit, Kilometer, LightYear};
use siderust::qtty::{Days, Degrees, IlluminationFractions, Meters, Radians};
use siderust::time::{Interval, JulianDate, ModifiedJulianDate};
use std::cell::{Cell, RefCell};
use std::f64::consts::{PI, TAU};

pub(super) type Site = Geodetic<ECEF>;
pub(super) type Win = Interval<ModifiedJulianDate>;

pub(super) fn mjd(t: f64) -> ModifiedJulianDate {
    ModifiedJulianDate::new(t)
}
pub(super) fn win(a: f64, b: f64) -> Win {
    Interval::new(mjd(a), mjd(b))
}
pub(super) fn days(t: ModifiedJulianDate) -> f64 {
    t.raw().value()
}
pub(super) fn wrap(x: f64) -> f64 {
    (x + PI).rem_euclid(TAU) - PI
}

// --- reference search ------------------------------------------------------------

/// Sign changes of `f` over `[a, b]` (time, rising) and whether `f(a) > 0`; `None`
/// where the answer hangs by a hair (grazing, or a change at the very edge).
pub(super) fn changes(f: &dyn Fn(f64) -> f64, a: f64, b: f64, step: f64, margin: f64, edge: f64, steep: f64, apart: f64) -> Option<(Vec<(f64, bool)>, bool)> {
    let n = (((b - a) / step).ceil() as usize).clamp(2, 200_000);
    let ts: Vec<f64> = (0..=n).map(|i| if i == n { b } else { a + (b - a) * i as f64 / n as f64 }).collect();
    let v: Vec<f64> = ts.iter().map(|t| f(*t)).collect();
    if v.iter().any(|x| !x.is_finite()) {
        return None;
    }
    let mut out = vec![];
    // One sample beyond either end, so that a turn close to an end is seen as well.
    let h = (b - a) / n as f64;
    let at = |i: isize| if i < 0 { f(a - h) } else if i > n as isize { f(b + h) } else { v[i as usize] };
    for i in 0..=n as isize {
        let (p, q, r) = (at(i - 1), at(i), at(i + 1));
        if (q - p) * (r - q) <= 0.0 {
            // Turning point: a parabola tells how close it comes to zero.
            let c = p - 2.0 * q + r;
            let ext = if c.abs() > 1e-300 { q - (r - p) * (r - p) / (8.0 * c) } else { q };
            if ext.abs() < margin + 0.05 * (ext - q).abs() + 0.02 * c.abs() || (ext > 0.0) != (q > 0.0) {
                return None;
            }
        }
    }
    if [a + edge, a - edge].iter().any(|t| (f(*t) > 0.0) != (v[0] > 0.0)) || [b + edge, b - edge].iter().any(|t| (f(*t) > 0.0) != (v[n] > 0.0)) {
        return None;
    }
    for i in 0..n {
        if (v[i] > 0.0) != (v[i + 1] > 0.0) {
            let (mut lo, mut hi) = (ts[i], ts[i + 1]);
            let rising = v[i + 1] > 0.0;
            for _ in 0..60 {
                let m = 0.5 * (lo + hi);
                if (f(m) > 0.0) == rising {
                    hi = m;
                } else {
                    lo = m;
                }
            }
            let (m, h) = (0.5 * (lo + hi), 0.02 * step);
            if (f(m + h) - f(m - h)).abs() < 2.0 * h * steep {
                return None;
            }
            out.push((m, rising));
        }
    }
    if out.windows(2).any(|x| x[1].0 - x[0].0 < apart) {
        return None;
    }
    if out.iter().any(|x| x.0 - a < edge || b - x.0 < edge) || (v[0].abs() < 1e-9) || v[n].abs() < 1e-9 {
        return None;
    }
    Some((out, v[0] > 0.0))
}

pub(super) fn periods(ch: &[(f64, bool)], start: bool, a: f64, b: f64) -> Vec<(f64, f64)> {
    let mut out = vec![];
    let mut since = start.then_some(a);
    for (t, up) in ch {
        match (since, up) {
            (None, true) => since = Some(*t),
            (Some(s), false) => {
                out.push((s, *t));
                since = None;
            }
            _ => {}
        }
    }
    if let Some(s) = since {
        out.push((s, b));
    }
    out
}

pub(super) fn meet(x: &[(f64, f64)], y: &[(f64, f64)]) -> Vec<(f64, f64)> {
    let mut out = vec![];
    for p in x {
        for q in y {
            let (a, b) = (p.0.max(q.0), p.1.min(q.1));
            if a < b {
                out.push((a, b));
            }
        }
    }
    out.sort_by(|p, q| p.0.total_cmp(&q.0));
    out
}

pub(super) fn without(x: &[(f64, f64)], a: f64, b: f64) -> Vec<(f64, f64)> {
    let mut out = vec![];
    let mut t = a;
    for p in x {
        if p.0 > t {
            out.push((t, p.0));
        }
        t = t.max(p.1);
    }
    if t < b {
        out.push((t, b));
    }
    out
}

pub(super) fn same(what: &'static str, got: &[Win], want: &[(f64, f64)], tol: f64, ctx: &str) -> R {
    let g: Vec<(f64, f64)> = got.iter().map(|p| (days(p.start), days(p.end))).collect();
    if g.len() != want.len() || g.iter().zip(want).any(|(x, y)| !((x.0 - y.0).abs() <= tol && (x.1 - y.1).abs() <= tol)) {
        viol!(what, "{what}: {g:?}, the sky says {want:?} ({ctx})");
    }
    Ok(())
}

/// Turning points of `f` in `[a, b]`: (time, value, maximum). `None` if two are closer
/// than `apart` or the curve is too flat to tell.
pub(super) fn turns(f: &dyn Fn(f64) -> f64, a: f64, b: f64, step: f64, apart: f64, flat: f64) -> Option<Vec<(f64, f64, bool)>> {
    let n = (((b - a) / step).ceil() as usize).clamp(4, 200_000);
    let h = (b - a) / n as f64;
    // One sample beyond either end, so that a turn right at the edge is seen as well.
    let v: Vec<f64> = (0..=n + 2).map(|i| f(a + (i as f64 - 1.0) * h)).collect();
    if v.iter().any(|x| !x.is_finite()) {
        return None;
    }
    if v.iter().fold(f64::NEG_INFINITY, |m, x| m.max(*x)) - v.iter().fold(f64::INFINITY, |m, x| m.min(*x)) < 10.0 * flat {
        return None;
    }
    let mut out: Vec<(f64, f64, bool)> = vec![];
    for i in 1..=n + 1 {
        let (p, q, r) = (v[i - 1], v[i], v[i + 1]);
        if (q - p) * (r - q) > 0.0 {
            continue;
        }
        if (p - 2.0 * q + r).abs() < flat {
            return None;
        }
        let max = q >= p && q >= r;
        let t = a + (i as f64 - 1.0) * h;
        let (mut lo, mut hi) = (t - h, t + h);
        for _ in 0..80 {
            let (x, y) = (lo + (hi - lo) * 0.382, lo + (hi - lo) * 0.618);
            if (f(x) < f(y)) == max {
                lo = x;
            } else {
                hi = y;
            }
        }
        let m = 0.5 * (lo + hi);
        if out.last().is_some_and(|l| m - l.0 < apart) {
            return None;
        }
        out.push((m, f(m), max));
    }
    Some(out)
}

/// Compare reported extrema with the sampled ones; those within `edge` of an end of
/// the window may or may not be reported.
fn same_turns(what: &'static str, got: &[(f64, f64, bool)], want: &[(f64, f64, bool)], w: (f64, f64), edge: f64, tol: (f64, f64), ctx: &str) -> R {
    let mut i = 0;
    for x in want {
        let near = x.0 - w.0 < edge || w.1 - x.0 < edge;
        let hit = got.get(i).filter(|g| (g.0 - x.0).abs() <= tol.0.max(1e-12) && g.2 == x.2 && wrap(g.1 - x.1).abs() <= tol.1);
        if hit.is_some() {
            i += 1;
        } else if !near {
            viol!(what, "{what}: reported {got:?}, the sky has {want:?} in {w:?} ({ctx})");
        }
    }
    ensure!(i == got.len(), what, "{what}: reported {got:?}, the sky has {want:?} in {w:?} ({ctx})");
    Ok(())
}

// --- the simulated sky ------------------------------------------------------------

#[derive(Clone, Debug)]
struct Body {
    a: f64,
    b: f64,
    c: f64,
    w: f64,
    ph: f64,
    k: f64,
    ph3: f64,
    t0: f64,
    rate: f64,
    az0: f64,
    swing: f64,
    wa: f64,
    hint: Option<f64>,
    gap: Option<(f64, f64)>,
    calls: Cell<u64>,
}

impl Body {
    fn sinh(&self, t: f64) -> f64 {
        let x = t - self.t0;
        self.a + self.b * (self.w * x + self.ph).cos() + self.c * (self.k * self.w * x + self.ph3).cos()
    }
    fn lift(&self, t: f64) -> f64 {
        let x = t - self.t0;
        self.az0 + self.rate * x + self.swing * (self.wa * x).sin()
    }
    fn lost(&self, t: f64) -> bool {
        self.calls.set(self.calls.get() + 1);
        assert!(self.calls.get() < 3_000_000, "event search does not come to an end");
        self.gap.is_some_and(|g| t >= g.0 && t <= g.1)
    }
}

impl AltitudeProvider for Body {
    fn altitude_at(&self, _: &Site, t: ModifiedJulianDate) -> Radians {
        if self.lost(days(t)) {
            return Radians::new(f64::NAN);
        }
        Radians::new(self.sinh(days(t)).clamp(-1.0, 1.0).asin())
    }
    fn scan_step_hint(&self) -> Option<Days> {
        self.hint.map(Days::new)
    }
}

impl AzimuthProvider for Body {
    fn azimuth_at(&self, _: &Site, t: ModifiedJulianDate) -> Radians {
        if self.lost(days(t)) {
            return Radians::new(f64::NAN);
        }
        Radians::new(self.lift(days(t)).rem_euclid(TAU))
    }
    fn azimuth_periods(&self, q: &AzimuthQuery) -> Vec<Win> {
        vec![q.window]
    }
    fn scan_step_hint(&self) -> Option<Days> {
        self.hint.map(Days::new)
    }
}

fn body(s: &mut Sim, t0: f64) -> Body {
    let (period, hint) = match s.below(4) {
        0 => (0.99726957, None),
        1 => (*s.pick(&[1.0, 1.0350, 0.5, 27.3]), None),
        2 => {
            // A satellite: the provider says how finely it wants to be scanned.
            let p = s.f64(0.06, 0.4);
            (p, Some(p / 64.0))
        }
        _ => (s.f64(0.5, 3.0), Some(*s.pick(&[1.0 / 128.0, 1.0 / 64.0, 1.0 / 256.0]))),
    };
    let (mut a, mut b, mut c) = (s.f64(-1.0, 1.0), s.f64(0.1, 1.0), 0.0);
    if s.chance(1, 3) {
        c = s.f64(-0.6, 0.6);
    }
    let n = (a.abs() + b.abs() + c.abs()) / s.f64(0.2, 1.0);
    a /= n;
    b /= n;
    c /= n;
    let w = TAU / period;
    Body { a, b, c, w, ph: s.f64(-PI, PI), k: s.int(2, 3) as f64, ph3: s.f64(-PI, PI), t0, rate: 0.0, az0: 0.0, swing: 0.0, wa: w, hint, gap: None, calls: Cell::new(0) }
}

pub(super) fn site(s: &mut Sim) -> Site {
    let lat = match s.below(6) {
        0 => *s.pick(&[0.0, 90.0, -90.0, 66.56, -23.44]),
        1 => s.f64(-90.0, 90.0),
        _ => s.f64(-65.0, 65.0),
    };
    let lon = match s.below(4) {
        0 => *s.pick(&[0.0, 180.0, -180.0, 90.0]),
        _ => s.f64(-180.0, 180.0),
    };
    let h = s.f64(0.0, 4000.0);
    Site::new(Degrees::new(lon), Degrees::new(lat), Meters::new(h))
}

pub(super) fn opts(s: &mut Sim) -> (SearchOpts, f64) {
    let t = *s.pick(&[1e-9, 1e-9, 1e-9, 1e-7, 1e-6]);
    (SearchOpts { time_tolerance: Days::new(t) }, 4.0 * t)
}

/// The windows of an observing plan: contiguous, resumed right after the last event
/// found, or somewhere else.
pub(super) fn next_window(s: &mut Sim, last: f64, event: Option<f64>, unit: f64) -> (f64, f64) {
    let a = match (s.below(4), event) {
        (0, _) => last + unit * s.f64(0.0, 5.0),
        (1 | 2, Some(e)) => {
            s.fault("resumed_at_event");
            let d = *s.pick(&[3e-6, 2e-5, 1e-4, 1e-3, 5e-3]);
            e + d * s.f64(1.0, 3.0)
        }
        _ => last,
    };
    let len = match s.below(5) {
        0 => s.f64(0.02, 0.3),
        1 => s.f64(0.3, 1.0),
        2 => s.int(1, 8) as f64 / 8.0,
        3 => s.f64(1.0, 3.0),
        _ => s.f64(0.9, 1.1),
    };
    (a, a + len * unit)
}

pub(super) fn checks_altitude<T: AltitudeProvider + ?Sized>(s: &mut Sim, t: &T, f: &dyn Fn(f64) -> f64, o: &Site, w: (f64, f64), sample: f64, tol: f64, cul: Option<(f64, f64)>, (steep, apart): (f64, f64), all: bool, ctx: &str) -> R<Option<f64>> {
    let (op, tt) = opts(s);
    // Slow bodies are asked one question at a time.
    let ask = if all { [true; 5] } else { let k = s.below(3); [k == 0, k == 1, k == 2, s.chance(1, 3), s.chance(1, 3)] };
    let tol = tol + tt;
    let wn = win(w.0, w.1);
    // Aim at the altitudes that occur, so that most thresholds are crossed.
    let x = w.0 + (w.1 - w.0) * s.unit();
    let mut thr = match s.below(4) {
        0 => *s.pick(&[0.0, -0.8333, -6.0, -12.0, -18.0, 30.0]),
        1 => s.f64(-89.0, 89.0),
        2 => {
            // Close to a turning point: a short appearance or absence.
            let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
            for i in 0..40 {
                let v = f(w.0 + (w.1 - w.0) * i as f64 / 39.0);
                lo = lo.min(v);
                hi = hi.max(v);
            }
            let d = *s.pick(&[4e-4, 1e-3, 2e-3, 1e-2]) * s.f64(1.0, 2.0);
            let v: f64 = if s.chance(1, 2) { hi - d } else { lo + d };
            v.clamp(-1.0, 1.0).asin().to_degrees()
        }
        _ => f(x).clamp(-1.0, 1.0).asin().to_degrees(),
    };
    if !thr.is_finite() || thr.abs() > 89.5 {
        thr = 20.0;
    }
    let th = thr.to_radians().sin();
    let g = |t: f64| f(t) - th;
    let edge = 2e-6 + 2.0 * tt;
    let mut event = None;
    if let Some((ch, up)) = changes(&g, w.0, w.1, sample, 2e-4, edge, steep, apart) {
        s.checked();
        let above = periods(&ch, up, w.0, w.1);
        if ask[0] {
            let got = no_panic("above_threshold", || above_threshold(t, o, wn, Degrees::new(thr), op))?;
            same("above", &got, &above, tol, &format!("threshold {thr} in {w:?} of {ctx}"))?;
        }
        let below = without(&above, w.0, w.1);
        if ask[1] {
            let got = no_panic("below_threshold", || below_threshold(t, o, wn, Degrees::new(thr), op))?;
            same("below", &got, &below, tol, &format!("threshold {thr} in {w:?} of {ctx}"))?;
        }
        if ask[2] {
            let got = no_panic("crossings", || crossings(t, o, wn, Degrees::new(thr), op))?;
            let ok = got.len() == ch.len() && got.iter().zip(&ch).all(|(x, y)| (days(x.mjd) - y.0).abs() <= tol && (x.direction == CrossingDirection::Rising) == y.1);
            ensure!(ok, "crossings", "crossings of {thr} in {w:?}: {got:?}, the sky has {ch:?} ({ctx})");
        }
        event = ch.last().map(|x| x.0);
        // A band between two thresholds.
        let thr2 = (thr + s.f64(1.0, 40.0)).min(89.5);
        let th2 = thr2.to_radians().sin();
        let g2 = |t: f64| f(t) - th2;
        if let (true, Some((ch2, up2))) = (ask[3], changes(&g2, w.0, w.1, sample, 2e-4, edge, steep, apart)) {
            let above2 = periods(&ch2, up2, w.0, w.1);
            let want = meet(&above, &without(&above2, w.0, w.1));
            let got = no_panic("altitude_ranges", || altitude_ranges(t, o, wn, Degrees::new(thr), Degrees::new(thr2), op))?;
            same("ranges", &got, &want, tol, &format!("band {thr}..{thr2} in {w:?} of {ctx}"))?;
        }
    }
    if let (true, Some((apart, step))) = (ask[4], cul) {
        let h = |t: f64| f(t).clamp(-1.0, 1.0).asin();
        if let Some(want) = turns(&h, w.0, w.1, sample, apart, 1e-7) {
            s.checked();
            let got = no_panic("culminations", || culminations(t, o, wn, op))?;
            let got: Vec<_> = got.iter().map(|c| (days(c.mjd), c.altitude.value().to_radians(), c.kind == CulminationKind::Max)).collect();
            let edge = 3e-6 + 2.0 * tt + step.min(w.1 - w.0) * 2e-3;
            same_turns("culminations", &got, &want, w, edge, (2e-5 + tol, 1e-9 + tt * 7.0 * 1e-2 + tol * tol * 400.0), ctx)?;
            if event.is_none() || s.chance(1, 3) {
                event = want.iter().rfind(|x| x.0 < w.1 - 1e-5).map(|x| x.0 - 4e-3);
            }
        }
    }
    Ok(event)
}

fn sky(s: &mut Sim) -> R {
    // A scripted sky through the provider seam.
    let t0 = if s.chance(1, 2) { s.f64(41_000.0, 80_000.0) } else { s.int(41_000, 80_000) as f64 };
    let mut b = body(s, t0);
    let o = site(s);
    let period = TAU / b.w;
    let fast = if b.c != 0.0 { period / b.k } else { period };
    let step = b.hint.unwrap_or(20.0 / 1440.0);
    let (mut last, mut event) = (t0 + s.f64(-1.0, 1.0) * period, None);
    let unit = period.min(8.0) * *s.pick(&[1.0, 1.0, 3.0]);
    let n = s.int(1, 3);
    let ctx = format!("{b:?}");
    for _ in 0..n {
        let w = next_window(s, last, event, unit);
        if fast / 12.0 > step {
            let cul = (fast > 5.0 * step).then_some((2.5 * step, step));
            let f = |t: f64| b.sinh(t);
            // Two crossings within a scan step of each other are out of reach of any scan.
            event = checks_altitude(s, &b, &f, &o, w, (fast / 240.0).min(0.01), 1e-6, cul, (1e-3, 1.05 * step), true, &ctx)?;
        }
        last = w.1;
    }
    if s.chance(1, 3) {
        // An ephemeris gap: no answer is promised, an end and a sane result are.
        s.fault("ephemeris_gap");
        let g = last - unit * s.unit();
        b.gap = Some((g, g + unit * s.unit()));
        b.calls.set(0);
        let w = win(last - unit, last);
        let (op, _) = opts(s);
        let thr = Degrees::new(s.f64(-60.0, 60.0));
        let mut lists = vec![];
        lists.push(no_panic("above_threshold", || above_threshold(&b, &o, w, thr, op))?);
        lists.push(no_panic("below_threshold", || below_threshold(&b, &o, w, thr, op))?);
        no_panic("crossings", || crossings(&b, &o, w, thr, op))?;
        no_panic("culminations", || culminations(&b, &o, w, op))?;
        no_panic("azimuth_crossings", || azimuth_crossings(&b, &o, w, thr, op))?;
        no_panic("azimuth_extrema", || azimuth_extrema(&b, &o, w, op))?;
        s.checked();
        for l in &lists {
            ensure!(l.iter().all(|p| p.start >= w.start && p.end <= w.end && p.start <= p.end) && l.windows(2).all(|p| p[0].end <= p[1].start), "gap", "periods {l:?} in {w:?}");
        }
    }
    s.note(ctx);
    Ok(())
}

fn az_changes(lift: &dyn Fn(f64) -> f64, bearing: f64, w: (f64, f64), sample: f64, edge: f64, apart: f64) -> Option<Vec<(f64, bool)>> {
    // The lifted azimuth is continuous: one search per turn it passes through.
    let n = (((w.1 - w.0) / sample).ceil() as usize).clamp(2, 100_000);
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    for i in 0..=n {
        let x = lift(w.0 + (w.1 - w.0) * i as f64 / n as f64);
        lo = lo.min(x);
        hi = hi.max(x);
    }
    let mut out = vec![];
    let k0 = ((lo - bearing) / TAU).floor() as i64 - 1;
    let k1 = ((hi - bearing) / TAU).ceil() as i64 + 1;
    for k in k0..=k1 {
        let g = |t: f64| lift(t) - bearing - k as f64 * TAU;
        out.extend(changes(&g, w.0, w.1, sample, 1e-3, edge, 1e-2, apart)?.0);
    }
    out.sort_by(|x, y| x.0.total_cmp(&y.0));
    Some(out)
}

pub(super) fn check_bearing<T: AzimuthProvider>(s: &mut Sim, t: &T, lift: &dyn Fn(f64) -> f64, o: &Site, w: (f64, f64), sample: f64, tol: f64, ranges: bool, apart: f64, ctx: &str) -> R<Option<f64>> {
    let (op, tt) = opts(s);
    let tol = tol + tt;
    let wn = win(w.0, w.1);
    let pick = |s: &mut Sim| match s.below(3) {
        0 => *s.pick(&[0.0, 90.0, 180.0, 270.0]),
        1 => s.f64(0.0, 360.0),
        _ => {
            let x = w.0 + (w.1 - w.0) * s.unit();
            lift(x).to_degrees().rem_euclid(360.0)
        }
    };
    let b = pick(s);
    let edge = 2e-6 + 2.0 * tt;
    let mut event = None;
    if let Some(want) = az_changes(lift, b.to_radians(), w, sample, edge, apart) {
        s.checked();
        let got = no_panic("azimuth_crossings", || azimuth_crossings(t, o, wn, Degrees::new(b), op))?;
        let ok = got.len() == want.len() && got.iter().zip(&want).all(|(x, y)| (days(x.mjd) - y.0).abs() <= tol && (x.direction == CrossingDirection::Rising) == y.1);
        ensure!(ok, "bearing", "crossings of bearing {b} in {w:?}: {got:?}, the sky has {want:?} ({ctx})");
        event = want.last().map(|x| x.0);
    }
    if ranges {
        let lo = b;
        let hi = if s.chance(1, 3) { (b + s.f64(0.5, 15.0)) % 360.0 } else { pick(s) };
        let width = (hi - lo).rem_euclid(360.0);
        if width > 0.1 {
            if let (Some(x), Some(y)) = (az_changes(lift, lo.to_radians(), w, sample, edge, apart), az_changes(lift, hi.to_radians(), w, sample, edge, apart)) {
                let mut ch: Vec<(f64, bool)> = x.iter().map(|e| (e.0, e.1)).chain(y.iter().map(|e| (e.0, !e.1))).collect();
                ch.sort_by(|p, q| p.0.total_cmp(&q.0));
                let start = (lift(w.0).to_degrees() - lo).rem_euclid(360.0) <= width;
                let want = periods(&ch, start, w.0, w.1);
                s.checked();
                let c = format!("arc {lo}..{hi} in {w:?} of {ctx}");
                let (l, h) = (Degrees::new(lo), Degrees::new(hi));
                let got = no_panic("azimuth_ranges", || azimuth_ranges(t, o, wn, l, h, op))?;
                same("arc", &got, &want, tol, &c)?;
                let got = no_panic("in_azimuth_range", || in_azimuth_range(t, o, wn, l, h, op))?;
                same("arc", &got, &want, tol, &c)?;
                let got = no_panic("outside_azimuth_range", || outside_azimuth_range(t, o, wn, l, h, op))?;
                same("outside_arc", &got, &without(&want, w.0, w.1), tol, &c)?;
            }
        }
    }
    Ok(event)
}

pub(super) fn check_swing<T: AzimuthProvider>(s: &mut Sim, t: &T, lift: &dyn Fn(f64) -> f64, o: &Site, w: (f64, f64), sample: f64, step: f64, ctx: &str) -> R {
    let (op, tt) = opts(s);
    if let Some(want) = turns(lift, w.0, w.1, sample, 2.5 * step, 1e-6) {
        s.checked();
        let got = no_panic("azimuth_extrema", || azimuth_extrema(t, o, win(w.0, w.1), op))?;
        ensure!(got.iter().all(|e| (0.0..360.0 + 1e-9).contains(&e.azimuth.value())), "swing", "azimuth out of range: {got:?}");
        let got: Vec<_> = got.iter().map(|c| (days(c.mjd), c.azimuth.value().to_radians(), c.kind == AzimuthExtremumKind::Max)).collect();
        let edge = 3e-6 + 2.0 * tt + step.min(w.1 - w.0) * 2e-3;
        same_turns("swing", &got, &want, w, edge, (2e-5 + 4.0 * tt, 1e-7), ctx)?;
    }
    Ok(())
}

fn compass(s: &mut Sim) -> R {
    let t0 = if s.chance(1, 2) { s.f64(41_000.0, 80_000.0) } else { s.int(41_000, 80_000) as f64 };
    let mut b = body(s, t0);
    let o = site(s);
    let period = TAU / b.w;
    b.az0 = if s.chance(1, 4) { *s.pick(&[0.0, PI / 2.0, PI]) } else { s.f64(0.0, TAU) };
    match s.below(3) {
        0 => {
            // Round the compass, at an uneven pace.
            b.rate = b.w * *s.pick(&[1.0, -1.0]);
            b.swing = s.f64(0.0, 0.95);
        }
        1 => {
            // Swinging about a bearing (circumpolar).
            b.swing = s.f64(0.02, 3.5);
        }
        _ => {
            // Round and back.
            b.rate = b.w * *s.pick(&[1.0, -1.0]);
            b.swing = s.f64(1.1, 2.5);
        }
    }
    let step = b.hint.unwrap_or(10.0 / 1440.0);
    let ext_step = b.hint.unwrap_or(20.0 / 1440.0);
    let speed = b.rate.abs() + b.swing.abs() * b.wa;
    let (mut last, mut event) = (t0 + s.f64(-1.0, 1.0) * period, None);
    let unit = period.min(8.0);
    let ctx = format!("{b:?}");
    let n = s.int(1, 3);
    for _ in 0..n {
        let w = next_window(s, last, event, unit);
        let lift = |t: f64| b.lift(t);
        if period / 12.0 > step {
            event = check_bearing(s, &b, &lift, &o, w, (period / 300.0).min(0.01), 1e-6, false, 1.05 * step, &ctx)?;
        }
        if period / 12.0 > ext_step && speed * ext_step < 1.4 {
            check_swing(s, &b, &lift, &o, w, (period / 300.0).min(0.01), ext_step, &ctx)?;
        }
        last = w.1;
    }
    s.note(ctx);
    Ok(())
}

/// Continuous azimuth of a real body, from samples close enough to unwrap.
pub(super) struct Unwrapped {
    ts: Vec<f64>,
    az: Vec<f64>,
    pub(super) fastest: f64,
}

impl Unwrapped {
    pub(super) fn new(f: &dyn Fn(f64) -> f64, a: f64, b: f64, step: f64) -> Self {
        let mut u = Unwrapped { ts: vec![a], az: vec![f(a)], fastest: 0.0 };
        let n = ((b - a) / step).ceil().max(1.0) as usize;
        for i in 1..=n {
            u.grow(f, a + (b - a) * i as f64 / n as f64, 0);
        }
        u
    }
    fn grow(&mut self, f: &dyn Fn(f64) -> f64, t: f64, depth: u32) {
        let (t0, a0) = (self.ts[self.ts.len() - 1], self.az[self.az.len() - 1]);
        let d = wrap(f(t) - a0);
        if d.abs() > 0.3 && depth < 20 {
            self.grow(f, 0.5 * (t0 + t), depth + 1);
            self.grow(f, t, depth + 1);
            return;
        }
        self.fastest = self.fastest.max(d.abs() / (t - t0));
        self.ts.push(t);
        self.az.push(a0 + d);
    }
    pub(super) fn at(&self, f: &dyn Fn(f64) -> f64, t: f64) -> f64 {
        let i = self.ts.partition_point(|x| *x < t).clamp(1, self.ts.len() - 1);
        let j = if (self.ts[i] - t).abs() < (self.ts[i - 1] - t).abs() { i } else { i - 1 };
        self.az[j] + wrap(f(t) - self.az[j])
    }
}

/// A catalogue star is its direction, under every correction policy; height and
/// bearing under one policy name one point of the sky.
fn catalogue_star(s: &mut Sim, st: &direction::ICRS, o: &Site, ctx: &str) -> R {
    let pos = EquatorialMeanJ2000::<LightYear>::new_unchecked(st.polar, st.azimuth, LightYears::new(s.f64(4.0, 900.0)));
    let body = Star::new("simulated", LightYears::new(50.0), SolarMasses::new(1.0), SolarRadiuses::new(1.0), SolarLuminosities::new(1.0), CoordinateWithPM::new_static(pos, siderust::J2000));
    let t = mjd(s.f64(40_000.0, 66_000.0));
    let all = [CorrectionPolicy::GEOMETRIC, CorrectionPolicy::PROPER_MOTION, CorrectionPolicy::LIGHT_TIME, CorrectionPolicy::ABERRATION, CorrectionPolicy::LIGHT_DEFLECTION, CorrectionPolicy::APPARENT];
    let policy = *s.pick(&all);
    let (h, z) = (st.altitude_at_with_policy(o, t, policy), st.azimuth_at_with_policy(o, t, policy));
    let (bh, bz) = (body.altitude_at_with_policy(o, t, policy), body.azimuth_at_with_policy(o, t, policy));
    ensure!(bh == h && bz == z, "star-policy", "under {policy:?} the star stands at {bh} {bz}, its direction at {h} {z}: {ctx}");
    ensure!(body.altitude_at(o, t) == st.altitude_at(o, t) && body.azimuth_at(o, t) == st.azimuth_at(o, t), "star-policy", "star and direction differ: {ctx}");
    let d = o.lat.value().to_radians();
    let dec = |h: f64, z: f64| (h.sin() * d.sin() + h.cos() * d.cos() * z.cos()).clamp(-1.0, 1.0).asin();
    let got = dec(h.value(), z.value());
    let later = mjd(days(t) + s.f64(0.01, 0.6));
    let (h2, z2) = (st.altitude_at_with_policy(o, later, policy).value(), st.azimuth_at_with_policy(o, later, policy).value());
    let far = st.polar.value().abs() < 89.99;
    ensure!(!far || (dec(h2, z2) - got).abs() < 2e-6, "declination", "declination {got} under {policy:?}, hours later {}: {ctx}", dec(h2, z2));
    let want = st.polar.value().to_radians();
    let lim = if policy == CorrectionPolicy::GEOMETRIC { 1e-7 } else { 1e-4 + (days(t) - 51_544.5).abs() / 365.25 * 1.0e-4 };
    ensure!((got - want).abs() < lim, "declination", "declination {got} under {policy:?}, catalogue {want}: {ctx}");
    Ok(())
}

fn star(s: &mut Sim) -> R {
    let o = site(s);
    let lat = o.lat.value();
    let dec = match s.below(5) {
        0 => *s.pick(&[0.0, 89.264, -89.0, 60.0]),
        1 => (lat + s.normal() * 0.5).clamp(-89.9, 89.9),
        _ => s.f64(-1.0f64, 1.0).asin().to_degrees(),
    };
    let st = direction::ICRS::new(Degrees::new(s.f64(0.0, 360.0)), Degrees::new(dec));
    let ctx = format!("star at {:?}, site {:?}", st, o);
    catalogue_star(s, &st, &o, &ctx)?;
    let alt = |t: f64| st.altitude_at(&o, mjd(t)).value().sin();
    let az = |t: f64| st.azimuth_at(&o, mjd(t)).value();
    let (mut last, mut event) = (s.f64(45_000.0, 63_000.0), None);
    let n = s.int(1, 3);
    for _ in 0..n {
        let w = if s.chance(1, 60) {
            let a = last;
            (a, a + s.f64(20.0, 60.0))
        } else {
            next_window(s, last, event, 1.0)
        };
        last = w.1;
        if s.chance(1, 2) || w.1 - w.0 > 5.0 {
            event = checks_altitude(s, &st, &alt, &o, w, 0.008, 2e-6, Some((0.04, 20.0 / 1440.0)), (0.3, 12.0 / 1440.0), true, &ctx)?;
        } else {
            let u = Unwrapped::new(&az, w.0 - 0.012, w.1 + 0.012, 0.006);
            let lift = |t: f64| u.at(&az, t);
            // A star through the zenith swings round faster than any scan can follow.
            if u.fastest > 60.0 {
                continue;
            }
            event = check_bearing(s, &st, &lift, &o, w, 0.001, 2e-6, true, 12.0 / 1440.0, &ctx)?;
            check_swing(s, &st, &lift, &o, w, 0.001, 20.0 / 1440.0, &ctx)?;
        }
    }
    s.note(ctx);
    Ok(())
}

fn solar_system(s: &mut Sim) -> R {
    let o = site(s);
    let a = s.f64(48_000.0, 63_000.0);
    let b = a + s.f64(0.2, 1.3);
    let which = s.below(8);
    let ctx = format!("body {which}, site {o:?}");
    macro_rules! with {
        ($t:expr) => {{
            let t = $t;
            if s.chance(2, 3) {
                let f = |x: f64| t.altitude_at(&o, mjd(x)).value().sin();
                checks_altitude(s, &t, &f, &o, (a, b), 0.02, 2e-5, Some((0.2, 2.0 / 24.0)), (0.3, 20.0 / 1440.0), true, &ctx)?;
            } else {
                let az = |x: f64| t.azimuth_at(&o, mjd(x)).value();
                let u = Unwrapped::new(&az, a - 0.025, b + 0.025, 0.02);
                let lift = |x: f64| u.at(&az, x);
                if u.fastest < 25.0 {
                    check_bearing(s, &t, &lift, &o, (a, b), 0.015, 2e-5, true, 2.1 / 24.0, &ctx)?;
                }
            }
        }};
    }
    match which {
        0..=3 => with!(Sun),
        4 => with!(Moon),
        5 => with!(Venus),
        6 => with!(Mars),
        _ => with!(Jupiter),
    }
    s.note(ctx);
    Ok(())
}

// --- Moon phases over a simulated ephemeris -----------------------------------------

#[derive(Clone, Copy, Debug)]
struct Orbit {
    t0: f64,
    /// Mean longitudes at t0 and rates (per day) of the Moon and of the Sun.
    l: [f64; 2],
    n: [f64; 2],
    /// Inequality of the Moon's and of the Sun's longitude.
    e: [f64; 2],
    we: [f64; 2],
    lat: f64,
    wl: f64,
    r: [f64; 2],
}

thread_local! {
    static ORBIT: RefCell<(Orbit, u64)> = const { RefCell::new((Orbit { t0: 0.0, l: [0.0; 2], n: [0.0; 2], e: [0.0; 2], we: [0.0; 2], lat: 0.0, wl: 0.0, r: [1.0; 2] }, 0)) };
}

impl Orbit {
    fn lon(&self, k: usize, t: f64) -> f64 {
        let x = t - self.t0;
        self.l[k] + self.n[k] * x + self.e[k] * (self.we[k] * x).sin()
    }
    fn beta(&self, t: f64) -> f64 {
        self.lat * (self.wl * (t - self.t0)).sin()
    }
    fn elong(&self, t: f64) -> f64 {
        self.lon(0, t) - self.lon(1, t)
    }
    /// Illuminated fraction from the vectors themselves.
    fn lit(&self, t: f64) -> f64 {
        let (l, b) = (self.lon(0, t), self.beta(t));
        let m = [self.r[0] * b.cos() * l.cos(), self.r[0] * b.cos() * l.sin(), self.r[0] * b.sin()];
        let ls = self.lon(1, t);
        let rs = self.r[1] * 149_597_870.7;
        let d = [rs * ls.cos() - m[0], rs * ls.sin() - m[1], -m[2]];
        let dot = -(m[0] * d[0] + m[1] * d[1] + m[2] * d[2]);
        let i = dot / ((m[0] * m[0] + m[1] * m[1] + m[2] * m[2]).sqrt() * (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt());
        (1.0 + i) / 2.0
    }
}

struct SimSky;

fn orbit_at() -> Orbit {
    ORBIT.with(|o| {
        let mut o = o.borrow_mut();
        o.1 += 1;
        assert!(o.1 < 3_000_000, "event search does not come to an end");
        o.0
    })
}

fn to_mjd(jd: JulianDate) -> f64 {
    jd.raw().value() - 2_400_000.5
}

impl Ephemeris for SimSky {
    fn sun_barycentric(_: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> {
        Position::new(0.0, 0.0, 0.0)
    }
    fn earth_barycentric(jd: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> {
        let o = orbit_at();
        let l = o.lon(1, to_mjd(jd));
        Position::new(-o.r[1] * l.cos(), -o.r[1] * l.sin(), 0.0)
    }
    fn earth_heliocentric(jd: JulianDate) -> Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit> {
        let o = orbit_at();
        let l = o.lon(1, to_mjd(jd));
        Position::new(-o.r[1] * l.cos(), -o.r[1] * l.sin(), 0.0)
    }
    fn earth_barycentric_velocity(_: JulianDate) -> Velocity<EclipticMeanJ2000, AuPerDay> {
        Velocity::new(0.0, 0.0, 0.0)
    }
    fn moon_geocentric(jd: JulianDate) -> Position<Geocentric, EclipticMeanJ2000, Kilometer> {
        let o = orbit_at();
        let t = to_mjd(jd);
        let (l, b) = (o.lon(0, t), o.beta(t));
        Position::new(o.r[0] * b.cos() * l.cos(), o.r[0] * b.cos() * l.sin(), o.r[0] * b.sin())
    }
}

fn phases(s: &mut Sim) -> R {
    let t0 = if s.chance(1, 2) { s.f64(41_000.0, 80_000.0) } else { s.int(82_000, 160_000) as f64 / 2.0 };
    let n0 = TAU / s.f64(20.0, 40.0);
    let exact = s.chance(1, 6);
    let l0 = s.f64(0.0, TAU);
    let o = Orbit {
        t0,
        l: if exact { [0.0, 0.0] } else { [l0, s.f64(0.0, TAU)] },
        n: [n0, if exact { 0.0 } else { TAU / s.f64(300.0, 400.0) }],
        e: [s.f64(0.0, 0.12), if exact { 0.0 } else { s.f64(0.0, 0.035) }],
        we: [n0 * s.f64(0.9, 1.1), TAU / 365.0],
        lat: s.f64(0.0, 0.09),
        wl: n0 * s.f64(0.9, 1.1),
        r: [s.f64(356_000.0, 407_000.0), s.f64(0.98, 1.02)],
    };
    ORBIT.with(|x| *x.borrow_mut() = (o, 0));
    let ctx = format!("{o:?}");
    let lift = |t: f64| o.elong(t);
    let mut last = t0 - s.int(0, 40) as f64 / 2.0;
    let mut event = None;
    let n = s.int(1, 3);
    for _ in 0..n {
        let w = next_window(s, last, event, 29.5);
        last = w.1;
        let step = *s.pick(&[0.5, 0.5, 0.25, 1.0, 2.0]);
        let op = PhaseSearchOpts { time_tolerance: Days::new(1e-9), scan_step: Days::new(step) };
        let mut want: Vec<(f64, PhaseKind)> = vec![];
        let mut clear = true;
        for (i, k) in PhaseKind::ALL.into_iter().enumerate() {
            match az_changes(&lift, i as f64 * PI / 2.0, w, 0.2, 1e-5, 0.0) {
                Some(c) => want.extend(c.iter().map(|x| (x.0, k))),
                None => clear = false,
            }
        }
        want.sort_by(|x, y| x.0.total_cmp(&y.0));
        if clear {
            s.checked();
            let got = no_panic("find_phase_events", || find_phase_events::<SimSky>(win(w.0, w.1), op))?;
            let ok = got.len() == want.len() && got.iter().zip(&want).all(|(x, y)| (days(x.mjd) - y.0).abs() < 1e-6 && x.kind == y.1);
            ensure!(ok, "phases", "phases in {w:?} (step {step}): {got:?}, the sky has {want:?} ({ctx})");
            event = want.last().map(|x| x.0);
        }
        // Illumination.
        let k1 = match s.below(3) {
            0 => *s.pick(&[0.5, 0.05, 0.95, 0.25]),
            _ => s.f64(0.03, 0.97),
        };
        let lit = |t: f64| o.lit(t);
        let g = |t: f64| lit(t) - k1;
        if let Some((ch, up)) = changes(&g, w.0, w.1, 0.2, 2e-2, 1e-5, 1e-4, 0.0) {
            s.checked();
            let above = periods(&ch, up, w.0, w.1);
            let wn = win(w.0, w.1);
            let c = format!("fraction {k1} in {w:?}, step {step}, {ctx}");
            let got = no_panic("illumination_above", || illumination_above::<SimSky>(wn, IlluminationFractions::new(k1), op))?;
            same("lit", &got, &above, 1e-6, &c)?;
            let got = no_panic("illumination_below", || illumination_below::<SimSky>(wn, IlluminationFractions::new(k1), op))?;
            same("lit", &got, &without(&above, w.0, w.1), 1e-6, &c)?;
            let k2 = (k1 + s.f64(0.05, 0.5)).min(0.97);
            let g2 = |t: f64| lit(t) - k2;
            if let (true, Some((ch2, up2))) = (k2 > k1, changes(&g2, w.0, w.1, 0.2, 2e-2, 1e-5, 1e-4, 0.0)) {
                let want = meet(&above, &without(&periods(&ch2, up2, w.0, w.1), w.0, w.1));
                let got = no_panic("illumination_range", || illumination_range::<SimSky>(wn, IlluminationFractions::new(k1), IlluminationFractions::new(k2), op))?;
                same("lit_range", &got, &want, 1e-6, &c)?;
            }
        }
        // The geometry and its labels along the way.
        let st = s.f64(0.3, 3.0);
        let series = no_panic("sample", || MoonPhaseSeries::<SimSky>::sample(mjd(w.0), mjd(w.1), Days::new(st)))?;
        let count = ((w.1 - w.0) / st).floor() as usize + 1;
        s.checked();
        ensure!(series.len().abs_diff(count) <= usize::from(((w.1 - w.0) / st).fract() < 1e-6 || ((w.1 - w.0) / st).fract() > 1.0 - 1e-6), "series", "{} samples of {w:?} every {st} d", series.len());
        for (i, (t, g)) in series.iter().enumerate() {
            let t = days(*t);
            ensure!((t - (w.0 + i as f64 * st)).abs() < 1e-6, "series", "sample {i} at {t}");
            let e = o.elong(t).rem_euclid(TAU);
            ensure!(wrap(g.elongation.value() - e).abs() < 1e-6 && (g.illuminated_fraction.value() - o.lit(t)).abs() < 1e-6, "geometry", "{g:?} at {t}, expected elongation {e} and fraction {} ({ctx})", o.lit(t));
            ensure!((g.phase_angle.value().cos() - (2.0 * o.lit(t) - 1.0)).abs() < 1e-6, "geometry", "phase angle {:?} for fraction {}", g.phase_angle, o.lit(t));
            if e.sin().abs() > 1e-5 {
                ensure!(g.waxing == (e < PI), "geometry", "waxing {} at elongation {e}", g.waxing);
            }
            let oct = (e.to_degrees() + 22.5) / 45.0;
            if (oct - oct.round()).abs() > 1e-5 {
                let names = [MoonPhaseLabel::NewMoon, MoonPhaseLabel::WaxingCrescent, MoonPhaseLabel::FirstQuarter, MoonPhaseLabel::WaxingGibbous, MoonPhaseLabel::FullMoon, MoonPhaseLabel::WaningGibbous, MoonPhaseLabel::LastQuarter, MoonPhaseLabel::WaningCrescent];
                let l = names[oct as usize % 8];
                ensure!(g.label() == l, "label", "{:?} at elongation {} deg, expected {l:?}", g.label(), e.to_degrees());
                let centre: Degrees = l.into();
                ensure!(wrap(centre.value().to_radians() - e).abs() <= PI / 8.0 + 1e-9, "label", "{l:?} is centred on {centre:?}");
            }
        }
        let _ = moon_phase_geocentric::<SimSky>;
    }
    if s.chance(1, 10) {
        // A search that cannot make a step has to end as well.
        s.fault("unusable_scan_step");
        let bad = *s.pick(&[0.0, -0.5, f64::NAN]);
        ORBIT.with(|x| x.borrow_mut().1 = 2_900_000);
        let op = PhaseSearchOpts { time_tolerance: Days::new(1e-9), scan_step: Days::new(bad) };
        let w = win(last, last + 30.0);
        s.checked();
        no_panic("find_phase_events", || find_phase_events::<SimSky>(w, op))?;
        no_panic("illumination_above", || illumination_above::<SimSky>(w, IlluminationFractions::new(0.5), op))?;
        no_panic("illumination_range", || illumination_range::<SimSky>(w, IlluminationFractions::new(0.2), IlluminationFractions::new(0.5), op))?;
        no_panic("sample", || MoonPhaseSeries::<SimSky>::sample(w.start, w.end, Days::new(bad)).len())?;
    }
    s.note(ctx);
    Ok(())
}

/// C24.
pub static C24: Prop = Prop {
    id: "C24",
    scenarios: &[("sky", 1000, sky), ("compass", 500, compass), ("phases", 330, phases), ("star", 165, star), ("solar_system", 4, solar_system)],
    runs_quick: 15_000,
    runs_thorough: 3_000_000,
    rule: "sky: a scripted body (sums of sines, drifts, gaps in its ephemeris, a hint or none) searched over windows that follow each other, resume after an event, or lie elsewhere; compass: its azimuth; phases: the Moon's phases and illumination from a simulated ephemeris; star: real fixed stars over real sites; solar_system: the real Sun, Moon and planets, sampled. Distinct = distinct hash of the windows and the events found.",
    real: &["event::{altitude, azimuth, search, lunar, solar, stellar}", "bodies (Sun, Moon, Venus, Mars, Jupiter)", "math root finding"],
    stub: &["scripted AltitudeProvider / AzimuthProvider", "SimSky Ephemeris (phases)"],
    assumptions: &["events lie further apart than one scan step; the azimuth sweeps less than 90 degrees between scan steps; events that graze a threshold or fall within the time tolerance of a window's end may be reported or not"],
};
