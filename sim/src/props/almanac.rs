//! C33: the real Sun, Moon and planets over real sites, season by season.

use super::events::{changes, check_bearing, checks_altitude, days, mjd, opts, periods, same, site, turns, win, wrap, without, Site, Unwrapped};
use super::solar::{ecef, lunar, series};
use crate::core::{no_panic, Sim, R};
use crate::kepler::{add, cross, dot, norm, scale, sub, V3};
use crate::{ensure, viol, Prop};
use siderust::bodies::solar_system::{Jupiter, Mars, Mercury, Moon, Neptune, Saturn, Sun, Uranus, Venus};
use siderust::astro::apparent::CorrectionPolicy;
use siderust::coordinates::centers::{Geodetic, Topocentric};
use siderust::coordinates::spherical::{self, direction};
use siderust::coordinates::frames;
use siderust::ephemeris::Vsop87Ephemeris;
use siderust::event::altitude::{altitude_ranges, below_threshold, culminations, crossings, AltitudeProvider, CulminationKind};
use siderust::event::azimuth::AzimuthProvider;
use siderust::event::horizontal::{equatorial_to_horizontal, star_horizontal, star_horizontal_with_policy};
use siderust::event::lunar::phase::{find_phase_events, illumination_above, illumination_below, illumination_range, moon_phase_geocentric, moon_phase_topocentric, MoonPhaseSeries, PhaseKind, PhaseSearchOpts};
use siderust::event::solar::{twilight, twilight_classification, Twilight, TwilightPhase};
use siderust::qtty::unit::{AstronomicalUnit, Kilometer};
use siderust::qtty::{Arcminutes, Days, Degrees, Kilometers, IlluminationFractions, Meters, Radians};
use siderust::time::{Interval, JulianDate};
use std::f64::consts::{PI, TAU};

const AU: f64 = 149_597_870.7;

/// A direction in the sky (east, north, up) sampled closely and interpolated.
struct Sky {
    a: f64,
    h: f64,
    u: Vec<V3>,
}

impl Sky {
    fn new<T: AltitudeProvider + AzimuthProvider>(t: &T, o: &Site, w: (f64, f64), both: bool) -> Sky {
        let n = ((w.1 - w.0) * 24.0).ceil().max(12.0) as usize + 12;
        let h = (w.1 - w.0) / (n - 12) as f64;
        let a = w.0 - 6.0 * h;
        let at = |i: usize| {
            let m = mjd(a + i as f64 * h);
            let e = t.altitude_at(o, m).value();
            let z = if both { t.azimuth_at(o, m).value() } else { 0.0 };
            [e.cos() * z.sin(), e.cos() * z.cos(), e.sin()]
        };
        Sky { a, h, u: (0..=n).map(at).collect() }
    }
    fn at(&self, t: f64) -> V3 {
        const M: usize = 10;
        let x = (t - self.a) / self.h;
        let i = (x.floor() as isize - (M as isize / 2 - 1)).clamp(0, (self.u.len() - M) as isize) as usize;
        let mut out = [0.0; 3];
        for j in 0..M {
            let mut c = 1.0;
            for k in 0..M {
                if k != j {
                    c *= (x - (i + k) as f64) / (j as f64 - k as f64);
                }
            }
            out = add(out, scale(self.u[i + j], c));
        }
        out
    }
    fn height(&self, t: f64) -> f64 {
        self.at(t)[2].clamp(-1.0, 1.0)
    }
    fn bearing(&self, t: f64) -> f64 {
        let u = self.at(t);
        u[0].atan2(u[1])
    }
}

// --- an independent almanac, good to about an arcminute --------------------------------

fn rot(x: V3, axis: usize, a: f64) -> V3 {
    let (s, c) = a.sin_cos();
    let (i, j) = ((axis + 1) % 3, (axis + 2) % 3);
    let mut y = x;
    y[i] = c * x[i] + s * x[j];
    y[j] = -s * x[i] + c * x[j];
    y
}

/// Measured TT-UT1 (s), 1950 on.
pub fn delta_t(t: f64) -> f64 {
    let y = 2000.0 + (t - 51_544.0) / 365.25;
    let tab = [(1950.0, 29.15), (1955.0, 31.07), (1960.0, 33.15), (1965.0, 35.73), (1970.0, 40.18), (1975.0, 45.48), (1980.0, 50.54), (1985.0, 54.34), (1990.0, 56.86), (1995.0, 60.78), (2000.0, 63.83), (2005.0, 64.69), (2010.0, 66.07), (2015.0, 67.64), (2020.0, 69.36), (2034.0, 70.5)];
    let k = tab.iter().rposition(|p: &(f64, f64)| p.0 <= y).unwrap_or(0).min(tab.len() - 2);
    let f = (y - tab[k].0) / (tab[k + 1].0 - tab[k].0);
    tab[k].1 + f * (tab[k + 1].1 - tab[k].1)
}

/// Geocentric place in the ecliptic of J2000, km: 0 Sun, 1 Moon, 2.. planets.
fn place(which: u64, t: f64) -> V3 {
    let j = t + 2_400_000.5;
    let earth = |t: f64| series(2, false, t).0;
    match which {
        0 => scale(earth(j), -AU),
        1 => lunar(j),
        p => scale(sub(series([0, 1, 3, 4, 5, 6, 7][p as usize - 2], false, j).0, earth(j)), AU),
    }
}

/// East, north, up of a place seen from a site: precession, the largest nutation terms,
/// Greenwich time and parallax, as the textbooks give them.
/// `mirrored` puts the site where the tree puts it (recorded finding site-rotation).
fn horizon(x: V3, o: &Site, t: f64, mirrored: bool) -> V3 {
    let c = (t - 51_544.5) / 36_525.0;
    let sec = |x: f64| (x / 3600.0).to_radians();
    let mut x = rot(x, 0, -sec(84_381.448));
    let zeta = sec(2306.2181 * c + 0.30188 * c * c);
    let z = sec(2306.2181 * c + 1.09468 * c * c);
    let th = sec(2004.3109 * c - 0.42665 * c * c);
    x = rot(rot(rot(x, 2, -zeta), 1, th), 2, -z);
    let om = (125.04452 - 1934.136261 * c).to_radians();
    let l = (280.4665 + 36_000.7698 * c).to_radians();
    let lm = (218.3165 + 481_267.8813 * c).to_radians();
    let dpsi = sec(-17.20 * om.sin() - 1.32 * (2.0 * l).sin() - 0.23 * (2.0 * lm).sin() + 0.21 * (2.0 * om).sin());
    let deps = sec(9.20 * om.cos() + 0.57 * (2.0 * l).cos() + 0.10 * (2.0 * lm).cos());
    let eps = sec(84_381.448 - 46.8150 * c);
    x = rot(rot(rot(x, 0, eps), 2, -dpsi), 0, -eps - deps);
    let u = t - delta_t(t) / 86_400.0 - 51_544.5;
    let g = (280.46061837 + 360.98564736629 * u).to_radians() + dpsi * eps.cos();
    let (lon, lat) = (o.lon.value(), o.lat.value());
    let mut at = scale(ecef(lon, lat, o.height.value()), 1e-3);
    if mirrored {
        let era = TAU * (0.779_057_273_264 + 1.002_737_811_911_354_5 * u);
        at = rot(at, 2, 2.0 * era);
    }
    x = rot(x, 2, g);
    let x = sub(x, at);
    let x = scale(x, 1.0 / norm(x));
    let (lo, la) = (lon.to_radians(), lat.to_radians());
    let up = [la.cos() * lo.cos(), la.cos() * lo.sin(), la.sin()];
    let east = [-lo.sin(), lo.cos(), 0.0];
    [dot(x, east), dot(x, cross(up, east)), dot(x, up)]
}

macro_rules! body {
    ($which:expr, $t:ident, $e:expr) => {
        match $which {
            0 => { let $t = Sun; $e }
            1 => { let $t = Moon; $e }
            2 => { let $t = Mercury; $e }
            3 => { let $t = Venus; $e }
            4 => { let $t = Mars; $e }
            5 => { let $t = Jupiter; $e }
            6 => { let $t = Saturn; $e }
            7 => { let $t = Uranus; $e }
            _ => { let $t = Neptune; $e }
        }
    };
}

/// A place from which the Sun or Moon is worth watching: anywhere, where it grazes the
/// horizon, where it passes overhead, or where the day changes at its transit.
fn post(s: &mut Sim, which: u64, t: f64) -> Site {
    let o = site(s);
    let x = place(which, t);
    let e = rot(x, 0, -(84_381.448f64 / 3600.0).to_radians());
    let dec = (e[2] / norm(e)).asin().to_degrees();
    let thr = *s.pick(&[0.0, -0.833, -6.0, -12.0, -18.0]);
    let lat = match s.below(5) {
        0 | 1 => {
            // The lower culmination lies at lat + dec - 90, the upper at 90 - |lat - dec|.
            let near = s.normal() * 2.0;
            let v = if s.chance(2, 3) { 90.0 + thr - dec.abs() } else { 90.0 - thr - dec.abs() };
            (v + near).clamp(0.0, 90.0) * if s.chance(1, 2) { 1.0 } else { -1.0 }
        }
        2 => (dec + s.normal()).clamp(-90.0, 90.0),
        _ => o.lat.value(),
    };
    let lon = match s.below(4) {
        // Transit close to midnight (where one day hands over to the next) or noon.
        0 => {
            s.fault("transit_at_midnight");
            let u = horizon(x, &Site::new(Degrees::new(0.0), Degrees::new(0.0), Meters::new(0.0)), t.floor(), false);
            // At the equator and Greenwich the hour angle is seen directly.
            let ha = (-u[0]).atan2(u[2]).to_degrees();
            let l = -ha + s.normal() * *s.pick(&[0.05, 0.5, 3.0]);
            wrap(l.to_radians()).to_degrees()
        }
        _ => o.lon.value(),
    };
    Site::new(Degrees::new(lon), Degrees::new(lat), o.height)
}

/// What a night planner asks of the real bodies.
fn skies(s: &mut Sim) -> R {
    let which = match s.below(10) {
        0..=4 => 0,
        5..=7 => 1,
        _ => s.int(2, 8) as u64,
    };
    let a = if s.chance(1, 5) { s.int(37_000, 63_000) as f64 } else { s.f64(37_000.0, 63_000.0) };
    let o = post(s, which, a);
    let len = match s.below(60) {
        0 => s.f64(8.0, 40.0),
        1 | 2 => s.f64(3.0, 8.0),
        3..=14 => s.f64(0.1, 0.5),
        _ => s.f64(0.5, 2.0),
    };
    let ctx = format!("{} at {o:?}", ["Sun", "Moon", "Mercury", "Venus", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune"][which as usize]);
    let both = s.chance(1, 3) && len < 8.0;
    let sky = body!(which, t, Sky::new(&t, &o, (a, a + len), both));
    let f = |t: f64| sky.height(t);
    // Straight overhead the interpolated height is too coarse to tell the moment.
    let overhead = (0..=960).any(|i| f(a + len * i as f64 / 960.0).abs() > 0.98);
    // The plan is asked for in pieces, some of them ending right at an event.
    let cuts = s.int(1, 3);
    let mut from = a;
    for i in 0..cuts {
        let mut to = if i == cuts - 1 { a + len } else { from + (a + len - from) * s.f64(0.2, 0.9) };
        if s.chance(1, 3) && len < 8.0 {
            let up = |t: f64| f(t).asin();
            let day = (from.max(to - 1.2), to);
            if let Some(&(e, ..)) = turns(&up, day.0, day.1, 0.02, 0.2, 1e-7).and_then(|v| v.last().copied()).as_ref() {
                s.fault("window_ends_at_transit");
                let d = *s.pick(&[-3e-3, 3e-3, 0.02, -0.02, 0.1]) * s.f64(0.7, 1.3);
                if e + d > from + 0.05 && e + d < a + len {
                    to = e + d;
                }
            }
        }
        if to - from < 0.04 {
            break;
        }
        let w = (from, to);
        // The planets are searched at two-hour steps.
        let apart = if which < 2 { 20.0 / 1440.0 } else { 2.1 / 24.0 };
        body!(which, t, {
            checks_altitude(s, &t, &f, &o, w, 0.01, 2e-5, (!overhead).then_some((0.2, 2.0 / 24.0)), (if which < 2 { 0.1 } else { 0.3 }, apart), false, &ctx)?;
            if both && s.chance(1, 2) {
                let az = |x: f64| sky.bearing(x);
                let u = Unwrapped::new(&az, w.0 - 0.025, w.1 + 0.025, 0.004);
                if u.fastest < 25.0 {
                    let lift = |x: f64| u.at(&az, x);
                    check_bearing(s, &t, &lift, &o, w, 0.01, 2e-5, true, 2.1 / 24.0, &ctx)?;
                }
            }
        });
        from = to;
    }
    s.note(ctx);
    Ok(())
}

/// Heights and bearings against the textbook almanac.
fn places(s: &mut Sim) -> R {
    let which = if s.chance(1, 2) { s.below(2) } else { s.int(2, 8) as u64 };
    let t0 = s.f64(37_000.0, 60_500.0);
    let o = post(s, which, t0);
    let mut mirrored = None;
    for _ in 0..s.int(1, 3) {
        let t = t0 + s.f64(-2.0, 2.0);
        let (e, z) = body!(which, b, (b.altitude_at(&o, mjd(t)).value(), b.azimuth_at(&o, mjd(t)).value()));
        let got = [e.cos() * z.sin(), e.cos() * z.cos(), e.sin()];
        let want = horizon(place(which, t), &o, t, false);
        let apart = |x: V3, y: V3| norm(cross(x, y)).atan2(dot(x, y)).to_degrees();
        let d = apart(got, want);
        s.checked();
        s.h(&d.to_bits().to_le_bytes());
        ensure!((0.0..TAU).contains(&z), "place", "bearing {z}");
        let ctx = format!("body {which} stands at {} {} deg at MJD {t}, the almanac has it {d} deg away ({want:?}); {o:?}", e.to_degrees(), z.to_degrees());
        if d > 0.01 && apart(got, horizon(place(which, t), &o, t, true)) < 0.01 {
            mirrored = Some(ctx);
        } else {
            ensure!(d < 0.01, "place", "{ctx}");
        }
    }
    if let Some(ctx) = mirrored {
        viol!("moon-parallax", "{ctx}, as seen from the mirrored site");
    }
    s.note(format!("body {which}, {o:?}"));
    Ok(())
}

/// Fixed stars against the textbook almanac, straight overhead included.
fn stars(s: &mut Sim) -> R {
    let t = s.f64(37_000.0, 60_500.0);
    let o = site(s);
    let (ra, mut dec) = (s.f64(0.0, 360.0), s.f64(-1.0, 1.0).asin().to_degrees());
    if s.chance(1, 5) {
        dec = *s.pick(&[90.0, -90.0, 0.0, 89.9999, -89.9999]);
    }
    let ctx = format!("star at {ra} {dec}, MJD {t}, {o:?}");
    let dir = direction::ICRS::new(Degrees::new(ra), Degrees::new(dec));
    let (r, d) = (ra.to_radians(), dec.to_radians());
    let e = rot([d.cos() * r.cos(), d.cos() * r.sin(), d.sin()], 0, (84_381.448f64 / 3600.0).to_radians());
    let want = horizon(scale(e, 1e18), &o, t, false);
    let named = star_horizontal(Degrees::new(ra), Degrees::new(dec), &o, mjd(t).to::<siderust::JD>());
    let all = [
        (dir.altitude_at(&o, mjd(t)).value(), dir.azimuth_at(&o, mjd(t)).value()),
        (named.alt().value().to_radians(), named.az().value().to_radians()),
    ];
    for (h, z) in all {
        let got = [h.cos() * z.sin(), h.cos() * z.cos(), h.sin()];
        let d = norm(cross(got, want)).atan2(dot(got, want)).to_degrees();
        s.checked();
        s.h(&d.to_bits().to_le_bytes());
        ensure!(d < 0.01, "star", "seen at {} {} deg, the almanac has it {d} deg away ({want:?}): {ctx}", h.to_degrees(), z.to_degrees());
    }
    s.note(ctx);
    if s.chance(1, 2) {
        return Ok(());
    }
    s.fault("straight_overhead");
    // Hunt for the zenith: the height of a star (or of a body put there) rises all the way
    // to it and is defined at it.
    let route = s.below(3);
    let ra0 = s.f64(0.0, 360.0);
    let mut lat = s.f64(-89.0, 89.0);
    // Latitudes whose squared sine and cosine round to more than one.
    while (|l: f64| l.sin() * l.sin() + l.cos() * l.cos() <= 1.0)(lat.to_radians()) {
        lat = s.f64(-89.0, 89.0);
    }
    let up = |lon: f64, lat_site: f64| {
        let p = Site::new(Degrees::new(wrap(lon.to_radians()).to_degrees()), Degrees::new(lat_site), Meters::new(0.0));
        let st = direction::ICRS::new(Degrees::new(ra0), Degrees::new(lat));
        match route {
            0 => st.altitude_at_with_policy(&p, mjd(t), CorrectionPolicy::GEOMETRIC).value().to_degrees(),
            1 => star_horizontal_with_policy(Degrees::new(ra0), Degrees::new(lat), &p, mjd(t).to::<siderust::JD>(), CorrectionPolicy::GEOMETRIC).alt().value(),
            _ => {
                let x = spherical::Position::<Topocentric, frames::EquatorialTrueOfDate, Kilometer>::new_unchecked_with_params(p, Degrees::new(lat), Degrees::new(ra0), Kilometers::new(4e5));
                equatorial_to_horizontal(&x, p, mjd(t).to::<siderust::JD>()).alt().value()
            }
        }
    };
    let mut top = (-1.0, f64::NEG_INFINITY);
    for k in 0..36 {
        let h = up(k as f64 * 10.0, lat);
        if h > top.1 {
            top = (k as f64 * 10.0, h);
        }
    }
    let (mut a, mut b) = (top.0 - 10.0, top.0 + 10.0);
    for _ in 0..70 {
        let (p, q) = (a + (b - a) / 3.0, b - (b - a) / 3.0);
        let (x, y) = (up(p, lat), up(q, lat));
        s.checked();
        ensure!(x.is_finite() && y.is_finite(), "overhead", "heights {x} at longitude {p} and {y} at longitude {q} of a star whose declination is the latitude {lat}, MJD {t}");
        if x < y {
            a = p;
        } else {
            b = q;
        }
    }
    let h = up(0.5 * (a + b), lat);
    ensure!(h > 90.0 - 1e-4 && h <= 90.0, "overhead", "highest at {h} deg over latitude {lat}, MJD {t}");
    Ok(())
}

/// Dusk to dawn: the twilight a Sun height belongs to, and the nights between.
fn dusk(s: &mut Sim) -> R {
    let a = s.f64(37_000.0, 63_000.0);
    let o = post(s, 0, a);
    let w = (a, a + s.f64(0.5, 2.0));
    let sky = Sky::new(&Sun, &o, w, false);
    let ctx = format!("{o:?}");
    let (op, tt) = opts(s);
    let tol = 2e-5 + tt;
    let wn = win(w.0, w.1);
    ensure!([Twilight::Horizon, Twilight::ApparentHorizon, Twilight::Civil, Twilight::Nautical, Twilight::Astronomical].map(|t| Degrees::from(t).value()) == [0.0, -0.833, -6.0, -12.0, -18.0], "twilight", "twilight depressions changed");
    ensure!([twilight::HORIZON, twilight::APPARENT_HORIZON, twilight::CIVIL, twilight::NAUTICAL, twilight::ASTRONOMICAL].map(|t| t.value()) == [0.0, -0.833, -6.0, -12.0, -18.0], "twilight", "twilight depressions changed");
    let bounds = [(Twilight::Horizon, TwilightPhase::Day), (Twilight::Civil, TwilightPhase::Civil), (Twilight::Nautical, TwilightPhase::Nautical), (Twilight::Astronomical, TwilightPhase::Astronomical)];
    let order = [TwilightPhase::Day, TwilightPhase::Civil, TwilightPhase::Nautical, TwilightPhase::Astronomical, TwilightPhase::Dark];
    // Periods between twilight names agree with the name at any moment of them.
    let mut dark: Option<Vec<(f64, f64)>> = None;
    for (name, phase) in bounds {
        let d = Degrees::from(name);
        let g = |t: f64| sky.height(t) - d.value().to_radians().sin();
        let Some((ch, up)) = changes(&g, w.0, w.1, 0.01, 2e-4, 4e-6 + 2.0 * tt, 0.1, 20.0 / 1440.0) else {
            dark = None;
            continue;
        };
        let want = without(&periods(&ch, up, w.0, w.1), w.0, w.1);
        s.checked();
        let got = no_panic("below_threshold", || below_threshold(&Sun, &o, wn, d, op))?;
        same("night", &got, &want, tol, &format!("{name} in {w:?} at {ctx}"))?;
        for p in &want {
            let t = p.0 + (p.1 - p.0) * s.f64(0.001, 0.999);
            let h = Sun.altitude_at(&o, mjd(t));
            let c = if s.chance(1, 2) { twilight_classification(h) } else { twilight_classification(Arcminutes::new(h.value().to_degrees() * 60.0)) };
            let rank = |p: TwilightPhase| order.iter().position(|x| *x == p).unwrap_or(9);
            ensure!(rank(c) > rank(phase) || (p.1 - p.0) < 1e-3, "twilight", "{c} at MJD {t}, below the {name} limit ({ctx})");
            // The name says what the height says.
            let deg = h.value().to_degrees();
            let named = order[[0.0, -6.0, -12.0, -18.0].iter().filter(|x| deg <= **x).count()];
            ensure!(c == named, "twilight", "height {deg} deg is called {c}, expected {named}");
        }
        // Darker periods lie inside brighter ones.
        if let Some(outer) = &dark {
            ensure!(want.iter().all(|p| outer.iter().any(|q| p.0 >= q.0 - tol && p.1 <= q.1 + tol)), "nesting", "{name}: {want:?} outside {outer:?}");
        }
        dark = Some(want);
    }
    // Whichever way it is asked, the Sun is between two depressions at the same time.
    let (lo, hi) = (Degrees::new(-18.0), Degrees::new(s.f64(-12.0, 10.0)));
    let band = no_panic("altitude_ranges", || altitude_ranges(&Sun, &o, wn, lo, hi, op))?;
    for p in &band {
        let t = 0.5 * (days(p.start) + days(p.end));
        let h = Sun.altitude_at(&o, mjd(t)).value().to_degrees();
        ensure!(h >= -18.0 - 2e-3 && h <= hi.value() + 2e-3, "band", "Sun at {h} deg in the middle of {p:?}, asked for -18..{hi} ({ctx})");
    }
    // Noon and midnight: one upper and one lower culmination a day, half a day apart.
    let cul = no_panic("culminations", || culminations(&Sun, &o, wn, op))?;
    for c in &cul {
        let t = days(c.mjd);
        let h = Sun.altitude_at(&o, c.mjd).value();
        ensure!((c.altitude.value().to_radians() - h).abs() < 1e-9, "noon", "culmination reported at {} deg, the Sun stands at {} ({ctx})", c.altitude, h.to_degrees());
        if o.lat.value().abs() < 88.0 {
            let z = Sun.azimuth_at(&o, c.mjd).value();
            let due = (z.sin()).abs();
            ensure!(due < 0.05 || h.cos() < 0.05, "noon", "{:?} at bearing {} deg ({ctx})", c.kind, z.to_degrees());
        }
        let near = if c.kind == CulminationKind::Max { 1.0 } else { -1.0 };
        for d in [0.02, 0.1] {
            for t in [t - d, t + d] {
                ensure!(o.lat.value().abs() > 88.0 || (h - Sun.altitude_at(&o, mjd(t)).value()) * near > 0.0, "noon", "{:?} at MJD {t} is no culmination ({ctx})", c.kind);
            }
        }
    }
    let all = no_panic("crossings", || crossings(&Sun, &o, wn, twilight::APPARENT_HORIZON, op))?;
    ensure!(all.windows(2).all(|p| p[0].mjd <= p[1].mjd && p[0].direction != p[1].direction), "sunrise", "two in a row: {all:?} ({ctx})");
    s.note(ctx);
    Ok(())
}

/// Meeus' phases of the Moon (chapter 49, the larger terms): dynamical time.
fn meeus_phase(k: f64, q: usize) -> f64 {
    let t = k / 1236.85;
    let e = 1.0 - 0.002516 * t;
    let r = |x: f64| x.to_radians();
    let jde = 2_451_550.09766 + 29.530588861 * k + 0.00015437 * t * t;
    let m = r(2.5534 + 29.10535670 * k);
    let mp = r(201.5643 + 385.81693528 * k + 0.0107582 * t * t);
    let f = r(160.7108 + 390.67050284 * k);
    let om = r(124.7746 - 1.56375588 * k);
    let d = match q {
        0 | 2 => {
            let c = if q == 0 { [-0.40720, 0.17241, 0.01608, 0.01039, 0.00739, -0.00514, 0.00208] } else { [-0.40614, 0.17302, 0.01614, 0.01043, 0.00734, -0.00515, 0.00209] };
            c[0] * mp.sin() + c[1] * e * m.sin() + c[2] * (2.0 * mp).sin() + c[3] * (2.0 * f).sin() + c[4] * e * (mp - m).sin() + c[5] * e * (mp + m).sin() + c[6] * e * e * (2.0 * m).sin()
                - 0.00111 * (mp - 2.0 * f).sin() - 0.00057 * (mp + 2.0 * f).sin() + 0.00056 * e * (2.0 * mp + m).sin() - 0.00042 * (3.0 * mp).sin() + 0.00042 * e * (m + 2.0 * f).sin() + 0.00038 * e * (m - 2.0 * f).sin() - 0.00024 * e * (2.0 * mp - m).sin() - 0.00017 * om.sin()
        }
        _ => {
            let w = 0.00306 - 0.00038 * e * m.cos() + 0.00026 * mp.cos() - 0.00002 * (mp - m).cos() + 0.00002 * (mp + m).cos() + 0.00002 * (2.0 * f).cos();
            -0.62801 * mp.sin() + 0.17172 * e * m.sin() - 0.01183 * e * (mp + m).sin() + 0.00862 * (2.0 * mp).sin() + 0.00804 * (2.0 * f).sin() + 0.00454 * e * (mp - m).sin() + 0.00204 * e * e * (2.0 * m).sin()
                - 0.00180 * (mp - 2.0 * f).sin() - 0.00070 * (mp + 2.0 * f).sin() - 0.00040 * (3.0 * mp).sin() - 0.00034 * e * (2.0 * mp - m).sin() + 0.00032 * e * (m + 2.0 * f).sin() + 0.00032 * e * (m - 2.0 * f).sin() - 0.00028 * e * e * (mp + 2.0 * m).sin() + 0.00027 * e * (2.0 * mp + m).sin() - 0.00017 * om.sin()
                + if q == 1 { w } else { -w }
        }
    };
    jde + d - 2_400_000.5
}

/// The Moon's months.
fn months(s: &mut Sim) -> R {
    type E = Vsop87Ephemeris;
    let a = s.f64(37_000.0, 63_000.0);
    let w = (a, a + s.f64(1.0, 40.0));
    let wn = win(w.0, w.1);
    let op = PhaseSearchOpts { time_tolerance: Days::new(1e-9), scan_step: Days::new(*s.pick(&[0.5, 0.5, 1.0, 2.0])) };
    let k0 = ((w.0 - 51_550.0) / 29.530588861).floor() - 2.0;
    let mut want: Vec<(f64, PhaseKind)> = vec![];
    for i in 0..5 {
        for (q, kind) in PhaseKind::ALL.into_iter().enumerate() {
            want.push((meeus_phase(k0 + i as f64 + q as f64 / 4.0, q), kind));
        }
    }
    // Apparent and geometric longitude differ by the Sun's aberration: 40 seconds of time.
    let tol = 0.0025;
    let clear = want.iter().all(|x| (x.0 - w.0).abs() > tol && (x.0 - w.1).abs() > tol);
    want.retain(|x| x.0 > w.0 && x.0 < w.1);
    s.checked();
    let got = if s.chance(1, 2) { no_panic("find_phase_events", || find_phase_events::<E>(wn, op))? } else { no_panic("phase_events", || Moon::phase_events(wn, op))? };
    if clear {
        let ok = got.len() == want.len() && got.iter().zip(&want).all(|(x, y)| (days(x.mjd) - y.0).abs() < tol && x.kind == y.1);
        ensure!(ok, "phases", "phases in {w:?}: {got:?}, the almanac has {want:?}");
    }
    // Geometry from the vectors.
    let t = s.f64(w.0, w.1);
    let j = JulianDate::new(t + 2_400_000.5);
    let geo = |t: f64| {
        let (m, u) = (place(1, t), place(0, t));
        let i = {
            let (x, y) = (sub(u, m), scale(m, -1.0));
            norm(cross(x, y)).atan2(dot(x, y))
        };
        let e = (m[1].atan2(m[0]) - u[1].atan2(u[0])).rem_euclid(TAU);
        (i, e)
    };
    let (i, e) = geo(t);
    s.checked();
    for g in [moon_phase_geocentric::<E>(j), Moon::phase_geocentric(j)] {
        ensure!((g.phase_angle.value() - i).abs() < 4e-4 && wrap(g.elongation.value() - e).abs() < 2e-6, "geometry", "{g:?} at MJD {t}, the vectors give phase angle {i} and elongation {e}");
        ensure!((g.illuminated_fraction.value() - 0.5 * (1.0 + i.cos())).abs() < 1e-4 && (e.sin().abs() < 1e-5 || g.waxing == (e < PI)), "geometry", "{g:?} at MJD {t}, phase angle {i}");
    }
    let o = site(s);
    let seen = |mirrored| {
        let (m, u) = (horizon(place(1, t), &o, t, mirrored), horizon(place(0, t), &o, t, mirrored));
        norm(cross(m, u)).atan2(dot(m, u))
    };
    let (mut psi, other) = (seen(false), seen(true));
    let el = moon_phase_topocentric::<E>(j, o).elongation.value();
    let off = |x: f64| (if el > PI { TAU - el } else { el } - x).abs();
    let mirrored = off(psi) > 5e-4 && off(other) < 5e-4;
    if mirrored {
        psi = other;
    }
    for g in [moon_phase_topocentric::<E>(j, o), Moon::phase_topocentric(j, o)] {
        let el = g.elongation.value();
        let sep = if el > PI { TAU - el } else { el };
        ensure!((sep - psi).abs() < 5e-4, "topocentric", "{g:?} at MJD {t} from {o:?}, {} deg lie between Moon and Sun", psi.to_degrees());
        ensure!((PI - g.phase_angle.value() - sep).abs() < 4e-3 && g.phase_angle.value() < PI - sep + 1e-9, "topocentric", "{g:?}: phase angle and elongation disagree");
        ensure!((g.illuminated_fraction.value() - 0.5 * (1.0 + g.phase_angle.value().cos())).abs() < 1e-12, "topocentric", "{g:?}: fraction and phase angle disagree");
        ensure!(psi < 0.15 || psi > PI - 0.15 || g.waxing == (e < PI), "topocentric", "{g:?} waxing at elongation {e}");
    }
    let at = s.f64(0.5, 3.0);
    let x = no_panic("sample", || MoonPhaseSeries::<E>::sample_topocentric(mjd(t), mjd(t + 2.0 * at), Days::new(at), o))?;
    ensure!(x.len() >= 2 && x.iter().enumerate().all(|(i, p)| {
        let g = moon_phase_topocentric::<E>(p.0.to::<siderust::JD>(), o);
        (days(p.0) - t - i as f64 * at).abs() < 1e-6 && g.elongation == p.1.elongation && g.illuminated_fraction == p.1.illuminated_fraction
    }), "series", "topocentric series from MJD {t}: {x:?}");
    // Illumination.
    let lit = |t: f64| 0.5 * (1.0 + geo(t).0.cos());
    let k1 = s.f64(0.05, 0.9);
    let k2 = (k1 + s.f64(0.05, 0.5)).min(0.97);
    let short = (w.0, w.1.min(w.0 + 20.0));
    let n = ((short.1 - short.0) * 4.0).ceil() as usize + 12;
    let h = (short.1 - short.0) / (n - 12) as f64;
    let tab = Sky { a: short.0 - 6.0 * h, h, u: (0..=n).map(|i| [0.0, 0.0, lit(short.0 + (i as f64 - 6.0) * h)]).collect() };
    let lit = |t: f64| tab.at(t)[2];
    let (g1, g2) = (|t: f64| lit(t) - k1, |t: f64| lit(t) - k2);
    if let (Some((c1, u1)), Some((c2, u2))) = (changes(&g1, short.0, short.1, 0.2, 2e-2, 1e-4, 1e-3, 0.0), changes(&g2, short.0, short.1, 0.2, 2e-2, 1e-4, 1e-3, 0.0)) {
        s.checked();
        let wn = win(short.0, short.1);
        let (a1, a2) = (periods(&c1, u1, short.0, short.1), periods(&c2, u2, short.0, short.1));
        let (f1, f2) = (IlluminationFractions::new(k1), IlluminationFractions::new(k2));
        let c = format!("fractions {k1} and {k2} in {short:?}");
        let mine = s.chance(1, 2);
        let got = no_panic("illumination_above", || if mine { Moon::illumination_above(wn, f1, op) } else { illumination_above::<E>(wn, f1, op) })?;
        same("lit", &got, &a1, 1e-4, &c)?;
        let got = no_panic("illumination_below", || if mine { Moon::illumination_below(wn, f1, op) } else { illumination_below::<E>(wn, f1, op) })?;
        same("lit", &got, &without(&a1, short.0, short.1), 1e-4, &c)?;
        let got = no_panic("illumination_range", || if mine { Moon::illumination_range(wn, f1, f2, op) } else { illumination_range::<E>(wn, f1, f2, op) })?;
        same("lit_range", &got, &super::events::meet(&a1, &without(&a2, short.0, short.1)), 1e-4, &c)?;
    }
    s.h(&t.to_bits().to_le_bytes());
    if mirrored {
        viol!("moon-parallax", "elongation {el} rad of the Moon at MJD {t} from {o:?} is the one seen from the mirrored site");
    }
    s.note(format!("{w:?} {} phases", got.len()));
    Ok(())
}

/// C33.
pub static C33: Prop = Prop {
    id: "C33",
    scenarios: &[("skies", 20, skies), ("places", 30, places), ("stars", 8, stars), ("dusk", 4, dusk), ("months", 2, months)],
    runs_quick: 1_500,
    runs_thorough: 200_000,
    rule: "skies: the real Sun, Moon or a planet over a site (anywhere, where it grazes the horizon or a twilight limit, where it passes overhead, where it transits at midnight) searched piece by piece, pieces ending near transits, against the body's own height and bearing sampled closely; places: height and bearing against an independent almanac; stars: fixed stars against it, and a star hunted to the zenith; dusk: nights and twilights; months: phases against Meeus' tables, geometry and illumination against the published series. Distinct = distinct hash of windows, events and places.",
    real: &["event::{altitude, azimuth, search, solar, lunar, horizontal}", "bodies (Sun, Moon, planets)", "ephemeris (VSOP87, ELP2000)", "astro precession, nutation, sidereal time"],
    stub: &[],
    assumptions: &["events further apart than the scan steps (20 minutes for Sun and Moon, two hours for planets); a rate of at least 0.1 per day at a Sun or Moon crossing; the almanac is good to 0.02 degrees"],
};
