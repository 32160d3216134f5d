//! C35: the air overhead.

use crate::core::{no_panic, Sim, R};
use crate::{ensure, viol, Prop};
use siderust::atmosphere::{self, AirmassFormula, AtmosphereProfile, Formula, KrisciunasSchaefer1991, MieParams, PhaseFunction, PlaneParallel, RayleighPhaseFunction, Rozenberg1966, TabulatedPhaseFunction, Young1994};
use siderust::bodies::aircraft::isa;
use siderust::checksum;
use siderust::coordinates::SkyGrid;
use siderust::event::lunar::photometry as moonlight;
use siderust::photometry::passbands::{self, bessell1990};
use siderust::pod::run::dataset::DatasetRef;
use siderust::qtty::{Airmasses, Degrees, Hectopascals, Kilometers, Meters, Nanometers, OpticalDepths, Pascals, Radians, Steradians};
use std::f64::consts::{PI, TAU};

const G: f64 = 9.80665;
const MOLAR: f64 = 0.0289644;
const GAS: f64 = 8.314462618;

fn m(x: f64) -> Meters {
    Meters::new(x)
}

fn km(x: f64) -> Kilometers {
    Kilometers::new(x)
}

fn nm(x: f64) -> Nanometers {
    Nanometers::new(x)
}

fn rad(x: f64) -> Radians {
    Radians::new(x)
}

/// Integral of 1/T over height in the standard atmosphere, by Gauss-Legendre on short cells.
fn column(h: f64) -> f64 {
    let t = |h: f64| if h <= 11_000.0 { 288.15 - 0.0065 * h } else { 216.65 };
    let cell = |a: f64, b: f64| -> f64 {
        let n = ((b - a).abs() / 250.0).ceil().max(1.0) as usize;
        let w = (b - a) / n as f64;
        (0..n)
            .map(|i| {
                let c = a + (i as f64 + 0.5) * w;
                let d = 0.5 * w * (0.6f64).sqrt();
                w / 18.0 * (5.0 / t(c - d) + 8.0 / t(c) + 5.0 / t(c + d))
            })
            .sum()
    };
    if h <= 11_000.0 {
        cell(0.0, h)
    } else {
        cell(0.0, 11_000.0) + cell(11_000.0, h)
    }
}

/// An aircraft climbs and descends with its instruments.
fn climb(s: &mut Sim) -> R {
    let mut h: f64 = s.f64(-400.0, 3000.0);
    let mut last: Option<(f64, f64)> = None;
    let mut phases = 0u64;
    for _ in 0..s.int(3, 12) {
        h = match s.below(6) {
            0 => 11_000.0 + s.f64(-1.0, 1.0),
            1 => *s.pick(&[0.0, 11_000.0, 20_000.0, -1000.0]),
            2 => (h + s.f64(-3.0, 3.0)).clamp(-1000.0, 20_000.0),
            _ => s.f64(-1000.0, 20_000.0),
        };
        if s.chance(1, 20) {
            s.fault("instrument out");
            let v = *s.pick(&[f64::NAN, f64::INFINITY, -1.0, 0.0, 1e300]);
            let _ = no_panic("pressure altitude of a dead sensor", || (isa::pressure_altitude_m(Pascals::new(v)), isa::pressure_at_altitude(m(v)), isa::temperature_at_altitude(m(v)), isa::geopotential_altitude_m(m(v)), isa::geometric_altitude_m(m(v))))?;
        }
        let p = isa::pressure_at_altitude(m(h)).value();
        let want = 101_325.0 * (-G * MOLAR / GAS * column(h)).exp();
        s.checked();
        ensure!((p / want - 1.0).abs() < 1e-9, "hydrostatic", "{p} Pa at {h} m, a column in balance gives {want}");
        let t = isa::temperature_at_altitude(m(h)).value();
        let tw = if h < 11_000.0 { 288.15 - 6.5 * h / 1000.0 } else { 216.65 };
        ensure!((t - tw).abs() < 1e-9, "temperature", "{t} K at {h} m, the standard says {tw}");
        let back = isa::pressure_altitude_m(Pascals::new(p)).value();
        ensure!((back - h).abs() < 1e-5, "inverse", "the altimeter reads {back} m at {h} m");
        if let Some((h0, p0)) = last {
            ensure!((h - h0).abs() < 1e-6 || (h > h0) == (p < p0), "rising", "pressure went from {p0} at {h0} m to {p} at {h} m");
        }
        last = Some((h, p));
        let z = if s.chance(1, 4) { s.f64(0.0, 2e5) } else { h };
        let gp = isa::geopotential_altitude_m(m(z)).value();
        // Work against gravity that weakens with height.
        let n = 40;
        let w = z / n as f64;
        let g = |z: f64| (6_356_766.0f64 / (6_356_766.0 + z)).powi(2);
        let work: f64 = (0..n)
            .map(|i| {
                let c = (i as f64 + 0.5) * w;
                let d = 0.5 * w * (0.6f64).sqrt();
                w / 18.0 * (5.0 * g(c - d) + 8.0 * g(c) + 5.0 * g(c + d))
            })
            .sum();
        ensure!((gp - work).abs() < 1e-6 + 1e-9 * z.abs(), "geopotential", "geopotential height {gp} at {z} m, the work done gives {work}");
        let zb = isa::geometric_altitude_m(m(gp)).value();
        ensure!((zb - z).abs() < 1e-6 + 1e-12 * z.abs(), "inverse", "{z} m becomes {gp} geopotential and {zb} again");
        phases |= 1 << ((h + 1000.0) / 1000.0) as u64;
        s.h(&h.to_le_bytes());
        s.advance(60_000_000_000);
    }
    s.state(phases);
    Ok(())
}

fn formulas(z: f64) -> [(&'static str, f64, f64); 4] {
    let c = z.cos();
    let t = |x: Airmasses| x.value();
    let young = {
        // Horner forms of the published rational function.
        let n = (1.002432 * c + 0.148386) * c + 0.0096467;
        let d = ((c + 0.149864) * c + 0.0102963) * c + 0.000303978;
        n / d
    };
    [
        (PlaneParallel::NAME, t(atmosphere::airmass::<PlaneParallel>(rad(z))), c.recip()),
        (Young1994::NAME, t(atmosphere::airmass::<Young1994>(rad(z))), young),
        (Rozenberg1966::NAME, t(atmosphere::airmass::<Rozenberg1966>(rad(z))), (c + 0.025 * (-11.0 * c).exp()).recip()),
        (KrisciunasSchaefer1991::NAME, t(atmosphere::airmass::<KrisciunasSchaefer1991>(rad(z))), (0.04 + 0.96 * c * c).sqrt().recip()),
    ]
}

/// Hansen & Travis 1974: the optical depth of clean air, by another fit than the library's.
fn clean_air(um: f64) -> f64 {
    let q = um.powi(-2);
    0.008569 * q * q * (1.0 + 0.0113 * q + 0.00013 * q * q)
}

/// A night-sky survey: tiles over the sky, the light of the Moon and the air through them.
fn survey(s: &mut Sim) -> R {
    // The tiles.
    let divides = s.chance(2, 3);
    let step = |s: &mut Sim, over: f64, lo: i64, hi: i64| -> f64 {
        if divides {
            over / s.int(lo, hi) as f64
        } else {
            s.f64(over / hi as f64, over / lo as f64)
        }
    };
    let whole = s.chance(1, 2);
    let lo: f64 = if whole { 0.0 } else { s.int(-30, 60) as f64 };
    let hi: f64 = if whole { 90.0 } else { lo + s.int(5, (90.0 - lo) as i64) as f64 };
    let da = step(s, hi - lo, 2, 18);
    let dz = step(s, 360.0, 3, 40);
    let equal = s.chance(1, 2);
    let grid = if equal { SkyGrid::equal_area(Degrees::new(da), Degrees::new(dz)) } else { SkyGrid::with_steps(Degrees::new(da), Degrees::new(dz)) };
    let grid = if whole { grid } else { grid.with_alt_range(Degrees::new(lo), Degrees::new(hi)) };
    s.h(format!("{lo} {hi} {da} {dz} {equal}").as_bytes());
    s.state(equal as u64 | (divides as u64) << 1 | (whole as u64) << 2);
    let cells: Vec<(f64, f64, f64)> = no_panic("iter_cells", || grid.iter_cells().map(|c| (c.direction.polar.value(), c.direction.azimuth.value(), c.solid_angle.value())).collect())?;
    let near = |x: f64| (x - x.floor() - 0.5).abs() > 1e-9;
    let rows = (hi - lo) / da;
    s.checked();
    ensure!(grid.len() == cells.len() && grid.is_empty() == cells.is_empty(), "tiles", "{} tiles announced, {} laid", grid.len(), cells.len());
    if near(rows) {
        let mut i = 0;
        for r in 0..rows.round() as usize {
            let alt = lo + (r as f64 + 0.5) * da;
            let want = if equal { (TAU * alt.to_radians().cos().max(0.0) / dz.to_radians()).max(0.0) } else { 360.0 / dz };
            if !near(want) {
                return Ok(());
            }
            let n = if equal { want.round().max(1.0) } else { want.round() };
            let w = if equal { 360.0 / n } else { dz };
            for j in 0..n as usize {
                let Some(&(a, z, o)) = cells.get(i) else { viol!("tiles", "tile {i} is missing: row {r} of {rows}, steps {da} and {dz}, equal area {equal}") };
                i += 1;
                ensure!((a - alt).abs() < 1e-9 && (z - (j as f64 + 0.5) * w).abs() < 1e-9, "tiles", "tile {j} of row {r} at {a}, {z}, is at {alt}, {}", (j as f64 + 0.5) * w);
                let area = alt.to_radians().cos() * da.to_radians() * w.to_radians();
                ensure!((o - area).abs() < 1e-12 + 1e-9 * area, "tiles", "tile at {a} {z} covers {o} sr, not {area}");
            }
        }
        ensure!(i == cells.len(), "tiles", "{} tiles laid, {i} wanted", cells.len());
        let plain: Vec<(f64, f64)> = (&grid).into_iter().map(|d| (d.polar.value(), d.azimuth.value())).collect();
        let solid: Vec<(f64, f64, f64)> = grid.with_solid_angle().map(|(d, o): (_, Steradians)| (d.polar.value(), d.azimuth.value(), o.value())).collect();
        ensure!(solid == cells && plain.iter().zip(&cells).all(|(p, c)| p.0 == c.0 && p.1 == c.1) && plain.len() == cells.len(), "tiles", "two walks over the grid differ");
        if divides {
            let total: f64 = cells.iter().map(|c| c.2).sum();
            let band = TAU * (hi.to_radians().sin() - lo.to_radians().sin());
            // Midpoint rule: at most a twenty-fourth of the step squared off.
            let lim = band.abs().max(TAU * (hi - lo).to_radians()) * da.to_radians().powi(2) / 20.0 + 1e-9;
            ensure!((total - band).abs() < lim, "tiles", "tiles cover {total} sr of a band of {band}");
        }
    }
    // The night.
    let custom = AtmosphereProfile {
        surface_pressure: Hectopascals::new(s.f64(500.0, 1040.0)),
        observer_altitude: km(s.f64(0.0, 5.0)),
        rayleigh_scale_height: km(s.f64(7.0, 9.0)),
        mie_params: MieParams { tau0: OpticalDepths::new(s.f64(0.0, 0.4)), alpha: s.f64(-2.0, -0.3), lambda_ref: nm(s.f64(400.0, 700.0)) },
    };
    let air = *s.pick(&[custom, AtmosphereProfile::EL_PARANAL, AtmosphereProfile::ROQUE_DE_LOS_MUCHACHOS, AtmosphereProfile::MAUNA_KEA, AtmosphereProfile::LA_SILLA]);
    let l = s.f64(320.0, 1000.0);
    let tau = air.optical_depth(nm(l)).value();
    let q = air.mie_params;
    let (p, h, sc) = (air.surface_pressure.value() / 1013.25, air.observer_altitude.value(), air.rayleigh_scale_height.value());
    let ray = atmosphere::rayleigh_optical_depth_bodhaine99(nm(l), air.surface_pressure, air.observer_altitude, air.rayleigh_scale_height).value();
    let clean = clean_air(l / 1000.0) * p * (-h / sc).exp();
    s.checked();
    ensure!((ray / clean - 1.0).abs() < 0.012, "rayleigh", "clean air {ray} deep at {l} nm, another fit says {clean}");
    let haze = atmosphere::mie_optical_depth(&q, nm(l)).value();
    let law = q.tau0.value() * (q.alpha * (l.ln() - q.lambda_ref.value().ln())).exp();
    ensure!((haze - law).abs() < 1e-9 * law.max(1e-3), "haze", "haze {haze} deep at {l} nm, Angstrom's law says {law}");
    ensure!((tau - ray - haze).abs() < 1e-12, "depth", "air {tau} deep, its parts are {ray} and {haze}");
    // Bluer light fares worse, a higher site better.
    let l2 = l + s.f64(1.0, 40.0);
    ensure!(air.optical_depth(nm(l2)).value() < tau, "depth", "air is deeper at {l2} nm than at {l} nm");
    let up = AtmosphereProfile { observer_altitude: km(h + 0.5), ..air };
    ensure!(up.optical_depth(nm(l)).value() < tau, "depth", "air is deeper half a kilometre up");
    // Down the sky along one azimuth.
    let mut worst: Option<[f64; 4]> = None;
    for k in 0..=12 {
        let z = (k as f64 / 12.0).min(1.0) * if s.chance(1, 3) { 1.5707 } else { 1.3 };
        let f = formulas(z);
        let mut row = [0.0; 4];
        for (i, (name, got, want)) in f.iter().enumerate() {
            ensure!((got / want - 1.0).abs() < 1e-9, "airmass", "{name} {got} at {z} rad, published {want}");
            row[i] = *got;
        }
        let sec = row[0];
        // All are fits to the same sky: above 60 degrees from the horizon they agree.
        if z < 1.0 {
            ensure!(row.iter().all(|x| (x / sec - 1.0).abs() < 0.06), "airmass", "formulas disagree at {z} rad: {row:?}");
        }
        let t: Vec<f64> = row.iter().map(|x| air.transmission(nm(l), Airmasses::new(*x)).value()).collect();
        for (x, t) in row.iter().zip(&t) {
            let half = atmosphere::transmission(OpticalDepths::new(tau), Airmasses::new(x / 2.0)).value();
            ensure!((0.0..=1.0).contains(t) && (t - half * half).abs() < 1e-12, "dimming", "{t} of the light comes through {x} airmasses of depth {tau}, {half} through half of them");
            let parts = atmosphere::transmission(OpticalDepths::new(ray), Airmasses::new(*x)).value() * atmosphere::transmission(OpticalDepths::new(haze), Airmasses::new(*x)).value();
            ensure!((t - parts).abs() < 1e-12, "dimming", "{t} comes through air and haze, {parts} through one after the other");
        }
        let _ = Formula::<Young1994>::new();
        worst = Some(row);
        // The glow of a thin layer: how much of it a line of sight crosses.
        let hl = s.f64(60.0, 400.0);
        let glow = atmosphere::van_rhijn_factor(rad(z), km(hl)).value();
        let re = siderust::bodies::solar_system::EARTH.radius.value();
        let dist = |h: f64| -re * z.cos() + (re * re * z.cos() * z.cos() + h * (2.0 * re + h)).sqrt();
        let d = 0.05;
        let slant = (dist(hl + d) - dist(hl - d)) / (2.0 * d);
        ensure!((glow / slant - 1.0).abs() < 1e-5, "airglow", "layer at {hl} km seen {glow} times thicker at {z} rad, its slant path is {slant}");
        ensure!(glow == atmosphere::van_rhijn_factor_with_radius(rad(z), km(hl), km(re)).value(), "airglow", "the Earth's own radius gives another factor");
        let big = s.f64(1e3, 8e4);
        let other = atmosphere::van_rhijn_factor_with_radius(rad(z), km(hl), km(big)).value();
        let want = (1.0 - (big / (big + hl) * z.sin()).powi(2)).sqrt().recip();
        ensure!((other / want - 1.0).abs() < 1e-6, "airglow", "planet of {big} km: {other}, by the published form {want}");
    }
    let _ = worst;
    if s.chance(1, 6) {
        s.fault("instrument out");
        let bad = *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        let v = no_panic("van_rhijn_factor of a dead sensor", || [atmosphere::van_rhijn_factor(rad(bad), km(90.0)).value(), atmosphere::van_rhijn_factor(rad(0.3), km(bad)).value(), atmosphere::van_rhijn_factor(rad(0.3), km(-90.0)).value(), moonlight::reflected_lunar_spectral_radiance_jones2013(bad, nm(550.0), rad(0.1), km(4e5)).value(), moonlight::reflected_lunar_spectral_radiance_jones2013(1.8, nm(550.0), rad(0.1), km(-4e5)).value()])?;
        ensure!(v.iter().all(|x| x.is_nan()), "dead sensor", "undefined readings gave {v:?}");
    }
    // The Moon.
    let (ph, dm, sun) = (s.f64(0.0, PI), s.f64(3.5e5, 4.1e5), s.f64(0.0, 2.2));
    let full = moonlight::lunar_full_moon_albedo_jones2013(nm(l)).value();
    ensure!((full - (0.075 + 0.065 * (l - 300.0) / 800.0)).abs() < 1e-12, "moonlight", "full-Moon albedo {full} at {l} nm");
    let ends = [s.f64(1.0, 300.0), s.f64(1100.0, 3000.0)].map(|x| moonlight::lunar_full_moon_albedo_jones2013(nm(x)).value());
    ensure!((ends[0] - 0.075).abs() < 1e-12 && (ends[1] - 0.14).abs() < 1e-12, "moonlight", "albedo outside the fit {ends:?}");
    let dim = moonlight::lunar_phase_attenuation_jones2013(rad(ph)).value();
    let a = ph.to_degrees();
    let mag = 0.026 * a + 4e-9 * a * a * a * a;
    ensure!((-2.5 * dim.log10() - mag).abs() < 1e-9 && dim <= 1.0, "moonlight", "the Moon at {a} deg is dimmed by {dim}, {mag} magnitudes");
    ensure!(moonlight::lunar_phase_attenuation_jones2013(rad(-ph)).value() == dim, "moonlight", "waxing and waning differ at {a} deg");
    let alb = moonlight::lunar_albedo_jones2013(rad(ph), nm(l)).value();
    ensure!((alb - full * dim).abs() < 1e-12, "moonlight", "albedo {alb} is not {full} dimmed by {dim}");
    let lum = moonlight::reflected_lunar_spectral_radiance_jones2013(sun, nm(l), rad(ph), km(dm)).value();
    let want = sun * (1737.4 / dm).powi(2) * (384_400.0 / dm).powi(2) * full * dim;
    ensure!((lum - want).abs() <= 1e-9 * want, "moonlight", "radiance {lum}, {want} wanted at {dm} km, {a} deg, {l} nm");
    Ok(())
}

fn tables(s: &mut Sim) -> R {
    let k = s.below(4);
    s.state(64 + k);
    match k {
        0 => phase_table(s),
        1 => {
            // The bundled curves, read between their own points.
            let which = s.below(7);
            let xs: Vec<f64>;
            let ys: Vec<f64>;
            let o3;
            let at: Box<dyn Fn(f64) -> f64> = if which == 6 {
                o3 = atmosphere::transmission_table();
                (xs, ys) = (o3.xs_raw().to_vec(), o3.ys_raw().to_vec());
                Box::new(|x| siderust::atmosphere::ozone::transmittance_at(nm(x)).value())
            } else {
                let t = match which {
                    0 => bessell1990::u(),
                    1 => bessell1990::b(),
                    2 => bessell1990::v(),
                    3 => bessell1990::r(),
                    4 => bessell1990::i(),
                    _ => {
                        ensure!(std::ptr::eq(passbands::johnson_b(), bessell1990::b()) && std::ptr::eq(passbands::johnson_v(), bessell1990::v()), "passband", "the Johnson names give other curves");
                        passbands::johnson_v()
                    }
                };
                (xs, ys) = (t.xs_raw().to_vec(), t.ys_raw().to_vec());
                Box::new(move |x| t.interp_at(nm(x)).value())
            };
            ensure!(xs.windows(2).all(|w| w[0] < w[1]) && ys.iter().all(|y| (0.0..=1.0).contains(y)), "curve", "curve {which} is not a curve of fractions over rising wavelengths");
            // What the published bands are: effective wavelength in nanometres.
            if which < 5 {
                let (mut n, mut d) = (0.0, 0.0);
                for i in 1..xs.len() {
                    let w = (xs[i] - xs[i - 1]) / 2.0;
                    n += w * (xs[i] * ys[i] + xs[i - 1] * ys[i - 1]);
                    d += w * (ys[i] + ys[i - 1]);
                }
                let eff = n / d;
                let want = [366.0, 438.0, 545.0, 658.0, 805.0][which as usize];
                ensure!((eff - want).abs() < 12.0, "passband", "band {which} is centred on {eff} nm, published {want}");
            }
            for _ in 0..8 {
                let i = s.idx(xs.len() - 1);
                let f = if s.chance(1, 4) { 0.0 } else { s.unit() };
                let x = xs[i] + f * (xs[i + 1] - xs[i]);
                let want = ys[i] + (x - xs[i]) / (xs[i + 1] - xs[i]) * (ys[i + 1] - ys[i]);
                let got = no_panic("interp_at", || at(x))?;
                s.checked();
                ensure!((got - want).abs() < 1e-9, "curve", "curve {which} at {x} nm: {got}, between its points {want}");
            }
            let out = if s.chance(1, 2) { xs[0] - s.f64(0.01, 200.0) } else { xs[xs.len() - 1] + s.f64(0.01, 2000.0) };
            let got = no_panic("interp_at", || at(out))?;
            let want = if which != 6 {
                0.0
            } else if out < xs[0] {
                ys[0]
            } else {
                ys[ys.len() - 1]
            };
            ensure!(got == want, "curve", "curve {which} at {out} nm, outside it: {got}, should be {want}");
            s.h(format!("{which} {out}").as_bytes());
            Ok(())
        }
        2 => {
            // Bundled data: the pinned digest is the digest, and one changed bit shows.
            let n = match s.below(4) {
                0 => s.int(50, 70),
                1 => s.int(110, 135),
                _ => s.int(0, 1000),
            } as usize;
            let mut data: Vec<u8> = (0..n).map(|_| s.below(256) as u8).collect();
            let sum = no_panic("sha256", || checksum::to_hex(&checksum::sha256(&data)))?;
            let other = DatasetRef::from_bytes("x", "k", &data).sha256;
            s.checked();
            ensure!(sum == other, "digest", "{n} bytes hash to {sum}, the recorded digest is {other}");
            if no_panic("assert_sha256_eq", || checksum::assert_sha256_eq("data", &data, &sum)).is_err() {
                viol!("digest", "untouched data of {n} bytes is refused");
            }
            s.h(sum.as_bytes());
            if n > 0 {
                s.fault("bit flipped in bundled data");
                let i = s.idx(n);
                data[i] ^= 1 << s.below(8);
                let seen = std::panic::catch_unwind(|| checksum::assert_sha256_eq("data", &data, &sum)).is_err();
                ensure!(seen, "digest", "a flipped bit in byte {i} of {n} goes unnoticed");
            }
            Ok(())
        }
        _ => {
            // Clean air scatters what it takes: the phase function spreads one photon over the sphere.
            let n = 400;
            let mut sum = 0.0;
            for i in 0..n {
                let c = -1.0 + (i as f64 + 0.5) * 2.0 / n as f64;
                sum += TAU * 2.0 / n as f64 * atmosphere::rayleigh_phase(rad(c.acos())).value();
            }
            ensure!((sum - 1.0).abs() < 1e-4, "phase", "clean air scatters {sum} of the light it takes");
            let (t, l) = (s.f64(0.0, PI), s.f64(300.0, 1000.0));
            let got = RayleighPhaseFunction.phase(nm(l), rad(t)).value();
            let c = t.cos();
            s.checked();
            ensure!((got - 3.0 / (16.0 * PI) * (1.0 + c * c)).abs() < 1e-12, "phase", "clean air at {t} rad: {got}");
            ensure!((got - atmosphere::rayleigh_phase(rad(PI - t)).value()).abs() < 1e-12, "phase", "forward and backward differ");
            s.h(&t.to_le_bytes());
            Ok(())
        }
    }
}

/// A measured phase function, as a table that may arrive damaged.
fn phase_table(s: &mut Sim) -> R {
    let axis = |s: &mut Sim, lo: f64, hi: f64| -> Vec<f64> {
        let n = s.int(2, 7) as usize;
        let w = (hi - lo) / n as f64;
        (0..n).map(|i| lo + (i as f64 + s.f64(0.05, 0.95)) * w).collect()
    };
    let (mut ls, mut an) = (axis(s, 300.0, 1000.0), axis(s, 0.0, 180.0));
    if s.chance(1, 4) {
        ls.reverse();
    }
    if s.chance(1, 4) {
        an.reverse();
    }
    let mut v: Vec<f64> = (0..ls.len() * an.len()).map(|_| s.f64(0.0, 10.0)).collect();
    s.h(format!("{ls:?}{an:?}").as_bytes());
    if s.chance(1, 3) {
        let what = s.below(5);
        let i = s.idx(ls.len());
        let j = s.idx(an.len());
        match what {
            0 => {
                s.fault("table torn");
                let keep = s.idx(v.len());
                v.truncate(keep);
            }
            1 => {
                s.fault("table duplicated row");
                v.extend_from_within(..ls.len());
            }
            2 => {
                s.fault("axis undefined");
                let bad = *s.pick(&[f64::NAN, f64::INFINITY]);
                if s.chance(1, 2) {
                    ls[i] = bad;
                } else {
                    an[j] = bad;
                }
            }
            3 => {
                s.fault("axis out of order");
                let i = s.idx(ls.len() - 1);
                ls[i + 1] = ls[i];
            }
            _ => {
                s.fault("axis of one point");
                ls.truncate(1);
                v.truncate(an.len());
            }
        }
        let r = no_panic("from_raw_row_major", || TabulatedPhaseFunction::from_raw_row_major(&ls, &an, &v).is_ok())?;
        s.checked();
        ensure!(!r, "damaged table", "accepted: wavelengths {ls:?}, angles {an:?}, {} values", v.len());
        return Ok(());
    }
    let t = match no_panic("from_raw_row_major", || TabulatedPhaseFunction::from_raw_row_major(&ls, &an, &v))? {
        Ok(t) => t,
        Err(e) => viol!("table", "a sound table is refused: {e:?}"),
    };
    let locate = |a: &[f64], x: f64| -> (usize, f64) {
        let (lo, hi) = (a[0].min(a[a.len() - 1]), a[0].max(a[a.len() - 1]));
        let x = x.clamp(lo, hi);
        let i = (0..a.len() - 1).find(|&i| (a[i].min(a[i + 1])..=a[i].max(a[i + 1])).contains(&x)).unwrap();
        (i, (x - a[i]) / (a[i + 1] - a[i]))
    };
    for _ in 0..6 {
        let (l, a) = (if s.chance(1, 5) { ls[s.idx(ls.len())] } else { s.f64(200.0, 1200.0) }, if s.chance(1, 5) { an[s.idx(an.len())] } else { s.f64(-10.0, 190.0) });
        let ((i, x), (j, y)) = (locate(&ls, l), locate(&an, a));
        let f = |di: usize, dj: usize| v[(j + dj) * ls.len() + i + di];
        let want = (f(0, 0) * (1.0 - x) + f(1, 0) * x) * (1.0 - y) + (f(0, 1) * (1.0 - x) + f(1, 1) * x) * y;
        let got = no_panic("interp_at", || t.interp_at(nm(l), rad(a.to_radians())).value())?;
        s.checked();
        ensure!((got - want).abs() < 1e-7, "table", "{got} at {l} nm, {a} deg; the table says {want}: wavelengths {ls:?}, angles {an:?}");
        ensure!(t.phase(nm(l), rad(a.to_radians())).value() == got, "table", "phase and interp_at differ");
    }
    Ok(())
}

pub static C35: Prop = Prop {
    id: "C35",
    scenarios: &[("climb", 3, climb), ("survey", 4, survey), ("tables", 3, tables)],
    runs_quick: 1_500_000,
    runs_thorough: 40_000_000,
    rule: "the standard atmosphere is in hydrostatic balance and its altimeter inverts it; sky tiles cover the sky they announce; more air, bluer light and a lower site mean less light, layer after layer multiplying; airglow is the slant path of its shell; moonlight follows distance and phase; tables answer between their own points and damaged ones are refused",
    real: &["bodies::aircraft::isa", "atmosphere::*", "coordinates::sampling", "photometry::passbands", "event::lunar::photometry", "checksum", "optica grids and spectra"],
    stub: &["the sensors, the survey plan and the medium tables and bundled data are kept on"],
    assumptions: &["the published forms (ISA, Bodhaine 1999, Young 1994, Rozenberg 1966, Krisciunas & Schaefer 1991, Jones 2013) are the models these functions name"],
};
