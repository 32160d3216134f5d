//! C31: star catalogues and what a search of them returns.
//!
//! A survey desk loads its catalogue piece by piece over a link that damages
//! and repeats pieces, while observers search it.

use crate::core::{no_panic, Sim, R};
use crate::io::{ReadPlan, SimRead};
use crate::kepler::{add, cross, dot, norm, scale, V3};
use crate::{ensure, viol, Prop};
use siderust::catalogs::{parse_csv_chunk, CatalogFilter, CatalogRecord, LargeStarCatalog};
use siderust::qtty::{KmPerSeconds, MilliArcseconds, Radians};
use std::f64::consts::{FRAC_PI_2, PI, TAU};
use std::io::Read;

const MAS: f64 = PI / 180.0 / 3_600_000.0;

fn unit(ra: f64, dec: f64) -> V3 {
    [dec.cos() * ra.cos(), dec.cos() * ra.sin(), dec.sin()]
}

fn sep(a: V3, b: V3) -> f64 {
    norm(cross(a, b)).atan2(dot(a, b))
}

/// A direction: anywhere, at a pole, near the RA seam, or close to or opposite
/// one already in play.
fn direction(s: &mut Sim, near: &[(f64, f64)]) -> (f64, f64) {
    match s.below(8) {
        0 => (s.f64(0.0, TAU), *s.pick(&[FRAC_PI_2, -FRAC_PI_2])),
        1 => {
            let d = 10f64.powf(s.f64(-9.0, -1.0));
            (if s.chance(1, 2) { d } else { TAU - d }, s.f64(-1.5, 1.5))
        }
        2 => (s.f64(0.0, TAU), (FRAC_PI_2 - 10f64.powf(s.f64(-9.0, -1.0))) * *s.pick(&[1.0, -1.0])),
        3 | 4 if !near.is_empty() => {
            let (ra, dec) = *s.pick(near);
            let d = 10f64.powf(s.f64(-8.0, -1.0));
            let (x, y) = (s.f64(-d, d), s.f64(-d, d));
            ((ra + x / dec.cos().max(0.01)).rem_euclid(TAU), (dec + y).clamp(-FRAC_PI_2, FRAC_PI_2))
        }
        5 if !near.is_empty() => {
            let (ra, dec) = *s.pick(near);
            ((ra + PI).rem_euclid(TAU), -dec)
        }
        _ => (s.f64(0.0, TAU), s.f64(-1.0, 1.0).asin()),
    }
}

fn record(s: &mut Sim, id: u64, near: &[(f64, f64)]) -> CatalogRecord {
    let (ra, dec) = direction(s, near);
    // What a catalogue prints, in degrees.
    let (ra, dec) = (ra.to_degrees().to_radians(), dec.to_degrees().to_radians());
    let pm = |s: &mut Sim| if s.chance(1, 5) { None } else { Some(if s.chance(1, 4) { s.f64(-10_000.0, 10_000.0) } else { s.f64(-300.0, 300.0) }) };
    let (pa, pd) = (pm(s), pm(s));
    let mag = |s: &mut Sim| if s.chance(1, 5) { None } else { Some((s.f64(0.0, 20.0) * 10.0).round() / 10.0) };
    let (g, bp, rp) = (mag(s), mag(s), mag(s));
    let (plx, rv) = (mag(s), mag(s));
    CatalogRecord {
        source_id: id,
        ra: Radians::new(ra),
        dec: Radians::new(dec),
        epoch_jyr: *s.pick(&[2016.0, 1991.25, 2000.0, 2015.5]),
        pm_ra_cosdec: pa,
        pm_dec: pd,
        parallax: plx.map(MilliArcseconds::new),
        radial_velocity: rv.map(KmPerSeconds::new),
        g_mag: g,
        bp_mag: bp,
        rp_mag: rp,
        quality_ok: s.chance(3, 4),
    }
}

fn csv(s: &mut Sim, recs: &[CatalogRecord]) -> String {
    let mut o = "source_id,ra,dec,epoch,pmra,pmdec,parallax,radial_velocity,g_mag,bp_mag,rp_mag,quality\n".to_string();
    let f = |v: Option<f64>| v.map_or(String::new(), |v| v.to_string());
    for r in recs {
        if s.chance(1, 10) {
            o += "\n# continued\n";
        }
        o += &format!(
            "{},{},{},{},{},{},{},{},{},{},{},{}\n",
            r.source_id,
            r.ra.value().to_degrees(),
            r.dec.value().to_degrees(),
            r.epoch_jyr,
            f(r.pm_ra_cosdec),
            f(r.pm_dec),
            f(r.parallax.map(|v| v.value())),
            f(r.radial_velocity.map(|v| v.value())),
            f(r.g_mag),
            f(r.bp_mag),
            f(r.rp_mag),
            if r.quality_ok { "1" } else { "0" }
        );
    }
    o
}

/// Direction after `yr` years of straight-line motion, and how far the linear
/// approximation in angles may be from it.
fn moved(r: &CatalogRecord, epoch: f64) -> (V3, f64) {
    let (ra, dec) = (r.ra.value(), r.dec.value());
    let u = unit(ra, dec);
    let (Some(a), Some(d)) = (r.pm_ra_cosdec, r.pm_dec) else { return (u, 0.0) };
    let yr = epoch - r.epoch_jyr;
    let east = [-ra.sin(), ra.cos(), 0.0];
    let north = cross(u, east);
    let (a, d) = (a * MAS * yr, d * MAS * yr);
    let v = add(u, add(scale(east, a), scale(north, d)));
    let th = (a * a + d * d).sqrt();
    // Meridian convergence over the path.
    let room = dec.cos() - th;
    let bend = if room <= 0.0 { f64::INFINITY } else { th * th * (1.0 + 1.0 / room) * 1.5 };
    (scale(v, 1.0 / norm(v)), bend)
}

fn same(a: &CatalogRecord, b: &CatalogRecord) -> bool {
    let ang = (a.ra.value() - b.ra.value()).abs() < 1e-14 && (a.dec.value() - b.dec.value()).abs() < 1e-14;
    ang && CatalogRecord { ra: b.ra, dec: b.dec, ..a.clone() } == *b
}

fn survey(s: &mut Sim) -> R {
    let mut cat = if s.chance(1, 2) { LargeStarCatalog::new() } else { LargeStarCatalog::default() };
    let mut model: Vec<CatalogRecord> = vec![];
    let mut near: Vec<(f64, f64)> = vec![];
    for step in 0..s.int(3, 14) {
        s.advance(1_000_000_000);
        if step == 0 || s.chance(1, 4) {
            let n = s.int(0, 30);
            let part: Vec<CatalogRecord> = (0..n)
                .map(|i| {
                    let r = record(s, model.len() as u64 * 1000 + i as u64, &near);
                    if near.len() < 40 {
                        near.push((r.ra.value(), r.dec.value()));
                    }
                    r
                })
                .collect();
            match s.below(4) {
                0 => {
                    for r in &part {
                        no_panic("push", || cat.push(r.clone()))?;
                    }
                    model.extend(part);
                }
                1 => {
                    no_panic("extend", || cat.extend(part.iter().cloned()))?;
                    model.extend(part);
                }
                _ => {
                    // By file: damaged on the way, refused, and sent again.
                    let text = csv(s, &part);
                    let mut tries = 0;
                    loop {
                        let mut t = text.clone();
                        let hurt = tries < 2 && !part.is_empty() && s.chance(1, 3);
                        if hurt {
                            s.fault("number damaged in transit");
                            let line = s.idx(part.len());
                            let bad = *s.pick(&["1.2.3", "12x", "--1", "1e"]);
                            let want = format!("\n{},", part[line].source_id);
                            let at = t.find(&want).expect("own row") + want.len();
                            t.insert_str(at, bad);
                            t = t.replacen(bad, &format!("{bad},"), 1);
                            // The row now has one field too many, its second one is no number.
                        }
                        let plan = ReadPlan::benign(s);
                        let mut got = String::new();
                        SimRead::new(t.as_bytes(), plan).read_to_string(&mut got).ok();
                        match no_panic("parse_csv_chunk", || parse_csv_chunk(&got))? {
                            Ok(v) => {
                                ensure!(!hurt, "damage", "accepted a damaged row:\n{t}");
                                ensure!(v.len() == part.len() && v.iter().zip(&part).all(|(a, b)| same(a, b)), "ingest", "read {v:?} from\n{t}");
                                no_panic("extend", || cat.extend(v.clone()))?;
                                model.extend(v);
                                break;
                            }
                            Err(e) => ensure!(hurt, "ingest", "refused an intact piece: {e}\n{t}"),
                        }
                        tries += 1;
                    }
                }
            }
            ensure!(cat.len() == model.len() && cat.is_empty() == model.is_empty(), "records", "{} records, {} loaded", cat.len(), model.len());
            ensure!(cat.records() == &model[..], "records", "the catalogue's records are not those loaded");
            s.checked();
            continue;
        }
        let (ra, dec) = direction(s, &near);
        let radius = match s.below(6) {
            0 => 0.0,
            1 => *s.pick(&[FRAC_PI_2, PI]),
            2 => s.f64(0.0, PI),
            // A whisker around the distance of a star.
            3 if !near.is_empty() => {
                let (a, d) = *s.pick(&near);
                sep(unit(a, d), unit(ra, dec)) * (1.0 + 10f64.powf(s.f64(-9.0, -2.0)) * *s.pick(&[1.0, -1.0]))
            }
            _ => 10f64.powf(s.f64(-6.0, 0.3)),
        };
        let wind = if s.chance(1, 5) { TAU * *s.pick(&[1.0, -1.0]) } else { 0.0 };
        let filter = CatalogFilter {
            max_g_mag: if s.chance(1, 2) { Some((s.f64(-1.0, 21.0) * 10.0).round() / 10.0) } else { None },
            require_quality: *s.pick(&[None, None, Some(true), Some(false)]),
        };
        let epoch = if s.chance(1, 2) { Some(if s.chance(1, 4) { 2016.0 } else { s.f64(1900.0, 2100.0) }) } else { None };
        let what = format!("cone of {radius} rad around ({ra}, {dec}), {filter:?}, epoch {epoch:?}");
        s.h(what.as_bytes());
        let (r0, d0, rr) = (Radians::new(ra + wind), Radians::new(dec), Radians::new(radius));
        let got: Vec<usize> = {
            let v = match epoch {
                Some(t) => no_panic("cone_search_at_epoch", || cat.cone_search_at_epoch(r0, d0, rr, t, filter))?,
                None => no_panic("cone_search", || cat.cone_search(r0, d0, rr, filter))?,
            };
            let base = cat.records().as_ptr();
            v.iter().map(|r| (*r as *const CatalogRecord as usize - base as usize) / size_of::<CatalogRecord>()).collect()
        };
        ensure!(got.windows(2).all(|w| w[0] < w[1]), "order", "{what}: matches {got:?} out of catalogue order");
        let c = unit(ra, dec);
        for (i, r) in model.iter().enumerate() {
            let (u, bend) = epoch.map_or((unit(r.ra.value(), r.dec.value()), 0.0), |t| moved(r, t));
            let d = sep(u, c);
            let bright = filter.max_g_mag.map_or(true, |m| r.g_mag.is_some_and(|g| g <= m));
            let fine = filter.require_quality.map_or(true, |q| q == r.quality_ok);
            // asin and acos lose half their digits near the antipode.
            let blur = 1e-11 + bend + if d > 3.0 { 1e-7 } else { 0.0 };
            if (d - radius).abs() < blur || !bend.is_finite() {
                s.probe("on the rim");
                continue;
            }
            let want = bright && fine && d < radius;
            let has = got.binary_search(&i).is_ok();
            ensure!(want == has, "cone", "{what}: star {i} at {d} rad, magnitude {:?}, quality {}: returned {has} ({r:?})", r.g_mag, r.quality_ok);
            s.checked();
        }
        if epoch.is_none() {
            let chunk = if s.chance(1, 8) { 0 } else { s.int(1, 40) as usize };
            let parts: Vec<Vec<u64>> = no_panic("cone_search_chunked", || cat.cone_search_chunked(r0, d0, rr, filter, chunk).map(|v| v.iter().map(|r| r.source_id).collect()).collect())?;
            let flat: Vec<u64> = parts.concat();
            let whole: Vec<u64> = got.iter().map(|i| model[*i].source_id).collect();
            ensure!(flat == whole, "chunks", "{what}: by chunks of {chunk} {flat:?}, at once {whole:?}");
            let k = chunk.max(1);
            ensure!(parts.len() == model.len().div_ceil(k), "chunks", "{what}: {} chunks of {chunk} from {} records", parts.len(), model.len());
            for (j, p) in parts.iter().enumerate() {
                let range = j * k..((j + 1) * k).min(model.len());
                let own: Vec<u64> = got.iter().filter(|i| range.contains(i)).map(|i| model[*i].source_id).collect();
                ensure!(*p == own, "chunks", "{what}: chunk {j} of {chunk} holds {p:?}, expected {own:?}");
            }
            s.checked();
        }
        s.state(got.len() as u64 * 100 + model.len() as u64);
    }
    Ok(())
}

/// A star's own direction at other epochs.
fn drift(s: &mut Sim) -> R {
    let r = record(s, 1, &[]);
    s.h(format!("{r:?}").as_bytes());
    for _ in 0..5 {
        let t = match s.below(4) {
            0 => r.epoch_jyr,
            _ => r.epoch_jyr + s.f64(-300.0, 300.0),
        };
        let (ra, dec) = no_panic("propagate_to", || r.propagate_to(t))?;
        let (ra, dec) = (ra.value(), dec.value());
        ensure!(dec.abs() <= FRAC_PI_2 + 1e-15 && (-1e-9..=TAU).contains(&ra), "range", "{r:?} at {t}: ({ra}, {dec})");
        if r.pm_ra_cosdec.is_none() || r.pm_dec.is_none() || t == r.epoch_jyr {
            let d = sep(unit(ra, dec), unit(r.ra.value(), r.dec.value()));
            ensure!(d < 1e-14, "still", "{r:?} at {t} moved by {d}");
        }
        let (want, bend) = moved(&r, t);
        if bend.is_finite() {
            let d = sep(unit(ra, dec), want);
            ensure!(d < 1e-14 + bend, "drift", "{r:?} at {t}: ({ra}, {dec}) is {d} rad from its straight path (bend {bend})");
        } else if r.dec.value().cos() > 1e-6 {
            // Across the pole: how far it went is still the proper motion in declination.
            let (a, dd) = (r.pm_ra_cosdec.unwrap_or(0.0) * MAS * (t - r.epoch_jyr), r.pm_dec.unwrap_or(0.0) * MAS * (t - r.epoch_jyr));
            let turn = (a / r.dec.value().cos()).abs();
            if turn < 1e-3 {
                let along = sep(unit(ra, dec), unit(r.ra.value(), r.dec.value()));
                ensure!((along - dd.abs()).abs() < 1e-12 + a.abs() + turn * dd.abs() + 2.0 * turn * r.dec.value().cos(), "pole", "{r:?} at {t}: went {along} rad, its motion is {dd}");
                s.probe("across a pole");
            }
        }
        s.checked();
    }
    match viol_guard(&r) {
        Some(m) => viol!("range", "{m}"),
        None => Ok(()),
    }
}

fn viol_guard(r: &CatalogRecord) -> Option<String> {
    let (a, b) = (r.propagate_to(2050.0), r.propagate_to(2050.0));
    (a != b).then(|| format!("asked twice for 2050: {a:?} and {b:?}"))
}

pub static C31: Prop = Prop {
    id: "C31",
    scenarios: &[("survey", 4, survey), ("drift", 1, drift)],
    runs_quick: 300_000,
    runs_thorough: 2_000_000,
    rule: "a search returns exactly the loaded records inside the cone and the filter, in catalogue order, at any epoch, whole or by chunks",
    real: &["src/catalogs"],
    stub: &["survey link"],
    assumptions: &["directions on the rim of a cone (1e-11 rad, plus the curvature of a fast star's path) are not judged"],
};
