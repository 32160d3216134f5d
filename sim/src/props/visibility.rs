//! C27: what a mission sees along its orbit (shadows, passes, sites, instruments).

use crate::core::{no_panic, Sim, R};
use crate::kepler::{self, add, cross, dot, norm, scale, sub, V3};
use crate::{ensure, Prop};
use siderust::coordinates::cartesian::{Direction, Position, Velocity};
use siderust::coordinates::centers::Geocentric;
use siderust::coordinates::frames::GCRS;
use siderust::mission::context::MissionContext;
use siderust::mission::geometry::{
    azimuth_elevation_range, beta_angle, eclipse_state, line_of_sight_obstructed, local_solar_time, ltan, occultation_fraction, solar_eclipsing, EclipseState, Fov, Instrument, LocalFrame, TerrainMask,
};
use siderust::mission::site::Location;
use siderust::qtty::{Meter, Meters, Per, Radians};
use std::collections::BTreeMap;
use std::f64::consts::{PI, TAU};

type P = Position<Geocentric, GCRS, Meter>;
type V = Velocity<GCRS, Per<Meter, siderust::qtty::unit::Second>>;

fn p(v: V3) -> P {
    P::new(v[0], v[1], v[2])
}
fn vel(v: V3) -> V {
    V::new(v[0], v[1], v[2])
}
fn rad(x: f64) -> Radians {
    Radians::new(x)
}
fn m(x: f64) -> Meters {
    Meters::new(x)
}

fn dir(s: &mut Sim) -> V3 {
    let z = s.f64(-1.0, 1.0);
    let a = s.f64(0.0, TAU);
    let c = (1.0 - z * z).sqrt();
    [c * a.cos(), c * a.sin(), z]
}

/// Two unit vectors perpendicular to `d`.
fn around(d: V3) -> (V3, V3) {
    let h = if d[2].abs() < 0.9 { [0.0, 0.0, 1.0] } else { [1.0, 0.0, 0.0] };
    let u = cross(d, h);
    let u = scale(u, 1.0 / norm(u));
    (u, cross(d, u))
}

fn angle(a: V3, b: V3) -> f64 {
    norm(cross(a, b)).atan2(dot(a, b))
}

/// Distance along the ray from the origin in direction `d` (unit) to the sphere, if it meets it ahead.
fn hit(d: V3, c: V3, r: f64) -> Option<f64> {
    let b = dot(d, c);
    let perp = norm(sub(c, scale(d, b)));
    if perp > r {
        return None;
    }
    let h = (r * r - perp * perp).sqrt();
    if b + h < 0.0 {
        return None;
    }
    Some((b - h).max(0.0))
}

/// Part of the target's disc hidden by the occulter, by casting rays.
fn hidden(target: V3, rt: f64, occ: V3, ro: f64) -> (f64, usize) {
    let nt = norm(target);
    let d = scale(target, 1.0 / nt);
    let (u, w) = around(d);
    let at = (rt / nt).asin();
    let (mut all, mut blocked) = (0usize, 0usize);
    let n = 24;
    for i in 0..n {
        let rho = at * ((i as f64 + 0.5) / n as f64).sqrt();
        for k in 0..n {
            let th = TAU * (k as f64 + 0.5 * (i % 2) as f64) / n as f64;
            let q = add(scale(d, rho.cos()), scale(add(scale(u, th.cos()), scale(w, th.sin())), rho.sin()));
            let Some(tt) = hit(q, target, rt) else { continue };
            all += 1;
            if let Some(to) = hit(q, occ, ro) {
                if to <= tt {
                    blocked += 1;
                }
            }
        }
    }
    (blocked as f64 / all.max(1) as f64, all)
}

fn check_view(sat: V3, sun: V3, rs: f64, occ: V3, ro: f64, s: &mut Sim) -> R<Option<EclipseState>> {
    let (t, o) = (sub(sun, sat), sub(occ, sat));
    let (nt, no) = (norm(t), norm(o));
    if no < ro * (1.0 + 1e-9) || nt < rs * (1.0 + 1e-6) || norm(sub(t, o)) < (ro + rs) * (1.0 + 1e-9) {
        return Ok(None);
    }
    let (at, ao, sep) = ((rs / nt).asin(), (ro / no).asin(), angle(t, o));
    let behind = no * no - ro * ro > nt * nt - rs * rs;
    let g = 1e-6f64.max(at * 1e-4);
    let want = if behind || sep > at + ao + g {
        Some(EclipseState::Sunlight)
    } else if sep + at < ao - g {
        Some(EclipseState::Umbra)
    } else if (sep - ao).abs() < at - g || sep + ao < at - g {
        Some(EclipseState::Penumbra)
    } else {
        None
    };
    let (ps, pu, po) = (p(sat), p(sun), p(occ));
    let got = no_panic("eclipse_state", || eclipse_state(&ps, &pu, m(rs), &po, m(ro)))?;
    let any = no_panic("solar_eclipsing", || solar_eclipsing(&ps, &pu, m(rs), &po, m(ro)))?;
    let f = no_panic("occultation_fraction", || occultation_fraction(&ps, &pu, m(rs), &po, m(ro)))?;
    let ctx = || format!("light at {t:?} (radius {rs}), occulter at {o:?} (radius {ro}), seen {} deg apart, radii {} and {} deg, behind {behind}", sep.to_degrees(), at.to_degrees(), ao.to_degrees());
    s.checked();
    if let Some(w) = want {
        ensure!(got == w, "shadow", "{got:?}, geometry says {w:?}: {}", ctx());
    }
    ensure!(any == (got != EclipseState::Sunlight), "shadow", "eclipsed: {any}, state {got:?}: {}", ctx());
    ensure!((0.0..=1.0).contains(&f), "fraction", "hidden fraction {f}: {}", ctx());
    if want.is_some() && at < 0.1 {
        let (q, n) = hidden(t, rs, o, ro);
        if n > 400 {
            ensure!((q - f).abs() < 0.06, "fraction", "hidden fraction {f}, rays say {q}: {}", ctx());
        }
    }
    Ok(Some(got))
}

/// A satellite goes round a body that hides its sun.
fn shadow(s: &mut Sim) -> R<()> {
    let ro = 10f64.powf(s.f64(5.0, 7.9));
    let mu = 5.0e-7 * ro * ro * ro * s.f64(0.3, 3.0);
    let d = dir(s);
    let dist = 10f64.powf(s.f64(10.0, 12.5));
    let rs = dist * s.f64(1e-4, 0.02);
    let sun = scale(d, dist);
    let alt = *s.pick(&[1.02, 1.06, 1.3, 3.0, 6.6, 20.0, 60.0]);
    let r = ro * alt;
    // orbits biased towards the shadow
    let (u, _) = around(d);
    let h = if s.chance(2, 3) {
        let t = s.f64(0.0, 0.3);
        add(scale(u, t.cos()), scale(d, t.sin()))
    } else {
        dir(s)
    };
    let h = scale(h, 1.0 / norm(h));
    let (x, y) = around(h);
    let _ = mu;
    let n = 120;
    let ph = s.f64(0.0, TAU);
    let (mut lit, mut dark, mut half) = (0, 0, 0);
    let moon = if s.chance(1, 3) {
        let md = dir(s);
        let md = if s.chance(1, 2) { let w = s.f64(0.0, 0.05); let e = add(d, scale(md, w)); scale(e, 1.0 / norm(e)) } else { md };
        Some((scale(md, ro * s.f64(50.0, 100.0)), ro * s.f64(0.05, 0.9)))
    } else {
        None
    };
    for i in 0..n {
        let a = ph + TAU * i as f64 / n as f64;
        let sat = add(scale(x, r * a.cos()), scale(y, r * a.sin()));
        match check_view(sat, sun, rs, [0.0; 3], ro, s)? {
            Some(EclipseState::Sunlight) => lit += 1,
            Some(EclipseState::Umbra) => dark += 1,
            Some(EclipseState::Penumbra) => half += 1,
            None => {}
        }
        if let Some((mc, mr)) = moon {
            check_view(sat, sun, rs, mc, mr, s)?;
            // the moon itself can be hidden by the planet, and never by the far sun
            check_view(sat, mc, mr, [0.0; 3], ro, s)?;
            check_view(sat, mc, mr, sun, rs, s)?;
        }
        if i == 0 && s.chance(1, 20) {
            s.fault("undefined_position");
            let mut v = [sat, sun, [0.0; 3]];
            let (a, b) = (s.idx(3), s.idx(3));
            v[a][b] = *s.pick(&[f64::NAN, f64::INFINITY]);
            let lit = no_panic("eclipse_state of an undefined position", || eclipse_state(&p(v[0]), &p(v[1]), m(rs), &p(v[2]), m(ro)))?;
            let f = no_panic("occultation_fraction of an undefined position", || occultation_fraction(&p(v[0]), &p(v[1]), m(rs), &p(v[2]), m(ro)))?;
            ensure!(!(f > 0.0 && lit == EclipseState::Sunlight), "shadow", "{f} hidden yet {lit:?}");
            no_panic("line_of_sight_obstructed of an undefined position", || line_of_sight_obstructed(&p(v[0]), &p(v[1]), m(ro)))?;
        }
        // a relay satellite on the same orbit
        let b = a + s.f64(0.01, TAU - 0.01);
        let relay = add(scale(x, r * b.cos()), scale(y, r * b.sin()));
        let end = if s.chance(1, 3) { sun } else if s.chance(1, 4) { scale(sat, s.f64(0.0, 2.5)) } else { relay };
        sight(s, sat, end, ro)?;
        if s.chance(1, 8) {
            // two places under ground
            let (f, g) = (ro / r * s.f64(0.0, 0.95), ro / r * s.f64(0.0, 0.95));
            sight(s, scale(sat, f), scale(relay, g), ro)?;
        }
    }
    s.h(format!("{ro}{r}{d:?}").as_bytes());
    s.state((lit as u64) << 16 | (dark as u64) << 8 | half as u64);
    s.note(format!("radius {ro} orbit {r}: lit {lit} dark {dark} half {half}"));
    Ok(())
}

fn sight(s: &mut Sim, a: V3, b: V3, r: f64) -> R<()> {
    // nearest point of the segment to the centre
    let d = sub(b, a);
    let l = dot(d, d);
    let t = if l > 0.0 { (-dot(a, d) / l).clamp(0.0, 1.0) } else { 0.0 };
    let near = norm(add(a, scale(d, t)));
    let big = norm(a).max(norm(b));
    if (near - r).abs() < 1e-9 * r + 1e-13 * big * big / r {
        return Ok(());
    }
    let got = no_panic("line_of_sight_obstructed", || line_of_sight_obstructed(&p(a), &p(b), m(r)))?;
    let back = no_panic("line_of_sight_obstructed", || line_of_sight_obstructed(&p(b), &p(a), m(r)))?;
    s.checked();
    ensure!(got == (near < r) && back == got, "sight", "obstructed {got} one way, {back} the other; {a:?} to {b:?} passes {near} from the centre of a body of radius {r}");
    Ok(())
}

struct Site {
    frame: LocalFrame,
    pos: V3,
    e: V3,
    n: V3,
    u: V3,
}

fn site(s: &mut Sim) -> Site {
    let lat = match s.below(6) {
        0 => PI / 2.0,
        1 => -PI / 2.0,
        2 => 0.0,
        _ => s.f64(-PI / 2.0, PI / 2.0),
    };
    let lon = match s.below(6) {
        0 => PI,
        1 => 0.0,
        2 => s.f64(PI, TAU),
        _ => s.f64(-PI, PI),
    };
    // east, north, up by turning the axes instead of by formula
    let rot = |v: V3, k: usize, a: f64| {
        let (i, j) = ((k + 1) % 3, (k + 2) % 3);
        let mut w = v;
        w[i] = v[i] * a.cos() - v[j] * a.sin();
        w[j] = v[i] * a.sin() + v[j] * a.cos();
        w
    };
    let turn = |v: V3| rot(rot(v, 1, -lat), 2, lon);
    let r = 6_371_000.0 + s.f64(-400.0, 8000.0);
    let u = turn([1.0, 0.0, 0.0]);
    let tilt = s.f64(-0.003, 0.003);
    let n = turn([0.0, 0.0, 1.0]);
    let pos = add(scale(u, r * tilt.cos()), scale(n, r * tilt.sin()));
    Site { frame: LocalFrame::new(rad(lat), rad(lon)), pos, e: turn([0.0, 1.0, 0.0]), n, u }
}

/// Terrain in piecewise linear pieces; samples sorted and brought into one turn.
fn horizon(samples: &[(f64, f64)], az: f64) -> f64 {
    if samples.is_empty() {
        return 0.0;
    }
    let mut v: Vec<(f64, f64)> = samples.iter().map(|(a, e)| (a.rem_euclid(TAU), *e)).collect();
    v.sort_by(|a, b| a.0.total_cmp(&b.0));
    let az = az.rem_euclid(TAU);
    let k = v.partition_point(|x| x.0 <= az);
    let (a0, e0) = if k == 0 { (v[v.len() - 1].0 - TAU, v[v.len() - 1].1) } else { v[k - 1] };
    let (a1, e1) = if k == v.len() { (v[0].0 + TAU, v[0].1) } else { v[k] };
    e0 + (e1 - e0) * (az - a0) / (a1 - a0)
}

/// A satellite passes over a ground station with hills around it.
fn pass(s: &mut Sim) -> R<()> {
    let st = site(s);
    let mut samples: Vec<(f64, f64)> = Vec::new();
    let mut edges: Vec<(f64, f64)> = Vec::new();
    let k = s.below(9);
    for i in 0..k {
        // at least a degree apart, written in any turn and any order
        let a = (i as f64 + s.f64(0.1, 0.9)) * TAU / k as f64;
        let turns = *s.pick(&[0.0, 0.0, -TAU, TAU]);
        let e = s.f64(-0.05, 0.6);
        samples.push((a + turns, e));
        if s.chance(1, 4) {
            // a cliff
            let w = *s.pick(&[2e-5, 3e-4, 5e-3]);
            let e2 = s.f64(-0.05, 0.6);
            samples.push((a + turns + w, e2));
            edges.push((a + turns, w));
        }
    }
    s.shuffle(&mut samples);
    if s.chance(1, 30) {
        s.fault("undefined_survey_point");
        let mut bad: Vec<_> = samples.iter().map(|(a, e)| (rad(*a), rad(*e))).collect();
        let k = s.idx(bad.len() + 1);
        let nan = if s.chance(1, 2) { (rad(f64::NAN), rad(0.1)) } else { (rad(0.3), rad(f64::NAN)) };
        bad.insert(k, nan);
        let az = s.f64(0.0, TAU);
        no_panic("TerrainMask with an undefined point", || TerrainMask::new(bad).elevation_at(rad(az)))?;
    }
    let mask = no_panic("TerrainMask::new", || TerrainMask::new(samples.iter().map(|(a, e)| (rad(*a), rad(*e))).collect()))?;
    for (a, w) in edges {
        let az = a + w * s.f64(-1.5, 2.5);
        let (he, hz) = (no_panic("elevation_at", || mask.elevation_at(rad(az)))?.value(), horizon(&samples, az));
        s.checked();
        ensure!((he - hz).abs() < 1e-6, "mask", "terrain {he} at azimuth {az}, beside a cliff of samples {samples:?} that say {hz}");
    }
    // an orbit, or a body that stands exactly overhead
    let mu = 3.986004418e14;
    let over = s.chance(1, 4);
    let mut o = kepler::orbit(s, (6.7e6, 4.2e7), 0.4);
    if over {
        let up = s.f64(2e5, 4e7);
        let r = add(st.pos, scale(st.u, up));
        let (vx, vy) = (s.f64(-3e3, 3e3), s.f64(-3e3, 3e3));
        let v = add(scale(st.e, vx), scale(st.n, vy));
        o = kepler::join(r, v);
    }
    let wv = if s.chance(1, 2) { 7.292e-5 } else { 0.0 };
    let ov = cross([0.0, 0.0, wv], st.pos);
    let mut seen = 0u64;
    let mut unit = false;
    for i in 0..40 {
        let dt = if i == 0 { 0.0 } else { s.f64(-3000.0, 3000.0) };
        let q = if dt == 0.0 { o } else { kepler::kepler(o, dt, mu) };
        let (r, v) = kepler::rv(q);
        let los = sub(r, st.pos);
        let d = norm(los);
        if d < 1.0 || !d.is_finite() {
            continue;
        }
        let got = no_panic("azimuth_elevation_range", || azimuth_elevation_range(&p(st.pos), &vel(ov), &p(r), &vel(v), st.frame))?;
        let (rg, rr, lt) = (got.range.value(), got.range_rate.value(), got.light_time.value());
        let (mut az, mut el) = (got.pointing.az().to::<siderust::qtty::Radian>().value(), got.pointing.alt().to::<siderust::qtty::Radian>().value());
        let towards = |az: f64, el: f64| add(add(scale(st.e, el.cos() * az.sin()), scale(st.n, el.cos() * az.cos())), scale(st.u, el.sin()));
        if !(angle(towards(az, el), los) < 1e-7) && angle(towards(az.to_degrees(), el.to_degrees()), los) < 1e-7 {
            // the recorded finding: radians handed over as degrees
            (az, el) = (az.to_degrees(), el.to_degrees());
            unit = true;
        }
        s.checked();
        let ctx = format!("site {:?} line of sight {los:?}", st.frame);
        ensure!(el.abs() <= PI / 2.0 + 1e-9 && (-1e-12..TAU + 1e-9).contains(&az), "pointing", "azimuth {az}, elevation {el}: {ctx}");
        ensure!((rg - d).abs() < 1e-9 * d + 1e-6, "range", "{rg}, is {d}: {ctx}");
        ensure!((lt * 299_792_458.0 - d).abs() < 1e-9 * d + 1e-3, "range", "light time {lt} for {d}: {ctx}");
        let e = angle(towards(az, el), los);
        ensure!(e < 1e-7, "pointing", "points {e} rad beside the satellite (azimuth {az}, elevation {el}): {ctx}");
        // range a moment later and earlier, both moving straight on
        let h = 0.01;
        let rel = sub(v, ov);
        let num = (norm(add(los, scale(rel, h))) - norm(sub(los, scale(rel, h)))) / (2.0 * h);
        ensure!((num - rr).abs() < 1e-3 + 1e-6 * norm(rel), "range_rate", "{rr}, range changes by {num} a second: {ctx}");
        // the hills
        let hz = horizon(&samples, az);
        let probe = if s.chance(1, 2) { az } else { az + *s.pick(&[-TAU, TAU, 2.0 * TAU]) };
        let he = no_panic("elevation_at", || mask.elevation_at(rad(probe)))?.value();
        ensure!((he - hz).abs() < 1e-6, "mask", "terrain {he} at azimuth {probe}, samples {samples:?} say {hz}");
        if (el - hz).abs() > 1e-6 {
            let c = no_panic("clears", || mask.clears(rad(probe), rad(el)))?;
            ensure!(c == (el > hz), "mask", "clears {c}: elevation {el}, terrain {hz}");
            seen += c as u64;
        }
        // the planet itself
        sight(s, scale(st.pos, 1.0001), r, 6_371_000.0 * 0.9999)?;
    }
    s.state(seen);
    s.h(&seen.to_le_bytes());
    s.h(format!("{:?}", st.pos).as_bytes());
    ensure!(!unit, "pointing-unit", "azimuth and elevation are radians in a type that holds degrees (site {:?})", st.frame);
    Ok(())
}

/// Sun angles of an orbit over a simulated year.
fn seasons(s: &mut Sim) -> R<()> {
    let o = kepler::orbit(s, (6.7e6, 4.2e7), 0.6);
    let (r, v) = kepler::rv(o);
    let h = cross(r, v);
    let raan = h[0].atan2(-h[1]);
    for _ in 0..20 {
        let sun = dir(s);
        let b = no_panic("beta_angle", || beta_angle(&p(r), &vel(v), &Direction::<GCRS>::new(sun[0], sun[1], sun[2])))?.value();
        let want = PI / 2.0 - angle(h, sun);
        s.checked();
        ensure!((b - want).abs() < 2e-7, "beta", "{b}, is {want}");
        let ra = sun[1].atan2(sun[0]);
        let turns = *s.pick(&[0.0, TAU, -TAU]);
        // local time: noon when the node (or point) faces the sun, an hour per 15 degrees east
        let want = (12.0 + (raan - ra).to_degrees() / 15.0).rem_euclid(24.0) * 3600.0;
        for (k, t) in [("ltan", no_panic("ltan", || ltan(rad(raan + turns), rad(ra)))?.value()), ("solar_time", no_panic("local_solar_time", || local_solar_time(rad(raan), rad(ra + turns)))?.value())] {
            ensure!((0.0..=86400.0).contains(&t), k, "{t} s");
            let e = (t - want + 43200.0).rem_euclid(86400.0) - 43200.0;
            ensure!(e.abs() < 1e-3, k, "{t} s, is {want} s (node {raan}, sun {ra})");
        }
        // what an instrument along the nadir sees
        let (a, c) = (s.f64(0.01, 1.5), s.f64(0.01, 1.5));
        let off = s.f64(-1.6, 1.6);
        let fov = if s.chance(1, 2) { Fov::Conical { half_angle: rad(a) } } else { Fov::Rectangular { across_track: rad(a), along_track: rad(c) } };
        let bound = match fov {
            Fov::Conical { .. } => a,
            _ => a.min(c) / 2.0,
        };
        let inside = no_panic("contains_boresight", || fov.contains_boresight(rad(off)))?;
        if (off.abs() - bound).abs() > 1e-12 {
            ensure!(inside == (off.abs() < bound), "fov", "{inside}: {off} against {fov:?}");
        }
    }
    s.h(format!("{r:?}").as_bytes());
    Ok(())
}

/// The roster of sites and instruments changes while it is asked.
fn roster(s: &mut Sim) -> R<()> {
    let mut ctx = MissionContext::new();
    let (mut sites, mut insts): (BTreeMap<String, (String, f64, bool)>, BTreeMap<String, (String, f64)>) = Default::default();
    let names = ["alpha", "beta", "Alpha", "", "gamma"];
    for step in 0..s.int(5, 60) {
        let name = names[s.idx(5)].to_string();
        let val = s.f64(0.0, 1.0);
        match s.below(6) {
            0 | 1 => {
                let masked = s.chance(1, 2);
                let id = format!("S{step}");
                let mut l = Location::new(id.clone(), LocalFrame::new(rad(val), rad(0.5)));
                if masked {
                    l = l.with_mask(TerrainMask::new(vec![(rad(0.0), rad(val))]));
                }
                if s.chance(1, 3) {
                    ctx = ctx.with_location(name.clone(), l);
                } else {
                    ctx.add_location(name.clone(), l);
                }
                sites.insert(name, (id, val, masked));
            }
            2 | 3 => {
                let id = format!("I{step}");
                let i = Instrument::new(id.clone(), Fov::Conical { half_angle: rad(val) });
                if s.chance(1, 3) {
                    ctx = ctx.with_instrument(name.clone(), i);
                } else {
                    ctx.add_instrument(name.clone(), i);
                }
                insts.insert(name, (id, val));
            }
            4 => {
                let g = ctx.remove_location(&name).map(|l| l.id);
                let w = sites.remove(&name).map(|x| x.0);
                ensure!(g == w, "roster", "removing site {name:?} gave {g:?}, was {w:?}");
            }
            _ => {
                let g = ctx.remove_instrument(&name).map(|l| l.id);
                let w = insts.remove(&name).map(|x| x.0);
                ensure!(g == w, "roster", "removing instrument {name:?} gave {g:?}, was {w:?}");
            }
        }
        s.checked();
        for n in names {
            let g = ctx.location(n).map(|l| (l.id.clone(), l.frame.lat.value(), l.mask.is_some()));
            ensure!(g.as_ref() == sites.get(n), "roster", "site {n:?} is {g:?}, should be {:?}", sites.get(n));
            let g = ctx.instrument(n).map(|l| (l.id.clone(), match l.fov { Fov::Conical { half_angle } => half_angle.value(), _ => -1.0 }));
            ensure!(g.as_ref() == insts.get(n), "roster", "instrument {n:?} is {g:?}, should be {:?}", insts.get(n));
        }
        let (a, b) = (ctx.locations().count(), ctx.instruments().count());
        ensure!((a, b) == (sites.len(), insts.len()), "roster", "{a} sites and {b} instruments listed, {} and {} known", sites.len(), insts.len());
    }
    s.state(sites.len() as u64 * 8 + insts.len() as u64);
    s.h(format!("{sites:?}{insts:?}").as_bytes());
    Ok(())
}

pub static C27: Prop = Prop {
    id: "C27",
    scenarios: &[("shadow", 3, shadow), ("pass", 3, pass), ("seasons", 1, seasons), ("roster", 1, roster)],
    runs_quick: 30_000,
    runs_thorough: 2_000_000,
    rule: "shadow: a satellite goes round a body that hides a sun, with a moon and a relay; pass: it passes over a ground station with hills; seasons: sun angles of an orbit; roster: sites and instruments added, replaced and removed while being asked. Distinct = distinct hash of the scene.",
    real: &["mission::{context, site, geometry}"],
    stub: &["orbits, sun, moon and station from an analytic world"],
    assumptions: &["the observer is outside both bodies and the bodies do not touch; lens area on the plane of angles, so hidden fractions are compared to 0.06"],
};
