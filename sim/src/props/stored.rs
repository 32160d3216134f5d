//! C34: objects kept as documents.

use crate::core::{no_panic, Sim, R};
use crate::{ensure, viol, Prop};
use serde_json::{json, Map, Value};
use siderust::astro::conic::{ConicOrbit, MeanMotionOrbit};
use siderust::astro::orbit::{KeplerianOrbit, PreparedOrbit};
use siderust::astro::proper_motion::ProperMotion;
use siderust::coordinates::cartesian;
use siderust::coordinates::centers::{Barycentric, BodycentricParams, Geocentric, Geodetic, Heliocentric, OrbitReferenceCenter, Topocentric};
use siderust::coordinates::frames::{EclipticMeanJ2000, EquatorialMeanJ2000, ECEF};
use siderust::coordinates::spherical;
use siderust::ephemeris::lagrange::SunEarthLagrangePoint;
use siderust::event::lunar::phase::{MoonPhaseGeometry, MoonPhaseLabel, PhaseEvent, PhaseKind, PhaseThresholds};
use siderust::pod::problem::arc::ArcId;
use siderust::pod::problem::covariance::ParameterCovariance;
use siderust::pod::problem::parameter::{Parameter, ParameterKind, ParameterOrdering};
use siderust::qtty::unit::{AstronomicalUnit, Degree, Kilometer, LightYear, Year};
use siderust::qtty::{AstronomicalUnits, Degrees, GravitationalParameter, IlluminationFractions, Kilometers, Meters, Per, Quantity, Radians};
use siderust::targets::CoordinateWithPM;
use siderust::time::{JulianDate, ModifiedJulianDate};

/// What damage a stored document takes, and what may be asked of its reader.
struct Doc<'a, T> {
    name: &'a str,
    /// Fields that may be absent or null.
    optional: &'a [&'a str],
    /// Values no valid object of this kind can have.
    bad: Vec<(&'a str, Value)>,
    /// Everything an observer can ask the object.
    probe: &'a dyn Fn(&T) -> Vec<f64>,
}

/// A document as another program might have written it: fields in any order, any spacing.
fn render(s: &mut Sim, v: &Value) -> String {
    let sp = *s.pick(&["", " ", "\n\t", "  "]);
    match v {
        Value::Object(m) => {
            let mut k: Vec<&String> = m.keys().collect();
            s.shuffle(&mut k);
            let parts: Vec<String> = k.iter().map(|k| format!("{sp}\"{k}\"{sp}:{sp}{}", render(s, &m[*k]))).collect();
            format!("{{{}{sp}}}", parts.join(","))
        }
        Value::Array(a) => {
            let parts: Vec<String> = a.iter().map(|x| render(s, x)).collect();
            format!("[{sp}{}]", parts.join(&format!("{sp},")))
        }
        x => x.to_string(),
    }
}

/// The values of a document, numbers compared as numbers.
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x.as_f64() == y.as_f64(),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w))),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| same(v, w)),
        _ => a == b,
    }
}

/// Paths to every object of a document.
fn objects(v: &Value, at: &str, out: &mut Vec<String>) {
    if let Value::Object(m) = v {
        if !m.is_empty() {
            out.push(at.to_string());
        }
        for (k, x) in m {
            objects(x, &format!("{at}/{k}"), out);
        }
    }
    if let Value::Array(a) = v {
        for (i, x) in a.iter().enumerate() {
            objects(x, &format!("{at}/{i}"), out);
        }
    }
}

/// The same content to a few rounding errors (dates are kept as a sum of two numbers).
fn near(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x.as_f64().zip(y.as_f64()).is_some_and(|(x, y)| (x - y).abs() <= 4e-15 * x.abs()),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| near(v, w))),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| near(v, w)),
        _ => a == b,
    }
}

/// A number the time library itself cannot hold as a date: an exponent of three digits.
fn vast(t: &str) -> bool {
    let b = t.as_bytes();
    (0..b.len()).any(|i| {
        let after = if b.get(i + 1) == Some(&b'+') { i + 2 } else { i + 1 };
        matches!(b[i], b'e' | b'E') && b.len() >= after + 3 && b[after..after + 3].iter().all(u8::is_ascii_digit)
    })
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| (x + 0.0).to_bits()).collect()
}

fn keep<T: serde::Serialize + serde::de::DeserializeOwned>(s: &mut Sim, x: &T, want: Value, d: Doc<T>) -> R {
    let name = d.name;
    s.h(name.as_bytes());
    let text = match no_panic("write", || if want.is_object() { serde_json::to_string_pretty(x) } else { serde_json::to_string(x) })? {
        Ok(t) => t,
        Err(e) => viol!("refused", "{name} cannot be written: {e}"),
    };
    s.h(text.as_bytes());
    let v: Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(e) => viol!("document", "{name} wrote {text}: {e}"),
    };
    ensure!(same(&v, &want), "document", "{name} wrote {v}, it holds {want}");
    let read = |t: &str| no_panic("read", || serde_json::from_str::<T>(t).map_err(|e| e.to_string()));
    let asked = |o: &T| no_panic("use", || (d.probe)(o));
    let first = asked(x)?;
    // Its own document, and the same content written by somebody else.
    for (who, t) in [("its own document", text.clone()), ("the same document elsewhere", render(s, &want))] {
        let y = match read(&t)? {
            Ok(y) => y,
            Err(e) => viol!("refused", "{name} refuses {who}: {e}\n{t}"),
        };
        let again = asked(&y)?;
        ensure!(bits(&first) == bits(&again), "changed", "{name} from {who} answers {again:?}, it answered {first:?}\n{t}");
        ensure!(serde_json::to_value(&y).is_ok_and(|w| same(&w, &v)), "changed", "{name} from {who} writes {:?}, it was {v}", serde_json::to_value(&y));
    }
    // Several objects in one file: each keeps its own content.
    let many = match no_panic("read", || serde_json::from_str::<Vec<T>>(&format!("[{text},{text}]")).map_err(|e| e.to_string()))? {
        Ok(m) => m,
        Err(e) => viol!("refused", "{name}: two in a row refused: {e}"),
    };
    ensure!(many.len() == 2 && bits(&asked(&many[1])?) == bits(&first), "changed", "{name}: the second of two changed");
    // Damage on the medium.
    for _ in 0..s.int(1, 4) {
        let mut objs = Vec::new();
        objects(&v, "", &mut objs);
        let kind = s.below(5);
        match kind {
            0 => {
                s.fault("document torn");
                let n = s.idx(text.len());
                let t = &text[..text.floor_char_boundary(n)];
                if read(t)?.is_ok() {
                    viol!("torn", "{name} accepts the torn document {t:?} of {text}");
                }
            }
            1 if !objs.is_empty() => {
                s.fault("field lost");
                let mut w = v.clone();
                let at = s.pick(&objs).clone();
                let m: &mut Map<String, Value> = w.pointer_mut(&at).unwrap().as_object_mut().unwrap();
                let keys: Vec<String> = m.keys().cloned().collect();
                let k = s.pick(&keys).clone();
                if d.optional.contains(&k.as_str()) {
                    continue;
                }
                m.remove(&k);
                if read(&w.to_string())?.is_ok() {
                    viol!("lost-field", "{name} accepts a document without {at}/{k}: {w}");
                }
            }
            2 if !objs.is_empty() => {
                s.fault("field of the wrong kind");
                let mut w = v.clone();
                let at = s.pick(&objs).clone();
                let m = w.pointer_mut(&at).unwrap().as_object_mut().unwrap();
                let keys: Vec<String> = m.keys().cloned().collect();
                let k = s.pick(&keys).clone();
                let junk = s.pick(&[json!({"x": 1}), json!(true), json!([[true]]), json!(null)]).clone();
                if d.optional.contains(&k.as_str()) && junk.is_null() || m[&k].is_boolean() && junk.is_boolean() || m[&k].is_array() && junk.is_array() {
                    continue;
                }
                m.insert(k.clone(), junk.clone());
                if read(&w.to_string())?.is_ok() {
                    viol!("wrong-kind", "{name} accepts {junk} for {at}/{k}: {w}");
                }
            }
            3 if !d.bad.is_empty() => {
                s.fault("value out of its domain");
                let (at, b) = &d.bad[s.idx(d.bad.len())];
                let mut w = v.clone();
                *w.pointer_mut(at).unwrap() = b.clone();
                if read(&w.to_string())?.is_ok() {
                    viol!("domain", "{name} accepts {b} for {at}: {w}");
                }
            }
            _ => {
                // Bytes changed: refused, or a document of some other object that is stable in turn.
                s.fault("byte changed");
                let mut b = text.clone().into_bytes();
                for _ in 0..s.int(1, 3) {
                    let i = s.idx(b.len());
                    b[i] = *s.pick(b"0123456789.-+eE\"{}[],:nul \xff\x00");
                }
                let t = String::from_utf8_lossy(&b).into_owned();
                if vast(&t) {
                    continue;
                }
                if let Ok(y) = read(&t)? {
                    asked(&y)?;
                    let once = no_panic("write", || serde_json::to_string(&y).map_err(|e| e.to_string()))?;
                    let Ok(once) = once else { continue };
                    if once.contains("null") && !text.contains("null") {
                        continue;
                    }
                    match read(&once)? {
                        Ok(z) => ensure!(serde_json::to_value(&z).ok().zip(serde_json::from_str(&once).ok()).is_some_and(|(a, b)| near(&a, &b)), "unstable", "{name} read from {t:?} writes {once}, which reads back differently"),
                        Err(e) => viol!("refused", "{name} read from {t:?} writes {once} and refuses it: {e}"),
                    }
                }
            }
        }
    }
    s.checked();
    Ok(())
}

fn p3<C: siderust::coordinates::centers::ReferenceCenter, F: siderust::coordinates::frames::ReferenceFrame, U: siderust::qtty::LengthUnit>(p: &cartesian::Position<C, F, U>) -> Vec<f64> {
    vec![p.x().value(), p.y().value(), p.z().value()]
}

fn orbits(s: &mut Sim) -> R {
    let t0 = 2_451_545.0 + s.int(-40_000, 40_000) as f64 * 0.25;
    let epoch = JulianDate::new(t0);
    let (a, i, o, w, m) = (s.f64(0.3, 40.0), s.f64(0.0, 180.0), s.f64(0.0, 355.0), s.f64(0.0, 355.0), s.f64(-355.0, 355.0));
    let e = *s.pick(&[0.0, 0.5, 0.97, 2.0]);
    let e = if e == 0.5 { s.unit() } else { e };
    let dates: Vec<JulianDate> = (0..3).map(|_| JulianDate::new(t0 + s.f64(-4e4, 4e4))).collect();
    let orientation = json!({"inclination": i, "longitude_of_ascending_node": o, "argument_of_periapsis": w});
    let kepler = json!({"shape": {"semi_major_axis": a, "eccentricity": e}, "orientation": orientation, "mean_anomaly_at_epoch": m, "epoch": t0});
    let deg = Degrees::new;
    let k = s.below(5);
    s.state(k);
    let elliptic = || KeplerianOrbit::try_new(AstronomicalUnits::new(a), e, deg(i), deg(o), deg(w), deg(m), epoch);
    let bad = |p: &'static str| -> Vec<(&'static str, Value)> {
        let at = |f: &str| -> &'static str {
            match (p, f) {
                ("", "e") => "/shape/eccentricity",
                ("", "a") => "/shape/semi_major_axis",
                ("g", "e") => "/geometry/shape/eccentricity",
                ("g", "a") => "/geometry/shape/semi_major_axis",
                ("b", "e") => "/orbit/shape/eccentricity",
                _ => "/orbit/shape/semi_major_axis",
            }
        };
        vec![(at("e"), json!(1.0)), (at("e"), json!(1.5)), (at("e"), json!(-0.1)), (at("a"), json!(0.0)), (at("a"), json!(-1.5))]
    };
    if k != 2 && e >= 1.0 {
        ensure!(elliptic().is_err() && serde_json::from_value::<KeplerianOrbit>(kepler.clone()).is_err() && serde_json::from_value::<PreparedOrbit>(kepler.clone()).is_err(), "domain", "an ellipse of eccentricity {e} is accepted: {kepler}");
        s.checked();
        return Ok(());
    }
    let cmp = |o: &KeplerianOrbit| -> Vec<f64> {
        let mut v = vec![o.shape().semi_major_axis().value(), o.shape().eccentricity(), o.orientation().inclination().value(), o.orientation().longitude_of_ascending_node().value(), o.orientation().argument_of_periapsis().value(), o.mean_anomaly_at_epoch.value(), o.epoch.raw().value()];
        dates.iter().for_each(|d| v.extend(p3(&o.kepler_position(*d))));
        v
    };
    match k {
        0 => keep(s, &elliptic().unwrap(), kepler, Doc { name: "KeplerianOrbit", optional: &[], bad: bad(""), probe: &cmp }),
        1 => {
            let x = PreparedOrbit::try_from(elliptic().unwrap()).unwrap();
            let probe = |o: &PreparedOrbit| {
                let mut v = cmp(o.elements());
                v.push(o.mean_motion().value());
                dates.iter().for_each(|d| v.extend(p3(&o.position_at(*d))));
                v
            };
            keep(s, &x, kepler, Doc { name: "PreparedOrbit", optional: &[], bad: bad(""), probe: &probe })
        }
        2 => {
            let x = match ConicOrbit::try_new(AstronomicalUnits::new(a), e, deg(i), deg(o), deg(w), deg(m), epoch) {
                Ok(x) => x,
                Err(e) => viol!("refused", "conic refused: {e}"),
            };
            let doc = json!({"geometry": {"shape": {"periapsis_distance": a, "eccentricity": e}, "orientation": orientation}, "mean_anomaly_at_epoch": m, "epoch": t0});
            let probe = |o: &ConicOrbit| {
                let g = o.geometry();
                let mut v = vec![g.shape().periapsis_distance().value(), g.shape().eccentricity(), g.orientation().inclination().value(), o.mean_anomaly_at_epoch.value(), o.epoch.raw().value(), o.kind() as u8 as f64];
                dates.iter().for_each(|d| v.extend(o.position_at(*d).map(|p| p3(&p)).unwrap_or_default()));
                v
            };
            let bad = vec![("/geometry/shape/eccentricity", json!(-0.5)), ("/geometry/shape/periapsis_distance", json!(0.0)), ("/geometry/shape/periapsis_distance", json!(-2.0))];
            keep(s, &x, doc, Doc { name: "ConicOrbit", optional: &[], bad, probe: &probe })
        }
        3 => {
            let n = s.f64(1e-3, 20.0);
            let x = MeanMotionOrbit::try_new(AstronomicalUnits::new(a), e, deg(i), deg(o), deg(w), Quantity::new(n), epoch).unwrap();
            let doc = json!({"geometry": {"shape": {"semi_major_axis": a, "eccentricity": e}, "orientation": orientation}, "mean_motion": n, "epoch": t0});
            let probe = |o: &MeanMotionOrbit| {
                let mut v = vec![o.geometry().shape().semi_major_axis().value(), o.geometry().shape().eccentricity(), o.mean_motion.value(), o.epoch.raw().value()];
                dates.iter().for_each(|d| v.extend(o.position_at(*d).map(|p| p3(&p)).unwrap_or_default()));
                v
            };
            keep(s, &x, doc, Doc { name: "MeanMotionOrbit", optional: &[], bad: bad("g"), probe: &probe })
        }
        _ => {
            let c = *s.pick(&[OrbitReferenceCenter::Barycentric, OrbitReferenceCenter::Heliocentric, OrbitReferenceCenter::Geocentric]);
            let mu = s.f64(1e3, 1e11);
            let x = BodycentricParams::for_body(elliptic().unwrap(), c, GravitationalParameter::new(mu));
            let doc = json!({"orbit": kepler, "orbit_center": format!("{c:?}"), "mu": mu});
            let probe = |o: &BodycentricParams| {
                let mut v = cmp(&o.orbit);
                v.extend([o.mu.value(), o.orbit_center as u8 as f64]);
                v
            };
            let mut b = bad("b");
            b.push(("/orbit_center", json!("Lunocentric")));
            keep(s, &x, doc, Doc { name: "BodycentricParams", optional: &[], bad: b, probe: &probe })
        }
    }
}

fn targets(s: &mut Sim) -> R {
    let t0 = 2_451_545.0 + s.int(-40_000, 40_000) as f64 * 0.25;
    let epoch = JulianDate::new(t0);
    let k = s.below(4);
    s.state(16 + k);
    let (ra, dec, r) = (s.f64(0.0, 359.9), s.f64(-89.0, 89.0), s.f64(0.1, 1e4));
    let (pa, pd) = (s.f64(-1e-2, 1e-2), s.f64(-1e-2, 1e-2));
    let star = s.chance(1, 2);
    type DegYr = Quantity<Per<Degree, Year>>;
    let pm = if star { ProperMotion::from_mu_alpha_star(DegYr::new(pa), DegYr::new(pd)) } else { ProperMotion::from_mu_alpha(DegYr::new(pa), DegYr::new(pd)) };
    let pm_doc = json!({"pm_ra": pa, "pm_dec": pd, "ra_convention": if star { "MuAlphaStar" } else { "MuAlpha" }});
    let pv = |p: &ProperMotion| vec![p.pm_ra.value(), p.pm_dec.value(), p.ra_convention as u8 as f64];
    match k {
        0 => keep(s, &pm, pm_doc, Doc { name: "ProperMotion", optional: &[], bad: vec![("/ra_convention", json!("mu_alpha"))], probe: &pv }),
        1 => {
            type P = spherical::Position<Geocentric, EquatorialMeanJ2000, LightYear>;
            let p = P::new(Degrees::new(ra), Degrees::new(dec), r);
            let moving = s.chance(2, 3);
            let x = if moving { CoordinateWithPM::new(p, epoch, pm) } else { CoordinateWithPM::new_static(p, epoch) };
            let doc = json!({"position": serde_json::to_value(p).unwrap(), "time": t0, "proper_motion": if moving { pm_doc } else { Value::Null }});
            let probe = |c: &CoordinateWithPM<P>| {
                let mut v = vec![c.position.ra().value(), c.position.dec().value(), c.position.distance.value(), c.time.raw().value()];
                v.extend(c.proper_motion.as_ref().map(pv).unwrap_or_default());
                v
            };
            // The stored place carries no centre: nothing else may be absent.
            keep(s, &x, doc, Doc { name: "CoordinateWithPM", optional: &["proper_motion"], bad: vec![], probe: &probe })
        }
        2 => {
            type P = spherical::Position<Topocentric, siderust::coordinates::frames::Horizontal, Kilometer>;
            let (lon, lat, h) = (s.f64(-179.0, 179.0), s.f64(-89.0, 89.0), s.f64(-400.0, 9e3));
            let site = Geodetic::<ECEF>::new(Degrees::new(lon), Degrees::new(lat), Meters::new(h));
            let x = Topocentric::horizontal::<Kilometer, _>(site, Degrees::new(dec), Degrees::new(ra), Kilometers::new(r));
            let doc = json!({"alt": dec, "az": ra, "distance": r, "center_params": {"lon_deg": lon, "lat_deg": lat, "height": h}});
            let probe = |p: &P| {
                let c = p.center_params();
                let mut v = vec![p.alt().value(), p.az().value(), p.distance.value()];
                v.extend(p3(&c.to_cartesian::<Kilometer>()));
                v
            };
            // Angles are folded on the way in, to a rounding error.
            let back: P = match serde_json::from_value(doc.clone()) {
                Ok(p) => p,
                Err(e) => viol!("refused", "topocentric position {doc}: {e}"),
            };
            ensure!((back.alt().value() - dec).abs() < 1e-12 && (back.az().value() - ra).abs() < 1e-12, "changed", "{doc} became {} {}", back.alt().value(), back.az().value());
            let _ = x;
            let own = serde_json::to_value(back).unwrap();
            keep(s, &back, own, Doc { name: "Topocentric position", optional: &["center_params"], bad: vec![], probe: &probe })
        }
        _ => {
            type P = cartesian::Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit>;
            let v = [s.f64(-40.0, 40.0), s.f64(-40.0, 40.0), s.f64(-40.0, 40.0)];
            let p = P::new(v[0], v[1], v[2]);
            let x = CoordinateWithPM::new_static(p, epoch);
            let doc = json!({"position": serde_json::to_value(p).unwrap(), "time": t0, "proper_motion": null});
            let probe = |c: &CoordinateWithPM<P>| {
                let mut w = p3(&c.position);
                w.push(c.time.raw().value());
                // Where it is from the barycentre, on the day it was stored.
                let b = CoordinateWithPM::<cartesian::Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit>>::from(c);
                if (2_300_000.0..2_600_000.0).contains(&c.time.raw().value()) {
                    w.extend(p3(&b.position));
                }
                w
            };
            keep(s, &x, doc, Doc { name: "cartesian target", optional: &["proper_motion"], bad: vec![], probe: &probe })
        }
    }
}

fn settings(s: &mut Sim) -> R {
    let k = s.below(6);
    s.state(32 + k);
    let word = |s: &mut Sim| -> String {
        let n = s.int(0, 6);
        (0..n).map(|_| *s.pick(&['G', '0', '1', '-', '"', '\\', 'é', '\n', ' ', '\u{1F680}', '\u{7f}', '/'])).collect()
    };
    let param = |s: &mut Sim| -> (Parameter, Value) {
        let (kind, doc) = match s.below(13) {
            0 => (ParameterKind::StatePositionX, json!("StatePositionX")),
            1 => (ParameterKind::StatePositionY, json!("StatePositionY")),
            2 => (ParameterKind::StatePositionZ, json!("StatePositionZ")),
            3 => (ParameterKind::StateVelocityX, json!("StateVelocityX")),
            4 => (ParameterKind::StateVelocityY, json!("StateVelocityY")),
            5 => (ParameterKind::StateVelocityZ, json!("StateVelocityZ")),
            6 => (ParameterKind::DragScale, json!("DragScale")),
            7 => (ParameterKind::SrpScale, json!("SrpScale")),
            8 => {
                let a = word(s);
                (ParameterKind::ReceiverClockBias { receiver_id: a.clone() }, json!({"ReceiverClockBias": {"receiver_id": a}}))
            }
            9 => {
                let (a, b, c) = (word(s), word(s), word(s));
                (ParameterKind::CarrierAmbiguity { receiver_id: a.clone(), satellite_id: b.clone(), signal: c.clone() }, json!({"CarrierAmbiguity": {"receiver_id": a, "satellite_id": b, "signal": c}}))
            }
            10 => {
                let a = word(s);
                (ParameterKind::SlrRangeBias { station_id: a.clone() }, json!({"SlrRangeBias": {"station_id": a}}))
            }
            11 => {
                let (a, c) = (word(s), *s.pick(&['R', 'T', 'N', 'é', '"']));
                (ParameterKind::EmpiricalAcceleration { frame: a.clone(), component: c }, json!({"EmpiricalAcceleration": {"frame": a, "component": c.to_string()}}))
            }
            _ => {
                let a = word(s);
                (ParameterKind::Custom(a.clone()), json!({"Custom": a}))
            }
        };
        let v = s.f64(-1e9, 1e9) * s.pick(&[1.0, 1e-200, 1e200]);
        let sig = s.chance(1, 2).then(|| s.f64(0.0, 1e3));
        let p = Parameter { kind, initial_value: v, apriori_sigma: sig };
        (p, json!({"kind": doc, "initial_value": v, "apriori_sigma": sig}))
    };
    let ordering = |s: &mut Sim| {
        let n = s.int(0, 7);
        let (p, d): (Vec<_>, Vec<_>) = (0..n).map(|_| param(s)).unzip();
        (ParameterOrdering { params: p }, json!({"params": d}))
    };
    match k {
        0 | 1 => {
            let (x, doc) = ordering(s);
            let kinds: Vec<ParameterKind> = x.params.iter().map(|p| p.kind.clone()).collect();
            // Which column of the estimate is which unknown.
            let probe = |o: &ParameterOrdering| {
                let mut v: Vec<f64> = kinds.iter().map(|k| o.index_of(k).map_or(-1.0, |i| i as f64)).collect();
                v.extend(o.params.iter().flat_map(|p| [p.initial_value, p.apriori_sigma.unwrap_or(f64::NAN)]));
                v.extend([o.len() as f64, o.is_empty() as u8 as f64]);
                v
            };
            for (i, k) in kinds.iter().enumerate() {
                let first = kinds.iter().position(|x| x == k).unwrap();
                ensure!(x.index_of(k) == Some(first) && first <= i, "ordering", "{k:?} at {i} is found at {:?}", x.index_of(k));
            }
            keep(s, &x, doc, Doc { name: "ParameterOrdering", optional: &["apriori_sigma"], bad: vec![], probe: &probe })
        }
        2 => {
            let (p, doc) = ordering(s);
            let n = p.len();
            let mut data = vec![0.0; n * n];
            for i in 0..n {
                for j in 0..=i {
                    let v = if i == j { s.f64(0.0, 1e6) } else { s.f64(-1e3, 1e3) };
                    data[i * n + j] = v;
                    data[j * n + i] = v;
                }
            }
            let doc = json!({"params": doc, "data": data});
            let x = ParameterCovariance { params: p, data };
            let probe = |c: &ParameterCovariance| {
                let mut v = c.data.clone();
                v.extend([c.n() as f64, c.validate_dim().is_ok() as u8 as f64, c.validate_symmetric(0.0).is_ok() as u8 as f64, c.validate_diagonal_nonneg().is_ok() as u8 as f64]);
                v
            };
            let g = probe(&x);
            ensure!(g[g.len() - 3..] == [1.0; 3], "covariance", "a sound covariance is refused: {g:?}");
            keep(s, &x, doc, Doc { name: "ParameterCovariance", optional: &["apriori_sigma"], bad: vec![], probe: &probe })
        }
        3 => {
            let a = word(s);
            let x = ArcId::new(a.clone());
            ensure!(x.as_str() == a && x.to_string() == a, "arc", "arc {a:?} is called {x}");
            let probe = |x: &ArcId| x.as_str().chars().map(|c| c as u32 as f64).collect();
            keep(s, &x, json!(a), Doc { name: "ArcId", optional: &[], bad: vec![], probe: &probe })
        }
        4 => {
            let (pa, fr, el) = (s.f64(0.0, 3.14), s.unit(), s.f64(0.0, 6.28));
            let x = MoonPhaseGeometry { phase_angle: Radians::new(pa), illuminated_fraction: IlluminationFractions::new(fr), elongation: Radians::new(el), waxing: el < 3.14 };
            let doc = json!({"phase_angle": pa, "illuminated_fraction": fr, "elongation": el, "waxing": el < 3.14});
            let probe = |g: &MoonPhaseGeometry| vec![g.phase_angle.value(), g.illuminated_fraction.value(), g.elongation.value(), g.waxing as u8 as f64, g.label() as u8 as f64];
            keep(s, &x, doc, Doc { name: "MoonPhaseGeometry", optional: &[], bad: vec![], probe: &probe })
        }
        _ => {
            let t = 51_544.0 + s.int(-90_000, 90_000) as f64 * 0.125;
            let kinds = ["NewMoon", "FirstQuarter", "FullMoon", "LastQuarter"];
            let i = s.idx(4);
            let x = PhaseEvent { mjd: ModifiedJulianDate::new(t), kind: PhaseKind::ALL[i] };
            let probe = |e: &PhaseEvent| vec![e.mjd.raw().value(), PhaseKind::ALL.iter().position(|k| *k == e.kind).unwrap() as f64];
            keep(s, &x, json!({"mjd": t, "kind": kinds[i]}), Doc { name: "PhaseEvent", optional: &[], bad: vec![("/kind", json!("Eclipse")), ("/kind", json!(2))], probe: &probe })?;
            let w = s.f64(1.0, 45.0);
            keep(s, &PhaseThresholds { half_width: Degrees::new(w) }, json!({"half_width": w}), Doc { name: "PhaseThresholds", optional: &[], bad: vec![], probe: &|t: &PhaseThresholds| vec![t.half_width.value()] })?;
            let points = [SunEarthLagrangePoint::L1, SunEarthLagrangePoint::L2, SunEarthLagrangePoint::L3, SunEarthLagrangePoint::L4, SunEarthLagrangePoint::L5];
            let j = s.idx(5);
            keep(s, &points[j], json!(format!("L{}", j + 1)), Doc { name: "SunEarthLagrangePoint", optional: &[], bad: vec![], probe: &|p: &SunEarthLagrangePoint| vec![points.iter().position(|q| q == p).unwrap() as f64] })?;
            let labels = [MoonPhaseLabel::NewMoon, MoonPhaseLabel::WaxingCrescent, MoonPhaseLabel::FirstQuarter, MoonPhaseLabel::WaxingGibbous, MoonPhaseLabel::FullMoon, MoonPhaseLabel::WaningGibbous, MoonPhaseLabel::LastQuarter, MoonPhaseLabel::WaningCrescent];
            let j = s.idx(8);
            keep(s, &labels[j], json!(format!("{:?}", labels[j])), Doc { name: "MoonPhaseLabel", optional: &[], bad: vec![], probe: &|p: &MoonPhaseLabel| vec![labels.iter().position(|q| q == p).unwrap() as f64] })
        }
    }
}

pub static C34: Prop = Prop {
    id: "C34",
    scenarios: &[("orbits", 4, orbits), ("targets", 3, targets), ("settings", 3, settings)],
    runs_quick: 400_000,
    runs_thorough: 12_000_000,
    rule: "every stored object writes the document of its values, comes back from it (its own, or one another program wrote, alone or in a list) answering bit for bit as before, and a torn, incomplete, ill-typed or out-of-domain document is refused; changed bytes are refused or give another stable object",
    real: &["serde implementations of astro::{orbit,conic,proper_motion}, coordinates::centers, targets, pod::problem, event::lunar::phase, ephemeris::lagrange", "affn, qtty, tempoch, serde_json"],
    stub: &["the medium the documents are kept on (torn, changed and incomplete documents)"],
    assumptions: &["a date whose seconds overflow a double (beyond 1e290 days) trips a debug assertion of the time library itself and is not read", "the documents of the pinned release are the format stored objects are kept in"],
};
