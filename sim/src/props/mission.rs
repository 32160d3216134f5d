//! C21, C22, C23: thrust campaigns, tracking sessions, stored estimator covariances.

use crate::core::{no_panic, Sim, R};
use crate::kepler::{self, add, cross, dot, norm, scale, sub, S6, V3};
use crate::props::est::state;
use crate::{ensure, viol, Prop};
use siderust::coordinates::cartesian::Position;
use siderust::coordinates::frames::GCRS;
use siderust::pod::force::{mass_flow_rate, thrust_acceleration, LowThrustLog, ManeuverError, ThrustArc, ThrustArcConfig};
use siderust::pod::observation::{
    CartesianState, Correction, CorrectionRegistry, EarthTideDisplacement, GnssCarrierPhaseObs, GnssPseudorangeObs, IonoModel, KlobucharParams, ObsResidual, ObsType, Observation, ObservationBatch,
    PhaseCenterOffset, PhaseResidual, PodObservationsError, ProviderBundle, ShapiroDelay, SlrNormalPointObs, TropModel,
};
use siderust::pod::problem::covariance::{CovarianceError, ParameterCovariance};
use siderust::pod::problem::parameter::{Parameter, ParameterKind, ParameterOrdering};
use siderust::qtty::{force::Newtons, Hertzs, Kilograms as Kilogram, Meters, Second};
use siderust::time::JulianDate;
use std::sync::{Arc, Mutex};
use tempoch::{Time, UTC};

// --- C21: thrust campaigns -----------------------------------------------------

/// Inserted leap seconds since 2000, as the Unix second after the insertion.
const LEAPS: [i64; 5] = [1_136_073_600, 1_230_768_000, 1_341_100_800, 1_435_708_800, 1_483_228_800];

/// Elapsed seconds since 2000-01-01T00:00:00 UTC to a Unix time in microseconds.
fn to_unix_us(elapsed_us: i64) -> Option<i64> {
    let base = 946_684_800_000_000;
    let mut u = base + elapsed_us;
    for l in LEAPS {
        if u >= l * 1_000_000 {
            if u < (l + 1) * 1_000_000 {
                return None; // inside the inserted second
            }
            u -= 1_000_000;
        }
    }
    Some(u)
}

fn utc(elapsed_us: i64) -> Option<Time<UTC>> {
    let u = to_unix_us(elapsed_us)?;
    let dt = chrono::DateTime::<chrono::Utc>::from_timestamp(u.div_euclid(1_000_000), (u.rem_euclid(1_000_000) * 1000) as u32)?;
    Time::<UTC>::try_from_chrono(dt).ok()
}

#[derive(Clone, Debug)]
struct Burn {
    t0: i64,
    t1: i64,
    f: f64,
    isp: f64,
    dir: V3,
}

const G0: f64 = 9.80665;

fn unit(v: V3) -> V3 {
    let m = v[0].abs().max(v[1].abs()).max(v[2].abs());
    let w = scale(v, 1.0 / m);
    let w = if w.iter().all(|c| c.is_finite()) { w } else { [v[0] / m, v[1] / m, v[2] / m] };
    scale(w, 1.0 / norm(w))
}

fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    (a - b).abs() <= rel * a.abs().max(b.abs()) + abs
}

/// Instants resolve to some tens of microseconds.
const TICK: f64 = 2e-4;

fn burn_arc(b: &Burn) -> Option<Result<ThrustArc, ManeuverError>> {
    let (t0, t1) = (utc(b.t0)?, utc(b.t1)?);
    Some(ThrustArc::with_normalised_direction(t0, t1, Newtons::new(b.f), Second::new(b.isp), b.dir))
}

struct Model {
    mass: f64,
    dv: f64,
    prop: f64,
    slack: f64,
    dv_slack: f64,
}

fn ledger_ok(log: &LowThrustLog, m0: f64, m: &Model) -> R {
    let (mass, dv, prop) = (log.current_mass().value(), log.total_delta_v().value(), log.total_propellant().value());
    ensure!(close(mass, m.mass, 1e-10, m.slack), "mass", "current mass {mass}, expected {}", m.mass);
    ensure!(close(prop, m.prop, 1e-10, m.slack), "propellant", "total propellant {prop}, expected {}", m.prop);
    ensure!(close(mass + prop, m0, 1e-10, 0.0), "conservation", "mass {mass} + propellant {prop} is not the initial {m0}");
    ensure!(close(dv, m.dv, 1e-9, m.dv_slack), "delta-v", "total delta-v {dv}, expected {}", m.dv);
    let r = log.records();
    let mut before = m0;
    let (mut p, mut v) = (0.0, 0.0);
    for x in r {
        ensure!(close(x.wet_mass_before.value(), before, 1e-12, 0.0), "chain", "record starts at {} kg, the one before ended at {before}", x.wet_mass_before.value());
        before = x.wet_mass_before.value() - x.propellant_used.value();
        p += x.propellant_used.value();
        v += x.delta_v.value();
    }
    ensure!(close(before, mass, 1e-12, 0.0), "chain", "last record ends at {before} kg, current mass {mass}");
    ensure!(close(p, prop, 1e-12, 0.0) && close(v, dv, 1e-12, 0.0), "chain", "records sum to {p} kg, {v} m/s; totals {prop}, {dv}");
    Ok(())
}

fn campaign(s: &mut Sim) -> R {
    let m0 = 10f64.powf(s.f64(0.0, 4.0));
    // Start anywhere in 2000-2035 or shortly before a leap second.
    let mut now: i64 = match s.below(3) {
        0 => s.int(0, 1_100_000_000) * 1_000_000,
        1 => {
            let k = s.idx(LEAPS.len());
            (LEAPS[k] - 946_684_800 + k as i64 - s.int(0, 90)) * 1_000_000
        }
        _ => s.int(0, 1_100_000_000_000) * 1000,
    };
    let mut log = no_panic("LowThrustLog::try_new", || LowThrustLog::try_new(Kilogram::new(m0)))?.map_err(|e| crate::core::Viol { kind: "refused".into(), msg: format!("initial mass {m0}: {e}") })?;
    for bad in [0.0, -m0, f64::NAN, f64::INFINITY] {
        ensure!(LowThrustLog::try_new(Kilogram::new(bad)).is_err(), "accepted", "initial mass {bad} accepted");
    }
    let mut m = Model { mass: m0, dv: 0.0, prop: 0.0, slack: 0.0, dv_slack: 0.0 };
    let mut saved: Option<(LowThrustLog, usize)> = None;
    let mut done: Vec<Burn> = vec![];
    let n = s.int(1, if s.tier_thorough { 24 } else { 8 });
    for _ in 0..n {
        now += match s.below(3) {
            0 => 0,
            1 => s.int(1, 3_600_000) * 1000,
            _ => s.int(1, 86_400) * 1_000_000,
        };
        let len = match s.below(3) {
            0 => s.int(1, 60) * 1_000_000,
            1 => s.int(1, 20_000_000) * 1000,
            _ => s.int(1, 30 * 86_400) * 1_000_000,
        };
        // Aim at a fraction of the mass so that tanks are neither always empty nor never.
        let isp = 10f64.powf(s.f64(1.5, 3.9));
        let frac = *s.pick(&[0.01, 0.1, 0.4, 1.3]);
        let f = m.mass * s.f64(1e-6, frac) * isp * G0 / (len as f64 * 1e-6);
        let mut dir = [s.normal(), s.normal(), s.normal()];
        if norm(dir) < 1e-3 {
            dir = [1.0, 0.0, 0.0];
        }
        match s.below(8) {
            0 => dir = [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0]][s.idx(3)],
            1 => {
                let e = s.int(-290, 290) as i32;
                dir = scale(unit(dir), 10f64.powi(e));
            }
            _ => {}
        }
        let mut b = Burn { t0: now, t1: now + len, f, isp, dir };
        let before = format!("{log:?}");
        // Commands that must be refused.
        if s.chance(1, 3) {
            s.fault("invalid_command");
            let mut x = b.clone();
            let kind = s.below(4);
            match kind {
                0 => x.t1 = x.t0 - *s.pick(&[0, 1_000, 1_000_000, 86_400_000_000]),
                1 => x.isp = *s.pick(&[0.0, -300.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
                2 => x.dir = [0.0; 3],
                _ => x.dir[s.idx(3)] = *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
            }
            if let Some(r) = no_panic("ThrustArc", || burn_arc(&x))? {
                match (kind, r) {
                    (0, Err(ManeuverError::EmptyInterval { .. })) | (1, Err(ManeuverError::NonPositiveIsp(_))) | (2 | 3, Err(ManeuverError::InvalidDirection(_))) => {}
                    (_, r) => viol!("accepted", "command {x:?}: {r:?}"),
                }
            }
            // The same through a hand-built arc: the ledger itself refuses.
            if let (Some(t0), Some(t1)) = (utc(x.t0), utc(x.t1)) {
                if kind < 2 {
                    let arc = ThrustArc { start: t0, stop: t1, thrust: Newtons::new(x.f), isp: Second::new(x.isp), direction: [1.0, 0.0, 0.0] };
                    let e = no_panic("append", || log.append(&arc).map(|_| ()))?;
                    ensure!(e.is_err(), "accepted", "ledger accepted {x:?}");
                    ensure!(format!("{log:?}") == before, "atomic", "a refused arc changed the ledger: {before} -> {log:?}");
                }
            }
        }
        if s.chance(1, 6) {
            s.fault("thrust_reading_lost");
            if let Some(Ok(mut arc)) = burn_arc(&b) {
                arc.thrust = Newtons::new(*s.pick(&[f64::NAN, f64::INFINITY]));
                let e = no_panic("append", || log.append(&arc).map(|_| ()))?;
                ensure!(e.is_err() && format!("{log:?}") == before, "atomic", "an arc of thrust {:?} gave {e:?} and {log:?}", arc.thrust);
            }
        }
        if s.chance(1, 4) {
            // Engine cut-off part way.
            s.fault("engine_cutoff");
            b.t1 = b.t0 + s.int(1, (len / 1000).max(1)) * 1000;
        }
        let Some(arc) = no_panic("ThrustArc", || burn_arc(&b))? else { continue };
        let arc = match arc {
            Ok(a) => a,
            Err(e) => viol!("refused", "valid command {b:?} refused: {e}"),
        };
        let u = unit(b.dir);
        ensure!((0..3).all(|k| (arc.direction[k] - u[k]).abs() < 1e-12), "direction", "direction {:?} normalised to {:?}", b.dir, arc.direction);
        // What the burn costs, in elapsed seconds.
        let dt = (b.t1 - b.t0) as f64 * 1e-6;
        let mdot = b.f / (b.isp * G0);
        let used = mdot * dt;
        ensure!(mass_flow_rate(arc.thrust, arc.isp).is_ok_and(|x| close(x, mdot, 1e-12, 0.0)), "mass-flow", "mass flow {:?}, expected {mdot}", mass_flow_rate(arc.thrust, arc.isp));
        // Splitting: the same burn in pieces on a copy of the ledger.
        let mut pieces = log.clone();
        let slack = mdot * TICK;
        let out = no_panic("append", || log.append(&arc).cloned())?;
        s.checked();
        if used >= m.mass + (slack + m.slack) * 2.0 + 1e-6 * m.mass {
            s.fault("tank_empty");
            ensure!(out.is_err(), "accepted", "{used} kg burnt out of {} kg", m.mass);
            ensure!(format!("{log:?}") == before, "atomic", "a refused arc changed the ledger: {before} -> {log:?}");
            continue;
        }
        if used > m.mass - (slack + m.slack) * 2.0 - 1e-6 * m.mass {
            return Ok(());
        }
        let rec = match out {
            Ok(r) => r,
            Err(e) => viol!("refused", "{used} kg of {} kg refused: {e}", m.mass),
        };
        let dv = b.isp * G0 * (m.mass / (m.mass - used)).ln();
        let sl = slack / (m.mass - used) * b.isp * G0 + b.isp * G0 * 1e-13 + m.slack / (m.mass - used) * b.isp * G0;
        ensure!(close(rec.duration.value(), dt, 1e-12, TICK), "duration", "burn of {dt} s logged as {}", rec.duration.value());
        ensure!(close(rec.propellant_used.value(), used, 1e-11, slack), "propellant", "{} kg logged for {used} kg", rec.propellant_used.value());
        ensure!(close(rec.delta_v.value(), dv, 1e-9, sl), "delta-v", "{} m/s logged for {dv} m/s", rec.delta_v.value());
        ensure!(log.records().last() == Some(&rec), "chain", "append returned {rec:?}, the ledger ends with {:?}", log.records().last());
        // Fly the burn: thrust acts within [start, stop) only.
        let m_start = m.mass;
        let mut v = [0.0; 3];
        let probe = |t: Option<Time<UTC>>, mass: f64| -> R<Option<V3>> {
            let Some(t) = t else { return Ok(None) };
            match no_panic("thrust_acceleration", || thrust_acceleration(&arc, Kilogram::new(mass), t))? {
                Ok(a) => Ok(Some(a)),
                Err(e) => Err(crate::core::Viol { kind: "refused".into(), msg: format!("acceleration refused: {e}") }),
            }
        };
        for (t, on) in [(b.t0 - 1000, false), (b.t0, true), (b.t1 - 1000, b.t1 - 1000 > b.t0), (b.t1, false), (b.t1 + 1000, false)] {
            if t == b.t1 - 1000 && !on {
                continue;
            }
            if let Some(a) = probe(utc(t), m_start)? {
                let want = if on { b.f / m_start } else { 0.0 };
                ensure!(close(norm(a), want, 1e-12, 0.0), "window", "acceleration {a:?} at {} us of a burn of {} us", t - b.t0, b.t1 - b.t0);
            }
        }
        ensure!(probe(Some(arc.stop), m_start)? == Some([0.0; 3]), "window", "thrust at the stop instant");
        for bad in [0.0, -1.0, f64::NAN, f64::INFINITY] {
            ensure!(thrust_acceleration(&arc, Kilogram::new(bad), arc.start).is_err(), "accepted", "mass {bad} accepted");
        }
        let cells = 6;
        let mut edges: Vec<f64> = (0..=cells).map(|k| k as f64 / cells as f64).collect();
        for e in edges.iter_mut().take(cells).skip(1) {
            *e += s.f64(-0.05, 0.05);
        }
        // Five-point Gauss-Legendre on each cell of burnt fraction.
        let (x5, w5) = ([0.0, 0.538469310105683, -0.538469310105683, 0.906179845938664, -0.906179845938664], [0.568888888888889, 0.478628670499366, 0.478628670499366, 0.236926885056189, 0.236926885056189]);
        let mut missing = false;
        if dt > 0.1 && used < 0.75 * m_start {
            for w in edges.windows(2) {
                for k in 0..5 {
                    let fr = 0.5 * (w[0] + w[1]) + 0.5 * (w[1] - w[0]) * x5[k];
                    let t = b.t0 + (fr * (b.t1 - b.t0) as f64) as i64;
                    match probe(utc(t), m_start - used * fr)? {
                        Some(a) => v = add(v, scale(a, 0.5 * (w[1] - w[0]) * w5[k] * dt)),
                        None => missing = true,
                    }
                }
            }
            if !missing {
                let want = scale(u, dv);
                ensure!(norm(sub(v, want)) <= 1e-6 * dv + sl, "flown", "flown delta-v {v:?}, logged {} along {u:?}", rec.delta_v.value());
                s.probe("burns_flown");
            }
        }
        // The same burn in pieces.
        let mut cuts = vec![b.t0, b.t1];
        for _ in 0..s.below(4) {
            cuts.push(s.int(b.t0 / 1000, b.t1 / 1000) * 1000);
        }
        cuts.sort();
        cuts.dedup();
        cuts.retain(|t| *t >= b.t0 && *t <= b.t1);
        if cuts.len() > 2 && cuts.windows(2).all(|w| w[1] - w[0] >= 1000) && cuts.iter().all(|t| utc(*t).is_some()) {
            s.fault("burn_split");
            for w in cuts.windows(2) {
                if let Some(Ok(a)) = burn_arc(&Burn { t0: w[0], t1: w[1], ..b.clone() }) {
                    let r = no_panic("append", || pieces.append(&a).map(|_| ()))?;
                    ensure!(r.is_ok(), "refused", "piece of an affordable burn refused: {r:?}");
                }
            }
            let k = cuts.len() as f64;
            ensure!(close(pieces.current_mass().value(), log.current_mass().value(), 1e-11, slack * k), "split", "in pieces {:?}, whole {:?}", pieces.current_mass(), log.current_mass());
            ensure!(close(pieces.total_delta_v().value(), log.total_delta_v().value(), 1e-9, sl * k), "split", "delta-v in pieces {:?}, whole {:?}", pieces.total_delta_v(), log.total_delta_v());
        }
        m = Model { mass: m.mass - used, dv: m.dv + dv, prop: m.prop + used, slack: m.slack + slack, dv_slack: m.dv_slack + sl };
        ledger_ok(&log, m0, &m)?;
        done.push(b.clone());
        now = b.t1;
        s.advance((dt * 1e9) as u64);
        s.note(format!("burn {dt} s {} N", b.f));
        // Checkpoint, and later a restart that replays what followed.
        if s.chance(1, 4) {
            saved = Some((log.clone(), done.len()));
        } else if s.chance(1, 4) {
            if let Some((c, k)) = &saved {
                s.fault("restart_from_checkpoint");
                let mut x = c.clone();
                for b in &done[*k..] {
                    if let Some(Ok(a)) = burn_arc(b) {
                        let _ = no_panic("append", || x.append(&a).map(|_| ()))?;
                    }
                }
                ensure!(format!("{x:?}") == format!("{log:?}"), "restart", "replayed ledger {x:?} differs from {log:?}");
            }
        }
    }
    Ok(())
}

fn knobs(s: &mut Sim) -> R {
    // Thrust arcs contribute exactly the parameters switched on, in a stable order.
    let n = s.int(1, 6);
    let mut all = ParameterOrdering::default();
    let mut want: Vec<(String, f64)> = vec![];
    for k in 0..n {
        let c = ThrustArcConfig { id: format!("{}{k}", s.ident(0, 4, "abXYZ[]_ ")), start_seconds_tdb: s.f64(-1e9, 1e9), stop_seconds_tdb: s.f64(-1e9, 1e9), estimate_thrust_scale: s.chance(1, 2), estimate_delta_v: s.chance(1, 2) };
        all.params.extend(no_panic("parameters", || c.parameters())?);
        if c.estimate_thrust_scale {
            want.push((format!("thrust_scale[{}]", c.id), 1.0));
        }
        if c.estimate_delta_v {
            for a in ["X", "Y", "Z"] {
                want.push((format!("delta_v_{a}[{}]", c.id), 0.0));
            }
        }
    }
    s.checked();
    ensure!(all.len() == want.len() && all.is_empty() == want.is_empty(), "parameters", "{} parameters for {want:?}", all.len());
    for (i, (name, v)) in want.iter().enumerate() {
        let p = &all.params[i];
        let kind = ParameterKind::Custom(name.clone());
        ensure!(p.kind == kind && p.initial_value == *v && p.apriori_sigma.is_some_and(|x| x > 0.0 && x.is_finite()), "parameters", "slot {i} is {p:?}, expected {name} from {v}");
        ensure!(all.index_of(&kind) == Some(i), "parameters", "{name} found at {:?}, is at {i}", all.index_of(&kind));
    }
    ensure!(all.index_of(&ParameterKind::DragScale).is_none(), "parameters", "absent parameter found");
    s.note(format!("{want:?}"));
    Ok(())
}

pub static C21: Prop = Prop {
    id: "C21",
    scenarios: &[("campaign", 8, campaign), ("knobs", 1, knobs)],
    runs_quick: 600_000,
    runs_thorough: 20_000_000,
    rule: "campaign: up to eight (thorough: 24) burns on one simulated clock counted in elapsed seconds, many across leap seconds, with invalid commands, lost thrust readings, engine cut-offs, empty tanks, splits, checkpoints and restarts, each burn flown through thrust_acceleration by Gauss quadrature; knobs: parameters contributed by configured arcs. Distinct = distinct hash of the burn sequence.",
    real: &["pod::force::{thrust, low_thrust, thrust_arc}", "tempoch UTC"],
    stub: &["the spacecraft (mass, engine, clock)"],
    assumptions: &["thrust not negative; Isp 30-8000 s where numbers are compared; UTC instants resolve to 0.2 ms"],
};

// --- C22: tracking sessions ------------------------------------------------------

const C: f64 = 299_792_458.0;
const OMEGA: f64 = 7.292_115_146_7e-5;
const GM: f64 = 3.986_004_418e14;

#[derive(Default)]
struct Clocks {
    bias: std::collections::BTreeMap<String, (f64, f64)>,
    jump: Option<(String, f64, f64)>,
    outage: Vec<String>,
    rx: f64,
    epoch0: f64,
    asked: Vec<(String, f64)>,
}

impl Clocks {
    fn sat(&self, prn: &str, jd: f64) -> f64 {
        if self.outage.iter().any(|p| p == prn) {
            return 0.0;
        }
        let Some((b, d)) = self.bias.get(prn) else { return 0.0 };
        let mut x = b + d * (jd - self.epoch0) * 86_400.0;
        if let Some((p, at, by)) = &self.jump {
            if p == prn && jd >= *at {
                x += by;
            }
        }
        x
    }
}

struct SimBundle(Arc<Mutex<Clocks>>);

impl ProviderBundle for SimBundle {
    fn gnss_satellite_state_gcrs(&self, _: &str, _: JulianDate) -> Option<(Position<siderust::coordinates::centers::Geocentric, GCRS, siderust::qtty::unit::Kilometer>, siderust::astro::dynamics::Velocity<GCRS>)> {
        None
    }
    fn gnss_satellite_clock_m(&self, prn: &str, epoch: JulianDate) -> Meters {
        let mut c = self.0.lock().unwrap();
        c.asked.push((prn.to_string(), epoch.value()));
        Meters::new(c.sat(prn, epoch.value()))
    }
    fn receiver_clock_m(&self) -> Meters {
        Meters::new(self.0.lock().unwrap().rx)
    }
    fn station_gcrs_km(&self, _: &str, _: JulianDate) -> Option<Position<siderust::coordinates::centers::Geocentric, GCRS, siderust::qtty::unit::Kilometer>> {
        None
    }
}

fn pos(v: V3) -> siderust::astro::dynamics::Position<GCRS> {
    siderust::astro::dynamics::Position::<GCRS>::new(v[0], v[1], v[2])
}
fn vel(v: V3) -> siderust::astro::dynamics::Velocity<GCRS> {
    siderust::astro::dynamics::Velocity::<GCRS>::new(v[0], v[1], v[2])
}

fn klobuchar(p: &KlobucharParams) -> f64 {
    let pi = std::f64::consts::PI;
    let e = p.elevation_sc;
    let psi = 0.0137 / (e + 0.11) - 0.022;
    let phi = (p.receiver_lat_sc + psi * (p.azimuth_sc * pi).cos()).max(-0.416).min(0.416);
    let lam = p.receiver_lon_sc + psi * (p.azimuth_sc * pi).sin() / (phi * pi).cos();
    let gm = phi + 0.064 * ((lam - 1.617) * pi).cos();
    let t = (43_200.0 * lam + p.utc_seconds).rem_euclid(86_400.0);
    let poly = |c: &[f64; 4]| c[0] + gm * (c[1] + gm * (c[2] + gm * c[3]));
    let per = poly(&p.beta).max(72_000.0);
    let amp = poly(&p.alpha).max(0.0);
    let x = std::f64::consts::TAU * (t - 50_400.0) / per;
    let f = 1.0 + 16.0 * (0.53 - e) * (0.53 - e) * (0.53 - e);
    f * C * (5e-9 + if x.abs() < pi / 2.0 { amp * x.cos() } else { 0.0 })
}

fn saast(e: f64) -> f64 {
    let se = e.sin().max(0.07);
    0.002277 * (1013.25 + (1255.0 / 288.15 + 0.05) * 11.691) / se
}

enum Kind {
    Code,
    Phase(i32),
    Laser,
    Broken,
    Custom,
}

struct Shot {
    id: String,
    kind: Kind,
    epoch: JulianDate,
    tick: i64,
    freq: f64,
    injected: f64,
    tol: f64,
}

/// A user-supplied observation that fails or answers a constant.
struct UserObs(JulianDate, Option<f64>, String);

impl Observation for UserObs {
    type Residual = f64;
    fn residual(&self, _: &CartesianState, p: &dyn ProviderBundle) -> Result<f64, PodObservationsError> {
        let _ = p.receiver_clock_m();
        self.1.ok_or_else(|| PodObservationsError::MissingStationPosition { station_id: self.2.clone() })
    }
    fn obs_type(&self) -> ObsType {
        ObsType::Doppler
    }
    fn epoch(&self) -> JulianDate {
        self.0
    }
    fn sigma(&self) -> Meters {
        Meters::new(0.5)
    }
}

fn session(s: &mut Sim) -> R {
    let base = JulianDate::new(2_451_545.0 + s.int(0, 12_000) as f64 + s.unit());
    let jd0 = base.value();
    let rx: S6 = kepler::orbit(s, (6600.0, 9000.0), 0.05);
    let nsat = s.int(2, 6) as usize;
    let mut clocks = Clocks { epoch0: jd0, rx: s.normal() * 1e4, ..Default::default() };
    let mut sats: Vec<(String, S6)> = vec![];
    for k in 0..nsat {
        let id = format!("{}{:02}", s.pick(&["G", "E", "R", "C"]), s.int(1, 4) * 10 + k as i64);
        clocks.bias.insert(id.clone(), (s.normal() * 1e5, s.normal() * 1e-3));
        sats.push((id, kepler::orbit(s, (24_000.0, 30_000.0), 0.02)));
    }
    if s.chance(1, 2) {
        s.fault("clock_jump");
        let by = s.normal() * 300.0;
        clocks.jump = Some((sats[s.idx(nsat)].0.clone(), jd0 + s.int(0, 4) as f64 * 30.0 / 86_400.0, by));
    }
    if s.chance(1, 3) {
        s.fault("clock_product_gap");
        clocks.outage.push(sats[s.idx(nsat)].0.clone());
    }
    let shared = Arc::new(Mutex::new(clocks));
    let bundle = SimBundle(shared.clone());
    // Instants on a grid of 0.1 microsecond offsets around 30 s epochs.
    let nepoch = s.int(1, 5);
    let offs: [i64; 7] = [0, 0, 0, 2, -2, 50, 200];
    let mut batch = ObservationBatch::new();
    let mut shots: Vec<Shot> = vec![];
    let n = s.int(1, if s.tier_thorough { 40 } else { 14 });
    for _ in 0..n {
        let ep = s.int(0, nepoch - 1);
        let off = *s.pick(&offs);
        let tick = ep * 300_000_000 + off;
        let dt = tick as f64 * 1e-7;
        let epoch = base + Second::new(dt);
        let r = kepler::kepler(rx, ep as f64 * 30.0, kepler::MU);
        let r3 = [r[0], r[1], r[2]];
        let (id, orb) = sats[s.idx(nsat)].clone();
        let sv = kepler::kepler(orb, dt - 0.07, kepler::MU);
        let (sp, svv) = kepler::rv(sv);
        let noise = match s.below(5) {
            0 => 0.0,
            1 => {
                s.fault("multipath_outlier");
                s.normal() * 500.0
            }
            _ => s.normal() * 2.0,
        };
        let freq = match s.below(6) {
            0 | 1 => 1_575_420_000.0,
            2 => 1_227_600_000.0,
            3 => 1_176_450_000.0,
            4 => 1_602e6 + 562_500.0 * s.int(-7, 6) as f64,
            _ => 2_492_028_000.0,
        };
        let el = s.f64(-0.1, 1.57);
        let trop = if s.chance(1, 2) { TropModel::Saastamoinen { elevation_rad: el } } else { TropModel::None };
        let mut klob = KlobucharParams::gps_default();
        klob.receiver_lat_sc = s.f64(-0.5, 0.5);
        klob.receiver_lon_sc = s.f64(-1.0, 1.0);
        klob.azimuth_sc = s.f64(-1.0, 1.0);
        klob.elevation_sc = s.f64(0.02, 0.5);
        klob.utc_seconds = s.f64(0.0, 86_400.0);
        for k in 0..4 {
            klob.alpha[k] *= s.f64(0.2, 3.0);
            klob.beta[k] *= s.f64(0.2, 3.0);
        }
        let iono = match s.below(3) {
            0 => IonoModel::None,
            1 => IonoModel::IonoFree,
            _ => IonoModel::Klobuchar(klob),
        };
        let t_m = match trop {
            TropModel::None => 0.0,
            TropModel::Saastamoinen { elevation_rad } => saast(elevation_rad),
        };
        let i_m = match &iono {
            IonoModel::Klobuchar(p) => klobuchar(p) * (1_575_420_000.0 / freq).powi(2),
            _ => 0.0,
        };
        let clk = shared.lock().unwrap().sat(&id, epoch.value());
        let common = norm(sub(r3, sp)) * 1000.0 + shared.lock().unwrap().rx - clk + t_m + OMEGA * (sp[0] * r3[1] - sp[1] * r3[0]) * 1e6 / C - 2.0 * dot(sp, svv) * 1e6 / C;
        match s.below(8) {
            0..=2 => {
                let o = GnssPseudorangeObs { prn: id.clone(), epoch, measured_m: Meters::new(common + i_m + noise), sigma: Meters::new(1.5), sat_pos_gcrs_km: pos(sp), sat_vel_gcrs_km_s: vel(svv), trop, iono, frequency_hz: Hertzs::new(freq) };
                batch.push(Box::new(o));
                shots.push(Shot { id, kind: Kind::Code, epoch, tick, freq, injected: noise, tol: 1e-6 });
            }
            3..=5 => {
                let slip = if s.chance(1, 3) {
                    s.fault("cycle_slip");
                    s.int(-1_000_000, 1_000_000) as i32
                } else {
                    0
                };
                let lam = C / freq;
                let o = GnssCarrierPhaseObs {
                    prn: id.clone(), epoch, measured_m: Meters::new(common - i_m + lam * slip as f64 + noise), sigma: Meters::new(0.003), sat_pos_gcrs_km: pos(sp), sat_vel_gcrs_km_s: vel(svv), trop, iono, frequency_hz: Hertzs::new(freq), integer_ambiguity: slip,
                };
                batch.push(Box::new(o));
                shots.push(Shot { id, kind: Kind::Phase(slip), epoch, tick, freq, injected: noise, tol: 1e-6 });
            }
            6 => {
                // Laser range from a ground station to the receiver's satellite.
                let lat = s.f64(-1.5, 1.5);
                let lon = s.f64(-3.1, 3.1);
                let st = [6371.0 * lat.cos() * lon.cos(), 6371.0 * lat.cos() * lon.sin(), 6371.0 * lat.sin()];
                let v3 = [r[3], r[4], r[5]];
                let rho0 = norm(sub(st, r3));
                let p1 = sub(r3, scale(v3, rho0 * 1000.0 / C));
                let rho = norm(sub(st, p1)) * 1000.0;
                let lam = *s.pick(&[0.532, 0.355, 1.064, 0.8469]);
                let e = el.max(3f64.to_radians());
                let mm = (0.9650 + 0.0164 / (lam * lam) + 0.000228 / (lam * lam * lam * lam)) * 0.002277 * 1013.25 / (e.sin() + 0.0014 / (e.tan() + 0.045));
                let sum = (norm(st) + norm(p1)) * 1000.0;
                let sh = 2.0 * 2.0 * GM / (C * C) * ((sum + rho) / (sum - rho)).ln();
                let o = SlrNormalPointObs { station_id: id.clone(), epoch, measured_m: Meters::new(2.0 * rho + 2.0 * mm + sh + noise), sigma: Meters::new(0.01), station_gcrs_km: pos(st), sat_pos_gcrs_km: pos(r3), sat_vel_gcrs_km_s: vel(v3), elevation_rad: el, wavelength_um: lam };
                batch.push(Box::new(o));
                shots.push(Shot { id, kind: Kind::Laser, epoch, tick, freq, injected: noise, tol: 1e-6 });
            }
            _ => {
                let broken = s.chance(1, 2);
                if broken {
                    s.fault("observation_failure");
                }
                batch.push(Box::new(UserObs(epoch, if broken { None } else { Some(noise) }, id.clone())));
                shots.push(Shot { id, kind: if broken { Kind::Broken } else { Kind::Custom }, epoch, tick, freq, injected: noise, tol: 0.0 });
            }
        }
    }
    ensure!(batch.len() == shots.len() && !batch.is_empty(), "batch", "{} observations in the batch, {} pushed", batch.len(), shots.len());
    let eps = no_panic("epochs", || batch.epochs())?;
    ensure!(eps.len() == shots.len() && eps.iter().zip(&shots).all(|(a, b)| a.value() == b.epoch.value()), "batch", "epochs {eps:?} are not those pushed");
    // Process the epochs in any order, some twice, some empty.
    for _ in 0..s.int(1, 2 * nepoch) {
        let ep = s.int(0, nepoch);
        let at = ep * 300_000_000 + *s.pick(&offs);
        let epoch = base + Second::new(at as f64 * 1e-7);
        // The state belongs to the 30 s epoch.
        let x = kepler::kepler(rx, ep as f64 * 30.0, kepler::MU);
        let st = state(epoch.value(), x);
        // Instants resolve to a few tenths of a nanosecond; 0.5 us is the documented window.
        let want: Vec<&Shot> = shots.iter().filter(|o| (o.tick - at).abs() < 5).collect();
        shared.lock().unwrap().asked.clear();
        let got = no_panic("residuals_at_epoch_with", || batch.residuals_at_epoch_with(epoch, &st, &bundle))?;
        s.checked();
        let count = no_panic("residuals_at_epoch", || batch.residuals_at_epoch(epoch))?.len();
        ensure!(got.len() == want.len() && count == want.len(), "selection", "{} residuals and {count} matches at {at}, expected {} of ticks {:?}", got.len(), want.len(), shots.iter().map(|o| o.tick).collect::<Vec<_>>());
        let mut asked = vec![];
        for (g, w) in got.iter().zip(&want) {
            let tol = w.tol;
            match (&w.kind, g) {
                (Kind::Broken, Err(PodObservationsError::MissingStationPosition { station_id })) => ensure!(station_id == &w.id, "order", "failure of {station_id} in the slot of {}", w.id),
                (Kind::Phase(_), Ok(ObsResidual::Phase(PhaseResidual { residual_m, cycles }))) => {
                    ensure!((residual_m - w.injected).abs() <= tol, "residual", "phase residual {residual_m} m, injected {} ({})", w.injected, w.id);
                    ensure!((cycles - residual_m * w.freq / C).abs() <= 1e-9 * (1.0 + cycles.abs()), "cycles", "{cycles} cycles for {residual_m} m at {} Hz", w.freq);
                }
                (Kind::Code | Kind::Laser | Kind::Custom, Ok(ObsResidual::Scalar(v))) => ensure!((v - w.injected).abs() <= tol, "residual", "residual {v} m, injected {} ({})", w.injected, w.id),
                (_, g) => viol!("order", "{} answered {g:?}", w.id),
            }
            if matches!(w.kind, Kind::Code | Kind::Phase(_)) {
                asked.push((w.id.clone(), w.epoch.value()));
            }
        }
        let log = shared.lock().unwrap().asked.clone();
        ensure!(log == asked, "query", "clock service asked {log:?}, expected {asked:?}");
        s.note(format!("epoch {at}: {} residuals", want.len()));
        s.advance(30_000_000_000);
    }
    Ok(())
}

/// A correction that records what it was given.
struct Spy(String, f64, f64, Arc<Mutex<Vec<(String, f64)>>>);

impl Correction for Spy {
    fn name(&self) -> &str {
        &self.0
    }
    fn apply_to_range(&self, range: Meters, _: siderust::astro::dynamics::Position<GCRS>, _: siderust::astro::dynamics::Position<GCRS>) -> Meters {
        self.3.lock().unwrap().push((self.0.clone(), range.value()));
        Meters::new(range.value() * self.1 + self.2)
    }
}

fn pipeline(s: &mut Sim) -> R {
    let rx = scale(unit([s.normal(), s.normal(), s.normal() + 1e-3]), s.f64(6300.0, 8000.0));
    let sat = match s.below(6) {
        0 => rx,
        _ => scale(unit([s.normal(), s.normal(), s.normal() + 1e-3]), s.f64(6500.0, 42_000.0)),
    };
    let d = sub(sat, rx);
    let range = match s.below(4) {
        0 => s.f64(1e3, 1e8),
        _ => norm(d) * 1000.0,
    };
    let log = Arc::new(Mutex::new(vec![]));
    let mut reg = CorrectionRegistry::new();
    let mut names: Vec<String> = vec![];
    let mut x = range;
    let mut seen = vec![];
    let mut tol = 1e-6;
    for k in 0..s.int(0, 6) {
        let off = [s.normal() * 1e-3, s.normal() * 1e-3, s.normal() * 1e-3];
        let along = if norm(d) > 0.0 { dot(off, d) / norm(d) * 1000.0 } else { 0.0 };
        let m = scale(off, 1000.0);
        match s.below(6) {
            0 => {
                reg.push(Box::new(PhaseCenterOffset::new(off)));
                names.push("PhaseCenterOffset".into());
                x -= along;
            }
            1 => {
                reg.push(Box::new(PhaseCenterOffset::from_metres(m)));
                names.push("PhaseCenterOffset".into());
                x -= along;
            }
            2 => {
                reg.push(Box::new(EarthTideDisplacement::from_metres(m[0], m[1], m[2])));
                names.push("EarthTideDisplacement".into());
                x -= along;
            }
            3 => {
                let zero = s.chance(1, 4);
                reg.push(Box::new(if zero { EarthTideDisplacement::zero() } else { EarthTideDisplacement::from_km(off[0], off[1], off[2]) }));
                names.push("EarthTideDisplacement".into());
                if !zero {
                    x -= along;
                }
            }
            4 => {
                reg.push(Box::new(ShapiroDelay));
                names.push("ShapiroDelay".into());
                let sum = (norm(rx) + norm(sat)) * 1000.0;
                if (sum - x).abs() < 1.0 {
                    tol = f64::INFINITY;
                } else if sum > x {
                    x += 2.0 * GM / (C * C) * ((sum + x) / (sum - x)).ln();
                    tol += 1e-6 * (1.0 + 1e3 / (sum - x).abs());
                }
            }
            _ => {
                let (a, b) = (*s.pick(&[1.0, 0.5, 2.0, 1.1]), s.normal() * 10.0);
                reg.push(Box::new(Spy(format!("user{k}"), a, b, log.clone())));
                names.push(format!("user{k}"));
                seen.push((format!("user{k}"), x));
                x = x * a + b;
                tol *= a.abs().max(1.0);
            }
        }
    }
    s.checked();
    ensure!(reg.len() == names.len() && reg.is_empty() == names.is_empty() && reg.names() == names, "registry", "names {:?}, registered {names:?}", reg.names());
    let turns = s.int(1, 2);
    for _ in 0..turns {
        log.lock().unwrap().clear();
        let got = no_panic("apply", || reg.apply(Meters::new(range), pos(rx), pos(sat)))?.value();
        ensure!((got - x).abs() <= tol, "corrected", "corrected range {got}, expected {x} through {names:?}");
        let calls = log.lock().unwrap().clone();
        ensure!(calls.len() == seen.len() && calls.iter().zip(&seen).all(|(a, b)| a.0 == b.0 && (a.1 - b.1).abs() <= tol), "pipeline", "corrections saw {calls:?}, expected {seen:?}");
    }
    s.note(format!("{names:?} {range}"));
    let _ = cross(rx, sat);
    Ok(())
}

pub static C22: Prop = Prop {
    id: "C22",
    scenarios: &[("session", 3, session), ("pipeline", 1, pipeline)],
    runs_quick: 1_000_000,
    runs_thorough: 10_000_000,
    rule: "session: a receiver in orbit, a constellation with clock biases, drifts, jumps and gaps, laser stations and user observations; up to 14 (thorough: 40) measurements synthesised by an independent model with injected noise, outliers and cycle slips, pushed in any order and processed epoch by epoch in any order; pipeline: random chains of range corrections with recording ones in between. Distinct = distinct hash of the epochs and counts.",
    real: &["pod::observation (all)", "astro::dynamics::OrbitState", "tempoch"],
    stub: &["ProviderBundle (clock products)", "constellation, receiver, stations (closed-form orbits)"],
    assumptions: &["the documented measurement models are what is promised, not their physical accuracy"],
};

// --- C23: stored covariances -------------------------------------------------------

fn stored(s: &mut Sim) -> R {
    let n = s.int(0, 7) as usize;
    let mut params = ParameterOrdering::default();
    for k in 0..n {
        let kind = match s.below(6) {
            0 => ParameterKind::StatePositionX,
            1 => ParameterKind::ReceiverClockBias { receiver_id: format!("R{k}") },
            2 => ParameterKind::CarrierAmbiguity { receiver_id: format!("R{k}"), satellite_id: "G01".into(), signal: "L1".into() },
            3 => ParameterKind::EmpiricalAcceleration { frame: "RTN".into(), component: *s.pick(&['R', 'T', 'N']) },
            4 => ParameterKind::SlrRangeBias { station_id: format!("{}", 7000 + s.int(0, 3)) },
            _ => ParameterKind::Custom(s.ident(0, 5, "abc\"\\\n é")),
        };
        params.params.push(Parameter { kind, initial_value: s.normal(), apriori_sigma: if s.chance(1, 2) { Some(s.unit()) } else { None } });
    }
    for p in &params.params {
        let want = params.params.iter().position(|q| q.kind == p.kind);
        ensure!(params.index_of(&p.kind) == want, "index", "{:?} found at {:?}, first at {want:?}", p.kind, params.index_of(&p.kind));
    }
    // A healthy covariance: B B^T.
    let b: Vec<f64> = (0..n * n).map(|_| s.normal()).collect();
    let mut data = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..=i {
            let v: f64 = (0..n).map(|k| b[i * n + k] * b[j * n + k]).sum();
            data[i * n + j] = v;
            data[j * n + i] = v;
        }
    }
    let good = ParameterCovariance { params: params.clone(), data };
    let tol = *s.pick(&[0.0, 1e-12, 1e-6]);
    ensure!(good.n() == n && good.validate_dim().is_ok() && good.validate_symmetric(tol).is_ok() && good.validate_diagonal_nonneg().is_ok(), "refused", "a healthy covariance of {n} parameters is refused");
    // Store, damage, restore.
    let text = serde_json::to_string(&good).map_err(|e| crate::core::Viol { kind: "store".into(), msg: e.to_string() })?;
    let back: ParameterCovariance = serde_json::from_str(&text).map_err(|e| crate::core::Viol { kind: "store".into(), msg: format!("own JSON refused: {e}") })?;
    ensure!(back.params.params.iter().zip(&params.params).all(|(a, b)| a.kind == b.kind) && back.params.len() == n, "store", "parameters {:?} came back as {:?}", params, back.params);
    ensure!(back.data.len() == n * n && back.data.iter().zip(&good.data).all(|(a, b)| (a - b).abs() <= 4e-16 * b.abs()), "store", "data changed on the way through JSON");
    let mut d = good.clone();
    let mut sym: f64 = 0.0;
    let mut bad_at: Option<usize> = None;
    let (mut nan, mut dim) = (false, false);
    for _ in 0..s.int(1, 2) {
        if d.data.is_empty() || dim {
            break;
        }
        match s.below(5) {
            0 => {
                s.fault("entry_lost");
                d.data.pop();
                dim = true;
            }
            1 => {
                s.fault("entry_extra");
                d.data.push(s.normal());
                dim = true;
            }
            2 if n > 1 => {
                s.fault("entry_changed");
                let (i, j) = (s.idx(n), s.idx(n));
                if i != j {
                    let by = s.normal() * *s.pick(&[1e-9, 1e-3, 1.0]);
                    d.data[i * n + j] += by;
                }
            }
            3 => {
                s.fault("entry_not_a_number");
                let i = s.idx(n * n);
                d.data[i] = f64::NAN;
                nan = true;
            }
            _ => {
                s.fault("variance_sign_flipped");
                let i = s.idx(n);
                d.data[i * n + i] = -d.data[i * n + i];
            }
        }
    }
    s.checked();
    s.note(format!("{n} {dim} {nan} {:?}", d.data.first()));
    let (vd, vs, vn) = (no_panic("validate_dim", || d.validate_dim())?, no_panic("validate_symmetric", || d.validate_symmetric(tol))?, no_panic("validate_diagonal_nonneg", || d.validate_diagonal_nonneg())?);
    if d.data.len() != n * n {
        for r in [&vd, &vs, &vn] {
            ensure!(matches!(r, Err(CovarianceError::Dimension { expected, actual }) if *expected == n && *actual == d.data.len()), "dimension", "{} entries for {n} parameters: {r:?}", d.data.len());
        }
        return Ok(());
    }
    ensure!(vd.is_ok(), "dimension", "{vd:?} for a full matrix");
    let mut first = None;
    for i in 0..n {
        for j in i + 1..n {
            let e = (d.data[i * n + j] - d.data[j * n + i]).abs();
            sym = sym.max(e);
            if !(e <= tol) && first.is_none() {
                first = Some((i, j));
            }
        }
        if !(d.data[i * n + i] >= 0.0) && bad_at.is_none() {
            bad_at = Some(i);
        }
    }
    match (first, &vs) {
        (None, Ok(())) => {}
        (Some((a, b)), Err(CovarianceError::NotSymmetric { i, j, .. })) => {
            let e = (d.data[i * n + j] - d.data[j * n + i]).abs();
            ensure!(!(e <= tol) && (*i.min(j), *i.max(j)) == (a, b), "symmetry", "reports ({i},{j}), first asymmetric pair is ({a},{b})");
        }
        (f, r) => viol!("symmetry", "first asymmetric pair {f:?} (tolerance {tol}), answered {r:?}; {:?}", d.data),
    }
    match (bad_at, &vn) {
        (None, Ok(())) => {}
        (Some(_), Err(CovarianceError::NotPsdDiagonal { i, .. })) => ensure!(Some(*i) == bad_at, "diagonal", "reports variance {i} of {:?}, the first bad one is {bad_at:?}", d.data),
        (f, r) => viol!("diagonal", "first bad variance {f:?}, answered {r:?}; {:?}", d.data),
    }
    Ok(())
}

pub static C23: Prop = Prop {
    id: "C23",
    scenarios: &[("stored", 1, stored)],
    runs_quick: 1_000_000,
    runs_thorough: 30_000_000,
    rule: "stored: a covariance over up to seven parameters is stored as JSON, restored, and damaged (entries lost, added, changed, not a number, variances negated). Distinct = distinct hash of size and damage.",
    real: &["pod::problem::{covariance, parameter}", "serde_json"],
    stub: &["the storage between two runs"],
    assumptions: &["validation decides dimension, symmetry and signs of variances, as documented, not definiteness"],
};
