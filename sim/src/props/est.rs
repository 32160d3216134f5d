//! C16, C17: sequential and batch estimation fed by an unreliable measurement network.

use crate::core::{no_panic, Sim, R};
use crate::kepler::{self, dot, norm, scale, sub, S6, V3};
use crate::{ensure, viol, Prop};
use siderust::astro::dynamics::forces::{GravitationalParameter, TwoBody};
use siderust::astro::dynamics::{DynamicsContext, OrbitState, Position, StateCovariance, Velocity};
use siderust::coordinates::frames::GCRS;
use siderust::pod::estimation::{gauss_newton, EkfError, NonlinearError, NonlinearOptions, NormalEquations, OrbitEkf, WlsSolverError};
use siderust::pod::process::noise::{GaussMarkovParams, PiecewiseSegment, ProcessNoise, ProcessNoiseModel, WhiteAccelPsd};
use siderust::pod::propagation::VariationalPropagator;
use siderust::qtty::{KmPerSecondsSquared, Second};
use siderust::time::JulianDate;

pub type M6 = [[f64; 6]; 6];

pub fn state(jd: f64, x: S6) -> OrbitState {
    OrbitState::new(JulianDate::new(jd).to_j2000s(), Position::<GCRS>::new(x[0], x[1], x[2]), Velocity::<GCRS>::new(x[3], x[4], x[5]))
}

pub fn vec6(s: &OrbitState) -> S6 {
    [s.position.x().value(), s.position.y().value(), s.position.z().value(), s.velocity.x().value(), s.velocity.y().value(), s.velocity.z().value()]
}

pub fn mul(a: &M6, b: &M6) -> M6 {
    let mut c = [[0.0; 6]; 6];
    for i in 0..6 {
        for j in 0..6 {
            c[i][j] = (0..6).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    c
}

pub fn tr(a: &M6) -> M6 {
    let mut c = [[0.0; 6]; 6];
    for i in 0..6 {
        for j in 0..6 {
            c[i][j] = a[j][i];
        }
    }
    c
}

/// Smallest eigenvalue of the correlation-scaled matrix (Jacobi).
fn min_corr_eig(p: &M6) -> f64 {
    let mut a = *p;
    let d: Vec<f64> = (0..6).map(|i| if p[i][i] > 0.0 { p[i][i].sqrt() } else { 1.0 }).collect();
    for i in 0..6 {
        for j in 0..6 {
            a[i][j] /= d[i] * d[j];
        }
    }
    for _ in 0..30 {
        for i in 0..6 {
            for j in i + 1..6 {
                if a[i][j].abs() < 1e-300 {
                    continue;
                }
                let th = (a[j][j] - a[i][i]) / (2.0 * a[i][j]);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..6 {
                    let (x, y) = (a[k][i], a[k][j]);
                    a[k][i] = c * x - s * y;
                    a[k][j] = s * x + c * y;
                }
                for k in 0..6 {
                    let (x, y) = (a[i][k], a[j][k]);
                    a[i][k] = c * x - s * y;
                    a[j][k] = s * x + c * y;
                }
            }
        }
    }
    (0..6).map(|i| a[i][i]).fold(f64::INFINITY, f64::min)
}

fn same_bits(a: &OrbitEkf, b: &OrbitEkf) -> bool {
    vec6(a.state()).map(f64::to_bits) == vec6(b.state()).map(f64::to_bits)
        && a.state().epoch == b.state().epoch
        && a.covariance().to_row_major().map(|r| r.map(f64::to_bits)) == b.covariance().to_row_major().map(|r| r.map(f64::to_bits))
}

/// Joseph-form scalar update written out in loops.
fn ref_update(x: &S6, p: &M6, h: &S6, innov: f64, r: f64) -> (S6, M6, f64, S6) {
    let mut ph = [0.0; 6];
    for i in 0..6 {
        for j in 0..6 {
            ph[i] += p[i][j] * h[j];
        }
    }
    let mut sv = r;
    for i in 0..6 {
        sv += h[i] * ph[i];
    }
    let k: S6 = ph.map(|v| v / sv);
    let mut nx = *x;
    for i in 0..6 {
        nx[i] += k[i] * innov;
    }
    let mut a = [[0.0; 6]; 6];
    for i in 0..6 {
        for j in 0..6 {
            a[i][j] = (i == j) as u8 as f64 - k[i] * h[j];
        }
    }
    let mut np = mul(&mul(&a, p), &tr(&a));
    for i in 0..6 {
        for j in 0..6 {
            np[i][j] += r * k[i] * k[j];
        }
    }
    (nx, np, sv, k)
}

/// One measurement against the reference; the filter itself is the starting point.
fn step_update(s: &mut Sim, f: &mut OrbitEkf, h: S6, innov: f64, r: f64) -> R {
    let before = f.clone();
    let (x, p) = (vec6(f.state()), f.covariance().to_row_major());
    let finite = h.iter().all(|v| v.is_finite()) && innov.is_finite() && r.is_finite() && r >= 0.0;
    let res = no_panic("update_scalar", || f.update_scalar(h, innov, r))?;
    s.checked();
    if !finite {
        s.fault("invalid_measurement");
        ensure!(matches!(res, Err(EkfError::InvalidInput(_))), "invalid-accepted", "h {h:?} innovation {innov} r {r}: {res:?}");
        ensure!(same_bits(f, &before), "changed-on-error", "refused measurement h {h:?} innovation {innov} r {r} changed the filter");
        return Ok(());
    }
    let (nx, np, sv, k) = ref_update(&x, &p, &h, innov, r);
    let rec = match res {
        Ok(rec) => rec,
        Err(e) => {
            s.probe("singular_innovation");
            // Legitimate only when the innovation variance vanishes or overflows.
            let hph: f64 = (0..6).map(|i| h[i] * h[i] * p[i][i]).sum::<f64>() + r;
            let over = !sv.is_finite() || nx.iter().any(|v| !v.is_finite()) || np.iter().flatten().any(|v| !v.is_finite());
            ensure!(over || sv <= 1e-9 * hph, "refused", "measurement with innovation variance {sv} refused: {e}");
            ensure!(same_bits(f, &before), "changed-on-error", "refused measurement ({e}) changed the filter");
            return Ok(());
        }
    };
    let (gx, gp) = (vec6(f.state()), f.covariance().to_row_major());
    ensure!(gx.iter().chain(gp.iter().flatten()).all(|v| v.is_finite()), "non-finite", "h {h:?} innovation {innov} r {r} on P {p:?} left state {gx:?} cov {gp:?}");
    ensure!(f.state().epoch == before.state().epoch, "epoch", "a measurement moved the epoch");
    // Scale of cancellation in each quantity.
    let hmag: f64 = (0..6).map(|i| h[i].abs() * p[i][i].max(0.0).sqrt()).sum();
    let cond = 1e-11 * (1.0 + hmag * hmag / sv);
    ensure!((rec.variance - sv).abs() <= 1e-11 * (r + hmag * hmag), "innovation", "variance {} expected {sv}", rec.variance);
    ensure!(rec.innovation == innov && (rec.nis - innov * innov / rec.variance).abs() <= 1e-12 * rec.nis.abs(), "innovation", "record {rec:?} for innovation {innov} variance {sv}");
    for i in 0..6 {
        let si = p[i][i].max(0.0).sqrt();
        let tol = cond * (1.0 + hmag * si / (k[i].abs() * sv + 1e-300) * 1e-3).min(1e3) * (k[i] * innov).abs() + 1e-11 * si * hmag / sv * innov.abs() + 1e-13 * x[i].abs();
        ensure!((gx[i] - nx[i]).abs() <= tol, "state", "component {i}: {} expected {} (gain {} innovation {innov})", gx[i], nx[i], k[i]);
        for j in 0..6 {
            let sj = p[j][j].max(0.0).sqrt();
            ensure!((gp[i][j] - np[i][j]).abs() <= cond * (1.0 + hmag * hmag / sv) * si * sj, "covariance", "P[{i}][{j}] {} expected {} (prior {}, variance {sv}, h {h:?}, r {r})", gp[i][j], np[i][j], p[i][j]);
            ensure!(gp[i][j] == gp[j][i], "asymmetric", "P[{i}][{j}] {} P[{j}][{i}] {}", gp[i][j], gp[j][i]);
        }
        ensure!(gp[i][i] <= p[i][i] * (1.0 + 1e-9) + cond * (1.0 + hmag * hmag / sv) * p[i][i], "information-lost", "variance {i} grew from {} to {}", p[i][i], gp[i][i]);
    }
    Ok(())
}

fn rand_phi(s: &mut Sim) -> M6 {
    let dt = *s.pick(&[0.0, 1.0, 10.0, 60.0, 300.0, -30.0]);
    let mut m = [[0.0; 6]; 6];
    for i in 0..6 {
        for j in 0..6 {
            let u = s.f64(-1.0, 1.0);
            m[i][j] = (i == j) as u8 as f64 + match (i < 3, j < 3) {
                (true, true) | (false, false) => 1e-3 * u,
                (true, false) => dt * ((i + 3 == j) as u8 as f64 + 1e-2 * u),
                (false, true) => 1e-5 * u,
            };
        }
    }
    m
}

/// A filter fed a random history of predictions and measurements, good and bad.
fn filter(s: &mut Sim) -> R {
    let x0: S6 = kepler::orbit(s, (6600.0, 42_000.0), 0.5);
    let sp: V3 = std::array::from_fn(|_| 10f64.powf(s.f64(-3.0, 1.5)));
    let sv: V3 = std::array::from_fn(|_| 10f64.powf(s.f64(-6.0, -2.0)));
    let mut f = no_panic("from_stddevs", || OrbitEkf::from_stddevs(state(2_460_000.5, x0), sp, sv))?;
    let p = f.covariance().to_row_major();
    for i in 0..6 {
        for j in 0..6 {
            let sg = if i < 3 { sp[i] } else { sv[i - 3] };
            let want = if i == j { sg * sg } else { 0.0 };
            ensure!((p[i][j] - want).abs() <= 1e-14 * want, "initial", "P[{i}][{j}] {} expected {want}", p[i][j]);
        }
    }
    let mut floor = true;
    for t in 0..s.int(1, 25) {
        if s.chance(1, 3) {
            let phi = rand_phi(s);
            let q = if s.chance(1, 2) {
                let a: V3 = std::array::from_fn(|_| 10f64.powf(s.f64(-4.0, -1.0)));
                let b: V3 = std::array::from_fn(|_| 10f64.powf(s.f64(-7.0, -4.0)));
                let mut q = [[0.0; 6]; 6];
                for i in 0..3 {
                    q[i][i] = a[i] * a[i];
                    q[i + 3][i + 3] = b[i] * b[i];
                    let c = s.f64(-0.9, 0.9) * a[i] * b[i];
                    q[i][i + 3] = c;
                    q[i + 3][i] = c;
                }
                Some(q)
            } else {
                None
            };
            let p = f.covariance().to_row_major();
            let nx = kepler::orbit(s, (6600.0, 42_000.0), 0.5);
            let ns = state(2_460_000.5 + t as f64, nx);
            no_panic("predict", || f.predict(ns, phi, q.map(StateCovariance::from_row_major)))?;
            s.checked();
            s.advance(86_400_000_000_000);
            let mut want = mul(&mul(&phi, &p), &tr(&phi));
            let mag = |i: usize, j: usize| -> f64 { (0..6).map(|k| (0..6).map(|l| (phi[i][k] * p[k][l] * phi[j][l]).abs()).sum::<f64>()).sum() };
            let gp = f.covariance().to_row_major();
            for i in 0..6 {
                for j in 0..6 {
                    if let Some(q) = &q {
                        want[i][j] += q[i][j];
                    }
                    ensure!((gp[i][j] - want[i][j]).abs() <= 1e-12 * (mag(i, j) + want[i][j].abs()), "predict", "P[{i}][{j}] {} expected {} with noise {}", gp[i][j], want[i][j], q.is_some());
                    ensure!(gp[i][j] == gp[j][i], "asymmetric", "after a prediction P[{i}][{j}] {} P[{j}][{i}] {}", gp[i][j], gp[j][i]);
                }
            }
            ensure!(vec6(f.state()) == nx && f.state().epoch == ns.epoch, "predict", "mean {:?} expected {nx:?}", f.state());
            continue;
        }
        let mut h: S6 = [0.0; 6];
        match s.below(4) {
            0 => h[s.idx(6)] = 1.0,
            1 => {
                for v in h.iter_mut().take(3) {
                    *v = s.f64(-1.0, 1.0);
                }
            }
            2 => {
                for (i, v) in h.iter_mut().enumerate() {
                    *v = s.normal() * if i < 3 { 1.0 } else { 1e3 };
                }
            }
            _ => {
                for v in h.iter_mut() {
                    *v = s.normal() * 10f64.powi(s.int(-2, 3) as i32);
                }
            }
        }
        let mut r = 10f64.powf(s.f64(-8.0, 2.0));
        if s.chance(1, 25) {
            r = 0.0;
        }
        let mut innov = s.normal() * 10f64.powf(s.f64(-6.0, 3.0));
        match s.below(12) {
            0 => {
                let bad = *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                match s.below(3) {
                    0 => h[s.idx(6)] = bad,
                    1 => innov = bad,
                    _ => r = *s.pick(&[f64::NAN, f64::INFINITY, -1.0, -1e-300, f64::NEG_INFINITY]),
                }
            }
            1 => {
                // Finite, but at the edge of what can be represented.
                s.fault("extreme_measurement");
                floor = false;
                match s.below(3) {
                    0 => h[s.idx(6)] = *s.pick(&[1e300, -1e200, 1e160]),
                    1 => innov = *s.pick(&[1e308, -1e300]),
                    _ => h = [0.0; 6],
                }
            }
            _ => {}
        }
        s.h(&innov.to_bits().to_le_bytes());
        let sane = h.iter().all(|v| v.abs() < 1e6) && innov.abs() < 1e9;
        if !sane && h.iter().all(|v| v.is_finite()) && innov.is_finite() && r.is_finite() && r >= 0.0 {
            // Only safety: the filter is updated to something finite or left alone.
            let before = f.clone();
            let res = no_panic("update_scalar", || f.update_scalar(h, innov, r))?;
            s.checked();
            let ok = vec6(f.state()).iter().chain(f.covariance().to_row_major().iter().flatten()).all(|v| v.is_finite());
            ensure!(ok, "non-finite", "h {h:?} innovation {innov} r {r} on P {:?} left {f:?} ({res:?})", before.covariance().to_row_major());
            ensure!(res.is_ok() || same_bits(&f, &before), "changed-on-error", "refused measurement changed the filter");
            if res.is_ok() {
                // The rest of the history would only compare noise.
                return Ok(());
            }
            continue;
        }
        let keep = f.clone();
        step_update(s, &mut f, h, innov, r)?;
        // (A repeated perfect measurement has no information left to compare.)
        if r > 0.0 && s.chance(1, 6) {
            s.fault("measurement_duplicated");
            step_update(s, &mut f, h, innov, r)?;
        }
        if r == 0.0 {
            // A perfect measurement makes P singular: keep the history well posed.
            f = keep;
        }
    }
    if floor {
        let e = min_corr_eig(&f.covariance().to_row_major());
        ensure!(e > -1e-6, "indefinite", "smallest correlation eigenvalue {e} of {:?}", f.covariance().to_row_major());
    }
    Ok(())
}

/// Sequential processing in any order equals the batch solution.
fn seq_batch(s: &mut Sim) -> R {
    let sp: V3 = std::array::from_fn(|_| s.f64(0.1, 5.0));
    let sv: V3 = std::array::from_fn(|_| s.f64(0.1, 5.0));
    let x0: S6 = std::array::from_fn(|_| s.f64(-10.0, 10.0));
    let truth: S6 = std::array::from_fn(|i| x0[i] + s.normal() * if i < 3 { sp[i] } else { sv[i - 3] });
    let n = s.int(1, 20) as usize;
    let ms: Vec<(S6, f64, f64)> = (0..n)
        .map(|_| {
            let h: S6 = std::array::from_fn(|_| s.f64(-1.0, 1.0));
            let sg = s.f64(0.05, 2.0);
            let z: f64 = (0..6).map(|i| h[i] * truth[i]).sum::<f64>() + sg * s.normal();
            (h, z, sg)
        })
        .collect();
    let mut ne = NormalEquations::new(6);
    for i in 0..6 {
        let sg = if i < 3 { sp[i] } else { sv[i - 3] };
        if let Err(e) = ne.add_row(&[(i, 1.0)], 0.0, sg) {
            viol!("refused", "prior row: {e}");
        }
    }
    let mut order: Vec<usize> = (0..n).collect();
    s.shuffle(&mut order);
    for &k in &order {
        let (h, z, sg) = ms[k];
        let row: Vec<(usize, f64)> = (0..6).map(|i| (i, h[i])).collect();
        let res = z - (0..6).map(|i| h[i] * x0[i]).sum::<f64>();
        if let Err(e) = no_panic("add_row", || ne.add_row(&row, res, sg))? {
            viol!("refused", "row: {e}");
        }
    }
    let b = match no_panic("solve", || ne.clone().solve())? {
        Ok(b) => b,
        Err(e) => viol!("refused", "well-posed batch: {e}"),
    };
    let Some(bc) = b.to_state_covariance() else { viol!("refused", "no state covariance for six parameters") };
    let bc = bc.to_row_major();
    let mut f = OrbitEkf::from_stddevs(state(2_460_000.5, x0), sp, sv);
    s.shuffle(&mut order);
    for &k in &order {
        let (h, z, sg) = ms[k];
        let x = vec6(f.state());
        let innov = z - (0..6).map(|i| h[i] * x[i]).sum::<f64>();
        if let Err(e) = no_panic("update_scalar", || f.update_scalar(h, innov, sg * sg))? {
            viol!("refused", "{e}");
        }
    }
    s.checked();
    s.h(format!("{order:?}").as_bytes());
    let (x, p) = (vec6(f.state()), f.covariance().to_row_major());
    for i in 0..6 {
        ensure!((x[i] - x0[i] - b.update[i]).abs() <= 1e-7, "batch", "component {i}: sequential {} batch {}", x[i] - x0[i], b.update[i]);
        for j in 0..6 {
            ensure!((p[i][j] - b.covariance[i][j]).abs() <= 1e-8, "batch", "P[{i}][{j}]: sequential {} batch {}", p[i][j], b.covariance[i][j]);
            ensure!((bc[i][j] - b.covariance[i][j]).abs() <= 1e-9, "batch", "state covariance [{i}][{j}] {} of {}", bc[i][j], b.covariance[i][j]);
        }
    }
    ensure!(b.n_obs == n + 6 && b.n_params == 6, "batch", "{} rows counted of {}", b.n_obs, n + 6);
    Ok(())
}

/// A tracking network follows a satellite through losses, outages, duplicates,
/// late and garbled measurements; afterwards it must lock on again.
fn tracking(s: &mut Sim) -> R {
    let x0 = kepler::orbit(s, (6800.0, 9000.0), 0.1);
    let jd0 = 2_460_000.5;
    let (sp, sv) = (1.0, 1e-3);
    let start: S6 = std::array::from_fn(|i| x0[i] + s.normal() * if i < 3 { sp } else { sv });
    let mut f = OrbitEkf::from_stddevs(state(jd0, start), [sp; 3], [sv; 3]);
    let stations: Vec<V3> = (0..4)
        .map(|_| {
            let v = [s.normal(), s.normal(), s.normal()];
            scale(v, 6378.0 / norm(v).max(0.1))
        })
        .collect();
    let step = s.f64(20.0, 60.0);
    let vp = VariationalPropagator { step: Second::new(step) };
    let tb = TwoBody::new(GravitationalParameter::new(kepler::MU));
    let ctx = DynamicsContext::empty();
    let (faulty, calm) = (s.int(0, 20), 40);
    let mut outage = 0;
    let mut late: Vec<(i64, i64)> = vec![];
    let mut late_seen = 0;
    let sig = 0.02;
    for k in 1..=(faulty + calm) {
        let arc = match no_panic("VariationalPropagator", || vp.propagate(&tb, *f.state(), 1, &ctx))? {
            Ok(a) => a,
            Err(e) => viol!("propagate", "two-body step failed: {e}"),
        };
        let (Some(ns), Some(phi)) = (arc.final_state(), arc.final_stm()) else { viol!("propagate", "empty arc") };
        let phi = *phi.as_array();
        let mut q = [[0.0; 6]; 6];
        for i in 0..6 {
            q[i][i] = if i < 3 { 1e-12 } else { 1e-18 };
        }
        no_panic("predict", || f.predict(*ns, phi, Some(StateCovariance::from_row_major(q))))?;
        s.advance((step * 1e9) as u64);
        let truth = kepler::kepler(x0, step * k as f64, kepler::MU);
        let in_faults = k <= faulty;
        if in_faults && outage == 0 && s.chance(1, 8) {
            s.fault("network_outage");
            outage = s.int(2, 8);
        }
        if outage > 0 {
            outage -= 1;
            if in_faults {
                continue;
            }
        }
        for (si, st) in stations.iter().enumerate() {
            let los = sub([truth[0], truth[1], truth[2]], *st);
            let mut z = norm(los) + sig * s.normal();
            let mut copies = 1;
            if in_faults {
                match s.below(8) {
                    0 => {
                        s.fault("measurement_lost");
                        continue;
                    }
                    1 => {
                        s.fault("measurement_duplicated");
                        copies = 2;
                    }
                    2 => {
                        s.fault("measurement_garbled");
                        z = *s.pick(&[f64::NAN, 0.0, 1e9, -7000.0, f64::INFINITY]);
                    }
                    3 => {
                        s.fault("measurement_late");
                        late.push((k + s.int(1, 4), k));
                        continue;
                    }
                    _ => {}
                }
            }
            let mut seen = false;
            for _ in 0..copies {
                // The tracker deduplicates and gates on the normalised innovation.
                if seen {
                    continue;
                }
                seen = true;
                let x = vec6(f.state());
                let d = sub([x[0], x[1], x[2]], *st);
                let rho = norm(d);
                let h = [d[0] / rho, d[1] / rho, d[2] / rho, 0.0, 0.0, 0.0];
                let mut g = f.clone();
                s.h(&[si as u8]);
                match no_panic("update_scalar", || g.update_scalar(h, z - rho, sig * sig))? {
                    Ok(rec) if rec.nis < 50.0 => f = g,
                    Ok(_) => {
                        s.probe("gated_out");
                    }
                    Err(_) => ensure!(same_bits(&f, &g) && !z.is_finite(), "refused", "measurement {z} refused or changed the filter"),
                }
                s.checked();
            }
        }
        late.retain(|l| {
            if l.0 <= k {
                late_seen += 1;
                false
            } else {
                true
            }
        });
    }
    let _ = late_seen;
    let truth = kepler::kepler(x0, step * (faulty + calm) as f64, kepler::MU);
    let x = vec6(f.state());
    let p = f.covariance().to_row_major();
    let d = sub([x[0], x[1], x[2]], [truth[0], truth[1], truth[2]]);
    let sd: f64 = (0..3).map(|i| p[i][i]).sum::<f64>().sqrt();
    // Progress: once the network is healthy the filter regains lock, and knows it.
    let rep = geometry(&stations, truth);
    s.state(rep as u64);
    if rep {
        ensure!(norm(d) <= 0.5 + 8.0 * sd, "no-lock", "{} km off after {calm} healthy rounds, claimed sigma {sd} km", norm(d));
    }
    ensure!(norm(d) <= 10.0 * sd + 1e-3, "inconsistent", "{} km off with claimed sigma {sd} km", norm(d));
    let e = min_corr_eig(&p);
    ensure!(e > -1e-6, "indefinite", "smallest correlation eigenvalue {e}");
    Ok(())
}

/// Station geometry good enough to fix all three axes.
fn geometry(st: &[V3], x: S6) -> bool {
    let u: Vec<V3> = st.iter().map(|s| { let d = sub([x[0], x[1], x[2]], *s); scale(d, 1.0 / norm(d)) }).collect();
    let mut best = 0.0f64;
    for a in 0..u.len() {
        for b in a + 1..u.len() {
            for c in b + 1..u.len() {
                best = best.max(dot(u[a], kepler::cross(u[b], u[c])).abs());
            }
        }
    }
    best > 0.05
}

/// Process noise: composition over intervals, positive semidefiniteness, scheduling.
fn noise(s: &mut Sim) -> R {
    let psd: V3 = std::array::from_fn(|_| if s.chance(1, 6) { 0.0 } else { 10f64.powf(s.f64(-14.0, -4.0)) });
    let gm = |s: &mut Sim| GaussMarkovParams { sigma: if s.chance(1, 6) { 0.0 } else { 10f64.powf(s.f64(-3.0, 1.0)) }, tau: Second::new(10f64.powf(s.f64(0.0, 5.0))) };
    let (d, r) = (if s.chance(1, 2) { Some(gm(s)) } else { None }, if s.chance(1, 2) { Some(gm(s)) } else { None });
    let emp = if s.chance(1, 2) { Some(std::array::from_fn(|_| KmPerSecondsSquared::new(10f64.powf(s.f64(-12.0, -6.0))))) } else { None };
    let m = ProcessNoiseModel { position_velocity: WhiteAccelPsd(psd), drag_scale: d, srp_scale: r, empirical_white: emp };
    let (a, b) = (10f64.powf(s.f64(-2.0, 4.0)), if s.chance(1, 8) { 0.0 } else { 10f64.powf(s.f64(-2.0, 4.0)) });
    let q = |t: f64| no_panic("q_matrix", || m.q_matrix(Second::new(t)));
    let (Ok(qa), Ok(qb), Ok(qc)) = (q(a)?, q(b)?, q(a + b)?) else { viol!("refused", "{m:?} over {a} and {b}") };
    s.checked();
    s.h(format!("{m:?}{a}{b}").as_bytes());
    let n = 6 + d.is_some() as usize + r.is_some() as usize + 3 * emp.is_some() as usize;
    ensure!(m.dim() == n && qa.len() == n && qa.iter().all(|x| x.len() == n), "dimension", "{} for {m:?}", m.dim());
    // Noise over a then b equals noise over a + b.
    let mut phi = vec![vec![0.0; n]; n];
    for i in 0..n {
        phi[i][i] = 1.0;
        if i < 3 {
            phi[i][i + 3] = b;
        }
    }
    let mut k = 6;
    for g in [d, r].into_iter().flatten() {
        phi[k][k] = (-b / g.tau.value()).exp();
        k += 1;
    }
    for i in 0..n {
        for j in 0..n {
            let mut v = qb[i][j];
            let mut mag = v.abs();
            for x in 0..n {
                for y in 0..n {
                    let t = phi[i][x] * qa[x][y] * phi[j][y];
                    v += t;
                    mag += t.abs();
                }
            }
            // 1 - exp(-x) cancels for short intervals.
            let slack = if i == j && i >= 6 { 1e-15 * 4.0 * d.map_or(0.0, |g| g.sigma.powi(2)).max(r.map_or(0.0, |g| g.sigma.powi(2))) } else { 0.0 };
            ensure!((qc[i][j] - v).abs() <= 1e-12 * mag + slack, "composition", "Q[{i}][{j}] over {a}+{b}: {} in one go, {v} in two; {m:?}", qc[i][j]);
            ensure!(qa[i][j] == qa[j][i], "asymmetric", "Q[{i}][{j}]");
        }
    }
    match no_panic("is_psd", || m.is_psd(Second::new(a)))? {
        Ok(true) => {}
        x => viol!("indefinite", "{m:?} over {a}: {x:?}"),
    }
    // Invalid intervals and parameters are refused.
    s.fault("invalid_parameter");
    let bad = *s.pick(&[f64::NAN, -1.0, f64::INFINITY, f64::NEG_INFINITY]);
    ensure!(no_panic("q_matrix", || m.q_matrix(Second::new(bad)))?.is_err(), "invalid-accepted", "interval {bad}");
    let mut w = m;
    match s.below(4) {
        0 => w.position_velocity.0[s.idx(3)] = bad,
        1 => w.drag_scale = Some(GaussMarkovParams { sigma: bad, tau: Second::new(10.0) }),
        2 => w.srp_scale = Some(GaussMarkovParams { sigma: 1.0, tau: Second::new(if s.chance(1, 4) { 0.0 } else { bad }) }),
        _ => {
            let mut e = [KmPerSecondsSquared::new(1e-9); 3];
            e[s.idx(3)] = KmPerSecondsSquared::new(bad);
            w.empirical_white = Some(e);
        }
    }
    ensure!(no_panic("q_matrix", || w.q_matrix(Second::new(a)))?.is_err(), "invalid-accepted", "{w:?}");
    // Piecewise schedule.
    let segs: Vec<PiecewiseSegment> = (0..s.below(5)).map(|i| PiecewiseSegment { duration: Second::new(s.int(0, 20) as f64), sigma_pos_m: i as f64 + 1.0, sigma_vel_mps: -(i as f64) }).collect();
    let pn = ProcessNoise::PiecewiseConstant { intervals: segs.clone() };
    for _ in 0..6 {
        let t = s.int(-2, 100) as f64 + *s.pick(&[0.0, 0.5]);
        let got = no_panic("sigma_at", || pn.sigma_at(Second::new(t)))?;
        let mut edge = 0.0;
        let mut want = segs.last().map_or((0.0, 0.0), |x| (x.sigma_pos_m, x.sigma_vel_mps));
        for x in &segs {
            edge += x.duration.value();
            if t < edge {
                want = (x.sigma_pos_m, x.sigma_vel_mps);
                break;
            }
        }
        s.checked();
        ensure!(got == want, "schedule", "{got:?} at {t} expected {want:?} in {segs:?}");
    }
    Ok(())
}

pub static C16: Prop = Prop {
    id: "C16",
    scenarios: &[("filter", 4, filter), ("seq_batch", 2, seq_batch), ("tracking", 1, tracking), ("noise", 2, noise)],
    runs_quick: 120_000,
    runs_thorough: 3_000_000,
    rule: "filter: a history of up to 25 predictions and measurements (duplicated, invalid, extreme) where each step is compared with a reference step from the same state; seq_batch: the same measurements processed one by one in one order and as a batch in another give the same estimate and covariance; tracking: a satellite on an analytic orbit tracked through losses, duplicates, outages, late and garbled ranges, with lock required again after the faults stop; noise: process noise over random intervals and invalid parameters. Distinct = distinct hash of measurements, orders and parameters.",
    real: &["pod::estimation::OrbitEkf", "pod::process::noise", "pod::propagation::VariationalPropagator", "pod::estimation::NormalEquations"],
    stub: &["satellite (analytic two-body motion)", "stations, network, tracker with deduplication and gating"],
    assumptions: &["covariances with sigmas between 1e-7 and 1e3 in their units; single-precision-like conditioning is not asked of the filter"],
};

// --- batch ---------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Row {
    p: Vec<(usize, f64)>,
    res: f64,
    sg: f64,
}

fn row_ok(r: &Row, n: usize) -> bool {
    r.sg.is_finite() && r.sg > 0.0 && r.res.is_finite() && r.p.iter().all(|x| x.0 < n && x.1.is_finite())
}

fn same_ne(a: &NormalEquations, b: &NormalEquations) -> bool {
    let n = a.n_params();
    a.chi2.to_bits() == b.chi2.to_bits()
        && a.n_obs == b.n_obs
        && n == b.n_params()
        && (0..n).all(|i| a.b[(i, 0)].to_bits() == b.b[(i, 0)].to_bits() && (0..n).all(|j| a.n_matrix[(i, j)].to_bits() == b.n_matrix[(i, j)].to_bits()))
}

/// Householder-free reference: modified Gram-Schmidt on the weighted rows.
fn ref_solve(rows: &[&Row], n: usize) -> Option<(Vec<f64>, Vec<Vec<f64>>)> {
    let m = rows.len();
    let mut a = vec![vec![0.0; n]; m];
    let mut y = vec![0.0; m];
    for (k, r) in rows.iter().enumerate() {
        for &(i, v) in &r.p {
            a[k][i] += v / r.sg;
        }
        y[k] = r.res / r.sg;
    }
    let mut rr = vec![vec![0.0; n]; n];
    let mut q = a.clone();
    let norm0: Vec<f64> = (0..n).map(|j| (0..m).map(|k| a[k][j] * a[k][j]).sum::<f64>().sqrt()).collect();
    for j in 0..n {
        for _pass in 0..2 {
            for i in 0..j {
                let d: f64 = (0..m).map(|k| q[k][i] * q[k][j]).sum();
                rr[i][j] += d;
                for k in 0..m {
                    q[k][j] -= d * q[k][i];
                }
            }
        }
        let nn = (0..m).map(|k| q[k][j] * q[k][j]).sum::<f64>().sqrt();
        if nn <= 1e-4 * norm0[j] || nn == 0.0 {
            return None;
        }
        rr[j][j] = nn;
        for k in 0..m {
            q[k][j] /= nn;
        }
    }
    let back = |c: &[f64]| {
        let mut x = c.to_vec();
        for i in (0..n).rev() {
            for j in i + 1..n {
                x[i] -= rr[i][j] * x[j];
            }
            x[i] /= rr[i][i];
        }
        x
    };
    let qty: Vec<f64> = (0..n).map(|j| (0..m).map(|k| q[k][j] * y[k]).sum()).collect();
    let x = back(&qty);
    // R^-1, column by column.
    let ri: Vec<Vec<f64>> = (0..n).map(|j| back(&(0..n).map(|i| (i == j) as u8 as f64).collect::<Vec<_>>())).collect();
    let mut c = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..n {
            c[i][j] = (0..n).map(|k| ri[k][i] * ri[k][j]).sum();
        }
    }
    Some((x, c))
}

/// Rows stream in from a network in any order, some of them unusable.
fn assemble(s: &mut Sim) -> R {
    let n = s.int(1, 8) as usize;
    let m = s.int(0, 25) as usize;
    let truth: Vec<f64> = (0..n).map(|_| s.normal() * 10.0).collect();
    let mut rows: Vec<Row> = (0..m)
        .map(|_| {
            let k = s.int(0, n as i64 + 1) as usize;
            let p: Vec<(usize, f64)> = if s.chance(1, 3) { (0..n).map(|i| (i, s.normal())).collect() } else { (0..k).map(|_| (s.idx(n), s.normal())).collect() };
            let sg = 10f64.powf(s.f64(-1.0, 1.0));
            let res = p.iter().map(|x| x.1 * truth[x.0]).sum::<f64>() + sg * s.normal();
            Row { p, res, sg }
        })
        .collect();
    for r in rows.iter_mut() {
        if !s.chance(1, 5) {
            continue;
        }
        s.fault("unusable_row");
        let bad = *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        match s.below(4) {
            0 => r.sg = *s.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY]),
            1 => r.res = bad,
            2 => {
                let at = s.idx(r.p.len() + 1);
                r.p.insert(at, (*s.pick(&[n, n + 1, usize::MAX]), 1.0));
            }
            _ => {
                let at = s.idx(r.p.len() + 1);
                let i = s.idx(n);
                r.p.insert(at, (i, bad));
            }
        }
    }
    let mut sols = vec![];
    for _ in 0..2 {
        s.shuffle(&mut rows);
        let mut ne = NormalEquations::new(n);
        let mut good = 0;
        let mut chi2 = 0.0;
        for r in &rows {
            let before = ne.clone();
            let res = no_panic("add_row", || ne.add_row(&r.p, r.res, r.sg))?;
            s.checked();
            ensure!(res.is_ok() == row_ok(r, n), "row-verdict", "{r:?} for {n} parameters: {res:?}");
            if let Err(e) = res {
                ensure!(same_ne(&ne, &before), "changed-on-error", "refused row {r:?} ({e}) changed the normal equations");
                if r.sg.is_finite() && r.sg > 0.0 && r.res.is_finite() && r.p.iter().all(|x| x.1.is_finite()) {
                    ensure!(matches!(e, WlsSolverError::InvalidIndex { n_params, .. } if n_params == n), "row-verdict", "{r:?}: {e}");
                }
            } else {
                good += 1;
                chi2 += (r.res / r.sg).powi(2);
            }
        }
        ensure!(ne.n_obs == good && (ne.chi2 - chi2).abs() <= 1e-12 * chi2, "bookkeeping", "{} rows chi2 {} expected {good} rows chi2 {chi2}", ne.n_obs, ne.chi2);
        let got = no_panic("solve", || ne.solve())?;
        s.checked();
        if let Ok(g) = &got {
            ensure!(g.update.iter().chain(g.covariance.iter().flatten()).all(|v| v.is_finite()), "non-finite", "solution {g:?} of {rows:?}");
            let dof = if good > n { good - n } else { 1 };
            ensure!(g.n_obs == good && g.n_params == n && (g.reduced_chi2() - chi2 / dof as f64).abs() <= 1e-11 * chi2, "bookkeeping", "{g:?}");
            ensure!(g.to_state_covariance().is_some() == (n == 6), "bookkeeping", "state covariance for {n} parameters");
        }
        sols.push(got);
    }
    let ok: Vec<&Row> = rows.iter().filter(|r| row_ok(r, n)).collect();
    s.h(format!("{rows:?}").as_bytes());
    match ref_solve(&ok, n) {
        Some((x, c)) => {
            // Error of normal equations: machine precision times the variance inflation.
            let info = |i: usize| -> f64 { ok.iter().map(|r| (r.p.iter().filter(|e| e.0 == i).map(|e| e.1.abs()).sum::<f64>() / r.sg).powi(2)).sum() };
            let tol = 1e-13 * (0..n).map(|i| c[i][i] * info(i)).fold(1.0, f64::max) * n as f64 + 1e-9;
            if tol > 1e-4 {
                s.probe("ill_conditioned");
                return Ok(());
            }
            for g in &sols {
                let g = match g {
                    Ok(g) => g,
                    Err(e) => viol!("refused", "well-posed problem refused: {e}: {rows:?}"),
                };
                for i in 0..n {
                    let sc = c[i][i].sqrt();
                    ensure!((g.update[i] - x[i]).abs() <= tol * (sc + (0..n).map(|k| c[i][i].sqrt() * (c[k][k].sqrt() + x[k].abs()) / c[k][k].sqrt()).fold(0.0, f64::max)), "solution", "parameter {i}: {} expected {} +- {sc}", g.update[i], x[i]);
                    for j in 0..n {
                        ensure!((g.covariance[i][j] - c[i][j]).abs() <= 10.0 * tol * sc * c[j][j].sqrt(), "solution", "covariance [{i}][{j}] {} expected {}", g.covariance[i][j], c[i][j]);
                    }
                }
            }
        }
        None => {
            s.fault("ill_posed_problem");
            if ok.len() < n || (0..n).any(|i| ok.iter().all(|r| r.p.iter().all(|x| x.0 != i))) {
                // Structurally rank deficient: some parameter is never observed or too few rows.
                let unobserved = (0..n).any(|i| ok.iter().all(|r| r.p.iter().filter(|x| x.0 == i).map(|x| x.1).sum::<f64>() == 0.0));
                for g in &sols {
                    ensure!(!unobserved || matches!(g, Err(WlsSolverError::NotPositiveDefinite(_))), "singular-accepted", "unobserved parameter, yet {g:?}");
                }
            }
        }
    }
    Ok(())
}

/// Extreme but valid rows: the answer is finite or an error.
fn extreme(s: &mut Sim) -> R {
    let n = s.int(1, 4) as usize;
    let mut ne = NormalEquations::new(n);
    for _ in 0..s.int(1, 8) {
        let sg = 10f64.powi(s.int(-320, 308) as i32).max(1e-320);
        let p: Vec<(usize, f64)> = (0..n).map(|i| (i, s.normal() * 10f64.powi(s.int(-200, 200) as i32))).collect();
        s.fault("extreme_row");
        let before = ne.clone();
        let r = no_panic("add_row", || ne.add_row(&p, s.normal() * 10f64.powi(s.int(-300, 300) as i32), sg))?;
        s.checked();
        if r.is_err() {
            ensure!(same_ne(&ne, &before), "changed-on-error", "refused row changed the normal equations");
        }
    }
    if let Ok(g) = no_panic("solve", || ne.clone().solve())? {
        ensure!(g.update.iter().chain(g.covariance.iter().flatten()).all(|v| v.is_finite()), "non-finite", "solution {g:?} of {ne:?}");
    }
    Ok(())
}

/// Gauss-Newton on a small nonlinear problem with an assembler that may fail.
fn newton(s: &mut Sim) -> R {
    // Ranges from known beacons to an unknown point, plus an optional common bias.
    let bias = s.chance(1, 2);
    let n = 3 + bias as usize;
    let truth: Vec<f64> = (0..n).map(|_| s.f64(-2.0, 2.0)).collect();
    let beacons: Vec<V3> = (0..s.int(6, 12)).map(|_| { let v = [s.normal(), s.normal(), s.normal()]; scale(v, 20.0 / norm(v).max(0.3)) }).collect();
    let sg = 10f64.powf(s.f64(-4.0, -1.0));
    let z: Vec<f64> = beacons.iter().map(|b| norm(sub([truth[0], truth[1], truth[2]], *b)) + if bias { truth[3] } else { 0.0 } + sg * s.normal()).collect();
    let mut order: Vec<usize> = (0..z.len()).collect();
    s.shuffle(&mut order);
    let init: Vec<f64> = truth.iter().map(|v| v + s.f64(-1.0, 1.0)).collect();
    let max_iter = if s.chance(1, 4) { s.int(0, 3) } else { s.int(8, 30) } as usize;
    let opts = NonlinearOptions { max_iter, tol_rel: *s.pick(&[1e-9, 1e-6, 1e-3, 0.0]), tol_chi2_rel: *s.pick(&[1e-6, 1e-3, 1e-1]) };
    let fail_at = if s.chance(1, 4) { Some(s.int(0, 6) as usize) } else { None };
    let wrong_at = if s.chance(1, 12) { Some(s.int(0, 3) as usize) } else { None };
    let mut calls: Vec<Vec<f64>> = vec![];
    let mut made: Vec<NormalEquations> = vec![];
    let mut fired = 0;
    let build = |p: &[f64]| -> NormalEquations {
        let mut ne = NormalEquations::new(n);
        for &k in &order {
            let d = sub([p[0], p[1], p[2]], beacons[k]);
            let r = norm(d);
            let mut row = vec![(0, d[0] / r), (1, d[1] / r), (2, d[2] / r)];
            if bias {
                row.push((3, 1.0));
            }
            ne.add_row(&row, z[k] - r - if bias { p[3] } else { 0.0 }, sg).expect("finite row");
        }
        ne
    };
    let res = no_panic("gauss_newton", || {
        gauss_newton(init.clone(), opts, |p| {
            let k = calls.len();
            calls.push(p.to_vec());
            if fail_at == Some(k) {
                fired = 1;
                return Err(NonlinearError::Solver(WlsSolverError::other("simulated assembler failure")));
            }
            let ne = if wrong_at == Some(k) {
                fired = 2;
                NormalEquations::new(n + 1)
            } else {
                build(p)
            };
            made.push(ne.clone());
            Ok(ne)
        })
    })?;
    s.checked();
    s.h(format!("{z:?}{init:?}{opts:?}").as_bytes());
    s.state(calls.len() as u64);
    if fired == 1 {
        s.fault("assembler_failure");
        ensure!(calls.len() == fail_at.unwrap() + 1, "called-after-failure", "{} calls, failure at {fail_at:?}", calls.len());
        ensure!(matches!(&res, Err(NonlinearError::Solver(e)) if e.to_string().contains("simulated assembler failure")), "failure-lost", "{res:?}");
    }
    if fired == 2 {
        s.fault("wrong_dimension");
        ensure!(res.is_err(), "failure-lost", "assembler of another dimension accepted");
        return Ok(());
    }
    ensure!(calls.len() <= max_iter, "iterations", "{} calls with max_iter {max_iter}", calls.len());
    if max_iter == 0 {
        ensure!(res.is_err(), "iterations", "max_iter 0 accepted");
        return Ok(());
    }
    // Replay: every call is made at the current estimate, and the stopping rule is applied exactly.
    let mut p = init.clone();
    let mut last = f64::INFINITY;
    for (k, ne) in made.iter().enumerate() {
        ensure!(calls[k].iter().zip(&p).all(|(a, b)| a.to_bits() == b.to_bits()), "linearisation-point", "call {k} at {:?} expected {p:?}", calls[k]);
        let sol = match ne.clone().solve() {
            Ok(x) => x,
            Err(_) => {
                ensure!(res.is_err(), "failure-lost", "singular iteration accepted");
                return Ok(());
            }
        };
        let mut rel = 0.0f64;
        for i in 0..n {
            rel = rel.max(sol.update[i].abs() / p[i].abs().max(1.0));
            p[i] += sol.update[i];
        }
        let c = sol.reduced_chi2();
        let crel = if last.is_finite() && last > 0.0 { (c - last).abs() / last } else { f64::INFINITY };
        last = c;
        let stop = rel < opts.tol_rel && crel < opts.tol_chi2_rel;
        let final_call = k + 1 == made.len();
        if stop {
            ensure!(final_call && fired == 0, "stopping", "converged at iteration {} but {} were run", k + 1, calls.len());
            match &res {
                Ok(r) => {
                    ensure!(r.iterations == k + 1, "iterations", "{} reported, {} run", r.iterations, k + 1);
                    ensure!(r.parameters.iter().zip(&p).all(|(a, b)| a.to_bits() == b.to_bits()), "estimate", "{:?} expected {p:?}", r.parameters);
                    ensure!(r.last.chi2.to_bits() == sol.chi2.to_bits() && r.last.n_obs == sol.n_obs, "estimate", "report carries another iteration's statistics");
                    // A minimum: the gradient of the cost vanishes to the tolerance asked for.
                    if opts.tol_rel <= 1e-6 {
                        let again = build(&p).solve();
                        if let Ok(a) = again {
                            for i in 0..n {
                                ensure!(a.update[i].abs() <= 1e-4 * (1.0 + p[i].abs()), "estimate", "not a stationary point: step {:?}", a.update);
                            }
                        }
                        if sg < 1e-2 {
                            for i in 0..n {
                                ensure!((p[i] - truth[i]).abs() <= 12.0 * a_sigma(&build(&p), i) + 1e-6, "estimate", "parameter {i} {} truth {}", p[i], truth[i]);
                            }
                        }
                    }
                }
                Err(e) => viol!("stopping", "tolerances met at iteration {} but {e}", k + 1),
            }
        } else if final_call && fired == 0 {
            ensure!(k + 1 == max_iter && matches!(res, Err(NonlinearError::DidNotConverge(m)) if m == max_iter), "stopping", "tolerances not met after {} of {max_iter} iterations: {res:?}", k + 1);
        }
    }
    // Invalid options and starting points are refused before anything runs.
    s.fault("invalid_options");
    let bad = *s.pick(&[f64::NAN, f64::INFINITY, -1.0]);
    let (mut o, mut i0) = (NonlinearOptions::default(), init);
    match s.below(3) {
        0 => o.tol_rel = bad,
        1 => o.tol_chi2_rel = bad,
        _ => i0[s.idx(n)] = if bad < 0.0 { f64::NAN } else { bad },
    }
    let mut ran = false;
    let r = no_panic("gauss_newton", || gauss_newton(i0, o, |p| { ran = true; Ok(build(p)) }))?;
    ensure!(r.is_err() && !ran, "invalid-accepted", "options {o:?}");
    Ok(())
}

fn a_sigma(ne: &NormalEquations, i: usize) -> f64 {
    ne.clone().solve().map_or(f64::INFINITY, |r| r.covariance[i][i].sqrt())
}

pub static C17: Prop = Prop {
    id: "C17",
    scenarios: &[("assemble", 4, assemble), ("extreme", 1, extreme), ("newton", 3, newton)],
    runs_quick: 600_000,
    runs_thorough: 4_000_000,
    rule: "assemble: up to 25 sparse rows (repeated indices, unusable ones in between) arrive in two orders; each refusal must leave the accumulator bit for bit, the solution must equal an orthogonalisation-based reference; extreme: valid rows across the whole floating-point range; newton: multilateration with an assembler that fails or changes dimension at a random call, replayed against the documented stopping rule. Distinct = distinct hash of rows and options.",
    real: &["pod::estimation::{NormalEquations, WlsResult, gauss_newton}"],
    stub: &["measurement network", "assembler with injected failures"],
    assumptions: &["reference comparison for problems whose columns keep at least 1e-4 of their norm after orthogonalisation"],
};
