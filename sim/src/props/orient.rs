//! C25: Earth orientation records and Earth rotation.

use crate::core::{no_panic, Sim, R};
use crate::io::{ReadPlan, SimRead};
use crate::{ensure, viol, Prop};
use siderust::astro::earth_rotation as er;
use siderust::astro::eop::{EopError, EopProvider, EopValues, IersEop, NullEop};
use siderust::astro::era::{complementary_terms_iau2000, earth_rotation_angle, earth_rotation_angle_parts};
use siderust::astro::polar_motion::{polar_motion_matrix_from_eop, tio_locator_sp};
use siderust::astro::sidereal::{gast_iau2006, gmst_iau2006};
use siderust::coordinates::frames::{CIRS, ITRF, TIRS};
use siderust::coordinates::transform::context::AstroContext;
use siderust::coordinates::transform::providers::frame_rotation_with;
use siderust::ephemeris::Vsop87Ephemeris;
use siderust::formats::iers::eop::{interpolate, read_eop_c04, EopRecord};
use siderust::qtty::{Arcseconds, Days, MilliArcseconds, Radians, Seconds};
use siderust::time::JulianDate;
use std::cell::RefCell;
use std::f64::consts::{PI, TAU};
use tempoch::{ModifiedJulianDate, UTC};

const AS: f64 = PI / 648_000.0;
const MJD0: f64 = 2_400_000.5;

/// xp, yp, UT1-UTC, LOD, dX, dY in the units of the file.
type Row = (i64, [f64; 6]);

fn wrap(x: f64) -> f64 {
    (x + PI).rem_euclid(TAU) - PI
}

fn civil(days: i64) -> (i64, i64, i64) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1_460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + i64::from(m <= 2), m, doy - (153 * mp + 2) / 5 + 1)
}

/// A rotating Earth as the service would have measured it.
struct Earth {
    rows: Vec<Row>,
    /// First day after a leap second, and its size.
    leaps: Vec<(i64, f64)>,
}

fn earth(s: &mut Sim, n: i64) -> Earth {
    let start = s.int(37_665, 61_500);
    let mut dut1 = s.f64(-0.4, 0.4);
    let rate = s.f64(-0.003, 0.003);
    let (mut px, mut py) = (s.f64(-0.5, 0.5), s.f64(-0.5, 0.5));
    let mut e = Earth { rows: vec![], leaps: vec![] };
    for k in 0..n {
        if k > 0 {
            dut1 += rate + s.f64(-5e-4, 5e-4);
            px += s.f64(-3e-3, 3e-3);
            py += s.f64(-3e-3, 3e-3);
            let jump = if dut1 < -0.3 && s.chance(1, 4) {
                1.0
            } else if dut1 > 0.3 && s.chance(1, 4) {
                -1.0
            } else {
                0.0
            };
            if jump != 0.0 {
                s.probe("leap second");
                dut1 += jump;
                e.leaps.push((start + k, jump));
            }
        }
        let q = |x: f64, d: i32| (x * 10f64.powi(d)).round() / 10f64.powi(d);
        e.rows.push((start + k, [q(px, 6), q(py, 6), q(dut1, 7), q(s.f64(-0.004, 0.004), 7), q(s.f64(-1e-3, 1e-3), 6), q(s.f64(-1e-3, 1e-3), 6)]));
    }
    e
}

fn row_text(r: &Row) -> String {
    let (y, m, d) = civil(r.0 - 40_587);
    let v = r.1;
    format!("{y:4}{m:4}{d:4}{:7}{:11.6}{:11.6}{:12.7}{:12.7}{:11.6}{:11.6}   0.000048   0.000049  0.0000050  0.0000123    0.000010    0.000010\n", r.0, v[0], v[1], v[2], v[3], v[4], v[5])
}

/// The daily file with rows lost, garbled and interleaved with prose; the rows
/// that survive.
fn file(s: &mut Sim, e: &Earth) -> (String, Vec<Row>) {
    let mut t = String::new();
    let mut kept = vec![];
    let lossy = s.chance(1, 2);
    for r in &e.rows {
        if s.chance(1, 12) {
            t += ["# remark\n", "\n", "   \n", "  Date      MJD      x          y        UT1-UTC       LOD\n"][s.below(4) as usize];
        }
        match if lossy { s.below(12) } else { 11 } {
            0 => s.fault("row lost"),
            1 => {
                s.fault("row garbled");
                let text = row_text(r);
                let w: Vec<&str> = text.split_whitespace().collect();
                let mut w: Vec<String> = w.iter().map(|x| x.to_string()).collect();
                let at = s.idx(10);
                w[at] = ["x", "--", "nan", "1e999", "inf", "0.1.2"][s.idx(6)].into();
                t += &w.join(" ");
                t.push('\n');
            }
            2 => {
                s.fault("row torn");
                let text = row_text(r);
                let w: Vec<&str> = text.split_whitespace().collect();
                t += &w[..s.idx(10)].join(" ");
                t.push('\n');
            }
            _ => {
                t += &row_text(r);
                kept.push(*r);
                if s.chance(1, 60) {
                    s.fault("row sent twice");
                    t += &row_text(r);
                    kept.push(*r);
                }
            }
        }
    }
    (t, kept)
}

fn values(r: &EopRecord) -> [f64; 6] {
    let e = &r.eop;
    [e.xp.value(), e.yp.value(), e.dut1.value(), e.lod.value(), e.dx.value() / 1e3, e.dy.value() / 1e3]
}

fn at(mjd: f64) -> ModifiedJulianDate<UTC> {
    ModifiedJulianDate::<UTC>::try_new(Days::new(mjd)).expect("a date")
}

/// What the surviving rows say at `t`; None where a leap second hides in a gap.
fn series(rows: &[Row], leaps: &[(i64, f64)], t: f64) -> Option<[f64; 6]> {
    let first = rows.first()?;
    let last = rows.last()?;
    if t <= first.0 as f64 {
        return Some(first.1);
    }
    if t >= last.0 as f64 {
        return Some(last.1);
    }
    let i = rows.iter().rposition(|r| r.0 as f64 <= t)?;
    let (a, b) = (rows[i], rows[i + 1]);
    let f = (t - a.0 as f64) / (b.0 - a.0) as f64;
    let mut jump = 0.0;
    for l in leaps.iter().filter(|l| l.0 > a.0 && l.0 <= b.0) {
        if l.0 != b.0 || jump != 0.0 {
            return None;
        }
        jump = l.1;
    }
    let mut out = [0.0; 6];
    for k in 0..6 {
        let hi = if k == 2 { b.1[k] - jump } else { b.1[k] };
        out[k] = a.1[k] + f * (hi - a.1[k]);
    }
    Some(out)
}

fn load(s: &mut Sim, text: &str) -> Result<Vec<EopRecord>, crate::core::Viol> {
    let plan = ReadPlan::benign(s);
    let rd = SimRead::new(text.as_bytes(), plan);
    match no_panic("read_eop_c04", || read_eop_c04(rd))? {
        Ok(v) => Ok(v),
        Err(e) => viol!("refused", "a readable file was refused: {e}"),
    }
}

fn archive(s: &mut Sim) -> R {
    let n = s.int(1, 120);
    let e = earth(s, n);
    let (text, kept) = file(s, &e);
    s.h(text.as_bytes());
    let recs = load(s, &text)?;
    ensure!(recs.len() == kept.len(), "rows", "{} rows survive, {} were read", kept.len(), recs.len());
    for (r, k) in recs.iter().zip(&kept) {
        let v = values(r);
        ensure!(r.mjd.raw().value() == k.0 as f64 && (0..6).all(|i| (v[i] - k.1[i]).abs() < 1e-12), "rows", "row {k:?} was read as {} {v:?}", r.mjd.raw().value());
    }
    if kept.is_empty() {
        ensure!(interpolate(&recs, at(50_000.0)).is_none(), "empty", "an empty table answered");
        return Ok(());
    }
    let (lo, hi) = (kept[0].0, kept[kept.len() - 1].0);
    let mut now = lo as f64;
    for _ in 0..s.int(5, 40) {
        let leap = if e.leaps.is_empty() { None } else { Some(e.leaps[s.idx(e.leaps.len())]) };
        now = match (s.below(8), leap) {
            (0, _) => s.int(lo - 3, hi + 3) as f64,
            (1, _) => kept[s.idx(kept.len())].0 as f64,
            (2, Some(l)) => l.0 as f64 - *s.pick(&[1.0 / 86_400.0, 1e-6, 0.5, 1.0]),
            (3, Some(l)) => l.0 as f64 + *s.pick(&[0.0, 1.0 / 86_400.0, 1e-6]),
            (4, _) => now + s.f64(0.0, 1.0),
            (5, _) => now - s.f64(0.0, 1.0),
            (6, _) => *s.pick(&[0.0, -1e6, 1e6]),
            _ => s.f64(lo as f64 - 2.0, hi as f64 + 2.0),
        };
        let Some(want) = series(&kept, &e.leaps, now) else { continue };
        let Some(got) = no_panic("interpolate", || interpolate(&recs, at(now)))? else { viol!("interpolate", "no answer for MJD {now} from {} rows", recs.len()) };
        let v = values(&got);
        for k in 0..6 {
            ensure!((v[k] - want[k]).abs() < 2e-9, "interpolate", "MJD {now}: value {k} is {}, the rows around say {}; rows {:?}", v[k], want[k], kept.iter().filter(|r| (r.0 as f64 - now).abs() < 3.0).collect::<Vec<_>>());
        }
        let t = got.mjd.raw().value();
        let label = if now <= lo as f64 { lo as f64 } else if now >= hi as f64 { hi as f64 } else { now };
        ensure!(t == label, "label", "asked for MJD {now}, the answer is labelled {t}");
        s.checked();
    }
    Ok(())
}

// ── a provider standing on such a table ─────────────────────────────────────

thread_local! {
    static TABLE: RefCell<Vec<EopRecord>> = const { RefCell::new(Vec::new()) };
}

#[derive(Debug, Clone, Copy, Default)]
struct Table;

impl EopProvider for Table {
    fn try_eop_at(&self, jd_utc: JulianDate) -> Result<EopValues, EopError> {
        let jd = jd_utc.raw().value();
        TABLE.with(|t| {
            let t = t.borrow();
            let mjd = jd - MJD0;
            let none = EopError::NoData { jd_utc: jd, mjd_utc: mjd };
            match (t.first(), t.last()) {
                (Some(a), Some(b)) if mjd >= a.mjd.raw().value() && mjd <= b.mjd.raw().value() => {}
                _ => return Err(none),
            }
            let e = interpolate(&t, at(mjd)).ok_or(none)?.eop;
            Ok(EopValues { dut1: e.dut1, xp: e.xp, yp: e.yp, dx: e.dx, dy: e.dy, lod: e.lod })
        })
    }
    fn eop_at(&self, jd_utc: JulianDate) -> EopValues {
        self.try_eop_at(jd_utc).unwrap_or_default()
    }
}

type Ctx = AstroContext<Vsop87Ephemeris, Table>;
type M3 = [[f64; 3]; 3];

fn mul(a: M3, b: M3) -> M3 {
    std::array::from_fn(|i| std::array::from_fn(|j| (0..3).map(|k| a[i][k] * b[k][j]).sum()))
}
fn tr(a: M3) -> M3 {
    std::array::from_fn(|i| std::array::from_fn(|j| a[j][i]))
}
fn angle(m: M3) -> f64 {
    let v = [m[2][1] - m[1][2], m[0][2] - m[2][0], m[1][0] - m[0][1]];
    let sn = 0.5 * (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
    sn.atan2(0.5 * (m[0][0] + m[1][1] + m[2][2] - 1.0))
}

fn station(s: &mut Sim) -> R {
    let n = s.int(2, 40);
    let e = earth(s, n);
    let (text, kept) = file(s, &e);
    s.h(text.as_bytes());
    let recs = load(s, &text)?;
    TABLE.with(|t| *t.borrow_mut() = recs);
    if kept.is_empty() {
        return Ok(());
    }
    let ctx = Ctx::with_types();
    let (lo, hi) = (kept[0].0 as f64, kept[kept.len() - 1].0 as f64);
    let mut first: Option<(f64, M3)> = None;
    for _ in 0..s.int(2, 10) {
        // TT runs about a minute ahead of UTC; stay clear of that around
        // leap seconds and the ends of the table.
        let utc = match s.below(4) {
            0 => s.f64(lo - 3.0, hi + 3.0),
            1 => s.int(lo as i64, hi as i64) as f64 + s.f64(0.01, 0.99),
            _ => s.f64(lo, hi),
        };
        let near = |x: f64| (utc - x).abs() < 0.003;
        if near(lo) || near(hi) || e.leaps.iter().any(|l| near(l.0 as f64)) {
            continue;
        }
        let tt = utc + 69.184 / 86_400.0;
        let jd = JulianDate::new(tt + MJD0);
        let covered = utc > lo && utc < hi;
        let Some(mut w) = series(&kept, &e.leaps, utc) else { continue };
        if !covered {
            s.fault("no orientation record for the date");
            w = [0.0; 6];
        }
        let m = *no_panic("CIRS to TIRS", || frame_rotation_with::<CIRS, TIRS, _>(jd, &ctx))?.as_matrix();
        let base = *frame_rotation_with::<CIRS, TIRS, _>(jd, &AstroContext::<Vsop87Ephemeris, NullEop>::with_types()).as_matrix();
        let d = mul(m, tr(base));
        let turn = d[0][1].atan2(d[0][0]);
        let want = TAU * 1.002_737_811_911_354_48 * w[2] / 86_400.0;
        // The table is read within 40 s of the right moment.
        ensure!((turn - want).abs() < 2e-8, "ut1", "at MJD {utc} UT1-UTC {} turned the Earth by {turn} rad instead of {want}", w[2]);
        let p = *no_panic("TIRS to ITRF", || frame_rotation_with::<TIRS, ITRF, _>(jd, &ctx))?.as_matrix();
        // The celestial pole seen from the terrestrial frame.
        let pole = [p[0][2], p[1][2]];
        ensure!((pole[0] - (w[0] * AS).sin()).abs() < 1e-10 && (pole[1] + (w[1] * AS).sin()).abs() < 1e-10, "pole", "at MJD {utc} the pole lies at {pole:?} rad, xp {} yp {} arcsec", w[0], w[1]);
        if let Some((j0, m0)) = first {
            let again = *frame_rotation_with::<CIRS, TIRS, _>(JulianDate::new(j0), &ctx).as_matrix();
            ensure!(angle(mul(again, tr(m0))) < 1e-15 && again == m0, "history", "the Earth stood differently when asked again about JD {j0}");
        } else {
            first = Some((tt + MJD0, m));
        }
        s.checked();
    }
    Ok(())
}

// ── the clock of the rotating Earth ─────────────────────────────────────────

fn ut1(tt: f64) -> Result<f64, crate::core::Viol> {
    let v = no_panic("jd_ut1_from_tt", || er::jd_ut1_from_tt(JulianDate::new(tt)))?.raw().value();
    ensure!(v.is_finite(), "ut1", "UT1 at TT {tt} is {v}");
    Ok(v)
}

fn clock(s: &mut Sim) -> R {
    // From the Bronze Age to the year 3000; the ends of the tables in between.
    let edges = [2_067_314.5, 2_312_752.5, 2_441_714.5, 2_463_871.5, 2_400_000.5, 2_451_545.0];
    let mut tt = match s.below(3) {
        0 => *s.pick(&edges) + s.f64(-3.0, 3.0),
        1 => s.f64(77_400.0, 2_816_800.0),
        _ => s.f64(2_430_000.0, 2_480_000.0),
    };
    let mut prev = (tt, ut1(tt)?);
    let span = *s.pick(&[1e-5, 0.01, 1.0, 400.0, 40_000.0]);
    for _ in 0..s.int(2, 12) {
        tt = (prev.0 + s.f64(-span, span)).clamp(77_400.0, 2_816_800.0);
        s.advance(((tt - prev.0).abs().min(1e4) * 8.64e13) as u64);
        let u = ut1(tt)?;
        let dt = tt - prev.0;
        let du = u - prev.1;
        // The Earth slows by less than a fifth of a second per day.
        let lim = (0.2 * dt.abs() + 0.06) / 86_400.0 + 3e-9;
        ensure!((du - dt).abs() < lim, "ut1", "UT1 advanced by {du} d while TT advanced by {dt} d from JD {}", prev.0);
        ensure!((tt - u).abs() < 2.2, "ut1", "TT-UT1 at JD {tt} is {} s", (tt - u) * 86_400.0);
        if (2_433_282.5..2_463_871.0).contains(&tt) {
            let delta_t = (tt - u) * 86_400.0;
            let y = 1950.0 + (tt - 2_433_282.5) / 365.25;
            // Published yearly values, 1950 on.
            let tab = [(1950.0, 29.15), (1960.0, 33.15), (1970.0, 40.18), (1980.0, 50.54), (1990.0, 56.86), (2000.0, 63.83), (2010.0, 66.07), (2020.0, 69.36), (2034.0, 70.5)];
            let k = tab.iter().rposition(|p: &(f64, f64)| p.0 <= y).unwrap_or(0).min(tab.len() - 2);
            let f = (y - tab[k].0) / (tab[k + 1].0 - tab[k].0);
            let want = tab[k].1 + f * (tab[k + 1].1 - tab[k].1);
            ensure!((delta_t - want).abs() < 2.5, "delta-t", "TT-UT1 in {y} is {delta_t} s, about {want} s were measured");
        }
        let j = JulianDate::new(tt);
        ensure!(er::jd_utc_from_tt(j).raw().value() == u && er::jd_utc_from_tt_delta_t(j).raw().value() == u, "ut1", "UTC by Delta T differs from UT1 at JD {tt}");

        // The caller's UT1-UTC moves UT1 by just that much.
        let d = *s.pick(&[0.0, 0.9, -0.9, 0.123_456_7, -0.334]);
        let with = |d: f64| er::jd_ut1_from_tt_eop(j, &EopValues { dut1: Seconds::new(d), ..Default::default() }).raw().value();
        let (a, b) = (no_panic("jd_ut1_from_tt_eop", || with(0.0))?, no_panic("jd_ut1_from_tt_eop", || with(d))?);
        ensure!(((b - a) * 86_400.0 - d).abs() < 2.5e-4, "dut1", "UT1-UTC {d} s moved UT1 by {} s", (b - a) * 86_400.0);
        let ev = EopValues { dut1: Seconds::new(d), ..Default::default() };
        ensure!(((ev.jd_ut1(j).raw().value() - tt) * 86_400.0 - d).abs() < 2.5e-4, "dut1", "UTC {tt} with UT1-UTC {d} s gives UT1 {}", ev.jd_ut1(j).raw().value());

        // Rotation angle: range, rate, and the way the date is split.
        let ju = JulianDate::new(u);
        let th = no_panic("earth_rotation_angle", || earth_rotation_angle(ju))?.value();
        ensure!((0.0..=TAU).contains(&th), "era", "rotation angle {th} at UT1 {u}");
        let whole = u.floor();
        let day = u - whole;
        let want = TAU * ((0.779_057_273_264_0 + 0.002_737_811_911_354_48 * (u - 2_451_545.0)) + day + if (whole - 2_451_545.0) % 1.0 == 0.0 { 0.0 } else { 0.5 });
        ensure!(wrap(th - want).abs() < 2e-9 + 1e-14 * (u - 2_451_545.0).abs() * TAU, "era", "rotation angle at UT1 {u} is {th}, expected {}", want.rem_euclid(TAU));
        for (p, q) in [(u, 0.0), (whole, day), (MJD0, u - MJD0), (2_451_545.0, u - 2_451_545.0), (day, whole)] {
            let t1 = no_panic("earth_rotation_angle_parts", || earth_rotation_angle_parts(p, q))?.value();
            ensure!(wrap(t1 - th).abs() < 5e-9, "era-split", "UT1 {u} as {p} + {q} gives {t1}, whole {th}");
        }

        // Sidereal time is the rotation angle plus the accumulated precession.
        let t = (tt - 2_451_545.0) / 36_525.0;
        let poly = 0.014_506 + (4_612.156_534 + (1.391_581_7 + (-4.4e-7 + (-2.995_6e-5 - 3.68e-8 * t) * t) * t) * t) * t;
        let g = no_panic("gmst_iau2006", || gmst_iau2006(ju, j))?.value();
        ensure!((0.0..=TAU).contains(&g) && wrap(g - th - poly * AS).abs() < 1e-10, "gmst", "sidereal time {g} at UT1 {u}, rotation angle {th}, precession {} arcsec", poly);
        ensure!(er::gmst_from_tt(j).value() == g && er::gmst_default(j).value() == g, "gmst", "sidereal time from TT {tt} differs from the one of its UT1");
        let ge = er::gmst_from_tt_eop(j, &ev).value();
        ensure!((wrap(ge - gmst_iau2006(JulianDate::new(b), j).value())).abs() < 1e-8, "gmst", "sidereal time with UT1-UTC {d}: {ge}");
        let (dpsi, eps) = (s.f64(-20.0, 20.0) * AS, 23.4 * PI / 180.0 + s.f64(-1e-4, 1e-4));
        let ga = no_panic("gast_iau2006", || gast_iau2006(ju, j, Radians::new(dpsi), Radians::new(eps)))?.value();
        if t.abs() < 3.0 {
            // Main complementary terms; all others together stay below 60 microarcseconds.
            let om = (450_160.398_036 + t * (-6_962_890.543_1 + t * (7.472_2 + t * 0.007_702))) * AS;
            let ct = (2_640.96e-6 - 0.87e-6 * t) * om.sin() + 63.52e-6 * (2.0 * om).sin();
            let got = wrap(ga - g - dpsi * eps.cos());
            ensure!((got - ct * AS).abs() < 6e-5 * AS, "gast", "equation of the equinoxes adds {} arcsec beyond the nutation, {ct} expected", got / AS);
            ensure!((complementary_terms_iau2000(j).value() - got).abs() < 1e-11, "gast", "complementary terms differ from those in sidereal time");
        }
        let sp = tio_locator_sp(j).value();
        ensure!((sp + 47e-6 * t * AS).abs() < 1e-16 * (1.0 + t.abs()), "tio", "s' is {sp} rad at t {t}");
        let (xp, yp) = (s.f64(-1.0, 1.0), s.f64(-1.0, 1.0));
        let w = *polar_motion_matrix_from_eop(Arcseconds::new(xp), Arcseconds::new(yp), j).as_matrix();
        ensure!((angle(w) - (xp.hypot(yp)) * AS).abs() < 1e-9 + sp.abs(), "polar-motion", "pole {xp} {yp} arcsec turns the frame by {} arcsec", angle(w) / AS);

        // Nothing loaded at run time: a gap, never an invented value.
        let iers = IersEop::new();
        ensure!(iers.is_empty() == iers.mjd_range().is_none() && (iers.len() == 0) == iers.is_empty(), "iers", "len {} range {:?}", iers.len(), iers.mjd_range());
        let inside = iers.mjd_range().is_some_and(|(a, b)| (a.value()..=b.value()).contains(&(tt - MJD0)));
        match no_panic("try_eop_at", || iers.try_eop_at(j))? {
            Ok(_) => ensure!(inside, "iers", "values for JD {tt} outside the table"),
            Err(EopError::NoData { jd_utc, mjd_utc }) => {
                s.fault("no orientation record for the date");
                ensure!(!inside && (jd_utc - tt).abs() < 2e-9 && (mjd_utc - (tt - MJD0)).abs() < 2e-9, "iers", "no data for JD {tt}: reported {jd_utc} {mjd_utc}");
                let z = iers.eop_at(j);
                ensure!(z.dut1.value() == 0.0 && z.xp.value() == 0.0 && z.yp.value() == 0.0 && z.dx == MilliArcseconds::new(0.0), "iers", "invented values for JD {tt}: {z:?}");
                ensure!(no_panic("try_jd_utc_from_tt", || er::try_jd_utc_from_tt(j))?.is_err(), "iers", "UTC for JD {tt} without a table");
                ensure!(no_panic("try_gmst_with_eop", || er::try_gmst_with_eop(j))?.is_err(), "iers", "sidereal time for JD {tt} without a table");
            }
        }
        s.checked();
        prev = (tt, u);
    }
    // Back to the first date: nothing remembered.
    let again = ut1(prev.0)?;
    ensure!(again == prev.1, "history", "UT1 at JD {} was {}, now {again}", prev.0, prev.1);
    Ok(())
}

pub static C25: Prop = Prop {
    id: "C25",
    scenarios: &[("archive", 4, archive), ("station", 2, station), ("clock", 4, clock)],
    runs_quick: 200_000,
    runs_thorough: 1_500_000,
    rule: "orientation values are those of the surviving rows, and the Earth turns with UT1 and nothing else",
    real: &["src/formats/iers/eop.rs", "src/astro/{eop,earth_rotation,era,sidereal,polar_motion}.rs", "frame rotations CIRS, TIRS, ITRF", "tempoch Delta T"],
    stub: &["the medium of the daily file (SimRead)", "the Earth (scripted series with leap seconds)"],
    assumptions: &["no runtime time-data bundle is loaded, as in an offline process"],
};
