//! C05 a failing sink never passes for a written product, C06 written products read back.

use crate::core::{no_panic, Sim, R};
use crate::gen::{self, civil, count, iso, Civil, Parsed, Rec};
use crate::io::{ReadPlan, SimRead, SimWrite, WritePlan};
use crate::Prop;
use siderust::formats::ccsds::{oem, opm, tdm};
use siderust::formats::igs::{antex, sp3};
use siderust::formats::ilrs::cpf;
use siderust::formats::rinex::{nav, obs};
use siderust::qtty;
use std::io::{Read, Write};

type WriteFn = Box<dyn Fn(&mut dyn Write) -> Result<(), String>>;
type ReadFn = fn(&mut dyn Read) -> Result<Parsed, String>;

pub struct Case {
    pub name: &'static str,
    pub write: WriteFn,
    pub want: Parsed,
    pub read: Option<ReadFn>,
    /// Absolute tolerance of numeric column `i` holding value `v`.
    ntol: fn(usize, f64) -> f64,
    ttol: i64,
    /// Text-level validity of the emitted epochs.
    lint: fn(&str) -> Option<String>,
}

const UPPER: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
const NAMEY: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

fn es<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

/// A value in range, off the decimal grid of any format.
fn val(s: &mut Sim, lo: f64, hi: f64) -> f64 {
    match s.below(10) {
        0 => 0.0,
        1 => *s.pick(&[lo, hi]),
        2 => -s.f64(0.0, 5e-7f64.min(hi)),
        3 => (s.f64(lo, hi) * 1e3).round() / 1e3,
        _ => s.f64(lo, hi),
    }
    .clamp(lo, hi)
}

/// Instants near every kind of carry: minute, hour, day, month, year.
fn instant(s: &mut Sim) -> i64 {
    let c = civil(s, 1_000);
    let mut t = c.unix_ns();
    match s.below(5) {
        0 => t = t.div_euclid(60_000_000_000) * 60_000_000_000 - s.int(0, 2000),
        1 => t = t.div_euclid(86_400_000_000_000) * 86_400_000_000_000 - s.int(0, 1_500_000),
        2 => t += s.int(-999, 999),
        _ => {}
    }
    t
}

pub fn utc(t: i64) -> tempoch::Time<tempoch::UTC> {
    let dt = chrono::DateTime::<chrono::Utc>::from_timestamp(t.div_euclid(1_000_000_000), t.rem_euclid(1_000_000_000) as u32).unwrap();
    tempoch::Time::<tempoch::UTC>::try_from_chrono(dt).unwrap()
}

fn no_lint(_: &str) -> Option<String> {
    None
}

fn second_lt_60(field: &str, line: &str) -> Option<String> {
    // 60.x names an instant only inside a leap second (the reader checks that one exists).
    let flat: String = line.split(['*', '>', 'G', ' ']).filter(|x| !x.is_empty()).collect::<Vec<_>>().join(" ");
    let leap = flat.contains(" 12 31 23 59 ") || flat.contains(" 6 30 23 59 ") || flat.contains(" 06 30 23 59 ");
    match field.parse::<f64>() {
        Ok(v) if leap && (60.0..61.0).contains(&v) => None,
        Ok(v) if (0.0..60.0).contains(&v) => None,
        _ => Some(format!("invalid seconds field {field:?} in {line:?}")),
    }
}

fn case_sp3(s: &mut Sim) -> Case {
    let mut head = Rec::default();
    for _ in 0..s.int(0, 4) {
        head.s.push(format!("/* {}", s.ident(0, 30, NAMEY)).trim_end().to_string());
    }
    let mut epochs = Vec::new();
    for _ in 0..count(s, 30) {
        let mut positions = Vec::new();
        for _ in 0..s.int(0, 4) {
            positions.push(sp3::Sp3Position {
                sat_id: format!("{}{:02}", s.pick(&["G", "R", "E", "L"]), s.int(1, 99)),
                position: affn::cartesian::Position::new(val(s, -99_999.0, 99_999.0), val(s, -99_999.0, 99_999.0), val(s, -99_999.0, 99_999.0)),
                clock: qtty::time::Microseconds::new(if s.chance(1, 5) { 999_999.999_999 } else { val(s, -9_999.0, 9_999.0) }),
            });
        }
        epochs.push(sp3::Sp3Epoch { time: utc(instant(s)), positions });
    }
    let want = Parsed { head: head.clone(), recs: gen::sp3_epochs(&epochs) };
    let rec = sp3::Sp3Record { header: head.s, epochs };
    Case {
        name: "sp3",
        write: Box::new(move |mut w| sp3::write_sp3(&mut w, &rec).map_err(es)),
        want,
        read: Some(gen::sp3_read),
        ntol: |_, _| 5.1e-7,
        ttol: 100_000,
        lint: sp3_lint,
    }
}

fn sp3_lint(t: &str) -> Option<String> {
    t.lines().filter(|l| l.starts_with('*')).find_map(|l| second_lt_60(l.split_whitespace().last().unwrap(), l))
}

fn case_antex(s: &mut Sim) -> Case {
    let mut cat = antex::AntexCatalog::new();
    for k in 0..count(s, 20) {
        let mut m = antex::AntennaPco::new();
        for _ in 0..s.int(0, 5) {
            m.insert(format!("{}{:02}", s.pick(&["G", "R", "E", "C"]), s.int(1, 9)), antex::Pco::new(val(s, -9_999.0, 9_999.0), val(s, -9_999.0, 9_999.0), val(s, -9_999.0, 9_999.0)));
        }
        cat.insert(format!("{:<12}{:>4}{k}", s.ident(3, 12, UPPER), s.ident(1, 4, UPPER)), m);
    }
    let want = Parsed { head: Rec::default(), recs: gen::antex_recs(&cat) };
    Case {
        name: "antex",
        write: Box::new(move |mut w| antex::write_antex(&mut w, &cat).map_err(es)),
        want,
        read: Some(gen::antex_read),
        ntol: |_, _| 5.1e-3,
        ttol: 0,
        lint: no_lint,
    }
}

fn case_cpf(s: &mut Sim) -> Case {
    let mut f = cpf::CpfFile {
        source: s.ident(3, 5, UPPER),
        version: s.int(1, 2).to_string(),
        cospar_id: s.int(10_000, 9_999_999).to_string(),
        sic: s.int(1, 9999) as i32,
        norad: s.int(1, 99_999).to_string(),
        reference_frame: s.pick(&["0", "1", "ITRF"]).to_string(),
        time_step_s: s.int(1, 900) as f64,
        ..Default::default()
    };
    for _ in 0..count(s, 40) {
        f.ephemeris.entries.push(cpf::CpfEphemerisEntry {
            epoch: utc(instant(s)),
            position: affn::cartesian::Position::new(val(s, -45_000.0, 45_000.0), val(s, -45_000.0, 45_000.0), val(s, -45_000.0, 45_000.0)),
        });
    }
    let want = gen::cpf_parsed(&f);
    Case {
        name: "cpf",
        write: Box::new(move |mut w| cpf::write_cpf(&f, &mut w).map_err(es)),
        want,
        read: Some(gen::cpf_read),
        ntol: |_, _| 5.1e-7,
        ttol: 600_000,
        lint: |t| {
            t.lines().filter(|l| l.starts_with("10 ")).find_map(|l| match l.split_whitespace().nth(3).and_then(|x| x.parse::<f64>().ok()) {
                Some(v) if (0.0..86_401.0).contains(&v) => None,
                _ => Some(format!("invalid seconds of day in {l:?}")),
            })
        },
    }
}

fn free_text(s: &mut Sim, xml: bool) -> String {
    let a = if xml { "ABCxyz019-_ .&<>\"'=;" } else { "ABCxyz019-_ .=&" };
    let t = s.ident(1, 16, a);
    // Leading / trailing blanks and comment-like text are not part of a value.
    let t = t.trim().to_string();
    if t.is_empty() {
        "X".into()
    } else {
        t
    }
}

fn case_opm(s: &mut Sim) -> Case {
    let m = opm::OpmMessage {
        metadata: opm::OpmMetadata {
            object_name: free_text(s, false),
            object_id: free_text(s, false),
            center_name: free_text(s, false),
            ref_frame: s.ident(2, 8, UPPER),
            time_system: s.ident(2, 4, UPPER),
        },
        state: opm::CartesianState {
            epoch: iso(&civil(s, 1000), 6),
            position_km: std::array::from_fn(|_| val(s, -4e5, 4e5)),
            velocity_km_s: std::array::from_fn(|_| val(s, -20.0, 20.0)),
        },
        keplerian: s.chance(1, 2).then(|| opm::KeplerianElements {
            semi_major_axis_km: val(s, 6400.0, 4e5),
            eccentricity: val(s, 0.0, 0.99),
            inclination_deg: val(s, 0.0, 180.0),
            ra_of_asc_node_deg: val(s, 0.0, 360.0),
            arg_of_pericenter_deg: val(s, 0.0, 360.0),
            true_anomaly_deg: val(s, -180.0, 360.0),
        }),
    };
    let want = Parsed { head: Rec::default(), recs: vec![gen::opm_rec(&m)] };
    Case {
        name: "opm",
        write: Box::new(move |mut w| opm::write_opm(&mut w, &m).map_err(es)),
        want,
        read: Some(gen::opm_read),
        ntol: |i, _| match i {
            0..=6 => 5.1e-7,
            7 => 5.1e-8,
            _ => 5.1e-5,
        },
        ttol: 0,
        lint: no_lint,
    }
}

fn case_tdm(s: &mut Sim) -> Case {
    let mut m = tdm::TdmMessage::default();
    for _ in 0..s.int(1, 3) {
        m.metadata.push(tdm::TdmMetadata {
            participants: (0..s.int(1, 4)).map(|_| s.ident(1, 12, NAMEY)).collect(),
            mode: s.pick(&["", "SEQUENTIAL", "SINGLE_DIFF"]).to_string(),
            path: s.pick(&["", "1,2,1", "2,1"]).to_string(),
            time_system: s.pick(&["UTC", "TAI"]).to_string(),
        });
    }
    for _ in 0..count(s, 40) {
        let obs_type = match s.below(6) {
            0 => tdm::ObservationType::Range,
            1 => tdm::ObservationType::Doppler,
            2 => tdm::ObservationType::Angle1,
            3 => tdm::ObservationType::Angle2,
            _ => tdm::ObservationType::Other(s.pick(&["RECEIVE_FREQ", "TROPO_DRY", "CLOCK_BIAS"]).to_string()),
        };
        let v = match s.below(6) {
            0 => s.f64(-1.0, 1.0) * 1e-12,
            1 => s.f64(-1.0, 1.0) * 1e15,
            _ => val(s, -1e7, 1e7),
        };
        m.observations.push(tdm::ObservationData { obs_type, epoch: iso(&civil(s, 1000), 6), value: v });
    }
    let want = gen::tdm_parsed(&m);
    Case {
        name: "tdm",
        write: Box::new(move |mut w| tdm::write_tdm(&mut w, &m).map_err(es)),
        want,
        read: Some(gen::tdm_read),
        ntol: |_, _| 0.0,
        ttol: 0,
        lint: no_lint,
    }
}

fn jd(t: i64) -> f64 {
    let day = t.div_euclid(86_400_000_000_000);
    (day + 2_440_588) as f64 - 0.5 + t.rem_euclid(86_400_000_000_000) as f64 / 86_400e9
}

fn oem_lint(t: &str) -> Option<String> {
    let i = t.find(":60")?;
    Some(format!("invalid epoch ...{}", &t[i.saturating_sub(16)..(i + 10).min(t.len())]))
}

fn oem_tol(i: usize, _: f64) -> f64 {
    if i < 3 {
        5.1e-7
    } else {
        5.1e-10
    }
}

fn case_oem(s: &mut Sim) -> Case {
    let xml = s.chance(1, 2);
    let meta = oem::OemMetadata {
        object_id: free_text(s, xml),
        object_name: free_text(s, xml),
        ref_frame: s.ident(2, 8, UPPER),
        time_system: s.ident(2, 4, UPPER),
        center_name: free_text(s, xml),
    };
    let n = count(s, 40).max(1);
    let states: Vec<oem::OemState> = (0..n)
        .map(|_| {
            let t = instant(s);
            oem::OemState::new(jd(t), std::array::from_fn(|_| val(s, -4e5, 4e5)), std::array::from_fn(|_| val(s, -20.0, 20.0)))
        })
        .collect();
    let f = oem::OemFile { version: "3.0".into(), creation_date: "2026-01-01T00:00:00".into(), originator: "SIDERUST-POD".into(), segments: vec![oem::OemSegment { metadata: meta.clone(), states: states.clone() }] };
    let want = gen::oem_parsed(&f);
    Case {
        name: if xml { "oem_xml" } else { "oem" },
        write: Box::new(move |mut w| if xml { oem::write_oem_xml(&mut w, &meta, &states).map_err(es) } else { oem::write_oem(&mut w, &meta, &states).map_err(es) }),
        want,
        read: Some(if xml { gen::oem_xml_read } else { gen::oem_read }),
        ntol: oem_tol,
        ttol: 60_000,
        lint: oem_lint,
    }
}

pub fn gen_nav(s: &mut Sim) -> nav::RinexNavFile {
    use qtty::{angular::Radians, angular_rate::AngularRate, length::Meters, time::Seconds};
    let mut f = nav::RinexNavFile::default();
    for _ in 0..count(s, 12) {
        let t = instant(s);
        let mut x = |k: f64| match s.below(6) {
            0 => 0.0,
            1 => k,
            2 => -k,
            _ => s.f64(-k, k),
        };
        let mut r = nav::GpsNavRecord { af0: Seconds::new(x(1e-3)), af1: x(1e-10), af2: x(1e-15), iode: x(255.0).abs().round(), ..Default::default() };
        r.crs = Meters::new(x(500.0));
        r.delta_n = AngularRate::new(x(9e-9));
        r.m0 = Radians::new(x(3.14));
        r.cuc = Radians::new(x(1e-5));
        r.e = x(0.03).abs();
        r.cus = Radians::new(x(1e-5));
        r.sqrt_a = 5153.0 + x(1.0);
        r.toe = Seconds::new(x(604_784.0).abs());
        r.cic = Radians::new(x(1e-7));
        r.omega0 = Radians::new(x(3.14));
        r.cis = Radians::new(x(1e-7));
        r.i0 = Radians::new(x(1.0));
        r.crc = Meters::new(x(400.0));
        r.omega = Radians::new(x(3.14));
        r.omega_dot = AngularRate::new(x(9e-9));
        r.idot = AngularRate::new(x(1e-10));
        r.prn = s.int(1, 32) as u8;
        r.toc = utc(t);
        f.gps.push(r);
    }
    f
}

fn case_nav(s: &mut Sim) -> Case {
    let f = gen_nav(s);
    let want = Parsed { head: Rec::default(), recs: f.gps.iter().map(gen::nav_rec).collect() };
    Case {
        name: "rinex_nav",
        write: Box::new(move |mut w| nav::write_rinex_nav(&mut w, &f).map_err(es)),
        want,
        read: Some(gen::nav_read),
        ntol: |_, v| 1e-12 * v.abs(),
        ttol: 500_100_000,
        lint: |t| t.lines().filter(|l| l.starts_with('G')).find_map(|l| second_lt_60(l.get(21..23).unwrap_or(""), l)),
    }
}

fn case_obs(s: &mut Sim) -> Case {
    use std::collections::HashMap;
    let mut types: HashMap<char, Vec<String>> = HashMap::new();
    for c in ['G', 'R', 'E'] {
        if s.chance(2, 3) {
            let n = *s.pick(&[1usize, 4, 13, 14, 30]);
            let v: Vec<String> = (0..n).map(|i| format!("{}{}{}", ["C", "L", "D", "S"][i % 4], i / 4 % 9 + 1, ["C", "W", "X"][i / 36 % 3])).collect();
            types.insert(c, v);
        }
    }
    let mut epochs = Vec::new();
    if !types.is_empty() {
        let mut sys: Vec<char> = types.keys().copied().collect();
        sys.sort();
        for _ in 0..count(s, 12) {
            let mut satellites: HashMap<String, HashMap<String, f64>> = HashMap::new();
            for _ in 0..s.int(1, 6) {
                let c = *s.pick(&sys);
                let mut m = HashMap::new();
                for t in &types[&c] {
                    if s.chance(3, 4) {
                        m.insert(t.clone(), match s.below(5) {
                            0 => s.f64(-9.9e8, 9e9),
                            _ => s.f64(-1e7, 4e7),
                        });
                    }
                }
                satellites.insert(format!("{c}{:02}", s.int(1, 36)), m);
            }
            epochs.push(obs::ObsEpoch { time: utc(instant(s)), satellites });
        }
    }
    let o = obs::RinexObs {
        marker: s.ident(1, 30, NAMEY),
        approx_xyz_m: s.chance(1, 2).then(|| std::array::from_fn(|_| qtty::length::Meters::new(val(s, -7e6, 7e6)))),
        interval_s: s.chance(1, 2).then(|| qtty::time::Seconds::new(s.grid(0.1, 900.0, 3))),
        obs_types: types,
        epochs,
    };
    let want = gen::obs_parsed(&o);
    Case {
        name: "rinex_obs",
        write: Box::new(move |mut w| obs::write_rinex_obs(&mut w, &o).map_err(es)),
        want,
        read: Some(gen::obs_read),
        ntol: |_, v| 5.1e-4 + 1e-12 * v.abs(),
        ttol: 100_000,
        lint: |t| t.lines().filter(|l| l.starts_with('>')).find_map(|l| second_lt_60(l.split_whitespace().nth(6).unwrap_or(""), l)),
    }
}

/// Leap seconds in force (TAI - UTC), independent table for the simulated years.
pub fn tai_minus_utc(unix_ns: i64) -> i64 {
    let steps = [(1972, 7, 11), (1973, 1, 12), (1974, 1, 13), (1975, 1, 14), (1976, 1, 15), (1977, 1, 16), (1978, 1, 17), (1979, 1, 18), (1980, 1, 19), (1981, 7, 20), (1982, 7, 21), (1983, 7, 22), (1985, 7, 23), (1988, 1, 24), (1990, 1, 25), (1991, 1, 26), (1992, 7, 27), (1993, 7, 28), (1994, 7, 29), (1996, 1, 30), (1997, 7, 31), (1999, 1, 32), (2006, 1, 33), (2009, 1, 34), (2012, 7, 35), (2015, 7, 36), (2017, 1, 37)];
    let mut v = 10;
    for (y, m, k) in steps {
        if unix_ns >= gen::civil_days(y, m, 1) * 86_400_000_000_000 {
            v = k;
        }
    }
    v
}

/// `n` orbit states around instant `t` (UTC ns) every `step` ns, with TT epochs.
pub fn orbit_states(s: &mut Sim, t0: i64, step: i64, n: usize) -> (Vec<siderust::astro::dynamics::OrbitState>, Vec<(i64, [f64; 6])>) {
    use siderust::astro::dynamics::{OrbitState, Position, Velocity};
    let mut a = Vec::new();
    let mut b = Vec::new();
    for i in 0..n {
        let t = t0 + i as i64 * step;
        let tt = t + tai_minus_utc(t) * 1_000_000_000 + 32_184_000_000;
        let v: [f64; 6] = std::array::from_fn(|j| if j < 3 { val(s, -45_000.0, 45_000.0) } else { val(s, -12.0, 12.0) });
        a.push(OrbitState::new(siderust::time::JulianDate::new(jd(tt)).to_j2000s(), Position::new(v[0], v[1], v[2]), Velocity::new(v[3], v[4], v[5])));
        b.push((t, v));
    }
    (a, b)
}

fn case_orbit(s: &mut Sim) -> Case {
    use siderust::pod::product as p;
    let n = count(s, 40).max(1);
    // Stay clear of the instant of a leap second itself.
    let t0 = gen::civil_days(s.int(1995, 2030), s.int(1, 12), 2) * 86_400_000_000_000 + s.int(0, 20 * 86_400_000_000) * 1000;
    let step = *s.pick(&[1_000_000_000i64, 30_000_000_000, 900_000_000_000, 123_456_789]);
    let (states, model) = orbit_states(s, t0, step, n);
    if s.chance(1, 2) {
        let sat = format!("L{:02}", s.int(1, 99));
        let mut recs = Vec::new();
        for (t, v) in &model {
            recs.push(Rec { s: vec!["epoch".into()], n: vec![], t: vec![*t] });
            recs.push(Rec { s: vec![sat.clone()], n: vec![v[0], v[1], v[2], 999_999.999_999], t: vec![] });
        }
        Case {
            name: "orbit_sp3",
            write: Box::new(move |mut w| p::orbit::write_sp3_from_states(&mut w, &sat, &states).map_err(es)),
            want: Parsed { head: Rec::default(), recs },
            read: Some(|r| {
                let mut p = gen::sp3_read(r)?;
                p.head = Rec::default();
                Ok(p)
            }),
            ntol: |_, _| 5.1e-7,
            ttol: 100_000,
            lint: sp3_lint,
        }
    } else {
        let (id, name) = (s.ident(1, 12, NAMEY), s.ident(1, 12, NAMEY));
        let mut recs = vec![Rec { s: vec![id.clone(), name.clone(), "EME2000".into(), "TT".into(), "EARTH".into()], ..Default::default() }];
        for (t, v) in &model {
            recs.push(Rec { s: vec![], n: v.to_vec(), t: vec![t + tai_minus_utc(*t) * 1_000_000_000 + 32_184_000_000] });
        }
        Case {
            name: "orbit_oem",
            write: Box::new(move |mut w| p::orbit::write_oem_from_states(&mut w, &id, &name, &states).map_err(es)),
            want: Parsed { head: Rec::default(), recs },
            read: Some(|r| {
                let mut p = gen::oem_read(r)?;
                p.head = Rec::default();
                Ok(p)
            }),
            ntol: oem_tol,
            ttol: 100_000,
            lint: oem_lint,
        }
    }
}

fn case_residuals(s: &mut Sim) -> Case {
    let rows = super::podio::residuals(s);
    Case {
        name: "residual_csv",
        write: Box::new(move |w| {
            let mut c = siderust::pod::product::residuals_csv::ResidualCsvWriter::new(w).map_err(es)?;
            for r in &rows {
                c.write_record(r).map_err(es)?;
            }
            c.flush().map_err(es)
        }),
        want: Parsed::default(),
        read: None,
        ntol: |_, _| 0.0,
        ttol: 0,
        lint: no_lint,
    }
}

fn case_json(s: &mut Sim) -> Case {
    let m = super::podio::manifest(s);
    let qc = s.chance(1, 2);
    Case {
        name: if qc { "qc_json" } else { "run_manifest" },
        write: Box::new(move |mut w| {
            if qc {
                let d = siderust::pod::product::qc_json::QcDocument {
                    schema_version: "qc.v1".into(),
                    run_id: m.run_id.clone(),
                    software_version: m.tool_version.clone(),
                    n_obs: m.inputs.len(),
                    n_params: 6,
                    reduced_chi2: 1.25,
                    iterations: 3,
                    residuals: m.inputs.iter().map(|d| d.sha256.clone()).collect::<Vec<_>>(),
                };
                siderust::pod::product::qc_json::write_qc_json(&mut w, &d).map_err(es)
            } else {
                siderust::pod::product::manifest::ManifestWriter::write(&mut w, &m).map_err(es)
            }
        }),
        want: Parsed::default(),
        read: None,
        ntol: |_, _| 0.0,
        ttol: 0,
        lint: no_lint,
    }
}

fn gen_case(s: &mut Sim, readable: bool) -> Case {
    let c = match s.below(if readable { 9 } else { 11 }) {
        0 => case_sp3(s),
        1 => case_antex(s),
        2 => case_cpf(s),
        3 => case_opm(s),
        4 => case_tdm(s),
        5 => case_oem(s),
        6 => case_nav(s),
        7 => case_obs(s),
        8 => case_orbit(s),
        9 => case_residuals(s),
        _ => case_json(s),
    };
    s.note(format!("product {}", c.name));
    c
}

fn sink_faults(s: &mut Sim) -> R {
    let c = gen_case(s, false);
    let mut plain = SimWrite::new(WritePlan::plain());
    if let Err(e) = no_panic(c.name, || (c.write)(&mut plain))? {
        viol!(format!("{}_refused", c.name), "{}: valid product refused: {e}", c.name);
    }
    let full = plain.out;
    // benign: short writes and interruptions change nothing
    let plan = WritePlan::benign(s);
    let mut w = SimWrite::new(plan.clone());
    let r = no_panic(c.name, || (c.write)(&mut w))?;
    s.checked();
    ensure!(r.is_ok(), format!("{}_benign", c.name), "{}: short writes {plan:?} failed the product: {r:?}", c.name);
    ensure!(w.out == full, format!("{}_bytes", c.name), "{}: bytes depend on how the sink accepts them ({plan:?}): {} vs {}", c.name, w.out.len(), full.len());
    // failures
    for _ in 0..2 {
        let plan = WritePlan::benign(s).with_failure(s, full.len());
        s.note(format!("{:?} of {}", plan.fail_at, full.len()));
        let mut w = SimWrite::new(plan.clone());
        let r = no_panic(c.name, || (c.write)(&mut w))?;
        s.checked();
        s.advance(full.len() as u64 * 1000);
        if w.failed > 0 {
            ensure!(r.is_err(), format!("{}_swallowed", c.name), "{}: the sink failed ({:?}) after {} of {} bytes but the writer reports success", c.name, plan.fail_at, w.out.len(), full.len());
        } else {
            ensure!(r.is_ok(), format!("{}_spurious", c.name), "{}: writer failed without a sink failure: {r:?}", c.name);
        }
        ensure!(full.starts_with(&w.out), format!("{}_not_prefix", c.name), "{}: after the failure the sink holds bytes that are no prefix of the product", c.name);
        s.state(crate::core::hash_bytes(format!("{}{}", c.name, w.out.len() / 16).as_bytes()));
    }
    Ok(())
}

/// The residual table's Parquet file over a failing seekable sink.
fn parquet_faults(s: &mut Sim) -> R {
    let rows = super::podio::residuals(s);
    let run = |plan: WritePlan| {
        let mut f = crate::io::SimFile::new(plan);
        let r = {
            let mut w = siderust::pod::product::residuals_parquet::ResidualParquetWriter::new(&mut f);
            for r in &rows {
                w.push(r.clone());
            }
            w.finish().map(|_| ()).map_err(es)
        };
        (r, f)
    };
    let (r, plain) = no_panic("parquet", || run(WritePlan::plain()))?;
    ensure!(r.is_ok(), "parquet_refused", "valid residual table refused: {r:?}");
    let full = plain.w.out;
    let plan = WritePlan::benign(s).with_failure(s, full.len());
    let (r, f) = no_panic("parquet", || run(plan.clone()))?;
    s.checked();
    s.note(format!("parquet {} rows {:?} of {}", rows.len(), plan.fail_at, full.len()));
    s.state(f.w.out.len() as u64 / 16);
    if f.w.failed > 0 {
        ensure!(r.is_err(), "parquet_swallowed", "Parquet sink failed ({:?}) after {} of {} bytes but finish() reports success", plan.fail_at, f.w.out.len(), full.len());
    } else {
        ensure!(r.is_ok(), "parquet_spurious", "{r:?}");
        ensure!(f.w.out == full, "parquet_bytes", "Parquet bytes depend on how the sink accepts them");
    }
    Ok(())
}

/// The file path variant of the RINEX NAV writer and the POD product writers: see C07.
fn round_trip(s: &mut Sim) -> R {
    let c = gen_case(s, true);
    let mut w = SimWrite::new(WritePlan::benign(s));
    if let Err(e) = no_panic(c.name, || (c.write)(&mut w))? {
        viol!(format!("{}_refused", c.name), "{}: valid product refused: {e}", c.name);
    }
    let text = String::from_utf8_lossy(&w.out).into_owned();
    let head: String = text.chars().take(1200).collect();
    if let Some(x) = (c.lint)(&text) {
        viol!(format!("{}_epoch", c.name), "{}: {x}", c.name);
    }
    let got = match no_panic(c.name, || (c.read.unwrap())(&mut SimRead::new(&w.out, ReadPlan::benign(s))))? {
        Ok(p) => p,
        Err(e) => viol!(format!("{}_unreadable", c.name), "{}: written product cannot be read back: {e}\n{head}", c.name),
    };
    s.checked();
    s.advance(w.out.len() as u64 * 1000);
    s.h(&w.out);
    s.state(crate::core::hash_bytes(format!("{}{}", c.name, w.out.len() / 16).as_bytes()));
    let kind = format!("{}_content", c.name);
    ensure!(got.head.s == c.want.head.s, kind, "{}: header {:?}, written {:?}", c.name, got.head, c.want.head);
    ensure!(got.head.n.len() == c.want.head.n.len() && got.head.n.iter().zip(&c.want.head.n).all(|(a, b)| (a - b).abs() <= 5.1e-4), kind, "{}: header numbers {:?}, written {:?}", c.name, got.head, c.want.head);
    ensure!(got.recs.len() == c.want.recs.len(), kind, "{}: {} records read, {} written\n{head}", c.name, got.recs.len(), c.want.recs.len());
    for (i, (a, b)) in got.recs.iter().zip(&c.want.recs).enumerate() {
        let same = a.s == b.s
            && a.n.len() == b.n.len()
            && a.n.iter().zip(&b.n).enumerate().all(|(j, (x, y))| (x - y).abs() <= (c.ntol)(j, *y))
            && a.t.len() == b.t.len()
            && a.t.iter().zip(&b.t).all(|(x, y)| x.abs_diff(*y) <= c.ttol as u64 + 1);
        ensure!(same, kind, "{}: record {i} read as {a:?}, written as {b:?} ({:?})", c.name, b.t.first().map(|t| Civil::from_unix_ns(*t)));
    }
    Ok(())
}

pub static C05: Prop = Prop {
    id: "C05",
    scenarios: &[("sink_faults", 9, sink_faults), ("parquet_faults", 1, parquet_faults)],
    runs_quick: 300_000,
    runs_thorough: 4_000_000,
    rule: "A run generates one product of a random kind, writes it to a healthy sink, to a sink with short writes / EINTR, and twice to a sink that fails (disk full, broken pipe, zero-length write, permission, one-off or sticky) at a random byte; non-trivial = at least one failing write was judged. Distinct = distinct hash of product, fault byte and schedule.",
    real: &["all formats writers", "pod::product writers (orbit, residual CSV, Parquet, QC JSON, manifest)", "parquet crate"],
    stub: &["file replaced by a simulated Write/Seek"],
    assumptions: &[],
};

pub static C06: Prop = Prop {
    id: "C06",
    scenarios: &[("round_trip", 1, round_trip)],
    runs_quick: 300_000,
    runs_thorough: 4_000_000,
    rule: "A run builds one product in memory (epochs clustered around minute, day and year carries, values off the format's decimal grid), writes it through a sink with short writes / EINTR, reads it back through a short-reading source and compares every field with the in-memory product at the format's documented precision; non-trivial = the product was read back. Distinct = distinct hash of product kind, size and schedule.",
    real: &["all formats writers and readers", "pod::product::orbit"],
    stub: &["file replaced by simulated Write and Read"],
    assumptions: &["values fit the fixed-width fields of the format", "UTC conversions compared with an independent leap-second table, away from the leap second itself"],
};
