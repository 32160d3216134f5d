//! C07 POD product files, C08 provenance.

use crate::core::{no_panic, Sim, R};
use crate::gen::{self, count};
use crate::io::{SimFile, SimWrite, WritePlan};
use crate::{ensure, viol, Prop};
use serde_json::Value;
use siderust::pod::product::residuals_csv::{ResidualCsvWriter, ResidualRecord};
use siderust::pod::qc::ResidualStats;
use siderust::pod::run::dataset::DatasetRef;
use siderust::pod::run::manifest::RunManifest;
use std::cell::RefCell;
use std::io::{self, Write};
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub fn residuals(s: &mut Sim) -> Vec<ResidualRecord> {
    (0..count(s, 60))
        .map(|_| ResidualRecord {
            epoch_jd_tt: 2_440_587.5 + gen::civil(s, 1000).unix_ns() as f64 / 86_400e9,
            obs_type: s.pick(&["range", "doppler", "az", "slr", "a,b", "x\"y", "\"q\"", ","]).to_string(),
            satellite: match s.below(6) {
                0 => s.ident(1, 6, "ab,\" \u{e9}"),
                _ => format!("{}{:02}", s.pick(&["G", "L", "E"]), s.int(1, 99)),
            },
            residual_m: s.f64(-100.0, 100.0) * s.pick(&[1.0, 1.0, 1e4]),
            sigma_m: s.f64(0.0, 10.0) * s.pick(&[1.0, 1.0, 1e4]),
            rejected: s.chance(1, 3),
        })
        .collect()
}

pub fn manifest(s: &mut Sim) -> RunManifest {
    let ds = |s: &mut Sim| {
        let n = s.int(0, 6);
        (0..n)
            .map(|_| {
                let data = s.ident(0, 30, "abcdefgh0123");
                let p = format!("/{}/{}", s.pick(&["in", "out", "a b", "data"]), s.ident(1, 3, "abc"));
                let k = s.pick(&["sp3", "rinex", "eop"]).to_string();
                DatasetRef::from_bytes(p, k, data.as_bytes())
            })
            .collect()
    };
    RunManifest {
        run_id: s.ident(8, 8, "0123456789abcdef"),
        tool_version: format!("siderust {}", s.ident(1, 8, "abc\"\\ \u{e9}\n")),
        config_sha256: s.ident(64, 64, "0123456789abcdef"),
        inputs: ds(s),
        outputs: ds(s),
        started_at: gen::iso(&gen::civil(s, 1_000_000_000), 0),
        finished_at: gen::iso(&gen::civil(s, 1_000_000_000), 0),
    }
}

// ---------------------------------------------------------------------------
// C07: residual CSV durability

/// A file whose writes sit in a volatile cache until `flush`; the machine dies
/// at a chosen sink call, and what survives is the flushed part plus, at most,
/// some prefix of the cache.
struct Disk {
    durable: Vec<u8>,
    cache: Vec<u8>,
    calls: usize,
    die_at: Option<usize>,
    keep: f64,
    sizes: Vec<usize>,
    image: Option<Vec<u8>>,
}

#[derive(Clone)]
struct DiskRef(Rc<RefCell<Disk>>);

impl Disk {
    fn tick(&mut self) {
        if self.image.is_none() && self.die_at == Some(self.calls) {
            let mut img = self.durable.clone();
            let k = (self.keep * (self.cache.len() + 1) as f64) as usize;
            img.extend_from_slice(&self.cache[..k.min(self.cache.len())]);
            self.image = Some(img);
        }
        self.calls += 1;
    }
}
impl Write for DiskRef {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut d = self.0.borrow_mut();
        d.tick();
        let step = d.sizes[d.calls % d.sizes.len()];
        let n = if step == 0 { b.len() } else { step.min(b.len()) };
        d.cache.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut d = self.0.borrow_mut();
        d.tick();
        let c = std::mem::take(&mut d.cache);
        d.durable.extend(c);
        Ok(())
    }
}

/// RFC 4180 field splitter.
fn csv_fields(line: &str) -> Option<Vec<String>> {
    let mut out = vec![String::new()];
    let mut it = line.chars().peekable();
    let mut q = false;
    while let Some(c) = it.next() {
        match (q, c) {
            (true, '"') if it.peek() == Some(&'"') => {
                it.next();
                out.last_mut()?.push('"');
            }
            (true, '"') => q = false,
            (false, '"') if out.last()?.is_empty() => q = true,
            (false, ',') => out.push(String::new()),
            (_, c) => out.last_mut()?.push(c),
        }
    }
    (!q).then_some(out)
}

fn same_row(f: &[String], r: &ResidualRecord) -> bool {
    let near = |t: &str, v: f64, tol: f64| t.parse::<f64>().is_ok_and(|x| (x - v).abs() <= tol);
    f.len() == 6
        && near(&f[0], r.epoch_jd_tt, 1e-9)
        && f[1] == r.obs_type
        && f[2] == r.satellite
        && near(&f[3], r.residual_m, 5.1e-7)
        && near(&f[4], r.sigma_m, 5.1e-7)
        && f[5] == r.rejected.to_string()
}

fn check_csv(img: &[u8], rows: &[ResidualRecord], acked: usize, header_acked: bool, ctx: &str) -> R {
    // Only whole lines count; the last, unterminated one is the row in flight.
    let end = img.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
    let whole = match std::str::from_utf8(&img[..end]) {
        Ok(t) => t,
        Err(_) => viol!("csv_durability", "{ctx}: surviving file is not text"),
    };
    let mut lines = whole.lines();
    match lines.next() {
        Some(h) => ensure!(h == "epoch_jd_tt,obs_type,satellite,residual_m,sigma_m,rejected", "csv_header", "{ctx}: header line is {h:?}"),
        None => {
            ensure!(!header_acked, "csv_durability", "{ctx}: the header was acknowledged but did not survive");
            return Ok(());
        }
    }
    let got: Vec<&str> = lines.collect();
    ensure!(got.len() >= acked, "csv_durability", "{ctx}: {acked} rows were acknowledged, {} survive", got.len());
    ensure!(got.len() <= (acked + 1).min(rows.len()), "csv_invented", "{ctx}: {} rows survive, {acked} acknowledged", got.len());
    for (i, l) in got.iter().enumerate() {
        let ok = csv_fields(l).is_some_and(|f| same_row(&f, &rows[i]));
        ensure!(ok, "csv_row", "{ctx}: row {i} reads {l:?}, written as {:?}", rows[i]);
    }
    Ok(())
}

fn csv_crash(s: &mut Sim) -> R {
    let rows = residuals(s);
    let nmax = 4 + rows.len() * 30;
    let die_at = s.chance(9, 10).then(|| s.idx(nmax));
    let sizes = match s.below(3) {
        0 => vec![0],
        1 => vec![1 + s.idx(20), 0],
        _ => (0..4).map(|_| 1 + s.idx(40)).collect(),
    };
    let keep = if s.chance(1, 2) { 0.0 } else { s.unit() };
    let disk = DiskRef(Rc::new(RefCell::new(Disk { durable: vec![], cache: vec![], calls: 0, die_at, keep, sizes, image: None })));
    let dead = |d: &DiskRef| d.0.borrow().image.is_some();
    let mut acked = 0;
    let mut header = false;
    let w = no_panic("ResidualCsvWriter::new", || ResidualCsvWriter::new(disk.clone()))?;
    match w {
        Ok(mut w) => {
            header = !dead(&disk);
            for r in &rows {
                if dead(&disk) {
                    break;
                }
                match no_panic("write_record", || w.write_record(r))? {
                    Ok(()) if !dead(&disk) => acked += 1,
                    Ok(()) => {}
                    Err(e) => viol!("csv_refused", "healthy sink, but write_record failed: {e}"),
                }
                s.advance(1_000_000);
            }
        }
        Err(e) => viol!("csv_refused", "healthy sink, but the writer failed: {e}"),
    }
    let d = disk.0.borrow();
    let img = match &d.image {
        Some(i) => {
            s.fault("crash");
            i.clone()
        }
        // No crash during the writes: power is lost right after the last acknowledgement.
        None => {
            s.fault("crash_after_last_ack");
            d.durable.clone()
        }
    };
    s.checked();
    s.h(&img);
    s.state((acked as u64) << 32 | img.len() as u64);
    let full = d.image.is_none();
    drop(d);
    check_csv(&img, &rows, acked, header, &format!("crash at sink call {die_at:?} after {acked} acknowledged rows"))?;
    if full {
        ensure!(acked == rows.len(), "csv_durability", "{} rows written, {acked} acknowledged", rows.len());
    }
    Ok(())
}

/// The sink starts to fail: the failure is reported and acknowledged rows stay.
fn csv_failing(s: &mut Sim) -> R {
    let rows = residuals(s);
    let mut plain = Vec::new();
    {
        let mut w = ResidualCsvWriter::new(&mut plain).unwrap();
        for r in &rows {
            let _ = w.write_record(r);
        }
    }
    let plan = WritePlan::benign(s).with_failure(s, plain.len() + 20);
    let mut sink = SimWrite::new(plan);
    let mut acked = 0;
    let mut failed = false;
    let mut header = false;
    if let Ok(mut w) = no_panic("ResidualCsvWriter::new", || ResidualCsvWriter::new(&mut sink))? {
        header = true;
        for r in &rows {
            match no_panic("write_record", || w.write_record(r))? {
                Ok(()) => acked += 1,
                Err(_) => {
                    failed = true;
                    break;
                }
            }
        }
    } else {
        failed = true;
    }
    s.checked();
    s.h(&sink.out);
    s.state((acked as u64) << 32 | sink.out.len() as u64);
    ensure!((sink.failed > 0) == failed, "csv_swallowed", "sink failures: {}, reported: {failed}", sink.failed);
    let img = sink.out.clone();
    check_csv(&img, &rows, acked, header, &format!("sink failed after {} bytes", img.len()))
}

// ---------------------------------------------------------------------------
// C07: Parquet table

fn parquet_rows(data: Vec<u8>) -> Result<Vec<ResidualRecord>, String> {
    use parquet::data_type::{BoolType, ByteArrayType, DoubleType};
    use parquet::file::reader::{FileReader, SerializedFileReader};
    let e = |e: parquet::errors::ParquetError| e.to_string();
    let f = SerializedFileReader::new(bytes::Bytes::from(data)).map_err(e)?;
    let names: Vec<String> = f.metadata().file_metadata().schema_descr().columns().iter().map(|c| c.name().to_string()).collect();
    let want = ["epoch_jd_tt", "obs_type", "satellite", "residual_m", "sigma_m", "rejected"];
    if names != want {
        return Err(format!("columns {names:?}"));
    }
    let total = f.metadata().file_metadata().num_rows() as usize;
    let mut out: Vec<ResidualRecord> = Vec::new();
    for g in 0..f.num_row_groups() {
        let rg = f.get_row_group(g).map_err(e)?;
        let n = rg.metadata().num_rows() as usize;
        macro_rules! col {
            ($i:expr, $t:ty) => {{
                let mut v = Vec::new();
                let mut r = parquet::column::reader::get_typed_column_reader::<$t>(rg.get_column_reader($i).map_err(e)?);
                while v.len() < n {
                    let (a, _, _) = r.read_records(n - v.len(), None, None, &mut v).map_err(e)?;
                    if a == 0 {
                        return Err(format!("column {} holds {} of {n} values", $i, v.len()));
                    }
                }
                v
            }};
        }
        let (ep, ob, sa) = (col!(0, DoubleType), col!(1, ByteArrayType), col!(2, ByteArrayType));
        let (re, si, rj) = (col!(3, DoubleType), col!(4, DoubleType), col!(5, BoolType));
        for i in 0..n {
            out.push(ResidualRecord {
                epoch_jd_tt: ep[i],
                obs_type: ob[i].as_utf8().map_err(e)?.to_string(),
                satellite: sa[i].as_utf8().map_err(e)?.to_string(),
                residual_m: re[i],
                sigma_m: si[i],
                rejected: rj[i],
            });
        }
    }
    if out.len() != total {
        return Err(format!("{} rows in groups, {total} in the footer", out.len()));
    }
    Ok(out)
}

fn same_bits(a: &ResidualRecord, b: &ResidualRecord) -> bool {
    a.epoch_jd_tt.to_bits() == b.epoch_jd_tt.to_bits()
        && a.obs_type == b.obs_type
        && a.satellite == b.satellite
        && a.residual_m.to_bits() == b.residual_m.to_bits()
        && a.sigma_m.to_bits() == b.sigma_m.to_bits()
        && a.rejected == b.rejected
}

fn parquet_table(s: &mut Sim) -> R {
    use siderust::pod::product::residuals_parquet::ResidualParquetWriter;
    let mut rows = residuals(s);
    if s.chance(1, 12) {
        let extra = s.idx(4000);
        for k in 0..extra {
            let mut r = rows.first().cloned().unwrap_or(ResidualRecord { epoch_jd_tt: 2.4e6, obs_type: "x".into(), satellite: "y".into(), residual_m: 0.0, sigma_m: 1.0, rejected: false });
            r.epoch_jd_tt += k as f64;
            rows.push(r);
        }
    }
    for r in &mut rows {
        if s.chance(1, 8) {
            r.residual_m = *s.pick(&[f64::NAN, f64::INFINITY, -0.0, 5e-324, f64::MAX]);
        }
        if s.chance(1, 10) {
            r.obs_type = s.ident(0, 12, "ab,\"\n\u{e9}\u{1f6f0} ");
        }
    }
    let mut w = ResidualParquetWriter::new(SimFile::new(WritePlan::benign(s)));
    for r in &rows {
        w.push(r.clone());
    }
    let f = match no_panic("ResidualParquetWriter::finish", || w.finish())? {
        Ok(f) => f,
        Err(e) => viol!("parquet_refused", "{} rows refused by a healthy sink: {e}", rows.len()),
    };
    s.checked();
    s.h(&f.w.out);
    s.state(rows.len() as u64);
    let img = f.w.out;
    match parquet_rows(img.clone()) {
        Err(e) => viol!("parquet_unreadable", "{} rows: {e}", rows.len()),
        Ok(got) => {
            ensure!(got.len() == rows.len(), "parquet_content", "{} rows pushed, {} stored", rows.len(), got.len());
            for (i, (a, b)) in got.iter().zip(&rows).enumerate() {
                ensure!(same_bits(a, b), "parquet_content", "row {i} stored as {a:?}, pushed as {b:?}");
            }
        }
    }
    // A crash before the end of the file never leaves something that passes for the table.
    let cut = s.idx(img.len());
    s.fault("crash");
    ensure!(no_panic("parquet reader", || parquet_rows(img[..cut].to_vec()))?.is_err(), "parquet_torn", "table torn at byte {cut} of {} still opens", img.len());
    Ok(())
}

// ---------------------------------------------------------------------------
// C07: path writers (real file system, scratch directory)

static DIRS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        let base = std::env::var_os("SIDSIM_SCRATCH").map(PathBuf::from).unwrap_or_else(|| std::env::temp_dir().join(format!("sidsim-replay-{}", std::process::id())));
        let p = base.join(DIRS.fetch_add(1, std::sync::atomic::Ordering::Relaxed).to_string());
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
        if let Some(b) = self.0.parent() {
            let _ = std::fs::remove_dir(b);
        }
    }
}

type PathWrite = Box<dyn Fn(&Path) -> Result<(), String>>;

fn path_case(s: &mut Sim) -> (&'static str, PathWrite, Vec<u8>) {
    use siderust::astro::dynamics::{SpacecraftProperties, SpacecraftState};
    use siderust::pod::product::orbit as o;
    let e = |e: &dyn std::fmt::Display| e.to_string();
    let n = count(s, 40).max(1);
    let t0 = gen::civil_days(s.int(1995, 2030), s.int(1, 12), 2) * 86_400_000_000_000 + s.int(0, 20 * 86_400) * 1_000_000_000;
    let (orb, _) = super::writers::orbit_states(s, t0, 30_000_000_000, n);
    let sc: Vec<SpacecraftState> = orb.iter().map(|o| SpacecraftState { orbit: *o, properties: SpacecraftProperties::demo_leo() }).collect();
    let mut mem = Vec::new();
    match s.below(3) {
        0 => {
            let sat = format!("L{:02}", s.int(1, 99));
            let _ = o::write_sp3_from_states(&mut mem, &sat, &orb);
            ("Sp3ProductWriter", Box::new(move |p| o::Sp3ProductWriter::new(sat.clone()).write_from_states(p, &sc).map_err(|x| e(&x))), mem)
        }
        1 => {
            let _ = o::write_oem_from_states(&mut mem, "2024-001A", "SAT", &orb);
            ("OemProductWriter", Box::new(move |p| o::OemProductWriter::new("2024-001A", "SAT").write_from_states(p, &sc).map_err(|x| e(&x))), mem)
        }
        _ => {
            let f = super::writers::gen_nav(s);
            let _ = siderust::formats::rinex::nav::write_rinex_nav(&mut mem, &f);
            ("write_rinex_nav_to_path", Box::new(move |p| siderust::formats::rinex::nav::write_rinex_nav_to_path(p, &f).map_err(|x| e(&x))), mem)
        }
    }
}

fn path_writers(s: &mut Sim) -> R {
    let (name, write, mem) = path_case(s);
    let dir = Scratch::new();
    s.note(format!("{name}: {} bytes", mem.len()));
    s.h(&mem);
    let p = dir.0.join("out.txt");
    let mut steps = 1 + s.idx(4);
    while steps > 0 {
        steps -= 1;
        match s.below(6) {
            0 => {
                s.fault("missing_directory");
                ensure!(no_panic(name, || write(&dir.0.join("no/such/dir/x")))?.is_err(), format!("{name}_swallowed"), "{name}: missing directory reported as success");
            }
            1 => {
                s.fault("target_is_directory");
                ensure!(no_panic(name, || write(&dir.0))?.is_err(), format!("{name}_swallowed"), "{name}: writing onto a directory reported as success");
            }
            2 if !mem.is_empty() && Path::new("/dev/full").exists() => {
                s.fault("disk_full");
                ensure!(no_panic(name, || write(Path::new("/dev/full")))?.is_err(), format!("{name}_swallowed"), "{name}: full disk reported as success");
            }
            k => {
                if k == 3 {
                    // An older, longer file is in the way.
                    let mut old = mem.clone();
                    old.extend_from_slice(&vec![b'#'; 1 + s.idx(3000)]);
                    std::fs::write(&p, old).unwrap();
                    s.fault("older_longer_file");
                }
                if let Err(e) = no_panic(name, || write(&p))? {
                    viol!(format!("{name}_refused"), "{name}: {e}");
                }
                let got = std::fs::read(&p).unwrap_or_default();
                ensure!(got == mem, format!("{name}_bytes"), "{name}: file holds {} bytes, the product has {} (first difference at {:?})", got.len(), mem.len(), got.iter().zip(&mem).position(|(a, b)| a != b));
            }
        }
        s.checked();
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C08: manifests, digests, QC

/// SHA-256, straight from FIPS 180-4.
pub fn sha256(data: &[u8]) -> String {
    let primes: Vec<u64> = (2u64..).filter(|n| (2..*n).take_while(|d| d * d <= *n).all(|d| n % d != 0)).take(64).collect();
    let root = |p: u64, k: u32| -> u32 {
        // floor(frac(p^(1/k)) * 2^32) with integer arithmetic
        let t = (p as u128) << (32 * k);
        let (mut lo, mut hi) = (0u128, 1u128 << 36);
        while lo + 1 < hi {
            let m = (lo + hi) / 2;
            if m.pow(k) <= t {
                lo = m;
            } else {
                hi = m;
            }
        }
        lo as u32
    };
    static K: std::sync::OnceLock<(Vec<u32>, Vec<u32>)> = std::sync::OnceLock::new();
    let (k, h0) = K.get_or_init(|| (primes.iter().map(|p| root(*p, 3)).collect(), primes[..8].iter().map(|p| root(*p, 2)).collect()));
    let mut h: Vec<u32> = h0.clone();
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&(8 * data.len() as u64).to_be_bytes());
    for b in m.chunks(64) {
        let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
        for t in 16..64 {
            let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
            let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
            w.push(w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for t in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[t]).wrapping_add(w[t]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().map(|x| format!("{x:08x}")).collect()
}

/// Just enough of JSON Schema draft-07 for the two embedded schemas.
fn schema_error(root: &Value, sch: &Value, v: &Value, at: &str) -> Option<String> {
    if let Some(r) = sch["$ref"].as_str() {
        let p = r.trim_start_matches('#');
        return schema_error(root, root.pointer(p)?, v, at);
    }
    if let Some(c) = sch.get("const") {
        if c != v {
            return Some(format!("{at}: {v} is not {c}"));
        }
    }
    let ok = match sch["type"].as_str() {
        Some("object") => v.is_object(),
        Some("array") => v.is_array(),
        Some("string") => v.is_string(),
        Some("integer") => v.is_u64() || v.is_i64(),
        Some("number") => v.is_number(),
        _ => true,
    };
    if !ok {
        return Some(format!("{at}: {v} has the wrong type"));
    }
    if let (Some(m), Some(x)) = (sch["minimum"].as_f64(), v.as_f64()) {
        if x < m {
            return Some(format!("{at}: {x} below {m}"));
        }
    }
    if let (Some(m), Some(x)) = (sch["minLength"].as_u64(), v.as_str()) {
        if (x.chars().count() as u64) < m {
            return Some(format!("{at}: too short"));
        }
    }
    if let (Some("^[0-9a-f]{64}$"), Some(x)) = (sch["pattern"].as_str(), v.as_str()) {
        if x.len() != 64 || !x.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b)) {
            return Some(format!("{at}: {x:?} is no SHA-256"));
        }
    }
    if let Some(o) = v.as_object() {
        for r in sch["required"].as_array().into_iter().flatten() {
            if !o.contains_key(r.as_str()?) {
                return Some(format!("{at}: {r} missing"));
            }
        }
        for (k, x) in o {
            match sch["properties"].get(k) {
                Some(p) => {
                    if let Some(e) = schema_error(root, p, x, &format!("{at}/{k}")) {
                        return Some(e);
                    }
                }
                None if sch["additionalProperties"] == Value::Bool(false) => return Some(format!("{at}: unexpected {k}")),
                None => {}
            }
        }
    }
    if let (Some(a), Some(it)) = (v.as_array(), sch.get("items")) {
        for (i, x) in a.iter().enumerate() {
            if let Some(e) = schema_error(root, it, x, &format!("{at}/{i}")) {
                return Some(e);
            }
        }
    }
    None
}

fn dedup(v: &mut Vec<DatasetRef>) {
    let mut seen = std::collections::HashSet::new();
    v.retain(|d| seen.insert((d.kind.clone(), d.path.clone())));
}

fn manifests(s: &mut Sim) -> R {
    use siderust::pod::product::ManifestWriter;
    use siderust::pod::run::manifest::RUN_MANIFEST_SCHEMA_V1;
    let mut m = manifest(s);
    dedup(&mut m.inputs);
    dedup(&mut m.outputs);
    let write = |m: &RunManifest, plan: WritePlan| -> R<Vec<u8>> {
        let mut w = SimWrite::new(plan);
        match no_panic("ManifestWriter::write", || ManifestWriter::write(&mut w, m))? {
            Ok(()) => Ok(w.out),
            Err(e) => viol!("manifest_refused", "{e}"),
        }
    };
    let a = write(&m, WritePlan::benign(s))?;
    let mut back: RunManifest = match serde_json::from_slice(&a) {
        Ok(x) => x,
        Err(e) => viol!("manifest_unreadable", "{e}: {}", String::from_utf8_lossy(&a)),
    };
    s.checked();
    s.h(&a);
    s.state((m.inputs.len() * 64 + m.outputs.len()) as u64);
    // Documented order, independent of the library's own sort.
    let sorted = |v: &[DatasetRef]| v.windows(2).all(|w| (&w[0].kind, &w[0].path) < (&w[1].kind, &w[1].path));
    ensure!(sorted(&back.inputs) && sorted(&back.outputs), "manifest_order", "datasets are not in (kind, path) order: {}", String::from_utf8_lossy(&a));
    let sch: Value = serde_json::from_str(RUN_MANIFEST_SCHEMA_V1).unwrap();
    let v: Value = serde_json::from_slice(&a).unwrap();
    if let Some(e) = schema_error(&sch, &sch, &v, "") {
        viol!("manifest_schema", "{e}: {v}");
    }
    // Nothing lost or invented (order aside).
    let norm = |mut x: RunManifest| {
        x.inputs.sort_by(|a, b| (&a.kind, &a.path).cmp(&(&b.kind, &b.path)));
        x.outputs.sort_by(|a, b| (&a.kind, &a.path).cmp(&(&b.kind, &b.path)));
        x
    };
    back = norm(back);
    ensure!(back == norm(m.clone()), "manifest_content", "read back {back:?}\nwritten {m:?}");
    // The order in which the run met its datasets must not show.
    for _ in 0..3 {
        let mut n = m.clone();
        s.shuffle(&mut n.inputs);
        s.shuffle(&mut n.outputs);
        s.fault("completion_reordering");
        let b = write(&n, WritePlan::benign(s))?;
        ensure!(b == a, "manifest_bytes", "manifest bytes depend on dataset order");
        s.checked();
    }
    Ok(())
}

fn digests(s: &mut Sim) -> R {
    let n = match s.below(4) {
        0 => s.idx(4),
        1 => 50 + s.idx(20),
        2 => s.idx(5000),
        _ => s.idx(200),
    };
    let seed = s.u64();
    let mut rng = crate::core::Rng::new(seed);
    let data: Vec<u8> = (0..n).map(|_| rng.next() as u8).collect();
    let want = sha256(&data);
    let dir = Scratch::new();
    let p = dir.0.join("data.bin");
    let kind = s.ident(1, 4, "abc").to_string();
    let judge = |d: &DatasetRef, how: &str| -> R {
        ensure!(d.bytes == n as u64 && d.sha256 == want && d.kind == kind && d.path == p, "digest", "{how}: {d:?}, expected {n} bytes {want}");
        Ok(())
    };
    judge(&DatasetRef::from_bytes(&p, kind.clone(), &data), "from_bytes")?;
    s.h(want.as_bytes());
    s.state(n as u64);
    match s.below(3) {
        0 => {
            s.fault("file_missing");
            ensure!(no_panic("from_file", || DatasetRef::from_file(&p, "x"))?.is_err(), "digest_missing", "digest of a missing file");
            ensure!(no_panic("from_file", || DatasetRef::from_file(&dir.0, "x"))?.is_err(), "digest_missing", "digest of a directory");
        }
        k => {
            std::fs::write(&p, &data).unwrap();
            match no_panic("from_file", || DatasetRef::from_file(&p, kind.clone()))? {
                Ok(d) => judge(&d, "from_file")?,
                Err(e) => viol!("digest", "from_file: {e}"),
            }
            if k == 2 {
                // The file changes after the first digest: the next one must tell.
                let mut d2 = data.clone();
                d2.push(1);
                std::fs::write(&p, &d2).unwrap();
                s.fault("file_replaced");
                let d = DatasetRef::from_file(&p, kind.clone()).map_err(|e| crate::core::Viol { kind: "digest".into(), msg: e.to_string() })?;
                ensure!(d.bytes == n as u64 + 1 && d.sha256 == sha256(&d2), "digest", "stale digest after the file changed");
            }
        }
    }
    s.checked();
    Ok(())
}

fn close(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 1e-10 * scale.abs().max(1e-300)
}

fn stats_ok(g: &ResidualStats, v: &[f64]) -> Option<String> {
    let n = v.len();
    if n == 0 {
        return (g.n != 0 || g.mean != 0.0 || g.rms != 0.0 || g.std != 0.0).then(|| format!("empty group: {g:?}"));
    }
    let nn = n as f64;
    // Neumaier-compensated reference sums.
    let csum = |it: &mut dyn Iterator<Item = f64>| {
        let (mut s, mut c) = (0.0f64, 0.0f64);
        for x in it {
            let t = s + x;
            c += if s.abs() >= x.abs() { (s - t) + x } else { (x - t) + s };
            s = t;
        }
        s + c
    };
    let mean = csum(&mut v.iter().copied()) / nn;
    let rms = (csum(&mut v.iter().map(|x| x * x)) / nn).sqrt();
    let std = if n > 1 { (csum(&mut v.iter().map(|x| (x - mean) * (x - mean))) / (nn - 1.0)).sqrt() } else { 0.0 };
    let min = v.iter().copied().fold(f64::INFINITY, f64::min);
    let max = v.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    let ok = g.n == n && close(g.mean, mean, rms) && close(g.rms, rms, rms) && (g.std - std).abs() <= 1e-8 * rms && g.min == min && g.max == max;
    (!ok).then(|| format!("{g:?}, expected n={n} mean={mean} std={std} rms={rms} min={min} max={max}"))
}

fn qc(s: &mut Sim) -> R {
    use siderust::pod::product::qc_json::{write_qc_json, QcDocument};
    use siderust::pod::qc::{rtn_diff, rtn_summary, ResidualsByGroup, SlrValidationReport};
    let n = count(s, 80);
    let groups: Vec<String> = (0..1 + s.idx(5)).map(|i| format!("{}{i}", s.pick(&["G", "range", "a b", "\u{e9}"]))).collect();
    let bias = *s.pick(&[0.0, 0.0, 1e3, -1e-3]);
    let mut pairs: Vec<(String, f64)> = (0..n).map(|_| (s.pick(&groups).clone(), if s.chance(1, 10) { 0.0 } else { bias + s.f64(-5.0, 5.0) })).collect();
    let by = ResidualsByGroup::from_pairs(pairs.iter().map(|(g, v)| (g.as_str(), *v)));
    let all: Vec<f64> = pairs.iter().map(|p| p.1).collect();
    s.checked();
    s.state(n as u64 * 8 + by.groups.len() as u64);
    if let Some(e) = stats_ok(&by.overall, &all) {
        viol!("qc_stats", "overall: {e}");
    }
    let mut tot = 0;
    for (g, st) in &by.groups {
        let v: Vec<f64> = pairs.iter().filter(|p| p.0 == *g).map(|p| p.1).collect();
        ensure!(!v.is_empty(), "qc_groups", "invented group {g:?}");
        tot += st.n;
        if let Some(e) = stats_ok(st, &v) {
            viol!("qc_stats", "group {g}: {e}");
        }
    }
    ensure!(tot == n, "qc_groups", "groups hold {tot} of {n} residuals");
    // Arrival order does not matter.
    s.shuffle(&mut pairs);
    s.fault("reordered_arrivals");
    let by2 = ResidualsByGroup::from_pairs(pairs.iter().map(|(g, v)| (g.as_str(), *v)));
    ensure!(by2.groups.keys().eq(by.groups.keys()), "qc_order", "groups depend on arrival order");
    for (g, a) in &by.groups {
        let b = &by2.groups[g];
        ensure!(a.n == b.n && a.min == b.min && a.max == b.max && close(a.rms, b.rms, a.rms) && close(a.mean, b.mean, a.rms), "qc_order", "group {g}: {a:?} vs {b:?}");
    }
    // Laser-ranging validation keeps every residual, in order.
    let slr: Vec<(f64, f64)> = pairs.iter().enumerate().map(|(i, p)| (2.45e6 + i as f64, p.1)).collect();
    let rep = SlrValidationReport::from_pairs(slr.iter().copied());
    ensure!(rep.residuals.len() == n && rep.residuals.iter().zip(&slr).all(|(a, b)| a.jd_tt == b.0 && a.residual_m == b.1), "qc_slr", "SLR residuals lost or reordered");
    if let Some(e) = stats_ok(&rep.stats, &slr.iter().map(|x| x.1).collect::<Vec<_>>()) {
        viol!("qc_stats", "SLR: {e}");
    }
    // The JSON document reads back with the same numbers.
    let doc = QcDocument {
        schema_version: "1".into(),
        run_id: s.ident(1, 8, "abc\"\\\n\u{e9}"),
        software_version: "v".into(),
        n_obs: n,
        n_params: s.idx(20),
        reduced_chi2: s.f64(0.0, 10.0),
        iterations: s.idx(20),
        residuals: by.clone(),
    };
    let mut w = SimWrite::new(WritePlan::benign(s));
    if let Err(e) = no_panic("write_qc_json", || write_qc_json(&mut w, &doc))? {
        viol!("qc_json", "{e}");
    }
    let v: Value = match serde_json::from_slice(&w.out) {
        Ok(v) => v,
        Err(e) => viol!("qc_json", "unreadable: {e}"),
    };
    let back: ResidualsByGroup = match serde_json::from_value(v["residuals"].clone()) {
        Ok(b) => b,
        Err(e) => viol!("qc_json", "residual block unreadable: {e}"),
    };
    // serde_json may read a decimal one unit in the last place off.
    let ulp = |a: f64, b: f64| (a - b).abs() <= 1e-15 * a.abs();
    let same = |a: &ResidualStats, b: &ResidualStats| a.n == b.n && ulp(a.mean, b.mean) && ulp(a.std, b.std) && ulp(a.rms, b.rms) && ulp(a.min, b.min) && ulp(a.max, b.max);
    ensure!(
        same(&back.overall, &by.overall) && back.groups.len() == by.groups.len() && by.groups.iter().all(|(k, x)| back.groups.get(k).is_some_and(|y| same(x, y))),
        "qc_json",
        "QC document reads back differently"
    );
    ensure!(v["run_id"] == doc.run_id && v["n_obs"] == doc.n_obs && v["n_params"] == doc.n_params && v["iterations"] == doc.iterations && v["reduced_chi2"].as_f64().is_some_and(|x| (x - doc.reduced_chi2).abs() <= 1e-15 * doc.reduced_chi2), "qc_json", "QC header fields changed");
    s.h(&w.out);
    // Orbit comparison in the radial / transverse / normal frame.
    let m = 1 + s.idx(20);
    let mut est = Vec::new();
    let mut refr = Vec::new();
    let mut want: Vec<[f64; 3]> = Vec::new();
    use siderust::astro::dynamics::{OrbitState, Position, Velocity};
    for i in 0..m {
        let r: [f64; 3] = std::array::from_fn(|_| s.f64(-1.0, 1.0) * 20_000.0);
        let v: [f64; 3] = std::array::from_fn(|_| s.f64(-1.0, 1.0) * 7.0);
        let d: [f64; 3] = std::array::from_fn(|_| s.f64(-1.0, 1.0) * 0.05);
        let (rn, h) = (norm(r), cross(r, v));
        if rn < 100.0 || norm(h) < 1e-3 * rn * norm(v) {
            continue;
        }
        let rh = r.map(|x| x / rn);
        let nh = h.map(|x| x / norm(h));
        let th = cross(nh, rh);
        let ep = siderust::time::JulianDate::new(2_460_000.5 + i as f64 / 96.0).to_j2000s();
        refr.push(OrbitState::new(ep, Position::new(r[0], r[1], r[2]), Velocity::new(v[0], v[1], v[2])));
        est.push(OrbitState::new(ep, Position::new(r[0] + d[0], r[1] + d[1], r[2] + d[2]), Velocity::new(v[0], v[1], v[2])));
        let dd: [f64; 3] = std::array::from_fn(|k| (r[k] + d[k]) - r[k]);
        want.push([dot(dd, rh), dot(dd, th), dot(dd, nh)].map(|x| x * 1000.0));
    }
    // One of the two arcs may have stopped early.
    if s.chance(1, 3) && !est.is_empty() {
        let k = s.idx(est.len());
        if s.chance(1, 2) {
            est.truncate(k);
        } else {
            refr.truncate(k);
        }
        want.truncate(k);
        s.fault("truncated_arc");
    }
    let diffs = no_panic("rtn_diff", || rtn_diff(&est, &refr))?;
    ensure!(diffs.len() == want.len(), "qc_rtn", "{} differences for {} common epochs", diffs.len(), want.len());
    for (d, w) in diffs.iter().zip(&want) {
        ensure!((d.r_m - w[0]).abs() < 1e-6 && (d.t_m - w[1]).abs() < 1e-6 && (d.n_m - w[2]).abs() < 1e-6, "qc_rtn", "{d:?}, expected {w:?}");
    }
    let sm = rtn_summary(&diffs);
    let k = want.len().max(1) as f64;
    let rms: [f64; 3] = std::array::from_fn(|i| (want.iter().map(|w| w[i] * w[i]).sum::<f64>() / k).sqrt());
    let r3 = (rms[0] * rms[0] + rms[1] * rms[1] + rms[2] * rms[2]).sqrt();
    ensure!(
        sm.n == want.len() && (sm.rms_r_m - rms[0]).abs() < 1e-6 && (sm.rms_t_m - rms[1]).abs() < 1e-6 && (sm.rms_n_m - rms[2]).abs() < 1e-6 && (sm.rms_3d_m - r3).abs() < 1e-6,
        "qc_rtn",
        "{sm:?}, expected {rms:?} / {r3}"
    );
    Ok(())
}

pub fn norm(a: [f64; 3]) -> f64 {
    dot(a, a).sqrt()
}
pub fn dot(a: [f64; 3], b: [f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}

pub static C07: Prop = Prop {
    id: "C07",
    scenarios: &[("csv_crash", 6, csv_crash), ("csv_failing", 3, csv_failing), ("parquet", 3, parquet_table), ("paths", 1, path_writers)],
    runs_quick: 80_000,
    runs_thorough: 2_000_000,
    rule: "csv_crash: residual rows streamed to a file with a volatile cache, power lost at a random sink call (or right after the last acknowledgement), survivors compared with the acknowledged rows; csv_failing: sink failing at a random byte; parquet: table read back bit for bit with the parquet crate, and torn at a random byte; paths: product writers against missing directories, directories, /dev/full and longer older files in a scratch directory. Non-trivial = at least one judged image. Distinct = distinct hash of surviving bytes and fault placement.",
    real: &["pod::product::residuals_csv", "pod::product::residuals_parquet", "pod::product::orbit", "formats::rinex::nav::write_rinex_nav_to_path", "parquet crate", "file system (paths scenario only)"],
    stub: &["file cache and power loss (simulated Write/Seek)"],
    assumptions: &["flush makes the bytes handed over so far durable, as documented by the writer"],
};

pub static C08: Prop = Prop {
    id: "C08",
    scenarios: &[("manifests", 3, manifests), ("digests", 2, digests), ("qc", 4, qc)],
    runs_quick: 80_000,
    runs_thorough: 2_000_000,
    rule: "manifests: one run record written under several completion orders of its datasets and read back; digests: dataset digests of in-memory and on-disk data (missing, replaced) against an independent SHA-256; qc: residual statistics, SLR report, RTN comparison and the QC document against independently computed values, with arrivals reordered and arcs truncated. Distinct = distinct hash of the produced documents.",
    real: &["pod::run", "pod::product::{manifest,qc_json}", "pod::qc", "serde_json", "sha2"],
    stub: &["sink (simulated Write)"],
    assumptions: &["dataset (kind, path) pairs are unique within a run", "finite residuals", "reference orbits with a defined RTN frame"],
};
