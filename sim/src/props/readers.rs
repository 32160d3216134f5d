//! C01 delivery independence, C02 failing inputs, C03 torn / corrupted inputs,
//! C04 streaming vs batch precise-orbit reading.

use crate::core::{no_panic, Sim, R};
use crate::gen::{self, parsed_diff, rec_eq, Doc, Fmt, Parsed};
use crate::io::{self, ReadPlan, SimRead};
use crate::Prop;

fn pick_fmt(s: &mut Sim, text: bool) -> &'static Fmt {
    let n = gen::STREAM.len() + if text { gen::TEXT.len() } else { 0 };
    let i = s.idx(n);
    let f = if i < gen::STREAM.len() { &gen::STREAM[i] } else { &gen::TEXT[i - gen::STREAM.len()] };
    s.note(format!("format {}", f.name));
    f
}

fn read_plain(f: &Fmt, b: &[u8]) -> R<Result<Parsed, String>> {
    no_panic(f.name, || (f.read)(&mut SimRead::new(b, ReadPlan::plain())))
}

// C01 ---------------------------------------------------------------------

fn delivery(s: &mut Sim) -> R {
    let f = pick_fmt(s, true);
    let mut d = (f.gen)(s);
    let damaged = s.chance(1, 6);
    if damaged {
        io::corrupt(s, &mut d.bytes);
    }
    let base = match no_panic(f.name, || (f.read)(&mut SimRead::new(&d.bytes, ReadPlan::plain()))) {
        Ok(b) => b,
        // Robustness against damage is C03's business.
        Err(_) if damaged => return Ok(()),
        Err(e) => return Err(e),
    };
    if !damaged {
        match &base {
            Ok(p) => {
                if let Some(x) = parsed_diff(p, &d.expect, f.tol) {
                    viol!(format!("{}_content", f.name), "{}: product content misread: {x}\n{}", f.name, String::from_utf8_lossy(&d.bytes[..d.bytes.len().min(1500)]));
                }
            }
            Err(e) => viol!(format!("{}_rejected", f.name), "{}: well-formed product rejected: {e}\n{}", f.name, String::from_utf8_lossy(&d.bytes[..d.bytes.len().min(1500)])),
        }
    }
    s.checked();
    for _ in 0..3 {
        let plan = ReadPlan::benign(s);
        s.note(format!("{} bytes delivered as {:?}", d.bytes.len(), plan.sizes));
        let got = no_panic(f.name, || (f.read)(&mut SimRead::new(&d.bytes, plan.clone())))?;
        s.checked();
        s.advance(d.bytes.len() as u64 * 1_000);
        match (&got, &base) {
            (Ok(a), Ok(b)) => ensure!(format!("{a:?}") == format!("{b:?}"), format!("{}_delivery", f.name), "{}: result depends on delivery {plan:?}: {:?}", f.name, parsed_diff(a, b, 0)),
            (Err(_), Err(_)) => {}
            (a, b) => viol!(format!("{}_delivery", f.name), "{}: delivery {plan:?} turns {:?} into {:?}", f.name, b.as_ref().map(|p| p.recs.len()), a.as_ref().map(|p| p.recs.len())),
        }
    }
    s.state(crate::core::hash_bytes(format!("{}{}", f.name, d.bytes.len() / 64).as_bytes()));
    Ok(())
}

/// The same bytes read twice give the same product in the same order.
fn repeatable(s: &mut Sim) -> R {
    let d = gen::sinex_doc(s);
    let mode = siderust::formats::ParseMode::Strict;
    let first = gen::sinex_read_mode(&mut &d.bytes[..], mode, false);
    for _ in 0..4 {
        let again = gen::sinex_read_mode(&mut &d.bytes[..], mode, false);
        s.checked();
        ensure!(format!("{first:?}") == format!("{again:?}"), "sinex_order", "SINEX: reading the same bytes twice gives stations in a different order");
    }
    s.note(format!("sinex {} bytes read five times", d.bytes.len()));
    Ok(())
}

pub static C01: Prop = Prop {
    id: "C01",
    scenarios: &[("delivery", 9, delivery), ("repeatable", 1, repeatable)],
    runs_quick: 300_000,
    runs_thorough: 6_000_000,
    rule: "A run generates one product file of a random format with an independent emitter that also records the encoded values (some then damaged), reads it whole, then re-reads it three times under random short-read / EINTR delivery schedules; non-trivial = at least one schedule was compared. Distinct = distinct hash of format, size and schedule.",
    real: &["formats::{igs,ccsds,rinex,iers,vlbi,ilrs} readers", "catalogs::ingest", "tempoch UTC conversion", "std BufReader"],
    stub: &["file/socket replaced by a simulated Read"],
    assumptions: &["products are generated from the field grammar in sim/src/gen.rs", "instants compared within 2 µs (100 µs where the API stores a Julian date in one f64)"],
};

// C02 ---------------------------------------------------------------------

fn failing_input(s: &mut Sim) -> R {
    let f = pick_fmt(s, false);
    let d = (f.gen)(s);
    let full = match read_plain(f, &d.bytes)? {
        Ok(p) => p,
        Err(e) => viol!(format!("{}_rejected", f.name), "{}: well-formed product rejected: {e}", f.name),
    };
    for _ in 0..4 {
        let mut plan = ReadPlan::benign(s).with_failure(s, d.bytes.len());
        // Bias towards the places where a swallowed error looks like a clean end.
        if s.chance(1, 2) {
            let ends: Vec<usize> = d.bytes.iter().enumerate().filter(|(_, c)| **c == b'\n').map(|(i, _)| i + 1).collect();
            if !ends.is_empty() {
                let k = plan.fail_at.unwrap().1;
                plan.fail_at = Some((*s.pick(&ends), k));
            }
        }
        let (at, kind) = plan.fail_at.unwrap();
        s.note(format!("{} bytes, {kind:?} after {at}, sticky={}", d.bytes.len(), plan.sticky));
        let sizes = format!("{:?}", plan.sizes);
        let mut rd = SimRead::new(&d.bytes, plan);
        let got = no_panic(f.name, || (f.read)(&mut rd))?;
        s.checked();
        s.state(crate::core::hash_bytes(format!("{}{}{kind:?}", f.name, at / 40).as_bytes()));
        match got {
            Err(_) => {}
            Ok(p) => {
                let complete_before = d.term.is_some_and(|t| at >= t);
                ensure!(
                    rd.failed == 0 || complete_before,
                    format!("{}_swallowed", f.name),
                    "{}: input failed with {kind:?} after {at} of {} bytes (delivery {sizes}) yet the reader reported success with {} of {} records",
                    f.name, d.bytes.len(), p.recs.len(), full.recs.len()
                );
                ensure!(parsed_diff(&p, &full, 0).is_none(), format!("{}_partial", f.name), "{}: success with a different product although the input failed at {at}", f.name);
            }
        }
    }
    Ok(())
}

/// The streaming reader must surface a hard error too, after a prefix of the epochs.
fn failing_stream(s: &mut Sim) -> R {
    use siderust::formats::igs::sp3::{read_sp3, Sp3Stream};
    let d = gen::sp3_doc(s);
    let full = read_sp3(&d.bytes[..]).map_err(|e| crate::core::Viol { kind: "sp3_rejected".into(), msg: e.to_string() })?;
    let plan = ReadPlan::benign(s).with_failure(s, d.bytes.len());
    let at = plan.fail_at.unwrap().0;
    s.note(format!("sp3 stream {} bytes, fails after {at}", d.bytes.len()));
    let complete_before = d.term.is_some_and(|t| at >= t);
    let mut rd = SimRead::new(&d.bytes, plan);
    let r = no_panic("Sp3Stream", || {
        let mut out = Vec::new();
        let mut st = match Sp3Stream::new(&mut rd) {
            Ok(st) => st,
            Err(_) => return (out, true),
        };
        loop {
            match st.next_epoch() {
                Ok(Some(e)) => out.push(e),
                Ok(None) => return (out, false),
                Err(_) => return (out, true),
            }
        }
    })?;
    s.checked();
    let (got, err) = r;
    ensure!(got.len() <= full.epochs.len() && got[..] == full.epochs[..got.len()], "sp3stream_prefix", "streamed epochs before the failure are not a prefix of the product");
    if !err {
        ensure!(rd.failed == 0 || complete_before, "sp3stream_swallowed", "stream failed after {at} bytes but ended cleanly with {} of {} epochs", got.len(), full.epochs.len());
        ensure!(got.len() == full.epochs.len(), "sp3stream_short", "stream ended cleanly with {} of {} epochs", got.len(), full.epochs.len());
    }
    Ok(())
}

pub static C02: Prop = Prop {
    id: "C02",
    scenarios: &[("failing_input", 5, failing_input), ("failing_stream", 1, failing_stream)],
    runs_quick: 300_000,
    runs_thorough: 6_000_000,
    rule: "A run generates a product and delivers it through a medium that fails hard (six error kinds, sticky or transient) at a random byte or record boundary under a random short-read/EINTR schedule, four times; non-trivial = the failure schedule was judged. Distinct = distinct hash of format, size, offset, kind.",
    real: &["formats readers with a Read interface", "Sp3Stream", "std BufReader"],
    stub: &["file/socket replaced by a simulated failing Read"],
    assumptions: &["a reader that has already seen the format's end marker may succeed without touching the rest"],
};

// C03 ---------------------------------------------------------------------

fn read_all_modes(f: &Fmt, b: &[u8]) -> R {
    let _ = no_panic(f.name, || (f.read)(&mut &b[..]).is_ok())?;
    use siderust::formats::ParseMode::Permissive;
    match f.name {
        "sp3" => {
            no_panic("Sp3Stream", || {
                let Ok(mut st) = siderust::formats::igs::sp3::Sp3Stream::new(b) else { return 0 };
                let mut n = 0;
                while let Ok(Some(_)) = st.next_epoch() {
                    n += 1;
                }
                n
            })?;
        }
        "sinex" => {
            no_panic("sinex(permissive)", || gen::sinex_read_mode(&mut &b[..], Permissive, true).is_ok())?;
        }
        "orbex" => {
            no_panic("orbex(permissive)", || gen::orbex_read_mode(&mut &b[..], Permissive).is_ok())?;
        }
        "cpf" | "crd" | "rinex_nav" => {
            let t = String::from_utf8_lossy(b).into_owned();
            no_panic("permissive", || match f.name {
                "cpf" => siderust::formats::ilrs::cpf::parse_cpf_with_mode(&t, Permissive).is_ok(),
                "crd" => siderust::formats::ilrs::crd::parse_crd_with_mode(&t, Permissive).is_ok(),
                _ => siderust::formats::rinex::nav::parse_rinex_nav_with_mode(&t, Permissive).is_ok(),
            })?;
            no_panic(f.name, || (f.read)(&mut t.as_bytes()).is_ok())?;
        }
        _ => {}
    }
    // Text APIs also see the lossily decoded form.
    if std::str::from_utf8(b).is_err() {
        let t = String::from_utf8_lossy(b).into_owned();
        no_panic(f.name, || (f.read)(&mut t.as_bytes()).is_ok())?;
    }
    Ok(())
}

fn corrupted(s: &mut Sim) -> R {
    let f = pick_fmt(s, true);
    let d = (f.gen)(s);
    for _ in 0..6 {
        let mut b = d.bytes.clone();
        if s.chance(1, 4) {
            io::extreme_number(s, &mut b);
        } else {
            io::corrupt(s, &mut b);
        }
        s.note(format!("damaged copy {:016x}", crate::core::hash_bytes(&b)));
        let live = crate::alloc::live();
        crate::alloc::reset();
        read_all_modes(f, &b)?;
        s.checked();
        let peak = crate::alloc::peak_delta(live);
        ensure!(peak < 64 * b.len() + (8 << 20), format!("{}_alloc", f.name), "{}: reading {} damaged bytes allocated {peak} bytes", f.name, b.len());
    }
    Ok(())
}

fn prefix_ok(f: &Fmt, got: &Parsed, full: &Parsed) -> Option<String> {
    if f.ordered {
        if got.recs.len() > full.recs.len() {
            return Some(format!("{} records from a torn file, the whole has {}", got.recs.len(), full.recs.len()));
        }
        for i in 0..got.recs.len().saturating_sub(1) {
            if !rec_eq(&got.recs[i], &full.recs[i], 0) {
                return Some(format!("record {i} is {:?}, in the whole file {:?}", got.recs[i], full.recs[i]));
            }
        }
        None
    } else {
        // Sections are regrouped: at most one record (the torn one) may be foreign.
        let mut foreign = 0;
        for r in &got.recs {
            // A station whose optional velocity rows came later has lost them with its block.
            let part = |x: &gen::Rec| f.name == "sinex" && r.n.len() == 3 && x.s[..3] == r.s[..3] && x.n.len() == 6 && x.n[..3] == r.n[..3] && x.t == r.t;
            if full.recs.iter().any(part) {
                continue;
            }
            if !full.recs.iter().any(|x| rec_eq(x, r, 0)) {
                foreign += 1;
            }
        }
        (foreign > 1).then(|| format!("{foreign} records of a torn file are not in the whole file"))
    }
}

/// Crash while the producer was writing: only a prefix of the bytes survives.
fn torn(s: &mut Sim) -> R {
    let f = pick_fmt(s, true);
    let d: Doc = (f.gen)(s);
    let full = match read_plain(f, &d.bytes)? {
        Ok(p) => p,
        Err(e) => viol!(format!("{}_rejected", f.name), "{}: well-formed product rejected: {e}", f.name),
    };
    for _ in 0..6 {
        let mut at = s.idx(d.bytes.len() + 1);
        let at_line = s.chance(1, 2);
        if at_line {
            while at > 0 && d.bytes[at - 1] != b'\n' {
                at -= 1;
            }
        }
        s.fault("torn_file");
        s.note(format!("torn at {at} of {}", d.bytes.len()));
        s.state(crate::core::hash_bytes(format!("{}{}", f.name, at / 24).as_bytes()));
        let got = read_plain(f, &d.bytes[..at])?;
        s.checked();
        if let Ok(p) = got {
            if let Some(x) = prefix_ok(f, &p, &full) {
                viol!(format!("{}_torn", f.name), "{}: file torn at byte {at} of {}: {x}", f.name, d.bytes.len());
            }
            // Cut between two lines: every record reported must be a whole one.
            if at_line && f.ordered && f.name != "oem_xml" && f.name != "opm" && f.name != "omm_kvn" && f.name != "vgosdb" {
                for (i, r) in p.recs.iter().enumerate() {
                    ensure!(rec_eq(r, &full.recs[i], 0), format!("{}_torn", f.name), "{}: torn at a line boundary (byte {at}): record {i} is {r:?}, in the whole file {:?}", f.name, full.recs[i]);
                }
            }
        }
    }
    Ok(())
}

fn junk(s: &mut Sim) -> R {
    let f = pick_fmt(s, true);
    let n = s.idx(400);
    let mode = s.below(3);
    let alpha: &[u8] = b"0123456789 .-+EDGPR*>#%=\nABC,:\r";
    let b: Vec<u8> = (0..n).map(|_| if mode == 0 { s.below(256) as u8 } else { *s.pick(alpha) }).collect();
    s.fault("junk_file");
    s.note(format!("junk {:016x}", crate::core::hash_bytes(&b)));
    read_all_modes(f, &b)?;
    s.checked();
    Ok(())
}

pub static C03: Prop = Prop {
    id: "C03",
    scenarios: &[("corrupted", 6, corrupted), ("torn", 3, torn), ("junk", 1, junk)],
    runs_quick: 300_000,
    runs_thorough: 6_000_000,
    rule: "A run generates a product and either tears it at random bytes / line ends (prefix oracle) or damages it (bit flips, garbled bytes, lost / duplicated / zeroed regions, lost / duplicated / swapped / cut lines, multi-byte characters, extreme numbers, junk) and reads it in every parse mode; non-trivial = at least one damaged image was read. Distinct = distinct damaged image hash.",
    real: &["all formats readers and text parsers", "catalogs::ingest"],
    stub: &["storage replaced by a corrupted byte image"],
    assumptions: &["overflow checks are on, so arithmetic overflow counts as a crash", "a line cut mid-record may still be reported as one (last) record"],
};

// C04 ---------------------------------------------------------------------

fn stream_vs_batch(s: &mut Sim) -> R {
    use siderust::formats::igs::sp3::{read_sp3, Sp3Stream};
    let mut d = gen::sp3_doc(s);
    let mut damaged = false;
    if s.chance(1, 2) {
        damaged = true;
        if s.chance(1, 3) {
            let at = s.idx(d.bytes.len() + 1);
            d.bytes.truncate(at);
            s.fault("torn_file");
        } else {
            io::corrupt(s, &mut d.bytes);
        }
    }
    let plan_a = ReadPlan::benign(s);
    let plan_b = ReadPlan::benign(s);
    s.note(format!("sp3 {} bytes damaged={damaged} {:016x}", d.bytes.len(), crate::core::hash_bytes(&d.bytes)));
    let batch = match no_panic("read_sp3", || read_sp3(SimRead::new(&d.bytes, plan_a))) {
        Ok(b) => b,
        Err(_) if damaged => return Ok(()), // C03
        Err(e) => return Err(e),
    };
    let (hdr, got, err) = match no_panic("Sp3Stream", || {
        let mut out = Vec::new();
        let mut st = match Sp3Stream::new(SimRead::new(&d.bytes, plan_b)) {
            Ok(st) => st,
            Err(e) => return (None, out, Some(e.to_string())),
        };
        let hdr = st.header().to_vec();
        loop {
            match st.next_epoch() {
                Ok(Some(e)) => out.push(e),
                Ok(None) => {
                    // The end is stable.
                    for _ in 0..2 {
                        if !matches!(st.next_epoch(), Ok(None)) {
                            return (Some(hdr), out, Some("epoch after the end".into()));
                        }
                    }
                    return (Some(hdr), out, None);
                }
                Err(e) => return (Some(hdr), out, Some(e.to_string())),
            }
        }
    }) {
        Ok(v) => v,
        Err(_) if damaged => return Ok(()),
        Err(e) => return Err(e),
    };
    s.checked();
    s.state(crate::core::hash_bytes(format!("{}-{}-{}", got.len(), err.is_some(), d.bytes.len() / 100).as_bytes()));
    match (batch, err) {
        (Ok(b), None) => {
            ensure!(Some(&b.header) == hdr.as_ref(), "sp3_header", "streamed header differs from the batch header");
            ensure!(b.epochs.len() == got.len(), "sp3_epochs", "stream yields {} epochs, batch {}", got.len(), b.epochs.len());
            for (i, (x, y)) in b.epochs.iter().zip(&got).enumerate() {
                ensure!(format!("{x:?}") == format!("{y:?}"), "sp3_epoch", "epoch {i} differs between stream and batch: {x:?} vs {y:?}");
            }
            if !damaged {
                let recs = gen::sp3_epochs(&got);
                let p = Parsed { head: gen::Rec { s: hdr.unwrap(), ..Default::default() }, recs };
                if let Some(x) = parsed_diff(&p, &d.expect, gen::T_TOL) {
                    viol!("sp3_content", "streamed product misread: {x}");
                }
            }
        }
        (Err(_), Some(_)) => {
            s.probe("both_rejected");
            // Epochs delivered before the error are those of the intact prefix.
            let lines: Vec<&[u8]> = d.bytes.split_inclusive(|c| *c == b'\n').collect();
            let mut k = 0;
            let mut cut = 0;
            // Prefix of the file that holds exactly `got.len()` epochs.
            let mut seen = 0;
            for l in lines {
                if l.starts_with(b"*") {
                    seen += 1;
                    if seen > got.len() {
                        break;
                    }
                }
                k += 1;
                cut += l.len();
            }
            let _ = k;
            if let Ok(pre) = read_sp3(&d.bytes[..cut]) {
                ensure!(format!("{:?}", pre.epochs) == format!("{got:?}"), "sp3_prefix", "epochs streamed before the error differ from the batch view of the same lines");
            }
        }
        (a, b) => viol!("sp3_verdict", "batch verdict {:?} but stream verdict {b:?}", a.map(|x| x.epochs.len()).map_err(|e| e.to_string())),
    }
    Ok(())
}

pub static C04: Prop = Prop {
    id: "C04",
    scenarios: &[("stream_vs_batch", 1, stream_vs_batch)],
    runs_quick: 300_000,
    runs_thorough: 6_000_000,
    rule: "A run generates a precise-orbit file (half of them damaged or torn), reads it once in batch and once through the streaming reader under two independent delivery schedules, and compares header, epochs, order and verdict; non-trivial = both readers completed. Distinct = distinct file hash and schedule.",
    real: &["formats::igs::sp3::{read_sp3, Sp3Stream}"],
    stub: &["file replaced by a simulated Read"],
    assumptions: &[],
};

// C26 ---------------------------------------------------------------------

/// `r` carries no datum that `x` does not (a subset), apart from text holding the junk itself.
fn subset(r: &gen::Rec, x: &gen::Rec, tol: i64, junk: &str) -> bool {
    fn all_in<T: Copy>(a: &[T], b: &[T], eq: impl Fn(T, T) -> bool) -> bool {
        let mut used = vec![false; b.len()];
        a.iter().all(|v| match (0..b.len()).find(|&i| !used[i] && eq(*v, b[i])) {
            Some(i) => {
                used[i] = true;
                true
            }
            None => false,
        })
    }
    let rs: Vec<&str> = r.s.iter().map(String::as_str).filter(|t| !t.contains(junk) && *t != "bad" && !t.is_empty()).collect();
    let xs: Vec<&str> = x.s.iter().map(String::as_str).collect();
    all_in(&rs, &xs, |a, b| a == b) && all_in(&r.n.iter().copied().filter(|v| !v.is_nan()).collect::<Vec<_>>(), &x.n, gen::close) && all_in(&r.t, &x.t, |a, b| a.abs_diff(b) <= tol as u64)
}

/// One number of the product is garbled in storage into something that is not a number.
fn garbled_number(s: &mut Sim) -> R {
    let f = pick_fmt(s, true);
    let d = (f.gen)(s);
    let full = match read_plain(f, &d.bytes)? {
        Ok(p) => p,
        Err(e) => viol!(format!("{}_rejected", f.name), "{}: well-formed product rejected: {e}", f.name),
    };
    // Numeric tokens by position.
    let is_sep = |c: u8| c.is_ascii_whitespace() || b",<>=\"".contains(&c);
    let mut toks = Vec::new();
    let mut i = 0;
    while i < d.bytes.len() {
        if is_sep(d.bytes[i]) {
            i += 1;
            continue;
        }
        let st = i;
        while i < d.bytes.len() && !is_sep(d.bytes[i]) {
            i += 1;
        }
        if let Ok(t) = std::str::from_utf8(&d.bytes[st..i]) {
            if t.replace(['D', 'd'], "E").parse::<f64>().is_ok() || (t.len() >= 10 && t.as_bytes()[0].is_ascii_digit() && t.contains(['T', ':'])) {
                toks.push((st, i));
            }
        }
    }
    if toks.is_empty() {
        return Ok(());
    }
    for _ in 0..6 {
        let (a, b) = *s.pick(&toks);
        let mut img = d.bytes.clone();
        let k = s.idx(b - a);
        let junk = match s.below(3) {
            0 => {
                img[a..b].iter_mut().for_each(|c| *c = b'*');
                "*"
            }
            1 => {
                img[a + k] = b'?';
                "?"
            }
            _ => {
                img[a + k] = b'~';
                "~"
            }
        };
        s.fault("garbled_number");
        let old = String::from_utf8_lossy(&d.bytes[a..b]).into_owned();
        let line = String::from_utf8_lossy(&img[img[..a].iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1)..]).lines().next().unwrap_or("").to_string();
        s.note(format!("{} byte {a}: {old} garbled: {line}", f.name));
        s.state(crate::core::hash_bytes(format!("{}{}", f.name, a / 8).as_bytes()));
        let got = read_plain(f, &img)?;
        s.checked();
        let Ok(p) = got else { continue };
        for r in &p.recs {
            if !full.recs.iter().any(|x| subset(r, x, f.tol.max(gen::T_TOL), junk)) {
                viol!(format!("{}_invented", f.name), "{}: {old:?} garbled in {line:?}: the reader returns {r:?}, which the product never contained", f.name);
            }
        }
    }
    Ok(())
}

pub static C26: Prop = Prop {
    id: "C26",
    scenarios: &[("garbled_number", 1, garbled_number)],
    runs_quick: 200_000,
    runs_thorough: 4_000_000,
    rule: "A run generates a product and, six times, garbles one randomly chosen number or date in place (same length, not a number any more), then checks that every datum the reader still returns was in the undamaged product; non-trivial = at least one garbled image was read. Distinct = distinct hash of garbled tokens.",
    real: &["all formats readers and text parsers (strict mode)", "catalogs::ingest"],
    stub: &["storage replaced by a corrupted byte image"],
    assumptions: &["dropping the damaged field, record or file is acceptable; inventing a value for it is not"],
};
