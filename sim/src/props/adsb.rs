//! C12-C14: Mode S extended squitter over a lossy radio channel.
//!
//! A simulated sky: aircraft fly, their transponders encode position,
//! identification and velocity squitters (independent encoders, from the
//! published field layouts), a channel loses, duplicates, delays, reorders and
//! damages them, and one receiver built on the library decodes what arrives.

use crate::core::{no_panic, Sim, R};
use crate::{ensure, viol, Prop};
use siderust::formats::adsb::{self, cpr};
use std::collections::{BTreeMap, BinaryHeap};
use std::cmp::Reverse;
use std::f64::consts::PI;

const Q: f64 = 131_072.0;

/// Parity by long division of the 88 message bits, as the transponder does it.
fn parity(msg: &[u8; 11]) -> u32 {
    let mut bits: Vec<u8> = msg.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1)).collect();
    bits.extend([0; 24]);
    // x^24 + x^23 + x^22 + ... : 0x1FFF409
    let g: Vec<u8> = (0..25).rev().map(|i| (0x1FF_F409u32 >> i & 1) as u8).collect();
    for i in 0..88 {
        if bits[i] == 1 {
            for k in 0..25 {
                bits[i + k] ^= g[k];
            }
        }
    }
    bits[88..].iter().fold(0, |a, &b| a << 1 | b as u32)
}

fn seal(msg: [u8; 11]) -> [u8; 14] {
    let p = parity(&msg);
    let mut f = [0u8; 14];
    f[..11].copy_from_slice(&msg);
    f[11] = (p >> 16) as u8;
    f[12] = (p >> 8) as u8;
    f[13] = p as u8;
    f
}

fn message(df: u8, ca: u8, icao: u32, me: [u8; 7]) -> [u8; 14] {
    let mut m = [0u8; 11];
    m[0] = df << 3 | ca & 7;
    m[1] = (icao >> 16) as u8;
    m[2] = (icao >> 8) as u8;
    m[3] = icao as u8;
    m[4..].copy_from_slice(&me);
    seal(m)
}

fn hex(s: &mut Sim, f: &[u8]) -> String {
    let mode = s.below(3);
    f.iter()
        .map(|b| match mode {
            0 => format!("{b:02X}"),
            1 => format!("{b:02x}"),
            _ => {
                if b % 3 == 0 {
                    format!("{b:02x}")
                } else {
                    format!("{b:02X}")
                }
            }
        })
        .collect()
}

/// Put `width` bits of `v` at bit offset `at` of the 56-bit ME field.
fn put(me: &mut [u8; 7], at: usize, width: usize, v: u64) {
    for i in 0..width {
        let bit = (v >> (width - 1 - i) & 1) as u8;
        let p = at + i;
        me[p / 8] = me[p / 8] & !(1 << (7 - p % 8)) | bit << (7 - p % 8);
    }
}

// --- independent CPR encoder -------------------------------------------------

fn nl(lat: f64) -> i64 {
    let a = lat.abs();
    if a == 0.0 {
        return 59;
    }
    if a > 87.0 {
        return 1;
    }
    // Transition latitudes, from the definition: the largest n whose zone
    // boundary lies above the latitude.
    for n in (2..=59).rev() {
        let t = (((1.0 - (PI / 30.0).cos()) / (1.0 - (2.0 * PI / n as f64).cos())).sqrt()).acos().to_degrees();
        if a < t {
            return n;
        }
    }
    2
}

fn md(x: f64, y: f64) -> f64 {
    x - y * (x / y).floor()
}

/// CPR fields of a position, the latitude they stand for and the longitude quantum.
fn encode(lat: f64, lon: f64, odd: bool) -> (u32, u32, f64, f64) {
    let i = i32::from(odd) as f64;
    let dlat = 360.0 / (60.0 - i);
    let yz = (Q * md(lat, dlat) / dlat + 0.5).floor();
    let rlat = dlat * (yz / Q + (lat / dlat).floor());
    let n = (nl(rlat) - odd as i64).max(1) as f64;
    let dlon = 360.0 / n;
    let xz = (Q * md(lon, dlon) / dlon + 0.5).floor();
    ((yz as i64 & 0x1FFFF) as u32, (xz as i64 & 0x1FFFF) as u32, rlat, dlon / Q)
}

fn position_me(tc: u8, ss: u8, ant: bool, alt: u16, tbit: bool, odd: bool, la: u32, lo: u32) -> [u8; 7] {
    let mut me = [0; 7];
    put(&mut me, 0, 5, tc as u64);
    put(&mut me, 5, 2, ss as u64);
    put(&mut me, 7, 1, ant as u64);
    put(&mut me, 8, 12, alt as u64);
    put(&mut me, 20, 1, tbit as u64);
    put(&mut me, 21, 1, odd as u64);
    put(&mut me, 22, 17, la as u64);
    put(&mut me, 39, 17, lo as u64);
    me
}

fn lon_gap(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(360.0);
    d.min(360.0 - d)
}

// ---------------------------------------------------------------------------
// C12

fn flip(f: &mut [u8; 14], bit: usize) {
    f[bit / 8] ^= 0x80 >> (bit % 8);
}

fn frames(s: &mut Sim) -> R {
    let n = s.int(1, 8);
    for _ in 0..n {
        let df = match s.below(4) {
            0 => s.below(32) as u8,
            1 => 18,
            _ => 17,
        };
        let icao = s.below(1 << 24) as u32;
        let raw = match s.below(4) {
            0 => 0,
            1 => (1 << 56) - 1,
            _ => s.u64() >> 8,
        };
        let mut me = [0u8; 7];
        put(&mut me, 0, 56, raw);
        let ca = s.below(8) as u8;
        let good = message(df, ca, icao, me);
        let text = hex(s, &good);
        let r = no_panic("parse_frame", || adsb::parse_frame(&text))?;
        s.checked();
        match (&r, df) {
            (Ok(f), 17 | 18) => {
                ensure!(
                    f.downlink_format() == df && f.icao24() == icao && f.me() == me && f.type_code() == me[0] >> 3,
                    "fields",
                    "intact frame {text} parsed as DF{} {:06x} {:02x?}",
                    f.downlink_format(),
                    f.icao24(),
                    f.me()
                );
            }
            (Err(e), 17 | 18) => viol!("rejected-intact", "intact frame {text}: {e}"),
            (Ok(_), _) => viol!("wrong-format", "DF{df} frame {text} accepted"),
            (Err(_), _) => {}
        }
        // The channel damages it: every pattern here is one the parity detects.
        let mut bad = good;
        let bits: Vec<usize> = match s.below(3) {
            0 => {
                s.fault("bit_errors");
                let k = s.int(1, 5) as usize;
                let mut v: Vec<usize> = Vec::new();
                while v.len() < k {
                    let b = s.idx(112);
                    if !v.contains(&b) {
                        v.push(b);
                    }
                    if s.choices().len() > 5000 {
                        break;
                    }
                }
                v
            }
            1 => {
                s.fault("burst");
                let len = s.int(1, 24) as usize;
                let at = s.idx(112 - len + 1);
                let mut v = vec![at];
                for b in at + 1..at + len {
                    if s.chance(1, 2) {
                        v.push(b);
                    }
                }
                v
            }
            _ => {
                s.fault("parity_field_lost");
                let mut v: Vec<usize> = (88..112).filter(|b| good[b / 8] & (0x80 >> (b % 8)) != 0).collect();
                if v.is_empty() {
                    v.push(111);
                }
                v
            }
        };
        for &b in &bits {
            flip(&mut bad, b);
        }
        if bad != good {
            let text = hex(s, &bad);
            let r = no_panic("parse_frame", || adsb::parse_frame(&text))?;
            s.checked();
            s.h(&bad);
            ensure!(r.is_err(), "damaged-accepted", "frame with damaged bits {bits:?} accepted: {text}");
        }
        // Damage of the transport: truncated, padded or garbled text.
        let t = hex(s, &good);
        let garbled = match s.below(5) {
            0 => t[..s.idx(28)].to_string(),
            1 => format!("{t}{}", s.ident(1, 3, "0aF\n \u{e9}")),
            2 => {
                let i = s.idx(28);
                let c = *s.pick(&['g', ' ', '-', 'x', '/', ':', '@', '`', 'G', '\u{e9}']);
                let mut v: Vec<char> = t.chars().collect();
                v[i] = c;
                v.into_iter().collect()
            }
            3 => {
                // as many bytes as a frame, but not as many characters
                let i = 2 * s.idx(13);
                format!("{}\u{e9}{}", &t[..i], &t[i + 2..])
            }
            _ => s.ident(0, 40, "0123456789abcdefABCDEFxyz\u{e9}"),
        };
        s.fault("text_damage");
        let r = no_panic("parse_frame", || adsb::parse_frame(&garbled))?;
        s.checked();
        let hexok = garbled.len() == 28 && garbled.bytes().all(|b| b.is_ascii_hexdigit());
        ensure!(r.is_err() || hexok, "text-accepted", "text {garbled:?} accepted as a frame");
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C13

struct Plane {
    icao: u32,
    lat: f64,
    lon: f64,
    course: f64,
    speed: f64,
    /// (time, lat, lon, odd, quantum) of every squitter sent
    sent: Vec<Sent>,
}

#[derive(Clone, Copy)]
struct Sent {
    ms: u64,
    lat: f64,
    lon: f64,
    odd: bool,
    rlat: f64,
    dlon: f64,
}

/// Great-circle position `d` metres from the start.
fn fly(lat: f64, lon: f64, course: f64, d: f64) -> (f64, f64) {
    let (p, l, c, a) = (lat.to_radians(), lon.to_radians(), course, d / 6_371_000.0);
    let p2 = (p.sin() * a.cos() + p.cos() * a.sin() * c.cos()).clamp(-1.0, 1.0).asin();
    let l2 = l + (c.sin() * a.sin() * p.cos()).atan2(a.cos() - p.sin() * p2.sin());
    (p2.to_degrees(), (l2.to_degrees() + 540.0).rem_euclid(360.0) - 180.0)
}

fn special_lat(s: &mut Sim) -> f64 {
    let base = match s.below(6) {
        0 => 0.0,
        1 => s.pick(&[87.0, -87.0, 86.535_369_97, 10.470_471_30, -59.954_592_77]).to_owned(),
        2 => s.pick(&[89.95, -89.95, 89.0, -88.0]).to_owned(),
        3 => 6.0 * s.int(-14, 14) as f64,
        _ => s.f64(-89.5, 89.5),
    };
    (base + s.pick(&[0.0, 0.0, 1e-5, -1e-5, 0.01, -0.01, 0.05])).clamp(-89.999, 89.999)
}

fn special_lon(s: &mut Sim) -> f64 {
    match s.below(4) {
        0 => *s.pick(&[0.0, -180.0, 179.999_99, -179.999_99, 1e-6, -1e-6, 90.0]),
        _ => s.f64(-180.0, 180.0),
    }
}

fn tracking(s: &mut Sim) -> R {
    let n = s.int(1, 3) as usize;
    let mut planes: Vec<Plane> = (0..n)
        .map(|i| Plane {
            icao: 0x400000 + i as u32,
            lat: special_lat(s),
            lon: special_lon(s),
            course: s.f64(0.0, 2.0 * PI),
            speed: s.f64(0.0, 500.0),
            sent: Vec::new(),
        })
        .collect();
    let loss = s.below(4);
    // Squitters every 0.4-0.6 s, parity alternating but not reliably.
    let mut queue: BinaryHeap<Reverse<(u64, u64, usize, usize, bool)>> = BinaryHeap::new();
    let mut seq = 0u64;
    let span = s.int(4, 40) as u64 * 1000;
    let mut texts: Vec<String> = Vec::new();
    for (pi, p) in planes.iter_mut().enumerate() {
        let mut ms = s.below(500);
        let mut odd = s.chance(1, 2);
        while ms < span {
            let d = p.speed * ms as f64 / 1000.0;
            let (lat, lon) = fly(p.lat, p.lon, p.course, d);
            let (la, lo, rlat, dlon) = encode(lat, lon, odd);
            let me = position_me(s.int(9, 18) as u8, s.below(4) as u8, s.chance(1, 2), s.below(4096) as u16, s.chance(1, 2), odd, la, lo);
            let f = message(17, 5, p.icao, me);
            p.sent.push(Sent { ms, lat, lon, odd, rlat, dlon });
            let mut copies = 1;
            if loss > 0 && s.chance(loss, 8) {
                s.fault("loss");
                copies = 0;
            } else if s.chance(1, 10) {
                s.fault("duplicate");
                copies = 2;
            }
            for _ in 0..copies {
                let mut g = f;
                let mut intact = true;
                if s.chance(1, 12) {
                    s.fault("bit_errors");
                    intact = false;
                    let b = s.idx(112);
                    flip(&mut g, b);
                }
                let delay = match s.below(6) {
                    0 => {
                        s.fault("delay");
                        s.below(3000)
                    }
                    _ => s.below(20),
                };
                seq += 1;
                texts.push(hex(s, &g));
                queue.push(Reverse((ms + delay, seq, pi, p.sent.len() - 1, intact)));
            }
            ms += 400 + s.below(201);
            if s.chance(1, 40) {
                s.fault("outage");
                ms += 9_000 + s.below(8_000);
            }
            odd = !odd;
            if s.chance(1, 10) {
                odd = !odd;
            }
        }
    }
    // The receiver: last even and odd message per address (by time stamp).
    let mut last: BTreeMap<u32, [Option<(usize, u32, u32)>; 2]> = BTreeMap::new();
    let mut fixes: BTreeMap<u32, (u64, f64, f64)> = BTreeMap::new();
    while let Some(Reverse((now, id, pi, si, intact))) = queue.pop() {
        s.advance(1_000_000);
        s.sim_ns = s.sim_ns.max(now * 1_000_000);
        let text = &texts[id as usize - 1];
        let Ok(frame) = no_panic("parse_frame", || adsb::parse_frame(text))? else {
            ensure!(!intact, "rejected-intact", "intact squitter {text} rejected");
            continue;
        };
        ensure!(intact, "damaged-accepted", "damaged squitter {text} accepted");
        let msg = match no_panic("decode_airborne_position", || adsb::decode_airborne_position(&frame))? {
            Ok(m) => m,
            Err(e) => viol!("rejected-intact", "position squitter {text}: {e}"),
        };
        let p = &planes[pi];
        let tx = p.sent[si];
        ensure!(frame.icao24() == p.icao && msg.cpr_odd == tx.odd, "fields", "{text}: address or parity differ");
        let slot = &mut last.entry(p.icao).or_default()[usize::from(msg.cpr_odd)];
        if slot.is_none_or(|(i, _, _)| p.sent[i].ms <= tx.ms) {
            *slot = Some((si, msg.cpr_lat, msg.cpr_lon));
        }
        let pair = last[&p.icao];
        if let (Some(e), Some(o)) = (pair[0], pair[1]) {
            let (te, to) = (p.sent[e.0], p.sent[o.0]);
            let odd_latest = to.ms >= te.ms;
            let age = te.ms.abs_diff(to.ms);
            let latest = if odd_latest { to } else { te };
            let r = no_panic("decode_globally", || cpr::decode_globally(e.1, e.2, o.1, o.2, odd_latest))?;
            s.checked();
            let ctx = format!("even {:?} odd {:?} odd_latest {odd_latest} sent from {:.7},{:.7}", (e.1, e.2), (o.1, o.2), latest.lat, latest.lon);
            if age <= 10_000 {
                match r {
                    Ok((la, lo)) => {
                        let (la, lo) = (la.value(), lo.value());
                        ensure!(
                            (la - latest.lat).abs() <= 360.0 / 59.0 / Q / 2.0 + 1e-9 && lon_gap(lo, latest.lon) <= latest.dlon / 2.0 + 1e-9,
                            "wrong-position",
                            "decoded {la:.7},{lo:.7}; {ctx}"
                        );
                        ensure!((-90.0..=90.0).contains(&la) && (-180.0..=180.0).contains(&lo), "off-globe", "decoded {la},{lo}; {ctx}");
                        fixes.insert(p.icao, (latest.ms, la, lo));
                        s.probe("global_fix");
                    }
                    Err(e) => {
                        ensure!(nl(te.rlat) != nl(to.rlat), "rejected-pair", "{e}; {ctx}");
                        s.probe("zone_straddle");
                    }
                }
            } else {
                s.fault("stale_pair");
                if let Ok((la, lo)) = r {
                    let (la, lo) = (la.value(), lo.value());
                    ensure!((-90.0..=90.0).contains(&la) && (-180.0..=180.0).contains(&lo), "off-globe", "decoded {la},{lo} from a stale pair; {ctx}");
                }
            }
        }
        // Local decoding against the last fix.
        if let Some(&(fms, fla, flo)) = fixes.get(&p.icao) {
            if tx.ms.abs_diff(fms) < 30_000 {
                local_check(s, msg.cpr_lat, msg.cpr_lon, &tx, fla, flo)?;
            }
        }
        s.state(crate::core::mix(((tx.lat * 2.0) as i64 as u64) << 20 ^ ((tx.lon / 4.0) as i64 as u64) << 8 ^ u64::from(tx.odd)));
    }
    s.h(&span.to_le_bytes());
    Ok(())
}

fn local_check(s: &mut Sim, la: u32, lo: u32, tx: &Sent, ref_lat: f64, ref_lon: f64) -> R {
    // The rule holds while the reference is within half a zone.
    let dlat = if tx.odd { 360.0 / 59.0 } else { 6.0 };
    if (ref_lat - tx.lat).abs() > 0.49 * dlat || lon_gap(ref_lon, tx.lon) > 0.49 * tx.dlon * Q {
        return Ok(());
    }
    let r = no_panic("decode_locally", || cpr::decode_locally(la, lo, tx.odd, ref_lat, ref_lon))?;
    s.checked();
    let ctx = format!("({la},{lo}) odd {} near {ref_lat:.6},{ref_lon:.6}, sent from {:.7},{:.7}", tx.odd, tx.lat, tx.lon);
    match r {
        Ok((a, o)) => {
            let (a, o) = (a.value(), o.value());
            ensure!(
                (a - tx.lat).abs() <= dlat / Q / 2.0 + 1e-9 && lon_gap(o, tx.lon) <= tx.dlon / 2.0 + 1e-9,
                "wrong-local-position",
                "decoded {a:.7},{o:.7}; {ctx}"
            );
            ensure!((-90.0..=90.0).contains(&a) && (-180.0..=180.0).contains(&o), "off-globe", "decoded {a},{o}; {ctx}");
        }
        Err(e) => viol!("rejected-local", "{e}; {ctx}"),
    }
    Ok(())
}

fn single_positions(s: &mut Sim) -> R {
    for _ in 0..s.int(1, 10) {
        let (lat, lon, odd) = (special_lat(s), special_lon(s), s.chance(1, 2));
        let (la, lo, rlat, dlon) = encode(lat, lon, odd);
        let tx = Sent { ms: 0, lat, lon, odd, rlat, dlon };
        let dlat = if odd { 360.0 / 59.0 } else { 6.0 };
        let rl = (lat + s.f64(-0.49, 0.49) * dlat).clamp(-90.0, 90.0);
        let ro = lon + s.f64(-0.49, 0.49) * dlon * Q;
        let ro = (ro + 540.0).rem_euclid(360.0) - 180.0;
        local_check(s, la, lo, &tx, rl, ro)?;
        // Fields of unrelated frames: an error or a point on the globe.
        let (a, b, c, d) = (s.below(131_072) as u32, s.below(131_072) as u32, s.below(131_072) as u32, s.below(131_072) as u32);
        let ol = s.chance(1, 2);
        s.fault("unrelated_pair");
        if let Ok((x, y)) = no_panic("decode_globally", || cpr::decode_globally(a, b, c, d, ol))? {
            s.checked();
            ensure!(
                (-90.0..=90.0).contains(&x.value()) && (-180.0..=180.0).contains(&y.value()),
                "off-globe",
                "unrelated fields {a},{b},{c},{d} odd_latest {ol} decode to {},{}",
                x.value(),
                y.value()
            );
        }
        let (x, y) = (s.f64(-90.0, 90.0), s.f64(-180.0, 180.0));
        if let Ok((p, q)) = no_panic("decode_locally", || cpr::decode_locally(a, b, ol, x, y))? {
            ensure!(
                (-90.0..=90.0).contains(&p.value()) && (-180.0..=180.0).contains(&q.value()),
                "off-globe",
                "fields {a},{b} odd {ol} near {x},{y} decode to {},{}",
                p.value(),
                q.value()
            );
        }
        s.h(&la.to_le_bytes());
        s.h(&lo.to_le_bytes());
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C14

const LETTERS: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";

fn ais(c: char) -> u64 {
    match c {
        'A'..='Z' => c as u64 - 64,
        _ => c as u64, // space and digits
    }
}

fn fields(s: &mut Sim) -> R {
    for _ in 0..s.int(1, 8) {
        let icao = s.below(1 << 24) as u32;
        let tc = match s.below(6) {
            0 => s.int(1, 4) as u8,
            1 | 2 => 19,
            3 => s.int(9, 18) as u8,
            _ => s.below(32) as u8,
        };
        let mut me = [0u8; 7];
        let raw = s.u64() >> 8;
        put(&mut me, 0, 56, raw);
        put(&mut me, 0, 5, tc as u64);
        // What the fields say.
        let mut call: Option<String> = None;
        let (cat, mut reserved) = (s.below(8), false);
        if (1..=4).contains(&tc) {
            put(&mut me, 5, 3, cat);
            let mut text = s.ident(0, 8, &format!("{LETTERS}0123456789 "));
            text.truncate(8);
            let mut padded = text.clone();
            while padded.len() < 8 {
                padded.push(' ');
            }
            for (i, c) in padded.chars().enumerate() {
                put(&mut me, 8 + 6 * i, 6, ais(c));
            }
            if s.chance(1, 4) {
                let i = s.idx(8);
                let code = *s.pick(&[0u64, 27, 28, 31, 33, 40, 47, 58, 63]);
                put(&mut me, 8 + 6 * i, 6, code);
                reserved = true;
                s.fault("reserved_character");
            }
            call = Some(padded.trim_end().to_string());
        }
        let (sub, ew_dir, ew, ns_dir, ns, vr_dir, vr) = (
            *s.pick(&[1u64, 2, 1, 2, 0, 3, 4, 5, 6, 7]),
            s.below(2),
            *s.pick(&[0, 1, 2, 511, 1023, 7777]),
            s.below(2),
            *s.pick(&[0, 1, 2, 511, 1023, 7777]),
            s.below(2),
            *s.pick(&[0, 1, 2, 511, 7777, 7777]),
        );
        let fill = |s: &mut Sim, v: u64, n: u64| if v == 7777 { s.below(n) } else { v };
        let (ew, ns, vr) = (fill(s, ew, 1024), fill(s, ns, 1024), fill(s, vr, 512));
        if tc == 19 {
            put(&mut me, 5, 3, sub);
            put(&mut me, 13, 1, ew_dir);
            put(&mut me, 14, 10, ew);
            put(&mut me, 24, 1, ns_dir);
            put(&mut me, 25, 10, ns);
            put(&mut me, 36, 1, vr_dir);
            put(&mut me, 37, 9, vr);
        }
        let f = message(*s.pick(&[17, 18]), 5, icao, me);
        let text = hex(s, &f);
        s.h(&f);
        let Ok(frame) = no_panic("parse_frame", || adsb::parse_frame(&text))? else {
            viol!("rejected-intact", "intact frame {text} rejected")
        };
        s.checked();
        // identification
        match (no_panic("decode_identification", || adsb::decode_identification(&frame))?, call) {
            (Ok(m), Some(c)) => ensure!(!reserved && m.callsign == c && m.category as u64 == cat, "callsign", "{text}: sent {c:?} category {cat}, reserved {reserved}, decoded {m:?}"),
            (Err(e), Some(c)) => ensure!(reserved, "callsign", "{text}: sent {c:?}, got {e}"),
            (Ok(m), None) => viol!("wrong-type", "TC{tc} {text} decoded as identification {m:?}"),
            (Err(_), None) => {}
        }
        // position fields
        match no_panic("decode_airborne_position", || adsb::decode_airborne_position(&frame))? {
            Ok(m) => {
                ensure!((9..=18).contains(&tc), "wrong-type", "TC{tc} {text} decoded as position");
                let bits = |at: usize, w: usize| -> u64 { (0..w).fold(0, |a, i| a << 1 | (me[(at + i) / 8] >> (7 - (at + i) % 8) & 1) as u64) };
                ensure!(
                    m.surveillance_status as u64 == bits(5, 2)
                        && m.single_antenna == (bits(7, 1) == 1)
                        && m.encoded_altitude as u64 == bits(8, 12)
                        && m.cpr_odd == (bits(21, 1) == 1)
                        && m.cpr_lat as u64 == bits(22, 17)
                        && m.cpr_lon as u64 == bits(39, 17),
                    "position-fields",
                    "{text}: {m:?}"
                );
            }
            Err(e) => ensure!(!(9..=18).contains(&tc), "rejected-intact", "TC{tc} {text}: {e}"),
        }
        // velocity
        match no_panic("decode_airborne_velocity", || adsb::decode_airborne_velocity(&frame))? {
            Ok(m) => {
                ensure!(tc == 19 && (sub == 1 || sub == 2), "wrong-type", "TC{tc} subtype {sub} {text} decoded as {m:?}");
                let kt = if sub == 2 { 4.0 } else { 1.0 };
                let comp = |dir: u64, v: u64| (if dir == 1 { -1.0 } else { 1.0 }) * (v as f64 - 1.0) * kt;
                if ew == 0 || ns == 0 {
                    s.fault("no_velocity_information");
                    ensure!(m.ground_speed_mps.is_none() && m.heading.is_none(), "invented-velocity", "{text}: E/W field {ew}, N/S field {ns} carry no information, decoded {m:?}");
                } else {
                    let (e, n) = (comp(ew_dir, ew), comp(ns_dir, ns));
                    let gs = e.hypot(n) * 1852.0 / 3600.0;
                    let Some(g) = m.ground_speed_mps else { viol!("velocity", "{text}: no ground speed for {e} kt E, {n} kt N") };
                    ensure!((g.value() - gs).abs() <= 1e-5 * gs, "velocity", "{text}: ground speed {} expected {gs}", g.value());
                    match m.heading {
                        Some(h) => {
                            let want = e.atan2(n).to_degrees().rem_euclid(360.0);
                            ensure!((e != 0.0 || n != 0.0) && lon_gap(h.value(), want) < 1e-6 && (0.0..=360.0).contains(&h.value()), "velocity", "{text}: track {} expected {want}", h.value());
                        }
                        None => ensure!(e == 0.0 && n == 0.0, "velocity", "{text}: no track for {e} kt E, {n} kt N"),
                    }
                }
                match m.vertical_rate_mps {
                    Some(v) => {
                        let want = (if vr_dir == 1 { -1.0 } else { 1.0 }) * (vr as f64 - 1.0) * 64.0 * 0.3048 / 60.0;
                        ensure!(vr != 0, "invented-velocity", "{text}: vertical rate field 0 carries no information, decoded {}", v.value());
                        ensure!((v.value() - want).abs() <= 1e-9 + 1e-5 * want.abs(), "velocity", "{text}: vertical rate {} expected {want}", v.value());
                    }
                    None => ensure!(vr == 0, "velocity", "{text}: no vertical rate for field {vr}"),
                }
            }
            Err(e) => ensure!(!(tc == 19 && (sub == 1 || sub == 2)), "rejected-intact", "TC{tc} subtype {sub} {text}: {e}"),
        }
        // altitude: 25 ft steps
        let ft = s.int(-1000 / 25, 50_175 / 25) * 25;
        let n = ((ft + 1000) / 25) as u16;
        let code = (n >> 4) << 5 | 1 << 4 | n & 0xF;
        match no_panic("decode_altitude", || adsb::decode_altitude(code))? {
            Some(m) => ensure!((m.value() - ft as f64 * 0.3048).abs() < 1e-9, "altitude", "{ft} ft encoded {code:#05x} decoded {} m", m.value()),
            None => viol!("altitude", "{ft} ft encoded {code:#05x} decoded as unavailable"),
        }
        ensure!(adsb::decode_altitude(0).is_none(), "altitude", "code 0 decoded as an altitude");
    }
    Ok(())
}

pub static C12: Prop = Prop {
    id: "C12",
    scenarios: &[("frames", 1, frames)],
    runs_quick: 400_000,
    runs_thorough: 20_000_000,
    rule: "Each run sends random extended squitters (all downlink formats) with independently computed parity through a channel that damages 1-5 bits, a burst of up to 24 bits or the parity field, and through a transport that truncates, pads or garbles the text. Distinct = distinct hash of the damaged frames.",
    real: &["formats::adsb::parse_frame"],
    stub: &["transponder and radio channel"],
    assumptions: &["error patterns are within the guaranteed detection power of the Mode S parity (up to 5 bits, bursts up to 24 bits)"],
};

pub static C13: Prop = Prop {
    id: "C13",
    scenarios: &[("tracking", 3, tracking), ("single", 2, single_positions)],
    runs_quick: 200_000,
    runs_thorough: 4_000_000,
    rule: "tracking: up to three aircraft (poles, equator, antimeridian, zone boundaries included) squitter even and odd positions through a channel that loses, duplicates, delays, reorders and damages them; the receiver pairs what arrives by time stamp and decodes globally, then locally; single: local decoding around references up to half a zone away, and unrelated field pairs. Non-trivial = at least one decoded pair. Distinct states = (latitude half-degree, longitude 4 degrees, parity) cells reached.",
    real: &["formats::adsb::parse_frame", "formats::adsb::decode_airborne_position", "formats::adsb::cpr"],
    stub: &["aircraft, transponder (independent CPR encoder), radio channel, receiver bookkeeping"],
    assumptions: &["ground speed at most 500 m/s, so that a pair not older than 10 s is within the documented validity of global decoding", "time stamps are those of reception at the antenna"],
};

pub static C14: Prop = Prop {
    id: "C14",
    scenarios: &[("fields", 1, fields)],
    runs_quick: 600_000,
    runs_thorough: 8_000_000,
    rule: "Each run encodes random identification, position and velocity squitters (every type code and subtype, reserved characters, 'no information' codes, extreme speeds) from the published bit layout and compares each decoded field. Distinct = distinct frames.",
    real: &["formats::adsb"],
    stub: &["transponder (independent encoder)"],
    assumptions: &[],
};
