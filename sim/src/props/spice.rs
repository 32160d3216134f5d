//! C09 SPICE context histories, C10 ephemeris kernels, C11 damaged kernels.

use super::podio::{cross, Scratch};
use crate::core::{no_panic, Sim, R};
use crate::gen::{civil_days, days_in_month};
use crate::{ensure, viol, Prop};
use siderust::ephemeris::{DynEphemeris, MajorPlanet, PlanetPoint, RuntimeEphemeris};
use siderust::formats::spice as sp;
use siderust::spice::SpiceContext;
use siderust::time::JulianDate;

const T0: f64 = 600_000_000.0;
const H: f64 = 1_000_000.0;
const EMRAT: f64 = 81.300_569_074_190_62;
const AU: f64 = 149_597_870.7;

// ---------------------------------------------------------------------------
// truth

/// State as a polynomial in u = (et - T0) / H; velocity optionally biased.
#[derive(Clone, Debug)]
pub struct Poly {
    c: [Vec<f64>; 3],
    vbias: [f64; 3],
}

impl Poly {
    fn zero() -> Self {
        Poly { c: [vec![], vec![], vec![]], vbias: [0.0; 3] }
    }
    fn random(s: &mut Sim, deg: usize, scales: &[f64]) -> Self {
        let scale = *s.pick(scales);
        let mut c: [Vec<f64>; 3] = Default::default();
        for a in c.iter_mut() {
            *a = (0..=deg).map(|_| s.f64(-scale, scale)).collect();
        }
        Poly { c, vbias: [0.0; 3] }
    }
    fn add(&self, o: &Poly, k: f64) -> Poly {
        let mut r = Poly::zero();
        for i in 0..3 {
            let n = self.c[i].len().max(o.c[i].len());
            r.c[i] = (0..n).map(|j| self.c[i].get(j).unwrap_or(&0.0) + k * o.c[i].get(j).unwrap_or(&0.0)).collect();
            r.vbias[i] = self.vbias[i] + k * o.vbias[i];
        }
        r
    }
    fn pos(&self, et: f64) -> [f64; 3] {
        let u = (et - T0) / H;
        [0, 1, 2].map(|i| self.c[i].iter().rev().fold(0.0, |a, &c| a * u + c))
    }
    fn vel(&self, et: f64) -> [f64; 3] {
        let u = (et - T0) / H;
        [0, 1, 2].map(|i| {
            let mut d = 0.0;
            for j in (1..self.c[i].len()).rev() {
                d = d * u + j as f64 * self.c[i][j];
            }
            d / H + self.vbias[i]
        })
    }
    fn state(&self, et: f64) -> [f64; 6] {
        let (p, v) = (self.pos(et), self.vel(et));
        [p[0], p[1], p[2], v[0], v[1], v[2]]
    }
    fn degree(&self) -> usize {
        self.c.iter().map(|c| c.len().saturating_sub(1)).max().unwrap_or(0)
    }
}

#[derive(Clone, Debug)]
pub struct Seg {
    target: i32,
    center: i32,
    ty: i32,
    frame: i32,
    start: f64,
    end: f64,
    poly: Poly,
    words: Vec<f64>,
}

fn cheb(f: &dyn Fn(f64) -> f64, mid: f64, rad: f64, n: usize) -> Vec<f64> {
    let x: Vec<f64> = (0..n).map(|j| (std::f64::consts::PI * (j as f64 + 0.5) / n as f64).cos()).collect();
    let y: Vec<f64> = x.iter().map(|&x| f(mid + rad * x)).collect();
    (0..n)
        .map(|k| {
            let sum: f64 = (0..n).map(|j| y[j] * (std::f64::consts::PI * k as f64 * (j as f64 + 0.5) / n as f64).cos()).sum();
            sum * if k == 0 { 1.0 } else { 2.0 } / n as f64
        })
        .collect()
}

/// Build a segment of the given type for `poly` over about [start, end].
fn segment(s: &mut Sim, target: i32, center: i32, ty: i32, start: f64, len: f64, poly: Poly) -> Seg {
    let d = poly.degree();
    let mut words = Vec::new();
    let mut end = start + len;
    match ty {
        2 | 3 => {
            let nrec = 1 + s.idx(5);
            let intlen = (len / nrec as f64 / 1350.0).ceil().max(1.0) * 1350.0;
            end = start + intlen * nrec as f64;
            let n = (d + 1 + s.idx(4)).max(2);
            for r in 0..nrec {
                let rad = intlen / 2.0;
                let mid = start + intlen * r as f64 + rad;
                words.push(mid);
                words.push(rad);
                for a in 0..3 {
                    words.extend(cheb(&|t| poly.pos(t)[a], mid, rad, n));
                }
                if ty == 3 {
                    for a in 0..3 {
                        words.extend(cheb(&|t| poly.vel(t)[a], mid, rad, n));
                    }
                }
            }
            let rsize = 2 + n * if ty == 2 { 3 } else { 6 };
            words.extend([start, intlen, rsize as f64, nrec as f64]);
        }
        9 | 13 => {
            let win = if ty == 9 { d.max(1) + 1 + s.idx(3) } else { ((d + 2) / 2).max(2) + s.idx(2) };
            let n = (win + s.idx(8) + if s.chance(1, 12) { 130 } else { 0 }).max(2);
            let mut t = vec![start];
            let step = len / (n - 1) as f64;
            for i in 1..n - 1 {
                t.push(start + step * (i as f64 + s.f64(-0.3, 0.3)));
            }
            t.push(end);
            for &t in &t {
                words.extend(poly.state(t));
            }
            words.extend(&t);
            for k in 0..(n - 1) / 100 {
                words.push(t[k * 100 + 99]);
            }
            words.push((win - 1) as f64);
            words.push(n as f64);
        }
        _ => {
            for _ in 0..s.int(4, 40) {
                words.push(s.f64(-1e3, 1e3));
            }
        }
    }
    Seg { target, center, ty, frame: 1, start, end, poly, words }
}

// ---------------------------------------------------------------------------
// DAF files

pub struct Summ {
    doubles: [f64; 2],
    ints: [i32; 4],
    words: Vec<f64>,
}

/// Lay summaries out in a DAF file: comment records, linked summary records in
/// any physical order, segment data in any physical order, either byte order.
pub fn daf(s: &mut Sim, idw: &str, sums: &[Summ]) -> Vec<u8> {
    let le = !s.chance(1, 3);
    let ncom = s.idx(4);
    let mut batches: Vec<(usize, usize)> = Vec::new();
    let per = *s.pick(&[25usize, 25, 1, 2, 3, 7]);
    let mut i = 0;
    while i < sums.len() {
        let n = per.min(sums.len() - i);
        batches.push((i, n));
        i += n;
    }
    if batches.is_empty() || s.chance(1, 10) {
        batches.push((sums.len(), 0));
        s.probe("empty_summary_record");
    }
    let nb = batches.len();
    // physical slots (pairs of summary and name records)
    let mut slot: Vec<usize> = (0..nb).collect();
    if s.chance(1, 2) {
        s.shuffle(&mut slot);
    }
    let first = 2 + ncom; // record number of slot 0
    let rec_of = |b: usize| first + 2 * slot[b];
    let mut word = (first - 1 + 2 * nb) * 128 + 1;
    let mut addr = vec![(0usize, 0usize); sums.len()];
    let mut order: Vec<usize> = (0..sums.len()).collect();
    if s.chance(1, 2) {
        s.shuffle(&mut order);
    }
    let mut data: Vec<f64> = Vec::new();
    for &k in &order {
        for _ in 0..if s.chance(1, 6) { s.idx(5) } else { 0 } {
            data.push(-1.0e30);
            word += 1;
        }
        addr[k] = (word, word + sums[k].words.len() - 1);
        word += sums[k].words.len();
        data.extend(&sums[k].words);
    }
    let mut out = vec![0u8; (first - 1 + 2 * nb) * 1024];
    let pi = |o: &mut Vec<u8>, at: usize, v: i32| o[at..at + 4].copy_from_slice(&if le { v.to_le_bytes() } else { v.to_be_bytes() });
    let pf = |o: &mut Vec<u8>, at: usize, v: f64| o[at..at + 8].copy_from_slice(&if le { v.to_le_bytes() } else { v.to_be_bytes() });
    out[..8].copy_from_slice(format!("{idw:<8}").as_bytes());
    pi(&mut out, 8, 2);
    pi(&mut out, 12, 6);
    out[16..76].copy_from_slice(format!("{:<60}", "simulated kernel").as_bytes());
    pi(&mut out, 76, rec_of(0) as i32);
    pi(&mut out, 80, rec_of(nb - 1) as i32);
    pi(&mut out, 84, word as i32);
    out[88..96].copy_from_slice(if le { b"LTL-IEEE" } else { b"BIG-IEEE" });
    out[699..727].copy_from_slice(b"FTPSTR:\r:\n:\r\n:\r\0:\x81:\x10\xce:ENDFTP");
    for r in 0..ncom {
        let at = (1 + r) * 1024;
        for k in 0..1000 {
            out[at + k] = b"DAF/SPK comment area \0"[(k + r) % 22];
        }
    }
    for (b, &(i, n)) in batches.iter().enumerate() {
        let at = (rec_of(b) - 1) * 1024;
        pf(&mut out, at, if b + 1 < nb { rec_of(b + 1) as f64 } else { 0.0 });
        pf(&mut out, at + 8, if b > 0 { rec_of(b - 1) as f64 } else { 0.0 });
        pf(&mut out, at + 16, n as f64);
        for k in 0..n {
            let o = at + 24 + k * 40;
            let q = &sums[i + k];
            pf(&mut out, o, q.doubles[0]);
            pf(&mut out, o + 8, q.doubles[1]);
            for (j, v) in q.ints.iter().enumerate() {
                pi(&mut out, o + 16 + 4 * j, *v);
            }
            pi(&mut out, o + 32, addr[i + k].0 as i32);
            pi(&mut out, o + 36, addr[i + k].1 as i32);
        }
        for k in 0..1024 {
            out[at + 1024 + k] = b' ';
        }
    }
    for v in data {
        out.extend(if le { v.to_le_bytes() } else { v.to_be_bytes() });
    }
    out.resize(out.len().div_ceil(1024) * 1024, 0);
    s.h(&out);
    if le {
        s.probe("little_endian_kernel");
    } else {
        s.probe("big_endian_kernel");
    }
    out
}

pub fn spk_file(s: &mut Sim, segs: &[Seg]) -> Vec<u8> {
    let sums: Vec<Summ> = segs.iter().map(|g| Summ { doubles: [g.start, g.end], ints: [g.target, g.center, g.frame, g.ty], words: g.words.clone() }).collect();
    daf(s, "DAF/SPK", &sums)
}

fn seg_start(s: &mut Sim) -> f64 {
    T0 - 1_000_000.0 + 1350.0 * s.int(0, 900) as f64 + 450.0 - ((T0 - 1_000_000.0) % 1350.0)
}

fn close6(a: &[f64; 6], b: &[f64; 6], scale: f64) -> bool {
    (0..3).all(|i| (a[i] - b[i]).abs() <= 1e-9 * scale + 1e-9) && (3..6).all(|i| (a[i] - b[i]).abs() <= 1e-8 * scale / 1e4 + 1e-12)
}

// ---------------------------------------------------------------------------
// C10 a: one kernel, a tree of bodies, overlapping segments on each edge

#[derive(Clone, Debug)]
pub struct Tree {
    pub segs: Vec<Seg>,
    parent: std::collections::BTreeMap<i32, i32>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Want {
    State([f64; 6]),
    Missing,
    Unsupported,
}

const BODIES: [i32; 14] = [10, 1, 2, 3, 301, 399, 4, 499, 5, 599, 6, -82, 2_000_001, 7];

pub fn tree(s: &mut Sim, max_seg: usize) -> Tree {
    let mut parent = std::collections::BTreeMap::new();
    let mut nodes = vec![0i32];
    let nb = 1 + s.idx(8);
    for _ in 0..nb {
        let b = *s.pick(&BODIES);
        if nodes.contains(&b) {
            continue;
        }
        let p = if s.chance(1, 8) { 77 + s.int(0, 1) as i32 } else { nodes[s.idx(nodes.len())] };
        parent.insert(b, p);
        nodes.push(b);
    }
    let edges: Vec<(i32, i32)> = parent.iter().map(|(a, b)| (*a, *b)).collect();
    let n = edges.len() + s.idx(max_seg);
    let mut segs = Vec::new();
    for k in 0..n {
        let (t, c) = if k < edges.len() && s.chance(9, 10) { edges[k] } else { *s.pick(&edges) };
        let ty = *s.pick(&[2, 2, 3, 3, 9, 13, 9, 13, 1]);
        let deg = s.idx(7);
        let mut poly = Poly::random(s, deg, &[1e5, 1e8, 1e3]);
        if ty == 3 || ty == 9 {
            poly.vbias = [s.f64(-3.0, 3.0), s.f64(-3.0, 3.0), s.f64(-3.0, 3.0)];
        }
        let st = seg_start(s);
        let len = 1350.0 * s.int(40, 600) as f64;
        segs.push(segment(s, t, c, ty, st, len, poly));
    }
    if segs.len() > 1 {
        s.shuffle(&mut segs);
    }
    Tree { segs, parent }
}

impl Tree {
    fn path(&self, mut b: i32) -> Vec<i32> {
        let mut v = vec![b];
        while let Some(&p) = self.parent.get(&b) {
            v.push(p);
            b = p;
        }
        v
    }
    /// Last covering segment on the edge (target relative to its parent).
    fn edge(&self, t: i32, et: f64) -> Option<&Seg> {
        self.segs.iter().rev().find(|g| g.target == t && et >= g.start && et <= g.end)
    }
    pub fn want(&self, target: i32, center: i32, et: f64) -> Want {
        if target == center {
            return Want::State([0.0; 6]);
        }
        let (mut a, mut b) = (self.path(target), self.path(center));
        if a.last() != b.last() {
            return Want::Missing;
        }
        while a.len() > 1 && b.len() > 1 && a[a.len() - 2] == b[b.len() - 2] {
            a.pop();
            b.pop();
        }
        let mut out = [0.0; 6];
        let mut unsup = false;
        for (v, sign) in [(&a, 1.0), (&b, -1.0)] {
            for t in &v[..v.len() - 1] {
                let Some(g) = self.edge(*t, et) else { return Want::Missing };
                unsup |= ![2, 3, 9, 13].contains(&g.ty);
                let x = g.poly.state(et);
                for i in 0..6 {
                    out[i] += sign * x[i];
                }
            }
        }
        if unsup {
            return Want::Unsupported;
        }
        Want::State(out)
    }
}

pub fn query_et(s: &mut Sim, segs: &[Seg]) -> f64 {
    match s.below(8) {
        0 => seg_start(s) + s.f64(-2000.0, 800_000.0),
        k => {
            let g = &segs[s.idx(segs.len())];
            match k {
                1 => g.start,
                2 => g.end,
                3 => g.start - s.f64(0.001, 10.0),
                4 => g.end + s.f64(0.001, 10.0),
                5 if g.ty == 2 || g.ty == 3 => {
                    let n = g.words[g.words.len() - 1];
                    let il = g.words[g.words.len() - 3];
                    g.start + il * s.int(0, n as i64) as f64
                }
                5 if g.ty == 9 || g.ty == 13 => {
                    let n = g.words[g.words.len() - 1] as usize;
                    g.words[6 * n + s.idx(n)]
                }
                _ => s.f64(g.start, g.end),
            }
        }
    }
}

fn check_kernel(s: &mut Sim, k: &sp::SpkKernel, t: &Tree, what: &str, n: usize) -> R {
    let mut ids: Vec<i32> = t.parent.keys().chain(t.parent.values()).copied().collect();
    ids.push(0);
    ids.push(4242);
    for _ in 0..n {
        let (a, b) = (*s.pick(&ids), *s.pick(&ids));
        let et = query_et(s, &t.segs);
        let w = t.want(a, b, et);
        let got = no_panic(what, || k.state(a, b, et))?;
        s.checked();
        match (w, &got) {
            (Want::State(x), Ok(y)) => {
                ensure!(close6(&x, y, 1e9), "state", "{what}: state of {a} wrt {b} at {et}: expected {x:?}, got {y:?}");
                s.probe("state_matches");
            }
            (Want::State(x), Err(e)) => viol!("state-missing", "{what}: state of {a} wrt {b} at {et}: expected {x:?}, got error {e}"),
            (w, Ok(y)) => viol!("state-invented", "{what}: state of {a} wrt {b} at {et}: expected {w:?}, got {y:?}"),
            (Want::Missing, Err(_)) => s.probe("outside_coverage_is_error"),
            (Want::Unsupported, Err(_)) => s.probe("unsupported_type_is_error"),
        }
        s.state(crate::core::mix(a as u64 ^ ((b as u64) << 20) ^ ((matches!(w, Want::State(_)) as u64) << 60)));
    }
    Ok(())
}

fn c10_tree(s: &mut Sim) -> R {
    let t = tree(s, 10);
    let data = spk_file(s, &t.segs);
    s.note(format!("kernel: {} segments, {} bytes", t.segs.len(), data.len()));
    let k = match no_panic("SpkKernel", || sp::SpkKernel::from_bytes(data.clone()))? {
        Ok(k) => k,
        Err(e) => viol!("kernel-rejected", "well-formed kernel rejected: {e}"),
    };
    ensure!(k.segments().len() == t.segs.len(), "segment-count", "{} segments listed, {} in the file", k.segments().len(), t.segs.len());
    for (a, b) in k.segments().iter().zip(&t.segs) {
        ensure!(
            (a.target, a.center, a.frame_id, a.data_type) == (b.target, b.center, b.frame, b.ty) && a.start_tdb_seconds == b.start && a.end_tdb_seconds == b.end,
            "segment-list",
            "segment listed as {}/{} type {} {}..{}, file has {}/{} type {} {}..{}",
            a.target, a.center, a.data_type, a.start_tdb_seconds, a.end_tdb_seconds, b.target, b.center, b.ty, b.start, b.end
        );
    }
    check_kernel(s, &k, &t, "SpkKernel", 24)?;
    // The typed provider answers like the kernel it wraps, whoever shares it.
    use siderust::coordinates::centers::Barycentric;
    let center = *t.parent.values().next().unwrap_or(&0);
    let k = std::sync::Arc::new(k);
    let p1 = siderust::pod::spice::SpiceEphemerisProvider::<Barycentric>::from_arc(k.clone(), center);
    let p2 = p1.clone();
    for _ in 0..6 {
        let ids: Vec<i32> = t.parent.keys().copied().collect();
        let a = if ids.is_empty() { 0 } else { *s.pick(&ids) };
        let et = query_et(s, &t.segs);
        let p = if s.chance(1, 2) { &p1 } else { &p2 };
        let got = no_panic("SpiceEphemerisProvider", || siderust::pod::providers::EphemerisProvider::state(p, a, et))?;
        s.checked();
        match (t.want(a, center, et), got) {
            (Want::State(x), Ok(y)) => {
                let y = [y.position.x().value(), y.position.y().value(), y.position.z().value(), y.velocity_km_s.x().value(), y.velocity_km_s.y().value(), y.velocity_km_s.z().value()];
                ensure!(close6(&x, &y, 1e9), "provider", "provider state of {a} wrt {center} at {et}: expected {x:?}, got {y:?}")
            }
            (Want::State(_), Err(e)) => viol!("provider", "provider has no state of {a} wrt {center} at {et}: {e}"),
            (w, Ok(y)) => viol!("provider", "provider invents a state of {a} wrt {center} at {et} ({w:?}): {y:?}"),
            _ => {}
        }
    }
    Ok(())
}

// C10 b: redundant but consistent segments: every chain must agree.
fn c10_consistent(s: &mut Sim) -> R {
    let nb = 3 + s.idx(5);
    let mut bodies: Vec<(i32, Poly)> = vec![(0, Poly::zero())];
    for &b in &BODIES[..nb] {
        let d = 1 + s.idx(6);
        bodies.push((b, Poly::random(s, d, &[1e8, 1e6])));
    }
    let mut segs = Vec::new();
    let n = nb + s.idx(2 * nb);
    for _ in 0..n {
        let i = s.idx(bodies.len());
        let j = s.idx(bodies.len());
        if i == j {
            continue;
        }
        let ty = *s.pick(&[2, 3, 9, 13]);
        let p = bodies[i].1.add(&bodies[j].1, -1.0);
        let st = seg_start(s);
        let len = 1350.0 * s.int(100, 800) as f64;
        segs.push(segment(s, bodies[i].0, bodies[j].0, ty, st, len, p));
    }
    if segs.is_empty() {
        return Ok(());
    }
    let data = spk_file(s, &segs);
    let k = match sp::SpkKernel::from_bytes(data) {
        Ok(k) => k,
        Err(e) => viol!("kernel-rejected", "well-formed kernel rejected: {e}"),
    };
    for _ in 0..24 {
        let (i, j) = (s.idx(bodies.len()), s.idx(bodies.len()));
        let et = query_et(s, &segs);
        // reachable through segments that cover the epoch, in any direction?
        let mut reach = vec![bodies[i].0];
        let mut at = 0;
        while at < reach.len() {
            for g in segs.iter().filter(|g| et >= g.start && et <= g.end) {
                for (x, y) in [(g.target, g.center), (g.center, g.target)] {
                    if x == reach[at] && !reach.contains(&y) {
                        reach.push(y);
                    }
                }
            }
            at += 1;
        }
        let want = reach.contains(&bodies[j].0).then(|| bodies[i].1.add(&bodies[j].1, -1.0).state(et));
        let got = no_panic("SpkKernel::state", || k.state(bodies[i].0, bodies[j].0, et))?;
        s.checked();
        match (want, got) {
            (Some(x), Ok(y)) => {
                ensure!(close6(&x, &y, 1e9), "path-dependent", "{} wrt {} at {et}: expected {x:?}, got {y:?}", bodies[i].0, bodies[j].0);
                s.probe("redundant_path_agrees");
            }
            (Some(x), Err(e)) => viol!("state-missing", "{} wrt {} at {et}: expected {x:?}, got error {e}", bodies[i].0, bodies[j].0),
            (None, Ok(y)) => viol!("state-invented", "{} wrt {} at {et} is not covered but got {y:?}", bodies[i].0, bodies[j].0),
            (None, Err(_)) => s.probe("outside_coverage_is_error"),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C10 c: sets of kernels

fn et_of(jd: f64) -> f64 {
    let tt = (jd - 2_451_545.0) * 86_400.0;
    let mut et = tt;
    for _ in 0..50 {
        let m = 6.239996 + 1.99096871e-7 * et;
        et = tt + 1.657e-3 * (m + 1.671e-2 * m.sin()).sin();
    }
    et
}

fn jd_query(s: &mut Sim) -> f64 {
    let day0 = ((T0 - 1_100_000.0) / 86_400.0).floor();
    2_451_545.0 + day0 + s.int(0, 30 * 64) as f64 / 64.0
}

struct SetModel {
    segs: Vec<Seg>,
}

impl SetModel {
    /// Last loaded covering segment whose centre can itself be resolved.
    fn from_ssb(&self, b: i32, et: f64, depth: usize) -> Option<[f64; 3]> {
        if b == 0 {
            return Some([0.0; 3]);
        }
        if depth > 20 {
            return None;
        }
        for g in self.segs.iter().rev().filter(|g| g.target == b && et >= g.start && et <= g.end) {
            if let Some(c) = self.from_ssb(g.center, et, depth + 1) {
                let p = g.poly.pos(et);
                return Some([c[0] + p[0], c[1] + p[1], c[2] + p[2]]);
            }
        }
        if b == 399 {
            let e = self.from_ssb(3, et, depth + 1)?;
            let m = self.segs.iter().rev().find(|g| g.target == 301 && g.center == 3 && et >= g.start && et <= g.end)?.poly.pos(et);
            return Some([e[0] - m[0] / EMRAT, e[1] - m[1] / EMRAT, e[2] - m[2] / EMRAT]);
        }
        None
    }
}

const PLANETS: [MajorPlanet; 7] = [MajorPlanet::Mercury, MajorPlanet::Venus, MajorPlanet::Mars, MajorPlanet::Jupiter, MajorPlanet::Saturn, MajorPlanet::Uranus, MajorPlanet::Neptune];

fn set_segment(s: &mut Sim) -> Seg {
    // Edges only point from a deeper to a shallower body, so chains never cycle.
    let (t, cs): (i32, &[i32]) = match s.below(9) {
        0 => (10, &[0]),
        1 | 2 => (3, &[0, 0, 0, 10]),
        3 | 4 => (301, &[3, 3, 3, 399]),
        5 | 6 => (399, &[3, 3, 3, 0, 10]),
        7 => (*s.pick(&[1, 2, 4, 5, 6, 7, 8]), &[0, 0, 0, 10]),
        _ => (*s.pick(&[199, 499, 599]), &[0, 10]),
    };
    let mut c = *s.pick(cs);
    if t >= 499 && s.chance(2, 3) {
        c = t / 100;
    }
    let mut ty = *s.pick(&[2, 2, 3]);
    let mut frame = 1;
    match s.below(14) {
        0 => ty = *s.pick(&[9, 13, 1]),
        1 => frame = 17,
        _ => {}
    }
    let d = s.idx(5);
    let p = Poly::random(s, d, &[1e5, 1e8]);
    let st = seg_start(s);
    let len = 1350.0 * s.int(200, 1500) as f64;
    let mut g = segment(s, t, c, ty, st, len, p);
    g.frame = frame;
    g
}

fn usable(g: &Seg) -> bool {
    g.frame == 1 && (g.ty == 2 || g.ty == 3)
}

fn c10_set(s: &mut Sim) -> R {
    let mut set = sp::SpkKernelSet::default();
    let mut model = SetModel { segs: Vec::new() };
    let files = 1 + s.idx(4);
    for _ in 0..files {
        let n = 1 + s.idx(8);
        let mut segs: Vec<Seg> = (0..n).map(|_| set_segment(s)).collect();
        // 301 wrt 399 and 399 wrt 3 may both exist; keep the graph acyclic.
        if segs.iter().chain(&model.segs).any(|g| g.target == 301 && g.center == 399) && segs.iter().any(|g| g.target == 399 && g.center == 301) {
            segs.retain(|g| g.center != 301);
        }
        let mut data = spk_file(s, &segs);
        if s.chance(1, 4) {
            // a damaged kernel is refused and changes nothing
            let n = data.len();
            match s.below(3) {
                0 => data.truncate(s.idx(1024)),
                1 => data[..3].copy_from_slice(b"XXX"),
                _ => data[8..16].fill(0),
            }
            let r = no_panic("SpkKernelSet::push_bytes", || set.push_bytes(&data))?;
            ensure!(r.is_err(), "damaged-accepted", "a kernel with a damaged file record ({n} bytes) was accepted");
            s.fault("damaged_kernel_push");
        } else {
            let r = no_panic("SpkKernelSet::push_bytes", || set.push_bytes(&data))?;
            let ok = segs.iter().any(usable);
            ensure!(r.is_ok() == ok, "push", "push_bytes returned {:?} for a kernel with {} usable segments", r.map_err(|e| e.to_string()), segs.iter().filter(|g| usable(g)).count());
            for g in &segs {
                s.note(format!("  {} wrt {} type {} frame {} [{}, {}]", g.target, g.center, g.ty, g.frame, g.start, g.end));
            }
            model.segs.extend(segs.into_iter().filter(usable));
        }
        ensure!(set.segment_count() == model.segs.len(), "segment-count", "{} segments loaded, expected {}", set.segment_count(), model.segs.len());
        for _ in 0..10 {
            let jd = jd_query(s);
            let et = et_of(jd);
            let j = JulianDate::new(jd);
            let (a, b) = (*s.pick(&[10, 3, 301, 399, 1, 2, 4, 5, 499, 599, 199, 0]), *s.pick(&[399, 0, 10, 3, 301]));
            let want = match (model.from_ssb(a, et, 0), model.from_ssb(b, et, 0)) {
                (Some(x), Some(y)) => Some([x[0] - y[0], x[1] - y[1], x[2] - y[2]]),
                _ => None,
            };
            let got = no_panic("SpkKernelSet::try_geometric_state", || set.try_geometric_state(a, b, j))?;
            s.checked();
            cmp_pos(s, "set", &format!("{a} wrt {b} at JD {jd}"), want, got.map(|d| [d.x().value(), d.y().value(), d.z().value()]).map_err(|e| e.to_string()))?;
            // planets seen from the Earth
            let p = *s.pick(&PLANETS);
            let pt = *s.pick(&[PlanetPoint::SystemBarycenter, PlanetPoint::SystemBarycenter, PlanetPoint::Center]);
            let id = p.naif_id(pt);
            let want = match (model.from_ssb(id, et, 0), model.from_ssb(399, et, 0)) {
                (Some(x), Some(y)) => Some([x[0] - y[0], x[1] - y[1], x[2] - y[2]]),
                _ => None,
            };
            let got = no_panic("SpkKernelSet::try_major_planet_geocentric", || set.try_major_planet_geocentric(p, pt, j))?;
            s.checked();
            cmp_pos(s, "planet", &format!("{p:?} {pt:?} from the Earth at JD {jd}"), want, got.map(|d| [d.x().value(), d.y().value(), d.z().value()]).map_err(|e| e.to_string()))?;
        }
    }
    Ok(())
}

fn cmp_pos(s: &mut Sim, kind: &str, what: &str, want: Option<[f64; 3]>, got: Result<[f64; 3], String>) -> R {
    match (want, got) {
        (Some(x), Ok(y)) => {
            ensure!((0..3).all(|i| (x[i] - y[i]).abs() <= 2.0), kind, "{what}: expected {x:?} km, got {y:?}");
            s.probe("position_matches");
        }
        (Some(x), Err(e)) => viol!(format!("{kind}-missing"), "{what}: expected {x:?}, got error {e}"),
        (None, Ok(y)) => viol!(format!("{kind}-invented"), "{what}: not covered, but got {y:?}"),
        (None, Err(_)) => s.probe("not_covered_is_error"),
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C10 d: runtime ephemeris

fn ecl_matrix() -> Result<[[f64; 3]; 3], String> {
    // Columns: the ecliptic image of each ICRF axis, read through the real transformation.
    let mut m = [[0.0; 3]; 3];
    for a in 0..3 {
        let mut s = Sim::new(crate::core::Tape::replay(vec![]), false);
        let mut p = Poly::zero();
        p.c = [vec![0.0], vec![0.0], vec![0.0]];
        p.c[a] = vec![AU];
        let g = segment(&mut s, 10, 0, 2, T0 - 1350.0 * 1000.0, 1350.0 * 2000.0, p);
        let d = spk_file(&mut s, &[g]);
        let e = RuntimeEphemeris::from_bytes(&d).map_err(|e| e.to_string())?;
        let v = e.try_sun_barycentric(JulianDate::new(2_451_545.0 + T0 / 86400.0)).map_err(|e| e.to_string())?;
        for (i, x) in [v.x().value(), v.y().value(), v.z().value()].iter().enumerate() {
            m[i][a] = *x;
        }
    }
    Ok(m)
}

fn mv(m: &[[f64; 3]; 3], v: [f64; 3]) -> [f64; 3] {
    [0, 1, 2].map(|i| m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2])
}

fn c10_runtime(s: &mut Sim) -> R {
    let m = match no_panic("ecliptic rotation", ecl_matrix)? {
        Ok(m) => m,
        Err(e) => viol!("runtime-rejected", "single-segment kernel: {e}"),
    };
    // rotation about x by the J2000 obliquity, within the 30 mas frame bias
    let eps = 84_381.448f64 / 3600.0;
    let (se, ce) = eps.to_radians().sin_cos();
    let want = [[1.0, 0.0, 0.0], [0.0, ce, se], [0.0, -se, ce]];
    for i in 0..3 {
        for j in 0..3 {
            ensure!((m[i][j] - want[i][j]).abs() < 1e-6, "ecliptic", "ICRF to ecliptic rotation {m:?}, expected about {want:?}");
        }
    }
    let with_earth = s.chance(1, 2);
    let mut segs = Vec::new();
    let n = 3 + s.idx(9);
    for k in 0..n {
        let (t, c) = *s.pick(&[(10, 0), (3, 0), (301, 3), (399, 3), (10, 3), (301, 399), (4, 0)]);
        let (t, c) = if k < 3 { [(10, 0), (3, 0), (301, 3)][k] } else { (t, c) };
        if (t, c) == (399, 3) && !with_earth {
            continue;
        }
        if k < 3 && s.chance(1, 12) {
            s.probe("body_missing");
            continue;
        }
        let mut ty = *s.pick(&[2, 2, 3]);
        let mut frame = 1;
        if k >= 3 {
            match s.below(12) {
                0 => ty = 9,
                1 => frame = 17,
                _ => {}
            }
        }
        let d = s.idx(5);
        let mut p = Poly::random(s, d, &[1e5, 1e8]);
        if ty == 3 {
            p.vbias = [s.f64(-5.0, 5.0), s.f64(-5.0, 5.0), s.f64(-5.0, 5.0)];
        }
        let st = if k < 3 { T0 - 1_100_000.0 - ((T0 - 1_100_000.0) % 1350.0) + 450.0 } else { seg_start(s) };
        let len = 1350.0 * if k < 3 { s.int(300, 2400) } else { s.int(40, 800) } as f64;
        let mut g = segment(s, t, c, ty, st, len, p);
        g.frame = frame;
        segs.push(g);
    }
    if segs.is_empty() {
        return Ok(());
    }
    if s.chance(1, 2) {
        s.shuffle(&mut segs);
    }
    let data = spk_file(s, &segs);
    let ok = segs.iter().any(usable);
    let e = match no_panic("RuntimeEphemeris::from_bytes", || RuntimeEphemeris::from_bytes(&data))? {
        Ok(e) => e,
        Err(e) => {
            ensure!(!ok, "runtime-rejected", "well-formed kernel rejected: {e}");
            return Ok(());
        }
    };
    ensure!(ok, "runtime-accepted", "kernel without usable segments accepted");
    // Other ways to the same ephemeris: from disk, from the parsed index, from the bare segments.
    let e = match s.below(8) {
        0 => {
            let dir = Scratch::new();
            let f = dir.0.join("kernel.bsp");
            std::fs::write(&f, &data).expect("scratch file");
            match no_panic("RuntimeEphemeris::from_bsp", || RuntimeEphemeris::from_bsp(&f))? {
                Ok(e) => e,
                Err(e) => viol!("runtime-rejected", "from disk: {e}"),
            }
        }
        1 | 2 => match no_panic("parse_indexed_segments", || sp::spk::parse_indexed_segments(&data).map(RuntimeEphemeris::from_indexed_segments))? {
            Ok(e) => e,
            Err(e) => viol!("runtime-rejected", "from the index: {e}"),
        },
        3 | 4 => {
            let pair = |t: i32, c: i32| segs.iter().filter(|g| (g.target, g.center) == (t, c)).collect::<Vec<_>>();
            let four = [pair(10, 0), pair(3, 0), pair(301, 3), pair(399, 3)];
            let whole = four[..3].iter().all(|v| !v.is_empty()) && four.iter().all(|v| v.iter().all(|g| usable(g)));
            let got = no_panic("parse_bsp", || sp::spk::parse_bsp(&data))?;
            s.checked();
            if four[..3].iter().any(|v| v.is_empty()) {
                ensure!(got.is_err(), "runtime-accepted", "parse_bsp made up a missing body");
            }
            if four.iter().any(|v| v.first().is_some_and(|g| !usable(g))) {
                ensure!(got.is_err(), "runtime-accepted", "parse_bsp took a segment of another frame or kind for an ICRF polynomial");
            }
            if whole {
                match got {
                    Ok(b) if four.iter().all(|v| v.len() <= 1) => RuntimeEphemeris::from_segments(b),
                    Ok(_) => e,
                    Err(e) => viol!("runtime-rejected", "bare segments: {e}"),
                }
            } else {
                e
            }
        }
        _ => e,
    };
    let segs: Vec<Seg> = segs.into_iter().filter(usable).collect();
    let has_earth = segs.iter().any(|g| (g.target, g.center) == (399, 3));
    let e2 = e.clone();
    for _ in 0..10 {
        let jd = jd_query(s);
        let et = et_of(jd);
        let j = JulianDate::new(jd);
        let at = |t: i32, c: i32| -> Option<[f64; 6]> { segs.iter().rev().find(|g| g.target == t && g.center == c && et >= g.start && et <= g.end).map(|g| g.poly.state(et)) };
        let sub = |a: [f64; 6], b: [f64; 6], k: f64| -> [f64; 6] { std::array::from_fn(|i| a[i] - k * b[i]) };
        let sun = at(10, 0);
        let earth = match (at(3, 0), at(399, 3), at(301, 3)) {
            (Some(b), e, _) if has_earth => e.map(|e| sub(b, e, -1.0)),
            (Some(b), _, Some(m)) if !has_earth => Some(sub(b, m, 1.0 / EMRAT)),
            _ => None,
        };
        let moon = if has_earth { at(301, 3).zip(at(399, 3)).map(|(m, e)| sub(m, e, 1.0)) } else { at(301, 3).map(|m| sub(m, m, -1.0 / EMRAT)) };
        let helio = earth.zip(sun).map(|(a, b)| sub(a, b, 1.0));
        let eph: &RuntimeEphemeris = if s.chance(1, 2) { &e } else { &e2 };
        let p3 = |w: Option<[f64; 6]>, k: f64| w.map(|w| mv(&m, [w[0], w[1], w[2]]).map(|x| x / k));
        let v3 = |w: Option<[f64; 6]>| w.map(|w| mv(&m, [w[3], w[4], w[5]]).map(|x| x * 86_400.0 / AU));
        macro_rules! q {
            ($name:literal, $got:expr, $plain:expr, $want:expr, $tol:expr) => {{
                let got = no_panic($name, || $got)?;
                s.checked();
                if let Ok(g) = &got {
                    let h = no_panic(concat!($name, " (unchecked form)"), || $plain)?;
                    ensure!((g.x(), g.y(), g.z()) == (h.x(), h.y(), h.z()), concat!("runtime-", $name), "{} at JD {jd}: {g:?} and {h:?}", $name);
                }
                match ($want, got) {
                    (Some(w), Ok(g)) => {
                        let g = [g.x().value(), g.y().value(), g.z().value()];
                        ensure!((0..3).all(|i| (w[i] - g[i]).abs() <= $tol), concat!("runtime-", $name), "{} at JD {jd}: expected {w:?}, got {g:?}", $name);
                        s.probe("runtime_value_matches");
                    }
                    (Some(w), Err(e)) => viol!(concat!("runtime-", $name), "{} at JD {jd}: expected {w:?}, got error {e}", $name),
                    (None, Ok(g)) => viol!(concat!("runtime-invented-", $name), "{} at JD {jd} is not covered, got {g:?}", $name),
                    (None, Err(_)) => s.probe("runtime_not_covered_is_error"),
                }
            }};
        }
        let mut order = [0, 1, 2, 3, 4];
        s.shuffle(&mut order);
        for o in order {
            match o {
                0 => q!("sun_barycentric", eph.try_sun_barycentric(j), eph.sun_barycentric(j), p3(sun, AU), 2e-8),
                1 => q!("earth_barycentric", eph.try_earth_barycentric(j), eph.earth_barycentric(j), p3(earth, AU), 2e-8),
                2 => q!("earth_heliocentric", eph.try_earth_heliocentric(j), eph.earth_heliocentric(j), p3(helio, AU), 2e-8),
                3 => q!("moon_geocentric", eph.try_moon_geocentric(j), eph.moon_geocentric(j), p3(moon, 1.0), 2.0),
                _ => q!("earth_velocity", eph.try_earth_barycentric_velocity(j), eph.earth_barycentric_velocity(j), v3(earth), 1e-8),
            }
        }
    }
    Ok(())
}

pub static C10: Prop = Prop {
    id: "C10",
    scenarios: &[("kernel-tree", 4, c10_tree), ("redundant-chains", 2, c10_consistent), ("kernel-set", 3, c10_set), ("runtime-ephemeris", 3, c10_runtime)],
    runs_quick: 150_000,
    runs_thorough: 3_000_000,
    rule: "one simulated run = generated polynomial motions, the kernel files that encode them (random layout, byte order, segment types and overlap), a load history including damaged files, and 20-60 state queries",
    real: &["formats::spice::{daf,kernel,segment,spk,spk_kernel}", "ephemeris::RuntimeEphemeris", "ephemeris::jpl::{eval,bodies}", "pod::spice::SpiceEphemerisProvider"],
    stub: &["kernel files (byte images built by the simulator from exact polynomial motions)"],
    assumptions: &["segment descriptors state the coverage of their data exactly", "the ICRF to ecliptic rotation is read once from the real transformation and only checked to be the J2000 obliquity within 1e-6"],
};

// ---------------------------------------------------------------------------
// C09: SpiceContext load histories

type M3 = [[f64; 3]; 3];
fn mul(a: &M3, b: &M3) -> M3 {
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    o
}
fn tr(a: &M3) -> M3 {
    std::array::from_fn(|i| std::array::from_fn(|j| a[j][i]))
}
fn rand_rot(s: &mut Sim) -> M3 {
    let q: [f64; 4] = [s.normal() + 1e-3, s.normal(), s.normal(), s.normal()];
    let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
    let [w, x, y, z] = q.map(|v| v / n);
    [
        [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)],
        [2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x)],
        [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y)],
    ]
}

#[derive(Clone, Debug)]
struct Frame {
    id: i32,
    name: String,
    class: i32,
    class_id: i32,
    center: i32,
    tk: Option<(M3, String)>,
}
#[derive(Clone, Debug)]
struct Body {
    id: i32,
    pole_ra: Vec<f64>,
    pole_dec: Vec<f64>,
    pm: Vec<f64>,
    radii: Option<Vec<f64>>,
}
#[derive(Clone, Debug)]
struct Sclk {
    id: i32,
    co: Vec<[f64; 3]>,
}
#[derive(Clone, Debug)]
struct Lsk {
    a: f64,
    table: Vec<(i64, i64, i64, f64)>,
}
#[derive(Clone, Debug)]
struct Ins {
    id: i32,
    shape: Option<&'static str>,
    frame: Option<String>,
    bore: Option<[f64; 3]>,
    refa: Option<f64>,
    crossa: Option<f64>,
}
#[derive(Clone, Debug, Default)]
struct Text {
    lsk: Option<Lsk>,
    frames: Vec<Frame>,
    bodies: Vec<Body>,
    sclks: Vec<Sclk>,
    ins: Vec<Ins>,
}

fn num_txt(s: &mut Sim, v: f64) -> String {
    match s.below(5) {
        0 if v == v.trunc() && v.abs() < 1e15 => format!("{}", v as i64),
        1 => format!("{v:e}").replace('e', "E"),
        2 => {
            let t = format!("{v:e}");
            t.replace('e', *s.pick(&["D", "d", "D+"])).replace("+-", "-")
        }
        3 if v >= 0.0 => format!("+{v:?}"),
        _ => format!("{v:?}"),
    }
}

fn arr_txt(s: &mut Sim, items: &[String]) -> String {
    if items.len() == 1 && s.chance(1, 2) {
        return items[0].clone();
    }
    let mut o = String::from("(");
    for (i, it) in items.iter().enumerate() {
        if i > 0 {
            o.push_str(*s.pick(&[",", ", ", " ", "\n     ", ",\n\t", " , "]));
        } else {
            o.push_str(*s.pick(&[" ", "", "\n   "]));
        }
        o.push_str(it);
    }
    o.push_str(*s.pick(&[" )", ")", "\n)"]));
    o
}

fn rand_frame(s: &mut Sim, known: &[String], within: &[Frame]) -> Option<Frame> {
    let id = *s.pick(&[-82_000, -82_001, 1_400_001, 10_013, 1_500_000, -82_002, 31_006]);
    let name = format!("{}_{}", s.pick(&["CASSINI", "IAU", "Sim", "MOON"]), s.int(0, 5));
    if within.iter().any(|f| f.id == id || f.name.eq_ignore_ascii_case(&name)) {
        return None;
    }
    let class = *s.pick(&[4, 4, 4, 2, 2, 2, 1, 3, 5]);
    let class_id = if class == 2 { *s.pick(&[399, 499, 301, 10]) } else { id };
    let tk = (class == 4 && s.chance(9, 10)).then(|| {
        let mut pool: Vec<String> = vec!["J2000".into(), "j2000".into(), "J2000".into()];
        pool.extend(known.iter().cloned());
        pool.extend(within.iter().map(|f| f.name.clone()));
        if s.chance(1, 12) {
            pool = vec!["NO_SUCH_FRAME".into(), name.clone()];
        }
        (rand_rot(s), s.pick(&pool).clone())
    });
    Some(Frame { id, name, class, class_id, center: *s.pick(&[399, -82, 0]), tk })
}

fn rand_text(s: &mut Sim, known: &[String]) -> Text {
    let mut t = Text::default();
    let parts = 1 + s.idx(3);
    for _ in 0..parts {
        match s.below(5) {
            0 => {
                let mut table = Vec::new();
                let mut y = s.int(1960, 1975);
                let mut d = s.int(5, 15) as f64;
                for _ in 0..1 + s.idx(12) {
                    let m = s.int(1, 12);
                    let day = match s.below(3) {
                        0 => 1,
                        1 => days_in_month(y, m),
                        _ => s.int(1, days_in_month(y, m)),
                    };
                    table.push((y, m, day, d));
                    y += s.int(1, 6);
                    d += if s.chance(1, 10) { -1.0 } else { 1.0 };
                }
                t.lsk = Some(Lsk { a: *s.pick(&[32.184, 32.184, 30.0]), table });
            }
            1 => {
                for _ in 0..1 + s.idx(5) {
                    if let Some(f) = rand_frame(s, known, &t.frames) {
                        t.frames.push(f);
                    }
                }
            }
            2 => {
                for _ in 0..1 + s.idx(3) {
                    let id = *s.pick(&[399, 499, 301, 10]);
                    if t.bodies.iter().any(|b| b.id == id) {
                        continue;
                    }
                    let v = |s: &mut Sim, lo: f64, hi: f64, rate: f64| {
                        let mut v = vec![s.f64(lo, hi)];
                        for _ in 0..s.idx(3) {
                            let r = if v.len() == 1 { s.f64(-rate, rate) } else { 0.0 };
                            v.push(r);
                        }
                        v
                    };
                    let mut b = Body { id, pole_ra: v(s, 0.0, 360.0, 2.0), pole_dec: v(s, -90.0, 90.0, 2.0), pm: v(s, 0.0, 360.0, 1000.0), radii: None };
                    if s.chance(1, 3) {
                        let n = 2 + s.idx(2);
                        b.radii = Some((0..n).map(|_| s.f64(1000.0, 9000.0)).collect());
                        if s.chance(1, 3) {
                            b.pole_ra.clear();
                            b.pole_dec.clear();
                            b.pm.clear();
                        }
                    }
                    t.bodies.push(b);
                }
            }
            3 => {
                for _ in 0..1 + s.idx(2) {
                    let id = *s.pick(&[82, 84, 236]);
                    if t.sclks.iter().any(|b| b.id == id) {
                        continue;
                    }
                    let mut co = Vec::new();
                    let (mut k, mut e) = (s.f64(0.0, 1e9), s.f64(-1e8, 1e8));
                    for _ in 0..1 + s.idx(5) {
                        let r = s.f64(0.5, 300.0);
                        co.push([k, e, r]);
                        let dt = s.f64(1e3, 1e7);
                        e += dt;
                        k += dt * r + s.f64(0.0, 5.0);
                    }
                    t.sclks.push(Sclk { id, co });
                }
            }
            _ => {
                for _ in 0..1 + s.idx(2) {
                    let id = *s.pick(&[-82_360, -82_361, -159_500]);
                    if t.ins.iter().any(|b| b.id == id) {
                        continue;
                    }
                    let mut i = Ins { id, shape: None, frame: None, bore: None, refa: None, crossa: None };
                    i.shape = Some(*s.pick(&["CIRCLE", "RECTANGLE", "ELLIPSE", "POLYGON", "TRIANGLE"]));
                    if s.chance(2, 3) {
                        i.frame = Some(s.pick(&["CASSINI_1", "cassini_iss"]).to_string());
                    }
                    if s.chance(2, 3) {
                        i.bore = Some([s.f64(-1.0, 1.0), s.f64(-1.0, 1.0), s.int(-2, 2) as f64]);
                    }
                    if s.chance(2, 3) {
                        i.refa = Some(s.f64(0.0, 3.0));
                    }
                    if s.chance(1, 2) {
                        i.crossa = Some(s.int(0, 3) as f64);
                    }
                    t.ins.push(i);
                }
            }
        }
    }
    t
}

const MONTHS: [&str; 12] = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"];

/// Assignments as (key, value items, is_array).
fn assignments(s: &mut Sim, t: &Text) -> Vec<(String, Vec<String>)> {
    let mut v: Vec<(String, Vec<String>)> = Vec::new();
    let q = |x: &str| format!("'{x}'");
    if let Some(l) = &t.lsk {
        v.push(("DELTET/DELTA_T_A".into(), vec![num_txt(s, l.a)]));
        v.push(("DELTET/K".into(), vec!["1.657D-3".into()]));
        v.push(("DELTET/M".into(), vec!["6.239996D0".into(), "1.99096871D-7".into()]));
        let mut it = Vec::new();
        for (y, m, d, k) in &l.table {
            it.push(num_txt(s, *k));
            it.push(format!("@{y}-{}-{d}", MONTHS[*m as usize - 1]));
        }
        v.push(("DELTET/DELTA_AT".into(), it));
    }
    for f in &t.frames {
        v.push((format!("FRAME_{}", f.name), vec![f.id.to_string()]));
        v.push((format!("FRAME_{}_NAME", f.id), vec![q(&f.name)]));
        v.push((format!("FRAME_{}_CLASS", f.id), vec![f.class.to_string()]));
        v.push((format!("FRAME_{}_CLASS_ID", f.id), vec![f.class_id.to_string()]));
        v.push((format!("FRAME_{}_CENTER", f.id), vec![f.center.to_string()]));
        if let Some((m, r)) = &f.tk {
            v.push((format!("TKFRAME_{}_SPEC", f.id), vec![q("MATRIX")]));
            v.push((format!("TKFRAME_{}_RELATIVE", f.id), vec![q(r)]));
            let c = tr(m);
            let it = c.iter().flatten().map(|x| num_txt(s, *x)).collect();
            v.push((format!("TKFRAME_{}_MATRIX", f.id), it));
        }
    }
    for b in &t.bodies {
        for (k, x) in [("POLE_RA", &b.pole_ra), ("POLE_DEC", &b.pole_dec), ("PM", &b.pm)] {
            if !x.is_empty() {
                let it = x.iter().map(|x| num_txt(s, *x)).collect();
                v.push((format!("BODY{}_{k}", b.id), it));
            }
        }
        if let Some(r) = &b.radii {
            let it = r.iter().map(|x| num_txt(s, *x)).collect();
            v.push((format!("BODY{}_RADII", b.id), it));
        }
    }
    for c in &t.sclks {
        v.push((format!("SCLK_DATA_TYPE_{}", c.id), vec!["1".into()]));
        let it = c.co.iter().flatten().map(|x| num_txt(s, *x)).collect();
        v.push((format!("SCLK01_COEFFICIENTS_{}", c.id), it));
    }
    for i in &t.ins {
        if let Some(x) = i.shape {
            v.push((format!("INS{}_FOV_SHAPE", i.id), vec![q(&x.to_lowercase())]));
        }
        if let Some(x) = &i.frame {
            v.push((format!("INS{}_FOV_FRAME", i.id), vec![q(x)]));
        }
        if let Some(x) = i.bore {
            let it = x.iter().map(|x| num_txt(s, *x)).collect();
            v.push((format!("INS{}_BORESIGHT", i.id), it));
        }
        for (k, x) in [("REF", i.refa), ("CROSS", i.crossa)] {
            if let Some(x) = x {
                v.push((format!("INS{}_FOV_{k}_ANGLE", i.id), vec![num_txt(s, x)]));
            }
        }
    }
    v
}

fn render(s: &mut Sim, mut v: Vec<(String, Vec<String>)>) -> String {
    if s.chance(1, 2) {
        s.shuffle(&mut v);
    }
    let mut o = String::from("KPL/XX\n\nText before the data: A = ( 1, 2 'unbalanced\n");
    let mut data = false;
    for (k, it) in v {
        if !data || s.chance(1, 6) {
            if data {
                o.push_str("\\begintext\n  FRAME_XX = 'ignored' ( \n");
            }
            o.push_str(*s.pick(&["\\begindata\n", "   \\begindata\n", "\\begindata   \n\n"]));
            data = true;
        }
        if s.chance(1, 10) {
            o.push_str("/* a comment = 1 */\n");
        }
        let eq = |s: &mut Sim| *s.pick(&[" = ", "=", "   =   "]);
        let strings = it[0].starts_with('\'');
        if it.len() > 1 && !strings && s.chance(1, 5) {
            // continuation with +=
            let cut = 1 + s.idx(it.len() - 1);
            let a = arr_txt(s, &it[..cut]);
            o.push_str(&format!("{k}{}{a}\n", eq(s)));
            if s.chance(1, 3) {
                o.push('\n');
            }
            let b = arr_txt(s, &it[cut..]);
            o.push_str(&format!("{k} += {b}\n"));
            s.probe("continued_assignment");
        } else if it.len() == 1 && (strings || !(k.contains("_POLE") || k.ends_with("_PM")) || s.chance(3, 4)) {
            o.push_str(&format!("{k}{}{}\n", eq(s), it[0]));
        } else {
            let a = arr_txt(s, &it);
            o.push_str(&format!("  {k}{}{a}\n", eq(s)));
        }
    }
    if s.chance(1, 2) {
        o.push_str("\\begintext\nTrailing text: = ( '\n");
    }
    if s.chance(1, 5) {
        o = o.replace('\n', "\r\n");
    }
    o
}

fn text_kernel(s: &mut Sim, t: &Text) -> String {
    let v = assignments(s, t);
    let x = render(s, v);
    s.h(x.as_bytes());
    x
}

#[derive(Default, Clone)]
struct CtxModel {
    spk: Vec<Tree>,
    ck: Vec<Vec<CkSeg>>,
    lsk: Option<Lsk>,
    frames: Vec<Frame>,
    bodies: Vec<Body>,
    n_pck: usize,
    n_fk: usize,
    sclks: Vec<Sclk>,
}

#[derive(Clone, Debug)]
struct CkSeg {
    inst: i32,
    rec: Vec<(f64, [f64; 4])>,
    start: f64,
    end: f64,
}

fn qnorm(q: [f64; 4]) -> [f64; 4] {
    let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
    q.map(|x| x / n)
}
fn slerp(a: [f64; 4], b: [f64; 4], t: f64) -> [f64; 4] {
    let (a, mut b) = (qnorm(a), qnorm(b));
    let mut d: f64 = (0..4).map(|i| a[i] * b[i]).sum();
    if d < 0.0 {
        b = b.map(|x| -x);
        d = -d;
    }
    let o: [f64; 4] = std::array::from_fn(|i| b[i] - d * a[i]);
    let n = o.iter().map(|x| x * x).sum::<f64>().sqrt();
    if n < 1e-12 {
        return a;
    }
    let th = n.atan2(d) * t;
    std::array::from_fn(|i| a[i] * th.cos() + o[i] / n * th.sin())
}

fn ck_kernel(s: &mut Sim) -> (Vec<CkSeg>, Vec<u8>) {
    let mut segs = Vec::new();
    let mut sums = Vec::new();
    let mut t = s.f64(0.0, 1e6);
    for _ in 0..1 + s.idx(4) {
        let inst = *s.pick(&[-82_000, -82_001]);
        let n = 1 + s.idx(8);
        let mut rec = Vec::new();
        let start = t;
        let mut q = [s.normal(), s.normal(), s.normal(), s.normal() + 0.01];
        for _ in 0..n {
            rec.push((t, qnorm(q)));
            t += s.f64(0.5, 1000.0);
            let k = *s.pick(&[1e-4, 0.01, 0.3, 2.0]);
            for x in q.iter_mut() {
                *x += k * s.normal();
            }
            if s.chance(1, 4) {
                q = q.map(|x| -x);
            }
        }
        let end = rec[n - 1].0;
        t += s.f64(1.0, 500.0);
        let mut w = Vec::new();
        for (t, q) in &rec {
            w.push(*t);
            w.extend(q);
        }
        w.push(n as f64);
        let dt = if s.chance(1, 10) { 3 } else { 1 };
        sums.push(Summ { doubles: [start, end], ints: [inst, 1, dt, 0], words: w });
        if dt == 1 {
            segs.push(CkSeg { inst, rec, start, end });
        }
    }
    let d = daf(s, "DAF/CK", &sums);
    (segs, d)
}

impl CtxModel {
    fn frame_id(&self, id: i32) -> Option<Frame> {
        if let Some(f) = self.frames.iter().rev().find(|f| f.id == id) {
            return Some(f.clone());
        }
        None
    }
    fn frame_name(&self, n: &str) -> Option<Frame> {
        self.frames.iter().rev().find(|f| f.name.eq_ignore_ascii_case(n)).cloned()
    }
    fn to_j2000(&self, id: i32, et: f64, depth: usize) -> Option<M3> {
        let ident = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
        if id == 1 {
            return Some(ident);
        }
        if depth > 40 {
            return None;
        }
        let f = self.frame_id(id)?;
        match (f.class, &f.tk) {
            (4, Some((m, rel))) => {
                let r = if rel.eq_ignore_ascii_case("J2000") { ident } else { self.to_j2000(self.frame_name(rel)?.id, et, depth + 1)? };
                Some(mul(&r, m))
            }
            (2, _) => {
                let b = self.bodies.iter().rev().find(|b| b.id == f.class_id && !b.pole_ra.is_empty())?;
                let g = |v: &[f64], x: f64| (v[0] + v.get(1).unwrap_or(&0.0) * x).to_radians();
                let (d, c) = (et / 86_400.0, et / 86_400.0 / 36_525.0);
                let (ra, dec, w) = (g(&b.pole_ra, c), g(&b.pole_dec, c), g(&b.pm, d));
                let z = [dec.cos() * ra.cos(), dec.cos() * ra.sin(), dec.sin()];
                let node = [-ra.sin(), ra.cos(), 0.0];
                let n2 = cross(z, node);
                let x: [f64; 3] = std::array::from_fn(|i| node[i] * w.cos() + n2[i] * w.sin());
                let y = cross(z, x);
                Some(std::array::from_fn(|i| [x[i], y[i], z[i]]))
            }
            _ => None,
        }
    }
    fn tai_utc(&self, et: f64) -> Option<f64> {
        let l = self.lsk.as_ref()?;
        let mut out = 0.0;
        for (y, m, d, k) in &l.table {
            let utc = (civil_days(*y, *m, *d) - civil_days(2000, 1, 1)) as f64 * 86_400.0 - 43_200.0;
            if et >= utc + l.a + k {
                out = *k;
            }
        }
        Some(out)
    }
    fn apply(&mut self, t: &Text) {
        if let Some(l) = &t.lsk {
            self.lsk = Some(l.clone());
        }
        self.n_fk += !t.frames.is_empty() as usize;
        self.frames.extend(t.frames.iter().cloned());
        self.n_pck += !t.bodies.is_empty() as usize;
        self.bodies.extend(t.bodies.iter().cloned());
        let mut k = t.sclks.clone();
        k.sort_by_key(|c| c.id);
        self.sclks.extend(k);
    }
}

/// Check every query surface of the context against the model.
fn check_ctx(s: &mut Sim, c: &SpiceContext, m: &CtxModel, n: usize) -> R {
    let ks = c.kernel_set();
    let got = (ks.spk_count(), ks.ck_count(), ks.has_lsk(), ks.pck_text_kernels().count(), ks.fk_kernels().count(), ks.sclk_kernels().count());
    let want = (m.spk.len(), m.ck.len(), m.lsk.is_some(), m.n_pck, m.n_fk, m.sclks.len());
    ensure!(got == want, "counts", "loaded kernels (spk, ck, lsk, pck, fk, sclk) {got:?}, expected {want:?}");
    for (a, b) in ks.sclk_kernels().zip(&m.sclks) {
        ensure!(a.sc_id == b.id && a.coefficients.len() == b.co.len(), "sclk", "clock {} listed as {}", b.id, a.sc_id);
        let k = s.idx(b.co.len());
        let et = b.co[k][1] + s.f64(0.0, 1e6);
        let (seg, next) = {
            let j = (0..b.co.len()).rev().find(|&j| b.co[j][1] <= et).unwrap();
            (b.co[j], b.co.get(j + 1))
        };
        let want = seg[0] + (et - seg[1]) * seg[2];
        let got = no_panic("et_to_sclkdp", || a.et_to_sclkdp(et))?;
        s.checked();
        ensure!(matches!(got, Ok(g) if (g - want).abs() <= 1e-9 * want.abs().max(1.0)), "sclk", "clock {}: et {et} is {got:?} ticks, expected {want}", b.id);
        if next.is_none_or(|n| want < n[0] - 1e-3) {
            let back = no_panic("sclkdp_to_et", || a.sclkdp_to_et(want))?;
            ensure!(matches!(back, Ok(g) if (g - et).abs() <= 1e-6 * et.abs().max(1.0)), "sclk", "clock {}: ticks {want} are et {back:?}, expected {et}", b.id);
        }
        ensure!(a.et_to_sclkdp(b.co[0][1] - 1.0).is_err(), "sclk", "clock {} answers before its first coefficient", b.id);
    }
    for (a, b) in ks.ck_kernels().zip(&m.ck) {
        for g in b {
            let k = s.idx(g.rec.len());
            let (t, want) = if g.rec.len() == 1 || s.chance(1, 4) {
                (g.rec[k].0, g.rec[k].1)
            } else {
                let k = k.min(g.rec.len() - 2);
                let f = s.unit();
                let t = g.rec[k].0 + f * (g.rec[k + 1].0 - g.rec[k].0);
                let f = (t - g.rec[k].0) / (g.rec[k + 1].0 - g.rec[k].0);
                (t, slerp(g.rec[k].1, g.rec[k + 1].1, f))
            };
            let got = no_panic("CkKernel::rotation", || a.rotation(g.inst, t))?;
            s.checked();
            match got {
                Ok(q) => {
                    let d: f64 = (0..4).map(|i| q[i] * want[i]).sum::<f64>().abs();
                    ensure!((1.0 - d).abs() < 1e-8, "ck", "pointing of {} at {t}: expected ±{want:?}, got {q:?}", g.inst);
                }
                Err(e) => viol!("ck", "no pointing of {} at {t} inside [{}, {}]: {e}", g.inst, g.start, g.end),
            }
            let out = g.end + 0.25;
            ensure!(a.rotation(g.inst, out).is_err(), "ck", "pointing of {} invented at {out}, outside every segment", g.inst);
        }
    }
    for _ in 0..n {
        let et = *s.pick(&[0.0, 1e8, -3e8]) + s.f64(0.0, 5e8);
        // time
        let et_l = match (&m.lsk, s.below(3)) {
            (Some(l), 0 | 1) => {
                let (y, mo, d, k) = *s.pick(&l.table);
                (civil_days(y, mo, d) - civil_days(2000, 1, 1)) as f64 * 86_400.0 - 43_200.0 + l.a + k + *s.pick(if l.a.fract() == 0.0 { &[0.0, 0.0, -1e-3, 1e-3, -0.5] } else { &[-1e-3, 1e-3, -0.5, 0.5, 86_400.0] })
            }
            _ => et,
        };
        let want = m.tai_utc(et_l);
        let (g1, g2) = (no_panic("tai_minus_utc", || c.tai_minus_utc(et_l))?, no_panic("tdb_minus_utc", || c.tdb_minus_utc(et_l))?);
        s.checked();
        match want {
            Some(w) => {
                let a = m.lsk.as_ref().unwrap().a;
                ensure!(matches!(g1, Ok(x) if x == w), "leap", "TAI-UTC at et {et_l}: expected {w}, got {g1:?}");
                ensure!(matches!(g2, Ok(x) if (x - w - a).abs() < 1e-9), "leap", "TDB-UTC at et {et_l}: expected {}, got {g2:?}", w + a);
                s.probe("leap_seconds_match");
            }
            None => ensure!(g1.is_err() && g2.is_err(), "leap", "leap seconds answered without a leap-second kernel"),
        }
        // frames
        let mut ids: Vec<i32> = m.frames.iter().map(|f| f.id).collect();
        ids.extend([1, 1, 555]);
        let (a, b) = (*s.pick(&ids), *s.pick(&ids));
        if a != b {
            let want = m.to_j2000(a, et, 0).zip(m.to_j2000(b, et, 0)).map(|(x, y)| mul(&tr(&y), &x));
            let got = no_panic("rotation_naif", || c.rotation_naif(a, b, et))?;
            s.checked();
            match (want, got) {
                (Some(w), Ok(g)) => {
                    let e = (0..3).flat_map(|i| (0..3).map(move |j| (i, j))).map(|(i, j)| (w[i][j] - g[i][j]).abs()).fold(0.0, f64::max);
                    ensure!(e < 1e-7, "rotation", "rotation {a} -> {b} at {et}: expected {w:?}, got {g:?}");
                    s.probe("rotation_matches");
                }
                (Some(w), Err(e)) => viol!("rotation-missing", "rotation {a} -> {b} at {et}: expected {w:?}, got error {e}"),
                (None, Ok(g)) => viol!("rotation-invented", "rotation {a} -> {b} at {et} is not defined by the loaded kernels, got {g:?}"),
                (None, Err(_)) => s.probe("undefined_rotation_is_error"),
            }
        }
        if !m.frames.is_empty() {
            let f = s.pick(&m.frames).clone();
            let by_id = m.frame_id(f.id).unwrap();
            let g = no_panic("frame_by_id", || c.frame_registry().frame_by_id(f.id).map(|f| (f.name.clone(), f.class_id, f.center_id)))?;
            ensure!(matches!(&g, Ok(x) if *x == (by_id.name.to_uppercase(), by_id.class_id, by_id.center)), "frame", "frame {}: expected {by_id:?}, got {g:?}", f.id);
            let by_name = m.frame_name(&f.name).unwrap();
            let g = no_panic("frame_by_name", || c.frame_registry().frame_by_name(&f.name.to_lowercase()).map(|f| f.id))?;
            ensure!(matches!(g, Ok(x) if x == by_name.id), "frame", "frame '{}': expected id {}, got {g:?}", f.name, by_name.id);
            s.checked();
        }
        // states: last kernel first, older kernels fill its gaps
        if !m.spk.is_empty() {
            let t = s.pick(&m.spk).clone();
            let ids: Vec<i32> = t.parent.keys().chain(t.parent.values()).copied().collect();
            let (a, b) = (*s.pick(&ids), *s.pick(&ids));
            if a != b {
                let et = query_et(s, &t.segs);
                let mut want = Want::Missing;
                for t in m.spk.iter().rev() {
                    want = t.want(a, b, et);
                    if want != Want::Missing {
                        break;
                    }
                }
                let got = no_panic("state_naif", || c.state_naif(a, b, et))?;
                s.checked();
                match (want, got) {
                    (Want::State(x), Ok(y)) => {
                        ensure!(close6(&x, &y, 1e9), "state", "state of {a} wrt {b} at {et}: expected {x:?}, got {y:?}");
                        s.probe("state_matches");
                    }
                    (Want::State(x), Err(e)) => viol!("state-missing", "state of {a} wrt {b} at {et}: expected {x:?}, got error {e}"),
                    (w, Ok(y)) => viol!("state-invented", "state of {a} wrt {b} at {et}: expected {w:?}, got {y:?}"),
                    _ => s.probe("not_covered_is_error"),
                }
            }
        } else {
            ensure!(c.state_naif(399, 0, et).is_err(), "state-invented", "state without any kernel");
        }
    }
    Ok(())
}

/// Make one assignment of a text kernel wrong; None if nothing suitable.
fn break_text(s: &mut Sim, t: &Text) -> Option<Vec<u8>> {
    let mut v = assignments(s, t);
    let has = |v: &[(String, Vec<String>)], p: &dyn Fn(&str) -> bool| v.iter().position(|(k, _)| p(k));
    match s.below(9) {
        0 => {
            let mut x = render(s, v);
            x = x.replace("\\begintext\nTrailing text: = ( '\n", "").replace("\\begintext\r\nTrailing text: = ( '\r\n", "");
            x.push_str(*s.pick(&["LAST = ( 1, 2", "LAST = 'open", "LAST += ( 'a', \n"]));
            Some(x.into_bytes())
        }
        1 => {
            let mut x = render(s, v).into_bytes();
            let i = s.idx(x.len() - 8) + 8;
            x[i] = 0xff;
            Some(x)
        }
        2 => {
            let i = has(&v, &|k| k.ends_with("_CLASS"))?;
            v[i].1 = vec!["9".into()];
            Some(render(s, v).into_bytes())
        }
        3 => {
            let i = has(&v, &|k| k.starts_with("FRAME_") && k.ends_with("_CENTER"))?;
            v.remove(i);
            Some(render(s, v).into_bytes())
        }
        4 => {
            let i = has(&v, &|k| k == "DELTET/DELTA_AT")?;
            v[i].1.pop();
            if v[i].1.len() == 1 {
                return None;
            }
            Some(render(s, v).into_bytes())
        }
        5 => {
            let i = has(&v, &|k| k == "DELTET/DELTA_T_A")?;
            v.remove(i);
            Some(render(s, v).into_bytes())
        }
        6 => {
            let i = has(&v, &|k| k.ends_with("_MATRIX"))?;
            if s.chance(1, 2) {
                v[i].1.pop();
            } else {
                v[i].1[4] = "'x'".into();
            }
            Some(render(s, v).into_bytes())
        }
        7 => {
            let i = has(&v, &|k| k.starts_with("SCLK01_COEFF"))?;
            v[i].1.pop();
            Some(render(s, v).into_bytes())
        }
        _ => {
            let i = has(&v, &|k| k.ends_with("_PM") || k.ends_with("_RADII"))?;
            let n = v[i].1.len();
            v[i].1[n - 1] = "bogus".into();
            Some(render(s, v).into_bytes())
        }
    }
}

fn c09(s: &mut Sim) -> R {
    let mut c = SpiceContext::new();
    let mut m = CtxModel::default();
    let dir = Scratch::new();
    let ops = 2 + s.idx(9);
    for op in 0..ops {
        s.advance(1_000_000_000);
        let names: Vec<String> = m.frames.iter().map(|f| f.name.clone()).collect();
        let via_path = s.chance(1, 4);
        let load = |s: &mut Sim, c: &mut SpiceContext, data: Vec<u8>| -> R<Result<(), String>> {
            if via_path {
                let p = dir.0.join(format!("k{op}"));
                std::fs::write(&p, &data).expect("scratch");
                s.probe("loaded_from_path");
                no_panic("SpiceContext::load", || c.load(&p).map_err(|e| e.to_string()))
            } else {
                no_panic("SpiceContext::load_bytes", || c.load_bytes(format!("k{op}"), data).map_err(|e| e.to_string()))
            }
        };
        match s.below(10) {
            0 | 1 => {
                let t = tree(s, 4);
                if t.segs.is_empty() {
                    continue;
                }
                let d = spk_file(s, &t.segs);
                s.note(format!("load SPK, {} segments", t.segs.len()));
                let r = load(s, &mut c, d)?;
                ensure!(r.is_ok(), "rejected", "well-formed SPK kernel rejected: {r:?}");
                m.spk.push(t);
            }
            2 => {
                let (g, d) = ck_kernel(s);
                s.note("load CK");
                let r = load(s, &mut c, d)?;
                ensure!(r.is_ok(), "rejected", "well-formed CK kernel rejected: {r:?}");
                m.ck.push(g);
            }
            3..=6 => {
                let t = rand_text(s, &names);
                let x = text_kernel(s, &t);
                s.note(format!("load text kernel {}", x.len()));
                let r = load(s, &mut c, x.clone().into_bytes())?;
                ensure!(r.is_ok(), "rejected", "well-formed text kernel rejected: {r:?}\n{x}");
                m.apply(&t);
                if !t.ins.is_empty() {
                    let k = match no_panic("IkKernel", || sp::IkKernel::from_text(&x))? {
                        Ok(k) => k,
                        Err(e) => viol!("ik", "instrument kernel rejected: {e}"),
                    };
                    ensure!(k.instruments.len() == t.ins.len(), "ik", "{} instruments, expected {}", k.instruments.len(), t.ins.len());
                    for i in &t.ins {
                        let g = k.instrument(i.id);
                        let ok = g.is_some_and(|g| {
                            format!("{:?}", g.fov_shape).to_uppercase().contains(i.shape.unwrap_or("NONE"))
                                && g.fov_frame == i.frame.as_ref().map(|f| f.to_uppercase())
                                && g.boresight == i.bore
                                && g.fov_ref_angle == i.refa
                                && g.fov_cross_angle == i.crossa
                        });
                        ensure!(ok, "ik", "instrument {i:?} read as {g:?}");
                        s.checked();
                    }
                }
            }
            7 => {
                // damaged or unsupported kernels change nothing
                let (what, d): (&str, Vec<u8>) = match s.below(5) {
                    0 => {
                        let t = tree(s, 3);
                        if t.segs.is_empty() {
                            continue;
                        }
                        let mut d = spk_file(s, &t.segs);
                        let k = s.idx(d.len() * 2 / 3);
                        // the tear removes segment data or summaries, not only padding
                        let need = d.iter().rposition(|&b| b != 0).unwrap_or(0);
                        d.truncate(k.min(need.saturating_sub(8)).max(8));
                        if t.segs.iter().all(|g| g.ty == 1) && d.len() >= 1024 {
                            continue;
                        }
                        if d.len() > 1024 && torn_unread(&t, &d) {
                            continue;
                        }
                        ("torn SPK", d)
                    }
                    1 => {
                        let (_, mut d) = ck_kernel(s);
                        d.truncate(8 + s.idx(1016));
                        ("torn CK", d)
                    }
                    2 => {
                        let mut d = daf(s, "DAF/PCK", &[]);
                        d[..8].copy_from_slice(format!("{:<8}", s.pick(&["DAF/PCK", "DAF/BPC", "DAF/DSK", "DAF/EK"])).as_bytes());
                        ("unsupported binary kernel", d)
                    }
                    _ => {
                        let t = rand_text(s, &names);
                        match break_text(s, &t) {
                            Some(d) => ("broken text kernel", d),
                            None => continue,
                        }
                    }
                };
                s.note(format!("load {what}"));
                s.fault("damaged_kernel_load");
                let txt = String::from_utf8_lossy(&d[..d.len().min(3000)]).into_owned();
                let r = load(s, &mut c, d)?;
                ensure!(r.is_err(), "damaged-accepted", "{what} was accepted\n{txt}");
            }
            _ => {
                let p = match s.below(2) {
                    0 => dir.0.join("missing"),
                    _ => dir.0.clone(),
                };
                s.fault("unreadable_path");
                let r = no_panic("SpiceContext::load", || c.load(&p))?;
                ensure!(matches!(r, Err(siderust::spice::SpiceContextError::Io(_))), "io", "loading an unreadable path gave {:?}", r.map_err(|e| e.to_string()));
            }
        }
        check_ctx(s, &c, &m, 4)?;
        s.state(crate::core::mix((m.spk.len() * 10_000 + m.ck.len() * 1000 + m.frames.len() * 100 + m.bodies.len() * 10 + m.lsk.is_some() as usize) as u64));
    }
    Ok(())
}

/// True if a torn file still holds everything its readable segments need.
fn torn_unread(t: &Tree, d: &[u8]) -> bool {
    match sp::daf::Daf::parse(d) {
        Ok(x) => x.summaries.len() == t.segs.len() && x.summaries.iter().zip(&t.segs).all(|(s, g)| g.ty == 1 || s.end_word * 8 <= d.len()),
        Err(_) => false,
    }
}

pub static C09: Prop = Prop {
    id: "C09",
    scenarios: &[("context-history", 1, c09)],
    runs_quick: 60_000,
    runs_thorough: 3_000_000,
    rule: "one simulated run = a history of 2-10 kernel loads (binary and text, well-formed, damaged, unsupported, from bytes or files) with every query surface compared with the reference model after each",
    real: &["spice::{SpiceContext,KernelSet,FrameRegistry}", "formats::spice::{text,lsk,fk,pck,ik,sclk,ck,daf,kernel,segment}"],
    stub: &["kernel files (built by the simulator)"],
    assumptions: &["frame names and ids are unique within one kernel", "CK segments of one instrument do not overlap"],
};

// ---------------------------------------------------------------------------
// C11: damaged kernels

/// Overwrite structure words of a DAF image with extreme values.
fn smash(s: &mut Sim, d: &mut Vec<u8>) {
    if d.len() < 16 {
        return;
    }
    for _ in 0..1 + s.idx(3) {
        let le = s.chance(2, 3);
        if s.chance(1, 3) {
            // A count, address or step off by a little: the hardest to notice.
            let word = |d: &[u8], i: usize| {
                let b: [u8; 8] = d[8 * i..8 * i + 8].try_into().unwrap();
                if le { f64::from_le_bytes(b) } else { f64::from_be_bytes(b) }
            };
            let small: Vec<usize> = (0..d.len() / 8).filter(|&i| { let v = word(d, i); v.fract() == 0.0 && (1.0..1e5).contains(&v) }).collect();
            if small.is_empty() {
                continue;
            }
            let i = if s.chance(1, 2) { *s.pick(&small) } else { small[small.len() - 1 - s.idx(small.len().min(3))] };
            let v = word(d, i);
            let k = s.f64(0.5, 1.5);
            let w = *s.pick(&[v + 1.0, v + 1.0, v - 1.0, v + 2.0, (v * 1.25).ceil(), (v * k).round(), v * 2.0, v + 128.0, v + 0.5, -v]);
            d[8 * i..8 * i + 8].copy_from_slice(&if le { w.to_le_bytes() } else { w.to_be_bytes() });
            s.fault("count_nudged");
        } else if s.chance(1, 2) {
            let v = *s.pick(&[0i32, -1, 1, 2, 3, i32::MAX, i32::MIN, 1024, 127, 128, 129, 1_000_000, 0x0200_0000]);
            let at = match s.below(4) {
                0 => *s.pick(&[8usize, 12, 76, 80, 84]),
                _ => 4 * s.idx(d.len() / 4),
            };
            let b = if le { v.to_le_bytes() } else { v.to_be_bytes() };
            if at + 4 <= d.len() {
                d[at..at + 4].copy_from_slice(&b);
            }
        } else {
            let v = *s.pick(&[0.0, -0.0, 1.0, -1.0, 2.0, 0.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, 1e-310, 1e15, 4.0, 25.0, 1e9, 10_000_000.0, 31.0]);
            let at = 8 * s.idx(d.len() / 8);
            let b = if le { v.to_le_bytes() } else { v.to_be_bytes() };
            d[at..at + 8].copy_from_slice(&b);
        }
        s.fault("word_smashed");
    }
}

fn weird_et(s: &mut Sim, segs: &[Seg]) -> f64 {
    match s.below(4) {
        0 => *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, 1e300, -1e300, -0.0]),
        _ if segs.is_empty() => s.f64(-1e9, 1e9),
        _ => query_et(s, segs),
    }
}

fn bounded<T>(s: &mut Sim, what: &str, len: usize, f: impl FnOnce() -> T) -> R<T> {
    let live = crate::alloc::live();
    crate::alloc::reset();
    let r = no_panic(what, f)?;
    let peak = crate::alloc::peak_delta(live);
    s.checked();
    ensure!(peak <= 200_000 + 60 * len, "allocation", "{what} allocated {peak} bytes for a {len} byte kernel");
    Ok(r)
}

fn c11_binary(s: &mut Sim) -> R {
    let ck = s.chance(1, 3);
    let (segs, mut d) = if ck {
        let (_, d) = ck_kernel(s);
        (vec![], d)
    } else if s.chance(1, 2) {
        let t = tree(s, 5);
        let d = spk_file(s, &t.segs);
        (t.segs, d)
    } else {
        let n = 1 + s.idx(8);
        let v: Vec<Seg> = (0..n).map(|_| set_segment(s)).collect();
        let d = spk_file(s, &v);
        (v, d)
    };
    if s.chance(1, 4) {
        // The padding of the last record was never written.
        let end = d.iter().rposition(|&b| b != 0).map_or(0, |i| (i / 8 + 1) * 8);
        d.truncate(end);
        s.fault("padding_lost");
    }
    if s.chance(2, 3) {
        smash(s, &mut d);
    }
    if s.chance(1, 2) {
        crate::io::corrupt(s, &mut d);
    }
    let n = d.len();
    let ids: Vec<i32> = segs.iter().flat_map(|g| [g.target, g.center]).chain([0, 10, 399, i32::MIN]).collect();
    if let Ok(k) = bounded(s, "SpkKernel::from_bytes", n, || sp::SpkKernel::from_bytes(d.clone()))? {
        s.probe("damaged_kernel_loaded");
        for _ in 0..12 {
            let et = weird_et(s, &segs);
            let (a, b) = (*s.pick(&ids), *s.pick(&ids));
            let _ = bounded(s, "SpkKernel::state", n, || k.state(a, b, et).is_ok())?;
        }
    }
    let mut set = sp::SpkKernelSet::default();
    if bounded(s, "SpkKernelSet::push_bytes", n, || set.push_bytes(&d))?.is_ok() {
        for _ in 0..8 {
            let j = match s.below(3) {
                0 => JulianDate::new(*s.pick(&[0.0, 1e9, -1e9, 2_451_545.0])),
                _ => JulianDate::new(jd_query(s)),
            };
            let (a, b) = (*s.pick(&ids), *s.pick(&ids));
            let _ = bounded(s, "try_geometric_state", n, || set.try_geometric_state(a, b, j).is_ok())?;
            let p = *s.pick(&PLANETS);
            let _ = bounded(s, "try_major_planet_geocentric", n, || set.try_major_planet_geocentric(p, PlanetPoint::SystemBarycenter, j).is_ok())?;
        }
    }
    if let Ok(e) = bounded(s, "RuntimeEphemeris::from_bytes", n, || RuntimeEphemeris::from_bytes(&d))? {
        for _ in 0..4 {
            let j = JulianDate::new(jd_query(s));
            let _ = bounded(s, "RuntimeEphemeris queries", n, || (e.try_sun_barycentric(j).is_ok(), e.try_earth_barycentric(j).is_ok(), e.try_earth_heliocentric(j).is_ok(), e.try_moon_geocentric(j).is_ok(), e.try_earth_barycentric_velocity(j).is_ok()))?;
        }
    }
    let _ = bounded(s, "parse_bsp", n, || sp::spk::parse_bsp(&d).is_ok())?;
    if let Ok(k) = bounded(s, "CkKernel::from_bytes", n, || sp::CkKernel::from_bytes(d.clone()))? {
        for _ in 0..6 {
            let t = match s.below(3) {
                0 => *s.pick(&[f64::NAN, f64::INFINITY, 0.0, -1e300]),
                _ => s.f64(0.0, 2e6),
            };
            let i = *s.pick(&[-82_000, -82_001, 0]);
            let _ = bounded(s, "CkKernel::rotation", n, || k.rotation(i, t).is_ok())?;
        }
    }
    let mut c = SpiceContext::new();
    let _ = bounded(s, "SpiceContext::load_bytes", n, || c.load_bytes("k", d.clone()).is_ok())?;
    for _ in 0..4 {
        let et = weird_et(s, &segs);
        let (a, b) = (*s.pick(&ids), *s.pick(&ids));
        let _ = bounded(s, "SpiceContext queries", n, || (c.state_naif(a, b, et).is_ok(), c.rotation_naif(a, b, et).is_ok()))?;
    }
    Ok(())
}

fn c11_text(s: &mut Sim) -> R {
    let t = rand_text(s, &[]);
    let mut d = text_kernel(s, &t).into_bytes();
    for _ in 0..1 + s.idx(2) {
        if s.chance(1, 3) {
            crate::io::extreme_number(s, &mut d);
        } else {
            crate::io::corrupt(s, &mut d);
        }
    }
    let n = d.len();
    let txt = String::from_utf8_lossy(&d).into_owned();
    let _ = bounded(s, "TextKernel::parse", n, || sp::TextKernel::parse(&txt).is_ok())?;
    let et = weird_et(s, &[]);
    if let Ok(k) = bounded(s, "LeapSecondKernel", n, || sp::LeapSecondKernel::from_text(&txt))? {
        bounded(s, "tai_minus_utc_at", n, || k.tai_minus_utc_at(et))?;
    }
    let _ = bounded(s, "FrameKernel", n, || sp::FrameKernel::from_text(&txt).is_ok())?;
    if let Ok(k) = bounded(s, "PckKernel", n, || sp::PckKernel::from_text(&txt))? {
        for b in k.bodies.values().filter(|b| !(b.pole_ra.is_empty() || b.pole_dec.is_empty() || b.pm.is_empty())) {
            bounded(s, "rotation_to_j2000", n, || b.rotation_to_j2000(et))?;
        }
    }
    let _ = bounded(s, "IkKernel", n, || sp::IkKernel::from_text(&txt).is_ok())?;
    if let Ok(k) = bounded(s, "SclkKernel", n, || sp::SclkKernel::from_text(&txt))? {
        for k in &k {
            let _ = bounded(s, "sclk conversions", n, || (k.et_to_sclkdp(et).is_ok(), k.sclkdp_to_et(et).is_ok()))?;
        }
    }
    let mut c = SpiceContext::new();
    if bounded(s, "SpiceContext::load_bytes", n, || c.load_bytes("k", d.clone()))?.is_ok() {
        s.probe("damaged_text_loaded");
    }
    let ids: Vec<i32> = t.frames.iter().map(|f| f.id).chain([1, 10_013, 0]).collect();
    for _ in 0..4 {
        let et = weird_et(s, &[]);
        let (a, b) = (*s.pick(&ids), *s.pick(&ids));
        let _ = bounded(s, "SpiceContext queries", n, || (c.rotation_naif(a, b, et).is_ok(), c.tai_minus_utc(et).is_ok(), c.tdb_minus_utc(et).is_ok()))?;
    }
    Ok(())
}

/// A torn kernel is refused, or answers exactly like the whole file.
fn c11_torn(s: &mut Sim) -> R {
    if s.chance(1, 4) {
        let (segs, d) = ck_kernel(s);
        let whole = match sp::CkKernel::from_bytes(d.clone()) {
            Ok(k) => k,
            Err(e) => viol!("rejected", "well-formed CK rejected: {e}"),
        };
        for _ in 0..8 {
            let cut = s.idx(d.len());
            s.fault("torn_kernel");
            if let Ok(k) = no_panic("CkKernel::from_bytes", || sp::CkKernel::from_bytes(d[..cut].to_vec()))? {
                s.probe("torn_kernel_accepted");
                for g in &segs {
                    let t = s.f64(g.start - 1.0, g.end + 1.0);
                    let (a, b) = (k.rotation(g.inst, t), whole.rotation(g.inst, t));
                    s.checked();
                    ensure!(a.as_ref().ok() == b.as_ref().ok(), "torn-differs", "CK torn at {cut} of {}: {:?} against {:?}", d.len(), a.ok(), b.ok());
                }
            }
        }
        return Ok(());
    }
    let t = tree(s, 6);
    let d = spk_file(s, &t.segs);
    let whole = match sp::SpkKernel::from_bytes(d.clone()) {
        Ok(k) => k,
        Err(e) => viol!("rejected", "well-formed SPK rejected: {e}"),
    };
    let mut wset = sp::SpkKernelSet::default();
    let wok = wset.push_bytes(&d).is_ok();
    let tail = d.len().saturating_sub(2048);
    for _ in 0..8 {
        let cut = if s.chance(1, 2) { tail + s.idx(d.len() - tail) } else { s.idx(d.len()) };
        s.fault("torn_kernel");
        let k = no_panic("SpkKernel::from_bytes", || sp::SpkKernel::from_bytes(d[..cut].to_vec()))?;
        if let Ok(k) = k {
            s.probe("torn_kernel_accepted");
            ensure!(k.segments().len() == whole.segments().len(), "torn-differs", "SPK torn at {cut} of {} lists {} of {} segments", d.len(), k.segments().len(), whole.segments().len());
            for _ in 0..6 {
                if t.segs.is_empty() {
                    break;
                }
                let g = s.pick(&t.segs).clone();
                let et = query_et(s, &t.segs);
                let (a, b) = (k.state(g.target, g.center, et), whole.state(g.target, g.center, et));
                s.checked();
                ensure!(a.as_ref().ok() == b.as_ref().ok(), "torn-differs", "SPK torn at {cut} of {}: {:?} against {:?}", d.len(), a.ok(), b.ok());
            }
        }
        let mut set = sp::SpkKernelSet::default();
        if no_panic("SpkKernelSet::push_bytes", || set.push_bytes(&d[..cut]))?.is_ok() {
            ensure!(wok && set.segment_count() == wset.segment_count(), "torn-differs", "kernel set holds {} segments of a torn kernel, {} of the whole", set.segment_count(), wset.segment_count());
        }
    }
    Ok(())
}

pub static C11: Prop = Prop {
    id: "C11",
    scenarios: &[("damaged-binary", 4, c11_binary), ("damaged-text", 3, c11_text), ("torn-binary", 2, c11_torn)],
    runs_quick: 400_000,
    runs_thorough: 6_000_000,
    rule: "one simulated run = one kernel image damaged by the storage (smashed words, flipped bits, lost or duplicated regions, tears), read by every kernel reader and queried at ordinary and extreme epochs",
    real: &["formats::spice", "spice::SpiceContext", "ephemeris::RuntimeEphemeris"],
    stub: &["kernel files (built and damaged by the simulator)"],
    assumptions: &["memory bound: 200 kB + 60 bytes per kernel byte"],
};

