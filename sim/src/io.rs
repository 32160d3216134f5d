//! Simulated storage / transport seams: fault-injecting `Read`, `Write`, `Seek`.

use crate::core::Sim;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};

/// How the simulated medium delivers bytes to a reader.
#[derive(Clone, Debug, Default)]
pub struct ReadPlan {
    /// Per-call delivery sizes, cycled; 0 = as much as asked; usize::MAX = EINTR.
    pub sizes: Vec<usize>,
    /// Hard error once this many bytes have been delivered.
    pub fail_at: Option<(usize, ErrorKind)>,
    /// Whether a hard error is sticky (dead device) or transient (next call continues).
    pub sticky: bool,
}

pub const EINTR: usize = usize::MAX;

pub const HARD: [ErrorKind; 6] = [
    ErrorKind::Other,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
];

impl ReadPlan {
    pub fn plain() -> Self {
        ReadPlan { sizes: vec![0], fail_at: None, sticky: true }
    }
    /// Benign nondeterminism only: short reads and interruptions.
    pub fn benign(s: &mut Sim) -> Self {
        let mode = s.below(5);
        let n = 1 + s.idx(12);
        let mut sizes = Vec::new();
        for _ in 0..n {
            sizes.push(match mode {
                0 => 0,
                1 => 1,
                2 => 1 + s.idx(7),
                3 => 1 + s.idx(200),
                _ => match s.below(4) {
                    0 => 0,
                    1 => 1 + s.idx(100),
                    _ => 1 + s.idx(9),
                },
            });
        }
        if sizes.iter().any(|&x| x != 0) {
            s.fault("short_read");
        }
        if s.chance(1, 2) {
            let k = 1 + s.idx(3);
            for _ in 0..k {
                let p = s.idx(sizes.len() + 1);
                sizes.insert(p, EINTR);
            }
            s.fault("eintr_read");
        }
        if sizes.iter().all(|&x| x == EINTR) {
            sizes.push(0);
        }
        ReadPlan { sizes, fail_at: None, sticky: true }
    }
    pub fn with_failure(mut self, s: &mut Sim, len: usize) -> Self {
        let at = s.idx(len + 1);
        let k = *s.pick(&HARD);
        self.fail_at = Some((at, k));
        self.sticky = !s.chance(1, 3);
        s.fault(if self.sticky { "read_error" } else { "read_error_transient" });
        self
    }
}

pub struct SimRead {
    data: Vec<u8>,
    pos: usize,
    plan: ReadPlan,
    call: usize,
    pub failed: u32,
    budget: usize,
}

impl SimRead {
    pub fn new(data: &[u8], plan: ReadPlan) -> Self {
        SimRead { data: data.to_vec(), pos: 0, plan, call: 0, failed: 0, budget: 64 * data.len() + 10_000 }
    }
}

impl Read for SimRead {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.budget = self.budget.checked_sub(1).expect("read budget exhausted: reader does not terminate");
        if buf.is_empty() {
            return Ok(0);
        }
        let step = self.plan.sizes[self.call % self.plan.sizes.len()];
        self.call += 1;
        if step == EINTR {
            return Err(io::Error::new(ErrorKind::Interrupted, "simulated EINTR"));
        }
        let mut end = self.data.len();
        if let Some((at, kind)) = self.plan.fail_at {
            if self.pos >= at && (self.plan.sticky || self.failed == 0) {
                self.failed += 1;
                return Err(io::Error::new(kind, "simulated I/O error"));
            }
            if self.pos < at {
                end = end.min(at);
            }
        }
        let avail = end - self.pos;
        let n = if step == 0 { buf.len() } else { step.min(buf.len()) }.min(avail);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Clone, Debug, Default)]
pub struct WritePlan {
    pub sizes: Vec<usize>,
    /// Fail once this many bytes have been accepted.
    pub fail_at: Option<(usize, WFail)>,
    pub sticky: bool,
    pub fail_flush: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WFail {
    Err(ErrorKind),
    Zero,
}

pub const WHARD: [WFail; 5] = [
    WFail::Err(ErrorKind::StorageFull),
    WFail::Err(ErrorKind::BrokenPipe),
    WFail::Err(ErrorKind::Other),
    WFail::Zero,
    WFail::Err(ErrorKind::PermissionDenied),
];

impl WritePlan {
    pub fn plain() -> Self {
        WritePlan { sizes: vec![0], ..Default::default() }
    }
    pub fn benign(s: &mut Sim) -> Self {
        let mut p = WritePlan { sizes: ReadPlan::benign_sizes(s), sticky: true, ..Default::default() };
        if p.sizes.is_empty() {
            p.sizes.push(0);
        }
        p
    }
    pub fn with_failure(mut self, s: &mut Sim, len: usize) -> Self {
        let at = s.idx(len.max(1));
        let k = *s.pick(&WHARD);
        self.fail_at = Some((at, k));
        self.sticky = !s.chance(1, 3);
        s.fault(match k {
            WFail::Zero => "write_zero",
            WFail::Err(ErrorKind::StorageFull) => "disk_full",
            _ => "write_error",
        });
        self
    }
}

impl ReadPlan {
    fn benign_sizes(s: &mut Sim) -> Vec<usize> {
        let mode = s.below(4);
        let n = 1 + s.idx(10);
        let mut sizes: Vec<usize> = Vec::new();
        for _ in 0..n {
            sizes.push(match mode {
                0 => 0,
                1 => 1,
                2 => 1 + s.idx(6),
                _ => 1 + s.idx(64),
            });
        }
        if mode != 0 {
            s.fault("short_write");
        }
        if s.chance(1, 2) {
            let p = s.idx(sizes.len() + 1);
            sizes.insert(p, EINTR);
            s.fault("eintr_write");
        }
        sizes
    }
}

#[derive(Debug)]
pub struct SimWrite {
    pub out: Vec<u8>,
    plan: WritePlan,
    call: usize,
    pub failed: u32,
    pub flushes: u32,
    budget: usize,
}

impl SimWrite {
    pub fn new(plan: WritePlan) -> Self {
        SimWrite { out: Vec::new(), plan, call: 0, failed: 0, flushes: 0, budget: 4_000_000 }
    }
}

impl Write for SimWrite {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.budget = self.budget.checked_sub(1).expect("write budget exhausted: writer does not terminate");
        if buf.is_empty() {
            return Ok(0);
        }
        let step = self.plan.sizes[self.call % self.plan.sizes.len()];
        self.call += 1;
        if step == EINTR {
            return Err(io::Error::new(ErrorKind::Interrupted, "simulated EINTR"));
        }
        let mut room = usize::MAX;
        if let Some((at, k)) = self.plan.fail_at {
            if self.out.len() >= at && (self.plan.sticky || self.failed == 0) {
                self.failed += 1;
                return match k {
                    WFail::Zero => Ok(0),
                    WFail::Err(k) => Err(io::Error::new(k, "simulated write error")),
                };
            }
            if self.out.len() < at {
                room = at - self.out.len();
            }
        }
        let n = if step == 0 { buf.len() } else { step.min(buf.len()) }.min(room);
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.plan.fail_flush {
            self.failed += 1;
            return Err(io::Error::other("simulated flush error"));
        }
        Ok(())
    }
}

/// In-memory seekable sink with the same faults (used for Parquet).
#[derive(Debug)]
pub struct SimFile {
    pub w: SimWrite,
    pos: u64,
}

impl SimFile {
    pub fn new(plan: WritePlan) -> Self {
        SimFile { w: SimWrite::new(plan), pos: 0 }
    }
}
impl Write for SimFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.w.write(buf)?;
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.w.flush()
    }
}
impl Seek for SimFile {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        match p {
            SeekFrom::Current(0) => Ok(self.pos),
            SeekFrom::Start(n) if n == self.pos => Ok(n),
            _ => Err(io::Error::new(ErrorKind::Unsupported, "append-only simulated file")),
        }
    }
}

/// Storage corruption applied to a byte image.
pub fn corrupt(s: &mut Sim, data: &mut Vec<u8>) {
    if data.is_empty() {
        return;
    }
    let n = 1 + s.idx(3);
    for _ in 0..n {
        if data.is_empty() {
            return;
        }
        match s.below(9) {
            0 => {
                let i = s.idx(data.len());
                let b = s.below(8);
                data[i] ^= 1 << b;
                s.fault("bit_flip");
            }
            1 => {
                let i = s.idx(data.len());
                data[i] = s.below(256) as u8;
                s.fault("byte_garble");
            }
            2 => {
                let at = s.idx(data.len() + 1);
                data.truncate(at);
                s.fault("truncate");
            }
            3 => {
                // lost region (hole)
                let a = s.idx(data.len());
                let b = (a + 1 + s.idx(120)).min(data.len());
                data.drain(a..b);
                s.fault("lost_region");
            }
            4 => {
                // duplicated region (replayed block)
                let a = s.idx(data.len());
                let b = (a + 1 + s.idx(120)).min(data.len());
                let dup = data[a..b].to_vec();
                let at = s.idx(data.len() + 1);
                data.splice(at..at, dup);
                s.fault("dup_region");
            }
            5 => {
                // zeroed region (torn sector)
                let a = s.idx(data.len());
                let b = (a + 1 + s.idx(64)).min(data.len());
                let z = *s.pick(&[0u8, b' ', 0xff, b'\n', 0xc3]);
                data[a..b].iter_mut().for_each(|x| *x = z);
                s.fault("torn_sector");
            }
            6 => {
                // a multi-byte character lands in the text
                let i = s.idx(data.len());
                let m = *s.pick(&["é", "°", "漢", "🛰", "\u{feff}", "\u{a0}"]);
                let repl = s.chance(1, 2);
                let e = if repl { (i + m.len()).min(data.len()) } else { i };
                data.splice(i..e, m.bytes());
                s.fault("multibyte_char");
            }
            7 => {
                // digit / sign / dot damage keeps the record well formed but odd
                let digits: Vec<usize> = (0..data.len()).filter(|&i| data[i].is_ascii_digit()).collect();
                if digits.is_empty() {
                    continue;
                }
                let i = digits[s.idx(digits.len())];
                data[i] = *s.pick(b"0123456789-+. eEDN");
                s.fault("digit_damage");
            }
            _ => {
                // line level: drop, duplicate, or swap a line; cut a line short
                let mut lines: Vec<Vec<u8>> = data.split_inclusive(|&c| c == b'\n').map(|l| l.to_vec()).collect();
                let i = s.idx(lines.len());
                match s.below(4) {
                    0 => {
                        lines.remove(i);
                        s.fault("line_lost");
                    }
                    1 => {
                        let l = lines[i].clone();
                        let at = s.idx(lines.len() + 1);
                        lines.insert(at, l);
                        s.fault("line_dup");
                    }
                    2 => {
                        let j = s.idx(lines.len());
                        lines.swap(i, j);
                        s.fault("line_reorder");
                    }
                    _ => {
                        let k = s.idx(lines[i].len() + 1);
                        lines[i].truncate(k);
                        if s.chance(2, 3) {
                            lines[i].push(b'\n');
                        }
                        s.fault("line_cut");
                    }
                }
                *data = lines.concat();
            }
        }
    }
}

/// Replace a numeric token with an extreme value (keeps text shape).
pub fn extreme_number(s: &mut Sim, data: &mut Vec<u8>) {
    let txt = String::from_utf8_lossy(data).into_owned();
    let mut spans = Vec::new();
    let b = txt.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'.') {
                i += 1;
            }
            spans.push((st, i));
        } else {
            i += 1;
        }
    }
    if spans.is_empty() {
        return;
    }
    let (a, e) = spans[s.idx(spans.len())];
    let ext = *s.pick(&[
        "9223372036854775807", "18446744073709551616", "-9223372036854775808", "4294967296", "2147483648", "-1", "1e308", "NaN", "inf", "0",
        "99999", "-99999", "1e-320", "999999999999",
    ]);
    let out = if s.chance(1, 2) {
        format!("{}{}{}", &txt[..a], ext, &txt[e..])
    } else {
        // width preserving
        let w = e - a;
        let t: String = "9".repeat(w);
        format!("{}{}{}", &txt[..a], t, &txt[e..])
    };
    *data = out.into_bytes();
    s.fault("extreme_number");
}
