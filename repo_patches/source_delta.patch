From dd37e2aa4a08dbe47576a4339e793465c407e378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 01/67] fix: read_oem keeps the segment a covariance or
 maneuver block interrupts

---
 src/formats/ccsds/oem.rs | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/formats/ccsds/oem.rs b/src/formats/ccsds/oem.rs
index d5aa861..fa432e5 100644
--- a/src/formats/ccsds/oem.rs
+++ b/src/formats/ccsds/oem.rs
@@ -218,7 +218,7 @@ pub fn read_oem<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError> {
         Header,
         Meta(MetaBuilder),
         Data(OemSegment),
-        SkipBlock,
+        SkipBlock(OemSegment),
     }
 
     #[derive(Default)]
@@ -304,31 +304,34 @@ pub fn read_oem<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError> {
                     continue;
                 }
                 if line == "COVARIANCE_START" || line == "MAN_START" {
-                    state = State::SkipBlock;
+                    let open = std::mem::replace(
+                        seg,
+                        OemSegment {
+                            metadata: seg.metadata.clone(),
+                            states: Vec::new(),
+                        },
+                    );
+                    state = State::SkipBlock(open);
                     continue;
                 }
                 seg.states.push(parse_data_line(line, lineno)?);
             }
-            State::SkipBlock => {
+            State::SkipBlock(seg) => {
                 if line == "COVARIANCE_STOP" || line == "MAN_STOP" {
-                    // Re-enter the most recent Data segment.
-                    if let Some(last) = segments.last_mut() {
-                        let resumed = std::mem::replace(
-                            last,
-                            OemSegment {
-                                metadata: last.metadata.clone(),
-                                states: Vec::new(),
-                            },
-                        );
-                        state = State::Data(resumed);
-                    } else {
-                        state = State::Header;
-                    }
+                    // Re-enter the segment the block interrupted.
+                    let resumed = std::mem::replace(
+                        seg,
+                        OemSegment {
+                            metadata: seg.metadata.clone(),
+                            states: Vec::new(),
+                        },
+                    );
+                    state = State::Data(resumed);
                 }
             }
         }
     }
-    if let State::Data(seg) = state {
+    if let State::Data(seg) | State::SkipBlock(seg) = state {
         segments.push(seg);
     }
     if segments.is_empty() {
-- 
2.43.0


From b3c3535c291d7c4861668bed6401a46f94789a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 02/67] fix: read_sinex returns stations in a reproducible
 order

---
 src/formats/igs/sinex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/formats/igs/sinex.rs b/src/formats/igs/sinex.rs
index 97c6acb..9daeafb 100644
--- a/src/formats/igs/sinex.rs
+++ b/src/formats/igs/sinex.rs
@@ -16,7 +16,7 @@ use affn::cartesian;
 use affn::centers::{AffineCenter, ReferenceCenter};
 use affn::frames::ITRF;
 use qtty::unit::Meter;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::io::{BufRead, BufReader, Read};
 
 /// Earth geocenter marker for SINEX ITRF coordinates.
@@ -153,7 +153,7 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
         pt: String,
         soln: String,
     }
-    let mut estimates: HashMap<String, EstRow> = HashMap::new();
+    let mut estimates: BTreeMap<String, EstRow> = BTreeMap::new();
 
     #[derive(PartialEq)]
     enum Block {
-- 
2.43.0


From f65978c755ae4ecbc50c0345504646511e99ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 03/67] fix: RINEX NAV parsing no longer panics on short or
 non-ASCII records

---
 src/formats/rinex/nav.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/formats/rinex/nav.rs b/src/formats/rinex/nav.rs
index 9411b30..e108310 100644
--- a/src/formats/rinex/nav.rs
+++ b/src/formats/rinex/nav.rs
@@ -246,19 +246,24 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
         }
 
         // ── PRN ────────────────────────────────────────────────────────────
-        let prn_result = if l0.starts_with('G') {
-            l0[1..3].trim().parse::<u8>()
+        // `get` rather than indexing: a damaged line may put a multi-byte
+        // character across the field boundary.
+        let prn_field = if l0.starts_with('G') {
+            l0.get(1..3)
         } else {
-            l0[..3].trim().parse::<u8>()
+            l0.get(..3)
         };
-        let prn = match prn_result {
-            Ok(p) if p > 0 => p,
-            Ok(_) | Err(_) => {
+        let prn_and_rest = prn_field
+            .and_then(|f| f.trim().parse::<u8>().ok())
+            .zip(l0.get(3..));
+        let (prn, rest) = match prn_and_rest {
+            Some((p, rest)) if p > 0 => (p, rest),
+            _ => {
                 if mode == ParseMode::Strict {
                     return Err(FormatError::located(
                         "RINEX 3.05 §6.3",
                         FileLocation::at_line(line_no_1),
-                        format!("invalid GPS PRN: {:?}", &l0[..l0.len().min(3)]),
+                        format!("invalid GPS PRN: {:?}", prn_field.unwrap_or(l0)),
                     ));
                 }
                 i += 8;
@@ -267,7 +272,6 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
         };
 
         // ── TOC + clock terms ──────────────────────────────────────────────
-        let rest = &l0[3..];
         let toc_tokens: Vec<&str> = rest.split_whitespace().collect();
         let header_result = (|| -> Result<(Time<UTC>, f64, f64, f64), FormatError> {
             if toc_tokens.len() < 9 {
@@ -333,7 +337,7 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
         let parse_body = |idx: usize, expected: usize| -> Result<Vec<f64>, FormatError> {
             let (ln, text) = collected[i + idx];
             let vals = collect_floats(text, ln + 1)?;
-            if vals.len() < expected && mode == ParseMode::Strict {
+            if vals.len() < expected {
                 return Err(FormatError::located(
                     "RINEX 3.05 §6.5",
                     FileLocation::at_line(ln + 1),
-- 
2.43.0


From 363dc6c1c874aca3376dd364016db908e3471a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 04/67] fix: RINEX OBS/DORIS readers and ANTEX writer no longer
 slice inside a character

---
 src/formats/igs/antex.rs   |  6 +++++-
 src/formats/rinex/doris.rs | 34 ++++++++++++++++++----------------
 src/formats/rinex/obs.rs   | 24 ++++++++++++++++--------
 3 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/src/formats/igs/antex.rs b/src/formats/igs/antex.rs
index ca5da97..598b163 100644
--- a/src/formats/igs/antex.rs
+++ b/src/formats/igs/antex.rs
@@ -114,7 +114,11 @@ pub fn read_antex<R: Read>(rdr: R) -> Result<AntexCatalog, FormatError> {
 }
 
 fn header_line<W: Write>(w: &mut W, body: &str, label: &str) -> std::io::Result<()> {
-    let body = if body.len() > 60 { &body[..60] } else { body };
+    let mut end = body.len().min(60);
+    while !body.is_char_boundary(end) {
+        end -= 1;
+    }
+    let body = &body[..end];
     writeln!(w, "{:<60}{}", body, label)
 }
 
diff --git a/src/formats/rinex/doris.rs b/src/formats/rinex/doris.rs
index 988fde4..bd62518 100644
--- a/src/formats/rinex/doris.rs
+++ b/src/formats/rinex/doris.rs
@@ -93,17 +93,20 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
             if l.len() < 61 {
                 continue;
             }
-            let (data, label) = l.split_at(60);
+            let (Some(data), Some(label)) = (l.get(..60), l.get(60..)) else {
+                continue;
+            };
+            let col = |range: std::ops::Range<usize>| data.get(range).unwrap_or("").trim();
             let label = label.trim();
             match label {
-                "RINEX VERSION / TYPE" => out.header.version = data[..9].trim().to_string(),
+                "RINEX VERSION / TYPE" => out.header.version = col(0..9).to_string(),
                 "PGM / RUN BY / DATE" => {
-                    out.header.program = data[..20].trim().to_string();
-                    out.header.agency = data[20..40].trim().to_string();
+                    out.header.program = col(0..20).to_string();
+                    out.header.agency = col(20..40).to_string();
                 }
                 "MARKER NAME" => out.header.marker_name = data.trim().to_string(),
-                "ANT # / TYPE" => out.header.antenna_type = data[20..].trim().to_string(),
-                "REC # / TYPE / VERS" => out.header.receiver_type = data[20..40].trim().to_string(),
+                "ANT # / TYPE" => out.header.antenna_type = col(20..60).to_string(),
+                "REC # / TYPE / VERS" => out.header.receiver_type = col(20..40).to_string(),
                 "END OF HEADER" => in_header = false,
                 _ => {}
             }
@@ -127,17 +130,12 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
             }
             continue;
         }
-        let sat_id = if l.len() >= 3 && l.starts_with('D') {
-            Some(l[0..3].to_string())
-        } else {
-            current_sat.clone()
+        let sat_id = match l.get(0..3) {
+            Some(id) if id.starts_with('D') => Some(id.to_string()),
+            _ => current_sat.clone(),
         };
         if let (Some(mjd), Some(sat)) = (current_obs_epoch, sat_id) {
-            let raw = if l.len() > 3 {
-                l[3..].trim().to_string()
-            } else {
-                String::new()
-            };
+            let raw = l.get(3..).unwrap_or("").trim().to_string();
             if raw.is_empty() {
                 out.unsupported_obs += 1;
             }
@@ -156,7 +154,11 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
 #[cfg(feature = "doris")]
 fn date_to_mjd(y: i32, mo: u32, d: u32, h: u32, mi: u32, s: f64) -> f64 {
     // Standard civil → MJD conversion (Meeus §7).
-    let (yy, mm) = if mo <= 2 { (y - 1, mo + 12) } else { (y, mo) };
+    let (yy, mm) = if mo <= 2 {
+        (y.saturating_sub(1), mo + 12)
+    } else {
+        (y, mo)
+    };
     let a = (yy as f64 / 100.0).floor();
     let b = 2.0 - a + (a / 4.0).floor();
     let jd = (365.25 * (yy as f64 + 4716.0)).floor()
diff --git a/src/formats/rinex/obs.rs b/src/formats/rinex/obs.rs
index c4206ff..99ae8d8 100644
--- a/src/formats/rinex/obs.rs
+++ b/src/formats/rinex/obs.rs
@@ -110,8 +110,13 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
                 if !sys.is_ascii_alphabetic() {
                     continue;
                 }
-                let count: usize = body[1..6].trim().parse().unwrap_or(0);
-                let mut types: Vec<String> = body[7..]
+                let count: usize = body
+                    .get(1..6)
+                    .and_then(|s| s.trim().parse().ok())
+                    .unwrap_or(0);
+                let mut types: Vec<String> = body
+                    .get(7..)
+                    .unwrap_or("")
                     .split_whitespace()
                     .map(|s| s.to_string())
                     .collect();
@@ -171,10 +176,10 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
                 break;
             }
             let row = line.trim_end();
-            if row.len() < 3 {
+            let (Some(sat), Some(payload)) = (row.get(..3), row.get(3..)) else {
                 continue;
-            }
-            let sat = row[..3].to_string();
+            };
+            let sat = sat.to_string();
             let sys = sat.chars().next().unwrap_or(' ');
             let types = match obs_types.get(&sys) {
                 Some(t) => t.clone(),
@@ -183,14 +188,13 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
             let mut vals: HashMap<String, f64> = HashMap::new();
             // RINEX 3: each observable occupies 16 columns (F14.3 + 2 status
             // chars). We slice that and parse loosely.
-            let payload = &row[3..];
             for (i, ty) in types.iter().enumerate() {
                 let start = i * 16;
                 if start >= payload.len() {
                     break;
                 }
                 let end = (start + 14).min(payload.len());
-                let raw = payload[start..end].trim();
+                let raw = payload.get(start..end).unwrap_or("").trim();
                 if raw.is_empty() {
                     continue;
                 }
@@ -258,7 +262,11 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
 /// ```
 pub fn write_rinex_obs<W: Write>(w: &mut W, obs: &RinexObs) -> Result<(), FormatError> {
     fn header_line(w: &mut impl Write, body: &str, label: &str) -> std::io::Result<()> {
-        let body = if body.len() > 60 { &body[..60] } else { body };
+        let mut end = body.len().min(60);
+        while !body.is_char_boundary(end) {
+            end -= 1;
+        }
+        let body = &body[..end];
         writeln!(w, "{:<60}{}", body, label)
     }
     header_line(
-- 
2.43.0


From 928d47ae9cb8928e31d332f44679bc0c7c8f8004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 05/67] fix: CPF position records with an impossible epoch are
 rejected instead of overflowing

---
 src/formats/ilrs/cpf.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/formats/ilrs/cpf.rs b/src/formats/ilrs/cpf.rs
index 812635b..b5dc2ca 100644
--- a/src/formats/ilrs/cpf.rs
+++ b/src/formats/ilrs/cpf.rs
@@ -454,11 +454,19 @@ fn parse_cpf_impl(
     Ok(out)
 }
 
+/// Largest |MJD| accepted in a CPF position record (about ±27 000 years).
+const MAX_ABS_MJD: u64 = 10_000_000;
+
 /// Build a `Time<UTC>` from an integer MJD and fractional seconds-of-day.
 fn build_epoch_from_mjd_sod(mjd_int: i64, sod: f64) -> Result<Time<UTC>, FormatError> {
     // Convert MJD to calendar date, then to chrono, then add SOD.
     // MJD 0 = 1858-11-17. MJD → Julian Day: JD = MJD + 2400000.5
     // Use Julian Day Number arithmetic to get year/month/day.
+    if mjd_int.unsigned_abs() > MAX_ABS_MJD || !(sod.is_finite() && sod >= 0.0) {
+        return Err(FormatError::Format(format!(
+            "CPF 10: epoch out of range: MJD {mjd_int}, SOD {sod}"
+        )));
+    }
     let jd_whole = mjd_int + 2_400_001; // integer JD at noon of MJD day
                                         // Algorithm from USNO (Fliegel & Van Flandern, 1968):
     let l = jd_whole + 68_569;
-- 
2.43.0


From 38fa9985de3741fbf3674e3d9e54acc7f4e90bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 06/67] fix: read_eop_c04 skips rows with unreadable numbers
 instead of inventing zeros

---
 src/formats/iers/eop.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/formats/iers/eop.rs b/src/formats/iers/eop.rs
index 37e4b8e..a6bd5e5 100644
--- a/src/formats/iers/eop.rs
+++ b/src/formats/iers/eop.rs
@@ -63,6 +63,9 @@ pub struct EopRecord {
     pub eop: EopValues,
 }
 
+/// Largest |MJD| accepted for a data row (about ±27 000 years).
+const MAX_ABS_MJD: f64 = 1.0e7;
+
 /// Parse a C04-style EOP file.
 pub fn read_eop_c04<R: Read>(rdr: R) -> Result<Vec<EopRecord>, FormatError> {
     let br = BufReader::new(rdr);
@@ -85,20 +88,22 @@ pub fn read_eop_c04<R: Read>(rdr: R) -> Result<Vec<EopRecord>, FormatError> {
         {
             continue;
         }
-        let mjd_raw: f64 = match parts[3].parse() {
-            Ok(v) => v,
-            Err(_) => continue,
+        // A row with an unreadable number is skipped as a whole: substituting a
+        // default would pass an invented pole position or UT1−UTC on.
+        let fields: Result<Vec<f64>, _> = parts[3..10].iter().map(|p| p.parse::<f64>()).collect();
+        let Ok(fields) = fields else {
+            continue;
         };
-        let mjd = match ModifiedJulianDate::<UTC>::try_new(Day::new(mjd_raw)) {
+        if fields.iter().any(|v| !v.is_finite()) || fields[0].abs() > MAX_ABS_MJD {
+            continue;
+        }
+        let mjd = match ModifiedJulianDate::<UTC>::try_new(Day::new(fields[0])) {
             Ok(m) => m,
             Err(_) => continue,
         };
-        let x = parts[4].parse().unwrap_or(0.0);
-        let y = parts[5].parse().unwrap_or(0.0);
-        let ut1 = parts[6].parse().unwrap_or(0.0);
-        let lod = parts[7].parse().unwrap_or(0.0);
-        let dpsi = parts[8].parse().unwrap_or(0.0);
-        let deps = parts[9].parse().unwrap_or(0.0);
+        let (x, y, ut1, lod, dpsi, deps) = (
+            fields[1], fields[2], fields[3], fields[4], fields[5], fields[6],
+        );
         out.push(EopRecord {
             mjd,
             eop: EopValues {
-- 
2.43.0


From 030f9431e3de4bd27294bd570a301988e54c7b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 07/67] fix: unreadable epochs are rejected by the ORBEX,
 SINEX, RINEX OBS and DORIS readers

---
 src/formats/igs/orbex.rs   | 30 ++++++++++++++++++------------
 src/formats/igs/sinex.rs   | 31 +++++++++++++++++++------------
 src/formats/rinex/doris.rs | 18 ++++++++++++------
 src/formats/rinex/obs.rs   | 20 +++++++++++++-------
 4 files changed, 62 insertions(+), 37 deletions(-)

diff --git a/src/formats/igs/orbex.rs b/src/formats/igs/orbex.rs
index 911515b..df37783 100644
--- a/src/formats/igs/orbex.rs
+++ b/src/formats/igs/orbex.rs
@@ -140,7 +140,7 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
     }
 
     let mut section = Section::None;
-    let mut current_epoch_mjd: f64 = 0.0;
+    let mut current_epoch_mjd: Option<f64> = Some(0.0);
 
     for (lineno, result) in buf.lines().enumerate() {
         let line = result.map_err(FormatError::Io)?;
@@ -168,11 +168,13 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
         if line.starts_with("##") {
             let rest = line.trim_start_matches('#').trim();
             let parts: Vec<&str> = rest.split_whitespace().collect();
-            if parts.len() >= 3 {
-                let year: i32 = parts[0].parse().unwrap_or(2000);
-                let doy: u32 = parts[1].parse().unwrap_or(1);
-                let sod: f64 = parts[2].parse().unwrap_or(0.0);
-                current_epoch_mjd = orbex_epoch_to_mjd(year, doy, sod);
+            current_epoch_mjd = orbex_epoch_to_mjd(&parts);
+            if current_epoch_mjd.is_none() && mode == ParseMode::Strict {
+                return Err(FormatError::located(
+                    "ORBEX §3.2",
+                    FileLocation::at_line(lineno),
+                    format!("cannot parse epoch: {rest}"),
+                ));
             }
             continue;
         }
@@ -204,6 +206,10 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
         if parts.is_empty() {
             continue;
         }
+        // Permissive mode: records under an unreadable epoch are skipped.
+        let Some(current_epoch_mjd) = current_epoch_mjd else {
+            continue;
+        };
 
         match section {
             Section::Orb => {
@@ -298,14 +304,14 @@ fn parse_f64(s: &str, lineno: usize, what: &str, mode: ParseMode) -> Result<f64,
     })
 }
 
-fn orbex_epoch_to_mjd(year: i32, doy: u32, sod: f64) -> f64 {
-    let epoch = match chrono::NaiveDate::from_yo_opt(year, doy.max(1)) {
-        Some(d) => d,
-        None => return 0.0,
-    };
+fn orbex_epoch_to_mjd(parts: &[&str]) -> Option<f64> {
+    let year: i32 = parts.first()?.parse().ok()?;
+    let doy: u32 = parts.get(1)?.parse().ok()?;
+    let sod: f64 = parts.get(2)?.parse().ok()?;
+    let epoch = chrono::NaiveDate::from_yo_opt(year, doy.max(1))?;
     let mjd_ref = chrono::NaiveDate::from_ymd_opt(1858, 11, 17).expect("valid MJD epoch");
     let days = (epoch - mjd_ref).num_days() as f64;
-    days + sod / 86400.0
+    Some(days + sod / 86400.0)
 }
 
 #[cfg(test)]
diff --git a/src/formats/igs/sinex.rs b/src/formats/igs/sinex.rs
index 9daeafb..0f70410 100644
--- a/src/formats/igs/sinex.rs
+++ b/src/formats/igs/sinex.rs
@@ -239,7 +239,17 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
                     }
                 };
 
-                let ref_epoch_mjd = sinex_epoch_to_mjd(epoch_raw);
+                let ref_epoch_mjd = match sinex_epoch_to_mjd(epoch_raw) {
+                    Some(mjd) => mjd,
+                    None if mode == ParseMode::Strict => {
+                        return Err(FormatError::located(
+                            "SINEX 2.10 §4.2",
+                            FileLocation::at_line(lineno),
+                            format!("cannot parse epoch: {epoch_raw}"),
+                        ));
+                    }
+                    None => 0.0,
+                };
                 let row = estimates.entry(code.clone()).or_default();
                 row.pt = pt;
                 row.soln = soln;
@@ -282,28 +292,25 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
 }
 
 /// Convert a SINEX epoch string `"YY:DDD:SSSSS"` to MJD.
-fn sinex_epoch_to_mjd(s: &str) -> f64 {
+fn sinex_epoch_to_mjd(s: &str) -> Option<f64> {
     let parts: Vec<&str> = s.split(':').collect();
     if parts.len() != 3 {
-        return 0.0;
+        return None;
     }
-    let yy: i32 = parts[0].parse().unwrap_or(0);
-    let doy: u32 = parts[1].parse().unwrap_or(1);
-    let sod: f64 = parts[2].parse().unwrap_or(0.0);
+    let yy: i32 = parts[0].parse().ok()?;
+    let doy: u32 = parts[1].parse().ok()?;
+    let sod: f64 = parts[2].parse().ok()?;
     let yyyy = if yy == 0 {
         2000
     } else if yy >= 80 {
-        1900 + yy
+        yy.checked_add(1900)?
     } else {
         2000 + yy
     };
-    let epoch = match chrono::NaiveDate::from_yo_opt(yyyy, doy.max(1)) {
-        Some(d) => d,
-        None => return 0.0,
-    };
+    let epoch = chrono::NaiveDate::from_yo_opt(yyyy, doy.max(1))?;
     let mjd_ref = chrono::NaiveDate::from_ymd_opt(1858, 11, 17).expect("valid MJD epoch");
     let days = (epoch - mjd_ref).num_days() as f64;
-    days + sod / 86400.0
+    Some(days + sod / 86400.0)
 }
 
 #[cfg(test)]
diff --git a/src/formats/rinex/doris.rs b/src/formats/rinex/doris.rs
index bd62518..621b79c 100644
--- a/src/formats/rinex/doris.rs
+++ b/src/formats/rinex/doris.rs
@@ -119,12 +119,18 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
             // RINEX 3 epoch flag line: "> YYYY MM DD HH MM SS.SSS"
             let parts: Vec<&str> = rest.split_whitespace().collect();
             if parts.len() >= 6 {
-                let y: i32 = parts[0].parse().unwrap_or(0);
-                let mo: u32 = parts[1].parse().unwrap_or(0);
-                let d: u32 = parts[2].parse().unwrap_or(0);
-                let h: u32 = parts[3].parse().unwrap_or(0);
-                let mi: u32 = parts[4].parse().unwrap_or(0);
-                let s: f64 = parts[5].parse().unwrap_or(0.0);
+                // An unreadable field must not turn into another valid epoch.
+                fn field<T: std::str::FromStr>(raw: &str) -> Result<T, FormatError> {
+                    raw.parse().map_err(|_| {
+                        FormatError::Format(format!("RINEX-DORIS: invalid epoch field {raw:?}"))
+                    })
+                }
+                let y: i32 = field(parts[0])?;
+                let mo: u32 = field(parts[1])?;
+                let d: u32 = field(parts[2])?;
+                let h: u32 = field(parts[3])?;
+                let mi: u32 = field(parts[4])?;
+                let s: f64 = field(parts[5])?;
                 current_obs_epoch = Some(date_to_mjd(y, mo, d, h, mi, s));
                 current_sat = None;
             }
diff --git a/src/formats/rinex/obs.rs b/src/formats/rinex/obs.rs
index 99ae8d8..0737d94 100644
--- a/src/formats/rinex/obs.rs
+++ b/src/formats/rinex/obs.rs
@@ -151,12 +151,18 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
         if parts.len() < 9 {
             continue;
         }
-        let year: i32 = parts[1].parse().unwrap_or(0);
-        let month: u32 = parts[2].parse().unwrap_or(0);
-        let day: u32 = parts[3].parse().unwrap_or(0);
-        let hour: u32 = parts[4].parse().unwrap_or(0);
-        let minute: u32 = parts[5].parse().unwrap_or(0);
-        let second_f: f64 = parts[6].parse().unwrap_or(0.0);
+        // An unreadable epoch field must not turn into another valid epoch.
+        fn field<T: std::str::FromStr>(raw: &str) -> Result<T, FormatError> {
+            raw.parse().map_err(|_| {
+                FormatError::Format(format!("rinex_obs: invalid epoch line field {raw:?}"))
+            })
+        }
+        let year: i32 = field(parts[1])?;
+        let month: u32 = field(parts[2])?;
+        let day: u32 = field(parts[3])?;
+        let hour: u32 = field(parts[4])?;
+        let minute: u32 = field(parts[5])?;
+        let second_f: f64 = field(parts[6])?;
         let second_int = second_f as u32;
         let nanos = ((second_f - second_int as f64) * 1e9).round() as u32;
         let naive = NaiveDate::from_ymd_opt(year, month, day)
@@ -167,7 +173,7 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
                 .map_err(|e| {
                     FormatError::Format(format!("rinex_obs: epoch UTC conversion: {e}"))
                 })?;
-        let n_sat: usize = parts[8].parse().unwrap_or(0);
+        let n_sat: usize = field(parts[8])?;
 
         let mut sats = HashMap::new();
         for _ in 0..n_sat {
-- 
2.43.0


From 5f45666d2fdfb12a62ee6191c0dea55b8280c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 08/67] fix: CRD normal-point flags that cannot be read are an
 error in strict mode

---
 src/formats/ilrs/crd.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/formats/ilrs/crd.rs b/src/formats/ilrs/crd.rs
index b9a0c4d..51e6ecc 100644
--- a/src/formats/ilrs/crd.rs
+++ b/src/formats/ilrs/crd.rs
@@ -406,10 +406,23 @@ fn parse_crd_impl(
                         .first()
                         .map(|s| s.to_string())
                         .unwrap_or_else(|| current_sys.clone());
-                    let epoch_event: u8 = rest.get(1).and_then(|s| s.parse().ok()).unwrap_or(0);
-                    let filter_flag: u8 = rest.get(2).and_then(|s| s.parse().ok()).unwrap_or(0);
-                    let data_quality: u8 = rest.get(3).and_then(|s| s.parse().ok()).unwrap_or(0);
-                    let format_flag: u8 = rest.get(4).and_then(|s| s.parse().ok()).unwrap_or(0);
+                    // A missing flag defaults to 0; an unreadable one must not.
+                    let flag = |i: usize, what: &str| -> Result<u8, FormatError> {
+                        match rest.get(i).map(|s| s.parse::<u8>()) {
+                            None => Ok(0),
+                            Some(Ok(v)) => Ok(v),
+                            Some(Err(_)) if mode == ParseMode::Permissive => Ok(0),
+                            Some(Err(_)) => Err(FormatError::located(
+                                "CRD v2 §4.1",
+                                FileLocation::new(path.clone(), Some(line_no), None),
+                                format!("record {tag}: cannot parse {what}: {:?}", rest[i]),
+                            )),
+                        }
+                    };
+                    let epoch_event = flag(1, "epoch event")?;
+                    let filter_flag = flag(2, "filter flag")?;
+                    let data_quality = flag(3, "data quality flag")?;
+                    let format_flag = flag(4, "format flag")?;
                     let num_raws: Option<u32> = rest.get(5).and_then(|s| s.parse().ok());
                     // bin_rms is in picoseconds in the file; convert to metres.
                     let bin_rms_m: Option<Meters> = rest
-- 
2.43.0


From 4e2317c80e7433d423a43799e5aae08da38c9f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 09/67] fix: RINEX NAV writer output reads back (run-on fields,
 TOC rounding, non-finite values)

---
 src/formats/rinex/nav.rs | 71 +++++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/src/formats/rinex/nav.rs b/src/formats/rinex/nav.rs
index e108310..56ac7fe 100644
--- a/src/formats/rinex/nav.rs
+++ b/src/formats/rinex/nav.rs
@@ -28,7 +28,7 @@
 //! - IS-GPS-200. (current revision). Navstar GPS Space Segment / Navigation
 //!   User Interfaces.
 use super::{FileLocation, FormatError, ParseMode};
-use chrono::{DateTime, Datelike, NaiveDate, Timelike, Utc as ChronoUtc};
+use chrono::{DateTime, Datelike, NaiveDate, SubsecRound, Timelike, Utc as ChronoUtc};
 use qtty::angular::Radians;
 use qtty::angular_rate::AngularRate;
 use qtty::length::Meters;
@@ -272,7 +272,7 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
         };
 
         // ── TOC + clock terms ──────────────────────────────────────────────
-        let toc_tokens: Vec<&str> = rest.split_whitespace().collect();
+        let toc_tokens = split_fields(rest);
         let header_result = (|| -> Result<(Time<UTC>, f64, f64, f64), FormatError> {
             if toc_tokens.len() < 9 {
                 return Err(FormatError::located(
@@ -299,7 +299,9 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
             let h = parse_int(toc_tokens[3], "hour")?;
             let mi = parse_int(toc_tokens[4], "minute")?;
             let sec_f = parse_d(toc_tokens[5], line_no_1, "second")?;
-            let sec_i = sec_f as u64;
+            // A leap second (60) is second 59 with a carry in the nanosecond
+            // field; the UTC conversion rejects it where none exists.
+            let sec_i = (sec_f as u64).min(if sec_f < 61.0 { 59 } else { 60 });
             let nanos = ((sec_f - sec_i as f64) * 1e9).round() as u32;
             let toc = NaiveDate::from_ymd_opt(y as i32, mo as u32, d as u32)
                 .and_then(|nd| nd.and_hms_nano_opt(h as u32, mi as u32, sec_i as u32, nanos))
@@ -448,20 +450,47 @@ fn parse_d(s: &str, line: usize, field: &str) -> Result<f64, FormatError> {
         })
 }
 
+/// Split a record into its numeric fields.
+///
+/// RINEX numeric fields are fixed width (`D19.12`), so a negative value may
+/// follow the previous field without a separating blank; a sign directly
+/// after a mantissa or exponent digit therefore starts a new field.
+fn split_fields(line: &str) -> Vec<&str> {
+    let mut out = Vec::new();
+    for token in line.split_whitespace() {
+        let bytes = token.as_bytes();
+        let mut start = 0;
+        for i in 1..bytes.len() {
+            if matches!(bytes[i], b'+' | b'-')
+                && (bytes[i - 1].is_ascii_digit() || bytes[i - 1] == b'.')
+            {
+                out.push(&token[start..i]);
+                start = i;
+            }
+        }
+        out.push(&token[start..]);
+    }
+    out
+}
+
 fn collect_floats(line: &str, line_no: usize) -> Result<Vec<f64>, FormatError> {
-    line.split_whitespace()
+    split_fields(line)
+        .into_iter()
         .map(|s| parse_d(s, line_no, "body"))
         .collect()
 }
 
 /// Format an `f64` in Fortran D-notation (e.g. `1.234567890123456E+02` →
 /// `1.234567890123456D+02`), as used by RINEX NAV body lines.
-fn fmt_d(v: f64) -> String {
+fn fmt_d(v: f64) -> std::io::Result<String> {
     if !v.is_finite() {
-        return format!("{:>19}", "0.000000000000000D+00");
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            "rinex_nav: non-finite value cannot be written",
+        ));
     }
     let s = format!("{:19.12E}", v);
-    s.replace('E', "D")
+    Ok(s.replace('E', "D"))
 }
 
 /// Write a RINEX 3.04 NAV file matching the layout consumed by
@@ -472,13 +501,14 @@ fn fmt_d(v: f64) -> String {
 /// output uses fixed-width Fortran D-notation in the standard
 /// `19.12D` field width.
 ///
-/// Round-trip parity is exact at 1e-15 relative for every numeric field
-/// under [`parse_rinex_nav`].
+/// Every numeric field carries 13 significant digits and reads back under
+/// [`parse_rinex_nav`] to that precision; the TOC is written to the nearest
+/// second.
 ///
 /// # Errors
 ///
 /// Returns [`FormatError::Io`] on write failures and [`FormatError::Format`]
-/// on epoch projection failures.
+/// on epoch projection failures or when a record holds a non-finite value.
 ///
 /// # Examples
 ///
@@ -518,8 +548,9 @@ pub fn write_rinex_nav<W: Write>(w: &mut W, file: &RinexNavFile) -> Result<(), F
         let dt = r
             .toc
             .try_to_chrono()
-            .map_err(|e| FormatError::Format(format!("rinex_nav: TOC to chrono failed: {e}")))?;
-        let sec = dt.second() as f64 + dt.nanosecond() as f64 / 1e9;
+            .map_err(|e| FormatError::Format(format!("rinex_nav: TOC to chrono failed: {e}")))?
+            .round_subsecs(0);
+        let sec = dt.second() + dt.nanosecond() / 1_000_000_000;
         // Line 0: PRN + TOC + 3 clock terms.
         writeln!(
             w,
@@ -530,19 +561,19 @@ pub fn write_rinex_nav<W: Write>(w: &mut W, file: &RinexNavFile) -> Result<(), F
             dt.day(),
             dt.hour(),
             dt.minute(),
-            sec as u32,
-            fmt_d(r.af0.value()),
-            fmt_d(r.af1),
-            fmt_d(r.af2),
+            sec,
+            fmt_d(r.af0.value())?,
+            fmt_d(r.af1)?,
+            fmt_d(r.af2)?,
         )?;
         let cont = |w: &mut W, vs: [f64; 4]| -> std::io::Result<()> {
             writeln!(
                 w,
                 "    {}{}{}{}",
-                fmt_d(vs[0]),
-                fmt_d(vs[1]),
-                fmt_d(vs[2]),
-                fmt_d(vs[3])
+                fmt_d(vs[0])?,
+                fmt_d(vs[1])?,
+                fmt_d(vs[2])?,
+                fmt_d(vs[3])?
             )
         };
         cont(w, [r.iode, r.crs.value(), r.delta_n.value(), r.m0.value()])?;
-- 
2.43.0


From 9edf5acb533877db22dff801def318a3b8dc5f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 10/67] fix: product writers carry rounded seconds and readers
 accept leap seconds

---
 src/formats/ccsds/oem.rs | 29 +++++++++++++++++++++--------
 src/formats/igs/sp3.rs   |  9 +++++++--
 src/formats/ilrs/cpf.rs  | 10 +++++++---
 src/formats/rinex/obs.rs |  9 ++++++---
 4 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/src/formats/ccsds/oem.rs b/src/formats/ccsds/oem.rs
index fa432e5..388ad79 100644
--- a/src/formats/ccsds/oem.rs
+++ b/src/formats/ccsds/oem.rs
@@ -126,8 +126,15 @@ pub fn write_oem<W: Write>(
 /// Conversion is "calendar date in proleptic Gregorian, fractional seconds";
 /// no leap-second handling — the caller is responsible for the time system.
 fn jd_to_iso8601(jd: f64) -> String {
-    let jd_int = (jd + 0.5).floor() as i64;
-    let frac = jd + 0.5 - jd_int as f64;
+    let day_start = (jd + 0.5).floor();
+    // Round to the written precision first, so that the carry reaches the
+    // minute, hour and day instead of producing a 60 s field.
+    let mut micros = ((jd + 0.5 - day_start) * 86_400.0e6).round() as i64;
+    let mut jd_int = day_start as i64;
+    if micros >= 86_400_000_000 {
+        micros -= 86_400_000_000;
+        jd_int += 1;
+    }
 
     let a = jd_int + 32_044;
     let b = (4 * a + 3) / 146_097;
@@ -139,14 +146,20 @@ fn jd_to_iso8601(jd: f64) -> String {
     let month = (m + 3 - 12 * (m / 10)) as u32;
     let year = (100 * b + d - 4_800 + (m / 10)) as i32;
 
-    let total_seconds = frac * 86_400.0;
-    let hours = (total_seconds / 3600.0).floor() as u32 % 24;
-    let mins = ((total_seconds % 3600.0) / 60.0).floor() as u32;
-    let secs = total_seconds % 60.0;
+    let total_seconds = micros / 1_000_000;
+    let hours = total_seconds / 3600;
+    let mins = total_seconds / 60 % 60;
+    let secs = total_seconds % 60;
 
     format!(
-        "{:04}-{:02}-{:02}T{:02}:{:02}:{:09.6}",
-        year, month, day, hours, mins, secs
+        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06}",
+        year,
+        month,
+        day,
+        hours,
+        mins,
+        secs,
+        micros % 1_000_000
     )
 }
 
diff --git a/src/formats/igs/sp3.rs b/src/formats/igs/sp3.rs
index 0755375..61cbb99 100644
--- a/src/formats/igs/sp3.rs
+++ b/src/formats/igs/sp3.rs
@@ -116,7 +116,9 @@ fn civil_to_time_utc(
     second: f64,
     line: usize,
 ) -> Result<Time<UTC>, Sp3Error> {
-    let second_int = second as u32;
+    // A leap second (60.x) is second 59 with a carry in the nanosecond field;
+    // the UTC conversion below rejects it where no leap second exists.
+    let second_int = (second as u32).min(if second < 61.0 { 59 } else { 60 });
     let nanos = ((second - second_int as f64) * 1e9).round() as u32;
     let naive = NaiveDate::from_ymd_opt(year, month, day)
         .and_then(|d| d.and_hms_nano_opt(hour, minute, second_int, nanos))
@@ -254,7 +256,7 @@ where
 /// Write an SP3 record. The header lines are emitted verbatim, then each
 /// epoch as `* YYYY MM DD HH MM SS.SS...` followed by `PXXX X Y Z CLK` lines.
 pub fn write_sp3<W: Write>(w: &mut W, rec: &Sp3Record) -> Result<(), Sp3Error> {
-    use chrono::{Datelike, Timelike};
+    use chrono::{Datelike, SubsecRound, Timelike};
     for h in &rec.header {
         writeln!(w, "{h}")?;
     }
@@ -263,6 +265,9 @@ pub fn write_sp3<W: Write>(w: &mut W, rec: &Sp3Record) -> Result<(), Sp3Error> {
             line: 0,
             message: format!("epoch to chrono: {err}"),
         })?;
+        // Round to the written precision first, so that the carry reaches the
+        // minute instead of producing a 60 s field.
+        let dt = dt.round_subsecs(8);
         let second = dt.second() as f64 + dt.nanosecond() as f64 / 1e9;
         writeln!(
             w,
diff --git a/src/formats/ilrs/cpf.rs b/src/formats/ilrs/cpf.rs
index b5dc2ca..2392bea 100644
--- a/src/formats/ilrs/cpf.rs
+++ b/src/formats/ilrs/cpf.rs
@@ -318,10 +318,12 @@ pub fn write_cpf<W: Write>(f: &CpfFile, w: &mut W) -> Result<(), FormatError> {
 /// Decompose a UTC epoch into the `(integer MJD, seconds-of-day)`
 /// pair used by CPF record 10.
 fn mjd_sod_from_epoch(epoch: Time<UTC>) -> (i64, f64) {
-    use chrono::Timelike;
+    use chrono::{SubsecRound, Timelike};
+    // Round to the written precision first, so that the carry reaches the day.
     let dt = epoch
         .try_to_chrono()
-        .expect("CPF UTC epoch must be representable in chrono");
+        .expect("CPF UTC epoch must be representable in chrono")
+        .round_subsecs(3);
     let mjd_epoch =
         NaiveDate::from_ymd_opt(1858, 11, 17).expect("MJD epoch 1858-11-17 is a valid date");
     let mjd_int = dt.date_naive().signed_duration_since(mjd_epoch).num_days();
@@ -480,7 +482,9 @@ fn build_epoch_from_mjd_sod(mjd_int: i64, sod: f64) -> Result<Time<UTC>, FormatE
     let month = j + 2 - 12 * l4;
     let year = 100 * (n - 49) + i + l4;
 
-    let sod_int = sod as u32;
+    // A leap second (86400.x) is the last second of the day with a carry in
+    // the nanosecond field; the UTC conversion rejects it where none exists.
+    let sod_int = (sod as u32).min(if sod < 86_401.0 { 86_399 } else { 86_400 });
     let sod_nanos = ((sod - sod_int as f64) * 1e9).round() as u32;
     let hour = sod_int / 3_600;
     let minute = (sod_int % 3_600) / 60;
diff --git a/src/formats/rinex/obs.rs b/src/formats/rinex/obs.rs
index 0737d94..0874766 100644
--- a/src/formats/rinex/obs.rs
+++ b/src/formats/rinex/obs.rs
@@ -30,7 +30,7 @@
 //! - Misra, P., & Enge, P. (2012). Global Positioning System: Signals,
 //!   Measurements, and Performance (2nd ed.). Ganga-Jamuna Press.
 use super::FormatError;
-use chrono::{DateTime, Datelike, NaiveDate, Timelike, Utc as ChronoUtc};
+use chrono::{DateTime, Datelike, NaiveDate, SubsecRound, Timelike, Utc as ChronoUtc};
 use qtty::length::Meters;
 use qtty::time::Seconds;
 use std::collections::HashMap;
@@ -163,7 +163,9 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
         let hour: u32 = field(parts[4])?;
         let minute: u32 = field(parts[5])?;
         let second_f: f64 = field(parts[6])?;
-        let second_int = second_f as u32;
+        // A leap second (60.x) is second 59 with a carry in the nanosecond
+        // field; the UTC conversion rejects it where no leap second exists.
+        let second_int = (second_f as u32).min(if second_f < 61.0 { 59 } else { 60 });
         let nanos = ((second_f - second_int as f64) * 1e9).round() as u32;
         let naive = NaiveDate::from_ymd_opt(year, month, day)
             .and_then(|d| d.and_hms_nano_opt(hour, minute, second_int, nanos))
@@ -315,7 +317,8 @@ pub fn write_rinex_obs<W: Write>(w: &mut W, obs: &RinexObs) -> Result<(), Format
         let dt = ep
             .time
             .try_to_chrono()
-            .map_err(|e| FormatError::Format(format!("rinex_obs: epoch to chrono failed: {e}")))?;
+            .map_err(|e| FormatError::Format(format!("rinex_obs: epoch to chrono failed: {e}")))?
+            .round_subsecs(7);
         let second = dt.second() as f64 + dt.nanosecond() as f64 / 1e9;
         writeln!(
             w,
-- 
2.43.0


From 6ecd002117385462686f2f6dbeb31992cdaaf9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 11/67] fix: read_oem_xml keeps text that contains entity
 references

---
 src/formats/ccsds/oem.rs | 89 +++++++++++++++++++++++-----------------
 1 file changed, 51 insertions(+), 38 deletions(-)

diff --git a/src/formats/ccsds/oem.rs b/src/formats/ccsds/oem.rs
index 388ad79..f79b5ac 100644
--- a/src/formats/ccsds/oem.rs
+++ b/src/formats/ccsds/oem.rs
@@ -590,7 +590,6 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
     r.read_to_string(&mut text)
         .map_err(|e| FormatError::Format(format!("read_oem_xml: io: {e}")))?;
     let mut rdr = Reader::from_str(&text);
-    rdr.config_mut().trim_text(true);
 
     #[derive(Default)]
     struct StateBuilder {
@@ -619,6 +618,7 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
     let mut segments: Vec<OemSegment> = Vec::new();
     let mut seg: Option<SegBuilder> = None;
     let mut cur_tag: Option<String> = None;
+    let mut cur_text = String::new();
     let mut buf = Vec::new();
 
     loop {
@@ -647,10 +647,44 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
                     _ => {}
                 }
                 cur_tag = Some(local);
+                cur_text.clear();
             }
             Event::End(e) => {
                 let name = String::from_utf8_lossy(e.name().as_ref()).to_string();
                 let local = name.rsplit(':').next().unwrap_or(&name).to_string();
+                if cur_tag.take().as_deref() == Some(local.as_str()) {
+                    let tag = local.as_str();
+                    let txt = cur_text.trim().to_string();
+                    if let Some(s) = seg.as_mut() {
+                        if let Some(b) = s.cur.as_mut() {
+                            match tag {
+                                "EPOCH" => b.epoch = iso8601_to_jd(&txt),
+                                "X" => b.x = txt.parse().ok(),
+                                "Y" => b.y = txt.parse().ok(),
+                                "Z" => b.z = txt.parse().ok(),
+                                "X_DOT" => b.vx = txt.parse().ok(),
+                                "Y_DOT" => b.vy = txt.parse().ok(),
+                                "Z_DOT" => b.vz = txt.parse().ok(),
+                                _ => {}
+                            }
+                        } else {
+                            match tag {
+                                "OBJECT_ID" => s.object_id = Some(txt),
+                                "OBJECT_NAME" => s.object_name = Some(txt),
+                                "REF_FRAME" => s.ref_frame = Some(txt),
+                                "TIME_SYSTEM" => s.time_system = Some(txt),
+                                "CENTER_NAME" => s.center_name = Some(txt),
+                                _ => {}
+                            }
+                        }
+                    } else {
+                        match tag {
+                            "CREATION_DATE" => creation_date = txt,
+                            "ORIGINATOR" => originator = txt,
+                            _ => {}
+                        }
+                    }
+                }
                 match local.as_str() {
                     "stateVector" => {
                         if let Some(s) = seg.as_mut() {
@@ -701,47 +735,26 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
                     _ => {}
                 }
                 cur_tag = None;
+                cur_text.clear();
             }
+            // Entity references (`&amp;` …) arrive as separate events, so the
+            // text of an element is assembled here and used at its end tag.
             Event::Text(t) => {
-                let txt =
-                    unescape(&t.xml10_content().map_err(|e| {
+                cur_text +=
+                    &unescape(&t.xml10_content().map_err(|e| {
                         FormatError::Format(format!("read_oem_xml: xml text: {e}"))
                     })?)
-                    .map_err(|e| FormatError::Format(format!("read_oem_xml: xml text: {e}")))?
-                    .to_string();
-                let tag = match &cur_tag {
-                    Some(t) => t.as_str(),
-                    None => continue,
-                };
-                if let Some(s) = seg.as_mut() {
-                    if let Some(b) = s.cur.as_mut() {
-                        match tag {
-                            "EPOCH" => b.epoch = iso8601_to_jd(&txt),
-                            "X" => b.x = txt.parse().ok(),
-                            "Y" => b.y = txt.parse().ok(),
-                            "Z" => b.z = txt.parse().ok(),
-                            "X_DOT" => b.vx = txt.parse().ok(),
-                            "Y_DOT" => b.vy = txt.parse().ok(),
-                            "Z_DOT" => b.vz = txt.parse().ok(),
-                            _ => {}
-                        }
-                    } else {
-                        match tag {
-                            "OBJECT_ID" => s.object_id = Some(txt),
-                            "OBJECT_NAME" => s.object_name = Some(txt),
-                            "REF_FRAME" => s.ref_frame = Some(txt),
-                            "TIME_SYSTEM" => s.time_system = Some(txt),
-                            "CENTER_NAME" => s.center_name = Some(txt),
-                            _ => {}
-                        }
-                    }
-                } else {
-                    match tag {
-                        "CREATION_DATE" => creation_date = txt,
-                        "ORIGINATOR" => originator = txt,
-                        _ => {}
-                    }
-                }
+                    .map_err(|e| FormatError::Format(format!("read_oem_xml: xml text: {e}")))?;
+            }
+            Event::GeneralRef(r) => {
+                let entity = format!(
+                    "&{};",
+                    r.xml10_content().map_err(|e| {
+                        FormatError::Format(format!("read_oem_xml: xml text: {e}"))
+                    })?
+                );
+                cur_text += &unescape(&entity)
+                    .map_err(|e| FormatError::Format(format!("read_oem_xml: xml text: {e}")))?;
             }
             _ => {}
         }
-- 
2.43.0


From bdda3fe0bbcb5d025c0474eb1573c4dc4eb3f375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 12/67] fix: residual CSV labels containing delimiters are
 quoted

---
 src/pod/product/residuals_csv.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/pod/product/residuals_csv.rs b/src/pod/product/residuals_csv.rs
index 2ce7cca..c1f1f55 100644
--- a/src/pod/product/residuals_csv.rs
+++ b/src/pod/product/residuals_csv.rs
@@ -29,6 +29,7 @@
 
 use super::error::PodProductsError;
 use serde::{Deserialize, Serialize};
+use std::borrow::Cow;
 use std::io::Write;
 
 /// One residual record in the standard POD column format.
@@ -125,7 +126,12 @@ impl<W: Write> ResidualCsvWriter<W> {
         writeln!(
             self.writer,
             "{:.9},{},{},{:.6},{:.6},{}",
-            r.epoch_jd_tt, r.obs_type, r.satellite, r.residual_m, r.sigma_m, r.rejected,
+            r.epoch_jd_tt,
+            csv_field(&r.obs_type),
+            csv_field(&r.satellite),
+            r.residual_m,
+            r.sigma_m,
+            r.rejected,
         )?;
         self.writer.flush()?;
         Ok(())
@@ -145,6 +151,15 @@ impl<W: Write> ResidualCsvWriter<W> {
     }
 }
 
+/// Quotes a label as RFC 4180 requires, and only when it requires it.
+fn csv_field(label: &str) -> Cow<'_, str> {
+    if label.contains([',', '"', '\n', '\r']) {
+        Cow::Owned(format!("\"{}\"", label.replace('"', "\"\"")))
+    } else {
+        Cow::Borrowed(label)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 0236a0d2fbf055366689d344b816249c6cdbb0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 13/67] fix: DAF kernels with damaged links, counts or word
 ranges are errors; big-endian data is decoded

Summary records that link out of the file or into a loop, and segments whose
word range leaves the file, panicked, hung or exhausted memory. Summaries of
big-endian files were honoured while their data was read as little-endian.
---
 src/formats/spice/ck.rs      |   6 ++
 src/formats/spice/daf.rs     | 169 ++++++++++++++++++-----------------
 src/formats/spice/segment.rs |  33 +++++--
 3 files changed, 118 insertions(+), 90 deletions(-)

diff --git a/src/formats/spice/ck.rs b/src/formats/spice/ck.rs
index f2b7b22..dbc5ef2 100644
--- a/src/formats/spice/ck.rs
+++ b/src/formats/spice/ck.rs
@@ -203,6 +203,12 @@ fn read_type1_segment(
             "CK segment has an invalid word range".to_string(),
         ));
     }
+    if start_word == 0 || end_word > daf.word_count() {
+        return Err(SpiceError::FormatParse(format!(
+            "CK segment word range [{start_word}..{end_word}] is not inside the file ({} words)",
+            daf.word_count()
+        )));
+    }
     let n_records_raw = daf.read_f64_at_word(end_word);
     if !n_records_raw.is_finite() || n_records_raw < 1.0 {
         return Err(SpiceError::FormatParse(format!(
diff --git a/src/formats/spice/daf.rs b/src/formats/spice/daf.rs
index b665dd5..1c975b4 100644
--- a/src/formats/spice/daf.rs
+++ b/src/formats/spice/daf.rs
@@ -95,6 +95,7 @@ pub struct DafRaw {
     pub locator: String,
     /// All raw summaries parsed from the kernel.
     pub raw_summaries: Vec<RawSummary>,
+    little_endian: bool,
     bytes: Vec<u8>,
 }
 
@@ -116,27 +117,10 @@ impl Daf {
             )));
         }
 
-        let nd_le = read_i32_le(data, 8);
-        let ni_le = read_i32_le(data, 12);
-        let nd_be = read_i32_be(data, 8);
-        let ni_be = read_i32_be(data, 12);
-
-        let (le, nd, ni) = if nd_le > 0 && nd_le <= 100 && ni_le > 0 && ni_le <= 100 {
-            (true, nd_le as usize, ni_le as usize)
-        } else if nd_be > 0 && nd_be <= 100 && ni_be > 0 && ni_be <= 100 {
-            (false, nd_be as usize, ni_be as usize)
-        } else {
-            return Err(SpiceError::FormatParse(format!(
-                "Cannot determine DAF endianness: ND/NI LE=({},{}), BE=({},{})",
-                nd_le, ni_le, nd_be, ni_be
-            )));
-        };
-
+        let (le, nd, ni) = detect_layout(data)?;
         let read_i32 = if le { read_i32_le } else { read_i32_be };
         let read_f64 = if le { read_f64_le } else { read_f64_be };
 
-        let fward = read_i32(data, 76) as usize;
-
         if nd != 2 || ni != 6 {
             return Err(SpiceError::FormatParse(format!(
                 "Expected SPK format (ND=2, NI=6), got ND={}, NI={}",
@@ -147,29 +131,9 @@ impl Daf {
         let ss = nd + ni.div_ceil(2);
 
         let mut summaries = Vec::new();
-        let mut rec = fward;
-
-        while rec > 0 {
-            let rec_offset = (rec - 1) * 1024;
-            if rec_offset + 1024 > data.len() {
-                return Err(SpiceError::FormatParse(format!(
-                    "Summary record {} extends past EOF",
-                    rec
-                )));
-            }
-
-            let next = read_f64(data, rec_offset) as i64 as usize;
-            let _prev = read_f64(data, rec_offset + 8);
-            let nsum = read_f64(data, rec_offset + 16) as usize;
-
+        for (rec_offset, nsum) in summary_records(data, le, ss)? {
             for i in 0..nsum {
                 let off = rec_offset + 24 + i * ss * 8;
-                if off + ss * 8 > data.len() {
-                    return Err(SpiceError::FormatParse(format!(
-                        "Summary {} in record {} extends past EOF",
-                        i, rec
-                    )));
-                }
 
                 let start_et = read_f64(data, off);
                 let end_et = read_f64(data, off + 8);
@@ -193,19 +157,20 @@ impl Daf {
                     end_word,
                 });
             }
-
-            rec = next;
         }
 
         Ok(Daf { nd, ni, summaries })
     }
 
-    /// Read a f64 from the data array at a given word index (1-based).
+    /// Read a f64 from the data array at a given word index (1-based), in the
+    /// byte order of the file `data` holds.
     #[inline]
     pub fn read_f64_at_word(&self, data: &[u8], word: usize) -> f64 {
         let offset = (word - 1) * 8;
-        // DE440/DE441 kernels from NAIF are little-endian on modern systems.
-        read_f64_le(data, offset)
+        match detect_layout(data) {
+            Ok((false, _, _)) => read_f64_be(data, offset),
+            _ => read_f64_le(data, offset),
+        }
     }
 }
 
@@ -227,48 +192,15 @@ impl DafRaw {
             )));
         }
 
-        let nd_le = read_i32_le(&data, 8);
-        let ni_le = read_i32_le(&data, 12);
-        let nd_be = read_i32_be(&data, 8);
-        let ni_be = read_i32_be(&data, 12);
-
-        let (le, nd, ni) = if nd_le > 0 && nd_le <= 100 && ni_le > 0 && ni_le <= 100 {
-            (true, nd_le as usize, ni_le as usize)
-        } else if nd_be > 0 && nd_be <= 100 && ni_be > 0 && ni_be <= 100 {
-            (false, nd_be as usize, ni_be as usize)
-        } else {
-            return Err(SpiceError::FormatParse(format!(
-                "Cannot determine DAF endianness: ND/NI LE=({},{}), BE=({},{})",
-                nd_le, ni_le, nd_be, ni_be
-            )));
-        };
-
+        let (le, nd, ni) = detect_layout(&data)?;
         let read_i32 = if le { read_i32_le } else { read_i32_be };
         let read_f64 = if le { read_f64_le } else { read_f64_be };
-        let fward = read_i32(&data, 76) as usize;
         let ss = nd + ni.div_ceil(2);
 
         let mut raw_summaries = Vec::new();
-        let mut rec = fward;
-        while rec > 0 {
-            let rec_offset = (rec - 1) * 1024;
-            if rec_offset + 1024 > data.len() {
-                return Err(SpiceError::FormatParse(format!(
-                    "Summary record {} extends past EOF",
-                    rec
-                )));
-            }
-
-            let next = read_f64(&data, rec_offset) as i64 as usize;
-            let nsum = read_f64(&data, rec_offset + 16) as usize;
+        for (rec_offset, nsum) in summary_records(&data, le, ss)? {
             for i in 0..nsum {
                 let off = rec_offset + 24 + i * ss * 8;
-                if off + ss * 8 > data.len() {
-                    return Err(SpiceError::FormatParse(format!(
-                        "Summary {} in record {} extends past EOF",
-                        i, rec
-                    )));
-                }
 
                 let mut doubles = Vec::with_capacity(nd);
                 for j in 0..nd {
@@ -281,7 +213,6 @@ impl DafRaw {
                 }
                 raw_summaries.push(RawSummary { doubles, integers });
             }
-            rec = next;
         }
 
         Ok(Self {
@@ -289,15 +220,25 @@ impl DafRaw {
             ni,
             locator,
             raw_summaries,
+            little_endian: le,
             bytes: data,
         })
     }
 
-    /// Read an `f64` at a 1-based word index (little-endian).
+    /// Read an `f64` at a 1-based word index, in the file's byte order.
     #[inline]
     pub fn read_f64_at_word(&self, word: usize) -> f64 {
         let offset = (word - 1) * 8;
-        read_f64_le(&self.bytes, offset)
+        if self.little_endian {
+            read_f64_le(&self.bytes, offset)
+        } else {
+            read_f64_be(&self.bytes, offset)
+        }
+    }
+
+    /// Number of whole words in the file.
+    pub(crate) fn word_count(&self) -> usize {
+        self.bytes.len() / 8
     }
 
     /// Borrow the raw kernel bytes.
@@ -306,6 +247,70 @@ impl DafRaw {
     }
 }
 
+/// Byte order and summary dimensions of a DAF, from the ND/NI words of its file
+/// record: `(little_endian, nd, ni)`.
+#[inline]
+fn detect_layout(data: &[u8]) -> Result<(bool, usize, usize), SpiceError> {
+    if data.len() < 16 {
+        return Err(SpiceError::FormatParse(
+            "DAF file record is incomplete".to_string(),
+        ));
+    }
+    let nd_le = read_i32_le(data, 8);
+    let ni_le = read_i32_le(data, 12);
+    let nd_be = read_i32_be(data, 8);
+    let ni_be = read_i32_be(data, 12);
+
+    // The last two integers of every summary are its word addresses.
+    if nd_le > 0 && nd_le <= 100 && (2..=100).contains(&ni_le) {
+        Ok((true, nd_le as usize, ni_le as usize))
+    } else if nd_be > 0 && nd_be <= 100 && (2..=100).contains(&ni_be) {
+        Ok((false, nd_be as usize, ni_be as usize))
+    } else {
+        Err(SpiceError::FormatParse(format!(
+            "Cannot determine DAF endianness: ND/NI LE=({},{}), BE=({},{})",
+            nd_le, ni_le, nd_be, ni_be
+        )))
+    }
+}
+
+/// Walk the linked list of summary records, each 1024 bytes long.
+///
+/// Returns the byte offset and the number of summaries of every record. Links
+/// outside the file, links that form a loop and counts that a record cannot
+/// hold are errors.
+fn summary_records(data: &[u8], le: bool, ss: usize) -> Result<Vec<(usize, usize)>, SpiceError> {
+    let read_i32 = if le { read_i32_le } else { read_i32_be };
+    let read_f64 = if le { read_f64_le } else { read_f64_be };
+    let n_file_records = data.len() / 1024;
+    let capacity = (1024 - 24) / (ss * 8);
+
+    let mut records = Vec::new();
+    let mut rec = f64::from(read_i32(data, 76));
+    while rec != 0.0 {
+        if !(rec >= 1.0 && rec <= n_file_records as f64) {
+            return Err(SpiceError::FormatParse(format!(
+                "Summary record {rec} extends past EOF"
+            )));
+        }
+        if records.len() >= n_file_records {
+            return Err(SpiceError::FormatParse(
+                "DAF summary records form a loop".to_string(),
+            ));
+        }
+        let rec_offset = (rec as usize - 1) * 1024;
+        let nsum = read_f64(data, rec_offset + 16);
+        if !(nsum >= 0.0 && nsum <= capacity as f64) {
+            return Err(SpiceError::FormatParse(format!(
+                "Summary record {rec} claims {nsum} summaries (at most {capacity} fit)"
+            )));
+        }
+        records.push((rec_offset, nsum as usize));
+        rec = read_f64(data, rec_offset);
+    }
+    Ok(records)
+}
+
 #[inline]
 fn read_i32_le(data: &[u8], offset: usize) -> i32 {
     i32::from_le_bytes(data[offset..offset + 4].try_into().unwrap())
diff --git a/src/formats/spice/segment.rs b/src/formats/spice/segment.rs
index 0a2fb55..4fdf801 100644
--- a/src/formats/spice/segment.rs
+++ b/src/formats/spice/segment.rs
@@ -413,6 +413,7 @@ fn read_chebyshev(
             message: format!("segment trailer at end_word={end} is too small"),
         });
     }
+    ensure_words_in_file(file_data, summary)?;
     let n_records = daf.read_f64_at_word(file_data, end) as usize;
     let rsize = daf.read_f64_at_word(file_data, end - 1) as usize;
     let intlen = daf.read_f64_at_word(file_data, end - 2);
@@ -452,7 +453,8 @@ fn read_chebyshev(
             message: format!("segment record count overflow: n_records={n_records} rsize={rsize}"),
         })?;
     let data_start_word = summary.start_word;
-    if data_start_word + total - 1 > summary.end_word {
+    // The last four words of the segment are its trailer.
+    if data_start_word + total - 1 > summary.end_word - 4 {
         return Err(SpiceError::Parse {
             message: format!(
                 "segment data window [{}..{}] does not fit in summary [{}..{}]",
@@ -480,6 +482,20 @@ fn read_chebyshev(
     })
 }
 
+/// Reject summaries whose word range is not inside the file.
+fn ensure_words_in_file(file_data: &[u8], summary: &Summary) -> Result<(), SpiceError> {
+    let max = file_data.len() / 8;
+    if summary.start_word == 0 || summary.end_word < summary.start_word || summary.end_word > max {
+        return Err(SpiceError::Parse {
+            message: format!(
+                "SPK segment word range [{}..{}] is not inside the file ({max} words)",
+                summary.start_word, summary.end_word
+            ),
+        });
+    }
+    Ok(())
+}
+
 fn read_discrete_states(
     file_data: &[u8],
     daf: &Daf,
@@ -501,6 +517,7 @@ fn read_discrete_states(
             message: format!("SPK Type {data_type} segment too short: {n_words} words"),
         });
     }
+    ensure_words_in_file(file_data, summary)?;
     let mut words = Vec::with_capacity(n_words);
     for i in 0..n_words {
         words.push(daf.read_f64_at_word(file_data, summary.start_word + i));
@@ -526,12 +543,12 @@ fn read_discrete_states(
         message: format!("SPK Type {data_type} state count overflow: {n_records}"),
     })?;
     let epoch_start = state_len;
-    let epoch_end = epoch_start + n_records;
-    if epoch_end + 2 > words.len() {
-        return Err(SpiceError::Parse {
+    let epoch_end = epoch_start
+        .checked_add(n_records)
+        .filter(|end| *end <= words.len() - 2)
+        .ok_or_else(|| SpiceError::Parse {
             message: format!("SPK Type {data_type} payload too short for {n_records} records"),
-        });
-    }
+        })?;
     let states = words[..state_len].to_vec();
     let epochs = words[epoch_start..epoch_end].to_vec();
     let epoch_directory = words[epoch_end..words.len() - 2].to_vec();
@@ -554,7 +571,7 @@ fn read_discrete_states(
     let interpolation_size = match data_type {
         9 => {
             let degree = descriptor;
-            if degree == 0 || degree + 1 > n_records || degree > 31 {
+            if degree == 0 || degree > 31 || degree + 1 > n_records {
                 return Err(SpiceError::Parse {
                     message: format!(
                         "SPK Type 9 invalid Lagrange degree {degree} for {n_records} records"
@@ -564,7 +581,7 @@ fn read_discrete_states(
             degree
         }
         13 => {
-            let samples = descriptor + 1;
+            let samples = descriptor.saturating_add(1);
             if samples < 2 || samples > n_records || samples > 16 {
                 return Err(SpiceError::Parse {
                     message: format!(
-- 
2.43.0


From 86570def45e2cae4ec22796f740721b739204406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 14/67] fix: LSK offsets step at the leap second in TDB,
 impossible dates are rejected

---
 src/formats/spice/lsk.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/formats/spice/lsk.rs b/src/formats/spice/lsk.rs
index 094ffb7..a33167e 100644
--- a/src/formats/spice/lsk.rs
+++ b/src/formats/spice/lsk.rs
@@ -62,8 +62,10 @@ impl LeapSecondKernel {
         let mut leap_table = Vec::with_capacity(delta_at.len() / 2);
         for pair in delta_at.chunks(2) {
             let delta = scalar_as_f64(&pair[0], "DELTET/DELTA_AT delta")?;
+            // The kernel lists UTC dates; the step happens when TDB has run
+            // ahead of that date by the new offset.
             let epoch = epoch_as_j2000_seconds(&pair[1])?;
-            leap_table.push((epoch, delta));
+            leap_table.push((epoch + delta_t_a + delta, delta));
         }
         leap_table.sort_by(|left, right| left.0.total_cmp(&right.0));
 
@@ -139,6 +141,18 @@ fn parse_epoch_text(text: &str) -> Result<f64, SpiceError> {
         .parse::<i32>()
         .map_err(|_| SpiceError::FormatParse(format!("bad LSK day in '{trimmed}'")))?;
 
+    let leap = year % 4 == 0 && (year % 100 != 0 || year % 400 == 0);
+    let days_in_month = match month {
+        2 => 28 + i32::from(leap),
+        4 | 6 | 9 | 11 => 30,
+        _ => 31,
+    };
+    if !(1..=9999).contains(&year) || !(1..=days_in_month).contains(&day) {
+        return Err(SpiceError::FormatParse(format!(
+            "impossible LSK date '{trimmed}'"
+        )));
+    }
+
     let jd = gregorian_to_jd(year, month, day);
     Ok((jd - 2_451_545.0) * 86_400.0)
 }
-- 
2.43.0


From 414f0a941200ad2172831f0ced18e22eae3620d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 15/67] fix: TKFRAME matrices are column-major, non-integral
 frame codes are errors

---
 src/formats/spice/fk.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/formats/spice/fk.rs b/src/formats/spice/fk.rs
index 560757a..83976f7 100644
--- a/src/formats/spice/fk.rs
+++ b/src/formats/spice/fk.rs
@@ -137,11 +137,12 @@ impl FrameKernel {
                             &relative_key,
                         )?
                         .to_ascii_uppercase();
+                        // TKFRAME matrices are listed column by column.
                         Some((
                             TkSpec::Matrix([
-                                [values[0], values[1], values[2]],
-                                [values[3], values[4], values[5]],
-                                [values[6], values[7], values[8]],
+                                [values[0], values[3], values[6]],
+                                [values[1], values[4], values[7]],
+                                [values[2], values[5], values[8]],
                             ]),
                             relative,
                         ))
@@ -200,7 +201,7 @@ fn int_value(value: &TextValue, key: &str) -> Result<i32, SpiceError> {
         TextValue::Integer(number) => i32::try_from(*number).map_err(|_| {
             SpiceError::FormatParse(format!("{key} integer {number} does not fit in i32"))
         }),
-        TextValue::Float(number) => Ok(*number as i32),
+        TextValue::Float(number) if *number == f64::from(*number as i32) => Ok(*number as i32),
         other => Err(SpiceError::FormatParse(format!(
             "{key} must be numeric, got {other:?}"
         ))),
-- 
2.43.0


From 029201d9983e9b31c2691076eb298f76585abce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 16/67] fix: PCK body-fixed to J2000 rotation used the wrong
 sense, text kernels load completely or not at all

Rotation angles of the pole were applied with the sign of the opposite
direction. A text kernel whose later part failed to parse left its earlier
parts loaded; mutually relative TK frames recursed without end; a kernel
carrying only radii hid (or crashed) the orientation of an earlier one.
---
 src/formats/spice/pck.rs | 10 +++++++--
 src/spice/context.rs     | 48 +++++++++++++++++++++++++---------------
 2 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/formats/spice/pck.rs b/src/formats/spice/pck.rs
index 42d20c8..325b221 100644
--- a/src/formats/spice/pck.rs
+++ b/src/formats/spice/pck.rs
@@ -51,14 +51,20 @@ impl BodyOrientation {
         let dec = dec_deg.to_radians();
         let w = w_deg.to_radians();
 
+        // Inverse of the J2000-to-body rotation R3(W) R1(90° - dec) R3(90° + ra).
         mat3_mul(
             mat3_mul(
-                r3(std::f64::consts::FRAC_PI_2 + ra),
-                r1(std::f64::consts::FRAC_PI_2 - dec),
+                r3(-(std::f64::consts::FRAC_PI_2 + ra)),
+                r1(-(std::f64::consts::FRAC_PI_2 - dec)),
             ),
             r3(-w),
         )
     }
+
+    /// Whether pole and prime-meridian constants are all present.
+    pub(crate) fn has_orientation(&self) -> bool {
+        !(self.pole_ra.is_empty() || self.pole_dec.is_empty() || self.pm.is_empty())
+    }
 }
 
 /// Parsed PCK text kernel containing body-orientation constants.
diff --git a/src/spice/context.rs b/src/spice/context.rs
index 0dd4e1f..91ed619 100644
--- a/src/spice/context.rs
+++ b/src/spice/context.rs
@@ -120,26 +120,31 @@ impl SpiceContext {
             .keys()
             .any(|key| key.starts_with("INS") && key.contains("_FOV"));
 
-        if has_lsk {
-            self.kernel_set
-                .set_lsk(alias.clone(), LeapSecondKernel::from_text(text)?);
+        // Parse every part before loading any, so that a kernel is loaded
+        // completely or not at all.
+        let lsk = has_lsk
+            .then(|| LeapSecondKernel::from_text(text))
+            .transpose()?;
+        let fk = has_fk.then(|| FrameKernel::from_text(text)).transpose()?;
+        let pck = has_pck.then(|| PckKernel::from_text(text)).transpose()?;
+        let sclks = has_sclk.then(|| SclkKernel::from_text(text)).transpose()?;
+        let ik = has_ik.then(|| IkKernel::from_text(text)).transpose()?;
+
+        if let Some(lsk) = lsk {
+            self.kernel_set.set_lsk(alias.clone(), lsk);
         }
-        if has_fk {
-            let fk = FrameKernel::from_text(text)?;
+        if let Some(fk) = fk {
             self.frame_registry.add_fk(&fk);
             self.kernel_set.add_fk(alias.clone(), fk);
         }
-        if has_pck {
-            self.kernel_set
-                .add_pck_text(alias.clone(), PckKernel::from_text(text)?);
+        if let Some(pck) = pck {
+            self.kernel_set.add_pck_text(alias.clone(), pck);
         }
-        if has_sclk {
-            for sclk in SclkKernel::from_text(text)? {
-                self.kernel_set.add_sclk(alias.clone(), sclk);
-            }
+        for sclk in sclks.into_iter().flatten() {
+            self.kernel_set.add_sclk(alias.clone(), sclk);
         }
-        if has_ik {
-            self.kernel_set.add_ik(alias, IkKernel::from_text(text)?);
+        if let Some(ik) = ik {
+            self.kernel_set.add_ik(alias, ik);
         }
         Ok(())
     }
@@ -164,8 +169,8 @@ impl SpiceContext {
         if from_id == to_id {
             return Ok(identity_3x3());
         }
-        let from_to_j2000 = self.frame_to_j2000(from_id, epoch_tdb_s)?;
-        let to_to_j2000 = self.frame_to_j2000(to_id, epoch_tdb_s)?;
+        let from_to_j2000 = self.frame_to_j2000(from_id, epoch_tdb_s, &mut Vec::new())?;
+        let to_to_j2000 = self.frame_to_j2000(to_id, epoch_tdb_s, &mut Vec::new())?;
         Ok(mat3_mul(mat3_transpose(to_to_j2000), from_to_j2000))
     }
 
@@ -231,10 +236,17 @@ impl SpiceContext {
         &self,
         frame_id: i32,
         epoch_tdb_s: f64,
+        visited: &mut Vec<i32>,
     ) -> Result<[[f64; 3]; 3], SpiceContextError> {
         if frame_id == 1 {
             return Ok(identity_3x3());
         }
+        if visited.contains(&frame_id) {
+            return Err(SpiceContextError::Kernel(SpiceError::FormatParse(format!(
+                "TK frame {frame_id} is defined relative to itself"
+            ))));
+        }
+        visited.push(frame_id);
 
         let spec = self
             .frame_registry
@@ -246,7 +258,7 @@ impl SpiceContext {
                 .frame_registry
                 .frame_by_name(relative_name)
                 .map_err(spice_error_to_context)?;
-            let relative_to_j2000 = self.frame_to_j2000(relative.id, epoch_tdb_s)?;
+            let relative_to_j2000 = self.frame_to_j2000(relative.id, epoch_tdb_s, visited)?;
             return Ok(mat3_mul(relative_to_j2000, *matrix));
         }
 
@@ -272,7 +284,7 @@ impl SpiceContext {
         epoch_tdb_s: f64,
     ) -> Result<[[f64; 3]; 3], SpiceContextError> {
         for pck in self.kernel_set.pck_text_kernels().rev() {
-            if let Some(orientation) = pck.body(body_id) {
+            if let Some(orientation) = pck.body(body_id).filter(|b| b.has_orientation()) {
                 return Ok(orientation.rotation_to_j2000(epoch_tdb_s));
             }
         }
-- 
2.43.0


From e65fc1b94bb0a92351a5165edc101e80150bd4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 17/67] fix: text kernels accept D exponents and keep += inside
 strings

---
 src/formats/spice/text.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/formats/spice/text.rs b/src/formats/spice/text.rs
index 42ad81f..c9c7e37 100644
--- a/src/formats/spice/text.rs
+++ b/src/formats/spice/text.rs
@@ -168,10 +168,12 @@ fn statement_complete(statement: &str) -> bool {
 }
 
 fn parse_assignment(statement: &str) -> Result<(String, bool, TextValue), SpiceError> {
-    let (key, value, append) = if let Some(idx) = statement.find("+=") {
-        (&statement[..idx], &statement[idx + 2..], true)
-    } else if let Some(idx) = statement.find('=') {
-        (&statement[..idx], &statement[idx + 1..], false)
+    let (key, value, append) = if let Some(idx) = statement.find('=') {
+        let (key, value) = (&statement[..idx], &statement[idx + 1..]);
+        match key.strip_suffix('+') {
+            Some(key) => (key, value, true),
+            None => (key, value, false),
+        }
     } else {
         return Err(SpiceError::FormatParse(format!(
             "text kernel assignment missing '=': {statement}"
@@ -378,7 +380,13 @@ fn parse_scalar(token: &str) -> TextValue {
     if let Ok(value) = token.parse::<i64>() {
         return TextValue::Integer(value);
     }
-    if let Ok(value) = token.parse::<f64>() {
+    // Kernels written by Fortran programs use `D` exponents.
+    let number = if token.starts_with(|c: char| c.is_ascii_digit() || "+-.".contains(c)) {
+        token.replace(['D', 'd'], "E")
+    } else {
+        token.to_string()
+    };
+    if let Some(value) = number.parse::<f64>().ok().filter(|v| v.is_finite()) {
         return TextValue::Float(value);
     }
     TextValue::Text(token.to_string())
-- 
2.43.0


From 8407d845c604d9d3536b1fcb53181be60ed566d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 18/67] fix: later SPK segments take precedence within a kernel
 and in barycenter queries

---
 src/formats/spice/kernel.rs     |  5 +++--
 src/formats/spice/spk_kernel.rs | 23 +++++++++++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/formats/spice/kernel.rs b/src/formats/spice/kernel.rs
index f969d90..deb9f2e 100644
--- a/src/formats/spice/kernel.rs
+++ b/src/formats/spice/kernel.rs
@@ -245,8 +245,9 @@ impl SpkKernel {
                 break;
             }
             // Outgoing forward edges (segments where node is the target).
+            // Later segments supersede earlier ones, as in CSPICE.
             if let Some(idxs) = self.by_target.get(&node) {
-                for &i in idxs {
+                for &i in idxs.iter().rev() {
                     let s = &self.segments[i];
                     if epoch < s.start_tdb_seconds || epoch > s.end_tdb_seconds {
                         continue;
@@ -258,7 +259,7 @@ impl SpkKernel {
                 }
             }
             // Reverse edges (segments where node is the center).
-            for (i, s) in self.segments.iter().enumerate() {
+            for (i, s) in self.segments.iter().enumerate().rev() {
                 if s.center != node {
                     continue;
                 }
diff --git a/src/formats/spice/spk_kernel.rs b/src/formats/spice/spk_kernel.rs
index 50bd0ec..c641c56 100644
--- a/src/formats/spice/spk_kernel.rs
+++ b/src/formats/spice/spk_kernel.rs
@@ -202,8 +202,18 @@ impl SpkKernelSet {
         jd: JulianDate,
     ) -> Result<IcrfKm, SpkKernelError> {
         let et = jd_tt_to_spice_et_seconds(jd);
-        let target =
-            self.try_edge_position_et(planet.naif_id(PlanetPoint::SystemBarycenter), SSB_ID, et)?;
+        let target_id = planet.naif_id(PlanetPoint::SystemBarycenter);
+        // A preferred segment that hangs from another center needs the general
+        // target-center chain.
+        for (id, center_id) in [(target_id, SSB_ID), (EMB_ID, SSB_ID), (EARTH_ID, EMB_ID)] {
+            if self
+                .preferred_center(id, et)
+                .is_some_and(|c| c != center_id)
+            {
+                return Err(SpkKernelError::MissingSegment { target_id: id });
+            }
+        }
+        let target = self.try_edge_position_et(target_id, SSB_ID, et)?;
         let emb = self.try_edge_position_et(EMB_ID, SSB_ID, et)?;
         let earth = match self.try_edge_position_et(EARTH_ID, EMB_ID, et) {
             Ok(earth_off) => emb + earth_off,
@@ -215,6 +225,15 @@ impl SpkKernelSet {
         Ok(target - earth)
     }
 
+    /// Center of the latest loaded segment that covers `target_id` at `et`.
+    fn preferred_center(&self, target_id: i32, et: f64) -> Option<i32> {
+        self.segments
+            .iter()
+            .rev()
+            .find(|segment| segment.target_id == target_id && segment.covers_et(et))
+            .map(|segment| segment.center_id)
+    }
+
     fn try_position_from_ssb(
         &self,
         target_id: i32,
-- 
2.43.0


From 3d6d27254f08d8e1d4d33ff38e22b58fb1fe102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 19/67] fix: planets seen from the Earth use longer SPK chains
 when the direct edges do not cover

---
 src/formats/spice/spk_kernel.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/formats/spice/spk_kernel.rs b/src/formats/spice/spk_kernel.rs
index c641c56..916e91a 100644
--- a/src/formats/spice/spk_kernel.rs
+++ b/src/formats/spice/spk_kernel.rs
@@ -187,10 +187,10 @@ impl SpkKernelSet {
         jd: JulianDate,
     ) -> Result<IcrfKm, SpkKernelError> {
         if let PlanetPoint::SystemBarycenter = point {
-            match self.try_major_planet_barycenter_geocentric_fast(planet, jd) {
-                Ok(state) => return Ok(state),
-                Err(SpkKernelError::MissingSegment { .. }) => {}
-                Err(err) => return Err(err),
+            // The direct edges are a shortcut; a longer chain may still resolve
+            // the state where they do not.
+            if let Ok(state) = self.try_major_planet_barycenter_geocentric_fast(planet, jd) {
+                return Ok(state);
             }
         }
         self.try_geometric_state(planet.naif_id(point), EARTH_ID, jd)
-- 
2.43.0


From 0420a4d76eecf28a4de9e4c2d3315372cd77ec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 20/67] fix: CPR positions near the poles, the antimeridian and
 87 degrees

NL is 2 at exactly 87 degrees, an odd frame with NL = 1 uses one longitude
zone instead of dividing by zero, latitudes beyond a pole are errors, and
locally decoded longitudes wrap below -180 degrees.
---
 src/formats/adsb/cpr.rs | 42 +++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/formats/adsb/cpr.rs b/src/formats/adsb/cpr.rs
index 0b051bf..2eb94b7 100644
--- a/src/formats/adsb/cpr.rs
+++ b/src/formats/adsb/cpr.rs
@@ -42,8 +42,10 @@ fn dlat(odd: bool) -> f64 {
 ///
 /// Based on DO-260B eq. 2-15 / Sun 2021 eq. 4.13.
 fn nl(lat: f64) -> f64 {
-    if lat.abs() >= 87.0 {
-        return 1.0;
+    let lat = lat.abs();
+    if lat >= 87.0 {
+        // DO-260B: two zones up to and including 87°, one zone beyond.
+        return if lat > 87.0 { 1.0 } else { 2.0 };
     }
     let cos_lat = lat.to_radians().cos();
     let numer = 1.0 - (std::f64::consts::PI / (2.0 * NZ)).cos();
@@ -53,6 +55,18 @@ fn nl(lat: f64) -> f64 {
     n.clamp(1.0, 59.0)
 }
 
+/// Latitudes beyond a pole only come from fields that do not belong together.
+fn checked_latitude(lat: f64) -> Result<f64, FormatError> {
+    if lat.abs() > 90.0 + 1e-9 {
+        return Err(FormatError::located(
+            "ADS-B DO-260B §2.2.3.2.6",
+            FileLocation::default(),
+            format!("CPR fields decode to an impossible latitude {lat}"),
+        ));
+    }
+    Ok(lat.clamp(-90.0, 90.0))
+}
+
 /// Decode a globally-unambiguous geodetic position from an even and odd
 /// CPR frame pair.
 ///
@@ -72,7 +86,8 @@ fn nl(lat: f64) -> f64 {
 /// # Errors
 ///
 /// [`FormatError`] when the even/odd pair is inconsistent (NL mismatch —
-/// meaning the pair is too old and straddles a latitude zone boundary).
+/// meaning the pair is too old and straddles a latitude zone boundary) or
+/// decodes to a latitude beyond a pole.
 ///
 /// # Examples
 ///
@@ -102,6 +117,8 @@ pub fn decode_globally(
     let lat_e = if lat_e >= 270.0 { lat_e - 360.0 } else { lat_e };
     let lat_o = if lat_o >= 270.0 { lat_o - 360.0 } else { lat_o };
 
+    let lat_e = checked_latitude(lat_e)?;
+    let lat_o = checked_latitude(lat_o)?;
     // NL check: both frames must be in the same latitude band
     if (nl(lat_e) - nl(lat_o)).abs() > 0.5 {
         return Err(FormatError::located(
@@ -115,15 +132,13 @@ pub fn decode_globally(
     let nl_lat = nl(lat);
 
     let (lon, lon_ref) = if odd_is_latest {
-        let dlon = if nl_lat <= 1.0 {
-            360.0
-        } else {
-            360.0 / (nl_lat - 1.0)
-        };
+        // Odd frames use one zone less, but never none.
+        let n_lon = (nl_lat - 1.0).max(1.0);
+        let dlon = 360.0 / n_lon;
         let m = (lon0 as f64 * (nl_lat - 1.0) / 131_072.0 - lon1 as f64 * nl_lat / 131_072.0 + 0.5)
             .floor();
         (
-            dlon * (m.rem_euclid(nl_lat - 1.0) + lon1 as f64 / 131_072.0),
+            dlon * (m.rem_euclid(n_lon) + lon1 as f64 / 131_072.0),
             lat_o,
         )
     } else {
@@ -179,6 +194,7 @@ pub fn decode_locally(
     let lat = d_lat * (j + cpr_lat as f64 / 131_072.0);
     let lat = if lat >= 270.0 { lat - 360.0 } else { lat };
 
+    let lat = checked_latitude(lat)?;
     let nl_val = nl(lat);
     let n_lon = if odd {
         (nl_val - 1.0).max(1.0)
@@ -188,7 +204,13 @@ pub fn decode_locally(
     let d_lon = 360.0 / n_lon;
     let m = (ref_lon / d_lon - cpr_lon as f64 / 131_072.0 + 0.5).floor();
     let lon = d_lon * (m + cpr_lon as f64 / 131_072.0);
-    let lon = if lon >= 180.0 { lon - 360.0 } else { lon };
+    let lon = if lon >= 180.0 {
+        lon - 360.0
+    } else if lon < -180.0 {
+        lon + 360.0
+    } else {
+        lon
+    };
 
     Ok((Degrees::new(lat), Degrees::new(lon)))
 }
-- 
2.43.0


From bae6fe1496ba5b6d8cc2ae4f67facb24e37214ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 21/67] fix: ADS-B velocity fields of zero carry no information

A zero E/W, N/S or vertical-rate field means 'not available' and was decoded
as one unit in the opposite direction.
---
 src/formats/adsb/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/formats/adsb/mod.rs b/src/formats/adsb/mod.rs
index f60d019..017dc9a 100644
--- a/src/formats/adsb/mod.rs
+++ b/src/formats/adsb/mod.rs
@@ -384,9 +384,13 @@ pub fn decode_airborne_velocity(frame: &AdsbFrame) -> Result<AirborneVelocityMes
     // Sub-types 1 and 2: ground-speed-based velocity
     if sub_type == 1 || sub_type == 2 {
         let sign_ew: f64 = if (me[1] & 0x04) != 0 { -1.0 } else { 1.0 };
-        let v_ew = (((me[1] as u16 & 0x03) << 8) | me[2] as u16) as f64 - 1.0;
+        // A velocity field of 0 means "no information"; n means n - 1 units.
+        let ew_field = ((me[1] as u16 & 0x03) << 8) | me[2] as u16;
+        let v_ew = ew_field as f64 - 1.0;
         let sign_ns: f64 = if (me[3] & 0x80) != 0 { -1.0 } else { 1.0 };
-        let v_ns = (((me[3] as u16 & 0x7F) << 3) | (me[4] >> 5) as u16) as f64 - 1.0;
+        let ns_field = ((me[3] as u16 & 0x7F) << 3) | (me[4] >> 5) as u16;
+        let v_ns = ns_field as f64 - 1.0;
+        let has_ground_velocity = ew_field != 0 && ns_field != 0;
 
         // Convert knots → m/s (1 knot = 0.514444 m/s)
         let scale: f64 = if sub_type == 2 { 4.0 } else { 1.0 };
@@ -394,7 +398,7 @@ pub fn decode_airborne_velocity(frame: &AdsbFrame) -> Result<AirborneVelocityMes
         let vns_mps = sign_ns * v_ns * scale * 0.514_444;
 
         let gs = (vew_mps * vew_mps + vns_mps * vns_mps).sqrt();
-        let heading = if v_ew == 0.0 && v_ns == 0.0 {
+        let heading = if !has_ground_velocity || (v_ew == 0.0 && v_ns == 0.0) {
             None
         } else {
             let track_deg = vew_mps.atan2(vns_mps).to_degrees().rem_euclid(360.0);
@@ -403,14 +407,15 @@ pub fn decode_airborne_velocity(frame: &AdsbFrame) -> Result<AirborneVelocityMes
 
         // Vertical rate: bits 30–38 of ME
         let vr_sign: f64 = if (me[4] & 0x08) != 0 { -1.0 } else { 1.0 };
-        let vr_raw = (((me[4] as u16 & 0x07) << 6) | (me[5] >> 2) as u16) as f64 - 1.0;
+        let vr_field = ((me[4] as u16 & 0x07) << 6) | (me[5] >> 2) as u16;
+        let vr_raw = vr_field as f64 - 1.0;
         let vr_fpm = vr_sign * vr_raw * 64.0; // feet per minute
         let vr_mps = vr_fpm * 0.00508; // fpm → m/s
 
         return Ok(AirborneVelocityMessage {
             heading,
-            ground_speed_mps: Some(MetersPerSecond::new(gs)),
-            vertical_rate_mps: Some(MetersPerSecond::new(vr_mps)),
+            ground_speed_mps: has_ground_velocity.then(|| MetersPerSecond::new(gs)),
+            vertical_rate_mps: (vr_field != 0).then(|| MetersPerSecond::new(vr_mps)),
         });
     }
     Err(FormatError::located(
-- 
2.43.0


From 0f7d6abafa06875e80b2634e223a7b3b69a52dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 22/67] fix: TLE parser panicked on non-ASCII lines and wrapped
 or rescaled malformed fields

Lines are read by column, so they have to be ASCII. Negative element-set and
revolution numbers or years are errors instead of wrapping, non-finite fields
are errors, and leading blanks in assumed-decimal fields are zeros instead of
shifting the decimal point.
---
 src/formats/tle/parse.rs | 70 ++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/src/formats/tle/parse.rs b/src/formats/tle/parse.rs
index 676d2a1..6b29cdd 100644
--- a/src/formats/tle/parse.rs
+++ b/src/formats/tle/parse.rs
@@ -32,12 +32,7 @@ pub fn validate_tle_checksum(line: &str) -> Result<(), TleError> {
     } else {
         0u8
     };
-    if line.len() != 69 {
-        return Err(TleError::BadLength {
-            line: line_no,
-            got: line.len(),
-        });
-    }
+    check_length(line, line_no)?;
     let bytes = line.as_bytes();
     let stated_byte = bytes[68];
     if !stated_byte.is_ascii_digit() {
@@ -126,19 +121,23 @@ pub fn parse_3le(name: &str, line1: &str, line2: &str) -> Result<TLE, TleError>
     parse_tle_inner(owned, line1, line2)
 }
 
-fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE, TleError> {
-    if line1.len() != 69 {
-        return Err(TleError::BadLength {
-            line: 1,
-            got: line1.len(),
-        });
-    }
-    if line2.len() != 69 {
-        return Err(TleError::BadLength {
-            line: 2,
-            got: line2.len(),
-        });
+/// A TLE line is exactly 69 ASCII characters; anything else cannot be read by
+/// column.
+fn check_length(line: &str, line_no: u8) -> Result<(), TleError> {
+    if line.len() == 69 && line.is_ascii() {
+        return Ok(());
     }
+    let got = if line.len() == 69 {
+        line.chars().count()
+    } else {
+        line.len()
+    };
+    Err(TleError::BadLength { line: line_no, got })
+}
+
+fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE, TleError> {
+    check_length(line1, 1)?;
+    check_length(line2, 2)?;
     let l1b = line1.as_bytes();
     let l2b = line2.as_bytes();
     if l1b[0] as char != '1' {
@@ -161,13 +160,13 @@ fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE
     let norad_l1 = SatelliteNumber::parse(&line1[2..7])?;
     let classification = Classification::from_char(line1.as_bytes()[7] as char)?;
     let intl_des = InternationalDesignator(line1[9..17].trim().to_string());
-    let epoch_year_2 = parse_int_field(&line1[18..20], "epoch_year")?;
+    let epoch_year_2 = parse_int_field::<u8>(&line1[18..20], "epoch_year")?;
     let epoch_day = parse_float_field(&line1[20..32], "epoch_day")?;
     let mean_motion_dot = parse_signed_decimal(&line1[33..43], "mean_motion_dot")?;
     let mean_motion_ddot = parse_assumed_decimal_exponent(&line1[44..52], "mean_motion_ddot")?;
     let bstar = parse_assumed_decimal_exponent(&line1[53..61], "bstar")?;
     let element_set_number =
-        parse_int_field(line1[64..68].trim_start(), "element_set_number")? as u16;
+        parse_int_field::<u16>(line1[64..68].trim_start(), "element_set_number")?;
 
     let norad_l2 = SatelliteNumber::parse(&line2[2..7])?;
     if norad_l1 != norad_l2 {
@@ -179,7 +178,9 @@ fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE
     let inclination = Degrees::new(parse_float_field(&line2[8..16], "inclination")?);
     let raan = Degrees::new(parse_float_field(&line2[17..25], "raan")?);
     let eccentricity = {
-        let raw = line2[26..33].trim();
+        // The decimal point precedes column 27: leading blanks are zeros.
+        let field = line2[26..33].trim_end();
+        let raw = field.trim_start();
         if raw.is_empty() || !raw.chars().all(|c| c.is_ascii_digit()) {
             return Err(TleError::InvalidNumber {
                 field: "eccentricity",
@@ -190,14 +191,14 @@ fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE
             field: "eccentricity",
             raw: raw.into(),
         })?;
-        scaled as f64 * 10f64.powi(-(raw.len() as i32))
+        scaled as f64 * 10f64.powi(-(field.len() as i32))
     };
     let argp = Degrees::new(parse_float_field(&line2[34..42], "argument_of_perigee")?);
     let mean_anomaly = Degrees::new(parse_float_field(&line2[43..51], "mean_anomaly")?);
     let mean_motion_revs_per_day = parse_float_field(&line2[52..63], "mean_motion")?;
     let mean_motion = AngularRate::<Turn, Day>::new(mean_motion_revs_per_day);
     let revolution_number_at_epoch =
-        parse_int_field(line2[63..68].trim_start(), "revolution_number")? as u32;
+        parse_int_field::<u32>(line2[63..68].trim_start(), "revolution_number")?;
 
     let epoch = epoch_from_year_doy(expand_two_digit_year(epoch_year_2 as i32), epoch_day)?;
 
@@ -251,9 +252,9 @@ pub(crate) fn epoch_from_year_doy(year: i32, day_of_year: f64) -> Result<Time<UT
     Time::<UTC>::try_from_chrono(dt).map_err(|e| TleError::EpochConversion(format!("{e:?}")))
 }
 
-fn parse_int_field(raw: &str, field: &'static str) -> Result<i64, TleError> {
+fn parse_int_field<T: std::str::FromStr>(raw: &str, field: &'static str) -> Result<T, TleError> {
     let s = raw.trim();
-    s.parse::<i64>().map_err(|_| TleError::InvalidNumber {
+    s.parse::<T>().map_err(|_| TleError::InvalidNumber {
         field,
         raw: raw.into(),
     })
@@ -261,18 +262,17 @@ fn parse_int_field(raw: &str, field: &'static str) -> Result<i64, TleError> {
 
 fn parse_float_field(raw: &str, field: &'static str) -> Result<f64, TleError> {
     let s = raw.trim();
-    s.parse::<f64>().map_err(|_| TleError::InvalidNumber {
-        field,
-        raw: raw.into(),
-    })
+    s.parse::<f64>()
+        .ok()
+        .filter(|v| v.is_finite())
+        .ok_or_else(|| TleError::InvalidNumber {
+            field,
+            raw: raw.into(),
+        })
 }
 
 fn parse_signed_decimal(raw: &str, field: &'static str) -> Result<f64, TleError> {
-    let s = raw.trim();
-    s.parse::<f64>().map_err(|_| TleError::InvalidNumber {
-        field,
-        raw: raw.into(),
-    })
+    parse_float_field(raw, field)
 }
 
 /// Parse the TLE assumed-decimal-with-exponent encoding (e.g. `" 12345-3"` →
@@ -314,7 +314,7 @@ pub(crate) fn parse_assumed_decimal_exponent(
             field,
             raw: raw.into(),
         })? as f64
-        * 10f64.powi(-(mantissa_digits.len() as i32));
+        * 10f64.powi(-(mantissa_digits.len().max(5) as i32));
     let exp: i32 = exp_str.parse().map_err(|_| TleError::InvalidNumber {
         field,
         raw: raw.into(),
-- 
2.43.0


From 0c8d9e13261ad8c661efad2cf8eabe3acbbe387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 23/67] fix: format_tle wrote misaligned or different values
 for what a TLE cannot hold

Mantissas rounding up to 1.0 got a sixth digit, days rounding up to the next
day were written as day 367, and values beyond their columns shifted the rest
of the line (or tripped a debug assertion). They now carry or are refused.
---
 src/formats/tle/builder.rs | 158 ++++++++++++++++++++++++++-----------
 1 file changed, 114 insertions(+), 44 deletions(-)

diff --git a/src/formats/tle/builder.rs b/src/formats/tle/builder.rs
index b9da383..8b55ed0 100644
--- a/src/formats/tle/builder.rs
+++ b/src/formats/tle/builder.rs
@@ -377,24 +377,24 @@ impl TleBuilder {
 pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
     let cat = tle.norad_id.format_alpha5()?;
     let cls = tle.classification.as_char();
-    let intl = format!("{:<8}", tle.international_designator.0);
-    let dt = tle
-        .epoch
-        .try_to_chrono()
-        .map_err(|e| TleError::EpochConversion(format!("{e:?}")))?;
-    let year = dt.year();
-    let yy = ((year % 100) + 100) % 100;
-    let doy = dt.ordinal();
-    let secs_of_day =
-        dt.num_seconds_from_midnight() as f64 + dt.timestamp_subsec_nanos() as f64 * 1e-9;
-    let frac_day = secs_of_day / 86_400.0;
-    let day_full = doy as f64 + frac_day;
-    let n_dot = format_signed_decimal(tle.mean_motion_dot);
-    let n_ddot = format_assumed_decimal_exponent(tle.mean_motion_ddot);
-    let bstar_s = format_assumed_decimal_exponent(tle.bstar);
-    let elset = format!("{:>4}", tle.element_set_number);
+    let intl = &tle.international_designator.0;
+    if !intl.bytes().all(|b| b.is_ascii_graphic() || b == b' ') {
+        return Err(unrepresentable("international_designator", intl));
+    }
+    let intl = fit("international_designator", format!("{intl:<8}"), 8)?;
+    let (yy, day_full) = format_epoch_fields(tle)?;
+
+    let n_dot = format_signed_decimal("mean_motion_dot", tle.mean_motion_dot)?;
+    let n_ddot = format_assumed_decimal_exponent("mean_motion_ddot", tle.mean_motion_ddot)?;
+    let bstar_s = format_assumed_decimal_exponent("bstar", tle.bstar)?;
+    let elset = fit(
+        "element_set_number",
+        format!("{:>4}", tle.element_set_number),
+        4,
+    )?;
+
     let mut l1 =
-        format!("1 {cat}{cls} {intl} {yy:02}{day_full:012.8} {n_dot} {n_ddot} {bstar_s} 0 {elset}");
+        format!("1 {cat}{cls} {intl} {yy:02}{day_full} {n_dot} {n_ddot} {bstar_s} 0 {elset}");
     debug_assert_eq!(
         l1.len(),
         68,
@@ -403,14 +403,21 @@ pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
     let cs1 = compute_tle_checksum(&l1);
     l1.push_str(&cs1.to_string());
 
-    let inc = format!("{:8.4}", tle.inclination.value());
-    let raan = format!("{:8.4}", tle.raan.value());
-    let ecc_scaled = (tle.eccentricity * 1.0e7).round() as u64;
-    let ecc = format!("{ecc_scaled:07}");
-    let argp = format!("{:8.4}", tle.argument_of_perigee.value());
-    let m_ano = format!("{:8.4}", tle.mean_anomaly.value());
-    let n_str = format!("{:11.8}", tle.mean_motion.value());
-    let rev = format!("{:>5}", tle.revolution_number_at_epoch);
+    let inc = format_fixed("inclination", tle.inclination.value(), 8, 4)?;
+    let raan = format_fixed("raan", tle.raan.value(), 8, 4)?;
+    let ecc_scaled = (tle.eccentricity * 1.0e7).round();
+    if !(0.0..1.0e7).contains(&ecc_scaled) {
+        return Err(unrepresentable("eccentricity", &tle.eccentricity));
+    }
+    let ecc = format!("{:07}", ecc_scaled as u64);
+    let argp = format_fixed("argument_of_perigee", tle.argument_of_perigee.value(), 8, 4)?;
+    let m_ano = format_fixed("mean_anomaly", tle.mean_anomaly.value(), 8, 4)?;
+    let n_str = format_fixed("mean_motion", tle.mean_motion.value(), 11, 8)?;
+    let rev = fit(
+        "revolution_number",
+        format!("{:>5}", tle.revolution_number_at_epoch),
+        5,
+    )?;
     let mut l2 = format!("2 {cat} {inc} {raan} {ecc} {argp} {m_ano} {n_str}{rev}");
     debug_assert_eq!(
         l2.len(),
@@ -422,32 +429,95 @@ pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
     Ok((l1, l2))
 }
 
-fn format_signed_decimal(v: f64) -> String {
+/// A value that does not fit its TLE column is refused, not written askew.
+fn unrepresentable(field: &'static str, value: &dyn std::fmt::Display) -> TleError {
+    TleError::InvalidNumber {
+        field,
+        raw: value.to_string(),
+    }
+}
+
+fn fit(field: &'static str, text: String, width: usize) -> Result<String, TleError> {
+    if text.len() == width {
+        Ok(text)
+    } else {
+        Err(unrepresentable(field, &text))
+    }
+}
+
+fn format_fixed(
+    field: &'static str,
+    v: f64,
+    width: usize,
+    decimals: usize,
+) -> Result<String, TleError> {
+    if !v.is_finite() {
+        return Err(unrepresentable(field, &v));
+    }
+    fit(field, format!("{v:width$.decimals$}"), width)
+}
+
+/// Two-digit year and day of year with eight decimals; rounding may carry into
+/// the next day or year.
+fn format_epoch_fields(tle: &TLE) -> Result<(i32, String), TleError> {
+    let dt = tle
+        .epoch
+        .try_to_chrono()
+        .map_err(|e| TleError::EpochConversion(format!("{e:?}")))?;
+    let secs_of_day =
+        dt.num_seconds_from_midnight() as f64 + dt.timestamp_subsec_nanos() as f64 * 1e-9;
+    let mut frac_day = (secs_of_day / 86_400.0 * 1.0e8).round() as u64;
+    let mut date = dt.date_naive();
+    if frac_day >= 100_000_000 {
+        frac_day -= 100_000_000;
+        date = date.succ_opt().unwrap_or(date);
+    }
+    let year = date.year();
+    if !(1957..=2056).contains(&year) {
+        return Err(TleError::InvalidEpoch {
+            year,
+            day_of_year: date.ordinal() as f64,
+            reason: "year not representable with two digits",
+        });
+    }
+    Ok((year % 100, format!("{:03}.{frac_day:08}", date.ordinal())))
+}
+
+/// Render the `mean_motion_dot` field in the TLE 10-character convention:
+/// `±.NNNNNNNN` (leading `0.` suppressed, sign in column 33).
+fn format_signed_decimal(field: &'static str, v: f64) -> Result<String, TleError> {
     let sign = if v.is_sign_negative() { '-' } else { ' ' };
-    let mag = v.abs();
-    let fract = (mag * 1.0e8).round() as u64;
-    format!("{sign}.{fract:08}")
+    let fract = (v.abs() * 1.0e8).round();
+    if !(0.0..1.0e8).contains(&fract) {
+        return Err(unrepresentable(field, &v));
+    }
+    Ok(format!("{sign}.{:08}", fract as u64))
 }
 
-fn format_assumed_decimal_exponent(v: f64) -> String {
-    if v == 0.0 || !v.is_finite() {
-        return " 00000-0".to_string();
+/// Render the 8-character TLE assumed-decimal-with-exponent encoding used by
+/// `mean_motion_ddot` and `bstar`. Magnitudes below `0.1e-9` keep the exponent
+/// `-9` and lose leading mantissa digits.
+fn format_assumed_decimal_exponent(field: &'static str, v: f64) -> Result<String, TleError> {
+    if v == 0.0 {
+        return Ok(" 00000-0".to_string());
+    }
+    if !v.is_finite() {
+        return Err(unrepresentable(field, &v));
     }
     let sign = if v.is_sign_negative() { '-' } else { ' ' };
     let mag = v.abs();
-    let mut exp = mag.log10().floor() as i32 + 1;
-    let mut mantissa = mag / 10f64.powi(exp);
-    let scaled = (mantissa * 1.0e5).round() as u64;
-    if scaled >= 1_000_000 {
-        mantissa /= 10.0;
+    let mut exp = (mag.log10().floor() as i32 + 1).max(-9);
+    let mut scaled = (mag / 10f64.powi(exp) * 1.0e5).round() as u64;
+    if scaled >= 100_000 {
         exp += 1;
+        scaled = (mag / 10f64.powi(exp) * 1.0e5).round() as u64;
     }
-    let scaled = (mantissa * 1.0e5).round() as u64;
-    let exp_sign = if exp < 0 { '-' } else { '+' };
-    let exp_abs = exp.unsigned_abs();
-    if exp_sign == '+' {
-        format!("{sign}{scaled:05}+{exp_abs}")
-    } else {
-        format!("{sign}{scaled:05}-{exp_abs}")
+    if scaled == 0 {
+        return Ok(" 00000-0".to_string());
     }
+    if exp > 9 {
+        return Err(unrepresentable(field, &v));
+    }
+    let exp_sign = if exp < 0 { '-' } else { '+' };
+    Ok(format!("{sign}{scaled:05}{exp_sign}{}", exp.unsigned_abs()))
 }
-- 
2.43.0


From f9b0e5aa65e98c21bd1bb5988a6b6a0165126a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 24/67] fix: OMM readers replaced unreadable optional fields by
 zeros and refused long catalogue numbers

Unreadable BSTAR, mean-motion derivatives, revolution and element-set numbers
are errors, elements with attributes are found, unclosed ones are errors,
NORAD_CAT_ID may have more than five digits, non-zero UTC offsets are refused
instead of ignored and leap-second epochs are written as second 60.
---
 src/formats/tle/omm/kvn.rs | 31 ++++++--------------
 src/formats/tle/omm/mod.rs | 47 ++++++++++++++++++++++++++++--
 src/formats/tle/omm/xml.rs | 59 +++++++++++++++++++++-----------------
 3 files changed, 87 insertions(+), 50 deletions(-)

diff --git a/src/formats/tle/omm/kvn.rs b/src/formats/tle/omm/kvn.rs
index 98d400c..adedeb2 100644
--- a/src/formats/tle/omm/kvn.rs
+++ b/src/formats/tle/omm/kvn.rs
@@ -8,9 +8,9 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, parse_epoch, Omm};
+use super::{format_epoch, optional_number, parse_epoch, parse_norad_cat_id, Omm};
+use crate::formats::tle::Classification;
 use crate::formats::tle::TleError;
-use crate::formats::tle::{Classification, SatelliteNumber};
 
 /// Render an [`Omm`] to its KVN form.
 ///
@@ -129,13 +129,6 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
             reason: format!("{k}={v:?} is not a float"),
         })
     };
-    let getu = |k: &'static str| -> Result<u32, TleError> {
-        let v = get(k)?;
-        v.parse::<u32>().map_err(|_| TleError::OmmMalformed {
-            format: "KVN",
-            reason: format!("{k}={v:?} is not an unsigned integer"),
-        })
-    };
 
     let object_name = get("OBJECT_NAME")?.clone();
     let object_id = get("OBJECT_ID")?.clone();
@@ -148,7 +141,7 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
     let classification = Classification::from_char(cls_char)?;
 
     let norad_str = get("NORAD_CAT_ID")?;
-    let norad_id = SatelliteNumber::parse(norad_str)?;
+    let norad_id = parse_norad_cat_id(norad_str)?;
 
     Ok(Omm {
         object_name,
@@ -160,19 +153,13 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         ra_of_asc_node: Degrees::new(getf("RA_OF_ASC_NODE")?),
         arg_of_pericenter: Degrees::new(getf("ARG_OF_PERICENTER")?),
         mean_anomaly: Degrees::new(getf("MEAN_ANOMALY")?),
-        ephemeris_type: kv
-            .get("EPHEMERIS_TYPE")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
+        ephemeris_type: optional_number(kv.get("EPHEMERIS_TYPE"), "EPHEMERIS_TYPE", "KVN")?,
         classification,
         norad_id,
-        element_set_no: kv
-            .get("ELEMENT_SET_NO")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        rev_at_epoch: getu("REV_AT_EPOCH").unwrap_or(0),
-        bstar: getf("BSTAR").unwrap_or(0.0),
-        mean_motion_dot: getf("MEAN_MOTION_DOT").unwrap_or(0.0),
-        mean_motion_ddot: getf("MEAN_MOTION_DDOT").unwrap_or(0.0),
+        element_set_no: optional_number(kv.get("ELEMENT_SET_NO"), "ELEMENT_SET_NO", "KVN")?,
+        rev_at_epoch: optional_number(kv.get("REV_AT_EPOCH"), "REV_AT_EPOCH", "KVN")?,
+        bstar: optional_number(kv.get("BSTAR"), "BSTAR", "KVN")?,
+        mean_motion_dot: optional_number(kv.get("MEAN_MOTION_DOT"), "MEAN_MOTION_DOT", "KVN")?,
+        mean_motion_ddot: optional_number(kv.get("MEAN_MOTION_DDOT"), "MEAN_MOTION_DDOT", "KVN")?,
     })
 }
diff --git a/src/formats/tle/omm/mod.rs b/src/formats/tle/omm/mod.rs
index 4cdd4a5..855993f 100644
--- a/src/formats/tle/omm/mod.rs
+++ b/src/formats/tle/omm/mod.rs
@@ -217,7 +217,9 @@ pub(crate) fn format_epoch(t: Time<UTC>) -> Result<String, TleError> {
     let dt = t
         .try_to_chrono()
         .map_err(|e| TleError::EpochConversion(format!("{e:?}")))?;
+    // chrono counts a leap second as microseconds beyond the 59th second.
     let micros = dt.timestamp_subsec_micros();
+    let (second, micros) = (dt.second() + micros / 1_000_000, micros % 1_000_000);
     Ok(format!(
         "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06}",
         dt.year(),
@@ -225,17 +227,58 @@ pub(crate) fn format_epoch(t: Time<UTC>) -> Result<String, TleError> {
         dt.day(),
         dt.hour(),
         dt.minute(),
-        dt.second(),
+        second,
         micros
     ))
 }
 
+/// `NORAD_CAT_ID` in the text encodings: a plain number of any length, or the
+/// five-character Alpha-5 form.
+pub(crate) fn parse_norad_cat_id(raw: &str) -> Result<SatelliteNumber, TleError> {
+    let s = raw.trim();
+    if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) {
+        return s
+            .parse()
+            .map(SatelliteNumber)
+            .map_err(|_| TleError::InvalidNumber {
+                field: "NORAD_CAT_ID",
+                raw: raw.to_string(),
+            });
+    }
+    SatelliteNumber::parse(s)
+}
+
+/// An optional numeric field: its default when absent, an error when present
+/// but unreadable.
+pub(crate) fn optional_number<T: std::str::FromStr + Default>(
+    value: Option<&String>,
+    key: &'static str,
+    format: &'static str,
+) -> Result<T, TleError> {
+    value.map_or(Ok(T::default()), |v| {
+        v.parse().map_err(|_| TleError::OmmMalformed {
+            format,
+            reason: format!("{key}={v:?} is not a valid number"),
+        })
+    })
+}
+
 /// Parse an ISO-8601 OMM epoch (with optional fractional seconds and
 /// optional `Z`/`+00:00` zone) into a UTC [`Time`].
 pub(crate) fn parse_epoch(raw: &str) -> Result<Time<UTC>, TleError> {
     let s = raw.trim();
     let trimmed = s.trim_end_matches('Z');
-    let trimmed = trimmed.split('+').next().unwrap_or(trimmed);
+    // OMM epochs are UTC: an explicit offset has to be zero.
+    let trimmed = match trimmed.split_once('+') {
+        Some((time, "00:00" | "0000" | "00")) => time,
+        Some(_) => {
+            return Err(TleError::OmmInvalidEpoch {
+                raw: raw.to_string(),
+                reason: "non-zero UTC offset",
+            })
+        }
+        None => trimmed,
+    };
     let dt = chrono::NaiveDateTime::parse_from_str(trimmed, "%Y-%m-%dT%H:%M:%S%.f")
         .or_else(|_| chrono::NaiveDateTime::parse_from_str(trimmed, "%Y-%m-%dT%H:%M:%S"))
         .map_err(|e| TleError::OmmInvalidEpoch {
diff --git a/src/formats/tle/omm/xml.rs b/src/formats/tle/omm/xml.rs
index 3599211..d4e85af 100644
--- a/src/formats/tle/omm/xml.rs
+++ b/src/formats/tle/omm/xml.rs
@@ -13,9 +13,9 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, parse_epoch, Omm};
+use super::{format_epoch, optional_number, parse_epoch, parse_norad_cat_id, Omm};
+use crate::formats::tle::Classification;
 use crate::formats::tle::TleError;
-use crate::formats::tle::{Classification, SatelliteNumber};
 
 /// Render an [`Omm`] to its XML form (`<omm>...</omm>`).
 ///
@@ -101,7 +101,7 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
     use std::collections::HashMap;
     let mut kv: HashMap<String, String> = HashMap::new();
     for tag in TLE_TAGS {
-        if let Some(v) = extract_tag(input, tag) {
+        if let Some(v) = extract_tag(input, tag)? {
             kv.insert((*tag).to_string(), v);
         }
     }
@@ -134,7 +134,7 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         .unwrap_or("U");
     let cls_char = cls_raw.chars().next().unwrap_or('U');
     let classification = Classification::from_char(cls_char)?;
-    let norad_id = SatelliteNumber::parse(get("NORAD_CAT_ID")?)?;
+    let norad_id = parse_norad_cat_id(get("NORAD_CAT_ID")?)?;
 
     Ok(Omm {
         object_name,
@@ -146,23 +146,14 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         ra_of_asc_node: Degrees::new(getf("RA_OF_ASC_NODE")?),
         arg_of_pericenter: Degrees::new(getf("ARG_OF_PERICENTER")?),
         mean_anomaly: Degrees::new(getf("MEAN_ANOMALY")?),
-        ephemeris_type: kv
-            .get("EPHEMERIS_TYPE")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
+        ephemeris_type: optional_number(kv.get("EPHEMERIS_TYPE"), "EPHEMERIS_TYPE", "XML")?,
         classification,
         norad_id,
-        element_set_no: kv
-            .get("ELEMENT_SET_NO")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        rev_at_epoch: kv
-            .get("REV_AT_EPOCH")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        bstar: getf("BSTAR").unwrap_or(0.0),
-        mean_motion_dot: getf("MEAN_MOTION_DOT").unwrap_or(0.0),
-        mean_motion_ddot: getf("MEAN_MOTION_DDOT").unwrap_or(0.0),
+        element_set_no: optional_number(kv.get("ELEMENT_SET_NO"), "ELEMENT_SET_NO", "XML")?,
+        rev_at_epoch: optional_number(kv.get("REV_AT_EPOCH"), "REV_AT_EPOCH", "XML")?,
+        bstar: optional_number(kv.get("BSTAR"), "BSTAR", "XML")?,
+        mean_motion_dot: optional_number(kv.get("MEAN_MOTION_DOT"), "MEAN_MOTION_DOT", "XML")?,
+        mean_motion_ddot: optional_number(kv.get("MEAN_MOTION_DDOT"), "MEAN_MOTION_DDOT", "XML")?,
     })
 }
 
@@ -190,13 +181,29 @@ const TLE_TAGS: &[&str] = &[
     "MEAN_MOTION_DDOT",
 ];
 
-fn extract_tag(input: &str, tag: &str) -> Option<String> {
-    let open = format!("<{tag}>");
-    let close = format!("</{tag}>");
-    let i = input.find(&open)?;
-    let after = &input[i + open.len()..];
-    let j = after.find(&close)?;
-    Some(after[..j].trim().to_string())
+/// Text of the first `<tag ...>` element, `None` when there is none and an
+/// error when it is never closed.
+fn extract_tag(input: &str, tag: &str) -> Result<Option<String>, TleError> {
+    let malformed = || TleError::OmmMalformed {
+        format: "XML",
+        reason: format!("<{tag}> is not closed"),
+    };
+    let open = format!("<{tag}");
+    for (i, _) in input.match_indices(&open) {
+        let after = &input[i + open.len()..];
+        if !after.starts_with(|c: char| c == '>' || c.is_ascii_whitespace()) {
+            continue;
+        }
+        let (attributes, text) = after.split_once('>').ok_or_else(malformed)?;
+        if attributes.ends_with('/') {
+            return Ok(Some(String::new()));
+        }
+        let (text, _) = text
+            .split_once(&format!("</{tag}>"))
+            .ok_or_else(malformed)?;
+        return Ok(Some(text.trim().to_string()));
+    }
+    Ok(None)
 }
 
 fn xml_escape(s: &str) -> String {
-- 
2.43.0


From 89396419487f5f70847bd48a8d30d19fa2c5aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:01 +0000
Subject: [PATCH 25/67] fix: OMM XML documents cut short were read without
 their missing elements

---
 src/formats/tle/omm/xml.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/formats/tle/omm/xml.rs b/src/formats/tle/omm/xml.rs
index d4e85af..28c32d7 100644
--- a/src/formats/tle/omm/xml.rs
+++ b/src/formats/tle/omm/xml.rs
@@ -99,6 +99,14 @@ pub fn write(omm: &Omm) -> Result<String, TleError> {
 /// ```
 pub fn read(input: &str) -> Result<Omm, TleError> {
     use std::collections::HashMap;
+    // A document cut short would otherwise pass for one without the optional
+    // elements.
+    if input.contains("<omm") && !input.contains("</omm>") {
+        return Err(TleError::OmmMalformed {
+            format: "XML",
+            reason: "<omm> is not closed".into(),
+        });
+    }
     let mut kv: HashMap<String, String> = HashMap::new();
     for tag in TLE_TAGS {
         if let Some(v) = extract_tag(input, tag)? {
-- 
2.43.0


From 55194ac2724dc635116c12574d6918e0cf05ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:22 +0000
Subject: [PATCH 26/67] fix: TLE drag terms with a huge exponent were read as
 infinite

---
 src/formats/tle/parse.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/formats/tle/parse.rs b/src/formats/tle/parse.rs
index 6b29cdd..3df80f8 100644
--- a/src/formats/tle/parse.rs
+++ b/src/formats/tle/parse.rs
@@ -319,5 +319,12 @@ pub(crate) fn parse_assumed_decimal_exponent(
         field,
         raw: raw.into(),
     })?;
-    Ok(sign * mantissa * 10f64.powi(exp))
+    let value = sign * mantissa * 10f64.powi(exp);
+    if !value.is_finite() {
+        return Err(TleError::InvalidNumber {
+            field,
+            raw: raw.into(),
+        });
+    }
+    Ok(value)
 }
-- 
2.43.0


From 9c10ce86da70220fb2b3130be5cb23de9e22499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 27/67] fix: EKF updates whose result overflows left an
 infinite state behind

---
 src/pod/estimation/sequential.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/pod/estimation/sequential.rs b/src/pod/estimation/sequential.rs
index 6c62c9e..6b2bdc1 100644
--- a/src/pod/estimation/sequential.rs
+++ b/src/pod/estimation/sequential.rs
@@ -145,7 +145,8 @@ impl OrbitEkf {
     /// `r` is the measurement noise variance σ² (must be finite and ≥ 0).
     /// `innovation` is the pre-fit residual (measured minus predicted).
     /// Returns the innovation record or an error if the innovation variance
-    /// is not strictly positive or any input is invalid.
+    /// is not finite and strictly positive, any input is invalid, or the
+    /// posterior is not finite; on error the filter is unchanged.
     pub fn update_scalar(
         &mut self,
         h: [f64; 6],
@@ -182,7 +183,7 @@ impl OrbitEkf {
         for i in 0..6 {
             s += h[i] * ph[(i, 0)];
         }
-        if s.partial_cmp(&0.0) != Some(std::cmp::Ordering::Greater) {
+        if !s.is_finite() || s <= 0.0 {
             return Err(EkfError::Singular(s));
         }
 
@@ -202,7 +203,6 @@ impl OrbitEkf {
         );
         let new_pos = self.state.position + pos_delta;
         let new_vel = self.state.velocity + vel_delta;
-        self.state = OrbitState::new(self.state.epoch, new_pos, new_vel);
 
         // Joseph form: P ← (I − K hᵀ) P (I − K hᵀ)ᵀ + R K Kᵀ
         // This preserves positive-definiteness under rounding errors.
@@ -219,10 +219,27 @@ impl OrbitEkf {
                 p_next[(j, i)] = v;
             }
         }
+        let nis = innovation * innovation / s;
+
+        // Commit only a finite posterior: an update whose result overflows
+        // leaves the filter untouched.
+        let finite = nis.is_finite()
+            && [new_pos.x(), new_pos.y(), new_pos.z()]
+                .iter()
+                .all(|c| c.value().is_finite())
+            && [new_vel.x(), new_vel.y(), new_vel.z()]
+                .iter()
+                .all(|c| c.value().is_finite())
+            && (0..6).all(|i| (0..6).all(|j| p_next[(i, j)].is_finite()));
+        if !finite {
+            return Err(EkfError::InvalidInput(
+                "measurement update overflows the state or the covariance".into(),
+            ));
+        }
+        self.state = OrbitState::new(self.state.epoch, new_pos, new_vel);
         self.cov = StateCovariance::from_row_major(std::array::from_fn(|i| {
             std::array::from_fn(|j| p_next[(i, j)])
         }));
-        let nis = innovation * innovation / s;
         Ok(InnovationRecord {
             innovation,
             variance: s,
-- 
2.43.0


From 7ce66c4290443388905278e3f80a92bd8f7d6467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 28/67] fix: normal equations panicked on a late invalid index,
 kept half a refused row and returned non-finite solutions

---
 src/pod/estimation/wls.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/pod/estimation/wls.rs b/src/pod/estimation/wls.rs
index b884caa..2d6a9be 100644
--- a/src/pod/estimation/wls.rs
+++ b/src/pod/estimation/wls.rs
@@ -122,7 +122,8 @@ impl NormalEquations {
                 "residual must be finite (got {residual})"
             )));
         }
-        let w = 1.0 / (sigma * sigma);
+        // Validate the whole row before touching the accumulator, so that a
+        // rejected row leaves it unchanged.
         for &(i, hi) in partials {
             if i >= self.n {
                 return Err(WlsSolverError::InvalidIndex {
@@ -135,6 +136,9 @@ impl NormalEquations {
                     "partial at index {i} must be finite (got {hi})"
                 )));
             }
+        }
+        let w = 1.0 / (sigma * sigma);
+        for &(i, hi) in partials {
             // Accumulate into the upper triangle; symmetrise at solve time.
             self.b[(i, 0)] += w * hi * residual;
             for &(j, hj) in partials {
@@ -150,6 +154,12 @@ impl NormalEquations {
     }
 
     /// Solve the normal equations and return parameter update + covariance.
+    ///
+    /// # Errors
+    ///
+    /// Returns [`WlsSolverError::NotPositiveDefinite`] if the normal matrix
+    /// is not positive definite, or if χ², the update or the covariance is
+    /// not finite.
     pub fn solve(self) -> Result<WlsResult, WlsSolverError> {
         // Symmetrise.
         let mut a = self.n_matrix.clone();
@@ -185,6 +195,14 @@ impl NormalEquations {
                 cov_arr[i][j] = cov[(i, j)];
             }
         }
+        let finite = self.chi2.is_finite()
+            && update.iter().all(|v| v.is_finite())
+            && cov_arr.iter().flatten().all(|v| v.is_finite());
+        if !finite {
+            return Err(WlsSolverError::NotPositiveDefinite(
+                "the solution or its covariance is not finite".into(),
+            ));
+        }
         Ok(WlsResult {
             update,
             covariance: cov_arr,
-- 
2.43.0


From 8fbf5f5cff284e8f41c9794d48e4bbf66993f632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 29/67] fix: fixed-step RK4 propagation kept the shortest step
 ever taken

---
 src/astro/dynamics/propagation/propagator.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/astro/dynamics/propagation/propagator.rs b/src/astro/dynamics/propagation/propagator.rs
index 26cd4bc..567fb4d 100644
--- a/src/astro/dynamics/propagation/propagator.rs
+++ b/src/astro/dynamics/propagation/propagator.rs
@@ -87,13 +87,16 @@ where
                 reason: "FixedRk4Adapter.step must be finite and non-zero",
             });
         }
+        let h_full = Second::new(h_try.value().signum() * max_h);
         let h = if h_try.value().abs() < max_h {
             h_try
         } else {
-            Second::new(h_try.value().signum() * max_h)
+            h_full
         };
         let new_state = rk4_step(model, state, h, ctx)?;
-        Ok((new_state, h, h, 0))
+        // A step shortened to land on an output or end time must not shorten
+        // the steps after it.
+        Ok((new_state, h, h_full, 0))
     }
 }
 
-- 
2.43.0


From 1d1272a0a6aaf048a84043e287a08a9699150a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 30/67] fix: propagating over a non-finite interval returned
 the start state or never ended

---
 src/astro/dynamics/propagation/propagator.rs | 14 ++++++++++++++
 src/pod/propagation/integrators.rs           | 14 ++++++++++++++
 src/pod/propagation/variational.rs           |  2 ++
 3 files changed, 30 insertions(+)

diff --git a/src/astro/dynamics/propagation/propagator.rs b/src/astro/dynamics/propagation/propagator.rs
index 567fb4d..66081b4 100644
--- a/src/astro/dynamics/propagation/propagator.rs
+++ b/src/astro/dynamics/propagation/propagator.rs
@@ -197,6 +197,7 @@ where
         state: OrbitState<Geocentric, GCRS>,
         dt: Second,
     ) -> Result<OrbitState<Geocentric, GCRS>, DynamicsError> {
+        require_finite(dt)?;
         let t_start = state.epoch;
         let t_end = state.epoch + dt;
         let h0 = Second::new(30.0);
@@ -223,6 +224,7 @@ where
     where
         E: EventDetector<DynamicsContext, TT, Geocentric, GCRS> + 'static,
     {
+        require_finite(dt)?;
         let t_start = state.epoch;
         let t_end = state.epoch + dt;
         let mut cfg =
@@ -244,10 +246,22 @@ where
         state: OrbitState<Geocentric, GCRS>,
         dt: Second,
     ) -> Result<(OrbitState<Geocentric, GCRS>, StateTransitionMatrix<GCRS>), DynamicsError> {
+        require_finite(dt)?;
         principia::propagate_stm(&self.model, state, dt, &self.ctx).map_err(Into::into)
     }
 }
 
+/// Refuse a propagation interval no integrator can step through.
+fn require_finite(dt: Second) -> Result<(), DynamicsError> {
+    if dt.value().is_finite() {
+        Ok(())
+    } else {
+        Err(DynamicsError::InvalidStepRequest {
+            reason: "propagation interval must be finite",
+        })
+    }
+}
+
 // ─────────────────────────────────────────────────────────────────────────────
 // Convenience type aliases
 // ─────────────────────────────────────────────────────────────────────────────
diff --git a/src/pod/propagation/integrators.rs b/src/pod/propagation/integrators.rs
index df19e16..c5a2cc0 100644
--- a/src/pod/propagation/integrators.rs
+++ b/src/pod/propagation/integrators.rs
@@ -65,6 +65,17 @@ pub trait Integrator {
     ) -> Result<OrbitState, DynamicsError>;
 }
 
+/// Refuse a propagation interval no integrator can step through.
+pub(super) fn require_finite(dt: Second, reason: &'static str) -> Result<(), DynamicsError> {
+    if dt.value().is_finite() {
+        Ok(())
+    } else {
+        Err(DynamicsError::Upstream(
+            crate::astro::dynamics::errors::DynamicsError::InvalidStepRequest { reason },
+        ))
+    }
+}
+
 /// Fixed-step classical Runge-Kutta 4th-order integrator.
 ///
 /// Uses [`principia::rk4_propagate`] under the
@@ -106,6 +117,7 @@ impl Integrator for Rk4Integrator {
         dt: Second,
         ctx: &DynamicsContext,
     ) -> Result<OrbitState, DynamicsError> {
+        require_finite(dt, "propagation interval must be finite")?;
         let dt_s = dt.value();
         if dt_s == 0.0 {
             return Ok(state);
@@ -153,6 +165,7 @@ impl Integrator for Dopri5Integrator {
         dt: Second,
         ctx: &DynamicsContext,
     ) -> Result<OrbitState, DynamicsError> {
+        require_finite(dt, "propagation interval must be finite")?;
         Ok(dopri5_propagate(force, state, dt, self.tolerances, ctx)?)
     }
 }
@@ -186,6 +199,7 @@ impl Integrator for Dop853Integrator {
         dt: Second,
         ctx: &DynamicsContext,
     ) -> Result<OrbitState, DynamicsError> {
+        require_finite(dt, "propagation interval must be finite")?;
         Ok(dop853_propagate(force, state, dt, self.tolerances, ctx)?)
     }
 }
diff --git a/src/pod/propagation/variational.rs b/src/pod/propagation/variational.rs
index 065268f..f683c4a 100644
--- a/src/pod/propagation/variational.rs
+++ b/src/pod/propagation/variational.rs
@@ -38,6 +38,7 @@ use crate::pod::force::SiderustAccelerationModel;
 use crate::pod::propagation::Integrator;
 use affn::matrix6::FrameMatrix6;
 
+use super::integrators::require_finite;
 use super::pod_error::PodDynamicsError;
 
 /// Six-component parameter sensitivity column `∂y/∂p`.
@@ -277,6 +278,7 @@ impl VariationalPropagator {
     where
         FM: SiderustAccelerationModel,
     {
+        require_finite(self.step, "VariationalPropagator.step must be finite")?;
         let mut state = initial;
         let mut phi_total: StateTransitionMatrix<GCRS> = FrameMatrix6::identity();
         let mut steps = Vec::with_capacity(n_steps);
-- 
2.43.0


From e571f3cce945fd215de6641e8fb1fc9a2a805a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 31/67] fix: thrust directions of extreme length became zero
 vectors or were refused

---
 src/pod/force/thrust.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pod/force/thrust.rs b/src/pod/force/thrust.rs
index 9148271..72a2bbd 100644
--- a/src/pod/force/thrust.rs
+++ b/src/pod/force/thrust.rs
@@ -92,12 +92,14 @@ impl ThrustArc {
         if !x.is_finite() || !y.is_finite() || !z.is_finite() {
             return Err(ManeuverError::InvalidDirection(direction));
         }
-        let mag = (x * x + y * y + z * z).sqrt();
-        // Reject zero, negative, and NaN magnitudes in one expression.
-        #[allow(clippy::neg_cmp_op_on_partial_ord)]
-        if !(mag > 0.0) {
+        let largest = x.abs().max(y.abs()).max(z.abs());
+        if largest == 0.0 {
             return Err(ManeuverError::InvalidDirection(direction));
         }
+        // Scale first: the squares of very long or very short directions
+        // would overflow or underflow.
+        let [x, y, z] = [x / largest, y / largest, z / largest];
+        let mag = (x * x + y * y + z * z).sqrt();
         Ok(Self {
             start,
             stop,
-- 
2.43.0


From 514f1426aac465f6f12b4b5e3259b344bce6fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 32/67] fix: observation batches mixed epochs up to 40
 microseconds apart

---
 src/pod/observation/batch.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pod/observation/batch.rs b/src/pod/observation/batch.rs
index e6596ab..630f5e7 100644
--- a/src/pod/observation/batch.rs
+++ b/src/pod/observation/batch.rs
@@ -143,7 +143,9 @@ impl Default for ObservationBatch {
 /// Epochs match within 0.5 µs (≈ 5.8e-12 JD days).
 fn epochs_match(a: JulianDate, b: JulianDate) -> bool {
     const TOL_DAYS: f64 = 5.8e-12;
-    (a.value() - b.value()).abs() < TOL_DAYS
+    // Subtract the instants themselves: one f64 Julian date only resolves
+    // about 40 µs.
+    (a - b).value().abs() < TOL_DAYS
 }
 
 #[cfg(test)]
-- 
2.43.0


From 00caa4ced235c222bce3146743ae1eab5b1c7310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 33/67] fix: covariance validation accepted entries that are
 not numbers

---
 src/pod/problem/covariance.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pod/problem/covariance.rs b/src/pod/problem/covariance.rs
index 85b08c1..1a2ad1f 100644
--- a/src/pod/problem/covariance.rs
+++ b/src/pod/problem/covariance.rs
@@ -85,7 +85,9 @@ impl ParameterCovariance {
                 let a = self.data[i * n + j];
                 let b = self.data[j * n + i];
                 let delta = (a - b).abs();
-                if delta > tol {
+                // `!(<=)` also refuses NaN entries.
+                #[allow(clippy::neg_cmp_op_on_partial_ord)]
+                if !(delta <= tol) {
                     return Err(CovarianceError::NotSymmetric { i, j, delta, tol });
                 }
             }
@@ -100,7 +102,9 @@ impl ParameterCovariance {
         let n = self.n();
         for i in 0..n {
             let v = self.data[i * n + i];
-            if v < 0.0 {
+            // `!(>=)` also refuses NaN entries.
+            #[allow(clippy::neg_cmp_op_on_partial_ord)]
+            if !(v >= 0.0) {
                 return Err(CovarianceError::NotPsdDiagonal { i, value: v });
             }
         }
-- 
2.43.0


From 6223d5c533a8561d0d3d594575378c02df612a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 34/67] fix: relativistic GNSS clock term was a thousand times
 too small (km taken as m)

---
 src/pod/observation/gnss_obs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pod/observation/gnss_obs.rs b/src/pod/observation/gnss_obs.rs
index 7a8807e..c37fe70 100644
--- a/src/pod/observation/gnss_obs.rs
+++ b/src/pod/observation/gnss_obs.rs
@@ -238,7 +238,8 @@ fn relativistic_gps_clock_m(pos_km: Position<GCRS>, vel_km_s: Velocity<GCRS>) ->
     let dot = pos_km.x().value() * vel_km_s.x().value()
         + pos_km.y().value() * vel_km_s.y().value()
         + pos_km.z().value() * vel_km_s.z().value();
-    -2.0 * dot * 1_000.0 / C.value()
+    // km · km/s is 1e6 m²/s.
+    -2.0 * dot * 1_000_000.0 / C.value()
 }
 
 /// Compute geometric range (m) and receiver-to-satellite unit vector.
-- 
2.43.0


From 7c3936b8570b2c41cde589d95df73f53c7f16e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 35/67] fix: azimuth crossings reported the opposite bearing as
 well; narrow azimuth ranges were missed

---
 src/event/azimuth/events.rs | 202 +++++++++++++++++++++---------------
 1 file changed, 119 insertions(+), 83 deletions(-)

diff --git a/src/event/azimuth/events.rs b/src/event/azimuth/events.rs
index 1ed108b..8d7998e 100644
--- a/src/event/azimuth/events.rs
+++ b/src/event/azimuth/events.rs
@@ -49,7 +49,7 @@ use super::types::{AzimuthCrossingEvent, AzimuthExtremum, AzimuthExtremumKind, A
 use crate::coordinates::centers::Geodetic;
 use crate::coordinates::frames::ECEF;
 use crate::event::altitude::CrossingDirection;
-use crate::event::search::{extrema, intervals};
+use crate::event::search::{extrema, intervals, root_finding};
 use crate::qtty::*;
 use crate::time::{complement_within, Interval, ModifiedJulianDate};
 
@@ -62,44 +62,75 @@ fn scan_step_for<T: AzimuthProvider>(target: &T, _opts: &SearchOpts) -> Days {
     target.scan_step_hint().unwrap_or(DEFAULT_SCAN_STEP)
 }
 
-/// Build a **continuous** function `sin(az(t) − bearing)`.
-///
-/// This sidesteps the 0°/360° discontinuity of the raw azimuth: because sine
-/// has period 2π, `sin(az + 2π − b) = sin(az − b)`, the function is smooth
-/// and sign-changes exactly where `az(t) = bearing  (mod 360°)`.
+/// Largest azimuth sweep accepted between two scan samples before the step
+/// is halved (a body passing near the zenith can turn by almost 180° within
+/// minutes).
+const MAX_SWEEP: f64 = std::f64::consts::FRAC_PI_4;
+
+/// Maximum number of halvings of one scan step.
+const MAX_HALVINGS: usize = 14;
+
+/// Find the crossings of one `bearing`, in chronological order.
 ///
-/// The zero-crossings of this function correspond exactly to crossing events
-/// for the given bearing.
-fn make_az_bearing_sin_fn<'a, T: AzimuthProvider>(
-    target: &'a T,
-    site: &'a Geodetic<ECEF>,
+/// Works on the signed offset `az − bearing` wrapped to `[−180°, 180°)`, which
+/// changes sign through zero at the bearing itself and jumps at the opposite
+/// one, so that only genuine crossings are reported.
+fn find_bearing_crossings<T: AzimuthProvider>(
+    target: &T,
+    site: &Geodetic<ECEF>,
+    window: Interval<ModifiedJulianDate>,
     bearing: Radians,
+    step: Days,
     policy: crate::astro::apparent::CorrectionPolicy,
-) -> impl Fn(ModifiedJulianDate) -> Radians + 'a {
-    let site = *site;
-    move |t: ModifiedJulianDate| {
-        let az = target.azimuth_at_with_policy(&site, t, policy);
-        Radians::new((az - bearing).sin())
+) -> Vec<intervals::LabeledCrossing> {
+    use std::f64::consts::{FRAC_PI_2, PI, TAU};
+
+    let offset = |t: ModifiedJulianDate| -> f64 {
+        let az = target.azimuth_at_with_policy(site, t, policy);
+        ((az - bearing).value() + PI).rem_euclid(TAU) - PI
+    };
+    let mut crossings = Vec::new();
+    if window.end <= window.start || !(step > Days::zero()) {
+        return crossings;
     }
-}
 
-/// Build a continuous function `cos(az(t) − mid)` for range queries.
-///
-/// The body is inside the arc `[min_az, max_az]` when
-/// `cos(az − mid) ≥ cos(halfwidth)`, i.e. when this function is ≥ 0 after
-/// subtracting `cos(halfwidth)`.  This avoids the 0°/360° wrap entirely.
-fn make_az_cosine_fn<'a, T: AzimuthProvider>(
-    target: &'a T,
-    site: &'a Geodetic<ECEF>,
-    mid: Radians,
-    cos_hw: f64,
-    policy: crate::astro::apparent::CorrectionPolicy,
-) -> impl Fn(ModifiedJulianDate) -> Radians + 'a {
-    let site = *site;
-    move |t: ModifiedJulianDate| {
-        let az = target.azimuth_at_with_policy(&site, t, policy);
-        Radians::new((az - mid).cos() - cos_hw)
+    let mut t0 = window.start;
+    let mut d0 = offset(t0);
+    while t0 < window.end {
+        let proposed = ModifiedJulianDate::new((t0.raw() + step).value());
+        let next = if proposed < window.end {
+            proposed
+        } else {
+            window.end
+        };
+        // Halve until the azimuth sweep of every piece is unambiguous.
+        let mut pieces = vec![(next, offset(next), 0)];
+        while let Some((t1, d1, depth)) = pieces.pop() {
+            let sweep = ((d1 - d0 + PI).rem_euclid(TAU) - PI).abs();
+            if sweep > MAX_SWEEP && depth < MAX_HALVINGS {
+                let mid = ModifiedJulianDate::new((t0.raw() + (t1.raw() - t0.raw()) * 0.5).value());
+                pieces.push((t1, d1, depth + 1));
+                pieces.push((mid, offset(mid), depth + 1));
+                continue;
+            }
+            let crosses = (d0 > 0.0) != (d1 > 0.0) && d0.abs() < FRAC_PI_2 && d1.abs() < FRAC_PI_2;
+            if crosses {
+                let root = root_finding::brent_with_values(
+                    Interval::new(t0, t1),
+                    Radians::new(d0),
+                    Radians::new(d1),
+                    |t| Radians::new(offset(t)),
+                );
+                if let Some(t) = root {
+                    let direction = if d1 > d0 { 1 } else { -1 };
+                    crossings.push(intervals::LabeledCrossing { t, direction });
+                }
+            }
+            t0 = t1;
+            d0 = d1;
+        }
     }
+    crossings
 }
 
 /// Build an **unwrapped** (continuous) azimuth closure using a `Cell`-based
@@ -186,17 +217,14 @@ pub fn azimuth_crossings<T: AzimuthProvider>(
     bearing: Degrees,
     opts: SearchOpts,
 ) -> Vec<AzimuthCrossingEvent> {
-    let bearing_rad = bearing.to::<Radian>();
-    let f = make_az_bearing_sin_fn(
+    let labeled = find_bearing_crossings(
         target,
         observer,
-        bearing_rad,
+        window,
+        bearing.to::<Radian>(),
+        scan_step_for(target, &opts),
         crate::astro::apparent::CorrectionPolicy::APPARENT,
     );
-    let step = scan_step_for(target, &opts);
-
-    let mut raw = intervals::find_crossings(window, step, &f, Radians::new(0.0));
-    let labeled = intervals::label_crossings(&mut raw, &f, Radians::new(0.0));
 
     labeled
         .iter()
@@ -276,55 +304,63 @@ pub fn azimuth_extrema<T: AzimuthProvider>(
 /// This function is `pub(crate)` and is the single implementation backing
 /// all [`AzimuthProvider::azimuth_periods`] impls.
 ///
-/// ## Non-wrap range (`min ≤ max`)
-///
-/// Uses the midpoint-cosine approach:
-/// `f(t) = cos(az(t) − mid) − cos(halfwidth) ≥ 0` precisely when
-/// `az ∈ [min, max]`.  This function is continuous even through the
-/// 0°/360° boundary.
-///
-/// ## Wrap-around range (`min > max`)
-///
-/// The arc `[min, 360°) ∪ [0°, max]` equals the complement of the arc
-/// `[max, min]` (non-wrapping).  We compute the non-wrapping complement and
-/// take its complement within the window.
+/// The body enters and leaves the band where its azimuth crosses one of the
+/// two limiting bearings; between two such instants it is inside exactly when
+/// the azimuth counted clockwise from `min` does not exceed the width of the
+/// band. Wrap-around ranges (`min > max`) run through North.
 pub(crate) fn azimuth_range_periods<T: AzimuthProvider>(
     target: &T,
     query: &AzimuthQuery,
 ) -> Vec<Interval<ModifiedJulianDate>> {
-    let step = scan_step_for(target, &query.opts);
+    use std::f64::consts::TAU;
 
-    if query.min_azimuth <= query.max_azimuth {
-        // ── Non-wrap arc [min, max] ────────────────────────────────────────
-        let mid = ((query.min_azimuth + query.max_azimuth) * 0.5).to::<Radian>();
-        let half_width = ((query.max_azimuth - query.min_azimuth) * 0.5).to::<Radian>();
-        let cos_hw = half_width.cos();
-
-        let f = make_az_cosine_fn(
-            target,
-            &query.observer,
-            mid,
-            cos_hw,
-            query.correction_policy,
-        );
-        intervals::above_threshold_periods(query.window, step, &f, Radians::new(0.0))
-    } else {
-        // ── Wrap-around arc [min, 360°) ∪ [0°, max] ──────────────────────
-        // Complement arc is [max, min] (non-wrapping).
-        let mid = ((query.max_azimuth + query.min_azimuth) * 0.5).to::<Radian>();
-        let half_width = ((query.min_azimuth - query.max_azimuth) * 0.5).to::<Radian>();
-        let cos_hw = half_width.cos();
-
-        let f = make_az_cosine_fn(
-            target,
-            &query.observer,
-            mid,
-            cos_hw,
-            query.correction_policy,
-        );
-        let outside = intervals::above_threshold_periods(query.window, step, &f, Radians::new(0.0));
-        complement_within(query.window, &outside)
+    let window = query.window;
+    if window.end <= window.start {
+        return Vec::new();
+    }
+    let step = scan_step_for(target, &query.opts);
+    let min = query.min_azimuth.to::<Radian>();
+    let max = query.max_azimuth.to::<Radian>();
+    let span = (max - min).value();
+    if span >= TAU {
+        return vec![window];
+    }
+    let width = span.rem_euclid(TAU);
+
+    let mut cuts: Vec<ModifiedJulianDate> = [min, max]
+        .into_iter()
+        .flat_map(|bearing| {
+            find_bearing_crossings(
+                target,
+                &query.observer,
+                window,
+                bearing,
+                step,
+                query.correction_policy,
+            )
+        })
+        .map(|crossing| crossing.t)
+        .collect();
+    cuts.push(window.end);
+    cuts.sort_by(|a, b| a.raw().value().total_cmp(&b.raw().value()));
+
+    let mut periods: Vec<Interval<ModifiedJulianDate>> = Vec::new();
+    let mut start = window.start;
+    for end in cuts {
+        if end <= start {
+            continue;
+        }
+        let mid = ModifiedJulianDate::new((start.raw() + (end.raw() - start.raw()) * 0.5).value());
+        let az = target.azimuth_at_with_policy(&query.observer, mid, query.correction_policy);
+        if (az - min).value().rem_euclid(TAU) <= width {
+            match periods.last_mut() {
+                Some(last) if last.end >= start => last.end = end,
+                _ => periods.push(Interval::new(start, end)),
+            }
+        }
+        start = end;
     }
+    periods
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From f8e0ddd92c7f34c0e496deca21960beefd368357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 36/67] fix: culminations close to the ends of the window were
 missed

---
 src/event/search/extrema.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/event/search/extrema.rs b/src/event/search/extrema.rs
index b365a30..a04f7b0 100644
--- a/src/event/search/extrema.rs
+++ b/src/event/search/extrema.rs
@@ -61,6 +61,9 @@ const MAX_ITER: usize = 100;
 /// Small probe offset for classification (in the caller's time unit).
 const PROBE_EPS: Days = Days::new(1e-7);
 
+/// Shortest first and last interval of an extrema scan (days).
+const EDGE_PROBE: Days = Days::new(1e-8);
+
 // ---------------------------------------------------------------------------
 // Types
 // ---------------------------------------------------------------------------
@@ -245,24 +248,27 @@ where
         return result;
     }
 
+    // The first and the last interval are short, so that an extremum close to
+    // an end of the period still shows as a change of slope.
+    let length = t_end_v.raw() - t_start_v.raw();
+    let edge = (step_v.min(length) * 1e-3)
+        .max(EDGE_PROBE)
+        .min(length * 0.5);
+    let t_last = crate::time::ModifiedJulianDate::new((t_end_v.raw() - edge).value());
+
     let mut t0 = t_start_v;
     let mut f0 = f(t0);
-    let mut t1 = {
-        let t_next = crate::time::ModifiedJulianDate::new((t0.raw() + step_v).value());
-        if t_next.raw() <= t_end_v.raw() {
-            t_next
-        } else {
-            t_end_v
-        }
-    };
+    let mut t1 = crate::time::ModifiedJulianDate::new((t0.raw() + edge).value());
     let mut f1 = f(t1);
     let mut prev_rising = f1 > f0;
 
     loop {
         let t2 = {
             let t_next = crate::time::ModifiedJulianDate::new((t1.raw() + step_v).value());
-            if t_next.raw() <= t_end_v.raw() {
+            if t_next < t_last {
                 t_next
+            } else if t1 < t_last {
+                t_last
             } else {
                 t_end_v
             }
-- 
2.43.0


From e8eeb30a49c243b5b7e2f17b3378827668f1276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 37/67] fix: altitude crossings dropped by the polynomial root
 finder were lost

---
 src/event/search/crossings.rs | 68 ++++++++++++++++++++++++++++++++---
 1 file changed, 64 insertions(+), 4 deletions(-)

diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index 18a107e..dea6213 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -22,6 +22,8 @@ type Mjd = ModifiedJulianDate;
 pub(crate) const POLY_ZERO_TOL: f64 = 1e-12;
 const MIN_SEGMENT_DAYS: f64 = 1e-6;
 const TAIL_NORM_COEFFS: usize = 4;
+/// Samples per polynomial degree when a segment's sign pattern is read off its fit.
+const SIGN_SAMPLES_PER_DEGREE: usize = 4;
 
 /// Runtime counters for Chebyshev crossing searches.
 #[derive(Debug, Default, Clone, Copy)]
@@ -200,8 +202,18 @@ where
     let roots = poly.roots_with(root_opts);
     search.diagnostics.polynomial_roots += roots.len();
 
+    // The fit is good here, so a fallback has to resolve at least what the
+    // polynomial does; the configured step may be much coarser.
+    let samples = SIGN_SAMPLES_PER_DEGREE * degree;
+    let fine_step = Days::new(segment.span_days() / samples as f64);
+    let fine_step = if fine_step < search.fallback_step {
+        fine_step
+    } else {
+        search.fallback_step
+    };
+
     if roots.is_empty() && segment_has_hidden_sign_change(search, segment) {
-        fallback_segment(search, segment);
+        fallback_segment_with_step(search, segment, fine_step);
         return;
     }
 
@@ -209,7 +221,7 @@ where
     for root_x in roots {
         let slope = derivative.evaluate(root_x).abs();
         if slope < search.opts.chebyshev.min_slope {
-            fallback_segment(search, segment);
+            fallback_segment_with_step(search, segment, fine_step);
             return;
         }
 
@@ -222,12 +234,26 @@ where
             search.opts,
             search.diagnostics,
         ) else {
-            fallback_segment(search, segment);
+            fallback_segment_with_step(search, segment, fine_step);
             return;
         };
         segment_crossings.push(crossing);
     }
 
+    // The polynomial root finder can drop roots (close to the segment ends in
+    // particular); crossings that do not explain the polynomial's signs are
+    // searched for by scanning.
+    segment_crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap_or(std::cmp::Ordering::Equal));
+    let noise = search.opts.chebyshev.max_tail_norm + search.opts.chebyshev.max_residual;
+    let signs = (0..=samples).map(|k| {
+        let x = -1.0 + 2.0 * k as f64 / samples as f64;
+        (segment.time_from_unit(x), poly.evaluate(x))
+    });
+    if !crossings_explain_signs(&segment_crossings, signs, noise) {
+        fallback_segment_with_step(search, segment, fine_step);
+        return;
+    }
+
     search.out.extend(segment_crossings);
 }
 
@@ -276,14 +302,48 @@ where
     false
 }
 
+/// `true` if sorted `crossings` account for every sign in `samples`, a series of
+/// (time, residual) pairs in time order. Residuals within `noise` are not judged.
+fn crossings_explain_signs(
+    crossings: &[LabeledCrossing],
+    samples: impl Iterator<Item = (Mjd, f64)>,
+    noise: f64,
+) -> bool {
+    let mut above: Option<bool> = None;
+    let mut pending = crossings.iter().peekable();
+    for (t, residual) in samples {
+        while let Some(crossing) = pending.next_if(|crossing| crossing.t <= t) {
+            let rising = crossing.direction > 0;
+            if above == Some(rising) {
+                return false;
+            }
+            above = Some(rising);
+        }
+        if residual.abs() > noise {
+            if above == Some(residual < 0.0) {
+                return false;
+            }
+            above = Some(residual > 0.0);
+        }
+    }
+    true
+}
+
 fn fallback_segment<F>(search: &mut SegmentSearch<'_, F>, segment: Segment)
+where
+    F: Fn(Mjd) -> f64,
+{
+    fallback_segment_with_step(search, segment, search.fallback_step);
+}
+
+fn fallback_segment_with_step<F>(search: &mut SegmentSearch<'_, F>, segment: Segment, step: Days)
 where
     F: Fn(Mjd) -> f64,
 {
     search.diagnostics.fallback_segments += 1;
     search.out.extend(scan_fallback::scan_labelled_crossings(
         segment.as_interval(),
-        search.fallback_step,
+        step,
         search.signal,
         search.threshold_sin,
         search.opts.time_tolerance,
-- 
2.43.0


From 7c6f3c0c13f55fe82dcc82e6b4e0a467c730e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 38/67] fix: an event exactly on a scan sample was missed

---
 src/event/search/intervals.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/event/search/intervals.rs b/src/event/search/intervals.rs
index d0881ca..4d0eb1c 100644
--- a/src/event/search/intervals.rs
+++ b/src/event/search/intervals.rs
@@ -103,7 +103,9 @@ where
         };
         let next_v = g(next_t);
 
-        if (prev < zero && next_v > zero) || (prev > zero && next_v < zero) {
+        // A sample exactly on the threshold counts as below it, so that a
+        // crossing there belongs to one of its two intervals.
+        if !prev.is_nan() && !next_v.is_nan() && (prev > zero) != (next_v > zero) {
             if let Some(root_t) =
                 root_finding::brent_with_values(Interval::new(t, next_t), prev, next_v, g)
             {
-- 
2.43.0


From 26447a01412d30b4ec4e979aabe3a446b6914525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 39/67] fix: altitude periods overlapped after a gap in the
 altitude data

---
 src/event/search/intervals.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/event/search/intervals.rs b/src/event/search/intervals.rs
index 4d0eb1c..91bdd6b 100644
--- a/src/event/search/intervals.rs
+++ b/src/event/search/intervals.rs
@@ -392,15 +392,19 @@ pub fn build_above_periods_directed(
     while i < labeled.len() {
         if labeled[i].direction == 1 {
             let enter_t = labeled[i].t;
-            let exit_t = if i + 1 < labeled.len() && labeled[i + 1].direction == -1 {
-                let t = labeled[i + 1].t;
-                i += 2;
+            // Without a value in between (a gap in the data) a rise can follow a
+            // rise; it is part of the period that is already open.
+            i += 1;
+            while i < labeled.len() && labeled[i].direction == 1 {
+                i += 1;
+            }
+            let exit_t = if i < labeled.len() {
+                let t = labeled[i].t;
+                i += 1;
                 t
             } else {
-                i += 1;
                 t_end
             };
-
             if enter_t < exit_t {
                 periods.push(Interval::new(enter_t, exit_t));
             }
-- 
2.43.0


From e6764ba3d80cb9a18bd5108521b90ebd35884592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 40/67] fix: an unusable scan step made Moon phase searches run
 forever

---
 src/event/lunar/phase.rs | 43 ++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/event/lunar/phase.rs b/src/event/lunar/phase.rs
index e38a867..0f514da 100644
--- a/src/event/lunar/phase.rs
+++ b/src/event/lunar/phase.rs
@@ -574,7 +574,8 @@ pub struct PhaseSearchOpts {
     /// Time tolerance for Brent root refinement (days).
     /// Default: ~86 µs (1 × 10⁻⁹ days ≈ 0.086 ms).
     pub time_tolerance: Days,
-    /// Scan step for coarse bracketing (days).
+    /// Scan step for coarse bracketing (days); the default is used if it is not
+    /// positive.
     /// Default: 0.5 days.
     pub scan_step: Days,
 }
@@ -588,6 +589,18 @@ impl Default for PhaseSearchOpts {
     }
 }
 
+impl PhaseSearchOpts {
+    /// The scan step to use: a step that is not positive would never reach the
+    /// end of a window, the default takes its place.
+    fn effective_scan_step(&self) -> Days {
+        if self.scan_step > Days::new(0.0) {
+            self.scan_step
+        } else {
+            PHASE_SCAN_STEP
+        }
+    }
+}
+
 /// Find all principal phase events in a time `window`.
 ///
 /// Locates the instants when the geocentric Moon–Sun elongation equals
@@ -628,7 +641,7 @@ pub fn find_phase_events<E: Ephemeris>(
     opts: PhaseSearchOpts,
 ) -> Vec<PhaseEvent> {
     let mut events = Vec::new();
-    let step = opts.scan_step;
+    let step = opts.effective_scan_step();
     let _tol = opts.time_tolerance;
 
     for kind in PhaseKind::ALL {
@@ -694,7 +707,7 @@ pub struct MoonPhaseSeries<E: Ephemeris> {
 
 impl<E: Ephemeris> MoonPhaseSeries<E> {
     /// Sample geocentric Moon phase geometry from `start` to `end`
-    /// (inclusive) at intervals of `step`.
+    /// (inclusive) at intervals of `step`; only `start` if `step` is not positive.
     ///
     /// # Returns
     ///
@@ -711,13 +724,18 @@ impl<E: Ephemeris> MoonPhaseSeries<E> {
             let jd: JulianDate = t.to::<crate::JD>();
             let geom = moon_phase_geocentric::<E>(jd);
             results.push((t, geom));
-            t = crate::time::ModifiedJulianDate::new((t.raw() + step).value());
+            let next = (t.raw() + step).value();
+            if next.is_nan() || next <= t.raw().value() {
+                break;
+            }
+            t = crate::time::ModifiedJulianDate::new(next);
         }
         results
     }
 
     /// Sample topocentric Moon phase geometry from `start` to `end`
-    /// (inclusive) at intervals of `step` for a given observer location.
+    /// (inclusive) at intervals of `step` for a given observer location; only
+    /// `start` if `step` is not positive.
     ///
     /// # Arguments
     ///
@@ -742,7 +760,11 @@ impl<E: Ephemeris> MoonPhaseSeries<E> {
             let jd: JulianDate = t.to::<crate::JD>();
             let geom = moon_phase_topocentric::<E>(jd, site);
             results.push((t, geom));
-            t = crate::time::ModifiedJulianDate::new((t.raw() + step).value());
+            let next = (t.raw() + step).value();
+            if next.is_nan() || next <= t.raw().value() {
+                break;
+            }
+            t = crate::time::ModifiedJulianDate::new(next);
         }
         results
     }
@@ -790,7 +812,12 @@ pub fn illumination_above<E: Ephemeris>(
     k_min: IlluminationFractions,
     opts: PhaseSearchOpts,
 ) -> Vec<Interval<ModifiedJulianDate>> {
-    intervals::above_threshold_periods(window, opts.scan_step, &illumination_at_mjd::<E>, k_min)
+    intervals::above_threshold_periods(
+        window,
+        opts.effective_scan_step(),
+        &illumination_at_mjd::<E>,
+        k_min,
+    )
 }
 
 /// Find all time windows in `window` where the geocentric illuminated
@@ -856,7 +883,7 @@ pub fn illumination_range<E: Ephemeris>(
 ) -> Vec<Interval<ModifiedJulianDate>> {
     intervals::in_range_periods(
         window,
-        opts.scan_step,
+        opts.effective_scan_step(),
         &illumination_at_mjd::<E>,
         k_min,
         k_max,
-- 
2.43.0


From 54312ca09148e2e1e56b74a2eabd27fbfebcedca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 41/67] fix: sunrises and sunsets were lost, doubled or
 reported as each other

---
 src/event/solar/daily_events.rs | 62 ++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 4 deletions(-)

diff --git a/src/event/solar/daily_events.rs b/src/event/solar/daily_events.rs
index ae097af..e0c1c8b 100644
--- a/src/event/solar/daily_events.rs
+++ b/src/event/solar/daily_events.rs
@@ -24,6 +24,15 @@ use crate::time::{Interval, JulianDate, ModifiedJulianDate};
 use super::altitude::sun_altitude_rad;
 
 const GRAZE_EPS: f64 = 1e-3;
+/// How far the Sun's declination moves at most between the middle of a day, where
+/// it is evaluated, and the culminations attributed to that day (rad).
+const DAILY_DRIFT: f64 = 7e-3;
+/// Distance from the middle of a day beyond which a transit is close to the next
+/// one (days; solar days differ by up to 30 s).
+const TRANSIT_EDGE: Days = Days::new(0.499);
+/// Crossings in the same direction closer than this are one (about 1 s).
+const SAME_CROSSING_EPS: Days = Days::new(1e-5);
+
 /// Hour-angle rate used for candidate spacing (rad per mean solar day).
 const HA_RATE_RAD_PER_DAY: f64 = std::f64::consts::TAU;
 
@@ -176,10 +185,31 @@ impl SolarEventContext {
             while full_day_start <= last_day_start {
                 let full_day_end = add_days(full_day_start, ONE_DAY);
                 let full_day = Interval::new(full_day_start, full_day_end);
+                let state = solar_daily_state(site, full_day);
                 days.push(SolarDayWindow {
                     transit_day: full_day,
-                    state: solar_daily_state(site, full_day),
+                    state,
                 });
+                // Successive transits are not exactly one day apart: one close to
+                // the boundary of two days can be attributed to neither.
+                if let Some(mut state) = state {
+                    let offset = state.approx_transit.raw() - midpoint(full_day).raw();
+                    if offset.abs() > TRANSIT_EDGE {
+                        let shift = if offset > Days::new(0.0) {
+                            -ONE_DAY
+                        } else {
+                            ONE_DAY
+                        };
+                        state.approx_transit = add_days(state.approx_transit, shift);
+                        days.push(SolarDayWindow {
+                            transit_day: Interval::new(
+                                add_days(full_day.start, shift),
+                                add_days(full_day.end, shift),
+                            ),
+                            state: Some(state),
+                        });
+                    }
+                }
                 full_day_start = full_day_end;
             }
         }
@@ -381,9 +411,10 @@ fn predict_day_crossings(
     }
 
     let cos_h0 = (thr_sin - sin_lat * state.sin_dec) / denom;
-    let case = if cos_h0 > 1.0 + GRAZE_EPS {
+    let graze = GRAZE_EPS + DAILY_DRIFT / denom.abs();
+    let case = if cos_h0 > 1.0 + graze {
         DayThresholdCase::AlwaysBelow
-    } else if cos_h0 < -1.0 - GRAZE_EPS {
+    } else if cos_h0 < -1.0 - graze {
         DayThresholdCase::AlwaysAbove
     } else if !(-1.0..=1.0).contains(&cos_h0)
         || (cos_h0 + 1.0).abs() < GRAZE_EPS
@@ -449,6 +480,12 @@ fn predict_day_crossings(
                     opts,
                     diagnostics,
                 ) {
+                    // The search is confined to the window: without the predicted
+                    // crossing in it, it can end on the opposite one.
+                    Some(root) if !crosses_in_direction(root, candidate.direction, fast_ctx) => {
+                        failed = true;
+                        diagnostics.bracket_failures += 1;
+                    }
                     Some(root) => {
                         if root >= query_window.start && root <= query_window.end {
                             refined.push(LabeledCrossing {
@@ -503,6 +540,18 @@ fn predict_solar_threshold_candidates(
     ]
 }
 
+/// `true` if the Sun's altitude changes in `direction` at `t` (fast model).
+fn crosses_in_direction(
+    t: ModifiedJulianDate,
+    direction: i32,
+    fast_ctx: &SolarAltitudeSiteContext,
+) -> bool {
+    let probe = Minutes::new(1.0).to::<Day>();
+    let before = solar_sin_altitude_fast(add_days(t, -probe), fast_ctx);
+    let after = solar_sin_altitude_fast(add_days(t, probe), fast_ctx);
+    (after > before) == (direction > 0)
+}
+
 fn candidate_near_query_window(
     candidate: SolarThresholdCandidate,
     query_window: Interval<ModifiedJulianDate>,
@@ -951,7 +1000,12 @@ pub(crate) fn solar_twilight_profile_impl(
 
 fn sort_dedup_labelled(crossings: &mut Vec<LabeledCrossing>) {
     crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap_or(std::cmp::Ordering::Equal));
-    crossings.dedup_by(|a, b| (a.t.raw() - b.t.raw()).abs() < CROSSING_DEDUPE_EPS);
+    // One crossing found from two days differs by more the slower the Sun moves
+    // through the threshold; there are no two in the same direction that close.
+    crossings.dedup_by(|a, b| {
+        let apart = (a.t.raw() - b.t.raw()).abs();
+        apart < CROSSING_DEDUPE_EPS || (a.direction == b.direction && apart < SAME_CROSSING_EPS)
+    });
 }
 
 #[cfg(test)]
-- 
2.43.0


From d0ffeac28e6f29bc9992785d1825a70909164f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 42/67] fix: eclipses and occultations used the wrong angular
 radius and ignored which body is in front

---
 src/mission/geometry/occultation.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mission/geometry/occultation.rs b/src/mission/geometry/occultation.rs
index b7463e6..82d7315 100644
--- a/src/mission/geometry/occultation.rs
+++ b/src/mission/geometry/occultation.rs
@@ -68,8 +68,19 @@ where
     if nt == 0.0 || no == 0.0 {
         return 0.0;
     }
-    let app_t = (tr / nt).atan(); // angular radius of target
-    let app_o = (or_ / no).atan(); // angular radius of occulter
+    // A sphere seen from outside fills the cone of half-angle asin(r / d); an
+    // observer inside the occulter sees nothing else.
+    let app_t = (tr / nt).min(1.0).asin(); // angular radius of target
+    let app_o = if or_ >= no {
+        PI
+    } else {
+        (or_ / no).asin() // angular radius of occulter
+    };
+    // Along any ray that meets both (disjoint) spheres, the nearer one has the
+    // smaller tangent length; an occulter behind the target hides nothing.
+    if no * no - or_ * or_ >= nt * nt - tr * tr {
+        return 0.0;
+    }
     let cos_sep = d_t.dot(&d_o).value() / (nt * no);
     let sep = cos_sep.clamp(-1.0, 1.0).acos();
     // Apparent target area
-- 
2.43.0


From cfa95d8c8726249cd6217e4a7fff84de1fa73202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 43/67] fix: terrain masks with negative azimuths were sorted
 before wrapping

---
 src/mission/geometry/terrain_mask.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mission/geometry/terrain_mask.rs b/src/mission/geometry/terrain_mask.rs
index 4d31e4d..a7a3646 100644
--- a/src/mission/geometry/terrain_mask.rs
+++ b/src/mission/geometry/terrain_mask.rs
@@ -19,12 +19,12 @@ pub struct TerrainMask {
 impl TerrainMask {
     /// Build a terrain mask from `(azimuth, elevation)` samples. Empty
     /// inputs produce a flat zero mask.
-    pub fn new(mut samples: Vec<(Radians, Radians)>) -> Self {
-        samples.sort_by(|a, b| a.0.value().partial_cmp(&b.0.value()).unwrap());
-        let s = samples
+    pub fn new(samples: Vec<(Radians, Radians)>) -> Self {
+        let mut s: Vec<(f64, f64)> = samples
             .into_iter()
             .map(|(a, e)| (a.value().rem_euclid(core::f64::consts::TAU), e.value()))
             .collect();
+        s.sort_by(|a, b| a.0.total_cmp(&b.0));
         Self { samples: s }
     }
 
-- 
2.43.0


From 3dc94b83b3839916e85e0833d06769359a3de886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 44/67] fix: elevation was undefined for a target exactly
 overhead

---
 src/mission/geometry/az_el_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mission/geometry/az_el_range.rs b/src/mission/geometry/az_el_range.rs
index cc5d965..93b727c 100644
--- a/src/mission/geometry/az_el_range.rs
+++ b/src/mission/geometry/az_el_range.rs
@@ -91,7 +91,7 @@ where
     if az < 0.0 {
         az += TAU;
     }
-    let el = u_comp.asin();
+    let el = u_comp.clamp(-1.0, 1.0).asin();
 
     // Range rate = (v_target - v_observer) · LOS direction.
     let rel_v = target_vel - observer_vel;
-- 
2.43.0


From 9aa060fffdc61e87b64a73966c02a172348969cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 45/67] fix: GCRS to CIRS rotations tilted the celestial pole
 the wrong way

---
 src/astro/cio.rs                     | 21 ++++++++-------------
 src/astro/earth_rotation_provider.rs |  9 ++++-----
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/astro/cio.rs b/src/astro/cio.rs
index 9250fb0..71c9777 100644
--- a/src/astro/cio.rs
+++ b/src/astro/cio.rs
@@ -24,7 +24,7 @@
 //! bias-precession-nutation (NPB) matrix rather than truncated series. The
 //! CIO locator is implemented in the simplified high-accuracy form
 //! `s ≈ −½ X Y`, sufficient for ~1 μas precision. The intermediate-frame
-//! rotation `Q(t) = R₃(−E)·R₂(−d)·R₃(E)·R₃(s)` with
+//! rotation `Q(t) = R₃(−(E + s))·R₂(d)·R₃(E)` with
 //! `E = atan2(Y, X)`, `d = acos(√(1 − X² − Y²))` is built directly from
 //! `affn::Rotation3` factors.
 //!
@@ -119,7 +119,7 @@ pub fn cip_cio(jd: JulianDate, dpsi: Radians, deps: Radians) -> CipCio {
 /// (CIRS), using the CIP coordinates (X, Y) and CIO locator s.
 ///
 /// ```text
-/// Q(t) = R₃(−E)·R₂(−d)·R₃(E + s)
+/// Q(t) = R₃(−(E + s))·R₂(d)·R₃(E)
 /// ```
 ///
 /// where `E = atan2(Y, X)`, `d = acos(√(1 − X² − Y²))`.
@@ -136,8 +136,8 @@ pub fn gcrs_to_cirs_matrix(x: CipCoordinates, y: CipCoordinates, s: Radians) ->
     let (se, ce) = e.sin_cos();
     let (sd, cd) = d.sin_cos();
 
-    // R₃(-(E+s)) · R₂(-d) · R₃(E)
-    // Following SOFA's iauC2ixys construction:
+    // R₃(−(E+s)) · R₂(d) · R₃(E), following SOFA's iauC2ixys construction. The
+    // bottom row is the CIP unit vector (X, Y, Z) in the GCRS.
     let es = e + s.value();
     let (ses, ces) = es.sin_cos();
 
@@ -146,25 +146,20 @@ pub fn gcrs_to_cirs_matrix(x: CipCoordinates, y: CipCoordinates, s: Radians) ->
         [
             ces * cd * ce + ses * se,
             ces * cd * se - ses * ce,
-            ces * sd,
+            -ces * sd,
         ],
         [
             ses * cd * ce - ces * se,
             ses * cd * se + ces * ce,
-            ses * sd,
+            -ses * sd,
         ],
         [
-            -sd * ce,
-            -sd * se,
+            sd * ce,
+            sd * se,
             cd,
         ],
     ];
 
-    // The matrix above is Q^T (intermediate-to-celestial). We need Q (celestial-to-intermediate).
-    // Actually, SOFA's C2IXYS returns the celestial-to-intermediate matrix directly.
-    // Let's verify: at J2000 with X≈0, Y≈0, s≈0, this should be ≈ identity.
-    // E = atan2(0,0) = 0, d = 0, s = 0.
-    // m[0][0] = 1, m[1][1] = 1, m[2][2] = 1. ✓
     Rotation3::from_matrix_unchecked(m)
 }
 
diff --git a/src/astro/earth_rotation_provider.rs b/src/astro/earth_rotation_provider.rs
index 6d1d709..e4c3707 100644
--- a/src/astro/earth_rotation_provider.rs
+++ b/src/astro/earth_rotation_provider.rs
@@ -21,7 +21,7 @@
 //! The chain implemented is
 //!
 //! ```text
-//! ITRS  ──W⁻¹──▶  TIRS  ──ERA──▶  CIRS  ──Q──▶  GCRS/ICRS  ──P──▶  EquatorialMeanJ2000
+//! ITRS  ──W⁻¹──▶  TIRS  ──ERA──▶  CIRS  ──Q⁻¹──▶  GCRS/ICRS  ──P──▶  EquatorialMeanJ2000
 //! ```
 //!
 //! with **W** the polar-motion matrix `(xₚ, yₚ, s′)` from EOP, **ERA** the
@@ -111,10 +111,9 @@ pub(crate) fn itrs_to_equatorial_mean_j2000_rotation<Eph, Eop: EopProvider, Nut:
     let w = polar_motion_matrix_from_eop(eop.xp, eop.yp, jd);
     let era = earth_rotation_angle(jd_ut1);
 
-    // NOTE: `cio::gcrs_to_cirs_matrix` and `Rotation3::rz` conventions are
-    // aligned such that this composition matches the SOFA chain for
-    // ITRS -> GCRS in this codebase.
-    let itrs_to_gcrs = q * affn::Rotation3::rz(-era) * w.inverse();
+    // NOTE: the sense of `Rotation3::rz(-era)` is pinned by
+    // tests/test_high_precision_earth_rotation_regression.rs.
+    let itrs_to_gcrs = q.inverse() * affn::Rotation3::rz(-era) * w.inverse();
     let icrs_to_j2000 =
         <() as FrameRotationProvider<ICRS, EquatorialMeanJ2000>>::rotation::<Eph, Eop, Nut>(
             jd, ctx,
-- 
2.43.0


From f74502dd247e917c0248016d2ab6def71a572531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 46/67] fix: observer positions ignored the context's Earth
 orientation values

---
 src/astro/earth_rotation_provider.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/astro/earth_rotation_provider.rs b/src/astro/earth_rotation_provider.rs
index e4c3707..2eb8018 100644
--- a/src/astro/earth_rotation_provider.rs
+++ b/src/astro/earth_rotation_provider.rs
@@ -37,7 +37,7 @@
 //! * SOFA Earth-rotation cookbook (`iauC2t06a` and friends)
 
 use crate::astro::cio;
-use crate::astro::earth_rotation::{jd_ut1_from_tt_eop, try_jd_utc_from_tt};
+use crate::astro::earth_rotation::jd_ut1_from_tt_eop;
 use crate::astro::eop::{EopProvider, EopValues};
 use crate::astro::era::earth_rotation_angle;
 use crate::astro::nutation::NutationModel;
@@ -99,10 +99,7 @@ pub(crate) fn itrs_to_equatorial_mean_j2000_rotation<Eph, Eop: EopProvider, Nut:
     jd: JulianDate,
     ctx: &AstroContext<Eph, Eop>,
 ) -> affn::Rotation3 {
-    let eop = match try_jd_utc_from_tt(jd) {
-        Ok(jd_utc) => ctx.eop_at(jd_utc),
-        Err(_) => EopValues::default(),
-    };
+    let eop = ctx.eop_at_tt(jd);
     let jd_ut1 = jd_ut1_from_tt_eop(jd, &eop);
 
     let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, eop);
-- 
2.43.0


From 0e464e3cfdedfde7525be0cbd6bbc95eebe65aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 47/67] fix: celestial pole offsets were dropped on some paths
 to the true equator of date

---
 .../transform/providers/frames_inertial.rs    | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/coordinates/transform/providers/frames_inertial.rs b/src/coordinates/transform/providers/frames_inertial.rs
index cced261..25a464b 100644
--- a/src/coordinates/transform/providers/frames_inertial.rs
+++ b/src/coordinates/transform/providers/frames_inertial.rs
@@ -165,10 +165,11 @@ impl FrameRotationProvider<EquatorialMeanOfDate, EquatorialTrueOfDate> for () {
     #[inline]
     fn rotation<Eph, Eop: EopProvider, Nut: NutationModel>(
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        let nut = Nut::nutation(jd);
-        Rotation3::fused_rx_rz_rx(nut.mean_obliquity + nut.deps, nut.dpsi, -nut.mean_obliquity)
+        let mean_obliquity = Nut::nutation(jd).mean_obliquity;
+        let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, ctx.eop_at_tt(jd));
+        Rotation3::fused_rx_rz_rx(mean_obliquity + deps, dpsi, -mean_obliquity)
     }
 }
 
@@ -186,11 +187,10 @@ impl FrameRotationProvider<EquatorialMeanJ2000, EquatorialTrueOfDate> for () {
     #[inline]
     fn rotation<Eph, Eop: EopProvider, Nut: NutationModel>(
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        let nut = Nut::nutation(jd);
-        precession::precession_nutation_matrix(jd, nut.dpsi, nut.deps)
-            * bias::frame_bias_j2000_to_icrs()
+        let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, ctx.eop_at_tt(jd));
+        precession::precession_nutation_matrix(jd, dpsi, deps) * bias::frame_bias_j2000_to_icrs()
     }
 }
 
@@ -198,12 +198,11 @@ impl FrameRotationProvider<EquatorialTrueOfDate, EquatorialMeanJ2000> for () {
     #[inline]
     fn rotation<Eph, Eop: EopProvider, Nut: NutationModel>(
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        let nut = Nut::nutation(jd);
-        (precession::precession_nutation_matrix(jd, nut.dpsi, nut.deps)
-            * bias::frame_bias_j2000_to_icrs())
-        .inverse()
+        let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, ctx.eop_at_tt(jd));
+        (precession::precession_nutation_matrix(jd, dpsi, deps) * bias::frame_bias_j2000_to_icrs())
+            .inverse()
     }
 }
 
-- 
2.43.0


From d55b915e5489d1cc14c885fbd2057fe08e5b09ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 48/67] fix: UT1-UTC was interpolated across leap seconds

---
 src/formats/iers/eop.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/formats/iers/eop.rs b/src/formats/iers/eop.rs
index a6bd5e5..efe122d 100644
--- a/src/formats/iers/eop.rs
+++ b/src/formats/iers/eop.rs
@@ -122,7 +122,8 @@ pub fn read_eop_c04<R: Read>(rdr: R) -> Result<Vec<EopRecord>, FormatError> {
 /// Linear interpolation of an EOP record at a target MJD.
 ///
 /// Returns `None` if the table is empty; clamps to the endpoints when the
-/// requested epoch lies outside the table range.
+/// requested epoch lies outside the table range. UT1−UTC is continuous up to a
+/// leap second and jumps where it takes effect.
 pub fn interpolate(records: &[EopRecord], mjd: ModifiedJulianDate<UTC>) -> Option<EopRecord> {
     if records.is_empty() {
         return None;
@@ -150,12 +151,15 @@ pub fn interpolate(records: &[EopRecord], mjd: ModifiedJulianDate<UTC>) -> Optio
     let b_val = b.mjd.raw().value();
     let t_val = mjd.raw().value();
     let f = (t_val - a_val) / (b_val - a_val);
+    // UT1−UTC jumps by a whole second where a leap second takes effect, which is
+    // at the end of the interval; up to there it continues from the first record.
+    let b_dut1 = b.eop.dut1.value() - (b.eop.dut1.value() - a.eop.dut1.value()).round();
     Some(EopRecord {
         mjd,
         eop: EopValues {
             xp: Arcseconds::new(a.eop.xp.value() + f * (b.eop.xp.value() - a.eop.xp.value())),
             yp: Arcseconds::new(a.eop.yp.value() + f * (b.eop.yp.value() - a.eop.yp.value())),
-            dut1: Seconds::new(a.eop.dut1.value() + f * (b.eop.dut1.value() - a.eop.dut1.value())),
+            dut1: Seconds::new(a.eop.dut1.value() + f * (b_dut1 - a.eop.dut1.value())),
             lod: Seconds::new(a.eop.lod.value() + f * (b.eop.lod.value() - a.eop.lod.value())),
             dx: MilliArcseconds::new(a.eop.dx.value() + f * (b.eop.dx.value() - a.eop.dx.value())),
             dy: MilliArcseconds::new(a.eop.dy.value() + f * (b.eop.dy.value() - a.eop.dy.value())),
-- 
2.43.0


From b08cc9f33139f602baaf5140ba222eec3985b2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 49/67] fix: Earth rotation panicked for dates past the
 published Delta-T predictions

---
 src/astro/earth_rotation.rs | 39 +++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/astro/earth_rotation.rs b/src/astro/earth_rotation.rs
index ce8104b..1131b4d 100644
--- a/src/astro/earth_rotation.rs
+++ b/src/astro/earth_rotation.rs
@@ -53,6 +53,27 @@ use crate::astro::sidereal::gmst_iau2006;
 use crate::qtty::*;
 use crate::time::{JulianDate, TimeContext, TT, UT1};
 
+/// JD(UT1) for JD(TT) under `ctx`, as a plain day count.
+///
+/// Past the last published ΔT prediction the conversion itself refuses to
+/// answer; the model's extrapolation takes over there.
+fn jd_ut1_days(jd_tt: JulianDate, ctx: &TimeContext) -> f64 {
+    let jd_tt: tempoch::JulianDate<TT> = jd_tt;
+    match jd_tt.to_with::<UT1>(ctx) {
+        Ok(ut1) => ut1.to::<tempoch::JD>().raw().value(),
+        Err(tempoch::ConversionError::Ut1HorizonExceeded) => {
+            let tt = jd_tt.raw();
+            let mut ut1 = tt;
+            // ΔT is tabulated against UT1: iterate, as it drifts by < 1 ms a day.
+            for _ in 0..3 {
+                ut1 = tt - tempoch::delta_t_seconds_extrapolated(ut1).to::<Day>();
+            }
+            ut1.value()
+        }
+        Err(e) => panic!("TT->UT1 conversion should succeed within the model horizon: {e}"),
+    }
+}
+
 /// Compute JD(UT1) from JD(TT) using tempoch's ΔT model.
 ///
 /// This uses the piecewise ΔT model in `tempoch` (Stephenson & Houlden,
@@ -73,11 +94,7 @@ use crate::time::{JulianDate, TimeContext, TT, UT1};
 /// [`tempoch::JulianDate::to_with`] directly to recover a `Result`.
 #[inline]
 pub fn jd_ut1_from_tt(jd_tt: JulianDate) -> JulianDate {
-    let jd_tt: tempoch::JulianDate<crate::time::TT> = jd_tt;
-    let ut1 = jd_tt
-        .to_with::<UT1>(&TimeContext::new())
-        .expect("TT->UT1 conversion should succeed within the bundled model horizon");
-    crate::time::JulianDate::new(ut1.to::<tempoch::JD>().raw().value())
+    crate::time::JulianDate::new(jd_ut1_days(jd_tt, &TimeContext::new()))
 }
 
 /// Compute JD(UTC) from JD(TT) using the active IERS EOP bundle.
@@ -93,12 +110,8 @@ pub fn jd_ut1_from_tt(jd_tt: JulianDate) -> JulianDate {
 /// [`jd_utc_from_tt_delta_t`].
 #[inline]
 pub fn try_jd_utc_from_tt(jd_tt: JulianDate) -> Result<JulianDate, EopError> {
-    let jd_tt_t: tempoch::JulianDate<TT> = jd_tt;
     let ctx = TimeContext::with_builtin_eop();
-    let ut1 = jd_tt_t
-        .to_with::<UT1>(&ctx)
-        .expect("TT->UT1 conversion should succeed within the bundled model horizon");
-    let ut1_jd = ut1.to::<tempoch::JD>().raw().value();
+    let ut1_jd = jd_ut1_days(jd_tt, &ctx);
     let mut utc_jd = ut1_jd;
 
     for _ in 0..3 {
@@ -156,12 +169,8 @@ pub fn jd_utc_from_tt(jd_tt: JulianDate) -> JulianDate {
 /// 4500 BCE through year 3000 CE).
 #[inline]
 pub fn jd_ut1_from_tt_eop(jd_tt: JulianDate, eop: &EopValues) -> JulianDate {
-    let jd_tt_t: tempoch::JulianDate<TT> = jd_tt;
     let ctx = TimeContext::with_builtin_eop();
-    let ut1 = jd_tt_t
-        .to_with::<UT1>(&ctx)
-        .expect("TT->UT1 conversion should succeed within the bundled model horizon");
-    let ut1_jd = ut1.to::<tempoch::JD>().raw().value();
+    let ut1_jd = jd_ut1_days(jd_tt, &ctx);
 
     let mjd_query = qtty::Day::new(ut1_jd - 2_400_000.5);
     let bundled_dut1 = ctx
-- 
2.43.0


From 0ff2a269dd138f6fc9e18f3d46e547eb19125763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 50/67] fix: body-centred conversions ignored the context's
 ephemeris

---
 .../centers/position/to_bodycentric.rs        | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/coordinates/transform/centers/position/to_bodycentric.rs b/src/coordinates/transform/centers/position/to_bodycentric.rs
index 49a1f5b..bbca6ec 100644
--- a/src/coordinates/transform/centers/position/to_bodycentric.rs
+++ b/src/coordinates/transform/centers/position/to_bodycentric.rs
@@ -66,7 +66,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -85,7 +85,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_helio_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -94,7 +95,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_bary_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
         };
@@ -123,7 +125,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -142,7 +144,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> = body_geo_ecl.to_center(jd);
+                let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> =
+                    body_geo_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_helio_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -152,7 +155,7 @@ where
                     body_ecliptic_au.z(),
                 );
                 let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> =
-                    body_bary_ecl.to_center(jd);
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_helio_ecl.to_frame()
             }
         };
@@ -181,7 +184,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -200,7 +203,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> = body_helio_ecl.to_center(jd);
+                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_bary_ecl.to_frame()
             }
             OrbitReferenceCenter::Geocentric => {
@@ -209,7 +213,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> = body_geo_ecl.to_center(jd);
+                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> =
+                    body_geo_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_bary_ecl.to_frame()
             }
         };
@@ -238,7 +243,7 @@ where
         &self,
         _params: (),
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Geocentric, F, U> {
         let body_params = *self.center_params();
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
@@ -258,7 +263,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_helio_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -267,7 +273,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_bary_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
         };
-- 
2.43.0


From 835ed8357d59ce1d51646884728f269b6ade318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 51/67] fix: observer velocities ignored the context's
 ephemeris

---
 src/coordinates/observation/observer_state.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coordinates/observation/observer_state.rs b/src/coordinates/observation/observer_state.rs
index 000c8c6..0d6fe3c 100644
--- a/src/coordinates/observation/observer_state.rs
+++ b/src/coordinates/observation/observer_state.rs
@@ -123,7 +123,7 @@ impl ObserverState {
     }
 
     /// Context-aware topocentric observer state.
-    pub fn topocentric_with_ctx<Eph, Eop: EopProvider, Nut: NutationModel>(
+    pub fn topocentric_with_ctx<Eph: Ephemeris, Eop: EopProvider, Nut: NutationModel>(
         site: &Geodetic<ECEF>,
         jd: JulianDate,
         ctx: &AstroContext<Eph, Eop>,
@@ -132,7 +132,7 @@ impl ObserverState {
         use crate::qtty::{unit, Meter, Seconds};
 
         // Annual (orbital) component: barycentric Earth velocity.
-        let vel_ecl = DefaultEphemeris::earth_barycentric_velocity(jd);
+        let vel_ecl = Eph::earth_barycentric_velocity(jd);
 
         // Transform to equatorial frame
         let mut velocity: Velocity<EquatorialMeanJ2000, AuPerDay> = vel_ecl.to_frame();
@@ -176,7 +176,7 @@ impl ObserverState {
     pub fn topocentric_with<Ctx>(site: &Geodetic<ECEF>, jd: JulianDate, ctx: &Ctx) -> Self
     where
         Ctx: TransformContext,
-        Ctx::Eph: crate::ephemeris::Ephemeris,
+        Ctx::Eph: Ephemeris,
     {
         Self::topocentric_with_ctx::<Ctx::Eph, Ctx::Eop, Ctx::Nut>(site, jd, ctx.astro_context())
     }
-- 
2.43.0


From a771ccfe976b8d1eba0bc3e1787d2cc23570bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:56 +0000
Subject: [PATCH 52/67] fix: positions converted to the horizontal frame had a
 mirrored azimuth, or none near the poles and zenith

---
 .../transform/frames/to_horizontal.rs         | 45 +++++++++----------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/coordinates/transform/frames/to_horizontal.rs b/src/coordinates/transform/frames/to_horizontal.rs
index 9e40394..18060c6 100644
--- a/src/coordinates/transform/frames/to_horizontal.rs
+++ b/src/coordinates/transform/frames/to_horizontal.rs
@@ -85,9 +85,13 @@ fn equatorial_to_horizontal_angles(
     let cos_ha = ha.cos();
 
     // Use precomputed sin/cos of latitude
-    let alt_val = (sin_dec * site_trig.sin_lat + cos_dec * site_trig.cos_lat * cos_ha).asin();
-    let az_val = (-cos_dec * ha.sin())
-        .atan2(sin_dec * site_trig.cos_lat - cos_dec * cos_ha * site_trig.sin_lat);
+    let north = sin_dec * site_trig.cos_lat - cos_dec * cos_ha * site_trig.sin_lat;
+    let east = -cos_dec * ha.sin();
+    let up = sin_dec * site_trig.sin_lat + cos_dec * site_trig.cos_lat * cos_ha;
+    // atan2 stays accurate at the zenith, where asin would lose digits or
+    // leave its domain through rounding.
+    let alt_val = up.atan2(north.hypot(east));
+    let az_val = east.atan2(north);
 
     (
         Quantity::<Radian>::new(alt_val),
@@ -118,13 +122,13 @@ fn horizontal_to_equatorial_angles(
 
     // Calculate declination
     let sin_dec = sin_alt * site_trig.sin_lat + cos_alt * site_trig.cos_lat * az.cos();
-    let dec_val = sin_dec.asin();
 
-    // Calculate hour angle
-    let cos_ha =
-        (sin_alt - site_trig.sin_lat * dec_val.sin()) / (site_trig.cos_lat * dec_val.cos());
-    let sin_ha = -cos_alt * az.sin() / dec_val.cos();
+    // Calculate hour angle (both components carry the factor cos(dec), which
+    // is not negative, so no division that fails at the poles is needed)
+    let cos_ha = sin_alt * site_trig.cos_lat - cos_alt * az.cos() * site_trig.sin_lat;
+    let sin_ha = -cos_alt * az.sin();
     let ha_val = sin_ha.atan2(cos_ha);
+    let dec_val = sin_dec.atan2(cos_ha.hypot(sin_ha));
 
     // Convert hour angle to right ascension
     let gmst = gmst_from_tt(jd);
@@ -152,23 +156,20 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, Horizontal, U>>
         let site = self.center_params();
         let r = self.distance();
 
-        let dec: Radians = if r.value() > 0.0 {
-            Quantity::<Radian>::new((self.z() / r).asin())
-        } else {
-            Quantity::<Radian>::new(0.0)
-        };
-
-        let ra: Radians = Quantity::<Radian>::new((self.y() / r).atan2(self.x() / r));
+        let (x, y, z) = (self.x().value(), self.y().value(), self.z().value());
+        let dec: Radians = Quantity::<Radian>::new(z.atan2(x.hypot(y)));
+        let ra: Radians = Quantity::<Radian>::new(y.atan2(x));
 
         let site_trig = SiteTrig::from_site(site);
         let (alt, az) =
             equatorial_to_horizontal_angles(ra.to::<Deg>(), dec.to::<Deg>(), site, &site_trig, jd);
 
         // Convert back to Cartesian in horizontal frame
-        // In horizontal: x = North, y = West, z = Zenith
+        // In horizontal: x = North, y = East, z = Zenith, so that the azimuth of
+        // the vector is the North-clockwise azimuth of the native convention
         // Trig functions return f64, multiply by Quantity<U> to get Quantity<U>
         let new_x = r * alt.cos() * az.cos();
-        let new_y = -r * alt.cos() * az.sin(); // negative for East-positive azimuth
+        let new_y = r * alt.cos() * az.sin();
         let new_z = r * alt.sin();
 
         cartesian::Position::from_array(*site, [new_x, new_y, new_z])
@@ -191,14 +192,10 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, EquatorialMeanOfD
 
         // Get distance and angles from Cartesian vector
         let r = self.distance();
-        // Division of same units gives Per<U,U> which has .asin() returning f64
-        let alt: Radians = if r.value() > 0.0 {
-            Quantity::<Radian>::new((self.z() / r).asin())
-        } else {
-            Quantity::<Radian>::new(0.0)
-        };
         // atan2 on Quantity<U> values - extract raw values for atan2
-        let az: Radians = Quantity::<Radian>::new((-self.y() / r).atan2(self.x() / r));
+        let (x, y, z) = (self.x().value(), self.y().value(), self.z().value());
+        let alt: Radians = Quantity::<Radian>::new(z.atan2(x.hypot(y)));
+        let az: Radians = Quantity::<Radian>::new(y.atan2(x));
 
         let site_trig = SiteTrig::from_site(site);
         let (ra, dec) = horizontal_to_equatorial_angles(alt, az, site, &site_trig, jd);
-- 
2.43.0


From b8349bebcc374ca1714514f0ea79e266b2045fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:25 +0000
Subject: [PATCH 53/67] fix: body-fixed planetary frames had a mirrored pole
 and spun backwards

---
 src/coordinates/transform/providers/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/coordinates/transform/providers/mod.rs b/src/coordinates/transform/providers/mod.rs
index 5250fc3..78913ff 100644
--- a/src/coordinates/transform/providers/mod.rs
+++ b/src/coordinates/transform/providers/mod.rs
@@ -455,10 +455,9 @@ fn iau_body_fixed_to_icrs(params: &IauRotationParams, jd: JulianDate) -> Rotatio
     let w = params.w(jd).to::<crate::qtty::Radian>();
     let right_angle = crate::qtty::Degrees::new(90.0).to::<crate::qtty::Radian>();
 
-    let z1 = -w;
-    let x = -(right_angle - delta0);
-    let z2 = -(alpha0 + right_angle);
-    Rotation3::from_euler_zxz(z1, x, z2)
+    // Rz(α₀ + 90°) · Rx(90° − δ₀) · Rz(W): the inverse of the IAU sequence
+    // that takes ICRS axes to body-fixed axes.
+    Rotation3::from_euler_zxz(w, right_angle - delta0, alpha0 + right_angle)
 }
 
 /// Computes the center shift from `C1` to `C2` in frame `F`.
-- 
2.43.0


From 14f85b264e5056170ccc5c4b50b61b7e29caec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 54/67] fix: Galactic coordinates were converted with the
 inverse rotation

---
 .../transform/providers/frames_catalog.rs           | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/coordinates/transform/providers/frames_catalog.rs b/src/coordinates/transform/providers/frames_catalog.rs
index a01fab2..e596703 100644
--- a/src/coordinates/transform/providers/frames_catalog.rs
+++ b/src/coordinates/transform/providers/frames_catalog.rs
@@ -13,20 +13,21 @@
 use super::*;
 use crate::coordinates::transform::frames::bias;
 
+/// Columns are the Galactic axes in ICRS: centre, direction of rotation, pole.
 const GALACTIC_TO_ICRS: Rotation3 = Rotation3::from_matrix_unchecked([
     [
         -0.054_875_560_416_215_4,
-        -0.873_437_090_234_885_1,
-        -0.483_835_015_548_713_2,
+        0.494_109_427_875_583_7,
+        -0.867_666_149_019_004_7,
     ],
     [
-        0.494_109_427_875_583_7,
+        -0.873_437_090_234_885_1,
         -0.444_829_629_960_011_2,
-        0.746_982_244_580_286_6,
+        -0.198_076_373_431_201_5,
     ],
     [
-        -0.867_666_149_019_004_7,
-        -0.198_076_373_431_201_5,
+        -0.483_835_015_548_713_2,
+        0.746_982_244_497_218_9,
         0.455_983_776_175_066_9,
     ],
 ]);
-- 
2.43.0


From 2b7c7f6edb048a52faddd9c99ccb7c7b204005c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:46 +0000
Subject: [PATCH 55/67] fix: TLE mean-motion derivatives are printed divided by
 2 and 6

---
 src/astro/sgp4/elements.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/astro/sgp4/elements.rs b/src/astro/sgp4/elements.rs
index 03a3f6a..8e44b78 100644
--- a/src/astro/sgp4/elements.rs
+++ b/src/astro/sgp4/elements.rs
@@ -62,8 +62,9 @@ pub(crate) fn tle_to_elements(tle: &TLE) -> Result<NativeElements, Sgp4Error> {
         argument_of_perigee_rad: tle.argument_of_perigee.value().to_radians(),
         mean_anomaly_rad: tle.mean_anomaly.value().to_radians(),
         mean_motion_rev_per_day: tle.mean_motion.value(),
-        mean_motion_dot_rev_per_day2: tle.mean_motion_dot,
-        mean_motion_ddot_rev_per_day3: tle.mean_motion_ddot,
+        // The columns hold the derivatives already divided by 2 and 6.
+        mean_motion_dot_rev_per_day2: 2.0 * tle.mean_motion_dot,
+        mean_motion_ddot_rev_per_day3: 6.0 * tle.mean_motion_ddot,
         bstar: tle.bstar,
     })
 }
-- 
2.43.0


From 8996c8a7e81e0c1a62dd4e0e2e12f91c90a6d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:45 +0000
Subject: [PATCH 56/67] fix: wide cone searches measured declination
 differences wrongly

---
 src/catalogs/record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catalogs/record.rs b/src/catalogs/record.rs
index fe25b16..c4a5145 100644
--- a/src/catalogs/record.rs
+++ b/src/catalogs/record.rs
@@ -106,9 +106,9 @@ pub(super) fn inside_cone(
     radius: Radians,
 ) -> bool {
     let d_ra = ra.value() - c_ra.value();
-    let s = (dec.value() - c_dec.value()).sin();
+    let s = ((dec.value() - c_dec.value()) / 2.0).sin();
     let s2 = (d_ra / 2.0).sin();
-    let a = (s / 2.0).powi(2) + dec.value().cos() * c_dec.value().cos() * s2 * s2;
+    let a = s * s + dec.value().cos() * c_dec.value().cos() * s2 * s2;
     let c = 2.0 * a.sqrt().min(1.0).asin();
     c <= radius.value()
 }
-- 
2.43.0


From ed73a5c591569822bf6d56989fa022a35e8df985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:07 +0000
Subject: [PATCH 57/67] fix: the catalogue Sun's declination was -23 hours
 instead of degrees

---
 src/bodies/solar_system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bodies/solar_system.rs b/src/bodies/solar_system.rs
index 6b4f470..4347d45 100644
--- a/src/bodies/solar_system.rs
+++ b/src/bodies/solar_system.rs
@@ -234,7 +234,7 @@ pub const SUN: super::Star<'static> = super::Star::new_const(
     L_SUN,
     CoordinateWithPM::<EquatorialMeanJ2000<LightYear>>::new_static(
         EquatorialMeanJ2000::<LightYear>::new_unchecked(
-            HourAngles::from_hms(-23, 0, 0.0).to_const::<Degree>(), // Dec (polar) Approx at J2000
+            Degrees::new(-23.0), // Dec (polar) Approx at J2000
             HourAngles::from_hms(18, 44, 48.0).to_const::<Degree>(), // RA (azimuth) Approx at J2000
             LightYears::new(1.58125e-5), // 1 AstronomicalUnits in LightYears
         ),
-- 
2.43.0


From 6db1e12e768c1532da6f015d8bc5238fd53a1546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:07 +0000
Subject: [PATCH 58/67] fix: unused-method warning without the spice feature

---
 src/formats/spice/pck.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/formats/spice/pck.rs b/src/formats/spice/pck.rs
index 325b221..305db90 100644
--- a/src/formats/spice/pck.rs
+++ b/src/formats/spice/pck.rs
@@ -62,6 +62,7 @@ impl BodyOrientation {
     }
 
     /// Whether pole and prime-meridian constants are all present.
+    #[cfg(feature = "spice")]
     pub(crate) fn has_orientation(&self) -> bool {
         !(self.pole_ra.is_empty() || self.pole_dec.is_empty() || self.pm.is_empty())
     }
-- 
2.43.0


From b5fccb51ac4cbbc2ba6a250a2c98f6ccd683b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:10 +0000
Subject: [PATCH 59/67] fix: a star's azimuth ignored the requested correction
 policy

---
 src/event/azimuth/provider.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/event/azimuth/provider.rs b/src/event/azimuth/provider.rs
index fd74138..2f52b8b 100644
--- a/src/event/azimuth/provider.rs
+++ b/src/event/azimuth/provider.rs
@@ -286,6 +286,16 @@ impl AzimuthProvider for Star<'_> {
         dir.azimuth_at(observer, mjd)
     }
 
+    fn azimuth_at_with_policy(
+        &self,
+        observer: &Geodetic<ECEF>,
+        mjd: ModifiedJulianDate,
+        policy: crate::astro::apparent::CorrectionPolicy,
+    ) -> Radians {
+        let dir = direction::ICRS::from(self);
+        dir.azimuth_at_with_policy(observer, mjd, policy)
+    }
+
     fn azimuth_periods(&self, query: &AzimuthQuery) -> Vec<Interval<ModifiedJulianDate>> {
         let dir = direction::ICRS::from(self);
         dir.azimuth_periods(query)
-- 
2.43.0


From 6ec66b5160c8448033f2ac92e423f38eff5965f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 60/67] fix: build_unchecked dropped a planet's albedo

---
 src/bodies/planets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bodies/planets.rs b/src/bodies/planets.rs
index 87b9ac2..8bf57fc 100644
--- a/src/bodies/planets.rs
+++ b/src/bodies/planets.rs
@@ -187,7 +187,7 @@ impl PlanetBuilder {
                 mass,
                 radius,
                 orbit,
-                albedo: None,
+                albedo: self.albedo,
             },
             _ => panic!("PlanetBuilder::build_unchecked called with missing fields"),
         }
-- 
2.43.0


From f5dd74efdc4a895a741ccada1adb5b9140f712c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:33 +0000
Subject: [PATCH 61/67] fix: label a Moon phase many turns away without looping
 forever

MoonPhaseLabel::from_elongation brought the elongation into a turn by adding
or subtracting 360 degrees at a time. For an elongation beyond 2^53 turns (or
an infinite one) the sum does not change, and the call never returned.
---
 src/event/lunar/phase.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/event/lunar/phase.rs b/src/event/lunar/phase.rs
index 0f514da..ec4ed1d 100644
--- a/src/event/lunar/phase.rs
+++ b/src/event/lunar/phase.rs
@@ -143,14 +143,8 @@ impl MoonPhaseLabel {
     pub fn from_elongation(elongation: Degrees, th: &PhaseThresholds) -> Self {
         let hw = th.half_width;
         // Normalise to [0, 360) as a Degrees quantity
-        let mut e = elongation;
         let full = Degrees::new(360.0);
-        while e >= full {
-            e -= full;
-        }
-        while e < Degrees::new(0.0) {
-            e += full;
-        }
+        let e = Degrees::new(elongation.value().rem_euclid(full.value()));
 
         if e < hw || e >= full - hw {
             Self::NewMoon
-- 
2.43.0


From 845b0c995adf244e52166c71cd05896e8b52f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:20 +0000
Subject: [PATCH 62/67] fix: an SCK header whose payload size overflows
 panicked instead of being refused

---
 src/formats/sck.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formats/sck.rs b/src/formats/sck.rs
index e5bad07..5377b3e 100644
--- a/src/formats/sck.rs
+++ b/src/formats/sck.rs
@@ -104,7 +104,7 @@ pub fn parse_sck(bytes: &[u8]) -> Result<SckKernel, FormatError> {
             )
         })?;
     let payload = &bytes[SCK_HEADER_LEN..];
-    if payload.len() != expected * 8 {
+    if expected.checked_mul(8) != Some(payload.len()) {
         return Err(FormatError::located(
             "SCK v1 §payload",
             FileLocation::default(),
-- 
2.43.0


From b55ca50c43b37f507e0ca5828ba753b88ee6034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:20 +0000
Subject: [PATCH 63/67] fix: a fitted Lagrange record boundary could lie
 outside both of its records

---
 src/ephemeris/lagrange/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ephemeris/lagrange/mod.rs b/src/ephemeris/lagrange/mod.rs
index fb1ce60..ada85e5 100644
--- a/src/ephemeris/lagrange/mod.rs
+++ b/src/ephemeris/lagrange/mod.rs
@@ -43,6 +43,9 @@ use crate::time::JulianDate;
 
 const SECONDS_PER_DAY: f64 = crate::qtty::time::SECONDS_PER_DAY;
 const J2000_JD: f64 = tempoch::J2000_JD_TT_DAY.value();
+/// Half the resolution of a present-day Julian Date held in one `f64`, rounded
+/// up: an epoch on a record boundary must not fall outside both neighbours.
+const EPOCH_SLACK_SECONDS: f64 = 5.0e-5;
 
 /// Default start Julian Date for the embedded Sun-Earth Lagrange archive (1900-01-01).
 pub const FIT_FROM_JD: f64 = 2_415_020.5;
@@ -197,8 +200,8 @@ pub(crate) fn evaluate_records(
         let end = record[0] + record[1];
         first = first.min(start);
         last = last.max(end);
-        if seconds >= start && seconds <= end {
-            let tau = (seconds - record[0]) / record[1];
+        if seconds >= start - EPOCH_SLACK_SECONDS && seconds <= end + EPOCH_SLACK_SECONDS {
+            let tau = ((seconds - record[0]) / record[1]).clamp(-1.0, 1.0);
             let cx = &record[2..2 + ncoeff];
             let cy = &record[2 + ncoeff..2 + 2 * ncoeff];
             let cz = &record[2 + 2 * ncoeff..2 + 3 * ncoeff];
-- 
2.43.0


From de8e2a375df64882b8ce085fdc0ad28551d1271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:24 +0000
Subject: [PATCH 64/67] fix: a star, planet or Moon exactly overhead had an
 undefined altitude

---
 src/event/horizontal.rs               | 8 +++++---
 src/event/lunar/moon_cache.rs         | 3 ++-
 src/event/stellar/altitude_periods.rs | 3 ++-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/event/horizontal.rs b/src/event/horizontal.rs
index 702de3b..b340de3 100644
--- a/src/event/horizontal.rs
+++ b/src/event/horizontal.rs
@@ -207,7 +207,8 @@ where
 
     // Altitude: sin(alt) = sin(dec)·sin(lat) + cos(dec)·cos(lat)·cos(HA)
     let sin_alt = dec_rad.sin() * lat.sin() + dec_rad.cos() * lat.cos() * ha.cos();
-    let alt = Radians::new(sin_alt.asin()).to::<Degree>();
+    // Rounding can lift the sine above one for a body exactly overhead.
+    let alt = Radians::new(sin_alt.clamp(-1.0, 1.0).asin()).to::<Degree>();
 
     // Azimuth: tan(az) = -sin(HA) / (cos(lat)·tan(dec) - sin(lat)·cos(HA))
     let az_rad = (-dec_rad.cos() * ha.sin())
@@ -273,7 +274,7 @@ pub fn star_horizontal_with_policy(
 
     // True-of-date RA/Dec
     let ra_tod = Radians::new(y_t.atan2(x_t));
-    let dec_tod = Radians::new(z_t.asin());
+    let dec_tod = Radians::new(z_t.clamp(-1.0, 1.0).asin());
 
     // True-of-date RA/Dec requires apparent sidereal time (GAST).
     let ctx: AstroContext = AstroContext::default();
@@ -286,7 +287,8 @@ pub fn star_horizontal_with_policy(
     // Equatorial → horizontal
     let lat = site.lat.to::<Radian>();
     let sin_alt = dec_tod.sin() * lat.sin() + dec_tod.cos() * lat.cos() * ha.cos();
-    let alt = Radians::new(sin_alt.asin()).to::<Degree>();
+    // Rounding can lift the sine above one for a body exactly overhead.
+    let alt = Radians::new(sin_alt.clamp(-1.0, 1.0).asin()).to::<Degree>();
 
     let az_rad = (-dec_tod.cos() * ha.sin())
         .atan2(dec_tod.sin() * lat.cos() - dec_tod.cos() * ha.cos() * lat.sin());
diff --git a/src/event/lunar/moon_cache.rs b/src/event/lunar/moon_cache.rs
index ff16cff..d2f324e 100644
--- a/src/event/lunar/moon_cache.rs
+++ b/src/event/lunar/moon_cache.rs
@@ -470,7 +470,8 @@ impl MoonAltitudeContext {
 
         let sin_alt = dec_rad.sin() * self.lat.sin() + dec_rad.cos() * self.lat.cos() * ha.cos();
 
-        Quantity::<Radian>::new(sin_alt.asin())
+        // Rounding can lift the sine above one for a Moon exactly overhead.
+        Quantity::<Radian>::new(sin_alt.clamp(-1.0, 1.0).asin())
     }
 }
 
diff --git a/src/event/stellar/altitude_periods.rs b/src/event/stellar/altitude_periods.rs
index c5c6550..a2d44f6 100644
--- a/src/event/stellar/altitude_periods.rs
+++ b/src/event/stellar/altitude_periods.rs
@@ -136,7 +136,8 @@ pub(crate) fn fixed_star_altitude_rad_with_policy(
     // Equatorial → horizontal altitude
     let lat = site.lat.to::<Radian>().value();
     let sin_alt = dec_tod.sin() * lat.sin() + dec_tod.cos() * lat.cos() * ha.cos();
-    crate::qtty::Radians::new(sin_alt.asin())
+    // Rounding can lift the sine above one for a star exactly overhead.
+    crate::qtty::Radians::new(sin_alt.clamp(-1.0, 1.0).asin())
 }
 
 // =============================================================================
-- 
2.43.0


From 495e22d3ddbb6fe363f80fbe025c5742da57189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:19 +0000
Subject: [PATCH 65/67] fix: the reference atmospheres answered an undefined
 altitude with a density

---
 src/astro/dynamics/density.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astro/dynamics/density.rs b/src/astro/dynamics/density.rs
index fc4bdbd..f4c9eba 100644
--- a/src/astro/dynamics/density.rs
+++ b/src/astro/dynamics/density.rs
@@ -149,7 +149,7 @@ impl DensityProvider for ExponentialAtmosphere {
     #[inline]
     fn density(&self, altitude: Kilometers) -> Result<KilogramsPerCubicMeter, DynamicsError> {
         let h = altitude.value();
-        if h < 0.0 {
+        if h.is_nan() || h < 0.0 {
             return Err(DynamicsError::AltitudeBelowSurface { altitude_km: h });
         }
         let exponent = -(h - self.h0.value()) / self.scale_height.value();
@@ -222,7 +222,7 @@ impl DensityProvider for Nrlmsise00LiteApprox {
 
     fn density(&self, altitude: Kilometers) -> Result<KilogramsPerCubicMeter, DynamicsError> {
         let h = altitude.value();
-        if h < 0.0 {
+        if h.is_nan() || h < 0.0 {
             return Err(DynamicsError::AltitudeBelowSurface { altitude_km: h });
         }
         Ok(KilogramsPerCubicMeter::new(nrlmsise_interpolate(h)))
-- 
2.43.0


From 9e582f940e3b8e0034e63d8c2dee06b87f179922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:20 +0000
Subject: [PATCH 66/67] fix: the geopotential turned the Earth by terrestrial
 time instead of UT1

---
 src/astro/dynamics/forces/geopotential.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/astro/dynamics/forces/geopotential.rs b/src/astro/dynamics/forces/geopotential.rs
index 51fef18..7613287 100644
--- a/src/astro/dynamics/forces/geopotential.rs
+++ b/src/astro/dynamics/forces/geopotential.rs
@@ -9,6 +9,7 @@ use principia::{AccelerationModel, PrincipiaError};
 use crate::astro::dynamics::context::DynamicsContext;
 use crate::astro::dynamics::errors::DynamicsError;
 use crate::astro::dynamics::state::{Acceleration, AccelerationUnit, OrbitState};
+use crate::astro::earth_rotation::jd_ut1_from_tt;
 use crate::astro::era::earth_rotation_angle;
 use crate::coordinates::centers::Geocentric;
 use crate::coordinates::frames::GCRS;
@@ -61,7 +62,8 @@ impl AccelerationModel<DynamicsContext, TT, Geocentric, GCRS> for Geopotential {
             .require_gravity_field()
             .map_err(DynamicsError::into_principia)?;
         let (pos_kernel, era_sin_cos) = if self.order > 0 {
-            let era = earth_rotation_angle(s.epoch.to::<JD>());
+            // The rotation angle is a function of UT1, not of the state's TT epoch.
+            let era = earth_rotation_angle(jd_ut1_from_tt(s.epoch.to::<JD>()));
             let (sin_t, cos_t) = era.value().sin_cos();
             let x = s.position.x().value();
             let y = s.position.y().value();
-- 
2.43.0


From f618e5d0343aade6f6a5fdb2231ba232ade20142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:39 +0000
Subject: [PATCH 67/67] fix: a planetary kernel segment in another frame was
 read as J2000

---
 src/formats/spice/spk.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/formats/spice/spk.rs b/src/formats/spice/spk.rs
index 813f5ab..8722907 100644
--- a/src/formats/spice/spk.rs
+++ b/src/formats/spice/spk.rs
@@ -281,6 +281,16 @@ pub fn parse_bsp(file_data: &[u8]) -> Result<BspSegments, SpiceError> {
             .find(|s| s.target_id == target && s.center_id == center)
     };
 
+    let require_j2000 = |summary: &Summary, name: &str| {
+        if summary.frame_id != 1 {
+            return Err(SpiceError::FormatParse(format!(
+                "BSP: {} segment is in frame {} (only J2000 supported)",
+                name, summary.frame_id
+            )));
+        }
+        Ok(())
+    };
+
     let find_segment = |target: i32, center: i32, name: &str| -> Result<SegmentData, SpiceError> {
         let summary = find_summary(target, center).ok_or_else(|| {
             SpiceError::FormatParse(format!(
@@ -296,6 +306,7 @@ pub fn parse_bsp(file_data: &[u8]) -> Result<BspSegments, SpiceError> {
             )));
         }
 
+        require_j2000(summary, name)?;
         read_segment(file_data, &daf, summary)
     };
 
@@ -304,6 +315,7 @@ pub fn parse_bsp(file_data: &[u8]) -> Result<BspSegments, SpiceError> {
     let moon = find_segment(MOON_TARGET, MOON_CENTER, "Moon")?;
     let earth = match find_summary(EARTH_TARGET, EARTH_CENTER) {
         Some(summary) if summary.data_type == 2 || summary.data_type == 3 => {
+            require_j2000(summary, "Earth")?;
             Some(read_segment(file_data, &daf, summary)?)
         }
         Some(summary) => {
-- 
2.43.0

