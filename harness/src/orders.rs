//! One set of inputs, in different orders: digests of the results, by input,
//! for comparison with those of another process.
use crate::check::{parse_with, render};
use crate::mutants::Rng;
use crate::pack::*;
use boxcars::{CrcCheck, NetworkParse};
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

/// a behaviour's bytes, and the same with something changed and the stored
/// checksums and sizes left as they were
fn inputs(case: &Value, idx: usize) -> Vec<Vec<u8>> {
    let v = Variant { tail: (idx * 7) % 25, fill: idx as u64 % 5, bad: idx };
    let b = build(case, v);
    let d = b.bytes;
    let mut r = Rng(0x5851_f42d_4c95_7f2d ^ (idx as u64) << 20);
    let mut all = vec![d.clone()];
    let body = b.body.unwrap_or(d.len());
    let mut parts = vec![(8, body), (body + 8, d.len())];
    if let Some((at, len)) = b.net {
        parts.push((at, at + len));
        parts.push((at, at + len));
    }
    for (lo, hi) in parts {
        if lo < hi && hi <= d.len() {
            let mut e = d.clone();
            e[lo + r.below(hi - lo)] ^= 1 << r.below(8);
            all.push(e);
        }
    }
    if d.len() > 20 {
        all.push(d[..d.len() - 1 - r.below(8)].to_vec());
    }
    all
}

pub fn run(lines: &[String], order: &str, threads: usize) -> Vec<u64> {
    let cases: Vec<Vec<Vec<u8>>> = lines
        .iter()
        .enumerate()
        .map(|(i, l)| {
            let case: Option<Value> = crate::unquote(l, "CASE ").and_then(|t| serde_json::from_str(&t).ok());
            case.map(|c| inputs(&c, i)).unwrap_or_default()
        })
        .collect();
    let mut jobs: Vec<(usize, usize, usize)> = vec![];
    let mut n = 0;
    for (i, c) in cases.iter().enumerate() {
        if c.iter().any(|x| x.len() > 1 << 20) {
            continue;
        }
        for j in 0..c.len() {
            for k in 0..4 {
                jobs.push((n, i * 8 + j, k));
                n += 1;
            }
        }
    }
    if order == "far" {
        return far(&cases, &jobs);
    }
    match order {
        "rev" => jobs.reverse(),
        "mix" => {
            let mut r = Rng(0x1234_5678_9abc_def1);
            for i in (1..jobs.len()).rev() {
                jobs.swap(i, r.below(i + 1));
            }
        }
        _ => {}
    }
    let out: Mutex<Vec<u64>> = Mutex::new(vec![0; n]);
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let k = next.fetch_add(1, SeqCst);
                let Some((slot, at, pol)) = jobs.get(k) else { break };
                let d = &cases[at / 8][at % 8];
                let h = once(d, *pol);
                out.lock().unwrap()[*slot] = h;
            });
        }
    });
    out.into_inner().unwrap()
}

fn once(d: &[u8], pol: usize) -> u64 {
    let (c, p) = [
        (CrcCheck::Never, NetworkParse::Always),
        (CrcCheck::OnError, NetworkParse::Always),
        (CrcCheck::Always, NetworkParse::Never),
        (CrcCheck::OnError, NetworkParse::IgnoreOnError),
    ][pol];
    match catch_unwind(AssertUnwindSafe(|| parse_with(d, c, p))) {
        Ok(r) => fnv(&render(&r)),
        Err(_) => 1,
    }
}

/// a replay of one empty frame, and no objects
fn least() -> Vec<u8> {
    fn text(v: &mut Vec<u8>, s: &str) {
        v.extend((s.len() as u32 + 1).to_le_bytes());
        v.extend(s.as_bytes());
        v.push(0);
    }
    let mut h = vec![];
    for x in [868u32, 22, 10] {
        h.extend(x.to_le_bytes());
    }
    text(&mut h, "TAGame.Replay_Soccar_TA");
    text(&mut h, "NumFrames");
    text(&mut h, "IntProperty");
    h.extend(4u64.to_le_bytes());
    h.extend(1u32.to_le_bytes());
    text(&mut h, "None");
    let mut b = vec![];
    b.extend([0; 8]); // levels, keyframes
    b.extend(12u32.to_le_bytes());
    b.extend([0; 12]); // time, delta, the end of the frame
    b.extend([0; 4 * 7]); // debug info, ticks, packages, objects, names, classes, net cache
    let mut d = vec![];
    for part in [h, b] {
        d.extend((part.len() as u32).to_le_bytes());
        d.extend(crate::pack::crc(&part).to_le_bytes());
        d.extend(part);
    }
    d
}

/// inputs that a round number of parses separates, all in one thread
fn far(cases: &[Vec<Vec<u8>>], jobs: &[(usize, usize, usize)]) -> Vec<u64> {
    const UNREAD: u64 = u64::MAX;
    let filler = least();
    if let Err(e) = parse_with(&filler, CrcCheck::Always, NetworkParse::Always) {
        eprintln!("{e}"); // then the fillers count as parses all the same
    }
    let mut r = Rng(0x2545_f491_4f6c_dd1d);
    let some: Vec<_> = jobs.iter().filter(|(_, at, pol)| at % 8 == 0 && *pol < 2 && cases[at / 8][0].len() < 1 << 14).collect();
    if some.is_empty() {
        return vec![UNREAD; jobs.len()];
    }
    let stages = [(16, 400), (128, 400), (256, 400), (1024, 100), (4096, 40), (32768, 12), (65536, 24), (65536, 24)];
    let work: Vec<(usize, Vec<(usize, usize, usize)>)> = stages.iter().map(|(gap, n)| (*gap, (0..*n).map(|_| *some[r.below(some.len())]).collect())).collect();
    let out: Mutex<Vec<u64>> = Mutex::new(vec![UNREAD; jobs.len()]);
    std::thread::scope(|s| {
        for (gap, picked) in &work {
            let (filler, out) = (&filler, &out);
            s.spawn(move || {
                for (slot, at, pol) in picked {
                    let h = once(&cases[at / 8][at % 8], *pol);
                    let mut o = out.lock().unwrap();
                    o[*slot] = if o[*slot] == UNREAD || o[*slot] == h { h } else { 2 };
                    drop(o);
                    for _ in 1..*gap {
                        let _ = catch_unwind(AssertUnwindSafe(|| parse_with(filler, CrcCheck::Never, NetworkParse::Always)));
                    }
                }
            });
        }
    });
    out.into_inner().unwrap()
}

/// the input a slot is about
pub fn input(lines: &[String], slot: usize) -> Vec<u8> {
    let mut n = 0;
    for (i, l) in lines.iter().enumerate() {
        let Some(case) = crate::unquote(l, "CASE ").and_then(|t| serde_json::from_str::<Value>(&t).ok()) else { continue };
        let c = inputs(&case, i);
        if c.iter().any(|x| x.len() > 1 << 20) {
            continue;
        }
        if slot < n + 4 * c.len() {
            return c[(slot - n) / 4].clone();
        }
        n += 4 * c.len();
    }
    vec![]
}
