//! Corrupts generated replays, and makes short ones from existing ones, for the
//! specification to read (spec/Given.tla).
use crate::pack::{build, crc, Built, Variant};
use serde_json::Value;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
}

/// where things are in a replay
#[derive(Clone)]
pub struct Parts {
    pub bytes: Vec<u8>,
    pub body: Option<usize>,
    pub net: Option<(usize, usize)>,
}
impl Parts {
    pub fn of(b: Built) -> Parts {
        Parts { bytes: b.bytes, body: b.body, net: b.net }
    }
    fn word(&self, at: usize) -> Option<i32> {
        self.bytes.get(at..at + 4).map(|b| i32::from_le_bytes(b.try_into().unwrap()))
    }
    fn put(&mut self, at: usize, v: i32) {
        if at + 4 <= self.bytes.len() {
            self.bytes[at..at + 4].copy_from_slice(&v.to_le_bytes());
        }
    }
    /// an existing replay, whose sizes are right
    pub fn scan(bytes: &[u8]) -> Option<Parts> {
        let mut p = Parts { bytes: bytes.to_vec(), body: None, net: None };
        let size = |w: i32| usize::try_from(w).ok().filter(|n| *n < 1 << 28);
        let body = 8 + size(p.word(0)?)?;
        p.body = Some(body);
        let mut at = body + 8;
        let n = size(p.word(at)?)?;
        at += 4;
        for _ in 0..n {
            let l = p.word(at)?;
            at += 4 + if l < 0 { 2 * size(l.checked_neg()?)? } else { size(l)? };
        }
        let k = size(p.word(at)?)?;
        at += 4 + 12 * k;
        let len = size(p.word(at)?)?;
        if at + 4 + len > bytes.len() {
            return None;
        }
        p.net = Some((at + 4, len));
        Some(p)
    }
    /// other network data, with the sizes around it adjusted
    fn set_net(&mut self, data: &[u8]) {
        let (at, len) = self.net.unwrap();
        let diff = data.len() as i32 - len as i32;
        self.put(at - 4, data.len() as i32);
        if let Some(b) = self.body {
            if let Some(w) = self.word(b) {
                self.put(b, w.wrapping_add(diff));
            }
        }
        self.bytes.splice(at..at + len, data.iter().copied());
        self.net = Some((at, data.len()));
    }
    fn fix_sums(&mut self) {
        if let Some(b) = self.body {
            if let Some(n) = self.word(b) {
                if n >= 0 && b + 8 + n as usize <= self.bytes.len() {
                    let c = crc(&self.bytes[b + 8..b + 8 + n as usize]);
                    self.put(b + 4, c as i32);
                }
            }
        }
        if let Some(n) = self.word(0) {
            if n >= 0 && 8 + n as usize <= self.bytes.len() {
                let c = crc(&self.bytes[8..8 + n as usize]);
                self.put(4, c as i32);
            }
        }
    }
}

fn mutate_bits(d: &[u8], r: &mut Rng, other: &[u8]) -> Vec<u8> {
    let mut bits: Vec<bool> = d.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect();
    let n = 1 + r.below(3);
    for _ in 0..n {
        if bits.is_empty() {
            break;
        }
        let at = r.below(bits.len());
        match r.below(10) {
            0..=4 => bits[at] ^= true,
            5 => {
                let k = (1 + r.below(32)).min(bits.len() - at);
                let v = r.below(2) == 1;
                bits[at..at + k].iter_mut().for_each(|b| *b = v);
            }
            6 => {
                let k = (1 + r.below(9)).min(bits.len() - at);
                bits.drain(at..at + k);
            }
            7 => {
                let k = 1 + r.below(9);
                let v = r.next();
                bits.splice(at..at, (0..k).map(|i| v >> i & 1 == 1));
            }
            8 => {
                let k = (1 + r.below(64)).min(bits.len() - at);
                let v = r.next();
                bits[at..at + k].iter_mut().enumerate().for_each(|(i, b)| *b = v >> (i % 64) & 1 == 1);
            }
            _ => {
                // continue as another replay does
                let ob: Vec<bool> = other.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect();
                if !ob.is_empty() {
                    let from = r.below(ob.len());
                    bits.truncate(at);
                    bits.extend(&ob[from..]);
                }
            }
        }
    }
    let mut out: Vec<u8> = bits.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| a | (*b as u8) << i)).collect();
    if r.below(4) == 0 {
        let k = r.below(out.len() + 1);
        out.truncate(k);
    }
    out
}
const WORDS: [i32; 20] = [0, 1, -1, 2, 5, 255, 256, 1000, 10_000, 10_001, 25_000, 25_001, i32::MAX, i32::MIN, -2, -10_000, -10_001, 65_536, 0x0100_0000, -0x7fff_ffff];
fn mutate_file(p: &mut Parts, r: &mut Rng, other: &[u8]) {
    let skip = p.net.filter(|n| n.1 > 0);
    for _ in 0..1 + r.below(2) {
        let n = p.bytes.len();
        if n == 0 {
            return;
        }
        let mut at = r.below(n);
        if let Some((a, l)) = skip {
            // the network data has mutations of its own
            if at >= a && at < a + l && r.below(4) > 0 {
                at = if r.below(2) == 0 { r.below(a) } else { (a + l + r.below(n - (a + l).min(n - 1))).min(n - 1) };
            }
        }
        match r.below(12) {
            0..=3 => p.bytes[at] ^= 1 << r.below(8),
            4 => p.bytes[at] = [0, 255, 1, 128, 65][r.below(5)],
            5 | 6 => {
                let w = WORDS[r.below(WORDS.len())];
                p.put(at, w);
            }
            7 => {
                let w = p.word(at).unwrap_or(0).wrapping_add([1, -1, 2, 256][r.below(4)]);
                p.put(at, w);
            }
            8 => {
                let k = (1 + r.below(8)).min(n - at);
                p.bytes.drain(at..at + k);
            }
            9 => {
                let k = 1 + r.below(8);
                let v = r.next();
                p.bytes.splice(at..at, (0..k).map(|i| (v >> (8 * i)) as u8));
            }
            10 => p.bytes.truncate(at),
            _ => {
                let k = (1 + r.below(60)).min(n - at);
                if !other.is_empty() {
                    let f = r.below(other.len());
                    let e = (f + k).min(other.len());
                    p.bytes.splice(at..at + k, other[f..e].iter().copied());
                }
            }
        }
    }
    p.net = None;
}

fn line(b: &[u8], from: &str) -> String {
    let mut s = String::with_capacity(4 * b.len() + 40);
    s.push_str("{\"bytes\":[");
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x.to_string());
    }
    s.push_str(&format!("],\"from\":{}}}\n", serde_json::to_string(from).unwrap()));
    s
}

/// corrupted forms of generated replays
pub fn generated(cases: &[Value], num: usize, seed: u64, maxlen: usize) -> Vec<String> {
    let mut r = Rng(seed);
    let mut out = vec![];
    let mut other: Vec<u8> = vec![];
    let mut othernet: Vec<u8> = vec![];
    let mut k = 0;
    let mut tries = 0;
    while k < num && tries < 20 * num + 100 && !cases.is_empty() {
        tries += 1;
        let i = r.below(cases.len());
        let b = build(&cases[i], Variant { tail: r.below(12), fill: r.next() % 5, bad: 0 });
        let mut p = Parts::of(b);
        if p.bytes.len() > maxlen {
            continue;
        }
        let (orig, orignet) = (p.bytes.clone(), p.net.map(|(a, l)| p.bytes.get(a..a + l).map(|x| x.to_vec()).unwrap_or_default()).unwrap_or_default());
        let netmut = !orignet.is_empty() && r.below(5) < 3;
        if netmut {
            let d = mutate_bits(&orignet, &mut r, &othernet);
            p.set_net(&d);
            if r.below(6) > 0 {
                p.fix_sums();
            }
        } else {
            mutate_file(&mut p, &mut r, &other);
            if r.below(3) > 0 {
                p.fix_sums();
            }
        }
        if r.below(3) == 0 || other.is_empty() {
            other = orig;
        }
        if !orignet.is_empty() {
            othernet = orignet;
        }
        out.push(line(&p.bytes, &format!("generated {i}")));
        k += 1;
    }
    out
}

/// short forms of existing replays: the first frames, as they are or corrupted
pub fn existing(files: &[String], num: usize, seed: u64, netlen: usize, frames: i32, whole: bool) -> Vec<String> {
    let mut r = Rng(seed);
    let mut out = vec![];
    let mut names: Vec<&String> = files.iter().collect();
    names.sort();
    // another selection for every seed
    for i in (1..names.len()).rev() {
        let j = r.below(i + 1);
        names.swap(i, j);
    }
    let mut othernet: Vec<u8> = vec![];
    for k in 0..num {
        if names.is_empty() {
            break;
        }
        let f = names[k % names.len()];
        let Ok(bytes) = std::fs::read(f) else { continue };
        if whole {
            out.push(line(&bytes, f));
            continue;
        }
        let Some(mut p) = Parts::scan(&bytes) else {
            out.push(line(&bytes[..bytes.len().min(60_000)], f));
            continue;
        };
        let (at, len) = p.net.unwrap();
        let net = p.bytes[at..at + len.min(netlen)].to_vec();
        p.set_net(&net);
        // fewer frames
        let key = b"NumFrames\0\x0c\0\0\0IntProperty\0";
        if let Some(i) = p.bytes.windows(key.len()).position(|w| w == key) {
            let v = i + key.len() + 8;
            let old = p.word(v).unwrap_or(0);
            p.put(v, old.min(frames));
        }
        if k >= names.len() || r.below(2) == 0 {
            match r.below(5) {
                0 => mutate_file(&mut p, &mut r, &bytes[..bytes.len().min(40_000)]),
                _ => {
                    // early enough for the frames to reach it
                    let head = net.len().min(1 + r.below(net.len().max(1)));
                    let mut d = mutate_bits(&net[..head], &mut r, &othernet);
                    if d.len() >= head {
                        d.extend(&net[head..]);
                    }
                    p.set_net(&d);
                }
            }
        }
        p.fix_sums();
        othernet = net;
        out.push(line(&p.bytes, f));
    }
    out
}

pub fn read_given(path: &str) -> Vec<Vec<u8>> {
    std::fs::read_to_string(path)
        .unwrap_or_else(|e| panic!("{path}: {e}"))
        .lines()
        .map(|l| {
            let a = l.find('[').unwrap() + 1;
            let b = l.find(']').unwrap();
            l[a..b].split(',').filter(|s| !s.is_empty()).map(|x| x.parse::<u8>().unwrap()).collect()
        })
        .collect()
}
