//! Cases: what the specification encoded, packed into replay bytes.
use crate::tok::{codes, EXACT};
use serde_json::Value;

pub const BIG: i64 = 1_000_000_000;

pub fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("int expected: {v}"))
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("array expected: {v}"))
}
pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("string expected: {v}"))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Variant {
    /// bytes after the last one the specification needs
    pub tail: usize,
    /// 0: zeros, 1: ones, 2..: pseudo random
    pub fill: u64,
    /// which wrong value stands for a wrong checksum
    pub bad: usize,
}
pub const BADS: usize = 12;
fn wrong(c: u32, kind: usize) -> u32 {
    let w = match kind % BADS {
        0 => c ^ 0x8000_0001,
        1 => 0,
        2 => u32::MAX,
        3 => 1,
        4 => c ^ 1,
        5 => c.swap_bytes(),
        6 => !c,
        7 => c ^ 0x8000_0000,
        8 => c & 0xffff,
        9 => c.wrapping_add(1),
        10 => c ^ 0x00ff_0000,
        _ => c.reverse_bits(),
    };
    if w == c {
        c ^ 0x8000_0001
    } else {
        w
    }
}
impl Variant {
    fn byte(&self, i: u64) -> u8 {
        match self.fill {
            0 => 0,
            1 => 0xff,
            s => {
                let mut x = s.wrapping_mul(0x9e3779b97f4a7c15) ^ i.wrapping_mul(0xbf58476d1ce4e5b9);
                x ^= x >> 29;
                x = x.wrapping_mul(0x94d049bb133111eb);
                (x ^ (x >> 32)) as u8
            }
        }
    }
}

pub struct Bits {
    pub b: Vec<u8>,
    pub n: usize,
}
impl Bits {
    pub fn new() -> Self {
        Bits { b: vec![], n: 0 }
    }
    pub fn push(&mut self, v: u64, w: usize) {
        for i in 0..w {
            if self.n % 8 == 0 {
                self.b.push(0);
            }
            let k = self.b.len() - 1;
            self.b[k] |= ((v >> i & 1) as u8) << (self.n % 8);
            self.n += 1;
        }
    }
}

/// the checksum's register, transcribed from CrcOps.tla: bit-serial, most significant bit first
pub const CRC_START: u32 = !0xefcb_f201u32;
pub fn crc_byte(mut c: u32, b: u8) -> u32 {
    c ^= (b as u32) << 24;
    for _ in 0..8 {
        c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04c1_1db7 } else { c << 1 };
    }
    c
}
pub fn crc_final(c: u32) -> u32 {
    !c
}
/// the same, with the eight steps of a byte looked up
pub fn crc(data: &[u8]) -> u32 {
    static STEPS: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    let t = STEPS.get_or_init(|| (0..=255u8).map(|b| crc_byte(0, b)).collect());
    crc_final(data.iter().fold(CRC_START, |c, &b| (c << 8) ^ t[((c >> 24) as u8 ^ b) as usize]))
}

pub struct Built {
    pub bytes: Vec<u8>,
    pub hsize: i64,
    pub csize: i64,
    pub hcrc: u32,
    pub ccrc: u32,
    /// where the network data starts, and its length
    pub net: Option<(usize, usize)>,
    /// bytes of the file that are needed for it to be complete
    pub need: usize,
    /// where the body section's size field is
    pub body: Option<usize>,
}

impl Built {
    /// bytes the specification was given, and what it found where
    pub fn given(bytes: Vec<u8>, case: &Value) -> Built {
        let word = |at: usize| bytes.get(at..at + 4).map(|b| i32::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
        let hend = int(&case["hend"]) as usize;
        let inbody = matches!(st(&case["stage"]), "b" | "net");
        let net = case["reg"] == "net";
        let need = bytes.len();
        Built {
            hsize: word(0) as i64,
            csize: if inbody { word(hend) as i64 } else { 0 },
            hcrc: word(4) as u32,
            ccrc: if inbody { word(hend + 4) as u32 } else { 0 },
            net: if net { Some((int(&case["netat"]) as usize, int(&case["netlen"]) as usize)) } else { None },
            need,
            body: if inbody { Some(hend) } else { None },
            bytes,
        }
    }
}

/// what a part becomes when the numbers at some places move
pub fn moved(part: &[Value], at: &[Value], field: usize, by: i64) -> Vec<Value> {
    let mut p = part.to_vec();
    for i in at {
        let x = &mut p[int(i) as usize - 1][field];
        *x = Value::from(int(x) + by);
    }
    p
}

/// wire elements into bits; a repeated part may contain further ones
fn net_wire(bits: &mut Bits, wire: &[Value]) {
    for e in wire {
        match st(&e[0]) {
            "w" => bits.push(int(&e[2]) as u64, int(&e[1]) as usize),
            "B" => {
                for _ in 0..int(&e[1]) {
                    for b in arr(&e[2]) {
                        bits.push(int(b) as u64, 8)
                    }
                }
            }
            "*" => {
                for _ in 0..int(&e[1]) {
                    net_wire(bits, arr(&e[2]));
                }
            }
            // each time with some of the words further on
            "+" => {
                for j in 1..=int(&e[1]) {
                    net_wire(bits, &moved(arr(&e[2]), arr(&e[3]), 2, j * int(&e[4])));
                }
            }
            o => panic!("wire element {o} in network data"),
        }
    }
}

/// bits of the network region, cut or padded to `len` bytes
pub fn net_bytes(wire: &[Value], len: Option<usize>, min: usize, v: Variant) -> Vec<u8> {
    let mut bits = Bits::new();
    net_wire(&mut bits, wire);
    let want = len.unwrap_or_else(|| ((bits.n + 7) / 8).max(min) + v.tail);
    // everything after the encoded bits is arbitrary
    while bits.n % 8 != 0 {
        let x = v.byte(bits.n as u64 | 1 << 40);
        bits.push((x & 1) as u64, 1);
    }
    let mut b = bits.b;
    b.truncate(want);
    while b.len() < want {
        b.push(v.byte(b.len() as u64));
    }
    b
}

fn p32(b: &mut Vec<u8>, v: i64) {
    b.extend((v as i32).to_le_bytes())
}
pub fn pstr(b: &mut Vec<u8>, s: &str) {
    p32(b, s.len() as i64 + 1);
    b.extend(s.bytes());
    b.push(0);
}

/// a tab in the specification's name of an object stands for some other character
pub fn objname(s: &str) -> String {
    const ODD: [char; 5] = ['é', '€', '🚀', '\u{fffd}', 'ß'];
    s.chars().enumerate().map(|(i, c)| if c == '\t' { ODD[(i + s.len()) % 5] } else { c }).collect()
}

/// whole replay around given network data, from a scenario's static part
pub fn wrap_net(cfg: &Value, net: &[u8]) -> Built {
    let ver = arr(&cfg["ver"]);
    let (ma, mi, nv) = (int(&ver[0]), int(&ver[1]), int(&ver[2]));
    let mut h = vec![];
    p32(&mut h, ma);
    p32(&mut h, mi);
    if ma > 865 && mi > 17 {
        p32(&mut h, nv);
    }
    pstr(&mut h, "TAGame.Replay_Soccar_TA");
    for p in arr(&cfg["props"]) {
        pstr(&mut h, &codes(&p["k"]));
        let t = st(&p["t"]);
        pstr(&mut h, &format!("{t}Property"));
        p32(&mut h, 0);
        p32(&mut h, 0);
        match t {
            "Int" => p32(&mut h, int(&p["v"])),
            "Str" | "Name" => pstr(&mut h, &codes(&p["v"])),
            o => panic!("property type {o}"),
        }
    }
    pstr(&mut h, "None");
    let mut b = vec![];
    p32(&mut b, 0);
    p32(&mut b, 0);
    p32(&mut b, net.len() as i64);
    let netoff = b.len();
    b.extend(net);
    for _ in 0..3 {
        p32(&mut b, 0);
    }
    let objs = arr(&cfg["objs"]);
    p32(&mut b, objs.len() as i64);
    for o in objs {
        let o = objname(st(o));
        if o.is_ascii() {
            pstr(&mut b, &o);
        } else {
            let us: Vec<u16> = o.encode_utf16().chain([0]).collect();
            p32(&mut b, -(us.len() as i64));
            us.iter().for_each(|u| b.extend(u.to_le_bytes()));
        }
    }
    p32(&mut b, 0);
    p32(&mut b, 0);
    let caches = arr(&cfg["caches"]);
    p32(&mut b, caches.len() as i64);
    for (i, c) in caches.iter().enumerate() {
        p32(&mut b, int(&c["ind"]));
        p32(&mut b, i as i64);
        p32(&mut b, i as i64);
        let ps = arr(&c["props"]);
        p32(&mut b, ps.len() as i64);
        for q in ps {
            p32(&mut b, int(&q[0]));
            p32(&mut b, int(&q[1]));
        }
    }
    let (hcrc, ccrc) = (crc(&h), crc(&b));
    let mut f = vec![];
    p32(&mut f, h.len() as i64);
    p32(&mut f, hcrc as i64);
    f.extend(&h);
    let (hs, bs) = (h.len() as i64, b.len() as i64);
    p32(&mut f, bs);
    p32(&mut f, ccrc as i64);
    let at = f.len() + netoff;
    let body = Some(f.len() - 8);
    f.extend(&b);
    let need = f.len();
    Built { bytes: f, hsize: hs, csize: bs, hcrc, ccrc, net: Some((at, net.len())), need, body }
}

/// replay bytes of a network-only case
pub fn build_net(case: &Value, v: Variant) -> Built {
    let wire = arr(&case["wire"]);
    let lim = int(&case["lim"]);
    let bits = int(&case["pos"]).max(int(&case["min"]));
    // a frame count above the number of bytes is an error of its own
    let mut nf = 0;
    for p in arr(&case["cfg"]["props"]) {
        if codes(&p["k"]) == "NumFrames" {
            if st(&p["t"]) == "Int" {
                nf = int(&p["v"]);
            }
            break;
        }
    }
    let net = if lim < BIG {
        net_bytes(wire, Some((lim / 8) as usize), 0, v)
    } else {
        let min = ((bits + 7) / 8).max(1).max(if nf > 100_000 { 0 } else { nf });
        net_bytes(wire, None, min as usize, v)
    };
    wrap_net(&case["cfg"], &net)
}

/// replay bytes of a whole-file case
pub fn build_file(case: &Value, v: Variant) -> Built {
    let wire = arr(&case["fwire"]);
    let mut f: Vec<u8> = vec![];
    let mut net = None;
    let mut crcs: Vec<(usize, bool, bool)> = vec![]; // offset, header?, good
    let mut exact: Vec<usize> = vec![];
    let mut flat: Vec<&Value> = vec![];
    fn flatten<'a>(wire: &'a [Value], out: &mut Vec<&'a Value>) {
        for e in wire {
            if st(&e[0]) == "*" {
                for _ in 0..int(&e[1]) {
                    flatten(arr(&e[2]), out);
                }
            } else {
                out.push(e);
            }
        }
    }
    flatten(wire, &mut flat);
    for e in flat {
        match st(&e[0]) {
            "w" => {
                let (w, val) = (int(&e[1]), int(&e[2]));
                if w == 32 && val == EXACT {
                    exact.push(f.len());
                }
                f.extend(&(val as u64).to_le_bytes()[..(w / 8) as usize]);
            }
            "B" => {
                let bs: Vec<u8> = arr(&e[2]).iter().map(|b| int(b) as u8).collect();
                for _ in 0..int(&e[1]) {
                    f.extend(&bs);
                }
            }
            "C" => {
                crcs.push((f.len(), st(&e[1]) == "h", int(&e[2]) == 1));
                f.extend([0u8; 4]);
            }
            "N" => {
                let n = int(&e[1]);
                if n > 0 && case["skip"].as_i64() == Some(n) {
                    // vast network data, all zero
                    f.resize(f.len() + n as usize, 0);
                } else if n >= 0 && n <= 10_000_000 {
                    let data = net_bytes(arr(&case["wire"]), Some(n as usize), 0, v);
                    net = Some((f.len(), n as usize));
                    f.extend(data);
                }
            }
            o => panic!("wire element {o}"),
        }
    }
    let end = f.len();
    let hend = int(&case["hend"]) as usize;
    let flim = int(&case["flim"]);
    let skip = case["skip"].as_i64().unwrap_or(0) as usize;
    let need = end.max(((int(&case["fmin"]) + 7) / 8) as usize + skip);
    let want = if flim < BIG { (flim / 8) as usize + skip } else { need + v.tail };
    f.truncate(want);
    while f.len() < want {
        f.push(v.byte(f.len() as u64));
    }
    for at in exact {
        let header = at == 0;
        let e = if header && hend > 0 { hend } else { end };
        let size = e as i64 - (at as i64 + 8);
        if at + 4 <= f.len() {
            f[at..at + 4].copy_from_slice(&(size.max(0) as i32).to_le_bytes());
        }
    }
    let word = |f: &Vec<u8>, at: usize| -> i64 {
        if at + 4 <= f.len() {
            i32::from_le_bytes(f[at..at + 4].try_into().unwrap()) as i64
        } else {
            0
        }
    };
    let body = crcs.iter().find(|c| !c.1).map(|c| c.0 - 4);
    let (mut hcrc, mut ccrc) = (0, 0);
    let (mut hsize, mut csize) = (word(&f, 0), 0);
    // the body's checksum is inside the declared header section only when the declared size is larger than the
    // true one, so it is stored first
    for &(at, header, good) in crcs.iter().rev() {
        let size = word(&f, at - 4);
        let (s, e) = (at + 4, (at + 4) as i64 + size);
        let mut c = if size >= 0 && (e as usize) <= f.len() && s <= f.len() { crc(&f[s..e as usize]) } else { 0x1234_5678 };
        if !good {
            c = wrong(c, v.bad + header as usize * 5);
        }
        if at + 4 <= f.len() {
            f[at..at + 4].copy_from_slice(&c.to_le_bytes());
        }
        if header {
            hcrc = c;
            hsize = size;
        } else {
            ccrc = c;
            csize = size;
        }
    }
    Built { bytes: f, hsize, csize, hcrc, ccrc, net, need, body }
}

pub fn build(case: &Value, v: Variant) -> Built {
    if case["file"].as_bool() == Some(true) {
        build_file(case, v)
    } else {
        build_net(case, v)
    }
}
