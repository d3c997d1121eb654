//! Tokens: the common currency between the specification's behaviours and real results.
use serde_json::Value;

#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    Open,
    Close,
    Arr,
    EndArr,
    K(String),
    H(String),
    V(String),
    U(String),
    Null,
    B(bool),
    I(i128),
    F(u32),
    /// n / 100
    Cent(i32),
    Q(u64),
    QI(i64),
    S(String),
    /// smallest-three quaternion as encoded
    Q4(u32, [u32; 3]),
    C3([u32; 3]),
    Quat([f32; 4]),
}

fn int(v: &Value) -> i64 {
    v.as_i64().expect("int")
}
pub fn codes(v: &Value) -> String {
    v.as_array()
        .expect("codes")
        .iter()
        .map(|c| char::from_u32(int(c) as u32).unwrap_or('\u{fffd}'))
        .collect()
}

pub struct Subst {
    pub hsize: i64,
    pub csize: i64,
    pub hcrc: u32,
    pub ccrc: u32,
}
pub const EXACT: i64 = 1000000007;

/// decode a token list from the specification
pub fn toks(v: &Value, sub: Option<&Subst>, out: &mut Vec<Tok>) {
    let mut lastkey = String::new();
    for t in v.as_array().expect("token list") {
        let a = t.as_array().expect("token");
        let tag = a[0].as_str().unwrap();
        let tok = match tag {
            "{" => Tok::Open,
            "}" => Tok::Close,
            "[" => Tok::Arr,
            "]" => Tok::EndArr,
            "k" => {
                lastkey = a[1].as_str().unwrap().to_string();
                Tok::K(lastkey.clone())
            }
            "K" => Tok::K(codes(&a[1])),
            "h" => Tok::H(a[1].as_str().unwrap().to_string()),
            "V" => Tok::V(a[1].as_str().unwrap().to_string()),
            "U" => Tok::U(a[1].as_str().unwrap().to_string()),
            "n" => Tok::Null,
            "b" => Tok::B(int(&a[1]) == 1),
            "i" => {
                let mut n = int(&a[1]);
                if n == EXACT {
                    if let Some(s) = sub {
                        if lastkey == "header_size" {
                            n = s.hsize
                        }
                        if lastkey == "content_size" {
                            n = s.csize
                        }
                    }
                }
                Tok::I(n as i128)
            }
            "u" => Tok::I(int(&a[1]) as i32 as u32 as i128),
            "f" => Tok::F(int(&a[1]) as i32 as u32),
            "v" => Tok::Cent(int(&a[1]) as i32),
            "q" | "Q" => {
                let lo = int(&a[1]) as i32 as u32 as u64;
                let hi = int(&a[2]) as i32 as u32 as u64;
                let w = hi << 32 | lo;
                if tag == "q" {
                    Tok::Q(w)
                } else {
                    Tok::QI(w as i64)
                }
            }
            "s" => Tok::S(codes(&a[1])),
            "s*" => {
                let c = char::from_u32(int(&a[2]) as u32).unwrap_or('\u{fffd}');
                Tok::S(std::iter::repeat(c).take(int(&a[1]) as usize).collect())
            }
            "*" => {
                let mut inner = vec![];
                toks(&a[2], sub, &mut inner);
                for _ in 0..int(&a[1]) {
                    out.extend(inner.iter().cloned());
                }
                continue;
            }
            "+" => {
                for j in 1..=int(&a[1]) {
                    let part = crate::pack::moved(crate::pack::arr(&a[2]), crate::pack::arr(&a[3]), 1, j * int(&a[4]));
                    toks(&Value::Array(part), sub, out);
                }
                continue;
            }
            "q4" => Tok::Q4(int(&a[1]) as u32, [int(&a[2]) as u32, int(&a[3]) as u32, int(&a[4]) as u32]),
            "c3" => Tok::C3([int(&a[1]) as u32, int(&a[2]) as u32, int(&a[3]) as u32]),
            "crc" => {
                let s = sub.expect("crc token");
                Tok::I(if a[1].as_str() == Some("h") { s.hcrc } else { s.ccrc } as i128)
            }
            other => panic!("unknown token {other}"),
        };
        out.push(tok);
    }
}

fn close(a: f32, b: f64) -> bool {
    if b.is_nan() {
        return a.is_nan();
    }
    (a as f64 - b).abs() <= 1e-6 * b.abs().max(1e-3)
}
/// quaternion components defined by the encoding; None where rounding decides between a tiny number and NaN
pub fn quat(t: &Tok) -> [Option<f64>; 4] {
    match t {
        Tok::Q4(largest, p) => {
            let u = |v: u32| ((v as f64) / 262143.0 - 0.5) * 2.0 * std::f64::consts::FRAC_1_SQRT_2;
            let (a, b, c) = (u(p[0]), u(p[1]), u(p[2]));
            let sq = 1.0 - a * a - b * b - c * c;
            let e = if sq.abs() < 1e-5 {
                None
            } else if sq < 0.0 {
                Some(f64::NAN)
            } else {
                Some(sq.sqrt())
            };
            let mut r = vec![Some(a), Some(b), Some(c)];
            r.insert(*largest as usize, e);
            [r[0], r[1], r[2], r[3]]
        }
        Tok::C3(p) => {
            let u = |v: u32| Some((v as i64 - 32768) as f64 / 32767.0);
            [u(p[0]), u(p[1]), u(p[2]), Some(0.0)]
        }
        _ => unreachable!(),
    }
}
fn quat_eq(spec: &Tok, real: &[f32; 4]) -> bool {
    let q = quat(spec);
    (0..4).all(|i| match q[i] {
        Some(x) => {
            // components near zero carry the absolute rounding error of the subtraction
            close(real[i], x) || (real[i] as f64 - x).abs() < 2e-6 || ((real[i] as f64 - x).abs() < 1e-3 && x.abs() < 4e-2 && matches!(spec, Tok::Q4(..)) && x > 0.0 && i == largest(spec))
        }
        None => real[i].is_nan() || (real[i] >= 0.0 && real[i] < 5e-3),
    })
}
fn largest(t: &Tok) -> usize {
    match t {
        Tok::Q4(l, _) => *l as usize,
        _ => 9,
    }
}
pub fn tok_eq(spec: &Tok, real: &Tok) -> bool {
    match (spec, real) {
        (Tok::Cent(n), Tok::F(b)) => close(f32::from_bits(*b), *n as f64 / 100.0),
        (Tok::Q4(..) | Tok::C3(..), Tok::Quat(q)) => quat_eq(spec, q),
        (a, b) => a == b,
    }
}
/// None when the streams agree
pub fn diff(spec: &[Tok], real: &[Tok]) -> Option<String> {
    let n = spec.len().min(real.len());
    for i in 0..n {
        if !tok_eq(&spec[i], &real[i]) {
            let lo = i.saturating_sub(12);
            return Some(format!(
                "token {i}: specified {:?}, decoded {:?} (after {})",
                short(&spec[i]),
                short(&real[i]),
                spec[lo..i].iter().map(|t| format!("{:?}", short(t))).collect::<Vec<_>>().join(" ")
            ));
        }
    }
    if spec.len() != real.len() {
        return Some(format!(
            "specified {} tokens, decoded {}; first extra {:?}",
            spec.len(),
            real.len(),
            spec.get(n).or(real.get(n)).map(short)
        ));
    }
    None
}
pub fn short(t: &Tok) -> Tok {
    match t {
        Tok::S(s) if s.chars().count() > 60 => Tok::S(format!("{}...({})", s.chars().take(60).collect::<String>(), s.len())),
        o => o.clone(),
    }
}
