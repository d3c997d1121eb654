//! The checksum function against behaviours of Crc.tla.
use crate::pack;
use serde_json::Value;
use std::panic::catch_unwind;

pub struct Report {
    pub bad: Vec<(Vec<u8>, String)>,
    pub cases: u64,
    pub evals: u64,
}

fn calc(buf: &mut Vec<u8>, d: &[u8], align: usize) -> Result<u32, ()> {
    // the data at a given alignment, with other bytes around it
    buf.clear();
    buf.resize(d.len() + 48, 0xa5);
    let base = buf.as_ptr() as usize;
    let off = (16 - base % 16) % 16 + align;
    buf[off..off + d.len()].copy_from_slice(d);
    catch_unwind(|| boxcars::crc::calc_crc(&buf[off..off + d.len()])).map_err(|_| ())
}

pub fn run(lines: &[String], seed: u64, big: usize) -> Report {
    let mut r = Report { bad: vec![], cases: 0, evals: 0 };
    let mut buf = vec![];
    let mut check = |r: &mut Report, d: &[u8], want: u32, align: usize| {
        r.evals += 1;
        match calc(&mut buf, d, align) {
            Ok(g) if g == want => {}
            Ok(g) => r.bad.push((d.to_vec(), format!("{} bytes at alignment {align}: specified {want:#010x}, real {g:#010x}", d.len()))),
            Err(()) => r.bad.push((d.to_vec(), format!("{} bytes at alignment {align}: panic", d.len()))),
        }
    };
    for (k, l) in lines.iter().enumerate() {
        let Some(t) = crate::unquote(l, "CRC ") else { continue };
        let Ok(v) = serde_json::from_str::<Value>(&t) else { continue };
        if let Some(runs) = v["runs"].as_array() {
            // long runs of equal bytes: the data as far as each of them
            let cs: Vec<u32> = v["cs"].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap() << 16 | x[1].as_u64().unwrap()) as u32).collect();
            let mut d: Vec<u8> = vec![];
            for (i, x) in runs.iter().enumerate() {
                d.resize(d.len() + (1usize << x[1].as_u64().unwrap()), x[0].as_u64().unwrap() as u8);
                check(&mut r, &d, cs[i + 1], (k + i) % 16);
            }
            r.cases += 1;
            if r.bad.len() >= 5 {
                return r;
            }
            continue;
        }
        let d: Vec<u8> = v["d"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        let cs: Vec<u32> = v["cs"].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap() << 16 | x[1].as_u64().unwrap()) as u32).collect();
        let by = v["by"].as_u64().unwrap() as usize;
        if (cs.len() - 1) * by != d.len() {
            continue;
        }
        r.cases += 1;
        if by > 1 {
            // the transcription agrees at every point the specification knows; lengths near
            // multiples of every power of two, at all alignments
            let mut sums = vec![pack::crc_final(pack::CRC_START)];
            let mut reg = pack::CRC_START;
            for &b in &d {
                reg = pack::crc_byte(reg, b);
                sums.push(pack::crc_final(reg));
            }
            for (i, &want) in cs.iter().enumerate() {
                assert_eq!(sums[i * by], want, "transcription of Crc.tla");
            }
            let mut lens: Vec<usize> = vec![];
            for p in 4..18 {
                for m in 1usize..6 {
                    for x in [0isize, 1, -1, 16, -16, 15, 17, 8] {
                        lens.push((m << p).saturating_add_signed(x).min(d.len()));
                    }
                }
            }
            lens.extend((0..d.len()).step_by(977));
            lens.sort();
            lens.dedup();
            for n in lens {
                for a in 0..16 {
                    check(&mut r, &d[..n], sums[n], a);
                }
                if r.bad.len() >= 5 {
                    return r;
                }
            }
            continue;
        }
        for (n, &want) in cs.iter().enumerate() {
            // the bit-serial transcription used for long data agrees with the specification
            assert_eq!(pack::crc(&d[..n]), want, "transcription of Crc.tla");
            check(&mut r, &d[..n], want, (k + n) % 16);
            if n + 1 == cs.len() || n % 16 == k % 16 {
                for a in 0..16 {
                    check(&mut r, &d[..n], want, a);
                }
            }
        }
        if r.bad.len() >= 5 {
            return r;
        }
    }
    // long data: blocks, remainders, alignments; uniform and random bytes
    let mut s = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    let mut rnd = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s
    };
    let mut n = 0usize;
    let mut budget = big;
    while budget > 0 {
        n += 1;
        let len = if n < 600 { n } else { (rnd() % if n % 50 == 0 { 300_000 } else { 6000 }) as usize };
        let d: Vec<u8> = match n % 5 {
            0 => vec![0; len],
            1 => vec![255; len],
            _ => (0..len).map(|_| rnd() as u8).collect(),
        };
        let want = pack::crc(&d);
        check(&mut r, &d, want, n % 16);
        r.cases += 1;
        budget = budget.saturating_sub(len + 1);
        if r.bad.len() >= 5 {
            break;
        }
    }
    r
}
