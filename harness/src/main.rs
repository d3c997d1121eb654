mod check;
mod crccheck;
mod flat;
mod json;
mod mem;
mod mutants;
mod orders;
mod pack;
mod pos;
mod tok;

use check::{Bad, Opts, Runner, Stats};
use serde_json::{json, Value};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

#[global_allocator]
static A: mem::Counting = mem::Counting;

fn arg(args: &[String], name: &str, d: &str) -> String {
    args.iter().position(|a| a == name).map(|i| args[i + 1].clone()).unwrap_or(d.to_string())
}
/// this thread's number, and the processor time a thread has spent, in hundredths of a second
fn tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}
fn spent(tid: u64) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    n(11) + n(12)
}
/// CASE lines of TLC's output: a quoted string holding JSON
pub fn unquote(line: &str, tag: &str) -> Option<String> {
    let l = line.trim_end();
    let body = l.strip_prefix('"')?.strip_prefix(tag)?.strip_suffix('"')?;
    let mut s = String::with_capacity(body.len());
    let mut it = body.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => s.push('\n'),
                Some('t') => s.push('\t'),
                Some('r') => s.push('\r'),
                Some('f') => s.push('\u{c}'),
                Some(o) => s.push(o),
                None => {}
            }
        } else {
            s.push(c)
        }
    }
    Some(s)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("run") => run(&args[1..]),
        Some("crc") => crc(&args[1..]),
        Some("mutants") => mutate(&args[1..]),
        Some("digest") => digest(&args[1..]),
        _ => {
            eprintln!("usage: vharness run --aspects a,b --out stats.json --progress FILE --replays DIR [--only N] files...");
            std::process::exit(2)
        }
    }
}

const FLAGS: [&str; 20] = ["--order", "--slot", "--given", "--num", "--net", "--frames", "--kind", "--maxlen", "--aspects", "--out", "--progress", "--replays", "--only", "--tails", "--threads", "--max", "--skip", "--dump", "--seed", "--big"];

fn files_of(args: &[String]) -> Vec<String> {
    let mut files = vec![];
    let mut i = 0;
    while i < args.len() {
        if FLAGS.contains(&args[i].as_str()) {
            i += 2
        } else {
            files.push(args[i].clone());
            i += 1
        }
    }
    files
}
fn lines_of(files: &[String], tag: &str) -> Vec<String> {
    let mut lines: Vec<String> = vec![];
    let t = format!("\"{tag} ");
    for f in files {
        let data = std::fs::read(f).unwrap_or_else(|e| panic!("{f}: {e}"));
        for l in data.split(|b| *b == b'\n') {
            if l.starts_with(t.as_bytes()) {
                lines.push(String::from_utf8_lossy(l).into_owned());
            }
        }
    }
    lines
}
fn crc(args: &[String]) {
    let lines = lines_of(&files_of(args), "CRC");
    let t0 = Instant::now();
    let r = crccheck::run(&lines, arg(args, "--seed", "1").parse().unwrap(), arg(args, "--big", "3000000").parse().unwrap());
    let replays = arg(args, "--replays", "/tmp");
    for (k, (d, w)) in r.bad.iter().enumerate() {
        let p = format!("{replays}/crc-{k}-{}.bin", std::process::id());
        let _ = std::fs::write(&p, d);
        println!("BAD aspect=crc case={k} replay={p} {w}");
    }
    let path = arg(args, "--out", "");
    if !path.is_empty() {
        let j = json!({"cases": r.cases, "parses": r.evals, "bytes": 0, "kinds": {"checksums": r.evals}, "max_mem": 0, "max_mem_ratio": 0.0, "wall_s": t0.elapsed().as_secs_f64()});
        std::fs::write(path, j.to_string()).unwrap();
    }
    if r.bad.is_empty() {
        println!("OK cases={} parses={}", r.cases, r.evals);
    } else {
        std::process::exit(1)
    }
}

/// writes replays for the specification to read, one JSON object per line
fn mutate(args: &[String]) {
    let num = |n: &str, d: &str| -> usize { arg(args, n, d).parse().unwrap() };
    let seed = num("--seed", "1") as u64;
    let files = files_of(args);
    let out = match arg(args, "--kind", "generated").as_str() {
        "generated" => {
            let lines = lines_of(&files, "CASE");
            let cases: Vec<Value> = lines.iter().filter_map(|l| unquote(l, "CASE ").and_then(|t| serde_json::from_str(&t).ok())).collect();
            mutants::generated(&cases, num("--num", "1000"), seed, num("--maxlen", "6000"))
        }
        k => mutants::existing(&files, num("--num", "20"), seed, num("--net", "3000"), num("--frames", "20") as i32, k == "whole"),
    };
    std::fs::write(arg(args, "--out", "/dev/stdout"), out.concat()).unwrap();
}

/// a digest of every result, in the order of the inputs whatever the order of the parses
fn digest(args: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    let lines = lines_of(&files_of(args), "CASE");
    let path = arg(args, "--out", "/dev/stdout");
    if let Ok(slot) = arg(args, "--slot", "").parse::<usize>() {
        std::fs::write(path, orders::input(&lines, slot)).unwrap();
        return;
    }
    let r = orders::run(&lines, &arg(args, "--order", "fwd"), arg(args, "--threads", "1").parse().unwrap());
    std::fs::write(path, r.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()).unwrap();
}

fn run(args: &[String]) {
    let opts = Opts {
        aspects: arg(args, "--aspects", "net,file").split(',').map(String::from).collect(),
        tails: arg(args, "--tails", "1").parse().unwrap(),
        given: Some(arg(args, "--given", "")).filter(|s| !s.is_empty()).map(|p| mutants::read_given(&p)).unwrap_or_default(),
        dump: Some(arg(args, "--dump", "")).filter(|s| !s.is_empty()),
    };
    let threads: usize = arg(args, "--threads", "8").parse().unwrap();
    let only: Option<u64> = arg(args, "--only", "").parse().ok();
    let maxbad: usize = arg(args, "--max", "5").parse().unwrap();
    let replays = arg(args, "--replays", "/tmp");
    let progress = arg(args, "--progress", "");
    let lines = lines_of(&files_of(args), "CASE");
    let prog = if progress.is_empty() { None } else { Some(std::fs::File::create(&progress).unwrap()) };
    std::panic::set_hook(Box::new(|_| {}));
    let next = AtomicUsize::new(0);
    let starts: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let tids: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicUsize::new(0);
    let t0 = Instant::now();
    let bads: Mutex<Vec<(u64, Bad)>> = Mutex::new(vec![]);
    let stats = Mutex::new(Stats::default());
    std::thread::scope(|s| {
        for t in 0..threads {
            let (opts, lines, next, starts, tids, bads, stats, prog, done, t0) = (&opts, &lines, &next, &starts, &tids, &bads, &stats, &prog, &done, &t0);
            s.spawn(move || {
                let mut r = Runner::new(opts);
                tids[t].store(tid(), SeqCst);
                loop {
                    let k = next.fetch_add(1, SeqCst);
                    if k >= lines.len() || bads.lock().unwrap().len() >= maxbad {
                        break;
                    }
                    if only.is_some() && only != Some(k as u64) {
                        continue;
                    }
                    if let Some(p) = prog {
                        let _ = p.write_at(&(k as u64 + 1).to_le_bytes(), 8 * t as u64);
                    }
                    let Some(txt) = unquote(&lines[k], "CASE ") else { continue };
                    let case: Value = match serde_json::from_str(&txt) {
                        Ok(v) => v,
                        Err(e) => {
                            // an output line cut short when TLC was stopped
                            eprintln!("case {k}: {e}");
                            continue;
                        }
                    };
                    starts[t].store((t0.elapsed().as_millis() as u64) << 32 | (k as u64 + 1), SeqCst);
                    let res = r.case(&case, k as u64);
                    starts[t].store(0, SeqCst);
                    if let Err(b) = res {
                        bads.lock().unwrap().push((k as u64, b));
                    }
                }
                if let Some(p) = prog {
                    let _ = p.write_at(&0u64.to_le_bytes(), 8 * t as u64);
                }
                stats.lock().unwrap().merge(std::mem::take(&mut r.st));
                done.fetch_add(1, SeqCst);
            });
        }
        // a case that never ends: a minute of processor time, or five minutes by the clock
        let mut cpu: Vec<(u64, u64)> = vec![(0, 0); threads];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(20));
            if done.load(SeqCst) == threads {
                break;
            }
            let now = t0.elapsed().as_millis() as u64;
            for (t, x) in starts.iter().enumerate() {
                let v = x.load(SeqCst);
                if v != cpu[t].0 {
                    cpu[t] = (v, spent(tids[t].load(SeqCst)));
                }
                let wall = now.saturating_sub(v >> 32);
                if v != 0 && wall > 60_000 && (wall > 300_000 || spent(tids[t].load(SeqCst)).saturating_sub(cpu[t].1) > 6000) {
                    println!("HANG thread {t} case {}", (v & 0xffff_ffff) - 1);
                    std::process::exit(4);
                }
            }
        }
    });
    let bads = bads.into_inner().unwrap();
    let mut out = vec![];
    for (k, b) in &bads {
        let name = format!("{replays}/{}-{k}-{}", b.aspect, std::process::id());
        let _ = std::fs::write(format!("{name}.replay"), &b.bytes);
        let _ = std::fs::write(format!("{name}.case.json"), unquote(&lines[*k as usize], "CASE ").unwrap_or_default());
        let _ = std::fs::write(format!("{name}.txt"), &b.what);
        println!("BAD aspect={} case={k} replay={name}.replay {}", b.aspect, b.what.replace('\n', " | "));
        out.push(json!({"aspect": b.aspect, "case": k, "what": b.what, "replay": format!("{name}.replay")}));
    }
    let s = stats.into_inner().unwrap();
    let j = json!({"cases": s.cases, "parses": s.parses, "bytes": s.bytes, "kinds": s.kinds, "max_mem": s.max_mem, "max_mem_ratio": s.max_mem_ratio,
        "bad": out, "wall_s": t0.elapsed().as_secs_f64()});
    let path = arg(args, "--out", "");
    if !path.is_empty() {
        std::fs::write(path, j.to_string()).unwrap();
    }
    if bads.is_empty() {
        println!("OK cases={} parses={}", s.cases, s.parses);
    } else {
        std::process::exit(1)
    }
}
