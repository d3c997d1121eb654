//! Runs the real decoder on a specified behaviour and compares what it does.
use crate::flat::{accessed, file_toks, frames_toks};
use crate::json;
use crate::pack::*;
use crate::tok::{codes, diff, toks, Subst, Tok};
use boxcars::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::error::Error;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Opts {
    pub aspects: BTreeSet<String>,
    /// numbers of trailing bytes tried for network-only cases
    pub tails: usize,
    /// write the bytes of each parse here before it starts, to find what crashes
    pub dump: Option<String>,
    /// replays the specification was given to read
    pub given: Vec<Vec<u8>>,
}
impl Opts {
    pub fn has(&self, a: &str) -> bool {
        self.aspects.contains(a)
    }
}
#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub parses: u64,
    pub bytes: u64,
    pub kinds: BTreeMap<String, u64>,
    pub max_mem_ratio: f64,
    pub max_mem: u64,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.parses += o.parses;
        self.bytes += o.bytes;
        for (k, v) in o.kinds {
            *self.kinds.entry(k).or_default() += v;
        }
        self.max_mem_ratio = self.max_mem_ratio.max(o.max_mem_ratio);
        self.max_mem = self.max_mem.max(o.max_mem);
    }
    fn kind(&mut self, k: String) {
        *self.kinds.entry(k).or_default() += 1;
    }
}
pub struct Bad {
    pub aspect: String,
    pub what: String,
    pub bytes: Vec<u8>,
}

pub type R = Result<Replay, ParseError>;
/// held while a vast input exists
static VAST: std::sync::Mutex<()> = std::sync::Mutex::new(());

pub fn parse_with(d: &[u8], c: CrcCheck, n: NetworkParse) -> R {
    ParserBuilder::new(d).with_crc_check(c).with_network_parse(n).parse()
}
pub const CRCS: [CrcCheck; 3] = [CrcCheck::Always, CrcCheck::OnError, CrcCheck::Never];
pub const NETS: [NetworkParse; 3] = [NetworkParse::Always, NetworkParse::IgnoreOnError, NetworkParse::Never];

fn inner(mut e: &ParseError) -> &ParseError {
    while let ParseError::ParseError(_, _, x) = e {
        e = x;
    }
    e
}
fn vinner(mut e: &Value) -> &Value {
    while e[0] == "P" {
        e = &e[3];
    }
    e
}
fn cause_eq(spec: &Value, real: &ParseError) -> bool {
    match (st(&spec[0]), real) {
        ("Ins", ParseError::InsufficientData(w, r)) => int(&spec[1]) == *w as i64 && int(&spec[2]) == *r as i64,
        ("TTL", ParseError::TextTooLarge(n)) => int(&spec[1]) == *n as i64,
        ("LTL", ParseError::ListTooLarge(n)) => int(&spec[1]) as i32 as usize == *n,
        ("Utf8", ParseError::Utf8Error(e)) => int(&spec[1]) == e.valid_up_to() as i64,
        ("Unexp", ParseError::UnexpectedProperty(s)) => codes(&spec[1]) == *s,
        _ => false,
    }
}
/// file level errors, with or without section labels and offsets
pub fn file_err(spec: &Value, real: &ParseError, labels: bool) -> Option<String> {
    let no = || Some(format!("specified error {spec}, real {real:?}"));
    if !labels {
        return if cause_eq(vinner(spec), inner(real)) { None } else { no() };
    }
    match (st(&spec[0]), real) {
        ("P", ParseError::ParseError(l, o, x)) => {
            if st(&spec[1]) != *l || int(&spec[2]) != *o as i64 {
                return no();
            }
            file_err(&spec[3], x, true)
        }
        ("P", _) | (_, ParseError::ParseError(..)) => no(),
        _ => {
            if cause_eq(spec, real) {
                None
            } else {
                no()
            }
        }
    }
}
fn attr_err(spec: &Value, real: &AttributeError, labels: bool) -> bool {
    match (st(&spec[0]), real) {
        ("NotEnough", AttributeError::NotEnoughDataFor(l)) => !labels || st(&spec[1]) == *l,
        ("TooBig", AttributeError::TooBigString(n)) => int(&spec[1]) == *n as i64,
        ("BadRemote", AttributeError::UnrecognizedRemoteId(n)) => int(&spec[1]) == *n as i64,
        _ => false,
    }
}
/// network errors; spec is <<"err", e, ...>> or <<"seterr", e>>
pub fn net_err(spec: &Value, real: &ParseError, labels: bool) -> Option<String> {
    let no = || {
        let r = match real {
            ParseError::NetworkError(n) => match &**n {
                NetworkError::FrameError(e, _) => format!("{e:?}"),
                o => format!("{o:?}"),
            },
            o => format!("{o:?}"),
        };
        Some(format!("specified network error {}, real {r}", spec[1]))
    };
    let ParseError::NetworkError(n) = real else { return no() };
    let e = &spec[1];
    let ok = match (st(&spec[0]), &**n) {
        ("seterr", NetworkError::StreamTooLargeIndex(s, o)) => e[0] == "StreamIndex" && int(&e[1]) == *s as i64 && int(&e[2]) == *o as i64,
        ("seterr", NetworkError::TooManyFrames(k)) => e[0] == "TooManyFrames" && int(&e[1]) == *k as i64,
        ("err", NetworkError::FrameError(f, _)) => match (st(&e[0]), f) {
            ("NotEnough", FrameError::NotEnoughDataFor(l)) => !labels || st(&e[1]) == *l,
            ("Time", FrameError::TimeOutOfRange { time }) => time.to_bits() == int(&e[1]) as i32 as u32,
            ("DeltaRange", FrameError::DeltaOutOfRange { delta }) => delta.to_bits() == int(&e[1]) as i32 as u32,
            ("ObjRange", FrameError::ObjectIdOutOfRange { obj }) => int(&e[1]) == obj.0 as i64,
            ("MissingActor", FrameError::MissingActor { actor }) => int(&e[1]) == actor.0 as i64,
            ("MissingCache", FrameError::MissingCache { actor, actor_object }) => int(&e[1]) == actor.0 as i64 && int(&e[2]) == actor_object.0 as i64,
            ("MissingAttr", FrameError::MissingAttribute { actor, actor_object, attribute_stream }) => {
                int(&e[1]) == actor.0 as i64 && int(&e[2]) == actor_object.0 as i64 && int(&e[3]) == attribute_stream.0 as i64
            }
            ("Attr", FrameError::AttributeError { actor, actor_object, attribute_stream, error }) => {
                int(&e[1]) == actor.0 as i64
                    && int(&e[2]) == actor_object.0 as i64
                    && int(&e[3]) == attribute_stream.0 as i64
                    && attr_err(&e[4], error, labels)
            }
            _ => false,
        },
        _ => false,
    };
    if ok {
        None
    } else {
        no()
    }
}

pub struct Spec {
    pub file_err: bool,
    pub net_ok: bool,
    pub ftoks: Vec<Tok>,
    pub frames: Vec<Tok>,
    pub file: bool,
}
pub fn spec_of(case: &Value, b: &Built) -> Spec {
    let sub = Subst { hsize: b.hsize, csize: b.csize, hcrc: b.hcrc, ccrc: b.ccrc };
    let mut ftoks = vec![];
    let file = case["file"].as_bool() == Some(true);
    if file {
        toks(&case["fout"], Some(&sub), &mut ftoks);
    }
    let mut frames = vec![];
    toks(&case["frames"], Some(&sub), &mut frames);
    Spec { file_err: case["err"][0] != "none", net_ok: case["nres"][0] == "ok", ftoks, frames, file }
}
fn kind_of(case: &Value) -> String {
    let e = &case["err"];
    if e[0] != "none" {
        let lab = if e[0] == "P" { st(&e[1]) } else { "" };
        return format!("file:{}:{}", lab, st(&vinner(e)[0]));
    }
    let n = &case["nres"];
    match st(&n[0]) {
        "ok" => "net:ok".into(),
        "seterr" => format!("net:{}", st(&n[1][0])),
        "none" => "none".into(),
        _ => {
            let e = &n[1];
            match st(&e[0]) {
                "Attr" => {
                    let i = &e[4];
                    format!("net:Attr:{}:{}", st(&i[0]), if i[0] == "NotEnough" { st(&i[1]) } else { "" })
                }
                "NotEnough" => format!("net:NotEnough:{}", st(&e[1])),
                o => format!("net:{o}"),
            }
        }
    }
}

/// what a result looks like from outside, as comparable text
pub fn render(r: &R) -> String {
    match r {
        Ok(x) => {
            let mut s = format!("{:?}", file_toks(x));
            match &x.network_frames {
                None => s.push_str("no frames"),
                Some(f) => s.push_str(&format!("{:?}", frames_toks(&f.frames))),
            }
            s
        }
        Err(e) => {
            let mut s = format!("{e}");
            let mut c: Option<&dyn Error> = e.source();
            while let Some(x) = c {
                s.push_str(&format!(" <- {x}"));
                c = x.source();
            }
            s
        }
    }
}

fn sources(e: &ParseError) -> Vec<String> {
    let mut v = vec![];
    let mut c: Option<&dyn Error> = e.source();
    while let Some(x) = c {
        v.push(x.to_string());
        c = x.source();
    }
    v
}

/// the rendered message carries the operands, and the source chain reaches the cause
fn messages(case: &Value, e: &ParseError) -> Option<String> {
    let msg = e.to_string();
    let need = |s: String| -> Option<String> {
        if msg.contains(&s) {
            None
        } else {
            Some(format!("message lacks {s:?}: {}", msg.chars().take(1500).collect::<String>()))
        }
    };
    macro_rules! want { ($($x:expr),* $(,)?) => { { $( if let Some(b) = need($x) { return Some(b) } )* } } }
    let chain = sources(e);
    if case["err"][0] != "none" {
        let mut s = &case["err"];
        let mut depth = 0;
        while s[0] == "P" {
            want!(st(&s[1]).to_string(), format!("({})", int(&s[2])));
            s = &s[3];
            depth += 1;
        }
        match st(&s[0]) {
            "Ins" => want!(format!("Expected {} bytes", int(&s[1])), format!("only {} left", int(&s[2]))),
            "TTL" => want!(int(&s[1]).to_string()),
            "LTL" => want!((int(&s[1]) as i32 as usize).to_string()),
            "Unexp" => want!(codes(&s[1])),
            "Utf8" => depth += 1,
            _ => {}
        }
        if s[0] == "Utf8" {
            want!(format!("{}", int(&s[1])));
        }
        if chain.len() != depth {
            return Some(format!("source chain has {} links, {} specified: {chain:?}", chain.len(), depth));
        }
        return None;
    }
    let n = &case["nres"];
    let f = &n[1];
    if n[0] == "seterr" {
        match st(&f[0]) {
            "StreamIndex" => want!(int(&f[1]).to_string(), int(&f[2]).to_string()),
            _ => want!(int(&f[1]).to_string()),
        }
        return None;
    }
    let fl = |v: &Value| f32::from_bits(int(v) as i32 as u32).to_string();
    let netonly = case["file"].as_bool() != Some(true);
    let objname = |i: i64| -> String {
        case["cfg"]["objs"].as_array().and_then(|o| o.get(i as usize)).and_then(|s| s.as_str()).map(crate::pack::objname).unwrap_or_default()
    };
    match st(&f[0]) {
        "NotEnough" => want!(st(&f[1]).to_string()),
        "Time" | "DeltaRange" => want!(fl(&f[1])),
        "ObjRange" => want!(format!("{}", int(&f[1]))),
        "MissingActor" => want!(format!("actor: {}", int(&f[1]))),
        "MissingCache" => {
            want!(format!("{} / {}", int(&f[1]), int(&f[2])));
            if netonly {
                want!(format!("({})", objname(int(&f[2]))));
            }
        }
        "MissingAttr" => {
            want!(format!("actor id: {}", int(&f[1])), format!("object id: {}", int(&f[2])), format!("stream id: {}", int(&f[3])));
            // an attribute that is listed but not known is named
            if int(&f[4]) >= 0 && netonly {
                want!(objname(int(&f[4])));
            }
            if int(&f[4]) < 0 && netonly {
                want!(format!("id ({}) on {} in", int(&f[3]), objname(int(&f[2]))));
                // as are those that other classes give the stream id
                if f[5].is_array() {
                    let names = |v: &Value| {
                        let mut n: Vec<String> = arr(v).iter().map(|i| objname(int(i))).collect();
                        n.sort();
                        n.dedup();
                        n
                    };
                    let all: Vec<String> = names(&f[5]).iter().map(|n| format!("({n})")).collect();
                    want!(format!("unknown attributes: [{}]", names(&f[6]).join(", ")), format!("with that stream id: [{}]", all.join(", ")));
                }
            }
        }
        "Attr" => {
            want!(format!("{} / {} / {}", int(&f[1]), int(&f[2]), int(&f[3])));
            if netonly {
                want!(format!("on {} in", objname(int(&f[2]))));
            }
            let i = &f[4];
            match st(&i[0]) {
                "NotEnough" => want!(st(&i[1]).to_string()),
                _ => want!(int(&i[1]).to_string()),
            }
        }
        _ => {}
    }
    want!(format!("Current frame: {} (time: {} delta: {})", int(&n[2]), fl(&n[3]), fl(&n[4])));
    let activity = |a: &Value| -> Vec<String> {
        match st(&a[0]) {
            "upd" => {
                let mut v = vec![
                    "Last actor update:".to_string(),
                    format!("actor id: {}", int(&a[1])),
                    format!("attribute stream id: {}", int(&a[3])),
                    format!("attribute object id: {}", int(&a[4])),
                ];
                if int(&a[2]) == int(&a[5]) {
                    v.push(format!("object id: {}", int(&a[2])));
                }
                v
            }
            "new" => {
                let name = if a[2][0] == "n" { "<none>".to_string() } else { int(&a[2][1]).to_string() };
                vec![
                    "Last new actor:".to_string(),
                    format!("actor id: {}", int(&a[1])),
                    format!("name id: {name}"),
                    format!("object id: {}", int(&a[3])),
                ]
            }
            _ => vec![],
        }
    };
    for s in activity(&n[5]) {
        want!(s);
    }
    if n[6][0] != "none" {
        want!(format!("Retrace frame: {} ", int(&n[6][0])));
        for s in activity(&n[6][1]) {
            want!(s);
        }
    }
    // ParseError -> NetworkError -> FrameError (-> AttributeError)
    let deep = if f[0] == "Attr" { 3 } else { 2 };
    if chain.len() != deep {
        return Some(format!("source chain has {} links, {deep} specified", chain.len()));
    }
    None
}

fn finite(t: &[Tok]) -> bool {
    t.iter().all(|x| match x {
        Tok::F(b) => f32::from_bits(*b).is_finite(),
        Tok::Quat(q) => q.iter().all(|v| v.is_finite()),
        _ => true,
    })
}

pub struct Runner<'a> {
    pub o: &'a Opts,
    pub st: Stats,
    cur: Vec<u8>,
    prev: Vec<u8>,
    /// one place in memory that holds one replay after the other
    place: Vec<u8>,
}
type Res = Result<(), Bad>;
impl<'a> Runner<'a> {
    pub fn new(o: &'a Opts) -> Self {
        Runner { o, st: Stats::default(), cur: vec![], prev: vec![], place: Vec::with_capacity(1 << 20) }
    }
    fn bad<T>(&self, aspect: &str, what: String) -> Result<T, Bad> {
        Err(Bad { aspect: aspect.into(), what, bytes: self.cur.clone() })
    }
    fn run(&mut self, d: &[u8], c: CrcCheck, n: NetworkParse) -> Result<R, Bad> {
        self.st.parses += 1;
        self.st.bytes += d.len() as u64;
        if let Some(p) = &self.o.dump {
            let _ = std::fs::write(p, d);
        }
        match catch_unwind(AssertUnwindSafe(|| parse_with(d, c, n))) {
            Ok(r) => Ok(r),
            Err(p) => {
                self.cur = if d.len() > 1 << 30 { vec![] } else { d.to_vec() };
                self.bad("panic", format!("panic with {c:?} {n:?}: {}", panic_text(&p)))
            }
        }
    }

    pub fn case(&mut self, case: &Value, idx: u64) -> Res {
        // vast inputs one at a time
        let _one = (case["skip"].as_i64().unwrap_or(0) > 0).then(|| VAST.lock().unwrap_or_else(|e| e.into_inner()));
        self.st.cases += 1;
        self.st.kind(kind_of(case));
        let v0 = Variant { tail: ((idx * 7) % 25) as usize, fill: idx % 5, bad: idx as usize };
        let r = self.one(case, v0, idx, true);
        if r.is_ok() && self.o.tails > 1 && case["given"] == 0 {
            for k in 1..self.o.tails {
                let t = [0usize, 8, 1, 7, 9, 16, 24, 2, 3, 4, 5, 6, 10, 11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 22, 23][(k - 1) % 25];
                let v = Variant { tail: t, fill: (idx + k as u64) % 3, bad: 0 };
                self.one(case, v, idx, false)?;
            }
        }
        r
    }

    fn one(&mut self, case: &Value, v: Variant, idx: u64, first: bool) -> Res {
        let o = self.o;
        let given = int(&case["given"]) as usize;
        let b = if given > 0 { Built::given(o.given[given - 1].clone(), case) } else { build(case, v) };
        let vast = case["skip"].as_i64().unwrap_or(0) > 0;
        self.cur = if vast { vec![] } else { b.bytes.clone() };
        let sp = spec_of(case, &b);
        // checksum and network policy out of the way: what the bytes mean
        let r = self.run(&b.bytes, CrcCheck::Never, NetworkParse::Always)?;
        self.meaning(case, &sp, &r)?;
        if !first {
            return Ok(());
        }
        if o.has("total") {
            self.total(&b.bytes)?;
        }
        if o.has("policy") {
            self.policy(case, &sp, &b)?;
            if given == 0 && (case["hgood"] == false || case["bgood"] == false) {
                // whatever the wrong stored value is
                for k in 1..BADS {
                    let b = build(case, Variant { bad: v.bad + k, ..v });
                    self.cur = b.bytes.clone();
                    let sp = spec_of(case, &b);
                    self.policy(case, &sp, &b)?;
                }
            }
        }
        if o.has("msg") {
            if let Err(e) = &r {
                if let Some(w) = messages(case, e) {
                    return self.bad("msg", w);
                }
            }
        }
        if o.has("json") {
            self.json(&sp, &r, &b)?;
        }
        if o.has("serde") {
            self.serde(&r)?;
        }
        if o.has("trunc") && given == 0 {
            self.trunc(case, &sp, &b, idx)?;
        }
        if o.has("alloc") {
            self.alloc(&b.bytes)?;
        }
        if o.has("pure") {
            self.pure(&b, &r, idx)?;
        }
        if o.has("access") {
            self.access(&sp, &r)?;
        }
        if o.has("tailnest") && !vast {
            self.tailnest(case, &b)?;
        }
        if !vast {
            self.prev = b.bytes;
        }
        Ok(())
    }

    fn meaning(&mut self, case: &Value, sp: &Spec, r: &R) -> Res {
        let o = self.o;
        if sp.file_err {
            if o.has("file") || o.has("fileerr") {
                return match r {
                    Ok(_) => self.bad("file", format!("specified error {}, but parsed", case["err"])),
                    Err(e) => match file_err(&case["err"], e, o.has("fileerr")) {
                        Some(w) => self.bad("file", w),
                        None => Ok(()),
                    },
                };
            }
            return Ok(());
        }
        let netchk = o.has("net") || o.has("neterr");
        match r {
            Err(e) => {
                if !matches!(e, ParseError::NetworkError(_)) {
                    return if o.has("file") || netchk { self.bad("file", format!("no file error specified, real {e:?}")) } else { Ok(()) };
                }
                if !netchk {
                    return Ok(());
                }
                if sp.net_ok {
                    return self.bad("net", format!("frames specified, real error {}", e.to_string().lines().take(8).collect::<Vec<_>>().join(" | ")));
                }
                match net_err(&case["nres"], e, o.has("neterr")) {
                    Some(w) => self.bad("net", w),
                    None => Ok(()),
                }
            }
            Ok(x) => {
                if sp.file && o.has("file") {
                    if let Some(w) = diff(&sp.ftoks, &file_toks(x)) {
                        return self.bad("file", w);
                    }
                }
                if !netchk {
                    return Ok(());
                }
                if !sp.net_ok {
                    return self.bad("net", format!("specified network error {}, but frames were decoded", case["nres"][1]));
                }
                let Some(nf) = &x.network_frames else { return self.bad("net", "frames are absent".into()) };
                if nf.frames.len() as i64 != int(&case["nfr"]) {
                    return self.bad("net", format!("{} frames specified, {} decoded", int(&case["nfr"]), nf.frames.len()));
                }
                if let Some(w) = diff(&sp.frames, &frames_toks(&nf.frames)) {
                    return self.bad("net", w);
                }
                Ok(())
            }
        }
    }

    /// every policy ends with a value or an error that can be shown
    pub fn total(&mut self, d: &[u8]) -> Res {
        for c in CRCS {
            for n in NETS {
                if let Err(e) = self.run(d, c, n)? {
                    if catch_unwind(AssertUnwindSafe(|| (e.to_string(), format!("{e:?}"), sources(&e)))).is_err() {
                        self.cur = if d.len() > 1 << 30 { vec![] } else { d.to_vec() };
                        return self.bad("panic", format!("showing the error panics, {c:?} {n:?}"));
                    }
                }
            }
        }
        Ok(())
    }

    fn policy(&mut self, case: &Value, sp: &Spec, b: &Built) -> Res {
        let d = b.bytes.clone();
        let outs = arr(&case["outs"]);
        for (ci, c) in CRCS.iter().enumerate() {
            for (ni, n) in NETS.iter().enumerate() {
                let want = st(&outs[ci * 3 + ni]);
                // net-only cases are wrapped with right checksums; their tags come from a stage the wrapper reached
                let r = self.run(&d, *c, *n)?;
                let got = match &r {
                    Err(ParseError::CrcMismatch(s, a)) => {
                        let (which, stored) = if *s == b.hcrc && want != "mismatch-b" { ("h", b.hcrc) } else { ("b", b.ccrc) };
                        let good = *a == if which == "h" { stored_ok(b, true) } else { stored_ok(b, false) };
                        if *s != stored || !good {
                            return self.bad("policy", format!("{c:?} {n:?}: checksum mismatch operands {s} {a}"));
                        }
                        format!("mismatch-{which}")
                    }
                    Err(ParseError::CorruptReplay(s, e)) => {
                        if let Some(w) = file_err(&case["err"], e, self.o.has("fileerr")) {
                            return self.bad("policy", format!("{c:?} {n:?}: {w}"));
                        }
                        format!("corrupt-{s}")
                    }
                    Err(e @ ParseError::NetworkError(_)) => {
                        if let Some(w) = net_err(&case["nres"], e, false) {
                            return self.bad("policy", format!("{c:?} {n:?}: {w}"));
                        }
                        "neterr".into()
                    }
                    Err(e) => {
                        if sp.file_err {
                            if let Some(w) = file_err(&case["err"], e, self.o.has("fileerr")) {
                                return self.bad("policy", format!("{c:?} {n:?}: {w}"));
                            }
                        }
                        "err".into()
                    }
                    Ok(x) => {
                        if sp.file {
                            if let Some(w) = diff(&sp.ftoks, &file_toks(x)) {
                                return self.bad("policy", format!("{c:?} {n:?}: {w}"));
                            }
                        }
                        match &x.network_frames {
                            None => "noframes".into(),
                            Some(f) => {
                                if let Some(w) = diff(&sp.frames, &frames_toks(&f.frames)) {
                                    return self.bad("policy", format!("{c:?} {n:?}: {w}"));
                                }
                                "frames".to_string()
                            }
                        }
                    }
                };
                if got != want {
                    return self.bad("policy", format!("checksum {c:?}, network {n:?}: specified {want}, real {got}"));
                }
                // however the options are given, the result is the same
                let base = render(&r);
                for (k, alt) in builders(&d, *c, *n).into_iter().enumerate() {
                    self.st.parses += 1;
                    let x = catch_unwind(AssertUnwindSafe(alt));
                    match x {
                        Err(_) => return self.bad("panic", format!("builder {k} {c:?} {n:?}: panic")),
                        Ok(x) => {
                            let t = render(&x);
                            if t != base {
                                return self.bad("policy", format!("builder form {k} for {c:?} {n:?} gives {}, not {}", cut(&t), cut(&base)));
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn json(&mut self, sp: &Spec, r: &R, b: &Built) -> Res {
        let Ok(x) = r else {
            // without frames then
            if sp.file_err {
                return Ok(());
            }
            let r2 = self.run(&b.bytes, CrcCheck::Never, NetworkParse::Never)?;
            if let Ok(y) = &r2 {
                return self.json_of(sp, y, false);
            }
            return Ok(());
        };
        self.json_of(sp, x, true)
    }
    fn json_of(&mut self, sp: &Spec, x: &Replay, frames: bool) -> Res {
        let text = match serde_json::to_string(x) {
            Ok(t) => t,
            Err(e) => return self.bad("json", format!("serialization failed: {e}")),
        };
        let j = match json::parse(&text) {
            Ok(j) => j,
            Err(e) => return self.bad("json", format!("not JSON: {e}")),
        };
        let mut t: Vec<Tok> = if sp.file { sp.ftoks.clone() } else { file_toks(x) };
        // frames come after the content checksum
        let at = t.iter().position(|k| *k == Tok::K("content_crc".into())).unwrap_or(0);
        // the top-level field, not a property of that name: search from the end of properties
        let at = t.iter().rposition(|k| *k == Tok::K("content_crc".into())).unwrap_or(at);
        let mut ins = vec![Tok::K("network_frames".into())];
        if frames {
            ins.extend([Tok::Open, Tok::K("frames".into()), Tok::Arr]);
            ins.extend(sp.frames.iter().cloned());
            ins.extend([Tok::EndArr, Tok::Close]);
        } else {
            ins.push(Tok::Null);
        }
        let tail = t.split_off(at + 2);
        t.extend(ins);
        t.extend(tail);
        match json::matches(&t, 0, &j, &mut vec![]) {
            Ok(n) if n == t.len() => {}
            Ok(n) => return self.bad("json", format!("JSON covers {n} of {} tokens", t.len())),
            Err(e) => return self.bad("json", e),
        }
        // pretty output and a value tree say the same
        match serde_json::to_string_pretty(x) {
            Ok(p) if json::parse(&p).as_ref() == Ok(&j) => Ok(()),
            _ => self.bad("json", "pretty JSON differs".into()),
        }
    }

    /// what accessors and conversions say is what is specified
    fn access(&mut self, sp: &Spec, r: &R) -> Res {
        let Ok(x) = r else { return Ok(()) };
        if sp.file {
            if let Some(w) = diff(&sp.ftoks, &accessed(|| file_toks(x))) {
                return self.bad("access", w);
            }
        } else if let Some(w) = diff(&file_toks(x), &accessed(|| file_toks(x))) {
            return self.bad("access", w);
        }
        if let Some(f) = &x.network_frames {
            if let Some(w) = diff(&sp.frames, &accessed(|| frames_toks(&f.frames))) {
                return self.bad("access", w);
            }
        }
        // a copy is equal
        if x.clone() != *x && format!("{x:?}").find("NaN").is_none() {
            return self.bad("access", "a clone is not equal to its origin".into());
        }
        Ok(())
    }

    fn serde(&mut self, r: &R) -> Res {
        let Ok(x) = r else { return Ok(()) };
        let Some(nf) = &x.network_frames else { return Ok(()) };
        for f in &nf.frames {
            let one = [f.clone()];
            let t = frames_toks(&one);
            if !finite(&t) {
                continue;
            }
            self.st.kind("roundtrips".into());
            let text = match serde_json::to_string(f) {
                Ok(t) => t,
                Err(e) => return self.bad("serde", format!("to JSON: {e}")),
            };
            let back: Result<Frame, _> = serde_json::from_str(&text);
            let val: Result<Frame, _> = serde_json::to_value(f).and_then(serde_json::from_value);
            let reader: Result<Frame, _> = serde_json::from_reader(text.as_bytes());
            let pos = crate::pos::to_bytes(f).and_then(|b| crate::pos::from_bytes::<Frame>(&b).map_err(|e| e));
            let chk = |name: &str, y: Result<Frame, String>| -> Option<String> {
                match y {
                    Err(e) => Some(format!("{name}: {e}")),
                    Ok(y) => {
                        if y != *f {
                            return Some(format!("{name}: unequal frame"));
                        }
                        diff(&t, &frames_toks(&[y])).map(|w| format!("{name}: {w}"))
                    }
                }
            };
            for w in [
                chk("JSON text", back.map_err(|e| e.to_string())),
                chk("JSON value", val.map_err(|e| e.to_string())),
                chk("JSON reader", reader.map_err(|e| e.to_string())),
                chk("positional format", pos.map_err(|e| e.to_string())),
            ]
            .into_iter()
            .flatten()
            {
                return self.bad("serde", w);
            }
        }
        Ok(())
    }

    fn trunc(&mut self, case: &Value, sp: &Spec, b: &Built, idx: u64) -> Res {
        let need = b.need.min(b.bytes.len());
        // whole file: every prefix is an error
        let step = (need / 120).max(1);
        let mut cuts: BTreeSet<usize> = (0..need.min(40)).collect();
        cuts.extend((0..need).skip((idx as usize) % step).step_by(step));
        cuts.extend(need.saturating_sub(12)..need);
        for c in cuts {
            let d = b.bytes[..c].to_vec();
            let n = NETS[(c + idx as usize) % 3];
            let k = CRCS[1 + (c / 3) % 2];
            if let Ok(_) = self.run(&d, k, n)? {
                self.cur = d;
                return self.bad("trunc", format!("the first {c} of {need} bytes parse ({n:?})"));
            }
        }
        // the network data alone is cut
        if sp.file || sp.file_err || case["nres"][0] == "seterr" {
            return Ok(());
        }
        let Some((at, _)) = b.net else { return Ok(()) };
        let full = ((int(&case["pos"]).max(int(&case["min"])) + 7) / 8) as usize;
        if int(&case["lim"]) < BIG {
            return Ok(());
        }
        // an entry stands for one frame, or for a number of frames of equal length
        let ends: Vec<(i64, i64)> = std::iter::once((0, 0))
            .chain(arr(&case["ends"]).iter().flat_map(|e| (0..int(&e[2])).map(move |i| (int(&e[0]) + i * int(&e[3]), int(&e[1]) + i * int(&e[3])))))
            .collect();
        let mut nf = 0;
        for p in arr(&case["cfg"]["props"]) {
            if codes(&p["k"]) == "NumFrames" {
                if st(&p["t"]) == "Int" {
                    nf = int(&p["v"]);
                }
                break;
            }
        }
        if full > b.bytes.len() - at {
            return Ok(());
        }
        let net = b.bytes[at..at + full].to_vec();
        // tokens of the full frame list, to compare prefixes
        let mut starts = vec![0usize];
        let mut depth = 0;
        for (i, t) in sp.frames.iter().enumerate() {
            match t {
                Tok::Open => depth += 1,
                Tok::Close => {
                    depth -= 1;
                    if depth == 0 {
                        starts.push(i + 1)
                    }
                }
                _ => {}
            }
        }
        let step = (full / 60).max(1);
        let mut cuts: BTreeSet<usize> = (0..full).skip(idx as usize % step).step_by(step).collect();
        cuts.extend(full.saturating_sub(4)..full);
        for e in ends.iter().step_by((ends.len() / 60).max(1)) {
            for c in [e.0 / 8 - 1, e.0 / 8, e.0 / 8 + 1] {
                if c >= 0 && (c as usize) < full {
                    cuts.insert(c as usize);
                }
            }
        }
        for c in cuts {
            let w = wrap_net(&case["cfg"], &net[..c]);
            self.cur = w.bytes.clone();
            let bits = 8 * c as i64;
            let mut expect: Option<usize> = None;
            for (k, e) in ends.iter().enumerate() {
                // a frame may end here: nothing is left, and what it needed was there
                if e.0 == bits && e.1 <= bits && nf <= c as i64 && nf >= 0 {
                    expect = Some(k);
                }
            }
            let r = self.run(&w.bytes, CrcCheck::Always, NetworkParse::Always)?;
            match (&r, expect) {
                (Err(ParseError::NetworkError(_)), None) => {}
                (Err(e), None) => return self.bad("trunc", format!("network data cut at byte {c}: error outside the network data: {e}")),
                (Err(e), Some(k)) => return self.bad("trunc", format!("network data cut at byte {c}, after frame {k}: {k} frames specified, real error {}", cut(&e.to_string()))),
                (Ok(x), e) => {
                    let fr = &x.network_frames.as_ref().map(|f| f.frames.clone()).unwrap_or_default();
                    let Some(k) = e else {
                        return self.bad("trunc", format!("network data cut at byte {c}, inside a frame, decodes to {} frames", fr.len()));
                    };
                    let want = &sp.frames[..starts[k.min(starts.len() - 1)]];
                    if let Some(w) = diff(want, &frames_toks(fr)) {
                        return self.bad("trunc", format!("network data cut at byte {c}: {w}"));
                    }
                }
            }
            let ig = self.run(&w.bytes, CrcCheck::Always, NetworkParse::IgnoreOnError)?;
            match &ig {
                Err(e) => return self.bad("trunc", format!("network data cut at byte {c}, errors ignored: {}", cut(&e.to_string()))),
                Ok(x) => {
                    if x.network_frames.is_some() != expect.is_some() {
                        return self.bad("trunc", format!("network data cut at byte {c}, errors ignored: frames present is {}", x.network_frames.is_some()));
                    }
                }
            }
        }
        Ok(())
    }

    pub fn alloc(&mut self, d: &[u8]) -> Res {
        for n in [NetworkParse::Always, NetworkParse::Never] {
            self.st.parses += 1;
            let (r, peak, largest) = crate::mem::measure(|| catch_unwind(AssertUnwindSafe(|| parse_with(d, CrcCheck::Never, n))).is_ok());
            if !r {
                return self.bad("panic", "panic while measuring".into());
            }
            // a list of 25000 is reserved before it is read; header arrays nest, other lists do not
            let arrays = d.windows(13).filter(|w| w == b"ArrayProperty").count().min(64);
            let constant = (8 << 20) + arrays * 700_000;
            // a frame or update of a few bits becomes a whole structure, and an error keeps a copy;
            // outside of the network data everything takes at least some bytes
            let factor = if n == NetworkParse::Never { 40 } else { 2000 };
            let bound = constant + factor * d.len();
            self.st.max_mem = self.st.max_mem.max(peak as u64);
            if d.len() > 2000 {
                self.st.max_mem_ratio = self.st.max_mem_ratio.max(peak as f64 / d.len() as f64);
            }
            if peak > bound || largest > bound {
                return self.bad("alloc", format!("{} bytes of input, {peak} bytes allocated at once ({largest} in one request), bound {bound}", d.len()));
            }
        }
        Ok(())
    }

    fn pure(&mut self, b: &Built, r: &R, idx: u64) -> Res {
        let base = render(r);
        let d = b.bytes.clone();
        let prev = std::mem::take(&mut self.prev);
        // again, after something else, and elsewhere in memory
        if !prev.is_empty() {
            let _ = self.run(&prev, CrcCheck::Never, NetworkParse::Always)?;
        }
        for off in 0..3usize {
            let o = (idx as usize + off * 3) % 16;
            let mut buf = vec![0xa5u8; o];
            buf.extend(&d);
            buf.extend([0x5a; 11]);
            let x = self.run(&buf[o..o + d.len()], CrcCheck::Never, NetworkParse::Always)?;
            let t = render(&x);
            if t != base {
                return self.bad("pure", format!("at offset {o}: {} instead of {}", cut(&t), cut(&base)));
            }
        }
        self.same_place(&d, idx)?;
        if idx % 8 == 0 {
            let other = prev.clone();
            let bad = std::thread::scope(|s| {
                let hs: Vec<_> = (0..4)
                    .map(|k| {
                        let (d, other, base) = (&d, &other, &base);
                        s.spawn(move || {
                            for i in 0..3 {
                                if k % 2 == 1 && !other.is_empty() && i < 2 {
                                    let _ = catch_unwind(AssertUnwindSafe(|| parse_with(other, CrcCheck::Never, NetworkParse::Always)));
                                } else if render(&parse_with(d, CrcCheck::Never, NetworkParse::Always)) != *base {
                                    return true;
                                }
                            }
                            false
                        })
                    })
                    .collect();
                hs.into_iter().any(|h| h.join().unwrap_or(true))
            });
            self.st.parses += 12;
            if bad {
                return self.bad("pure", "a result differs in parallel threads".into());
            }
        }
        // header and body do not depend on what the network data contains
        if let Some((at, len)) = b.net {
            if len > 0 && at + len <= d.len() {
                let r0 = self.run(&d, CrcCheck::Never, NetworkParse::Never)?;
                for m in 0..2u8 {
                    let mut e = d.clone();
                    for (i, x) in e[at..at + len].iter_mut().enumerate() {
                        *x = if m == 0 { *x ^ 0x5a } else { (i as u8).wrapping_mul(37) };
                    }
                    let r1 = self.run(&e, CrcCheck::Never, NetworkParse::Never)?;
                    let r2 = self.run(&e, CrcCheck::Never, NetworkParse::IgnoreOnError)?;
                    let same = match (&r0, &r1, &r2) {
                        (Ok(a), Ok(b), Ok(c)) => {
                            let t = file_toks(a);
                            format!("{t:?}") == format!("{:?}", file_toks(b)) && format!("{t:?}") == format!("{:?}", file_toks(c))
                        }
                        (Err(_), Err(_), Err(_)) => render(&r0) == render(&r1) && render(&r0) == render(&r2),
                        _ => false,
                    };
                    if !same {
                        return self.bad("pure", "header or body change with the contents of the network data".into());
                    }
                }
            }
        }
        Ok(())
    }

    /// what was parsed at an address before has no influence
    fn same_place(&mut self, d: &[u8], idx: u64) -> Res {
        if d.is_empty() || d.len() > 1 << 16 {
            return Ok(());
        }
        let mut place = std::mem::take(&mut self.place);
        let n = d.len();
        let h = |k: u64| (idx.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ k.wrapping_mul(0xbf58_476d_1ce4_e5b9)) >> 17;
        let hs = if n > 3 { i32::from_le_bytes(d[..4].try_into().unwrap()).clamp(0, n as i32) as usize } else { 0 };
        // what to change: either checksum, either section, anything
        let spots = [4, hs + 12, 8 + h(1) as usize % hs.max(1), hs + 16 + h(2) as usize % n, h(3) as usize % n];
        let mut contents = vec![d.to_vec()];
        for (i, at) in spots.into_iter().enumerate() {
            if at < n {
                let mut e = d.to_vec();
                e[at] ^= 1 << (h(4) as usize + i) % 8;
                contents.push(e);
                contents.push(d.to_vec());
            }
        }
        let (c, np) = [(CrcCheck::Always, NetworkParse::Always), (CrcCheck::OnError, NetworkParse::Always), (CrcCheck::OnError, NetworkParse::Never)][idx as usize % 3];
        let mut wants = vec![];
        for e in &contents {
            let fresh = e.clone();
            wants.push((render(&self.run(&fresh, c, np)?), crc(&fresh)));
        }
        // one after the other, and nothing in between
        let mut what = None;
        for (i, (e, (want, sum))) in contents.iter().zip(&wants).enumerate() {
            place.clear();
            place.extend(e);
            let got = render(&self.run(&place, c, np)?);
            if got != *want {
                what = Some(format!("in a buffer used before (use {i}, {c:?}, {np:?}): {} instead of {}", cut(&got), cut(want)));
            } else if i > 0 && idx % 4 == 0 {
                // and the public checksum alone
                let (x, want) = (boxcars::crc::calc_crc(&place), *sum);
                place[n / 2] ^= 1;
                let (y, want2) = (boxcars::crc::calc_crc(&place), crc(&place));
                if (x, y) != (want, want2) {
                    what = Some(format!("checksums {x:08x} {y:08x} of one buffer before and after a change, expected {want:08x} {want2:08x}"));
                }
            }
            if what.is_some() {
                self.cur = e.clone();
                break;
            }
        }
        self.place = place;
        what.map_or(Ok(()), |w| self.bad("pure", w))
    }

    /// what follows a rejected construct is irrelevant, however deep it nests
    fn tailnest(&mut self, case: &Value, b: &Built) -> Res {
        if case["cfg"]["label"] != "nest" || case["err"][0] == "none" {
            return Ok(());
        }
        for (k, unit) in [nest_unit(true), nest_unit(false)].into_iter().enumerate() {
            let mut d = b.bytes.clone();
            for _ in 0..60_000 {
                d.extend(&unit);
            }
            self.cur = d.clone();
            let r = self.run(&d, CrcCheck::Never, NetworkParse::Always)?;
            match &r {
                Ok(_) => return self.bad("file", "deep nesting accepted".into()),
                Err(e) => {
                    if let Some(w) = file_err(&case["err"], e, true) {
                        return self.bad("file", format!("with {k}-tail: {w}"));
                    }
                }
            }
        }
        Ok(())
    }
}
fn nest_unit(st: bool) -> Vec<u8> {
    let mut u = vec![];
    pstr(&mut u, "a");
    pstr(&mut u, if st { "StructProperty" } else { "ArrayProperty" });
    u.extend([0u8; 8]);
    if st {
        pstr(&mut u, "x");
    } else {
        u.extend(1i32.to_le_bytes());
    }
    u
}
fn stored_ok(b: &Built, header: bool) -> u32 {
    let word = |at: usize| i32::from_le_bytes(b.bytes[at..at + 4].try_into().unwrap());
    if header {
        crc(&b.bytes[8..8 + word(0) as usize])
    } else {
        let at = b.body.unwrap_or(0);
        crc(&b.bytes[at + 8..at + 8 + word(at) as usize])
    }
}
fn cut(s: &str) -> String {
    s.chars().take(400).collect()
}
pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}
type Alt<'d> = Box<dyn FnOnce() -> R + 'd>;
/// other ways to ask for the same thing
fn builders<'d>(d: &'d [u8], c: CrcCheck, n: NetworkParse) -> Vec<Alt<'d>> {
    fn crc<'a>(b: ParserBuilder<'a>, c: CrcCheck) -> ParserBuilder<'a> {
        match c {
            CrcCheck::Always => b.always_check_crc(),
            CrcCheck::OnError => b.on_error_check_crc(),
            CrcCheck::Never => b.never_check_crc(),
        }
    }
    fn net<'a>(b: ParserBuilder<'a>, n: NetworkParse) -> ParserBuilder<'a> {
        match n {
            NetworkParse::Always => b.must_parse_network_data(),
            NetworkParse::IgnoreOnError => b.ignore_network_data_on_error(),
            NetworkParse::Never => b.never_parse_network_data(),
        }
    }
    let mut v: Vec<Alt<'d>> = vec![
        Box::new(move || crc(net(ParserBuilder::new(d), n), c).parse()),
        Box::new(move || net(crc(ParserBuilder::new(d), c), n).parse()),
        // the last setting wins
        Box::new(move || {
            let mut b = ParserBuilder::new(d);
            for x in CRCS {
                b = crc(b, x);
            }
            for x in NETS {
                b = net(b, x).with_network_parse(x);
            }
            net(b.with_crc_check(c), n).parse()
        }),
        Box::new(move || ParserBuilder::new(d).with_network_parse(n).with_crc_check(c).clone().parse()),
    ];
    if c == CrcCheck::OnError {
        v.push(Box::new(move || net(ParserBuilder::new(d), n).parse()));
    }
    if n == NetworkParse::IgnoreOnError {
        v.push(Box::new(move || crc(ParserBuilder::new(d), c).parse()));
    }
    if c == CrcCheck::OnError && n == NetworkParse::IgnoreOnError {
        v.push(Box::new(move || ParserBuilder::new(d).parse()));
    }
    v
}
