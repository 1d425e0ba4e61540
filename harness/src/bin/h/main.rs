//! Bounded native checks: random schemas and documents through the real crates, against a direct reading of RELAX NG.
use harness::gen::{Cfg, Docs, Gen};
use harness::print::{doc, rnc, rng, DocKnobs, XMLNS};
use harness::rnd::Rnd;
use harness::sem::{Oracle, Schema};
use harness::sx::{present, Knobs};
use harness::*;
mod special;
use std::io::{Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[derive(Clone)]
pub struct Case {
    pub files: Vec<(String, String)>,
    pub doc: Option<String>,
    pub want: &'static str, // valid, invalid, schema-error, schema-ok
    pub got: String,
}
impl Case {
    fn json(&self) -> String {
        let f: Vec<String> = self.files.iter().map(|(n, t)| format!("{}:{}", js(n), js(t))).collect();
        format!(
            "{{\"files\":{{{}}},\"main\":{},\"doc\":{},\"want\":{},\"got\":{}}}",
            f.join(","),
            js(&self.files[0].0),
            self.doc.as_ref().map_or("null".into(), |d| js(d)),
            js(self.want),
            js(&self.got)
        )
    }
    fn size(&self) -> usize {
        self.files.iter().map(|(_, t)| t.len()).sum::<usize>() + self.doc.as_ref().map_or(0, |d| d.len())
    }
}
/// what the real code says
fn real(files: &[(String, String)], d: &Option<String>) -> Out {
    let fs: Vec<(&str, &str)> = files.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    match compile_files(&fs, fs[0].0, fs[0].0.ends_with(".rng")) {
        Err(o) => o,
        Ok(m) => match d {
            Some(d) => run_model(&m, d),
            None => Out::Valid,
        },
    }
}
fn agrees(want: &str, o: &Out) -> bool {
    matches!((want, o), ("valid", Out::Valid) | ("schema-ok", Out::Valid) | ("invalid", Out::Invalid(_)) | ("schema-error", Out::SchemaErr(_)))
}
#[derive(Default)]
pub struct Tally {
    pub schemas: usize,
    pub cases: usize,
    pub valid: usize,
    pub invalid: usize,
    pub errors: usize,
    pub gave_up: usize,
    pub fails: Vec<Case>,
    pub samples: Vec<Case>,
}
impl Tally {
    fn add(&mut self, t: Tally) {
        self.schemas += t.schemas;
        self.cases += t.cases;
        self.valid += t.valid;
        self.invalid += t.invalid;
        self.errors += t.errors;
        self.gave_up += t.gave_up;
        self.fails.extend(t.fails);
        if self.samples.len() < 4 {
            self.samples.extend(t.samples.into_iter().rev().take(1));
        }
    }
    pub fn check(&mut self, files: &[(String, String)], d: Option<String>, want: &'static str) -> bool {
        if std::env::var("H_TRACE").is_ok_and(|v| v == "3") {
            eprintln!("{}", Case { files: files.to_vec(), doc: d.clone(), want, got: String::new() }.json());
        }
        let o = real(files, &d);
        if matches!(&o, Out::Panic(m) if m.starts_with("Only up to 2^16 rules")) {
            // a stated limit of the implementation; not a verdict
            self.gave_up += 1;
            return true;
        }
        self.cases += 1;
        match want {
            "valid" => self.valid += 1,
            "invalid" => self.invalid += 1,
            _ => self.errors += 1,
        }
        let ok = agrees(want, &o);
        let c = || Case { files: files.to_vec(), doc: d.clone(), want, got: format!("{o:?}") };
        if !ok {
            self.fails.push(c());
        } else if self.samples.len() < 2 {
            self.samples.push(c());
        }
        ok
    }
}
pub struct Mode {
    pub cfg: Cfg,
    pub k: Knobs,
    pub d: DocKnobs,
    pub xml: usize, // percentage of schemas written in the XML syntax
    docs: usize,
}
pub fn mode(p: &str, r: &mut Rnd) -> Option<Mode> {
    let base = Knobs { nest: 10, derive: 10, split: 5, grammar: 3, external: 2, include: 4, over: 20, div: 10, plain: 50, ns: 20, annot: 8 };
    let mut m = Mode { cfg: Cfg::default(), k: base, d: DocKnobs::default(), xml: 30, docs: 8 };
    let size = r.range(0, 3);
    m.cfg.depth = [2, 3, 3, 4][size];
    m.cfg.defs = [0, 1, 2, 3][r.below(4)];
    let one_ns = vec![*r.pick(&["", "urn:a"])];
    let lean = |m: &mut Mode| {
        m.cfg.wild = 5;
        m.d.ns = 3;
        m.d.split = 4;
        m.k.ns = 5;
        m.k.annot = 2;
    };
    match p {
        "C01" => {
            lean(&mut m);
            m.cfg.ns = one_ns;
            m.cfg.data = r.below(2);
            m.cfg.att = r.below(2);
            m.cfg.text = r.below(3);
            m.cfg.locals = r.range(2, 4);
            m.docs = 12;
            m.xml = 15;
        }
        "C02" => {
            lean(&mut m);
            m.cfg.att = 8;
            m.cfg.locals = r.range(3, 6);
            m.cfg.wild = 12;
            m.cfg.depth = r.range(2, 3);
            m.docs = 12;
        }
        "C03" => {
            lean(&mut m);
            m.cfg.ns = one_ns;
            m.cfg.data = 10;
            m.cfg.text = 4;
            m.cfg.list = 2;
            m.cfg.depth = r.range(1, 3);
            m.d.split = 35;
            m.docs = 14;
        }
        "C04" => {
            lean(&mut m);
            m.cfg.wild = 90;
            m.cfg.att = 3;
            m.cfg.data = 0;
            m.cfg.text = 1;
            m.cfg.depth = r.range(1, 3);
            m.docs = 14;
            m.xml = 45;
        }
        "C05" => {
            lean(&mut m);
            m.cfg.defs = r.range(2, 5);
            m.cfg.refs = 12;
            m.cfg.depth = r.range(2, 3);
            m.k.grammar = 6;
            m.k.split = 15;
        }
        "C06" => {
            m.cfg.ns = vec!["", "urn:a", "urn:b", "urn:c", XMLNS];
            m.cfg.data = 1;
            m.cfg.att = 4;
            m.d.ns = 60;
            m.docs = 12;
        }
        "C07" => {
            lean(&mut m);
            m.cfg.ns = one_ns;
            m.cfg.data = 8;
            m.cfg.att = 3;
            m.cfg.depth = r.range(1, 3);
            m.d.split = 60;
            m.d.entities = true;
            m.docs = 14;
        }
        "C08" => {
            lean(&mut m);
            m.cfg.rep = 6;
            m.cfg.text = 3;
            m.cfg.arity = r.range(2, 6);
            m.k.derive = 50;
        }
        "C09" => {
            lean(&mut m);
            m.cfg.defs = r.range(1, 4);
            m.cfg.refs = 6;
            m.cfg.choice = 5;
            m.cfg.inter = 5;
            m.cfg.arity = 5;
            m.k.split = 90;
        }
        "C10" => {
            lean(&mut m);
            m.cfg.group = 5;
            m.cfg.choice = 5;
            m.cfg.inter = 4;
            m.cfg.rep = 4;
            m.cfg.arity = 5;
            m.k.nest = 60;
            m.xml = 0;
        }
        "C11" => {
            m.cfg.ns = vec!["", "urn:a", "urn:b", "urn:c"];
            if r.pct(20) {
                m.cfg.ns.push(XMLNS);
            }
            m.cfg.wild = 30;
            m.cfg.att = 3;
            m.k.ns = 70;
            m.k.include = 30;
            m.k.external = 8;
            m.k.grammar = 8;
            m.k.over = 40;
            m.xml = 0;
        }
        "C12" => {
            lean(&mut m);
            m.cfg.defs = r.range(1, 4);
            m.cfg.refs = 8;
            m.k.include = 50;
            m.k.over = 50;
            m.k.grammar = 25;
            m.k.external = 12;
            m.k.div = 25;
            m.xml = 35;
        }
        "C15" => {
            lean(&mut m);
            m.cfg.ns = one_ns;
            m.cfg.data = 12;
            m.cfg.att = 4;
            m.cfg.list = 2;
            m.cfg.depth = r.range(1, 2);
            m.docs = 16;
        }
        "C16" => {
            m.cfg.ns = vec!["", "urn:a", "urn:b"];
            if r.pct(20) {
                // as in a schema for schemas
                m.cfg.ns.push("http://relaxng.org/ns/structure/1.0");
            }
            m.cfg.wild = 30;
            m.cfg.att = 3;
            m.k.ns = 70;
            m.k.annot = 30;
            m.k.include = 15;
            m.k.external = 5;
            m.xml = 100;
        }
        "C17" => {
            lean(&mut m);
            m.cfg.group = 6;
            m.cfg.arity = 6;
            m.cfg.att = 3;
            m.k.annot = 30;
            m.cfg.rep = 4;
            if r.pct(35) {
                m.cfg.defs = r.range(1, 3);
                m.k.include = 30;
                m.k.div = 40;
            }
            m.xml = 100;
        }
        "C18" => {
            m.cfg.defs = r.range(1, 3);
            m.k.include = 20;
            m.k.grammar = 10;
            m.k.external = 5;
            m.k.div = 15;
            m.k.split = 20;
            m.docs = 0;
        }
        _ => return None,
    }
    Some(m)
}
fn random(p: &str, r: &mut Rnd, t: &mut Tally) {
    let m = match mode(p, r) {
        Some(m) => m,
        None => return,
    };
    let sch = Gen::schema(r, m.cfg.clone());
    compare(r, t, &m, sch);
}
/// the schema as files, and documents for it
pub fn compare(r: &mut Rnd, t: &mut Tally, m: &Mode, sch: Schema) {
    let xml = r.pct(m.xml);
    let files = present(r, &m.k, &sch);
    let files = if xml { rng(r, &m.k, &files) } else { rnc(r, &m.k, &files) };
    t.schemas += 1;
    if std::env::var("H_TRACE").is_ok_and(|v| v == "2") {
        eprintln!("{sch:?}");
        files.iter().for_each(|(n, t)| eprintln!("--- {n}\n{t}"));
    }
    if !t.check(&files, None, "schema-ok") {
        return;
    }
    for _ in 0..m.docs {
        let e = Docs::new(r, &sch, &m.cfg).doc();
        match Oracle::valid(&sch, &e) {
            None => t.gave_up += 1,
            Some(ok) => {
                let d = doc(r, &m.d, &e);
                if std::env::var("H_TRACE").is_ok_and(|v| v == "2") {
                    eprintln!("{d}");
                }
                t.check(&files, Some(d), if ok { "valid" } else { "invalid" });
            }
        }
    }
}

fn report(t: &mut Tally, next: u64, slow: usize) {
    t.fails.sort_by_key(|c| c.size());
    let f: Vec<String> = t.fails.iter().map(|c| c.json()).collect();
    let s: Vec<String> = t.samples.iter().map(|c| c.json()).collect();
    println!(
        "{{\"schemas\":{},\"cases\":{},\"valid\":{},\"invalid\":{},\"schema_verdicts\":{},\"gave_up\":{},\"slow\":{slow},\"next\":{next},\"fails\":[{}],\"samples\":[{}]}}",
        t.schemas,
        t.cases,
        t.valid,
        t.invalid,
        t.errors,
        t.gave_up,
        f.join(","),
        s.join(",")
    );
}
static CASE: AtomicU64 = AtomicU64::new(0);
static TALLY: Mutex<Tally> = Mutex::new(Tally { schemas: 0, cases: 0, valid: 0, invalid: 0, errors: 0, gave_up: 0, fails: vec![], samples: vec![] });
/// h PROP SEED SECONDS FROM STEP PROGRESS-FILE [MAXFAILS]: schemas number FROM, FROM+STEP, ...
fn main() {
    quiet();
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        return replay(&a[2]);
    }
    let p = a[1].clone();
    let seed: u64 = a[2].parse().unwrap();
    let secs: f64 = a[3].parse().unwrap();
    let mut i: u64 = a[4].parse().unwrap();
    let step: u64 = a[5].parse().unwrap();
    let mut prog = std::fs::File::create(&a[6]).unwrap();
    let stop_at: usize = a.get(7).map_or(1, |s| s.parse().unwrap());
    let end = Instant::now() + Duration::from_secs_f64(secs);
    // a schema and its documents that take too long (patterns can grow exponentially) are given up
    std::thread::spawn(move || {
        let (mut last, mut since) = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let c = CASE.load(Ordering::Relaxed);
            if c != last {
                (last, since) = (c, Instant::now());
            } else if since.elapsed() > Duration::from_millis(2000) {
                report(&mut TALLY.lock().unwrap(), c + step, 1);
                std::process::exit(0);
            }
        }
    });
    let th = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        while Instant::now() < end && TALLY.lock().unwrap().fails.len() < stop_at {
            CASE.store(i, Ordering::Relaxed);
            prog.seek(SeekFrom::Start(0)).unwrap();
            prog.write_all(format!("{i:>20}").as_bytes()).unwrap();
            let mut r = Rnd::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
            let mut t = Tally::default();
            if !(r.pct(special::share(&p)) && special::special(&p, &mut r, &mut t)) {
                random(&p, &mut r, &mut t);
            }
            TALLY.lock().unwrap().add(t);
            i += step;
        }
        report(&mut TALLY.lock().unwrap(), i, 0);
    });
    if th.unwrap().join().is_err() {
        std::process::exit(3);
    }
}
/// re-runs one recorded case: its files, document and verdicts are in a directory
fn replay(dir: &str) {
    let rd = |n: &str| std::fs::read_to_string(format!("{dir}/{n}"));
    let list = rd("files").unwrap();
    let files: Vec<(String, String)> = list.lines().map(|n| (n.to_string(), rd(n.trim_start_matches('/')).unwrap())).collect();
    let want = rd("want").unwrap();
    let d = rd("doc").ok();
    let o = real(&files, &d);
    let ok = agrees(want.trim(), &o);
    println!("want {} got {o:?}", want.trim());
    std::process::exit(if ok { 0 } else { 1 });
}
