//! Exhaustive-enumeration driver: a property enumerates *every* case of its bounded space, the
//! engine executes each of them against the real code (8 workers, fresh state per case) and stops
//! at the first deviation.  Nothing is sampled.
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::mpsc::sync_channel;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash, PartialEq, Eq)]
pub struct Case {
    /// which enumeration of the property the case belongs to
    pub space: String,
    pub texts: Vec<String>,
    pub params: Vec<i64>,
}
impl Case {
    pub fn doc(space: &str, text: impl Into<String>) -> Case {
        Case { space: space.into(), texts: vec![text.into()], params: vec![] }
    }
    pub fn new(space: &str, texts: Vec<String>, params: Vec<i64>) -> Case {
        Case { space: space.into(), texts, params }
    }
}

#[derive(Default)]
pub struct Rec {
    pub transitions: u64,
    pub outcomes: HashSet<u64>,
    pub known: BTreeMap<String, (u64, String)>,
    pub skipped: u64,
}
pub fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = rustc_hash::FxHasher::default();
    t.hash(&mut s);
    s.finish()
}
impl Rec {
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        self.outcomes.insert(h(t));
    }
    /// A deviation that is listed (by this exact id) in the known-findings file.
    pub fn known(&mut self, id: &str, example: &str) {
        let e = self.known.entry(id.to_string()).or_insert_with(|| (0, example.chars().take(160).collect()));
        e.0 += 1;
    }
}

pub type Emit<'a> = &'a mut dyn FnMut(Case);
pub struct Property {
    pub id: &'static str,
    pub cases: fn(Tier, Emit),
    pub check: fn(&Case, &mut Rec) -> Result<(), String>,
    pub bounds: fn(Tier) -> String,
}

/// Errors of the machinery itself (never a verdict).
pub const HARNESS: &str = "HARNESS: ";

struct Shared {
    stop: AtomicBool,
    slots: Vec<Mutex<Option<(Instant, Case)>>>,
    processed: AtomicU64,
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
fn evidence_dir() -> String {
    std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| format!("{}/evidence", verif_dir()))
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

pub fn run_one(p: &Property, c: &Case, rec: &mut Rec) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| (p.check)(c, rec))) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", panic_text(e))),
    }
}

fn write_replay(id: &str, c: &Case, msg: &str) -> String {
    let path = format!("{}/replay-{id}.json", evidence_dir());
    let _ = std::fs::create_dir_all(evidence_dir());
    let v = serde_json::json!({"property": id, "case": c, "message": msg,
        "how": format!("target/debug/watmc replay {path}")});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

pub fn known_ids(prop: &str) -> Vec<String> {
    let path = format!("{}/known_findings.jsonl", verif_dir());
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    s.lines()
        .filter(|l| !l.trim().is_empty())
        .filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
        .filter(|v| v["status"] == "known" && v["property"] == prop)
        .filter_map(|v| v["id"].as_str().map(|s| s.to_string()))
        .collect()
}

const CASE_LIMIT: Duration = Duration::from_secs(60);

pub fn run(p: &'static Property, tier: Tier, threads: usize, trace: bool) -> i32 {
    let t0 = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let filter = std::env::var("WATMC_SPACE").ok();
    let shared = Arc::new(Shared {
        stop: AtomicBool::new(false),
        slots: (0..threads).map(|_| Mutex::new(None)).collect(),
        processed: AtomicU64::new(0),
    });
    let (tx, rx) = sync_channel::<Vec<Case>>(threads * 4);
    let rx = Arc::new(Mutex::new(rx));
    let failure: Arc<Mutex<Option<(Case, String)>>> = Arc::new(Mutex::new(None));
    let survey = std::env::var("WATMC_SURVEY").is_ok();
    if !trace {
        std::panic::set_hook(Box::new(|_| {}));
    }

    let mut workers = vec![];
    for w in 0..threads {
        let (rx, shared, failure) = (rx.clone(), shared.clone(), failure.clone());
        workers.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut rec = Rec::default();
                    loop {
                        let batch = match rx.lock().unwrap().recv() {
                            Ok(b) => b,
                            Err(_) => break,
                        };
                        for c in batch {
                            if shared.stop.load(SeqCst) {
                                break;
                            }
                            *shared.slots[w].lock().unwrap() = Some((Instant::now(), c.clone()));
                            if trace {
                                eprintln!("CASE {}", serde_json::to_string(&c).unwrap());
                            }
                            let r = run_one(p, &c, &mut rec);
                            *shared.slots[w].lock().unwrap() = None;
                            shared.processed.fetch_add(1, SeqCst);
                            if let Err(m) = r {
                                if survey {
                                    println!("SURVEY {} | {} | {:?} {:?}", c.space, m.replace('\n', "\\n"), c.texts, c.params);
                                    continue;
                                }
                                let mut f = failure.lock().unwrap();
                                if f.is_none() {
                                    *f = Some((c, m));
                                }
                                shared.stop.store(true, SeqCst);
                            }
                        }
                    }
                    rec
                })
                .unwrap(),
        );
    }
    // watchdog: a request that does not come back is a violation (the real code hangs)
    {
        let shared = shared.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for s in &shared.slots {
                let g = s.lock().unwrap();
                if let Some((t, c)) = g.as_ref() {
                    if t.elapsed() > CASE_LIMIT {
                        let path = write_replay(p.id, c, "no answer within 60 s");
                        println!("no answer within 60 s on {}", serde_json::to_string(c).unwrap());
                        println!("VIOLATION property={} replay={}", p.id, path);
                        std::process::exit(1);
                    }
                }
            }
        });
    }
    // producer (this thread): enumerates every case, removes duplicates
    let mut seen: HashSet<u64> = HashSet::new();
    let mut emitted: u64 = 0;
    let mut samples: Vec<Case> = vec![];
    let mut per_space: BTreeMap<String, u64> = BTreeMap::new();
    {
        let mut batch: Vec<Case> = vec![];
        let sh = shared.clone();
        let mut emit = |c: Case| {
            if sh.stop.load(SeqCst) {
                return;
            }
            if let Some(f) = &filter {
                if !c.space.starts_with(f.as_str()) {
                    return;
                }
            }
            emitted += 1;
            if !seen.insert(h(&c)) {
                return;
            }
            let n = per_space.entry(c.space.clone()).or_insert(0);
            *n += 1;
            if *n == 7 || (*n == 1 && samples.len() < 4) {
                samples.push(c.clone());
            }
            batch.push(c);
            if batch.len() >= 16 {
                let _ = tx.send(std::mem::take(&mut batch));
            }
        };
        (p.cases)(tier, &mut emit);
        if !batch.is_empty() {
            let _ = tx.send(batch);
        }
    }
    drop(tx);
    let mut rec = Rec::default();
    for w in workers {
        let r = w.join().unwrap();
        rec.transitions += r.transitions;
        rec.skipped += r.skipped;
        rec.outcomes.extend(r.outcomes);
        for (k, (n, e)) in r.known {
            let x = rec.known.entry(k).or_insert((0, e));
            x.0 += n;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut failure = failure.lock().unwrap().take();
    let allowed = known_ids(p.id);
    if failure.is_none() {
        for (k, (_, ex)) in &rec.known {
            if !allowed.contains(k) {
                failure = Some((
                    Case::doc("unlisted", ex.clone()),
                    format!("deviation {k} is not listed in known_findings.jsonl"),
                ));
            }
        }
    }
    let processed = shared.processed.load(SeqCst);
    let ev = serde_json::json!({
        "property": p.id,
        "tier": tier.pick("quick", "thorough"),
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": seen.len(),
            "transitions": rec.transitions,
            "traces_validated_against_impl": processed,
            "evaluations": emitted,
            "distinct_nontrivial": rec.outcomes.len(),
            "rule": "every case of the enumerated space is executed on the real code; distinct_nontrivial counts distinct observed answers (hashes)",
            "per_space": per_space,
            "bounds": (p.bounds)(tier),
            "exhaustive": failure.is_none() && filter.is_none(),
            "known_findings_hit": rec.known.iter().map(|(k, (n, _))| (k.clone(), *n)).collect::<BTreeMap<_, _>>(),
            "samples": samples.into_iter().take(12).collect::<Vec<_>>(),
        },
        "assumptions": [
            "the reference model in mc/src/refwat.rs states the intended meaning of the documents in the enumerated spaces",
            "inputs outside the enumerated bounds are not covered"
        ],
        "wall_s": wall,
        "violations": if failure.is_some() { 1 } else { 0 },
    });
    let _ = std::fs::create_dir_all(evidence_dir());
    std::fs::write(format!("{}/{}.json", evidence_dir(), p.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} {:?}: states={} transitions={} outcomes={} wall={:.1}s {:?}",
        p.id,
        tier,
        seen.len(),
        rec.transitions,
        rec.outcomes.len(),
        wall,
        per_space
    );
    if let Some((c, m)) = failure {
        println!("space: {}", c.space);
        for t in &c.texts {
            println!("---- text\n{t}\n----");
        }
        println!("params: {:?}", c.params);
        println!("message: {m}");
        if let Some(m) = m.strip_prefix(HARNESS) {
            println!("harness error: {m}");
            return 2;
        }
        let path = write_replay(p.id, &c, &m);
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    for (k, (n, ex)) in &rec.known {
        println!("KNOWN-FINDING: property={} {} ({} cases, e.g. {:?})", p.id, k, n, ex);
    }
    0
}
