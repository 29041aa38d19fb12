//! Exhaustive enumeration of finite product spaces, in parallel and
//! deterministically; evidence, violations and replays.

use {
    serde_json::{json, Map, Value},
    std::{
        collections::{BTreeMap, HashSet},
        hash::{Hash, Hasher},
        sync::{
            atomic::{AtomicU64, Ordering},
            Mutex,
        },
        time::Instant,
    },
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
}

pub struct Verdict {
    /// Observed outcome, for the histogram.
    pub class: String,
    /// Fingerprint of the concrete case when it is non-trivial.
    pub nontrivial: Option<u64>,
    /// What went wrong.
    pub violation: Option<String>,
}

impl Verdict {
    pub fn ok(class: impl Into<String>, fp: Option<u64>) -> Self {
        Self { class: class.into(), nontrivial: fp, violation: None }
    }
    pub fn bad(class: impl Into<String>, what: impl Into<String>) -> Self {
        Self { class: class.into(), nontrivial: Some(0), violation: Some(what.into()) }
    }
    /// `cond` must hold.
    pub fn check(class: impl Into<String>, fp: u64, cond: bool, what: impl FnOnce() -> String) -> Self {
        Self {
            class: class.into(),
            nontrivial: Some(fp),
            violation: (!cond).then(what),
        }
    }
}

pub fn fp<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub type Case<'a> = &'a [usize];

pub struct Space {
    pub name: String,
    pub dims: Vec<(String, Vec<String>)>,
    /// `None`: the coordinates denote no case (counted as skipped).
    pub run: Box<dyn Fn(Case) -> Option<Verdict> + Sync>,
}

impl Space {
    pub fn new(name: &str, run: impl Fn(Case) -> Option<Verdict> + Sync + 'static) -> Self {
        Self { name: name.into(), dims: vec![], run: Box::new(run) }
    }
    pub fn dim<T: std::fmt::Debug>(mut self, name: &str, values: &[T]) -> Self {
        self.dims.push((name.into(), values.iter().map(|v| format!("{v:?}")).collect()));
        self
    }
    pub fn range(mut self, name: &str, n: usize) -> Self {
        self.dims.push((name.into(), (0..n).map(|i| i.to_string()).collect()));
        self
    }
    pub fn size(&self) -> u64 {
        self.dims.iter().map(|d| d.1.len() as u64).product()
    }
    pub fn coords(&self, mut i: u64) -> Vec<usize> {
        let mut c = vec![0; self.dims.len()];
        for (k, d) in self.dims.iter().enumerate().rev() {
            c[k] = (i % d.1.len() as u64) as usize;
            i /= d.1.len() as u64;
        }
        c
    }
    pub fn describe(&self, c: Case) -> String {
        self.dims
            .iter()
            .zip(c)
            .map(|((n, v), i)| format!("{n}={}", v[*i]))
            .collect::<Vec<_>>()
            .join(" ")
    }
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub skipped: u64,
    pub distinct: HashSet<u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub spaces: Map<String, Value>,
    pub extra: Map<String, Value>,
    pub violations: Vec<Violation>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable name of the failing case, used by the known-findings file.
    pub key: String,
    pub what: String,
    pub replay: Value,
}

/// Once something is wrong, the rest need not be explored at any cost: where
/// every case takes long because of it, what was found is reported in time.
fn enough() -> bool {
    static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    START.get_or_init(Instant::now).elapsed().as_secs() > 200
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).min(8)
}

impl Report {
    pub fn explore(&mut self, spaces: &[Space]) {
        enough();
        for s in spaces {
            if !self.violations.is_empty() && enough() {
                break;
            }
            self.space(s);
        }
    }

    fn space(&mut self, s: &Space) {
        let t0 = Instant::now();
        let n = s.size();
        let next = AtomicU64::new(0);
        // lowest violating index of each distinct kind is what we report
        let worst = Mutex::new(BTreeMap::<u64, (Vec<usize>, Verdict)>::new());
        let stop_above = AtomicU64::new(u64::MAX);
        let chunk = (n / (threads() as u64 * 32)).clamp(1, 512);
        let merged = Mutex::new((0u64, 0u64, HashSet::new(), BTreeMap::<String, (u64, u64)>::new()));
        std::thread::scope(|sc| {
            for _ in 0..threads() {
                sc.spawn(|| {
                    let (mut ev, mut sk) = (0u64, 0u64);
                    let mut fps = HashSet::new();
                    let mut oc = BTreeMap::<String, (u64, u64)>::new();
                    loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= n {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            if i > stop_above.load(Ordering::Relaxed) {
                                break;
                            }
                            if enough() && !worst.lock().unwrap().is_empty() {
                                break;
                            }
                            let c = s.coords(i);
                            let Some(v) = (s.run)(&c) else {
                                sk += 1;
                                continue;
                            };
                            ev += 1;
                            if let Some(f) = v.nontrivial {
                                fps.insert(f);
                            }
                            let e = oc.entry(v.class.clone()).or_insert((0, i));
                            e.0 += 1;
                            e.1 = e.1.min(i);
                            if v.violation.is_some() {
                                let mut w = worst.lock().unwrap();
                                w.insert(i, (c, v));
                                // keep going until 20 lower ones are known
                                if w.len() > 20 {
                                    let (k, _) = w.pop_last().unwrap();
                                    stop_above.fetch_min(k, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                    let mut m = merged.lock().unwrap();
                    m.0 += ev;
                    m.1 += sk;
                    m.2.extend(fps);
                    for (k, (n, i)) in oc {
                        let e = m.3.entry(k).or_insert((0, i));
                        e.0 += n;
                        e.1 = e.1.min(i);
                    }
                });
            }
        });
        let (ev, sk, fps, oc) = merged.into_inner().unwrap();
        let distinct_here = fps.len();
        self.evaluations += ev;
        self.skipped += sk;
        self.distinct.extend(fps);
        let mut first = true;
        for (k, (n, i)) in &oc {
            *self.outcomes.entry(k.clone()).or_insert(0) += n;
            if first || self.samples.len() < 12 {
                self.samples.push(json!({
                    "space": s.name, "case": s.describe(&s.coords(*i)), "outcome": k,
                }));
                first = false;
            }
        }
        self.spaces.insert(
            s.name.clone(),
            json!({
                "dimensions": s.dims.iter().map(|d| json!({"name": d.0, "values": d.1.len()})).collect::<Vec<_>>(),
                "cases": n, "run": ev, "not_a_case": sk, "distinct_nontrivial": distinct_here,
                "outcomes": oc.iter().map(|(k, v)| (k.clone(), json!(v.0))).collect::<Map<_, _>>(),
                "wall_s": t0.elapsed().as_secs_f64(),
            }),
        );
        for (_, (c, v)) in worst.into_inner().unwrap() {
            self.violations.push(Violation {
                key: format!("{}: {}", s.name, s.describe(&c)),
                what: v.violation.unwrap(),
                replay: json!({"space": s.name, "coords": c, "case": s.describe(&c)}),
            });
        }
    }
}

/// Re-run a single case of a space.
pub fn replay(spaces: &[Space], space: &str, coords: &[usize]) -> Option<Verdict> {
    let s = spaces.iter().find(|s| s.name == space)?;
    (s.run)(coords)
}
