//! Runs the cases of a property on several threads and writes what was observed.
use crate::ctx::*;
use crate::json::{self, J};
use crate::props;
use crate::reg::*;
use crate::rng::*;
use crate::shape::*;
use crate::tok::*;
use std::collections::HashMap;
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

struct Slot {
    case: AtomicU64,
    since: AtomicU64,
    tid: AtomicU64,
}
const IDLE: u64 = u64::MAX;
/// seconds of processor time one case may take
const CPU_LIMIT: u64 = 25;

fn thread_cpu(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    // utime + stime in clock ticks (100 per second)
    Some((f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?) / 100)
}
/// A parse that waits for something that never comes uses no processor time. A thread that is starved or paged out is
/// runnable or in state D; one that sleeps in every one of many samples, at no processor time at all, is blocked.
#[derive(Default, Clone)]
pub struct Blocked {
    seen: (u64, u64),
    samples: u32,
    since: Option<Instant>,
}
/// how long, and in how many samples, a thread is seen sleeping before it counts as blocked
const BLOCKED: (Duration, u32) = (Duration::from_secs(20), 100);
impl Blocked {
    pub fn sample(&mut self, tid: u64, case: u64) -> bool {
        let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else { return false };
        let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        let ticks = |k: usize| f.get(k).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        let seen = (case, ticks(11) + ticks(12));
        if f.first() == Some(&"S") && case != IDLE && seen == self.seen {
            self.samples += 1;
        } else {
            self.samples = 0;
            self.since = None;
        }
        self.seen = seen;
        self.since.get_or_insert_with(Instant::now).elapsed() > BLOCKED.0 && self.samples > BLOCKED.1
    }
}
pub fn hang(out: &str, case: u64, blocked: bool) -> ! {
    let j = J::obj(vec![("hang", J::N(case as f64)), ("blocked", J::B(blocked))]);
    std::fs::write(out, j.to_text()).unwrap();
    std::process::exit(7);
}
pub fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}
struct Args {
    m: HashMap<String, String>,
}
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.m.get(k).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map_or(d, |x| x.parse().expect(k))
    }
}
pub fn case_rng(seed: u64, prop: &str, case: u64) -> Rng {
    Rng::new(hash64(format!("{seed}/{prop}/{case}").as_bytes()))
}
fn one(cx: &Cx, case: u64, rec: &mut Rec) {
    proc_macro2::extra::invalidate_current_thread_spans();
    rec.case = case;
    let mut r = case_rng(cx.seed, &cx.prop, case);
    props::case(cx, &mut r, rec);
}
pub fn main(entries: Vec<Entry>, shapes: &str) {
    let mut m = HashMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        m.insert(k.trim_start_matches("--").to_string(), it.next().unwrap_or_default());
    }
    let a = Args { m };
    std::panic::set_hook(Box::new(|_| {}));
    let t = Table::from(&json::parse(shapes));
    let prop = a.get("prop").expect("--prop").to_string();
    let seed = a.num("seed", 1);
    let e: HashMap<String, Entry> = entries.into_iter().map(|e| (e.id.to_string(), e)).collect();
    let pool: Vec<usize> = (0..t.shapes.len())
        .filter(|&i| {
            let s = &t.shapes[i];
            props::wanted(&prop, s) && e.contains_key(&s.id) && (e[&s.id].parse.is_some() || e[&s.id].make.is_some())
        })
        .collect();
    let cx = Cx { t, e, prop, seed, pool, thorough: a.get("tier") == Some("thorough") };
    let out = a.get("out").unwrap_or("/dev/stdout").to_string();
    if cx.pool.is_empty() && cx.prop != "C29" {
        eprintln!("no shapes for {}", cx.prop);
        std::process::exit(2);
    }
    let start = Instant::now();
    if let Some(c) = a.get("case") {
        // replay of one case
        let c: u64 = c.parse().unwrap();
        let h = std::thread::Builder::new().stack_size(512 << 20);
        let bad = std::thread::scope(|sc| {
            h.spawn_scoped(sc, || {
                let mut rec = Rec { verbose: true, ..Default::default() };
                let watch = AtomicBool::new(false);
                let tid = my_tid();
                std::thread::scope(|sc| {
                    let w = &watch;
                    sc.spawn(move || {
                        let mut blocked = Blocked::default();
                        while !w.load(SeqCst) {
                            std::thread::sleep(Duration::from_millis(50));
                            if blocked.sample(tid, 0) {
                                println!("--- the case is blocked: it waits and never goes on");
                                std::process::exit(7);
                            }
                            if thread_cpu(tid).unwrap_or(0) > CPU_LIMIT {
                                println!("--- one case takes more than {CPU_LIMIT} s of processor time");
                                std::process::exit(7);
                            }
                        }
                    });
                    match cx.prop.as_str() {
                        "C16" => crate::history::c16_one(&cx, c, &mut rec),
                        "C29" => crate::laws::case(&cx, c, &mut rec),
                        _ => one(&cx, c, &mut rec),
                    }
                    watch.store(true, SeqCst);
                });
                for (k, v) in &rec.counts {
                    println!("{k}: {v}");
                }
                rec.n_finds
            })
            .unwrap()
            .join()
            .unwrap()
        });
        println!("{} finding(s) in case {c}", bad);
        std::process::exit(if bad > 0 { 1 } else { 0 });
    }
    let cases = a.num("cases", 1000);
    let cap = Duration::from_secs(a.num("time", 60));
    let threads = a.num("threads", 8) as usize;
    let base = a.num("base", 0);
    let next = AtomicU64::new(base);
    let merged = Mutex::new(Rec::default());
    let slots: Vec<Slot> = (0..threads).map(|_| Slot { case: AtomicU64::new(IDLE), since: AtomicU64::new(0), tid: AtomicU64::new(0) }).collect();
    let live = AtomicUsize::new(threads);
    let harness: Mutex<Option<String>> = Mutex::new(None);
    let progress = a.get("progress").map(|p| {
        let f = std::fs::File::create(p).unwrap();
        f.set_len(threads as u64 * 8).unwrap();
        for k in 0..threads {
            f.write_all_at(&IDLE.to_le_bytes(), k as u64 * 8).unwrap();
        }
        f
    });
    std::thread::scope(|sc| {
        for k in 0..threads {
            let (cx, next, merged, slots, live, harness, progress) = (&cx, &next, &merged, &slots, &live, &harness, &progress);
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, move || {
                    let sl = &slots[k];
                    sl.tid.store(my_tid(), SeqCst);
                    let mut rec = Rec::default();
                    loop {
                        let c = next.fetch_add(1, SeqCst);
                        if c >= base + cases || start.elapsed() > cap || harness.lock().unwrap().is_some() {
                            break;
                        }
                        sl.case.store(c, SeqCst);
                        if let Some(p) = progress {
                            let _ = p.write_all_at(&c.to_le_bytes(), k as u64 * 8);
                        }
                        rec.count("cases");
                        let r = catch_unwind(AssertUnwindSafe(|| match cx.prop.as_str() {
                            "C16" => crate::history::c16_one(cx, c, &mut rec),
                            "C29" => crate::laws::case(cx, c, &mut rec),
                            _ => one(cx, c, &mut rec),
                        }));
                        if let Err(p) = r {
                            *harness.lock().unwrap() = Some(format!("case {c}: {}", panic_msg(p)));
                        }
                    }
                    sl.case.store(IDLE, SeqCst);
                    if let Some(p) = progress {
                        let _ = p.write_all_at(&IDLE.to_le_bytes(), k as u64 * 8);
                    }
                    merged.lock().unwrap().merge(rec);
                    live.fetch_sub(1, SeqCst);
                })
                .unwrap();
        }
        // watchdog: decides on processor time of the thread, never on wall time
        let mut last: Vec<(u64, u64)> = vec![(IDLE, 0); threads];
        let mut blocked = vec![Blocked::default(); threads];
        while live.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(50));
            for (k, sl) in slots.iter().enumerate() {
                let c = sl.case.load(SeqCst);
                if c == IDLE {
                    last[k] = (IDLE, 0);
                    continue;
                }
                if blocked[k].sample(sl.tid.load(SeqCst), c) {
                    hang(&out, c, true);
                }
                let cpu = thread_cpu(sl.tid.load(SeqCst)).unwrap_or(0);
                if last[k].0 != c {
                    last[k] = (c, cpu);
                    sl.since.store(cpu, SeqCst);
                } else if cpu.saturating_sub(last[k].1) > CPU_LIMIT {
                    hang(&out, c, false);
                }
            }
        }
    });
    if let Some(h) = harness.lock().unwrap().take() {
        let j = J::obj(vec![("harness", J::S(h.clone()))]);
        std::fs::write(&out, j.to_text()).unwrap();
        eprintln!("harness failure: {h}");
        std::process::exit(3);
    }
    let mut rec = merged.into_inner().unwrap();
    if cx.prop == "C16" {
        crate::history::threads(&cx, &mut rec, start + cap, &out);
        if let Some(p) = a.get("digest") {
            crate::history::digest(&cx, base, cases.min(a.num("digest-cases", 2000)), p, a.get("reverse").is_some());
        }
    }
    rec.finds.sort_by_key(|f| f.size);
    rec.finds.truncate(5);
    let mut samples = rec.samples.clone();
    samples.sort();
    samples.truncate(6);
    let j = J::obj(vec![
        ("evaluations", J::N(rec.evals as f64)),
        ("distinct_nontrivial", J::N(rec.distinct.len() as f64)),
        ("rule", J::S(props::rule(&cx.prop).into())),
        ("samples", J::A(samples.into_iter().map(J::S).collect())),
        ("shapes", J::N(cx.pool.len() as f64)),
        ("shapes_exercised", J::N(rec.shapes.len() as f64)),
        ("counts", J::O(rec.counts.iter().map(|(k, v)| (k.clone(), J::N(*v as f64))).collect())),
        ("violations", J::N(rec.n_finds as f64)),
        ("findings", J::A(rec.finds.iter().map(finding_json).collect())),
        ("seconds", J::N(start.elapsed().as_secs_f64())),
    ]);
    std::fs::write(&out, j.to_text()).unwrap();
    let _ = show_pos;
}
