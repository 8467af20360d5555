//! C16: the outcome of a parse never depends on what happened before or happens elsewhere.
use crate::ctx::*;
use crate::props;
use crate::rng::*;
use crate::run::case_rng;
use crate::shape::*;
use crate::tok::*;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::Instant;

/// everything a caller can see of an outcome
fn visible(cx: &Cx, rec: &mut Rec, s: &Shape, text: &str, partial: bool) -> String {
    let o = cx.imp(rec, s, text, partial);
    match &o.res {
        Ok(n) => format!("Ok {:?} {:?}", n, o.rest),
        Err(e) => format!("Err {e:?}"),
    }
}
fn make(cx: &Cx, case: u64, rec: &mut Rec) -> Vec<(usize, String, bool)> {
    let mut r = case_rng(cx.seed, "C16", case);
    let n = r.range(2, 6);
    (0..n)
        .map(|_| {
            let i = *r.pick(&cx.pool);
            let s = &cx.t.shapes[i];
            let text = if r.pct(50) || !s.is_sm() && r.pct(50) {
                let mut t = props::hostile_text(cx, s, &mut r, rec);
                if t.len() > 4000 {
                    t = "\n a".into();
                }
                t
            } else if s.is_sm() {
                let l = crate::lists::make_toks(
                    &cx.t,
                    s.sm(),
                    *r.pick(&[
                        crate::lists::Strat::Conform,
                        crate::lists::Strat::Missing,
                        crate::lists::Strat::Unknown,
                        crate::lists::Strat::Dup,
                        crate::lists::Strat::RestOnly,
                        crate::lists::Strat::WrongStyle,
                    ]),
                    &mut r,
                );
                render(&l.1, crate::gen_in::layout(&mut r))
            } else {
                props::pt_text(cx, s, &mut r, rec)
            };
            (i, text, r.pct(20))
        })
        .collect()
}
/// one short history: the same few inputs, alone, again, and after each other
pub fn c16_one(cx: &Cx, case: u64, rec: &mut Rec) {
    rec.case = case;
    let items = make(cx, case, rec);
    let mut r = Rng::new(case ^ 0x16);
    proc_macro2::extra::invalidate_current_thread_spans();
    let first: Vec<String> = items.iter().map(|(i, t, p)| visible(cx, rec, &cx.t.shapes[*i], t, *p)).collect();
    for round in 0..2 {
        let mut order: Vec<usize> = (0..items.len()).collect();
        r.shuffle(&mut order);
        if round == 1 {
            // the same input many times in a row
            let x = order[0];
            order.extend([x; 3]);
        }
        for &k in &order {
            let (i, t, p) = &items[k];
            let s = &cx.t.shapes[*i];
            let v = visible(cx, rec, s, t, *p);
            rec.count("repeated parses compared");
            if v != first[k] {
                rec.find("the same tokens give another outcome later", s, &[t], first[k].clone(), v);
                return;
            }
        }
    }
    // a user's type panics while it is parsed: what follows is as before
    let bombs = items.iter().filter(|(i, _, _)| cx.t.shapes[*i].decl.contains("Arr<")).count();
    if bombs > 0 {
        let n = if case % 40 == 7 { 1500 } else { r.range(1, 4) };
        let before = rec.counts.get("panicked").copied().unwrap_or(0);
        crate::leaf::BOMB.set(true);
        for (i, t, p) in &items {
            if cx.t.shapes[*i].decl.contains("Arr<") && t.len() < 400 {
                for _ in 0..n {
                    cx.imp(rec, &cx.t.shapes[*i], t, *p);
                }
            }
        }
        crate::leaf::BOMB.set(false);
        let now = rec.counts.remove("panicked").unwrap_or(0);
        if before > 0 {
            rec.counts.insert("panicked".into(), before);
        }
        rec.panicked = None;
        *rec.counts.entry("parses in which a user's type panicked".into()).or_insert(0) += now - before;
        for (k, (i, t, p)) in items.iter().enumerate() {
            let v = visible(cx, rec, &cx.t.shapes[*i], t, *p);
            if v != first[k] {
                rec.find("the same tokens give another outcome after a user's type panicked", &cx.t.shapes[*i], &[t], first[k].clone(), v);
                return;
            }
        }
    }
    // the caller's tokens are not modified, and a clone of them parses the same
    for (k, (i, t, p)) in items.iter().enumerate() {
        let s = &cx.t.shapes[*i];
        rec.nontrivial(s, t);
        let ts = lex(t).unwrap();
        let before = flatten(ts.clone());
        let o = cx.imp_ts(rec, s, ts.clone(), *p);
        let after = flatten(ts.clone());
        if before != after {
            rec.find("the caller's tokens are modified", s, &[t], texts(&before), texts(&after));
            return;
        }
        let o2 = cx.imp_ts(rec, s, ts, *p);
        let (a, b) = (format!("{:?}{:?}", o.res, o.rest), format!("{:?}{:?}", o2.res, o2.rest));
        if a != b {
            rec.find("two parses of one token stream differ", s, &[t], a, b);
            return;
        }
        let _ = k;
    }
}
/// a batch parsed by all threads at the same time, in different orders, compared with a sequential run
pub fn threads(cx: &Cx, rec: &mut Rec, deadline: Instant, out: &str) {
    let rounds = if cx.thorough { 40 } else { 6 };
    let n = 150;
    for round in 0..rounds {
        if Instant::now() > deadline {
            break;
        }
        let base = 1_000_000 + round * n;
        let mut items = vec![];
        for c in base..base + n {
            items.extend(make(cx, c, rec));
        }
        let mut want = vec![];
        let mut local = Rec::default();
        for (i, t, p) in &items {
            proc_macro2::extra::invalidate_current_thread_spans();
            want.push(visible(cx, &mut local, &cx.t.shapes[*i], t, *p));
        }
        let k = 8;
        let barrier = std::sync::Barrier::new(k);
        let bad = std::sync::Mutex::new(vec![]);
        // (thread, number of the item it is at)
        let at: Vec<(AtomicU64, AtomicU64)> = (0..k).map(|_| (AtomicU64::new(0), AtomicU64::new(u64::MAX))).collect();
        let live = AtomicUsize::new(k);
        std::thread::scope(|sc| {
            for w in 0..k {
                let (items, want, barrier, bad, at, live) = (&items, &want, &barrier, &bad, &at, &live);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        let mut order: Vec<usize> = (0..items.len()).collect();
                        Rng::new(w as u64 ^ (base << 8)).shuffle(&mut order);
                        let mut local = Rec::default();
                        at[w].0.store(crate::run::my_tid(), SeqCst);
                        barrier.wait();
                        for k in order {
                            at[w].1.store(k as u64, SeqCst);
                            proc_macro2::extra::invalidate_current_thread_spans();
                            let (i, t, p) = &items[k];
                            let v = visible(cx, &mut local, &cx.t.shapes[*i], t, *p);
                            if v != want[k] {
                                bad.lock().unwrap().push((k, v));
                            }
                        }
                        at[w].1.store(u64::MAX, SeqCst);
                        live.fetch_sub(1, SeqCst);
                    })
                    .unwrap();
            }
            let mut blocked = vec![crate::run::Blocked::default(); k];
            while live.load(SeqCst) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(if live.load(SeqCst) == k { 5 } else { 50 }));
                for (b, (tid, item)) in blocked.iter_mut().zip(&at) {
                    if b.sample(tid.load(SeqCst), item.load(SeqCst)) {
                        crate::run::hang(out, base, true);
                    }
                }
            }
        });
        rec.evals += (items.len() * (k + 1)) as u64;
        *rec.counts.entry("concurrent parses compared".into()).or_insert(0) += (items.len() * k) as u64;
        *rec.counts.entry("concurrent batches".into()).or_insert(0) += 1;
        for (k, v) in bad.into_inner().unwrap().into_iter().take(3) {
            let (i, t, _) = &items[k];
            rec.case = base;
            rec.find("a parse on another thread gives another outcome", &cx.t.shapes[*i], &[t], want[k].clone(), v);
        }
    }
}
/// one line per case: hash of everything visible; compared between processes and orders by the driver
pub fn digest(cx: &Cx, base: u64, cases: u64, path: &str, reverse: bool) {
    let mut lines = vec![String::new(); cases as usize];
    let mut rec = Rec::default();
    let order: Vec<u64> = if reverse { (0..cases).rev().collect() } else { (0..cases).collect() };
    for c in order {
        proc_macro2::extra::invalidate_current_thread_spans();
        let mut h = 0u64;
        for (i, t, p) in make(cx, base + c, &mut rec) {
            h = h.rotate_left(7) ^ hash64(visible(cx, &mut rec, &cx.t.shapes[i], &t, p).as_bytes());
        }
        lines[c as usize] = format!("{} {h:016x}", base + c);
    }
    std::fs::write(path, lines.join("\n")).unwrap();
}
