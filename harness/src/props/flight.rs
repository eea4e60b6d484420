//! C13: work for one key is done once at a time, everybody who asked gets that
//! one outcome, failures are never kept, and what is kept respects the limits.
use crate::runner::*;
use crate::tape::Tape;
use ruby_fast_lsp::single_flight::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug)]
struct Val {
    id: usize,
    weight: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Ok(u64),
    Err,
    Panic,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Got {
    Value(usize),
    Failed,
}

/// The reference: which flight a key has, in start order.
#[derive(Default)]
struct Model {
    limits: Option<(usize, u64)>,
    flights: Vec<(u8, Option<End>)>,
    entries: Vec<(u8, usize)>,
    lookups: u64,
    hits: u64,
    joined: u64,
    misses: u64,
    failures: u64,
    evictions: u64,
}
impl Model {
    /// Returns the flight and whether it is new.
    fn lookup(&mut self, k: u8) -> (usize, bool) {
        self.lookups += 1;
        match self.entries.iter().find(|e| e.0 == k) {
            Some(&(_, f)) => {
                if self.flights[f].1.is_some() {
                    self.hits += 1;
                } else {
                    self.joined += 1;
                }
                (f, false)
            }
            None => {
                self.misses += 1;
                self.flights.push((k, None));
                self.entries.push((k, self.flights.len() - 1));
                (self.flights.len() - 1, true)
            }
        }
    }
    fn finish(&mut self, f: usize, end: End) {
        self.flights[f].1 = Some(end);
        if !matches!(end, End::Ok(_)) {
            self.failures += 1;
            self.entries.retain(|e| e.1 != f);
            return;
        }
        let Some((me, mw)) = self.limits else { return };
        loop {
            let done: Vec<usize> = self.entries.iter().filter(|e| self.flights[e.1].1.is_some()).map(|e| e.1).collect();
            if done.len() <= me && self.weight() <= mw {
                return;
            }
            self.entries.retain(|e| e.1 != done[0]);
            self.evictions += 1;
        }
    }
    fn weight(&self) -> u64 {
        self.entries.iter().map(|e| if let Some(End::Ok(w)) = self.flights[e.1].1 { w } else { 0 }).sum()
    }
    fn compare(&self, s: SingleFlightSnapshot) -> Option<String> {
        for (what, got, want) in [
            ("entries", s.entries as u64, self.entries.len() as u64),
            ("lookups", s.lookups, self.lookups),
            ("hits", s.hits, self.hits),
            ("joined flights", s.joined_flights, self.joined),
            ("misses", s.misses, self.misses),
            ("producers", s.producers, self.flights.len() as u64),
            ("failures", s.failures, self.failures),
            ("evictions", s.evictions, self.evictions),
        ] {
            if got != want {
                return Some(format!("{what} is {got}, expected {want}"));
            }
        }
        None
    }
    fn outcome(&self, f: usize) -> Option<Got> {
        self.flights[f].1.map(|e| if let End::Ok(_) = e { Got::Value(f) } else { Got::Failed })
    }
    fn pending(&self) -> Vec<usize> {
        (0..self.flights.len()).filter(|f| self.flights[*f].1.is_none()).collect()
    }
}
fn limits(t: &mut Tape) -> (usize, u64) {
    (t.range(1, 3), *t.pick(&[1u64, 5, 10, 1000]))
}
fn ending(t: &mut Tape) -> End {
    match t.weighted(&[6, 2, 1]) {
        0 => End::Ok(*t.pick(&[0u64, 1, 4, 5, 11, 2000])),
        1 => End::Err,
        _ => End::Panic,
    }
}

#[derive(Clone)]
enum Cache {
    Kept(SingleFlightCache<u8, Val>),
    Bounded(BoundedSingleFlightCache<u8, Val>),
}

type Gates = Arc<Mutex<Vec<Option<tokio::sync::oneshot::Sender<End>>>>>;

/// Asynchronous caches, every step settled before the next one.
fn steps(t: &mut Tape) -> Case {
    let rt = tokio::runtime::Builder::new_current_thread().build().expect("HARNESS: runtime");
    rt.block_on(async {
        let mut m = Model::default();
        let mut log = vec![];
        let cache = match t.below(4) {
            0 => {
                log.push("unbounded".to_string());
                Cache::Kept(SingleFlightCache::default())
            }
            1 => {
                m.limits = Some((0, 0));
                log.push("ephemeral".to_string());
                Cache::Bounded(BoundedSingleFlightCache::ephemeral(|v: &Val| v.weight))
            }
            _ => {
                let l = limits(t);
                m.limits = Some(l);
                log.push(format!("limits {l:?}"));
                Cache::Bounded(BoundedSingleFlightCache::new(l.0, l.1, |v: &Val| v.weight))
            }
        };
        let gates: Gates = Arc::default();
        let mut waiters: Vec<(usize, Option<tokio::task::JoinHandle<Result<Arc<Val>, String>>>)> = vec![];
        let mut values: BTreeMap<usize, Arc<Val>> = BTreeMap::new();
        let (mut shared, mut failed, mut aborted) = (false, false, false);
        for _ in 0..t.range(3, 20) {
            let pend = m.pending();
            match t.weighted(&[5, 4, 1, 1]) {
                1 if !pend.is_empty() => {
                    let f = *t.pick(&pend);
                    let end = ending(t);
                    log.push(format!("work {f} for key {} ends: {end:?}", m.flights[f].0));
                    failed |= !matches!(end, End::Ok(_));
                    m.finish(f, end);
                    let g = gates.lock().unwrap()[f].take();
                    let _ = g.expect("HARNESS: gate").send(end);
                }
                2 => {
                    // a waiter goes away; the work goes on
                    let live: Vec<usize> = (0..waiters.len()).filter(|w| waiters[*w].1.is_some()).collect();
                    if live.is_empty() {
                        continue;
                    }
                    let w = *t.pick(&live);
                    log.push(format!("waiter {w} gives up"));
                    waiters[w].1.take().unwrap().abort();
                    aborted = true;
                }
                _ => {
                    let k = t.below(4) as u8;
                    for _ in 0..t.range(1, 3) {
                        let (f, _) = m.lookup(k);
                        shared |= waiters.iter().any(|w| w.0 == f);
                        let (c, g) = (cache.clone(), gates.clone());
                        let producer = move || async move {
                            let (tx, rx) = tokio::sync::oneshot::channel();
                            let id = {
                                let mut g = g.lock().unwrap();
                                g.push(Some(tx));
                                g.len() - 1
                            };
                            match rx.await {
                                Ok(End::Ok(weight)) => Ok(Val { id, weight }),
                                Ok(End::Panic) => panic!("EXPECTED: producer panics"),
                                _ => Err(format!("failure {id}")),
                            }
                        };
                        waiters.push((
                            f,
                            Some(tokio::spawn(async move {
                                match c {
                                    Cache::Kept(c) => c.get_or_try_init(k, producer).await,
                                    Cache::Bounded(c) => c.get_or_try_init(k, producer).await,
                                }
                            })),
                        ));
                        log.push(format!("waiter {} asks for key {k}", waiters.len() - 1));
                    }
                }
            }
            for _ in 0..40 {
                tokio::task::yield_now().await;
            }
            let fail = |sig: &str, msg: String| Case::bad(log.join("\n"), format!("flight:{sig}"), format!("{msg}\n history:\n  {}", log.join("\n  ")));
            let started = gates.lock().unwrap().len();
            if started != m.flights.len() {
                return fail("producers", format!("the work ran {started} times, expected {}", m.flights.len()));
            }
            for (i, (f, h)) in waiters.iter_mut().enumerate() {
                let Some(hh) = h else { continue };
                match m.outcome(*f) {
                    None if hh.is_finished() => return fail("early", format!("waiter {i} has an answer while work {f} is still running: {:?}", h.take().unwrap().await)),
                    None => {}
                    Some(_) if !hh.is_finished() => return fail("stuck", format!("waiter {i} still waits although work {f} is over")),
                    Some(want) => {
                        let r = match h.take().unwrap().await {
                            Ok(r) => r,
                            Err(e) => return fail("waiter-panic", format!("waiter {i} died: {e}")),
                        };
                        match (r, want) {
                            (Ok(v), Got::Value(id)) if v.id == id => {
                                if let Some(o) = values.get(&id) {
                                    if !Arc::ptr_eq(o, &v) {
                                        return fail("copies", format!("waiters of work {id} got different objects"));
                                    }
                                }
                                values.insert(id, v);
                            }
                            (Err(e), Got::Failed) if m.flights[*f].1 == Some(End::Panic) || e == format!("failure {f}") => {}
                            (got, want) => return fail("outcome", format!("waiter {i} of work {f} got {got:?}, expected {want:?}")),
                        }
                    }
                }
            }
            let snap = match &cache {
                Cache::Kept(c) => c.snapshot(),
                Cache::Bounded(c) => c.snapshot(),
            };
            if let Cache::Bounded(c) = &cache {
                for k in 0..4u8 {
                    if c.contains_key(&k) != m.entries.iter().any(|e| e.0 == k) {
                        return fail("kept", format!("key {k} is {}kept", if c.contains_key(&k) { "" } else { "not " }));
                    }
                }
                if c.retained_weight() != m.weight() {
                    return fail("weight", format!("retained weight is {}, expected {}", c.retained_weight(), m.weight()));
                }
            }
            if let Some(d) = m.compare(snap) {
                return fail("counters", d);
            }
        }
        let mut c = Case::ok(log.join("\n"), shared);
        if failed {
            c = c.label("failing work");
        }
        if aborted {
            c = c.label("waiter gave up");
        }
        if m.evictions > 0 {
            c = c.label("evicted");
        }
        c
    })
}

fn until(mut f: impl FnMut() -> bool) -> bool {
    let t0 = Instant::now();
    while !f() {
        if t0.elapsed() > Duration::from_secs(20) {
            return false;
        }
        std::thread::yield_now();
    }
    true
}

/// The blocking cache, used from real threads, every step settled.
fn blocking(t: &mut Tape) -> Case {
    let l = limits(t);
    let mut m = Model { limits: Some(l), ..Default::default() };
    let mut log = vec![format!("limits {l:?}")];
    let cache = BlockingBoundedSingleFlightCache::<u8, Val, String>::new(l.0, l.1, |v: &Val| v.weight);
    let gates: Arc<Mutex<Vec<mpsc::Sender<End>>>> = Arc::default();
    let mut waiters: Vec<(usize, Option<mpsc::Receiver<Option<Result<Arc<Val>, String>>>>)> = vec![];
    let mut values: BTreeMap<usize, Arc<Val>> = BTreeMap::new();
    let (mut shared, mut failed) = (false, false);
    for _ in 0..t.range(3, 12) {
        let pend = m.pending();
        if !pend.is_empty() && t.chance(45) {
            let f = *t.pick(&pend);
            let end = ending(t);
            log.push(format!("work {f} for key {} ends: {end:?}", m.flights[f].0));
            failed |= !matches!(end, End::Ok(_));
            m.finish(f, end);
            let _ = gates.lock().unwrap()[f].send(end);
        } else {
            let k = t.below(3) as u8;
            let (f, _) = m.lookup(k);
            shared |= waiters.iter().any(|w| w.0 == f);
            let (c, g) = (cache.clone(), gates.clone());
            let (tx, rx) = mpsc::channel();
            std::thread::spawn(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    c.get_or_try_init(k, move || {
                        let (tx, rx) = mpsc::channel();
                        let id = {
                            let mut g = g.lock().unwrap();
                            g.push(tx);
                            g.len() - 1
                        };
                        match rx.recv() {
                            Ok(End::Ok(weight)) => Ok(Val { id, weight }),
                            Ok(End::Panic) => panic!("EXPECTED: producer panics"),
                            _ => Err(format!("failure {id}")),
                        }
                    })
                }));
                let _ = tx.send(r.ok());
            });
            waiters.push((f, Some(rx)));
            log.push(format!("thread {} asks for key {k}", waiters.len() - 1));
        }
        let text = log.join("\n");
        let fail = |sig: &str, msg: String| {
            // let every thread of this case end
            for g in gates.lock().unwrap().iter() {
                let _ = g.send(End::Err);
            }
            Case::bad(text.clone(), format!("flight:blocking-{sig}"), format!("{msg}\n history:\n  {}", text.replace('\n', "\n  ")))
        };
        let entered = || {
            let s = cache.snapshot();
            s.lookups == m.lookups && s.hits + s.joined_flights + s.misses == m.lookups && gates.lock().unwrap().len() as u64 >= s.misses
        };
        if !until(entered) {
            return fail("entry", "a lookup is neither a hit, nor joined, nor a miss".into());
        }
        let started = gates.lock().unwrap().len();
        if started != m.flights.len() {
            return fail("producers", format!("the work ran {started} times, expected {}", m.flights.len()));
        }
        for (i, (f, h)) in waiters.iter_mut().enumerate() {
            let Some(rx) = h else { continue };
            match m.outcome(*f) {
                None => {
                    if rx.try_recv().is_ok() {
                        return fail("early", format!("thread {i} has an answer while work {f} is still running"));
                    }
                }
                Some(want) => {
                    let Ok(r) = rx.recv_timeout(Duration::from_secs(20)) else {
                        return fail("stuck", format!("thread {i} still waits although work {f} is over"));
                    };
                    *h = None;
                    match (r, want) {
                        (Some(Ok(v)), Got::Value(id)) if v.id == id => {
                            if let Some(o) = values.get(&id) {
                                if !Arc::ptr_eq(o, &v) {
                                    return fail("copies", format!("threads of work {id} got different objects"));
                                }
                            }
                            values.insert(id, v);
                        }
                        (None, Got::Failed) if m.flights[*f].1 == Some(End::Panic) => {}
                        (Some(Err(e)), Got::Failed) if m.flights[*f].1 == Some(End::Err) && e == format!("failure {f}") => {}
                        (got, want) => return fail("outcome", format!("thread {i} of work {f} got {got:?}, expected {want:?}")),
                    }
                }
            }
        }
        // the owner evicts before it returns, so everything is settled here
        for k in 0..3u8 {
            if cache.contains_key(&k) != m.entries.iter().any(|e| e.0 == k) {
                return fail("kept", format!("key {k} is {}kept", if cache.contains_key(&k) { "" } else { "not " }));
            }
        }
        if cache.retained_weight() != m.weight() {
            return fail("weight", format!("retained weight is {}, expected {}", cache.retained_weight(), m.weight()));
        }
        if let Some(d) = m.compare(cache.snapshot()) {
            return fail("counters", d);
        }
    }
    for g in gates.lock().unwrap().iter() {
        let _ = g.send(End::Err);
    }
    let mut c = Case::ok(log.join("\n"), shared);
    if failed {
        c = c.label("failing work");
    }
    if m.evictions > 0 {
        c = c.label("evicted");
    }
    c
}

#[derive(Clone)]
enum Any {
    Kept(SingleFlightCache<u8, usize>),
    Bounded(BoundedSingleFlightCache<u8, usize>),
    Blocking(BlockingBoundedSingleFlightCache<u8, usize, String>),
}
#[derive(Default)]
struct Site {
    attempts: AtomicUsize,
    running: AtomicUsize,
    overlaps: AtomicUsize,
    value: AtomicUsize,
}
impl Site {
    fn begin(&self) -> usize {
        if self.running.fetch_add(1, Ordering::SeqCst) > 0 {
            self.overlaps.fetch_add(1, Ordering::SeqCst);
        }
        self.attempts.fetch_add(1, Ordering::SeqCst)
    }
    fn end(&self, attempt: usize, failing: usize) -> Result<usize, String> {
        self.running.fetch_sub(1, Ordering::SeqCst);
        if attempt < failing {
            Err(attempt.to_string())
        } else {
            self.value.store(attempt, Ordering::SeqCst);
            Ok(attempt)
        }
    }
}

/// Real parallelism: everybody retries at once after a failure.
fn parallel(t: &mut Tape) -> Case {
    let kind = t.below(3);
    let n = t.range(2, 6);
    let failing = t.range(1, 30);
    let pause = t.below(3);
    let text = format!("{} cache, {n} users, the first {failing} attempts fail, pause {pause}", ["unbounded", "bounded", "blocking"][kind]);
    let site = Arc::new(Site::default());
    let (tx, rx) = mpsc::channel::<Result<(usize, usize), String>>();
    let cache = match kind {
        0 => Any::Kept(SingleFlightCache::default()),
        1 => Any::Bounded(BoundedSingleFlightCache::new(4, 100, |_| 1)),
        _ => Any::Blocking(BlockingBoundedSingleFlightCache::new(4, 100, |_| 1)),
    };
    let judge = move |last: &mut Option<usize>, r: Result<Arc<usize>, String>| -> Option<Result<usize, String>> {
        match r {
            Ok(v) => Some(Ok(*v)),
            Err(e) => {
                let a: usize = match e.parse() {
                    Ok(a) => a,
                    Err(_) => return Some(Err(format!("unexpected error {e}"))),
                };
                if last.is_some_and(|l| a <= l) {
                    return Some(Err(format!("a lookup made after attempt {} had failed was answered with the failure of attempt {a}", last.unwrap())));
                }
                *last = Some(a);
                None
            }
        }
    };
    let mut rt = None;
    if kind < 2 {
        let r = tokio::runtime::Builder::new_multi_thread().worker_threads(4).build().expect("HARNESS: runtime");
        for _ in 0..n {
            let (cache, site, tx) = (cache.clone(), site.clone(), tx.clone());
            r.spawn(async move {
                let mut last = None;
                let mut rounds = 0;
                loop {
                    let s = site.clone();
                    let producer = move || async move {
                        let a = s.begin();
                        for _ in 0..pause {
                            tokio::task::yield_now().await;
                        }
                        s.end(a, failing)
                    };
                    let r = match &cache {
                        Any::Kept(c) => c.get_or_try_init(0, producer).await,
                        Any::Bounded(c) => c.get_or_try_init(0, producer).await,
                        Any::Blocking(_) => unreachable!(),
                    };
                    rounds += 1;
                    if let Some(r) = judge(&mut last, r) {
                        let _ = tx.send(r.map(|v| (v, rounds)));
                        return;
                    }
                }
            });
        }
        rt = Some(r);
    } else {
        for _ in 0..n {
            let (cache, site, tx) = (cache.clone(), site.clone(), tx.clone());
            std::thread::spawn(move || {
                let Any::Blocking(c) = cache else { unreachable!() };
                let mut last = None;
                let mut rounds = 0;
                loop {
                    let s = site.clone();
                    let r = c.get_or_try_init(0, move || {
                        let a = s.begin();
                        for _ in 0..pause {
                            std::thread::yield_now();
                        }
                        s.end(a, failing)
                    });
                    rounds += 1;
                    if let Some(r) = judge(&mut last, r) {
                        let _ = tx.send(r.map(|v| (v, rounds)));
                        return;
                    }
                }
            });
        }
    }
    drop(tx);
    let mut out = None;
    for i in 0..n {
        match rx.recv_timeout(Duration::from_secs(30)) {
            Ok(Ok((v, _))) if v == failing => {}
            Ok(Ok((v, _))) => out = Some(("value", format!("a user got the value of attempt {v}, the first that succeeds is {failing}"))),
            Ok(Err(e)) => out = Some(("stale-failure", e)),
            Err(_) => {
                out = Some(("stuck", format!("only {i} of {n} users got an answer within 30 s")));
                break;
            }
        }
    }
    if let Some(r) = rt {
        r.shutdown_background();
    }
    if out.is_none() && site.overlaps.load(Ordering::SeqCst) > 0 {
        out = Some(("overlap", "two producers of one key ran at the same time".into()));
    }
    if out.is_none() && site.attempts.load(Ordering::SeqCst) != failing + 1 {
        out = Some(("attempts", format!("{} attempts ran, expected {}", site.attempts.load(Ordering::SeqCst), failing + 1)));
    }
    match out {
        Some((s, m)) => Case::bad(text.clone(), format!("flight:{s}"), format!("{m} ({text})")),
        None => Case::ok(text, true),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "a history is non-trivial if at least two lookups share one piece of work; parallel retries always are",
        assumptions: &["steps of the asynchronous caches are interleaved on one thread; parallel retries are sampled on the schedules the machine produces"],
        lanes: vec![Lane::new("steps", 40000, 2_000_000, steps), Lane::new("blocking", 6000, 200_000, blocking), Lane::new("parallel", 4000, 200_000, parallel)],
        case_limit: CASE_LIMIT,
    }
}
