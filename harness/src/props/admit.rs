//! C14: indexing work is admitted within the process budget, in the promised
//! order, and never left waiting while it could run.
use crate::runner::*;
use crate::tape::Tape;
use ruby_fast_lsp::indexing_resources::*;
use ruby_fast_lsp::indexing_scheduler::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::task::JoinHandle;
use tokio_util::sync::CancellationToken;

const ROOTS: [&str; 3] = ["/p/a", "/p/b", "/p/c"];

#[derive(Clone, Debug)]
struct Spec {
    root: Option<usize>,
    prio: usize,
    lanes: usize,
    mem: usize,
    io: usize,
    parallel: bool,
}
impl Spec {
    fn real(&self) -> IndexingWorkSpec {
        let p = [IndexingResourcePriority::ActiveDocument, IndexingResourcePriority::OpenDocument, IndexingResourcePriority::Background][self.prio];
        let s = IndexingWorkSpec::new(self.root.map(|r| PathBuf::from(ROOTS[r])), p, self.lanes, self.mem, self.io);
        if self.parallel {
            s.as_project_parallel()
        } else {
            s
        }
    }
}
/// The reference admission rule.
struct Gov {
    limits: (usize, usize, usize, usize),
    queued: Vec<(usize, Spec)>,
    running: BTreeMap<usize, Spec>,
    active: Option<usize>,
    pending: bool,
    burst: usize,
    peaks: (usize, usize, usize, usize),
    switches: u64,
    admissions: usize,
    overtaken: bool,
    blocked: bool,
}
impl Gov {
    fn used(&self) -> (usize, usize, usize, usize) {
        let r = self.running.values();
        (self.running.len(), r.clone().map(|s| s.lanes).sum(), r.clone().map(|s| s.mem).sum(), r.map(|s| s.io).sum())
    }
    fn fits(&self, s: &Spec) -> bool {
        let (t, l, m, i) = self.used();
        !(s.parallel && self.pending && self.active != s.root) && t < self.limits.0 && l + s.lanes <= self.limits.1 && m + s.mem <= self.limits.2 && i + s.io <= self.limits.3
    }
    fn prio(&self, s: &Spec) -> usize {
        if self.active.is_some() && s.root == self.active {
            0
        } else {
            s.prio
        }
    }
    fn settle(&mut self) {
        loop {
            let fit: Vec<usize> = (0..self.queued.len()).filter(|i| self.fits(&self.queued[*i].1)).collect();
            self.blocked |= fit.len() < self.queued.len();
            let background = |i: &&usize| self.prio(&self.queued[**i].1) == 2;
            let first_background = fit.iter().filter(background).min_by_key(|i| self.queued[**i].0).copied();
            let best = fit.iter().min_by_key(|i| (self.prio(&self.queued[**i].1), self.queued[**i].0)).copied();
            let pick = match (self.burst >= 1, first_background, best) {
                (true, Some(b), _) => b,
                (_, _, Some(b)) => b,
                _ => return,
            };
            let waits = fit.iter().filter(background).any(|i| *i != pick);
            self.overtaken |= fit.iter().any(|i| self.queued[*i].0 < self.queued[pick].0);
            self.burst = if self.prio(&self.queued[pick].1) == 2 || !waits { 0 } else { self.burst + 1 };
            let (id, s) = self.queued.remove(pick);
            self.running.insert(id, s);
            self.admissions += 1;
            let u = self.used();
            self.peaks = (self.peaks.0.max(u.0), self.peaks.1.max(u.1), self.peaks.2.max(u.2), self.peaks.3.max(u.3));
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate {
    Done,
    Panicked,
    Aborted,
    Cancelled,
}
struct Ticket {
    gate: Option<tokio::sync::oneshot::Sender<bool>>,
    token: CancellationToken,
    handle: Option<JoinHandle<Option<usize>>>,
}
async fn settle() {
    for _ in 0..60 {
        tokio::task::yield_now().await;
    }
}
fn spec(t: &mut Tape, l: (usize, usize, usize, usize)) -> Spec {
    let root = *t.pick(&[None, Some(0), Some(1), Some(2)]);
    Spec { root, prio: 2 - t.below(3), lanes: t.range(1, l.1), mem: *t.pick(&[1, l.2 / 2, l.2 / 2 + 1, l.2]).max(&1), io: t.below(l.3 + 1), parallel: root.is_some() && t.chance(30) }
}

fn governor(t: &mut Tape) -> Case {
    let rt = tokio::runtime::Builder::new_current_thread().build().expect("HARNESS: runtime");
    rt.block_on(async {
        let limits = (t.range(1, 4), t.range(1, 4), *t.pick(&[10usize, 1]), t.range(1, 3));
        let gov = IndexingResourceGovernor::new(IndexingResourcePolicy::with_limits(limits.1, limits.0, limits.2, limits.3));
        let mut m = Gov { limits, queued: vec![], running: BTreeMap::new(), active: None, pending: false, burst: 0, peaks: (0, 0, 0, 0), switches: 0, admissions: 0, overtaken: false, blocked: false };
        let mut log = vec![format!("{} tasks, {} lanes, {} bytes, {} i/o slots", limits.0, limits.1, limits.2, limits.3)];
        let started: Arc<Mutex<Vec<usize>>> = Arc::default();
        let mut tickets: Vec<Ticket> = vec![];
        let mut fates: BTreeMap<usize, Fate> = BTreeMap::new();
        let mut forever: BTreeSet<usize> = BTreeSet::new();
        let (mut done, mut panicked, mut cut, mut cancelled) = (0u64, 0u64, 0u64, 0u64);
        let mut reservations: Vec<(usize, ProjectNavigationReservation)> = vec![];
        for _ in 0..t.range(4, 30) {
            let run: Vec<usize> = m.running.keys().copied().collect();
            match t.weighted(&[8, 6, 1, 1, 2, 2, 2, 1]) {
                1 if !run.is_empty() => {
                    let id = *t.pick(&run);
                    let ok = !t.chance(15);
                    log.push(format!("work {id} {}", if ok { "ends" } else { "panics" }));
                    m.running.remove(&id);
                    fates.insert(id, if ok { Fate::Done } else { Fate::Panicked });
                    if ok {
                        done += 1
                    } else {
                        panicked += 1
                    }
                    let _ = tickets[id].gate.take().unwrap().send(ok);
                }
                2 => {
                    let live: Vec<usize> = (0..tickets.len()).filter(|i| !fates.contains_key(i)).collect();
                    if live.is_empty() {
                        continue;
                    }
                    let id = *t.pick(&live);
                    log.push(format!("work {id} is aborted"));
                    if m.running.remove(&id).is_some() {
                        cut += 1;
                    }
                    m.queued.retain(|q| q.0 != id);
                    fates.insert(id, Fate::Aborted);
                    tickets[id].handle.as_ref().unwrap().abort();
                }
                3 => {
                    let live: Vec<usize> = (0..tickets.len()).filter(|i| !fates.contains_key(i) && !forever.contains(i)).collect();
                    if live.is_empty() {
                        continue;
                    }
                    let id = *t.pick(&live);
                    log.push(format!("work {id} is cancelled"));
                    tickets[id].token.cancel();
                    if m.queued.iter().any(|q| q.0 == id) {
                        m.queued.retain(|q| q.0 != id);
                        fates.insert(id, Fate::Cancelled);
                        cancelled += 1;
                    }
                }
                4 => {
                    let r = t.below(3);
                    m.pending = t.bool();
                    log.push(format!("{} becomes the active project, navigation pending: {}", ROOTS[r], m.pending));
                    if m.active != Some(r) {
                        m.active = Some(r);
                        m.switches += 1;
                    }
                    if m.pending || t.bool() {
                        gov.prioritize_active_project_with_navigation_pending(Path::new(ROOTS[r]), m.pending);
                    } else {
                        gov.prioritize_active_project(Path::new(ROOTS[r]));
                    }
                }
                5 => {
                    let r = t.below(3);
                    let p = t.bool();
                    log.push(format!("{} navigation {}", ROOTS[r], if p { "pending" } else { "complete" }));
                    if p {
                        gov.mark_project_navigation_pending_if_active(Path::new(ROOTS[r]));
                    } else {
                        gov.mark_project_navigation_complete_if_active(Path::new(ROOTS[r]));
                    }
                    if m.active == Some(r) {
                        m.pending = p;
                    }
                }
                6 => {
                    if reservations.is_empty() || t.bool() {
                        let r = t.below(3);
                        log.push(format!("navigation of {} reserved", ROOTS[r]));
                        reservations.push((r, gov.project_navigation_reservation(ROOTS[r].into())));
                    } else {
                        let (r, g) = reservations.remove(t.below(reservations.len()));
                        log.push(format!("navigation reservation of {} dropped", ROOTS[r]));
                        drop(g);
                        if m.active == Some(r) {
                            m.pending = false;
                        }
                    }
                }
                7 => {
                    let r = t.below(3);
                    let want = if m.active == Some(r) && m.pending { (limits.1 - 1).max(1) } else { (limits.1 / limits.0).max(1) };
                    let got = gov.project_parallel_cpu_lanes(Path::new(ROOTS[r]));
                    if got != want {
                        return Case::bad(log.join("\n"), "admit:share", format!("the lane share of {} is {got}, expected {want}\n history:\n  {}", ROOTS[r], log.join("\n  ")));
                    }
                }
                _ => {
                    let id = tickets.len();
                    let s = spec(t, limits);
                    let token = CancellationToken::new();
                    let dead = t.chance(5);
                    if dead {
                        token.cancel();
                    }
                    log.push(format!("work {id} asks: {s:?}{}", if dead { ", cancelled already" } else { "" }));
                    let (tx, rx) = tokio::sync::oneshot::channel();
                    let (g, st, sp, tk) = (gov.clone(), started.clone(), s.real(), token.clone());
                    let with_token = dead || t.bool();
                    let handle = tokio::spawn(async move {
                        g.run_async_with_resources("work", sp, with_token.then_some(tk), async move {
                            st.lock().unwrap().push(id);
                            if let Ok(false) = rx.await {
                                panic!("EXPECTED: work panics");
                            }
                            id
                        })
                        .await
                        .ok()
                    });
                    tickets.push(Ticket { gate: Some(tx), token, handle: Some(handle) });
                    if dead {
                        fates.insert(id, Fate::Cancelled);
                        cancelled += 1;
                    } else {
                        m.queued.push((id, s));
                    }
                    if !with_token {
                        forever.insert(id);
                    }
                }
            }
            m.settle();
            settle().await;
            let fail = |sig: &str, msg: String| Case::bad(log.join("\n"), format!("admit:{sig}"), format!("{msg}\n history:\n  {}", log.join("\n  ")));
            let got: BTreeSet<usize> = started.lock().unwrap().iter().copied().filter(|i| !fates.contains_key(i)).collect();
            let want: BTreeSet<usize> = m.running.keys().copied().collect();
            if got != want {
                return fail("running", format!("running is {got:?}, expected {want:?}; waiting: {:?}", m.queued.iter().map(|q| q.0).collect::<Vec<_>>()));
            }
            let s = gov.snapshot();
            let u = m.used();
            for (what, got, want) in [
                ("queued", s.queued_tasks, m.queued.len()),
                ("active tasks", s.active_tasks, u.0),
                ("active lanes", s.active_cpu_lanes, u.1),
                ("active memory", s.active_transient_memory_bytes, u.2),
                ("active i/o", s.active_io_slots, u.3),
                ("peak tasks", s.peak_active_tasks, m.peaks.0),
                ("peak lanes", s.peak_active_cpu_lanes, m.peaks.1),
                ("peak memory", s.peak_active_transient_memory_bytes, m.peaks.2),
                ("peak i/o", s.peak_active_io_slots, m.peaks.3),
                ("completed", s.completed_tasks as usize, done as usize),
                ("panicked", s.panicked_tasks as usize, panicked as usize),
                ("cancelled before start", s.cancelled_before_start as usize, cancelled as usize),
                ("cancelled after start", s.cancelled_after_start as usize, cut as usize),
                ("project switches", s.reprioritizations as usize, m.switches as usize),
                ("navigation pending", s.active_project_navigation_pending as usize, m.pending as usize),
            ] {
                if got != want {
                    return fail("counters", format!("{what} is {got}, expected {want}"));
                }
            }
            for (id, f) in &fates {
                let Some(h) = tickets[*id].handle.as_ref() else { continue };
                if !h.is_finished() {
                    return fail("stuck", format!("work {id} is {f:?} and its caller still waits"));
                }
                let r = tickets[*id].handle.take().unwrap().await;
                let ok = match (f, &r) {
                    (Fate::Done, Ok(Some(i))) => i == id,
                    (Fate::Cancelled, Ok(None)) => true,
                    (Fate::Panicked, Err(e)) => e.is_panic(),
                    (Fate::Aborted, Err(e)) => e.is_cancelled(),
                    _ => false,
                };
                if !ok {
                    return fail("result", format!("work {id} is {f:?}, its caller got {r:?}"));
                }
            }
            if let Some((id, _)) = m.running.iter().chain(m.queued.iter().map(|q| (&q.0, &q.1))).find(|(id, _)| tickets[**id].handle.as_ref().unwrap().is_finished()) {
                return fail("early", format!("the caller of work {id} has an answer although it has not ended"));
            }
        }
        let mut c = Case::ok(log.join("\n"), m.admissions > 1 && m.blocked);
        if m.overtaken {
            c = c.label("overtaking");
        }
        if panicked + cut + cancelled > 0 {
            c = c.label("interrupted work");
        }
        c
    })
}

struct Sched {
    limit: usize,
    /// id, project, requested priority, somebody waits
    queued: Vec<(usize, usize, usize, bool)>,
    running: BTreeMap<usize, usize>,
    active: Option<usize>,
    burst: usize,
    switches: u64,
    admissions: usize,
    held: bool,
}
impl Sched {
    fn settle(&mut self) {
        while self.running.len() < self.limit {
            let prio = |q: &(usize, usize, usize, bool)| if self.active == Some(q.1) { 0 } else { q.2 };
            let fit: Vec<&(usize, usize, usize, bool)> = self.queued.iter().filter(|q| !self.running.values().any(|r| *r == q.1)).collect();
            self.held |= fit.len() < self.queued.len();
            let bg = fit.iter().filter(|q| prio(q) == 2).min_by_key(|q| q.0);
            let best = fit.iter().min_by_key(|q| (prio(q), q.0));
            let pick = match (self.burst >= 1, bg, best) {
                (true, Some(b), _) => **b,
                (_, _, Some(b)) => **b,
                _ => return,
            };
            if !pick.3 {
                return;
            }
            let waits = fit.iter().any(|q| prio(q) == 2);
            self.burst = if prio(&pick) == 2 || !waits { 0 } else { self.burst + 1 };
            self.queued.retain(|q| q.0 != pick.0);
            self.running.insert(pick.0, pick.1);
            self.admissions += 1;
        }
        self.held |= !self.queued.is_empty();
    }
}
fn sched_prio(p: usize) -> IndexingPriority {
    [IndexingPriority::ActiveDocument, IndexingPriority::OpenDocument, IndexingPriority::Background][p]
}

fn scheduler(t: &mut Tape) -> Case {
    let rt = tokio::runtime::Builder::new_current_thread().build().expect("HARNESS: runtime");
    rt.block_on(async {
        let limit = t.range(1, 3);
        let s = IndexingScheduler::new(limit);
        let mut m = Sched { limit, queued: vec![], running: BTreeMap::new(), active: None, burst: 0, switches: 0, admissions: 0, held: false };
        let mut log = vec![format!("{limit} at a time")];
        let started: Arc<Mutex<Vec<usize>>> = Arc::default();
        let mut over: BTreeMap<usize, Fate> = BTreeMap::new();
        let mut tickets: Vec<Ticket> = vec![];
        let mut parked: BTreeMap<usize, (IndexingAdmission, tokio::sync::oneshot::Receiver<bool>)> = BTreeMap::new();
        let mut dead: BTreeSet<usize> = BTreeSet::new();
        let start = |adm: IndexingAdmission, rx: tokio::sync::oneshot::Receiver<bool>, id: usize, st: Arc<Mutex<Vec<usize>>>| {
            tokio::spawn(async move {
                let p = adm.wait().await?;
                st.lock().unwrap().push(id);
                if let Ok(false) = rx.await {
                    panic!("EXPECTED: work panics");
                }
                drop(p);
                Some(id)
            })
        };
        for _ in 0..t.range(4, 30) {
            let run: Vec<usize> = m.running.keys().copied().collect();
            match t.weighted(&[8, 6, 1, 2, 2, 2]) {
                1 if !run.is_empty() => {
                    let id = *t.pick(&run);
                    let ok = !t.chance(15);
                    log.push(format!("work {id} {}", if ok { "ends" } else { "panics" }));
                    m.running.remove(&id);
                    over.insert(id, if ok { Fate::Done } else { Fate::Panicked });
                    let _ = tickets[id].gate.take().unwrap().send(ok);
                }
                2 => {
                    let live: Vec<usize> = (0..tickets.len()).filter(|i| !over.contains_key(i)).collect();
                    if live.is_empty() {
                        continue;
                    }
                    let id = *t.pick(&live);
                    log.push(format!("work {id} is dropped"));
                    m.running.remove(&id);
                    m.queued.retain(|q| q.0 != id);
                    over.insert(id, Fate::Aborted);
                    match parked.remove(&id) {
                        Some(p) => drop(p),
                        None => tickets[id].handle.as_ref().unwrap().abort(),
                    }
                }
                3 => {
                    let live: Vec<usize> = (0..tickets.len()).filter(|i| !over.contains_key(i)).collect();
                    if live.is_empty() {
                        continue;
                    }
                    let id = *t.pick(&live);
                    log.push(format!("work {id} is cancelled"));
                    tickets[id].token.cancel();
                    dead.insert(id);
                    if m.queued.iter().any(|q| q.0 == id && q.3) {
                        m.queued.retain(|q| q.0 != id);
                        over.insert(id, Fate::Cancelled);
                    }
                }
                4 => {
                    let r = t.below(3);
                    log.push(format!("{} becomes the active project", ROOTS[r]));
                    if m.active != Some(r) {
                        m.active = Some(r);
                        m.switches += 1;
                    }
                    s.prioritize_active_project(Path::new(ROOTS[r]));
                }
                5 if !parked.is_empty() => {
                    let ids: Vec<usize> = parked.keys().copied().collect();
                    let id = *t.pick(&ids);
                    log.push(format!("work {id} waits now"));
                    let (adm, rx) = parked.remove(&id).unwrap();
                    tickets[id].handle = Some(start(adm, rx, id, started.clone()));
                    if dead.contains(&id) {
                        m.queued.retain(|q| q.0 != id);
                        over.insert(id, Fate::Cancelled);
                    } else {
                        m.queued.iter_mut().find(|q| q.0 == id).unwrap().3 = true;
                    }
                }
                _ => {
                    let id = tickets.len();
                    let (r, p) = (t.below(3), 2 - t.below(3));
                    let waits = !t.chance(20);
                    log.push(format!("work {id} for {} asks with priority {p}{}", ROOTS[r], if waits { "" } else { ", registered only" }));
                    let token = CancellationToken::new();
                    let (tx, rx) = tokio::sync::oneshot::channel();
                    let adm = s.register_cancellable(ROOTS[r].into(), sched_prio(p), token.clone());
                    m.queued.push((id, r, p, waits));
                    let mut tk = Ticket { gate: Some(tx), token, handle: None };
                    if waits {
                        tk.handle = Some(start(adm, rx, id, started.clone()));
                    } else {
                        parked.insert(id, (adm, rx));
                    }
                    tickets.push(tk);
                }
            }
            m.settle();
            settle().await;
            let fail = |sig: &str, msg: String| Case::bad(log.join("\n"), format!("sched:{sig}"), format!("{msg}\n history:\n  {}", log.join("\n  ")));
            let got: BTreeSet<usize> = started.lock().unwrap().iter().copied().filter(|i| !over.contains_key(i)).collect();
            let want: BTreeSet<usize> = m.running.keys().copied().collect();
            if got != want {
                return fail("running", format!("running is {got:?}, expected {want:?}; waiting: {:?}", m.queued.iter().map(|q| q.0).collect::<Vec<_>>()));
            }
            let n = s.snapshot();
            if (n.active, n.queued, n.reprioritizations) != (m.running.len(), m.queued.len(), m.switches) {
                return fail("counters", format!("{n:?}, expected {} active, {} queued, {} switches", m.running.len(), m.queued.len(), m.switches));
            }
            for (id, f) in &over {
                let Some(h) = tickets[*id].handle.as_ref() else { continue };
                if !h.is_finished() {
                    return fail("stuck", format!("work {id} is {f:?} and its caller still waits"));
                }
                let r = tickets[*id].handle.take().unwrap().await;
                let ok = match (f, &r) {
                    (Fate::Done, Ok(Some(i))) => i == id,
                    (Fate::Cancelled, Ok(None)) => true,
                    (Fate::Panicked, Err(e)) => e.is_panic(),
                    (Fate::Aborted, Err(e)) => e.is_cancelled(),
                    _ => false,
                };
                if !ok {
                    return fail("result", format!("work {id} is {f:?}, its caller got {r:?}"));
                }
            }
        }
        let mut c = Case::ok(log.join("\n"), m.admissions > 1 && m.held);
        if !dead.is_empty() {
            c = c.label("interrupted work");
        }
        c
    })
}

/// Real parallelism: the work itself measures what runs next to it.
fn parallel(t: &mut Tape) -> Case {
    let limits = (t.range(1, 4), t.range(1, 4), 10usize, t.range(1, 3));
    let n = t.range(6, 24);
    let plan: Vec<(Spec, usize, usize, u64)> = (0..n).map(|_| (spec(t, limits), t.below(5), t.weighted(&[8, 1, 1, 1]), t.below(300) as u64)).collect();
    let switches: Vec<(usize, bool)> = (0..t.below(4)).map(|_| (t.below(3), t.chance(30))).collect();
    let text = format!("{limits:?} {plan:?} {switches:?}");
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_time().build().expect("HARNESS: runtime");
    let gov = IndexingResourceGovernor::new(IndexingResourcePolicy::with_limits(limits.1, limits.0, limits.2, limits.3));
    let sched = IndexingScheduler::new(limits.0);
    let used: Arc<[AtomicIsize; 4]> = Arc::default();
    let per_root: Arc<[AtomicIsize; 3]> = Arc::default();
    let bad: Arc<Mutex<Option<(String, String)>>> = Arc::default();
    let finished = Arc::new(AtomicUsize::new(0));
    let out = rt.block_on(async {
        let mut hs = vec![];
        for (i, (s, entry, fate, us)) in plan.clone().into_iter().enumerate() {
            let s = match entry {
                1 => Spec { lanes: limits.1, ..s },
                2 => Spec { lanes: s.lanes.min((limits.1 / limits.0).max(1)), ..s },
                3 if limits.1 > 1 => Spec { lanes: s.lanes.min(limits.1 - 1), ..s },
                _ => s,
            };
            // a blocked project-parallel request waits for the navigation flag only
            let (u, b, fin, pr) = (used.clone(), bad.clone(), finished.clone(), per_root.clone());
            let lanes = s.lanes;
            let pooled = (1..=3).contains(&entry) && !(entry == 3 && limits.1 < 2);
            let sp = s.clone();
            let body = move || {
                let claim = [1, sp.lanes as isize, sp.mem as isize, sp.io as isize];
                let lim = [limits.0, limits.1, limits.2, limits.3];
                for k in 0..4 {
                    let v = u[k].fetch_add(claim[k], Ordering::SeqCst) + claim[k];
                    if v > lim[k] as isize {
                        *b.lock().unwrap() = Some(("over-budget".into(), format!("{v} {} in use, the limit is {}", ["tasks", "lanes", "bytes", "i/o slots"][k], lim[k])));
                    }
                }
                if pooled && rayon::current_num_threads() != lanes {
                    *b.lock().unwrap() = Some(("pool".into(), format!("work that claimed {lanes} lanes runs in a pool of {}", rayon::current_num_threads())));
                }
                std::thread::sleep(Duration::from_micros(us));
                for k in 0..4 {
                    u[k].fetch_sub(claim[k], Ordering::SeqCst);
                }
                fin.fetch_add(1, Ordering::SeqCst);
                if fate == 1 {
                    panic!("EXPECTED: work panics");
                }
                i
            };
            let token = CancellationToken::new();
            let tk = (fate == 2).then(|| token.clone());
            let (g, sc) = (gov.clone(), sched.clone());
            let b2 = bad.clone();
            let h = tokio::spawn(async move {
                let permit = match s.root {
                    Some(r) if entry != 4 || us % 2 == 0 => {
                        let p = match &tk {
                            Some(tk) => match sc.acquire_cancellable(ROOTS[r].into(), sched_prio(s.prio), tk.clone()).await {
                                Some(p) => Some(p),
                                None => return None,
                            },
                            None => Some(sc.acquire(ROOTS[r].into(), sched_prio(s.prio)).await),
                        };
                        if pr[r].fetch_add(1, Ordering::SeqCst) > 0 {
                            *b2.lock().unwrap() = Some(("two-coordinators".into(), format!("two coordinators of {} at once", ROOTS[r])));
                        }
                        Some((r, p))
                    }
                    _ => None,
                };
                struct Leave(Arc<[AtomicIsize; 3]>, Option<usize>);
                impl Drop for Leave {
                    fn drop(&mut self) {
                        if let Some(r) = self.1 {
                            self.0[r].fetch_sub(1, Ordering::SeqCst);
                        }
                    }
                }
                // leaves before the permit is given back
                let permit = permit.map(|(r, p)| (Leave(pr.clone(), Some(r)), p));
                let r = match entry {
                    1 => g.run_parallel_with_resources("w", s.real(), tk, body).await,
                    2 => g.run_cooperative_parallel_with_resources("w", s.real(), tk, body).await,
                    3 if limits.1 > 1 => g.run_partitioned_parallel_with_resources("w", s.real(), tk, body).await,
                    4 => g.run_async_with_resources("w", s.real(), tk, async move { body() }).await,
                    _ => g.run_with_resources("w", s.real(), tk, body).await,
                };
                drop(permit);
                r.ok()
            });
            hs.push((i, fate, h));
            if fate == 2 {
                let d = us;
                tokio::spawn(async move {
                    tokio::time::sleep(Duration::from_micros(d * 5)).await;
                    token.cancel();
                });
            }
        }
        for (r, p) in &switches {
            tokio::time::sleep(Duration::from_micros(200)).await;
            sched.prioritize_active_project(Path::new(ROOTS[*r]));
            gov.prioritize_active_project_with_navigation_pending(Path::new(ROOTS[*r]), *p);
        }
        if let Some((r, true)) = switches.last() {
            tokio::time::sleep(Duration::from_micros(300)).await;
            gov.mark_project_navigation_complete_if_active(Path::new(ROOTS[*r]));
        }
        for (i, fate, h) in &mut hs {
            if *fate == 3 {
                tokio::time::sleep(Duration::from_micros(50)).await;
                h.abort();
            }
            match tokio::time::timeout(Duration::from_secs(30), h).await {
                Err(_) => return Some(("stuck".to_string(), format!("work {i} has not ended after 30 s; {:?}; {:?}", gov.snapshot(), sched.snapshot()))),
                Ok(Ok(Some(x))) if x != *i => return Some(("result".into(), format!("work {i} got the result of {x}"))),
                Ok(Ok(None)) if *fate == 0 => return Some(("result".into(), format!("work {i} was refused"))),
                Ok(Err(e)) if *fate == 0 => return Some(("result".into(), format!("work {i} died: {e}"))),
                _ => {}
            }
        }
        // work whose caller was aborted may still be on a thread
        for _ in 0..30000 {
            let s = gov.snapshot();
            if s.active_tasks + s.queued_tasks == 0 && sched.snapshot().active + sched.snapshot().queued == 0 {
                break;
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        let (s, c) = (gov.snapshot(), sched.snapshot());
        let left = [s.queued_tasks, s.active_tasks, s.active_cpu_lanes, s.active_transient_memory_bytes, s.active_io_slots, c.active, c.queued];
        if left != [0; 7] {
            return Some(("leak".to_string(), format!("everything ended and {s:?} {c:?}")));
        }
        None
    });
    rt.shutdown_background();
    let out = out.or(bad.lock().unwrap().take());
    match out {
        Some((s, m)) => Case::bad(text.clone(), format!("admit:{s}"), format!("{m}; {text}")),
        None => Case::ok(text, finished.load(Ordering::SeqCst) > limits.0),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "a history is non-trivial if something was admitted after something else and some request had to wait; a parallel run if more work ran than fits at once",
        assumptions: &["histories are interleaved on one thread and settled after every step; parallel runs sample the schedules the machine produces"],
        lanes: vec![Lane::new("governor", 15000, 600_000, governor), Lane::new("scheduler", 20000, 800_000, scheduler), Lane::new("parallel", 1500, 60_000, parallel)],
        case_limit: CASE_LIMIT,
    }
}
