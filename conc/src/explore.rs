//! Exploration of all schedules of a few threads up to a number of preemptions.
use crate::core::*;
use std::collections::HashSet;
use wzshim::ctl;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Bound {
    /// how often a thread that could go on is made to wait
    pub preemptions: u32,
    /// also switch after a lock is given back
    pub at_release: bool,
    /// leave out the switches before locks that one thread uses only, or that are only read
    pub reduce: bool,
    /// schedules after which to stop
    pub max: u64,
}
pub type Body<T> = Box<dyn FnOnce() -> T + Send>;

/// Runs every schedule within the bound. `make` prepares the threads of one execution, `check`
/// judges what they did. Returns an error that names the schedule.
pub fn explore<T: Send + 'static, W>(b: Bound, st: &mut Stats, make: impl Fn() -> (W, Vec<Body<T>>), check: impl Fn(&W, Vec<T>) -> R) -> R {
    explore_all(b, st, make, check, |_| None)
}
/// `known` names the deadlocks that are known: the exploration goes on after them
pub fn explore_all<T: Send + 'static, W>(b: Bound, st: &mut Stats, make: impl Fn() -> (W, Vec<Body<T>>), check: impl Fn(&W, Vec<T>) -> R, known: impl Fn(&str) -> Option<String>) -> R {
    let mut found: Option<String> = None;
    pin();
    let mut shared: HashSet<u64> = HashSet::new();
    let mut used: ctl::Used = Default::default();
    let mut retries = 0;
    'again: loop {
        let mut prefix: Vec<usize> = vec![];
        let mut n = 0u64;
        loop {
            ctl::begin();
            let (w, bodies) = make();
            let start = prefix.len();
            let o = ctl::run(ctl::Plan { prefix, at_release: b.at_release, reduce: b.reduce, shared: shared.clone(), used: std::mem::take(&mut used) }, bodies);
            used = o.used;
            n += 1;
            st.traces += 1;
            st.transitions += o.ops;
            st.states += 1 + o.steps.len().saturating_sub(start) as u64;
            let sched = || -> String {
                let mut s = String::new();
                for x in &o.steps {
                    s += &x.chosen.to_string();
                }
                format!("schedule {s:?} ({n} explored)")
            };
            if o.diverged {
                // what the threads do depends on more than the schedule: try again from the start
                retries += 1;
                if retries > 3 {
                    return Err(format!("the threads do not do the same when the schedule is repeated; {}", sched()));
                }
                continue 'again;
            }
            let stuck = o.deadlock.is_some();
            if let Some(d) = &o.deadlock {
                let m = format!("no thread can go on: {d}{}", sched());
                match known(d) {
                    Some(k) => drop(found.get_or_insert(format!("{k}: {m}"))),
                    None => return Err(m),
                }
            }
            let mut rs = vec![];
            for (t, r) in o.results.into_iter().enumerate().filter(|_| !stuck) {
                match r {
                    Ok(r) => rs.push(r),
                    Err(m) => return Err(format!("thread {t}: {m}; {}", {
                        let mut s = String::new();
                        for x in &o.steps {
                            s += &x.chosen.to_string();
                        }
                        format!("schedule {s:?} ({n} explored)")
                    })),
                }
            }
            if stuck {
            } else if let Err(m) = check(&w, rs) {
                let s: String = o.steps.iter().map(|x| x.chosen.to_string()).collect();
                return Err(format!("{m}; schedule {s:?} ({n} explored)"));
            }
            if o.grown {
                shared = o.shared;
                continue 'again;
            }
            if n >= b.max {
                return Err(format!("more than {} schedules: the bound is too wide for this case", b.max));
            }
            // the next schedule
            let mut cost = vec![0u32];
            for s in &o.steps {
                let c = *cost.last().unwrap();
                cost.push(c + (s.preempt && s.chosen != s.enabled[0]) as u32);
            }
            let mut next = None;
            for i in (0..o.steps.len()).rev() {
                let s = &o.steps[i];
                let k = s.enabled.iter().position(|t| *t == s.chosen).unwrap();
                if k + 1 < s.enabled.len() && cost[i] + s.preempt as u32 <= b.preemptions {
                    let mut p: Vec<usize> = o.steps[..i].iter().map(|s| s.chosen).collect();
                    p.push(s.enabled[k + 1]);
                    next = Some(p);
                    break;
                }
            }
            match next {
                Some(p) => prefix = p,
                None => return found.map_or(Ok(()), Err),
            }
        }
    }
}
/// all orders of the operations of the threads that keep each thread's own order
pub fn serial_orders(lens: &[usize]) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|x| *x == 0) {
            out.push(cur.clone());
            return;
        }
        for t in 0..left.len() {
            if left[t] > 0 {
                left[t] -= 1;
                cur.push(t);
                go(left, cur, out);
                cur.pop();
                left[t] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut lens.to_vec(), &mut vec![], &mut out);
    out
}
/// the threads of one process never run at the same time: keep them on one processor
fn pin() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        let a: Vec<String> = std::env::args().collect();
        let me: usize = a.get(4).and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&have), &mut have) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|i| libc::CPU_ISSET(*i, &have)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut want: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[me % cpus.len()], &mut want);
        libc::sched_setaffinity(0, std::mem::size_of_val(&want), &want);
    });
}
/// with WZMC_COUNT=<file>, what every case cost
pub fn count(line: impl FnOnce() -> String) {
    if let Ok(p) = std::env::var("WZMC_COUNT") {
        use std::io::Write;
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) {
            let _ = writeln!(f, "{}", line());
        }
    }
}
