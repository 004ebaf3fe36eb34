//! C16: the thread pool.

use crate::ensure;
use crate::util::*;
use ariadne_dns::shared::thread_pool::ThreadPool;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// What the jobs did.
struct Board {
    runs: Vec<AtomicUsize>,
    done: Vec<AtomicUsize>,
    now: AtomicUsize,
    most: AtomicUsize,
    late: AtomicBool,
    dropped: AtomicBool,
    met: Mutex<usize>,
    bell: Condvar,
}

/// "size meet drop_ms | job job ... | job ..." : one list of jobs for each submitter, a job is how long it takes in
/// microseconds; the first `meet` jobs of the first list wait until all of them run.
pub fn check_c16(case: &str) -> Res {
    let (tx, rx) = mpsc::channel();
    let c = case.to_string();
    std::thread::spawn(move || {
        let r = std::panic::catch_unwind(|| run(&c)).unwrap_or_else(|_| Err("panic".into()));
        let _ = tx.send(r);
    });
    match rx.recv_timeout(Duration::from_secs(20)) {
        Ok(r) => r,
        Err(_) => Err("the pool does not end: a queued job does not run, or the drop does not return".into()),
    }
}

fn run(case: &str) -> Res {
    let mut parts = case.split('|');
    let h: Vec<usize> = parts.next().unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
    let (size, meet, pause) = (h[0], h[1].min(h[0]), h[2]);
    let lists: Vec<Vec<u64>> = parts.map(|p| p.split_whitespace().map(|x| x.parse().unwrap()).collect()).collect();
    let total: usize = lists.iter().map(|l| l.len()).sum();
    let meet = meet.min(lists.first().map_or(0, |l| l.len()));
    let b = Arc::new(Board {
        runs: (0..total).map(|_| AtomicUsize::new(0)).collect(),
        done: (0..total).map(|_| AtomicUsize::new(0)).collect(),
        now: AtomicUsize::new(0),
        most: AtomicUsize::new(0),
        late: AtomicBool::new(false),
        dropped: AtomicBool::new(false),
        met: Mutex::new(0),
        bell: Condvar::new(),
    });
    let pool = Mutex::new(ThreadPool::new(size, "pool"));
    std::thread::scope(|s| {
        let mut first = 0;
        for (k, l) in lists.iter().enumerate() {
            let (b, pool, at) = (&b, &pool, first);
            first += l.len();
            s.spawn(move || {
                for (i, us) in l.iter().enumerate() {
                    let (b, us, id, meets) = (Arc::clone(b), *us, at + i, if k == 0 && i < meet { meet } else { 0 });
                    pool.lock().unwrap().execute(move || job(&b, id, us, meets));
                }
            });
        }
    });
    std::thread::sleep(Duration::from_micros(pause as u64));
    let pool = pool.into_inner().unwrap();
    drop(pool);
    b.dropped.store(true, SeqCst);
    for i in 0..total {
        ensure!(b.runs[i].load(SeqCst) == 1, "job {} was started {} times when the drop returned", i, b.runs[i].load(SeqCst));
        ensure!(b.done[i].load(SeqCst) == 1, "job {} was not over when the drop returned", i);
    }
    ensure!(b.most.load(SeqCst) <= size, "{} jobs at a time in a pool of {}", b.most.load(SeqCst), size);
    std::thread::sleep(Duration::from_micros(300));
    ensure!(!b.late.load(SeqCst), "a job ran after the drop returned");
    ensure!((0..total).all(|i| b.runs[i].load(SeqCst) == 1), "a job ran again after the drop returned");
    if meet > 0 {
        ensure!(*b.met.lock().unwrap() == meet, "{} of the {} jobs which could run at the same time did, in a pool of {}", b.met.lock().unwrap(), meet, size);
    }
    Ok(total > 0)
}

fn job(b: &Board, id: usize, us: u64, meets: usize) {
    let n = b.now.fetch_add(1, SeqCst) + 1;
    b.most.fetch_max(n, SeqCst);
    b.runs[id].fetch_add(1, SeqCst);
    if meets > 0 {
        let mut m = b.met.lock().unwrap();
        if *m < meets {
            *m += 1;
            b.bell.notify_all();
            let end = Instant::now() + Duration::from_secs(4);
            while *m < meets && Instant::now() < end {
                m = b.bell.wait_timeout(m, Duration::from_millis(100)).unwrap().0;
            }
            if *m < meets {
                // never reaches the number of the meeting
                *m = 0;
            }
        }
    }
    if us > 0 {
        std::thread::sleep(Duration::from_micros(us));
    }
    if b.dropped.load(SeqCst) {
        b.late.store(true, SeqCst);
    }
    b.now.fetch_sub(1, SeqCst);
    b.done[id].fetch_add(1, SeqCst);
}

pub fn gen_c16(r: &mut Rng, _part: usize, _parts: usize, emit: &mut dyn FnMut(String) -> bool) {
    loop {
        let size = *r.pick(&[1usize, 1, 2, 2, 3, 4, 5, 6, 8, 12, 20, 40]);
        let meet = if r.chance(1, 2) { size } else { 0 };
        let pause = *r.pick(&[0usize, 0, 0, 100, 2000]);
        let mut s = format!("{} {} {}", size, meet, pause);
        for k in 0..r.range(1, 3) {
            s.push_str(" |");
            let most = if k == 0 && meet > 0 { size + 4 } else { 30 };
            for _ in 0..r.below(most + 1) {
                s.push_str(&format!(" {}", r.pick(&[0usize, 0, 0, 10, 200, 1000, 3000])));
            }
        }
        if !emit(s) {
            return;
        }
    }
}
