//! C10: the cache, alone and shared by threads.
//! A case is "H LIMIT op;op;.." (s KEY MS VALUE, b COUNT MS VALUE, g KEY, r KEY, f KEY VALUE, c, w MS) or "P SEED ROUNDS".

use crate::ensure;
use crate::p_dns::Emit;
use crate::util::*;
use ariadne_dns::resolver::{Cache, CacheConf};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

type Val = Vec<u32>;

/// The last value set under a key, and between which moments it expires.
#[derive(Clone)]
struct Kept {
    lo: Instant,
    hi: Instant,
    val: Val,
    /// The expiry the cache told, once it did.
    told: Option<Instant>,
}

fn key(k: &str) -> String {
    format!("k{}", k)
}

fn val(v: &str) -> Val {
    v.parse::<u32>().map(|n| vec![n; (n % 3) as usize + 1]).unwrap()
}

/// What a lookup which ran between the two moments may tell: the entry and whether it must be told, or must not.
fn may(k: Option<&Kept>, t0: Instant, t1: Instant) -> (bool, bool) {
    match k {
        None => (false, true),
        Some(e) => (t0 < e.hi, t1 >= e.lo),
    }
}

fn same(what: &str, got: &Option<(Instant, Val)>, k: &mut Option<Kept>, t0: Instant, t1: Instant) -> Result<(), String> {
    let (yes, no) = may(k.as_ref(), t0, t1);
    match got {
        None => {
            ensure!(no, "{}: nothing is told of {:?}, which is {} before its expiry", what, k.as_ref().unwrap().val, left(k.as_ref().unwrap().lo, t1));
            *k = None;
        }
        Some((e, v)) => {
            ensure!(yes, "{}: {:?} is told, but {}", what, v, if k.is_some() { "it has expired" } else { "there is nothing under the key" });
            let k = k.as_mut().unwrap();
            ensure!(*v == k.val, "{}: {:?} is told instead of {:?}", what, v, k.val);
            ensure!(*e >= k.lo && *e <= k.hi, "{}: the expiry told is not the time it was set and its time to live", what);
            ensure!(*e > t0, "{}: the expiry told is over", what);
            if let Some(x) = k.told {
                ensure!(x == *e, "{}: the expiry changed", what);
            }
            k.told = Some(*e);
        }
    }
    Ok(())
}

fn left(a: Instant, b: Instant) -> String {
    if a > b {
        format!("{:?}", a - b)
    } else {
        "nothing".into()
    }
}

fn history(limit: u64, ops: &str) -> Res {
    let cache: Cache<String, Val> = if limit == 0 { Cache::default() } else { Cache::new(CacheConf { clean_period: Duration::from_secs(limit), max_cleaned: limit }) };
    let mut m: HashMap<String, Kept> = HashMap::new();
    let mut hits = false;
    for (i, op) in ops.split(';').filter(|o| !o.is_empty()).enumerate() {
        let w: Vec<&str> = op.split(' ').collect();
        let what = format!("operation {} ({})", i, op);
        match w[0] {
            "s" => {
                let ttl = Duration::from_millis(w[2].parse().unwrap());
                let k = key(w[1]);
                let t0 = Instant::now();
                let got = cache.set(k.clone(), ttl, val(w[3]));
                let t1 = Instant::now();
                same(&what, &got, &mut m.get(&k).cloned(), t0, t1)?;
                m.insert(k, Kept { lo: t0 + ttl, hi: t1 + ttl, val: val(w[3]), told: None });
            }
            "b" => {
                let ttl = Duration::from_millis(w[2].parse().unwrap());
                for i in 0..w[1].parse::<u32>().unwrap() {
                    let k = key(&(100 + i).to_string());
                    let t0 = Instant::now();
                    let got = cache.set(k.clone(), ttl, val(w[3]));
                    let t1 = Instant::now();
                    same(&what, &got, &mut m.get(&k).cloned(), t0, t1)?;
                    m.insert(k, Kept { lo: t0 + ttl, hi: t1 + ttl, val: val(w[3]), told: None });
                }
            }
            "g" | "f" | "r" => {
                let k = key(w[1]);
                let mut e = m.remove(&k);
                let t0 = Instant::now();
                match w[0] {
                    "g" => {
                        let got = cache.get_clone(&k);
                        same(&what, &got, &mut e, t0, Instant::now())?;
                        hits |= got.is_some();
                    }
                    "r" => {
                        let got = cache.remove(&k);
                        same(&what, &got, &mut e, t0, Instant::now())?;
                        e = None;
                    }
                    _ => {
                        let mut got = None;
                        let ran = cache.on_found(&k, |x, v| {
                            got = Some((*x, v.clone()));
                            *v = val(w[2]);
                        });
                        ensure!(ran == got.is_some(), "{}: {} is returned and the function was {}", what, ran, if got.is_some() { "run" } else { "not run" });
                        same(&what, &got, &mut e, t0, Instant::now())?;
                        if let Some(e) = e.as_mut() {
                            e.val = val(w[2]);
                        }
                    }
                }
                if let Some(e) = e {
                    m.insert(k, e);
                }
            }
            "w" => std::thread::sleep(Duration::from_millis(w[1].parse().unwrap())),
            "c" => {
                let t0 = Instant::now();
                cache.clean();
                let t1 = Instant::now();
                let text = format!("{:?}", cache);
                let held: Vec<&str> = text.lines().filter_map(|l| l.split('"').nth(1)).collect();
                for k in held.iter() {
                    let (yes, _) = may(m.get(*k), t0, t1);
                    ensure!(yes, "{}: an entry which is not set any more or has expired is kept", what);
                }
                for k in m.keys().cloned().collect::<Vec<_>>() {
                    if !held.contains(&k.as_str()) {
                        let (_, no) = may(m.get(&k), t0, t1);
                        ensure!(no, "{}: an entry is removed before its expiry", what);
                        m.remove(&k);
                    }
                }
            }
            _ => panic!("bad operation"),
        }
    }
    // every key once more
    let mut keys: Vec<String> = m.keys().cloned().collect();
    keys.extend((0..6).map(|k| key(&k.to_string())));
    keys.sort();
    keys.dedup();
    for k in keys {
        let t0 = Instant::now();
        let got = cache.get_clone(&k);
        same(&format!("a lookup of {} at the end", k), &got, &mut m.get(&k).cloned(), t0, Instant::now())?;
    }
    Ok(hits)
}

/// One thread writes a key, others look it up, change other keys and clean: what the writer set is there for as long as it lives.
fn shared(seed: u64, rounds: u32) -> Res {
    let cache: Cache<(u8, u8), Val> = Cache::default();
    let stop = AtomicBool::new(false);
    let hour = Duration::from_secs(3600);
    let key = (1u8, 1u8);
    std::thread::scope(|s| {
        let mut others = vec![];
        for t in 0..3u64 {
            let (cache, stop) = (&cache, &stop);
            others.push(s.spawn(move || -> Result<(), String> {
                let mut r = Rng::new(seed * 7 + t);
                let mut last = 0;
                while !stop.load(Ordering::Relaxed) {
                    match (seed + t) % 4 {
                        0 => cache.clean(),
                        1 => {
                            if let Some((_, v)) = cache.get_clone(&key) {
                                ensure!(v.len() == 2 && v[0] == v[1], "a value nobody set: {:?}", v);
                                ensure!(v[0] >= last, "an older value ({}) after a newer one ({})", v[0], last);
                                last = v[0];
                            }
                        }
                        2 => {
                            cache.on_found(&key, |_, v| v[0] = v[1]);
                        }
                        _ => {
                            let k = (2 + t as u8, r.below(3) as u8);
                            cache.set(k, hour, vec![7, 7]);
                            ensure!(cache.get_clone(&k).map(|x| x.1) == Some(vec![7, 7]), "a value set by this thread only is gone");
                            ensure!(cache.remove(&k).map(|x| x.1) == Some(vec![7, 7]), "a value set by this thread only is not removed");
                            ensure!(cache.get_clone(&k).is_none(), "a removed value is told");
                        }
                    }
                }
                Ok(())
            }));
        }
        let mut res = Ok(true);
        for i in 0..rounds {
            cache.set(key, Duration::ZERO, vec![2 * i, 2 * i]);
            if let Some((_, v)) = cache.get_clone(&key) {
                res = Err(format!("a value with no time to live is told: {:?}", v));
                break;
            }
            cache.set(key, Duration::ZERO, vec![2 * i, 2 * i]);
            cache.set(key, hour, vec![2 * i + 1, 2 * i + 1]);
            match cache.get_clone(&key) {
                Some((_, v)) if v == vec![2 * i + 1, 2 * i + 1] => {}
                got => {
                    res = Err(format!("round {}: the value the only writer just set for an hour is {:?}", i, got.map(|x| x.1)));
                    break;
                }
            }
        }
        stop.store(true, Ordering::Relaxed);
        for o in others {
            match o.join() {
                Ok(r) => {
                    if res.is_ok() {
                        r?
                    }
                }
                Err(_) => return Err("a thread panicked".into()),
            }
        }
        res
    })
}

pub fn check_c10(case: &str) -> Res {
    match case.split_once(' ') {
        Some(("H", rest)) => {
            let (l, ops) = rest.split_once(' ').unwrap();
            history(l.parse().unwrap(), ops)
        }
        Some(("P", rest)) => {
            let (s, n) = rest.split_once(' ').unwrap();
            shared(s.parse().unwrap(), n.parse().unwrap())
        }
        _ => Ok(false),
    }
}

fn most_at_once(r: &mut Rng) -> usize {
    let n = if r.below(3) == 0 { 1200 } else { 40 };
    r.below(n)
}

fn gen_ops(r: &mut Rng) -> String {
    let keys = 1 + r.below(5);
    let most = if r.below(4) == 0 { 60 } else { 12 };
    let n = 1 + r.below(most);
    let big = r.below(8) == 0;
    let slow = r.below(6) == 0;
    let mut o = String::new();
    for i in 0..n {
        let k = r.below(keys);
        let op = match r.below(12 + (big as usize)) {
            12 => format!("b {} {} {}", 1 + most_at_once(r), [0u64, 2, 3_600_000, 3_600_000][r.below(4)], i * 10 + r.below(10)),
            0..=3 => {
                let ttl: u64 = match r.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => 1 + r.below(4) as u64,
                    3 => 1000 * (1 + r.below(100) as u64),
                    4 => 1000 * u32::MAX as u64,
                    _ => 3_600_000,
                };
                format!("s {} {} {}", k, ttl, i * 10 + r.below(10))
            }
            4..=6 => format!("g {}", k),
            7 => format!("r {}", k),
            8 | 9 => format!("f {} {}", k, 5000 + i * 10 + r.below(10)),
            10 => "c".into(),
            _ => {
                if slow {
                    format!("w {}", 1 + r.below(5))
                } else {
                    "c".into()
                }
            }
        };
        o.push_str(&op);
        o.push(';');
    }
    o
}

pub fn gen_c10(r: &mut Rng, part: usize, _parts: usize, emit: Emit) {
    for c in ["s 0 0 1;g 0;f 0 2;c;r 0", "s 0 3600000 1;s 0 0 2;s 0 3600000 3;g 0", "s 0 1 1;s 1 3600000 2;w 3;c;g 1;s 0 3600000 3;r 0;g 0;g 1", "s 0 2 1;w 4;f 0 2;g 0;s 0 3600000 9;f 0 2;g 0"] {
        if !emit(format!("H 0 {}", c)) {
            return;
        }
    }
    let mut i = 0u64;
    loop {
        i += 1;
        let c = if i % 40 == 0 { format!("P {} {}", r.below(10000), 300) } else { format!("H {} {}", [0, 0, 1, 2, 10, 500][r.below(6)], gen_ops(r)) };
        let _ = part;
        if !emit(c) {
            return;
        }
    }
}
