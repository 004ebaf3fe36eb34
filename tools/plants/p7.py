C = "src/resolver/back_end/cache.rs"
USE = '''use ariadne_dns::resolver::{Cache, CacheConf};
use std::sync::Arc;
use std::thread;
use std::time::Duration;
const HOUR: Duration = Duration::from_secs(3600);
'''
plant("C10-get-two-locks", "C10", [(C, '''            false => Some(entry.clone()),
            true => {
                cache_inner.remove(key);
                None
            }''', '''            false => Some(entry.clone()),
            true => {
                drop(cache_guard);
                self.data.lock().unwrap().remove(key);
                None
            }''')],
    "a thread which sets a key between the moment another one sees its expired entry and the moment it removes it",
    "a value just set is lost",
    USE + '''fn main() {
    let c: Arc<Cache<String, u32>> = Arc::new(Cache::default());
    let k = "k".to_string();
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let ts: Vec<_> = (0..3).map(|_| {
        let (c, k, stop) = (Arc::clone(&c), k.clone(), Arc::clone(&stop));
        thread::spawn(move || while !stop.load(std::sync::atomic::Ordering::Relaxed) { c.get_clone(&k); })
    }).collect();
    let mut lost = None;
    for i in 0..200_000 {
        c.set(k.clone(), Duration::ZERO, i);
        c.set(k.clone(), HOUR, i);
        if c.get_clone(&k).map(|x| x.1) != Some(i) { lost = Some(i); break; }
    }
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    for t in ts { t.join().unwrap(); }
    assert_eq!(lost, None, "a value set for an hour is gone");
}
''')
plant("C10-clean-capacity", "C10", [(C, "        cache_inner.retain(|_, entry| !is_expired(&entry.0));", '''        let mut kept = 0;
        let max_kept = self.conf.max_cleaned;
        cache_inner.retain(|_, entry| {
            kept += 1;
            kept <= max_kept && !is_expired(&entry.0)
        });''')],
    "a cache with more entries than the cleaning limit when it is cleaned",
    "cleaning removes entries which have not expired",
    USE + '''fn main() {
    let c: Cache<u32, u32> = Cache::new(CacheConf { clean_period: HOUR, max_cleaned: 100 });
    for i in 0..150 { c.set(i, HOUR, i); }
    c.clean();
    for i in 0..150 { assert_eq!(c.get_clone(&i).map(|x| x.1), Some(i)); }
}
''')
plant("C10-set-keeps-longer", "C10", [(C, '''        let removed = cache_inner.insert(key, entry)?;''', '''        let removed = match cache_inner.get_mut(&key) {
            // Never shorten the life of an entry.
            Some(present) if present.0 > entry.0 => {
                let exp = present.0;
                std::mem::replace(present, (exp, entry.1))
            }
            _ => cache_inner.insert(key, entry)?,
        };''')],
    "a value set with a shorter time to live than the one already present",
    "the value is still told after its time to live has passed",
    USE + '''fn main() {
    let c: Cache<u32, u32> = Cache::default();
    c.set(1, HOUR, 1);
    c.set(1, Duration::from_millis(5), 2);
    thread::sleep(Duration::from_millis(30));
    assert!(c.get_clone(&1).is_none());
}
''')
plant("C10-callback-unlocked", "C10", [(C, '''        let cache_inner = cache_guard.deref_mut();
        let entry = match cache_inner.get_mut(key) {
            None => return false,
            Some(entry) => entry,
        };
        if is_expired(&entry.0) {
            cache_inner.remove(key);
            return false;
        }
        callback(&entry.0, &mut entry.1);
        true''', '''        let cache_inner = cache_guard.deref_mut();
        let (key, mut entry) = match cache_inner.remove_entry(key) {
            None => return false,
            Some(found) => found,
        };
        if is_expired(&entry.0) {
            return false;
        }
        // The callback could be slow, do not block the other users.
        drop(cache_guard);
        callback(&entry.0, &mut entry.1);
        self.data.lock().unwrap().insert(key, entry);
        true''')],
    "a lookup or a set of a key while the callback of another thread runs on it",
    "the entry cannot be found meanwhile, and what is set meanwhile is overwritten",
    USE + '''fn main() {
    let c: Arc<Cache<u32, u32>> = Arc::new(Cache::default());
    c.set(1, HOUR, 1);
    let d = Arc::clone(&c);
    let t = thread::spawn(move || d.on_found(&1, |_, v| { thread::sleep(Duration::from_millis(200)); *v = 2; }));
    thread::sleep(Duration::from_millis(50));
    let got = c.get_clone(&1).map(|x| x.1);
    assert!(t.join().unwrap());
    assert!(got == Some(1) || got == Some(2), "{:?}", got);
}
''')
plant("C10-found-expired", "C10", [(C, '''        if is_expired(&entry.0) {
            cache_inner.remove(key);
            return false;
        }
        callback(&entry.0, &mut entry.1);
        true''', '''        callback(&entry.0, &mut entry.1);
        if is_expired(&entry.0) {
            cache_inner.remove(key);
            return false;
        }
        true''')],
    "a callback on an entry which has expired and was not removed yet",
    "the callback is run on the expired entry although false is returned",
    USE + '''fn main() {
    let c: Cache<u32, u32> = Cache::default();
    c.set(1, Duration::ZERO, 1);
    let mut ran = false;
    assert!(!c.on_found(&1, |_, _| ran = true));
    assert!(!ran);
}
''')
