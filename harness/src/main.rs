//! hx search PROP SEED SECONDS PART PARTS WORKDIR | hx replay PROP FILE

mod model;
mod p_cache;
mod p_conf;
mod p_dns;
mod p_main;
mod p_ns;
mod p_pool;
mod p_res;
mod p_zone;
mod util;

use std::io::{Seek, SeekFrom, Write};
use std::panic;
use std::sync::Mutex;
use std::time::{Duration, Instant};
use util::*;

static PANIC: Mutex<String> = Mutex::new(String::new());

fn check(prop: &str, case: &str) -> Res {
    match prop {
        "C01" => p_dns::check_c01(case),
        "C02" => p_dns::check_c02(case),
        "C03" => p_dns::check_c03(case),
        "C04" => p_dns::check_c04(case),
        "C05" => p_dns::check_c05(case),
        "C18" => p_dns::check_c18(case),
        "C16" => p_pool::check_c16(case),
        "C17" => p_conf::check_c17(case),
        "C19" => p_dns::check_c19(case),
        "C06" => p_ns::check_c06(case),
        "C07" => p_ns::check_c07(case),
        "C10" => p_cache::check_c10(case),
        "C11" => p_res::check_c11(case),
        "C12" => p_res::check_c12(case),
        "C13" => p_res::check_c13(case),
        "C14" => p_res::check_c14(case),
        "C15" => p_ns::check_c15(case),
        "C08" => p_zone::check_c08(case),
        "C09" => p_zone::check_c09(case),
        "C20" => p_zone::check_c20(case),
        _ => panic!("unknown property {}", prop),
    }
}

fn generate(prop: &str, r: &mut Rng, part: usize, parts: usize, emit: &mut dyn FnMut(String) -> bool) {
    match prop {
        "C01" => p_dns::gen_c01(r, part, parts, emit),
        "C02" => p_dns::gen_c02(r, part, parts, emit),
        "C03" => p_dns::gen_c03(r, part, parts, emit),
        "C04" => p_dns::gen_c04(r, part, parts, emit),
        "C05" => p_dns::gen_c05(r, part, parts, emit),
        "C18" => p_dns::gen_c18(r, part, parts, emit),
        "C16" => p_pool::gen_c16(r, part, parts, emit),
        "C17" => p_conf::gen_c17(r, part, parts, emit),
        "C19" => p_dns::gen_c19(r, part, parts, emit),
        "C06" => p_ns::gen_c06(r, part, parts, emit),
        "C07" => p_ns::gen_c07(r, part, parts, emit),
        "C10" => p_cache::gen_c10(r, part, parts, emit),
        "C11" | "C12" | "C13" | "C14" => p_res::gen(prop, r, part, parts, emit),
        "C15" => p_ns::gen_c15(r, part, parts, emit),
        "C08" => p_zone::gen_c08(r, part, parts, emit),
        "C09" => p_zone::gen_c09(r, part, parts, emit),
        "C20" => p_zone::gen_c20(r, part, parts, emit),
        _ => panic!("unknown property {}", prop),
    }
}

fn guarded(prop: &str, case: &str) -> Res {
    match panic::catch_unwind(|| check(prop, case)) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.lock().unwrap())),
    }
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The programs log everything, so that what is logged is formatted here too.
struct Logged;

impl log::Log for Logged {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = std::hint::black_box(r.args().to_string());
    }
    fn flush(&self) {}
}

fn main() {
    log::set_logger(&Logged).unwrap();
    log::set_max_level(log::LevelFilter::Debug);
    let a: Vec<String> = std::env::args().collect();
    panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if std::env::var("HX_STORY").is_ok() {
            eprintln!("panic: {} at {}", msg, at);
        }
        if let Ok(mut p) = PANIC.lock() {
            *p = format!("{} at {}", msg, at);
        }
    }));
    match a[1].as_str() {
        "serve" => p_ns::serve(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap()),
        "world" => p_main::world(a[2].parse().unwrap()),
        "replay" => {
            let case = std::fs::read_to_string(&a[3]).unwrap();
            match guarded(&a[2], case.trim_end_matches('\n')) {
                Ok(_) => println!("HOLDS"),
                Err(e) => {
                    println!("FAILS {}", e);
                    std::process::exit(3);
                }
            }
        }
        _ => {
            let prop = a[2].clone();
            let seed: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let (part, parts): (usize, usize) = (a[5].parse().unwrap(), a[6].parse().unwrap());
            let dir = &a[7];
            let mut cur = std::fs::File::create(format!("{}/cur.{}", dir, part)).unwrap();
            let start = Instant::now();
            let limit = Duration::from_secs_f64(secs);
            let mut rng = Rng::new(seed * 1000 + part as u64);
            let (mut evals, mut nontrivial) = (0u64, 0u64);
            let mut seen = std::collections::HashSet::new();
            let mut samples: Vec<String> = vec![];
            let mut failure: Option<(String, String)> = None;
            let mut last_len = 0;
            generate(&prop, &mut rng, part, parts, &mut |case: String| {
                if start.elapsed() > limit {
                    return false;
                }
                let b = case.as_bytes();
                cur.seek(SeekFrom::Start(0)).unwrap();
                if b.len() < last_len {
                    cur.set_len(b.len() as u64).unwrap();
                }
                cur.write_all(b).unwrap();
                last_len = b.len();
                evals += 1;
                match guarded(&prop, &case) {
                    Ok(nt) => {
                        if nt {
                            use std::hash::{Hash, Hasher};
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            case.hash(&mut h);
                            if seen.insert(h.finish()) {
                                nontrivial += 1;
                                if samples.len() < 3 && case.len() < 400 && nontrivial % 97 == 1 {
                                    samples.push(case);
                                }
                            }
                        }
                        true
                    }
                    Err(e) => {
                        failure = Some((case, e));
                        false
                    }
                }
            });
            let s: Vec<String> = samples.iter().map(|s| json(s)).collect();
            let f = match &failure {
                None => "null".to_string(),
                Some((c, e)) => format!("{{\"case\": {}, \"why\": {}}}", json(c), json(e)),
            };
            println!(
                "{{\"evaluations\": {}, \"nontrivial\": {}, \"samples\": [{}], \"failure\": {}}}",
                evals,
                nontrivial,
                s.join(", "),
                f
            );
            // threads of the code under test may still be running
            std::process::exit(0);
        }
    }
}
