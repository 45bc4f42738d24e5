//! Search for, and confirm, concrete inputs on which /repo's crate behaves unlike the proved text.
//! Nothing is decided here: the verifier decides; this turns a failed obligation into an input, and
//! stands in (bounded) for functions the verifier could not be given.
mod gen;
mod obs;
mod real {
    use cafebabe as k;
    include!("walk.rs");
}
mod refr {
    use cafebabe_ref as k;
    include!("walk.rs");
}
use obs::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

struct Counting;
thread_local! {
    static MAXALLOC: Cell<usize> = const { Cell::new(0) };
    static LOC: RefCell<String> = const { RefCell::new(String::new()) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = MAXALLOC.try_with(|m| {
            if l.size() > m.get() {
                m.set(l.size())
            }
        });
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// No table reader reserves more than 65535 elements before reading; 200 bytes is more than any element.
const ALLOC_FIXED: usize = 65536 * 256;
const ALLOC_PER_BYTE: usize = 512;

enum Out {
    Ok(Obs),
    Err(String),
    Panic(String),
}

fn run(f: impl FnOnce() -> Result<Obs, String>) -> Out {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(o)) => Out::Ok(o),
        Ok(Err(e)) => Out::Err(e),
        Err(_) => Out::Panic(format!("{} {}", PHASE.with(|p| p.get()), LOC.with(|l| l.borrow().clone()))),
    }
}

/// "<what>|<detail>" for every way the two differ on this input.
fn compare(bytes: &[u8], pb: bool, how: u8) -> (Vec<String>, bool, bool) {
    let mut out = vec![];
    MAXALLOC.with(|m| m.set(0));
    let a = run(|| {
        let r = real::observe(bytes, pb, how);
        r
    });
    // the observation's own strings are part of this; they are bounded by the result
    let ma = MAXALLOC.with(|m| m.get());
    let b = run(|| refr::observe(bytes, pb, how));
    let site = cafebabe_ref::error::SITE_with();
    let mut okb = false;
    match (&a, &b) {
        (Out::Panic(p), _) => out.push(format!("panic|{}", p)),
        (_, Out::Panic(p)) => out.push(format!("refpanic|{}", p)),
        (Out::Ok(x), Out::Ok(y)) => {
            okb = true;
            let d: Vec<&str> = (0..NTAG).filter(|i| x.b[*i] != y.b[*i]).map(|i| NAMES[i]).collect();
            if !d.is_empty() {
                out.push(format!("differs|{}", d.join(",")));
            }
        }
        (Out::Ok(_), Out::Err(e)) => out.push(format!("accepts|{}:{}|{}", site.0, site.1, e)),
        (Out::Err(e), Out::Ok(_)) => out.push(format!("rejects|{}", e)),
        (Out::Err(_), Out::Err(_)) => {}
    }
    if !okb && ma > ALLOC_FIXED + ALLOC_PER_BYTE * bytes.len() {
        out.push(format!("alloc|{} bytes for an input of {}", ma, bytes.len()));
    }
    (out, okb, matches!(b, Out::Ok(_)))
}

fn full(bytes: &[u8], salt: u64) -> (Vec<String>, bool) {
    let (d, _, ok) = compare(bytes, true, (salt % 3 == 0) as u8);
    if !d.is_empty() {
        return (d, ok);
    }
    let (d, _, _) = compare(bytes, false, 1 + (salt & 1) as u8);
    if !d.is_empty() {
        return (d.into_iter().map(|x| format!("nobytecode:{}", x)).collect(), ok);
    }
    if salt % 5 == 0 {
        let (d, _, _) = compare(bytes, true, 2);
        if !d.is_empty() {
            return (d.into_iter().map(|x| format!("option:{}", x)).collect(), ok);
        }
    }
    (vec![], ok)
}

fn class_name(s: &str, owned: bool) -> Vec<String> {
    let f = |g: fn(&str, bool) -> Option<String>| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g(s, owned)));
    match (f(real::class_name), f(refr::class_name)) {
        (Err(_), _) => vec![format!("panic|classname {}", LOC.with(|l| l.borrow().clone()))],
        (Ok(a), Ok(b)) if a != b => vec![format!("classname|{:?} owned={} gives {:?}, expected {:?}", s, owned, a, b)],
        _ => vec![],
    }
}

fn load_dict(p: &str) -> gen::Dict {
    let mut d = gen::Dict::default();
    let t = std::fs::read_to_string(p).unwrap_or_default();
    for l in t.lines() {
        let (k, v) = match l.split_once(' ') {
            Some(x) => x,
            None => continue,
        };
        let hex = |v: &str| {
            let b: Vec<u8> = (0..v.len() / 2).filter_map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).ok()).collect();
            String::from_utf8_lossy(&b).to_string()
        };
        match k {
            "i" => d.ints.extend(v.parse::<i128>().map(|x| x as i64)),
            "I" => d.new_ints.extend(v.parse::<i128>().map(|x| x as i64)),
            "s" => d.strs.push(hex(v)),
            "S" => d.new_strs.push(hex(v)),
            "A" => d.focus.extend(gen::ATTRS.iter().find(|a| **a == v)),
            _ => {}
        }
    }
    d
}

fn mix(seed: u64, w: u64, i: u64) -> u64 {
    let mut r = gen::Rng(seed.wrapping_mul(0x2545f4914f6cdd1d) ^ (w << 48) ^ i);
    r.next()
}

fn input(seed: u64, w: u64, i: u64, d: &gen::Dict, seeds: &[Vec<u8>]) -> (Vec<u8>, String) {
    let s = mix(seed, w, i);
    let mut g = gen::G::new(s, d);
    let v = g.input(seeds);
    (v, g.cname())
}

fn load_seeds(dir: &str) -> Vec<Vec<u8>> {
    let mut v: Vec<_> = std::fs::read_dir(dir).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    v.sort();
    v.iter().filter_map(|p| std::fs::read(p).ok()).collect()
}

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        LOC.with(|x| *x.borrow_mut() = format!("{} {}", l, m.replace('\n', " ")));
    }));
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

/// make the input smaller while it still shows the same kind of difference
fn shrink(bytes: &[u8], sig: &str) -> Vec<u8> {
    let kind = |d: &Vec<String>| d.iter().any(|x| signature(x) == sig);
    let mut cur = bytes.to_vec();
    let end = Instant::now() + Duration::from_millis(1500);
    let mut step = (cur.len() / 4).max(1);
    while step >= 1 && Instant::now() < end {
        let mut at = 0;
        let mut any = false;
        while at < cur.len() && Instant::now() < end {
            let mut t = cur.clone();
            t.drain(at..(at + step).min(t.len()));
            if kind(&full(&t, 0).0) || kind(&full(&t, 15).0) {
                cur = t;
                any = true;
            } else {
                at += step;
            }
        }
        if step == 1 && !any {
            break;
        }
        step = if step == 1 { 1 } else { step / 2 };
    }
    cur
}

fn signature(s: &str) -> String {
    // drop numbers from messages so that one defect counts once
    let mut o = String::new();
    let keep = s.contains("accepts|");
    for (i, p) in s.split('|').enumerate() {
        if i > 0 {
            o.push('|');
        }
        if keep && i == 2 {
            break;
        }
        if i == 0 || keep && i == 1 || s.contains("panic|") {
            o.push_str(p);
        } else {
            o.extend(p.chars().filter(|c| !c.is_ascii_digit()));
        }
    }
    o.chars().take(300).collect()
}

fn worker(a: &[String]) {
    hook();
    let (secs, seed, w, start): (f64, u64, u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let dict = load_dict(&a[4]);
    let seeds = load_seeds(&a[5]);
    let out = a[6].clone();
    let max: u64 = a[7].parse().unwrap();
    let prog = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(format!("{}/progress{}", out, w)).unwrap();
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let mut i = start;
    let (mut acc, mut n) = (0u64, 0u64);
    let mut seen: HashMap<String, u32> = HashMap::new();
    while n < max && (n % 64 != 0 || Instant::now() < end) {
        let _ = prog.write_at(&i.to_le_bytes(), 0);
        let (v, name) = input(seed, w, i, &dict, &seeds);
        let (d, ok) = full(&v, mix(seed, w, i) >> 7);
        n += 1;
        if ok {
            acc += 1;
        }
        for x in d {
            let s = signature(&x);
            let c = seen.entry(s.clone()).or_insert(0);
            *c += 1;
            if *c <= 2 {
                let f = format!("{}/w{}-{}.class", out, w, i);
                let small = shrink(&v, &s);
                let x2 = full(&small, 0).0.into_iter().chain(full(&small, 15).0).find(|y| signature(y) == s).unwrap_or(x.clone());
                std::fs::write(&f, &small).unwrap();
                println!("{{\"sig\":\"{}\",\"what\":\"{}\",\"file\":\"{}\"}}", esc(&s), esc(&x2), esc(&f));
                std::io::stdout().flush().unwrap();
            }
        }
        for owned in [false, true] {
            for x in class_name(&name, owned) {
                let c = seen.entry("classname".into()).or_insert(0);
                *c += 1;
                if *c <= 2 {
                    let f = format!("{}/w{}-{}.name", out, w, i);
                    std::fs::write(&f, &name).unwrap();
                    println!("{{\"sig\":\"classname\",\"what\":\"{}\",\"file\":\"{}\"}}", esc(&x), esc(&f));
                    std::io::stdout().flush().unwrap();
                }
            }
        }
        i += 1;
    }
    println!("{{\"sig\":\"end\",\"n\":{},\"accepted\":{}}}", n, acc);
}

/// search SECONDS SEED THREADS DICT SEEDDIR OUTDIR MAXPERWORKER
fn search(a: &[String]) {
    let secs: f64 = a[0].parse().unwrap();
    let seed: u64 = a[1].parse().unwrap();
    let th: u64 = a[2].parse().unwrap();
    std::fs::create_dir_all(&a[5]).unwrap();
    let exe = std::env::current_exe().unwrap();
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let hs: Vec<_> = (0..th)
        .map(|w| {
            let (exe, a) = (exe.clone(), a.to_vec());
            std::thread::spawn(move || {
                let mut start = 0u64;
                let mut crashes = 0;
                loop {
                    let left = end.saturating_duration_since(Instant::now()).as_secs_f64();
                    if left <= 0.05 || crashes > 3 {
                        break;
                    }
                    let mut c = std::process::Command::new(&exe)
                        .args(["work", &left.to_string(), &seed.to_string(), &w.to_string(), &start.to_string(), &a[3], &a[4], &a[5], &a[6]])
                        .stdout(std::process::Stdio::piped())
                        .stderr(std::process::Stdio::null())
                        .spawn()
                        .unwrap();
                    let mut so = c.stdout.take().unwrap();
                    let rd = std::thread::spawn(move || {
                        let mut s = String::new();
                        let _ = so.read_to_string(&mut s);
                        s
                    });
                    let pf = format!("{}/progress{}", a[5], w);
                    let cur = || {
                        let b = std::fs::read(&pf).unwrap_or_default();
                        if b.len() >= 8 {
                            u64::from_le_bytes(b[..8].try_into().unwrap())
                        } else {
                            0
                        }
                    };
                    let mut last = (cur(), Instant::now());
                    let mut hung = false;
                    let st = loop {
                        if let Some(s) = c.try_wait().unwrap() {
                            break Some(s);
                        }
                        let p = cur();
                        if p != last.0 {
                            last = (p, Instant::now());
                        } else if last.1.elapsed() > Duration::from_secs(20) {
                            let _ = c.kill();
                            let _ = c.wait();
                            hung = true;
                            break None;
                        }
                        std::thread::sleep(Duration::from_millis(50));
                    };
                    print!("{}", rd.join().unwrap());
                    if hung || !st.map(|s| s.success()).unwrap_or(false) {
                        crashes += 1;
                        let i = cur();
                        let d = load_dict(&a[3]);
                        let (v, _) = input(seed, w, i, &d, &load_seeds(&a[4]));
                        let f = format!("{}/w{}-{}-crash.class", a[5], w, i);
                        std::fs::write(&f, &v).unwrap();
                        let k = if hung { "hang" } else { "crash" };
                        println!("{{\"sig\":\"{}\",\"what\":\"{}|{}\",\"file\":\"{}\"}}", k, k, esc(&format!("{:?}", st)), esc(&f));
                        start = i + 1;
                    } else {
                        break;
                    }
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
}

fn show(o: &Out) -> String {
    match o {
        Out::Ok(o) => (0..NTAG).map(|i| format!("--- {}\n{}\n", NAMES[i], o.b[i])).collect(),
        Out::Err(e) => format!("rejected: {}\n", e),
        Out::Panic(e) => format!("panicked: {}\n", e),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("search") => search(&a[1..]),
        Some("work") => worker(&a[1..]),
        Some("one") => {
            // one FILE: what the two do with this input, and how they differ
            hook();
            let v = std::fs::read(&a[1]).unwrap();
            if a[1].ends_with(".name") {
                let s = String::from_utf8_lossy(&v).to_string();
                for o in [false, true] {
                    for x in class_name(&s, o) {
                        println!("DIFF {}", x);
                    }
                }
                return;
            }
            let mut all = full(&v, 0).0;
            all.extend(full(&v, 1).0);
            all.extend(full(&v, 15).0);
            all.sort();
            all.dedup();
            for x in &all {
                println!("DIFF {}", x);
            }
            if a.get(2).map(|s| s == "show").unwrap_or(false) {
                for pb in [true, false] {
                    println!("== parse_bytecode={} /repo:\n{}", pb, show(&run(|| real::observe(&v, pb, 1))));
                    println!("== parse_bytecode={} expected:\n{}", pb, show(&run(|| refr::observe(&v, pb, 1))));
                }
            }
        }
        Some("digest") => {
            // digest FILE: what /repo's crate does with this input (to compare two builds)
            hook();
            let v = std::fs::read(&a[1]).unwrap();
            for (pb, how) in [(true, 0), (true, 2), (false, 1)] {
                println!("{}", show(&run(|| real::observe(&v, pb, how))));
            }
        }
        Some("gen") => {
            // gen SEED WORKER INDEX DICT SEEDDIR FILE
            let (v, _) = input(a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap(), &load_dict(&a[4]), &load_seeds(&a[5]));
            std::fs::write(&a[6], v).unwrap();
        }
        _ => {
            eprintln!("usage: witness search|one|digest|gen");
            std::process::exit(2);
        }
    }
}
