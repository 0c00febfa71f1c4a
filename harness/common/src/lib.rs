//! Search for a concrete failing input against the real code.
//!
//! A property module generates inputs (structured around the boundaries its contract
//! mentions, then seeded random), runs the real code and compares with an oracle
//! written from the property.  The first disagreement (or panic, or hang) is
//! written out as the replay.
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xd1b54a32d192ed03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        // several textures: random, constant, small alphabet
        let kind = self.below(5);
        let c = self.next() as u8;
        (0..n)
            .map(|i| match kind {
                0 => c,
                1 => 0xff,
                2 => (self.next() % 3) as u8,
                3 => i as u8,
                _ => self.next() as u8,
            })
            .collect()
    }
}

pub static CURRENT: Mutex<String> = Mutex::new(String::new());
pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub static STARTED: AtomicU64 = AtomicU64::new(0);
pub static ACTIVE: AtomicU64 = AtomicU64::new(0);

thread_local! { static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) }; }

pub struct Ctx {
    pub prop: String,
    pub rng: Rng,
    pub seed: u64,
    pub deadline: Instant,
    pub start: Instant,
    pub cases: u64,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub out: String,
    pub known: Vec<String>,
    pub known_hit: Vec<String>,
}

pub fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn hex(b: &[u8]) -> String {
    if b.len() <= 600 {
        b.iter().map(|x| format!("{:02x}", x)).collect()
    } else {
        let mut s: String = b[..64].iter().map(|x| format!("{:02x}", x)).collect();
        s.push_str(&format!("...({} bytes, fnv {:016x})", b.len(), {
            let mut h: u64 = 0xcbf29ce484222325;
            for x in b {
                h ^= *x as u64;
                h = h.wrapping_mul(0x100000001b3);
            }
            h
        }));
        s
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    pub fn time_left(&self) -> bool {
        Instant::now() < self.deadline
    }

    /// One case: `input` describes it completely; `expected` is the oracle's answer and
    /// `run` runs the real code.  Panics in `run` count as the answer "panic: ...".
    pub fn check(&mut self, what: &str, input: &str, expected: &str, run: impl FnOnce() -> String) {
        self.check_if(what, input, run, |got| {
            if got == expected { None } else { Some(expected.to_string()) }
        });
    }

    /// As `check`, with a predicate: returns what was expected when the answer is wrong.
    pub fn check_if(
        &mut self,
        what: &str,
        input: &str,
        run: impl FnOnce() -> String,
        wrong: impl FnOnce(&str) -> Option<String>,
    ) {
        self.cases += 1;
        if self.seen.len() < 200000 {
            self.seen.insert(fnv(what) ^ fnv(input));
        }
        if self.samples.len() < 4 || (self.cases % 9973 == 0 && self.samples.len() < 8) {
            let s: String = input.chars().take(200).collect();
            self.samples.push(format!("{}: {}", what, s));
        }
        {
            let mut c = CURRENT.lock().unwrap();
            c.clear();
            c.push_str(what);
            c.push_str(" input ");
            c.push_str(input);
        }
        STARTED.store(self.start.elapsed().as_millis() as u64, Ordering::SeqCst);
        ACTIVE.store(1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(run));
        ACTIVE.store(0, Ordering::SeqCst);
        let got = match r {
            Ok(s) => s,
            Err(_) => format!("panic: {}", PANIC_MSG.with(|p| p.borrow().clone())),
        };
        if let Some(exp) = wrong(&got) {
            self.report(what, input, &exp, &got);
        }
    }

    pub fn report(&mut self, what: &str, input: &str, expected: &str, got: &str) {
        // A finding listed in known-findings suppresses exactly this call and input class.
        for k in &self.known {
            if let Some((kw, ki)) = k.split_once(" | ") {
                if kw.trim() == what && (ki.trim() == input || (ki.trim().ends_with('*') && input.starts_with(ki.trim().trim_end_matches('*')))) {
                    if !self.known_hit.contains(k) {
                        self.known_hit.push(k.clone());
                    }
                    return;
                }
            }
        }
        write_replay(&self.out, &self.prop, self.seed, what, input, expected, got);
        println!("WITNESS {} input {} expected {} got {}", what, trunc(input), trunc(expected), trunc(got));
        std::process::exit(1);
    }
}

fn trunc(s: &str) -> String {
    if s.chars().count() > 300 { s.chars().take(300).collect::<String>() + "..." } else { s.to_string() }
}

fn write_replay(out: &str, prop: &str, seed: u64, what: &str, input: &str, expected: &str, got: &str) {
    let t = format!(
        "{{\"property\":{},\"seed\":{},\"call\":{},\"input\":{},\"expected\":{},\"got\":{}}}\n",
        js(prop), seed, js(what), js(input), js(expected), js(got)
    );
    let _ = std::fs::write(out, t);
}

pub type Search = fn(&mut Ctx);

pub fn main_with(table: &[(&str, Search)]) {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let seed: u64 = args[2].parse().unwrap();
    let ms: u64 = args[3].parse().unwrap();
    let out = args[4].clone();
    let known: Vec<String> = std::fs::read_to_string(&args[5])
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={} ", prop)).map(|s| s.to_string()))
        .collect();
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        *LAST_PANIC.lock().unwrap() = m.clone();
        PANIC_MSG.with(|p| *p.borrow_mut() = m.replace('\n', " "));
    }));
    let start = Instant::now();
    let o2 = out.clone();
    let p2 = prop.clone();
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(200));
            if ACTIVE.load(Ordering::SeqCst) == 1 {
                let st = STARTED.load(Ordering::SeqCst);
                let now = start.elapsed().as_millis() as u64;
                if now > st + 15000 && ACTIVE.load(Ordering::SeqCst) == 1 && STARTED.load(Ordering::SeqCst) == st {
                    let c = CURRENT.lock().unwrap().clone();
                    write_replay(&o2, &p2, seed, &c, &c, "an answer", "no answer within 15 s");
                    println!("WITNESS hang {}", trunc(&c));
                    std::process::exit(1);
                }
            }
        }
    });
    // Deep recursion in the code under test must not take the searcher down silently.
    let t = table.iter().find(|(n, _)| *n == prop).map(|(_, f)| *f);
    let f = match t {
        Some(f) => f,
        None => {
            println!("NOSEARCH");
            std::process::exit(0);
        }
    };
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut ctx = Ctx {
                prop: prop.clone(),
                rng: Rng::new(seed),
                seed,
                deadline: start + Duration::from_millis(ms),
                start,
                cases: 0,
                seen: HashSet::new(),
                samples: vec![],
                out,
                known,
                known_hit: vec![],
            };
            f(&mut ctx);
            for k in &ctx.known_hit {
                println!("KNOWN {}", k);
            }
            println!(
                "RESULT {{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}]}}",
                ctx.cases,
                ctx.seen.len(),
                ctx.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
            );
        })
        .unwrap();
    match h.join() {
        Ok(_) => {}
        Err(_) => {
            println!("SEARCHER-PANIC {}", LAST_PANIC.lock().unwrap());
            std::process::exit(3);
        }
    }
}
