//! Runs the real `Semaphored` backend (and `semaphored::dec` below it) under schedules:
//!   replay  - schedules from standard input, one a line: N T R STEP...   (STEP: t, t>woken, or t! for a spurious wakeup)
//!   dfs N T R MAX       - every schedule of N slots, T threads, R operations each (at most MAX)
//!   random N T R RUNS SEED
//!   stress N T R        - threads left to the kernel
//!   each FUNS           - concurrently() and map_concurrently() on that many functions
//! and prints one line per run: N T R | events (+t began, -t ended) | done, stuck or lost
use atomic_wait::ctl::{self, At};
use backpak::backend::{hooks::Semaphored, Backend, Contents};
use std::collections::BTreeSet;
use std::io::{self, prelude::*};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const PATIENCE: Duration = Duration::from_secs(5);

/// A backend whose operations tell when they begin and end. Keys are "<thread> <kind of ending>".
struct Telling {
    log: Arc<Mutex<Vec<String>>>,
}

impl Telling {
    fn op(&self, key: &str) -> anyhow::Result<()> {
        let (t, how) = key.split_once(' ').unwrap();
        self.log.lock().unwrap().push(format!("+{t}"));
        ctl::point();
        self.log.lock().unwrap().push(format!("-{t}"));
        match how {
            "fail" => anyhow::bail!("failing as told"),
            "panic" => std::panic::panic_any(0),
            _ => Ok(()),
        }
    }
}

/// What Telling reads; the operation isn't over before this is gone.
struct Body {
    log: Arc<Mutex<Vec<String>>>,
    t: String,
}

impl Read for Body {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        Ok(0)
    }
}

impl Drop for Body {
    fn drop(&mut self) {
        self.log.lock().unwrap().push(format!("-{}", self.t));
    }
}

impl Backend for Telling {
    fn read(&self, k: &str) -> anyhow::Result<Box<dyn Read + Send + 'static>> {
        let (t, how) = k.split_once(' ').unwrap();
        if how != "well" {
            self.op(k)?;
        }
        self.log.lock().unwrap().push(format!("+{t}"));
        ctl::point();
        Ok(Box::new(Body { log: self.log.clone(), t: t.to_owned() }))
    }
    fn write(&self, _: u64, _: &mut dyn Contents, k: &str) -> anyhow::Result<()> {
        self.op(k)
    }
    fn remove(&self, k: &str) -> anyhow::Result<()> {
        self.op(k)
    }
    fn list(&self, k: &str) -> anyhow::Result<Vec<(String, u64)>> {
        self.op(k)?;
        Ok(vec![])
    }
}

fn call<B: Backend>(b: &B, t: usize, r: usize) {
    let key = format!("{t} {}", match (t * 7 + r * 3) % 5 { 3 => "fail", 4 => "panic", _ => "well" });
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (t + r) % 4 {
        0 => drop(b.read(&key)),
        1 => drop(b.write(0, &mut io::empty(), &key)),
        2 => drop(b.remove(&key)),
        _ => drop(b.list(&key)),
    }));
}

enum Pick {
    Go(usize, Option<usize>),
    Spurious(usize),
}

/// One run; pick() gets what everybody is at. False: a thread was lost (it blocked on something else than wait()).
fn run(n: u32, threads: usize, rounds: usize, mut pick: impl FnMut(&[At]) -> Option<Pick>) -> bool {
    let log = Arc::new(Mutex::new(vec![]));
    let b = Arc::new(Semaphored::new(Telling { log: log.clone() }, n));
    ctl::reset(threads);
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let b = b.clone();
            std::thread::spawn(move || {
                ctl::register(t);
                for r in 0..rounds {
                    call(&*b, t, r);
                }
                ctl::done();
            })
        })
        .collect();
    let end = loop {
        let Some(at) = ctl::settled(PATIENCE) else { break "lost" };
        if at.iter().all(|a| *a == At::Done) {
            break "done";
        }
        if !at.contains(&At::Ready) {
            break "stuck";
        }
        match pick(&at) {
            Some(Pick::Go(t, favour)) => ctl::turn(t, favour),
            Some(Pick::Spurious(t)) => ctl::spurious(t),
            None => ctl::turn(at.iter().position(|a| *a == At::Ready).unwrap(), None),
        }
    };
    println!("{n} {threads} {rounds} | {} | {end}", log.lock().unwrap().join(" "));
    if end != "lost" {
        if end == "stuck" {
            // They'd sleep forever.
            std::io::stdout().flush().unwrap();
            std::process::exit(4);
        }
        for h in hs {
            h.join().unwrap();
        }
    }
    end != "lost"
}

fn replay(line: &str) -> bool {
    let mut w = line.split_whitespace();
    let mut num = || w.next().unwrap().parse::<usize>().unwrap();
    let (n, t, r) = (num(), num(), num());
    let steps: Vec<&str> = w.collect();
    let mut i = 0;
    run(n as u32, t, r, |at| {
        while i < steps.len() {
            let s = steps[i];
            i += 1;
            if let Some(s) = s.strip_suffix('!') {
                let who = s.parse::<usize>().unwrap();
                if matches!(at[who], At::Asleep(_)) {
                    return Some(Pick::Spurious(who));
                }
                continue;
            }
            let (who, f) = match s.split_once('>') {
                Some((a, b)) => (a.parse::<usize>().unwrap(), b.parse().ok()),
                None => (s.parse().unwrap(), None),
            };
            if at[who] == At::Ready {
                return Some(Pick::Go(who, f));
            }
        }
        None
    })
}

/// What can be chosen: who goes on (in fair order of wakeups).
fn ready(at: &[At]) -> Vec<usize> {
    (0..at.len()).filter(|i| at[*i] == At::Ready).collect()
}

fn dfs(n: u32, t: usize, r: usize, max: usize) -> bool {
    let mut prefix: Vec<usize> = vec![];
    for _ in 0..max {
        let mut depth = 0;
        let mut widths = vec![];
        let ok = run(n, t, r, |at| {
            let c = ready(at);
            let i = prefix.get(depth).copied().unwrap_or(0);
            if depth >= prefix.len() {
                prefix.push(0);
            }
            widths.push(c.len());
            depth += 1;
            Some(Pick::Go(c[i.min(c.len() - 1)], None))
        });
        if !ok {
            return false;
        }
        prefix.truncate(depth);
        while let Some(last) = prefix.last().copied() {
            let at = prefix.len() - 1;
            if last + 1 < widths[at] {
                prefix[at] += 1;
                break;
            }
            prefix.pop();
        }
        if prefix.is_empty() {
            println!("# all");
            return true;
        }
    }
    true
}

fn random(n: u32, t: usize, r: usize, runs: usize, mut seed: u64) -> bool {
    let mut next = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed
    };
    for _ in 0..runs {
        let sticky = next() % 4;
        let mut last = 0;
        if !run(n, t, r, |at| {
            let c = ready(at);
            let asleep: Vec<usize> = (0..at.len()).filter(|i| matches!(at[*i], At::Asleep(_))).collect();
            if !asleep.is_empty() && next() % 16 == 0 {
                return Some(Pick::Spurious(asleep[next() as usize % asleep.len()]));
            }
            if !(c.contains(&last) && next() % 4 < sticky) {
                last = c[next() as usize % c.len()];
            }
            let f = if asleep.is_empty() { None } else { Some(asleep[next() as usize % asleep.len()]) };
            Some(Pick::Go(last, f))
        }) {
            return false;
        }
    }
    true
}

/// Only counts how many are inside at once.
struct Counting {
    inside: AtomicI64,
    most: AtomicI64,
    ended: AtomicU64,
}

impl Counting {
    fn op(&self, key: &str) -> anyhow::Result<()> {
        let i = self.inside.fetch_add(1, SeqCst) + 1;
        self.most.fetch_max(i, SeqCst);
        match key.as_bytes()[0] % 8 {
            0 => std::thread::yield_now(),
            1 => std::thread::sleep(Duration::from_micros(20)),
            2..4 => (0..200).for_each(|_| std::hint::spin_loop()),
            _ => (),
        }
        self.inside.fetch_sub(1, SeqCst);
        self.ended.fetch_add(1, SeqCst);
        Ok(())
    }
}

impl Backend for &Counting {
    fn read(&self, k: &str) -> anyhow::Result<Box<dyn Read + Send + 'static>> {
        self.op(k)?;
        Ok(Box::new(io::empty()))
    }
    fn write(&self, _: u64, _: &mut dyn Contents, k: &str) -> anyhow::Result<()> {
        self.op(k)
    }
    fn remove(&self, k: &str) -> anyhow::Result<()> {
        self.op(k)
    }
    fn list(&self, k: &str) -> anyhow::Result<Vec<(String, u64)>> {
        self.op(k)?;
        Ok(vec![])
    }
}

/// Wait until f() is full, or as good as forever passed since it last moved.
fn watch(full: u64, f: impl Fn() -> u64) -> bool {
    let (mut last, mut since) = (f(), Instant::now());
    while last < full {
        std::thread::sleep(Duration::from_millis(2));
        let now = f();
        if now != last {
            (last, since) = (now, Instant::now());
        } else if since.elapsed() > Duration::from_secs(45) {
            return false;
        }
    }
    true
}

fn stress(n: u32, threads: usize, rounds: usize) {
    let c: &'static Counting =
        Box::leak(Box::new(Counting { inside: AtomicI64::new(0), most: AtomicI64::new(0), ended: AtomicU64::new(0) }));
    let b = Arc::new(Semaphored::new(c, n));
    for t in 0..threads {
        let b = b.clone();
        std::thread::spawn(move || {
            for r in 0..rounds {
                let k = (((t * 31 + r * 17) % 64 + 64) as u8 as char).to_string();
                match (t + r) % 4 {
                    0 => drop(b.read(&k)),
                    1 => drop(b.write(0, &mut io::empty(), &k)),
                    2 => drop(b.remove(&k)),
                    _ => drop(b.list(&k)),
                }
            }
        });
    }
    let all = watch((threads * rounds) as u64, || c.ended.load(SeqCst));
    println!("stress {n} {threads} {rounds} most {} {}", c.most.load(SeqCst), if all { "done" } else { "stuck" });
    std::io::stdout().flush().unwrap();
    std::process::exit(0);
}

fn each(funs: usize) {
    static RAN: AtomicU64 = AtomicU64::new(0);
    std::thread::spawn(move || {
        backpak::concurrently::concurrently((0..funs).map(|i| {
            move || {
                if i % 7 == 0 {
                    std::thread::sleep(Duration::from_micros(50));
                }
                RAN.fetch_add(1, SeqCst);
                Ok(())
            }
        }));
        let got = backpak::concurrently::map_concurrently((0..funs).map(|i| {
            move || {
                RAN.fetch_add(1, SeqCst);
                Ok(i)
            }
        }));
        let distinct: BTreeSet<usize> = got.iter().copied().collect();
        println!("each {funs} results {} distinct {}", got.len(), distinct.len());
        RAN.fetch_add(1, SeqCst);
    });
    let all = watch(2 * funs as u64 + 1, || RAN.load(SeqCst));
    println!("each {funs} {}", if all { "done" } else { "stuck" });
    std::io::stdout().flush().unwrap();
    std::process::exit(0);
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<usize>().unwrap();
    let ok = match a[1].as_str() {
        "replay" => io::stdin().lines().all(|l| replay(&l.unwrap())),
        "dfs" => dfs(n(2) as u32, n(3), n(4), n(5)),
        "random" => random(n(2) as u32, n(3), n(4), n(5), n(6) as u64 * 0x9E37_79B9 + 1),
        "stress" => return stress(n(2) as u32, n(3), n(4)),
        "each" => return each(n(2)),
        _ => panic!("what?"),
    };
    std::io::stdout().flush().unwrap();
    std::process::exit(if ok { 0 } else { 3 });
}
