//! par PROG OUT: executes units on several threads.
//! A unit has, besides code and n, `setup` (number of instructions executed by
//! the main thread), `threads` (number of threads; after the setup the code is
//! divided evenly among them) and `rounds`.  The values made by the setup are
//! given to every thread by cloning, that is, as further copies of the same
//! fields and curves, or, in every other pair of rounds, by reference.  In every round everything is created anew.  The code is
//! recorded in program order of the unit (thread after thread), and equal
//! rounds are recorded once: "unit count [observations]".
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use redox_ecc::{edwards as e, montgomery as m, weierstrass as w};
use redox_exec::json::{parse, J};
use redox_exec::vm::{step_on, V};
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc};
use std::time::{Duration, Instant};

/// The values that may cross threads.
#[derive(Clone)]
enum S {
    None,
    Field(Fp),
    Field2(Fp2),
    E(FpElt),
    E2(Fp2Elt),
    SW(w::Scalar),
    SM(m::Scalar),
    SE(e::Scalar),
    CW(w::Curve),
    CM(m::Curve),
    CE(e::Curve),
    PW(w::Point),
    PM(m::Point),
    PE(e::Point),
}
fn shared<T: Send + Sync>() {}
#[allow(dead_code)]
fn all_shared() {
    shared::<Fp>();
    shared::<Fp2>();
    shared::<FpElt>();
    shared::<Fp2Elt>();
    shared::<w::Curve>();
    shared::<m::Curve>();
    shared::<e::Curve>();
    shared::<w::Point>();
    shared::<m::Point>();
    shared::<e::Point>();
    shared::<w::Scalar>();
    shared::<m::Scalar>();
    shared::<e::Scalar>();
}
fn give(v: &V) -> S {
    match v {
        V::Field(x) => S::Field(x.clone()),
        V::Field2(x) => S::Field2(x.clone()),
        V::E(x) => S::E(x.clone()),
        V::E2(x) => S::E2(x.clone()),
        V::SW(x) => S::SW(x.clone()),
        V::SM(x) => S::SM(x.clone()),
        V::SE(x) => S::SE(x.clone()),
        V::CW(x) => S::CW(x.clone()),
        V::CM(x) => S::CM(x.clone()),
        V::CE(x) => S::CE(x.clone()),
        V::PW(x) => S::PW(x.clone()),
        V::PM(x) => S::PM(x.clone()),
        V::PE(x) => S::PE(x.clone()),
        _ => S::None,
    }
}
fn take(s: S) -> V {
    match s {
        S::None => V::None,
        S::Field(x) => V::Field(x),
        S::Field2(x) => V::Field2(x),
        S::E(x) => V::E(x),
        S::E2(x) => V::E2(x),
        S::SW(x) => V::SW(x),
        S::SM(x) => V::SM(x),
        S::SE(x) => V::SE(x),
        S::CW(x) => V::CW(x),
        S::CM(x) => V::CM(x),
        S::CE(x) => V::CE(x),
        S::PW(x) => V::PW(x),
        S::PM(x) => V::PM(x),
        S::PE(x) => V::PE(x),
    }
}

/// The registers of the setup, shared by reference.
struct Shared(Vec<V>);
impl Shared {
    fn new(g: Vec<V>) -> Option<Shared> {
        let fits = g.iter().all(|v| matches!(v, V::None) || !matches!(give(v), S::None));
        if fits {
            Some(Shared(g))
        } else {
            None
        }
    }
}
// every variant that `give` gives is Send and Sync, as `all_shared` checks
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

struct Job {
    regs: Vec<S>,
    base: Option<Arc<Shared>>,
    code: Arc<Vec<J>>,
    gate: Arc<AtomicUsize>,
    threads: usize,
    lockstep: bool,
    delay: u32,
}

/// Waits until everybody has arrived at the k-th meeting point.
fn meet(gate: &AtomicUsize, threads: usize, k: usize) {
    gate.fetch_add(1, Ordering::SeqCst);
    let mut n = 0u32;
    while gate.load(Ordering::SeqCst) < threads * (k + 1) {
        n += 1;
        if n > 2000 {
            std::thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
    }
}

fn rows(code: &[J], g: &mut Vec<V>, base: &[V], mut before: impl FnMut(usize)) -> String {
    let mut s = String::new();
    for (i, ins) in code.iter().enumerate() {
        before(i);
        let o = step_on(ins, g, base);
        if i > 0 {
            s.push(',');
        }
        s.push_str(&format!("[{}]", o.join(",")));
    }
    s
}

fn worker(rx: mpsc::Receiver<Job>, tx: mpsc::Sender<String>) {
    while let Ok(j) = rx.recv() {
        let mut g: Vec<V> = j.regs.into_iter().map(take).collect();
        meet(&j.gate, j.threads, 0);
        for _ in 0..j.delay {
            std::hint::spin_loop();
        }
        let base = j.base.as_ref().map_or(&[][..], |b| &b.0[..]);
        let r = rows(&j.code, &mut g, base, |i| {
            if j.lockstep && i > 0 {
                meet(&j.gate, j.threads, i)
            }
        });
        drop(g);
        let _ = tx.send(r);
    }
}

static NOW: AtomicU64 = AtomicU64::new(0);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let limit: u64 = std::env::var("OP_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    let div: usize = std::env::var("ROUNDS_DIV").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let only: Option<usize> = std::env::var("UNIT").ok().and_then(|s| s.parse().ok());
    let hang = format!("{}.hang", args[2]);
    let prog = parse(&std::fs::read_to_string(&args[1]).unwrap());
    if cfg!(not(miri)) {
        std::thread::spawn(move || {
            let mut last = (0u64, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let n = NOW.load(Ordering::Relaxed);
                if n != last.0 {
                    last = (n, Instant::now());
                } else if n != 0 && last.1.elapsed().as_secs() > limit {
                    let _ = std::fs::write(&hang, format!("{} 1", n >> 32));
                    std::process::exit(3);
                }
            }
        });
    }
    let most = prog.arr().iter().map(|u| u.get("threads").int() as usize).max().unwrap_or(1);
    let mut pool = vec![];
    for _ in 0..most {
        let (tx, rx) = mpsc::channel::<Job>();
        let (tx2, rx2) = mpsc::channel::<String>();
        let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || worker(rx, tx2)).unwrap();
        pool.push((tx, rx2, h));
    }
    let mut f = std::fs::File::create(&args[2]).unwrap();
    for (ui, u) in prog.arr().iter().enumerate() {
        if only.map_or(false, |o| o != ui) {
            continue;
        }
        let code = u.get("code").arr();
        let n = u.get("n").int() as usize;
        let (setup, threads) = (u.get("setup").int() as usize, u.get("threads").int() as usize);
        let rounds = (u.get("rounds").int() as usize / div).max(1);
        let each = (code.len() - setup) / threads;
        let parts: Vec<Arc<Vec<J>>> = (0..threads)
            .map(|t| Arc::new(code[setup + t * each..setup + (t + 1) * each].to_vec()))
            .collect();
        let mut seen: BTreeMap<String, usize> = BTreeMap::new();
        for round in 0..rounds {
            NOW.store(((ui as u64 + 1) << 32) | (round as u64 + 1), Ordering::Relaxed);
            let mut g: Vec<V> = vec![V::None; n];
            let mut row = rows(&code[..setup], &mut g, &[], |_| {});
            let gate = Arc::new(AtomicUsize::new(0));
            let mut x = round as u32;
            // in half of the rounds by reference, in the others by cloning
            let base = if round / 2 % 2 == 0 { None } else { Shared::new(g.clone()).map(Arc::new) };
            for t in 0..threads {
                x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                let job = Job {
                    regs: g.iter().map(|v| if base.is_some() { S::None } else { give(v) }).collect(),
                    base: base.clone(),
                    code: parts[t].clone(),
                    gate: gate.clone(),
                    threads,
                    lockstep: round % 3 == 0,
                    // every second round starts at slightly different times
                    delay: if round % 2 == 0 { 0 } else { (x >> 16) % (1 << (round / 2 % 12)) },
                };
                pool[t].0.send(job).unwrap();
            }
            drop(g);
            for t in 0..threads {
                match pool[t].1.recv() {
                    Ok(r) => {
                        row.push(',');
                        row.push_str(&r);
                    }
                    Err(_) => std::process::exit(5),
                }
            }
            *seen.entry(row).or_insert(0) += 1;
        }
        for (row, k) in seen {
            writeln!(f, "{} {} [{}]", ui, k, row).unwrap();
        }
    }
    NOW.store(0, Ordering::Relaxed);
    for (tx, _, h) in pool {
        drop(tx);
        let _ = h.join();
    }
}
