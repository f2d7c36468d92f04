//! mem PROG OBS part parts: as exec, with a counting allocator and the extra
//! instruction "live": how many bytes allocated since the unit started are
//! still allocated.  Every unit is executed several times; what is recorded
//! is the last time, except for "live", whose largest value after the warm-up
//! is recorded (the harness and the standard library allocate a few things once).
//! A unit may bring programs of the same shape, on other values, to be
//! executed before it ("before"): then these are the first rounds.
use redox_exec::json::{parse, J};
use redox_exec::vm::{prepare, step, V};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::time::{Duration, Instant};

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;
static NOW: AtomicU64 = AtomicU64::new(0);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (part, parts): (usize, usize) = (args[3].parse().unwrap(), args[4].parse().unwrap());
    let limit: u64 = std::env::var("OP_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(90);
    let progress = std::env::var("PROGRESS").ok();
    std::panic::set_hook(Box::new(|_| {}));
    let prog = parse(&std::fs::read_to_string(&args[1]).unwrap());
    let hang = format!("{}.hang", args[2]);
    std::thread::spawn(move || {
        let mut last = (0u64, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let n = NOW.load(Ordering::Relaxed);
            if n != last.0 {
                last = (n, Instant::now());
            } else if n != 0 && last.1.elapsed().as_secs() > limit {
                let _ = std::fs::write(&hang, format!("{} {}", n >> 32, n & 0xffff_ffff));
                std::process::exit(3);
            }
        }
    });
    let child = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || run(&prog, &args[2], part, parts, progress))
        .unwrap();
    if child.join().is_err() {
        std::process::exit(5);
    }
}

const ROUNDS: usize = 6;
const WARM: usize = 3;

fn run(prog: &J, out: &str, part: usize, parts: usize, progress: Option<String>) {
    let mut f = std::fs::File::create(out).unwrap();
    for (ui, u) in prog.arr().iter().enumerate() {
        if ui % parts != part {
            continue;
        }
        let code = u.get("code").arr();
        let n = u.get("n").int() as usize;
        let before = u.get("before").arr();
        let rounds = if before.is_empty() { ROUNDS } else { before.len() + 1 };
        for c in before.iter().map(|b| b.arr()).chain([code]) {
            c.iter().for_each(prepare);
        }
        let mut row = String::with_capacity(1 << 22);
        let mut most: Vec<i64> = vec![i64::MIN; code.len()];
        for round in 0..rounds {
            let code = if round < before.len() { before[round].arr() } else { code };
            row.clear();
            let mut g: Vec<V> = Vec::with_capacity(n);
            g.resize(n, V::None);
            let start = LIVE.load(Ordering::Relaxed);
            for (pc, ins) in code.iter().enumerate() {
                NOW.store(((ui as u64 + 1) << 32) | (pc as u64 + 1), Ordering::Relaxed);
                if let Some(p) = &progress {
                    std::fs::write(p, format!("{} {}", ui + 1, pc + 1)).unwrap();
                }
                if pc > 0 {
                    row.push(',');
                }
                if ins.get("o").str() == "live" {
                    let d = LIVE.load(Ordering::Relaxed) - start;
                    if round >= WARM {
                        most[pc] = most[pc].max(d);
                    }
                    row.push_str("[[\"live\",");
                    let s = most[pc].to_string();
                    row.push_str(&s);
                    row.push_str("]]");
                } else {
                    row.push('[');
                    for (i, o) in step(ins, &mut g).into_iter().enumerate() {
                        if i > 0 {
                            row.push(',');
                        }
                        row.push_str(&o);
                    }
                    row.push(']');
                }
            }
        }
        assert!(row.len() < 1 << 22);
        writeln!(f, "{} [{}]", ui, row).unwrap();
    }
    NOW.store(0, Ordering::Relaxed);
}
