//! exec PROG OBS part parts : runs units number i with i % parts == part.
use redox_exec::json::{parse, J};
use redox_exec::vm::{step, V};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static NOW: AtomicU64 = AtomicU64::new(0);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (part, parts): (usize, usize) = (args[3].parse().unwrap(), args[4].parse().unwrap());
    let limit: u64 = std::env::var("OP_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(90);
    let progress = std::env::var("PROGRESS").ok();
    std::panic::set_hook(Box::new(|_| {}));
    let prog = parse(&std::fs::read_to_string(&args[1]).unwrap());
    // a call that does not return is reported by the watchdog: exit code 3
    let hang = format!("{}.hang", args[2]);
    std::thread::spawn(move || {
        let mut last = (0u64, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let n = NOW.load(Ordering::Relaxed);
            if n != last.0 {
                last = (n, Instant::now());
            } else if n != 0 && last.1.elapsed().as_secs() > limit {
                let _ = std::fs::write(&hang, format!("{} {}", n >> 32, n & 0xffff_ffff));
                std::process::exit(3);
            }
        }
    });
    let child = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || run(&prog, &args[2], part, parts, progress))
        .unwrap();
    if child.join().is_err() {
        std::process::exit(5);
    }
}

fn run(prog: &J, out: &str, part: usize, parts: usize, progress: Option<String>) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for (ui, u) in prog.arr().iter().enumerate() {
        if ui % parts != part {
            continue;
        }
        let mut g: Vec<V> = vec![V::None; u.get("n").int() as usize];
        write!(f, "{} [", ui).unwrap();
        for (pc, ins) in u.get("code").arr().iter().enumerate() {
            NOW.store(((ui as u64 + 1) << 32) | (pc as u64 + 1), Ordering::Relaxed);
            if let Some(p) = &progress {
                std::fs::write(p, format!("{} {}", ui + 1, pc + 1)).unwrap();
            }
            let o = step(ins, &mut g);
            if pc > 0 {
                write!(f, ",").unwrap();
            }
            write!(f, "[{}]", o.join(",")).unwrap();
        }
        writeln!(f, "]").unwrap();
    }
    NOW.store(0, Ordering::Relaxed);
    f.flush().unwrap();
}
