//! Conformance driver: replays behaviours generated from the TLA+ specifications
//! in /verif/spec through curvo and compares the abstract state after each step.
//!
//! conform <property> <behaviours.jsonl> <report.json> [trace.jsonl] [line]
//!
//! Exit 0: the report says what was found.  Other exits are errors of the driver,
//! except death by a signal, where <report.json>.progress tells what was running.
mod boxes;
mod closest;
mod nearest;
mod compound;
mod conic;
mod construct;
mod curve;
mod interp;
mod knots;
mod length;
mod mesh;
mod pierce;
mod plane;
mod poly;
mod surface;
mod trim;
mod num;
mod region;
mod report;
mod wire;

use report::{Report, Slot};
use serde_json::{json, Value};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

const HANG: Duration = Duration::from_secs(40);

fn run_line(prop: &str, line: &str, rep: &mut Report) {
    let v: Value = serde_json::from_str(line).expect("behaviour is not JSON");
    match v["m"].as_str().unwrap_or("") {
        "curve" => curve::replay(prop, &v, rep),
        "surface" => surface::replay(prop, &v, rep),
        "interp" => interp::replay(prop, &v, rep),
        "conic" => conic::replay(prop, &v, rep),
        "box" => boxes::replay(prop, &v, rep),
        "closest" => closest::replay(prop, &v, rep),
        "nearest" => nearest::replay(prop, &v, rep),
        "construct" => construct::replay(prop, &v, rep),
        "compound" if prop == "C30" => poly::chain(prop, &v, rep),
        "polyline" => poly::replay(prop, &v, rep),
        "polygon" => poly::polygon(prop, &v, rep),
        "compound" => compound::replay(prop, &v, rep),
        "cross" => plane::cross(prop, &v, rep),
        "inside" => plane::inside(prop, &v, rep),
        "pierce" => pierce::replay(prop, &v, rep),
        "mesh" => mesh::replay(prop, &v, rep),
        "moved" => trim::moved(prop, &v, rep),
        "trim" => trim::replay(prop, &v, rep),
        "region" => region::replay(prop, &v, rep),
        "knots" => knots::replay(prop, &v, rep),
        "wire" => wire::replay(prop, &v, rep),
        "length" => length::replay(prop, &v, rep),
        "skip" => {}
        m => panic!("unknown behaviour kind {m}"),
    }
}

struct Job {
    prop: String,
    lines: Vec<String>,
    next: AtomicUsize,
    end: usize,
    total: Mutex<Report>,
    failed: Mutex<Option<String>>,
}

fn worker(job: Arc<Job>, slot: Arc<Slot>) -> std::thread::JoinHandle<()> {
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || loop {
            let i = job.next.fetch_add(1, Ordering::Relaxed);
            if i >= job.end {
                return;
            }
            let mut rep = Report { slot: Some(slot.clone()), line: i, ..Default::default() };
            rep.count("behaviours", 1);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                run_line(&job.prop, &job.lines[i], &mut rep);
            }));
            *slot.state.lock().unwrap() = None;
            if r.is_err() {
                *job.failed.lock().unwrap() = Some(format!("behaviour {i}"));
                return;
            }
            job.total.lock().unwrap().merge(rep);
        })
        .unwrap()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (prop, input, out) = (args[1].clone(), &args[2], args[3].clone());
    let text = std::fs::read_to_string(input).expect("cannot read behaviours");
    let lines: Vec<String> = text.lines().filter(|l| !l.trim().is_empty()).map(|l| l.to_string()).collect();
    drop(text);
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        // panics of the code under test are observations; others are shown
        if std::env::var("CONFORM_VERBOSE").is_ok() || !curve::guarded() {
            hook(info);
        }
    }));
    let (start, end) = match args.get(5) {
        Some(l) => {
            let l: usize = l.parse().unwrap();
            (l, l + 1)
        }
        None => (0, lines.len()),
    };
    let progress = std::fs::File::create(format!("{out}.progress")).unwrap();
    let job = Arc::new(Job { prop: prop.clone(), end, lines, next: AtomicUsize::new(start), total: Default::default(), failed: Mutex::new(None) });
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let mut slots: Vec<Arc<Slot>> = vec![];
    let mut threads = vec![];
    let launch = |slots: &mut Vec<Arc<Slot>>| {
        let s = Arc::new(Slot { id: slots.len(), state: Mutex::new(None), progress: progress.try_clone().ok() });
        slots.push(s.clone());
        Some(worker(job.clone(), s))
    };
    for _ in 0..n {
        threads.push(launch(&mut slots));
    }
    let mut hangs = 0;
    loop {
        std::thread::sleep(Duration::from_millis(20));
        let mut alive = 0;
        for i in 0..threads.len() {
            let Some(t) = &threads[i] else { continue };
            if t.is_finished() {
                threads[i] = None;
                continue;
            }
            alive += 1;
            let hung = slots[i].state.lock().unwrap().clone().filter(|s| s.0.elapsed() > HANG);
            if let Some((_, line, own, what)) = hung {
                // the call does not return: leave the thread behind and go on
                let mut tot = job.total.lock().unwrap();
                if own {
                    let mut r = Report { line, ..Default::default() };
                    r.violation(&prop, format!("{what}:hang"), format!("{what} did not return within {HANG:?}"), json!({"behaviour": line}));
                    tot.merge(r);
                } else {
                    tot.foreign += 1;
                }
                drop(tot);
                hangs += 1;
                threads[i] = None;
                if hangs < 16 {
                    threads.push(launch(&mut slots));
                } else {
                    // nothing sensible left to explore
                    job.next.store(end, Ordering::Relaxed);
                }
            }
        }
        if alive == 0 {
            break;
        }
    }
    if let Some(f) = job.failed.lock().unwrap().clone() {
        eprintln!("harness error in {f}");
        std::process::exit(2);
    }
    let total = std::mem::take(&mut *job.total.lock().unwrap());
    if let Some(t) = args.get(4).filter(|t| *t != "-") {
        let mut f = std::io::BufWriter::new(std::fs::File::create(t).unwrap());
        for l in &total.trace {
            writeln!(f, "{l}").unwrap();
        }
    }
    std::fs::write(&out, serde_json::to_string(&total.to_json()).unwrap()).unwrap();
    let _ = std::fs::remove_file(format!("{out}.progress"));
    std::process::exit(0);
}
