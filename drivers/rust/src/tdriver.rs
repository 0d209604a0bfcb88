// Runs scripts on several threads of one process: tdriver SCRIPT OUT [PASSES]
//
// * A line "@K call" is made by worker K; the workers take turns, in the order of the script.
// * "share h N M ; call ; call ..." makes the calls on the object h, which nobody changes meanwhile, M times
//   over on each of N threads at once.
// * Scripts without such lines run at the same time, each thread with objects of its own: THREADS threads go
//   through all the scripts PASSES times, each starting at another one; those named apart are gone through
//   OFTEN times each time.
//
// What different threads saw of the same calls is written once if it is the same, and once each if it differs.
include!("driver.rs");

use std::collections::HashSet;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Barrier, Mutex};

const THREADS: usize = 6;
/// How many different outcomes of the same calls are written at most.
const OUTCOMES: usize = 12;
const OFTEN: usize = 30;

/// The event of a call, in braces.
fn event(d: &mut Driver, line: &str) -> String {
    let t: Vec<&str> = line.split_whitespace().collect();
    let ev = catch_unwind(AssertUnwindSafe(|| d.exec(&t))).unwrap_or_else(|e| {
        let msg = e.downcast_ref::<String>().cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if msg.starts_with("driver:") { eprintln!("{msg}"); std::process::exit(3); }
        let safe: String = msg.chars().map(|c| if c == '"' || c == '\\' || c.is_control() { '\'' } else { c }).collect();
        format!("\"op\":\"panic\",\"during\":\"{}\",\"msg\":\"{}\"", line.trim(), safe)
    });
    format!("{{{ev}}}\n")
}

fn share(d: &Driver, line: &str) -> String {
    let mut parts = line.split(';');
    let head: Vec<&str> = parts.next().unwrap().split_whitespace().collect();
    let calls: Vec<&str> = parts.collect();
    let (n, m) = (head[2].parse::<usize>().unwrap(), head[3].parse::<usize>().unwrap());
    let Some(o) = d.objs.get(head[1]) else { return "{\"op\":\"skip\"}\n".into() };
    let start = Barrier::new(n);
    let seen = Mutex::new((HashSet::new(), String::new()));
    std::thread::scope(|s| {
        for k in 0..n {
            let (start, calls, seen, u, head) = (&start, &calls, &seen, &d.u, &head);
            s.spawn(move || {
                start.wait();
                for i in 0..m {
                    // Every thread begins elsewhere; a round's events are put in the order of the script.
                    let mut d = Driver { u: u.clone(), ..Default::default() };
                    d.objs.insert(head[1].into(), Arc::clone(o));
                    let mut evs = vec![String::new(); calls.len()];
                    for j in 0..calls.len() {
                        let j = (j + k + i) % calls.len();
                        evs[j] = event(&mut d, calls[j]);
                        d.objs.retain(|h, _| h == head[1]);
                    }
                    let all = evs.concat();
                    let mut seen = seen.lock().unwrap();
                    if seen.0.len() < OUTCOMES && seen.0.insert(all.clone()) { seen.1 += &all; }
                }
            });
        }
    });
    seen.into_inner().unwrap().1
}

struct Workers { to: Vec<Sender<(Driver, String)>>, from: Receiver<(Driver, String)> }

fn run(d: &mut Driver, line: &str, workers: Option<&Workers>) -> String {
    if line.starts_with("share ") { return share(d, line); }
    let Some(rest) = line.strip_prefix('@') else { return event(d, line) };
    let Some(w) = workers else { return event(d, rest.split_once(' ').unwrap().1) };
    let (k, call) = rest.split_once(' ').unwrap();
    w.to[k.parse::<usize>().unwrap() % w.to.len()].send((std::mem::take(d), call.into())).unwrap();
    let (back, ev) = w.from.recv().unwrap();
    *d = back;
    ev
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let passes: usize = args.get(3).map_or(4, |x| x.parse().unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    SORTED.store(true, Relaxed);
    let mut scripts: Vec<Vec<&str>> = vec![];
    for l in text.lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#')) {
        if l.starts_with("reset") { scripts.push(vec![]); }
        scripts.last_mut().expect("driver: no reset").push(l);
    }
    let alone = |s: &Vec<&str>| s.iter().any(|l| l.starts_with('@') || l.starts_with("share "));
    let (one, many): (Vec<_>, Vec<_>) = scripts.into_iter().partition(alone);
    let (back, from) = channel();
    let to = (0..4).map(|_| {
        let (to, work) = channel::<(Driver, String)>();
        let back = back.clone();
        std::thread::spawn(move || for (mut d, line) in work {
            let ev = event(&mut d, &line);
            if back.send((d, ev)).is_err() { break; }
        });
        to
    }).collect();
    let workers = Workers { to, from };
    for s in &one {
        let mut d = Driver::default();
        for l in s {
            out.write_all(run(&mut d, l, Some(&workers)).as_bytes()).unwrap();
            out.flush().unwrap();
        }
    }
    let seen: Vec<Mutex<HashSet<String>>> = many.iter().map(|_| Mutex::new(HashSet::new())).collect();
    let start = Barrier::new(THREADS);
    let out = Mutex::new(out);
    std::thread::scope(|s| {
        for k in 0..THREADS {
            let (many, seen, start, out) = (&many, &seen, &start, &out);
            s.spawn(move || {
                for pass in 0..passes {
                    start.wait();
                    for i in 0..many.len() {
                        let i = (i + (k + pass) * many.len() / THREADS + if pass % 2 == 1 { k } else { 0 }) % many.len();
                        for _ in 0..if many[i][0].starts_with("reset apart") { OFTEN } else { 1 } {
                            let mut d = Driver::default();
                            let all: String = many[i].iter().map(|l| run(&mut d, l, None)).collect();
                            let mut seen = seen[i].lock().unwrap();
                            if seen.len() < OUTCOMES && seen.insert(all.clone()) {
                                let mut out = out.lock().unwrap();
                                out.write_all(all.as_bytes()).unwrap();
                                out.flush().unwrap();
                            }
                        }
                    }
                }
            });
        }
    });
}
