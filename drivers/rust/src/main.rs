// See driver.rs.
include!("driver.rs");
use std::io::BufRead;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let mut d = Driver::default();
    for line in input.lines() {
        let line = line.unwrap();
        let t: Vec<&str> = line.split_whitespace().collect();
        if t.is_empty() || t[0].starts_with('#') { continue; }
        USED.store(usize::MAX, Relaxed);
        let r = catch_unwind(AssertUnwindSafe(|| d.exec(&t)));
        let used = USED.load(Relaxed);
        let used = if used == usize::MAX { String::new() } else { format!(",\"kb\":{}", used.div_ceil(1024).min(1 << 30)) };
        let ev = r.unwrap_or_else(|e| {
            let msg = e.downcast_ref::<String>().cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if msg.starts_with("driver:") { eprintln!("{msg}"); std::process::exit(3); }
            let safe: String = msg.chars().map(|c| if c == '"' || c == '\\' || c.is_control() { '\'' } else { c }).collect();
            format!("\"op\":\"panic\",\"during\":\"{}\",\"msg\":\"{}\"", line.trim(), safe)
        });
        writeln!(out, "{{{ev}{used}}}").unwrap();
        // A process that dies must leave the events of all completed calls behind.
        out.flush().unwrap();
    }
}
