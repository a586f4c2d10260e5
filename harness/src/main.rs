mod bv;
mod ev;
mod field;
mod fields;
mod gadgets;
mod header;
mod json;
mod lazy;
mod nova;
mod rec;
mod sets;
mod small;
mod solve;

use std::fs;
use std::io::Write;

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).map(|i| a[i + 1].clone())
}

fn main() {
    let loud = std::env::var_os("VH_PANICS").is_some();
    std::panic::set_hook(Box::new(move |i| if loud { eprintln!("{}", i) }));
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = arg(&a, "--seed").map(|x| x.parse().unwrap()).unwrap_or(1);
    let thorough = arg(&a, "--tier").as_deref() == Some("thorough");
    match a[1].as_str() {
        "gadgets" => {
            let set = arg(&a, "--set").unwrap();
            let out = arg(&a, "--out").unwrap();
            let pl = sets::build(&set, seed, thorough);
            let sink = ev::execute(&pl.jobs, seed, if thorough { 400_000 } else { 20_000 });
            let mut f = std::io::BufWriter::new(fs::File::create(format!("{}/events.ndjson", out)).unwrap());
            writeln!(f, "{}", ev::header_line()).unwrap();
            let evs = sink.events.lock().unwrap();
            for (_, e) in evs.iter() {
                writeln!(f, "{}", e).unwrap();
            }
            let ms = sink.machines.lock().unwrap();
            let mut f = std::io::BufWriter::new(fs::File::create(format!("{}/machines.json", out)).unwrap());
            writeln!(f, "{{\"circ\":[\n{}\n]}}", ms.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(",\n")).unwrap();
            let s = &sink.stats;
            use std::sync::atomic::Ordering::Relaxed as R;
            println!(
                "{{\"jobs\":{},\"events\":{},\"honest\":{},\"attempts\":{},\"forged\":{},\"unsat\":{},\"unknown\":{},\"machines\":{},\"shapes\":{},\"skipped\":{}}}",
                pl.jobs.len(),
                evs.len(),
                s.honest.load(R),
                s.attempts.load(R),
                s.forged.load(R),
                s.unsat.load(R),
                s.unknown.load(R),
                s.machines.load(R),
                s.shapes.load(R),
                s.skipped.load(R)
            );
        }
        "header" => {
            let cases = header::parse(&fs::read_to_string(arg(&a, "--cases").unwrap()).unwrap());
            let out = arg(&a, "--out").unwrap();
            let outs = arg(&a, "--outs").map(|x| x.split(',').filter_map(|y| y.parse().ok()).collect()).unwrap_or_default();
            let sink = header::execute(&cases, seed, outs);
            let mut f = std::io::BufWriter::new(fs::File::create(format!("{}/events.ndjson", out)).unwrap());
            writeln!(f, "{}", header::header_line(&cases)).unwrap();
            let evs = sink.events.lock().unwrap();
            for (_, e) in evs.iter() {
                writeln!(f, "{}", e).unwrap();
            }
            let s = &sink.stats;
            use std::sync::atomic::Ordering::Relaxed as R;
            println!(
                "{{\"cases\":{},\"events\":{},\"honest\":{},\"attempts\":{},\"forged\":{},\"unsat\":{},\"unknown\":{},\"shapes\":{},\"skipped\":{}}}",
                cases.len(),
                evs.len(),
                s.honest.load(R),
                s.attempts.load(R),
                s.forged.load(R),
                s.unsat.load(R),
                s.unknown.load(R),
                s.shapes.load(R),
                s.skipped.load(R)
            );
        }
        "lazy" => {
            let evs = lazy::execute(&fs::read_to_string(arg(&a, "--cases").unwrap()).unwrap());
            fs::write(format!("{}/events.ndjson", arg(&a, "--out").unwrap()), evs.join("\n") + "\n").unwrap();
            println!("{{\"events\":{}}}", evs.len());
        }
        "setup" => {
            let (h, evs) = header::setup(&fs::read_to_string(arg(&a, "--cases").unwrap()).unwrap());
            let mut f = std::io::BufWriter::new(fs::File::create(format!("{}/events.ndjson", arg(&a, "--out").unwrap())).unwrap());
            writeln!(f, "{}", h).unwrap();
            for e in &evs {
                writeln!(f, "{}", e).unwrap();
            }
            println!("{{\"events\":{}}}", evs.len());
        }
        "nova" => {
            let cases: Vec<nova::NCase> = header::parse(&fs::read_to_string(arg(&a, "--cases").unwrap()).unwrap())
                .into_iter()
                .map(|c| nova::NCase { hdrs: std::iter::once(c.hdr).chain(c.more.iter().cloned()).collect(), z: c.z })
                .collect();
            let out = arg(&a, "--out").unwrap();
            let (evs, cons) = nova::execute(&cases);
            let all = header::parse(&fs::read_to_string(arg(&a, "--cases").unwrap()).unwrap());
            let mut f = std::io::BufWriter::new(fs::File::create(format!("{}/events.ndjson", out)).unwrap());
            writeln!(f, "{}", header::header_line(&all)).unwrap();
            for e in &evs {
                writeln!(f, "{}", e).unwrap();
            }
            println!("{{\"cases\":{},\"events\":{},\"constraints\":{}}}", cases.len(), evs.len(), cons);
        }
        o => panic!("unknown command {}", o),
    }
}
