mod api;
mod conv;
mod gen;
mod map;
mod mem;
mod rng;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).map(|i| a[i + 1].clone())
}
fn parse_line(l: &str) -> BTreeMap<String, String> {
    l.split_whitespace().filter_map(|t| t.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect()
}
fn replay_case(m: &BTreeMap<String, String>) -> conv::Verdict {
    match m["kind"].as_str() { "convert" => conv::run(&conv::Case::de(m)), k => api::run(k, m["seed"].parse().unwrap()) }
}
/// kinds of case of a property (the first that fits a draw), "convert" is conv.rs
fn kind(prop: &str, r: &mut rng::Rng) -> &'static str {
    match prop {
        "C08" => "layout",
        "C09" => r.pick(&["valid", "valid", "valid", "layout"]),
        "C10" => r.pick(&["convert", "crop", "crop"]),
        "C12" => r.pick(&["reject", "reject", "reject", "valid"]),
        "C14" => if r.chance(1, 50) { "transfer" } else { "convert" },
        "C15" => if r.chance(1, 50) { "primaries" } else { "convert" },
        "C17" => "resize",
        "C01" | "C02" => if r.chance(1, 8) { r.pick(&["reject", "resize"]) } else { "convert" },
        "ALL" => r.pick(&["convert", "convert", "layout", "valid", "crop", "reject", "transfer", "primaries", "resize"]),
        _ => "convert",
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let cmd = std::env::args().nth(1).unwrap_or_default();
    match cmd.as_str() {
        "replay" => {
            let t = std::fs::read_to_string(std::env::args().nth(2).unwrap()).unwrap();
            let line = t.lines().find(|l| l.contains("kind=")).expect("no case in file");
            let v = replay_case(&parse_line(line));
            println!("{v:?}");
            std::process::exit(if matches!(v, conv::Verdict::Bad(_)) { 1 } else { 0 });
        }
        "search" => {
            // parent: run workers, catch crashes
            let prop = arg("--prop").unwrap();
            let secs: f64 = arg("--secs").unwrap().parse().unwrap();
            let seed: u64 = arg("--seed").unwrap_or("1".into()).parse().unwrap();
            let jobs: usize = arg("--jobs").unwrap_or("8".into()).parse().unwrap();
            let out = arg("--out").unwrap();
            let exe = std::env::current_exe().unwrap();
            let mut kids = vec![];
            let t0 = Instant::now();
            for j in 0..jobs {
                let cur = format!("{out}.cur{j}");
                let k = std::process::Command::new(&exe).args(["work", "--prop", &prop, "--secs", &secs.to_string(), "--seed", &(seed * 1000 + j as u64).to_string(), "--cur", &cur])
                    .stdout(std::process::Stdio::piped()).spawn().unwrap();
                kids.push((cur, k));
            }
            let (mut total, mut samples, mut rejected) = (0u64, 0u64, 0u64);
            let mut bad = None;
            let mut sampled = false;
            for (cur, k) in kids {
                let mut k = k;
                let mut hung = false;
                while k.try_wait().unwrap().is_none() {
                    if t0.elapsed().as_secs_f64() > secs + 45.0 { hung = true; let _ = k.kill(); }
                    std::thread::sleep(Duration::from_millis(5));
                }
                let o = k.wait_with_output().unwrap();
                let t = String::from_utf8_lossy(&o.stdout).to_string();
                if hung {
                    let c = std::fs::read_to_string(&cur).unwrap_or_default();
                    bad.get_or_insert(format!("the call does not return ## {c}"));
                    let _ = std::fs::remove_file(&cur);
                    continue;
                }
                for l in t.lines() {
                    if let Some(r) = l.strip_prefix("STATS ") { let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect(); total += v[0]; samples += v[1]; rejected += v[2]; }
                    if l.starts_with("SAMPLE ") && !sampled { sampled = true; println!("{l}"); }
                    if let Some(r) = l.strip_prefix("BAD ") { bad.get_or_insert(r.to_string()); }
                }
                if !hung && o.status.code().is_some_and(|c| c != 0) {
                    println!("ERROR worker failed on {}", std::fs::read_to_string(&cur).unwrap_or_default());
                    std::process::exit(3);
                }
                if o.status.code().is_none() {
                    let c = std::fs::read_to_string(&cur).unwrap_or_default();
                    bad.get_or_insert(format!("process killed by a signal (access outside the image's memory) ## {c}"));
                }
                let _ = std::fs::remove_file(&cur);
            }
            println!("STATS cases={total} samples={samples} rejected={rejected}");
            if let Some(b) = bad {
                let (why, case) = b.split_once(" ## ").unwrap_or((&b, ""));
                std::fs::write(&out, format!("property={prop}\nwhy: {why}\n{case}\n")).unwrap();
                println!("FOUND {why}\nCASE {case}");
                std::process::exit(1);
            }
        }
        "work" => {
            let prop = arg("--prop").unwrap();
            let secs: f64 = arg("--secs").unwrap().parse().unwrap();
            let mut r = rng::Rng(arg("--seed").unwrap().parse().unwrap());
            let cur = arg("--cur").unwrap();
            use std::io::{Seek, Write};
            let mut cf = std::fs::File::create(&cur).unwrap();
            let t0 = Instant::now();
            let (mut n, mut s, mut rej) = (0u64, 0u64, 0u64);
            while t0.elapsed() < Duration::from_secs_f64(secs) {
                let k = kind(&prop, &mut r);
                let case = if k == "convert" { Some(gen::gen(&prop, &mut r)) } else { None };
                let sd = r.next();
                let line = match &case { Some(c) => c.ser(), None => format!("kind={k} seed={sd}") };
                cf.seek(std::io::SeekFrom::Start(0)).unwrap();
                cf.set_len(0).unwrap();
                cf.write_all(line.as_bytes()).unwrap();
                n += 1;
                match match &case { Some(c) => conv::run(c), None => api::run(k, sd) } {
                    conv::Verdict::Ok { samples } => s += samples as u64,
                    conv::Verdict::Rejected(_) => rej += 1,
                    conv::Verdict::Bad(w) => { println!("BAD {w} ## {line}"); if std::env::var("KEEP_GOING").is_err() { break; } }
                }
            }
            if let Ok(c) = std::fs::read_to_string(&cur) { println!("SAMPLE {c}"); }
            println!("STATS {n} {s} {rej}");
        }
        _ => panic!("usage"),
    }
}
