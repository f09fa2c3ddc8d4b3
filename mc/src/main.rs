mod engine;
mod rt;
mod util;
mod props;
mod block;
mod io_hist;
mod timer;
mod life;
mod special;
mod stream;
mod conn;
mod adapt;
mod io_conc;
mod leak;
use engine::*;
use std::time::Duration;

#[global_allocator]
static ALLOC: leak::Counting = leak::Counting;

fn usage() -> ! { eprintln!("usage: mc list | check PROP [tier] | run SCEN [p s t f total cap_s] | one SCEN [pt:alt ...] | sweep [PROP...] | replay FILE"); std::process::exit(2) }
fn arg<T: std::str::FromStr>(a: &[String], i: usize, d: T) -> T { a.get(i).and_then(|x| x.parse().ok()).unwrap_or(d) }
fn find(name: &str) -> &'static Scen {
    props::find(name).unwrap_or_else(|| { eprintln!("no scenario {name}"); std::process::exit(2) })
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<util::Intentional>() { return }
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or("?".into());
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if rt::controlled() { rt::fail(&format!("panic: {m} ({at})")) }
        eprintln!("panic: {m} ({at})");
    }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => for p in props::all() { println!("{} {}", p.id, p.scens.join(" ")); },
        Some("run") => {
            let sc = find(a.get(2).unwrap_or_else(|| usage()));
            let q = sc.quick;
            let b = Bounds { p: arg(&a, 3, q.p), s: arg(&a, 4, q.s), t: arg(&a, 5, q.t), f: arg(&a, 6, q.f), total: arg(&a, 7, q.total) };
            let r = explore(sc, b, Duration::from_secs(arg(&a, 8, 30)), &[]);
            println!("{}", props::line(&r));
            if let Some(v) = r.violation { println!("{}\nVIOLATED {} level {}: {}\ndevs {:?}", v.log, status_name(v.status), v.level, v.msg, v.devs); std::process::exit(1) }
        }
        Some("one") => {
            let sc = find(a.get(2).unwrap_or_else(|| usage()));
            let devs: Vec<(u32, u16)> = a[3..].iter().map(|x| { let (p, q) = x.split_once(':').unwrap_or_else(|| usage()); (p.parse().unwrap(), q.parse().unwrap()) }).collect();
            let (st, msg, log, n) = replay(sc, &devs);
            println!("{log}{} {msg} ({n} points)", status_name(st));
        }
        Some("check") => std::process::exit(props::check(a.get(2).unwrap_or_else(|| usage()), a.get(3).map(|s| s.as_str()))),
        // every scenario once, those of the given properties first
        Some("sweep") => {
            let mut names: Vec<&str> = vec![];
            for id in a[2..].iter().map(|s| s.as_str()).chain(props::all().iter().map(|p| p.id)) {
                for n in props::all().iter().filter(|p| p.id == id).flat_map(|p| p.scens) { if !names.contains(n) { names.push(n) } }
            }
            for n in names {
                let sc = find(n);
                let r = explore(sc, sc.quick, Duration::from_secs(120), &[]);
                println!("{}", props::line(&r));
                if let Some(v) = r.violation { println!("VIOLATED {n} {} level {}: {}", status_name(v.status), v.level, v.msg); std::process::exit(1) }
            }
        }
        Some("replay") => std::process::exit(props::replay_file(a.get(2).unwrap_or_else(|| usage()))),
        _ => usage(),
    }
}
