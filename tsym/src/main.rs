#![allow(dead_code)]
mod exec;
mod ir;
mod mem;
mod solver;
mod term;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn ins(v: &[(u8, u16, u128)]) -> String {
    let x: Vec<String> = v.iter().map(|i| format!("[{},\"{}\"]", i.1, i.2)).collect();
    format!("[{}]", x.join(","))
}
fn nums(v: &[u128]) -> String {
    let x: Vec<String> = v.iter().map(|i| format!("\"{}\"", i)).collect();
    format!("[{}]", x.join(","))
}

fn main() {
    // terms are walked recursively
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let _ = h.join().map_err(|_| std::process::exit(2));
}
fn real_main() {
    let mut a = std::env::args().skip(1);
    let mut file = None;
    let mut entry = None;
    let mut out = None;
    let mut dump = None;
    let mut cross = 0;
    let mut hard = 120_000;
    let mut cfg = exec::Cfg {
        params: vec![],
        max_steps: 3_000_000_000,
        max_paths: 1_000_000,
        max_samples: 8,
        time_limit: 800.0,
        verbose: false,
        trace: false,
        itrace: std::env::var("TSYM_ITRACE").ok(),
        merge: true,
        max_viol: 12,
        seed: 1,
    };
    let mut inc = 4000;
    while let Some(x) = a.next() {
        match x.as_str() {
            "--params" => {
                cfg.params = a.next().unwrap().split(',').filter(|s| !s.is_empty()).map(|s| s.parse::<i128>().unwrap() as u64).collect()
            }
            "--out" => out = a.next(),
            "--time" => cfg.time_limit = a.next().unwrap().parse().unwrap(),
            "--steps" => cfg.max_steps = a.next().unwrap().parse().unwrap(),
            "--paths" => cfg.max_paths = a.next().unwrap().parse().unwrap(),
            "--samples" => cfg.max_samples = a.next().unwrap().parse().unwrap(),
            "--maxviol" => cfg.max_viol = a.next().unwrap().parse().unwrap(),
            "--seed" => cfg.seed = a.next().unwrap().parse().unwrap(),
            "--cross" => cross = a.next().unwrap().parse().unwrap(),
            "--inc" => inc = a.next().unwrap().parse().unwrap(),
            "--hard" => hard = a.next().unwrap().parse().unwrap(),
            "--dump" => dump = a.next(),
            "-v" => cfg.verbose = true,
            "--nomerge" => cfg.merge = false,
            "--trace" => cfg.trace = true,
            _ if file.is_none() => file = Some(x),
            _ => entry = Some(x),
        }
    }
    let file = file.expect("module");
    let entry = entry.expect("entry");
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(std::fs::read_to_string(&file).expect("read module"));
    let mut e = exec::Engine::new(&m, cfg);
    e.sol.cross_every = cross;
    e.sol.inc_timeout = inc;
    e.sol.hard_timeout = hard;
    if let Some(d) = dump {
        e.sol.dump = Some(std::fs::File::create(d).unwrap());
    }
    let r = e.run(&entry);
    let mut o = String::new();
    let _ = write!(o, "{{\"entry\":{},\"ok\":{},\"error\":{}", js(&entry), r.is_ok(), js(r.as_ref().err().map(|s| s.as_str()).unwrap_or("")));
    let _ = write!(
        o,
        ",\"paths\":{},\"killed\":{},\"forks\":{},\"insts\":{},\"asserts\":{},\"violations_total\":{}",
        e.paths, e.killed, e.forks, e.insts, e.asserts, e.viol_count
    );
    let st = &e.sol.stats;
    let _ = write!(
        o,
        ",\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"oneshot\":{},\"gave_up\":{},\"solver_time\":{:.3},\"max_query\":{:.3},\"cross_checked\":{},\"cache_hits\":{},\"rewritten\":{},\"merges\":{},\"terms\":{},\"time\":{:.3}",
        st.queries, st.sat, st.unsat, st.unknown, st.oneshot, st.gave_up, st.time, st.max_time, st.cross_checked, e.cache_hits, e.rewritten, e.merges, e.ts.nodes.len(), t0.elapsed().as_secs_f64()
    );
    let v: Vec<String> = e
        .viols
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"inputs\":{},\"obs\":{},\"stack\":[{}]}}",
                js(&v.kind),
                js(&v.msg),
                ins(&v.inputs),
                nums(&v.obs),
                v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let _ = write!(o, ",\"violations\":[{}],\"failed\":[{}]", v.join(","), e.failed.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    let v: Vec<String> = e.samples.iter().map(|v| format!("{{\"inputs\":{},\"obs\":{}}}", ins(&v.inputs), nums(&v.obs))).collect();
    let _ = write!(o, ",\"samples\":[{}]", v.join(","));
    let v: Vec<String> = e.reach.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect();
    let _ = write!(o, ",\"reach\":{{{}}}", v.join(","));
    // functions executed
    let mut hit: std::collections::BTreeMap<u32, (usize, usize)> = Default::default();
    for (&(f, _), _) in e.blk_hit.iter() {
        hit.entry(f).or_insert((0, 0)).0 += 1;
    }
    let mut fl = vec![];
    for (f, h) in hit {
        if let Some(func) = m.func(f) {
            fl.push(format!("[{},{},{}]", js(&func.name), h.0, func.blocks.len()));
        }
    }
    let _ = write!(o, ",\"functions\":[{}]}}", fl.join(","));
    match out {
        Some(p) => std::fs::write(p, o).expect("write result"),
        None => println!("{}", o),
    }
    if let Err(e) = r {
        eprintln!("tsym: {}", e);
        std::process::exit(2);
    }
}
