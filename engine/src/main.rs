mod exec;
mod expr;
mod ir;
mod z3;

use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nums(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn main() {
    let mut ll = String::new();
    let mut entry = String::new();
    let mut time = 600u64;
    let mut samples = 4usize;
    let mut max_steps = 2_000_000_000u64;
    let mut max_viol = 1usize;
    let mut max_paths = u64::MAX;
    let (mut shard, mut nshards) = (0u64, 1u64);
    let mut arg = 0u64;
    let mut dump = None;
    let mut concrete = None;
    let mut z3t = 60_000u32;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("argument value");
        match a.as_str() {
            "--ll" => ll = v(),
            "--entry" => entry = v(),
            "--time" => time = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--max-violations" => max_viol = v().parse().unwrap(),
            "--max-paths" => max_paths = v().parse().unwrap(),
            "--shard" => {
                let s = v();
                let (a, b) = s.split_once('/').unwrap();
                shard = a.parse().unwrap();
                nshards = b.parse().unwrap();
            }
            "--arg" => arg = v().parse().unwrap(),
            "--dump" => dump = Some(v()),
            "--z3-timeout" => z3t = v().parse().unwrap(),
            "--concrete" => concrete = Some(v().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect::<Vec<u64>>()),
            _ => panic!("argument {}", a),
        }
    }
    let t0 = Instant::now();
    let m = match ir::Module::load(&ll) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("ENGINE-ERROR {}", e);
            std::process::exit(3);
        }
    };
    let load_s = t0.elapsed().as_secs_f64();
    let lim = exec::Limits {
        max_steps_path: max_steps,
        deadline: Instant::now() + Duration::from_secs(time),
        max_violations: max_viol,
        max_paths,
        samples,
        shard,
        nshards,
        arg,
    };
    let mut e = exec::Engine::new(m, lim, z3t);
    e.concrete = concrete;
    if let Some(d) = dump {
        e.z.dump = Some(std::io::BufWriter::new(std::fs::File::create(d).unwrap()));
    }
    let r = e.run(&entry);
    if let Err(s) = &r {
        e.errors.push(s.clone());
    }
    let mut o = String::new();
    o.push_str("{");
    o.push_str(&format!("\"entry\":{},\"shard\":\"{}/{}\",\"complete\":{},", js(&entry), shard, nshards, e.complete && e.errors.is_empty()));
    let s = &e.stats;
    o.push_str(&format!(
        "\"paths\":{},\"infeasible\":{},\"panics\":{},\"forks\":{},\"steps\":{},\"max_steps\":{},\"max_vars\":{},\"checks_concrete\":{},\"checks_symbolic\":{},\"branch_sym\":{},\"cache_hits\":{},\"renamed_hits\":{},",
        s.paths, s.infeasible, s.panics, s.forks, s.steps, s.max_steps, s.max_vars, s.checks_concrete, s.checks_symbolic, s.branch_sym, s.cache_hits, s.alpha_hits
    ));
    o.push_str(&format!(
        "\"z3_version\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"dumped\":{},\"load_s\":{:.2},\"wall_s\":{:.2},",
        js(&z3::version()),
        e.z.queries,
        e.z.sat,
        e.z.unsat,
        e.z.time_ns as f64 / 1e9,
        e.z.max_ns as f64 / 1e9,
        e.z.dumped,
        load_s,
        t0.elapsed().as_secs_f64()
    ));
    o.push_str(&format!(
        "\"reached\":{{{}}},",
        e.reached.iter().map(|(k, n)| format!("\"{}\":{}", k, n)).collect::<Vec<_>>().join(",")
    ));
    o.push_str(&format!("\"errors\":[{}],", e.errors.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    for (name, list) in [("violations", &e.violations), ("lost", &e.lost)] {
        o.push_str(&format!(
            "\"{}\":[{}],",
            name,
            list.iter()
                .map(|v| format!(
                    "{{\"kind\":{},\"code\":{},\"vars\":{},\"text\":{},\"stack\":[{}]}}",
                    js(&v.kind),
                    v.code,
                    nums(&v.vars),
                    nums(&v.text.iter().map(|x| *x as u64).collect::<Vec<_>>()),
                    v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
                ))
                .collect::<Vec<_>>()
                .join(",")
        ));
    }
    o.push_str(&format!("\"pending\":{},", e.pending));
    o.push_str(&format!("\"globals_written\":[{}],", e.globals_written.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!(
        "\"samples\":[{}],",
        e.samples
            .iter()
            .map(|v| format!("{{\"vars\":{},\"outs\":{},\"text\":{}}}", nums(&v.vars), nums(&v.outs), nums(&v.text.iter().map(|x| *x as u64).collect::<Vec<_>>())))
            .collect::<Vec<_>>()
            .join(",")
    ));
    o.push_str(&format!(
        "\"functions\":[{}]",
        e.funcs_run.iter().map(|f| js(&e.m.funcs[*f as usize].name)).collect::<Vec<_>>().join(",")
    ));
    o.push_str("}");
    println!("{}", o);
    std::process::exit(if !e.errors.is_empty() {
        3
    } else if !e.violations.is_empty() {
        1
    } else {
        0
    });
}
