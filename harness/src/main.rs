//! conform run <property> <quick|thorough> <seed> <replay-path>   -> JSON summary on stdout
//! conform replay <file>                                          -> re-runs the recorded case
mod gram;
mod par;
mod re;
mod tok;
mod util;
use serde_json::{json, Value};
use std::time::{Duration, Instant};
use util::*;

fn check(prop: &str, case: &Value) -> CaseResult {
    if prop < "C08" {
        tok::check(prop, case)
    } else {
        par::check(prop, case)
    }
}
fn gen(prop: &str, seed: u64, i: u64, thorough: bool) -> Value {
    if prop < "C08" {
        tok::gen(prop, seed, i, thorough)
    } else {
        par::gen(prop, seed, i, thorough)
    }
}

fn shrink(prop: &str, case: &Value, msg: &str) -> (Value, String) {
    // greedy: drop patterns, rules, input characters, table rows as long as it still fails
    let mut cur = case.clone();
    let mut m = msg.to_string();
    let t0 = Instant::now();
    loop {
        let mut cands: Vec<Value> = vec![];
        if let Some(p) = cur["patterns"].as_array() {
            if p.len() > 1 {
                for i in 0..p.len() {
                    let mut c = cur.clone();
                    c["patterns"].as_array_mut().unwrap().remove(i);
                    cands.push(c);
                }
            }
        }
        if let Some(s) = cur["input"].as_str() {
            let cs: Vec<char> = s.chars().collect();
            for i in 0..cs.len() {
                let mut d = cs.clone();
                d.remove(i);
                let mut c = cur.clone();
                c["input"] = json!(d.into_iter().collect::<String>());
                cands.push(c);
            }
        }
        if let Some(rs) = cur["grammar"]["rules"].as_array() {
            for i in 0..rs.len() {
                let l = &rs[i][0];
                let used = format!("\"N{}\"", l);
                let more = rs.iter().enumerate().any(|(j, r)| j != i && &r[0] == l);
                let mut c = cur.clone();
                c["grammar"]["rules"].as_array_mut().unwrap().remove(i);
                if more || (!c["grammar"]["rules"].to_string().contains(&used) && &cur["grammar"]["start"] != l) {
                    cands.push(c);
                }
                for k in 0..rs[i][1].as_array().unwrap().len() {
                    let mut c = cur.clone();
                    c["grammar"]["rules"][i][1].as_array_mut().unwrap().remove(k);
                    cands.push(c);
                }
            }
        }
        let mut done = true;
        for c in cands {
            if t0.elapsed() > Duration::from_secs(15) {
                return (cur, m);
            }
            if let Err(e) = no_panic(|| check(prop, &c)).unwrap_or_else(Err) {
                cur = c;
                m = e;
                done = false;
                break;
            }
        }
        if done {
            return (cur, m);
        }
    }
}

fn write_replay(path: &str, prop: &str, case: &Value, msg: &str) {
    let v = json!({"property": prop, "case": case, "message": msg, "how_to_replay": "bash /verif/run_check.sh replay <this file>"});
    let _ = std::fs::write(path, serde_json::to_string_pretty(&v).unwrap() + "\n");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        "run" => {
            let (prop, tier, seed, path) = (a[2].clone(), a[3].clone(), a[4].parse::<u64>().unwrap_or(1), a[5].clone());
            let thorough = tier == "thorough";
            // number of cases; the deadline only guards against a slow machine
            let base: u64 = match prop.as_str() {
                "C01" | "C02" | "C03" => 200_000,
                "C04" => 60_000,
                "C05" => 30_000,
                "C06" => 60_000,
                "C07" => 100_000,
                "C08" => 20_000,
                "C09" => 30_000,
                "C10" => 100_000,
                "C11" => 30_000,
                "C12" => 30_000,
                _ => 20_000,
            };
            let mult: u64 = a.get(6).and_then(|x| x.parse().ok()).unwrap_or(if thorough { 20 } else { 1 });
            let dl = Duration::from_secs(if thorough { 600 } else { 100 });
            {
                let (prop, path) = (prop.clone(), path.clone());
                start_watchdog(Duration::from_secs(60), 12 << 30, move |case, why| {
                    let c: Value = serde_json::from_str(&case).unwrap_or(Value::Null);
                    write_replay(&path, &prop, &c, why);
                    println!("{}", json!({"evaluations": 1, "nontrivial": 1, "skipped": 0, "samples": [], "failures": [{"case": c, "message": why}]}));
                    std::process::exit(0);
                });
            }
            let t0 = Instant::now();
            let threads = std::thread::available_parallelism().map_or(4, |x| x.get()).min(8);
            let o = run_pool(base * mult, dl, threads, |i| gen(&prop, seed, i, thorough), |c| check(&prop, c));
            let mut fs = vec![];
            for (c, m) in o.failures.iter().take(1) {
                mark(0, Some(c.to_string()));
                let (c, m) = shrink(&prop, c, m);
                write_replay(&path, &prop, &c, &m);
                fs.push(json!({"case": c, "message": m}));
            }
            let known = if prop == "C04" { tok::known_empty_expression() } else { false };
            println!("{}", json!({"evaluations": o.evaluations, "nontrivial": o.nontrivial, "skipped": o.skipped, "samples": o.samples, "failures": fs, "known_empty": known, "wall_s": t0.elapsed().as_secs_f64()}));
        }
        "replay" => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let prop = v["property"].as_str().unwrap().to_string();
            start_watchdog(Duration::from_secs(60), 12 << 30, move |_, why| {
                println!("FAILS: {}", why);
                std::process::exit(1);
            });
            mark(0, Some(v["case"].to_string()));
            for _ in 0..if v["case"]["patterns"].is_array() { 2000 } else { 20 } {
                if let Err(e) = no_panic(|| check(&prop, &v["case"])).unwrap_or_else(Err) {
                    println!("FAILS: {}", e);
                    std::process::exit(1);
                }
                mark(0, Some(v["case"].to_string()));
            }
            println!("holds on this case");
        }
        "gen" => {
            for i in 0..a[3].parse::<u64>().unwrap() {
                println!("{}", gen(&a[2], 1, i, false));
            }
        }
        _ => std::process::exit(2),
    }
}
