use std::io::Write;
use vvh::engine::*;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().cloned().unwrap_or_default();
    let props = vvh::props();
    match cmd.as_str() {
        "list" => {
            for p in &props {
                println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
            }
        }
        "run" | "case" => {
            let id = arg(&args, "--prop").expect("--prop");
            let p = props.iter().find(|p| p.id == id).expect("unknown property");
            let config = arg(&args, "--config").unwrap_or_default();
            let seed: u64 = arg(&args, "--seed").map_or(1, |s| s.parse().expect("seed"));
            if cmd == "case" {
                let sub = arg(&args, "--sub").expect("--sub");
                let idx: u64 = arg(&args, "--index").expect("--index").parse().unwrap();
                let s = p.subs.iter().find(|s| s.name == sub).expect("unknown sub-check");
                let mut src = make_src(s, seed, p.id, idx);
                let mut ctx = Ctx { want_note: true, ..Default::default() };
                let r = guarded(|| (s.f)(&mut src, &mut ctx)).and_then(|r| r);
                println!("{}", ctx.note);
                println!("digest {:016x}", ctx.digest);
                println!("tape {}", serde_json::json!(src.into_tape()));
                match r {
                    Ok(()) => println!("ok"),
                    Err(m) => {
                        println!("FAIL {m}");
                        std::process::exit(1);
                    }
                }
                return;
            }
            let o = RunOpts {
                thorough: arg(&args, "--tier").as_deref() == Some("thorough"),
                seed,
                config: config.clone(),
                only_sub: arg(&args, "--sub"),
                scale: arg(&args, "--scale").map_or(1.0, |s| s.parse().unwrap()),
                threads: arg(&args, "--threads").map_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()), |s| s.parse().unwrap()),
                journal: arg(&args, "--journal").map(|p| std::fs::File::create(p).expect("journal")),
                digests: args.iter().any(|a| a == "--digests"),
                budget: arg(&args, "--budget").map_or(1e9, |s| s.parse().unwrap()),
                max_failures: arg(&args, "--max-failures").map_or(1, |s| s.parse().unwrap()),
            };
            let t = std::time::Instant::now();
            let rep = run_prop(p, &o);
            let failures: Vec<_> = rep
                .failures
                .iter()
                .map(|f| {
                    serde_json::json!({"property": p.id, "sub": f.sub, "config": config, "seed": seed, "index": f.index,
                        "message": f.msg, "input": f.note, "tape": f.tape})
                })
                .collect();
            let out = serde_json::json!({
                "property": p.id, "config": config, "seed": seed,
                "evaluations": rep.evaluations, "distinct": rep.hashes.len(), "rule": p.rule,
                "per_sub": rep.per_sub.iter().map(|(n, e, d)| serde_json::json!({"sub": n, "evaluations": e, "distinct_nontrivial": d})).collect::<Vec<_>>(),
                "labels": rep.labels, "samples": rep.samples.iter().map(|(n, s)| serde_json::json!({"case": n, "input": s})).collect::<Vec<_>>(),
                "failures": failures, "wall_s": t.elapsed().as_secs_f64(),
            });
            if let Some(p) = arg(&args, "--hashes") {
                let mut f = std::io::BufWriter::new(std::fs::File::create(p).unwrap());
                for h in &rep.hashes {
                    f.write_all(&h.to_le_bytes()).unwrap();
                }
            }
            if let Some(p) = arg(&args, "--digest-out") {
                let mut f = std::io::BufWriter::new(std::fs::File::create(p).unwrap());
                for (sub, i, h) in &rep.digest {
                    writeln!(f, "{sub} {i} {h:016x}").unwrap();
                }
            }
            match arg(&args, "--out") {
                Some(p) => std::fs::write(p, serde_json::to_string_pretty(&out).unwrap()).unwrap(),
                None => println!("{}", serde_json::to_string_pretty(&out).unwrap()),
            }
            if !rep.failures.is_empty() {
                std::process::exit(1);
            }
        }
        // number of distinct hashes in several sorted files
        "union" => {
            let mut all: Vec<u64> = Vec::new();
            for f in &args[1..] {
                let b = std::fs::read(f).unwrap();
                all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
            all.sort_unstable();
            all.dedup();
            println!("{}", all.len());
        }
        // digest of what one case observes, from its tape
        "digest" => {
            let f = args.get(1).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
            let p = props.iter().find(|p| p.id == v["property"]).expect("unknown property");
            let s = p.subs.iter().find(|s| s.name == v["sub"]).expect("unknown sub-check");
            let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let (r, t, c) = run_tape(s.f, &tape, true);
            println!("{}", serde_json::json!({"tape": t, "digest": format!("{:016x}", c.digest), "input": c.note, "error": r.err()}));
        }
        "replay" => {
            let f = args.get(1).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
            let p = props.iter().find(|p| p.id == v["property"]).expect("unknown property");
            let s = p.subs.iter().find(|s| s.name == v["sub"]).expect("unknown sub-check");
            let r = if let Some(t) = v["tape"].as_array() {
                let tape: Vec<u64> = t.iter().map(|x| x.as_u64().unwrap()).collect();
                let (r, _, c) = run_tape(s.f, &tape, true);
                println!("{}", c.note);
                r
            } else {
                let mut src = make_src(s, v["seed"].as_u64().unwrap(), p.id, v["index"].as_u64().unwrap());
                let mut ctx = Ctx { want_note: true, ..Default::default() };
                guarded(|| (s.f)(&mut src, &mut ctx)).and_then(|r| r)
            };
            match r {
                Ok(()) => println!("ok: does not fail here"),
                Err(m) => {
                    println!("FAIL {m}");
                    std::process::exit(1);
                }
            }
        }
        _ => {
            eprintln!("usage: vvh list | run --prop ID [--tier T] [--seed N] [--config C] | case ... | replay FILE");
            std::process::exit(2);
        }
    }
}
