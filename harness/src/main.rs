//! worker: runs one property.
//!
//!   worker run <ID> --seed S --count N [--from I] [--threads T] [--tier quick|thorough]
//!          [--out summary.json] [--progress FILE] [--known FILE] [--replay-dir DIR]
//!          [--profile NAME] [--max-secs N] [--skip i,j]
//!   worker one <ID> --seed S --index I [--tier ..] [--record FILE]
//!   worker replay FILE
//!   worker list
//!
//! Exit: 0 held, 1 violated, 2 harness error, 3 a case did not end.

use claxon_verif::engine::*;
use claxon_verif::props;
use claxon_verif::src::Src;
use std::collections::HashMap;
use std::fs;
use std::io::Write;
use std::time::Duration;

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut pos = Vec::new();
    let mut i = 1;
    while i < args.len() {
        if args[i].starts_with("--") {
            opt.insert(args[i][2..].to_string(), args.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            pos.push(args[i].clone());
            i += 1;
        }
    }
    let num = |k: &str, d: u64| -> u64 { opt.get(k).map(|v| v.parse().expect(k)).unwrap_or(d) };
    let thorough = opt.get("tier").map(|t| t == "thorough").unwrap_or(false);
    let find = |id: &str| -> &'static Prop {
        match props::ALL.iter().find(|p| p.id == id) {
            Some(p) => p,
            None => {
                eprintln!("no property {}", id);
                std::process::exit(2)
            }
        }
    };
    match pos.get(0).map(|s| &s[..]) {
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
        }
        Some("one") => {
            let p = find(&pos[1]);
            let mut s = Src::random(case_seed(num("seed", 1), p.id, num("index", 0)));
            if let Some(f) = opt.get("record") {
                s.rec_file = Some(fs::File::create(f).expect("record file"));
            }
            let mut c = Ctx::new(true, thorough);
            let o = run_case(p, &mut s, &mut c);
            finish_one(o, &c);
        }
        // A process of its own for the first use of the library (C24f).
        Some("first") => {
            if let Err(m) = props::c24f::first(pos[1].parse().expect("seed")) {
                println!("{}", m);
                std::process::exit(1);
            }
        }
        // The same in another build (C28).
        Some("serve") => claxon_verif::other::serve(&props::c28::answer),
        // Workloads to be counted (C27).
        Some("cost") => {
            let list: Vec<usize> = pos[2].split(',').map(|x| x.parse().expect("workload")).collect();
            props::c27::child(pos[1].parse().expect("seed"), &list);
        }
        Some("replay") => {
            let text = fs::read_to_string(&pos[1]).expect("replay file");
            let mut id = String::new();
            let mut choices = Vec::new();
            let mut thorough = thorough;
            for l in text.lines() {
                if let Some(r) = l.strip_prefix("property ") { id = r.trim().to_string(); }
                if l.trim() == "tier thorough" { thorough = true; }
                if let Some(r) = l.strip_prefix("choices") {
                    choices = r.split_whitespace().map(|x| x.parse().expect("choice")).collect();
                }
            }
            let p = find(&id);
            let mut s = Src::replay(&choices);
            let mut c = Ctx::new(true, thorough);
            let o = run_case(p, &mut s, &mut c);
            finish_one(o, &c);
        }
        Some("run") => {
            let p = find(&pos[1]);
            let known = opt.get("known").map(|f| fs::read_to_string(f).unwrap_or_default()).unwrap_or_default();
            let pre = format!("known: property={} sig=", p.id);
            let known: Vec<String> = known.lines().filter_map(|l| l.strip_prefix(&pre[..]))
                .map(|r| r.split_whitespace().next().unwrap_or("").to_string()).collect();
            let cfg = RunCfg {
                seed: num("seed", 1),
                from: num("from", 0),
                count: num("count", 1000),
                threads: num("threads", 8) as usize,
                thorough,
                progress: opt.get("progress").cloned(),
                found: opt.get("found").cloned(),
                known,
                max_time: opt.get("max-secs").map(|v| Duration::from_secs(v.parse().unwrap())),
                case_limit: Duration::from_secs(num("case-secs", 120)),
                skip: opt.get("skip").map(|v| v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default(),
            };
            let t0 = std::time::Instant::now();
            let (st, found) = match run(p, &cfg) {
                RunResult::Broken(m) => {
                    eprintln!("ERROR: {}", m);
                    std::process::exit(2);
                }
                RunResult::Held(st) => (st, None),
                RunResult::Violated(st, f) => (st, Some(f)),
            };
            let mut replay = String::new();
            if let Some(ref f) = found {
                let dir = opt.get("replay-dir").cloned().unwrap_or_else(|| ".".into());
                let _ = fs::create_dir_all(&dir);
                let prof = opt.get("profile").cloned().unwrap_or_default();
                replay = format!("{}/{}-{}-{}-{}.replay", dir, p.id, prof, cfg.seed, f.index);
                let mut o = fs::File::create(&replay).expect("replay file");
                writeln!(o, "property {}", p.id).unwrap();
                writeln!(o, "profile {}", prof).unwrap();
                writeln!(o, "tier {}", if thorough { "thorough" } else { "quick" }).unwrap();
                writeln!(o, "seed {} index {}", cfg.seed, f.index).unwrap();
                writeln!(o, "signature {}", f.fail.sig).unwrap();
                writeln!(o, "message {}", f.fail.msg.replace('\n', " ")).unwrap();
                writeln!(o, "case {}", f.desc.replace('\n', " ")).unwrap();
                writeln!(o, "shrunk from {} to {} choices in {} runs", f.orig_len, f.choices.len(), f.shrinks).unwrap();
                let c: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
                writeln!(o, "choices {}", c.join(" ")).unwrap();
                println!("FAIL sig={} case={} replay={}", f.fail.sig, f.index, replay);
                println!("  {}", f.fail.msg);
                println!("  {:.600}", f.desc);
            }
            for (k, v) in &st.known {
                println!("KNOWN sig={} times={} first={} {}", k, v.0, v.1, v.2);
            }
            let mut j = String::from("{");
            j += &format!("\"property\":{},\"evaluations\":{},\"runs\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},",
                          jstr(p.id), st.evaluations, st.runs, st.nontrivial, st.distinct.len());
            j += &format!("\"rule\":{},\"wall_s\":{:.3},", jstr(p.rule), t0.elapsed().as_secs_f64());
            let ls: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
            j += &format!("\"labels\":{{{}}},", ls.join(","));
            let ss: Vec<String> = st.samples.iter().take(8).map(|(i, d)| format!("{{\"case\":{},\"input\":{}}}", i, jstr(d))).collect();
            j += &format!("\"samples\":[{}],", ss.join(","));
            let ks: Vec<String> = st.known.iter().map(|(k, v)| format!("{{\"sig\":{},\"times\":{},\"msg\":{}}}", jstr(k), v.0, jstr(&v.2))).collect();
            j += &format!("\"known\":[{}],", ks.join(","));
            match found {
                Some(ref f) => j += &format!("\"fail\":{{\"sig\":{},\"msg\":{},\"replay\":{},\"index\":{}}}", jstr(&f.fail.sig), jstr(&f.fail.msg), jstr(&replay), f.index),
                None => j += "\"fail\":null",
            }
            j += "}";
            if let Some(o) = opt.get("out") {
                fs::write(o, &j).expect("summary");
            } else {
                println!("{}", j);
            }
            std::process::exit(if found.is_some() { 1 } else { 0 });
        }
        // Valid streams and the audio they encode, for other decoders to check.
        Some("dump") => {
            use claxon_verif::gen::*;
            let dir = &pos[1];
            for i in 0..num("count", 100) {
                let mut s = Src::random(case_seed(num("seed", 1), "dump", i));
                let mut st = gen_stream(&mut s, &StreamOpts { min_frames: 1, from_zero: true, big_per_mille: 20, extra_meta: false, ..StreamOpts::default() });
                st.info.md5 = [0; 16];
                st.blocks[0] = claxon_verif::meta::MBlock::info(&st.info);
                let st = assemble(st.info, st.blocks, st.frames, st.fixed_bs);
                // The reference decoder wants a residual in every partition.
                let odd = st.frames.iter().any(|f| f.spec.subs.iter().any(|x| match x.body {
                    Body::Pred { ref warm, ref res, .. } => f.bs >> res.porder == warm.len(),
                    _ => false,
                }));
                if odd { continue; }
                let mut raw = Vec::new();
                for f in &st.frames {
                    for v in f.interleaved() { raw.extend_from_slice(&v.to_le_bytes()); }
                }
                fs::write(format!("{}/{}.bps", dir, i), st.info.bps.to_string()).expect("dump");
                fs::write(format!("{}/{}.flac", dir, i), &st.bytes).expect("dump");
                fs::write(format!("{}/{}.raw", dir, i), &raw).expect("dump");
                fs::write(format!("{}/{}.txt", dir, i), st.describe()).expect("dump");
            }
        }
        _ => {
            eprintln!("usage: worker run|one|replay|dump|list");
            std::process::exit(2);
        }
    }
}

fn finish_one(o: Outcome, c: &Ctx) {
    println!("case: {}", c.desc);
    match o {
        Outcome::Ok => {
            println!("held");
        }
        Outcome::Fail(f) => {
            println!("FAIL sig={} {}", f.sig, f.msg);
            std::process::exit(1);
        }
        Outcome::Bug(m) => {
            println!("ERROR {}", m);
            std::process::exit(2);
        }
    }
}
