mod arena;
mod cap;
mod common;
mod hist;
mod life;
mod lit;
mod prog;
mod tm;
use common::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    init_panic_hook();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    match a.get(1).map(|s| s.as_str()) {
        // development aid: reference meaning of random lines, and decoding of given bytes
        Some("spec-dump") => tm::spec_dump(a[2].parse().unwrap()),
        Some("decode") => {
            for l in std::io::stdin().lines() {
                let l = l.unwrap();
                let b: Vec<u8> = (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect();
                match oracle::decode::decode(&b) {
                    Ok((i, n)) if n == b.len() => println!("{}", oracle::inst::canon(&i)),
                    Ok((i, n)) => println!("BADLEN {n} {i}"),
                    Err(e) => println!("BAD {e:?}"),
                }
            }
        }
        Some("count") => println!("{}", tmpl::TEMPLATES.len()),
        Some("check") => {
            let cfg = Cfg {
                prop: a[2].clone(),
                seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                tier: match opt("--tier").as_deref() {
                    Some("thorough") => Tier::Thorough,
                    Some("smoke") => Tier::Smoke,
                    _ => Tier::Quick,
                },
                threads: opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
                dir: opt("--dir").expect("--dir"),
            };
            std::fs::create_dir_all(&cfg.dir).unwrap();
            init_crumbs(&format!("{}/crumbs", cfg.dir));
            let mut rules = vec![];
            let mut rep = Report::default();
            let p = cfg.prop.as_str();
            if ["C01", "C02", "C03", "C04", "C05", "C13"].contains(&p) {
                rep.merge(tm::check(&cfg));
                rules.push(tm::rule(p).to_string());
            }
            if hist::PROPS.contains(&p) {
                rep.merge(hist::check(&cfg));
                rules.push(hist::rule(p).to_string());
            }
            if prog::PROPS.contains(&p) {
                rep.merge(prog::check(&cfg));
                rules.push(prog::rule(p).to_string());
            }
            if cap::PROPS.contains(&p) {
                rep.merge(cap::check(&cfg));
                rules.push(cap::rule(p).to_string());
            }
            if life::PROPS.contains(&p) {
                rep.merge(life::check(&cfg));
                rules.push(life::rule(p).to_string());
            }
            let release = opt("--build").as_deref() == Some("release");
            if lit::PROPS.contains(&p) && (!release || cfg.tier == Tier::Thorough || p == "C13") {
                rep.merge(lit::check(&cfg, release));
                rules.push(lit::rule(p).to_string());
            }
            let mut j = rep.to_json();
            j["rules"] = serde_json::json!(rules);
            std::fs::write(format!("{}/result.json", cfg.dir), serde_json::to_string(&j).unwrap()).unwrap();
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let r = &v["replay"];
            let res = match r["check"].as_str().unwrap_or("") {
                "template" => tm::replay(r),
                "history" => hist::replay(r),
                "program" => prog::replay(r),
                "capacity" => cap::replay(r),
                "lifetime" => life::replay(r),
                "source" => lit::replay(r, &format!("{}.d", a[2])),
                o => {
                    eprintln!("unknown replay kind {o}");
                    std::process::exit(2)
                }
            };
            match res {
                Ok(()) => println!("holds"),
                Err(e) => {
                    println!("FAILS: {e}");
                    std::process::exit(1)
                }
            }
        }
        _ => {
            eprintln!("usage: vh check PROP --seed N --tier T --dir D | replay FILE");
            std::process::exit(2)
        }
    }
}
