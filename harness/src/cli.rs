fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verif = std::env::var("WZMC_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
    let ps = props();
    let find = |id: &str| ps.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {id}"));
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let t = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            std::process::exit(check(find(&a[2]), tier(&t), &verif));
        }
        Some("worker") => {
            worker(find(&a[2]), tier(&a[3]), a[4].parse().unwrap(), a[5].parse().unwrap(), &PathBuf::from(&a[6]), a[7].parse().unwrap(), a[8].parse().unwrap());
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            install_panic_hook();
            let p = find(v["property"].as_str().unwrap());
            let choices = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            let r = run_one(p, tier(v["tier"].as_str().unwrap()), v["family"].as_str().unwrap(), choices, true);
            let _ = std::fs::remove_dir_all(scratch());
            match r {
                Ok(()) => println!("holds"),
                Err(m) => {
                    println!("VIOLATION property={} replay={}\n  {m}", p.id, a[2]);
                    std::process::exit(1);
                }
            }
        }
        Some("list") => {
            for p in &ps {
                for f in (p.families)(Tier::Quick) {
                    println!("{} {}: {}", p.id, f.name, f.rule);
                }
            }
        }
        _ => eprintln!("usage: wzmc check <property> [quick|thorough] | replay <file> | list"),
    }
}
