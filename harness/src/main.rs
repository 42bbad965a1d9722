//! Executable form of the contracts: the bounded stand-in, and the replay of failed obligations on the real code.
mod ctx;
mod gen;
mod model;
mod props_a;
mod props_b;
mod regexgen;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage: vh PROP SEED quick|thorough BUDGET_S OUT.json [TRACE] [KNOWN]");
        std::process::exit(2);
    }
    ctx::install_hook();
    let mut c = ctx::Ctx::new(&a[1], a[2].parse().unwrap(), a[3] == "thorough", &a[5], a.get(6).filter(|s| !s.is_empty()).cloned(), a[4].parse().unwrap());
    if let Some(k) = a.get(7) {
        // lines: property \t pattern \t what
        for l in std::fs::read_to_string(k).unwrap_or_default().lines() {
            let f: Vec<&str> = l.split('\t').collect();
            if f.len() == 3 && f[0] == a[1] {
                c.known.push((f[1].into(), f[2].into()));
            }
        }
    }
    // deep recursion on deep inputs is legitimate: run on a large stack
    let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || {
        ctx::install_hook();
        let rounds: u64 = std::env::var("VH_ROUNDS").ok().and_then(|r| r.parse().ok()).unwrap_or(1);
        let seed = c.seed;
        for round in 0..rounds {
            if round > 0 && !c.time_left() {
                break;
            }
            c.seed = seed.wrapping_add(round.wrapping_mul(7919));
            c.rounds = round + 1;
            match c.prop.as_str() {
            "C01" => props_a::c01(&mut c),
            "C02" => props_a::c02(&mut c),
            "C03" => props_a::c03(&mut c),
            "C04" => props_a::c04(&mut c),
            "C05" => props_a::c05(&mut c),
            "C06" => props_a::c06(&mut c),
            "C07" => props_a::c07(&mut c),
            "C08" => props_a::c08(&mut c),
            "C09" => props_a::c09(&mut c),
            "C10" => props_a::c10(&mut c),
            "C11" => props_a::c11(&mut c),
            "C12" => props_b::c12(&mut c),
            "C13" => props_b::c13(&mut c),
            "C14" => props_b::c14(&mut c),
            "C15" => props_b::c15(&mut c),
            "C16" => props_b::c16(&mut c),
            "C17" => props_b::c17(&mut c),
            "C18" => props_b::c18(&mut c),
            "C19" => props_b::c19(&mut c),
            "C20" => props_a::c20(&mut c),
            "C21" => props_a::c21(&mut c),
            "C22" => props_a::c22(&mut c),
            p => {
                eprintln!("unknown property {p}");
                std::process::exit(2);
            }
            }
        }
        c.finish();
        println!("{} rounds, {} evaluations, {} distinct, {:.1} s", c.rounds, c.evals, c.distinct.len(), c.started.elapsed().as_secs_f32());
        for (p, n) in &c.phases {
            println!("  {n:7} {p}");
        }
        for f in &c.findings {
            println!("finding: {f}");
        }
    });
    if h.unwrap().join().is_err() {
        std::process::exit(4);
    }
}
