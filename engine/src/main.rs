mod exec;
mod ext;
mod ir;
mod mem;
mod solver;
mod term;

use std::rc::Rc;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut lls = vec![];
    let mut cfg = exec::Cfg::default();
    let mut entry = String::new();
    let mut out = String::new();
    let mut i = 0;
    while i < args.len() {
        let a = args[i].as_str();
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match a {
            "--ll" => lls.push(v),
            "--entry" => entry = v,
            "--out" => out = v,
            "--fp" => cfg.exact_fp = v == "exact",
            "--time" => cfg.time_limit = v.parse().unwrap(),
            "--steps" => cfg.path_steps = v.parse().unwrap(),
            "--qtimeout" => cfg.qtimeout = v.parse().unwrap(),
            "--solver" => cfg.solver = v.split(' ').map(|s| s.to_string()).collect(),
            "--slice" => {
                let (a, b) = v.split_once('/').unwrap();
                cfg.slice = Some((a.parse().unwrap(), b.parse().unwrap()));
            }
            "--smtlog" => cfg.smtlog = Some(v),
            "--tier" => cfg.tier = v.parse().unwrap(),
            "--skip" => cfg.skip = v.split(',').filter_map(|s| s.parse().ok()).collect(),
            _ => {
                eprintln!("unknown arg {}", a);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    let mut mods = vec![];
    for l in &lls {
        let text = std::fs::read_to_string(l).expect("read ll");
        mods.push(ir::Module::index(Rc::from(text)));
    }
    let mut e = exec::Exec::new(mods, cfg);
    let st = e.run(&entry);
    let json = e.report(&entry, &st);
    if out.is_empty() {
        println!("{}", json);
    } else {
        std::fs::write(&out, &json).unwrap();
    }
    e.kill();
    std::process::exit(match st.as_str() {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    });
}
