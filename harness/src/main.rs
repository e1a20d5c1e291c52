mod dd;
mod p_int;
mod p_mem;
mod p_nodes;
mod p_par;
#[cfg(feature = "f_serde")]
mod p_serde;
mod p_struct;
mod p_value;
mod reference;
mod rules;
#[path = "../../traits/src/table.rs"]
mod traits;
mod util;
#[path = "../../bare/src/workload.rs"]
mod workload;

use util::*;

#[cfg(feature = "count_alloc")]
#[global_allocator]
static ALLOC: p_mem::counting::Counting = p_mem::counting::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = args.get(1).cloned().unwrap_or_default();
    if prop == "child-construct" {
        let num = |i: usize| args[i].parse::<usize>().expect("number");
        return p_struct::child_construct(num(2), num(3));
    }
    if prop == "cold" {
        return p_value::cold(args[2].parse().expect("seed"));
    }
    if prop == "cost" {
        let num = |i: usize| args[i].parse::<usize>().expect("number");
        return p_mem::cost(num(2), &args[3], num(4), num(5));
    }
    if prop == "bare" {
        // The observations that the freestanding program should make.
        let num = |i: usize| args[i].parse::<u64>().expect("number");
        let mut out = String::new();
        let words: u64 = (num(3)..num(3) + num(4)).map(|i| workload::case(num(2), i, num(5) != 0, &mut out)).sum();
        print!("{out}");
        return println!("OBSERVED words {words}");
    }
    if prop == "miri" {
        install_panic_hook();
        return p_mem::miri(args[2].parse().expect("seed"), &args[3]);
    }
    install_panic_hook();
    let thorough = get("--tier").as_deref() == Some("thorough");
    let limit: u64 = get("--limit").and_then(|x| x.parse().ok()).unwrap_or(if thorough { 3600 } else { 240 });
    let ctx = Ctx {

        seed: get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1),
        thorough,
        threads: get("--threads").and_then(|x| x.parse().ok()).unwrap_or(8),
        scale: get("--scale").and_then(|x| x.parse().ok()).unwrap_or_else(|| {
            // Quick workloads fill about ten seconds.
            match prop.as_str() {
                _ if thorough => 1.0,
                "C02" | "C03" | "C09" | "C14" => 3.0,
                "C06" | "C10" | "C13" | "C20" => 5.0,
                "C16" | "C19" | "C21" => 12.0,
                "C12" => 8.0,
                _ => 1.0,
            }
        }),
        deadline: far_deadline(limit),
        only: get("--case").and_then(|c| {
            let (l, i) = c.rsplit_once('#')?;
            Some((l.to_string(), i.parse().ok()?))
        }),
        part: get("--part"),
        cpu_budget: get("--cpu-budget").and_then(|x| x.parse().ok()).unwrap_or(if thorough { 600.0 } else { 150.0 }),
        out: get("--out"),
    };
    if prop == "dump" {
        return std::fs::write(get("--out").expect("--out"), p_mem::dump(&ctx)).expect("write log");
    }
    let mut rep = Report::default();
    match prop.as_str() {
        "C01" => p_nodes::c01(&ctx, &mut rep),
        "C02" => p_nodes::c02(&ctx, &mut rep),
        "C03" => p_nodes::c03(&ctx, &mut rep),
        "C04" => p_nodes::c04(&ctx, &mut rep),
        "C05" => p_nodes::c05(&ctx, &mut rep),
        "C06" => p_int::c06(&ctx, &mut rep),
        "C07" => p_int::c07(&ctx, &mut rep),
        "C08" => p_int::c08(&ctx, &mut rep),
        "C09" => p_int::c09(&ctx, &mut rep),
        "C19" => p_int::c19(&ctx, &mut rep),
        "C14" => p_struct::c14(&ctx, &mut rep),
        "C16" => p_struct::c16(&ctx, &mut rep),
        "C11" => p_mem::c11(&ctx, &mut rep),
        "C18" => p_mem::c18(&ctx, &mut rep),
        "C12" => {
            p_value::c12(&ctx, &mut rep);
            #[cfg(feature = "f_serde")]
            p_serde::c12(&ctx, &mut rep);
        }
        #[cfg(feature = "f_serde")]
        "C15" => p_serde::c15(&ctx, &mut rep),
        "C13" => p_value::c13(&ctx, &mut rep),
        "C20" => p_value::c20(&ctx, &mut rep),
        "C10" => p_par::c10(&ctx, &mut rep),
        "C21" => p_par::c21(&ctx, &mut rep),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
    if ctx.wants("traits") {
        for (i, (_, ty, bound, has)) in traits::table().into_iter().filter(|r| r.0 == prop).enumerate() {
            rep.set_cur("traits", i);
            rep.add("traits", 1);
            rep.check(has, "missing-trait", || format!("{ty} does not implement {}", bound.trim_matches(['[', ']'])));
        }
    }
    rep.add("cpu_centiseconds", (cpu_time() * 100.0) as u64);
    let json = rep.to_json();
    match get("--out") {
        Some(f) => std::fs::write(&f, json).expect("write report"),
        None => println!("{json}"),
    }
}
