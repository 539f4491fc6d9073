//! Evaluates the contracts stated in /verif/contracts on the compiled crate.
//! usage: fc-harness <property number> [--tier quick|thorough] [--seed n] [--secs n] [--only case]
mod analyzers;
mod ctx;
mod gen;
mod maps;
mod sets;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop: u8 = a[1].trim_start_matches('C').parse().unwrap();
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let seed: u64 = opt("--seed").map_or(1, |s| s.parse().unwrap());
    let secs: u64 = opt("--secs").map_or(120, |s| s.parse().unwrap());
    ctx::install();
    let mut c = ctx::Ctx::new(opt("--only"), thorough, seed, secs);
    if let Some(s) = opt("--shard") {
        let (a, b) = s.split_once('/').unwrap();
        c.shard = (a.parse().unwrap(), b.parse().unwrap());
    }
    let c = &mut c;
    if !thorough { c.thin = match prop { 14 | 16 => 6, 19 | 7 | 6 | 23 => 3, _ => 1 }; }
    #[cfg(feature = "rel")]
    match prop {
        5 => { maps::ranges(c, 5); sets::ranges(c, 5); }
        15 => { maps::capacity(c); sets::capacity(c); }
        _ => {}
    }
    #[cfg(not(feature = "rel"))]
    match prop {
        1 => maps::frozen(c, 1),
        2 => sets::frozen(c, 2),
        3 => { maps::common(c, 3); maps::integer(c, 3); maps::length(c, 3); maps::borrowed(c, 3); sets::common(c, 3); sets::integer(c, 3); sets::length(c, 3); }
        4 => { maps::slices(c, 4); maps::borrowed(c, 4); sets::slices(c, 4); }
        5 => { maps::scanning(c, 5); maps::ranges(c, 5); maps::borrowed(c, 5); sets::scanning(c, 5); sets::ranges(c, 5); }
        6 | 7 | 8 | 19 => { maps::frozen(c, prop); allmaps(c, prop); }
        9 => { sets::frozen(c, 9); allsets(c, 9); }
        10 => { sets::pairs(c, 10); allmaps(c, 10); allsets(c, 10); maps::frozen(c, 10); sets::frozen(c, 10); }
        11 | 12 | 13 => sets::pairs(c, prop),
        14 => { sets::pairs(c, 14); allmaps(c, 14); allsets(c, 14); maps::frozen(c, 14); sets::frozen(c, 14); }
        15 => { maps::capacity(c); sets::capacity(c); maps::frozen(c, 15); sets::frozen(c, 15); allmaps(c, 15); allsets(c, 15); }
        16 => { analyzers::slices_beyond(c); maps::unlawful(c); maps::frozen(c, 16); allmaps(c, 16); sets::frozen(c, 16); allsets(c, 16); }
        #[cfg(frozen_verif)]
        17 => analyzers::keys(c),
        #[cfg(frozen_verif)]
        18 => analyzers::sizing(c),
        20 => { maps::ctors(c); sets::ctors(c); }
        21 => analyzers::lens(c),
        23 => { maps::frozen(c, 23); allmaps(c, 23); sets::frozen(c, 23); allsets(c, 23); sets::pairs(c, 23); }
        _ => panic!("no such property"),
    }
    println!("RESULT evals={} nontrivial={} stopped={}", c.evals, c.nontrivial, c.stopped);
    for s in &c.samples { println!("SAMPLE {s}"); }
    if c.only.is_some() && c.evals == 0 { println!("RESULT no such case"); std::process::exit(4); }
}

fn allmaps(c: &mut ctx::Ctx, p: u8) { maps::scanning(c, p); maps::length(c, p); maps::slices(c, p); maps::ranges(c, p); maps::integer(c, p); maps::common(c, p); }
fn allsets(c: &mut ctx::Ctx, p: u8) { sets::scanning(c, p); sets::length(c, p); sets::slices(c, p); sets::ranges(c, p); sets::integer(c, p); sets::common(c, p); }
