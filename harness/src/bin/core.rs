//! Monitors that need no generated programs.
use vh::*;
fn main() {
    report::hook();
    let prop = std::env::var("VH_PROP").expect("VH_PROP");
    let shard = std::env::var("VH_SHARD").unwrap_or_default();
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut rep = Report::new(&prop);
            let mut rng = Rng::from_env(&format!("{prop}/{shard}"));
            match prop.as_str() {
                "C04" => combi::c04(&mut rep, &mut rng),
                "C06" => world::c06(&mut rep, &mut rng),
                "C07" => world::c07(&mut rep, &mut rng),
                "C09" => transforms::c09(&mut rep, &mut rng),
                "C10" => world::c10(&mut rep, &mut rng),
                "C11" => transforms::c11(&mut rep, &mut rng),
                "C12" => transforms::c12(&mut rep, &mut rng),
                "C13" => api::c13(&mut rep, &mut rng),
                "C14" => api::c14(&mut rep, &mut rng),
                "C15" => api::c15(&mut rep, &mut rng),
                "C20" => twins::c20(&mut rep),
                "C22" => world::c22(&mut rep, &mut rng),
                p => panic!("no core monitor for {p}"),
            }
            rep
        })
        .unwrap();
    match h.join() {
        Ok(r) => r.finish(),
        Err(_) => std::process::exit(101),
    }
}
