mod bulk;
mod conc;
mod free;
mod galloc;
mod keys;
mod multi;
mod scen;
mod seq;
mod ta;
mod tour;
mod trees;
mod util;

fn arg<T: std::str::FromStr>(a: &[String], name: &str, def: T) -> T {
    let n = format!("--{}", name);
    a.iter()
        .position(|x| *x == n)
        .and_then(|i| a.get(i + 1))
        .and_then(|x| x.parse().ok())
        .unwrap_or(def)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("seq") => seq::main(&seq::Args {
            focus: arg(&a, "focus", "point".to_string()),
            seed: arg(&a, "seed", 1),
            out: arg(&a, "out", "/dev/null".to_string()),
            emit_events: arg(&a, "emit", 10000),
            secs: arg(&a, "secs", 5.0),
            small: arg(&a, "small", 0) == 1,
            min_traces: arg(&a, "min", 0),
        }),
        Some("tour") => tour::main(&tour::Args {
            dir: arg(&a, "dir", ".".to_string()),
            focus: arg(&a, "focus", "point".to_string()),
            seed: arg(&a, "seed", 1),
            shard: arg(&a, "shard", 0),
            of: arg(&a, "of", 1),
            out: arg(&a, "out", "/dev/null".to_string()),
            emit_events: arg(&a, "emit", 10000),
            secs: arg(&a, "secs", 5.0),
        }),
        Some("multi") => multi::main(&multi::Args {
            seed: arg(&a, "seed", 1),
            out: arg(&a, "out", "/dev/null".to_string()),
            emit_events: arg(&a, "emit", 4000),
            secs: arg(&a, "secs", 5.0),
        }),
        Some("bulk") => bulk::main(&bulk::Args {
            seed: arg(&a, "seed", 1),
            out: arg(&a, "out", "/dev/null".to_string()),
            emit: arg(&a, "emit", 200_000),
            secs: arg(&a, "secs", 5.0),
            huge: arg(&a, "huge", 0),
        }),
        Some("conc") => conc::main(&conc::Args {
            focus: arg(&a, "focus", "point".to_string()),
            seed: arg(&a, "seed", 1),
            lin: arg(&a, "lin", "/dev/null".to_string()),
            rec: arg(&a, "rec", String::new()),
            emit: arg(&a, "emit", 10000),
            secs: arg(&a, "secs", 5.0),
            p2: arg(&a, "p2", 600),
            p3: arg(&a, "p3", 150),
            walk: arg(&a, "walk", 120),
            tours: arg(&a, "tours", String::new()),
            core: arg(&a, "core", 0),
            only: arg(&a, "only", 0),
        }),
        Some("free") => free::main(&free::Args {
            tours: arg(&a, "tours", String::new()),
            focus: arg(&a, "focus", "point".to_string()),
            seed: arg(&a, "seed", 1),
            lin: arg(&a, "lin", "/dev/null".to_string()),
            emit: arg(&a, "emit", 10000),
            secs: arg(&a, "secs", 5.0),
        }),
        _ => {
            eprintln!("usage: vh seq ...");
            std::process::exit(2);
        }
    }
}
