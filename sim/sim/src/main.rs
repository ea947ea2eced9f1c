//! Deterministic simulation of toon-rs: `sim run|replay|show|selftest ...`
mod cli;
mod effort;
mod exec;
mod fleet;
mod fork;
mod mangle;
mod retain;
mod gen;
mod known;
mod model;
mod node;
mod oracle;
mod plan;
mod props;
mod random;
mod rng;
mod runner;
mod shrink;

use std::collections::HashMap;

/// JSON of any depth.
pub fn from_json_bytes<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T, serde_json::Error> {
    let mut d = serde_json::Deserializer::from_slice(b);
    d.disable_recursion_limit();
    let v = T::deserialize(&mut d)?;
    d.end()?;
    Ok(v)
}

fn main() {
    let mut a = std::env::args().skip(1);
    let cmd = a.next().unwrap_or_default();
    let mut pos = Vec::new();
    let mut opt: HashMap<String, String> = HashMap::new();
    while let Some(x) = a.next() {
        match x.strip_prefix("--") {
            Some(k) => {
                let v = a.next().unwrap_or_default();
                opt.insert(k.to_string(), v);
            }
            None => pos.push(x),
        }
    }
    let code = match cmd.as_str() {
        "run" => runner::run(&pos[0], &opt),
        "replay" => runner::replay(&pos[0], &opt),
        "show" => runner::show(&pos[0], pos[1].parse().unwrap(), &opt),
        "selftest" => runner::selftest(&opt),
        "nodes" => {
            // which builds a check needs
            match props::prop(&pos[0]) {
                Some(p) => {
                    println!("{}", p.nodes.iter().map(|n| node::NAMES[*n as usize]).collect::<Vec<_>>().join(" "));
                    0
                }
                None => 2,
            }
        }
        _ => {
            eprintln!("usage: sim run ID|replay FILE|show ID SEED|selftest --nodes DIR [--tier T] [--seed N] [--count N] [--jobs N]");
            2
        }
    };
    std::process::exit(code);
}
