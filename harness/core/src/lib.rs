#![allow(dead_code)]
pub mod gen;
pub mod pbt;
pub mod props_avro;
pub mod props_crash;
pub mod props_fuzz;
pub mod props_log;
pub mod props_names;
pub mod props_py;
pub mod props_s3;
pub mod props_read;
pub mod props_table;
pub mod q;
pub mod runner;
pub mod s3;
pub mod sim;
pub mod worker;

#[global_allocator]
static ALLOC: worker::Alloc = worker::Alloc;

/// The environment every check starts from.
pub fn prepare_env() {
    // The local time zone of the process: one with daylight saving, chosen by the seed.
    let args: Vec<String> = std::env::args().collect();
    let replayed = (args.get(1).map(String::as_str) == Some("replay"))
        .then(|| std::fs::read_to_string(args.get(2)?).ok()?.parse::<serde_json::Value>().ok()?["seed"].as_u64())
        .flatten();
    let seed = replayed.map(|s| s.to_string()).or(std::env::var("VERIF_SEED").ok());
    let seed: usize = seed.and_then(|s| s.parse().ok()).unwrap_or(1);
    let tz = std::env::var("TZ").ok().filter(|t| props_names::ZONES.iter().any(|z| z.0 == t));
    let tz = tz.unwrap_or_else(|| props_names::ZONES[seed % props_names::ZONES.len()].0.to_string());
    std::env::set_var("TZ", tz);
    // Options the code under test takes from the environment.
    for (k, _) in std::env::vars() {
        if ["AWS_", "AZURE_", "GOOGLE_", "HUDI_", "HOODIE_"].iter().any(|p| k.starts_with(p)) {
            std::env::remove_var(k);
        }
    }
}
