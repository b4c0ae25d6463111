mod remote;
mod scan;
mod sql;

use hv_core::runner::{self, Check};

fn checks() -> Vec<Check> {
    vec![Check { id: "C15", parts: vec![Box::new(sql::Sql { n: (500, 12000) }), Box::new(scan::Scans { n: (800, 20000) }), Box::new(remote::RemoteSql { n: (600, 8000) })], assumptions: vec![] }]
}

fn main() {
    hv_core::prepare_env();
    std::process::exit(runner::main_with(checks()));
}
