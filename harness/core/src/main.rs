
use hv_core::gen::Opts;
use hv_core::runner::{self, Check};
use hv_core::worker::Isolated;
use hv_core::{props_avro, props_crash, props_fuzz, props_log, props_names, props_py, props_s3, props_read, props_table};

fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            parts: vec![Box::new(props_read::Snapshot { name: "histories", o: Opts::all(), n: (2000, 40000) })],
            assumptions: vec![],
        },
        Check {
            id: "C02",
            parts: vec![Box::new(props_read::Travel { o: Opts::all(), n: (4000, 40000) })],
            assumptions: vec![],
        },
        Check {
            id: "C03",
            parts: vec![Box::new(props_read::Incremental { o: Opts { meta_off: false, ..Opts::all() }, n: (4000, 60000) })],
            assumptions: vec![],
        },
        Check { id: "C04", parts: vec![Box::new(props_table::Replace { n: (1200, 16000) })], assumptions: vec![] },
        Check { id: "C05", parts: vec![Box::new(props_table::Filters { n: (3000, 30000) })], assumptions: vec![] },
        Check { id: "C06", parts: vec![Box::new(props_table::Splits { n: (3000, 24000) })], assumptions: vec![] },
        Check {
            id: "C07",
            parts: vec![
                Box::new(props_log::Merge { n: (6000, 200000) }),
                Box::new(props_read::Snapshot {
                    name: "merged histories",
                    o: Opts { mor: Some(true), log_heavy: true, ..Opts::all() },
                    n: (1200, 20000),
                }),
            ],
            assumptions: vec![],
        },
        Check {
            id: "C08",
            parts: vec![
                Box::new(props_log::SliceLogs { n: (5000, 40000) }),
                Box::new(props_log::Relayout { n: (1200, 10000) }),
            ],
            assumptions: vec![],
        },
        Check { id: "C09", parts: vec![Box::new(props_log::Decode { n: (10000, 40000) })], assumptions: vec![] },
        Check {
            id: "C10",
            parts: vec![
                Box::new(Isolated(props_fuzz::Damaged { n: (1500, 60000) })),
                Box::new(Isolated(props_fuzz::Cuts { n: (1500, 40000) })),
                Box::new(Isolated(props_fuzz::Hostile { n: (4000, 200000) })),
                Box::new(Isolated(props_fuzz::Strings { n: (3000, 100000) })),
            ],
            assumptions: vec![],
        },
        Check {
            id: "C11",
            parts: vec![
                Box::new(props_names::Names { n: (40000, 400000) }),
                Box::new(props_names::Groups { n: (8000, 100000) }),
                Box::new(props_names::Listed { n: (3000, 30000) }),
            ],
            assumptions: vec![],
        },
        Check {
            id: "C12",
            parts: vec![
                Box::new(props_names::Instants { n: (60000, 400000) }),
                Box::new(props_names::Timelines { n: (16000, 60000) }),
            ],
            assumptions: vec![],
        },
        Check {
            id: "C13",
            parts: vec![
                Box::new(props_names::Resolution { n: (20000, 60000) }),
                Box::new(props_names::Typed { n: (20000, 80000) }),
            ],
            assumptions: vec![],
        },
        Check { id: "C14", parts: vec![Box::new(props_table::ReadOptimized { n: (1800, 30000) })], assumptions: vec![] },
        Check { id: "C16", parts: vec![Box::new(props_py::Python { n: (1500, 20000) })], assumptions: vec![] },
        Check { id: "C17", parts: vec![Box::new(props_table::Between { n: (10000, 100000) })], assumptions: vec![] },
        Check {
            id: "C18",
            parts: vec![
                Box::new(props_avro::Avro { n: (60000, 800000) }),
                Box::new(props_avro::Nested { n: (12000, 60000) }),
            ],
            assumptions: vec![],
        },
        Check {
            id: "C19",
            parts: vec![
                Box::new(props_table::Schemas { n: (4000, 20000) }),
                Box::new(props_table::Evolve { n: (1500, 6000) }),
            ],
            assumptions: vec![],
        },
        Check {
            id: "C20",
            parts: vec![
                Box::new(props_names::Trees { n: (2500, 50000) }),
                Box::new(props_names::Beside { n: (1200, 12000) }),
            ],
            assumptions: vec![],
        },
        Check { id: "C21", parts: vec![Box::new(props_table::Concurrent { n: (2000, 16000) })], assumptions: vec![] },
        Check {
            id: "C22",
            parts: vec![
                Box::new(props_s3::Remote { name: "remote", faults: false, n: (800, 12000) }),
                Box::new(props_s3::Remote { name: "faults", faults: true, n: (1200, 24000) }),
            ],
            assumptions: vec![],
        },
        Check {
            id: "C23",
            parts: vec![
                Box::new(props_crash::Crash { n: (2000, 30000) }),
                Box::new(props_crash::Mid { n: (1500, 20000) }),
            ],
            assumptions: vec![],
        },
    ]
}

fn main() {
    hv_core::prepare_env();
    std::process::exit(runner::main_with(checks()));
}
