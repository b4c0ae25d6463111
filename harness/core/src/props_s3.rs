//! Tables on a remote store: the same answers as on a local disk, and none but these when requests fail.

use crate::fail;
use crate::gen::{self, Opts};
use crate::pbt::Source;
use crate::props_py::{call, rust, short, Ans, Call, Pairs};
use crate::props_read::plan_labels;
use crate::props_table::{evolve_step, EvolveCase};
use crate::q::*;
use crate::runner::*;
use crate::s3::*;
use crate::sim::*;
use hudi_core::table::builder::TableBuilder;
use hudi_core::table::Table;
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Serialize, Deserialize)]
pub struct RemoteCase {
    pub plan: Plan,
    /// Where in the bucket the table is.
    pub base: String,
    /// How many entries a listing gives at once.
    pub page: usize,
    /// How the store's options are given: 0 generic options, 1 storage options; and in which case.
    pub way: u8,
    pub upper: bool,
    pub slash: bool,
    pub calls: Vec<Call>,
    pub faults: Vec<Fault>,
    /// Whether the bucket has a file where the machine has its global configs.
    pub decoy: bool,
    /// Whether the table is opened before requests start failing.
    pub late: bool,
    /// Another table, whose columns were added over time, in place of the history.
    #[serde(default)]
    pub evolve: Option<EvolveCase>,
}

pub struct Remote {
    pub name: &'static str,
    pub faults: bool,
    pub n: (usize, usize),
}

/// The file with this machine's global configs.
pub fn conf() -> &'static std::path::Path {
    static FILE: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();
    FILE.get_or_init(|| {
        let d = std::env::temp_dir().join("hv-conf");
        let f = d.join("hudi-defaults.conf");
        put_file(&f, b"hoodie.of.the.machine=1\n");
        std::env::set_var("HUDI_CONF_DIR", d);
        // Nothing of the machine's own settings for stores and proxies.
        std::env::set_var("NO_PROXY", "127.0.0.1");
        for (k, _) in std::env::vars() {
            if ["AWS_", "AZURE_", "GOOGLE_"].iter().any(|p| k.starts_with(p)) {
                std::env::remove_var(k);
            }
        }
        f
    })
}

pub fn store_options(upper: bool) -> Pairs {
    [
        ("aws_endpoint", endpoint().as_str()),
        ("aws_allow_http", "true"),
        ("aws_region", "us-east-1"),
        ("aws_access_key_id", "id"),
        ("aws_secret_access_key", "secret"),
        ("aws_virtual_hosted_style_request", "false"),
    ]
    .iter()
    .map(|(k, v)| (if upper { k.to_uppercase() } else { k.to_string() }, v.to_string()))
    .collect()
}

pub fn fault(s: &mut Source) -> Fault {
    let kind = *s.pick(&[Kind::List, Kind::Get, Kind::Head, Kind::Get]);
    let (how, times) = match s.weighted(&[5, 2, 2, 3, 1]) {
        0 => (How::Status(*s.pick(&[403, 404, 400, 401, 405, 409, 412, 416])), *s.pick(&[1, 2, 1000])),
        // These are tried again after a while.
        1 => (How::Status(*s.pick(&[500, 503, 502, 429])), s.usize(1, 2)),
        2 => (How::Reset, s.usize(1, 2)),
        3 => (How::Cut, *s.pick(&[1, 1, 2])),
        _ => (How::Slow(*s.pick(&[5, 30, 100])), *s.pick(&[1, 3])),
    };
    Fault { kind, which: s.below(200) as usize, from: s.weighted(&[6, 2, 1, 1]), times, how }
}

fn form(c: &Call, a: &Ans, loose: bool) -> Ans {
    match (c, a) {
        // A schema comes from the latest base file that exists, and may else come from the commit.
        (Call::Schema | Call::PartitionSchema | Call::LatestSchema, Ok(Value::String(s))) if loose => Ok(Value::String(
            s.split(" null=").map(|x| x.rsplit(", ").next().unwrap_or("").to_string()).collect::<Vec<_>>().join("|"),
        )),
        _ => a.clone(),
    }
}

impl Part for Remote {
    type Case = RemoteCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        if self.faults {
            "a table served by an S3 server, of which generated requests (listings, heads, gets, from some occurrence on, once or always) are refused, answered late, cut short or dropped: each call gives an error or exactly the local answer, and the local answer when no request was hit; non-trivial: a request was hit"
        } else {
            "a table served by an S3 server in pages of generated size, under a generated prefix, opened with the store's options given in several ways: every call gives what the same call gives on the local files; non-trivial: a call that returns rows, slices or instants, and a listing of several pages"
        }
    }
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { self.n.0 } else { self.n.1 }
    }
    fn generate(&self, s: &mut Source) -> RemoteCase {
        let plan = gen::plan(s, &Opts { big: false, ..Opts::all() });
        let m = Model::of(&plan);
        let n = s.usize(1, if self.faults { 3 } else { 6 });
        let evolve = s.chance(1, 5).then(|| EvolveCase::generate(s));
        let calls = (0..n)
            .map(|_| match call(s, &plan, &m) {
                _ if evolve.is_some() && s.chance(3, 4) => {
                    [Call::Schema, Call::LatestSchema, Call::AvroSchema, Call::LatestAvroSchema][s.idx(4)].clone()
                }
                Call::HudiOptions | Call::StorageOptions | Call::Bad(..) | Call::ReadPath(_) => Call::Read(None),
                c => c,
            })
            .collect();
        let nf = if self.faults { s.usize(1, 3) } else { 0 };
        RemoteCase {
            plan,
            base: s.pick(&["t", "a/b c/t", "", "x=1/é", "a+b/t%20"]).to_string(),
            page: *s.pick(&[1, 2, 3, 7, 1000]),
            way: s.below(2) as u8,
            upper: s.chance(1, 2),
            slash: s.chance(1, 3),
            decoy: s.chance(1, 2),
            calls,
            faults: (0..nf)
                .map(|_| match fault(s) {
                    // The schema would be that of a file before.
                    f if evolve.is_some() && matches!(f.how, How::Status(404)) => Fault { how: How::Status(403), ..f },
                    f => f,
                })
                .collect(),
            late: s.chance(1, 2),
            evolve,
        }
    }
    fn run(&self, c: &RemoteCase) -> R<Info> {
        let conf = conf();
        let d = Scratch::new();
        let mut info = Info::default();
        let dir = d.path().join(&c.base);
        std::fs::create_dir_all(&dir).expect("HARNESS: dir");
        if let Some(e) = &c.evolve {
            let mut plan = Plan { cfg: e.cfg.clone(), partitions: vec![vec![]], ops: vec![] };
            let mut m = materialize(&plan, &dir);
            for (i, (add, files)) in e.steps.iter().enumerate() {
                let op = evolve_step(&mut plan, i + 1, *add, *files);
                apply_files(&plan, &mut m, &op, &dir);
            }
            info.label("columns added over time");
        } else {
            let m = materialize(&c.plan, &dir);
            plan_labels(&mut info, &c.plan, &m);
        }
        let local_uri = dir.to_str().unwrap().to_string();
        let local = err("opening the local table", block(Table::new(&local_uri)))?;
        let b = Bucket::new(d.path(), c.page);
        if c.decoy && !c.base.is_empty() {
            put_file(&d.path().join(conf.strip_prefix("/").unwrap()), b"hoodie.of.the.bucket=2\n");
        }
        let store = store_options(c.upper);
        let mut uri = format!("s3://{}", b.name);
        for p in c.base.split('/').filter(|p| !p.is_empty()) {
            uri.push('/');
            uri.push_str(&percent_encoding::utf8_percent_encode(p, percent_encoding::NON_ALPHANUMERIC).to_string());
        }
        if c.slash {
            uri.push('/');
        }
        let open = || -> Result<Table, String> {
            match c.way {
                0 => block(Table::new_with_options(&uri, store.clone())),
                _ => block(TableBuilder::from_base_uri(&uri).with_storage_options(store.clone()).build()),
            }
            .map_err(|e| e.to_string())
        };
        let mut hit = 0;
        let r = (|| -> R<()> {
            for call in &c.calls {
                let want = rust(&local, &local_uri, &vec![], call);
                b.arm(&[]);
                let calling = |opened: &Result<Table, String>| match opened {
                    Ok(t) => rust(t, &uri, &store, call),
                    Err(e) => Err(format!("opening: {e}")),
                };
                let mut opened = open();
                let got = if c.faults.is_empty() {
                    calling(&opened)
                } else {
                    // Once to see what is asked for, and once more with requests failing.
                    if c.late {
                        let again = open();
                        b.arm(&[]);
                        let _ = calling(&opened);
                        b.arm(&c.faults);
                        opened = again;
                    } else {
                        let _ = calling(&opened);
                        b.arm(&c.faults);
                        opened = open();
                    }
                    calling(&opened)
                };
                let n = b.injected();
                hit += n;
                info.compared += 1;
                // A data file that does not exist is passed over when looking for the schema.
                let loose = c.faults.iter().any(|f| matches!(f.how, How::Status(404)));
                let what = serde_json::to_string(call).unwrap();
                match (form(call, &got, loose), form(call, &want, loose)) {
                    (Err(_), _) if n > 0 => info.label("an error for a fault"),
                    (Err(_), Err(_)) => {}
                    (Ok(g), Ok(w)) if g == w => {
                        let rows = w["rows"].as_array().is_some_and(|r| !r.is_empty());
                        let some = rows || w.as_array().is_some_and(|a| !a.is_empty());
                        info.label_if(some && n > 0, "an answer despite a fault");
                        if !self.faults {
                            info.nontrivial |= some;
                        }
                    }
                    (g, w) => {
                        let s = |x: Ans| x.map(|v| short(&v)).unwrap_or_else(|e| format!("error {e}"));
                        fail!(if n > 0 { "fault" } else { "remote" }, "{what} ({n} requests hit): {} from the store, {} from the local files", s(g), s(w))
                    }
                }
            }
            Ok(())
        })();
        let r = r.and_then(|()| {
            b.arm(&[]);
            let t = err("opening the table", open())?;
            let (mut got, mut want) = (t.hudi_options(), local.hudi_options());
            for o in [&mut got, &mut want] {
                o.remove("hoodie.base.path");
            }
            if want.get("hoodie.of.the.machine").map(String::as_str) != Some("1") {
                fail!("options", "the global configs are not in {want:?}");
            }
            if got != want {
                fail!("options", "the options are {got:?} for the remote table, {want:?} for the local one");
            }
            Ok(())
        });
        info.label_if(b.pages() > 0, "listings in pages");
        b.close();
        r?;
        if self.faults {
            info.nontrivial = hit > 0;
        } else {
            info.nontrivial &= b.pages() > 0;
        }
        for f in &c.faults {
            info.label_if(hit > 0, &format!("{:?} {}", f.kind, match f.how {
                How::Status(s) => format!("status {s}"),
                How::Reset => "reset".into(),
                How::Cut => "cut".into(),
                How::Slow(_) => "slow".into(),
            }));
        }
        Ok(info)
    }
}
