//! A small S3 server on the loopback interface that serves local directories as buckets, in pages, and fails on request.

use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    List,
    Head,
    Get,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug)]
pub enum How {
    /// An answer with this status instead.
    Status(u16),
    /// The connection is closed without an answer.
    Reset,
    /// The connection is closed part way through the answer's body.
    Cut,
    /// The answer comes late.
    Slow(u16),
}

/// The requests of a kind for one key (or prefix), from the given occurrence on, that many times.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Fault {
    pub kind: Kind,
    /// Chooses among the keys (or prefixes) there are.
    pub which: usize,
    pub from: usize,
    pub times: usize,
    pub how: How,
}

#[derive(Default)]
struct State {
    faults: Vec<(Fault, String)>,
    counts: HashMap<(u8, String), usize>,
    injected: usize,
    requests: usize,
    pages: usize,
}

pub struct Bucket {
    pub name: String,
    root: PathBuf,
    page: usize,
    state: Mutex<State>,
    before: Mutex<Option<Box<dyn FnMut() + Send>>>,
}

struct Server {
    port: u16,
    buckets: Mutex<HashMap<String, Arc<Bucket>>>,
}

static SERVER: OnceLock<Server> = OnceLock::new();
static NEXT: AtomicUsize = AtomicUsize::new(0);

fn server() -> &'static Server {
    SERVER.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").expect("HARNESS: bind");
        let port = l.local_addr().unwrap().port();
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                std::thread::spawn(move || {
                    let _ = serve(c);
                });
            }
        });
        Server { port, buckets: Mutex::new(HashMap::new()) }
    })
}

pub fn endpoint() -> String {
    format!("http://127.0.0.1:{}", server().port)
}

impl Bucket {
    pub fn new(root: &Path, page: usize) -> Arc<Bucket> {
        let name = format!("bucket{}", NEXT.fetch_add(1, Ordering::Relaxed));
        let b = Arc::new(Bucket { name: name.clone(), root: root.to_path_buf(), page, state: Mutex::default(), before: Mutex::default() });
        server().buckets.lock().unwrap().insert(name, b.clone());
        b
    }
    pub fn close(&self) {
        server().buckets.lock().unwrap().remove(&self.name);
    }
    /// All keys, in order.
    fn keys(&self) -> Vec<String> {
        fn walk(d: &Path, at: &str, out: &mut Vec<String>) {
            let Ok(rd) = std::fs::read_dir(d) else { return };
            for e in rd.flatten() {
                let n = format!("{at}{}", e.file_name().to_str().expect("HARNESS: name"));
                if e.path().is_dir() {
                    walk(&e.path(), &format!("{n}/"), out);
                } else {
                    out.push(n);
                }
            }
        }
        let mut v = vec![];
        walk(&self.root, "", &mut v);
        v.sort();
        v
    }
    /// Starts counting from here, with these faults, each on one of the keys asked for last time.
    pub fn arm(&self, faults: &[Fault]) {
        self.arm_on(faults, self.asked());
    }
    /// What was asked for since the last start of counting.
    pub fn asked(&self) -> Vec<(u8, String)> {
        let mut asked: Vec<(u8, String)> = self.state.lock().unwrap().counts.keys().cloned().collect();
        asked.sort();
        asked
    }
    pub fn arm_on(&self, faults: &[Fault], asked: Vec<(u8, String)>) {
        let mut s = self.state.lock().unwrap();
        *s = State { pages: s.pages, ..State::default() };
        for f in faults {
            let of: Vec<_> = asked.iter().filter(|a| a.0 == f.kind as u8).collect();
            if !of.is_empty() {
                s.faults.push((f.clone(), of[f.which % of.len()].1.clone()));
            }
        }
    }
    /// Something to do before each request.
    pub fn before_requests(&self, f: Option<Box<dyn FnMut() + Send>>) {
        *self.before.lock().unwrap() = f;
    }
    pub fn injected(&self) -> usize {
        self.state.lock().unwrap().injected
    }
    pub fn requests(&self) -> usize {
        self.state.lock().unwrap().requests
    }
    /// Listings that had a further page.
    pub fn pages(&self) -> usize {
        self.state.lock().unwrap().pages
    }
    fn fault(&self, kind: Kind, key: &str) -> Option<How> {
        let mut s = self.state.lock().unwrap();
        s.requests += 1;
        let n = s.counts.entry((kind as u8, key.to_string())).or_default();
        let k = *n;
        *n += 1;
        let how = s
            .faults
            .iter()
            .find(|(f, x)| f.kind == kind && x == key && k >= f.from && k - f.from < f.times)
            .map(|(f, _)| f.how);
        if how.is_some() {
            s.injected += 1;
        }
        how
    }
}

fn decode(s: &str, plus: bool) -> String {
    let s = if plus { s.replace('+', " ") } else { s.to_string() };
    percent_encoding::percent_decode_str(&s).decode_utf8_lossy().into_owned()
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&apos;"),
            c => o.push(c),
        }
    }
    o
}

fn serve(c: TcpStream) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    let mut out = c.try_clone()?;
    let mut rd = BufReader::new(c);
    loop {
        let mut line = String::new();
        if rd.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let mut it = line.split_whitespace();
        let (method, target) = (it.next().unwrap_or("").to_string(), it.next().unwrap_or("/").to_string());
        let (mut range, mut len) = (None, 0usize);
        loop {
            let mut h = String::new();
            if rd.read_line(&mut h)? == 0 || h.trim().is_empty() {
                break;
            }
            if let Some((k, v)) = h.split_once(':') {
                match k.to_ascii_lowercase().as_str() {
                    "range" => range = v.trim().strip_prefix("bytes=").map(str::to_string),
                    "content-length" => len = v.trim().parse().unwrap_or(0),
                    _ => {}
                }
            }
        }
        let mut body = vec![0; len];
        rd.read_exact(&mut body)?;
        let (path, query) = target.split_once('?').unwrap_or((&target, ""));
        let path = decode(path, false);
        let (bucket, key) = path.trim_start_matches('/').split_once('/').unwrap_or((path.trim_start_matches('/'), ""));
        let b = server().buckets.lock().unwrap().get(bucket).cloned();
        let Some(b) = b else {
            respond(&mut out, 404, "", b"<Error><Code>NoSuchBucket</Code></Error>", None, method == "HEAD", false)?;
            continue;
        };
        let q: HashMap<String, String> = query
            .split('&')
            .filter_map(|p| p.split_once('='))
            .map(|(k, v)| (decode(k, true), decode(v, true)))
            .collect();
        let list = q.contains_key("list-type");
        let (kind, what) = if list {
            (Kind::List, q.get("prefix").cloned().unwrap_or_default())
        } else if method == "HEAD" {
            (Kind::Head, key.to_string())
        } else {
            (Kind::Get, key.to_string())
        };
        if let Some(f) = b.before.lock().unwrap().as_mut() {
            f();
        }
        let how = b.fault(kind, &what);
        let mut cut = false;
        match how {
            Some(How::Status(s)) => {
                let m = format!("<Error><Code>E{s}</Code><Message>injected</Message></Error>");
                respond(&mut out, s, "", m.as_bytes(), None, method == "HEAD", false)?;
                continue;
            }
            Some(How::Reset) => return Ok(()),
            Some(How::Cut) => cut = true,
            Some(How::Slow(ms)) => std::thread::sleep(Duration::from_millis(ms as u64)),
            None => {}
        }
        if list {
            let x = listing(&b, &q);
            respond(&mut out, 200, "Content-Type: application/xml\r\n", x.as_bytes(), None, false, cut)?;
        } else {
            match std::fs::read(b.root.join(key)) {
                Ok(data) if !key.is_empty() => {
                    respond(&mut out, 200, "", &data, range.as_deref(), method == "HEAD", cut)?;
                }
                _ => {
                    let m = b"<Error><Code>NoSuchKey</Code></Error>";
                    respond(&mut out, 404, "", m, None, method == "HEAD", false)?
                }
            }
        }
        if cut {
            return Ok(());
        }
    }
}

fn listing(b: &Bucket, q: &HashMap<String, String>) -> String {
    let prefix = q.get("prefix").map(String::as_str).unwrap_or("");
    let delim = q.get("delimiter").map(String::as_str).unwrap_or("");
    let after = q.get("continuation-token").or(q.get("start-after")).cloned().unwrap_or_default();
    let mut items: Vec<(String, Option<u64>)> = vec![];
    for k in b.keys() {
        if !k.starts_with(prefix) {
            continue;
        }
        let rest = &k[prefix.len()..];
        match (!delim.is_empty()).then(|| rest.find(delim)).flatten() {
            Some(i) => {
                let p = format!("{prefix}{}", &rest[..i + delim.len()]);
                if items.last().map(|l| l.0 != p).unwrap_or(true) {
                    items.push((p, None));
                }
            }
            None => {
                let n = std::fs::metadata(b.root.join(&k)).map(|m| m.len()).unwrap_or(0);
                items.push((k, Some(n)));
            }
        }
    }
    items.retain(|(k, _)| k.as_str() > after.as_str());
    let more = items.len() > b.page;
    items.truncate(b.page);
    let mut x = format!(
        "<?xml version=\"1.0\" encoding=\"UTF-8\"?><ListBucketResult xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\"><Name>{}</Name><Prefix>{}</Prefix><KeyCount>{}</KeyCount><MaxKeys>{}</MaxKeys><IsTruncated>{more}</IsTruncated>",
        b.name,
        esc(prefix),
        items.len(),
        b.page
    );
    if more {
        b.state.lock().unwrap().pages += 1;
        x.push_str(&format!("<NextContinuationToken>{}</NextContinuationToken>", esc(&items.last().unwrap().0)));
    }
    for (k, n) in items {
        match n {
            Some(n) => x.push_str(&format!(
                "<Contents><Key>{}</Key><LastModified>2024-01-01T00:00:00.000Z</LastModified><ETag>&quot;e{n}&quot;</ETag><Size>{n}</Size><StorageClass>STANDARD</StorageClass></Contents>",
                esc(&k)
            )),
            None => x.push_str(&format!("<CommonPrefixes><Prefix>{}</Prefix></CommonPrefixes>", esc(&k))),
        }
    }
    x.push_str("</ListBucketResult>");
    x
}

fn respond(out: &mut TcpStream, status: u16, extra: &str, body: &[u8], range: Option<&str>, head: bool, cut: bool) -> std::io::Result<()> {
    let total = body.len();
    let (mut status, mut from, mut to) = (status, 0, total);
    let mut more = String::new();
    if let (Some(r), 200) = (range, status) {
        let (a, z) = r.split_once('-').unwrap_or(("0", ""));
        if a.is_empty() {
            from = total.saturating_sub(z.parse().unwrap_or(0));
        } else {
            from = a.parse().unwrap_or(0);
            if let Ok(z) = z.parse::<usize>() {
                to = total.min(z + 1);
            }
        }
        if from >= total || from >= to {
            let h = format!("HTTP/1.1 416 Range\r\nContent-Length: 0\r\nContent-Range: bytes */{total}\r\n\r\n");
            return out.write_all(h.as_bytes());
        }
        status = 206;
        more = format!("Content-Range: bytes {from}-{}/{total}\r\n", to - 1);
    }
    let body = &body[from..to];
    let h = format!(
        "HTTP/1.1 {status} X\r\nContent-Length: {}\r\nETag: \"e{total}\"\r\nLast-Modified: Mon, 01 Jan 2024 00:00:00 GMT\r\n{more}{extra}\r\n",
        body.len()
    );
    let mut m = h.into_bytes();
    if !head {
        m.extend_from_slice(if cut { &body[..body.len() / 2] } else { body });
    }
    out.write_all(&m)?;
    out.flush()
}
