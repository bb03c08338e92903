// ndharness -- runs batches of cases against the real nd code and records what it did.
//
// usage: ndharness CASES.ndjson RESULTS.ndjson START
//
// Every case is one JSON object on one line; every result is one JSON object on one line.  A panic of
// the code under test is recorded as data ("panic"); a case that does not finish in time is recorded as
// "hang" and ends the process (exit code 3) so that the driver can go on after it.

#[cfg(feature = "nodes")]
mod nodes;

use nd::verif::byte::ByteStream;
use nd::verif::params;
use nd::verif::pipeline::*;

use anyhow::{anyhow, Result};
use clap::Parser;
use serde_json::{json, Value};
use std::io::{BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let d = |c: u8| (c as char).to_digit(16).expect("bad hex") as u8;
    (0..b.len() / 2).map(|i| d(b[2 * i]) * 16 + d(b[2 * i + 1])).collect()
}

fn hex(v: &[u8]) -> String {
    let mut s = String::with_capacity(2 * v.len());
    for x in v {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

fn ints(v: &Value) -> Vec<usize> {
    v.as_array().map_or(Vec::new(), |a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect())
}

fn usz(v: &Value) -> usize {
    v.as_u64().expect("number expected") as usize
}

// a reader that delivers its data in reads of scripted sizes (cycled); an optional error is returned once
// `fail_at` bytes were delivered
struct ScriptedRead {
    data: Vec<u8>,
    pos: usize,
    reads: Vec<usize>,
    i: usize,
    fail_at: Option<usize>,
    eintr: bool,
}

impl ScriptedRead {
    fn from_json(v: &Value) -> Self {
        ScriptedRead {
            data: unhex(v["data"].as_str().unwrap_or("")),
            pos: 0,
            reads: ints(&v["reads"]),
            i: 0,
            fail_at: v["fail_at"].as_u64().map(|x| x as usize),
            eintr: false,
        }
    }
}

impl Read for ScriptedRead {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "scripted read error"));
            }
        }
        let _ = self.eintr;
        let mut n = self.data.len() - self.pos;
        if let Some(f) = self.fail_at {
            n = n.min(f - self.pos);
        }
        if !self.reads.is_empty() {
            let r = self.reads[self.i % self.reads.len()].max(1);
            self.i += 1;
            n = n.min(r);
        }
        let n = n.min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

// what a fill made visible: the bytes behind those that were visible before, and whether those are still the same
#[allow(dead_code)]
pub struct Window {
    prev: Vec<u8>,
}

#[allow(dead_code)]
impl Window {
    pub fn new() -> Self {
        Window { prev: Vec::new() }
    }

    pub fn fill(&mut self, visible: &[u8]) -> (bool, String) {
        let n = self.prev.len().min(visible.len());
        let same = self.prev[..n] == visible[..n];
        let fresh = hex(&visible[n..]);
        self.prev = visible.to_vec();
        (same, fresh)
    }

    pub fn take(&mut self, n: usize) {
        self.prev.drain(..n.min(self.prev.len()));
    }
}

// drains a byte stream along a history of [request, take] pairs (cycled); take < 0: everything
fn drain_bytes(s: &mut Box<dyn ByteStream>, hist: &[(usize, i64)], limit: usize, trace: bool) -> Result<(Vec<u8>, Vec<Value>, bool)> {
    let mut out = Vec::new();
    let mut ev = Vec::new();
    let mut i = 0;
    let mut idle = 0;
    let mut w = Window::new();
    loop {
        let (req, take) = if hist.is_empty() { (params::BLOCK_SIZE, -1) } else { hist[i % hist.len()] };
        i += 1;
        let (eof, len) = s.fill_buf(req)?;
        let sl = s.as_slice();
        let margin = sl.len() >= len + params::MARGIN_SIZE;
        let visible = &sl[..len.min(sl.len())];
        if trace {
            let (same, fresh) = w.fill(visible);
            ev.push(json!({"k": "fill", "req": req, "eof": eof, "len": len, "same": same, "new": fresh, "margin": margin}));
        }
        if eof && len == 0 {
            return Ok((out, ev, true));
        }
        if i > limit {
            return Ok((out, ev, false));
        }
        let mut n = if take < 0 || (trace && i > 1000) { len } else { take as usize % (len + 1) };
        if n == 0 {
            idle += 1;
            if idle > 6 {
                n = len;
                idle = 0;
            }
        } else {
            idle = 0;
        }
        out.extend_from_slice(&visible[..n]);
        s.consume(n);
        if trace {
            w.take(n);
            ev.push(json!({"k": "take", "n": n}));
        }
    }
}

fn run_pipe(c: &Value) -> Result<Value> {
    let mut args = vec!["nd".to_string()];
    args.extend(c["args"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()));
    let parsed = match PipelineArgs::try_parse_from(&args) {
        Ok(x) => x,
        Err(e) => return Ok(json!({"err": format!("usage: {}", e.to_string().lines().next().unwrap_or("")), "stage": "args"})),
    };
    let pipeline = match Pipeline::from_args(&parsed) {
        Ok(x) => x,
        Err(e) => return Ok(json!({"err": format!("{e:#}"), "stage": "config"})),
    };
    let sources: Vec<Box<dyn Read + Send>> = c["inputs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| {
            let r: Box<dyn Read + Send> = Box::new(ScriptedRead::from_json(x));
            r
        })
        .collect();
    let mut stream = match pipeline.spawn_stream(sources) {
        Ok(x) => x,
        Err(e) => return Ok(json!({"err": format!("{e:#}"), "stage": "spawn"})),
    };
    let hist = hist_pairs(&c["hist"]);
    match drain_bytes(&mut stream, &hist, 200000, false) {
        Ok((out, _, done)) => {
            if done {
                Ok(json!({"out": hex(&out)}))
            } else {
                Ok(json!({"stuck": true, "out": hex(&out)}))
            }
        }
        Err(e) => Ok(json!({"err": format!("{e:#}"), "stage": "run"})),
    }
}

fn hist_pairs(v: &Value) -> Vec<(usize, i64)> {
    v.as_array().map_or(Vec::new(), |a| a.iter().map(|x| (usz(&x[0]), x[1].as_i64().unwrap())).collect())
}

fn run_case(c: &Value) -> Value {
    let r: Result<Value> = (|| match c["op"].as_str().unwrap() {
        "pipe" => run_pipe(c),
        #[cfg(feature = "nodes")]
        op => nodes::run_node_case(op, c),
        #[cfg(not(feature = "nodes"))]
        op => Err(anyhow!("unknown op {op}")),
    })();
    match r {
        Ok(v) => v,
        Err(e) => json!({"bad": format!("{e:#}")}),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1] == "--block-size" {
        println!("{} {}", params::BLOCK_SIZE, params::MARGIN_SIZE);
        return;
    }
    let start: usize = args[3].parse().unwrap();
    let cases = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).unwrap();

    let msg: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let hook = Arc::clone(&msg);
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let m = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|x| x.to_string()))
            .unwrap_or_default();
        let mut g = hook.lock().unwrap();
        if g.is_none() {
            *g = Some(format!("{m} at {loc}"));
        }
    }));

    for (i, line) in cases.lines().enumerate() {
        let line = line.unwrap();
        if i < start || line.is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).unwrap();
        let id = case["id"].clone();
        let secs = case["timeout"].as_u64().unwrap_or(20);
        *msg.lock().unwrap() = None;

        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let r = catch_unwind(AssertUnwindSafe(|| run_case(&case)));
            let _ = tx.send(r);
        });
        let (mut res, hang) = match rx.recv_timeout(Duration::from_secs(secs)) {
            Ok(Ok(v)) => (v, false),
            Ok(Err(_)) => (json!({"panic": msg.lock().unwrap().clone().unwrap_or_default()}), false),
            Err(_) => (json!({"hang": true}), true),
        };
        res["id"] = id;
        writeln!(out, "{res}").unwrap();
        if hang {
            out.flush().unwrap();
            std::process::exit(3);
        }
    }
}
