// cases over the internal nodes (feature "nodes")

use super::*;
use nd::verif::byte::*;
use nd::verif::drain::*;
use nd::verif::eval;
use nd::verif::segment::*;
use nd::verif::streambuf::StreamBuf;
use nd::verif::text::*;

// a byte stream that obeys the ByteStream contract but otherwise chooses its chunk lengths and the moment it
// reports EOF from a script: `extra[i]` bytes more than requested on the i-th call, EOF reported late when
// `late_eof` is set (i.e. only on the call after the last byte became visible)
struct MockBytes {
    data: Vec<u8>,
    pos: usize,
    avail: usize,
    extra: Vec<usize>,
    i: usize,
    late_eof: bool,
    eof: bool,
    buf: Vec<u8>,
    more: bool,
}

impl MockBytes {
    fn from_json(v: &Value) -> Self {
        MockBytes {
            data: unhex(v["data"].as_str().unwrap_or("")),
            pos: 0,
            avail: 0,
            extra: ints(&v["extra"]),
            i: 0,
            late_eof: v["late_eof"].as_bool().unwrap_or(false),
            eof: false,
            buf: Vec::new(),
            more: false,
        }
    }
}

impl ByteStream for MockBytes {
    fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
        if !self.eof {
            let total = self.data.len();
            let e = if self.extra.is_empty() { 0 } else { self.extra[self.i % self.extra.len()] };
            self.i += 1;
            let mut want = (request.max(1) + e).max(self.avail);
            if self.more {
                want = want.max(self.avail + 1 + e);
                self.more = false;
            }
            let had_all = self.pos + self.avail == total;
            self.avail = want.min(total - self.pos);
            let all = self.pos + self.avail == total;
            // a stream shorter than the request must be reported as EOF
            self.eof = all && (!self.late_eof || had_all || self.avail < request.max(1));
        }
        self.buf.clear();
        self.buf.extend_from_slice(&self.data[self.pos..self.pos + self.avail]);
        self.buf.resize(self.avail + params::MARGIN_SIZE, b'\n');
        Ok((self.eof, self.avail))
    }

    fn as_slice(&self) -> &[u8] {
        &self.buf
    }

    fn consume(&mut self, amount: usize) {
        assert!(amount <= self.avail, "mock: consumed more than available");
        self.pos += amount;
        self.avail -= amount;
        self.more = amount == 0;
        self.buf.drain(..amount);
    }
}

struct BufBytes {
    buf: StreamBuf,
    data: Vec<u8>,
    pos: usize,
    chunks: Vec<usize>,
    i: usize,
}

// StreamBuf driven directly: the closure appends chunks of scripted sizes
impl ByteStream for BufBytes {
    fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
        let (data, pos, chunks, i) = (&self.data, &mut self.pos, &self.chunks, &mut self.i);
        self.buf.fill_buf(request, |_, buf| {
            let n = if chunks.is_empty() { data.len() } else { chunks[*i % chunks.len()] };
            *i += 1;
            let n = n.min(data.len() - *pos);
            buf.extend_from_slice(&data[*pos..*pos + n]);
            *pos += n;
            Ok(*pos == data.len())
        })
    }
    fn as_slice(&self) -> &[u8] {
        self.buf.as_slice()
    }
    fn consume(&mut self, amount: usize) {
        self.buf.consume(amount)
    }
}

fn fmt_of(v: &Value) -> InoutFormat {
    InoutFormat::from_str(v["fmt"].as_str().unwrap_or("xxx")).unwrap()
}

fn build_bytes(v: &Value) -> Result<Box<dyn ByteStream>> {
    let src = || build_bytes(&v["src"]);
    let srcs = || -> Result<Vec<Box<dyn ByteStream>>> { v["srcs"].as_array().unwrap().iter().map(build_bytes).collect() };
    let filler = v["filler"].as_u64().unwrap_or(0) as u8;
    let align = v["align"].as_u64().unwrap_or(1) as usize;
    Ok(match v["t"].as_str().unwrap() {
        "mock" => Box::new(MockBytes::from_json(v)),
        "buf" => Box::new(BufBytes {
            buf: StreamBuf::new_with_align(align, filler),
            data: unhex(v["data"].as_str().unwrap()),
            pos: 0,
            chunks: ints(&v["chunks"]),
            i: 0,
        }),
        "raw" => Box::new(RawStream::new(Box::new(ScriptedRead::from_json(v)), align, filler)),
        "cat" => Box::new(CatStream::new(srcs()?)),
        "zip" => Box::new(ZipStream::new(srcs()?, usz(&v["word"]))),
        "cut" => Box::new(CutStream::new(src()?, v["expr"].as_str().unwrap())?),
        "clip" => {
            let p = ints(&v["pad"]);
            let pad = if p.len() == 2 { Some((p[0], p[1])) } else { None };
            let seek = v["seek"].as_u64().map(|x| x as usize);
            let r = ints(&v["range"]);
            let range = if r.len() == 2 { Some(r[0]..r[1]) } else { None };
            Box::new(ClipStream::new(src()?, &ClipperParams::from_raw(pad, seek, range)?, filler))
        }
        "patch" => Box::new(PatchStream::new(src()?, build_bytes(&v["patch"])?, &fmt_of(v))),
        "text" => {
            let f = fmt_of(v);
            if f.is_gapless() {
                Box::new(GaplessTextStream::new(src()?, align, filler, &f))
            } else {
                Box::new(TextStream::new(src()?, align, filler, &f))
            }
        }
        "zero" => Box::new(ZeroStream::new(usz(&v["len"]), filler)),
        "tee" => Box::new(TeeStream::new(src()?)),
        "scatter" => Box::new(ScatterDrain::new(build_segs(&v["src"])?, "-", &fmt_of(v))?),
        t => return Err(anyhow!("unknown byte node {t}")),
    })
}

fn build_segs(v: &Value) -> Result<Box<dyn SegmentStream>> {
    let bytes = || build_bytes(&v["src"]);
    let segs = || build_segs(&v["src"]);
    let expr = || v["expr"].as_str().unwrap();
    Ok(match v["t"].as_str().unwrap() {
        "width" => Box::new(ConstSlicer::new(
            bytes()?,
            &ConstSlicerParams::from_raw(usz(&v["pitch"]), v["expr"].as_str())?,
        )),
        "find" => Box::new(ExactMatchSlicer::new(bytes()?, expr())?),
        "slice" => {
            let s = RangeSlicer::new(bytes()?, expr())?;
            Box::new(if v["tail"].as_bool().unwrap_or(false) { s.keep_tail() } else { s })
        }
        "guide" => Box::new(GuidedSlicer::new(bytes()?, build_bytes(&v["guide"])?)),
        "walk" => Box::new(WalkSlicer::new(bytes()?, expr())?),
        "regex" => Box::new(RegexSlicer::new(segs()?, expr())?),
        "invert" => Box::new(BridgeStream::new(segs()?, expr())?),
        "extend" => Box::new(ExtendStream::new(segs()?, expr())?),
        "merge" => Box::new(MergeStream::new(segs()?, usz(&v["n"]))),
        "lines" => Box::new(FilterStream::new(segs()?, expr())?),
        t => return Err(anyhow!("unknown segment node {t}")),
    })
}

static END: [u8; 4096] = [0; 4096];

// drives a segment stream along a history of takes (cycled); take < 0: everything consumable
fn drain_segs(s: &mut Box<dyn SegmentStream>, hist: &[i64], limit: usize) -> Result<(Vec<Value>, bool)> {
    let mut ev = Vec::new();
    let mut i = 0;
    let mut idle = 0;
    let mut w = Window::new();
    loop {
        let take = if hist.is_empty() { -1 } else { hist[i % hist.len()] };
        i += 1;
        let (eof, bytes, count, maxc) = s.fill_segment_buf()?;
        // (and do not look at the window again behind the end)
        let (stream, segs): (&[u8], &[Segment]) = if eof && bytes == 0 { (&END, &[]) } else { s.as_slices() };
        let margin = stream.len() >= bytes + params::MARGIN_SIZE;
        let list: Vec<Value> = segs.iter().take(count).map(|x| json!([x.pos, x.len])).collect();
        let visible = &stream[..bytes.min(stream.len())];
        let (same, fresh) = w.fill(visible);
        ev.push(json!({"k": "fill", "eof": eof, "len": bytes, "count": count, "maxc": maxc, "margin": margin,
            "nseg": segs.len(), "segs": list, "same": same, "new": fresh}));
        if eof && bytes == 0 {
            return Ok((ev, true));
        }
        if i > limit {
            return Ok((ev, false));
        }
        let mut n = if take < 0 || i > 1000 { maxc } else { take as usize % (maxc + 1) };
        if n == 0 {
            idle += 1;
        }
        if idle > 6 {
            // (a stage may keep more than what its consumer lets go)
            n = maxc;
        }
        if eof {
            // (all drains take everything at the end)
            n = maxc;
        }
        let (b, c) = s.consume(n)?;
        if b > 0 {
            idle = 0;
        } else if n > 0 {
            idle += 1;
        }
        w.take(b);
        ev.push(json!({"k": "take", "n": n, "bytes": b, "count": c}));
    }
}

pub fn run_node_case(op: &str, c: &Value) -> Result<Value> {
    match op {
        "byte" => {
            let mut s = match build_bytes(&c["node"]) {
                Ok(x) => x,
                Err(e) => return Ok(json!({"err": format!("{e:#}"), "stage": "build"})),
            };
            let (_, ev, done) = match drain_bytes(&mut s, &hist_pairs(&c["hist"]), 4000, true) {
                Ok(x) => x,
                Err(e) => return Ok(json!({"err": format!("{e:#}"), "stage": "run"})),
            };
            Ok(json!({"ev": ev, "done": done}))
        }
        "seg" => {
            let mut s = match build_segs(&c["node"]) {
                Ok(x) => x,
                Err(e) => return Ok(json!({"err": format!("{e:#}"), "stage": "build"})),
            };
            let hist: Vec<i64> = c["hist"].as_array().map_or(Vec::new(), |a| a.iter().map(|x| x.as_i64().unwrap()).collect());
            let (ev, done) = match drain_segs(&mut s, &hist, 4000) {
                Ok(x) => x,
                Err(e) => return Ok(json!({"err": format!("{e:#}"), "stage": "run"})),
            };
            Ok(json!({"ev": ev, "done": done}))
        }
        "usize" => match eval::parse_usize(c["expr"].as_str().unwrap()) {
            Ok(x) => Ok(json!({"val": x.to_string()})),
            Err(e) => Ok(json!({"err": format!("{e:#}"), "stage": "eval"})),
        },
        "rpn" => {
            // variables: name -> list of values; a one-element "scalar" or an array
            let vars: Vec<(Vec<u8>, eval::VarAttr)> = c["vars"]
                .as_array()
                .map_or(Vec::new(), |a| {
                    a.iter()
                        .enumerate()
                        .map(|(i, x)| {
                            (
                                x["name"].as_str().unwrap().as_bytes().to_vec(),
                                eval::VarAttr { is_array: x["array"].as_bool().unwrap(), id: i },
                            )
                        })
                        .collect()
                });
            let map: std::collections::HashMap<&[u8], eval::VarAttr> = vars.iter().map(|(n, a)| (n.as_slice(), *a)).collect();
            let rpn = match eval::Rpn::new(c["expr"].as_str().unwrap(), Some(&map)) {
                Ok(x) => x,
                Err(e) => return Ok(json!({"err": format!("{e:#}"), "stage": "parse"})),
            };
            let vals: Vec<Vec<i64>> = c["vars"].as_array().map_or(Vec::new(), |a| {
                a.iter()
                    .map(|x| x["vals"].as_array().unwrap().iter().map(|y| y.as_str().unwrap().parse::<i64>().unwrap()).collect())
                    .collect()
            });
            let bad = std::cell::Cell::new(false);
            let r = rpn.evaluate(|id, i| {
                let v = &vals[id];
                if c["vars"][id]["array"].as_bool().unwrap() {
                    if i < 0 || i as usize >= v.len() {
                        bad.set(true);
                        0
                    } else {
                        v[i as usize]
                    }
                } else {
                    v[0]
                }
            });
            match r {
                Ok(x) => Ok(json!({"val": x.to_string(), "oob": bad.get()})),
                Err(e) => Ok(json!({"err": format!("{e:#}"), "stage": "eval"})),
            }
        }
        op => Err(anyhow!("unknown op {op}")),
    }
}
