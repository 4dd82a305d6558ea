//! Executor: drives the real s3-server in-process, commanded by JSON lines on stdin.
//! Every command line gets exactly one reply line.  It contains no expectations about the
//! server: what is right or wrong is decided by the TLA+ specifications only.

mod mock;

use std::collections::HashMap;
use std::io::{self, BufRead, Write};
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

use bytes::Bytes;
use futures::stream::{Stream, StreamExt};
use futures::FutureExt;
use hyper::{Body, Request};
use md5::{Digest, Md5};
use s3_server::{S3Service, SharedS3Service, SimpleAuth};
use serde_json::{json, Value};

pub fn b64e(data: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::with_capacity(data.len() / 3 * 4 + 4);
    for c in data.chunks(3) {
        let n = (u32::from(c[0]) << 16)
            | (u32::from(*c.get(1).unwrap_or(&0)) << 8)
            | u32::from(*c.get(2).unwrap_or(&0));
        out.push(T[(n >> 18) as usize & 63] as char);
        out.push(T[(n >> 12) as usize & 63] as char);
        out.push(if c.len() > 1 { T[(n >> 6) as usize & 63] as char } else { '=' });
        out.push(if c.len() > 2 { T[n as usize & 63] as char } else { '=' });
    }
    out
}

pub fn b64d(s: &str) -> Vec<u8> {
    let mut out = Vec::with_capacity(s.len() / 4 * 3);
    let (mut acc, mut bits) = (0u32, 0);
    for c in s.bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => continue,
        };
        acc = (acc << 6) | u32::from(v);
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
        }
    }
    out
}

pub fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}

/// what a frame of a request body is
enum Frame {
    Data(Bytes),
    Err,
    End,
}

/// state of a request shared between its thread and the command loop
#[derive(Default)]
struct Shared {
    /// frames waiting to be pulled by the server
    frames: std::collections::VecDeque<Frame>,
    /// the waker of the body stream, set while the server waits for a frame
    waker: Option<std::task::Waker>,
    ended: bool,
    dropped: bool,
    result: Option<Value>,
    /// head of the response, when `hold` is used
    head: Option<Value>,
    /// bytes of the response body that may be pulled (hold)
    read_credit: u64,
    read_bytes: Vec<u8>,
}

struct Req {
    m: Mutex<Shared>,
    cv: Condvar,
    cancel: Mutex<Option<futures::channel::oneshot::Sender<()>>>,
}

struct BodyStream(Arc<Req>);

impl Stream for BodyStream {
    type Item = Result<Bytes, io::Error>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut s = self.0.m.lock().unwrap();
        if s.ended {
            return Poll::Ready(None);
        }
        match s.frames.pop_front() {
            Some(Frame::Data(b)) => Poll::Ready(Some(Ok(b))),
            Some(Frame::Err) => {
                s.ended = true;
                Poll::Ready(Some(Err(io::Error::new(io::ErrorKind::ConnectionReset, "reset"))))
            }
            Some(Frame::End) => {
                s.ended = true;
                Poll::Ready(None)
            }
            None => {
                s.waker = Some(cx.waker().clone());
                self.0.cv.notify_all();
                Poll::Pending
            }
        }
    }
}

impl Drop for BodyStream {
    fn drop(&mut self) {
        let mut s = self.0.m.lock().unwrap();
        s.dropped = true;
        self.0.cv.notify_all();
    }
}

struct Ctx {
    blobs: HashMap<String, Bytes>,
    svcs: HashMap<String, SharedS3Service>,
    mocks: HashMap<String, Arc<mock::MockState>>,
    reqs: HashMap<String, Arc<Req>>,
}

static CLOCK: AtomicU64 = AtomicU64::new(0);

fn tick() -> u64 {
    CLOCK.fetch_add(1, Ordering::SeqCst)
}

impl Ctx {
    fn frame(&self, v: &Value) -> Frame {
        match v {
            Value::String(s) => Frame::Data(Bytes::from(b64d(s))),
            Value::Array(a) => {
                let blob = &self.blobs[a[0].as_str().unwrap()];
                let off = a[1].as_u64().unwrap() as usize;
                let len = a[2].as_u64().unwrap() as usize;
                Frame::Data(blob.slice(off..off + len))
            }
            _ if v.get("err").is_some() => Frame::Err,
            _ => Frame::End,
        }
    }

    fn build(&self, c: &Value, req: &Arc<Req>) -> Result<Request<Body>, String> {
        let mut b = Request::builder()
            .method(c["method"].as_str().unwrap_or("GET"))
            .uri(c["uri"].as_str().unwrap_or("/"));
        if let Some(hs) = c["headers"].as_array() {
            for h in hs {
                // header values are given as latin-1 strings
                let val: Vec<u8> = h[1].as_str().unwrap_or("").chars().map(|c| c as u32 as u8).collect();
                b = b.header(h[0].as_str().unwrap_or(""), hyper::header::HeaderValue::from_bytes(&val).map_err(|e| e.to_string())?);
            }
        }
        let body = if let Some(fs) = c["frames"].as_array() {
            let mut s = req.m.lock().unwrap();
            for f in fs {
                s.frames.push_back(self.frame(f));
            }
            if c["open"].as_bool() != Some(true) {
                s.frames.push_back(Frame::End);
            }
            drop(s);
            Body::wrap_stream(BodyStream(req.clone()))
        } else {
            let mut s = req.m.lock().unwrap();
            s.ended = true;
            drop(s);
            Body::empty()
        };
        b.body(body).map_err(|e| e.to_string())
    }

    /// start a request on its own thread
    fn begin(&mut self, c: &Value) -> Value {
        let (tx, rx) = futures::channel::oneshot::channel();
        let req = Arc::new(Req { m: Mutex::default(), cv: Condvar::new(), cancel: Mutex::new(Some(tx)) });
        let r = match self.build(c, &req) {
            Ok(r) => r,
            Err(e) => return json!({ "badreq": e }),
        };
        let svc = match self.svcs.get(c["svc"].as_str().unwrap_or("")) {
            Some(s) => s.clone(),
            None => return json!({"error": "no such svc"}),
        };
        self.reqs.insert(c["id"].as_str().unwrap_or("").to_owned(), req.clone());
        let hold = c["hold"].as_bool() == Some(true);
        let inv = tick();
        let spawned = std::thread::Builder::new().name("req".into()).spawn(move || {
            let mut v = run_request(svc, r, hold, &req, rx);
            let ret = tick();
            v["inv"] = json!(inv);
            v["ret"] = json!(ret);
            let mut s = req.m.lock().unwrap();
            s.result = Some(v);
            req.cv.notify_all();
        });
        match spawned {
            Ok(_) => json!({"ok": true, "inv": inv}),
            Err(e) => json!({"error": e.to_string()}),
        }
    }

    fn wait(&self, c: &Value) -> Value {
        let id = c["id"].as_str().unwrap_or("");
        let req = match self.reqs.get(id) {
            Some(r) => r.clone(),
            None => return json!({"error": "no such req"}),
        };
        let deadline = Instant::now() + Duration::from_millis(c["timeout"].as_u64().unwrap_or(20_000));
        // idle: also return when the server waits for the next body frame
        let idle = c["idle"].as_bool() == Some(true);
        let head = c["head"].as_bool() == Some(true);
        let mut s = req.m.lock().unwrap();
        loop {
            if let Some(ref v) = s.result {
                return v.clone();
            }
            if idle && s.waker.is_some() && s.frames.is_empty() {
                return json!({"idle": true});
            }
            if head {
                if let Some(ref h) = s.head {
                    return json!({"head": h});
                }
            }
            if c["read"].as_bool() == Some(true) && s.read_credit == 0 {
                return json!({"read": s.read_bytes.len()});
            }
            let now = Instant::now();
            if now >= deadline {
                return json!({"pending": true});
            }
            s = req.cv.wait_timeout(s, deadline - now).unwrap().0;
        }
    }

    fn feed(&self, c: &Value) -> Value {
        let id = c["id"].as_str().unwrap_or("");
        let req = match self.reqs.get(id) {
            Some(r) => r.clone(),
            None => return json!({"error": "no such req"}),
        };
        let waker = {
            let mut s = req.m.lock().unwrap();
            if let Some(fs) = c["frames"].as_array() {
                for f in fs {
                    let f = self.frame(f);
                    s.frames.push_back(f);
                }
            }
            if c["end"].as_bool() == Some(true) {
                s.frames.push_back(Frame::End);
            }
            s.waker.take()
        };
        if let Some(w) = waker {
            w.wake();
        }
        json!({"ok": true})
    }
}

fn resp_head(resp: &hyper::Response<Body>) -> Value {
    let headers: Vec<Value> = resp
        .headers()
        .iter()
        .map(|(n, v)| json!([n.as_str(), v.as_bytes().iter().map(|&b| b as char).collect::<String>()]))
        .collect();
    json!({"status": resp.status().as_u16(), "headers": headers})
}

fn run_request(
    svc: SharedS3Service,
    r: Request<Body>,
    hold: bool,
    req: &Arc<Req>,
    cancel: futures::channel::oneshot::Receiver<()>,
) -> Value {
    let rt = match tokio::runtime::Builder::new_current_thread().enable_all().build() {
        Ok(rt) => rt,
        Err(e) => return json!({"error": e.to_string()}),
    };
    let req2 = req.clone();
    let fut = async move {
        let resp = match svc.hyper_call(r).await {
            Ok(resp) => resp,
            Err(e) => return json!({"err": e.to_string()}),
        };
        let mut v = resp_head(&resp);
        if hold {
            let mut s = req2.m.lock().unwrap();
            s.head = Some(v.clone());
            req2.cv.notify_all();
        }
        let mut body = resp.into_body();
        let mut data: Vec<u8> = Vec::new();
        let mut err = Value::Null;
        loop {
            if hold {
                loop {
                    {
                        let mut s = req2.m.lock().unwrap();
                        s.read_bytes = data.clone();
                        if s.read_credit > 0 {
                            s.read_credit -= 1;
                            break;
                        }
                        req2.cv.notify_all();
                    }
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
            }
            match body.next().await {
                None => break,
                Some(Ok(b)) => data.extend_from_slice(&b),
                Some(Err(e)) => {
                    err = json!(e.to_string());
                    break;
                }
            }
        }
        v["len"] = json!(data.len());
        v["md5"] = json!(hex(&Md5::digest(&data)));
        v["body_err"] = err;
        if data.len() <= 300_000 {
            v["body"] = json!(b64e(&data));
        }
        v
    };
    let ret = std::panic::catch_unwind(AssertUnwindSafe(|| {
        rt.block_on(async move {
            let mut fut = Box::pin(fut.fuse());
            let mut cancel = cancel.fuse();
            futures::select! {
                v = fut => v,
                _ = cancel => json!({"cancelled": true}),
            }
        })
    }));
    // do not wait for blocking tasks of the runtime
    rt.shutdown_background();
    match ret {
        Ok(v) => v,
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned()))
                .unwrap_or_default();
            json!({ "panic": msg })
        }
    }
}

/// several clients, each running its requests one after the other
fn par(ctx: &mut Ctx, c: &Value) -> Value {
    let start = Arc::new(AtomicBool::new(false));
    let mut handles = Vec::new();
    for client in c["clients"].as_array().cloned().unwrap_or_default() {
        let mut reqs = Vec::new();
        for r in client.as_array().cloned().unwrap_or_default() {
            let req = Arc::new(Req { m: Mutex::default(), cv: Condvar::new(), cancel: Mutex::new(None) });
            let svc = ctx.svcs.get(r["svc"].as_str().unwrap_or("")).cloned();
            let built = ctx.build(&r, &req);
            reqs.push((svc, built, req, r["delay_us"].as_u64().unwrap_or(0)));
        }
        let start = start.clone();
        handles.push(std::thread::spawn(move || {
            while !start.load(Ordering::SeqCst) {
                std::hint::spin_loop();
            }
            let mut out = Vec::new();
            for (svc, built, req, delay) in reqs {
                if delay > 0 {
                    std::thread::sleep(Duration::from_micros(delay));
                }
                let (svc, r) = match (svc, built) {
                    (Some(s), Ok(r)) => (s, r),
                    (_, Err(e)) => {
                        out.push(json!({ "badreq": e }));
                        continue;
                    }
                    _ => {
                        out.push(json!({"error": "no svc"}));
                        continue;
                    }
                };
                let (_tx, rx) = futures::channel::oneshot::channel::<()>();
                std::mem::forget(_tx);
                let inv = tick();
                let mut v = run_request(svc, r, false, &req, rx);
                v["inv"] = json!(inv);
                v["ret"] = json!(tick());
                out.push(v);
            }
            Value::Array(out)
        }));
    }
    start.store(true, Ordering::SeqCst);
    let out: Vec<Value> = handles.into_iter().map(|h| h.join().unwrap_or_else(|_| json!({"error": "join"}))).collect();
    json!({ "clients": out })
}

/// call a function of the preloaded file system shim
fn shim(c: &Value) -> Value {
    unsafe {
        let sym = |n: &str| {
            let n = std::ffi::CString::new(n).unwrap();
            libc::dlsym(libc::RTLD_DEFAULT, n.as_ptr())
        };
        let p = sym("s3shim_cmd");
        if p.is_null() {
            return json!({"error": "shim is not loaded"});
        }
        let f: extern "C" fn(*const libc::c_char, *mut libc::c_char, libc::c_long) -> libc::c_long = std::mem::transmute(p);
        let arg = std::ffi::CString::new(c["arg"].as_str().unwrap_or("")).unwrap();
        let mut buf = vec![0u8; 1 << 20];
        let n = f(arg.as_ptr(), buf.as_mut_ptr().cast(), buf.len() as libc::c_long);
        let s = String::from_utf8_lossy(&buf[..n.max(0) as usize]).into_owned();
        json!({"ret": n, "out": s})
    }
}

fn handle(ctx: &mut Ctx, c: &Value) -> Value {
    match c["cmd"].as_str().unwrap_or("") {
        "ping" => json!({"pong": true}),
        "blob" => {
            let data = match c["path"].as_str() {
                Some(p) => match std::fs::read(p) {
                    Ok(d) => d,
                    Err(e) => return json!({"error": e.to_string()}),
                },
                None => b64d(c["b64"].as_str().unwrap_or("")),
            };
            ctx.blobs.insert(c["id"].as_str().unwrap_or("").to_owned(), Bytes::from(data));
            json!({"ok": true})
        }
        "svc" => {
            let id = c["id"].as_str().unwrap_or("").to_owned();
            let mut svc = if c["kind"].as_str() == Some("mock") {
                let st = Arc::new(mock::MockState::default());
                ctx.mocks.insert(id.clone(), st.clone());
                S3Service::new(mock::Mock(st))
            } else {
                match s3_server::storages::fs::FileSystem::new(c["root"].as_str().unwrap_or("")) {
                    Ok(fs) => S3Service::new(fs),
                    Err(e) => return json!({"error": e.to_string()}),
                }
            };
            if let Some(keys) = c["auth"].as_object() {
                let mut auth = SimpleAuth::new();
                for (k, v) in keys {
                    auth.register(k.clone(), v.as_str().unwrap_or("").to_owned());
                }
                svc.set_auth(auth);
            }
            ctx.svcs.insert(id, svc.into_shared());
            json!({"ok": true})
        }
        "drop_svc" => {
            ctx.svcs.remove(c["id"].as_str().unwrap_or(""));
            json!({"ok": true})
        }
        "mock" => match ctx.mocks.get(c["svc"].as_str().unwrap_or("")) {
            Some(m) => {
                m.next.lock().unwrap().insert(c["op"].as_str().unwrap_or("").to_owned(), c["result"].clone());
                json!({"ok": true})
            }
            None => json!({"error": "no mock"}),
        },
        "calls" => match ctx.mocks.get(c["svc"].as_str().unwrap_or("")) {
            Some(m) => json!({"calls": std::mem::take(&mut *m.calls.lock().unwrap())}),
            None => json!({"error": "no mock"}),
        },
        "begin" => ctx.begin(c),
        "req" => {
            let mut c = c.clone();
            c["id"] = json!("_");
            let v = ctx.begin(&c);
            if v.get("ok").is_none() {
                return v;
            }
            ctx.wait(&c)
        }
        "wait" => ctx.wait(c),
        "feed" => ctx.feed(c),
        "cancel" => {
            if let Some(r) = ctx.reqs.get(c["id"].as_str().unwrap_or("")) {
                if let Some(tx) = r.cancel.lock().unwrap().take() {
                    let _ = tx.send(());
                }
            }
            json!({"ok": true})
        }
        "credit" => {
            if let Some(r) = ctx.reqs.get(c["id"].as_str().unwrap_or("")) {
                r.m.lock().unwrap().read_credit += c["n"].as_u64().unwrap_or(1);
            }
            json!({"ok": true})
        }
        "forget" => {
            ctx.reqs.remove(c["id"].as_str().unwrap_or(""));
            json!({"ok": true})
        }
        "par" => par(ctx, c),
        "shim" => shim(c),
        "tick" => json!({"t": tick()}),
        "usage" => json!({"fds": std::fs::read_dir("/proc/self/fd").map(|d| d.count() as i64).unwrap_or(-1)}),
        _ => json!({"error": "unknown command"}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut ctx = Ctx { blobs: HashMap::new(), svcs: HashMap::new(), mocks: HashMap::new(), reqs: HashMap::new() };
    let stdin = io::stdin();
    let stdout = io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let reply = match serde_json::from_str::<Value>(&line) {
            Ok(c) => std::panic::catch_unwind(AssertUnwindSafe(|| handle(&mut ctx, &c)))
                .unwrap_or_else(|_| json!({"error": "executor panic"})),
            Err(e) => json!({"error": e.to_string()}),
        };
        let mut out = stdout.lock();
        if writeln!(out, "{reply}").and_then(|()| out.flush()).is_err() {
            break;
        }
    }
    // do not wait for frozen threads
    unsafe { libc::_exit(0) };
}
