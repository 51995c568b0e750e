//! C18: every message, encoded by one side and decoded by the other, in both directions and over the real router.
use axum::extract::FromRequest;
use axum::response::IntoResponse;
use execgraph::http_extensions::axum::Postcard;
use execgraph::http_extensions::reqwest::{RequestBuilderExt, ResponseExt};
use execgraph::httpinterface::*;
use hyper::Body;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::HashMap;
use std::ffi::OsString;
use vh::*;

fn jv<T: Serialize>(t: &T) -> serde_json::Value {
    serde_json::to_value(t).unwrap()
}

fn text(r: &mut Rng, n: usize) -> String {
    let style = r.below(3);
    (0..n)
        .map(|_| match style {
            0 => 'x',
            1 => (33 + r.below(90)) as u8 as char,
            _ => *r.pick(&['ü', 'a', '\n', '\u{1F600}', '"', '\0']),
        })
        .collect()
}
fn size(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => 0,
        1..=5 => 90 + r.below(60),
        6 | 7 => r.below(400),
        8 => r.below(5000),
        _ => r.below(200_000),
    }
}
fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.next() as u8).collect()
}
fn start_req(r: &mut Rng) -> StartRequest {
    let n = size(r);
    StartRequest { runnertypeid: r.next() as u32, disconnect_error_message: text(r, n) }
}
fn start_resp(r: &mut Rng) -> StartResponse {
    use std::os::unix::ffi::OsStringExt;
    let n = r.below(6);
    StartResponse {
        transaction_id: r.next() as u32,
        cmdline: (0..n).map(|_| { let k = size(r) % 2000; if r.chance(1, 3) { OsString::from_vec(bytes(r, k)) } else { OsString::from(text(r, k)) } }).collect(),
        fd_input: if r.chance(1, 2) { let k = size(r); Some((r.next() as i32, bytes(r, k))) } else { None },
        ping_interval_msecs: r.next(),
    }
}
fn end_req(r: &mut Rng) -> EndRequest {
    let (a, b) = (size(r), size(r) % 1000);
    EndRequest {
        transaction_id: r.next() as u32,
        status: r.next() as i32,
        stdout: text(r, a),
        stderr: text(r, b),
        values: (0..r.below(3)).map(|_| (0..r.below(4)).map(|_| { let k = 1 + r.below(20); (text(r, k), text(r, k)) }).collect::<HashMap<_, _>>()).collect(),
        start_request: if r.chance(1, 2) { Some(start_req(r)) } else { None },
    }
}

/// a message and the headers and body it was sent with
fn check_frame(run: &mut Run, what: &str, plain: &[u8], ct: Option<&str>, ce: Option<&str>, body: &[u8]) {
    let lim = 128;
    let dec = match ce {
        None => body.to_vec(),
        Some("lz4") => {
            let mut v = vec![];
            if lzzzz::lz4f::decompress_to_vec(body, &mut v).is_err() {
                run.fail("frame", format!("{}: headers say lz4, the body ({} bytes) is not", what, body.len()));
                return;
            }
            v
        }
        Some(x) => {
            run.fail("frame", format!("{}: content encoding {:?}", what, x));
            return;
        }
    };
    if ct != Some("application/postcard") || dec != plain {
        run.fail("frame", format!("{}: content type {:?}, encoding {:?}: the body of {} bytes does not hold the {} bytes of the message", what, ct, ce, body.len(), plain.len()));
    }
    if plain.len() != lim && (plain.len() > lim) != ce.is_some() {
        run.fail("frame", format!("{}: message of {} bytes sent with encoding {:?}", what, plain.len(), ce));
    }
}

async fn both<T: Serialize + DeserializeOwned>(run: &mut Run, r: &mut Rng, name: &str, m: T, cl: &reqwest::Client) {
    run.eval();
    let want = jv(&m);
    let plain = postcard::to_allocvec(&m).unwrap();
    if plain.len() > 100 {
        run.nontrivial(&(name, plain.clone()));
        run.sample(|| format!("{} of {} bytes", name, plain.len()));
    }
    // request direction
    let rq = match cl.post("http://localhost/x").postcard(&m).map(|b| b.build().unwrap()) {
        Ok(b) => b,
        Err(e) => return run.fail("encode", format!("{} of {} bytes: {}", name, plain.len(), e)),
    };
    let h = |k: &str| rq.headers().get(k).map(|v| v.to_str().unwrap().to_string());
    let body = rq.body().and_then(|b| b.as_bytes()).unwrap_or(&[]).to_vec();
    let (ct, ce) = (h("content-type"), h("content-encoding"));
    check_frame(run, &format!("request {}", name), &plain, ct.as_deref(), ce.as_deref(), &body);
    let mk = |ct: Option<&str>, ce: Option<&str>, body: Vec<u8>| {
        let mut q = hyper::Request::builder().method("POST").uri("/x");
        if let Some(c) = ct {
            q = q.header("content-type", c);
        }
        if let Some(c) = ce {
            q = q.header("content-encoding", c);
        }
        q.body(Body::from(body)).unwrap()
    };
    match Postcard::<T>::from_request(mk(ct.as_deref(), ce.as_deref(), body.clone()), &()).await {
        Ok(Postcard(x)) if jv(&x) == want => {}
        Ok(_) => run.fail("roundtrip", format!("request {} of {} bytes decodes to something else", name, plain.len())),
        Err(e) => run.fail("roundtrip", format!("request {} of {} bytes is refused: {}", name, plain.len(), e)),
    }
    // response direction
    let rs = Postcard(m).into_response();
    let st = rs.status();
    let (p, b) = rs.into_parts();
    let rb = hyper::body::to_bytes(b).await.unwrap().to_vec();
    let g = |k: &str| p.headers.get(k).map(|v| v.to_str().unwrap().to_string());
    let (rct, rce) = (g("content-type"), g("content-encoding"));
    if st != 200 {
        run.fail("encode", format!("response {} of {} bytes: status {}", name, plain.len(), st));
    }
    check_frame(run, &format!("response {}", name), &plain, rct.as_deref(), rce.as_deref(), &rb);
    let mkr = |ct: Option<&str>, ce: Option<&str>, body: Vec<u8>| {
        let mut q = http::Response::builder().status(200);
        if let Some(c) = ct {
            q = q.header("content-type", c);
        }
        if let Some(c) = ce {
            q = q.header("content-encoding", c);
        }
        reqwest::Response::from(q.body(body).unwrap())
    };
    match mkr(rct.as_deref(), rce.as_deref(), rb.clone()).postcard::<T>().await {
        Ok(x) if jv(&x) == want => {}
        Ok(_) => run.fail("roundtrip", format!("response {} of {} bytes decodes to something else", name, plain.len())),
        Err(e) => run.fail("roundtrip", format!("response {} of {} bytes is refused: {}", name, plain.len(), e)),
    }
    // JSON is the other known content type, both sides
    let js = serde_json::to_vec(&want).unwrap();
    let mut jz = vec![];
    lzzzz::lz4f::compress_to_vec(&js, &mut jz, &Default::default()).unwrap();
    let mut pz = vec![];
    lzzzz::lz4f::compress_to_vec(&plain, &mut pz, &Default::default()).unwrap();
    if r.chance(1, 2) {
        for (ce, b) in [(None, &js), (Some("lz4"), &jz)] {
            if !matches!(Postcard::<T>::from_request(mk(Some("application/json"), ce, b.clone()), &()).await, Ok(Postcard(ref x)) if jv(x) == want) {
                run.fail("json", format!("JSON request {} with encoding {:?} does not decode to what was encoded", name, ce));
            }
            if !matches!(mkr(Some("application/json"), ce, b.clone()).postcard::<T>().await, Ok(ref x) if jv(x) == want) {
                run.fail("json", format!("JSON response {} with encoding {:?} does not decode to what was encoded", name, ce));
            }
        }
    }
    // refusals
    let bad_ct = [None, Some("text/plain"), Some("application/postcard2"), Some("application/octet-stream"), Some(""), Some("application/jso"), Some("postcard")];
    let bad_ce = ["gzip", "identity", "br", "lz", "lz44", "deflate", ""];
    let ok_ct = ["application/postcard", "application/json"];
    for _ in 0..3 {
        let (ct, ce, b): (Option<&str>, Option<&str>, Vec<u8>) = match r.below(3) {
            0 => (*r.pick(&bad_ct), None, if r.chance(1, 2) { plain.clone() } else { js.clone() }),
            1 => (*r.pick(&bad_ct), Some("lz4"), if r.chance(1, 2) { pz.clone() } else { jz.clone() }),
            _ => {
                let c = *r.pick(&ok_ct);
                let z = r.chance(1, 2);
                (Some(c), Some(*r.pick(&bad_ce)), if c.ends_with("json") { if z { jz.clone() } else { js.clone() } } else if z { pz.clone() } else { plain.clone() })
            }
        };
        if Postcard::<T>::from_request(mk(ct, ce, b.clone()), &()).await.is_ok() {
            run.fail("misread", format!("request {} with content type {:?} and encoding {:?} is accepted", name, ct, ce));
        }
        if mkr(ct, ce, b.clone()).postcard::<T>().await.is_ok() {
            run.fail("misread", format!("response {} with content type {:?} and encoding {:?} is accepted", name, ct, ce));
        }
    }
}

/// Very large messages through the router itself.
async fn through_router(run: &mut Run, r: &mut Rng, n: usize, dir: &std::path::Path) {
    use execgraph::sync::*;
    use execgraph::verif::*;
    use tower::ServiceExt;
    run.eval();
    let mut c0 = cmd(&["true"], "big", 1, 0);
    let input = bytes(r, n);
    c0.fd_input = Some((4, input.clone()));
    let c: &'static _ = Box::leak(Box::new(c0));
    let mut g = petgraph::graph::DiGraph::new();
    g.add_node(c);
    g.add_node(Box::leak(Box::new(cmd(&["true"], "other", 2, 0))));
    let g = std::sync::Arc::new(g);
    let p = dir.join(format!("w{}", r.next()));
    std::fs::create_dir_all(&p).unwrap();
    let p = p.join("log");
    let lf: &'static mut _ = Box::leak(Box::new(execgraph::logfile2::LogFile::<execgraph::logfile2::LogFileRW>::new(&p).unwrap()));
    let token = CancellationToken::new();
    let (mut server, client) = new_ready_tracker(g.clone(), lf, 0, u32::MAX, 0);
    let client: &'static ReadyTrackerClient = Box::leak(Box::new(client));
    let st = std::sync::Arc::new(State::new(g, client, token.clone(), execgraph::execgraph::RemoteProvisionerSpec { cmd: "".into(), info: None }, "tok".into()));
    let app = router(st);
    let cl = reqwest::Client::new();
    let (_, res) = tokio::join!(server.background_serve(token.clone()), async {
        let out: Result<(), String> = async {
            let send = |path: &'static str, method: &'static str, rq: reqwest::Request| {
                let mut q = hyper::Request::builder().method(method).uri(path).header("Authorization", "Bearer tok").header("X-EXECGRAPH-SLURM-JOB-ID", "j");
                for (k, v) in rq.headers() {
                    q = q.header(k, v);
                }
                app.clone().oneshot(q.body(Body::from(rq.body().unwrap().as_bytes().unwrap().to_vec())).unwrap())
            };
            let to_client = |rs: axum::response::Response| async move {
                let (p, b) = rs.into_parts();
                let b = hyper::body::to_bytes(b).await.unwrap().to_vec();
                let mut q = http::Response::builder().status(p.status);
                for (k, v) in p.headers.iter() {
                    q = q.header(k, v);
                }
                reqwest::Response::from(q.body(b).unwrap())
            };
            let big = text(r, n);
            let rs = send("/start", "GET", cl.get("http://x/").postcard(&StartRequest { runnertypeid: 0, disconnect_error_message: big.clone() }).unwrap().build().unwrap()).await.unwrap();
            if rs.status() != 200 {
                return Err(format!("a start request of {} bytes is refused with {}", n, rs.status()));
            }
            let s: StartResponse = to_client(rs).await.postcard().await.map_err(|e| format!("start response with {} bytes of input: {}", n, e))?;
            if s.fd_input != Some((4, input.clone())) {
                return Err("start response decodes to something else".into());
            }
            let stdout: String = (0..n).map(|_| (33 + r.below(90)) as u8 as char).collect();
            let rs = send("/end", "POST", cl.post("http://x/").postcard(&EndRequest { transaction_id: s.transaction_id, status: 0, stdout, stderr: String::new(), values: vec![], start_request: None }).unwrap().build().unwrap()).await.unwrap();
            if rs.status() != 200 {
                return Err(format!("an end request with {} bytes of output is refused with {}", n, rs.status()));
            }
            Ok(())
        }
        .await;
        token.cancel(CancellationState::HardCancelled);
        out
    });
    if let Err(e) = res {
        run.fail("large", e);
    }
}

fn main() {
    silence();
    let dir = Scratch::new();
    let mut run = Run::new("non-trivial: a message of more than 100 encoded bytes", "random messages of every type up to 200 kB, concentrated around the compression threshold; messages of up to 8 MB through the router; unknown and missing headers", 15.);
    let mut r = Rng::new(seed());
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let cl = reqwest::Client::new();
        for n in [1_000usize, 1_500_000, 3_000_000, 8_000_000] {
            through_router(&mut run, &mut r, n, &dir.0).await;
        }
        // every size around the threshold
        for n in 0..300 {
            both(&mut run, &mut r, "StartRequest", StartRequest { runnertypeid: 1, disconnect_error_message: "y".repeat(n) }, &cl).await;
            let m = EndResponse { start_response: Some(StartResponse { transaction_id: 7, cmdline: vec![], fd_input: Some((3, bytes(&mut r, n))), ping_interval_msecs: 5 }) };
            both(&mut run, &mut r, "EndResponse", m, &cl).await;
        }
        while run.time_left() {
            match r.below(6) {
                0 => {
                    let m = Ping { transaction_id: r.next() as u32 };
                    both(&mut run, &mut r, "Ping", m, &cl).await
                }
                1 => {
                    let m = start_req(&mut r);
                    both(&mut run, &mut r, "StartRequest", m, &cl).await
                }
                2 => {
                    let m = start_resp(&mut r);
                    both(&mut run, &mut r, "StartResponse", m, &cl).await
                }
                3 => {
                    let n = size(&mut r);
                    let m = BegunRequest { transaction_id: r.next() as u32, host: text(&mut r, n), pid: r.next() as u32 };
                    both(&mut run, &mut r, "BegunRequest", m, &cl).await
                }
                4 => {
                    let m = end_req(&mut r);
                    both(&mut run, &mut r, "EndRequest", m, &cl).await
                }
                _ => {
                    let m = EndResponse { start_response: if r.chance(3, 4) { Some(start_resp(&mut r)) } else { None } };
                    both(&mut run, &mut r, "EndResponse", m, &cl).await
                }
            }
            // the status reply travels as JSON
            let m = StatusReply {
                queues: (0..r.below(5)).map(|_| (if r.chance(1, 2) { r.next() } else { 1 << r.below(64) }, StatusQueueReply { num_ready: r.next() as u32, num_inflight: r.next() as u32 })).collect(),
                etag: r.next(),
                server_metrics: ServerMetrics { p50_latency: HashMap::from([("a".to_string(), 3)]), p99_latency: HashMap::new() },
                rate: 0.5,
                num_unready_tasks: r.next() as u32,
                num_total_tasks: r.next() as u32,
                average_recent_task_runtime: 1.5,
                ratelimit: r.next() as u32,
                provisioner_info: None,
            };
            let s = serde_json::to_vec(&m).unwrap();
            match serde_json::from_slice::<StatusReply>(&s) {
                Ok(x) => {
                    let q = |m: &StatusReply| { let mut v: Vec<_> = m.queues.iter().map(|(k, s)| (*k, s.num_ready, s.num_inflight)).collect(); v.sort(); v };
                    if q(&x) != q(&m) || (x.etag, x.num_unready_tasks, x.num_total_tasks, x.ratelimit) != (m.etag, m.num_unready_tasks, m.num_total_tasks, m.ratelimit) {
                        run.fail("roundtrip", "StatusReply decodes to something else");
                    }
                }
                Err(e) => run.fail("roundtrip", format!("StatusReply: {}", e)),
            }
        }
    });
    drop(dir);
    run.finish();
}
