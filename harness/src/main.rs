//! picadrv: executes scripts against the real pica library and records traces.
//!
//! Every script runs in its own single-threaded tokio runtime with paused (virtual) time,
//! so that a run is deterministic and every timer of the emulator is under control.
//! The driver is deliberately dumb: it neither knows nor checks anything about UCI; the
//! traces are judged by the TLA+ specification (spec/PicaTrace.tla).
use pica::{Handle, MacAddress, Pica, PicaCommand, PicaEvent, RangingEstimator, RangingMeasurement};
use serde::{Deserialize, Serialize};
use std::io::{BufRead, Read, Write};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::{mpsc, oneshot};

#[derive(Deserialize)]
struct Script {
    id: String,
    #[serde(default)]
    salt: i64,
    /// Run the event loop through `pica::run(&Mutex<Pica>)` instead of `Pica::run`.
    #[serde(default)]
    mutex: bool,
    /// Capture directory passed to pica.
    #[serde(default)]
    pcap: Option<String>,
    /// Connect the hosts through TCP, with pica's own reader and writer, as its servers do.
    #[serde(default)]
    tcp: bool,
    steps: Vec<Step>,
}

#[derive(Deserialize, Serialize, Clone)]
struct Step {
    a: Vec<Act>,
    ms: u64,
}

/// One driver action. `k` is the kind, the other fields depend on it.
#[derive(Deserialize, Serialize, Clone, Default)]
struct Act {
    k: String,
    #[serde(default)]
    c: usize,
    #[serde(default)]
    p: Vec<u8>,
    #[serde(default)]
    s: Vec<u8>,
    #[serde(default)]
    n: u64,
}

#[derive(Serialize)]
struct StepOut {
    a: Vec<Act>,
    ms: u64,
    /// packets handed to the sinks: (connection, packet)
    o: Vec<(usize, Vec<u8>)>,
    /// relative virtual time of each packet within the step
    t: Vec<u64>,
    /// events: (1 connected / 0 disconnected, handle, mac)
    e: Vec<(u8, usize, Vec<u8>)>,
    /// anchor replies: (1 ok / 0 exists / 2 not found / 3 no reply, handle)
    r: Vec<(u8, usize)>,
    /// octets appended to the capture files: (handle, octets)
    f: Vec<(usize, Vec<u8>)>,
    /// real time at the begin and the end of the step, in microseconds
    u: (u64, u64),
}

#[derive(Serialize)]
struct Trace {
    id: String,
    salt: i64,
    /// `o` holds the octets received in the step, not packets
    tcp: bool,
    /// captures: "" (none asked for), "on", "bad" (directory not usable)
    cap: &'static str,
    steps: Vec<StepOut>,
    dead: bool,
}

struct Est {
    salt: i64,
}

impl RangingEstimator for Est {
    fn estimate(&self, left: &Handle, right: &Handle) -> Option<RangingMeasurement> {
        if self.salt == 0 {
            return Some(Default::default());
        }
        let x = *left as i64 * 7 + *right as i64 * 13 + self.salt * 31;
        if x % 11 == 3 {
            return None;
        }
        Some(RangingMeasurement {
            range: ((x * 257) % 65536) as u16,
            azimuth: ((x * 37) % 361 - 180) as i16,
            elevation: ((x * 17) % 181 - 90) as i8,
        })
    }
}

fn mac_of(bytes: &[u8]) -> MacAddress {
    match bytes.len() {
        2 => MacAddress::Short(bytes.try_into().unwrap()),
        8 => MacAddress::Extended(bytes.try_into().unwrap()),
        _ => panic!("bad mac in script"),
    }
}

fn sid_of(bytes: &[u8]) -> u32 {
    u32::from_le_bytes(bytes.try_into().expect("bad session id in script"))
}

/// The sink side of a connection; fails when `broken` is set.
#[derive(Default)]
struct Conn {
    stream_tx: Option<mpsc::UnboundedSender<Vec<u8>>>,
    broken: Arc<Mutex<bool>>,
    /// Whether the host has stopped reading for now.
    held: Option<tokio::sync::watch::Sender<bool>>,
    tcp: Option<TcpConn>,
}

/// A host connected through TCP.
struct TcpConn {
    host: Option<std::net::TcpStream>,
    server_fd: i32,
    server_port: u16,
    received: Vec<u8>,
    unsent: Vec<u8>,
    shut: bool,
}

fn queued(fd: i32, what: libc::c_ulong) -> i32 {
    let mut n: i32 = 0;
    if unsafe { libc::ioctl(fd, what, &mut n) } < 0 {
        return 0;
    }
    n
}

impl TcpConn {
    /// Moves octets; returns whether there was anything to move or something is still under way.
    fn poll(&mut self) -> bool {
        let mut busy = false;
        let Some(host) = &mut self.host else { return false };
        while !self.unsent.is_empty() {
            match host.write(&self.unsent) {
                Ok(n) if n > 0 => {
                    self.unsent.drain(..n);
                    busy = true
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    busy = true;
                    break;
                }
                _ => self.unsent.clear(),
            }
        }
        if self.shut {
            let _ = host.shutdown(std::net::Shutdown::Write);
        }
        let mut buf = [0; 65536];
        let mut open = true;
        loop {
            match host.read(&mut buf) {
                Ok(0) => {
                    open = false;
                    break;
                }
                Ok(n) => {
                    self.received.extend_from_slice(&buf[..n]);
                    busy = true
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                Err(_) => {
                    open = false;
                    break;
                }
            }
        }
        if !open {
            return busy;
        }
        use std::os::fd::AsRawFd;
        let fd = host.as_raw_fd();
        if queued(fd, libc::TIOCOUTQ) > 0 {
            busy = true
        }
        // The server's descriptor may be closed, and its number re-used.
        let ours = unsafe {
            let mut a: libc::sockaddr_in = std::mem::zeroed();
            let mut l = std::mem::size_of::<libc::sockaddr_in>() as u32;
            libc::getpeername(self.server_fd, &mut a as *mut _ as *mut libc::sockaddr, &mut l) == 0
                && u16::from_be(a.sin_port) == self.server_port
        };
        if ours && (queued(self.server_fd, libc::FIONREAD) > 0 || queued(self.server_fd, libc::TIOCOUTQ) > 0) {
            busy = true
        }
        busy
    }
}

type Log = Arc<Mutex<Vec<(usize, u64, Vec<u8>)>>>;

struct Ctx {
    conns: Vec<Conn>,
    log: Log,
    start: tokio::time::Instant,
    pica: Option<Arc<Mutex<Pica>>>,
    cmd: mpsc::Sender<PicaCommand>,
    replies: Vec<oneshot::Receiver<Result<Handle, pica::PicaCommandError>>>,
    listener: Option<tokio::net::TcpListener>,
}

impl Ctx {
    async fn endpoints(&mut self) -> (pica::UciStream, pica::UciSink) {
        if let Some(listener) = &self.listener {
            use std::os::fd::AsRawFd;
            let host = std::net::TcpStream::connect(listener.local_addr().unwrap()).expect("connect");
            host.set_nodelay(true).unwrap();
            host.set_nonblocking(true).unwrap();
            // Awaiting here would let the virtual clock run on.
            let socket = loop {
                match futures::poll!(std::pin::pin!(listener.accept())) {
                    std::task::Poll::Ready(r) => break r.expect("accept").0,
                    std::task::Poll::Pending => tokio::task::yield_now().await,
                }
            };
            let server_fd = socket.as_raw_fd();
            let server_port = host.local_addr().unwrap().port();
            let (read_half, write_half) = socket.into_split();
            let stream = Box::pin(futures::stream::unfold(read_half, pica::packets::uci::read));
            let sink = Box::pin(futures::sink::unfold(write_half, pica::packets::uci::write));
            self.conns.push(Conn {
                tcp: Some(TcpConn { host: Some(host), server_fd, server_port, received: vec![], unsent: vec![], shut: false }),
                ..Default::default()
            });
            return (stream, sink);
        }
        let idx = self.conns.len();
        let (stream_tx, stream_rx) = mpsc::unbounded_channel::<Vec<u8>>();
        let broken = Arc::new(Mutex::new(false));
        let (held_tx, held_rx) = tokio::sync::watch::channel(false);
        self.conns.push(Conn { stream_tx: Some(stream_tx), broken: broken.clone(), held: Some(held_tx), tcp: None });
        let stream = Box::pin(futures::stream::unfold(stream_rx, |mut rx| async move {
            rx.recv().await.map(|p| (p, rx))
        }));
        let log = self.log.clone();
        let start = self.start;
        let sink = Box::pin(futures::sink::unfold((), move |_, p: Vec<u8>| {
            let log = log.clone();
            let broken = broken.clone();
            let mut held = held_rx.clone();
            async move {
                let _ = held.wait_for(|held| !*held).await;
                if *broken.lock().unwrap() {
                    anyhow::bail!("broken sink")
                }
                let now = (tokio::time::Instant::now() - start).as_millis() as u64;
                log.lock().unwrap().push((idx, now, p));
                Ok::<(), anyhow::Error>(())
            }
        }));
        (stream, sink)
    }

    async fn queue(&self, cmd: PicaCommand) {
        // The queue is bounded: only wait when it is full.
        match self.cmd.try_send(cmd) {
            Ok(()) => (),
            Err(mpsc::error::TrySendError::Full(cmd)) => {
                let _ = self.cmd.send(cmd).await;
            }
            Err(_) => (),
        }
    }

    async fn act(&mut self, a: &Act) {
        match a.k.as_str() {
            // Connect through the command queue, or synchronously.
            "conn" => {
                let (stream, sink) = self.endpoints().await;
                match &self.pica {
                    Some(p) if a.n == 1 => {
                        let _ = p.lock().map(|mut p| p.add_device(stream, sink).map(|_| ()));
                    }
                    _ => self.queue(PicaCommand::Connect(stream, sink)).await,
                }
            }
            // Packet read from the connection's stream.
            "tx" | "raw" if self.conns[a.c].tcp.is_some() => {
                let tcp = self.conns[a.c].tcp.as_mut().unwrap();
                tcp.unsent.extend_from_slice(&a.p);
                tcp.poll();
            }
            // The host closes its side (n = 0), or goes away altogether.
            "eof" if self.conns[a.c].tcp.is_some() => {
                let tcp = self.conns[a.c].tcp.as_mut().unwrap();
                tcp.shut = true;
                for _ in 0..10000 {
                    tcp.poll();
                    if tcp.unsent.is_empty() {
                        break;
                    }
                    tokio::task::yield_now().await
                }
                if a.n == 1 {
                    tcp.host = None
                }
            }
            // Real time passes.
            "nap" => std::thread::sleep(Duration::from_millis(a.n)),
            "tx" => {
                if let Some(tx) = &self.conns[a.c].stream_tx {
                    let _ = tx.send(a.p.clone());
                }
            }
            // Close the host-to-controller direction.
            "eof" => self.conns[a.c].stream_tx = None,
            // Break the controller-to-host direction.
            "brk" => *self.conns[a.c].broken.lock().unwrap() = true,
            // The host does not read for a while.
            "hold" | "flow" => {
                if let Some(held) = &self.conns[a.c].held {
                    let _ = held.send(a.k == "hold");
                }
            }
            // Commands injected in the event queue; `c` is a device handle.
            "qpkt" => self.queue(PicaCommand::UciPacket(a.c, a.p.clone())).await,
            "qrng" => {
                for _ in 0..std::cmp::max(1, a.n) {
                    self.queue(PicaCommand::Ranging(a.c, sid_of(&a.s))).await
                }
            }
            "qstp" => self.queue(PicaCommand::StopRanging(mac_of(&a.p), sid_of(&a.s))).await,
            "qdis" => self.queue(PicaCommand::Disconnect(a.c)).await,
            "anc" | "and" => {
                let (tx, rx) = oneshot::channel();
                self.replies.push(rx);
                let mac = mac_of(&a.p);
                self.queue(if a.k == "anc" {
                    PicaCommand::CreateAnchor(mac, tx)
                } else {
                    PicaCommand::DestroyAnchor(mac, tx)
                })
                .await
            }
            // An anchor request whose requester has gone away.
            "ancx" => {
                let (tx, rx) = oneshot::channel();
                drop(rx);
                self.queue(PicaCommand::CreateAnchor(mac_of(&a.p), tx)).await
            }
            "nop" => (),
            k => panic!("unknown action {}", k),
        }
    }
}

/// Lets every task run until nothing moves any more.
async fn settle(ctx: &mut Ctx) {
    for _ in 0..64 {
        tokio::task::yield_now().await
    }
    if ctx.listener.is_none() {
        return;
    }
    let mut quiet = 0;
    for round in 0..20000 {
        for _ in 0..16 {
            tokio::task::yield_now().await
        }
        let mut busy = false;
        for conn in &mut ctx.conns {
            if let Some(tcp) = &mut conn.tcp {
                busy |= tcp.poll()
            }
        }
        quiet = if busy { 0 } else { quiet + 1 };
        if quiet == 4 {
            break;
        }
        if round > 100 {
            std::thread::sleep(Duration::from_micros(50))
        }
    }
}

async fn run_script(script: Script) -> Trace {
    let pica = Pica::new(
        Box::new(Est { salt: script.salt }),
        script.pcap.as_ref().map(|d| d.into()),
    );
    let cmd = pica.commands();
    let mut events = pica.events();
    let (shared, task) = if script.mutex {
        let shared = Arc::new(Mutex::new(pica));
        let s = shared.clone();
        (Some(shared), tokio::spawn(async move { pica::run(&s).await }))
    } else {
        (None, tokio::spawn(pica.run()))
    };
    let log: Log = Default::default();
    let mut ctx = Ctx {
        conns: vec![],
        log: log.clone(),
        start: tokio::time::Instant::now(),
        pica: shared,
        cmd,
        replies: vec![],
        listener: match script.tcp {
            true => Some(tokio::net::TcpListener::bind("127.0.0.1:0").await.expect("listen")),
            false => None,
        },
    };
    let real = std::time::Instant::now();
    let mut captured: std::collections::BTreeMap<usize, usize> = Default::default();
    let usable = script.pcap.as_ref().is_some_and(|d| std::path::Path::new(d).is_dir());
    let cap = match &script.pcap {
        None => "",
        Some(_) if usable => "on",
        _ => "bad",
    };
    let mut out = Trace { id: script.id, salt: script.salt, tcp: script.tcp, cap, steps: vec![], dead: false };
    settle(&mut ctx).await;
    for step in script.steps {
        let u0 = real.elapsed().as_micros() as u64;
        let t0 = (tokio::time::Instant::now() - ctx.start).as_millis() as u64;
        for a in &step.a {
            // Churn: connect and close `n` hosts, waiting for each to be cleaned up.
            if a.k == "churn" {
                for _ in 0..a.n {
                    let (stream, sink) = ctx.endpoints().await;
                    ctx.conns.pop();
                    ctx.queue(PicaCommand::Connect(stream, sink)).await;
                    for _ in 0..6 {
                        tokio::task::yield_now().await
                    }
                    while events.try_recv().is_ok() {}
                }
                settle(&mut ctx).await;
                tokio::time::sleep(Duration::from_millis(10)).await;
                settle(&mut ctx).await;
                while events.try_recv().is_ok() {}
                log.lock().unwrap().retain(|(c, _, _)| *c < ctx.conns.len());
            } else {
                ctx.act(a).await
            }
        }
        settle(&mut ctx).await;
        tokio::time::sleep(Duration::from_millis(step.ms)).await;
        settle(&mut ctx).await;
        let mut so = StepOut { a: step.a, ms: step.ms, o: vec![], t: vec![], e: vec![], r: vec![], f: vec![], u: (0, 0) };
        for (c, t, p) in log.lock().unwrap().drain(..) {
            so.o.push((c, p));
            so.t.push(t - t0);
        }
        for (c, conn) in ctx.conns.iter_mut().enumerate() {
            if let Some(tcp) = &mut conn.tcp {
                if !tcp.received.is_empty() {
                    so.o.push((c, std::mem::take(&mut tcp.received)));
                    so.t.push(0)
                }
            }
        }
        if usable {
            let mut names: Vec<_> = std::fs::read_dir(script.pcap.as_ref().unwrap())
                .unwrap()
                .map(|e| e.unwrap().file_name().into_string().unwrap())
                .collect();
            names.sort();
            for name in names {
                let h = name
                    .strip_prefix("device-")
                    .and_then(|n| n.strip_suffix(".pcapng"))
                    .and_then(|n| n.parse::<usize>().ok())
                    .unwrap_or(999999999);
                let bytes = std::fs::read(std::path::Path::new(script.pcap.as_ref().unwrap()).join(&name)).unwrap();
                let from = captured.get(&h).copied();
                if from != Some(bytes.len()) {
                    so.f.push((h, bytes[std::cmp::min(from.unwrap_or(0), bytes.len())..].to_vec()));
                    captured.insert(h, bytes.len());
                }
            }
        }
        so.u = (u0, real.elapsed().as_micros() as u64);
        while let Ok(ev) = events.try_recv() {
            so.e.push(match ev {
                PicaEvent::Connected { handle, mac_address } => (1, handle, mac_address.into()),
                PicaEvent::Disconnected { handle, mac_address } => (0, handle, mac_address.into()),
            })
        }
        for mut rx in ctx.replies.drain(..) {
            so.r.push(match rx.try_recv() {
                Ok(Ok(h)) => (1, h),
                Ok(Err(pica::PicaCommandError::DeviceAlreadyExists(_))) => (0, 0),
                Ok(Err(pica::PicaCommandError::DeviceNotFound(_))) => (2, 0),
                Err(_) => (3, 0),
            })
        }
        out.steps.push(so);
        if task.is_finished() {
            out.dead = true;
            break;
        }
    }
    task.abort();
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("open scripts"));
    let mut output = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("create traces"));
    // Panics of the code under test are data (they show up as missing answers or `dead`).
    std::panic::set_hook(Box::new(|info| {
        if std::env::var("PICADRV_VERBOSE").is_ok() {
            eprintln!("{}", info)
        }
    }));
    for line in input.lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let script: Script = serde_json::from_str(&line).expect("parse script");
        let mut builder = tokio::runtime::Builder::new_current_thread();
        builder.enable_time().start_paused(true);
        if script.tcp {
            builder.enable_io().event_interval(1);
        }
        let rt = builder.build().unwrap();
        let trace = rt.block_on(run_script(script));
        serde_json::to_writer(&mut output, &trace).unwrap();
        output.write_all(b"\n").unwrap();
    }
}
