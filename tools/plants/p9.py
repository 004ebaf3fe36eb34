import runpy, sys, os
PL = "/verif/tools/plants/"
def block(f, name):
    s = open(PL + f).read()
    i = s.index(name + " = '''") + len(name) + 6
    return eval("'''" + s[i:s.index("'''", i)] + "'''")
UP = block("p8.py", "UP"); NET = block("p6.py", "NET"); ASK = block("p6.py", "ASK")
T, TCP, UDP, SETUP = "src/shared/thread_pool.rs", "src/shared/net/tcp_server.rs", "src/shared/net/udp_server.rs", "src/shared/net/setup.rs"
Q, R, UT = "src/resolver/back_end/requests.rs", "src/resolver/back_end/recursive.rs", "src/resolver/back_end/utils.rs"
CA = "src/resolver/back_end/cache.rs"
POOL = '''use ariadne_dns::shared::thread_pool::ThreadPool;
use std::sync::{atomic::{AtomicUsize, Ordering::SeqCst}, mpsc, Arc, Barrier};
use std::time::Duration;
/// Ends with a failure unless f returns within the given seconds.
fn within(secs: u64, f: impl FnOnce() + Send + 'static) {
    let (t, r) = mpsc::channel();
    std::thread::spawn(move || { f(); t.send(()).unwrap(); });
    r.recv_timeout(Duration::from_secs(secs)).expect("it does not end");
}
'''
plant("C16-lock-held", "C16", [(T, """            let receiver_guard = receiver.lock().unwrap();
            let worker_message = receiver_guard.recv().unwrap();
            drop(receiver_guard);
            match worker_message {
                WorkerMessage::Stop => return,
                WorkerMessage::Job(job_fn) => job_fn(),
            }
""", """            // The lock is released as soon as a message is received.
            match receiver.lock().unwrap().recv().unwrap() {
                WorkerMessage::Stop => return,
                WorkerMessage::Job(job_fn) => job_fn(),
            }
""")], "two jobs at the same time", "the lock of the channel is kept while a job runs, so jobs run one at a time",
POOL + '''fn main() {
    within(20, || {
        let p = ThreadPool::new(3, "p");
        let b = Arc::new(Barrier::new(3));
        for _ in 0..3 { let b = Arc::clone(&b); p.execute(move || { b.wait(); }); }
        drop(p);
    });
}
''')
plant("C16-cores", "C16", [(T, "        for _ in 0..size {\n", "        // More threads than cores only compete for them.\n        let cores = thread::available_parallelism().map_or(size, |n| n.get());\n        for _ in 0..size.min(cores) {\n")],
"a pool of more threads than the machine has cores", "the pool has fewer threads than asked, so jobs wait while fewer than that run",
POOL + '''fn main() {
    let n = std::thread::available_parallelism().map_or(8, |n| n.get()) + 2;
    within(20, move || {
        let p = ThreadPool::new(n, "p");
        let b = Arc::new(Barrier::new(n));
        for _ in 0..n { let b = Arc::clone(&b); p.execute(move || { b.wait(); }); }
        drop(p);
    });
}
''')
plant("C16-stop-and-join", "C16", [(T, """        for _ in &self.workers {
            self.sender.send(WorkerMessage::Stop).unwrap();
        }
        for worker in &mut self.workers {
            let thread_handle = worker.thread.take();
""", """        for worker in &mut self.workers {
            self.sender.send(WorkerMessage::Stop).unwrap();
            let thread_handle = worker.thread.take();
""")], "a pool of two threads or more, where the stop is taken by another thread than the one waited for", "dropping the pool does not return",
POOL + '''fn main() {
    within(20, || for _ in 0..200 {
        let p = ThreadPool::new(4, "p");
        for _ in 0..4 { p.execute(|| ()); }
        drop(p);
    });
}
''')
plant("C16-stop-flag", "C16", [(T, "    sender: mpsc::Sender<WorkerMessage>,\n}", "    sender: mpsc::Sender<WorkerMessage>,\n    stopping: Arc<std::sync::atomic::AtomicBool>,\n}"),
(T, "        let receiver = Arc::new(Mutex::new(receiver));\n", "        let receiver = Arc::new(Mutex::new(receiver));\n        let stopping = Arc::new(std::sync::atomic::AtomicBool::new(false));\n"),
(T, "Worker::new(receiver_clone);", "Worker::new(receiver_clone, Arc::clone(&stopping));"),
(T, "            workers,\n            sender,\n", "            workers,\n            sender,\n            stopping,\n"),
(T, "        for _ in &self.workers {\n", "        self.stopping.store(true, std::sync::atomic::Ordering::SeqCst);\n        for _ in &self.workers {\n"),
(T, "    fn new(receiver: Arc<Mutex<mpsc::Receiver<WorkerMessage>>>) -> Worker {", "    fn new(receiver: Arc<Mutex<mpsc::Receiver<WorkerMessage>>>, stopping: Arc<std::sync::atomic::AtomicBool>) -> Worker {"),
(T, "                WorkerMessage::Stop => return,\n", "                WorkerMessage::Stop => return,\n                WorkerMessage::Job(_) if stopping.load(std::sync::atomic::Ordering::SeqCst) => return,\n"),
], "a pool dropped while jobs are queued", "the queued jobs are never run",
POOL + '''fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let m = Arc::clone(&n);
    within(20, move || {
        let p = ThreadPool::new(2, "p");
        for _ in 0..20 { let m = Arc::clone(&m); p.execute(move || { std::thread::sleep(Duration::from_millis(5)); m.fetch_add(1, SeqCst); }); }
        drop(p);
    });
    assert!(n.load(SeqCst) == 20, "{} jobs of 20 ran", n.load(SeqCst));
}
''')
plant("C15-accept-error", "C15", [(TCP, """                log::error!("Accepting tcp connection: {}", err);
                continue;
""", """                log::error!("Accepting tcp connection: {}", err);
                if err.kind() == io::ErrorKind::Interrupted {
                    continue;
                }
                return;
""")], "connections which take all the file descriptors of the process", "the TCP server ends, and serves nobody when the crowd is gone",
NET + '''fn main() {
    if std::env::var("DEMO_SERVE").is_err() {
        let e = std::env::current_exe().unwrap();
        let s = std::process::Command::new("sh").arg("-c").arg("ulimit -n 40; exec \\"$0\\"").arg(e).env("DEMO_SERVE", "1").status().unwrap();
        assert!(s.success());
        return;
    }
    let (_, t) = start();
    let idle: Vec<_> = (0..100).filter_map(|_| TcpStream::connect(("127.0.0.1", t)).ok()).collect();
    std::thread::sleep(Duration::from_millis(500));
    drop(idle);
    std::thread::sleep(Duration::from_millis(500));
    let mut s = TcpStream::connect(("127.0.0.1", t)).expect("the server is gone");
    s.set_read_timeout(Some(Duration::from_secs(9))).unwrap();
    let q = [0, 19, 9, 9, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1, b'a', 0, 0, 1, 0, 1];
    s.write_all(&q).unwrap();
    let mut b = [0u8; 2];
    s.read_exact(&mut b).expect("no reply");
}
''')
plant("C15-udp-short", "C15", [(UDP, "            Ok(read_data) => read_data,\n", "            // A query has a header and a question at least.\n            Ok((n_read, _)) if n_read < 17 => {\n                log::warn!(\"Request too short: {} bytes\", n_read);\n                continue;\n            }\n            Ok(read_data) => read_data,\n"),
 (UDP, "                log::warn!(\"Cannot recv_from socket: {}\", err);\n", "                log::warn!(\"Cannot receive from socket: {}\", err);\n")],
"a datagram which holds only a header", "the datagram is never given to the handler",
NET + '''fn main() {
    let (u, _) = start();
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.send_to(&[1, 2, 1, 0, 0, 9, 0, 0, 0, 0, 0, 0], ("127.0.0.1", u)).unwrap();
    std::thread::sleep(Duration::from_millis(500));
    assert!(SEEN.lock().unwrap().len() == 1, "{:?}", SEEN.lock().unwrap());
}
''')
plant("C15-no-read-timeout", "C15", [(TCP, "    tcp_stream.set_read_timeout(Some(r_timeout))?;\n", "    // A reply could take longer than reading a request.\n    tcp_stream.set_read_timeout(Some(r_timeout).filter(|t| *t > w_timeout))?;\n")],
"a client which sends nothing, with a read timeout not above the write timeout", "the threads wait for it for ever",
NET + '''fn main() {
    let (_, t) = start();
    let idle: Vec<_> = (0..4).map(|_| TcpStream::connect(("127.0.0.1", t)).unwrap()).collect();
    std::thread::sleep(Duration::from_millis(200));
    let mut s = TcpStream::connect(("127.0.0.1", t)).unwrap();
    s.set_read_timeout(Some(Duration::from_secs(9))).unwrap();
    let q = [0, 19, 9, 9, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1, b'a', 0, 0, 1, 0, 1];
    s.write_all(&q).unwrap();
    let mut b = [0u8; 2];
    s.read_exact(&mut b).expect("no reply");
    drop(idle);
}
''')
plant("C14-next-nameserver", "C14", [(R, """                        let err = (format!("{:?}", next_ns), err);
                        error.get_or_insert(err);
                        continue;
""", """                        let err = (format!("{:?}", next_ns), err);
                        let timeout = matches!(err.1, LookupErr::IO(_));
                        error.get_or_insert(err);
                        if timeout {
                            continue;
                        }
                        break;
""")], "a nameserver which answers with a failure and another one of the same zone which knows", "the other nameserver is not asked",
UP + '''fn main() {
    upstream(3, |i, n, _| match i {
        0 => refers(vec![ns("x.t.", "n1.x.t."), ns("x.t.", "n2.x.t.")], vec![a("n1.x.t.", 3600, ip(1)), a("n2.x.t.", 3600, ip(2))]),
        1 => (RespCode::ServFail, false, vec![], vec![], vec![]),
        _ => says(vec![a(n, 60, [10, 0, 0, 1])]),
    }, |_, _| ());
    let (r, _) = resolver(ResolverParams { read_timeout: Duration::from_millis(500), ..Default::default() });
    r.new_lookup(&name("w.x.t."), RecordType::A).perform().0.expect("no answer");
}
''')
plant("C14-id-low-byte", "C14", [(Q, "    if response.header.id != request.header.id {", "    if (response.header.id ^ request.header.id) as u8 != 0 {")],
"a response with an id which only ends like the one of the query", "a response to another query is believed",
UP + '''fn main() {
    upstream(1, |_, n, _| says(vec![a(n, 60, [10, 0, 0, 1])]), |_, m| m.header.id ^= 0x4100);
    let (r, _) = resolver(ResolverParams { read_timeout: Duration::from_millis(300), max_upd_retries: 1, ..Default::default() });
    assert!(r.new_lookup(&name("w.t."), RecordType::A).perform().0.is_err());
}
''')
plant("C13-ns-alias-cached", "C13", [(R, """        self.previous_cnames.push(cname_record);
        if self.conf.no_follow_cname {""", """        self.previous_cnames.push(cname_record);
        if self.conf.no_follow_cname && !next_nss.is_empty() {""")],
"an alias for the name of a nameserver whose target's nameservers are not told with it", "the alias is followed while looking for the address of a nameserver",
UP + '''fn main() {
    upstream(2, |i, n, _| match (i, n) {
        (0, "w.x.t.") => refers(vec![ns("x.t.", "h.u.t.")], vec![]),
        (0, "h.u.t.") => says(vec![cname("h.u.t.", 60, "k2.t.")]),
        (0, "k2.t.") => says(vec![a("k2.t.", 60, ip(1))]),
        _ => says(vec![a(n, 60, [10, 0, 0, 1])]),
    }, |_, _| ());
    let (r, _) = resolver(ResolverParams { read_timeout: Duration::from_millis(300), ..Default::default() });
    assert!(r.new_lookup(&name("w.x.t."), RecordType::A).perform().0.is_err());
    assert!(!LOG.lock().unwrap().iter().any(|x| x.1 == "k2.t."), "the alias was followed");
}
''')
