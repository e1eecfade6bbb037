// Replays histories: threads make calls when they are told to, and user code within a call waits until it is told how
// to end.  Every history runs in a process of its own, where no call site has been used before.
use std::cell::RefCell;
use std::error::Error as StdError;
use std::io::Write;
use std::sync::mpsc::{channel, Receiver, Sender};

pub enum Cmd {
    Call(usize, String),
    Go(u8),
}
struct Link {
    rx: Receiver<Cmd>,
    tx: Sender<String>,
}
thread_local! {
    static LINK: RefCell<Option<Link>> = RefCell::new(None);
}
fn next() -> Cmd {
    LINK.with(|l| l.borrow().as_ref().unwrap().rx.recv().unwrap())
}
fn report(s: String) {
    LINK.with(|l| l.borrow().as_ref().unwrap().tx.send(s).unwrap())
}

#[derive(Debug)]
pub struct GateErr(pub String);
impl std::fmt::Display for GateErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "gate {}", self.0) }
}
impl StdError for GateErr {}

fn hex(s: &str) -> String { s.bytes().map(|b| format!("{:02x}", b)).collect() }

// user code: waits for the end of it, and makes the calls that come before that
pub fn gate(s: &str) -> Result<String, GateErr> {
    report(format!("gate:{}", hex(s)));
    loop {
        match next() {
            Cmd::Go(b'o') => return Ok(s.to_string()),
            Cmd::Go(b'f') => return Err(GateErr(s.to_string())),
            Cmd::Go(_) => panic!("user panic {}", s),
            Cmd::Call(f, input) => call(f, &input),
        }
    }
}

pub fn ok(vs: &[&str]) -> String { format!("ok:{}", hex(&vs.join(","))) }
pub fn err(e: &sscanf::Error) -> String {
    match e {
        sscanf::Error::MatchFailed => "match-failed:".to_string(),
        sscanf::Error::ParsingFailed(_) => {
            let mut cur: Option<&(dyn StdError + 'static)> = e.source();
            while let Some(e) = cur {
                if let Some(g) = e.downcast_ref::<GateErr>() {
                    return format!("parsing-failed:{}", hex(&g.0));
                }
                if let Some(g) = e.downcast_ref::<sscanf::errors::FilterMapNoneError>() {
                    return format!("parsing-failed:{}", hex(g.field_name));
                }
                cur = e.source();
            }
            "parsing-failed:?".to_string()
        }
    }
}

// The inputs of a thread share a buffer, apart from those of calls within calls.
thread_local! {
    static BUFFERS: RefCell<Vec<String>> = RefCell::new(Vec::new());
}

fn call(f: usize, input: &str) {
    let mut buffer = BUFFERS.with(|b| b.borrow_mut().pop()).unwrap_or_else(|| String::with_capacity(256));
    buffer.clear();
    buffer.push_str(input);
    let r = std::panic::catch_unwind(|| crate::FUNS[f](&buffer));
    BUFFERS.with(|b| b.borrow_mut().push(buffer));
    report(r.unwrap_or_else(|_| "panic:".to_string()));
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}

fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}

// steps: "<thread>c<site>:<input>" or "<thread>g<o|f|p>", separated by spaces
fn history(n: usize, line: &str) -> String {
    let (tx, rx) = channel::<String>();
    let mut threads: Vec<Option<Sender<Cmd>>> = Vec::new();
    let mut out = format!("{}\t", n);
    for step in line.split(' ') {
        let t: usize = step[..1].parse().unwrap();
        while threads.len() <= t {
            threads.push(None);
        }
        let tx = tx.clone();
        let to = threads[t].get_or_insert_with(|| {
            let (ctx, crx) = channel::<Cmd>();
            std::thread::spawn(move || {
                LINK.with(|l| *l.borrow_mut() = Some(Link { rx: crx, tx }));
                loop {
                    if let Cmd::Call(f, input) = next() {
                        call(f, &input)
                    }
                }
            });
            ctx
        });
        to.send(if &step[1..2] == "c" {
            let (f, input) = step[2..].split_once(':').unwrap();
            Cmd::Call(f.parse().unwrap(), unhex(input))
        } else {
            Cmd::Go(step.as_bytes()[2])
        }).unwrap();
        match rx.recv_timeout(std::time::Duration::from_secs(20)) {
            Ok(e) => { out.push_str(&e); out.push(' '); }
            Err(_) => { out.push_str("stuck:"); break; }
        }
    }
    out
}

pub fn main_with() {
    std::panic::set_hook(Box::new(|_| {}));
    let text = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    for (n, line) in text.lines().enumerate() {
        unsafe {
            let pid = fork();
            if pid == 0 {
                let mut o = history(n, line);
                o.push('\n');
                let _ = std::io::stdout().write_all(o.as_bytes());
                let _ = std::io::stdout().flush();
                _exit(if o.ends_with("stuck:\n") { 99 } else { 0 });
            }
            let mut status = 0;
            waitpid(pid, &mut status, 0);
            if status == 99 << 8 {
                break;
            }
            if status != 0 {
                println!("{}\tdied:{}", n, status);
            }
        }
    }
}
