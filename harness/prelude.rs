// Shared by all harness programs: encodes what sscanf returned in the notation of the specification, and records
// the calls into user code.
#![allow(dead_code, unused_imports, unused_variables, deprecated, non_camel_case_types, non_snake_case)]
use std::cell::{Cell, RefCell};
use std::error::Error as StdError;
use std::fmt::Write as _;
pub use std::borrow::Cow;
pub use std::num::*;
pub use std::path::PathBuf;
pub use sscanf::{sscanf, sscanf_get_regex, sscanf_unescaped, FromScanf, FullF32, FullF64, HexNumber};

thread_local! {
    pub static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new());
    pub static BASE: Cell<(usize, usize)> = Cell::new((0, 0));
}
pub fn log(s: String) {
    LOG.with(|l| l.borrow_mut().push(s));
}

pub fn cps(s: &str) -> String {
    let mut o = String::from("[");
    for (i, c) in s.chars().enumerate() {
        if i > 0 {
            o.push(',');
        }
        write!(o, "{}", c as u32).unwrap();
    }
    o.push(']');
    o
}

pub trait Enc {
    fn enc(&self) -> String;
}
macro_rules! enc_int {
    ($($t: ty),*) => { $(impl Enc for $t {
        fn enc(&self) -> String { format!("[\"int\",{},{}]", cps(stringify!($t)), cps(&self.to_string())) }
    })* };
}
enc_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
enc_int!(NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroUsize);
enc_int!(NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, NonZeroIsize);
impl Enc for f32 {
    fn enc(&self) -> String { format!("[\"float\",{},\"{}\"]", cps("f32"), if self.is_nan() { "nan".to_string() } else { format!("{:08x}", self.to_bits()) }) }
}
impl Enc for f64 {
    fn enc(&self) -> String { format!("[\"float\",{},\"{}\"]", cps("f64"), if self.is_nan() { "nan".to_string() } else { format!("{:016x}", self.to_bits()) }) }
}
impl Enc for FullF32 {
    fn enc(&self) -> String { self.0.enc().replace(&cps("f32"), &cps("FullF32")) }
}
impl Enc for FullF64 {
    fn enc(&self) -> String { self.0.enc().replace(&cps("f64"), &cps("FullF64")) }
}
impl Enc for HexNumber {
    fn enc(&self) -> String { format!("[\"int\",{},{}]", cps("HexNumber"), cps(&self.0.to_string())) }
}
// position of a borrowed text within the input, -1 if it is not part of the input
pub fn offset(s: &str) -> i64 {
    let (start, len) = BASE.with(|b| b.get());
    let p = s.as_ptr() as usize;
    if p >= start && p + s.len() <= start + len {
        (p - start) as i64
    } else {
        -1
    }
}
// the borrowed texts of this call come from here
pub fn rebase(s: &str) {
    BASE.with(|b| b.set((s.as_ptr() as usize, s.len())));
}
// notes that the input expression is evaluated
pub fn tick<T: ?Sized>(t: &T) -> &T {
    log("[\"i\"]".to_string());
    t
}
// runs f without a trace in the log
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let old = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let base = BASE.with(|b| b.get());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    LOG.with(|l| *l.borrow_mut() = old);
    BASE.with(|b| b.set(base));
    r.unwrap()
}
// the same for code that may panic
pub fn attempt<T>(f: impl FnOnce() -> T) {
    quiet(|| { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)); })
}
thread_local! {
    static DEPTH: Cell<u32> = Cell::new(0);
}
// runs f unless it is nested too deeply
pub fn nested(max: u32, f: impl FnOnce()) {
    let d = DEPTH.with(|x| x.get());
    if d < max {
        DEPTH.with(|x| x.set(d + 1));
        attempt(f);
        DEPTH.with(|x| x.set(d));
    }
}
pub struct Holder {
    pub text: String,
}
impl std::ops::Deref for Holder {
    type Target = str;
    fn deref(&self) -> &str { &self.text }
}
impl Enc for &str {
    fn enc(&self) -> String { format!("[\"str\",{},{}]", offset(self), cps(self)) }
}
impl Enc for Cow<'_, str> {
    fn enc(&self) -> String {
        match self {
            Cow::Borrowed(s) => format!("[\"cow\",{},{}]", offset(s), cps(s)),
            Cow::Owned(s) => format!("[\"cow\",-2,{}]", cps(s)),
        }
    }
}
impl Enc for String {
    fn enc(&self) -> String { format!("[\"string\",{}]", cps(self)) }
}
impl Enc for PathBuf {
    fn enc(&self) -> String { format!("[\"path\",{}]", cps(self.to_str().unwrap())) }
}
impl Enc for char {
    fn enc(&self) -> String { format!("[\"char\",{}]", *self as u32) }
}
impl Enc for bool {
    fn enc(&self) -> String { format!("[\"bool\",{}]", self) }
}

// conversions of derived types
#[derive(Debug)]
pub struct Tag<T>(pub u32, pub T);
impl<T: Enc> Enc for Tag<T> {
    fn enc(&self) -> String { format!("[\"tag\",{},{}]", self.0, self.1.enc()) }
}
pub fn map<T>(id: u32, v: T) -> Tag<T> {
    log(format!("[\"c\",\"map\",{}]", id));
    Tag(id, v)
}
pub fn filter<T: Accepts>(id: u32, v: T) -> Option<Tag<T>> {
    log(format!("[\"c\",\"filter_map\",{}]", id));
    if v.accepts() { Some(Tag(id, v)) } else { None }
}
#[derive(Debug)]
pub struct Conv<T>(pub T);
impl<T: Enc> Enc for Conv<T> {
    fn enc(&self) -> String { format!("[\"conv\",{}]", self.0.enc()) }
}
impl<T> From<T> for Conv<T> {
    fn from(v: T) -> Self {
        log("[\"c\",\"from\",0]".to_string());
        Conv(v)
    }
}
#[derive(Debug)]
pub struct TConv<T>(pub T);
impl<T: Enc> Enc for TConv<T> {
    fn enc(&self) -> String { format!("[\"tconv\",{}]", self.0.enc()) }
}
// the same for borrowed texts, which are encoded right away
pub struct ConvText(String);
impl Enc for ConvText {
    fn enc(&self) -> String { self.0.clone() }
}
pub struct TConvText(String);
impl Enc for TConvText {
    fn enc(&self) -> String { self.0.clone() }
}
macro_rules! conv_text {
    ($($t: ty),*) => { $(
        impl<'a> From<$t> for ConvText {
            fn from(v: $t) -> Self { ConvText(Conv::from(v).enc()) }
        }
        impl<'a> std::convert::TryFrom<$t> for TConvText {
            type Error = UserErr;
            fn try_from(v: $t) -> Result<Self, UserErr> {
                log("[\"c\",\"try_from\",0]".to_string());
                if v.accepts() { Ok(TConvText(TConv(v).enc())) } else { Err(UserErr("TConv")) }
            }
        }
    )* };
}
conv_text!(&'a str, Cow<'a, str>);
macro_rules! try_from {
    ($($t: ty),*) => { $(impl std::convert::TryFrom<$t> for TConv<$t> {
        type Error = UserErr;
        fn try_from(v: $t) -> Result<Self, UserErr> {
            log("[\"c\",\"try_from\",0]".to_string());
            if v.accepts() { Ok(TConv(v)) } else { Err(UserErr("TConv")) }
        }
    })* };
}
pub(crate) use try_from;
// closures from a type to itself
pub trait Stepped {
    fn stepped(self) -> Self;
}
macro_rules! stepped_int {
    ($($t: ty),*) => { $(impl Stepped for $t {
        fn stepped(self) -> Self { self ^ 1 }
    })* };
}
stepped_int!(u8, u16, u32, u64, u128, usize);
impl Stepped for char {
    fn stepped(self) -> Self { char::from_u32(self as u32 ^ 1).unwrap() }
}
impl Stepped for bool {
    fn stepped(self) -> Self { !self }
}
impl Stepped for String {
    fn stepped(self) -> Self { self + "+" }
}
pub fn step<T: Stepped>(id: u32, v: T) -> T {
    log(format!("[\"c\",\"map\",{}]", id));
    v.stepped()
}
pub fn filter_step<T: Accepts + Stepped>(id: u32, v: T) -> Option<T> {
    log(format!("[\"c\",\"filter_map\",{}]", id));
    if v.accepts() { Some(v.stepped()) } else { None }
}
pub trait Accepts {
    fn accepts(&self) -> bool;
}
macro_rules! accepts_int {
    ($($t: ty),*) => { $(impl Accepts for $t {
        fn accepts(&self) -> bool { (self.to_string().bytes().last().unwrap() - b'0') % 2 == 0 }
    })* };
}
accepts_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
accepts_int!(NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroUsize);
accepts_int!(NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, NonZeroIsize);
impl Accepts for &str {
    fn accepts(&self) -> bool { self.chars().count() % 2 == 0 }
}
impl Accepts for Cow<'_, str> {
    fn accepts(&self) -> bool { self.chars().count() % 2 == 0 }
}
impl Accepts for String {
    fn accepts(&self) -> bool { self.chars().count() % 2 == 0 }
}
impl Accepts for PathBuf {
    fn accepts(&self) -> bool { self.to_str().unwrap().chars().count() % 2 == 0 }
}
impl Accepts for char {
    fn accepts(&self) -> bool { *self as u32 % 2 == 0 }
}
impl Accepts for bool {
    fn accepts(&self) -> bool { *self }
}
impl Accepts for f32 {
    fn accepts(&self) -> bool { true }
}
impl Accepts for f64 {
    fn accepts(&self) -> bool { true }
}

#[derive(Debug)]
pub struct Dflt(pub u32);
impl Enc for Dflt {
    fn enc(&self) -> String { format!("[\"dflt\",{}]", self.0) }
}
impl Default for Dflt {
    fn default() -> Self { mkdef(0) }
}
pub fn mkdef(id: u32) -> Dflt {
    log(format!("[\"d\",{}]", id));
    Dflt(id)
}

#[derive(Debug, Clone, PartialEq)]
pub struct UserErr(pub &'static str);
impl std::fmt::Display for UserErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "user error {}", self.0) }
}
impl StdError for UserErr {}

// the body of FromStr for the types of the program
pub fn user_parse(name: &'static str, s: &str) -> Result<String, UserErr> {
    log(format!("[\"p\",{},{}]", cps(name), cps(s)));
    if s.contains('!') {
        panic!("user panic");
    }
    if s.contains('x') { Err(UserErr(name)) } else { Ok(s.to_string()) }
}

// the frame for a type that failed to parse, if the error is of that type
pub fn from_str_frame<T: std::str::FromStr + 'static>(e: &(dyn StdError + 'static), name: &str) -> Option<String>
where
    <T as std::str::FromStr>::Err: StdError + 'static,
{
    let e = e.downcast_ref::<sscanf::errors::FromStrFailedError<T>>()?;
    if e.type_name != std::any::type_name::<T>() {
        return Some(format!("[\"misnamed\",{}]", cps(e.type_name)));
    }
    Some(format!("[\"fromstr\",{}]", cps(name)))
}

macro_rules! enc_frames {
    ($($t: ty),*) => {
        fn builtin_frame(e: &(dyn StdError + 'static)) -> Option<String> {
            $(if let Some(f) = from_str_frame::<$t>(e, stringify!($t)) {
                return Some(f);
            })*
            None
        }
    };
}
enc_frames!(
    u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64,
    NonZeroU128, NonZeroUsize, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, NonZeroIsize, f32, f64,
    FullF32, FullF64, HexNumber, char, bool, String, PathBuf
);
// what is in the message of an error: the message of its cause, and what it names
fn tells(e: &(dyn StdError + 'static)) -> bool {
    use sscanf::errors::*;
    let m = e.to_string();
    let _ = format!("{:?}{:#?}", e, e);
    e.source().map_or(true, |s| m.contains(&s.to_string()))
        && e.downcast_ref::<FromScanfFailedError>().map_or(true, |e| m.contains(e.type_name))
        && e.downcast_ref::<FilterMapNoneError>().map_or(true, |e| m.contains(e.field_name))
        && e.downcast_ref::<MissingPrefixError>().map_or(true, |e| {
            m.contains(match e {
                MissingPrefixError::Hex => "0x",
                MissingPrefixError::Octal => "0o",
                MissingPrefixError::Binary => "0b",
            })
        })
}
fn frame(e: &(dyn StdError + 'static)) -> String {
    use sscanf::errors::*;
    if !tells(e) {
        return format!("[\"message\",{}]", cps(&e.to_string()));
    }
    if let Some(f) = builtin_frame(e) {
        return f;
    }
    if let Some(f) = crate::user_frame(e) {
        return f;
    }
    if let Some(e) = e.downcast_ref::<FromScanfFailedError>() {
        return format!("[\"fromscanf\",{}]", cps(e.type_name));
    }
    if let Some(e) = e.downcast_ref::<FilterMapNoneError>() {
        return format!("[\"filter\",{}]", cps(e.field_name));
    }
    if let Some(e) = e.downcast_ref::<MissingPrefixError>() {
        return format!("[\"prefix\",\"{:?}\"]", e);
    }
    if let Some(e) = e.downcast_ref::<ParseIntError>() {
        return format!("[\"int\",\"{:?}\"]", e.kind());
    }
    if let Some(e) = e.downcast_ref::<ParseFloatError>() {
        let kind = if *e == "".parse::<f32>().unwrap_err() { "empty" } else { "invalid" };
        return format!("[\"float\",\"{}\"]", kind);
    }
    if e.is::<std::num::TryFromIntError>() {
        return "[\"tryint\"]".to_string();
    }
    if e.is::<std::char::CharTryFromError>() {
        return "[\"inttochar\"]".to_string();
    }
    if e.is::<std::char::TryFromCharError>() {
        return "[\"chartoint\"]".to_string();
    }
    if e.is::<std::str::ParseBoolError>() {
        return "[\"bool\"]".to_string();
    }
    if let Some(e) = e.downcast_ref::<std::char::ParseCharError>() {
        let kind = if *e == "".parse::<char>().unwrap_err() { "empty" } else { "many" };
        return format!("[\"char\",\"{}\"]", kind);
    }
    if let Some(e) = e.downcast_ref::<UserErr>() {
        return format!("[\"user\",{}]", cps(e.0));
    }
    format!("[\"other\",{}]", cps(&e.to_string()))
}
pub fn enc_err(e: &sscanf::Error) -> String {
    match e {
        sscanf::Error::MatchFailed => {
            assert!(e.source().is_none());
            "{\"k\":\"match-failed\"}".to_string()
        }
        sscanf::Error::ParsingFailed(_) => {
            let mut o = String::from("{\"k\":\"parsing-failed\",\"es\":[");
            let mut cur = e.source();
            let mut first = tells(e);
            if !first {
                o.push_str(&format!("[\"message\",{}],", cps(&e.to_string())));
                first = true;
            }
            while let Some(e) = cur {
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&frame(e));
                cur = e.source();
            }
            o.push_str("]}");
            o
        }
    }
}
pub fn enc_ok(vs: &[String]) -> String {
    format!("{{\"k\":\"ok\",\"v\":[{}]}}", vs.join(","))
}
pub fn enc_regex(re: &sscanf::regex::Regex, input: &str) -> String {
    let mut o = Vec::new();
    if let Some(c) = re.captures(input) {
        for i in 0..c.len() {
            match c.get(i) {
                Some(m) => { o.push(m.start().to_string()); o.push(m.end().to_string()); }
                None => { o.push("-1".to_string()); o.push("-1".to_string()); }
            }
        }
    }
    format!("{{\"k\":\"regex\",\"caps\":[{}]}}", o.join(","))
}

pub type Fun = fn(&str) -> String;

// All inputs of a thread are put into one buffer, as a program does that reads line by line.
thread_local! {
    static BUFFER: RefCell<Option<String>> = RefCell::new(Some(String::with_capacity(1 << 16)));
}

pub fn run_case(f: Fun, input: &str) -> (String, String) {
    let mut buffer = BUFFER.with(|b| b.borrow_mut().take()).unwrap();
    buffer.clear();
    buffer.push_str(input);
    let res = run_case_at(f, &buffer);
    BUFFER.with(|b| *b.borrow_mut() = Some(buffer));
    res
}

fn run_case_at(f: Fun, input: &str) -> (String, String) {
    BASE.with(|b| b.set((input.as_ptr() as usize, input.len())));
    LOG.with(|l| l.borrow_mut().clear());
    let res = std::panic::catch_unwind(|| f(input));
    let out = match res {
        Ok(o) => o,
        Err(e) => {
            let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            format!("{{\"k\":\"panic\",\"msg\":{}}}", cps(&msg.unwrap_or_default().chars().take(200).collect::<String>()))
        }
    };
    let log = LOG.with(|l| l.borrow().join(","));
    (out, format!("[{}]", log))
}

pub fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}

// usage: <program> CASES [threads rounds seed]; a case is a line "<index of the function> <input in hex>".
// Prints "<case> <output> <log>", in parallel mode once for every distinct observation of a case.
pub fn main_with(funs: &[Fun]) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let cases: Vec<(usize, String)> = text
        .lines()
        .map(|l| {
            let (a, b) = l.split_once(' ').unwrap();
            (a.parse().unwrap(), unhex(b))
        })
        .collect();
    let stdout = std::io::stdout();
    use std::io::Write;
    let mut w = std::io::BufWriter::new(stdout.lock());
    if args.len() <= 2 {
        for (n, (f, input)) in cases.iter().enumerate() {
            let (o, l) = run_case(funs[*f], input);
            writeln!(w, "{}\t{}\t{}", n, o, l).unwrap();
            w.flush().unwrap();
        }
        return;
    }
    let threads: usize = args[2].parse().unwrap();
    let rounds: usize = args[3].parse().unwrap();
    let seed: u64 = args[4].parse().unwrap();
    let barrier = std::sync::Barrier::new(threads);
    let all = std::sync::Mutex::new(std::collections::BTreeSet::new());
    std::thread::scope(|s| {
        for t in 0..threads {
            let (barrier, all, cases) = (&barrier, &all, &cases);
            s.spawn(move || {
                let mut x = seed.wrapping_mul(6364136223846793005).wrapping_add(t as u64 * 1442695040888963407 + 1);
                let mut rnd = move |n: usize| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    (x % n as u64) as usize
                };
                let mut seen = std::collections::BTreeSet::new();
                for r in 0..rounds {
                    let mut order: Vec<usize> = (0..cases.len()).collect();
                    if r > 0 || t % 2 == 1 {
                        for i in (1..order.len()).rev() {
                            order.swap(i, rnd(i + 1));
                        }
                    }
                    barrier.wait();
                    for n in order {
                        let (o, l) = run_case(funs[cases[n].0], &cases[n].1);
                        seen.insert((n, o, l));
                    }
                }
                all.lock().unwrap().extend(seen);
            });
        }
    });
    for (n, o, l) in all.into_inner().unwrap() {
        writeln!(w, "{}\t{}\t{}", n, o, l).unwrap();
    }
}

// the text that a binding stands for: the input of the call, or something else
thread_local! {
    static CURRENT: Cell<&'static str> = Cell::new("");
}
pub fn set_current(s: &str) {
    let s: &'static str = Box::leak(s.to_string().into_boxed_str());
    rebase(s);
    CURRENT.with(|c| c.set(s));
}
pub fn current() -> &'static str {
    CURRENT.with(|c| c.get())
}
pub fn other() -> &'static str {
    "\u{1}"
}
#[derive(Clone, Copy)]
pub struct Cur(pub bool);
impl std::ops::Deref for Cur {
    type Target = str;
    fn deref(&self) -> &str {
        if self.0 {
            current()
        } else {
            other()
        }
    }
}
