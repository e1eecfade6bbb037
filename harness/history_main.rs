#![allow(dead_code, unused, clippy::all)]
#[path = "HISTORY"]
mod history;
use history::*;
use sscanf::{sscanf, sscanf_unescaped, FromScanf};

pub struct G(pub String);
impl std::str::FromStr for G {
    type Err = GateErr;
    fn from_str(s: &str) -> Result<Self, GateErr> { gate(s).map(G) }
}
impl sscanf::RegexRepresentation for G { const REGEX: &'static str = "[a-z0-9]+"; }

// a type whose regex has a group too many
pub struct Bad(pub String);
impl std::str::FromStr for Bad {
    type Err = GateErr;
    fn from_str(s: &str) -> Result<Self, GateErr> { gate(s).map(Bad) }
}
impl sscanf::RegexRepresentation for Bad { const REGEX: &'static str = "([a-z0-9]+)"; }

// a type that takes its captures itself
pub struct M(pub String);
impl sscanf::RegexRepresentation for M { const REGEX: &'static str = "([a-z]+)([0-9]*)"; }
impl<'t> FromScanf<'t> for M {
    type Err = GateErr;
    const NUM_CAPTURES: usize = 3;
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, GateErr> {
        src.next().unwrap();
        let a = gate(src.next().unwrap().unwrap().as_str())?;
        let b = gate(src.next().unwrap().unwrap().as_str())?;
        Ok(M(a + &b))
    }
}

#[derive(FromScanf)]
#[sscanf(format = "{}-{}")]
pub struct D(G, G);
#[derive(FromScanf)]
#[sscanf(format = "{b}-{a}")]
pub struct F<'a> {
    #[sscanf(filter_map = |s: &'a str| gate(s).ok().map(|_| s))]
    a: &'a str,
    #[sscanf(map = |s: G| s.0)]
    b: String,
}
#[derive(FromScanf)]
pub enum E {
    #[sscanf(format = "{}={}")]
    A(G, u8),
    #[sscanf(format = "{}-{}")]
    B(G, G),
    #[sscanf("C")]
    C,
}

fn two(input: &str, second: bool) -> String {
    // equal calls in one function
    if second {
        match sscanf!(input, "{}-{}", G, G) { Ok((a, b)) => ok(&[&a.0, &b.0]), Err(e) => err(&e) }
    } else {
        match sscanf!(input, "{}-{}", G, G) { Ok((a, b)) => ok(&[&a.0, &b.0]), Err(e) => err(&e) }
    }
}
fn generic<T: AsRef<str> + ?Sized>(input: &T) -> String {
    let input = input.as_ref();
    let f = |input: &str| match sscanf!(input, "{}-{}", G, String) { Ok((a, b)) => ok(&[&a.0, &b]), Err(e) => err(&e) };
    f(input)
}

pub static FUNS: [fn(&str) -> String; 10] = [
    |input| two(input, false),
    |input| two(input, true),
    |input| if input.len() % 2 == 0 { generic(input) } else { generic(&input.to_string()) },
    |input| match sscanf_unescaped!(input, "{}-{}", String, G) { Ok((a, b)) => ok(&[&a, &b.0]), Err(e) => err(&e) },
    |input| match sscanf!(input, "{}-{}", Bad, G) { Ok((a, b)) => ok(&[&a.0, &b.0]), Err(e) => err(&e) },
    |input| match <D as FromScanf>::from_str(input) { Ok(D(a, b)) => ok(&[&a.0, &b.0]), Err(e) => err(&e) },
    |input| match sscanf!(input, "{}", F) { Ok(F { a, b }) => ok(&[&b, a]), Err(e) => err(&e) },
    |input| match <E as FromScanf>::from_str(input) { Ok(E::B(a, b)) => ok(&[&a.0, &b.0]), Ok(_) => "ok:?".to_string(), Err(e) => err(&e) },
    |input| match sscanf!(input, "{}-{M}", str) { Ok((a, b)) => ok(&[a, &b.0]), Err(e) => err(&e) },
    |input| match sscanf!(input, "{E}") { Ok(E::B(a, b)) => ok(&[&a.0, &b.0]), Ok(_) => "ok:?".to_string(), Err(e) => err(&e) },
];

fn main() { history::main_with(); }
