use crate::json::{esc, quote, J};
use num_bigint::{BigInt, BigUint, ToBigInt};
use num_integer::Integer;
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::{
    Decode, EcPoint, EllipticCurve, Encode, Isogeny, MapToCurve, RationalMap,
};
use redox_ecc::field::{CMov, Field, Sgn0, Sqrt};
use redox_ecc::instances as inst;
use redox_ecc::instances::GetCurve;
use redox_ecc::ops::{Deserialize, FromFactory, Serialize};
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use redox_ecc::{edwards as e, montgomery as m, weierstrass as w};
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::str::FromStr;

type WIso = dyn Isogeny<E0 = w::Curve, E1 = w::Curve>;
type EMRat = dyn RationalMap<E0 = e::Curve, E1 = m::Curve>;

#[derive(Clone)]
pub enum V {
    None,
    Field(Fp),
    Field2(Fp2),
    E(FpElt),
    E2(Fp2Elt),
    SW(w::Scalar),
    SM(m::Scalar),
    SE(e::Scalar),
    CW(w::Curve),
    CM(m::Curve),
    CE(e::Curve),
    PW(w::Point),
    PM(m::Point),
    PE(e::Point),
    Iso(Rc<WIso>),
    Rat(Rc<EMRat>),
    MapW(Rc<dyn MapToCurve<E = w::Curve>>),
    MapM(Rc<dyn MapToCurve<E = m::Curve>>),
    MapE(Rc<dyn MapToCurve<E = e::Curve>>),
}

/// Wrappers so that one isogeny or rational map can be used several times.
struct IsoRef(Rc<WIso>);
impl Isogeny for IsoRef {
    type E0 = w::Curve;
    type E1 = w::Curve;
    fn domain(&self) -> w::Curve {
        self.0.domain()
    }
    fn codomain(&self) -> w::Curve {
        self.0.codomain()
    }
    fn push(&self, p: w::Point) -> w::Point {
        self.0.push(p)
    }
}
struct RatRef(Rc<EMRat>);
impl RationalMap for RatRef {
    type E0 = e::Curve;
    type E1 = m::Curve;
    fn domain(&self) -> e::Curve {
        self.0.domain()
    }
    fn codomain(&self) -> m::Curve {
        self.0.codomain()
    }
    fn push(&self, p: e::Point) -> m::Point {
        self.0.push(p)
    }
    fn pull(&self, p: m::Point) -> e::Point {
        self.0.pull(p)
    }
}
/// An isogeny between toy curves given by its table of images (made by the specification).
struct TabIso {
    dom: w::Curve,
    cod: w::Curve,
    tab: HashMap<(BigInt, BigInt), Option<(BigInt, BigInt)>>,
}
impl Isogeny for TabIso {
    type E0 = w::Curve;
    type E1 = w::Curve;
    fn domain(&self) -> w::Curve {
        self.dom.clone()
    }
    fn codomain(&self) -> w::Curve {
        self.cod.clone()
    }
    fn push(&self, p: w::Point) -> w::Point {
        let c = coords(&p.to_string()).expect("coordinates");
        let q = self.dom.get_field().get_modulus();
        let (x, y, z) = (&c[0], &c[1], &c[2]);
        if z.is_zero() {
            return self.cod.identity();
        }
        let iz = z.modpow(&(&q - 2u32), &q);
        let key = ((x * &iz).mod_floor(&q), (y * &iz).mod_floor(&q));
        match self.tab.get(&key) {
            Some(Some((a, b))) => {
                let f = self.cod.get_field();
                self.cod.new_point(f.elt(a.clone()), f.elt(b.clone()))
            }
            Some(None) => self.cod.identity(),
            None => panic!("not a point of the domain"),
        }
    }
}

/// Coordinates from the text of a point: "\nx: ..\ny: ..[\nt: ..]\nz: ..".
pub fn coords(s: &str) -> Option<Vec<BigInt>> {
    let mut out = vec![];
    for l in s.trim().lines() {
        let (_, v) = l.split_once(':')?;
        out.push(BigInt::from_str(v.trim()).ok()?);
    }
    Some(out)
}
fn dec(s: &str) -> Option<BigInt> {
    BigInt::from_str(s.trim()).ok()
}
fn big(j: &J) -> BigInt {
    BigInt::from_str(j.str()).expect("decimal literal")
}

fn o_num(tag: &str, s: &str) -> String {
    match dec(s) {
        Some(n) => format!("[\"{}\",\"{}\"]", tag, n),
        None => format!("[\"text\",\"{}\"]", esc(s)),
    }
}
/// The text shown for a value, and the coordinates it shows when it is a point.
fn o_shown(s: &str, point: bool) -> String {
    let c = if point { coords(s).unwrap_or_default() } else { vec![] };
    let l: Vec<String> = c.iter().map(|x| format!(",\"{}\"", x)).collect();
    format!("[\"shown\",{}{}]", quote(s), l.join(""))
}
fn shown(v: &V) -> String {
    match v {
        V::Field(x) => o_shown(&x.to_string(), false),
        V::Field2(x) => o_shown(&x.to_string(), false),
        V::E(x) => o_shown(&x.to_string(), false),
        V::E2(x) => o_shown(&x.to_string(), false),
        V::SW(x) => o_shown(&x.to_string(), false),
        V::SM(x) => o_shown(&x.to_string(), false),
        V::SE(x) => o_shown(&x.to_string(), false),
        V::CW(x) => o_shown(&x.to_string(), false),
        V::CM(x) => o_shown(&x.to_string(), false),
        V::CE(x) => o_shown(&x.to_string(), false),
        V::PW(x) => o_shown(&x.to_string(), true),
        V::PM(x) => o_shown(&x.to_string(), true),
        V::PE(x) => o_shown(&x.to_string(), true),
        _ => bad("show"),
    }
}
fn name_of(n: &str) -> String {
    match n {
        "P256" => inst::P256.to_string(),
        "P384" => inst::P384.to_string(),
        "P521" => inst::P521.to_string(),
        "SECP256K1" => inst::SECP256K1.to_string(),
        "SECP256K1_3ISO" => inst::SECP256K1_3ISO.to_string(),
        "BLS12381G1" => inst::BLS12381G1.to_string(),
        "BLS12381G1_11ISO" => inst::BLS12381G1_11ISO.to_string(),
        "CURVE25519" => inst::CURVE25519.to_string(),
        "CURVE448" => inst::CURVE448.to_string(),
        "EDWARDS25519" => inst::EDWARDS25519.to_string(),
        "EDWARDS448" => inst::EDWARDS448.to_string(),
        _ => bad("nameof"),
    }
}
fn o_bool(b: bool) -> String {
    format!("[\"bool\",{}]", b)
}
fn o_seq<T: std::fmt::Display>(tag: &str, v: &[T]) -> String {
    let l: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[\"{}\",[{}]]", tag, l.join(","))
}
pub fn obs(v: &V) -> String {
    match v {
        V::None => "[\"none\"]".into(),
        V::Field(_) => "[\"Fp\"]".into(),
        V::Field2(_) => "[\"Fp2\"]".into(),
        V::E(x) => o_num("fp", &x.to_string()),
        V::E2(x) => {
            let s = x.to_string();
            match s.split_once("+i*") {
                Some((a, b)) if dec(a).is_some() && dec(b).is_some() => {
                    format!("[\"fp2\",\"{}\",\"{}\"]", dec(a).unwrap(), dec(b).unwrap())
                }
                _ => format!("[\"text\",\"{}\"]", esc(&s)),
            }
        }
        V::SW(x) => o_num("sc", &x.to_string()),
        V::SM(x) => o_num("sc", &x.to_string()),
        V::SE(x) => o_num("sc", &x.to_string()),
        V::CW(_) | V::CM(_) | V::CE(_) => "[\"cv\"]".into(),
        V::PW(p) => o_pt(&p.to_string()),
        V::PM(p) => o_pt(&p.to_string()),
        V::PE(p) => o_pt(&p.to_string()),
        V::Iso(_) => "[\"iso\"]".into(),
        V::Rat(_) => "[\"rat\"]".into(),
        V::MapW(_) | V::MapM(_) | V::MapE(_) => "[\"map\"]".into(),
    }
}
fn o_pt(s: &str) -> String {
    match coords(s) {
        Some(c) => {
            let l: Vec<String> = c.iter().map(|x| format!("\"{}\"", x)).collect();
            format!("[\"pt\",{}]", l.join(","))
        }
        None => format!("[\"text\",\"{}\"]", esc(s)),
    }
}

/// Result of one form of a call.
pub enum R {
    Val(V),
    Obs(String),
}
type Forms<'a> = Vec<Box<dyn FnOnce() -> R + 'a>>;

thread_local! {
    static LEAKED: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new());
    static WPARAMS: RefCell<HashMap<String, &'static w::Params>> = RefCell::new(HashMap::new());
    static MPARAMS: RefCell<HashMap<String, &'static m::Params>> = RefCell::new(HashMap::new());
    static EPARAMS: RefCell<HashMap<String, &'static e::Params>> = RefCell::new(HashMap::new());
}
fn leak(s: &str) -> &'static str {
    LEAKED.with(|l| {
        if let Some(x) = l.borrow().get(s) {
            return *x;
        }
        let x: &'static str = Box::leak(s.to_string().into_boxed_str());
        l.borrow_mut().insert(s.to_string(), x);
        x
    })
}
enum Static {
    W(&'static w::Params),
    M(&'static m::Params),
    E(&'static e::Params),
}
/// The parameters of a curve live forever in the library's interface.
fn params(a: &[J]) -> Static {
    let s: Vec<&'static str> = a.iter().map(|x| leak(x.str())).collect();
    let key = s.join(",");
    // kind, p, a, b|d, s, r, h, gx, gy
    match s[0] {
        "w" => Static::W(WPARAMS.with(|t| {
            *t.borrow_mut().entry(key).or_insert_with(|| {
                Box::leak(Box::new(w::Params {
                    name: "toy", p: s[1], a: s[2], b: s[3], r: s[5], h: s[6], gx: s[7], gy: s[8],
                }))
            })
        })),
        "m" => Static::M(MPARAMS.with(|t| {
            *t.borrow_mut().entry(key).or_insert_with(|| {
                Box::leak(Box::new(m::Params {
                    name: "toy", p: s[1], a: s[2], b: s[3], s: s[4], r: s[5], h: s[6], gx: s[7], gy: s[8],
                }))
            })
        })),
        _ => Static::E(EPARAMS.with(|t| {
            *t.borrow_mut().entry(key).or_insert_with(|| {
                Box::leak(Box::new(e::Params {
                    name: "toy", p: s[1], a: s[2], d: s[3], r: s[5], h: s[6], gx: s[7], gy: s[8],
                }))
            })
        })),
    }
}
/// What an instruction makes the harness keep forever, ahead of time.
pub fn prepare(ins: &J) {
    if ins.get("o").str() == "curve" {
        params(ins.get("a").arr());
    }
}
fn curve(a: &[J]) -> V {
    match params(a) {
        Static::W(p) => V::CW(w::Curve::from(p)),
        Static::M(p) => V::CM(m::Curve::from(p)),
        Static::E(p) => V::CE(e::Curve::from(p)),
    }
}
fn named(n: &str) -> V {
    match n {
        "P256" => V::CW(inst::P256.get()),
        "P384" => V::CW(inst::P384.get()),
        "P521" => V::CW(inst::P521.get()),
        "SECP256K1" => V::CW(inst::SECP256K1.get()),
        "SECP256K1_3ISO" => V::CW(inst::SECP256K1_3ISO.get()),
        "BLS12381G1" => V::CW(inst::BLS12381G1.get()),
        "BLS12381G1_11ISO" => V::CW(inst::BLS12381G1_11ISO.get()),
        "CURVE25519" => V::CM(inst::CURVE25519.get()),
        "CURVE448" => V::CM(inst::CURVE448.get()),
        "EDWARDS25519" => V::CE(inst::EDWARDS25519.get()),
        "EDWARDS448" => V::CE(inst::EDWARDS448.get()),
        _ => panic!("unknown curve {}", n),
    }
}

macro_rules! forms {
    ($($b:expr),+ $(,)?) => {{
        let v: Forms = vec![$(Box::new($b)),+];
        v
    }};
}
/// The four owned/borrowed forms of a binary operator.
/// The borrowed operands are the registers themselves.
macro_rules! bin4 {
    ($x:expr, $y:expr, $wrap:path, $op:tt) => {{
        let (x, y) = ($x, $y);
        forms![
            move || R::Val($wrap(x $op y)),
            move || R::Val($wrap(x $op y.clone())),
            move || R::Val($wrap(x.clone() $op y)),
            move || R::Val($wrap(x.clone() $op y.clone())),
        ]
    }};
}
/// The three forms of scalar times point.
macro_rules! smul3 {
    ($x:expr, $y:expr, $wrap:path) => {{
        let (x, y) = ($x, $y);
        forms![
            move || R::Val($wrap(x * y)),
            move || R::Val($wrap(x.clone() * y)),
            move || R::Val($wrap(x.clone() * y.clone())),
        ]
    }};
}
macro_rules! un2 {
    ($x:expr, $wrap:path, $op:tt) => {{
        let x = $x;
        forms![move || R::Val($wrap($op x)), move || R::Val($wrap($op x.clone()))]
    }};
}
macro_rules! pow2 {
    ($x:expr, $wrap:path, $n:expr) => {{
        let (x, n) = ($x, $n);
        forms![move || R::Val($wrap(x ^ n)), move || R::Val($wrap(x.clone() ^ n))]
    }};
}
macro_rules! inv3 {
    ($x:expr, $wrap:path) => {{
        let x = $x;
        forms![
            move || R::Val($wrap(1u32 / x)),
            move || R::Val($wrap(x ^ -1i32)),
            move || R::Val($wrap(x.clone() ^ -1i32))
        ]
    }};
}
macro_rules! one {
    ($b:expr) => {
        forms![move || $b]
    };
}
macro_rules! eqforms {
    ($x:expr, $y:expr) => {{
        let (x, y) = ($x, $y);
        forms![
            move || R::Obs(o_bool(x == y)),
            move || R::Obs(o_bool(!(x != y))),
            move || R::Obs(o_bool(y == x)),
        ]
    }};
}

fn bad(op: &str) -> ! {
    eprintln!("harness: bad instruction {}", op);
    std::process::exit(4)
}

fn prim<F>(f: &F, ty: &str, v: &str) -> F::Elt
where
    F: Field,
{
    match ty {
        "u8" => FromFactory::<u8>::from(f, v.parse().unwrap()),
        "u16" => FromFactory::<u16>::from(f, v.parse().unwrap()),
        "u32" => FromFactory::<u32>::from(f, v.parse().unwrap()),
        "u64" => FromFactory::<u64>::from(f, v.parse().unwrap()),
        "i8" => FromFactory::<i8>::from(f, v.parse().unwrap()),
        "i16" => FromFactory::<i16>::from(f, v.parse().unwrap()),
        "i32" => FromFactory::<i32>::from(f, v.parse().unwrap()),
        "i64" => FromFactory::<i64>::from(f, v.parse().unwrap()),
        _ => bad(ty),
    }
}
/// `lift` is the other spelling of the same conversion.
fn prim_lift<F>(f: &F, ty: &str, v: &str) -> F::Elt
where
    F: Field,
{
    use redox_ecc::ops::IntoFactory;
    match ty {
        "u8" => v.parse::<u8>().unwrap().lift(f),
        "u16" => v.parse::<u16>().unwrap().lift(f),
        "u32" => v.parse::<u32>().unwrap().lift(f),
        "u64" => v.parse::<u64>().unwrap().lift(f),
        "i8" => v.parse::<i8>().unwrap().lift(f),
        "i16" => v.parse::<i16>().unwrap().lift(f),
        "i32" => v.parse::<i32>().unwrap().lift(f),
        "i64" => v.parse::<i64>().unwrap().lift(f),
        _ => bad(ty),
    }
}
fn res<T>(r: Result<T, std::io::Error>, wrap: fn(T) -> V) -> R {
    match r {
        Ok(x) => R::Val(wrap(x)),
        Err(_) => R::Obs("[\"err\"]".into()),
    }
}
fn bits(it: impl Iterator<Item = bool>) -> R {
    let v: Vec<u8> = it.take(2000).map(|b| b as u8).collect();
    R::Obs(o_seq("bits", &v))
}
/// The same sequence asked for in the other ways an iterator can be asked.
fn bits_asked<I: Iterator<Item = bool>>(mk: impl Fn() -> I) -> R {
    let v: Vec<bool> = mk().take(2000).collect();
    let n = v.len();
    if n == 2000 {
        return bits(mk());
    }
    let (lo, hi) = mk().size_hint();
    let mut ok = lo <= n && hi.map_or(true, |h| n <= h);
    ok &= mk().count() == n && mk().last() == v.last().copied();
    ok &= mk().fold(vec![], |mut acc, b| {
        acc.push(b);
        acc
    }) == v;
    ok &= mk().step_by(3).collect::<Vec<bool>>() == v.iter().copied().step_by(3).collect::<Vec<bool>>();
    ok &= mk().skip(n / 2).collect::<Vec<bool>>() == v[n / 2..];
    // jumps of growing length
    let (mut it, mut at, mut jump) = (mk(), 0usize, 0usize);
    while at < n + 3 {
        let x = it.nth(jump);
        ok &= x == v.get(at + jump).copied();
        if x.is_none() {
            break;
        }
        at += jump + 1;
        jump += 1;
    }
    ok &= mk().any(|b| b) == v.contains(&true) && mk().position(|b| !b) == v.iter().position(|&b| !b);
    if ok {
        bits(v.into_iter())
    } else {
        R::Obs("[\"text\",\"the iterator contradicts itself\"]".into())
    }
}

const REGS1: &[&str] = &["Fp", "Fp2", "named", "iso", "rat", "sc", "curve", "nameof"];
pub fn reg_args(op: &str, a: &[J]) -> Vec<usize> {
    let idx: Vec<usize> = if REGS1.contains(&op) {
        vec![]
    } else {
        match op {
            "add" | "sub" | "mul" | "div" | "eq" | "cmov" | "onCurve" | "map" | "push" | "pull"
            | "reread" | "isotab" => vec![0, 1],
            "point" => vec![0, 1, 2],
            "newmap" => {
                if a[0].str() == "ab0" || a[0].str() == "ell2e" {
                    vec![1, 2, 3]
                } else {
                    vec![1, 2]
                }
            }
            _ => vec![0],
        }
    };
    idx.iter().map(|&i| a[i].int() as usize - 1).collect()
}
pub fn in_place(op: &str) -> bool {
    matches!(op, "normalize" | "setZero" | "setOne")
}

/// A register: the one of this thread, or else the one all threads share.
fn look<'a>(i: usize, g: &'a [V], base: &'a [V]) -> &'a V {
    match (&g[i], base.get(i)) {
        (V::None, Some(v)) => v,
        (v, _) => v,
    }
}

fn call<'a>(op: &'a str, a: &'a [J], g: &'a [V], base: &'a [V]) -> Forms<'a> {
    let reg = |i: usize| -> &'a V { look(a[i].int() as usize - 1, g, base) };
    let bi = |i: usize| -> BigInt { big(&a[i]) };
    match op {
        "add" => match (reg(0), reg(1)) {
            (V::E(x), V::E(y)) => bin4!(x, y, V::E, +),
            (V::E2(x), V::E2(y)) => bin4!(x, y, V::E2, +),
            (V::SW(x), V::SW(y)) => bin4!(x, y, V::SW, +),
            (V::SM(x), V::SM(y)) => bin4!(x, y, V::SM, +),
            (V::SE(x), V::SE(y)) => bin4!(x, y, V::SE, +),
            (V::PW(x), V::PW(y)) => bin4!(x, y, V::PW, +),
            (V::PM(x), V::PM(y)) => bin4!(x, y, V::PM, +),
            (V::PE(x), V::PE(y)) => bin4!(x, y, V::PE, +),
            _ => bad(op),
        },
        "sub" => match (reg(0), reg(1)) {
            (V::E(x), V::E(y)) => bin4!(x, y, V::E, -),
            (V::E2(x), V::E2(y)) => bin4!(x, y, V::E2, -),
            (V::SW(x), V::SW(y)) => bin4!(x, y, V::SW, -),
            (V::SM(x), V::SM(y)) => bin4!(x, y, V::SM, -),
            (V::SE(x), V::SE(y)) => bin4!(x, y, V::SE, -),
            (V::PW(x), V::PW(y)) => bin4!(x, y, V::PW, -),
            (V::PM(x), V::PM(y)) => bin4!(x, y, V::PM, -),
            (V::PE(x), V::PE(y)) => bin4!(x, y, V::PE, -),
            _ => bad(op),
        },
        "mul" => match (reg(0), reg(1)) {
            (V::E(x), V::E(y)) => bin4!(x, y, V::E, *),
            (V::E2(x), V::E2(y)) => bin4!(x, y, V::E2, *),
            (V::SW(x), V::SW(y)) => bin4!(x, y, V::SW, *),
            (V::SM(x), V::SM(y)) => bin4!(x, y, V::SM, *),
            (V::SE(x), V::SE(y)) => bin4!(x, y, V::SE, *),
            (V::PW(x), V::SW(y)) => bin4!(x, y, V::PW, *),
            (V::PM(x), V::SM(y)) => bin4!(x, y, V::PM, *),
            (V::PE(x), V::SE(y)) => bin4!(x, y, V::PE, *),
            (V::SW(x), V::PW(y)) => smul3!(x, y, V::PW),
            (V::SM(x), V::PM(y)) => smul3!(x, y, V::PM),
            (V::SE(x), V::PE(y)) => smul3!(x, y, V::PE),
            _ => bad(op),
        },
        "div" => match (reg(0), reg(1)) {
            (V::E(x), V::E(y)) => bin4!(x, y, V::E, /),
            (V::E2(x), V::E2(y)) => bin4!(x, y, V::E2, /),
            (V::SW(x), V::SW(y)) => bin4!(x, y, V::SW, /),
            (V::SM(x), V::SM(y)) => bin4!(x, y, V::SM, /),
            (V::SE(x), V::SE(y)) => bin4!(x, y, V::SE, /),
            _ => bad(op),
        },
        "neg" => match reg(0) {
            V::E(x) => un2!(x, V::E, -),
            V::E2(x) => un2!(x, V::E2, -),
            V::SW(x) => un2!(x, V::SW, -),
            V::SM(x) => un2!(x, V::SM, -),
            V::SE(x) => un2!(x, V::SE, -),
            V::PW(x) => un2!(x, V::PW, -),
            V::PM(x) => un2!(x, V::PM, -),
            V::PE(x) => un2!(x, V::PE, -),
            _ => bad(op),
        },
        "sqr" | "xorU" => {
            let n = if op == "sqr" { 2u32 } else { a[1].int() as u32 };
            match reg(0) {
                V::E(x) => pow2!(x, V::E, n),
                V::E2(x) => pow2!(x, V::E2, n),
                _ => bad(op),
            }
        }
        "xorI" => {
            let n = a[1].int() as i32;
            match reg(0) {
                V::E(x) => pow2!(x, V::E, n),
                V::E2(x) => pow2!(x, V::E2, n),
                _ => bad(op),
            }
        }
        "divU" => {
            let n = a[1].int() as u32;
            match reg(0) {
                V::E(x) => one!(R::Val(V::E(n / x))),
                V::E2(x) => one!(R::Val(V::E2(n / x))),
                V::SW(x) => one!(R::Val(V::SW(n / x))),
                V::SM(x) => one!(R::Val(V::SM(n / x))),
                V::SE(x) => one!(R::Val(V::SE(n / x))),
                _ => bad(op),
            }
        }
        "inv" => match reg(0) {
            V::E(x) => inv3!(x, V::E),
            V::E2(x) => inv3!(x, V::E2),
            V::SW(x) => one!(R::Val(V::SW(1u32 / x))),
            V::SM(x) => one!(R::Val(V::SM(1u32 / x))),
            V::SE(x) => one!(R::Val(V::SE(1u32 / x))),
            _ => bad(op),
        },
        "powU" => {
            let n: BigUint = bi(1).to_biguint().unwrap();
            match reg(0) {
                V::E(x) => one!(R::Val(V::E(x ^ &n))),
                V::E2(x) => one!(R::Val(V::E2(x ^ &n))),
                _ => bad(op),
            }
        }
        "powI" => {
            let n = bi(1);
            match reg(0) {
                V::E(x) => one!(R::Val(V::E(x ^ &n))),
                V::E2(x) => one!(R::Val(V::E2(x ^ &n))),
                _ => bad(op),
            }
        }
        "isZero" => match reg(0) {
            V::E(x) => one!(R::Obs(o_bool(x.is_zero()))),
            V::E2(x) => one!(R::Obs(o_bool(x.is_zero()))),
            V::PW(x) => one!(R::Obs(o_bool(x.is_zero()))),
            V::PM(x) => one!(R::Obs(o_bool(x.is_zero()))),
            V::PE(x) => one!(R::Obs(o_bool(x.is_zero()))),
            _ => bad(op),
        },
        "isOne" => match reg(0) {
            V::E(x) => one!(R::Obs(o_bool(x.is_one()))),
            V::E2(x) => one!(R::Obs(o_bool(x.is_one()))),
            _ => bad(op),
        },
        "eq" => match (reg(0), reg(1)) {
            (V::Field(x), V::Field(y)) => eqforms!(x, y),
            (V::Field2(x), V::Field2(y)) => eqforms!(x, y),
            (V::E(x), V::E(y)) => eqforms!(x, y),
            (V::E2(x), V::E2(y)) => eqforms!(x, y),
            (V::SW(x), V::SW(y)) => eqforms!(x, y),
            (V::SE(x), V::SE(y)) => eqforms!(x, y),
            (V::CW(x), V::CW(y)) => eqforms!(x, y),
            (V::CM(x), V::CM(y)) => eqforms!(x, y),
            (V::CE(x), V::CE(y)) => eqforms!(x, y),
            (V::PW(x), V::PW(y)) => eqforms!(x, y),
            (V::PM(x), V::PM(y)) => eqforms!(x, y),
            (V::PE(x), V::PE(y)) => eqforms!(x, y),
            _ => bad(op),
        },
        "sgn0" => match reg(0) {
            V::E(x) => one!(R::Obs(format!("[\"int\",{}]", x.sgn0()))),
            V::E2(x) => one!(R::Obs(format!("[\"int\",{}]", x.sgn0()))),
            _ => bad(op),
        },
        "cmov" => {
            let b = a[2].bool();
            match (reg(0), reg(1)) {
                (V::E(x), V::E(y)) => one!(R::Val(V::E(FpElt::cmov(x, y, b)))),
                (V::E2(x), V::E2(y)) => one!(R::Val(V::E2(Fp2Elt::cmov(x, y, b)))),
                _ => bad(op),
            }
        }
        "isSquare" => match reg(0) {
            V::E(x) => one!(R::Obs(o_bool(x.is_square()))),
            V::E2(x) => one!(R::Obs(o_bool(x.is_square()))),
            _ => bad(op),
        },
        "sqrt" => match reg(0) {
            V::E(x) => {
                let y = x.clone();
                forms![move || R::Val(V::E(x.sqrt())), move || R::Val(V::E(y.sqrt()))]
            }
            V::E2(x) => {
                let y = x.clone();
                forms![move || R::Val(V::E2(x.sqrt())), move || R::Val(V::E2(y.sqrt()))]
            }
            _ => bad(op),
        },
        "read" | "clone" => {
            let x = reg(0);
            forms![
                move || R::Val(x.clone()),
                // what the register itself says, not only its copy
                move || R::Obs(obs(x))
            ]
        }
        "show" => {
            let (x, y) = (reg(0), reg(0));
            forms![
                move || R::Obs(shown(&x)),
                move || {
                    let first = shown(&y);
                    let again = shown(&y.clone());
                    R::Obs(if first == again { again } else { "[\"text\",\"unstable\"]".into() })
                }
            ]
        }
        "nameof" => {
            let n = a[0].str().to_string();
            one!(R::Obs(o_shown(&name_of(&n), false)))
        }
        "reread" => match (reg(0), reg(1)) {
            (V::Field(f), V::E(x)) => one!({
                let s = x.to_string();
                R::Val(V::E(FromFactory::<&str>::from(f, &s)))
            }),
            (V::Field(f), V::SW(x)) => one!({
                let s = x.to_string();
                R::Val(V::E(FromFactory::<&str>::from(f, &s)))
            }),
            _ => bad(op),
        },
        "drop" => one!(R::Obs("[\"unit\"]".into())),
        // fields
        "Fp" => {
            let n = bi(0).to_biguint().unwrap();
            one!(R::Val(V::Field(Fp::new(n))))
        }
        "Fp2" => {
            let n = bi(0).to_biguint().unwrap();
            one!(R::Val(V::Field2(Fp2::new(n))))
        }
        "elt" => {
            let n = bi(1);
            match reg(0) {
                V::Field(f) => one!(R::Val(V::E(f.elt(n)))),
                V::Field2(f) => one!(R::Val(V::E2(f.elt(n)))),
                _ => bad(op),
            }
        }
        "prim" => {
            let (t, v) = (a[1].str().to_string(), a[2].str().to_string());
            let (t2, v2) = (t.clone(), v.clone());
            match reg(0) {
                V::Field(f) => {
                    let f2 = f;
                    forms![
                        move || R::Val(V::E(prim(f, &t, &v))),
                        move || R::Val(V::E(prim_lift(f2, &t2, &v2)))
                    ]
                }
                V::Field2(f) => {
                    let f2 = f;
                    forms![
                        move || R::Val(V::E2(prim(f, &t, &v))),
                        move || R::Val(V::E2(prim_lift(f2, &t2, &v2)))
                    ]
                }
                _ => bad(op),
            }
        }
        "text" => {
            let s = String::from_utf8(a[1].bytes()).unwrap();
            match reg(0) {
                V::Field(f) => one!(R::Val(V::E(FromFactory::<&str>::from(f, &s)))),
                V::Field2(f) => one!(R::Val(V::E2(FromFactory::<&str>::from(f, &s)))),
                _ => bad(op),
            }
        }
        "frombe" => {
            let s = a[1].bytes();
            match reg(0) {
                V::Field(f) => one!(res(f.from_bytes_be(&s), V::E)),
                V::Field2(f) => one!(res(f.from_bytes_be(&s), V::E2)),
                _ => bad(op),
            }
        }
        "fromle" => {
            let s = a[1].bytes();
            match reg(0) {
                V::Field(f) => one!(res(f.from_bytes_le(&s), V::E)),
                V::Field2(f) => one!(res(f.from_bytes_le(&s), V::E2)),
                _ => bad(op),
            }
        }
        "zero" => match reg(0) {
            V::Field(f) => one!(R::Val(V::E(f.zero()))),
            V::Field2(f) => one!(R::Val(V::E2(f.zero()))),
            _ => bad(op),
        },
        "one" => match reg(0) {
            V::Field(f) => one!(R::Val(V::E(f.one()))),
            V::Field2(f) => one!(R::Val(V::E2(f.one()))),
            _ => bad(op),
        },
        "modulus" => match reg(0) {
            V::Field(f) => one!(R::Obs(o_num("num", &f.get_modulus().to_string()))),
            V::Field2(f) => one!(R::Obs(o_num("num", &f.get_modulus().to_string()))),
            _ => bad(op),
        },
        "sizeb" => match reg(0) {
            V::Field(f) => one!(R::Obs(format!("[\"int\",{}]", f.size_bytes()))),
            V::Field2(f) => one!(R::Obs(format!("[\"int\",{}]", f.size_bytes()))),
            _ => bad(op),
        },
        "tobe" => match reg(0) {
            V::E(x) => one!(R::Obs(o_seq("bytes", &x.to_bytes_be()))),
            V::E2(x) => one!(R::Obs(o_seq("bytes", &x.to_bytes_be()))),
            V::SW(x) => one!(R::Obs(o_seq("bytes", &x.to_bytes_be()))),
            V::SM(x) => one!(R::Obs(o_seq("bytes", &x.to_bytes_be()))),
            V::SE(x) => one!(R::Obs(o_seq("bytes", &x.to_bytes_be()))),
            _ => bad(op),
        },
        "tole" => match reg(0) {
            V::E(x) => one!(R::Obs(o_seq("bytes", &x.to_bytes_le()))),
            V::E2(x) => one!(R::Obs(o_seq("bytes", &x.to_bytes_le()))),
            V::SW(x) => one!(R::Obs(o_seq("bytes", &x.to_bytes_le()))),
            V::SM(x) => one!(R::Obs(o_seq("bytes", &x.to_bytes_le()))),
            V::SE(x) => one!(R::Obs(o_seq("bytes", &x.to_bytes_le()))),
            _ => bad(op),
        },
        "setZero" => match reg(0) {
            V::E(x) => one!({
                let mut x = x.clone();
                x.set_zero();
                R::Val(V::E(x))
            }),
            V::E2(x) => one!({
                let mut x = x.clone();
                x.set_zero();
                R::Val(V::E2(x))
            }),
            _ => bad(op),
        },
        "setOne" => match reg(0) {
            V::E(x) => one!({
                let mut x = x.clone();
                x.set_one();
                R::Val(V::E(x))
            }),
            V::E2(x) => one!({
                let mut x = x.clone();
                x.set_one();
                R::Val(V::E2(x))
            }),
            _ => bad(op),
        },
        // scalars
        "sc" => {
            let (r, k) = (bi(1).to_biguint().unwrap(), bi(2));
            match a[0].str() {
                "w" => one!(R::Val(V::SW(w::Scalar::new(k, &r)))),
                "m" => one!(R::Val(V::SM(m::Scalar::new(k, &r)))),
                _ => one!(R::Val(V::SE(e::Scalar::new(k, &r)))),
            }
        }
        "scalar" => {
            let k = bi(1);
            match reg(0) {
                V::CW(c) => one!(R::Val(V::SW(c.new_scalar(k)))),
                V::CM(c) => one!(R::Val(V::SM(c.new_scalar(k)))),
                V::CE(c) => one!(R::Val(V::SE(c.new_scalar(k)))),
                _ => bad(op),
            }
        }
        "bitsL" => match reg(0) {
            V::SW(x) => forms![move || bits(x.iter_lr()), move || bits_asked(|| x.iter_lr())],
            V::SM(x) => forms![move || bits(x.iter_lr()), move || bits_asked(|| x.iter_lr())],
            V::SE(x) => forms![move || bits(x.iter_lr()), move || bits_asked(|| x.iter_lr())],
            _ => bad(op),
        },
        "bitsR" => match reg(0) {
            V::SW(x) => forms![move || bits(x.iter_rl()), move || bits_asked(|| x.iter_rl())],
            V::SM(x) => forms![move || bits(x.iter_rl()), move || bits_asked(|| x.iter_rl())],
            V::SE(x) => forms![move || bits(x.iter_rl()), move || bits_asked(|| x.iter_rl())],
            _ => bad(op),
        },
        // curves and points
        "curve" => {
            let a = a.to_vec();
            one!(R::Val(curve(&a)))
        }
        "named" => {
            let n = a[0].str().to_string();
            one!(R::Val(named(&n)))
        }
        "identity" => match reg(0) {
            V::CW(c) => one!(R::Val(V::PW(c.identity()))),
            V::CM(c) => one!(R::Val(V::PM(c.identity()))),
            V::CE(c) => one!(R::Val(V::PE(c.identity()))),
            _ => bad(op),
        },
        "gen" => match reg(0) {
            V::CW(c) => one!(R::Val(V::PW(c.get_generator()))),
            V::CM(c) => one!(R::Val(V::PM(c.get_generator()))),
            V::CE(c) => one!(R::Val(V::PE(c.get_generator()))),
            _ => bad(op),
        },
        "order" => match reg(0) {
            V::CW(c) => one!(R::Obs(o_num("num", &c.get_order().to_string()))),
            V::CM(c) => one!(R::Obs(o_num("num", &c.get_order().to_string()))),
            V::CE(c) => one!(R::Obs(o_num("num", &c.get_order().to_string()))),
            _ => bad(op),
        },
        "cofactor" => match reg(0) {
            V::CW(c) => one!(R::Obs(o_num("num", &c.get_cofactor().to_string()))),
            V::CM(c) => one!(R::Obs(o_num("num", &c.get_cofactor().to_string()))),
            V::CE(c) => one!(R::Obs(o_num("num", &c.get_cofactor().to_string()))),
            _ => bad(op),
        },
        "field" => match reg(0) {
            V::CW(c) => one!(R::Val(V::Field(c.get_field()))),
            V::CM(c) => one!(R::Val(V::Field(c.get_field()))),
            V::CE(c) => one!(R::Val(V::Field(c.get_field()))),
            _ => bad(op),
        },
        "point" => {
            let (x, y) = match (reg(1), reg(2)) {
                (V::E(x), V::E(y)) => (x, y),
                _ => bad(op),
            };
            match reg(0) {
                V::CW(c) => one!(R::Val(V::PW(c.new_point(x.clone(), y.clone())))),
                V::CM(c) => one!(R::Val(V::PM(c.new_point(x.clone(), y.clone())))),
                V::CE(c) => one!(R::Val(V::PE(c.new_point(x.clone(), y.clone())))),
                _ => bad(op),
            }
        }
        "onCurve" => match (reg(0), reg(1)) {
            (V::CW(c), V::PW(p)) => one!(R::Obs(o_bool(c.is_on_curve(p)))),
            (V::CM(c), V::PM(p)) => one!(R::Obs(o_bool(c.is_on_curve(p)))),
            (V::CE(c), V::PE(p)) => one!(R::Obs(o_bool(c.is_on_curve(p)))),
            _ => bad(op),
        },
        "normalize" => match reg(0) {
            V::PW(p) => one!({
                let mut p = p.clone();
                p.normalize();
                R::Val(V::PW(p))
            }),
            V::PM(p) => one!({
                let mut p = p.clone();
                p.normalize();
                R::Val(V::PM(p))
            }),
            V::PE(p) => one!({
                let mut p = p.clone();
                p.normalize();
                R::Val(V::PE(p))
            }),
            _ => bad(op),
        },
        "encode" => {
            let b = a[1].bool();
            match reg(0) {
                V::PW(p) => one!(R::Obs(o_seq("bytes", &p.encode(b)))),
                V::PM(p) => one!(R::Obs(o_seq("bytes", &p.encode(b)))),
                V::PE(p) => one!(R::Obs(o_seq("bytes", &p.encode(b)))),
                _ => bad(op),
            }
        }
        "decode" => {
            let s = a[1].bytes();
            match reg(0) {
                V::CW(c) => one!(res(c.decode(&s), V::PW)),
                V::CM(c) => one!(res(c.decode(&s), V::PM)),
                V::CE(c) => one!(res(c.decode(&s), V::PE)),
                _ => bad(op),
            }
        }
        "twoTorsion" => match reg(0) {
            V::PM(p) => one!(R::Obs(o_bool(p.is_two_torsion()))),
            _ => bad(op),
        },
        // maps and morphisms
        "iso" => match a[0].str() {
            "secp256k1" => one!(R::Val(V::Iso(Rc::new(inst::get_isogeny_secp256k1())))),
            _ => one!(R::Val(V::Iso(Rc::new(inst::get_isogeny_bls12381g1())))),
        },
        "isotab" => {
            let (dom, cod) = match (reg(0), reg(1)) {
                (V::CW(x), V::CW(y)) => (x, y),
                _ => bad(op),
            };
            let mut tab = HashMap::new();
            for r in a[2].arr() {
                let r = r.arr();
                let v = if r.len() == 2 { None } else { Some((big(&r[2]), big(&r[3]))) };
                tab.insert((big(&r[0]), big(&r[1])), v);
            }
            one!(R::Val(V::Iso(Rc::new(TabIso { dom: dom.clone(), cod: cod.clone(), tab }))))
        }
        "rat" => match a[0].str() {
            "25519" => one!(R::Val(V::Rat(Rc::new(inst::edwards25519_to_curve25519())))),
            _ => one!(R::Val(V::Rat(Rc::new(inst::edwards448_to_curve448())))),
        },
        "dom" => match reg(0) {
            V::Iso(i) => one!(R::Val(V::CW(i.domain()))),
            V::Rat(i) => one!(R::Val(V::CE(i.domain()))),
            _ => bad(op),
        },
        "cod" => match reg(0) {
            V::Iso(i) => one!(R::Val(V::CW(i.codomain()))),
            V::Rat(i) => one!(R::Val(V::CM(i.codomain()))),
            _ => bad(op),
        },
        "newmap" => {
            let z = match reg(2) {
                V::E(z) => z,
                _ => bad(op),
            };
            match (a[0].str(), reg(1)) {
                ("sswu", V::CW(c)) => one!(R::Val(V::MapW(Rc::new(w::SSWU::new(c.clone(), z.clone()))))),
                ("svdw", V::CW(c)) => one!(R::Val(V::MapW(Rc::new(w::SVDW::new(c.clone(), z.clone()))))),
                ("ell2", V::CM(c)) => one!(R::Val(V::MapM(Rc::new(m::Ell2::new(c.clone(), z.clone()))))),
                ("ab0", V::CW(c)) => match reg(3) {
                    V::Iso(i) => one!(R::Val(V::MapW(Rc::new(w::SSWUAB0::new(c.clone(), z.clone(), Box::new(IsoRef(i.clone()))))))),
                    _ => bad(op),
                },
                ("ell2e", V::CE(c)) => match reg(3) {
                    V::Rat(i) => one!(R::Val(V::MapE(Rc::new(e::Ell2::new(c.clone(), z.clone(), Some(Box::new(RatRef(i.clone())))))))),
                    _ => bad(op),
                },
                _ => bad(op),
            }
        }
        "map" => {
            let u = match reg(1) {
                V::E(u) => u,
                _ => bad(op),
            };
            match reg(0) {
                V::MapW(f) => one!(R::Val(V::PW(f.map(u)))),
                V::MapM(f) => one!(R::Val(V::PM(f.map(u)))),
                V::MapE(f) => one!(R::Val(V::PE(f.map(u)))),
                _ => bad(op),
            }
        }
        "push" => match (reg(0), reg(1)) {
            (V::Iso(i), V::PW(p)) => one!(R::Val(V::PW(i.push(p.clone())))),
            (V::Rat(i), V::PE(p)) => one!(R::Val(V::PM(i.push(p.clone())))),
            _ => bad(op),
        },
        "pull" => match (reg(0), reg(1)) {
            (V::Rat(i), V::PM(p)) => one!(R::Val(V::PE(i.pull(p.clone())))),
            _ => bad(op),
        },
        _ => bad(op),
    }
}

/// Executes one instruction; returns the distinct observations over all forms.
pub fn step(ins: &J, g: &mut Vec<V>) -> Vec<String> {
    step_on(ins, g, &[])
}
/// The same, reading registers that are empty from others.
pub fn step_on(ins: &J, g: &mut Vec<V>, base: &[V]) -> Vec<String> {
    let op = ins.get("o").str();
    let a = ins.get("a").arr();
    let d = match ins.get("d") {
        J::Int(i) => *i as usize,
        _ => 0,
    };
    let skip = reg_args(op, a).iter().any(|&i| matches!(look(i, g, base), V::None));
    if skip {
        if d > 0 {
            g[d - 1] = V::None;
        }
        return vec!["[\"skip\"]".into()];
    }
    let forms = call(op, a, g, base);
    let mut seen: Vec<String> = vec![];
    let mut first: Option<V> = None;
    for (i, f) in forms.into_iter().enumerate() {
        let (o, v) = match catch_unwind(AssertUnwindSafe(|| {
            let r = f();
            match r {
                R::Val(v) => (obs(&v), Some(v)),
                R::Obs(s) => (s, None),
            }
        })) {
            Ok(x) => x,
            Err(_) => ("[\"panic\"]".to_string(), None),
        };
        if i == 0 {
            first = v;
        }
        if !seen.contains(&o) {
            seen.push(o);
        }
    }
    let target = if in_place(op) || op == "drop" { a[0].int() as usize } else { d };
    if target > 0 {
        g[target - 1] = first.unwrap_or(V::None);
    }
    seen
}

pub fn to_bigint(n: &BigUint) -> BigInt {
    n.to_bigint().unwrap()
}
