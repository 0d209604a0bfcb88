// Executes scripts of graphrox API calls and writes one JSON event per call, with the
// arguments, the result and (for calls that make or change an object) everything the public
// API shows of that object. The events are judged by spec/Trace.tla; nothing is judged here.

use graphrox::builder::CompressedGraphBuilder;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::error::GraphRoxError;
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write;
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;

/// Counts live bytes, and the most there were.
struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static USED: AtomicUsize = AtomicUsize::new(usize::MAX);

fn grow(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { grow(l.size()); }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() { grow(l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            // As if the new block was there before the old one went.
            grow(n);
            LIVE.fetch_sub(l.size(), Relaxed);
        }
        q
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// Makes a call of the library, noting the most memory it held at a time beyond what was there.
fn api<T>(f: impl FnOnce() -> T) -> T {
    let before = LIVE.load(Relaxed);
    PEAK.store(before, Relaxed);
    let r = f();
    let used = PEAK.load(Relaxed).saturating_sub(before);
    let old = USED.load(Relaxed);
    USED.store(if old == usize::MAX { used } else { old.max(used) }, Relaxed);
    r
}

fn err_json(e: &GraphRoxError) -> String {
    let kind = match e {
        GraphRoxError::InvalidFormat(_) => "InvalidFormat",
        GraphRoxError::InvalidInput(_) => "InvalidInput",
        GraphRoxError::CapacityOverflow(_) => "CapacityOverflow",
    };
    let (GraphRoxError::InvalidFormat(s) | GraphRoxError::InvalidInput(s) | GraphRoxError::CapacityOverflow(s)) = e;
    format!("{{\"e\":\"{kind}\",\"d\":{},\"m\":{}}}", bytes(e.to_string().as_bytes()), bytes(s.as_bytes()))
}
fn fail_json<T>(r: &Result<T, GraphRoxError>) -> String {
    r.as_ref().err().map_or(String::new(), |e| format!(",\"fail\":{}", err_json(e)))
}

macro_rules! mats {
    ($m:ident) => {
        $m! { U8 u8, U16 u16, U32 u32, U64 u64, U128 u128, I8 i8, I16 i16, I32 i32, I64 i64, I128 i128, F32 f32, F64 f64 }
    };
}

macro_rules! def_obj {
    ($($v:ident $t:ty),*) => {
        #[derive(Clone)]
        enum Mat { $($v(CsrSquareMatrix<$t>)),* }
        fn new_mat(t: &str, default: bool) -> Mat {
            match t { $(stringify!($t) => Mat::$v(if default { Default::default() } else { CsrSquareMatrix::new() }),)* _ => panic!("driver: type {t}") }
        }
        impl Mat {
            fn set(&mut self, neg: bool, m: u128, e: i32, c: u64, r: u64) {
                match self { $(Mat::$v(x) => x.set_entry(<$t as Num>::make(neg, m, e), c, r),)* }
            }
            fn clone_over(&mut self, o: &Mat) -> bool {
                match (self, o) { $((Mat::$v(x), Mat::$v(y)) => { x.clone_from(y); true })* _ => false }
            }
            fn inc(&mut self, c: u64, r: u64) { match self { $(Mat::$v(x) => x.increment_entry(c, r),)* } }
            fn zero(&mut self, c: u64, r: u64) { match self { $(Mat::$v(x) => x.zero_entry(c, r),)* } }
            fn dim(&self) -> u64 { match self { $(Mat::$v(x) => x.dimension(),)* } }
            fn count(&self) -> u64 { match self { $(Mat::$v(x) => x.entry_count(),)* } }
            fn get(&self, c: u64, r: u64) -> String { match self { $(Mat::$v(x) => x.get_entry(c, r).show(),)* } }
            fn iter(&self) -> Vec<(String, u64, u64)> {
                match self { $(Mat::$v(x) => x.into_iter().map(|(e, c, r)| (e.show(), c, r)).collect(),)* }
            }
            fn render(&self, d: Option<usize>) -> Result<String, Option<GraphRoxError>> {
                match self { $(Mat::$v(x) => match d {
                    Some(d) => x.to_string_with_precision(d).map_err(Some),
                    None => { let mut s = String::new(); write!(s, "{}", x).map(|_| s).map_err(|_| None) }
                },)* }
            }
            fn ways(&self) -> String {
                match self { $(Mat::$v(x) => ways(|| x.into_iter(), |(e, c, r)| format!("[{},{},{}]", e.show(), w(c), w(r))),)* }
            }
            /// See `twice`.
            fn twice(&self) -> (Vec<(String, u64, u64)>, Vec<(String, u64, u64)>, bool) {
                let f = |(e, c, r): (String, u64, u64)| (e, c, r);
                match self { $(Mat::$v(x) => {
                    let (a, b, o) = twice(|| x.into_iter().map(|(e, c, r)| f((e.show(), c, r))));
                    (a, b, o)
                })* }
            }
        }
    };
}

/// A number as [negative, magnitude bytes (big endian), exponent of two].
trait Num: Copy {
    fn make(neg: bool, m: u128, e: i32) -> Self;
    fn show(&self) -> String;
}

/// Exponents that stand for the numbers that are none.
const NAN: i32 = i32::MIN;
const INF: i32 = i32::MAX;

fn show_dyadic(neg: bool, mut m: u128, mut e: i32, float: bool) -> String {
    if e == NAN { return "[0,[998],0]".into(); }
    if e == INF { return format!("[{},[999],0]", u8::from(neg)); }
    if m == 0 {
        return "[0,[],0]".into();
    }
    if float {
        while m & 1 == 0 {
            m >>= 1;
            e += 1;
        }
    }
    let b: Vec<u8> = m.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
    format!("[{},{},{}]", u8::from(neg), bytes(&b), e)
}

macro_rules! num_int { ($($t:ty),*) => { $(impl Num for $t {
    fn make(neg: bool, m: u128, _e: i32) -> Self { if neg { (0 as $t).wrapping_sub(m as $t) } else { m as $t } }
    #[allow(unused_comparisons)]
    fn show(&self) -> String {
        let neg = *self < 0;
        let m: u128 = if neg { (*self as i128).unsigned_abs() } else { *self as u128 };
        show_dyadic(neg, m, 0, false)
    }
})* } }
num_int!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);

impl Num for f64 {
    fn make(neg: bool, m: u128, e: i32) -> Self {
        let mut x = match e { NAN => f64::NAN, INF => f64::INFINITY, _ => m as f64 };
        if !x.is_finite() { return if neg { -x } else { x }; }
        let mut e = e;
        while e > 0 {
            let s = e.min(1000);
            x *= 2f64.powi(s);
            e -= s;
        }
        while e < 0 {
            let s = (-e).min(1000);
            x /= 2f64.powi(s);
            e += s;
        }
        if neg { -x } else { x }
    }
    fn show(&self) -> String {
        if !self.is_finite() {
            return show_dyadic(*self < 0.0, 1, if self.is_nan() { NAN } else { INF }, true);
        }
        let bits = self.to_bits();
        let exp = ((bits >> 52) & 0x7ff) as i32;
        let frac = bits & ((1 << 52) - 1);
        let (m, e) = if exp == 0 { (frac, -1074) } else { (frac | (1 << 52), exp - 1075) };
        show_dyadic(bits >> 63 == 1, m as u128, e, true)
    }
}
impl Num for f32 {
    fn make(neg: bool, m: u128, e: i32) -> Self { f64::make(neg, m, e) as f32 }
    fn show(&self) -> String { (*self as f64).show() }
}

mats!(def_obj);

enum Obj {
    G(Graph),
    C(CompressedGraph),
    A(CsrAdjacencyMatrix),
    B(CompressedGraphBuilder),
    M(Mat),
}

fn bytes(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 4 + 2);
    s.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 { s.push(','); }
        let _ = write!(s, "{x}");
    }
    s.push(']');
    s
}
fn w(x: u64) -> String { bytes(&x.to_be_bytes()) }
fn list(v: impl IntoIterator<Item = String>) -> String {
    let mut s = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 { s.push(','); }
        s.push_str(&x);
    }
    s.push(']');
    s
}
/// Whether lists whose order is nobody's business (and records of messages) are given sorted, so that two runs
/// of the same calls can be seen to be the same.
static SORTED: AtomicBool = AtomicBool::new(false);
fn set(v: impl IntoIterator<Item = String>) -> String {
    if !SORTED.load(Relaxed) { return list(v); }
    let mut v: Vec<String> = v.into_iter().collect();
    v.sort_unstable();
    list(v)
}
fn message(mut b: Vec<u8>, header: usize, rec: usize) -> Vec<u8> {
    if SORTED.load(Relaxed) && b.len() > header {
        let mut v: Vec<Vec<u8>> = b[header..].chunks(rec).map(|c| c.to_vec()).collect();
        v.sort_unstable();
        b.truncate(header);
        b.extend(v.concat());
    }
    b
}
const TEXT_LIMIT: usize = 2_000_000;
/// A long text is given as its distinct lines and how many times which of them follow each other; one too
/// long even so is cut.
fn text(s: Option<String>) -> String {
    let Some(s) = s else { return "{\"ok\":false}".into() };
    if s.len() <= 20_000 { return format!("{{\"ok\":true,\"c\":{}}}", bytes(s.as_bytes())); }
    let (mut lines, mut ix, mut size) = (Vec::<&str>::new(), Vec::<(usize, usize)>::new(), 0);
    let mut known = std::collections::HashMap::new();
    for l in s.split("\r\n") {
        let k = *known.entry(l).or_insert_with(|| { size += l.len(); lines.push(l); lines.len() });
        match ix.last_mut() { Some((k2, n)) if *k2 == k => *n += 1, _ => ix.push((k, 1)) }
        if size > TEXT_LIMIT { return format!("{{\"ok\":true,\"n\":{},\"c\":{}}}", s.len(), bytes(&s.as_bytes()[..TEXT_LIMIT])); }
    }
    format!("{{\"ok\":true,\"n\":{},\"lines\":{},\"ix\":{}}}", s.len(), list(lines.iter().map(|l| bytes(l.as_bytes()))),
        list(ix.iter().map(|(k, n)| format!("[{k},{n}]"))))
}
fn grid<T>(u: &[u64], f: impl Fn(u64, u64) -> T) -> String where T: ToString {
    list(u.iter().map(|a| list(u.iter().map(|b| f(*a, *b).to_string()))))
}

/// A field holding a list of pairs, given, if it is long, as runs [first, second, how many seconds in a row].
const LONG: usize = 3000;
fn pairs(name: &str, v: &[(u64, u64)]) -> String {
    if v.len() <= LONG { return format!("\"{name}\":{}", set(v.iter().map(|(a, b)| format!("[{},{}]", w(*a), w(*b))))); }
    let mut v = v.to_vec();
    v.sort_unstable();
    let mut runs: Vec<(u64, u64, u64)> = vec![];
    for (a, b) in v {
        match runs.last_mut() { Some((x, y, n)) if *x == a && *y + *n == b && b < 1 << 24 => *n += 1, _ => runs.push((a, b, 1)) }
    }
    format!("\"{name}\":{}", list(runs.iter().map(|(a, b, n)| format!("[{},{},{n}]", w(*a), w(*b)))))
}
/// Lists of ids, or, if long, their runs.
fn ids(v: Vec<u64>) -> String {
    if v.len() <= LONG { return set(v.into_iter().map(w)); }
    let p: Vec<(u64, u64)> = v.into_iter().map(|x| (0, x)).collect();
    pairs("", &p)[3..].into()
}

fn obs_graph(g: &Graph, u: &[u64]) -> String {
    let ends: Vec<(u64, u64)> = g.into_iter().collect();
    format!(
        "\"k\":\"graph\",\"und\":{},\"vc\":{},\"ec\":{},{},\"ex\":{},\"ind\":{},\"outd\":{},\"inl\":{},\"outl\":{}",
        g.is_undirected(), w(g.vertex_count()), w(g.edge_count()),
        pairs("it", &ends),
        grid(u, |a, b| u8::from(g.does_edge_exist(a, b))),
        list(u.iter().map(|v| w(g.get_vertex_in_degree(*v)))),
        list(u.iter().map(|v| w(g.get_vertex_out_degree(*v)))),
        list(u.iter().map(|v| ids(g.get_vertex_in_edges(*v)))),
        list(u.iter().map(|v| ids(g.get_vertex_out_edges(*v)))),
    )
}
fn block_universe(u: &[u64]) -> Vec<u64> {
    let mut b: Vec<u64> = u.iter().map(|x| x / 8).collect();
    b.sort_unstable();
    b.dedup();
    b
}
fn obs_cgraph(g: &CompressedGraph, u: &[u64]) -> String {
    let bu = block_universe(u);
    format!(
        "\"k\":\"cgraph\",\"und\":{},\"vc\":{},\"ec\":{},\"lvl\":{},\"ex\":{},\"bu\":{},\"cme\":{}",
        g.is_undirected(), w(g.vertex_count()), w(g.edge_count()), g.compression_level(),
        grid(u, |a, b| u8::from(g.does_edge_exist(a, b))),
        list(bu.iter().map(|b| w(*b))),
        grid(&bu, |a, b| w(g.get_compressed_matrix_entry(a, b))),
    )
}
fn obs_adj(m: &CsrAdjacencyMatrix, u: &[u64]) -> String {
    format!(
        "\"k\":\"adj\",\"dim\":{},\"ec\":{},\"it\":{},\"get\":{},\"cc\":{},\"rc\":{},\"cv\":{},\"rv\":{}",
        w(m.dimension()), w(m.entry_count()),
        set(m.into_iter().map(|(a, b)| format!("[{},{}]", w(a), w(b)))),
        grid(u, |a, b| m.get_entry(a, b)),
        list(u.iter().map(|v| w(m.col_nonzero_entry_count(*v)))),
        list(u.iter().map(|v| w(m.row_nonzero_entry_count(*v)))),
        list(u.iter().map(|v| set(m.get_sparse_col_vector(*v).into_iter().map(w)))),
        list(u.iter().map(|v| set(m.get_sparse_row_vector(*v).into_iter().map(w)))),
    )
}
fn obs_mat(m: &Mat, u: &[u64]) -> String {
    format!(
        "\"k\":\"mat\",\"dim\":{},\"ec\":{},\"it\":{},\"get\":{}",
        w(m.dim()), w(m.count()),
        set(m.iter().into_iter().map(|(e, a, b)| format!("[{},{},{}]", e, w(a), w(b)))),
        grid(u, |a, b| m.get(a, b)),
    )
}

/// Two iterations at once, after a third that is given up, and whether they stay ended.
fn twice<T, I: Iterator<Item = T>>(mk: impl Fn() -> I) -> (Vec<T>, Vec<T>, bool) {
    let mut given_up = mk();
    given_up.next();
    let (mut i, mut j) = (mk(), mk());
    let (mut a, mut b) = (vec![], vec![]);
    drop(given_up.next());
    let mut turn = 0;
    loop {
        turn += 1;
        let x = i.next();
        let y = if turn % 3 == 0 { None } else { j.next() };
        let end = x.is_none();
        a.extend(x);
        b.extend(y);
        if end { break; }
    }
    b.extend(j.by_ref());
    let over = i.next().is_none() && j.next().is_none() && i.next().is_none();
    (a, b, over)
}

/// The same iteration by every means an iterator has: counted, folded, stepped by nth(0) and by nth(1), its last item,
/// collected after some were taken one by one; and what it announces of its length at each step.
fn ways<T, I: Iterator<Item = T>>(mk: impl Fn() -> I, js: impl Fn(T) -> String) -> String {
    let all = |v: Vec<T>| set(v.into_iter().map(&js));
    let mut hints = vec![];
    let mut i = mk();
    loop {
        let (lo, hi) = i.size_hint();
        let cap = |x: usize| x.min(1 << 30) as i64;
        hints.push(format!("[{},{}]", cap(lo), hi.map_or(-1, cap)));
        if i.next().is_none() { break; }
    }
    let folded = mk().fold(vec![], |mut v, x| { v.push(x); v });
    let step = |k: usize| { let (mut i, mut v) = (mk(), vec![]); while let Some(x) = i.nth(k) { v.push(x); } v };
    let mut part = vec![];
    let mut i = mk();
    part.extend(i.next());
    part.extend(i.nth(0));
    part.extend(i);
    let mut begun = mk();
    begun.next();
    let mut begun_last = mk();
    begun_last.next();
    format!("\"left\":{},\"llast\":{},\"n\":{},\"ways\":[{},{},{}],\"odd\":{},\"last\":{},\"past\":{},\"hints\":{}", begun.count(), all(begun_last.last().into_iter().collect()), mk().count(), all(folded), all(step(0)), all(part),
        all(step(1)), all(mk().last().into_iter().collect()), mk().nth(mk().count()).is_some(), list(hints.into_iter()))
}

#[derive(Default)]
struct Driver {
    objs: BTreeMap<String, Arc<Obj>>,
    u: Vec<u64>,
    clones: u64,
}

fn hex(s: &str) -> Vec<u8> {
    if s == "-" { return vec![]; }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Mutations of an encoded message: see tools/gen.py.
fn mutate(b: &mut Vec<u8>, t: &[&str], header: usize, rec: usize) {
    let mut i = 0;
    while i < t.len() {
        let n = |k: usize| t[i + k].parse::<u64>().unwrap() as usize;
        match t[i] {
            "xor" => { let p = n(1); if p < b.len() { b[p] ^= n(2) as u8; } i += 3; }
            "set" => { let p = n(1); if p < b.len() { b[p] = n(2) as u8; } i += 3; }
            "word" => {
                let p = n(1);
                let v = t[i + 2].parse::<u64>().unwrap().to_be_bytes();
                if p + 8 <= b.len() { b[p..p + 8].copy_from_slice(&v); }
                i += 3;
            }
            "addword" => {
                let p = n(1);
                let d = t[i + 2].parse::<i64>().unwrap();
                if p + 8 <= b.len() {
                    let v = u64::from_be_bytes(b[p..p + 8].try_into().unwrap()).wrapping_add(d as u64);
                    b[p..p + 8].copy_from_slice(&v.to_be_bytes());
                }
                i += 3;
            }
            "trunc" => { let p = n(1); let l = b.len(); b.truncate(l.saturating_sub(p)); i += 2; }
            "keep" => { let p = n(1); b.truncate(p); i += 2; }
            "ext" => { b.extend_from_slice(&hex(t[i + 1])); i += 2; }
            // copy record a over record b (indices modulo the number of records)
            "cprec" => {
                let k = b.len().saturating_sub(header) / rec;
                if k > 0 {
                    let (x, y) = (header + (n(1) % k) * rec, header + (n(2) % k) * rec);
                    let r = b[x..x + rec].to_vec();
                    b[y..y + rec].copy_from_slice(&r);
                }
                i += 3;
            }
            // append a copy of record a and add one to the entry count
            "duprec" => {
                let k = b.len().saturating_sub(header) / rec;
                if k > 0 {
                    let x = header + (n(1) % k) * rec;
                    let r = b[x..x + rec].to_vec();
                    b.extend_from_slice(&r);
                    let c = u64::from_be_bytes(b[16..24].try_into().unwrap()).wrapping_add(1);
                    b[16..24].copy_from_slice(&c.to_be_bytes());
                }
                i += 2;
            }
            // remove record a, subtract one from the entry count and d from the edge count
            "rmrec" => {
                let k = b.len().saturating_sub(header) / rec;
                if k > 0 {
                    let x = header + (n(1) % k) * rec;
                    let bits: u32 = if rec == 24 { b[x..x + 8].iter().map(|y| y.count_ones()).sum() } else { 0 };
                    b.drain(x..x + rec);
                    let c = u64::from_be_bytes(b[16..24].try_into().unwrap()).wrapping_sub(1);
                    b[16..24].copy_from_slice(&c.to_be_bytes());
                    if rec == 24 && n(2) == 1 {
                        let c = u64::from_be_bytes(b[24..32].try_into().unwrap()).wrapping_sub(bits as u64);
                        b[24..32].copy_from_slice(&c.to_be_bytes());
                    }
                }
                i += 3;
            }
            // xor byte o of record a
            "recxor" => {
                let k = b.len().saturating_sub(header) / rec;
                if k > 0 { let x = header + (n(1) % k) * rec; b[x + n(2) % rec] ^= n(3) as u8; }
                i += 4;
            }
            "recword" => {
                let k = b.len().saturating_sub(header) / rec;
                if k > 0 {
                    let x = header + (n(1) % k) * rec + 8 * (n(2) % (rec / 8));
                    let v = t[i + 3].parse::<u64>().unwrap().to_be_bytes();
                    b[x..x + 8].copy_from_slice(&v);
                }
                i += 4;
            }
            // clear bit o of the first word of record a and subtract d from the edge count
            "clrbit" => {
                let k = b.len().saturating_sub(header) / rec;
                if k > 0 {
                    let x = header + (n(1) % k) * rec;
                    let v = u64::from_be_bytes(b[x..x + 8].try_into().unwrap());
                    let nth = n(2) as u32 % v.count_ones().max(1);
                    let mut bit = 0;
                    let mut seen = 0;
                    for q in 0..64 { if v >> q & 1 == 1 { if seen == nth { bit = q; } seen += 1; } }
                    let v2 = v & !(1u64 << bit);
                    b[x..x + 8].copy_from_slice(&v2.to_be_bytes());
                    let c = u64::from_be_bytes(b[24..32].try_into().unwrap())
                        .wrapping_sub((v.count_ones() - v2.count_ones()) as u64);
                    b[24..32].copy_from_slice(&c.to_be_bytes());
                }
                i += 3;
            }
            x => panic!("driver: mutation {x}"),
        }
    }
}

impl Driver {
    fn obs(&self, h: &str) -> String {
        let body = match &*self.objs[h] {
            Obj::G(g) => obs_graph(g, &self.u),
            Obj::C(g) => obs_cgraph(g, &self.u),
            Obj::A(m) => obs_adj(m, &self.u),
            Obj::M(m) => obs_mat(m, &self.u),
            Obj::B(_) => "\"k\":\"builder\"".into(),
        };
        format!("{{\"h\":\"{h}\",{body}}}")
    }
    fn obs1(&self, h: &str) -> String { format!(",\"obs\":[{}]", self.obs(h)) }
    /// An object about to be changed.
    fn change(&mut self, h: &str) -> &mut Obj {
        self.objs.get_mut(h).and_then(Arc::get_mut).unwrap_or_else(|| panic!("driver: {h} is not there to change"))
    }
    fn read(&self, h: &str) -> &Graph {
        match &*self.objs[h] { Obj::G(g) => g, _ => unreachable!() }
    }
    fn put(&mut self, h: &str, o: Obj) { self.objs.insert(h.into(), Arc::new(o)); }
    fn graph(&mut self, h: &str) -> &mut Graph {
        match self.change(h) { Obj::G(g) => g, _ => unreachable!() }
    }
    fn has(&self, h: &str, k: &str) -> bool {
        matches!((self.objs.get(h).map(|o| &**o), k), (Some(Obj::G(_)), "g") | (Some(Obj::C(_)), "c") | (Some(Obj::A(_)), "a")
            | (Some(Obj::B(_)), "b") | (Some(Obj::M(_)), "m") | (Some(_), "*"))
    }

    /// Returns the event without its braces.
    fn exec(&mut self, t: &[&str]) -> String {
        let n = |i: usize| t[i].parse::<u64>().unwrap_or_else(|_| panic!("driver: number {:?}", t));
        let skip = || String::from("\"op\":\"skip\"");
        let need = match t[0] {
            "addr" | "addm" | "delr" | "redec" | "addv" | "adde" | "dele" | "pool" | "approx" | "compress" => "g",
            "decompress" => "c",
            "seta" | "zeroa" | "a2g" => "a",
            "setm" | "incm" | "zerom" => "m",
            "addb" | "finish" => "b",
            "clone" | "drop" | "obs" | "enc" | "str" | "decm" | "iter2" | "iter3" => "*",
            _ => "",
        };
        if !need.is_empty() && !self.has(t[1], need) { return skip(); }
        match t[0] {
            "U" => {
                self.u = (1..t.len()).map(n).collect();
                format!("\"op\":\"U\",\"ids\":{}", list(self.u.iter().map(|x| w(*x))))
            }
            "reset" => { self.objs.clear(); format!("\"op\":\"reset\",\"id\":\"{}\"", t.get(1).unwrap_or(&"")) }
            "newg" => {
                let g = if n(2) == 1 { Graph::new_undirected() } else { Graph::new_directed() };
                self.put(t[1], Obj::G(g));
                format!("\"op\":\"newg\",\"h\":\"{}\",\"und\":{}{}", t[1], n(2) == 1, self.obs1(t[1]))
            }
            "addv" => {
                let q = t.last() == Some(&"q");
                let t = if q { &t[..t.len() - 1] } else { t };
                let vs: Option<Vec<u64>> = if t[3] == "-" { None } else { Some((4..t.len()).map(n).collect()) };
                let id = n(2);
                api(|| self.graph(t[1]).add_vertex(id, vs.as_deref()));
                format!("\"op\":\"addv\",\"h\":\"{}\",\"u\":{},\"vs\":{}{}", t[1], w(id),
                    list(vs.unwrap_or_default().into_iter().map(w)), if q { String::new() } else { self.obs1(t[1]) })
            }
            // addr h u LO N STEP: a vertex with N neighbours; delr the same: N deletions
            "addr" | "delr" => {
                let (u, lo, k, step) = (n(2), n(3), n(4), n(5));
                let vs: Vec<u64> = (0..k).map(|i| lo + i * step).collect();
                let g = self.graph(t[1]);
                api(|| if t[0] == "addr" { g.add_vertex(u, Some(&vs)) } else { for v in &vs { g.delete_edge(u, *v) } });
                format!("\"op\":\"{}\",\"h\":\"{}\",\"u\":{},\"run\":[{lo},{k},{step}]{}", if t[0] == "addr" { "addv" } else { "dele" }, t[1], w(u),
                    if t.len() > 6 { String::new() } else { self.obs1(t[1]) })
            }
            // addm h v LO N STEP: N vertices gain an edge to v
            "addm" => {
                let (v, lo, k, step) = (n(2), n(3), n(4), n(5));
                let g = self.graph(t[1]);
                api(|| for i in 0..k { g.add_edge(lo + i * step, v) });
                format!("\"op\":\"adde\",\"h\":\"{}\",\"v\":{},\"run\":[{lo},{k},{step}]{}", t[1], w(v), if t.len() > 6 { String::new() } else { self.obs1(t[1]) })
            }
            // redec h h2: encode and decode a graph
            "redec" => {
                let b = api(|| self.read(t[1]).to_bytes().unwrap());
                let r = api(|| Graph::try_from(b.as_slice()));
                let ok = r.is_ok();
                let fail = fail_json(&r);
                self.objs.remove(t[2]);
                if let Ok(g) = r { self.put(t[2], Obj::G(g)); }
                let recs: Vec<(u64, u64)> = b[26..].chunks_exact(16).map(|c|
                    (u64::from_be_bytes(c[..8].try_into().unwrap()), u64::from_be_bytes(c[8..].try_into().unwrap()))).collect();
                format!("\"op\":\"dec\",\"k\":\"graph\",\"same\":\"{}\",\"h2\":\"{}\",\"head\":{},{},\"rest\":{},\"ok\":{}{}", t[1], t[2],
                    bytes(&b[..26]), pairs("it", &recs), (b.len() - 26) % 16, ok, if ok { self.obs1(t[2]) } else { fail })
            }
            "adde" | "dele" => {
                let (u, v) = (n(2), n(3));
                let g = self.graph(t[1]);
                api(|| if t[0] == "adde" { g.add_edge(u, v) } else { g.delete_edge(u, v) });
                let q = t.get(4) == Some(&"q");
                format!("\"op\":\"{}\",\"h\":\"{}\",\"u\":{},\"v\":{}{}", t[0], t[1], w(u), w(v),
                    if q { String::new() } else { self.obs1(t[1]) })
            }
            "clone" => {
                // Every other time over an object that holds something else.
                self.clones += 1;
                let pick = self.u.iter().fold(self.clones, |a, x| a.wrapping_add(*x));
                let over = if pick % 2 == 0 {
                    let mut g = if pick % 4 == 0 { Graph::new_directed() } else { Graph::new_undirected() };
                    g.add_vertex(3, Some(&[1, 9, 77, 1 << 40]));
                    match &*self.objs[t[1]] {
                        Obj::G(x) => { api(|| g.clone_from(x)); Some(Obj::G(g)) }
                        Obj::C(x) => { let mut c = g.compress(1); api(|| c.clone_from(x)); Some(Obj::C(c)) }
                        Obj::A(x) => {
                            let mut m = CsrAdjacencyMatrix::new();
                            m.set_entry(1, 5, 1 << 40);
                            m.set_entry(1, 0, 2);
                            api(|| m.clone_from(x));
                            Some(Obj::A(m))
                        }
                        Obj::M(x) => {
                            let mut m = x.clone();
                            m.set(false, 1, 0, 5, 1 << 40);
                            m.set(false, 1, 0, 0, 2);
                            api(|| m.clone_over(x));
                            Some(Obj::M(m))
                        }
                        Obj::B(_) => None,
                    }
                } else { None };
                let o = if let Some(o) = over { o } else { match &*self.objs[t[1]] {
                    Obj::G(g) => Obj::G(api(|| g.clone())),
                    Obj::C(g) => Obj::C(api(|| g.clone())),
                    Obj::A(g) => Obj::A(api(|| g.clone())),
                    Obj::M(g) => Obj::M(api(|| g.clone())),
                    Obj::B(_) => return skip(),
                } };
                self.put(t[2], o);
                format!("\"op\":\"clone\",\"h\":\"{}\",\"h2\":\"{}\"{}", t[1], t[2], self.obs1(t[2]))
            }
            "drop" => { self.objs.remove(t[1]); format!("\"op\":\"drop\",\"h\":\"{}\"", t[1]) }
            "obs" => format!("\"op\":\"obs\",\"h\":\"{}\"{}", t[1], self.obs1(t[1])),
            "obsall" => {
                let hs: Vec<String> = self.objs.keys().cloned().collect();
                format!("\"op\":\"obsall\",\"obs\":{}", list(hs.iter().map(|h| self.obs(h))))
            }
            "pool" => {
                let b = n(3);
                let m = api(|| self.read(t[1]).find_avg_pool_matrix(b));
                self.put(t[2], Obj::M(Mat::F64(m)));
                format!("\"op\":\"pool\",\"h\":\"{}\",\"h2\":\"{}\",\"b\":{}{}", t[1], t[2], w(b), self.obs1(t[2]))
            }
            "approx" => {
                let b = n(3);
                let (thr, js) = threshold(&t[4..]);
                let g = api(|| self.read(t[1]).approximate(b, thr));
                self.put(t[2], Obj::G(g));
                format!("\"op\":\"approx\",\"h\":\"{}\",\"h2\":\"{}\",\"b\":{},\"thr\":{}{}", t[1], t[2], w(b), js, self.obs1(t[2]))
            }
            "compress" => {
                let l = n(3);
                let g = api(|| self.read(t[1]).compress(l as u8));
                self.put(t[2], Obj::C(g));
                format!("\"op\":\"compress\",\"h\":\"{}\",\"h2\":\"{}\",\"lvl\":{}{}", t[1], t[2], l, self.obs1(t[2]))
            }
            "decompress" => {
                let g = match &*self.objs[t[1]] { Obj::C(g) => api(|| g.decompress()), _ => return skip() };
                self.put(t[2], Obj::G(g));
                format!("\"op\":\"decompress\",\"h\":\"{}\",\"h2\":\"{}\"{}", t[1], t[2], self.obs1(t[2]))
            }
            "enc" => {
                let b = match &*self.objs[t[1]] { Obj::G(g) => api(|| g.to_bytes()).map(|b| message(b, 26, 16)), Obj::C(g) => api(|| g.to_bytes()).map(|b| message(b, 42, 24)), _ => return skip() };
                format!("\"op\":\"enc\",\"h\":\"{}\",\"ok\":{},\"b\":{}", t[1], b.is_ok(), bytes(&b.unwrap_or_default()))
            }
            // dec KIND h2 HEX ; decm h h2 KIND|same MUTATION... ; decx as decm, with the other decoder
            "dec" => self.decode(t[1] == "g", t[2], hex(t[3])),
            "decm" => {
                if SORTED.load(Relaxed) { return skip(); }
                let (mut b, g) = match &*self.objs[t[1]] {
                    Obj::G(g) => (g.to_bytes(), true),
                    Obj::C(g) => (g.to_bytes(), false),
                    _ => return skip(),
                };
                let Ok(b) = &mut b else { return skip() };
                mutate(b, &t[4..], if g { 26 } else { 42 }, if g { 16 } else { 24 });
                let as_graph = if t[3] == "same" { g } else { t[3] == "g" };
                self.decode(as_graph, t[2], b.clone())
            }
            "str" => {
                let d: Option<usize> = t.get(2).map(|x| x.parse().unwrap());
                let (a, b) = match &*self.objs[t[1]] {
                    Obj::G(g) => (api(|| g.matrix_string()), None),
                    Obj::C(g) => (api(|| g.matrix_string()), None),
                    Obj::A(m) => (api(|| m.try_to_string()), Some({ let mut s = String::new(); write!(s, "{}", m).ok().map(|_| s) })),
                    Obj::M(m) => match api(|| m.render(d)) {
                        Ok(s) => (Ok(s), None),
                        Err(Some(e)) => (Err(e), None),
                        // Display's own error tells nothing
                        Err(None) => return format!("\"op\":\"str\",\"h\":\"{}\",\"d\":-1,\"s\":{}", t[1], text(None)),
                    },
                    Obj::B(_) => return skip(),
                };
                let fail = fail_json(&a);
                let a = a.ok();
                let b = b.map_or(String::new(), |b| format!(",\"s2\":{}", text(b)));
                format!("\"op\":\"str\",\"h\":\"{}\",\"d\":{},\"s\":{}{}{}", t[1],
                    d.map_or("-1".into(), |d| d.to_string()), text(a), b, fail)
            }
            "iter2" => {
                let pair = |(a, b): &(u64, u64)| format!("[{},{}]", w(*a), w(*b));
                let trip = |(e, a, b): &(String, u64, u64)| format!("[{},{},{}]", e, w(*a), w(*b));
                let (a, b, o) = match &*self.objs[t[1]] {
                    Obj::G(g) => { let (a, b, o) = twice(|| g.into_iter()); (set(a.iter().map(pair)), set(b.iter().map(pair)), o) }
                    Obj::A(g) => { let (a, b, o) = twice(|| g.into_iter()); (set(a.iter().map(pair)), set(b.iter().map(pair)), o) }
                    Obj::M(g) => { let (a, b, o) = g.twice(); (set(a.iter().map(trip)), set(b.iter().map(trip)), o) }
                    _ => return skip(),
                };
                format!("\"op\":\"iter2\",\"h\":\"{}\",\"c\":{},\"c2\":{},\"over\":{}", t[1], a, b, o)
            }
            "iter3" => {
                let pair = |(a, b): (u64, u64)| format!("[{},{}]", w(a), w(b));
                let r = match &*self.objs[t[1]] {
                    Obj::G(g) if g.edge_count() < 300 => ways(|| g.into_iter(), pair),
                    Obj::A(g) if g.entry_count() < 300 => ways(|| g.into_iter(), pair),
                    Obj::M(g) if g.count() < 300 => g.ways(),
                    _ => return skip(),
                };
                format!("\"op\":\"iter3\",\"h\":\"{}\",{}", t[1], r)
            }
            "newa" => {
                self.put(t[1], Obj::A(if t.len() > 2 { Default::default() } else { CsrAdjacencyMatrix::new() }));
                format!("\"op\":\"newa\",\"h\":\"{}\"{}", t[1], self.obs1(t[1]))
            }
            "seta" | "zeroa" => {
                let k = usize::from(t[0] == "seta");
                let (c, r) = (n(2 + k), n(3 + k));
                let e = if k == 1 { n(2) as u8 } else { 0 };
                if let Obj::A(m) = self.change(t[1]) {
                    api(|| if k == 1 { m.set_entry(e, c, r) } else { m.zero_entry(c, r) })
                }
                format!("\"op\":\"{}\",\"h\":\"{}\",\"e\":{},\"c\":{},\"r\":{}{}", t[0], t[1], e, w(c), w(r), if t.last() == Some(&"q") { String::new() } else { self.obs1(t[1]) })
            }
            "a2g" => {
                let m = match &*self.objs[t[1]] { Obj::A(m) => m.clone(), _ => return skip() };
                let g = match t[3] {
                    "dir" => Ok(api(|| Graph::directed_from(m))),
                    "und" => api(|| Graph::undirected_from(m)),
                    _ => Ok(api(|| unsafe { Graph::undirected_from_unchecked(m) })),
                };
                let ok = g.is_ok();
                let fail = fail_json(&g);
                if let Ok(g) = g { self.put(t[2], Obj::G(g)); }
                format!("\"op\":\"a2g\",\"h\":\"{}\",\"h2\":\"{}\",\"mode\":\"{}\",\"ok\":{}{}", t[1], t[2], t[3], ok,
                    if ok { self.obs1(t[2]) } else { fail })
            }
            "newm" => {
                self.put(t[1], Obj::M(new_mat(t[2], t.len() > 3)));
                format!("\"op\":\"newm\",\"h\":\"{}\",\"type\":\"{}\"{}", t[1], t[2], self.obs1(t[1]))
            }
            // setm h NEG MANTISSA EXP c r
            "setm" => {
                let e = match t[3] { "nan" => NAN, "inf" => INF, _ => t[4].parse::<i32>().unwrap() };
                let (neg, m) = (t[2] == "1", t[3].parse::<u128>().unwrap_or(0));
                let (c, r) = (n(5), n(6));
                if let Obj::M(x) = self.change(t[1]) { api(|| x.set(neg, m, e, c, r)) }
                format!("\"op\":\"setm\",\"h\":\"{}\",\"x\":{},\"c\":{},\"r\":{}{}", t[1],
                    show_dyadic(neg, m, e, false), w(c), w(r), if t.last() == Some(&"q") { String::new() } else { self.obs1(t[1]) })
            }
            "incm" | "zerom" => {
                let (c, r) = (n(2), n(3));
                if let Obj::M(x) = self.change(t[1]) {
                    api(|| if t[0] == "incm" { x.inc(c, r) } else { x.zero(c, r) })
                }
                format!("\"op\":\"{}\",\"h\":\"{}\",\"c\":{},\"r\":{}{}", t[0], t[1], w(c), w(r), if t.last() == Some(&"q") { String::new() } else { self.obs1(t[1]) })
            }
            "newb" => {
                let (vc, l) = (n(3), n(4));
                self.put(t[1], Obj::B(api(|| CompressedGraphBuilder::new(n(2) == 1, vc, l as u8))));
                format!("\"op\":\"newb\",\"h\":\"{}\",\"und\":{},\"vc\":{},\"lvl\":{}", t[1], n(2) == 1, w(vc), l)
            }
            // addb h ENTRY c r WEIGHT|-
            "addb" => {
                let (e, c, r) = (n(2), n(3), n(4));
                let wt = if t[5] == "-" { None } else { Some(n(5)) };
                if let Obj::B(b) = self.change(t[1]) { api(|| b.add_compressed_matrix_entry(e, c, r, wt)) }
                format!("\"op\":\"addb\",\"h\":\"{}\",\"e\":{},\"c\":{},\"r\":{},\"w\":{}", t[1], w(e), w(c), w(r),
                    wt.map_or("[]".into(), w))
            }
            "finish" => {
                let b = match self.objs.remove(t[1]).and_then(Arc::into_inner) { Some(Obj::B(b)) => b, _ => return skip() };
                self.put(t[2], Obj::C(api(|| unsafe { b.finish() })));
                format!("\"op\":\"finish\",\"h\":\"{}\",\"h2\":\"{}\"{}", t[1], t[2], self.obs1(t[2]))
            }
            x => panic!("driver: op {x}"),
        }
    }

    fn decode(&mut self, graph: bool, h2: &str, b: Vec<u8>) -> String {
        // The message lies anywhere in memory, and something else lies on both sides of it.
        let k = 1 + b.len() % 9;
        let around = if b.len() < 1 << 16 { [&vec![0xa5; k][..], &b, &[0, 0, 0, 0, 0, 0, 0, 1, 255, 255, 255, 255, 255, 255, 255, 255]].concat() } else { vec![] };
        let m = around.get(k..k + b.len()).unwrap_or(&b);
        let r = api(|| if graph { Graph::try_from(m).map(Obj::G) } else { CompressedGraph::try_from(m).map(Obj::C) });
        let ok = r.is_ok();
        let fail = fail_json(&r);
        self.objs.remove(h2);
        if let Ok(o) = r { self.put(h2, o); }
        format!("\"op\":\"dec\",\"k\":\"{}\",\"h2\":\"{}\",\"b\":{},\"ok\":{}{}", if graph { "graph" } else { "cgraph" },
            h2, bytes(&b), ok, if ok { self.obs1(h2) } else { fail })
    }
}

/// p/q, with an optional sign, or inf, -inf: the f64 nearest the quotient, and its JSON.
fn threshold(t: &[&str]) -> (f64, String) {
    match t[0] {
        "inf" => (f64::INFINITY, "{\"kind\":\"inf\"}".into()),
        "-inf" => (f64::NEG_INFINITY, "{\"kind\":\"-inf\"}".into()),
        x => {
            let neg = x.starts_with('-');
            let (p, q) = x.trim_start_matches('-').split_once('/').unwrap();
            let (p, q) = (p.parse::<u64>().unwrap(), q.parse::<u64>().unwrap());
            let v = p as f64 / q as f64;
            (if neg { -v } else { v }, format!("{{\"kind\":\"num\",\"neg\":{},\"p\":{},\"q\":{}}}", neg, w(p), w(q)))
        }
    }
}

