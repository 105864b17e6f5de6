//! Runs the real crate on concrete inputs.  One command per line on stdin, one answer per line.
use gauss_quad::{
    FiniteAboveNegOneF64 as Fin, chebyshev::*, hermite::*, jacobi::*, laguerre::*, legendre::*, midpoint::*,
    simpson::*, trapezoid::*,
};
use std::collections::VecDeque;
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use std::num::{NonZeroU32, NonZeroUsize};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};

fn f(s: &str) -> f64 {
    match s.strip_prefix("0x") {
        Some(h) => f64::from_bits(u64::from_str_radix(h, 16).unwrap()),
        None => s.parse().unwrap(),
    }
}
fn hx(x: f64) -> String {
    format!("{:016x}", x.to_bits())
}
fn nz(s: &str) -> NonZeroUsize {
    NonZeroUsize::new(s.parse().unwrap()).unwrap()
}
fn nz32(s: &str) -> NonZeroU32 {
    NonZeroU32::new(s.parse().unwrap()).unwrap()
}
fn fin(s: &str) -> Fin {
    Fin::new(f(s)).unwrap()
}
fn pairs(p: &[(f64, f64)]) -> String {
    let mut s = String::new();
    for (x, w) in p {
        write!(s, " {:016x}{:016x}", x.to_bits(), w.to_bits()).unwrap();
    }
    s
}

/// integrands by name: pseudo-random functions of the bits of their argument
fn integrand(id: &str, x: f64) -> f64 {
    let mut z = (x + 0.0).to_bits().wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^= z >> 31;
    let y = 0.5 + (z >> 11) as f64 / (1u64 << 53) as f64;
    let signed = if z & 1 == 0 { y } else { -y };
    match (id, (z >> 1) % 8) {
        ("hash", _) => signed,
        ("zeros", 0..=2) => 0.0,
        ("zeros", 3) => -0.0,
        ("nan", 0) | ("wild", 0) => f64::NAN,
        ("inf", 0 | 1) | ("wild", 1) => f64::INFINITY,
        ("neginf", 0 | 1) | ("wild", 2) => f64::NEG_INFINITY,
        ("wild", 3) => 1e308 * y,
        ("wild", 4) => -0.0,
        ("wild", 5) => 5e-324,
        ("zeros" | "nan" | "inf" | "neginf" | "wild", _) => signed,
        ("one", _) => 1.0,
        ("zero", _) => 0.0,
        _ if id.starts_with("scale") => signed * 2f64.powi(id[5..].parse().unwrap()),
        _ => x.powi(id.strip_prefix("pow").unwrap().parse().unwrap()),
    }
}

fn show_calls(r: f64, c: Vec<(f64, f64)>) -> String {
    format!("{} {}{}", hx(r), c.len(), pairs(&c))
}

macro_rules! integ {
    ($rule:expr, $mode:expr, $id:expr $(, $b:expr)*) => {{
        let calls: Mutex<Vec<(f64, f64)>> = Mutex::new(Vec::new());
        let quiet = $id.starts_with("q:");
        let id = $id.trim_start_matches("q:");
        let g = |x: f64| {
            let y = integrand(id, x);
            if !quiet { calls.lock().unwrap().push((x, y)); }
            y
        };
        let r = match $mode {
            "seq" => $rule.integrate($($b,)* g),
            #[cfg(feature = "all")]
            "par" => $rule.par_integrate($($b,)* g),
            _ => panic!("mode"),
        };
        show_calls(r, calls.into_inner().unwrap())
    }};
}

/// drives an iterator with a pseudo-random sequence of operations against a deque
fn deque<T: PartialEq + std::fmt::Debug + Copy, I>(what: &str, mk: &dyn Fn() -> I, data: &[T], seed: u64, rounds: usize)
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator,
{
    let mut z = seed.wrapping_mul(2) + 1;
    let mut rnd = |m: usize| -> usize {
        z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((z >> 33) as usize) % m
    };
    let n = data.len();
    for round in 0..rounds {
        let mut it = mk();
        let mut d: VecDeque<T> = data.iter().copied().collect();
        let mut log = String::new();
        for _ in 0..(2 * n.min(12) + 6) {
            let op = rnd(10);
            let k = match rnd(4) { 0 => 0, 1 => rnd(3), 2 => rnd(n + 2), _ => if rnd(8) == 0 { usize::MAX } else { d.len() } };
            let (a, b);
            match op {
                0..=2 => { write!(log, "next ").unwrap(); a = it.next(); b = d.pop_front(); }
                3..=5 => { write!(log, "next_back ").unwrap(); a = it.next_back(); b = d.pop_back(); }
                6 | 7 => {
                    write!(log, "nth({k}) ").unwrap();
                    a = it.nth(k);
                    if k < d.len() { d.drain(..k); b = d.pop_front(); } else { d.clear(); b = None; }
                }
                _ => {
                    write!(log, "nth_back({k}) ").unwrap();
                    a = it.nth_back(k);
                    if k < d.len() { let m = d.len() - k; d.truncate(m); b = d.pop_back(); } else { d.clear(); b = None; }
                }
            }
            if a != b { panic!("MISMATCH {what} n={n} round={round}: {log}gave {a:?}, expected {b:?}"); }
            if it.size_hint() != (d.len(), Some(d.len())) || it.len() != d.len() {
                panic!("MISMATCH {what} n={n}: {log}size_hint {:?} len {} expected {}", it.size_hint(), it.len(), d.len());
            }
        }
        // last, count and the rest after a random prefix
        let k = rnd(n + 1);
        let b = rnd(n + 1 - k);
        let adv = || { let mut it = mk(); for _ in 0..k { it.next(); } for _ in 0..b { it.next_back(); } it };
        let rest = &data[k..n - b];
        if adv().count() != rest.len() { panic!("MISMATCH {what} n={n}: count after {k} next, {b} next_back: {}", adv().count()); }
        if adv().last() != rest.last().copied() { panic!("MISMATCH {what} n={n}: last after {k} next, {b} next_back: {:?}", adv().last()); }
        if adv().collect::<Vec<_>>() != rest { panic!("MISMATCH {what} n={n}: collect after {k} next, {b} next_back"); }
        if adv().rev().collect::<Vec<_>>() != rest.iter().rev().copied().collect::<Vec<_>>() { panic!("MISMATCH {what} n={n}: rev"); }
        consumers(what, n, &adv, rest, rnd(rest.len() + 1), rnd(3) + 1);
        let mut it = adv();
        for _ in 0..rest.len() { it.next(); }
        for _ in 0..3 {
            if it.next().is_some() || it.next_back().is_some() || it.nth(0).is_some() || it.nth_back(1).is_some() || it.len() != 0 {
                panic!("MISMATCH {what} n={n}: yields after exhaustion");
            }
        }
    }
}

/// the other methods of the iterator traits, which a type may override
fn consumers<T: PartialEq + std::fmt::Debug + Copy, I>(what: &str, n: usize, adv: &dyn Fn() -> I, rest: &[T], k: usize, step: usize)
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator,
{
    let check = |m: &str, got: Vec<T>, want: Vec<T>| {
        if got != want { panic!("MISMATCH {what} n={n}: {m} of {} remaining elements gives {got:?}, expected {want:?}", rest.len()); }
    };
    let all = || rest.to_vec();
    let back = || rest.iter().rev().copied().collect::<Vec<_>>();
    let push = |mut v: Vec<T>, x: T| { v.push(x); v };
    check("fold", adv().fold(vec![], push), all());
    check("rfold", adv().rfold(vec![], push), back());
    let mut v = vec![];
    adv().for_each(|x| v.push(x));
    check("for_each", v, all());
    let mut v = vec![];
    for x in adv() { v.push(x); }
    check("a for loop", v, all());
    let mut v = vec![];
    adv().rev().for_each(|x| v.push(x));
    check("rev().for_each", v, back());
    let mut v = vec![];
    v.extend(adv());
    check("extend", v, all());
    check("collect into a box", adv().collect::<Box<[T]>>().into_vec(), all());
    check("map", adv().map(|x| x).collect(), all());
    check("chain", adv().chain(adv()).collect(), rest.iter().chain(rest).copied().collect());
    check("zip", adv().zip(adv().skip(k)).map(|(_, y)| y).collect(), rest[k..].to_vec());
    check("skip", adv().skip(k).collect(), rest[k..].to_vec());
    check("skip from the back", adv().rev().skip(k).collect(), back()[k..].to_vec());
    check("take", adv().take(k).collect(), rest[..k].to_vec());
    check("step_by", adv().step_by(step).collect(), rest.iter().step_by(step).copied().collect());
    check("rev().step_by", adv().rev().step_by(step).collect(), rest.iter().rev().step_by(step).copied().collect());
    check("filter", adv().filter(|_| true).collect(), all());
    check("filter_map", adv().filter_map(Some).collect(), all());
    check("fuse", adv().fuse().collect(), all());
    check("partition", adv().partition::<Vec<T>, _>(|_| true).0, all());
    check("enumerate", adv().enumerate().map(|(_, x)| x).collect(), all());
    check("peekable", { let mut p = adv().peekable(); p.peek(); p.collect() }, all());
    check("take_while", adv().take_while(|_| true).collect(), all());
    check("skip_while", adv().skip_while(|_| false).collect(), all());
    check("by_ref", { let mut i = adv(); let mut v: Vec<T> = i.by_ref().take(k).collect(); v.extend(i); v }, all());
    check("try_fold", { let mut i = adv(); i.try_fold(vec![], |v, x| Some(push(v, x))).unwrap() }, all());
    check("try_rfold", { let mut i = adv(); i.try_rfold(vec![], |v, x| Some(push(v, x))).unwrap() }, back());
    check("reduce", adv().reduce(|_, y| y).into_iter().collect(), rest.last().copied().into_iter().collect());
    check("max_by", adv().max_by(|_, _| std::cmp::Ordering::Equal).into_iter().collect(), rest.last().copied().into_iter().collect());
    check("min_by", adv().min_by(|_, _| std::cmp::Ordering::Equal).into_iter().collect(), rest.first().copied().into_iter().collect());
    if !adv().eq(rest.iter().copied()) || !adv().all(|_| true) || adv().any(|_| false) { panic!("MISMATCH {what} n={n}: eq, all or any"); }
    if adv().inspect(|_| ()).count() != rest.len() { panic!("MISMATCH {what} n={n}: count"); }
    if let Some(&t) = rest.get(k) {
        let first = rest.iter().position(|x| *x == t);
        let last = rest.iter().rposition(|x| *x == t);
        if adv().position(|x| x == t) != first || adv().rposition(|x| x == t) != last { panic!("MISMATCH {what} n={n}: position or rposition"); }
        let mut i = adv();
        let f = i.find(|x| *x == t);
        check("find", f.into_iter().chain(i).collect(), rest[first.unwrap()..].to_vec());
        let mut i = adv();
        let f = i.rfind(|x| *x == t);
        check("rfind", i.chain(f).collect(), rest[..=last.unwrap()].to_vec());
    }
}

/// the half grid a + j h/2, j = 0..=2n, of a composite rule; marks the sample points it sees
struct Grid { kind: u8, n: u64, a: f64, b: f64, h2: f64, tol: f64, seen: Vec<AtomicU64>, wrong: Mutex<Option<String>> }

impl Grid {
    fn new(rule: &str, n: u64, a: f64, b: f64) -> Self {
        let kind = match rule { "mid" => 0, "trap" => 1, "simp" => 2, _ => panic!("rule") };
        let seen = (0..(2 * n + 64) / 64).map(|_| AtomicU64::new(0)).collect();
        let h2 = (b - a) / (2.0 * n as f64);
        Grid { kind, n, a, b, h2, tol: 7.2e-15 * (a.abs() + b.abs()), seen, wrong: Mutex::new(None) }
    }
    fn value(&self, j: u64) -> f64 {
        let near = |p: u64| j.abs_diff(p) < 40;
        let p = j.max(1).next_power_of_two();
        if near(0) || near(2 * self.n) || (p >= 1 << 15 && (near(p) || near(p / 2))) { 1.0 + (j % 7) as f64 / 8.0 } else { 0.0 }
    }
    fn used(&self, j: u64) -> bool {
        match self.kind { 0 => j % 2 == 1, 1 => j % 2 == 0, _ => true }
    }
    fn weight(&self, j: u64) -> f64 {
        let h = 2.0 * self.h2;
        let end = j == 0 || j == 2 * self.n;
        match self.kind { 0 => h, 1 => if end { self.h2 } else { h }, _ => if end { h / 6.0 } else if j % 2 == 0 { h / 3.0 } else { 2.0 * h / 3.0 } }
    }
    fn fail(&self, s: String) {
        let mut w = self.wrong.lock().unwrap();
        if w.is_none() { *w = Some(s); }
    }
    fn call(&self, x: f64) -> f64 {
        let q = ((x - self.a) / self.h2).round();
        if !(q >= 0.0 && q <= 2.0 * self.n as f64) {
            self.fail(format!("the integrand is evaluated at {x:?}, outside the interval"));
            return 0.0;
        }
        let j = q as u64;
        if !((self.a + q * self.h2 - x).abs() <= self.tol) || !self.used(j) {
            self.fail(format!("the integrand is evaluated at {x:?}, which is no sample point"));
        }
        let bit = 1u64 << (j % 64);
        if self.seen[(j / 64) as usize].fetch_or(bit, Ordering::Relaxed) & bit != 0 {
            self.fail(format!("the integrand is evaluated twice at {x:?}"));
        }
        self.value(j)
    }
    fn verdict(self, v: f64) -> String {
        if let Some(s) = self.wrong.lock().unwrap().take() { return s; }
        let total: u64 = self.seen.iter().map(|c| u64::from(c.load(Ordering::Relaxed).count_ones())).sum();
        let want = match self.kind { 0 => self.n, 1 => self.n + 1, _ => 2 * self.n + 1 };
        if total != want { return format!("{total} sample points instead of {want}"); }
        let (mut e, mut m) = (0.0, 0.0);
        let mut add = |lo: u64, hi: u64| for j in lo..=hi.min(2 * self.n) {
            if self.used(j) { let t = self.weight(j) * self.value(j); e += t; m += t.abs(); }
        };
        // the points with a value: near 0, near powers of two, near 2n, without overlaps
        let mut cuts: Vec<u64> = vec![0, 2 * self.n];
        let mut p = 1u64 << 14;
        while p <= 4 * self.n { cuts.push(p); p *= 2; }
        cuts.sort();
        let mut next = 0;
        for c in cuts {
            let (lo, hi) = (c.saturating_sub(39).max(next), c + 39);
            if lo <= hi { add(lo, hi); next = hi + 1; }
        }
        if (v - e).abs() <= 1e-11 * m { "fine".into() } else { format!("returned {v:?} instead of {e:?} for an integrand that vanishes except near selected points") }
    }
}

fn same(a: &[(f64, f64)], b: &[(f64, f64)], what: &str) {
    if a.len() != b.len() || a.iter().zip(b).any(|(p, q)| p.0.to_bits() != q.0.to_bits() || p.1.to_bits() != q.1.to_bits()) {
        panic!("MISMATCH {what}");
    }
}

macro_rules! views {
    ($name:expr, $rule:expr, $seed:expr, $rounds:expr) => {{
        let r = $rule;
        let name: &str = $name;
        let data: Vec<(f64, f64)> = r.as_node_weight_pairs().to_vec();
        let n = data.len();
        if r.degree() != n { panic!("MISMATCH {name}: degree {} of {n} pairs", r.degree()); }
        let nodes: Vec<f64> = data.iter().map(|p| p.0).collect();
        let weights: Vec<f64> = data.iter().map(|p| p.1).collect();
        let bits = |v: &[f64]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
        if bits(&r.nodes().copied().collect::<Vec<_>>()) != bits(&nodes) { panic!("MISMATCH {name}: nodes()"); }
        if bits(&r.weights().copied().collect::<Vec<_>>()) != bits(&weights) { panic!("MISMATCH {name}: weights()"); }
        same(&r.iter().copied().collect::<Vec<_>>(), &data, "iter()");
        same(&(&r).into_iter().copied().collect::<Vec<_>>(), &data, "(&rule).into_iter()");
        same(&r.clone().into_iter().collect::<Vec<_>>(), &data, "into_iter()");
        same(&r.clone().into_node_weight_pairs(), &data, "into_node_weight_pairs()");
        if r.clone() != r { panic!("MISMATCH {name}: clone differs"); }
        deque(&format!("{name}.nodes"), &|| r.nodes().copied(), &nodes, $seed, $rounds);
        deque(&format!("{name}.weights"), &|| r.weights().copied(), &weights, $seed + 1, $rounds);
        deque(&format!("{name}.iter"), &|| r.iter().copied(), &data, $seed + 2, $rounds);
        deque(&format!("{name}.into_iter"), &|| r.clone().into_iter(), &data, $seed + 3, $rounds);
        // the iterator types themselves rather than adapters over them
        let np: Vec<&f64> = data.iter().map(|p| &p.0).collect();
        let wp: Vec<&f64> = data.iter().map(|p| &p.1).collect();
        let dp: Vec<&(f64, f64)> = data.iter().collect();
        deque(&format!("{name}.nodes"), &|| r.nodes(), &np, $seed + 4, $rounds);
        deque(&format!("{name}.weights"), &|| r.weights(), &wp, $seed + 5, $rounds);
        deque(&format!("{name}.iter"), &|| r.iter(), &dp, $seed + 6, $rounds);
        for k in 0..=n.min(6) {
            for b in 0..=(n - k).min(3) {
                let mut it = r.iter();
                let mut io = r.clone().into_iter();
                for _ in 0..k { it.next(); io.next(); }
                for _ in 0..b { it.next_back(); io.next_back(); }
                same(it.as_slice(), &data[k..n - b], "iter().as_slice()");
                same(it.as_ref(), &data[k..n - b], "iter().as_ref()");
                same(io.as_slice(), &data[k..n - b], "into_iter().as_slice()");
                same(io.as_ref(), &data[k..n - b], "into_iter().as_ref()");
                let it2 = it.clone();
                same(&it2.copied().collect::<Vec<_>>(), &data[k..n - b], "clone of iter()");
                let io2 = io.clone();
                same(&io2.collect::<Vec<_>>(), &data[k..n - b], "clone of into_iter()");
            }
        }
        "fine".to_string()
    }};
}

macro_rules! per_rule {
    ($name:expr, $n:expr, $al:expr, $be:expr, $r:ident => $e:expr) => {
        match $name {
            "leg" => { let $r = GaussLegendre::new(nz($n)); $e }
            "cheb1" => { let $r = GaussChebyshevFirstKind::new(nz($n)); $e }
            "cheb2" => { let $r = GaussChebyshevSecondKind::new(nz($n)); $e }
            "herm" => { let $r = GaussHermite::new(nz($n)); $e }
            "lag" => { let $r = GaussLaguerre::new(nz($n), fin($al)); $e }
            "jac" => { let $r = GaussJacobi::new(nz($n), fin($al), fin($be)); $e }
            #[cfg(feature = "all")]
            "par_leg" => { let $r = GaussLegendre::par_new(nz($n)); $e }
            #[cfg(feature = "all")]
            "par_cheb1" => { let $r = GaussChebyshevFirstKind::par_new(nz($n)); $e }
            #[cfg(feature = "all")]
            "par_cheb2" => { let $r = GaussChebyshevSecondKind::par_new(nz($n)); $e }
            "jac_leg" => { let $r = GaussJacobi::from(GaussLegendre::new(nz($n))); $e }
            "jac_cheb1" => { let $r = GaussJacobi::from(GaussChebyshevFirstKind::new(nz($n))); $e }
            "jac_cheb2" => { let $r = GaussJacobi::from(GaussChebyshevSecondKind::new(nz($n))); $e }
            _ => panic!("rule"),
        }
    };
}

macro_rules! nc {
    ($T:ty, $hist:expr, $r:ident => $e:expr) => {{
        let mut h = $hist.split(',');
        let mut $r = <$T>::new(nz32(h.next().unwrap()));
        for d in h {
            if d == "i" { let _ = $r.iter().count(); let _ = $r.integrate(0.0, 1.0, |x| x); } else { $r.change_degree(nz32(d)); }
        }
        let $r = $r;
        $e
    }};
}
macro_rules! per_nc {
    ($name:expr, $hist:expr, $r:ident => $e:expr) => {
        match $name {
            "mid" => nc!(Midpoint, $hist, $r => $e),
            "trap" => nc!(Trapezoid, $hist, $r => $e),
            "simp" => nc!(Simpson, $hist, $r => $e),
            _ => panic!("rule"),
        }
    };
}

#[cfg(feature = "all")]
#[allow(dead_code)]
mod bytes {
    use std::marker::PhantomData;
    pub struct Reader<T>(pub PhantomData<T>);
    /// chosen when T: TryFromBytes
    pub trait Checked<T> {
        fn read(&self, b: &[u8]) -> Option<T>;
    }
    impl<T: zerocopy::TryFromBytes> Checked<T> for &Reader<T> {
        fn read(&self, b: &[u8]) -> Option<T> {
            T::try_read_from_bytes(b).ok()
        }
    }
    /// chosen when T: FromBytes
    pub trait Free<T> {
        fn read(&self, b: &[u8]) -> Option<T>;
    }
    impl<T: zerocopy::FromBytes> Free<T> for &Reader<T> {
        fn read(&self, b: &[u8]) -> Option<T> {
            T::read_from_bytes(b).ok()
        }
    }
    pub trait Fallback<T> {
        fn read(&self, b: &[u8]) -> Option<T>;
    }
    impl<T> Fallback<T> for Reader<T> {
        fn read(&self, _: &[u8]) -> Option<T> {
            None
        }
    }
}

fn opt(o: Option<Fin>) -> String {
    o.map_or("none".into(), |v| hx(v.get()))
}

fn exec(w: &[&str]) -> String {
    match w[0] {
        "rule" => per_rule!(w[1], w[2], w[3], w[4], r => format!("{} {}{}", r.degree(), r.as_node_weight_pairs().len(), pairs(r.as_node_weight_pairs()))),
        "rulepick" => per_rule!(w[1], w[2], "0x0000000000000000", "0x0000000000000000", r => {
            let t = r.as_node_weight_pairs();
            let pick: Vec<(f64, f64)> = w[3].split(',').map(|i| t[i.parse::<usize>().unwrap()]).collect();
            format!("{} {}{}", r.degree(), t.len(), pairs(&pick))
        }),
        "params" => match w[1] {
            "lag" => { let r = GaussLaguerre::new(nz(w[2]), fin(w[3])); hx(r.alpha().get()) }
            "jac" => { let r = GaussJacobi::new(nz(w[2]), fin(w[3]), fin(w[4])); format!("{} {}", hx(r.alpha().get()), hx(r.beta().get())) }
            "jac_leg" => { let r = GaussJacobi::from(GaussLegendre::new(nz(w[2]))); format!("{} {}", hx(r.alpha().get()), hx(r.beta().get())) }
            "jac_cheb1" => { let r = GaussJacobi::from(GaussChebyshevFirstKind::new(nz(w[2]))); format!("{} {}", hx(r.alpha().get()), hx(r.beta().get())) }
            "jac_cheb2" => { let r = GaussJacobi::from(GaussChebyshevSecondKind::new(nz(w[2]))); format!("{} {}", hx(r.alpha().get()), hx(r.beta().get())) }
            _ => panic!("rule"),
        },
        // int RULE N ALPHA BETA MODE F A B
        "int" => match w[1] {
            "leg" => { let r = GaussLegendre::new(nz(w[2])); integ!(r, w[5], w[6], f(w[7]), f(w[8])) }
            "cheb1" => { let r = GaussChebyshevFirstKind::new(nz(w[2])); integ!(r, w[5], w[6], f(w[7]), f(w[8])) }
            "cheb2" => { let r = GaussChebyshevSecondKind::new(nz(w[2])); integ!(r, w[5], w[6], f(w[7]), f(w[8])) }
            "jac" => { let r = GaussJacobi::new(nz(w[2]), fin(w[3]), fin(w[4])); integ!(r, w[5], w[6], f(w[7]), f(w[8])) }
            "herm" => { let r = GaussHermite::new(nz(w[2])); integ!(r, w[5], w[6]) }
            "lag" => { let r = GaussLaguerre::new(nz(w[2]), fin(w[3])); integ!(r, w[5], w[6]) }
            _ => panic!("rule"),
        },
        // nc RULE HISTORY MODE F A B
        "nc" => per_nc!(w[1], w[2], r => integ!(r, w[3], w[4], f(w[5]), f(w[6]))),
        // ncgrid RULE HISTORY MODE A B : every sample point exactly once, weights at selected points
        "ncgrid" => per_nc!(w[1], w[2], r => {
            let g = Grid::new(w[1], u64::from(r.degree().get()), f(w[4]), f(w[5]));
            let v = match w[3] {
                "seq" => r.integrate(g.a, g.b, |x| g.call(x)),
                #[cfg(feature = "all")]
                "par" => r.par_integrate(g.a, g.b, |x| g.call(x)),
                _ => panic!("mode"),
            };
            g.verdict(v)
        }),
        "ncviews" => per_nc!(w[1], w[2], r => {
            let n: u32 = r.degree().get();
            if n <= 64 {
                let data: Vec<f64> = (0..n).map(f64::from).collect();
                let s: u64 = w[3].parse().unwrap();
                deque(w[1], &|| r.iter(), &data, s, 12);
                deque(w[1], &|| r.clone().into_iter(), &data, s + 1, 6);
                deque(w[1], &|| (&r).into_iter(), &data, s + 2, 6);
            } else {
                let mut it = r.iter();
                let n1 = n as usize;
                if it.len() != n1 || it.size_hint() != (n1, Some(n1)) || (n1 < 10_000_000 && r.iter().count() != n1) { panic!("MISMATCH {}: len", w[1]); }
                let m = f64::from(n);
                if it.next() != Some(0.0) || it.next_back() != Some(m - 1.0) || it.nth(3) != Some(4.0) || it.nth_back(2) != Some(m - 4.0) || it.len() != n1 - 9 || it.next_back() != Some(m - 5.0) {
                    panic!("MISMATCH {}: iterator of degree {n}", w[1]);
                }
            }
            if r.clone() != r { panic!("MISMATCH {}: clone differs", w[1]); }
            n.to_string()
        }),
        "views" => {
            let (s, k): (u64, usize) = (w[5].parse().unwrap(), w[6].parse().unwrap());
            per_rule!(w[1], w[2], w[3], w[4], r => views!(w[1], r, s, k))
        }
        "fin" => {
            let x = f(w[1]);
            let y = f(w[2]);
            let a = Fin::new(x);
            let t: Result<Fin, _> = x.try_into();
            let mut s = format!("new={} try={}", opt(a), opt(t.ok()));
            let p: Result<Fin, _> = format!("{x:?}").parse();
            write!(s, " parse={} default={}", opt(p.ok()), hx(Fin::default().get())).unwrap();
            match a {
                Some(v) => {
                    let back: f64 = v.into();
                    write!(s, " back={} add={} sub={} mul={} div={} pow={} shown={} le={}", hx(back), opt(v.checked_add(y)), opt(v.checked_sub(y)),
                        opt(v.checked_mul(y)), opt(v.checked_div(y)), opt(v.checked_pow(y)), hx(format!("{v}").parse().unwrap()),
                        hx(format!("{v:e}").parse().unwrap())).unwrap();
                    write!(s, " want_add={} want_sub={} want_mul={} want_div={}", hx(x + y), hx(x - y), hx(x * y), hx(x / y)).unwrap();
                }
                None => {}
            }
            s
        }
        "finparse" => opt(w.get(1).copied().unwrap_or("").parse::<Fin>().ok()),
        // text given as hexadecimal UTF-8, next to what f64 makes of it
        "finparsehex" => {
            let h = w.get(1).copied().unwrap_or("");
            let t: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            let t = String::from_utf8(t).unwrap();
            let want = t.parse::<f64>().ok().and_then(Fin::new);
            format!("{} {}", opt(t.parse::<Fin>().ok()), opt(want))
        }
        #[cfg(feature = "all")]
        "finde" => {
            let j: String = w[1..].join(" ");
            opt(serde_json::from_str::<Fin>(&j).ok())
        }
        #[cfg(feature = "all")]
        "serde" => per_rule!(w[1], w[2], w[3], w[4], r => {
            fn go<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(r: &T) -> String {
                let s = serde_json::to_string(r).unwrap();
                let b: T = serde_json::from_str(&s).unwrap();
                if b != *r { panic!("MISMATCH serde round trip"); }
                let v: serde_json::Value = serde_json::from_str(&s).unwrap();
                let c: T = serde_json::from_value(v.clone()).unwrap();
                if c != *r { panic!("MISMATCH serde round trip through a tree"); }
                match v { serde_json::Value::Object(m) => m.keys().cloned().collect::<Vec<_>>().join(","), _ => "-".into() }
            }
            go(&r)
        }),
        #[cfg(feature = "all")]
        "serdenc" => per_nc!(w[1], w[2], r => {
            let s = serde_json::to_string(&r).unwrap();
            fn back<T: serde::de::DeserializeOwned>(_: &T, s: &str) -> T { serde_json::from_str(s).unwrap() }
            if back(&r, &s) != r { panic!("MISMATCH serde round trip"); }
            s.split_whitespace().collect()
        }),
        #[cfg(feature = "all")]
        "serdefin" => {
            let v = fin(w[1]);
            let s = serde_json::to_string(&v).unwrap();
            let b: Fin = serde_json::from_str(&s).unwrap();
            if b != v || b.get().to_bits() != v.get().to_bits() { panic!("MISMATCH serde round trip of {}", v); }
            "fine".into()
        }
        // a parameter read from raw bytes through zerocopy, where the type offers it
        #[cfg(feature = "all")]
        "finbytes" => {
            #[allow(unused_imports)]
            use bytes::{Checked as _, Fallback as _, Reader};
            let b = u64::from_str_radix(w[1], 16).unwrap().to_ne_bytes();
            (&&Reader::<Fin>(std::marker::PhantomData)).read(&b).map_or("none".into(), |v| hx(v.get()))
        }
        #[cfg(feature = "all")]
        "finfrombytes" => {
            #[allow(unused_imports)]
            use bytes::{Free as _, Fallback as _, Reader};
            let b = u64::from_str_radix(w[1], 16).unwrap().to_ne_bytes();
            (&&Reader::<Fin>(std::marker::PhantomData)).read(&b).map_or("none".into(), |v| hx(v.get()))
        }
        "ping" => "pong".into(),
        _ => panic!("command"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() { continue; }
        let r = catch_unwind(AssertUnwindSafe(|| exec(&w)));
        let mut o = out.lock();
        match r {
            Ok(s) => writeln!(o, "OK {s}").unwrap(),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                writeln!(o, "PANIC {}", m.replace('\n', " ")).unwrap()
            }
        }
        o.flush().unwrap();
    }
}
