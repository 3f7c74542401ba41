//! Executes the contracts natively on concrete inputs: replays the verifier's
//! counterexamples and searches for failing inputs of undischarged obligations.
//!
//!   verif-runner search <harness> <seed> <iterations> <millis> <out.json> [hints]
//!   verif-runner replay <harness> <values-file>
//!   verif-runner list
extern crate sim as _;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic;
use std::time::Instant;

include!(concat!(env!("VERIF_CONTRACTS"), "/harness_list.rs"));

struct Reject;

#[derive(Default)]
struct Ctx {
    rng: u64,
    named: BTreeMap<String, usize>,
    values: Vec<(String, f64)>,
    reals: std::collections::BTreeSet<String>,
    gaps: BTreeMap<String, Vec<(f64, f64)>>,
    forced: BTreeMap<String, f64>,
    texts: Vec<(String, String)>,
    forced_text: BTreeMap<String, String>,
    consts: Vec<f64>,
    failures: Vec<(String, String)>,
    checked: usize,
    panic_spec: Option<(String, bool)>,
    /// product of the lengths so far
    size: usize,
}

thread_local! {
    static C: RefCell<Ctx> = RefCell::new(Ctx::default());
}

fn name(p: *const u8, n: usize) -> String {
    unsafe { std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap().to_string() }
}

impl Ctx {
    fn next(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    fn fresh(&mut self, s: String) -> String {
        let k = self.named.entry(s.clone()).or_insert(0);
        *k += 1;
        if *k == 1 {
            s
        } else {
            format!("{}#{}", s, *k - 1)
        }
    }
    fn draw(&mut self, lo: f64, hi: f64) -> f64 {
        let inr = |v: f64| v >= lo && v <= hi;
        let k = self.next() % 100;
        let pick = match k {
            0..=44 => None,
            45..=54 => Some([0., lo, hi, 0.5 * (lo + hi), 1., -1., 2.][(self.next() % 7) as usize]),
            55..=62 => Some((self.next() % 11) as f64 - 5.),
            63..=72 => {
                let m = lo.abs().max(hi.abs()).max(1e-300);
                let e = self.unit() * 12.;
                let s = if self.next() & 1 == 0 { 1. } else { -1. };
                Some(s * m * 10f64.powf(-e))
            }
            73..=80 if !self.values.is_empty() => {
                let i = (self.next() as usize) % self.values.len();
                Some(self.values[i].1)
            }
            81..=84 if !self.values.is_empty() => {
                let i = (self.next() as usize) % self.values.len();
                Some(-self.values[i].1)
            }
            85..=90 if !self.values.is_empty() => {
                let i = (self.next() as usize) % self.values.len();
                let d = 10f64.powf(-self.unit() * 8.) * if self.next() & 1 == 0 { 1. } else { -1. };
                Some(self.values[i].1 + d)
            }
            91..=99 if !self.consts.is_empty() => {
                let i = (self.next() as usize) % self.consts.len();
                let c = self.consts[i];
                let d = [0., 1e-9, -1e-9, 1e-3, -1e-3][(self.next() % 5) as usize];
                let s = if self.next() & 1 == 0 { 1. } else { -1. };
                Some(s * (c + d * c.abs().max(1.)))
            }
            _ => None,
        };
        match pick {
            Some(v) if inr(v) => v,
            _ => lo + (hi - lo) * self.unit(),
        }
    }
    fn input(&mut self, n: String, f: impl FnOnce(&mut Ctx) -> f64) -> f64 {
        let n = self.fresh(n);
        let v = match self.forced.get(&n) {
            Some(v) => *v,
            None => f(self),
        };
        self.values.push((n, v));
        v
    }
    fn gap(&mut self, n: String, a: f64, b: f64) {
        self.gaps.entry(n).or_default().push((a, b));
    }
    fn fail(&mut self, n: &str, d: String) {
        self.failures.push((n.to_string(), d));
    }
}

const TOL: f64 = 1e-6;
fn close(a: f64, b: f64, scale: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.is_infinite() || b.is_infinite() {
        return a == b;
    }
    (a - b).abs() <= TOL * (a.abs() + b.abs() + scale.abs())
}

#[no_mangle]
fn vf_f64(p: *const u8, n: usize, lo: f64, hi: f64) -> f64 {
    let s = name(p, n);
    C.with(|c| {
        let mut c = c.borrow_mut();
        let v = c.input(s, |c| c.draw(lo, hi));
        let n = c.values.last().unwrap().0.clone();
        c.reals.insert(n);
        v
    })
}
#[no_mangle]
fn vf_bool(p: *const u8, n: usize) -> bool {
    let s = name(p, n);
    C.with(|c| c.borrow_mut().input(s, |c| (c.next() & 1) as f64)) != 0.
}
#[no_mangle]
fn vf_choice(p: *const u8, n: usize, max: usize) -> usize {
    let s = name(p, n);
    (C.with(|c| c.borrow_mut().input(s, |c| (c.next() % (max as u64 + 1)) as f64)) as usize).min(max)
}
/// A string: mostly from the dictionary, sometimes a variation of its entries.
#[no_mangle]
fn vf_str(p: *const u8, n: usize, dict: *const &'static str, k: usize, len: *mut usize) -> *const u8 {
    let s = name(p, n);
    let dict = unsafe { std::slice::from_raw_parts(dict, k) };
    let t = C.with(|c| {
        let mut c = c.borrow_mut();
        let s = c.fresh(s);
        let t = match c.forced_text.get(&s) {
            Some(t) => t.clone(),
            None => {
                let i = c.next() as usize;
                let mut t = if k > 0 { dict[i % k].to_string() } else { String::new() };
                match c.next() % 8 {
                    0 => { t.pop(); }
                    1 => t.push((b'a' + (c.next() % 26) as u8) as char),
                    2 => t.push((b'0' + (c.next() % 10) as u8) as char),
                    3 => t = t.replace('_', ""),
                    4 => t = t.to_uppercase(),
                    _ => {}
                }
                t
            }
        };
        c.texts.push((s, t.clone()));
        t
    });
    unsafe { *len = t.len() };
    t.leak().as_ptr()
}
#[no_mangle]
fn vf_loops(_: bool) {}
#[no_mangle]
fn vf_array(_: *const u8, _: usize, _: usize, _: usize) -> *mut u8 {
    unreachable!()
}
#[no_mangle]
fn vf_len(p: *const u8, n: usize) -> usize {
    let s = name(p, n);
    C.with(|c| {
        let mut c = c.borrow_mut();
        let room = 20_000 / c.size.max(1);
        let v = c.input(s, |c| {
            let n = match c.next() % 64 {
                0 | 1 => c.next() % 300,
                2..=9 => c.next() % 30,
                10..=17 if !c.consts.is_empty() => {
                    let i = (c.next() as usize) % c.consts.len();
                    (c.consts[i].abs().min(290.).floor() as u64 + c.next() % 4).saturating_sub(1)
                }
                _ => c.next() % 7,
            };
            (if n as usize > room { n % 7 } else { n }) as f64
        }) as usize;
        c.size = c.size.max(1) * v.max(1);
        v
    })
}
#[no_mangle]
fn vf_slice(p: *const u8, n: usize, len: usize, sorted: bool) -> *const f64 {
    let s = name(p, n);
    let mut v: Vec<f64> = (0..len).map(|_| vf_f64(s.as_ptr(), s.len(), -10., 10.)).collect();
    if sorted {
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for i in 1..v.len() {
            if v[i] <= v[i - 1] {
                v[i] = v[i - 1] + 1e-3 * (1. + v[i - 1].abs());
            }
        }
    }
    Box::leak(v.into_boxed_slice()).as_ptr()
}
#[no_mangle]
fn vf_nested(_p: *const u8, _n: usize, _dims: usize, _a: usize, _b: usize, _c: usize, _r: bool) -> *mut u8 {
    unreachable!()
}
#[no_mangle]
fn vf_copy(_p: *const u8, _n: usize) -> *mut u8 {
    unreachable!()
}
#[no_mangle]
fn vf_requires(c: bool) {
    if !c {
        panic::panic_any(Reject)
    }
}
#[no_mangle]
fn vf_ensures(p: *const u8, n: usize, ok: bool) {
    C.with(|c| {
        let mut c = c.borrow_mut();
        c.checked += 1;
        if !ok {
            c.fail(&name(p, n), "false".into())
        }
    })
}
#[no_mangle]
fn vf_eq(p: *const u8, n: usize, a: f64, b: f64, scale: f64) {
    C.with(|c| {
        let mut c = c.borrow_mut();
        c.gap(name(p, n), a, b);
        c.checked += 1;
        if !close(a, b, scale) {
            c.fail(&name(p, n), format!("{:e} != {:e}", a, b))
        }
    })
}
#[no_mangle]
fn vf_same(p: *const u8, n: usize, a: f64, b: f64) {
    C.with(|c| {
        let mut c = c.borrow_mut();
        c.checked += 1;
        if !(a == b || (a.is_nan() && b.is_nan())) {
            c.fail(&name(p, n), format!("{:e} != {:e}", a, b))
        }
    })
}
#[no_mangle]
fn vf_le(p: *const u8, n: usize, a: f64, b: f64, scale: f64) {
    C.with(|c| {
        let mut c = c.borrow_mut();
        c.gap(name(p, n), a, b);
        c.checked += 1;
        if !(a <= b || close(a, b, scale)) {
            c.fail(&name(p, n), format!("{:e} > {:e}", a, b))
        }
    })
}
#[no_mangle]
fn vf_panics_iff(p: *const u8, n: usize, cond: bool) {
    C.with(|c| c.borrow_mut().panic_spec = Some((name(p, n), cond)))
}
#[no_mangle]
fn vf_panics_done() {
    C.with(|c| {
        let mut c = c.borrow_mut();
        if let Some((n, cond)) = c.panic_spec.take() {
            c.checked += 1;
            if cond {
                c.fail(&n, "completes although it must fail".into())
            }
        }
    })
}
#[no_mangle]
fn vf_uf(p: *const u8, n: usize, args: *const f64, k: usize) -> f64 {
    let s = name(p, n);
    let mut h: u64 = 1469598103934665603;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(1099511628211);
    }
    let a = unsafe { std::slice::from_raw_parts(args, k) };
    let mut r = (h % 1000) as f64 / 500. - 1.;
    for x in a {
        h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let w = (h >> 40) as f64 / (1u64 << 24) as f64 + 0.3;
        r += if x.is_finite() { w * (x * w + w).sin() } else { w };
    }
    r
}
#[no_mangle]
fn vf_stub(_p: *const u8, _n: usize, _f: *const u8) {}
#[no_mangle]
fn vf_symbolic() -> bool {
    false
}

enum Out {
    Rejected,
    Done,
}

fn run_once(f: unsafe fn(), seed: u64, forced: Hint, consts: &[f64]) -> Out {
    C.with(|c| {
        let mut c = c.borrow_mut();
        *c = Ctx { rng: seed, forced: forced.0, forced_text: forced.1, consts: consts.to_vec(), ..Default::default() };
    });
    let r = panic::catch_unwind(|| unsafe { f() });
    match r {
        Ok(()) => {
            vf_panics_done();
            Out::Done
        }
        Err(e) => {
            if e.is::<Reject>() {
                return Out::Rejected;
            }
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            C.with(|c| {
                let mut c = c.borrow_mut();
                c.checked += 1;
                match c.panic_spec.take() {
                    Some((_, true)) => {}
                    Some((n, false)) => c.fail(&n, format!("unexpected failure: {}", msg)),
                    None => c.fail("no-panic", msg),
                }
            });
            Out::Done
        }
    }
}

/// Is the difference of the two sides of obligation `n` no larger than what
/// rounding the inputs makes of it?  (relative changes of 1e-12 and 1e-10: the
/// effect of rounding grows with them, that of a wrong or missing case does not)
fn noise(f: unsafe fn(), seed: u64, consts: &[f64], n: &str, hint: &Hint) -> bool {
    let (pairs, reals) = C.with(|c| {
        let c = c.borrow();
        (c.gaps.get(n).cloned().unwrap_or_default(), c.reals.clone())
    });
    if pairs.is_empty() || pairs.iter().any(|(a, b)| !(a - b).is_finite()) {
        return false;
    }
    // the pair that is furthest apart, relative to its size
    let rel = |p: &(f64, f64)| (p.0 - p.1).abs() / (p.0.abs() + p.1.abs() + 1e-300);
    let at = (0..pairs.len()).fold(0, |i, j| if rel(&pairs[j]) > rel(&pairs[i]) { j } else { i });
    let (a, b) = pairs[at];
    let mut spread = [0f64; 2];
    for (k, eps) in [1e-12, 1e-10].into_iter().enumerate() {
        let mut seen = 0;
        let mut rng = seed;
        for _ in 0..12 {
            let mut h = hint.clone();
            for (name, v) in h.0.iter_mut() {
                rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                if reals.contains(name) {
                    *v += *v * eps * ((rng >> 40) as f64 / (1u64 << 23) as f64 - 1.);
                }
            }
            if let Out::Done = run_once(f, seed, h, consts) {
                if let Some(q) = C.with(|c| c.borrow().gaps.get(n).and_then(|v| v.get(at).copied())) {
                    seen += 1;
                    spread[k] = spread[k].max((q.0 - a).abs()).max((q.1 - b).abs());
                }
            }
        }
        if seen == 0 {
            return false;
        }
    }
    (a - b).abs() <= spread[0] && spread[1] >= 10. * spread[0]
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

type Hint = (BTreeMap<String, f64>, BTreeMap<String, String>);

/// hint file: `name value` lines, assignments separated by `--`; `const value`
fn hints(path: &str) -> (Vec<Hint>, Vec<f64>) {
    let (mut v, mut cs) = (vec![], vec![]);
    let mut cur = Hint::default();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if l == "--" {
            v.push(std::mem::take(&mut cur));
        } else if let Some((n, x)) = l.rsplit_once(' ') {
            if let Some(t) = x.strip_prefix("text:") {
                cur.1.insert(n.to_string(), t.to_string());
            } else if let Ok(x) = x.parse::<f64>() {
                if n == "const" {
                    cs.push(x)
                } else {
                    cur.0.insert(n.to_string(), x);
                }
            }
        }
    }
    if !cur.0.is_empty() || !cur.1.is_empty() {
        v.push(cur)
    }
    (v, cs)
}

fn find(h: &str) -> unsafe fn() {
    HARNESSES.iter().find(|x| x.0 == h).unwrap_or_else(|| { eprintln!("unknown harness {h}"); std::process::exit(2) }).1
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for h in HARNESSES {
                println!("{}", h.0)
            }
        }
        Some("search") => {
            let f = find(&a[2]);
            let seed: u64 = a[3].parse().unwrap();
            let iters: u64 = a[4].parse().unwrap();
            let ms: u128 = a[5].parse().unwrap();
            let (hs, cs) = a.get(7).map(|p| hints(p)).unwrap_or_default();
            let t0 = Instant::now();
            let (mut done, mut rej, mut checks) = (0u64, 0u64, 0usize);
            let mut fails: BTreeMap<String, String> = BTreeMap::new();
            let mut i = 0;
            while i < iters {
                if t0.elapsed().as_millis() > ms {
                    break;
                }
                let forced = if !hs.is_empty() && i < 40 * hs.len() as u64 { hs[(i % hs.len() as u64) as usize].clone() } else { Hint::default() };
                let s = seed.wrapping_mul(0x100000001B3).wrapping_add(i.wrapping_mul(0x5851F42D4C957F2D));
                match run_once(f, s, forced, &cs) {
                    Out::Rejected => rej += 1,
                    Out::Done => done += 1,
                }
                let (failures, values, texts) = C.with(|c| {
                    let c = c.borrow();
                    checks += c.checked;
                    if c.failures.is_empty() {
                        (vec![], vec![], vec![])
                    } else {
                        (c.failures.clone(), c.values.clone(), c.texts.clone())
                    }
                });
                for (n, d) in &failures {
                    if !fails.contains_key(n) {
                        let hint: Hint = (values.iter().cloned().collect(), texts.iter().cloned().collect());
                        run_once(f, s, hint.clone(), &cs);
                        if noise(f, s, &cs, n, &hint) {
                            continue;
                        }
                        let mut vals: Vec<String> = values.iter().map(|(n, v)| format!("[\"{}\", \"{:?}\"]", esc(n), v)).collect();
                        vals.extend(texts.iter().map(|(n, v)| format!("[\"{}\", \"text:{}\"]", esc(n), esc(v))));
                        fails.insert(n.clone(), format!("{{\"obligation\": \"{}\", \"detail\": \"{}\", \"iteration\": {}, \"inputs\": [{}]}}", esc(n), esc(d), i, vals.join(", ")));
                    }
                }
                i += 1;
            }
            let v: Vec<String> = fails.values().cloned().collect();
            std::fs::write(&a[6], format!("{{\"harness\": \"{}\", \"runs\": {}, \"rejected\": {}, \"checks\": {}, \"failures\": [{}]}}\n", a[2], done, rej, checks, v.join(",\n"))).unwrap();
        }
        Some("replay") => {
            let f = find(&a[2]);
            let (hs, _) = hints(&a[3]);
            run_once(f, 1, hs.into_iter().next().unwrap_or_default(), &[]);
            let bad = C.with(|c| {
                let c = c.borrow();
                for (n, d) in &c.failures {
                    eprintln!("FAILED {}: {}", n, d)
                }
                !c.failures.is_empty()
            });
            std::process::exit(if bad { 1 } else { 0 });
        }
        _ => std::process::exit(2),
    }
}
