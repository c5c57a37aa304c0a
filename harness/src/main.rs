//! Executes a script of API calls against the real rasp crate and records, for
//! every call, its arguments and what the caller could observe.
//!
//! usage: rasp-recorder SCRIPT TRACE
//!
//! SCRIPT: one call per line, hexadecimal words `op flags obj a0 a1 a2 ...`.
//! TRACE:  eight little-endian u64 words per event
//!   w0 = op | flags << 16 | panicked << 48      w1 = object id
//!   w2..w6 = arguments as actually passed       w7 = observation
//! Samples are IEEE-754 binary64 bit patterns; f32 values are widened (exact).
//! This program contains no expectation about rasp: all judgement is made by
//! spec/trace.qnt.

use rasp::analysis::{LeakyIntegrator, PeakEnvDetector, RmsEnvDetector};
use rasp::delay::{Delay, LinearDelay};
use rasp::filter::rbj::*;
use rasp::filter::{Biquad1, Biquad2, OnePole, OneZero, TwoPole, TwoZero};
use rasp::traits::{FloatConst, Processor, TappableDelayLine};
use rasp::util;
use rasp::window::{
    apply_window, BartlettIter, BlackmanHarrisIter, BlackmanIter, HammingIter, HannIter,
    TriangularIter, Window,
};
use std::collections::{HashMap, HashSet};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Barrier};

trait Sample: num::traits::Float + FloatConst + 'static {
    fn from_bits64(b: u64) -> Self;
    fn to_bits64(self) -> u64;
}
impl Sample for f64 {
    fn from_bits64(b: u64) -> f64 {
        f64::from_bits(b)
    }
    fn to_bits64(self) -> u64 {
        self.to_bits()
    }
}
impl Sample for f32 {
    fn from_bits64(b: u64) -> f32 {
        f64::from_bits(b) as f32
    }
    fn to_bits64(self) -> u64 {
        (self as f64).to_bits()
    }
}

#[derive(Clone, Copy)]
struct Ev {
    w: [u64; 8],
}

/// What a call reported: extra words for w4, w5, w6 (kept if None) and w7.
#[derive(Clone, Copy, Default)]
struct Obs {
    w4: Option<u64>,
    w5: Option<u64>,
    w6: Option<u64>,
    w7: u64,
}
fn ob(v: u64) -> Obs {
    Obs { w7: v, ..Default::default() }
}

const NONE: Obs = Obs { w4: None, w5: None, w6: None, w7: 0 };

/// One live object under test, seen through the calls scripts can make.
trait Dut {
    /// (words that are samples, to be rounded to the sample type first)
    fn call(&mut self, op: u64, a: &[u64]) -> Option<Obs>;
    fn block(&mut self, xs: &[u64]) -> (Vec<u64>, u64);
    fn round(&self, b: u64) -> u64;
}

fn proc_call<T: Sample, P: Processor<T> + ?Sized>(p: &mut P, op: u64, a: &[u64]) -> Option<Obs> {
    Some(match op {
        2 => ob(p.process(T::from_bits64(a[0])).to_bits64()),
        3 => ob(p.last_out().to_bits64()),
        4 => {
            p.clear();
            NONE
        }
        7 => {
            // a[0] times the sample a[1]; a[2]: as one block instead of one by one
            let x = T::from_bits64(a[1]);
            if a[2] == 1 {
                let mut v = vec![x; a[0] as usize];
                return Some(ob(p.process_block(&mut v).to_bits64()));
            }
            let mut y = p.last_out();
            for _ in 0..a[0] {
                y = p.process(x);
            }
            ob(y.to_bits64())
        }
        _ => return None,
    })
}

fn proc_block<T: Sample, P: Processor<T> + ?Sized>(p: &mut P, xs: &[u64]) -> (Vec<u64>, u64) {
    let mut v: Vec<T> = xs.iter().map(|b| T::from_bits64(*b)).collect();
    let r = p.process_block(&mut v);
    (v.iter().map(|y| y.to_bits64()).collect(), r.to_bits64())
}

macro_rules! processor_dut {
    ($t:ident, $name:ident, |$s:ident, $op:ident, $a:ident| $body:expr) => {
        impl<$t: Sample> Dut for $name<$t> {
            fn call(&mut self, $op: u64, $a: &[u64]) -> Option<Obs> {
                if let Some(o) = proc_call::<$t, Self>(self, $op, $a) {
                    return Some(o);
                }
                let $s = self;
                $body
            }
            fn block(&mut self, xs: &[u64]) -> (Vec<u64>, u64) {
                proc_block::<$t, Self>(self, xs)
            }
            fn round(&self, b: u64) -> u64 {
                $t::from_bits64(b).to_bits64()
            }
        }
    };
}

fn f<T: Sample>(b: u64) -> T {
    T::from_bits64(b)
}

fn tap_call<T: Sample, P: TappableDelayLine<T>>(p: &mut P, op: u64, a: &[u64]) -> Option<Obs> {
    Some(match op {
        16 => ob(p.tap_out(a[0] as usize).to_bits64()),
        17 => {
            p.tap_in(f(a[1]), a[0] as usize);
            NONE
        }
        18 => ob(p.add_to(f(a[1]), a[0] as usize).to_bits64()),
        _ => return None,
    })
}

processor_dut!(T, Delay, |s, op, a| {
    if let Some(o) = tap_call::<T, _>(s, op, a) {
        return Some(o);
    }
    Some(match op {
        11 => {
            s.set_delay(a[0] as usize);
            NONE
        }
        12 => ob(s.get_delay() as u64),
        13 => {
            s.set_max_delay(a[0] as usize);
            NONE
        }
        14 => ob(s.get_max_delay() as u64),
        15 => ob(s.next_out().to_bits64()),
        _ => return None,
    })
});

processor_dut!(T, LinearDelay, |s, op, a| {
    if let Some(o) = tap_call::<T, _>(s, op, a) {
        return Some(o);
    }
    Some(match op {
        11 => {
            s.set_delay(f64::from_bits(a[0]) as f32);
            NONE
        }
        12 => ob((s.get_delay() as f64).to_bits()),
        13 => {
            s.set_max_delay(a[0] as usize);
            NONE
        }
        14 => ob(s.get_max_delay() as u64),
        15 => ob(s.next_out().to_bits64()),
        _ => return None,
    })
});

processor_dut!(T, OnePole, |s, op, a| Some(match (op, a[0]) {
    (8, _) => {
        s.set_coefficients(f(a[0]), f(a[3]));
        NONE
    }
    (9, 0) => {
        s.b0 = f(a[1]);
        NONE
    }
    (9, 3) => {
        s.a1 = f(a[1]);
        NONE
    }
    (19, 0) => ob(s.b0.to_bits64()),
    (19, 3) => ob(s.a1.to_bits64()),
    _ => return None,
}));
processor_dut!(T, OneZero, |s, op, a| Some(match (op, a[0]) {
    (8, _) => {
        s.set_coefficients(f(a[0]), f(a[1]));
        NONE
    }
    (9, 0) => {
        s.b0 = f(a[1]);
        NONE
    }
    (9, 1) => {
        s.b1 = f(a[1]);
        NONE
    }
    (19, 0) => ob(s.b0.to_bits64()),
    (19, 1) => ob(s.b1.to_bits64()),
    _ => return None,
}));
processor_dut!(T, TwoPole, |s, op, a| Some(match (op, a[0]) {
    (8, _) => {
        s.set_coefficients(f(a[0]), f(a[3]), f(a[4]));
        NONE
    }
    (9, 0) => {
        s.b0 = f(a[1]);
        NONE
    }
    (9, 3) => {
        s.a1 = f(a[1]);
        NONE
    }
    (9, 4) => {
        s.a2 = f(a[1]);
        NONE
    }
    (19, 0) => ob(s.b0.to_bits64()),
    (19, 3) => ob(s.a1.to_bits64()),
    (19, 4) => ob(s.a2.to_bits64()),
    _ => return None,
}));
processor_dut!(T, TwoZero, |s, op, a| Some(match (op, a[0]) {
    (8, _) => {
        s.set_coefficients(f(a[0]), f(a[1]), f(a[2]));
        NONE
    }
    (9, 0) => {
        s.b0 = f(a[1]);
        NONE
    }
    (9, 1) => {
        s.b1 = f(a[1]);
        NONE
    }
    (9, 2) => {
        s.b2 = f(a[1]);
        NONE
    }
    (19, 0) => ob(s.b0.to_bits64()),
    (19, 1) => ob(s.b1.to_bits64()),
    (19, 2) => ob(s.b2.to_bits64()),
    _ => return None,
}));
macro_rules! biquad_dut {
    ($name:ident) => {
        processor_dut!(T, $name, |s, op, a| Some(match (op, a[0]) {
            (8, _) => {
                s.set_coefficients(f(a[0]), f(a[1]), f(a[2]), f(a[3]), f(a[4]));
                NONE
            }
            (9, k) => {
                let v = f(a[1]);
                match k {
                    0 => s.b0 = v,
                    1 => s.b1 = v,
                    2 => s.b2 = v,
                    3 => s.a1 = v,
                    _ => s.a2 = v,
                }
                NONE
            }
            (19, k) => ob(match k {
                0 => s.b0,
                1 => s.b1,
                2 => s.b2,
                3 => s.a1,
                _ => s.a2,
            }
            .to_bits64()),
            _ => return None,
        }));
    };
}
biquad_dut!(Biquad1);
biquad_dut!(Biquad2);

macro_rules! rbj3_dut {
    ($name:ident) => {
        processor_dut!(T, $name, |s, op, a| Some(match op {
            10 => {
                s.set_coefficients(f(a[0]), f(a[1]), f(a[3]));
                NONE
            }
            _ => return None,
        }));
    };
}
macro_rules! rbj4_dut {
    ($name:ident) => {
        processor_dut!(T, $name, |s, op, a| Some(match op {
            10 => {
                s.set_coefficients(f(a[0]), f(a[1]), f(a[2]), f(a[3]));
                NONE
            }
            _ => return None,
        }));
    };
}
rbj3_dut!(LowPass);
rbj3_dut!(HighPass);
rbj3_dut!(BandPass1);
rbj3_dut!(BandPass2);
rbj3_dut!(BandStop);
rbj3_dut!(AllPass);
rbj4_dut!(LowShelf);
rbj4_dut!(HighShelf);
rbj4_dut!(Peak);

processor_dut!(T, LeakyIntegrator, |s, op, a| Some(match op {
    20 => {
        s.set_alpha(f(a[0]));
        NONE
    }
    21 => ob(s.get_alpha().to_bits64()),
    _ => return None,
}));
macro_rules! env_dut {
    ($name:ident) => {
        processor_dut!(T, $name, |s, op, a| Some(match op {
            22 => {
                s.set_attack(f(a[0]));
                NONE
            }
            23 => {
                s.set_release(f(a[0]));
                NONE
            }
            24 => ob(s.get_attack_gain().to_bits64()),
            25 => ob(s.get_release_gain().to_bits64()),
            _ => return None,
        }));
    };
}
env_dut!(PeakEnvDetector);
env_dut!(RmsEnvDetector);

/// Window iterators; None once consumed by value.
struct WinDut<T, I> {
    it: Option<I>,
    p: std::marker::PhantomData<T>,
}
fn some_obs<T: Sample>(v: Option<T>) -> Obs {
    match v {
        Some(v) => Obs { w6: Some(1), w7: v.to_bits64(), ..Default::default() },
        None => Obs { w6: Some(0), ..Default::default() },
    }
}
impl<T: Sample, I: ExactSizeIterator<Item = T>> Dut for WinDut<T, I> {
    fn call(&mut self, op: u64, a: &[u64]) -> Option<Obs> {
        if op == 38 {
            return Some(ob(self.it.take()?.count() as u64));
        }
        if op == 39 {
            return Some(some_obs(self.it.take()?.last()));
        }
        let it = self.it.as_mut()?;
        Some(match op {
            30 => some_obs(it.next()),
            31 => ob(it.len() as u64),
            32 => {
                let (lo, hi) = it.size_hint();
                Obs {
                    w4: None,
                    w5: Some(hi.is_some() as u64),
                    w6: Some(hi.unwrap_or(0) as u64),
                    w7: lo as u64,
                }
            }
            33 => some_obs(it.nth(a[0] as usize)),
            // skip a[0] values through a borrowed adaptor, report how many came
            34 => ob(it.by_ref().take(a[0] as usize).count() as u64),
            // drain the rest, report how many values came
            36 => ob(it.by_ref().count() as u64),
            // remaining length as seen through a standard adaptor
            37 => ob(it.by_ref().zip(0..usize::MAX).len() as u64),
            _ => return None,
        })
    }
    /// all that is left, collected
    fn block(&mut self, how: &[u64]) -> (Vec<u64>, u64) {
        let v: Vec<T> = match (self.it.take(), how.first()) {
            (None, _) => vec![],
            // internal iteration
            (Some(it), Some(1)) => it.fold(vec![], |mut v, x| {
                v.push(x);
                v
            }),
            // through adaptors, in two goes
            (Some(it), Some(2)) => {
                let mut it = it.fuse().peekable();
                let mut v = vec![];
                while let Some(x) = it.next() {
                    v.push(x);
                    if it.peek().is_none() {
                        assert!(it.next().is_none());
                        break;
                    }
                }
                v
            }
            (Some(it), _) => it.collect(),
        };
        (v.iter().map(|y| y.to_bits64()).collect(), 0)
    }
    fn round(&self, b: u64) -> u64 {
        T::from_bits64(b).to_bits64()
    }
}
fn win<T: Sample, I: ExactSizeIterator<Item = T> + 'static>(it: I) -> Box<dyn Dut> {
    Box::new(WinDut { it: Some(it), p: std::marker::PhantomData::<T> })
}

fn make<T: Sample>(kind: u64, a0: u64, a1: u64) -> Option<Box<dyn Dut>> {
    let n = a0 as usize;
    Some(match kind {
        1 => Box::new(Delay::<T>::new(n, a1 as usize)),
        2 => Box::new(LinearDelay::<T>::new(f64::from_bits(a0) as f32, a1 as usize)),
        10 => Box::new(OnePole::<T>::new()),
        11 => Box::new(OneZero::<T>::new()),
        12 => Box::new(TwoPole::<T>::new()),
        13 => Box::new(TwoZero::<T>::new()),
        14 => Box::new(Biquad1::<T>::new()),
        15 => Box::new(Biquad2::<T>::new()),
        20 => Box::new(LowPass::<T>::new()),
        21 => Box::new(HighPass::<T>::new()),
        22 => Box::new(BandPass1::<T>::new()),
        23 => Box::new(BandPass2::<T>::new()),
        24 => Box::new(BandStop::<T>::new()),
        25 => Box::new(LowShelf::<T>::new()),
        26 => Box::new(HighShelf::<T>::new()),
        27 => Box::new(AllPass::<T>::new()),
        28 => Box::new(Peak::<T>::new()),
        30 => Box::new(LeakyIntegrator::<T>::new()),
        31 => Box::new(PeakEnvDetector::<T>::new()),
        32 => Box::new(RmsEnvDetector::<T>::new()),
        40 => win::<T, _>(TriangularIter::<T>::new(n)),
        41 => win::<T, _>(BartlettIter::<T>::new(n)),
        42 => win::<T, _>(HannIter::<T>::new(n)),
        43 => win::<T, _>(HammingIter::<T>::new(n)),
        44 => win::<T, _>(BlackmanIter::<T>::new(n)),
        45 => win::<T, _>(BlackmanHarrisIter::<T>::new(n)),
        _ => return None,
    })
}

fn window_of(kind: u64) -> Window {
    match kind {
        40 => Window::Triangular,
        41 => Window::Bartlett,
        42 => Window::Hann,
        43 => Window::Hamming,
        44 => Window::Blackman,
        45 => Window::BlackmanHarris,
        _ => Window::Rectangular,
    }
}

fn apply<T: Sample>(kind: u64, xs: &[u64]) -> Vec<u64> {
    let mut v: Vec<T> = xs.iter().map(|b| T::from_bits64(*b)).collect();
    apply_window(&mut v, window_of(kind));
    v.iter().map(|y| y.to_bits64()).collect()
}

fn stateless<T: Sample>(op: u64, a: &[u64]) -> Option<Obs> {
    Some(match op {
        40 => ob(util::to_db(f::<T>(a[0])).to_bits64()),
        41 => ob(util::to_sample(f::<T>(a[0])).to_bits64()),
        42 => ob(util::apply_gain(f::<T>(a[0]), f::<T>(a[1])).to_bits64()),
        43 => ob(match a[0] {
            0 => T::pi(),
            _ => T::two(),
        }
        .to_bits64()),
        // there and back again
        44 => ob(util::to_db(util::to_sample(f::<T>(a[0]))).to_bits64()),
        45 => ob(util::to_sample(util::to_db(f::<T>(a[0]))).to_bits64()),
        _ => return None,
    })
}

/// One object of a script: what it is, how it was made and, if asked for, what was done to it.
struct Live {
    dut: Box<dyn Dut>,
    ty: u64,
    made: [u64; 3],
    log: Option<Vec<(u64, Vec<u64>)>>,
}
impl Live {
    fn note(&mut self, op: u64, a: &[u64]) {
        if let Some(l) = self.log.as_mut() {
            l.push((op, a.to_vec()));
        }
    }
    /// What a twin with the same past would answer to the sample x.
    fn answer(&self, x: f64) -> f64 {
        let [kind, a0, a1] = self.made;
        let mut d = if self.ty == 32 { make::<f32>(kind, a0, a1) } else { make::<f64>(kind, a0, a1) }.unwrap();
        for (op, a) in self.log.as_ref().unwrap() {
            if *op == 5 {
                d.block(a);
            } else {
                d.call(*op, a);
            }
        }
        f64::from_bits(d.call(2, &[x.to_bits()]).unwrap().w7)
    }
    fn step(&self, x: f64, i: i64) -> f64 {
        if self.ty == 32 {
            f32::from_bits(((x as f32).to_bits() as i64 + i) as u32) as f64
        } else {
            f64::from_bits((x.to_bits() as i64 + i) as u64)
        }
    }
    /// A sample that makes the next output 0, if there is one.
    fn silencer(&self) -> f64 {
        let y0 = self.answer(0.0);
        let x = -y0 / (self.answer(1.0) - y0);
        let x = if self.ty == 32 { (x as f32) as f64 } else { x };
        if y0 == 0.0 || !x.is_finite() || x == 0.0 {
            return 0.0;
        }
        (0..200)
            .map(|i| self.step(x, if i % 2 == 0 { i / 2 } else { -(i + 1) / 2 }))
            .find(|x| self.answer(*x) == 0.0)
            .unwrap_or(x)
    }
}

/// Everything a script has made so far. Handed from thread to thread, see main.
struct World {
    out: Vec<u8>,
    objs: HashMap<u64, Live>,
    logged: Arc<HashSet<u64>>,
}
/// The processors are plain values; a script moves all of them at once and waits for the answer.
struct Moved(Box<World>);
unsafe impl Send for Moved {}

fn die(line: &str, why: &str) -> ! {
    eprintln!("bad script line ({}): {}", why, line);
    std::process::exit(64)
}

impl World {
    fn new(logged: Arc<HashSet<u64>>) -> Box<World> {
        Box::new(World { out: vec![], objs: HashMap::new(), logged })
    }
    fn put(&mut self, e: Ev) {
        for w in e.w.iter() {
            self.out.extend_from_slice(&w.to_le_bytes());
        }
    }
    /// One line of a script.
    fn exec(&mut self, line: &str) {
        let w: Vec<u64> = line
            .split_ascii_whitespace()
            .map(|t| u64::from_str_radix(t, 16).unwrap_or_else(|_| die(&line, "hex")))
            .collect();
        if w.is_empty() {
            return;
        }
        let (op, flags, obj) = (w[0], w[1], w[2]);
        let mut a: Vec<u64> = w[3..].to_vec();
        let head = op | flags << 16;
        let pan = 1u64 << 48;
        match op {
            1 => {
                // NEW obj kind ty a0 a1
                let (kind, ty, a0, a1) = (a[0], a[1], a[2], a[3]);
                let a0 = if kind == 2 { ((f64::from_bits(a0) as f32) as f64).to_bits() } else { a0 };
                let r = catch_unwind(|| {
                    if ty == 32 { make::<f32>(kind, a0, a1) } else { make::<f64>(kind, a0, a1) }
                });
                let mut e = Ev { w: [head, obj, kind, ty, a0, a1, 0, 0] };
                match r {
                    Ok(Some(d)) => {
                        let log = if self.logged.contains(&obj) { Some(vec![]) } else { None };
                        self.objs.insert(obj, Live { dut: d, ty, made: [kind, a0, a1], log });
                    }
                    Ok(None) => die(&line, "kind"),
                    Err(_) => e.w[0] |= pan,
                }
                self.put(e);
            }
            5 => {
                // process_block: 5 flags obj x1 .. xn
                let live = match self.objs.get_mut(&obj) {
                    Some(d) => d,
                    None => return, // its construction panicked and was recorded
                };
                for x in a.iter_mut() {
                    *x = live.dut.round(*x);
                }
                live.note(5, &a);
                let d = &mut live.dut;
                let r = catch_unwind(AssertUnwindSafe(|| d.block(&a)));
                match r {
                    Ok((ys, ret)) => {
                        for (i, (x, y)) in a.iter().zip(ys.iter()).enumerate() {
                            self.put(Ev { w: [head, obj, i as u64, *x, 0, 0, 0, *y] });
                        }
                        let l = ys.last().copied().unwrap_or(0);
                        self.put(Ev {
                            w: [6 | flags << 16, obj, a.len() as u64, l, 0, 0, 0, ret],
                        });
                    }
                    Err(_) => self.put(Ev {
                        w: [6 | flags << 16 | pan, obj, a.len() as u64, 0, 0, 0, 0, 0],
                    }),
                }
            }
            35 => {
                // apply_window: 35 flags kind ty x1 .. xn
                let (kind, ty) = (obj, a[0]);
                let xs: Vec<u64> = a[1..]
                    .iter()
                    .map(|b| if ty == 32 { f::<f32>(*b).to_bits64() } else { *b })
                    .collect();
                let n = xs.len() as u64;
                let r = catch_unwind(|| {
                    if ty == 32 { apply::<f32>(kind, &xs) } else { apply::<f64>(kind, &xs) }
                });
                match r {
                    Ok(ys) => {
                        for (i, (x, y)) in xs.iter().zip(ys.iter()).enumerate() {
                            self.put(Ev { w: [head, 0, kind, ty, n, i as u64, *x, *y] });
                        }
                    }
                    Err(_) => self.put(Ev { w: [head | pan, 0, kind, ty, n, 0, 0, 0] }),
                }
            }
            47 => {
                // apply_window to a long slice, seen at some places: 47 flags kind ty n x i1 i2 ..
                let (kind, ty, n, x) = (obj, a[0], a[1], f64::from_bits(a[2]));
                let xs: Vec<u64> = (0..n)
                    .map(|i| ((i.wrapping_mul(2654435761) >> 7) % 1023 + 1) as f64 / 512.0 - 1.0)
                    .map(|u| u * x)
                    .map(|v| if ty == 32 { (v as f32) as f64 } else { v }.to_bits())
                    .collect();
                let r = catch_unwind(|| {
                    if ty == 32 { apply::<f32>(kind, &xs) } else { apply::<f64>(kind, &xs) }
                });
                let head = 35 | flags << 16;
                match r {
                    Ok(ys) => {
                        for i in a[3..].iter().filter(|i| **i < n) {
                            let k = *i as usize;
                            self.put(Ev { w: [head, 0, kind, ty, n, *i, xs[k], ys[k]] });
                        }
                    }
                    Err(_) => self.put(Ev { w: [head | pan, 0, kind, ty, n, 0, 0, 0] }),
                }
            }
            40..=45 => {
                // stateless: op flags ty a0 a1
                let ty = obj;
                if op != 43 && ty == 32 {
                    for x in a.iter_mut() {
                        *x = f::<f32>(*x).to_bits64();
                    }
                }
                let r = catch_unwind(|| {
                    if ty == 32 { stateless::<f32>(op, &a) } else { stateless::<f64>(op, &a) }
                });
                a.resize(4, 0);
                let dbg = cfg!(debug_assertions) as u64;
                let mut e = Ev { w: [head, 0, ty, a[0], a[1], dbg, 0, 0] };
                match r {
                    Ok(Some(o)) => e.w[7] = o.w7,
                    Ok(None) => die(&line, "op"),
                    Err(_) => e.w[0] |= pan,
                }
                self.put(e);
            }
            46 => {
                // collect the rest of a window: as many events as there were values, then the end
                let d = match self.objs.get_mut(&obj) {
                    Some(d) => d,
                    None => return,
                };
                let r = catch_unwind(AssertUnwindSafe(|| d.dut.block(&a)));
                match r {
                    Ok((ys, _)) => {
                        for y in ys {
                            self.put(Ev { w: [30 | flags << 16, obj, 0, 0, 0, 0, 1, y] });
                        }
                        self.put(Ev { w: [30 | flags << 16, obj, 0, 0, 0, 0, 0, 0] });
                    }
                    Err(_) => self.put(Ev { w: [30 | flags << 16 | pan, obj, 0, 0, 0, 0, 0, 0] }),
                }
            }
            58 => {
                // the object goes out of scope
                let r = match self.objs.remove(&obj) {
                    Some(d) => catch_unwind(AssertUnwindSafe(|| drop(d))),
                    None => return,
                };
                self.put(Ev { w: [head | if r.is_err() { pan } else { 0 }, obj, 0, 0, 0, 0, 0, 0] });
            }
            50 => {
                // relate the last outputs of two objects
                let o2 = a[0];
                let y1 = self.objs.get_mut(&obj).and_then(|d| d.dut.call(3, &[]));
                let y2 = self.objs.get_mut(&o2).and_then(|d| d.dut.call(3, &[]));
                if let (Some(y1), Some(y2)) = (y1, y2) {
                    self.put(Ev { w: [head, obj, o2, a.get(1).copied().unwrap_or(0), 0, 0, y1.w7, y2.w7] });
                }
            }
            54 => {
                // superposition: relate the last outputs of three objects
                let y1 = self.objs.get_mut(&obj).and_then(|d| d.dut.call(3, &[]));
                let y2 = self.objs.get_mut(&a[0]).and_then(|d| d.dut.call(3, &[]));
                let y3 = self.objs.get_mut(&a[1]).and_then(|d| d.dut.call(3, &[]));
                if let (Some(y1), Some(y2), Some(y3)) = (y1, y2, y3) {
                    self.put(Ev { w: [head, obj, a[0], a[1], 0, y1.w7, y2.w7, y3.w7] });
                }
            }
            51..=59 => {
                // bookkeeping for the specification only
                a.resize(6, 0);
                self.put(Ev { w: [head, obj, a[0], a[1], a[2], a[3], a[4], 0] });
            }
            _ => {
                let live = match self.objs.get_mut(&obj) {
                    Some(d) => d,
                    None => return,
                };
                // 26: process the sample that silences the output
                let (op, head) = if op == 26 {
                    a = vec![catch_unwind(AssertUnwindSafe(|| live.silencer())).unwrap_or(0.0).to_bits()];
                    (2, 2 | flags << 16)
                } else {
                    (op, head)
                };
                let ty = live.ty;
                // round the arguments that are samples to the sample type
                let samples: &[usize] = match op {
                    2 => &[0],
                    7 => &[1],
                    8 => &[0, 1, 2, 3, 4],
                    9 => &[1],
                    10 => &[0, 1, 2, 3],
                    17 | 18 => &[1],
                    20 | 22 | 23 => &[0],
                    _ => &[],
                };
                a.resize(5, 0);
                if ty == 32 {
                    for i in samples {
                        a[*i] = live.dut.round(a[*i]);
                    }
                }
                if op == 11 && flags >> 15 & 1 == 1 {
                    // LinearDelay::set_delay takes f32 whatever the sample type
                    a[0] = ((f64::from_bits(a[0]) as f32) as f64).to_bits();
                }
                live.note(op, &a);
                let d = &mut live.dut;
                let r = catch_unwind(AssertUnwindSafe(|| d.call(op, &a)));
                let mut e = Ev { w: [head, obj, a[0], a[1], a[2], a[3], a[4], 0] };
                match r {
                    Ok(Some(o)) => {
                        e.w[7] = o.w7;
                        if let Some(x) = o.w4 {
                            e.w[4] = x;
                        }
                        if let Some(x) = o.w5 {
                            e.w[5] = x;
                        }
                        if let Some(x) = o.w6 {
                            e.w[6] = x;
                        }
                    }
                    Ok(None) => die(&line, "op for this object"),
                    Err(_) => e.w[0] |= pan,
                }
                self.put(e);
            }
        }
    }
}

/// A thread that carries out what it is sent, one piece after the other.
struct Worker {
    to: Sender<(Moved, Vec<String>)>,
    from: Receiver<Moved>,
}
impl Worker {
    fn start() -> Worker {
        let (to, inbox) = channel::<(Moved, Vec<String>)>();
        let (outbox, from) = channel();
        std::thread::spawn(move || {
            for (mut m, lines) in inbox {
                for l in &lines {
                    m.0.exec(l);
                }
                if outbox.send(m).is_err() {
                    return;
                }
            }
        });
        Worker { to, from }
    }
    fn run(&self, w: Box<World>, lines: Vec<String>) -> Box<World> {
        self.to.send((Moved(w), lines)).unwrap();
        self.from.recv().unwrap().0
    }
}

/// Directives, which leave no event:
///   f0 t  the following lines are carried out on thread t (0: the main one)
///   f1    begin of parallel parts    f2  next part    f3  end: all parts run at the same
///         time, each on a thread of its own with objects of its own; their events follow
///         each other in the trace
fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let script = BufReader::new(File::open(&args[1]).expect("script"));
    let lines: Vec<String> = script.lines().map(|l| l.expect("read")).collect();
    // objects whose past is needed later
    let logged: Arc<HashSet<u64>> = Arc::new(
        lines
            .iter()
            .filter(|l| l.starts_with("1a "))
            .filter_map(|l| l.split(' ').nth(2).and_then(|t| u64::from_str_radix(t, 16).ok()))
            .collect(),
    );
    let mut out = BufWriter::new(File::create(&args[2]).expect("trace"));
    let mut world = World::new(logged.clone());
    let mut workers: Vec<Worker> = vec![];
    let mut thread = 0usize;
    let mut held: Vec<String> = vec![];
    let mut lines = lines.into_iter();
    loop {
        let line = lines.next();
        let word = line.as_deref().map(|l| l.split(' ').next().unwrap_or(""));
        let directive = matches!(word, None | Some("f0") | Some("f1"));
        if directive && thread > 0 && !held.is_empty() {
            world = workers[thread - 1].run(world, std::mem::take(&mut held));
        }
        if world.out.len() > 1 << 20 || directive {
            out.write_all(&world.out).unwrap();
            world.out.clear();
        }
        let line = match line {
            Some(l) => l,
            None => break,
        };
        match line.split(' ').next().unwrap_or("") {
            "f0" => {
                thread = line.split(' ').nth(1).and_then(|t| t.parse().ok()).unwrap_or_else(|| die(&line, "thread"));
                while workers.len() < thread {
                    workers.push(Worker::start());
                }
            }
            "f1" => {
                let mut parts: Vec<Vec<String>> = vec![vec![]];
                loop {
                    let l = lines.next().unwrap_or_else(|| die(&line, "no end"));
                    match l.as_str() {
                        "f2" => parts.push(vec![]),
                        "f3" => break,
                        _ => parts.last_mut().unwrap().push(l),
                    }
                }
                let gate = Arc::new(Barrier::new(parts.len()));
                let running: Vec<_> = parts
                    .into_iter()
                    .map(|ls| {
                        let (gate, logged) = (gate.clone(), logged.clone());
                        std::thread::spawn(move || {
                            let mut w = World::new(logged);
                            gate.wait();
                            for l in &ls {
                                w.exec(l);
                            }
                            std::mem::take(&mut w.out)
                        })
                    })
                    .collect();
                for r in running {
                    out.write_all(&r.join().unwrap_or_else(|_| die(&line, "a part ended"))).unwrap();
                }
            }
            _ if thread == 0 => world.exec(&line),
            _ => held.push(line),
        }
    }
    out.flush().unwrap();
}
