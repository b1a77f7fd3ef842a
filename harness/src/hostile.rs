//! Collections and systems that break their contract: answers that change
//! between calls, lengths that lie, panics in the middle of formatting. Wrong
//! text, errors and panics are fine; undefined behaviour and leaks are not.
use crate::ctx::{Ctx, Tier};
use crate::gen::{any_char, Rng};
use crate::mon::{crumb, live, observe};
use crate::obs::{Num, W, WIDTHS};
use crate::on_width;
use nominals::{Chain, DigitCollection, Error, Nominal, NominalString, NominalSystem, OneBased, Restrict};
use std::cell::{Cell, RefCell};

thread_local! {
    static RNG: RefCell<Rng> = const { RefCell::new(Rng(1)) };
    static LEFT: Cell<u32> = const { Cell::new(0) };
    static STYLE: Cell<u64> = const { Cell::new(0) };
}

fn roll(n: u64) -> u64 {
    let left = LEFT.with(Cell::get);
    if left == 0 {
        panic!("a collection gave up");
    }
    LEFT.with(|l| l.set(left - 1));
    RNG.with(|r| r.borrow_mut().below(n))
}

fn style(bit: u64) -> bool {
    STYLE.with(Cell::get) >> bit & 1 == 1
}

/// Makes up every answer on the spot.
#[derive(Default, Clone, Copy)]
pub struct Liar;

impl DigitCollection for Liar {
    type Fallback = Liar2;
    fn fixed(&self) -> bool {
        if style(0) { roll(2) == 0 } else { style(1) }
    }
    fn has_zero_digit(&self) -> bool {
        if style(2) { roll(2) == 0 } else { style(3) }
    }
    fn zero_based(&self) -> bool {
        if style(4) { roll(2) == 0 } else { style(5) }
    }
    fn len(&self) -> usize {
        if style(6) {
            return 2 + roll(3) as usize;
        }
        match roll(10) {
            0 => 0,
            1 => 1,
            2 => 255 + roll(4) as usize,
            3 => usize::MAX - roll(2) as usize,
            4 => usize::MAX / 2 + roll(3) as usize,
            5 => 65_535 + roll(3) as usize,
            n => n as usize,
        }
    }
    fn is_empty(&self) -> bool {
        if style(7) { roll(2) == 0 } else { self.len() == 0 }
    }
    fn digit(&self, index: usize) -> char {
        if roll(24) == 0 {
            // formats something itself while it is being asked
            let t = (index as u64).to_nominal(&nominals::LetterUpper);
            return t.chars().next_back().unwrap_or('?');
        }
        if style(8) && roll(12) == 0 {
            panic!("no digit for you");
        }
        RNG.with(|r| any_char(&mut r.borrow_mut()))
    }
}

#[derive(Default, Clone, Copy)]
pub struct Liar2;
impl DigitCollection for Liar2 {
    type Fallback = nominals::NoFallback;
    fn has_zero_digit(&self) -> bool {
        Liar.has_zero_digit()
    }
    fn len(&self) -> usize {
        Liar.len()
    }
    fn digit(&self, index: usize) -> char {
        Liar.digit(index)
    }
}

/// A system whose own methods panic or hand back anything.
struct System;
impl<T: Nominal> NominalSystem<T> for System {
    fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
        match roll(6) {
            0 => panic!("no"),
            1 => Err(Error::NoZeroSymbol),
            2 => Err(Error::OutOfMemory(nominal)),
            3 => Err(Error::OutOfBounds(nominal)),
            _ => {
                let mut s = if roll(2) == 0 { NominalString::new_reverse() } else { NominalString::new() };
                for _ in 0..roll(80) {
                    let c = RNG.with(|r| any_char(&mut r.borrow_mut()));
                    let r = if roll(2) == 0 { s.try_push(c) } else { s.try_push_front(c) };
                    if r.is_err() {
                        return Err(Error::OutOfMemory(nominal));
                    }
                }
                Ok(s)
            }
        }
    }
}

fn one<T: Num, S: NominalSystem<T>>(cx: &mut Ctx, name: &str, s: &S, v: u128) {
    crumb(name, T::W as u32, v);
    let key = cx.rng.next();
    RNG.with(|r| *r.borrow_mut() = Rng::new(key, 7));
    STYLE.with(|s| s.set(key >> 16));
    let most = if cx.tier == Tier::Tiny { 150 } else { 600 };
    LEFT.with(|l| l.set(20 + (key % most) as u32));
    let held = live();
    let n = T::from128(v);
    let mut text: Result<usize, String> = Err(String::new());
    let (r, _) = observe(|| {
        let t = if key >> 60 & 1 == 0 {
            s.format_nominal(n)
        } else {
            match s.try_format_nominal(n) {
                Ok(t) => t,
                Err(_) => return,
            }
        };
        text = std::str::from_utf8(t.as_bytes()).map(str::len).map_err(|e| format!("{e}: {:x?}", t.as_bytes()));
        let mut t = t;
        t.make_ascii_lowercase();
        let _ = t.try_push('é');
        let _ = t.try_push_front('零');
    });
    cx.evals += 1;
    let panicked = r.is_err();
    drop(r);
    let subject = || format!("{name} as {} [answers from {key:#x}]", T::W.name());
    if let Err(e) = &text {
        if !e.is_empty() {
            cx.violate("undefined", &subject(), v, e.clone(), "UTF-8");
        }
    }
    let texts = text.is_ok();
    drop(text);
    // the message of a panic is kept by the hook until the next one
    let left = live() - held;
    if left > 4096 || (left > 0 && !panicked) {
        cx.violate("leak", &subject(), v, format!("{left} bytes are still allocated"), "no bytes left");
    }
    cx.hit(if panicked { "contract-breaking collections: panics" } else if texts { "contract-breaking collections: texts" } else { "contract-breaking collections: errors" }, 1);
    cx.plain += 1;
}

fn on<T: Num>(cx: &mut Ctx, v: u128) {
    let n = cx.rng.idx(7);
    match cx.rng.below(8) {
        0 | 1 => one::<T, _>(cx, "liar", &Liar, v),
        2 => one::<T, _>(cx, "one-based liar", &OneBased::new(Liar), v),
        3 => one::<T, _>(cx, "chained liars", &Chain::new(Liar, Liar2), v),
        4 => one::<T, _>(cx, "restricted liar", &Restrict::new(n, Liar), v),
        5 => one::<T, _>(cx, "liar after letters", &Chain::new(nominals::LetterLower, Liar), v),
        6 => one::<T, _>(cx, "restricted chain", &Restrict::new(n, Chain::new(Liar, nominals::Decimal)), v),
        _ => one::<T, _>(cx, "lying system", &System, v),
    }
}

pub fn unit(cx: &mut Ctx, n: u64) {
    for _ in 0..n {
        if cx.stop() {
            return;
        }
        let w = *cx.rng.pick(&WIDTHS);
        let v = crate::gen::value(&mut cx.rng, w.max(), 3);
        let w: W = w;
        on_width!(w, on(cx, v));
    }
}
