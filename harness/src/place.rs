//! The same call made from elsewhere: at other depths of the stack, and with
//! systems that take the place of other systems in memory. Where things lie is
//! no part of what is asked for, so the answer may not depend on it.
use crate::ctx::Ctx;
use crate::gen::{any_char, any_text, value, Rng};
use crate::mon::observe;
use crate::obs::{out, same, show, try_fmt, AllSys, Er, Num, Out, W, WIDTHS};
use crate::on_width;
use crate::strs::{ALLOC, CAP};
use crate::sys::{arm_queries, Sys};
use nominals::{AdditiveSet, Chain, DigitCollection, DigitSet, EnumeratedSet, NominalSystem, OneBased, Restrict};
use std::hint::black_box;

#[inline(never)]
fn narrow(n: usize, f: &mut dyn FnMut()) {
    let pad = [n as u8; 1];
    black_box(&pad);
    if n == 0 {
        f();
    } else {
        narrow(n - 1, f);
    }
    black_box(&pad);
}

#[inline(never)]
fn wide(n: usize, m: usize, f: &mut dyn FnMut()) {
    let pad = [n as u8; 200];
    black_box(&pad);
    if n == 0 {
        narrow(m, f);
    } else {
        wide(n - 1, m, f);
    }
    black_box(&pad);
}

fn plain<T: Num>(s: &dyn AllSys, v: u128) -> Out {
    try_fmt::<T>(s, v)
}

/// Every system, from several hundred depths of the stack.
pub fn depths(cx: &mut Ctx, systems: &[Sys], steps: usize) {
    for s in systems {
        if cx.stop() {
            return;
        }
        let w = *cx.rng.pick(&WIDTHS);
        let max = w.max().min(s.cap().min(s.cap / 4));
        let mut vals = vec![1u128, 12, 1234];
        vals.extend((0..3).map(|_| value(&mut cx.rng, max, s.base)));
        vals.retain(|v| *v <= max && s.fits(*v));
        arm_queries(u64::MAX);
        for v in vals {
            let Ok(first) = observe(|| on_width!(w, plain(s.sys, v))).0 else { continue };
            let mut bad = None;
            let mut places = std::collections::BTreeSet::new();
            for k in 0..steps {
                let mut f = || {
                    let here = 0u8;
                    places.insert(black_box(&here) as *const u8 as usize % 4096);
                    let again = observe(|| on_width!(w, plain(s.sys, v))).0;
                    if !again.as_ref().is_ok_and(|a| same(a, &first)) {
                        bad = Some(again.as_ref().map_or_else(Clone::clone, show));
                    }
                };
                // a step of one narrow frame, or of one wide one
                wide(k / 20, k % 20, &mut f);
                cx.evals += 1;
                if let Some(got) = bad.take() {
                    let subject = format!("{} as {} from another depth of the stack", s.name, w.name());
                    cx.violate("text", &subject, v, got, format!("{}, as from elsewhere", show(&first)));
                    break;
                }
            }
            cx.plain += 1;
            cx.max("places within a page a call was made from", places.len() as u64);
            cx.hit("numbers formatted from many depths", 1);
        }
    }
}

#[repr(align(64))]
struct Slot([u8; 1 << 14]);

/// Lets `s` live in the slot while `f` looks at it.
fn within<S, R>(slot: &mut Slot, at: usize, s: S, f: impl FnOnce(&S) -> R) -> R {
    let align = std::mem::align_of::<S>();
    let at = at.div_ceil(align) * align;
    assert!(at + std::mem::size_of::<S>() <= slot.0.len());
    // SAFETY: in bounds and aligned, nothing else uses the slot meanwhile
    unsafe {
        let p = slot.0.as_mut_ptr().add(at).cast::<S>();
        p.write(s);
        let r = f(&*p);
        p.drop_in_place();
        r
    }
}

type Want = Result<String, Er>;

fn check<T: Num>(cx: &mut Ctx, s: &impl NominalSystem<T>, v: u128, want: &Want, what: &dyn Fn() -> String) {
    let (r, _) = observe(|| out(s.try_format_nominal(T::from128(v))));
    cx.evals += 1;
    let ok = match (&r, want) {
        (Ok(Err(e)), Ok(u)) if !ALLOC && u.len() > CAP => *e == Er::Oom(v),
        (Ok(Ok(t)), Ok(u)) => **t == **u,
        (Ok(Err(e)), Err(f)) => e == f,
        _ => false,
    };
    if !ok {
        let got = r.as_ref().map_or_else(Clone::clone, show);
        cx.violate("text", &format!("{} as {} in place of another system", what(), T::W.name()), v, got, format!("{want:?}"));
    }
}

fn names(r: &mut Rng, n: usize) -> Vec<&'static str> {
    (0..n)
        .map(|_| {
            let k = 1 + r.idx(3);
            &*Box::leak(any_text(r, k).into_boxed_str())
        })
        .collect()
}

fn digits(r: &mut Rng, n: usize) -> Vec<char> {
    let mut v = Vec::new();
    while v.len() < n {
        let c = any_char(r);
        if !v.contains(&c) {
            v.push(c);
        }
    }
    v
}

fn positional(d: &[char], mut v: u128) -> Want {
    let mut out = Vec::new();
    loop {
        out.push(d[(v % d.len() as u128) as usize]);
        v /= d.len() as u128;
        if v == 0 {
            break;
        }
    }
    Ok(out.iter().rev().collect())
}

/// Letters counted from `from` (0 or 1).
fn letters(d: &[char], from: u128, v: u128) -> Want {
    let Some(mut v) = (v + 1).checked_sub(from) else { return Err(Er::NoZero) };
    if v == 0 {
        return Err(Er::NoZero);
    }
    let n = d.len() as u128;
    let mut out = Vec::new();
    while v > 0 {
        v -= 1;
        out.push(d[(v % n) as usize]);
        v /= n;
    }
    Ok(out.iter().rev().collect())
}

fn listed(l: &[&str], zero: bool, v: u128) -> Want {
    if !zero && v == 0 {
        return Err(Er::NoZero);
    }
    let i = v - u128::from(!zero);
    if i < l.len() as u128 {
        Ok(l[i as usize].to_string())
    } else {
        Err(Er::Oob(v))
    }
}

fn summed(l: &[(&str, u128)], v: u128) -> Want {
    let mut left = v;
    let mut out = String::new();
    for (t, x) in l {
        while left >= *x {
            left -= x;
            out.push_str(t);
        }
    }
    if v == 0 {
        Err(Er::NoZero)
    } else if left == 0 {
        Ok(out)
    } else {
        Err(Er::Oob(v))
    }
}

/// Systems with other symbols, one after the other in the same memory, asked
/// for the same few numbers.
fn taken<T: Num>(cx: &mut Ctx, slot: &mut Slot, rounds: usize) {
    let mut few: Vec<u128> = vec![0, 1, 2, 5, 7, 11, 23];
    few.push(3 + u128::from(cx.rng.below(120)));
    let at = cx.rng.idx(40) * 8;
    for _ in 0..rounds {
        if cx.stop() {
            return;
        }
        let vs: Vec<u128> = (0..3).map(|_| *cx.rng.pick(&few)).collect();
        let kind = cx.rng.below(9);
        macro_rules! go {
            ($s:expr, $want:expr, $what:expr) => {{
                let want: &dyn Fn(u128) -> Want = &$want;
                within(slot, at, $s, |s| {
                    for v in &vs {
                        check::<T>(cx, s, *v, &want(*v), &$what);
                    }
                })
            }};
        }
        match kind {
            0 | 1 => {
                let n = if kind == 0 { 3 } else { 6 };
                let mut x: Vec<u128> = vec![1];
                while x.len() < n {
                    let v = 2 + u128::from(cx.rng.below(24));
                    if !x.contains(&v) {
                        x.push(v);
                    }
                }
                x.sort_unstable_by(|a, b| b.cmp(a));
                let t = names(&mut cx.rng, n);
                let l: Vec<(&'static str, u128)> = t.into_iter().zip(x).collect();
                let what = || format!("AdditiveSet {l:?}");
                if kind == 0 {
                    go!(AdditiveSet::<3>::new(l.clone().try_into().unwrap()), |v| summed(&l, v), what);
                } else {
                    go!(AdditiveSet::<6>::new(l.clone().try_into().unwrap()), |v| summed(&l, v), what);
                }
            }
            2 | 3 => {
                let l = names(&mut cx.rng, 12);
                let what = || format!("EnumeratedSet {l:?}");
                if kind == 2 {
                    go!(EnumeratedSet::<12, true>::new(l.clone().try_into().unwrap()), |v| listed(&l, true, v), what);
                } else {
                    go!(EnumeratedSet::<12, false>::zeroless(l.clone().try_into().unwrap()), |v| listed(&l, false, v), what);
                }
            }
            _ => {
                let d = digits(&mut cx.rng, 8);
                let what = || format!("digits {d:?} ({kind})");
                let all: [char; 8] = d.clone().try_into().unwrap();
                match kind {
                    4 => go!(DigitSet::<8, true>::new(all), |v| positional(&d, v), what),
                    5 => go!(DigitSet::<8, false>::zeroless(all), |v| letters(&d, 0, v), what),
                    6 => go!(OneBased::new(DigitSet::<8, false>::zeroless(all)), |v| letters(&d, 1, v), what),
                    7 => {
                        let n = 2 + cx.rng.idx(7);
                        go!(Restrict::new(n, DigitSet::<8, true>::new(all)), |v| positional(&d[..n], v), what);
                    }
                    _ => {
                        let (a, b): ([char; 3], [char; 5]) = (d[..3].try_into().unwrap(), d[3..].try_into().unwrap());
                        go!(Chain::new(DigitSet::<3, false>::zeroless(a), DigitSet::<5, false>::zeroless(b)).one_based(), |v| letters(&d, 1, v), what);
                    }
                }
            }
        }
        cx.plain += 1;
        cx.hit("systems in the place of another", 1);
    }
}

pub fn recycled(cx: &mut Ctx, groups: usize, rounds: usize) {
    let mut slot = Box::new(Slot([0; 1 << 14]));
    for _ in 0..groups {
        let w: W = *cx.rng.pick(&WIDTHS);
        on_width!(w, taken(cx, &mut slot, rounds));
    }
}
