//! Oracles over single formatting events.
use crate::ctx::{Ctx, Tier};
use crate::gen::{sparse_decimals, value};
use crate::mon::{crumb, observe};
use crate::models::{Model, K};
use crate::obs::*;
use crate::strs::{ALLOC, CAP};
use crate::sys::{arm_queries, queries, Fam, Sys};
use nominals::NominalString;

pub fn scale(tier: Tier, tiny: u64, quick: u64, thorough: u64) -> u64 {
    match tier {
        Tier::Tiny => tiny,
        Tier::Quick => quick,
        Tier::Thorough => thorough,
    }
}

/// Numbers to format: everything small, everything sparse, and structured
/// random ones over the whole range of the type. Sorted, without repeats.
pub fn plan(cx: &mut Ctx, w: W, cap: u128, s: &Sys, dense: u128, random: u64) -> Vec<u128> {
    let mut v = plan_all(cx, w, cap, s, dense, random);
    v.retain(|&x| s.fits(x));
    v
}

/// The same list in every build, whatever the length of the texts.
pub fn plan_all(cx: &mut Ctx, w: W, cap: u128, s: &Sys, dense: u128, random: u64) -> Vec<u128> {
    let max = w.max().min(cap);
    #[cfg(feature = "fuzz")]
    if crate::gen::FORCED.with(|f| !f.borrow().is_empty()) {
        let mut v: Vec<u128> = crate::gen::FORCED.with(|f| f.borrow().iter().map(|x| x & w.max()).filter(|x| *x <= max).collect());
        v.sort_unstable();
        v.dedup();
        return v;
    }
    let mut v: Vec<u128> = (0..=max.min(dense)).collect();
    if cx.tier != Tier::Tiny {
        let three = matches!(s.fam, Fam::Chinese | Fam::Ethiopic);
        if s.builtin || cx.rng.chance(1, 8) {
            v.extend(sparse_decimals(max, &[1, 2, 9], three && (cx.tier == Tier::Thorough || few(s))));
            v.extend(sparse_decimals(max, &[1, 5], three));
        }
        for k in 0..128u32 {
            for d in [0u128, 1, 2] {
                v.extend([(1u128 << k).wrapping_add(d), (1u128 << k).wrapping_sub(d)]);
            }
        }
        // numbers that look small when cut to a pointer or an index
        for hi in [1u128 << 32, 1 << 64, 3 << 64, 1 << 100, 256, 65536] {
            for lo in 0..60u128 {
                v.push(hi + lo);
            }
        }
        if let Some(d) = crate::gen::DICT.get() {
            if s.builtin || d.relatives.len() < 500 {
                v.extend(&d.relatives);
            } else {
                for _ in 0..300 {
                    v.push(*cx.rng.pick(&d.relatives));
                }
            }
        }
        let mut p = 1u128;
        let mut sum = 0u128;
        while let Some(q) = p.checked_mul(s.base.max(2)) {
            p = q;
            sum = sum.saturating_add(q);
            for d in 0..3u128 {
                v.extend([p + d.min(u128::MAX - p), p - d, sum.saturating_add(d), sum.saturating_sub(d)]);
            }
        }
    }
    v.extend([max, max.saturating_sub(1)]);
    for _ in 0..random {
        v.push(value(&mut cx.rng, max, s.base));
    }
    v.retain(|&x| x <= max);
    v.sort_unstable();
    v.dedup();
    v
}

/// Families of a few systems each, for which more can be afforded.
fn few(s: &Sys) -> bool {
    matches!(s.fam, Fam::Roman | Fam::ArmGeo | Fam::Cjk | Fam::Hebrew | Fam::Ethiopic)
}

pub fn fam_dense(cx: &Ctx, s: &Sys) -> u128 {
    let custom = !s.builtin;
    match (cx.tier, custom) {
        (Tier::Tiny, _) => 5,
        (Tier::Quick, false) if few(s) => 300_000,
        (Tier::Quick, false) => 70_000,
        (Tier::Quick, true) => 1_200,
        (Tier::Thorough, false) if few(s) => 2_000_000,
        (Tier::Thorough, false) => 300_000,
        (Tier::Thorough, true) => 8_000,
    }
}

pub fn fam_random(cx: &Ctx, s: &Sys) -> u64 {
    match (cx.tier, s.builtin) {
        (Tier::Tiny, _) => 6,
        (Tier::Quick, true) if few(s) => 200_000,
        (Tier::Quick, true) => 20_000,
        (Tier::Quick, false) => 400,
        (Tier::Thorough, true) if few(s) => 2_000_000,
        (Tier::Thorough, true) => 250_000,
        (Tier::Thorough, false) => 3_000,
    }
}

pub fn default_plan(cx: &mut Ctx, w: W, s: &Sys) -> Vec<u128> {
    let (d, r) = (fam_dense(cx, s), fam_random(cx, s));
    plan(cx, w, s.cap(), s, d, r)
}

fn subject(s: &Sys, w: W) -> String {
    if s.desc.is_empty() {
        format!("{} as {}", s.name, w.name())
    } else {
        format!("{} as {} [{}]", s.name, w.name(), s.desc.chars().take(400).collect::<String>())
    }
}

pub fn broke<T: Num>(cx: &mut Ctx, kind: &str, s: &Sys, v: u128, got: String, want: String) {
    cx.violate(kind, &subject(s, T::W), v, got, want);
}

/// What must be observed, given the specification.
#[derive(Debug)]
pub enum Want<'a> {
    Text(&'a str),
    NoZero,
    Oob,
    Oom,
    OomOrOob,
    Any,
}

pub fn want<'a>(s: &Sys, v: u128, buf: &'a mut String) -> Want<'a> {
    buf.clear();
    if !s.fits_heap(v) {
        // every text above the cap is longer than the inline capacity
        return if ALLOC {
            Want::Any
        } else if s.fam == Fam::Additive {
            Want::OomOrOob
        } else {
            Want::Oom
        };
    }
    match s.model.exp(v, buf) {
        K::Text if !ALLOC && buf.len() > CAP => Want::Oom,
        K::Text => Want::Text(buf),
        K::NoZero => Want::NoZero,
        K::Oob if !ALLOC && s.fam == Fam::Additive && buf.len() > CAP => Want::OomOrOob,
        K::Oob => Want::Oob,
        K::Any => Want::Any,
    }
}

pub fn arm(s: &Sys, chars: usize) {
    if !s.builtin && s.spec.is_some() {
        arm_queries(64 * (chars as u64 + 8) + 512);
    }
}

/// One fallible formatting, observed.
pub fn call<T: Num>(cx: &mut Ctx, s: &Sys, v: u128) -> (Result<Out, String>, u64) {
    crumb(&s.name, T::W as u32, v);
    let r = observe(|| try_fmt::<T>(s.sys, v));
    cx.evals += 1;
    r
}

pub fn tally(cx: &mut Ctx, o: &Result<Out, String>) {
    match o {
        Ok(Ok(t)) => {
            cx.hit(if t.is_inline() { "texts stored inline" } else { "texts stored on the heap" }, 1);
            cx.max("longest text in bytes", t.len() as u64);
            if t.chars().nth(1).is_some() {
                cx.plain += 1;
            }
        }
        Ok(Err(e)) => {
            cx.plain += 1;
            cx.hit(
                match e {
                    Er::NoZero => "no-zero-symbol errors",
                    Er::Oom(_) => "out-of-memory errors",
                    Er::Oob(_) => "out-of-bounds errors",
                    Er::Unknown => "unknown errors",
                },
                1,
            );
        }
        Err(_) => cx.hit("panics", 1),
    }
}

/// Compares one fallible formatting with the specification.
pub fn against_model<T: Num>(
    cx: &mut Ctx,
    s: &Sys,
    v: u128,
    buf: &mut String,
    extra: &dyn Fn(&str) -> Result<(), String>,
) {
    let w = want(s, v, buf);
    let chars = match &w {
        Want::Text(t) => t.len(),
        _ => CAP,
    };
    arm(s, chars);
    let (r, _) = call::<T>(cx, s, v);
    tally(cx, &r);
    let o = match r {
        Err(p) => {
            broke::<T>(cx, "panic", s, v, p, format!("{w:?}"));
            return;
        }
        Ok(o) => o,
    };
    let good = match (&w, &o) {
        (Want::Any, _) => true,
        (Want::Text(t), Ok(x)) => {
            if **x == **t {
                if let Err(e) = extra(x) {
                    broke::<T>(cx, "text", s, v, e, clip(t));
                }
                true
            } else {
                broke::<T>(cx, "text", s, v, clip(x), clip(t));
                return;
            }
        }
        (Want::NoZero, Err(Er::NoZero)) => true,
        (Want::Oob, Err(Er::Oob(n))) | (Want::Oom, Err(Er::Oom(n))) => {
            if *n != v {
                broke::<T>(cx, "payload", s, v, show(&o), format!("an error carrying {v}"));
            }
            true
        }
        (Want::OomOrOob, Err(Er::Oob(n) | Er::Oom(n))) => {
            if *n != v {
                broke::<T>(cx, "payload", s, v, show(&o), format!("an error carrying {v}"));
            }
            true
        }
        _ => false,
    };
    if !good {
        let memory = matches!(w, Want::Oom | Want::OomOrOob) || matches!(o, Err(Er::Oom(_)));
        let w = match w {
            Want::Text(t) => format!("Ok({})", clip(t)),
            w => format!("{w:?}"),
        };
        broke::<T>(cx, if memory { "memory" } else { "error" }, s, v, show(&o), w);
        return;
    }
    if v % 9973 == 77 || v > 1 << 70 {
        let o = show(&o);
        cx.sample(|| format!("{} as {}: {v} -> {o}", s.name, T::W.name()));
    }
}

/// The storage rule on a formatted result: inline without touching the heap
/// up to the capacity, on the heap above.
pub fn storage<T: Num>(cx: &mut Ctx, s: &Sys, v: u128) {
    let (r, made) = call::<T>(cx, s, v);
    tally(cx, &r);
    let fits = matches!(r, Ok(Ok(_)));
    match r {
        Ok(Ok(t)) => storage_of::<T>(cx, s, v, &t, made, "try_format_nominal"),
        Ok(Err(_)) => {
            if made != 0 && !ALLOC {
                broke::<T>(cx, "storage", s, v, format!("{made} allocations"), "none without heap support".into());
            }
        }
        Err(_) => {}
    }
    // the infallible entry point as well
    let (r, made) = observe(|| T::entry(s.sys).system(T::from128(v)));
    cx.evals += 1;
    if let Ok(t) = r {
        // An attempt that fails may have needed the heap before it failed; the
        // decimal that replaces it is short.
        storage_of::<T>(cx, s, v, &t, if fits { made } else { 0 }, "format_nominal");
    }
}

fn storage_of<T: Num>(cx: &mut Ctx, s: &Sys, v: u128, t: &NominalString, made: u64, how: &str) {
    let small = t.len() <= CAP;
    if t.is_inline() != small && ALLOC {
        broke::<T>(cx, "storage", s, v, format!("{how}: is_inline() is {} at {} bytes", t.is_inline(), t.len()), "inline exactly up to 62 bytes".into());
    } else if small && made != 0 {
        broke::<T>(cx, "storage", s, v, format!("{how}: {made} heap allocation(s) for {} bytes of text", t.len()), "no heap allocation".into());
    } else if small && !text_is_inside(t) && !t.is_empty() {
        broke::<T>(cx, "storage", s, v, format!("{how}: the text lies outside the value"), "text inside the 64-byte value".into());
    }
}

/// Infallible results against the fallible one (C22).
pub fn infallible<T: Num>(cx: &mut Ctx, s: &Sys, v: u128) {
    use nominals::UnwrapOrDecimal;
    arm(s, 4000);
    let (r, _) = call::<T>(cx, s, v);
    tally(cx, &r);
    let o = match r {
        Err(p) => {
            broke::<T>(cx, "panic", s, v, p, "a result".into());
            return;
        }
        Ok(o) => o,
    };
    match &o {
        Err(Er::NoZero) if v != 0 => broke::<T>(cx, "error", s, v, show(&o), "no-zero-symbol only for zero".into()),
        Err(Er::Oob(n) | Er::Oom(n)) if *n != v => {
            broke::<T>(cx, "payload", s, v, show(&o), format!("an error carrying {v}"));
        }
        Err(Er::Oom(_)) if ALLOC => broke::<T>(cx, "error", s, v, show(&o), "no out-of-memory error with heap support".into()),
        Err(Er::Unknown) => broke::<T>(cx, "error", s, v, show(&o), "a documented error".into()),
        _ => {}
    }
    let expect = match &o {
        Ok(t) => String::from(&**t),
        Err(Er::NoZero) => "0".to_string(),
        Err(_) => decimal(v),
    };
    let n = T::from128(v);
    let one = |cx: &mut Ctx, how: &str, f: &mut dyn FnMut() -> String| {
        arm(s, 4000);
        let (r, _) = observe(&mut *f);
        cx.evals += 1;
        match r {
            Ok(t) if t == expect => {}
            Ok(t) => broke::<T>(cx, "text", s, v, format!("{how}: {}", clip(&t)), clip(&expect)),
            Err(p) => broke::<T>(cx, "panic", s, v, format!("{how}: {p}"), clip(&expect)),
        }
    };
    one(cx, "format_nominal", &mut || String::from(&*T::entry(s.sys).system(n)));
    one(cx, "to_nominal", &mut || String::from(&*T::entry(s.sys).nominal(n)));
    one(cx, "unwrap_or_decimal", &mut || String::from(&*T::entry(s.sys).try_system(n).unwrap_or_decimal()));
    if o.is_err() {
        one(cx, "into_decimal", &mut || match T::entry(s.sys).try_nominal(n) {
            Ok(t) => String::from(&*t),
            Err(e) => String::from(&*e.into_decimal()),
        });
    }
}

/// Progress and index safety of user-defined collections (C27).
pub fn progress<T: Num>(cx: &mut Ctx, s: &Sys, v: u128) {
    let Some(spec) = &s.spec else { return };
    // How many symbols a text can have at most: known from the specification.
    let mut buf = String::new();
    let w = if !s.fits_heap(v) { K::Any } else { spec.exp(v, &mut buf) };
    let chars = buf.chars().count().max(8).max(if !s.fits_heap(v) { CAP } else { 0 });
    arm_queries(64 * chars as u64 + 512);
    crumb(&s.name, T::W as u32, v);
    let (r, _) = observe(|| try_fmt::<T>(s.sys, v));
    let (n, bad) = queries();
    cx.evals += 1;
    tally(cx, &r);
    cx.hit("queries made to user-defined collections", n);
    cx.max("most queries in one call", n);
    if let Some((i, len)) = bad {
        broke::<T>(cx, "queries", s, v, format!("asked for the digit at {i} of {len}"), "positions below the length only".into());
    }
    match (&r, w) {
        (Err(p), _) => broke::<T>(cx, "panic", s, v, p.clone(), "a result".into()),
        (Ok(o), K::Oob) if spec.fallback.is_none() && !matches!(o, Err(Er::Oob(_))) => {
            broke::<T>(cx, "error", s, v, show(o), "out of bounds".into());
        }
        _ => {}
    }
    // infallible formatting must not panic either
    arm_queries(64 * chars as u64 + 512);
    let (r, _) = observe(|| String::from(&*T::entry(s.sys).system(T::from128(v))));
    let (_, bad) = queries();
    if let Err(p) = r {
        broke::<T>(cx, "panic", s, v, format!("format_nominal: {p}"), "a result".into());
    }
    if let Some((i, len)) = bad {
        broke::<T>(cx, "queries", s, v, format!("format_nominal asked for the digit at {i} of {len}"), "positions below the length only".into());
    }
}
