//! The workload and oracle of every property.
use crate::chk::*;
use crate::ctx::*;
use crate::gen::*;
use crate::mon::{crumb, observe};
use crate::models::*;
use crate::obs::*;
use crate::on_width;
use crate::strs::{self, ALLOC, CAP};
use crate::sys::*;
use std::sync::Arc;

pub const MODEL_KINDS: &[&str] = &["text", "error", "panic"];

pub fn kinds(id: &str) -> &'static [&'static str] {
    match id {
        "C01" => &["text", "panic"],
        "C02" => &["text", "panic", "leak", "undefined"],
        "C03" => &["storage"],
        "C04" => &["memory", "panic", "payload", "heap", "differs", "text"],
        "C20" | "C21" => &["text", "error", "panic", "payload"],
        "C22" => &["text", "error", "panic", "payload"],
        "C27" => &["queries", "panic", "error"],
        _ => MODEL_KINDS,
    }
}

struct Plan<'a> {
    units: Vec<Unit<'a>>,
}

impl<'a> Plan<'a> {
    fn add(&mut self, name: String, f: impl Fn(&mut Ctx) + Send + 'a) {
        self.units.push((name, Box::new(f)));
    }
}

fn sweep<T: Num>(cx: &mut Ctx, s: &Sys, extra: &dyn Fn(u128, &str) -> Result<(), String>) {
    let mut buf = String::new();
    let vals = default_plan(cx, T::W, s);
    cx.hit("systems x integer types", 1);
    for v in vals {
        if cx.stop() {
            return;
        }
        against_model::<T>(cx, s, v, &mut buf, &|t| extra(v, t));
    }
}

type Extra = fn(u128, &str) -> Result<(), String>;
fn no_extra(_: u128, _: &str) -> Result<(), String> {
    Ok(())
}

fn model_units<'a>(p: &mut Plan<'a>, systems: &'a [Sys], extra: Extra) {
    for s in systems {
        for w in WIDTHS {
            p.add(format!("model {} {}", s.name, w.name()), move |cx| on_width!(w, sweep(cx, s, &extra)));
        }
    }
}

/// User-defined digit collections of one family against the specification.
fn custom_digit_units(p: &mut Plan<'_>, tier: Tier, only: Option<Fam>, quick: u64, thorough: u64) {
    let n = scale(tier, 6, quick, thorough);
    let per = n.div_ceil(48).max(1);
    let mut i = 0;
    while i < n {
        let (a, b) = (i, (i + per).min(n));
        p.add(format!("custom digits {only:?} {a}"), move |cx| {
            for k in a..b {
                let s = nth_custom_digits(cx.seed, k, only);
                if cx.tier == Tier::Tiny && s.base > 2000 {
                    continue;
                }
                cx.hit("user-defined collections", 1);
                for w in WIDTHS {
                    if cx.stop() {
                        return;
                    }
                    on_width!(w, sweep(cx, &s, &no_extra));
                }
            }
        });
        i = b;
    }
}

fn drop_if_tiny(mut v: Vec<Sys>, tier: Tier) -> Vec<Sys> {
    if tier == Tier::Tiny {
        v.retain(|s| s.base <= 70);
    }
    v
}

// ---- C05 -----------------------------------------------------------------

fn reps(t: &str) -> Vec<(&'static str, nominals::NominalString)> {
    use nominals::NominalString as N;
    let mut out = Vec::new();
    let fits = ALLOC || t.len() <= CAP;
    if !fits {
        return out;
    }
    out.push(("from text", N::from(t)));
    let mut a = N::new();
    t.chars().for_each(|c| a.try_push(c).unwrap());
    out.push(("forward pushes", a));
    let mut a = N::new_reverse();
    t.chars().rev().for_each(|c| a.try_push_front(c).unwrap());
    out.push(("reverse pushes", a));
    let mut a = N::new_reverse();
    a.try_push_str(t).unwrap();
    out.push(("reverse push_str", a));
    #[cfg(feature = "alloc")]
    out.push(("owned", N::from(t.to_string())));
    out
}

fn compare_pair(cx: &mut Ctx, x: &str, y: &str) {
    let ord = x.cmp(y);
    for (ra, a) in reps(x) {
        for (rb, b) in reps(y) {
            cx.evals += 1;
            crumb("compare", 97, 0);
            let (r, _) = observe(|| -> Result<(), String> {
                macro_rules! eq {
                    ($what:literal, $e:expr, $want:expr) => {
                        let (got, want) = ($e, $want);
                        if got != want {
                            return Err(format!("{} is {:?}, expected {:?}", $what, got, want));
                        }
                    };
                }
                let same = x == y;
                eq!("a == b", a == b, same);
                eq!("a != b", a != b, !same);
                eq!("a.cmp(b)", a.cmp(&b), ord);
                eq!("a.partial_cmp(b)", a.partial_cmp(&b), Some(ord));
                eq!("a < b", a < b, x < y);
                eq!("a <= b", a <= b, x <= y);
                eq!("a > b", a > b, x > y);
                eq!("a >= b", a >= b, x >= y);
                eq!("a == str", a == *y, same);
                eq!("a != str", a != *y, !same);
                eq!("a == &str", a == y, same);
                eq!("a != &str", a != y, !same);
                eq!("a.partial_cmp(str)", a.partial_cmp(y), Some(ord));
                eq!("a < str", a < *y, x < y);
                eq!("a <= str", a <= *y, x <= y);
                eq!("a > str", a > *y, x > y);
                eq!("a >= str", a >= *y, x >= y);
                eq!("a == a", a == a, true);
                // parts of itself, which begin or end at the same place
                let own: &str = &a;
                for k in [1, own.len() / 2, own.len().saturating_sub(1)] {
                    if own.is_char_boundary(k) {
                        for part in [&own[..k], &own[k..]] {
                            eq!("a == part of a", a == part, x == part);
                            eq!("a == *part of a", a == *part, x == part);
                            eq!("a.partial_cmp(part of a)", a.partial_cmp(part), Some(x.cmp(part)));
                        }
                    }
                }
                eq!("a.cmp(a)", a.cmp(&a), std::cmp::Ordering::Equal);
                eq!("a.max(b)", std::cmp::max(&a, &b).to_string(), std::cmp::max(x, y).to_string());
                #[cfg(feature = "alloc")]
                {
                    eq!("Ord::max", &*a.clone().max(b.clone()), x.max(y));
                    eq!("Ord::min", &*a.clone().min(b.clone()), x.min(y));
                    let mut list = [a.clone(), b.clone(), a.clone(), nominals::NominalString::new()];
                    list.sort();
                    eq!("sorted", list.iter().map(|s| &**s).collect::<Vec<_>>(), { let mut l = [x, y, x, ""]; l.sort(); l });
                    let owned = y.to_string();
                    eq!("a == String", a == owned, same);
                    eq!("a != String", a != owned, !same);
                    eq!("a.partial_cmp(String)", a.partial_cmp(&owned), Some(ord));
                    eq!("a < String", a < owned, x < y);
                    eq!("a <= String", a <= owned, x <= y);
                    eq!("a > String", a > owned, x > y);
                    eq!("a >= String", a >= owned, x >= y);
                }
                Ok(())
            });
            let subject = || format!("a = {} ({ra}), b = {} ({rb})", clip(x), clip(y));
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => cx.violate("text", &subject(), 0, e, "the comparison of the texts"),
                Err(p) => cx.violate("panic", &subject(), 0, p, "the comparison of the texts"),
            }
        }
    }
    cx.hit(
        match ord {
            std::cmp::Ordering::Less => "pairs less",
            std::cmp::Ordering::Equal => "pairs equal",
            std::cmp::Ordering::Greater => "pairs greater",
        },
        1,
    );
}

struct Full(String, usize);
impl std::fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.1 {
            return Err(std::fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}

fn display_all(cx: &mut Ctx, x: &str) {
    for (ra, a) in reps(x) {
        cx.evals += 1;
        crumb("display", 97, 0);
        let (r, _) = observe(|| -> Result<(), String> {
            macro_rules! f {
                ($($spec:literal),*) => {$(
                    let (got, want) = (format!($spec, a), format!($spec, x));
                    if got != want {
                        return Err(format!("format!({:?}) prints {got:?}, expected {want:?}", $spec));
                    }
                )*};
            }
            f!("{}", "{:10}", "{:>10}", "{:^11}", "{:<9}|", "{:*^17}", "{:0>4}", "{:.0}", "{:.3}", "{:8.2}", "{:零>7.4}", "{:>80}", "{:.61}", "{:.62}", "{:.63}", "{:-<70.5}", "{:😀^9.1}", "{:#}", "{:+}", "{:08}", "{:+#012.3}", "{:300}", "{:^300.200}");
            // into a writer that runs full
            for room in [0usize, 1, x.len() / 2, x.len()] {
                let mut full = [Full(String::new(), room), Full(String::new(), room)];
                let got = std::fmt::write(&mut full[0], format_args!("{a:>5}")).is_ok();
                let want = std::fmt::write(&mut full[1], format_args!("{x:>5}")).is_ok();
                if got != want || full[0].0 != full[1].0 {
                    return Err(format!("into a writer for {room} bytes: {got} {:?}, expected {want} {:?}", full[0].0, full[1].0));
                }
            }
            for w in [0usize, 1, 5, 61, 62, 63, 64, 100] {
                for p in [0usize, 1, 7, 62, 63] {
                    let (got, want) = (format!("{a:w$.p$}"), format!("{x:w$.p$}"));
                    if got != want {
                        return Err(format!("format!(\"{{:{w}.{p}}}\") prints {got:?}, expected {want:?}"));
                    }
                    let (got, want) = (format!("{a:_>w$}"), format!("{x:_>w$}"));
                    if got != want {
                        return Err(format!("format!(\"{{:_>{w}}}\") prints {got:?}, expected {want:?}"));
                    }
                }
            }
            if a.to_string() != x {
                return Err(format!("to_string gives {:?}", a.to_string()));
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => cx.hit("displayed strings", 1),
            Ok(Err(e)) => cx.violate("text", &format!("{} ({ra})", clip(x)), 0, e, "what the text prints"),
            Err(p) => cx.violate("panic", &format!("{} ({ra})", clip(x)), 0, p, "what the text prints"),
        }
    }
}

fn related_texts(r: &mut Rng) -> (String, String) {
    let n = match r.below(6) {
        0 => r.idx(5),
        1 => 58 + r.idx(10),
        2 => r.idx(600),
        _ => r.idx(64),
    };
    let a = any_text(r, n);
    let b = match r.below(7) {
        0 | 1 => a.clone(),
        2 => {
            // a prefix
            let k = a.chars().count();
            a.chars().take(r.idx(k + 1)).collect()
        }
        3 => {
            let m = r.idx(70);
            format!("{a}{}", any_text(r, m))
        }
        4 => {
            // one character changed
            let k = a.chars().count();
            let at = r.idx(k.max(1));
            let c = any_char(r);
            a.chars().enumerate().map(|(i, x)| if i == at { c } else { x }).collect()
        }
        5 => a.chars().rev().collect(),
        _ => {
            let m = r.idx(130);
            any_text(r, m)
        }
    };
    if r.chance(1, 2) {
        (a, b)
    } else {
        (b, a)
    }
}

// ---- C09 -----------------------------------------------------------------

fn laws<T: Num>(cx: &mut Ctx, s: &Sys, plain: &Sys) {
    for v in default_plan(cx, T::W, s) {
        if cx.stop() {
            return;
        }
        arm(s, 4000);
        let (a, _) = call::<T>(cx, s, v);
        arm(plain, 4000);
        let (b, _) = call::<T>(cx, plain, v);
        tally(cx, &a);
        match (&a, &b) {
            (Ok(x), Ok(y)) if same(x, y) => {}
            (Err(_), Err(_)) => {}
            _ => {
                let f = |o: &Result<Out, String>| o.as_ref().map_or_else(Clone::clone, show);
                broke::<T>(cx, "text", s, v, f(&a), format!("{} (a plain collection with the same digits)", f(&b)));
            }
        }
    }
}

fn check_probe(cx: &mut Ctx, s: &Sys) {
    let (Some(p), Some(spec)) = (&s.probe, &s.spec) else { return };
    cx.evals += 1;
    cx.hit("collections whose digits were read", 1);
    arm_queries(u64::MAX);
    let (r, _) = observe(|| p());
    let bad = queries().1;
    if let Some((i, n)) = bad {
        cx.violate("error", &format!("{}: {}", s.name, s.desc), 0, format!("asked a part for the digit at {i} of {n}"), "positions below the length");
    }
    match r {
        Err(e) => cx.violate("panic", &format!("{}: {}", s.name, s.desc), 0, e, spec.describe()),
        Ok(p) => {
            let ok = p.digits[..] == spec.digits[..]
                && p.is_empty == spec.digits.is_empty()
                && p.has_zero == spec.has_zero
                && (p.has_zero || p.zero_based == spec.zero_based)
                && p.fixed == spec.fixed;
            if !ok {
                let d: String = p.digits.iter().take(40).collect();
                let e: String = spec.digits.iter().take(40).collect();
                cx.violate(
                    "error",
                    &format!("{}: {}", s.name, s.desc),
                    0,
                    format!("N={} digits={d:?} zero={} zero_based={} fixed={} empty={}", p.digits.len(), p.has_zero, p.zero_based, p.fixed, p.is_empty),
                    format!("{} first digits={e:?}", spec.describe()),
                );
            }
        }
    }
}

// ---- C10 -----------------------------------------------------------------

fn script_symbols<T: Num>(cx: &mut Ctx, s: &Sys) {
    let Some(spec) = &s.spec else { return };
    let first = u128::from(spec.counts_from_one());
    let others: Vec<char> = spec.fallback.as_ref().map_or(Vec::new(), |f| f.digits.to_vec());
    for v in default_plan(cx, T::W, s) {
        if cx.stop() {
            return;
        }
        let (r, _) = call::<T>(cx, s, v);
        tally(cx, &r);
        let Ok(Ok(t)) = &r else {
            if !(v == 0 && first == 1) && (ALLOC || matches!(r, Err(_))) {
                broke::<T>(cx, "error", s, v, r.map_or_else(|e| e, |o| show(&o)), "a text".into());
            }
            continue;
        };
        let single = v.checked_sub(first).filter(|k| *k < spec.digits.len() as u128);
        if let Some(k) = single {
            let c = spec.digits[k as usize];
            if t.chars().ne([c]) {
                broke::<T>(cx, "text", s, v, clip(t), format!("{c:?}, symbol {k} of the script"));
            }
            continue;
        }
        let set: &[char] = if spec.fixed { &others } else { &spec.digits };
        if t.is_empty() || !t.chars().all(|c| set.contains(&c)) {
            broke::<T>(cx, "text", s, v, clip(t), "only symbols of the script".into());
        }
    }
}

// ---- Chinese -------------------------------------------------------------

/// The number the text denotes when zero marks are ignored.
fn zh_value(z: &Zh, t: &str) -> Option<u128> {
    let d = zh_digits(z.traditional, z.financial);
    let zero = d[0];
    if t.chars().eq([zero]) {
        return Some(0);
    }
    let stripped: String = t.chars().filter(|&c| c != zero).collect();
    z.read(&stripped)
}

fn zh_read<T: Num>(cx: &mut Ctx, z: &Zh, s: &Sys) {
    for v in default_plan(cx, T::W, s) {
        if cx.stop() {
            return;
        }
        let (r, _) = call::<T>(cx, s, v);
        tally(cx, &r);
        match &r {
            Ok(Ok(t)) => {
                let got = zh_value(z, t);
                if got != Some(v) {
                    broke::<T>(cx, "text", s, v, format!("{} reads as {got:?}", clip(t)), format!("text denoting {v}"));
                } else if v % 7919 == 3 {
                    cx.sample(|| format!("{} as {}: {v} -> {:?} reads back", s.name, T::W.name(), &**t));
                }
            }
            Ok(Err(Er::Oom(_))) if !ALLOC => {}
            Ok(Err(e)) => {
                if z.scale != Scale::Short || v < SHORT_LIMIT {
                    broke::<T>(cx, "error", s, v, format!("{e:?}"), "a text: the number is within the scale".into());
                }
            }
            Err(p) => broke::<T>(cx, "panic", s, v, p.clone(), "a text".into()),
        }
    }
}

fn zh_classes(z: &Zh, t: &str) -> String {
    let d = zh_digits(z.traditional, z.financial);
    t.chars()
        .map(|c| match d.iter().position(|&x| x == c) {
            Some(0) => 'Z',
            Some(1..=9) => 'D',
            Some(10) => 'T',
            _ => 'U',
        })
        .collect()
}

fn zh_marks<T: Num>(cx: &mut Ctx, z: &Zh, s: &Sys) {
    let mut buf = String::new();
    for v in default_plan(cx, T::W, s) {
        if cx.stop() {
            return;
        }
        let (r, _) = call::<T>(cx, s, v);
        tally(cx, &r);
        let Ok(Ok(t)) = &r else { continue };
        let got = zh_classes(z, t);
        let want = if zh_value(z, t) == Some(v) {
            // right number: its canonical form is unique
            buf.clear();
            z.exp(v, &mut buf);
            zh_classes(z, &buf)
        } else {
            String::new()
        };
        let bad = if got == "Z" {
            v != 0
        } else if !want.is_empty() {
            if want.contains('Z') {
                cx.hit("texts with zero marks", 1);
            }
            got != want
        } else {
            got.starts_with('Z') || got.ends_with('Z') || got.contains("ZZ")
        };
        let ten = {
            let mut prev = ' ';
            let mut bad = false;
            for (i, c) in got.chars().enumerate() {
                if c == 'T' && prev != 'D' && (z.formal || i > 0) {
                    bad = true;
                }
                prev = c;
            }
            let mut cs = t.chars();
            let d = zh_digits(z.traditional, z.financial);
            bad || (!z.formal && cs.next() == Some(d[1]) && cs.next() == Some(d[10]))
        };
        if bad || ten {
            broke::<T>(cx, "text", s, v, clip(t), if want.is_empty() { "canonical zero marks".into() } else { format!("{} (Z zero mark, D digit, T ten, U unit)", want) });
        }
    }
}

struct Quad {
    list: Vec<(Zh, Sys)>,
}

fn zh_map(from: &Zh, to: &Zh, t: &str) -> String {
    let (a, b) = (zh_digits(from.traditional, from.financial), zh_digits(to.traditional, to.financial));
    let (la, lb) = (zh_large(from.traditional), zh_large(to.traditional));
    let mut o: String = t
        .chars()
        .map(|c| {
            if let Some(i) = a.iter().position(|&x| x == c) {
                b[i]
            } else if let Some(i) = la.iter().position(|&x| x == c) {
                lb[i]
            } else {
                '\u{fffd}'
            }
        })
        .collect();
    if from.formal && !to.formal {
        let lead: String = [b[1], b[10]].iter().collect();
        if o.starts_with(&lead) {
            o.drain(..b[1].len_utf8());
        }
    }
    o
}

fn zh_variants<T: Num>(cx: &mut Ctx, q: &Quad, scale: Scale) {
    let of = |trad, formal, fin| {
        q.list
            .iter()
            .find(|(z, _)| z.traditional == trad && z.formal == formal && z.financial == fin && z.scale == scale)
            .unwrap()
    };
    let base = of(false, true, false);
    for v in default_plan(cx, T::W, &base.1) {
        if cx.stop() {
            return;
        }
        let (r, _) = call::<T>(cx, &base.1, v);
        for (z, s) in q.list.iter().filter(|(z, _)| z.scale == scale) {
            let (x, _) = call::<T>(cx, s, v);
            tally(cx, &x);
            let ok = match (&r, &x) {
                (Ok(Ok(a)), Ok(Ok(b))) => zh_map(&base.0, z, a) == **b,
                (Ok(Err(a)), Ok(Err(b))) => a == b,
                // the leading "one" of ten can make the difference between
                // fitting inline or not
                (Ok(Err(Er::Oom(_))), Ok(Ok(b))) => !ALLOC && !z.formal && b.len() + 3 > CAP,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            if !ok {
                let f = |o: &Result<Out, String>| o.as_ref().map_or_else(Clone::clone, show);
                let want = match &r {
                    Ok(Ok(a)) => zh_map(&base.0, z, a),
                    o => f(o),
                };
                broke::<T>(cx, "text", s, v, f(&x), format!("{} (from {})", clip(&want), base.1.name));
            }
        }
    }
}

fn zh_same<T: Num>(cx: &mut Ctx, a: &Sys, b: &Sys) {
    let mut vals = default_plan(cx, T::W, a);
    if cx.tier != Tier::Tiny {
        // enough to tell any two configurations apart
        vals.retain(|v| v % 16 < 3 || *v > 100_000);
    }
    for v in vals {
        if cx.stop() {
            return;
        }
        let (x, _) = call::<T>(cx, a, v);
        let (y, _) = call::<T>(cx, b, v);
        tally(cx, &x);
        let ok = match (&x, &y) {
            (Ok(x), Ok(y)) => same(x, y),
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !ok {
            let f = |o: &Result<Out, String>| o.as_ref().map_or_else(Clone::clone, show);
            broke::<T>(cx, "text", a, v, f(&x), format!("{} (what {} gives)", f(&y), b.name));
        }
    }
}

/// Every sequence of option calls up to some length: what it amounts to is
/// the last scale named, and financial digits if they were named at all.
fn zh_sequences<S: AllSys + Copy + Default>(cx: &mut Ctx, q: &Quad, trad: bool, formal: bool, calls: [(&str, fn(S) -> S); 4]) {
    let longest = match cx.tier {
        Tier::Tiny => 2,
        Tier::Quick => 5,
        Tier::Thorough => 7,
    };
    let mut vals: Vec<u128> = vec![0, 1, 7, 10, 110, 10_000, 12_345_678, 100_000_001, 10u128.pow(12) + 7, 10u128.pow(16) + 12_345, u128::MAX];
    for k in 0..if cx.tier == Tier::Tiny { 0 } else { 8 } {
        vals.push(value(&mut cx.rng, W::U128.max() >> (k * 13), 10));
    }
    let scales = [None, Some(Scale::Short), Some(Scale::Mid), Some(Scale::Long)];
    for len in 0..=longest {
        for code in 0..4usize.pow(len) {
            let (mut s, mut financial, mut scale, mut name) = (S::default(), false, Scale::Myriad, String::from("default()"));
            let mut c = code;
            for _ in 0..len {
                let i = c % 4;
                c /= 4;
                s = (calls[i].1)(s);
                name = name + "." + calls[i].0 + "()";
                match scales[i] {
                    None => financial = true,
                    Some(x) => scale = x,
                }
            }
            let want = Zh { traditional: trad, formal, financial, scale };
            let (_, of) = q.list.iter().find(|(z, _)| z.name() == want.name()).unwrap();
            cx.hit("sequences of option calls", 1);
            for &v in &vals {
                for w in [W::U8, W::U64, W::U128] {
                    if v > w.max() || cx.stop() {
                        continue;
                    }
                    crumb(&of.name, w as u32, v);
                    fn one<T: Num>(s: &dyn AllSys, v: u128) -> Out {
                        try_fmt::<T>(s, v)
                    }
                    let x = observe(|| on_width!(w, one(&s, v))).0;
                    let y = observe(|| on_width!(w, one(of.sys, v))).0;
                    cx.evals += 1;
                    tally(cx, &x);
                    let ok = match (&x, &y) {
                        (Ok(x), Ok(y)) => same(x, y),
                        (Err(_), Err(_)) => true,
                        _ => false,
                    };
                    if !ok {
                        let f = |o: &Result<Out, String>| o.as_ref().map_or_else(Clone::clone, show);
                        let subject = format!("{} {name} as {}", if trad { "traditional" } else { "simplified" }, w.name());
                        cx.violate("text", &subject, v, f(&x), format!("{} (what {} gives)", f(&y), of.name));
                    }
                }
            }
        }
    }
}

fn zh_total<T: Num>(cx: &mut Ctx, z: &Zh, s: &Sys, wide: &Sys) {
    for v in default_plan(cx, T::W, s) {
        if cx.stop() {
            return;
        }
        let (r, _) = call::<T>(cx, s, v);
        tally(cx, &r);
        let oob = z.scale == Scale::Short && v >= SHORT_LIMIT;
        let ok = match &r {
            Ok(Ok(_)) => !oob,
            Ok(Err(Er::Oob(n))) => oob && *n == v,
            Ok(Err(Er::Oom(_))) => !ALLOC && !oob,
            _ => false,
        };
        if !ok {
            broke::<T>(cx, "error", s, v, r.as_ref().map_or_else(Clone::clone, show), if oob { format!("OutOfBounds({v})") } else { "a text".into() });
        }
        if T::W != W::U128 {
            let (x, _) = call::<u128>(cx, wide, v);
            match (&r, &x) {
                (Ok(a), Ok(b)) if !same(a, b) => broke::<T>(cx, "text", s, v, show(a), format!("{} (as u128)", show(b))),
                _ => {}
            }
        }
    }
}

// ---- C13..C16 readers ----------------------------------------------------

fn reads(f: fn(&str) -> Option<u128>, v: u128, t: &str) -> Result<(), String> {
    match f(t) {
        Some(x) if x == v => Ok(()),
        x => Err(format!("{} reads as {x:?}", clip(t))),
    }
}

fn additive_value(v: u128, t: &str) -> Result<(), String> {
    // every system of C13 and C14 whose symbols are worth reading back
    let mut total = 0u128;
    let geo: Vec<char> = GEORGIAN.chars().collect();
    for c in t.chars() {
        let place = |i: usize| (i as u128 % 9 + 1) * 10u128.pow(i as u32 / 9);
        let u = c as u32;
        total += if (0x531..0x531 + 36).contains(&u) {
            place((u - 0x531) as usize)
        } else if (0x561..0x561 + 36).contains(&u) {
            place((u - 0x561) as usize)
        } else if let Some(i) = geo.iter().position(|&g| g == c) {
            place(i)
        } else {
            return Err(format!("{} contains {c:?}", clip(t)));
        };
    }
    if total == v {
        Ok(())
    } else {
        Err(format!("{} adds up to {total}", clip(t)))
    }
}

// ---- C22..C24 ------------------------------------------------------------

fn sampled<T: Num>(cx: &mut Ctx, s: &Sys, dense: u128, random: u64) -> Vec<u128> {
    let d = if cx.tier == Tier::Tiny { 4 } else { dense };
    let r = if cx.tier == Tier::Tiny { 5 } else { random };
    plan(cx, T::W, s.cap(), s, d, r)
}

fn each_infallible<T: Num>(cx: &mut Ctx, s: &Sys) {
    let k = if cx.tier == Tier::Thorough { 8 } else { 1 };
    let (d, r) = if s.builtin { (9_000 * k, 4_000 * k as u64) } else { (300 * k, 150 * k as u64) };
    for v in sampled::<T>(cx, s, d, r) {
        if cx.stop() {
            return;
        }
        infallible::<T>(cx, s, v);
    }
}

fn diff_widths(cx: &mut Ctx, s: &Sys) {
    let k = if cx.tier == Tier::Thorough { 6 } else { 1 };
    let (d, r) = match (cx.tier, s.builtin) {
        (Tier::Tiny, _) => (4, 6),
        (_, true) => (66_000, 6_000 * k),
        (_, false) => (900, 250 * k),
    };
    let mut vals = plan(cx, W::U128, s.cap(), s, d, r);
    // values of the narrower types as well
    for w in [W::U8, W::U16, W::U32, W::U64] {
        vals.extend(plan(cx, w, s.cap(), s, 0, r / 8));
    }
    vals.sort_unstable();
    vals.dedup();
    for v in vals {
        if cx.stop() {
            return;
        }
        arm(s, 4000);
        let (wide, _) = call::<u128>(cx, s, v);
        tally(cx, &wide);
        for w in WIDTHS {
            if w == W::U128 || v > w.max() {
                continue;
            }
            arm(s, 4000);
            on_width!(w, diff_one(cx, s, v, &wide));
        }
    }
}

fn diff_one<T: Num>(cx: &mut Ctx, s: &Sys, v: u128, wide: &Result<Out, String>) {
    let (r, _) = call::<T>(cx, s, v);
    let ok = match (&r, wide) {
        (Ok(Ok(a)), Ok(Ok(b))) => **a == **b,
        (Ok(Err(a)), Ok(Err(b))) => std::mem::discriminant(a) == std::mem::discriminant(b),
        (Err(_), Err(_)) => true,
        _ => false,
    };
    if !ok {
        let f = |o: &Result<Out, String>| o.as_ref().map_or_else(Clone::clone, show);
        broke::<T>(cx, "text", s, v, f(&r), format!("{} (as u128)", f(wide)));
    }
    cx.hit("narrow/wide comparisons", 1);
}

/// What every system asks of the integer it formats.
fn integers<T: Num>(cx: &mut Ctx) {
    use nominals::UnsignedInteger;
    let max = T::W.max();
    let mut vals: Vec<u128> = (0..=if cx.tier == Tier::Tiny { 300 } else { 70_000 }).collect();
    for k in 0..128 {
        vals.extend([1u128 << k, (1u128 << k) - 1, !(1u128 << k), u128::MAX << k]);
    }
    for _ in 0..scale(cx.tier, 20, 20_000, 500_000) {
        vals.push(value(&mut cx.rng, max, 10));
    }
    for v in vals {
        if v > max {
            continue;
        }
        let n = T::from128(v);
        cx.evals += 1;
        cx.plain += 1;
        if UnsignedInteger::is_zero(n) != (v == 0) {
            cx.violate("text", &format!("is_zero as {}", T::W.name()), v, (v != 0).to_string(), (v == 0).to_string());
        }
        if let Ok(u) = usize::try_from(v) {
            let got = UnsignedInteger::as_usize(n);
            if got != u {
                cx.violate("text", &format!("as_usize as {}", T::W.name()), v, got.to_string(), u.to_string());
            }
        }
        if cx.stop() {
            return;
        }
    }
}

fn pointers(cx: &mut Ctx, name: &str, via: &dyn Via, w: W, vals: &[u128], own: bool) {
    for &v in vals {
        if cx.stop() {
            return;
        }
        let mut base: Option<(Out, String)> = None;
        let mut all: Vec<(&'static str, Result<(Out, String), String>)> = Vec::new();
        crumb(name, w as u32, v);
        via.each(w, v, &mut |label, r| all.push((label, r)));
        for (label, r) in all {
            cx.evals += 1;
            cx.hit("calls through a pointer or trait object", 1);
            match r {
                Err(p) => cx.violate("panic", &format!("{name} as {} through {label}", w.name()), v, p, "the same result every way"),
                Ok(x) => match &base {
                    None => {
                        if own && x.1 != format!("own:{v}") {
                            cx.violate("text", &format!("{name} as {} through {label}", w.name()), v, x.1.clone(), format!("own:{v}"));
                        }
                        base = Some(x);
                    }
                    Some(b) => {
                        if !same(&b.0, &x.0) || b.1 != x.1 {
                            cx.violate(
                                "text",
                                &format!("{name} as {} through {label}", w.name()),
                                v,
                                format!("{} / {}", show(&x.0), clip(&x.1)),
                                format!("{} / {} (direct)", show(&b.0), clip(&b.1)),
                            );
                        }
                    }
                },
            }
        }
        cx.plain += 1;
        if let Some((o, t)) = base {
            cx.sample(|| format!("{name} as {}: {v} -> {} / {} every way", w.name(), show(&o), clip(&t)));
        }
    }
}

/// A system behind a reference, so that every system can go in a pointer.
#[derive(Clone, Copy)]
pub struct Fwd(pub &'static dyn AllSys);

impl<T: Num> nominals::NominalSystem<T> for Fwd {
    fn format_nominal(&self, n: T) -> nominals::NominalString {
        T::dynamic(self.0).format_nominal(n)
    }
    fn try_format_nominal(&self, n: T) -> Result<nominals::NominalString, nominals::Error<T>> {
        T::dynamic(self.0).try_format_nominal(n)
    }
}

// ---- C25 -----------------------------------------------------------------

fn unique<T: Num>(cx: &mut Ctx, s: &Sys) {
    let vals = {
        let k = if cx.tier == Tier::Thorough { 5 } else { 1 };
        let (d, r) = match (cx.tier, s.builtin) {
            (Tier::Tiny, _) => (6, 6),
            (_, true) => (120_000 * u128::from(k), 30_000 * k),
            (_, false) => (4_000 * u128::from(k), 1_500 * k),
        };
        let mut vals = plan(cx, T::W, s.cap(), s, d, r);
        // a text that is wrong in one place is that of a number close by, in
        // the base's terms: the numbers one step away in any one place, or
        // with two places exchanged
        let max = T::W.max().min(s.cap());
        let from = vals.partition_point(|v| *v <= d);
        let few = match (cx.tier, s.builtin) {
            (Tier::Tiny, _) => 0,
            (_, true) => 2_000 * k,
            (_, false) => 120 * k,
        };
        let mut near = Vec::new();
        if from < vals.len() {
            for _ in 0..few {
                let v = vals[from + cx.rng.idx(vals.len() - from)];
                for base in [s.base, 10] {
                    let mut p = 1u128;
                    while p <= v {
                        near.extend([v.checked_add(p), v.checked_sub(p)].into_iter().flatten());
                        let Some(q) = p.checked_mul(base.max(2)) else { break };
                        let (lo, hi) = (v / p % base.max(2), v / q % base.max(2));
                        near.extend((v - lo * p - hi * q).checked_add(hi * p).and_then(|x| x.checked_add(lo.checked_mul(q)?)));
                        p = q;
                    }
                    if s.base == 10 {
                        break;
                    }
                }
            }
        }
        cx.hit("numbers one place away from another", near.len() as u64);
        vals.extend(near.into_iter().filter(|v| *v <= max && s.fits(*v)));
        vals.sort_unstable();
        vals.dedup();
        vals
    };
    let mut log: Vec<(u64, u128)> = Vec::with_capacity(vals.len());
    for v in vals {
        if cx.stop() {
            return;
        }
        arm(s, 4000);
        let (r, _) = call::<T>(cx, s, v);
        tally(cx, &r);
        if let Ok(Ok(t)) = &r {
            log.push((hash(&**t), v));
        }
    }
    cx.hit("logged texts", log.len() as u64);
    log.sort_unstable();
    for p in log.windows(2) {
        if p[0].0 == p[1].0 && p[0].1 != p[1].1 {
            let (a, _) = call::<T>(cx, s, p[0].1);
            let (b, _) = call::<T>(cx, s, p[1].1);
            if let (Ok(Ok(a)), Ok(Ok(b))) = (a, b) {
                if *a == *b {
                    broke::<T>(cx, "text", s, p[1].1, format!("{} for both {} and {}", clip(&a), p[0].1, p[1].1), "different texts".into());
                }
            }
        }
    }
}

// ---- C26 -----------------------------------------------------------------

pub fn purity(total: &mut Ctx, systems: &[Sys], threads: usize, per: usize, rounds: usize) {
    use std::sync::mpsc::channel;
    // baseline: every call made once, alone, in order
    let mut cases: Vec<(usize, W, u128)> = Vec::new();
    let mut rng = Rng::new(total.seed, 0xC26);
    for (i, s) in systems.iter().enumerate() {
        for w in WIDTHS {
            for k in 0..per {
                let max = w.max().min(s.cap().min(s.cap / 4));
                let v = if k < 3 { (k as u128).min(max) } else { value(&mut rng, max, s.base) };
                // and a number that equals it in the low bits
                let alias = v ^ (1u128 << *rng.pick(&[8u32, 16, 32, 63, 64, 65, 127]));
                for v in [v, alias] {
                    if v <= max && s.fits_heap(v) && (v != alias || k % 4 == 3) {
                        cases.push((i, w, v));
                    }
                }
            }
        }
    }
    cases.sort_unstable();
    cases.dedup();
    let run_one = |c: &(usize, W, u128)| -> Result<Out, String> {
        crumb(&systems[c.0].name, c.1 as u32, c.2);
        observe(|| on_width!(c.1, try_fmt(systems[c.0].sys, c.2))).0
    };
    let infallible = |c: &(usize, W, u128)| -> String {
        fn f<T: Num>(s: &dyn AllSys, v: u128) -> String {
            T::entry(s).system(T::from128(v)).to_string()
        }
        observe(|| on_width!(c.1, f(systems[c.0].sys, c.2))).0.unwrap_or_else(|e| e)
    };
    type Base = (Option<Result<String, Er>>, String);
    let flat = |r: &Result<Out, String>| -> Option<Result<String, Er>> { r.as_ref().ok().map(|o| o.as_ref().map(|t| String::from(&**t)).map_err(|e| *e)) };
    // The very first use of every system, by all threads at the same moment.
    let first: Vec<usize> = (0..cases.len()).filter(|i| *i == 0 || cases[*i].0 != cases[i - 1].0 || cases[*i].1 != cases[i - 1].1 || i % 9 == 0).collect();
    let gate = std::sync::Barrier::new(threads);
    let cold: Vec<Vec<Option<Result<String, Er>>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (gate, first, cases, run_one) = (&gate, &first, &cases, &run_one);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        crate::mon::register_thread();
                        let mut out = Vec::with_capacity(first.len());
                        let mut last = usize::MAX;
                        for &i in first {
                            if cases[i].0 != last {
                                last = cases[i].0;
                                gate.wait();
                            }
                            out.push(flat(&run_one(&cases[i])));
                        }
                        crate::mon::unregister_thread();
                        out
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    total.hit("first uses made by all threads at once", first.len() as u64);
    let base: Vec<Base> = cases.iter().map(|c| (flat(&run_one(c)), infallible(c))).collect();
    for (t, c) in cold.iter().enumerate() {
        total.evals += c.len() as u64;
        for (k, r) in c.iter().enumerate() {
            let i = first[k];
            if *r != base[i].0 {
                let c = &cases[i];
                total.violate(
                    "text",
                    &format!("{} as {} on thread {t}, first used by {threads} threads at once", systems[c.0].name, c.1.name()),
                    c.2,
                    format!("{r:?}"),
                    format!("{:?} (alone, later)", base[i].0),
                );
            }
        }
    }
    total.evals += base.len() as u64;
    total.plain += cases.len() as u64;
    let base = &base;
    let cases = &cases;
    let flat = &flat;
    let (tx, rx): (Vec<_>, Vec<_>) = (0..threads).map(|_| channel::<(usize, nominals::NominalString)>()).unzip();
    let start = Arc::new(std::sync::Barrier::new(threads));
    let mut results = Vec::new();
    std::thread::scope(|sc| {
        let mut hs = Vec::new();
        for (t, inbox) in rx.into_iter().enumerate() {
            let tx = tx.clone();
            let start = start.clone();
            let (seed, tier, kinds) = (total.seed, total.tier, total.kinds);
            let (run_one, infallible) = (&run_one, &infallible);
            hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                crate::mon::register_thread();
                let mut cx = Ctx::new(seed, 0xC26_00 + t as u64, tier, kinds);
                start.wait();
                let check_text = |cx: &mut Ctx, i: usize, s: &nominals::NominalString, how: &str| {
                    let ok = matches!(&base[i].0, Some(Ok(t)) if **t == **s);
                    if !ok {
                        let c = &cases[i];
                        cx.violate("text", &format!("{} as {} {how}", systems[c.0].name, c.1.name()), c.2, clip(s), format!("{:?}", base[i].0));
                    }
                };
                for round in 0..rounds {
                    // a different order in every thread and round: anything, a
                    // stretch of similar calls, or a few calls of one system
                    let hot = cx.rng.idx(cases.len());
                    let style = round % 3;
                    let n = cases.len() / if style == 0 { 1 } else { 4 };
                    // the cases of one system
                    let mut few = [0usize; 3];
                    for k in 0..n {
                        if cx.stop() {
                            break;
                        }
                        if style == 2 && k % 60 == 0 {
                            let c = cases[cx.rng.idx(cases.len())].0;
                            let lo = cases.partition_point(|x| x.0 < c);
                            let hi = cases.partition_point(|x| x.0 <= c);
                            few = [0; 3].map(|_| lo + cx.rng.idx(hi - lo));
                            cx.hit("systems hammered with a few numbers", 1);
                        }
                        let i = match style {
                            0 => cx.rng.idx(cases.len()),
                            1 => (hot / 64 * 64 + k % 64).min(cases.len() - 1),
                            _ => few[cx.rng.idx(3)],
                        };
                        let r = run_one(&cases[i]);
                        cx.evals += 1;
                        let got = flat(&r);
                        if got != base[i].0 {
                            let c = &cases[i];
                            cx.violate(
                                "text",
                                &format!("{} as {} on thread {t}", systems[c.0].name, c.1.name()),
                                c.2,
                                format!("{got:?}"),
                                format!("{:?} (the first time, alone)", base[i].0),
                            );
                        }
                        if k % 5 == 0 {
                            let x = infallible(&cases[i]);
                            cx.evals += 1;
                            if x != base[i].1 {
                                let c = &cases[i];
                                cx.violate("text", &format!("{} as {} on thread {t}", systems[c.0].name, c.1.name()), c.2, clip(&x), clip(&base[i].1));
                            }
                        }
                        if let Ok(Ok(s)) = r {
                            if k % 3 == 0 {
                                let to = cx.rng.idx(tx.len());
                                if tx[to].send((i, s)).is_ok() {
                                    cx.hit("strings moved to another thread", 1);
                                }
                            }
                        }
                        while let Ok((i, s)) = inbox.try_recv() {
                            check_text(&mut cx, i, &s, "moved to another thread");
                            cx.hit("strings read and dropped by another thread", 1);
                        }
                    }
                }
                drop(tx);
                while let Ok((i, s)) = inbox.recv() {
                    check_text(&mut cx, i, &s, "moved to another thread");
                    cx.hit("strings read and dropped by another thread", 1);
                }
                crate::mon::unregister_thread();
                cx
            }).unwrap());
        }
        drop(tx);
        for h in hs {
            results.push(h.join());
        }
    });
    for r in results {
        match r {
            Ok(c) => total.merge(c),
            Err(_) => total.violate("panic", "worker thread", 0, "a worker died", "all finish"),
        }
    }
    // and once more, alone: nothing was left behind
    for (i, c) in cases.iter().enumerate() {
        let r = flat(&run_one(c));
        total.evals += 1;
        if r != base[i].0 {
            total.violate("text", &format!("{} as {} afterwards", systems[c.0].name, c.1.name()), c.2, format!("{r:?}"), format!("{:?}", base[i].0));
        }
    }
    // shared strings: many readers of one value
    let shared: Vec<(usize, nominals::NominalString)> = cases
        .iter()
        .enumerate()
        .step_by(97)
        .filter_map(|(i, c)| run_one(c).ok().and_then(Result::ok).map(|s| (i, s)))
        .collect();
    let shared = Arc::new(shared);
    let bad: u64 = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let shared = shared.clone();
                sc.spawn(move || {
                    shared
                        .iter()
                        .filter(|(i, s)| !matches!(&base[*i].0, Some(Ok(t)) if **t == **s && s.to_string() == *t))
                        .count() as u64
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(1)).sum()
    });
    total.hit("strings read by all threads at once", shared.len() as u64);
    if bad > 0 {
        total.violate("text", "strings shared by reference", 0, format!("{bad} reads differed"), "the text");
    }
    total.max("threads", threads as u64);
    total.hit("shared systems", systems.len() as u64);
}

/// One number again and again, alone, and two in turn: long streaks of equal
/// calls with nothing between them.
pub fn streaks(total: &mut Ctx, systems: &[Sys], numbers: usize, times: usize) {
    fn one<T: Num>(cx: &mut Ctx, s: &Sys, numbers: usize, times: usize) {
        let max = T::W.max().min(s.cap().min(s.cap / 4));
        let mut vals: Vec<u128> = (0..numbers as u128 / 2).filter(|v| *v <= max).collect();
        while vals.len() < numbers {
            vals.push(value(&mut cx.rng, max, s.base));
        }
        vals.retain(|v| s.fits_heap(*v));
        let mut before: Option<(u128, Out)> = None;
        for (k, v) in vals.iter().copied().enumerate() {
            if cx.stop() {
                return;
            }
            crumb(&s.name, T::W as u32, v);
            let (first, _) = observe(|| try_fmt::<T>(s.sys, v));
            let Ok(first) = first else { continue };
            let long = k % 40 == 39 && first.as_ref().map_or(0, |t| t.len()) < 100;
            let n = if long { times * 20 } else { times };
            for i in 0..n {
                let (again, _) = observe(|| try_fmt::<T>(s.sys, v));
                cx.evals += 1;
                if !again.as_ref().is_ok_and(|a| same(a, &first)) {
                    broke::<T>(cx, "text", s, v, format!("{}, the {}th time in a row", again.as_ref().map_or_else(Clone::clone, show), i + 2), format!("{}, as the first time", show(&first)));
                    break;
                }
            }
            // in turn with the number before
            if let Some((u, other)) = &before {
                for i in 0..times / 4 {
                    for (x, want) in [(*u, other), (v, &first)] {
                        let (again, _) = observe(|| try_fmt::<T>(s.sys, x));
                        cx.evals += 1;
                        if !again.as_ref().is_ok_and(|a| same(a, want)) {
                            broke::<T>(cx, "text", s, x, format!("{}, the {}th time in turn with {}", again.as_ref().map_or_else(Clone::clone, show), i + 2, u + v - x), format!("{}, as alone", show(want)));
                            return;
                        }
                    }
                }
            }
            cx.plain += 1;
            cx.hit("streaks of equal calls", 1);
            before = Some((v, first));
        }
    }
    for s in systems {
        let w = *total.rng.pick(&WIDTHS[1..]);
        on_width!(w, one(total, s, numbers, times));
    }
}

/// All threads format a handful of numbers of one system, over and over.
pub fn hammer(total: &mut Ctx, systems: &[Sys], threads: usize, millis: u64) {
    use std::time::{Duration, Instant};
    fn plain<T: Num>(s: &dyn AllSys, v: u128) -> Out {
        try_fmt::<T>(s, v)
    }
    let mut rng = Rng::new(total.seed, 0x4A33);
    for s in systems {
        if total.stop() {
            return;
        }
        let w = *rng.pick(&WIDTHS);
        let max = w.max().min(s.cap().min(s.cap / 4));
        let mut vals = vec![0u128, 1, 2, 3];
        let few = rng.chance(1, 2);
        for _ in 0..if few { 2 } else { 20 } {
            let v = value(&mut rng, max, s.base);
            vals.push(if rng.chance(1, 2) { v } else { v % (s.base.min(1 << 20) * 3 + 1) });
        }
        vals.retain(|v| *v <= max && s.fits(*v));
        if vals.is_empty() {
            continue;
        }
        arm_queries(u64::MAX);
        let alone: Vec<(u128, Result<String, Er>)> = vals
            .iter()
            .filter_map(|v| {
                crumb(&s.name, w as u32, *v);
                let r = observe(|| on_width!(w, plain(s.sys, *v))).0.ok()?;
                Some((*v, r.map(|t| String::from(&*t))))
            })
            .collect();
        if alone.is_empty() {
            continue;
        }
        let gate = std::sync::Barrier::new(threads);
        let (alone, gate) = (&alone, &gate);
        let seed = rng.next();
        let seen: Vec<(u64, Option<(u128, String, String)>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            let mut r = Rng::new(seed, t as u64);
                            gate.wait();
                            let end = Instant::now() + Duration::from_millis(millis);
                            let mut n = 0u64;
                            loop {
                                for _ in 0..64 {
                                    let x = r.next();
                                    // shifts the threads against each other
                                    for _ in 0..(x >> 60) * u64::from(x >> 40 & 7 == 0) {
                                        std::hint::spin_loop();
                                    }
                                    let (v, want) = &alone[(x as u32 as usize) % alone.len()];
                                    let got = observe(|| on_width!(w, plain(s.sys, *v))).0;
                                    n += 1;
                                    let same = match (&got, want) {
                                        (Ok(Ok(t)), Ok(u)) => **t == **u,
                                        (Ok(Err(e)), Err(f)) => e == f,
                                        _ => false,
                                    };
                                    if !same {
                                        let got = got.map_or_else(|p| p, |o| show(&o));
                                        return (n, Some((*v, got, format!("{want:?}"))));
                                    }
                                }
                                if Instant::now() > end {
                                    return (n, None);
                                }
                            }
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or((0, None))).collect()
        });
        for (n, bad) in seen {
            total.evals += n;
            total.hit("calls made while all threads used one system", n);
            if let Some((v, got, want)) = bad {
                total.violate("text", &format!("{} as {} while {threads} threads use it", s.name, w.name()), v, got, format!("{want} (alone)"));
            }
        }
        total.plain += alone.len() as u64;
    }
}

/// The first uses of the systems in the life of a process, by all threads at
/// the same moment. Exits with 1 when one of them saw something else than the
/// same call gives afterwards. Run in many short-lived processes.
pub fn cold_child(seed: u64, threads: usize) -> Result<(), String> {
    use std::sync::atomic::{AtomicUsize, Ordering};
    fn plain<T: Num>(s: &dyn AllSys, v: u128) -> Out {
        try_fmt::<T>(s, v)
    }
    let systems = builtins();
    let mut rng = Rng::new(seed, 0xC01D);
    let mut order: Vec<usize> = (0..systems.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, rng.idx(i + 1));
    }
    let w = *rng.pick(&WIDTHS);
    let cases: Vec<(&Sys, Vec<u128>)> = order
        .iter()
        .map(|i| {
            let s = &systems[*i];
            let max = w.max().min(s.cap().min(s.cap / 4));
            let same = rng.chance(1, 3);
            let mut v = value(&mut rng, max, s.base);
            let vals = (0..threads)
                .map(|_| {
                    if !same {
                        v = if rng.chance(1, 2) { value(&mut rng, max, s.base) } else { value(&mut rng, max.min(s.base.min(1 << 20) * 2), s.base) };
                    }
                    if s.fits(v) { v } else { 1 }
                })
                .collect();
            (s, vals)
        })
        .collect();
    let gates: Vec<AtomicUsize> = cases.iter().map(|_| AtomicUsize::new(0)).collect();
    let (cases, gates) = (&cases, &gates);
    let seen: Vec<Vec<Result<Out, String>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let mut jitter = Rng::new(seed, 0xC01D_00 + t as u64);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        cases
                            .iter()
                            .zip(gates)
                            .map(|((s, vals), gate)| {
                                let v = vals[t];
                                gate.fetch_add(1, Ordering::SeqCst);
                                let mut spins = 0u32;
                                while gate.load(Ordering::SeqCst) < threads {
                                    std::hint::spin_loop();
                                    spins += 1;
                                    if spins % 512 == 0 {
                                        std::thread::yield_now();
                                    }
                                }
                                for _ in 0..jitter.below(40) {
                                    std::hint::spin_loop();
                                }
                                observe(|| on_width!(w, plain(s.sys, v))).0
                            })
                            .collect()
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for (k, (s, vals)) in cases.iter().enumerate() {
        for t in 0..threads {
            let Some(got) = seen[t].get(k) else { return Err(format!("{}|{}|a worker died|all finish", s.name, vals[t])) };
            let now = observe(|| on_width!(w, plain(s.sys, vals[t]))).0;
            let flat = |r: &Result<Out, String>| match r {
                Ok(o) => show(o),
                Err(p) => p.clone(),
            };
            if flat(got) != flat(&now) {
                return Err(format!("{} as {}|{}|{}|{} (later, alone)", s.name, w.name(), vals[t], flat(got), flat(&now)));
            }
        }
    }
    Ok(())
}

#[cfg(not(miri))]
fn cold(total: &mut Ctx, processes: u64, threads: usize) {
    let exe = std::env::current_exe().unwrap();
    let most = std::time::Duration::from_secs(if total.tier == Tier::Thorough { 900 } else { 45 });
    let from = std::time::Instant::now();
    for i in 0..processes {
        // a busy machine: what was seen so far has to do
        if i > processes / 10 && from.elapsed() > most {
            break;
        }
        let seed = total.seed.wrapping_mul(1_000_003).wrapping_add(i);
        // few, as many as there are processors, or a crowd
        let threads = [threads, threads, threads, 2, threads, 3, threads, 4, threads, 40][(i % 10) as usize];
        let o = std::process::Command::new(&exe).args(["cold", &seed.to_string(), &threads.to_string()]).output();
        let o = match o {
            Ok(o) => o,
            Err(e) => {
                total.violate("harness", "cold start", i.into(), e.to_string(), "a process");
                return;
            }
        };
        total.hit("processes in which all threads used every system first", 1);
        total.evals += 8 * 80;
        total.plain += 1;
        match o.status.code() {
            Some(0) => {}
            Some(1) => {
                let t = String::from_utf8_lossy(&o.stdout).into_owned();
                let p: Vec<&str> = t.trim().splitn(4, '|').collect();
                let at = |i: usize| p.get(i).copied().unwrap_or("");
                total.violate("text", &format!("{}, first used by {threads} threads at once (vh cold {seed} {threads})", at(0)), at(1).parse().unwrap_or(0), at(2), at(3));
                if total.stop() {
                    return;
                }
            }
            _ => {
                let t = String::from_utf8_lossy(&o.stderr).into_owned();
                let kind = if o.status.code().is_none() { "panic" } else { "harness" };
                total.violate(kind, &format!("vh cold {seed} {threads}"), 0, format!("{:?}: {t}", o.status), "a result");
                return;
            }
        }
    }
}
#[cfg(miri)]
fn cold(_: &mut Ctx, _: u64, _: usize) {}

// ---- C04 -----------------------------------------------------------------

/// Outcome of one call, small enough to record for millions of calls.
fn digest(r: &Result<Out, String>) -> (u8, u64) {
    match r {
        Ok(Ok(t)) if t.len() <= CAP => (1, hash(&**t)),
        Ok(Ok(_)) => (2, 0),
        Ok(Err(Er::NoZero)) => (3, 0),
        Ok(Err(Er::Oob(n))) => (4, *n as u64),
        Ok(Err(Er::Oom(n))) => (5, *n as u64),
        Ok(Err(Er::Unknown)) => (6, 0),
        Err(_) => (7, 0),
    }
}

fn record<T: Num>(cx: &mut Ctx, s: &Sys, dir: &str) {
    use std::io::{Read, Write};
    let k = if cx.tier == Tier::Thorough { 10 } else { 1 };
    let (d, r) = if s.builtin { (20_000 * u128::from(k), 6_000 * k) } else { (600 * u128::from(k), 200 * k) };
    let vals = plan_all(cx, T::W, u128::MAX, s, d, r);
    let path = format!("{dir}/{:016x}", hash(&(s.name.as_str(), T::W.name())));
    if ALLOC {
        let mut out = Vec::with_capacity(vals.len() * 9);
        for v in vals {
            let d = if !s.fits_heap(v) {
                (2, 0)
            } else {
                arm(s, 4000);
                digest(&call::<T>(cx, s, v).0)
            };
            out.push(d.0);
            out.extend(d.1.to_le_bytes());
        }
        std::fs::File::create(&path).and_then(|mut f| f.write_all(&out)).unwrap();
        return;
    }
    let mut log = Vec::new();
    if std::fs::File::open(&path).and_then(|mut f| f.read_to_end(&mut log)).is_err() || log.len() != vals.len() * 9 {
        cx.hit("recordings that could not be used", 1);
        return;
    }
    for (v, e) in vals.into_iter().zip(log.chunks(9)) {
        if cx.stop() {
            return;
        }
        let (kind, h) = (e[0], u64::from_le_bytes(e[1..].try_into().unwrap()));
        arm(s, 4000);
        let (r, made) = call::<T>(cx, s, v);
        tally(cx, &r);
        if made != 0 && r.is_ok() {
            broke::<T>(cx, "heap", s, v, format!("{made} allocations"), "none".into());
        }
        let got = digest(&r);
        let ok = match kind {
            1 | 3 => got == (kind, h),
            2 => match &r {
                Ok(Err(Er::Oom(n))) => *n == v,
                // a number beyond what the heap build was asked for may also
                // be unreachable for its symbols
                Ok(Err(Er::Oob(n))) => *n == v && !s.fits_heap(v) && s.fam == Fam::Additive,
                _ => false,
            },
            4 => match &r {
                Ok(Err(Er::Oob(n))) => *n == v,
                Ok(Err(Er::Oom(n))) => *n == v && matches!(s.fam, Fam::Additive | Fam::Chinese),
                _ => false,
            },
            // broken with heap support already: another property
            _ => r.is_ok(),
        };
        if !ok {
            let want = match kind {
                1 => format!("the text of the build with heap support (at most {CAP} bytes)"),
                2 => format!("OutOfMemory({v}): the text is longer than {CAP} bytes"),
                3 => "NoZeroSymbol".into(),
                4 => format!("OutOfBounds({v})"),
                _ => "a result".into(),
            };
            let kind = if r.is_err() { "panic" } else { "differs" };
            broke::<T>(cx, kind, s, v, r.as_ref().map_or_else(Clone::clone, show), want);
        }
        // infallible formatting never panics either
        arm(s, 4000);
        let (r, made) = observe(|| {
            let t = T::entry(s.sys).system(T::from128(v));
            t.len()
        });
        cx.evals += 1;
        match r {
            Err(p) => broke::<T>(cx, "panic", s, v, format!("format_nominal: {p}"), "a text".into()),
            Ok(_) if made != 0 => broke::<T>(cx, "heap", s, v, format!("format_nominal: {made} allocations"), "none".into()),
            Ok(n) if n > CAP => broke::<T>(cx, "differs", s, v, format!("{n} bytes"), format!("at most {CAP}")),
            Ok(_) => {}
        }
    }
}

// ---- dispatch ------------------------------------------------------------

fn all_for_diff(seed: u64, tier: Tier, digits: u64, additive: u64, big: bool) -> Vec<Sys> {
    let mut v = builtins();
    v.extend(digit_sets(tier == Tier::Tiny));
    v.extend((0..digits).map(|i| nth_custom_digits(seed, i, None)));
    v.extend((0..additive).map(|i| nth_additive(seed, i).1));
    v.extend(enumerated_sets(seed, tier == Tier::Tiny, big).into_iter().map(|(_, s)| s));
    if tier == Tier::Tiny {
        v.retain(|s| s.base <= 300 && s.desc.len() < 3000);
    }
    v
}

fn histories(p: &mut Plan<'_>, tier: Tier, quick: u64, thorough: u64) {
    // systematic part
    let lens: Vec<usize> = match tier {
        Tier::Tiny => vec![0, 1, 30, 58, 59, 60, 61, 62],
        _ => (0..=66).collect(),
    };
    for chunk in lens.chunks(if tier == Tier::Tiny { 1 } else { 3 }) {
        let chunk = chunk.to_vec();
        p.add(format!("systematic histories from {}", chunk[0]), move |cx| {
            let pairs = cx.tier != Tier::Tiny;
            strs::systematic(cx, &chunk, pairs);
        });
    }
    let n = scale(tier, 40, quick, thorough);
    let parts = if tier == Tier::Tiny { 8 } else { 64 };
    for i in 0..parts {
        p.add(format!("random histories {i}"), move |cx| {
            for _ in 0..n / parts {
                if cx.stop() {
                    return;
                }
                let (start, ops) = strs::random_history(&mut cx.rng, cx.tier != Tier::Tiny);
                cx.set.insert(strs::history_key(&start, &ops));
                if ops.len() < 8 {
                    cx.sample(|| format!("{start:?} {ops:?}").chars().take(300).collect());
                }
                strs::run(cx, &start, &ops);
            }
        });
    }
}

pub struct Opts {
    pub threads: usize,
    pub dir: String,
    pub part: String,
}

/// Lists that live as long as the program, so that units can borrow them.
fn keep<T: 'static>(v: Vec<T>) -> &'static [T] {
    Box::leak(v.into_boxed_slice())
}

pub fn run(id: &str, total: &mut Ctx, o: &Opts) {
    let tier = total.tier;
    let seed = total.seed;
    let mut p = Plan { units: Vec::new() };
    macro_rules! go {
        () => {
            run_units(std::mem::take(&mut p.units), total, o.threads)
        };
    }
    if matches!(id, "C06" | "C07" | "C08" | "C09" | "C22" | "C23" | "C27") {
        for i in 0..8 {
            let id = id.to_string();
            p.add(format!("computed digits {i}"), move |cx| crate::huge::unit(cx, &id, i, 8));
        }
    }
    match id {
        "C01" => {
            histories(&mut p, tier, 200_000, 4_000_000);
            go!();
        }
        "C02" => {
            let part = o.part.as_str();
            if part.is_empty() || part.contains("strings") {
                histories(&mut p, tier, 60_000, 1_000_000);
            }
            if part.is_empty() || part.contains("systems") {
                let systems = keep(drop_if_tiny(all_for_diff(seed, tier, scale(tier, 12, 60, 300), scale(tier, 8, 40, 200), tier != Tier::Tiny), tier));
                for (i, s) in systems.iter().enumerate() {
                    let ws: Vec<W> = if tier == Tier::Tiny { vec![WIDTHS[i % 6], W::U128] } else { WIDTHS.to_vec() };
                    for w in ws {
                        p.add(format!("touch {} {}", s.name, w.name()), move |cx| on_width!(w, touch(cx, s)));
                    }
                }
            }
            if part.is_empty() || part.contains("hostile") {
                for i in 0..scale(tier, 4, 16, 64) {
                    p.add(format!("collections that break their contract {i}"), move |cx| {
                        crate::hostile::unit(cx, scale(cx.tier, 60, 12_000, 60_000));
                    });
                }
            }
            if part.is_empty() || part.contains("compare") {
                p.add("compare and display".into(), move |cx| {
                    for _ in 0..scale(cx.tier, 6, 2_000, 40_000) {
                        let (a, b) = related_texts(&mut cx.rng);
                        compare_pair(cx, &a, &b);
                    }
                    for _ in 0..scale(cx.tier, 2, 300, 4_000) {
                        let (a, _) = related_texts(&mut cx.rng);
                        display_all(cx, &a);
                    }
                });
            }
            if part.contains("threads") {
                let few: Vec<Sys> = drop_if_tiny(builtins(), tier).into_iter().step_by(4).collect();
                purity(total, &few, 3, 4, 1);
            }
            go!();
        }
        "C03" => {
            histories(&mut p, tier, 60_000, 1_500_000);
            p.add("start values".into(), strs::start_storage);
            let systems = keep(all_for_diff(seed, tier, scale(tier, 6, 200, 1500), scale(tier, 6, 200, 1500), tier != Tier::Tiny));
            for s in systems {
                for w in WIDTHS {
                    p.add(format!("storage {} {}", s.name, w.name()), move |cx| on_width!(w, each_storage(cx, s)));
                }
            }
            go!();
        }
        "C04" => {
            if !ALLOC {
                histories(&mut p, tier, 100_000, 2_000_000);
            }
            let systems = keep(all_for_diff(seed, tier, scale(tier, 6, 300, 2000), scale(tier, 6, 300, 2000), tier != Tier::Tiny));
            for s in systems {
                for w in WIDTHS {
                    let dir = &o.dir;
                    p.add(format!("record {} {}", s.name, w.name()), move |cx| on_width!(w, record(cx, s, dir)));
                }
            }
            go!();
        }
        "C05" => {
            for i in 0..32u64 {
                p.add(format!("compare {i}"), move |cx| {
                    for _ in 0..scale(cx.tier, 4, 8_000, 60_000) {
                        if cx.stop() {
                            return;
                        }
                        let (a, b) = related_texts(&mut cx.rng);
                        if cx.distinct(&(&a, &b)) {
                            compare_pair(cx, &a, &b);
                            cx.sample(|| format!("compared {} with {}", clip(&a), clip(&b)));
                        }
                    }
                });
                p.add(format!("display {i}"), move |cx| {
                    for n in 0..scale(cx.tier, 2, 1_000, 6_000) {
                        if cx.stop() {
                            return;
                        }
                        let (mut a, _) = related_texts(&mut cx.rng);
                        if n < 70 && i == 0 {
                            a = any_text(&mut cx.rng, n as usize);
                        }
                        if cx.distinct(&a) {
                            display_all(cx, &a);
                        }
                    }
                });
            }
            p.add("all short pairs".into(), |cx| {
                // every pair of short texts over characters of every length
                let cs = ["", "a", "b", "aa", "ab", "é", "aé", "零", "零a", "😀", "a😀", "\u{10ffff}"];
                for a in cs {
                    for b in cs {
                        cx.distinct(&(a, b));
                        compare_pair(cx, a, b);
                    }
                }
            });
            go!();
        }
        "C06" | "C07" | "C08" => {
            let fam = match id {
                "C06" => Fam::Positional,
                "C07" => Fam::Alphabetic,
                _ => Fam::Fixed,
            };
            let mut systems: Vec<Sys> = digit_builtins().into_iter().filter(|s| s.fam == fam).collect();
            // N >= 1 symbols (alphabetic), N >= 2 digits (positional)
            let least = if id == "C06" { 2 } else { 1 };
            systems.extend(digit_sets(tier == Tier::Tiny).into_iter().filter(|s| s.fam == fam && s.spec.as_ref().unwrap().digits.len() >= least));
            let systems = keep(drop_if_tiny(systems, tier));
            model_units(&mut p, systems, no_extra);
            custom_digit_units(&mut p, tier, Some(fam), 600, 6_000);
            if fam == Fam::Alphabetic && ALLOC && tier != Tier::Tiny {
                for s in systems.iter().filter(|s| s.spec.as_ref().unwrap().digits.len() == 1) {
                    p.add(format!("repeats {}", s.name), move |cx| repeats(cx, s, 1));
                }
            }
            go!();
        }
        "C09" => {
            let n = scale(tier, 6, 900, 9_000);
            for c in 0..60u64 {
                p.add(format!("combinations {c}"), move |cx| {
                    let mut k = c;
                    while k < n {
                        if cx.stop() {
                            return;
                        }
                        let s = nth_custom_digits(cx.seed, k, None);
                        k += 60;
                        if cx.tier == Tier::Tiny && s.base > 2000 {
                            continue;
                        }
                        cx.hit("combinations", 1);
                        check_probe(cx, &s);
                        let spec = s.spec.clone().unwrap();
                        let fb = FALLBACKS.iter().copied().find(|f| fb_spec(*f).map(|x| x.describe()) == spec.fallback.as_ref().map(|x| x.describe()));
                        let Some(fb) = fb else { continue };
                        let plain = custom_digits(format!("plain of {}", s.name), 0, fb, &spec, &spec, 0, 0);
                        for w in WIDTHS {
                            on_width!(w, laws(cx, &s, &plain));
                        }
                        cx.sample(|| s.desc.clone());
                    }
                });
            }
            let built = keep(digit_builtins());
            let sets = keep(drop_if_tiny(digit_sets(tier == Tier::Tiny), tier));
            for s in built.iter().chain(sets) {
                p.add(format!("probe {}", s.name), move |cx| {
                    check_probe(cx, s);
                    let spec = s.spec.clone().unwrap();
                    let dec = spec.fallback.is_some();
                    let plain = custom_digits(format!("plain of {}", s.name), 0, Fb::None, &spec, &spec, 0, 0);
                    if !dec {
                        for w in WIDTHS {
                            on_width!(w, laws(cx, s, &plain));
                        }
                    }
                });
            }
            // restricting and counting from one keeps the documented fixed sets
            let stems = keep(fixed_combinations());
            for s in stems {
                p.add(format!("probe {}", s.name), move |cx| {
                    check_probe(cx, s);
                    for w in WIDTHS {
                        on_width!(w, sweep(cx, s, &no_extra));
                    }
                });
            }
            go!();
        }
        "C10" => {
            let systems = keep(digit_builtins());
            for s in systems {
                p.add(format!("probe {}", s.name), move |cx| check_probe(cx, s));
                for w in WIDTHS {
                    p.add(format!("symbols {} {}", s.name, w.name()), move |cx| on_width!(w, script_symbols(cx, s)));
                }
            }
            for (a, b) in [("Urdu", "Persian"), ("Khmer", "Cambodian")] {
                let f = |n: &str| systems.iter().find(|s| s.name == n).unwrap();
                let (a, b) = (f(a), f(b));
                p.add(format!("alias {}", a.name), move |cx| {
                    for w in WIDTHS {
                        on_width!(w, zh_same(cx, a, b));
                    }
                });
            }
            go!();
        }
        "C11" => {
            let n = scale(tier, 10, 1_500, 15_000);
            for c in 0..60u64 {
                p.add(format!("additive sets {c}"), move |cx| {
                    let mut k = c;
                    while k < n {
                        let blank = (k / 60) % 6 == 4;
                        let (spec, s) = if blank { nth_blank_additive(cx.seed, k) } else { nth_additive(cx.seed, k) };
                        k += 60;
                        cx.hit(if blank { "additive sets with an empty symbol" } else { "additive sets" }, 1);
                        cx.sample(|| s.desc.chars().take(200).collect());
                        for w in WIDTHS {
                            if cx.stop() {
                                return;
                            }
                            on_width!(w, additive_sweep(cx, &s, &spec));
                        }
                    }
                });
            }
            if ALLOC && tier != Tier::Tiny {
                for i in 0..scale(tier, 0, 24, 90) {
                    p.add(format!("repeats {i}"), move |cx| {
                        let (spec, s) = nth_few_additive(cx.seed, i);
                        repeats(cx, &s, spec.syms[0].1);
                    });
                }
            }
            p.add("order of values".into(), |cx| {
                for _ in 0..scale(cx.tier, 30, 20_000, 200_000) {
                    let n = *cx.rng.pick(&ADDITIVE_SIZES);
                    let mut v: Vec<u128> = (0..n)
                        .map(|_| match cx.rng.below(4) {
                            0 => u128::from(cx.rng.below(4)),
                            1 => cx.rng.u128(),
                            2 => (1u128 << 64) * u128::from(cx.rng.below(3)) + u128::from(cx.rng.below(3)),
                            _ => u128::from(cx.rng.below(1000)),
                        })
                        .collect();
                    if cx.rng.chance(3, 4) {
                        v.sort_unstable_by(|a, b| b.cmp(a));
                        if cx.rng.chance(2, 3) {
                            // make it strict without changing the length
                            for i in (0..n.saturating_sub(1)).rev() {
                                if v[i] <= v[i + 1] {
                                    v[i] = v[i + 1].saturating_add(1);
                                }
                            }
                        }
                        if n > 1 && cx.rng.chance(1, 4) {
                            let i = cx.rng.idx(n - 1);
                            if cx.rng.chance(1, 2) {
                                v[i + 1] = v[i];
                            } else {
                                v.swap(i, i + 1);
                            }
                        }
                    }
                    let strict = v.windows(2).all(|w| w[0] > w[1]);
                    let panics = additive_new_panics(&v);
                    cx.evals += 1;
                    cx.distinct(&v);
                    cx.hit(if strict { "strictly descending value lists" } else { "other value lists" }, 1);
                    if panics == strict {
                        cx.violate("panic", &format!("AdditiveSet::new with values {v:?}"), 0, format!("panicked: {panics}"), format!("panics: {}", !strict));
                    }
                }
            });
            go!();
        }
        "C12" | "C13" | "C14" | "C15" | "C16" => {
            let (fam, extra): (Fam, Extra) = match id {
                "C12" => (Fam::Roman, |v, t| reads(read_roman, v, t)),
                "C13" => (Fam::ArmGeo, additive_value),
                "C14" => (Fam::Cjk, no_extra),
                "C15" => (Fam::Hebrew, |v, t| reads(read_hebrew, v, t)),
                _ => (Fam::Ethiopic, |v, t| reads(read_ethiopic, v, t)),
            };
            let systems = keep(other_builtins().into_iter().filter(|s| s.fam == fam).collect());
            model_units(&mut p, systems, extra);
            if ALLOC && tier != Tier::Tiny {
                // a few very large ones, far beyond the bulk limit
                for s in systems {
                    p.add(format!("large {}", s.name), move |cx| large(cx, s));
                    let top = match s.fam {
                        Fam::Roman => 1_000_000,
                        Fam::Hebrew => 400,
                        Fam::Ethiopic => continue,
                        _ => if s.name.starts_with("Georgian") { 10_000 } else { 9_000 },
                    };
                    p.add(format!("repeats {}", s.name), move |cx| repeats(cx, s, top));
                }
            }
            if tier != Tier::Tiny && fam != Fam::Ethiopic {
                // every residue below the first large symbol, at a few heights
                for s in systems {
                    p.add(format!("residues {}", s.name), move |cx| residues(cx, s));
                }
            }
            go!();
        }
        "C17" | "C18" | "C20" => {
            let list = keep(zh_systems());
            for (z, s) in list {
                for w in WIDTHS {
                    match id {
                        "C17" => p.add(format!("read {} {}", s.name, w.name()), move |cx| on_width!(w, zh_read(cx, z, s))),
                        "C18" => p.add(format!("marks {} {}", s.name, w.name()), move |cx| on_width!(w, zh_marks(cx, z, s))),
                        _ => p.add(format!("total {} {}", s.name, w.name()), move |cx| on_width!(w, zh_total(cx, z, s, s))),
                    }
                }
            }
            go!();
        }
        "C19" => {
            let q: &'static Quad = Box::leak(Box::new(Quad { list: zh_systems() }));
            for sc in SCALES {
                for w in WIDTHS {
                    p.add(format!("variants {sc:?} {}", w.name()), move |cx| on_width!(w, zh_variants(cx, q, sc)));
                }
            }
            let orders = keep(zh_orders());
            for (z, s) in orders {
                let b = &q.list.iter().find(|(x, _)| x.name() == z.name()).unwrap().1;
                for w in [W::U8, W::U64, W::U128] {
                    p.add(format!("order {} {}", s.name, w.name()), move |cx| on_width!(w, zh_same(cx, s, b)));
                }
            }
            macro_rules! sequences {
                ($($t:ident, $trad:expr, $formal:expr;)*) => {$(
                    p.add(concat!("sequences of options of ", stringify!($t)).into(), move |cx| {
                        use nominals::$t as S;
                        let calls: [(&str, fn(S) -> S); 4] = [
                            ("financial", |s| s.financial()),
                            ("short_scale", |s| s.short_scale()),
                            ("mid_scale", |s| s.mid_scale()),
                            ("long_scale", |s| s.long_scale()),
                        ];
                        zh_sequences(cx, q, $trad, $formal, calls);
                    });
                )*};
            }
            sequences!(
                TraditionalChineseFormal, true, true;
                TraditionalChineseInformal, true, false;
                SimplifiedChineseFormal, false, true;
                SimplifiedChineseInformal, false, false;
            );
            // the defaults: ordinary usage, myriad scale
            for (z, s) in q.list.iter().filter(|(z, s)| z.scale == Scale::Myriad && !s.name.contains('.')) {
                p.add(format!("default {}", s.name), move |cx| {
                    on_width!(W::U128, zh_read(cx, z, s));
                });
            }
            go!();
        }
        "C21" => {
            let mut systems: Vec<Sys> = other_builtins().into_iter().filter(|s| s.fam == Fam::Enumerated).collect();
            systems.extend(enumerated_sets(seed, tier == Tier::Tiny, true).into_iter().map(|(_, s)| s));
            for s in &mut systems {
                s.builtin = true;
            }
            let systems = keep(systems);
            model_units(&mut p, systems, no_extra);
            go!();
        }
        "C22" => {
            let systems = keep(all_for_diff(seed, tier, scale(tier, 6, 300, 2500), scale(tier, 6, 300, 2500), tier != Tier::Tiny));
            for s in systems {
                for w in WIDTHS {
                    p.add(format!("infallible {} {}", s.name, w.name()), move |cx| on_width!(w, each_infallible(cx, s)));
                }
            }
            // long texts: values far above what is formatted in bulk
            if !ALLOC {
                p.add("conversions".into(), |_| {});
            }
            p.add("conversions of errors".into(), error_conversions);
            go!();
        }
        "C23" => {
            let systems = keep(all_for_diff(seed, tier, scale(tier, 6, 500, 4000), scale(tier, 6, 500, 4000), tier != Tier::Tiny));
            for s in systems {
                p.add(format!("widths {}", s.name), move |cx| diff_widths(cx, s));
            }
            for w in WIDTHS {
                p.add(format!("integers {}", w.name()), move |cx| on_width!(w, integers(cx)));
            }
            go!();
        }
        "C24" => {
            let systems = keep(all_for_diff(seed, tier, scale(tier, 4, 60, 600), scale(tier, 4, 60, 600), tier != Tier::Tiny));
            let k = scale(tier, 3, 60, 600);
            for s in systems {
                for w in WIDTHS {
                    p.add(format!("pointers {} {}", s.name, w.name()), move |cx| {
                        let n = if s.builtin { k } else { k / 3 };
                        let mut vals: Vec<u128> = (0..n as u128).collect();
                        let max = w.max().min(s.cap());
                        for _ in 0..n * 2 {
                            vals.push(value(&mut cx.rng, max, s.base));
                        }
                        vals.push(max);
                        if cx.tier != Tier::Tiny {
                            // powers, boundaries and numbers from the source: as many as there is room for
                            let more = plan_all(cx, w, s.cap(), s, 0, 0);
                            let take = if s.builtin { 20 * n as usize } else { 5 * n as usize };
                            let step = more.len().div_ceil(take).max(1);
                            let from = cx.rng.idx(step);
                            vals.extend(more.into_iter().skip(from).step_by(step));
                        }
                        vals.retain(|v| *v <= max && s.fits(*v));
                        vals.sort_unstable();
                        vals.dedup();
                        match s.via {
                            Some(v) => pointers(cx, &s.name, v, w, &vals, false),
                            None => {
                                let sys = s.sys;
                                arm_queries(u64::MAX);
                                pointers(cx, &s.name, &Maker(move || Fwd(sys)), w, &vals, false);
                            }
                        }
                    });
                }
            }
            for (name, via) in user_vias() {
                for w in WIDTHS {
                    p.add(format!("pointers {name} {}", w.name()), move |cx| {
                        let mut vals: Vec<u128> = (0..90).collect();
                        vals.extend((0..20).map(|_| value(&mut cx.rng, w.max(), 10)));
                        vals.retain(|v| *v <= w.max());
                        pointers(cx, name, via, w, &vals, name == "Overriding");
                    });
                }
            }
            go!();
        }
        "C25" => {
            let mut systems = builtins();
            systems.extend(digit_sets(tier == Tier::Tiny));
            systems.extend((0..scale(tier, 4, 250, 2500)).map(|i| nth_custom_digits(seed, i, None)).filter(all_distinct));
            systems.extend((0..scale(tier, 4, 200, 2000)).map(|i| nth_plain_additive(seed, i)));
            let systems = keep(drop_if_tiny(systems, tier));
            for s in systems {
                for w in [W::U16, W::U64, W::U128] {
                    p.add(format!("unique {} {}", s.name, w.name()), move |cx| on_width!(w, unique(cx, s)));
                }
                if !s.builtin {
                    p.add(format!("unique {} u8", s.name), move |cx| unique::<u8>(cx, s));
                }
            }
            go!();
        }
        "C26" => {
            let mut systems = builtins();
            let sets = scale(tier, 2, 40, 40);
            systems.extend((0..sets).map(|i| nth_additive(seed, i).1));
            systems.extend(enumerated_sets(seed, tier == Tier::Tiny, false).into_iter().map(|(_, s)| s));
            systems.extend(digit_sets(tier == Tier::Tiny));
            if tier == Tier::Tiny {
                let from: usize = o.part.strip_prefix('s').and_then(|n| n.parse().ok()).unwrap_or(0);
                systems = systems.into_iter().filter(|s| s.base <= 300).skip(from % 7).step_by(7).collect();
            }
            let (per, rounds) = match tier {
                Tier::Tiny => (2, 1),
                Tier::Quick => (80, 12),
                Tier::Thorough => (200, 120),
            };
            let (per, rounds) = if o.part.contains("small") { (12, 3) } else { (per, rounds) };
            let threads = if tier == Tier::Tiny { 3 } else { 8 };
            crate::mon::register_thread();
            purity(total, &systems, threads, per, rounds);
            if total.viols.is_empty() {
                let each = if o.part.contains("small") { 300 } else { scale(tier, 2, 15_000, 400_000) };
                crate::reenter::run(total, threads, each);
            }
            if total.viols.is_empty() {
                let small = o.part.contains("small");
                crate::place::recycled(total, scale(tier, 2, if small { 20 } else { 600 }, 6_000) as usize, if tier == Tier::Tiny { 12 } else { 200 });
                if tier != Tier::Tiny && !small {
                    crate::place::depths(total, &systems, scale(tier, 0, 600, 2_000) as usize);
                }
            }
            if tier != Tier::Tiny && !o.part.contains("small") && total.viols.is_empty() {
                streaks(total, &systems, scale(tier, 0, 240, 1500) as usize, scale(tier, 0, 70, 130) as usize);
            }
            if tier != Tier::Tiny && !o.part.contains("small") && total.viols.is_empty() {
                let built = builtins();
                let n = built.len();
                let list: Vec<Sys> = built.into_iter().chain(systems.into_iter().skip(n).step_by(5)).collect();
                let (ms, processes) = if tier == Tier::Thorough { (1500, 20_000) } else { (100, 1200) };
                hammer(total, &list, threads, ms);
                // more threads than anyone has processors for
                let crowd: Vec<Sys> = list.into_iter().skip(seed as usize % 3).step_by(3).collect();
                hammer(total, &crowd, 70, ms * 2);
                if total.viols.is_empty() {
                    cold(total, processes, threads);
                }
            }
            crate::mon::unregister_thread();
        }
        "C27" => {
            let n = scale(tier, 8, 2_500, 25_000);
            for c in 0..60u64 {
                p.add(format!("progress {c}"), move |cx| {
                    let mut k = c;
                    while k < n {
                        let s = nth_custom_digits(cx.seed, k, None);
                        k += 60;
                        if cx.tier == Tier::Tiny && s.base > 2000 {
                            continue;
                        }
                        cx.hit("user-defined collections", 1);
                        cx.sample(|| s.desc.clone());
                        for w in WIDTHS {
                            on_width!(w, each_progress(cx, &s));
                        }
                    }
                });
            }
            let empty = keep(enumerated_sets(seed, tier == Tier::Tiny, false).into_iter().map(|(_, s)| s).chain(
                (0..64).map(|i| nth_additive(seed, i).1).filter(|s| s.desc == "[]")).chain(
                digit_sets(tier == Tier::Tiny).into_iter().filter(|s| s.spec.as_ref().unwrap().digits.len() < 2)).collect());
            for s in empty {
                for w in WIDTHS {
                    p.add(format!("degenerate {} {}", s.name, w.name()), move |cx| on_width!(w, each_degenerate(cx, s)));
                }
            }
            go!();
        }
        _ => panic!("unknown property {id}"),
    }
}

fn all_distinct(s: &Sys) -> bool {
    let Some(spec) = &s.spec else { return true };
    let mut d: Vec<char> = spec.digits.to_vec();
    // what a single-symbol collection hands to its fallback has other symbols
    if let Some(f) = spec.fallback.as_ref().filter(|_| spec.fixed) {
        if f.fixed {
            return false;
        }
        d.extend(f.digits.iter());
    }
    let n = d.len();
    d.sort_unstable();
    d.dedup();
    n == d.len()
}

fn each_storage<T: Num>(cx: &mut Ctx, s: &Sys) {
    let k = if cx.tier == Tier::Thorough { 8 } else { 1 };
    let (d, r) = if s.builtin { (12_000 * u128::from(k), 6_000 * k) } else { (300 * u128::from(k), 200 * k) };
    for v in sampled::<T>(cx, s, d, r) {
        if cx.stop() {
            return;
        }
        arm(s, 4000);
        storage::<T>(cx, s, v);
    }
}

fn each_progress<T: Num>(cx: &mut Ctx, s: &Sys) {
    let k = if cx.tier == Tier::Thorough { 4 } else { 1 };
    for v in sampled::<T>(cx, s, 320 * u128::from(k), 60 * k) {
        if cx.stop() {
            return;
        }
        progress::<T>(cx, s, v);
    }
}

fn each_degenerate<T: Num>(cx: &mut Ctx, s: &Sys) {
    for v in sampled::<T>(cx, s, 400, 50) {
        if cx.stop() {
            return;
        }
        let (r, _) = call::<T>(cx, s, v);
        tally(cx, &r);
        if let Err(p) = &r {
            broke::<T>(cx, "panic", s, v, p.clone(), "a result".into());
        }
        let mut buf = String::new();
        if let (Ok(o), Want::Oob) = (&r, want(s, v, &mut buf)) {
            if !matches!(o, Err(Er::Oob(_))) {
                broke::<T>(cx, "error", s, v, show(o), "out of bounds".into());
            }
        }
        let (r, _) = observe(|| T::entry(s.sys).system(T::from128(v)).to_string());
        if let Err(p) = r {
            broke::<T>(cx, "panic", s, v, format!("format_nominal: {p}"), "a text".into());
        }
    }
}

/// Formats and looks at the text, for the sanitizers to watch.
fn touch<T: Num>(cx: &mut Ctx, s: &Sys) {
    let (d, r) = match cx.tier {
        Tier::Tiny => (3, 3),
        Tier::Quick => (300, 150),
        Tier::Thorough => (3_000, 2_000),
    };
    for v in plan(cx, T::W, s.cap(), s, d, r) {
        let v = if cx.tier == Tier::Tiny { v.min(s.cap / 40) } else { v };
        if !s.fits(v) {
            continue;
        }
        arm(s, 4000);
        let (r, _) = call::<T>(cx, s, v);
        tally(cx, &r);
        if let Ok(Ok(mut t)) = r {
            let n = t.chars().filter(|c| !c.is_control()).count();
            t.make_ascii_uppercase();
            cx.hit("characters read back", n as u64);
            if std::str::from_utf8(t.as_bytes()).is_err() {
                broke::<T>(cx, "undefined", s, v, format!("{:x?}", t.as_bytes()), "UTF-8".into());
            }
        }
        let (r, _) = observe(|| T::entry(s.sys).system(T::from128(v)).to_string().len());
        cx.evals += 1;
        let _ = r;
    }
}

fn additive_sweep<T: Num>(cx: &mut Ctx, s: &Sys, spec: &ASpec) {
    let mut buf = String::new();
    let mut vals = default_plan(cx, T::W, s);
    // sums of few symbols, and their neighbours
    let max = T::W.max().min(s.cap());
    for _ in 0..scale(cx.tier, 3, 60, 300) {
        let mut v = 0u128;
        for _ in 0..1 + cx.rng.idx(4) {
            if !spec.syms.is_empty() {
                let x = cx.rng.pick(&spec.syms).1;
                v = v.saturating_add(x.saturating_mul(u128::from(1 + cx.rng.below(4))));
            }
        }
        vals.extend([v, v.saturating_sub(1), v.saturating_add(1)]);
    }
    vals.retain(|v| *v <= max && s.fits(*v));
    vals.sort_unstable();
    vals.dedup();
    for v in vals {
        if cx.stop() {
            return;
        }
        against_model::<T>(cx, s, v, &mut buf, &|_| Ok(()));
    }
}

fn residues(cx: &mut Ctx, s: &Sys) {
    let (heights, period): (Vec<u128>, u128) = match s.fam {
        Fam::Roman => ((0..4).map(|h| h * 1_000_000).collect(), 1_000_000),
        Fam::Hebrew => ((0..60).collect::<Vec<u128>>().iter().map(|h| h * 400).collect(), 400),
        _ => ((0..12).map(|h| h * 10_000).collect(), 10_000),
    };
    let mut buf = String::new();
    for h in heights {
        let step = if s.fam == Fam::Roman && (h > 0 || cx.tier == Tier::Quick) { 7 } else { 1 };
        let mut v = h;
        while v < h + period {
            if cx.stop() {
                return;
            }
            against_model::<u32>(cx, s, v, &mut buf, &|_| Ok(()));
            v += step;
        }
    }
}

fn large(cx: &mut Ctx, s: &Sys) {
    let mut buf = String::new();
    let times = scale(cx.tier, 0, 6, 60);
    for _ in 0..times {
        if s.fam == Fam::Ethiopic {
            return;
        }
        let v = s.cap * 2 + u128::from(cx.rng.below(s.cap as u64));
        // the specification is asked directly: the cap is only for the bulk
        buf.clear();
        let k = s.model.exp(v, &mut buf);
        let (r, _) = call::<u64>(cx, s, v);
        tally(cx, &r);
        match (k, r) {
            (K::Text, Ok(Ok(t))) if *t == *buf => {}
            (_, r) => broke::<u64>(cx, "text", s, v, r.as_ref().map_or_else(Clone::clone, show), clip(&buf)),
        }
    }
}

/// Numbers whose text repeats one symbol as often as counters of every width
/// can count, and more.
fn repeats(cx: &mut Ctx, s: &Sys, top: u128) {
    let mut buf = String::new();
    let mut ks: Vec<u128> = vec![1, 127, 255, 256, 257, 1000, 4095, 4096, 32_767, 32_768, 65_535, 65_536, 65_537, 100_000, 131_072];
    if cx.tier == Tier::Thorough {
        ks.extend([262_143, 262_144, 1_000_003, 1 << 24]);
    } else {
        ks.push(200_000 + u128::from(cx.rng.below(200_000)));
    }
    // texts filled from the end take time with the square of their length
    ks.retain(|k| *k < 70_000 || s.fam == Fam::Additive || s.builtin);
    for k in ks {
        let mut rest = vec![0, 1 % top, top - 1, u128::from(cx.rng.next()) % top];
        rest.sort_unstable();
        rest.dedup();
        for r in rest {
            let v = k * top + r;
            for w in WIDTHS {
                if v > w.max() || cx.stop() {
                    continue;
                }
                if k > 5_000 && !matches!(w, W::U64) && (k as usize + s.name.len()) % 5 != w as usize % 5 {
                    continue;
                }
                buf.clear();
                let known = s.model.exp(v, &mut buf);
                arm_queries(u64::MAX);
                on_width!(w, repeated(cx, s, v, known, &buf));
                cx.max("longest text in bytes", buf.len() as u64);
            }
        }
    }
}

fn repeated<T: Num>(cx: &mut Ctx, s: &Sys, v: u128, known: K, buf: &str) {
    let (r, _) = call::<T>(cx, s, v);
    tally(cx, &r);
    cx.hit("numbers with very many repeated symbols", 1);
    match (known, &r) {
        (K::Text, Ok(Ok(t))) if **t == *buf => {}
        (K::Text, _) => broke::<T>(cx, "text", s, v, r.as_ref().map_or_else(Clone::clone, show), clip(buf)),
        (_, Ok(Err(_))) => {}
        _ => broke::<T>(cx, "error", s, v, r.as_ref().map_or_else(Clone::clone, show), "an error".into()),
    }
}

fn fixed_combinations() -> Vec<Sys> {
    use nominals::{CjkEarthlyBranch, CjkHeavenlyStem, DigitCollection, OneBased, Restrict};
    let mut out = Vec::new();
    macro_rules! one {
        ($label:expr, $spec:expr, $e:expr) => {{
            out.push(collection($label.to_string(), $spec, Era::new($e)));
        }};
    }
    let stem = digit_spec("CjkHeavenlyStem");
    let branch = digit_spec("CjkEarthlyBranch");
    one!("CjkHeavenlyStem.one_based()", stem.one_based(), CjkHeavenlyStem.one_based());
    one!("CjkEarthlyBranch.one_based()", branch.one_based(), CjkEarthlyBranch.one_based());
    for n in 0..15usize {
        one!(format!("Restrict({n}, CjkHeavenlyStem)"), stem.restrict(n), Restrict::new(n, CjkHeavenlyStem));
        one!(format!("Restrict({n}, CjkEarthlyBranch)"), branch.restrict(n), Restrict::new(n, CjkEarthlyBranch));
        one!(format!("OneBased(Restrict({n}, CjkEarthlyBranch))"), branch.restrict(n).one_based(), OneBased::new(Restrict::new(n, CjkEarthlyBranch)));
    }
    out
}

fn error_conversions(cx: &mut Ctx) {
    fn all<T: Num>(cx: &mut Ctx) {
        use nominals::{Error, OutOfMemoryError, UnwrapOrDecimal, WithNominal};
        let mut vals: Vec<u128> = (0..=255).collect();
        for _ in 0..scale(cx.tier, 10, 20_000, 200_000) {
            vals.push(value(&mut cx.rng, T::W.max(), 10));
        }
        vals.push(T::W.max());
        vals.sort_unstable();
        vals.dedup();
        for v in vals {
            cx.evals += 1;
            let n = T::from128(v);
            let d = decimal(v);
            crumb("error conversion", T::W as u32, v);
            let (r, _) = observe(|| {
                let ok = *Error::<T>::OutOfBounds(n).into_decimal() == *d
                    && *Error::<T>::OutOfMemory(n).into_decimal() == *d
                    && *Error::<T>::NoZeroSymbol.into_decimal() == *"0"
                    && *unwrap_dec::<T>(Err(Error::OutOfBounds(n))) == *d
                    && *unwrap_dec::<T>(Err(Error::OutOfMemory(n))) == *d
                    && *unwrap_dec::<T>(Err(Error::NoZeroSymbol)) == *"0"
                    && *unwrap_dec::<T>(Ok("kept".into())) == *"kept";
                let w: Result<u8, Error<T>> = Err::<u8, _>(OutOfMemoryError).with_nominal(n);
                let k: Result<u8, Error<T>> = Ok::<u8, OutOfMemoryError>(7).with_nominal(n);
                let _: &dyn Fn(Result<nominals::NominalString, Error<T>>) -> nominals::NominalString = &|r| r.unwrap_or_decimal();
                ok && w == Err(Error::OutOfMemory(n)) && k == Ok(7)
            });
            cx.plain += 1;
            match r {
                Ok(true) => {}
                Ok(false) => cx.violate("text", &format!("error conversion as {}", T::W.name()), v, "another text or error", d),
                Err(p) => cx.violate("panic", &format!("error conversion as {}", T::W.name()), v, p, d),
            }
        }
    }
    for w in WIDTHS {
        on_width!(w, all(cx));
    }
}
