//! Collections with more digits than anyone would list: lengths around every
//! integer type's limit, with digits computed from the whole position.
use crate::ctx::{Ctx, Tier};
use crate::gen::value;
use crate::mon::{crumb, observe};
use crate::obs::{decimal, show, try_fmt, AllSys, Er, Num, Out, WIDTHS};
use crate::on_width;
use nominals::{Chain, Decimal, DigitCollection, OneBased, Restrict};
use std::cell::Cell;

thread_local! {
    static ASKED: Cell<u64> = const { Cell::new(0) };
}

/// Every bit of the position matters.
fn symbol(i: u128) -> char {
    let i = i as u64;
    let mut z = i ^ (i >> 31);
    z = z.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    char::from_u32(0x4e00 + ((z >> 33) % 20_000) as u32).unwrap()
}

const ZERO: u8 = 1;
const FIXED: u8 = 2;

#[derive(Default, Clone, Copy)]
struct Huge<const N: usize, const MODE: u8>;
impl<const N: usize, const MODE: u8> DigitCollection for Huge<N, MODE> {
    type Fallback = Decimal;
    fn fixed(&self) -> bool {
        MODE & FIXED != 0
    }
    fn has_zero_digit(&self) -> bool {
        MODE & ZERO != 0
    }
    fn len(&self) -> usize {
        N
    }
    fn digit(&self, index: usize) -> char {
        ASKED.with(|a| a.set(a.get() + 1));
        assert!(index < N, "asked for position {index} of {N}");
        symbol(index as u128)
    }
}

pub struct Spec {
    pub name: String,
    pub sys: &'static dyn AllSys,
    len: u128,
    zero: bool,
    zero_based: bool,
    fixed: bool,
    digit: fn(u128) -> char,
    /// Is it a combination of others?
    pub combined: bool,
    /// What the collection itself tells: its length, whether it is empty,
    /// whether it has a zero digit, counts from zero and gives one digit only.
    told: fn() -> (usize, bool, bool, bool, bool),
}

fn all() -> Vec<Spec> {
    let mut v = Vec::new();
    macro_rules! add {
        ($name:expr, $e:expr, $len:expr, $zero:expr, $zb:expr, $fixed:expr, $digit:expr, $comb:expr) => {
            v.push(Spec {
                name: $name,
                sys: Box::leak(Box::new($e)),
                len: $len as u128,
                zero: $zero,
                zero_based: $zb,
                fixed: $fixed,
                digit: $digit,
                combined: $comb,
                told: || {
                    let e = $e;
                    (e.len(), e.is_empty(), e.has_zero_digit(), e.zero_based(), e.fixed())
                },
            })
        };
    }
    macro_rules! each {
        ($($n:expr),*) => {$({
            const N: usize = $n as usize;
            add!(format!("{N} digits with zero"), Huge::<N, ZERO>, N, true, true, false, symbol, false);
            add!(format!("{N} letters"), Huge::<N, 0>, N, false, true, false, symbol, false);
            add!(format!("{N} letters from one"), OneBased::new(Huge::<N, 0>), N, false, false, false, symbol, false);
            add!(format!("{N} single letters"), Huge::<N, FIXED>, N, false, true, true, symbol, false);
            add!(format!("{N} single letters from one"), OneBased::new(Huge::<N, FIXED>), N, false, false, true, symbol, false);
            add!(format!("{N} single digits with zero"), Huge::<N, { ZERO | FIXED }>, N, true, true, true, symbol, false);
            add!(format!("{N} digits with zero from one"), OneBased::new(Huge::<N, ZERO>), N, true, false, false, symbol, false);
            // the ten decimal digits in front, and behind where it fits
            add!(format!("decimal digits and {N} letters"), Chain::new(Decimal, Huge::<N, 0>), N.saturating_add(10), true, true, false,
                 |i| if i < 10 { (b'0' + i as u8) as char } else { symbol(i - 10) }, true);
            add!(format!("{N} letters and decimal digits"), Chain::new(Huge::<N, 0>, Decimal), N.saturating_add(10), false, true, false,
                 |i| if i < N as u128 { symbol(i) } else { (b'0' + (i - N as u128) as u8) as char }, true);
            add!(format!("{N} letters twice"), Chain::new(Huge::<N, 0>, Huge::<N, ZERO>), N.saturating_mul(2), false, true, false,
                 |i| if i < N as u128 { symbol(i) } else { symbol(i - N as u128) }, true);
            add!(format!("{N} letters restricted by one"), Restrict::new(N - 1, Huge::<N, 0>), N - 1, false, true, false, symbol, true);
            add!(format!("{N} single letters restricted to half"), Restrict::new(N / 2, Huge::<N, FIXED>), N / 2, false, true, true, symbol, true);
            add!(format!("all but seven of twice {N} digits"), Restrict::new(N.saturating_mul(2) - 7, Chain::new(Huge::<N, ZERO>, Huge::<N, 0>)),
                 N.saturating_mul(2) - 7, true, true, false, |i| if i < N as u128 { symbol(i) } else { symbol(i - N as u128) }, true);
        })*};
    }
    // with nothing in front or behind, and counting from one
    macro_rules! ends {
        ($($n:expr),*) => {$({
            const N: usize = $n as usize;
            const M: usize = N - 1;
            type L = Huge<N, 0>;
            type Z = Huge<N, ZERO>;
            type E = Huge<0, 0>;
            add!(format!("{N} letters from one and nothing"), Chain::new(OneBased::new(L {}), E {}), N, false, false, false, symbol, true);
            add!(format!("{N} letters and nothing"), Chain::new(L {}, E {}), N, false, true, false, symbol, true);
            add!(format!("{N} letters and nothing from one"), OneBased::new(Chain::new(L {}, E {})), N, false, false, false, symbol, true);
            add!(format!("{N} digits with zero and nothing"), Chain::new(Z {}, E {}), N, true, true, false, symbol, true);
            add!(format!("nothing and {N} letters from one"), Chain::new(E {}, OneBased::new(L {})), N, false, true, false, symbol, true);
            add!(format!("nothing from one and {N} letters"), Chain::new(OneBased::new(E {}), L {}), N, false, false, false, symbol, true);
            add!(format!("nothing and {N} digits with zero"), Chain::new(E {}, Z {}), N, false, true, false, symbol, true);
            add!(format!("nothing, nothing, {N} letters, nothing"), Chain::new(E {}, Chain::new(E {}, Chain::new(L {}, E {}))), N, false, true, false, symbol, true);
            add!(format!("{N} letters from one and as many not"), Chain::new(OneBased::new(L {}), L {}), N.saturating_mul(2), false, false, false,
                 |i| if i < N as u128 { symbol(i) } else { symbol(i - N as u128) }, true);
            add!(format!("{N} letters and as many from one"), Chain::new(L {}, OneBased::new(L {})), N.saturating_mul(2), false, true, false,
                 |i| if i < N as u128 { symbol(i) } else { symbol(i - N as u128) }, true);
            add!(format!("{N} letters from one twice over"), OneBased::new(OneBased::new(L {})), N, false, false, false, symbol, true);
            add!(format!("{N} letters from one restricted by one"), Restrict::new(M, OneBased::new(L {})), M, false, false, false, symbol, true);
            add!(format!("{N} letters restricted by one, from one"), OneBased::new(Restrict::new(M, L {})), M, false, false, false, symbol, true);
            add!(format!("{N} single letters from one, restricted by one"), Restrict::new(M, OneBased::new(Huge::<N, FIXED> {})), M, false, false, true, symbol, true);
            add!(format!("{N} letters restricted to more"), Restrict::new(N.saturating_add(9), L {}), N, false, true, false, symbol, true);
            add!(format!("{N} letters restricted to all"), Restrict::new(usize::MAX, OneBased::new(L {})), N, false, false, false, symbol, true);
        })*};
    }
    ends!(3, 16, 255, 256, 300, 1_000, 1_001, 2_000, 5_000, 65_536, 70_000, u32::MAX);
    each!(127, 128, 255, 256, 257, 65_535, 65_536, 65_537, 0x10_ffff, i32::MAX, u32::MAX - 1, u32::MAX);
    #[cfg(target_pointer_width = "64")]
    each!(
        1u64 << 32,
        (1u64 << 32) + 1,
        10u64.pow(10),
        1u64 << 53,
        3_037_000_500u64,
        (1u64 << 63) - 1,
        1u64 << 63,
        (1u64 << 63) + 1,
        10u64.pow(19),
        u64::MAX - 1,
        u64::MAX
    );
    v
}

impl Spec {
    fn exp(&self, v: u128) -> Result<String, Er> {
        let in_one = if self.zero || self.zero_based { v < self.len } else { v <= self.len };
        if self.fixed && !in_one {
            return Ok(decimal(v));
        }
        let mut t: Vec<char> = Vec::new();
        if self.zero {
            let mut n = v;
            loop {
                t.push((self.digit)(n % self.len));
                n /= self.len;
                if n == 0 {
                    break;
                }
            }
        } else {
            // 1 is the first symbol
            let (mut n, carry) = if self.zero_based { v.overflowing_add(1) } else { (v, false) };
            if carry {
                // 2^128: one long division step by hand
                let (q, r) = (u128::MAX / self.len, u128::MAX % self.len);
                let (q, r) = if r + 1 == self.len { (q + 1, 0) } else { (q, r + 1) };
                t.push((self.digit)(if r == 0 { self.len - 1 } else { r - 1 }));
                n = if r == 0 { q - 1 } else { q };
            } else if n == 0 {
                return Err(Er::NoZero);
            }
            while n > 0 {
                n -= 1;
                t.push((self.digit)(n % self.len));
                n /= self.len;
            }
        }
        Ok(t.into_iter().rev().collect())
    }

    fn fits(&self, id: &str) -> bool {
        match id {
            "C06" => self.zero && !self.fixed && !self.combined,
            "C07" => !self.zero && !self.fixed && !self.combined,
            "C08" => self.fixed,
            "C09" => self.combined,
            _ => true,
        }
    }
}

fn plain<T: Num>(s: &dyn AllSys, v: u128) -> Out {
    try_fmt::<T>(s, v)
}

/// As one property sees them.
pub fn unit(cx: &mut Ctx, id: &str, part: u64, parts: u64) {
    for (i, s) in all().into_iter().enumerate() {
        if i as u64 % parts != part || !s.fits(id) {
            continue;
        }
        if s.combined {
            let told = observe(s.told).0;
            cx.evals += 1;
            let want = (s.len as usize, s.len == 0, s.zero, s.zero_based, s.fixed);
            // counting from zero is asked only of what has no zero digit
            if !matches!(told, Ok(t) if (t.0, t.1, t.2, t.4) == (want.0, want.1, want.2, want.4) && (t.2 || t.3 == want.3)) {
                cx.violate(if told.is_ok() { "text" } else { "panic" }, &format!("what {} tells", s.name), 0, format!("{told:?}"), format!("{want:?}"));
            }
        }
        let mut vals: Vec<u128> = (0..20).collect();
        let l = s.len;
        for m in [1u128, 2, 3, 10, l / 2, l - 1, l, l + 1] {
            for d in 0..4u128 {
                let x = l.saturating_mul(m);
                vals.extend([x.saturating_add(d), x.saturating_sub(d), x.saturating_add(l).saturating_add(d)]);
            }
        }
        if cx.tier != Tier::Tiny {
            for k in 0..128u32 {
                vals.extend([1u128 << k, (1u128 << k) - 1, (1u128 << k) + 1, !(1u128 << k)]);
            }
        }
        vals.push(u128::MAX);
        let random = match cx.tier {
            Tier::Tiny => 4,
            Tier::Quick => 400,
            Tier::Thorough => 20_000,
        };
        for w in WIDTHS {
            for _ in 0..random {
                vals.push(value(&mut cx.rng, w.max(), l));
            }
        }
        vals.sort_unstable();
        vals.dedup();
        cx.hit("collections of computed digits", 1);
        cx.max("digits of a collection", u64::try_from(l).unwrap_or(u64::MAX));
        for v in vals {
            let want = s.exp(v);
            for w in WIDTHS {
                if v > w.max() || cx.stop() {
                    continue;
                }
                crumb(&s.name, w as u32, v);
                ASKED.with(|a| a.set(0));
                let got = observe(|| on_width!(w, plain(s.sys, v))).0;
                let asked = ASKED.with(Cell::get);
                cx.evals += 1;
                cx.plain += 1;
                let subject = || format!("{} as {}", s.name, w.name());
                match (&got, &want) {
                    (Ok(Ok(t)), Ok(u)) => {
                        if **t != **u {
                            cx.violate("text", &subject(), v, crate::obs::clip(t), u.clone());
                        }
                        let most = 16 + 4 * t.chars().count() as u64;
                        if asked > most {
                            cx.violate("queries", &subject(), v, format!("{asked} digits asked for"), format!("at most {most}"));
                        }
                    }
                    (Ok(Err(e)), Err(f)) => {
                        if e != f {
                            cx.violate("error", &subject(), v, format!("{e:?}"), format!("{f:?}"));
                        }
                    }
                    // no room for this text in this build
                    (Ok(Err(Er::Oom(n))), Ok(u)) if !crate::strs::ALLOC && u.len() > crate::strs::CAP && *n == v => {}
                    (Err(p), _) => cx.violate("panic", &subject(), v, p.clone(), format!("{want:?}")),
                    (Ok(o), _) => cx.violate("error", &subject(), v, show(o), format!("{want:?}")),
                }
            }
        }
        if cx.stop() {
            return;
        }
    }
}
