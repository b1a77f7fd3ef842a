//! Deterministic random numbers and workload (value) generators.
#[cfg(feature = "fuzz")]
thread_local! {
    /// The numbers to format, chosen by a fuzzer.
    pub static FORCED: std::cell::RefCell<Vec<u128>> = const { std::cell::RefCell::new(Vec::new()) };
    /// Choices made by a fuzzer: taken instead of random numbers.
    static TAPE: std::cell::RefCell<(Vec<u8>, usize)> = const { std::cell::RefCell::new((Vec::new(), 0)) };
}

#[cfg(feature = "fuzz")]
pub fn set_tape(b: &[u8]) {
    TAPE.with(|t| {
        let mut t = t.borrow_mut();
        t.0.clear();
        t.0.extend_from_slice(b);
        t.1 = 0;
    });
}

#[cfg(feature = "fuzz")]
fn tape(n: usize) -> Option<u64> {
    TAPE.with(|t| {
        let mut t = t.borrow_mut();
        let at = t.1;
        if at >= t.0.len() {
            return None;
        }
        let mut x = [0; 8];
        for (i, b) in x.iter_mut().enumerate().take(n) {
            *b = t.0.get(at + i).copied().unwrap_or(0);
        }
        t.1 = at + n;
        Some(u64::from_le_bytes(x))
    })
}

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed ^ stream.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.step();
        r.step();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.bytes(8)
    }
    /// From the tape while there is one (see TAPE), else from the generator.
    fn bytes(&mut self, n: usize) -> u64 {
        #[cfg(feature = "fuzz")]
        if let Some(x) = tape(n) {
            return x;
        }
        let _ = n;
        self.step()
    }
    fn step(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        match n {
            0 | 1 => 0,
            2..=0x100 => self.bytes(1) % n,
            0x101..=0x1_0000 => self.bytes(2) % n,
            _ => self.next() % n,
        }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn u128(&mut self) -> u128 {
        u128::from(self.next()) << 64 | u128::from(self.next())
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
}

/// Numbers and characters written in the source of the crate: where its code
/// branches on a particular number, the number or a relative of it is here.
pub struct Dict {
    pub numbers: Vec<u128>,
    pub chars: Vec<char>,
    /// The numbers, their neighbours, products and sums, sorted.
    pub relatives: Vec<u128>,
}

pub static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();

pub fn load_dict(text: &str, interpreted: bool) {
    let mut numbers = Vec::new();
    let mut chars = Vec::new();
    for line in text.lines() {
        match line.split_once(' ') {
            Some(("n", x)) => numbers.extend(x.parse::<u128>()),
            Some(("c", x)) => chars.extend(x.parse::<u32>().ok().and_then(char::from_u32)),
            _ => {}
        }
    }
    let mut relatives = Vec::new();
    for &a in &numbers {
        for d in 0..3u128 {
            relatives.extend([a.saturating_add(d), a.saturating_sub(d)]);
        }
        for &b in numbers.iter().take(if interpreted { 0 } else { 2000 }) {
            let p = a.saturating_mul(b);
            relatives.extend([p, p.saturating_add(1), p.saturating_sub(1), a.saturating_add(b), a.abs_diff(b), a ^ b]);
        }
        // as the number of a bit, or of a decimal digit
        if a < 128 {
            relatives.push(1 << a);
        }
        if let Some(p) = u32::try_from(a).ok().and_then(|a| 10u128.checked_pow(a)) {
            relatives.push(p);
        }
    }
    relatives.sort_unstable();
    relatives.dedup();
    let _ = DICT.set(Dict { numbers, chars, relatives });
}

/// A length the source mentions, or next to one.
pub fn dict_length(r: &mut Rng) -> usize {
    let few: Vec<u128> = DICT.get().map_or(Vec::new(), |d| d.numbers.iter().copied().filter(|n| *n < 5000).collect());
    if few.is_empty() {
        return r.idx(12);
    }
    (*r.pick(&few) as usize + r.idx(3)).saturating_sub(1)
}

fn from_dict(r: &mut Rng) -> Option<u128> {
    let d = DICT.get().filter(|d| !d.numbers.is_empty())?;
    let a = *r.pick(&d.numbers);
    let b = *r.pick(&d.numbers);
    let bits = 1 + r.below(128);
    let k = r.u128() >> (128 - bits);
    Some(match r.below(8) {
        // with b as the remainder of a division by a, or next to it
        0..=3 => a.wrapping_mul(k).wrapping_add(b),
        4 => near(r, a.wrapping_mul(k)),
        5 => a.wrapping_mul(b).wrapping_mul(*r.pick(&d.numbers)),
        6 => a.wrapping_mul(b).wrapping_add(*r.pick(&d.numbers)),
        _ => *r.pick(&d.relatives),
    })
}

/// One structured random value no larger than `max`.
pub fn value(r: &mut Rng, max: u128, base: u128) -> u128 {
    if r.chance(1, 8) {
        if let Some(v) = from_dict(r) {
            return if v <= max || max == u128::MAX { v } else { v % (max + 1) };
        }
    }
    let v = match r.below(12) {
        // any bit length
        0 | 1 => {
            let bits = 1 + r.below(128);
            r.u128() >> (128 - bits)
        }
        // near a power of the system's base, or of a random base
        2 => {
            let b = if r.chance(1, 2) { base.max(2) } else { u128::from(2 + r.below(99)) };
            let mut p = 1u128;
            for _ in 0..r.below(40) {
                match p.checked_mul(b) {
                    Some(q) if q <= max => p = q,
                    _ => break,
                }
            }
            let m = 1 + r.below(12) as u128;
            near(r, p.checked_mul(m).unwrap_or(p))
        }
        // near a shortlex boundary b + b^2 + .. + b^k
        3 => {
            let b = if r.chance(1, 2) { base.max(2) } else { u128::from(2 + r.below(70)) };
            let mut sum = 0u128;
            let mut p = 1u128;
            for _ in 0..r.below(28) {
                match p.checked_mul(b).and_then(|q| sum.checked_add(q).map(|s| (q, s))) {
                    Some((q, s)) if s <= max => {
                        p = q;
                        sum = s;
                    }
                    _ => break,
                }
            }
            near(r, sum)
        }
        // sparse decimal digits
        4 | 5 => {
            let mut v = 0u128;
            for _ in 0..1 + r.below(39) {
                let d = if r.chance(1, 4) { r.below(10) } else { 0 };
                v = v.wrapping_mul(10).wrapping_add(u128::from(d));
            }
            v
        }
        // four-digit groups from interesting patterns
        6 | 7 => {
            let pats = [0, 0, 0, 1, 10, 11, 100, 101, 110, 1000, 1001, 1010, 1100, 9999, 2000, 5, 20, 300];
            let mut v = 0u128;
            for _ in 0..1 + r.below(10) {
                let g = if r.chance(1, 5) { r.below(10000) } else { *r.pick(&pats) };
                v = v.wrapping_mul(10000).wrapping_add(u128::from(g));
            }
            v
        }
        // two-digit groups (Ethiopic)
        8 => {
            let pats = [0, 0, 0, 1, 1, 10, 11, 20, 99, 2];
            let mut v = 0u128;
            for _ in 0..1 + r.below(19) {
                let g = if r.chance(1, 5) { r.below(100) } else { *r.pick(&pats) };
                v = v.wrapping_mul(100).wrapping_add(u128::from(g));
            }
            v
        }
        // 0/1 decimal digits, dense digits
        9 => {
            let mut v = 0u128;
            let hi = 2 + r.below(9);
            for _ in 0..1 + r.below(39) {
                v = v.wrapping_mul(10).wrapping_add(u128::from(r.below(hi)));
            }
            v
        }
        // near type maxima and pointer-width aliases
        10 => {
            let bits = *r.pick(&[8u32, 16, 31, 32, 33, 63, 64, 65, 96, 127]);
            let hi = (r.below(5) as u128) << bits.min(120);
            near(r, (1u128 << bits).wrapping_add(hi))
        }
        _ => max.saturating_sub(u128::from(r.below(1000))),
    };
    if v <= max {
        v
    } else if max == u128::MAX {
        v
    } else {
        v % (max + 1)
    }
}

fn near(r: &mut Rng, v: u128) -> u128 {
    let d = u128::from(r.below(4));
    if r.chance(1, 2) {
        v.wrapping_add(d)
    } else {
        v.wrapping_sub(d)
    }
}

/// Numbers with at most three non-zero decimal digits (systematic).
pub fn sparse_decimals(max: u128, digits: &[u128], triples: bool) -> Vec<u128> {
    let mut pw = vec![1u128];
    while let Some(p) = pw.last().unwrap().checked_mul(10) {
        pw.push(p);
    }
    let mut out = Vec::new();
    let mut add = |v: Option<u128>| {
        if let Some(v) = v {
            if v <= max {
                out.push(v);
            }
        }
    };
    for i in 0..pw.len() {
        for &a in digits {
            let x = pw[i].checked_mul(a);
            add(x);
            for j in 0..i {
                for &b in digits {
                    let y = x.and_then(|x| pw[j].checked_mul(b).and_then(|m| x.checked_add(m)));
                    add(y);
                    if triples {
                        for k in 0..j {
                            for &c in digits {
                                add(y.and_then(|y| pw[k].checked_mul(c).and_then(|m| y.checked_add(m))));
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

pub const CHAR_POOL: [char; 24] = [
    'a', 'Z', '0', '~', '\u{1}', '\u{7f}', '\u{80}', 'é', 'Ա', '\u{7ff}', '\u{800}', '零', '가', '\u{305}', '\u{d7ff}',
    '\u{e000}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', 'ß', '壹', '\u{200e}', ' ',
];

pub fn any_char(r: &mut Rng) -> char {
    if r.chance(3, 4) {
        *r.pick(&CHAR_POOL)
    } else if let (true, Some(d)) = (r.chance(1, 2), DICT.get().filter(|d| !d.chars.is_empty())) {
        *r.pick(&d.chars)
    } else {
        let bits = 1 + r.below(21);
        char::from_u32((r.next() as u32) & ((1 << bits) - 1)).unwrap_or('\u{fffd}')
    }
}

/// Random text of roughly `len` bytes (at most, within one character).
pub fn any_text(r: &mut Rng, len: usize) -> String {
    let mut s = String::new();
    let ascii = r.chance(1, 3);
    while s.len() < len {
        let c = if ascii { (b'!' + r.below(90) as u8) as char } else { any_char(r) };
        if s.len() + c.len_utf8() > len {
            s.push((b'a' + (s.len() % 26) as u8) as char);
        } else {
            s.push(c);
        }
    }
    s
}

/// `i`-th symbol of a synthetic alphabet starting at code point `base`.
pub fn sym(base: u32, i: usize) -> char {
    let mut c = base + i as u32;
    if c >= 0xd800 {
        c += 0x800;
    }
    char::from_u32(c).unwrap_or('?')
}
