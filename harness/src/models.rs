//! Executable specifications. Nothing here uses the library under test: the
//! rules come from the crate's documentation, CSS Counter Styles Level 3,
//! Unicode character data and the usual descriptions of each numeral system.
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    /// The expected text is in the output buffer.
    Text,
    NoZero,
    Oob,
    /// Anything but a panic, hang or wrong text: the case is degenerate.
    Any,
}

pub trait Model: Sync + Send {
    fn exp(&self, v: u128, out: &mut String) -> K;
}

impl<F> Model for F
where
    F: Fn(u128, &mut String) -> K + Sync + Send,
{
    fn exp(&self, v: u128, out: &mut String) -> K {
        self(v, out)
    }
}

// ---- digit collections ---------------------------------------------------

#[derive(Clone, Debug)]
pub struct DSpec {
    pub digits: Arc<[char]>,
    pub has_zero: bool,
    pub zero_based: bool,
    pub fixed: bool,
    pub fallback: Option<Arc<DSpec>>,
}

impl DSpec {
    pub fn zero(digits: Vec<char>) -> Self {
        DSpec { digits: digits.into(), has_zero: true, zero_based: true, fixed: false, fallback: None }
    }
    pub fn alpha(digits: Vec<char>) -> Self {
        DSpec { digits: digits.into(), has_zero: false, zero_based: true, fixed: false, fallback: None }
    }
    pub fn fixed(digits: Vec<char>, zero_based: bool, fallback: Option<DSpec>) -> Self {
        DSpec { digits: digits.into(), has_zero: false, zero_based, fixed: true, fallback: fallback.map(Arc::new) }
    }
    pub fn one_based(&self) -> Self {
        DSpec { zero_based: false, ..self.clone() }
    }
    pub fn restrict(&self, n: usize) -> Self {
        let n = n.min(self.digits.len());
        DSpec { digits: self.digits[..n].into(), ..self.clone() }
    }
    pub fn chain(&self, b: &DSpec) -> Self {
        let digits: Vec<char> = self.digits.iter().chain(b.digits.iter()).copied().collect();
        DSpec { digits: digits.into(), fixed: false, fallback: None, ..self.clone() }
    }
    pub fn counts_from_one(&self) -> bool {
        !self.has_zero && !self.zero_based
    }
    pub fn describe(&self) -> String {
        let ds: String = self.digits.iter().take(6).collect();
        format!(
            "N={} digits={:?}{} zero={} zero_based={} fixed={}{}",
            self.digits.len(),
            ds,
            if self.digits.len() > 6 { ".." } else { "" },
            self.has_zero,
            self.zero_based,
            self.fixed,
            self.fallback.as_ref().map_or(String::new(), |f| format!(" fallback=[{}]", f.describe()))
        )
    }
}

impl Model for DSpec {
    fn exp(&self, v: u128, out: &mut String) -> K {
        let n = self.digits.len() as u128;
        if self.counts_from_one() && v == 0 {
            return if n == 0 { K::Any } else { K::NoZero };
        }
        let k = if self.counts_from_one() { v - 1 } else { v };
        if self.fixed {
            return if k < n {
                out.push(self.digits[k as usize]);
                K::Text
            } else if let Some(f) = self.fallback.as_ref().filter(|f| !f.digits.is_empty()) {
                f.exp(v, out)
            } else {
                K::Oob
            };
        }
        if n == 0 {
            return if v == 0 { K::Any } else { K::Oob };
        }
        if self.has_zero {
            if n == 1 {
                if v > 0 {
                    return K::Oob;
                }
                out.push(self.digits[0]);
                return K::Text;
            }
            let mut p = 1u128;
            while v / p >= n {
                p *= n;
            }
            write_base(&self.digits, v, p, n, out);
        } else if n == 1 {
            for _ in 0..=k {
                out.push(self.digits[0]);
            }
        } else {
            // Skip all the shorter strings: n of length 1, n^2 of length 2, ..
            let (mut rest, mut p) = (k, 1u128);
            while let Some(words) = p.checked_mul(n) {
                if rest < words {
                    break;
                }
                rest -= words;
                p = words;
            }
            write_base(&self.digits, rest, p, n, out);
        }
        K::Text
    }
}

fn write_base(digits: &[char], mut v: u128, mut p: u128, n: u128, out: &mut String) {
    loop {
        out.push(digits[(v / p) as usize]);
        v %= p;
        if p == 1 {
            return;
        }
        p /= n;
    }
}

fn run(from: u32, n: usize) -> Vec<char> {
    (0..n as u32).map(|i| char::from_u32(from + i).unwrap()).collect()
}

/// (name, code point of the script's digit zero)
pub const NUMERIC: [(&str, u32); 18] = [
    ("Decimal", 0x30),
    ("EasternArabic", 0x660),
    ("Persian", 0x6F0),
    ("Bengali", 0x9E6),
    ("Cambodian", 0x17E0),
    ("Devanagari", 0x966),
    ("Gujarati", 0xAE6),
    ("Gurmukhi", 0xA66),
    ("Kannada", 0xCE6),
    ("Lao", 0xED0),
    ("Malayalam", 0xD66),
    ("Mongolian", 0x1810),
    ("Myanmar", 0x1040),
    ("Oriya", 0xB66),
    ("Tamil", 0xBE6),
    ("Telugu", 0xC66),
    ("Thai", 0xE50),
    ("Tibetan", 0xF20),
];

const GOJUON: &str = "あいうえおかきくけこさしすせそたちつてとなにぬねのはひふへほまみむめもやゆよらりるれろわをん";
const IROHA: &str = "いろはにほへとちりぬるをわかよたれそつねならむうゐのおくやまけふこえてあさきゆめみしゑひもせす";

fn katakana(s: &str) -> Vec<char> {
    s.chars().map(|c| char::from_u32(c as u32 + 0x60).unwrap()).collect()
}

fn greek(first: u32, hole: u32) -> Vec<char> {
    run(first, 25).into_iter().filter(|&c| c as u32 != hole).collect()
}

fn hangeul_syllables() -> Vec<char> {
    // initial consonants without the doubled ones, each with the vowel "a"
    [0u32, 2, 3, 5, 6, 7, 9, 11, 12, 14, 15, 16, 17, 18]
        .iter()
        .map(|i| char::from_u32(0xAC00 + i * 588).unwrap())
        .collect()
}

fn hangeul_jamo() -> Vec<char> {
    [0x3131, 0x3134, 0x3137, 0x3139, 0x3141, 0x3142, 0x3145, 0x3147, 0x3148, 0x314A, 0x314B, 0x314C, 0x314D, 0x314E]
        .iter()
        .map(|&c| char::from_u32(c).unwrap())
        .collect()
}

pub fn digit_spec(name: &str) -> DSpec {
    if let Some((_, z)) = NUMERIC.iter().find(|(n, _)| *n == name) {
        return DSpec::zero(run(*z, 10));
    }
    let cjk = || DSpec::zero("〇一二三四五六七八九".chars().collect());
    match name {
        "CjkDecimal" => cjk(),
        "CjkHeavenlyStem" => DSpec::fixed("甲乙丙丁戊己庚辛壬癸".chars().collect(), false, Some(cjk())),
        "CjkEarthlyBranch" => DSpec::fixed("子丑寅卯辰巳午未申酉戌亥".chars().collect(), false, Some(cjk())),
        "HexUpper" => DSpec::zero("0123456789ABCDEF".chars().collect()),
        "HexLower" => DSpec::zero("0123456789abcdef".chars().collect()),
        "LetterUpper" => DSpec::alpha(run(0x41, 26)),
        "LetterLower" => DSpec::alpha(run(0x61, 26)),
        "GreekUpper" => DSpec::alpha(greek(0x391, 0x3A2)),
        "GreekLower" => DSpec::alpha(greek(0x3B1, 0x3C2)),
        "Hiragana" => DSpec::alpha(GOJUON.chars().collect()),
        "HiraganaIroha" => DSpec::alpha(IROHA.chars().collect()),
        "Katakana" => DSpec::alpha(katakana(GOJUON)),
        "KatakanaIroha" => DSpec::alpha(katakana(IROHA)),
        "HangeulJamo" => DSpec::alpha(hangeul_jamo()),
        "HangeulSyllable" => DSpec::alpha(hangeul_syllables()),
        _ => panic!("no digit spec for {name}"),
    }
}


// ---- additive sets -------------------------------------------------------

#[derive(Clone, Debug)]
pub struct ASpec {
    /// Symbols in strictly descending value order.
    pub syms: Vec<(String, u128)>,
}

impl ASpec {
    /// How many symbols the greedy sum of `v` takes.
    pub fn count(&self, mut v: u128) -> u128 {
        let mut n = 0u128;
        for (_, x) in &self.syms {
            if *x > 0 {
                n = n.saturating_add(v / x);
                v %= x;
            }
        }
        n
    }
}

impl Model for ASpec {
    fn exp(&self, v: u128, out: &mut String) -> K {
        if v == 0 {
            return match self.syms.last() {
                Some((z, 0)) => {
                    out.push_str(z);
                    K::Text
                }
                _ => K::NoZero,
            };
        }
        let mut rest = v;
        for (s, x) in &self.syms {
            if *x == 0 {
                break;
            }
            for _ in 0..rest / x {
                out.push_str(s);
            }
            rest %= x;
        }
        if rest == 0 {
            K::Text
        } else {
            K::Oob
        }
    }
}


/// Armenian: 36 letters in alphabet order are 1-9, 10-90, 100-900, 1000-9000.
pub fn armenian(first: u32, v: u128, out: &mut String) -> K {
    if v == 0 {
        return K::NoZero;
    }
    let letter = |place: u32, d: u128| char::from_u32(first + place * 9 + d as u32 - 1).unwrap();
    let (many, mut rest) = (v / 9000, v % 9000);
    for _ in 0..many {
        out.push(letter(3, 9));
    }
    for (place, unit) in [(3u32, 1000u128), (2, 100), (1, 10), (0, 1)] {
        let d = rest / unit;
        rest %= unit;
        if d > 0 {
            out.push(letter(place, d));
        }
    }
    K::Text
}

/// Georgian letters by value (ones, tens, hundreds, thousands, 10000).
pub const GEORGIAN: &str = "აბგდევზჱთიკლმნჲოპჟრსტჳფქღყშჩცძწჭხჴჯჰჵ";

pub fn georgian(v: u128, out: &mut String) -> K {
    if v == 0 {
        return K::NoZero;
    }
    let letters: Vec<char> = GEORGIAN.chars().collect();
    for _ in 0..v / 10_000 {
        out.push(letters[36]);
    }
    let mut rest = v % 10_000;
    for (place, unit) in [(3usize, 1000u128), (2, 100), (1, 10), (0, 1)] {
        let d = (rest / unit) as usize;
        rest %= unit;
        if d > 0 {
            out.push(letters[place * 9 + d - 1]);
        }
    }
    K::Text
}

pub struct Cjk {
    pub digits: [char; 10],
    pub units: [char; 3],
    pub formal: bool,
}

pub fn cjk(name: &str) -> Cjk {
    let d = |s: &str| -> [char; 10] { s.chars().collect::<Vec<_>>().try_into().unwrap() };
    let (digits, units, formal) = match name {
        "JapaneseFormal" => (d("零壱弐参四伍六七八九"), ['拾', '百', '阡'], true),
        "JapaneseInformal" => (d("〇一二三四五六七八九"), ['十', '百', '千'], false),
        "HangeulFormal" => (d("영일이삼사오육칠팔구"), ['십', '백', '천'], true),
        "HanjaInformal" => (d("零一二三四五六七八九"), ['十', '百', '千'], false),
        "HanjaFormal" => (d("零壹貳參四五六七八九"), ['拾', '百', '仟'], true),
        _ => panic!("no CJK table for {name}"),
    };
    // CSS uses U+4EDF for the formal thousand, U+8CB3 and U+58F9 for 2 and 1.
    let mut digits = digits;
    let mut units = units;
    if name == "HanjaFormal" {
        digits[1] = '\u{58F9}';
        digits[2] = '\u{8CB3}';
        digits[3] = '\u{53C3}';
        units[2] = '\u{4EDF}';
    }
    Cjk { digits, units, formal }
}

impl Model for Cjk {
    fn exp(&self, v: u128, out: &mut String) -> K {
        if v == 0 {
            out.push(self.digits[0]);
            return K::Text;
        }
        let mut put = |d: u128, unit: Option<char>| {
            if d == 0 {
                return;
            }
            if d > 1 || self.formal || unit.is_none() {
                out.push(self.digits[d as usize]);
            }
            if let Some(u) = unit {
                out.push(u);
            }
        };
        for _ in 0..v / 9000 {
            put(9, Some(self.units[2]));
        }
        let rest = v % 9000;
        put(rest / 1000, Some(self.units[2]));
        put(rest / 100 % 10, Some(self.units[1]));
        put(rest / 10 % 10, Some(self.units[0]));
        put(rest % 10, None);
        K::Text
    }
}

// ---- Roman ---------------------------------------------------------------

fn roman_digit(d: u128, one: char, five: char, ten: char, over: bool, out: &mut String) {
    let mut put = |c: char| {
        out.push(c);
        if over {
            out.push('\u{305}');
        }
    };
    match d {
        0..=3 => (0..d).for_each(|_| put(one)),
        4 => {
            put(one);
            put(five);
        }
        5..=8 => {
            put(five);
            (5..d).for_each(|_| put(one));
        }
        _ => {
            put(one);
            put(ten);
        }
    }
}

pub fn roman(v: u128, lower: bool, out: &mut String) -> K {
    let start = out.len();
    if v == 0 {
        out.push('N');
    }
    let (millions, below) = (v / 1_000_000, v % 1_000_000);
    for _ in 0..millions {
        out.push_str("M\u{305}");
    }
    let th = below / 1000;
    roman_digit(th / 100, 'C', 'D', 'M', true, out);
    roman_digit(th / 10 % 10, 'X', 'L', 'C', true, out);
    match th % 10 {
        u @ 0..=3 => (0..u).for_each(|_| out.push('M')),
        4 => out.push_str("I\u{305}V\u{305}"),
        9 => out.push_str("I\u{305}X\u{305}"),
        u => {
            out.push_str("V\u{305}");
            (5..u).for_each(|_| out.push('M'));
        }
    }
    let rest = below % 1000;
    roman_digit(rest / 100, 'C', 'D', 'M', false, out);
    roman_digit(rest / 10 % 10, 'X', 'L', 'C', false, out);
    roman_digit(rest % 10, 'I', 'V', 'X', false, out);
    if lower {
        let low = out[start..].to_lowercase();
        out.truncate(start);
        out.push_str(&low);
    }
    K::Text
}

/// Reads a Roman numeral back: a symbol before a larger one subtracts.
pub fn read_roman(s: &str) -> Option<u128> {
    let up = s.to_uppercase();
    if up == "N" {
        return Some(0);
    }
    let cs: Vec<char> = up.chars().collect();
    let mut vals = Vec::new();
    let mut i = 0;
    while i < cs.len() {
        let mut x: u128 = match cs[i] {
            'I' => 1,
            'V' => 5,
            'X' => 10,
            'L' => 50,
            'C' => 100,
            'D' => 500,
            'M' => 1000,
            _ => return None,
        };
        i += 1;
        if cs.get(i) == Some(&'\u{305}') {
            x *= 1000;
            i += 1;
        }
        vals.push(x);
    }
    let mut total = 0i128;
    for (i, &x) in vals.iter().enumerate() {
        if vals.get(i + 1).is_some_and(|&y| y > x) {
            total -= x as i128;
        } else {
            total += x as i128;
        }
    }
    u128::try_from(total).ok()
}

// ---- Hebrew --------------------------------------------------------------

const HEBREW_ONES: [char; 9] = ['א', 'ב', 'ג', 'ד', 'ה', 'ו', 'ז', 'ח', 'ט'];
const HEBREW_TENS: [char; 9] = ['י', 'כ', 'ל', 'מ', 'נ', 'ס', 'ע', 'פ', 'צ'];
const HEBREW_HUNDREDS: [char; 4] = ['ק', 'ר', 'ש', 'ת'];
pub const GERESH: char = '\u{5F3}';
pub const GERSHAYIM: char = '\u{5F4}';

pub fn hebrew(v: u128, out: &mut String) -> K {
    if v == 0 {
        return K::NoZero;
    }
    let start = out.len();
    for _ in 0..v / 400 {
        out.push(HEBREW_HUNDREDS[3]);
    }
    let rest = v % 400;
    if rest >= 100 {
        out.push(HEBREW_HUNDREDS[(rest / 100) as usize - 1]);
    }
    let two = (rest % 100) as usize;
    if two == 15 || two == 16 {
        out.push(HEBREW_ONES[8]);
        out.push(GERSHAYIM);
        out.push(HEBREW_ONES[two - 10]);
    } else {
        if two >= 10 {
            out.push(HEBREW_TENS[two / 10 - 1]);
        }
        if two % 10 > 0 {
            out.push(HEBREW_ONES[two % 10 - 1]);
        }
    }
    if out[start..].chars().count() == 1 {
        out.insert(start, GERESH);
        out.push(GERSHAYIM);
    }
    K::Text
}

pub fn read_hebrew(s: &str) -> Option<u128> {
    let mut total = 0u128;
    for c in s.chars() {
        if c == GERESH || c == GERSHAYIM {
            continue;
        }
        let x = if let Some(i) = HEBREW_ONES.iter().position(|&h| h == c) {
            i as u128 + 1
        } else if let Some(i) = HEBREW_TENS.iter().position(|&h| h == c) {
            (i as u128 + 1) * 10
        } else if let Some(i) = HEBREW_HUNDREDS.iter().position(|&h| h == c) {
            (i as u128 + 1) * 100
        } else {
            return None;
        };
        total += x;
    }
    Some(total)
}

// ---- Ethiopic ------------------------------------------------------------

/// CSS Counter Styles 3, "ethiopic-numeric", step by step.
pub fn ethiopic(v: u128, out: &mut String) -> K {
    if v == 0 {
        return K::NoZero;
    }
    if v == 1 {
        out.push('\u{1369}');
        return K::Text;
    }
    let mut groups = Vec::new();
    let mut rest = v;
    while rest > 0 {
        groups.push((rest % 100) as u32);
        rest /= 100;
    }
    let last = groups.len() - 1;
    for i in (0..groups.len()).rev() {
        let g = groups[i];
        let drop_digits = g == 0 || (g == 1 && i == last) || (g == 1 && i % 2 == 1);
        if !drop_digits {
            if g / 10 > 0 {
                out.push(char::from_u32(0x1372 + g / 10 - 1).unwrap());
            }
            if g % 10 > 0 {
                out.push(char::from_u32(0x1369 + g % 10 - 1).unwrap());
            }
        }
        if i % 2 == 1 && g != 0 {
            out.push('\u{137B}');
        }
        if i % 2 == 0 && i != 0 {
            out.push('\u{137C}');
        }
    }
    K::Text
}

pub fn read_ethiopic(s: &str) -> Option<u128> {
    let (mut total, mut block, mut cur) = (0u128, 0u128, None::<u128>);
    for (i, c) in s.chars().enumerate() {
        match c as u32 {
            x @ 0x1369..=0x1371 => cur = Some(cur.unwrap_or(0).checked_add(u128::from(x - 0x1368))?),
            x @ 0x1372..=0x137A => {
                if cur.is_some() {
                    return None;
                }
                cur = Some(u128::from(x - 0x1371) * 10);
            }
            0x137B => {
                if block != 0 {
                    return None;
                }
                block = cur.take().unwrap_or(1) * 100;
            }
            0x137C => {
                let low = cur.take().unwrap_or(u128::from(i == 0));
                total = total.checked_add(block)?.checked_add(low)?.checked_mul(10_000)?;
                block = 0;
            }
            _ => return None,
        }
    }
    total.checked_add(block)?.checked_add(cur.unwrap_or(0))
}

// ---- Chinese -------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Scale {
    Short,
    Myriad,
    Mid,
    Long,
}
pub const SCALES: [Scale; 4] = [Scale::Short, Scale::Myriad, Scale::Mid, Scale::Long];

#[derive(Clone, Copy, Debug)]
pub struct Zh {
    pub traditional: bool,
    pub formal: bool,
    pub financial: bool,
    pub scale: Scale,
}

pub fn zh_digits(traditional: bool, financial: bool) -> [char; 13] {
    let s = match (traditional, financial) {
        (_, false) => "零一二三四五六七八九十百千",
        (false, true) => "零壹贰叁肆伍陆柒捌玖拾佰仟",
        (true, true) => "零壹貳參肆伍陸柒捌玖拾佰仟",
    };
    s.chars().collect::<Vec<_>>().try_into().unwrap()
}

pub fn zh_large(traditional: bool) -> [char; 11] {
    let s = if traditional { "萬億兆京垓秭穰溝澗正載" } else { "万亿兆京垓秭穰沟涧正载" };
    s.chars().collect::<Vec<_>>().try_into().unwrap()
}

/// Value of each large unit of a scale, smallest first (as far as u128 goes).
pub fn zh_units(scale: Scale) -> Vec<u128> {
    let mut out = vec![10_000u128];
    while out.len() < 11 {
        let last = *out.last().unwrap();
        let next = match scale {
            Scale::Short => last.checked_mul(10),
            Scale::Myriad => last.checked_mul(10_000),
            Scale::Mid if out.len() == 1 => Some(100_000_000),
            Scale::Mid => last.checked_mul(100_000_000),
            Scale::Long => last.checked_mul(last),
        };
        match next {
            Some(n) => out.push(n),
            None => break,
        }
    }
    out
}

pub const SHORT_LIMIT: u128 = 1_000_000_000_000_000;

impl Zh {
    pub fn name(&self) -> String {
        format!(
            "{}Chinese{}{}.{:?}",
            if self.traditional { "Traditional" } else { "Simplified" },
            if self.formal { "Formal" } else { "Informal" },
            if self.financial { ".financial" } else { "" },
            self.scale
        )
    }
    fn units(&self) -> Vec<(u128, char)> {
        let d = zh_digits(self.traditional, self.financial);
        let mut u = vec![(10, d[10]), (100, d[11]), (1000, d[12])];
        u.extend(zh_units(self.scale).into_iter().zip(zh_large(self.traditional)));
        u
    }
    fn put(v: u128, digits: &[char; 13], units: &[(u128, char)], out: &mut String) {
        if v < 10 {
            out.push(digits[v as usize]);
            return;
        }
        let &(u, c) = units.iter().rev().find(|(u, _)| *u <= v).unwrap();
        Self::put(v / u, digits, units, out);
        out.push(c);
        let low = v % u;
        if low > 0 {
            if low < u / 10 {
                out.push(digits[0]);
            }
            Self::put(low, digits, units, out);
        }
    }
    /// The number a text denotes, by the units of this scale: the largest unit
    /// splits the text in a multiplier and a rest. None when malformed.
    pub fn read(&self, s: &str) -> Option<u128> {
        let d = zh_digits(self.traditional, self.financial);
        let cs: Vec<char> = s.chars().collect();
        Self::read_part(&cs, &d, &self.units(), true)
    }
    fn read_part(cs: &[char], digits: &[char; 13], units: &[(u128, char)], first: bool) -> Option<u128> {
        if let [c] = cs {
            if let Some(d) = digits[..10].iter().position(|x| x == c) {
                return Some(d as u128);
            }
        }
        let best = cs
            .iter()
            .enumerate()
            .filter_map(|(i, c)| units.iter().find(|(_, u)| u == c).map(|(u, _)| (*u, i)))
            .max_by_key(|&(u, i)| (u, std::cmp::Reverse(i)))?;
        let (u, i) = best;
        let high = if i == 0 {
            if !(first && u == 10) {
                return None;
            }
            1
        } else {
            Self::read_part(&cs[..i], digits, units, first)?
        };
        let mut low = &cs[i + 1..];
        if low.first() == Some(&digits[0]) {
            low = &low[1..];
            if low.is_empty() {
                return None;
            }
        }
        let low = if low.is_empty() { 0 } else { Self::read_part(low, digits, units, false)? };
        if high == 0 || low >= u {
            return None;
        }
        high.checked_mul(u)?.checked_add(low)
    }
}

impl Model for Zh {
    fn exp(&self, v: u128, out: &mut String) -> K {
        if self.scale == Scale::Short && v >= SHORT_LIMIT {
            return K::Oob;
        }
        let digits = zh_digits(self.traditional, self.financial);
        let start = out.len();
        Self::put(v, &digits, &self.units(), out);
        if !self.formal {
            let mut it = out[start..].chars();
            if it.next() == Some(digits[1]) && it.next() == Some(digits[10]) {
                out.drain(start..start + digits[1].len_utf8());
            }
        }
        K::Text
    }
}

// ---- enumerated ----------------------------------------------------------

#[derive(Clone, Debug)]
pub struct ESpec {
    pub syms: Vec<String>,
    pub zero: bool,
}

impl Model for ESpec {
    fn exp(&self, v: u128, out: &mut String) -> K {
        let i = if self.zero {
            v
        } else if v == 0 {
            return K::NoZero;
        } else {
            v - 1
        };
        if i < self.syms.len() as u128 {
            out.push_str(&self.syms[i as usize]);
            K::Text
        } else {
            K::Oob
        }
    }
}

/// Circled numbers by Unicode block: 0; 1-20; 21-35; 36-50.
pub fn circled() -> ESpec {
    let mut v = vec!['\u{24EA}'.to_string()];
    for (a, b) in [(0x2460u32, 0x2473u32), (0x3251, 0x325F), (0x32B1, 0x32BF)] {
        v.extend((a..=b).map(|c| char::from_u32(c).unwrap().to_string()));
    }
    ESpec { syms: v, zero: true }
}

pub fn double_circled() -> ESpec {
    ESpec { syms: (0x24F5u32..=0x24FE).map(|c| char::from_u32(c).unwrap().to_string()).collect(), zero: false }
}
