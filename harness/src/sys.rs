//! The systems under test, each with its executable specification.
use crate::gen::{sym, Rng};
use crate::models::*;
use crate::obs::*;
use nominals::*;
use std::cell::Cell;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fam {
    Positional,
    Alphabetic,
    Fixed,
    Roman,
    ArmGeo,
    Cjk,
    Hebrew,
    Ethiopic,
    Chinese,
    Enumerated,
    Additive,
}

pub struct Sys {
    pub name: String,
    pub fam: Fam,
    pub sys: &'static dyn AllSys,
    pub model: Box<dyn Model>,
    /// A number around whose powers interesting things happen.
    pub base: u128,
    /// Largest number used in bulk while heap support lets the text grow.
    pub cap: u128,
    pub spec: Option<DSpec>,
    pub probe: Option<Box<dyn Fn() -> Probe + Sync + Send>>,
    #[allow(clippy::type_complexity)]
    pub via: Option<&'static (dyn Via + Sync)>,
    pub builtin: bool,
    pub desc: String,
    /// The symbols, when their sum can get far too long.
    pub sums: Option<ASpec>,
}

impl Sys {
    /// Is the text of `v` short enough to be made in bulk on the heap?
    pub fn fits_heap(&self, v: u128) -> bool {
        v <= self.cap && self.sums.as_ref().is_none_or(|a| a.count(v) <= 1200)
    }
    pub fn fits(&self, v: u128) -> bool {
        let stops = !cfg!(feature = "alloc") && self.sums.as_ref().is_none_or(|a| a.syms.iter().all(|s| !s.0.is_empty()));
        stops || self.fits_heap(v)
    }
    pub fn cap(&self) -> u128 {
        if cfg!(feature = "alloc") {
            self.cap
        } else {
            u128::MAX
        }
    }
}

/// What a digit collection says about itself.
#[derive(Debug, PartialEq, Eq)]
pub struct Probe {
    pub digits: Vec<char>,
    pub is_empty: bool,
    pub has_zero: bool,
    pub zero_based: bool,
    pub fixed: bool,
}

pub fn probe<C: DigitCollection>(c: &C) -> Probe {
    Probe {
        digits: (0..c.len()).map(|i| c.digit(i)).collect(),
        is_empty: c.is_empty(),
        has_zero: c.has_zero_digit(),
        zero_based: c.zero_based(),
        fixed: c.fixed(),
    }
}

/// Owned instances of a system, in every kind of pointer.
pub trait Make<T: Nominal> {
    fn entry(&self, f: &mut dyn FnMut(&dyn Entry<T>));
    fn plain(&self, f: &mut dyn FnMut(&dyn NominalSystem<T>));
    #[cfg_attr(not(feature = "alloc"), allow(dead_code))]
    fn boxed(&self) -> Box<dyn NominalSystem<T>>;
    #[cfg_attr(not(feature = "alloc"), allow(dead_code))]
    fn rc(&self) -> std::rc::Rc<dyn NominalSystem<T>>;
    #[cfg_attr(not(feature = "alloc"), allow(dead_code))]
    fn arc(&self) -> Arc<dyn NominalSystem<T>>;
}

/// Makes owned instances of a concrete system.
pub struct Maker<F>(pub F);

impl<T: Nominal, S: NominalSystem<T> + 'static, F: Fn() -> S> Make<T> for Maker<F> {
    fn entry(&self, f: &mut dyn FnMut(&dyn Entry<T>)) {
        f(&(self.0)());
    }
    fn plain(&self, f: &mut dyn FnMut(&dyn NominalSystem<T>)) {
        f(&(self.0)());
    }
    fn boxed(&self) -> Box<dyn NominalSystem<T>> {
        Box::new((self.0)())
    }
    fn rc(&self) -> std::rc::Rc<dyn NominalSystem<T>> {
        std::rc::Rc::new((self.0)())
    }
    fn arc(&self) -> Arc<dyn NominalSystem<T>> {
        Arc::new((self.0)())
    }
}

type Seen<'a> = &'a mut dyn FnMut(&'static str, Result<(Out, String), String>);

/// Runs one number through every pointer type.
pub trait Via {
    fn each(&self, w: W, v: u128, f: Seen);
}

impl<M> Via for M
where
    M: Make<u8> + Make<u16> + Make<u32> + Make<u64> + Make<u128> + Make<usize>,
{
    fn each(&self, w: W, v: u128, f: Seen) {
        match w {
            W::U8 => via::<u8>(self, v, f),
            W::U16 => via::<u16>(self, v, f),
            W::U32 => via::<u32>(self, v, f),
            W::U64 => via::<u64>(self, v, f),
            W::U128 => via::<u128>(self, v, f),
            W::Us => via::<usize>(self, v, f),
        }
    }
}

fn via<T: Num>(mk: &dyn Make<T>, v: u128, f: Seen) {
    let n = T::from128(v);
    {
        let (r, _) = crate::mon::observe(|| {
            let mut r = None;
            mk.entry(&mut |s| {
                let t = out(s.try_system(n));
                let text = String::from(&*s.system(n));
                let t2 = out(s.try_nominal(n));
                let text2 = String::from(&*s.nominal(n));
                assert!(same(&t, &t2), "try_to_nominal differs from try_format_nominal");
                assert!(text == text2, "to_nominal differs from format_nominal");
                r = Some((t, text));
            });
            r.unwrap()
        });
        f("direct", r);
    }
    {
        let (r, _) = crate::mon::observe(|| {
            let mut r = None;
            mk.plain(&mut |d| {
                let t = out(d.try_format_nominal(n));
                let t2 = out(n.try_to_nominal(d));
                assert!(same(&t, &t2), "try_to_nominal differs from try_format_nominal");
                r = Some((t, String::from(&*d.format_nominal(n))));
            });
            r.unwrap()
        });
        f("&dyn", r);
    }
    #[cfg(feature = "alloc")]
    {
        use std::rc::Rc;
        type B<T> = Box<dyn NominalSystem<T>>;
        type R<T> = Rc<dyn NominalSystem<T>>;
        type A<T> = Arc<dyn NominalSystem<T>>;
        macro_rules! one {
            ($label:literal, $e:expr) => {{
                let (r, _) = crate::mon::observe(|| {
                    let s = $e;
                    let t = out(s.try_format_nominal(n));
                    let text = String::from(&*s.format_nominal(n));
                    let t2 = out(n.try_to_nominal(&s));
                    let text2 = String::from(&*n.to_nominal(&s));
                    assert!(same(&t, &t2), "try_to_nominal differs from try_format_nominal");
                    assert!(text == text2, "to_nominal differs from format_nominal");
                    (t, text)
                });
                f($label, r);
            }};
        }
        one!("Box", mk.boxed());
        one!("Rc", mk.rc());
        one!("Arc", mk.arc());
        one!("Box<Box>", Box::new(mk.boxed()) as B<T>);
        one!("Box<Rc>", Box::new(mk.rc()) as B<T>);
        one!("Rc<Arc>", Rc::new(mk.arc()) as R<T>);
        one!("Arc<Box>", Arc::new(mk.boxed()) as A<T>);
        one!("Arc<Rc<Box>>", Arc::new(Rc::new(mk.boxed()) as R<T>) as A<T>);
        one!("Rc<Rc>", Rc::new(mk.rc()) as R<T>);
        one!("Box<Arc>", Box::new(mk.arc()) as B<T>);
        one!("Arc<Arc>", Arc::new(mk.arc()) as A<T>);
        macro_rules! at {
            ($label:literal, $e:expr) => {{
                let (r, _) = crate::mon::observe(|| {
                    let s = $e;
                    let d: &dyn NominalSystem<T> = s;
                    let t = out(d.try_format_nominal(n));
                    let text = String::from(&*d.format_nominal(n));
                    let t2 = out(n.try_to_nominal(s));
                    let text2 = String::from(&*n.to_nominal(s));
                    assert!(same(&t, &t2), "try_to_nominal differs from try_format_nominal");
                    assert!(text == text2, "to_nominal differs from format_nominal");
                    (t, text)
                });
                f($label, r);
            }};
        }
        // with other owners and observers about
        let (one, two) = (mk.rc(), mk.rc());
        one!("Rc with two owners", one.clone());
        let _weak = Rc::downgrade(&two);
        at!("&Rc with a weak reference", &two);
        one!("Rc<Rc> of a shared one", Rc::new(two.clone()) as R<T>);
        let (one, two) = (mk.arc(), mk.arc());
        one!("Arc with two owners", one.clone());
        let _weak = Arc::downgrade(&two);
        at!("&Arc with a weak reference", &two);
        one!("Box<Arc> of a shared one", Box::new(two.clone()) as B<T>);
        let outer = Arc::new(two.clone()) as A<T>;
        one!("Arc<Arc> all shared", outer.clone());
        let many: Vec<R<T>> = (0..3).map(|_| Rc::new(mk.boxed()) as R<T>).collect();
        let more = many.clone();
        one!("Rc<Box> out of a list", more[1].clone());
        at!("&Box", &mk.boxed());
        // as many owners and observers as there may be, by the number
        let k = ((v ^ (v >> 64)) % 42) as usize;
        let (owners, weak) = ([1, 2, 3, 4, 9, 70][k % 6], [0, 1, 2, 3, 4, 9, 70][k / 6]);
        let (one, two) = (mk.rc(), mk.arc());
        let (_own, _own2): (Vec<_>, Vec<_>) = (1..owners).map(|_| (one.clone(), two.clone())).unzip();
        let (_weak, _weak2): (Vec<_>, Vec<_>) = (0..weak).map(|_| (Rc::downgrade(&one), Arc::downgrade(&two))).unzip();
        at!("&Rc with owners and weak references", &one);
        at!("&Arc with owners and weak references", &two);
    }
}

fn leak<S: AllSys + 'static>(s: S) -> &'static dyn AllSys {
    Box::leak(Box::new(s))
}

fn via_of<S, F>(f: F) -> Option<&'static (dyn Via + Sync)>
where
    F: Fn() -> S + Sync + Send + 'static,
    Maker<F>: Via,
{
    Some(Box::leak(Box::new(Maker(f))))
}

// ---- built-in systems ----------------------------------------------------

fn fam_of(s: &DSpec) -> Fam {
    if s.fixed {
        Fam::Fixed
    } else if s.has_zero {
        Fam::Positional
    } else {
        Fam::Alphabetic
    }
}

fn mk<S, F>(name: &str, fam: Fam, make: F, model: Box<dyn Model>, base: u128, cap: u128) -> Sys
where
    F: Fn() -> S + Sync + Send + Copy + 'static,
    S: AllSys + 'static,
    Maker<F>: Via,
{
    Sys {
        name: name.into(),
        fam,
        sys: leak(make()),
        model,
        base,
        cap,
        spec: None,
        probe: None,
        via: via_of(make),
        builtin: true,
        sums: None,
        desc: String::new(),
    }
}

pub fn digit_builtins() -> Vec<Sys> {
    let mut out = Vec::new();
    macro_rules! add {
        ($($t:ident),*) => {$({
            let spec = digit_spec(stringify!($t));
            let mut s = mk(stringify!($t), fam_of(&spec), || $t, Box::new(spec.clone()), spec.digits.len() as u128, u128::MAX);
            s.desc = spec.describe();
            s.spec = Some(spec);
            s.probe = Some(Box::new(|| probe(&$t)));
            out.push(s);
        })*};
    }
    add!(
        Decimal, EasternArabic, Persian, Bengali, Cambodian, Devanagari, Gujarati, Gurmukhi, Kannada, Lao, Malayalam,
        Mongolian, Myanmar, Oriya, Tamil, Telugu, Thai, Tibetan, CjkDecimal, CjkHeavenlyStem, CjkEarthlyBranch,
        HexUpper, HexLower, LetterUpper, LetterLower, GreekUpper, GreekLower, Hiragana, HiraganaIroha, Katakana,
        KatakanaIroha, HangeulJamo, HangeulSyllable
    );
    for (n, t) in [("Urdu", "Persian"), ("Khmer", "Cambodian")] {
        let spec = digit_spec(t);
        let b: Box<dyn Model> = Box::new(spec.clone());
        let mut s = match n {
            "Urdu" => mk(n, fam_of(&spec), || Urdu, b, 10, u128::MAX),
            _ => mk(n, fam_of(&spec), || Khmer, b, 10, u128::MAX),
        };
        s.probe = Some(if n == "Urdu" { Box::new(|| probe(&Urdu)) } else { Box::new(|| probe(&Khmer)) });
        s.desc = spec.describe();
        s.spec = Some(spec);
        out.push(s);
    }
    // the documented way to count from one
    macro_rules! one {
        ($($t:ident),*) => {$({
            let spec = digit_spec(stringify!($t)).one_based();
            let mut s = mk(concat!(stringify!($t), ".one_based()"), fam_of(&spec), || $t.one_based(),
                Box::new(spec.clone()), spec.digits.len() as u128, u128::MAX);
            s.desc = spec.describe();
            s.spec = Some(spec);
            s.probe = Some(Box::new(|| probe(&$t.one_based())));
            out.push(s);
        })*};
    }
    one!(
        Decimal, HexLower, CjkHeavenlyStem, CjkEarthlyBranch, LetterUpper, LetterLower, GreekUpper, GreekLower,
        Hiragana, HiraganaIroha, Katakana, KatakanaIroha, HangeulJamo, HangeulSyllable
    );
    // the chained Greek alphabet of the documentation
    let spec = digit_spec("GreekUpper").chain(&digit_spec("GreekLower"));
    let mut s = mk("GreekUpper.and(GreekLower)", Fam::Alphabetic, || GreekUpper.and(GreekLower), Box::new(spec.clone()), 48, u128::MAX);
    s.probe = Some(Box::new(|| probe(&GreekUpper.and(GreekLower))));
    s.spec = Some(spec);
    out.push(s);
    out
}

pub fn zh_systems() -> Vec<(Zh, Sys)> {
    let mut out = Vec::new();
    macro_rules! add {
        ($t:ident, $trad:expr, $formal:expr) => {{
            let z = |financial, scale| Zh { traditional: $trad, formal: $formal, financial, scale };
            macro_rules! one {
                ($label:literal, $zh:expr, $e:expr) => {{
                    let zh = $zh;
                    let name = concat!(stringify!($t), $label);
                    let cap = u128::MAX;
                    out.push((zh, mk(name, Fam::Chinese, || $e, Box::new(zh), 10, cap)));
                }};
            }
            one!("", z(false, Scale::Myriad), $t::default());
            one!(".financial()", z(true, Scale::Myriad), $t::default().financial());
            one!(".short_scale()", z(false, Scale::Short), $t::default().short_scale());
            one!(".mid_scale()", z(false, Scale::Mid), $t::default().mid_scale());
            one!(".long_scale()", z(false, Scale::Long), $t::default().long_scale());
            one!(".financial().short_scale()", z(true, Scale::Short), $t::default().financial().short_scale());
            one!(".mid_scale().financial()", z(true, Scale::Mid), $t::default().mid_scale().financial());
            one!(".financial().long_scale()", z(true, Scale::Long), $t::default().financial().long_scale());
        }};
    }
    add!(TraditionalChineseFormal, true, true);
    add!(TraditionalChineseInformal, true, false);
    add!(SimplifiedChineseFormal, false, true);
    add!(SimplifiedChineseInformal, false, false);
    out
}

/// Every order of selecting usage and scale, with what it must amount to.
pub fn zh_orders() -> Vec<(Zh, Sys)> {
    let mut out = Vec::new();
    macro_rules! one {
        ($t:ident, $trad:expr, $formal:expr, $sc:ident, $fin:expr; $($m:ident),*) => {{
            let zh = Zh { traditional: $trad, formal: $formal, financial: $fin, scale: Scale::$sc };
            let name = concat!(stringify!($t) $(, ".", stringify!($m))*);
            out.push((zh, mk(name, Fam::Chinese, || $t::default()$(.$m())*, Box::new(zh), 10, u128::MAX)));
        }};
    }
    macro_rules! add {
        ($t:ident, $trad:expr, $formal:expr) => {{
            one!($t, $trad, $formal, Short, true; short_scale, financial);
            one!($t, $trad, $formal, Short, true; financial, short_scale);
            one!($t, $trad, $formal, Mid, true; mid_scale, financial);
            one!($t, $trad, $formal, Mid, true; financial, mid_scale);
            one!($t, $trad, $formal, Long, true; long_scale, financial);
            one!($t, $trad, $formal, Long, true; financial, long_scale);
            one!($t, $trad, $formal, Mid, false; short_scale, mid_scale);
            one!($t, $trad, $formal, Long, false; mid_scale, long_scale);
            one!($t, $trad, $formal, Short, false; long_scale, short_scale);
            one!($t, $trad, $formal, Short, false; mid_scale, short_scale);
            one!($t, $trad, $formal, Long, false; short_scale, long_scale);
            one!($t, $trad, $formal, Mid, false; long_scale, mid_scale);
            one!($t, $trad, $formal, Long, true; short_scale, financial, long_scale);
            one!($t, $trad, $formal, Mid, true; long_scale, financial, mid_scale);
            one!($t, $trad, $formal, Short, true; mid_scale, financial, short_scale);
            one!($t, $trad, $formal, Short, true; financial, financial, short_scale);
            one!($t, $trad, $formal, Myriad, true; financial, financial);
            one!($t, $trad, $formal, Mid, false; mid_scale, mid_scale);
            one!($t, $trad, $formal, Long, true; financial, short_scale, mid_scale, long_scale);
        }};
    }
    add!(TraditionalChineseFormal, true, true);
    add!(TraditionalChineseInformal, true, false);
    add!(SimplifiedChineseFormal, false, true);
    add!(SimplifiedChineseInformal, false, false);
    out
}

pub fn other_builtins() -> Vec<Sys> {
    let mut o = Vec::new();
    let nine: u128 = 5_000_000;
    o.push(mk("RomanUpper", Fam::Roman, || RomanUpper, Box::new(|v, s: &mut String| roman(v, false, s)), 1000, 300_000_000));
    o.push(mk("RomanLower", Fam::Roman, || RomanLower, Box::new(|v, s: &mut String| roman(v, true, s)), 1000, 300_000_000));
    o.push(mk("ArmenianUpper", Fam::ArmGeo, || ArmenianUpper, Box::new(|v, s: &mut String| armenian(0x531, v, s)), 10, nine));
    o.push(mk("ArmenianLower", Fam::ArmGeo, || ArmenianLower, Box::new(|v, s: &mut String| armenian(0x561, v, s)), 10, nine));
    o.push(mk("Georgian", Fam::ArmGeo, || Georgian, Box::new(georgian), 10, nine));
    macro_rules! c {
        ($($t:ident),*) => {$( o.push(mk(stringify!($t), Fam::Cjk, || $t, Box::new(cjk(stringify!($t))), 10, nine)); )*};
    }
    c!(JapaneseFormal, JapaneseInformal, HangeulFormal, HanjaInformal, HanjaFormal);
    o.push(mk("Hebrew", Fam::Hebrew, || Hebrew, Box::new(hebrew), 100, 400_000));
    o.push(mk("Ethiopic", Fam::Ethiopic, || Ethiopic, Box::new(ethiopic), 100, u128::MAX));
    o.push(mk("CircledNumber", Fam::Enumerated, || CircledNumber, Box::new(circled()), 51, u128::MAX));
    o.push(mk("DoubleCircledNumber", Fam::Enumerated, || DoubleCircledNumber, Box::new(double_circled()), 10, u128::MAX));
    o
}

pub fn builtins() -> Vec<Sys> {
    let mut v = digit_builtins();
    v.extend(other_builtins());
    v.extend(zh_systems().into_iter().map(|(_, s)| s));
    v
}

// ---- user-defined digit collections --------------------------------------

thread_local! {
    static QUERIES: Cell<u64> = const { Cell::new(0) };
    static BOUND: Cell<u64> = const { Cell::new(u64::MAX) };
    static BAD_INDEX: Cell<Option<(usize, usize)>> = const { Cell::new(None) };
}

pub fn arm_queries(bound: u64) {
    QUERIES.with(|q| q.set(0));
    BOUND.with(|b| b.set(bound));
    BAD_INDEX.with(|b| b.set(None));
}

/// Queries made since `arm_queries`, and the first out-of-range index asked for.
pub fn queries() -> (u64, Option<(usize, usize)>) {
    BOUND.with(|b| b.set(u64::MAX));
    (QUERIES.with(Cell::get), BAD_INDEX.with(Cell::get))
}

fn query() {
    let n = QUERIES.with(|q| {
        q.set(q.get() + 1);
        q.get()
    });
    assert!(n <= BOUND.with(Cell::get), "more than {n} queries to the digit collection: not making progress");
}

fn ask(index: usize, len: usize) -> bool {
    query();
    if index >= len {
        BAD_INDEX.with(|b| b.set(b.get().or(Some((index, len)))));
        false
    } else {
        true
    }
}

/// A user-defined collection that watches how it is used.
pub struct Dyn<F> {
    pub spec: DSpec,
    _f: std::marker::PhantomData<fn() -> F>,
}

impl<F> Dyn<F> {
    pub fn new(spec: &DSpec) -> Self {
        Dyn { spec: spec.clone(), _f: std::marker::PhantomData }
    }
}

impl<F: DigitCollection + Default> DigitCollection for Dyn<F> {
    type Fallback = F;
    fn fixed(&self) -> bool {
        query();
        self.spec.fixed
    }
    fn has_zero_digit(&self) -> bool {
        query();
        self.spec.has_zero
    }
    fn zero_based(&self) -> bool {
        query();
        self.spec.zero_based
    }
    fn len(&self) -> usize {
        query();
        self.spec.digits.len()
    }
    fn digit(&self, index: usize) -> char {
        if ask(index, self.spec.digits.len()) {
            self.spec.digits[index]
        } else {
            '\u{fffd}'
        }
    }
}

trait Parts: Send + Sync {
    fn fixed(&self) -> bool;
    fn has_zero(&self) -> bool;
    fn zero_based(&self) -> bool;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn digit(&self, index: usize) -> char;
}

impl<D: DigitCollection + Send + Sync> Parts for D {
    fn fixed(&self) -> bool {
        DigitCollection::fixed(self)
    }
    fn has_zero(&self) -> bool {
        self.has_zero_digit()
    }
    fn zero_based(&self) -> bool {
        DigitCollection::zero_based(self)
    }
    fn len(&self) -> usize {
        DigitCollection::len(self)
    }
    fn is_empty(&self) -> bool {
        DigitCollection::is_empty(self)
    }
    fn digit(&self, index: usize) -> char {
        DigitCollection::digit(self, index)
    }
}

/// Any collection with the fallback `F`, so that formatting is compiled once
/// per fallback and not once per combination.
pub struct Era<F> {
    parts: Box<dyn Parts>,
    _f: std::marker::PhantomData<fn() -> F>,
}

impl<F> Era<F> {
    pub fn new<D: DigitCollection<Fallback = F> + Send + Sync + 'static>(d: D) -> Era<D::Fallback> {
        Era { parts: Box::new(d), _f: std::marker::PhantomData }
    }
}

impl<F: DigitCollection + Default> DigitCollection for Era<F> {
    type Fallback = F;
    fn fixed(&self) -> bool {
        self.parts.fixed()
    }
    fn has_zero_digit(&self) -> bool {
        self.parts.has_zero()
    }
    fn zero_based(&self) -> bool {
        self.parts.zero_based()
    }
    fn len(&self) -> usize {
        self.parts.len()
    }
    fn is_empty(&self) -> bool {
        self.parts.is_empty()
    }
    fn digit(&self, index: usize) -> char {
        self.parts.digit(index)
    }
}

macro_rules! fallback {
    ($name:ident, $next:ty, $first:literal, $n:literal, $zb:literal, $fixed:literal) => {
        fallback!($name, $next, $first, $n, $zb, $fixed, false);
    };
    ($name:ident, $next:ty, $first:literal, $n:literal, $zb:literal, $fixed:literal, $zero:literal) => {
        #[derive(Default)]
        pub struct $name;
        impl DigitCollection for $name {
            type Fallback = $next;
            fn fixed(&self) -> bool {
                query();
                $fixed
            }
            fn has_zero_digit(&self) -> bool {
                query();
                $zero
            }
            fn zero_based(&self) -> bool {
                query();
                $zb
            }
            fn len(&self) -> usize {
                query();
                $n
            }
            fn digit(&self, index: usize) -> char {
                if ask(index, $n) {
                    char::from_u32($first + index as u32).unwrap()
                } else {
                    '\u{fffd}'
                }
            }
        }
        impl $name {
            pub fn spec(next: Option<DSpec>) -> DSpec {
                let mut s = DSpec::alpha((0..$n).map(|i| char::from_u32($first + i).unwrap()).collect());
                s.zero_based = $zb;
                s.has_zero = $zero;
                s.fixed = $fixed;
                s.fallback = next.map(Arc::new);
                s
            }
        }
    };
}
// fixed from one -> fixed from zero -> letters
fallback!(FbB, LetterUpper, 0x2460, 30, true, true);
fallback!(FbA, FbB, 0x2776, 20, false, true);
// a fixed fallback with nothing after it
fallback!(FbDead, NoFallback, 0x3400, 290, true, true);
// an alphabet counted from one: has no zero
fallback!(FbOne, NoFallback, 0x5000, 3, false, false);
// one symbol each: a lone zero, a lone one, and at last something that counts
fallback!(FbLone2, Decimal, 0x5101, 1, false, true);
fallback!(FbLone, FbLone2, 0x5100, 1, true, true);
// one symbol and nothing after it
fallback!(FbSingle, NoFallback, 0x5110, 1, false, true);
fallback!(FbSingleZero, NoFallback, 0x5111, 1, true, true, true);
// a lone zero, which cannot count at all
fallback!(FbZero, NoFallback, 0x5120, 1, true, false, true);
// nothing, with something after it that is not to be reached
fallback!(FbEmpty, Decimal, 0x5130, 0, true, true);
// binary with a zero digit, below a long single-symbol part
fallback!(FbBinary, NoFallback, 0x5140, 2, true, false, true);
fallback!(FbLong, FbBinary, 0x5150, 300, true, true);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fb {
    None,
    Decimal,
    A,
    Dead,
    One,
    Lone,
    Single,
    SingleZero,
    Zero,
    Empty,
    Long,
}
pub const FALLBACKS: [Fb; 11] = [
    Fb::None,
    Fb::Decimal,
    Fb::A,
    Fb::Dead,
    Fb::One,
    Fb::Lone,
    Fb::Single,
    Fb::SingleZero,
    Fb::Zero,
    Fb::Empty,
    Fb::Long,
];

pub fn fb_spec(f: Fb) -> Option<DSpec> {
    match f {
        Fb::None => None,
        Fb::Decimal => Some(digit_spec("Decimal")),
        Fb::A => Some(FbA::spec(Some(FbB::spec(Some(digit_spec("LetterUpper")))))),
        Fb::Dead => Some(FbDead::spec(None)),
        Fb::One => Some(FbOne::spec(None)),
        Fb::Lone => Some(FbLone::spec(Some(FbLone2::spec(Some(digit_spec("Decimal")))))),
        Fb::Single => Some(FbSingle::spec(None)),
        Fb::SingleZero => Some(FbSingleZero::spec(None)),
        Fb::Zero => Some(FbZero::spec(None)),
        Fb::Empty => Some(FbEmpty::spec(Some(digit_spec("Decimal")))),
        Fb::Long => Some(FbLong::spec(Some(FbBinary::spec(None)))),
    }
}

pub const SHAPES: u64 = 22;

type Shaped = (String, DSpec, &'static dyn AllSys, Box<dyn Fn() -> Probe + Sync + Send>);

fn erased<F: DigitCollection + Default + 'static>(label: String, spec: DSpec, e: Era<F>) -> Shaped {
    let c: &'static Era<F> = Box::leak(Box::new(e));
    (label, spec, c, Box::new(move || probe(c)))
}

fn shape<F: DigitCollection + Default + 'static>(
    which: u64,
    a: &DSpec,
    b: &DSpec,
    n: usize,
    m: usize,
) -> Shaped {
    macro_rules! go {
        ($label:expr, $spec:expr, $e:expr) => {{
            erased(format!("{}", $label), $spec, Era::new($e))
        }};
    }
    let d = |s: &DSpec| Dyn::<F>::new(s);
    let fb = a.fallback.clone();
    // The collection that decides the fallback type is always built on `a`.
    let bb = DSpec { fallback: fb.clone(), ..b.clone() };
    match which % SHAPES {
        0 | 1 => go!("plain", a.clone(), d(a)),
        2 => go!("one_based", a.one_based(), d(a).one_based()),
        3 => go!(format!("restrict {n}"), a.restrict(n), Restrict::new(n, d(a))),
        4 => go!(format!("restrict {n} of one_based"), a.one_based().restrict(n), Restrict::new(n, OneBased::new(d(a)))),
        5 => go!(format!("one_based of restrict {n}"), a.restrict(n).one_based(), OneBased::new(Restrict::new(n, d(a)))),
        6 => go!("one_based twice", a.one_based(), d(a).one_based().one_based()),
        7 => go!(format!("restrict {n} of restrict {m}"), a.restrict(m).restrict(n), Restrict::new(n, Restrict::new(m, d(a)))),
        8 => go!("chain", a.chain(&bb), d(a).and(d(&bb))),
        9 => go!("chain with Decimal", a.chain(&digit_spec("Decimal")), d(a).and(Decimal)),
        10 => go!("chain of three", a.chain(&bb).chain(a), d(a).and(d(&bb)).and(d(a))),
        11 => go!("one_based of chain", a.chain(&bb).one_based(), d(a).and(d(&bb)).one_based()),
        12 => go!("chain of one_based", a.one_based().chain(&bb), d(a).one_based().and(d(&bb))),
        13 => go!("chain onto one_based", a.chain(&bb.one_based()), d(a).and(d(&bb).one_based())),
        14 => go!(format!("restrict {n} of chain"), a.chain(&bb).restrict(n), Restrict::new(n, d(a).and(d(&bb)))),
        15 => go!(format!("chain of restrict {n}"), a.restrict(n).chain(&bb), Restrict::new(n, d(a)).and(d(&bb))),
        16 => go!(format!("chain onto restrict {n}"), a.chain(&bb.restrict(n)), d(a).and(Restrict::new(n, d(&bb)))),
        17 => go!(
            format!("restrict {n} of one_based of chain"),
            a.chain(&bb).one_based().restrict(n),
            Restrict::new(n, d(a).and(d(&bb)).one_based())
        ),
        18 => go!("chain of letters", digit_spec("LetterLower").chain(a), LetterLower.and(d(a))),
        19 => go!("chain nested right", a.chain(&bb.chain(a)), d(a).and(d(&bb).and(d(a)))),
        20 => go!(
            format!("restrict {n} of chain of restrict {m}"),
            a.restrict(m).chain(&bb).restrict(n),
            Restrict::new(n, Restrict::new(m, d(a)).and(d(&bb)))
        ),
        _ => go!(
            format!("one_based of restrict {n} of chain of Decimal"),
            digit_spec("Decimal").chain(a).restrict(n).one_based(),
            Restrict::new(n, Decimal.and(d(a))).one_based()
        ),
    }
}

pub fn custom_digits(
    name: String,
    which: u64,
    fb: Fb,
    a: &DSpec,
    b: &DSpec,
    n: usize,
    m: usize,
) -> Sys {
    let a = DSpec { fallback: fb_spec(fb).map(Arc::new), ..a.clone() };
    let (label, spec, sys, probe) = match fb {
        Fb::None => shape::<NoFallback>(which, &a, b, n, m),
        Fb::Decimal => shape::<Decimal>(which, &a, b, n, m),
        Fb::A => shape::<FbA>(which, &a, b, n, m),
        Fb::Dead => shape::<FbDead>(which, &a, b, n, m),
        Fb::One => shape::<FbOne>(which, &a, b, n, m),
        Fb::Lone => shape::<FbLone>(which, &a, b, n, m),
        Fb::Single => shape::<FbSingle>(which, &a, b, n, m),
        Fb::SingleZero => shape::<FbSingleZero>(which, &a, b, n, m),
        Fb::Zero => shape::<FbZero>(which, &a, b, n, m),
        Fb::Empty => shape::<FbEmpty>(which, &a, b, n, m),
        Fb::Long => shape::<FbLong>(which, &a, b, n, m),
    };
    let base = spec.digits.len() as u128;
    // One symbol alone counts in unary: the text is as long as the number.
    let cap = if base == 1 && !spec.fixed && !spec.has_zero { 3000 } else { u128::MAX };
    Sys {
        name,
        fam: fam_of(&spec),
        sys,
        model: Box::new(spec.clone()),
        base: base.max(2),
        cap,
        desc: format!("{label}: {}", spec.describe()),
        spec: Some(spec),
        probe: Some(probe),
        via: None,
        builtin: false,
        sums: None,
    }
}

pub const SIZES: [usize; 44] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 16, 17, 24, 26, 31, 32, 33, 47, 60, 63, 64, 65, 99, 100, 127, 128, 129,
    200, 254, 255, 256, 257, 258, 300, 511, 512, 65535, 65536, 65537, 70000,
];

/// An alphabet of `n` distinct characters starting near `from`.
pub fn alphabet(r: &mut Rng, n: usize) -> Vec<char> {
    let from = *r.pick(&[
        0x21u32, 0x41, 0x7a, 0xa1, 0x3b1, 0x5d0, 0x7f0, 0x800, 0x3041, 0x4e00, 0xd7f0, 0x10000, 0x1f300, 0x20000,
        // controls, combining marks, spaces and joiners, variation selectors
        0, 0x300, 0x1100, 0x2000, 0xfdf0, 0xe0100,
    ]);
    let mut v: Vec<char> = (0..n).map(|i| sym(from, i)).collect();
    if n <= 64 && r.chance(1, 3) {
        // mix the encoded lengths
        for (i, c) in v.iter_mut().enumerate() {
            *c = sym([0x61, 0x3b1, 0x4e00, 0x1f300][i % 4], i);
        }
    }
    // some characters of special interest among them
    if n > 0 && r.chance(1, 4) {
        for _ in 0..1 + r.below(3) {
            let c = crate::gen::any_char(r);
            let k = if r.chance(1, 3) { *r.pick(&[0, n - 1]) } else { r.idx(n) };
            if !v.contains(&c) {
                v[k] = c;
            }
        }
    }
    v
}

pub fn random_spec(r: &mut Rng, sizes: &[usize]) -> DSpec {
    let n = if r.chance(1, 3) { r.idx(70) } else { *r.pick(sizes) };
    let mut s = DSpec::alpha(alphabet(r, n));
    s.has_zero = r.chance(2, 5);
    s.zero_based = if s.has_zero { r.chance(1, 2) } else { r.chance(3, 5) };
    s.fixed = r.chance(1, 3);
    // symbols may repeat: nothing but uniqueness depends on them
    if n > 1 && r.chance(1, 12) {
        let k = if r.chance(1, 2) { 1 } else { 1 + r.idx(n) };
        s.digits = (0..n).map(|i| s.digits[i % k]).collect::<Vec<_>>().into();
    }
    s
}

/// The `i`-th user-defined digit collection of a workload.
pub fn nth_custom_digits(seed: u64, i: u64, only: Option<Fam>) -> Sys {
    let mut r = Rng::new(seed, 0xD161 + i * 7919);
    loop {
        let small = &SIZES[..SIZES.len() - 4];
        let sizes = if r.chance(1, 12) { &SIZES } else { small };
        let mut a = random_spec(&mut r, sizes);
        if i < 2 * SIZES.len() as u64 {
            // every listed size appears, counted both ways
            let n = SIZES[(i % SIZES.len() as u64) as usize];
            a.digits = alphabet(&mut r, n).into();
            a.zero_based = i < SIZES.len() as u64;
        }
        match only {
            Some(Fam::Positional) => (a.has_zero, a.fixed) = (true, false),
            Some(Fam::Alphabetic) => (a.has_zero, a.fixed) = (false, false),
            Some(Fam::Fixed) => a.fixed = true,
            _ => {}
        }
        let mut b = random_spec(&mut r, &SIZES[..34]);
        let which = r.below(SHAPES);
        if which >= 8 {
            // What a chain does with the single-symbol limit of its parts is
            // not specified; parts without it are used.
            if only == Some(Fam::Fixed) {
                continue;
            }
            a.fixed = false;
            b.fixed = false;
        }
        let len = a.digits.len();
        let n = match r.below(5) {
            0 => r.idx(len + 2),
            1 => len + 1 + r.idx(40),
            2 => len,
            3 => r.idx(4),
            _ => *r.pick(&[2usize, 9, 16, 255, 256, 257, 300]),
        };
        let m = r.idx(2 * len + 3);
        let fb = if a.fixed { *r.pick(&FALLBACKS) } else { *r.pick(&FALLBACKS[..2]) };
        let s = custom_digits(format!("digits#{i}"), which, fb, &a, &b, n, m);
        match only {
            None => return s,
            Some(f) if s.fam == f => return s,
            _ => {}
        }
    }
}

/// One collection, with what it is specified to contain.
pub fn collection<C: DigitCollection + Send + Sync + 'static>(name: String, spec: DSpec, c: C) -> Sys {
    let c: &'static C = Box::leak(Box::new(c));
    let n = spec.digits.len() as u128;
    Sys {
        name,
        fam: fam_of(&spec),
        sys: c,
        model: Box::new(spec.clone()),
        base: n.max(2),
        cap: if n == 1 && !spec.fixed && !spec.has_zero { 3000 } else { u128::MAX },
        desc: spec.describe(),
        spec: Some(spec),
        probe: Some(Box::new(move || probe(c))),
        via: None,
        builtin: false,
        sums: None,
    }
}

fn digit_set<const N: usize>(out: &mut Vec<Sys>, r: &mut Rng) {
    let cs = alphabet(r, N);
    let arr: [char; N] = cs.clone().try_into().unwrap();
    let (zs, al) = (DSpec::zero(cs.clone()), DSpec::alpha(cs));
    out.push(collection(format!("DigitSet::new<{N}>"), zs.clone(), DigitSet::new(arr)));
    out.push(collection(format!("DigitSet::zeroless<{N}>"), al.clone(), DigitSet::zeroless(arr)));
    out.push(collection(format!("DigitSet::zeroless<{N}>.one_based()"), al.one_based(), Era::new(DigitSet::zeroless(arr).one_based())));
    out.push(collection(format!("DigitSet::new<{N}>.one_based()"), zs.one_based(), Era::new(DigitSet::new(arr).one_based())));
}

/// `DigitSet` itself, in the sizes that matter.
pub fn digit_sets(tiny: bool) -> Vec<Sys> {
    let mut out = Vec::new();
    let mut r = Rng::new(7, 0x5e75);
    macro_rules! add {
        ($($n:literal),*) => {$( digit_set::<$n>(&mut out, &mut r); )*};
    }
    add!(0, 1, 2, 3, 5, 10, 16);
    if tiny {
        return out;
    }
    add!(26, 47, 62, 64, 128, 255, 256, 257, 300, 1000);
    out
}

// ---- user-defined additive and enumerated sets ---------------------------

pub fn leak_str(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

pub const ADDITIVE_SIZES: [usize; 12] = [0, 1, 2, 3, 4, 6, 9, 13, 40, 67, 129, 300];

fn additive_sys(spec: &ASpec) -> &'static dyn AllSys {
    let syms: Vec<(&'static str, u128)> = spec.syms.iter().map(|(s, v)| (leak_str(s), *v)).collect();
    macro_rules! go {
        ($($n:literal),*) => {
            match syms.len() {
                $($n => leak(AdditiveSet::<$n>::new(syms.try_into().unwrap())),)*
                n => panic!("no additive size {n}"),
            }
        };
    }
    go!(0, 1, 2, 3, 4, 6, 9, 13, 40, 67, 129, 300)
}

/// Does `AdditiveSet::new` panic for these values?
pub fn additive_new_panics(vals: &[u128]) -> bool {
    macro_rules! go {
        ($($n:literal),*) => {
            match vals.len() {
                $($n => {
                    let a: [(&'static str, u128); $n] = std::array::from_fn(|i| ("s", vals[i]));
                    crate::mon::observe(|| { let _ = AdditiveSet::<$n>::new(a); }).0.is_err()
                })*
                n => panic!("no additive size {n}"),
            }
        };
    }
    go!(0, 1, 2, 3, 4, 6, 9, 13, 40, 67, 129, 300)
}

pub fn nth_additive(seed: u64, i: u64) -> (ASpec, Sys) {
    additive_with(seed, i, false)
}

/// One symbol is empty: it counts and writes nothing (C11).
pub fn nth_blank_additive(seed: u64, i: u64) -> (ASpec, Sys) {
    additive_with(seed, i, true)
}

fn additive_with(seed: u64, i: u64, blank: bool) -> (ASpec, Sys) {
    let mut r = Rng::new(seed, 0xADD1 + i * 104_729);
    let n = ADDITIVE_SIZES[(i % ADDITIVE_SIZES.len() as u64) as usize];
    let mut vals = std::collections::BTreeSet::new();
    let kind = r.below(6);
    if n > 0 && kind != 0 && r.chance(2, 3) {
        vals.insert(1u128);
    }
    if n > 0 && r.chance(1, 2) {
        vals.insert(0u128);
    }
    let mut tries = 0;
    while vals.len() < n {
        // some kinds have few values
        tries += 1;
        let v = match if tries > 20 * n { 9 } else { kind } {
            1 => u128::from(r.below(30 + 2 * n as u64)),
            2 => u128::from(r.below(9) + 1) * 10u128.pow(r.below(6) as u32),
            3 => 1u128 << r.below(128),
            4 => {
                let edges = [255u128, 256, 257, 65535, 65536, 65537, u32::MAX.into(), 1 << 32, u64::MAX.into(), 1 << 64, u128::MAX];
                (*r.pick(&edges)).wrapping_add(u128::from(r.below(3))).wrapping_sub(1)
            }
            _ => r.u128() >> (r.below(127)),
        };
        // zero only through the branch above, so that sets without one exist
        if v > 0 {
            vals.insert(v);
        }
    }
    while vals.len() > n {
        vals.pop_last();
    }
    let long = r.chance(1, 6);
    let blank = (n > 0 && blank).then(|| r.idx(n));
    let syms: Vec<(String, u128)> = vals
        .into_iter()
        .rev()
        .enumerate()
        .map(|(k, v)| {
            let len = if long { 1 + r.idx(90) } else { 1 + r.idx(7) };
            let mut s = crate::gen::any_text(&mut r, len);
            if s.is_empty() {
                s.push('x');
            }
            if blank == Some(k) {
                s.clear();
            }
            (s, v)
        })
        .collect();
    let spec = ASpec { syms };
    let desc = format!("{:?}", spec.syms);
    let sys = Sys {
        name: format!("additive#{i}"),
        fam: Fam::Additive,
        sys: additive_sys(&spec),
        model: Box::new(spec.clone()),
        base: spec.syms.first().map_or(2, |s| s.1.max(2)),
        cap: spec.syms.first().map_or(u128::MAX, |s| s.1.saturating_mul(500)),
        spec: None,
        probe: None,
        via: None,
        builtin: false,
        sums: Some(spec.clone()),
        desc,
    };
    (spec, sys)
}

/// Additive sets of distinct single characters that include 0 and 1 (C25).
pub fn nth_plain_additive(seed: u64, i: u64) -> Sys {
    let mut r = Rng::new(seed, 0xADD2 + i * 15_485_863);
    let n = *r.pick(&[2usize, 3, 4, 6, 9, 13]);
    let mut vals: std::collections::BTreeSet<u128> = [0u128, 1].into();
    while vals.len() < n {
        vals.insert(2 + u128::from(r.below(5000)));
    }
    let cs = alphabet(&mut r, n);
    let spec = ASpec { syms: vals.into_iter().rev().zip(cs).map(|(v, c)| (c.to_string(), v)).collect() };
    Sys {
        name: format!("plain additive#{i}"),
        fam: Fam::Additive,
        sys: additive_sys(&spec),
        model: Box::new(spec.clone()),
        base: spec.syms[0].1.max(2),
        cap: spec.syms[0].1.saturating_mul(300),
        spec: None,
        probe: None,
        via: None,
        builtin: false,
        sums: Some(spec.clone()),
        desc: format!("{:?}", spec.syms),
    }
}

/// Small additive sets that can write every number, for long texts (C11).
pub fn nth_few_additive(seed: u64, i: u64) -> (ASpec, Sys) {
    let mut r = Rng::new(seed, 0xADD3 + i * 32_452_843);
    let mut vals: std::collections::BTreeSet<u128> = [1].into();
    let n = (i % 4) as usize + 1;
    while vals.len() < n {
        vals.insert(u128::from(2 + r.below(if i % 3 == 0 { 20 } else { 300 })));
    }
    let cs = alphabet(&mut r, n);
    let spec = ASpec { syms: vals.into_iter().rev().zip(cs).map(|(v, c)| (c.to_string(), v)).collect() };
    let sys = Sys {
        name: format!("few additive#{i}"),
        fam: Fam::Additive,
        sys: additive_sys(&spec),
        model: Box::new(spec.clone()),
        base: spec.syms[0].1.max(2),
        cap: u128::MAX,
        spec: None,
        probe: None,
        via: None,
        builtin: false,
        sums: None,
        desc: format!("{:?}", spec.syms),
    };
    (spec, sys)
}

fn enumerated<const N: usize>(out: &mut Vec<(ESpec, Sys)>, r: &mut Rng) {
    let syms: Vec<String> = (0..N)
        .map(|i| match (i + N) % 7 {
            0 => format!("{}\u{305}", sym(0x3400, i)),
            1 => sym(0x41, i).to_string(),
            5 if i % 2 == 1 => String::new(),
            2 => format!("{}:{i}", crate::gen::any_text(r, 5)),
            3 if i % 3 == 0 => format!("{i}{}", crate::gen::any_text(r, 57 + i % 9)),
            4 if i % 4 == 0 => crate::gen::any_text(r, 50 + i % 40),
            _ => format!("<{i}>"),
        })
        .collect();
    let arr = || -> Box<[&'static str; N]> {
        syms.iter().map(|s| leak_str(s)).collect::<Vec<_>>().into_boxed_slice().try_into().unwrap()
    };
    let z = leak(EnumeratedSet::<N, true>::new(*arr()));
    let o = leak(EnumeratedSet::<N, false>::zeroless(*arr()));
    for (zero, sys) in [(true, z), (false, o)] {
        let spec = ESpec { syms: syms.clone(), zero };
        out.push((
            spec.clone(),
            Sys {
                name: format!("EnumeratedSet<{N},{zero}>"),
                fam: Fam::Enumerated,
                sys,
                model: Box::new(spec),
                base: (N as u128).max(2),
                cap: u128::MAX,
                spec: None,
                probe: None,
                via: None,
                builtin: false,
                sums: None,
                desc: String::new(),
            },
        ));
    }
}

pub fn enumerated_sets(seed: u64, tiny: bool, big: bool) -> Vec<(ESpec, Sys)> {
    let mut out = Vec::new();
    let mut r = Rng::new(seed, 0xE17);
    macro_rules! add {
        ($($n:literal),*) => {$( enumerated::<$n>(&mut out, &mut r); )*};
    }
    add!(0, 1, 2, 3, 10);
    if tiny {
        return out;
    }
    add!(51, 255, 256, 257, 300);
    if big {
        add!(65535, 65536, 65537, 70000);
    }
    out
}

// ---- systems that are not sets -------------------------------------------

/// A user system that replaces the default infallible formatting.
#[derive(Clone, Copy)]
pub struct Overriding;

impl<T: Num> NominalSystem<T> for Overriding {
    fn format_nominal(&self, nominal: T) -> NominalString {
        let mut s = NominalString::from("own:");
        let _ = s.try_push_str(&nominal.to128().to_string());
        s
    }
    fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
        match nominal.to128() % 4 {
            0 => Err(Error::NoZeroSymbol),
            1 => Err(Error::OutOfBounds(nominal)),
            2 => Err(Error::OutOfMemory(nominal)),
            _ => Ok(NominalString::from("odd")),
        }
    }
}

/// A user system that keeps the default infallible formatting and reports
/// every kind of error.
#[derive(Clone, Copy)]
pub struct Failing;

impl<T: Num> NominalSystem<T> for Failing {
    fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
        match nominal.to128() % 5 {
            0 if nominal.is_zero() => Err(Error::NoZeroSymbol),
            0 | 1 => Err(Error::OutOfBounds(nominal)),
            2 => Err(Error::OutOfMemory(nominal)),
            _ => Ok(NominalString::from("fine")),
        }
    }
}

pub fn user_vias() -> Vec<(&'static str, &'static (dyn Via + Sync))> {
    vec![
        ("Overriding", via_of(|| Overriding).unwrap()),
        ("Failing", via_of(|| Failing).unwrap()),
    ]
}
