//! Observation of the library under test: integer types, entry points, outcomes.
use nominals::{Error, Nominal, NominalString, NominalSystem, UnwrapOrDecimal};
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum W {
    U8,
    U16,
    U32,
    U64,
    U128,
    Us,
}

pub const WIDTHS: [W; 6] = [W::U8, W::U16, W::U32, W::U64, W::U128, W::Us];

impl W {
    pub fn name(self) -> &'static str {
        match self {
            W::U8 => "u8",
            W::U16 => "u16",
            W::U32 => "u32",
            W::U64 => "u64",
            W::U128 => "u128",
            W::Us => "usize",
        }
    }
    pub fn max(self) -> u128 {
        match self {
            W::U8 => u8::MAX.into(),
            W::U16 => u16::MAX.into(),
            W::U32 => u32::MAX.into(),
            W::U64 => u64::MAX.into(),
            W::U128 => u128::MAX,
            W::Us => usize::MAX as u128,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Er {
    NoZero,
    Oom(u128),
    Oob(u128),
    Unknown,
}

pub type Out = Result<NominalString, Er>;

pub trait Num: Nominal + TryFrom<u128> + TryFrom<u32> + Copy + fmt::Debug + Send + Sync + 'static {
    const W: W;
    fn from128(v: u128) -> Self;
    fn to128(self) -> u128;
    fn entry(s: &dyn AllSys) -> &dyn Entry<Self>;
    fn dynamic(s: &dyn AllSys) -> &dyn NominalSystem<Self>;
}

macro_rules! num {
    ($t:ident, $w:ident, $e:ident, $d:ident) => {
        impl Num for $t {
            const W: W = W::$w;
            fn from128(v: u128) -> Self {
                debug_assert!(v <= W::$w.max());
                v as $t
            }
            fn to128(self) -> u128 {
                self as u128
            }
            fn entry(s: &dyn AllSys) -> &dyn Entry<Self> {
                s.$e()
            }
            fn dynamic(s: &dyn AllSys) -> &dyn NominalSystem<Self> {
                s.$d()
            }
        }
    };
}
num!(u8, U8, e8, d8);
num!(u16, U16, e16, d16);
num!(u32, U32, e32, d32);
num!(u64, U64, e64, d64);
num!(u128, U128, e128, d128);
num!(usize, Us, eus, dus);

/// Calls the generic function `$f::<T>` for the integer type `$w`.
#[macro_export]
macro_rules! on_width {
    ($w:expr, $f:ident ( $($a:expr),* $(,)? )) => {
        match $w {
            $crate::obs::W::U8 => $f::<u8>($($a),*),
            $crate::obs::W::U16 => $f::<u16>($($a),*),
            $crate::obs::W::U32 => $f::<u32>($($a),*),
            $crate::obs::W::U64 => $f::<u64>($($a),*),
            $crate::obs::W::U128 => $f::<u128>($($a),*),
            $crate::obs::W::Us => $f::<usize>($($a),*),
        }
    };
}

/// The entry points that need the concrete system type.
pub trait Entry<T: Nominal> {
    fn try_system(&self, v: T) -> Result<NominalString, Error<T>>;
    fn system(&self, v: T) -> NominalString;
    fn try_nominal(&self, v: T) -> Result<NominalString, Error<T>>;
    fn nominal(&self, v: T) -> NominalString;
}

impl<T: Nominal, S: NominalSystem<T>> Entry<T> for S {
    fn try_system(&self, v: T) -> Result<NominalString, Error<T>> {
        NominalSystem::<T>::try_format_nominal(self, v)
    }
    fn system(&self, v: T) -> NominalString {
        NominalSystem::<T>::format_nominal(self, v)
    }
    fn try_nominal(&self, v: T) -> Result<NominalString, Error<T>> {
        v.try_to_nominal(self)
    }
    fn nominal(&self, v: T) -> NominalString {
        v.to_nominal(self)
    }
}

/// A system usable with every integer type.
pub trait AllSys: Sync + Send {
    fn e8(&self) -> &dyn Entry<u8>;
    fn e16(&self) -> &dyn Entry<u16>;
    fn e32(&self) -> &dyn Entry<u32>;
    fn e64(&self) -> &dyn Entry<u64>;
    fn e128(&self) -> &dyn Entry<u128>;
    fn eus(&self) -> &dyn Entry<usize>;
    fn d8(&self) -> &dyn NominalSystem<u8>;
    fn d16(&self) -> &dyn NominalSystem<u16>;
    fn d32(&self) -> &dyn NominalSystem<u32>;
    fn d64(&self) -> &dyn NominalSystem<u64>;
    fn d128(&self) -> &dyn NominalSystem<u128>;
    fn dus(&self) -> &dyn NominalSystem<usize>;
}

macro_rules! allsys {
    ($($e:ident $d:ident $t:ident),*) => {
        impl<S> AllSys for S
        where
            S: Sync + Send $(+ NominalSystem<$t>)*
        {
            $(fn $e(&self) -> &dyn Entry<$t> { self }
              fn $d(&self) -> &dyn NominalSystem<$t> { self })*
        }
    };
}
allsys!(e8 d8 u8, e16 d16 u16, e32 d32 u32, e64 d64 u64, e128 d128 u128, eus dus usize);

pub fn er<T: Num>(e: &Error<T>) -> Er {
    match e {
        Error::NoZeroSymbol => Er::NoZero,
        Error::OutOfMemory(n) => Er::Oom(n.to128()),
        Error::OutOfBounds(n) => Er::Oob(n.to128()),
        _ => Er::Unknown,
    }
}

pub fn out<T: Num>(r: Result<NominalString, Error<T>>) -> Out {
    r.map_err(|e| er(&e))
}

pub fn try_fmt<T: Num>(s: &dyn AllSys, v: u128) -> Out {
    out(T::entry(s).try_system(T::from128(v)))
}

/// Plain decimal, written independently of the library.
pub fn decimal(v: u128) -> String {
    v.to_string()
}

pub fn show(o: &Out) -> String {
    match o {
        Ok(s) => format!("Ok({})", clip(s)),
        Err(e) => format!("Err({e:?})"),
    }
}

pub fn clip(s: &str) -> String {
    if s.chars().count() <= 160 {
        format!("{s:?}")
    } else {
        let head: String = s.chars().take(120).collect();
        let tail: String = s.chars().rev().take(20).collect::<Vec<_>>().into_iter().rev().collect();
        format!("{head:?}..{tail:?} ({} chars, {} bytes)", s.chars().count(), s.len())
    }
}

pub fn same(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => **x == **y,
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}

/// Does the value occupy the stack? In the build without heap support there
/// is nothing else.
pub fn text_is_inside(s: &NominalString) -> bool {
    let a = std::ptr::from_ref(s) as usize;
    let p = s.as_ptr() as usize;
    p >= a && p + s.len() <= a + std::mem::size_of::<NominalString>()
}


pub fn unwrap_dec<T: Num>(r: Result<NominalString, Error<T>>) -> NominalString {
    r.unwrap_or_decimal()
}
