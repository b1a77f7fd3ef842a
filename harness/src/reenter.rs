//! Formatting inside formatting, and formatting cut short. A collection asked
//! for a digit may format other numbers itself, or panic. Neither may change
//! what any other call gives, on this thread or another.
use crate::ctx::Ctx;
use crate::gen::{value, Rng};
use crate::mon::{crumb, observe};
use crate::obs::{show, try_fmt, AllSys, Num, Out, W, WIDTHS};
use crate::on_width;
use crate::sys::{builtins, Sys};
use nominals::{Chain, DigitCollection, OneBased, Restrict};
use std::cell::{Cell, RefCell};
use std::fmt::Write;

type Seen = (usize, W, u128, Out);

thread_local! {
    /// Queries until the collection panics; negative for never.
    static FUSE: Cell<i64> = const { Cell::new(-1) };
    /// How often a query formats something itself (0: never).
    static NEST: Cell<u64> = const { Cell::new(0) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static RNG: RefCell<Rng> = const { RefCell::new(Rng(1)) };
    static INNER: RefCell<Vec<Seen>> = const { RefCell::new(Vec::new()) };
}

static SYSTEMS: std::sync::OnceLock<Vec<Sys>> = std::sync::OnceLock::new();

fn all() -> &'static [Sys] {
    SYSTEMS.get_or_init(|| {
        let mut v = builtins();
        v.retain(|s| s.base <= 100_000);
        v
    })
}

fn plain<T: Num>(s: &dyn AllSys, v: u128) -> Out {
    try_fmt::<T>(s, v)
}

/// Also the other entry points: whatever they share must not be disturbed.
fn infallible<T: Num>(s: &dyn AllSys, v: u128) -> Out {
    Ok(T::entry(s).system(T::from128(v)))
}

fn pick(r: &mut Rng) -> (usize, W, u128) {
    let i = r.idx(all().len());
    let s = &all()[i];
    let w = *r.pick(&WIDTHS);
    let mut v = value(r, w.max().min(s.cap().min(s.cap / 4)), s.base);
    if !s.fits(v) {
        v = 1;
    }
    (i, w, v)
}

fn asked() {
    let left = FUSE.with(Cell::get);
    if left >= 0 {
        FUSE.with(|f| f.set(left - 1));
        assert!(left != 0, "cut short");
    }
    let nest = NEST.with(Cell::get);
    if nest == 0 || DEPTH.with(Cell::get) >= 3 || INNER.with(|x| x.borrow().len()) >= if cfg!(miri) { 5 } else { 60 } {
        return;
    }
    let mut r = RNG.with(|r| Rng(r.borrow_mut().next()));
    if r.below(nest) != 0 {
        return;
    }
    DEPTH.with(|d| d.set(d.get() + 1));
    if r.chance(1, 5) {
        // the same kind of collection, one level down
        let v = r.next() % 100_000;
        let _ = plain::<u64>(own(r.idx(OWN)), v.into());
    } else {
        let (i, w, v) = pick(&mut r);
        let o = on_width!(w, plain(all()[i].sys, v));
        INNER.with(|x| x.borrow_mut().push((i, w, v, o)));
    }
    DEPTH.with(|d| d.set(d.get() - 1));
}

#[derive(Default, Clone, Copy)]
struct Busy<const N: usize, const ZERO: bool, const FIXED: bool>;
impl<const N: usize, const ZERO: bool, const FIXED: bool> DigitCollection for Busy<N, ZERO, FIXED> {
    type Fallback = Rest;
    fn fixed(&self) -> bool {
        FIXED
    }
    fn has_zero_digit(&self) -> bool {
        asked();
        ZERO
    }
    fn len(&self) -> usize {
        asked();
        N
    }
    fn digit(&self, index: usize) -> char {
        asked();
        char::from_u32(0x4e00 + index as u32).unwrap()
    }
}

#[derive(Default, Clone, Copy)]
struct Rest;
impl DigitCollection for Rest {
    type Fallback = nominals::NoFallback;
    fn has_zero_digit(&self) -> bool {
        true
    }
    fn len(&self) -> usize {
        10
    }
    fn digit(&self, index: usize) -> char {
        asked();
        char::from_u32(0x30 + index as u32).unwrap()
    }
}

const OWN: usize = 9;
fn own(i: usize) -> &'static dyn AllSys {
    static A: Busy<10, true, false> = Busy;
    static B: Busy<26, false, false> = Busy;
    static C: Busy<12, false, true> = Busy;
    static D: Busy<2, true, false> = Busy;
    static E: Busy<300, true, false> = Busy;
    static H: Busy<1, false, true> = Busy;
    thread_local! {
        static CH: &'static dyn AllSys = Box::leak(Box::new(Chain::new(Busy::<5, true, false>, Busy::<7, false, false>)));
        static RE: &'static dyn AllSys = Box::leak(Box::new(Restrict::new(6, Busy::<26, false, true>)));
        static ON: &'static dyn AllSys = Box::leak(Box::new(OneBased::new(Busy::<9, false, false>)));
    }
    match i {
        0 => &A,
        1 => &B,
        2 => &C,
        3 => &D,
        4 => &E,
        5 => &H,
        6 => CH.with(|x| *x),
        7 => RE.with(|x| *x),
        _ => ON.with(|x| *x),
    }
}

fn same(a: &Out, b: &Out) -> bool {
    crate::obs::same(a, b)
}

/// Formats while it is being written to.
struct Writer {
    text: String,
    seen: Vec<Seen>,
    rng: Rng,
}
impl Write for Writer {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let (i, w, v) = pick(&mut self.rng);
        let o = on_width!(w, plain(all()[i].sys, v));
        self.seen.push((i, w, v, o));
        self.text.push_str(s);
        Ok(())
    }
}

fn judge(cx: &mut Ctx, seen: Vec<Seen>, how: &str) {
    for (i, w, v, o) in seen {
        crumb(&all()[i].name, w as u32, v);
        let now = observe(|| on_width!(w, plain(all()[i].sys, v))).0;
        cx.evals += 1;
        cx.hit("calls made from inside another call", 1);
        let good = matches!(&now, Ok(n) if same(n, &o));
        if !good {
            cx.violate("text", &format!("{} as {} {how}", all()[i].name, w.name()), v, show(&o), format!("{} (alone)", now.map_or_else(|p| p, |n| show(&n))));
        }
    }
}

fn trial(cx: &mut Ctx) {
    let mut r = Rng(cx.rng.next());
    let k = r.idx(OWN);
    let w = *r.pick(&WIDTHS);
    let near = *r.pick(&[2u128, 10, 26, 300]);
    let v = value(&mut r, w.max(), near);
    let name = format!("a collection that formats numbers itself ({k})");
    let quiet = |cx: &mut Ctx, what: &str| {
        FUSE.with(|f| f.set(-1));
        NEST.with(|n| n.set(0));
        crumb(what, w as u32, v);
        cx.evals += 1;
        observe(|| on_width!(w, plain(own(k), v))).0
    };
    let alone = quiet(cx, &name);
    let Ok(alone) = alone else {
        cx.violate("panic", &format!("{name} as {}", w.name()), v, alone.err().unwrap_or_default(), "a result");
        return;
    };
    // a call of a system that takes no part
    let (bi, bw, bv) = pick(&mut r);
    let before = observe(|| on_width!(bw, plain(all()[bi].sys, bv))).0;
    let before2 = observe(|| on_width!(bw, infallible(all()[bi].sys, bv))).0;

    // busy
    DEPTH.with(|d| d.set(0));
    RNG.with(|x| *x.borrow_mut() = Rng(r.next()));
    NEST.with(|n| n.set(1 + r.below(6)));
    crumb(&name, w as u32, v);
    let busy = observe(|| on_width!(w, plain(own(k), v))).0;
    NEST.with(|n| n.set(0));
    cx.evals += 1;
    cx.hit("calls with others inside", 1);
    let seen = INNER.with(|x| std::mem::take(&mut *x.borrow_mut()));
    let inner = seen.len();
    match &busy {
        Ok(o) if same(o, &alone) => {}
        o => {
            let got = o.as_ref().map_or_else(Clone::clone, show);
            cx.violate("text", &format!("{name} as {} with {inner} calls inside", w.name()), v, got, format!("{} (with none)", show(&alone)));
        }
    }
    judge(cx, seen, "from inside another call");

    // cut short at some query, sometimes inside another call
    if r.chance(1, 2) {
        FUSE.with(|f| f.set(r.below(30) as i64));
        NEST.with(|n| n.set(r.below(8)));
        crumb(&name, w as u32, v);
        let cut = observe(|| on_width!(w, plain(own(k), v))).0;
        if cut.is_err() {
            cx.hit("calls cut short by a panic", 1);
        }
        FUSE.with(|f| f.set(-1));
        NEST.with(|n| n.set(0));
        DEPTH.with(|d| d.set(0));
        let seen = INNER.with(|x| std::mem::take(&mut *x.borrow_mut()));
        judge(cx, seen, "from inside a call that was cut short");
        match quiet(cx, &name) {
            Ok(o) if same(&o, &alone) => {}
            o => {
                let got = o.map_or_else(|p| p, |o| show(&o));
                cx.violate("text", &format!("{name} as {} after a call was cut short", w.name()), v, got, format!("{} (before)", show(&alone)));
            }
        }
    }

    // displayed by a writer that formats
    if let Ok(s) = &alone {
        let mut out = Writer { text: String::new(), seen: Vec::new(), rng: Rng(r.next()) };
        let _ = write!(out, "{s:>90}{s}");
        let want = format!("{:>90}{}", &**s, &**s);
        if out.text != want {
            cx.violate("text", "displayed by a writer that formats numbers itself", v, out.text.clone(), want);
        }
        judge(cx, out.seen, "while another nominal is displayed");
    }

    for (f, was) in [(0, before), (1, before2)] {
        crumb(&all()[bi].name, bw as u32, bv);
        let now = observe(|| if f == 0 { on_width!(bw, plain(all()[bi].sys, bv)) } else { on_width!(bw, infallible(all()[bi].sys, bv)) }).0;
        cx.evals += 1;
        let good = match (&now, &was) {
            (Ok(a), Ok(b)) => same(a, b),
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !good {
            let f = |o: Result<Out, String>| o.map_or_else(|p| p, |o| show(&o));
            cx.violate("text", &format!("{} as {} after calls inside calls", all()[bi].name, bw.name()), bv, f(now), format!("{} (before)", f(was)));
        }
    }
    cx.plain += 1;
    if inner > 0 {
        cx.sample(|| format!("{name} as {}: {v} -> {} with {inner} other calls inside", w.name(), show(&alone)));
    }
}

pub fn run(total: &mut Ctx, threads: usize, each: u64) {
    let results: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (seed, tier, kinds) = (total.seed, total.tier, total.kinds);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        crate::mon::register_thread();
                        let mut cx = Ctx::new(seed, 0x2E_00 + t as u64, tier, kinds);
                        for _ in 0..each {
                            if cx.stop() {
                                break;
                            }
                            trial(&mut cx);
                        }
                        crate::mon::unregister_thread();
                        cx
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    for r in results {
        match r {
            Ok(c) => total.merge(c),
            Err(_) => total.violate("panic", "worker thread", 0, "a worker died", "all finish"),
        }
    }
}
