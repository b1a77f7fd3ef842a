//! Monitor for `NominalString` histories: every operation is applied to a real
//! nominal string and to a plain `String`, and the two are compared after
//! every step together with the storage rules.
use crate::ctx::{Ctx, Tier};
use crate::gen::{any_char, any_text, Rng, CHAR_POOL};
use crate::mon::{allocs, live, observe};
use nominals::NominalString;

pub const CAP: usize = 62;
pub const ALLOC: bool = cfg!(feature = "alloc");

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Push(char),
    PushStr(String),
    Front(char),
    Clone,
    CloneEditOriginal,
    /// clone_from into a value that held this many bytes (reversed if odd)
    CloneFrom(usize),
    Upper,
    Lower,
    EditTail,
    RoundTrip,
    MoveThread,
    TakeString,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Start {
    New,
    Reverse,
    Default,
    Char(char),
    Text(String),
    Owned(String),
    RefString(String),
}

pub struct Tracked {
    pub s: NominalString,
    pub text: String,
    /// Storage is pinned (not made from an owned heap string).
    pub pinned: bool,
    pub ever_heap: bool,
}

fn show_hist(start: &Start, ops: &[Op]) -> String {
    let mut o = format!("{start:?}");
    for op in ops {
        o.push_str(&format!(" -> {op:?}"));
    }
    o
}

/// The same text with some room to grow, or none: how much follows from the text.
#[cfg(feature = "alloc")]
fn with_room(t: &str) -> String {
    let spare = [0, 0, 1, 2, 3, 5, 64, 5000][(t.len() + usize::from(t.bytes().last().unwrap_or(0))) % 8];
    let mut s = String::with_capacity(t.len() + spare);
    s.push_str(t);
    s
}

/// `x` at the end of an allocation, beginning at different places in a word.
fn placed(x: &str, n: usize) -> (String, usize) {
    let at = [0, 0, 1, 2, 3, 4, 5, 7, 9, 15][(x.len() * 7 + n) % 10];
    let mut room = String::with_capacity(at + x.len());
    for _ in 0..at {
        room.push('#');
    }
    room.push_str(x);
    (room, at)
}

pub fn begin(start: &Start) -> Option<(Tracked, bool)> {
    // The flag says that making the start value may allocate.
    let (s, text, pinned, may) = match start {
        Start::New => (NominalString::new(), String::new(), true, false),
        Start::Reverse => (NominalString::new_reverse(), String::new(), true, false),
        Start::Default => (NominalString::default(), String::new(), true, false),
        Start::Char(c) => (NominalString::from(*c), c.to_string(), true, false),
        Start::Text(t) => {
            if !ALLOC && t.len() > CAP {
                return None;
            }
            let (room, at) = placed(t, 1);
            (NominalString::from(&room[at..]), t.clone(), true, t.len() > CAP)
        }
        #[cfg(feature = "alloc")]
        Start::Owned(t) => (NominalString::from(with_room(t)), t.clone(), false, true),
        #[cfg(feature = "alloc")]
        Start::RefString(t) => (NominalString::from(&with_room(t)), t.clone(), true, true),
        #[cfg(not(feature = "alloc"))]
        Start::Owned(t) | Start::RefString(t) => {
            if t.len() > CAP {
                return None;
            }
            (NominalString::from(t.as_str()), t.clone(), true, false)
        }
    };
    Some((Tracked { s, text, pinned, ever_heap: false }, may))
}

/// Compares the real string with the expectation; returns what is wrong.
pub fn look(t: &Tracked) -> Result<(), String> {
    let s: &str = &t.s;
    if std::str::from_utf8(s.as_bytes()).is_err() {
        return Err(format!("text is not UTF-8: {:x?}", s.as_bytes()));
    }
    if s != t.text {
        return Err(format!("text is {s:?}, expected {:?}", t.text));
    }
    if t.s.len() != t.text.len() || t.s.chars().count() != t.text.chars().count() {
        return Err(format!("length is {}, expected {}", t.s.len(), t.text.len()));
    }
    if t.pinned {
        let want = t.text.len() <= CAP;
        if t.s.is_inline() != want && ALLOC {
            return Err(format!("STORAGE is_inline() is {} at {} bytes", t.s.is_inline(), t.text.len()));
        }
    }
    let inside = crate::obs::text_is_inside(&t.s);
    if t.s.is_inline() != inside && !t.text.is_empty() {
        return Err(format!("STORAGE is_inline() is {} but the text is {} the value", t.s.is_inline(), if inside { "inside" } else { "outside" }));
    }
    Ok(())
}

/// Applies one operation to both sides. Err = a broken property.
pub fn apply(t: &mut Tracked, op: &Op) -> Result<(), String> {
    let was_inline = t.s.is_inline();
    let before = allocs();
    let mut check_allocs = true;
    match op {
        Op::Push(c) => {
            let r = t.s.try_push(*c);
            push_result(t, r, c.len_utf8(), |s| s.push(*c))?;
        }
        Op::PushStr(x) => {
            // what lies where in memory is not the text's business
            let (room, at) = placed(x, t.text.len());
            let b = allocs();
            let r = t.s.try_push_str(&room[at..]);
            let lib = allocs() - b;
            drop(room);
            crate::mon::forgive(allocs() - before - lib);
            push_result(t, r, x.len(), |s| s.push_str(x))?;
        }
        Op::Front(c) => {
            let r = t.s.try_push_front(*c);
            push_result(t, r, c.len_utf8(), |s| s.insert(0, *c))?;
        }
        #[cfg(feature = "alloc")]
        Op::Clone => {
            // continue with the clone, after checking the original survives
            let mut c = t.s.clone();
            std::mem::swap(&mut c, &mut t.s);
            if *c != *t.text {
                return Err(format!("after cloning the original reads {:?}, expected {:?}", &*c, t.text));
            }
            drop(c);
        }
        #[cfg(feature = "alloc")]
        Op::CloneEditOriginal => {
            check_allocs = false;
            let keep = t.s.clone();
            t.s.make_ascii_uppercase();
            t.s.try_push('!').map_err(|_| "push failed")?;
            t.s.try_push_front('!').map_err(|_| "push failed")?;
            if *keep != *t.text {
                return Err(format!("changing the original changed its clone to {:?}, expected {:?}", &*keep, t.text));
            }
            // and the other way round
            let mut other = keep.clone();
            other.try_push_str("xyz").map_err(|_| "push failed")?;
            other.make_ascii_lowercase();
            t.s = keep;
            drop(other);
        }
        #[cfg(feature = "alloc")]
        Op::CloneFrom(n) => {
            check_allocs = false;
            let mut other = if n % 2 == 1 { NominalString::new_reverse() } else { NominalString::new() };
            for _ in 0..*n {
                if n % 2 == 1 { other.try_push_front('#') } else { other.try_push('#') }.map_err(|_| "push failed")?;
            }
            other.clone_from(&t.s);
            if *t.s != *t.text {
                return Err(format!("after clone_from the original reads {:?}, expected {:?}", &*t.s, t.text));
            }
            // go on with the copy; whether it keeps its own room is its business
            t.s = other;
            t.pinned &= *n <= CAP;
        }
        #[cfg(not(feature = "alloc"))]
        Op::Clone | Op::CloneEditOriginal | Op::CloneFrom(_) => {}
        Op::Upper => {
            t.s.make_ascii_uppercase();
            t.text.make_ascii_uppercase();
        }
        Op::Lower => {
            t.s.make_ascii_lowercase();
            t.text.make_ascii_lowercase();
        }
        Op::EditTail => {
            check_allocs = false;
            let at = t.text.char_indices().map(|(i, _)| i).nth(t.text.chars().count() / 2).unwrap_or(0);
            let (_, b) = t.s.split_at_mut(at);
            b.make_ascii_uppercase();
            t.text[at..].make_ascii_uppercase();
        }
        Op::RoundTrip => {
            check_allocs = false;
            let d = t.s.to_string();
            if d != t.text {
                return Err(format!("to_string gives {d:?}, expected {:?}", t.text));
            }
            let (d, want) = (format!("{:?}", t.s), format!("{:?}", t.text));
            if !d.contains(&want) {
                return Err(format!("the debug output is {d}, which does not show {want}"));
            }
        }
        Op::MoveThread => {
            check_allocs = false;
            let s = std::mem::take(&mut t.s);
            let want = t.text.clone();
            let (s, ok) = std::thread::spawn(move || {
                let ok = *s == *want;
                (s, ok)
            })
            .join()
            .map_err(|_| "reading on another thread panicked".to_string())?;
            t.s = s;
            if !ok {
                return Err("the text changed when read on another thread".into());
            }
        }
        #[cfg(feature = "alloc")]
        Op::TakeString => {
            let s = std::mem::take(&mut t.s);
            let p = s.as_ptr();
            match s.try_into_string() {
                Ok(x) => {
                    if was_inline {
                        return Err("STORAGE try_into_string gave a heap string for inline text".into());
                    }
                    if x.as_ptr() != p {
                        return Err("STORAGE try_into_string gave another allocation than the one holding the text".into());
                    }
                    if x != t.text {
                        return Err(format!("try_into_string gave {x:?}, expected {:?}", t.text));
                    }
                    if allocs() != before {
                        return Err("STORAGE try_into_string allocated".into());
                    }
                    t.s = NominalString::from(x);
                    t.pinned = false;
                }
                Err(s) => {
                    if !was_inline {
                        return Err("STORAGE try_into_string refused a heap string".into());
                    }
                    t.s = s;
                }
            }
        }
        #[cfg(not(feature = "alloc"))]
        Op::TakeString => {}
    }
    let made = allocs() - before;
    if check_allocs && t.s.is_inline() && was_inline && made != 0 && (t.text.len() <= CAP || !ALLOC) {
        return Err(format!("STORAGE {made} heap allocation(s) while the text stayed at {} bytes", t.text.len()));
    }
    t.ever_heap |= !t.s.is_inline();
    Ok(())
}

fn push_result(
    t: &mut Tracked,
    r: Result<(), nominals::OutOfMemoryError>,
    add: usize,
    model: impl FnOnce(&mut String),
) -> Result<(), String> {
    let fits = ALLOC || t.text.len() + add <= CAP;
    match (r.is_ok(), fits) {
        (true, true) => {
            let len = t.text.len();
            // the model may allocate; its allocations are not the library's
            let b = allocs();
            t.text.reserve(add + 8);
            model(&mut t.text);
            crate::mon::forgive(allocs() - b);
            debug_assert_eq!(t.text.len(), len + add);
            Ok(())
        }
        (false, false) => Ok(()),
        (true, false) => Err(format!("MEMORY push of {add} bytes onto {} was accepted without heap support", t.text.len())),
        (false, true) => Err(format!("MEMORY push of {add} bytes onto {} was refused", t.text.len())),
    }
}

/// Runs a history; reports the first thing that breaks.
pub fn run(cx: &mut Ctx, start: &Start, ops: &[Op]) {
    cx.crumb_text(|| show_hist(start, ops));
    let held = live();
    let mut step = 0usize;
    let sparse = cx.tier == Tier::Tiny;
    let (r, _) = observe(|| -> Result<(usize, bool, bool), String> {
        let b = allocs();
        let Some((mut t, may_alloc)) = begin(start) else { return Ok((0, false, false)) };
        let _ = b;
        let _ = may_alloc;
        look(&t)?;
        for op in ops {
            step += 1;
            apply(&mut t, op)?;
            // an interpreter is slow: it watches every access by itself
            if !sparse || step + 3 > ops.len() {
                look(&t)?;
            }
        }
        #[cfg(feature = "alloc")]
        {
            let (inline, at) = (t.s.is_inline(), t.s.as_ptr());
            let text = t.text.clone();
            let before = allocs();
            let x = String::from(t.s);
            let made = allocs() - before;
            if x != text {
                return Err(format!("String::from gives {x:?}, expected {text:?}"));
            }
            if !inline && (made != 0 || x.as_ptr() != at) {
                return Err(format!("STORAGE String::from left the allocation holding the text ({made} new ones)"));
            }
        }
        Ok((t.text.len(), t.ever_heap, t.text.is_ascii()))
    });
    let left = live() - held;
    cx.evals += 1;
    match r {
        Ok(Ok((len, heap, ascii))) => {
            cx.hit(if heap { "histories that reach the heap" } else { "histories that stay inline" }, 1);
            cx.max("longest text in bytes", len as u64);
            if !ascii {
                cx.hit("histories with multi-byte characters", 1);
            }
            cx.hit("operations", ops.len() as u64);
            if left > 0 && !ops.contains(&Op::MoveThread) {
                cx.violate("leak", &show_hist(start, ops), 0, format!("{left} bytes are still allocated after the history"), "no bytes left");
            }
        }
        Ok(Err(why)) => {
            let kind = if why.starts_with("STORAGE") {
                "storage"
            } else if why.starts_with("MEMORY") {
                "memory"
            } else {
                "text"
            };
            cx.violate(kind, &show_hist(start, &ops[..step]), 0, why, "same text and storage as the specification");
        }
        Err(p) => cx.violate("panic", &show_hist(start, &ops[..step]), 0, p, "no panic"),
    }
}

fn filler(r: &mut Rng, len: usize) -> String {
    any_text(r, len)
}

/// One of the ways to reach a text of `len` bytes in each storage mode.
pub fn mode(r: &mut Rng, len: usize, m: usize) -> (Start, Vec<Op>) {
    let t = filler(r, len);
    match m {
        0 => (Start::New, t.chars().map(Op::Push).collect()),
        1 => (Start::Reverse, t.chars().rev().map(Op::Front).collect()),
        2 => (Start::New, t.chars().rev().map(Op::Front).collect()),
        3 => (Start::Text(t), vec![]),
        4 => (Start::Reverse, vec![Op::PushStr(t)]),
        5 => (Start::Owned(t), vec![]),
        _ => (Start::RefString(t), vec![]),
    }
}

/// Two operations at every prefix length around the capacity, in every mode.
pub fn systematic(cx: &mut Ctx, lens: &[usize], pairs: bool) {
    let chars = ['a', 'é', '零', '😀'];
    let mut seconds: Vec<Op> = Vec::new();
    for c in chars {
        seconds.push(Op::Push(c));
        seconds.push(Op::Front(c));
    }
    for n in [0usize, 1, 3, 61, 62, 63, 200] {
        seconds.push(Op::PushStr("z".repeat(n)));
    }
    seconds.extend([Op::Clone, Op::CloneFrom(0), Op::CloneFrom(33), Op::CloneFrom(80), Op::CloneEditOriginal, Op::Upper, Op::EditTail, Op::RoundTrip, Op::TakeString]);
    for &len in lens {
        for m in 0..7 {
            let room = CAP.saturating_sub(len);
            let mut sizes = vec![room.saturating_sub(1), room, room + 1, 190, 193, 194, 195, 255, 256, 257, 258, 300, 512 - len.min(500)];
            let mut firsts: Vec<Op>;
            if pairs {
                firsts = seconds.clone();
            } else {
                // a few of each kind, different ones in every cell
                let (a, b) = (cx.rng.idx(8), 8 + cx.rng.idx(13));
                firsts = [a, b].map(|i| seconds[i].clone()).into();
                firsts.push(Op::Front('\u{96f6}'));
                sizes = vec![sizes[cx.rng.idx(5)]];
            }
            for n in sizes {
                let t = filler(&mut cx.rng, n);
                firsts.push(Op::PushStr(t));
            }
            for f in &firsts {
                if cx.stop() {
                    return;
                }
                let (start, base) = mode(&mut cx.rng.clone(), len, m);
                if !ALLOC && len > CAP {
                    continue;
                }
                let mut ops = base;
                ops.push(f.clone());
                if pairs {
                    for s in &seconds {
                        let mut o = ops.clone();
                        o.push(s.clone());
                        cx.distinct(&(&start, &o));
                        run(cx, &start, &o);
                    }
                } else {
                    let s = cx.rng.pick(&seconds).clone();
                    ops.push(s);
                    cx.distinct(&(&start, &ops));
                    run(cx, &start, &ops);
                }
            }
        }
    }
}

pub fn random_history(r: &mut Rng, threads: bool) -> (Start, Vec<Op>) {
    let start = match r.below(9) {
        0 | 1 => Start::New,
        2..=4 => Start::Reverse,
        5 => Start::Char(any_char(r)),
        6 => {
            let n = r.idx(80);
            Start::Text(any_text(r, n))
        }
        7 => {
            let n = r.idx(90);
            Start::Owned(any_text(r, n))
        }
        _ => {
            let n = r.idx(90);
            if r.chance(1, 2) {
                Start::RefString(any_text(r, n))
            } else {
                Start::Default
            }
        }
    };
    let most = if r.chance(1, 4) { 90 } else { 14 };
    let n = 1 + r.idx(most);
    let style = r.below(4);
    let mut ops = Vec::with_capacity(n);
    for _ in 0..n {
        let ch = match style {
            0 => (b'a' + r.below(26) as u8) as char,
            1 => *r.pick(&CHAR_POOL),
            _ => any_char(r),
        };
        ops.push(match r.below(22) {
            0..=5 => Op::Push(ch),
            6..=11 => Op::Front(ch),
            12..=15 => {
                let len = match r.below(8) {
                    0 => r.idx(70),
                    1 => 185 + r.idx(80),
                    2 => 0,
                    3 => r.idx(600),
                    4 => crate::gen::dict_length(r),
                    _ => r.idx(12),
                };
                Op::PushStr(any_text(r, len))
            }
            16 => {
                if r.chance(1, 2) {
                    Op::Clone
                } else {
                    Op::CloneFrom(r.idx(100))
                }
            }
            17 => Op::CloneEditOriginal,
            18 => Op::Upper,
            19 => Op::EditTail,
            20 => {
                if threads && r.chance(1, 8) {
                    Op::MoveThread
                } else if r.chance(1, 2) {
                    Op::RoundTrip
                } else {
                    Op::Lower
                }
            }
            _ => Op::TakeString,
        });
    }
    (start, ops)
}

/// Storage rule for a freshly started value (allocation counts included).
pub fn start_storage(cx: &mut Ctx) {
    for n in 0..200usize {
        let t = any_text(&mut cx.rng, n);
        let b = allocs();
        let s = if n <= CAP || ALLOC { Some(NominalString::from(t.as_str())) } else { None };
        let made = allocs() - b;
        cx.evals += 1;
        let Some(s) = s else { continue };
        if (made == 0) != (n <= CAP) || (s.is_inline() != (n <= CAP)) {
            cx.violate("storage", &format!("NominalString::from(&str of {n} bytes)"), n as u128,
                format!("is_inline() = {}, {made} allocations", s.is_inline()), "inline without allocating up to 62 bytes, on the heap above");
        }
        cx.hit("start values", 1);
    }
    #[cfg(feature = "alloc")]
    for n in 0..130usize {
        for spare in [0, 1, 2, 7, 62, 1000] {
            let mut t = String::with_capacity(n + spare);
            t.push_str(&any_text(&mut cx.rng, n));
            let b = allocs();
            let s = NominalString::from(&t);
            let made = allocs() - b;
            cx.evals += 1;
            if (made == 0) != (n <= CAP) || (s.is_inline() != (n <= CAP)) || *s != *t {
                cx.violate("storage", &format!("NominalString::from(&String of {n} bytes with room for {spare} more)"), n as u128,
                    format!("is_inline() = {}, {made} allocations", s.is_inline()), "inline without allocating up to 62 bytes, on the heap above");
            }
            cx.hit("start values", 1);
        }
    }
    for c in CHAR_POOL {
        let b = allocs();
        let s = NominalString::from(c);
        let made = allocs() - b;
        cx.evals += 1;
        if made != 0 || !s.is_inline() {
            cx.violate("storage", &format!("NominalString::from({c:?})"), c as u128, format!("{made} allocations"), "inline");
        }
    }
    let size = std::mem::size_of::<NominalString>();
    if ALLOC && cfg!(target_pointer_width = "64") && size != 64 {
        cx.violate("storage", "size_of::<NominalString>()", size as u128, format!("{size} bytes"), "64 bytes");
    }
    if NominalString::INLINE_CAPACITY != CAP {
        cx.violate("storage", "NominalString::INLINE_CAPACITY", 0, format!("{}", NominalString::INLINE_CAPACITY), "62");
    }
}

pub fn history_key(start: &Start, ops: &[Op]) -> u64 {
    crate::ctx::hash(&(start, ops))
}
