//! Coverage-guided search for violations: the same oracles as vh, with the
//! choices of the workload (which unit, which numbers, which operations) taken
//! from the fuzzer's input.
#![no_main]
#[path = "../../harness/src/chk.rs"]
mod chk;
#[path = "../../harness/src/ctx.rs"]
mod ctx;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/hostile.rs"]
mod hostile;
#[path = "../../harness/src/huge.rs"]
mod huge;
#[path = "../../harness/src/models.rs"]
mod models;
#[path = "../../harness/src/mon.rs"]
mod mon;
#[path = "../../harness/src/obs.rs"]
mod obs;
#[path = "../../harness/src/place.rs"]
mod place;
#[path = "../../harness/src/props.rs"]
mod props;
#[path = "../../harness/src/reenter.rs"]
mod reenter;
#[path = "../../harness/src/strs.rs"]
mod strs;
#[path = "../../harness/src/sys.rs"]
mod sys;

use ctx::{Ctx, Tier, UNITS};
use std::cell::RefCell;

#[global_allocator]
static ALLOC: mon::CountingAlloc = mon::CountingAlloc;

struct State {
    id: String,
    out: String,
    total: Ctx,
    inputs: u64,
}

thread_local! {
    static STATE: RefCell<Option<State>> = const { RefCell::new(None) };
}

fn start() -> State {
    let env = |n: &str| std::env::var(n).unwrap_or_default();
    let id = env("VF_PROPERTY");
    mon::install_panic_hook();
    if let Ok(t) = std::fs::read_to_string(env("VF_DICT")) {
        gen::load_dict(&t, false);
    }
    let seed = env("VF_SEED").parse().unwrap_or(1);
    let o = Box::leak(Box::new(props::Opts { threads: 1, dir: String::new(), part: env("VF_PART") }));
    let mut total = Ctx::new(seed, 0, Tier::Tiny, props::kinds(&id));
    gen::set_tape(&[]);
    props::run(&id, &mut total, o);
    State { id, out: env("VF_OUT"), total, inputs: 0 }
}

fn save(s: &State) {
    let mut t = s.total.to_json();
    let extra = format!(",\"inputs\":{}}}", s.inputs);
    t.truncate(t.len() - 1);
    t.push_str(&extra);
    let _ = std::fs::write(&s.out, t);
}

libfuzzer_sys::fuzz_target!(|data: &[u8]| {
    if data.len() < 4 {
        return;
    }
    STATE.with(|st| {
        let mut st = st.borrow_mut();
        let s = st.get_or_insert_with(start);
        let unit = u16::from_le_bytes([data[0], data[1]]) as usize;
        let how = data[2];
        let mut rest = &data[3..];
        let mut forced = Vec::new();
        for _ in 0..how & 3 {
            let n = rest.len().min(16);
            let mut b = [0; 16];
            b[..n].copy_from_slice(&rest[..n]);
            rest = &rest[n..];
            let v = u128::from_le_bytes(b);
            forced.extend([v, v.wrapping_add(u128::from(how >> 4))]);
        }
        gen::FORCED.with(|f| *f.borrow_mut() = forced);
        gen::set_tape(rest);
        let mut cx = Ctx::new(s.total.seed, 1, Tier::Tiny, s.total.kinds);
        UNITS.with(|u| {
            let u = u.borrow();
            if !u.is_empty() {
                let (name, f) = &u[unit % u.len()];
                let (r, _) = mon::observe_unlimited(|| f(&mut cx));
                if let Err(p) = r {
                    let kind = if p.contains("/repo/src/") { "panic" } else { "harness" };
                    cx.violate(kind, name, 0, format!("observation stopped: {p}"), "the workload runs to its end");
                }
            }
        });
        s.inputs += 1;
        // what is new to the log: the texts and errors seen, not the inputs
        cx.samples.clear();
        // one case per distinct input that had a case in it
        let any = cx.distinct_total() > 0;
        cx.plain = 0;
        cx.set.clear();
        if any {
            cx.set.insert(ctx::hash(data));
        }
        let bad = !cx.viols.is_empty();
        s.total.merge(cx);
        if bad || s.inputs.is_power_of_two() || s.inputs % 4096 == 0 {
            save(s);
        }
        if bad {
            let _ = &s.id;
            std::process::exit(1);
        }
    });
});
