//! Generation and shrinking of cases. A case is a pure function of (seed, property, index).
use crate::engine::{fnv, Case, Profile, RawOp};
use crate::props::Prop;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::{Union, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};

fn ops(p: &Profile, max: usize) -> BoxedStrategy<Vec<RawOp>> {
    let mut w: Vec<(u32, BoxedStrategy<u8>)> = p.weights.iter().map(|&(k, w)| (w * p.fill.max(1), Just(k).boxed())).collect();
    let sum: u32 = p.weights.iter().map(|x| x.1).sum();
    for &k in p.extra.iter().filter(|k| !p.weights.iter().any(|x| x.0 == **k)) {
        w.push(((sum * p.fill.max(1) / 100).max(1), Just(k).boxed()));
    }
    if p.fill > 0 {
        w.push((sum, Just(crate::engine::k::FILL).boxed()));
    }
    let kinds = Union::new_weighted(w);
    let op = (kinds, any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>()).prop_map(|(k, a, b, c, d)| RawOp(k, a, b, c, d));
    vec(op, 0..=max).boxed()
}
pub fn strategy(prop: &Prop) -> BoxedStrategy<Case> {
    let p = (prop.profile)();
    let cfg = any::<[u16; 6]>();
    match prop.threads {
        None => (cfg, ops(&p, p.max_ops)).prop_map(|(cfg, ops)| Case { cfg, ops, threads: vec![], sched: vec![] }).boxed(),
        Some((n, len, sched)) => {
            let t = (prop.thread_profile.expect("thread profile"))();
            let th = vec(ops(&t, len), n..=n.max(if n > 1 { 3 } else { 1 }));
            (cfg, ops(&p, p.max_ops), th, vec(any::<u8>(), 0..=sched))
                .prop_map(|(cfg, ops, threads, sched)| Case { cfg, ops, threads, sched })
                .boxed()
        }
    }
}
fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn tree(prop: &Prop, strat: &BoxedStrategy<Case>, seed: u64, index: u64) -> Box<dyn ValueTree<Value = Case>> {
    let mut bytes = [0u8; 32];
    for i in 0..4u64 {
        let h = mix(seed ^ mix(fnv(0xcbf29ce484222325, prop.id.as_bytes()) ^ mix(index ^ mix(i))));
        bytes[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    let cfg = Config { failure_persistence: None, ..Config::default() };
    let mut r = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes));
    strat.new_tree(&mut r).expect("generation does not reject")
}
pub fn case(prop: &Prop, strat: &BoxedStrategy<Case>, seed: u64, index: u64) -> Case {
    tree(prop, strat, seed, index).current()
}
/// Minimises a failing case; `fails` says whether a candidate still fails.
pub fn shrink(mut t: Box<dyn ValueTree<Value = Case>>, fails: &mut dyn FnMut(&Case) -> bool, max_iters: usize, max_secs: u64) -> (Case, usize) {
    let start = std::time::Instant::now();
    let mut best = t.current();
    let mut n = 0;
    if !t.simplify() {
        return (best, n);
    }
    loop {
        n += 1;
        if n > max_iters || start.elapsed().as_secs() > max_secs {
            break;
        }
        let c = t.current();
        let more = if fails(&c) {
            best = c;
            t.simplify()
        } else {
            t.complicate()
        };
        if !more {
            break;
        }
    }
    // whole operations may still be superfluous
    let mut changed = true;
    while changed && start.elapsed().as_secs() <= max_secs {
        changed = false;
        let mut i = best.ops.len();
        while i > 0 {
            i -= 1;
            let mut c = best.clone();
            c.ops.remove(i);
            n += 1;
            if n > max_iters * 2 || start.elapsed().as_secs() > max_secs {
                break;
            }
            if fails(&c) {
                best = c;
                changed = true;
            }
        }
        for t in 0..best.threads.len() {
            let mut i = best.threads[t].len();
            while i > 0 {
                i -= 1;
                let mut c = best.clone();
                c.threads[t].remove(i);
                n += 1;
                if n > max_iters * 2 || start.elapsed().as_secs() > max_secs {
                    break;
                }
                if fails(&c) {
                    best = c;
                    changed = true;
                }
            }
        }
        if n > max_iters * 2 {
            break;
        }
    }
    (best, n)
}
