//! Differential properties: the library against itself.
use crate::engine::*;
use crate::locks;
use crate::props::{Fail, Prop, Report, Res};
use crate::row::{Ev, Step};
use crate::shapes;
use crate::types::{self, *};
use crate::with_type;
use std::collections::{BTreeMap, HashMap};

pub fn profile(weights: &'static [(u8, u32)], shapes: Vec<usize>, groups: u16) -> Profile {
    Profile { weights, max_ops: 40, shapes: crate::props::leak(shapes), big: 300, groups, all_reg: false, fill: 1500, extra: &[] }
}
#[macro_export]
macro_rules! once {
    ($e:expr) => {{
        static V: std::sync::OnceLock<Profile> = std::sync::OnceLock::new();
        V.get_or_init(|| $e).clone()
    }};
}

pub struct Diff {
    trace: Vec<String>,
    keep: bool,
    hash: u64,
    pub counts: BTreeMap<&'static str, u64>,
}
impl Diff {
    pub fn new(keep: bool) -> Diff {
        Diff { trace: vec![], keep, hash: 0xcbf29ce484222325, counts: BTreeMap::new() }
    }
    pub fn note(&mut self, s: String) {
        self.hash = fnv(self.hash, s.as_bytes());
        if self.keep && self.trace.len() < 400 {
            self.trace.push(s)
        }
    }
    pub fn count(&mut self, w: &'static str) {
        *self.counts.entry(w).or_default() += 1
    }
    pub fn fail(&mut self, msg: String) -> Fail {
        Fail { msg, trace: std::mem::take(&mut self.trace) }
    }
    pub fn report(self, nontrivial: bool) -> Report {
        Report { nontrivial, hash: self.hash, counts: self.counts, trace: self.trace }
    }
}

pub fn start(case: &Case, p: &Profile) -> Result<(Model, u16, usize), Fail> {
    locks::sequential();
    types::reset();
    let mask = registered_mask(&case.cfg, p);
    let mut m = Model::default();
    for t in 0..NT {
        m.reg[t] = mask >> t & 1 == 1
    }
    Ok((m, mask, fillers(&case.cfg)))
}
pub fn new_sut(mask: u16, fill: usize) -> Result<Sut, Fail> {
    guarded(|| Sut::new(mask, fill)).map_err(|e| Fail { msg: format!("building a world panics: {e}"), trace: vec![] })
}

/// Makes the steps of a query independent of the order of the results.
pub fn unordered(steps: &[Step]) -> Vec<Step> {
    if steps == [Step::DrainNext] || steps == [Step::HoldNext] {
        return steps.to_vec();
    }
    let mut out: Vec<Step> = vec![];
    for s in steps {
        match s {
            Step::Probe(_) => out.push(*s),
            Step::HoldId | Step::HoldNext => out.push(Step::HoldId),
            _ => out.push(Step::DrainId),
        }
    }
    out.dedup();
    out
}
/// Results as a set, ids replaced by `key`.
pub fn as_set(o: &Out, key: &dyn Fn(usize) -> usize) -> Out {
    match o {
        Out::Evs(evs) => {
            let mut v: Vec<Ev> = evs
                .iter()
                .map(|e| match e {
                    Ev::Row(Some(i), x) => Ev::Row(Some(key(*i)), x.clone()),
                    Ev::Probe(i, x) => Ev::Probe(key(*i), x.clone()),
                    Ev::Wrote(i, l, a, b) => Ev::Wrote(i.map(key), *l, *a, *b),
                    e => e.clone(),
                })
                .collect();
            v.sort_by_key(|e| format!("{e:?}"));
            Out::Evs(v)
        }
        Out::Id(i) => Out::Id(key(*i)),
        Out::Panic(_) => Out::Panic(String::new()),
        o => o.clone(),
    }
}
pub fn sorted(mut s: Snap) -> Snap {
    for c in s.comps.iter_mut().flatten() {
        c.sort()
    }
    for g in s.groups.iter_mut() {
        if let Some(r) = g.1.as_mut() {
            r.sort()
        }
    }
    s.exist.sort();
    s
}
fn key_snap(mut s: Snap, key: &dyn Fn(usize) -> usize) -> Snap {
    for i in s.exist.iter_mut() {
        *i = key(*i)
    }
    for c in s.comps.iter_mut().flatten() {
        for x in c.iter_mut() {
            x.0 = key(x.0)
        }
    }
    for g in s.groups.iter_mut() {
        for x in g.1.iter_mut().flatten() {
            x.0 = key(x.0)
        }
    }
    sorted(s)
}
pub fn max_id(s: &Sut) -> usize {
    s.ids.iter().map(|i| i.get()).max().unwrap_or(0) + 3
}
fn show_out(o: &Out) -> String {
    let s = format!("{o:?}");
    if s.len() > 600 {
        format!("{}...", &s[..s.char_indices().nth(600).map(|x| x.0).unwrap_or(s.len())])
    } else {
        s
    }
}
/// Both or neither may panic.
pub fn same(a: &Out, b: &Out, what: &str, na: &str, nb: &str) -> Result<(), String> {
    let (x, y) = (matches!(a, Out::Panic(_)), matches!(b, Out::Panic(_)));
    if x != y || (!x && a != b) {
        return Err(format!("{what}: {na} gives {}, {nb} gives {}", show_out(a), show_out(b)));
    }
    Ok(())
}

// ------------------------------------------------------------------ C10

/// The rejected calls that mean the same in worlds that differ in groups or ids.
fn rejected_as(op: &RawOp, which: &[u16]) -> RawOp {
    let mut op = *op;
    if op.0 == k::BAD {
        op.1 = which[op.1 as usize % which.len()];
    }
    op
}
fn c10_profile() -> Profile {
    let mut p = once!(profile(
        &[
            (k::CREATE, 8), (k::ATTACH, 8), (k::DETACH, 6), (k::REMOVE, 4), (k::GROUP, 5), (k::BATCH, 3), (k::WRITE, 3), (k::QUERY, 5), (k::QWRITE, 3), (k::SWEEP, 2),
            (k::CHURN, 1), (k::HANDLE, 1), (k::REGISTER, 1),
        ],
        shapes::classes().plain.clone(),
        5
    ));
    p.extra = &[k::RES, k::BAD];
    p
}
fn c10(case: &Case, p: &Profile, keep: bool) -> Res {
    let (mut m, mask, fill) = start(case, p)?;
    let mut d = Diff::new(keep);
    let mut effort = Effort::new();
    let (mut g, mut n) = (new_sut(mask, fill)?, new_sut(mask, fill)?);
    let mut pending = initial_groups(&case.cfg, p, &m);
    let mut changes = 0;
    let r = (|| -> Result<(), String> {
        let mut ops = case.ops.iter();
        loop {
            let cmds = if !pending.is_empty() {
                std::mem::take(&mut pending)
            } else if let Some(op) = ops.next() {
                decode(&rejected_as(op, &[0, 1, 2, 3, 4, 7, 11, 12]), &mut m, p, &g.ids)
            } else {
                break;
            };
            for mut c in cmds {
                if let Cmd::Query { steps, .. } | Cmd::QWrite { steps, .. } = &mut c {
                    *steps = unordered(steps);
                }
                if let Cmd::QWrite { steps, .. } = &mut c {
                    // writes are addressed by id, so that both worlds write the same values
                    for s in steps.iter_mut() {
                        match s {
                            Step::DrainNext => *s = Step::DrainId,
                            Step::HoldNext => *s = Step::HoldId,
                            _ => {}
                        }
                    }
                }
                d.note(show(&c));
                if let Cmd::Group { .. } = c {
                    let mid = max_id(&g);
                    let before = sorted(snapshot(&g.w, mid, &m.groups)?);
                    let out = g.exec(&c);
                    if let Out::Panic(e) = out {
                        return Err(format!("{} panics: {e}", show(&c)));
                    }
                    let after = sorted(snapshot(&g.w, mid, &m.groups)?);
                    if before != after {
                        return Err(format!("{} by itself changed the world: {}", show(&c), crate::props::diff(&before, &after)));
                    }
                    m.apply(&c);
                    d.count("group made");
                    continue;
                }
                let a = g.exec(&c);
                let ma = take_mids();
                let b = n.exec(&c);
                let mb = take_mids();
                same(&as_set(&a, &|i| i), &as_set(&b, &|i| i), &show(&c), "the world with groups", "the world without groups")?;
                if ma != mb && !matches!(a, Out::Panic(_)) {
                    return Err(format!("{}: the calls in between give {ma:?} with groups and {mb:?} without", show(&c)));
                }
                if ma.is_none() {
                    c = without_mids(&c);
                }
                if matches!(c, Cmd::Bad(_)) && matches!(a, Out::Panic(_) | Out::Flag(_)) {
                    continue;
                }
                if let (Out::Panic(x), Out::Panic(_)) = (&a, &b) {
                    d.note(format!("both panic: {x}"));
                    return Ok(()); // some other property's matter
                }
                if matches!(c, Cmd::Attach { .. } | Cmd::Detach { .. } | Cmd::Remove { .. }) && !m.groups.is_empty() {
                    changes += 1;
                }
                m.apply(&c);
                if matches!(c, Cmd::Detach { .. } | Cmd::Remove { .. } | Cmd::Batch { .. }) && effort.due(2 * max_id(&g), 0) {
                    let (x, y) = (sorted(snapshot(&g.w, max_id(&g), &[])?), sorted(snapshot(&n.w, max_id(&g), &[])?));
                    if x != y {
                        return Err(format!("after {}, with groups (second) and without (first): {}", show(&c), crate::props::diff(&y, &x)));
                    }
                }
            }
        }
        let (x, y) = (sorted(snapshot(&g.w, max_id(&g), &[])?), sorted(snapshot(&n.w, max_id(&g), &[])?));
        if x != y {
            return Err(format!("in the end, with groups (second) and without (first): {}", crate::props::diff(&y, &x)));
        }
        for i in 0..4u16 {
            if let Some(s) = pick_shape(&m, p, case.cfg[4].rotate_left(i as u32 * 4), false) {
                let c = Cmd::Query { shape: s, steps: vec![Step::DrainId] };
                let (a, b) = (g.exec(&c), n.exec(&c));
                same(&as_set(&a, &|i| i), &as_set(&b, &|i| i), &show(&c), "the world with groups", "the world without groups")?;
            }
        }
        Ok(())
    })();
    if let Err(msg) = r {
        std::mem::forget((g, n));
        return Err(d.fail(msg));
    }
    let nt = !m.groups.is_empty() && changes >= 2;
    Ok(d.report(nt))
}

// ------------------------------------------------------------------ C12

fn c12_profile() -> Profile {
    let c = shapes::classes();
    let v: Vec<usize> = [&c.single, &c.join, &c.group, &c.group_in, &c.not].into_iter().flat_map(|x| x.iter().copied()).collect();
    let mut p = once!(profile(
        &[
            (k::BATCH, 12), (k::CREATE, 4), (k::ATTACH, 5), (k::DETACH, 5), (k::REMOVE, 5), (k::GROUP, 4), (k::WRITE, 3), (k::QUERY, 5), (k::SWEEP, 2), (k::CHURN, 2),
            (k::REGISTER, 1),
        ],
        v.clone(),
        5
    ));
    p.extra = &[k::RES, k::BAD, k::HANDLE];
    p
}
fn live_map(s: &Sut, m: &Model) -> HashMap<usize, H> {
    m.live.iter().map(|&h| (s.ids[h].get(), h)).collect()
}
fn c12(case: &Case, p: &Profile, keep: bool) -> Res {
    let (mut m, mask, fill) = start(case, p)?;
    let mut d = Diff::new(keep);
    let mut effort = Effort::new();
    let (mut b, mut s) = (new_sut(mask, fill)?, new_sut(mask, fill)?);
    let mut pending = initial_groups(&case.cfg, p, &m);
    let (mut batches, mut later) = (0, 0);
    let r = (|| -> Result<(), String> {
        let mut ops = case.ops.iter();
        let mut last = false;
        loop {
            let cmds = if !pending.is_empty() {
                std::mem::take(&mut pending)
            } else if let Some(op) = ops.next() {
                decode(&rejected_as(op, &[3, 4, 7, 11]), &mut m, p, &b.ids)
            } else if !last {
                last = true;
                vec![Cmd::Observe]
            } else {
                break;
            };
            for mut c in cmds {
                let (mb, ms) = (live_map(&b, &m), live_map(&s, &m));
                let kb = |i: usize| mb.get(&i).copied().unwrap_or(usize::MAX);
                let ks = |i: usize| ms.get(&i).copied().unwrap_or(usize::MAX);
                if let Cmd::Query { steps, .. } = &mut c {
                    *steps = unordered(steps);
                    steps.retain(|s| !matches!(s, Step::Probe(i) if !mb.contains_key(i)));
                    if steps.is_empty() {
                        continue;
                    }
                }
                d.note(show(&c));
                match &c {
                    Cmd::Batch { n, cols, mid, .. } => {
                        let x = b.exec(&c);
                        let mx = take_mids();
                        let mid: &[Mid] = if mx.is_some() { mid } else { &[] };
                        let (w, ids) = (&s.w, &mut s.ids);
                        let n = *n;
                        let mut my = vec![];
                        let y = guarded(|| {
                            let first = ids.len();
                            ids.extend((0..n).map(|_| w.create_entity().into_id()));
                            for (at, &(t, v)) in cols.iter().enumerate() {
                                for x in mid.iter().filter(|x| x.at == at) {
                                    my.push(exec_mid(w, ids[x.h], x));
                                }
                                for (i, id) in ids[first..].iter().enumerate() {
                                    with_type!(t, T => w.attach_component(*id, T::mk(v + i as i64)));
                                }
                            }
                            for x in mid.iter().filter(|x| x.at >= cols.len()) {
                                my.push(exec_mid(w, ids[x.h], x));
                            }
                        });
                        match (x, y) {
                            (Out::Panic(e), Err(_)) => {
                                d.note(format!("both panic: {e}"));
                                return Ok(());
                            }
                            (Out::Panic(e), Ok(_)) => return Err(format!("{}: the batch panics: {e}; one at a time succeeds", show(&c))),
                            (_, Err(e)) => return Err(format!("{}: the batch succeeds; one at a time panics: {e}", show(&c))),
                            _ => {}
                        }
                        if mx.as_ref().is_some_and(|mx| *mx != my) {
                            return Err(format!("{}: the calls in between give {mx:?} with the batch and {my:?} one at a time", show(&c)));
                        }
                        if b.ids.len() != s.ids.len() {
                            return Err(format!("{}: the batch has {} entities", show(&c), b.ids.len() + n - s.ids.len()));
                        }
                        if n > 0 && !cols.is_empty() {
                            batches += 1;
                        }
                        if mx.is_some() {
                            d.count("calls by id while a batch is being built");
                            m.apply(&c);
                        } else {
                            m.apply(&without_mids(&c));
                        }
                    }
                    Cmd::Query { shape, steps } => {
                        let st: Vec<Step> = steps
                            .iter()
                            .map(|x| match x {
                                Step::Probe(i) => Step::Probe(s.ids[mb[i]].get()),
                                x => *x,
                            })
                            .collect();
                        let x = b.exec(&c);
                        let y = s.exec(&Cmd::Query { shape: *shape, steps: st });
                        same(&as_set(&x, &kb), &as_set(&y, &ks), &show(&c), "after batches it", "after one-at-a-time creation it")?;
                    }
                    Cmd::Observe => {}
                    _ => {
                        let x = b.exec(&c);
                        let mx = take_mids();
                        let y = s.exec(&c);
                        let my = take_mids();
                        if mx != my && !matches!(x, Out::Panic(_)) && !matches!(y, Out::Panic(_)) {
                            return Err(format!("{}: the calls in between give {mx:?} after batches and {my:?} after one-at-a-time creation", show(&c)));
                        }
                        if matches!(c, Cmd::Bad(_)) && matches!((&x, &y), (Out::Panic(_), Out::Panic(_)) | (Out::Flag(_), Out::Flag(_))) {
                            same(&x, &y, &show(&c), "after batches it", "after one-at-a-time creation it")?;
                            continue;
                        }
                        if let (Out::Panic(e), Out::Panic(_)) = (&x, &y) {
                            d.note(format!("both panic: {e}"));
                            return Ok(());
                        }
                        let (x, y) = match c {
                            Cmd::Create { .. } => (
                                if matches!(x, Out::Panic(_)) { x } else { Out::Unit },
                                if matches!(y, Out::Panic(_)) { y } else { Out::Unit },
                            ),
                            // the last value is the id
                            Cmd::Handle { .. } => {
                                let cut = |o| match o {
                                    Out::Vals(mut v) => {
                                        v.pop();
                                        Out::Vals(v)
                                    }
                                    o => o,
                                };
                                (cut(x), cut(y))
                            }
                            _ => (x, y),
                        };
                        same(&x, &y, &show(&c), "after batches it", "after one-at-a-time creation it")?;
                        if batches > 0 && matches!(c, Cmd::Attach { .. } | Cmd::Detach { .. } | Cmd::Remove { .. }) {
                            later += 1;
                        }
                        m.apply(&c);
                    }
                }
                if matches!(c, Cmd::Batch { .. } | Cmd::Detach { .. } | Cmd::Remove { .. } | Cmd::Group { .. } | Cmd::Observe) && effort.due(2 * max_id(&b), m.groups.len()) {
                    let (mb, ms) = (live_map(&b, &m), live_map(&s, &m));
                    let kb = |i: usize| mb.get(&i).copied().unwrap_or(usize::MAX);
                    let ks = |i: usize| ms.get(&i).copied().unwrap_or(usize::MAX);
                    let x = key_snap(snapshot(&b.w, max_id(&b), &m.groups)?, &kb);
                    let y = key_snap(snapshot(&s.w, max_id(&s), &m.groups)?, &ks);
                    if x != y {
                        return Err(format!("after {}, one at a time (first) and by batches (second), by entity number: {}", show(&c), crate::props::diff(&y, &x)));
                    }
                    // counts and lengths as the storage views report them
                    for ty in 0..NT {
                        if m.reg[ty] {
                            let f = |w: &xecs::World| {
                                guarded(|| with_type!(ty, T => { let g = w.components_read::<T>().unwrap(); (g.count(), g.data().len()) }))
                            };
                            let (x, y) = (f(&b.w)?, f(&s.w)?);
                            if x != y {
                                return Err(format!("after {}: count and length of {} are {x:?} by batches and {y:?} one at a time", show(&c), NAMES[ty]));
                            }
                        }
                    }
                }
            }
        }
        let (mb, ms) = (live_map(&b, &m), live_map(&s, &m));
        let x = key_snap(snapshot(&b.w, max_id(&b), &m.groups)?, &|i| mb.get(&i).copied().unwrap_or(usize::MAX));
        let y = key_snap(snapshot(&s.w, max_id(&s), &m.groups)?, &|i| ms.get(&i).copied().unwrap_or(usize::MAX));
        if x != y {
            return Err(format!("in the end, one at a time (first) and by batches (second), by entity number: {}", crate::props::diff(&y, &x)));
        }
        Ok(())
    })();
    if let Err(msg) = r {
        std::mem::forget((b, s));
        return Err(d.fail(msg));
    }
    Ok(d.report(batches > 0 && later > 0))
}

// ------------------------------------------------------------------ C21

fn c21_profile() -> Profile {
    let mut p = once!(profile(
        &[
            (k::CREATE, 9), (k::ATTACH, 8), (k::DETACH, 6), (k::REMOVE, 5), (k::WRITE, 5), (k::HANDLE, 8), (k::GROUP, 3), (k::BATCH, 1), (k::SWEEP, 1), (k::CHURN, 1),
            (k::OBS, 3), (k::REGISTER, 1), (k::BAD, 2),
        ],
        shapes::classes().plain.clone(),
        4
    ));
    p.extra = &[k::RES, k::QUERY, k::QWRITE, k::SLICE];
    p
}
fn c21(case: &Case, p: &Profile, keep: bool) -> Res {
    let (mut m, mask, fill) = start(case, p)?;
    let mut d = Diff::new(keep);
    let mut effort = Effort::new();
    // h works through handles where it can, i by ids only
    let (mut hw, mut iw) = (new_sut(mask, fill)?, new_sut(mask, fill)?);
    let mut pending = initial_groups(&case.cfg, p, &m);
    let mut used = 0;
    let r = (|| -> Result<(), String> {
        let mut ops = case.ops.iter();
        loop {
            let mut style = true;
            let mut raw = 0;
            let cmds = if !pending.is_empty() {
                std::mem::take(&mut pending)
            } else if let Some(op) = ops.next() {
                style = op.4 % 8 != 7; // now and then both worlds use ids
                raw = op.2;
                let mut op = *op;
                if op.0 == k::BAD {
                    op.1 = 3 + op.1 % 2; // unregistered types
                }
                decode(&op, &mut m, p, &iw.ids)
            } else {
                break;
            };
            for c in cmds {
                let (ch, ci): (Cmd, Cmd) = match &c {
                    Cmd::Create { h, cols, mid, via } => {
                        let by = |via| Cmd::Create { h: *h, cols: cols.clone(), via, mid: mid.clone() };
                        (by(if !style { 1 } else if *via == 3 { 3 } else { (raw % 2) as u8 * 2 }), by(1))
                    }
                    Cmd::Bad(Bad::AttachUnreg { h, ty, v, .. }) => {
                        let by = |via| Cmd::Bad(Bad::AttachUnreg { h: *h, ty: *ty, v: *v, via });
                        (by(1), by(0))
                    }
                    Cmd::Bad(Bad::DetachUnreg { h, ty, .. }) => {
                        let by = |via| Cmd::Bad(Bad::DetachUnreg { h: *h, ty: *ty, via });
                        (by(1), by(0))
                    }
                    Cmd::Attach { h, ty, v, .. } => (Cmd::Attach { h: *h, ty: *ty, v: *v, via: style as u8 }, Cmd::Attach { h: *h, ty: *ty, v: *v, via: 0 }),
                    Cmd::Detach { h, ty, .. } => (Cmd::Detach { h: *h, ty: *ty, via: style as u8 }, Cmd::Detach { h: *h, ty: *ty, via: 0 }),
                    Cmd::Remove { h, .. } => (Cmd::Remove { h: *h, via: style as u8 }, Cmd::Remove { h: *h, via: 0 }),
                    Cmd::Write { h, ty, v, .. } => (Cmd::Write { h: *h, ty: *ty, v: *v, path: style as u8 }, Cmd::Write { h: *h, ty: *ty, v: *v, path: 0 }),
                    c => (c.clone(), c.clone()),
                };
                d.note(show(&ch));
                if let Cmd::Observe = c {
                    // handles that are only obtained, and builders that are never finished
                    let before = snapshot(&hw.w, max_id(&hw), &m.groups)?;
                    let (w, ids) = (&hw.w, &hw.ids);
                    guarded(|| {
                        for &h in m.live.iter().rev().take(3) {
                            drop(w.entity(ids[h]));
                            let a = w.entity(ids[h]);
                            let b = w.entity(ids[h]);
                            drop(a);
                            drop(b);
                        }
                    })
                    .map_err(|e| format!("obtaining and dropping handles panics: {e}"))?;
                    let after = snapshot(&hw.w, max_id(&hw), &m.groups)?;
                    if before != after {
                        return Err(format!("obtaining and dropping handles changed the world: {}", crate::props::diff(&before, &after)));
                    }
                    let h = m.ents.len();
                    let n = 1 + raw as usize / 8 % 4;
                    let mut cols: Vec<(usize, i64)> = vec![];
                    for t in 0..NT {
                        if raw / 32 >> t & 1 == 1 && m.reg[t] {
                            cols.push((t, m.vals(n)));
                        }
                    }
                    if raw % 2 == 0 {
                        let one = Cmd::Create { h, cols: cols.clone(), via: 0, mid: vec![] };
                        d.note(format!("the builder left unfinished: {}", show(&one)));
                        if let Out::Panic(e) = iw.exec(&one) {
                            return Err(format!("{} panics: {e}", show(&one)));
                        }
                        guarded(|| {
                            let mut e = hw.w.create_entity();
                            for &(t, v) in &cols {
                                e = with_type!(t, T => e.attach(T::mk(v)));
                            }
                            drop(e);
                        })
                        .map_err(|e| format!("dropping a new handle panics: {e}"))?;
                        m.apply(&one);
                    } else {
                        let many = Cmd::Batch { h, n, cols: cols.clone(), mid: vec![] };
                        d.note(format!("the builder left unfinished: {}", show(&many)));
                        if let Out::Panic(e) = iw.exec(&many) {
                            return Err(format!("{} panics: {e}", show(&many)));
                        }
                        guarded(|| {
                            let mut e = hw.w.create_entities(n);
                            for &(t, v) in &cols {
                                e = with_type!(t, T => e.attach::<T, _>((0..n as i64).map(|i| T::mk(v + i)).collect::<Vec<T>>()));
                            }
                            drop(e);
                        })
                        .map_err(|e| format!("dropping a new handle of many entities panics: {e}"))?;
                        m.apply(&many);
                    }
                    hw.ids = iw.ids.clone();
                } else {
                    let x = hw.exec(&ch);
                    let mx = take_mids();
                    let y = match &ci {
                        Cmd::Handle { h, calls } => {
                            let id = iw.ids[*h];
                            let w = &iw.w;
                            guarded(|| {
                                let mut out = vec![];
                                for &(cc, t, v) in calls {
                                    with_type!(t, T => match cc % 4 {
                                        0 => out.push(w.entity_component_read::<T>(id).map(|g| g.get())),
                                        1 => out.push(w.detach_component::<T>(id).map(|x| x.get())),
                                        2 => out.push(w.entity_component_write::<T>(id).map(|mut g| { let o = g.get(); g.set(v); o })),
                                        _ => { w.attach_component(id, T::mk(v)); out.push(None) }
                                    })
                                }
                                out.push(Some(id.get() as i64));
                                Out::Vals(out)
                            })
                            .unwrap_or_else(Out::Panic)
                        }
                        c => iw.exec(c),
                    };
                    let my = take_mids();
                    if mx != my && !matches!(x, Out::Panic(_)) && !matches!(y, Out::Panic(_)) {
                        return Err(format!("{}: the calls in between give {mx:?} next to a handle and {my:?} by id", show(&ch)));
                    }
                    let refused = matches!(c, Cmd::Bad(_));
                    if refused && matches!(x, Out::Panic(_)) && matches!(y, Out::Panic(_)) {
                        d.count("call refused by handle and by id");
                    } else if let (Out::Panic(e), Out::Panic(_)) = (&x, &y) {
                        d.note(format!("both panic: {e}"));
                        return Ok(());
                    }
                    same(&x, &y, &show(&ch), "by handle it", "by id it")?;
                    if style && matches!(c, Cmd::Attach { .. } | Cmd::Detach { .. } | Cmd::Remove { .. } | Cmd::Write { .. } | Cmd::Handle { .. }) {
                        used += 1;
                    }
                    if mx.is_some() {
                        m.apply(&c);
                    } else {
                        m.apply(&without_mids(&c));
                    }
                }
                if effort.due(2 * max_id(&iw), m.groups.len()) {
                    let (a, b) = (sorted(snapshot(&hw.w, max_id(&iw), &m.groups)?), sorted(snapshot(&iw.w, max_id(&iw), &m.groups)?));
                    if a != b {
                        return Err(format!("after {}, by ids (first) and by handles (second): {}", show(&ch), crate::props::diff(&b, &a)));
                    }
                }
            }
        }
        let (a, b) = (sorted(snapshot(&hw.w, max_id(&iw), &m.groups)?), sorted(snapshot(&iw.w, max_id(&iw), &m.groups)?));
        if a != b {
            return Err(format!("in the end, by ids (first) and by handles (second): {}", crate::props::diff(&b, &a)));
        }
        // every handle denotes its entity
        for &h in &m.live {
            let id = iw.ids[h];
            let got = guarded(|| hw.w.entity(id).map(|e| e.into_id()))?;
            if got != Some(id) {
                return Err(format!("the handle of entity {id} yields {got:?}"));
            }
        }
        Ok(())
    })();
    if let Err(msg) = r {
        std::mem::forget((hw, iw));
        return Err(d.fail(msg));
    }
    Ok(d.report(used >= 3))
}

// ------------------------------------------------------------------ C22

fn c22_profile() -> Profile {
    let mut p = once!(profile(
        &[
            (k::CREATE, 8), (k::ATTACH, 7), (k::DETACH, 5), (k::REMOVE, 5), (k::BATCH, 3), (k::GROUP, 4), (k::QUERY, 5), (k::QWRITE, 2), (k::RES, 4), (k::WRITE, 2),
            (k::BAD, 2), (k::SWEEP, 1), (k::CHURN, 2), (k::REGISTER, 1), (k::HANDLE, 1),
        ],
        (0..shapes::all().len()).collect(),
        4
    ));
    p.extra = &[k::SLICE];
    p
}
fn c22(case: &Case, p: &Profile, keep: bool) -> Res {
    locks::sequential();
    types::reset();
    let mut d = Diff::new(keep);
    let n = 2 + (case.cfg[5] % 2) as usize;
    let threaded = case.cfg[5] / 2 % 3 == 0;
    let drop_first = case.cfg[5] / 8 % 2 == 0;
    // the world dropped early has a successor
    let born = n;
    let slots = n;
    let n = n + drop_first as usize;
    let mut slot0 = 0;
    // worlds differ in what is registered
    let cfgs: Vec<[u16; 6]> = (0..n)
        .map(|i| {
            let mut c = case.cfg;
            for x in c.iter_mut() {
                *x = x.rotate_left(i as u32 * 5)
            }
            c
        })
        .collect();
    let mk = |i: usize| new_sut(registered_mask(&cfgs[i], p), fillers(&cfgs[i]));
    let mut suts: Vec<Option<Sut>> = vec![];
    let mut ms = vec![];
    for i in 0..n {
        suts.push(if i < slots { Some(mk(i)?) } else { None });
        let mut m = Model::default();
        for t in 0..NT {
            m.reg[t] = registered_mask(&cfgs[i], p) >> t & 1 == 1
        }
        ms.push(m);
    }
    let mut cmds: Vec<Vec<Cmd>> = vec![vec![]; n];
    let mut outs: Vec<Vec<Out>> = vec![vec![]; n];
    let mut snaps: Vec<Option<Snap>> = vec![None; n];
    let finish = |s: &Sut| guarded(|| snapshot(&s.w, max_id(s), &all_groups())).and_then(|x| x);
    let total = case.ops.len();
    let r = (|| -> Result<bool, String> {
        for (j, op) in case.ops.iter().enumerate() {
            let i = (op.4 >> 13) as usize % slots;
            if drop_first && j == total / 2 {
                if let Some(s) = suts[0].take() {
                    snaps[0] = Some(finish(&s)?);
                    guarded(move || drop(s)).map_err(|e| format!("dropping a world panics: {e}"))?;
                }
                // in the same place as the dropped one
                suts[0] = Some(mk(born).map_err(|f| f.msg)?);
                slot0 = born;
            }
            let Some(s) = suts[i].as_mut() else { continue };
            let i = if i == 0 { slot0 } else { i };
            let mut list = if cmds[i].is_empty() { initial_groups(&cfgs[i], p, &ms[i]) } else { vec![] };
            list.extend(decode(op, &mut ms[i], p, &s.ids));
            for c in list {
                d.note(format!("world {i}: {}", show(&c)));
                let o = s.exec(&c);
                let bad = matches!(o, Out::Panic(_));
                let is_bad = matches!(c, Cmd::Bad(_));
                if !bad && !is_bad {
                    // only shapes matter here
                    if !matches!(c, Cmd::Group { kind, a, b } if !ms[i].admissible(kind, a, b)) {
                        ms[i].apply(&c);
                    }
                }
                cmds[i].push(c.clone());
                outs[i].push(o);
                if let Cmd::Bad(Bad::BatchUnreg { .. } | Bad::BatchLen { .. }) = c {
                    // ids unknown from here; such entities are left alone
                }
                if bad && !is_bad {
                    return Ok(false);
                }
            }
        }
        for i in 0..slots {
            if let Some(s) = &suts[i] {
                snaps[if i == 0 { slot0 } else { i }] = Some(finish(s)?);
            }
        }
        Ok(true)
    })();
    match r {
        Err(msg) => {
            std::mem::forget(suts);
            return Err(d.fail(msg));
        }
        Ok(_) => {}
    }
    drop(suts);
    // each world's own history alone (or all at once, each on its own thread)
    let alone = |i: usize| -> Result<(Vec<Out>, Option<Snap>), Fail> {
        locks::sequential();
        let mut s = mk(i)?;
        let o: Vec<Out> = cmds[i].iter().map(|c| s.exec(c)).collect();
        let f = finish(&s).ok();
        Ok((o, f))
    };
    let compare = |i: usize, o: &[Out], f: &Option<Snap>, how: &str| -> Result<(), String> {
        for (j, (x, y)) in outs[i].iter().zip(o).enumerate() {
            same(x, y, &format!("world {i}, {}", show(&cmds[i][j])), "among other worlds it", how)?;
        }
        if let (Some(a), Some(b)) = (&snaps[i], f) {
            if a != b {
                return Err(format!("world {i} in the end, alone (first) and among others (second): {}", crate::props::diff(b, a)));
            }
        }
        Ok(())
    };
    for i in 0..n {
        let (o, f) = alone(i)?;
        if let Err(m) = compare(i, &o, &f, "alone it") {
            return Err(d.fail(m));
        }
    }
    if threaded {
        d.count("also on concurrent threads");
        let rs: Vec<Result<(Vec<Out>, Option<Snap>), Fail>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n).map(|i| sc.spawn({ let alone = &alone; move || alone(i) })).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail { msg: "thread panics".into(), trace: vec![] }))).collect()
        });
        for (i, r) in rs.into_iter().enumerate() {
            let (o, f) = r?;
            if let Err(m) = compare(i, &o, &f, "next to worlds on other threads it") {
                return Err(d.fail(m));
            }
        }
    }
    let nt = cmds.iter().filter(|c| c.len() >= 3).count() >= 2;
    Ok(d.report(nt))
}

pub fn all() -> Vec<Prop> {
    let p = |id, profile: fn() -> Profile, run: fn(&Case, &Profile, bool) -> Res, quick, thorough, rule| Prop { id, profile, run, quick, thorough, rule, threads: None, thread_profile: None };
    vec![
        p("C10", c10_profile, c10, 150_000, 6_000_000, "a generated history executed in a world with groups and in one without, results compared after each step; non-trivial when groups exist and at least two attach/detach/remove steps ran with them"),
        p("C12", c12_profile, c12, 50_000, 2_000_000, "a generated history with batches executed as it is and with every batch replaced by single creations and attachments; non-trivial when a batch carried components and later steps attached, detached or removed"),
        p("C21", c21_profile, c21, 200_000, 8_000_000, "a generated history executed through entity handles and by ids, the states compared after each step; non-trivial when at least three steps went through a handle"),
        p("C22", c22_profile, c22, 50_000, 2_000_000, "generated histories of two or three worlds interleaved, each compared with itself run alone (and on concurrent threads); non-trivial when at least two worlds ran three or more calls"),
    ]
}
