//! More relations between runs of the library: looking leaves no trace, registration order
//! does not matter, repetition needs no more memory.
use crate::conc::{acquire, show_form, Form};
use crate::diffs::*;
use crate::engine::*;
use crate::props::{Prop, Res};
use crate::row::{set_bomb, Ev, Req, Step};
use crate::shapes;
use crate::types::{self, *};
use crate::{once, with_res, with_type};

fn next(x: &mut u64) -> usize {
    *x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    (*x >> 33) as usize
}

// ------------------------------------------------------------------ C23

fn c23_profile() -> Profile {
    once!(profile(
        &[
            (k::CREATE, 8), (k::ATTACH, 7), (k::DETACH, 5), (k::REMOVE, 5), (k::BATCH, 3), (k::GROUP, 5), (k::QUERY, 4), (k::QWRITE, 2), (k::RES, 3), (k::WRITE, 2),
            (k::BAD, 2), (k::SWEEP, 1), (k::CHURN, 2), (k::REGISTER, 1), (k::HANDLE, 1), (k::SLICE, 1),
        ],
        (0..shapes::all().len()).collect(),
        5
    ))
}
/// Looks at the world in one way; the answer is returned as text.
fn look(w: &xecs::World, ids: &[xecs::EntityId], m: &Model, p: &Profile, x: &mut u64) -> Result<(String, String), String> {
    let kind = next(x) % 12;
    let live = |x: &mut u64| if m.live.is_empty() { None } else { Some(m.live[next(x) % m.live.len()]) };
    let ty = {
        let s = next(x);
        (0..NT).map(|i| (s + i) % NT).find(|&t| m.reg[t])
    };
    let id = match live(x) {
        Some(h) if next(x) % 4 != 0 => ids[h].get(),
        _ => missing_id(ids, m, next(x) as u16, true),
    };
    let alive = w.exist(nz(id));
    let (what, got) = match (kind, ty) {
        (0, _) => (format!("existence of {id}"), guarded(|| format!("{} {}", w.exist(nz(id)), w.entity(nz(id)).is_some()))),
        (1, Some(t)) => (format!("{} of {id}", NAMES[t]), guarded(|| format!("{:?}", with_type!(t, T => read_paths::<T>(w, nz(id), alive))))),
        (2, Some(t)) => (
            format!("views of {}", NAMES[t]),
            guarded(|| {
                with_type!(t, T => {
                    let a = { let g = w.components_read::<T>().unwrap(); (g.count(), g.is_empty(), g.data().len(), g.exist(nz(id))) };
                    let b = { let mut g = w.components_write::<T>().unwrap(); (g.count(), g.is_empty(), g.data_mut().len(), g.get_mut(nz(id)).is_some()) };
                    format!("{a:?} {b:?}")
                })
            }),
        ),
        (3, _) => ("the formatted world".to_string(), guarded(|| format!("{}", format!("{w:?}").len() + format!("{w:#?}").len()))),
        (4, _) => (
            "resources".to_string(),
            guarded(|| {
                let mut s = vec![];
                for r in 0..NR {
                    with_res!(r, R => {
                        s.push(w.resource_read::<R>().map(|g| g.get()));
                        s.push(w.resource_write::<R>().map(|g| g.get()));
                    })
                }
                format!("{s:?}")
            }),
        ),
        (5, _) => (
            "registration".to_string(),
            guarded(|| {
                let mut s = vec![];
                for t in 0..NT + 2 {
                    with_type!(t, T => {
                        s.push(w.has_registered::<T>());
                        s.push(w.components_read::<T>().is_some());
                        s.push(w.entity_component_read::<T>(nz(id)).is_some());
                        s.push(w.resource_read::<T>().is_some());
                    })
                }
                format!("{s:?}")
            }),
        ),
        (6, Some(t)) if alive => (
            format!("handles of {id}"),
            guarded(|| {
                let e = w.entity(nz(id)).unwrap();
                let f = w.entity(nz(id)).unwrap();
                let v = with_type!(t, T => (e.component_read::<T>().map(|g| g.get()), f.component_write::<T>().map(|g| g.get())));
                drop(e);
                format!("{v:?} {}", f.into_id())
            }),
        ),
        (7, Some(t)) => (
            format!("shared views of {} together", NAMES[t]),
            guarded(|| {
                with_type!(t, T => {
                    let a = w.components_read::<T>();
                    let mut q = w.query::<&T>();
                    let b = w.entity_component_read::<T>(nz(id));
                    let n = (q.next().map(|v| v.get()), q.size_hint(), b.as_ref().map(|g| g.get()));
                    drop(a);
                    drop(q);
                    format!("{n:?}")
                })
            }),
        ),
        _ => {
            let n = p.shapes.len();
            let s0 = next(x);
            let Some(s) = (0..n).map(|i| p.shapes[(s0 + i * 3) % n]).find(|&s| m.answerable(&shapes::all()[s])) else { return Ok((String::new(), String::new())) };
            let mut steps = vec![];
            for _ in 0..next(x) % 5 {
                steps.push(match next(x) % 8 {
                    0 | 1 => Step::Next,
                    2 | 3 => Step::NextId,
                    4 => Step::Probe(id),
                    5 => Step::Hint,
                    6 => Step::Take(next(x) % 4),
                    _ => Step::Nth(next(x) % 4),
                })
            }
            match next(x) % 8 {
                0 => steps.push(Step::DrainId),
                1 => steps.push(Step::DrainNext),
                2 => steps.push(Step::Count),
                3 => steps.push(Step::Last),
                4 => steps.push(Step::HoldId),
                _ => {}
            }
            let name = format!("query {} {steps:?}", shapes::all()[s].name);
            (name, guarded(|| format!("{:?}", (shapes::all()[s].run)(w, &mut Req { steps: &steps, cap: 100_000, writer: None }))))
        }
    };
    match got {
        Ok(g) => Ok((what, g)),
        Err(e) => Err(format!("looking at {what} panics: {e}")),
    }
}
/// Results as they are, except that group queries promise no order.
fn ordered(c: &Cmd, o: &Out) -> Out {
    match c {
        Cmd::Query { shape, .. } | Cmd::QWrite { shape, .. } if !shapes::all()[*shape].groups.is_empty() => as_set(o, &|i| i),
        Cmd::Bad(_) | Cmd::Debug => match o {
            Out::Panic(_) => Out::Panic(String::new()),
            Out::Text(_) => Out::Unit,
            o => o.clone(),
        },
        _ => o.clone(),
    }
}
/// Makes queries with groups independent of the order of their results.
fn settle(c: &mut Cmd) {
    if let Cmd::Query { steps, shape } | Cmd::QWrite { steps, shape, .. } = c {
        if !shapes::all()[*shape].groups.is_empty() {
            *steps = unordered(steps);
            for s in steps.iter_mut() {
                match s {
                    Step::DrainNext => *s = Step::DrainId,
                    Step::HoldNext => *s = Step::HoldId,
                    _ => {}
                }
            }
        }
    }
}
fn group_sets(mut s: Snap) -> Snap {
    for g in s.groups.iter_mut() {
        if let Some(r) = g.1.as_mut() {
            r.sort()
        }
    }
    s
}
fn c23(case: &Case, p: &Profile, keep: bool) -> Res {
    let (mut m, mask, fill) = start(case, p)?;
    let mut d = Diff::new(keep);
    // o is looked at, n is not
    let (mut o, mut n) = (new_sut(mask, fill)?, new_sut(mask, fill)?);
    let mut pending = initial_groups(&case.cfg, p, &m);
    let mut x = (case.cfg[4] as u64) << 16 ^ case.cfg[5] as u64 ^ 0x9e37_79b9_7f4a_7c15;
    let (mut looks, mut steps) = (0u64, 0);
    let r = (|| -> Result<(), String> {
        let mut ops = case.ops.iter();
        'run: loop {
            let cmds = if !pending.is_empty() {
                std::mem::take(&mut pending)
            } else if let Some(op) = ops.next() {
                x ^= (op.2 as u64) << 32 ^ (op.4 as u64) << 48;
                decode(op, &mut m, p, &n.ids)
            } else {
                break;
            };
            let many = cmds.len() > 40;
            for (i, mut c) in cmds.into_iter().enumerate() {
                settle(&mut c);
                if let Cmd::Bad(Bad::BatchUnreg { .. } | Bad::BatchLen { .. }) = c {
                    continue; // leaves entities whose ids are not told
                }
                if !many || i % 37 == 0 {
                    for _ in 0..1 + next(&mut x) % 3 {
                        let before = x;
                        let (what, a) = look(&o.w, &o.ids, &m, p, &mut x)?;
                        if what.is_empty() {
                            continue;
                        }
                        d.note(format!("(looking at {what})"));
                        let mut again = before;
                        let (_, b) = look(&o.w, &o.ids, &m, p, &mut again)?;
                        if a != b {
                            return Err(format!("looking at {what} gives {a} and then {b}"));
                        }
                        looks += 1;
                    }
                }
                d.note(show(&c));
                let a = o.exec(&c);
                let ma = take_mids();
                let b = n.exec(&c);
                let mb = take_mids();
                let (ka, kb) = (ordered(&c, &a), ordered(&c, &b));
                same(&ka, &kb, &show(&c), "the world looked at", "the other world")?;
                if matches!(c, Cmd::Bad(_)) {
                    if !matches!(a, Out::Panic(_) | Out::Flag(_)) {
                        break 'run; // accepted: another property's matter
                    }
                    continue;
                }
                if let Out::Panic(e) = &a {
                    d.note(format!("both panic: {e}"));
                    return Ok(());
                }
                if ma != mb {
                    return Err(format!("{}: the calls in between give {ma:?} in the world looked at and {mb:?} in the other", show(&c)));
                }
                if o.ids != n.ids {
                    return Err(format!("{}: ids differ", show(&c)));
                }
                m.apply(&if ma.is_some() { c.clone() } else { without_mids(&c) });
                if matches!(c, Cmd::Attach { .. } | Cmd::Detach { .. } | Cmd::Remove { .. } | Cmd::Group { .. }) {
                    steps += 1;
                }
            }
        }
        let mid = max_id(&n);
        let (mut a, mut b) = (snapshot(&o.w, mid, &m.groups)?, snapshot(&n.w, mid, &m.groups)?);
        for s in [&mut a, &mut b] {
            for g in s.groups.iter_mut() {
                if let Some(r) = g.1.as_mut() {
                    r.sort()
                }
            }
        }
        if a != b {
            return Err(format!("in the end, not looked at (first) and looked at (second): {}", crate::props::diff(&b, &a)));
        }
        Ok(())
    })();
    *d.counts.entry("calls that only look").or_default() += looks;
    if let Err(msg) = r {
        std::mem::forget((o, n));
        return Err(d.fail(msg));
    }
    Ok(d.report(steps >= 3 && looks >= 5))
}

// ------------------------------------------------------------------ C24

/// Unused types beyond those of the other checks.
fn used_types(c: &Cmd, out: &mut [bool; NT]) {
    let mut add = |t: usize| {
        if t < NT {
            out[t] = true
        }
    };
    match c {
        Cmd::Create { cols, mid, .. } | Cmd::Batch { cols, mid, .. } => {
            for x in cols {
                add(x.0)
            }
            for x in mid {
                add(x.ty)
            }
        }
        Cmd::Attach { ty, .. } | Cmd::Detach { ty, .. } | Cmd::Write { ty, .. } | Cmd::Slice { ty, .. } | Cmd::Register { ty } => add(*ty),
        Cmd::Group { a, b, .. } => {
            add(*a);
            add(*b)
        }
        Cmd::Handle { calls, .. } => {
            for x in calls {
                add(x.1)
            }
        }
        Cmd::Query { shape, .. } | Cmd::QWrite { shape, .. } => {
            for l in &shapes::all()[*shape].locks {
                add(l.0)
            }
        }
        _ => {}
    }
}
fn c24_profile() -> Profile {
    let mut p = once!(profile(
        &[
            (k::CREATE, 8), (k::ATTACH, 7), (k::DETACH, 5), (k::REMOVE, 6), (k::BATCH, 3), (k::GROUP, 5), (k::QUERY, 4), (k::QWRITE, 2), (k::RES, 3), (k::WRITE, 2),
            (k::SWEEP, 1), (k::CHURN, 2), (k::HANDLE, 1), (k::SLICE, 1), (k::DEBUG, 1),
        ],
        (0..shapes::all().len()).collect(),
        4
    ));
    p.all_reg = true;
    p
}
fn c24(case: &Case, p: &Profile, keep: bool) -> Res {
    let (mut m, _, _) = start(case, p)?;
    for t in 0..NT {
        m.reg[t] = true
    }
    let mut d = Diff::new(keep);
    // a registers everything at the start in the usual order; b late, in another order, among others
    let mut a = new_sut(ALL, 0)?;
    let mut b = new_sut(0, 0)?;
    let mut x = (case.cfg[4] as u64) << 16 ^ case.cfg[5] as u64 ^ 0x1234_5678_9abc_def1;
    let mut extra = 0;
    let late = case.cfg[0] % 4 != 0;
    let most = [0, 3, 9, 32][case.cfg[1] as usize % 4];
    let most = if case.cfg[1] / 4 % 16 == 0 { most * 4 } else { most };
    let mut has = [false; NT];
    let mut order: Vec<usize> = (0..NT).collect();
    for i in (1..NT).rev() {
        order.swap(i, next(&mut x) % (i + 1));
    }
    let mut late_n = 0;
    let mut data = 0;
    let r = (|| -> Result<(), String> {
        let mut reg = |b: &mut Sut, has: &mut [bool; NT], t: usize, x: &mut u64, d: &mut Diff| -> Result<(), String> {
            while extra < most && (next(x) % 3 == 0 || most > 20 && next(x) % 20 != 0) {
                guarded(|| add_filler(&mut b.w, extra)).map_err(|e| format!("registering an unused type panics: {e}"))?;
                extra += 1;
            }
            if !has[t] {
                d.note(format!("(registering {} in the second world)", NAMES[t]));
                guarded(|| register_ty(&mut b.w, t)).map_err(|e| format!("registering {} panics: {e}", NAMES[t]))?;
                has[t] = true;
            }
            Ok(())
        };
        let check_reg = |b: &Sut, has: &[bool; NT]| -> Result<(), String> {
            for t in 0..NT {
                let got = guarded(|| with_type!(t, T => w_has::<T>(&b.w))).map_err(|e| format!("has_registered panics: {e}"))?;
                if got != (has[t], has[t]) {
                    return Err(format!("has_registered of {} and its storage view's presence are {got:?}, expected {}", NAMES[t], has[t]));
                }
            }
            if b.w.has_registered::<R0>() || b.w.has_registered::<R1>() || b.w.has_registered::<R3>() || b.w.has_registered::<U>() {
                return Err("has_registered is true for a type never registered".into());
            }
            Ok(())
        };
        if !late {
            for &t in &order {
                reg(&mut b, &mut has, t, &mut x, &mut d)?;
            }
        }
        let mut pending = initial_groups(&case.cfg, p, &m);
        let mut ops = case.ops.iter();
        loop {
            let cmds = if !pending.is_empty() {
                std::mem::take(&mut pending)
            } else if let Some(op) = ops.next() {
                x ^= (op.3 as u64) << 32;
                decode(op, &mut m, p, &a.ids)
            } else {
                break;
            };
            for mut c in cmds {
                settle(&mut c);
                let mut used = [false; NT];
                used_types(&c, &mut used);
                for &t in &order {
                    if used[t] && !has[t] {
                        reg(&mut b, &mut has, t, &mut x, &mut d)?;
                        check_reg(&b, &has)?;
                        late_n += !m.live.is_empty() as usize;
                    }
                }
                if next(&mut x) % 16 == 0 {
                    let t = order[next(&mut x) % NT];
                    reg(&mut b, &mut has, t, &mut x, &mut d)?;
                }
                d.note(show(&c));
                let oa = a.exec(&c);
                let ma = take_mids();
                let ob = b.exec(&c);
                let mb = take_mids();
                let (ka, kb) = (ordered(&c, &oa), ordered(&c, &ob));
                same(&ka, &kb, &show(&c), "with all types registered at the start it", "with types registered late, in another order or among others it")?;
                if let Out::Panic(e) = &oa {
                    d.note(format!("both panic: {e}"));
                    return Ok(());
                }
                if ma != mb || a.ids != b.ids {
                    return Err(format!("{}: ids or results in between differ: {ma:?} and {mb:?}", show(&c)));
                }
                m.apply(&if ma.is_some() { c.clone() } else { without_mids(&c) });
                data += matches!(c, Cmd::Attach { .. } | Cmd::Detach { .. } | Cmd::Remove { .. }) as usize;
            }
        }
        check_reg(&b, &has)?;
        let mid = max_id(&a);
        let (mut sa, mut sb) = (snapshot(&a.w, mid, &m.groups)?, snapshot(&b.w, mid, &m.groups)?);
        for s in [&mut sa, &mut sb] {
            for g in s.groups.iter_mut() {
                if let Some(r) = g.1.as_mut() {
                    r.sort()
                }
            }
            for c in s.comps.iter_mut() {
                c.get_or_insert_with(Vec::new);
            }
        }
        if sa != sb {
            return Err(format!("in the end, all registered at the start (first) and otherwise (second): {}", crate::props::diff(&sa, &sb)));
        }
        Ok(())
    })();
    if let Err(msg) = r {
        std::mem::forget((a, b));
        return Err(d.fail(msg));
    }
    if late_n > 0 {
        d.count("type registered while entities exist");
    }
    if extra > 0 {
        d.count("unused types registered");
    }
    Ok(d.report(data >= 3 && (late_n > 0 || extra > 0)))
}
fn w_has<T: Comp>(w: &xecs::World) -> (bool, bool) {
    (w.has_registered::<T>(), w.components_read::<T>().is_some())
}

// ------------------------------------------------------------------ C25

fn c25_profile() -> Profile {
    let mut p = once!(profile(
        &[
            (k::CREATE, 16), (k::ATTACH, 7), (k::DETACH, 5), (k::REMOVE, 7), (k::GROUP, 3), (k::QUERY, 2), (k::QWRITE, 1), (k::RES, 3), (k::WRITE, 2), (k::BAD, 4),
            (k::SWEEP, 1), (k::CHURN, 2), (k::HANDLE, 2), (k::BATCH, 2), (k::SLICE, 1), (k::DEBUG, 1),
        ],
        (0..shapes::all().len()).collect(),
        4
    ));
    p.max_ops = 36;
    p.fill = 0;
    p.big = 40;
    p
}
const ROUNDS: [usize; 4] = [125, 250, 500, 1000];
fn c25(case: &Case, p: &Profile, keep: bool) -> Res {
    let (m, mask, fill) = start(case, p)?;
    let mut m = m;
    let mut d = Diff::new(keep);
    let mut s = new_sut(mask, fill)?;
    let mut made = 0;
    let r = (|| -> Result<(), String> {
        let split = case.ops.len() * (1 + case.cfg[4] as usize % 4) / 6;
        let mut setup = initial_groups(&case.cfg, p, &m);
        for op in &case.ops[..split] {
            for c in std::mem::take(&mut setup).into_iter().chain(decode(op, &mut m, p, &s.ids)) {
                if matches!(c, Cmd::Bad(_)) {
                    continue;
                }
                d.note(show(&c));
                if let Out::Panic(e) = s.exec(&c) {
                    d.note(format!("panics: {e}"));
                    return Ok(());
                }
                let c = if take_mids().is_some() { c } else { without_mids(&c) };
                m.apply(&c);
            }
        }
        for c in setup {
            s.exec(&c);
            m.apply(&c);
        }
        // the round: what exists before it exists after it, and nothing else
        let base = s.ids.len();
        let mut round: Vec<(Cmd, Option<H>)> = vec![];
        d.note("again and again:".into());
        for op in &case.ops[split..] {
            if round.len() > 30 {
                break;
            }
            for mut c in decode(op, &mut m, p, &s.ids) {
                match &mut c {
                    Cmd::Remove { h, .. } if *h < base => continue,
                    // batches need new ids each time; groups cannot be unmade
                    Cmd::Group { .. } | Cmd::Register { .. } => continue,
                    // but empty ones
                    Cmd::Batch { n, mid, .. } => {
                        *n = 0;
                        mid.clear();
                    }
                    Cmd::Bad(Bad::BatchUnreg { .. } | Bad::BatchLen { .. }) => continue,
                    Cmd::Query { steps, .. } | Cmd::QWrite { steps, .. } => steps.retain(|s| !matches!(s, Step::Probe(_))),
                    _ => {}
                }
                d.note(show(&c));
                let o = s.exec(&c);
                let mids = take_mids().is_some();
                match (&o, &c) {
                    (_, Cmd::Bad(_)) => {}
                    (Out::Panic(e), _) => {
                        d.note(format!("panics: {e}"));
                        return Ok(());
                    }
                    (Out::Evs(evs), Cmd::QWrite { .. }) if evs.iter().any(|e| matches!(e, Ev::Wrote(..))) => {}
                    _ => m.apply(&if mids { c.clone() } else { without_mids(&c) }),
                }
                if matches!(c, Cmd::Create { .. }) {
                    made += 1;
                }
                // a call naming a removed entity names its id of the round
                let named = match &c {
                    Cmd::Bad(Bad::AttachMissing { id, .. } | Bad::DetachMissing { id, .. } | Bad::RemoveMissing { id }) => {
                        made += 1;
                        (base..s.ids.len()).rev().find(|&h| s.ids[h].get() == *id)
                    }
                    _ => None,
                };
                round.push((c, named));
            }
        }
        let mut rest: Vec<H> = m.live.iter().copied().filter(|&h| h >= base).collect();
        if case.cfg[5] % 2 == 0 {
            rest.reverse();
        }
        for h in rest {
            let c = Cmd::Remove { h, via: 0 };
            d.note(show(&c));
            if let Out::Panic(e) = s.exec(&c) {
                d.note(format!("panics: {e}"));
                return Ok(());
            }
            round.push((c, None));
        }
        let top = s.ids.iter().map(|i| i.get()).max().unwrap_or(0);
        let old: std::collections::HashSet<usize> = (0..base).filter(|&h| m.ents[h].alive).map(|h| s.ids[h].get()).collect();
        let mut bytes = vec![];
        let mut done = 1;
        let panics = |o: &Out, c: &Cmd| matches!(o, Out::Panic(_)) && !matches!(c, Cmd::Bad(_));
        for upto in ROUNDS {
            while done < upto {
                s.ids.truncate(base);
                types::reset();
                let mut live: std::collections::HashSet<usize> = old.clone();
                for (c, named) in &round {
                    let mut c = c;
                    let mut renamed;
                    if let Cmd::Bad(Bad::AttachMissing { id, .. } | Bad::DetachMissing { id, .. } | Bad::RemoveMissing { id }) = c {
                        renamed = c.clone();
                        let now = named.map_or(*id, |h| s.ids[h].get());
                        if live.contains(&now) {
                            continue;
                        }
                        if let Cmd::Bad(Bad::AttachMissing { id, .. } | Bad::DetachMissing { id, .. } | Bad::RemoveMissing { id }) = &mut renamed {
                            *id = now;
                        }
                        c = &renamed;
                    }
                    let gone = if let Cmd::Remove { h, .. } = c { Some(s.ids[*h].get()) } else { None };
                    let o = s.exec(c);
                    if let Some(id) = gone {
                        live.remove(&id);
                    }
                    if panics(&o, c) {
                        return Err(format!("{} in round {}: {o:?}; it worked in round 1", show(c), done + 1));
                    }
                    if let Out::Id(i) = o {
                        if i > top {
                            return Err(format!("{} in round {} issues id {i}; round 1 needed none above {top}", show(c), done + 1));
                        }
                        live.insert(i);
                    }
                }
                done += 1;
            }
            take_mids();
            types::reset();
            bytes.push(crate::alloc::balance() - types::heap());
        }
        // growth that keeps up with the number of rounds
        if (1..ROUNDS.len()).all(|i| bytes[i] - bytes[i - 1] >= 4 * (ROUNDS[i] - ROUNDS[i - 1]) as i64) {
            return Err(format!("after {ROUNDS:?} rounds the world holds {bytes:?} bytes more than at some fixed point: it grows with every round"));
        }
        Ok(())
    })();
    if let Err(msg) = r {
        std::mem::forget(s);
        return Err(d.fail(msg));
    }
    Ok(d.report(made >= 2))
}

// ------------------------------------------------------------------ C26

fn c26_profile() -> Profile {
    let mut p = once!(profile(
        &[
            (k::CREATE, 8), (k::ATTACH, 5), (k::DETACH, 3), (k::REMOVE, 3), (k::BATCH, 2), (k::GROUP, 5), (k::RES, 3), (k::SWEEP, 1), (k::REGISTER, 1), (k::OBS, 12),
        ],
        (0..shapes::all().len()).collect(),
        5
    ));
    p.max_ops = 30;
    p.extra = k::ALL;
    p
}
struct Bomb;
impl<T> From<Bomb> for Vec<T> {
    fn from(_: Bomb) -> Vec<T> {
        panic!("the caller's conversion panics")
    }
}
/// The caller's code panics while it holds things. What was done before stays done.
fn fault(c: &mut Ctx, p: &Profile, mut x: u64) -> Result<(), String> {
    let x = &mut x;
    let reg: Vec<usize> = (0..NT).filter(|&t| c.m.reg[t]).collect();
    let cols = |x: &mut u64, m: &mut Model, n: usize| -> Vec<(usize, i64)> {
        let mut v = vec![];
        for _ in 0..next(x) % 4 {
            if let Some(&t) = reg.get(next(x) % NT) {
                v.push((t, m.vals(n)))
            }
        }
        v
    };
    let live = |x: &mut u64, m: &Model| if m.live.is_empty() { None } else { Some(m.live[next(x) % m.live.len()]) };
    match next(x) % 8 {
        0..=2 => {
            // any views
            let mut forms = vec![];
            for _ in 0..1 + next(x) % 4 {
                let excl = next(x) % 3 == 0;
                let h = live(x, &c.m);
                forms.push(match next(x) % 4 {
                    0 if !reg.is_empty() => Form::Store { ty: reg[next(x) % reg.len()], excl, h },
                    1 if !reg.is_empty() && h.is_some() => Form::Comp { ty: reg[next(x) % reg.len()], excl, h: h.unwrap() },
                    2 => match pick_shape(&c.m, p, next(x) as u16, false) {
                        Some(shape) => Form::Query { shape },
                        None => continue,
                    },
                    _ => Form::Res { r: next(x) % NR, excl },
                });
            }
            c.note(&format!("panic while holding: {}", forms.iter().map(show_form).collect::<Vec<_>>().join(", ")));
            let (w, ids, m) = (&c.s.w, &c.s.ids, &mut c.m);
            let mut got = 0;
            let r = guarded(|| {
                let mut held = vec![];
                for f in &forms {
                    // waiting for oneself panics as well here
                    let Some(mut v) = acquire(w, ids, f) else { continue };
                    got += 1;
                    let new = m.val();
                    v(Some(new));
                    match *f {
                        Form::Store { ty, excl: true, h: Some(h) } | Form::Comp { ty, excl: true, h } if m.ents[h].comps[ty].is_some() => m.ents[h].comps[ty] = Some(new),
                        Form::Res { r, excl: true } if r != 2 => m.res[r] = Some(new),
                        _ => {}
                    }
                    held.push(v);
                }
                panic!("the caller's code panics")
            });
            debug_assert!(matches!(r, Err::<(), _>(_)));
            if got > 0 {
                c.count("panic while views are held");
            }
        }
        3 | 4 => {
            let Some(shape) = pick_shape(&c.m, p, next(x) as u16, false) else { return Ok(()) };
            let steps = [[Step::Fold], [Step::DrainNext], [Step::DrainId], [Step::HoldId], [Step::Take(1000)]][next(x) % 5];
            let at = next(x) % 4;
            c.note(&format!("panic in the caller's code at result {at} of query {} {steps:?}", shapes::all()[shape].name));
            let writes = steps == [Step::DrainId] && next(x) % 2 == 0;
            let s = &shapes::all()[shape];
            let base = c.m.vals(64);
            let mut wrote: Vec<(usize, usize, i64)> = vec![];
            let mut n = 0;
            let r = {
                let mut wr = |id: Option<usize>, leaf: usize, _: i64| {
                    n += 1;
                    wrote.push((id.unwrap(), leaf, base + n));
                    Some(base + n)
                };
                set_bomb(at);
                let w = &c.s.w;
                let mut req = Req { steps: &steps, cap: 100_000, writer: if writes { Some(&mut wr) } else { None } };
                guarded(|| (s.run)(w, &mut req))
            };
            let unexploded = set_bomb(usize::MAX) != usize::MAX;
            match r {
                Err(e) if unexploded => return Err(format!("query {} panics: {e}", s.name)),
                Err(_) => c.count("panic while iterating"),
                Ok(_) => {}
            }
            for (id, leaf, v) in wrote {
                let Some(&h) = c.by_id.get(&id) else { return Err(format!("query {} yields entity {id}, which does not exist", s.name)) };
                c.m.ents[h].comps[s.leaves[leaf].0] = Some(v);
            }
        }
        5 => {
            let n = 1;
            let cols = cols(x, &mut c.m, n);
            c.note(&format!("panic while building an entity with {cols:?}"));
            let w = &c.s.w;
            let _ = guarded(|| {
                let mut e = w.create_entity();
                for &(t, v) in &cols {
                    e = with_type!(t, T => e.attach(T::mk(v)));
                }
                panic!("the caller's code panics");
            });
            c.adopt_batch(n, &cols)?;
            c.count("panic while building");
        }
        6 => {
            let n = next(x) % 5;
            let cols = cols(x, &mut c.m, n);
            let bomb = if next(x) % 3 != 0 { reg.get(next(x) % NT).copied() } else { None };
            c.note(&format!("panic while building {n} entities with {cols:?}, conversion to type {bomb:?}"));
            let w = &c.s.w;
            let r = guarded(|| {
                let mut e = w.create_entities(n);
                for &(t, v) in &cols {
                    e = with_type!(t, T => e.attach::<T, _>((0..n as i64).map(|i| T::mk(v + i)).collect::<Vec<T>>()));
                }
                if let Some(t) = bomb {
                    e = with_type!(t, T => e.attach::<T, Bomb>(Bomb));
                }
                let _held = e;
                panic!("the caller's code panics");
            });
            debug_assert!(matches!(r, Err::<(), _>(_)));
            c.adopt_batch(n, &cols)?;
            c.count("panic while building");
        }
        _ => {
            let Some(h) = live(x, &c.m) else { return Ok(()) };
            let Some(&t) = reg.get(next(x) % NT) else { return Ok(()) };
            let what = next(x) % 4;
            let v = c.m.val();
            c.note(&format!("panic while using the handle of e{h} ({what}) with {}={v}", NAMES[t]));
            let (w, ids) = (&c.s.w, &c.s.ids);
            let _ = guarded(|| {
                let e = w.entity(ids[h]).expect("handle of an existing entity");
                let _two = w.entity(ids[h]);
                with_type!(t, T => match what {
                    0 => { let _e = e.attach(T::mk(v)); panic!("the caller's code panics") }
                    1 => { let _x = e.detach::<T>(); panic!("the caller's code panics") }
                    2 => { let mut g = e.component_write::<T>(); if let Some(g) = g.as_mut() { g.set(v) } panic!("the caller's code panics") }
                    _ => { let _g = e.component_read::<T>(); panic!("the caller's code panics") }
                })
            });
            let comp = &mut c.m.ents[h].comps[t];
            match what {
                0 => *comp = Some(v),
                1 => *comp = None,
                2 if comp.is_some() => *comp = Some(v),
                _ => {}
            }
            c.count("panic while using a handle");
        }
    }
    // nothing is left held
    let (w, reg) = (&c.s.w, c.m.reg);
    guarded(|| {
        for t in 0..NT {
            if reg[t] {
                with_type!(t, T => drop(w.components_write::<T>()));
            }
        }
        for r in 0..NR {
            with_res!(r, R => drop(w.resource_write::<R>()));
        }
    })
    .map_err(|e| format!("afterwards exclusive access {e}"))?;
    c.obs_components()?;
    for r in 0..NR {
        c.step(&Cmd::ResRead { r })?;
    }
    c.obs_exist()?;
    c.obs_groups()?;
    c.obs_packed()?;
    let h = c.m.ents.len();
    c.step(&Cmd::Create { h, cols: vec![], via: 0, mid: vec![] })?;
    c.step(&Cmd::Remove { h, via: 0 })?;
    match types::errors().first() {
        Some(e) => Err(e.clone()),
        None => Ok(()),
    }
}
fn c26(case: &Case, p: &Profile, keep: bool) -> Res {
    let mut x = (case.cfg[4] as u64) << 16 ^ case.cfg[5] as u64 ^ 0x5555_1234;
    let mut faults = 0;
    let c = crate::props::history(
        case,
        p,
        keep,
        &mut |c, cmd, _| {
            if let Cmd::Observe = cmd {
                faults += 1;
                next(&mut x);
                fault(c, p, x ^ c.hash).map_err(|e| format!("after the last panic of the caller's code: {e}"))?;
            }
            Ok(())
        },
        &mut |c| {
            c.obs_components()?;
            c.obs_exist()?;
            c.obs_groups()
        },
    )?;
    let nt = faults >= 2 && c.m.live.len() >= 2;
    Ok(crate::props::report(c, nt))
}

// ------------------------------------------------------------------ C27

fn c27(case: &Case, p: &Profile, keep: bool) -> Res {
    let (mut m, mask, fill) = start(case, p)?;
    let mut d = Diff::new(keep);
    let one = new_sut(mask, fill)?;
    let workers = 2 + case.cfg[5] as usize % 2;
    let mut x = (case.cfg[4] as u64) << 16 ^ case.cfg[5] as u64 ^ 0x7777_1234;
    type Job = (Sut, Cmd);
    type Done = (Sut, Out, Option<Vec<Option<i64>>>);
    let mut moves = 0;
    let mut last = 0;
    let r = std::thread::scope(|sc| -> Result<(), String> {
        let mut tx = vec![];
        let mut rx = vec![];
        for _ in 0..workers {
            let (a, b) = std::sync::mpsc::channel::<Job>();
            let (c, e) = std::sync::mpsc::channel::<Done>();
            tx.push(a);
            rx.push(e);
            sc.spawn(move || {
                for (mut s, cmd) in b {
                    let o = s.exec(&cmd);
                    let mids = take_mids();
                    if c.send((s, o, mids)).is_err() {
                        break;
                    }
                }
            });
        }
        let mut one = std::mem::ManuallyDrop::new(one);
        let mut two = Some(std::mem::ManuallyDrop::new(guarded(|| Sut::new(mask, fill))?));
        let mut pending = initial_groups(&case.cfg, p, &m);
        let mut ops = case.ops.iter();
        loop {
            let cmds = if !pending.is_empty() {
                std::mem::take(&mut pending)
            } else if let Some(op) = ops.next() {
                x ^= (op.3 as u64) << 32;
                decode(op, &mut m, p, &one.ids)
            } else {
                break;
            };
            let n = cmds.len();
            for (i, mut c) in cmds.into_iter().enumerate() {
                settle(&mut c);
                if let Cmd::Bad(Bad::BatchUnreg { .. } | Bad::BatchLen { .. }) = c {
                    continue; // leaves entities whose ids are not told
                }
                let a = one.exec(&c);
                let ma = take_mids();
                let t = if n > 40 && i > 20 { last } else { next(&mut x) % (workers + 1) };
                moves += (t != last) as usize;
                last = t;
                d.note(format!("on thread {t}: {}", show(&c)));
                let s = std::mem::ManuallyDrop::into_inner(two.take().unwrap());
                let (s, b, mb) = if t == 0 {
                    let mut s = Box::new(s);
                    let b = s.exec(&c);
                    (*s, b, take_mids())
                } else {
                    tx[t - 1].send((s, c.clone())).map_err(|_| "harness: worker gone".to_string())?;
                    rx[t - 1].recv().map_err(|_| format!("{}: the thread dies", show(&c)))?
                };
                two = Some(std::mem::ManuallyDrop::new(s));
                let (ka, kb) = (ordered(&c, &a), ordered(&c, &b));
                same(&ka, &kb, &show(&c), "on one thread it", "with calls made by different threads in turn it")?;
                if matches!(c, Cmd::Bad(_)) {
                    if !matches!(a, Out::Panic(_) | Out::Flag(_)) {
                        return Ok(());
                    }
                    continue;
                }
                if let Out::Panic(e) = &a {
                    d.note(format!("both panic: {e}"));
                    return Ok(());
                }
                if ma != mb || one.ids != two.as_ref().unwrap().ids {
                    return Err(format!("{}: ids or results in between differ: {ma:?} and {mb:?}", show(&c)));
                }
                m.apply(&if ma.is_some() { c.clone() } else { without_mids(&c) });
            }
        }
        let mid = max_id(&one);
        let (a, b) = (group_sets(snapshot(&one.w, mid, &m.groups)?), group_sets(snapshot(&two.as_ref().unwrap().w, mid, &m.groups)?));
        if a != b {
            return Err(format!("in the end, on one thread (first) and on several (second): {}", crate::props::diff(&a, &b)));
        }
        let one = std::mem::ManuallyDrop::into_inner(one);
        let two = std::mem::ManuallyDrop::into_inner(two.unwrap());
        drop(one);
        sc.spawn(move || drop(two)).join().map_err(|_| "dropping the world on another thread panics".to_string())
    });
    if let Err(msg) = r {
        return Err(d.fail(msg));
    }
    Ok(d.report(moves >= 4 && m.live.len() >= 2))
}

pub fn all() -> Vec<Prop> {
    let p = |id, profile: fn() -> Profile, run: fn(&Case, &Profile, bool) -> Res, quick, thorough, rule| Prop { id, profile, run, quick, thorough, rule, threads: None, thread_profile: None };
    vec![
        p("C23", c23_profile, c23, 100_000, 4_000_000, "a generated history executed as it is and with calls that only look inserted before its steps, results, orders and final state compared; non-trivial when at least five such calls and three changing steps ran"),
        p("C24", c24_profile, c24, 100_000, 4_000_000, "a generated history executed with all types registered at the start and with types registered late, in another order and among unused ones; non-trivial when at least three changing steps ran and a type was registered while entities existed or unused types were registered"),
        p("C26", c26_profile, c26, 100_000, 4_000_000, "a generated history in which the caller's code panics while holding views, handles, queries or builders, everything compared after each such panic; non-trivial when at least two panics happened and two entities live at the end"),
        p("C27", c23_profile, c27, 30_000, 1_200_000, "a generated history executed on one thread and with its calls made by different threads in turn, the world moving along; non-trivial when the thread changed at least four times and two entities live at the end"),
        p("C25", c25_profile, c25, 16_000, 640_000, "a generated round of calls that returns the world to the population it started with, repeated 1000 times, ids and allocated bytes compared between rounds; non-trivial when the round creates at least two entities"),
    ]
}
