//! Checks of what happens between views held at the same time (C14) and between calls made
//! by several threads (C15).
use crate::engine::*;
use crate::locks::{self, sched::Sched};
use crate::props::{history, leak, Fail, Prop, Report, Res};
use crate::row::{Ev, Req, Step};
use crate::shapes::{self, Node, Shape, GROUP_PAIRS};
use crate::types::*;
use crate::{with_res, with_type};
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;
use xecs::{Entities, Entity, EntityId, World};

// ------------------------------------------------------------------ C14

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Key {
    Comp(usize),
    Res(usize),
}
#[derive(Clone, Debug)]
pub enum Form {
    Store { ty: usize, excl: bool, h: Option<H> },
    Comp { ty: usize, excl: bool, h: H },
    Query { shape: usize },
    Res { r: usize, excl: bool },
}
struct View<'w> {
    form: Form,
    locks: Vec<(Key, bool)>,
    /// optionally writes, then reads
    look: Box<dyn FnMut(Option<i64>) -> Option<i64> + 'w>,
}
pub fn show_form(f: &Form) -> String {
    match f {
        Form::Store { ty, excl, .. } => format!("{} storage view of {}", if *excl { "exclusive" } else { "shared" }, NAMES[*ty]),
        Form::Comp { ty, excl, h } => format!("{} guard of {} of e{h}", if *excl { "exclusive" } else { "shared" }, NAMES[*ty]),
        Form::Query { shape } => format!("query {}", shapes::all()[*shape].name),
        Form::Res { r, excl } => format!("{} guard of resource {r}", if *excl { "exclusive" } else { "shared" }),
    }
}
pub fn form_locks(f: &Form) -> Vec<(Key, bool)> {
    match f {
        Form::Store { ty, excl, .. } | Form::Comp { ty, excl, .. } => vec![(Key::Comp(*ty), *excl)],
        Form::Query { shape } => shapes::all()[*shape].locks.iter().map(|&(t, m)| (Key::Comp(t), m)).collect(),
        Form::Res { r, excl } => vec![(Key::Res(*r), *excl)],
    }
}
/// Why the view cannot be had while these are held (or at all): the key in conflict.
fn conflict(want: &[(Key, bool)], held: &[View]) -> Option<Key> {
    for (i, &(k, x)) in want.iter().enumerate() {
        let clash = |l: &&(Key, bool)| l.0 == k && (l.1 || x);
        if want[..i].iter().any(|l| clash(&l)) || held.iter().any(|v| v.locks.iter().any(|l| clash(&l))) {
            return Some(k);
        }
    }
    None
}
pub type Look<'w> = Box<dyn FnMut(Option<i64>) -> Option<i64> + 'w>;
fn lk<'w>(f: impl FnMut(Option<i64>) -> Option<i64> + 'w) -> Look<'w> {
    Box::new(f)
}
fn bx<'w>(f: impl Fn() + 'w) -> Box<dyn Fn() + 'w> {
    Box::new(f)
}
/// None: there is nothing to view (and nothing stays held).
pub fn acquire<'w>(w: &'w World, ids: &[EntityId], f: &Form) -> Option<Look<'w>> {
    match *f {
        Form::Store { ty, excl, h } => {
            let id = h.map(|h| ids[h]).unwrap_or(nz(usize::MAX));
            with_type!(ty, T => if excl {
                let mut g = w.components_write::<T>()?;
                Some(lk(move |v| {
                    if let (Some(v), Some(x)) = (v, g.get_mut(id)) { x.set(v) }
                    g.get(id).map(|x| x.get())
                }))
            } else {
                let g = w.components_read::<T>()?;
                Some(lk(move |_| g.get(id).map(|x| x.get())))
            })
        }
        Form::Comp { ty, excl, h } => {
            let id = ids[h];
            with_type!(ty, T => if excl {
                let mut g = w.entity_component_write::<T>(id)?;
                Some(lk(move |v| {
                    if let Some(v) = v { g.set(v) }
                    Some(g.get())
                }))
            } else {
                let g = w.entity_component_read::<T>(id)?;
                Some(lk(move |_| Some(g.get())))
            })
        }
        Form::Query { shape } => {
            let mut q = (shapes::all()[shape].hold)(w);
            Some(lk(move |_| {
                q.step();
                None
            }))
        }
        Form::Res { r, excl } => with_res!(r, R => if excl {
            let mut g = w.resource_write::<R>()?;
            Some(lk(move |v| {
                if let Some(v) = v { g.set(v) }
                Some(g.get())
            }))
        } else {
            let g = w.resource_read::<R>()?;
            Some(lk(move |_| Some(g.get())))
        }),
    }
}
mod hk {
    pub const STORE: u8 = 0;
    pub const COMP: u8 = 1;
    pub const QUERY: u8 = 2;
    pub const RES: u8 = 3;
    pub const DROP: u8 = 4;
    pub const LOOK: u8 = 5;
    pub const STRUCT: u8 = 6;
}
fn c14_profile() -> Profile {
    Profile {
        weights: &[(k::CREATE, 10), (k::BATCH, 2), (k::GROUP, 5), (k::RES, 4), (k::ATTACH, 3), (k::DETACH, 1), (k::REMOVE, 1)],
        max_ops: 20,
        shapes: leak((0..shapes::all().len()).collect()),
        big: 30,
        groups: 3,
        all_reg: false,
        fill: 3000,
        extra: &[],
    }
}
fn c14_threads() -> Profile {
    Profile {
        weights: &[(hk::STORE, 6), (hk::COMP, 5), (hk::QUERY, 10), (hk::RES, 3), (hk::DROP, 7), (hk::LOOK, 4), (hk::STRUCT, 1)],
        max_ops: 0,
        shapes: &[],
        big: 0,
        groups: 0,
        all_reg: true,
        fill: 0,
        extra: &[],
    }
}
fn live(m: &Model, x: u16) -> Option<H> {
    (!m.live.is_empty()).then(|| m.live[x as usize % m.live.len()])
}
fn with_comp(m: &Model, ty: usize, x: u16) -> Option<H> {
    let n = m.live.len();
    (0..n).map(|i| m.live[(x as usize + i) % n]).find(|&h| m.ents[h].comps[ty].is_some())
}
fn reg_type(m: &Model, x: u16) -> Option<usize> {
    (0..NT).map(|i| (x as usize + i) % NT).find(|&t| m.reg[t])
}

fn c14_hold(c: &mut Ctx, p: &Profile, ops: &[RawOp]) -> Result<bool, String> {
    let mut notes: Vec<String> = vec![];
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (w, ids, m) = (&c.s.w, &c.s.ids, &mut c.m);
    let (mut granted_beside, mut refused) = (0u64, 0u64);
    let mut structural = false;
    let r = (|| -> Result<(), String> {
        let mut held: Vec<View> = vec![];
        // what a view shows must be what the model says
        fn look(v: &mut View, m: &mut Model, write: Option<i64>) -> Result<(), String> {
            let got = (v.look)(write);
            let (want, set) = match v.form {
                Form::Store { ty, excl, h } => match h {
                    Some(h) => {
                        if let (true, Some(x), true) = (excl, write, m.ents[h].comps[ty].is_some()) {
                            m.ents[h].comps[ty] = Some(x)
                        }
                        (m.get(h, ty), true)
                    }
                    None => (None, true),
                },
                Form::Comp { ty, excl, h } => {
                    if let (true, Some(x)) = (excl, write) {
                        m.ents[h].comps[ty] = Some(x)
                    }
                    (m.get(h, ty), true)
                }
                Form::Res { r, excl } => {
                    if let (true, Some(x)) = (excl, write) {
                        m.res[r] = Some(x)
                    }
                    (m.res[r].map(|x| rnorm(r, x)), true)
                }
                Form::Query { .. } => (None, false),
            };
            if set && got != want {
                return Err(format!("the held {} shows {got:?}, expected {want:?}", show_form(&v.form)));
            }
            Ok(())
        }
        for op in ops {
            let RawOp(kind, a, b, cc, d) = *op;
            match kind {
                hk::DROP => {
                    if !held.is_empty() {
                        let i = a as usize % held.len();
                        let mut v = held.remove(i);
                        look(&mut v, m, None)?;
                        notes.push(format!("release the {}", show_form(&v.form)));
                    }
                }
                hk::LOOK => {
                    if !held.is_empty() {
                        let i = a as usize % held.len();
                        let x = m.val();
                        look(&mut held[i], m, (b % 2 == 0).then_some(x))?;
                    }
                }
                hk::STRUCT => {
                    if structural {
                        continue;
                    }
                    // prefer something that must be held off
                    let hot: Vec<usize> = held.iter().flat_map(|v| v.locks.iter()).filter_map(|l| if let Key::Comp(t) = l.0 { Some(t) } else { None }).collect();
                    let ty = if !hot.is_empty() && d % 4 != 0 { hot[b as usize % hot.len()] } else { match reg_type(m, b) { Some(t) => t, None => continue } };
                    let is_held = |t: usize| held.iter().any(|v| v.locks.iter().any(|l| l.0 == Key::Comp(t)));
                    let (name, must, run): (String, bool, Box<dyn Fn()>) = match a % 5 {
                        0 | 1 => {
                            let Some(h) = live(m, cc) else { continue };
                            let (id, x, by_handle) = (ids[h], m.val(), a / 5 % 2 == 0);
                            (format!("attach {} to e{h}", NAMES[ty]), is_held(ty), with_type!(ty, T => bx(move || {
                                if by_handle { w.entity(id).unwrap().attach(T::mk(x)); } else { w.attach_component(id, T::mk(x)); }
                            })))
                        }
                        2 => {
                            let n = cc as usize % 3 + 1;
                            let x = m.vals(n);
                            (format!("attach {} to a batch of {n}", NAMES[ty]), is_held(ty), with_type!(ty, T => bx(move || {
                                w.create_entities(n).attach::<T, _>((0..n as i64).map(|i| T::mk(x + i)).collect::<Vec<T>>());
                            })))
                        }
                        3 => {
                            let Some(h) = with_comp(m, ty, cc) else { continue };
                            let (id, by_handle) = (ids[h], a / 5 % 2 == 0);
                            (format!("detach {} from e{h}", NAMES[ty]), is_held(ty), with_type!(ty, T => bx(move || {
                                if by_handle { w.entity(id).unwrap().detach::<T>(); } else { w.detach_component::<T>(id); }
                            })))
                        }
                        _ => {
                            let Some(h) = with_comp(m, ty, cc) else { continue };
                            let (id, by_handle) = (ids[h], a / 5 % 2 == 0);
                            let must = (0..NT).any(|t| m.ents[h].comps[t].is_some() && is_held(t));
                            (format!("remove e{h}"), must, bx(move || {
                                if by_handle { w.entity(id).unwrap().manaully_drop() } else { w.remove_entity(id) }
                            }))
                        }
                    };
                    structural = true;
                    let out = guarded(|| run());
                    let blocked = matches!(&out, Err(e) if e.starts_with("waits for a lock"));
                    notes.push(format!("try: {name} -> {}", if blocked { "held off" } else { "done" }));
                    match out {
                        Err(e) if !blocked => return Err(format!("{name} panics: {e}")),
                        Ok(()) if must => return Err(format!("{name} is not held off, although a component type it changes is in view")),
                        _ => {}
                    }
                    if must {
                        *counts.entry("structural change held off").or_default() += 1;
                        // the storages in view are as before
                        for &t in &hot {
                            let shared = !held.iter().any(|v| v.locks.iter().any(|l| *l == (Key::Comp(t), true)));
                            if shared {
                                let got = guarded(|| with_type!(t, T => {
                                    let g = w.components_read::<T>().unwrap();
                                    let vals: Vec<Option<i64>> = ids.iter().map(|id| g.get(*id).map(|x| x.get())).collect();
                                    (g.count(), vals)
                                }))
                                .map_err(|e| format!("a shared view of {} beside shared views: {e}", NAMES[t]))?;
                                let by: BTreeMap<EntityId, H> = m.live.iter().map(|&h| (ids[h], h)).collect();
                                let want: Vec<Option<i64>> = ids.iter().map(|id| by.get(id).and_then(|&h| m.get(h, t))).collect();
                                if got != (m.count(t), want) {
                                    return Err(format!("{name} changed the storage of {} although it is in view", NAMES[t]));
                                }
                            }
                        }
                        for v in held.iter_mut() {
                            if !matches!(v.form, Form::Query { .. }) {
                                look(v, m, None)?;
                            }
                        }
                    }
                    // the interrupted call may have left other types half changed
                    break;
                }
                _ => {
                    let f = match kind {
                        hk::STORE => {
                            let Some(ty) = reg_type(m, a) else { continue };
                            let h = if b % 4 == 0 { live(m, cc) } else { with_comp(m, ty, cc).or(live(m, cc)) };
                            Form::Store { ty, excl: d % 3 == 0, h }
                        }
                        hk::COMP => {
                            let Some(ty) = reg_type(m, a) else { continue };
                            let h = if b % 4 == 0 { live(m, cc) } else { with_comp(m, ty, cc).or(live(m, cc)) };
                            let Some(h) = h else { continue };
                            Form::Comp { ty, excl: d % 3 == 0, h }
                        }
                        hk::QUERY => {
                            let Some(shape) = pick_shape(m, p, a, false) else { continue };
                            Form::Query { shape }
                        }
                        _ => {
                            let r = a as usize % NR;
                            if m.res[r].is_none() {
                                continue;
                            }
                            Form::Res { r, excl: d % 3 == 0 }
                        }
                    };
                    let locks = form_locks(&f);
                    let why = conflict(&locks, &held);
                    let name = show_form(&f);
                    let got = guarded(|| acquire(w, ids, &f));
                    let blocked = matches!(&got, Err(e) if e.starts_with("waits for a lock"));
                    match (got, why) {
                        (Err(e), _) if !blocked => return Err(format!("{name} panics: {e}")),
                        (Err(_), None) => {
                            let others: Vec<String> = held.iter().map(|v| show_form(&v.form)).collect();
                            return Err(format!("{name} is held off, although only these are held: {}", others.join("; ")));
                        }
                        (Err(_), Some(_)) => {
                            notes.push(format!("{name} -> held off"));
                            refused += 1;
                        }
                        (Ok(_), Some(k)) => return Err(format!("{name} is granted, although {k:?} is in conflicting view")),
                        (Ok(None), None) => {
                            if let Form::Comp { ty, h, .. } = f {
                                if m.get(h, ty).is_none() {
                                    continue;
                                }
                            }
                            return Err(format!("{name}: nothing there"));
                        }
                        (Ok(Some(l)), None) => {
                            if let Form::Comp { ty, h, .. } = f {
                                if m.get(h, ty).is_none() {
                                    return Err(format!("{name}: granted for a missing component"));
                                }
                            }
                            notes.push(format!("{name} -> held"));
                            if !held.is_empty() {
                                granted_beside += 1;
                            }
                            let mut v = View { form: f, locks, look: l };
                            look(&mut v, m, None)?;
                            held.push(v);
                        }
                    }
                }
            }
        }
        // release in some order, then everything at once exclusively
        let n = held.len();
        *counts.entry(["no view left at the end", "one view left at the end", "several views left at the end"][n.min(2)]).or_default() += 1;
        let mut i = ops.first().map(|o| o.1 as usize).unwrap_or(0);
        while !held.is_empty() {
            i = i.wrapping_mul(31).wrapping_add(7);
            let v = held.remove(i % held.len());
            notes.push(format!("release the {}", show_form(&v.form)));
            drop(v);
        }
        let mut guards: Vec<Look> = vec![];
        for ty in 0..NT {
            if m.reg[ty] {
                let f = Form::Store { ty, excl: true, h: None };
                guards.push(guarded(|| acquire(w, ids, &f)).map_err(|e| format!("after every view is released, exclusive view of {}: {e}", NAMES[ty]))?.ok_or("no view of a registered type")?);
            }
        }
        for r in 0..NR {
            if m.res[r].is_some() {
                let f = Form::Res { r, excl: true };
                guards.push(guarded(|| acquire(w, ids, &f)).map_err(|e| format!("after every view is released, exclusive view of resource {r}: {e}"))?.ok_or("no view of a resource")?);
            }
        }
        drop(guards);
        for &(kk, a, b) in &m.groups {
            if let Some(s) = shapes::group_shape(kk, a, b, true, true) {
                guarded(|| drop((shapes::all()[s].hold)(w))).map_err(|e| format!("after every view is released, {}: {e}", shapes::all()[s].name))?;
            }
        }
        if !structural {
            guarded(|| {
                let id = w.create_entity().into_id();
                w.remove_entity(id);
            })
            .map_err(|e| format!("after every view is released, creating and removing an entity: {e}"))?;
        }
        Ok(())
    })();
    for n in notes {
        c.note(&n);
    }
    for (k, n) in counts {
        *c.counts.entry(k).or_default() += n;
    }
    *c.counts.entry("views granted beside others").or_default() += granted_beside;
    *c.counts.entry("accesses held off").or_default() += refused;
    r?;
    if !structural {
        c.obs_components()?;
    }
    Ok(granted_beside > 0 && refused > 0)
}
fn c14(case: &Case, p: &Profile, keep: bool) -> Res {
    let mut nt = false;
    let ops = case.threads.first().cloned().unwrap_or_default();
    let c = history(case, p, keep, &mut |_, _, _| Ok(()), &mut |c| {
        nt = c14_hold(c, p, &ops)?;
        Ok(())
    })?;
    Ok(Report { nontrivial: nt, hash: c.hash, counts: c.counts, trace: c.trace })
}

// ------------------------------------------------------------------ C15

mod tk {
    pub const CREATE: u8 = 0;
    pub const BATCH: u8 = 1;
    pub const ATTACH: u8 = 2;
    pub const DETACH: u8 = 3;
    pub const REMOVE: u8 = 4;
    pub const WRITE: u8 = 5;
    pub const READ: u8 = 6;
    pub const EXIST: u8 = 7;
    pub const QUERY: u8 = 8;
    pub const QWRITE: u8 = 9;
    pub const RES: u8 = 10;
    /// take a handle and keep it
    pub const OPEN: u8 = 11;
    pub const CLOSE: u8 = 12;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Tgt {
    Setup(H),
    /// the i-th last entity this thread created, or the setup entity if there is none
    Own(usize, H),
    /// the i-th id after the setup's: perhaps of an entity another thread is just creating
    Next(usize),
}
#[derive(Clone, Debug)]
enum TOp {
    Create { cols: Vec<(usize, i64)> },
    Batch { n: usize, cols: Vec<(usize, i64)> },
    Attach { t: Tgt, ty: usize, v: i64, via: u8 },
    Detach { t: Tgt, ty: usize, via: u8 },
    Remove { t: Tgt, via: u8 },
    Write { t: Tgt, ty: usize, v: i64, path: u8 },
    Read { t: Tgt, ty: usize, path: u8 },
    Exist { t: Tgt, via: u8 },
    Query { shape: usize },
    QWrite { shape: usize, base: i64 },
    ResRead { r: usize },
    ResWrite { r: usize, v: i64 },
    Open { t: Tgt },
    Close { how: u8 },
}
#[derive(Clone, Debug, PartialEq)]
enum TOut {
    Unit,
    Id(usize),
    Range(usize, usize),
    Val(Option<i64>),
    Flag(bool),
    /// rows and writes (id, leaf, value)
    Rows(BTreeMap<usize, Vec<i64>>, Vec<(usize, usize, i64)>),
    Panic(String),
    /// never came back
    Cut,
}
#[derive(Clone, Debug)]
struct Rec {
    op: TOp,
    id: usize,
    /// the entity whose handle the thread held when the call began, and still held when it ended
    holds: usize,
    out: TOut,
    begin: u64,
    end: u64,
}

/// Types a shape locks, in the order in which its parts are written.
fn textual(s: &Shape) -> Vec<usize> {
    s.name
        .split('&')
        .skip(1)
        .filter_map(|x| {
            let x = x.trim_start();
            let x = x.strip_prefix("mut").unwrap_or(x).trim_start();
            NAMES.iter().position(|n| x.starts_with(n))
        })
        .collect()
}
fn ordered_shapes() -> &'static [usize] {
    static V: std::sync::OnceLock<&'static [usize]> = std::sync::OnceLock::new();
    *V.get_or_init(|| {
        leak(
            shapes::all()
                .iter()
                .enumerate()
                .filter(|(_, s)| {
                    let t = textual(s);
                    assert_eq!(t.len(), s.locks.len());
                    t.windows(2).all(|p| p[0] < p[1]) && (s.groups.is_empty() || matches!(s.node, Node::Group { .. }))
                })
                .map(|(i, _)| i)
                .collect(),
        )
    })
}
fn c15_profile() -> Profile {
    Profile {
        weights: &[(k::CREATE, 12), (k::BATCH, 1), (k::GROUP, 6), (k::ATTACH, 2), (k::DETACH, 1), (k::REMOVE, 2)],
        max_ops: 9,
        shapes: ordered_shapes(),
        big: 4,
        groups: 0,
        all_reg: true,
        fill: 0,
        extra: &[],
    }
}
fn c15_threads() -> Profile {
    Profile {
        weights: &[
            (tk::CREATE, 6), (tk::BATCH, 3), (tk::ATTACH, 9), (tk::DETACH, 7), (tk::REMOVE, 8), (tk::WRITE, 3), (tk::READ, 3), (tk::EXIST, 1),
            (tk::QUERY, 7), (tk::QWRITE, 3), (tk::RES, 2),
        ],
        max_ops: 0,
        shapes: &[],
        big: 0,
        groups: 0,
        all_reg: true,
        fill: 0,
        extra: &[],
    }
}
/// The component types that concurrent calls concentrate on.
fn hot_types(case: &Case) -> Vec<usize> {
    let n = 2 + case.cfg[4] as usize % 2;
    let up: Vec<(usize, usize)> = GROUP_PAIRS.iter().copied().filter(|p| p.0 < p.1).collect();
    let (a, b) = up[case.cfg[4] as usize / 2 % up.len()];
    let mut v = vec![a, b, (case.cfg[4] / 64) as usize % NT];
    v.truncate(n);
    v
}
fn decode_thread(op: &RawOp, m: &mut Model, p: &Profile, hot: &[usize]) -> Option<TOp> {
    let RawOp(kind, a, b, c, d) = *op;
    let ty = |x: u16| if x % 8 == 7 { (x / 8) as usize % NT } else { hot[(x / 8) as usize % hot.len()] };
    let tgt = |m: &Model| -> Option<Tgt> {
        // few entities, so that threads meet
        let n = m.live.len().min(3);
        let s = (n > 0).then(|| m.live[m.live.len() - 1 - (a / 8) as usize % n]);
        if a % 8 == 2 && matches!(kind, tk::REMOVE | tk::EXIST | tk::READ | tk::OPEN) {
            return Some(Tgt::Next((a / 8) as usize % 3));
        }
        match (a % 8, s) {
            (0 | 1, _) => Some(Tgt::Own((a / 8) as usize % 3, s.unwrap_or(usize::MAX))),
            (_, Some(h)) => Some(Tgt::Setup(h)),
            (_, None) => Some(Tgt::Own((a / 8) as usize % 3, usize::MAX)),
        }
    };
    let cols = |m: &mut Model, x: u16, n: usize| -> Vec<(usize, i64)> {
        let mut ts: Vec<usize> = (0..(x % 3) as usize).map(|i| ty(x.rotate_left(3 + 4 * i as u32))).collect();
        ts.dedup();
        ts.into_iter().map(|t| (t, m.vals(n.max(1)))).collect()
    };
    Some(match kind {
        tk::CREATE => TOp::Create { cols: cols(m, b, 1) },
        tk::BATCH => {
            let n = c as usize % 4;
            TOp::Batch { n, cols: cols(m, b, n) }
        }
        tk::ATTACH => TOp::Attach { t: tgt(m)?, ty: ty(b), v: m.val(), via: (c % 2) as u8 },
        tk::DETACH => TOp::Detach { t: tgt(m)?, ty: ty(b), via: (c % 2) as u8 },
        tk::REMOVE => TOp::Remove { t: tgt(m)?, via: (c % 2) as u8 },
        tk::WRITE => TOp::Write { t: tgt(m)?, ty: ty(b), v: m.val(), path: (c % 4) as u8 },
        tk::READ => TOp::Read { t: tgt(m)?, ty: ty(b), path: (c % 4) as u8 },
        tk::EXIST => TOp::Exist { t: tgt(m)?, via: (c % 2) as u8 },
        tk::OPEN => TOp::Open { t: tgt(m)? },
        tk::CLOSE => TOp::Close { how: (c % 2) as u8 },
        tk::QUERY | tk::QWRITE => {
            // usually a query of one of the groups, or of the hot types
            let want_mut = kind == tk::QWRITE;
            let ok = |s: usize| {
                let s = &shapes::all()[s];
                m.answerable(s) && (!want_mut || s.leaves.iter().any(|l| l.1))
            };
            let cand: Vec<usize> = match b % 4 {
                0 | 1 => p.shapes.iter().copied().filter(|&s| ok(s) && !shapes::all()[s].groups.is_empty()).collect(),
                2 => p.shapes.iter().copied().filter(|&s| ok(s) && shapes::all()[s].locks.iter().all(|l| hot.contains(&l.0))).collect(),
                _ => p.shapes.iter().copied().filter(|&s| ok(s)).collect(),
            };
            let cand = if cand.is_empty() { p.shapes.iter().copied().filter(|&s| ok(s)).collect() } else { cand };
            let shape = *cand.get(c as usize % cand.len().max(1))?;
            if want_mut {
                TOp::QWrite { shape, base: m.vals(4096) }
            } else {
                TOp::Query { shape }
            }
        }
        _ => {
            let r = (b % NR as u16) as usize;
            if d % 2 == 0 {
                TOp::ResRead { r }
            } else {
                TOp::ResWrite { r, v: m.val() }
            }
        }
    })
}

fn run_op<'w>(w: &'w World, op: &TOp, own: &mut Vec<usize>, id: usize, hd: &mut Option<(Entity<'w>, usize)>) -> TOut {
    let rows = |evs: Vec<Ev>| -> TOut {
        let mut r = BTreeMap::new();
        let mut ws = vec![];
        for e in evs {
            match e {
                Ev::Row(Some(id), v) => {
                    if r.insert(id, v).is_some() {
                        return TOut::Panic(format!("entity {id} is yielded twice"));
                    }
                }
                Ev::Wrote(Some(id), leaf, _, new) => ws.push((id, leaf, new)),
                Ev::Overflow => return TOut::Panic("more results than entities".into()),
                _ => {}
            }
        }
        TOut::Rows(r, ws)
    };
    match op {
        TOp::Create { cols } => {
            let mut e = w.create_entity();
            for &(t, v) in cols {
                e = with_type!(t, T => e.attach(T::mk(v)));
            }
            let id = e.into_id().get();
            own.push(id);
            TOut::Id(id)
        }
        TOp::Batch { n, cols } => {
            let mut e = w.create_entities(*n);
            for &(t, v) in cols {
                e = with_type!(t, T => e.attach::<T, _>((0..*n as i64).map(|i| T::mk(v + i)).collect::<Vec<T>>()));
            }
            let r = e.into_ids();
            let (s, t) = (r.start.get(), r.end.get());
            if t >= s && t - s < 1000 {
                own.extend(s..t);
            }
            TOut::Range(s, t)
        }
        TOp::Attach { ty, v, via, .. } => {
            let id = nz(id);
            with_type!(*ty, T => match via {
                2 => {
                    let (e, i) = hd.take().unwrap();
                    *hd = Some((e.attach(T::mk(*v)), i))
                }
                0 => w.attach_component(id, T::mk(*v)),
                _ => { w.entity(id).expect("gone").attach(T::mk(*v)); }
            });
            TOut::Unit
        }
        TOp::Detach { ty, via, .. } => {
            let id = nz(id);
            TOut::Val(with_type!(*ty, T => match via {
                2 => hd.as_ref().unwrap().0.detach::<T>().map(|x| x.get()),
                0 => w.detach_component::<T>(id).map(|x| x.get()),
                _ => w.entity(id).expect("gone").detach::<T>().map(|x| x.get()),
            }))
        }
        TOp::Remove { via, .. } => {
            match via {
                2 => hd.take().unwrap().0.manaully_drop(),
                0 => w.remove_entity(nz(id)),
                _ => w.entity(nz(id)).expect("gone").manaully_drop(),
            }
            TOut::Unit
        }
        TOp::Write { ty, v, path, .. } => {
            let id = nz(id);
            TOut::Flag(with_type!(*ty, T => match path {
                4 => hd.as_ref().unwrap().0.component_write::<T>().map(|mut g| g.set(*v)).is_some(),
                0 => w.entity_component_write::<T>(id).map(|mut g| g.set(*v)).is_some(),
                1 => w.components_write::<T>().unwrap().get_mut(id).map(|x| x.set(*v)).is_some(),
                2 => w.query::<&mut T>().from_id(id).map(|x| x.set(*v)).is_some(),
                _ => {
                    let mut g = w.components_write::<T>().unwrap();
                    if g.exist(id) { g.get_mut(id).unwrap().set(*v); true } else { false }
                }
            }))
        }
        TOp::Read { ty, path, .. } => {
            let id = nz(id);
            TOut::Val(with_type!(*ty, T => match path {
                4 => hd.as_ref().unwrap().0.component_read::<T>().map(|g| g.get()),
                0 => w.entity_component_read::<T>(id).map(|g| g.get()),
                1 => w.components_read::<T>().unwrap().get(id).map(|x| x.get()),
                2 => w.query::<&T>().from_id(id).map(|x| x.get()),
                _ => w.entity_component_write::<T>(id).map(|g| g.get()),
            }))
        }
        TOp::Exist { via, .. } => TOut::Flag(match via {
            0 => w.exist(nz(id)),
            _ => w.entity(nz(id)).is_some(),
        }),
        TOp::Query { shape } => {
            let mut req = Req { steps: &[Step::DrainId], cap: 2000, writer: None };
            rows((shapes::all()[*shape].run)(w, &mut req))
        }
        TOp::QWrite { shape, base } => {
            let mut wr = |id: Option<usize>, leaf: usize, _: i64| Some(base + (id.unwrap_or(0) * 8 + leaf) as i64 % 4096);
            let mut req = Req { steps: &[Step::DrainId], cap: 2000, writer: Some(&mut wr) };
            rows((shapes::all()[*shape].run)(w, &mut req))
        }
        TOp::ResRead { r } => TOut::Val(with_res!(*r, R => w.resource_read::<R>().map(|g| g.get()))),
        TOp::ResWrite { r, v } => TOut::Flag(with_res!(*r, R => w.resource_write::<R>().map(|mut g| g.set(*v)).is_some())),
        TOp::Open { .. } => {
            *hd = w.entity(nz(id)).map(|e| (e, id));
            TOut::Flag(hd.is_some())
        }
        TOp::Close { how } => {
            let (e, i) = hd.take().unwrap();
            TOut::Id(if *how == 0 { e.into_id().get() } else { drop(e); i })
        }
    }
}
use xecs::query::QueryIterator;

// ---- explanation of the results by some order of the calls

#[derive(Clone, PartialEq, Eq, Hash)]
struct E1 {
    comps: [Option<i64>; NT],
    dead: bool,
    dying: bool,
    left: u16,
}
#[derive(Clone, PartialEq, Eq, Hash)]
struct S1 {
    pos: Vec<(u8, u8)>,
    ents: BTreeMap<usize, E1>,
    res: [Option<i64>; NR],
}
struct Explain<'a> {
    recs: &'a [Vec<Rec>],
    groups: &'a [(usize, usize, usize)],
    goal: &'a BTreeMap<usize, [Option<i64>; NT]>,
    goal_res: [Option<i64>; NR],
    seen: HashSet<S1>,
    model: Model,
    /// search budget
    left: usize,
    deepest: usize,
}
impl<'a> Explain<'a> {
    fn rows(&self, s: &S1, shape: &Shape) -> BTreeMap<usize, Vec<i64>> {
        let g = shape.groups.first().and_then(|g| self.groups.iter().position(|x| x == g));
        s.ents
            .iter()
            .filter(|(_, e)| g.map_or(true, |g| e.left >> g & 1 == 0))
            .filter_map(|(id, e)| self.model.matches(&shape.node, &Ent { alive: true, comps: e.comps }).map(|v| (*id, v)))
            .collect()
    }
    fn held(&self, s: &S1, id: usize) -> bool {
        (0..s.pos.len()).any(|t| match s.pos[t] {
            (i, _) if self.recs[t].get(i as usize).map_or(false, |r| r.holds == id) => true,
            (i, sub) if sub > 0 => match self.recs[t][i as usize].out {
                TOut::Id(x) => x == id,
                TOut::Range(a, b) => (a..b).contains(&id),
                _ => false,
            },
            _ => false,
        })
    }
    fn done(&self, s: &S1) -> bool {
        s.pos.iter().zip(self.recs).all(|(p, r)| p.0 as usize == r.len())
    }
    fn search(&mut self, s: S1) -> bool {
        if self.left == 0 {
            return true; // no verdict
        }
        self.left -= 1;
        if self.done(&s) {
            let same = s.ents.len() == self.goal.len() && s.ents.iter().zip(self.goal).all(|((a, e), (b, c))| a == b && (0..NT).all(|t| e.comps[t].map(|v| norm(t, v)) == c[t]));
            return same && (0..NR).all(|r| s.res[r].map(|v| rnorm(r, v)) == self.goal_res[r]);
        }
        if !self.seen.insert(s.clone()) {
            return false;
        }
        // try the call that returned first, first
        let mut order: Vec<usize> = (0..s.pos.len()).filter(|&t| (s.pos[t].0 as usize) < self.recs[t].len()).collect();
        order.sort_by_key(|&t| self.recs[t][s.pos[t].0 as usize].end);
        for &t in &order {
            // a call that returned before this one began comes first
            let r = &self.recs[t][s.pos[t].0 as usize];
            if s.pos[t].1 == 0 && order.iter().any(|&u| u != t && self.recs[u][s.pos[u].0 as usize].end < r.begin) {
                continue;
            }
            for n in self.next(&s, t) {
                self.deepest = self.deepest.max(n.pos.iter().map(|p| p.0 as usize).sum());
                if self.search(n) {
                    return true;
                }
            }
        }
        false
    }
    /// States after one more step of thread `t`.
    fn next(&self, s: &S1, t: usize) -> Vec<S1> {
        let (i, sub) = s.pos[t];
        let rec = &self.recs[t][i as usize];
        let mut n = s.clone();
        let fin = |n: &mut S1| n.pos[t] = (i + 1, 0);
        let usable = |id: usize| s.ents.get(&id).map_or(false, |e| !e.dead);
        let fresh = E1 { comps: [None; NT], dead: false, dying: false, left: 0 };
        match (&rec.op, &rec.out) {
            (TOp::Attach { .. } | TOp::Detach { .. } | TOp::Remove { .. }, TOut::Panic(_)) => {
                if usable(rec.id) {
                    return vec![];
                }
                fin(&mut n);
                vec![n]
            }
            (TOp::Create { cols }, TOut::Id(id)) => {
                if sub == 0 {
                    if s.ents.contains_key(id) {
                        return vec![];
                    }
                    n.ents.insert(*id, fresh);
                } else {
                    if !usable(*id) {
                        return vec![];
                    }
                    let (ty, v) = cols[sub as usize - 1];
                    n.ents.get_mut(id).unwrap().comps[ty] = Some(v);
                }
                if sub as usize == cols.len() {
                    fin(&mut n)
                } else {
                    n.pos[t].1 += 1
                }
                vec![n]
            }
            (TOp::Batch { n: k, cols }, TOut::Range(a, b)) => {
                if b - a != *k {
                    return vec![];
                }
                if sub == 0 {
                    for id in *a..*b {
                        if n.ents.insert(id, fresh.clone()).is_some() {
                            return vec![];
                        }
                    }
                } else {
                    let (ty, v) = cols[sub as usize - 1];
                    for id in *a..*b {
                        if !usable(id) {
                            return vec![];
                        }
                        n.ents.get_mut(&id).unwrap().comps[ty] = Some(v + (id - a) as i64);
                    }
                }
                if sub as usize == cols.len() {
                    fin(&mut n)
                } else {
                    n.pos[t].1 += 1
                }
                vec![n]
            }
            (TOp::Attach { ty, v, .. }, TOut::Unit) => {
                if !usable(rec.id) {
                    return vec![];
                }
                n.ents.get_mut(&rec.id).unwrap().comps[*ty] = Some(*v);
                fin(&mut n);
                vec![n]
            }
            (TOp::Detach { ty, .. }, TOut::Val(v)) => {
                if !usable(rec.id) {
                    return vec![];
                }
                let c = &mut n.ents.get_mut(&rec.id).unwrap().comps[*ty];
                if c.map(|x| norm(*ty, x)) != *v {
                    return vec![];
                }
                *c = None;
                fin(&mut n);
                vec![n]
            }
            (TOp::Remove { .. }, TOut::Unit) => {
                let Some(e) = s.ents.get(&rec.id) else { return vec![] };
                if sub == 0 {
                    // an entity still held by the call that creates it, or by a handle,
                    // cannot be removed
                    if e.dead || e.dying || self.held(s, rec.id) {
                        return vec![];
                    }
                    // at once ...
                    let mut all = n.clone();
                    all.ents.remove(&rec.id);
                    fin(&mut all);
                    // ... or bit by bit
                    n.ents.get_mut(&rec.id).unwrap().dying = true;
                    n.pos[t].1 = 1;
                    return vec![all, n];
                }
                let mut out = vec![];
                if e.dead {
                    let mut m = n.clone();
                    m.ents.remove(&rec.id);
                    fin(&mut m);
                    out.push(m);
                } else {
                    let mut m = n.clone();
                    m.ents.get_mut(&rec.id).unwrap().dead = true;
                    out.push(m);
                }
                for ty in 0..NT {
                    if e.comps[ty].is_some() {
                        let mut m = n.clone();
                        m.ents.get_mut(&rec.id).unwrap().comps[ty] = None;
                        out.push(m);
                    }
                }
                for (g, &(_, a, b)) in self.groups.iter().enumerate() {
                    if e.left >> g & 1 == 0 && e.comps[a].is_some() && e.comps[b].is_some() {
                        let mut m = n.clone();
                        m.ents.get_mut(&rec.id).unwrap().left |= 1 << g;
                        out.push(m);
                    }
                }
                out
            }
            (TOp::Write { ty, v, .. }, TOut::Flag(f)) => {
                let had = s.ents.get(&rec.id).map_or(false, |e| e.comps[*ty].is_some());
                if had != *f {
                    return vec![];
                }
                if had {
                    n.ents.get_mut(&rec.id).unwrap().comps[*ty] = Some(*v);
                }
                fin(&mut n);
                vec![n]
            }
            (TOp::Read { ty, .. }, TOut::Val(v)) => {
                let c = s.ents.get(&rec.id).and_then(|e| e.comps[*ty]).map(|x| norm(*ty, x));
                if c != *v {
                    return vec![];
                }
                fin(&mut n);
                vec![n]
            }
            (TOp::Exist { .. }, TOut::Flag(f)) => {
                if usable(rec.id) != *f {
                    return vec![];
                }
                fin(&mut n);
                vec![n]
            }
            (TOp::Open { .. }, TOut::Flag(f)) => {
                if usable(rec.id) != *f {
                    return vec![];
                }
                fin(&mut n);
                vec![n]
            }
            (TOp::Close { .. }, TOut::Id(id)) => {
                if *id != rec.id || !usable(rec.id) {
                    return vec![];
                }
                fin(&mut n);
                vec![n]
            }
            (TOp::Query { shape } | TOp::QWrite { shape, .. }, TOut::Rows(r, ws)) => {
                let sh = &shapes::all()[*shape];
                if self.rows(s, sh) != *r {
                    return vec![];
                }
                for &(id, leaf, v) in ws {
                    if let Some(e) = n.ents.get_mut(&id) {
                        e.comps[sh.leaves[leaf].0] = Some(v);
                    }
                }
                fin(&mut n);
                vec![n]
            }
            (TOp::ResRead { r }, TOut::Val(v)) => {
                if s.res[*r].map(|x| rnorm(*r, x)) != *v {
                    return vec![];
                }
                fin(&mut n);
                vec![n]
            }
            (TOp::ResWrite { r, v }, TOut::Flag(f)) => {
                if s.res[*r].is_some() != *f {
                    return vec![];
                }
                if *f && *r != 2 {
                    n.res[*r] = Some(*v);
                }
                fin(&mut n);
                vec![n]
            }
            _ => vec![],
        }
    }
}
fn show_rec(r: &Rec) -> String {
    let out = match &r.out {
        TOut::Rows(r, _) => format!("{r:?}"),
        TOut::Panic(p) => format!("panics: {p}"),
        TOut::Cut => "never returns".into(),
        o => format!("{o:?}"),
    };
    let op = match &r.op {
        TOp::Query { shape } => format!("query {}", shapes::all()[*shape].name),
        TOp::QWrite { shape, base } => format!("query {} and write from {base}", shapes::all()[*shape].name),
        TOp::Create { cols } => format!("create {}", cols_text(cols)),
        TOp::Batch { n, cols } => format!("create {n} with {}", cols_text(cols)),
        TOp::Attach { ty, v, .. } => format!("attach {}={v} to {}", NAMES[*ty], r.id),
        TOp::Detach { ty, .. } => format!("detach {} from {}", NAMES[*ty], r.id),
        TOp::Remove { .. } => format!("remove {}", r.id),
        TOp::Write { ty, v, .. } => format!("write {}={v} of {}", NAMES[*ty], r.id),
        TOp::Read { ty, .. } => format!("read {} of {}", NAMES[*ty], r.id),
        TOp::Exist { .. } => format!("exist {}", r.id),
        TOp::Open { .. } => format!("take a handle of {} and keep it", r.id),
        TOp::Close { .. } => format!("give up the handle of {}", r.id),
        o => format!("{o:?}"),
    };
    format!("{op} -> {out}")
}
fn cols_text(c: &[(usize, i64)]) -> String {
    c.iter().map(|(t, v)| format!("{}={v}", NAMES[*t])).collect::<Vec<_>>().join(" ")
}

struct Plan {
    /// probability of a switch, of 256, when another thread can run
    rate: u8,
    bytes: Vec<u8>,
    /// a single switch at this point of the run, instead
    at: Option<(u64, usize)>,
    first: usize,
    /// no scheduler: the threads run freely
    free: bool,
}
struct OneRun {
    report: Report,
    points: u64,
}
fn c15_once(case: &Case, p: &Profile, keep: bool, plan: &Plan) -> Result<OneRun, Fail> {
    locks::sequential();
    types_reset();
    let mut ctx = Ctx::new(case, p, keep).map_err(|msg| Fail { msg, trace: vec![] })?;
    let fail = |mut ctx: Ctx, msg: String| {
        let f = Fail { msg, trace: std::mem::take(&mut ctx.trace) };
        std::mem::forget(ctx);
        f
    };
    // setup, with component types of groups in ascending order
    let hot = hot_types(case);
    let mut cmds: Vec<Cmd> = vec![Cmd::ResReg { r: 0, v: -5 }];
    if case.cfg[3] % 2 == 0 {
        cmds.push(Cmd::ResReg { r: 3, v: -6 });
    }
    for c in cmds {
        if let Err(e) = ctx.step(&c) {
            return Err(fail(ctx, e));
        }
    }
    for op in &case.ops {
        let mut op = *op;
        if op.0 == k::CREATE && op.4 % 4 != 0 {
            // mostly the types that matter
            op.1 = hot.iter().enumerate().filter(|(i, _)| op.1 >> i & 1 == 1).map(|(_, t)| 1u16 << t).sum();
        }
        let cmds = decode(&op, &mut ctx.m, p, &ctx.s.ids);
        for c in cmds {
            let c = match c {
                Cmd::Group { kind, .. } => {
                    // about the hot types, named in ascending order
                    let (mut a, mut b) = if op.2 % 4 == 0 { GROUP_PAIRS[op.3 as usize % GROUP_PAIRS.len()] } else { (hot[0], hot[(1 + op.3 as usize % (hot.len() - 1)).min(hot.len() - 1)]) };
                    if a > b {
                        std::mem::swap(&mut a, &mut b);
                    }
                    if a == b || !GROUP_PAIRS.contains(&(a, b)) || !ctx.m.admissible(kind, a, b) {
                        continue;
                    }
                    Cmd::Group { kind, a, b }
                }
                c => c,
            };
            if let Err(e) = ctx.step(&c) {
                return Err(fail(ctx, e));
            }
        }
    }
    let n = case.threads.len();
    let mut scripts: Vec<Vec<TOp>> = vec![];
    for t in &case.threads {
        let mut v = vec![];
        for op in t {
            if let Some(o) = decode_thread(op, &mut ctx.m, p, &hot) {
                v.push(o)
            }
        }
        scripts.push(v);
    }
    // ---- the concurrent part
    let sched = Arc::new(Sched::new(n, plan.bytes.clone(), plan.rate, plan.at, plan.first));
    locks::off();
    let free = plan.free;
    locks::parallel_begins();
    let tick = std::sync::atomic::AtomicU64::new(0);
    let arrived = std::sync::atomic::AtomicUsize::new(0);
    let now = || if free { tick.fetch_add(1, std::sync::atomic::Ordering::SeqCst) } else { sched.clock() };
    let recs: Vec<Vec<Rec>> = {
        let (w, ids) = (&ctx.s.w, &ctx.s.ids);
        let next = ids.iter().map(|i| i.get()).max().unwrap_or(0) + 1;
        let (now, arrived) = (&now, &arrived);
        std::thread::scope(|sc| {
            let hs: Vec<_> = scripts
                .iter()
                .enumerate()
                .map(|(tid, ops)| {
                    let sched = sched.clone();
                    sc.spawn(move || {
                        let mut pause = 0u64;
                        if free {
                            locks::parallel();
                            pause = plan.bytes.get(tid).copied().unwrap_or(0) as u64;
                            arrived.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            let mut spins = 0u32;
                            while arrived.load(std::sync::atomic::Ordering::SeqCst) < n {
                                spins += 1;
                                if spins > 200 {
                                    std::thread::yield_now()
                                } else {
                                    std::hint::spin_loop()
                                }
                            }
                        } else {
                            locks::scheduled(&sched, tid);
                            sched.start(tid);
                        }
                        let mut own: Vec<usize> = vec![];
                        let mut out = vec![];
                        let mut hd: Option<(Entity, usize)> = None;
                        let last = TOp::Close { how: 0 };
                        let mut queue: std::collections::VecDeque<TOp> = ops.iter().chain([&last]).cloned().collect();
                        while let Some(mut op) = queue.pop_front() {
                            // what a thread does while it keeps a handle
                            if let Some((_, id)) = &hd {
                                match &mut op {
                                    TOp::Attach { via, .. } | TOp::Detach { via, .. } => *via = 2,
                                    TOp::Remove { via, .. } if *via == 1 => *via = 2,
                                    TOp::Write { t, path, .. } | TOp::Read { t, path, .. } => {
                                        if *t == Tgt::Setup(usize::MAX) || *path % 2 == 0 || matches!(t, Tgt::Setup(h) if ids[*h].get() == *id) {
                                            *path = 4
                                        }
                                    }
                                    TOp::Create { .. } | TOp::Batch { .. } | TOp::Open { .. } | TOp::Exist { .. } | TOp::Remove { .. } => {
                                        queue.push_front(op);
                                        op = TOp::Close { how: 0 }
                                    }
                                    _ => {}
                                }
                            } else if matches!(op, TOp::Close { .. }) {
                                continue;
                            }
                            let op = &op;
                            let mine = hd.as_ref().map(|x| x.1).unwrap_or(0);
                            let id = match op {
                                TOp::Attach { via: 2, .. } | TOp::Detach { via: 2, .. } | TOp::Remove { via: 2, .. } | TOp::Close { .. } => mine,
                                TOp::Write { path: 4, .. } | TOp::Read { path: 4, .. } => mine,
                                TOp::Open { t } | TOp::Attach { t, .. } | TOp::Detach { t, .. } | TOp::Remove { t, .. } | TOp::Write { t, .. } | TOp::Read { t, .. } | TOp::Exist { t, .. } => match *t {
                                    Tgt::Setup(h) => ids[h].get(),
                                    Tgt::Next(i) => next + i,
                                    Tgt::Own(i, h) => match (own.is_empty(), h) {
                                        (false, _) => own[own.len() - 1 - i % own.len()],
                                        (true, usize::MAX) => continue,
                                        (true, h) => ids[h].get(),
                                    },
                                },
                                _ => 0,
                            };
                            if free {
                                pause = pause.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                                for _ in 0..(pause >> 57) {
                                    std::hint::spin_loop()
                                }
                            } else {
                                sched.point(tid);
                            }
                            let begin = now();
                            let r = guarded(|| run_op(w, op, &mut own, id, &mut hd));
                            let cut = if free { locks::gave_up() } else { sched.aborted() };
                            let end = now();
                            if free && !cut {
                                locks::progress()
                            }
                            let o = match r {
                                Ok(o) => o,
                                Err(_) if cut => TOut::Cut,
                                Err(e) => TOut::Panic(e),
                            };
                            let holds = if hd.is_some() { mine } else { 0 };
                            out.push(Rec { op: op.clone(), id, holds, out: o, begin, end });
                            if cut {
                                break;
                            }
                        }
                        locks::off();
                        if !free {
                            sched.finish(tid);
                        }
                        out
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        })
    };
    locks::sequential();
    for (t, r) in recs.iter().enumerate() {
        for x in r {
            ctx.note(&format!("thread {t}: {}", show_rec(x)));
        }
    }
    let switches = sched.switches();
    *ctx.counts.entry("switches").or_default() += switches;
    *ctx.counts.entry("waits for a lock").or_default() += sched.waits();
    if let Some(d) = sched.deadlock() {
        if keep {
            ctx.note(&format!("schedule: {}", sched.trace()));
        }
        return Err(fail(ctx, format!("threads wait for each other for ever: {d}")));
    }
    if free && locks::gave_up() {
        return Err(fail(ctx, "threads that really run in parallel wait for each other for ever".to_string()));
    }
    // calls that may never be refused
    for r in recs.iter().flatten() {
        let may = matches!(r.op, TOp::Attach { .. } | TOp::Detach { .. } | TOp::Remove { .. });
        if let TOut::Panic(e) = &r.out {
            if !may {
                return Err(fail(ctx, format!("{} panics: {e}", show_rec(r))));
            }
        }
    }
    let r = c15_final(&mut ctx, &recs).and_then(|_| match crate::types::errors().first() {
        Some(e) => Err(e.clone()),
        None => Ok(()),
    });
    match r {
        Ok(()) => {}
        Err(e) => {
            if keep {
                ctx.note(&format!("schedule: {}", sched.trace()));
            }
            return Err(fail(ctx, e));
        }
    }
    let calls: usize = recs.iter().map(|r| r.len()).sum();
    let busy = recs.iter().filter(|r| !r.is_empty()).count();
    ctx.hash = fnv(ctx.hash, &sched.fingerprint().to_le_bytes());
    let nontrivial = busy >= 2 && (switches >= 2 || free) && calls >= 2;
    let points = sched.clock();
    Ok(OneRun { report: Report { nontrivial, hash: ctx.hash, counts: std::mem::take(&mut ctx.counts), trace: std::mem::take(&mut ctx.trace) }, points })
}
fn types_reset() {
    crate::types::reset()
}
fn c15_final(ctx: &mut Ctx, recs: &[Vec<Rec>]) -> Result<(), String> {
    let mut max = ctx.s.ids.iter().map(|i| i.get()).max().unwrap_or(0);
    for r in recs.iter().flatten() {
        match r.out {
            TOut::Id(i) => max = max.max(i),
            TOut::Range(_, b) => max = max.max(b),
            _ => {}
        }
    }
    let snap = snapshot(&ctx.s.w, max + 3, &[])?;
    let mut goal: BTreeMap<usize, [Option<i64>; NT]> = snap.exist.iter().map(|&i| (i, [None; NT])).collect();
    for ty in 0..NT {
        for &(id, v) in snap.comps[ty].iter().flatten() {
            match goal.get_mut(&id) {
                Some(c) => {
                    if c[ty].replace(v).is_some() {
                        return Err(format!("in the end, {} yields entity {id} twice", NAMES[ty]));
                    }
                }
                None => return Err(format!("in the end, {} has a value for entity {id}, which does not exist", NAMES[ty])),
            }
        }
    }
    let start = S1 {
        pos: vec![(0, 0); recs.len()],
        ents: ctx.m.live.iter().map(|&h| (ctx.s.ids[h].get(), E1 { comps: ctx.m.ents[h].comps, dead: false, dying: false, left: 0 })).collect(),
        res: ctx.m.res,
    };
    let mut goal_res = [None; NR];
    goal_res.copy_from_slice(&snap.res);
    let groups = ctx.m.groups.clone();
    let mut ex = Explain { recs, groups: &groups, goal: &goal, goal_res, seen: HashSet::new(), model: Model::default(), left: 400_000, deepest: 0 };
    if !ex.search(start) {
        return Err(format!(
            "no order of the {} calls explains their results and the final state (explained at most {} calls); in the end: {}",
            recs.iter().map(|r| r.len()).sum::<usize>(),
            ex.deepest,
            goal.iter().map(|(i, c)| format!("{i}[{}]", c.iter().enumerate().filter_map(|(t, v)| v.map(|v| format!("{}={v}", NAMES[t]))).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join(" ")
        ));
    }
    if ex.left == 0 {
        ctx.count("search given up");
    }
    // from here on the world is the explained one: compare everything else with it
    ctx.by_id.clear();
    ctx.s.ids.clear();
    ctx.m.ents.clear();
    ctx.m.live.clear();
    for (h, (id, c)) in goal.iter().enumerate() {
        ctx.s.ids.push(nz(*id));
        ctx.by_id.insert(*id, h);
        ctx.m.ents.push(Ent { alive: true, comps: *c });
        ctx.m.live.push(h);
    }
    let after = |e: String| format!("after all calls: {e}");
    ctx.obs_components().map_err(after)?;
    ctx.obs_groups().map_err(after)?;
    ctx.obs_packed().map_err(after)?;
    // and it stays usable: a new entity has nothing, and everything can be removed
    for _ in 0..2 {
        let h = ctx.s.ids.len();
        ctx.step(&Cmd::Create { h, cols: vec![], via: 0, mid: vec![] }).map_err(after)?;
    }
    ctx.obs_components().map_err(after)?;
    ctx.obs_exist().map_err(after)?;
    for h in ctx.m.live.clone().into_iter().rev().take(6) {
        ctx.step(&Cmd::Remove { h, via: 0 }).map_err(after)?;
    }
    ctx.obs_components().map_err(after)?;
    ctx.obs_groups().map_err(after)?;
    Ok(())
}
const FREE_RUNS: usize = 40;
fn c15(case: &Case, p: &Profile, keep: bool) -> Res {
    let n = case.threads.len().max(1);
    let rate = [10u8, 30, 60, 110][case.cfg[5] as usize % 4];
    let first = case.cfg[5] as usize / 4 % n;
    if case.cfg[5] / 16 % 16 > 1 {
        return c15_once(case, p, keep, &Plan { rate, bytes: case.sched.clone(), at: None, first, free: false }).map(|r| r.report);
    }
    if case.cfg[5] / 16 % 16 == 1 {
        // on freely running threads, again and again
        let mut total: Option<Report> = None;
        for i in 0..FREE_RUNS {
            let mut bytes = case.sched.clone();
            bytes.resize(n.max(bytes.len()), 0);
            for b in bytes.iter_mut() {
                *b = b.wrapping_add((i * 41) as u8)
            }
            let r = c15_once(case, p, keep, &Plan { rate: 0, bytes, at: None, first, free: true })?.report;
            total.get_or_insert(r);
        }
        let mut t = total.unwrap();
        *t.counts.entry("runs on freely running threads").or_default() += FREE_RUNS as u64;
        return Ok(t);
    }
    // every schedule with one switch away from a running thread, and each thread going first
    let mut total: Option<Report> = None;
    let mut runs = 0u64;
    for first in 0..n {
        let base = c15_once(case, p, keep, &Plan { rate: 0, bytes: vec![], at: None, first, free: false })?;
        let points = base.points;
        let mut keep_one = base.report;
        for at in 0..points.min(400) {
            for to in 0..n - 1 {
                let r = c15_once(case, p, keep, &Plan { rate: 0, bytes: vec![], at: Some((at, to)), first, free: false })?;
                runs += 1;
                keep_one.nontrivial |= r.report.nontrivial;
                for (k, x) in r.report.counts {
                    *keep_one.counts.entry(k).or_default() += x;
                }
            }
        }
        match &mut total {
            None => total = Some(keep_one),
            Some(t) => {
                t.nontrivial |= keep_one.nontrivial;
                for (k, x) in keep_one.counts {
                    *t.counts.entry(k).or_default() += x;
                }
            }
        }
    }
    let mut t = total.unwrap();
    *t.counts.entry("schedules swept systematically").or_default() += runs;
    Ok(t)
}

// ------------------------------------------------------------------ C28

enum Pin {
    One(Option<Entity<'static>>, H),
    Many(Option<Entities<'static>>, H, usize),
}
impl Pin {
    fn has(&self, h: H) -> bool {
        match self {
            Pin::One(_, x) => *x == h,
            Pin::Many(_, x, n) => (*x..x + n).contains(&h),
        }
    }
    fn members(&self) -> Vec<H> {
        match self {
            Pin::One(_, x) => vec![*x],
            Pin::Many(_, x, n) => (*x..x + n).collect(),
        }
    }
}
fn c28_profile() -> Profile {
    Profile {
        weights: &[(k::CREATE, 12), (k::BATCH, 2), (k::GROUP, 6), (k::ATTACH, 2), (k::DETACH, 1), (k::REMOVE, 2), (k::RES, 1)],
        max_ops: 12,
        shapes: ordered_shapes(),
        big: 4,
        groups: 0,
        all_reg: true,
        fill: 0,
        extra: &[],
    }
}
fn c28_threads() -> Profile {
    Profile {
        weights: &[
            (tk::CREATE, 3), (tk::BATCH, 2), (tk::ATTACH, 8), (tk::DETACH, 5), (tk::REMOVE, 9), (tk::WRITE, 3), (tk::READ, 4), (tk::EXIST, 2),
            (tk::QUERY, 4), (tk::QWRITE, 2), (tk::RES, 1), (tk::OPEN, 11), (tk::CLOSE, 5),
        ],
        ..c15_threads()
    }
}
/// Everything that can be looked at while handles are held.
fn c28_look(c: &mut Ctx) -> Result<(), String> {
    c.obs_components()?;
    c.obs_exist()?;
    c.obs_groups()?;
    c.obs_packed()
}
fn c28_hold(c: &mut Ctx, p: &Profile, ops: &[RawOp]) -> Result<bool, String> {
    // the handles borrow the world while it is also used through the context; it stays in place
    // and is only used through shared references until they are gone
    let w: &'static World = unsafe { &*(&c.s.w as *const World) };
    let mut held: Vec<Pin> = vec![];
    let (mut together, mut refused) = (0u64, 0u64);
    let r = (|| -> Result<bool, String> {
        for op in ops {
            let RawOp(mut kind, a, b, cc, d) = *op;
            if held.is_empty() && a % 2 == 0 && kind != tk::CREATE && kind != tk::BATCH {
                kind = tk::OPEN
            }
            if kind == tk::REMOVE && cc % 2 == 0 {
                kind = [tk::ATTACH, tk::DETACH, tk::WRITE, tk::READ][cc as usize / 2 % 4]
            }
            match kind {
                tk::CREATE | tk::BATCH if held.is_empty() => {
                    let n = if kind == tk::CREATE { 1 } else { cc as usize % 4 };
                    let h = c.m.ents.len();
                    let cols: Vec<(usize, i64)> = match reg_type(&c.m, b) {
                        Some(t) if d % 3 != 0 => vec![(t, c.m.vals(n.max(1)))],
                        _ => vec![],
                    };
                    c.note(&format!("create {n} and keep the {}: {}", if kind == tk::CREATE { "handle" } else { "builder" }, cols_text(&cols)));
                    let pin = guarded(|| if kind == tk::CREATE {
                        let mut e = w.create_entity();
                        for &(t, v) in &cols {
                            e = with_type!(t, T => e.attach(T::mk(v)));
                        }
                        Pin::One(Some(e), h)
                    } else {
                        let mut e = w.create_entities(n);
                        for &(t, v) in &cols {
                            e = with_type!(t, T => e.attach::<T, _>((0..n as i64).map(|i| T::mk(v + i)).collect::<Vec<T>>()));
                        }
                        Pin::Many(Some(e), h, n)
                    })
                    .map_err(|e| format!("panics: {e}"))?;
                    held.push(pin);
                    c.adopt_batch(n, &cols)?;
                    c.count("new entities held");
                }
                tk::OPEN | tk::CREATE | tk::BATCH => {
                    // often of an entity that is held already
                    let pinned: Vec<H> = held.iter().flat_map(|p| p.members()).collect();
                    let h = if !pinned.is_empty() && b % 3 == 0 { pinned[a as usize % pinned.len()] } else { match live(&c.m, a) { Some(h) => h, None => continue } };
                    c.note(&format!("keep a handle of e{h}"));
                    let id = c.s.ids[h];
                    let e = guarded(|| w.entity(id))
                        .map_err(|e| format!("with {} handles held, another is not to be had: {e}", held.len()))?
                        .ok_or_else(|| format!("no handle of e{h}, which exists"))?;
                    held.push(Pin::One(Some(e), h));
                    if held.len() > 1 {
                        together += 1
                    }
                }
                tk::CLOSE => {
                    if held.is_empty() {
                        continue;
                    }
                    let last = held.len() == 1;
                    let i = a as usize % held.len();
                    match held.remove(i) {
                        Pin::One(mut e, h) => {
                            let e = e.take().unwrap();
                            let id = c.s.ids[h];
                            match b % 4 {
                                3 if last => {
                                    c.note(&format!("remove e{h} through its only handle"));
                                    guarded(|| e.manaully_drop()).map_err(|e| format!("removing e{h} through the only handle held: {e}"))?;
                                    c.judge(&Cmd::Remove { h, via: 1 }, &Out::Unit)?;
                                    c.count("removed through the held handle");
                                    c28_look(c)?;
                                }
                                0 | 1 => {
                                    c.note(&format!("turn the handle of e{h} into its id"));
                                    let got = guarded(|| e.into_id()).map_err(|e| format!("panics: {e}"))?;
                                    if got != id {
                                        return Err(format!("the handle of entity {id} gives the id {got}"));
                                    }
                                }
                                _ => {
                                    c.note(&format!("drop a handle of e{h}"));
                                    guarded(|| drop(e)).map_err(|e| format!("dropping a handle panics: {e}"))?;
                                }
                            }
                        }
                        Pin::Many(mut e, h, n) => {
                            let e = e.take().unwrap();
                            c.note(&format!("finish the builder of e{h}.."));
                            if b % 3 == 0 {
                                drop(e)
                            } else {
                                let r = e.into_ids();
                                let want: Vec<usize> = (h..h + n).map(|h| c.s.ids[h].get()).collect();
                                if (r.start.get()..r.end.get()).collect::<Vec<_>>() != want {
                                    return Err(format!("the builder gives the ids {r:?}, but {want:?} are its entities"));
                                }
                            }
                        }
                    }
                }
                tk::REMOVE => {
                    // an attempt to remove what is held
                    let pinned: Vec<H> = held.iter().flat_map(|p| p.members()).collect();
                    if pinned.is_empty() {
                        continue;
                    }
                    let h = pinned[a as usize % pinned.len()];
                    let times = held.iter().filter(|p| p.has(h)).count();
                    let id = c.s.ids[h];
                    let by_handle = b % 2 == 1;
                    c.note(&format!("try to remove e{h}, held by {times} handles{}", if by_handle { ", through another" } else { "" }));
                    match guarded(|| if by_handle { w.entity(id).unwrap().manaully_drop() } else { w.remove_entity(id) }) {
                        Ok(()) => return Err(format!("e{h} is removed although a handle of it is held")),
                        Err(e) if !e.starts_with("waits for a lock") => return Err(format!("removing e{h}, of which a handle is held, panics: {e}")),
                        Err(_) => {}
                    }
                    refused += 1;
                    // it waits; until the handle is gone nothing has happened
                    return c28_look(c).map(|_| true).map_err(|e| format!("while the removal of e{h} waits for its handle: {e}"));
                }
                tk::ATTACH | tk::DETACH | tk::WRITE | tk::READ if d % 3 != 0 && held.iter().any(|p| matches!(p, Pin::One(..))) => {
                    // through a held handle
                    let ones: Vec<usize> = (0..held.len()).filter(|&i| matches!(held[i], Pin::One(..))).collect();
                    let i = ones[a as usize % ones.len()];
                    let Some(ty) = reg_type(&c.m, b) else { continue };
                    let v = c.m.val();
                    let Pin::One(e, h) = &mut held[i] else { unreachable!() };
                    let h = *h;
                    let want = c.m.get(h, ty);
                    let what = format!("{} {} {}e{h} through its handle", ["attach", "detach", "write", "read"][(kind as usize).min(6) - if kind >= tk::WRITE { 3 } else { 2 }], NAMES[ty], if kind == tk::ATTACH || kind == tk::WRITE { format!("= {v} ") } else { String::new() });
                    c.note(&what);
                    let hd = e.take().unwrap();
                    let got: Result<(Entity<'static>, Option<i64>), String> = guarded(|| with_type!(ty, T => match kind {
                        tk::ATTACH => (hd.attach(T::mk(v)), want),
                        tk::DETACH => { let x = hd.detach::<T>().map(|x| x.get()); (hd, x) }
                        tk::WRITE => {
                            let x = hd.component_write::<T>().map(|mut g| { let x = g.get(); g.set(v); x });
                            (hd, x)
                        }
                        _ => { let x = hd.component_read::<T>().map(|g| g.get()); (hd, x) }
                    }));
                    let (hd, x) = got.map_err(|e| format!("{what} panics: {e}"))?;
                    *e = Some(hd);
                    if x != want {
                        return Err(format!("{what} finds {x:?}, expected {want:?}"));
                    }
                    match kind {
                        tk::ATTACH => c.m.ents[h].comps[ty] = Some(v),
                        tk::DETACH => c.m.ents[h].comps[ty] = None,
                        tk::WRITE if want.is_some() => c.m.ents[h].comps[ty] = Some(v),
                        _ => {}
                    }
                    c.count("calls through held handles");
                    for h in [Some(h), live(&c.m, cc)].into_iter().flatten() {
                        c.obs_paths(h, ty)?;
                    }
                }
                _ => {
                    // by id and on the whole world, beside the handles
                    let kk = match kind {
                        tk::ATTACH => k::ATTACH,
                        tk::DETACH => k::DETACH,
                        tk::WRITE => if a % 4 == 0 { k::SLICE } else { k::WRITE },
                        tk::READ => k::HANDLE,
                        tk::EXIST => if a % 2 == 0 { k::DEBUG } else { k::BAD },
                        tk::QUERY => k::QUERY,
                        tk::QWRITE => k::QWRITE,
                        _ => k::RES,
                    };
                    let cmds = decode(&RawOp(kk, a, b, cc, d), &mut c.m, p, &c.s.ids);
                    for x in cmds {
                        let ok = match &x {
                            Cmd::Attach { .. } | Cmd::Detach { .. } | Cmd::Write { .. } | Cmd::Slice { .. } | Cmd::Query { .. } | Cmd::QWrite { .. } => true,
                            Cmd::ResWrite { .. } | Cmd::ResRead { .. } | Cmd::Debug | Cmd::Handle { .. } => true,
                            Cmd::Bad(b) => matches!(b, Bad::AttachMissing { .. } | Bad::DetachMissing { .. } | Bad::AttachUnreg { .. } | Bad::DetachUnreg { .. } | Bad::Query { .. } | Bad::QueryUnreg { .. } | Bad::ReadUnreg { .. }),
                            _ => false,
                        };
                        if ok {
                            c.step(&x).map_err(|e| format!("with {} handles held: {e}", held.len()))?;
                            if !held.is_empty() {
                                c.count("other calls beside held handles");
                                together += 1
                            }
                        }
                    }
                }
            }
        }
        c28_look(c).map_err(|e| format!("with {} handles held: {e}", held.len()))?;
        Ok(false)
    })();
    *c.counts.entry("removals held off").or_default() += refused;
    *c.counts.entry("handles and calls beside held handles").or_default() += together;
    let waiting = match r {
        Ok(x) => x,
        Err(e) => {
            // whatever is wrong, do not run more of it
            held.into_iter().for_each(std::mem::forget);
            return Err(e);
        }
    };
    // given up in some order
    let was: Vec<H> = held.iter().flat_map(|p| p.members()).collect();
    let mut i = ops.first().map(|o| o.1 as usize).unwrap_or(0);
    while !held.is_empty() {
        i = i.wrapping_mul(31).wrapping_add(7);
        let p = held.remove(i % held.len());
        guarded(|| drop(p)).map_err(|e| format!("dropping a handle panics: {e}"))?;
    }
    if waiting {
        return Ok(true);
    }
    c.note("no handle is left");
    for h in was.into_iter().take(3) {
        if c.m.ents[h].alive {
            c.step(&Cmd::Remove { h, via: (i % 2) as u8 })?;
        }
    }
    let h = c.m.ents.len();
    c.step(&Cmd::Create { h, cols: vec![], via: 0, mid: vec![] })?;
    c28_look(c)?;
    Ok(together > 0)
}
fn c28(case: &Case, p: &Profile, keep: bool) -> Res {
    if case.cfg[2] % 4 == 0 {
        return c15(case, p, keep);
    }
    let mut nt = false;
    let ops: Vec<RawOp> = case.threads.iter().flatten().cloned().collect();
    let p = Profile { shapes: all_shapes(), big: 30, groups: 3, all_reg: false, ..c28_profile() };
    let c = history(case, &p, keep, &mut |_, _, _| Ok(()), &mut |c| {
        nt = c28_hold(c, &p, &ops)?;
        Ok(())
    })?;
    Ok(Report { nontrivial: nt, hash: c.hash, counts: c.counts, trace: c.trace })
}
fn all_shapes() -> &'static [usize] {
    static V: std::sync::OnceLock<&'static [usize]> = std::sync::OnceLock::new();
    *V.get_or_init(|| leak((0..shapes::all().len()).collect()))
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            profile: c14_profile,
            run: c14,
            quick: 400_000,
            thorough: 16_000_000,
            rule: "a generated world and a generated sequence of views taken, used, released and attempted while others are held; non-trivial when some access was held off and some view was granted beside another",
            threads: Some((1, 40, 0)),
            thread_profile: Some(c14_threads),
        },
        Prop {
            id: "C15",
            profile: c15_profile,
            run: c15,
            quick: 20_000,
            thorough: 1_000_000,
            rule: "a generated world, the calls of two or three threads and a schedule of them at lock granularity (or all schedules with a single preemption); results and final state explained by a sequential order; non-trivial when at least two threads made calls and control switched between them at least twice",
            threads: Some((2, 4, 300)),
            thread_profile: Some(c15_threads),
        },
        Prop {
            id: "C28",
            profile: c28_profile,
            run: c28,
            quick: 80_000,
            thorough: 4_000_000,
            rule: "a generated world, and handles and builders taken, kept, used, given up and contested, by one thread (three cases in four) or by two or three threads under a generated schedule; non-trivial when a removal was held off or calls were made beside a held handle, or when control switched between threads that made calls at least twice",
            threads: Some((2, 5, 300)),
            thread_profile: Some(c28_threads),
        },
    ]
}
