//! One runner per sequential property: which histories it generates and what it compares.
use crate::engine::*;
use crate::locks;
use crate::row::{Ev, Req, Step, USES};
use crate::shapes::{self, Node};
use crate::types::{self, *};
use crate::{with_res, with_type};
use std::collections::BTreeMap;

pub struct Report {
    pub nontrivial: bool,
    pub hash: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
}
#[derive(Debug)]
pub struct Fail {
    pub msg: String,
    pub trace: Vec<String>,
}
pub type Res = Result<Report, Fail>;

pub struct Prop {
    pub id: &'static str,
    pub profile: fn() -> Profile,
    pub run: fn(&Case, &Profile, bool) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// generate the threads and schedule parts of a case: (threads, ops per thread, schedule length)
    pub threads: Option<(usize, usize, usize)>,
    pub thread_profile: Option<fn() -> Profile>,
}

pub fn leak<T>(v: Vec<T>) -> &'static [T] {
    Box::leak(v.into_boxed_slice())
}
fn base_profile(weights: &'static [(u8, u32)], shapes: &'static [usize]) -> Profile {
    Profile { weights, max_ops: 40, shapes, big: 300, groups: 3, all_reg: false, fill: 1500, extra: k::ALL }
}
macro_rules! cached {
    ($e:expr) => {{
        static V: std::sync::OnceLock<&'static [usize]> = std::sync::OnceLock::new();
        *V.get_or_init(|| leak($e))
    }};
}
fn cat(v: &[&Vec<usize>]) -> Vec<usize> {
    v.iter().flat_map(|x| x.iter().copied()).collect()
}
fn sh_plain() -> &'static [usize] {
    cached!(shapes::classes().plain.clone())
}
fn sh_join() -> &'static [usize] {
    cached!({
        let c = shapes::classes();
        cat(&[&c.single, &c.join, &c.group_in])
    })
}
fn sh_not() -> &'static [usize] {
    cached!(shapes::classes().not.clone())
}
fn sh_group() -> &'static [usize] {
    cached!(shapes::classes().group.clone())
}
fn sh_all() -> &'static [usize] {
    cached!((0..shapes::all().len()).collect())
}
fn sh_single() -> &'static [usize] {
    cached!(shapes::classes().single.clone())
}


/// Runs the history of a case against the model.
pub fn history(
    case: &Case,
    p: &Profile,
    keep: bool,
    after: &mut dyn FnMut(&mut Ctx, &Cmd, &Out) -> Result<(), String>,
    end: &mut dyn FnMut(&mut Ctx) -> Result<(), String>,
) -> Result<Ctx, Fail> {
    locks::sequential();
    types::reset();
    let mut ctx = match Ctx::new(case, p, keep) {
        Ok(c) => c,
        Err(msg) => return Err(Fail { msg, trace: vec![] }),
    };
    let r = (|| -> Result<(), String> {
        for op in &case.ops {
            let cmds = decode(op, &mut ctx.m, p, &ctx.s.ids);
            for c in cmds {
                let out = ctx.step(&c)?;
                after(&mut ctx, &c, &out)?;
            }
        }
        end(&mut ctx)
    })();
    match r {
        Ok(()) => Ok(ctx),
        Err(msg) => {
            let f = Fail { msg, trace: std::mem::take(&mut ctx.trace) };
            // a broken world may not be safe to tear down
            std::mem::forget(ctx);
            Err(f)
        }
    }
}
pub fn report(c: Ctx, nontrivial: bool) -> Report {
    Report { nontrivial, hash: c.hash, counts: c.counts, trace: c.trace }
}

// ------------------------------------------------------------------ C01

pub fn c01_profile() -> Profile {
    let mut p = base_profile(
        &[(k::CREATE, 8), (k::REMOVE, 8), (k::BATCH, 3), (k::CHURN, 2), (k::ATTACH, 2), (k::DETACH, 1), (k::GROUP, 1), (k::SWEEP, 1), (k::BAD, 1)],
        sh_single(),
    );
    p.groups = 2;
    p
}
pub fn c01(case: &Case, p: &Profile, keep: bool) -> Res {
    let mut removed = 0;
    let mut recycled = false;
    let mut seen = std::collections::HashSet::new();
    let c = history(
        case,
        p,
        keep,
        &mut |c, cmd, out| {
            match cmd {
                Cmd::Remove { .. } => removed += 1,
                Cmd::Create { .. } => {
                    if let Out::Id(i) = out {
                        recycled |= !seen.insert(*i);
                    }
                }
                _ => {}
            }
            if matches!(cmd, Cmd::Create { .. } | Cmd::Batch { .. } | Cmd::Remove { .. } | Cmd::Bad(_)) {
                c.obs_exist()?;
            }
            Ok(())
        },
        &mut |c| {
            c.obs_exist()?;
            // asking twice gives the same answers
            c.obs_exist()
        },
    )?;
    Ok(report(c, removed > 0 && (recycled || removed > 1)))
}

// ------------------------------------------------------------------ C02

pub fn c02_profile() -> Profile {
    let mut p = base_profile(&[(k::CREATE, 10), (k::REMOVE, 7), (k::BATCH, 4), (k::CHURN, 3), (k::ATTACH, 1), (k::SWEEP, 1), (k::BAD, 2)], sh_single());
    p.max_ops = 60;
    p.groups = 1;
    p
}
#[derive(Default)]
struct Alloc {
    max: usize,
    vacated: Vec<usize>,
    just_removed: Option<usize>,
    recycled: u64,
    known: usize,
}
impl Alloc {
    fn check(&mut self, c: &Ctx, cmd: &Cmd, out: &Out) -> Result<(), String> {
        let prev = self.just_removed.take();
        match (cmd, out) {
            (Cmd::Create { .. }, Out::Id(id)) => {
                if let Some(i) = self.vacated.iter().position(|v| v == id) {
                    if let Some(p) = prev {
                        if p != *id {
                            return Err(format!("creation right after removing {p} returns {id}"));
                        }
                    }
                    self.vacated.remove(i);
                    self.recycled += 1;
                } else {
                    if *id != self.max + 1 {
                        return Err(format!("creation issues id {id}, the next new id is {}", self.max + 1));
                    }
                    if !self.vacated.is_empty() {
                        return Err(format!("creation issues the new id {id} although {:?} are vacated", self.vacated));
                    }
                    self.max += 1;
                }
            }
            (Cmd::Batch { n, .. }, Out::Range(s, t)) => {
                if t - s != *n {
                    return Err(format!("batch of {n} returns {s}..{t}"));
                }
                for id in *s..*t {
                    if let Some(i) = self.vacated.iter().position(|v| *v == id) {
                        self.vacated.remove(i);
                        self.recycled += 1;
                    } else if id == self.max + 1 {
                        self.max += 1;
                    } else {
                        return Err(format!("batch {s}..{t} issues id {id}, the next new id is {}", self.max + 1));
                    }
                    if !c.s.w.exist(nz(id)) {
                        return Err(format!("batch {s}..{t}: {id} does not exist afterwards"));
                    }
                }
            }
            (Cmd::Remove { h, .. }, _) => {
                let id = c.s.ids[*h].get();
                self.vacated.push(id);
                self.just_removed = Some(id);
            }
            // a rejected call; the batch it was part of may stay
            (Cmd::Bad(_), _) if c.s.ids.len() == self.known => self.just_removed = prev,
            (Cmd::Bad(_), _) => {
                for id in c.s.ids[self.known..].iter().map(|id| id.get()) {
                    if let Some(i) = self.vacated.iter().position(|v| *v == id) {
                        self.vacated.remove(i);
                    } else if id == self.max + 1 {
                        self.max += 1;
                    } else {
                        return Err(format!("a batch rejected later has id {id}, the next new id is {}", self.max + 1));
                    }
                }
            }
            _ => {}
        }
        self.known = c.s.ids.len();
        Ok(())
    }
}
pub fn c02(case: &Case, p: &Profile, keep: bool) -> Res {
    // one or two worlds, used in turn
    let two = case.cfg[5] % 3 == 0;
    locks::sequential();
    types::reset();
    let mk = |keep| Ctx::new(case, p, keep).map_err(|msg| Fail { msg, trace: vec![] });
    let mut cs = vec![mk(keep)?];
    if two {
        cs.push(mk(keep)?);
    }
    let mut al = [Alloc::default(), Alloc::default()];
    let mut batches = 0;
    for op in &case.ops {
        let i = if two { (op.4 >> 15) as usize } else { 0 };
        let c = &mut cs[i];
        for cmd in decode(op, &mut c.m, p, &c.s.ids) {
            let r = c.step(&cmd).and_then(|out| {
                if matches!(cmd, Cmd::Batch { n, .. } if n > 0) {
                    batches += 1;
                }
                al[i].check(c, &cmd, &out).map_err(|e| format!("{}: {e}", show(&cmd)))
            });
            if let Err(msg) = r {
                let msg = if two { format!("world {i}: {msg}") } else { msg };
                let f = Fail { msg, trace: c.trace.clone() };
                std::mem::forget(cs);
                return Err(f);
            }
        }
    }
    let nt = al[0].recycled > 0 && (batches > 0 || al[0].recycled > 1);
    let mut c = cs.remove(0);
    if two {
        c.count("two worlds");
        c.hash ^= cs[0].hash.rotate_left(7);
    }
    Ok(report(c, nt))
}

// ------------------------------------------------------------------ C03

pub fn c03_profile() -> Profile {
    base_profile(
        &[
            (k::CREATE, 6), (k::ATTACH, 10), (k::DETACH, 7), (k::WRITE, 6), (k::REMOVE, 3), (k::BATCH, 2), (k::GROUP, 1), (k::REGISTER, 1),
            (k::HANDLE, 3), (k::SWEEP, 1), (k::CHURN, 1), (k::SLICE, 1), (k::QWRITE, 1),
        ],
        sh_single(),
    )
}
pub fn c03(case: &Case, p: &Profile, keep: bool) -> Res {
    let (mut over, mut det, mut turn) = (0, 0, 0usize);
    let c = history(
        case,
        p,
        keep,
        &mut |c, cmd, out| {
            let h = match cmd {
                Cmd::Attach { h, .. } | Cmd::Detach { h, .. } | Cmd::Write { h, .. } | Cmd::Create { h, .. } | Cmd::Remove { h, .. } | Cmd::Handle { h, .. } => Some(*h),
                _ => None,
            };
            match (cmd, out) {
                (Cmd::Attach { .. } | Cmd::Write { .. }, _) => over += 1,
                (Cmd::Detach { .. }, Out::Val(Some(_))) => det += 1,
                _ => {}
            }
            if c.due(0) {
                c.obs_components()?;
            }
            turn += 1;
            let n = c.s.ids.len();
            for h in h.into_iter().chain((n > 0).then(|| turn * 7 % n.max(1))) {
                for ty in 0..NT {
                    if c.m.reg[ty] {
                        c.obs_paths(h, ty)?;
                    }
                }
            }
            Ok(())
        },
        &mut |c| {
            c.obs_components()?;
            for h in 0..c.s.ids.len().min(40) {
                for ty in 0..NT {
                    if c.m.reg[ty] {
                        c.obs_paths(h, ty)?;
                    }
                }
            }
            for ty in 0..NT {
                if c.m.reg[ty] {
                    c.order(ty)?;
                }
            }
            Ok(())
        },
    )?;
    Ok(report(c, over > 0 && det > 0))
}

// ------------------------------------------------------------------ C04

pub fn c04_profile() -> Profile {
    let mut p = base_profile(
        &[(k::CREATE, 8), (k::REMOVE, 8), (k::ATTACH, 6), (k::DETACH, 2), (k::GROUP, 4), (k::CHURN, 2), (k::BATCH, 2), (k::SWEEP, 1), (k::WRITE, 1)],
        sh_plain(),
    );
    p.groups = 5;
    p.fill = 5000;
    p
}
pub fn c04(case: &Case, p: &Profile, keep: bool) -> Res {
    let mut nt = false;
    let c = history(
        case,
        p,
        keep,
        &mut |c, cmd, _| {
            if let Cmd::Remove { h, .. } = cmd {
                for ty in 0..NT {
                    if c.m.reg[ty] {
                        c.obs_paths(*h, ty)?;
                    }
                }
                if !c.due(10 + 3 * c.m.groups.len()) {
                    return Ok(());
                }
                c.obs_components()?;
                c.obs_groups()?;
                for ty in 0..NT {
                    if c.m.reg[ty] {
                        c.obs_query(shapes::single_shape(ty, false), vec![Step::Probe(c.s.ids[*h].get()), Step::DrainId])?;
                    }
                }
                for (_, a, b) in c.m.groups.clone() {
                    if let Some(s) = pair_shape(a, b) {
                        c.obs_query(s, vec![Step::DrainId])?;
                    }
                }
                nt |= c.m.groups.len() > 0 && !c.m.live.is_empty();
                if c.m.groups.len() > 1 {
                    c.count("removal with several groups");
                }
            } else if let Cmd::Create { .. } = cmd {
                if c.due(2 * c.m.groups.len()) {
                    c.obs_components()?;
                    c.obs_groups()?;
                }
            }
            Ok(())
        },
        &mut |c| {
            c.obs_components()?;
            c.obs_groups()
        },
    )?;
    Ok(report(c, nt))
}
/// The shape `(&A,&B)`.
pub fn pair_shape(a: usize, b: usize) -> Option<usize> {
    use std::collections::HashMap;
    static M: std::sync::OnceLock<HashMap<(usize, usize), usize>> = std::sync::OnceLock::new();
    M.get_or_init(|| {
        let mut m = HashMap::new();
        for (i, s) in shapes::all().iter().enumerate() {
            if let Node::Tuple(v) = &s.node {
                if let [Node::Comp { ty: a, mutable: false }, Node::Comp { ty: b, mutable: false }] = v[..] {
                    m.insert((a, b), i);
                }
            }
        }
        m
    })
    .get(&(a, b))
    .copied()
}

// ------------------------------------------------------------------ C05, C06

fn query_weights() -> &'static [(u8, u32)] {
    &[
        (k::CREATE, 10), (k::QUERY, 12), (k::ATTACH, 6), (k::DETACH, 4), (k::REMOVE, 3), (k::BATCH, 4), (k::GROUP, 2), (k::REGISTER, 1), (k::WRITE, 2),
        (k::SWEEP, 2), (k::CHURN, 1),
    ]
}
fn run_queries(case: &Case, p: &Profile, keep: bool) -> Res {
    let nt = std::cell::Cell::new(false);
    let x = case.cfg[4];
    let c = history(
        case,
        p,
        keep,
        &mut |c, cmd, _| {
            if let Cmd::Query { shape, .. } = cmd {
                let s = &shapes::all()[*shape];
                let n = c.m.eval(&s.node).len();
                nt.set(nt.get() | (n > 0 && n < c.m.live.len()));
            }
            Ok(())
        },
        &mut |c| {
            // several shapes in every mode on the final state
            for i in 0..5u16 {
                let sel = x.rotate_left(i as u32 * 3).wrapping_mul(31).wrapping_add(i * 37);
                let Some(s) = pick_shape(&c.m, p, sel, false) else { continue };
                let n = c.m.eval(&shapes::all()[s].node).len();
                nt.set(nt.get() | (n > 0 && n < c.m.live.len()));
                c.count("final query");
                let cap = c.s.steps_cap;
                c.s.steps_cap = c.m.live.len() + 4;
                c.obs_query(s, vec![Step::DrainNext])?;
                c.obs_query(s, vec![Step::DrainId])?;
                let mut st = probe_all(&c.m, &c.s.ids, sel);
                st.push(Step::HoldId);
                c.obs_query(s, st)?;
                c.s.steps_cap = cap;
            }
            Ok(())
        },
    )?;
    Ok(report(c, nt.get()))
}
pub fn c05_profile() -> Profile {
    base_profile(query_weights(), sh_join())
}
pub fn c06_profile() -> Profile {
    base_profile(query_weights(), sh_not())
}

// ------------------------------------------------------------------ C07, C08

pub fn c07_profile() -> Profile {
    let mut p = base_profile(
        &[
            (k::CREATE, 8), (k::ATTACH, 7), (k::DETACH, 6), (k::REMOVE, 4), (k::GROUP, 4), (k::BATCH, 3), (k::WRITE, 2), (k::SWEEP, 2), (k::CHURN, 1),
            (k::QWRITE, 1), (k::HANDLE, 1), (k::REGISTER, 1),
        ],
        sh_group(),
    );
    p.groups = 4;
    p.fill = 5000;
    p
}
pub fn c08_profile() -> Profile {
    let mut p = c07_profile();
    p.fill = 2000;
    p
}
pub fn c07(case: &Case, p: &Profile, keep: bool) -> Res {
    let mut nt = 0;
    let mut turn = case.cfg[4];
    let c = history(
        case,
        p,
        keep,
        &mut |c, cmd, _| {
            if c.m.groups.is_empty() || matches!(cmd, Cmd::Register { .. }) {
                return Ok(());
            }
            turn = turn.wrapping_mul(25173).wrapping_add(13849);
            // in a large world two of the groups in turn
            let every = if c.m.live.len() > 300 { (c.m.groups.len() / 2).max(1) } else { 1 };
            for (i, (kk, a, b)) in c.m.groups.clone().into_iter().enumerate() {
                let t = (turn as usize >> 4) + i;
                if t % every != 0 || !c.effort.due(c.s.ids.len() / 3, 0) {
                    continue;
                }
                let (ma, mb) = (t & 1 == 1, t & 2 == 2);
                let s = shapes::group_shape(kk, a, b, ma, mb).unwrap();
                let steps = match t / 4 % 4 {
                    0 => vec![Step::DrainNext],
                    1 => {
                        let mut st = probe_all(&c.m, &c.s.ids, turn);
                        st.push(Step::DrainId);
                        st
                    }
                    2 => vec![Step::Next, Step::NextId, Step::HoldId],
                    _ => vec![Step::DrainId],
                };
                c.obs_query(s, steps)?;
            }
            if !matches!(cmd, Cmd::Group { .. }) && c.m.groups.iter().any(|&(_, a, b)| c.m.live.iter().any(|&h| c.m.ents[h].comps[a].is_some() && c.m.ents[h].comps[b].is_some())) {
                nt += 1;
            }
            Ok(())
        },
        &mut |c| {
            for (kk, a, b) in c.m.groups.clone() {
                for mm in 0..4 {
                    if c.m.live.len() > 300 && mm as usize != (a + b + kk) % 4 {
                        continue;
                    }
                    let s = shapes::group_shape(kk, a, b, mm & 1 == 1, mm & 2 == 2).unwrap();
                    c.obs_query(s, vec![Step::DrainNext])?;
                    let mut st = probe_all(&c.m, &c.s.ids, mm);
                    st.push(Step::DrainId);
                    c.obs_query(s, st)?;
                }
                // and the same answer as the tuple query
                let w = &c.s.w;
                let cap = c.m.live.len() + 4;
                let (g, t) = (shapes::group_shape(kk, a, b, false, false).unwrap(), pair_shape(a, b).unwrap());
                let get = |s: usize| {
                    guarded(|| {
                        let steps = [Step::DrainId];
                        let mut v = (shapes::all()[s].run)(w, &mut Req { steps: &steps, cap, writer: None });
                        v.sort_by_key(|e| if let Ev::Row(Some(i), _) = e { *i } else { usize::MAX });
                        v
                    })
                };
                let (x, y) = (get(g)?, get(t)?);
                if x != y {
                    return Err(format!("{} gives {x:?}, {} gives {y:?}", shapes::all()[g].name, shapes::all()[t].name));
                }
            }
            Ok(())
        },
    )?;
    Ok(report(c, nt >= 3))
}
pub fn c08(case: &Case, p: &Profile, keep: bool) -> Res {
    let mut nt = false;
    let c = history(
        case,
        p,
        keep,
        &mut |c, _, _| {
            let owning = c.m.groups.iter().filter(|g| g.0 < 2).count();
            if owning > 0 && c.due(2 * owning) {
                c.obs_packed()?;
            }
            Ok(())
        },
        &mut |c| {
            c.obs_packed()?;
            for &(kk, a, b) in &c.m.groups {
                let n = c.m.live.iter().filter(|&&h| c.m.ents[h].comps[a].is_some() && c.m.ents[h].comps[b].is_some()).count();
                nt |= kk < 2 && n > 0 && (c.m.count(a) > n || c.m.count(b) > n);
            }
            Ok(())
        },
    )?;
    Ok(report(c, nt))
}

// ------------------------------------------------------------------ C09

pub fn c09_profile() -> Profile {
    let mut p = base_profile(&[(k::GROUP, 10), (k::BAD, 16), (k::CREATE, 4), (k::ATTACH, 3), (k::DETACH, 1), (k::REGISTER, 2), (k::REMOVE, 1)], sh_group());
    p.max_ops = 24;
    p.groups = 4;
    p
}
fn snap(c: &Ctx, groups: &[(usize, usize, usize)]) -> Result<Snap, String> {
    let max = c.s.ids.iter().map(|i| i.get()).max().unwrap_or(0) + 3;
    snapshot(&c.s.w, max, groups)
}
pub fn c09(case: &Case, p: &Profile, keep: bool) -> Res {
    locks::sequential();
    types::reset();
    let mut c = Ctx::new(case, p, keep).map_err(|msg| Fail { msg, trace: vec![] })?;
    let groups = all_groups();
    let (mut acc, mut rej) = (0, 0);
    let r = (|| -> Result<(), String> {
        for op in &case.ops {
            let mut op = *op;
            if op.0 == k::BAD {
                op.1 = [8, 9, 10, 8][op.1 as usize % 4];
            }
            for cmd in decode(&op, &mut c.m, p, &c.s.ids) {
                let before = matches!(cmd, Cmd::Bad(_)).then(|| snap(&c, &groups)).transpose()?;
                c.step(&cmd)?;
                match &cmd {
                    Cmd::Bad(_) => {
                        rej += 1;
                        let after = snap(&c, &groups)?;
                        if before.as_ref() != Some(&after) {
                            return Err(format!("{}: the rejected call changed the world: {}", show(&cmd), diff(before.as_ref().unwrap(), &after)));
                        }
                    }
                    Cmd::Group { .. } | Cmd::Register { .. } => acc += 1,
                    _ => continue,
                }
                // a group query is answered exactly when the group was made
                let s = snap(&c, &groups)?;
                for (g, r) in &s.groups {
                    let made = c.m.groups.contains(g);
                    if r.is_some() != made {
                        return Err(format!(
                            "query of {} group {},{} is {}, the group was {}made",
                            ["full-owning", "partial-owning", "non-owning"][g.0], NAMES[g.1], NAMES[g.2],
                            if r.is_some() { "answered" } else { "refused" }, if made { "" } else { "not " }
                        ));
                    }
                }
                c.obs_groups()?;
            }
        }
        Ok(())
    })();
    if let Err(msg) = r {
        let f = Fail { msg, trace: c.trace.clone() };
        std::mem::forget(c);
        return Err(f);
    }
    Ok(report(c, acc > 0 && rej > 0))
}
pub fn diff(a: &Snap, b: &Snap) -> String {
    if a.exist != b.exist {
        return format!("existing ids {:?} became {:?}", a.exist, b.exist);
    }
    for t in 0..NT {
        if a.comps[t] != b.comps[t] {
            return format!("{} was {:?} and became {:?}", NAMES[t], a.comps[t], b.comps[t]);
        }
    }
    for (x, y) in a.groups.iter().zip(&b.groups) {
        if x != y {
            return format!("group {:?} answered {:?} and now {:?}", x.0, x.1, y.1);
        }
    }
    if a.res != b.res {
        return format!("resources {:?} became {:?}", a.res, b.res);
    }
    "(equal)".into()
}

// ------------------------------------------------------------------ C11

pub fn c11_profile() -> Profile {
    let mut p = base_profile(
        &[(k::BAD, 14), (k::CREATE, 6), (k::ATTACH, 4), (k::DETACH, 2), (k::REMOVE, 4), (k::GROUP, 3), (k::BATCH, 2), (k::REGISTER, 1), (k::RES, 2), (k::CHURN, 1)],
        sh_all(),
    );
    p.max_ops = 30;
    p.groups = 4;
    p
}
pub fn c11(case: &Case, p: &Profile, keep: bool) -> Res {
    locks::sequential();
    types::reset();
    let mut c = Ctx::new(case, p, keep).map_err(|msg| Fail { msg, trace: vec![] })?;
    let mut kinds = std::collections::HashSet::new();
    let r = (|| -> Result<(), String> {
        for op in &case.ops {
            for cmd in decode(op, &mut c.m, p, &c.s.ids) {
                let Cmd::Bad(b) = &cmd else {
                    c.step(&cmd)?;
                    continue;
                };
                kinds.insert(std::mem::discriminant(b));
                let groups = c.m.groups.clone();
                if matches!(b, Bad::BatchLen { .. } | Bad::BatchUnreg { .. }) {
                    c.step(&cmd)?;
                    c.obs_exist()?;
                    c.obs_components()?;
                    c.obs_groups()?;
                } else {
                    let before = snap(&c, &groups)?;
                    c.step(&cmd)?;
                    let after = snap(&c, &groups)?;
                    if before != after {
                        return Err(format!("{}: the rejected call changed the world: {}", show(&cmd), diff(&before, &after)));
                    }
                }
                // nothing is left locked
                let w = &c.s.w;
                let reg = c.m.reg;
                guarded(|| {
                    for t in 0..NT {
                        if reg[t] {
                            with_type!(t, T => drop(w.components_write::<T>()));
                        }
                    }
                    for r in 0..NR {
                        with_res!(r, R => drop(w.resource_write::<R>()));
                    }
                })
                .map_err(|e| format!("{}: afterwards exclusive access {e}", show(&cmd)))?;
                c.obs_packed()?;
            }
        }
        c.obs_exist()?;
        c.obs_components()?;
        c.obs_groups()
    })();
    if let Err(msg) = r {
        let f = Fail { msg, trace: c.trace.clone() };
        std::mem::forget(c);
        return Err(f);
    }
    let nt = kinds.len() >= 2 && !c.m.ents.is_empty();
    Ok(report(c, nt))
}

// ------------------------------------------------------------------ C13

pub fn c13_profile() -> Profile {
    let mut p = base_profile(
        &[
            (k::CREATE, 6), (k::ATTACH, 8), (k::DETACH, 5), (k::REMOVE, 5), (k::BATCH, 4), (k::RES, 4), (k::BAD, 5), (k::WRITE, 2), (k::GROUP, 2), (k::HANDLE, 2),
            (k::SWEEP, 2), (k::CHURN, 1), (k::SLICE, 1), (k::QWRITE, 1),
        ],
        sh_plain(),
    );
    p.groups = 4;
    p
}
fn undestroyed(c: &Ctx) -> Result<(), String> {
    let w = &c.s.w;
    if let Some(e) = types::errors().first() {
        return Err(e.clone());
    }
    let res: Vec<i64> = (0..NR).map(|r| with_res!(r, R => w.resource_read::<R>().is_some()) as i64).collect();
    for ty in 0..NT {
        if ty == 5 || ty == 6 {
            continue; // no destructor to count
        }
        let mut want = with_type!(ty, T => w.components_read::<T>().map(|g| g.count() as i64).unwrap_or(0));
        if ty == 0 {
            want += res[3];
        }
        let got = types::live(ty);
        if got != want {
            return Err(format!("{got} values of type {} are undestroyed, the world reports {want}", NAMES[ty]));
        }
    }
    for r in 0..3 {
        let got = types::live(8 + r);
        if got != res[r] {
            return Err(format!("{got} resources R{r} are undestroyed, the world reports {}", res[r]));
        }
    }
    if types::live(UNREG) != 0 {
        return Err(format!("{} values of the unregistered type are undestroyed", types::live(UNREG)));
    }
    Ok(())
}
pub fn c13(case: &Case, p: &Profile, keep: bool) -> Res {
    let (mut over, mut gone) = (0, 0);
    let mut c = history(
        case,
        p,
        keep,
        &mut |c, cmd, out| {
            match (cmd, out) {
                (Cmd::Attach { .. } | Cmd::Write { .. } | Cmd::ResReg { .. }, _) => over += 1,
                (Cmd::Remove { .. }, _) | (Cmd::Detach { .. }, Out::Val(Some(_))) => gone += 1,
                _ => {}
            }
            undestroyed(c).map_err(|e| format!("{}: {e}", show(cmd)))
        },
        &mut |_| Ok(()),
    )?;
    // dropping the world destroys the rest
    let w = take_world(&mut c);
    let r = guarded(move || drop(w));
    let mut err = r.err().map(|e| format!("dropping the world panics: {e}"));
    for i in 0..16 {
        if types::live(i) != 0 {
            err = Some(format!("{} values of type #{i} are undestroyed after the world was dropped", types::live(i)));
        }
    }
    if let Some(e) = types::errors().first() {
        err = Some(format!("dropping the world: {e}"));
    }
    if let Some(msg) = err {
        return Err(Fail { msg, trace: c.trace.clone() });
    }
    Ok(report(c, over > 0 && gone > 0))
}

// ------------------------------------------------------------------ C16

pub fn c16_profile() -> Profile {
    let mut p = base_profile(&[(k::CREATE, 10), (k::BATCH, 4), (k::ATTACH, 4), (k::DETACH, 2), (k::REMOVE, 2), (k::GROUP, 4), (k::OBS, 10), (k::SWEEP, 2)], sh_all());
    p.max_ops = 24;
    p.groups = 6;
    p
}
fn c16_probe(c: &mut Ctx, p: &Profile, raw: (u16, u16, u16, u16)) -> Result<bool, String> {
    let (x, y, z, u) = raw;
    let Some(si) = pick_shape(&c.m, p, x, false) else { return Ok(false) };
    let s = &shapes::all()[si];
    let w = &c.s.w;
    let cap = c.m.live.len() + 8;
    let run = |steps: &[Step]| guarded(|| (s.run)(w, &mut Req { steps, cap, writer: None })).map_err(|e| format!("{}: {steps:?} panics: {e}", s.name));
    // the reference sequence
    let reference: Vec<(usize, Vec<i64>)> = run(&[Step::DrainId])?
        .into_iter()
        .filter_map(|e| match e {
            Ev::Row(Some(i), v) => Some((i, v)),
            _ => None,
        })
        .collect();
    if reference.len() > cap - 2 {
        return Err(format!("{}: iteration does not end", s.name));
    }
    let again: Vec<Vec<i64>> = run(&[Step::DrainNext])?
        .into_iter()
        .filter_map(|e| match e {
            Ev::Row(None, v) => Some(v),
            _ => None,
        })
        .collect();
    if again.iter().ne(reference.iter().map(|r| &r.1)) {
        return Err(format!("{}: repeating the query gives {again:?} after {reference:?}", s.name));
    }
    // a mixed script
    let mut steps = vec![Step::Hint];
    let mut r = bits4(y, z, u, x);
    let n = 1 + (r % 12) as usize;
    for _ in 0..n {
        r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let q = (r >> 40) as usize;
        steps.push(match (r >> 33) % 12 {
            0..=2 => Step::Next,
            3..=5 => Step::NextId,
            6 | 7 => {
                if q % 4 == 0 || c.m.live.is_empty() {
                    Step::Probe(missing_id(&c.s.ids, &c.m, q as u16, true))
                } else {
                    Step::Probe(c.s.ids[c.m.live[q % c.m.live.len()]].get())
                }
            }
            8 => Step::Nth(q % 4),
            9 => Step::Take(q % 4),
            10 => Step::Skip(q % 3),
            _ => [Step::DrainNext, Step::DrainId][q % 2],
        });
        steps.push(Step::Hint);
    }
    let (how, k) = (USES[(r >> 20) as usize % USES.len()], (r >> 10) as usize % 5);
    match (r >> 56) % 24 {
        16..=20 => steps.push(Step::WithId(how, k)),
        21.. => steps.push(Step::Rest(how, k)),
        0..=4 => steps.extend([Step::DrainNext, Step::Hint, Step::NextId, Step::Next, Step::Hint, Step::NextId]),
        5..=9 => steps.extend([Step::DrainId, Step::Hint, Step::Next, Step::NextId, Step::Hint, Step::Next]),
        10 => steps.push(Step::Fold),
        11 | 12 => steps.push(Step::Count),
        13 | 14 => steps.push(Step::Last),
        _ => steps.push(Step::HoldNext),
    }
    let evs = run(&steps)?;
    let exact = matches!(s.node, Node::Comp { .. } | Node::Group { .. });
    let mut pos = 0usize;
    let total = reference.len();
    let mut i = 0;
    let err = |m: String| Err(format!("{} {steps:?}: {m}; the full sequence is {reference:?}", s.name));
    while i < evs.len() {
        match &evs[i] {
            Ev::Hint(lo, hi) => {
                let left = total - pos;
                let bad = *lo > left || hi.map_or(false, |h| h < left) || exact && (*lo != left || *hi != Some(left));
                if bad {
                    return err(format!("size hint ({lo}, {hi:?}) with {left} results to come"));
                }
            }
            Ev::Skipped(kk) => pos = if *kk == usize::MAX { total } else { pos + kk },
            Ev::Row(id, v) => {
                if pos >= total {
                    return err(format!("yields {v:?} after the end"));
                }
                let (wid, wv) = &reference[pos];
                if v != wv || id.map_or(false, |i| i != *wid) {
                    return err(format!("result {pos} is {id:?} {v:?}, expected {wid} {wv:?}"));
                }
                pos += 1;
            }
            Ev::End(_) => {
                if pos != total {
                    return err(format!("ends after {pos} results"));
                }
            }
            Ev::Probe(id, r) => {
                let want = reference.iter().find(|x| x.0 == *id).map(|x| &x.1);
                if want != r.as_ref() {
                    return err(format!("lookup of {id} gives {r:?}, expected {want:?}"));
                }
            }
            Ev::Count(n) => {
                if *n != total - pos {
                    return err(format!("count() is {n} with {} results to come", total - pos));
                }
                pos = total;
            }
            Ev::Last(l) => {
                let want = if pos < total { Some(&reference[total - 1].1) } else { None };
                if l.as_ref() != want {
                    return err(format!("last() is {l:?}, expected {want:?}"));
                }
            }
            Ev::LastId(id) => {
                let want = if pos < total { Some(reference[total - 1].0) } else { None };
                if id.is_some() && *id != want {
                    return err(format!("last() is of {id:?}, expected {want:?}"));
                }
            }
            Ev::Overflow => return err("does not end".into()),
            Ev::Wrote(..) => {}
        }
        i += 1;
    }
    let nm = s.name;
    c.note(&format!("script {nm} {steps:?}"));
    Ok(total >= 2)
}
fn bits4(a: u16, b: u16, c: u16, d: u16) -> u64 {
    (a as u64) | (b as u64) << 16 | (c as u64) << 32 | (d as u64) << 48
}
pub fn c16(case: &Case, p: &Profile, keep: bool) -> Res {
    // observations are the OBS operations themselves, so that their numbers shrink
    locks::sequential();
    types::reset();
    let mut c = Ctx::new(case, p, keep).map_err(|msg| Fail { msg, trace: vec![] })?;
    let mut nt = false;
    let r = (|| -> Result<(), String> {
        for op in &case.ops {
            if op.0 == k::OBS {
                nt |= c16_probe(&mut c, p, (op.1, op.2, op.3, op.4))?;
                continue;
            }
            for cmd in decode(op, &mut c.m, p, &c.s.ids) {
                c.step(&cmd)?;
            }
        }
        for i in 0..2u16 {
            nt |= c16_probe(&mut c, p, (case.cfg[4].wrapping_add(i * 97), case.cfg[5], case.cfg[4].rotate_left(5), i))?;
        }
        Ok(())
    })();
    if let Err(msg) = r {
        let f = Fail { msg, trace: c.trace.clone() };
        std::mem::forget(c);
        return Err(f);
    }
    Ok(report(c, nt))
}

// ------------------------------------------------------------------ C17

pub fn c17_profile() -> Profile {
    let mut p = base_profile(
        &[(k::RES, 14), (k::CREATE, 3), (k::ATTACH, 3), (k::DETACH, 2), (k::REMOVE, 2), (k::GROUP, 1), (k::WRITE, 2), (k::BATCH, 1), (k::REGISTER, 1), (k::QWRITE, 1), (k::SLICE, 1)],
        sh_plain(),
    );
    p.groups = 2;
    p
}
fn obs_resources(c: &Ctx) -> Result<(), String> {
    let w = &c.s.w;
    for r in 0..NR {
        let want = c.m.res[r].map(|v| rnorm(r, v));
        let got = guarded(|| {
            with_res!(r, R => {
                let a = w.resource_read::<R>().map(|g| g.get());
                let b = w.resource_write::<R>().map(|g| g.get());
                let c = w.resource_read::<R>().map(|g| g.get());
                [a, b, c]
            })
        })
        .map_err(|e| format!("reading resource {r} panics: {e}"))?;
        if got.iter().any(|g| *g != want) {
            return Err(format!("resource {r} reads {got:?}, expected {want:?}"));
        }
    }
    // formatting a guard shows the resource's own value
    macro_rules! fmt {
        ($r:expr, $t:ty, $d:expr, $s:expr) => {
            if let Some(v) = c.m.res[$r] {
                let (d, s): (String, String) = ($d(v), $s(v));
                let got = guarded(|| {
                    let x = {
                        let g = w.resource_read::<$t>().unwrap();
                        [format!("{:?}", g), format!("{}", g), format!("{:#?}", g), format!("{:>12}", g)]
                    };
                    let y = {
                        let g = w.resource_write::<$t>().unwrap();
                        [format!("{:?}", g), format!("{}", g), format!("{:#?}", g), format!("{:>12}", g)]
                    };
                    [x, y]
                })
                .map_err(|e| format!("formatting resource {} panics: {e}", $r))?;
                for g in got {
                    if !g[0].contains(&d) || !g[2].contains(&d) || g[1] != s || g[3] != format!("{:>12}", s) {
                        return Err(format!("resource {} with value {v} is formatted {g:?}", $r));
                    }
                }
            }
        };
    }
    fmt!(0, R0, |v| format!("R0<{v}>"), |v| format!("R0={v}"));
    fmt!(1, R1, |v| format!("R1<{v}>"), |v| format!("R1={v}"));
    fmt!(4, R3, |v| format!("R3<{v}>"), |v| format!("R3={v}"));
    fmt!(2, R2, |_| "R2".to_string(), |_| "R2".to_string());
    Ok(())
}
pub fn c17(case: &Case, p: &Profile, keep: bool) -> Res {
    let mut writes = 0;
    let c = history(
        case,
        p,
        keep,
        &mut |c, cmd, _| {
            if matches!(cmd, Cmd::ResReg { .. } | Cmd::ResWrite { .. }) {
                writes += 1;
                // the component of the same type as a resource is untouched
                c.obs_components()?;
            }
            obs_resources(c).map_err(|e| format!("after {}: {e}", show(cmd)))
        },
        &mut |c| obs_resources(c),
    )?;
    let nt = writes >= 2 && c.m.res.iter().flatten().count() >= 2;
    Ok(report(c, nt))
}

// ------------------------------------------------------------------ C18

pub fn c18_profile() -> Profile {
    let mut p = base_profile(
        &[(k::CREATE, 8), (k::ATTACH, 6), (k::DETACH, 5), (k::REMOVE, 4), (k::WRITE, 5), (k::SLICE, 4), (k::BATCH, 3), (k::GROUP, 3), (k::HANDLE, 1), (k::CHURN, 1), (k::SWEEP, 1), (k::REGISTER, 1)],
        sh_plain(),
    );
    p.groups = 4;
    p
}
fn view_coherent(c: &Ctx, ty: usize, x: u16) -> Result<(), String> {
    let w = &c.s.w;
    let mut ids: Vec<usize> = c.s.ids.iter().map(|i| i.get()).collect();
    ids.sort();
    ids.dedup();
    let max = ids.last().copied().unwrap_or(0);
    ids.extend([max + 1, max + 2, max + 64, 1 << 33, usize::MAX]);
    // ids that differ from issued ones in a high bit only
    let near = ids[x as usize % ids.len()];
    ids.extend([near | 1 << (20 + x % 44), max | 1 << 63, near | 1 << 32]);
    ids.sort();
    ids.dedup();
    let want: BTreeMap<usize, i64> = c.m.live.iter().filter_map(|&h| c.m.get(h, ty).map(|v| (c.s.ids[h].get(), v))).collect();
    let name = NAMES[ty];
    guarded(|| -> Result<(), String> {
        with_type!(ty, T => {
            macro_rules! same {
                ($g:expr, $what:expr) => {{
                    let g = &$g;
                    if g.count() != want.len() { return Err(format!("{} of {name}: count {} with {} components", $what, g.count(), want.len())) }
                    if g.is_empty() != want.is_empty() { return Err(format!("{} of {name}: is_empty {} with {} components", $what, g.is_empty(), want.len())) }
                    let mut d: Vec<i64> = g.data().iter().map(|x| x.get()).collect();
                    d.sort();
                    let mut v: Vec<i64> = want.values().copied().collect();
                    v.sort();
                    if d != v { return Err(format!("{} of {name}: data {d:?}, expected {v:?} (sorted)", $what)) }
                    for id in &ids {
                        let wv = want.get(id).copied();
                        if g.exist(nz(*id)) != wv.is_some() { return Err(format!("{} of {name}: exist({id}) is {}", $what, g.exist(nz(*id)))) }
                        let gv = g.get(nz(*id)).map(|x| x.get());
                        if gv != wv { return Err(format!("{} of {name}: get({id}) is {gv:?}, expected {wv:?}", $what)) }
                        if let Some(r) = g.get(nz(*id)) {
                            // the reference denotes an element of the slice
                            let at = (r as *const T as usize).wrapping_sub(g.data().as_ptr() as usize);
                            let size = std::mem::size_of::<T>();
                            if size > 0 && (at % size != 0 || at / size >= g.data().len()) {
                                return Err(format!("{} of {name}: get({id}) is not in the data slice", $what))
                            }
                            // SAFETY: just found
                            if !std::ptr::eq(unsafe { g.get_unchecked(nz(*id)) }, r) {
                                return Err(format!("{} of {name}: get_unchecked({id}) differs from get", $what))
                            }
                        }
                    }
                }};
            }
            {
                let g = w.components_read::<T>().ok_or("no view of a registered type")?;
                same!(g, "shared view");
            }
            {
                let mut g = w.components_write::<T>().ok_or("no exclusive view of a registered type")?;
                same!(g, "exclusive view");
                for id in &ids {
                    let wv = want.get(id).copied();
                    let gv = g.get_mut(nz(*id)).map(|x| x.get());
                    if gv != wv { return Err(format!("exclusive view of {name}: get_mut({id}) is {gv:?}, expected {wv:?}")) }
                }
                if g.data_mut().len() != want.len() { return Err(format!("exclusive view of {name}: data_mut has {} values", g.data_mut().len())) }
                let a: Vec<i64> = g.data().iter().map(|x| x.get()).collect();
                let b: Vec<i64> = g.data_mut().iter().map(|x| x.get()).collect();
                if a != b { return Err(format!("exclusive view of {name}: data {a:?}, data_mut {b:?}")) }
                // write through, see it at once through the same view, restore
                if let Some((&id, &old)) = want.iter().nth(x as usize % want.len().max(1)) {
                    let fresh = 1_000_000_000 + x as i64;
                    let nv = norm(ty, fresh);
                    g.get_mut(nz(id)).unwrap().set(fresh);
                    let seen = g.data().iter().map(|x| x.get()).filter(|v| *v == nv).count();
                    if g.get(nz(id)).map(|x| x.get()) != Some(nv) || (valued(ty) && seen != 1) {
                        return Err(format!("exclusive view of {name}: a value written to {id} is not visible through the view"))
                    }
                    for (o, v) in &want {
                        if *o != id && g.get(nz(*o)).map(|x| x.get()) != Some(*v) {
                            return Err(format!("exclusive view of {name}: writing {id} changed {o}"))
                        }
                    }
                    // ... and back through the data slice
                    if valued(ty) {
                        let pos = g.data().iter().position(|v| v.get() == nv).unwrap();
                        g.data_mut()[pos].set(old);
                        if g.get(nz(id)).map(|x| x.get()) != Some(old) {
                            return Err(format!("exclusive view of {name}: a value written to the slice at {pos} is not {id}'s"))
                        }
                    }
                }
            }
            // component guards
            for (&id, &v) in want.iter().take(12) {
                let a = w.entity_component_read::<T>(nz(id)).map(|g| g.get());
                let b = w.entity_component_write::<T>(nz(id)).map(|mut g| { let o = g.get(); g.set(o + 1_000_000_000); let n = g.get(); g.set(o); (o, n) });
                if a != Some(v) || b != Some((v, norm(ty, v + 1_000_000_000))) {
                    return Err(format!("component guards of {name} for {id} show {a:?} and {b:?}, expected {v}"))
                }
            }
            for id in ids.iter().filter(|i| !want.contains_key(i)).take(12) {
                if w.entity_component_read::<T>(nz(*id)).is_some() || w.entity_component_write::<T>(nz(*id)).is_some() {
                    return Err(format!("there is a component guard of {name} for {id}"))
                }
            }
            Ok(())
        })
    })
    .map_err(|e| format!("using a view of {name} panics: {e}"))?
}
pub fn c18(case: &Case, p: &Profile, keep: bool) -> Res {
    let mut turn = case.cfg[4];
    let mut nt = 0;
    let c = history(
        case,
        p,
        keep,
        &mut |c, cmd, _| {
            turn = turn.wrapping_mul(25173).wrapping_add(13849);
            let touched = match cmd {
                Cmd::Attach { ty, .. } | Cmd::Detach { ty, .. } | Cmd::Write { ty, .. } | Cmd::Slice { ty, .. } => Some(*ty),
                _ => None,
            };
            if matches!(cmd, Cmd::Write { .. } | Cmd::Slice { .. }) {
                nt += 1;
            }
            for ty in touched.into_iter().chain(std::iter::once((turn >> 5) as usize % NT)) {
                if c.m.reg[ty] {
                    view_coherent(c, ty, turn >> 3)?;
                }
            }
            Ok(())
        },
        &mut |c| {
            for ty in 0..NT {
                if c.m.reg[ty] {
                    view_coherent(c, ty, ty as u16)?;
                    c.order(ty)?;
                }
            }
            c.obs_components()
        },
    )?;
    Ok(report(c, nt >= 2))
}

// ------------------------------------------------------------------ C19

pub fn c19_profile() -> Profile {
    let mut p = base_profile(
        &[
            (k::CREATE, 8), (k::ATTACH, 8), (k::DETACH, 6), (k::REMOVE, 5), (k::BATCH, 4), (k::GROUP, 4), (k::QUERY, 6), (k::QWRITE, 5), (k::WRITE, 3), (k::SLICE, 2),
            (k::BAD, 4), (k::RES, 2), (k::HANDLE, 2), (k::SWEEP, 2), (k::CHURN, 2), (k::REGISTER, 1), (k::DEBUG, 1),
        ],
        sh_all(),
    );
    p.groups = 5;
    p.big = 700;
    p
}
/// Executes everything without comparing values: only memory errors count. The commands are
/// recorded, so that the same history can be run again with nothing but the library's calls.
pub fn c19(case: &Case, p: &Profile, keep: bool) -> Res {
    locks::sequential();
    types::reset();
    let mut c = Ctx::new(case, p, keep).map_err(|msg| Fail { msg, trace: vec![] })?;
    let mut cmds: Vec<Cmd> = c.m.groups.iter().map(|&(kind, a, b)| Cmd::Group { kind, a, b }).collect();
    let mut nt = 0;
    let bad = |c: &mut Ctx, what: &str| -> Result<(), Fail> {
        match types::errors().first() {
            Some(e) => Err(Fail { msg: format!("{what}: {e}"), trace: c.trace.clone() }),
            None => Ok(()),
        }
    };
    'all: for op in &case.ops {
        for cmd in decode(op, &mut c.m, p, &c.s.ids) {
            c.note(&show(&cmd));
            let before = c.s.ids.len();
            let out = c.s.exec(&cmd);
            bad(&mut c, &show(&cmd))?;
            cmds.push(cmd.clone());
            if matches!(cmd, Cmd::Query { .. } | Cmd::QWrite { .. } | Cmd::Remove { .. } | Cmd::Detach { .. }) {
                nt += 1;
            }
            // follow the model as long as it agrees; wrong answers are other properties'
            if let Err(_) = c.judge(&cmd, &out) {
                let _ = before;
                break 'all;
            }
        }
    }
    // drop at any point
    let w = take_world(&mut c);
    let _ = guarded(move || drop(w));
    bad(&mut c, "dropping the world")?;
    // again, with nothing else allocating: everything the library allocated is released
    let mask = registered_mask(&case.cfg, p);
    let fill = fillers(&case.cfg);
    if case.cfg[5] % 4 == 0 && !cmds.iter().any(|x| matches!(x, Cmd::Bad(_))) {
        let run = || {
            types::reset();
            let mut s = Sut::new(mask, fill);
            for x in &cmds {
                let _ = s.exec(x);
            }
            drop(s);
        };
        run();
        let b0 = crate::alloc::balance();
        run();
        let b1 = crate::alloc::balance();
        c.count("leak measurement");
        if b1 != b0 {
            return Err(Fail { msg: format!("{} bytes of storage are not released after the world was dropped", b1 - b0), trace: c.trace.clone() });
        }
    }
    Ok(report(c, nt >= 2))
}

// ------------------------------------------------------------------ C20

pub fn c20_profile() -> Profile {
    let mut p = base_profile(
        &[(k::CREATE, 9), (k::QWRITE, 12), (k::ATTACH, 5), (k::BATCH, 3), (k::DETACH, 3), (k::GROUP, 4), (k::REMOVE, 2), (k::SWEEP, 2), (k::REGISTER, 1), (k::CHURN, 1)],
        sh_all(),
    );
    p.groups = 5;
    p
}
pub fn c20(case: &Case, p: &Profile, keep: bool) -> Res {
    let mut nt = false;
    let c = history(
        case,
        p,
        keep,
        &mut |c, cmd, out| {
            if let (Cmd::QWrite { shape, .. }, Out::Evs(evs)) = (cmd, out) {
                c.obs_components().map_err(|e| format!("after {}: {e}", show(cmd)))?;
                let s = &shapes::all()[*shape];
                c.obs_query(*shape, vec![Step::DrainId])?;
                for &(ty, m) in &s.leaves {
                    if m {
                        c.order(ty)?;
                    }
                }
                c.obs_groups()?;
                c.obs_packed()?;
                nt |= evs.iter().filter(|e| matches!(e, Ev::Wrote(..))).count() >= 2;
            }
            Ok(())
        },
        &mut |c| {
            c.obs_exist()?;
            c.obs_components()
        },
    )?;
    Ok(report(c, nt))
}

pub fn all() -> Vec<Prop> {
    let p = |id, profile: fn() -> Profile, run: fn(&Case, &Profile, bool) -> Res, quick, thorough, rule| Prop { id, profile, run, quick, thorough, rule, threads: None, thread_profile: None };
    let mut v = vec![
        p("C01", c01_profile, c01, 250_000, 10_000_000, "a generated history of creations, batches and removals (with components and groups present), the existence of every issued id and of never-issued ids asked after each; non-trivial when ids are removed and at least one id was recycled or two were removed"),
        p("C02", c02_profile, c02, 400_000, 16_000_000, "a generated allocation history in one world or two used in turn; non-trivial when ids are recycled and batches are created (or two ids recycled)"),
        p("C03", c03_profile, c03, 150_000, 6_000_000, "a generated history of attach/detach/write/remove; every component of every entity compared after each step, by every access path in turn; non-trivial when something is attached or overwritten and something is detached"),
        p("C04", c04_profile, c04, 150_000, 6_000_000, "a generated history ending in removals with groups present; everything compared after each removal; non-trivial when an entity is removed while groups and other entities exist"),
        p("C05", c05_profile, run_queries, 250_000, 10_000_000, "a generated world and generated join queries of the shape table in every iteration mode; non-trivial when some query matches some but not all living entities"),
        p("C06", c06_profile, run_queries, 250_000, 10_000_000, "a generated world and generated exclusion queries of the shape table in every iteration mode; non-trivial when some query matches some but not all living entities"),
        p("C07", c07_profile, c07, 100_000, 4_000_000, "a generated history with up to many groups, each existing group queried after each step; non-trivial when at least three steps ran with a non-empty group"),
        p("C08", c08_profile, c08, 250_000, 10_000_000, "a generated history with owning groups, storage orders compared after each step; non-trivial when at the end an owning group has members and one of its storages also has others"),
        p("C09", c09_profile, c09, 25_000, 1_000_000, "a generated sequence of admissible and inadmissible group creations, the answers of all 36 generated group queries compared after each; non-trivial when groups were accepted and refused"),
        p("C11", c11_profile, c11, 250_000, 10_000_000, "a generated history with calls that must be rejected, the complete observable state compared around each; non-trivial when at least two kinds of rejected calls were made in a world with entities"),
        p("C13", c13_profile, c13, 300_000, 12_000_000, "a generated history with destructor accounting after each step and after dropping the world; non-trivial when values were attached or replaced and values were removed"),
        p("C16", c16_profile, c16, 400_000, 16_000_000, "a generated world, query and script of mixed stepping, lookups and adaptors, compared with the query's own full sequence; non-trivial when a scripted query has at least two results"),
        p("C17", c17_profile, c17, 250_000, 10_000_000, "a generated history of resource and entity operations, all resources read and formatted after each; non-trivial when at least two resource writes happened and two resources exist"),
        p("C18", c18_profile, c18, 150_000, 6_000_000, "a generated history with views of touched types checked (count, emptiness, membership, lookup, slice, writes) after each step; non-trivial when at least two writes went through views"),
        p("C19", c19_profile, c19, 60_000, 2_400_000, "a generated history of every kind of call under AddressSanitizer with tracked values; non-trivial when at least two queries or removals ran"),
        p("C20", c20_profile, c20, 250_000, 10_000_000, "a generated world and generated writes through query results; everything compared afterwards; non-trivial when one query wrote at least two values"),
    ];
    v.extend(crate::diffs::all());
    v.extend(crate::more::all());
    v.extend(crate::typed::all());
    v.extend(crate::conc::all());
    v.sort_by_key(|p| p.id);
    v
}

fn take_world(c: &mut Ctx) -> xecs::World {
    std::mem::replace(&mut c.s.w, xecs::World::new())
}
