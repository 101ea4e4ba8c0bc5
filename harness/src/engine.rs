//! Histories: raw generated operations, their meaning in a reference model, their
//! execution against the library, and the comparison of the two.
use crate::locks::WouldBlock;
use crate::row::{Ev, Req, Step, USES};
use crate::shapes::{self, Node, Shape, GROUP_PAIRS};
use crate::types::*;
use crate::{with_res, with_type};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::num::NonZeroUsize;
use std::panic::{catch_unwind, AssertUnwindSafe};
use xecs::EntityId;
use xecs::group::{full_owning, non_owning, partial_owning};
use xecs::query::QueryIterator;
use xecs::World;

// ------------------------------------------------------------------ raw cases

/// One generated operation: a kind and four free numbers, given meaning by `decode`.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct RawOp(pub u8, pub u16, pub u16, pub u16, pub u16);

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, Default)]
pub struct Case {
    pub cfg: [u16; 6],
    pub ops: Vec<RawOp>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub threads: Vec<Vec<RawOp>>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub sched: Vec<u8>,
}

pub mod k {
    pub const CREATE: u8 = 0;
    pub const ATTACH: u8 = 1;
    pub const DETACH: u8 = 2;
    pub const REMOVE: u8 = 3;
    pub const GROUP: u8 = 4;
    pub const BATCH: u8 = 5;
    pub const REGISTER: u8 = 6;
    pub const WRITE: u8 = 7;
    pub const QUERY: u8 = 8;
    pub const QWRITE: u8 = 9;
    pub const CHURN: u8 = 10;
    pub const BAD: u8 = 11;
    pub const RES: u8 = 12;
    pub const DEBUG: u8 = 13;
    pub const SWEEP: u8 = 14;
    pub const HANDLE: u8 = 15;
    pub const SLICE: u8 = 16;
    pub const OBS: u8 = 17;
    /// many entities at once; given its own small weight in every profile
    pub const FILL: u8 = 18;
    pub const ALL: &[u8] = &[CREATE, ATTACH, DETACH, REMOVE, GROUP, BATCH, REGISTER, WRITE, QUERY, QWRITE, CHURN, BAD, RES, DEBUG, SWEEP, HANDLE, SLICE];
}

// ------------------------------------------------------------------ resolved commands

pub type H = usize;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Bad {
    AttachMissing { id: usize, ty: usize, v: i64 },
    DetachMissing { id: usize, ty: usize },
    RemoveMissing { id: usize },
    AttachUnreg { h: H, ty: usize, v: i64, via: u8 },
    DetachUnreg { h: H, ty: usize, via: u8 },
    BatchUnreg { n: usize, ty: usize, v: i64, pre: Option<(usize, i64)> },
    BatchLen { n: usize, ty: usize, len: usize, v: i64, pre: Option<(usize, i64)> },
    Register { ty: usize },
    Group { kind: usize, a: usize, b: usize },
    Query { shape: usize },
    QueryUnreg { form: u8 },
    ReadUnreg { id: usize },
}

/// A call by id made while a builder of new entities is held, before its column `at`.
/// Codes: 0 read, 1 detach, 2 write, 3 attach, 4 ask whether the entity exists.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Mid {
    pub at: usize,
    pub h: H,
    pub code: u8,
    pub ty: usize,
    pub v: i64,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Cmd {
    Create { h: H, cols: Vec<(usize, i64)>, via: u8, mid: Vec<Mid> },
    Batch { h: H, n: usize, cols: Vec<(usize, i64)>, mid: Vec<Mid> },
    Attach { h: H, ty: usize, v: i64, via: u8 },
    Detach { h: H, ty: usize, via: u8 },
    Remove { h: H, via: u8 },
    Group { kind: usize, a: usize, b: usize },
    Register { ty: usize },
    Write { h: H, ty: usize, v: i64, path: u8 },
    /// overwrite through the data slice of an exclusive storage view
    Slice { ty: usize, mask: u64, base: i64 },
    Query { shape: usize, steps: Vec<Step> },
    QWrite { shape: usize, steps: Vec<Step>, mask: u64, base: i64 },
    Bad(Bad),
    ResReg { r: usize, v: i64 },
    ResWrite { r: usize, v: i64 },
    ResRead { r: usize },
    Debug,
    /// a handle, used for several calls
    Handle { h: H, calls: Vec<(u8, usize, i64)> },
    /// no call by itself: the property's observations are made here
    Observe,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Unit,
    Id(usize),
    Range(usize, usize),
    Val(Option<i64>),
    Flag(bool),
    Vals(Vec<Option<i64>>),
    Evs(Vec<Ev>),
    Text(String),
    Panic(String),
}

// ------------------------------------------------------------------ model

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Ent {
    pub alive: bool,
    pub comps: [Option<i64>; NT],
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub reg: [bool; NT],
    pub ents: Vec<Ent>,
    pub live: Vec<H>,
    pub groups: Vec<(usize, usize, usize)>,
    pub res: [Option<i64>; NR],
    pub next: i64,
}

impl Model {
    pub fn val(&mut self) -> i64 {
        self.vals(1)
    }
    pub fn vals(&mut self, n: usize) -> i64 {
        self.next += n as i64;
        self.next - n as i64 + 1
    }
    pub fn owned(&self, ty: usize) -> bool {
        self.groups.iter().any(|&(kk, a, b)| kk == 0 && (a == ty || b == ty) || kk == 1 && a == ty)
    }
    pub fn admissible(&self, kind: usize, a: usize, b: usize) -> bool {
        let ok = |t: usize| t < NT && self.reg[t];
        ok(a)
            && ok(b)
            && !self.groups.contains(&(kind, a, b))
            && match kind {
                0 => !self.owned(a) && !self.owned(b),
                1 => !self.owned(a),
                _ => true,
            }
    }
    pub fn get(&self, h: H, ty: usize) -> Option<i64> {
        self.ents[h].comps[ty].map(|v| norm(ty, v))
    }
    pub fn count(&self, ty: usize) -> usize {
        self.live.iter().filter(|&&h| self.ents[h].comps[ty].is_some()).count()
    }
    pub fn kill(&mut self, h: H) {
        self.ents[h] = Ent::default();
        if let Ok(i) = self.live.binary_search(&h) {
            self.live.remove(i);
        }
    }
    pub fn matches(&self, n: &Node, e: &Ent) -> Option<Vec<i64>> {
        match n {
            Node::Comp { ty, .. } => e.comps.get(*ty).copied().flatten().map(|v| vec![norm(*ty, v)]),
            Node::Tuple(v) => {
                let mut out = Vec::new();
                for x in v {
                    out.extend(self.matches(x, e)?)
                }
                Some(out)
            }
            Node::Not { pos, neg } => {
                if self.matches(neg, e).is_some() {
                    None
                } else {
                    self.matches(pos, e)
                }
            }
            Node::Group { a, b, .. } => match (e.comps[*a], e.comps[*b]) {
                (Some(x), Some(y)) => Some(vec![norm(*a, x), norm(*b, y)]),
                _ => None,
            },
        }
    }
    /// The expected result set of a query.
    pub fn eval(&self, n: &Node) -> Vec<(H, Vec<i64>)> {
        self.live.iter().filter_map(|&h| self.matches(n, &self.ents[h]).map(|v| (h, v))).collect()
    }
    pub fn answerable(&self, s: &Shape) -> bool {
        s.locks.iter().all(|&(t, _)| self.reg[t]) && s.groups.iter().all(|g| self.groups.contains(g))
    }
    /// New entities; returns the results of the calls made in between.
    pub fn build(&mut self, h: H, n: usize, cols: &[(usize, i64)], mid: &[Mid]) -> Vec<Option<i64>> {
        debug_assert_eq!(h, self.ents.len());
        let mut out = vec![];
        for i in 0..n {
            self.ents.push(Ent { alive: true, comps: [None; NT] });
            self.live.push(h + i);
        }
        for (at, &(t, v)) in cols.iter().enumerate() {
            for x in mid.iter().filter(|x| x.at == at) {
                out.push(self.mid(x));
            }
            for i in 0..n {
                self.ents[h + i].comps[t] = Some(v + i as i64);
            }
        }
        for x in mid.iter().filter(|x| x.at >= cols.len()) {
            out.push(self.mid(x));
        }
        out
    }
    /// One call by id and its result.
    pub fn mid(&mut self, x: &Mid) -> Option<i64> {
        let e = &mut self.ents[x.h];
        let old = e.comps[x.ty].map(|v| norm(x.ty, v));
        match x.code {
            0 => old,
            1 => {
                e.comps[x.ty] = None;
                old
            }
            2 => {
                if old.is_some() {
                    e.comps[x.ty] = Some(x.v);
                }
                old
            }
            3 => {
                e.comps[x.ty] = Some(x.v);
                None
            }
            _ => Some(e.alive as i64),
        }
    }
    /// Effects of a command that is expected to succeed (queries with writes are applied
    /// from their events instead).
    pub fn apply(&mut self, c: &Cmd) {
        match c {
            Cmd::Create { h, cols, mid, .. } => {
                self.build(*h, 1, cols, mid);
            }
            Cmd::Batch { h, n, cols, mid } => {
                self.build(*h, *n, cols, mid);
            }
            Cmd::Attach { h, ty, v, .. } => self.ents[*h].comps[*ty] = Some(*v),
            Cmd::Detach { h, ty, .. } => self.ents[*h].comps[*ty] = None,
            Cmd::Remove { h, .. } => self.kill(*h),
            Cmd::Group { kind, a, b } => self.groups.push((*kind, *a, *b)),
            Cmd::Register { ty } => self.reg[*ty] = true,
            Cmd::Write { h, ty, v, .. } => {
                if let Some(x) = self.ents[*h].comps[*ty].as_mut() {
                    *x = *v
                }
            }
            Cmd::ResReg { r, v } => self.res[*r] = Some(*v),
            Cmd::ResWrite { r, v } => {
                if self.res[*r].is_some() && *r != 2 {
                    self.res[*r] = Some(*v)
                }
            }
            Cmd::Handle { h, calls } => {
                for &(c, t, v) in calls {
                    match c % 4 {
                        1 => self.ents[*h].comps[t] = None,
                        2 => {
                            if let Some(x) = self.ents[*h].comps[t].as_mut() {
                                *x = v
                            }
                        }
                        3 => self.ents[*h].comps[t] = Some(v),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ decoding

#[derive(Clone)]
pub struct Profile {
    pub weights: &'static [(u8, u32)],
    pub max_ops: usize,
    /// shapes for QUERY and QWRITE
    pub shapes: &'static [usize],
    /// largest batch
    pub big: usize,
    /// how likely worlds start with groups (of 8)
    pub groups: u16,
    /// every type registered from the start?
    pub all_reg: bool,
    /// one operation in about so many is a FILL; 0: none
    pub fill: u32,
    /// kinds that each make up about one operation in a hundred, unless they have a weight
    pub extra: &'static [u8],
}

fn pick<T: Copy>(v: &[T], sel: u16) -> Option<T> {
    if v.is_empty() {
        return None;
    }
    let n = v.len();
    Some(if sel & 0x8000 != 0 { v[n - 1 - (sel & 0x7fff) as usize % n.min(3)] } else { v[sel as usize % n] })
}

pub fn registered_mask(cfg: &[u16; 6], p: &Profile) -> u16 {
    if p.all_reg || cfg[0] % 4 != 3 {
        ALL
    } else {
        (cfg[0] >> 4) & ALL
    }
}
pub fn fillers(cfg: &[u16; 6]) -> usize {
    match cfg[1] / 5 % 40 {
        7 => 20 + (cfg[1] / 200) as usize % 120,
        _ => (cfg[1] % 5) as usize,
    }
}
/// Groups made before any data exists.
pub fn initial_groups(cfg: &[u16; 6], p: &Profile, m: &Model) -> Vec<Cmd> {
    let mut m = m.clone();
    let mut out = vec![];
    if 7 - cfg[2] % 8 < p.groups {
        // now and then nearly all that a world can have
        let n = if cfg[2] / 32 % 12 == 11 { 40 } else { 1 + (cfg[2] / 8) % 4 };
        for i in 0..n {
            let raw = cfg[3].rotate_left(i as u32 * 5).wrapping_add(i / 16 * 7919);
            if let Some(c) = pick_group(&m, raw % 3, raw / 3) {
                m.apply(&c);
                out.push(c);
            }
        }
    }
    out
}
fn pick_group(m: &Model, kind: u16, from: u16) -> Option<Cmd> {
    let n = GROUP_PAIRS.len();
    for i in 0..n {
        let (a, b) = GROUP_PAIRS[(from as usize + i) % n];
        if m.admissible(kind as usize, a, b) {
            return Some(Cmd::Group { kind: kind as usize, a, b });
        }
    }
    None
}
fn reg_ty(m: &Model, x: u16) -> Option<usize> {
    (0..NT).map(|i| (x as usize + i) % NT).find(|&t| m.reg[t])
}
fn has_ty(m: &Model, h: H, x: u16) -> Option<usize> {
    (0..NT).map(|i| (x as usize + i) % NT).find(|&t| m.ents[h].comps[t].is_some())
}
fn bits(a: u16, b: u16, c: u16, d: u16) -> u64 {
    (a as u64) | (b as u64) << 16 | (c as u64) << 32 | (d as u64) << 48
}

/// Concrete id that denotes no entity, derived from the history.
pub fn missing_id(sut_ids: &[EntityId], m: &Model, x: u16, far: bool) -> usize {
    let live: std::collections::HashSet<usize> = m.live.iter().map(|&h| sut_ids[h].get()).collect();
    let max = sut_ids.iter().map(|i| i.get()).max().unwrap_or(0);
    if x % 3 != 0 {
        // a removed id
        let dead: Vec<usize> = (1..=max).filter(|i| !live.contains(i)).collect();
        if let Some(i) = pick(&dead, x / 3) {
            return i;
        }
    }
    // an id that differs from a living one in a high bit only
    if far && x % 3 == 0 && x / 3 % 8 >= 4 {
        if let Some(h) = pick(&m.live, x / 24) {
            return sut_ids[h].get() | 1 << (63 - (x as usize / 24) % 44);
        }
    }
    match (x / 3) % 4 {
        0 => max + 1,
        1 => max + 2 + (x as usize / 12) % 300,
        2 if far => usize::MAX - (x as usize / 12) % 3,
        2 => max + 40_000,
        _ => (1 << 20) + max,
    }
}

pub fn decode(op: &RawOp, m: &mut Model, p: &Profile, ids: &[EntityId]) -> Vec<Cmd> {
    let RawOp(kind, a, b, c, d) = *op;
    let one = |c: Option<Cmd>| c.into_iter().collect::<Vec<_>>();
    match kind {
        k::CREATE => {
            let mut cols = vec![];
            for i in 0..NT {
                let t = (i + b as usize) % NT;
                if a >> t & 1 == 1 && m.reg[t] {
                    cols.push((t, 0));
                }
            }
            // sometimes the same type twice in one builder
            if c % 8 == 7 && !cols.is_empty() {
                cols.push(cols[0]);
            }
            for x in cols.iter_mut() {
                x.1 = m.val()
            }
            let (h, mut via) = (m.ents.len(), (c / 8 % 3) as u8);
            let mut mid = vec![];
            if d % 6 == 5 {
                via = 3;
                mid = decode_mids(m, h, 1, &cols, d / 6, c);
            }
            vec![Cmd::Create { h, cols, via, mid }]
        }
        k::BATCH => {
            let q = a as usize / 32;
            let n = match a % 32 {
                0..=19 => q % 6,
                20..=27 => q % 24,
                28..=30 => q % 100,
                _ => q % p.big.max(1),
            };
            let mut cols = vec![];
            for i in 0..(b % 5) {
                let t = (b as usize / 5 / NT.pow(i as u32)) % NT;
                if m.reg[t] {
                    cols.push((t, m.vals(n)));
                }
            }
            let h = m.ents.len();
            let mid = if d % 4 == 3 { decode_mids(m, h, n, &cols, d / 4, c) } else { vec![] };
            vec![Cmd::Batch { h, n, cols, mid }]
        }
        k::ATTACH => one(pick(&m.live, a).and_then(|h| {
            let ty = reg_ty(m, b)?;
            Some(Cmd::Attach { h, ty, v: m.val(), via: (c % 2) as u8 })
        })),
        k::DETACH => one(pick(&m.live, a).and_then(|h| {
            let ty = if c / 2 % 4 != 0 { has_ty(m, h, b).or(reg_ty(m, b))? } else { reg_ty(m, b)? };
            Some(Cmd::Detach { h, ty, via: (c % 2) as u8 })
        })),
        k::REMOVE => one(pick(&m.live, a).map(|h| Cmd::Remove { h, via: (b % 2) as u8 })),
        k::GROUP => one(pick_group(m, a % 3, b)),
        k::REGISTER => one((0..NT).map(|i| (a as usize + i) % NT).find(|&t| !m.reg[t]).map(|ty| Cmd::Register { ty })),
        k::WRITE => one(pick(&m.live, a).and_then(|h| {
            let ty = if c / 8 % 4 != 0 { has_ty(m, h, b).or(reg_ty(m, b))? } else { reg_ty(m, b)? };
            Some(Cmd::Write { h, ty, v: m.val(), path: (c % 6) as u8 })
        })),
        k::SLICE => one(reg_ty(m, a).map(|ty| {
            let n = m.count(ty);
            Cmd::Slice { ty, mask: bits(b, c, d, a), base: m.vals(n) }
        })),
        k::QUERY => one(pick_shape(m, p, a, false).map(|shape| {
            let steps = plain_steps(m, ids, b, c);
            Cmd::Query { shape, steps }
        })),
        k::QWRITE => one(pick_shape(m, p, a, true).map(|shape| {
            let max = ids.iter().map(|i| i.get()).max().unwrap_or(0);
            let n = (max + 2) * 16 + m.live.len() * 10 + 64;
            let steps = match b % 6 {
                0 => [vec![Step::DrainId], vec![Step::WithId(USES[c as usize / 2 % 3], 0)]][c as usize % 2].clone(),
                1 => vec![Step::DrainNext],
                2 => vec![Step::HoldId],
                3 => vec![Step::HoldNext],
                4 => probe_steps(m, ids, c, 4),
                _ => {
                    let mut s = vec![Step::Next, Step::NextId, Step::Next];
                    s.extend(probe_steps(m, ids, c, 1));
                    s.push(if c % 2 == 0 { Step::DrainId } else { Step::DrainNext });
                    s
                }
            };
            let mask = if d % 3 == 0 { u64::MAX } else { bits(d, c, b, a) };
            Cmd::QWrite { shape, steps, mask, base: m.vals(n) }
        })),
        k::CHURN => {
            // remove several entities
            let n = (a % 8) as usize + 1;
            let mut live = m.live.clone();
            let mut out = vec![];
            let mut x = b;
            for i in 0..n {
                if live.is_empty() {
                    break;
                }
                let j = match c % 3 {
                    0 => 0,
                    1 => live.len() - 1,
                    _ => x as usize % live.len(),
                };
                x = x.wrapping_mul(25173).wrapping_add(13849);
                out.push(Cmd::Remove { h: live.remove(j), via: ((d >> i) & 1) as u8 });
            }
            out
        }
        k::FILL => {
            let q = a as usize / 8;
            if a % 8 == 0 && d % 4 == 3 {
                // one thing over and over
                let Some(ty) = reg_ty(m, b) else { return vec![] };
                let old = pick(&m.live, c);
                let mut out = vec![];
                let mut h = m.ents.len();
                for _ in 0..q % 300 {
                    match old {
                        Some(h) if d / 4 % 2 == 0 => {
                            out.push(Cmd::Attach { h, ty, v: m.val(), via: 0 });
                            out.push(Cmd::Detach { h, ty, via: 0 });
                        }
                        _ => {
                            out.push(Cmd::Create { h, cols: vec![(ty, m.val())], via: 0, mid: vec![] });
                            out.push(Cmd::Remove { h, via: 0 });
                            h += 1;
                        }
                    }
                }
                return out;
            }
            // more than fits 16 bits, rarely
            let huge = a % 64 == 63;
            let n = match a % 8 {
                0..=3 => q % 300,
                4..=6 => q % 1300,
                7 if huge => 66_000 + q % 3000,
                _ => q % 5000,
            };
            let parts = 1 + b as usize % 6;
            let mut out = vec![];
            let mut h = m.ents.len();
            for i in 0..parts {
                let size = match (huge, i) {
                    (true, 0) => 65_600,
                    (true, _) => (n - 65_600) / (parts - 1),
                    (_, 0) => n / parts + n % parts,
                    _ => n / parts,
                };
                let types = if huge && i == 0 && d % 16 < 8 { 0xff } else { c.rotate_left(i as u32 * 5) };
                let mut cols = vec![];
                for t in 0..NT {
                    let t = (t + (b as usize / 6)) % NT;
                    if types >> t & 1 == 1 && m.reg[t] {
                        cols.push((t, m.vals(size)));
                    }
                }
                out.push(Cmd::Batch { h, n: size, cols, mid: vec![] });
                h += size;
            }
            // holes: checks look at everything after each call, so their number is limited
            let all: Vec<H> = m.live.iter().copied().chain(m.ents.len()..h).collect();
            let most = 8 + 30_000 / (n + 1).max(100);
            let e = d as usize / 8;
            let (from, by) = match d % 8 {
                0 | 1 => (all.len(), 1),
                2 | 3 => (e % 16, 2 + e / 16 % 9),
                4 | 5 => (e % (all.len() + 1), 1),
                6 => (all.len().saturating_sub(most), 1),
                _ => (0, 1),
            };
            let gone = all.iter().copied().skip(from).step_by(by).take(most);
            let ty = reg_ty(m, b);
            for (i, h) in gone.enumerate() {
                match ty {
                    Some(ty) if d / 64 % 4 == 1 || d / 64 % 4 == 2 && i % 3 == 0 => out.push(Cmd::Detach { h, ty, via: 0 }),
                    Some(ty) if d / 64 % 4 == 3 && i % 3 == 0 => out.push(Cmd::Attach { h, ty, v: m.val(), via: 0 }),
                    _ => out.push(Cmd::Remove { h, via: 0 }),
                }
            }
            out
        }
        k::SWEEP => {
            // one operation on every live entity (bounded)
            let t = match reg_ty(m, b) {
                Some(t) => t,
                None => return vec![],
            };
            let hs: Vec<H> = m.live.iter().copied().filter(|h| (h + c as usize) % (1 + d as usize % 4) == 0).take(64).collect();
            hs.into_iter()
                .map(|h| match a % 3 {
                    0 => Cmd::Attach { h, ty: t, v: m.val(), via: 0 },
                    1 => Cmd::Detach { h, ty: t, via: 0 },
                    _ => Cmd::Remove { h, via: 0 },
                })
                .collect()
        }
        k::HANDLE => one(pick(&m.live, a).map(|h| {
            let mut calls = vec![];
            for i in 0..1 + b % 5 {
                let x = (c.rotate_left(i as u32 * 3)).wrapping_add(d.rotate_right(i as u32 * 4));
                if let Some(t) = reg_ty(m, x / 4) {
                    // 4 and up: by id while the handle is held
                    let by_id = if (b / 5) >> i & 3 == 3 { 4 } else { 0 };
                    calls.push(((x % 4) as u8 + by_id, t, m.val()))
                }
            }
            // attaching consumes and returns the handle, so it may come anywhere
            Cmd::Handle { h, calls }
        })),
        k::RES => {
            let r = (b % NR as u16) as usize;
            vec![match a % 4 {
                0 | 1 => Cmd::ResReg { r, v: m.val() },
                2 => Cmd::ResWrite { r, v: m.val() },
                _ => Cmd::ResRead { r },
            }]
        }
        k::DEBUG => vec![Cmd::Debug],
        k::OBS => vec![Cmd::Observe],
        k::BAD => one(decode_bad(a, b, c, d, m, ids).map(Cmd::Bad)),
        _ => vec![],
    }
}

/// Calls made while a builder is held, mostly on the entities being built.
fn decode_mids(m: &mut Model, h: H, n: usize, cols: &[(usize, i64)], x: u16, y: u16) -> Vec<Mid> {
    let mut out = vec![];
    let mut s = (x as u32) << 16 | y as u32;
    for _ in 0..1 + x % 4 {
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        let r = (s >> 8) as usize;
        let who = match r % 8 {
            0 if !m.live.is_empty() => m.live[r / 8 % m.live.len()],
            _ if n == 0 => continue,
            1 => h + n - 1,
            2..=4 => h + r / 8 % n.min(4),
            _ => h + r / 8 % n,
        };
        let q = r / 64;
        let Some(ty) = (if q % 3 != 0 && !cols.is_empty() { Some(cols[q / 3 % cols.len()].0) } else { reg_ty(m, q as u16) }) else { continue };
        let z = r / 1024;
        let code = [3, 3, 3, 1, 1, 0, 2, 4][z % 8];
        let v = m.val();
        out.push(Mid { at: z / 8 % (cols.len() + 1), h: who, code, ty, v });
        // often an attachment is taken back
        if code == 3 && z / 64 % 3 == 0 {
            out.push(Mid { at: (z / 8 % (cols.len() + 1)).min(cols.len()), h: who, code: 1, ty, v: 0 });
        }
    }
    out
}

fn decode_bad(a: u16, b: u16, c: u16, d: u16, m: &mut Model, ids: &[EntityId]) -> Option<Bad> {
    let unreg = |m: &Model, x: u16| (0..NT).map(|i| (x as usize + i) % NT).find(|&t| !m.reg[t]).unwrap_or(UNREG);
    let n = (d % 7) as usize;
    let pre = |m: &mut Model| if c % 2 == 1 { reg_ty(m, c / 2).map(|t| (t, m.vals(n))) } else { None };
    Some(match a % 13 {
        0 | 12 => Bad::AttachMissing { id: missing_id(ids, m, b, false), ty: reg_ty(m, c)?, v: m.val() },
        1 => Bad::DetachMissing { id: missing_id(ids, m, b, false), ty: reg_ty(m, c)? },
        2 => Bad::RemoveMissing { id: missing_id(ids, m, b, false) },
        3 => Bad::AttachUnreg { h: pick(&m.live, b)?, ty: unreg(m, c), v: m.val(), via: (d % 2) as u8 },
        4 => Bad::DetachUnreg { h: pick(&m.live, b)?, ty: unreg(m, c), via: (d % 2) as u8 },
        5 => {
            let pre = pre(m);
            Bad::BatchUnreg { n, ty: unreg(m, b), v: m.vals(n), pre }
        }
        6 => {
            let len = match b % 4 {
                0 => n + 1,
                1 if n > 0 => n - 1,
                2 if n > 0 => 0,
                _ => n + 1 + (b as usize / 4) % 5,
            };
            let pre = pre(m);
            Bad::BatchLen { n, ty: reg_ty(m, b / 16)?, len, v: m.vals(len), pre }
        }
        7 => Bad::Register { ty: reg_ty(m, b)? },
        8 | 9 => {
            // an inadmissible group: search for one
            let np = GROUP_PAIRS.len();
            let mut found = None;
            for i in 0..np * 3 {
                let x = (b as usize + i * 7) % (np * 3);
                let (aa, bb) = GROUP_PAIRS[x / 3];
                if !m.admissible(x % 3, aa, bb) {
                    found = Some(Bad::Group { kind: x % 3, a: aa, b: bb });
                    break;
                }
            }
            match found {
                Some(g) if c % 5 != 0 => g,
                // an owning group of one component twice
                _ if c / 5 % 4 == 3 => {
                    let t = reg_ty(m, d)?;
                    Bad::Group { kind: (b % 2) as usize, a: t, b: t }
                }
                _ => Bad::Group { kind: (b % 3) as usize, a: if c % 2 == 0 { (d % NT as u16) as usize } else { UNREG }, b: if c % 2 == 0 { UNREG } else { (d % NT as u16) as usize } },
            }
        }
        10 => {
            let all = shapes::all();
            let i0 = b as usize;
            let i = (0..all.len()).map(|i| (i0 + i * 5) % all.len()).find(|&i| !m.answerable(&all[i]))?;
            Bad::Query { shape: i }
        }
        _ => {
            if b % 3 == 0 {
                Bad::QueryUnreg { form: (c % 6) as u8 }
            } else {
                Bad::ReadUnreg { id: pick(&m.live, c).map(|h| ids[h].get()).unwrap_or(1) }
            }
        }
    })
}

pub fn pick_shape(m: &Model, p: &Profile, x: u16, mutable: bool) -> Option<usize> {
    let all = shapes::all();
    let n = p.shapes.len();
    for i in 0..n {
        let s = p.shapes[(x as usize + i * 3) % n];
        if m.answerable(&all[s]) && (!mutable || all[s].leaves.iter().any(|l| l.1)) {
            return Some(s);
        }
    }
    None
}
pub fn probe_steps(m: &Model, ids: &[EntityId], x: u16, n: usize) -> Vec<Step> {
    let mut out: Vec<usize> = vec![];
    let mut y = x;
    for i in 0..n {
        let id = if i % 3 == 2 || m.live.is_empty() {
            missing_id(ids, m, y, true)
        } else {
            ids[pick(&m.live, y).unwrap()].get()
        };
        if !out.contains(&id) {
            out.push(id)
        }
        y = y.wrapping_mul(25173).wrapping_add(13849);
    }
    out.into_iter().map(Step::Probe).collect()
}
/// Steps after which the complete result set has been seen.
fn plain_steps(m: &Model, ids: &[EntityId], b: u16, c: u16) -> Vec<Step> {
    match b % 6 {
        0 => vec![Step::DrainId],
        1 => vec![Step::DrainNext],
        2 => {
            let mut s = probe_all(m, ids, c);
            s.push(Step::DrainId);
            s
        }
        3 => {
            let mut s = vec![Step::Next, Step::NextId];
            s.extend(probe_steps(m, ids, c, 3));
            s.push(Step::DrainId);
            s.extend(probe_steps(m, ids, c.rotate_left(4), 2));
            s
        }
        4 if c % 2 == 0 => vec![Step::HoldId],
        4 => vec![Step::WithId(USES[c as usize / 2 % 3], 0)],
        _ if c / 8 % 2 == 0 => vec![Step::Take(1 + c as usize % 5), Step::Fold],
        _ => vec![Step::Take(1 + c as usize % 5), Step::Rest(USES[c as usize / 16 % 3], 0)],
    }
}
/// A lookup of every live entity (bounded) and of some ids that are not.
pub fn probe_all(m: &Model, ids: &[EntityId], c: u16) -> Vec<Step> {
    let mut s: Vec<Step> = m.live.iter().rev().take(24).map(|&h| Step::Probe(ids[h].get())).collect();
    for i in 0..3u16 {
        s.push(Step::Probe(missing_id(ids, m, c.rotate_left(i as u32 * 3), true)))
    }
    s
}

// ------------------------------------------------------------------ the system under test

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Silences panics and remembers their message.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().is::<WouldBlock>() {
            "waits for a lock its own thread holds".to_string()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        if msg.contains("unsafe precondition") || msg.contains("cannot unwind") || msg.contains("during cleanup") {
            eprintln!("non-unwinding panic: {msg}{loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Grows with every call that is made.
pub static PROGRESS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub struct Sut {
    pub w: World,
    /// id of every entity ever created, by handle
    pub ids: Vec<EntityId>,
    /// group queries by the extra, non-unique group of equal types
    pub steps_cap: usize,
}

/// Registers the unused type `i`, sometimes also as a resource.
pub fn add_filler(w: &mut World, i: usize) {
    macro_rules! one {
        ($($n:literal)*) => { match i { $($n => {
            w.register::<Fill<$n>>();
            if $n % 4 == 1 {
                w.register_resource(Fill::<$n>($n));
            }
        })* _ => {} } };
    }
    one!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139);
}
pub fn register_ty(w: &mut World, ty: usize) {
    with_type!(ty, T => { w.register::<T>(); })
}
/// The library's group markers are only `Copy` over `Copy` components; these always are.
macro_rules! marker {
    ($n:ident, $f:ident) => {
        pub struct $n<A, B>(std::marker::PhantomData<(A, B)>);
        impl<A, B> Clone for $n<A, B> {
            fn clone(&self) -> Self {
                *self
            }
        }
        impl<A, B> Copy for $n<A, B> {}
        impl<A: Comp, B: Comp> From<$n<A, B>> for xecs::group::Group {
            fn from(_: $n<A, B>) -> Self {
                $f::<A, B>().into()
            }
        }
        impl<A, B> $n<A, B> {
            pub fn new() -> Self {
                $n(std::marker::PhantomData)
            }
        }
    };
}
marker!(Full, full_owning);
marker!(Partial, partial_owning);
marker!(Non, non_owning);
pub fn make_group(w: &mut World, kind: usize, a: usize, b: usize) {
    with_type!(a, A => with_type!(b, B => match kind {
        0 => w.make_group(Full::<A, B>::new()),
        1 => w.make_group(Partial::<A, B>::new()),
        _ => w.make_group(Non::<A, B>::new()),
    }))
}
pub fn nz(id: usize) -> EntityId {
    NonZeroUsize::new(id).unwrap()
}

impl Sut {
    pub fn new(mask: u16, fill: usize) -> Sut {
        let mut w = World::new();
        // before and after the others
        let before = if fill > 4 { fill / 2 } else if fill >= 2 { fill } else { 0 };
        (0..before).for_each(|i| add_filler(&mut w, i));
        for t in 0..NT {
            if mask >> t & 1 == 1 {
                register_ty(&mut w, t);
            }
        }
        (before..fill).for_each(|i| add_filler(&mut w, i));
        Sut { w, ids: vec![], steps_cap: 100_000 }
    }

    /// Executes a command. New ids are appended to `ids` (by handle).
    pub fn exec(&mut self, c: &Cmd) -> Out {
        match catch_unwind(AssertUnwindSafe(|| self.exec_inner(c))) {
            Ok(o) => o,
            Err(_) => Out::Panic(last_panic()),
        }
    }

    fn exec_inner(&mut self, c: &Cmd) -> Out {
        match c {
            Cmd::Register { ty } => {
                register_ty(&mut self.w, *ty);
                Out::Unit
            }
            Cmd::Group { kind, a, b } => {
                make_group(&mut self.w, *kind, *a, *b);
                Out::Unit
            }
            Cmd::ResReg { r, v } => {
                with_res!(*r, R => self.w.register_resource(R::mk(*v)));
                Out::Unit
            }
            Cmd::Bad(b) => exec_bad(&mut self.w, &self.ids, b),
            _ => exec_shared(&self.w, &mut self.ids, self.steps_cap, c),
        }
    }
}

thread_local! {
    static MIDS: RefCell<Option<Vec<Option<i64>>>> = const { RefCell::new(None) };
}
/// Results of the calls made in between by the last command; none if they were not made.
pub fn take_mids() -> Option<Vec<Option<i64>>> {
    MIDS.with(|m| m.borrow_mut().take())
}
pub fn exec_mid(w: &World, id: EntityId, x: &Mid) -> Option<i64> {
    with_type!(x.ty, T => match x.code {
        0 => w.entity_component_read::<T>(id).map(|g| g.get()),
        1 => w.detach_component::<T>(id).map(|x| x.get()),
        2 => w.entity_component_write::<T>(id).map(|mut g| { let o = g.get(); g.set(x.v); o }),
        3 => { w.attach_component(id, T::mk(x.v)); None }
        _ => Some((w.exist(id) && w.entity(id).map(|e| e.into_id()) == Some(id)) as i64),
    })
}
/// The same command without the calls in between.
pub fn without_mids(c: &Cmd) -> Cmd {
    let mut c = c.clone();
    if let Cmd::Create { mid, .. } | Cmd::Batch { mid, .. } = &mut c {
        mid.clear();
    }
    c
}
struct Between<'a> {
    w: &'a World,
    ids: &'a [EntityId],
    new: Vec<EntityId>,
    mid: &'a [Mid],
    out: Vec<Option<i64>>,
}
impl Between<'_> {
    fn at(&mut self, at: usize) {
        for x in self.mid.iter().filter(|x| x.at == at) {
            let id = if x.h < self.ids.len() { self.ids[x.h] } else { self.new[x.h - self.ids.len()] };
            let r = exec_mid(self.w, id, x);
            self.out.push(r);
        }
    }
    fn done(self) {
        if self.mid.is_empty() {
            return;
        }
        MIDS.with(|m| *m.borrow_mut() = Some(self.out));
    }
}

/// Executes a command that needs only shared access to the world.
pub fn exec_shared(w: &World, ids: &mut Vec<EntityId>, cap: usize, c: &Cmd) -> Out {
    match c {
        Cmd::Create { cols, via, mid, .. } => {
            take_mids();
            let id = match via {
                3 => {
                    let id = w.create_entity().into_id();
                    let mut bt = Between { w, ids, new: vec![id], mid, out: vec![] };
                    let mut e = w.entity(id).unwrap();
                    for (at, &(t, v)) in cols.iter().enumerate() {
                        bt.at(at);
                        e = with_type!(t, T => e.attach(T::mk(v)));
                    }
                    bt.at(cols.len());
                    bt.done();
                    e.into_id()
                }
                0 => {
                    let mut e = w.create_entity();
                    for &(t, v) in cols {
                        e = with_type!(t, T => e.attach(T::mk(v)));
                    }
                    e.into_id()
                }
                1 => {
                    let id = w.create_entity().into_id();
                    let mut bt = Between { w, ids, new: vec![id], mid, out: vec![] };
                    for (at, &(t, v)) in cols.iter().enumerate() {
                        bt.at(at);
                        with_type!(t, T => w.attach_component(id, T::mk(v)));
                    }
                    bt.at(cols.len());
                    bt.done();
                    id
                }
                _ => {
                    let id = w.create_entity().into_id();
                    for &(t, v) in cols {
                        with_type!(t, T => { w.entity(id).unwrap().attach(T::mk(v)); });
                    }
                    id
                }
            };
            ids.push(id);
            Out::Id(id.get())
        }
        Cmd::Batch { n, cols, mid, .. } => {
            take_mids();
            // the ids of the batch are only told at its end
            let top = ids.iter().map(|i| i.get()).max().unwrap_or(0) + n + 8;
            let absent: Vec<EntityId> = if mid.is_empty() { vec![] } else { (1..=top).map(nz).filter(|&i| !w.exist(i)).collect() };
            let mut e = w.create_entities(*n);
            let new: Vec<EntityId> = absent.into_iter().filter(|&i| w.exist(i)).collect();
            let mut bt = (new.len() == *n && !mid.is_empty()).then(|| Between { w, ids, new, mid, out: vec![] });
            for (at, &(t, v)) in cols.iter().enumerate() {
                if let Some(bt) = bt.as_mut() {
                    bt.at(at);
                }
                e = with_type!(t, T => e.attach::<T, _>((0..*n as i64).map(|i| T::mk(v + i)).collect::<Vec<T>>()));
            }
            if let Some(mut bt) = bt {
                bt.at(cols.len());
                bt.done();
            }
            let r = e.into_ids();
            let (s, t) = (r.start.get(), r.end.get());
            if t >= s && t - s <= 1 << 22 {
                ids.extend((s..t).map(nz));
            }
            Out::Range(s, t)
        }
        Cmd::Attach { h, ty, v, via } => {
            let id = ids[*h];
            with_type!(*ty, T => match via {
                0 => w.attach_component(id, T::mk(*v)),
                _ => { w.entity(id).expect("handle of an existing entity").attach(T::mk(*v)); }
            });
            Out::Unit
        }
        Cmd::Detach { h, ty, via } => {
            let id = ids[*h];
            Out::Val(with_type!(*ty, T => match via {
                0 => w.detach_component::<T>(id).map(|x| x.get()),
                _ => w.entity(id).expect("handle of an existing entity").detach::<T>().map(|x| x.get()),
            }))
        }
        Cmd::Remove { h, via } => {
            let id = ids[*h];
            match via {
                0 => w.remove_entity(id),
                _ => w.entity(id).expect("handle of an existing entity").manaully_drop(),
            }
            Out::Unit
        }
        Cmd::Write { h, ty, v, path } => Out::Flag(with_type!(*ty, T => write_path::<T>(w, ids[*h], *v, *path))),
        Cmd::Slice { ty, mask, base } => {
            let (mask, base) = (*mask, *base);
            Out::Evs(with_type!(*ty, T => {
                let mut g = w.components_write::<T>().expect("registered type");
                let mut evs = vec![];
                for (i, x) in g.data_mut().iter_mut().enumerate() {
                    if mask >> (i % 64) & 1 == 1 {
                        let old = x.get();
                        x.set(base + i as i64);
                        evs.push(Ev::Wrote(None, 0, old, base + i as i64));
                    }
                }
                evs
            }))
        }
        Cmd::Query { shape, steps } => {
            let mut req = Req { steps, cap, writer: None };
            Out::Evs((shapes::all()[*shape].run)(w, &mut req))
        }
        Cmd::QWrite { shape, steps, mask, base } => {
            // value and choice depend on the entity when the result carries its id
            let mut n = 0i64;
            let top = (ids.iter().map(|i| i.get()).max().unwrap_or(0) as i64 + 1) * 16;
            let mut wr = |id: Option<usize>, leaf: usize, _: i64| {
                let x = match id {
                    Some(id) => id as i64 * 16 + leaf as i64,
                    None => {
                        n += 1;
                        top + n
                    }
                };
                if *mask >> (x % 61) & 1 == 1 {
                    Some(*base + x)
                } else {
                    None
                }
            };
            let mut req = Req { steps, cap, writer: Some(&mut wr) };
            Out::Evs((shapes::all()[*shape].run)(w, &mut req))
        }
        Cmd::ResWrite { r, v } => Out::Flag(with_res!(*r, R => match w.resource_write::<R>() {
            Some(mut g) => { g.set(*v); true }
            None => false,
        })),
        Cmd::ResRead { r } => Out::Val(with_res!(*r, R => w.resource_read::<R>().map(|g| g.get()))),
        Cmd::Debug => Out::Text(format!("{:?}", w)),
        Cmd::Handle { h, calls } => {
            let mut e = w.entity(ids[*h]).expect("handle of an existing entity");
            let mut out = vec![];
            for &(c, t, v) in calls {
                with_type!(t, T => match c {
                    0 => out.push(e.component_read::<T>().map(|g| g.get())),
                    1 => out.push(e.detach::<T>().map(|x| x.get())),
                    2 => out.push(e.component_write::<T>().map(|mut g| { let o = g.get(); g.set(v); o })),
                    3 => { e = e.attach(T::mk(v)); out.push(None) }
                    // by id while the handle is held
                    _ => out.push(exec_mid(w, ids[*h], &Mid { at: 0, h: *h, code: c - 4, ty: t, v })),
                })
            }
            out.push(Some(e.into_id().get() as i64));
            Out::Vals(out)
        }
        Cmd::Observe => Out::Unit,
        _ => unreachable!(),
    }
}

fn exec_bad(w: &mut World, ids: &[EntityId], b: &Bad) -> Out {
    match b {
        Bad::AttachMissing { id, ty, v } => with_type!(*ty, T => w.attach_component(nz(*id), T::mk(*v))),
        Bad::DetachMissing { id, ty } => with_type!(*ty, T => { w.detach_component::<T>(nz(*id)); }),
        Bad::RemoveMissing { id } => w.remove_entity(nz(*id)),
        Bad::AttachUnreg { h, ty, v, via } => with_type!(*ty, T => match via {
            0 => w.attach_component(ids[*h], T::mk(*v)),
            _ => { w.entity(ids[*h]).unwrap().attach(T::mk(*v)); }
        }),
        Bad::DetachUnreg { h, ty, via } => with_type!(*ty, T => match via {
            0 => { w.detach_component::<T>(ids[*h]); }
            _ => { w.entity(ids[*h]).unwrap().detach::<T>(); }
        }),
        Bad::BatchUnreg { n, ty, v, pre } => {
            let mut e = w.create_entities(*n);
            if let Some((t, v)) = pre {
                e = with_type!(*t, T => e.attach::<T, _>((0..*n as i64).map(|i| T::mk(v + i)).collect::<Vec<T>>()));
            }
            with_type!(*ty, T => { e.attach::<T, _>((0..*n as i64).map(|i| T::mk(v + i)).collect::<Vec<T>>()); })
        }
        Bad::BatchLen { n, ty, len, v, pre } => {
            let mut e = w.create_entities(*n);
            if let Some((t, v)) = pre {
                e = with_type!(*t, T => e.attach::<T, _>((0..*n as i64).map(|i| T::mk(v + i)).collect::<Vec<T>>()));
            }
            with_type!(*ty, T => { e.attach::<T, _>((0..*len as i64).map(|i| T::mk(v + i)).collect::<Vec<T>>()); })
        }
        Bad::Register { ty } => register_ty(w, *ty),
        Bad::Group { kind, a, b } => make_group(w, *kind, *a, *b),
        Bad::Query { shape } => {
            let mut req = Req { steps: &[Step::Next], cap: 10, writer: None };
            (shapes::all()[*shape].run)(w, &mut req);
        }
        Bad::QueryUnreg { form } => {
            use xecs::group::*;
            use xecs::query::Without;
            match form {
                0 => { w.query::<&U>().next(); }
                1 => { w.query::<&mut U>().next(); }
                2 => { w.query::<(&A, &U)>().next(); }
                3 => { w.query::<(&A, Without<&U>)>().next(); }
                4 => { w.query::<(Without<&mut U>, &B)>().next(); }
                _ => { w.query::<NonOwning<&A, &U>>().next(); }
            }
        }
        Bad::ReadUnreg { id } => {
            // these must answer "nothing" rather than panic
            let id = nz(*id);
            let mut some = vec![];
            some.push(w.components_read::<U>().is_some());
            some.push(w.components_write::<U>().is_some());
            some.push(w.entity_component_read::<U>(id).is_some());
            some.push(w.entity_component_write::<U>(id).is_some());
            some.push(w.resource_read::<U>().is_some());
            some.push(w.resource_write::<U>().is_some());
            some.push(w.has_registered::<U>());
            if let Some(e) = w.entity(id) {
                some.push(e.component_read::<U>().is_some());
                some.push(e.component_write::<U>().is_some());
            }
            return Out::Flag(some.iter().any(|x| *x));
        }
    }
    Out::Unit
}

fn write_path<T: Comp>(w: &World, id: EntityId, v: i64, path: u8) -> bool {
    match path {
        0 => match w.entity_component_write::<T>(id) {
            Some(mut g) => {
                g.set(v);
                true
            }
            None => false,
        },
        1 => match w.entity(id).expect("handle of an existing entity").component_write::<T>() {
            Some(mut g) => {
                g.set(v);
                true
            }
            None => false,
        },
        2 => match w.components_write::<T>().expect("registered type").get_mut(id) {
            Some(x) => {
                x.set(v);
                true
            }
            None => false,
        },
        3 => match w.query::<&mut T>().from_id(id) {
            Some(x) => {
                x.set(v);
                true
            }
            None => false,
        },
        4 => {
            let mut q = w.query::<&mut T>();
            while let Some((i, x)) = q.next_with_id() {
                if i == id {
                    x.set(v);
                    return true;
                }
            }
            false
        }
        _ => {
            let mut g = w.components_write::<T>().expect("registered type");
            if g.exist(id) {
                // SAFETY: the id is in the storage
                unsafe { g.get_unchecked_mut(id) }.set(v);
                true
            } else {
                false
            }
        }
    }
}

/// Reads a component by every access path.
pub fn read_paths<T: Comp>(w: &World, id: EntityId, exists: bool) -> Vec<(&'static str, Option<i64>)> {
    let mut out = vec![];
    out.push(("entity_component_read", w.entity_component_read::<T>(id).map(|g| g.get())));
    out.push(("entity_component_write", w.entity_component_write::<T>(id).map(|g| g.get())));
    if exists {
        let e = w.entity(id).expect("handle of an existing entity");
        out.push(("handle component_read", e.component_read::<T>().map(|g| g.get())));
        out.push(("handle component_write", e.component_write::<T>().map(|g| g.get())));
    }
    {
        let g = w.components_read::<T>().expect("registered type");
        let ex = g.exist(id);
        let v = g.get(id).map(|x| x.get());
        out.push(("storage get", v));
        if ex {
            // SAFETY: the storage says that the id is in it
            out.push(("storage get_unchecked", Some(unsafe { g.get_unchecked(id) }.get())));
        }
    }
    {
        let mut g = w.components_write::<T>().expect("registered type");
        out.push(("exclusive storage get", g.get(id).map(|x| x.get())));
        out.push(("exclusive storage get_mut", g.get_mut(id).map(|x| x.get())));
    }
    out.push(("query from_id", w.query::<&T>().from_id(id).map(|x| x.get())));
    out.push(("exclusive query from_id", w.query::<&mut T>().from_id(id).map(|x| x.get())));
    out
}

// ------------------------------------------------------------------ judging query events

/// Checks the events of a query against the expected result set (id -> values).
/// Applies writes to `expect` and reports them as (id, leaf, value).
pub fn judge_events(
    shape: &Shape,
    evs: &[Ev],
    expect: &mut BTreeMap<usize, Vec<i64>>,
    writes: &mut Vec<(usize, usize, i64)>,
) -> Result<(), String> {
    let name = shape.name;
    // remaining results: by id, and by value for results without id
    let mut left: BTreeMap<usize, Vec<i64>> = expect.clone();
    let mut anon: HashMap<Vec<i64>, usize> = HashMap::new();
    // the remaining results by value, once results without ids appear
    let mut by_val: Option<HashMap<Vec<i64>, std::collections::BTreeSet<usize>>> = None;
    let drop_val = |bv: &mut Option<HashMap<Vec<i64>, std::collections::BTreeSet<usize>>>, v: &Vec<i64>, id: usize| {
        if let Some(s) = bv.as_mut().and_then(|m| m.get_mut(v)) {
            s.remove(&id);
        }
    };
    let mut anon_n = 0usize;
    let start: BTreeMap<usize, Vec<i64>> = expect.clone();
    let mut last: Option<(Option<usize>, Vec<i64>)> = None;
    for ev in evs {
        match ev {
            Ev::Row(Some(id), v) => {
                match left.remove(id) {
                    None => {
                        return Err(match start.get(id) {
                            None => format!("{name}: yields entity {id}, which does not match"),
                            Some(_) => format!("{name}: yields entity {id} twice"),
                        })
                    }
                    Some(_) => {
                        let now = &expect[id];
                        if now != v {
                            return Err(format!("{name}: entity {id} yields {v:?}, expected {now:?}"));
                        }
                    }
                }
                drop_val(&mut by_val, v, *id);
                if let Some(n) = anon.get(v) {
                    if by_val.as_ref().and_then(|m| m.get(v)).map_or(0, |s| s.len()) < *n {
                        return Err(format!("{name}: yields entity {id} twice"));
                    }
                }
                last = Some((Some(*id), v.clone()));
            }
            Ev::Row(None, v) => {
                // an entity with exactly these values that was not yielded yet; results that
                // only show a zero-sized type cannot be told apart and are counted
                let bv = by_val.get_or_insert_with(|| {
                    let mut m: HashMap<Vec<i64>, std::collections::BTreeSet<usize>> = HashMap::new();
                    for id in left.keys() {
                        m.entry(expect[id].clone()).or_default().insert(*id);
                    }
                    m
                });
                let (cands, first) = bv.get(v).map_or((0, 0), |s| (s.len(), s.first().copied().unwrap_or(0)));
                let seen = anon.entry(v.clone()).or_default();
                if cands <= *seen {
                    return Err(format!("{name}: yields {v:?}, which is no entity's (remaining) result"));
                }
                if cands == 1 {
                    left.remove(&first);
                    drop_val(&mut by_val, v, first);
                    last = Some((Some(first), v.clone()));
                } else {
                    *seen += 1;
                    anon_n += 1;
                    last = Some((None, v.clone()));
                }
            }
            Ev::End(_) => {
                if left.len() > anon_n {
                    let id = left.keys().next().unwrap();
                    return Err(format!("{name}: ends without yielding entity {id}, which matches ({} missing)", left.len() - anon_n));
                }
            }
            Ev::Probe(id, r) => {
                let want = expect.get(id);
                if want != r.as_ref() {
                    return Err(format!("{name}: lookup of entity {id} gives {r:?}, expected {want:?}"));
                }
                last = r.clone().map(|v| (Some(*id), v));
            }
            Ev::Wrote(_, leaf, old, new) => {
                let Some((id, v)) = last.as_ref() else { return Err(format!("{name}: write without a result")) };
                let (ty, _) = shape.leaves[*leaf];
                if v[*leaf] != *old {
                    return Err(format!("{name}: entity {id:?} shows {:?} and then {old}", v[*leaf]));
                }
                let Some(id) = id else { continue };
                let nv = norm(ty, *new);
                // every leaf of that entity with this type shows the new value from now on
                if let Some(e) = expect.get_mut(id) {
                    drop_val(&mut by_val, e, *id);
                    for (i, l) in shape.leaves.iter().enumerate() {
                        if l.0 == ty {
                            e[i] = nv
                        }
                    }
                    if left.contains_key(id) {
                        if let Some(m) = by_val.as_mut() {
                            m.entry(e.clone()).or_default().insert(*id);
                        }
                    }
                }
                writes.push((*id, *leaf, *new));
            }
            Ev::Hint(..) => {}
            Ev::Skipped(_) | Ev::Count(_) | Ev::Last(_) | Ev::LastId(_) => {}
            Ev::Overflow => return Err(format!("{name}: yields more results than there are entities")),
        }
    }
    let _ = anon_n;
    Ok(())
}

// ------------------------------------------------------------------ history context

pub struct Ctx {
    pub s: Sut,
    pub m: Model,
    /// id -> handle of the living entity
    pub by_id: HashMap<usize, H>,
    pub trace: Vec<String>,
    pub keep_trace: bool,
    pub hash: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub effort: Effort,
}

pub fn fnv(h: u64, s: &[u8]) -> u64 {
    let mut h = h;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Ctx {
    pub fn new(case: &Case, p: &Profile, keep_trace: bool) -> Result<Ctx, String> {
        let mask = registered_mask(&case.cfg, p);
        let fill = fillers(&case.cfg);
        let s = guarded(|| Sut::new(mask, fill)).map_err(|e| format!("building a world panics: {e}"))?;
        let mut m = Model::default();
        for t in 0..NT {
            m.reg[t] = mask >> t & 1 == 1
        }
        let mut c = Ctx {
            s,
            m,
            by_id: HashMap::new(),
            trace: vec![],
            keep_trace,
            hash: 0xcbf29ce484222325,
            counts: BTreeMap::new(),
            effort: Effort::new(),
        };
        c.note(&format!("world: types {} registered, {} unused types", mask_names(mask), fill));
        for g in initial_groups(&case.cfg, p, &c.m) {
            c.step(&g)?;
        }
        Ok(c)
    }
    pub fn note(&mut self, s: &str) {
        self.hash = fnv(self.hash, s.as_bytes());
        if self.keep_trace && self.trace.len() < 400 {
            self.trace.push(s.to_string());
        }
    }
    pub fn count(&mut self, what: &'static str) {
        *self.counts.entry(what).or_default() += 1;
    }
    /// Whether another look at everything is due.
    pub fn due(&mut self, groups: usize) -> bool {
        self.effort.due(self.s.ids.len(), groups)
    }
    pub fn expect(&self, n: &Node) -> BTreeMap<usize, Vec<i64>> {
        self.m.eval(n).into_iter().map(|(h, v)| (self.s.ids[h].get(), v)).collect()
    }
    /// Compares the calls made between the parts of a builder with the model.
    /// False if they were not made.
    fn judge_mids(&mut self, c: &Cmd) -> Result<bool, String> {
        let (h, n, cols, mid) = match c {
            Cmd::Create { h, cols, mid, .. } => (*h, 1, cols, mid),
            Cmd::Batch { h, n, cols, mid } => (*h, *n, cols, mid),
            _ => return Ok(true),
        };
        if mid.is_empty() {
            return Ok(true);
        }
        let Some(got) = take_mids() else { return Ok(false) };
        let mut m = self.m.clone();
        let want = m.build(h, n, cols, mid);
        if got != want {
            return Err(format!("the calls in between return {got:?}, expected {want:?}"));
        }
        self.count("calls by id while a builder is held");
        Ok(true)
    }
    /// Executes a command and compares it with the model.
    pub fn step(&mut self, c: &Cmd) -> Result<Out, String> {
        self.note(&show(c));
        let out = self.s.exec(c);
        self.judge(c, &out).map_err(|e| format!("{}: {e}", show(c)))?;
        Ok(out)
    }
    pub fn judge(&mut self, c: &Cmd, out: &Out) -> Result<(), String> {
        if let Cmd::Bad(b) = c {
            return self.judge_bad(b, out);
        }
        if let Out::Panic(p) = out {
            return Err(format!("panics: {p}"));
        }
        let plain;
        let c = if self.judge_mids(c)? {
            c
        } else {
            plain = without_mids(c);
            &plain
        };
        match (c, out) {
            (Cmd::Create { h, .. }, Out::Id(id)) => {
                if self.s.ids.len() != h + 1 {
                    return Err("harness: handle out of step".into());
                }
                if self.by_id.contains_key(id) {
                    return Err(format!("returns the id {id} of a living entity"));
                }
                self.by_id.insert(*id, *h);
            }
            (Cmd::Batch { h, n, .. }, Out::Range(s, t)) => {
                if *t < *s || t - s != *n {
                    return Err(format!("returns ids {s}..{t} for {n} entities"));
                }
                for i in 0..*n {
                    if self.by_id.contains_key(&(s + i)) {
                        return Err(format!("returns the id {} of a living entity", s + i));
                    }
                    self.by_id.insert(s + i, h + i);
                }
            }
            (Cmd::Detach { h, ty, .. }, Out::Val(v)) => {
                let want = self.m.get(*h, *ty);
                if *v != want {
                    return Err(format!("returns {v:?}, expected {want:?}"));
                }
            }
            (Cmd::Remove { h, .. }, _) => {
                self.by_id.remove(&self.s.ids[*h].get());
            }
            (Cmd::Write { h, ty, .. }, Out::Flag(f)) => {
                if *f != self.m.get(*h, *ty).is_some() {
                    return Err(format!("finds the component: {f}, expected {}", !f));
                }
            }
            (Cmd::Slice { ty, .. }, Out::Evs(evs)) => {
                let mut by_val: HashMap<i64, std::collections::BTreeSet<H>> = HashMap::new();
                if !evs.is_empty() {
                    for &h in &self.m.live {
                        if let Some(v) = self.m.get(h, *ty) {
                            by_val.entry(v).or_default().insert(h);
                        }
                    }
                }
                for ev in evs {
                    if let Ev::Wrote(_, _, old, new) = ev {
                        let Some(h) = by_val.get_mut(old).and_then(|s| s.pop_first()) else {
                            return Err(format!("the data slice shows {old}, which is no entity's value"));
                        };
                        self.m.ents[h].comps[*ty] = Some(*new);
                        by_val.entry(norm(*ty, *new)).or_default().insert(h);
                    }
                }
            }
            (Cmd::Query { shape, .. }, Out::Evs(evs)) => {
                let s = &shapes::all()[*shape];
                let mut ex = self.expect(&s.node);
                if !ex.is_empty() {
                    self.count("query with results");
                }
                judge_events(s, evs, &mut ex, &mut vec![])?;
            }
            (Cmd::QWrite { shape, .. }, Out::Evs(evs)) => {
                let s = &shapes::all()[*shape];
                let mut ex = self.expect(&s.node);
                let mut writes = vec![];
                judge_events(s, evs, &mut ex, &mut writes)?;
                if !writes.is_empty() {
                    self.count("writes through a query");
                }
                for (id, leaf, v) in writes {
                    let h = self.by_id[&id];
                    self.m.ents[h].comps[s.leaves[leaf].0] = Some(v);
                }
            }
            (Cmd::ResWrite { r, .. }, Out::Flag(f)) => {
                if *f != self.m.res[*r].is_some() {
                    return Err(format!("finds the resource: {f}, expected {}", !f));
                }
            }
            (Cmd::ResRead { r }, Out::Val(v)) => {
                let want = self.m.res[*r].map(|v| rnorm(*r, v));
                if *v != want {
                    return Err(format!("reads {v:?}, expected {want:?}"));
                }
            }
            (Cmd::Handle { h, calls }, Out::Vals(vs)) => {
                let mut e = self.m.ents[*h].clone();
                for (i, &(cc, t, v)) in calls.iter().enumerate() {
                    let old = e.comps[t].map(|x| norm(t, x));
                    let want = match cc % 4 {
                        0 => old,
                        1 => {
                            e.comps[t] = None;
                            old
                        }
                        2 => {
                            if old.is_some() {
                                e.comps[t] = Some(v)
                            }
                            old
                        }
                        _ => {
                            e.comps[t] = Some(v);
                            None
                        }
                    };
                    if vs[i] != want {
                        return Err(format!("call {i} returns {:?}, expected {want:?}", vs[i]));
                    }
                }
                if vs.last() != Some(&Some(self.s.ids[*h].get() as i64)) {
                    return Err(format!("the handle yields id {:?}, expected {}", vs.last(), self.s.ids[*h]));
                }
            }
            _ => {}
        }
        self.m.apply(c);
        Ok(())
    }
    fn judge_bad(&mut self, b: &Bad, out: &Out) -> Result<(), String> {
        if let Bad::ReadUnreg { .. } = b {
            return match out {
                Out::Flag(false) => Ok(()),
                Out::Flag(true) => Err("finds something of an unregistered type".into()),
                Out::Panic(p) => Err(format!("panics: {p}")),
                _ => Ok(()),
            };
        }
        match out {
            Out::Panic(p) if p.starts_with("waits for a lock") => Err("does not return (waits for itself)".into()),
            Out::Panic(_) => {
                self.count("rejected call");
                if let Bad::BatchUnreg { n, pre, .. } | Bad::BatchLen { n, pre, .. } = b {
                    self.adopt_batch(*n, pre.as_slice())?;
                }
                Ok(())
            }
            _ => Err("is accepted, expected a panic".into()),
        }
    }
    /// A rejected batch attach leaves the batch itself in the world: find its ids.
    pub fn adopt_batch(&mut self, n: usize, cols: &[(usize, i64)]) -> Result<(), String> {
        let max = self.s.ids.iter().map(|i| i.get()).max().unwrap_or(0);
        let new: Vec<usize> = (1..=max + n + 2).filter(|i| !self.by_id.contains_key(i) && self.s.w.exist(nz(*i))).collect();
        if new.len() != n {
            return Err(format!("a batch of {n} entities was created first, but {} new ids exist", new.len()));
        }
        let h = self.s.ids.len();
        for (i, id) in new.iter().enumerate() {
            self.by_id.insert(*id, h + i);
            self.s.ids.push(nz(*id));
        }
        self.m.apply(&Cmd::Batch { h, n, cols: cols.to_vec(), mid: vec![] });
        Ok(())
    }

    // ---------------------------------------------------------------- observations

    /// Every id ever issued and a few never issued.
    pub fn obs_exist(&mut self) -> Result<(), String> {
        let max = self.s.ids.iter().map(|i| i.get()).max().unwrap_or(0);
        let mut ids: Vec<usize> = (1..=max.min(600)).collect();
        if max > 600 {
            ids.extend(max - 50..=max);
        }
        ids.extend([max + 1, max + 2, max + 63, max * 2 + 1, 1 << 16, 1 << 40, usize::MAX / 2, usize::MAX - 1, usize::MAX]);
        // ids that differ from issued ones in a high bit only
        let mut x = self.hash ^ max as u64;
        for _ in 0..6 {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let near = match self.m.live.len() {
                n if n > 0 && x >> 20 & 3 != 0 => self.s.ids[self.m.live[(x >> 32) as usize % n]].get(),
                _ => 1 + (x >> 32) as usize % max.max(1),
            };
            ids.push(near | 1 << (8 + (x >> 56) % 56));
        }
        for id in ids {
            let want = self.by_id.contains_key(&id);
            let w = &self.s.w;
            let got = guarded(|| w.exist(nz(id))).map_err(|e| format!("exist({id}) panics: {e}"))?;
            if got != want {
                return Err(format!("exist({id}) is {got}, expected {want}"));
            }
            let got = guarded(|| w.entity(nz(id)).map(|e| e.into_id().get())).map_err(|e| format!("entity({id}) panics: {e}"))?;
            if got != want.then_some(id) {
                return Err(format!("entity({id}) gives {got:?}, expected {:?}", want.then_some(id)));
            }
        }
        Ok(())
    }
    /// One component of one entity by every path.
    pub fn obs_paths(&self, h: H, ty: usize) -> Result<(), String> {
        let id = self.s.ids[h];
        let alive = self.m.ents[h].alive;
        // a recycled id belongs to another handle now
        let owner = self.by_id.get(&id.get()).copied();
        let want = owner.and_then(|h| self.m.get(h, ty));
        let w = &self.s.w;
        let got = guarded(|| with_type!(ty, T => read_paths::<T>(w, id, owner.is_some())))
            .map_err(|e| format!("reading {} of entity {id} panics: {e}", NAMES[ty]))?;
        for (path, v) in got {
            if v != want {
                return Err(format!("{path} of {} for entity {id} gives {v:?}, expected {want:?}", NAMES[ty]));
            }
        }
        let _ = alive;
        Ok(())
    }
    /// Every component of every living entity, cheaply.
    pub fn obs_components(&mut self) -> Result<(), String> {
        for ty in 0..NT {
            if !self.m.reg[ty] {
                continue;
            }
            let w = &self.s.w;
            let (m, ids) = (&self.m, &self.s.ids);
            let by_id = &self.by_id;
            guarded(|| -> Result<(), String> {
                with_type!(ty, T => {
                    let g = w.components_read::<T>().ok_or("no storage view of a registered type")?;
                    let n = m.count(ty);
                    if g.count() != n {
                        return Err(format!("storage of {} has {} components, expected {n}", NAMES[ty], g.count()));
                    }
                    for (h, id) in ids.iter().enumerate() {
                        let owner = by_id.get(&id.get()).copied();
                        if owner.is_some() && owner != Some(h) { continue }
                        let want = owner.and_then(|h| m.get(h, ty));
                        let got = g.get(*id).map(|x| x.get());
                        if got != want {
                            return Err(format!("entity {id} has {} = {got:?}, expected {want:?}", NAMES[ty]));
                        }
                    }
                    Ok(())
                })
            })
            .map_err(|e| format!("reading {} panics: {e}", NAMES[ty]))??;
        }
        Ok(())
    }
    /// A query against the model.
    pub fn obs_query(&mut self, shape: usize, steps: Vec<Step>) -> Result<(), String> {
        let c = Cmd::Query { shape, steps };
        let out = self.s.exec(&c);
        let r = self.judge(&c, &out);
        r.map_err(|e| format!("query {e}"))
    }
    /// Every existing group's query, all shared.
    pub fn obs_groups(&mut self) -> Result<(), String> {
        for (kk, a, b) in self.m.groups.clone() {
            if let Some(s) = shapes::group_shape(kk, a, b, false, false) {
                self.obs_query(s, vec![Step::DrainId])?;
            }
        }
        Ok(())
    }
    /// Owned storages: members first, aligned in full-owning groups.
    pub fn obs_packed(&mut self) -> Result<(), String> {
        for (kk, a, b) in self.m.groups.clone() {
            if kk == 2 {
                continue;
            }
            let members: std::collections::BTreeSet<usize> =
                self.m.live.iter().filter(|&&h| self.m.ents[h].comps[a].is_some() && self.m.ents[h].comps[b].is_some()).map(|&h| self.s.ids[h].get()).collect();
            let mut orders = vec![];
            for (i, ty) in [a, b].into_iter().enumerate() {
                if kk == 1 && i == 1 {
                    continue;
                }
                let (order, _) = self.order(ty)?;
                let mut front: Vec<usize> = order.iter().copied().take(members.len()).collect();
                orders.push(front.clone());
                front.sort();
                if !front.iter().copied().eq(members.iter().copied()) {
                    return Err(format!(
                        "storage of {} starts with entities {front:?}, expected the {} members {members:?} of group {} {}{}",
                        NAMES[ty], members.len(), ["full", "partial", "non"][kk], NAMES[a], NAMES[b]
                    ));
                }
            }
            if orders.len() == 2 && orders[0] != orders[1] {
                return Err(format!("full-owning group {}{}: members ordered {:?} and {:?}", NAMES[a], NAMES[b], orders[0], orders[1]));
            }
            if !members.is_empty() {
                self.count("owning group with members");
            }
        }
        Ok(())
    }
    /// Storage order of a type: by iteration with ids; the data slice must show the same order.
    pub fn order(&self, ty: usize) -> Result<(Vec<usize>, Vec<i64>), String> {
        let w = &self.s.w;
        let m = &self.m;
        let by_id = &self.by_id;
        guarded(|| -> Result<(Vec<usize>, Vec<i64>), String> {
            with_type!(ty, T => {
                let mut ids = vec![];
                let mut vals = vec![];
                let mut q = w.query::<&T>();
                let cap = m.live.len() + 1;
                while let Some((id, x)) = q.next_with_id() {
                    ids.push(id.get());
                    vals.push(x.get());
                    if ids.len() > cap { return Err(format!("query over {} does not end", NAMES[ty])) }
                }
                drop(q);
                let g = w.components_read::<T>().ok_or("no storage view of a registered type")?;
                let data: Vec<i64> = g.data().iter().map(|x| x.get()).collect();
                // the values in the slice, position by position, belong to these entities
                if data != vals {
                    return Err(format!("data slice of {} is {data:?}, iteration gives {vals:?}", NAMES[ty]));
                }
                for (id, v) in ids.iter().zip(&data) {
                    let want = by_id.get(id).and_then(|h| m.get(*h, ty));
                    if want != Some(*v) {
                        return Err(format!("iteration over {} pairs entity {id} with {v}, expected {want:?}", NAMES[ty]));
                    }
                }
                Ok((ids, data))
            })
        })
        .map_err(|e| format!("iterating {} panics: {e}", NAMES[ty]))?
    }
}

pub fn mask_names(mask: u16) -> String {
    (0..NT).filter(|t| mask >> t & 1 == 1).map(|t| NAMES[t]).collect()
}
fn cols(c: &[(usize, i64)]) -> String {
    c.iter().map(|(t, v)| format!("{}={v}", NAMES[*t])).collect::<Vec<_>>().join(" ")
}
fn mids(m: &[Mid]) -> String {
    m.iter()
        .map(|x| {
            let t = tname(x.ty);
            let what = match x.code {
                0 => format!("read {t}"),
                1 => format!("detach {t}"),
                2 => format!("write {t}={}", x.v),
                3 => format!("attach {t}={}", x.v),
                _ => "existence".to_string(),
            };
            format!("; before part {}: {what} of e{} by id", x.at, x.h)
        })
        .collect()
}
pub fn tname(t: usize) -> &'static str {
    NAMES.get(t).copied().unwrap_or("U")
}
/// Readable form of a command (entities are written e0, e1, .. in creation order).
pub fn show(c: &Cmd) -> String {
    let via = |v: &u8| if *v == 0 { "" } else { " (by handle)" };
    match c {
        Cmd::Create { h, cols: c, via, mid } => format!("e{h} = create {}{}{}", cols(c), ["", " (by id)", " (by handle)", " (by one handle)"][*via as usize % 4], mids(mid)),
        Cmd::Batch { h, n, cols: c, mid } => format!("e{h}.. = create {n} with {}{}", cols(c), mids(mid)),
        Cmd::Attach { h, ty, v, via: x } => format!("attach {}={v} to e{h}{}", tname(*ty), via(x)),
        Cmd::Detach { h, ty, via: x } => format!("detach {} from e{h}{}", tname(*ty), via(x)),
        Cmd::Remove { h, via: x } => format!("remove e{h}{}", via(x)),
        Cmd::Group { kind, a, b } => format!("make {} group {},{}", ["full-owning", "partial-owning", "non-owning"][*kind], tname(*a), tname(*b)),
        Cmd::Register { ty } => format!("register {}", tname(*ty)),
        Cmd::Write { h, ty, v, path } => format!("write {}={v} of e{h} by path {path}", tname(*ty)),
        Cmd::Slice { ty, mask, base } => format!("write the data slice of {} (mask {mask:x}) from {base}", tname(*ty)),
        Cmd::Query { shape, steps } => format!("query {} {steps:?}", shapes::all()[*shape].name),
        Cmd::QWrite { shape, steps, mask, base } => format!("query {} {steps:?}, write (mask {mask:x}) from {base}", shapes::all()[*shape].name),
        Cmd::Bad(Bad::Query { shape }) => format!("rejected: query {}", shapes::all()[*shape].name),
        Cmd::Bad(b) => format!("rejected: {b:?}"),
        other => format!("{other:?}"),
    }
}

// ------------------------------------------------------------------ snapshots

/// Everything observable about a world, by concrete ids.
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub exist: Vec<usize>,
    pub comps: Vec<Option<Vec<(usize, i64)>>>,
    pub groups: Vec<((usize, usize, usize), Option<Vec<(usize, Vec<i64>)>>)>,
    pub res: Vec<Option<i64>>,
}
/// How many rows a case may look at before it looks less often.
pub struct Effort {
    left: i64,
    turn: u32,
}
impl Effort {
    pub fn new() -> Effort {
        Effort { left: 6_000_000, turn: 0 }
    }
    /// Whether a look at `ids` ids through the types and `groups` groups is due.
    pub fn due(&mut self, ids: usize, groups: usize) -> bool {
        self.turn += 1;
        if self.left < 0 && self.turn % 16 != 0 {
            return false;
        }
        self.left -= (ids * (NT + 1 + groups)) as i64;
        true
    }
}
/// `groups`: which group queries to try (answers of absent groups are None).
pub fn snapshot(w: &World, max_id: usize, groups: &[(usize, usize, usize)]) -> Result<Snap, String> {
    let mut exist = vec![];
    for id in 1..=max_id {
        if guarded(|| w.exist(nz(id))).map_err(|e| format!("exist({id}) panics: {e}"))? {
            exist.push(id)
        }
    }
    let mut comps = vec![];
    for ty in 0..NT {
        comps.push(
            guarded(|| {
                with_type!(ty, T => if w.has_registered::<T>() {
                    let mut v = vec![];
                    let mut q = w.query::<&T>();
                    while let Some((id, x)) = q.next_with_id() {
                        v.push((id.get(), x.get()));
                        if v.len() > max_id + 10 { break }
                    }
                    Some(v)
                } else { None })
            })
            .map_err(|e| format!("iterating {} panics: {e}", NAMES[ty]))?,
        );
    }
    let mut gs = vec![];
    for &(kk, a, b) in groups {
        let Some(s) = shapes::group_shape(kk, a, b, false, false) else { continue };
        let steps = [Step::DrainId];
        let mut req = Req { steps: &steps, cap: max_id + 10, writer: None };
        let r = guarded(|| (shapes::all()[s].run)(w, &mut req)).ok().map(|evs| {
            evs.into_iter()
                .filter_map(|e| match e {
                    Ev::Row(Some(id), v) => Some((id, v)),
                    _ => None,
                })
                .collect::<Vec<_>>()
        });
        gs.push(((kk, a, b), r));
    }
    let mut res = vec![];
    for r in 0..NR {
        res.push(guarded(|| with_res!(r, R => w.resource_read::<R>().map(|g| g.get()))).map_err(|e| format!("reading a resource panics: {e}"))?);
    }
    Ok(Snap { exist, comps, groups: gs, res })
}
pub fn all_groups() -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for kk in 0..3 {
        for (a, b) in GROUP_PAIRS {
            v.push((kk, a, b))
        }
    }
    v
}
