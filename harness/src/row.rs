//! Generic driver of query iterators: runs a script of steps over any query result and
//! records what came out.
use crate::types::Comp;
use std::num::NonZeroUsize;
use xecs::query::{QueryIterator, WithId};

/// One result of a query, seen as a flat list of component references.
pub trait Row {
    fn read(&self, out: &mut Vec<i64>);
    /// Offers every exclusive reference to `f` (leaf number, current value); writes back.
    fn write(&mut self, leaf: &mut usize, f: &mut dyn FnMut(usize, i64) -> Option<i64>);
}
impl<'a, T: Comp> Row for &'a T {
    fn read(&self, out: &mut Vec<i64>) {
        out.push((**self).get())
    }
    fn write(&mut self, leaf: &mut usize, _: &mut dyn FnMut(usize, i64) -> Option<i64>) {
        *leaf += 1
    }
}
impl<'a, T: Comp> Row for &'a mut T {
    fn read(&self, out: &mut Vec<i64>) {
        out.push((**self).get())
    }
    fn write(&mut self, leaf: &mut usize, f: &mut dyn FnMut(usize, i64) -> Option<i64>) {
        let old = (**self).get();
        if let Some(v) = f(*leaf, old) {
            (**self).set(v)
        }
        *leaf += 1
    }
}
macro_rules! row_tuple {
    ($($n:ident $i:tt),*) => {
        impl<$($n: Row),*> Row for ($($n,)*) {
            fn read(&self, out: &mut Vec<i64>) { $( self.$i.read(out); )* }
            fn write(&mut self, leaf: &mut usize, f: &mut dyn FnMut(usize, i64) -> Option<i64>) {
                $( self.$i.write(leaf, f); )*
            }
        }
    };
}
row_tuple!(A 0, B 1);
row_tuple!(A 0, B 1, C 2);
row_tuple!(A 0, B 1, C 2, D 3);
row_tuple!(A 0, B 1, C 2, D 3, E 4);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    Hint,
    Next,
    NextId,
    Probe(usize),
    Nth(usize),
    /// `by_ref().take(k)`
    Take(usize),
    /// `by_ref().skip(k).next()`
    Skip(usize),
    DrainNext,
    DrainId,
    /// `for_each` (consumes the iterator; only last)
    Fold,
    Count,
    Last,
    /// Collects everything left before looking at (and writing through) any of it.
    HoldId,
    HoldNext,
    /// `with_id()` and what is done with it (consumes the iterator; only last)
    WithId(Use, usize),
    /// the same of the iterator itself
    Rest(Use, usize),
}

/// How the rest of an iterator is used up.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Use {
    For,
    Fold,
    Collect,
    Count,
    Last,
    /// `nth(k)` again and again
    Nth,
    StepBy,
    Skip,
    Take,
    /// `find` some position
    Find,
}
pub const USES: [Use; 10] = [Use::For, Use::Fold, Use::Collect, Use::Count, Use::Last, Use::Nth, Use::StepBy, Use::Skip, Use::Take, Use::Find];

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Hint(usize, Option<usize>),
    Row(Option<usize>, Vec<i64>),
    End(bool),
    Probe(usize, Option<Vec<i64>>),
    /// nth(k) skipped k results
    Skipped(usize),
    Count(usize),
    Last(Option<Vec<i64>>),
    LastId(Option<usize>),
    /// more results than can possibly exist
    Overflow,
    /// a write made through the result just recorded: leaf, value seen, value written
    Wrote(Option<usize>, usize, i64, i64),
}

pub type Writer<'x> = dyn FnMut(Option<usize>, usize, i64) -> Option<i64> + 'x;

pub struct Req<'r> {
    pub steps: &'r [Step],
    pub cap: usize,
    /// (id when known, leaf, old value) -> new value
    pub writer: Option<&'r mut Writer<'r>>,
}

thread_local! {
    static BOMB: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
/// The caller's code panics when it has seen `n` more results; `usize::MAX`: never.
pub fn set_bomb(n: usize) -> usize {
    BOMB.with(|b| b.replace(n))
}

fn see<I: Row>(item: &mut I, id: Option<usize>, req: &mut Req, out: &mut Vec<Ev>, probe: bool) {
    BOMB.with(|b| match b.get() {
        usize::MAX => {}
        0 => {
            b.set(usize::MAX);
            panic!("the caller's code panics")
        }
        n => b.set(n - 1),
    });
    let mut v = Vec::new();
    item.read(&mut v);
    out.push(if probe { Ev::Probe(id.unwrap(), Some(v)) } else { Ev::Row(id, v) });
    if let Some(w) = req.writer.as_mut() {
        let mut leaf = 0;
        item.write(&mut leaf, &mut |l, old| {
            let new = w(id, l, old);
            if let Some(n) = new {
                out.push(Ev::Wrote(id, l, old, n));
            }
            new
        });
    }
}

/// Uses up an iterator with the given methods of the standard iterator trait.
#[allow(clippy::too_many_arguments)]
fn finish<T, I: Row>(mut it: impl Iterator<Item = T>, u: Use, k: usize, cap: usize, req: &mut Req, out: &mut Vec<Ev>, split: &mut dyn FnMut(T) -> (Option<usize>, I), ids: bool) {
    let mut n = 0;
    let mut one = |x: T, req: &mut Req, out: &mut Vec<Ev>| {
        n += 1;
        if n > cap {
            panic!("more results than there are entities");
        }
        let (id, mut x) = split(x);
        see(&mut x, id, req, out, false);
    };
    let (lo, hi) = it.size_hint();
    out.push(Ev::Hint(lo, hi));
    match u {
        Use::For => {
            for x in it {
                one(x, req, out)
            }
            out.push(Ev::End(ids))
        }
        Use::Fold => {
            it.fold((), |_, x| one(x, req, out));
            out.push(Ev::End(ids))
        }
        Use::Collect => {
            if lo > cap {
                panic!("more results promised than there are entities");
            }
            for x in it.collect::<Vec<T>>() {
                one(x, req, out)
            }
            out.push(Ev::End(ids))
        }
        Use::Count => out.push(Ev::Count(it.count())),
        Use::Last => {
            let l = it.last().map(|x| split(x));
            out.push(Ev::LastId(l.as_ref().and_then(|x| x.0)));
            out.push(Ev::Last(l.map(|x| {
                let mut v = Vec::new();
                x.1.read(&mut v);
                v
            })))
        }
        Use::Nth => {
            while let Some(x) = it.nth(k) {
                out.push(Ev::Skipped(k));
                one(x, req, out);
                let (lo, hi) = it.size_hint();
                out.push(Ev::Hint(lo, hi));
            }
            out.push(Ev::Skipped(usize::MAX));
            let (lo, hi) = it.size_hint();
            out.push(Ev::Hint(lo, hi));
            if it.next().is_none() {
                out.push(Ev::End(ids))
            } else {
                out.push(Ev::Overflow)
            }
        }
        Use::StepBy => {
            let mut first = true;
            for x in it.step_by(k + 1) {
                if !first {
                    out.push(Ev::Skipped(k));
                }
                first = false;
                one(x, req, out);
            }
            out.push(Ev::Skipped(usize::MAX));
            out.push(Ev::End(ids))
        }
        Use::Skip => {
            let mut first = true;
            for x in it.skip(k) {
                if first {
                    out.push(Ev::Skipped(k));
                }
                first = false;
                one(x, req, out);
            }
            if first {
                out.push(Ev::Skipped(usize::MAX));
            }
            out.push(Ev::End(ids))
        }
        Use::Take => {
            for x in it.by_ref().take(k) {
                one(x, req, out)
            }
            let (lo, hi) = it.size_hint();
            out.push(Ev::Hint(lo, hi));
            for x in it {
                one(x, req, out)
            }
            out.push(Ev::End(ids))
        }
        Use::Find => {
            let mut at = 0;
            let x = it.find(|_| {
                at += 1;
                at == k + 1
            });
            match x {
                Some(x) => {
                    out.push(Ev::Skipped(k));
                    one(x, req, out);
                }
                None => out.push(Ev::Skipped(usize::MAX)),
            }
            for x in it {
                one(x, req, out)
            }
            out.push(Ev::End(ids))
        }
    }
}

pub fn go<'a, I: Row>(it: Box<dyn QueryIterator<Item = I> + 'a>, req: &mut Req) -> Vec<Ev> {
    let mut it = Some(it);
    let mut out = Vec::new();
    let mut n = 0usize;
    let cap = req.cap;
    let steps = req.steps;
    for s in steps {
        let Some(i) = it.as_mut() else { break };
        match *s {
            Step::Hint => {
                let (l, h) = i.size_hint();
                out.push(Ev::Hint(l, h))
            }
            Step::Next => match i.next() {
                Some(mut x) => {
                    n += 1;
                    see(&mut x, None, req, &mut out, false);
                }
                None => out.push(Ev::End(false)),
            },
            Step::NextId => match i.next_with_id() {
                Some((id, mut x)) => {
                    n += 1;
                    see(&mut x, Some(id.get()), req, &mut out, false);
                }
                None => out.push(Ev::End(true)),
            },
            Step::Probe(id) => {
                let nz = NonZeroUsize::new(id).unwrap();
                match i.from_id(nz) {
                    Some(mut x) => see(&mut x, Some(id), req, &mut out, true),
                    None => out.push(Ev::Probe(id, None)),
                }
            }
            Step::Nth(k) => match i.nth(k) {
                Some(mut x) => {
                    out.push(Ev::Skipped(k));
                    see(&mut x, None, req, &mut out, false);
                    n += k + 1;
                }
                None => {
                    out.push(Ev::Skipped(usize::MAX));
                    out.push(Ev::End(false))
                }
            },
            Step::Take(k) => {
                for mut x in i.by_ref().take(k) {
                    n += 1;
                    see(&mut x, None, req, &mut out, false);
                }
            }
            Step::Skip(k) => match i.by_ref().skip(k).next() {
                Some(mut x) => {
                    out.push(Ev::Skipped(k));
                    see(&mut x, None, req, &mut out, false);
                    n += k + 1;
                }
                None => {
                    out.push(Ev::Skipped(usize::MAX));
                    out.push(Ev::End(false))
                }
            },
            Step::DrainNext => {
                while let Some(mut x) = i.next() {
                    n += 1;
                    if n > cap {
                        out.push(Ev::Overflow);
                        return out;
                    }
                    see(&mut x, None, req, &mut out, false);
                }
                out.push(Ev::End(false))
            }
            Step::DrainId => {
                while let Some((id, mut x)) = i.next_with_id() {
                    n += 1;
                    if n > cap {
                        out.push(Ev::Overflow);
                        return out;
                    }
                    see(&mut x, Some(id.get()), req, &mut out, false);
                }
                out.push(Ev::End(true))
            }
            Step::Fold => {
                let rest = it.take().unwrap();
                rest.take(cap + 1).for_each(|mut x| {
                    see(&mut x, None, req, &mut out, false);
                });
                out.push(Ev::End(false))
            }
            Step::Count => {
                let rest = it.take().unwrap();
                out.push(Ev::Count(rest.take(cap + 1).count()))
            }
            Step::Last => {
                let rest = it.take().unwrap();
                let l = rest.take(cap + 1).last();
                out.push(Ev::Last(l.map(|x| {
                    let mut v = Vec::new();
                    x.read(&mut v);
                    v
                })))
            }
            Step::HoldId => {
                let mut held = Vec::new();
                while let Some((id, x)) = i.next_with_id() {
                    n += 1;
                    if n > cap {
                        out.push(Ev::Overflow);
                        return out;
                    }
                    held.push((id, x));
                }
                for (id, x) in held.iter_mut() {
                    see(x, Some(id.get()), req, &mut out, false);
                }
                out.push(Ev::End(true))
            }
            Step::HoldNext => {
                let mut held = Vec::new();
                while let Some(x) = i.next() {
                    n += 1;
                    if n > cap {
                        out.push(Ev::Overflow);
                        return out;
                    }
                    held.push(x);
                }
                for x in held.iter_mut() {
                    see(x, None, req, &mut out, false);
                }
                out.push(Ev::End(false))
            }
            Step::WithId(u, k) => {
                let rest = it.take().unwrap().with_id();
                finish(rest, u, k, cap, req, &mut out, &mut |(id, x)| (Some(id.get()), x), true)
            }
            Step::Rest(u, k) => {
                let rest = it.take().unwrap();
                finish(rest, u, k, cap, req, &mut out, &mut |x| (None, x), false)
            }
        }
    }
    out
}
