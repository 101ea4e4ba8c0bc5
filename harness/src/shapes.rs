//! The query shapes: a static description (for the model) and a monomorphic runner.
use crate::row::{go, Ev, Req, Row};
use crate::types::*;
use std::sync::OnceLock;
use xecs::group::{FullOwning, NonOwning, PartialOwning};
use xecs::query::{QueryIterator, Queryable, Without};
use xecs::World;

#[derive(Clone, Debug)]
pub enum Node {
    Comp { ty: usize, mutable: bool },
    Tuple(Vec<Node>),
    Not { pos: Box<Node>, neg: Box<Node> },
    Group { kind: usize, a: usize, b: usize, ma: bool, mb: bool },
}
pub trait Desc {
    fn node() -> Node;
}
impl<'a, T: Comp> Desc for &'a T {
    fn node() -> Node {
        Node::Comp { ty: T::IDX, mutable: false }
    }
}
impl<'a, T: Comp> Desc for &'a mut T {
    fn node() -> Node {
        Node::Comp { ty: T::IDX, mutable: true }
    }
}
impl<A: Desc, B: Desc> Desc for (A, B) {
    fn node() -> Node {
        Node::Tuple(vec![A::node(), B::node()])
    }
}
impl<A: Desc, B: Desc, C: Desc> Desc for (A, B, C) {
    fn node() -> Node {
        Node::Tuple(vec![A::node(), B::node(), C::node()])
    }
}
impl<A: Desc, B: Desc, C: Desc, D: Desc> Desc for (A, B, C, D) {
    fn node() -> Node {
        Node::Tuple(vec![A::node(), B::node(), C::node(), D::node()])
    }
}
impl<A: Desc, B: Desc, C: Desc, D: Desc, E: Desc> Desc for (A, B, C, D, E) {
    fn node() -> Node {
        Node::Tuple(vec![A::node(), B::node(), C::node(), D::node(), E::node()])
    }
}
impl<A: Desc, B: Desc> Desc for (Without<A>, B) {
    fn node() -> Node {
        Node::Not { pos: Box::new(B::node()), neg: Box::new(A::node()) }
    }
}
impl<A: Desc, B: Desc> Desc for (A, Without<B>) {
    fn node() -> Node {
        Node::Not { pos: Box::new(A::node()), neg: Box::new(B::node()) }
    }
}
fn leaf(n: Node) -> (usize, bool) {
    match n {
        Node::Comp { ty, mutable } => (ty, mutable),
        _ => unreachable!(),
    }
}
macro_rules! group_desc {
    ($g:ident, $k:expr) => {
        impl<A: Desc, B: Desc> Desc for $g<A, B> {
            fn node() -> Node {
                let (a, ma) = leaf(A::node());
                let (b, mb) = leaf(B::node());
                Node::Group { kind: $k, a, b, ma, mb }
            }
        }
    };
}
group_desc!(FullOwning, 0);
group_desc!(PartialOwning, 1);
group_desc!(NonOwning, 2);

pub struct Shape {
    pub name: &'static str,
    pub node: Node,
    pub run: fn(&World, &mut Req) -> Vec<Ev>,
    /// Runs the query and returns the live iterator, type-erased (its drop releases it).
    pub hold: for<'w> fn(&'w World) -> Box<dyn Held + 'w>,
    /// component types of the results, in order, with mutability
    pub leaves: Vec<(usize, bool)>,
    /// every component type locked: (type, exclusively)
    pub locks: Vec<(usize, bool)>,
    pub groups: Vec<(usize, usize, usize)>,
    pub has_not: bool,
}
pub trait Held {
    /// Advances the held view by one result; false at the end.
    fn step(&mut self) -> bool;
}
struct HeldQuery<'w, I>(Box<dyn QueryIterator<Item = I> + 'w>, usize);
impl<'w, I: Row> Held for HeldQuery<'w, I> {
    fn step(&mut self) -> bool {
        self.1 += 1;
        let item = if self.1 % 2 == 0 { self.0.next() } else { self.0.next_with_id().map(|x| x.1) };
        match item {
            Some(x) => {
                let mut v = Vec::new();
                x.read(&mut v);
                true
            }
            None => false,
        }
    }
}
fn hold_it<'w, T>(w: &'w World) -> Box<dyn Held + 'w>
where
    T: Queryable<'w> + 'w,
    <T as Queryable<'w>>::Item: Row,
{
    Box::new(HeldQuery(w.query::<T>(), 0))
}

fn walk(n: &Node, leaves: &mut Vec<(usize, bool)>, locks: &mut Vec<(usize, bool)>, groups: &mut Vec<(usize, usize, usize)>, not: &mut bool, pos: bool) {
    match n {
        Node::Comp { ty, mutable } => {
            if pos {
                leaves.push((*ty, *mutable));
            }
            locks.push((*ty, *mutable));
        }
        Node::Tuple(v) => {
            for x in v {
                walk(x, leaves, locks, groups, not, pos)
            }
        }
        Node::Not { pos: p, neg } => {
            *not = true;
            walk(p, leaves, locks, groups, not, pos);
            walk(neg, leaves, locks, groups, not, false);
        }
        Node::Group { kind, a, b, ma, mb } => {
            if pos {
                leaves.push((*a, *ma));
                leaves.push((*b, *mb));
            }
            locks.push((*a, *ma));
            locks.push((*b, *mb));
            groups.push((*kind, *a, *b));
        }
    }
}
pub fn mk(name: &'static str, node: Node, run: fn(&World, &mut Req) -> Vec<Ev>, hold: for<'w> fn(&'w World) -> Box<dyn Held + 'w>) -> Shape {
    let (mut leaves, mut locks, mut groups, mut has_not) = (vec![], vec![], vec![], false);
    walk(&node, &mut leaves, &mut locks, &mut groups, &mut has_not, true);
    Shape { name, node, run, hold, leaves, locks, groups, has_not }
}

macro_rules! shapes {
    ($($t:ty);* $(;)?) => {
        fn build() -> Vec<Shape> {
            vec![$({
                fn node() -> Node { <$t as Desc>::node() }
                fn run(w: &World, r: &mut Req) -> Vec<Ev> { go(w.query::<$t>(), r) }
                fn hold<'w>(w: &'w World) -> Box<dyn Held + 'w> { hold_it::<$t>(w) }
                mk(stringify!($t), node(), run, hold)
            }),*]
        }
    };
}
include!("shapes_table.rs");

pub fn all() -> &'static [Shape] {
    static S: OnceLock<Vec<Shape>> = OnceLock::new();
    S.get_or_init(build)
}
/// Indices of shapes by class.
pub struct Classes {
    pub single: Vec<usize>,
    pub join: Vec<usize>,
    pub group: Vec<usize>,
    pub group_in: Vec<usize>,
    pub not: Vec<usize>,
    pub plain: Vec<usize>,
}
pub fn classes() -> &'static Classes {
    static C: OnceLock<Classes> = OnceLock::new();
    C.get_or_init(|| {
        let mut c = Classes { single: vec![], join: vec![], group: vec![], group_in: vec![], not: vec![], plain: vec![] };
        for (i, s) in all().iter().enumerate() {
            match (&s.node, s.has_not, s.groups.is_empty()) {
                (Node::Comp { .. }, _, _) => c.single.push(i),
                (Node::Group { .. }, _, _) => c.group.push(i),
                (_, true, _) => c.not.push(i),
                (_, false, true) => c.join.push(i),
                (_, false, false) => c.group_in.push(i),
            }
            if s.groups.is_empty() {
                c.plain.push(i)
            }
        }
        c
    })
}
/// Index of the shape with the given kind of group over a pair, all shared.
pub fn group_shape(kind: usize, a: usize, b: usize, ma: bool, mb: bool) -> Option<usize> {
    use std::collections::HashMap;
    static M: OnceLock<HashMap<(usize, usize, usize, bool, bool), usize>> = OnceLock::new();
    M.get_or_init(|| {
        all()
            .iter()
            .enumerate()
            .filter_map(|(i, s)| match &s.node {
                Node::Group { kind, a, b, ma, mb } => Some(((*kind, *a, *b, *ma, *mb), i)),
                _ => None,
            })
            .collect()
    })
    .get(&(kind, a, b, ma, mb))
    .copied()
}
pub fn single_shape(ty: usize, mutable: bool) -> usize {
    ty * 2 + mutable as usize
}
