//! C29: the compiler turns away unsafe uses. A case is a generated program with one forbidden
//! step and its twin without it; the real compiler is asked about both, with the crate built
//! from the repository (no shim). The twin must compile, the program must not.
use crate::engine::{fnv, Case, Profile, RawOp};
use crate::props::{Fail, Prop, Report, Res};
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

/// Choices of a case; 0 for ever when started with 0, so that shrinking leads to the plainest program.
struct Dice(u64);
impl Dice {
    fn roll(&mut self, n: usize) -> usize {
        if self.0 == 0 {
            return 0;
        }
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
        ((self.0 >> 33) as usize) % n
    }
    fn of<'a>(&mut self, v: &[&'a str]) -> &'a str {
        v[self.roll(v.len())]
    }
}

const HEAD: &str = "#![allow(warnings)]
use api::xecs::{*, group::*, query::*};
use std::{cell::*, rc::*, sync::{*, atomic::*}, ops::{Deref, DerefMut}, collections::*, marker::PhantomData};
#[derive(Default)] pub struct A(pub u32);
#[derive(Default)] pub struct B(pub String);
#[derive(Default)] pub struct C(pub [u8; 3]);
#[derive(Default)] pub struct R(pub Vec<u32>);
pub struct Wrap<T>(pub T);
pub enum Tree<T> { Leaf, Node(T) }
pub trait Change { fn change(&mut self) {} }
impl Change for A {} impl Change for B {} impl Change for C {} impl Change for R {}
fn used<T: ?Sized>(_: &T) {}
fn stored<T: 'static>(_: T) {}
fn changed(_: &mut World) {}
fn setup() -> (World, EntityId, EntityId) {
    let mut world = World::new();
    world.register::<A>().register::<B>().register::<C>();
    world.register_resource(R::default());
    let id = world.create_entity().attach(A(1)).attach(B::default()).into_id();
    let id2 = world.create_entity().attach(A(2)).attach(C::default()).into_id();
    (world, id, id2)
}
";

const TYPES: [&str; 3] = ["A", "B", "C"];

// ------------------------------------------------------------------ queries

#[derive(Clone)]
enum Q {
    One(&'static str, bool),
    Group(&'static str, (&'static str, bool), (&'static str, bool)),
    Tuple(Vec<Q>),
    /// excluded part, kept part, excluded part first?
    Not(Box<Q>, Box<Q>, bool),
}
fn query(d: &mut Dice, depth: usize) -> Q {
    let t = |d: &mut Dice| TYPES[d.roll(3)];
    match d.roll(if depth == 0 { 4 } else { 9 }) {
        0 | 1 | 2 => Q::One(t(d), d.roll(2) == 1),
        3 | 4 => {
            let g = d.of(&["FullOwning", "PartialOwning", "NonOwning"]);
            Q::Group(g, (t(d), d.roll(2) == 1), (t(d), d.roll(2) == 1))
        }
        5 => {
            let first = d.roll(2) == 1;
            Q::Not(Box::new(query(d, depth - 1)), Box::new(query(d, depth - 1)), first)
        }
        _ => {
            let n = 2 + d.roll(4);
            Q::Tuple((0..n).map(|_| query(d, depth - 1)).collect())
        }
    }
}
impl Q {
    fn text(&self, life: &str) -> String {
        let r = |(t, m): (&str, bool)| format!("&{life}{}{t}", if m { "mut " } else { "" });
        match self {
            Q::One(t, m) => r((t, *m)),
            Q::Group(g, a, b) => format!("{g}<{}, {}>", r(*a), r(*b)),
            Q::Tuple(v) => format!("({})", v.iter().map(|q| q.text(life)).collect::<Vec<_>>().join(", ")),
            Q::Not(x, q, true) => format!("(Without<{}>, {})", x.text(life), q.text(life)),
            Q::Not(x, q, false) => format!("({}, Without<{}>)", q.text(life), x.text(life)),
        }
    }
    /// Where the references are in an item: path and type.
    fn leaves(&self, at: &str, out: &mut Vec<(String, &'static str)>) {
        match self {
            Q::One(t, _) => out.push((at.into(), t)),
            Q::Group(_, a, b) => {
                out.push((format!("{at}.0"), a.0));
                out.push((format!("{at}.1"), b.0));
            }
            Q::Tuple(v) => v.iter().enumerate().for_each(|(i, q)| q.leaves(&format!("{at}.{i}"), out)),
            Q::Not(_, q, _) => q.leaves(at, out),
        }
    }
    /// The same query with its n-th reference exclusive or shared.
    fn with(&self, n: &mut usize, m: bool) -> Q {
        let mut one = |x: bool| {
            let hit = *n == 0;
            *n = n.wrapping_sub(1);
            if hit { m } else { x }
        };
        match self {
            Q::One(t, x) => Q::One(t, one(*x)),
            Q::Group(g, a, b) => Q::Group(g, (a.0, one(a.1)), (b.0, one(b.1))),
            Q::Tuple(v) => Q::Tuple(v.iter().map(|q| q.with(n, m)).collect()),
            Q::Not(x, q, f) => Q::Not(x.clone(), Box::new(q.with(n, m)), *f),
        }
    }
}

// ------------------------------------------------------------------ views

struct View {
    text: String,
    /// references to components, which any thread may use
    items: bool,
}
fn view(d: &mut Dice, guards: bool) -> View {
    let t = TYPES[d.roll(3)];
    let q = query(d, 2).text("");
    let id = d.of(&["id", "id2"]);
    let plain = |s: String| View { text: s, items: false };
    let v = match d.roll(if guards { 15 } else { 20 }) {
        0 => plain(format!("world.components_read::<{t}>().unwrap()")),
        1 => plain(format!("world.components_write::<{t}>().unwrap()")),
        2 => plain(format!("world.entity_component_read::<{t}>({id}).unwrap()")),
        3 => plain(format!("world.entity_component_write::<{t}>({id}).unwrap()")),
        4 => plain("world.resource_read::<R>().unwrap()".into()),
        5 => plain("world.resource_write::<R>().unwrap()".into()),
        6 => plain("world.create_entity()".into()),
        7 => plain(format!("world.create_entity().attach({t}::default())")),
        8 => plain("world.create_entities(2)".into()),
        9 => plain(format!("world.create_entities(1).attach(vec![{t}::default()])")),
        10 => plain(format!("world.entity({id}).unwrap()")),
        11 | 12 => plain(format!("world.query::<{q}>()")),
        13 => plain(format!("world.query::<{q}>().with_id()")),
        14 => plain(format!("world.query::<{q}>(){}", d.of(&[".map(|x| x)", ".filter(|_| true)", ".enumerate()", ".peekable()", ".skip(1)", ".with_id().take(2)"]))),
        15 => View { text: format!("world.query::<{q}>().next().unwrap()"), items: true },
        16 => View { text: format!("world.query::<{q}>().with_id().next().unwrap().1"), items: true },
        17 => View { text: format!("world.query::<{q}>().from_id({id}).unwrap()"), items: true },
        18 => View { text: format!("world.query::<{q}>().collect::<Vec<_>>()"), items: true },
        _ => View { text: format!("world.query::<{q}>().with_id().collect::<HashMap<_, _>>()"), items: true },
    };
    let wrap = d.roll(12);
    let text = match wrap {
        1 => format!("Some({})", v.text),
        2 => format!("({}, 1)", v.text),
        3 => format!("vec![{}]", v.text),
        4 => format!("Box::new({})", v.text),
        5 => format!("Wrap({})", v.text),
        6 => format!("[{}]", v.text),
        _ => v.text,
    };
    View { text, ..v }
}
/// Statements that change the world as a whole.
fn mutation(d: &mut Dice) -> String {
    let (a, b) = (TYPES[d.roll(3)], TYPES[d.roll(3)]);
    match d.roll(14) {
        0 => "world.register::<u64>();".into(),
        1 => "drop(world);".into(),
        2 => "world.register_resource(R::default());".into(),
        3 => format!("world.make_group(full_owning::<{a}, {b}>());"),
        4 => format!("world.make_group(partial_owning::<{a}, {b}>());"),
        5 => format!("world.make_group(non_owning::<{a}, {b}>());"),
        6 => "world = World::new();".into(),
        7 => "std::mem::swap(&mut world, &mut World::new());".into(),
        8 => "let moved = world; used(&moved);".into(),
        9 => "let moved = Box::new(world); used(&moved);".into(),
        10 => "changed(&mut world);".into(),
        11 => "std::thread::spawn(move || { used(&world); });".into(),
        12 => "world.register_resource(5u8);".into(),
        _ => "let old = std::mem::replace(&mut world, World::new()); drop(old);".into(),
    }
}
/// A harmless step; only looks at the world by shared reference.
fn noise(op: &RawOp, n: usize) -> String {
    let mut d = Dice(((op.1 as u64) << 32 | (op.2 as u64) << 16 | op.3 as u64) * ((op.4 as u64) | 1));
    let t = TYPES[op.1 as usize % 3];
    match op.2 % 16 {
        0 => format!("world.create_entity().attach({t}::default());"),
        1 => format!("{{ let g = world.components_read::<{t}>().unwrap(); used(g.data()); }}"),
        2 => format!("{{ let mut g = world.components_write::<{t}>().unwrap(); used(&g.get_mut(id2)); g.data_mut().reverse(); }}"),
        3 => format!("for x in world.query::<{}>() {{ used(&x); }}", query(&mut d, 2).text("")),
        4 => format!("let n{n} = world.query::<{}>().with_id().map(|(i, _)| i).collect::<Vec<_>>();", query(&mut d, 2).text("")),
        5 => format!("world.create_entities(2).attach(vec![{t}::default(), {t}::default()]);"),
        6 => format!("world.attach_component(id, {t}::default());"),
        7 => format!("let n{n} = world.detach_component::<{t}>(id2);"),
        8 => "world.create_entity().manaully_drop();".into(),
        9 => format!("let n{n} = world.exist(id) && world.has_registered::<{t}>();"),
        10 => "world.resource_write::<R>().unwrap().0.push(1);".into(),
        11 => format!("{{ let h = world.entity(id).unwrap(); used(&h.detach::<{t}>()); used(&h.component_read::<A>().map(|x| x.0)); }}"),
        12 => format!("std::thread::scope(|s| {{ s.spawn(|| {{ used(&world.components_read::<{t}>().unwrap().count()); }}); }});"),
        13 => format!("if let Some(mut x) = world.entity_component_write::<{t}>(id) {{ x.change(); }};"),
        14 => format!("let n{n} = world.query::<{}>().size_hint();", query(&mut d, 2).text("")),
        _ => "world.remove_entity(world.create_entity().into_id());".into(),
    }
}

// ------------------------------------------------------------------ programs

struct Pair {
    kind: &'static str,
    /// error codes that say what is forbidden
    codes: &'static [&'static str],
    bad: String,
    good: String,
}
const LIVES: &[&str] = &["E0505", "E0506", "E0502", "E0499", "E0597", "E0515", "E0716", "E0521", "E0373", "E0382", "E0713", "lifetime", "E0310", "E0700"];

/// Type and value, shareable or not.
fn value(d: &mut Dice, good: bool) -> (String, String) {
    // (type, value) of what must not be stored, and what it becomes in the twin
    let base: [(&str, &str, &str, &str); 18] = [
        ("Rc<u8>", "Rc::new(1)", "Arc<u8>", "Arc::new(1)"),
        ("Cell<u8>", "Cell::new(1)", "AtomicU8", "AtomicU8::new(1)"),
        ("&'x str", "text", "&'static str", "\"text\""),
        ("RefCell<u8>", "RefCell::new(1)", "RwLock<u8>", "RwLock::new(1)"),
        ("*const u8", "std::ptr::null()", "usize", "0"),
        ("*mut u8", "std::ptr::null_mut()", "AtomicPtr<u8>", "AtomicPtr::new(std::ptr::null_mut())"),
        ("Weak<u8>", "Weak::new()", "std::sync::Weak<u8>", "std::sync::Weak::new()"),
        ("MutexGuard<'static, u8>", "lock()", "&'static Mutex<u8>", "&LOCK"),
        ("mpsc::Receiver<u8>", "mpsc::channel().1", "mpsc::Sender<u8>", "mpsc::channel().0"),
        ("Box<dyn Fn()>", "(Box::new(|| ()) as Box<dyn Fn()>)", "Box<dyn Fn() + Send + Sync>", "(Box::new(|| ()) as Box<dyn Fn() + Send + Sync>)"),
        ("Box<dyn std::any::Any>", "(Box::new(1) as Box<dyn std::any::Any>)", "Box<dyn std::any::Any + Send + Sync>", "(Box::new(1) as Box<dyn std::any::Any + Send + Sync>)"),
        ("Box<dyn std::any::Any + Send>", "(Box::new(1) as Box<dyn std::any::Any + Send>)", "Mutex<Box<dyn std::any::Any + Send>>", "Mutex::new(Box::new(1) as Box<dyn std::any::Any + Send>)"),
        ("&'x u32", "number", "u32", "*number"),
        ("std::borrow::Cow<'x, str>", "text.into()", "std::borrow::Cow<'static, str>", "\"text\".into()"),
        ("PhantomData<*const u8>", "PhantomData", "PhantomData<u8>", "PhantomData"),
        ("&'static Cell<u8>", "&*Box::leak(Box::new(Cell::new(1)))", "&'static u8", "&1"),
        ("std::cell::OnceCell<u8>", "std::cell::OnceCell::new()", "OnceLock<u8>", "OnceLock::new()"),
        ("RwLock<Cell<u8>>", "RwLock::new(Cell::new(1))", "Mutex<Cell<u8>>", "Mutex::new(Cell::new(1))"),
    ];
    let b = base[d.roll(base.len())];
    let (mut t, mut v) = if good { (b.2.to_string(), b.3.to_string()) } else { (b.0.to_string(), b.1.to_string()) };
    let n = d.roll(3);
    for _ in 0..n {
        (t, v) = match d.roll(12) {
            0 => (format!("Option<{t}>"), format!("Some({v})")),
            1 => (format!("({t}, u8)"), format!("({v}, 1)")),
            2 => (format!("(B, {t})"), format!("(B::default(), {v})")),
            3 => (format!("[{t}; 1]"), format!("[{v}]")),
            4 => (format!("Vec<{t}>"), format!("vec![{v}]")),
            5 => (format!("Box<{t}>"), format!("Box::new({v})")),
            6 => (format!("Wrap<{t}>"), format!("Wrap({v})")),
            7 => (format!("Arc<{t}>"), format!("Arc::new({v})")),
            8 => (format!("Result<u8, {t}>"), format!("Err({v})")),
            9 => (format!("Tree<{t}>"), format!("Tree::Node({v})")),
            10 => (format!("RwLock<{t}>"), format!("RwLock::new({v})")),
            _ => (format!("VecDeque<{t}>"), format!("VecDeque::from([{v}])")),
        };
    }
    (t, v)
}

/// A reference taken out of a view: the view, what comes before it, the reference, and whether it is a method call.
fn inner(d: &mut Dice) -> (String, &'static str, String, bool) {
    let t = TYPES[d.roll(3)];
    let id = d.of(&["id", "id2"]);
    let pre = if d.roll(4) == 1 { "let h = world.entity(id).unwrap();" } else { "" };
    match d.roll(6) {
        0 => {
            let r = d.of(&["g.get(ID).unwrap()", "g.data()", "g.get(ID)", "g.data().iter()", "g.data().first()", "unsafe { g.get_unchecked(ID) }", "&g.data()[0]"]);
            (format!("world.components_read::<{t}>().unwrap()"), "", r.replace("ID", id), !r.starts_with('&'))
        }
        1 => {
            let r = d.of(&[
                "g.get(ID).unwrap()", "g.data()", "g.get_mut(ID).unwrap()", "g.data_mut()", "g.data_mut().iter_mut()", "g.get_mut(ID)", "unsafe { g.get_unchecked(ID) }",
                "unsafe { g.get_unchecked_mut(ID) }", "&mut g.data_mut()[0]", "g.data_mut().split_at_mut(1)", "g.data_mut().first_mut()",
            ]);
            (format!("world.components_write::<{t}>().unwrap()"), "", r.replace("ID", id), !r.starts_with('&'))
        }
        2 => {
            let r = d.of(&["g.deref()", "&*g", "&g.0"]);
            let v = if pre.is_empty() { format!("world.entity_component_read::<{t}>({id}).unwrap()") } else { format!("h.component_read::<{t}>().unwrap()") };
            (v, pre, r.into(), !r.starts_with('&'))
        }
        3 => {
            let r = d.of(&["g.deref_mut()", "g.deref()", "&*g", "&mut *g", "&mut g.0", "&g.0"]);
            let v = if pre.is_empty() { format!("world.entity_component_write::<{t}>({id}).unwrap()") } else { format!("h.component_write::<{t}>().unwrap()") };
            (v, pre, r.into(), !r.starts_with('&'))
        }
        4 => {
            let r = d.of(&["g.deref()", "&*g", "&g.0", "g.0.iter()", "g.0.as_slice()"]);
            ("world.resource_read::<R>().unwrap()".into(), "", r.into(), !r.starts_with('&'))
        }
        _ => {
            let r = d.of(&["g.deref_mut()", "g.deref()", "&*g", "&mut *g", "&mut g.0", "g.0.iter_mut()"]);
            ("world.resource_write::<R>().unwrap()".into(), "", r.into(), !r.starts_with('&'))
        }
    }
}

fn core(d: &mut Dice, cfg: &[u16; 6], mid: &str) -> Pair {
    let two = |kind, codes, body: &dyn Fn(bool) -> String| Pair { kind, codes, bad: body(true), good: body(false) };
    match cfg[0] % 16 {
        // a value that no other thread may touch, or that does not live long enough
        0 | 1 => {
            let seed = d.0;
            let how = cfg[1] % 6;
            let body = |bad: bool| {
                let (t, v) = value(&mut Dice(seed), !bad);
                let put = match how {
                    0 => "world.create_entity().attach(v);".to_string(),
                    1 => "world.attach_component(id, v);".to_string(),
                    2 => "world.register_resource(v);".to_string(),
                    3 => "world.create_entities(1).attach(vec![v]);".to_string(),
                    4 => "world.entity(id).unwrap().attach(v).attach(A(7));".to_string(),
                    _ => "world.create_entities(1).attach(vec![A(3)]).attach([v]);".to_string(),
                };
                format!("let v: {t} = {v};\n{mid}\n{put}")
            };
            two("value that must not be stored", &["E0277", "E0521", "E0597", "lifetime", "E0310"], &body)
        }
        // a view outlives its world
        2 | 3 => {
            let v = view(d, false).text;
            let form = cfg[1] % 5;
            let body = |bad: bool| match form {
                0 => format!("let x = {v};\n{mid}\nused(&x);\n{}", if bad { "drop(world);\nused(&x);" } else { "drop(x);\ndrop(world);" }),
                1 if bad => format!("let x;\n{{\nlet (mut world, id, id2) = setup();\nx = {v};\n{mid}\nused(&x);\n}}\nused(&x);"),
                1 => format!("{{\nlet (mut world, id, id2) = setup();\nlet x;\nx = {v};\n{mid}\nused(&x);\n}}"),
                2 if bad => format!("fn give() -> impl Sized {{\nlet (mut world, id, id2) = setup();\n{mid}\n{v}\n}}\nused(&give());"),
                2 => format!("fn give<'w>(world: &'w World, id: EntityId, id2: EntityId) -> impl Sized + 'w {{\n{mid}\n{v}\n}}\nused(&give(&world, id, id2));"),
                3 => format!("{}\n{mid}\nstored({v});", if bad { "" } else { "let world: &'static World = Box::leak(Box::new(world));" }),
                _ if bad => format!("let w = &world;\nstd::thread::spawn(move || {{\nlet world = w;\nlet x = {v};\nused(&x);\n}});\n{mid}"),
                _ => format!("let w = &world;\nstd::thread::scope(|s| {{\ns.spawn(move || {{\nlet world = w;\nlet x = {v};\nused(&x);\n}});\n}});\n{mid}"),
            };
            two("view outlives its world", LIVES, &body)
        }
        // the world as a whole is changed under a view
        4 | 5 | 6 => {
            let v = view(d, false).text;
            let m = mutation(d);
            let body = |bad: bool| format!("let x = {v};\n{mid}\n{}", if bad { format!("{m}\nused(&x);") } else { format!("used(&x);\ndrop(x);\n{m}") });
            two("world changed under a view", LIVES, &body)
        }
        // a reference outlives the view it was taken from
        7 | 8 => {
            let (v, pre, r, method) = inner(d);
            let form = cfg[1] % 5;
            let body = |bad: bool| match form {
                1 => format!("{pre}\nlet r;\n{{\nlet mut g = {v};\nr = {r};\n{mid}\nused(&r);\n}}\n{}", if bad { "used(&r);" } else { "" }),
                2 if method => {
                    let w = if r.contains("g.") { r.replacen("g.", &format!("{v}."), 1) } else { r.clone() };
                    if bad { format!("{pre}\nlet r = {w};\n{mid}\nused(&r);") } else { format!("{pre}\n{mid}\nused(&{w});") }
                }
                3 if pre.is_empty() => {
                    if bad {
                        format!("fn give<'w>(world: &'w World, id: EntityId, id2: EntityId) -> impl Sized + 'w {{\n{mid}\nlet mut g = {v};\n{r}\n}}\nused(&give(&world, id, id2));")
                    } else {
                        format!("fn give<'w>(world: &'w World, id: EntityId, id2: EntityId) -> impl Sized + 'w {{\n{mid}\nlet mut g = {v};\nused(&{r});\ng\n}}\nused(&give(&world, id, id2));")
                    }
                }
                4 => {
                    if bad {
                        format!("{pre}\nlet mut v = Vec::new();\nfor n in 0..2 {{\nlet mut g = {v};\nv.push({r});\n{mid}\n}}\nused(&v);")
                    } else {
                        format!("{pre}\nfor n in 0..2 {{\nlet mut g = {v};\nlet mut v = Vec::new();\nv.push({r});\n{mid}\nused(&v);\n}}")
                    }
                }
                _ => format!("{pre}\nlet mut g = {v};\nlet r = {r};\n{mid}\n{}", if bad { "drop(g);\nused(&r);" } else { "used(&r);\ndrop(g);" }),
            };
            two("reference outlives its view", LIVES, &body)
        }
        // a change through something shared
        9 | 10 | 11 => {
            let act = d.of(&["*PLACE = Default::default();", "let m: &mut TY = &mut *PLACE; used(m);", "std::mem::swap(&mut *PLACE, &mut Default::default());", "PLACE.change();", "(*PLACE).0 = Default::default();", "let y = std::mem::take(&mut *PLACE);", "MOVE"]);
            let t = TYPES[d.roll(3)];
            let id = d.of(&["id", "id2"]);
            // view, place when shared; view, place when exclusive; before the act and after it
            let q = query(d, 2);
            let mut leaves = vec![];
            q.leaves("x", &mut leaves);
            let n = d.roll(leaves.len());
            let (qs, qm) = (q.with(&mut { n }, false).text(""), q.with(&mut { n }, true).text(""));
            let at = format!("({})", leaves[n].0);
            let r = |q: &str| format!("let mut g = world.query::<{q}>();");
            let read = |s: &str| format!("let g = world.{s};");
            let write = |s: &str| format!("let mut g = world.{s};");
            let (cr, cw) = (format!("components_read::<{t}>().unwrap()"), format!("components_write::<{t}>().unwrap()"));
            let (er, ew) = (format!("entity_component_read::<{t}>({id}).unwrap()"), format!("entity_component_write::<{t}>({id}).unwrap()"));
            let get = format!("(g.get({id}).unwrap())");
            let get_mut = format!("(g.get_mut({id}).unwrap())");
            let (ty, a, pa, b, pb): (&str, String, String, String, String) = match cfg[1] % 12 {
                0 => (t, read(&cr), get, write(&cw), get_mut),
                1 => (t, read(&cr), "(&g.data()[0])".into(), write(&cw), "(&mut g.data_mut()[0])".into()),
                2 => (t, write(&cw), get, write(&cw), get_mut),
                3 => (t, write(&cw), "(&g.data()[0])".into(), write(&cw), "(&mut g.data_mut()[0])".into()),
                4 => (t, write(&er), "g".into(), write(&ew), "g".into()),
                5 => ("R", write("resource_read::<R>().unwrap()"), "g".into(), write("resource_write::<R>().unwrap()"), "g".into()),
                6 => (leaves[n].1, format!("{} let mut x = g.next().unwrap();", r(&qs)), at.clone(), format!("{} let mut x = g.next().unwrap();", r(&qm)), at.clone()),
                7 => (leaves[n].1, format!("{} let mut x = g.from_id({id}).unwrap();", r(&qs)), at.clone(), format!("{} let mut x = g.from_id({id}).unwrap();", r(&qm)), at.clone()),
                8 => (leaves[n].1, format!("for (_, mut x) in world.query::<{qs}>().with_id() {{"), at.clone(), format!("for (_, mut x) in world.query::<{qm}>().with_id() {{"), at.clone()),
                9 => (leaves[n].1, format!("for mut x in world.query::<{qs}>() {{"), at.clone(), format!("for mut x in world.query::<{qm}>() {{"), at.clone()),
                10 => (leaves[n].1, format!("world.query::<{qs}>().for_each(|mut x| {{"), at.clone(), format!("world.query::<{qm}>().for_each(|mut x| {{"), at.clone()),
                _ => (t, format!("let h = world.entity({id}).unwrap(); let mut g = h.component_read::<{t}>().unwrap();"), "g".into(), format!("let h = world.entity({id}).unwrap(); let mut g = h.component_write::<{t}>().unwrap();"), "g".into()),
            };
            let body = |bad: bool| {
                let (v, p) = if bad { (&a, &pa) } else { (&b, &pb) };
                // `PLACE` is a reference or something that derefs to the component
                let act = if act == "MOVE" {
                    if bad { "let y = *PLACE;".to_string() } else { "let y = &*PLACE;".into() }
                } else {
                    act.to_string()
                };
                let act = act.replace("PLACE", p).replace("TY", ty);
                let end = if v.starts_with("for ") { "}" } else if v.contains("for_each") { "});" } else { "" };
                format!("{v}\n{mid}\n{act}\n{end}")
            };
            two("change through something shared", &["E0594", "E0596", "E0507", "E0308", "E0508"], &body)
        }
        // two accesses at once, one of them exclusive
        12 => {
            let t = TYPES[d.roll(3)];
            let ex = ["g.get_mut(id).unwrap()", "g.data_mut()", "unsafe { g.get_unchecked_mut(id) }", "g.get_mut(id2)", "g.data_mut().iter_mut()", "&mut g.data_mut()[0]"];
            let sh = ["g.get(id).unwrap()", "g.data()", "g.data().iter()", "unsafe { g.get_unchecked(id2) }", "g.count()", "g.exist(id)", "g.is_empty()"];
            let (v, a, b) = match cfg[1] % 6 {
                0 => (format!("world.components_write::<{t}>().unwrap()"), d.of(&ex), d.of(&ex)),
                1 => (format!("world.components_write::<{t}>().unwrap()"), d.of(&sh[..4]), d.of(&ex)),
                2 => (format!("world.components_write::<{t}>().unwrap()"), d.of(&ex), d.of(&sh)),
                3 => (format!("world.entity_component_write::<{t}>(id).unwrap()"), d.of(&["&mut *g", "g.deref_mut()", "&mut g.0"]), d.of(&["&mut *g", "&*g", "g.deref_mut()", "g.deref()", "&g.0"])),
                4 => ("world.resource_write::<R>().unwrap()".into(), d.of(&["&mut *g", "g.deref_mut()", "&mut g.0", "g.0.iter_mut()"]), d.of(&["&mut *g", "&*g", "g.deref_mut()", "g.deref()", "&g.0"])),
                _ => (format!("world.entity_component_write::<{t}>(id).unwrap()"), d.of(&["&*g", "g.deref()", "&g.0"]), d.of(&["&mut *g", "g.deref_mut()", "&mut g.0"])),
            };
            let body = |bad: bool| if bad { format!("let mut g = {v};\nlet a = {a};\n{mid}\nlet b = {b};\nused(&b);\nused(&a);") } else { format!("let mut g = {v};\nlet a = {a};\nused(&a);\n{mid}\nlet b = {b};\nused(&b);") };
            two("two accesses at once", &["E0499", "E0502"], &body)
        }
        // a view goes to another thread
        13 | 14 => {
            let v = view(d, true).text;
            let form = cfg[1] % 5;
            let body = |bad: bool| match form {
                1 if bad => format!("let x = {v};\n{mid}\nlet (tx, rx) = mpsc::channel();\nstd::thread::scope(|s| {{\ns.spawn(move || for y in rx {{ used(&y); }});\ntx.send(x);\n}});"),
                1 => format!("let x = {v};\n{mid}\nlet (tx, rx) = mpsc::channel();\ntx.send(x);\nfor y in rx {{ used(&y); }}"),
                2 => format!("fn {}", if bad { format!("crossing<T: Send>(_: T) {{}}\n{mid}\ncrossing({v});") } else { format!("crossing<T>(_: T) {{}}\n{mid}\ncrossing({v});") }),
                3 if bad => format!("let x = Mutex::new({v});\n{mid}\nstd::thread::scope(|s| {{ s.spawn(|| used(&*x.lock().unwrap())); }});"),
                3 => format!("let x = Mutex::new({v});\n{mid}\nused(&*x.lock().unwrap());"),
                4 if bad => format!("std::thread::scope(|s| {{\nlet t = s.spawn(|| {{\n{v}\n}});\nused(&t.join().unwrap());\n}});"),
                4 => format!("std::thread::scope(|s| {{\nlet t = s.spawn(|| {{\nused(&{v});\n}});\nused(&t.join().unwrap());\n}});\n{mid}"),
                _ if bad => format!("let x = {v};\n{mid}\nstd::thread::scope(|s| {{\ns.spawn(move || used(&x));\n}});"),
                _ => format!("let x = {v};\n{mid}\nlet y = move || used(&x);\ny();"),
            };
            two("view goes to another thread", &["E0277"], &body)
        }
        _ => match cfg[1] % 4 {
            // a view pretends to live longer
            0 | 1 => {
                let t = TYPES[d.roll(3)];
                let q = query(d, 1);
                let (ty, e) = match d.roll(11) {
                    0 => ("Entity<'L>".to_string(), "world.entity(id).unwrap()".to_string()),
                    1 => ("Entity<'L>".into(), format!("world.create_entity().attach({t}::default())")),
                    2 => ("Entities<'L>".into(), "world.create_entities(3)".into()),
                    3 => (format!("StorageRead<'L, {t}>"), format!("world.components_read::<{t}>().unwrap()")),
                    4 => (format!("StorageWrite<'L, {t}>"), format!("world.components_write::<{t}>().unwrap()")),
                    5 => (format!("ComponentRead<'L, {t}>"), format!("world.entity_component_read::<{t}>(id).unwrap()")),
                    6 => (format!("ComponentWrite<'L, {t}>"), format!("world.entity_component_write::<{t}>(id).unwrap()")),
                    7 => ("ResourceRead<'L, R>".into(), "world.resource_read::<R>().unwrap()".into()),
                    8 => ("ResourceWrite<'L, R>".into(), "world.resource_write::<R>().unwrap()".into()),
                    9 => (format!("<{} as Queryable<'L>>::Item", q.text("'L ")), format!("world.query::<{}>().next().unwrap()", q.text(""))),
                    _ => (format!("Box<dyn QueryIterator<Item = <{} as Queryable<'L>>::Item> + 'L>", q.text("'L ")), format!("world.query::<{}>()", q.text(""))),
                };
                let body = |bad: bool| format!("fn give<'w>(world: &'w World, id: EntityId, id2: EntityId) -> {} {{\n{mid}\n{e}\n}}\nused(&give(&world, id, id2));", ty.replace("'L", if bad { "'static" } else { "'w" }));
                two("view pretends to live longer", LIVES, &body)
            }
            2 => {
                let t = TYPES[d.roll(3)];
                let (v, e) = match d.roll(4) {
                    0 => (format!("components_read::<{t}>()"), "g.get_unchecked(id)"),
                    1 => (format!("components_write::<{t}>()"), "g.get_unchecked_mut(id)"),
                    2 => (format!("components_write::<{t}>()"), "g.get_unchecked(id2)"),
                    _ => (format!("components_read::<{t}>()"), "g.get_unchecked(id2).0"),
                };
                let body = |bad: bool| format!("let mut g = world.{v}.unwrap();\n{mid}\nused(&{});", if bad { e.to_string() } else { format!("unsafe {{ &{e} }}") });
                two("unchecked lookup in safe code", &["E0133"], &body)
            }
            _ => {
                let t = TYPES[d.roll(3)];
                let use_ = match d.roll(4) {
                    0 => format!("used(&h.component_read::<{t}>().is_some());"),
                    1 => format!("used(&h.detach::<{t}>());"),
                    2 => format!("h.attach({t}::default());"),
                    _ => "h.into_id();".into(),
                };
                let v = d.of(&["world.create_entity()", "world.entity(id).unwrap()", "world.create_entity().attach(A(1))"]);
                let body = |bad: bool| format!("let h = {v};\n{mid}\n{}\n", if bad { format!("h.manaully_drop();\n{use_}") } else if use_.starts_with("used") { format!("{use_}\nh.manaully_drop();") } else { use_.clone() });
                two("handle used after its entity was removed", &["E0382"], &body)
            }
        },
    }
}

fn programs(case: &Case) -> Pair {
    let c = &case.cfg;
    let (mut before, mut mid, mut after) = (vec![], vec![], vec![]);
    for (i, op) in case.ops.iter().enumerate() {
        let s = noise(op, i);
        match op.1 / 3 % 3 {
            0 => before.push(s),
            1 => mid.push(s),
            _ => after.push(s),
        }
    }
    let mut d = Dice((c[2] as u64) << 48 | (c[3] as u64) << 32 | (c[4] as u64) << 16 | c[5] as u64);
    let mut p = core(&mut d, c, &mid.join("\n"));
    let lock = "static LOCK: Mutex<u8> = Mutex::new(0);\nfn lock() -> MutexGuard<'static, u8> { LOCK.lock().unwrap() }\n";
    // the steps after the core may not need the world
    let whole = |core: &str| {
        format!(
            "{HEAD}{lock}fn before(world: &World, id: EntityId, id2: EntityId) {{\n{}\n}}\nfn after(world: &World, id: EntityId, id2: EntityId) {{\n{}\n}}\npub fn program<'x>(text: &'x str, number: &'x u32) {{\nlet (mut world, id, id2) = setup();\nbefore(&world, id, id2);\n{core}\n}}\n",
            before.join("\n"),
            after.join("\n")
        )
    };
    p.bad = whole(&p.bad);
    p.good = whole(&p.good);
    p
}

// ------------------------------------------------------------------ the compiler

static COUNT: AtomicU64 = AtomicU64::new(0);
/// Err: what the compiler says; the codes of its errors.
fn compiles(src: &str) -> Result<(), (Vec<String>, String)> {
    let (rustc, lib) = (std::env::var("XV_RUSTC").expect("XV_RUSTC"), std::env::var("XV_API").expect("XV_API"));
    let dir = std::env::temp_dir().join(format!("xv-c29-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&dir).unwrap();
    let mut c = Command::new(&rustc);
    c.args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "program", "--emit=metadata", "--cap-lints", "allow", "-A", "warnings", "--out-dir"]).arg(&dir);
    c.args(["--extern", &format!("api={lib}/libapi.rlib"), "-L", &format!("dependency={lib}/deps"), "-"]);
    let mut ch = c.stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().expect("rustc runs");
    ch.stdin.take().unwrap().write_all(src.as_bytes()).unwrap();
    let o = ch.wait_with_output().unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if o.status.success() {
        return Ok(());
    }
    let mut codes: Vec<String> = vec![];
    for l in err.lines() {
        if let Some(x) = l.strip_prefix("error[") {
            codes.push(x[..5].to_string());
        } else if l.starts_with("error: lifetime may not live") || l.starts_with("error: captured variable cannot") {
            codes.push("lifetime".into());
        }
    }
    if o.status.code() != Some(1) || err.contains("internal compiler error") {
        panic!("the compiler gives no answer: {:?} {}", o.status, err.lines().next().unwrap_or(""));
    }
    codes.sort();
    codes.dedup();
    Err((codes, err))
}
fn lines(src: &str) -> Vec<String> {
    src[HEAD.len()..].lines().filter(|l| !l.trim().is_empty()).skip(2).map(|l| l.to_string()).collect()
}

fn c29_profile() -> Profile {
    Profile { weights: &[(0, 1)], max_ops: 8, shapes: &[], big: 0, groups: 0, all_reg: true, fill: 0, extra: &[] }
}
pub fn c29(case: &Case, _p: &Profile, keep: bool) -> Res {
    let p = programs(case);
    if let Err((_, e)) = compiles(&p.good) {
        let e: Vec<&str> = e.lines().filter(|l| l.starts_with("error")).collect();
        return Err(Fail { msg: format!("the compiler turns away a program that does nothing forbidden (the twin of one with: {}): {}", p.kind, e.join("; ")), trace: lines(&p.good) });
    }
    let mut counts = BTreeMap::new();
    *counts.entry(p.kind).or_default() += 1u64;
    let expected = match compiles(&p.bad) {
        Ok(()) => return Err(Fail { msg: format!("the compiler accepts a program with a forbidden step: {}", p.kind), trace: lines(&p.bad) }),
        Err((codes, e)) => {
            let ok = codes.iter().any(|c| p.codes.contains(&c.as_str()));
            if !ok && std::env::var("XV_TYPED").is_ok() {
                eprintln!("{}: {codes:?}\n{}\n{e}", p.kind, lines(&p.bad).join("\n"));
            }
            *counts.entry(if ok { "turned away for the expected reason" } else { "turned away for another reason" }).or_default() += 1;
            ok
        }
    };
    Ok(Report { nontrivial: expected, hash: fnv(0xcbf29ce484222325, p.bad.as_bytes()), counts, trace: if keep { lines(&p.bad) } else { vec![] } })
}

pub fn all() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        profile: c29_profile,
        run: c29,
        quick: 2_500,
        thorough: 100_000,
        rule: "a generated program with one forbidden step and its twin without it, both given to the compiler; non-trivial when the twin is accepted and the program is turned away with an error of the kind the step calls for",
        threads: None,
        thread_profile: None,
    }]
}
