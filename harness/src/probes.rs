//! Fixed inputs of listed findings, and what each check assumes.
use crate::types::{self, *};
use xecs::World;

pub struct Probe {
    pub property: &'static str,
    pub key: &'static str,
    pub run: fn() -> Result<(), String>,
}
fn world() -> (World, xecs::EntityId) {
    types::reset();
    crate::locks::sequential();
    let mut w = World::new();
    w.register::<F>();
    let id = w.create_entity().attach(F::mk(1)).into_id();
    (w, id)
}
/// Only addresses are compared; nothing is accessed through two references at once.
fn result_outlives_query() -> Result<(), String> {
    let (w, _) = world();
    let kept: &mut F = w.query::<&mut F>().next().ok_or("no result")?;
    let at = kept as *mut F as usize;
    let r = crate::engine::guarded(|| {
        let mut g = w.components_write::<F>().unwrap();
        &mut g.data_mut()[0] as *mut F as usize
    });
    let end = kept as *mut F as usize;
    match r {
        Ok(x) if x == at && end == at => Err("an exclusive reference to a component is handed out while one from a dropped query is still in use".into()),
        _ => Ok(()),
    }
}
fn lookup_aliases_result() -> Result<(), String> {
    let (w, id) = world();
    let mut q = w.query::<&mut F>();
    let a: &mut F = q.from_id(id).ok_or("no result")?;
    let at = a as *mut F as usize;
    let b = q.from_id(id).map(|b| b as *mut F as usize);
    let end = a as *mut F as usize;
    if b == Some(at) && end == at {
        return Err("looking an entity up twice hands out two exclusive references to one component".into());
    }
    Ok(())
}
/// Runs the bodies on one thread each, with every schedule of one preemption.
fn sweep(make: fn() -> (World, xecs::EntityId), bodies: &[fn(&World, xecs::EntityId)]) -> Result<(), String> {
    use crate::locks::{self, sched::Sched};
    use std::sync::Arc;
    for first in 0..bodies.len() {
        for at in 0..200 {
            let (w, id) = make();
            let s = Arc::new(Sched::new(bodies.len(), vec![], 0, Some((at, 0)), first));
            locks::off();
            std::thread::scope(|sc| {
                for (t, b) in bodies.iter().enumerate() {
                    let (s, w) = (s.clone(), &w);
                    sc.spawn(move || {
                        locks::scheduled(&s, t);
                        s.start(t);
                        let _ = crate::engine::guarded(|| b(w, id));
                        locks::off();
                        s.finish(t);
                    });
                }
            });
            let (d, end) = (s.deadlock(), s.clock());
            locks::sequential();
            if let Some(d) = d {
                return Err(format!("threads wait for each other for ever: {d}"));
            }
            if at > end {
                break;
            }
        }
    }
    Ok(())
}
/// A query of A and of the group of B and C, against attaching B while A and B form a group.
fn group_inside_tuple() -> Result<(), String> {
    fn make() -> (World, xecs::EntityId) {
        types::reset();
        crate::locks::sequential();
        let mut w = World::new();
        w.register::<A>().register::<B>().register::<C>();
        crate::engine::make_group(&mut w, 0, 0, 1);
        crate::engine::make_group(&mut w, 2, 1, 2);
        let id = w.create_entity().attach(A::mk(1)).into_id();
        (w, id)
    }
    fn ask(w: &World, _: xecs::EntityId) {
        let mut q = w.query::<(&A, xecs::group::NonOwning<&B, &C>)>();
        while q.next().is_some() {}
    }
    fn attach(w: &World, id: xecs::EntityId) {
        w.attach_component(id, B::mk(2));
    }
    sweep(make, &[ask, attach])
}
pub fn all() -> Vec<Probe> {
    vec![
        Probe { property: "C14", key: "result-outlives-query", run: result_outlives_query },
        Probe { property: "C14", key: "lookup-aliases-result", run: lookup_aliases_result },
        Probe { property: "C15", key: "group-inside-tuple", run: group_inside_tuple },
    ]
}
pub fn assumptions(id: &str) -> Vec<String> {
    let mut v = vec!["the reference model of the harness states the property correctly".to_string()];
    match id {
        "C14" | "C15" => v.push("all blocking goes through parking_lot locks, replaced here by an instrumented copy of the same version".into()),
        "C29" => v.push("the stable compiler's borrow checker and trait solver are right".into()),
        "C19" => v.push("memory errors are those AddressSanitizer, the standard library's precondition checks, value tokens and the allocation balance detect".into()),
        _ => {}
    }
    if id == "C15" {
        v.push("interleavings matter only at lock acquisitions and releases; relaxed memory effects are not explored".into());
        v.push("concurrent calls name component types in ascending order and none twice, and group queries are not combined with others (listed finding)".into());
    }
    v
}
