#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are edited in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

W, E, SS, CO, RS = "src/world.rs", "src/entity.rs", "src/sparse_set.rs", "src/component.rs", "src/resource.rs"
G, GF, GP, GN = "src/group/mod.rs", "src/group/full_owning/mod.rs", "src/group/partial_owning/mod.rs", "src/group/non_owning/mod.rs"
QF, QP, QN = "src/group/full_owning/query.rs", "src/group/partial_owning/query.rs", "src/group/non_owning/query.rs"
Q, QW, QO = "src/query/mod.rs", "src/query/with.rs", "src/query/without.rs"

prop("C01", "Entity existence is exact",
 "At every point of any history of single creations, batch creations and removals, an id exists in the world (the existence test is true and an entity handle for it can be obtained) exactly when it was returned by a creation and has not been removed since. Ids already removed and ids never issued, of any magnitude, are simply reported as not existing. Asking never panics and never changes the world.",
 ["histories", "inputs"], "every history of create / batch-create / remove, and every nonzero id asked about at every point of it",
 "The tests remove one or two entities, never ask whether a removed or never-issued id exists, and never remove the last or only entity before asking.",
 [W, E], [("liveness flags of the entity manager", "src/entity.rs EntityManager::{has,allocate,allocate_n,remove}"), ("World::exist / World::entity", W)],
 [("entity flags", "for each id: alive, or link of the chain of vacated ids", E)], ["World::exist", "World::entity"])

prop("C02", "Entity ids: unique among the living, recycled, contiguous in batches",
 "Creation never returns the id of an entity that is still alive, and ids never issued before are handed out in ascending order from 1 without gaps, independently in each world. Single creation reuses a vacated id whenever there is one - the one vacated last when that removal directly precedes the creation - and only otherwise issues a new one. Creating a batch of n entities returns exactly n consecutive ids, none of them alive at that moment, all alive afterwards.",
 ["histories"], "every interleaving of create, batch-create (any n, including 0) and remove in any order of ids",
 "One test removes three ids in one fixed order and re-creates; batches after removals, removal of the newest/oldest/only entity, long free chains and empty batches are never reached.",
 [E, W], [("free chain through the entity flags", "src/entity.rs EntityManager::allocate/remove"), ("contiguous allocation", "src/entity.rs EntityManager::allocate_n")],
 [("free chain", "ids that were vacated and are waiting for reuse", E)], ["World::create_entity", "World::create_entities"])

prop("C03", "Component data is a faithful per-entity, per-type store",
 "For every registered component type and every history, reading the component of an existing entity by any access path (by id from the world, through an entity handle, through a storage view, through a query) yields exactly the value most recently attached to or written for that entity, and nothing if it was never attached or has been detached since. Detaching returns exactly that value, or nothing when the entity lacks the component. No operation on one entity or type alters the components of another entity or type.",
 ["histories", "inputs"], "every history of attach (first and overwriting), detach (present and absent), write, batch attach and removal over entities and component types of different shapes (zero-sized, heap-owning, over-aligned, plain)",
 "The tests attach a few values in id order and read them back; detaching an absent component, overwriting, detaching in the middle and id patterns with holes are not explored.",
 [SS, E, W, CO], [("sparse set: id -> dense index -> value, swap-remove", SS), ("Entity::attach / detach", E)],
 [("sparse index", "maps an entity to the position of its value", SS)], ["World::entity_component_read", "Entity::component_read", "World::components_read", "World::detach_component"])

prop("C04", "Removing an entity removes all of it and nothing else",
 "After an entity is removed, none of its components is visible through any read, storage view, plain query or group query, whatever groups exist and however many of them the entity belonged to. An entity later created with a recycled id starts with no components at all. Every other entity keeps exactly the components, values and group memberships it had.",
 ["histories", "configurations"], "every history ending in a removal, for every set of (overlapping) groups and every component combination, with and without reuse of the id",
 "One test removes one entity with one component and no group; removal with groups, particularly several groups sharing a component type, is not tested at all.",
 [W, SS, E, GF, GP, GN], [("World::remove_entity: leave groups, clear storages, vacate the id", W)],
 [("group membership", "leading segment of owned storages / separate entity set", G)], ["World::remove_entity", "Entity::manaully_drop", "World::query"])

prop("C05", "Queries return exactly the join",
 "A query over shared or exclusive references to one component type, or over tuples (2 to 5 elements, nested arbitrarily) of queries, yields every entity that has all the requested components exactly once, and no other entity, each with the current values in the requested order. Iterating with ids pairs every result with the id of the entity it belongs to. Looking up an id through the query returns that same entity's result when it matches, and nothing for any other id.",
 ["histories", "inputs", "programs"], "every world state reachable by a history, every query shape (arity, nesting, order, shared/exclusive), every id looked up",
 "The tests run three tuple queries on one fixed world whose entities were created in id order and never changed; looking up by id, single-type exclusive queries and arities 3-5 are never exercised.",
 [Q, QW, SS], [("IterRef/IterMut walk the dense array", Q), ("WithIter..WithIter5 drive the first element and look the rest up by id", QW)],
 [], ["World::query", "QueryIterator::from_id", "QueryIterator::next_with_id", "WithId::with_id"])

prop("C06", "Exclusion queries return exactly the difference",
 "A query combined with an exclusion - on either side of the pair, of a single component or of any composed query, nested to any depth - yields exactly the entities that match the positive part and do not match the excluded part, each once, with the positive part's values and nothing from the excluded part. An excluded tuple excludes only entities that match the whole tuple. Iteration, iteration with ids and lookup by id agree on that set.",
 ["histories", "inputs", "programs"], "every reachable world state, every placement and nesting of exclusions, every id looked up",
 "The tests run three exclusion queries on one fixed world by plain iteration only.",
 [QO, Q, QW], [("WithoutIterLeft / WithoutIterRight filter by a lookup in the excluded query", QO)],
 [], ["World::query", "QueryIterator::from_id"])

prop("C07", "Group queries always equal the plain join",
 "From the moment a full-owning, partial-owning or non-owning group over two component types is made, and through every later history, querying the group yields exactly the entities that have both components, each once, with their own id and current values - the same answer as the tuple query. This holds for every combination of shared and exclusive access, by iteration, iteration with ids and lookup by id, for groups made before or after the data and regardless of which other groups share component types with it.",
 ["histories", "configurations", "programs"], "every history of attach/overwrite/detach/remove/batch creation interleaved with making any admissible set of groups of all three kinds",
 "No test ever queries a group: one test makes three groups and prints, and one formats the world.",
 [G, GF, GP, GN, QF, QP, QN, E, W], [("group maintenance on attach/detach/remove", "src/entity.rs Entity::attach, Entity::detach; src/world.rs remove_entity"), ("group construction", "make() of each group kind"), ("group iterators", "src/group/*/query.rs")],
 [("group length", "number of leading storage positions that belong to the group", GF), ("entity set of a non-owning group", "which entities have both components", GN)], ["World::query::<FullOwning|PartialOwning|NonOwning>"])

prop("C08", "Owned storages keep group members packed and aligned in front",
 "While an owning group exists, the entities having both of its component types occupy the leading positions of every storage the group owns - both storages for a full-owning group, the first for a partial-owning one - and all other entities come after them. In a full-owning group the two storages list those members in the same order. This is visible in the storage views' data and in the iteration order of single-component queries, and holds after every operation.",
 ["histories", "configurations"], "every history with any admissible set of owning groups, checked after each operation",
 "The group test prints the storages and asserts nothing about their order.",
 [GF, GP, G, SS], [("swap to the border and move the border", "add/remove/make of FullOwningData and PartialOwningData")],
 [("group length", "border between members and non-members", GF)], ["World::components_read().data()", "World::query::<&T>().with_id()"])

prop("C09", "Group admission: exactly the conflict-free groups are accepted",
 "Making a group succeeds if and only if both component types are registered (and different, if the group owns any), no identical group (same kind and same ordered pair of types) exists, and no component storage it would own is already owned by another group; otherwise it panics and the world, including its existing groups, is exactly as before. A group query is answered if and only if precisely that group has been made, and panics otherwise. Non-owning groups and non-owned types never conflict with anything.",
 ["histories", "configurations"], "every sequence of attempts to make groups of all kinds over all ordered pairs of types, at any point of a history",
 "The tests make one admissible set of groups and never attempt a conflicting, duplicate or unregistered one.",
 [W, G, GF, GP, GN], [("assertions of World::make_group; has_group", W), ("owned/owning of each kind", "src/group/*/mod.rs")],
 [("groups", "the groups made so far", W)], ["World::make_group", "World::query"])

prop("C10", "Groups are pure accelerators: they never change any other answer",
 "Executing the same history in a world with any admissible groups made at any points, and in a world with none, gives the same ids, the same return values, the same existence answers, the same component values for every entity, and the same set of results for every query that does not name a group. Making a group by itself changes nothing but the order in which components are stored.",
 ["histories", "configurations"], "all pairs (history, placement of group creations)",
 "A relation between two executions of the same history; no test compares a grouped world with an ungrouped one.",
 [W, E, G, GF, GP, GN, SS], [("reordering by swaps that keep id, index and value together", "src/sparse_set.rs swap_by_index")],
 [], ["all read paths of World"])

prop("C11", "Rejected calls panic and change nothing",
 "Attaching to, detaching from or removing an entity that does not exist, attaching, detaching, batch attaching or querying a component type that is not registered, registering a type twice, batch attaching with the wrong number of values, making an inadmissible group and querying an absent group all panic. After the panic is caught the world is exactly as before the call - entities, components, groups - and fully usable, with nothing left locked. Read-style lookups of unregistered types, unregistered resources or missing components return nothing instead of panicking.",
 ["histories", "inputs", "fault_sequences"], "every rejected call at every point of every history, followed by arbitrary further use",
 "No test contains a rejected call.",
 [W, E, Q, QF, QP, QN, SS], [("assertions at the top of the public operations", "src/world.rs, src/entity.rs, src/query/mod.rs, src/group/*/query.rs")],
 [], ["catch_unwind around every public operation"])

prop("C12", "Batch creation equals one-at-a-time creation",
 "Creating n entities as a batch and attaching vectors of components to the batch - any number of types, in any order, the same type repeatedly, at any point of a history and with any groups present - leaves the world in the same observable state as creating n entities one by one and attaching the i-th value of each vector to the i-th entity. That includes component values and counts, plain, exclusion and group query results, and everything later operations do with those entities.",
 ["histories", "inputs", "configurations"], "all histories containing batch creations of any size, compared with their one-at-a-time expansion",
 "The only batch test attaches each type once in a world without groups and reads the raw storages.",
 [E, W, SS], [("Entities::attach", E), ("SparseSet::add_batch", SS)],
 [], ["World::create_entities", "Entities::attach"])

prop("C13", "Every stored value is owned once and dropped exactly once",
 "Each component or resource value handed to the world is destroyed exactly once: when it is overwritten, when its component or entity is removed, when a resource is replaced, when a rejected call discards it, or when the world is dropped - and not at all by the world when detaching hands it back to the caller. At every moment the number of undestroyed values inside the world equals the number of components and resources it reports. No value is leaked, duplicated or read after destruction.",
 ["histories", "fault_sequences"], "every history, including rejected calls, and dropping the world at any point",
 "The tests store plain numbers and characters, for which leaks and double drops are invisible.",
 [SS, W, E, RS], [("Vec-backed dense storage, swap_remove", SS), ("resources map insert", W)],
 [], ["drop counters inside the component and resource types"])

prop("C14", "Shared access coexists, exclusive access excludes",
 "While a shared view of a component type (storage view, component guard, or a query reading it) is held, other shared views of it are available and every exclusive access to it - exclusive views and queries, attaching, detaching, removing an entity that has it - is held off; while an exclusive view is held, every other access to that type is held off. Views of different component types, of different resources, and of a resource and a component never hold each other off, and once all views are dropped, in any order, everything can be accessed exclusively again. A reference yielded by a query counts as held until it is last used, and an exclusive one is never handed out while another reference to the same component exists.",
 ["histories", "schedules", "programs"], "every set of simultaneously held views (guards and query iterators of all shapes) and every further access attempted against it",
 "No test holds two views at once; the blocking side cannot be tested without a controlled lock.",
 [CO, Q, QF, QP, QN, W, RS, E], [("one reader-writer lock per component type, resource, group and for the entity manager", W)],
 [("locks", "which guards are outstanding", W)], ["lock acquisition would/would not block (instrumented lock)"], None)

prop("C15", "Concurrent calls complete and act as if run one at a time",
 "When several threads share a world and each issues calls one after the other without holding views between them (naming component types in a common order), every call completes under every interleaving, and the results of the calls and the final state are those of some sequential order of the calls consistent with each thread's order. Removing an entity may take effect on its components one after the other, but is complete when the call returns, and the id is not reissued before that. In particular no component update is lost, no group is left disagreeing with the plain join, and no recycled id inherits a component.",
 ["schedules", "histories"], "every interleaving, at lock granularity, of a few calls from two or three threads after any setup history",
 "All tests are single-threaded; and an interleaving is not chosen by a test.",
 [W, E, QF, QP, QN], [("per-storage, per-group and entity-manager locks; Entity holds the manager's read lock", "src/world.rs, src/entity.rs")],
 [("lock order", "entity manager, then groups, then storages", W)], ["results of calls and final state under a controlled scheduler"], None)

prop("C16", "Query iterators obey the iteration protocol",
 "For every query, at every point of its iteration, the size hint bounds the number of results still to come - exactly for single-component and group queries - and an exhausted iterator stays exhausted. Plain stepping, stepping with ids and the standard iterator adaptors may be mixed freely: each continues where the previous one stopped, and looking ids up in between never disturbs the iteration. Repeating a query on an unchanged world yields the same sequence.",
 ["histories", "programs"], "every reachable world state, query shape and interleaving of next / next-with-id / lookup / size-hint / skipping calls on one iterator",
 "The tests only collect whole iterators.",
 [Q, QW, QO, QF, QP, QN], [("index-based iterators", "src/query/mod.rs, src/group/*/query.rs"), ("size_hint", "src/query/mod.rs, src/group/*/query.rs")],
 [], ["Iterator and QueryIterator methods on the boxed query"])

prop("C17", "Resources form a typed map with last-registration-wins",
 "Reading or writing a resource of a type yields the value most recently registered or written for exactly that type, and nothing if that type was never registered as a resource. Registering again replaces the value; resources of different types, and components of the same type as a resource, never affect each other, and no entity operation affects a resource. Formatting a resource guard shows the resource's own value.",
 ["histories", "inputs"], "every history of register / re-register / read / write over resource types of different shapes mixed with entity and component operations",
 "One test registers one resource once and reads and writes one field.",
 [RS, W], [("map from type id to boxed resource, unchecked downcast", "src/resource.rs, src/world.rs")],
 [("resources", "type -> value", W)], ["World::register_resource", "World::resource_read", "World::resource_write"])

prop("C18", "Storage and component views are coherent and write through",
 "A view of a component type's storage, shared or exclusive, describes one consistent set: its count, its emptiness, its membership test, its lookup by id and its data slice all agree with the entities currently having that component and their values. A component guard denotes the value of exactly the entity it was requested for. Writes through an exclusive view - by id, through the data slice or through a component guard - are visible through the same view at once and through every other access path afterwards, for that entity only.",
 ["histories", "inputs"], "every reachable storage content, every id looked up, every write path",
 "The tests compare one data slice and one component guard on worlds built in id order; exclusive storage views are never used.",
 [CO, W, SS], [("StorageRead/StorageWrite/ComponentRead/ComponentWrite over the sparse set", CO)],
 [], ["World::components_read", "World::components_write", "World::entity_component_read/write", "Entity::component_read/write"])

prop("C19", "Safe use is memory safe",
 "No history of calls to the safe interface - creating, removing, attaching, detaching, batches, groups, views, all query shapes, rejected calls, dropping the world at any point - reads or writes outside the memory of live component and resource values, uses a value after it was freed or before it was initialised, frees anything twice or leaks storage, as long as references are used only while the view or query they came from is held. Unchecked accesses inside the library always stay within bounds.",
 ["histories", "inputs", "programs"], "every history of safe calls, executed under memory-error detection",
 "Stale indices read neighbouring or dead memory without failing any assertion; the tests run without a sanitizer and never query a group.",
 [SS, CO, Q, QF, QP, QN, GN, RS, E], [("unsafe get_unchecked / pointer dereferences justified by storage and group invariants", "src/sparse_set.rs, src/component.rs, src/query/mod.rs, src/group/*/query.rs, src/resource.rs")],
 [], ["AddressSanitizer/LeakSanitizer, standard-library unsafe-precondition checks, validity tokens in values"])

prop("C20", "Writes through mutable queries land exactly where addressed",
 "A value assigned through an exclusive reference obtained from any query - single, tuple, nested, exclusion or group, by plain iteration, iteration with ids or lookup by id - becomes the component of exactly the entity that result denotes and of no other, and of exactly that component type. All other components, entity existence and group membership are unchanged, and the write is seen by every later access. Writing every result of an iteration never loses a write, since each result refers to a different entity.",
 ["histories", "inputs", "programs"], "every reachable world state, every query shape with at least one exclusive reference, every subset of results written",
 "No test writes through a query.",
 [Q, QW, QO, QF, QP, QN], [("IterMut and the *Mut group iterators hand out references by index or id", "src/query/mod.rs, src/group/*/query.rs")],
 [], ["World::query with &mut, then all read paths"])

prop("C21", "Entity handles and id-based calls are interchangeable",
 "Building or changing an entity through its handle (chained attaching, detaching, component access, dropping it from the world) has exactly the same results and effects as the corresponding calls by id on the world, for every history in which the two styles are mixed or exchanged. A handle always denotes the entity it was obtained for, and consuming it yields that entity's id. Dropping a handle, or an unfinished builder, by itself changes nothing.",
 ["histories", "programs"], "all histories, each executed once through handles and once through ids",
 "A relation between two ways of executing the same history; the tests use each in isolation on fixed data.",
 [E, W], [("Entity wraps a world reference and an id", E), ("World::attach_component etc. delegate to Entity", W)],
 [], ["Entity", "World::attach_component", "World::detach_component", "World::remove_entity"])

prop("C22", "Worlds are independent of each other",
 "Operations on one world never influence another world in the same process: with any interleaving of histories on several worlds, on one thread or on different threads, each world gives exactly the ids, results and final state that its own history gives when run alone. Dropping a world leaves the others untouched.",
 ["histories", "configurations"], "all interleavings of histories over several worlds with different registrations, groups and populations",
 "Every test uses a single world.",
 [W, E, CO, G, RS], [("all state is held in fields of World", W)],
 [], ["all operations on two or more worlds"])

prop("C23", "Looking leaves no trace",
 "Existence tests, obtaining and dropping entity handles and views, reads by any path, lookups, asking what is registered, formatting, and queries of every shape - shared or exclusive, iterated wholly, partly or not at all, but without writing through them - change nothing. A history with such calls inserted anywhere gives the same ids, the same results, the same orders of iteration and the same final state as without them, and asking the same thing again gives the same answer.",
 ["histories", "programs"], "every history, with any calls that only look inserted at any point of it",
 "A relation between two executions of a history; the tests look once, at the end, and a lookup that disturbs something is not followed by anything.",
 [W, E, Q, QW, QO, QF, QP, QN, SS, RS], [("queries take &World and lock storages and groups", "src/world.rs, src/query/mod.rs"), ("lookups and iteration by index over the sparse set", SS)],
 [], ["all reading calls inserted into histories, then everything"])

prop("C24", "Order and company of registrations do not matter",
 "Which other component types are registered, in what order types are registered, and whether a type is registered at the start or just before its first use, with or without entities existing by then, make no difference to any id, result, iteration or final state. A type is reported as registered exactly from its registration on, and registering a type changes nothing about any other type.",
 ["histories", "configurations"], "all histories, each under different registrations: order, time, unused types",
 "The tests register the types they use, in one order, at the start.",
 [W, CO, G], [("map from type id to storage", W)],
 [], ["World::register and everything after it"])

prop("C25", "Steady use needs no more ids or memory",
 "Repeating a round of calls that returns to the population it began with - single creations and removals, attaching, detaching and overwriting, queries and lookups, re-registered resources, rejected calls, handles, builders and empty batches - never needs more: the ids of every later round stay within the range of the first rounds, and the memory held stays bounded however often the round is repeated.",
 ["histories"], "every round of calls that returns to its starting population, any number of times",
 "No test repeats anything; a slow leak of ids or memory has no visible result in a short run.",
 [W, E, SS, CO, RS], [("reuse of ids of removed entities", "src/world.rs"), ("swap-removal from dense arrays", SS)],
 [("free id chain", "removed ids linked for reuse", "src/world.rs")], ["ids returned, bytes allocated and not freed"])

prop("C26", "Panics in the caller's code leave nothing held or half done",
 "When the caller's own code panics and the panic is caught - while it holds views, component or resource guards, entity handles or a builder, in the middle of iterating a query, or in the conversion of a batch it hands over - everything it held is released: every later call completes and behaves as if the views had been dropped normally. Effects of calls completed before the panic persist, writes made are kept, and nothing else changes: no entity, component, group or resource is lost, invented or left half changed.",
 ["histories", "fault_sequences"], "every history with a panic of the caller's code at any point where it can run while something of the world is held",
 "No test panics in its own code; no view is held across an unwinding.",
 [W, E, CO, RS, Q, QF, QP, QN], [("guards are released by drop, also when unwinding", "src/world.rs, src/component.rs, src/resource.rs"), ("a builder creates its entity in steps", E)],
 [], ["catch_unwind around the caller's code, then everything"])

prop("C27", "Any thread may make any call",
 "A history of calls gives exactly the same ids, results, iteration orders and final state whichever threads make the calls one after the other, with the world moved or lent between them, and the world may be dropped on any thread. Nothing depends on the thread that created the world, registered a type or created an entity.",
 ["histories", "configurations"], "all histories and all assignments of their calls to threads",
 "All tests run on one thread, with one world per thread.",
 [W, E, CO, RS, G], [("World is Send and Sync; all state is held in it", W)],
 [], ["the same history on one thread and spread over threads"])

prop("C28", "A held handle keeps its entity",
 "While a handle of an entity - from its creation or from a lookup - or the builder of a batch is held, a removal of that entity, by whatever call and from whichever thread, is held off, so the entity keeps existing with everything it has until the last of its handles is dropped, turned into its id or used for the removal itself. Calls through the handle find the entity and complete, also while a removal waits. Meanwhile, with nothing waiting, other handles of the same or other entities, existence tests, component access, attaching and detaching by id, storage views and queries are available as ever; once no handle is held, in whatever order they were dropped, entities can be created and removed again.",
 ["histories", "schedules"], "every history and interleaving in which handles and builders are held, used and dropped in any order while others ask for, change and try to remove their entities",
 "The tests hold one handle for one expression, on one thread; nobody tries to remove its entity meanwhile.",
 [W, E], [("the guard kept in Entity and Entities", E), ("removal takes the entity manager exclusively", W)],
 [], ["World::entity, create_entity, create_entities, Entity, Entities, remove_entity, manaully_drop"])

prop("C29", "Unsafe use does not compile",
 "Safe code cannot get around what the types promise: the compiler accepts no program that stores a component or resource that is not Send + Sync + 'static, by whatever call; keeps a handle, builder, storage view, component or resource guard, query or result beyond its world, or over a call that needs the world exclusively (registering, making a group, replacing, moving or dropping it); keeps a reference taken out of a view or guard beyond it; changes or moves out a component or resource through shared access; holds two accesses from one exclusive view or guard at once; gives a guard, view, handle, builder or query to another thread; looks up unchecked without unsafe; or uses a handle after removing its entity through it. The same programs without that step, with component and resource types of any Send + Sync + 'static kind, are accepted.",
 ["programs", "inputs"], "every program over the public interface, with any component and resource types, query shapes and surrounding statements",
 "The tests are programs that compile; that a program does not compile cannot be tested by them, and the pointers inside the views, guards and iterators mean that the compiler no longer derives it: the signatures have to say it.",
 [W, "src/component.rs", "src/resource.rs", E, "src/query/mod.rs"], [("the bounds of Component and Resource", "src/component.rs"), ("views hold a raw pointer and a lock guard, methods tie references to the view", "src/component.rs"), ("query results carry the lifetime of the world borrow", "src/query/mod.rs")],
 [], ["the signatures and bounds of all public items"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
