//! Component and resource types used by the generated histories, with drop accounting.
//!
//! Every tracked value carries a token registered in a process-wide table. The table knows
//! which tokens are alive; destroying a token twice, or reading a value whose token is dead
//! or was never issued, is recorded as an error.
use std::sync::Mutex;

pub const NT: usize = 7;
/// The mask of all component types.
pub const ALL: u16 = (1 << NT) - 1;
pub const NAMES: [&str; NT] = ["A", "B", "C", "D", "E", "F", "G"];
/// Index of the type that is never registered.
pub const UNREG: usize = 7;

#[derive(Default)]
pub struct Registry {
    pub state: Vec<u8>, // 1 alive, 2 dropped
    pub live: [i64; 16],
    pub errors: Vec<String>,
}
static REG: Mutex<Option<Registry>> = Mutex::new(None);

pub fn reg<R>(f: impl FnOnce(&mut Registry) -> R) -> R {
    let mut g = REG.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Registry::default))
}
pub fn reset() {
    reg(|r| {
        r.state.clear();
        r.live = [0; 16];
        r.errors.clear();
    })
}
/// Bytes held by this accounting itself.
pub fn heap() -> i64 {
    reg(|r| r.state.capacity() as i64)
}
pub fn errors() -> Vec<String> {
    reg(|r| r.errors.clone())
}
pub fn live(idx: usize) -> i64 {
    reg(|r| r.live[idx])
}

#[derive(Debug)]
pub struct Token {
    id: u32,
    idx: u8,
}
impl Token {
    fn new(idx: usize) -> Token {
        reg(|r| {
            r.state.push(1);
            r.live[idx] += 1;
            Token { id: (r.state.len() - 1) as u32 ^ 0x5a5a_0000, idx: idx as u8 }
        })
    }
    fn check(&self, idx: usize) {
        crate::locks::user_point();
        reg(|r| {
            let i = (self.id ^ 0x5a5a_0000) as usize;
            if self.idx as usize != idx || i >= r.state.len() {
                if r.errors.len() < 8 {
                    r.errors.push(format!("read of memory that is not a value of type #{idx}"));
                }
            } else if r.state[i] != 1 && r.errors.len() < 8 {
                r.errors.push(format!("read of a destroyed value of type #{idx}"));
            }
        })
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        crate::locks::user_point();
        reg(|r| {
            let i = (self.id ^ 0x5a5a_0000) as usize;
            if i >= r.state.len() {
                r.errors.push("destruction of memory that is not a value".into());
            } else if r.state[i] != 1 {
                r.errors.push(format!("value of type #{} destroyed twice", self.idx));
            } else {
                r.state[i] = 2;
                r.live[(self.idx & 15) as usize] -= 1;
            }
        })
    }
}

pub trait Comp: Send + Sync + Sized + 'static {
    const IDX: usize;
    fn mk(v: i64) -> Self;
    fn get(&self) -> i64;
    fn set(&mut self, v: i64);
}
/// What a value `v` attached as type `idx` reads back as.
pub fn norm(idx: usize, v: i64) -> i64 {
    if valued(idx) { v } else { 0 }
}
/// Whether values of the type can be told apart.
pub fn valued(idx: usize) -> bool {
    idx != 2 && idx != 6
}

/// A plain value with a token.
#[derive(Debug)]
pub struct A(i64, Token);
/// Heap owning; of an odd number of words, more than five hundred bytes.
#[derive(Debug)]
pub struct B(String, Token, [i64; 61]);
/// Zero sized (drops counted, no token possible).
#[derive(Debug)]
pub struct C;
/// Types that share their `type_name` with another one.
pub trait Alias {
    type T;
}
pub struct ForD;
pub struct ForF;
pub struct ForR0;
pub struct ForR1;
/// Boxed; has the same name as `F`.
pub type D = <ForD as Alias>::T;
/// Plain copy type without drop glue; has the same name as `D`.
pub type F = <ForF as Alias>::T;
/// Over-aligned and larger.
#[derive(Debug)]
#[repr(align(64))]
pub struct E([i64; 69], Token);
/// A tag: zero sized, and without drop glue.
#[derive(Debug, Clone, Copy)]
pub struct G;
/// Never registered as a component.
#[derive(Debug)]
pub struct U(i64, Token);
/// Registered but unused types, so that worlds differ in the number of types they hold.
#[derive(Debug)]
pub struct Fill<const N: usize>(pub i64);

impl Comp for A {
    const IDX: usize = 0;
    fn mk(v: i64) -> Self { A(v, Token::new(0)) }
    fn get(&self) -> i64 { self.1.check(0); self.0 }
    fn set(&mut self, v: i64) { self.1.check(0); self.0 = v }
}
impl Comp for B {
    const IDX: usize = 1;
    fn mk(v: i64) -> Self { B(format!("{v}"), Token::new(1), std::array::from_fn(|i| v ^ i as i64)) }
    fn get(&self) -> i64 {
        self.1.check(1);
        let v = self.0.parse().unwrap_or(i64::MIN);
        if [0, 5, 7, 29, 30, 31, 46, 59, 60].iter().any(|&i| self.2[i] != v ^ i as i64) {
            reg(|r| r.errors.push("torn value".into()));
            return i64::MIN;
        }
        v
    }
    fn set(&mut self, v: i64) { *self = B::mk(v) }
}
impl Comp for C {
    const IDX: usize = 2;
    fn mk(_: i64) -> Self { reg(|r| r.live[2] += 1); C }
    fn get(&self) -> i64 { 0 }
    fn set(&mut self, _: i64) { *self = C::mk(0) }
}
impl Comp for G {
    const IDX: usize = 6;
    fn mk(_: i64) -> Self { G }
    fn get(&self) -> i64 { 0 }
    fn set(&mut self, _: i64) { *self = G }
}
impl Drop for C {
    fn drop(&mut self) { reg(|r| r.live[2] -= 1) }
}
const _: () = {
    #[derive(Debug)]
    pub struct Same(Box<(i64, Token)>);
    impl Alias for ForD {
        type T = Same;
    }
    impl Comp for Same {
        const IDX: usize = 3;
        fn mk(v: i64) -> Self { Same(Box::new((v, Token::new(3)))) }
        fn get(&self) -> i64 { self.0 .1.check(3); self.0 .0 }
        fn set(&mut self, v: i64) { self.0 .1.check(3); self.0 .0 = v }
    }
};
const _: () = {
    #[derive(Debug, Clone, Copy)]
    pub struct Same(i32);
    impl Alias for ForF {
        type T = Same;
    }
    impl Comp for Same {
        const IDX: usize = 5;
        fn mk(v: i64) -> Self { Same(v as i32) }
        fn get(&self) -> i64 { self.0 as i64 }
        fn set(&mut self, v: i64) { self.0 = v as i32 }
    }
};
impl E {
    fn pattern(v: i64) -> [i64; 69] {
        std::array::from_fn(|i| if i % 2 == 0 { v } else { !v })
    }
}
impl Comp for E {
    const IDX: usize = 4;
    fn mk(v: i64) -> Self { E(E::pattern(v), Token::new(4)) }
    fn get(&self) -> i64 {
        self.1.check(4);
        let v = self.0[0];
        let at = |i: usize| if i % 2 == 0 { v } else { !v };
        if [1, 2, 3, 6, 7, 8, 15, 31, 32, 33, 62, 63, 64, 67, 68].iter().any(|&i| self.0[i] != at(i)) || (self as *const E as usize) % 64 != 0 {
            reg(|r| r.errors.push("torn or misaligned value".into()));
            return i64::MIN;
        }
        v
    }
    fn set(&mut self, v: i64) { *self = E::mk(v) }
}
impl Comp for U {
    const IDX: usize = UNREG;
    fn mk(v: i64) -> Self { U(v, Token::new(UNREG)) }
    fn get(&self) -> i64 { self.1.check(UNREG); self.0 }
    fn set(&mut self, v: i64) { self.0 = v }
}

// ---- resources (registry indices 8..) ----
pub const NR: usize = 5;
macro_rules! fmt {
    ($n:ident, $name:expr) => {
        impl std::fmt::Debug for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, concat!($name, "<{}>"), self.get())
            }
        }
        impl std::fmt::Display for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.pad(&format!(concat!($name, "={}"), self.get()))
            }
        }
    };
}
/// Resources with one and the same name.
macro_rules! res {
    ($n:ident, $tag:ident, $i:expr) => {
        pub type $n = <$tag as Alias>::T;
        const _: () = {
            pub struct SameResource(i64, Token);
            impl Alias for $tag {
                type T = SameResource;
            }
            impl Comp for SameResource {
                const IDX: usize = $i;
                fn mk(v: i64) -> Self { SameResource(v, Token::new($i)) }
                fn get(&self) -> i64 { self.1.check($i); self.0 }
                fn set(&mut self, v: i64) { self.1.check($i); self.0 = v }
            }
            fmt!(SameResource, stringify!($n));
        };
    };
}
res!(R0, ForR0, 8);
res!(R1, ForR1, 9);
/// A plain resource of several words without drop glue.
#[derive(Clone, Copy)]
pub struct R3([i64; 5]);
impl Comp for R3 {
    const IDX: usize = 11;
    fn mk(v: i64) -> Self { R3([v, !v, v, !v, v]) }
    fn get(&self) -> i64 {
        let v = self.0[0];
        if self.0 != [v, !v, v, !v, v] {
            reg(|r| r.errors.push("torn resource".into()));
            return i64::MIN;
        }
        v
    }
    fn set(&mut self, v: i64) { *self = R3::mk(v) }
}
fmt!(R3, "R3");
/// Zero-sized resource.
pub struct R2;
impl Comp for R2 {
    const IDX: usize = 10;
    fn mk(_: i64) -> Self { reg(|r| r.live[10] += 1); R2 }
    fn get(&self) -> i64 { 0 }
    fn set(&mut self, _: i64) {}
}
impl Drop for R2 {
    fn drop(&mut self) { reg(|r| r.live[10] -= 1) }
}
impl std::fmt::Debug for R2 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "R2") }
}
impl std::fmt::Display for R2 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad("R2") }
}
pub fn rnorm(i: usize, v: i64) -> i64 {
    if i == 2 { 0 } else { v }
}

/// Runs `$body` with `$T` bound to the component type of index `$i`.
#[macro_export]
macro_rules! with_type {
    ($i:expr, $T:ident => $body:expr) => {
        match $i as usize {
            0 => { type $T = $crate::types::A; $body }
            1 => { type $T = $crate::types::B; $body }
            2 => { type $T = $crate::types::C; $body }
            3 => { type $T = $crate::types::D; $body }
            4 => { type $T = $crate::types::E; $body }
            5 => { type $T = $crate::types::F; $body }
            6 => { type $T = $crate::types::G; $body }
            _ => { type $T = $crate::types::U; $body }
        }
    };
}
/// Resource types: R0, R1, R2, as index 3 the component type A used as a resource, and R3.
#[macro_export]
macro_rules! with_res {
    ($i:expr, $T:ident => $body:expr) => {
        match $i as usize {
            0 => { type $T = $crate::types::R0; $body }
            1 => { type $T = $crate::types::R1; $body }
            2 => { type $T = $crate::types::R2; $body }
            3 => { type $T = $crate::types::A; $body }
            _ => { type $T = $crate::types::R3; $body }
        }
    };
}
