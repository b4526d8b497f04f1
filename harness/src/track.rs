//! Instrumented elements: every value has a unique id whose life cycle is recorded, so that
//! double drops, use after drop, leaks and unexpected clones are observed; user callbacks are
//! counted and can be made to panic at a chosen point.

use std::cell::{Cell, RefCell};
use std::hash::{Hash, Hasher};
use std::mem::ManuallyDrop;

const MAGIC: u32 = 0xA11C_E0DE;

#[derive(Default)]
struct Reg {
    alive: Vec<bool>,
    live: usize,
    errors: Vec<String>,
}

thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
    static CLONES: Cell<u64> = const { Cell::new(0) };
    static CREATED: Cell<u64> = const { Cell::new(0) };
    static DROPS: Cell<u64> = const { Cell::new(0) };
    static ZLIVE: Cell<i64> = const { Cell::new(0) };
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static FAULT: Cell<u64> = const { Cell::new(u64::MAX) };
    static KINDS: Cell<u32> = const { Cell::new(0) };
    static FIRED: Cell<u32> = const { Cell::new(0) };
}

pub const CLONE: u32 = 1;
pub const DROP: u32 = 2;
pub const CMP: u32 = 4;
pub const CALL: u32 = 8;

/// Payload of injected panics.
pub struct Injected;

/// Forgets everything; called before every case.
pub fn reset() {
    let _ = REG.try_with(|r| *r.borrow_mut() = Reg::default());
    CLONES.with(|c| c.set(0));
    CREATED.with(|c| c.set(0));
    DROPS.with(|c| c.set(0));
    ZLIVE.with(|c| c.set(0));
    disarm();
}

/// The callback number `at` (from 1) of one of the given kinds panics.
pub fn arm(kinds: u32, at: u64) {
    TICKS.with(|c| c.set(0));
    KINDS.with(|c| c.set(kinds));
    FAULT.with(|c| c.set(at));
    FIRED.with(|c| c.set(0));
}

pub fn disarm() {
    arm(0, u64::MAX);
}

/// Stops injecting, keeping the counters.
pub fn hold() {
    FAULT.with(|c| c.set(u64::MAX));
}

/// Number of callbacks of the armed kinds so far.
pub fn ticks() -> u64 {
    TICKS.with(|c| c.get())
}

/// The kind of callback that panicked (0: none).
pub fn fired() -> u32 {
    FIRED.with(|c| c.get())
}

/// To be called by user callbacks.
pub fn tick(kind: u32) {
    if KINDS.with(|c| c.get()) & kind != 0 {
        let n = TICKS.with(|c| c.get()) + 1;
        TICKS.with(|c| c.set(n));
        if n == FAULT.with(|c| c.get()) && !std::thread::panicking() {
            FIRED.with(|c| c.set(kind));
            std::panic::panic_any(Injected);
        }
    }
}

pub fn clones() -> u64 {
    CLONES.with(|c| c.get())
}

pub fn created() -> u64 {
    CREATED.with(|c| c.get())
}

pub fn drops() -> u64 {
    DROPS.with(|c| c.get())
}

/// Number of values that exist.
pub fn live() -> usize {
    REG.with(|r| r.borrow().live)
}

pub fn zlive() -> i64 {
    ZLIVE.with(|c| c.get())
}

#[track_caller]
pub fn check_errors() {
    let e = REG.with(|r| r.borrow().errors.first().cloned());
    if let Some(e) = e {
        panic!("{e}");
    }
}

/// The first error since the last reset.
pub fn first_error() -> Option<String> {
    REG.with(|r| r.borrow().errors.first().cloned())
}

/// No value exists, nothing was dropped twice.
#[track_caller]
pub fn check_none() {
    check_errors();
    let (n, z) = (live(), zlive());
    assert!(n == 0, "{n} elements were never dropped");
    assert!(z == 0, "{z} more zero-sized elements created than dropped");
}

/// Reports references that must be exclusive but refer to the same memory.
pub fn exclusive<T>(addrs: &mut Vec<*const T>) {
    if std::mem::size_of::<T>() > 0 {
        addrs.sort();
        if addrs.windows(2).any(|w| w[0] == w[1]) {
            error("two exclusive references refer to the same element".into());
        }
    }
}

fn error(msg: String) {
    REG.with(|r| r.borrow_mut().errors.push(msg));
}

fn birth() -> u32 {
    CREATED.with(|c| c.set(c.get() + 1));
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.alive.push(true);
        r.live += 1;
        r.alive.len() as u32 - 1
    })
}

/// Tracked element with a heap allocation.
pub struct Tr {
    magic: u32,
    id: u32,
    pub val: u32,
    heap: ManuallyDrop<Box<u32>>,
}

impl Tr {
    pub fn new(val: u32) -> Tr {
        let id = birth();
        Tr { magic: MAGIC, id, val, heap: ManuallyDrop::new(Box::new(!val)) }
    }

    pub fn id(&self) -> u32 {
        self.id
    }

    /// True if this is a live, undamaged value.
    pub fn valid(&self) -> bool {
        self.magic == MAGIC
            && REG.with(|r| r.borrow().alive.get(self.id as usize) == Some(&true))
            && **self.heap == !self.val
    }

    /// Reads the value, recording an error if it is not live.
    #[track_caller]
    pub fn get(&self) -> u32 {
        if !self.valid() {
            error("an element was used that was already dropped".into());
            panic!("element with value {} is used but was already dropped", self.val);
        }
        self.val
    }
}

impl Clone for Tr {
    fn clone(&self) -> Tr {
        tick(CLONE);
        CLONES.with(|c| c.set(c.get() + 1));
        if !self.valid() {
            error("cloned an element that was already dropped".into());
        }
        Tr::new(self.val)
    }
}

impl Drop for Tr {
    fn drop(&mut self) {
        let ok = self.magic == MAGIC
            && REG.with(|r| {
                let mut r = r.borrow_mut();
                match r.alive.get(self.id as usize) {
                    Some(true) => {
                        r.alive[self.id as usize] = false;
                        r.live -= 1;
                        true
                    }
                    _ => false,
                }
            });
        DROPS.with(|c| c.set(c.get() + 1));
        if ok {
            unsafe { ManuallyDrop::drop(&mut self.heap) };
        } else if self.magic == MAGIC {
            error(format!("element {} (value {}) was dropped twice", self.id, self.val));
        } else {
            error("memory that holds no element was dropped".into());
        }
        tick(DROP);
    }
}

impl PartialEq for Tr {
    fn eq(&self, o: &Tr) -> bool {
        tick(CMP);
        if !self.valid() || !o.valid() {
            error("compared an element that was already dropped".into());
        }
        self.val == o.val
    }
}

impl Eq for Tr {}

impl Hash for Tr {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick(CMP);
        self.val.hash(h)
    }
}

impl std::fmt::Debug for Tr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if !self.valid() {
            error("formatted an element that was already dropped".into());
        }
        write!(f, "{}", self.val)
    }
}

impl Default for Tr {
    fn default() -> Tr {
        Tr::new(0)
    }
}

impl std::ops::Add for Tr {
    type Output = Tr;
    fn add(self, o: Tr) -> Tr {
        tick(CALL);
        Tr::new(self.get().wrapping_mul(3).wrapping_add(o.get()))
    }
}

impl<'a> std::ops::Add<&'a Tr> for Tr {
    type Output = Tr;
    fn add(self, o: &Tr) -> Tr {
        tick(CALL);
        Tr::new(self.get().wrapping_mul(3).wrapping_add(o.get()))
    }
}

impl std::ops::Neg for Tr {
    type Output = Tr;
    fn neg(self) -> Tr {
        tick(CALL);
        Tr::new(!self.get())
    }
}

/// Zero-sized tracked element.
pub struct TrZ(());

impl TrZ {
    pub fn new() -> TrZ {
        ZLIVE.with(|c| c.set(c.get() + 1));
        CREATED.with(|c| c.set(c.get() + 1));
        TrZ(())
    }
}

impl Default for TrZ {
    fn default() -> Self {
        Self::new()
    }
}

impl Clone for TrZ {
    fn clone(&self) -> TrZ {
        tick(CLONE);
        CLONES.with(|c| c.set(c.get() + 1));
        TrZ::new()
    }
}

impl Drop for TrZ {
    fn drop(&mut self) {
        DROPS.with(|c| c.set(c.get() + 1));
        ZLIVE.with(|c| c.set(c.get() - 1));
        if ZLIVE.with(|c| c.get()) < 0 {
            error("more zero-sized elements dropped than created".into());
        }
        tick(DROP);
    }
}

impl PartialEq for TrZ {
    fn eq(&self, _: &TrZ) -> bool {
        tick(CMP);
        true
    }
}

impl std::ops::Add for TrZ {
    type Output = TrZ;
    fn add(self, _: TrZ) -> TrZ {
        tick(CALL);
        TrZ::new()
    }
}

impl<'a> std::ops::Add<&'a TrZ> for TrZ {
    type Output = TrZ;
    fn add(self, _: &TrZ) -> TrZ {
        tick(CALL);
        TrZ::new()
    }
}

impl std::ops::AddAssign for TrZ {
    fn add_assign(&mut self, _: TrZ) {
        tick(CALL);
    }
}

impl std::ops::Neg for TrZ {
    type Output = TrZ;
    fn neg(self) -> TrZ {
        tick(CALL);
        TrZ::new()
    }
}

impl std::fmt::Debug for TrZ {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Z")
    }
}

impl std::ops::AddAssign for Tr {
    fn add_assign(&mut self, o: Tr) {
        tick(CALL);
        let v = self.get().wrapping_mul(3).wrapping_add(o.get());
        *self = Tr::new(v);
    }
}

/// Plain element that owns memory; nothing is recorded, so that the balance of the allocator can
/// be taken.
#[derive(Clone, PartialEq, Debug)]
pub struct Plain(Box<u32>);

impl std::ops::Add for Plain {
    type Output = Plain;
    fn add(self, o: Plain) -> Plain {
        Plain(Box::new(self.0.wrapping_mul(3).wrapping_add(*o.0)))
    }
}

impl<'a> std::ops::Add<&'a Plain> for Plain {
    type Output = Plain;
    fn add(self, o: &Plain) -> Plain {
        Plain(Box::new(self.0.wrapping_mul(3).wrapping_add(*o.0)))
    }
}

impl std::ops::AddAssign for Plain {
    fn add_assign(&mut self, o: Plain) {
        *self = Plain(Box::new(self.0.wrapping_mul(3).wrapping_add(*o.0)));
    }
}

impl std::ops::Neg for Plain {
    type Output = Plain;
    fn neg(self) -> Plain {
        Plain(Box::new(!*self.0))
    }
}

/// Abstraction over the tracked element types.
pub trait Track:
    Clone
    + PartialEq
    + std::fmt::Debug
    + std::ops::Add<Output = Self>
    + for<'a> std::ops::Add<&'a Self, Output = Self>
    + std::ops::AddAssign
    + std::ops::Neg<Output = Self>
    + 'static
{
    const ZST: bool;
    /// Creation, cloning and dropping is recorded.
    const COUNTED: bool;
    fn mk(val: u32) -> Self;
    /// The value, checked to be live (0 for zero-sized elements).
    fn val(&self) -> u32;
}

impl Track for Tr {
    const ZST: bool = false;
    const COUNTED: bool = true;
    fn mk(val: u32) -> Tr {
        Tr::new(val)
    }
    fn val(&self) -> u32 {
        self.get()
    }
}

impl Track for TrZ {
    const ZST: bool = true;
    const COUNTED: bool = true;
    fn mk(_: u32) -> TrZ {
        TrZ::new()
    }
    fn val(&self) -> u32 {
        0
    }
}

impl Track for Plain {
    const ZST: bool = false;
    const COUNTED: bool = false;
    fn mk(val: u32) -> Plain {
        Plain(Box::new(val))
    }
    fn val(&self) -> u32 {
        *self.0
    }
}

pub fn total_live() -> i64 {
    live() as i64 + zlive()
}

impl crate::model::El for Tr {
    fn make(k: u64) -> Tr {
        Tr::new(k as u32)
    }
    const NAME: &'static str = "Tr";
}

impl crate::model::El for TrZ {
    fn make(_: u64) -> TrZ {
        TrZ::new()
    }
    const NAME: &'static str = "TrZ";
}
