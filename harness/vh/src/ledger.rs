//! Element ledger: every tracked element is created, cloned and dropped under a
//! unique id; dropping twice or using a dropped element is recorded as an anomaly.
use std::cell::{Cell, RefCell};

#[derive(Default)]
struct Slab {
    alive: Vec<bool>,
    live: u64,
    created: u64,
    dropped: u64,
    anomalies: Vec<String>,
}

thread_local! {
    static SLAB: RefCell<Slab> = RefCell::new(Slab::default());
    static PANIC_ON_CLONE: Cell<i64> = const { Cell::new(-1) };
    static PANIC_ON_DROP: Cell<i64> = const { Cell::new(-1) };
    static PANIC_ON_USER: Cell<i64> = const { Cell::new(-1) };
    static FIRED: Cell<u64> = const { Cell::new(0) };
}

pub fn reset() {
    let _ = SLAB.try_with(|s| *s.borrow_mut() = Slab::default());
    arm_clone(-1);
    arm_drop(-1);
    arm_user(-1);
    let _ = FIRED.try_with(|c| c.set(0));
}
/// Panic at the n-th (0-based) following moment at which user code runs; -1 disarms.
pub fn arm_user(n: i64) {
    let _ = PANIC_ON_USER.try_with(|c| c.set(n));
}
/// Injected panics since the last reset.
pub fn fired() -> u64 {
    FIRED.with(|c| c.get())
}
/// User code runs here: the place where an armed panic fires.
pub fn tick() {
    if PANIC_ON_USER.try_with(countdown).unwrap_or(false) {
        inject("injected user code panic");
    }
}
fn inject(m: &'static str) -> ! {
    let _ = FIRED.try_with(|c| c.set(c.get() + 1));
    std::panic::panic_any(m)
}
/// Panic at the n-th (0-based) following clone; -1 disarms.
pub fn arm_clone(n: i64) {
    let _ = PANIC_ON_CLONE.try_with(|c| c.set(n));
}
pub fn arm_drop(n: i64) {
    let _ = PANIC_ON_DROP.try_with(|c| c.set(n));
}
pub fn live() -> u64 {
    SLAB.with(|s| s.borrow().live)
}
pub fn created() -> u64 {
    SLAB.with(|s| s.borrow().created)
}
pub fn dropped() -> u64 {
    SLAB.with(|s| s.borrow().dropped)
}
pub fn anomaly(m: String) {
    let _ = SLAB.try_with(|s| s.borrow_mut().anomalies.push(m));
}
pub fn take_anomalies() -> Vec<String> {
    SLAB.with(|s| std::mem::take(&mut s.borrow_mut().anomalies))
}

const MAGIC: u64 = 0x5EED_1E55_C0FF_EE00;

/// A tracked token. `MAGIC ^ id` in `chk` lets a reader recognise stale memory.
pub struct Tracked {
    id: u64,
    chk: u64,
}

impl Tracked {
    pub fn new() -> Self {
        let id = SLAB
            .try_with(|s| {
                let mut s = s.borrow_mut();
                s.alive.push(true);
                s.live += 1;
                s.created += 1;
                s.alive.len() as u64 - 1
            })
            .unwrap_or(0);
        Tracked { id, chk: MAGIC ^ id }
    }
    pub fn id(&self) -> u64 {
        self.id
    }
    /// Record an anomaly if this token is not a live element.
    pub fn touch(&self) {
        let _ = SLAB.try_with(|s| {
            let mut s = s.borrow_mut();
            if self.chk != MAGIC ^ self.id {
                s.anomalies.push(format!("read of invalid element memory (id {:#x})", self.id));
            } else if !s.alive.get(self.id as usize).copied().unwrap_or(false) {
                s.anomalies.push(format!("use of dropped element #{}", self.id));
            }
        });
        tick();
    }
}
impl Default for Tracked {
    fn default() -> Self {
        Self::new()
    }
}

fn countdown(c: &Cell<i64>) -> bool {
    let n = c.get();
    if n < 0 {
        return false;
    }
    c.set(n - 1);
    n == 0
}

impl Clone for Tracked {
    fn clone(&self) -> Self {
        self.touch();
        if PANIC_ON_CLONE.try_with(countdown).unwrap_or(false) {
            inject("injected clone panic");
        }
        Tracked::new()
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        let _ = SLAB.try_with(|s| {
            let mut s = s.borrow_mut();
            if self.chk != MAGIC ^ self.id {
                s.anomalies.push(format!("drop of invalid element memory (id {:#x})", self.id));
                return;
            }
            let i = self.id as usize;
            match s.alive.get(i).copied() {
                Some(true) => {
                    s.alive[i] = false;
                    s.live -= 1;
                    s.dropped += 1;
                }
                Some(false) => s.anomalies.push(format!("element #{i} dropped twice")),
                None => s.anomalies.push(format!("drop of unknown element #{i}")),
            }
        });
        if PANIC_ON_DROP.try_with(countdown).unwrap_or(false) && !std::thread::panicking() {
            inject("injected drop panic");
        }
    }
}
