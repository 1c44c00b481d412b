//! Keys, values and the recording "interpreter" passed through the containers.
use ruby_traits::{RubyEql, RubyHash, RubySymEql, RubySymHash};
use std::borrow::Borrow;
use std::hash::{BuildHasher, Hash, Hasher};
use vh::ledger::Tracked;
use vh::Rng;

/// What user callbacks were run, in order.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev {
    /// hash of the key (val, h)
    Hash(u32, u64),
    /// eql? between (val, h) and (val, h)
    Eql((u32, u64), (u32, u64)),
}

/// The error a user callback raises.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Exc(pub u64);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    Raise,
    Panic,
}

pub struct Vm {
    pub trace: Vec<Ev>,
    pub tracing: bool,
    pub calls: u64,
    pub fault: Fault,
    /// callback index (counted from `arm`) at which the fault fires
    pub fault_at: u64,
    pub armed_calls: u64,
    pub fired: u64,
    /// callbacks run after the fault fired
    pub after_fault: u64,
    pub serial: u64,
    /// globals token the callbacks must receive
    pub gtoken: u64,
    pub wrong_ctx: u64,
}
pub struct Gl {
    pub token: u64,
}

impl Vm {
    pub fn new() -> (Vm, Gl) {
        (
            Vm {
                trace: vec![],
                tracing: false,
                calls: 0,
                fault: Fault::None,
                fault_at: 0,
                armed_calls: 0,
                fired: 0,
                after_fault: 0,
                serial: 0,
                gtoken: 77,
                wrong_ctx: 0,
            },
            Gl { token: 77 },
        )
    }
    pub fn arm(&mut self, f: Fault, at: u64, serial: u64) {
        self.fault = f;
        self.fault_at = at;
        self.armed_calls = 0;
        self.fired = 0;
        self.after_fault = 0;
        self.serial = serial;
    }
    pub fn disarm(&mut self) {
        self.fault = Fault::None;
    }
    pub fn callback(&mut self, g: &Gl, ev: Ev) -> Result<(), Exc> {
        self.calls += 1;
        vh::ledger::tick();
        if g.token != self.gtoken {
            self.wrong_ctx += 1;
        }
        if self.tracing {
            self.trace.push(ev);
        }
        if self.fault != Fault::None {
            let n = self.armed_calls;
            self.armed_calls += 1;
            if n == self.fault_at {
                self.fired += 1;
                match self.fault {
                    Fault::Panic => std::panic::panic_any("injected callback panic"),
                    _ => return Err(Exc(self.serial)),
                }
            } else if n > self.fault_at {
                self.after_fault += 1;
            }
        }
        Ok(())
    }
}

/// The part of a key that decides its identity: `h` is what its hash method
/// returns, `val` is what eql? compares.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Core {
    pub val: u32,
    pub h: u64,
}

pub struct K {
    pub core: Core,
    pub tag: u64,
    pub tr: Tracked,
    pub heap: Option<Box<u64>>,
}
impl std::fmt::Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{}@{:x}#{}", self.core.val, self.core.h, self.tag)
    }
}
impl K {
    pub fn new(core: Core, tag: u64) -> K {
        vh::ledger::tick();
        let heap = if tag & 3 == 0 { Some(Box::new(tag)) } else { None };
        K { core, tag, tr: Tracked::new(), heap }
    }
    pub fn touch(&self) {
        self.tr.touch();
        if let Some(b) = &self.heap {
            assert_heap(**b, self.tag);
        }
    }
}
fn assert_heap(a: u64, b: u64) {
    if a != b {
        vh::ledger::anomaly(format!("heap payload of an element was corrupted: {a} vs {b}"));
    }
}
impl Clone for K {
    fn clone(&self) -> Self {
        self.touch();
        let tr = self.tr.clone();
        K { core: self.core, tag: self.tag, tr, heap: self.heap.clone() }
    }
}
pub struct V {
    pub v: u64,
    pub tr: Tracked,
    pub heap: Option<Box<u64>>,
}
impl V {
    pub fn new(v: u64) -> V {
        vh::ledger::tick();
        let heap = if v & 3 == 1 { Some(Box::new(v)) } else { None };
        V { v, tr: Tracked::new(), heap }
    }
    pub fn set(&mut self, v: u64) {
        self.touch();
        self.v = v;
        self.heap = if v & 3 == 1 { Some(Box::new(v)) } else { None };
    }
    pub fn touch(&self) {
        self.tr.touch();
        if let Some(b) = &self.heap {
            assert_heap(**b, self.v);
        }
    }
}
impl Default for V {
    fn default() -> Self {
        V::new(0xdef)
    }
}
impl Clone for V {
    fn clone(&self) -> Self {
        self.touch();
        let tr = self.tr.clone();
        V { v: self.v, tr, heap: self.heap.clone() }
    }
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "v{}", self.v)
    }
}
impl RubyEql<Vm, Gl, Exc> for V {
    fn eql(&self, o: &Self, vm: &mut Vm, g: &mut Gl) -> Result<bool, Exc> {
        vm.callback(g, Ev::Eql((self.v as u32, u64::MAX), (o.v as u32, u64::MAX)))?;
        Ok(self.v == o.v)
    }
}

impl RubyHash<Vm, Gl, Exc> for Core {
    fn ruby_hash<H: Hasher>(&self, s: &mut H, vm: &mut Vm, g: &mut Gl) -> Result<(), Exc> {
        vm.callback(g, Ev::Hash(self.val, self.h))?;
        s.write_u64(self.h);
        Ok(())
    }
}
impl RubyEql<Vm, Gl, Exc> for Core {
    fn eql(&self, o: &Self, vm: &mut Vm, g: &mut Gl) -> Result<bool, Exc> {
        vm.callback(g, Ev::Eql((self.val, self.h), (o.val, o.h)))?;
        Ok(self.val == o.val)
    }
}
impl RubyHash<Vm, Gl, Exc> for K {
    fn ruby_hash<H: Hasher>(&self, s: &mut H, vm: &mut Vm, g: &mut Gl) -> Result<(), Exc> {
        self.touch();
        RubyHash::ruby_hash(&self.core, s, vm, g)
    }
}
impl RubyEql<Vm, Gl, Exc> for K {
    fn eql(&self, o: &Self, vm: &mut Vm, g: &mut Gl) -> Result<bool, Exc> {
        self.touch();
        o.touch();
        RubyEql::eql(&self.core, &o.core, vm, g)
    }
}
impl Borrow<Core> for K {
    fn borrow(&self) -> &Core {
        &self.core
    }
}
// hashbrown's HashMap/HashSet hash with std's Hash.
impl Hash for Core {
    fn hash<H: Hasher>(&self, s: &mut H) {
        s.write_u64(self.h);
    }
}
impl Hash for K {
    fn hash<H: Hasher>(&self, s: &mut H) {
        self.touch();
        s.write_u64(self.core.h);
    }
}
impl PartialEq for K {
    fn eq(&self, o: &Self) -> bool {
        self.core.val == o.core.val
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.touch();
        self.core.cmp(&o.core)
    }
}
// Symbol fast path: the symbol is the core itself, key tag marks "from symbol".
impl RubySymHash for Core {
    fn ruby_hash<H: Hasher>(&self, s: &mut H) {
        s.write_u64(self.h);
    }
}
impl RubySymEql for Core {
    fn eql(&self, o: &Self) -> bool {
        self.val == o.val
    }
}
pub const SYM_TAG: u64 = 1 << 40;
impl From<Core> for K {
    fn from(c: Core) -> K {
        K::new(c, SYM_TAG | c.val as u64)
    }
}

/// Hash builder that keeps the key's hash bits.
#[derive(Clone, Default, Debug)]
pub struct Bh;
pub struct Ident(u64);
impl BuildHasher for Bh {
    type Hasher = Ident;
    fn build_hasher(&self) -> Ident {
        Ident(0)
    }
}
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100_0000_01b3).rotate_left(9);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}

pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^ (z >> 31)
}

pub const HASH_POLICIES: u64 = 10;
pub const POLICY_NAMES: [&str; 10] = [
    "pol_mixed", "pol_const", "pol_samepos", "pol_sametag", "pol_three", "pol_seq", "pol_extreme", "pol_mod16", "pol_mixture", "pol_4x8",
];

/// Hash of key number `i` under clustering policy `pol`.
pub fn policy_hash(pol: u64, i: u64, salt: u64) -> u64 {
    let m = mix(i ^ salt.rotate_left(32));
    match pol {
        0 => m,                                        // well mixed
        1 => salt,                                     // all collide
        2 => (m & !0xffff) | (salt & 0xffff),          // same start position, different tags
        3 => (m & !(0x7f << 57)) | ((salt & 0x7f) << 57), // same tag, different positions
        4 => mix(i % 3 ^ salt),                        // three classes
        5 => i,                                        // sequential, tag 0
        6 => u64::MAX - i % 2,                         // extreme bits
        7 => (i % 16) | ((m >> 3 & 3) << 57),          // position = i mod 16, 4 tags
        8 => if i % 4 == 0 { m } else { salt },        // mixture
        _ => (m & (3 << 57)) | (m & 7),                // 4 tags x 8 positions
    }
}

/// A key universe: `cores[i]` are pairwise different identities.
pub struct Universe {
    pub cores: Vec<Core>,
    pub policy: u64,
}
impl Universe {
    pub fn gen(r: &mut Rng, n: usize) -> Universe {
        let policy = r.below(HASH_POLICIES);
        let salt = r.next();
        Universe {
            cores: (0..n as u64)
                .map(|i| Core { val: i as u32, h: policy_hash(policy, i, salt) })
                .collect(),
            policy,
        }
    }
    /// Identities where eql? alone does not separate: several keys share `val`
    /// and differ by hash only.
    pub fn gen_split(r: &mut Rng, n: usize) -> Universe {
        let policy = r.below(HASH_POLICIES);
        let salt = r.next();
        let vals = r.range(1, 4.max(n as u64 / 2)) as u32;
        let mut cores: Vec<Core> = vec![];
        let mut i = 0u64;
        while cores.len() < n && i < 20 * n as u64 {
            let c = Core { val: r.below(vals as u64) as u32, h: policy_hash(policy, i, salt) };
            if !cores.contains(&c) {
                cores.push(c);
            }
            i += 1;
        }
        Universe { cores, policy }
    }
}
impl Universe {
    /// Like `gen`, but keeps big universes off the policies with few distinct
    /// hashes (one long chain makes every step linear).
    pub fn gen_sized(r: &mut Rng, n: usize) -> Universe {
        loop {
            let u = Universe::gen(r, n);
            if n <= 600 || !matches!(u.policy, 1 | 4 | 6 | 8) {
                return u;
            }
        }
    }
}
