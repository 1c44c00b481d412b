//! The inline-or-heap vector the interpreter's strings are stored in, with
//! the field order they rely on: capacity, then either the inline elements
//! or the heap pointer and length.  `capacity` holds the length while the
//! elements are inline.

use std::marker::PhantomData;
use std::mem::{ManuallyDrop, MaybeUninit};
use std::ops::{Deref, DerefMut};

thread_local! {
    static LIVE: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
}

/// Heap buffers this thread's vectors hold.
pub fn live_buffers() -> isize {
    LIVE.with(|c| c.get())
}

thread_local! {
    static POISON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static HELD: std::cell::RefCell<Vec<(*mut u8, std::alloc::Layout)>> = const { std::cell::RefCell::new(Vec::new()) };
}
const PATTERN: u8 = 0xf8;

/// From now on slots given up are overwritten, and buffers given up are
/// overwritten and kept until `release_held`.
pub fn set_poison(on: bool) {
    POISON.with(|c| c.set(on));
}
pub fn release_held() {
    for (p, layout) in HELD.take() {
        unsafe { std::alloc::dealloc(p, layout) };
    }
}
fn poison() -> bool {
    POISON.with(|c| c.get())
}
/// Gives up a buffer whose elements have been moved out or dropped.
unsafe fn give_up<T>(ptr: *mut T, cap: usize) {
    unsafe {
        if poison() && cap > 0 && size_of::<T>() > 0 {
            std::ptr::write_bytes(ptr, PATTERN, cap);
            HELD.with_borrow_mut(|h| h.push((ptr as *mut u8, std::alloc::Layout::array::<T>(cap).unwrap())));
        } else {
            drop(Vec::from_raw_parts(ptr, 0, cap));
        }
    }
}

fn count(n: isize) {
    LIVE.with(|c| c.set(c.get() + n));
}

pub unsafe trait Array {
    type Item;
    const N: usize;
}
unsafe impl<T, const N: usize> Array for [T; N] {
    type Item = T;
    const N: usize = N;
}

#[repr(C)]
union Data<A: Array> {
    inline: ManuallyDrop<MaybeUninit<A>>,
    heap: (*mut A::Item, usize),
}

#[repr(C)]
pub struct SmallVec<A: Array> {
    capacity: usize,
    data: Data<A>,
    _own: PhantomData<A::Item>,
}

impl<A: Array> SmallVec<A> {
    pub fn new() -> Self {
        SmallVec { capacity: 0, data: Data { inline: ManuallyDrop::new(MaybeUninit::uninit()) }, _own: PhantomData }
    }

    pub fn with_capacity(n: usize) -> Self {
        let mut v = Self::new();
        v.reserve_exact(n);
        v
    }

    pub fn from_vec(vec: Vec<A::Item>) -> Self {
        let mut vec = ManuallyDrop::new(vec);
        let (ptr, len, cap) = (vec.as_mut_ptr(), vec.len(), vec.capacity());
        if cap <= A::N {
            let mut v = Self::new();
            unsafe {
                std::ptr::copy_nonoverlapping(ptr, v.as_mut_ptr(), len);
                v.set_len(len);
                give_up(ptr, cap);
            }
            v
        } else {
            count(1);
            SmallVec { capacity: cap, data: Data { heap: (ptr, len) }, _own: PhantomData }
        }
    }

    pub fn spilled(&self) -> bool {
        self.capacity > A::N
    }

    pub fn capacity(&self) -> usize {
        if self.spilled() { self.capacity } else { A::N }
    }

    pub fn len(&self) -> usize {
        if self.spilled() { unsafe { self.data.heap.1 } } else { self.capacity }
    }

    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }

    pub fn as_ptr(&self) -> *const A::Item {
        if self.spilled() {
            unsafe { self.data.heap.0 }
        } else {
            &raw const self.data.inline as *const A::Item
        }
    }

    pub fn as_mut_ptr(&mut self) -> *mut A::Item {
        if self.spilled() {
            unsafe { self.data.heap.0 }
        } else {
            &raw mut self.data.inline as *mut A::Item
        }
    }

    pub unsafe fn set_len(&mut self, n: usize) {
        if self.spilled() {
            self.data.heap.1 = n;
        } else {
            self.capacity = n;
        }
    }

    fn grow_to(&mut self, cap: usize) {
        let len = self.len();
        unsafe {
            if self.spilled() && poison() {
                let mut v = ManuallyDrop::new(Vec::<A::Item>::with_capacity(cap));
                std::ptr::copy_nonoverlapping(self.as_ptr(), v.as_mut_ptr(), len);
                give_up(self.data.heap.0, self.capacity);
                self.data.heap = (v.as_mut_ptr(), len);
                self.capacity = v.capacity();
            } else if self.spilled() {
                let mut v = Vec::from_raw_parts(self.data.heap.0, len, self.capacity);
                v.reserve_exact(cap - len);
                let mut v = ManuallyDrop::new(v);
                self.data.heap = (v.as_mut_ptr(), len);
                self.capacity = v.capacity();
            } else if cap > A::N {
                count(1);
                let mut v = ManuallyDrop::new(Vec::<A::Item>::with_capacity(cap));
                std::ptr::copy_nonoverlapping(self.as_ptr(), v.as_mut_ptr(), len);
                if poison() {
                    std::ptr::write_bytes(self.as_mut_ptr(), PATTERN, A::N);
                }
                self.data = Data { heap: (v.as_mut_ptr(), len) };
                self.capacity = v.capacity();
            }
        }
    }

    pub fn reserve(&mut self, n: usize) {
        let need = self.len().checked_add(n).expect("capacity overflow");
        if need > self.capacity() {
            self.grow_to(need.checked_next_power_of_two().expect("capacity overflow"));
        }
    }

    pub fn reserve_exact(&mut self, n: usize) {
        let need = self.len().checked_add(n).expect("capacity overflow");
        if need > self.capacity() {
            self.grow_to(need);
        }
    }

    pub fn push(&mut self, x: A::Item) {
        self.reserve(1);
        let n = self.len();
        unsafe {
            self.as_mut_ptr().add(n).write(x);
            self.set_len(n + 1);
        }
    }

    pub fn pop(&mut self) -> Option<A::Item> {
        let n = self.len();
        if n == 0 {
            return None;
        }
        unsafe {
            self.set_len(n - 1);
            let x = self.as_ptr().add(n - 1).read();
            if poison() {
                std::ptr::write_bytes(self.as_mut_ptr().add(n - 1), PATTERN, 1);
            }
            Some(x)
        }
    }

    pub fn truncate(&mut self, n: usize) {
        while self.len() > n {
            self.pop();
        }
    }

    pub fn clear(&mut self) {
        self.truncate(0);
    }

    pub fn as_slice(&self) -> &[A::Item] {
        self
    }

    pub fn as_mut_slice(&mut self) -> &mut [A::Item] {
        self
    }

    pub fn insert(&mut self, i: usize, x: A::Item) {
        let n = self.len();
        assert!(i <= n, "index exceeds length");
        self.push(x);
        self[i..].rotate_right(1);
    }

    pub fn insert_many<I: IntoIterator<Item = A::Item>>(&mut self, i: usize, it: I) {
        let n = self.len();
        assert!(i <= n, "index exceeds length");
        for x in it {
            self.push(x);
        }
        let added = self.len() - n;
        self[i..].rotate_right(added);
    }

    pub fn remove(&mut self, i: usize) -> A::Item {
        assert!(i < self.len(), "index out of bounds");
        self[i..].rotate_left(1);
        self.pop().unwrap()
    }

    pub fn swap_remove(&mut self, i: usize) -> A::Item {
        let last = self.len() - 1;
        self.swap(i, last);
        self.pop().unwrap()
    }

    pub fn retain<F: FnMut(&mut A::Item) -> bool>(&mut self, mut f: F) {
        let n = self.len();
        let mut gone = 0;
        for i in 0..n {
            if !f(&mut self[i]) {
                gone += 1;
            } else if gone > 0 {
                self.swap(i - gone, i);
            }
        }
        self.truncate(n - gone);
    }

    /// Takes a range out; dropping the iterator drops what it still holds.
    pub fn drain<R: std::ops::RangeBounds<usize>>(&mut self, range: R) -> Drain<'_, A> {
        use std::ops::Bound::*;
        let n = self.len();
        let start = match range.start_bound() {
            Included(&x) => x,
            Excluded(&x) => x + 1,
            Unbounded => 0,
        };
        let end = match range.end_bound() {
            Included(&x) => x + 1,
            Excluded(&x) => x,
            Unbounded => n,
        };
        assert!(start <= end && end <= n, "drain range out of bounds");
        self[start..].rotate_left(end - start);
        let mut out = Vec::with_capacity(end - start);
        for _ in start..end {
            out.push(self.pop().unwrap());
        }
        out.reverse();
        Drain { items: out.into_iter(), of: PhantomData }
    }

    pub fn shrink_to_fit(&mut self) {}

    pub fn into_vec(self) -> Vec<A::Item> {
        let mut me = ManuallyDrop::new(self);
        let n = me.len();
        unsafe {
            if me.spilled() {
                count(-1);
                Vec::from_raw_parts(me.data.heap.0, n, me.capacity)
            } else {
                let mut v = Vec::with_capacity(n);
                std::ptr::copy_nonoverlapping(me.as_mut_ptr(), v.as_mut_ptr(), n);
                v.set_len(n);
                v
            }
        }
    }
}

impl<A: Array> SmallVec<A>
where
    A::Item: Copy,
{
    pub fn from_slice(s: &[A::Item]) -> Self {
        let mut v = Self::with_capacity(s.len());
        v.extend_from_slice(s);
        v
    }

    pub fn extend_from_slice(&mut self, s: &[A::Item]) {
        self.reserve(s.len());
        let n = self.len();
        unsafe {
            std::ptr::copy_nonoverlapping(s.as_ptr(), self.as_mut_ptr().add(n), s.len());
            self.set_len(n + s.len());
        }
    }
}

impl<A: Array> SmallVec<A>
where
    A::Item: Clone,
{
    pub fn from_elem(x: A::Item, n: usize) -> Self {
        let mut v = Self::with_capacity(n);
        v.resize(n, x);
        v
    }

    pub fn resize(&mut self, n: usize, x: A::Item) {
        if n > self.len() {
            self.reserve(n - self.len());
            while self.len() < n {
                self.push(x.clone());
            }
        } else {
            self.truncate(n);
        }
    }
}

impl<A: Array> Extend<A::Item> for SmallVec<A> {
    fn extend<I: IntoIterator<Item = A::Item>>(&mut self, it: I) {
        for x in it {
            self.push(x);
        }
    }
}
impl<A: Array> std::iter::FromIterator<A::Item> for SmallVec<A> {
    fn from_iter<I: IntoIterator<Item = A::Item>>(it: I) -> Self {
        let mut v = Self::new();
        v.extend(it);
        v
    }
}
impl<A: Array> Default for SmallVec<A> {
    fn default() -> Self {
        Self::new()
    }
}
impl<A: Array> Deref for SmallVec<A> {
    type Target = [A::Item];
    fn deref(&self) -> &[A::Item] {
        unsafe { std::slice::from_raw_parts(self.as_ptr(), self.len()) }
    }
}
impl<A: Array> DerefMut for SmallVec<A> {
    fn deref_mut(&mut self) -> &mut [A::Item] {
        unsafe { std::slice::from_raw_parts_mut(self.as_mut_ptr(), self.len()) }
    }
}
impl<A: Array> Clone for SmallVec<A>
where
    A::Item: Clone,
{
    fn clone(&self) -> Self {
        self.iter().cloned().collect()
    }
}
impl<A: Array> Drop for SmallVec<A> {
    fn drop(&mut self) {
        self.truncate(0);
        if self.spilled() {
            count(-1);
            unsafe { give_up(self.data.heap.0, self.capacity) }
        }
    }
}
impl<A: Array> std::fmt::Debug for SmallVec<A>
where
    A::Item: std::fmt::Debug,
{
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self[..].fmt(f)
    }
}
impl<A: Array, B: Array> PartialEq<SmallVec<B>> for SmallVec<A>
where
    A::Item: PartialEq<B::Item>,
{
    fn eq(&self, o: &SmallVec<B>) -> bool {
        self[..] == o[..]
    }
}
impl<A: Array> IntoIterator for SmallVec<A> {
    type Item = A::Item;
    type IntoIter = std::vec::IntoIter<A::Item>;
    fn into_iter(self) -> Self::IntoIter {
        self.into_vec().into_iter()
    }
}
impl<'a, A: Array> IntoIterator for &'a SmallVec<A> {
    type Item = &'a A::Item;
    type IntoIter = std::slice::Iter<'a, A::Item>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}

impl<A: Array> From<Vec<A::Item>> for SmallVec<A> {
    fn from(v: Vec<A::Item>) -> Self {
        Self::from_vec(v)
    }
}

pub struct Drain<'a, A: Array> {
    items: std::vec::IntoIter<A::Item>,
    of: PhantomData<&'a mut A>,
}
impl<A: Array> Iterator for Drain<'_, A> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.items.size_hint()
    }
}
impl<A: Array> DoubleEndedIterator for Drain<'_, A> {
    fn next_back(&mut self) -> Option<A::Item> {
        self.items.next_back()
    }
}
impl<A: Array> ExactSizeIterator for Drain<'_, A> {}

#[macro_export]
macro_rules! smallvec {
    ($x:expr; $n:expr) => { $crate::SmallVec::from_elem($x, $n) };
    ($($x:expr),* $(,)?) => {{
        #[allow(unused_mut)]
        let mut v = $crate::SmallVec::new();
        $(v.push($x);)*
        v
    }};
}
