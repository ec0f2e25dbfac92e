//! Values whose creation, destruction and ownership are counted.
use simrt::{rt, violation};

pub struct Injected;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Life {
    None,
    Live,
    Returned,
    Dropped,
}
pub static mut LIVES: Vec<Life> = Vec::new();
pub static mut CREATED: usize = 0;
pub static mut DROPPED: usize = 0;
/// destructor may panic (fault injection)
pub static mut DROP_FAULTS: bool = false;

pub fn create() -> u32 {
    rt(|| unsafe {
        LIVES.push(Life::Live);
        CREATED += 1;
        (LIVES.len() - 1) as u32
    })
}
pub fn destroyed(id: u32, what: &str) {
    rt(|| unsafe {
        match LIVES.get(id as usize) {
            Some(Life::Live) => {
                LIVES[id as usize] = Life::Dropped;
                DROPPED += 1;
            }
            Some(_) => violation("double-drop", &format!("value {} destroyed a second time{}", id, what)),
            None => violation("garbage-value", &format!("a destructor ran on garbage (id {}){}", id, what)),
        }
    })
}
pub fn alive(id: u32) -> bool {
    unsafe { matches!(LIVES.get(id as usize), Some(Life::Live)) }
}
pub fn live_count() -> usize {
    unsafe { LIVES.iter().filter(|l| **l == Life::Live).count() }
}

/// A heap-owning value with a destructor; `PAD` words make its size recognisable to the allocator.
pub struct Val {
    pub id: u32,
    pub data: Box<u64>,
    pub pad: [u64; 29],
}
pub const VAL_SIZE: usize = 248;
impl Val {
    pub fn new(tag: u64) -> Val {
        let id = create();
        Val { id, data: Box::new(tag), pad: [tag; 29] }
    }
    /// the tag; any corruption is a violation
    pub fn tag(&self) -> u64 {
        let t = *self.data;
        if self.pad[0] != t || self.pad[28] != t || !alive(self.id) {
            rt(|| violation("corrupt-value", "a returned value is corrupt or was already destroyed"));
        }
        t
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        let t = *self.data;
        if self.pad[0] != t {
            rt(|| violation("corrupt-value", "a value being destroyed is corrupt"));
        }
        destroyed(self.id, "");
    }
}
