// Included into cathlamet::storage as module `verif` (see the hook there).
use super::*;

//# part helpers
pub fn align_u8(v: u8, a: u8) -> u8 { super::utils::align_u8(v, a) }
pub fn align_u16(v: u16, a: u16) -> u16 { super::utils::align_u16(v, a) }
pub fn align_u32(v: u32, a: u32) -> u32 { super::utils::align_u32(v, a) }
pub fn align_u64(v: u64, a: u64) -> u64 { super::utils::align_u64(v, a) }
pub fn align_u128(v: u128, a: u128) -> u128 { super::utils::align_u128(v, a) }
pub fn align_usize(v: usize, a: usize) -> usize { super::utils::align_usize(v, a) }
pub fn calc_file_blocks(f: u64, b: u64) -> u64 { super::utils::calc_file_blocks(f, b) }

//# part locations
pub fn location(index: u8, offset: u64) -> (u8, u64, Loc) {
    let l = Location::new(VolumeIndex(index), offset);
    (l.index().0, l.offset(), Loc(l))
}
#[derive(Copy, Clone)]
pub struct Loc(Location);
impl Loc {
    pub fn cmp(&self, o: &Loc) -> std::cmp::Ordering { self.0.cmp(&o.0) }
    pub fn partial_cmp(&self, o: &Loc) -> Option<std::cmp::Ordering> { self.0.partial_cmp(&o.0) }
    pub fn eq(&self, o: &Loc) -> bool { self.0 == o.0 }
}
pub fn loc(index: u8, offset: u64) -> Loc { Loc(Location::new(VolumeIndex(index), offset)) }

pub fn default_block_size() -> usize { DEFAULT_VOLUME_BLOCK_SIZE }


//# part queues
/// Several queues over one pool of buffers.
pub struct Queues { buffers: Vec<Buffer>, heads: Vec<BufferListHead> }
pub const NIL: u32 = NIL_BUFFER_INDEX;
impl Queues {
    pub fn new(buffers: usize, queues: usize) -> Queues {
        Queues {
            buffers: (0..buffers).map(|_| Buffer::default()).collect(),
            heads: (0..queues).map(|_| BufferListHead::default()).collect(),
        }
    }
    pub fn push_front(&mut self, q: usize, b: u32) { self.heads[q].list_push_front(&mut self.buffers, b) }
    pub fn push_back(&mut self, q: usize, b: u32) { self.heads[q].list_push_back(&mut self.buffers, b) }
    pub fn remove(&mut self, q: usize, b: u32) { self.heads[q].list_remove(&mut self.buffers, b) }
    pub fn head(&self, q: usize) -> u32 { self.heads[q].head }
    pub fn tail(&self, q: usize) -> u32 { self.heads[q].tail }
    pub fn next(&self, b: u32) -> u32 { self.buffers[b as usize].link.next }
    pub fn prev(&self, b: u32) -> u32 { self.buffers[b as usize].link.prev }
}

//# part pool
/// Polls a future once; the pool's futures are ready unless they have to wait for somebody.
fn poll_once<F: std::future::Future + ?Sized>(f: std::pin::Pin<&mut F>) -> Option<F::Output> {
    use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
    fn clone(_: *const ()) -> RawWaker { RawWaker::new(std::ptr::null(), &VT) }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let mut c = Context::from_waker(&w);
    match f.poll(&mut c) { Poll::Ready(v) => Some(v), Poll::Pending => None }
}
fn now<F: std::future::Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let r = poll_once(f.as_mut());
    r
}

pub struct Pool(BufferPool);
pub struct Waiting<'a>(std::pin::Pin<Box<dyn std::future::Future<Output = Handle<'a>> + 'a>>);
impl<'a> Waiting<'a> {
    /// None: still has to wait.
    pub fn poll(&mut self) -> Option<Handle<'a>> { poll_once(self.0.as_mut()) }
}
pub enum Handle<'a> { Ro(ReadOnlyBufferHandle<'a>), Rw(ReadWriteBufferHandle<'a>) }
impl Pool {
    pub fn new(size: usize, n: usize) -> Pool { Pool(BufferPool::new(size, n).unwrap()) }
    pub fn total_size(&self) -> usize { self.0.total_size() }
    /// kind: 0 initialize, 1 read and write, 2 read only
    pub fn open<'a>(&'a self, kind: u32, l: Loc) -> Waiting<'a> {
        Waiting(match kind {
            0 => Box::pin(async move { Handle::Rw(self.0.access_initialize(l.0).await) }),
            1 => Box::pin(async move { Handle::Rw(self.0.access_read_write(l.0).await) }),
            _ => Box::pin(async move { Handle::Ro(self.0.access_read_only(l.0).await) }),
        })
    }
}
impl<'a> Handle<'a> {
    pub fn data(&self) -> &'a [u8] { match self { Handle::Ro(h) => h.buffer_ref(), Handle::Rw(h) => h.buffer_ref() } }
    pub fn data_mut(&mut self) -> &'a mut [u8] { match self { Handle::Ro(_) => panic!("read only"), Handle::Rw(h) => h.buffer_mut() } }
    /// true: released; false: would have to wait.
    pub fn release(&mut self) -> bool {
        match self { Handle::Ro(h) => now(h.release()).is_some(), Handle::Rw(h) => now(h.release()).is_some() }
    }
}
//# part inside
impl Pool {
    /// What the process that writes buffers back would do once the content of a location in use
    /// is stored: the buffer is clean from then on.
    pub fn stored(&self, l: Loc) {
        let mut g = now(self.0.mapping.lock()).unwrap();
        let i = *g.mapped_locations.get(&l.0).unwrap();
        assert!(g.buffers[i as usize].access.is_some());
        g.buffers[i as usize].dirty = false;
    }
    /// The buffers of a queue, front to back: 0 in use, 1 dirty, 2 available.
    pub fn queue(&self, q: usize) -> Vec<u32> {
        let g = now(self.0.mapping.lock()).unwrap();
        let h = match q { 0 => &g.in_use_buffers, 1 => &g.dirty_buffers, _ => &g.available_buffers };
        let mut v = Vec::new();
        let mut i = h.head;
        while i != NIL_BUFFER_INDEX && v.len() <= g.buffers.len() { v.push(i); i = g.buffers[i as usize].link.next }
        let mut w = Vec::new();
        let mut i = h.tail;
        while i != NIL_BUFFER_INDEX && w.len() <= g.buffers.len() { w.push(i); i = g.buffers[i as usize].link.prev }
        w.reverse();
        if v != w { v.clear(); v.push(NIL_BUFFER_INDEX) }
        v
    }
}
//# part volumes
pub struct Volumes(VolumeManager);
impl Volumes {
    pub fn new(pool: &Pool) -> Volumes { Volumes(VolumeManager::new(&pool.0)) }
    pub fn next(&mut self) -> Option<u8> { self.0.next_volume().ok().map(|v| v.0) }
}
