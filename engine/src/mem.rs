//! Byte-addressed object memory with copy-on-write sharing between paths.
use crate::expr::Id;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
    Const,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// expression of each byte (0 = concrete); empty when fully concrete
    pub sym: Vec<Id>,
    pub base: u64,
    pub kind: Kind,
}

const CH: usize = 64;
type Chunk = Rc<[Option<Rc<Obj>>; CH]>;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Chunk>,
    pub next: u32,
    empty: Chunk,
    pub live: u32,
}

impl Mem {
    pub fn new() -> Self {
        let empty: Chunk = Rc::new(std::array::from_fn(|_| None));
        Mem { chunks: vec![], next: 0, empty, live: 0 }
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Obj> {
        let c = self.chunks.get(id as usize / CH)?;
        c[id as usize % CH].as_deref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        if c[id as usize % CH].is_none() {
            return None;
        }
        let a = Rc::make_mut(c);
        a[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn put(&mut self, id: u32, o: Option<Rc<Obj>>) {
        let k = id as usize / CH;
        while self.chunks.len() <= k {
            self.chunks.push(self.empty.clone())
        }
        let a = Rc::make_mut(&mut self.chunks[k]);
        a[id as usize % CH] = o;
        // share fully dead chunks
        if a.iter().all(|x| x.is_none()) {
            self.chunks[k] = self.empty.clone();
        }
    }
    pub fn alloc(&mut self, size: u64, align: u64, kind: Kind, fill: u8) -> u64 {
        let id = self.next;
        self.next += 1;
        let base = crate::ll::obj_base(id, align);
        let o = Obj { data: vec![fill; size as usize], sym: vec![], base, kind };
        let k = id as usize / CH;
        while self.chunks.len() <= k {
            self.chunks.push(self.empty.clone())
        }
        Rc::make_mut(&mut self.chunks[k])[id as usize % CH] = Some(Rc::new(o));
        if kind == Kind::Heap {
            self.live += 1
        }
        base
    }
    pub fn free(&mut self, id: u32) {
        let k = id as usize / CH;
        let a = Rc::make_mut(&mut self.chunks[k]);
        if let Some(o) = a[id as usize % CH].take() {
            if o.kind == Kind::Heap {
                self.live -= 1
            }
        }
        if (id + 1) as usize % CH == 0 || (id as usize % 8 == 0) {
            if a.iter().all(|x| x.is_none()) && (k + 1) * CH <= self.next as usize {
                self.chunks[k] = self.empty.clone();
            }
        }
    }
}

impl Obj {
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        !self.sym.is_empty() && self.sym[off..off + n].iter().any(|&x| x != 0)
    }
}
