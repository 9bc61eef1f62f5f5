//! Signatures of the crate `integeriser` (tud-fop/rust-integeriser), which is not available offline.
//! Used only so that rustc can resolve names and types of the modules of /repo that use it.
//! Nothing in this file is ever run.
use std::collections::HashMap;
use std::hash::Hash;

pub trait Integeriser {
    type Item;
    fn integerise(&mut self, item: Self::Item) -> usize;
    fn find_value(&self, key: usize) -> Option<&Self::Item>;
    fn find_key(&self, value: &Self::Item) -> Option<usize>;
    fn size(&self) -> usize;
}

#[derive(Debug, Clone, Default)]
pub struct HashIntegeriser<A: Eq + Hash> {
    map: Vec<A>,
    rmap: HashMap<A, usize>,
}

impl<A: Eq + Hash> HashIntegeriser<A> {
    pub fn new() -> Self {
        HashIntegeriser { map: Vec::new(), rmap: HashMap::new() }
    }
}

impl<A: Eq + Hash + Clone> Integeriser for HashIntegeriser<A> {
    type Item = A;
    fn integerise(&mut self, item: A) -> usize {
        if let Some(k) = self.rmap.get(&item) {
            return *k;
        }
        let k = self.map.len();
        self.map.push(item.clone());
        self.rmap.insert(item, k);
        k
    }
    fn find_value(&self, key: usize) -> Option<&A> {
        self.map.get(key)
    }
    fn find_key(&self, value: &A) -> Option<usize> {
        self.rmap.get(value).cloned()
    }
    fn size(&self) -> usize {
        self.map.len()
    }
}
