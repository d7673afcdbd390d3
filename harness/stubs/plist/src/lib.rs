//! A persistent map as the crate's: inserting gives a new map and leaves the old one as it is.
use std::{borrow::Borrow, collections::HashMap, hash::Hash, rc::Rc};

struct Node<K, V>(K, V, Option<Rc<Node<K, V>>>);

pub struct FlailMap<K, V> {
    base: Rc<HashMap<K, V>>,
    list: Option<Rc<Node<K, V>>>,
}

impl<K, V> Clone for FlailMap<K, V> {
    fn clone(&self) -> Self {
        Self { base: self.base.clone(), list: self.list.clone() }
    }
}

impl<K: Eq + Hash, V> FlailMap<K, V> {
    pub fn new(map: HashMap<K, V>) -> Self {
        Self { base: Rc::new(map), list: None }
    }
    pub fn insert(&self, key: K, value: V) -> Self {
        Self { base: self.base.clone(), list: Some(Rc::new(Node(key, value, self.list.clone()))) }
    }
    pub fn insert_iter(&self, entries: impl IntoIterator<Item = (K, V)>) -> Self {
        entries.into_iter().fold(self.clone(), |m, (k, v)| m.insert(k, v))
    }
    pub fn get<Q: Eq + Hash + ?Sized>(&self, key: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        let mut n = self.list.as_deref();
        while let Some(Node(k, v, next)) = n {
            if k.borrow() == key {
                return Some(v);
            }
            n = next.as_deref();
        }
        self.base.get(key)
    }
}
