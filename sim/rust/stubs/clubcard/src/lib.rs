//! A clubcard as its users see it. Each block has an approximate filter,
//! which is right about the included items and wrong about some others, and
//! an exact filter, which is right about what was inserted (whatever passes
//! the approximate filter) and says anything about everything else.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::marker::PhantomData;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Block {
    pub approx: BTreeSet<String>,
    pub exact: BTreeMap<String, bool>,
}
/// FNV-1a: the arbitrary answers.
pub fn coin(which: &str, block: &str, item: &str) -> bool {
    let h = which.bytes().chain(block.bytes()).chain(item.bytes()).fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    h >> 40 & 1 == 1
}
impl Block {
    pub fn passes(&self, block: &str, item: &str) -> bool {
        self.approx.contains(item) || (!self.approx.is_empty() && coin("approx", block, item))
    }
    pub fn has(&self, block: &str, item: &str) -> bool {
        self.passes(block, item) && *self.exact.get(item).unwrap_or(&coin("exact", block, item))
    }
}
pub trait AsQuery<const W: usize> {
    fn block(&self) -> &[u8];
    fn discriminant(&self) -> &[u8];
}
pub trait Queryable<const W: usize>: AsQuery<W> {
    type UniverseMetadata;
    type PartitionMetadata;
}
#[derive(Clone, Debug)]
pub struct Clubcard<const W: usize, U, P> {
    pub universe: U,
    pub partition: P,
    pub blocks: BTreeMap<String, Block>,
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Membership {
    Member,
    Nonmember,
    NotInUniverse,
    NoData,
}
impl<const W: usize, U, P> Clubcard<W, U, P> {
    pub fn unchecked_contains<Q: AsQuery<W>>(&self, q: &Q) -> bool {
        let (b, i) = (hex::encode(q.block()), hex::encode(q.discriminant()));
        self.blocks.get(&b).map(|x| x.has(&b, &i)).unwrap_or(false)
    }
}
#[cfg(feature = "builder")]
pub mod builder {
    use super::*;
    pub trait Filterable<const W: usize>: AsQuery<W> {
        fn included(&self) -> bool;
    }
    pub struct Builder<const W: usize, T> {
        block: String,
        exact: bool,
        approx: Block,
        items: BTreeMap<String, bool>,
        universe: usize,
        t: PhantomData<fn(T)>,
    }
    pub type RibbonBuilder<const W: usize, T> = Builder<W, T>;
    impl<const W: usize, T: Filterable<W>> Builder<W, T> {
        pub fn insert(&mut self, item: T) {
            assert_eq!(hex::encode(item.block()), self.block, "item of another block");
            let k = hex::encode(item.discriminant());
            if self.exact {
                if self.approx.passes(&self.block, &k) {
                    if let Some(v) = self.items.insert(k, item.included()) {
                        assert_eq!(v, item.included(), "an item inserted both ways");
                    }
                }
            } else {
                assert!(item.included(), "a non-member in an approximate filter");
                self.items.insert(k, true);
            }
        }
        pub fn set_universe_size(&mut self, n: usize) {
            self.universe = n;
        }
    }
    pub struct ApproximateRibbon<const W: usize, T>(Builder<W, T>);
    pub struct ExactRibbon<const W: usize, T>(Builder<W, T>);
    impl<const W: usize, T> From<Builder<W, T>> for ApproximateRibbon<W, T> {
        fn from(b: Builder<W, T>) -> Self {
            assert!(!b.exact);
            ApproximateRibbon(b)
        }
    }
    impl<const W: usize, T> From<Builder<W, T>> for ExactRibbon<W, T> {
        fn from(b: Builder<W, T>) -> Self {
            assert!(b.exact);
            ExactRibbon(b)
        }
    }
    pub struct ClubcardBuilder<const W: usize, T> {
        blocks: BTreeMap<String, Block>,
        approx_done: bool,
        t: PhantomData<fn(T)>,
    }
    impl<const W: usize, T: Filterable<W>> Default for ClubcardBuilder<W, T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<const W: usize, T: Filterable<W>> ClubcardBuilder<W, T> {
        pub fn new() -> Self {
            ClubcardBuilder { blocks: Default::default(), approx_done: false, t: PhantomData }
        }
        pub fn new_approx_builder(&self, block: &[u8]) -> Builder<W, T> {
            Builder { block: hex::encode(block), exact: false, approx: Block::default(), items: Default::default(), universe: 0, t: PhantomData }
        }
        pub fn new_exact_builder(&self, block: &[u8]) -> Builder<W, T> {
            let b = hex::encode(block);
            let approx = self.blocks.get(&b).cloned().unwrap_or_default();
            Builder { block: b, exact: true, approx, items: Default::default(), universe: 0, t: PhantomData }
        }
        pub fn collect_approx_ribbons(&mut self, v: Vec<ApproximateRibbon<W, T>>) {
            for r in v {
                self.blocks.entry(r.0.block).or_default().approx.extend(r.0.items.into_keys());
            }
            self.approx_done = true;
        }
        pub fn collect_exact_ribbons(&mut self, v: Vec<ExactRibbon<W, T>>) {
            assert!(self.approx_done, "exact ribbons before approximate ones");
            for r in v {
                self.blocks.entry(r.0.block).or_default().exact.extend(r.0.items);
            }
        }
        pub fn build<Q: Queryable<W>>(self, universe: Q::UniverseMetadata, partition: Q::PartitionMetadata) -> Clubcard<W, Q::UniverseMetadata, Q::PartitionMetadata> {
            Clubcard { universe, partition, blocks: self.blocks }
        }
    }
}
