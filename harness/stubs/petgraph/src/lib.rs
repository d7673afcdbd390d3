//! The part of the crate that lib/hir uses.
pub struct Graph<N, E> {
    nodes: Vec<N>,
    edges: Vec<(usize, usize, E)>,
}

pub type DiGraph<N, E> = Graph<N, E>;

pub mod graph {
    pub use crate::{DiGraph, Graph};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct NodeIndex(pub(crate) usize);
    impl NodeIndex {
        pub fn index(self) -> usize {
            self.0
        }
    }
}

use graph::NodeIndex;

impl<N, E> Graph<N, E> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self { nodes: vec![], edges: vec![] }
    }
    pub fn add_node(&mut self, n: N) -> NodeIndex {
        self.nodes.push(n);
        NodeIndex(self.nodes.len() - 1)
    }
    pub fn add_edge(&mut self, a: NodeIndex, b: NodeIndex, e: E) {
        self.edges.push((a.0, b.0, e));
    }
    pub fn node_count(&self) -> usize {
        self.nodes.len()
    }
}

pub mod algo {
    use super::*;

    #[derive(Debug)]
    pub struct Cycle(NodeIndex);

    impl Cycle {
        pub fn node_id(&self) -> NodeIndex {
            self.0
        }
    }

    pub fn toposort<N, E>(g: &Graph<N, E>, _: Option<()>) -> Result<Vec<NodeIndex>, Cycle> {
        let mut done = vec![false; g.nodes.len()];
        let mut order = vec![];
        while order.len() < g.nodes.len() {
            let ready = (0..g.nodes.len())
                .find(|&n| !done[n] && g.edges.iter().all(|&(a, b, _)| b != n || done[a]));
            match ready {
                Some(n) => {
                    done[n] = true;
                    order.push(NodeIndex(n));
                }
                None => return Err(Cycle(NodeIndex(done.iter().position(|d| !d).unwrap()))),
            }
        }
        Ok(order)
    }

    pub fn is_cyclic_directed<N, E>(g: &Graph<N, E>) -> bool {
        toposort(g, None).is_err()
    }
}
