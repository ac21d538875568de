// Replaces rowan's interner in the symbolic build: every node and token is built afresh. The real
// cache only decides whether two equal immutable subtrees share memory; hashing symbolic text
// would make every lookup a symbolic probe. Native replays use the real one.
use crate::{GreenNode, GreenToken, SyntaxKind};

use super::element::GreenElement;

#[derive(Default, Debug)]
pub struct NodeCache {}

impl NodeCache {
    pub(crate) fn node(
        &mut self,
        kind: SyntaxKind,
        children: &mut Vec<(u64, GreenElement)>,
        first_child: usize,
    ) -> (u64, GreenNode) {
        (0, GreenNode::new(kind, children.drain(first_child..).map(|(_, it)| it)))
    }

    pub(crate) fn token(&mut self, kind: SyntaxKind, text: &str) -> (u64, GreenToken) {
        (0, GreenToken::new(kind, text))
    }
}
