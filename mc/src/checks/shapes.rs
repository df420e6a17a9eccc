//! Every ordered forest with a given number of labelled nodes.

use crate::model::*;
use crate::real::Spec;

/// Preorder list of (depth, label).
pub type Forest = Vec<(u16, u8)>;

/// All forests of exactly `n` nodes; `holds[label]`: such a node can have children.
pub fn forests(n: usize, holds: &[bool]) -> Vec<Forest> {
    let mut all = vec![];
    let mut cur: Forest = vec![];
    fn go(n: usize, holds: &[bool], cur: &mut Forest, all: &mut Vec<Forest>) {
        if cur.len() == n {
            all.push(cur.clone());
            return;
        }
        let deepest = match cur.last() {
            None => 0,
            Some((d, l)) => {
                if holds[*l as usize] {
                    d + 1
                } else {
                    *d
                }
            }
        };
        for d in 0..=deepest {
            for l in 0..holds.len() {
                cur.push((d, l as u8));
                go(n, holds, cur, all);
                cur.pop();
            }
        }
    }
    go(n, holds, &mut cur, &mut all);
    all
}

/// Add the nodes of a forest below `root` (a node already in the list); `make` gives the node for
/// a label and position. `len`: how many ids the list has so far.
pub fn place(
    f: &Forest,
    root: Id,
    spec: &mut Vec<Spec>,
    len: &mut usize,
    ops: &mut Vec<Op>,
    make: &dyn Fn(u8, usize) -> Spec,
) -> Vec<Id> {
    let mut above: Vec<Id> = vec![root];
    let mut ids = vec![];
    for (i, (d, l)) in f.iter().enumerate() {
        let s = make(*l, i);
        if matches!(s, Spec::AtWith(..)) {
            *len += 1;
        }
        spec.push(s);
        let id = *len;
        *len += 1;
        above.truncate(*d as usize + 1);
        ops.push(Op::Append(above[*d as usize], id));
        above.push(id);
        ids.push(id);
    }
    ids
}

pub fn show(f: &Forest) -> String {
    let mut s = String::new();
    for (d, l) in f {
        s.push_str(&format!("{}{} ", "-".repeat(*d as usize), l));
    }
    s.trim_end().to_string()
}
