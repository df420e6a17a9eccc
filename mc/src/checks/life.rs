//! P26: what keeps a node alive.

use super::attrs::*;
use super::robust::{answers, named};
use super::tree::*;
use super::worlds::*;
use crate::alloc;
use crate::ctx::*;
use crate::explore::*;
use crate::model::*;
use crate::real::*;
use std::collections::HashSet;
use xml_dom::level2::ext::Namespaced;
use xml_dom::level2::{get_implementation, Attribute, Document, Element, Node, NodeType, RefNode};

type R = std::result::Result<(), String>;

/// Which handles the program keeps; the others are given up in ascending or descending order.
#[derive(Clone, Copy)]
enum Keep {
    None,
    Only(Id),
    AllBut(Id),
    Set(u64),
}
impl Keep {
    fn has(self, i: Id) -> bool {
        match self {
            Keep::None => false,
            Keep::Only(k) => k == i,
            Keep::AllBut(k) => k != i,
            Keep::Set(s) => i < 64 && s >> i & 1 == 1,
        }
    }
}
impl std::fmt::Display for Keep {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Keep::None => write!(f, "none"),
            Keep::Only(i) => write!(f, "#{}", i),
            Keep::AllBut(i) => write!(f, "all-but-#{}", i),
            Keep::Set(s) => write!(f, "set-{:x}", s),
        }
    }
}

/// Everything held nodes keep: their children, attributes and document types.
fn kept(m: &Model, keep: Keep) -> Vec<bool> {
    let mut alive = vec![false; m.nodes.len()];
    let mut todo: Vec<Id> = m.live().filter(|i| keep.has(*i)).collect();
    while let Some(i) = todo.pop() {
        if !std::mem::replace(&mut alive[i], true) {
            let n = m.n(i);
            todo.extend(n.kids.iter().chain(&n.attrs).copied());
            todo.extend(n.doctype);
        }
    }
    alive
}

/// The model after everything else is gone.
fn remaining(m: &Model, alive: &[bool]) -> Model {
    let mut r = m.clone();
    for i in m.live() {
        if !alive[i] {
            r.nodes[i] = MNode::dead();
            r.nodes[i].dropped = true;
        }
    }
    for n in r.nodes.iter_mut() {
        if n.parent.is_some_and(|p| !alive[p]) {
            n.parent = None;
        }
        if n.owner.is_some_and(|o| !alive[o]) {
            n.owner = None;
        }
    }
    r
}

fn ask(n: &RefNode) {
    let _ = answers(n, 1, &|_| String::new());
}

/// Single questions, so that each can be the last one asked.
const QUESTIONS: [(&str, fn(&RefNode)); 25] = [
    ("parent", |n| drop(n.parent_node())),
    ("children", |n| drop(n.child_nodes())),
    ("first child", |n| drop(n.first_child())),
    ("last child", |n| drop(n.last_child())),
    ("previous sibling", |n| drop(n.previous_sibling())),
    ("next sibling", |n| drop(n.next_sibling())),
    ("owner document", |n| drop(n.owner_document())),
    ("has children", |n| drop(n.has_child_nodes())),
    ("attributes", |n| drop((n.attributes(), n.has_attributes()))),
    ("written", |n| drop(n.to_string())),
    ("debug", |n| drop(format!("{:?}", n))),
    ("clone", |n| drop(n.clone_node(false))),
    ("deep clone", |n| drop(n.clone_node(true))),
    ("attribute", |n| drop((n.get_attribute("k"), n.get_attribute_node("k"), n.has_attribute("k")))),
    ("attribute by namespace", |n| drop((n.get_attribute_ns("u", "k"), n.get_attribute_node_ns("u", "k")))),
    ("elements below", |n| drop(Element::get_elements_by_tag_name(n, "*"))),
    ("elements below by namespace", |n| drop(Element::get_elements_by_tag_name_ns(n, "*", "*"))),
    ("elements", |n| drop(Document::get_elements_by_tag_name(n, "*"))),
    ("elements by namespace", |n| drop(Document::get_elements_by_tag_name_ns(n, "*", "*"))),
    ("element by id", |n| drop((n.get_element_by_id("x"), n.get_element_by_id("v"), n.get_element_by_id("w")))),
    ("document element", |n| drop(n.document_element())),
    ("document type", |n| drop(n.doc_type())),
    ("value and owner", |n| drop((n.value(), n.owner_element()))),
    ("namespace", |n| drop((n.resolve_namespace(Some("p")), n.resolve_namespace(None)))),
    ("prefix", |n| drop((n.resolve_prefix("u"), n.get_prefix("u")))),
];
/// May this be asked of this node at all?
fn fits(q: usize, k: K) -> bool {
    match QUESTIONS[q].0 {
        "elements" | "elements by namespace" | "element by id" | "document element" | "document type" => k == K::Document,
        "value and owner" => k == K::Attribute,
        "attribute" | "attribute by namespace" | "elements below" | "elements below by namespace" | "namespace" | "prefix" => {
            k == K::Element
        }
        _ => true,
    }
}

/// What is asked before the release.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Asking {
    Nothing,
    /// Everything, of every node, after every operation
    Everything,
    /// One question of one node, just before
    Last(Id, usize),
}

/// Follow the path, let go of all but some nodes, and see what is left.
fn release(w: &World, path: &[Op], keep: Keep, asking: Asking, down: bool) -> R {
    let mut r = Real::default();
    for s in &w.spec {
        r.make(*s)?;
    }
    let mut m = Model::default();
    for s in &w.spec {
        spec_model(&mut m, *s);
    }
    let mut gone_weak = vec![];
    for op in w.init.iter().chain(path) {
        let out = m.apply(*op);
        real_step(&mut r, &m, *op, &out)?;
        let gone = m.garbage();
        if !gone.is_empty() {
            for g in &gone {
                if let Some(n) = &r.nodes[*g] {
                    gone_weak.push(n.clone().downgrade());
                }
            }
            m.forget(&gone);
            r.forget(&gone, &m);
        }
        if asking == Asking::Everything {
            r.nodes.iter().flatten().for_each(ask);
        }
    }
    if let Asking::Last(n, q) = asking {
        QUESTIONS[q].1(r.g(n));
    }
    if gone_weak.iter().any(|n| n.clone().upgrade().is_some()) {
        return Err("a text node that was replaced and that nothing holds is still there".into());
    }
    let weak: Vec<_> = r.nodes.iter().map(|n| n.as_ref().map(|n| n.clone().downgrade())).collect();
    let ids: Vec<Id> = if down { (0..r.nodes.len()).rev().collect() } else { (0..r.nodes.len()).collect() };
    for i in &ids {
        if !keep.has(*i) {
            r.nodes[*i] = None;
        }
    }
    let alive = kept(&m, keep);
    for i in m.live() {
        let now = weak[i].as_ref().and_then(|n| n.clone().upgrade());
        if now.is_some() != alive[i] {
            return Err(format!(
                "#{} ({:?} {}) is {}, expected {}",
                i,
                m.n(i).k,
                m.n(i).name,
                if now.is_some() { "still there" } else { "gone" },
                if alive[i] { "kept by what is held" } else { "released" }
            ));
        }
    }
    if !matches!(keep, Keep::None) {
        let left = remaining(&m, &alive);
        let held = r.clone();
        for i in left.live() {
            r.nodes[i] = weak[i].as_ref().and_then(|n| n.clone().upgrade());
        }
        r.compare(&left, ALL)?;
        if asking == Asking::Everything {
            r.nodes.iter().flatten().for_each(ask);
        }
        drop(held);
        r.nodes.clear();
        if let Some(i) = weak.iter().position(|n| n.as_ref().is_some_and(|n| n.clone().upgrade().is_some())) {
            return Err(format!("#{} is still there after the last handle is gone", i));
        }
    }
    Ok(())
}

/// No memory stays in use once everything is given up. Only growth that comes back every time
/// counts: what is set up once, for all later calls, stays.
fn frees(w: &World, path: &[Op], asking: Asking) -> R {
    let mut grown = 0;
    for _ in 0..8 {
        let before = alloc::in_use();
        release(w, path, Keep::None, asking, false)?;
        grown = alloc::in_use() - before;
        if grown <= 0 {
            return Ok(());
        }
    }
    Err(format!("{} bytes stay in use every time", grown))
}

/// What the last operation of a history comes to.
#[derive(Clone, Copy, PartialEq)]
enum How {
    /// A state not seen before
    New,
    Known,
    Refused,
}

fn path_of(path: &[Op]) -> String {
    path.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join(" ; ")
}

/// Every history of the model: the shortest to every state, and from there each operation.
fn lives(ctx: &Ctx, w: &World, depth: usize, subsets: usize) {
    let first = w.model();
    let mut seen: HashSet<u128> = HashSet::from([first.hash128()]);
    let mut frontier: Vec<(Model, Vec<Op>)> = vec![(first.clone(), vec![])];
    let mut paths: Vec<(Vec<Op>, How)> = vec![(vec![], How::New)];
    let mut states = 1;
    for _ in 0..depth {
        if frontier.is_empty() || ctx.stop() {
            break;
        }
        let mut next = vec![];
        for (m, path) in &frontier {
            for op in (w.ops)(m) {
                if !op.possible(m) || matches!(op, Op::Split(..) | Op::Clone(..)) && m.nodes.len() >= w.max_nodes {
                    continue;
                }
                let mut after = m.clone();
                let out = after.apply(op);
                if matches!(out, Out::Unclaimed) {
                    continue;
                }
                let mut p = path.clone();
                p.push(op);
                let gone = after.garbage();
                after.forget(&gone);
                let new = seen.insert(after.hash128());
                let done = matches!(out, Out::Ok(..));
                paths.push((p.clone(), if new { How::New } else if done { How::Known } else { How::Refused }));
                if new {
                    states += 1;
                    next.push((after, p));
                }
            }
        }
        frontier = next;
    }
    let closed = frontier.is_empty();
    let similar = w.name.starts_with("odd-names") && w.name != "odd-names0";
    let note = |text: String| if !similar { ctx.note(text) };
    note(format!(
        "{}: {} states{}, {} histories, then keeping none, one, or all but one of the nodes{}{}",
        w.name,
        states,
        if closed { ", all there are" } else { "" },
        paths.len(),
        if states <= ctx.pick(500, 5_000) { ", and none after each single question" } else { "" },
        if subsets > 0 { format!("; with up to {} nodes every subset of them", subsets) } else { String::new() }
    ));
    let paths = &paths;
    let asked_last = states <= ctx.pick(500, 5_000);
    ctx.par(paths.len() as u64, |th, i| {
        let (path, how) = &paths[i as usize];
        let text = path_of(path);
        let m = path.iter().fold(w.model(), |mut m, op| {
            model_step(&mut m, *op);
            m
        });
        let live: Vec<Id> = m.live().collect();
        let named = path.last().map_or(vec![], |op| named(*op));
        let mut keeps = vec![(Keep::None, Asking::Nothing)];
        for l in &live {
            if *how != How::Refused || named.contains(l) {
                keeps.push((Keep::Only(*l), Asking::Nothing));
            }
            if *how != How::Refused {
                keeps.push((Keep::AllBut(*l), Asking::Nothing));
            }
        }
        let asked = *how == How::New && live.len() <= 10;
        if asked {
            keeps.push((Keep::None, Asking::Everything));
            keeps.extend(live.iter().map(|l| (Keep::Only(*l), Asking::Everything)));
        }
        if *how == How::New && (asked_last || path.is_empty()) {
            for (q, l) in (0..QUESTIONS.len()).flat_map(|q| live.iter().map(move |l| (q, *l))) {
                if fits(q, m.n(l).k) {
                    keeps.push((Keep::None, Asking::Last(l, q)));
                }
            }
        }
        if *how == How::New && live.len() <= subsets {
            for bits in 1..1u64 << live.len() {
                if bits.count_ones() > 1 && (bits.count_ones() as usize) < live.len() - 1 {
                    let set = live.iter().enumerate().filter(|(j, _)| bits >> j & 1 == 1).map(|(_, l)| 1 << l).sum();
                    keeps.push((Keep::Set(set), Asking::Nothing));
                }
            }
        }
        for (keep, asking) in keeps {
            case(th, format_args!("world={} path=[{}] keep={} asking={:?}", w.name, text, keep, asking), |th| {
                th.transitions += path.len() as u64 + 1;
                release(w, path, keep, asking, i % 2 == 1)
            });
        }
        let asking = if asked { Asking::Everything } else { Asking::Nothing };
        case(th, format_args!("world={} path=[{}] memory", w.name, text), |_| frees(w, path, asking));
    });
}

pub fn p26(ctx: &Ctx) {
    let t = ctx.thorough();
    let all = usize::MAX;
    lives(ctx, &elements(3).drops(), all, 6);
    lives(ctx, &mixed(2, 2), all, 6);
    lives(ctx, &containers(), ctx.pick(2, 4), 7);
    lives(ctx, &attribute_children().drops(), ctx.pick(4, 5), ctx.pick(0, 7));
    lives(ctx, &text_edits(), ctx.pick(3, 4), ctx.pick(0, 8));
    lives(ctx, &two_documents_small(), ctx.pick(3, all), 6);
    lives(ctx, &foreign_attributes(), ctx.pick(3, 4), 6);
    lives(ctx, &clones_of_two(), ctx.pick(1, 2), 9);
    lives(ctx, &all_types(), ctx.pick(1, 2), 0);
    lives(ctx, &all_types_two(), 1, 0);
    lives(ctx, &moved_owners(), 3, ctx.pick(0, 6));
    lives(ctx, &id_nodes(0), ctx.pick(3, 4), 6);
    lives(ctx, &id_clones(), ctx.pick(2, 3), 6);
    lives(ctx, &ns_nodes(OPT_NS), ctx.pick(2, 4), 6);
    lives(ctx, &ns_clones(), ctx.pick(2, 3), 6);
    lives(ctx, &document_level(), ctx.pick(3, all), 0);
    for w in odd_worlds() {
        lives(ctx, &w, 1, 0);
    }
    if t {
        lives(ctx, &mixed(3, 1), all, 6);
        lives(ctx, &elements(4), all, 6);
    }
    for n in 0..ctx.pick(12, 20) {
        lives(ctx, &wide(n), 1, 0);
        lives(ctx, &chain(n), 1, 0);
    }
    for n in 0..ctx.pick(12, 20) {
        lives(ctx, &wide_document(n, Some(n / 2)), 1, 0);
    }
    for n in ctx.pick(&[40usize, 70, 140][..], &[40, 70, 140, 270]) {
        lives(ctx, &broad(*n), 0, 0);
        lives(ctx, &deep(*n), 0, 0);
    }
    very_deep(ctx);
}

/// However deep the nodes given up are nested, releasing them takes no more stack.
fn very_deep(ctx: &Ctx) {
    let depths = ctx.pick(&[1_000usize, 7_000][..], &[1_000, 3_000, 7_000, 12_000, 20_000]);
    ctx.note(format!(
        "elements nested {:?} deep, in one another, in entity references, or in entity references in attributes: the document, the \
         outermost, one in the middle, the innermost kept, on a stack of 256 kB",
        depths
    ));
    ctx.par(depths.len() as u64 * 12, |th, i| {
        let (n, keep, way) = (depths[i as usize / 12], i % 4, i / 4 % 3);
        case(th, format_args!("nested {} keeping {} in {}", n, keep, ["elements", "references", "attributes"][way as usize]), |th| {
            th.transitions += n as u64;
            with_stack(1 << 18, || -> R {
                let before = alloc::in_use();
                let fail = |e: xml_dom::level2::Error| format!("{:?}", e);
                let doc = get_implementation().create_document(None, None, None).map_err(fail)?;
                let mut at: RefNode = doc.clone();
                let mut kept = None;
                for j in 0..n {
                    let e = doc.create_element("e").map_err(fail)?;
                    if way > 0 && j > 0 {
                        let mut x = doc.create_entity_reference("x").map_err(fail)?;
                        x.append_child(e.clone()).map_err(fail)?;
                        if way == 1 {
                            at.append_child(x).map_err(fail)?;
                        } else {
                            let mut a = doc.create_attribute("k").map_err(fail)?;
                            a.append_child(x).map_err(fail)?;
                            at.set_attribute_node(a).map_err(fail)?;
                        }
                    } else {
                        at.append_child(e.clone()).map_err(fail)?;
                    }
                    at = e;
                    if j == [usize::MAX, 0, n / 2, n - 1][keep as usize] {
                        kept = Some(at.clone());
                    }
                }
                drop(at);
                if keep == 0 {
                    kept = Some(doc.clone());
                }
                drop(doc);
                let want = [n, n - 1, n - 1 - n / 2, 0][keep as usize];
                let mut at = kept.ok_or("nothing kept")?;
                let top = at.clone();
                let mut below = 0;
                loop {
                    let e = match (way, at.node_type()) {
                        (2, NodeType::Element) => at.get_attribute_node("k").and_then(|a| a.first_child()),
                        _ => at.first_child(),
                    };
                    let Some(e) = e else { break };
                    if e.node_type() == NodeType::Element {
                        below += 1;
                    }
                    at = e;
                }
                same("nodes below the one kept", below, want)?;
                if keep > 1 {
                    same("parent of the node kept", top.parent_node().is_some(), false)?;
                }
                drop(at);
                drop(top);
                same("bytes left in use", alloc::in_use() - before, 0)
            })
        });
    });
}
