//! P06 to P08: attributes, IDs, namespace declarations.

use super::worlds::*;
use crate::ctx::*;
use crate::explore::*;
use crate::model::*;
use crate::real::*;
use std::fmt::from_fn;
use xml_dom::level2::ext::convert::as_element_namespaced;
use xml_dom::level2::ext::*;
use xml_dom::level2::*;

type R = std::result::Result<(), String>;

// ------------------------------------------------------------------------------------------------
// P06

/// Every lookup of an attribute by any of the names, present or not.
fn lookups(m: &Model, r: &Real, qns: &[S], nss: &[S], locals: &[S]) -> R {
    for e in m.live() {
        if m.n(e).k != K::Element {
            continue;
        }
        let el = r.g(e);
        for qn in qns {
            let a = m.attr_named(e, qn);
            let what = |f: &'static str| from_fn(move |x| write!(x, "{}({:?}) on #{}", f, qn, e));
            if turn() {
                is_node(r, what("get_attribute_node"), el.get_attribute_node(qn), a)?;
            }
            if turn() {
                same(what("has_attribute"), el.has_attribute(qn), a.is_some())?;
            }
            if let (true, Some(want)) = (turn(), a.map_or(Some(None), |a| m.value(a))) {
                same(what("get_attribute"), el.get_attribute(qn), want)?;
            }
        }
        for ns in nss {
            for l in locals {
                if !valid_ns_lookup(ns, l) {
                    continue;
                }
                let a = m.attr_ns(e, ns, l);
                let what = |f: &'static str| from_fn(move |x| write!(x, "{}({:?},{:?}) on #{}", f, ns, l, e));
                if turn() {
                    is_node(r, what("get_attribute_node_ns"), el.get_attribute_node_ns(ns, l), a)?;
                }
                if turn() {
                    same(what("has_attribute_ns"), el.has_attribute_ns(ns, l), a.is_some())?;
                }
                if let (true, Some(want)) = (turn(), a.map_or(Some(None), |a| m.value(a))) {
                    same(what("get_attribute_ns"), el.get_attribute_ns(ns, l), want)?;
                }
            }
        }
    }
    Ok(())
}
fn is_node(r: &Real, what: impl std::fmt::Display, got: Option<RefNode>, want: Option<Id>) -> R {
    if got.as_ref() == want.map(|a| r.g(a)) {
        return Ok(());
    }
    Err(format!("{} is {}, expected {:?}", what, got.map_or("none".into(), |n| r.show(&n)), want))
}

const QNS: [S; 12] = ["k", "p:k", "q:k", "l", "p:l", "j", "id", "K", "P:k", "kk", "k.", "p:K"];
const NSS: [S; 6] = ["u", "v", "w", "U", "u/", " u"];
const LOCALS: [S; 7] = ["k", "l", "j", "p", "K", "kk", "k."];

fn attr_world(name: &str, elements: usize, qns: &'static [S], nss: &'static [S], nodes: &[Spec]) -> World {
    let names = ["a", "b", "c"];
    let elements: Vec<Spec> = names.iter().take(elements).map(|n| Spec::El(0, n)).collect();
    attr_world_of(name, &elements, qns, nss, nodes)
}
fn attr_world_of(name: &str, elements: &[Spec], qns: &'static [S], nss: &'static [S], nodes: &[Spec]) -> World {
    let mut spec = vec![Spec::Doc(0, None)];
    spec.extend(elements);
    let elements = elements.len();
    let mut next = spec.len();
    let mut attrs = vec![];
    for n in nodes {
        if matches!(n, Spec::AtWith(..)) {
            next += 1;
        }
        attrs.push(next);
        next += 1;
        spec.push(*n);
    }
    let mut ops = vec![];
    for e in 1..=elements {
        for q in qns {
            ops.push(Op::SetAttr(e, q, "v"));
            ops.push(Op::RemAttr(e, q));
            for ns in nss {
                ops.push(Op::SetAttrNs(e, ns, q, "w"));
            }
        }
        for ns in nss {
            for l in ["k", "l"] {
                ops.push(Op::RemAttrNs(e, ns, l));
            }
        }
        for a in &attrs {
            ops.push(Op::SetAttrNode(e, *a));
            ops.push(Op::SetAttrNodeNs(e, *a));
            ops.push(Op::RemAttrNode(e, *a));
        }
    }
    for a in &attrs {
        ops.push(Op::SetVal(*a, "x"));
        ops.push(Op::UnsetVal(*a));
    }
    World::new(name, spec, vec![], move |m: &Model| {
        let mut ops = ops.clone();
        // attributes made by name are nodes like any other
        for a in m.live() {
            if m.n(a).k == K::Attribute && m.n(a).implicit {
                for e in 1..=elements {
                    ops.push(Op::RemAttrNode(e, a));
                    ops.push(Op::SetAttrNode(e, a));
                }
            }
        }
        ops
    })
}

pub fn p06(ctx: &Ctx) {
    let views = |m: &Model, r: &Real| lookups(m, r, &QNS, &NSS, &LOCALS);
    let plan = |depth: usize| Plan {
        depth,
        mask: ATTRS | OWNER | VALUES | LINKS,
        view: Some(&views),
        ..Plan::default()
    };
    let two = [Spec::At(0, "k"), Spec::AtNs(0, "u", "p:k")];
    let four = [
        Spec::AtWith(0, "k", "y"),
        Spec::AtNs(0, "u", "p:k"),
        Spec::AtNs(0, "u", "q:k"),
        Spec::AtNs(0, "v", "p:k"),
    ];
    explore(
        ctx,
        &attr_world("two-elements-two-nodes", 2, &["k"], &["u"], &two),
        &plan(ctx.pick(5, usize::MAX)),
    );
    explore(
        ctx,
        &attr_world("one-element-four-nodes", 1, &["k", "p:k"], &["u"], &four),
        &plan(ctx.pick(5, usize::MAX)),
    );
    explore(
        ctx,
        &attr_world("many-names", 1, &["k", "p:k", "q:k"], &["u", "v"], &[]),
        &plan(usize::MAX),
    );
    explore(
        ctx,
        &attr_world("two-elements-four-nodes", 2, &["k", "p:k"], &["u"], &four),
        &plan(ctx.pick(3, 5)),
    );
    explore(
        ctx,
        &attr_world("locals", 1, &["k", "l", "p:k", "p:l"], &["u"], &two),
        &plan(ctx.pick(4, 6)),
    );
    // names and namespaces that are almost the same
    explore(
        ctx,
        &attr_world("look-alike-names", 1, &["k", "K", "kk", "k."], &[], &[Spec::At(0, "K")]),
        &plan(ctx.pick(5, usize::MAX)),
    );
    explore(
        ctx,
        &attr_world("look-alike-qualified-names", 1, &["p:k", "P:k", "p:K"], &["u", "U"], &[]),
        &plan(ctx.pick(3, 5)),
    );
    explore(
        ctx,
        &attr_world("look-alike-namespaces", 1, &["p:k", "q:k"], &["u", "u/", " u"], &[Spec::AtNs(0, "U", "p:k")]),
        &plan(ctx.pick(3, 5)),
    );
    // elements in namespaces, whose attributes are in none, or in another
    explore(
        ctx,
        &attr_world_of("elements-in-namespaces", &[Spec::ElNs(0, "u", "p:a"), Spec::ElNs(0, "v", "b")], &["k", "p:k"], &["u", "v"], &two),
        &plan(ctx.pick(3, 5)),
    );
    explore(
        ctx,
        &attr_world_of("element-in-namespace", &[Spec::ElNs(0, "u", "p:a")], &["k", "l"], &["u"], &[]),
        &plan(ctx.pick(5, usize::MAX)),
    );
    explore(ctx, &twin_attributes(), &plan(ctx.pick(4, 6)));
    // each lookup the last before and the first after an operation
    let few = |m: &Model, r: &Real| lookups(m, r, &["k", "p:k", "q:k"], &["u", "v"], &["k"]);
    odd_names(ctx, &Plan { view: Some(&few), ..plan(2) }, true);
    succession(
        ctx,
        &[
            attr_world("two-elements-two-nodes", 2, &["k"], &["u"], &two),
            attr_world("one-element-four-nodes", 1, &["k"], &["u"], &four),
            super::tree::foreign_attributes(),
            twin_attributes(),
            moved_owners(),
        ],
        &plan(1),
    );
    for w in [
        attr_world("two-elements-two-nodes", 2, &["k"], &["u"], &two),
        attr_world("one-element-four-nodes", 1, &["k"], &["u"], &four),
        super::tree::foreign_attributes(),
    ] {
        again(ctx, &w, &Plan { view: Some(&few), ..plan(1) }, 1, ctx.pick(2, 3), 300);
    }
    let turns = |depth: usize| Plan { view: Some(&few), ..plan(depth) }.turns(depth);
    explore(ctx, &attr_world("one-element-by-name", 1, &["k", "p:k"], &["u"], &[]), &turns(ctx.pick(4, usize::MAX)));
    explore(ctx, &attr_world("two-elements-two-nodes", 2, &["k"], &["u"], &two), &turns(ctx.pick(2, 4)));
    explore(ctx, &attr_world("one-element-four-nodes", 1, &["k"], &["u"], &four), &turns(ctx.pick(2, 4)));
    for n in [16, 64, 256, 1024] {
        explore(ctx, &long_names(n), &plan(ctx.pick(3, 5)));
    }
    explore(ctx, &moved_owners(), &plan(ctx.pick(3, 4)));
    // the effect of one operation on an element with any number of attributes
    for n in 0..ctx.pick(40, 80) {
        explore(ctx, &many_attributes(n, (0..n).collect()), &plan(1));
    }
    for n in lengths(ctx) {
        explore(ctx, &many_attributes(*n, marks(*n)), &plan(1));
    }
    if ctx.thorough() {
        explore(
            ctx,
            &attr_world("three-elements", 3, &["k"], &["u"], &two),
            &plan(usize::MAX),
        );
        explore(
            ctx,
            &attr_world("many-names-many-namespaces", 1, &["k", "p:k", "q:k", "l"], &["u", "v", "w"], &[]),
            &plan(6),
        );
    }
    super::lists::long_attributes(ctx);
}

/// Names and namespaces of `n` characters and more that differ at their very end.
fn long_names(n: usize) -> World {
    let long = |end: &str| intern(&format!("{}{}", "n".repeat(n), end));
    let [a, b, c] = [long("a"), long("b"), long("ab")];
    let (u, v) = (long("#u"), long("#v"));
    let mut ops = vec![];
    for q in [a, b, c] {
        ops.push(Op::SetAttr(1, q, "v"));
        ops.push(Op::RemAttr(1, q));
    }
    for ns in [u, v] {
        for q in [a, b] {
            ops.push(Op::SetAttrNs(1, ns, intern(&format!("p:{}", q)), "w"));
            ops.push(Op::RemAttrNs(1, ns, q));
        }
    }
    World::new(format!("long-names{}", n), vec![Spec::Doc(0, None), Spec::El(0, "a")], vec![], move |_| ops.clone())
}

/// Attributes while their elements move, get cloned and go through other tree edits.
pub fn moved_owners() -> World {
    let spec = vec![
        Spec::Doc(0, None),
        Spec::El(0, "a"),
        Spec::El(0, "b"),
        Spec::AtWith(0, "k", "y"),
        Spec::Text(0, "t"),
    ];
    // ids: 0 doc, 1 a, 2 b, 3 text of k, 4 k, 5 text
    World::new("moved-owners", spec, vec![], |m: &Model| {
        let mut ops = vec![];
        let els: Vec<Id> = m.live().filter(|i| m.n(*i).k == K::Element).collect();
        let ats: Vec<Id> = m.live().filter(|i| m.n(*i).k == K::Attribute).collect();
        for &e in &els {
            for &a in &ats {
                ops.push(Op::SetAttrNode(e, a));
                ops.push(Op::RemAttrNode(e, a));
            }
            for &f in &els {
                ops.push(Op::Append(e, f));
            }
            ops.push(Op::Append(0, e));
            ops.push(Op::Remove(0, e));
            ops.push(Op::Clone(e, true));
            ops.push(Op::Clone(e, false));
            ops.push(Op::SetAttr(e, "k", "v"));
            ops.push(Op::RemAttr(e, "k"));
            ops.push(Op::Normalize(e));
        }
        for &a in &ats {
            ops.push(Op::Append(a, 5));
            ops.push(Op::SetVal(a, "x"));
        }
        ops
    })
    .max(11)
}

fn attr_name(i: usize) -> S {
    intern(&match i % 3 {
        0 => format!("n{}", i),
        1 => format!("p:n{}", i),
        _ => format!("q{}:n{}", i, i / 3),
    })
}

/// An element with `n` attributes: each single operation on each of them.
fn many_attributes(n: usize, at: Vec<usize>) -> World {
    let spec = vec![
        Spec::Doc(0, None),
        Spec::El(0, "a"),
        Spec::El(0, "b"),
        Spec::At(0, "new"),
    ];
    let mut init = vec![Op::Append(0, 1)];
    for i in 0..n {
        let name = attr_name(i);
        if i % 2 == 0 {
            init.push(Op::SetAttr(1, name, "v"));
        } else {
            init.push(Op::SetAttrNs(1, "u", name, "w"));
        }
    }
    World::new(format!("attributes{}", n), spec, init, move |m: &Model| {
        let mut ops = vec![
            Op::SetAttr(1, "fresh", "z"),
            Op::SetAttrNs(1, "u", "f:fresh", "z"),
            Op::SetAttrNode(1, 3),
            Op::RemAttr(1, "fresh"),
            Op::RemAttrNode(1, 3),
        ];
        for i in at.iter().copied() {
            let name = attr_name(i);
            ops.push(Op::SetAttr(1, name, "z"));
            ops.push(Op::RemAttr(1, name));
            let local = intern(name.rsplit(':').next().unwrap());
            ops.push(Op::RemAttrNs(1, "u", local));
            ops.push(Op::RemAttrNs(1, "v", local));
            ops.push(Op::SetAttrNs(1, "u", intern(&format!("z:{}", local)), "z"));
        }
        for a in at.iter().filter_map(|i| m.n(1).attrs.get(*i).copied()) {
            ops.push(Op::RemAttrNode(1, a));
            ops.push(Op::RemAttrNode(2, a));
            ops.push(Op::SetAttrNode(1, a));
            ops.push(Op::SetAttrNode(2, a));
        }
        ops
    })
}

// ------------------------------------------------------------------------------------------------
// P07

fn ids(m: &Model, r: &Real, values: &[S]) -> R {
    for d in m.live() {
        if m.n(d).k != K::Document {
            continue;
        }
        let mut all: Vec<String> = values.iter().map(|s| s.to_string()).collect();
        for a in m.live() {
            if m.n(a).k == K::Attribute {
                if let Some(Some(v)) = m.value(a) {
                    if !all.contains(&v) {
                        all.push(v);
                    }
                }
            }
        }
        for v in all {
            if !turn() {
                continue;
            }
            let want = m.with_id(d, &v);
            let got = r.g(d).get_element_by_id(&v);
            let ok = match &got {
                None => want.is_empty(),
                Some(n) => want.iter().any(|w| r.g(*w) == n),
            };
            if !ok {
                return Err(format!(
                    "get_element_by_id({:?}) on #{} is {}, expected one of {:?}",
                    v,
                    d,
                    got.map_or("none".into(), |n| r.show(&n)),
                    want
                ));
            }
        }
    }
    Ok(())
}

fn id_tree_ops(elements: &[Id]) -> Vec<Op> {
    let mut ops = vec![];
    for &e in elements {
        ops.push(Op::Append(0, e));
        ops.push(Op::Remove(0, e));
        for &p in elements {
            if p != e {
                ops.push(Op::Append(p, e));
                ops.push(Op::Remove(p, e));
                for &o in elements {
                    if o != e && o != p {
                        ops.push(Op::Replace(p, e, o));
                    }
                }
            }
        }
    }
    ops
}

/// IDs by name while elements come and go.
pub fn id_world(name: &str, opts: u8, elements: usize, names: &'static [S], values: &'static [S]) -> World {
    let mut spec = vec![Spec::Doc(opts, None)];
    let labels = ["a", "b", "c", "d"];
    for n in labels.iter().take(elements) {
        spec.push(Spec::El(0, n));
    }
    let els: Vec<Id> = (1..=elements).collect();
    let mut ops = id_tree_ops(&els);
    for &e in &els {
        for n in names {
            for v in values {
                ops.push(match *n {
                    "xml:id" => Op::SetAttrNs(e, XMLURI, "xml:id", v),
                    // not qualified by a namespace, the prefix alone makes it an ID
                    "plain xml:id" => Op::SetAttr(e, "xml:id", v),
                    "unprefixed" => Op::SetAttrNs(e, XMLURI, "id", v),
                    n => Op::SetAttr(e, n, v),
                });
            }
            ops.push(match *n {
                "xml:id" | "unprefixed" => Op::RemAttrNs(e, XMLURI, "id"),
                "plain xml:id" => Op::RemAttr(e, "xml:id"),
                n => Op::RemAttr(e, n),
            });
        }
    }
    World::new(name, spec, vec![], move |_| ops.clone())
}

/// IDs of `n` characters and more that differ at their very end.
fn long_ids(n: usize) -> World {
    let mut ops = id_tree_ops(&[1, 2]);
    for e in [1, 2] {
        for end in ["a", "b", "ab"] {
            ops.push(Op::SetAttr(e, "xml:id", intern(&format!("{}{}", "v".repeat(n), end))));
        }
        ops.push(Op::RemAttr(e, "xml:id"));
    }
    let spec = vec![Spec::Doc(0, None), Spec::El(0, "a"), Spec::El(0, "b")];
    World::new(format!("long-ids{}", n), spec, vec![], move |_| ops.clone())
}

/// IDs through attribute nodes and the text they hold.
pub fn id_nodes(opts: u8) -> World {
    id_nodes_from("id-nodes", opts, vec![])
}
/// The same, with both attributes at elements of the document.
pub fn used_id_nodes(opts: u8) -> World {
    let init = vec![
        Op::Append(0, 1),
        Op::Append(1, 2),
        Op::SetAttrNode(1, 4),
        Op::SetVal(5, "w"),
        Op::SetAttrNode(2, 5),
    ];
    id_nodes_from("used-id-nodes", opts, init)
}
fn id_nodes_from(name: &str, opts: u8, init: Vec<Op>) -> World {
    let id = if opts & OPT_IDS != 0 { "id" } else { "xml:id" };
    let spec = vec![
        Spec::Doc(opts, None),
        Spec::El(0, "a"),
        Spec::El(0, "b"),
        Spec::AtWith(0, id, "v"),
        Spec::At(0, id),
        Spec::Text(0, "v"),
        Spec::ERef(0, "r"),
    ];
    // 0 doc, 1 a, 2 b, 3 text of first id, 4 first id, 5 second id, 6 text, 7 entity reference
    World::new(format!("{}{}", name, opts), spec, init, |m: &Model| {
        let mut ops = vec![
            Op::Append(0, 1),
            Op::Append(1, 2),
            Op::Append(1, 7),
            Op::Append(7, 2),
            Op::Remove(0, 1),
            Op::Remove(1, 2),
            Op::Remove(7, 2),
            Op::Append(5, 6),
            Op::Remove(5, 6),
            Op::SetNV(6, "w"),
            Op::SetNV(3, "w"),
            Op::AppendData(3, "w"),
            Op::DeleteData(3, 0, 1),
            Op::SetNV(3, "v"),
            Op::Split(3, 1),
            Op::Normalize(1),
            Op::Normalize(4),
        ];
        for a in [4, 5] {
            for e in [1, 2] {
                ops.push(Op::SetAttrNode(e, a));
                ops.push(Op::SetAttrNodeNs(e, a));
                ops.push(Op::RemAttrNode(e, a));
            }
            for v in ["v", "w"] {
                ops.push(Op::SetVal(a, v));
            }
            ops.push(Op::UnsetVal(a));
        }
        let _ = m;
        ops
    })
    .max(10)
}

/// IDs in clones.
pub fn id_clones() -> World {
    let spec = vec![
        Spec::Doc(0, None),
        Spec::El(0, "r"),
        Spec::El(0, "a"),
        Spec::El(0, "b"),
    ];
    World::new(
        "id-clones",
        spec,
        vec![Op::Append(0, 1), Op::Append(2, 3)],
        |m: &Model| {
            let mut ops = vec![];
            let els: Vec<Id> = m.live().filter(|i| m.n(*i).k == K::Element).collect();
            for &e in &els {
                for v in ["v", "w"] {
                    ops.push(Op::SetAttr(e, "xml:id", v));
                }
                ops.push(Op::RemAttr(e, "xml:id"));
                if e > 1 {
                    ops.push(Op::Clone(e, true));
                    ops.push(Op::Clone(e, false));
                    ops.push(Op::Append(1, e));
                    ops.push(Op::Remove(1, e));
                }
            }
            ops
        },
    )
    .max(10)
}

/// An ID at the end of a chain, or in a wide tree, at any position.
fn id_shapes(n: usize, at: usize, deep: bool) -> World {
    let mut spec = vec![Spec::Doc(0, None)];
    let mut init = vec![];
    for i in 0..n {
        spec.push(if i % 4 == 3 && deep {
            Spec::ERef(0, "r")
        } else {
            Spec::El(0, intern(&format!("e{}", i)))
        });
        let parent = match i {
            0 => 0,
            _ if deep => i,
            _ => 1,
        };
        init.push(Op::Append(parent, i + 1));
    }
    World::new(format!("id-at-{}-of-{}-{}", at, n, if deep { "nested" } else { "listed" }), spec, init, move |m| {
        let mut ops = vec![Op::SetAttr(1, "xml:id", "v")];
        let at = at + 1;
        if m.n(at).k == K::Element {
            ops.push(Op::SetAttrNs(at, XMLURI, "xml:id", "v"));
            if m.n(at).attrs.is_empty() {
                ops.push(Op::SetAttr(at, "xml:id", "w"));
            }
        }
        ops.push(Op::RemAttr(at, "xml:id"));
        if let Some(p) = m.n(at).parent {
            ops.push(Op::Remove(p, at));
        }
        ops
    })
}

pub fn p07(ctx: &Ctx) {
    let values: [S; 11] = ["v", "w", "vw", "", "x", "V", "v ", " v", "vv", "e\u{301}", "\u{e9}"];
    let exact = |m: &Model, r: &Real| ids(m, r, &values);
    let plan = |depth: usize| Plan {
        depth,
        mask: ATTRS | OWNER | LINKS | VALUES,
        view: Some(&exact),
        ..Plan::default()
    };
    explore(
        ctx,
        &id_world("strict", 0, 2, &["xml:id", "id", "plain xml:id"], &["v", "w"]),
        &plan(ctx.pick(5, usize::MAX)),
    );
    explore(ctx, &id_world("strict-three", 0, 3, &["xml:id"], &["v", "w"]), &plan(ctx.pick(5, usize::MAX)));
    odd_names(ctx, &plan(2), true);
    for w in [
        id_world("strict", 0, 2, &["xml:id"], &["v", "w"]),
        id_world("lax", OPT_IDS, 2, &["id"], &["v", "w"]),
        id_nodes(0),
        used_id_nodes(0),
    ] {
        again(ctx, &w, &plan(1), 1, 2, 300);
    }
    let options: Vec<World> = (0..8)
        .map(|o| id_world(&format!("with-options{}", o), o, 2, &["xml:id", "id"], &["v", "w"]))
        .chain([id_nodes(0), id_nodes(OPT_IDS), id_clones()])
        .collect();
    succession(ctx, &options, &plan(1));
    explore(
        ctx,
        &id_world("lax", OPT_IDS, 2, &["id", "p:id", "xml:id"], &["v", "w"]),
        &plan(ctx.pick(5, usize::MAX)),
    );
    explore(ctx, &id_world("lax-three", OPT_IDS | OPT_NS, 3, &["id"], &["v", "w"]), &plan(ctx.pick(5, usize::MAX)));
    explore(
        ctx,
        &id_world("look-alikes", 0, 1, &["xml:id", "unprefixed", "plain xml:id", "id", "p:id", "ID", "xml:idx"], &["v"]),
        &plan(ctx.pick(4, usize::MAX)),
    );
    explore(
        ctx,
        &id_world("lax-look-alikes", OPT_IDS, 1, &["id", "ID", "Id", "iD", "idx", "p:id", "id."], &["v"]),
        &plan(ctx.pick(4, usize::MAX)),
    );
    explore(
        ctx,
        &id_world("odd-values", 0, 2, &["xml:id"], &["a&amp;b", "a&b", " v ", "", "\u{e9}"]),
        &plan(ctx.pick(4, usize::MAX)),
    );
    explore(
        ctx,
        &id_world("look-alike-values", 0, 2, &["xml:id"], &["v", "V", "v ", "vv", "v\u{a0}"]),
        &plan(ctx.pick(4, usize::MAX)),
    );
    explore(
        ctx,
        &id_world("composed-values", OPT_IDS, 2, &["id"], &["\u{e9}", "e\u{301}", "e"]),
        &plan(ctx.pick(4, usize::MAX)),
    );
    let few = |m: &Model, r: &Real| ids(m, r, &["v", "w"]);
    let turns = |depth: usize| Plan { mask: LINKS, view: Some(&few), ..plan(depth) }.turns(depth);
    explore(ctx, &id_world("strict", 0, 2, &["xml:id", "plain xml:id"], &["v", "w"]), &turns(ctx.pick(4, 6)));
    explore(ctx, &id_world("strict-three", 0, 3, &["xml:id"], &["v", "w"]), &turns(ctx.pick(3, 6)));
    explore(ctx, &id_world("lax", OPT_IDS, 2, &["id", "p:id"], &["v", "w"]), &turns(ctx.pick(4, 6)));
    explore(ctx, &used_id_nodes(0), &turns(ctx.pick(3, 4)));
    explore(ctx, &used_id_nodes(OPT_IDS), &turns(ctx.pick(3, 4)));
    explore(ctx, &id_clones(), &turns(ctx.pick(3, 5)));
    for n in [16, 64, 256, 1024] {
        explore(ctx, &long_ids(n), &plan(ctx.pick(3, 5)));
    }
    explore(ctx, &id_nodes(0), &plan(ctx.pick(5, 7)));
    explore(ctx, &id_nodes(OPT_IDS), &plan(ctx.pick(5, 7)));
    explore(ctx, &used_id_nodes(0), &plan(ctx.pick(4, 6)));
    explore(ctx, &used_id_nodes(OPT_IDS), &plan(ctx.pick(4, 6)));
    explore(ctx, &id_clones(), &plan(ctx.pick(5, 6)));
    for n in 1..ctx.pick(14, 40) {
        for at in 0..n {
            explore(ctx, &id_shapes(n, at, true), &plan(2));
            explore(ctx, &id_shapes(n, at, false), &plan(2));
        }
    }
    for n in lengths(ctx) {
        for at in marks(*n) {
            explore(ctx, &id_shapes(*n, at, true), &plan(2));
            explore(ctx, &id_shapes(*n, at, false), &plan(2));
        }
    }
    if ctx.thorough() {
        explore(ctx, &id_world("strict-four", 0, 4, &["xml:id"], &["v"]), &plan(usize::MAX));
    }
}

// ------------------------------------------------------------------------------------------------
// P08

fn declared(m: &Model, e: Id) -> Option<Vec<(Option<S>, String)>> {
    let mut v = vec![];
    for a in &m.n(e).attrs {
        if let Some(p) = m.n(*a).name.declares() {
            match m.value(*a)? {
                Some(ns) => v.push((p, ns)),
                None => return None, // declared without a value: not claimed
            }
        }
    }
    Some(v)
}

fn show_prefix(p: &NamespacePrefix) -> Option<Option<String>> {
    match p {
        NamespacePrefix::None => None,
        NamespacePrefix::Default => Some(None),
        NamespacePrefix::Some(s) => Some(Some(s.clone())),
    }
}

fn mappings(m: &Model, r: &Real, prefixes: &[Option<&str>], nss: &[&str]) -> R {
    for e in m.live() {
        if m.n(e).k != K::Element {
            continue;
        }
        // whether support was on is not known without the document
        let Some(d) = m.owner_document(e) else { continue };
        let on = m.n(d).opts & OPT_NS != 0;
        // nearest first
        let mut scopes: Vec<Vec<(Option<S>, String)>> = vec![];
        let mut at = Some(e);
        let mut claimed = true;
        while let Some(x) = at {
            if m.n(x).k == K::Element {
                match declared(m, x) {
                    Some(d) if on => scopes.push(d),
                    Some(_) => scopes.push(vec![]),
                    None => claimed = false,
                }
            }
            at = m.n(x).parent;
        }
        if !claimed {
            continue;
        }
        let el = as_element_namespaced(r.g(e)).map_err(|e| format!("{:?}", e))?;
        fn who<'a>(what: &'a str, of: &'a dyn std::fmt::Debug, e: Id) -> impl std::fmt::Display + 'a {
            from_fn(move |x| write!(x, "{}({:?}) on #{}", what, of, e))
        }
        for p in prefixes {
            let find = |s: &[(Option<S>, String)]| s.iter().find(|x| x.0 == *p).map(|x| x.1.clone());
            let here = find(&scopes[0]);
            if turn() {
                same(who("contains_mapping", p, e), el.contains_mapping(*p), here.is_some())?;
            }
            if turn() {
                same(who("get_namespace", p, e), el.get_namespace(*p), here)?;
            }
            if turn() {
                let near = scopes.iter().find_map(|s| find(s));
                same(who("resolve_namespace", p, e), el.resolve_namespace(*p), near)?;
            }
        }
        for ns in nss {
            let find = |s: &[(Option<S>, String)]| -> Vec<Option<String>> {
                s.iter()
                    .filter(|x| x.1 == *ns)
                    .map(|x| x.0.map(|s| s.to_string()))
                    .collect()
            };
            let among = |what: &str, got: NamespacePrefix, want: Vec<Option<String>>| -> R {
                let says = (got.is_none(), got.is_default(), got.is_some(), got.some());
                let is = match &got {
                    NamespacePrefix::None => (true, false, false, None),
                    NamespacePrefix::Default => (false, true, false, None),
                    NamespacePrefix::Some(p) => (false, false, true, Some(p.clone())),
                };
                same(format!("what {:?} says of itself", got), says, is)?;
                if let NamespacePrefix::Some(p) = &got {
                    same("the same prefix made anew", NamespacePrefix::new_some(p.as_str()) == got, true)?;
                }
                let got = show_prefix(&got);
                let ok = match &got {
                    None => want.is_empty(),
                    Some(g) => want.contains(g),
                };
                if ok {
                    Ok(())
                } else {
                    Err(format!("{} is {:?}, expected one of {:?}", who(what, ns, e), got, want))
                }
            };
            let here = find(&scopes[0]);
            if turn() {
                same(
                    who("contains_mapped_namespace", ns, e),
                    el.contains_mapped_namespace(ns),
                    !here.is_empty(),
                )?;
            }
            if turn() {
                among("get_prefix", el.get_prefix(ns), here)?;
            }
            if !turn() {
                continue;
            }
            let near = scopes
                .iter()
                .map(|s| find(s))
                .find(|v| !v.is_empty())
                .unwrap_or_default();
            among("resolve_prefix", el.resolve_prefix(ns), near)?;
        }
    }
    Ok(())
}

fn ns_ops(e: Id, prefixes: &[S], nss: &[S]) -> Vec<Op> {
    let mut ops = vec![];
    for p in prefixes {
        let (qn, local): (S, S) = if p.is_empty() {
            ("xmlns", "xmlns")
        } else {
            (intern(&format!("xmlns:{}", p)), p)
        };
        for ns in nss {
            ops.push(Op::SetAttrNs(e, XMLNS, qn, ns));
        }
        ops.push(Op::RemAttrNs(e, XMLNS, local));
        ops.push(Op::RemAttr(e, qn));
    }
    ops
}

pub fn ns_world(name: &str, opts: u8, nested: &[usize], prefixes: &'static [S], nss: &'static [S], moves: bool) -> World {
    // nested[i]: how many entity references are between element i and the one above it
    let mut spec = vec![Spec::Doc(opts, None)];
    let mut init = vec![];
    let mut els = vec![];
    let labels = ["a", "b", "c", "d"];
    let mut above = 0;
    for (i, n) in nested.iter().enumerate() {
        for _ in 0..*n {
            spec.push(Spec::ERef(0, "r"));
            init.push(Op::Append(above, spec.len() - 1));
            above = spec.len() - 1;
        }
        spec.push(Spec::El(0, labels[i]));
        init.push(Op::Append(above, spec.len() - 1));
        above = spec.len() - 1;
        els.push(above);
    }
    let mut ops = vec![];
    for &e in &els {
        ops.extend(ns_ops(e, prefixes, nss));
    }
    if moves {
        for &e in &els {
            ops.push(Op::Append(0, e));
            ops.push(Op::Remove(0, e));
            for &p in &els {
                if p != e {
                    ops.push(Op::Append(p, e));
                    ops.push(Op::Remove(p, e));
                }
            }
        }
    }
    World::new(name, spec, init, move |_| ops.clone())
}

/// Declarations as attribute nodes, look-alikes without the reserved namespace, changed values.
pub fn ns_nodes(opts: u8) -> World {
    let spec = vec![
        Spec::Doc(opts, None),
        Spec::El(0, "a"),
        Spec::El(0, "b"),
        Spec::AtNs(0, XMLNS, "xmlns"),
        Spec::AtNs(0, XMLNS, "xmlns:p"),
        Spec::AtNs(0, XMLNS, "p"),
        Spec::AtWith(0, "xmlns:p", "u"),
        Spec::Text(0, "v"),
    ];
    // 3 xmlns, 4 xmlns:p, 5 p in the reserved namespace, 7 xmlns:p without namespace, 8 text
    let mut ops = vec![
        Op::Append(4, 8),
        Op::Remove(4, 8),
        Op::SetNV(8, "w"),
        Op::Append(1, 2),
        Op::Remove(1, 2),
        Op::SetAttr(1, "xmlns", "u"),
        Op::SetAttr(2, "xmlns:p", "v"),
        Op::RemAttr(1, "xmlns"),
        Op::RemAttr(2, "xmlns:p"),
    ];
    for e in [1, 2] {
        for a in [3, 4, 5, 7] {
            ops.push(Op::SetAttrNode(e, a));
            ops.push(Op::RemAttrNode(e, a));
        }
    }
    for a in [3, 4, 5] {
        for v in ["u", "v", ""] {
            ops.push(Op::SetVal(a, v));
        }
    }
    World::new(
        format!("declaration-nodes{}", opts),
        spec,
        vec![Op::SetVal(3, "u"), Op::SetVal(4, "u"), Op::SetVal(5, "u")],
        move |_| ops.clone(),
    )
}

/// A document by the plain create_document: namespaces are on, however it is made.
fn ns_made(name: &str, ns: Option<S>, root: Option<S>) -> World {
    let mut spec = vec![Spec::DocBy(ns, root)];
    let mut init = vec![];
    if root.is_none() {
        spec.push(Spec::El(0, "a"));
        init.push(Op::Append(0, 1));
    }
    spec.push(Spec::ElNs(0, "u", "p:b"));
    let mut ops = vec![];
    for e in [1, 2] {
        ops.extend(ns_ops(e, &["", "p"], &["u", "v"]));
    }
    ops.extend([Op::Append(1, 2), Op::Remove(1, 2)]);
    World::new(name, spec, init, move |_| ops.clone())
}

/// Clones carry their own declarations.
pub fn ns_clones() -> World {
    let spec = vec![Spec::Doc(OPT_NS, None), Spec::El(0, "a"), Spec::El(0, "b")];
    World::new(
        "declarations-in-clones",
        spec,
        vec![Op::Append(0, 1), Op::Append(1, 2)],
        |m: &Model| {
            let mut ops = vec![];
            let els: Vec<Id> = m.live().filter(|i| m.n(*i).k == K::Element).collect();
            for &e in &els {
                ops.extend(ns_ops(e, &["p"], &["u", "v"]));
                ops.push(Op::Clone(e, true));
                ops.push(Op::Clone(e, false));
                for &p in &els {
                    if p != e {
                        ops.push(Op::Append(p, e));
                        ops.push(Op::Remove(p, e));
                    }
                }
            }
            ops
        },
    )
    .max(9)
}

/// Declarations at any depth of a chain, seen from its end.
fn ns_chain(n: usize, mask: usize) -> World {
    let mut spec = vec![Spec::Doc(OPT_NS, None)];
    let mut init = vec![];
    for i in 0..n {
        spec.push(Spec::El(0, "e"));
        init.push(Op::Append(i, i + 1));
        if mask >> i & 1 != 0 {
            let v: S = ["u", "v", "w"][i % 3];
            init.push(Op::SetAttrNs(i + 1, XMLNS, if i % 2 == 0 { "xmlns:p" } else { "xmlns" }, v));
        }
    }
    World::new(format!("declaration-chain{}-{:b}", n, mask), spec, init, |_| vec![Op::Normalize(1)])
}

/// A long chain with one declaration of either kind somewhere in it.
fn far_declaration(n: usize, at: usize) -> World {
    let mut spec = vec![Spec::Doc(OPT_NS, None)];
    let mut init = vec![];
    for i in 0..n {
        spec.push(Spec::El(0, "e"));
        init.push(Op::Append(i, i + 1));
    }
    init.push(Op::SetAttrNs(at + 1, XMLNS, "xmlns:p", "u"));
    init.push(Op::SetAttrNs(at + 1, XMLNS, "xmlns", "v"));
    World::new(format!("declaration-{}-of-{}", at, n), spec, init, move |_| {
        vec![
            Op::RemAttrNs(at + 1, XMLNS, "p"),
            Op::SetAttrNs(n, XMLNS, "xmlns:p", "w"),
            Op::SetAttrNs(1, XMLNS, "xmlns", "w"),
        ]
    })
}

/// One element with many declarations, seen from it and from below.
fn many_declarations(n: usize) -> World {
    let spec = vec![Spec::Doc(OPT_NS, None), Spec::El(0, "a"), Spec::El(0, "b")];
    let mut init = vec![Op::Append(1, 2)];
    for i in 0..n {
        init.push(Op::SetAttrNs(1, XMLNS, intern(&format!("xmlns:n{}", i)), intern(&format!("u{}", i))));
    }
    World::new(format!("declarations{}", n), spec, init, move |_| {
        let mut ops = ns_ops(1, &["", "p", "n0"], &["u", "v"]);
        for i in marks(n) {
            ops.extend(ns_ops(1, &[intern(&format!("n{}", i))], &["u"]));
            ops.extend(ns_ops(2, &[intern(&format!("n{}", i))], &["u"]));
        }
        ops
    })
}

pub fn p08(ctx: &Ctx) {
    let long: Vec<String> = ["a", "b"].iter().map(|end| format!("{}{}", "n".repeat(300), end)).collect();
    let prefixes = [
        None, Some("p"), Some("q"), Some("xmlns"), Some("z"), Some(""), Some("P"), Some("pp"), Some(&long[0]), Some(&long[1]),
    ];
    let nss = ["u", "v", "w", "", "z", XMLNS, XMLURI, "U", "u/", "u ", " u", &long[0], &long[1]];
    let exact = |m: &Model, r: &Real| mappings(m, r, &prefixes, &nss);
    // and what the operation is about
    let numbered = |s: &Step<'_>| {
        let (Op::SetAttrNs(_, _, n, _) | Op::RemAttrNs(_, _, n) | Op::RemAttr(_, n)) = s.op else {
            return Ok(());
        };
        let p = n.rsplit(':').next().unwrap();
        let Some(d) = p.strip_prefix('n').and_then(|d| d.parse::<usize>().ok()) else {
            return Ok(());
        };
        mappings(s.after, s.real, &[Some(p)], &[&format!("u{}", d)])
    };
    let plan = |depth: usize| Plan {
        depth,
        mask: ATTRS | LINKS,
        view: Some(&exact),
        hook: Some(&numbered),
        ..Plan::default()
    };
    let few = |m: &Model, r: &Real| mappings(m, r, &[None, Some("p")], &["u", "v"]);
    explore(ctx, &ns_world("three-prefixes", OPT_NS, &[0, 0], &["", "p"], &["u", "v"], true), &plan(ctx.pick(5, usize::MAX)));
    explore(ctx, &ns_world("switched-off", 0, &[0, 0], &["", "p"], &["u", "v"], true), &plan(ctx.pick(3, 5)));
    explore(ctx, &ns_world("other-options", 3, &[0, 0], &["", "p"], &["u"], true), &plan(ctx.pick(3, usize::MAX)));
    explore(ctx, &ns_world("all-options", 7, &[0, 0], &["", "p"], &["u"], true), &plan(ctx.pick(4, usize::MAX)));
    explore(ctx, &ns_world("three-levels", OPT_NS, &[0, 0, 0], &["p"], &["u", "v"], true), &plan(ctx.pick(5, usize::MAX)));
    explore(ctx, &ns_world("below-references", OPT_NS, &[0, 1, 2], &["p", ""], &["u"], false), &plan(ctx.pick(5, usize::MAX)));
    explore(ctx, &ns_world("one-element", OPT_NS, &[0], &["", "p", "q"], &["u", "v"], false), &plan(usize::MAX));
    explore(ctx, &ns_world("empty-namespace", OPT_NS, &[0, 0, 0], &["", "p"], &["", "u"], false), &plan(ctx.pick(4, usize::MAX)));
    explore(ctx, &ns_world("look-alike-prefixes", OPT_NS, &[0, 0], &["p", "P", "pp"], &["u"], true), &plan(ctx.pick(4, 6)));
    explore(ctx, &ns_world("look-alike-namespaces", OPT_NS, &[0, 0], &["p"], &["u", "U", "u/", "u ", " "], true), &plan(ctx.pick(4, 6)));
    let (a, b): (S, S) = (intern(&long[0]), intern(&long[1]));
    let (a, b): (&'static [S], &'static [S]) = (Box::leak(Box::new([a, b])), Box::leak(Box::new([a, b])));
    explore(ctx, &ns_world("long-prefixes-and-namespaces", OPT_NS, &[0, 0], a, b, false), &plan(ctx.pick(4, usize::MAX)));
    explore(ctx, &ns_nodes(OPT_NS), &plan(ctx.pick(4, 6)));
    odd_names(ctx, &plan(2), true);
    for w in [
        ns_world("three-prefixes", OPT_NS, &[0, 0], &["", "p"], &["u", "v"], true),
        ns_world("three-levels", OPT_NS, &[0, 0, 0], &["p"], &["u", "v"], true),
        ns_nodes(OPT_NS),
    ] {
        again(ctx, &w, &Plan { view: Some(&few), ..plan(1) }, 1, 2, 300);
    }
    explore(ctx, &ns_nodes(0), &plan(ctx.pick(2, 4)));
    let options: Vec<World> = (0..8)
        .map(|o| ns_world(&format!("with-options{}", o), o, &[0, 0], &["", "p"], &["u"], true))
        .chain([ns_made("made-empty", None, None), ns_made("made-with-root", None, Some("r")), ns_clones()])
        .collect();
    succession(ctx, &options, &plan(1));
    explore(ctx, &ns_clones(), &plan(ctx.pick(4, 6)));
    explore(ctx, &ns_made("made-empty", None, None), &plan(ctx.pick(3, usize::MAX)));
    explore(ctx, &ns_made("made-with-root", None, Some("r")), &plan(ctx.pick(3, usize::MAX)));
    explore(ctx, &ns_made("made-with-namespace", Some("u"), Some("p:r")), &plan(ctx.pick(3, usize::MAX)));
    let turns = |depth: usize| Plan { view: Some(&few), ..plan(depth) }.turns(depth);
    explore(ctx, &ns_world("three-prefixes", OPT_NS, &[0, 0], &["", "p"], &["u", "v"], true), &turns(ctx.pick(3, 4)));
    explore(ctx, &ns_world("three-levels", OPT_NS, &[0, 0, 0], &["p"], &["u"], true), &turns(ctx.pick(3, 5)));
    explore(ctx, &ns_nodes(OPT_NS), &turns(ctx.pick(2, 3)));
    explore(ctx, &ns_clones(), &turns(ctx.pick(2, 4)));
    let dropping = ns_world("letting-go", OPT_NS, &[0, 0, 0], &["p"], &["u", "v"], true).drops();
    explore(ctx, &dropping, &plan(ctx.pick(4, 6)));
    for n in 1..ctx.pick(8, 11) {
        for mask in 0..1usize << n {
            explore(ctx, &ns_chain(n, mask), &plan(1));
        }
    }
    for n in lengths(ctx) {
        let at = if *n < ctx.pick(120, 300) { marks(*n) } else { vec![0, n / 2, n - 1] };
        for at in at {
            explore(ctx, &far_declaration(*n, at), &plan(1));
        }
    }
    for n in (0..ctx.pick(24, 60)).chain(lengths(ctx).iter().copied().filter(|n| *n < ctx.pick(300, 600))) {
        explore(ctx, &many_declarations(n), &plan(1));
    }
    if ctx.thorough() {
        explore(ctx, &ns_world("four-levels", OPT_NS, &[0, 0, 0, 0], &["p"], &["u"], true), &plan(usize::MAX));
        explore(ctx, &ns_world("three-levels-two-prefixes", OPT_NS, &[0, 0, 0], &["p", ""], &["u", "v"], false), &plan(usize::MAX));
    }
}
