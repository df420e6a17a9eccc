//! P09 to P11: queries, clones and normalization over whole trees.

use super::shapes::*;
use super::strings::*;
use super::worlds::*;
use crate::ctx::*;
use crate::explore::*;
use crate::model::*;
use crate::real::*;
use xml_dom::level2::ext::convert::as_element_namespaced;
use xml_dom::level2::ext::{DocumentDecl, XmlDecl, XmlVersion};
use xml_dom::level2::*;

type R = std::result::Result<(), String>;

// ------------------------------------------------------------------------------------------------
// P09

/// The elements of the subtree of `i` (itself included when it is one), in document order.
fn elements_below(m: &Model, i: Id) -> Vec<Id> {
    let mut v = vec![];
    if m.n(i).k == K::Element {
        v.push(i);
    }
    v.extend(m.in_tree(i).into_iter().filter(|x| m.n(*x).k == K::Element));
    v
}

fn queries(m: &Model, r: &Real, tags: &[S], nss: &[S], locals: &[S]) -> R {
    for i in m.live() {
        let k = m.n(i).k;
        if k != K::Element && k != K::Document {
            continue;
        }
        let all = elements_below(m, i);
        let node = r.g(i);
        let check = |what: String, got: Vec<RefNode>, want: Vec<Id>| -> R {
            let ok = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g == r.g(*w));
            if ok {
                Ok(())
            } else {
                Err(format!(
                    "{} on #{} gives [{}], expected {:?}",
                    what,
                    i,
                    got.iter().map(|n| r.show(n)).collect::<Vec<_>>().join(" "),
                    want
                ))
            }
        };
        for t in tags {
            if !turn() {
                continue;
            }
            let want: Vec<Id> = all
                .iter()
                .copied()
                .filter(|x| *t == "*" || m.n(*x).name.to_string() == *t)
                .collect();
            let got = if k == K::Element {
                Element::get_elements_by_tag_name(node, t)
            } else {
                Document::get_elements_by_tag_name(node, t)
            };
            check(format!("get_elements_by_tag_name({:?})", t), got, want)?;
        }
        for ns in nss {
            for l in locals {
                if !turn() {
                    continue;
                }
                let want: Vec<Id> = all
                    .iter()
                    .copied()
                    .filter(|x| {
                        let q = m.n(*x).name;
                        (*ns == "*" || q.ns == Some(*ns)) && (*l == "*" || q.local == *l)
                    })
                    .collect();
                let got = if k == K::Element {
                    Element::get_elements_by_tag_name_ns(node, ns, l)
                } else {
                    Document::get_elements_by_tag_name_ns(node, ns, l)
                };
                check(format!("get_elements_by_tag_name_ns({:?},{:?})", ns, l), got, want)?;
            }
        }
    }
    Ok(())
}

const TAGS: [S; 12] = ["a", "b", "p:a", "q:a", "*", "z", "", "p", "e3", "A", "P:a", "aa"];
const TNSS: [S; 7] = ["u", "v", "*", "", "z", "U", "u/"];
const TLOCALS: [S; 8] = ["a", "b", "*", "z", "", "p:a", "A", "aa"];

/// Labels of the enumerated trees.
fn tag_label(l: u8, d: Id) -> Spec {
    match l {
        0 => Spec::El(d, "a"),
        1 => Spec::ElNs(d, "u", "a"),
        2 => Spec::ElNs(d, "u", "p:b"),
        3 => Spec::ElNs(d, "v", "p:a"),
        4 => Spec::El(d, "p:a"),
        5 => Spec::ERef(d, "r"),
        6 => Spec::Text(d, "a"),
        7 => Spec::PI(d, "a", None),
        _ => Spec::Comment(d, "a"),
    }
}

pub fn p09(ctx: &Ctx) {
    let query = |m: &Model, r: &Real| queries(m, r, &TAGS, &TNSS, &TLOCALS);
    // every tree over the labels: below a document and detached
    let sizes: &[(usize, &[u8])] = ctx.pick(
        &[
            (1, &[0, 1, 2, 3, 4, 5, 6, 7, 8]),
            (2, &[0, 1, 2, 3, 4, 5, 6, 7, 8]),
            (3, &[0, 1, 2, 3, 5, 6]),
            (4, &[0, 2, 5, 6]),
            (5, &[0, 1]),
        ],
        &[
            (1, &[0, 1, 2, 3, 4, 5, 6, 7, 8]),
            (2, &[0, 1, 2, 3, 4, 5, 6, 7, 8]),
            (3, &[0, 1, 2, 3, 4, 5, 6, 7, 8]),
            (4, &[0, 1, 2, 3, 5, 6]),
            (5, &[0, 2, 5, 6]),
            (6, &[0, 1, 5]),
            (7, &[0, 1]),
        ],
    );
    for (n, labels) in sizes {
        let holds: Vec<bool> = labels.iter().map(|l| *l <= 5).collect();
        let all = forests(*n, &holds);
        ctx.note(format!(
            "{} trees of {} nodes below a root element, {} labels, queried from every element and the document, also with the same attribute on every element",
            all.len(),
            n,
            labels.len()
        ));
        ctx.par(all.len() as u64, |th, i| {
            let f = &all[i as usize];
            case(th, format_args!("tree n={} labels={:?} [{}]", n, labels, show(f)), |th| {
                let mut spec = vec![Spec::Doc(0, None), Spec::El(0, "a")];
                let mut ops = vec![];
                let mut len = 2;
                place(f, 1, &mut spec, &mut len, &mut ops, &|l, _| {
                    tag_label(labels[l as usize], 0)
                });
                let mut p = Pair::new(&spec)?;
                p.steps(&ops)?;
                query(&p.m, &p.r)?;
                p.step(Op::Append(0, 1))?;
                query(&p.m, &p.r)?;
                // and with the same attribute on every element, so that some look alike
                for e in elements_below(&p.m, 0) {
                    p.step(Op::SetAttr(e, "k", "v"))?;
                }
                query(&p.m, &p.r)?;
                th.transitions += 3;
                Ok(())
            });
        });
    }
    // while the tree changes
    let view = |m: &Model, r: &Real| query(m, r);
    let plan = |depth: usize| Plan {
        depth,
        mask: LINKS,
        view: Some(&view),
        failures: false,
        ..Plan::default()
    };
    let spec = vec![
        Spec::Doc(0, None),
        Spec::El(0, "a"),
        Spec::ElNs(0, "u", "p:a"),
        Spec::ElNs(0, "v", "a"),
        Spec::ERef(0, "r"),
        Spec::Comment(0, "a"),
    ];
    let all: Vec<Id> = (0..6).collect();
    let ops = tree_ops(&all, &all);
    let w = World::new("changing-tree", spec, vec![], move |_| ops.clone());
    explore(ctx, &w, &plan(ctx.pick(4, usize::MAX)));
    let few = |m: &Model, r: &Real| queries(m, r, &["a", "p:a", "*", "z"], &["u", "v", "*"], &["a", "*"]);
    let turns = Plan { view: Some(&few), ..plan(1) }.turns(ctx.pick(3, 5));
    explore(ctx, &w, &turns);
    odd_names(ctx, &Plan { view: Some(&few), ..plan(ctx.pick(1, 2)) }, false);
    again(ctx, &w, &Plan { view: Some(&few), ..plan(1) }, 1, 2, 300);
    // documents with nodes before and after the element; long lists; long chains
    for n in 0..ctx.pick(6, 12) {
        for root in 0..=n {
            explore(ctx, &wide_document(n, Some(root)), &plan(1));
        }
    }
    for n in 0..ctx.pick(20, 60) {
        for w in [wide(n), chain(n)] {
            ctx.par(1, |th, _| {
                case(th, format_args!("shape {}", w.name), |_| {
                    let m = w.model();
                    let r = w.real(&[])?;
                    let mut names: Vec<S> = (0..n).map(|i| intern(&format!("e{}", i))).collect();
                    names.extend(["*", "p"]);
                    queries(&m, &r, &names, &["*", "u"], &["*", "e0"])
                });
            });
        }
    }
    let large: Vec<World> = lengths(ctx).iter().flat_map(|n| [broad(*n), deep(*n)]).collect();
    ctx.par(large.len() as u64, |th, i| {
        let w = &large[i as usize];
        case(th, format_args!("shape {}", w.name), |_| {
            let m = w.model();
            let r = w.real(&[])?;
            let n = m.nodes.len();
            let mut names: Vec<S> = marks(n).iter().map(|i| intern(&format!("e{}", i))).collect();
            names.extend(["*", "p"]);
            queries(&m, &r, &names, &["*", "u"], &["*", "e0"])
        });
    });
    // long names that differ in one place
    let sizes = long_sizes(ctx, 65_536);
    ctx.note(format!("names of 0 to 65536 letters ({} sizes) that differ in one place, as tag, prefix, local name and namespace", sizes.len()));
    ctx.par(sizes.len() as u64, |th, i| {
        let n = sizes[i as usize];
        case(th, format_args!("names of {} letters", n), |th| {
            let many = "n".repeat(n);
            let names: Vec<S> = [
                format!("{many}a"),
                format!("{many}b"),
                format!("a{many}"),
                format!("a{many}a"),
                format!("{many}a{many}"),
                format!("{many}b{many}"),
                format!("{many}é"),
                format!("{many}A"),
                format!("n{many}"),
            ]
            .iter()
            .map(|n| intern(n))
            .collect();
            let mut spec = vec![Spec::Doc(0, None), Spec::El(0, "root")];
            for n in &names {
                spec.push(Spec::El(0, n));
                spec.push(Spec::ElNs(0, "u", intern(&format!("p:{n}"))));
                spec.push(Spec::ElNs(0, n, n));
                spec.push(Spec::ElNs(0, "u", intern(&format!("{n}:a"))));
            }
            let mut p = Pair::new(&spec)?;
            p.step(Op::Append(0, 1))?;
            for k in 2..spec.len() {
                p.step(Op::Append(if k % 3 == 0 { k - 1 } else { 1 }, k))?;
            }
            let mut tags = names.clone();
            tags.extend(names[..2].iter().map(|n| intern(&format!("p:{n}"))));
            tags.push(intern(&format!("{}:a", names[0])));
            let mut all = names.clone();
            all.extend(["*", "u", "a"]);
            th.transitions += 1;
            queries(&p.m, &p.r, &tags, &all, &all)
        });
    });
    // every element of the same name, in a list, a chain, and a chain of lists
    for n in (0..ctx.pick(20, 60)).chain(lengths(ctx).iter().copied()) {
        ctx.par(3, |th, shape| {
            case(th, format_args!("alike {} shape {}", n, shape), |_| {
                let mut spec = vec![Spec::Doc(0, None), Spec::El(0, "a")];
                let mut ops = vec![Op::Append(0, 1)];
                for i in 0..n {
                    spec.push(if i % 2 == 0 { Spec::El(0, "a") } else { Spec::ElNs(0, "u", "p:a") });
                    ops.push(Op::Append(
                        match shape {
                            0 => 1,
                            1 => i + 1,
                            _ => i / 2 + 1,
                        },
                        i + 2,
                    ));
                }
                let mut p = Pair::new(&spec)?;
                p.steps(&ops)?;
                queries(&p.m, &p.r, &["a", "p:a", "*"], &["*", "u"], &["*", "a"])
            });
        });
    }
    super::lists::long_answers(ctx);
}

// ------------------------------------------------------------------------------------------------
// P10

fn clone_world(name: &str, spec: Vec<Spec>, init: Vec<Op>, max: usize) -> World {
    World::new(name, spec, init, |m: &Model| {
        let mut ops = vec![];
        let live: Vec<Id> = m.live().collect();
        for &i in &live {
            let n = m.n(i);
            if n.k != K::Document {
                ops.push(Op::Clone(i, true));
                if n.k != K::Attribute {
                    ops.push(Op::Clone(i, false));
                }
            }
            match n.k {
                K::Element => {
                    ops.push(Op::SetAttr(i, "k", "changed"));
                    ops.push(Op::SetAttr(i, "l", "new"));
                    ops.push(Op::RemAttr(i, "k"));
                    ops.push(Op::Normalize(i));
                }
                K::Attribute => {
                    ops.push(Op::SetVal(i, "changed"));
                    ops.push(Op::UnsetVal(i));
                    for &e in &live {
                        if m.n(e).k == K::Element {
                            ops.push(Op::SetAttrNode(e, i));
                            ops.push(Op::RemAttrNode(e, i));
                        }
                    }
                }
                k if has_value(k) => {
                    ops.push(Op::SetNV(i, "changed"));
                    ops.push(Op::UnsetNV(i));
                    if is_chardata(k) {
                        ops.push(Op::AppendData(i, "+"));
                        ops.push(Op::DeleteData(i, 0, 1));
                    }
                    if k == K::Text {
                        ops.push(Op::Split(i, 1));
                    }
                }
                _ => (),
            }
            if let Some(p) = n.parent {
                ops.push(Op::Remove(p, i));
            }
            for &p in &live {
                if allowed(m.n(p).k, n.k) && p != i {
                    ops.push(Op::Append(p, i));
                }
            }
        }
        ops
    })
    .max(max)
}

/// A tree with a node of every type that can be in one.
fn rich(d: Id, base: Id) -> (Vec<Spec>, Vec<Op>) {
    // ids from base: 0 element, 1 its attribute's text, 2 attribute, 3 text, 4 cdata, 5 comment,
    // 6 instruction, 7 entity reference, 8 inner element, 9 inner attribute's text, 10 attribute
    let spec = vec![
        Spec::ElNs(d, "u", "p:a"),
        Spec::AtWith(d, "k", "v&amp;w"),
        Spec::Text(d, "t<"),
        Spec::CData(d, "d"),
        Spec::Comment(d, "m"),
        Spec::PI(d, "i", Some("x")),
        Spec::ERef(d, "r"),
        Spec::El(d, "b"),
        Spec::AtWith(d, "k", "z"),
    ];
    let b = base;
    let ops = vec![
        Op::SetAttrNode(b, b + 2),
        Op::Append(b, b + 3),
        Op::Append(b, b + 4),
        Op::Append(b, b + 5),
        Op::Append(b, b + 6),
        Op::Append(b, b + 7),
        Op::Append(b + 7, b + 8),
        Op::SetAttrNode(b + 8, b + 10),
    ];
    (spec, ops)
}

pub fn p10(ctx: &Ctx) {
    let plan = |depth: usize| Plan {
        depth,
        mask: ALL,
        ..Plan::default()
    };
    // one node of every type, alone
    let spec = vec![
        Spec::DocType("dt", Some("P"), Some("S")),
        Spec::Doc(0, Some(0)),
        Spec::El(1, "a"),
        Spec::At(1, "k"),
        Spec::Text(1, "t"),
        Spec::CData(1, "d"),
        Spec::ERef(1, "r"),
        Spec::Entity(1, "e", Some("P"), Some("S")),
        Spec::IntEntity(1, "f", "val"),
        Spec::PI(1, "p", Some("q")),
        Spec::PI(1, "p", None),
        Spec::Comment(1, "m"),
        Spec::Frag(1),
        Spec::Notation(1, "n", Some("P"), Some("S")),
    ];
    explore(ctx, &clone_world("every-type", spec, vec![], 17), &plan(3));
    // an element with an attribute and text
    let spec = vec![
        Spec::Doc(0, None),
        Spec::El(0, "a"),
        Spec::AtWith(0, "k", "v"),
        Spec::Text(0, "ty"),
    ];
    let init = vec![Op::SetAttrNode(1, 3), Op::Append(1, 4)];
    explore(ctx, &clone_world("element-with-attribute", spec.clone(), init.clone(), 12), &plan(4));
    let mut init2 = init.clone();
    init2.insert(0, Op::Append(0, 1));
    explore(ctx, &clone_world("in-document", spec.clone(), init2, 12), &plan(4));
    explore(ctx, &clone_world("element-with-attribute", spec, init, 12), &plan(1).turns(ctx.pick(2, 3)));
    // a rich subtree: clone, then every single change
    let (s, ops) = rich(0, 1);
    let mut spec = vec![Spec::Doc(OPT_NS, None)];
    spec.extend(s);
    explore(ctx, &clone_world("rich", spec.clone(), ops.clone(), 24), &plan(2));
    again(ctx, &clone_world("rich", spec.clone(), ops.clone(), 24), &plan(1), 0, 2, 300);
    odd_names(ctx, &plan(2), true);
    // containers that are not elements
    let spec = vec![
        Spec::Doc(0, None),
        Spec::Frag(0),
        Spec::Entity(0, "e", None, Some("S")),
        Spec::ERef(0, "r"),
        Spec::Text(0, "t"),
        Spec::El(0, "a"),
        Spec::At(0, "k"),
        Spec::Text(0, "u"),
    ];
    let init = vec![
        Op::Append(1, 3),
        Op::Append(3, 4),
        Op::Append(2, 5),
        Op::Append(6, 7),
        Op::SetAttrNode(5, 6),
    ];
    explore(ctx, &clone_world("containers", spec, init, 14), &plan(3));
    // every tree of a few nodes: clone each of its nodes
    let labels = 6u8;
    for n in 1..=ctx.pick(4, 5) {
        let holds = [true, true, false, false, true, false];
        let all = forests(n, &holds);
        ctx.note(format!("{} trees of {} nodes, {} labels, every node cloned both ways", all.len(), n, labels));
        ctx.par(all.len() as u64, |th, i| {
            let f = &all[i as usize];
            case(th, format_args!("tree n={} [{}]", n, show(f)), |th| {
                let mut spec = vec![Spec::Doc(0, None), Spec::El(0, "r")];
                let mut ops = vec![Op::Append(0, 1)];
                let mut len = 2;
                place(f, 1, &mut spec, &mut len, &mut ops, &|l, i| match l {
                    0 | 1 => Spec::ElNs(0, "u", if i % 2 == 0 { "a" } else { "p:b" }),
                    2 => Spec::Text(0, ["t", "", " ", "\n<\u{e9}"][i % 4]),
                    3 => Spec::CData(0, "d"),
                    4 => Spec::ERef(0, "r"),
                    _ => Spec::PI(0, "p", None),
                });
                for (i, (_, l)) in f.iter().enumerate() {
                    if *l == 1 {
                        ops.push(Op::SetAttr(2 + i, "k", "v"));
                        ops.push(Op::SetAttrNs(2 + i, "u", "p:l", "&lt;w"));
                    }
                }
                let mut p = Pair::new(&spec)?;
                p.steps(&ops)?;
                for i in 1..2 + n {
                    for deep in [true, false] {
                        p.step(Op::Clone(i, deep))?;
                        th.transitions += 1;
                    }
                }
                p.compare(ALL)
            });
        });
    }
    // wide and deep
    for n in (0..ctx.pick(20, 60)).chain(lengths(ctx).iter().copied()) {
        for w in [wide(n), chain(n)] {
            ctx.par(1, |th, _| {
                case(th, format_args!("clone of {}", w.name), |_| {
                    let mut p = Pair::new(&w.spec)?;
                    p.steps(&w.init)?;
                    let first = if w.name.starts_with("wide") { 1 } else { 3 };
                    if first < p.m.nodes.len() {
                        p.step(Op::Clone(first, true))?;
                        p.step(Op::Clone(first, false))?;
                    }
                    p.compare(ALL)
                });
            });
        }
    }
    for n in (0..ctx.pick(24, 60)).chain(lengths(ctx).iter().copied()) {
        ctx.par(1, |th, _| {
            case(th, format_args!("clone with {} attributes", n), |_| {
                let mut p = Pair::new(&[Spec::Doc(0, None), Spec::El(0, "a")])?;
                for i in 0..n {
                    let name = intern(&format!("n{}", i));
                    if i % 2 == 0 {
                        p.step(Op::SetAttr(1, name, "v"))?;
                    } else {
                        p.step(Op::SetAttrNs(1, "u", name, "w"))?;
                    }
                }
                p.step(Op::Clone(1, true))?;
                p.step(Op::Clone(1, false))?;
                p.compare(ALL)
            });
        });
    }
    let longs = Longs {
        fills: &["x", "é", " "],
        marks: &["&amp;", "<", "\n", "😀"],
        sizes: long_sizes(ctx, 65_536),
    };
    ctx.note(format!("{} in every node that holds text, cloned", longs.describe()));
    ctx.par(longs.count(), |th, i| {
        let (v, n, fill, mark, shape) = longs.get(i);
        case(th, format_args!("clones of {:?} x {} with {:?} ({})", fill, n, mark, shape), |th| {
            let v = intern(&v);
            let spec = [
                Spec::Doc(0, None),
                Spec::El(0, "a"),
                Spec::Text(0, v),
                Spec::CData(0, v),
                Spec::Comment(0, v),
                Spec::PI(0, "p", Some(v)),
                Spec::AtWith(0, "k", v),
            ];
            let mut p = Pair::new(&spec)?;
            for k in 2..=5 {
                p.step(Op::Append(1, k))?;
            }
            p.step(Op::SetAttrNode(1, 6))?;
            p.step(Op::SetAttrNs(1, "u", "p:l", v))?;
            p.step(Op::Clone(1, true))?;
            p.compare(ALL)?;
            for k in 1..=5 {
                p.step(Op::Clone(k, false))?;
                th.transitions += 1;
            }
            p.compare(ALL)
        });
    });
    documents(ctx);
    shallow_attributes(ctx);
    super::lists::long_clones(ctx);
}

/// A clone of a document made with namespace support makes elements that have it, and IDs by the
/// strict rule.
fn options_of(d: &RefNode) -> R {
    let fail = |e: Error| format!("refused: {:?}", e);
    let mut d = d.clone();
    let mut e = d.create_element("e").map_err(fail)?;
    e.set_attribute_ns(XMLNS, "xmlns:p", "u").map_err(fail)?;
    e.set_attribute("id", "w").map_err(fail)?;
    e.set_attribute("xml:id", "v").map_err(fail)?;
    let el = as_element_namespaced(&e).map_err(fail)?;
    same("mapping in an element made by the clone", el.get_namespace(Some("p")), Some("u".to_string()))?;
    if d.document_element().is_none() {
        d.append_child(e.clone()).map_err(fail)?;
        same("element by id", d.get_element_by_id("v") == Some(e.clone()), true)?;
        same("element by an attribute that is no ID", d.get_element_by_id("w").is_none(), true)?;
        d.remove_child(e).map_err(fail)?;
    }
    Ok(())
}

/// A document's clone: structure only, the document its nodes belong to is not claimed.
fn documents(ctx: &Ctx) {
    fn alike(a: &RefNode, b: &RefNode, top: bool) -> R {
        if a == b {
            return Err(format!("{} is shared", a.node_name()));
        }
        same("type", kind(b), kind(a))?;
        same("name", b.node_name(), a.node_name())?;
        same("value", b.node_value(), a.node_value())?;
        if kind(a) == K::Attribute {
            same("attribute value", b.value(), a.value())?;
        }
        let (x, y) = (a.attributes(), b.attributes());
        same("number of attributes", y.len(), x.len())?;
        for (n, v) in x {
            let w = y.get(&n).ok_or_else(|| format!("attribute {} is missing", n))?;
            alike(&v, w, true)?;
        }
        let (x, y) = (a.child_nodes(), b.child_nodes());
        same("number of children", y.len(), x.len())?;
        for (v, w) in x.iter().zip(&y) {
            same("parent", w.parent_node().as_ref(), Some(b))?;
            alike(v, w, false)?;
        }
        if top {
            same("parent", b.parent_node(), None)?;
        }
        Ok(())
    }
    let shown = |d: &RefNode| d.xml_declaration().map(|d| d.to_string());
    for n in 0..=ctx.pick(3, 4) {
        // a document's children: comments, instructions and the element, then what is in it
        let tops: Vec<Vec<u8>> = (0..3usize.pow(n as u32))
            .map(|i| (0..n).map(|j| (i / 3usize.pow(j as u32) % 3) as u8).collect())
            .filter(|v: &Vec<u8>| v.iter().filter(|x| **x == 2).count() <= 1)
            .collect();
        ctx.par(tops.len() as u64 * 6, |th, i| {
            let (t, decl, typed) = (&tops[i as usize / 6], i as usize % 3, i / 3 % 2 == 0);
            let decl = [
                None,
                Some(XmlDecl::new(XmlVersion::V10, None, None)),
                Some(XmlDecl::new(XmlVersion::V11, Some("ASCII".to_string()), Some(true))),
            ][decl]
                .clone();
            case(th, format_args!("document {:?} declaration={:?} typed={}", t, decl, typed), |th| {
                let doctype = Spec::DocType("a", Some("P"), None);
                let mut spec = vec![doctype, Spec::Doc(OPT_NS, if typed { Some(0) } else { None })];
                let mut ops = vec![];
                let mut len = 2;
                for x in t {
                    if *x < 2 {
                        spec.push(if *x == 0 { Spec::Comment(1, "c") } else { Spec::PI(1, "p", Some("d")) });
                        ops.push(Op::Append(1, len));
                        len += 1;
                    } else {
                        let (s, o) = rich(1, len);
                        ops.push(Op::Append(1, len));
                        spec.extend(s);
                        ops.extend(o);
                        len += 11;
                    }
                }
                let mut p = Pair::new(&spec)?;
                p.steps(&ops)?;
                let mut d = p.r.m(1);
                let fail = |e: Error| format!("refused: {:?}", e);
                if let Some(decl) = &decl {
                    d.set_xml_declaration(decl.clone()).map_err(fail)?;
                }
                let deep = d.clone_node(true).ok_or("no clone")?;
                let mut flat = d.clone_node(false).ok_or("no clone")?;
                p.compare(ALL)?;
                for (c, which) in [(&d, "original"), (&deep, "deep clone"), (&flat, "shallow clone")] {
                    same(format!("declaration of the {}", which), shown(c), decl.as_ref().map(XmlDecl::to_string))?;
                    let doctype = c.doc_type().map(|t| t.to_string());
                    let want = typed.then(|| "<!DOCTYPE a PUBLIC \"P\">".to_string());
                    same(format!("document type of the {}", which), doctype, want)?;
                }
                same("written clone", deep.to_string(), d.to_string())?;
                alike(&d, &deep, true)?;
                same("document element", deep.document_element().is_some(), t.contains(&2))?;
                same("type of the shallow clone", kind(&flat), K::Document)?;
                same("name of the shallow clone", flat.node_name(), d.node_name())?;
                same("children of the shallow clone", flat.child_nodes().len(), 0)?;
                same("parent of the shallow clone", flat.parent_node(), None)?;
                for c in [&deep, &flat] {
                    options_of(c)?;
                }
                // changes of the declaration of either
                let written = (deep.to_string(), flat.to_string());
                d.set_xml_declaration(XmlDecl::new(XmlVersion::V10, None, Some(false))).map_err(fail)?;
                same("clones after the declaration was changed", (deep.to_string(), flat.to_string()), written)?;
                flat.set_xml_declaration(XmlDecl::new(XmlVersion::V11, None, None)).map_err(fail)?;
                same("declaration", shown(&d), Some("<?xml version=\"1.0\" standalone=\"no\"?>".to_string()))?;
                same("declaration of the deep clone", shown(&deep), decl.as_ref().map(XmlDecl::to_string))?;
                // changes of the original
                let written = deep.to_string();
                let mut other = p.r.clone();
                for n in other.nodes.iter_mut().flatten() {
                    match kind(n) {
                        // one attribute each: the order of several is not defined
                        K::Element | K::Document | K::DocType => (),
                        K::Attribute => n.set_value("other").map_err(fail)?,
                        _ => n.set_node_value("other").map_err(fail)?,
                    }
                    same("the clone after a change of the original", deep.to_string(), written.clone())?;
                }
                // changes of the clone
                let written = d.to_string();
                let mut below = vec![deep.clone()];
                let mut at = 0;
                while at < below.len() {
                    let more: Vec<RefNode> = below[at].child_nodes();
                    below.extend(more);
                    let more: Vec<RefNode> = below[at].attributes().into_values().collect();
                    below.extend(more);
                    at += 1;
                }
                for c in below {
                    let mut c = c;
                    match kind(&c) {
                        K::Element => {
                            c.remove_attribute("k").map_err(|e| format!("{:?}", e))?;
                        }
                        K::Document => (),
                        _ => c.set_node_value("changed").map_err(|e| format!("{:?}", e))?,
                    }
                }
                let mut deep = deep;
                for c in deep.child_nodes() {
                    deep.remove_child(c).map_err(|e| format!("{:?}", e))?;
                }
                same("the original after changes of the clone", d.to_string(), written)?;
                th.transitions += 3;
                Ok(())
            });
        });
    }
}

/// A shallow clone of an attribute: what it holds is not claimed, but it shares nothing.
pub fn shallow_attributes(ctx: &Ctx) {
    // what can be in an attribute: text, without data too, and references
    let mut contents: Vec<Vec<u8>> = vec![vec![]];
    let mut at = 0;
    while at < contents.len() {
        for l in 0..5 {
            if contents[at].len() < 3 {
                contents.push([&contents[at][..], &[l]].concat());
            }
        }
        at += 1;
    }
    ctx.note(format!("shallow clones of attributes with up to 3 texts and references in them, {} contents", contents.len()));
    ctx.par(contents.len() as u64 * 2, |th, i| {
        let v = &contents[i as usize / 2];
        let owned = i % 2 == 1;
        case(th, format_args!("shallow clone of an attribute {:?} owned={}", v, owned), |th| {
            let mut spec = vec![Spec::Doc(0, None), Spec::El(0, "a"), Spec::AtNs(0, "u", "p:k")];
            let mut ops = vec![];
            for l in v {
                let n = spec.len();
                spec.push(match l {
                    0 => Spec::Text(0, "v"),
                    1 => Spec::Text(0, ""),
                    2 => Spec::Text(0, "a&amp;b"),
                    _ => Spec::ERef(0, "r"),
                });
                ops.push(Op::Append(2, n));
                match l {
                    1 => ops.push(Op::UnsetNV(n)),
                    4 => {
                        spec.push(Spec::Text(0, "in"));
                        ops.push(Op::Append(n, n + 1));
                    }
                    _ => (),
                }
            }
            let mut p = Pair::new(&spec)?;
            p.steps(&ops)?;
            if owned {
                p.step(Op::SetAttrNode(1, 2))?;
            }
            let a = p.r.m(2);
            let mut c = a.clone_node(false).ok_or("no clone")?;
            p.compare(ALL)?;
            same("type", kind(&c), K::Attribute)?;
            same("name", c.node_name(), a.node_name())?;
            same("parent", c.parent_node(), None)?;
            same("owner", c.owner_element(), None)?;
            same("owner document", c.owner_document().as_ref(), Some(p.r.g(0)))?;
            for k in c.child_nodes() {
                if p.r.id(&k).is_some() || k.child_nodes().iter().any(|k| p.r.id(k).is_some()) {
                    return Err("a child is shared".into());
                }
            }
            c.set_value("changed").map_err(|e| format!("{:?}", e))?;
            p.compare(ALL)?;
            th.transitions += 1;
            Ok(())
        });
    });
}

// ------------------------------------------------------------------------------------------------
// P11

/// No empty and no two adjacent text nodes anywhere below.
fn normal(n: &RefNode) -> R {
    let mut before = false;
    for c in n.child_nodes() {
        let text = kind(&c) == K::Text;
        if text && c.node_value().unwrap_or_default().is_empty() {
            return Err(format!("an empty text node is left below {}", n.node_name()));
        }
        if text && before {
            return Err(format!("adjacent text nodes are left below {}", n.node_name()));
        }
        before = text;
        normal(&c)?;
    }
    for a in n.attributes().values() {
        normal(a)?;
    }
    Ok(())
}

/// The items of a list of children; `None` ends up as a text node without data.
fn piece(l: u8) -> Spec {
    match l {
        0 => Spec::Text(0, "a"),
        1 => Spec::Text(0, ""),
        2 => Spec::Text(0, "<\u{e9} "),
        3 => Spec::El(0, "e"),
        4 => Spec::CData(0, "d"),
        5 => Spec::Comment(0, "m"),
        6 => Spec::ERef(0, "r"),
        7 => Spec::Text(0, "unset"),
        8 => Spec::CData(0, ""),
        9 => Spec::PI(0, "p", None),
        11 => Spec::Text(0, " \n"),
        _ => Spec::Comment(0, ""),
    }
}

fn normalize_case(th: &mut Th<'_>, container: &str, labels: &[u8], f: &Forest, attribute: &[u8]) {
    case(
        th,
        format_args!("below {} labels={:?} [{}] attribute={:?}", container, labels, show(f), attribute),
        |th| {
            let mut spec = vec![Spec::Doc(0, None)];
            spec.push(match container {
                "element" => Spec::El(0, "x"),
                "attribute" => Spec::At(0, "x"),
                "reference" => Spec::ERef(0, "x"),
                "fragment" => Spec::Frag(0),
                "entity" => Spec::Entity(0, "x", None, Some("S")),
                _ => Spec::El(0, "x"),
            });
            let mut len = 2;
            let mut ops = vec![];
            let ids = place(f, 1, &mut spec, &mut len, &mut ops, &|l, _| piece(labels[l as usize]));
            for (id, (_, l)) in ids.iter().zip(f) {
                if labels[*l as usize] == 7 {
                    ops.push(Op::UnsetData(*id));
                }
            }
            if !attribute.is_empty() {
                spec.push(Spec::At(0, "k"));
                let a = len;
                len += 1;
                for l in attribute {
                    spec.push(piece(*l));
                    ops.push(Op::Append(a, len));
                    if *l == 7 {
                        ops.push(Op::UnsetData(len));
                    }
                    len += 1;
                }
                // on the last element of the tree
                let mut e = 1;
                for (id, (_, l)) in ids.iter().zip(f) {
                    if labels[*l as usize] == 3 {
                        e = *id;
                    }
                }
                ops.push(Op::SetAttrNode(e, a));
            }
            let top = if container == "document" {
                ops.push(Op::Append(0, 1));
                0
            } else {
                1
            };
            let mut p = Pair::new(&spec)?;
            p.steps(&ops)?;
            for _ in 0..2 {
                p.step(Op::Normalize(top))?;
                p.compare(ALL)?;
                th.transitions += 1;
                normal(p.r.g(top))?;
            }
            Ok(())
        },
    );
}

pub fn p11(ctx: &Ctx) {
    // lists of children
    let lists: &[(&str, usize, &[u8])] = ctx.pick(
        &[
            ("element", 6, &[0, 1, 2, 3, 4]),
            ("element", 4, &[0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11]),
            ("attribute", 6, &[0, 1, 2, 6, 7, 11]),
            ("document", 5, &[0, 1, 2, 4]),
            ("reference", 5, &[0, 1, 2, 5]),
            ("fragment", 5, &[0, 1, 2, 5]),
            ("entity", 5, &[0, 1, 2, 5]),
        ],
        &[
            ("element", 8, &[0, 1, 2, 4]),
            ("element", 6, &[0, 1, 2, 3, 4, 5, 7]),
            ("element", 5, &[0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11]),
            ("attribute", 7, &[0, 1, 2, 6, 7]),
            ("document", 6, &[0, 1, 2, 4, 7]),
            ("reference", 6, &[0, 1, 2, 5]),
            ("fragment", 6, &[0, 1, 2, 5]),
            ("entity", 6, &[0, 1, 2, 5]),
        ],
    );
    for (container, max, labels) in lists {
        for n in 0..=*max {
            let count = (labels.len() as u64).pow(n as u32);
            ctx.par(count, |th, i| {
                let mut i = i;
                let f: Forest = (0..n)
                    .map(|_| {
                        let l = i % labels.len() as u64;
                        i /= labels.len() as u64;
                        (0, l as u8)
                    })
                    .collect();
                normalize_case(th, container, labels, &f, &[]);
            });
        }
        ctx.note(format!(
            "every list of up to {} children over {} kinds of node below {}, normalized twice",
            max,
            labels.len(),
            container
        ));
    }
    // nested, with attributes holding text
    let labels: &[u8] = &[0, 1, 3, 6];
    for n in 1..=ctx.pick(5, 6) {
        let all = forests(n, &[false, false, true, true]);
        ctx.note(format!("{} trees of {} nodes, normalized twice", all.len(), n));
        let attributes: &[&[u8]] = &[&[], &[0, 0], &[1, 0, 1, 2]];
        ctx.par(all.len() as u64 * 3, |th, i| {
            let f = &all[i as usize / 3];
            normalize_case(th, "element", labels, f, attributes[i as usize % 3]);
        });
    }
    // long runs
    for n in (0..ctx.pick(40, 130)).chain(lengths(ctx).iter().copied()) {
        for pattern in 0..4u8 {
            ctx.par(1, |th, _| {
                let f: Forest = (0..n)
                    .map(|i| {
                        (0, match pattern {
                            0 => 0,
                            1 => (i % 2) as u8,
                            2 => [0, 0, 1, 3, 1, 2][i % 6],
                            _ => [1, 1, 2][i % 3],
                        })
                    })
                    .collect();
                normalize_case(th, "element", &[0, 1, 2, 3], &f, &[]);
            });
        }
    }
    // deep
    for n in (0..ctx.pick(20, 60)).chain(lengths(ctx).iter().copied()) {
        ctx.par(1, |th, _| {
            let n = n as u16;
            let mut f: Forest = (0..n).map(|i| (i, 1)).collect();
            f.push((n, 0));
            f.push((n, 0));
            f.push((n, 2));
            if n > 0 {
                f.push((n - 1, 0));
                f.push((n - 1, 0));
            }
            normalize_case(th, "element", &[0, 3, 1], &f, &[0, 2]);
        });
    }
    let longs = Longs {
        fills: &["x", "é", " "],
        marks: &["&", "<", "\n", "😀", "a"],
        sizes: long_sizes(ctx, 65_536),
    };
    ctx.note(format!("{} among other text nodes, below an element and an attribute", longs.describe()));
    ctx.par(longs.count(), |th, i| {
        let (v, n, fill, mark, shape) = longs.get(i);
        case(th, format_args!("merging {:?} x {} with {:?} ({})", fill, n, mark, shape), |th| {
            let v = intern(&v);
            for order in [&["long", "", "b"], &["a", "long", ""], &["", "c", "long"], &["long", "long", "d"]] {
                let mut spec = vec![Spec::Doc(0, None), Spec::El(0, "e"), Spec::At(0, "k")];
                let mut ops = vec![Op::SetAttrNode(1, 2)];
                for parent in [1, 2] {
                    for t in order {
                        ops.push(Op::Append(parent, spec.len()));
                        spec.push(Spec::Text(0, if *t == "long" { v } else { t }));
                    }
                }
                let mut p = Pair::new(&spec)?;
                p.steps(&ops)?;
                p.step(Op::Normalize(1))?;
                p.compare(ALL)?;
                normal(p.r.g(1))?;
                th.transitions += 1;
            }
            Ok(())
        });
    });
    // among other edits
    let texts = |s: &Step<'_>| -> R {
        match s.op {
            Op::Normalize(n) => normal(s.real.g(n)),
            _ => Ok(()),
        }
    };
    let plan = |depth: usize| Plan {
        depth,
        mask: ALL,
        hook: Some(&texts),
        failures: false,
        ..Plan::default()
    };
    explore(ctx, &text_edits(), &plan(ctx.pick(5, 6)));
    explore(ctx, &text_edits(), &plan(1).turns(ctx.pick(2, 3)));
    odd_names(ctx, &plan(2), true);
    again(ctx, &text_edits(), &plan(1), 1, 2, 300);
}
