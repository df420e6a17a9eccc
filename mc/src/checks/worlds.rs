//! The small worlds the explorations start from.

use crate::ctx::*;
use crate::explore::*;
use crate::model::*;
use crate::real::{spec_model, Spec};

/// Every append / insert-before / replace / remove among the given parents and nodes.
pub fn tree_ops(parents: &[Id], nodes: &[Id]) -> Vec<Op> {
    let mut ops = vec![];
    for &p in parents {
        for &c in nodes {
            ops.push(Op::Append(p, c));
        }
        for &c in nodes {
            ops.push(Op::Remove(p, c));
        }
        for &c in nodes {
            for &r in nodes {
                ops.push(Op::Insert(p, c, Some(r)));
                ops.push(Op::Replace(p, c, r));
            }
        }
    }
    ops
}

fn tree_world(name: &str, spec: Vec<Spec>, init: Vec<Op>) -> World {
    let all: Vec<Id> = (0..spec_len(&spec)).collect();
    let ops = tree_ops(&all, &all);
    World::new(name, spec, init, move |_| ops.clone())
}
pub fn spec_len(spec: &[Spec]) -> usize {
    spec.iter()
        .map(|s| if matches!(s, Spec::AtWith(..) | Spec::DocBy(_, Some(_))) { 2 } else { 1 })
        .sum()
}

/// One document, `n` elements.
pub fn elements(n: usize) -> World {
    let names = ["a", "b", "c", "d", "e"];
    let mut spec = vec![Spec::Doc(0, None)];
    for name in names.iter().take(n) {
        spec.push(Spec::El(0, name));
    }
    tree_world(&format!("elements{}", n), spec, vec![])
}

/// One document, elements and leaves.
pub fn mixed(elements: usize, leaves: usize) -> World {
    let names = ["a", "b", "c", "d", "e"];
    let mut spec = vec![Spec::Doc(0, None)];
    for name in names.iter().take(elements) {
        spec.push(Spec::El(0, name));
    }
    let l = [
        Spec::Text(0, "t"),
        Spec::Comment(0, "m"),
        Spec::CData(0, "d"),
        Spec::PI(0, "p", Some("q")),
    ];
    spec.extend(l.iter().take(leaves));
    tree_world(&format!("mixed{}+{}", elements, leaves), spec, vec![])
}

/// What a document can hold, and what it cannot.
pub fn document_level() -> World {
    let spec = vec![
        Spec::Doc(0, None),
        Spec::El(0, "a"),
        Spec::El(0, "b"),
        Spec::Comment(0, "m"),
        Spec::PI(0, "p", None),
        Spec::Text(0, "t"),
    ];
    tree_world("document-level", spec, vec![])
}

/// Two documents with elements and leaves of both.
pub fn two_documents() -> World {
    let spec = vec![
        Spec::Doc(0, None),
        Spec::Doc(0, None),
        Spec::El(0, "a"),
        Spec::El(0, "b"),
        Spec::Text(0, "t"),
        Spec::El(1, "x"),
        Spec::Text(1, "y"),
    ];
    tree_world("two-documents", spec, vec![])
}
pub fn two_documents_small() -> World {
    let spec = vec![
        Spec::Doc(0, None),
        Spec::Doc(0, None),
        Spec::El(0, "a"),
        Spec::Text(0, "t"),
        Spec::El(1, "x"),
        Spec::Text(1, "y"),
    ];
    tree_world("two-documents-small", spec, vec![])
}

/// One node of every type.
pub fn all_types() -> World {
    let spec = vec![
        Spec::DocType("dt", Some("P"), Some("S")),
        Spec::Doc(0, Some(0)),
        Spec::El(1, "a"),
        Spec::El(1, "b"),
        Spec::At(1, "k"),
        Spec::Text(1, "t"),
        Spec::CData(1, "d"),
        Spec::ERef(1, "r"),
        Spec::Entity(1, "e", None, Some("S")),
        Spec::PI(1, "p", Some("q")),
        Spec::Comment(1, "m"),
        Spec::Frag(1),
        Spec::Notation(1, "n", Some("P"), None),
    ];
    tree_world("all-types", spec, vec![])
}

/// One node of every type in each of two documents.
pub fn all_types_two() -> World {
    let mut spec = vec![
        Spec::DocType("dt", None, None),
        Spec::DocType("du", None, None),
        Spec::Doc(0, Some(0)),
        Spec::Doc(0, Some(1)),
    ];
    for d in [2, 3] {
        spec.extend([
            Spec::El(d, "a"),
            Spec::At(d, "k"),
            Spec::Text(d, "t"),
            Spec::CData(d, "d"),
            Spec::ERef(d, "r"),
            Spec::Entity(d, "e", None, Some("S")),
            Spec::PI(d, "p", Some("q")),
            Spec::Comment(d, "m"),
            Spec::Frag(d),
            Spec::Notation(d, "n", Some("P"), None),
        ]);
    }
    tree_world("all-types-two-documents", spec, vec![])
}

/// Containers other than elements: fragment, entity, entity reference, attribute.
pub fn containers() -> World {
    let spec = vec![
        Spec::Doc(0, None),
        Spec::El(0, "a"),
        Spec::At(0, "k"),
        Spec::ERef(0, "r"),
        Spec::Entity(0, "e", None, Some("S")),
        Spec::Frag(0),
        Spec::Text(0, "t"),
    ];
    tree_world("containers", spec, vec![])
}

/// An element owning an attribute that holds text and entity references.
pub fn attribute_children() -> World {
    let spec = vec![
        Spec::Doc(0, None),
        Spec::El(0, "a"),
        Spec::At(0, "k"),
        Spec::Text(0, "s"),
        Spec::Text(0, "t"),
        Spec::ERef(0, "r"),
    ];
    let mut ops = tree_ops(&[1, 2, 5], &[1, 2, 3, 4, 5]);
    ops.extend([
        Op::SetAttrNode(1, 2),
        Op::RemAttrNode(1, 2),
        Op::SetAttr(1, "k", "v"),
        Op::RemAttr(1, "k"),
        Op::SetVal(2, "w"),
        Op::UnsetVal(2),
    ]);
    World::new("attribute-children", spec, vec![], move |_| ops.clone())
}

/// Text editing among tree edits.
pub fn text_edits() -> World {
    let spec = vec![
        Spec::Doc(0, None),
        Spec::El(0, "a"),
        Spec::El(0, "b"),
        Spec::Text(0, "xy"),
        Spec::CData(0, "z"),
        Spec::AtWith(0, "k", "uv"),
    ];
    // ids: 0 doc, 1 a, 2 b, 3 text, 4 cdata, 5 attribute's text, 6 attribute
    World::new("text-edits", spec, vec![], move |m: &Model| {
        let mut ops = vec![
            Op::Append(1, 2),
            Op::SetAttrNode(1, 6),
            Op::SetAttrNode(2, 6),
            Op::RemAttrNode(1, 6),
            Op::Normalize(1),
            Op::Normalize(2),
            Op::SetVal(6, "w"),
            Op::UnsetVal(6),
            Op::Append(0, 1),
            Op::Remove(0, 1),
            Op::SetNV(3, ""),
            Op::UnsetNV(3),
        ];
        for i in m.live() {
            if matches!(m.n(i).k, K::Text | K::CData) && !m.n(i).implicit {
                for p in [1, 2, 6] {
                    ops.push(Op::Append(p, i));
                    ops.push(Op::Remove(p, i));
                    if let Some(f) = m.n(p).kids.first() {
                        ops.push(Op::Insert(p, i, Some(*f)));
                        ops.push(Op::Replace(p, i, *f));
                    }
                }
                for o in 0..=2 {
                    ops.push(Op::Split(i, o));
                }
            }
            if m.n(i).implicit && m.n(i).k == K::Text {
                ops.push(Op::Split(i, 1));
            }
        }
        ops
    })
    .max(9)
}

/// Three nodes just alike, and one that is not, below an element or the document.
pub fn twins() -> Vec<World> {
    let alike = [
        Spec::El(0, "a"),
        Spec::Text(0, "just the same"),
        Spec::CData(0, "just the same"),
        Spec::Comment(0, "just the same"),
        Spec::PI(0, "p", Some("just the same")),
        Spec::ERef(0, "r"),
    ];
    let mut worlds = vec![];
    for s in alike {
        let other = if matches!(s, Spec::Comment(..)) { Spec::PI(0, "t", None) } else { Spec::Comment(0, "t") };
        let spec = vec![Spec::Doc(0, None), Spec::El(0, "a"), s, s, s, other];
        let belows: &[Id] = if matches!(s, Spec::Comment(..) | Spec::PI(..)) { &[0, 1] } else { &[1] };
        for below in belows.iter().copied() {
            let mut ops = tree_ops(&[below], &[2, 3, 4, 5]);
            ops.extend(tree_ops(&[2], &[3, 4]));
            let init = match s {
                Spec::El(..) => [2, 3, 4].map(|e| Op::SetAttr(e, "k", "just the same")).to_vec(),
                _ => vec![],
            };
            let name = format!("alike-{:?}{}", model_kind(s), if below == 0 { " below the document" } else { "" });
            worlds.push(World::new(name, spec.clone(), init, move |_| ops.clone()));
        }
    }
    worlds
}
fn model_kind(s: Spec) -> K {
    let mut m = Model::default();
    spec_model(&mut m, Spec::Doc(0, None));
    let i = spec_model(&mut m, s);
    m.n(i).k
}
/// Attributes just alike, moved between elements just alike.
pub fn twin_attributes() -> World {
    let spec = vec![
        Spec::Doc(0, None),
        Spec::El(0, "a"),
        Spec::El(0, "a"),
        Spec::AtWith(0, "k", "v"),
        Spec::AtWith(0, "k", "v"),
        Spec::AtNs(0, "u", "p:k"),
        Spec::AtNs(0, "u", "p:k"),
    ];
    // 3 text, 4 k, 5 text, 6 k, 7 p:k, 8 p:k
    let mut ops = vec![Op::Append(1, 2), Op::Remove(1, 2)];
    for e in [1, 2] {
        for a in [4, 6, 7, 8] {
            ops.extend([Op::SetAttrNode(e, a), Op::SetAttrNodeNs(e, a), Op::RemAttrNode(e, a)]);
        }
        ops.extend([Op::RemAttr(e, "k"), Op::RemAttrNs(e, "u", "k")]);
    }
    for a in [4, 6] {
        ops.extend([Op::Append(a, 3), Op::Append(a, 5), Op::Remove(a, 3), Op::Remove(a, 5), Op::Insert(a, 3, Some(5))]);
    }
    World::new("alike-attributes", spec, vec![], move |_| ops.clone())
}

/// Attributes that XML, its namespaces, or HTML give a meaning of their own.
pub const ODD_ATTRIBUTES: [(Option<S>, S, S); 20] = [
    (None, "k", ""),
    (None, "id", "v"),
    (None, "xml:id", "v"),
    (Some(XMLURI), "xml:id", "v"),
    (None, "xmlns", "u"),
    (None, "xmlns:p", "u"),
    (Some(XMLNS), "xmlns", "u"),
    (Some(XMLNS), "xmlns:p", "u"),
    (Some(XMLNS), "xmlns:p", ""),
    (None, "xml:space", "preserve"),
    (Some(XMLURI), "xml:space", "preserve"),
    (Some(XMLURI), "xml:space", "default"),
    (Some(XMLURI), "xml:lang", "en"),
    (None, "xml:base", "u"),
    (None, "class", "a b"),
    (None, "xsi:nil", "true"),
    (Some("u"), "p:k", "v"),
    (Some("u"), "k", "v"),
    (None, "ID", "v"),
    (Some("u"), "p:id", "v"),
];
/// Names of elements that something might treat differently.
pub const ODD_ELEMENTS: [(Option<S>, S); 18] = [
    (None, "A"),
    (None, "html"),
    (None, "br"),
    (None, "pre"),
    (None, "script"),
    (None, "style"),
    (None, "textarea"),
    (None, "xml"),
    (None, "xmlns"),
    (None, "xml:a"),
    (None, "p:a"),
    (Some("u"), "a"),
    (Some("u"), "p:a"),
    (Some("http://www.w3.org/1999/xhtml"), "br"),
    (Some("http://www.w3.org/1999/xhtml"), "h:pre"),
    (Some("http://www.w3.org/1999/XSL/Transform"), "xsl:text"),
    (Some(XMLURI), "xml:a"),
    (None, "_.-\u{e9}"),
];

/// An element with the given name and attributes in an element, texts and another element in it;
/// edits of every kind.
fn odd_world(i: usize, options: u8, e: (Option<S>, S), attributes: &[(Option<S>, S, S)]) -> World {
    let el = match e.0 {
        None => Spec::El(0, e.1),
        Some(ns) => Spec::ElNs(0, ns, e.1),
    };
    let spec = vec![
        Spec::Doc(options, None),
        Spec::El(0, "r"),
        el,
        Spec::Text(0, " t&amp; "),
        Spec::El(0, "f"),
        Spec::Text(0, "\n"),
        Spec::Text(0, ""),
        Spec::Comment(0, "m"),
        Spec::Doc(options, None),
        Spec::El(8, "x"),
    ];
    let set = |to: Id, a: &(Option<S>, S, S)| match a.0 {
        None => Op::SetAttr(to, a.1, a.2),
        Some(ns) => Op::SetAttrNs(to, ns, a.1, a.2),
    };
    let mut init = vec![Op::Append(0, 1), Op::Append(1, 2)];
    init.extend(attributes.iter().map(|a| set(2, a)));
    init.extend([Op::Append(2, 3), Op::Append(2, 4), Op::Append(4, 5), Op::Append(4, 6)]);
    let mut ops = vec![];
    for (p, c) in [(0, 2), (0, 7), (1, 2), (1, 3), (1, 4), (1, 7), (2, 3), (2, 4), (2, 5), (2, 7), (4, 2), (4, 3), (4, 5), (4, 6)] {
        ops.extend([Op::Append(p, c), Op::Remove(p, c)]);
    }
    ops.extend([
        Op::Remove(0, 1),
        Op::Replace(0, 2, 1),
        Op::Append(8, 2),
        Op::Append(2, 9),
        Op::Append(9, 3),
        Op::Insert(1, 4, Some(2)),
        Op::Insert(1, 7, Some(2)),
        Op::Insert(2, 7, Some(4)),
        Op::Replace(1, 4, 2),
        Op::Replace(1, 7, 2),
        Op::Replace(2, 7, 4),
        Op::Replace(2, 5, 3),
        Op::Normalize(1),
        Op::Normalize(2),
        Op::Normalize(4),
        Op::Clone(1, true),
        Op::Clone(2, true),
        Op::Clone(2, false),
        Op::Clone(4, true),
        Op::Split(3, 1),
        Op::Split(5, 0),
        Op::SetNV(3, "x<y"),
        Op::UnsetNV(5),
        Op::AppendData(5, " "),
    ]);
    for a in attributes {
        ops.extend([set(1, a), set(2, &(a.0, a.1, "w")), set(4, a), Op::RemAttr(2, a.1)]);
        if let Some(ns) = a.0 {
            ops.push(Op::RemAttrNs(2, ns, a.1.rsplit(':').next().unwrap_or(a.1)));
        }
    }
    World::new(format!("odd-names{}", i), spec, init, move |m: &Model| {
        let mut ops = ops.clone();
        for &a in &m.n(2).attrs {
            ops.extend([Op::RemAttrNode(2, a), Op::SetAttrNode(4, a), Op::SetAttrNode(9, a), Op::SetVal(a, "z"), Op::Clone(a, true)]);
        }
        ops
    })
    .max(24)
}
/// Each of the odd names, in documents of every kind.
pub fn odd_worlds() -> impl Iterator<Item = World> {
    let mut i = 0;
    [0, OPT_IDS, OPT_NS, 2, OPT_IDS | OPT_NS | 2].into_iter().flat_map(move |options| {
        let mut all = vec![];
        for e in ODD_ELEMENTS {
            all.push(odd_world(i, options, e, &[]));
            i += 1;
        }
        for a in ODD_ATTRIBUTES {
            all.push(odd_world(i, options, (None, "e"), &[a]));
            i += 1;
        }
        all
    })
}
/// They, and pairs of the odd attributes.
pub fn odd_names(ctx: &Ctx, plan: &Plan<'_>, pairs: bool) {
    for w in odd_worlds() {
        explore(ctx, &w, plan);
    }
    if pairs {
        for (n, a) in ODD_ATTRIBUTES.iter().enumerate() {
            for (k, b) in ODD_ATTRIBUTES[n + 1..].iter().enumerate() {
                let w = odd_world(1000 + n * 20 + k, OPT_NS, (Some("u"), "p:e"), &[*a, *b]);
                explore(ctx, &w, &Plan { depth: 1, ..*plan });
            }
        }
    }
}

/// Positions of a list of `n` that are edited when there are too many to try them all.
pub fn marks(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, n / 3, n / 2];
    v.extend([1, 2, 3].iter().filter_map(|k| n.checked_sub(*k)));
    v.extend([16, 32, 64, 128, 256, 512].iter().flat_map(|k| [k - 1, *k]));
    v.retain(|i| *i < n);
    v.sort_unstable();
    v.dedup();
    v
}

/// A list of `n` children below one element, and two spare nodes; single edits of every kind at
/// every position.
pub fn wide(n: usize) -> World {
    wide_at("wide", n, (0..n).collect())
}
/// The same with more children, edited at some of the positions.
pub fn broad(n: usize) -> World {
    wide_at("broad", n, marks(n))
}
fn wide_at(name: &str, n: usize, at: Vec<usize>) -> World {
    let mut spec = vec![
        Spec::Doc(0, None),
        Spec::El(0, "p"),
        Spec::El(0, "s"),
        Spec::Text(0, "u"),
    ];
    let mut init = vec![Op::Append(0, 1)];
    for i in 0..n {
        spec.push(match i % 4 {
            0 => Spec::El(0, intern(&format!("e{}", i))),
            1 => Spec::Text(0, intern(&format!("t{}", i))),
            2 => Spec::Comment(0, intern(&format!("c{}", i))),
            _ => Spec::PI(0, intern(&format!("p{}", i)), None),
        });
        init.push(Op::Append(1, 4 + i));
    }
    World::new(format!("{}{}", name, n), spec, init, move |_| {
        let mut ops = vec![];
        let kids: Vec<Id> = at.iter().map(|i| 4 + i).collect();
        for c in kids.iter().copied().chain([2, 3]) {
            ops.push(Op::Append(1, c));
            ops.push(Op::Remove(1, c));
            for r in &kids {
                ops.push(Op::Insert(1, c, Some(*r)));
                ops.push(Op::Replace(1, c, *r));
            }
            if c >= 4 {
                ops.push(Op::Append(2, c));
                ops.push(Op::Insert(1, c, Some(3)));
                ops.push(Op::Replace(1, c, 3));
                ops.push(Op::Replace(1, 3, c));
            }
        }
        ops
    })
}

/// A document with `n` comments and instructions around (or without) its element.
pub fn wide_document(n: usize, root_at: Option<usize>) -> World {
    wide_document_at("wide", n, root_at, (0..n).collect())
}
pub fn broad_document(n: usize, root_at: Option<usize>) -> World {
    wide_document_at("broad", n, root_at, marks(n))
}
fn wide_document_at(name: &str, n: usize, root_at: Option<usize>, at: Vec<usize>) -> World {
    let mut spec = vec![Spec::Doc(0, None), Spec::El(0, "a"), Spec::El(0, "b")];
    let mut init = vec![];
    for i in 0..=n {
        if Some(i) == root_at {
            init.push(Op::Append(0, 1));
        }
        if i < n {
            spec.push(if i % 2 == 0 {
                Spec::Comment(0, intern(&format!("c{}", i)))
            } else {
                Spec::PI(0, intern(&format!("p{}", i)), None)
            });
            init.push(Op::Append(0, 3 + i));
        }
    }
    let ops = {
        let mut ops = vec![];
        let kids: Vec<Id> = [1, 2].into_iter().chain(at.iter().map(|i| 3 + i)).collect();
        for &c in &[1usize, 2] {
            ops.push(Op::Append(0, c));
            for r in &kids {
                ops.push(Op::Insert(0, c, Some(*r)));
                ops.push(Op::Replace(0, c, *r));
            }
        }
        for &c in &kids {
            ops.push(Op::Remove(0, c));
            ops.push(Op::Append(0, c));
            ops.push(Op::Insert(0, c, Some(1)));
            ops.push(Op::Replace(0, c, 1));
        }
        ops
    };
    World::new(
        format!("{}-document{}@{:?}", name, n, root_at),
        spec,
        init,
        move |_| ops.clone(),
    )
}

/// A chain of `n` nested elements (every third level an entity reference) with a leaf at the end.
pub fn chain(n: usize) -> World {
    chain_at("chain", n, (0..3 + n).collect())
}
/// The same with more levels, edited at some of them.
pub fn deep(n: usize) -> World {
    chain_at("deep", n, [0, 1, 2].into_iter().chain(marks(n).iter().map(|i| 3 + i)).collect())
}
fn chain_at(name: &str, n: usize, at: Vec<Id>) -> World {
    let mut spec = vec![Spec::Doc(0, None), Spec::El(0, "s"), Spec::Text(0, "u")];
    let mut init = vec![];
    for i in 0..n {
        spec.push(if i % 3 == 2 {
            Spec::ERef(0, intern(&format!("r{}", i)))
        } else {
            Spec::El(0, intern(&format!("e{}", i)))
        });
        init.push(Op::Append(if i == 0 { 0 } else { 2 + i }, 3 + i));
    }
    World::new(format!("{}{}", name, n), spec, init, move |m: &Model| {
        let mut ops = vec![];
        for &p in &at {
            for &c in &at {
                ops.push(Op::Append(p, c));
                ops.push(Op::Remove(p, c));
                if let Some(f) = m.n(p).kids.first() {
                    ops.push(Op::Insert(p, c, Some(*f)));
                    ops.push(Op::Replace(p, c, *f));
                }
            }
        }
        ops
    })
}

/// Sizes of the broad and deep worlds.
pub fn lengths(ctx: &Ctx) -> &'static [usize] {
    ctx.pick(&[36, 70, 110, 150, 270, 530, 1050], &[36, 50, 70, 90, 110, 135, 150, 200, 270, 400, 530, 800, 1050, 2100])
}
/// One edit of every kind at some positions of long lists and long chains.
pub fn large(ctx: &Ctx, plan: &Plan<'_>) {
    for n in lengths(ctx) {
        explore(ctx, &broad(*n), plan);
        explore(ctx, &deep(*n), plan);
    }
}
