//! P01 to P05: tree edits.

use super::attrs::*;
use super::worlds::*;
use crate::ctx::*;
use crate::explore::*;
use crate::model::*;
use crate::real::*;

fn structure(_: &Model, r: &Real) -> Result<(), String> {
    let start: Vec<_> = r.nodes.iter().flatten().cloned().collect();
    forest(&start)
}

pub fn p01(ctx: &Ctx) {
    let plan = |depth: usize| Plan {
        depth,
        mask: LINKS,
        view: Some(&structure),
        ..Plan::default()
    };
    explore(ctx, &elements(3).drops(), &plan(usize::MAX));
    explore(ctx, &mixed(2, 2).drops(), &plan(usize::MAX));
    explore(ctx, &containers().drops(), &plan(ctx.pick(3, 5)));
    explore(ctx, &attribute_children().drops(), &plan(ctx.pick(4, 7)));
    explore(ctx, &text_edits().drops(), &plan(ctx.pick(4, 6)));
    explore(ctx, &two_documents_small().drops(), &plan(ctx.pick(3, usize::MAX)));
    for w in twins() {
        explore(ctx, &w, &plan(ctx.pick(4, usize::MAX)));
    }
    explore(ctx, &twin_attributes(), &plan(ctx.pick(3, 5)));
    explore(ctx, &elements(3), &plan(1).turns(ctx.pick(3, usize::MAX)));
    explore(ctx, &mixed(2, 1), &plan(1).turns(ctx.pick(3, usize::MAX)));
    explore(ctx, &containers(), &plan(1).turns(ctx.pick(2, 3)));
    explore(ctx, &attribute_children(), &plan(1).turns(ctx.pick(2, 4)));
    explore(ctx, &text_edits(), &plan(1).turns(ctx.pick(2, 3)));
    explore(ctx, &twins()[1], &plan(1).turns(ctx.pick(2, 4)));
    odd_names(ctx, &plan(ctx.pick(1, 2)), true);
    succession(
        ctx,
        &[elements(3), mixed(2, 1), containers(), attribute_children(), text_edits(), two_documents_small(), all_types()],
        &plan(1),
    );
    for w in [elements(3), mixed(2, 1), containers(), attribute_children(), text_edits()] {
        again(ctx, &w, &plan(1), ctx.pick(1, 2), 2, 300);
    }
    if ctx.thorough() {
        explore(ctx, &mixed(3, 1).drops(), &plan(usize::MAX));
        explore(ctx, &all_types(), &plan(3));
        explore(ctx, &elements(4), &plan(usize::MAX));
        explore(ctx, &mixed(3, 2), &plan(5));
    }
    for n in 0..ctx.pick(12, 24) {
        explore(ctx, &wide(n), &plan(1));
        explore(ctx, &chain(n), &plan(1));
    }
    large(ctx, &plan(1));
    super::lists::long_lists(ctx, false);
}

pub fn p02(ctx: &Ctx) {
    let plan = |depth: usize| Plan {
        depth,
        mask: TREE,
        failures: false,
        ..Plan::default()
    };
    explore(ctx, &elements(3).drops(), &plan(usize::MAX));
    explore(ctx, &mixed(2, 2).drops(), &plan(usize::MAX));
    explore(ctx, &document_level(), &plan(usize::MAX));
    explore(ctx, &containers().drops(), &plan(ctx.pick(5, 6)));
    explore(ctx, &mixed(3, 1).drops(), &plan(usize::MAX));
    explore(ctx, &all_types(), &plan(ctx.pick(2, 4)));
    for w in twins() {
        explore(ctx, &w, &plan(ctx.pick(4, usize::MAX)));
    }
    explore(ctx, &twin_attributes(), &plan(ctx.pick(3, 5)));
    explore(ctx, &elements(3), &plan(1).turns(ctx.pick(3, usize::MAX)));
    explore(ctx, &mixed(2, 1), &plan(1).turns(ctx.pick(3, usize::MAX)));
    explore(ctx, &containers(), &plan(1).turns(ctx.pick(2, 3)));
    explore(ctx, &document_level(), &plan(1).turns(ctx.pick(2, 3)));
    explore(ctx, &twins()[1], &plan(1).turns(ctx.pick(2, 4)));
    odd_names(ctx, &plan(2), true);
    succession(
        ctx,
        &[elements(3), mixed(2, 2), document_level(), containers(), attribute_children(), all_types()],
        &plan(1),
    );
    for w in [elements(3), mixed(2, 1), mixed(2, 2), document_level(), containers(), attribute_children()] {
        again(ctx, &w, &plan(1), ctx.pick(1, 2), 2, 300);
    }
    if ctx.thorough() {
        explore(ctx, &elements(4), &plan(usize::MAX));
        explore(ctx, &mixed(3, 2), &plan(6));
        explore(ctx, &mixed(2, 4), &plan(5));
    }
    for n in 0..ctx.pick(20, 44) {
        explore(ctx, &wide(n), &plan(1));
    }
    for n in 0..ctx.pick(12, 30) {
        explore(ctx, &chain(n), &plan(1));
    }
    large(ctx, &plan(1));
    super::lists::long_lists(ctx, true);
    for n in [1, 2, 3, 4] {
        explore(ctx, &wide(n), &plan(ctx.pick(2, 3)));
    }
    // every history, without merging states
    let all = Plan {
        dedupe: false,
        ..plan(3)
    };
    explore(ctx, &elements(2), &all);
    if ctx.thorough() {
        explore(ctx, &mixed(2, 1), &all);
    }
}

/// The codes DOM gives the kinds of errors.
fn codes() -> Result<(), String> {
    use xml_dom::level2::Error::*;
    let all = [
        (IndexSize, 1u16), (StringSize, 2), (HierarchyRequest, 3), (WrongDocument, 4), (InvalidCharacter, 5), (NoDataAllowed, 6),
        (NoModificationAllowed, 7), (NotFound, 8), (NotSupported, 9), (InUseAttribute, 10), (InvalidState, 11), (Syntax, 12),
        (InvalidModification, 13), (Namespace, 14), (InvalidAccess, 15),
    ];
    for (e, code) in &all {
        same(format!("text of {:?}", e), e.to_string().is_empty(), false)?;
        same(format!("errors like {:?}", e), all.iter().filter(|x| x.0 == *e).count(), 1)?;
        same(format!("errors reading like {:?}", e), all.iter().filter(|x| x.0.to_string() == e.to_string()).count(), 1)?;
        same(format!("code of {:?}", e), e.clone() as u16, *code)?;
    }
    Ok(())
}

pub fn p03(ctx: &Ctx) {
    ctx.par(1, |th, _| case(th, format_args!("error codes"), |_| codes()));
    let plan = |depth: usize| Plan {
        depth,
        mask: ALL,
        successes: false,
        ..Plan::default()
    };
    explore(ctx, &elements(3).drops(), &plan(usize::MAX));
    explore(ctx, &mixed(2, 2).drops(), &plan(usize::MAX));
    explore(ctx, &document_level(), &plan(usize::MAX));
    explore(ctx, &two_documents_small().drops(), &plan(usize::MAX));
    explore(ctx, &two_documents(), &plan(ctx.pick(4, 6)));
    explore(ctx, &containers().drops(), &plan(ctx.pick(4, 5)));
    explore(ctx, &all_types(), &plan(ctx.pick(2, 3)));
    explore(ctx, &attribute_children().drops(), &plan(ctx.pick(5, 7)));
    explore(ctx, &all_types_two(), &plan(ctx.pick(1, 2)));
    explore(ctx, &mixed(3, 1), &plan(usize::MAX));
    for w in twins() {
        explore(ctx, &w, &plan(ctx.pick(4, usize::MAX)));
    }
    explore(ctx, &twin_attributes(), &plan(ctx.pick(3, 5)));
    odd_names(ctx, &plan(2), true);
    for w in [elements(2), mixed(2, 1), document_level(), containers(), two_documents_small(), foreign_attributes(), id_nodes(0)] {
        again(ctx, &w, &plan(1), 1, ctx.pick(1, 2), 300);
    }
    if ctx.thorough() {
        explore(ctx, &elements(4), &plan(usize::MAX));
    }
    // identifiers, attributes, namespaces and text
    for opts in [0, OPT_IDS] {
        explore(ctx, &id_nodes(opts), &plan(ctx.pick(5, 7)));
        explore(ctx, &used_id_nodes(opts), &plan(ctx.pick(3, 6)));
    }
    explore(ctx, &id_world("strict", 0, 2, &["xml:id", "id"], &["v", "w"]), &plan(ctx.pick(4, usize::MAX)));
    explore(ctx, &id_world("lax", OPT_IDS, 2, &["id", "p:id"], &["v", "w"]), &plan(ctx.pick(4, usize::MAX)));
    explore(ctx, &id_clones(), &plan(ctx.pick(4, 6)));
    explore(ctx, &id_world("strict-three", 0, 3, &["xml:id"], &["v"]), &plan(ctx.pick(5, usize::MAX)));
    explore(ctx, &ns_nodes(OPT_NS), &plan(ctx.pick(4, 6)));
    explore(ctx, &ns_clones(), &plan(ctx.pick(3, 5)));
    explore(ctx, &moved_owners(), &plan(ctx.pick(3, 4)));
    explore(ctx, &foreign_attributes().drops(), &plan(ctx.pick(3, 6)));
    explore(ctx, &clones_of_two(), &plan(ctx.pick(3, 4)));
    explore(ctx, &text_edits().drops(), &plan(ctx.pick(4, 6)));
    for n in 0..ctx.pick(10, 20) {
        explore(ctx, &wide(n), &plan(1));
        explore(ctx, &chain(n), &plan(1));
    }
    large(ctx, &plan(1));
    for n in 0..ctx.pick(5, 12) {
        for root in 0..=n {
            explore(ctx, &wide_document(n, Some(root)), &plan(1));
        }
    }
    super::text::refused(ctx);
}

pub fn p04(ctx: &Ctx) {
    let content = |_: &Model, r: &Real| -> Result<(), String> {
        for (i, n) in r.nodes.iter().enumerate() {
            let Some(n) = n else { continue };
            let mut elements = vec![];
            for c in xml_dom::level2::Node::child_nodes(n) {
                if !allowed(kind(n), kind(&c)) {
                    return Err(format!("#{} ({:?}) holds a {:?}", i, kind(n), kind(&c)));
                }
                if kind(&c) == K::Element {
                    elements.push(c);
                }
            }
            if kind(n) == K::Document {
                if elements.len() > 1 {
                    return Err(format!("document #{} holds {} elements", i, elements.len()));
                }
                let root = xml_dom::level2::Document::document_element(n);
                if root != elements.first().cloned() {
                    return Err(format!("document element of #{} is not its element", i));
                }
            }
        }
        Ok(())
    };
    let plan = |depth: usize| Plan {
        depth,
        mask: LINKS | ROOT,
        view: Some(&content),
        ..Plan::default()
    };
    explore(ctx, &document_level(), &plan(usize::MAX));
    explore(ctx, &mixed(2, 2).drops(), &plan(usize::MAX));
    explore(ctx, &containers().drops(), &plan(ctx.pick(4, 5)));
    explore(ctx, &all_types(), &plan(3));
    for w in twins() {
        explore(ctx, &w, &plan(ctx.pick(3, usize::MAX)));
    }
    explore(ctx, &twin_attributes(), &plan(ctx.pick(2, 5)));
    odd_names(ctx, &plan(2), false);
    for w in [document_level(), mixed(2, 1), containers()] {
        again(ctx, &w, &plan(1), ctx.pick(1, 2), 2, 300);
    }
    explore(ctx, &document_level(), &plan(1).turns(ctx.pick(3, usize::MAX)));
    explore(ctx, &mixed(2, 1), &plan(1).turns(ctx.pick(3, usize::MAX)));
    explore(ctx, &containers(), &plan(1).turns(ctx.pick(2, 3)));
    explore(ctx, &all_types_two(), &plan(ctx.pick(1, 2)));
    explore(ctx, &attribute_children(), &plan(ctx.pick(5, 7)));
    for n in 0..ctx.pick(10, 24) {
        explore(ctx, &wide_document(n, None), &plan(1));
        for root in 0..=n {
            explore(ctx, &wide_document(n, Some(root)), &plan(1));
        }
    }
    for n in lengths(ctx) {
        for root in [None, Some(0), Some(n / 2), Some(*n)] {
            explore(ctx, &broad_document(*n, root), &plan(1));
        }
    }
    for n in 0..4 {
        explore(ctx, &wide_document(n, None), &plan(ctx.pick(4, 6)));
    }
    explore(ctx, &mixed(3, 1).drops(), &plan(usize::MAX));
    // what the model allows is what the specification's table says, for every pair of types
    if ctx.thorough() {
        explore(ctx, &elements(4), &plan(usize::MAX));
    }
}

pub fn p05(ctx: &Ctx) {
    let plan = |depth: usize| Plan {
        depth,
        mask: DOC | LINKS | ATTRS | OWNER,
        ..Plan::default()
    };
    explore(ctx, &two_documents_small().drops(), &plan(usize::MAX));
    explore(ctx, &two_documents(), &plan(ctx.pick(4, 6)));
    explore(ctx, &all_types_two(), &plan(ctx.pick(1, 2)));
    explore(ctx, &foreign_attributes().drops(), &plan(ctx.pick(4, 7)));
    explore(ctx, &clones_of_two(), &plan(ctx.pick(3, 5)));
    explore(ctx, &twin_attributes(), &plan(ctx.pick(3, 5)));
    odd_names(ctx, &plan(2), true);
    super::trees::shallow_attributes(ctx);
    succession(
        ctx,
        &[two_documents_small(), two_documents(), foreign_attributes(), clones_of_two(), text_edits(), all_types_two()],
        &plan(1),
    );
    for w in [two_documents_small(), foreign_attributes(), clones_of_two()] {
        again(ctx, &w, &plan(1), ctx.pick(1, 2), 2, 300);
    }
    explore(ctx, &two_documents_small(), &plan(1).turns(ctx.pick(2, 4)));
    explore(ctx, &foreign_attributes(), &plan(1).turns(ctx.pick(2, 4)));
    explore(ctx, &clones_of_two(), &plan(1).turns(ctx.pick(1, 2)));
    explore(ctx, &text_edits(), &plan(1).turns(ctx.pick(2, 3)));
    explore(ctx, &text_edits().drops(), &plan(ctx.pick(4, 6)));
    if ctx.thorough() {
        explore(ctx, &all_types(), &plan(3));
        explore(ctx, &elements(4), &plan(usize::MAX));
    }
    for n in 0..ctx.pick(6, 12) {
        explore(ctx, &wide(n), &plan(1));
        explore(ctx, &chain(n), &plan(1));
    }
    large(ctx, &plan(1));
}

/// Clones of nodes of two documents, and where they can go.
pub fn clones_of_two() -> World {
    let spec = vec![
        Spec::Doc(0, None),
        Spec::Doc(0, None),
        Spec::El(0, "a"),
        Spec::El(1, "x"),
        Spec::AtWith(0, "k", "v"),
        Spec::Text(1, "y"),
        Spec::Comment(0, "m"),
        Spec::PI(1, "p", None),
        Spec::ERef(0, "r"),
    ];
    // 4 text of k, 5 k, 6 text, 7 comment, 8 instruction, 9 entity reference
    World::new(
        "clones-of-two-documents",
        spec,
        vec![Op::SetAttrNode(2, 5), Op::Append(3, 6), Op::Append(2, 7)],
        |m: &Model| {
            let mut ops = vec![];
            for i in m.live() {
                if m.n(i).k == K::Document {
                    continue;
                }
                ops.push(Op::Clone(i, true));
                if m.n(i).k == K::Attribute {
                    ops.extend([2, 3].map(|e| Op::SetAttrNode(e, i)));
                    continue;
                }
                ops.push(Op::Clone(i, false));
                if m.n(i).k == K::Element {
                    ops.extend([0, 1].map(|d| Op::Append(d, i)));
                    ops.push(Op::SetAttr(i, "l", "w"));
                    ops.extend([6, 7].map(|c| Op::Append(i, c)));
                }
                if m.n(i).k == K::Text {
                    ops.push(Op::Split(i, 1));
                }
                ops.extend([2, 3].map(|e| Op::Append(e, i)));
            }
            ops
        },
    )
    .max(16)
}

/// Attributes and attribute text of two documents.
pub fn foreign_attributes() -> World {
    let spec = vec![
        Spec::Doc(0, None),
        Spec::Doc(0, None),
        Spec::El(0, "a"),
        Spec::El(1, "x"),
        Spec::At(0, "k"),
        Spec::At(1, "k"),
        Spec::Text(0, "t"),
        Spec::Text(1, "y"),
    ];
    let mut ops = vec![];
    for e in [2, 3] {
        for a in [4, 5] {
            ops.extend([
                Op::SetAttrNode(e, a),
                Op::SetAttrNodeNs(e, a),
                Op::RemAttrNode(e, a),
            ]);
        }
        ops.extend([Op::SetAttr(e, "k", "v"), Op::RemAttr(e, "k")]);
    }
    for a in [4, 5] {
        ops.extend([Op::SetVal(a, "w"), Op::UnsetVal(a)]);
        for t in [6, 7] {
            ops.extend([Op::Append(a, t), Op::Remove(a, t), Op::Insert(a, t, Some(t))]);
            for e in [2, 3] {
                ops.extend([Op::Append(e, t), Op::Replace(e, t, 13 - t)]);
            }
        }
    }
    ops.extend([Op::Append(0, 2), Op::Append(0, 3), Op::Append(1, 2), Op::Append(1, 3)]);
    World::new("foreign-attributes", spec, vec![], move |_| ops.clone())
}
