//! Lists of children so long that a position in them no longer fits a byte, or two.

use super::worlds::marks;
use crate::ctx::*;
use crate::explore::*;
use xml_dom::level2::*;

type R = std::result::Result<(), String>;

/// Lengths around everything a counter of one or two bytes can hold.
fn long(ctx: &Ctx) -> &'static [usize] {
    ctx.pick(
        &[255, 257, 4_097, 65_537],
        &[127, 128, 129, 255, 256, 257, 1_025, 4_097, 32_768, 32_769, 65_535, 65_536, 65_537, 70_000, 140_000],
    )
}

const PARENTS: [&str; 4] = ["element", "fragment", "document", "reference"];

pub struct Long {
    pub doc: RefNode,
    pub parent: RefNode,
    pub kids: Vec<RefNode>,
}

/// A parent with `n` children of alternating types.
pub fn build(parent: &str, n: usize) -> std::result::Result<Long, String> {
    let fail = |e: Error| format!("building: {:?}", e);
    let doc = get_implementation().create_document(None, None, None).map_err(fail)?;
    let mut at: RefNode = match parent {
        "element" => {
            let mut d = doc.clone();
            d.append_child(doc.create_element("p").map_err(fail)?).map_err(fail)?
        }
        "fragment" => doc.create_document_fragment().map_err(fail)?,
        "reference" => doc.create_entity_reference("x").map_err(fail)?,
        _ => doc.clone(),
    };
    let mut kids = Vec::with_capacity(n);
    for i in 0..n {
        let k = spare(&doc, parent, i).map_err(fail)?;
        kids.push(at.append_child(k).map_err(fail)?);
    }
    Ok(Long { doc, parent: at, kids })
}

fn spare(doc: &RefNode, parent: &str, i: usize) -> std::result::Result<RefNode, Error> {
    Ok(match (i % 3, parent) {
        (0, _) => doc.create_comment(&i.to_string()),
        (1, "document") => doc.create_processing_instruction("p", Some(&i.to_string()))?,
        (1, _) => doc.create_text_node(&i.to_string()),
        (_, "document") => doc.create_comment("c"),
        _ => doc.create_element("e")?,
    })
}

fn list(l: &Long, what: &str) -> R {
    let got = l.parent.child_nodes();
    if got.len() != l.kids.len() {
        return Err(format!("{}: {} children, {} expected", what, got.len(), l.kids.len()));
    }
    match got.iter().zip(&l.kids).position(|(a, b)| a != b) {
        Some(i) => Err(format!("{}: child {} is another one", what, i)),
        None => Ok(()),
    }
}

/// The links around position `i`.
fn links(l: &Long, what: &str, i: usize) -> R {
    let n = l.kids.len();
    if l.parent.first_child().as_ref() != l.kids.first() || l.parent.last_child().as_ref() != l.kids.last() {
        return Err(format!("{}: first or last child", what));
    }
    if l.parent.has_child_nodes() == l.kids.is_empty() {
        return Err(format!("{}: has_child_nodes", what));
    }
    for j in i.saturating_sub(1)..(i + 2).min(n) {
        let k = &l.kids[j];
        if k.parent_node().as_ref() != Some(&l.parent) {
            return Err(format!("{}: the parent of child {}", what, j));
        }
        if k.previous_sibling().as_ref() != j.checked_sub(1).map(|j| &l.kids[j]) {
            return Err(format!("{}: what is before child {}", what, j));
        }
        if k.next_sibling().as_ref() != l.kids.get(j + 1) {
            return Err(format!("{}: what is after child {}", what, j));
        }
    }
    Ok(())
}

fn alone(k: &RefNode, what: &str) -> R {
    if k.parent_node().is_some() || k.previous_sibling().is_some() || k.next_sibling().is_some() {
        return Err(format!("{}: what was taken out still has links", what));
    }
    Ok(())
}

/// Every kind of edit at the marks of long lists, each a step of one history.
pub fn long_lists(ctx: &Ctx, ordered: bool) {
    let sizes = long(ctx);
    ctx.note(format!(
        "{:?} children of {:?}, then at the ends, in the middle and around every power of two: insert, remove, replace, move to the end, move from the end, refuse",
        sizes, PARENTS
    ));
    ctx.par((sizes.len() * PARENTS.len()) as u64, |th, c| {
        let (n, parent) = (sizes[sizes.len() - 1 - c as usize / PARENTS.len()], PARENTS[c as usize % PARENTS.len()]);
        case(th, format_args!("long {} {}", parent, n), |th| {
            let mut l = build(parent, n)?;
            let mut at = marks(n);
            at.extend((10..18).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).filter(|i| *i < n));
            at.sort_unstable();
            at.dedup();
            let view = |l: &Long, what: &str, i: usize| -> R {
                if ordered { list(l, what) } else { links(l, what, i) }
            };
            list(&l, "appended")?;
            for (step, i) in at.iter().copied().enumerate() {
                th.transitions += 6;
                let fail = |what: &str, e: Error| format!("{} at {}: {:?}", what, i, e);
                let (doc, mut p) = (l.doc.clone(), l.parent.clone());
                // insert before child i
                let x = spare(&doc, parent, step).map_err(|e| fail("create", e))?;
                let r = p.insert_before(x.clone(), Some(l.kids[i].clone())).map_err(|e| fail("insert", e))?;
                l.kids.insert(i, x.clone());
                if r != x {
                    return Err(format!("insert at {} returns another node", i));
                }
                view(&l, &format!("inserted at {}", i), i)?;
                // the same child out again
                let r = p.remove_child(x.clone()).map_err(|e| fail("remove", e))?;
                l.kids.remove(i);
                if r != x {
                    return Err(format!("remove at {} returns another node", i));
                }
                alone(&x, &format!("removed at {}", i))?;
                view(&l, &format!("removed at {}", i), i)?;
                // replace child i
                let old = l.kids[i].clone();
                let r = p.replace_child(x.clone(), old.clone()).map_err(|e| fail("replace", e))?;
                l.kids[i] = x.clone();
                if r != old {
                    return Err(format!("replace at {} returns another node", i));
                }
                alone(&old, &format!("replaced at {}", i))?;
                view(&l, &format!("replaced at {}", i), i)?;
                // the replaced one is refused as a child to remove, and as a place to insert at
                if p.remove_child(old.clone()).is_ok() || p.insert_before(spare(&doc, parent, 0).map_err(|e| fail("create", e))?, Some(old)).is_ok() {
                    return Err(format!("what was replaced at {} is still a child", i));
                }
                view(&l, &format!("refused at {}", i), i)?;
                // child i to the end
                let _ = p.append_child(x.clone()).map_err(|e| fail("append", e))?;
                let x = l.kids.remove(i);
                l.kids.push(x);
                view(&l, &format!("moved from {} to the end", i), i)?;
                links(&l, &format!("moved from {} to the end", i), n - 1)?;
                // the last one to position i
                if i + 1 < n {
                    let x = l.kids.pop().unwrap();
                    let _ = p.insert_before(x.clone(), Some(l.kids[i].clone())).map_err(|e| fail("move", e))?;
                    l.kids.insert(i, x);
                    view(&l, &format!("moved from the end to {}", i), i)?;
                }
            }
            Ok(())
        });
    });
}

/// Questions about names below, and in a document with, a long list of children.
pub fn long_answers(ctx: &Ctx) {
    let sizes = long(ctx);
    ctx.note(format!("elements with {:?} children, asked for those of a name, of any, and of none", sizes));
    ctx.par(sizes.len() as u64 * 2, |th, c| {
        let (n, below) = (sizes[sizes.len() - 1 - c as usize / 2], c % 2 == 1);
        case(th, format_args!("long answer {} {}", n, if below { "nested" } else { "flat" }), |th| {
            th.transitions += n as u64;
            let fail = |e: Error| format!("{:?}", e);
            let mut l = build("element", 0)?;
            let mut all = vec![];
            for i in 0..n {
                let mut e = l.doc.create_element(if i % 3 == 0 { "a" } else { "b" }).map_err(fail)?;
                all.push(e.clone());
                if below && i % 2 == 0 {
                    let x = l.doc.create_element("a").map_err(fail)?;
                    all.push(x.clone());
                    let _ = e.append_child(x).map_err(fail)?;
                }
                let _ = l.parent.append_child(e).map_err(fail)?;
            }
            for name in ["a", "b", "*", "c"] {
                let want: Vec<&RefNode> = all.iter().filter(|e| name == "*" || e.node_name().to_string() == name).collect();
                for got in [Element::get_elements_by_tag_name(&l.parent, name), Document::get_elements_by_tag_name(&l.doc, name)] {
                    let of_document = usize::from(name == "*" && got.first() == Some(&l.parent));
                    if got.len() - of_document != want.len() || got[of_document..].iter().zip(&want).any(|(a, b)| a != *b) {
                        return Err(format!("{:?}: {} elements, or others, for {}", name, got.len(), want.len()));
                    }
                }
            }
            Ok(())
        });
    });
}

/// Clones of long lists.
pub fn long_clones(ctx: &Ctx) {
    let sizes = long(ctx);
    ctx.note(format!("clones of elements, fragments, documents and entity references with {:?} children", sizes));
    ctx.par((sizes.len() * PARENTS.len()) as u64, |th, c| {
        let (n, parent) = (sizes[sizes.len() - 1 - c as usize / PARENTS.len()], PARENTS[c as usize % PARENTS.len()]);
        case(th, format_args!("long clone {} {}", parent, n), |th| {
            th.transitions += n as u64;
            let l = build(parent, n)?;
            let copy = l.parent.clone_node(true).ok_or("no clone")?;
            let kids = copy.child_nodes();
            if kids.len() != n {
                return Err(format!("{} children of the copy for {}", kids.len(), n));
            }
            for (i, (a, b)) in kids.iter().zip(&l.kids).enumerate() {
                if a == b || a.node_type() != b.node_type() || a.node_name() != b.node_name() || a.node_value() != b.node_value() {
                    return Err(format!("child {} of the copy", i));
                }
            }
            list(&l, "cloned")?;
            for i in marks(n) {
                links(&Long { doc: l.doc.clone(), parent: copy.clone(), kids: kids.clone() }, "copy", i)?;
            }
            if l.parent.clone_node(false).ok_or("no clone")?.has_child_nodes() {
                return Err("children of a shallow copy".to_string());
            }
            Ok(())
        });
    });
}

/// Long lists written.
pub fn long_output(ctx: &Ctx) {
    let sizes = long(ctx);
    ctx.note(format!("elements, documents and entity references with {:?} children, written", sizes));
    ctx.par(sizes.len() as u64 * 2, |th, c| {
        let (n, parent) = (sizes[sizes.len() - 1 - c as usize / 2], ["element", "document"][c as usize % 2]);
        case(th, format_args!("long output {} {}", parent, n), |th| {
            th.transitions += n as u64;
            let l = build(parent, n)?;
            let mut want = String::new();
            for i in 0..n {
                want += &match (i % 3, parent) {
                    (0, _) => format!("<!--{}-->", i),
                    (1, "document") => format!("<?p {}?>", i),
                    (1, _) => i.to_string(),
                    (_, "document") => "<!--c-->".to_string(),
                    _ => "<e></e>".to_string(),
                };
            }
            if parent == "element" {
                want = format!("<p>{}</p>", want);
            }
            let got = l.doc.to_string();
            if got != want {
                let i = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                return Err(format!("written differently from byte {} on, {} bytes for {}", i, got.len(), want.len()));
            }
            Ok(())
        });
    });
}

/// Elements with many attributes.
pub fn long_attributes(ctx: &Ctx) {
    let sizes: &[usize] = ctx.pick(&[255, 257, 1_025], &[127, 129, 255, 256, 257, 1_025, 4_095, 4_097, 16_385]);
    ctx.note(format!("{:?} attributes by name, by namespace and as nodes: each found, then replaced, and removed, around every power of two", sizes));
    ctx.par(sizes.len() as u64 * 3, |th, c| {
        let (n, way) = (sizes[sizes.len() - 1 - c as usize / 3], c % 3);
        case(th, format_args!("long attributes {} {}", ["named", "namespaced", "nodes"][way as usize], n), |th| {
            let fail = |e: Error| format!("{:?}", e);
            let l = build("element", 0)?;
            let mut e = l.parent.clone();
            let name = |i: usize| format!("{}k{}", if way == 1 { "p:" } else { "" }, i);
            let set = |e: &mut RefNode, i: usize, v: &str| -> R {
                match way {
                    0 => e.set_attribute(&name(i), v).map_err(fail),
                    1 => e.set_attribute_ns("u", &name(i), v).map_err(fail),
                    _ => {
                        let a = l.doc.create_attribute_with(&name(i), v).map_err(fail)?;
                        e.set_attribute_node(a).map(|_| ()).map_err(fail)
                    }
                }
            };
            let get = |e: &RefNode, i: usize| match way {
                1 => e.get_attribute_ns("u", &format!("k{}", i)),
                _ => e.get_attribute(&name(i)),
            };
            let mut want: Vec<Option<String>> = vec![];
            for i in 0..n {
                set(&mut e, i, &i.to_string())?;
                want.push(Some(i.to_string()));
            }
            let all = |e: &RefNode, want: &[Option<String>], what: &str| -> R {
                let count = want.iter().flatten().count();
                if e.attributes().len() != count || e.has_attributes() != (count > 0) {
                    return Err(format!("{}: {} attributes, {} expected", what, e.attributes().len(), count));
                }
                for a in e.attributes().values() {
                    let qname = a.node_name().to_string();
                    let i: usize = qname.rsplit('k').next().and_then(|d| d.parse().ok()).ok_or(qname.clone())?;
                    if Attribute::value(a) != want[i] || a.owner_element().as_ref() != Some(e) {
                        return Err(format!("{}: attribute {}", what, qname));
                    }
                }
                Ok(())
            };
            all(&e, &want, "set")?;
            let mut at = marks(n);
            at.extend((10..16).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).filter(|i| *i < n));
            at.sort_unstable();
            at.dedup();
            for i in &at {
                if get(&e, *i) != want[*i] {
                    return Err(format!("attribute {} is {:?}", i, get(&e, *i)));
                }
                set(&mut e, *i, "new")?;
                want[*i] = Some("new".to_string());
                all(&e, &want, "replaced")?;
            }
            for i in &at {
                th.transitions += 2;
                match way {
                    1 => e.remove_attribute_ns("u", &format!("k{}", i)).map_err(fail)?,
                    _ => e.remove_attribute(&name(*i)).map_err(fail)?,
                }
                want[*i] = None;
                all(&e, &want, "removed")?;
                if get(&e, *i).is_some() {
                    return Err(format!("attribute {} was removed", i));
                }
            }
            Ok(())
        });
    });
}
