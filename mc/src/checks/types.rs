//! P19 and P20: what a node's type offers, and the declarations, options and features.

use super::output::{make_decl, written, XmlV};
use super::strings::*;
use super::worlds::*;
use crate::ctx::*;
use crate::explore::*;
use crate::model::*;
use crate::real::*;
use std::str::FromStr;
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::*;
use xml_dom::level2::ext::*;
use xml_dom::level2::*;

type R = std::result::Result<(), String>;

// ------------------------------------------------------------------------------------------------
// P19

/// What a cast node shows must be what the node shows.
fn view<T>(
    what: &str,
    got: Result<T>,
    n: &RefNode,
    k: K,
    want: bool,
    show: impl Fn(&T) -> (NodeType, Name, Option<String>, usize),
) -> R {
    match got {
        Ok(t) => {
            if !want {
                return Err(format!("{} succeeds for {:?}", what, k));
            }
            let (t, name, v, c) = show(&t);
            same(format!("type through {}", what), t == n.node_type(), true)?;
            same(format!("name through {}", what), name.to_string(), n.node_name().to_string())?;
            same(format!("value through {}", what), v, n.node_value())?;
            same(format!("children through {}", what), c, n.child_nodes().len())
        }
        Err(e) => {
            if want {
                return Err(format!("{} fails for {:?}: {:?}", what, k, e));
            }
            same(format!("error of {} for {:?}", what, k), err(&e), E::InvalidState)
        }
    }
}

/// Every type test and cast, on one node.
fn casts(n: &RefNode) -> R {
    let k = kind(n);
    let code = 1 + KINDS.iter().position(|x| *x == k).unwrap() as u16;
    same("type code", n.node_type() as u16, code)?;
    macro_rules! one {
        ($kinds:pat, $is:ident, $as:ident) => {
            let want = matches!(k, $kinds);
            same(format!("{} for {:?}", stringify!($is), k), $is(n), want)?;
            view(stringify!($as), $as(n), n, k, want, |t| {
                (t.node_type(), t.node_name(), t.node_value(), t.child_nodes().len())
            })?;
        };
        ($kinds:pat, $is:ident, $as:ident, $mut:ident) => {
            one!($kinds, $is, $as);
            let want = matches!(k, $kinds);
            let mut m = n.clone();
            view(stringify!($mut), $mut(&mut m), n, k, want, |t| {
                (t.node_type(), t.node_name(), t.node_value(), t.child_nodes().len())
            })?;
        };
    }
    one!(K::Attribute, is_attribute, as_attribute, as_attribute_mut);
    one!(K::Element, is_element, as_element, as_element_mut);
    one!(K::Text | K::CData | K::Comment, is_character_data, as_character_data, as_character_data_mut);
    one!(K::Text, is_text, as_text, as_text_mut);
    one!(K::CData, is_cdata_section, as_cdata_section, as_cdata_section_mut);
    one!(K::EntityRef, is_entity_reference, as_entity_reference, as_entity_reference_mut);
    one!(K::Entity, is_entity_, as_entity, as_entity_mut);
    one!(K::PI, is_processing_instruction, as_processing_instruction, as_processing_instruction_mut);
    one!(K::Comment, is_comment, as_comment, as_comment_mut);
    one!(K::Document, is_document, as_document, as_document_mut);
    one!(K::DocType, is_document_type, as_document_type, as_document_type_mut);
    one!(K::Fragment, is_document_fragment, as_document_fragment, as_document_fragment_mut);
    one!(K::Notation, is_notation, as_notation, as_notation_mut);
    one!(K::Document, is_document_decl, as_document_decl, as_document_decl_mut);
    one!(K::Element, is_element_namespaced, as_element_namespaced);
    Ok(())
}

/// One node of every type, some with content, and a second document.
fn one_of_each() -> (Vec<Spec>, Vec<Op>) {
    (
        vec![
            Spec::DocType("dt", Some("P"), Some("S")),
            Spec::Doc(0, Some(0)),
            Spec::El(1, "a"),
            Spec::El(1, "b"),
            Spec::AtWith(1, "k", "v"), // 4 its text, 5
            Spec::Text(1, "t"),
            Spec::CData(1, "d"),
            Spec::ERef(1, "r"),
            Spec::Entity(1, "e", None, Some("S")),
            Spec::IntEntity(1, "i", "w"),
            Spec::PI(1, "p", Some("q")), // 11
            Spec::Comment(1, "m"),
            Spec::Frag(1),
            Spec::Notation(1, "n", Some("P"), None),
            Spec::At(1, "l"),
        ],
        vec![
            Op::Append(1, 2),
            Op::Append(2, 6),
            Op::Append(2, 3),
            Op::SetAttrNode(2, 5),
            Op::Append(8, 12),
        ],
    )
}

/// Every operation of every interface, on every node.
fn foreign_ops(m: &Model, pairs: bool) -> Vec<Op> {
    let mut ops = vec![];
    let live: Vec<Id> = m.live().filter(|i| !m.n(*i).implicit).collect();
    for &n in &live {
        ops.extend([
            Op::SetNV(n, "x"),
            Op::SetNV(n, ""),
            Op::UnsetNV(n),
            Op::SetData(n, "y"),
            Op::UnsetData(n),
            Op::AppendData(n, "z"),
            Op::InsertData(n, 0, "z"),
            Op::DeleteData(n, 0, 1),
            Op::ReplaceData(n, 0, 1, "z"),
            Op::SetVal(n, "x"),
            Op::UnsetVal(n),
            Op::Normalize(n),
            Op::SetAttr(n, "k", "x"),
            Op::SetAttrNs(n, "urn:u", "p:k", "x"),
            Op::RemAttr(n, "k"),
            Op::RemAttrNs(n, "urn:u", "k"),
        ]);
        if !matches!(m.n(n).k, K::Text | K::CData) {
            ops.push(Op::Split(n, 0));
            ops.push(Op::Split(n, 9));
        }
        if pairs {
            for &o in &live {
                ops.extend([
                    Op::SetAttrNode(n, o),
                    Op::SetAttrNodeNs(n, o),
                    Op::RemAttrNode(n, o),
                    Op::Append(n, o),
                    Op::Remove(n, o),
                ]);
            }
        }
    }
    ops
}

/// Calls on the node itself, through interfaces that are not its type's.
const CALLS: [&str; 26] = [
    "set_xml_declaration", "CharacterData::set_data", "CharacterData::unset_data",
    "ProcessingInstruction::set_data", "ProcessingInstruction::unset_data", "split",
    "create_element", "create_element_ns", "create_attribute", "create_attribute_with", "create_text_node",
    "create_comment", "create_cdata_section", "create_processing_instruction", "create_entity_reference",
    "create_document_fragment", "substring_data", "get_element_by_id", "get_elements_by_tag_name",
    "get_elements_by_tag_name_ns", "get_attribute", "namespaced", "value", "identifiers", "document views", "specified",
];
fn call(n: &mut RefNode, what: &str) -> Option<Result<()>> {
    fn node(r: Result<RefNode>) -> Option<Result<()>> {
        Some(r.map(|_| ()))
    }
    match what {
        "set_xml_declaration" => {
            return Some(n.set_xml_declaration(XmlDecl::new(XmlVersion::V11, None, Some(true))))
        }
        "CharacterData::set_data" => return Some(CharacterData::set_data(n, "new")),
        "CharacterData::unset_data" => return Some(CharacterData::unset_data(n)),
        "ProcessingInstruction::set_data" => return Some(ProcessingInstruction::set_data(n, "new")),
        "ProcessingInstruction::unset_data" => return Some(ProcessingInstruction::unset_data(n)),
        "split" => return node(n.split(0)),
        "create_element" => return node(n.create_element("x")),
        "create_element_ns" => return node(n.create_element_ns("urn:u", "x")),
        "create_attribute" => return node(n.create_attribute("x")),
        "create_attribute_with" => return node(n.create_attribute_with("x", "y")),
        "create_text_node" => drop(n.create_text_node("x")),
        "create_comment" => drop(n.create_comment("x")),
        "create_cdata_section" => return node(n.create_cdata_section("x")),
        "create_processing_instruction" => return node(n.create_processing_instruction("x", None)),
        "create_entity_reference" => return node(n.create_entity_reference("x")),
        "create_document_fragment" => return node(n.create_document_fragment()),
        "substring_data" => return Some(n.substring_data(0, 1).map(|_| ())),
        "get_element_by_id" => drop(n.get_element_by_id("v")),
        "get_elements_by_tag_name" => {
            drop(Document::get_elements_by_tag_name(n, "*"));
            drop(Element::get_elements_by_tag_name(n, "*"));
        }
        "get_elements_by_tag_name_ns" => {
            drop(Document::get_elements_by_tag_name_ns(n, "*", "*"));
            drop(Element::get_elements_by_tag_name_ns(n, "*", "*"));
        }
        "get_attribute" => {
            drop(n.get_attribute("k"));
            drop(n.get_attribute_node("k"));
            drop(n.get_attribute_ns("urn:u", "k"));
            drop(n.get_attribute_node_ns("urn:u", "k"));
            n.has_attribute("k");
            n.has_attribute_ns("urn:u", "k");
            n.has_attributes();
        }
        "namespaced" => {
            n.contains_mapping(None);
            n.get_namespace(Some("p"));
            n.resolve_namespace(Some("p"));
            n.contains_mapped_namespace("urn:u");
            n.get_prefix("urn:u");
            n.resolve_prefix("urn:u");
        }
        "value" => {
            n.value();
            n.owner_element();
            CharacterData::data(n);
            CharacterData::length(n);
            ProcessingInstruction::data(n);
            ProcessingInstruction::length(n);
            n.target();
            n.tag_name();
        }
        "identifiers" => {
            DocumentType::public_id(n);
            DocumentType::system_id(n);
            Entity::public_id(n);
            Entity::system_id(n);
            Notation::public_id(n);
            Notation::system_id(n);
            n.notation_name();
            n.internal_subset();
            n.entities();
            n.notations();
        }
        "document views" => {
            n.doc_type();
            n.document_element();
            n.xml_declaration();
        }
        _ => {
            n.specified();
            n.is_supported("Core", "2.0");
        }
    }
    None
}
/// Whose calls may change a node.
fn changes(what: &str, k: K) -> bool {
    match what {
        "set_xml_declaration" => k == K::Document,
        "CharacterData::set_data" | "CharacterData::unset_data" => is_chardata(k),
        "ProcessingInstruction::set_data" | "ProcessingInstruction::unset_data" => k == K::PI,
        "split" => matches!(k, K::Text | K::CData),
        _ => false,
    }
}

pub fn p19(ctx: &Ctx) {
    // type tests and casts, and the lasting name and type, while everything is tried on everything
    let all_casts = |m: &Model, r: &Real| -> R {
        for i in m.live() {
            if turn() {
                casts(r.g(i))?;
            }
        }
        Ok(())
    };
    let with_casts = |depth: usize| Plan {
        depth,
        mask: ALL,
        view: Some(&all_casts),
        ..Plan::default()
    };
    let plain = |depth: usize| Plan {
        depth,
        mask: ALL,
        ..Plan::default()
    };
    let (spec, init) = one_of_each();
    let pairs = World::new("all-operations", spec.clone(), init.clone(), |m| foreign_ops(m, true));
    let single = World::new("single-operations", spec.clone(), init.clone(), |m| foreign_ops(m, false));
    explore(ctx, &pairs, &with_casts(1));
    explore(ctx, &single, &with_casts(3));
    if ctx.thorough() {
        explore(ctx, &pairs, &plain(2));
    }
    explore(ctx, &all_types(), &with_casts(2));
    // names stay whatever is declared around them
    const XMLNS: &str = "http://www.w3.org/2000/xmlns/";
    let mut chain = vec![
        Spec::Doc(0, None),
        Spec::ElNs(0, "urn:u", "p:e"),
        Spec::ElNs(0, "urn:u", "e"),
        Spec::El(0, "p:e"),
        Spec::AtNs(0, "urn:u", "p:k"),
        Spec::AtNs(0, "urn:u", "k"),
    ];
    chain[0] = Spec::Doc(OPT_NS, None);
    let named = |spec: Vec<Spec>, name: &str| {
        World::new(name.to_string(), spec, vec![], |m| {
            let mut ops = vec![Op::SetAttrNode(1, 4), Op::SetAttrNode(2, 5), Op::SetAttrNode(3, 4)];
            for e in 1..4 {
                for (q, u) in [("xmlns", "urn:u"), ("xmlns", "urn:v"), ("xmlns:p", "urn:u"), ("xmlns:p", "urn:v"), ("xmlns:q", "urn:u")] {
                    ops.push(Op::SetAttrNs(e, XMLNS, q, u));
                }
                ops.push(Op::SetAttr(e, "xmlns", "urn:u"));
                ops.push(Op::SetAttr(e, "xmlns:p", "urn:v"));
                for c in 1..4 {
                    if c != e {
                        ops.push(Op::Append(e, c));
                    }
                }
                ops.push(Op::Append(0, e));
                if m.nodes.len() < 24 {
                    ops.push(Op::Clone(e, true));
                }
            }
            ops
        })
        .max(24)
    };
    explore(ctx, &named(chain.clone(), "declared names"), &plain(3));
    chain[0] = Spec::Doc(0, None);
    explore(ctx, &named(chain, "names without namespaces"), &plain(2));
    odd_names(ctx, &with_casts(ctx.pick(1, 2)), false);
    let copies = World::new("copies", spec.clone(), init.clone(), |m| {
        let n = m.nodes.len();
        let mut ops = vec![];
        for i in m.live() {
            if m.n(i).k != K::Document {
                ops.push(Op::Clone(i, true));
                if m.n(i).k != K::Attribute {
                    ops.push(Op::Clone(i, false));
                }
                ops.push(Op::SetNV(i, "x"));
                ops.push(Op::UnsetNV(i));
            }
        }
        let _ = n;
        ops
    })
    .max(21);
    explore(ctx, &copies, &with_casts(3));
    // values, as sequences on one node of each type
    for n in 0..15 {
        if matches!(n, 4) {
            continue;
        }
        let w = World::new(format!("values{}", n), spec.clone(), init.clone(), move |_| {
            let mut ops = vec![Op::UnsetNV(n), Op::UnsetData(n)];
            for v in ["", "x", "é<&", " y "] {
                ops.push(Op::SetNV(n, v));
                ops.push(Op::SetData(n, v));
            }
            ops
        });
        explore(ctx, &w, &plain(ctx.pick(6, 8)));
        explore(ctx, &w, &plain(1).turns(2));
        again(ctx, &w, &plain(1), 1, 2, 300);
    }
    // calls that are not operations of the model
    let (spec, init) = one_of_each();
    let total = 15 * CALLS.len() * CALLS.len();
    ctx.note(format!("every pair of {} calls through any interface on every node", CALLS.len()));
    ctx.par(total as u64, |th, i| {
        let i = i as usize;
        let (n, c1, c2) = (i % 15, i / 15 % CALLS.len(), i / 15 / CALLS.len());
        case(th, format_args!("node {} calls {} then {}", n, CALLS[c1], CALLS[c2]), |th| {
            let mut p = Pair::new(&spec)?;
            p.steps(&init)?;
            let k = p.m.n(n).k;
            for c in [CALLS[c1], CALLS[c2]] {
                if changes(c, k) {
                    continue;
                }
                let got = match guard(|| call(&mut p.r.m(n), c)) {
                    Ok(g) => g,
                    // only the type's own operations are promised not to panic
                    Err(_) => None,
                };
                th.transitions += 1;
                if c == "set_xml_declaration" {
                    match got {
                        Some(Err(_)) => (),
                        _ => return Err(format!("{} on {:?} is not refused", c, k)),
                    }
                }
                p.compare(ALL).map_err(|e| format!("after {}: {}", c, e))?;
                for i in p.m.live() {
                    casts(p.r.g(i)).map_err(|e| format!("after {}: {}", c, e))?;
                }
                same("declaration", p.r.g(1).xml_declaration().is_none(), true)?;
            }
            Ok(())
        });
    });
    // edits through the casts are edits of the node
    ctx.par(1, |th, _| {
        for (i, k) in [(6, K::Text), (7, K::CData), (11, K::PI), (12, K::Comment), (5, K::Attribute), (2, K::Element), (3, K::Element), (1, K::Document)] {
            case(th, format_args!("edits through casts of node {}", i), |th| {
                let mut p = Pair::new(&spec)?;
                p.steps(&init)?;
                same("type", p.m.n(i).k, k)?;
                let fail = |e: Error| format!("{:?}", e);
                let mut n = p.r.m(i);
                for v in ["", "x", "é"] {
                    match k {
                        K::Text => as_text_mut(&mut n).map_err(fail)?.set_data(v).map_err(fail)?,
                        K::CData => as_cdata_section_mut(&mut n).map_err(fail)?.set_data(v).map_err(fail)?,
                        K::PI => as_processing_instruction_mut(&mut n).map_err(fail)?.set_data(v).map_err(fail)?,
                        K::Comment => as_comment_mut(&mut n).map_err(fail)?.set_data(v).map_err(fail)?,
                        K::Attribute => as_attribute_mut(&mut n).map_err(fail)?.set_node_value(v).map_err(fail)?,
                        K::Element => as_element_mut(&mut n).map_err(fail)?.set_node_value(v).map_err(fail)?,
                        _ => as_document_mut(&mut n).map_err(fail)?.set_node_value(v).map_err(fail)?,
                    }
                    p.m.apply(Op::SetNV(i, v));
                    th.transitions += 1;
                    p.compare(ALL)?;
                    if is_chardata(k) {
                        as_character_data_mut(&mut n).map_err(fail)?.append_data("+").map_err(fail)?;
                        p.m.apply(Op::AppendData(i, "+"));
                        p.compare(ALL)?;
                    }
                }
                Ok(())
            });
        }
    });
}

// ------------------------------------------------------------------------------------------------
// P20

fn is_encoding(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && b[0].is_ascii_alphabetic()
        && b[1..].iter().all(|c| c.is_ascii_alphanumeric() || matches!(c, b'.' | b'_' | b'-'))
}
fn encoding(th: &mut Th<'_>, s: &str) {
    case(th, format_args!("encoding {:?}", s), |th| {
        th.transitions += 1;
        let got = guard(|| XmlDecl::new(XmlVersion::V10, Some(s.to_string()), None));
        match (got, is_encoding(s)) {
            (Ok(d), true) => {
                same("encoding", d.encoding().as_deref(), Some(s))?;
                same("text", d.to_string(), format!("<?xml version=\"1.0\" encoding=\"{}\"?>", s))
            }
            (Err(_), false) => Ok(()),
            (Ok(_), false) => Err("accepted".to_string()),
            (Err(e), true) => Err(format!("refused: {}", e)),
        }
    });
}
fn version(th: &mut Th<'_>, s: &str) {
    case(th, format_args!("version {:?}", s), |th| {
        th.transitions += 1;
        let want = match s {
            "1.0" => Some(XmlVersion::V10),
            "1.1" => Some(XmlVersion::V11),
            _ => None,
        };
        let got = XmlVersion::from_str(s).ok();
        if let Some(v) = &got {
            same("version printed", v.to_string().as_str(), s)?;
        }
        same("version", got, want)
    });
}
fn feature(th: &mut Th<'_>, doc: &[RefNode], f: &str, v: &str) {
    case(th, format_args!("feature {:?} version {:?}", f, v), |th| {
        th.transitions += 1;
        let want = (f.eq_ignore_ascii_case("core") || f.eq_ignore_ascii_case("xml")) && matches!(v, "" | "1.0" | "2.0");
        same("has_feature", get_implementation().has_feature(f, v), want)?;
        for d in doc {
            same(format!("is_supported of {:?}", kind(d)), d.is_supported(f, v), want)?;
        }
        same("has_feature of the document's", doc[0].implementation().has_feature(f, v), want)
    });
}

fn flags(o: &ProcessingOptions, want: u8) -> R {
    same("has_assume_ids", o.has_assume_ids(), want & 1 != 0)?;
    same("has_parse_entities", o.has_parse_entities(), want & 2 != 0)?;
    same("has_add_namespaces", o.has_add_namespaces(), want & 4 != 0)?;
    same("has_none", o.has_none(), want == 0)?;
    same("equality with the same flags", *o == options(want), true)?;
    for other in 0..8 {
        same(format!("equality with {:03b}", other), *o == options(other), other == want)?;
    }
    let names: Vec<&str> = [(1, "AssumeIDs"), (2, "ParseEntities"), (4, "AddNamespaces")]
        .iter()
        .filter(|x| want & x.0 != 0)
        .map(|x| x.1)
        .collect();
    same("text", o.to_string(), format!("ProcessingOptions {{{}}}", names.join(", ")))?;
    same("binary", format!("{:b}", o), format!("{:08b}", want))?;
    same("alternate binary", format!("{:#b}", o), format!("0b{:08b}", want))
}

fn decl_is(d: &XmlDecl, v: &str, e: Option<&str>, s: Option<bool>, text: &str) -> R {
    same("version", d.version().to_string().as_str(), v)?;
    same("encoding", d.encoding().as_deref(), e)?;
    same("standalone", d.standalone(), s)?;
    same("text", d.to_string().as_str(), text)
}

pub fn p20(ctx: &Ctx) {
    // declarations
    let encodings: [Option<&str>; 7] =
        [None, Some("UTF-8"), Some("utf-16"), Some("a"), Some("ISO-10646-UCS-2"), Some("Shift_JIS"), Some("x.-_9")];
    let mut decls: Vec<(&'static str, Option<&str>, Option<bool>)> = vec![];
    for v in ["1.0", "1.1"] {
        for e in encodings {
            for s in [None, Some(true), Some(false)] {
                decls.push((v, e, s));
            }
        }
    }
    let n = decls.len();
    ctx.note(format!(
        "{} declarations alone; every sequence of up to two of them (thorough: three of every other) set on a document, with and without document type, comment and element, before and after them",
        n
    ));
    let decls = &decls;
    ctx.par((n * n * 8) as u64, |th, i| {
        let i = i as usize;
        let (a, b, shape) = (i % n, i / n % n, i / n / n);
        case(th, format_args!("declarations {} then {} on document {}", a, b, shape), |th| {
            let mut spec = vec![];
            if shape & 1 != 0 {
                spec.push(Spec::DocType("dt", Some("P"), Some("S")));
            }
            let d = spec.len();
            spec.push(Spec::Doc(0, if shape & 1 != 0 { Some(0) } else { None }));
            spec.push(Spec::Comment(d, "c"));
            spec.push(Spec::El(d, "a"));
            let mut p = Pair::new(&spec)?;
            if shape & 2 != 0 {
                p.step(Op::Append(d, d + 1))?;
            }
            same("first declaration", p.r.g(d).xml_declaration().is_none(), true)?;
            written(&p.m, &p.r, d, None)?;
            let seq: Vec<usize> = if ctx.thorough() { vec![a, b, (a * 5 + b * 3) % n, a] } else { vec![a, b] };
            for (turn, x) in seq.into_iter().enumerate() {
                let (v, e, s) = decls[x];
                let (decl, text) = make_decl(&XmlV::V(v), e, s);
                let (decl, text) = (decl.unwrap(), text.unwrap());
                decl_is(&decl, v, e, s, &text)?;
                decl_is(&decl.clone(), v, e, s, &text)?;
                p.r.m(d).set_xml_declaration(decl).map_err(|e| format!("set_xml_declaration: {:?}", e))?;
                th.transitions += 1;
                let got = p.r.g(d).xml_declaration().ok_or("no declaration")?;
                decl_is(&got, v, e, s, &text)?;
                p.compare(ALL)?;
                written(&p.m, &p.r, d, Some(&text))?;
                if turn == 0 && shape & 4 != 0 {
                    p.step(Op::Append(d, d + 2))?;
                    written(&p.m, &p.r, d, Some(&text))?;
                    let got = p.r.g(d).xml_declaration().ok_or("no declaration")?;
                    decl_is(&got, v, e, s, &text)?;
                }
                // through the casts too
                let n = p.r.g(d);
                let c = as_document_decl(n).map_err(|e| format!("{:?}", e))?;
                decl_is(&c.xml_declaration().ok_or("no declaration")?, v, e, s, &text)?;
            }
            Ok(())
        });
    });
    ctx.par(1, |th, _| {
        case(th, format_args!("default declaration"), |_| {
            decl_is(&XmlDecl::default(), "1.0", None, None, "<?xml version=\"1.0\"?>")
        });
        // the name of a document type and the one of the document element have nothing to do with each other
        const NAMES: [&str; 7] = ["r", "p:r", "q:r", "R", "s", "p:s", "rr"];
        for name in NAMES {
            for element in [None].into_iter().chain(NAMES.map(Some)) {
                for by in [false, true] {
                    case(th, format_args!("type {} of a document with {:?}, with a namespace {}", name, element, by), |_| {
                        let mut spec = vec![Spec::DocType(name, Some("P"), Some("S")), Spec::Doc(0, Some(0))];
                        spec.extend(element.map(|e| if by { Spec::ElNs(1, "urn:u", e) } else { Spec::El(1, e) }));
                        let mut p = Pair::new(&spec)?;
                        let text = format!("<!DOCTYPE {} PUBLIC \"P\" SYSTEM \"S\">", name);
                        same("document type", p.r.g(0).to_string(), text.clone())?;
                        if element.is_some() {
                            p.step(Op::Append(1, 2))?;
                        }
                        p.compare(ALL)?;
                        same("document type", p.r.g(0).to_string(), text.clone())?;
                        let all = format!("{}{}", text, if element.is_some() { p.r.g(2).to_string() } else { String::new() });
                        same("document", p.r.g(1).to_string(), all)?;
                        if element.is_some() {
                            p.step(Op::Remove(1, 2))?;
                        }
                        same("document type", p.r.g(0).to_string(), text)
                    });
                }
            }
        }
        // what a document writes with many children before, between and after
        for n in 0..7usize {
            for root in 0..=n {
                case(th, format_args!("document with {} nodes, element at {}", n, root), |_| {
                    let mut spec = vec![Spec::DocType("dt", None, Some("S")), Spec::Doc(0, Some(0)), Spec::El(1, "a")];
                    let mut ops = vec![];
                    for i in 0..n {
                        spec.push(if i % 2 == 0 { Spec::Comment(1, "c") } else { Spec::PI(1, "p", Some("q")) });
                        if i == root {
                            ops.push(Op::Append(1, 2));
                        }
                        ops.push(Op::Append(1, 3 + i));
                    }
                    if root == n {
                        ops.push(Op::Append(1, 2));
                    }
                    let mut p = Pair::new(&spec)?;
                    p.steps(&ops)?;
                    let (decl, text) = make_decl(&XmlV::V("1.1"), Some("UTF-8"), Some(false));
                    p.r.m(1).set_xml_declaration(decl.unwrap()).map_err(|e| format!("{:?}", e))?;
                    written(&p.m, &p.r, 1, text.as_deref())?;
                    p.compare(ALL)
                });
            }
        }
    });
    // identifiers
    let values: [Option<S>; 9] = [
        None, Some("P"), Some("S"), Some(""), Some(" "), Some("-//W3C//DTD XHTML 1.0//EN"), Some("http://x/y?z=1&w"),
        Some("é<>"), Some("PUBLIC"),
    ];
    ctx.note("document types, entities and notations with every pair of 9 public and system identifiers, 6 names, and internal entities with 9 values");
    ctx.par(values.len() as u64 * values.len() as u64, |th, i| {
        let (p, s) = (values[i as usize % values.len()], values[i as usize / values.len()]);
        for name in ["n", "p:n", "é", "SYSTEM", "a-b.c", "_"] {
            for (what, spec) in [
                ("document type", Spec::DocType(name, p, s)),
                ("entity", Spec::Entity(0, name, p, s)),
                ("internal entity", Spec::IntEntity(0, name, p.unwrap_or("v"))),
                ("notation", Spec::Notation(0, name, p, s)),
            ] {
                case(th, format_args!("{} {:?} {:?} {:?}", what, name, p, s), |th| {
                    th.transitions += 1;
                    let mut specs = vec![Spec::Doc(0, None), spec];
                    if what == "document type" {
                        specs.push(Spec::Doc(0, Some(1)));
                        specs.push(Spec::El(2, "a"));
                    }
                    let mut pair = Pair::new(&specs)?;
                    if what == "document type" {
                        pair.step(Op::Append(2, 3))?;
                    }
                    // an external entity without identifiers has no syntax of its own
                    let odd = what == "entity" && p.is_none() && s.is_none();
                    for _ in 0..2 {
                        pair.compare(ALL)?;
                        if !odd {
                            for i in 1..pair.m.nodes.len() {
                                written(&pair.m, &pair.r, i, None)?;
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    });
    // versions and encodings
    let alphabet = ["U", "z", "0", "9", ".", "_", "-", " ", "é", "/", ":"];
    for len in 0..=ctx.pick(6, 7) {
        let all = Strings { alphabet: &alphabet, len };
        ctx.note(format!("{} encoding names of {} characters from {:?}", all.count(), len, alphabet));
        ctx.par(all.count(), |th, i| {
            let mut s = String::new();
            all.get(i, &mut s);
            encoding(th, &s);
        });
    }
    let alphabet = ["1", ".", "0", "2", " ", "v", "-"];
    for len in 0..=ctx.pick(7, 8) {
        let all = Strings { alphabet: &alphabet, len };
        ctx.note(format!("{} version strings of {} characters from {:?}", all.count(), len, alphabet));
        ctx.par(all.count(), |th, i| {
            let mut s = String::new();
            all.get(i, &mut s);
            version(th, &s);
        });
    }
    ctx.note("every Unicode scalar in an encoding name and in a version");
    ctx.par(0x11_0000, |th, i| {
        if let Some(c) = char::from_u32(i as u32) {
            encoding(th, &c.to_string());
            encoding(th, &format!("U{}", c));
            encoding(th, &format!("U{}8", c));
            encoding(th, &format!("U-{}", c));
            version(th, &format!("1.{}", c));
            version(th, &format!("{}.0", c));
            version(th, &format!("1{}0", c));
            version(th, &format!("1.0{}", c));
            version(th, &format!("{}1.1", c));
        }
    });
    let longs = Longs {
        fills: &["U", "8", "-", "0", "1.0", " ", "Core", "xml"],
        marks: &["U", "é", " ", "1.0", "Core", "XML", ".", "\n", "\0"],
        sizes: long_sizes(ctx, 65_536),
    };
    ctx.note(format!("{} as encoding, version, feature and identifiers", longs.describe()));
    ctx.par(longs.count(), |th, i| {
        let (v, n, fill, mark, shape) = longs.get(i);
        let mut r = Real::default();
        let _ = r.make(Spec::Doc(0, None));
        let d = vec![r.m(0)];
        encoding(th, &v);
        version(th, &v);
        feature(th, &d, &v, "");
        feature(th, &d, &v, "2.0");
        feature(th, &d, "Core", &v);
        if i % 8 < 4 {
            case(th, format_args!("identifiers {:?} x {} with {:?} ({})", fill, n, mark, shape), |th| {
                let v = intern(&v);
                th.transitions += 1;
                let p = Pair::new(&[
                    Spec::DocType("d", Some(v), Some(v)),
                    Spec::Doc(0, Some(0)),
                    Spec::Entity(1, "e", Some(v), None),
                    Spec::Notation(1, "n", None, Some(v)),
                    Spec::IntEntity(1, "i", v),
                    Spec::Entity(1, "f", Some(""), Some(v)),
                ])?;
                p.compare(ALL)
            });
        }
    });
    // options
    ctx.note("every sequence of up to 5 settings of processing options, and union and intersection of every pair reached so");
    ctx.par(4u64.pow(5), |th, i| {
        case(th, format_args!("option settings {}", i), |th| {
            let (mut x, mut o, mut want) = (i, ProcessingOptions::new(), 0u8);
            flags(&o, 0)?;
            for _ in 0..5 {
                match x % 4 {
                    0 => {
                        o.set_assume_ids();
                        want |= 1
                    }
                    1 => {
                        o.set_parse_entities();
                        want |= 2
                    }
                    2 => {
                        o.set_add_namespaces();
                        want |= 4
                    }
                    _ => (),
                }
                x /= 4;
                th.transitions += 1;
                flags(&o, want)?;
                flags(&o.clone(), want)?;
                for other in 0..8u8 {
                    flags(&(o.clone() | options(other)), want | other)?;
                    flags(&(options(other) | o.clone()), want | other)?;
                    flags(&(o.clone() & options(other)), want & other)?;
                    flags(&(options(other) & o.clone()), want & other)?;
                    let mut u = o.clone() | options(other);
                    u.set_parse_entities();
                    flags(&u, want | other | 2)?;
                }
            }
            Ok(())
        });
    });
    // the implementation
    ctx.par(1, |th, _| {
        case(th, format_args!("implementation version"), |_| {
            let v = xml_dom::level2::dom_impl::get_implementation_version();
            let ok = v.strip_prefix("xml_dom:").is_some_and(|n| n.split('.').count() == 3 && n.starts_with(|c: char| c.is_ascii_digit()));
            same(format!("version {:?} names crate and version", v), ok, true)
        });
    });
    // features
    let letters = ["c", "C", "o", "r", "R", "e", "x", "X", "m", "l", "L", " "];
    let max = ctx.pick(5, 6);
    let versions = upto(&["1", "2", ".", "0", " "], 3);
    ctx.note(format!(
        "every feature of up to {} letters from {:?} and near misses, with every version of up to 3 characters from 1 2 . 0 and space, on the implementation and a node of every type",
        max, letters
    ));
    for len in 0..=max {
        let all = Strings { alphabet: &letters, len };
        ctx.par(all.count(), |th, i| {
            let mut s = String::new();
            all.get(i, &mut s);
            let mut r = Real::default();
            let _ = r.make(Spec::Doc(0, None));
            let d = vec![r.m(0)];
            feature(th, &d, &s, "");
            feature(th, &d, &s, "1.0");
            feature(th, &d, &s, "2.0");
            feature(th, &d, &s, "1.1");
        });
    }
    ctx.par(16 + 8 + 12, |th, i| {
        let case_of = |w: &str, bits: u64| -> String {
            w.chars()
                .enumerate()
                .map(|(j, c)| if bits >> j & 1 == 1 { c.to_ascii_uppercase() } else { c })
                .collect()
        };
        let f = match i {
            0..=15 => case_of("core", i),
            16..=23 => case_of("xml", i - 16),
            _ => ["HTML", "Events", "Core ", " XML", "XMLs", "Cor", "XM", "coré", "ﬁ", "Core/XML", "xml1.0", "*"][i as usize - 24].to_string(),
        };
        let w = all_types();
        let Ok(r) = w.real(&[]) else { return };
        let mut nodes: Vec<RefNode> = r.nodes.iter().flatten().cloned().collect();
        nodes.swap(0, 1);
        for v in &versions {
            feature(th, &nodes, &f, v);
        }
        for v in ["1.0.0", "2.00", "02.0", "3.0", "+1.0", "１.0", "2.0 ", "1", "2"] {
            feature(th, &nodes, &f, v);
        }
    });
}
