//! P17 and P18: names, and what the factories make.

use super::strings::*;
use super::worlds::*;
use crate::ctx::*;
use crate::explore::*;
use crate::model::*;
use crate::real::*;
use std::str::FromStr;
use xml_dom::level2::ext::dom_impl::*;
use xml_dom::level2::ext::*;
use xml_dom::level2::*;

type R = std::result::Result<(), String>;

// ------------------------------------------------------------------------------------------------
// P17

fn name_is(what: &str, name: &Name, q: &Q) -> R {
    if same_name(name, q) && name.to_string() == q.to_string() {
        let xmlns = q.ns == Some(XMLNS) && (q.prefix == Some("xmlns") || q.prefix.is_none() && q.local == "xmlns");
        same(format!("{}: is_namespace_attribute", what), name.is_namespace_attribute(), xmlns)?;
        let id = q.local == "id";
        same(format!("{}: is_id_attribute, lax", what), name.is_id_attribute(true), id)?;
        let strict = id && (q.ns == Some(XMLURI) || q.prefix == Some("xml"));
        same(format!("{}: is_id_attribute", what), name.is_id_attribute(false), strict)?;
        Ok(())
    } else {
        Err(format!("{} gives name {:?}, expected {:?}", what, name, q))
    }
}
fn verdict<T>(what: &str, got: &Result<T>, want: &std::result::Result<Q, Vec<E>>) -> R {
    match (got, want) {
        (Ok(_), Ok(_)) => Ok(()),
        (Err(e), Err(kinds)) if kinds.contains(&err(e)) => Ok(()),
        (Ok(_), Err(kinds)) => Err(format!("{} accepted, expected error {:?}", what, kinds)),
        (Err(e), Err(kinds)) => Err(format!("{} gives error {:?}, expected {:?}", what, e, kinds)),
        (Err(e), Ok(_)) => Err(format!("{} refused: {:?}", what, e)),
    }
}
fn node_is(what: &str, got: &Result<RefNode>, want: &std::result::Result<Q, Vec<E>>, k: K) -> R {
    verdict(what, got, want)?;
    if let (Ok(n), Ok(q)) = (got, want) {
        name_is(what, &n.node_name(), q)?;
        same(format!("type from {}", what), kind(n), k)?;
        same(format!("namespace from {}", what), n.namespace_uri().as_deref(), q.ns)?;
        same(format!("prefix from {}", what), Node::prefix(n).as_deref(), q.prefix)?;
        same(format!("local name from {}", what), Node::local_name(n).as_str(), q.local)?;
    }
    Ok(())
}

struct Place {
    doc: RefNode,
    el: RefNode,
}
impl Place {
    fn new() -> Place {
        let doc = get_implementation().create_document(None, None, None).unwrap();
        let el = doc.create_element("e").unwrap();
        Place { doc, el }
    }
}

/// One name, offered to everything taking a name without namespace.
fn plain(th: &mut Th<'_>, p: &mut Place, s: &str) -> R {
    let want = parse_name(None, s);
    let d = &p.doc;
    let parsed = Name::from_str(s);
    verdict("Name::from_str", &parsed, &want)?;
    if let (Ok(n), Ok(q)) = (&parsed, &want) {
        name_is("Name::from_str", n, q)?;
        same("name printed", n.to_string().as_str(), s)?;
    }
    let bytes = Name::try_from(s.as_bytes());
    verdict("Name::try_from", &bytes, &want)?;
    if let (Ok(n), Ok(q)) = (&bytes, &want) {
        name_is("Name::try_from", n, q)?;
    }
    node_is("create_element", &d.create_element(s), &want, K::Element)?;
    node_is("create_attribute", &d.create_attribute(s), &want, K::Attribute)?;
    node_is("create_attribute_with", &d.create_attribute_with(s, "v"), &want, K::Attribute)?;
    node_is("create_entity_reference", &d.create_entity_reference(s), &want, K::EntityRef)?;
    node_is("create_entity", &create_entity(d.clone(), s, None, None), &want, K::Entity)?;
    node_is("create_internal_entity", &create_internal_entity(d.clone(), s, "v"), &want, K::Entity)?;
    node_is("create_notation", &create_notation(d.clone(), s, None, None), &want, K::Notation)?;
    node_is(
        "create_document_type",
        &get_implementation().create_document_type(s, None, None),
        &want,
        K::DocType,
    )?;
    let target = if s.eq_ignore_ascii_case("xml") {
        Err(vec![E::Syntax])
    } else {
        want.clone()
    };
    node_is("create_processing_instruction", &d.create_processing_instruction(s, None), &target, K::PI)?;
    let made = get_implementation().create_document(None, Some(s), None);
    verdict("create_document", &made, &want)?;
    if let (Ok(n), Ok(q)) = (&made, &want) {
        let e = n.document_element().ok_or("no document element")?;
        name_is("create_document", &e.node_name(), q)?;
    }
    // attributes on an element
    let set = p.el.set_attribute(s, "v");
    verdict("set_attribute", &set, &want)?;
    let have = p.el.attributes();
    match &want {
        Ok(q) => {
            same("attributes after set_attribute", have.len(), 1)?;
            name_is("set_attribute", have.keys().next().unwrap(), q)?;
            same("has_attribute", p.el.has_attribute(s), true)?;
            same("get_attribute", p.el.get_attribute(s), Some("v".to_string()))?;
            p.el.remove_attribute(s).map_err(|e| format!("remove_attribute: {:?}", e))?;
            same("attributes after remove_attribute", p.el.attributes().len(), 0)?;
        }
        Err(_) => {
            same("attributes after refused set_attribute", have.len(), 0)?;
            same("has_attribute", p.el.has_attribute(s), false)?;
            same("get_attribute", p.el.get_attribute(s), None)?;
            let _ = p.el.remove_attribute(s);
        }
    }
    th.transitions += 12;
    Ok(())
}

/// One name and namespace, offered to everything taking both.
fn qualified(th: &mut Th<'_>, p: &mut Place, ns: &str, s: &str) -> R {
    let want = parse_name(Some(ns), s);
    let d = &p.doc;
    let parsed = Name::new_ns(ns, s);
    verdict("Name::new_ns", &parsed, &want)?;
    if let (Ok(n), Ok(q)) = (&parsed, &want) {
        name_is("Name::new_ns", n, q)?;
        same("name printed", n.to_string().as_str(), s)?;
    }
    node_is("create_element_ns", &d.create_element_ns(ns, s), &want, K::Element)?;
    node_is("create_attribute_ns", &d.create_attribute_ns(ns, s), &want, K::Attribute)?;
    let made = get_implementation().create_document(Some(ns), Some(s), None);
    verdict("create_document", &made, &want)?;
    if let (Ok(n), Ok(q)) = (&made, &want) {
        let e = n.document_element().ok_or("no document element")?;
        name_is("create_document", &e.node_name(), q)?;
    }
    let set = p.el.set_attribute_ns(ns, s, "v");
    verdict("set_attribute_ns", &set, &want)?;
    let have = p.el.attributes();
    match &want {
        Ok(q) => {
            same("attributes after set_attribute_ns", have.len(), 1)?;
            name_is("set_attribute_ns", have.keys().next().unwrap(), q)?;
            p.el.remove_attribute(s).map_err(|e| format!("remove_attribute: {:?}", e))?;
            same("attributes after remove_attribute", p.el.attributes().len(), 0)?;
        }
        Err(_) => same("attributes after refused set_attribute_ns", have.len(), 0)?,
    }
    th.transitions += 5;
    Ok(())
}

/// A prefix given to a name that has the namespace and local name.
fn prefix(th: &mut Th<'_>, ns: Option<&str>, local: &str, prefix: Option<&str>) -> R {
    let mut name = match ns {
        None => Name::from_str(&format!("old:{}", local)),
        Some(ns) => Name::new_ns(ns, format!("old:{}", local)),
    }
    .map_err(|e| format!("{:?}", e))?;
    let before = name.clone();
    let mut kinds = vec![];
    if let Some(p) = prefix {
        if p.contains(':') {
            kinds.push(E::Namespace);
        }
        if p.is_empty() {
            kinds.push(E::Syntax);
        }
        if !p.is_empty() && !is_ncname(p) {
            kinds.push(E::InvalidCharacter);
        }
        if ns.is_some_and(|ns| (p == "xml" && ns != XMLURI) || (p == "xmlns" && ns != XMLNS)) {
            kinds.push(E::Namespace);
        }
    }
    th.transitions += 1;
    let got = name.set_prefix(prefix);
    match (&got, kinds.is_empty()) {
        (Ok(()), true) => {
            same("prefix", name.prefix().as_deref(), prefix)?;
            same("local name", name.local_name().as_str(), local)?;
            same("namespace", name.namespace_uri().as_deref(), ns)
        }
        (Err(e), false) if kinds.contains(&err(e)) => same("name after refusal", name, before),
        _ => Err(format!("set_prefix gives {:?}, expected errors {:?}", got, kinds)),
    }
}

fn hash(n: &Name) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    n.hash(&mut h);
    h.finish()
}

/// Names are equal when all their parts are.
fn equality(ctx: &Ctx) {
    let parts: Vec<(Option<&str>, Option<&str>, &str)> = [None, Some("u"), Some("v"), Some("U"), Some(XMLURI), Some(XMLNS)]
        .into_iter()
        .flat_map(|ns| [None, Some("p"), Some("q"), Some("P"), Some("xml"), Some("xmlns")].into_iter().map(move |p| (ns, p)))
        .flat_map(|(ns, p)| ["a", "A", "p", "id", "ab", "é"].into_iter().map(move |l| (ns, p, l)))
        .filter(|(ns, p, _)| match p {
            Some("xml") => ns.is_none_or(|ns| ns == XMLURI),
            Some("xmlns") => ns.is_none_or(|ns| ns == XMLNS),
            _ => true,
        })
        .collect();
    ctx.note(format!("every pair of {} names compared, and those names with every prefix set and unset", parts.len()));
    let make = |(ns, p, l): (Option<&str>, Option<&str>, &str)| -> std::result::Result<Name, String> {
        let q = p.map_or(l.to_string(), |p| format!("{}:{}", p, l));
        ns.map_or_else(|| Name::from_str(&q), |ns| Name::new_ns(ns, &q)).map_err(|e| format!("{:?}", e))
    };
    let parts = &parts;
    ctx.par(parts.len() as u64, |th, i| {
        let a = parts[i as usize];
        case(th, format_args!("compare {:?}", a), |th| {
            let x = make(a)?;
            for b in parts {
                th.transitions += 1;
                let y = make(*b)?;
                same(format!("equal to {:?}", b), x == y, a == *b)?;
                same(format!("different from {:?}", b), x != y, a != *b)?;
                if x == y {
                    same(format!("hash of {:?}", b), hash(&x), hash(&y))?;
                }
                let mut z = y.clone();
                same("a clone equals", z == y, true)?;
                if (b.0, b.2) == (a.0, a.2) {
                    z.set_prefix(a.1).map_err(|e| format!("set_prefix: {:?}", e))?;
                    same(format!("{:?} with that prefix", b), z == x && hash(&z) == hash(&x), true)?;
                    same("the name it was cloned from", y == make(*b)?, true)?;
                }
            }
            Ok(())
        });
    });
    ctx.par(1, |th, _| {
        case(th, format_args!("reserved names"), |_| {
            let d = get_implementation().create_document(None, None, None).map_err(|e| format!("{:?}", e))?;
            let plain = |n: &Name, s: &str| -> R {
                same(format!("text of {:?}", n), n.to_string().as_str(), s)?;
                same(format!("parts of {:?}", n), (n.namespace_uri(), n.prefix(), n.local_name().as_str()), (&None, &None, s))
            };
            for (n, s, node) in [
                (Name::for_document(), "#document", Some(d.clone())),
                (Name::for_text(), "#text", Some(d.create_text_node("t"))),
                (Name::for_comment(), "#comment", Some(d.create_comment("t"))),
                (Name::for_cdata(), "#cdata-section", d.create_cdata_section("t").ok()),
                (Name::for_document_fragment(), "#document-fragment", d.create_document_fragment().ok()),
                (Name::for_public_id(), "PUBLIC", None),
                (Name::for_system_id(), "SYSTEM", None),
            ] {
                plain(&n, s)?;
                if let Some(node) = node {
                    same(format!("name of a {:?}", node.node_type()), node.node_name() == n, true)?;
                }
            }
            same("for_xml_id", Name::for_xml_id() == make((Some(XMLURI), Some("xml"), "id"))?, true)?;
            same("for_namespace()", Name::for_namespace(None) == make((Some(XMLNS), None, "xmlns"))?, true)?;
            for p in ["p", "é", "xm", "q.1-", "P"] {
                same("for_namespace(p)", Name::for_namespace(Some(p)) == make((Some(XMLNS), Some("xmlns"), p))?, true)?;
                same("is_namespace_attribute", Name::for_namespace(Some(p)).is_namespace_attribute(), true)?;
            }
            Ok(())
        });
    });
}

pub fn p17(ctx: &Ctx) {
    equality(ctx);
    // strings
    let alphabet = [
        "a", "Z", "_", "1", ":", "-", ".", " ", "é", "\u{B7}", "\u{D7}", "😀", "/", "\t", "x", "<", "\u{301}",
    ];
    for len in 0..=ctx.pick(4, 5) {
        let s = Strings { alphabet: &alphabet, len };
        ctx.note(format!("{} names of {} pieces from {:?}, in every operation", s.count(), len, alphabet));
        ctx.par((s.count() / 64) + 1, |th, b| {
            let mut p = Place::new();
            let mut v = String::new();
            for i in b * 64..((b + 1) * 64).min(s.count()) {
                s.get(i, &mut v);
                case(th, format_args!("name {:?}", v), |th| {
                    plain(th, &mut p, &v)?;
                    qualified(th, &mut p, "urn:u", &v)?;
                    prefix(th, None, "l", Some(&v))?;
                    prefix(th, Some("urn:u"), "l", Some(&v))
                });
            }
        });
    }
    let parts = [
        "xml", "xmlns", "XML", "xMl", "xm", "xmlnsx", "a", ":", "é", "1", " ", "id", "Xmlns",
    ];
    let spaces = [
        "", "urn:u", XMLURI, XMLNS, "http://www.w3.org/XML/1998/namespace/", "http://www.w3.org/2000/xmlns", " ",
        "HTTP://WWW.W3.ORG/2000/XMLNS/", "é", "xml",
    ];
    for len in 0..=ctx.pick(3, 4) {
        let s = Strings { alphabet: &parts, len };
        ctx.note(format!("{} names of {} pieces from {:?} with each of the namespaces {:?}", s.count(), len, parts, spaces));
        ctx.par(s.count(), |th, i| {
            let mut v = String::new();
            s.get(i, &mut v);
            let mut p = Place::new();
            case(th, format_args!("reserved {:?}", v), |th| {
                plain(th, &mut p, &v)?;
                prefix(th, None, "xml", Some(&v))?;
                prefix(th, None, "l", None)
            });
            for ns in spaces {
                case(th, format_args!("reserved {:?} in {:?}", v, ns), |th| {
                    qualified(th, &mut p, ns, &v)?;
                    if !ns.is_empty() {
                        prefix(th, Some(ns), "l", Some(&v))?;
                        prefix(th, Some(ns), "l", None)?;
                    }
                    if ns == XMLURI {
                        prefix(th, Some(ns), "xml", Some(&v))?;
                    }
                    Ok(())
                });
            }
        });
    }
    // every character, first and later
    ctx.note("every Unicode scalar alone, as later character, in prefix and in local part, in every operation");
    let block = 256u32;
    ctx.par((0x11_0000 / block) as u64, |th, b| {
        let mut p = Place::new();
        for n in b as u32 * block..(b as u32 + 1) * block {
            let Some(c) = char::from_u32(n) else { continue };
            for (i, v) in [format!("{}", c), format!("a{}", c), format!("{}:a", c), format!("a:b{}c", c)]
                .iter()
                .enumerate()
            {
                case(th, format_args!("character {:?}", v), |th| {
                    if i < 2 {
                        plain(th, &mut p, v)?;
                        qualified(th, &mut p, "urn:u", v)?;
                        prefix(th, Some("urn:u"), "l", Some(v))
                    } else {
                        let want = parse_name(None, v);
                        verdict("Name::from_str", &Name::from_str(v), &want)?;
                        th.transitions += 1;
                        Ok(())
                    }
                });
            }
        }
    });
    // every length
    ctx.par(ctx.pick(300, 2000), |th, n| {
        let mut p = Place::new();
        let n = n as usize;
        for v in ["a".repeat(n), "é".repeat(n), format!("{}:b", "a".repeat(n)), format!("{}-", "a".repeat(n)), format!("{} ", "a".repeat(n))] {
            case(th, format_args!("long {:?}", v), |th| plain(th, &mut p, &v));
        }
    });
    let longs = Longs {
        fills: &["a", "é", "-", "9"],
        marks: &["a", ":", "é", "-", " ", "1", "<", "😀", "\u{b7}", "a:b", ":a", "xml:", "xmlns:", "\0"],
        sizes: long_sizes(ctx, 65_536),
    };
    ctx.note(format!("{} as names in every operation", longs.describe()));
    ctx.par(longs.count(), |th, i| {
        let (v, n, fill, mark, shape) = longs.get(i);
        let mut p = Place::new();
        case(th, format_args!("long {:?} x {} with {:?} ({})", fill, n, mark, shape), |th| {
            plain(th, &mut p, &v)?;
            qualified(th, &mut p, "urn:u", &v)?;
            if ["a", "é"].contains(&fill) && !mark.contains("xml") && mark != ":" {
                prefix(th, Some("urn:u"), "l", Some(&v))?;
                prefix(th, None, "l", Some(&v))?;
            }
            Ok(())
        });
    });
    // bytes that are no text
    let bytes: [u8; 14] = [b'a', b':', b'1', b' ', 0x80, 0xC3, 0xA9, 0xE2, 0x82, 0xAC, 0xF0, 0xFF, 0xC0, 0x00];
    ctx.note("every byte string of up to 4 bytes over a 14-byte alphabet as a name");
    for len in 0..=4u32 {
        ctx.par((bytes.len() as u64).pow(len), |th, i| {
            let mut x = i;
            let v: Vec<u8> = (0..len)
                .map(|_| {
                    let b = bytes[(x % 14) as usize];
                    x /= 14;
                    b
                })
                .collect();
            case(th, format_args!("bytes {:?}", v), |th| {
                th.transitions += 1;
                let want = match std::str::from_utf8(&v) {
                    Ok(s) => parse_name(None, s),
                    Err(_) => Err(vec![E::InvalidCharacter]),
                };
                let got = Name::try_from(v.as_slice());
                verdict("Name::try_from", &got, &want)?;
                match (got, want) {
                    (Ok(n), Ok(q)) => name_is("Name::try_from", &n, &q),
                    _ => Ok(()),
                }
            });
        });
    }
}

// ------------------------------------------------------------------------------------------------
// P18

/// Every creation with every argument, for the document with this id.
fn creations(d: Id) -> Vec<Spec> {
    let names: [S; 9] = ["a", "p:a", "é", "xml:id", "xmlns", "xmlns:p", "xml", "Xml", "xmlx"];
    let near: [S; 12] = ["xml-", "xml.", "xml_", "xml1", "xml:a", "XMLx", "axml", "xm", "xl", "xmlxml", "xm-l", "xml-stylesheet"];
    let nss: [S; 4] = ["urn:u", XMLURI, XMLNS, "é"];
    let data: [S; 8] = ["", "v", "<&>\"'", " é\n", "]]>", "--", "?>", "&#9;&lt;"];
    let ids: [Option<S>; 4] = [None, Some(""), Some("P"), Some("<\"é")];
    let mut v = vec![Spec::Frag(d)];
    for x in data {
        v.extend([Spec::Text(d, x), Spec::CData(d, x), Spec::Comment(d, x)]);
    }
    for n in near {
        v.extend([Spec::El(d, n), Spec::At(d, n), Spec::ERef(d, n), Spec::PI(d, n, None), Spec::PI(d, n, Some("v"))]);
    }
    for n in names {
        v.extend([Spec::El(d, n), Spec::At(d, n), Spec::ERef(d, n)]);
        for x in data {
            v.extend([Spec::AtWith(d, n, x), Spec::IntEntity(d, n, x)]);
            if !n.eq_ignore_ascii_case("xml") {
                v.push(Spec::PI(d, n, Some(x)));
            }
        }
        if !n.eq_ignore_ascii_case("xml") {
            v.push(Spec::PI(d, n, None));
        }
        for ns in nss {
            if parse_name(Some(ns), n).is_ok() {
                v.extend([Spec::ElNs(d, ns, n), Spec::AtNs(d, ns, n)]);
            }
        }
        for p in ids {
            for s in ids {
                v.extend([Spec::Entity(d, n, p, s), Spec::Notation(d, n, p, s), Spec::DocType(n, p, s)]);
            }
        }
    }
    v
}

fn empty_of(r: &RefNode, len: usize) -> R {
    same("parent of the new node", r.parent_node().is_none(), true)?;
    same("children of the new node", r.child_nodes().len(), len)?;
    same("attributes of the new node", r.attributes().len(), 0)?;
    if kind(r) == K::Attribute {
        same("owner of the new attribute", r.owner_element().is_none(), true)?;
    }
    Ok(())
}

pub fn p18(ctx: &Ctx) {
    // one creation, or two, among populated documents
    let mut base = all_types_two();
    let e = 4; // first document: 4..14, second: 14..24
    base.init = vec![
        Op::Append(2, e),
        Op::Append(e, e + 2),
        Op::Append(e, e + 3),
        Op::Append(e, e + 4),
        Op::SetAttrNode(e, e + 1),
        Op::SetVal(e + 1, "v"),
        Op::Append(2, e + 6),
        Op::Append(3, e + 17),
        Op::Append(3, e + 10),
        Op::Append(e + 10, e + 12),
    ];
    let empty = World::new("empty", vec![Spec::Doc(0, None), Spec::Doc(OPT_IDS | OPT_NS, None)], vec![], |_| vec![]);
    let worlds = [(&empty, [0, 1]), (&base, [2, 3])];
    ctx.note(format!("documents plain, and with each of {:?}", &WORN[1..]));
    let outfits = (0..=OUTFITS).flat_map(|o| worlds.map(|(w, docs)| (o, w, docs)));
    for (outfit, w, docs) in outfits {
        for d in docs {
            let all = creations(d);
            ctx.note(format!("{} creations by document #{} of world {}, each made twice", all.len(), d, w.name));
            let each = |th: &mut Th<'_>, i: u64| {
                let s = all[i as usize];
                case(th, format_args!("create {:?} in {}", s, w.name), |th| {
                    let mut p = Pair::new(&w.spec)?;
                    p.steps(&w.init)?;
                    let mut made: Vec<RefNode> = vec![];
                    for _ in 0..2 {
                        let before: Vec<RefNode> = p.r.nodes.iter().flatten().cloned().collect();
                        let id = p.r.make(s)?;
                        let want = spec_model(&mut p.m, s);
                        same("id", id, want)?;
                        if before.contains(p.r.g(id)) {
                            return Err("the new node is an existing one".into());
                        }
                        made.push(p.r.m(id));
                        empty_of(p.r.g(id), matches!(s, Spec::AtWith(..)) as usize)?;
                        p.compare(ALL)?;
                        th.transitions += 1;
                    }
                    // what is done with one of two nodes made alike does not show in the other
                    let first = p.m.nodes.len() - 1 - (matches!(s, Spec::AtWith(..)) as usize + 1);
                    p.step(Op::SetNV(first, "changed"))?;
                    if p.m.n(first).k == K::Attribute {
                        p.step(Op::SetVal(first, "changed"))?;
                    }
                    if p.m.n(first).k == K::Element {
                        p.step(Op::SetAttr(first, "n", "changed"))?;
                    }
                    p.compare(ALL)
                });
            };
            dress(outfit, || ctx.par(all.len() as u64, each));
        }
    }
    // every pair of creations, in either document
    let some = [
        Spec::El(0, "a"),
        Spec::ElNs(0, "urn:u", "p:a"),
        Spec::At(0, "a"),
        Spec::AtWith(0, "a", "v"),
        Spec::AtNs(0, "urn:u", "p:a"),
        Spec::Text(0, "t"),
        Spec::CData(0, "t"),
        Spec::Comment(0, "t"),
        Spec::PI(0, "a", Some("t")),
        Spec::ERef(0, "a"),
        Spec::Frag(0),
        Spec::Entity(0, "a", None, None),
        Spec::IntEntity(0, "a", "t"),
        Spec::Notation(0, "a", None, None),
        Spec::DocType("a", None, None),
        Spec::El(1, "a"),
        Spec::AtWith(1, "a", "v"),
        Spec::Text(1, "t"),
    ];
    let k = some.len() as u64;
    let depth = ctx.pick(4, 5);
    ctx.note(format!("every sequence of {} creations out of {}", depth, k));
    ctx.par(k.pow(depth), |th, i| {
        let mut x = i;
        let mut list = vec![Spec::Doc(0, None), Spec::Doc(0, None)];
        for _ in 0..depth {
            list.push(some[(x % k) as usize]);
            x /= k;
        }
        case(th, format_args!("creations {:?}", &list[2..]), |th| {
            let p = Pair::new(&list)?;
            th.transitions += depth as u64;
            p.compare(ALL)?;
            let all: Vec<&RefNode> = p.r.nodes.iter().flatten().collect();
            for (i, a) in all.iter().enumerate() {
                if all[..i].contains(a) {
                    return Err(format!("node #{} was made before", i));
                }
            }
            Ok(())
        });
    });
    // contents are stored as they are given
    let stored = |th: &mut Th<'_>, v: S, name: S| -> R {
        let list = [
            Spec::Doc(0, None),
            Spec::Text(0, v),
            Spec::CData(0, v),
            Spec::Comment(0, v),
            Spec::PI(0, name, Some(v)),
            Spec::AtWith(0, name, v),
            Spec::IntEntity(0, name, v),
            Spec::Entity(0, name, Some(v), Some("s")),
            Spec::Notation(0, name, Some("p"), Some(v)),
            Spec::DocType(name, Some(v), Some(v)),
            Spec::El(0, name),
            Spec::ERef(0, name),
            Spec::ElNs(0, if v.is_empty() { "u" } else { v }, name),
            Spec::AtNs(0, if v.is_empty() { "u" } else { v }, name),
        ];
        let mut p = Pair::new(&list)?;
        th.transitions += list.len() as u64;
        p.compare(ALL)?;
        p.step(Op::SetNV(1, "changed"))?;
        p.compare(ALL)
    };
    let pieces = ["a", "&", "&lt;", "<", ">", "\"", "'", " ", "\n", "\r", "\0", "é", "]]>", "--", "?>", "#", ";"];
    let all = upto(&pieces, ctx.pick(3, 4));
    ctx.note(format!("{} contents of up to {} pieces of {:?} through every factory that takes one", all.len(), ctx.pick(3, 4), pieces));
    ctx.par(all.len() as u64, |th, i| {
        let v = intern(&all[i as usize]);
        case(th, format_args!("content {:?}", v), |th| stored(th, v, "n"));
    });
    ctx.note("every Unicode scalar through every factory that takes a content");
    ctx.par(0x1100, |th, b| {
        for n in b as u32 * 256..(b as u32 + 1) * 256 {
            if let Some(c) = char::from_u32(n) {
                let v = intern(&format!("{}{}x", c, c));
                case(th, format_args!("content {:?}", v), |th| stored(th, v, "n"));
            }
        }
    });
    let longs = Longs { fills: &["x", "é", " "], marks: &["&", "<", "\n", "😀", "é"], sizes: long_sizes(ctx, 65_536) };
    ctx.note(format!("{} through every factory", longs.describe()));
    ctx.par(longs.count(), |th, i| {
        let (v, n, fill, mark, shape) = longs.get(i);
        let v = intern(&v);
        let name = intern(&v.replace([' ', '&', '<', '\n'], "n"));
        case(th, format_args!("long {:?} x {} with {:?} ({})", fill, n, mark, shape), |th| stored(th, v, name));
    });
    // refused creations leave everything as it is
    let bad: [S; 11] = ["", ":", "a:", ":a", "a:b:c", "1", "a b", "a<", "-", "é ", "\u{D7}"];
    let nss: [S; 3] = ["urn:u", "", XMLNS];
    ctx.par(bad.len() as u64, |th, i| {
        let n = bad[i as usize];
        for (w, docs) in worlds {
            for d in docs {
                case(th, format_args!("refuse {:?} by #{} in {}", n, d, w.name), |th| {
                    let mut p = Pair::new(&w.spec)?;
                    p.steps(&w.init)?;
                    let doc = p.r.m(d);
                    let want = parse_name(None, n);
                    let mut all = vec![
                        ("create_element", doc.create_element(n)),
                        ("create_attribute", doc.create_attribute(n)),
                        ("create_attribute_with", doc.create_attribute_with(n, "v")),
                        ("create_entity_reference", doc.create_entity_reference(n)),
                        ("create_processing_instruction", doc.create_processing_instruction(n, Some("v"))),
                        ("create_entity", create_entity(doc.clone(), n, None, None)),
                        ("create_internal_entity", create_internal_entity(doc.clone(), n, "v")),
                        ("create_notation", create_notation(doc.clone(), n, None, None)),
                        ("create_document_type", doc.implementation().create_document_type(n, None, None)),
                    ];
                    for (what, got) in all.drain(..) {
                        th.transitions += 1;
                        verdict(what, &got, &want)?;
                    }
                    for ns in nss {
                        let want = parse_name(Some(ns), n);
                        verdict("create_element_ns", &doc.create_element_ns(ns, n), &want)?;
                        verdict("create_attribute_ns", &doc.create_attribute_ns(ns, n), &want)?;
                    }
                    for x in ["xml", "XML", "Xml", "xMl", "xmL", "XMl", "xML", "XmL"] {
                        for data in [None, Some("d")] {
                            verdict(
                                "create_processing_instruction",
                                &doc.create_processing_instruction(x, data),
                                &Err(vec![E::Syntax]),
                            )?;
                        }
                    }
                    p.compare(ALL)
                });
            }
        }
    });
    documents(ctx);
}

/// Every way of creating a document.
fn documents(ctx: &Ctx) {
    let nss: [Option<S>; 6] = [None, Some("urn:u"), Some(""), Some(XMLURI), Some(XMLNS), Some("é")];
    let names: [Option<S>; 12] = [
        None, Some("a"), Some("p:a"), Some("xml:a"), Some("xmlns"), Some("xmlns:p"), Some("é"), Some(""), Some("1"),
        Some("a:"), Some("a:b:c"), Some("a b"),
    ];
    // 0 none, 1 unused, 2 used, 3 used by a dropped document, 4 element, 5 document, 6 notation
    let doctypes = 7;
    let opts = 9; // 8: without options
    let all = nss.len() * names.len() * doctypes * opts * 2;
    ctx.note(format!(
        "{} document creations: namespace x name x document type (none, fresh, used, used by a dropped document, no document type) x options, through the implementation and through a document's",
        all
    ));
    ctx.par(all as u64, |th, i| {
        let mut x = i as usize;
        let mut next = |n: usize| {
            let r = x % n;
            x /= n;
            r
        };
        let ns = nss[next(nss.len())];
        let name = names[next(names.len())];
        let dt = next(doctypes);
        let opt = next(opts) as u8;
        let via = next(2);
        case(
            th,
            format_args!("document ns={:?} name={:?} doctype={} options={} via={}", ns, name, dt, opt, via),
            |th| {
                th.transitions += 1;
                let imp = get_implementation();
                let fail = |e: Error| format!("{:?}", e);
                let other = imp.create_document(None, Some("o"), None).map_err(fail)?;
                let fresh = || imp.create_document_type("d", Some("P"), Some("S"));
                let doctype = match dt {
                    0 => None,
                    1 => Some(fresh().map_err(fail)?),
                    2 | 3 => Some(fresh().map_err(fail)?),
                    4 => other.document_element(),
                    5 => Some(other.clone()),
                    _ => Some(create_notation(other.clone(), "n", None, None).map_err(fail)?),
                };
                let holder = match (dt, &doctype) {
                    (2 | 3, Some(d)) => Some(imp.create_document(None, None, Some(d.clone())).map_err(fail)?),
                    _ => None,
                };
                let holder = if dt == 3 { None } else { holder };
                let got = if opt == 8 {
                    if via == 0 {
                        imp.create_document(ns, name, doctype.clone())
                    } else {
                        other.implementation().create_document(ns, name, doctype.clone())
                    }
                } else if via == 0 {
                    get_implementation_ext().create_document_with_options(ns, name, doctype.clone(), options(opt))
                } else {
                    let o = options(0) | options(opt);
                    get_implementation_ext().create_document_with_options(ns, name, doctype.clone(), o)
                };
                let mut kinds = vec![];
                let mut root = None;
                match (ns, name) {
                    (_, Some(n)) => match parse_name(ns, n) {
                        Ok(q) => root = Some(q),
                        Err(e) => kinds.extend(e),
                    },
                    (Some(_), None) => kinds.push(E::Namespace),
                    _ => (),
                }
                match dt {
                    2 | 3 => kinds.push(E::WrongDocument),
                    4..=6 => kinds.push(E::HierarchyRequest),
                    _ => (),
                }
                let others = |what: &str| -> R {
                    same(format!("other document {}", what), other.to_string().as_str(), "<o></o>")?;
                    if let Some(h) = &holder {
                        same("document type of its document", h.doc_type() == doctype, true)?;
                        same("owner of the used document type", doctype.as_ref().unwrap().owner_document().as_ref() == Some(h), true)?;
                    }
                    Ok(())
                };
                match got {
                    Err(e) => {
                        if !kinds.contains(&err(&e)) {
                            return Err(format!("error {:?}, expected {:?}", e, kinds));
                        }
                        others("after a refusal")?;
                        if dt == 1 {
                            // still unused
                            let d = doctype.unwrap();
                            same("owner of the unused document type", d.owner_document().is_none(), true)?;
                            let again = imp.create_document(None, None, Some(d.clone())).map_err(fail)?;
                            same("document type", again.doc_type() == Some(d), true)?;
                        }
                        Ok(())
                    }
                    Ok(_) if !kinds.is_empty() => Err(format!("accepted, expected {:?}", kinds)),
                    Ok(mut doc) => {
                        others("after a creation")?;
                        same("type", kind(&doc), K::Document)?;
                        same("name", doc.node_name().to_string().as_str(), "#document")?;
                        same("owner", doc.owner_document().is_none(), true)?;
                        same("value", doc.node_value(), None)?;
                        same("declaration", doc.xml_declaration().is_none(), true)?;
                        same("document type", doc.doc_type() == doctype, true)?;
                        if let Some(d) = &doctype {
                            same("owner of the document type", d.owner_document() == Some(doc.clone()), true)?;
                            same("name of the document type", d.node_name().to_string().as_str(), "d")?;
                        }
                        same("children", doc.child_nodes().len(), root.is_some() as usize)?;
                        empty_of(&doc, root.is_some() as usize)?;
                        match (&root, doc.document_element()) {
                            (None, None) => (),
                            (Some(q), Some(e)) => {
                                name_is("document element", &e.node_name(), q)?;
                                same("children of the document element", e.child_nodes().len(), 0)?;
                                same("attributes of the document element", e.attributes().len(), 0)?;
                                same("owner of the document element", e.owner_document() == Some(doc.clone()), true)?;
                                same("parent of the document element", e.parent_node() == Some(doc.clone()), true)?;
                            }
                            _ => return Err("document element missing or unexpected".into()),
                        }
                        // its options show in what it does
                        let lax = opt < 8 && opt & OPT_IDS != 0;
                        let maps = opt == 8 || opt & OPT_NS != 0;
                        let mut e = match doc.document_element() {
                            Some(e) => e,
                            None => {
                                let e = doc.create_element("e").map_err(fail)?;
                                doc.append_child(e).map_err(fail)?
                            }
                        };
                        e.set_attribute("id", "1").map_err(fail)?;
                        e.set_attribute("xml:id", "2").map_err(fail)?;
                        e.set_attribute_ns(XMLNS, "xmlns:q", "urn:q").map_err(fail)?;
                        same("lookup by id", doc.get_element_by_id("1").is_some(), lax)?;
                        same("lookup by xml:id", doc.get_element_by_id("2") == Some(e.clone()), true)?;
                        same("mapping", e.contains_mapping(Some("q")), maps)
                    }
                }
            },
        );
    });
}
