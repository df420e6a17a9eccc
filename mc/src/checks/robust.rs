//! P24 and P25: every operation on every node always returns, queries change nothing, and edits
//! stay where they are made.

use super::strings::*;
use super::attrs::*;
use super::worlds::*;
use crate::ctx::*;
use crate::explore::*;
use crate::model::*;
use crate::real::*;
use std::fmt::{Debug, Formatter, Write as _};
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::*;
use xml_dom::level2::ext::dom_impl::*;
use xml_dom::level2::ext::*;
use std::str::FromStr;
use xml_dom::level2::*;

type R = std::result::Result<(), String>;

// ------------------------------------------------------------------------------------------------
// Every query a node's type offers

const NAMES: [&str; 5] = ["k", "*", "a", "p:k", "xmlns:p"];
const ODD_NAMES: [&str; 9] = ["", ":", "é", "a:b:c", "xml:id", "xmlns", "a b", "1", "#text"];
const SPACES: [&str; 3] = ["*", "urn:u", XMLNS];
const ODD_SPACES: [&str; 3] = ["", XMLURI, "é"];
const LOCALS: [&str; 3] = ["k", "*", "a"];
const ODD_LOCALS: [&str; 4] = ["", "p:k", "xmlns", "é"];
const PREFIXES: [Option<&str>; 4] = [None, Some("p"), Some("xml"), Some("")];
const ODD_PREFIXES: [Option<&str>; 4] = [Some("xmlns"), Some("q:r"), Some("é"), Some("nowhere")];

/// The same text whatever order a map is walked in.
fn bag(s: String) -> String {
    let mut v: Vec<char> = s.chars().collect();
    v.sort_unstable();
    v.into_iter().collect()
}

/// Ask a node everything its type offers.
pub fn answers(n: &RefNode, level: u8, show: &dyn Fn(&RefNode) -> String) -> String {
    let mut o = String::with_capacity(1024);
    let k = kind(n);
    let odd = level == 2;
    let cut = |n: usize| if level == 0 { 1 } else { n };
    let one = |x: Option<RefNode>| x.map_or("-".to_string(), |x| show(&x));
    let list = |x: Vec<RefNode>| x.iter().map(show).collect::<Vec<_>>().join(" ");
    let names = || NAMES[..cut(5)].iter().chain(if odd { ODD_NAMES.iter() } else { [].iter() });
    let spaces = || SPACES[..cut(3)].iter().chain(if odd { ODD_SPACES.iter() } else { [].iter() });
    let locals = || LOCALS[..cut(3)].iter().chain(if odd { ODD_LOCALS.iter() } else { [].iter() });
    let _ = writeln!(
        o,
        "{:?} {} {:?} {:?} {:?} value={:?}",
        k,
        n.node_name(),
        n.namespace_uri(),
        Node::prefix(n),
        Node::local_name(n),
        n.node_value()
    );
    let _ = writeln!(
        o,
        "parent={} kids=[{}] first={} last={} prev={} next={} doc={} has={}",
        one(n.parent_node()),
        list(n.child_nodes()),
        one(n.first_child()),
        one(n.last_child()),
        one(n.previous_sibling()),
        one(n.next_sibling()),
        one(n.owner_document()),
        n.has_child_nodes()
    );
    let mut attrs: Vec<String> = n
        .attributes()
        .into_iter()
        .map(|(q, a)| format!("{:?}:{}={}", q.namespace_uri(), q, show(&a)))
        .collect();
    attrs.sort();
    let _ = writeln!(o, "attrs={:?} {}", attrs, n.has_attributes());
    let _ = writeln!(o, "supported={}{}", n.is_supported("Core", "2.0"), n.is_supported("", "é"));
    let _ = writeln!(o, "text={}", bag(n.to_string()));
    if odd {
        let _ = writeln!(o, "debug={}", !format!("{:?}", n).is_empty());
    }
    for deep in if level == 0 { [false].iter() } else { [false, true].iter() } {
        if let Some(c) = n.clone_node(*deep) {
            let _ = writeln!(
                o,
                "clone {:?} {} kids={} parent={} doc={} text={}",
                kind(&c),
                c.node_name(),
                c.child_nodes().len(),
                one(c.parent_node()),
                one(c.owner_document()),
                bag(c.to_string())
            );
        }
    }
    // casts
    macro_rules! cast {
        ($($is:ident $as:ident $mut:ident,)*) => {
            $(let _ = write!(o, "{}{}", $is(n), $as(n).is_ok());
            if odd {
                let _ = write!(o, "{}", $mut(&mut n.clone()).is_ok());
            })*
        };
    }
    cast!(
        is_attribute as_attribute as_attribute_mut,
        is_element as_element as_element_mut,
        is_character_data as_character_data as_character_data_mut,
        is_text as_text as_text_mut,
        is_cdata_section as_cdata_section as_cdata_section_mut,
        is_entity_reference as_entity_reference as_entity_reference_mut,
        is_entity_ as_entity as_entity_mut,
        is_processing_instruction as_processing_instruction as_processing_instruction_mut,
        is_comment as_comment as_comment_mut,
        is_document as_document as_document_mut,
        is_document_type as_document_type as_document_type_mut,
        is_document_fragment as_document_fragment as_document_fragment_mut,
        is_notation as_notation as_notation_mut,
        is_document_decl as_document_decl as_document_decl_mut,
    );
    o.push('\n');
    match k {
        K::Element => {
            let _ = writeln!(o, "tag={}", n.tag_name());
            for q in names() {
                let _ = writeln!(
                    o,
                    "attr {:?}: {:?} {} {}; [{}]",
                    q,
                    n.get_attribute(q),
                    one(n.get_attribute_node(q)),
                    n.has_attribute(q),
                    list(Element::get_elements_by_tag_name(n, q))
                );
            }
            for ns in spaces() {
                for l in locals() {
                    let _ = writeln!(
                        o,
                        "attr {:?} {:?}: {:?} {} {}; [{}]",
                        ns,
                        l,
                        n.get_attribute_ns(ns, l),
                        one(n.get_attribute_node_ns(ns, l)),
                        n.has_attribute_ns(ns, l),
                        list(Element::get_elements_by_tag_name_ns(n, ns, l))
                    );
                }
                let _ = writeln!(
                    o,
                    "ns {:?}: {} {:?} {:?}",
                    ns,
                    n.contains_mapped_namespace(ns),
                    n.get_prefix(ns),
                    n.resolve_prefix(ns)
                );
            }
            for p in PREFIXES[..cut(4)].iter().chain(if odd { ODD_PREFIXES.iter() } else { [].iter() }) {
                let _ = writeln!(
                    o,
                    "prefix {:?}: {} {:?} {:?}",
                    p,
                    n.contains_mapping(*p),
                    n.get_namespace(*p),
                    n.resolve_namespace(*p)
                );
            }
        }
        K::Attribute => {
            let _ = writeln!(o, "value={:?} {} owner={}", n.value(), n.specified(), one(n.owner_element()));
        }
        K::Text | K::CData | K::Comment => {
            let len = n.node_value().unwrap_or_default().len();
            let _ = writeln!(o, "data={:?} {}", CharacterData::data(n), CharacterData::length(n));
            let mut at = vec![1, usize::MAX];
            if level > 0 {
                at.extend([0, len, len + 1]);
            }
            if odd {
                at.extend([2, 3, len / 2, usize::MAX / 2 + 1]);
            }
            for a in &at {
                for c in &at {
                    let _ = write!(o, "{:?} ", n.substring_data(*a, *c).ok());
                }
            }
            o.push('\n');
        }
        K::PI => {
            let _ = writeln!(
                o,
                "target={} {:?} {}",
                n.target(),
                ProcessingInstruction::data(n),
                ProcessingInstruction::length(n)
            );
        }
        K::Document => {
            let _ = writeln!(
                o,
                "doctype={} root={} decl={:?}",
                one(n.doc_type()),
                one(n.document_element()),
                n.xml_declaration().map(|d| d.to_string())
            );
            let _ = writeln!(o, "feature={}", n.implementation().has_feature("XML", "1.0"));
            for q in names() {
                let _ = writeln!(
                    o,
                    "{:?}: {} [{}]",
                    q,
                    one(n.get_element_by_id(q)),
                    list(Document::get_elements_by_tag_name(n, q))
                );
            }
            for ns in spaces() {
                for l in locals() {
                    let _ = writeln!(o, "{:?} {:?}: [{}]", ns, l, list(Document::get_elements_by_tag_name_ns(n, ns, l)));
                }
            }
        }
        K::DocType => {
            let _ = writeln!(
                o,
                "ids={:?} {:?} {} {} {:?}",
                DocumentType::public_id(n),
                DocumentType::system_id(n),
                n.entities().len(),
                n.notations().len(),
                n.internal_subset()
            );
        }
        K::Entity => {
            let _ = writeln!(o, "ids={:?} {:?} {:?}", Entity::public_id(n), Entity::system_id(n), n.notation_name());
        }
        K::Notation => {
            let _ = writeln!(o, "ids={:?} {:?}", Notation::public_id(n), Notation::system_id(n));
        }
        K::EntityRef | K::Fragment => (),
    }
    o
}

/// Can the value be read, or does it name an entity nobody declared?
fn readable(a: &RefNode) -> bool {
    let raw: String = a.child_nodes().iter().filter_map(|t| t.node_value()).collect();
    normalize_value(&raw).is_some()
}

// ------------------------------------------------------------------------------------------------
// P24

/// What a new node is made from.
const MAKE: [&str; 24] = [
    "element", "element!", "element_ns", "element_ns!", "attribute", "attribute!", "attribute_with", "attribute_ns",
    "attribute_ns!", "text", "text!", "comment", "cdata", "pi", "pi!", "pi xml", "eref", "eref!", "fragment", "entity",
    "entity!", "internal", "notation", "notation!",
];

#[derive(Clone, Copy)]
enum X {
    Op(Op),
    Make(Id, usize),
    /// A document with this document type (any node), options
    Doc(Option<Id>, u8),
    DocNamed(S, S, Option<Id>),
    DocType(S),
    Decl(Id),
    Drop(Id),
}
impl Debug for X {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        match *self {
            X::Op(op) => write!(f, "{:?}", op),
            X::Make(d, w) => write!(f, "make({d},{:?})", MAKE[w]),
            X::Doc(t, o) => write!(f, "document({t:?},{o})"),
            X::DocNamed(ns, q, t) => write!(f, "document({ns:?},{q:?},{t:?})"),
            X::DocType(q) => write!(f, "doctype({q:?})"),
            X::Decl(d) => write!(f, "declaration({d})"),
            X::Drop(i) => write!(f, "drop({i})"),
        }
    }
}

fn make(d: &RefNode, w: usize) -> Result<RefNode> {
    match MAKE[w] {
        "element" => d.create_element("a"),
        "element!" => d.create_element("a:b:c"),
        "element_ns" => d.create_element_ns("urn:u", "p:a"),
        "element_ns!" => d.create_element_ns("", "xml"),
        "attribute" => d.create_attribute("xml:id"),
        "attribute!" => d.create_attribute(""),
        "attribute_with" => d.create_attribute_with("id", "é&"),
        "attribute_ns" => d.create_attribute_ns(XMLNS, "xmlns:p"),
        "attribute_ns!" => d.create_attribute_ns("é", ":"),
        "text" => Ok(d.create_text_node("é<")),
        "text!" => Ok(d.create_text_node("")),
        "comment" => Ok(d.create_comment("--")),
        "cdata" => d.create_cdata_section("]]>"),
        "pi" => d.create_processing_instruction("p", Some("?>")),
        "pi!" => d.create_processing_instruction("é:é", Some("")),
        "pi xml" => d.create_processing_instruction("xMl", None),
        "eref" => d.create_entity_reference("r"),
        "eref!" => d.create_entity_reference("&r;"),
        "fragment" => d.create_document_fragment(),
        "entity" => create_entity(d.clone(), "e", Some(""), None),
        "entity!" => create_entity(d.clone(), "", None, None),
        "internal" => create_internal_entity(d.clone(), "i", "&<é"),
        "notation" => create_notation(d.clone(), "n", None, Some("\"")),
        _ => create_notation(d.clone(), "-", None, None),
    }
}

fn apply(r: &mut Real, x: X, max: usize) -> Result<()> {
    let made: Option<RefNode> = match x {
        X::Op(op) => match r.apply(op)? {
            RRet::Unit => None,
            RRet::Node(n) => Some(n),
        },
        X::Make(d, w) => Some(make(r.g(d), w)?),
        X::Doc(t, o) => Some(get_implementation_ext().create_document_with_options(
            None,
            None,
            t.map(|t| r.m(t)),
            options(o),
        )?),
        X::DocNamed(ns, q, t) => {
            Some(get_implementation().create_document(Some(ns), Some(q), t.map(|t| r.m(t)))?)
        }
        X::DocType(q) => Some(get_implementation().create_document_type(q, Some("\"é"), None)?),
        X::Decl(d) => {
            r.m(d).set_xml_declaration(XmlDecl::new(XmlVersion::V11, Some("UTF-8".into()), Some(true)))?;
            None
        }
        X::Drop(i) => {
            r.nodes[i] = None;
            None
        }
    };
    if let Some(n) = made {
        if r.id(&n).is_none() && r.nodes.len() < max {
            r.nodes.push(Some(n));
        }
    }
    Ok(())
}

#[derive(Clone, Copy)]
struct Menu {
    /// Every reference child for insert and replace, and every argument for the others.
    wide: bool,
    /// Creating nodes and documents.
    make: bool,
    drop: bool,
    strings: &'static [S],
}
const FEW: &[S] = &["é"];
const MANY: &[S] = &["", "x", "é", "&<>\"'", "]]>", "-->", "?>", "&#0;", "\u{0}", "😀\r\n"];

/// Everything the live nodes' types offer.
fn menu(r: &Real, c: &Menu) -> Vec<X> {
    let live: Vec<Id> = (0..r.nodes.len()).filter(|i| r.nodes[*i].is_some()).collect();
    let mut v: Vec<X> = vec![];
    let mut op = |o: Op| v.push(X::Op(o));
    for &p in &live {
        let n = r.g(p);
        let k = kind(n);
        let kids: Vec<Id> = n.child_nodes().iter().filter_map(|c| r.id(c)).collect();
        for &c2 in &live {
            op(Op::Append(p, c2));
            if c.wide {
                op(Op::Remove(p, c2));
                for &rf in &live {
                    op(Op::Insert(p, c2, Some(rf)));
                    op(Op::Replace(p, c2, rf));
                }
            } else {
                let mut refs = kids.clone();
                refs.extend(live.iter().find(|x| !kids.contains(x)));
                for rf in refs {
                    op(Op::Insert(p, c2, Some(rf)));
                    op(Op::Replace(p, c2, rf));
                }
            }
            if k == K::Element {
                op(Op::SetAttrNode(p, c2));
                op(Op::RemAttrNode(p, c2));
                if c.wide {
                    op(Op::SetAttrNodeNs(p, c2));
                }
            }
        }
        if !c.wide {
            for &x in &kids {
                op(Op::Remove(p, x));
            }
            op(Op::Remove(p, p));
        }
        op(Op::Normalize(p));
        op(Op::Clone(p, true));
        op(Op::Clone(p, false));
        op(Op::UnsetNV(p));
        for s in c.strings {
            op(Op::SetNV(p, s));
        }
        match k {
            K::Element => {
                let names: &[S] = if c.wide { &["k", "id", "xmlns", "xmlns:p", "xml:id", "", ":", "é", "a b"] } else { &["k", "xml:id"] };
                let spaces: &[(S, S)] = if c.wide {
                    &[("urn:u", "p:k"), (XMLNS, "xmlns"), (XMLNS, "xmlns:p"), (XMLURI, "xml:id"), ("", "k"), ("urn:u", ""), ("é", "é:é"), ("u", "xml:a")]
                } else {
                    &[("urn:u", "p:k"), (XMLNS, "xmlns:p")]
                };
                for q in names {
                    for s in c.strings {
                        op(Op::SetAttr(p, q, s));
                    }
                    op(Op::RemAttr(p, q));
                }
                for (ns, q) in spaces {
                    for s in c.strings {
                        op(Op::SetAttrNs(p, ns, q, s));
                    }
                    op(Op::RemAttrNs(p, ns, q));
                }
            }
            K::Attribute => {
                op(Op::UnsetVal(p));
                for s in c.strings {
                    op(Op::SetVal(p, s));
                }
            }
            K::Text | K::CData | K::Comment => {
                let len = n.node_value().unwrap_or_default().len();
                let mut at = vec![0, 1, len + 1];
                if c.wide {
                    at.extend([2, 3, len, usize::MAX, usize::MAX - 1]);
                    at.sort_unstable();
                    at.dedup();
                }
                op(Op::UnsetData(p));
                for s in c.strings {
                    op(Op::SetData(p, s));
                    op(Op::AppendData(p, s));
                    for a in &at {
                        op(Op::InsertData(p, *a, s));
                    }
                }
                for a in &at {
                    for b in &at {
                        op(Op::DeleteData(p, *a, *b));
                        op(Op::ReplaceData(p, *a, *b, c.strings[0]));
                        if c.wide {
                            op(Op::ReplaceData(p, *a, *b, "é"));
                        }
                    }
                    if k != K::Comment {
                        op(Op::Split(p, *a));
                    }
                }
            }
            K::PI => {
                op(Op::UnsetData(p));
                for s in c.strings {
                    op(Op::SetData(p, s));
                }
            }
            _ => (),
        }
    }
    if c.make {
        for &d in &live {
            if kind(r.g(d)) == K::Document {
                v.push(X::Decl(d));
                for w in 0..MAKE.len() {
                    v.push(X::Make(d, w));
                }
            }
            if c.wide || kind(r.g(d)) == K::DocType {
                v.push(X::Doc(Some(d), 7));
                v.push(X::DocNamed("urn:u", "p:r", Some(d)));
            }
        }
        v.push(X::Doc(None, 0));
        v.push(X::DocType("d"));
        if c.wide {
            for o in 1..8 {
                v.push(X::Doc(None, o));
            }
            for ns in ["", "urn:u", XMLNS, XMLURI, "é"] {
                for q in ["", "a", "p:a", "xmlns", "xml:a", ":", "a:b:c"] {
                    v.push(X::DocNamed(ns, q, None));
                }
            }
            for q in ["", ":", "a:b", "xml", "é", "a b"] {
                v.push(X::DocType(q));
            }
        }
    }
    if c.drop {
        v.extend(live.iter().map(|i| X::Drop(*i)));
    }
    v
}

/// Ask every node still held everything; what the links say must be one consistent forest.
fn sound(r: &Real, level: u8) -> std::result::Result<bool, String> {
    let held: Vec<RefNode> = r.nodes.iter().flatten().cloned().collect();
    let all = closure(&held);
    if all.iter().any(|n| kind(n) == K::Attribute && !readable(n)) {
        return Ok(false);
    }
    for n in &all {
        answers(n, level, &|_| String::new());
    }
    forest(&held)?;
    Ok(true)
}

struct Wild {
    name: &'static str,
    spec: Vec<Spec>,
    init: Vec<Op>,
    /// The operations offered at each step.
    menus: Vec<Menu>,
    level: u8,
    /// Go on after refused operations, too.
    refused: bool,
    max: usize,
}
impl Wild {
    fn build(&self, path: &[X]) -> std::result::Result<Real, String> {
        let mut r = Real::default();
        for s in &self.spec {
            r.make(*s)?;
        }
        for o in &self.init {
            r.apply(*o).map_err(|e| format!("preparing {:?}: {:?}", o, e))?;
        }
        for x in path {
            let _ = apply(&mut r, *x, self.max);
        }
        Ok(r)
    }
    /// One more step: does the walk go on from there?
    fn step(&self, th: &mut Th<'_>, path: &[X], x: X) -> bool {
        let mut on = false;
        case(th, format_args!("{} {:?} then {:?}", self.name, path, x), |th| {
            let mut r = self.build(path)?;
            let ok = apply(&mut r, x, self.max).is_ok();
            th.transitions += 1;
            on = sound(&r, self.level)? && (ok || self.refused);
            Ok(())
        });
        on || th.ctx.only.is_some()
    }
    fn walk(&self, th: &mut Th<'_>, path: &mut Vec<X>) {
        if path.len() >= self.menus.len() || th.stop() {
            return;
        }
        let Ok(Ok(r)) = guard(|| self.build(path)) else { return };
        let offered = menu(&r, &self.menus[path.len()]);
        drop(r);
        for x in offered {
            if th.stop() {
                return;
            }
            if let Some(only) = &th.ctx.only {
                path.push(x);
                let text = format!("{:?}", path);
                path.pop();
                // only what leads to the recorded case
                let inner = &text[1..text.len() - 1];
                if !only.contains(&format!("[{}", inner)) && !only.ends_with(&format!("then {:?}", x)) {
                    continue;
                }
            }
            if self.step(th, path, x) {
                path.push(x);
                self.walk(th, path);
                path.pop();
            }
        }
    }
    fn run(&self, ctx: &Ctx) {
        let Ok(Ok(r)) = guard(|| self.build(&[])) else {
            ctx.violation(format!("{} start", self.name), "cannot be built");
            return;
        };
        if let Ok(Err(e)) | Err(e) = guard(|| sound(&r, 2)) {
            ctx.violation(format!("{} start", self.name), e);
        }
        let first = menu(&r, &self.menus[0]);
        drop(r);
        let began = std::time::Instant::now();
        let before = ctx.transitions.load(std::sync::atomic::Ordering::Relaxed);
        ctx.par(first.len() as u64, |th, i| {
            let x = first[i as usize];
            if self.step(th, &[], x) {
                self.walk(th, &mut vec![x]);
            }
        });
        let n = ctx.transitions.load(std::sync::atomic::Ordering::Relaxed) - before;
        ctx.note(format!(
            "{}: every sequence of {} operations, {} in all, each followed by every query on every node still reachable",
            self.name,
            self.menus.len(),
            n
        ));
        if std::env::var("MC_TIMES").is_ok() {
            ctx.note(format!("{} took {:?}", self.name, began.elapsed()));
        }
    }
}

/// A document of everything, connected.
fn furnished(d: Id, spec: &mut Vec<Spec>, init: &mut Vec<Op>) {
    let b = spec_len(spec);
    spec.extend([
        Spec::El(d, "a"),             // b
        Spec::ElNs(d, "urn:u", "p:a"),
        Spec::AtWith(d, "k", "é&"),   // b+2 its text, b+3
        Spec::At(d, "xml:id"),        // b+4
        Spec::Text(d, "té"),
        Spec::CData(d, "d]"),
        Spec::ERef(d, "r"),
        Spec::Entity(d, "e", None, Some("S")),
        Spec::PI(d, "p", Some("q")),
        Spec::Comment(d, "m-"),       // b+10
        Spec::Frag(d),
        Spec::Notation(d, "n", Some("P"), None),
    ]);
    init.extend([
        Op::Append(d, b),
        Op::Append(b, b + 5),
        Op::Append(b, b + 1),
        Op::Append(b + 1, b + 10),
        Op::SetAttrNode(b, b + 3),
        Op::Append(b + 11, b + 6),
        Op::Append(b + 7, b + 9),
    ]);
}

pub fn p24(ctx: &Ctx) {
    let none = Menu { wide: false, make: false, drop: false, strings: FEW };
    let wide = Menu { wide: true, make: true, drop: true, strings: MANY };
    let both = Menu { make: true, drop: true, ..none };
    // two documents with every type of node
    let mut spec = vec![
        Spec::DocType("dt", Some("P"), Some("S")),
        Spec::DocType("du", None, None),
        Spec::Doc(0, Some(0)),
        Spec::Doc(7, None),
    ];
    let mut init = vec![];
    furnished(2, &mut spec, &mut init);
    let whole = spec.clone();
    let whole_init = init.clone();
    furnished(3, &mut spec, &mut init);
    Wild { name: "two documents", spec: spec.clone(), init: init.clone(), menus: vec![wide], level: ctx.pick(1, 2), refused: false, max: 40 }.run(ctx);
    // one document with every type of node, connected or not
    Wild {
        name: "one document",
        spec: whole.clone(),
        init: whole_init.clone(),
        menus: ctx.pick(vec![both, both], vec![wide, both]),
        level: ctx.pick(0, 1),
        refused: ctx.thorough(),
        max: 24,
    }
    .run(ctx);
    Wild {
        name: "loose nodes",
        spec: whole.clone(),
        init: vec![],
        menus: ctx.pick(vec![none, none], vec![none, both]),
        level: ctx.pick(0, 1),
        refused: ctx.thorough(),
        max: 24,
    }
    .run(ctx);
    // few nodes, longer sequences
    let small = vec![
        Spec::Doc(4, None),
        Spec::El(0, "a"),
        Spec::El(0, "b"),
        Spec::AtWith(0, "xml:id", "v"),
        Spec::Text(0, "té"),
    ];
    let small_init = vec![Op::Append(0, 1), Op::Append(1, 2), Op::SetAttrNode(1, 4), Op::Append(2, 5)];
    let held = Menu { drop: true, ..none };
    Wild {
        name: "small",
        spec: small.clone(),
        init: small_init.clone(),
        menus: vec![held; ctx.pick(2, 3)],
        level: ctx.pick(0, 1),
        refused: false,
        max: 9,
    }
    .run(ctx);
    let kinds = vec![Spec::Doc(0, None), Spec::El(0, "a"), Spec::At(0, "k"), Spec::Text(0, "xy")];
    Wild {
        name: "few",
        spec: kinds.clone(),
        init: vec![],
        menus: vec![held; ctx.pick(3, 4)],
        level: ctx.pick(0, 1),
        refused: false,
        max: 6,
    }
    .run(ctx);
    // nodes without a value, empty ones and others side by side, everywhere they can be
    let mut odd = vec![Spec::Doc(4, None), Spec::El(0, "a"), Spec::At(0, "k"), Spec::ERef(0, "r"), Spec::Frag(0), Spec::Entity(0, "e", None, None)];
    let mut odd_init = vec![Op::Append(0, 1), Op::SetAttrNode(1, 2), Op::Append(1, 3)];
    for holder in [1, 2, 3, 4, 5] {
        for v in ["t", "-", "", "u", "-", "-"] {
            odd.push(Spec::Text(0, v));
            let t = odd.len() - 1;
            if v == "-" {
                odd_init.push(Op::UnsetNV(t));
            }
            odd_init.push(Op::Append(holder, t));
        }
        if holder != 2 {
            for made in [Spec::CData(0, ""), Spec::Comment(0, ""), Spec::PI(0, "p", None)] {
                odd.push(made);
                let t = odd.len() - 1;
                odd_init.push(Op::UnsetNV(t));
                odd_init.push(Op::Append(holder, t));
            }
        }
    }
    Wild { name: "without values", spec: odd, init: odd_init, menus: vec![Menu { wide: true, ..held }], level: ctx.pick(1, 2), refused: false, max: 60 }.run(ctx);
    let texts_only = vec![Spec::Doc(0, None), Spec::El(0, "a"), Spec::Text(0, "t"), Spec::Text(0, "u"), Spec::Text(0, "w")];
    let beside = vec![Op::Append(0, 1), Op::Append(1, 2), Op::Append(1, 3), Op::Append(1, 4)];
    Wild {
        name: "texts side by side",
        spec: texts_only,
        init: beside,
        menus: vec![Menu { strings: FEW, ..held }; ctx.pick(2, 3)],
        level: ctx.pick(0, 1),
        refused: false,
        max: 9,
    }
    .run(ctx);
    // whatever is let go of first
    dropped(ctx, "connected", &whole, &whole_init);
    dropped(ctx, "loose", &whole, &[]);
    // strings of every kind as every text argument
    texts(ctx);
}

/// Every subset of the nodes is dropped, then everything is tried with the rest.
fn dropped(ctx: &Ctx, name: &'static str, spec: &[Spec], init: &[Op]) {
    // entity, notation and the like have no links of their own: they stay
    let n = spec_len(spec);
    let bits: Vec<Id> = ctx.pick(vec![0, 2, 4, 5, 7, 9, 15], (0..n).collect());
    let m = Menu { wide: false, make: true, drop: false, strings: FEW };
    let w = Wild { name, spec: spec.to_vec(), init: init.to_vec(), menus: vec![m], level: ctx.pick(0, 1), refused: false, max: 30 };
    ctx.note(format!("{} nodes, every subset of {:?} dropped, then every operation", name, bits));
    ctx.par(1 << bits.len(), |th, i| {
        let path: Vec<X> = bits
            .iter()
            .enumerate()
            .filter(|(j, _)| i >> j & 1 == 1)
            .map(|(_, b)| X::Drop(*b))
            .collect();
        let Ok(Ok(r)) = guard(|| w.build(&path)) else { return };
        let offered = menu(&r, &m);
        drop(r);
        for x in offered {
            w.step(th, &path, x);
            if th.stop() {
                return;
            }
        }
    });
}

/// Every short string as every text argument of every operation that takes one.
fn texts(ctx: &Ctx) {
    let alphabet = ["&", ";", "#", "x", "a", ":", "é", "1", " ", "<", "]", "-", "?", "\"", "\u{0}", "\r"];
    let all = upto(&alphabet, ctx.pick(3, 4));
    ctx.note(format!(
        "{} strings of up to {} characters from {:?} as name, namespace, value, data, identifier and feature of everything that takes one",
        all.len(),
        ctx.pick(3, 4),
        alphabet
    ));
    ctx.par(all.len() as u64, |th, i| {
        let s = all[i as usize].as_str();
        case(th, format_args!("text {:?}", s), |th| {
            th.transitions += 1;
            let fail = |e: Error| format!("{:?}", e);
            let names_entity = normalize_value(s).is_none();
            for o in [0, 7] {
                let mut d = get_implementation_ext()
                    .create_document_with_options(None, None, None, options(o))
                    .map_err(fail)?;
                let mut e = d.create_element("e").map_err(fail)?;
                d.append_child(e.clone()).map_err(fail)?;
                let _ = d.create_element(s);
                let _ = d.create_element_ns(s, "a");
                let _ = d.create_element_ns("u", s);
                let _ = d.create_element_ns(s, s);
                let _ = d.create_attribute(s);
                let _ = d.create_attribute_ns(s, "a");
                let _ = d.create_attribute_ns("u", s);
                let _ = d.create_entity_reference(s);
                let _ = d.create_processing_instruction(s, Some(s));
                let _ = d.create_processing_instruction("p", Some(s));
                for n in [
                    create_entity(d.clone(), s, Some(s), Some(s)),
                    create_entity(d.clone(), "e", Some(s), None),
                    create_entity(d.clone(), "e", None, Some(s)),
                    create_internal_entity(d.clone(), s, s),
                    create_internal_entity(d.clone(), "e", s),
                    create_notation(d.clone(), s, Some(s), Some(s)),
                    create_notation(d.clone(), "e", Some(s), None),
                    get_implementation().create_document_type(s, Some(s), Some(s)),
                    get_implementation().create_document_type("e", Some(s), Some(s)),
                    get_implementation().create_document(Some(s), Some(s), None),
                    get_implementation().create_document(None, Some(s), None),
                    get_implementation().create_document(Some(s), None, None),
                    d.create_cdata_section(s),
                    Ok(d.create_comment(s)),
                    Ok(d.create_text_node(s)),
                ]
                .into_iter()
                .flatten()
                {
                    answers(&n, 1, &|_| String::new());
                    if kind(&n) == K::Text || kind(&n) == K::CData {
                        for at in 0..s.len() + 2 {
                            for count in [0, 1, 2, usize::MAX] {
                                let _ = n.substring_data(at, count);
                                let mut c = n.clone_node(true).ok_or("no clone")?;
                                let _ = c.replace_data(at, count, s);
                                let _ = c.insert_data(at, s);
                                let _ = c.delete_data(at, count);
                                let _ = c.split(at);
                            }
                        }
                    }
                }
                let _ = d.get_element_by_id(s);
                let _ = Document::get_elements_by_tag_name(&d, s);
                let _ = Document::get_elements_by_tag_name_ns(&d, s, s);
                let _ = Element::get_elements_by_tag_name(&e, s);
                let _ = Element::get_elements_by_tag_name_ns(&e, s, s);
                let _ = get_implementation().has_feature(s, s);
                let _ = get_implementation().has_feature("core", s);
                let _ = XmlVersion::from_str(s);
                let _ = Name::try_from(s.as_bytes());
                for name in [Name::from_str(s), Name::new_ns(s, "a"), Name::new_ns("u", s), Name::new_ns(s, s)] {
                    let mut name = name.or_else(|_| Name::from_str("p:a")).map_err(fail)?;
                    let _ = name.set_prefix(Some(s));
                    let _ = (name.to_string(), name.is_id_attribute(o != 0), name.is_namespace_attribute());
                }
                let _ = d.is_supported(s, s);
                for ns in [s, "u"] {
                    let _ = e.set_attribute_ns(ns, s, "v");
                    let _ = e.set_attribute_ns(s, "k", "v");
                    let _ = e.get_attribute_ns(ns, s);
                    let _ = e.get_attribute_node_ns(ns, s);
                    let _ = e.has_attribute_ns(ns, s);
                    let _ = e.remove_attribute_ns(ns, s);
                }
                let _ = e.set_attribute(s, "v");
                let _ = e.get_attribute(s);
                let _ = e.get_attribute_node(s);
                let _ = e.has_attribute(s);
                let _ = e.contains_mapping(Some(s));
                let _ = e.get_namespace(Some(s));
                let _ = e.resolve_namespace(Some(s));
                let _ = e.contains_mapped_namespace(s);
                let _ = e.get_prefix(s);
                let _ = e.resolve_prefix(s);
                answers(&e, 1, &|_| String::new());
                let _ = e.remove_attribute(s);
                if !names_entity {
                    e.set_attribute("k", s).map_err(fail)?;
                    let mut a = d.create_attribute("l").map_err(fail)?;
                    a.set_value(s).map_err(fail)?;
                    let _ = d.create_attribute_with(s, s);
                    let a2 = d.create_attribute_with("m", s).map_err(fail)?;
                    e.set_attribute_node(a.clone()).map_err(fail)?;
                    e.set_attribute_node(a2).map_err(fail)?;
                    let _ = e.set_attribute("xml:id", s);
                    let _ = e.set_attribute("id", s);
                    let _ = e.set_attribute_ns(XMLNS, "xmlns:p", s);
                    let _ = e.set_attribute_ns(XMLNS, "xmlns", s);
                    let _ = d.get_element_by_id(s);
                    for n in [&d, &e, &a] {
                        answers(n, 2, &|_| String::new());
                    }
                    forest(&[d, e, a])?;
                }
            }
            Ok(())
        });
    });
}

// ------------------------------------------------------------------------------------------------
// P25

/// The node at the top of the tree a node is in, through attributes' owners too.
fn top(m: &Model, i: Id) -> Id {
    let mut at = i;
    loop {
        let n = m.n(at);
        match if n.k == K::Attribute { n.owner } else { n.parent } {
            Some(up) => at = up,
            None => return at,
        }
    }
}
pub fn named(op: Op) -> Vec<Id> {
    match op {
        Op::Append(a, b) | Op::Remove(a, b) | Op::SetAttrNode(a, b) | Op::SetAttrNodeNs(a, b) | Op::RemAttrNode(a, b) => {
            vec![a, b]
        }
        Op::Insert(a, b, c) => [a, b].into_iter().chain(c).collect(),
        Op::Replace(a, b, c) => vec![a, b, c],
        Op::SetAttr(a, ..)
        | Op::SetAttrNs(a, ..)
        | Op::RemAttr(a, _)
        | Op::RemAttrNs(a, ..)
        | Op::SetVal(a, _)
        | Op::UnsetVal(a)
        | Op::SetNV(a, _)
        | Op::UnsetNV(a)
        | Op::SetData(a, _)
        | Op::UnsetData(a)
        | Op::AppendData(a, _)
        | Op::InsertData(a, ..)
        | Op::DeleteData(a, ..)
        | Op::ReplaceData(a, ..)
        | Op::Split(a, _)
        | Op::Normalize(a)
        | Op::Drop(a)
        | Op::Clone(a, _) => vec![a],
    }
}

pub fn p25(ctx: &Ctx) {
    let asked = |level: u8| {
        move |_: &Model, r: &Real, i: Id| -> std::result::Result<String, String> {
            Ok(answers(r.g(i), level, &|n| r.show(n)))
        }
    };
    let (few, many) = (asked(1), asked(2));
    let local = |s: &Step<'_>| -> R {
        let refused = !matches!(s.out, Out::Ok(..));
        let near: Vec<Id> = if refused {
            vec![]
        } else {
            named(s.op).into_iter().flat_map(|i| [top(s.before, i), top(s.after, i)]).collect()
        };
        let after = all_answers(&few, s.after, s.real)?;
        let before = s.answers;
        same_answers("afterwards", s.after, before, &after, &|i| {
            i < after.len()
                && i < before.len()
                && s.before.n(i).live
                && s.after.n(i).live
                && !near.contains(&top(s.before, i))
                && !near.contains(&top(s.after, i))
                && !matches!(s.op, Op::Drop(d) if s.before.n(i).doc == Some(d))
        })
    };
    // with every query there is, before every edit
    let rich = |depth: usize| Plan { depth, mask: ALL, read: Some(&many), ..Plan::default() };
    // with the usual queries, and edits compared with them
    let plan = |depth: usize| Plan { depth, mask: ALL, read: Some(&few), hook: Some(&local), ..Plan::default() };
    explore(ctx, &two_worlds().drops(), &rich(1));
    explore(ctx, &two_worlds().drops(), &plan(ctx.pick(2, 3)));
    explore(ctx, &used_id_nodes(0), &plan(ctx.pick(2, 3)));
    explore(ctx, &ns_nodes(OPT_NS), &plan(ctx.pick(2, 3)));
    explore(ctx, &declarations(), &plan(ctx.pick(2, 3)));
    odd_names(ctx, &plan(1), ctx.thorough());
    explore(ctx, &two_documents_small().drops(), &plan(ctx.pick(2, 4)));
    explore(ctx, &all_types().drops(), &plan(ctx.pick(1, 2)));
    explore(ctx, &attribute_children().drops(), &plan(ctx.pick(2, 5)));
    explore(ctx, &text_edits().drops(), &plan(ctx.pick(2, 4)));
    explore(ctx, &containers().drops(), &plan(ctx.pick(1, 3)));
    explore(ctx, &mixed(3, 2).drops(), &plan(ctx.pick(1, 3)));
    for n in 1..ctx.pick(6, 12) {
        explore(ctx, &chain(n), &plan(1));
        explore(ctx, &wide(n), &plan(1));
    }
    // asking alone, of larger trees
    for n in (0..ctx.pick(20, 40)).chain(lengths(ctx).iter().copied()) {
        ctx.par(2, |th, shape| {
            let w = if shape == 0 { wide(n) } else { chain(n) };
            case(th, format_args!("asking {}", w.name), |th| {
                let m = w.model();
                let r = w.real(&[])?;
                for i in marks(m.nodes.len()) {
                    let first = few(&m, &r, i)?;
                    same(format_args!("#{} asked again", i), few(&m, &r, i)?, first)?;
                    th.transitions += 1;
                }
                r.compare(&m, ALL)
            });
        });
    }
    // asking alone, whatever the content is
    let pieces = ["a", "&amp;", "&#38;", "&#x9;", "<", ">", "\"", " ", "\t", "\r\n", "\u{85}", "lt;", "]]>", "é"];
    let long = Longs { fills: &["x", "é"], marks: &["&amp;", "<", "\n"], sizes: long_sizes(ctx, 65_536) };
    let all = upto(&pieces, ctx.pick(3, 4));
    ctx.note(format!(
        "nodes of every type with each of {} contents of up to {} pieces of {:?}, and {}: everything asked of each of them, twice, and all compared with what they were made of",
        all.len(), ctx.pick(3, 4), pieces, long.describe()
    ));
    let asked_of = |th: &mut Th<'_>, v: &str| -> R {
        if normalize_value(v).is_none() {
            return Ok(());
        }
        let v = intern(v);
        let spec = [
            Spec::Doc(OPT_NS, None),
            Spec::El(0, "a"),
            Spec::AtWith(0, "k", v),
            Spec::At(0, "xml:id"),
            Spec::Text(0, v),
            Spec::Text(0, v),
            Spec::CData(0, v),
            Spec::Comment(0, v),
            Spec::PI(0, "p", Some(v)),
            Spec::IntEntity(0, "e", v),
            Spec::DocType("d", Some(v), Some(v)),
        ];
        let mut p = Pair::new(&spec)?;
        let mut init = vec![Op::Append(0, 1), Op::SetAttrNode(1, 2), Op::Append(3, 4), Op::SetAttrNode(1, 3)];
        init.extend((5..9).map(|i| Op::Append(1, i)));
        p.steps(&init)?;
        p.compare(ALL)?;
        let mut first = vec![];
        for i in 0..p.m.nodes.len() {
            first.push(many(&p.m, &p.r, i)?);
        }
        for (i, first) in first.into_iter().enumerate() {
            same(format_args!("#{} asked again", i), few(&p.m, &p.r, i)?, few(&p.m, &p.r, i)?)?;
            same(format_args!("#{} asked everything again", i), many(&p.m, &p.r, i)?, first)?;
            th.transitions += 1;
        }
        p.compare(ALL)
    };
    ctx.par(all.len() as u64, |th, i| {
        let v = &all[i as usize];
        case(th, format_args!("asking of {:?}", v), |th| asked_of(th, v));
    });
    ctx.par(long.count(), |th, i| {
        let (v, n, fill, mark, shape) = long.get(i);
        case(th, format_args!("asking of {:?} x {} with {:?} ({})", fill, n, mark, shape), |th| asked_of(th, &v));
    });
    if ctx.thorough() {
        explore(ctx, &two_worlds().drops(), &rich(2));
    }
}

/// An element with declarations, and every kind of child with and without its like beside it.
fn declarations() -> World {
    let spec = vec![
        Spec::Doc(OPT_NS | OPT_IDS, None),
        Spec::ElNs(0, "u", "p:a"),
        Spec::Text(0, ""),
        Spec::Text(0, "s"),
        Spec::ElNs(0, "v", "q:b"),
        Spec::Text(0, "t"),
        Spec::Text(0, ""),
        Spec::CData(0, "d"),
        Spec::Comment(0, ""),
        Spec::PI(0, "p", None),
        Spec::ERef(0, "r"),
        Spec::El(0, "c"),
    ];
    let mut init = vec![Op::Append(0, 1)];
    init.extend((2..12).map(|i| Op::Append(1, i)));
    init.extend([
        Op::SetAttrNs(1, XMLNS, "xmlns:p", "u"),
        Op::SetAttrNs(1, XMLNS, "xmlns", "w"),
        Op::SetAttrNs(4, XMLNS, "xmlns:q", "v"),
        Op::SetAttr(4, "id", "i"),
    ]);
    World::new("declarations", spec, init, |m: &Model| {
        let mut ops = vec![
            Op::SetAttrNs(4, XMLNS, "xmlns:p", "v"),
            Op::RemAttrNs(1, XMLNS, "p"),
            Op::RemAttr(1, "xmlns"),
            Op::SetAttr(11, "id", "j"),
            Op::Append(4, 11),
            Op::Append(10, 11),
            Op::Normalize(4),
            Op::SetNV(3, "x"),
        ];
        for c in m.n(1).kids.clone() {
            ops.extend([Op::Remove(1, c), Op::Append(1, c), Op::Insert(1, c, Some(2))]);
        }
        ops
    })
}

/// Two documents, each with a tree and a detached piece, edits in all of them.
fn two_worlds() -> World {
    let mut spec = vec![Spec::Doc(4, None), Spec::Doc(5, None)];
    let mut init = vec![];
    for d in [0, 1] {
        let b = spec_len(&spec);
        spec.extend([
            Spec::ElNs(d, "urn:u", "p:a"),
            Spec::El(d, "k"),
            Spec::El(d, "a"),
            Spec::Text(d, "ab"),
            Spec::AtWith(d, "k", "v"), // b+4 text, b+5
            Spec::Comment(d, "c"),
        ]);
        init.extend([
            Op::Append(d, b),
            Op::Append(b, b + 1),
            Op::SetAttrNs(b, XMLNS, "xmlns:p", "urn:u"),
            Op::SetAttrNode(b + 1, b + 5),
            Op::Append(b + 1, b + 3),
            Op::Append(b + 2, b + 6),
            Op::SetAttr(b + 2, "xml:id", "a"),
        ]);
    }
    World::new("two-worlds", spec, init, |m: &Model| {
        let mut ops = vec![];
        for b in [2, 9] {
            let other = 11 - b;
            for p in [b, b + 1, b + 2] {
                for c in [b + 1, b + 2, b + 3, b + 6, other + 2] {
                    ops.push(Op::Append(p, c));
                    ops.push(Op::Remove(p, c));
                    if let Some(f) = m.n(p).kids.first() {
                        ops.push(Op::Insert(p, c, Some(*f)));
                        ops.push(Op::Replace(p, c, *f));
                    }
                }
                ops.extend([
                    Op::SetAttr(p, "k", "w"),
                    Op::SetAttr(p, "xml:id", "k"),
                    Op::SetAttrNs(p, XMLNS, "xmlns:p", "urn:v"),
                    Op::RemAttr(p, "k"),
                    Op::RemAttrNs(p, XMLNS, "p"),
                    Op::SetAttrNode(p, b + 5),
                    Op::RemAttrNode(p, b + 5),
                    Op::Normalize(p),
                    Op::SetNV(p, "x"),
                ]);
            }
            ops.extend([
                Op::SetVal(b + 5, "k"),
                Op::UnsetVal(b + 5),
                Op::AppendData(b + 3, "+"),
                Op::DeleteData(b + 3, 0, 1),
                Op::Split(b + 3, 1),
                Op::SetNV(b + 6, "d"),
                Op::UnsetNV(b + 3),
                Op::Clone(b, true),
                Op::Clone(b + 1, false),
                Op::Remove(b - 2 - if b == 9 { 6 } else { 0 }, b),
            ]);
        }
        ops
    })
    .max(24)
}
