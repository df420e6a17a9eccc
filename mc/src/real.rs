//! The library's own nodes beside the model's, operation by operation, and the comparison of
//! everything they show.

use crate::model::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use xml_dom::level2::ext::dom_impl::*;
use xml_dom::level2::ext::*;
use xml_dom::level2::*;

thread_local! {
    /// Which of the questions are asked: those from the first on, those before it, or all.
    static PART: std::cell::Cell<(u8, usize, usize)> = const { std::cell::Cell::new((0, 0, 0)) };
}
/// Whether it is the turn of the question that comes next.
pub fn turn() -> bool {
    PART.with(|c| {
        let (part, first, n) = c.get();
        if part == 0 {
            return true;
        }
        c.set((part, first, n + 1));
        (part == 1) == (n >= first)
    })
}
/// Ask all the questions, the `first` one first and the one before it last; how many there are.
pub fn in_turn(first: usize, ask: &dyn Fn() -> std::result::Result<(), String>) -> std::result::Result<usize, String> {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            PART.with(|c| c.set((0, 0, 0)));
        }
    }
    let _off = Off;
    PART.with(|c| c.set((1, first, 0)));
    ask()?;
    let count = PART.with(|c| c.get().2);
    if first > 0 {
        PART.with(|c| c.set((2, first, 0)));
        ask()?;
    }
    Ok(count)
}

pub fn kind(n: &RefNode) -> K {
    match n.node_type() {
        NodeType::Element => K::Element,
        NodeType::Attribute => K::Attribute,
        NodeType::Text => K::Text,
        NodeType::CData => K::CData,
        NodeType::EntityReference => K::EntityRef,
        NodeType::Entity => K::Entity,
        NodeType::ProcessingInstruction => K::PI,
        NodeType::Comment => K::Comment,
        NodeType::Document => K::Document,
        NodeType::DocumentType => K::DocType,
        NodeType::DocumentFragment => K::Fragment,
        NodeType::Notation => K::Notation,
    }
}

pub fn err(e: &Error) -> E {
    match e {
        Error::IndexSize => E::IndexSize,
        Error::HierarchyRequest => E::HierarchyRequest,
        Error::WrongDocument => E::WrongDocument,
        Error::InvalidCharacter => E::InvalidCharacter,
        Error::NotFound => E::NotFound,
        Error::InUseAttribute => E::InUseAttribute,
        Error::InvalidState => E::InvalidState,
        Error::Syntax => E::Syntax,
        Error::Namespace => E::Namespace,
        _ => E::Other,
    }
}

/// What documents are made with: nothing, or a declaration and a document type that the model does
/// not have. Neither makes a difference to what a tree does.
static OUTFIT: AtomicUsize = AtomicUsize::new(0);
pub const OUTFITS: usize = 3;
pub const WORN: [(&str, &str); OUTFITS + 1] = [
    ("", ""),
    ("<?xml version=\"1.1\" encoding=\"UTF-8\" standalone=\"yes\"?>", "<!DOCTYPE worn SYSTEM \"s\">"),
    ("<?xml version=\"1.0\" encoding=\"US-ASCII\" standalone=\"no\"?>", "<!DOCTYPE a PUBLIC \"q\" SYSTEM \"s\">"),
    ("<?xml version=\"1.1\" encoding=\"ISO-8859-1\"?>", "<!DOCTYPE p:b SYSTEM \"\">"),
];

pub fn dressed() -> bool {
    OUTFIT.load(Ordering::Relaxed) != 0
}
/// How the declaration and the document type are written.
pub fn worn() -> (&'static str, &'static str) {
    WORN[OUTFIT.load(Ordering::Relaxed)]
}
/// Runs `f` with documents that have a declaration and a document type.
pub fn dress<T>(outfit: usize, f: impl FnOnce() -> T) -> T {
    OUTFIT.store(outfit, Ordering::Relaxed);
    let r = f();
    OUTFIT.store(0, Ordering::Relaxed);
    r
}
pub fn worn_type() -> Option<RefNode> {
    let (name, public, system) = match OUTFIT.load(Ordering::Relaxed) {
        0 => return None,
        1 => ("worn", None, "s"),
        2 => ("a", Some("q"), "s"),
        _ => ("p:b", None, ""),
    };
    Some(get_implementation().create_document_type(name, public, Some(system)).unwrap())
}
pub fn declared(mut document: RefNode) -> Result<RefNode> {
    document.set_xml_declaration(match OUTFIT.load(Ordering::Relaxed) {
        0 => return Ok(document),
        1 => XmlDecl::new(XmlVersion::V11, Some("UTF-8".into()), Some(true)),
        2 => XmlDecl::new(XmlVersion::V10, Some("US-ASCII".into()), Some(false)),
        _ => XmlDecl::new(XmlVersion::V11, Some("ISO-8859-1".into()), None),
    })?;
    Ok(document)
}

/// How the nodes of a world are made.
#[derive(Clone, Copy, Debug)]
pub enum Spec {
    /// options, doctype
    Doc(u8, Option<Id>),
    /// by the plain create_document; with its document element as the next node, if named
    DocBy(Option<S>, Option<S>),
    DocType(S, Option<S>, Option<S>),
    El(Id, S),
    ElNs(Id, S, S),
    At(Id, S),
    AtWith(Id, S, S),
    AtNs(Id, S, S),
    Text(Id, S),
    CData(Id, S),
    Comment(Id, S),
    PI(Id, S, Option<S>),
    ERef(Id, S),
    Frag(Id),
    Entity(Id, S, Option<S>, Option<S>),
    IntEntity(Id, S, S),
    Notation(Id, S, Option<S>, Option<S>),
}

pub fn options(opts: u8) -> ProcessingOptions {
    let mut o = ProcessingOptions::new();
    if opts & OPT_IDS != 0 {
        o.set_assume_ids();
    }
    if opts & 2 != 0 {
        o.set_parse_entities();
    }
    if opts & OPT_NS != 0 {
        o.set_add_namespaces();
    }
    o
}

pub fn spec_model(m: &mut Model, s: Spec) -> Id {
    let mut t: Option<Id> = None;
    let n = match s {
        Spec::Doc(opts, dt) => {
            let mut n = MNode::new(K::Document, Q::local("#document"), None);
            n.opts = opts;
            n.doctype = dt;
            if let Some(dt) = dt {
                m.nodes[dt].doc = Some(m.nodes.len());
            }
            n
        }
        Spec::DocBy(ns, q) => {
            let mut n = MNode::new(K::Document, Q::local("#document"), None);
            n.opts = OPT_NS;
            m.nodes.push(n);
            let d = m.nodes.len() - 1;
            if let Some(q) = q {
                let root = MNode::new(K::Element, parse_name(ns, q).unwrap(), Some(d));
                m.nodes.push(root);
                m.attach(d, d + 1, 0);
            }
            return d;
        }
        Spec::DocType(q, p, sy) => {
            let mut n = MNode::new(K::DocType, parse_name(None, q).unwrap(), None);
            n.public = p;
            n.system = sy;
            n
        }
        Spec::El(d, q) => MNode::new(K::Element, parse_name(None, q).unwrap(), Some(d)),
        Spec::ElNs(d, ns, q) => MNode::new(K::Element, parse_name(Some(ns), q).unwrap(), Some(d)),
        Spec::At(d, q) => MNode::new(K::Attribute, parse_name(None, q).unwrap(), Some(d)),
        Spec::AtNs(d, ns, q) => MNode::new(K::Attribute, parse_name(Some(ns), q).unwrap(), Some(d)),
        Spec::AtWith(d, q, v) => {
            let n = MNode::new(K::Attribute, parse_name(None, q).unwrap(), Some(d));
            let mut tn = MNode::new(K::Text, Q::local("#text"), Some(d));
            tn.implicit = true;
            tn.val = Some(v);
            m.nodes.push(tn);
            t = Some(m.nodes.len() - 1);
            n
        }
        Spec::Text(d, v) => {
            let mut n = MNode::new(K::Text, Q::local("#text"), Some(d));
            n.val = Some(v);
            n
        }
        Spec::CData(d, v) => {
            let mut n = MNode::new(K::CData, Q::local("#cdata-section"), Some(d));
            n.val = Some(v);
            n
        }
        Spec::Comment(d, v) => {
            let mut n = MNode::new(K::Comment, Q::local("#comment"), Some(d));
            n.val = Some(v);
            n
        }
        Spec::PI(d, q, v) => {
            let mut n = MNode::new(K::PI, parse_name(None, q).unwrap(), Some(d));
            n.val = v;
            n
        }
        Spec::ERef(d, q) => MNode::new(K::EntityRef, parse_name(None, q).unwrap(), Some(d)),
        Spec::Frag(d) => MNode::new(K::Fragment, Q::local("#document-fragment"), Some(d)),
        Spec::Entity(d, q, p, sy) => {
            let mut n = MNode::new(K::Entity, parse_name(None, q).unwrap(), Some(d));
            n.public = p;
            n.system = sy;
            n
        }
        Spec::IntEntity(d, q, v) => {
            let mut n = MNode::new(K::Entity, parse_name(None, q).unwrap(), Some(d));
            n.val = Some(v);
            n
        }
        Spec::Notation(d, q, p, sy) => {
            let mut n = MNode::new(K::Notation, parse_name(None, q).unwrap(), Some(d));
            n.public = p;
            n.system = sy;
            n
        }
    };
    m.nodes.push(n);
    let id = m.nodes.len() - 1;
    if let Some(t) = t {
        m.attach(id, t, 0);
    }
    id
}

#[derive(Clone, Default)]
pub struct Real {
    pub nodes: Vec<Option<RefNode>>,
}

pub enum RRet {
    Unit,
    Node(RefNode),
}

// facets of the comparison
pub const IDENT: u32 = 1;
pub const LINKS: u32 = 2;
pub const VALUES: u32 = 4;
pub const DOC: u32 = 8;
pub const ATTRS: u32 = 16;
pub const OWNER: u32 = 32;
pub const ROOT: u32 = 64;
pub const TREE: u32 = IDENT | LINKS | VALUES | ROOT;
pub const ALL: u32 = 127;

impl Real {
    pub fn g(&self, i: Id) -> &RefNode {
        self.nodes[i].as_ref().expect("live node")
    }
    pub fn m(&self, i: Id) -> RefNode {
        self.g(i).clone()
    }
    /// The id of a node, for messages and comparisons.
    pub fn id(&self, n: &RefNode) -> Option<Id> {
        self.nodes.iter().position(|x| x.as_ref() == Some(n))
    }
    pub fn show(&self, n: &RefNode) -> String {
        match self.id(n) {
            Some(i) => format!("#{}", i),
            None => format!("unknown {:?} {}", kind(n), n.node_name()),
        }
    }
    fn show_o(&self, n: &Option<RefNode>) -> String {
        match n {
            None => "none".into(),
            Some(n) => self.show(n),
        }
    }
    fn show_v(&self, n: &[RefNode]) -> String {
        n.iter().map(|n| self.show(n)).collect::<Vec<_>>().join(" ")
    }

    pub fn make(&mut self, s: Spec) -> std::result::Result<Id, String> {
        let r: Result<RefNode> = match s {
            Spec::Doc(opts, dt) => get_implementation_ext()
                .create_document_with_options(
                    None,
                    None,
                    dt.map(|d| self.m(d)).or_else(worn_type),
                    options(opts),
                )
                .and_then(declared),
            Spec::DocBy(ns, q) => {
                let r = get_implementation().create_document(ns, q, worn_type()).and_then(declared);
                if let (Ok(d), Some(_)) = (&r, q) {
                    self.nodes.push(Some(d.clone()));
                    self.nodes.push(d.document_element());
                    return Ok(self.nodes.len() - 2);
                }
                r
            }
            Spec::DocType(q, p, sy) => get_implementation().create_document_type(q, p, sy),
            Spec::El(d, q) => self.g(d).create_element(q),
            Spec::ElNs(d, ns, q) => self.g(d).create_element_ns(ns, q),
            Spec::At(d, q) => self.g(d).create_attribute(q),
            Spec::AtNs(d, ns, q) => self.g(d).create_attribute_ns(ns, q),
            Spec::AtWith(d, q, v) => {
                let r = self.g(d).create_attribute_with(q, v);
                if let Ok(a) = &r {
                    self.nodes.push(a.first_child());
                }
                r
            }
            Spec::Text(d, v) => Ok(self.g(d).create_text_node(v)),
            Spec::CData(d, v) => self.g(d).create_cdata_section(v),
            Spec::Comment(d, v) => Ok(self.g(d).create_comment(v)),
            Spec::PI(d, q, v) => self.g(d).create_processing_instruction(q, v),
            Spec::ERef(d, q) => self.g(d).create_entity_reference(q),
            Spec::Frag(d) => self.g(d).create_document_fragment(),
            Spec::Entity(d, q, p, sy) => create_entity(self.m(d), q, p, sy),
            Spec::IntEntity(d, q, v) => create_internal_entity(self.m(d), q, v),
            Spec::Notation(d, q, p, sy) => create_notation(self.m(d), q, p, sy),
        };
        match r {
            Ok(n) => {
                self.nodes.push(Some(n));
                Ok(self.nodes.len() - 1)
            }
            Err(e) => Err(format!("{:?} failed: {:?}", s, e)),
        }
    }

    pub fn apply(&self, op: Op) -> Result<RRet> {
        fn node(r: Result<RefNode>) -> Result<RRet> {
            r.map(RRet::Node)
        }
        fn unit(r: Result<()>) -> Result<RRet> {
            r.map(|_| RRet::Unit)
        }
        match op {
            Op::Append(p, c) => node(self.m(p).append_child(self.m(c))),
            Op::Insert(p, c, r) => {
                node(self.m(p).insert_before(self.m(c), r.map(|r| self.m(r))))
            }
            Op::Replace(p, n, o) => node(self.m(p).replace_child(self.m(n), self.m(o))),
            Op::Remove(p, c) => node(self.m(p).remove_child(self.m(c))),
            Op::SetAttr(e, n, v) => unit(self.m(e).set_attribute(n, v)),
            Op::SetAttrNs(e, u, n, v) => unit(self.m(e).set_attribute_ns(u, n, v)),
            Op::RemAttr(e, n) => unit(self.m(e).remove_attribute(n)),
            Op::RemAttrNs(e, u, n) => unit(self.m(e).remove_attribute_ns(u, n)),
            Op::SetAttrNode(e, a) => node(self.m(e).set_attribute_node(self.m(a))),
            Op::SetAttrNodeNs(e, a) => node(self.m(e).set_attribute_node_ns(self.m(a))),
            Op::RemAttrNode(e, a) => node(self.m(e).remove_attribute_node(self.m(a))),
            Op::SetVal(a, v) => unit(self.m(a).set_value(v)),
            Op::UnsetVal(a) => unit(self.m(a).unset_value()),
            Op::SetNV(n, v) => unit(self.m(n).set_node_value(v)),
            Op::UnsetNV(n) => unit(self.m(n).unset_node_value()),
            Op::SetData(n, v) => {
                if kind(self.g(n)) == K::PI {
                    unit(ProcessingInstruction::set_data(&mut self.m(n), v))
                } else {
                    unit(CharacterData::set_data(&mut self.m(n), v))
                }
            }
            Op::UnsetData(n) => {
                if kind(self.g(n)) == K::PI {
                    unit(ProcessingInstruction::unset_data(&mut self.m(n)))
                } else {
                    unit(CharacterData::unset_data(&mut self.m(n)))
                }
            }
            Op::AppendData(n, s) => unit(self.m(n).append_data(s)),
            Op::InsertData(n, o, s) => unit(self.m(n).insert_data(o, s)),
            Op::DeleteData(n, o, c) => unit(self.m(n).delete_data(o, c)),
            Op::ReplaceData(n, o, c, s) => unit(self.m(n).replace_data(o, c, s)),
            Op::Split(n, o) => node(self.m(n).split(o)),
            Op::Normalize(n) => {
                self.m(n).normalize();
                Ok(RRet::Unit)
            }
            Op::Clone(n, d) => match self.g(n).clone_node(d) {
                Some(n) => Ok(RRet::Node(n)),
                None => Err(Error::NotSupported),
            },
            Op::Drop(_) => Ok(RRet::Unit),
        }
    }

    /// Register the nodes an operation made.
    pub fn register(
        &mut self,
        m: &Model,
        made: &[(Id, Loc)],
        ret: Option<&RefNode>,
    ) -> std::result::Result<(), String> {
        for (id, loc) in made {
            let n = match loc {
                Loc::Ret => ret.cloned(),
                Loc::Kid(p, i) => self.g(*p).child_nodes().get(*i).cloned(),
                Loc::Attr(e, q) => self
                    .g(*e)
                    .attributes()
                    .into_iter()
                    .find(|(name, _)| {
                        name.to_string() == q.to_string()
                            && name.namespace_uri().as_deref() == q.ns
                    })
                    .map(|x| x.1),
            };
            let Some(n) = n else {
                return Err(format!(
                    "node {:?} {} expected at {:?} is missing",
                    m.n(*id).k,
                    m.n(*id).name,
                    loc
                ));
            };
            if let Some(old) = self.id(&n) {
                return Err(format!(
                    "node expected new at {:?} is the existing #{}",
                    loc, old
                ));
            }
            while self.nodes.len() <= *id {
                self.nodes.push(None);
            }
            self.nodes[*id] = Some(n);
        }
        Ok(())
    }

    fn same(&self, got: &Option<RefNode>, want: Option<Id>) -> bool {
        match (got, want) {
            (None, None) => true,
            (Some(g), Some(w)) => g == self.g(w),
            _ => false,
        }
    }
    fn same_list(&self, got: &[RefNode], want: &[Id]) -> bool {
        got.len() == want.len() && got.iter().zip(want).all(|(g, w)| g == self.g(*w))
    }

    /// Compare what every live node shows with the model.
    pub fn compare(&self, m: &Model, mask: u32) -> std::result::Result<(), String> {
        for i in m.live() {
            self.compare_node(m, i, mask)?;
        }
        Ok(())
    }

    pub fn compare_node(&self, m: &Model, i: Id, mask: u32) -> std::result::Result<(), String> {
        let n = m.n(i);
        let r = self.g(i);
        macro_rules! check {
            ($what:expr, $got:expr, $want:expr) => {
                if turn() {
                    match ($got, $want) {
                        (got, want) => {
                            if got != want {
                                return Err(format!(
                                    "{} of #{} ({:?} {}) is {:?}, expected {:?}",
                                    $what, i, n.k, n.name, got, want
                                ));
                            }
                        }
                    }
                }
            };
        }
        macro_rules! link {
            ($what:expr, $got:expr, $want:expr) => {
                if turn() {
                    let got = $got;
                    let want: Option<Id> = $want;
                    if !self.same(&got, want) {
                        return Err(format!(
                            "{} of #{} ({:?} {}) is {}, expected {}",
                            $what,
                            i,
                            n.k,
                            n.name,
                            self.show_o(&got),
                            want.map_or("none".into(), |w| format!("#{}", w))
                        ));
                    }
                }
            };
        }
        if mask & IDENT != 0 {
            check!("type", kind(r), n.k);
            let name = r.node_name();
            check!("namespace", name.namespace_uri().as_deref(), n.name.ns);
            check!("prefix", name.prefix().as_deref(), n.name.prefix);
            check!("local name", name.local_name().as_str(), n.name.local);
            check!("namespace_uri", r.namespace_uri().as_deref(), n.name.ns);
            check!("prefix()", Node::prefix(r).as_deref(), n.name.prefix);
            check!("local_name()", Node::local_name(r).as_str(), n.name.local);
            check!("node name", name.to_string(), n.name.to_string());
            if n.k == K::Element {
                check!("tag name", r.tag_name(), n.name.to_string());
            }
            if n.k == K::PI {
                check!("target", r.target(), n.name.to_string());
            }
            match n.k {
                K::DocType => {
                    check!("public id", DocumentType::public_id(r).as_deref(), n.public);
                    check!("system id", DocumentType::system_id(r).as_deref(), n.system);
                    check!("entities", r.entities().len(), 0);
                    check!("notations", r.notations().len(), 0);
                    check!("internal subset", r.internal_subset(), None);
                }
                K::Entity => {
                    check!("public id", Entity::public_id(r).as_deref(), n.public);
                    check!("system id", Entity::system_id(r).as_deref(), n.system);
                    check!("notation name", r.notation_name(), None);
                }
                K::Notation => {
                    check!("public id", Notation::public_id(r).as_deref(), n.public);
                    check!("system id", Notation::system_id(r).as_deref(), n.system);
                }
                K::Document => {
                    if n.doctype.is_none() && dressed() {
                        check!("doc_type", r.doc_type().map(|t| t.to_string()).as_deref(), Some(worn().1));
                    } else {
                        link!("doc_type", r.doc_type(), n.doctype);
                    }
                }
                _ => (),
            }
        }
        if mask & LINKS != 0 {
            if turn() {
                let kids = r.child_nodes();
                if !self.same_list(&kids, &n.kids) {
                    return Err(format!(
                        "children of #{} ({:?} {}) are [{}], expected {:?}",
                        i,
                        n.k,
                        n.name,
                        self.show_v(&kids),
                        n.kids
                    ));
                }
            }
            check!("has_child_nodes", r.has_child_nodes(), !n.kids.is_empty());
            link!("first_child", r.first_child(), n.kids.first().copied());
            link!("last_child", r.last_child(), n.kids.last().copied());
            link!("parent_node", r.parent_node(), n.parent);
            link!("previous_sibling", r.previous_sibling(), m.prev(i));
            link!("next_sibling", r.next_sibling(), m.next(i));
        }
        if mask & ROOT != 0 && n.k == K::Document {
            link!("document_element", r.document_element(), m.document_element(i));
        }
        if mask & VALUES != 0 {
            check!("node_value", r.node_value().as_deref(), n.val);
            if is_chardata(n.k) {
                let want = n.val.map(|v| {
                    if n.k == K::CData {
                        v.to_string()
                    } else {
                        escape(v)
                    }
                });
                check!("length", CharacterData::length(r), want.as_ref().map_or(0, |v| v.len()));
                check!("data", CharacterData::data(r), want);
            }
            if n.k == K::PI {
                check!("PI length", ProcessingInstruction::length(r), n.val.map_or(0, |v| v.len()));
                check!("PI data", ProcessingInstruction::data(r).as_deref(), n.val);
            }
            if n.k == K::Attribute {
                if let Some(want) = m.value(i) {
                    check!("value", r.value(), want);
                }
                check!("specified", r.specified(), true);
            }
        }
        if mask & DOC != 0 {
            link!("owner_document", r.owner_document(), m.owner_document(i));
        }
        if mask & OWNER != 0 && n.k == K::Attribute {
            link!("owner_element", r.owner_element(), n.owner);
        }
        if mask & ATTRS != 0 {
            check!("has_attributes", r.has_attributes(), !n.attrs.is_empty());
            if turn() {
                self.compare_attributes(m, i)?;
            }
            for a in &n.attrs {
                let q = m.n(*a).name;
                let qn = q.to_string();
                link!("get_attribute_node", r.get_attribute_node(&qn), Some(*a));
                check!("has_attribute", r.has_attribute(&qn), true);
                if let Some(v) = m.value(*a) {
                    check!("get_attribute", r.get_attribute(&qn), v.clone());
                    if let Some(ns) = q.ns {
                        if valid_ns_lookup(ns, q.local) {
                            check!("get_attribute_ns", r.get_attribute_ns(ns, q.local), v);
                        }
                    }
                }
                if let Some(ns) = q.ns {
                    if valid_ns_lookup(ns, q.local) {
                        link!(
                            "get_attribute_node_ns",
                            r.get_attribute_node_ns(ns, q.local),
                            Some(*a)
                        );
                        check!("has_attribute_ns", r.has_attribute_ns(ns, q.local), true);
                    }
                }
            }
        }
        Ok(())
    }

    fn compare_attributes(&self, m: &Model, i: Id) -> std::result::Result<(), String> {
        let n = m.n(i);
        let attrs = self.g(i).attributes();
        if attrs.len() != n.attrs.len() {
            return Err(format!(
                "#{} ({:?} {}) has {} attributes, expected {}",
                i,
                n.k,
                n.name,
                attrs.len(),
                n.attrs.len()
            ));
        }
        for a in &n.attrs {
            let q = m.n(*a).name;
            match attrs.iter().find(|(name, _)| same_name(name, &q)) {
                Some((_, node)) if node == self.g(*a) => (),
                Some((_, node)) => {
                    return Err(format!("attribute {} of #{} is {}, expected #{}", q, i, self.show(node), a))
                }
                None => return Err(format!("attribute {} of #{} is missing", q, i)),
            }
        }
        Ok(())
    }

    pub fn forget(&mut self, gone: &[Id], m: &Model) {
        for g in gone {
            self.nodes[*g] = None;
        }
        self.nodes.truncate(m.nodes.len());
    }
}

pub fn same_name(name: &Name, q: &Q) -> bool {
    name.namespace_uri().as_deref() == q.ns
        && name.prefix().as_deref() == q.prefix
        && name.local_name() == q.local
}
pub fn valid_ns_lookup(ns: &str, local: &str) -> bool {
    parse_name(Some(ns), local).is_ok()
}

/// Every node reachable from the given ones by any link, the given ones first.
pub fn closure(start: &[RefNode]) -> Vec<RefNode> {
    let mut all: Vec<RefNode> = vec![];
    let mut todo: Vec<RefNode> = start.iter().rev().cloned().collect();
    while let Some(n) = todo.pop() {
        if all.contains(&n) {
            continue;
        }
        all.push(n.clone());
        todo.extend(n.child_nodes());
        todo.extend(n.attributes().into_values());
        todo.extend(n.parent_node());
        todo.extend(n.owner_document());
        if kind(&n) == K::Attribute {
            todo.extend(n.owner_element());
        }
    }
    all
}

/// P01 from the library's own views alone: what the links say must be one consistent forest.
pub fn forest(start: &[RefNode]) -> std::result::Result<(), String> {
    let all = closure(start);
    let pos = |n: &RefNode| all.iter().position(|x| x == n).unwrap();
    let name = |n: &RefNode| format!("{:?} {}", kind(n), n.node_name());
    let kids: Vec<Vec<usize>> = all
        .iter()
        .map(|n| n.child_nodes().iter().map(pos).collect())
        .collect();
    let mut holder: HashMap<usize, usize> = HashMap::new();
    for (i, ks) in kids.iter().enumerate() {
        for k in ks {
            if let Some(other) = holder.insert(*k, i) {
                return Err(format!(
                    "{} occurs more than once in child lists (of {} and {})",
                    name(&all[*k]),
                    name(&all[other]),
                    name(&all[i])
                ));
            }
        }
    }
    for (i, n) in all.iter().enumerate() {
        let attr = kind(n) == K::Attribute;
        if attr {
            if n.parent_node().is_some()
                || n.previous_sibling().is_some()
                || n.next_sibling().is_some()
            {
                return Err(format!("attribute {} reports a parent or sibling", name(n)));
            }
            if holder.contains_key(&i) {
                return Err(format!("attribute {} is in a child list", name(n)));
            }
            continue;
        }
        let parent = n.parent_node().map(|p| pos(&p));
        if parent != holder.get(&i).copied() {
            return Err(format!(
                "{} reports parent {:?} but is in the child list of {:?}",
                name(n),
                parent.map(|p| name(&all[p])),
                holder.get(&i).map(|p| name(&all[*p]))
            ));
        }
        let (prev, next) = match parent {
            None => (None, None),
            Some(p) => {
                let at = kids[p].iter().position(|k| *k == i).unwrap();
                (
                    at.checked_sub(1).map(|a| kids[p][a]),
                    kids[p].get(at + 1).copied(),
                )
            }
        };
        if n.previous_sibling().map(|x| pos(&x)) != prev {
            return Err(format!("previous sibling of {} is wrong", name(n)));
        }
        if n.next_sibling().map(|x| pos(&x)) != next {
            return Err(format!("next sibling of {} is wrong", name(n)));
        }
        // no cycles
        let mut up = parent;
        let mut steps = 0;
        while let Some(u) = up {
            if u == i || steps > all.len() {
                return Err(format!("{} is its own ancestor", name(n)));
            }
            up = holder.get(&u).copied();
            steps += 1;
        }
    }
    for (i, n) in all.iter().enumerate() {
        if n.first_child().map(|x| pos(&x)) != kids[i].first().copied() {
            return Err(format!("first child of {} is wrong", name(n)));
        }
        if n.last_child().map(|x| pos(&x)) != kids[i].last().copied() {
            return Err(format!("last child of {} is wrong", name(n)));
        }
        if n.has_child_nodes() == kids[i].is_empty() {
            return Err(format!("has_child_nodes of {} is wrong", name(n)));
        }
    }
    Ok(())
}
