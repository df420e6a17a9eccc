//! The reference model: a flat table of nodes with explicit links, and what every operation does
//! to it. Written from the documentation of the DOM interfaces, never from the library's code.

use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::{Debug, Display, Formatter};
use std::hash::{Hash, Hasher};

pub type Id = usize;
pub type S = &'static str;

pub const XMLNS: S = "http://www.w3.org/2000/xmlns/";
pub const XMLURI: S = "http://www.w3.org/XML/1998/namespace";

thread_local! {
    static INTERN: RefCell<HashSet<S>> = RefCell::new(HashSet::new());
}

pub fn intern(s: &str) -> S {
    INTERN.with(|t| {
        let mut t = t.borrow_mut();
        match t.get(s) {
            Some(s) => s,
            None => {
                let l: S = Box::leak(s.to_string().into_boxed_str());
                t.insert(l);
                l
            }
        }
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum K {
    Element,
    Attribute,
    Text,
    CData,
    EntityRef,
    Entity,
    PI,
    Comment,
    Document,
    DocType,
    Fragment,
    Notation,
}
pub const KINDS: [K; 12] = [
    K::Element,
    K::Attribute,
    K::Text,
    K::CData,
    K::EntityRef,
    K::Entity,
    K::PI,
    K::Comment,
    K::Document,
    K::DocType,
    K::Fragment,
    K::Notation,
];

/// Error kinds, as documented.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum E {
    IndexSize,
    HierarchyRequest,
    WrongDocument,
    InvalidCharacter,
    NotFound,
    InUseAttribute,
    InvalidState,
    Syntax,
    Namespace,
    Other,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Q {
    pub ns: Option<S>,
    pub prefix: Option<S>,
    pub local: S,
}
impl Q {
    pub fn local(local: S) -> Q {
        Q {
            ns: None,
            prefix: None,
            local,
        }
    }
    pub fn same(&self, o: &Q) -> bool {
        self.to_string() == o.to_string()
            || (self.ns.is_some() && self.ns == o.ns && self.local == o.local)
    }
    pub fn is_id(&self, lax: bool) -> bool {
        self.local == "id" && (lax || self.ns == Some(XMLURI) || self.prefix == Some("xml"))
    }
    /// The prefix (or default) this attribute name declares.
    pub fn declares(&self) -> Option<Option<S>> {
        if self.ns != Some(XMLNS) {
            None
        } else if self.prefix == Some("xmlns") {
            Some(Some(self.local))
        } else if self.prefix.is_none() && self.local == "xmlns" {
            Some(None)
        } else {
            None
        }
    }
}
impl Display for Q {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        match self.prefix {
            Some(p) => write!(f, "{}:{}", p, self.local),
            None => f.write_str(self.local),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MNode {
    pub k: K,
    /// Created behind the scenes by an operation; forgotten once nothing holds it.
    pub implicit: bool,
    pub live: bool,
    /// Let go of by its last holder (its place is never used again).
    pub dropped: bool,
    pub name: Q,
    pub val: Option<S>,
    pub parent: Option<Id>,
    pub kids: Vec<Id>,
    /// Attributes of an element, ascending ids.
    pub attrs: Vec<Id>,
    pub owner: Option<Id>,
    pub doc: Option<Id>,
    pub doctype: Option<Id>,
    pub opts: u8,
    pub public: Option<S>,
    pub system: Option<S>,
}

pub const OPT_IDS: u8 = 1;
pub const OPT_NS: u8 = 4;

impl MNode {
    pub fn new(k: K, name: Q, doc: Option<Id>) -> MNode {
        MNode {
            k,
            implicit: false,
            live: true,
            dropped: false,
            name,
            val: None,
            parent: None,
            kids: vec![],
            attrs: vec![],
            owner: None,
            doc,
            doctype: None,
            opts: 0,
            public: None,
            system: None,
        }
    }
    pub fn dead() -> MNode {
        let mut n = MNode::new(K::Text, Q::local(""), None);
        n.live = false;
        n
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Model {
    pub nodes: Vec<MNode>,
}

/// How a node made by an operation is found on the real side.
#[derive(Clone, Debug)]
pub enum Loc {
    Ret,
    Kid(Id, usize),
    Attr(Id, Q),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ret {
    Unit,
    Node(Id),
}

#[derive(Clone, Debug)]
pub enum Out {
    Ok(Ret, Vec<(Id, Loc)>),
    /// Any of these kinds.
    Err(Vec<E>),
    /// Any result, but nothing changes.
    Any,
    /// Outside the claims: may do anything, so nothing is checked and the branch ends.
    Unclaimed,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub enum Op {
    Append(Id, Id),
    Insert(Id, Id, Option<Id>),
    Replace(Id, Id, Id),
    Remove(Id, Id),
    SetAttr(Id, S, S),
    SetAttrNs(Id, S, S, S),
    RemAttr(Id, S),
    RemAttrNs(Id, S, S),
    SetAttrNode(Id, Id),
    SetAttrNodeNs(Id, Id),
    RemAttrNode(Id, Id),
    SetVal(Id, S),
    UnsetVal(Id),
    SetNV(Id, S),
    UnsetNV(Id),
    SetData(Id, S),
    UnsetData(Id),
    AppendData(Id, S),
    InsertData(Id, usize, S),
    DeleteData(Id, usize, usize),
    ReplaceData(Id, usize, usize, S),
    Split(Id, usize),
    Normalize(Id),
    Clone(Id, bool),
    /// The last handle of a node nothing holds is let go.
    Drop(Id),
}

impl Op {
    /// Are all nodes named by the operation there?
    pub fn possible(&self, m: &Model) -> bool {
        let l = |i: Id| m.nodes.get(i).is_some_and(|n| n.live);
        match *self {
            Op::Append(a, b)
            | Op::Remove(a, b)
            | Op::SetAttrNode(a, b)
            | Op::SetAttrNodeNs(a, b)
            | Op::RemAttrNode(a, b)
            | Op::Insert(a, b, None) => l(a) && l(b),
            Op::Insert(a, b, Some(c)) | Op::Replace(a, b, c) => l(a) && l(b) && l(c),
            Op::SetAttr(a, ..)
            | Op::SetAttrNs(a, ..)
            | Op::RemAttr(a, _)
            | Op::RemAttrNs(a, ..)
            | Op::SetVal(a, _)
            | Op::UnsetVal(a)
            | Op::SetNV(a, _)
            | Op::UnsetNV(a)
            | Op::SetData(a, _)
            | Op::UnsetData(a)
            | Op::AppendData(a, _)
            | Op::InsertData(a, ..)
            | Op::DeleteData(a, ..)
            | Op::ReplaceData(a, ..)
            | Op::Split(a, _)
            | Op::Normalize(a)
            | Op::Clone(a, _) => l(a),
            Op::Drop(a) => l(a) && m.loose(a),
        }
    }
}

/// Node name for a replay file / message.
impl Debug for Op {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        match *self {
            Op::Append(p, c) => write!(f, "append({p},{c})"),
            Op::Insert(p, c, Some(r)) => write!(f, "insert_before({p},{c},{r})"),
            Op::Insert(p, c, None) => write!(f, "insert_before({p},{c},-)"),
            Op::Replace(p, n, o) => write!(f, "replace({p},{n},{o})"),
            Op::Remove(p, c) => write!(f, "remove({p},{c})"),
            Op::SetAttr(e, n, v) => write!(f, "set_attribute({e},{n:?},{v:?})"),
            Op::SetAttrNs(e, u, n, v) => write!(f, "set_attribute_ns({e},{u:?},{n:?},{v:?})"),
            Op::RemAttr(e, n) => write!(f, "remove_attribute({e},{n:?})"),
            Op::RemAttrNs(e, u, n) => write!(f, "remove_attribute_ns({e},{u:?},{n:?})"),
            Op::SetAttrNode(e, a) => write!(f, "set_attribute_node({e},{a})"),
            Op::SetAttrNodeNs(e, a) => write!(f, "set_attribute_node_ns({e},{a})"),
            Op::RemAttrNode(e, a) => write!(f, "remove_attribute_node({e},{a})"),
            Op::SetVal(a, v) => write!(f, "set_value({a},{v:?})"),
            Op::UnsetVal(a) => write!(f, "unset_value({a})"),
            Op::SetNV(n, v) => write!(f, "set_node_value({n},{v:?})"),
            Op::UnsetNV(n) => write!(f, "unset_node_value({n})"),
            Op::SetData(n, v) => write!(f, "set_data({n},{v:?})"),
            Op::UnsetData(n) => write!(f, "unset_data({n})"),
            Op::AppendData(n, s) => write!(f, "append_data({n},{s:?})"),
            Op::InsertData(n, o, s) => write!(f, "insert_data({n},{o},{s:?})"),
            Op::DeleteData(n, o, c) => write!(f, "delete_data({n},{o},{c})"),
            Op::ReplaceData(n, o, c, s) => write!(f, "replace_data({n},{o},{c},{s:?})"),
            Op::Split(n, o) => write!(f, "split({n},{o})"),
            Op::Normalize(n) => write!(f, "normalize({n})"),
            Op::Clone(n, d) => write!(f, "clone({n},{d})"),
            Op::Drop(n) => write!(f, "drop({n})"),
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Text rules

pub fn escape(s: &str) -> String {
    let mut r = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '&' => r.push_str("&#38;"),
            '<' => r.push_str("&#60;"),
            '>' => r.push_str("&#62;"),
            '\'' => r.push_str("&#39;"),
            '"' => r.push_str("&#34;"),
            c => r.push(c),
        }
    }
    r
}

const START: [(u32, u32); 16] = [
    (0x3A, 0x3A),
    (0x41, 0x5A),
    (0x5F, 0x5F),
    (0x61, 0x7A),
    (0xC0, 0xD6),
    (0xD8, 0xF6),
    (0xF8, 0x2FF),
    (0x370, 0x37D),
    (0x37F, 0x1FFF),
    (0x200C, 0x200D),
    (0x2070, 0x218F),
    (0x2C00, 0x2FEF),
    (0x3001, 0xD7FF),
    (0xF900, 0xFDCF),
    (0xFDF0, 0xFFFD),
    (0x10000, 0xEFFFF),
];
const REST: [(u32, u32); 6] = [
    (0x2D, 0x2D),
    (0x2E, 0x2E),
    (0x30, 0x39),
    (0xB7, 0xB7),
    (0x300, 0x36F),
    (0x203F, 0x2040),
];
pub fn name_start(c: char) -> bool {
    START.iter().any(|r| (r.0..=r.1).contains(&(c as u32)))
}
pub fn name_char(c: char) -> bool {
    name_start(c) || REST.iter().any(|r| (r.0..=r.1).contains(&(c as u32)))
}
pub fn is_ncname(s: &str) -> bool {
    let mut first = true;
    for c in s.chars() {
        if c == ':' || !(if first { name_start(c) } else { name_char(c) }) {
            return false;
        }
        first = false;
    }
    !first
}

/// Is this a legal character (XML `Char`, both versions: what is in neither is unclaimed)?
pub fn legal_char(n: u32) -> bool {
    n > 0 && n <= 0x10FFFF && !(0xD800..=0xDFFF).contains(&n) && n != 0xFFFE && n != 0xFFFF
}

/// XML attribute-value normalization, `None` when the value is outside the claims (references to
/// undeclared entities or to code points that are no legal character but no surrogates either).
pub fn normalize_value(raw: &str) -> Option<String> {
    let cs: Vec<char> = raw.chars().collect();
    // line ends
    let mut l: Vec<char> = Vec::with_capacity(cs.len());
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '\r' => {
                l.push('\n');
                if i + 1 < cs.len() && (cs[i + 1] == '\n' || cs[i + 1] == '\u{85}') {
                    i += 1;
                }
            }
            '\u{85}' | '\u{2028}' => l.push('\n'),
            c => l.push(c),
        }
        i += 1;
    }
    let mut out = String::with_capacity(raw.len());
    let mut i = 0;
    while i < l.len() {
        let c = l[i];
        match c {
            '\t' | '\n' => out.push(' '),
            '&' => {
                let end = (i + 1..l.len()).find(|&j| l[j] == ';' || l[j] == '&');
                let body: Option<String> = match end {
                    Some(j) if l[j] == ';' => Some(l[i + 1..j].iter().collect()),
                    _ => None,
                };
                match body.as_deref().map(reference) {
                    Some(Reference::Char(r)) => {
                        out.push(r);
                        i = end.unwrap();
                    }
                    Some(Reference::Unclaimed) => return None,
                    _ => out.push('&'),
                }
            }
            c => out.push(c),
        }
        i += 1;
    }
    Some(out)
}

pub enum Reference {
    Char(char),
    Unclaimed,
    Malformed,
}
pub fn reference(body: &str) -> Reference {
    match body {
        "amp" => return Reference::Char('&'),
        "lt" => return Reference::Char('<'),
        "gt" => return Reference::Char('>'),
        "apos" => return Reference::Char('\''),
        "quot" => return Reference::Char('"'),
        _ => (),
    }
    let num = if let Some(h) = body.strip_prefix("#x") {
        if h.is_empty() || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
            return Reference::Malformed;
        }
        u32::from_str_radix(h, 16).ok()
    } else if let Some(d) = body.strip_prefix('#') {
        if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
            return Reference::Malformed;
        }
        d.parse::<u32>().ok()
    } else {
        let mut cs = body.chars();
        return match cs.next() {
            Some(c) if (name_start(c) || c.is_alphabetic())
                && cs.all(|c| name_char(c) || c.is_alphanumeric()) =>
            {
                Reference::Unclaimed
            }
            _ => Reference::Malformed,
        };
    };
    match num {
        Some(n) if legal_char(n) => Reference::Char(char::from_u32(n).unwrap()),
        Some(n) if n == 0 || n == 0xFFFE || n == 0xFFFF => Reference::Unclaimed,
        _ => Reference::Malformed,
    }
}

/// The rule for names, with every applicable error.
pub fn parse_name(ns: Option<&str>, qn: &str) -> Result<Q, Vec<E>> {
    let mut errs = vec![];
    let parts: Vec<&str> = qn.split(':').collect();
    if qn.is_empty() || parts.len() > 2 || parts.iter().any(|p| p.is_empty()) {
        errs.push(E::Syntax);
    }
    if parts.iter().any(|p| !p.is_empty() && !is_ncname(p)) {
        errs.push(E::InvalidCharacter);
    }
    let (prefix, local) = if parts.len() == 2 {
        (Some(parts[0]), parts[1])
    } else {
        (None, parts[0])
    };
    if let Some(ns) = ns {
        if ns.is_empty() {
            errs.push(E::Syntax);
        }
        if parts.len() <= 2 {
            for part in [prefix, Some(local)].into_iter().flatten() {
                if (part == "xml" && ns != XMLURI) || (part == "xmlns" && ns != XMLNS) {
                    errs.push(E::Namespace);
                }
            }
        }
    }
    if errs.is_empty() {
        Ok(Q {
            ns: ns.map(intern),
            prefix: prefix.map(intern),
            local: intern(local),
        })
    } else {
        errs.sort();
        errs.dedup();
        Err(errs)
    }
}

// ------------------------------------------------------------------------------------------------

pub fn allowed(p: K, c: K) -> bool {
    match p {
        K::Element | K::Fragment | K::EntityRef | K::Entity => matches!(
            c,
            K::Element | K::Text | K::Comment | K::PI | K::CData | K::EntityRef
        ),
        K::Attribute => matches!(c, K::Text | K::EntityRef),
        K::Document => matches!(c, K::Element | K::Comment | K::PI),
        _ => false,
    }
}
pub fn has_value(k: K) -> bool {
    matches!(k, K::Text | K::CData | K::Comment | K::PI)
}
pub fn is_chardata(k: K) -> bool {
    matches!(k, K::Text | K::CData | K::Comment)
}

impl Model {
    pub fn n(&self, i: Id) -> &MNode {
        &self.nodes[i]
    }
    pub fn live(&self) -> impl Iterator<Item = Id> + '_ {
        (0..self.nodes.len()).filter(|i| self.nodes[*i].live)
    }
    pub fn hash128(&self) -> u128 {
        // two independent 64-bit hashes with fixed keys
        let mut a = std::collections::hash_map::DefaultHasher::new();
        0x9E37_79B9_7F4A_7C15u64.hash(&mut a);
        self.hash(&mut a);
        let mut b = std::collections::hash_map::DefaultHasher::new();
        0xC2B2_AE3D_27D4_EB4Fu64.hash(&mut b);
        self.hash(&mut b);
        ((a.finish() as u128) << 64) | b.finish() as u128
    }
    pub fn add(&mut self, n: MNode) -> Id {
        if n.implicit {
            if let Some(i) = (0..self.nodes.len()).find(|i| !self.nodes[*i].live && !self.nodes[*i].dropped) {
                self.nodes[i] = n;
                return i;
            }
        }
        self.nodes.push(n);
        self.nodes.len() - 1
    }
    /// Nothing but its handle holds this node.
    pub fn loose(&self, i: Id) -> bool {
        self.n(i).parent.is_none()
            && self.n(i).owner.is_none()
            && !self.nodes.iter().any(|n| n.doctype == Some(i))
    }
    /// The owner document, while it is there.
    pub fn owner_document(&self, i: Id) -> Option<Id> {
        self.n(i).doc.filter(|d| self.n(*d).live)
    }
    pub fn prev(&self, i: Id) -> Option<Id> {
        let p = self.n(i).parent?;
        if self.n(i).k == K::Attribute {
            return None;
        }
        let at = self.n(p).kids.iter().position(|x| *x == i)?;
        at.checked_sub(1).map(|a| self.n(p).kids[a])
    }
    pub fn next(&self, i: Id) -> Option<Id> {
        let p = self.n(i).parent?;
        let at = self.n(p).kids.iter().position(|x| *x == i)?;
        self.n(p).kids.get(at + 1).copied()
    }
    pub fn document_element(&self, d: Id) -> Option<Id> {
        self.n(d)
            .kids
            .iter()
            .copied()
            .find(|k| self.n(*k).k == K::Element)
    }
    /// Is `a` the node `i` or one of the nodes holding it?
    pub fn holds(&self, a: Id, i: Id) -> bool {
        let mut at = Some(i);
        while let Some(x) = at {
            if x == a {
                return true;
            }
            at = if self.n(x).k == K::Attribute {
                self.n(x).owner
            } else {
                self.n(x).parent
            };
        }
        false
    }
    /// The text stored in an attribute, before normalization.
    pub fn raw_value(&self, a: Id) -> Option<String> {
        if self.n(a).kids.is_empty() {
            return None;
        }
        let mut s = String::new();
        for k in &self.n(a).kids {
            s.push_str(self.n(*k).val.unwrap_or(""));
        }
        Some(s)
    }
    /// `None`: outside the claims; `Some(None)`: no value.
    pub fn value(&self, a: Id) -> Option<Option<String>> {
        match self.raw_value(a) {
            None => Some(None),
            Some(raw) => normalize_value(&raw).map(|v| Some(escape(&v))),
        }
    }
    pub fn in_tree(&self, d: Id) -> Vec<Id> {
        let mut out = vec![];
        let mut todo: Vec<Id> = self.n(d).kids.iter().rev().copied().collect();
        while let Some(x) = todo.pop() {
            out.push(x);
            todo.extend(self.n(x).kids.iter().rev().copied());
        }
        out
    }
    pub fn lax(&self, d: Id) -> bool {
        self.n(d).opts & OPT_IDS != 0
    }
    /// Elements of the tree of `d` carrying the ID.
    pub fn with_id(&self, d: Id, id: &str) -> Vec<Id> {
        let lax = self.lax(d);
        self.in_tree(d)
            .into_iter()
            .filter(|x| {
                self.n(*x).attrs.iter().any(|a| {
                    self.n(*a).name.is_id(lax)
                        && self.value(*a).flatten().as_deref() == Some(id)
                })
            })
            .collect()
    }
    pub fn attr_named(&self, e: Id, qn: &str) -> Option<Id> {
        self.n(e)
            .attrs
            .iter()
            .copied()
            .find(|a| self.n(*a).name.to_string() == qn)
    }
    pub fn attr_ns(&self, e: Id, ns: &str, local: &str) -> Option<Id> {
        self.n(e)
            .attrs
            .iter()
            .copied()
            .find(|a| self.n(*a).name.ns == Some(intern(ns)) && self.n(*a).name.local == local)
    }
    fn doc_of(&self, i: Id) -> Option<Id> {
        if self.n(i).k == K::Document {
            Some(i)
        } else {
            self.n(i).doc
        }
    }

    pub fn detach(&mut self, c: Id) {
        if let Some(p) = self.nodes[c].parent.take() {
            self.nodes[p].kids.retain(|x| *x != c);
        }
    }
    pub fn attach(&mut self, p: Id, c: Id, at: usize) {
        self.nodes[p].kids.insert(at, c);
        self.nodes[c].parent = Some(p);
    }
    fn own(&mut self, e: Id, a: Id) {
        let gone: Vec<Id> = self
            .n(e)
            .attrs
            .iter()
            .copied()
            .filter(|x| *x != a && self.n(*x).name.same(&self.n(a).name))
            .collect();
        for g in gone {
            self.disown(g);
        }
        if !self.n(e).attrs.contains(&a) {
            self.nodes[e].attrs.push(a);
            self.nodes[e].attrs.sort();
        }
        self.nodes[a].owner = Some(e);
    }
    pub fn disown(&mut self, a: Id) {
        if let Some(e) = self.nodes[a].owner.take() {
            self.nodes[e].attrs.retain(|x| *x != a);
        }
    }

    /// Every reason why `c` cannot become a child of `p` (`out`: a node about to leave `p`).
    fn child_errors(&self, p: Id, c: Id, out: Option<Id>) -> Vec<E> {
        let mut errs = vec![];
        if !allowed(self.n(p).k, self.n(c).k) || self.holds(c, p) {
            errs.push(E::HierarchyRequest);
        }
        if self.n(p).k == K::Document
            && self.n(c).k == K::Element
            && self
                .n(p)
                .kids
                .iter()
                .any(|x| *x != c && Some(*x) != out && self.n(*x).k == K::Element)
        {
            errs.push(E::HierarchyRequest);
        }
        let cd = self.doc_of(c);
        if cd.is_some() && cd != self.doc_of(p) && self.n(c).k != K::Document {
            errs.push(E::WrongDocument);
        }
        errs
    }

    fn insert(&mut self, p: Id, c: Id, r: Option<Id>) -> Out {
        let mut errs = self.child_errors(p, c, None);
        if let Some(r) = r {
            if !self.n(p).kids.contains(&r) {
                errs.push(E::NotFound);
            }
        }
        if !errs.is_empty() {
            return Out::Err(errs);
        }
        if r != Some(c) {
            self.detach(c);
            let at = match r {
                None => self.n(p).kids.len(),
                Some(r) => self.n(p).kids.iter().position(|x| *x == r).unwrap(),
            };
            self.attach(p, c, at);
        }
        Out::Ok(Ret::Node(c), vec![])
    }

    fn id_taken(&self, e: Id, name: &Q, value: &str) -> bool {
        match self.n(e).doc {
            Some(d) => {
                name.is_id(self.lax(d)) && self.with_id(d, value).into_iter().any(|x| x != e)
            }
            None => false,
        }
    }

    fn set_attr(&mut self, e: Id, name: Result<Q, Vec<E>>, v: S) -> Out {
        if self.n(e).k != K::Element {
            return Out::Err(vec![E::InvalidState]);
        }
        let name = match name {
            Ok(n) => n,
            Err(e) => return Out::Err(e),
        };
        let id = normalize_value(v).map(|v| escape(&v));
        match id {
            None if self.n(e).doc.is_some_and(|d| name.is_id(self.lax(d))) => {
                return Out::Unclaimed
            }
            Some(id) if self.id_taken(e, &name, &id) => return Out::Err(vec![E::Syntax]),
            _ => (),
        }
        let doc = self.n(e).doc;
        let mut a = MNode::new(K::Attribute, name, doc);
        a.implicit = true;
        let a = self.add(a);
        let t = self.value_text(a, v);
        self.own(e, a);
        Out::Ok(Ret::Unit, vec![(a, Loc::Attr(e, name)), (t, Loc::Kid(a, 0))])
    }
    fn value_text(&mut self, a: Id, v: S) -> Id {
        let mut t = MNode::new(K::Text, Q::local("#text"), self.n(a).doc);
        t.implicit = true;
        t.val = Some(v);
        let t = self.add(t);
        self.attach(a, t, 0);
        t
    }

    fn range(&self, n: Id, o: usize, c: usize) -> Result<(usize, usize), E> {
        let d = self.n(n).val.unwrap_or("");
        let end = o.saturating_add(c).min(d.len());
        if o > d.len() || !d.is_char_boundary(o) || !d.is_char_boundary(end) {
            Err(E::IndexSize)
        } else {
            Ok((o, end))
        }
    }
    pub fn substring(&self, n: Id, o: usize, c: usize) -> Result<String, E> {
        self.range(n, o, c)
            .map(|(a, b)| self.n(n).val.unwrap_or("")[a..b].to_string())
    }
    fn splice(&mut self, n: Id, o: usize, c: usize, s: &str) -> Out {
        match self.range(n, o, c) {
            Err(_) if c == 0 && s.is_empty() => Out::Any,
            Err(e) => Out::Err(vec![e]),
            Ok((a, b)) => {
                let mut d = self.n(n).val.unwrap_or("").to_string();
                d.replace_range(a..b, s);
                // an empty request on a node without data may, but need not, give it data
                if c == 0 && s.is_empty() && self.n(n).val.is_none() {
                    return Out::Unclaimed;
                }
                self.nodes[n].val = Some(intern(&d));
                Out::Ok(Ret::Unit, vec![])
            }
        }
    }

    fn clone_into(&mut self, n: Id, deep: bool, loc: Loc, made: &mut Vec<(Id, Loc)>) -> Id {
        let src = self.n(n).clone();
        let mut c = src.clone();
        c.implicit = false;
        c.parent = None;
        c.owner = None;
        c.kids.clear();
        c.attrs.clear();
        self.nodes.push(c);
        let c = self.nodes.len() - 1;
        made.push((c, loc));
        if deep {
            for (i, k) in src.kids.iter().enumerate() {
                let kc = self.clone_into(*k, true, Loc::Kid(c, i), made);
                self.attach(c, kc, i);
            }
        }
        for a in &src.attrs {
            let ac = self.clone_into(*a, true, Loc::Attr(c, self.n(*a).name), made);
            self.nodes[c].attrs.push(ac);
            self.nodes[ac].owner = Some(c);
        }
        self.nodes[c].attrs.sort();
        c
    }

    fn normalize(&mut self, n: Id) {
        for a in self.n(n).attrs.clone() {
            self.normalize(a);
        }
        let kids = self.n(n).kids.clone();
        let mut run: Option<Id> = None;
        for k in kids {
            if self.n(k).k != K::Text {
                run = None;
                self.normalize(k);
            } else if self.n(k).val.unwrap_or("").is_empty() {
                self.detach(k);
            } else if let Some(first) = run {
                let joined = format!("{}{}", self.n(first).val.unwrap(), self.n(k).val.unwrap());
                self.nodes[first].val = Some(intern(&joined));
                self.detach(k);
            } else {
                run = Some(k);
            }
        }
    }

    pub fn apply(&mut self, op: Op) -> Out {
        match op {
            Op::Append(p, c) => self.insert(p, c, None),
            Op::Insert(p, c, r) => self.insert(p, c, r),
            Op::Replace(p, n, o) => {
                let mut errs = self.child_errors(p, n, Some(o));
                if !self.n(p).kids.contains(&o) {
                    errs.push(E::NotFound);
                }
                if !errs.is_empty() {
                    return Out::Err(errs);
                }
                if n != o {
                    self.detach(n);
                    let at = self.n(p).kids.iter().position(|x| *x == o).unwrap();
                    self.detach(o);
                    self.attach(p, n, at);
                }
                Out::Ok(Ret::Node(o), vec![])
            }
            Op::Remove(p, c) => {
                if !self.n(p).kids.contains(&c) {
                    return Out::Err(vec![E::NotFound]);
                }
                self.detach(c);
                Out::Ok(Ret::Node(c), vec![])
            }
            Op::SetAttr(e, qn, v) => self.set_attr(e, parse_name(None, qn), v),
            Op::SetAttrNs(e, ns, qn, v) => self.set_attr(e, parse_name(Some(ns), qn), v),
            Op::RemAttr(e, qn) => {
                if self.n(e).k != K::Element {
                    return Out::Any;
                }
                if let Some(a) = self.attr_named(e, qn) {
                    self.disown(a);
                }
                Out::Ok(Ret::Unit, vec![])
            }
            Op::RemAttrNs(e, ns, l) => {
                if self.n(e).k != K::Element {
                    return Out::Any;
                }
                if let Some(a) = self.attr_ns(e, ns, l) {
                    self.disown(a);
                }
                Out::Ok(Ret::Unit, vec![])
            }
            Op::SetAttrNode(e, a) | Op::SetAttrNodeNs(e, a) => {
                if self.n(e).k != K::Element || self.n(a).k != K::Attribute {
                    return Out::Err(vec![E::InvalidState]);
                }
                let mut errs = vec![];
                if self.n(e).doc != self.n(a).doc {
                    errs.push(E::WrongDocument);
                }
                if self.n(a).owner.is_some_and(|o| o != e) {
                    errs.push(E::InUseAttribute);
                }
                if self.holds(a, e) {
                    errs.push(E::HierarchyRequest);
                }
                match self.value(a) {
                    None if self
                        .n(e)
                        .doc
                        .is_some_and(|d| self.n(a).name.is_id(self.lax(d))) =>
                    {
                        return Out::Unclaimed
                    }
                    Some(Some(v)) if self.id_taken(e, &self.n(a).name, &v) => errs.push(E::Syntax),
                    _ => (),
                }
                if !errs.is_empty() {
                    return Out::Err(errs);
                }
                self.own(e, a);
                Out::Ok(Ret::Node(a), vec![])
            }
            Op::RemAttrNode(e, a) => {
                if self.n(e).k != K::Element {
                    return Out::Err(vec![E::InvalidState]);
                }
                if !self.n(e).attrs.contains(&a) {
                    return Out::Err(vec![E::NotFound]);
                }
                self.disown(a);
                Out::Ok(Ret::Node(a), vec![])
            }
            Op::SetVal(a, v) => {
                if self.n(a).k != K::Attribute {
                    return Out::Err(vec![E::InvalidState]);
                }
                if let Some(e) = self.n(a).owner {
                    match normalize_value(v) {
                        None if self
                            .n(a)
                            .doc
                            .is_some_and(|d| self.n(a).name.is_id(self.lax(d))) =>
                        {
                            return Out::Unclaimed
                        }
                        Some(id) if self.id_taken(e, &self.n(a).name, &escape(&id)) => {
                            return Out::Err(vec![E::Syntax])
                        }
                        _ => (),
                    }
                }
                for k in self.n(a).kids.clone() {
                    self.detach(k);
                }
                let t = self.value_text(a, v);
                Out::Ok(Ret::Unit, vec![(t, Loc::Kid(a, 0))])
            }
            Op::UnsetVal(a) => {
                if self.n(a).k != K::Attribute {
                    return Out::Err(vec![E::InvalidState]);
                }
                for k in self.n(a).kids.clone() {
                    self.detach(k);
                }
                Out::Ok(Ret::Unit, vec![])
            }
            Op::SetData(n, _) | Op::UnsetData(n) if !has_value(self.n(n).k) => Out::Any,
            Op::SetNV(n, v) | Op::SetData(n, v) => {
                if has_value(self.n(n).k) {
                    self.nodes[n].val = Some(v);
                }
                Out::Ok(Ret::Unit, vec![])
            }
            Op::UnsetNV(n) | Op::UnsetData(n) => {
                if has_value(self.n(n).k) {
                    self.nodes[n].val = None;
                }
                Out::Ok(Ret::Unit, vec![])
            }
            Op::AppendData(n, s) => {
                if !is_chardata(self.n(n).k) {
                    return Out::Err(vec![E::InvalidState]);
                }
                if s.is_empty() && self.n(n).val.is_none() {
                    return Out::Unclaimed;
                }
                let d = format!("{}{}", self.n(n).val.unwrap_or(""), s);
                self.nodes[n].val = Some(intern(&d));
                Out::Ok(Ret::Unit, vec![])
            }
            Op::InsertData(n, o, s) => {
                if !is_chardata(self.n(n).k) {
                    return Out::Any;
                }
                self.splice(n, o, 0, s)
            }
            Op::DeleteData(n, o, c) => {
                if !is_chardata(self.n(n).k) {
                    return Out::Any;
                }
                self.splice(n, o, c, "")
            }
            Op::ReplaceData(n, o, c, s) => {
                if !is_chardata(self.n(n).k) {
                    return Out::Err(vec![E::InvalidState]);
                }
                self.splice(n, o, c, s)
            }
            Op::Split(n, o) => {
                if !matches!(self.n(n).k, K::Text | K::CData) {
                    return Out::Err(vec![E::Syntax]);
                }
                let d = self.n(n).val.unwrap_or("");
                if o < d.len() && !d.is_char_boundary(o) {
                    return Out::Err(vec![E::IndexSize]);
                }
                let o = o.min(d.len());
                let (left, right) = (intern(&d[..o]), intern(&d[o..]));
                if self.n(n).val.is_some() {
                    self.nodes[n].val = Some(left);
                }
                let mut t = MNode::new(self.n(n).k, self.n(n).name, self.n(n).doc);
                t.val = Some(right);
                self.nodes.push(t);
                let t = self.nodes.len() - 1;
                if let Some(p) = self.n(n).parent {
                    let at = self.n(p).kids.iter().position(|x| *x == n).unwrap();
                    self.attach(p, t, at + 1);
                }
                Out::Ok(Ret::Node(t), vec![(t, Loc::Ret)])
            }
            Op::Normalize(n) => {
                self.normalize(n);
                Out::Ok(Ret::Unit, vec![])
            }
            Op::Clone(n, deep) => {
                let mut made = vec![];
                let c = self.clone_into(n, deep, Loc::Ret, &mut made);
                Out::Ok(Ret::Node(c), made)
            }
            Op::Drop(n) => {
                for k in self.n(n).kids.clone() {
                    self.nodes[k].parent = None;
                }
                for a in self.n(n).attrs.clone() {
                    self.nodes[a].owner = None;
                }
                self.nodes[n] = MNode::dead();
                self.nodes[n].dropped = true;
                Out::Ok(Ret::Unit, vec![])
            }
        }
    }

    /// Nodes nothing refers to any more (made implicitly, and now detached).
    pub fn garbage(&self) -> Vec<Id> {
        let mut gone: Vec<Id> = vec![];
        for i in self.live() {
            let n = self.n(i);
            if n.implicit && n.parent.is_none() && n.owner.is_none() {
                gone.push(i);
            }
        }
        let mut at = 0;
        while at < gone.len() {
            for k in &self.n(gone[at]).kids {
                if self.n(*k).implicit {
                    gone.push(*k);
                }
            }
            at += 1;
        }
        gone
    }
    pub fn forget(&mut self, gone: &[Id]) {
        for g in gone {
            for k in self.n(*g).kids.clone() {
                self.nodes[k].parent = None;
            }
        }
        for g in gone {
            self.nodes[*g] = MNode::dead();
        }
        while self.nodes.last().is_some_and(|n| !n.live && !n.dropped) {
            self.nodes.pop();
        }
    }
}
