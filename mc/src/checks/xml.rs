//! A strict reader of XML text, independent of the library: what a text means, that it is not
//! well-formed, or that it is outside the claims. And what a tree of the library's says.

use crate::model::*;
use crate::real::*;
use xml_dom::level2::ext::*;
use xml_dom::level2::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum N {
    /// name, attributes by name, children
    El(String, Vec<(String, String)>, Vec<N>),
    Text(String),
    CData(String),
    Comment(String),
    PI(String, Option<String>),
    /// Anything else the library may have put in
    Other(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct D {
    /// version, encoding, standalone
    pub decl: Option<(String, Option<String>, Option<bool>)>,
    pub kids: Vec<N>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stop {
    Bad,
    Unclaimed,
}
type P<T> = std::result::Result<T, Stop>;

fn ws(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | b'\n')
}
fn trim(s: &str) -> &str {
    s.trim_matches([' ', '\t', '\n'])
}

struct Rd<'a> {
    s: &'a str,
    i: usize,
}
impl<'a> Rd<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn at(&self, t: &str) -> bool {
        self.rest().starts_with(t)
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.at(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, t: &str) -> P<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(Stop::Bad)
        }
    }
    fn spaces(&mut self) -> bool {
        let b = self.s.as_bytes();
        let from = self.i;
        while self.i < b.len() && ws(b[self.i]) {
            self.i += 1;
        }
        self.i > from
    }
    fn until(&mut self, t: &str) -> P<&'a str> {
        let n = self.rest().find(t).ok_or(Stop::Bad)?;
        let r = &self.rest()[..n];
        self.i += n + t.len();
        Ok(r)
    }
    fn name(&mut self) -> P<String> {
        let r = self.rest();
        let mut end = 0;
        for (at, c) in r.char_indices() {
            if !(if at == 0 { name_start(c) } else { name_char(c) }) {
                break;
            }
            end = at + c.len_utf8();
        }
        if end == 0 {
            return Err(Stop::Bad);
        }
        let n = &r[..end];
        self.i += end;
        // namespaces limit names further, the library refuses what they forbid
        if n.contains(':') && !(n.split(':').count() == 2 && n.split(':').all(is_ncname)) {
            return Err(Stop::Unclaimed);
        }
        Ok(n.to_string())
    }
    fn quoted(&mut self) -> P<&'a str> {
        if self.eat("\"") {
            self.until("\"")
        } else if self.eat("'") {
            self.until("'")
        } else {
            Err(Stop::Bad)
        }
    }
    fn equals(&mut self) -> P<()> {
        self.spaces();
        self.need("=")?;
        self.spaces();
        Ok(())
    }
}

fn code(n: Option<u32>) -> P<char> {
    match n {
        Some(n) => match char::from_u32(n) {
            None => Err(Stop::Bad),
            Some('\0') => Err(Stop::Bad),
            Some(c) if c < ' ' && !matches!(c, '\t' | '\n' | '\r') => Err(Stop::Unclaimed),
            Some('\u{fffe}') | Some('\u{ffff}') => Err(Stop::Unclaimed),
            Some(c) => Ok(c),
        },
        None => Err(Stop::Bad),
    }
}

/// Replace references; `Bad` for anything with an ampersand that is none.
pub fn decode(s: &str, attribute: bool) -> P<String> {
    let mut o = String::with_capacity(s.len());
    let mut r = s;
    while let Some(c) = r.chars().next() {
        if c != '&' {
            o.push(if attribute && matches!(c, '\t' | '\n') { ' ' } else { c });
            r = &r[c.len_utf8()..];
            continue;
        }
        let end = r.find(';').ok_or(Stop::Bad)?;
        let body = &r[1..end];
        let zeros = |d: &str| d.len() > 8;
        o.push(match body {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "apos" => '\'',
            "quot" => '"',
            _ => {
                if let Some(h) = body.strip_prefix("#x") {
                    if h.is_empty() || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
                        return Err(Stop::Bad);
                    }
                    if zeros(h) && h.starts_with('0') {
                        return Err(Stop::Unclaimed);
                    }
                    code(u32::from_str_radix(h, 16).ok())?
                } else if let Some(d) = body.strip_prefix('#') {
                    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
                        return Err(Stop::Bad);
                    }
                    if zeros(d) && d.starts_with('0') {
                        return Err(Stop::Unclaimed);
                    }
                    code(d.parse().ok())?
                } else {
                    return Err(Stop::Bad);
                }
            }
        });
        r = &r[end + 1..];
    }
    Ok(o)
}

fn comment(r: &mut Rd<'_>) -> P<N> {
    let t = r.rest();
    let end = t.find("--").ok_or(Stop::Bad)?;
    if t.starts_with('>') || t.starts_with("->") || !t[end..].starts_with("-->") {
        return Err(Stop::Unclaimed);
    }
    r.i += end + 3;
    let body = &t[..end];
    // references are none in a comment, but the library writes and reads them there
    match decode(body, false) {
        Ok(v) => Ok(N::Comment(v)),
        Err(Stop::Bad) => Ok(N::Comment(body.to_string())),
        Err(e) => Err(e),
    }
}

fn instruction(r: &mut Rd<'_>) -> P<N> {
    let body = r.until("?>")?;
    let mut b = Rd { s: body, i: 0 };
    let target = b.name()?;
    if target.eq_ignore_ascii_case("xml") {
        return Err(Stop::Bad);
    }
    if !b.spaces() && !b.rest().is_empty() {
        return Err(Stop::Bad);
    }
    let data = trim(b.rest());
    Ok(N::PI(target, if data.is_empty() { None } else { Some(data.to_string()) }))
}

fn declaration(r: &mut Rd<'_>) -> P<(String, Option<String>, Option<bool>)> {
    if !r.spaces() {
        return Err(Stop::Bad);
    }
    r.need("version")?;
    r.equals()?;
    let version = r.quoted()?.to_string();
    if version != "1.0" && version != "1.1" {
        let later = version.strip_prefix("1.").is_some_and(|m| !m.is_empty() && m.bytes().all(|b| b.is_ascii_digit()));
        return Err(if later { Stop::Unclaimed } else { Stop::Bad });
    }
    let (mut encoding, mut standalone) = (None, None);
    let mut gap = r.spaces();
    if r.at("encoding") {
        if !gap {
            return Err(Stop::Bad);
        }
        r.need("encoding")?;
        r.equals()?;
        let e = r.quoted()?;
        let b = e.as_bytes();
        if b.is_empty()
            || !b[0].is_ascii_alphabetic()
            || !b.iter().all(|c| c.is_ascii_alphanumeric() || matches!(c, b'.' | b'_' | b'-'))
        {
            return Err(Stop::Bad);
        }
        encoding = Some(e.to_string());
        gap = r.spaces();
    }
    if r.at("standalone") {
        if !gap {
            return Err(Stop::Bad);
        }
        r.need("standalone")?;
        r.equals()?;
        standalone = Some(match r.quoted()? {
            "yes" => true,
            "no" => false,
            _ => return Err(Stop::Bad),
        });
        r.spaces();
    }
    r.need("?>")?;
    Ok((version, encoding, standalone))
}

/// What the text means.
pub fn read(s: &str) -> P<D> {
    let odd = |c: char| {
        c == '\u{feff}' || c == '\u{fffe}' || c == '\u{ffff}' || (c < ' ' && !matches!(c, '\t' | '\n'))
            || ('\u{7f}'..='\u{9f}').contains(&c)
    };
    if s.chars().any(odd) {
        return Err(Stop::Unclaimed);
    }
    let mut d = D::default();
    let mut r = Rd { s, i: 0 };
    let is_decl = |t: &str| t.starts_with("<?xml") && t[5..].starts_with([' ', '\t', '\n', '?']);
    if is_decl(s) {
        r.i = 5;
        d.decl = Some(declaration(&mut r)?);
    } else if is_decl(trim(s)) {
        return Err(Stop::Unclaimed);
    }
    let mut ids: Vec<String> = vec![];
    let mut open: Vec<(String, Vec<(String, String)>, Vec<N>)> = vec![];
    let mut root = false;
    loop {
        // text up to the next markup
        let t = r.rest();
        let end = t.find('<').unwrap_or(t.len());
        let text = &t[..end];
        r.i += end;
        if text.contains("]]>") {
            return Err(Stop::Unclaimed);
        }
        let text = trim(text);
        if !text.is_empty() {
            match open.last_mut() {
                None => return Err(Stop::Bad),
                Some(e) => e.2.push(N::Text(decode(text, false)?)),
            }
        }
        if r.rest().is_empty() {
            return if open.is_empty() && root { Ok(d) } else { Err(Stop::Bad) };
        }
        let node = if r.eat("<!--") {
            comment(&mut r)?
        } else if r.eat("<![CDATA[") {
            let v = r.until("]]>")?;
            if open.is_empty() {
                return Err(Stop::Bad);
            }
            N::CData(v.to_string())
        } else if r.at("<!D") && !root {
            // a document type before the element is legal, but not supported
            return Err(Stop::Unclaimed);
        } else if r.at("<!") {
            return Err(Stop::Bad);
        } else if r.eat("<?") {
            instruction(&mut r)?
        } else if r.eat("</") {
            let name = r.name()?;
            r.spaces();
            r.need(">")?;
            match open.pop() {
                Some(e) if e.0 == name => N::El(e.0, e.1, e.2),
                _ => return Err(Stop::Bad),
            }
        } else {
            r.need("<")?;
            if open.is_empty() && root {
                return Err(Stop::Bad);
            }
            root = true;
            let name = r.name()?;
            let mut attrs: Vec<(String, String)> = vec![];
            let empty = loop {
                let gap = r.spaces();
                if r.eat("/>") {
                    break true;
                }
                if r.eat(">") {
                    break false;
                }
                if !gap {
                    return Err(Stop::Bad);
                }
                let a = r.name()?;
                r.equals()?;
                let v = r.quoted()?;
                if v.contains('<') || attrs.iter().any(|x| x.0 == a) {
                    return Err(Stop::Bad);
                }
                let v = decode(v, true)?;
                if a == "xml:id" {
                    if ids.contains(&v) {
                        return Err(Stop::Unclaimed);
                    }
                    ids.push(v.clone());
                }
                attrs.push((a, v));
            };
            attrs.sort();
            open.push((name, attrs, vec![]));
            if !empty {
                continue;
            }
            let e = open.pop().unwrap();
            N::El(e.0, e.1, e.2)
        };
        match open.last_mut() {
            Some(e) => e.2.push(node),
            None => d.kids.push(node),
        }
    }
}

// ------------------------------------------------------------------------------------------------

/// What a node of the library's says (attribute values unescaped).
pub fn says(n: &RefNode) -> N {
    match kind(n) {
        K::Element => {
            let mut attrs: Vec<(String, String)> = n
                .attributes()
                .into_iter()
                .map(|(q, a)| (q.to_string(), plain(&a.value().unwrap_or_default())))
                .collect();
            attrs.sort();
            N::El(n.tag_name(), attrs, n.child_nodes().iter().map(says).collect())
        }
        K::Text => N::Text(n.node_value().unwrap_or_else(|| "(none)".into())),
        K::CData => N::CData(n.node_value().unwrap_or_else(|| "(none)".into())),
        K::Comment => N::Comment(n.node_value().unwrap_or_else(|| "(none)".into())),
        K::PI => N::PI(n.target(), n.node_value()),
        k => N::Other(format!("{:?} {}", k, n.node_name())),
    }
}
/// The value behind the library's escaped one.
fn plain(v: &str) -> String {
    decode(v, false).unwrap_or_else(|_| format!("(odd) {}", v))
}

pub fn document_says(n: &RefNode) -> std::result::Result<D, String> {
    if kind(n) != K::Document {
        return Err(format!("the result is a {:?}", kind(n)));
    }
    Ok(D {
        decl: n
            .xml_declaration()
            .map(|d| (d.version().to_string(), d.encoding().clone(), d.standalone())),
        kids: n.child_nodes().iter().map(says).collect(),
    })
}
