//! P15 and P16: what is written out.

use super::shapes::*;
use super::strings::*;
use super::worlds::*;
use crate::ctx::*;
use crate::explore::*;
use crate::model::*;
use crate::real::*;
use xml_dom::level2::ext::*;
use xml_dom::level2::*;

type R = std::result::Result<(), String>;

// ------------------------------------------------------------------------------------------------
// P15

/// Consume the markup of a node from the front of a text.
fn eat(m: &Model, i: Id, decl: Option<&str>, t: &mut &str) -> R {
    fn take(t: &mut &str, want: &str) -> R {
        match t.strip_prefix(want) {
            Some(rest) => {
                *t = rest;
                Ok(())
            }
            None => Err(format!(
                "expected {:?} before {:?}",
                want,
                t.chars().take(60).collect::<String>()
            )),
        }
    }
    fn ids(t: &mut &str, p: Option<S>, s: Option<S>) -> R {
        match (p, s) {
            (Some(p), Some(s)) => take(t, &format!(" PUBLIC \"{}\" \"{}\"", p, s)),
            (Some(p), None) => take(t, &format!(" PUBLIC \"{}\"", p)),
            (None, Some(s)) => take(t, &format!(" SYSTEM \"{}\"", s)),
            (None, None) => Ok(()),
        }
    }
    let n = m.n(i);
    let kids = |t: &mut &str| -> R {
        for k in &n.kids {
            eat(m, *k, None, t)?;
        }
        Ok(())
    };
    match n.k {
        K::Element => {
            take(t, &format!("<{}", n.name))?;
            let mut left: Vec<String> = vec![];
            for a in &n.attrs {
                left.push(format!(" {}", attribute_text(m, *a).ok_or("outside the claims")?));
            }
            while !left.is_empty() {
                match left.iter().position(|a| t.starts_with(a.as_str())) {
                    Some(at) => take(t, &left.swap_remove(at))?,
                    None => {
                        return Err(format!(
                            "expected one of the attributes {:?} before {:?}",
                            left,
                            t.chars().take(60).collect::<String>()
                        ))
                    }
                }
            }
            take(t, ">")?;
            kids(t)?;
            take(t, &format!("</{}>", n.name))
        }
        K::Attribute => take(t, &attribute_text(m, i).ok_or("outside the claims")?),
        K::Text => take(t, &escape(n.val.unwrap_or(""))),
        K::CData => n.val.map_or(Ok(()), |v| take(t, &format!("<![CDATA[ {} ]]>", v))),
        K::Comment => n.val.map_or(Ok(()), |v| take(t, &format!("<!--{}-->", escape(v)))),
        K::PI => match n.val {
            None => take(t, &format!("<?{}?>", n.name)),
            Some(v) => take(t, &format!("<?{} {}?>", n.name, v)),
        },
        K::EntityRef => take(t, &format!("&{};", n.name)),
        K::Entity => {
            take(t, &format!("<!ENTITY {}", n.name))?;
            if n.public.is_none() && n.system.is_none() {
                take(t, &format!(" \"{}\"", n.val.unwrap_or("")))?;
            }
            ids(t, n.public, n.system)?;
            take(t, ">")
        }
        K::Notation => {
            take(t, &format!("<!NOTATION {}", n.name))?;
            ids(t, n.public, n.system)?;
            take(t, ">")
        }
        K::DocType => {
            take(t, &format!("<!DOCTYPE {}", n.name))?;
            if let Some(p) = n.public {
                take(t, &format!(" PUBLIC \"{}\"", p))?;
            }
            if let Some(s) = n.system {
                take(t, &format!(" SYSTEM \"{}\"", s))?;
            }
            take(t, ">")
        }
        K::Fragment => {
            take(t, "<![CDATA[#document-fragment ")?;
            kids(t)?;
            take(t, "]]>")
        }
        K::Document => {
            take(t, decl.unwrap_or(worn().0))?;
            match n.doctype {
                Some(d) => eat(m, d, None, t)?,
                None if dressed() => take(t, worn().1)?,
                None => (),
            }
            kids(t)
        }
    }
}

/// `None` outside the claims.
fn attribute_text(m: &Model, a: Id) -> Option<String> {
    let mut v = String::new();
    if let Some(raw) = m.raw_value(a) {
        for c in escape(&normalize_value(&raw)?).chars() {
            match c {
                '\t' | '\n' | '\r' | '\u{85}' | '\u{2028}' => v.push_str(&format!("&#{};", c as u32)),
                c => v.push(c),
            }
        }
    }
    Some(format!("{}=\"{}\"", m.n(a).name, v))
}

pub fn written(m: &Model, r: &Real, i: Id, decl: Option<&str>) -> R {
    let text = r.g(i).to_string();
    let mut rest = text.as_str();
    let e = match eat(m, i, decl, &mut rest) {
        Ok(()) if rest.is_empty() => {
            if r.g(i).to_string().len() != text.len() {
                return Err(format!("#{} is written differently the second time", i));
            }
            return Ok(());
        }
        Ok(()) => format!("unexpected {:?} at the end", rest),
        Err(e) => e,
    };
    Err(format!("#{} is written as {:?}: {}", i, text, e))
}

/// A sink that takes so many bytes and then fails, for ever or `once`.
struct Sink {
    left: usize,
    once: bool,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        match self.left.checked_sub(s.len()) {
            Some(left) => {
                self.left = left;
                Ok(())
            }
            None => {
                self.left = if self.once { usize::MAX } else { 0 };
                Err(std::fmt::Error)
            }
        }
    }
}

/// Writing reports the failure of its sink, wherever it fails.
fn failing(r: &Real, i: Id) -> R {
    use std::fmt::Write;
    let n = r.g(i);
    let len = n.to_string().len();
    for left in 0..=len {
        for once in [false, true] {
            let got = write!(Sink { left, once }, "{}", n);
            if got.is_ok() != (left == len) {
                return Err(format!(
                    "writing the {} bytes of #{} to a sink that fails after {}{} gives {:?}",
                    len,
                    i,
                    left,
                    if once { ", once," } else { "" },
                    got
                ));
            }
        }
    }
    Ok(())
}

fn all_failing(m: &Model, r: &Real) -> R {
    for i in m.live() {
        failing(r, i)?;
    }
    Ok(())
}

fn all_written(m: &Model, r: &Real) -> R {
    for i in m.live() {
        if turn() {
            written(m, r, i, None)?;
        }
    }
    Ok(())
}

const LABELS: [&str; 13] = [
    "element", "element with attributes", "namespaced element", "entity reference", "text", "text with markup",
    "cdata", "comment", "instruction", "instruction without data", "element with odd values", "text without data", "blank text",
];
fn label(l: u8, i: usize) -> Spec {
    match l {
        0 => Spec::El(0, "a"),
        1 => Spec::El(0, "b"),
        2 => Spec::ElNs(0, "urn:u", "p:c"),
        3 => Spec::ERef(0, "r"),
        4 => Spec::Text(0, ["t", "u", "v"][i % 3]),
        5 => Spec::Text(0, "<a>&\"'é"),
        6 => Spec::CData(0, "<d>&"),
        7 => Spec::Comment(0, "c<m>&"),
        8 => Spec::PI(0, "p", Some("q=\"<&>\"")),
        9 => Spec::PI(0, "p", None),
        10 => Spec::El(0, "o"),
        12 => Spec::Text(0, [" ", "\n\t", "\u{a0}"][i % 3]),
        _ => Spec::Text(0, ""),
    }
}

pub fn p15(ctx: &Ctx) {
    // every tree
    let sizes: &[(usize, &[u8])] = ctx.pick(
        &[
            (0, &[0]),
            (1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]),
            (2, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]),
            (3, &[0, 1, 2, 3, 4, 6, 7, 8]),
            (4, &[0, 1, 4, 7]),
        ],
        &[
            (0, &[0]),
            (1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]),
            (2, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]),
            (3, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]),
            (4, &[0, 1, 3, 4, 6, 7, 8]),
            (5, &[0, 1, 4, 7]),
            (6, &[0, 4]),
        ],
    );
    for (n, labels) in sizes {
        let holds: Vec<bool> = labels.iter().map(|l| matches!(l, 0..=3 | 10)).collect();
        let all = forests(*n, &holds);
        ctx.note(format!(
            "{} forests of {} nodes below each of element, fragment, entity reference and entity, over {:?}; those of up to 2 also into sinks that fail after every number of bytes",
            all.len(),
            n,
            labels.iter().map(|l| LABELS[*l as usize]).collect::<Vec<_>>()
        ));
        ctx.par(all.len() as u64, |th, i| {
            let f = &all[i as usize];
            for root in 0..4 {
                case(th, format_args!("tree n={} labels={:?} root={} [{}]", n, labels, root, show(f)), |th| {
                    let mut spec = vec![
                        Spec::Doc(0, None),
                        match root {
                            0 => Spec::El(0, "root"),
                            1 => Spec::Frag(0),
                            2 => Spec::ERef(0, "root"),
                            _ => Spec::IntEntity(0, "root", "v"),
                        },
                    ];
                    let mut ops = vec![];
                    let mut len = 2;
                    let ids = place(f, 1, &mut spec, &mut len, &mut ops, &|l, i| label(labels[l as usize], i));
                    for (id, (_, l)) in ids.iter().zip(f) {
                        match labels[*l as usize] {
                            1 => ops.extend([
                                Op::SetAttr(*id, "x", "1"),
                                Op::SetAttr(*id, "p:x", "<\"'&>"),
                                Op::SetAttrNs(*id, "urn:u", "q:x", ""),
                            ]),
                            10 => ops.push(Op::SetAttr(*id, "y", " &#9;&#10;a\u{85}&lt; ")),
                            11 => ops.push(Op::UnsetNV(*id)),
                            _ => (),
                        }
                    }
                    let mut p = Pair::new(&spec)?;
                    p.steps(&ops)?;
                    th.transitions += ops.len() as u64;
                    all_written(&p.m, &p.r)?;
                    if *n <= 2 {
                        all_failing(&p.m, &p.r)?;
                    }
                    if root == 0 {
                        p.step(Op::Append(0, 1))?;
                        written(&p.m, &p.r, 0, None)?;
                    }
                    p.compare(ALL)
                });
            }
        });
    }
    // attribute sets
    let names: [(Option<S>, S); 6] = [
        (None, "a"),
        (None, "b"),
        (None, "p:a"),
        (Some("urn:u"), "q:a"),
        (Some("urn:v"), "a"),
        (Some(XMLNS), "xmlns:p"),
    ];
    let vals: [S; 5] = ["", "v", "<&>\"'", " \t\u{85}", "&#x9;&#13;é"];
    let base = vals.len() as u64 + 1;
    ctx.par(base.pow(6), |th, i| {
        let mut x = i;
        let mut ops = vec![];
        for (ns, q) in names {
            let v = (x % base) as usize;
            x /= base;
            if v > 0 {
                ops.push(match ns {
                    None => Op::SetAttr(1, q, vals[v - 1]),
                    Some(ns) => Op::SetAttrNs(1, ns, q, vals[v - 1]),
                });
            }
        }
        case(th, format_args!("attributes {:?}", ops), |th| {
            let mut p = Pair::new(&[Spec::Doc(0, None), Spec::El(0, "e")])?;
            p.steps(&ops)?;
            th.transitions += ops.len() as u64;
            written(&p.m, &p.r, 1, None)?;
            if i % 7 == 0 {
                failing(&p.r, 1)?;
            }
            Ok(())
        });
    });
    // documents
    let versions = [XmlV::None, XmlV::V("1.0"), XmlV::V("1.1")];
    let encodings = [None, Some("UTF-8"), Some("a")];
    let alone = [None, Some(true), Some(false)];
    let ids: [Option<S>; 4] = [None, Some("P"), Some(""), Some("-//é//")];
    let tops: Vec<Vec<u8>> = (0..=ctx.pick(3u32, 4))
        .flat_map(|n| (0..3u32.pow(n)).map(move |i| (0..n).map(|k| (i / 3u32.pow(k) % 3) as u8).collect()))
        .filter(|v: &Vec<u8>| v.iter().filter(|x| **x == 0).count() <= 1)
        .collect();
    let all = (tops.len() * 27 * 17) as u64;
    ctx.note(format!(
        "{} documents: {} contents of element, comment, instruction x declaration parts x document type identifiers",
        all,
        tops.len()
    ));
    ctx.par(all, |th, i| {
        let (v, e, s) = (i % 3, i / 3 % 3, i / 9 % 3);
        let dt = (i / 27 % 17) as usize;
        let top = &tops[(i / 27 / 17) as usize];
        case(th, format_args!("document decl={}{}{} doctype={} content={:?}", v, e, s, dt, top), |th| {
            let mut spec = vec![];
            let doctype = if dt > 0 {
                spec.push(Spec::DocType("d:t", ids[(dt - 1) / 4], ids[(dt - 1) % 4]));
                Some(0)
            } else {
                None
            };
            let d = spec.len();
            spec.push(Spec::Doc(0, doctype));
            let mut ops = vec![];
            for t in top {
                ops.push(Op::Append(d, spec.len()));
                spec.push(match t {
                    0 => Spec::El(d, "e"),
                    1 => Spec::Comment(d, "c"),
                    _ => Spec::PI(d, "p", Some("q")),
                });
            }
            let mut p = Pair::new(&spec)?;
            let (decl, text) = make_decl(&versions[v as usize], encodings[e as usize], alone[s as usize]);
            if let Some(decl) = decl {
                p.r.m(d).set_xml_declaration(decl).map_err(|e| format!("{:?}", e))?;
            }
            p.steps(&ops)?;
            th.transitions += ops.len() as u64;
            written(&p.m, &p.r, d, text.as_deref())?;
            if let Some(dt) = doctype {
                written(&p.m, &p.r, dt, None)?;
            }
            if top.len() < 3 {
                all_failing(&p.m, &p.r)?;
            }
            Ok(())
        });
    });
    // nodes of every type, with and without each part
    ctx.par(1, |th, _| {
        let ids: [Option<S>; 5] = [None, Some("P"), Some(""), Some("é b"), Some("SYSTEM")];
        let names = ["n", "p:n", "é", "PUBLIC"];
        for name in names {
            let mut specs = vec![];
            for p in ids {
                for s in ids {
                    specs.push(Spec::Entity(0, name, p, s));
                    specs.push(Spec::Notation(0, name, p, s));
                    specs.push(Spec::DocType(name, p, s));
                }
                specs.push(Spec::IntEntity(0, name, p.unwrap_or("")));
                specs.push(Spec::PI(0, name, p));
            }
            specs.extend([Spec::At(0, name), Spec::ERef(0, name), Spec::El(0, name)]);
            for v in ["", "v", "<&>\"'", "é", " ", "-", "]]", "?"] {
                specs.extend([
                    Spec::AtWith(0, name, v),
                    Spec::Text(0, v),
                    Spec::Comment(0, v),
                    Spec::CData(0, v),
                    Spec::PI(0, name, Some(v)),
                ]);
            }
            for s in specs {
                case(th, format_args!("node {:?}", s), |_| {
                    let mut p = Pair::new(&[Spec::Doc(0, None), s])?;
                    all_written(&p.m, &p.r)?;
                    all_failing(&p.m, &p.r)?;
                    for i in 1..p.m.nodes.len() {
                        p.step(Op::UnsetNV(i))?;
                    }
                    all_written(&p.m, &p.r)
                });
            }
        }
    });
    // long contents, names and identifiers
    let longs = Longs {
        fills: &["x", "é", " "],
        marks: &["&", "<", "'", "\n", "😀"],
        sizes: long_sizes(ctx, 65_536),
    };
    ctx.note(format!("{} as everything that is written as it is, and as names", longs.describe()));
    ctx.par(longs.count(), |th, i| {
        let (v, n, fill, mark, shape) = longs.get(i);
        case(th, format_args!("long {:?} x {} with {:?} ({})", fill, n, mark, shape), |th| {
            let v = intern(&v);
            let name = intern(&v.replace([' ', '&', '<', '\'', '\n'], "n"));
            let spec = [
                Spec::DocType(name, Some(v), Some(v)),
                Spec::Doc(0, Some(0)),
                Spec::El(1, name),
                Spec::Text(1, v),
                Spec::Comment(1, v),
                Spec::CData(1, v),
                Spec::PI(1, name, Some(v)),
                Spec::ERef(1, name),
                Spec::ElNs(1, v, intern(&format!("{name}:{name}"))),
                Spec::Entity(1, name, Some(v), Some(v)),
                Spec::Notation(1, name, Some(v), Some(v)),
                Spec::IntEntity(1, name, v),
            ];
            let mut p = Pair::new(&spec)?;
            p.steps(&[
                Op::Append(1, 2),
                Op::SetAttr(2, name, if mark == "&" { "&amp;" } else { v }),
                Op::SetAttrNs(2, v, intern(&format!("{name}:b")), ""),
            ])?;
            p.steps(&(3..=8).map(|k| Op::Append(2, k)).collect::<Vec<_>>())?;
            th.transitions += 1;
            all_written(&p.m, &p.r)
        });
    });
    // while trees change
    let view = |m: &Model, r: &Real| all_written(m, r);
    let plan = |depth: usize| Plan {
        depth,
        mask: 0,
        view: Some(&view),
        ..Plan::default()
    };
    explore(ctx, &mixed(2, 2), &plan(ctx.pick(5, usize::MAX)));
    explore(ctx, &document_level(), &plan(usize::MAX));
    explore(ctx, &containers(), &plan(ctx.pick(3, 5)));
    explore(ctx, &attribute_children(), &plan(ctx.pick(4, 7)));
    explore(ctx, &text_edits(), &plan(ctx.pick(4, 6)));
    explore(ctx, &all_types(), &plan(ctx.pick(2, 3)));
    odd_names(ctx, &plan(2), true);
    for w in [mixed(2, 1), attribute_children(), text_edits()] {
        again(ctx, &w, &plan(1), 1, ctx.pick(1, 2), 300);
    }
    explore(ctx, &two_documents_small(), &plan(ctx.pick(3, usize::MAX)));
    let turns = |depth: usize| Plan { mask: ALL, ..plan(depth) }.turns(depth);
    explore(ctx, &mixed(2, 1), &turns(ctx.pick(3, 5)));
    explore(ctx, &attribute_children(), &turns(ctx.pick(2, 4)));
    explore(ctx, &text_edits(), &turns(ctx.pick(2, 3)));
    for w in twins() {
        explore(ctx, &w, &plan(ctx.pick(3, 5)));
    }
    for n in (0..ctx.pick(20, 60)).chain(lengths(ctx).iter().copied()) {
        for w in [wide(n), chain(n)] {
            explore(ctx, &w, &plan(if n < 8 { 1 } else { 0 }));
            ctx.par(1, |th, _| {
                case(th, format_args!("shape {}", w.name), |_| all_written(&w.model(), &w.real(&[])?));
            });
        }
    }
    super::lists::long_output(ctx);
}

pub enum XmlV {
    None,
    V(&'static str),
}
pub fn make_decl(v: &XmlV, e: Option<&str>, s: Option<bool>) -> (Option<XmlDecl>, Option<String>) {
    let XmlV::V(v) = v else {
        return (None, None);
    };
    let version = if *v == "1.0" { XmlVersion::V10 } else { XmlVersion::V11 };
    let mut text = format!("<?xml version=\"{}\"", v);
    if let Some(e) = e {
        text.push_str(&format!(" encoding=\"{}\"", e));
    }
    if let Some(s) = s {
        text.push_str(&format!(" standalone=\"{}\"", if s { "yes" } else { "no" }));
    }
    text.push_str("?>");
    (Some(XmlDecl::new(version, e.map(|e| e.to_string()), s)), Some(text))
}

// ------------------------------------------------------------------------------------------------
// P16

/// What a reader of the markup sees, by the grammar of XML alone.
#[derive(Debug, PartialEq, Clone)]
pub enum Token {
    Start(String, Vec<(String, String)>),
    End(String),
    Text(String),
    Comment(String),
}

/// Decode numeric references; anything else with an ampersand is an error.
fn decode(s: &str) -> std::result::Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(at) = rest.find('&') {
        out.push_str(&rest[..at]);
        rest = &rest[at..];
        let end = rest.find(';').ok_or_else(|| format!("unfinished reference in {:?}", s))?;
        match reference(&rest[1..end]) {
            Reference::Char(c) => out.push(c),
            _ => return Err(format!("no reference to a character: {:?}", &rest[..=end])),
        }
        rest = &rest[end + 1..];
    }
    out.push_str(rest);
    Ok(out)
}

pub fn tokens(text: &str) -> std::result::Result<Vec<Token>, String> {
    let mut out = vec![];
    let mut rest = text;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("<!--") {
            let end = r.find("-->").ok_or("unfinished comment")?;
            let body = &r[..end];
            if body.contains('<') || body.contains('>') {
                return Err(format!("markup character in comment {:?}", body));
            }
            out.push(Token::Comment(decode(body)?));
            rest = &r[end + 3..];
        } else if let Some(r) = rest.strip_prefix("</") {
            let end = r.find('>').ok_or("unfinished end tag")?;
            out.push(Token::End(r[..end].to_string()));
            rest = &r[end + 1..];
        } else if let Some(r) = rest.strip_prefix('<') {
            let at = r
                .find([' ', '>'])
                .ok_or("unfinished start tag")?;
            let name = &r[..at];
            if !is_ncname(name) {
                return Err(format!("tag name {:?}", name));
            }
            let mut r = &r[at..];
            let mut attrs = vec![];
            while let Some(a) = r.strip_prefix(' ') {
                let at = a.find("=\"").ok_or("attribute without value")?;
                let name = &a[..at];
                if !is_ncname(name) {
                    return Err(format!("attribute name {:?}", name));
                }
                let v = &a[at + 2..];
                let end = v.find('"').ok_or("unfinished attribute value")?;
                if v[..end].contains(['<', '>', '\'']) {
                    return Err(format!("markup character in value {:?}", &v[..end]));
                }
                attrs.push((name.to_string(), decode(&v[..end])?));
                r = &v[end + 1..];
            }
            rest = r
                .strip_prefix('>')
                .ok_or_else(|| format!("start tag does not end before {:?}", r))?;
            attrs.sort();
            out.push(Token::Start(name.to_string(), attrs));
        } else {
            let end = rest.find('<').unwrap_or(rest.len());
            if rest[..end].contains(['>', '"', '\'']) {
                return Err(format!("markup character in text {:?}", &rest[..end]));
            }
            out.push(Token::Text(decode(&rest[..end])?));
            rest = &rest[end..];
        }
    }
    Ok(out)
}

fn contained(th: &mut Th<'_>, v: &str) -> R {
    let fail = |e: Error| format!("refused: {:?}", e);
    let mut doc = get_implementation().create_document(None, None, worn_type()).and_then(declared).map_err(fail)?;
    let mut e = doc.create_element("e").map_err(fail)?;
    // comments at every level, made with the content or given it later
    let mut around = [doc.create_comment(v), doc.create_comment("")];
    doc.append_child(around[0].clone()).map_err(fail)?;
    doc.append_child(e.clone()).map_err(fail)?;
    doc.append_child(around[1].clone()).map_err(fail)?;
    CharacterData::set_data(&mut around[1], v).map_err(fail)?;
    let text = doc.create_text_node(v);
    let comment = doc.create_comment(v);
    let mut b = doc.create_element("b").map_err(fail)?;
    let late = doc.create_text_node("");
    let value = normalize_value(v);
    // made with the content, and given it later
    for n in [comment, b.clone(), text] {
        e.append_child(n).map_err(fail)?;
    }
    b.append_child(late.clone()).map_err(fail)?;
    let mut later = late.clone();
    CharacterData::set_data(&mut later, v).map_err(fail)?;
    let mut attrs: Vec<(String, String)> = vec![];
    if let Some(value) = &value {
        e.set_attribute("k", v).map_err(fail)?;
        e.set_attribute("l", "m").map_err(fail)?;
        attrs.push(("k".into(), value.clone()));
        attrs.push(("l".into(), "m".into()));
    }
    let mut inner = doc.create_comment("");
    b.append_child(inner.clone()).map_err(fail)?;
    inner.set_node_value(v).map_err(fail)?;
    let mut want = vec![
        Token::Comment(v.into()),
        Token::Start("e".into(), attrs),
        Token::Comment(v.into()),
        Token::Start("b".into(), vec![]),
        Token::Text(v.into()),
        Token::Comment(v.into()),
        Token::End("b".into()),
        Token::Text(v.into()),
        Token::End("e".into()),
        Token::Comment(v.into()),
    ];
    want.retain(|t| *t != Token::Text(String::new()));
    let out = doc.to_string();
    let rest = out.strip_prefix(worn().0).and_then(|o| o.strip_prefix(worn().1));
    let got = tokens(rest.unwrap_or(&out)).map_err(|e| format!("written as {:?}: {}", out, e))?;
    if got != want {
        return Err(format!("written as {:?}, which reads {:?}, expected {:?}", out, got, want));
    }
    // each node by itself
    let comment: Vec<Token> = vec![Token::Comment(v.to_string())];
    for n in [&around[0], &around[1], &inner] {
        let out = n.to_string();
        same(format_args!("what {:?} reads", out), tokens(&out)?, comment.clone())?;
    }
    let out = late.to_string();
    let text: Vec<Token> = if v.is_empty() { vec![] } else { vec![Token::Text(v.to_string())] };
    same(format_args!("what {:?} reads", out), tokens(&out)?, text.clone())?;
    let out = e.to_string();
    same(format_args!("what {:?} reads", out), tokens(&out)?, want[1..want.len() - 1].to_vec())?;
    // the same below what does not write out its content, or is not part of the document
    let homes = [
        doc.create_entity_reference("r").map_err(fail)?,
        doc.create_document_fragment().map_err(fail)?,
    ];
    for mut home in homes {
        let mut e = doc.create_element("e").map_err(fail)?;
        let mut attrs = vec![];
        if let Some(value) = &value {
            e.set_attribute("k", v).map_err(fail)?;
            attrs.push(("k".to_string(), value.clone()));
        }
        let element = vec![Token::Start("e".into(), attrs), Token::End("e".into())];
        for (n, want) in [
            (doc.create_text_node(v), text.clone()),
            (doc.create_comment(v), comment.clone()),
            (e, element),
        ] {
            home.append_child(n.clone()).map_err(fail)?;
            let out = n.to_string();
            same(format_args!("what {:?} below {} reads", out, home.node_name()), tokens(&out)?, want)?;
        }
    }
    // stored as given
    let [first, last] = around;
    for n in [&e.last_child(), &Some(first), &Some(last), &Some(inner), &e.first_child(), &e.first_child(), &Some(late)] {
        same("stored value", n.as_ref().and_then(|n| n.node_value()), Some(v.to_string()))?;
    }
    if value.is_some() {
        let raw = e
            .get_attribute_node("k")
            .and_then(|a| a.first_child())
            .and_then(|t| t.node_value());
        same("text stored in the attribute", raw, Some(v.to_string()))?;
    }
    th.transitions += 8;
    Ok(())
}

fn contents(ctx: &Ctx, what: &str, alphabet: &[&str], lens: std::ops::RangeInclusive<usize>) {
    for len in lens {
        let s = Strings { alphabet, len };
        if s.count() > 1 {
            ctx.note(format!("{} {} of {} pieces from {:?}", s.count(), what, len, alphabet));
        }
        ctx.par(s.count(), |th, i| {
            let mut v = String::new();
            s.get(i, &mut v);
            // the end of a comment is outside the claims of the writer
            case(th, format_args!("content {:?}", v), |th| contained(th, &v));
        });
    }
}

pub fn p16(ctx: &Ctx) {
    let alphabet = [
        "&", "<", ">", "'", "\"", "a", ";", "#", "-", "]", "!", "/", "?", "=", " ", "\n", "é", "1",
    ];
    contents(ctx, "strings", &alphabet, 0..=ctx.pick(4, 5));
    let pieces = [
        "&amp;", "&#38;", "&lt;", "&#x3c;", "<b>", "</e>", "-->", "<!--", "]]>", "<![CDATA[", "<?", "?>", "\"", "'",
        " k=\"", "/>", "&", ";", "#38;", "lt;", "😀", "\t", "\r", "\u{85}", "\u{2028}", "&e", "x",
    ];
    contents(ctx, "sequences", &pieces, 0..=ctx.pick(3, 4));
    for outfit in 1..=OUTFITS {
        ctx.note(format!("and of these, up to two, in documents with {:?}", WORN[outfit]));
        dress(outfit, || {
            contents(ctx, "strings", &alphabet, 0..=ctx.pick(2, 3));
            contents(ctx, "sequences", &pieces, 0..=ctx.pick(2, 3));
        });
    }
    let marks = ["&", "<", "\"", "a", ";", "38"];
    contents(ctx, "strings", &marks, 5..=ctx.pick(6, 8));
    ctx.note("every Unicode scalar alone, doubled and between letters, and by reference");
    let block = 256u32;
    ctx.par((0x11_0000 / block) as u64, |th, b| {
        for n in b as u32 * block..(b as u32 + 1) * block {
            if let Some(c) = char::from_u32(n) {
                for v in [format!("{}", c), format!("a{}{}&", c, c), format!("&#{};", n), format!("<&#x{:x};", n)] {
                    case(th, format_args!("content {:?}", v), |th| contained(th, &v));
                }
            }
        }
    });
    let marks = ["&", "<a&b>", "é\""];
    let longest = ctx.pick(120u64, 600);
    ctx.par(longest * 3, |th, i| {
        let v = marks[i as usize % 3].repeat(i as usize / 3);
        case(th, format_args!("content {:?} x {}", marks[i as usize % 3], i / 3), |th| contained(th, &v));
    });
    let longs = Longs {
        fills: &["x", "é", " ", "&"],
        marks: &["&", "<", ">", "'", "\"", "&amp;", "&#60;", "\n", "😀", "]]>"],
        sizes: long_sizes(ctx, 65_536),
    };
    ctx.note(longs.describe());
    ctx.par(longs.count(), |th, i| {
        let (v, n, fill, mark, shape) = longs.get(i);
        case(th, format_args!("content {:?} x {} with {:?} ({})", fill, n, mark, shape), |th| contained(th, &v));
    });
}
