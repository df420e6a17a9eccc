//! P21, P22 and P23: reading text, and reading back what was written.

use super::shapes::*;
use super::strings::*;
use super::worlds::*;
use super::xml::*;
use crate::ctx::*;
use crate::explore::*;
use crate::model::*;
use crate::real::*;
use std::io::{BufRead, Read};
use xml_dom::level2::ext::*;
use xml_dom::level2::*;
use xml_dom::parser::{read_reader, read_xml};

type R = std::result::Result<(), String>;

/// Hands out the bytes piece by piece, up to an error at `fail`.
struct Pieces<'a> {
    data: &'a [u8],
    at: usize,
    /// Length of every piece, or the only place to cut
    size: usize,
    cut: Option<usize>,
    fail: Option<usize>,
}
impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = {
            let b = self.fill_buf()?;
            let n = b.len().min(buf.len());
            buf[..n].copy_from_slice(&b[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Pieces<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        let mut end = self.data.len();
        match self.cut {
            Some(c) if self.at < c => end = c,
            Some(_) => (),
            None => end = end.min((self.at / self.size + 1) * self.size),
        }
        if let Some(f) = self.fail {
            if self.at >= f {
                return Err(std::io::Error::other("unreadable"));
            }
            end = end.min(f);
        }
        Ok(&self.data[self.at..end])
    }
    fn consume(&mut self, n: usize) {
        self.at += n;
    }
}
fn pieces(s: &str, size: usize) -> Pieces<'_> {
    Pieces { data: s.as_bytes(), at: 0, size, cut: None, fail: None }
}
fn cut(s: &str, at: usize) -> Pieces<'_> {
    Pieces { data: s.as_bytes(), at: 0, size: usize::MAX / 2, cut: Some(at), fail: None }
}

#[derive(Clone, Copy, PartialEq)]
enum Cuts {
    /// Single bytes
    One,
    /// Pieces of 1, 7, 64 and 4096 bytes
    Some,
    /// Every piece length and every cut in two
    All,
}

fn readers<'a>(s: &'a str, cuts: Cuts) -> Vec<(String, Pieces<'a>)> {
    let mut v = vec![("pieces of 1".to_string(), pieces(s, 1))];
    if cuts == Cuts::Some {
        for n in [7, 64, 4096] {
            v.push((format!("pieces of {}", n), pieces(s, n)));
        }
    }
    if cuts == Cuts::All {
        for n in 2..=s.len() {
            v.push((format!("pieces of {}", n), pieces(s, n)));
        }
        for at in 1..s.len() {
            v.push((format!("a cut at {}", at), cut(s, at)));
        }
    }
    v
}

/// A well-formed text must give the tree it describes.
fn good(th: &mut Th<'_>, s: &str, want: &D, cuts: Cuts) -> R {
    let check = |how: &str, got: xml_dom::parser::Result<RefNode>| -> R {
        let doc = got.map_err(|e| format!("{}: refused: {:?}", how, e))?;
        let says = document_says(&doc).map_err(|e| format!("{}: {}", how, e))?;
        if says != *want {
            return Err(format!("{}: gives {:?}, expected {:?}", how, says, want));
        }
        let root = doc.document_element().map(|e| e.tag_name());
        let name = want.kids.iter().find_map(|k| match k {
            N::El(n, ..) => Some(n.clone()),
            _ => None,
        });
        same("document element", root, name)?;
        forest(std::slice::from_ref(&doc))?;
        for n in closure(std::slice::from_ref(&doc)) {
            if n != doc {
                same("owner document", n.owner_document().as_ref() == Some(&doc), true)?;
            }
        }
        Ok(())
    };
    th.transitions += 1;
    check("from a string", read_xml(s))?;
    for (how, p) in readers(s, cuts) {
        th.transitions += 1;
        check(&how, read_reader(p))?;
    }
    Ok(())
}

/// A text that is none must be refused.
fn bad(th: &mut Th<'_>, s: &str, cuts: Cuts) -> R {
    let check = |how: &str, got: xml_dom::parser::Result<RefNode>| -> R {
        match got {
            Err(_) => Ok(()),
            Ok(d) => Err(format!("{}: accepted as {:?}", how, document_says(&d))),
        }
    };
    th.transitions += 1;
    check("from a string", read_xml(s))?;
    for (how, p) in readers(s, cuts) {
        th.transitions += 1;
        check(&how, read_reader(p))?;
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum Want {
    Good,
    Bad,
}

fn judge(th: &mut Th<'_>, s: &str, want: Want, cuts: Cuts) {
    match (read(s), want) {
        (Ok(d), Want::Good) => case(th, format_args!("text {:?}", s), |th| {
            th.count("well_formed_texts", 1);
            good(th, s, &d, cuts)
        }),
        (Err(Stop::Bad), Want::Bad) => case(th, format_args!("text {:?}", s), |th| {
            th.count("ill_formed_texts", 1);
            bad(th, s, cuts)
        }),
        (Err(Stop::Unclaimed), Want::Bad) => case(th, format_args!("text {:?}", s), |th| {
            // any result, but one
            th.count("texts_only_promised_an_answer", 1);
            th.transitions += 2;
            let _ = read_xml(s);
            let _ = read_reader(pieces(s, 1));
            Ok(())
        }),
        _ => (),
    }
}

/// Long contents of every part of a document.
fn long_parts(ctx: &Ctx, marks: &'static [&'static str], want: Want) {
    let around = [
        ("<r>", "</r>"), ("<r k=\"", "\"/>"), ("<r k='", "'></r>"), ("<r><!--", "--></r>"), ("<r><![CDATA[", "]]></r>"),
        ("<r><?p ", "?></r>"), ("<", "/>"), ("<r ", "='v'/>"), ("<?", "?><r/>"), ("<!--", "--><r/>"), ("", "<r/>"), ("<r/>", ""),
    ];
    let longs = Longs { fills: &["x", "é", " "], marks, sizes: long_sizes(ctx, 65_536) };
    ctx.note(format!("{} within {:?}, read as a string and in pieces of 1, 7, 64 and 4096 bytes", longs.describe(), around));
    ctx.par(longs.count(), |th, i| {
        let (v, n, fill, mark, shape) = longs.get(i);
        for (a, b) in around {
            let s = format!("{}{}{}", a, v, b);
            match (read(&s), want) {
                (Ok(d), Want::Good) => case(th, format_args!("{} {:?} x {} with {:?} ({})", a, fill, n, mark, shape), |th| {
                    th.count("well_formed_texts", 1);
                    good(th, &s, &d, Cuts::Some)
                }),
                (Err(Stop::Bad), Want::Bad) => case(th, format_args!("{} {:?} x {} with {:?} ({})", a, fill, n, mark, shape), |th| {
                    th.count("ill_formed_texts", 1);
                    bad(th, &s, Cuts::Some)
                }),
                _ => (),
            }
        }
    });
}

struct Family {
    what: &'static str,
    around: Vec<(&'static str, &'static str)>,
    alphabet: Vec<&'static str>,
    len: usize,
    /// Every way to cut up to this length
    cuts: usize,
}
fn family(ctx: &Ctx, f: Family, want: Want) {
    ctx.note(format!(
        "{}: every sequence of up to {} of {:?} within {:?}, read as a string and byte by byte (up to {} of them in every piece length and cut)",
        f.what, f.len, f.alphabet, f.around, f.cuts
    ));
    for len in 0..=f.len {
        let all = Strings { alphabet: &f.alphabet, len };
        let around = &f.around;
        ctx.par(all.count(), |th, i| {
            let mut s = String::new();
            all.get(i, &mut s);
            for (a, b) in around {
                let text = format!("{}{}{}", a, s, b);
                judge(th, &text, want, if len <= f.cuts { Cuts::All } else { Cuts::One });
            }
        });
    }
}

fn well_formed_families(ctx: &Ctx) -> Vec<Family> {
    let t = ctx.thorough();
    let d = |q: usize| if t { q + 1 } else { q };
    vec![
        Family {
            what: "content",
            around: vec![("<r>", "</r>")],
            alphabet: vec![
                "<a>", "</a>", "<b k=\"v\">", "</b >", "<c/>", "t", " ", "&lt;", "<!--c-->", "<![CDATA[d]]>", "<?p q?>", "\n",
            ],
            len: d(5),
            cuts: d(3),
        },
        Family {
            what: "nesting",
            around: vec![("<r>", "</r>"), ("", "")],
            alphabet: vec!["<a>", "</a>", "<b>", "</b>", "<c/>", "t"],
            len: d(7),
            cuts: d(4),
        },
        Family {
            what: "document level",
            around: vec![("", ""), ("<?xml version=\"1.0\"?>", "")],
            alphabet: vec![
                "<r/>", "<r>t</r>", "<s k='v'/>", "<r>", "</r>", "<!--c-->", "<!--d-->", "<?p?>", "<?p q?>", " ", "\n",
            ],
            len: d(5),
            cuts: d(3),
        },
        Family {
            what: "declarations",
            around: vec![("<?xml", "?><r/>"), ("<?xml", "?>\n<!--c--><r/>")],
            alphabet: vec![
                " version=\"1.0\"", " version='1.1'", " version = \"1.0\"", " encoding=\"UTF-8\"", " encoding = 'a_b.c-9'",
                "\tstandalone=\"yes\"", " standalone='no'", " ", "\n",
            ],
            len: d(5),
            cuts: 3,
        },
        Family {
            what: "start tags",
            around: vec![("<r", "/>"), ("<r", "></r>"), ("<r><e", "/>t</r>")],
            alphabet: vec![
                " ", "\n", " a=", "b:c", "é", "=", " = ", "\"v\"", "'w'", "\"\"", "\"a&lt;'\"", " k=\"1\"", " l='2'", " a='&#9;\"'",
                "\t_.-0=\"x>y\"",
            ],
            len: d(4),
            cuts: 2,
        },
        Family {
            what: "attribute values",
            around: vec![("<r k=\"", "\"/>"), ("<r><e l='1' k=\"", "\" m='2'></e></r>")],
            alphabet: vec![
                "a", " ", "\n", "\t", "&lt;", "&amp;", "&quot;", "&apos;", "&#60;", "&#x3C;", "&#10;", "&#9;", ">", "'", "é", "&#233;",
                "]]>", "-->", "/>", "=", "&#13;", "#38;",
            ],
            len: d(3),
            cuts: 2,
        },
        Family {
            what: "attribute values in the other quotes",
            around: vec![("<r k='", "'/>")],
            alphabet: vec!["a", " ", "\t", "&gt;", "&apos;", "&quot;", "\"", "é", "&#x1F600;", "?>", "lt;", "&amp;"],
            len: d(4),
            cuts: 2,
        },
        Family {
            what: "text",
            around: vec![("<r>", "</r>"), ("<r><e/>", "<e/></r>")],
            alphabet: vec![
                "a", " ", "\n", "\t", "&lt;", "&amp;", "&gt;", "&quot;", "&apos;", "&#60;", "&#x3c;", "&#32;", "&#10;", "é", "😀", "\u{a0}",
                ">", "]", "'", "\"", "&#xE9;", "&#x10FFFF;", "--", "/", "?>", "lt;", "#38;", "\u{3000}",
            ],
            len: d(3),
            cuts: 2,
        },
        Family {
            what: "comments",
            around: vec![("<r><!--", "--></r>"), ("<!--", "--><r/>"), ("<r/><!--", "-->")],
            alphabet: vec!["a", " ", "-", "&", "&amp;", "&#60;", ";", "<", ">", "é", "]]>", "?>", "\n", "<b>", "&lt;", "!"],
            len: d(3),
            cuts: 2,
        },
        Family {
            what: "CDATA sections",
            around: vec![("<r><![CDATA[", "]]></r>"), ("<r>t<![CDATA[", "]]>t</r>")],
            alphabet: vec!["a", " ", "]", ">", "]>", "&", "&amp;", "<", "</r>", "é", "<![CDATA[", "-->", "\n", "?>", "[", "\t"],
            len: d(3),
            cuts: 2,
        },
        Family {
            what: "instructions",
            around: vec![("<r><?p ", "?></r>"), ("<?p ", "?><r/>"), ("<r/><?p\t", "?>"), ("<?", "?><r/>")],
            alphabet: vec!["a", " ", "?", ">", "&", "&lt;", "<", "=", "\"", "é", "p", "xml", "-->", "\n", "-", "q='r'"],
            len: d(3),
            cuts: 2,
        },
        Family {
            what: "names",
            around: vec![
                ("<", "/>"), ("<", "></a>"), ("<r ", "=\"v\"/>"), ("<?", "?><r/>"), ("<r ", "='v' a='w'/>"), ("<a>", "</a>"),
            ],
            alphabet: vec!["a", "Z", "_", "-", ".", "0", ":", "é", "xml", "·", "中", "\u{10000}", "ns"],
            len: d(3),
            cuts: 2,
        },
        Family {
            what: "matching names",
            around: vec![("<ab></ab", ">"), ("<r><é:b>t</é:b", "></r>")],
            alphabet: vec![" ", "\n", "\t", "b", "/"],
            len: 3,
            cuts: 3,
        },
        Family {
            what: "references",
            around: vec![("<r>&", ";</r>"), ("<r k='&", ";'/>"), ("<r>a&", ";&amp;</r>")],
            alphabet: vec!["#", "x", "0", "1", "9", "a", "F", "amp", "lt", "D", "X", "3"],
            len: d(4),
            cuts: 1,
        },
    ]
}

/// Texts that are well-formed and use everything together.
const WHOLE: [&str; 14] = [
    "<r/>",
    "<?xml version=\"1.0\"?><r/>",
    "<?xml version='1.1' encoding='UTF-8' standalone='yes'?>\n<r></r>\n",
    "<r a=\"1\" b='2' c=\"&lt;\">t</r>",
    "<r><a>t</a> u <b/></r>",
    "<!--c--><?p q?><r>x</r><!--d--><?q?>",
    "<r><![CDATA[ <&> ]]><!-- c --><?p  q r ?>&amp;</r>",
    "<p:r xmlns:p=\"urn:u\"><p:a p:k=\"v\" k='w'/></p:r>",
    "<r>\n  <a>\n    t\n  </a>\n  <b k = \"v\" />\n</r>",
    "<é ü=\"ö\">ß&#233;&#x1F600;😀</é>",
    "<r k=\"a&#10;b\tc\nd\">&#32;t&#32;</r>",
    "<a><a><a></a></a><a/></a>",
    "<r xml:id=\"i\"><a xml:id='j'/></r>",
    "<a b=\"/>\" c='>'>]]<b>></b></a>",
];

/// Texts with the names that XML, its namespaces, or HTML give a meaning of their own: text and
/// nesting in them, one or two of the attributes, repeated and unclosed ones too.
fn odd_texts() -> Vec<String> {
    let attr = |a: &(Option<S>, S, S)| format!("{}=\"{}\"", a.1, a.2);
    let mut starts = vec![];
    for e in ODD_ELEMENTS {
        starts.push((e.1, String::new()));
    }
    for e in ["e", "p:e"] {
        for a in ODD_ATTRIBUTES {
            starts.push((e, format!(" {}", attr(&a))));
            for b in ODD_ATTRIBUTES {
                starts.push((e, format!(" {} {}", attr(&a), attr(&b))));
            }
        }
    }
    let mut all = vec![];
    for (e, attrs) in starts {
        let o = format!("<{}{}>", e, attrs);
        all.extend([
            format!("<{}{}/>", e, attrs),
            format!("{} </{}>", o, e),
            format!("<?xml version='1.1'?>{} t </{}>", o, e),
            format!("<r> {} t <x> u </x> <!-- c --> <![CDATA[ d ]]> <?p  q ?> </{}> v </r>", o, e),
            format!("<r>{}\n<{}> </{}>\n<x/> &lt;b&gt; </{}></r>", o, e, e, e),
            format!("<r><x{}/>{}<x{}/></{}></r>", attrs, o, attrs, e),
            format!("<r>{}</r>", o),
            format!("<r>{}<x></{}></r>", o, e),
            format!("<r>{}<x></{}></x></r>", o, e),
            format!("{}<b></{}>", o, e),
            format!("{}a<b>c", o),
            format!("{}</{}>", o, e.to_uppercase()),
            format!("{}</{}>", o, e.rsplit(':').next().unwrap()),
            format!("{}a < b</{}>", o, e),
            format!("{}a & b</{}>", o, e),
            format!("{}</{}></{}>", o, e, e),
            format!("<r></{}>", e),
            format!("<{}{} {}/>", e, attrs, "checked"),
            format!("<{}{} k=v/>", e, attrs),
        ]);
    }
    all
}
fn odd_names_read(ctx: &Ctx, want: Want) {
    let all = odd_texts();
    ctx.note(format!(
        "{} texts with {} names of elements and every one and two of {} attributes that XML, namespaces or HTML give a meaning",
        all.len(),
        ODD_ELEMENTS.len(),
        ODD_ATTRIBUTES.len()
    ));
    ctx.par(all.len() as u64, |th, i| judge(th, &all[i as usize], want, Cuts::One));
}

/// Elements that have a name or an attribute in common with the ones around and beside them.
fn related_elements(ctx: &Ctx) {
    const NAMES: [&str; 2] = ["a", "p:a"];
    const ATTRS: [&str; 12] = [
        "", "k='v'", "k='w'", "K='v'", "p:k='v'", "xmlns='u'", "xmlns=''", "xmlns:p='u'", "xmlns:p='w'", "xml:space='preserve'",
        "xml:lang='en'", "k='v' xmlns:p='u'",
    ];
    const SHAPES: [&str; 6] = [
        "1(2(3()))", "1(t2()3())", "1(2()t3())", "1(2(t) 3())", "1(2( )3(t)t)", "1( 2(3( ))u)",
    ];
    let tags = NAMES.len() * ATTRS.len();
    ctx.note(format!(
        "{} shapes of three elements, each named one of {:?} and with the attributes of one of {:?}",
        SHAPES.len(),
        NAMES,
        ATTRS
    ));
    ctx.par((tags * tags * tags) as u64, |th, i| {
        let i = i as usize;
        let of = [i % tags, i / tags % tags, i / tags / tags];
        for shape in SHAPES {
            let (mut s, mut open) = (String::new(), vec![]);
            for c in shape.chars() {
                match c {
                    '1'..='3' => {
                        let tag = of[c as usize - '1' as usize];
                        let (name, attrs) = (NAMES[tag % NAMES.len()], ATTRS[tag / NAMES.len()]);
                        s += &format!("<{} {}", name, attrs);
                        open.push(name);
                    }
                    '(' => s.push('>'),
                    ')' => s += &format!("</{}>", open.pop().unwrap()),
                    c => s.push(c),
                }
            }
            judge(th, &s, Want::Good, Cuts::One);
        }
    });
}

pub fn p21(ctx: &Ctx) {
    for f in well_formed_families(ctx) {
        family(ctx, f, Want::Good);
    }
    odd_names_read(ctx, Want::Good);
    related_elements(ctx);
    ctx.note(format!("{} whole documents in every piece length and cut, and every pair of them nested", WHOLE.len()));
    let n = WHOLE.len() as u64;
    ctx.par(n * (n + 1), |th, i| {
        let (a, b) = (WHOLE[(i % n) as usize], (i / n) as usize);
        if b == WHOLE.len() {
            judge(th, a, Want::Good, Cuts::All);
        } else {
            judge(th, &format!("<o k='v'>{}t{}</o>", a, WHOLE[b]), Want::Good, Cuts::All);
        }
    });
    // what stands there again
    const UNITS: [&str; 8] = [
        "<!-- just the same comment -->", "<?target just the same data?>", "<![CDATA[just the same section]]>",
        "<e k=\"just the same value\"/>", "<e k='v'>just the same text</e>", "<e><e><e/></e></e>",
        "<e k='v'><!-- just the same comment --></e>", "just the same text &amp; more ",
    ];
    const BETWEEN: [&str; 6] = ["", " ", "\n", "t", "<x/>", "<!--c-->"];
    ctx.note(format!("each of {:?} two to four times with one of {:?} between", UNITS, BETWEEN));
    ctx.par((UNITS.len() * UNITS.len() * BETWEEN.len() * 3) as u64, |th, i| {
        let i = i as usize;
        let (a, b) = (UNITS[i % 8], UNITS[i / 8 % 8]);
        let (between, times) = (BETWEEN[i / 64 % 6], i / 384 + 2);
        let all = vec![a; times].join(between);
        judge(th, &format!("<r>{}{}{}</r>", all, b, all), Want::Good, Cuts::Some);
        judge(th, &format!("<r>{}{}{}{}</r>", b, all, between, b), Want::Good, Cuts::One);
        judge(th, &format!("{}<r>{}</r>{}", all, b, all), Want::Good, Cuts::One);
    });
    // every character everywhere it may stand
    let top = ctx.pick(0x3100u64, 0x11_0000);
    ctx.note(format!("every Unicode scalar below {:#x} in names, text, values, comments, sections, instructions and as a reference", top));
    ctx.par(top, |th, i| {
        let Some(c) = char::from_u32(i as u32) else { return };
        for s in [
            format!("<{}/>", c),
            format!("<a{}b></a{}b>", c, c),
            format!("<r {}=\"{}\"/>", c, c),
            format!("<r a{}='x{}y'/>", c, c),
            format!("<r>x{}y</r>", c),
            format!("<r>{}</r>", c),
            format!("<r><!--{}--><![CDATA[{}]]><?p{} {}x?></r>", c, c, c, c),
            format!("<r k=\"&#{};\">&#x{:x};</r>", i, i),
            format!("<r k=\"&#x{:X};x\">a&#{};</r>", i, i),
        ] {
            judge(th, &s, Want::Good, Cuts::One);
        }
    });
    very_deep(ctx);
    long_parts(ctx, &["&lt;", "&#38;", "&#x3c;", "\n", "\r\n", "😀", "]", "-", "?", ">", "'", "\"", "<b/>", "<!--c-->"], Want::Good);
    // long and deep
    let most = ctx.pick(150usize, 1500);
    let longer: &[usize] = ctx.pick(&[255, 256, 257, 1_025, 4_097, 65_537], &[2_049, 4_097, 16_385, 65_535, 65_536, 65_537, 140_000]);
    ctx.note(format!(
        "width, lengths and runs of white space from 0 to {} and {:?}, nesting to 4097 and attributes to 1025 of these",
        most, longer
    ));
    ctx.par((most + longer.len()) as u64, |th, i| {
        let i = i as usize;
        // the longest first
        let n = if i < longer.len() { longer[longer.len() - 1 - i] } else { i - longer.len() };
        let long = "é".repeat(n) + "x";
        let attrs: String = (0..n.min(1_025)).map(|j| format!(" a{}=\"{}\"", j, j)).collect();
        let wide: String = (0..n).map(|j| format!("<e{}>t{}</e{}><f/> ", j, j, j)).collect();
        let mixed: String = (0..n).map(|j| WHOLE[j % WHOLE.len()]).filter(|s| !s.starts_with("<?xml") && !s.contains("xml:id")).collect();
        let nested = n.min(4_097);
        for (k, s) in [
            format!("{}{}{}", "<a>".repeat(nested + 1), "t", "</a>".repeat(nested + 1)),
            format!("{}<b/>{}", "<a k='v'>".repeat(nested + 1), "</a>u".repeat(nested) + "</a>"),
            format!("<r>{}</r>", wide),
            format!("<r{}/>", attrs),
            format!("<r k=\"{}\">{}</r>", long, long),
            format!("<{}>{}</{}>", long, " ".repeat(n), long),
            format!("<r><!--{}--><![CDATA[{}]]><?p {}?></r>", long, long, long),
            format!("{}<r{}/>{}", "\n".repeat(n), " ".repeat(n), "\t".repeat(n)),
            format!("<r>{}</r>", "&lt;&#38;".repeat(n)),
            format!("<r>{}</r>", mixed),
            format!("{}<r/>{}", "<!--c--><?p?>".repeat(n), "<?q?>".repeat(n)),
        ]
        .into_iter()
        .enumerate()
        {
            case(th, format_args!("size {} of form {}", n, k), |th| {
                let Ok(d) = read(&s) else { return Ok(()) };
                th.count("well_formed_texts", 1);
                let check = |got: xml_dom::parser::Result<RefNode>| -> R {
                    let doc = got.map_err(|e| format!("refused: {:?}", e))?;
                    let says = document_says(&doc)?;
                    if says != d {
                        return Err(format!("{:.200?} … gives {:.2000}", s, format!("{:?}", says)));
                    }
                    Ok(())
                };
                th.transitions += 4;
                check(read_xml(&s))?;
                check(read_reader(pieces(&s, 1)))?;
                check(read_reader(pieces(&s, 7)))?;
                check(read_reader(pieces(&s, 64)))
            });
        }
    });
}

/// Nesting is limited by memory only, not by the stack.
fn very_deep(ctx: &Ctx) {
    let depths = ctx.pick(&[500usize, 2_000, 7_000][..], &[500, 2_000, 7_000, 12_000, 20_000]);
    ctx.note(format!("elements nested {:?} deep, and such texts cut short, on a stack of 256 kB", depths));
    ctx.par(depths.len() as u64 * 4, |th, i| {
        let n = depths[i as usize / 4];
        let with = i % 4;
        case(th, format_args!("nested {} {}", n, with), |th| {
            th.transitions += 1;
            with_stack(1 << 18, || -> R {
                let open = match with {
                    0 => "<a>".repeat(n),
                    1 => "<a k='v'>t<b/>".repeat(n),
                    2 => "<!--c--><a>".to_string() + &"<a>".repeat(n - 1),
                    _ => "<a>".repeat(n),
                };
                let close = if with == 3 { "</a>".repeat(n - 1) } else { "</a>".repeat(n) };
                let got = read_xml(open + &close);
                if with == 3 {
                    return got.map(|_| ()).map_or(Ok(()), |_| Err("accepted with an element left open".into()));
                }
                let d = got.map_err(|e| format!("refused: {:?}", e))?;
                let mut at = d.document_element().ok_or("no document element")?;
                let mut depth = 1;
                while let Some(e) = at.child_nodes().iter().rev().find(|n| n.node_name().to_string() == "a") {
                    same("parent", e.parent_node().as_ref() == Some(&at), true)?;
                    depth += 1;
                    let e = e.clone();
                    at = e;
                }
                same("depth", depth, n)?;
                drop(at);
                drop(d);
                Ok(())
            })
        });
    });
}

// ------------------------------------------------------------------------------------------------
// P22

pub fn p22(ctx: &Ctx) {
    odd_names_read(ctx, Want::Bad);
    very_deep(ctx);
    long_parts(ctx, &["<", "&", "&x", "&#0;", "\0", "\u{1}", "</b>", "<b>", "]]>", "--", "\"", "'", "&;", "\u{ffff}", "/"], Want::Bad);
    for mut f in well_formed_families(ctx) {
        f.cuts = f.cuts.min(2);
        family(ctx, f, Want::Bad);
    }
    let raw = vec![
        "<", ">", "/", "a", " ", "=", "\"", "'", "&", ";", "#", "1", "x", "!", "-", "[", "]", "?", "xml", "é", "amp",
    ];
    family(
        ctx,
        Family {
            what: "raw characters",
            around: vec![
                ("", ""), ("<r>", "</r>"), ("<r ", "/>"), ("<r k=\"", "\"/>"), ("<r k='", "'></r>"), ("<", "<r/>"), ("<r/>", ""),
                ("<r", "</r>"), ("<r><", "></r>"), ("<?", "?><r/>"), ("<!", "><r/>"), ("<r><!", "></r>"), ("<r>&", ";</r>"),
            ],
            alphabet: raw,
            len: ctx.pick(4, 5),
            cuts: 1,
        },
        Want::Bad,
    );
    family(
        ctx,
        Family {
            what: "tokens",
            around: vec![("", ""), ("<r>", "</r>"), ("<?xml version=\"1.0\"?>", "<r/>"), ("<r/>", "")],
            alphabet: vec![
                "<a>", "</a>", "<a/>", "</b>", "t", " ", "&lt;", "&x;", "&", "<!--c-->", "<!--", "-->", "<![CDATA[", "]]>", "<?p q?>",
                "<?p", "?>", "<?xml version=\"1.0\"?>", "<a k=\"v\">", "<a k=v>", "<a k>", "<", "&#0;", "<!DOCTYPE r>", "<!doctype r>",
                "<!DOCTYPE r [<!ENTITY x \"y\">]>", "<!ENTITY x \"y\">", "<![IGNORE[", "<![cdata[",
            ],
            len: ctx.pick(4, 5),
            cuts: 1,
        },
        Want::Bad,
    );
    family(
        ctx,
        Family {
            what: "declarations",
            around: vec![("<?xml", "?><r/>"), ("<?xml ", "?><r/>"), ("<?xml version=\"1.0\"", "?><r/>"), ("<r/><?xml", "?>"), ("<r><?xml", "?></r>")],
            alphabet: vec![
                " ", "version", "encoding", "standalone", "=", "\"1.0\"", "'1.0'", "\"2.0\"", "\"UTF-8\"", "\"8\"", "\"yes\"", "\"YES\"",
                "\"no'", " version=\"1.0\"", " encoding='a'", " standalone='no'", " x='y'", "?", "\"\"", " Version=\"1.0\"",
            ],
            len: ctx.pick(4, 5),
            cuts: 1,
        },
        Want::Bad,
    );
    family(
        ctx,
        Family {
            what: "attributes",
            around: vec![("<r", "/>"), ("<r", "></r>"), ("<r><e k='v'", "/></r>")],
            alphabet: vec![
                " ", "k", "l", "=", "\"v\"", "'v'", "\"", "'", "v", " k=\"1\"", " k='2'", " l=\"&lt;\"", " l=\"&\"", " l='<'", " m=\"&x;\"",
                " m='&#xD800;'", "/", "é", "1", ">", "<",
            ],
            len: ctx.pick(4, 5),
            cuts: 1,
        },
        Want::Bad,
    );
    // damaged documents
    let seeds: Vec<String> = {
        let mut v: Vec<String> = WHOLE.iter().map(|s| s.to_string()).collect();
        let parts = ["<a>t</a>", "<b k=\"v\" l='w'/>", "&amp;", "<!--c-->", "<?p q?>", "<![CDATA[d]]>", "é"];
        for s in upto(&parts, ctx.pick(2, 3)) {
            v.push(format!("<r>{}</r>", s));
            v.push(format!("<?xml version=\"1.0\"?><!--x--><r>{}</r><?y?>", s));
        }
        v
    };
    let chars = [
        "<", ">", "/", "&", ";", "\"", "'", "=", " ", "a", "é", "!", "?", "-", "]", "[", "#", "0", "\u{0}", "\r", "</r>", "<r>", "&x;", "<!--", "<!DOCTYPE r>",
    ];
    ctx.note(format!(
        "{} documents: every prefix, every suffix, every piece cut out, every adjacent swap, every one of {:?} put in or over each place",
        seeds.len(),
        chars
    ));
    ctx.par(seeds.len() as u64, |th, i| {
        let s = seeds[i as usize].as_str();
        let at: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
        let mut try_one = |t: String| {
            if !th.stop() {
                judge(th, &t, Want::Bad, Cuts::One);
            }
        };
        for (j, a) in at.iter().enumerate() {
            try_one(s[..*a].to_string());
            try_one(s[*a..].to_string());
            for b in &at[j + 1..] {
                try_one(format!("{}{}", &s[..*a], &s[*b..]));
            }
            for c in chars {
                try_one(format!("{}{}{}", &s[..*a], c, &s[*a..]));
                if j + 1 < at.len() {
                    try_one(format!("{}{}{}", &s[..*a], c, &s[at[j + 1]..]));
                }
            }
            if j + 2 < at.len() {
                let (b, c) = (at[j + 1], at[j + 2]);
                try_one(format!("{}{}{}{}", &s[..*a], &s[b..c], &s[*a..b], &s[c..]));
            }
        }
        // exchange any two pieces of markup or text
        let toks = pieces_of(s);
        for x in 0..toks.len() {
            for y in x + 1..toks.len() {
                let mut t = toks.clone();
                t.swap(x, y);
                try_one(t.concat());
            }
            let mut t = toks.clone();
            t.insert(x, toks[x]);
            try_one(t.concat());
        }
    });
    // a reader that fails must not pass for the end of the document
    ctx.note("every one of these documents from a reader that fails at each place, in pieces of 1, 3 and 64");
    ctx.par(seeds.len() as u64, |th, i| {
        let s = seeds[i as usize].as_str();
        for fail in 0..s.len() {
            for size in [1, 3, 64] {
                case(th, format_args!("text {:?} failing at {} in pieces of {}", s, fail, size), |th| {
                    th.transitions += 1;
                    let p = Pieces { data: s.as_bytes(), at: 0, size, cut: None, fail: Some(fail) };
                    match read_reader(p) {
                        Err(_) => Ok(()),
                        Ok(d) => Err(format!("accepted as {:?}", document_says(&d))),
                    }
                });
            }
        }
    });
    // bytes that are no text
    ctx.note("every invalid byte in place of each character of content in the same documents");
    ctx.par(seeds.len() as u64, |th, i| {
        let s = seeds[i as usize].as_bytes();
        for at in 0..s.len() {
            for b in [0x80u8, 0xC3, 0xFF, 0xED, 0xF4] {
                case(th, format_args!("bytes of {:?} with {:#x} at {}", seeds[i as usize], b, at), |th| {
                    th.transitions += 1;
                    let mut v = s.to_vec();
                    v[at] = b;
                    if std::str::from_utf8(&v).is_ok() {
                        return Ok(());
                    }
                    match read_reader(Pieces { data: &v, at: 0, size: 5, cut: None, fail: None }) {
                        Err(_) => Ok(()),
                        Ok(d) => Err(format!("accepted as {:?}", document_says(&d))),
                    }
                });
            }
        }
    });
    let most = ctx.pick(150u64, 1500);
    ctx.note(format!("unfinished nesting, and one end too many, from 1 to {} levels", most));
    ctx.par(most, |th, i| {
        let n = i as usize + 1;
        for s in [
            "<a>".repeat(n),
            format!("{}{}", "<a>".repeat(n), "</a>".repeat(n - 1)),
            format!("{}{}", "<a>".repeat(n), "</a>".repeat(n + 1)),
            format!("{}</b>", "<a>".repeat(n)),
            format!("{}<", "<a>".repeat(n)),
            format!("<r>{}", "t".repeat(n)),
            format!("<r k=\"{}", "t".repeat(n)),
            format!("<r/>{}", "<r/>".repeat(n)),
            format!("<!--{}", "c".repeat(n)),
            format!("<r><![CDATA[{}]]</r>", "d".repeat(n)),
            format!("<r {}/>", "k='v' ".repeat(n + 1)),
        ] {
            judge(th, &s, Want::Bad, Cuts::One);
        }
    });
}

/// Pieces of markup and the text between.
fn pieces_of(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut from = 0;
    for (i, c) in s.char_indices() {
        let end = if c == '>' { i + 1 } else if c == '<' { i } else { continue };
        if end > from {
            v.push(&s[from..end]);
            from = end;
        }
    }
    if from < s.len() {
        v.push(&s[from..]);
    }
    v
}

// ------------------------------------------------------------------------------------------------
// P23

/// Nothing else than what is promised to survive.
fn survives(d: &D) -> bool {
    fn ok(n: &N) -> bool {
        match n {
            N::El(_, attrs, kids) => {
                attrs.iter().all(|a| !a.1.starts_with("(odd)") && !a.1.contains(|c: char| c.is_control() && !is_space(c)))
                    && !kids.windows(2).any(|w| matches!(w, [N::Text(_), N::Text(_)]))
                    && kids.iter().all(ok)
            }
            N::Text(t) => {
                !t.is_empty() && t != "(none)" && !t.starts_with(is_space) && !t.ends_with(is_space) && !t.contains('\r')
            }
            N::Comment(t) => !t.contains("--") && !t.ends_with('-') && !t.contains('\r') && !t.starts_with('>') && t != "(none)",
            N::PI(_, Some(d)) => !d.is_empty() && !d.starts_with(is_space) && !d.ends_with(is_space) && !d.contains("?>") && !d.contains('\r'),
            N::PI(_, None) => true,
            N::CData(_) | N::Other(_) => false,
        }
    }
    d.kids.iter().all(ok) && d.kids.iter().filter(|k| matches!(k, N::El(..))).count() == 1
}
fn is_space(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}
/// IDs must be unique for the text to be read at all.
fn ids_differ(d: &D) -> bool {
    fn go(n: &N, seen: &mut Vec<String>) -> bool {
        match n {
            N::El(_, attrs, kids) => {
                for a in attrs {
                    if a.0 == "xml:id" {
                        if seen.contains(&a.1) {
                            return false;
                        }
                        seen.push(a.1.clone());
                    }
                }
                kids.iter().all(|k| go(k, seen))
            }
            _ => true,
        }
    }
    let mut seen = vec![];
    d.kids.iter().all(|k| go(k, &mut seen))
}

fn bag(s: &str) -> Vec<char> {
    let mut v: Vec<char> = s.chars().collect();
    v.sort_unstable();
    v
}

/// Write, read, compare, write again.
fn round(th: &mut Th<'_>, doc: &RefNode) -> R {
    let want = document_says(doc)?;
    if !survives(&want) || !ids_differ(&want) {
        th.count("trees_outside_the_claim", 1);
        return Ok(());
    }
    th.count("trees_written_and_read", 1);
    th.transitions += 3;
    let text = doc.to_string();
    let back = read_xml(&text).map_err(|e| format!("written as {:?}, which is refused: {:?}", text, e))?;
    let got = document_says(&back)?;
    if got != want {
        return Err(format!("written as {:?}, which reads {:?}, expected {:?}", text, got, want));
    }
    let again = back.to_string();
    if bag(&again) != bag(&text) {
        return Err(format!("written as {:?} and, when read, as {:?}", text, again));
    }
    let third = read_reader(pieces(&again, 3)).map_err(|e| format!("{:?} is refused: {:?}", again, e))?;
    let got = document_says(&third)?;
    if got != want {
        return Err(format!("written again as {:?}, which reads {:?}, expected {:?}", again, got, want));
    }
    // the text says the same to a reader of XML
    match read(&text) {
        Ok(d) if d != want => Err(format!("written as {:?}, which means {:?}, expected {:?}", text, d, want)),
        Err(Stop::Bad) => Err(format!("written as {:?}, which is not well-formed", text)),
        _ => Ok(()),
    }
}

const LABELS: [&str; 10] = [
    "element a", "element b", "element with attributes", "namespaced element", "text", "text with markup", "comment",
    "instruction", "instruction without data", "odd text",
];
fn label(l: u8, i: usize) -> Spec {
    match l {
        0 => Spec::El(0, "a"),
        1 => Spec::El(0, "b:é"),
        2 => Spec::El(0, "c"),
        3 => Spec::ElNs(0, "urn:u", "p:c"),
        4 => Spec::Text(0, ["t", "u v", "é\nw"][i % 3]),
        5 => Spec::Text(0, "<a k=\"v\">&amp;&'é😀]]"),
        6 => Spec::Comment(0, ["c", " <&amp;> ", ""][i % 3]),
        7 => Spec::PI(0, "p", Some("q=\"<&>\"  r")),
        8 => Spec::PI(0, "x:p", None),
        _ => Spec::Text(0, "&#38;lt;"),
    }
}

fn contents(ctx: &Ctx, what: &str, alphabet: &[&str], max: usize) {
    ctx.note(format!(
        "every {} of up to {} pieces from {:?} as text, attribute value, comment and instruction",
        what, max, alphabet
    ));
    for len in 0..=max {
        let all = Strings { alphabet, len };
        ctx.par(all.count(), |th, i| {
            let mut s = String::new();
            all.get(i, &mut s);
            content(th, &s);
        });
    }
}
fn content(th: &mut Th<'_>, s: &str) {
    content_of(th, s, format_args!("content {:?}", s));
}
fn content_of(th: &mut Th<'_>, s: &str, what: std::fmt::Arguments<'_>) {
    case(th, what, |th| {
        let fail = |e: Error| format!("{:?}", e);
        for part in 0..6 {
            let mut d = get_implementation().create_document(None, None, None).map_err(fail)?;
            let mut e = d.create_element("e").map_err(fail)?;
            d.append_child(e.clone()).map_err(fail)?;
            let n = match part {
                0 => d.create_text_node(s),
                1 => d.create_comment(s),
                2 => d.create_processing_instruction("p", Some(s)).map_err(fail)?,
                3 | 4 => {
                    // only values that can be read at all, and none XML cannot hold
                    if normalize_value(s).is_none() || s.contains(|c: char| c.is_control() && !is_space(c)) {
                        continue;
                    }
                    if part == 3 {
                        e.set_attribute("k", s).map_err(fail)?;
                    } else {
                        e.set_attribute("p:k", "1").map_err(fail)?;
                        let mut a = d.create_attribute("é").map_err(fail)?;
                        a.set_value(s).map_err(fail)?;
                        e.set_attribute_node(a).map_err(fail)?;
                    }
                    d.create_element("f").map_err(fail)?
                }
                _ => {
                    let mut f = d.create_element("f").map_err(fail)?;
                    f.append_child(d.create_text_node(s)).map_err(fail)?;
                    e.append_child(f).map_err(fail)?;
                    e.append_child(d.create_comment(s)).map_err(fail)?;
                    d.create_text_node(s)
                }
            };
            e.append_child(n).map_err(fail)?;
            round(th, &d)?;
        }
        Ok(())
    });
}

pub fn p23(ctx: &Ctx) {
    let sizes: &[(usize, &[u8])] = ctx.pick(
        &[
            (0, &[0]),
            (1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
            (2, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
            (3, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
            (4, &[0, 2, 4, 6, 7]),
        ],
        &[
            (0, &[0]),
            (1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
            (2, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
            (3, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
            (4, &[0, 1, 2, 4, 5, 6, 7, 8]),
            (5, &[0, 2, 4, 6, 7]),
            (6, &[0, 4]),
        ],
    );
    for (n, labels) in sizes {
        let holds: Vec<bool> = labels.iter().map(|l| *l <= 3).collect();
        let all = forests(*n, &holds);
        ctx.note(format!(
            "{} forests of {} nodes below the document element, over {:?}",
            all.len(),
            n,
            labels.iter().map(|l| LABELS[*l as usize]).collect::<Vec<_>>()
        ));
        ctx.par(all.len() as u64, |th, i| {
            let f = &all[i as usize];
            case(th, format_args!("tree n={} labels={:?} [{}]", n, labels, show(f)), |th| {
                let mut spec = vec![Spec::Doc(0, None), Spec::El(0, "root")];
                let mut ops = vec![Op::Append(0, 1)];
                let mut len = 2;
                let ids = place(f, 1, &mut spec, &mut len, &mut ops, &|l, i| label(labels[l as usize], i));
                for (j, (id, (_, l))) in ids.iter().zip(f).enumerate() {
                    match labels[*l as usize] {
                        2 => ops.extend([
                            Op::SetAttr(*id, "x", "1"),
                            Op::SetAttr(*id, "p:x", "<\"'&> &amp;"),
                            Op::SetAttr(*id, "é", "\n&#10; é"),
                            Op::SetAttr(*id, "xml:id", intern(&format!("i{}", j))),
                        ]),
                        3 => ops.push(Op::SetAttrNs(*id, XMLNS, "xmlns:p", "urn:u")),
                        _ => (),
                    }
                }
                let mut p = Pair::new(&spec)?;
                p.steps(&ops)?;
                round(th, p.r.g(0))
            });
        });
    }
    // what documents hold
    let tops: Vec<Vec<u8>> = (0..=ctx.pick(5u32, 7))
        .flat_map(|n| (0..4u32.pow(n)).map(move |i| (0..n).map(|k| (i / 4u32.pow(k) % 4) as u8).collect()))
        .filter(|v: &Vec<u8>| v.iter().filter(|x| **x == 0).count() == 1)
        .collect();
    ctx.note(format!("{} document contents x 19 declarations", tops.len()));
    ctx.par(tops.len() as u64, |th, i| {
        let top = &tops[i as usize];
        for decl in 0..19u32 {
            case(th, format_args!("document {:?} declaration {}", top, decl), |th| {
                let mut spec = vec![Spec::Doc(0, None)];
                let mut ops = vec![];
                for t in top {
                    ops.push(Op::Append(0, spec.len()));
                    spec.push(match t {
                        0 => Spec::El(0, "e"),
                        1 => Spec::Comment(0, "c &"),
                        2 => Spec::PI(0, "p", Some("q")),
                        _ => Spec::PI(0, "p", None),
                    });
                }
                let mut p = Pair::new(&spec)?;
                p.steps(&ops)?;
                if decl > 0 {
                    let d = decl - 1;
                    let v = if d % 2 == 0 { XmlVersion::V10 } else { XmlVersion::V11 };
                    let e = [None, Some("UTF-8"), Some("a-1")][(d / 2 % 3) as usize];
                    let s = [None, Some(true), Some(false)][(d / 6) as usize];
                    p.r.m(0)
                        .set_xml_declaration(XmlDecl::new(v, e.map(|e| e.to_string()), s))
                        .map_err(|e| format!("{:?}", e))?;
                }
                round(th, p.r.g(0))
            });
        }
    });
    // contents
    contents(
        ctx,
        "string",
        &["&", "<", ">", "'", "\"", "a", ";", "#", "-", "]", "!", "/", "?", "=", " ", "\n", "\t", "é", "1", "x"],
        ctx.pick(3, 4),
    );
    contents(
        ctx,
        "sequence",
        &[
            "&amp;", "&#38;", "&lt;", "&#x3c;", "<b>", "</e>", "]]>", "<![CDATA[", "<?", "\"", "'", " k=\"", "/>", "&", ";", "#38;", "lt;",
            "😀", "&#10;", "x", "&#9;", "\u{85}", "\u{2028}", "\u{a0}",
        ],
        ctx.pick(3, 4),
    );
    ctx.note("every Unicode scalar from space on (thorough: all; else below 0x3100) in such contents");
    ctx.par(ctx.pick(0x3100, 0x11_0000), |th, i| {
        if let Some(c) = char::from_u32(i as u32) {
            if i >= 0x20 && !(0x7f..0xa0).contains(&i) && i != 0xfeff && i & 0xfffe != 0xfffe {
                content(th, &format!("a{}b{}c", c, c));
            }
        }
    });
    let longs = Longs {
        fills: &["x", "é", "&", " "],
        marks: &["&amp;", "<", "'", "\"", "\n", "\t", "😀", "]]>", "?", "-", "&#10;"],
        sizes: long_sizes(ctx, 65_536),
    };
    ctx.note(format!("{} in such contents", longs.describe()));
    ctx.par(longs.count(), |th, i| {
        let (v, n, fill, mark, shape) = longs.get(i);
        content_of(th, &v, format_args!("content {:?} x {} with {:?} ({})", fill, n, mark, shape));
    });
    // trees made by edits
    let view = |m: &Model, real: &Real| -> R {
        let mut r = Ok(());
        for i in m.live() {
            if m.n(i).k == K::Document && m.document_element(i).is_some() {
                r = (|| {
                    let want = document_says(real.g(i))?;
                    if !survives(&want) || !ids_differ(&want) {
                        return Ok(());
                    }
                    // a document type is outside the claim
                    let text = real.g(i).to_string().replacen(worn().1, "", 1);
                    let back = read_xml(&text).map_err(|e| format!("written as {:?}, which is refused: {:?}", text, e))?;
                    let got = document_says(&back)?;
                    if got != want {
                        return Err(format!("written as {:?}, which reads {:?}, expected {:?}", text, got, want));
                    }
                    let again = back.to_string();
                    if bag(&again) != bag(&text) {
                        return Err(format!("written as {:?} and, when read, as {:?}", text, again));
                    }
                    Ok(())
                })();
            }
            if r.is_err() {
                break;
            }
        }
        r
    };
    let plan = |depth: usize| Plan { depth, mask: 0, view: Some(&view), ..Plan::default() };
    explore(ctx, &edits(), &plan(ctx.pick(4, 6)));
    odd_names(ctx, &plan(2), true);
    explore(ctx, &mixed(2, 2), &plan(ctx.pick(5, usize::MAX)));
    explore(ctx, &document_level(), &plan(usize::MAX));
    explore(ctx, &attribute_children(), &plan(ctx.pick(4, 6)));
    explore(ctx, &text_edits(), &plan(ctx.pick(4, 6)));
    for n in (0..ctx.pick(30, 100)).chain(lengths(ctx).iter().copied()) {
        ctx.par(1, |th, _| {
            for w in [wide(n), chain(n)] {
                case(th, format_args!("shape {}", w.name), |th| {
                    let mut r = w.real(&[])?;
                    if w.name.starts_with("chain") && n > 0 {
                        // entity references are not written to be read
                        r = {
                            let mut r = Real::default();
                            r.make(Spec::Doc(0, None))?;
                            for i in 0..n {
                                r.make(Spec::El(0, intern(&format!("e{}", i))))?;
                                r.apply(Op::Append(i, i + 1)).map_err(|e| format!("{:?}", e))?;
                            }
                            r
                        };
                    }
                    round(th, r.g(0))
                });
            }
        });
    }
}

/// Edits of values, attributes and structure below a document element.
fn edits() -> World {
    let spec = vec![
        Spec::Doc(0, None),
        Spec::El(0, "a"),
        Spec::El(0, "b"),
        Spec::Text(0, "t<"),
        Spec::Comment(0, "c&"),
        Spec::PI(0, "p", Some("q")),
        Spec::Text(0, "u"),
    ];
    let init = vec![Op::Append(0, 1)];
    World::new("edits", spec, init, |m: &Model| {
        let mut ops = vec![Op::Normalize(1)];
        for p in [1, 2] {
            for c in [2, 3, 4, 5, 6] {
                if m.n(c).parent == Some(p) {
                    ops.push(Op::Remove(p, c));
                } else {
                    ops.push(Op::Append(p, c));
                }
                if let Some(f) = m.n(p).kids.first() {
                    ops.push(Op::Insert(p, c, Some(*f)));
                }
            }
            ops.extend([
                Op::SetAttr(p, "k", "<\"&lt;'>"),
                Op::SetAttr(p, "k", "é &#9;"),
                Op::SetAttrNs(p, XMLNS, "xmlns:p", "urn:u"),
                Op::RemAttr(p, "k"),
            ]);
        }
        ops.extend([
            Op::SetNV(3, "&amp;]]>"),
            Op::AppendData(3, "é"),
            Op::SetNV(4, " <x> "),
            Op::UnsetNV(5),
            Op::SetNV(5, "r s"),
        ]);
        ops
    })
}
