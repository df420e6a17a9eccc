//! P12 to P14: character data, splitting, attribute values.

use super::strings::*;
use crate::ctx::*;
use crate::explore::*;
use crate::model::*;
use crate::real::*;
use xml_dom::level2::*;

type R = std::result::Result<(), String>;

const CHARDATA: [K; 3] = [K::Text, K::Comment, K::CData];

fn chardata(k: K, d: Id, v: S) -> Spec {
    match k {
        K::Text => Spec::Text(d, v),
        K::Comment => Spec::Comment(d, v),
        _ => Spec::CData(d, v),
    }
}

/// Every interesting number for data of this length.
fn numbers(data: &str) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=data.len() + 2).collect();
    // and near its written length
    let written = escape(data).len();
    v.extend((written.saturating_sub(1)..=written + 1).filter(|n| *n > data.len() + 2));
    v.extend([usize::MAX - 1, usize::MAX, usize::MAX / 2 + 1]);
    v
}

/// All edits of character data with these arguments.
fn edits(n: Id, at: &[usize], counts: &[usize], args: &[S]) -> Vec<Op> {
    let mut ops = vec![];
    for a in args {
        ops.push(Op::AppendData(n, a));
        ops.push(Op::SetData(n, a));
        ops.push(Op::SetNV(n, a));
        for o in at {
            ops.push(Op::InsertData(n, *o, a));
        }
    }
    ops.push(Op::UnsetData(n));
    ops.push(Op::UnsetNV(n));
    for o in at {
        for c in counts {
            ops.push(Op::DeleteData(n, *o, *c));
            for a in args {
                ops.push(Op::ReplaceData(n, *o, *c, a));
            }
        }
    }
    ops
}

fn check_substring(p: &Pair, n: Id, o: usize, c: usize) -> R {
    let got = p.r.g(n).substring_data(o, c);
    match (p.m.substring(n, o, c), got) {
        (Ok(w), Ok(g)) => same(format!("substring_data({},{})", o, c), g, w),
        (Err(_), _) if c == 0 => Ok(()),
        (Err(w), Err(g)) => same(format!("error of substring_data({},{})", o, c), err(&g), w),
        (w, g) => Err(format!("substring_data({},{}) gives {:?}, expected {:?}", o, c, g, w)),
    }
}

/// Where character data is: nowhere, or below what can hold it.
const HOMES: usize = 6;
fn home(k: K, place: usize) -> Option<(Vec<Spec>, Vec<Op>)> {
    Some(match place {
        0 => (vec![], vec![]),
        1 if k == K::Text => (
            vec![Spec::At(0, "k"), Spec::El(0, "e"), Spec::Text(0, "a\r "), Spec::Text(0, " \nb")],
            vec![Op::SetAttrNode(3, 2), Op::Append(2, 4), Op::Append(2, 1), Op::Append(2, 5)],
        ),
        2 => (
            vec![Spec::El(0, "e"), Spec::Text(0, "a "), Spec::Text(0, " b")],
            vec![Op::Append(0, 2), Op::Append(2, 3), Op::Append(2, 1), Op::Append(2, 4)],
        ),
        3 => (
            vec![Spec::ERef(0, "r"), Spec::El(0, "e")],
            vec![Op::Append(0, 3), Op::Append(3, 2), Op::Append(2, 1)],
        ),
        4 => (vec![Spec::Frag(0)], vec![Op::Append(2, 1)]),
        5 if k == K::Comment => (vec![], vec![Op::Append(0, 1)]),
        _ => return None,
    })
}

fn one_string(th: &mut Th<'_>, k: K, data: S, args: &[S], nums: &[usize]) {
    at_home(th, k, data, args, nums, 0)
}
fn at_home(th: &mut Th<'_>, k: K, data: S, args: &[S], nums: &[usize], place: usize) {
    let Some((around, ops)) = home(k, place) else { return };
    let mut spec = vec![Spec::Doc(0, None), chardata(k, 0, data)];
    spec.extend(around);
    let spec = &spec[..];
    let placed = if place == 0 { String::new() } else { format!(" in {place}") };
    case(th, format_args!("read {:?} {:?}{}", k, data, placed), |th| {
        let mut p = Pair::new(spec)?;
        p.steps(&ops)?;
        p.compare(VALUES)?;
        for o in nums {
            for c in nums {
                check_substring(&p, 1, *o, *c)?;
                th.transitions += 1;
            }
        }
        p.compare(VALUES)
    });
    for op in edits(1, nums, nums, args) {
        case(th, format_args!("edit {:?} {:?} {:?}{}", k, data, op, placed), |th| {
            let mut p = Pair::new(spec)?;
            p.steps(&ops)?;
            th.transitions += 1;
            p.step(op)?;
            p.compare(VALUES)
        });
    }
}

/// Every edit of short data that is refused, wherever the data is, changes nothing.
pub fn refused(ctx: &Ctx) {
    let alphabet = ["a", "é", "€", "😀", "&"];
    let all = upto(&alphabet, ctx.pick(3, 4));
    ctx.note(format!(
        "{} strings of up to {} characters over {:?} as text, CDATA and comment, {} places, every refused edit and split",
        all.len(), ctx.pick(3, 4), alphabet, HOMES
    ));
    ctx.par((all.len() * 3 * HOMES) as u64, |th, i| {
        let k = CHARDATA[i as usize / HOMES % 3];
        let data = intern(&all[i as usize / HOMES / 3]);
        let Some((around, ops)) = home(k, i as usize % HOMES) else { return };
        let mut spec = vec![Spec::Doc(0, None), chardata(k, 0, data)];
        spec.extend(around);
        let mut before = Model::default();
        for s in &spec {
            spec_model(&mut before, *s);
        }
        for op in &ops {
            before.apply(*op);
        }
        let mut nums: Vec<usize> = (0..=data.len() + 2).collect();
        nums.push(usize::MAX);
        let mut tried = edits(1, &nums, &nums, &["", "é&"]);
        tried.extend(nums.iter().map(|o| Op::Split(1, *o)));
        for op in tried {
            if !op.possible(&before) || !matches!(before.clone().apply(op), Out::Err(_)) {
                continue;
            }
            case(th, format_args!("refused {:?} {:?} in {} {:?}", k, data, i as usize % HOMES, op), |th| {
                let mut p = Pair::new(&spec)?;
                p.steps(&ops)?;
                th.transitions += 1;
                p.step(op)?;
                p.compare(ALL)
            });
        }
    });
}

/// One character through every edit.
fn scalar(th: &mut Th<'_>, c: char, k: usize) -> R {
    let fail = |e: Error| format!("refused: {:?}", e);
    let doc = get_implementation().create_document(None, None, None).map_err(fail)?;
    let mut n = match k {
        0 => doc.create_text_node("a"),
        1 => doc.create_comment("a"),
        _ => doc.create_cdata_section("a").map_err(fail)?,
    };
    let l = c.len_utf8();
    let s = c.to_string();
    n.append_data(&s).map_err(fail)?;
    same("appended", n.node_value(), Some(format!("a{}", c)))?;
    n.insert_data(0, &s).map_err(fail)?;
    same("inserted", n.node_value(), Some(format!("{}a{}", c, c)))?;
    same("first", n.substring_data(0, l).map_err(fail)?, s.clone())?;
    same("last", n.substring_data(l + 1, l).map_err(fail)?, s.clone())?;
    n.replace_data(0, l + 1, &s).map_err(fail)?;
    same("replaced", n.node_value(), Some(format!("{}{}", c, c)))?;
    if k != 1 {
        let rest = n.split(l).map_err(fail)?;
        same("split off", rest.node_value(), Some(s.clone()))?;
    } else {
        n.delete_data(l, l).map_err(fail)?;
    }
    same("left", n.node_value(), Some(s.clone()))?;
    n.delete_data(0, l).map_err(fail)?;
    same("deleted", n.node_value(), Some(String::new()))?;
    CharacterData::set_data(&mut n, &s).map_err(fail)?;
    same("set", n.node_value(), Some(s))?;
    th.transitions += 8;
    Ok(())
}

pub fn p12(ctx: &Ctx) {
    // every short string, every edit
    let alphabet = ["a", "b", "é", "&", "<", "😀"];
    let max = ctx.pick(4, 5);
    let all = upto(&alphabet, max);
    let args: &[S] = &["", "x", "<é", "pq"];
    ctx.note(format!(
        "{} strings of up to {} characters over {:?}, 3 node types, every edit with every offset and count (0 to length+2, and the limits), arguments {:?}",
        all.len(), max, alphabet, args
    ));
    ctx.par(all.len() as u64 * 3, |th, i| {
        let data = intern(&all[i as usize / 3]);
        let k = CHARDATA[i as usize % 3];
        one_string(th, k, data, args, &numbers(data));
    });
    // white space, markup and control characters, as data and as argument
    let special = [" ", "\n", "\r", "\t", "]", "-", ">", "\"", "'", "\0", "\u{a0}", "A", "\u{301}", ";"];
    let all = upto(&special, 2);
    let args: &[S] = &[" ", "\n", "\t ", "]]>", "--", "\u{a0}", "\0", "A", "'", "\u{301}", "&#38;"];
    ctx.note(format!(
        "{} strings of up to 2 characters over {:?}, 3 node types, every edit with every offset and count, arguments {:?}",
        all.len(), special, args
    ));
    ctx.par(all.len() as u64 * 3, |th, i| {
        let data = intern(&all[i as usize / 3]);
        let k = CHARDATA[i as usize % 3];
        one_string(th, k, data, args, &numbers(data));
    });
    // the same where the data can be, with fewer of the numbers
    let special = [" ", "\n", "\r", "]", "-", "&", "a", "é"];
    let all = upto(&special, ctx.pick(2, 3));
    let args: &[S] = &["", " ", "\n", "\r", "a ", " é", "]]>", "--", "&#38;"];
    ctx.note(format!(
        "{} strings of up to {} characters over {:?} in an attribute, an element, an entity reference, a fragment and a document, with data beside them, every edit with arguments {:?}",
        all.len(), ctx.pick(2, 3), special, args
    ));
    ctx.par((all.len() * 3 * (HOMES - 1)) as u64, |th, i| {
        let place = i as usize % (HOMES - 1) + 1;
        let k = CHARDATA[i as usize / (HOMES - 1) % 3];
        let data = intern(&all[i as usize / (HOMES - 1) / 3]);
        let mut nums: Vec<usize> = (0..=data.len() + 1).collect();
        nums.push(usize::MAX);
        at_home(th, k, data, args, &nums, place);
    });
    ctx.note("every Unicode scalar appended, inserted, read and deleted");
    let block = 256u32;
    ctx.par((0x11_0000 / block) as u64, |th, b| {
        for n in b as u32 * block..(b as u32 + 1) * block {
            if let Some(c) = char::from_u32(n) {
                case(th, format_args!("scalar {:?}", c), |th| scalar(th, c, n as usize % 3));
            }
        }
    });
    // node without data
    let args: &[S] = &["", "x", "<é", "pq"];
    for k in CHARDATA {
        ctx.par(1, |th, _| {
            for op in edits(1, &numbers(""), &numbers(""), args) {
                case(th, format_args!("edit {:?} without data {:?}", k, op), |th| {
                    let mut p = Pair::new(&[Spec::Doc(0, None), chardata(k, 0, "")])?;
                    p.step(Op::UnsetData(1))?;
                    th.transitions += 1;
                    p.compare(VALUES)?;
                    check_substring(&p, 1, 0, 1)?;
                    check_substring(&p, 1, 0, usize::MAX)?;
                    check_substring(&p, 1, 1, 1)?;
                    match p.step(op)? {
                        Out::Unclaimed => Ok(()),
                        _ => p.compare(VALUES),
                    }
                });
            }
        });
    }
    // every length
    let units = ["a", "é", "&", "x😀"];
    let longest = ctx.pick(70, 270);
    ctx.note(format!(
        "strings of 0 to {} repetitions of each of {:?}, every offset and around every count",
        longest, units
    ));
    ctx.par(longest as u64 * units.len() as u64, |th, i| {
        let n = i as usize / units.len();
        let unit = units[i as usize % units.len()];
        let data = intern(&unit.repeat(n));
        let spec = [Spec::Doc(0, None), Spec::Text(0, data)];
        case(th, format_args!("long {:?}x{}", unit, n), |th| {
            let p = Pair::new(&spec)?;
            for o in 0..=data.len() + 1 {
                for c in 0..=data.len() + 1 {
                    check_substring(&p, 1, o, c)?;
                    th.transitions += 1;
                }
            }
            p.compare(VALUES)
        });
        for o in 0..=data.len() + 1 {
            let left = data.len().saturating_sub(o);
            let mut ops = vec![Op::InsertData(1, o, "yz")];
            let mut counts = vec![0, 1, 2, left, left + 1, usize::MAX];
            counts.extend(left.checked_sub(1));
            for c in counts {
                ops.push(Op::DeleteData(1, o, c));
                ops.push(Op::ReplaceData(1, o, c, "w"));
            }
            for op in ops {
                case(th, format_args!("long {:?}x{} {:?}", unit, n, op), |th| {
                    let mut p = Pair::new(&spec)?;
                    th.transitions += 1;
                    p.step(op)?;
                    p.compare(VALUES)
                });
            }
        }
    });
    // strings of every length appended, inserted and replaced with strings of every kind
    let starts = ["", " ", "\n", "&"];
    let arguments: Vec<S> = ["", " ", "a", " a", "a ", "\na\n", "é", "<&>", "]]>", "--"]
        .iter()
        .copied()
        .chain([17, 33, 65, 129, 257, 1025].iter().flat_map(|n| [intern(&"x".repeat(*n)), intern(&" ".repeat(*n))]))
        .collect();
    let longest = ctx.pick(150, 600);
    ctx.note(format!(
        "data of 0 to {} bytes beginning with each of {:?}: {} arguments appended, inserted and replacing at the start, middle and end",
        longest, starts, arguments.len()
    ));
    ctx.par(longest * 4, |th, i| {
        let data = intern(&format!("{}{}", starts[i as usize % 4], "a".repeat(i as usize / 4)));
        let len = data.len();
        for k in CHARDATA {
            for a in &arguments {
                let mut ops = vec![Op::AppendData(1, a), Op::SetData(1, a), Op::SetNV(1, a)];
                for o in [0, 1, len / 2, len.saturating_sub(1), len] {
                    ops.extend([Op::InsertData(1, o, a), Op::ReplaceData(1, o, 1, a), Op::ReplaceData(1, o, len, a)]);
                }
                for op in ops {
                    case(th, format_args!("{:?} of {} bytes from {:?} {:?}", k, len, starts[i as usize % 4], op), |th| {
                        let mut p = Pair::new(&[Spec::Doc(0, None), chardata(k, 0, data)])?;
                        th.transitions += 1;
                        p.step(op)?;
                        p.compare(VALUES)
                    });
                }
            }
        }
    });
    let longs = Longs {
        fills: &["x", "é", " "],
        marks: &["&", "<", "\n", "😀", "]]>", "&amp;"],
        sizes: long_sizes(ctx, 65_536),
    };
    ctx.note(format!("{}: read and edited around the marks and at both ends", longs.describe()));
    ctx.par(longs.count(), |th, i| {
        let (v, n, fill, mark, shape) = longs.get(i);
        let k = CHARDATA[(i / 4) as usize % 3];
        let data = intern(&v);
        let spec = [Spec::Doc(0, None), chardata(k, 0, data)];
        let ends = ends(data, fill.len() * n, mark.len());
        case(th, format_args!("read {:?} of {:?} x {} with {:?} ({})", k, fill, n, mark, shape), |th| {
            let p = Pair::new(&spec)?;
            for o in &ends {
                for e in &ends {
                    check_substring(&p, 1, *o, e.wrapping_sub(*o))?;
                    th.transitions += 1;
                }
            }
            p.compare(VALUES)
        });
        for (j, o) in ends.iter().enumerate() {
            let mut ops = vec![Op::InsertData(1, *o, "y&"), Op::DeleteData(1, *o, 1), Op::ReplaceData(1, *o, mark.len(), "zé")];
            for e in &ends[j..] {
                ops.extend([Op::DeleteData(1, *o, e - o), Op::ReplaceData(1, *o, e - o, mark)]);
            }
            if j == 0 {
                ops.extend([Op::AppendData(1, "y<"), Op::AppendData(1, data), Op::SetData(1, "z"), Op::SetNV(1, "z")]);
            }
            for op in ops {
                case(th, format_args!("edit {:?} of {:?} x {} with {:?} ({}) {:?}", k, fill, n, mark, shape, Short(op)), |th| {
                    let mut p = Pair::new(&spec)?;
                    th.transitions += 1;
                    p.step(op)?;
                    p.compare(VALUES)
                });
            }
        }
    });
    // sequences, with other nodes around
    for k in CHARDATA {
        for (i, init) in ["", "ab", "é&"].into_iter().enumerate() {
            let spec = vec![
                Spec::Doc(0, None),
                Spec::El(0, "e"),
                Spec::Text(0, "left"),
                chardata(k, 0, init),
                Spec::Comment(0, "right"),
            ];
            let init = vec![Op::Append(1, 2), Op::Append(1, 3), Op::Append(1, 4)];
            let top = ctx.pick(4, 5);
            let w = World::new(format!("sequences-{:?}-{}", k, i), spec, init, move |m: &Model| {
                let len = m.n(3).val.unwrap_or("").len();
                let at: Vec<usize> = (0..=len + 1).collect();
                let counts = [0, 1, 2, usize::MAX];
                let args: &[S] = if len < top { &["", "x", "é"] } else { &[""] };
                edits(3, &at, &counts, args)
            });
            explore(
                ctx,
                &w,
                &Plan {
                    mask: VALUES | LINKS,
                    depth: ctx.pick(7, 12),
                    ..Plan::default()
                },
            );
            explore(ctx, &w, &Plan { mask: VALUES, ..Plan::default() }.turns(ctx.pick(3, 5)));
            again(ctx, &w, &Plan { mask: VALUES | LINKS, ..Plan::default() }, ctx.pick(0, 1), 2, 300);
        }
    }
}

/// An edit without its long argument.
struct Short(Op);
impl std::fmt::Debug for Short {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.0 {
            Op::AppendData(n, s) if s.len() > 40 => write!(f, "AppendData({}, {} bytes)", n, s.len()),
            op => write!(f, "{:?}", op),
        }
    }
}

/// The offsets around what a long content is put together from.
fn ends(data: &str, fills: usize, mark: usize) -> Vec<usize> {
    let len = data.len();
    let mut v = vec![0, 1, len / 2];
    for at in [mark, fills, fills + mark, len] {
        v.extend([at.saturating_sub(1), at, at + 1]);
    }
    v.sort();
    v.dedup();
    v.retain(|at| *at <= len + 1);
    v
}

// ------------------------------------------------------------------------------------------------

pub fn p13(ctx: &Ctx) {
    let alphabet = ["a", "b", "é", "&", "<", "😀"];
    let max = ctx.pick(4, 5);
    let mut all = upto(&alphabet, max);
    let special = [" ", "\n", "\r", "]", ">", "\"", "\0", "\u{a0}", "\u{301}", ";", "-"];
    all.extend(upto(&special, ctx.pick(2, 3)));
    ctx.note(format!(
        "{} contents of up to {} characters over {:?} and {:?}, text and CDATA, every offset, every place among up to 3 siblings and detached, below element, fragment, entity reference, entity and attribute",
        all.len(), max, alphabet, special
    ));
    ctx.par(all.len() as u64, |th, i| {
        let data = intern(&all[i as usize]);
        for k in [K::Text, K::CData] {
            for o in numbers(data) {
                for under in 0..6 {
                    for at in 0..3 {
                        if (under == 5 && at > 0) || (under == 4 && k == K::CData) {
                            continue;
                        }
                        case(
                            th,
                            format_args!("split {:?} {:?} at {} under {} place {}", k, data, o, under, at),
                            |th| {
                                let spec = [
                                    Spec::Doc(0, None),
                                    match under {
                                        0 => Spec::El(0, "e"),
                                        1 => Spec::Frag(0),
                                        2 => Spec::ERef(0, "e"),
                                        3 => Spec::IntEntity(0, "e", "v"),
                                        _ => Spec::At(0, "e"),
                                    },
                                    chardata(k, 0, data),
                                    Spec::Text(0, "s"),
                                    Spec::Text(0, "t"),
                                ];
                                let mut p = Pair::new(&spec)?;
                                if under < 5 {
                                    let mut order = vec![3, 4];
                                    order.insert(at, 2);
                                    for c in order {
                                        p.step(Op::Append(1, c))?;
                                    }
                                }
                                th.transitions += 1;
                                p.step(Op::Split(2, o))?;
                                p.compare(ALL)
                            },
                        );
                    }
                }
            }
        }
    });
    // nodes without data, and nodes of every other type
    let m = super::worlds::all_types();
    ctx.par(m.spec.len() as u64, |th, i| {
        for o in [0, 1, usize::MAX] {
            for unset in [false, true] {
                case(th, format_args!("split node {} at {} unset {}", i, o, unset), |th| {
                    let mut p = Pair::new(&m.spec)?;
                    if unset {
                        p.step(Op::UnsetNV(i as usize))?;
                    }
                    th.transitions += 1;
                    p.step(Op::Split(i as usize, o))?;
                    p.compare(ALL)
                });
            }
        }
    });
    // long contents
    let longest = ctx.pick(70, 300);
    ctx.par(longest * 2, |th, i| {
        let unit = ["ab", "é&"][i as usize % 2];
        let data = intern(&unit.repeat(i as usize / 2));
        for o in 0..=data.len() + 1 {
            case(th, format_args!("split long {:?}x{} at {}", unit, i / 2, o), |th| {
                let mut p = Pair::new(&[
                    Spec::Doc(0, None),
                    Spec::El(0, "e"),
                    Spec::Text(0, data),
                    Spec::Comment(0, "c"),
                ])?;
                p.steps(&[Op::Append(1, 2), Op::Append(1, 3)])?;
                th.transitions += 1;
                p.step(Op::Split(2, o))?;
                p.compare(ALL)
            });
        }
    });
    let longs = Longs {
        fills: &["x", "é", " "],
        marks: &["&", "<", "\n", "😀", "]]>", "&amp;"],
        sizes: long_sizes(ctx, 65_536),
    };
    ctx.note(format!("{}: split around the marks and at both ends", longs.describe()));
    ctx.par(longs.count(), |th, i| {
        let (v, n, fill, mark, shape) = longs.get(i);
        let k = [K::Text, K::CData][(i / 4) as usize % 2];
        let data = intern(&v);
        for o in ends(data, fill.len() * n, mark.len()) {
            case(th, format_args!("split {:?} of {:?} x {} with {:?} ({}) at {}", k, fill, n, mark, shape, o), |th| {
                let mut p = Pair::new(&[
                    Spec::Doc(0, None),
                    Spec::El(0, "e"),
                    chardata(k, 0, data),
                    Spec::Comment(0, "c"),
                ])?;
                p.steps(&[Op::Append(1, 2), Op::Append(1, 3)])?;
                th.transitions += 1;
                p.step(Op::Split(2, o))?;
                p.compare(ALL)
            });
        }
    });
    // a split anywhere in a long list
    let lists = (0..ctx.pick(24, 60)).map(|n| (n, (0..n).collect()));
    for (n, at) in lists.chain(super::worlds::lengths(ctx).iter().map(|n| (*n, super::worlds::marks(*n)))) {
        let at: Vec<usize> = at;
        let w = super::worlds::wide(n);
        ctx.par(at.len() as u64, |th, i| {
            let i = at[i as usize];
            case(th, format_args!("split in list of {} at {}", n, i), |th| {
                let mut p = Pair::new(&w.spec)?;
                p.steps(&w.init)?;
                th.transitions += 1;
                p.step(Op::Split(4 + i, 1))?;
                p.compare(ALL)
            });
        });
    }
    // repeated splits among tree edits
    let spec = vec![
        Spec::Doc(0, None),
        Spec::El(0, "e"),
        Spec::Text(0, "aé&b"),
        Spec::CData(0, "xyz"),
        Spec::AtWith(0, "k", "p q"),
    ];
    let init = vec![Op::Append(1, 2), Op::Append(1, 3), Op::SetAttrNode(1, 5)];
    let w = World::new("repeated-splits", spec, init, |m: &Model| {
        let mut ops = vec![];
        for i in m.live() {
            if !matches!(m.n(i).k, K::Text | K::CData) {
                continue;
            }
            for o in 0..=m.n(i).val.unwrap_or("").len() + 1 {
                ops.push(Op::Split(i, o));
            }
            if m.n(i).parent == Some(1) {
                ops.push(Op::Remove(1, i));
            } else {
                ops.push(Op::Append(1, i));
            }
        }
        ops.push(Op::Normalize(1));
        ops
    })
    .max(ctx.pick(9, 10));
    explore(ctx, &w, &Plan::default().turns(ctx.pick(2, 3)));
    again(ctx, &w, &Plan::default(), 1, 2, 300);
    explore(ctx, &w, &Plan { depth: ctx.pick(5, 6), until: 0.6, ..Plan::default() });
    explore(
        ctx,
        &super::worlds::text_edits(),
        &Plan {
            depth: ctx.pick(5, 6),
            ..Plan::default()
        },
    );
}

// ------------------------------------------------------------------------------------------------

/// The value through every way of setting it.
fn value(th: &mut Th<'_>, doc: &mut RefNode, v: &str) -> R {
    let Some(n) = normalize_value(v) else {
        return Ok(());
    };
    let want = Some(escape(&n));
    let fail = |e: Error| format!("refused: {:?}", e);
    let check = |how: &str, e: &RefNode, a: &RefNode| -> R {
        for _ in 0..2 {
            same(format!("value {}", how), a.value(), want.clone())?;
        }
        if let Some(e) = Some(e) {
            let name = a.node_name();
            same(format!("get_attribute {}", how), e.get_attribute(&name.to_string()), want.clone())?;
            if let Some(ns) = name.namespace_uri() {
                same(
                    format!("get_attribute_ns {}", how),
                    e.get_attribute_ns(ns, name.local_name()),
                    want.clone(),
                )?;
            }
        }
        let raw: String = a
            .child_nodes()
            .iter()
            .map(|c| c.node_value().unwrap_or_default())
            .collect();
        same(format!("text stored {}", how), raw.as_str(), v)
    };
    let mut e = doc.create_element("e").map_err(fail)?;
    e.set_attribute("k", v).map_err(fail)?;
    check("by name", &e, &e.get_attribute_node("k").ok_or("no attribute")?)?;
    e.set_attribute_ns("urn:u", "p:k", v).map_err(fail)?;
    check(
        "by namespace",
        &e,
        &e.get_attribute_node_ns("urn:u", "k").ok_or("no attribute")?,
    )?;
    let a = doc.create_attribute_with("n", v).map_err(fail)?;
    e.set_attribute_node(a.clone()).map_err(fail)?;
    check("by node", &e, &a)?;
    let mut a = doc.create_attribute("m").map_err(fail)?;
    same("value before any is set", a.value(), None)?;
    e.set_attribute_node(a.clone()).map_err(fail)?;
    a.set_value(v).map_err(fail)?;
    check("by set_value", &e, &a)?;
    a.set_value(v).map_err(fail)?;
    check("by set_value again", &e, &a)?;
    a.unset_value().map_err(fail)?;
    same("value after unset", a.value(), None)?;
    e.set_attribute("xml:id", v).map_err(fail)?;
    check("as ID", &e, &e.get_attribute_node("xml:id").ok_or("no attribute")?)?;
    th.transitions += 5;
    // as text pieces
    let far = v.len().min(8);
    for at in v.char_indices().map(|x| x.0).skip(1) {
        if v.len() > 100 && at > far && at + far < v.len() && at.abs_diff(v.len() / 2) > 3 {
            continue;
        }
        let mut a = doc.create_attribute("s").map_err(fail)?;
        for piece in [&v[..at], &v[at..]] {
            a.append_child(doc.create_text_node(piece)).map_err(fail)?;
        }
        let old = e.get_attribute_node("s");
        e.set_attribute_node(a.clone()).map_err(fail)?;
        check("as two pieces", &e, &a)?;
        if let Some(old) = old {
            same("value of the replaced attribute", old.value(), want.clone())?;
        }
        th.transitions += 1;
    }
    Ok(())
}

fn values(ctx: &Ctx, what: &str, alphabet: &[&str], lens: std::ops::RangeInclusive<usize>) {
    for len in lens {
        let s = Strings { alphabet, len };
        if s.count() > 1 {
            ctx.note(format!("{} {} of {} pieces from {:?}", s.count(), what, len, alphabet));
        }
        ctx.par(s.count(), |th, i| {
            let mut v = String::new();
            s.get(i, &mut v);
            case(th, format_args!("value {:?}", v), |th| {
                let mut doc = get_implementation().create_document(None, None, None).unwrap();
                value(th, &mut doc, &v)
            });
        });
    }
}

pub fn p14(ctx: &Ctx) {
    let alphabet = [
        "a", " ", "\t", "\n", "\r", "\u{85}", "\u{2028}", "&", "#", "x", "6", ";", "<", "\"", "é", ">", "'", "%",
    ];
    values(ctx, "strings", &alphabet, 0..=ctx.pick(4, 5));
    let tokens = [
        "&amp;", "&lt;", "&#38;", "&#x26;", "&#60;", "&#10;", "&#xD;", "&#9;", "&#32;", "&", "#", "amp;",
        "lt;", " ", "\r", "\n", "a", ";", "x3c;", "60;", "&quot;", "&#x2028;", "&gt;", "&apos;", "&#xe9;",
    ];
    values(ctx, "sequences", &tokens, 0..=ctx.pick(3, 4));
    let marks = ["&", "#", "x", "X", "2", "C", "c", ";", "0"];
    values(ctx, "reference look-alikes", &marks, 5..=ctx.pick(5, 7));
    let ws = [" ", "\t", "\n", "\r", "\u{85}", "\u{2028}", "a"];
    values(ctx, "white space strings", &ws, 5..=ctx.pick(5, 7));
    // every character, and every numeric reference
    let last = 0x11_0010u32;
    let block = 1024;
    ctx.note("every Unicode scalar as a value, every number up to 0x110010 as decimal and as lower, upper and zero-padded hexadecimal reference");
    let step = ctx.pick(1, 1);
    ctx.par((last / block) as u64 + 1, |th, b| {
        let doc = get_implementation().create_document(None, None, None).unwrap();
        let mut a = doc.create_attribute("k").unwrap();
        let mut e = doc.create_element("e").unwrap();
        e.set_attribute_node(a.clone()).unwrap();
        for n in (b as u32 * block..(b as u32 + 1) * block).step_by(step) {
            let mut forms = vec![
                format!("&#{};", n),
                format!("&#x{:x};", n),
                format!(" &#x{:X};&#{}", n, n),
                format!("&#x000{:x};", n),
                format!("a&#00{};b", n),
            ];
            if let Some(c) = char::from_u32(n) {
                forms.push(c.to_string());
                forms.push(format!("a{}b", c));
                // no character but these forms a reference
                if !c.is_ascii_hexdigit() && !c.is_alphanumeric() && !name_char(c) {
                    forms.push(format!("&{}1;&#1{};", c, c));
                }
                if !c.is_ascii_digit() && !matches!(c, 'x' | 'X' | '&') {
                    forms.push(format!("&#{};&#6{}0;", c, c));
                }
            }
            for v in forms {
                case(th, format_args!("character {:?}", v), |th| {
                    th.transitions += 1;
                    a.set_value(&v).map_err(|e| format!("refused: {:?}", e))?;
                    if let Some(w) = normalize_value(&v) {
                        same("value", e.get_attribute("k"), Some(escape(&w)))?;
                    }
                    Ok(())
                });
            }
        }
    });
    let longs = Longs {
        fills: ctx.pick(&["x", "&lt;"], &["x", "é", " ", "&lt;", "\n"]),
        marks: &["&amp;", "&#60;", "&#x3C;", "\t", "\r\n", "&", "<", "\u{85}", "\u{2028}", "&#10;", "\r\u{85}"],
        sizes: long_sizes(ctx, ctx.pick(1025, 65_536)),
    };
    ctx.note(longs.describe());
    ctx.par(longs.count(), |th, i| {
        let (v, n, fill, mark, shape) = longs.get(i);
        case(th, format_args!("value {:?} x {} with {:?} ({})", fill, n, mark, shape), |th| {
            let mut doc = get_implementation().create_document(None, None, None).unwrap();
            value(th, &mut doc, &v)
        });
    });
    // values of many texts
    let patterns: [&[&str]; 6] = [&["x"], &["x", "&lt;"], &["&", "lt;"], &["\r", "\n"], &["", "y"], &["&#3", "8;", " "]];
    let counts: Vec<usize> = (0..=150).chain([255, 256, 257, 1_025]).collect();
    ctx.note(format!("values of 0 to 1025 texts that repeat one of {:?}", patterns));
    ctx.par((counts.len() * patterns.len()) as u64, |th, i| {
        let (n, pattern) = (counts[i as usize / patterns.len()], patterns[i as usize % patterns.len()]);
        case(th, format_args!("value of {} texts repeating {:?}", n, pattern), |th| {
            let fail = |e: Error| format!("refused: {:?}", e);
            let doc = get_implementation().create_document(None, None, None).map_err(fail)?;
            let mut e = doc.create_element("e").map_err(fail)?;
            let mut a = doc.create_attribute("k").map_err(fail)?;
            let pieces: Vec<&str> = pattern.iter().copied().cycle().take(n).collect();
            for p in &pieces {
                a.append_child(doc.create_text_node(p)).map_err(fail)?;
            }
            e.set_attribute_node(a.clone()).map_err(fail)?;
            th.transitions += n as u64 + 1;
            let want = normalize_value(&pieces.concat()).map(|v| escape(&v));
            if let Some(want) = want {
                let want = (n > 0).then_some(want);
                same("value", a.value(), want.clone())?;
                same("value by name", e.get_attribute("k"), want.clone())?;
                let copy = e.clone_node(true).ok_or("no clone")?;
                same("value of the clone", copy.get_attribute("k"), want.clone())?;
                a.normalize();
                if pieces.concat().is_empty() {
                    return Ok(());
                }
                same("value when normalized", a.value(), want)?;
            }
            Ok(())
        });
    });
    // numbers beyond any character
    ctx.par(1, |th, _| {
        let mut doc = get_implementation().create_document(None, None, None).unwrap();
        for bits in 21..140u32 {
            let mut text = "1".to_string();
            // powers of two as decimal text
            for _ in 0..bits {
                let mut carry = 0;
                let digits: Vec<u8> = text
                    .bytes()
                    .rev()
                    .map(|b| {
                        let d = (b - b'0') * 2 + carry;
                        carry = d / 10;
                        d % 10 + b'0'
                    })
                    .collect();
                text = digits.into_iter().rev().map(|b| b as char).collect();
                if carry > 0 {
                    text.insert(0, '1');
                }
            }
            let zeros = "0".repeat(bits as usize / 4);
            for v in [
                format!("&#{};", text),
                format!("&#x1{};", zeros),
                format!("&#xF{};", zeros),
                format!("&#{}65;", zeros),
                format!("&#x{}41;", zeros),
                format!("&#{}65;", text),
            ] {
                case(th, format_args!("number {:?}", v), |th| value(th, &mut doc, &v));
            }
        }
    });
    // changes through the children
    let spec = vec![
        Spec::Doc(0, None),
        Spec::El(0, "e"),
        Spec::At(0, "k"),
        Spec::Text(0, "&#3"),
        Spec::Text(0, "8; "),
        Spec::Text(0, "\r"),
        Spec::Text(0, "\n<"),
    ];
    let mut ops = super::worlds::tree_ops(&[2], &[3, 4, 5, 6]);
    for t in 3..=6 {
        ops.extend([
            Op::SetNV(t, "&lt;"),
            Op::UnsetNV(t),
            Op::AppendData(t, "a&"),
            Op::DeleteData(t, 0, 1),
            Op::InsertData(t, 0, "38;"),
        ]);
    }
    ops.extend([
        Op::SetAttrNode(1, 2),
        Op::RemAttrNode(1, 2),
        Op::SetVal(2, " v\t"),
        Op::UnsetVal(2),
        Op::SetAttr(1, "k", "\u{85}w"),
        Op::SetAttrNs(1, "urn:u", "p:k", "&gt;"),
        Op::Normalize(1),
        Op::SetNV(2, "no"),
        Op::UnsetNV(2),
    ]);
    let w = World::new("value-children", spec, vec![Op::SetAttrNode(1, 2)], move |m: &Model| {
        ops.iter()
            .filter(|o| match o {
                Op::AppendData(n, _) | Op::InsertData(n, ..) => m.n(*n).val.unwrap_or("").len() < 6,
                _ => true,
            })
            .copied()
            .collect()
    });
    explore(
        ctx,
        &w,
        &Plan {
            mask: VALUES | ATTRS | LINKS,
            depth: ctx.pick(3, 5),
            ..Plan::default()
        },
    );
    explore(ctx, &w, &Plan { mask: VALUES | ATTRS, ..Plan::default() }.turns(ctx.pick(2, 4)));
    again(ctx, &w, &Plan { mask: VALUES | ATTRS | LINKS, ..Plan::default() }, 1, 2, 300);
}
