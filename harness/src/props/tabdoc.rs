//! Tables in the exports (sub-checks "table" of P11 to P14).
use crate::engine::*;
use crate::obs::*;
use crate::props::html::*;
use crate::props::md::{para, set_md};
use proptest::prelude::*;
use pulldown_cmark as cm;
use serde::{Deserialize, Serialize};
use text_document::*;

/// A table of formatted cells between two paragraphs, with cells merged and split into paragraphs afterwards.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TD { pub rows: Vec<Vec<Vec<(String, u8)>>>, pub merges: Vec<(u8, u8, u8, u8)>, pub enters: Vec<(u8, u8)>, pub quoted: bool }
pub fn td() -> impl Strategy<Value = TD> + Clone {
    let cell = prop_oneof![5 => para().boxed(), 1 => Just(vec![]).boxed()];
    let rows = (1usize..4, 1usize..4).prop_flat_map(move |(r, c)| proptest::collection::vec(proptest::collection::vec(cell.clone(), c), r));
    let m = proptest::collection::vec((0u8..3, 0u8..3, 0u8..3, 0u8..3), 0..3);
    let e = prop_oneof![2 => Just(vec![]).boxed(), 1 => proptest::collection::vec(any::<(u8, u8)>(), 1..4).boxed()];
    (rows, m, e, proptest::bool::weighted(0.1)).prop_map(|(rows, merges, enters, quoted)| TD { rows, merges, enters, quoted })
}
pub fn build_td(t: &TD) -> std::result::Result<TextDocument, String> {
    let d = TextDocument::new();
    let rows: String = t.rows.iter().map(|r| format!("<tr>{}</tr>", r.iter().map(|c| format!("<td>{}</td>", c.iter().map(|(t, f)| html_run(t, *f)).collect::<String>())).collect::<String>())).collect();
    let tab = format!("<table>{rows}</table>");
    set_html(&d, &format!("<p>before</p>{}<p>after</p>", if t.quoted { format!("<blockquote><p>q</p>{tab}</blockquote>") } else { tab }))?;
    let h = d.flow().into_iter().find_map(|e| if let FlowElement::Table(t) = e { Some(t) } else { None });
    if let Some(h) = h {
        let (rows, cols) = (h.rows(), h.columns());
        for (a, b, x, y) in &t.merges {
            let (a, b) = (*a as usize % rows, *b as usize % cols);
            let _ = d.cursor().merge_table_cells(h.id(), a, b, (a + *x as usize).min(rows - 1), (b + *y as usize).min(cols - 1));
        }
    }
    for (k, at) in &t.enters {
        let fl = flow(&d);
        let Some((_, cells)) = table_of(&fl) else { break };
        let c = &cells[*k as usize % cells.len()];
        let b = &c.blocks[*at as usize % c.blocks.len()];
        d.cursor_at(b.pos + *at as usize / 5 % (b.len + 1)).insert_block().map_err(|e| format!("insert_block in a cell: {e:#}"))?;
    }
    Ok(d)
}
fn table_of(fl: &[OEl]) -> Option<((usize, usize), &Vec<OCell>)> {
    fl.iter().find_map(|e| match e { OEl::T { rows, cols, cells, .. } => Some(((*rows, *cols), cells)), OEl::F { els, .. } => table_of(els), _ => None })
}
/// One cell of an export: column, row span, column span, content.
type Cell = (usize, usize, usize, Vec<Ch>);
fn join(c: &OCell, sep: char) -> Vec<Ch> {
    let mut v: Vec<Ch> = vec![];
    for b in c.blocks.iter().filter(|b| !b.text.is_empty()) { if !v.is_empty() { v.push((sep, 0, None)) } v.extend(chars(b)) }
    v
}
fn want(fl: &[OEl], sep: char) -> std::result::Result<Vec<Vec<Cell>>, String> {
    let Some(((rows, _), cells)) = table_of(fl) else { fail!("no table in the document") };
    Ok((0..rows).map(|r| cells.iter().filter(|c| c.r == r).map(|c| (c.c, c.rs, c.cs, join(c, sep))).collect()).collect())
}
fn short<T: std::fmt::Debug>(t: &T) -> String { format!("{t:?}").chars().take(500).collect() }
fn cmp(got: &[Vec<Cell>], exp: &[Vec<Cell>], src: &str) -> Check {
    let txt = |v: &[Vec<Cell>]| v.iter().map(|r| r.iter().map(|c| (c.0, c.1, c.2, c.3.iter().map(|c| c.0).collect::<String>())).collect::<Vec<_>>()).collect::<Vec<_>>();
    ensure!(txt(got) == txt(exp), "table cells (column, spans, text) read as {} but the document has {} in {}", short(&txt(got)), short(&txt(exp)), short(&src));
    for (a, b) in got.iter().flatten().zip(exp.iter().flatten()) { ensure!(a == b, "a table cell reads as {} but the document has {}", short(a), short(b)) }
    Ok(())
}
fn simple(t: &TD, fl: &[OEl]) -> bool { !t.quoted && table_of(fl).is_some_and(|t| t.1.iter().all(|c| c.rs == 1 && c.cs == 1 && c.blocks.len() == 1)) }
fn label(t: &TD, fl: &[OEl], st: &mut Stats) {
    if let Some((_, cells)) = table_of(fl) {
        if cells.iter().any(|c| c.rs > 1 || c.cs > 1) { st.label("merged cells") }
        if cells.iter().any(|c| c.blocks.len() > 1) { st.label("several paragraphs in a cell") }
        if cells.iter().any(|c| c.blocks.iter().any(|b| chars(b).iter().any(|c| c.1 != 0))) { st.nontrivial() }
    }
    if t.quoted { st.label("in a quotation") }
}
/// The same table after a round trip through `how`.
fn round(d: &TextDocument, e: &TextDocument, mask: u8, how: &str) -> Check {
    let (a, b) = (flow(d), flow(e));
    let (Some((x, p)), Some((y, q))) = (table_of(&a), table_of(&b)) else { fail!("{how}: the table is gone") };
    ensure_eq!(y, x, "{how}: rows and columns");
    for (p, q) in p.iter().zip(q) {
        let f = |c: &OCell| join(c, '\n').into_iter().map(|(c, f, h)| (c, f & mask, h)).collect::<Vec<Ch>>();
        ensure!(f(p) == f(q), "{how}: cell {},{} is {} instead of {}", p.r, p.c, short(&f(q)), short(&f(p)));
    }
    let o = |v: &[OEl]| v.iter().map(|e| if let OEl::B(b) = e { Some(b.text.clone()) } else { None }).collect::<Vec<_>>();
    ensure_eq!(o(&b), o(&a), "{how}: paragraphs around the table");
    Ok(())
}

fn read_html(h: &str) -> std::result::Result<Vec<Vec<Cell>>, String> {
    let Some(i) = h.find("<table") else { fail!("no <table> in {}", short(&h)) };
    let Some(e) = h.rfind("</table>") else { fail!("no </table>") };
    let mut rows: Vec<Vec<Cell>> = vec![];
    let mut stack: Vec<Tag> = vec![];
    let mut open: Vec<(usize, usize)> = vec![]; // column, rows still covered by cells above
    for t in tokens(&h[i..e + 8])? { match t {
        Tok::Text(s) => {
            ensure!(stack.iter().any(|t| t.name == "td" || t.name == "th"), "text {s:?} outside a cell");
            let (mut fl, mut href) = (0, None);
            for t in &stack { if let Some(x) = INLINE.iter().find(|x| x.0 == t.name) { fl |= x.1 } if t.name == "a" { href = t.attrs.iter().find(|a| a.0 == "href").map(|a| a.1.clone()) } }
            rows.last_mut().unwrap().last_mut().unwrap().3.extend(s.chars().map(|c| (c, fl, href.clone())));
        }
        Tok::Tag(t) if t.close => { let Some(o) = stack.pop() else { fail!("</{}> closes nothing", t.name) }; ensure_eq!(t.name, o.name, "closing tag") }
        Tok::Tag(t) if t.name == "br" => rows.last_mut().and_then(|r| r.last_mut()).ok_or("<br> outside a cell")?.3.push(('\n', 0, None)),
        Tok::Tag(t) => {
            match t.name.as_str() {
                "table" => ensure!(stack.is_empty(), "nested table"),
                "tr" => { for o in &mut open { o.1 -= 1 } open.retain(|o| o.1 > 0); rows.push(vec![]) }
                "td" | "th" => {
                    ensure!(stack.last().is_some_and(|t| t.name == "tr"), "cell outside a row");
                    let at = |n: &str| t.attrs.iter().find(|a| a.0 == n).and_then(|a| a.1.parse::<usize>().ok()).unwrap_or(1);
                    let (rs, cs) = (at("rowspan"), at("colspan"));
                    let row = rows.last_mut().unwrap();
                    let mut c = 0;
                    while open.iter().any(|o| o.0 == c) || row.iter().any(|x| x.0 <= c && c < x.0 + x.2) { c += 1 }
                    row.push((c, rs, cs, vec![]));
                    if rs > 1 { for k in c..c + cs { open.push((k, rs)) } }
                }
                n => ensure!(INLINE.iter().any(|x| x.0 == n) || n == "a", "unexpected <{n}> in a table"),
            }
            stack.push(t);
        }
    } }
    ensure!(stack.is_empty(), "unclosed tag in a table");
    Ok(rows)
}
pub fn html(t: &TD, st: &mut Stats) -> Check {
    let d = build_td(t)?;
    let a = observe(&d)?;
    label(t, &a.flow, st);
    let h = d.to_html().map_err(|e| format!("to_html: {e:#}"))?;
    cmp(&read_html(&h)?, &want(&a.flow, '\n')?, &h)?;
    let (p, s) = (h.find("<p>before</p>"), h.find("<p>after</p>"));
    ensure!(p.is_some() && s.is_some() && p < h.find("<table") && h.find("</table>") < s, "the paragraphs around the table are misplaced in {}", short(&h));
    if simple(t, &a.flow) { let e = TextDocument::new(); set_html(&e, &h)?; round(&d, &e, 31, "set_html(to_html())")?; st.label("round trip") }
    if let Some(x) = diff(&a, &observe(&d)?) { fail!("exporting changed the document: {x}") }
    Ok(())
}

fn read_md(m: &str) -> std::result::Result<Vec<Vec<Cell>>, String> {
    let o = cm::Options::ENABLE_STRIKETHROUGH | cm::Options::ENABLE_TABLES | cm::Options::ENABLE_TASKLISTS;
    let (mut rows, mut fl, mut href, mut inside): (Vec<Vec<Cell>>, u8, Option<String>, u8) = (vec![], 0, None, 0);
    for e in cm::Parser::new_ext(m, o) {
        use cm::{Event as E, Tag as T, TagEnd as X};
        let mut put = |s: &str, f: u8, h: &Option<String>| if inside == 2 && let Some(c) = rows.last_mut().and_then(|r| r.last_mut()) { c.3.extend(s.chars().map(|c| (c, f, h.clone()))) };
        match e {
            E::Start(T::Table(_)) => inside = 1, E::End(X::Table) => inside = 0,
            E::Start(T::TableHead | T::TableRow) => rows.push(vec![]),
            E::Start(T::TableCell) => { inside = 2; let r = rows.last_mut().unwrap(); let n = r.len(); r.push((n, 1, 1, vec![])) }
            E::End(X::TableCell) => inside = 1,
            E::Start(T::Strong) => fl |= 1, E::End(X::Strong) => fl &= !1,
            E::Start(T::Emphasis) => fl |= 2, E::End(X::Emphasis) => fl &= !2,
            E::Start(T::Strikethrough) => fl |= 8, E::End(X::Strikethrough) => fl &= !8,
            E::Start(T::Link { dest_url, .. }) => href = Some(dest_url.to_string()), E::End(X::Link) => href = None,
            E::Text(t) => put(&t, fl, &href), E::Code(t) => put(&t, fl | 16, &href),
            E::Start(T::Paragraph | T::BlockQuote(_)) | E::End(X::Paragraph | X::BlockQuote(_) | X::TableHead | X::TableRow) => {}
            x => fail!("unexpected {x:?}"),
        }
    }
    Ok(rows)
}
pub fn md(t: &TD, st: &mut Stats) -> Check {
    let d = build_td(t)?;
    let a = observe(&d)?;
    label(t, &a.flow, st);
    // What Markdown can express: formats that neither start nor end with white space.
    let Some((_, cells)) = table_of(&a.flow) else { fail!("no table in the document") };
    let blank = |c: Option<&Ch>| c.is_some_and(|c| c.0.is_whitespace());
    if cells.iter().flat_map(|c| &c.blocks).any(|b| blank(chars(b).first()) || blank(chars(b).last())) { st.label("outside: white space at an edge"); return Ok(()) }
    let m = d.to_markdown().map_err(|e| format!("to_markdown: {e:#}"))?;
    let Some(((rows, cols), cells)) = table_of(&a.flow) else { fail!("no table in the document") };
    let exp: Vec<Vec<Cell>> = (0..rows).map(|r| (0..cols).map(|c| (c, 1, 1, cells.iter().find(|x| (x.r, x.c) == (r, c)).map(|x| join(x, ' ').into_iter().map(|(c, f, h)| (c, f & !4, h)).collect()).unwrap_or_default())).collect()).collect();
    let got = read_md(&m).map_err(|e| format!("{e} in {}", short(&m)))?;
    cmp(&got, &exp, &m)?;
    if simple(t, &a.flow) { let e = TextDocument::new(); set_md(&e, &m)?; round(&d, &e, 31 - 4, "set_markdown(to_markdown())")?; st.label("round trip") }
    if let Some(x) = diff(&a, &observe(&d)?) { fail!("exporting changed the document: {x}") }
    Ok(())
}

pub fn tex(t: &TD, st: &mut Stats) -> Check {
    use crate::props::latex::{LB, R};
    let d = build_td(t)?;
    let a = observe(&d)?;
    label(t, &a.flow, st);
    let body = d.to_latex("book", false).map_err(|e| format!("to_latex: {e:#}"))?;
    let full = d.to_latex("book", true).map_err(|e| format!("to_latex: {e:#}"))?;
    let Some(((rows, cols), cells)) = table_of(&a.flow) else { fail!("no table in the document") };
    if cells.iter().any(|c| c.rs > 1) { ensure!(full.contains("\\usepackage{multirow}"), "cells spanning rows without the multirow package") }
    let Some((pre, rest)) = body.split_once("\\begin{tabular}") else { fail!("no tabular in {}", short(&body)) };
    let Some((tab, post)) = rest.split_once("\\end{tabular}") else { fail!("unclosed tabular in {}", short(&body)) };
    ensure!(pre.starts_with("before\n\n") && post.ends_with("\n\nafter"), "paragraphs around the table in {}", short(&body));
    let Some(rest) = tab.strip_prefix(&format!("{{|{}}}\n\\hline\n", "l|".repeat(cols))) else { fail!("column specification for {cols} columns in {}", short(&tab)) };
    let lines: Vec<&str> = rest.split_terminator(" \\\\\n\\hline\n").collect();
    ensure_eq!(lines.len(), rows, "rows of the tabular {}", short(&rest));
    for (r, line) in lines.iter().enumerate() {
        let mut c = 0;
        for part in line.split(" & ") {
            let mut p = R { s: part, i: 0 };
            let (mut cs, mut rs, mut depth) = (1, 1, 0);
            if p.eat("\\multicolumn") { cs = p.arg()?.parse::<usize>().map_err(|e| e.to_string())?; p.need("{|l|}{")?; depth += 1 }
            if p.eat("\\multirow") { rs = p.arg()?.parse::<usize>().map_err(|e| e.to_string())?; p.need("{*}{")?; depth += 1 }
            let mut b = LB { quote: 0, env: None, cmd: None, chars: vec![], wrap: vec![] };
            p.inline(0, &None, depth > 0, &mut b)?;
            if depth > 1 { p.need("}")? }
            ensure!(p.rest().is_empty(), "{:?} after the cell {part:?}", p.rest());
            ensure!(c + cs <= cols, "row {r} of the tabular has more than {cols} columns: {line:?}");
            match cells.iter().find(|x| x.r <= r && r < x.r + x.rs && x.c <= c && c < x.c + x.cs) {
                Some(x) if x.r == r && x.c == c => {
                    ensure_eq!((rs, cs), (x.rs, x.cs), "row and column span of the cell at {r},{c} in {line:?}");
                    ensure!(b.chars == join(x, ' '), "cell {r},{c} reads as {} but the document has {}", short(&b.chars), short(&join(x, ' ')));
                }
                Some(x) => ensure!(x.r < r && b.chars.is_empty() && rs == 1 && c + cs <= x.c + x.cs, "{part:?} stands at {r},{c}, a place covered by the cell at {},{} in {line:?}", x.r, x.c),
                None => fail!("no cell at {r},{c}"),
            }
            c += cs;
        }
        ensure_eq!(c, cols, "columns in row {r} of the tabular: {line:?}");
    }
    if let Some(x) = diff(&a, &observe(&d)?) { fail!("exporting changed the document: {x}") }
    Ok(())
}
pub fn docx(t: &TD, st: &mut Stats) -> Check {
    let d = build_td(t)?;
    label(t, &flow(&d), st);
    crate::props::docx::docx_ok(&d)
}
