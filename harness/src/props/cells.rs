//! P26: in a document with a table every position, cursor and cell selection
//! agrees with the flow and the grid.
use crate::engine::*;
use crate::obs::*;
use crate::props::tables::{self, C, G};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use text_document::*;

pub const RULE: &str = "Random histories of structure edits, typing, new and deleted paragraphs inside and around the table, commands at the cursor, undo and redo; after every step every position of the document is looked up through every view, and generated selections, cell ranges and copies are compared with what the flow and the grid give. Non-trivial: at least two edits took effect and a selection of cells was compared; counted distinct by the generated history.";

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum K {
    T(tables::T),
    /// outside the table: paragraph, offset
    Type(u8, u8, String), Enter(u8, u8), Del(u8, u8),
    /// at a cursor in a cell: cell, position in it
    Above(u8, u8), Below(u8, u8), Before(u8, u8), After(u8, u8), DelRow(u8, u8), DelCol(u8, u8), DelTable(u8, u8), Split(u8, u8, u8, u8), Fmt(u8, u8, u8), CellFmt(u8, u8, u8),
    /// from one position in the document to another
    Merge(u16, u16), Select(u16, u16), Range(u8, u8, u8, u8), Cell(u8),
    /// the copy of a selection goes to a position of another document
    Paste(u16, u16, u8, u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub src: tables::Src,
    /// what else the document has, besides the table and the paragraphs around it
    #[serde(default)]
    pub extra: u8,
    pub ops: Vec<K>,
}

/// A paragraph of the flow: position, length, text, cell.
#[derive(Debug, Clone, PartialEq)]
struct Leaf { pos: usize, len: usize, text: String, cell: Option<(usize, usize)>, other: Option<(usize, usize)>, fmt: BlockFormat }
fn lv(fl: &[OEl]) -> Vec<Leaf> {
    fn walk(fl: &[OEl], first: &mut bool, v: &mut Vec<Leaf>) {
        for e in fl {
            match e {
                OEl::B(b) => v.push(Leaf { pos: b.pos, len: b.len, text: b.text.clone(), cell: None, other: None, fmt: b.fmt.clone() }),
                OEl::T { cells, .. } => {
                    for c in cells { for b in &c.blocks { let k = Some((c.r, c.c)); v.push(Leaf { pos: b.pos, len: b.len, text: b.text.clone(), cell: if *first { k } else { None }, other: if *first { None } else { k }, fmt: b.fmt.clone() }) } }
                    *first = false;
                }
                OEl::F { els, .. } => walk(els, first, v),
            }
        }
    }
    let mut v = vec![];
    walk(fl, &mut true, &mut v);
    v
}
fn make(case: &Case) -> std::result::Result<TextDocument, String> {
    let tables::Src::Html(v) = &case.src else { return tables::make(&case.src) };
    if case.extra == 0 { return tables::make(&case.src) }
    let esc = |s: &str| s.replace('&', "&amp;").replace('<', "&lt;");
    let t = format!("<table>{}</table>", v.iter().map(|r| format!("<tr>{}</tr>", r.iter().map(|c| format!("<td>{}</td>", esc(c))).collect::<String>())).collect::<String>());
    let q = |k: u8, s: &str| if case.extra & k != 0 { s.to_string() } else { String::new() };
    let two = "<table><tr><td>r</td><td></td></tr><tr><td>st</td><td>u</td></tr></table>";
    let h = format!("{}<p>before</p>{}{t}<p>mid</p>{}{}<p>after</p>", q(1, "<blockquote><p>q</p></blockquote>"), q(8, two), q(2, two), q(4, "<blockquote><p>w</p><p>xyz</p></blockquote>"));
    let d = TextDocument::new();
    crate::props::html::set_html(&d, &h)?;
    Ok(d)
}
fn at(v: &[Leaf], p: usize) -> usize { v.iter().position(|l| l.pos <= p && p <= l.pos + l.len).unwrap_or(v.len() - 1) }
fn end(v: &[Leaf]) -> usize { let l = v.last().unwrap(); l.pos + l.len }
fn cell_of(c: &TextCursor) -> Option<(usize, usize)> { c.current_table_cell().map(|x| (x.row, x.column)) }

fn listed(d: &TextDocument, v: &[Leaf]) -> Check {
    ensure_eq!(d.blocks().iter().map(|b| (b.position(), b.length(), b.text(), b.table_cell().map(|c| (c.row, c.column)))).collect::<Vec<_>>(), v.iter().map(|l| (l.pos, l.len, l.text.clone(), l.cell.or(l.other))).collect::<Vec<_>>(), "blocks() against the flow");
    Ok(())
}
/// Every way of looking at every position.
fn positions(d: &TextDocument, v: &[Leaf]) -> Check {
    let blocks = d.blocks();
    listed(d, v)?;
    for (i, b) in blocks.iter().enumerate() {
        ensure_eq!(b.block_number(), i, "block_number() of {:?} at {}", v[i].text, v[i].pos);
        ensure_eq!(d.block_by_number(i).map(|x| x.id()), Some(b.id()), "block_by_number({i})");
        let sn = b.snapshot();
        ensure_eq!((sn.position, sn.length, &sn.text), (v[i].pos, v[i].len, &v[i].text), "snapshot() of block {i}");
        let sn = d.snapshot_block_at_position(v[i].pos).ok_or_else(|| format!("snapshot_block_at_position({}): nothing", v[i].pos))?;
        ensure_eq!((sn.block_id, sn.position, sn.length), (b.id(), v[i].pos, v[i].len), "snapshot_block_at_position({})", v[i].pos);
        ensure_eq!(d.text_at(v[i].pos, v[i].len).map_err(|e| format!("{e:#}"))?, v[i].text, "text_at({}, {})", v[i].pos, v[i].len);
    }
    for p in 0..=end(v) {
        let (i, l) = { let i = at(v, p); (i, &v[i]) };
        let c = d.cursor_at(p);
        ensure_eq!(c.position(), p, "cursor_at({p})");
        ensure_eq!(cell_of(&c), l.cell.or(l.other), "current_table_cell() at {p}, in {:?}", l.text);
        ensure_eq!(c.current_table().is_some(), l.cell.or(l.other).is_some(), "current_table() at {p}");
        ensure_eq!((c.block_number(), c.position_in_block(), c.at_block_start(), c.at_block_end()), (i, p - l.pos, p == l.pos, p == l.pos + l.len), "block_number(), position_in_block(), at_block_start/end() at {p}");
        ensure_eq!((c.at_start(), c.at_end()), (p == 0, p == end(v)), "at_start/end() at {p}");
        ensure_eq!(c.block_format().map_err(|e| format!("block_format() at {p}: {e:#}"))?, l.fmt, "block_format() at {p}");
        // the separator after a non-empty block belongs to the next one
        let j = if p == l.pos + l.len && l.len > 0 && i + 1 < v.len() { i + 1 } else { i };
        let info = d.block_at(p).map_err(|e| format!("block_at({p}): {e:#}"))?;
        ensure_eq!((info.block_id, info.block_number, info.start, info.length), (blocks[j].id(), j, v[j].pos, v[j].len), "block_at({p})");
        ensure_eq!(d.block_at_position(p).map(|b| b.id()), Some(blocks[j].id()), "block_at_position({p})");
        for (op, want) in [
            (MoveOperation::StartOfBlock, l.pos), (MoveOperation::EndOfBlock, l.pos + l.len),
            (MoveOperation::NextBlock, v.get(i + 1).map_or(end(v), |n| n.pos)), (MoveOperation::PreviousBlock, if i > 0 { v[i - 1].pos } else { 0 }),
            (MoveOperation::NextCharacter, (p + 1).min(end(v))), (MoveOperation::PreviousCharacter, p.saturating_sub(1)),
            (MoveOperation::Start, 0), (MoveOperation::End, end(v)),
        ] {
            let c = d.cursor_at(p);
            let o = format!("{op:?}");
            c.move_position(op, MoveMode::MoveAnchor, 1);
            ensure_eq!((c.position(), c.anchor()), (want, want), "{o} from {p}");
        }
    }
    Ok(())
}
/// The smallest rectangle around two cells that cuts no cell.
fn rect(g: &G, mut r: (usize, usize, usize, usize)) -> (usize, usize, usize, usize) {
    loop {
        let o = r;
        for c in &g.cells {
            if c.r <= r.2 && c.r + c.rs > r.0 && c.c <= r.3 && c.c + c.cs > r.1 { r = (r.0.min(c.r), r.1.min(c.c), r.2.max(c.r + c.rs - 1), r.3.max(c.c + c.cs - 1)) }
        }
        if o == r { return r }
    }
}
fn inside(g: &G, r: (usize, usize, usize, usize)) -> Vec<&C> { g.cells.iter().filter(|c| c.r >= r.0 && c.r <= r.2 && c.c >= r.1 && c.c <= r.3).collect() }
/// From the first to the last position of the cells of a rectangle.
fn span(v: &[Leaf], g: &G, r: (usize, usize, usize, usize)) -> (usize, usize) {
    let c = inside(g, r);
    let w: Vec<&Leaf> = v.iter().filter(|l| c.iter().any(|c| l.cell == Some((c.r, c.c)))).collect();
    (w.iter().map(|l| l.pos).min().unwrap(), w.iter().map(|l| l.pos + l.len).max().unwrap() + 1)
}
fn tup(r: &CellRange) -> (usize, usize, usize, usize) { (r.start_row, r.start_col, r.end_row, r.end_col) }
/// The queries about a selection of cells agree with the rectangle.
fn selected(c: &TextCursor, g: &G, t: usize, want: Option<(usize, usize, usize, usize)>, what: &str) -> Check {
    ensure_eq!(c.is_cell_selection(), want.is_some(), "{what}: is_cell_selection()");
    let r = c.selected_cell_range();
    ensure_eq!(r.as_ref().map(tup), want, "{what}: selected_cell_range()");
    if let Some(r) = &r { ensure_eq!(r.table_id, t, "{what}: table of the selected cells") }
    let cells: Vec<_> = c.selected_cells().iter().map(|x| (x.row, x.column)).collect();
    ensure_eq!(cells, want.map_or(vec![], |r| inside(g, r).iter().map(|c| (c.r, c.c)).collect()), "{what}: selected_cells()");
    Ok(())
}
/// What copying gives: the texts in order, and the table when more than one cell is touched.
fn copies(c: &TextCursor, g: &G, v: &[Leaf], a: usize, b: usize, what: &str) -> Check {
    let f = c.selection();
    let touched: std::collections::BTreeSet<_> = v.iter().filter(|l| l.pos < b && l.pos + l.len >= a).map(|l| l.cell).collect();
    let whole = touched.len() > 1;
    let want: Vec<String> = v.iter().filter(|l| l.pos < b && l.pos + l.len >= a || whole && l.cell.is_some()).map(|l| match l.cell { Some(_) if whole => l.text.clone(), _ => cut(l, a, b) }).collect();
    ensure_eq!(f.to_plain_text().to_string(), want.join("\n"), "{what}: plain text of the copy");
    let d = TextDocument::new();
    d.cursor().insert_fragment(&f).map_err(|e| format!("{what}: pasting the copy: {e:#}"))?;
    let p = tables::grid(&flow(&d));
    ensure!(p.is_some() == whole, "{what}: the copy {} a table", if whole { "lacks" } else { "has" });
    let mut g = g.clone();
    let h = d.to_html().map_err(|e| format!("{e:#}"))?;
    if let Some(mut p) = p {
        ensure_eq!((p.rows, p.cols, tables::brief(&p)), (g.rows, g.cols, tables::brief(&g)), "{what}: table pasted from the copy");
        (g.widths, p.widths) = (vec![], vec![]);
        ensure_eq!(p, g, "{what}: formats of the table pasted from the copy");
        let got: Vec<String> = lv(&flow(&d)).iter().filter(|l| l.cell.is_none() && !l.text.is_empty()).map(|l| l.text.clone()).collect();
        let out: Vec<String> = v.iter().filter(|l| l.cell.is_none() && l.pos < b && l.pos + l.len >= a).map(|l| cut(l, a, b)).filter(|t| !t.is_empty()).collect();
        ensure_eq!(got, out, "{what}: text around the table pasted from the copy");
        ensure_eq!(f.to_html().matches("<table").count(), h.matches("<table").count(), "{what}: tables in the HTML of the copy");
    }
    Ok(())
}
const TARGETS: [&str; 6] = ["", "mn", "mn\nop", "\nmn", "mn\n", "mn\n\nop"];
/// Pasting a copy: nothing is lost, nothing moves, and undo takes it all back.
fn paste(f: &DocumentFragment, g: &G, v: &[Leaf], a: usize, b: usize, k: u8, p: u8, st: &mut Stats, what: &str) -> Check {
    let parts: Vec<&Leaf> = v.iter().filter(|l| l.pos < b && l.pos + l.len >= a).collect();
    let whole = parts.iter().map(|l| l.cell).collect::<std::collections::BTreeSet<_>>().len() > 1;
    if a == b || parts.is_empty() { return Ok(()) }
    let out: Vec<&&Leaf> = parts.iter().filter(|l| l.cell.is_none()).collect();
    let before: String = parts.iter().take_while(|l| l.cell.is_none() || !whole).map(|l| cut(l, a, b)).collect();
    let after: String = if whole { parts.iter().skip_while(|l| l.cell.is_none()).filter(|l| l.cell.is_none()).map(|l| cut(l, a, b)).collect() } else { String::new() };
    let t = TARGETS[k as usize % 6];
    let d = TextDocument::new();
    d.set_plain_text(t).map_err(|e| format!("{e:#}"))?;
    let p = p as usize % (t.chars().count() + 1);
    let o = observe(&d)?;
    let c = d.cursor_at(p);
    let what = format!("{what}: pasting it at {p} of {t:?}");
    if let Err(e) = c.insert_fragment(f) { ensure!(before.is_empty() && !whole, "{what}: {e:#}"); return Ok(()) }
    let fl = flow(&d);
    let lines = |s: &str| s.replace('\n', "");
    let got: String = fl.iter().map(|e| match e { OEl::B(b) => b.text.clone(), OEl::T { .. } => "#".into(), OEl::F { .. } => "?".into() }).collect();
    let cs: Vec<char> = t.chars().collect();
    let (l, r): (String, String) = (cs[..p].iter().collect(), cs[p..].iter().collect());
    if whole && out.is_empty() {
        // a table goes before or after the paragraph
        let s = cs[..p].iter().rposition(|c| *c == '\n').map_or(0, |i| i + 1);
        let e = cs[p..].iter().position(|c| *c == '\n').map_or(cs.len(), |i| i + p);
        let at = |i: usize| format!("{}#{}", lines(&cs[..i].iter().collect::<String>()), lines(&cs[i..].iter().collect::<String>()));
        ensure!(got == at(e) || p == s && got == at(s), "{what}: gives {got:?} instead of {:?}", at(e));
        st.label("table pasted");
    } else {
        let want = format!("{}{before}{}{after}{}", lines(&l), if whole { "#" } else { "" }, lines(&r));
        ensure_eq!(got, want, "{what}: text (# is the table)");
        st.label(if whole { "table with text pasted" } else { "text pasted" });
    }
    ensure_eq!(tables::grid(&fl).map(|p| tables::brief(&p)), whole.then(|| tables::brief(g)), "{what}: the table");
    let lv1 = lv(&fl);
    positions(&d, &lv1).map_err(|m| format!("{what}: {m}"))?;
    ensure!(c.position() <= end(&lv1) && c.position() == c.anchor(), "{what}: cursor at {} to {}", c.anchor(), c.position());
    let o1 = observe(&d)?;
    // the text around it can be edited
    let at = lv1[k as usize / 6 % lv1.len()].pos;
    let e = d.cursor_at(at);
    e.begin_edit_block();
    let r = e.insert_text("y");
    e.end_edit_block();
    r.map_err(|x| format!("{what}: typing at {at}: {x:#}"))?;
    let mut lv2 = lv1.clone();
    for l in &mut lv2 { if l.pos > at { l.pos += 1 } else if l.pos == at { l.text.insert(0, 'y'); l.len += 1 } }
    positions(&d, &lv2).map_err(|m| format!("{what}, typing at {at}: {m}"))?;
    d.undo().map_err(|e| format!("{what}: undo: {e:#}"))?;
    if let Some(x) = diff(&o1, &observe(&d)?) { fail!("{what}: undoing the typing: {x}") }
    d.undo().map_err(|e| format!("{what}: undo: {e:#}"))?;
    if let Some(x) = diff(&o, &observe(&d)?) { fail!("{what}: undoing the paste: {x}") }
    d.redo().map_err(|e| format!("{what}: redo: {e:#}"))?;
    if let Some(x) = diff(&o1, &observe(&d)?) { fail!("{what}: redoing the paste: {x}") }
    positions(&d, &lv1).map_err(|m| format!("{what}, redone: {m}"))?;
    Ok(())
}
fn cut(l: &Leaf, a: usize, b: usize) -> String { l.text.chars().skip(a.saturating_sub(l.pos)).take(b.min(l.pos + l.len).saturating_sub(a.max(l.pos))).collect() }

fn outside(v: &[Leaf], k: u8, o: u8) -> Option<(usize, usize)> {
    let w: Vec<&Leaf> = v.iter().filter(|l| l.cell.is_none()).collect();
    if w.is_empty() { return None }
    let l = w[k as usize % w.len()];
    Some((l.pos + o as usize % (l.len + 1), l.pos + l.len))
}
/// A position in cell `k`.
fn spot(g: &G, v: &[Leaf], k: u8, o: u8) -> (usize, C) { spot_in(g, v, k as usize % g.cells.len(), o) }
fn spot_in(g: &G, v: &[Leaf], k: usize, o: u8) -> (usize, C) {
    let c = &g.cells[k];
    let w: Vec<&Leaf> = v.iter().filter(|l| l.cell == Some((c.r, c.c))).collect();
    let l = w[o as usize % w.len()];
    (l.pos + (o as usize / 5) % (l.len + 1), c.clone())
}
fn check(case: &Case, st: &mut Stats) -> Check {
    let d = make(case)?;
    positions(&d, &lv(&flow(&d))).map_err(|m| format!("after setup: {m}"))?;
    let (mut took, mut cells) = (0, false);
    for (i, op) in case.ops.iter().enumerate() {
        let what = format!("step {i} ({op:?})");
        let fl = flow(&d);
        let v = lv(&fl);
        let Some(g) = tables::grid(&fl) else {
            if let K::T(tables::T::Undo) = op { d.undo().map_err(|e| format!("{what}: {e:#}"))?; }
            positions(&d, &lv(&flow(&d))).map_err(|m| format!("{what}: {m}"))?;
            continue
        };
        let t = tables::handle(&d).unwrap().id();
        // commands at the cursor do what the same command on the table does
        let by_cursor = |at: (usize, C), want: tables::T, f: &dyn Fn(&TextCursor) -> anyhow::Result<()>, st: &mut Stats| -> std::result::Result<bool, String> {
            let want = if matches!(want, tables::T::Remove) { let mut rest = fl.clone(); rest.remove(fl.iter().position(|e| matches!(e, OEl::T { .. })).unwrap()); Ok(tables::grid(&rest)) } else { tables::expect(&g, &want).map(Some) };
            let r = f(&d.cursor_at(at.0));
            let got = tables::grid(&flow(&d));
            match (r, want) {
                (Ok(()), Ok(w)) => { ensure_eq!(got, w, "{what}: the table afterwards"); st.label("command at the cursor"); Ok(true) }
                (Err(_), Err(_)) => { ensure_eq!(got.as_ref(), Some(&g), "{what}: the table after a refusal"); Ok(false) }
                (Ok(()), Err(e)) => fail!("{what}: accepted although {e}"),
                (Err(e), Ok(_)) => fail!("{what}: refused: {e:#}"),
            }
        };
        let er = |e: anyhow::Error| format!("{what}: {e:#}");
        let changed = match op {
            K::T(t) => {
                let r = tables::apply(&d, &g, t)?;
                r.is_ok()
            }
            K::Type(k, o, s) => match outside(&v, *k, *o) { Some((p, _)) => { d.cursor_at(p).insert_text(s).map_err(er)?; true } None => false },
            K::Enter(k, o) => match outside(&v, *k, *o) { Some((p, _)) => { d.cursor_at(p).insert_block().map_err(er)?; true } None => false },
            K::Del(k, o) => match outside(&v, *k, *o) { Some((p, e)) if p < e => { d.cursor_at(p).delete_char().map_err(er)?; true } _ => false },
            K::Above(k, o) => { let s = spot(&g, &v, *k, *o); let r = s.1.r as u8; by_cursor(s, tables::T::InsRow(r), &|c| c.insert_row_above(), st)? }
            K::Below(k, o) => { let s = spot(&g, &v, *k, *o); let r = s.1.r as u8; by_cursor(s, tables::T::InsRow(r + 1), &|c| c.insert_row_below(), st)? }
            K::Before(k, o) => { let s = spot(&g, &v, *k, *o); let r = s.1.c as u8; by_cursor(s, tables::T::InsCol(r), &|c| c.insert_column_before(), st)? }
            K::After(k, o) => { let s = spot(&g, &v, *k, *o); let r = s.1.c as u8; by_cursor(s, tables::T::InsCol(r + 1), &|c| c.insert_column_after(), st)? }
            K::DelRow(k, o) => { let s = spot(&g, &v, *k, *o); let r = s.1.r as u8; by_cursor(s, tables::T::DelRow(r), &|c| c.remove_current_row(), st)? }
            K::DelCol(k, o) => { let s = spot(&g, &v, *k, *o); let r = s.1.c as u8; by_cursor(s, tables::T::DelCol(r), &|c| c.remove_current_column(), st)? }
            K::DelTable(k, o) => { let s = spot(&g, &v, *k, *o); by_cursor(s, tables::T::Remove, &|c| c.remove_current_table(), st)? }
            K::Split(k, o, a, b) => { let s = spot_in(&g, &v, tables::pick(&g, *k), *o); by_cursor(s, tables::T::Split(*k, *a, *b), &|c| { let (sr, sc) = tables::parts(&g, tables::pick(&g, *k), *a, *b); c.split_current_cell(sr, sc) }, st)? }
            K::Fmt(k, o, f) => { let s = spot(&g, &v, *k, *o); by_cursor(s, tables::T::Fmt(*f), &|c| c.set_current_table_format(&tables::tfmt(*f)), st)? }
            K::CellFmt(k, o, f) => { let s = spot(&g, &v, *k, *o); by_cursor(s, tables::T::Cell((*k as usize % g.cells.len()) as u8, *f), &|c| c.set_current_cell_format(&tables::cfmt(*f)), st)? }
            K::Merge(..) | K::Select(..) | K::Paste(..) | K::Range(..) | K::Cell(..) if case.extra != 0 => continue,
            K::Merge(a, b) => {
                let n = end(&v) + 1;
                let (a, b) = (*a as usize % n, *b as usize % n);
                let (x, y) = (v[at(&v, a)].cell, v[at(&v, b)].cell);
                let c = d.cursor_at(a);
                let (Some(x), Some(y)) = (x, y) else {
                    if x.is_none() && y.is_none() { ensure!(c.merge_selected_cells().is_err(), "{what}: merged although the cursor is outside the table") }
                    continue
                };
                c.set_position(b, MoveMode::KeepAnchor);
                let (r0, c0, r1, c1) = (x.0.min(y.0), x.1.min(y.1), x.0.max(y.0), x.1.max(y.1));
                if r1 - r0 > 2 || c1 - c0 > 2 { continue }
                by_cursor((a, g.cells[0].clone()), tables::T::Merge(r0 as u8, c0 as u8, (r1 - r0) as u8, (c1 - c0) as u8), &|_| c.merge_selected_cells(), st)?
            }
            K::Select(a, b) => {
                let n = end(&v) + 1;
                let a = *a as usize % n;
                let b = if b % 3 == 0 { a + *b as usize / 3 % 4 } else { *b as usize } % n;
                let (x, y) = (v[at(&v, a)].cell, v[at(&v, b)].cell);
                let c = d.cursor_at(a);
                let walk = (b + v.len()) % 3 == 0;
                if walk { c.move_position(if b < a { MoveOperation::PreviousCharacter } else { MoveOperation::NextCharacter }, MoveMode::KeepAnchor, a.abs_diff(b)); }
                else { c.set_position(b, MoveMode::KeepAnchor) }
                // an endpoint in the table goes to the far side of it when the other is outside
                let prev = v.iter().position(|l| l.cell.is_some()).unwrap().checked_sub(1).map(|i| v[i].pos + v[i].len);
                let next = v.iter().rposition(|l| l.cell.is_some()).and_then(|i| v.get(i + 1)).map(|l| l.pos);
                let far = |inner: usize, outer: usize| if outer < inner { next.unwrap_or(inner) } else { prev.unwrap_or(inner) };
                let (wa, wb) = match (x, y) { (None, Some(_)) => (a, far(b, a)), (Some(_), None) => (far(a, b), b), _ => (a, b) };
                ensure_eq!((c.anchor(), c.position()), (wa, wb), "{what}: selecting from {a} to {b}");
                let whole = (0, 0, g.rows - 1, g.cols - 1);
                let (x, y) = (v[at(&v, wa)].cell, v[at(&v, wb)].cell);
                let first = v.iter().find(|l| l.cell.is_some()).unwrap().pos;
                let kind = c.selection_kind();
                match (x, y) {
                    _ if wa == wb => { ensure!(matches!(kind, SelectionKind::None), "{what}: selection_kind() {kind:?} of nothing"); selected(&c, &g, t, None, &what)? }
                    (Some(x), Some(y)) if x != y => {
                        let r = rect(&g, (x.0.min(y.0), x.1.min(y.1), x.0.max(y.0), x.1.max(y.1)));
                        ensure!(matches!(&kind, SelectionKind::Cells(q) if tup(q) == r), "{what}: selection_kind() {kind:?} instead of the cells {r:?}");
                        selected(&c, &g, t, Some(r), &what)?;
                        cells = true;
                        st.label("cells selected");
                        let (s, e) = span(&v, &g, r);
                        copies(&c, &g, &v, s, e, &what)?;
                    }
                    (Some(_), Some(_)) => {
                        ensure!(matches!(kind, SelectionKind::Text), "{what}: selection_kind() {kind:?} within a cell");
                        selected(&c, &g, t, None, &what)?;
                        st.label("text in a cell selected");
                        text(&c, &v, a, b, &what)?;
                    }
                    (None, None) if wa.min(wb) < first && first < wa.max(wb) => {
                        ensure!(matches!(&kind, SelectionKind::Mixed { cell_range, text_before: true, text_after: true } if tup(cell_range) == whole), "{what}: selection_kind() {kind:?} across the table");
                        selected(&c, &g, t, Some(whole), &what)?;
                        cells = true;
                        copies(&c, &g, &v, wa.min(wb), wa.max(wb), &what)?;
                        st.label("selected across the table");
                    }
                    (None, None) => {
                        ensure!(matches!(kind, SelectionKind::Text), "{what}: selection_kind() {kind:?} outside the table");
                        selected(&c, &g, t, None, &what)?;
                        text(&c, &v, a, b, &what)?;
                    }
                    (x, _) => {
                        let (o, i) = if x.is_none() { (wa, wb) } else { (wb, wa) };
                        ensure!(matches!(&kind, SelectionKind::Mixed { cell_range, text_before, text_after } if tup(cell_range) == whole && *text_before == (o < i) && *text_after == (o > i)), "{what}: selection_kind() {kind:?} with one end in the table");
                        selected(&c, &g, t, Some(whole), &what)?;
                        cells = true;
                        let (s, e) = span(&v, &g, whole);
                        copies(&c, &g, &v, s.min(o), e.max(o), &what)?;
                        st.label("selected with one end in the table");
                    }
                }
                continue
            }
            K::Paste(a, b, k, p) => {
                let n = end(&v) + 1;
                let c = d.cursor_at(*a as usize % n);
                c.set_position(*b as usize % n, MoveMode::KeepAnchor);
                let (a, b) = match c.selected_cell_range() {
                    Some(r) => { let (s, e) = span(&v, &g, tup(&r)); if matches!(c.selection_kind(), SelectionKind::Cells(_)) { (s, e) } else { (s.min(c.selection_start()), e.max(c.selection_end())) } }
                    None => (c.selection_start(), c.selection_end()),
                };
                paste(&c.selection(), &g, &v, a, b, *k, *p, st, &what)?;
                continue
            }
            K::Range(r0, c0, h, w) => {
                let (r0, c0) = (*r0 as usize % g.rows, *c0 as usize % g.cols);
                let (r1, c1) = ((r0 + *h as usize % 3).min(g.rows - 1), (c0 + *w as usize % 3).min(g.cols - 1));
                let c = d.cursor_at(*h as usize % (end(&v) + 1));
                let p = (c.position(), c.anchor());
                c.select_cell_range(t, r0, c0, r1, c1);
                let r = rect(&g, (r0, c0, r1, c1));
                ensure!(matches!(c.selection_kind(), SelectionKind::Cells(q) if tup(&q) == r), "{what}: selection_kind() {:?} instead of the cells {r:?}", c.selection_kind());
                selected(&c, &g, t, Some(r), &what)?;
                ensure_eq!((c.position(), c.anchor()), p, "{what}: position and anchor");
                let (s, e) = span(&v, &g, r);
                copies(&c, &g, &v, s, e, &what)?;
                selected(&c.clone(), &g, t, None, &format!("{what}: a clone of the cursor"))?;
                match h % 6 { 0 => c.clear_cell_selection(), 1 => c.set_position(p.0, MoveMode::MoveAnchor), 2 => c.set_position(p.0, MoveMode::KeepAnchor), 3 => c.select(SelectionType::BlockUnderCursor), 4 => { c.move_position(MoveOperation::StartOfBlock, MoveMode::KeepAnchor, 1); } _ => { c.move_position(MoveOperation::Start, MoveMode::MoveAnchor, 1); } }
                selected(&c, &g, t, None, &format!("{what}: afterwards"))?;
                cells = true;
                st.label("cell range selected");
                continue
            }
            K::Cell(k) => {
                let x = &g.cells[*k as usize % g.cells.len()];
                let c = d.cursor_at(0);
                c.select_table_cell(t, x.r, x.c);
                let cl: Vec<_> = c.selected_cells().iter().map(|x| (x.row, x.column)).collect();
                ensure_eq!(cl, vec![(x.r, x.c)], "{what}: selected_cells()");
                continue
            }
        };
        if changed { took += 1; st.label("edit") }
        let v = lv(&flow(&d));
        if i % 3 == 2 || i + 1 == case.ops.len() { positions(&d, &v) } else { listed(&d, &v) }.map_err(|m| format!("{what}: {m}"))?;
    }
    if case.extra != 0 && matches!(case.src, tables::Src::Html(_)) { st.label("beside quotations or another table") }
    if took >= 2 && (cells || case.extra != 0) { st.nontrivial() }
    Ok(())
}
/// A selection of text holds the text between its ends.
fn text(c: &TextCursor, v: &[Leaf], a: usize, b: usize, what: &str) -> Check {
    let (a, b) = (a.min(b), a.max(b));
    let want = |last: bool| v.iter().filter(|l| l.pos < b + usize::from(last) && l.pos + l.len >= a).map(|l| cut(l, a, b)).collect::<Vec<_>>().join("\n");
    ensure_eq!(c.selected_text().map_err(|e| format!("{e:#}"))?, want(true), "{what}: selected_text()");
    // a paragraph that the selection only reaches is not copied
    ensure_eq!(c.selection().to_plain_text().to_string(), want(false), "{what}: selection().to_plain_text()");
    Ok(())
}

fn strat() -> impl Strategy<Value = Case> {
    let w = || prop_oneof![Just("x".to_string()), Just("é".to_string()), Just("ab".to_string())];
    let p = || (any::<u8>(), any::<u8>());
    let op = prop_oneof![
        14 => tables::op().prop_map(K::T),
        3 => (any::<u8>(), any::<u8>(), w()).prop_map(|(a, b, s)| K::Type(a, b, s)), 3 => p().prop_map(|(a, b)| K::Enter(a, b)), 2 => p().prop_map(|(a, b)| K::Del(a, b)),
        1 => p().prop_map(|(a, b)| K::Above(a, b)), 1 => p().prop_map(|(a, b)| K::Below(a, b)), 1 => p().prop_map(|(a, b)| K::Before(a, b)), 1 => p().prop_map(|(a, b)| K::After(a, b)),
        1 => p().prop_map(|(a, b)| K::DelRow(a, b)), 1 => p().prop_map(|(a, b)| K::DelCol(a, b)), 1 => (p(), p()).prop_map(|((a, b), (c, e))| K::Split(a, b, c, e)),
        1 => (p(), any::<u8>()).prop_map(|((a, b), f)| K::Fmt(a, b, f)), 1 => (p(), any::<u8>()).prop_map(|((a, b), f)| K::CellFmt(a, b, f)),
        3 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| K::Merge(a, b)), 6 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| K::Select(a, b)),
        3 => (p(), p()).prop_map(|((a, b), (c, e))| K::Range(a, b, c, e)), 1 => any::<u8>().prop_map(K::Cell),
    ];
    let last = prop_oneof![6 => Just(None), 1 => p().prop_map(|(a, b)| Some(K::DelTable(a, b)))];
    let doc = prop_oneof![3 => (tables::src(), Just(0u8)), 1 => (tables::rows().prop_map(tables::Src::Html), 1u8..16)];
    (doc, proptest::collection::vec(op, 0..14), last).prop_map(|((src, extra), mut ops, l)| { ops.extend(l); Case { src, extra, ops } })
}
/// Large tables with many merged cells: what a range grows to.
fn ranges(case: &(u8, u8, Vec<(u8, u8, u8, u8)>, Vec<(u8, u8, u8, u8)>), st: &mut Stats) -> Check {
    let d = TextDocument::new();
    let er = |e: anyhow::Error| format!("{e:#}");
    let (rows, cols) = (4 + case.0 as usize % 4, 4 + case.1 as usize % 4);
    let c = d.cursor();
    let t = c.insert_table(rows, cols).map_err(er)?;
    for m in &case.2 {
        let (r, k) = (m.0 as usize % rows, m.1 as usize % cols);
        let _ = c.merge_table_cells(t.id(), r, k, (r + m.2 as usize % 3).min(rows - 1), (k + m.3 as usize % 3).min(cols - 1));
    }
    let g = tables::grid(&flow(&d)).ok_or("the table is missing")?;
    for (i, m) in case.3.iter().enumerate() {
        let (r, k) = (m.0 as usize % rows, m.1 as usize % cols);
        let (r1, k1) = ((r + m.2 as usize % 3).min(rows - 1), (k + m.3 as usize % 3).min(cols - 1));
        let c = d.cursor();
        c.select_cell_range(t.id(), r, k, r1, k1);
        let want = rect(&g, (r, k, r1, k1));
        selected(&c, &g, t.id(), Some(want), &format!("range {i}"))?;
        // the same from one cell to another
        let (Some(a), Some(b)) = (g.owner(r, k), g.owner(r1, k1)) else { fail!("no cell covers the place") };
        if a == b { continue }
        let (a, b) = (&g.cells[a], &g.cells[b]);
        let at = |c: &C| t.cell(c.r, c.c).map(|x| x.blocks()[0].position()).ok_or("cell handle missing");
        let c = d.cursor_at(at(a)?);
        c.set_position(at(b)?, MoveMode::KeepAnchor);
        let w2 = rect(&g, (a.r.min(b.r), a.c.min(b.c), a.r.max(b.r), a.c.max(b.c)));
        selected(&c, &g, t.id(), Some(w2), &format!("selection {i}"))?;
        if want != (r, k, r1, k1) { st.label("range grows"); st.nontrivial() }
    }
    Ok(())
}
fn strat_ranges() -> impl Strategy<Value = (u8, u8, Vec<(u8, u8, u8, u8)>, Vec<(u8, u8, u8, u8)>)> {
    let q = || (any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>());
    (any::<u8>(), any::<u8>(), proptest::collection::vec(q(), 3..12), proptest::collection::vec(q(), 3..20))
}
pub fn pastes() -> impl Strategy<Value = Case> {
    let q = (any::<u16>(), any::<u16>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, k, p)| K::Paste(a, b, k, p));
    (strat(), proptest::collection::vec(q, 1..4)).prop_map(|(mut c, q)| { c.ops.truncate(5); c.ops.retain(|o| !matches!(o, K::DelTable(..))); c.ops.extend(q); c })
}
pub fn run(c: &mut Ctx) {
    let n = c.cases(5000, 200_000); c.sub("cells", n, strat, check);
    let n = c.cases(3000, 100_000); c.sub("ranges", n, strat_ranges, ranges);
    if std::env::var("PASTE").is_ok() { let n = c.cases(4000, 100_000); c.sub("paste", n, pastes, check); }
}
