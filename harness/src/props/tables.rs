//! P09: a table is always an exact grid, and structure edits change nothing else.
use crate::engine::*;
use crate::obs::*;
use crate::props::html::set_html;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use text_document::*;

pub const RULE: &str = "Random histories of inserting and removing rows and columns, merging and splitting cells, table and cell formats, undo and redo on a table that was inserted or imported with contents, between other paragraphs; after every step the whole table and its surroundings are compared with a reference grid, and every grid position must belong to exactly one cell. Non-trivial: a merged cell is crossed by a later structure edit, or at least three structure edits took effect; counted distinct by the generated history.";

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Src { Inserted(u8, u8, String, u8), Html(Vec<Vec<String>>), Md(Vec<Vec<String>>) }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum T { InsRow(u8), InsCol(u8), DelRow(u8), DelCol(u8), Merge(u8, u8, u8, u8), Split(u8, u8, u8), Cell(u8, u8), Fmt(u8), Type(u8, u8, String), Para(u8, u8), Del(u8, u8), Undo, Redo, Remove }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case { pub src: Src, pub ops: Vec<T> }

#[derive(Debug, Clone, PartialEq)]
pub struct C { pub r: usize, pub c: usize, pub rs: usize, pub cs: usize, pub fmt: CellFormat, pub text: Vec<String> }
#[derive(Debug, Clone, PartialEq)]
pub struct G { pub rows: usize, pub cols: usize, pub widths: Vec<i32>, pub fmt: TableFormat, pub cells: Vec<C> }
impl G {
    pub fn owner(&self, r: usize, c: usize) -> Option<usize> { self.cells.iter().position(|x| x.r <= r && r < x.r + x.rs && x.c <= c && c < x.c + x.cs) }
    fn sort(&mut self) { self.cells.sort_by_key(|c| (c.r, c.c)) }
    fn fill(&mut self) {
        for r in 0..self.rows { for c in 0..self.cols {
            if self.owner(r, c).is_none() { self.cells.push(C { r, c, rs: 1, cs: 1, fmt: CellFormat::default(), text: vec![String::new()] }) }
        } }
        self.sort()
    }
}
/// What is around the table: everything but the table itself, without positions.
pub fn around(fl: &[OEl]) -> Vec<(Option<String>, BlockFormat)> {
    fl.iter().map(|e| match e { OEl::B(b) => (Some(b.text.clone()), b.fmt.clone()), OEl::T { .. } => (None, BlockFormat::default()), OEl::F { .. } => (Some("frame".into()), BlockFormat::default()) }).collect()
}
pub fn grid(fl: &[OEl]) -> Option<G> {
    fl.iter().find_map(|e| match e {
        OEl::T { rows, cols, widths, fmt, cells } => Some(G {
            rows: *rows, cols: *cols, widths: widths.clone(), fmt: fmt.clone(),
            cells: cells.iter().map(|c| C { r: c.r, c: c.c, rs: c.rs, cs: c.cs, fmt: c.fmt.clone(), text: c.blocks.iter().map(|b| b.text.clone()).collect() }).collect(),
        }),
        _ => None,
    })
}
pub fn handle(d: &TextDocument) -> Option<TextTable> { d.flow().into_iter().find_map(|e| match e { FlowElement::Table(t) => Some(t), _ => None }) }
pub fn cfmt(k: u8) -> CellFormat {
    CellFormat {
        padding: (k & 1 != 0).then_some(k as i32 % 7), border: (k & 2 != 0).then_some(1 + k as i32 % 3),
        vertical_alignment: (k & 4 != 0).then_some([CellVerticalAlignment::Top, CellVerticalAlignment::Middle, CellVerticalAlignment::Bottom][k as usize % 3]),
        background_color: (k & 8 != 0).then(|| format!("#{k:02x}0000")),
    }
}
pub fn tfmt(k: u8) -> TableFormat {
    TableFormat {
        border: (k & 1 != 0).then_some(k as i32 % 4), cell_spacing: (k & 2 != 0).then_some(k as i32 % 5), cell_padding: (k & 4 != 0).then_some(k as i32 % 6),
        width: (k & 8 != 0).then_some(100 + k as i32), alignment: (k & 16 != 0).then_some([Alignment::Left, Alignment::Center, Alignment::Right][k as usize % 3].clone()),
    }
}
/// The reference: what an edit does to the grid, or why it must be refused.
pub fn expect(g: &G, op: &T) -> std::result::Result<G, &'static str> {
    let mut n = g.clone();
    match *op {
        T::InsRow(i) => {
            let i = i as usize % (g.rows + 2);
            if i > g.rows { return Err("row index beyond the table") }
            for c in &mut n.cells { if c.r >= i { c.r += 1 } else if c.r + c.rs > i { c.rs += 1 } }
            n.rows += 1;
            n.fill();
        }
        T::InsCol(i) => {
            let i = i as usize % (g.cols + 2);
            if i > g.cols { return Err("column index beyond the table") }
            for c in &mut n.cells { if c.c >= i { c.c += 1 } else if c.c + c.cs > i { c.cs += 1 } }
            n.cols += 1;
            if n.widths.len() == g.cols { n.widths.insert(i, 0) }
            n.fill();
        }
        T::DelRow(i) => {
            let i = i as usize % (g.rows + 1);
            if i >= g.rows { return Err("row index beyond the table") }
            if g.rows == 1 { return Err("last row") }
            n.cells.retain(|c| !(c.r == i && c.rs == 1));
            for c in &mut n.cells { if c.r > i { c.r -= 1 } else if c.r + c.rs > i { c.rs -= 1 } }
            n.rows -= 1;
            n.sort();
        }
        T::DelCol(i) => {
            let i = i as usize % (g.cols + 1);
            if i >= g.cols { return Err("column index beyond the table") }
            if g.cols == 1 { return Err("last column") }
            n.cells.retain(|c| !(c.c == i && c.cs == 1));
            for c in &mut n.cells { if c.c > i { c.c -= 1 } else if c.c + c.cs > i { c.cs -= 1 } }
            n.cols -= 1;
            n.sort();
            if i < n.widths.len() { n.widths.remove(i); }
        }
        T::Merge(a, b, h, w) => {
            let (r0, c0, r1, c1) = range(g, a, b, h, w);
            if r1 >= g.rows || c1 >= g.cols { return Err("range beyond the table") }
            if g.cells.iter().any(|c| (c.rs > 1 || c.cs > 1) && c.r <= r1 && c.r + c.rs > r0 && c.c <= c1 && c.c + c.cs > c0) { return Err("range touches a merged cell") }
            n.cells.retain(|c| !(c.r >= r0 && c.r <= r1 && c.c >= c0 && c.c <= c1) || (c.r, c.c) == (r0, c0));
            let c = n.cells.iter_mut().find(|c| (c.r, c.c) == (r0, c0)).unwrap();
            c.rs = r1 - r0 + 1;
            c.cs = c1 - c0 + 1;
        }
        T::Split(k, a, b) => {
            let k = pick(g, k);
            let (sr, sc) = parts(g, k, a, b);
            let c = n.cells[k].clone();
            if sr < 1 || sc < 1 { return Err("split into nothing") }
            if sr > c.rs || sc > c.cs { return Err("split finer than the merged cells") }
            if c.rs == 1 && c.cs == 1 { return Err("nothing to split") }
            let cuts = |len: usize, n: usize| -> Vec<(usize, usize)> { let mut at = 0; (0..n).map(|i| { let l = len / n + usize::from(i < len % n); at += l; (at - l, l) }).collect() };
            n.cells.remove(k);
            for (ro, rl) in cuts(c.rs, sr) { for (co, cl) in cuts(c.cs, sc) {
                let first = ro == 0 && co == 0;
                n.cells.push(C { r: c.r + ro, c: c.c + co, rs: rl, cs: cl, fmt: if first { c.fmt.clone() } else { CellFormat::default() }, text: if first { c.text.clone() } else { vec![String::new()] } });
            } }
            n.sort();
        }
        T::Cell(k, f) => {
            let k = k as usize % g.cells.len();
            let (o, f) = (&mut n.cells[k].fmt, cfmt(f));
            if f.padding.is_some() { o.padding = f.padding }
            if f.border.is_some() { o.border = f.border }
            if f.vertical_alignment.is_some() { o.vertical_alignment = f.vertical_alignment }
            if f.background_color.is_some() { o.background_color = f.background_color }
        }
        T::Fmt(f) => {
            let (o, f) = (&mut n.fmt, tfmt(f));
            if f.border.is_some() { o.border = f.border }
            if f.cell_spacing.is_some() { o.cell_spacing = f.cell_spacing }
            if f.cell_padding.is_some() { o.cell_padding = f.cell_padding }
            if f.width.is_some() { o.width = f.width }
            if f.alignment.is_some() { o.alignment = f.alignment }
        }
        T::Type(k, at, ref s) => { let c = cell_at(g, k); let (p, o) = place(&g.cells[c].text, at); let x = &mut n.cells[c].text[p]; let b = byte(x, o); x.insert_str(b, s) }
        T::Para(k, at) => { let c = cell_at(g, k); let (p, o) = place(&g.cells[c].text, at); let x = &mut n.cells[c].text; let b = byte(&x[p], o); let tail = x[p].split_off(b); x.insert(p + 1, tail) }
        T::Del(k, at) => { let c = cell_at(g, k); let (p, o) = place(&g.cells[c].text, at); let x = &mut n.cells[c].text[p]; if o >= x.chars().count() { return Err("nothing to delete in the paragraph") } let b = byte(x, o); x.remove(b); }
        _ => {}
    }
    Ok(n)
}
fn cell_at(g: &G, k: u8) -> usize { k as usize % g.cells.len() }
/// The cell to split: mostly a merged one, if there is one.
pub fn pick(g: &G, k: u8) -> usize {
    let m: Vec<usize> = (0..g.cells.len()).filter(|i| g.cells[*i].rs > 1 || g.cells[*i].cs > 1).collect();
    if m.is_empty() || k % 4 == 3 { cell_at(g, k) } else { m[k as usize % m.len()] }
}
/// The rectangle to merge: mostly within the table.
fn range(g: &G, a: u8, b: u8, h: u8, w: u8) -> (usize, usize, usize, usize) {
    let (r0, c0) = (a as usize % g.rows, b as usize % g.cols);
    let (r1, c1) = (r0 + h as usize % 3, c0 + w as usize % 3);
    if a / 16 == 7 { (r0, c0, r1, c1) } else { (r0, c0, r1.min(g.rows - 1), c1.min(g.cols - 1)) }
}
/// Into how many rows and columns to split: mostly not more than there are.
pub fn parts(g: &G, k: usize, a: u8, b: u8) -> (usize, usize) {
    if a >= 12 { (a as usize % 4, b as usize % 4) } else { (1 + a as usize % g.cells[k].rs, 1 + b as usize % g.cells[k].cs) }
}
/// Rows or columns of an inserted table.
fn dim(k: u8) -> usize { 1 + k as usize % if k < 100 { 4 } else { 13 } }
/// A paragraph of the cell and a character offset in it.
fn place(text: &[String], at: u8) -> (usize, usize) { let p = at as usize % text.len(); (p, at as usize / 7 % (text[p].chars().count() + 1)) }
fn byte(s: &str, o: usize) -> usize { s.char_indices().nth(o).map_or(s.len(), |x| x.0) }
pub fn apply(d: &TextDocument, g: &G, op: &T) -> std::result::Result<anyhow::Result<()>, String> {
    let t = handle(d).ok_or("no table in the flow")?;
    let c = d.cursor();
    let id = t.id();
    let cell = |k: usize| -> std::result::Result<usize, String> { let x = &g.cells[k]; Ok(t.cell(x.r, x.c).ok_or_else(|| format!("no cell handle at {},{}", x.r, x.c))?.id()) };
    Ok(match op.clone() {
        T::InsRow(i) => c.insert_table_row(id, i as usize % (g.rows + 2)),
        T::InsCol(i) => c.insert_table_column(id, i as usize % (g.cols + 2)),
        T::DelRow(i) => c.remove_table_row(id, i as usize % (g.rows + 1)),
        T::DelCol(i) => c.remove_table_column(id, i as usize % (g.cols + 1)),
        T::Merge(a, b, h, w) => { let (r0, c0, r1, c1) = range(g, a, b, h, w); c.merge_table_cells(id, r0, c0, r1, c1) }
        T::Split(k, a, b) => { let (sr, sc) = parts(g, pick(g, k), a, b); c.split_table_cell(cell(pick(g, k))?, sr, sc) },
        T::Cell(k, f) => c.set_table_cell_format(cell(cell_at(g, k))?, &cfmt(f)),
        T::Fmt(f) => c.set_table_format(id, &tfmt(f)),
        T::Type(k, at, _) | T::Para(k, at) | T::Del(k, at) => {
            let (p, o) = place(&g.cells[cell_at(g, k)].text, at);
            let fl = flow(d);
            let Some(OEl::T { cells, .. }) = fl.iter().find(|e| matches!(e, OEl::T { .. })) else { fail!("no table in the flow") };
            let c = d.cursor_at(cells[cell_at(g, k)].blocks[p].pos + o);
            // keystrokes would merge into one undo step; an edit block keeps one step each
            match op { T::Type(_, _, s) => { c.begin_edit_block(); let r = c.insert_text(s); c.end_edit_block(); r } T::Para(..) => c.insert_block(), _ => { if o >= g.cells[cell_at(g, k)].text[p].chars().count() { return Ok(Err(anyhow::anyhow!("nothing"))) } c.begin_edit_block(); let r = c.delete_char(); c.end_edit_block(); r } }
        }
        T::Remove => c.remove_table(id),
        T::Undo => d.undo(),
        T::Redo => d.redo(),
    })
}
/// The document against the reference grid, through every view of the table.
fn same(d: &TextDocument, want: &Option<G>, out: &[(Option<String>, BlockFormat)], what: &str) -> Check {
    let fl = flow(d);
    let got = grid(&fl);
    if let Some(g) = &got {
        for r in 0..g.rows { for c in 0..g.cols {
            let n = g.cells.iter().filter(|x| x.r <= r && r < x.r + x.rs && x.c <= c && c < x.c + x.cs).count();
            ensure!(n == 1, "{what}: position {r},{c} of the {}x{} table belongs to {n} cells: {:?}", g.rows, g.cols, brief(g));
        } }
        for c in &g.cells { ensure!(c.rs >= 1 && c.cs >= 1 && c.r + c.rs <= g.rows && c.c + c.cs <= g.cols, "{what}: cell {c:?} leaves the {}x{} table", g.rows, g.cols) }
    }
    match (&got, want) {
        (Some(g), Some(w)) => {
            ensure_eq!((g.rows, g.cols), (w.rows, w.cols), "{what}: rows and columns");
            ensure_eq!(brief(g), brief(w), "{what}: cells (row, column, spans, text)");
            ensure_eq!(g.widths, w.widths, "{what}: column widths");
            ensure_eq!(g.fmt, w.fmt, "{what}: table format");
            for (a, b) in g.cells.iter().zip(&w.cells) { ensure_eq!(a.fmt, b.fmt, "{what}: format of the cell at {},{}", b.r, b.c) }
        }
        (None, None) => {}
        _ => fail!("{what}: table in the flow: {}, expected: {}", got.is_some(), want.is_some()),
    }
    let o: Vec<_> = around(&fl).into_iter().filter(|(t, _)| want.is_some() || t.is_some()).collect();
    let w: Vec<_> = out.iter().filter(|(t, _)| want.is_some() || t.is_some()).cloned().collect();
    ensure_eq!(o, w, "{what}: paragraphs around the table");
    if let Some(w) = want {
        let t = handle(d).ok_or("no table handle")?;
        ensure_eq!((t.rows(), t.columns(), t.column_widths(), t.format()), (w.rows, w.cols, w.widths.clone(), w.fmt.clone()), "{what}: table handle");
        for r in 0..w.rows { for c in 0..w.cols {
            let x = w.cells.iter().find(|x| (x.r, x.c) == (r, c));
            let h = t.cell(r, c);
            ensure!(h.is_some() == x.is_some(), "{what}: cell({r}, {c}) is {}", if h.is_some() { "there although no cell begins there" } else { "missing" });
            if let (Some(h), Some(x)) = (h, x) {
                ensure_eq!((h.row(), h.column(), h.row_span(), h.column_span(), h.format()), (x.r, x.c, x.rs, x.cs, x.fmt.clone()), "{what}: cell handle {r},{c}");
                let bl = h.blocks();
                ensure_eq!(bl.iter().map(|b| b.text()).collect::<Vec<_>>(), x.text, "{what}: blocks of the cell handle {r},{c}");
                for b in bl { let tc = b.table_cell().ok_or_else(|| format!("{what}: a block of cell {r},{c} does not know its cell"))?; ensure_eq!((tc.table.id(), tc.row, tc.column), (t.id(), r, c), "{what}: table_cell() of a block in the cell") }
            }
        } }
        let html = d.to_html().map_err(|e| format!("{e:#}"))?;
        let cells = html.matches("<td").count() + html.matches("<th").count() - html.matches("<thead").count();
        ensure_eq!(cells, w.cells.len(), "{what}: cells in the HTML export {html:?}");
        let spans: usize = w.cells.iter().filter(|c| c.rs > 1).count();
        ensure_eq!(html.matches("rowspan=").count(), spans, "{what}: row spans in the HTML export {html:?}");
        let spans: usize = w.cells.iter().filter(|c| c.cs > 1).count();
        ensure_eq!(html.matches("colspan=").count(), spans, "{what}: column spans in the HTML export {html:?}");
    }
    ensure_eq!(d.stats().table_count, usize::from(want.is_some()), "{what}: tables in the statistics");
    let mut lv = vec![];
    leaves(&fl, &mut lv);
    ensure_eq!(d.block_count(), lv.len(), "{what}: block_count()");
    for p in lv.windows(2) { ensure_eq!(p[1].pos, p[0].pos + p[0].len + 1, "{what}: position of the block after {:?}", p[0].text) }
    ensure_eq!(d.character_count(), lv.iter().map(|b| b.text.chars().count()).sum::<usize>(), "{what}: character_count()");
    Ok(())
}
pub fn brief(g: &G) -> Vec<(usize, usize, usize, usize, String)> { g.cells.iter().map(|c| (c.r, c.c, c.rs, c.cs, c.text.join("⏎"))).collect() }
fn esc(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;") }
pub fn make(s: &Src) -> std::result::Result<TextDocument, String> {
    let d = TextDocument::new();
    let er = |e: anyhow::Error| format!("setup: {e:#}");
    match s {
        Src::Inserted(r, c, t, at) => {
            d.set_plain_text(t).map_err(er)?;
            let b = d.blocks();
            let b = &b[*at as usize % b.len()];
            d.cursor_at(b.position() + b.length()).insert_table(dim(*r), dim(*c)).map_err(er)?;
            d.clear_undo_redo();
        }
        Src::Html(v) => {
            let rows: String = v.iter().map(|r| format!("<tr>{}</tr>", r.iter().map(|c| format!("<td>{}</td>", esc(c))).collect::<String>())).collect();
            set_html(&d, &format!("<p>before</p><table>{rows}</table><p>after</p>"))?;
        }
        Src::Md(v) => {
            let row = |r: &[String]| format!("|{}|\n", r.join("|"));
            let m = format!("before\n\n{}{}{}\nafter\n", row(&v[0]), row(&vec!["-".to_string(); v[0].len()]), v[1..].iter().map(|r| row(r)).collect::<String>());
            crate::props::md::set_md(&d, &m)?;
        }
    }
    Ok(d)
}
fn check(c: &Case, st: &mut Stats) -> Check {
    let d = make(&c.src)?;
    let fl = flow(&d);
    let out = around(&fl);
    let g0 = grid(&fl).ok_or("setup: no table")?;
    if let Src::Html(v) | Src::Md(v) = &c.src {
        let want: Vec<Vec<String>> = v.iter().map(|r| r.iter().map(|t| t.trim().to_string()).collect()).collect();
        let got: Vec<Vec<String>> = (0..g0.rows).map(|r| g0.cells.iter().filter(|c| c.r == r).map(|c| c.text.concat()).collect()).collect();
        ensure_eq!(got, want, "contents of the imported table");
    }
    if let Src::Inserted(r, k, ..) = &c.src { ensure_eq!((g0.rows, g0.cols), (dim(*r), dim(*k)), "size of the inserted table") }
    let mut tl: Vec<Option<G>> = vec![Some(g0)];
    let mut cur = 0usize;
    same(&d, &tl[0], &out, "after setup")?;
    let (mut took, mut crossed) = (0, false);
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("step {i} ({op:?})");
        match op {
            T::Undo | T::Redo => {
                let to = if matches!(op, T::Undo) { cur.checked_sub(1) } else { (cur + 1 < tl.len()).then_some(cur + 1) };
                let Some(to) = to else { continue };
                let g = tl[cur].clone().unwrap_or_else(|| tl[0].clone().unwrap());
                let r = if tl[cur].is_some() { apply(&d, &g, op)? } else if matches!(op, T::Undo) { d.undo() } else { d.redo() };
                r.map_err(|e| format!("{what}: {e:#}"))?;
                cur = to;
                st.label(if matches!(op, T::Undo) { "undo" } else { "redo" });
            }
            _ => {
                let Some(g) = tl[cur].clone() else { continue };
                let want = if matches!(op, T::Remove) { Ok(None) } else { expect(&g, op).map(Some) };
                let r = apply(&d, &g, op)?;
                match (r, want) {
                    (Ok(()), Ok(w)) => {
                        if matches!(op, T::InsRow(_) | T::InsCol(_) | T::DelRow(_) | T::DelCol(_)) && g.cells.iter().any(|c| c.rs > 1 || c.cs > 1) { crossed = true; st.label("edit of a table with merged cells") }
                        tl.truncate(cur + 1);
                        tl.push(w);
                        cur += 1;
                        took += 1;
                        st.label("edit");
                    }
                    (Err(_), Err(why)) => st.label(&format!("refused: {why}")),
                    (Ok(()), Err(why)) => fail!("{what}: accepted although it must be refused ({why})"),
                    (Err(e), Ok(_)) => fail!("{what}: refused: {e:#}"),
                }
            }
        }
        same(&d, &tl[cur], &out, &what)?;
    }
    while cur > 0 { d.undo().map_err(|e| format!("undo at the end: {e:#}"))?; cur -= 1; same(&d, &tl[cur], &out, "undoing everything")?; }
    if crossed || took >= 3 { st.nontrivial() }
    Ok(())
}
fn word() -> impl Strategy<Value = String> + Clone { prop_oneof![3 => "[a-c]{1,3}", 1 => Just("é日".to_string()), 1 => Just("a b".to_string()), 1 => Just(String::new())] }
pub fn rows() -> impl Strategy<Value = Vec<Vec<String>>> + Clone { (1usize..4, 1usize..4).prop_flat_map(|(r, c)| proptest::collection::vec(proptest::collection::vec(word(), c), r)) }
fn size() -> impl Strategy<Value = u8> + Clone { prop_oneof![12 => 0u8..4, 1 => 100u8..=255] }
pub fn src() -> impl Strategy<Value = Src> + Clone {
    prop_oneof![
        2 => (size(), size(), prop_oneof![Just("".to_string()), Just("one".to_string()), Just("one\ntwo\nthree".to_string()), Just("é\n\nz".to_string())], any::<u8>()).prop_map(|(a, b, t, k)| Src::Inserted(a, b, t, k)),
        3 => rows().prop_map(Src::Html),
        1 => rows().prop_map(Src::Md),
    ]
}
pub fn op() -> impl Strategy<Value = T> + Clone {
    prop_oneof![
        3 => any::<u8>().prop_map(T::InsRow), 3 => any::<u8>().prop_map(T::InsCol), 2 => any::<u8>().prop_map(T::DelRow), 2 => any::<u8>().prop_map(T::DelCol),
        7 => (any::<u8>(), any::<u8>(), 0u8..3, 0u8..3).prop_map(|(a, b, h, w)| T::Merge(a, b, h, w)), 3 => (any::<u8>(), 0u8..16, 0u8..12).prop_map(|(k, a, b)| T::Split(k, a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(k, f)| T::Cell(k, f)), 1 => any::<u8>().prop_map(T::Fmt), 3 => Just(T::Undo), 2 => Just(T::Redo), 1 => Just(T::Remove),
        3 => (any::<u8>(), any::<u8>(), prop_oneof![Just("x".to_string()), Just("é".to_string()), Just("ab".to_string())]).prop_map(|(k, a, s)| T::Type(k, a, s)), 2 => (any::<u8>(), any::<u8>()).prop_map(|(k, a)| T::Para(k, a)), 1 => (any::<u8>(), any::<u8>()).prop_map(|(k, a)| T::Del(k, a)),
    ]
}
fn strat() -> impl Strategy<Value = Case> + Clone {
    (src(), proptest::collection::vec(op(), 0..22)).prop_map(|(src, ops)| Case { src, ops })
}
pub fn run(c: &mut Ctx) { let n = c.cases(30_000, 400_000); c.sub("grid", n, strat, check); }
