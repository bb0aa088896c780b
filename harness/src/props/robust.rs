//! P18: whatever the arguments and the state, calls end without panicking, reads change nothing, failed edits change nothing.
use crate::coh::coherent;
use crate::engine::*;
use crate::obs::*;
use crate::ops::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use text_document::*;

pub const RULE: &str = "Random editing histories mixed with calls of every public read and edit with wild arguments (numbers around and beyond the document and the integer types, unknown, stale and wrongly typed ids, control and object-replacement characters, malformed markup, nested and huge markup) and with stale block and list handles. Non-trivial: at least one edit happened and at least two wild calls; counted distinct by the generated history.";

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum N { Small(u8), End(i8), Big(u8), Block(u8), List(u8) }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum E { Op(Op), Undo, Redo, Keep, Stale(u8, N), Read(u8, N, N, String, u8), Edit(u8, N, N, String, u8) }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case { pub init: String, pub evs: Vec<E> }

pub const READS: u8 = 22;
pub const EDITS: u8 = 34;

fn num(w: &World, n: N) -> usize {
    match n {
        N::Small(k) => k as usize % 12,
        N::End(k) => (max_pos(&w.doc) as i64 + k as i64).max(0) as usize,
        N::Big(k) => [usize::MAX, i64::MAX as usize, i64::MAX as usize + 1, u32::MAX as usize, i32::MAX as usize + 1, 1_000_000, usize::MAX - 1][k as usize % 7],
        N::Block(k) => { let b = w.doc.blocks(); b[k as usize % b.len()].id() }
        N::List(k) => { let l = w.lists(); if l.is_empty() { 77 } else { l[k as usize % l.len()].id() } }
    }
}
const MOVES: [MoveOperation; 21] = { use MoveOperation::*; [NoMove, Start, End, StartOfLine, EndOfLine, StartOfBlock, EndOfBlock, StartOfWord, EndOfWord, PreviousBlock, NextBlock, PreviousCharacter, NextCharacter, PreviousWord, NextWord, Up, Down, Left, Right, WordLeft, WordRight] };
fn block_handle(b: &TextBlock, k: usize) {
    let _ = (b.text(), b.length(), b.is_empty(), b.is_valid(), b.id(), b.position(), b.block_number());
    let _ = (b.next().map(|b| b.id()), b.previous().map(|b| b.id()), b.table_cell().map(|c| c.row), b.block_format(), b.char_format_at(k), b.fragments().len());
    let _ = (b.list().map(|l| l.id()), b.list_item_index(), b.snapshot());
    if b.is_valid() { let f = b.frame(); let _ = (f.id(), f.format(), f.flow().len(), f.snapshot()); }
}
fn list_handle(l: &TextList, k: usize) {
    let _ = (l.id(), l.style(), l.indent(), l.prefix(), l.suffix(), l.count(), l.format());
    let _ = (l.item(k).map(|b| b.text()), l.item_marker(k.min(5_000_000)));
}
fn read(w: &World, k: u8, a: usize, b: usize, s: &str, f: u8) {
    let d = &w.doc;
    let o = FindOptions { case_sensitive: f & 1 != 0, whole_word: f & 2 != 0, use_regex: f & 4 != 0, search_backward: f & 8 != 0 };
    let mode = if f & 1 == 0 { MoveMode::MoveAnchor } else { MoveMode::KeepAnchor };
    let c = d.cursor_at(b);
    match k % READS {
        0 => { let _ = d.text_at(a, b); }
        1 => { let _ = d.block_at(a); }
        2 => { let _ = d.block_format_at(a); }
        3 => { let _ = d.block_at_position(a).map(|b| b.text()); }
        4 => { let _ = d.snapshot_block_at_position(a); }
        5 => { if let Some(b) = d.block_by_id(a) { block_handle(&b, 0) } }
        6 => { let _ = d.block_by_number(a).map(|b| b.text()); }
        7 => { let _ = d.blocks_in_range(a, b).len(); }
        8 => { let _ = d.find_element_at_position(a); }
        9 => { let _ = d.find(s, a, &o); }
        10 => { let _ = d.find_all(s, &o); }
        11 => { let _ = d.resource(s); }
        12 => { d.rehighlight_block(a); d.rehighlight() }
        13 => { c.set_position(a, mode); let _ = (c.char_format(), c.block_format(), c.block_number(), c.position_in_block(), c.at_block_start(), c.at_block_end(), c.at_start(), c.at_end(), c.selected_text(), c.selection_kind()); }
        14 => { c.move_position(MOVES[f as usize % 21], mode, a); let _ = c.selected_text(); }
        15 => { c.select([SelectionType::WordUnderCursor, SelectionType::LineUnderCursor, SelectionType::BlockUnderCursor, SelectionType::Document][f as usize % 4]); let s = c.selection(); let _ = (s.to_plain_text().len(), s.to_html(), s.to_markdown(), s.is_empty()); }
        16 => { c.set_position(a, MoveMode::KeepAnchor); let s = c.selection(); let _ = (s.to_html(), s.to_markdown(), c.current_list().map(|l| l.id()), c.current_table().map(|t| t.id()), c.current_table_cell().map(|t| t.row)); }
        17 => { c.select_table_cell(a, f as usize, b); let _ = (c.selected_cells().len(), c.selected_cell_range(), c.is_cell_selection(), c.selection_kind()); c.clear_cell_selection() }
        18 => { c.select_cell_range(a, b.min(3), f as usize, b.min(50), 300); let _ = (c.selected_cell_range(), c.is_cell_selection(), c.selection_kind()); c.clear_selection() }
        19 => { let f = DocumentFragment::from_html(s); let _ = (f.to_plain_text().len(), f.to_html(), f.to_markdown()); }
        20 => { let f = DocumentFragment::from_markdown(s); let _ = (f.to_plain_text().len(), f.to_html(), f.to_markdown()); }
        _ => { let _ = d.to_latex(s, f & 1 == 0); let _ = (d.poll_events().len(), d.is_modified(), d.title(), DocumentFragment::from_document(d).map(|f| f.to_html())); }
    }
}
fn edit(w: &World, k: u8, a: usize, b: usize, s: &str, f: u8) -> Result<()> {
    let d = &w.doc;
    let c = &w.cur;
    let i = a as i32;
    match k % EDITS {
        0 => { c.set_position(b, MoveMode::MoveAnchor); c.insert_text(s) }
        1 => { c.set_position(b, MoveMode::MoveAnchor); c.insert_formatted_text(s, &TextFormat { font_point_size: Some(a as u32), font_family: Some(s.into()), letter_spacing: Some(i), ..Default::default() }) }
        2 => { c.set_position(b, MoveMode::MoveAnchor); c.insert_html(s) }
        3 => { c.set_position(b, MoveMode::MoveAnchor); c.insert_markdown(s) }
        4 => { c.set_position(b, MoveMode::KeepAnchor); c.insert_fragment(&DocumentFragment::from_html(s)) }
        5 => c.set_block_format(&BlockFormat { top_margin: Some(i), left_margin: Some(-i.max(-5)), heading_level: Some(f), indent: Some(f), text_indent: Some(i), line_height: Some(f32::from_bits(a as u32)), background_color: Some(s.into()), code_language: Some(s.into()), is_code_block: Some(f & 1 == 0), ..Default::default() }),
        6 => { c.set_position(b, MoveMode::KeepAnchor); c.set_char_format(&TextFormat { font_point_size: Some(a as u32), font_weight: Some(a as u32), letter_spacing: Some(i), word_spacing: Some(i), font_family: Some(s.into()), ..Default::default() }) }
        7 => { c.set_position(b, MoveMode::KeepAnchor); c.merge_char_format(&TextFormat { anchor_href: Some(s.into()), is_anchor: Some(true), anchor_names: vec![s.into()], tooltip: Some(s.into()), ..Default::default() }) }
        8 => c.add_block_to_list(a, b),
        9 => c.remove_block_from_list(a),
        10 => c.remove_list_item(a, b),
        11 => c.set_list_format(a, &ListFormat { style: Some(lstyle(f)), indent: Some(f), prefix: Some(s.into()), suffix: Some(s.into()) }),
        12 => c.remove_table(a),
        13 => c.insert_table_row(a, b),
        14 => c.insert_table_column(a, b),
        15 => c.remove_table_row(a, b),
        16 => c.remove_table_column(a, b),
        17 => c.merge_table_cells(a, 0, 0, b, f as usize),
        18 => c.split_table_cell(a, b, f as usize),
        19 => c.set_table_format(a, &TableFormat { border: Some(i), ..Default::default() }),
        20 => c.set_table_cell_format(a, &CellFormat { padding: Some(i), ..Default::default() }),
        21 => match f % 11 {
            0 => c.insert_row_above(), 1 => c.insert_row_below(), 2 => c.insert_column_before(), 3 => c.insert_column_after(), 4 => c.remove_current_row(), 5 => c.remove_current_column(),
            6 => c.remove_current_table(), 7 => c.merge_selected_cells(), 8 => c.split_current_cell(a, b), 9 => c.set_current_table_format(&TableFormat::default()), _ => c.set_current_cell_format(&CellFormat::default()),
        },
        22 => if f & 1 == 0 { c.insert_table(0, a.min(9)).map(|_| ()) } else { c.insert_table(b.min(9), 0).map(|_| ()) },
        23 => d.replace_text(s, ["", "x", "\n", "a\r\nb", s][f as usize % 5], f & 1 == 0, &FindOptions { case_sensitive: f & 1 != 0, whole_word: f & 2 != 0, use_regex: f & 4 != 0, search_backward: f & 8 != 0 }).map(|_| ()),
        24 => { c.end_edit_block(); Ok(()) }
        25 => d.undo(),
        26 => d.redo(),
        27 => d.set_plain_text(s),
        28 => d.set_title(s),
        29 => d.add_resource(ResourceType::Other, s, s, s.as_bytes()),
        30 => { c.set_position(b, MoveMode::MoveAnchor); match f % 4 { 0 => c.delete_char(), 1 => c.delete_previous_char(), 2 => c.remove_selected_text().map(|_| ()), _ => c.insert_block() } }
        31 => c.add_current_block_to_list(a),
        32 => match f % 3 { 0 => c.remove_current_block_from_list(), 1 => c.set_current_list_format(&ListFormat { indent: Some(f), ..Default::default() }), _ => c.create_list(lstyle(f)) },
        _ => { if f & 1 == 0 { d.set_html(s)?.wait().map(|_| ()) } else { d.set_markdown(s)?.wait().map(|_| ()) } }
    }
}
fn check(c: &Case, st: &mut Stats) -> Check {
    let w = start(&c.init)?;
    let mut blocks: Vec<TextBlock> = vec![];
    let mut lists: Vec<TextList> = vec![];
    let (mut edits, mut wild, mut tabular) = (0, 0, false);
    let mut obs = observe(&w.doc)?;
    for (i, e) in c.evs.iter().enumerate() {
        let what = || format!("step {i} ({})", format!("{e:?}").chars().take(120).collect::<String>());
        let hist = (w.doc.can_undo(), w.doc.can_redo(), w.doc.is_modified());
        let mut reads = false;
        let mut failed = None;
        match e {
            E::Op(o) => match w.apply(o, st) { Some(Ok(())) => { edits += 1 } Some(Err(m)) => failed = Some(m), None => continue },
            E::Undo => if w.doc.can_undo() { w.doc.undo().map_err(|m| format!("{}: {m:#}", what()))?; edits += 1 },
            E::Redo => if w.doc.can_redo() { match w.doc.redo() { Ok(()) => edits += 1, Err(m) => failed = Some(m) } },
            E::Keep => { blocks = w.doc.blocks(); lists = w.lists() }
            E::Stale(k, n) => {
                reads = true;
                let n = num(&w, *n);
                if !blocks.is_empty() { block_handle(&blocks[*k as usize % blocks.len()], n) }
                if !lists.is_empty() { list_handle(&lists[*k as usize % lists.len()], n) }
            }
            E::Read(k, a, b, s, f) => { reads = true; wild += 1; read(&w, *k, num(&w, *a), num(&w, *b), s, *f); st.label("wild read") }
            E::Edit(k, a, b, s, f) => {
                wild += 1;
                let (a, b) = (num(&w, *a), num(&w, *b));
                match edit(&w, *k, a, b, s, *f) { Ok(()) => { edits += 1; st.label("wild edit") } Err(m) => { st.label("refused edit"); failed = Some(m) } }
            }
        }
        let o = observe(&w.doc).map_err(|m| format!("{}: {m}", what()))?;
        tabular |= o.stats.table_count > 0 || o.stats.frame_count > 1;
        // A group fails in the middle, and what a failed redo leaves is P02's.
        let half = matches!(e, E::Op(Op::Group(_)) | E::Redo | E::Edit(26, ..));
        if reads || (failed.is_some() && !half) {
            let why = match &failed { Some(m) => format!("failed ({m:#}) but changed the document", ), None => "is a read but changed the document".into() };
            if let Some(x) = diff(&obs, &o) { fail!("{} {why}: {x}", what()) }
            let h = (w.doc.can_undo(), w.doc.can_redo(), w.doc.is_modified());
            ensure!(h == hist, "{} {}: (can undo, can redo, modified) was {hist:?}, is {h:?}", what(), why.replace("changed the document", "changed the history"));
        }
        obs = o;
    }
    if !tabular { coherent(&w.doc, true).map_err(|m| format!("at the end: {m}"))? } else { st.label("tables or block quotes") }
    let mut n = 0;
    while w.doc.can_undo() && n < 200 { w.doc.undo().map_err(|m| format!("undoing everything: {m:#}"))?; n += 1 }
    if edits > 0 && wild >= 2 { st.nontrivial() }
    Ok(())
}
fn wild_text() -> impl Strategy<Value = String> + Clone {
    let piece = prop_oneof![
        4 => "[a-c ]{1,3}".prop_map(|s| s),
        3 => proptest::sample::select(&["\0", "\r", "\r\n", "\n", "\u{fffc}", "\u{feff}", "\u{2028}", "\u{2029}", "\u{85}", "\t", "\u{b}", "\u{c}", "\u{200d}", "\u{301}", "\u{202e}", "\u{e000}", "\u{10ffff}", "👩‍👩‍👧", "İ", "ß", "ﬁ", "\u{1f1eb}"][..]).prop_map(String::from),
        3 => proptest::sample::select(&["<", ">", "</", "<p", "<p>", "</p>", "<b>", "</i>", "<ul>", "<li>", "</ul>", "<table>", "<tr><td>", "</table>", "<blockquote>", "</blockquote>", "<pre>", "<code>", "<!--", "-->", "<![CDATA[", "&", "&#0;", "&#xffffff;", "&lt", "&bogus;", "<h1>", "<h9>", "<img src=x>", "<a href='", "<style>x</style>", "<script>", "<svg>", "<br>", "<td>", "<p style=\"margin:1e99px;line-height:-5;text-align:;color:#\">", "<span style='font-weight:9999999999;font-size:-1e30px;letter-spacing:99999999999px'>", "<li value=99999999999999>", "<td colspan=99999999999 rowspan=-1>x", "<ol start=0>"][..]).prop_map(String::from),
        3 => proptest::sample::select(&["*", "**", "_", "`", "```", "~~~rust\n", "> ", ">>>", "# ", "####### ", "- ", "1. ", "999999999999. ", "[", "](", ")", "![", "|", "|-|\n", "\\", "---\n", "    ", "[^1]: ", "~~", "<", "$$", "- [x] ", "\n\n"][..]).prop_map(String::from),
        1 => proptest::sample::select(&["(", "[", "a*", ".*", "^", "$", "\\b", "(?i)", "(a|b)*c", "\\", "x{1000}", "", "b?"][..]).prop_map(String::from),
    ];
    prop_oneof![12 => proptest::collection::vec(piece.clone(), 0..6).prop_map(|v| v.concat()), 1 => (piece, 2usize..60).prop_map(|(p, n)| p.repeat(n))]
}
fn num_s() -> impl Strategy<Value = N> + Clone {
    prop_oneof![4 => any::<u8>().prop_map(N::Small), 3 => (-2i8..3).prop_map(N::End), 3 => any::<u8>().prop_map(N::Big), 2 => any::<u8>().prop_map(N::Block), 2 => any::<u8>().prop_map(N::List)]
}
fn case() -> impl Strategy<Value = Case> {
    cases_of(Prof { groups: true, title: true, ..FLAT })
}
/// Structured editing (frames, tables, images): generated by no check, only for replaying recorded inputs.
fn structured() -> impl Strategy<Value = Case> { cases_of(Prof { groups: true, images: true, tables: true, frames: true, ..FLAT }) }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Static { pub html: bool, pub src: String, pub reads: Vec<(u8, N, N, String, u8)> }
/// Wild reads of a document with tables, block quotes, code and lists, and of the handles of its parts.
fn static_reads(c: &Static, st: &mut Stats) -> Check {
    let d = TextDocument::new();
    (|| -> Result<()> { if c.html { d.set_html(&c.src)?.wait()?; } else { d.set_markdown(&c.src)?.wait()?; } Ok(()) })().map_err(|m| format!("{m:#}"))?;
    let w = World::new(d);
    let obs = observe(&w.doc)?;
    let exp = |d: &TextDocument| -> std::result::Result<_, String> { Ok((d.to_html().map_err(|m| m.to_string())?, d.to_markdown().map_err(|m| m.to_string())?, d.to_latex("article", true).map_err(|m| m.to_string())?)) };
    let e0 = exp(&w.doc)?;
    for (i, (k, a, b, s, f)) in c.reads.iter().enumerate() {
        let (a, b) = (num(&w, *a), num(&w, *b));
        match k % (READS + 6) {
            k if k < READS => read(&w, k, a, b, s, *f),
            k if k < READS + 3 => for e in w.doc.flow() {
                match e {
                    FlowElement::Table(t) => {
                        let _ = (t.id(), t.rows(), t.columns(), t.column_widths(), t.format(), t.snapshot());
                        for (r, q) in [(a, b), (*f as usize % 4, b), (*f as usize % 3, a % 3)] {
                            if let Some(x) = t.cell(r, q) { let _ = (x.id(), x.row(), x.column(), x.row_span(), x.column_span(), x.format(), x.snapshot_blocks()); for y in x.blocks() { block_handle(&y, a) } }
                        }
                        w.cur.select_table_cell(t.id(), *f as usize % 4, b % 4);
                        let x = w.cur.selection(); let _ = (x.to_html(), x.to_markdown(), w.cur.selected_cells().len(), w.cur.selection_kind());
                        w.cur.select_cell_range(t.id(), *f as usize % 4, a % 4, b % 4, *f as usize % 3);
                        let x = w.cur.selection(); let _ = (x.to_html(), x.to_markdown(), w.cur.selected_cells().len(), w.cur.selected_cell_range());
                        w.cur.clear_cell_selection();
                    }
                    FlowElement::Frame(x) => { let _ = (x.id(), x.format(), x.flow().len(), x.snapshot()); }
                    FlowElement::Block(b) => block_handle(&b, a),
                }
            },
            k if k < READS + 4 => for b in w.doc.blocks() { block_handle(&b, a) },
            k if k < READS + 5 => for l in w.lists() { list_handle(&l, a) },
            _ => { w.cur.set_position(a, MoveMode::MoveAnchor); w.cur.set_position(b, MoveMode::KeepAnchor); let x = w.cur.selection(); let _ = (x.to_html(), x.to_markdown(), w.cur.selected_text(), w.cur.current_table().is_some(), w.cur.current_table_cell().map(|c| (c.row, c.column)), w.cur.selection_kind(), w.cur.selected_cells().len()); }
        }
        let what = || format!("read {i} ({k} {a} {b} {s:?} {f}) changed the document");
        let o = observe(&w.doc).map_err(|m| format!("{}: {m}", what()))?;
        if let Some(x) = diff(&obs, &o) { fail!("{}: {x}", what()) }
        ensure!(!w.doc.can_undo() && !w.doc.can_redo() && !w.doc.is_modified(), "{}: history or modified flag", what());
    }
    let e1 = exp(&w.doc)?;
    ensure_eq!(e0, e1, "exports before and after reading");
    if w.doc.stats().table_count > 0 { st.label("with a table") }
    if w.doc.stats().frame_count > 1 { st.nontrivial() }
    Ok(())
}
fn static_case() -> impl Strategy<Value = Static> {
    let t = proptest::sample::select(&["a", "b c", "é👍", "x<b>y</b>", "", "one two", "<i>z</i>", "<img src=\"p.png\" width=\"3\" height=\"4\">"][..]);
    let cell = (t.clone(), prop_oneof![6 => Just((1u8, 1u8)), 1 => (1u8..3, 1u8..3)]).prop_map(|(t, (r, c))| format!("<td rowspan={r} colspan={c}>{t}</td>"));
    let table = proptest::collection::vec(proptest::collection::vec(cell, 1..4), 1..4).prop_map(|v| format!("<table>{}</table>", v.iter().map(|r| format!("<tr>{}</tr>", r.concat())).collect::<String>()));
    let leaf = (t.clone(), 0u8..6).prop_map(|(t, k)| match k { 0 => format!("<h2>{t}</h2>"), 1 => format!("<ul><li>{t}</li><li>q<ol><li>{t}</li></ol></li></ul>"), 2 => format!("<pre><code>{t}\nz</code></pre>"), _ => format!("<p>{t}</p>") });
    let el = prop_oneof![3 => leaf.clone().boxed(), 2 => table.clone().boxed(), 2 => (leaf, prop::option::of(table), 1u8..4).prop_map(|(l, t, n)| format!("{}{l}{}{}", "<blockquote>".repeat(n as usize), t.unwrap_or_default(), "</blockquote>".repeat(n as usize))).boxed()];
    let html = proptest::collection::vec(el, 1..6).prop_map(|v| (true, v.concat()));
    let mt = proptest::sample::select(&["a", "b **c**", "é👍", "`x|y`", "", "![i](p.png)"][..]);
    let mtable = (mt.clone(), 1usize..4, 0usize..4).prop_map(|(t, c, r)| format!("|{}\n|{}\n{}", format!("{t}|").repeat(c), "-|".repeat(c), format!("|{}\n", format!("{t}|").repeat(c)).repeat(r)));
    let mel = prop_oneof![(mt, proptest::sample::select(&["", "# ", "- ", "1. ", "> ", "> > - ", "    ", "```\n"][..])).prop_map(|(t, p)| format!("{p}{t}\n")), mtable];
    let md = proptest::collection::vec(mel, 1..6).prop_map(|v| (false, v.join("\n")));
    (prop_oneof![3 => html.boxed(), 1 => md.boxed()], proptest::collection::vec((any::<u8>(), num_s(), num_s(), wild_text(), any::<u8>()), 1..8)).prop_map(|((html, src), reads)| Static { html, src, reads })
}
fn cases_of(p: Prof) -> impl Strategy<Value = Case> {
    let e = prop_oneof![
        10 => op(p).prop_map(E::Op), 3 => Just(E::Undo), 2 => Just(E::Redo), 2 => Just(E::Keep), 3 => (any::<u8>(), num_s()).prop_map(|(a, b)| E::Stale(a, b)),
        8 => (0..READS, num_s(), num_s(), wild_text(), any::<u8>()).prop_map(|(k, a, b, s, f)| E::Read(k, a, b, s, f)),
        10 => (0..EDITS, num_s(), num_s(), wild_text(), any::<u8>()).prop_map(|(k, a, b, s, f)| E::Edit(k, a, b, s, f)),
    ];
    (prop_oneof![text(3, 3).boxed(), wild_text().boxed()], proptest::collection::vec(e, 1..12)).prop_map(|(init, evs)| Case { init, evs })
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Deep { pub md: bool, pub open: String, pub n: u16, pub tail: String, pub entry: u8 }
/// Markup nested deeply, taken in, exported, edited and undone. The work is done
/// in a process of its own, on a thread with the usual 2 MB stack: a stack
/// overflow cannot be caught.
fn deep(c: &Deep, st: &mut Stats) -> Check {
    if std::env::var_os("VH_CHILD").is_some() {
        let c = c.clone();
        return std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            let s = c.open.repeat(c.n as usize) + &c.tail;
            let d = TextDocument::new();
            match (c.entry % 3, c.md) {
                (0, true) => { d.set_markdown(&s)?.wait()?; }
                (0, false) => { d.set_html(&s)?.wait()?; }
                (1, true) => d.cursor().insert_markdown(&s)?,
                (1, false) => d.cursor().insert_html(&s)?,
                (_, md) => { let f = if md { DocumentFragment::from_markdown(&s) } else { DocumentFragment::from_html(&s) }; let _ = (f.to_html(), f.to_markdown()); d.cursor().insert_fragment(&f)? }
            }
            let _ = (d.to_plain_text()?, d.to_html()?, d.to_markdown()?, d.to_latex("article", true)?, d.snapshot_flow(), d.flow().len(), d.blocks().len());
            let k = d.cursor();
            k.insert_text("x")?;
            k.insert_block()?;
            let _ = DocumentFragment::from_document(&d)?;
            while d.can_undo() { d.undo()? }
            while d.can_redo() { d.redo()? }
            Ok(())
        }).unwrap().join().map_err(|_| "panicked".to_string())?.or_else(|m: anyhow::Error| if m.to_string().contains("contains no blocks") { Ok(()) } else { Err(format!("{m:#}")) });
    }
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let f = std::env::temp_dir().join(format!("vh-deep-{}-{}.json", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    std::fs::write(&f, serde_json::json!({"property": "P18", "sub": "deep", "value": c}).to_string()).map_err(|m| m.to_string())?;
    let r = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&f).env("VH_CHILD", "1").output();
    let _ = std::fs::remove_file(&f);
    let r = r.map_err(|m| m.to_string())?;
    let text = |b: &[u8]| String::from_utf8_lossy(b).trim().chars().take(200).collect::<String>();
    ensure!(r.status.success(), "{} nested {} times: {:?} {} {}", c.open, c.n, r.status, text(&r.stdout), text(&r.stderr));
    st.nontrivial();
    Ok(())
}
fn deep_case() -> impl Strategy<Value = Deep> {
    let md = proptest::sample::select(&["> ", ">", "- ", "1. ", "* > ", "> - ", "[", "*", "**a ", "![", "`a``", "<b>"][..]);
    let html = proptest::sample::select(&["<div>", "<blockquote>", "<blockquote><p>a</p>", "<ul><li>a", "<ol><li>", "<b>", "<span style='font-weight:bold'>", "<table><tr><td>", "<p><i>", "<pre>", "<a href=x>", "<section><h1>a</h1>"][..]);
    let (a, b) = (md.prop_map(|s| (true, s.to_string())), html.prop_map(|s| (false, s.to_string())));
    (prop_oneof![a, b], prop_oneof![2 => 1u16..300, 3 => 300u16..2500], proptest::sample::select(&["", "x", "x\n\ny"][..]), 0u8..3)
        .prop_map(|((md, open), n, t, entry)| Deep { md, open, n, tail: t.into(), entry })
}
pub fn run(c: &mut Ctx) {
    let n = c.cases(240, 4_000);
    c.sub("deep", n, deep_case, deep);
    let n = c.cases(24_000, 500_000);
    c.sub("wild", n, case, check);
    c.sub("structured", 0, structured, check);
    let n = c.cases(1_600, 40_000);
    let t = c.threads;
    c.threads = 32;
    c.sub("static", n, static_case, static_reads);
    c.threads = t;
}
