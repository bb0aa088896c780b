//! Operation vocabulary shared by the history-based checks: generated,
//! serialisable, shrinkable editing calls interpreted against a real document.
use crate::engine::Stats;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use text_document::*;

/// A position selector, resolved against the current document.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum P { Abs(u16), Start(u8), End(u8), Near(i8) }

#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
pub struct CF {
    pub bold: Option<bool>, pub italic: Option<bool>, pub underline: Option<bool>, pub strike: Option<bool>,
    pub family: Option<u8>, pub overline: Option<bool>, pub size: Option<u8>, pub weight: Option<u8>,
    pub lsp: Option<i8>, pub wsp: Option<i8>, pub ul: Option<u8>, pub va: Option<u8>,
}
impl CF {
    pub fn to(&self) -> TextFormat {
        TextFormat {
            font_bold: self.bold, font_italic: self.italic, font_underline: self.underline, font_strikeout: self.strike,
            font_family: self.family.map(family), font_overline: self.overline,
            font_point_size: self.size.map(|v| 8 + v as u32 % 40), font_weight: self.weight.map(|v| 100 * (1 + v as u32 % 9)),
            letter_spacing: self.lsp.map(|v| v as i32), word_spacing: self.wsp.map(|v| v as i32),
            underline_style: self.ul.map(ulstyle), vertical_alignment: self.va.map(valign),
            ..Default::default()
        }
    }
}
pub fn family(v: u8) -> String { ["Arial", "Times New Roman", "monospace", "Ünïcode Sans"][v as usize % 4].to_string() }
pub fn ulstyle(v: u8) -> UnderlineStyle {
    use UnderlineStyle::*;
    match v % 8 { 0 => NoUnderline, 1 => SingleUnderline, 2 => DashUnderline, 3 => DotLine, 4 => DashDotLine, 5 => DashDotDotLine, 6 => WaveUnderline, _ => SpellCheckUnderline }
}
pub fn valign(v: u8) -> CharVerticalAlignment {
    use CharVerticalAlignment::*;
    match v % 7 { 0 => Normal, 1 => SuperScript, 2 => SubScript, 3 => Middle, 4 => Bottom, 5 => Top, _ => Baseline }
}
pub fn align(v: u8) -> Alignment { match v % 4 { 0 => Alignment::Left, 1 => Alignment::Right, 2 => Alignment::Center, _ => Alignment::Justify } }
pub fn marker(v: u8) -> MarkerType { match v % 3 { 0 => MarkerType::NoMarker, 1 => MarkerType::Unchecked, _ => MarkerType::Checked } }
pub fn lstyle(v: u8) -> ListStyle {
    use ListStyle::*;
    match v % 8 { 0 => Disc, 1 => Circle, 2 => Square, 3 => Decimal, 4 => LowerAlpha, 5 => UpperAlpha, 6 => LowerRoman, _ => UpperRoman }
}

#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
pub struct BF {
    pub align: Option<u8>, pub heading: Option<u8>, pub indent: Option<u8>, pub marker: Option<u8>,
    pub lh: Option<u8>, pub nb: Option<bool>, pub dir: Option<bool>, pub bg: Option<u8>, pub code: Option<bool>, pub lang: Option<u8>,
    pub top: Option<i16>, pub bottom: Option<i16>, pub left: Option<i16>, pub right: Option<i16>, pub ti: Option<i16>, pub tabs: Vec<u8>,
}
impl BF {
    pub fn to(&self) -> BlockFormat {
        BlockFormat {
            alignment: self.align.map(align), heading_level: self.heading.map(|h| h % 7), indent: self.indent.map(|i| i % 5),
            marker: self.marker.map(marker), line_height: self.lh.map(|v| 1.0 + (v % 8) as f32 * 0.125),
            non_breakable_lines: self.nb, direction: self.dir.map(|d| if d { TextDirection::RightToLeft } else { TextDirection::LeftToRight }),
            background_color: self.bg.map(|b| format!("#{:02x}00ff", b)), is_code_block: self.code,
            code_language: self.lang.map(|l| ["rust", "c++", "py"][l as usize % 3].to_string()),
            top_margin: self.top.map(i32::from), bottom_margin: self.bottom.map(i32::from), left_margin: self.left.map(i32::from),
            right_margin: self.right.map(i32::from), text_indent: self.ti.map(i32::from), tab_positions: self.tabs.iter().map(|t| *t as i32).collect(),
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Ins(P, String),
    InsSel(P, P, String),
    InsFmt(P, String, CF),
    Block(P),
    BlockSel(P, P),
    Del(P, P),
    DelChar(P),
    DelPrev(P),
    FragPlain(P, String),
    FragSel(P, P, String),
    Html(P, String),
    Md(P, String),
    Copy { from: P, to: P, at: P },
    Image(P, u8),
    Frame(P),
    Table(P, u8, u8),
    TRow(u8, u8), TCol(u8, u8), TRmRow(u8, u8), TRmCol(u8, u8), TRemove(u8),
    TMerge(u8, u8, u8, u8, u8), TSplit(u8, u8, u8, u8, u8),
    TFmt(u8, u8), TCellFmt(u8, u8, u8),
    SetChar(P, P, CF),
    MergeChar(P, P, CF),
    SetBlock(P, P, BF),
    CreateList(P, P, u8), InsertList(P, u8), SetList(P, u8, u8), AddToList(u8, u8), RmFromList(u8), RmItem(u8, u8),
    FrameFmt(u8, i8),
    /// Paste generated rich content, rendered as HTML.
    Rich(P, Vec<RB>, bool),
    Replace(String, String, bool),
    Title(u8),
    Group(Vec<Op>),
    /// Run a positioned operation with a selection active instead.
    Over(P, P, Box<Op>),
}

pub fn max_pos(d: &TextDocument) -> usize {
    let s = d.stats();
    s.character_count + s.block_count.saturating_sub(1)
}
/// Does the document contain nothing but top-level blocks?
pub struct World { pub doc: TextDocument, pub cur: TextCursor, pub sel: std::cell::Cell<bool>, over: std::cell::RefCell<Option<(P, P)>> }
impl World {
    pub fn new(doc: TextDocument) -> Self { let cur = doc.cursor(); World { doc, cur, sel: Default::default(), over: Default::default() } }
    pub fn pos(&self, p: &P) -> usize {
        let max = max_pos(&self.doc);
        match p {
            P::Abs(a) => *a as usize % (max + 1),
            P::Start(i) => { let b = self.doc.blocks(); if b.is_empty() { 0 } else { b[*i as usize % b.len()].position() } }
            P::End(i) => { let b = self.doc.blocks(); if b.is_empty() { 0 } else { let b = &b[*i as usize % b.len()]; b.position() + b.length() } }
            P::Near(d) => (self.cur.position() as i64 + *d as i64).clamp(0, max as i64) as usize,
        }
    }
    pub fn goto(&self, p: &P) {
        if let Some((a, b)) = &*self.over.borrow() { return self.select(a, b); }
        let x = self.pos(p); self.cur.set_position(x, MoveMode::MoveAnchor)
    }
    pub fn select(&self, a: &P, b: &P) {
        let (x, y) = (self.pos(a), self.pos(b));
        self.cur.set_position(x, MoveMode::MoveAnchor);
        self.cur.set_position(y, MoveMode::KeepAnchor);
        self.sel.set(self.cur.has_selection());
    }
    pub fn tables(&self) -> Vec<TextTable> { let mut v = vec![]; tables_in(&self.doc.flow(), &mut v); v }
    pub fn lists(&self) -> Vec<TextList> {
        let mut v: Vec<TextList> = vec![];
        for b in self.doc.blocks() { if let Some(l) = b.list() && !v.iter().any(|x| x.id() == l.id()) { v.push(l) } }
        v
    }
    /// Apply an operation. `None` when the operation is not applicable to the current state.
    pub fn apply(&self, op: &Op, st: &mut Stats) -> Option<Result<()>> {
        let c = &self.cur;
        let r = match op {
            Op::Ins(p, t) => { self.goto(p); c.insert_text(t) }
            Op::InsSel(a, b, t) => { self.select(a, b); c.insert_text(t) }
            Op::InsFmt(p, t, f) => { self.goto(p); c.insert_formatted_text(t, &f.to()) }
            Op::Block(p) => { self.goto(p); c.insert_block() }
            Op::BlockSel(a, b) => { self.select(a, b); c.insert_block() }
            Op::Del(a, b) => { self.select(a, b); c.remove_selected_text().map(|_| ()) }
            Op::DelChar(p) => { self.goto(p); c.delete_char() }
            Op::DelPrev(p) => { self.goto(p); c.delete_previous_char() }
            Op::FragPlain(p, t) => { self.goto(p); c.insert_fragment(&DocumentFragment::from_plain_text(t)) }
            Op::FragSel(a, b, t) => { self.select(a, b); c.insert_fragment(&DocumentFragment::from_plain_text(t)) }
            Op::Html(p, t) => { self.goto(p); c.insert_html(t) }
            Op::Md(p, t) => { self.goto(p); c.insert_markdown(t) }
            Op::Rich(p, r, _) => { self.goto(p); c.insert_html(&html_of(r)) }
            Op::Copy { from, to, at } => { self.select(from, to); let f = c.selection(); if f.is_empty() { return None } self.goto(at); c.insert_fragment(&f) }
            Op::Image(p, n) => { self.goto(p); c.insert_image(&format!("img{n}.png"), 10 + *n as u32, 20) }
            Op::Frame(p) => { self.goto(p); c.insert_frame() }
            Op::Table(p, r, k) => { self.goto(p); c.insert_table(1 + *r as usize % 4, 1 + *k as usize % 4).map(|_| ()) }
            Op::TRow(t, i) => { let t = self.tbl(*t)?; c.insert_table_row(t.id(), *i as usize % (t.rows() + 1)) }
            Op::TCol(t, i) => { let t = self.tbl(*t)?; c.insert_table_column(t.id(), *i as usize % (t.columns() + 1)) }
            Op::TRmRow(t, i) => { let t = self.tbl(*t)?; c.remove_table_row(t.id(), *i as usize % t.rows().max(1)) }
            Op::TRmCol(t, i) => { let t = self.tbl(*t)?; c.remove_table_column(t.id(), *i as usize % t.columns().max(1)) }
            Op::TRemove(t) => { let t = self.tbl(*t)?; c.remove_table(t.id()) }
            Op::TMerge(t, a, b, x, y) => {
                let t = self.tbl(*t)?;
                let (r, k) = (t.rows().max(1), t.columns().max(1));
                let (r0, r1) = (*a as usize % r, *b as usize % r);
                let (c0, c1) = (*x as usize % k, *y as usize % k);
                c.merge_table_cells(t.id(), r0.min(r1), c0.min(c1), r0.max(r1), c0.max(c1))
            }
            Op::TSplit(t, a, b, x, y) => {
                let t = self.tbl(*t)?;
                let s = t.snapshot();
                if s.cells.is_empty() { return None; }
                let mut cells: Vec<(usize, usize)> = s.cells.iter().map(|k| (k.row, k.column)).collect();
                cells.sort();
                let (r, k) = cells[(*a as usize * 16 + *b as usize) % cells.len()];
                let cell = t.cell(r, k)?;
                c.split_table_cell(cell.id(), 1 + *x as usize % 3, 1 + *y as usize % 3)
            }
            Op::TFmt(t, v) => {
                let t = self.tbl(*t)?;
                c.set_table_format(t.id(), &TableFormat { border: Some(*v as i32), cell_padding: Some(3), width: Some(100 + *v as i32), alignment: Some(align(*v)), ..Default::default() })
            }
            Op::TCellFmt(t, i, v) => {
                let t = self.tbl(*t)?;
                let s = t.snapshot();
                if s.cells.is_empty() { return None; }
                let mut cells: Vec<(usize, usize)> = s.cells.iter().map(|k| (k.row, k.column)).collect();
                cells.sort();
                let (r, k) = cells[*i as usize % cells.len()];
                let cell = t.cell(r, k)?;
                c.set_table_cell_format(cell.id(), &CellFormat { padding: Some(*v as i32), background_color: Some(format!("#0000{v:02x}")), ..Default::default() })
            }
            Op::SetChar(a, b, f) => { self.select(a, b); c.set_char_format(&f.to()) }
            Op::MergeChar(a, b, f) => { self.select(a, b); c.merge_char_format(&f.to()) }
            Op::SetBlock(a, b, f) => { self.select(a, b); c.set_block_format(&f.to()) }
            Op::CreateList(a, b, s) => { self.select(a, b); c.create_list(lstyle(*s)) }
            Op::InsertList(p, s) => { self.goto(p); c.insert_list(lstyle(*s)) }
            Op::SetList(p, s, i) => {
                self.goto(p);
                let l = c.current_list()?;
                c.set_list_format(l.id(), &ListFormat { style: Some(lstyle(*s)), indent: Some(*i % 4), prefix: Some("(".into()), suffix: Some(")".into()) })
            }
            Op::AddToList(b, l) => {
                let bs = self.doc.blocks();
                let ls = self.lists();
                if bs.is_empty() || ls.is_empty() { return None; }
                c.add_block_to_list(bs[*b as usize % bs.len()].id(), ls[*l as usize % ls.len()].id())
            }
            Op::RmFromList(b) => {
                let bs: Vec<TextBlock> = self.doc.blocks().into_iter().filter(|b| b.list().is_some()).collect();
                if bs.is_empty() { return None; }
                c.remove_block_from_list(bs[*b as usize % bs.len()].id())
            }
            Op::RmItem(l, i) => {
                let ls = self.lists();
                if ls.is_empty() { return None; }
                let l = &ls[*l as usize % ls.len()];
                c.remove_list_item(l.id(), *i as usize % l.count().max(1))
            }
            Op::FrameFmt(i, v) => {
                let mut fs = vec![];
                frames_in(&self.doc.flow(), &mut fs);
                if fs.is_empty() { return None; }
                let id = fs[*i as usize % fs.len()].id();
                c.set_frame_format(id, &FrameFormat { padding: Some(*v as i32), left_margin: Some(4), border: Some(1), ..Default::default() })
            }
            Op::Replace(q, r, all) => self.doc.replace_text(q, r, *all, &FindOptions { case_sensitive: true, ..Default::default() }).map(|_| ()),
            Op::Title(t) => self.doc.set_title(&format!("T{t}")),
            Op::Over(a, b, o) => {
                *self.over.borrow_mut() = Some((a.clone(), b.clone()));
                let r = self.apply(o, st);
                *self.over.borrow_mut() = None;
                return r;
            }
            Op::Group(ops) => {
                c.begin_edit_block();
                let mut out = None;
                for o in ops {
                    match self.apply(o, st) { Some(Err(e)) => { out = Some(Err(e)); } Some(Ok(())) => if out.is_none() { out = Some(Ok(())) }, None => {} }
                }
                c.end_edit_block();
                match out { Some(r) => r, None => return None }
            }
        };
        Some(r)
    }
    fn tbl(&self, i: u8) -> Option<TextTable> {
        let t = self.tables();
        if t.is_empty() { None } else { Some(t[i as usize % t.len()].clone()) }
    }
}
pub fn tables_in(f: &[FlowElement], out: &mut Vec<TextTable>) {
    for e in f { match e { FlowElement::Table(t) => out.push(t.clone()), FlowElement::Frame(f) => tables_in(&f.flow(), out), _ => {} } }
}
pub fn frames_in(f: &[FlowElement], out: &mut Vec<TextFrame>) {
    for e in f { if let FlowElement::Frame(f) = e { out.push(f.clone()); frames_in(&f.flow(), out) } }
}
pub fn kind(op: &Op) -> &'static str {
    match op {
        Op::Ins(..) => "insert_text", Op::InsSel(..) => "insert_over_selection", Op::InsFmt(..) => "insert_formatted", Op::Block(..) => "insert_block",
        Op::BlockSel(..) => "insert_block_over_selection", Op::Del(..) => "delete_range", Op::DelChar(..) => "delete_char", Op::DelPrev(..) => "delete_previous",
        Op::FragPlain(..) => "insert_fragment", Op::FragSel(..) => "insert_fragment_over_selection", Op::Html(..) => "insert_html", Op::Md(..) => "insert_markdown", Op::Rich(..) => "insert_rich_html",
        Op::Copy { .. } => "copy_paste", Op::Image(..) => "insert_image", Op::Frame(..) => "insert_frame", Op::Table(..) => "insert_table",
        Op::TRow(..) => "table_insert_row", Op::TCol(..) => "table_insert_col", Op::TRmRow(..) => "table_remove_row", Op::TRmCol(..) => "table_remove_col",
        Op::TRemove(..) => "table_remove", Op::TMerge(..) => "table_merge", Op::TSplit(..) => "table_split", Op::TFmt(..) => "table_format", Op::TCellFmt(..) => "cell_format",
        Op::SetChar(..) => "set_char_format", Op::MergeChar(..) => "merge_char_format", Op::SetBlock(..) => "set_block_format", Op::CreateList(..) => "create_list",
        Op::InsertList(..) => "insert_list", Op::SetList(..) => "set_list_format", Op::AddToList(..) => "add_to_list", Op::RmFromList(..) => "remove_from_list",
        Op::RmItem(..) => "remove_list_item", Op::FrameFmt(..) => "set_frame_format", Op::Replace(..) => "replace_text", Op::Title(..) => "set_title", Op::Group(..) => "edit_block",
        Op::Over(_, _, o) => match **o {
            Op::InsFmt(..) => "insert_formatted_over_selection", Op::DelChar(..) => "delete_char_over_selection", Op::DelPrev(..) => "delete_previous_over_selection",
            Op::Html(..) => "insert_html_over_selection", Op::Md(..) => "insert_markdown_over_selection", Op::Copy { .. } => "copy_paste_over_selection", Op::Image(..) => "insert_image_over_selection",
            _ => "over_selection",
        },
    }
}

// ── generators ───────────────────────────────────────────────────────

pub fn pos() -> impl Strategy<Value = P> + Clone {
    prop_oneof![
        5 => any::<u16>().prop_map(P::Abs),
        2 => any::<u8>().prop_map(P::Start),
        2 => any::<u8>().prop_map(P::End),
        2 => (-3i8..4).prop_map(P::Near),
        2 => Just(P::Near(0)),
    ]
}
fn obool() -> impl Strategy<Value = Option<bool>> + Clone { prop_oneof![3 => Just(None), 2 => Just(Some(true)), 1 => Just(Some(false))] }
fn rare<T: std::fmt::Debug + Clone, S: Strategy<Value = T> + Clone>(s: S) -> impl Strategy<Value = Option<T>> + Clone { proptest::option::weighted(0.15, s) }
pub fn cf() -> impl Strategy<Value = CF> + Clone {
    ((obool(), obool(), obool(), obool(), rare(0u8..4), rare(any::<bool>())), (rare(any::<u8>()), rare(any::<u8>()), rare(any::<i8>()), rare(any::<i8>()), rare(0u8..8), rare(0u8..7)))
        .prop_map(|((bold, italic, underline, strike, family, overline), (size, weight, lsp, wsp, ul, va))| CF { bold, italic, underline, strike, family, overline, size, weight, lsp, wsp, ul, va })
}
/// Formats limited to what insert_formatted_text / merge_char_format accept.
pub fn cf_small() -> impl Strategy<Value = CF> + Clone {
    (obool(), obool(), obool(), obool(), rare(0u8..4)).prop_map(|(bold, italic, underline, strike, family)| CF { bold, italic, underline, strike, family, ..CF::default() })
}
pub fn bf() -> impl Strategy<Value = BF> + Clone {
    ((proptest::option::of(0u8..4), proptest::option::weighted(0.3, 0u8..7), rare(0u8..5), rare(0u8..3), rare(any::<u8>()), rare(any::<bool>()), rare(any::<bool>()), rare(any::<u8>())),
     (rare(any::<bool>()), rare(0u8..3), rare(-50i16..50), rare(-50i16..50), rare(-50i16..50), rare(-50i16..50), rare(-50i16..50)), proptest::collection::vec(any::<u8>(), 0..2))
        .prop_map(|((align, heading, indent, marker, lh, nb, dir, bg), (code, lang, top, bottom, left, right, ti), tabs)| BF { align, heading, indent, marker, lh, nb, dir, bg, code, lang, top, bottom, left, right, ti, tabs })
}
const GRAPHEMES: &[&str] = &["é", "e\u{301}", "日", "本", "👍", "👩‍👩‍👧", "🇫🇷", "ß", "İ", "Ω", "ש", "a\u{308}", "ç", "\u{a0}", "—", "𝔘", "각"];
/// One line of text: words, spaces, punctuation and multi-byte graphemes.
pub fn word() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        6 => "[a-zA-Z]{1,6}",
        3 => proptest::sample::select(GRAPHEMES).prop_map(|s| s.to_string()),
        3 => Just(" ".to_string()),
        1 => "[0-9]{1,3}",
        1 => "[.,;:!?'()-]",
    ]
}
pub fn line(max: usize) -> impl Strategy<Value = String> + Clone { proptest::collection::vec(word(), 0..=max).prop_map(|v| v.concat()) }
pub fn line1(max: usize) -> impl Strategy<Value = String> + Clone { proptest::collection::vec(word(), 1..=max).prop_map(|v| v.concat()) }
pub fn text(lines: usize, words: usize) -> impl Strategy<Value = String> + Clone {
    proptest::collection::vec(line(words), 1..=lines).prop_map(|v| v.join("\n"))
}
/// Many paragraphs, or long ones.
pub fn big() -> BoxedStrategy<String> {
    let long = proptest::collection::vec(word(), 80..500).prop_map(|v| v.concat());
    prop_oneof![
        proptest::collection::vec(line(2), 40..160).prop_map(|v| v.join("\n")),
        proptest::collection::vec(prop_oneof![1 => long.boxed(), 1 => line(6).boxed()], 1..5).prop_map(|v| v.join("\n")),
    ].boxed()
}
/// Initial text: mostly short, rarely big.
pub fn init(lines: usize, words: usize) -> BoxedStrategy<String> { prop_oneof![60 => text(lines, words).boxed(), 1 => big()].boxed() }
/// Steps of a history: mostly few, rarely very many.
pub fn steps<S: Strategy + 'static>(s: S, range: std::ops::Range<usize>) -> BoxedStrategy<Vec<S::Value>> where S: Clone, S::Value: 'static {
    prop_oneof![60 => proptest::collection::vec(s.clone(), range).boxed(), 1 => proptest::collection::vec(s, 60..140).boxed()].boxed()
}
pub const HTMLS: &[&str] = &[
    "<p>one <b>two</b> three</p>", "plain <i>inline</i>", "<ul><li>a</li><li>b <b>c</b></li></ul>", "<h2>Head</h2><p>para</p>",
    "<p>x</p><p>y</p><p>z</p>", "<ol><li>first</li></ol>", "<b>bold</b>", "<p></p>", "text &amp; &lt;tag&gt;", "<p>é日👍</p><p>tail</p>",
];
pub const MDS: &[&str] = &["**bold** text", "# Title\n\nbody", "- a\n- b", "one\n\ntwo", "1. x\n2. y", "`code` and *it*", "plain"];

#[derive(Clone, Copy)]
pub struct Prof { pub tables: bool, pub frames: bool, pub images: bool, pub lists: bool, pub rich: bool, pub markup: bool, pub groups: bool, pub replace: bool, pub title: bool, pub model: bool }
pub const FLAT: Prof = Prof { tables: false, frames: false, images: false, lists: true, rich: true, markup: true, groups: false, replace: true, title: false, model: false };

pub fn op(p: Prof) -> BoxedStrategy<Op> {
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (10, (pos(), line1(3)).prop_map(|(p, t)| Op::Ins(p, t)).boxed()),
        (3, (pos(), pos(), line1(2)).prop_map(|(a, b, t)| Op::InsSel(a, b, t)).boxed()),
        (8, pos().prop_map(Op::Block).boxed()),
        (2, (pos(), pos()).prop_map(|(a, b)| Op::BlockSel(a, b)).boxed()),
        (6, (pos(), pos()).prop_map(|(a, b)| Op::Del(a, b)).boxed()),
        (4, pos().prop_map(Op::DelChar).boxed()),
        (4, pos().prop_map(Op::DelPrev).boxed()),
        (4, (pos(), text(3, 2)).prop_map(|(p, t)| Op::FragPlain(p, t)).boxed()),
        (1, (pos(), pos(), text(3, 2)).prop_map(|(a, b, t)| Op::FragSel(a, b, t)).boxed()),
    ];
    let mut over: Vec<BoxedStrategy<Op>> = vec![Just(Op::DelChar(P::Near(0))).boxed(), Just(Op::DelPrev(P::Near(0))).boxed()];
    if p.rich {
        over.push((line1(2), cf_small()).prop_map(|(t, f)| Op::InsFmt(P::Near(0), t, f)).boxed());
        over.push((pos(), pos()).prop_map(|(a, b)| Op::Copy { from: a, to: b, at: P::Near(0) }).boxed());
    }
    if p.markup {
        over.push(proptest::sample::select(HTMLS).prop_map(|t| Op::Html(P::Near(0), t.to_string())).boxed());
        over.push(proptest::sample::select(MDS).prop_map(|t| Op::Md(P::Near(0), t.to_string())).boxed());
    }
    if p.model {
        over.push(rich().prop_map(|r| Op::Rich(P::Near(0), r, true)).boxed());
        over.push(text(3, 2).prop_map(|t| Op::FragPlain(P::Near(0), t)).boxed());
        v.push((5, (pos(), rich()).prop_map(|(p, r)| Op::Rich(p, r, true)).boxed()));
    }
    v.push((4, (pos(), pos(), proptest::strategy::Union::new(over)).prop_map(|(a, b, o)| Op::Over(a, b, Box::new(o))).boxed()));
    if p.rich {
        v.push((4, (pos(), line1(2), cf_small()).prop_map(|(p, t, f)| Op::InsFmt(p, t, f)).boxed()));
        v.push((6, (pos(), pos(), cf()).prop_map(|(a, b, f)| Op::SetChar(a, b, f)).boxed()));
        v.push((3, (pos(), pos(), cf_small()).prop_map(|(a, b, f)| Op::MergeChar(a, b, f)).boxed()));
        v.push((4, (pos(), pos(), bf()).prop_map(|(a, b, f)| Op::SetBlock(a, b, f)).boxed()));
        v.push((3, (pos(), pos(), pos()).prop_map(|(a, b, c)| Op::Copy { from: a, to: b, at: c }).boxed()));
    }
    if p.markup {
        v.push((3, (pos(), proptest::sample::select(HTMLS)).prop_map(|(p, t)| Op::Html(p, t.to_string())).boxed()));
        v.push((2, (pos(), proptest::sample::select(MDS)).prop_map(|(p, t)| Op::Md(p, t.to_string())).boxed()));
    }
    if p.lists {
        v.push((4, (pos(), pos(), 0u8..8).prop_map(|(a, b, s)| Op::CreateList(a, b, s)).boxed()));
        v.push((1, (pos(), 0u8..8).prop_map(|(a, s)| Op::InsertList(a, s)).boxed()));
        v.push((2, (pos(), 0u8..8, 0u8..4).prop_map(|(a, s, i)| Op::SetList(a, s, i)).boxed()));
        v.push((2, (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::AddToList(a, b)).boxed()));
        v.push((1, any::<u8>().prop_map(Op::RmFromList).boxed()));
        v.push((1, (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::RmItem(a, b)).boxed()));
    }
    if p.images { v.push((2, (pos(), 0u8..4).prop_map(|(p, n)| Op::Image(p, n)).boxed())); }
    if p.frames {
        v.push((2, pos().prop_map(Op::Frame).boxed()));
        v.push((1, (any::<u8>(), any::<i8>()).prop_map(|(a, b)| Op::FrameFmt(a, b)).boxed()));
    }
    if p.tables {
        let u = any::<u8>;
        v.push((4, (pos(), u(), u()).prop_map(|(p, a, b)| Op::Table(p, a, b)).boxed()));
        v.push((2, (u(), u()).prop_map(|(a, b)| Op::TRow(a, b)).boxed()));
        v.push((2, (u(), u()).prop_map(|(a, b)| Op::TCol(a, b)).boxed()));
        v.push((2, (u(), u()).prop_map(|(a, b)| Op::TRmRow(a, b)).boxed()));
        v.push((2, (u(), u()).prop_map(|(a, b)| Op::TRmCol(a, b)).boxed()));
        v.push((1, u().prop_map(Op::TRemove).boxed()));
        v.push((3, (u(), u(), u(), u(), u()).prop_map(|(t, a, b, c, d)| Op::TMerge(t, a, b, c, d)).boxed()));
        v.push((2, (u(), u(), u(), u(), u()).prop_map(|(t, a, b, c, d)| Op::TSplit(t, a, b, c, d)).boxed()));
        v.push((1, (u(), u()).prop_map(|(a, b)| Op::TFmt(a, b)).boxed()));
        v.push((1, (u(), u(), u()).prop_map(|(a, b, c)| Op::TCellFmt(a, b, c)).boxed()));
    }
    if p.replace { v.push((2, ("[a-c]{1,2}", line(2), any::<bool>()).prop_map(|(q, r, a)| Op::Replace(q, r, a)).boxed())); }
    if p.title { v.push((1, any::<u8>().prop_map(Op::Title).boxed())); }
    if p.groups {
        let q = Prof { groups: false, ..p };
        v.push((6, proptest::collection::vec(op(q), 1..5).prop_map(Op::Group).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}
pub fn ops(p: Prof, max: usize) -> BoxedStrategy<Vec<Op>> { proptest::collection::vec(op(p), 1..=max).boxed() }

/// One block of generated rich content.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct RB { pub kind: RK, pub runs: Vec<(String, u8)> }
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum RK { Para, H(u8), Ul, Ol }
/// Link targets; the two high bits of a run's flags choose one.
pub const URLS: &[&str] = &["http://x.y/?a=b", "http://x.y/?a=1&lt;=2&copy#s_1%20~", "a(b)c)*d*\\e[f]", "p\"q<r>'s é$t^u{v}"];
pub fn url(f: u8) -> &'static str { URLS[(f >> 6) as usize] }
pub fn url_attr(f: u8) -> String { url(f).replace('&', "&amp;").replace('"', "&quot;") }
/// Spread the links among generated flags over the targets.
pub fn spread(f: u8, k: u8) -> u8 { if f & 32 != 0 { f & 63 | (k % 4) << 6 } else { f & 63 } }
pub fn run_format(f: u8) -> TextFormat {
    let t = |b: u8| if f & b != 0 { Some(true) } else { None };
    TextFormat {
        font_bold: t(1), font_italic: t(2), font_underline: t(4), font_strikeout: t(8),
        font_family: if f & 16 != 0 { Some("monospace".into()) } else { None },
        anchor_href: if f & 32 != 0 { Some(url(f).into()) } else { None },
        is_anchor: t(32),
        ..Default::default()
    }
}
impl RB {
    pub fn to_fb(&self) -> crate::model::FB {
        use crate::model::*;
        FB {
            chars: self.runs.iter().flat_map(|(t, f)| { let f = run_format(*f); t.chars().map(move |c| (c, f.clone())) }).collect(),
            fmt: BlockFormat { heading_level: if let RK::H(h) = self.kind { Some(h) } else { None }, ..Default::default() },
            list: match self.kind {
                RK::Ul => Some(MList { style: ListStyle::Disc, indent: 0, prefix: String::new(), suffix: String::new() }),
                RK::Ol => Some(MList { style: ListStyle::Decimal, indent: 0, prefix: String::new(), suffix: String::new() }),
                _ => None,
            },
        }
    }
}
pub fn esc(t: &str) -> String { t.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;") }
pub fn html_of(r: &[RB]) -> String {
    let mut s = String::new();
    let mut open: Option<&str> = None;
    for b in r {
        let l = match b.kind { RK::Ul => Some("ul"), RK::Ol => Some("ol"), _ => None };
        if open != l { if let Some(o) = open { s += &format!("</{o}>") } if let Some(n) = l { s += &format!("<{n}>") } open = l; }
        let tag = match b.kind { RK::Para => "p".to_string(), RK::H(h) => format!("h{h}"), _ => "li".into() };
        s += &format!("<{tag}>");
        for (t, f) in &b.runs {
            let mut c = esc(t);
            if f & 16 != 0 { c = format!("<code>{c}</code>") }
            for (bit, g) in [(1, "b"), (2, "i"), (4, "u"), (8, "s")] { if f & bit != 0 { c = format!("<{g}>{c}</{g}>") } }
            if f & 32 != 0 { c = format!("<a href=\"{}\">{c}</a>", url_attr(*f)) }
            s += &c;
        }
        s += &format!("</{tag}>");
    }
    if let Some(o) = open { s += &format!("</{o}>") }
    s
}
pub fn rich() -> impl Strategy<Value = Vec<RB>> + Clone {
    let kind = prop_oneof![4 => Just(RK::Para), 1 => (1u8..7).prop_map(RK::H), 2 => Just(RK::Ul), 1 => Just(RK::Ol)];
    let run = (line1(2), prop_oneof![3 => Just(0u8), 3 => 0u8..16, 1 => (0u8..64, 0u8..4).prop_map(|(f, k)| spread(f, k))]);
    proptest::collection::vec((kind, proptest::collection::vec(run, 1..3)).prop_map(|(kind, runs)| RB { kind, runs }), 1..4)
}

/// A history: initial text then operations.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Hist { pub init: String, pub ops: Vec<Op> }
pub fn hist(p: Prof, max: usize) -> BoxedStrategy<Hist> {
    (init(4, 4), steps(op(p), 1..max + 1)).prop_map(|(init, ops)| Hist { init, ops }).boxed()
}
pub fn start(init: &str) -> std::result::Result<World, String> {
    let d = TextDocument::new();
    // a new document is what set_plain_text("") gives
    if !init.is_empty() { d.set_plain_text(init).map_err(|e| format!("set_plain_text: {e:#}"))? }
    Ok(World::new(d))
}
