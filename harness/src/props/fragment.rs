//! P15: fragments carry exactly the selected content, in every exported form.
use crate::engine::*;
use crate::obs::*;
use crate::ops::*;
use crate::props::html::*;
use crate::props::md::{blocks as mdblocks, mdview, read_md};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use text_document::*;

pub const RULE: &str = "Selections at generated positions of documents from generated rich content, editing histories or HTML imports: plain text, HTML and Markdown of the fragment are read by independent readers and compared with the selected part of the flow, the fragment and its HTML are pasted into fresh documents, and whole documents are cloned through from_document. Non-trivial: the fragment has two blocks or a formatted character; counted distinct by the generated input.";

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Src { Built(Vec<DB>), Hist(Hist), Html(String) }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case { pub src: Src, pub a: P, pub b: P }
/// What a fragment must hold of one paragraph.
struct Want { chars: Vec<Ch>, full: bool, fmt: BlockFormat, list: Option<(ListStyle, u8)>, frags: Vec<Frag> }
fn wants(d: &TextDocument, a: usize, b: usize) -> Vec<Want> {
    let fl = flow(d);
    let mut lv = vec![];
    leaves(&fl, &mut lv);
    let n = lv.len();
    let mut v = vec![];
    for (i, bl) in lv.into_iter().enumerate() {
        let (s, e) = (bl.pos, bl.pos + bl.len);
        if a == b || e < a || s >= b { continue }
        let (lo, hi) = (a.max(s) - s, b.min(e) - s);
        let full = lo == 0 && hi == bl.len && (b > e || i + 1 == n);
        v.push(Want { chars: chars(bl)[lo..hi].to_vec(), full, fmt: if full { bl.fmt.clone() } else { Default::default() }, list: if full { bl.list.as_ref().map(|l| (l.1.clone(), l.2)) } else { None }, frags: bl.frags.clone() });
    }
    v
}
fn plain_fmt(w: &Want) -> bool {
    let f = &w.fmt;
    w.list.is_none() && f.heading_level.is_none() && f.alignment.is_none() && f.indent.unwrap_or(0) == 0 && f.text_indent.unwrap_or(0) == 0 && f.marker.is_none()
        && f.top_margin.is_none() && f.bottom_margin.is_none() && f.left_margin.is_none() && f.right_margin.is_none() && f.line_height.is_none()
        && f.non_breakable_lines.is_none() && f.direction.is_none() && f.background_color.is_none() && f.is_code_block.is_none() && f.code_language.is_none()
}
fn style(f: &BlockFormat) -> String {
    let mut v = vec![];
    if let Some(a) = &f.alignment { v.push(format!("text-align: {}", match a { Alignment::Left => "left", Alignment::Right => "right", Alignment::Center => "center", Alignment::Justify => "justify" })) }
    if let Some(i) = f.indent && i > 0 { v.push(format!("margin-left: {i}em")) }
    if let Some(i) = f.text_indent && i != 0 { v.push(format!("text-indent: {i}px")) }
    for (n, m) in [("top", f.top_margin), ("bottom", f.bottom_margin), ("left", f.left_margin), ("right", f.right_margin)] { if let Some(m) = m { v.push(format!("margin-{n}: {m}px")) } }
    v.join("; ")
}
fn shorts<T: std::fmt::Debug>(t: &T) -> String { format!("{t:?}").chars().take(300).collect() }
fn text(w: &[Ch]) -> String { w.iter().map(|c| c.0).collect() }

pub fn make(s: &Src, st: &mut Stats) -> std::result::Result<TextDocument, String> {
    Ok(match s {
        Src::Built(v) => build(v)?,
        Src::Hist(h) => { let w = start(&h.init)?; for o in &h.ops { w.apply(o, st); } w.doc }
        Src::Html(h) => { let d = TextDocument::new(); set_html(&d, h)?; d }
    })
}
fn check(c: &Case, st: &mut Stats) -> Check {
    let d = make(&c.src, st)?;
    let w = World::new(d.clone());
    let (x, y) = (w.pos(&c.a), w.pos(&c.b));
    let before = observe(&d)?;
    w.cur.set_position(x, MoveMode::MoveAnchor);
    w.cur.set_position(y, MoveMode::KeepAnchor);
    // cursors keep out of grapheme clusters
    let (x, y) = (w.cur.anchor(), w.cur.position());
    let (a, b) = (x.min(y), x.max(y));
    let f = w.cur.selection();
    let want = wants(&d, a, b);
    if want.len() > 1 || want.iter().any(|w| w.chars.iter().any(|c| c.1 != 0)) { st.nontrivial() }
    exports(&f, &want, st)?;
    if let Some(x) = diff(&before, &observe(&d)?) { fail!("copying changed the document: {x}") }
    ensure_eq!((w.cur.anchor(), w.cur.position()), (x, y), "copying moved the cursor");
    Ok(())
}
fn exports(f: &DocumentFragment, want: &[Want], st: &mut Stats) -> Check {
    let plain = want.iter().map(|w| text(&w.chars)).collect::<Vec<_>>().join("\n");
    ensure_eq!(f.to_plain_text(), plain, "to_plain_text of the fragment");
    ensure_eq!(f.is_empty(), plain.is_empty(), "is_empty of the fragment");
    if want.is_empty() { ensure_eq!(f.to_markdown(), "", "Markdown of an empty fragment"); ensure!(read(&f.to_html(), true)?.is_empty(), "HTML of an empty fragment: {}", f.to_html()); return Ok(()) }
    // HTML
    let html = f.to_html();
    let got = read(&html, true).map_err(|e| format!("{e} in fragment HTML {}", shorts(&html)))?;
    let inline = want.len() == 1 && plain_fmt(&want[0]);
    if inline && want[0].chars.is_empty() { ensure!(got.iter().all(|g| g.chars.is_empty()), "HTML of an empty fragment: {html}"); return Ok(()) }
    ensure_eq!(got.len(), want.len(), "paragraphs in fragment HTML {}", shorts(&html));
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(g.chars == w.chars, "text or formats of paragraph {i} in fragment HTML: {} instead of {}", shorts(&g.chars), shorts(&w.chars));
        if let Some(l) = &w.list { ensure_eq!(g.tag, if ordered(&l.0) { "ol" } else { "ul" }, "list element of paragraph {i} in fragment HTML") }
        else if let Some(h) = w.fmt.heading_level { ensure_eq!(g.tag, format!("h{}", h.clamp(1, 6)), "element of paragraph {i} in fragment HTML") }
        else { ensure_eq!(g.tag, "p", "element of paragraph {i} in fragment HTML"); ensure_eq!(g.style, if inline { String::new() } else { style(&w.fmt) }, "style of paragraph {i} in fragment HTML") }
    }
    ensure_eq!(html.contains("<p"), !inline && html.contains("<p"), "paragraph element around an inline fragment");
    // and back
    let back = DocumentFragment::from_html(&html);
    let keep: Vec<&Want> = want.iter().filter(|w| !w.chars.is_empty()).collect();
    // white space at the edges of a line, and runs of it, collapse in HTML
    let exact = want.iter().all(|w| { let t = text(&w.chars); t.trim() == t && !t.contains("  ") && !t.contains(['\t', '\n', '\u{a0}', '\u{200b}']) });
    if exact && keep.len() == want.len() {
        let e = TextDocument::new();
        e.cursor().insert_fragment(&back).map_err(|e| format!("insert_fragment(from_html(to_html())): {e:#}"))?;
        let fl = flow(&e);
        let mut lv = vec![];
        leaves(&fl, &mut lv);
        ensure_eq!(lv.len(), want.len(), "paragraphs after pasting the fragment's HTML {}", shorts(&html));
        for (i, (g, w)) in lv.iter().zip(want).enumerate() {
            ensure!(chars(g) == w.chars, "paragraph {i} after pasting the fragment's HTML: {} instead of {}", shorts(&chars(g)), shorts(&w.chars));
            ensure_eq!(g.list.as_ref().map(|l| ordered(&l.1)), w.list.as_ref().map(|l| ordered(&l.0)), "list kind of paragraph {i} after pasting the fragment's HTML");
            if w.list.is_none() { ensure_eq!(g.fmt.heading_level, w.fmt.heading_level.map(|h| h.clamp(1, 6)), "heading of paragraph {i} after pasting the fragment's HTML") }
        }
        st.label("pasted back");
    }
    Ok(())
}
/// from_document pasted into a fresh document is the document.
fn check_clone(s: &Src, st: &mut Stats) -> Check {
    let d = make(s, st)?;
    let f = DocumentFragment::from_document(&d).map_err(|e| format!("from_document: {e:#}"))?;
    let want = wants(&d, 0, usize::MAX);
    if want.len() > 1 { st.nontrivial() }
    exports(&f, &want, st)?;
    if want.len() == 1 && want[0].chars.is_empty() { return Ok(()) }
    let e = TextDocument::new();
    e.cursor().insert_fragment(&f).map_err(|e| format!("insert_fragment(from_document()): {e:#}"))?;
    let fl = flow(&e);
    let mut lv = vec![];
    leaves(&fl, &mut lv);
    ensure_eq!(lv.iter().map(|b| b.text.clone()).collect::<Vec<_>>(), want.iter().map(|w| text(&w.chars)).collect::<Vec<_>>(), "paragraphs of the clone");
    for (i, (g, w)) in lv.iter().zip(&want).enumerate() {
        ensure!(g.frags == w.frags, "text or formats of paragraph {i} of the clone: {} instead of {}", shorts(&g.frags), shorts(&w.frags));
        ensure_eq!(g.list.as_ref().map(|l| (l.1.clone(), l.2)), w.list, "list of paragraph {i} of the clone");
        // an indent of 0 is no indent
        if !plain_fmt(w) || g.fmt != BlockFormat::default() { ensure_eq!(g.fmt, w.fmt, "format of paragraph {i} of the clone") }
    }
    crate::coh::coherent(&e, false).map_err(|e| format!("clone: {e}"))?;
    Ok(())
}
/// Markdown of fragments, for paragraphs Markdown can express.
fn check_md(v: &(Vec<DB>, P, P, bool), st: &mut Stats) -> Check {
    let d = build(&v.0)?;
    let f = if v.3 { DocumentFragment::from_document(&d).map_err(|e| format!("from_document: {e:#}"))? } else {
        let w = World::new(d.clone());
        // whole paragraphs: Markdown cannot cut words or keep white space at the edges
        let n = d.blocks().len();
        let pick = |p: &P| match p { P::Abs(a) => *a as usize % n, P::Start(a) | P::End(a) => *a as usize % n, P::Near(a) => a.unsigned_abs() as usize % n };
        let (i, j) = (pick(&v.1), pick(&v.2));
        let bl = d.blocks();
        let (i, j) = (i.min(j), i.max(j));
        let end = if j + 1 < n { bl[j + 1].position() } else { bl[j].position() + bl[j].length() };
        w.cur.set_position(bl[i].position(), MoveMode::MoveAnchor);
        w.cur.set_position(end, MoveMode::KeepAnchor);
        let all = rt(&d);
        // an empty last paragraph is outside a selection that ends where it starts
        let j2 = if j > i && bl[j].length() == 0 && j + 1 == n { j - 1 } else { j };
        let src = if bl[i].position() == end { vec![] } else { mdview(all[i..=j2].to_vec()) };
        return md_same(&w.cur.selection(), &src, st);
    };
    md_same(&f, &mdview(rt(&d)), st)
}
fn md_same(f: &DocumentFragment, src: &[RtB], st: &mut Stats) -> Check {
    if src.len() > 1 || src.iter().any(|b| b.chars.iter().any(|c| c.1 != 0)) { st.nontrivial() }
    let md = f.to_markdown();
    same(&read_md(&md)?, src, &format!("reading the fragment's Markdown {}", shorts(&md)))
}
fn src() -> impl Strategy<Value = Src> + Clone {
    prop_oneof![
        3 => proptest::collection::vec(db(true), 1..5).prop_map(Src::Built),
        3 => std::rc::Rc::new(hist(FLAT, 7)).prop_map(Src::Hist),
        1 => std::rc::Rc::new(imp()).prop_map(|i| Src::Html(i.html())),
    ]
}
pub fn run(c: &mut Ctx) {
    let n = c.cases(20_000, 300_000);
    c.sub("selection", n, || (src(), pos(), pos()).prop_map(|(src, a, b)| Case { src, a, b }), check);
    let n = c.cases(10_000, 200_000);
    c.sub("clone", n, src, check_clone);
    let n = c.cases(10_000, 200_000);
    c.sub("markdown", n, || (mdblocks(), pos(), pos(), any::<bool>()), check_md);
}
