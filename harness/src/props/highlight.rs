//! P17: highlights shown are always those of the current text, and only shown.
use crate::engine::*;
use crate::obs::*;
use crate::ops::*;
use crate::props::html::set_html;
use crate::props::md::set_md;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU8, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use text_document::*;

pub const RULE: &str = "Random histories on a document with a stateful highlighter (state carried from paragraph to paragraph, overlapping, empty and overlong spans of every attribute) in lock step with a twin without one; after every step the shown formats must be the twin's overlaid with a fresh highlighting of the current text. Non-trivial: at least two edits and at least two paragraphs with spans at some step; counted distinct by the generated history.";

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum E { Op(Op), Undo, Redo, Load(String), Html(String), Md(String), Clear, Rules(u8), Block(u8), Off, On }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case { pub init: String, pub rules: u8, pub evs: Vec<E> }

/// The highlighting of one paragraph: a pure function of text, incoming state and rules.
fn lex(text: &str, prev: i64, r: u8) -> (Vec<HighlightSpan>, i64) {
    let n = text.chars().count();
    let p = prev.max(0);
    let mut depth = p;
    let mut v = vec![];
    let col = |x: i64| Some(Color { red: x as u8, green: 7, blue: r, alpha: 255 });
    let mut push = |start, length, format| v.push(HighlightSpan { start, length, format });
    if p > 0 { push(0, n, HighlightFormat { background_color: col(p), font_italic: Some(true), tooltip: Some(format!("in {p}")), ..Default::default() }) }
    for (i, c) in text.chars().enumerate() {
        match c {
            '(' | 'a' => { depth += 1; push(i, n + 3 - i, HighlightFormat { foreground_color: col(depth), letter_spacing: Some(depth as i32), ..Default::default() }) }
            ')' | 'e' => { depth = (depth - 1).max(0); push(i, 1, HighlightFormat { font_bold: Some(true), underline_style: Some(UnderlineStyle::WaveUnderline), underline_color: col(9), ..Default::default() }) }
            '!' => { depth = 0; push(i.saturating_sub(3), 5, HighlightFormat { font_italic: Some(false), font_underline: Some(false), font_overline: Some(false), font_strikeout: Some(true), ..Default::default() }) }
            'b'..='d' => push(i, 2, HighlightFormat { font_bold: Some(false), font_weight: Some(300), font_family: Some("Mono".into()), ..Default::default() }),
            'A'..='E' if r & 2 != 0 => push(i.saturating_sub(1), 3, HighlightFormat { font_point_size: Some(7), font_underline: Some(true), word_spacing: Some(2), vertical_alignment: Some(CharVerticalAlignment::SubScript), ..Default::default() }),
            ' ' => push(i, 0, HighlightFormat { font_strikeout: Some(true), ..Default::default() }),
            '日' | 'é' => push(0, i, HighlightFormat { font_overline: Some(true), font_strikeout: Some(false), ..Default::default() }),
            _ => {}
        }
    }
    let depth = depth.min(3);
    // "no state" is -1
    (v, if depth == 0 && r & 1 == 0 { -1 } else { depth })
}
struct H { rules: Arc<AtomicU8>, bad: Arc<Mutex<Option<String>>>, calls: Arc<AtomicUsize> }
impl SyntaxHighlighter for H {
    fn highlight_block(&self, text: &str, ctx: &mut HighlightContext) {
        self.calls.fetch_add(1, Ordering::Relaxed);
        let (spans, state) = lex(text, ctx.previous_block_state(), self.rules.load(Ordering::Relaxed));
        for s in spans { ctx.set_format(s.start, s.length, s.format) }
        ctx.set_current_block_state(state);
        let id = ctx.block_id();
        if let Some(d) = ctx.user_data() && d.downcast_ref::<usize>() != Some(&id) {
            *self.bad.lock().unwrap() = Some(format!("block {id} was handed the user data of block {:?}", d.downcast_ref::<usize>()));
        }
        ctx.set_user_data(Box::new(id));
    }
}
fn over(f: &TextFormat, spans: &[HighlightSpan], i: usize) -> TextFormat {
    let mut f = f.clone();
    for s in spans {
        if !(s.start <= i && i < s.start + s.length) { continue }
        let h = &s.format;
        macro_rules! set { ($($n:ident),*) => { $( if h.$n.is_some() { f.$n = h.$n.clone() } )* } }
        set!(foreground_color, background_color, underline_color, font_family, font_point_size, font_weight, font_bold, font_italic, font_underline, font_overline, font_strikeout, letter_spacing, word_spacing, underline_style, vertical_alignment, tooltip);
    }
    f
}
fn per_char(frags: &[Frag]) -> Vec<(char, TextFormat)> {
    frags.iter().flat_map(|f| match f { Frag::Text { text, fmt, .. } => text.chars().map(|c| (c, fmt.clone())).collect::<Vec<_>>(), Frag::Image { fmt, .. } => vec![('\u{fffc}', fmt.clone())] }).collect()
}
/// The shown document must be the twin overlaid with a fresh highlighting.
fn same(d: &TextDocument, t: &TextDocument, rules: Option<u8>, what: &str) -> std::result::Result<usize, String> {
    let (o, p) = (observe(d)?, observe(t)?);
    ensure_eq!(o.plain, p.plain, "{what}: highlighting changed the text");
    ensure_eq!((&o.html, &o.md, &o.latex, &o.stats, &o.title), (&p.html, &p.md, &p.latex, &p.stats, &p.title), "{what}: highlighting changed an export or statistic");
    ensure_eq!((d.can_undo(), d.can_redo()), (t.can_undo(), t.can_redo()), "{what}: highlighting changed the undo history");
    let (mut a, mut b) = (vec![], vec![]);
    leaves(&o.flow, &mut a);
    leaves(&p.flow, &mut b);
    ensure_eq!(a.len(), b.len(), "{what}: paragraphs");
    let mut prev = -1;
    let mut with = 0;
    let raw = d.blocks();
    for (k, (x, y)) in a.iter().zip(&b).enumerate() {
        ensure!((&x.text, x.pos, x.len, &x.fmt, &x.list) == (&y.text, y.pos, y.len, &y.fmt, &y.list), "{what}: highlighting changed paragraph {k}: {x:?} instead of {y:?}");
        let (spans, state) = match rules { Some(r) => lex(&y.text, prev, r), None => (vec![], -1) };
        if !spans.is_empty() { with += 1 }
        let want: Vec<(char, TextFormat)> = per_char(&y.frags).into_iter().enumerate().map(|(i, (c, f))| (c, over(&f, &spans, i))).collect();
        let got = per_char(&x.frags);
        if got != want {
            let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
            fail!("{what}: character {i} of paragraph {k} ({:?}) is shown as {:?} instead of {:?} (incoming state {prev})", y.text, got.get(i), want.get(i));
        }
        // the pieces tile the paragraph, here and through TextBlock
        for fr in [&d.snapshot_flow().elements.iter().filter_map(|e| if let FlowElementSnapshot::Block(b) = e { Some(b.fragments.clone()) } else { None }).nth(k).unwrap_or_default(), &raw[k].fragments()] {
            let mut at = 0;
            let mut s = String::new();
            for f in fr { match f {
                FragmentContent::Text { text, offset, length, .. } => { ensure_eq!((*offset, *length), (at, text.chars().count()), "{what}: offset and length of a piece of paragraph {k}"); at += length; s.push_str(text) }
                FragmentContent::Image { offset, .. } => { ensure_eq!(*offset, at, "{what}: offset of an image"); at += 1 }
            } }
            ensure_eq!(s, y.text, "{what}: pieces of paragraph {k}");
            let fr: Vec<Frag> = fr.iter().map(frag).collect();
            ensure!(per_char(&fr) == want, "{what}: TextBlock::fragments of paragraph {k} differ from the snapshot");
        }
        prev = state;
    }
    Ok(with)
}
fn check(c: &Case, st: &mut Stats) -> Check {
    let (w, t) = (start(&c.init)?, start(&c.init)?);
    let rules = Arc::new(AtomicU8::new(c.rules));
    let bad = Arc::new(Mutex::new(None));
    let calls = Arc::new(AtomicUsize::new(0));
    let h: Arc<dyn SyntaxHighlighter> = Arc::new(H { rules: rules.clone(), bad: bad.clone(), calls: calls.clone() });
    w.doc.set_syntax_highlighter(Some(h.clone()));
    let mut on = true;
    let now = |on: bool| if on { Some(rules.load(Ordering::Relaxed)) } else { None };
    let mut most = same(&w.doc, &t.doc, now(on), "after attaching")?;
    let mut edits = 0;
    for (i, e) in c.evs.iter().enumerate() {
        let what = format!("step {i} ({})", match e { E::Op(o) => kind(o).to_string(), e => format!("{e:?}").chars().take(60).collect() });
        let both = |f: &dyn Fn(&TextDocument) -> std::result::Result<(), String>| -> Check {
            let (a, b) = (f(&w.doc), f(&t.doc));
            ensure_eq!(a, b, "{what}: outcome with and without highlighter");
            Ok(())
        };
        let s = |e: anyhow::Error| format!("{e:#}");
        match e {
            E::Op(o) => {
                let a = w.apply(o, st).map(|r| r.map_err(s));
                let b = t.apply(o, &mut Stats::default()).map(|r| r.map_err(s));
                ensure_eq!(a, b, "{what}: outcome with and without highlighter");
                ensure_eq!((w.cur.anchor(), w.cur.position()), (t.cur.anchor(), t.cur.position()), "{what}: cursor with and without highlighter");
                if a == Some(Ok(())) { edits += 1; st.label(kind(o)) }
            }
            E::Undo => if t.doc.can_undo() { both(&|d| d.undo().map_err(s))?; edits += 1 },
            E::Redo => if t.doc.can_redo() { both(&|d| d.redo().map_err(s))?; edits += 1 },
            E::Load(x) => both(&|d| d.set_plain_text(x).map_err(s))?,
            E::Html(x) => both(&|d| set_html(d, x).map(|_| ()))?,
            E::Md(x) => both(&|d| set_md(d, x).map(|_| ()))?,
            E::Clear => both(&|d| d.clear().map_err(s))?,
            E::Rules(r) => { rules.store(*r, Ordering::Relaxed); w.doc.rehighlight() }
            E::Block(k) => { let b = w.doc.blocks(); w.doc.rehighlight_block(b[*k as usize % b.len()].id()) }
            E::Off => { w.doc.set_syntax_highlighter(None); on = false }
            E::On => { w.doc.set_syntax_highlighter(Some(h.clone())); on = true }
        }
        most = most.max(same(&w.doc, &t.doc, now(on), &what)?);
        if let Some(m) = bad.lock().unwrap().take() { fail!("{what}: {m}") }
    }
    if edits >= 2 && most >= 2 { st.nontrivial() }
    Ok(())
}
fn case() -> impl Strategy<Value = Case> {
    let p = Prof { groups: true, ..FLAT };
    let t = || proptest::collection::vec("[a-e(!) ]{0,4}", 1..5).prop_map(|v| v.join("\n"));
    let e = prop_oneof![
        14 => op(p).prop_map(E::Op),
        3 => (pos(), t()).prop_map(|(p, t)| E::Op(Op::FragPlain(p, t))), 3 => (pos(), "[a-e()!]{1,2}").prop_map(|(p, t)| E::Op(Op::Ins(p, t))), 2 => pos().prop_map(|p| E::Op(Op::DelPrev(p))),
        3 => Just(E::Undo), 2 => Just(E::Redo), 1 => t().prop_map(E::Load), 1 => Just(E::Clear), 1 => any::<u8>().prop_map(E::Rules), 1 => any::<u8>().prop_map(E::Block), 1 => Just(E::Off), 1 => Just(E::On),
        1 => proptest::sample::select(HTMLS).prop_map(|h| E::Html(h.into())), 1 => proptest::sample::select(MDS).prop_map(|h| E::Md(h.into())),
    ];
    (prop_oneof![1 => init(3, 3), 2 => t().boxed()], 0u8..4, steps(e.boxed(), 1..10)).prop_map(|(init, rules, evs)| Case { init, rules, evs })
}
pub fn run(c: &mut Ctx) {
    let n = c.cases(50_000, 600_000);
    c.sub("lockstep", n, case, check);
}
