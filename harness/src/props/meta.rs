//! P21: document properties and resources: kept, and undone one by one with everything else.
use crate::engine::*;
use crate::ops::*;
use crate::props::html::set_html;
use crate::props::md::set_md;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use text_document::*;

pub const RULE: &str = "Random histories of title, direction, wrap mode and resource changes between edits, undo, redo, loads and cleared histories, against a timeline of states. Non-trivial: at least three property or resource changes and one undo or load; counted distinct by the generated history.";

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum E { Title(String), Dir(bool), Wrap(u8), Res(u8, u8, String), Text(P, String), Type(P, String), Op(Op), Undo, Redo, Load(String), Html(String), Md(String), Clear, ClearHistory, Group(Vec<E>) }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case { pub evs: Vec<E> }

#[derive(Debug, Clone, PartialEq)]
struct S { title: String, dir: TextDirection, wrap: WrapMode, res: BTreeMap<String, Vec<u8>>, text: String }
const NAMES: [&str; 5] = ["img", "style.css", "", "日 é", "IMG"];
fn wrap(k: u8) -> WrapMode { match k % 4 { 0 => WrapMode::NoWrap, 1 => WrapMode::WordWrap, 2 => WrapMode::WrapAnywhere, _ => WrapMode::WrapAtWordBoundaryOrAnywhere } }
fn read(d: &TextDocument) -> std::result::Result<S, String> {
    let mut res = BTreeMap::new();
    for n in NAMES {
        if let Some(b) = d.resource(n).map_err(|e| format!("resource {n:?}: {e:#}"))? { res.insert(n.to_string(), b); }
    }
    Ok(S { title: d.title(), dir: d.text_direction(), wrap: d.default_wrap_mode(), res, text: d.to_plain_text().map_err(|e| format!("{e:#}"))? })
}
struct T { tl: Vec<(S, bool, bool)>, cur: usize }
impl T {
    /// Typing may be merged into the step before if that is typing as well.
    fn push(&mut self, s: S, typing: bool) { self.tl.truncate(self.cur + 1); let m = typing && self.tl[self.cur].2; self.tl.push((s, m, typing)); self.cur += 1 }
    fn reset(&mut self, s: S) { self.tl = vec![(s, false, false)]; self.cur = 0 }
}
/// Make one change and apply it to the expected state. None: not applicable; Some(is text change).
fn step(w: &World, e: &E, s: &mut S, st: &mut Stats) -> std::result::Result<Option<bool>, String> {
    let er = |e: anyhow::Error| format!("{e:#}");
    let d = &w.doc;
    match e {
        E::Title(t) => { d.set_title(t).map_err(er)?; s.title = t.clone() }
        E::Dir(b) => { let v = if *b { TextDirection::RightToLeft } else { TextDirection::LeftToRight }; d.set_text_direction(v).map_err(er)?; s.dir = d.text_direction(); ensure_eq!(format!("{:?}", s.dir), if *b { "RightToLeft" } else { "LeftToRight" }, "direction just set") }
        E::Wrap(k) => { d.set_default_wrap_mode(wrap(*k)).map_err(er)?; s.wrap = wrap(*k) }
        E::Res(t, n, data) => {
            let ty = match t % 3 { 0 => ResourceType::Image, 1 => ResourceType::StyleSheet, _ => ResourceType::Other };
            let n = NAMES[*n as usize % 5];
            let bytes: Vec<u8> = data.bytes().flat_map(|b| [b, b ^ 0xff]).collect();
            d.add_resource(ty, n, ["image/png", "text/css", ""][*t as usize % 3], &bytes).map_err(er)?;
            s.res.insert(n.to_string(), bytes);
        }
        E::Text(p, t) => { let c = d.cursor_at(w.pos(p)); c.insert_fragment(&DocumentFragment::from_plain_text(t)).map_err(er)?; s.text = d.to_plain_text().map_err(er)?; return Ok(Some(true)) }
        E::Type(p, t) => { let c = d.cursor_at(w.pos(p)); c.insert_text(t).map_err(er)?; s.text = d.to_plain_text().map_err(er)?; return Ok(Some(true)) }
        E::Op(o) => { match w.apply(o, st) { Some(Ok(())) => { s.text = d.to_plain_text().map_err(er)?; return Ok(Some(true)) } _ => { s.text = d.to_plain_text().map_err(er)?; return Ok(None) } } }
        _ => return Ok(None),
    }
    Ok(Some(false))
}
fn check(c: &Case, st: &mut Stats) -> Check {
    let w = World::new(TextDocument::new());
    let d = &w.doc;
    let er = |e: anyhow::Error| format!("{e:#}");
    let mut t = T { tl: vec![(read(d)?, false, false)], cur: 0 };
    let (mut props, mut hist) = (0, 0);
    let mut told = (false, false);
    d.poll_events();
    for (i, e) in c.evs.iter().enumerate() {
        let what = format!("step {i} ({})", match e { E::Op(o) => kind(o).to_string(), e => format!("{e:?}").chars().take(50).collect() });
        let mut s = t.tl[t.cur].0.clone();
        match e {
            E::Undo | E::Redo => {
                let back = matches!(e, E::Undo);
                let can = if back { t.cur > 0 } else { t.cur + 1 < t.tl.len() };
                if !can { ensure!(!(if back { d.can_undo() } else { d.can_redo() }), "{what}: possible although nothing is left"); continue }
                if back { d.undo() } else { d.redo() }.map_err(|e| format!("{what}: {e:#}"))?;
                let o = read(d)?;
                if back {
                    // typing may have been merged into one step
                    while t.tl[t.cur].1 && t.cur > 1 && o != t.tl[t.cur - 1].0 { t.tl.remove(t.cur - 1); t.cur -= 1; }
                    t.cur -= 1;
                } else { t.cur += 1 }
                hist += 1;
                s = t.tl[t.cur].0.clone();
            }
            E::Load(x) => { d.set_plain_text(x).map_err(er)?; s.text = d.to_plain_text().map_err(er)?; t.reset(s.clone()); hist += 1 }
            E::Html(x) => { set_html(d, x)?; s.text = d.to_plain_text().map_err(er)?; t.reset(s.clone()); hist += 1 }
            E::Md(x) => { set_md(d, x)?; s.text = d.to_plain_text().map_err(er)?; t.reset(s.clone()); hist += 1 }
            E::Clear => { d.clear().map_err(er)?; s.text = d.to_plain_text().map_err(er)?; t.reset(s.clone()); hist += 1 }
            E::ClearHistory => { d.clear_undo_redo(); t.reset(s.clone()) }
            E::Group(v) => {
                let cur = d.cursor();
                cur.begin_edit_block();
                let mut any = false;
                let mut r = Ok(());
                for x in v {
                    match step(&w, x, &mut s, st) { Ok(Some(false)) => { any = true; props += 1 } Ok(Some(true)) => any = true, Ok(None) => {}, Err(m) => { r = Err(m); break } }
                }
                cur.end_edit_block();
                r.map_err(|m| format!("{what}: {m}"))?;
                if any { t.push(s.clone(), false); st.label("group") } else { s = t.tl[t.cur].0.clone() }
            }
            e => match step(&w, e, &mut s, st).map_err(|m| format!("{what}: {m}"))? {
                None => { t.tl[t.cur].0.text = s.text.clone() }
                Some(txt) => {
                    if !txt { props += 1; st.label(match e { E::Title(_) => "title", E::Dir(_) => "direction", E::Wrap(_) => "wrap", _ => "resource" }) }
                    t.push(s.clone(), matches!(e, E::Type(..)))
                }
            }
        }
        let o = read(d)?;
        if o != s {
            macro_rules! f { ($($n:ident),*) => { $( ensure_eq!(o.$n, s.$n, "{what}: {}", stringify!($n)); )* } }
            f!(title, dir, wrap, res, text);
        }
        ensure_eq!((d.can_undo(), d.can_redo()), (t.cur > 0, t.cur + 1 < t.tl.len()), "{what}: undo and redo possible");
        for ev in d.poll_events() { if let DocumentEvent::UndoRedoChanged { can_undo, can_redo } = ev { told = (can_undo, can_redo) } }
        ensure_eq!(told, (d.can_undo(), d.can_redo()), "{what}: undo and redo possible as announced");
    }
    if props >= 3 && hist > 0 { st.nontrivial() }
    Ok(())
}
fn case() -> impl Strategy<Value = Case> {
    let t = || text(2, 4);
    let title = prop_oneof![3 => "[a-c]{1,3}".boxed(), 1 => "[ <&日\"]{0,3}".boxed()];
    let one = prop_oneof![
        3 => title.prop_map(E::Title), 2 => any::<bool>().prop_map(E::Dir), 2 => (0u8..4).prop_map(E::Wrap),
        5 => (0u8..3, prop_oneof![3 => 0u8..2, 1 => 0u8..5], "[a-z]{0,3}").prop_map(|(a, b, c)| E::Res(a, b, c)),
        2 => (pos(), "[a-c]{1,3}(\n[a-c]{0,2})?").prop_map(|(p, t)| E::Text(p, t)), 2 => (pos(), "[a-c]{1,2}").prop_map(|(p, t)| E::Type(p, t)),
    ];
    let one = one.boxed();
    let e = prop_oneof![
        16 => one.clone(),
        5 => Just(E::Undo), 4 => Just(E::Redo), 1 => t().prop_map(E::Load), 1 => Just(E::Clear), 1 => Just(E::ClearHistory),
        2 => proptest::collection::vec(one, 0..4).prop_map(E::Group),
        1 => proptest::sample::select(HTMLS).prop_map(|h| E::Html(h.into())), 1 => proptest::sample::select(MDS).prop_map(|h| E::Md(h.into())),
    ];
    proptest::collection::vec(e, 2..16).prop_map(|evs| Case { evs })
}
pub fn run(c: &mut Ctx) {
    let n = c.cases(60_000, 1_000_000);
    c.sub("timeline", n, case, check);
}
