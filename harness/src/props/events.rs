//! P16: change events tell the truth, on both delivery paths.
use crate::engine::*;
use crate::obs::*;
use crate::ops::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use text_document::*;

pub const RULE: &str = "Random histories of edits, formatting, lists, undo, redo, loads and flag changes, with a callback that reads the document from inside, subscriptions that come and go, and polling at generated moments; a mirror is kept from events alone. Non-trivial: at least two calls changed the document; counted distinct by the generated history.";

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum E { Op(Op), Undo, Redo, Load(String), Clear, Modified(bool), Poll, Sub, Unsub(u8), Begin, End }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case { pub init: String, pub evs: Vec<E> }

fn case() -> impl Strategy<Value = Case> {
    let p = Prof { groups: true, ..FLAT };
    let e = prop_oneof![
        16 => op(p).prop_map(E::Op), 4 => Just(E::Undo), 3 => Just(E::Redo), 1 => text(3, 2).prop_map(E::Load), 1 => Just(E::Clear),
        1 => any::<bool>().prop_map(E::Modified), 3 => Just(E::Poll), 1 => Just(E::Sub), 1 => any::<u8>().prop_map(E::Unsub),
    ];
    (init(3, 3), steps(e.boxed(), 1..12)).prop_map(|(init, evs)| Case { init, evs })
}
type Log = Arc<Mutex<Vec<DocumentEvent>>>;
/// The document, for its callbacks; emptied at the end, or it would keep itself alive.
struct Slot(Arc<Mutex<Option<TextDocument>>>);
impl Drop for Slot { fn drop(&mut self) { let d = self.0.lock().unwrap().take(); drop(d) } }
fn subscribe(d: &Slot) -> (Subscription, Log) {
    let log: Log = Default::default();
    let (l, s) = (log.clone(), d.0.clone());
    let d = d.0.lock().unwrap().clone().unwrap();
    // a callback may use the document
    let s = d.on_change(move |e| {
        let d = s.lock().unwrap().clone();
        if let Some(d) = d { let _ = (d.block_count(), d.to_plain_text(), d.can_undo()); }
        l.lock().unwrap().push(e)
    });
    (s, log)
}
/// What a view sees of each character and of each block.
#[derive(PartialEq, Clone)]
struct View { text: Vec<char>, cf: Vec<Option<TextFormat>>, bf: Vec<(usize, usize, BlockFormat, Option<(ListStyle, u8)>)>, ids: Vec<u64> }
fn view(d: &TextDocument) -> View {
    let fl = flow(d);
    let mut lv = vec![];
    leaves(&fl, &mut lv);
    let mut v = View { text: vec![], cf: vec![], bf: vec![], ids: vec![] };
    for (i, b) in lv.iter().enumerate() {
        if i > 0 { v.text.push('\n'); v.cf.push(None) }
        for f in &b.frags { match f {
            Frag::Text { text, fmt, .. } => for c in text.chars() { v.text.push(c); v.cf.push(Some(fmt.clone())) },
            Frag::Image { fmt, .. } => { v.text.push('\u{fffc}'); v.cf.push(Some(fmt.clone())) }
        } }
        v.bf.push((b.pos, b.len, b.fmt.clone(), b.list.clone().map(|l| (l.1, l.2)) /* not the marker: an item's number follows from the items before it */));
    }
    v.ids = d.flow().iter().map(|e| match e { FlowElement::Block(b) => b.id() as u64, FlowElement::Frame(f) => f.id() as u64 + (1 << 40), FlowElement::Table(t) => t.id() as u64 + (1 << 41) }).collect();
    v
}
fn check(c: &Case, st: &mut Stats) -> Check {
    let w = start(&c.init)?;
    let d = &w.doc;
    let slot = Slot(Arc::new(Mutex::new(Some(d.clone()))));
    let main = subscribe(&slot);
    d.poll_events();
    main.1.lock().unwrap().clear();
    let mut others: Vec<(Option<Subscription>, Log, usize)> = vec![];
    let mut all: Vec<DocumentEvent> = vec![]; // everything since the start, as called back
    let mut polled: Vec<DocumentEvent> = vec![];
    let mut changed = 0;
    // the edits of an edit block are steps of their own
    let evs: Vec<E> = c.evs.iter().flat_map(|e| match e { E::Op(Op::Group(v)) => [E::Begin].into_iter().chain(v.iter().cloned().map(E::Op)).chain([E::End]).collect(), e => vec![e.clone()] }).collect();
    for (i, e) in evs.iter().enumerate() {
        let (a, blocks, undo, modi) = (view(d), d.block_count(), (d.can_undo(), d.can_redo()), d.is_modified());
        let what = format!("step {i} ({})", match e { E::Op(o) => kind(o).to_string(), e => format!("{e:?}") });
        let mut replace = false;
        match e {
            E::Op(o) => {
                replace = matches!(o, Op::Replace(..));
                match w.apply(o, st) { Some(Err(_)) => st.label("op returned an error"), Some(Ok(())) => st.label(kind(o)), None => {} }
            }
            E::Undo => if d.can_undo() { d.undo().map_err(|e| format!("undo: {e:#}"))?; st.label("undo") },
            E::Redo => if d.can_redo() { if let Err(e) = d.redo() { if format!("{e:#}").contains("not found") { st.label("redo of a re-created entity (P02's known finding)"); return Ok(()) } fail!("redo: {e:#}") } st.label("redo") },
            E::Load(t) => d.set_plain_text(t).map_err(|e| format!("{e:#}"))?,
            E::Clear => d.clear().map_err(|e| format!("{e:#}"))?,
            E::Modified(b) => d.set_modified(*b),
            E::Begin => w.cur.begin_edit_block(),
            E::End => { w.cur.end_edit_block(); st.label("edit block") }
            E::Poll => polled.extend(d.poll_events()),
            E::Sub => { let s = subscribe(&slot); others.push((Some(s.0), s.1, all.len())) }
            E::Unsub(k) => if !others.is_empty() {
                let k = *k as usize % others.len();
                let o = &mut others[k];
                if o.0.take().is_some() { ensure!(*o.1.lock().unwrap() == all[o.2..], "{what}: a second subscriber saw other events than the first") ; o.2 = usize::MAX; o.1.lock().unwrap().clear() }
            },
        }
        let ev: Vec<DocumentEvent> = std::mem::take(&mut *main.1.lock().unwrap());
        all.extend(ev.iter().cloned());
        for o in &others { ensure!(o.2 != usize::MAX || o.1.lock().unwrap().is_empty(), "{what}: events delivered after the subscription was dropped"); }
        let b = view(d);
        if a != b { changed += 1 }
        let reset = ev.iter().any(|e| matches!(e, DocumentEvent::DocumentReset));
        // flags and counts
        let (nb, nu, nm) = (d.block_count(), (d.can_undo(), d.can_redo()), d.is_modified());
        let last = ev.iter().rev().find_map(|e| if let DocumentEvent::BlockCountChanged(n) = e { Some(*n) } else { None });
        if let Some(n) = last { ensure_eq!(n, nb, "{what}: announced block count") }
        ensure_eq!(last.is_some(), nb != blocks, "{what}: block count went from {blocks} to {nb}; announced");
        let last = ev.iter().rev().find_map(|e| if let DocumentEvent::UndoRedoChanged { can_undo, can_redo } = e { Some((*can_undo, *can_redo)) } else { None });
        if let Some(x) = last { ensure_eq!(x, nu, "{what}: announced undo/redo availability") } else { ensure_eq!(undo, nu, "{what}: undo/redo availability changed without announcement") }
        let last = ev.iter().rev().find_map(|e| if let DocumentEvent::ModificationChanged(m) = e { Some(*m) } else { None });
        if let Some(x) = last { ensure_eq!(x, nm, "{what}: announced modified flag") } else { ensure_eq!(modi, nm, "{what}: modified flag changed without announcement") }
        // contents
        let cc: Vec<(usize, usize, usize)> = ev.iter().filter_map(|e| if let DocumentEvent::ContentsChanged { position, chars_removed, chars_added, .. } = e { Some((*position, *chars_removed, *chars_added)) } else { None }).collect();
        let fc: Vec<(usize, usize)> = ev.iter().filter_map(|e| if let DocumentEvent::FormatChanged { position, length, .. } = e { Some((*position, *length)) } else { None }).collect();
        if !reset {
            if a.text != b.text {
                ensure!(!cc.is_empty(), "{what}: the text changed without ContentsChanged");
                if cc.len() == 1 && !replace {
                    let (p, r, n) = cc[0];
                    ensure!(p + r <= a.text.len() && p + n <= b.text.len(), "{what}: announced change ({p}, -{r}, +{n}) outside the document ({} to {} characters)", a.text.len(), b.text.len());
                    ensure_eq!(a.text[..p].iter().collect::<String>(), b.text[..p].iter().collect::<String>(), "{what}: text before the announced change ({p}, -{r}, +{n})");
                    ensure_eq!(a.text[p + r..].iter().collect::<String>(), b.text[p + n..].iter().collect::<String>(), "{what}: text after the announced change ({p}, -{r}, +{n})");
                    // formats outside the announced change
                    let told = |k: usize| fc.iter().any(|(p, l)| *p <= k && k < p + l);
                    for k in 0..p { ensure!(a.cf[k] == b.cf[k] || told(k), "{what}: the format of character {k} changed; announced only {ev:?}") }
                    for (k, j) in (p + r..a.text.len()).zip(p + n..) { ensure!(a.cf[k] == b.cf[j] || told(j), "{what}: the format of character {j} (before: {k}) changed; announced only {ev:?}") }
                    for x in a.bf.iter().filter(|x| x.0 + x.1 < p || x.0 > p + r) {
                        let at = if x.0 > p + r { x.0 + n - r } else { x.0 };
                        let Some(y) = b.bf.iter().find(|y| y.0 == at) else { fail!("{what}: no block at {at}") };
                        if (&x.2, &x.3) != (&y.2, &y.3) {
                            ensure!(ev.iter().any(|e| matches!(e, DocumentEvent::FormatChanged { kind: FormatChangeKind::List, length: 0, .. })) && x.2 == y.2 || fc.iter().any(|(p, l)| *p <= y.0 + y.1 && y.0 <= p + l), "{what}: the format or list of the block at {at} changed; announced only {ev:?}");
                        }
                    }
                }
            } else if a.cf != b.cf {
                for k in 0..a.cf.len() { if a.cf[k] != b.cf[k] {
                    ensure!(fc.iter().any(|(p, l)| *p <= k && k < p + l) || cc.iter().any(|(p, _, n)| *p <= k && k < p + n) || replace, "{what}: the format of character {k} changed; announced only {ev:?}");
                } }
            }
            if a.text == b.text && a.bf.len() == b.bf.len() {
                for (x, y) in a.bf.iter().zip(&b.bf) { if x != y {
                    ensure!(ev.iter().any(|e| matches!(e, DocumentEvent::FormatChanged { kind: FormatChangeKind::List, length: 0, .. })) && x.2 == y.2 || fc.iter().chain(cc.iter().map(|(p, _, n)| (*p, *n)).collect::<Vec<_>>().iter()).any(|(p, l)| *p <= y.0 + y.1 && y.0 <= p + l) || replace, "{what}: the format or list of the block at {} changed; announced only {ev:?}", y.0);
                } }
            }
        }
        // flow mirror
        let mut ids = a.ids.clone();
        if reset { ids = b.ids.clone() } else {
            for e in &ev { match e {
                DocumentEvent::FlowElementsRemoved { flow_index, count } => { ensure!(flow_index + count <= ids.len(), "{what}: removed elements {flow_index}+{count} of {}", ids.len()); ids.drain(*flow_index..flow_index + count); }
                DocumentEvent::FlowElementsInserted { flow_index, count } => { ensure!(*flow_index <= ids.len() && flow_index + count <= b.ids.len(), "{what}: inserted elements {flow_index}+{count}"); for k in 0..*count { ids.insert(flow_index + k, b.ids[flow_index + k]) } }
                _ => {}
            } }
        }
        ensure_eq!(ids, b.ids, "{what}: flow elements according to the events");
    }
    polled.extend(d.poll_events());
    ensure!(polled == all, "poll_events delivered {polled:?} but on_change {all:?}");
    for o in &others { if o.2 != usize::MAX { ensure!(*o.1.lock().unwrap() == all[o.2..], "a second subscriber saw other events than the first") } }
    if changed >= 2 { st.nontrivial() }
    Ok(())
}
pub fn run(c: &mut Ctx) {
    let n = c.cases(120_000, 1_500_000);
    c.sub("history", n, case, check);
}
