//! P01/P07/P08: the document follows the reference model step by step.
use crate::engine::*;
use crate::model::*;
use crate::obs::*;
use crate::ops::*;
use proptest::prelude::{Strategy, any, prop_oneof};
use text_document::*;

pub const RULE: &str = "Random editing histories run against the real document and a reference model side by side; the whole visible state is compared after every operation. Non-trivial: at least 3 operations were applied and at least one of them changed the document; counted distinct by the generated history.";

fn rle(chars: &[Ch]) -> Vec<(String, TextFormat)> {
    let mut v: Vec<(String, TextFormat)> = vec![];
    for (c, f) in chars { if let Some(l) = v.last_mut() && l.1 == *f { l.0.push(*c) } else { v.push((c.to_string(), f.clone())) } }
    v
}

#[derive(Clone, Copy, PartialEq)]
pub enum What { Text, Chars, Blocks }

pub fn compare(w: &World, m: &Model, what: What, run_cursor: bool) -> std::result::Result<bool, String> {
    let fl = flow(&w.doc);
    let mut lv = vec![];
    leaves(&fl, &mut lv);
    let same = lv.len() == m.blocks.len() && lv.iter().zip(&m.blocks).all(|(b, mb)| b.text == mb.text());
    if !same {
        // what happens to the text itself is decided by P01
        if what != What::Text { return Ok(false) }
        fail!("paragraph texts (document, model): {:?} != {:?}", lv.iter().map(|b| b.text.clone()).collect::<Vec<_>>(), m.blocks.iter().map(|b| b.text()).collect::<Vec<_>>())
    }
    if what == What::Text {
        ensure_eq!(w.doc.to_plain_text().map_err(|e| e.to_string())?, m.text(), "to_plain_text (document, model)");
        ensure_eq!(w.doc.character_count(), m.blocks.iter().map(|b| b.len()).sum::<usize>(), "character_count");
        ensure_eq!(w.doc.block_count(), m.blocks.len(), "block_count");
        if run_cursor { ensure_eq!((w.cur.position(), w.cur.anchor()), (m.pos, m.anchor), "cursor (position, anchor) (document, model)"); }
    }
    if what == What::Chars {
        for (i, (b, mb)) in lv.iter().zip(&m.blocks).enumerate() {
            let got: Vec<(String, TextFormat)> = b.frags.iter().map(|f| match f { Frag::Text { text, fmt, .. } => (text.clone(), fmt.clone()), Frag::Image { .. } => ("<image>".into(), Default::default()) }).collect();
            let want = rle(&mb.chars);
            if got != want { fail!("formatted runs of block {i} (document, model): {got:?} != {want:?}") }
        }
        // char_format at a few cursor positions
        let st = m.starts();
        for (i, mb) in m.blocks.iter().enumerate() {
            for o in [0, mb.len() / 2, mb.len().saturating_sub(1)] {
                if o >= mb.len() { continue }
                let tb = w.doc.block_by_number(i).ok_or("block_by_number")?;
                ensure_eq!(tb.char_format_at(o), Some(mb.chars[o].1.clone()), "char_format_at({o}) of block {i}");
                let c = w.doc.cursor_at(st[i] + o);
                if c.position() == st[i] + o { ensure_eq!(c.char_format().map_err(|e| e.to_string())?, mb.chars[o].1, "char_format() of a cursor at {}", st[i] + o); }
            }
        }
    }
    if what == What::Blocks {
        let order = m.list_order();
        for (i, (b, mb)) in lv.iter().zip(&m.blocks).enumerate() {
            ensure_eq!(b.fmt, mb.fmt, "block format of block {i} (document, model)");
            let want = mb.list.map(|l| {
                let idx = m.blocks[..i].iter().filter(|x| x.list == Some(l)).count();
                let d = &m.lists[l];
                (order.iter().position(|x| *x == l).unwrap(), d.style.clone(), d.indent, marker_text(d, idx), idx)
            });
            ensure_eq!(b.list, want, "list membership (list, style, indent, marker, index) of block {i} (document, model)");
        }
        for (k, l) in w.lists().iter().enumerate() {
            let ml = order[k];
            let d = &m.lists[ml];
            let members: Vec<usize> = (0..m.blocks.len()).filter(|i| m.blocks[*i].list == Some(ml)).collect();
            ensure_eq!((l.style(), l.indent(), l.prefix(), l.suffix()), (d.style.clone(), d.indent, d.prefix.clone(), d.suffix.clone()), "properties of list {k}");
            ensure_eq!(l.count(), members.len(), "count() of list {k}");
            for (n, i) in members.iter().enumerate() {
                ensure_eq!(l.item(n).map(|b| b.block_number()), Some(*i), "item({n}) of list {k}");
                ensure_eq!(l.item_marker(n), marker_text(d, n), "item_marker({n}) of list {k}");
                ensure_eq!(w.doc.block_by_number(*i).and_then(|b| b.list_item_index()), Some(n), "list_item_index of block {i}");
            }
            ensure!(l.item(members.len()).is_none(), "item() past the end of list {k}");
        }
        ensure_eq!(w.lists().len(), order.len(), "number of lists in use");
    }
    Ok(true)
}

fn run(h: &Hist, st: &mut Stats, what: What) -> Check {
    let w = start(&h.init)?;
    let mut m = Model::new(&h.init);
    compare(&w, &m, what, true)?;
    let mut applied = 0;
    let mut changed = false;
    for (i, op) in h.ops.iter().enumerate() {
        let before = m.clone();
        let mr = m.apply(op, None);
        let fail_want = match mr { None => { m = before; continue } Some(f) => f };
        let r = w.apply(op, st);
        match r {
            None | Some(Err(_)) if what != What::Text => { st.label("call failed"); return Ok(()) }
            None => fail!("op {i} {op:?}: applicable in the model, not in the document"),
            Some(Err(e)) => {
                if !fail_want { fail!("op {i} {op:?} failed: {e:#}") }
                m = before;
                st.label("op expected to fail");
            }
            Some(Ok(())) => {
                if fail_want { fail!("op {i} {op:?} succeeded, expected an error") }
                applied += 1;
                st.label(kind(op));
                if m.blocks != before.blocks { changed = true }
            }
        }
        let cursor = !matches!(op, Op::AddToList(..) | Op::RmFromList(..) | Op::RmItem(..) | Op::Replace(..) | Op::CreateList(..) | Op::SetList(..));
        if !cursor { m.pos = w.cur.position(); m.anchor = w.cur.anchor(); }
        if !compare(&w, &m, what, cursor).map_err(|e| format!("after op {i} {op:?}: {e}"))? { st.label("text differs from the model"); return Ok(()) }
    }
    if applied >= 3 && changed { st.nontrivial() }
    Ok(())
}
const MODEL: Prof = Prof { model: true, markup: false, ..FLAT };
pub fn text(ctx: &mut Ctx) { let n = ctx.cases(60000, 1500000); ctx.sub("text", n, || hist(Prof { lists: false, ..MODEL }, 14), |h, st| run(h, st, What::Text)); }
pub fn chars(ctx: &mut Ctx) { let n = ctx.cases(60000, 1500000); ctx.sub("chars", n, || hist(Prof { lists: false, ..MODEL }, 14), |h, st| run(h, st, What::Chars)); }
pub fn blocks(ctx: &mut Ctx) { let n = ctx.cases(60000, 1500000); ctx.sub("blocks", n, || hist(MODEL, 14), |h, st| run(h, st, What::Blocks)); let n = ctx.cases(1500, 40000); ctx.sub("markers", n, marks, check_marks); }

// ── markers: numbering of long and interleaved lists ─────────────────
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct Marks { n: usize, style: usize, prefix: String, suffix: String, indent: u8, removed: Vec<u16>, second: Vec<u16>, probe: Vec<usize> }
fn marks() -> impl Strategy<Value = Marks> {
    let size = prop_oneof![6 => 1usize..30, 3 => 30usize..120, 1 => 380usize..520, 1 => 880usize..1010];
    let fix = || proptest::sample::select(vec!["", "(", ")", ".", "§ ", "é"]).prop_map(String::from);
    (size, 0usize..8, fix(), fix(), 0u8..9, proptest::collection::vec(any::<u16>(), 0..4), proptest::collection::vec(any::<u16>(), 0..4), proptest::collection::vec(0usize..5000, 1..8))
        .prop_map(|(n, style, prefix, suffix, indent, removed, second, probe)| Marks { n, style, prefix, suffix, indent, removed, second, probe })
}
const STYLES: [ListStyle; 8] = [ListStyle::Disc, ListStyle::Circle, ListStyle::Square, ListStyle::Decimal, ListStyle::LowerAlpha, ListStyle::UpperAlpha, ListStyle::LowerRoman, ListStyle::UpperRoman];
fn check_marks(c: &Marks, st: &mut Stats) -> Check {
    let style = STYLES[c.style].clone();
    let d = TextDocument::new();
    let e = |x: text_document::Result<()>| x.map_err(|e| format!("unexpected error: {e}"));
    e(d.set_plain_text(&(0..c.n).map(|i| format!("i{i}")).collect::<Vec<_>>().join("\n")))?;
    let cur = d.cursor();
    cur.select(SelectionType::Document);
    e(cur.create_list(style.clone()))?;
    e(cur.set_current_list_format(&ListFormat { prefix: Some(c.prefix.clone()), suffix: Some(c.suffix.clone()), indent: Some(c.indent), ..Default::default() }))?;
    let mut member = vec![1u8; c.n];
    for (to, ix) in [(0u8, &c.removed), (2, &c.second)] {
        for i in ix {
            let i = *i as usize % c.n;
            cur.set_position(d.block_by_number(i).unwrap().position(), MoveMode::MoveAnchor);
            if to == 2 && !member.contains(&2) { if member[i] == 1 { e(cur.remove_current_block_from_list())? } e(cur.create_list(ListStyle::LowerRoman))?; }
            else if to == 2 {
                let l = (0..c.n).find(|k| member[*k] == 2).and_then(|k| d.block_by_number(k)).and_then(|b| b.list()).map(|l| l.id());
                let Some(l) = l else { fail!("the second list has vanished") };
                e(cur.add_current_block_to_list(l))?;
            } else if member[i] != 0 { e(cur.remove_current_block_from_list())? }
            member[i] = to;
        }
    }
    let first = MList { style: style.clone(), indent: c.indent, prefix: c.prefix.clone(), suffix: c.suffix.clone() };
    let mut idx = [0usize; 3];
    let snap = d.snapshot_flow();
    let mut ids = [None; 3];
    ensure_eq!(snap.elements.len(), c.n, "elements in the flow");
    for (i, el) in snap.elements.iter().enumerate() {
        let FlowElementSnapshot::Block(b) = el else { fail!("element {i} is no block") };
        let k = member[i] as usize;
        let Some(li) = &b.list_info else { ensure_eq!(k, 0, "block {i} is in no list; wanted list"); continue };
        ensure!(k != 0, "block {i} is in a list, should be in none");
        ensure_eq!(*ids[k].get_or_insert(li.list_id), li.list_id, "list of block {i}");
        ensure_eq!(li.item_index, idx[k], "index of block {i} in its list");
        if k == 1 { ensure_eq!((li.style.clone(), li.indent, li.marker.clone()), (first.style.clone(), c.indent, marker_text(&first, idx[k])), "list info of block {i}"); }
        idx[k] += 1;
    }
    for k in 1..3 {
        let Some(b) = (0..c.n).find(|i| member[*i] == k).and_then(|i| d.block_by_number(i as usize)) else { continue };
        let Some(l) = b.list() else { fail!("block without list") };
        ensure_eq!(l.count(), idx[k as usize], "count()");
        if k == 1 { for p in &c.probe { ensure_eq!(l.item_marker(*p), marker_text(&first, *p), "item_marker({p})"); } }
    }
    st.label(&format!("{:?}", style));
    st.label(match c.n { 0..=29 => "under 30 items", 30..=119 => "30 to 119 items", _ => "380 to 1010 items" });
    if idx[1] > 3 { st.nontrivial() }
    Ok(())
}
