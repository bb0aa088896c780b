//! P03: the undo stack as a linear timeline with branching edits, edit blocks
//! and clearing, against a list-of-states model.
use crate::engine::*;
use crate::obs::*;
use crate::ops::*;
use crate::props::undo::may_merge;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const RULE: &str = "Random interleavings of edits, undo, redo, nested edit blocks and history resets, followed by a model that is the list of document states with a current index. Non-trivial: at least one undo, one redo or discarded redo branch, and two changing edits; counted distinct by the generated input.";

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum H { Do(Op), Undo(u8), Redo(u8), Begin, End, Forget, SetText(String), ClearDoc }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case { pub init: String, pub steps: Vec<H> }

/// One undoable step: the operation, whether it had a selection, whether it changed anything.
#[derive(Clone)]
struct Step { op: Op, sel: bool, changed: bool }
struct Line { states: Vec<Obs>, steps: Vec<Step>, at: usize }
impl Line {
    fn new(o: Obs) -> Self { Line { states: vec![o], steps: vec![], at: 0 } }
    fn cur(&self) -> &Obs { &self.states[self.at] }
    fn push(&mut self, op: Op, sel: bool, o: Obs) {
        let changed = o != *self.cur();
        if changed { self.cut() }
        self.steps.insert(self.at, Step { op, sel, changed });
        self.states.insert(self.at + 1, o);
        self.at += 1;
    }
    fn cut(&mut self) { self.states.truncate(self.at + 1); self.steps.truncate(self.at); }
    /// May everything in lo..hi be one undo step?
    fn one(&self, lo: usize, hi: usize) -> bool {
        let mut prev: Option<&Step> = None;
        for s in &self.steps[lo..hi] {
            if !s.changed { continue }
            if let Some(p) = prev && !may_merge(&(p.op.clone(), p.sel), &(s.op.clone(), s.sel)) { return false }
            prev = Some(s);
        }
        true
    }
    fn fuse(&mut self, lo: usize, hi: usize) {
        if hi - lo < 2 { return }
        let changed = self.states[lo] != self.states[hi];
        let last = self.steps[hi - 1].clone();
        self.steps.splice(lo..hi, [Step { changed, ..last }]);
        self.states.drain(lo + 1..hi);
        if self.at >= hi { self.at -= hi - lo - 1 } else if self.at > lo { self.at = lo }
    }
}

fn flags(w: &World, l: &Line, what: &str) -> Check {
    let (u, r) = (w.doc.can_undo(), w.doc.can_redo());
    if l.steps[..l.at].iter().any(|s| s.changed) { ensure!(u, "{what}: can_undo() is false although an edit could be undone"); }
    if l.at == 0 { ensure!(!u, "{what}: can_undo() is true with nothing to undo"); }
    if l.steps[l.at..].iter().any(|s| s.changed) { ensure!(r, "{what}: can_redo() is false although an undone edit could be redone"); }
    if l.at == l.steps.len() { ensure!(!r, "{what}: can_redo() is true with nothing to redo"); }
    Ok(())
}

fn undo(w: &World, l: &mut Line) -> Check {
    let had = w.doc.can_undo();
    w.doc.undo().map_err(|e| format!("undo failed: {e:#}"))?;
    let o = observe(&w.doc)?;
    if !had {
        if let Some(d) = diff(l.cur(), &o) { fail!("undo with nothing to undo changed the document: {d}") }
        return Ok(())
    }
    let hi = l.at;
    let first = (0..hi).rev().find(|j| l.steps[*j].changed);
    for j in (0..hi).rev() {
        if l.states[j] == o && l.one(j, hi) {
            l.fuse(j, hi);
            l.at = j;
            return Ok(())
        }
    }
    let want = first.unwrap_or(0);
    fail!("undo of {:?} did not restore the state before it: {}", l.steps.get(want).map(|s| &s.op), diff(&l.states[want], &o).unwrap_or_else(|| "more than one step was undone".into()))
}
fn redo(w: &World, l: &mut Line) -> Check {
    let had = w.doc.can_redo();
    w.doc.redo().map_err(|e| format!("redo failed: {e:#}"))?;
    let o = observe(&w.doc)?;
    if !had {
        if let Some(d) = diff(l.cur(), &o) { fail!("redo with nothing to redo changed the document: {d}") }
        return Ok(())
    }
    // steps that change nothing may or may not be on the stack
    for j in l.at + 1..l.states.len() {
        if l.states[j] == o { l.at = j; return Ok(()) }
        if l.steps[j - 1].changed { fail!("redo of {:?} did not reproduce the state after it: {}", l.steps[j - 1].op, diff(&l.states[j], &o).unwrap_or_default()) }
    }
    fail!("redo reached no recorded state")
}

/// The outermost edit block ended: everything in it is one step (an empty block is none).
fn close(w: &World, l: &mut Line, block: &mut Vec<Op>) -> std::result::Result<bool, String> {
    let o = observe(&w.doc)?;
    let ops = std::mem::take(block);
    if ops.is_empty() {
        if let Some(d) = diff(l.cur(), &o) { fail!("an empty edit block changed the document: {d}") }
        return Ok(false)
    }
    let redo = l.at < l.steps.len();
    let changed = o != *l.cur();
    l.push(Op::Group(ops), true, o);
    if !changed && redo && !w.doc.can_redo() { l.cut() }
    Ok(changed)
}

fn check(c: &Case, st: &mut Stats) -> Check {
    let w = start(&c.init)?;
    let mut l = Line::new(observe(&w.doc)?);
    flags(&w, &l, "after set_plain_text")?;
    let mut depth = 0usize;
    let mut block: Vec<Op> = vec![];
    let (mut undos, mut branches, mut edits) = (0, 0, 0);
    for (i, h) in c.steps.iter().chain(std::iter::once(&H::Undo(0))).enumerate() {
        // history is only walked or reset between edit blocks
        if matches!(h, H::Undo(_) | H::Redo(_) | H::Forget | H::SetText(_) | H::ClearDoc) && depth > 0 {
            while depth > 0 { w.cur.end_edit_block(); depth -= 1; }
            close(&w, &mut l, &mut block)?;
            flags(&w, &l, "after an edit block")?;
        }
        let what = format!("step {i} ({h:?})");
        match h {
            H::Do(op) => {
                w.sel.set(false);
                let redo = l.at < l.steps.len();
                match w.apply(op, st) {
                    None => continue,
                    Some(Err(e)) => { st.label("op returned an error"); let _ = e; }
                    Some(Ok(())) => {}
                }
                if depth > 0 { block.push(op.clone()); st.label("edit inside a block"); continue }
                let o = observe(&w.doc)?;
                let changed = o != *l.cur();
                if changed { edits += 1; if redo { branches += 1; st.label("edit after undo") } }
                l.push(op.clone(), w.sel.get(), o);
                if !changed && redo && !w.doc.can_redo() { l.cut() }
            }
            H::Begin => { w.cur.begin_edit_block(); depth += 1; if depth > 1 { st.label("nested block") } }
            H::End => {
                w.cur.end_edit_block();
                if depth == 0 { continue }
                depth -= 1;
                if depth == 0 {
                    let redo = l.at < l.steps.len();
                    if close(&w, &mut l, &mut block)? { edits += 1; if redo { branches += 1 } st.label("edit block") }
                }
            }
            H::Undo(n) => for _ in 0..=*n % 4 { if w.doc.can_undo() { undos += 1 } undo(&w, &mut l).map_err(|e| format!("{what}: {e}"))?; flags(&w, &l, &what)?; st.label("undo") },
            H::Redo(n) => for _ in 0..=*n % 4 { if w.doc.can_redo() { branches += 1 } redo(&w, &mut l).map_err(|e| format!("{what}: {e}"))?; flags(&w, &l, &what)?; st.label("redo") },
            H::Forget => {
                w.doc.clear_undo_redo();
                let o = observe(&w.doc)?;
                if let Some(d) = diff(l.cur(), &o) { fail!("clear_undo_redo changed the document: {d}") }
                l = Line::new(o);
            }
            H::SetText(t) => { w.doc.set_plain_text(t).map_err(|e| format!("set_plain_text: {e:#}"))?; w.cur.set_position(0, text_document::MoveMode::MoveAnchor); l = Line::new(observe(&w.doc)?); st.label("history reset") }
            H::ClearDoc => { w.doc.clear().map_err(|e| format!("clear: {e:#}"))?; w.cur.set_position(0, text_document::MoveMode::MoveAnchor); l = Line::new(observe(&w.doc)?); st.label("history reset") }
        }
        if depth == 0 { flags(&w, &l, &what)?; }
    }
    if undos > 0 && branches > 0 && edits > 1 { st.nontrivial() }
    Ok(())
}

fn strat() -> impl Strategy<Value = Case> {
    let p = Prof { lists: false, title: true, groups: true, ..FLAT };
    let s = prop_oneof![
        10 => op(p).prop_map(H::Do), 4 => any::<u8>().prop_map(H::Undo), 3 => any::<u8>().prop_map(H::Redo),
        3 => Just(H::Begin), 3 => Just(H::End), 1 => Just(H::Forget), 1 => text(3, 2).prop_map(H::SetText), 1 => Just(H::ClearDoc),
    ];
    (init(3, 3), steps(s.boxed(), 1..24)).prop_map(|(init, steps)| Case { init, steps })
}
pub fn run(c: &mut Ctx) { let n = c.cases(50_000, 1_200_000); c.sub("timeline", n, strat, check); }
