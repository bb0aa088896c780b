//! P22: the undo/redo manager itself: several stacks, merging, nested
//! composites, commands that fail, against a model of what each stack did.
use crate::engine::*;
use frontend::common::event::{EventHub, Origin, UndoRedoEvent};
use frontend::common::undo_redo::{UndoRedoCommand, UndoRedoManager};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub const RULE: &str = "Random histories on an undo manager with several stacks: commands that merge or not, nested composites, undo and redo in which a chosen sub-command fails, clearing, creating and deleting stacks. Non-trivial: a failure inside a composite, or undo and redo on at least two stacks; counted distinct by the generated input.";

/// What the commands act on: one line of tokens for each stack.
#[derive(Default)]
struct World { lines: BTreeMap<u64, Vec<u32>>, fail_in: Option<u32>, failed: bool, disorder: Option<String> }
type W = Arc<Mutex<World>>;
struct Push { w: W, stack: u64, tokens: Vec<u32>, merges: bool }
impl World {
    fn fails(&mut self) -> bool {
        match self.fail_in {
            Some(0) => { self.fail_in = None; self.failed = true; true }
            Some(n) => { self.fail_in = Some(n - 1); false }
            None => false,
        }
    }
}
impl UndoRedoCommand for Push {
    fn undo(&mut self) -> anyhow::Result<()> {
        let mut w = self.w.lock().unwrap();
        if w.fails() { anyhow::bail!("made to fail") }
        let line = w.lines.entry(self.stack).or_default();
        if !line.ends_with(&self.tokens) {
            let d = format!("{:?} was undone on {line:?}", self.tokens);
            w.disorder.get_or_insert(d);
            return Ok(());
        }
        line.truncate(line.len() - self.tokens.len());
        Ok(())
    }
    fn redo(&mut self) -> anyhow::Result<()> {
        let mut w = self.w.lock().unwrap();
        if w.fails() { anyhow::bail!("made to fail") }
        w.lines.entry(self.stack).or_default().extend(&self.tokens);
        Ok(())
    }
    fn can_merge(&self, other: &dyn UndoRedoCommand) -> bool {
        other.as_any().downcast_ref::<Push>().is_some_and(|o| self.merges && o.merges && self.stack == o.stack)
    }
    fn merge(&mut self, other: &dyn UndoRedoCommand) -> bool {
        let o = other.as_any().downcast_ref::<Push>().unwrap();
        // refuses long ones
        if self.tokens.len() + o.tokens.len() > 4 { return false }
        self.tokens.extend(&o.tokens);
        true
    }
    fn as_any(&self) -> &dyn Any { self }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum S {
    /// on which stack, mergeable
    Do(u8, bool),
    Undo(u8, Option<u8>), Redo(u8, Option<u8>),
    Begin(u8), End, Cancel,
    Clear(u8), ClearAll, Create, Delete(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case { pub steps: Vec<S> }

#[derive(Clone, Debug)]
struct Unit { tokens: Vec<u32>, merges: bool, parts: usize }
#[derive(Clone, Default, Debug)]
struct Stack { undo: Vec<Unit>, redo: Vec<Unit>, line: Vec<u32> }

fn check(case: &Case, st: &mut Stats) -> Check {
    let mut mgr = UndoRedoManager::new();
    let hub = Arc::new(EventHub::new());
    mgr.set_event_hub(&hub);
    let rx = hub.subscribe_receiver();
    let w: W = Default::default();
    let mut m: BTreeMap<u64, Stack> = [(0, Stack::default())].into();
    let mut used: Vec<u64> = vec![0];
    let mut open: Option<(u64, usize, Vec<u32>, usize)> = None; // stack, depth, tokens, parts
    let mut next = 0u32;
    let (mut went_back, mut went_on) = (std::collections::BTreeSet::new(), std::collections::BTreeSet::new());
    let mut nontrivial = false;
    for (i, s) in case.steps.iter().enumerate() {
        let what = format!("step {i} ({s:?})");
        // an existing stack, or now and then one that never was or is gone
        let pick = |p: u8, m: &BTreeMap<u64, Stack>| -> u64 {
            if p >= 250 { 77 } else if p >= 240 { used[p as usize % used.len()] } else { *m.keys().nth(p as usize % m.len()).unwrap() }
        };
        // the default stack also goes by no name
        let name = |id: u64, p: u8| if id == 0 && p % 2 == 0 { None } else { Some(id) };
        let mut want: Vec<UndoRedoEvent> = vec![];
        match s {
            S::Do(p, merges) => {
                let id = pick(*p, &m);
                if open.as_ref().is_some_and(|o| o.0 == id) && !m.contains_key(&id) { continue }
                next += 1;
                w.lock().unwrap().lines.entry(id).or_default().push(next);
                let r = mgr.add_command_to_stack(Box::new(Push { w: w.clone(), stack: id, tokens: vec![next], merges: *merges }), name(id, *p));
                let other = open.as_ref().is_some_and(|o| o.0 != id);
                if other || !m.contains_key(&id) {
                    ensure!(r.is_err(), "{what}: accepted");
                    w.lock().unwrap().lines.entry(id).or_default().pop();
                    st.label("refused");
                } else {
                    r.map_err(|e| format!("{what}: {e}"))?;
                    let x = m.get_mut(&id).unwrap();
                    x.line.push(next);
                    if let Some(o) = &mut open { o.2.push(next); o.3 += 1; }
                    else {
                        x.redo.clear();
                        match x.undo.last_mut() {
                            Some(u) if u.merges && *merges && u.tokens.len() < 4 => { u.tokens.push(next); st.label("merged") }
                            _ => x.undo.push(Unit { tokens: vec![next], merges: *merges, parts: 1 }),
                        }
                    }
                }
            }
            S::Undo(p, f) | S::Redo(p, f) => {
                if open.is_some() { continue }
                let id = pick(*p, &m);
                let back = matches!(s, S::Undo(..));
                let top = m.get(&id).and_then(|x| if back { x.undo.last() } else { x.redo.last() }).cloned();
                { let mut w = w.lock().unwrap(); w.failed = false; w.fail_in = f.map(|f| f as u32 % 3); }
                let r = if back { mgr.undo(name(id, *p)) } else { mgr.redo(name(id, *p)) };
                let failed = { let mut w = w.lock().unwrap(); w.fail_in = None; w.failed };
                match (m.get_mut(&id), top) {
                    (None, _) => ensure!(r.is_err(), "{what}: accepted on a missing stack"),
                    (Some(_), None) => ensure!(r.is_ok(), "{what}: failed with nothing to do"),
                    (Some(x), Some(u)) => {
                        ensure_eq!(failed, f.is_some_and(|f| (f as usize % 3) < u.parts), "{what}: sub-command {:?} of {} failed", f, u.parts);
                        if failed {
                            st.label("failed");
                            if u.parts > 1 { nontrivial = true; st.label("failed inside a composite") }
                            ensure!(r.is_err(), "{what}: a failure went unnoticed");
                        } else {
                            r.map_err(|e| format!("{what}: {e}"))?;
                            if back {
                                x.undo.pop();
                                x.line.truncate(x.line.len() - u.tokens.len());
                                x.redo.push(u);
                                went_back.insert(id);
                                want.push(UndoRedoEvent::Undone);
                                st.label("undo");
                            } else {
                                x.redo.pop();
                                x.line.extend(&u.tokens);
                                x.undo.push(u);
                                went_on.insert(id);
                                want.push(UndoRedoEvent::Redone);
                                st.label("redo");
                            }
                        }
                    }
                }
            }
            S::Begin(p) => {
                let id = pick(*p, &m);
                let r = mgr.begin_composite(name(id, *p));
                if open.as_ref().is_some_and(|o| o.0 != id) || !m.contains_key(&id) { ensure!(r.is_err(), "{what}: accepted"); st.label("refused"); }
                else {
                    r.map_err(|e| format!("{what}: {e}"))?;
                    want.push(UndoRedoEvent::BeginComposite);
                    match &mut open { Some(o) => { o.1 += 1; st.label("nested") } None => open = Some((id, 1, vec![], 0)) }
                }
            }
            S::End => {
                let Some(o) = &mut open else { continue };
                mgr.end_composite();
                o.1 -= 1;
                if o.1 == 0 {
                    let (id, _, tokens, parts) = open.take().unwrap();
                    want.push(UndoRedoEvent::EndComposite);
                    if let Some(x) = m.get_mut(&id) && parts > 0 {
                        x.redo.clear();
                        x.undo.push(Unit { tokens, merges: false, parts });
                        st.label("composite");
                    }
                }
            }
            S::Cancel => {
                if !open.as_ref().is_some_and(|o| o.1 == 1) { continue }
                mgr.cancel_composite();
                want.push(UndoRedoEvent::CancelComposite);
                let (id, _, tokens, _) = open.take().unwrap();
                if let Some(x) = m.get_mut(&id) { x.line.truncate(x.line.len() - tokens.len()); }
                st.label("cancelled");
            }
            S::Clear(p) => {
                let id = pick(*p, &m);
                mgr.clear_stack(id);
                if let Some(x) = m.get_mut(&id) { x.undo.clear(); x.redo.clear(); }
            }
            S::ClearAll => {
                mgr.clear_all_stacks();
                open = None;
                for x in m.values_mut() { x.undo.clear(); x.redo.clear(); }
            }
            S::Create => {
                let id = mgr.create_new_stack();
                ensure!(!used.contains(&id), "{what}: the id {id} was used before");
                used.push(id);
                m.insert(id, Stack::default());
            }
            S::Delete(p) => {
                let id = pick(*p, &m);
                let r = mgr.delete_stack(id);
                if id == 0 || !m.contains_key(&id) { ensure!(r.is_err(), "{what}: accepted"); }
                else { r.map_err(|e| format!("{what}: {e}"))?; m.remove(&id); if open.as_ref().is_some_and(|o| o.0 == id) { st.label("deleted during a composite") } }
            }
        }
        let heard: Vec<_> = rx.try_iter().filter_map(|e| match e.origin { Origin::UndoRedo(u) => Some(u), _ => None }).collect();
        ensure_eq!(heard, want, "{what}: announced");
        let w = w.lock().unwrap();
        if let Some(d) = &w.disorder { fail!("{what}: {d}") }
        for id in used.iter().copied().chain([77]) {
            let x = m.get(&id).cloned().unwrap_or_default();
            if m.contains_key(&id) { ensure_eq!(w.lines.get(&id).cloned().unwrap_or_default(), x.line, "{what}: what the commands of stack {id} have done"); }
            let n = if id == 0 && i % 2 == 0 { None } else { Some(id) };
            ensure_eq!(mgr.can_undo(n), !x.undo.is_empty(), "{what}: can_undo of {id}");
            ensure_eq!(mgr.can_redo(n), !x.redo.is_empty(), "{what}: can_redo of {id}");
            ensure_eq!(mgr.get_stack_size(id), x.undo.len(), "{what}: size of {id}");
        }
    }
    if nontrivial || (went_back.len() > 1 && !went_on.is_empty()) { st.nontrivial() }
    Ok(())
}
fn strat() -> impl Strategy<Value = Case> {
    let f = || proptest::option::weighted(0.3, any::<u8>());
    let s = prop_oneof![
        10 => (any::<u8>(), any::<bool>()).prop_map(|(p, m)| S::Do(p, m)),
        7 => (any::<u8>(), f()).prop_map(|(p, f)| S::Undo(p, f)),
        5 => (any::<u8>(), f()).prop_map(|(p, f)| S::Redo(p, f)),
        3 => any::<u8>().prop_map(S::Begin), 6 => Just(S::End), 1 => Just(S::Cancel),
        1 => any::<u8>().prop_map(S::Clear), 1 => Just(S::ClearAll), 1 => Just(S::Create), 1 => any::<u8>().prop_map(S::Delete),
    ];
    proptest::collection::vec(s, 1..60).prop_map(|steps| Case { steps })
}
pub fn run(c: &mut Ctx) {
    let n = c.cases(300_000, 15_000_000);
    c.sub("stacks", n, strat, check);
}
