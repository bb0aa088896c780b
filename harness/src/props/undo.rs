use crate::engine::*;
use crate::obs::*;
use crate::ops::*;


pub const RULE: &str = "Random editing histories; the whole observable document is recorded after every operation, then everything is undone and redone step by step. Non-trivial: at least 2 operations changed the document; counted distinct by the generated history.";

/// May the undo stack legitimately fuse these two consecutive steps
/// (operation, did it have a selection)?
pub fn may_merge(a: &(Op, bool), b: &(Op, bool)) -> bool {
    match (&a.0, &b.0) {
        (Op::Ins(..) | Op::InsSel(..), Op::Ins(..)) => true,
        (Op::Ins(..) | Op::InsSel(..), Op::InsSel(..)) => !b.1,
        (Op::DelChar(_) | Op::DelPrev(_) | Op::Del(..), Op::DelChar(_) | Op::DelPrev(_) | Op::Del(..)) => true,
        (Op::Over(_, _, x), _) => may_merge(&((**x).clone(), a.1), b),
        (_, Op::Over(_, _, y)) => may_merge(a, &((**y).clone(), b.1)),
        _ => false,
    }
}

/// Commands that name an existing list, block or table by id.
fn id_ref(op: &Op) -> bool {
    match op {
        Op::SetList(..) | Op::AddToList(..) | Op::RmFromList(..) | Op::RmItem(..) | Op::FrameFmt(..) | Op::TRow(..) | Op::TCol(..) | Op::TRmRow(..)
        | Op::TRmCol(..) | Op::TRemove(..) | Op::TMerge(..) | Op::TSplit(..) | Op::TFmt(..) | Op::TCellFmt(..) => true,
        Op::Group(v) => v.iter().any(id_ref),
        Op::Over(_, _, o) => id_ref(o),
        _ => false,
    }
}

pub fn undo_all(h: &Hist, st: &mut Stats) -> Check {
    let w = start(&h.init)?;
    w.doc.clear_undo_redo();
    let mut obs = vec![observe(&w.doc)?];
    let mut done: Vec<(Op, bool)> = vec![];
    for op in &h.ops {
        w.sel.set(false);
        match w.apply(op, st) {
            None => continue,
            Some(Err(_)) => { st.label("op returned an error"); }
            Some(Ok(())) => st.label(kind(op)),
        }
        obs.push(observe(&w.doc)?);
        done.push((op.clone(), w.sel.get()));
    }
    let n = done.len();
    // changing[k]: step k (1-based) changed the observation
    let changing: Vec<bool> = (0..=n).map(|k| k > 0 && obs[k] != obs[k - 1]).collect();
    let groups = |lo: usize, hi: usize| -> usize {
        // number of separately undoable steps in (lo, hi]
        let mut g = 0;
        let mut prev: Option<usize> = None;
        for k in lo + 1..=hi {
            if !changing[k] { continue; }
            match prev { Some(p) if may_merge(&done[p - 1], &done[k - 1]) => {} _ => g += 1 }
            prev = Some(k);
        }
        g
    };
    let mut visited = vec![n];
    let mut cur = n;
    let mut steps = 0;
    while w.doc.can_undo() {
        w.doc.undo().map_err(|e| format!("undo failed: {e:#}"))?;
        steps += 1;
        ensure!(steps <= 4 * n + 4, "undo stack deeper than the history");
        let o = observe(&w.doc)?;
        let mut hit = None;
        let mut j = cur;
        loop {
            if obs[j] == o && groups(j, cur) <= 1 && (j < cur || cur == 0 || !changing[cur]) { hit = Some(j); break; }
            if j == 0 { break; }
            j -= 1;
        }
        match hit {
            Some(j) => { cur = j; visited.push(cur); }
            None => {
                let want = (0..cur).rev().find(|j| groups(*j, cur) >= 1).unwrap_or(0);
                fail!("undo #{steps} of {:?} did not restore the state before it: {}", if cur > 0 { Some(&done[cur - 1].0) } else { None }, diff(&obs[want], &o).unwrap_or_else(|| "more than one step was undone".into()));
            }
        }
    }
    if let Some(d) = diff(&obs[0], &observe(&w.doc)?) { fail!("after undoing everything: {d}"); }
    // redo everything
    let mut steps2 = 0;
    while w.doc.can_redo() {
        let before = visited.pop();
        let _ = before;
        if let Err(e) = w.doc.redo() {
            let m = format!("{e:#}");
            // recorded finding: redo of a command that names an entity re-created (with a new id) by an earlier redo
            if !strict() && m.contains("not found") && done.iter().any(|o| id_ref(&o.0)) {
                st.label("known finding: redo names a re-created entity");
                return Ok(());
            }
            fail!("redo failed: {m}");
        }
        steps2 += 1;
        ensure!(steps2 <= steps, "more redo steps than undo steps");
        let o = observe(&w.doc)?;
        let target = *visited.last().unwrap_or(&n);
        if let Some(d) = diff(&obs[target], &o) { fail!("redo #{steps2} (of {:?}) did not reproduce the state: {d}", if target > 0 { Some(&done[target - 1].0) } else { None }); }
    }
    ensure!(steps2 == steps, "{steps} undo steps but {steps2} redo steps");
    if let Some(d) = diff(&obs[n], &observe(&w.doc)?) { fail!("after redoing everything: {d}"); }
    if changing.iter().filter(|c| **c).count() >= 2 { st.nontrivial() }
    Ok(())
}

pub fn all(ctx: &mut Ctx) {
    let n = ctx.cases(60000, 1500000);
    ctx.sub("flat", n, || hist(Prof { groups: true, title: true, ..FLAT }, 10), undo_all);
}
