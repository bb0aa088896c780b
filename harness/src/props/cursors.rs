//! P05: cursors that do not edit stay at their text. P06: navigation laws.
use crate::engine::*;
use crate::model::*;
use crate::ops::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use text_document::*;
use unicode_segmentation::UnicodeSegmentation;

pub const RULE5: &str = "2-4 cursors on one document; each edit is made through one of them and all positions and anchors are compared with the reference after every edit. Non-trivial: at least one edit moved a cursor that did not make it; counted distinct by the generated history.";
pub const RULE6: &str = "A document is built by a random history, then a random walk of cursor movements, positionings and selections is compared with a reference navigator after each step. Non-trivial: at least 3 steps moved the cursor; counted distinct by the generated input.";

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Multi { pub init: String, pub curs: Vec<(P, P)>, pub ops: Vec<(u8, Op)> }

fn shift(o: usize, at: usize, removed: usize, added: usize) -> usize {
    if o <= at { o } else if o <= at + removed { at + added } else { o - removed + added }
}

fn bystanders(h: &Multi, st: &mut Stats) -> Check {
    let mut w = start(&h.init)?;
    let mut m = Model::new(&h.init);
    // all cursors; slot `who` is swapped into w.cur for its edit
    let mut cs: Vec<TextCursor> = vec![];
    let mut ms: Vec<(usize, usize)> = vec![];
    for (a, b) in &h.curs {
        m.select(a, b);
        w.select(a, b);
        cs.push(w.cur.clone());
        ms.push((m.pos, m.anchor));
    }
    let mut moved = false;
    for (k, (who, op)) in h.ops.iter().enumerate() {
        let who = *who as usize % cs.len();
        std::mem::swap(&mut w.cur, &mut cs[who]);
        (m.pos, m.anchor) = ms[who];
        let before = m.clone();
        let e = m.apply(op, None);
        let r = w.apply(op, st);
        match (&e, &r) {
            (None, _) => { return Ok(()) }
            (_, None) => return Ok(()),
            (Some(_), Some(Err(_))) => return Ok(()),
            _ => {}
        }
        ms[who] = (m.pos, m.anchor);
        let (a, b) = m.edit;
        let delta_new = m.max() + (b - a) - before.max();
        for (i, c) in ms.iter_mut().enumerate() {
            if i == who { continue }
            if m.edited {
                let n = (shift(c.0, a, b - a, delta_new), shift(c.1, a, b - a, delta_new));
                if n != *c { moved = true }
                *c = n;
            }
        }
        std::mem::swap(&mut w.cur, &mut cs[who]);
        if w.doc.to_plain_text().map_err(|e| e.to_string())? != m.text() { st.label("text differs from the reference"); return Ok(()) }
        for (i, c) in cs.iter().enumerate() {
            ensure_eq!((c.position(), c.anchor()), ms[i], "after edit {k} {op:?} made by cursor {who}: cursor {i} (position, anchor) (document, reference)");
            ensure!(c.position() <= m.max() && c.anchor() <= m.max(), "cursor {i} is outside the document");
        }
        st.label(kind(op));
    }
    if moved { st.nontrivial() }
    Ok(())
}

pub fn run5(c: &mut Ctx) {
    let prof = Prof { replace: false, model: true, markup: false, ..FLAT };
    let n = c.cases(120_000, 2_000_000);
    c.sub("bystanders", n, || (init(4, 4), proptest::collection::vec((pos(), pos()), 2..5), steps((any::<u8>(), op(prof)), 1..12))
        .prop_map(|(init, curs, ops)| Multi { init, curs, ops }), bystanders);
}

// ── P06 ──────────────────────────────────────────────────────────────
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Nav { Move(u8, bool, u8), Set(u32, bool), Select(u8), Clear, Clone }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Walk { pub init: String, pub ops: Vec<Op>, pub steps: Vec<Nav> }

const MOVES: [MoveOperation; 21] = {
    use MoveOperation::*;
    [NoMove, Start, End, StartOfLine, EndOfLine, StartOfBlock, EndOfBlock, StartOfWord, EndOfWord, PreviousBlock, NextBlock,
     PreviousCharacter, NextCharacter, PreviousWord, NextWord, Up, Down, Left, Right, WordLeft, WordRight]
};

/// Words of a block as char ranges.
fn words(t: &str) -> Vec<(usize, usize)> {
    t.unicode_word_indices().map(|(b, w)| { let s = t[..b].chars().count(); (s, s + w.chars().count()) }).collect()
}
/// The word a caret at p belongs to: it contains p, or it is the last word of
/// its paragraph and ends at p.
fn word_at(m: &Model, p: usize) -> Option<(usize, usize)> {
    let (b, o) = m.at(p);
    let s = p - o;
    let ws = words(&m.blocks[b].text());
    if let Some(w) = ws.iter().find(|w| w.0 <= o && o < w.1) { return Some((s + w.0, s + w.1)) }
    ws.last().filter(|w| w.1 == o).map(|w| (s + w.0, s + w.1))
}
/// None when the distance to the next word exceeds what one move scans.
fn target(m: &Model, op: MoveOperation, n: usize) -> Option<usize> {
    use MoveOperation::*;
    let p = m.pos;
    let (b, o) = m.at(p);
    let bs = p - o;
    let be = bs + m.blocks[b].len();
    let st = m.starts();
    Some(match op {
        NoMove => p,
        Start => 0,
        End => m.max(),
        StartOfLine | StartOfBlock => bs,
        EndOfLine | EndOfBlock => be,
        NextBlock | Down => (be + 1).min(m.max()),
        PreviousBlock | Up => if b == 0 { 0 } else { st[b - 1] },
        NextCharacter | Right => (0..n).fold(p, |x, _| m.next_g(x)),
        PreviousCharacter | Left => (0..n).fold(p, |x, _| m.prev_g(x)),
        NextWord | EndOfWord | WordRight => {
            if let Some(w) = word_at(m, p).filter(|w| w.1 > p) { return Some(w.1) }
            let all: Vec<(usize, usize)> = m.blocks.iter().enumerate().flat_map(|(i, bl)| words(&bl.text()).into_iter().map(move |w| (i, w))).map(|(i, w)| (st[i] + w.0, st[i] + w.1)).collect();
            match all.iter().find(|w| w.0 >= p) {
                Some(w) if w.1 - p <= 60 => w.1,
                None if m.max() - p <= 60 => m.max(),
                _ => return None,
            }
        }
        PreviousWord | StartOfWord | WordLeft => {
            let all = m.blocks.iter().enumerate().flat_map(|(i, bl)| words(&bl.text()).into_iter().map(move |w| (i, w))).map(|(i, w)| st[i] + w.0);
            all.filter(|s| *s < p).max().unwrap_or(0)
        }
    })
}

fn probe(w: &World, m: &Model, c: &TextCursor) -> Check {
    let e = |e: anyhow::Error| e.to_string();
    ensure_eq!((c.position(), c.anchor()), (m.pos, m.anchor), "(position, anchor) (document, reference)");
    let (lo, hi) = (m.pos.min(m.anchor), m.pos.max(m.anchor));
    ensure_eq!(c.has_selection(), lo != hi, "has_selection");
    ensure_eq!((c.selection_start(), c.selection_end()), (lo, hi), "selection range");
    let want: String = m.text().chars().skip(lo).take(hi - lo).collect();
    ensure_eq!(c.selected_text().map_err(e)?, want, "selected_text");
    let (b, o) = m.at(m.pos);
    ensure_eq!(c.block_number(), b, "block_number");
    ensure_eq!(c.position_in_block(), o, "position_in_block");
    ensure_eq!(c.at_block_start(), o == 0, "at_block_start");
    ensure_eq!(c.at_block_end(), o == m.blocks[b].len(), "at_block_end");
    ensure_eq!(c.at_start(), m.pos == 0, "at_start");
    ensure_eq!(c.at_end(), m.pos == m.max(), "at_end");
    let _ = w;
    Ok(())
}

fn walk(h: &Walk, st: &mut Stats) -> Check {
    let w = start(&h.init)?;
    for op in &h.ops { let _ = w.apply(op, st); }
    let mut m = Model::new(&w.doc.to_plain_text().map_err(|e| e.to_string())?);
    let mut c = w.doc.cursor();
    probe(&w, &m, &c)?;
    let text = m.text();
    let mut moves = 0;
    for (k, s) in h.steps.iter().enumerate() {
        let before = m.pos;
        match s {
            Nav::Move(i, keep, n) => {
                let op = MOVES[*i as usize % MOVES.len()];
                let n = *n as usize % 5;
                let mode = if *keep { MoveMode::KeepAnchor } else { MoveMode::MoveAnchor };
                let want = target(&m, op, n);
                let said = c.move_position(op, mode, n);
                match want {
                    Some(t) => {
                        // a selection caret inside a cluster snaps when it is moved
                        let raw = t;
                        if !*keep { m.anchor = raw }
                        let t = m.snap(raw);
                        if m.anchor == raw { m.anchor = t }
                        m.pos = t;
                        ensure_eq!(said, m.pos != before, "step {k} {op:?} x{n} from {before}: the returned flag; position {} expected {}; text {text:?}", c.position(), m.pos);
                    }
                    None => { st.label("word beyond scan window"); m.pos = c.position(); m.anchor = c.anchor(); ensure!(m.pos >= before && m.pos <= m.max(), "step {k} {op:?} moved from {before} to {}", m.pos); }
                }
                st.label(&format!("{op:?}"));
            }
            Nav::Set(p, keep) => {
                let p = *p as usize % (m.max() + 3);
                c.set_position(p, if *keep { MoveMode::KeepAnchor } else { MoveMode::MoveAnchor });
                let raw = p.min(m.max());
                if !*keep { m.anchor = raw }
                let t = m.snap(raw);
                if m.anchor == raw { m.anchor = t }
                m.pos = t;
                st.label("set_position");
            }
            Nav::Select(t) => {
                let (b, o) = m.at(m.pos);
                let bs = m.pos - o;
                match t % 4 {
                    0 => { c.select(SelectionType::Document); m.anchor = 0; m.pos = m.max() }
                    1 | 2 => { c.select(if t % 4 == 1 { SelectionType::BlockUnderCursor } else { SelectionType::LineUnderCursor }); m.anchor = bs; m.pos = bs + m.blocks[b].len() }
                    _ => {
                        c.select(SelectionType::WordUnderCursor);
                        match word_at(&m, m.pos) {
                            Some(x) => { m.anchor = x.0; m.pos = x.1 }
                            // between words the selection may be empty or the adjacent word
                            None => {
                                let (a, p) = (c.anchor(), c.position());
                                let touching = words(&m.blocks[b].text()).iter().any(|x| x.1 == o && (bs + x.0, bs + x.1) == (a, p));
                                ensure!((a == p && p == m.pos) || touching, "step {k}: WordUnderCursor at {} selected {a}..{p} of {text:?}", m.pos);
                                m.anchor = a; m.pos = p;
                            }
                        }
                    }
                }
                st.label("select");
            }
            Nav::Clear => { c.clear_selection(); m.anchor = m.pos }
            Nav::Clone => {
                let old = c;
                c = old.clone();
                old.set_position(0, MoveMode::MoveAnchor);
                st.label("clone");
            }
        }
        probe(&w, &m, &c).map_err(|e| format!("step {k} {s:?} from {before} in {text:?}: {e}"))?;
        if m.pos != before { moves += 1 }
    }
    ensure_eq!(w.doc.to_plain_text().map_err(|e| e.to_string())?, text, "navigation changed the text");
    if moves >= 3 { st.nontrivial() }
    Ok(())
}

fn nav() -> impl Strategy<Value = Nav> + Clone {
    prop_oneof![
        8 => (0u8..21, proptest::bool::weighted(0.4), prop_oneof![4 => Just(1u8), 1 => 0u8..5]).prop_map(|(i, k, n)| Nav::Move(i, k, n)),
        3 => (any::<u32>(), proptest::bool::weighted(0.4)).prop_map(|(p, k)| Nav::Set(p, k)),
        2 => any::<u8>().prop_map(Nav::Select),
        1 => Just(Nav::Clear),
        1 => Just(Nav::Clone),
    ]
}
/// Text with words, underscores, punctuation runs and clusters.
fn nav_text() -> impl Strategy<Value = String> + Clone {
    let piece = prop_oneof![5 => word(), 2 => proptest::sample::select(vec!["_", "__a", "can't", "3.14", "a_b", "  ", "...", "x\u{301}\u{327}", "👍🏽", "\t", "ﬁ", "한국", "²", "½", "www.x.org", "🇫🇷🇩🇪"]).prop_map(|s| s.to_string()),
        // clusters of many characters, and runs whose limits depend on their beginning
        1 => (0u8..4, 2usize..45).prop_map(|(k, n)| match k { 0 => format!("a{}", "\u{301}".repeat(n)), 1 => "🇫🇷".repeat(n), 2 => format!("👩{}", "\u{200d}👧".repeat(n)), _ => format!("각{}", "\u{11a8}".repeat(n)) })];
    let l = proptest::collection::vec(piece, 0..8).prop_map(|v| v.concat());
    proptest::collection::vec(l, 1..5).prop_map(|v| v.join("\n"))
}

pub fn run6(c: &mut Ctx) {
    let prof = Prof { model: true, markup: false, ..FLAT };
    let n = c.cases(120_000, 2_000_000);
    c.sub("walk", n, || (nav_text(), proptest::collection::vec(op(prof), 0..5), proptest::collection::vec(nav(), 1..20)).prop_map(|(init, ops, steps)| Walk { init, ops, steps }), walk);
}
