//! P19: long operations (HTML/Markdown import, DOCX export) end with exactly
//! one outcome, announced once, and leave a whole document behind.
use crate::engine::*;
use crate::obs::*;
use crate::ops::*;
use crate::props::docx::{read_docx, scratch, cleanup};
use crate::props::html::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use text_document::*;

pub const RULE: &str = "Generated sequences of imports and exports (good and bad destinations, empty to long content) on an edited document, some cancelled at a generated moment, each ended through wait, wait_timeout or try_result; outcome, events on both delivery paths and the resulting document are compared with what a fresh document gives. Non-trivial: the document had been edited before and at least one operation was long, failing or cancelled; counted distinct by the generated case.";

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum L { Html(Vec<RB>, u16), Md(u16, String), Docx, BadDocx(u8) }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Step { pub op: L, pub cancel: Option<u16>, pub end: u8, pub edit: Vec<Op> }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case { pub init: String, pub steps: Vec<Step> }

fn html_src(r: &[RB], n: u16) -> String { html_of(r).repeat(1 + n as usize) }
fn md_src(n: u16, t: &str) -> String { (0..=n).map(|i| format!("{t} {i}")).collect::<Vec<_>>().join("\n\n") }

fn step() -> impl Strategy<Value = Step> {
    let long = || prop_oneof![4 => Just(0u16), 3 => 1u16..40, 1 => 40u16..160];
    let l = prop_oneof![
        4 => (rich(), long()).prop_map(|(r, n)| L::Html(r, n)),
        3 => (long(), line1(3)).prop_map(|(n, t)| L::Md(n, t)),
        2 => Just(L::Docx),
        2 => (0u8..3).prop_map(L::BadDocx),
    ];
    // from 4000 on: once that percentage is reached
    (l, proptest::option::weighted(0.35, prop_oneof![2 => Just(0u16), 2 => 0u16..300, 2 => 300u16..3000, 3 => 4000u16..4100]), 0u8..3, proptest::collection::vec(op(FLAT), 0..4)).prop_map(|(op, cancel, end, edit)| Step { op, cancel, end, edit })
}
fn case() -> impl Strategy<Value = Case> {
    (text(3, 3), proptest::collection::vec(step(), 1..4)).prop_map(|(init, steps)| Case { init, steps })
}

/// Ends the operation the way the case says; the outcome must come, stay and repeat.
fn end<T>(mut o: Operation<T>, s: &Step) -> std::result::Result<(String, std::result::Result<T, String>), String> {
    let id = o.id().to_string();
    match s.cancel {
        Some(us) if us < 4000 => { if us > 0 { std::thread::sleep(Duration::from_micros(us as u64)) } o.cancel() }
        Some(p) => { while o.progress().is_none_or(|x| x.0 < (p - 4000) as f64) && !o.is_done() { std::hint::spin_loop() } o.cancel() }
        None => {}
    }
    let p = o.progress();
    if let Some((p, _)) = p { ensure!((0.0..=100.0).contains(&p), "progress {p}"); }
    let t0 = Instant::now();
    while !o.is_done() { ensure!(t0.elapsed().as_secs() < 30, "the operation does not end"); std::thread::sleep(Duration::from_micros(50)) }
    if s.cancel.is_none() { o.cancel() }
    ensure!(o.is_done(), "the operation is no longer done");
    let r = match s.end {
        0 => o.wait(),
        1 => match o.wait_timeout(Duration::from_secs(5)) { Some(r) => r, None => fail!("wait_timeout gave nothing for a finished operation") },
        _ => {
            let Some(a) = o.try_result() else { fail!("try_result gave nothing for a finished operation") };
            match o.try_result() { Some(b) => ensure_eq!(a.is_ok(), b.is_ok(), "second try_result"), None => fail!("second try_result gave nothing") }
            a
        }
    };
    Ok((id, r.map_err(|e| format!("{e:#}"))))
}
enum Out { Import(std::result::Result<usize, String>, String), Docx(std::result::Result<DocxExportResult, String>, std::path::PathBuf) }

fn check(c: &Case, st: &mut Stats) -> Check {
    let w = start(&c.init)?;
    let seen: Arc<Mutex<Vec<DocumentEvent>>> = Default::default();
    let s2 = seen.clone();
    let _sub = w.doc.on_change(move |e| s2.lock().unwrap().push(e));
    let mut interesting = false;
    let mut edited = false;
    for (k, s) in c.steps.iter().enumerate() {
        if w.doc.flow().iter().all(|e| matches!(e, FlowElement::Block(_))) {
            w.cur.set_position(0, MoveMode::MoveAnchor);
            for o in &s.edit { edited |= w.apply(o, st).is_some_and(|r| r.is_ok()); }
        }
        w.doc.poll_events();
        seen.lock().unwrap().clear();
        let old = observe(&w.doc)?;
        let (undo, redo) = (w.doc.can_undo(), w.doc.can_redo());
        let e = |e: anyhow::Error| format!("starting the operation: {e:#}");
        let (id, out) = match &s.op {
            L::Html(r, n) => { let src = html_src(r, *n); interesting |= *n > 0; let (id, r) = end(w.doc.set_html(&src).map_err(e)?, s)?; (id, Out::Import(r.map(|r| r.block_count), src)) }
            L::Md(n, t) => { let src = md_src(*n, t); interesting |= *n > 0; let (id, r) = end(w.doc.set_markdown(&src).map_err(e)?, s)?; (id, Out::Import(r.map(|r| r.block_count), src)) }
            L::Docx => { let p = scratch().join(format!("long-{:?}-{k}.docx", std::thread::current().id())); let _ = std::fs::remove_file(&p); let (id, r) = end(w.doc.to_docx(p.to_str().unwrap()).map_err(e)?, s)?; (id, Out::Docx(r, p)) }
            L::BadDocx(b) => {
                interesting = true;
                let p = match b { 0 => scratch().join("no/such/folder/x.docx"), 1 => scratch().to_path_buf(), _ => scratch().join("x".repeat(300)) };
                let (id, r) = end(w.doc.to_docx(p.to_str().unwrap()).map_err(e)?, s)?;
                ensure!(r.is_err(), "export to {} succeeded", p.display());
                (id, Out::Docx(r, p))
            }
        };
        interesting |= s.cancel.is_some();
        // the one announcement, on both delivery paths
        let t0 = Instant::now();
        let mut polled = w.doc.poll_events();
        let fin = |v: &[DocumentEvent]| v.iter().filter(|e| matches!(e, DocumentEvent::LongOperationFinished { operation_id, .. } if *operation_id == id)).count();
        while fin(&polled) == 0 || fin(&seen.lock().unwrap()) == 0 {
            ensure!(t0.elapsed().as_secs() < 30, "the end of the operation is not announced ({} polled, {} called back)", fin(&polled), fin(&seen.lock().unwrap()));
            std::thread::sleep(Duration::from_micros(100));
            polled.extend(w.doc.poll_events());
        }
        let (ok, cancelled) = match &out { Out::Import(r, _) => (r.is_ok(), s.cancel.is_some() && r.is_err()), Out::Docx(r, _) => (r.is_ok(), s.cancel.is_some() && r.is_err()) };
        if cancelled { st.label("cancelled or failed after cancel") } else if ok { st.label("completed") } else { st.label("failed") }
        // let a cancelled worker come to its end
        if s.cancel.is_some() && !ok {
            let new = if let Out::Import(_, src) = &out { let f = TextDocument::new(); if matches!(s.op, L::Html(..)) { set_html(&f, src)?; } else { crate::props::md::set_md(&f, src)?; } Some(flow(&f)) } else { None };
            let t0 = Instant::now();
            let mut calm = 0;
            while calm < 5 {
                // a cancelled import may be in the middle of being taken back
                let now = guarded(|| Ok(flow(&w.doc)));
                calm = if now.as_ref().is_ok_and(|n| *n == old.flow || new.as_ref().is_some_and(|x| n == x)) { calm + 1 } else { 0 };
                ensure!(t0.elapsed().as_secs() < 30, "after a cancelled operation the document is neither the old nor the new one");
                std::thread::sleep(Duration::from_millis(1));
            }
        }
        std::thread::sleep(Duration::from_micros(300));
        polled.extend(w.doc.poll_events());
        let called = seen.lock().unwrap().clone();
        for (path, v) in [("poll_events", &polled), ("on_change", &called)] {
            ensure_eq!(fin(v), 1, "number of end announcements on {path}");
            for ev in v { match ev {
                DocumentEvent::LongOperationFinished { success, error, .. } => {
                    ensure_eq!(*success, ok, "announced success on {path} against the outcome");
                    ensure_eq!(error.is_some(), !ok, "announced error on {path}");
                }
                DocumentEvent::LongOperationProgress { percent, .. } => ensure!((0.0..=100.0).contains(percent), "progress {percent} announced"),
                _ => {}
            } }
            if s.cancel.is_none() {
                let f = v.iter().position(|e| matches!(e, DocumentEvent::LongOperationFinished { .. })).unwrap();
                ensure!(!v[f..].iter().any(|e| matches!(e, DocumentEvent::LongOperationProgress { operation_id, .. } if *operation_id == id)), "progress announced after the end on {path}");
                let pr: Vec<f64> = v.iter().filter_map(|e| if let DocumentEvent::LongOperationProgress { percent, operation_id, .. } = e && *operation_id == id { Some(*percent) } else { None }).collect();
                ensure!(pr.windows(2).all(|p| p[0] <= p[1]), "progress goes back on {path}: {pr:?}");
            }
            let resets = v.iter().filter(|e| matches!(e, DocumentEvent::DocumentReset)).count();
            ensure_eq!(resets, (ok && matches!(out, Out::Import(..))) as usize, "number of document resets announced on {path}");
        }
        match out {
            Out::Import(Ok(n), src) => {
                let f = TextDocument::new();
                if matches!(s.op, L::Html(..)) { set_html(&f, &src)?; } else { crate::props::md::set_md(&f, &src)?; }
                if let Some(d) = diff(&observe(&f)?, &observe(&w.doc)?) { fail!("after the import (fresh vs this): {d}") }
                ensure_eq!(n, w.doc.block_count(), "reported block count");
                ensure!(!w.doc.can_undo() && !w.doc.can_redo(), "undo history survived the import");
            }
            Out::Import(Err(e), _) => { ensure!(s.cancel.is_some(), "the import failed: {e}"); }
            Out::Docx(r, p) => {
                if let Some(d) = diff(&old, &observe(&w.doc)?) { fail!("exporting changed the document: {d}") }
                ensure_eq!((w.doc.can_undo(), w.doc.can_redo()), (undo, redo), "undo history after an export");
                match r {
                    Ok(r) => { let items = read_docx(&p)?; ensure_eq!(items.len(), r.paragraph_count, "paragraphs in the exported file"); ensure_eq!(r.file_path, p.to_str().unwrap(), "reported path") }
                    Err(e) => ensure!(s.cancel.is_some() || matches!(s.op, L::BadDocx(_)), "the export failed: {e}"),
                }
                if matches!(s.op, L::Docx) { let _ = std::fs::remove_file(&p); }
            }
        }
        // the worker of a cancelled import may still be taking it back: this document is done with
        if s.cancel.is_some() && !ok && matches!(s.op, L::Html(..) | L::Md(..)) { break }
    }
    if edited && interesting { st.nontrivial() }
    Ok(())
}
pub fn run(c: &mut Ctx) {
    let n = c.cases(5_000, 100_000);
    c.sub("sequence", n, case, check);
    cleanup();
}
