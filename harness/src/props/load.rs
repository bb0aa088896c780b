//! P25: loading content replaces everything: afterwards the document is
//! indistinguishable from a fresh one given the same content.
use crate::engine::*;
use crate::obs::*;
use crate::ops::*;
use crate::props::html::*;
use crate::props::md::set_md;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use text_document::*;

pub const RULE: &str = "A document goes through generated sessions (load plain text, HTML, Markdown or clear; then edit, undo and redo), then loads once more and is compared with a fresh document given that load only, at once and after every step of a generated follow-up history on both. Non-trivial: an earlier session edited the document and the follow-up history changed it; counted distinct by the generated case.";

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Load { Plain(String), Clear, Html(Imp), Md(String), Raw(u8) }
const RAW: &[&str] = &[
    "<table><tr><td>a</td><td>b</td></tr><tr><td colspan=\"2\">c</td></tr></table><p>after</p>",
    "<p>x <img src=\"i.png\" width=\"3\" height=\"4\"> y</p>",
    "<p>one</p><table><tr><td>q</td></tr></table>",
];
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Sess { pub load: Load, pub ops: Vec<Op>, pub undos: u8, pub redos: u8 }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case { pub before: Vec<Sess>, pub last: Sess }

pub fn load(d: &TextDocument, l: &Load) -> std::result::Result<(), String> {
    match l {
        Load::Plain(t) => d.set_plain_text(t).map_err(|e| format!("set_plain_text: {e:#}")),
        Load::Clear => d.clear().map_err(|e| format!("clear: {e:#}")),
        Load::Html(i) => { let n = set_html(d, &i.html())?; ensure_eq!(d.block_count(), n, "block count against the one the import reported"); Ok(()) }
        Load::Md(m) => { let n = set_md(d, m)?; ensure_eq!(d.block_count(), n, "block count against the one the import reported"); Ok(()) }
        Load::Raw(i) => set_html(d, RAW[*i as usize % RAW.len()]).map(|_| ()),
    }
}
pub fn md_text() -> impl Strategy<Value = String> {
    let line = prop_oneof![4 => line1(3), 2 => (1usize..4, line1(2)).prop_map(|(n, t)| format!("{} {t}", "#".repeat(n))), 2 => line1(2).prop_map(|t| format!("- {t}")), 1 => line1(2).prop_map(|t| format!("1. {t}")), 1 => line1(2).prop_map(|t| format!("> {t}")), 1 => line1(2).prop_map(|t| format!("**{t}** *x*")), 1 => line1(2).prop_map(|t| format!("```\n{t}\n```"))];
    proptest::collection::vec(line, 0..4).prop_map(|v| v.join("\n\n"))
}
fn loads(raw: bool) -> BoxedStrategy<Load> {
    let mut v = vec![
        (4, text(3, 3).prop_map(Load::Plain).boxed()),
        (1, Just(Load::Clear).boxed()),
        (3, imp().prop_map(Load::Html).boxed()),
        (2, md_text().prop_map(Load::Md).boxed()),
    ];
    if raw { v.push((2, any::<u8>().prop_map(Load::Raw).boxed())) }
    proptest::strategy::Union::new_weighted(v).boxed()
}
fn case() -> impl Strategy<Value = Case> {
    let p = Prof { frames: false, groups: true, title: false, ..FLAT };
    let sess = move |raw, n| (loads(raw), proptest::collection::vec(op(p), 0..n), 0u8..4, 0u8..3).prop_map(|(load, ops, undos, redos)| Sess { load, ops, undos, redos });
    (proptest::collection::vec(sess(true, 5), 1..3), sess(false, 5)).prop_map(|(before, last)| Case { before, last })
}
fn run_ops(w: &World, s: &Sess, st: &mut Stats) {
    for o in &s.ops { w.apply(o, st); }
    for _ in 0..s.undos { if w.doc.can_undo() { let _ = w.doc.undo(); } }
    for _ in 0..s.redos { if w.doc.can_redo() { let _ = w.doc.redo(); } }
}
/// Only top-level blocks (editing across frames and tables is not what this property is about).
fn flat(d: &TextDocument) -> bool { d.flow().iter().all(|e| matches!(e, FlowElement::Block(_))) }
fn same(a: &TextDocument, b: &TextDocument, when: &str) -> Check {
    if let Some(d) = diff(&observe(b)?, &observe(a)?) { fail!("{when}, a fresh document and the reused one differ (fresh vs reused): {d}") }
    ensure_eq!((a.can_undo(), a.can_redo()), (b.can_undo(), b.can_redo()), "{when}: undo and redo availability");
    Ok(())
}
fn check(c: &Case, st: &mut Stats) -> Check {
    let w = World::new(TextDocument::new());
    let mut edited = false;
    for s in &c.before {
        load(&w.doc, &s.load)?;
        w.cur.set_position(0, MoveMode::MoveAnchor);
        if flat(&w.doc) { run_ops(&w, s, st); edited |= !s.ops.is_empty() }
        // fill the caches that the next load has to drop
        let _ = (w.doc.to_plain_text(), w.doc.find("a", 0, &FindOptions::default()));
    }
    load(&w.doc, &c.last.load)?;
    let f = World::new(TextDocument::new());
    load(&f.doc, &c.last.load)?;
    ensure!(!w.doc.can_undo() && !w.doc.can_redo(), "undo history survived loading");
    same(&w.doc, &f.doc, "after loading")?;
    w.cur.set_position(0, MoveMode::MoveAnchor);
    f.cur.set_position(0, MoveMode::MoveAnchor);
    let o0 = observe(&w.doc)?;
    if !flat(&w.doc) { st.label("loaded content with frames: not edited"); return Ok(()) }
    for (i, o) in c.last.ops.iter().enumerate() {
        let (a, b) = (w.apply(o, st), f.apply(o, st));
        let (a, b) = (a.map(|r| r.is_ok()), b.map(|r| r.is_ok()));
        ensure_eq!(a, b, "outcome of {o:?}");
        same(&w.doc, &f.doc, &format!("after op {i} {o:?}"))?;
        ensure_eq!((w.cur.position(), w.cur.anchor()), (f.cur.position(), f.cur.anchor()), "cursor after {o:?}");
    }
    if edited && observe(&w.doc)? != o0 { st.nontrivial() }
    for i in 0..c.last.undos { if w.doc.can_undo() && f.doc.can_undo() { let (a, b) = (w.doc.undo().is_ok(), f.doc.undo().is_ok()); ensure_eq!(a, b, "outcome of undo"); same(&w.doc, &f.doc, &format!("after undo {i}"))? } }
    for i in 0..c.last.redos { if w.doc.can_redo() && f.doc.can_redo() { let (a, b) = (w.doc.redo().is_ok(), f.doc.redo().is_ok()); ensure_eq!(a, b, "outcome of redo"); same(&w.doc, &f.doc, &format!("after redo {i}"))? } }
    Ok(())
}
pub fn run(c: &mut Ctx) {
    let n = c.cases(30_000, 400_000);
    c.sub("reload", n, case, check);
}
