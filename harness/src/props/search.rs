//! P10: find, find_all and replace_text against a reference search.
use crate::engine::*;
use crate::obs::*;
use crate::ops::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use text_document::*;
use unicode_segmentation::UnicodeSegmentation;

pub const RULE: &str = "A document is built by a random text and history; a query (a substring of the text, its case variants, free text or a generated regular expression) is searched forward, backward and completely, and replaced once or everywhere, and everything is compared with a reference search over the plain text. Non-trivial: the query has at least one match; counted distinct by the generated input.";

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Q { Sub(u16, u8, u8), Lit(String), Re(String) }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Srch { pub init: String, pub rep: u8, pub ops: Vec<Op>, pub q: Q, pub cs: bool, pub ww: bool, pub repl: String, pub all: bool, pub froms: Vec<u16> }

fn fold(s: &str, cs: bool) -> String {
    if cs { s.to_string() } else { s.chars().flat_map(|c| c.to_lowercase()).map(|c| if c == 'ς' { 'σ' } else { c }).collect() }
}
/// All matches as (char position, char length).
pub fn reference(text: &str, q: &str, cs: bool, ww: bool, re: bool) -> std::result::Result<Vec<(usize, usize)>, String> {
    if q.is_empty() { return Ok(vec![]) }
    let bytes: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
    let n = bytes.len() - 1;
    let mut out = vec![];
    if re {
        let r = regex::RegexBuilder::new(q).case_insensitive(!cs).build().map_err(|e| e.to_string())?;
        for m in r.find_iter(text) {
            let (a, b) = (text[..m.start()].chars().count(), text[..m.end()].chars().count());
            out.push((a, b - a));
        }
    } else {
        let fq = fold(q, cs);
        let fc: Vec<String> = text.chars().map(|c| fold(&c.to_string(), cs)).collect();
        for i in 0..n {
            let mut acc = String::new();
            for (j, f) in fc.iter().enumerate().skip(i) {
                acc.push_str(f);
                if acc == fq { out.push((i, j + 1 - i)); }
                if !fq.starts_with(acc.as_str()) { break }
            }
        }
    }
    if ww {
        let mut wb: HashSet<usize> = [0, n].into();
        for (i, w) in text.unicode_word_indices() { let a = text[..i].chars().count(); wb.insert(a); wb.insert(a + w.chars().count()); }
        out.retain(|(p, l)| wb.contains(p) && wb.contains(&(p + l)));
    }
    Ok(out)
}

fn fmts(d: &TextDocument) -> Vec<Vec<(char, TextFormat)>> {
    let f = flow(d);
    let mut lv = vec![];
    leaves(&f, &mut lv);
    lv.iter().map(|b| b.frags.iter().flat_map(|f| match f { Frag::Text { text, fmt, .. } => text.chars().map(|c| (c, fmt.clone())).collect::<Vec<_>>(), _ => vec![] }).collect()).collect()
}

fn check(h: &Srch, st: &mut Stats) -> Check {
    let init = vec![h.init.clone(); h.rep as usize].join("\n");
    let w = start(&init)?;
    for op in &h.ops { if let Some(Err(_)) = w.apply(op, st) { st.label("op error"); return Ok(()) } }
    let text = w.doc.to_plain_text().map_err(|e| e.to_string())?;
    let cv: Vec<char> = text.chars().collect();
    let (q, re) = match &h.q {
        Q::Sub(p, l, m) => {
            if cv.is_empty() { return Ok(()) }
            let p = *p as usize % cv.len();
            let s: String = cv[p..(p + *l as usize).min(cv.len())].iter().collect();
            (match m % 4 { 1 => s.to_uppercase(), 2 => s.to_lowercase(), 3 => s.chars().rev().collect(), _ => s }, false)
        }
        Q::Lit(s) => (s.clone(), false),
        Q::Re(s) => (s.clone(), true),
    };
    let o = |back| FindOptions { case_sensitive: h.cs, whole_word: h.ww, use_regex: re, search_backward: back };
    let want = match reference(&text, &q, h.cs, h.ww, re) {
        Ok(w) => w,
        Err(_) => {
            st.label("invalid regex");
            ensure!(w.doc.find_all(&q, &o(false)).is_err() && w.doc.find(&q, 0, &o(false)).is_err() && w.doc.replace_text(&q, "x", true, &o(false)).is_err(), "invalid regular expression {q:?} was accepted");
            ensure_eq!(w.doc.to_plain_text().unwrap_or_default(), text, "text after a failed replace");
            return Ok(())
        }
    };
    let e = |w: &str| { let w = w.to_string(); move |e: anyhow::Error| format!("{w} failed: {e:#}") };
    let got: Vec<(usize, usize)> = w.doc.find_all(&q, &o(false)).map_err(e("find_all"))?.iter().map(|m| (m.position, m.length)).collect();
    ensure_eq!(got, want, "find_all({q:?}, regex={re}, case_sensitive={}, whole_word={}) in {:?} (document, reference)", h.cs, h.ww, text.chars().take(200).collect::<String>());
    let mut froms: Vec<usize> = h.froms.iter().map(|f| *f as usize % (cv.len() + 3)).collect();
    for (p, l) in want.iter().take(3) { froms.extend([*p, p + 1, p + l, p.saturating_sub(1)]); }
    for f in froms {
        let g = w.doc.find(&q, f, &o(false)).map_err(e("find"))?.map(|m| (m.position, m.length));
        ensure_eq!(g, want.iter().copied().find(|m| m.0 >= f), "find({q:?}) forward from {f}");
        let g = w.doc.find(&q, f, &o(true)).map_err(e("find"))?.map(|m| (m.position, m.length));
        ensure_eq!(g, want.iter().copied().rfind(|m| m.0 < f), "find({q:?}) backward from {f}");
    }
    if !want.is_empty() { st.nontrivial(); st.label(if re { "regex with matches" } else { "literal with matches" }); if want.len() > 1 { st.label("several matches") } }
    if want.iter().zip(want.iter().skip(1)).any(|(a, b)| a.0 + a.1 > b.0) {
        st.label("overlapping matches");
        // recorded finding: overlapping literal matches are all replaced and garble each other
        if !strict() && h.all { return Ok(()) }
    }
    // ── replace ──
    let before = observe(&w.doc)?;
    let fb = fmts(&w.doc);
    let can_undo = w.doc.can_undo();
    // a match is replaceable when it lies inside one paragraph
    let mut starts = vec![0];
    for (i, c) in cv.iter().enumerate() { if *c == '\n' { starts.push(i + 1) } }
    let inblock = |m: &&(usize, usize)| { let b = starts.partition_point(|s| *s <= m.0) - 1; let end = starts.get(b + 1).map(|s| s - 1).unwrap_or(cv.len()); m.0 < end && m.0 + m.1 <= end };
    let mut todo: Vec<(usize, usize)> = want.iter().filter(inblock).copied().collect();
    if !h.all { todo.truncate(1) }
    let mut out: Vec<Option<usize>> = vec![]; // surviving characters by old index; None: replacement
    let rc: Vec<char> = h.repl.chars().collect();
    let mut res = String::new();
    let mut i = 0;
    for (p, l) in &todo {
        for (k, c) in cv.iter().enumerate().take(*p).skip(i) { out.push(Some(k)); res.push(*c) }
        for c in &rc { out.push(None); res.push(*c) }
        i = p + l;
    }
    for (k, c) in cv.iter().enumerate().skip(i) { out.push(Some(k)); res.push(*c) }
    let n = w.doc.replace_text(&q, &h.repl, h.all, &o(false)).map_err(e("replace_text"))?;
    ensure_eq!(n, todo.len(), "count returned by replace_text({q:?}, {:?}, all={})", h.repl, h.all);
    ensure_eq!(w.doc.to_plain_text().map_err(e("to_plain_text"))?, res, "text after replace_text({q:?}, {:?}, all={}) (document, reference)", h.repl, h.all);
    ensure_eq!(w.doc.character_count(), res.chars().filter(|c| *c != '\n').count(), "character_count after replace");
    // formats of surviving characters are untouched
    let fa = fmts(&w.doc);
    let (mut ob, mut nb) = (vec![], vec![]);
    for (i, b) in fb.iter().enumerate() { if i > 0 { ob.push(None) } ob.extend(b.iter().map(|x| Some(x.clone()))) }
    for (i, b) in fa.iter().enumerate() { if i > 0 { nb.push(None) } nb.extend(b.iter().map(|x| Some(x.clone()))) }
    ensure_eq!(nb.len(), out.len(), "length of the flow after replace");
    for (k, s) in out.iter().enumerate() { if let Some(s) = s { ensure_eq!(nb[k], ob[*s], "character and format at {k} after replace_text({q:?}, {:?}) (document, reference)", h.repl); } }
    for (k, (a, b)) in before.flow.iter().zip(flow(&w.doc).iter()).enumerate() {
        if let (OEl::B(a), OEl::B(b)) = (a, b) { ensure_eq!(b.fmt, a.fmt, "block format of block {k} after replace"); ensure_eq!(b.list, a.list, "list of block {k} after replace"); }
    }
    if todo.is_empty() {
        if let Some(d) = diff(&before, &observe(&w.doc)?) { fail!("replace_text without a match changed the document: {d}") }
        ensure_eq!(w.doc.can_undo(), w.doc.can_undo() | can_undo, "can_undo");
    } else {
        st.label("replaced");
        ensure!(w.doc.can_undo(), "replace_text cannot be undone");
        let after = observe(&w.doc)?;
        w.doc.undo().map_err(e("undo"))?;
        if let Some(d) = diff(&before, &observe(&w.doc)?) { fail!("undo of replace_text: {d}") }
        w.doc.redo().map_err(e("redo"))?;
        if let Some(d) = diff(&after, &observe(&w.doc)?) { fail!("redo of replace_text: {d}") }
    }
    Ok(())
}

fn atom() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        4 => "[abAB]", 1 => Just("é".to_string()), 1 => Just(".".to_string()), 1 => Just("\\w".to_string()), 1 => Just("\\b".to_string()),
        1 => Just("[ab]".to_string()), 1 => Just("[^a ]".to_string()), 1 => Just("\\s".to_string()), 1 => Just("^".to_string()), 1 => Just("$".to_string()), 1 => Just("日".to_string()),
        1 => Just("\\d".to_string()), 1 => Just("(?m)$".to_string()), 1 => Just("(?m)^".to_string()), 1 => Just("\\p{Lu}".to_string()),
    ]
}
fn regex_s() -> impl Strategy<Value = String> + Clone {
    let item = (atom(), prop_oneof![5 => Just(""), 1 => Just("*"), 1 => Just("+"), 1 => Just("?"), 1 => Just("{2}"), 1 => Just("+?")]).prop_map(|(a, q)| format!("{a}{q}"));
    let seq = proptest::collection::vec(item, 1..4).prop_map(|v| v.concat());
    prop_oneof![
        6 => seq.clone(),
        2 => (seq.clone(), seq.clone()).prop_map(|(a, b)| format!("{a}|{b}")),
        2 => (seq.clone(), seq.clone()).prop_map(|(a, b)| format!("({a}){b}")),
        1 => (seq.clone(), seq).prop_map(|(a, b)| format!("(?:{a}|{b})+")),
        1 => proptest::sample::select(vec!["(", "[a", "*", "a{2", "\\", "(?P<x>a)b", "a)", "\\1"]).prop_map(|s| s.to_string()),
    ]
}
fn stext() -> impl Strategy<Value = String> + Clone {
    let tok = prop_oneof![
        8 => "[abAB]{1,3}", 4 => Just(" ".to_string()), 2 => Just("\n".to_string()),
        3 => proptest::sample::select(vec!["é", "É", "e\u{301}", "日", "👍", "İ", "ß", "ẞ", "Σ", "ς", "σ", "_", "'", ".", "-", "1", "22", "\u{a0}", "K", "ſ", "ﬁ"]).prop_map(|s| s.to_string()),
    ];
    proptest::collection::vec(tok, 0..14).prop_map(|v| v.concat())
}
fn strat() -> impl Strategy<Value = Srch> {
    let q = prop_oneof![
        6 => (any::<u16>(), 1u8..5, any::<u8>()).prop_map(|(a, b, c)| Q::Sub(a, b, c)),
        1 => stext().prop_map(Q::Lit), 1 => "[abAB]{0,2}".prop_map(Q::Lit), 5 => regex_s().prop_map(Q::Re),
    ];
    let prof = Prof { replace: false, markup: false, lists: true, ..FLAT };
    ((stext(), prop_oneof![12 => Just(1u8), 2 => Just(3u8), 1 => 40u8..80], prop_oneof![1 => Just(vec![]).boxed(), 1 => ops(prof, 5)], q), (any::<bool>(), proptest::bool::weighted(0.3), prop_oneof![2 => stext().prop_map(|s| s.replace('\n', "")), 1 => Just(String::new()), 1 => "[ab]{1,3}", 1 => Just("$1\\n${0}".to_string())], any::<bool>(), proptest::collection::vec(any::<u16>(), 0..4)))
        .prop_map(|((init, rep, ops, q), (cs, ww, repl, all, froms))| Srch { init, rep, ops, q, cs, ww, repl, all, froms })
}
pub fn run(c: &mut Ctx) { let n = c.cases(60_000, 1_500_000); c.sub("search", n, strat, check); }
