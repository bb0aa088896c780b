//! P23: threads that edit and read one document through their own cursors:
//! what they get and leave behind is what some order of their calls gives.
use crate::engine::*;
use crate::obs::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex, mpsc};
use std::time::Duration;
use text_document::*;

pub const RULE: &str = "Two or three threads with a cursor each make a few generated calls on one document at the same time, several rounds per case; a serial order of the calls with the same results and outcome must exist, found by running orders one by one on fresh documents. Non-trivial: in some round the calls of different threads alternated and both changed the document; counted distinct by the generated input.";

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum T { Type(u8), Rich(u8), Delete, Back, Enter, Bold(bool), Remove, Heading(u8), List, Paste(u8), Undo, Redo, Replace(u8), Text, Flow, Stats, Find(u8), Selected, Block, Handle(u8), Title(u8), TitleIs, Dir(bool), Wrap(u8), Props, Put(u8, u8), Get(u8), Html, Markdown, Snap(u8), TextAt(u8), Load(u8), Clear, Forget, Modified(bool) }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Th { pub at: u8, pub sel: u8, pub ops: Vec<T> }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case { pub init: String, pub threads: Vec<Th>, pub spin: Vec<u8> }

const WORDS: [&str; 8] = ["a", "xy", "é", "\u{1F44B}\u{1F3FB}", "two words", "e\u{301}", "q\nr", "ß"];
fn word(w: u8) -> &'static str { WORDS[w as usize % 8] }
fn res<E: std::fmt::Display>(r: std::result::Result<(), E>) -> String { match r { Ok(()) => "ok".into(), Err(_) => "refused".into() } }
fn call(d: &TextDocument, c: &TextCursor, b: &[TextBlock], op: &T) -> String {
    match op {
        T::Type(w) => res(c.insert_text(word(*w).split('\n').next().unwrap())),
        T::Rich(w) => res(c.insert_formatted_text(word(*w).split('\n').next().unwrap(), &TextFormat { font_italic: Some(true), ..Default::default() })),
        T::Delete => res(c.delete_char()),
        T::Back => res(c.delete_previous_char()),
        T::Enter => res(c.insert_block()),
        T::Bold(on) => res(c.merge_char_format(&TextFormat { font_bold: Some(*on), ..Default::default() })),
        T::Remove => format!("{:?}", c.remove_selected_text().ok()),
        T::Heading(n) => res(c.set_block_format(&BlockFormat { heading_level: Some(1 + n % 3), ..Default::default() })),
        T::List => res(c.create_list(ListStyle::Decimal)),
        T::Paste(w) => res(c.insert_fragment(&DocumentFragment::from_plain_text(word(*w)))),
        T::Undo => res(d.undo()),
        T::Redo => res(d.redo()),
        T::Replace(w) => format!("{:?}", d.replace_text(word(*w), "<>", true, &FindOptions::default()).ok()),
        T::Text => d.to_plain_text().unwrap_or_default(),
        T::Flow => format!("{:?}", flow(d)),
        T::Stats => { let s = d.stats(); format!("{} {} {}", s.character_count, s.word_count, s.block_count) }
        T::Find(w) => format!("{:?}", d.find_all(word(*w), &FindOptions::default()).map(|v| v.iter().map(|m| (m.position, m.length)).collect::<Vec<_>>()).ok()),
        T::Selected => format!("{:?}", c.selected_text().ok()),
        T::Block => c.block_number().to_string(),
        T::Title(w) => res(d.set_title(word(*w))),
        T::TitleIs => d.title(),
        T::Dir(rtl) => res(d.set_text_direction(if *rtl { TextDirection::RightToLeft } else { TextDirection::LeftToRight })),
        T::Wrap(w) => res(d.set_default_wrap_mode([WrapMode::NoWrap, WrapMode::WordWrap, WrapMode::WrapAnywhere][*w as usize % 3].clone())),
        T::Props => format!("{:?} {:?} {}", d.text_direction(), d.default_wrap_mode(), d.is_modified()),
        T::Put(n, v) => res(d.add_resource(ResourceType::Image, &format!("r{}", n % 2), "image/png", &[*v % 4])),
        T::Get(n) => format!("{:?}", d.resource(&format!("r{}", n % 2)).ok()),
        T::Html => d.to_html().unwrap_or_default(),
        T::Markdown => d.to_markdown().unwrap_or_default(),
        T::Snap(p) => format!("{:?}", d.snapshot_block_at_position(*p as usize % 24).map(|b| (b.position, b.text))),
        T::TextAt(p) => format!("{:?}", d.text_at(*p as usize % 16, 1 + *p as usize / 32).ok()),
        T::Load(w) => res(d.set_plain_text(word(*w))),
        T::Clear => res(d.clear()),
        T::Forget => { d.clear_undo_redo(); String::new() }
        T::Modified(on) => { d.set_modified(*on); String::new() }
        T::Handle(i) => match b.get(*i as usize % b.len().max(1)) { Some(b) => format!("{:?}", b.text()), None => String::new() },
    }
}
fn edits(op: &T) -> bool { matches!(op, T::Type(_) | T::Rich(_) | T::Delete | T::Back | T::Enter | T::Bold(_) | T::Remove | T::Heading(_) | T::List | T::Paste(_) | T::Undo | T::Redo | T::Replace(_) | T::Title(_) | T::Dir(_) | T::Wrap(_) | T::Put(..) | T::Load(_) | T::Clear | T::Forget | T::Modified(_)) }

fn start(case: &Case) -> std::result::Result<(TextDocument, Vec<TextCursor>, Vec<TextBlock>), String> {
    let d = TextDocument::new();
    d.set_plain_text(&case.init).map_err(|e| format!("{e:#}"))?;
    // something to undo
    d.cursor().insert_text("0").map_err(|e| format!("{e:#}"))?;
    let max = d.to_plain_text().unwrap_or_default().chars().count();
    let cs = case.threads.iter().map(|t| {
        let c = d.cursor_at((t.at as usize * 7) % (max + 1));
        if t.sel > 0 { c.set_position((c.position() + t.sel as usize % 6).min(max), MoveMode::KeepAnchor) }
        c
    }).collect();
    let b = d.blocks();
    let _ = d.poll_events();
    Ok((d, cs, b))
}
#[derive(PartialEq)]
struct Outcome { results: Vec<Vec<String>>, state: Obs, props: String, cursors: Vec<(usize, usize)>, undo: (bool, bool), undone: String, events: Vec<String> }
fn outcome(d: &TextDocument, cs: &[TextCursor], results: Vec<Vec<String>>) -> std::result::Result<Outcome, String> {
    let events = d.poll_events().iter().map(|e| format!("{e:?}")).collect();
    let cursors = cs.iter().map(|c| (c.position(), c.anchor())).collect();
    let state = observe(d)?;
    let props = format!("{:?} {:?} {:?} {:?} {:?} {}", d.title(), d.text_direction(), d.default_wrap_mode(), d.resource("r0").ok(), d.resource("r1").ok(), d.is_modified());
    let undo = (d.can_undo(), d.can_redo());
    let mut undone = String::new();
    for _ in 0..40 { if !d.can_undo() { break } let r = d.undo(); undone += &format!("{:?}|{}\n", d.to_plain_text().ok(), r.is_ok()); undone += &d.title(); if r.is_err() { break } }
    Ok(Outcome { results, state, props, cursors, undo, undone, events })
}
fn serial(case: &Case, order: &[usize]) -> std::result::Result<Outcome, String> {
    let (d, cs, b) = start(case)?;
    let mut next = vec![0; case.threads.len()];
    let mut results = vec![vec![]; case.threads.len()];
    for t in order {
        results[*t].push(call(&d, &cs[*t], &b, &case.threads[*t].ops[next[*t]]));
        next[*t] += 1;
    }
    outcome(&d, &cs, results)
}
/// What differs, for the message.
fn differs(a: &Outcome, b: &Outcome) -> String {
    if a.results != b.results { return format!("results {:?} instead of {:?}", a.results, b.results) }
    if let Some(d) = diff(&b.state, &a.state) { return d }
    if a.props != b.props { return format!("properties {} instead of {}", a.props, b.props) }
    if a.cursors != b.cursors { return format!("cursors {:?} instead of {:?}", a.cursors, b.cursors) }
    if a.undo != b.undo || a.undone != b.undone { return format!("history {:?} {:?} instead of {:?} {:?}", a.undo, a.undone, b.undo, b.undone) }
    format!("events {:?} instead of {:?}", a.events, b.events)
}
fn orders(left: &mut Vec<usize>, now: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if left.iter().all(|n| *n == 0) { out.push(now.clone()); return }
    for t in 0..left.len() { if left[t] > 0 { left[t] -= 1; now.push(t); orders(left, now, out); now.pop(); left[t] += 1; } }
}

/// How often the threads of a case run against each other; more in a replay.
static ROUNDS: AtomicUsize = AtomicUsize::new(4);

fn check(case: &Case, st: &mut Stats) -> Check {
    for round in 0..ROUNDS.load(Ordering::Relaxed) as u32 {
        let (d, cs, b) = start(case)?;
        let n = case.threads.len();
        let ticket = Arc::new(AtomicUsize::new(0));
        let gate = Arc::new(Barrier::new(n));
        let heard: Arc<Mutex<Vec<String>>> = Default::default();
        let h = heard.clone();
        let _sub = d.on_change(move |e| h.lock().unwrap().push(format!("{e:?}")));
        let (tx, rx) = mpsc::channel();
        let cs = Arc::new(cs);
        for t in 0..n {
            let (d, cs, b, ops, ticket, gate, tx) = (d.clone(), cs.clone(), b.clone(), case.threads[t].ops.clone(), ticket.clone(), gate.clone(), tx.clone());
            let spin = case.spin.get(t).copied().unwrap_or(0) as u32 * (round % 8);
            std::thread::spawn(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    gate.wait();
                    for _ in 0..spin { std::hint::spin_loop() }
                    ops.iter().map(|op| { let r = call(&d, &cs[t], &b, op); (r, ticket.fetch_add(1, Ordering::SeqCst)) }).collect::<Vec<_>>()
                }));
                drop((d, cs, b));
                let _ = tx.send((t, r.ok()));
            });
        }
        drop(tx);
        let mut results = vec![vec![]; n];
        let mut done: Vec<(usize, usize)> = vec![];
        for _ in 0..n {
            match rx.recv_timeout(Duration::from_secs(60)) {
                Ok((t, Some(r))) => for (r, k) in r { results[t].push(r); done.push((k, t)) },
                Ok((t, None)) => fail!("thread {t} panicked"),
                Err(_) => fail!("the threads do not come to an end"),
            }
        }
        done.sort();
        let guess: Vec<usize> = done.iter().map(|x| x.1).collect();
        let got = outcome(&d, &cs, results)?;
        let mut polled = got.events.clone();
        let mut called = heard.lock().unwrap().clone();
        // the events of the final undo steps come after
        called.truncate(polled.len());
        // calls dispatch their own events: across threads their order is free
        polled.sort();
        called.sort();
        ensure_eq!(called, polled, "events called back against events polled");
        let switches = guess.windows(2).filter(|w| w[0] != w[1]).count();
        if switches >= n { st.label("alternated"); if case.threads.iter().filter(|t| t.ops.iter().any(edits)).count() > 1 { st.nontrivial() } }
        let first = serial(case, &guess)?;
        if first == got { st.label("order of completion"); continue }
        let mut all = vec![];
        orders(&mut case.threads.iter().map(|t| t.ops.len()).collect(), &mut vec![], &mut all);
        let mut found = false;
        for o in &all { if serial(case, o)? == got { found = true; break } }
        st.label("another order");
        ensure!(found, "no order of the calls gives what the threads got; in the order they completed, {guess:?}: {}", differs(&got, &first));
    }
    Ok(())
}

fn strat() -> impl Strategy<Value = Case> {
    let op = prop_oneof![
        5 => any::<u8>().prop_map(T::Type), 2 => any::<u8>().prop_map(T::Rich), 3 => Just(T::Delete), 3 => Just(T::Back), 3 => Just(T::Enter),
        2 => any::<bool>().prop_map(T::Bold), 2 => Just(T::Remove), 1 => any::<u8>().prop_map(T::Heading), 1 => Just(T::List), 2 => any::<u8>().prop_map(T::Paste),
        2 => Just(T::Undo), 1 => Just(T::Redo), 1 => any::<u8>().prop_map(T::Replace),
        1 => Just(T::Text), 1 => Just(T::Flow), 1 => Just(T::Stats), 1 => any::<u8>().prop_map(T::Find), 1 => Just(T::Selected), 1 => Just(T::Block), 1 => any::<u8>().prop_map(T::Handle),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(k, w)| match k % 20 {
            0..=2 => T::Title(w), 3 => T::TitleIs, 4 | 5 => T::Dir(w % 2 == 0), 6 => T::Wrap(w), 7 => T::Props, 8..=10 => T::Put(w, w / 2), 11 | 12 => T::Get(w), 13 => T::Html, 14 => T::Markdown, 15 => T::Snap(w), 16 => T::TextAt(w),
            17 => T::Modified(w % 2 == 0), 18 => if w % 3 == 0 { T::Load(w) } else if w % 3 == 1 { T::Clear } else { T::Forget }, _ => T::TitleIs,
        }),
    ];
    let th = move |n: usize| (any::<u8>(), prop_oneof![2 => Just(0u8), 1 => any::<u8>()], proptest::collection::vec(op.clone(), 1..=n)).prop_map(|(at, sel, ops)| Th { at, sel, ops });
    let threads = prop_oneof![3 => proptest::collection::vec(th(4), 2..=2), 1 => proptest::collection::vec(th(2), 3..=3)];
    (crate::ops::text(4, 4), threads, proptest::collection::vec(any::<u8>(), 3)).prop_map(|(init, threads, spin)| Case { init, threads, spin })
}
pub fn run(c: &mut Ctx) {
    let n = c.cases(8_000, 400_000);
    if matches!(c.mode, Mode::Replay { .. }) { ROUNDS.store(2_000, Ordering::Relaxed) }
    c.sub("threads", n, strat, check);
}
