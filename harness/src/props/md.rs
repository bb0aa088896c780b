//! P12: Markdown export read by an independent CommonMark reader and by
//! set_markdown; import of generated Markdown against its source structure.
use crate::engine::*;
use crate::obs::*;
use crate::ops::*;
use crate::props::html::*;
use proptest::prelude::*;
use pulldown_cmark as cm;
use serde::{Deserialize, Serialize};
use text_document::*;

pub const RULE: &str = "Documents whose paragraphs are space-separated tokens full of Markdown characters, with formats on whole tokens, are exported, read by an independent CommonMark parser and re-imported; generated Markdown with known structure is imported. Non-trivial: at least two blocks or a formatted token; counted distinct by the generated input.";

/// What the Markdown says, by the reference parser.
pub fn read_md(md: &str) -> std::result::Result<Vec<RtB>, String> {
    let o = cm::Options::ENABLE_STRIKETHROUGH | cm::Options::ENABLE_TABLES | cm::Options::ENABLE_TASKLISTS;
    let new = |q: usize| RtB { quote: q, chars: vec![], heading: None, ordered: None, code: false, lang: None, nb: false, rtl: false, lh: None, bg: None };
    let mut out: Vec<RtB> = vec![];
    let mut cur: Option<RtB> = None;
    let mut fl = 0u8;
    let mut href: Option<String> = None;
    let mut lists: Vec<bool> = vec![];
    let mut q = 0;
    let flush = |cur: &mut Option<RtB>, out: &mut Vec<RtB>| if let Some(c) = cur.take() && (!c.chars.is_empty() || c.heading.is_some() || c.code) { out.push(c) };
    for e in cm::Parser::new_ext(md, o) {
        use cm::{Event as E, Tag as T, TagEnd as X};
        match e {
            E::Start(T::Paragraph) => { if cur.is_none() { cur = Some(new(q)) } }
            E::End(X::Paragraph) => flush(&mut cur, &mut out),
            E::Start(T::Heading { level, .. }) => { flush(&mut cur, &mut out); cur = Some(RtB { heading: Some(level as u8), ..new(q) }) }
            E::End(X::Heading(_)) => flush(&mut cur, &mut out),
            E::Start(T::List(n)) => { flush(&mut cur, &mut out); lists.push(n.is_some()) }
            E::End(X::List(_)) => { lists.pop(); }
            E::Start(T::Item) => { flush(&mut cur, &mut out); cur = Some(RtB { ordered: lists.last().copied(), ..new(q) }) }
            E::End(X::Item) => flush(&mut cur, &mut out),
            E::Start(T::CodeBlock(k)) => {
                flush(&mut cur, &mut out);
                let lang = match k { cm::CodeBlockKind::Fenced(l) if !l.is_empty() => Some(l.to_string()), cm::CodeBlockKind::Fenced(_) => None, cm::CodeBlockKind::Indented => fail!("indented code block in {md:?}") };
                cur = Some(RtB { code: true, lang, ..new(q) })
            }
            E::End(X::CodeBlock) => { if let Some(c) = cur.as_mut() && c.chars.last().is_some_and(|c| c.0 == '\n') { c.chars.pop(); } flush(&mut cur, &mut out) }
            E::Start(T::BlockQuote(_)) => { flush(&mut cur, &mut out); q += 1 }
            E::End(X::BlockQuote(_)) => { flush(&mut cur, &mut out); q -= 1 }
            E::Start(T::Strong) => fl |= 1, E::End(X::Strong) => fl &= !1,
            E::Start(T::Emphasis) => fl |= 2, E::End(X::Emphasis) => fl &= !2,
            E::Start(T::Strikethrough) => fl |= 8, E::End(X::Strikethrough) => fl &= !8,
            E::Start(T::Link { dest_url, .. }) => href = Some(dest_url.to_string()), E::End(X::Link) => href = None,
            E::Text(t) => { let c = cur.get_or_insert_with(|| new(q)); let f = if c.code { 16 } else { fl }; let h = if c.code { None } else { href.clone() }; c.chars.extend(t.chars().map(|x| (x, f, h.clone()))) }
            E::Code(t) => { let c = cur.get_or_insert_with(|| new(q)); c.chars.extend(t.chars().map(|x| (x, fl | 16, href.clone()))) }
            E::SoftBreak => if let Some(c) = cur.as_mut() { c.chars.push((' ', fl, href.clone())) },
            x => fail!("unexpected {x:?} in {md:?}"),
        }
    }
    flush(&mut cur, &mut out);
    Ok(out)
}
/// Attributes Markdown cannot express are dropped before comparing.
pub fn mdview(v: Vec<RtB>) -> Vec<RtB> {
    v.into_iter().map(|b| RtB { chars: b.chars.into_iter().map(|(c, f, h)| (c, f & !4, h)).collect(), nb: false, rtl: false, lh: None, bg: None, ..b })
        .filter(|b| !b.chars.is_empty() || b.heading.is_some() || b.code).collect()
}
pub fn set_md(d: &TextDocument, m: &str) -> std::result::Result<usize, String> {
    Ok(finish(d.set_markdown(m).map_err(|e| format!("set_markdown: {e:#}"))?, "set_markdown")?.block_count)
}

fn check_doc(v: &Vec<DB>, st: &mut Stats) -> Check {
    let d = build(v)?;
    let before = observe(&d)?;
    let md = d.to_markdown().map_err(|e| format!("to_markdown: {e:#}"))?;
    let src = mdview(rt(&d));
    if src.len() > 1 || src.iter().any(|b| b.chars.iter().any(|c| c.1 != 0)) { st.nontrivial() }
    let got = read_md(&md)?;
    same(&got, &src, &format!("reading to_markdown() {:?}", md.chars().take(300).collect::<String>()))?;
    let e = TextDocument::new();
    let n = set_md(&e, &md)?;
    let back = mdview(rt(&e));
    same(&back, &src, &format!("set_markdown(to_markdown()) {:?}", md.chars().take(300).collect::<String>()))?;
    ensure_eq!(n, src.len().max(1), "block count reported by set_markdown");
    crate::coh::coherent(&e, false).map_err(|e| format!("imported document: {e}"))?;
    let f = DocumentFragment::from_markdown(&md);
    let plain: Vec<String> = src.iter().map(|b| b.chars.iter().map(|c| c.0).collect()).collect();
    ensure_eq!(f.to_plain_text(), plain.join("\n"), "DocumentFragment::from_markdown({md:?}).to_plain_text()");
    if let Some(x) = diff(&before, &observe(&d)?) { fail!("exporting changed the document: {x}") }
    Ok(())
}

fn md_url(f: u8) -> String { url(f).chars().flat_map(|c| if c.is_ascii_punctuation() { vec!['\\', c] } else { vec![c] }).collect() }
/// A token: no white space, any Markdown characters.
fn token() -> impl Strategy<Value = String> + Clone {
    proptest::collection::vec(prop_oneof![
        4 => "[a-z]{1,4}", 1 => "[0-9]{1,2}",
        5 => proptest::sample::select(vec!["<", ">", "&", "&amp;", "&#65;", "<b>", "</p>", "<!--", "\\", "\\\\", "*", "**", "_", "__", "`", "``", "```", "~", "~~", "^", "|", "#", "-", "---", "+", "=", "===", "[", "]", "](", ")", "(", "!", "![", ".", "1.", "1)", ":", "{", "}", "$", "%", "http://a.b", "'", "\"", "[x]", ">"]).prop_map(|s| s.to_string()),
        1 => proptest::sample::select(vec!["é", "日本", "👍", "e\u{301}", "“"]).prop_map(|s| s.to_string()),
    ], 1..4).prop_map(|v| v.concat())
}
/// A paragraph: tokens with one format each (optionally underlined in part), separated by plain spaces.
pub fn para() -> impl Strategy<Value = Vec<(String, u8)>> + Clone {
    let fmt = prop_oneof![5 => Just(0u8), 1 => Just(1u8), 1 => Just(2), 1 => Just(8), 1 => Just(16), 1 => Just(3), 1 => Just(9), 1 => Just(32), 1 => Just(11), 1 => Just(33), 1 => Just(17), 2 => (0u8..64).prop_map(|f| f & !4)];
    proptest::collection::vec((token(), (fmt, 0u8..4).prop_map(|(f, k)| spread(f, k)), 0u8..6, token(), prop_oneof![8 => Just(" "), 1 => Just("  ")]), 1..5).prop_map(|v| {
        let mut r = vec![];
        for (i, (t, f, u, t2, sp)) in v.into_iter().enumerate() {
            if i > 0 { r.push((sp.to_string(), 0)) }
            if u == 0 && f & 32 == 0 { r.push((t, f | 4)); r.push((t2, f)) } else if u == 1 && f & 48 == 0 && f != 0 { r.push((format!("{t} {t2}"), f)) } else { r.push((t, f)) }
        }
        r
    })
}
pub fn blocks() -> impl Strategy<Value = Vec<DB>> + Clone {
    let k = prop_oneof![5 => Just(K::Para), 2 => (1u8..7).prop_map(K::H), 5 => (0u8..8, 0u8..4).prop_map(|(a, b)| K::List(a, b)), 1 => proptest::option::of(0u8..3).prop_map(K::Code)];
    let runs = prop_oneof![8 => para().boxed(), 1 => Just(vec![]).boxed()];
    proptest::collection::vec((k, runs).prop_map(|(k, runs)| DB { runs: if matches!(k, K::List(..)) && runs.is_empty() { vec![("x".into(), 0)] } else if matches!(k, K::Code(_)) { runs.into_iter().map(|r| (r.0, 0)).collect() } else { runs }, k }), 1..7)
}

// ── import ──
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum M { P(Vec<(String, u8)>), H(u8, Vec<(String, u8)>, bool), L(Vec<(bool, u8, Vec<(String, u8)>)>), C(Vec<String>, Option<u8>, bool), Q(Vec<M>), Hard(Vec<Vec<(String, u8)>>, bool), Soft(Vec<Vec<(String, u8)>>) }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Imp { pub nodes: Vec<M>, pub variant: Vec<u8> }
struct W<'a> { v: &'a [u8], i: usize }
impl W<'_> {
    fn pick(&mut self, n: u8) -> u8 { let x = self.v[self.i % self.v.len()]; self.i += 1; x % n }
    fn runs(&mut self, r: &[(String, u8)]) -> String {
        let mut s = String::new();
        for (i, (t, f)) in r.iter().enumerate() {
            if i > 0 { s.push(' ') }
            let mut x = if f & 16 != 0 { format!("`{t}`") } else { self.text(t) };
            if f & 8 != 0 { x = format!("~~{x}~~") }
            let d = if self.pick(2) == 0 { "*" } else { "_" };
            if f & 2 != 0 { x = format!("{d}{x}{d}") }
            if f & 1 != 0 { let d = if d == "*" { "__" } else { "**" }; x = format!("{d}{x}{d}") }
            if f & 32 != 0 { x = match self.pick(2) { 0 => format!("[{x}](<{}>)", md_url(*f)), _ => format!("[{x}](<{}> \"title\")", md_url(*f)) } }
            s += &x;
        }
        s
    }
    fn text(&mut self, t: &str) -> String {
        let mut s = String::new();
        for c in t.chars() {
            match (c, self.pick(5)) {
                ('&', 0) => s += "&#38;", ('<', 0) => s += "&lt;", ('>', 0) => s += "&gt;",
                (c, _) if c.is_ascii_punctuation() => { s.push('\\'); s.push(c) }
                (c, _) => s.push(c),
            }
        }
        s
    }
    fn node(&mut self, n: &M) -> String {
        match n {
            M::P(r) => self.runs(r),
            M::H(h, r, setext) => { let t = self.runs(r); if *setext && *h <= 2 { format!("{t}\n{}", if *h == 1 { "====" } else { "---" }) } else { format!("{} {t}{}", "#".repeat(*h as usize), if self.pick(2) == 0 { "" } else { " ##" }) } }
            M::L(items) => {
                let mut s = String::new();
                let b = ["-", "*", "+"][self.pick(3) as usize];
                let mut num = [0; 4];
                for (o, d, r) in items {
                    let d = *d as usize;
                    if !s.is_empty() { s.push('\n') }
                    num[d] += 1;
                    for x in &mut num[d + 1..] { *x = 0 }
                    let m = if *o { format!("{}.", num[d]) } else { b.to_string() };
                    s += &format!("{}{m} {}", "    ".repeat(d), self.runs(r));
                }
                s
            }
            M::C(l, lang, tilde) => { let f = if *tilde { "~~~" } else { "```" }; format!("{f}{}\n{}\n{f}", lang.map(|l| ["rust", "c++", "py"][l as usize % 3]).unwrap_or(""), l.join("\n")) }
            M::Q(v) => { let t: Vec<String> = v.iter().map(|x| self.node(x)).collect(); t.join("\n\n").lines().map(|l| format!("> {l}")).collect::<Vec<_>>().join("\n") }
            M::Hard(v, bs) => v.iter().map(|r| self.runs(r)).collect::<Vec<_>>().join(if *bs { "\\\n" } else { "  \n" }),
            M::Soft(v) => v.iter().map(|r| self.runs(r)).collect::<Vec<_>>().join("\n"),
        }
    }
}
fn want(nodes: &[M], q: usize, out: &mut Vec<RtB>) {
    let ch = |r: &[(String, u8)]| { let mut v: Vec<Ch> = vec![]; for (i, (t, f)) in r.iter().enumerate() { if i > 0 { v.push((' ', 0, None)) } let (b, h) = bits(&run_format(*f)); v.extend(t.chars().map(|c| (c, b, h.clone()))) } v };
    let mk = |r: &[(String, u8)]| RtB { quote: q, chars: ch(r), heading: None, ordered: None, code: false, lang: None, nb: false, rtl: false, lh: None, bg: None };
    for n in nodes {
        match n {
            M::P(r) => out.push(mk(r)),
            M::H(h, r, _) => out.push(RtB { heading: Some(*h), ..mk(r) }),
            M::L(i) => for (o, _, r) in i { out.push(RtB { ordered: Some(*o), ..mk(r) }) },
            M::C(l, lang, _) => out.push(RtB { code: true, lang: lang.map(|l| ["rust", "c++", "py"][l as usize % 3].into()), chars: l.join("\n").chars().map(|c| (c, 16, None)).collect(), ..mk(&[]) }),
            M::Q(v) => want(v, q + 1, out),
            M::Hard(v, _) => for r in v { out.push(mk(r)) },
            M::Soft(v) => { let all: Vec<(String, u8)> = v.concat(); out.push(mk(&all)) }
        }
    }
}
fn check_imp(m: &Imp, st: &mut Stats) -> Check {
    let mut w = W { v: &m.variant, i: 0 };
    let md = m.nodes.iter().map(|n| w.node(n)).collect::<Vec<_>>().join("\n\n") + ["", "\n", "\n\n"][m.variant[0] as usize % 3];
    let mut exp = vec![];
    want(&m.nodes, 0, &mut exp);
    // the written Markdown must mean what the structure says (a check of this generator, not of the library)
    if !m.nodes.iter().any(|n| matches!(n, M::Hard(..))) && !exp.iter().any(|b| b.quote > 0) {
        match read_md(&md) { Ok(g) if g == exp => {} x => { st.label("generator: ambiguous markdown skipped"); if std::env::var_os("VH_DEBUG").is_some() { eprintln!("{md:?} {x:?} {exp:?}") } return Ok(()) } }
    }
    if exp.len() > 1 { st.nontrivial() }
    let d = TextDocument::new();
    let n = set_md(&d, &md)?;
    same(&rt(&d), &exp, &format!("set_markdown({:?})", md.chars().take(300).collect::<String>()))?;
    ensure_eq!(n, exp.len(), "block count reported by set_markdown");
    let f = DocumentFragment::from_markdown(&md);
    let plain: Vec<String> = exp.iter().map(|b| b.chars.iter().map(|c| c.0).collect()).collect();
    ensure_eq!(f.to_plain_text(), plain.join("\n"), "DocumentFragment::from_markdown({md:?}).to_plain_text()");
    // and back out again
    let out = d.to_markdown().map_err(|e| e.to_string())?;
    let e = TextDocument::new();
    set_md(&e, &out)?;
    same(&rt(&e), &exp, &format!("set_markdown(to_markdown()) {:?} of {:?}", out.chars().take(300).collect::<String>(), md.chars().take(300).collect::<String>()))?;
    Ok(())
}
fn iruns() -> impl Strategy<Value = Vec<(String, u8)>> + Clone {
    let t = ("[a-z]{1,4}", prop_oneof![3 => Just(String::new()), 2 => token().prop_map(|s| s.replace('`', "'"))]).prop_map(|(a, b)| format!("{a}{b}"));
    let f = prop_oneof![5 => Just(0u8), 1 => Just(1u8), 1 => Just(2), 1 => Just(8), 1 => Just(16), 1 => Just(3), 1 => Just(9), 1 => Just(32), 1 => Just(33)];
    proptest::collection::vec((t, (f, 0u8..4).prop_map(|(f, k)| spread(f, k))), 1..4)
}
fn leaf() -> impl Strategy<Value = M> + Clone {
    let list = proptest::collection::vec((any::<bool>(), 0u8..4, iruns()), 1..6).prop_map(|v| {
        let mut prev = -1i16;
        let mut kinds = [false; 4];
        M::L(v.into_iter().map(|(o, d, r)| {
            let d = (d as i16).min(prev + 1);
            // within one list all items have one kind
            if d > prev { kinds[d as usize] = o }
            prev = d;
            (kinds[d as usize], d as u8, r)
        }).collect())
    });
    let lines = proptest::collection::vec(iruns(), 2..4);
    prop_oneof![
        4 => iruns().prop_map(M::P), 2 => (1u8..7, iruns(), any::<bool>()).prop_map(|(h, r, s)| M::H(h, r, s)), 4 => list,
        1 => (proptest::collection::vec("[a-z*_#>-]{1,4}( [a-z<&]{1,3})?", 1..3), proptest::option::of(0u8..3), any::<bool>()).prop_map(|(l, k, t)| M::C(l, k, t)),
        1 => (lines.clone(), any::<bool>()).prop_map(|(l, b)| M::Hard(l, b)), 1 => lines.prop_map(M::Soft),
    ]
}
fn imp() -> impl Strategy<Value = Imp> {
    let q = proptest::collection::vec(leaf(), 1..3).prop_map(M::Q);
    (proptest::collection::vec(prop_oneof![8 => leaf(), 1 => q], 1..5), proptest::collection::vec(any::<u8>(), 1..30)).prop_map(|(mut nodes, variant)| {
        // two lists in a row are one list in Markdown
        let mut i = 1;
        while i < nodes.len() { if matches!((&nodes[i - 1], &nodes[i]), (M::L(_), M::L(_))) { nodes.remove(i); } else { i += 1 } }
        Imp { nodes, variant }
    })
}
// ── lists: depth and numbering of long and nested lists ──
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Lists { pub chunks: Vec<(u8, u8, u8, bool)>, pub tables: Vec<u8> }
/// Paragraphs and list items (text, depth of nesting, 0 outside lists; numbered), tables as "T".
type Item = (String, usize, bool);
fn read_items(md: &str) -> std::result::Result<Vec<Item>, String> {
    let (mut out, mut lists, mut cur, mut table): (Vec<Item>, Vec<bool>, Option<Item>, bool) = Default::default();
    for e in cm::Parser::new_ext(md, cm::Options::ENABLE_TABLES) {
        use cm::{Event as E, Tag as T, TagEnd as X};
        match e {
            E::Start(T::List(n)) => { out.extend(cur.take()); lists.push(n.is_some()) }
            E::End(X::List(_)) => { lists.pop(); }
            E::Start(T::Item) => { out.extend(cur.take()); cur = Some((String::new(), lists.len(), lists[lists.len() - 1])) }
            E::End(X::Item) => out.extend(cur.take()),
            E::Start(T::Paragraph) => { if cur.is_none() { cur = Some((String::new(), lists.len(), lists.last() == Some(&true))) } }
            E::End(X::Paragraph) => out.extend(cur.take()),
            E::Start(T::Table(_)) => { out.extend(cur.take()); out.push(("T".into(), lists.len(), false)); table = true }
            E::End(X::Table) => table = false,
            _ if table => {}
            E::Text(t) => match cur.as_mut() { Some(c) => c.0.push_str(&t), None => fail!("text {t:?} outside any paragraph") },
            E::SoftBreak => if let Some(c) = cur.as_mut() { c.0.push('\n') },
            x => fail!("unexpected {x:?}"),
        }
    }
    out.extend(cur);
    Ok(out)
}
fn want_items(d: &TextDocument) -> Vec<Item> {
    let (mut out, mut st): (Vec<Item>, Vec<u8>) = Default::default();
    for e in flow(d) { match e {
        OEl::B(b) => {
            if let Some(l) = &b.list {
                while st.last().is_some_and(|x| *x > l.2) { st.pop(); }
                if st.last().is_none_or(|x| *x < l.2) { st.push(l.2) }
                out.push((b.text.clone(), st.len(), ordered(&l.1)));
            } else { st.clear(); if !b.text.is_empty() { out.push((b.text.clone(), 0, false)) } }
        }
        OEl::T { .. } => { st.clear(); out.push(("T".into(), 0, false)) }
        _ => {}
    } }
    out
}
fn lists() -> impl Strategy<Value = Lists> + Clone {
    let n = prop_oneof![6 => 1u8..4, 2 => 7u8..13, 1 => 95u8..125];
    let c = (prop_oneof![2 => Just(3u8), 1 => 0u8..8], prop_oneof![3 => Just(0u8), 3 => Just(1), 2 => Just(2), 1 => Just(3), 1 => Just(4)], n, proptest::bool::weighted(0.15));
    (proptest::collection::vec(c, 1..7), proptest::collection::vec(any::<u8>(), 0..3)).prop_map(|(chunks, tables)| Lists { chunks, tables })
}
fn check_lists(l: &Lists, st: &mut Stats) -> Check {
    let mut v = vec![];
    for (s, ind, n, para) in &l.chunks { for _ in 0..*n { let t = format!("w{}", v.len()); v.push(DB { k: if *para { K::Para } else { K::List(*s, *ind) }, runs: vec![(t, 0)] }) } }
    let d = build(&v)?;
    for t in &l.tables {
        let b = d.blocks();
        d.cursor_at(b[*t as usize % b.len()].position()).insert_table(1, 2).map_err(|e| format!("insert_table: {e:#}"))?;
    }
    let exp = want_items(&d);
    let md = d.to_markdown().map_err(|e| format!("to_markdown: {e:#}"))?;
    let cmp = |got: Vec<Item>, what: &str| -> Check {
        for (i, (a, b)) in got.iter().zip(&exp).enumerate() { ensure!(a == b, "{what}: item {i} (text, depth, numbered) is {a:?} instead of {b:?}") }
        ensure_eq!(got.len(), exp.len(), "{what}: number of items");
        Ok(())
    };
    cmp(read_items(&md)?, "reading to_markdown()")?;
    let e = TextDocument::new();
    set_md(&e, &md)?;
    cmp(want_items(&e), "set_markdown(to_markdown())")?;
    if l.tables.is_empty() { cmp(read_items(&DocumentFragment::from_document(&d).map_err(|e| format!("from_document: {e:#}"))?.to_markdown())?, "reading the Markdown of from_document()")? } else { st.label("with tables") }
    if exp.iter().any(|i| i.1 > 1) { st.nontrivial() }
    if exp.len() > 99 { st.label("long list") }
    Ok(())
}
pub fn run(c: &mut Ctx) {
    let n = c.cases(16_000, 400_000);
    c.sub("document", n, blocks, check_doc);
    let n = c.cases(16_000, 400_000);
    c.sub("import", n, imp, check_imp);
    let n = c.cases(6_000, 100_000);
    c.sub("table", n, crate::props::tabdoc::td, crate::props::tabdoc::md);
    let n = c.cases(1_500, 60_000);
    c.sub("lists", n, lists, check_lists);
}
