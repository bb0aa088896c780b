//! P11: HTML export read by an independent strict reader, HTML import of
//! generated markup against its source structure, and the round trip.
use crate::engine::*;
use crate::obs::*;
use crate::ops::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use text_document::*;

pub const RULE: &str = "Documents from generated rich content or editing histories (text full of markup characters) are exported and read back by an independent strict HTML reader and by set_html; generated HTML with known structure is imported. Non-trivial: at least two blocks, or formatted or markup-significant characters; counted distinct by the generated input.";

/// Character attributes HTML carries: bold, italic, underline, strike, code bits and link target.
pub type Ch = (char, u8, Option<String>);
#[derive(Debug, Clone, PartialEq)]
pub struct HB { pub tag: String, pub style: String, pub lang: Option<String>, pub quote: usize, pub chars: Vec<Ch> }

pub fn unescape(s: &str) -> std::result::Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find(['&', '<', '>']) {
        out.push_str(&rest[..i]);
        if !rest[i..].starts_with('&') { fail!("raw {:?} in text {s:?}", &rest[i..i + 1]) }
        let Some(e) = rest[i..].find(';') else { fail!("bare & in {s:?}") };
        let ent = &rest[i + 1..i + e];
        let c = match ent {
            "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "apos" => '\'', "nbsp" => '\u{a0}',
            _ => {
                let n = if let Some(h) = ent.strip_prefix("#x").or(ent.strip_prefix("#X")) { u32::from_str_radix(h, 16).ok() } else { ent.strip_prefix('#').and_then(|d| d.parse().ok()) };
                match n.and_then(char::from_u32) { Some(c) => c, None => fail!("unknown entity &{ent}; in {s:?}") }
            }
        };
        out.push(c);
        rest = &rest[i + e + 1..];
    }
    out.push_str(rest);
    Ok(out)
}
pub struct Tag { pub name: String, pub attrs: Vec<(String, String)>, pub close: bool, pub selfclose: bool }
pub enum Tok { Tag(Tag), Text(String) }
/// Strict tokenizer: every attribute quoted, every entity terminated.
pub fn tokens(h: &str) -> std::result::Result<Vec<Tok>, String> {
    let mut v = vec![];
    let mut rest = h;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix('<') {
            let mut inq = false;
            let Some(e) = r.char_indices().find(|(_, c)| { if *c == '"' { inq = !inq } *c == '>' && !inq }).map(|x| x.0) else { fail!("unterminated tag at {:?}", &rest[..rest.len().min(40)]) };
            let mut t = &r[..e];
            let close = t.starts_with('/');
            if close { t = &t[1..] }
            let selfclose = t.ends_with('/');
            if selfclose { t = &t[..t.len() - 1] }
            let n = t.find(' ').unwrap_or(t.len());
            let name = t[..n].to_string();
            ensure!(!name.is_empty() && name.chars().all(|c| c.is_ascii_alphanumeric() || c == ':'), "bad tag name {name:?} in <{t}>");
            let mut attrs = vec![];
            let mut a = t[n..].trim();
            while !a.is_empty() {
                let Some(q) = a.find("=\"") else { fail!("bad attribute in <{t}>") };
                let Some(z) = a[q + 2..].find('"') else { fail!("unterminated attribute in <{t}>") };
                attrs.push((a[..q].to_string(), unescape(&a[q + 2..q + 2 + z])?));
                a = a[q + 2 + z + 1..].trim();
            }
            v.push(Tok::Tag(Tag { name, attrs, close, selfclose }));
            rest = &r[e + 1..];
        } else {
            let e = rest.find('<').unwrap_or(rest.len());
            v.push(Tok::Text(unescape(&rest[..e])?));
            rest = &rest[e..];
        }
    }
    Ok(v)
}
pub const INLINE: &[(&str, u8)] = &[("strong", 1), ("b", 1), ("em", 2), ("i", 2), ("u", 4), ("s", 8), ("code", 16)];

/// Read an export of the library: a flat sequence of block elements.
pub fn read(h: &str, inline_ok: bool) -> std::result::Result<Vec<HB>, String> {
    let Some(b) = h.strip_prefix("<html><head><meta charset=\"utf-8\"></head><body>").and_then(|b| b.strip_suffix("</body></html>")) else { fail!("unexpected HTML envelope in {:?}", &h[..h.len().min(80)]) };
    let mut out: Vec<HB> = vec![];
    let mut stack: Vec<Tag> = vec![];
    let mut cur: Option<HB> = None;
    for t in tokens(b)? {
        match t {
            Tok::Text(s) => {
                if cur.is_none() && inline_ok { cur = Some(HB { tag: "p".into(), style: String::new(), lang: None, quote: 0, chars: vec![] }) }
                let Some(c) = cur.as_mut() else { fail!("text {s:?} outside any block") };
                let mut fl = 0;
                let mut href = None;
                let pre = stack.iter().any(|t| t.name == "pre");
                for t in &stack {
                    if let Some(x) = INLINE.iter().find(|x| x.0 == t.name) && !(pre && t.name == "code") { fl |= x.1 }
                    if t.name == "a" { href = t.attrs.iter().find(|a| a.0 == "href").map(|a| a.1.clone()) }
                }
                c.chars.extend(s.chars().map(|ch| (ch, fl, href.clone())));
            }
            Tok::Tag(t) if t.close => {
                let Some(o) = stack.pop() else { fail!("</{}> closes nothing", t.name) };
                ensure_eq!(t.name, o.name, "closing tag does not match");
                if matches!(o.name.as_str(), "p" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "li" | "pre") { out.push(cur.take().unwrap()) }
            }
            Tok::Tag(t) => {
                ensure!(!t.selfclose, "unexpected <{}/>", t.name);
                let block = matches!(t.name.as_str(), "p" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "li" | "pre");
                if block {
                    ensure!(cur.is_none(), "<{}> inside a block", t.name);
                    let quote = stack.iter().filter(|t| t.name == "blockquote").count();
                    let tag = if t.name == "li" {
                        match stack.last() { Some(l) if l.name == "ul" || l.name == "ol" => l.name.clone(), _ => fail!("<li> outside a list") }
                    } else { t.name.clone() };
                    cur = Some(HB { tag, style: t.attrs.iter().find(|a| a.0 == "style").map(|a| a.1.clone()).unwrap_or_default(), lang: None, quote, chars: vec![] });
                } else if t.name == "code" && let Some(c) = cur.as_mut() && c.tag == "pre" {
                    c.lang = t.attrs.iter().find(|a| a.0 == "class").and_then(|a| a.1.strip_prefix("language-").map(str::to_string));
                } else if cur.is_none() && inline_ok && (INLINE.iter().any(|x| x.0 == t.name) || t.name == "a") {
                    cur = Some(HB { tag: "p".into(), style: String::new(), lang: None, quote: 0, chars: vec![] });
                } else if cur.is_none() {
                    ensure!(matches!(t.name.as_str(), "ul" | "ol" | "blockquote"), "unexpected <{}> between blocks", t.name);
                } else {
                    ensure!(INLINE.iter().any(|x| x.0 == t.name) || t.name == "a", "unexpected <{}> inside a block", t.name);
                }
                stack.push(t);
            }
        }
    }
    ensure!(stack.is_empty(), "unclosed <{}>", stack.last().unwrap().name);
    if let Some(c) = cur { ensure!(inline_ok, "unclosed block"); out.push(c) }
    Ok(out)
}

pub fn bits(f: &TextFormat) -> (u8, Option<String>) {
    let t = |v: Option<bool>, b: u8| if v == Some(true) { b } else { 0 };
    (t(f.font_bold, 1) | t(f.font_italic, 2) | t(f.font_underline, 4) | t(f.font_strikeout, 8) | if f.font_family.as_deref() == Some("monospace") { 16 } else { 0 }, f.anchor_href.clone())
}
pub fn chars(b: &OBlock) -> Vec<Ch> {
    b.frags.iter().flat_map(|f| match f { Frag::Text { text, fmt, .. } => { let (x, h) = bits(fmt); text.chars().map(|c| (c, x, h.clone())).collect::<Vec<_>>() } _ => vec![] }).collect()
}
pub fn ordered(s: &ListStyle) -> bool { !matches!(s, ListStyle::Disc | ListStyle::Circle | ListStyle::Square) }
fn style_of(f: &BlockFormat) -> String {
    let mut v = vec![];
    if let Some(a) = &f.alignment { v.push(format!("text-align: {}", match a { Alignment::Left => "left", Alignment::Right => "right", Alignment::Center => "center", Alignment::Justify => "justify" })) }
    if let Some(l) = f.line_height { v.push(format!("line-height: {}", (l as f64 * 1000.0).round() / 1000.0)) }
    if f.non_breakable_lines == Some(true) { v.push("white-space: pre".into()) }
    if f.direction == Some(TextDirection::RightToLeft) { v.push("direction: rtl".into()) }
    if let Some(b) = &f.background_color { v.push(format!("background-color: {b}")) }
    v.join("; ")
}
fn shorts<T: std::fmt::Debug>(t: &T) -> String { format!("{t:?}").chars().take(300).collect() }

/// The export of a document must be this sequence of blocks.
fn export_ok(d: &TextDocument, quote: usize) -> Check {
    let html = d.to_html().map_err(|e| format!("to_html: {e:#}"))?;
    let got = read(&html, false).map_err(|e| format!("{e} in export {}", html.chars().take(500).collect::<String>()))?;
    let fl = flow(d);
    let mut lv: Vec<(usize, &OBlock)> = vec![];
    fn walk<'a>(els: &'a [OEl], q: usize, out: &mut Vec<(usize, &'a OBlock)>) { for e in els { match e { OEl::B(b) => out.push((q, b)), OEl::F { els, .. } => walk(els, q + 1, out), _ => {} } } }
    walk(&fl, quote, &mut lv);
    ensure_eq!(got.len(), lv.len(), "number of exported blocks in {}", html.chars().take(600).collect::<String>());
    for (i, (g, (q, b))) in got.iter().zip(&lv).enumerate() {
        let code = b.fmt.is_code_block == Some(true);
        ensure_eq!(g.quote, *q, "blockquote depth of exported block {i}");
        match (&b.list, code) {
            (Some(_), true) => {}
            (Some(l), false) => ensure_eq!(g.tag, if ordered(&l.1) { "ol" } else { "ul" }, "list element of block {i} ({:?})", b.text),
            (None, true) => { ensure_eq!(g.tag, "pre", "element of code block {i}"); ensure_eq!(g.lang, b.fmt.code_language, "language of code block {i}") }
            (None, false) => {
                match b.fmt.heading_level { None => ensure_eq!(g.tag, "p", "element of block {i}"), Some(0) => {} Some(h) => ensure_eq!(g.tag, format!("h{h}"), "element of heading {i}") }
                ensure_eq!(g.style, style_of(&b.fmt), "style of block {i} (export, document)");
            }
        }
        let want: Vec<Ch> = chars(b).into_iter().map(|(c, f, h)| if code && g.tag == "pre" { (c, 0, None) } else { (c, f, h) }).collect();
        ensure!(g.chars == want, "text or formats of block {i}: exported {} but the document has {}", shorts(&g.chars), shorts(&want));
    }
    Ok(())
}
/// Wait without the 50 ms polling granularity of `wait`.
pub fn finish<T>(op: Operation<T>, what: &str) -> std::result::Result<T, String> {
    let t0 = std::time::Instant::now();
    while !op.is_done() {
        ensure!(t0.elapsed().as_secs() < 60, "{what} did not finish within 60 s");
        std::thread::sleep(std::time::Duration::from_micros(30));
    }
    op.wait().map_err(|e| format!("{what} failed: {e:#}"))
}
pub fn set_html(d: &TextDocument, h: &str) -> std::result::Result<usize, String> {
    Ok(finish(d.set_html(h).map_err(|e| format!("set_html: {e:#}"))?, "set_html")?.block_count)
}

#[derive(Debug, PartialEq, Clone)]
pub struct RtB { pub quote: usize, pub chars: Vec<Ch>, pub heading: Option<u8>, pub ordered: Option<bool>, pub code: bool, pub lang: Option<String>, pub nb: bool, pub rtl: bool, pub lh: Option<f32>, pub bg: Option<String> }
pub fn rt(d: &TextDocument) -> Vec<RtB> {
    let fl = flow(d);
    fn walk(els: &[OEl], q: usize, out: &mut Vec<RtB>) {
        for e in els { match e {
            OEl::B(b) => {
                let code = b.fmt.is_code_block == Some(true);
                let list = b.list.as_ref().map(|l| ordered(&l.1));
                let plain = list.is_none() && !code;
                out.push(RtB { quote: q, chars: chars(b).into_iter().map(|(c, f, h)| if code { (c, 16, None) } else { (c, f, h) }).collect(), heading: if plain { b.fmt.heading_level } else { None }, ordered: list, code, lang: if code { b.fmt.code_language.clone() } else { None },
                    nb: plain && b.fmt.non_breakable_lines == Some(true), rtl: plain && b.fmt.direction == Some(TextDirection::RightToLeft), lh: b.fmt.line_height.filter(|_| plain), bg: b.fmt.background_color.clone().filter(|_| plain) })
            }
            OEl::F { els, .. } => walk(els, q + 1, out),
            _ => {}
        } }
    }
    let mut v = vec![];
    walk(&fl, 0, &mut v);
    v
}
pub fn same(a: &[RtB], b: &[RtB], what: &str) -> Check {
    ensure!(a.len() == b.len(), "{what}: {} blocks instead of {}: {} instead of {}", a.len(), b.len(), shorts(&a.iter().map(|b| b.chars.iter().map(|c| c.0).collect::<String>()).collect::<Vec<_>>()), shorts(&b.iter().map(|b| b.chars.iter().map(|c| c.0).collect::<String>()).collect::<Vec<_>>()));
    for (i, (x, y)) in a.iter().zip(b).enumerate() { ensure!(x == y, "{what}: block {i} is {} instead of {}", shorts(x), shorts(y)); }
    Ok(())
}

// ── documents built through the API ──
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum K { Para, H(u8), List(u8, u8), Code(Option<u8>) }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DB { pub k: K, pub runs: Vec<(String, u8)> }
pub fn build(v: &[DB]) -> std::result::Result<TextDocument, String> {
    let e = |e: anyhow::Error| format!("building the document: {e:#}");
    let d = TextDocument::new();
    let lines: Vec<String> = v.iter().map(|b| b.runs.iter().map(|r| r.0.as_str()).collect()).collect();
    d.set_plain_text(&lines.join("\n")).map_err(e)?;
    let c = d.cursor();
    let sel = |a: usize, b: usize| { c.set_position(a, MoveMode::MoveAnchor); c.set_position(b, MoveMode::KeepAnchor) };
    let mut p = 0;
    let mut starts = vec![];
    for (i, b) in v.iter().enumerate() {
        starts.push(p);
        match b.k {
            K::Para => {}
            K::H(h) => { sel(p, p); c.set_block_format(&BlockFormat { heading_level: Some(h), ..Default::default() }).map_err(e)? }
            K::Code(l) => { sel(p, p); c.set_block_format(&BlockFormat { is_code_block: Some(true), code_language: l.map(|l| ["rust", "c++", "py"][l as usize % 3].into()), ..Default::default() }).map_err(e)? }
            K::List(..) => {}
        }
        for (t, f) in &b.runs {
            let n = t.chars().count();
            if n > 0 && *f != 0 && !matches!(b.k, K::Code(_)) {
                if f & 32 != 0 {
                    sel(p, p + n);
                    c.insert_html(&html_run(t, *f)).map_err(e)?;
                } else {
                    sel(p, p + n);
                    c.set_char_format(&TextFormat { anchor_href: None, is_anchor: None, ..run_format(*f) }).map_err(e)?
                }
            }
            p += n;
        }
        ensure_eq!(d.blocks().get(i).map(|b| b.text()), Some(lines[i].clone()), "text of block {i} while building");
        p += 1;
    }
    let mut i = 0;
    while i < v.len() {
        let K::List(s, ind) = v[i].k else { i += 1; continue };
        let mut j = i;
        while j + 1 < v.len() && v[j + 1].k == v[i].k { j += 1 }
        let end = starts[j] + lines[j].chars().count();
        sel(starts[i], end);
        c.create_list(lstyle(s)).map_err(e)?;
        if ind > 0 { let l = c.current_list().ok_or("no list after create_list")?; c.set_list_format(l.id(), &ListFormat { indent: Some(ind), ..Default::default() }).map_err(e)? }
        i = j + 1;
    }
    d.clear_undo_redo();
    Ok(d)
}
pub fn html_run(t: &str, f: u8) -> String {
    let mut c = esc(t);
    if f & 16 != 0 { c = format!("<code>{c}</code>") }
    for (bit, g) in [(1, "b"), (2, "i"), (4, "u"), (8, "s")] { if f & bit != 0 { c = format!("<{g}>{c}</{g}>") } }
    if f & 32 != 0 { c = format!("<a href=\"{}\">{c}</a>", url_attr(f)) }
    c
}
pub fn hostile() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        4 => "[a-z]{1,5}", 3 => Just(" ".to_string()), 1 => Just("  ".to_string()),
        5 => proptest::sample::select(vec!["<", ">", "&", "\"", "'", "&amp;", "&lt;", "&#65;", "&nbsp", "<b>", "</p>", "<br>", "<!--", "-->", "]]>", "<script>", "\\", "*", "**", "_", "`", "``", "$", "%", "{", "}", "~", "^", "|", "#", "# ", "- ", "1. ", "+", "=", "===", "---", "[", "](", ")", "!", ".", ":", "@", "/", "\u{a0}", "\t"]).prop_map(|s| s.to_string()),
        2 => proptest::sample::select(vec!["é", "日本", "👍", "👨‍👩‍👧", "e\u{301}", "ß", "\u{200b}", "“", "—", "İ"]).prop_map(|s| s.to_string()),
    ]
}
pub fn hline() -> impl Strategy<Value = String> + Clone { proptest::collection::vec(hostile(), 1..4).prop_map(|v| v.concat()) }
pub fn db(links: bool) -> impl Strategy<Value = DB> + Clone {
    let k = prop_oneof![5 => Just(K::Para), 2 => (1u8..7).prop_map(K::H), 4 => (0u8..8, 0u8..3).prop_map(|(a, b)| K::List(a, b)), 1 => proptest::option::of(0u8..3).prop_map(K::Code)];
    let top = if links { 64u8 } else { 32 };
    (k, proptest::collection::vec((hline(), prop_oneof![3 => Just(0u8), 3 => 0u8..32, 2 => (0u8..top, 0u8..4).prop_map(|(f, k)| spread(f, k))]), 0..4)).prop_map(|(k, runs)| DB { k, runs })
}

fn check_doc(v: &Vec<DB>, st: &mut Stats) -> Check {
    let d = build(v)?;
    if v.len() > 1 || v.iter().any(|b| b.runs.iter().any(|r| r.1 != 0 || r.0.contains(['<', '>', '&', '"', '\'']))) { st.nontrivial() }
    both(&d, st)
}
fn both(d: &TextDocument, st: &mut Stats) -> Check {
    let before = observe(d)?;
    export_ok(d, 0)?;
    let src: Vec<RtB> = rt(d).into_iter().filter(|b| !b.chars.is_empty() || b.heading.is_some() || b.code).collect();
    // heading level 0 and formats on code or list paragraphs are not carried by HTML
    if src.iter().any(|b| b.heading == Some(0) || (b.code && b.ordered.is_some()) || (b.code && b.chars.is_empty())) { st.label("not round-tripped"); return Ok(()) }
    let html = d.to_html().map_err(|e| e.to_string())?;
    let e = TextDocument::new();
    let n = set_html(&e, &html)?;
    let want = if src.is_empty() { 1 } else { src.len() };
    ensure_eq!(n, want, "block count reported by set_html");
    ensure_eq!(e.block_count(), want, "block_count() after set_html");
    let got = rt(&e);
    if !src.is_empty() { same(&got, &src, "set_html(to_html())")?; }
    crate::coh::coherent(&e, false).map_err(|e| format!("imported document: {e}"))?;
    let again = e.to_html().map_err(|e| e.to_string())?;
    let f = TextDocument::new();
    set_html(&f, &again)?;
    same(&rt(&f), &got, "second round trip")?;
    if let Some(x) = diff(&before, &observe(d)?) { fail!("exporting changed the document: {x}") }
    st.label("round trip");
    Ok(())
}
fn check_hist(h: &Hist, st: &mut Stats) -> Check {
    let w = start(&h.init)?;
    for op in &h.ops { w.apply(op, st); }
    if w.doc.block_count() > 1 { st.nontrivial() }
    both(&w.doc, st)
}

// ── import of generated markup ──
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum N { P(u8, Vec<(String, u8)>), H(u8, Vec<(String, u8)>), Ul(Vec<Vec<(String, u8)>>), Ol(Vec<Vec<(String, u8)>>), Nest(Vec<(String, u8)>, Vec<Vec<(String, u8)>>, bool), Pre(Vec<String>, Option<u8>), Quote(Vec<N>), Div(Vec<N>), Br(Vec<Vec<(String, u8)>>), Bare(Vec<(String, u8)>) }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Imp { pub nodes: Vec<N>, pub variant: Vec<u8>, pub envelope: bool }

struct W<'a> { s: String, v: &'a [u8], i: usize }
impl W<'_> {
    fn pick(&mut self, n: u8) -> u8 { let x = self.v.get(self.i % self.v.len().max(1)).copied().unwrap_or(0); self.i += 1; x % n }
    fn text(&mut self, t: &str) {
        for c in t.chars() {
            match (c, self.pick(6)) {
                ('&', 0) => self.s += "&#38;", ('&', _) => self.s += "&amp;",
                ('<', 0) => self.s += "&#x3c;", ('<', _) => self.s += "&lt;",
                ('>', 0) => self.s += "&#x3E;", ('>', _) => self.s += "&gt;",
                ('\u{a0}', 0) => self.s += "&nbsp;",
                (c, 1) if !c.is_ascii() => self.s += &format!("&#{};", c as u32),
                (c, 2) if c.is_ascii_alphabetic() => self.s += &format!("&#x{:X};", c as u32),
                (c, _) => self.s.push(c),
            }
        }
    }
    fn runs(&mut self, r: &[(String, u8)]) {
        for (t, f) in r {
            let mut close = vec![];
            if f & 32 != 0 { self.s += &format!("<a class='k' href=\"{}\">", url_attr(*f)); close.push("a") }
            for (bit, names) in [(1u8, &["b", "strong", "STRONG"][..]), (2, &["i", "em"]), (4, &["u", "ins"]), (8, &["s", "del", "strike"]), (16, &["code"])] {
                if f & bit != 0 { let n = names[self.pick(names.len() as u8) as usize]; let a = ["", " id=x", " title='a>b'"][self.pick(3) as usize]; self.s += &format!("<{n}{a}>"); close.push(n) }
            }
            if self.pick(7) == 0 { self.s += "<!-- note <b> -->" }
            if self.pick(9) == 0 { self.s += "<span>"; close.push("span") }
            self.text(t);
            while let Some(n) = close.pop() { self.s += &format!("</{n}>") }
        }
    }
    fn gap(&mut self) { let g = ["", "", "\n", "\n  ", " <!-- c --> ", "\t\n"][self.pick(6) as usize]; self.s += g }
    fn node(&mut self, n: &N) {
        self.gap();
        match n {
            N::P(v, r) => { let t = ["p", "div", "P"][*v as usize % 3]; let a = ["", " class=\"x y\"", " id='q'"][self.pick(3) as usize]; self.s += &format!("<{t}{a}>"); self.runs(r); self.s += &format!("</{t}>") }
            N::H(h, r) => { self.s += &format!("<h{h}>"); self.runs(r); self.s += &format!("</h{h}>") }
            N::Ul(items) | N::Ol(items) => {
                let t = if matches!(n, N::Ul(_)) { "ul" } else { "ol" };
                self.s += &format!("<{t}>");
                for it in items { self.gap(); self.s += "<li>"; self.runs(it); self.s += "</li>" }
                self.gap();
                self.s += &format!("</{t}>")
            }
            N::Nest(a, items, o) => {
                let t = if *o { "ol" } else { "ul" };
                self.s += "<ul><li>"; self.runs(a); self.s += &format!("<{t}>");
                for it in items { self.gap(); self.s += "<li>"; self.runs(it); self.s += "</li>" }
                self.s += &format!("</{t}></li></ul>")
            }
            N::Pre(lines, l) => {
                self.s += "<pre><code"; if let Some(l) = l { self.s += &format!(" class=\"language-{}\"", ["rust", "c++", "py"][*l as usize % 3]) } self.s += ">";
                let t = lines.join("\n"); self.text(&t); self.s += "</code></pre>"
            }
            N::Quote(v) => { self.s += "<blockquote>"; for x in v { self.node(x) } self.gap(); self.s += "</blockquote>" }
            N::Div(v) => { self.s += "<div>"; for x in v { self.node(x) } self.gap(); self.s += "</div>" }
            N::Br(v) => { self.s += "<p>"; for (i, r) in v.iter().enumerate() { if i > 0 { let b = ["<br>", "<br/>", "<BR>"][self.pick(3) as usize]; self.s += b } self.runs(r) } self.s += "</p>" }
            N::Bare(r) => self.runs(r),
        }
    }
}
fn want(nodes: &[N], q: usize, out: &mut Vec<RtB>) {
    let mk = |r: &[(String, u8)]| RtB { quote: q, chars: r.iter().flat_map(|(t, f)| { let (b, h) = bits(&run_format(*f)); t.chars().map(move |c| (c, b, h.clone())) }).collect(), heading: None, ordered: None, code: false, lang: None, nb: false, rtl: false, lh: None, bg: None };
    for n in nodes {
        match n {
            N::P(_, r) | N::Bare(r) => out.push(mk(r)),
            N::H(h, r) => out.push(RtB { heading: Some(*h), ..mk(r) }),
            N::Ul(i) => for r in i { out.push(RtB { ordered: Some(false), ..mk(r) }) },
            N::Ol(i) => for r in i { out.push(RtB { ordered: Some(true), ..mk(r) }) },
            N::Nest(a, i, o) => { out.push(RtB { ordered: Some(false), ..mk(a) }); for r in i { out.push(RtB { ordered: Some(*o), ..mk(r) }) } }
            N::Pre(l, lang) => out.push(RtB { code: true, lang: lang.map(|l| ["rust", "c++", "py"][l as usize % 3].into()), chars: l.join("\n").chars().map(|c| (c, 16, None)).collect(), ..mk(&[]) }),
            N::Quote(v) => want(v, q + 1, out),
            N::Div(v) => want(v, q, out),
            N::Br(v) => for r in v { out.push(mk(r)) },
        }
    }
}
impl Imp {
    pub fn html(&self) -> String {
        let mut w = W { s: String::new(), v: &self.variant, i: 0 };
        for n in &self.nodes { w.node(n) }
        w.gap();
        if self.envelope { format!("<!DOCTYPE html><html><head><title></title></head><body>{}</body></html>", w.s) } else { w.s }
    }
}
fn check_imp(m: &Imp, st: &mut Stats) -> Check {
    let html = m.html();
    let mut exp = vec![];
    want(&m.nodes, 0, &mut exp);
    if exp.len() > 1 { st.nontrivial() }
    let d = TextDocument::new();
    let n = set_html(&d, &html)?;
    same(&rt(&d), &exp, &format!("set_html({:?})", html.chars().take(400).collect::<String>()))?;
    ensure_eq!(n, exp.len(), "block count reported by set_html");
    let frag = DocumentFragment::from_html(&html);
    let plain: Vec<String> = exp.iter().map(|b| b.chars.iter().map(|c| c.0).collect()).collect();
    ensure_eq!(frag.to_plain_text(), plain.join("\n"), "DocumentFragment::from_html({html:?}).to_plain_text()");
    if exp.iter().all(|b| b.quote == 0) { crate::coh::coherent(&d, false).map_err(|e| format!("imported document: {e}"))?; }
    export_ok(&d, 0)?;
    Ok(())
}
fn runs1() -> impl Strategy<Value = Vec<(String, u8)>> + Clone {
    let t = proptest::collection::vec(prop_oneof![4 => "[a-z]{1,4}", 2 => proptest::sample::select(vec!["<", ">", "&", "é", "日", "👍", "\"", "'", "&lt;"]).prop_map(|s| s.to_string())], 1..4).prop_map(|v| v.concat());
    proptest::collection::vec((t, prop_oneof![2 => Just(0u8), 2 => 0u8..32, 1 => (0u8..64, 0u8..4).prop_map(|(f, k)| spread(f, k))]), 1..4)
}
fn leaf() -> impl Strategy<Value = N> + Clone {
    let items = proptest::collection::vec(runs1(), 1..4);
    prop_oneof![
        5 => (0u8..3, runs1()).prop_map(|(v, r)| N::P(v, r)), 2 => (1u8..7, runs1()).prop_map(|(h, r)| N::H(h, r)),
        2 => items.clone().prop_map(N::Ul), 2 => items.clone().prop_map(N::Ol), 1 => (runs1(), items.clone(), any::<bool>()).prop_map(|(a, i, o)| N::Nest(a, i, o)),
        1 => (proptest::collection::vec("[a-z<&]{1,5}( [a-z]{1,3})?", 1..3), proptest::option::of(0u8..3)).prop_map(|(l, k)| N::Pre(l, k)),
        1 => items.prop_map(N::Br),
    ]
}
pub fn imp() -> impl Strategy<Value = Imp> {
    let sub = proptest::collection::vec(leaf(), 1..3);
    let node = prop_oneof![8 => leaf(), 1 => sub.clone().prop_map(N::Quote), 1 => sub.prop_map(N::Div), 1 => runs1().prop_map(N::Bare)];
    (proptest::collection::vec(node, 1..6), proptest::collection::vec(any::<u8>(), 1..40), any::<bool>()).prop_map(|(mut nodes, variant, envelope)| {
        // two pieces of bare text in a row are one paragraph
        let mut i = 1;
        while i < nodes.len() { if matches!((&nodes[i - 1], &nodes[i]), (N::Bare(_), N::Bare(_))) { nodes.remove(i); } else { i += 1 } }
        // white space next to bare text belongs to it: keep bare text out of gaps
        let bare = nodes.iter().any(|n| matches!(n, N::Bare(_)));
        Imp { nodes, variant: if bare { vec![0] } else { variant }, envelope }
    })
}
pub fn run(c: &mut Ctx) {
    let n = c.cases(12_000, 300_000);
    c.sub("document", n, || proptest::collection::vec(db(true), 1..6), check_doc);
    let n = c.cases(8_000, 200_000);
    c.sub("history", n, || hist(FLAT, 8), check_hist);
    let n = c.cases(12_000, 300_000);
    c.sub("import", n, imp, check_imp);
    let n = c.cases(6_000, 100_000);
    c.sub("table", n, crate::props::tabdoc::td, crate::props::tabdoc::html);
}
