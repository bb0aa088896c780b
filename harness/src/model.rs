//! Reference model of a document of top-level paragraphs: blocks of formatted
//! characters, block formats and list membership, edited by naive list surgery.
use crate::ops::*;
use text_document::*;
use unicode_segmentation::UnicodeSegmentation;

pub type Ch = (char, TextFormat);
#[derive(Debug, Clone, PartialEq, Default)]
pub struct MBlock { pub chars: Vec<Ch>, pub fmt: BlockFormat, pub list: Option<usize> }
impl MBlock {
    pub fn text(&self) -> String { self.chars.iter().map(|c| c.0).collect() }
    pub fn len(&self) -> usize { self.chars.len() }
}
#[derive(Debug, Clone, PartialEq)]
pub struct MList { pub style: ListStyle, pub indent: u8, pub prefix: String, pub suffix: String }
impl MList { fn new(style: ListStyle) -> Self { MList { style, indent: 0, prefix: String::new(), suffix: String::new() } } }
#[derive(Debug, Clone, PartialEq)]
pub struct FB { pub chars: Vec<Ch>, pub fmt: BlockFormat, pub list: Option<MList> }
impl FB {
    pub fn inline_only(&self) -> bool {
        let f = &self.fmt;
        self.list.is_none() && *f == BlockFormat { tab_positions: f.tab_positions.clone(), indent: f.indent.filter(|i| *i == 0), text_indent: f.text_indent.filter(|i| *i == 0), ..Default::default() }
    }
    pub fn plain(t: &str) -> FB { FB { chars: t.chars().map(|c| (c, TextFormat::default())).collect(), fmt: Default::default(), list: None } }
}
#[derive(Debug, Clone, PartialEq)]
pub struct Model { pub blocks: Vec<MBlock>, pub lists: Vec<MList>, pub pos: usize, pub anchor: usize,
    /// Range replaced by the last text edit, and whether the last operation was one.
    pub edit: (usize, usize), pub edited: bool }

impl Model {
    pub fn new(text: &str) -> Model {
        let t = text.replace("\r\n", "\n").replace('\r', "\n");
        Model { blocks: t.split('\n').map(|l| MBlock { chars: l.chars().map(|c| (c, TextFormat::default())).collect(), ..Default::default() }).collect(), lists: vec![], pos: 0, anchor: 0, edit: (0, 0), edited: false }
    }
    pub fn starts(&self) -> Vec<usize> { let mut p = 0; self.blocks.iter().map(|b| { let r = p; p += b.len() + 1; r }).collect() }
    pub fn max(&self) -> usize { self.blocks.iter().map(|b| b.len() + 1).sum::<usize>() - 1 }
    /// (block, offset) of a cursor position.
    pub fn at(&self, p: usize) -> (usize, usize) {
        let mut s = 0;
        for (i, b) in self.blocks.iter().enumerate() { if p <= s + b.len() { return (i, p - s) } s += b.len() + 1; }
        let i = self.blocks.len() - 1;
        (i, self.blocks[i].len())
    }
    pub fn text(&self) -> String { self.blocks.iter().map(|b| b.text()).collect::<Vec<_>>().join("\n") }
    /// Grapheme boundary at or after p within its block.
    pub fn snap(&self, p: usize) -> usize {
        let (b, o) = self.at(p);
        let mut acc = 0;
        for g in self.blocks[b].text().graphemes(true) { if acc >= o { break } acc += g.chars().count(); }
        p - o + acc
    }
    pub fn next_g(&self, p: usize) -> usize {
        let (b, o) = self.at(p);
        if o >= self.blocks[b].len() { return (p + 1).min(self.max()) }
        let t: String = self.blocks[b].chars[o..].iter().map(|c| c.0).collect();
        p + t.graphemes(true).next().map_or(1, |g| g.chars().count())
    }
    pub fn prev_g(&self, p: usize) -> usize {
        let (b, o) = self.at(p);
        if o == 0 { return p.saturating_sub(1) }
        let t: String = self.blocks[b].chars[..o].iter().map(|c| c.0).collect();
        p - t.graphemes(true).next_back().map_or(1, |g| g.chars().count())
    }
    pub fn resolve(&self, p: &P) -> usize {
        let max = self.max();
        match p {
            P::Abs(a) => *a as usize % (max + 1),
            P::Start(i) => self.starts()[*i as usize % self.blocks.len()],
            P::End(i) => { let i = *i as usize % self.blocks.len(); self.starts()[i] + self.blocks[i].len() }
            P::Near(d) => (self.pos as i64 + *d as i64).clamp(0, max as i64) as usize,
        }
    }
    pub fn goto(&mut self, p: &P) { let x = self.snap(self.resolve(p)); self.pos = x; self.anchor = x; }
    pub fn select(&mut self, a: &P, b: &P) {
        let (x, y) = (self.resolve(a), self.resolve(b));
        self.anchor = self.snap(x);
        // an anchor equal to the raw position follows it when the position snaps
        if self.anchor == y { self.anchor = self.snap(y) }
        self.pos = self.snap(y);
    }
    fn set(&mut self, p: usize) { self.pos = p; self.anchor = p }
    /// Delete [a, b): joins blocks, the first block's format and list survive.
    pub fn delete(&mut self, a: usize, b: usize) {
        let ((i, o), (j, q)) = (self.at(a), self.at(b));
        let tail: Vec<Ch> = self.blocks[j].chars[q..].to_vec();
        self.blocks[i].chars.truncate(o);
        self.blocks[i].chars.extend(tail);
        self.blocks.drain(i + 1..=j);
    }
    pub fn insert(&mut self, p: usize, t: &str, f: Option<TextFormat>) {
        let (i, o) = self.at(p);
        let f = f.unwrap_or_else(|| if o == 0 { TextFormat::default() } else { self.blocks[i].chars[o - 1].1.clone() });
        let new: Vec<Ch> = t.chars().map(|c| (c, f.clone())).collect();
        self.blocks[i].chars.splice(o..o, new);
    }
    fn take_selection(&mut self) -> usize {
        let (a, b) = (self.pos.min(self.anchor), self.pos.max(self.anchor));
        self.edit = (a, b);
        self.edited = true;
        if a < b { self.delete(a, b) }
        self.set(a);
        a
    }
    pub fn split(&mut self, p: usize) {
        let (i, o) = self.at(p);
        let mut nb = self.blocks[i].clone();
        nb.chars = self.blocks[i].chars.split_off(o);
        self.blocks.insert(i + 1, nb);
    }
    /// The selection as fragment blocks (None when empty).
    pub fn fragment(&self, a: usize, b: usize) -> Option<Vec<FB>> {
        if a == b { return None }
        let st = self.starts();
        let mut v = vec![];
        for (i, bl) in self.blocks.iter().enumerate() {
            let (s, e) = (st[i], st[i] + bl.len());
            if e < a || s >= b { continue }
            let lo = a.max(s) - s;
            let hi = b.min(e) - s;
            let full = lo == 0 && hi == bl.len() && (b > e || i + 1 == self.blocks.len());
            v.push(FB {
                chars: bl.chars[lo..hi].to_vec(),
                fmt: if full { bl.fmt.clone() } else { Default::default() },
                list: if full { bl.list.map(|l| self.lists[l].clone()) } else { None },
            });
        }
        Some(v)
    }
    fn new_list(&mut self, l: MList) -> usize { self.lists.push(l); self.lists.len() - 1 }
    /// Paste at p; leaves the cursor after the pasted content.
    pub fn paste(&mut self, p: usize, fr: &[FB]) {
        let (i, o) = self.at(p);
        let cur = self.blocks[i].clone();
        if fr.len() == 1 && fr[0].inline_only() {
            self.blocks[i].chars.splice(o..o, fr[0].chars.iter().cloned());
            self.set(p + fr[0].chars.len());
            return;
        }
        let before = cur.chars[..o].to_vec();
        let after = cur.chars[o..].to_vec();
        // consecutive pasted list items share a list per (style, indent)
        let mut group: Vec<Option<(usize, ListStyle)>> = vec![];
        let start_line = before.is_empty();
        let multi = fr.len() > 1;
        let merge_first = multi && fr[0].inline_only();
        let merge_last = multi && fr[fr.len() - 1].inline_only();
        let overwrite = start_line && !merge_first;
        if multi && !overwrite && let Some(l) = cur.list { register(&mut group, l, &self.lists[l]) }
        let mut out: Vec<MBlock> = vec![];
        let mut rest = fr;
        if overwrite {
            let list = self.place(&mut group, &fr[0]);
            out.push(MBlock { chars: fr[0].chars.clone(), fmt: fr[0].fmt.clone(), list });
            rest = &fr[1..];
        } else if merge_first {
            out.push(MBlock { chars: [before.clone(), fr[0].chars.clone()].concat(), ..cur.clone() });
            rest = &fr[1..];
        } else {
            out.push(MBlock { chars: before.clone(), ..cur.clone() });
        }
        let last = if merge_last { rest = &rest[..rest.len() - 1]; fr[fr.len() - 1].chars.clone() } else { vec![] };
        for b in rest {
            let list = self.place(&mut group, b);
            out.push(MBlock { chars: b.chars.clone(), fmt: b.fmt.clone(), list });
        }
        let mut end = (out.len() - 1, out[out.len() - 1].len());
        let tail: Vec<Ch> = [last.clone(), after.clone()].concat();
        let always = !multi && !overwrite;
        if !tail.is_empty() || merge_last || always {
            let tb = if overwrite { MBlock { chars: tail, ..Default::default() } } else { MBlock { chars: tail, ..cur.clone() } };
            end = (out.len(), last.len());
            out.push(tb);
        }
        self.blocks.splice(i..i + 1, out);
        let st = self.starts();
        self.set(st[i + end.0] + end.1);
    }
    fn place(&mut self, g: &mut Vec<Option<(usize, ListStyle)>>, b: &FB) -> Option<usize> {
        match &b.list {
            None => { g.clear(); None }
            Some(l) => {
                g.truncate(l.indent as usize + 1);
                if let Some(Some((id, s))) = g.get(l.indent as usize) && *s == l.style { return Some(*id) }
                let id = self.new_list(l.clone());
                register(g, id, l);
                Some(id)
            }
        }
    }
    pub fn range_blocks(&self, a: usize, b: usize) -> Vec<usize> {
        let st = self.starts();
        (0..self.blocks.len()).filter(|i| st[*i] <= b && st[*i] + self.blocks[*i].len() >= a).collect()
    }
    /// Blocks a block-format command acts on: a selection starting after a
    /// block's last character does not touch that block, a caret there does.
    pub fn touched_blocks(&self, a: usize, b: usize) -> Vec<usize> {
        let st = self.starts();
        let v: Vec<usize> = self.range_blocks(a, b).into_iter().filter(|i| self.blocks[*i].len() == 0 || st[*i] + self.blocks[*i].len() > a).collect();
        if v.is_empty() { self.range_blocks(a, b) } else { v }
    }
    pub fn list_order(&self) -> Vec<usize> {
        let mut v = vec![];
        for b in &self.blocks { if let Some(l) = b.list && !v.contains(&l) { v.push(l) } }
        v
    }

    /// Apply an operation; None when it does not apply, Some(true) when it is expected to fail.
    pub fn apply(&mut self, op: &Op, over: Option<(&P, &P)>) -> Option<bool> {
        self.edited = false;
        macro_rules! go { ($p:expr) => { match over { Some((a, b)) => self.select(a, b), None => self.goto($p) } } }
        match op {
            Op::Ins(p, t) => { go!(p); self.type_text(t, None) }
            Op::InsSel(a, b, t) => { self.select(a, b); self.type_text(t, None) }
            Op::InsFmt(p, t, f) => { go!(p); self.type_text(t, Some(inserted_format(&f.to()))) }
            Op::Block(p) => { go!(p); let a = self.take_selection(); self.split(a); self.set(a + 1) }
            Op::BlockSel(a, b) => { self.select(a, b); let a = self.take_selection(); self.split(a); self.set(a + 1) }
            Op::Del(a, b) => { self.select(a, b); self.take_selection(); }
            Op::DelChar(p) => {
                go!(p);
                if self.pos == self.anchor { let p = self.pos; let n = self.next_g(p); if n > p { self.delete(p, n); self.edit = (p, n); self.edited = true } } else { self.take_selection(); }
            }
            Op::DelPrev(p) => {
                go!(p);
                if self.pos == self.anchor { let p = self.pos; let n = self.prev_g(p); if n < p { self.delete(n, p); self.set(n); self.edit = (n, p); self.edited = true } } else { self.take_selection(); }
            }
            Op::FragPlain(p, t) => { go!(p); let a = self.take_selection(); self.paste(a, &plain_frag(t)) }
            Op::FragSel(x, y, t) => { self.select(x, y); let a = self.take_selection(); self.paste(a, &plain_frag(t)) }
            Op::Rich(p, r, _) => { go!(p); let a = self.take_selection(); let f: Vec<FB> = r.iter().map(|b| b.to_fb()).collect(); self.paste(a, &f) }
            Op::Copy { from, to, at } => {
                self.select(from, to);
                let (a, b) = (self.pos.min(self.anchor), self.pos.max(self.anchor));
                let f = self.fragment(a, b)?;
                if f.len() == 1 && f[0].chars.is_empty() { return None }
                go!(at);
                let a = self.take_selection();
                self.paste(a, &f)
            }
            Op::SetChar(a, b, f) => { self.select(a, b); let f = f.to(); self.format(|x| overlay(x, &f)) }
            Op::MergeChar(a, b, f) => {
                self.select(a, b);
                let f = f.to();
                let f = TextFormat { font_family: f.font_family, font_bold: f.font_bold, font_italic: f.font_italic, font_underline: f.font_underline, font_strikeout: f.font_strikeout, ..Default::default() };
                self.format(|x| overlay(x, &f))
            }
            Op::SetBlock(a, b, f) => {
                self.select(a, b);
                let (lo, hi) = (self.pos.min(self.anchor), self.pos.max(self.anchor));
                let f = f.to();
                for i in self.touched_blocks(lo, hi) { overlay_block(&mut self.blocks[i].fmt, &f) }
            }
            Op::CreateList(a, b, s) => {
                self.select(a, b);
                let (lo, hi) = (self.pos.min(self.anchor), self.pos.max(self.anchor));
                let l = self.new_list(MList::new(lstyle(*s)));
                for i in self.range_blocks(lo, hi) { self.blocks[i].list = Some(l) }
            }
            Op::InsertList(p, s) => {
                go!(p);
                let (i, _) = self.at(self.pos);
                let l = self.new_list(MList::new(lstyle(*s)));
                self.blocks.insert(i + 1, MBlock { list: Some(l), ..Default::default() });
                let s = self.starts()[i + 1];
                self.set(s);
                self.edit = (s - 1, s - 1);
                self.edited = true;
            }
            Op::SetList(p, s, i) => {
                go!(p);
                let l = self.blocks[self.at(self.pos).0].list?;
                self.lists[l] = MList { style: lstyle(*s), indent: *i % 4, prefix: "(".into(), suffix: ")".into() };
            }
            Op::AddToList(b, l) => {
                let ls = self.list_order();
                if ls.is_empty() { return None }
                let n = self.blocks.len();
                self.blocks[*b as usize % n].list = Some(ls[*l as usize % ls.len()]);
            }
            Op::RmFromList(b) => {
                let v: Vec<usize> = (0..self.blocks.len()).filter(|i| self.blocks[*i].list.is_some()).collect();
                if v.is_empty() { return None }
                self.blocks[v[*b as usize % v.len()]].list = None;
            }
            Op::RmItem(l, i) => {
                let ls = self.list_order();
                if ls.is_empty() { return None }
                let l = ls[*l as usize % ls.len()];
                let v: Vec<usize> = (0..self.blocks.len()).filter(|i| self.blocks[*i].list == Some(l)).collect();
                self.blocks[v[*i as usize % v.len()]].list = None;
            }
            Op::Replace(q, r, all) => {
                let qc: Vec<char> = q.chars().collect();
                if qc.is_empty() { return Some(false) }
                for b in &mut self.blocks {
                    let mut hits = vec![];
                    let mut i = 0;
                    while i + qc.len() <= b.chars.len() {
                        if b.chars[i..i + qc.len()].iter().map(|c| c.0).eq(qc.iter().copied()) { hits.push(i); }
                        i += 1;
                    }
                    if hits.windows(2).any(|w| w[1] - w[0] < qc.len()) { return None }
                    if !all { hits.truncate(1) }
                    for h in hits.iter().rev() {
                        let f = if *h == 0 { TextFormat::default() } else { b.chars[*h - 1].1.clone() };
                        b.chars.splice(*h..*h + qc.len(), r.chars().map(|c| (c, f.clone())));
                    }
                    if !all && !hits.is_empty() { break }
                }
            }
            Op::Over(a, b, o) => return self.apply(o, Some((a, b))),
            Op::Title(_) => {}
            _ => return None,
        }
        Some(false)
    }
    fn type_text(&mut self, t: &str, f: Option<TextFormat>) { let a = self.take_selection(); self.insert(a, t, f); self.set(a + t.chars().count()) }
    fn format(&mut self, f: impl Fn(&mut TextFormat)) {
        let (a, b) = (self.pos.min(self.anchor), self.pos.max(self.anchor));
        let st = self.starts();
        for (i, bl) in self.blocks.iter_mut().enumerate() {
            for (k, c) in bl.chars.iter_mut().enumerate() { let p = st[i] + k; if p >= a && p < b { f(&mut c.1) } }
        }
    }
}
fn register(g: &mut Vec<Option<(usize, ListStyle)>>, id: usize, l: &MList) {
    while g.len() <= l.indent as usize { g.push(None) }
    g[l.indent as usize] = Some((id, l.style.clone()));
}
pub fn plain_frag(t: &str) -> Vec<FB> { t.split('\n').map(FB::plain).collect() }
/// Insert-with-format: unset attributes are switched off, not inherited.
pub fn inserted_format(f: &TextFormat) -> TextFormat {
    TextFormat {
        font_family: f.font_family.clone(), font_point_size: f.font_point_size,
        font_bold: f.font_bold.or(Some(false)), font_italic: f.font_italic.or(Some(false)),
        font_underline: f.font_underline.or(Some(false)), font_strikeout: f.font_strikeout.or(Some(false)),
        ..Default::default()
    }
}
pub fn overlay(x: &mut TextFormat, f: &TextFormat) {
    macro_rules! o { ($($n:ident),*) => { $( if f.$n.is_some() { x.$n = f.$n.clone(); } )* } }
    o!(font_family, font_point_size, font_weight, font_bold, font_italic, font_underline, font_overline, font_strikeout, letter_spacing, word_spacing, underline_style, vertical_alignment);
}
pub fn overlay_block(x: &mut BlockFormat, f: &BlockFormat) {
    macro_rules! o { ($($n:ident),*) => { $( if f.$n.is_some() { x.$n = f.$n.clone(); } )* } }
    o!(alignment, top_margin, bottom_margin, left_margin, right_margin, heading_level, indent, text_indent, marker, line_height, non_breakable_lines, direction, background_color, is_code_block, code_language);
}

// ── list markers, independently ──────────────────────────────────────
pub fn roman(mut n: usize) -> String {
    let mut s = String::new();
    for (v, t) in [(1000, "m"), (900, "cm"), (500, "d"), (400, "cd"), (100, "c"), (90, "xc"), (50, "l"), (40, "xl"), (10, "x"), (9, "ix"), (5, "v"), (4, "iv"), (1, "i")] {
        while n >= v { s.push_str(t); n -= v }
    }
    s
}
/// Letters up to 26, decimal beyond (documented fallback).
fn letter(n: usize, base: u8) -> String { if n <= 26 { ((base + (n - 1) as u8) as char).to_string() } else { n.to_string() } }
pub fn marker_text(l: &MList, i: usize) -> String {
    let n = i + 1;
    let m = match l.style {
        ListStyle::Disc => "•".into(), ListStyle::Circle => "◦".into(), ListStyle::Square => "▪".into(),
        ListStyle::Decimal => n.to_string(), ListStyle::LowerAlpha => letter(n, b'a'), ListStyle::UpperAlpha => letter(n, b'A'),
        ListStyle::LowerRoman => roman(n), ListStyle::UpperRoman => roman(n).to_uppercase(),
    };
    format!("{}{}{}", l.prefix, m, l.suffix)
}
