//! P14: DOCX export read back from the written file by an independent reader.
use crate::engine::*;
use crate::obs::*;
use crate::ops::*;
use crate::props::html::*;
use std::io::Read;
use text_document::*;

pub const RULE: &str = "Documents from generated rich content, editing histories and imported HTML are exported to a scratch file that is unzipped and read by an independent reader. Non-trivial: at least two blocks, or formatted or markup-significant characters; counted distinct by the generated input.";

#[derive(Debug, Clone, PartialEq, Default)]
pub struct DP { pub style: Option<String>, pub chars: Vec<(char, u8)>, pub keep: bool, pub line: Option<i32> }
#[derive(Debug, Clone, PartialEq)]
pub enum DI { P(DP), T(Vec<Vec<(usize, String, Vec<DP>)>>) }

struct X { i: usize, t: Vec<Tok> }
impl X {
    fn next(&mut self) -> Option<&Tok> { self.i += 1; self.t.get(self.i - 1) }
}
fn attr(t: &Tag, n: &str) -> Option<String> { t.attrs.iter().find(|a| a.0 == n).map(|a| a.1.clone()) }
/// Reads until the end tag `end`.
fn items(x: &mut X, end: &str) -> std::result::Result<Vec<DI>, String> {
    let mut out = vec![];
    let mut depth = 0;
    while let Some(t) = x.next() {
        match t {
            Tok::Tag(t) if t.close => { if depth == 0 { ensure_eq!(t.name, end, "closing tag"); return Ok(out) } depth -= 1 }
            Tok::Tag(t) if t.selfclose => { ensure!(t.name != "w:p" || end != "w:body", "self-closing paragraph"); if t.name == "w:p" { out.push(DI::P(DP::default())) } }
            Tok::Tag(t) if t.name == "w:p" && depth == 0 => { let p = para(x)?; out.push(DI::P(p)) }
            Tok::Tag(t) if t.name == "w:tbl" && depth == 0 => { let p = table(x)?; out.push(DI::T(p)) }
            Tok::Tag(_) => depth += 1,
            Tok::Text(s) => ensure!(depth > 0 || s.trim().is_empty(), "text {s:?} outside a paragraph"),
        }
    }
    fail!("unclosed {end}")
}
fn para(x: &mut X) -> std::result::Result<DP, String> {
    let mut p = DP::default();
    let mut stack: Vec<String> = vec![];
    let mut fl = 0u8;
    while let Some(t) = x.next() {
        match t {
            Tok::Tag(t) if t.close => match stack.pop() {
                None => { ensure_eq!(t.name, "w:p", "closing tag"); return Ok(p) }
                Some(n) => { ensure_eq!(t.name, n, "closing tag"); if n == "w:r" { fl = 0 } }
            },
            Tok::Tag(t) => {
                let in_run = stack.iter().any(|n| n == "w:r");
                let val = attr(t, "w:val");
                let off = matches!(val.as_deref(), Some("0") | Some("false") | Some("none"));
                match t.name.as_str() {
                    "w:pStyle" => p.style = val,
                    "w:keepLines" => p.keep = !off,
                    "w:spacing" if !in_run => p.line = attr(t, "w:line").and_then(|l| l.parse().ok()),
                    "w:b" if in_run && !off => fl |= 1, "w:i" if in_run && !off => fl |= 2,
                    "w:u" if in_run && !off => fl |= 4, "w:strike" if in_run && !off => fl |= 8,
                    "w:rFonts" if in_run && attr(t, "w:ascii").as_deref() == Some("Courier New") => fl |= 16,
                    "w:br" if in_run => p.chars.push(('\n', fl)),
                    "w:p" | "w:tbl" => fail!("<{}> inside a paragraph", t.name),
                    _ => {}
                }
                if !t.selfclose { let n = t.name.clone(); stack.push(n) }
            }
            Tok::Text(s) => {
                if stack.last().is_some_and(|n| n == "w:t") { p.chars.extend(s.chars().map(|c| (c, fl))) }
                else { ensure!(s.trim().is_empty(), "text {s:?} outside w:t") }
            }
        }
    }
    fail!("unclosed paragraph")
}
/// Rows of cells: grid span, vertical merge, paragraphs.
fn table(x: &mut X) -> std::result::Result<Vec<Vec<(usize, String, Vec<DP>)>>, String> {
    let mut rows: Vec<Vec<(usize, String, Vec<DP>)>> = vec![];
    let mut depth = 0;
    while let Some(t) = x.next() {
        match t {
            Tok::Tag(t) if t.close => { if depth == 0 { ensure_eq!(t.name, "w:tbl", "closing tag"); return Ok(rows) } depth -= 1 }
            Tok::Tag(t) => {
                let (name, sc, val) = (t.name.clone(), t.selfclose, attr(t, "w:val"));
                match name.as_str() {
                    "w:tr" => rows.push(vec![]),
                    "w:tc" => rows.last_mut().ok_or("cell outside a row")?.push((1, String::new(), vec![])),
                    "w:gridSpan" => rows.last_mut().and_then(|r| r.last_mut()).ok_or("gridSpan")?.0 = val.and_then(|v| v.parse().ok()).ok_or("gridSpan")?,
                    "w:vMerge" => rows.last_mut().and_then(|r| r.last_mut()).ok_or("vMerge")?.1 = val.unwrap_or("continue".into()),
                    "w:p" if !sc => { let p = para(x)?; rows.last_mut().and_then(|r| r.last_mut()).ok_or("paragraph outside a cell")?.2.push(p); continue }
                    "w:p" => { rows.last_mut().and_then(|r| r.last_mut()).ok_or("paragraph outside a cell")?.2.push(DP::default()); continue }
                    _ => {}
                }
                if !sc { depth += 1 }
            }
            Tok::Text(_) => {}
        }
    }
    fail!("unclosed table")
}
pub fn read_docx(path: &std::path::Path) -> std::result::Result<Vec<DI>, String> {
    let f = std::fs::File::open(path).map_err(|e| format!("no file written: {e}"))?;
    let mut z = zip::ZipArchive::new(f).map_err(|e| format!("not a zip archive: {e}"))?;
    let mut doc = None;
    let mut names = vec![];
    for i in 0..z.len() {
        let mut e = z.by_index(i).map_err(|e| format!("zip entry: {e}"))?;
        let mut s = vec![];
        e.read_to_end(&mut s).map_err(|e| format!("zip entry: {e}"))?;
        let n = e.name().to_string();
        if n == "word/document.xml" { doc = Some(String::from_utf8(s).map_err(|e| e.to_string())?) }
        names.push(n);
    }
    for n in ["[Content_Types].xml", "_rels/.rels", "word/_rels/document.xml.rels"] { ensure!(names.iter().any(|x| x == n), "{n} is missing from the archive"); }
    let Some(doc) = doc else { fail!("word/document.xml is missing") };
    let Some(e) = doc.strip_prefix("<?xml").and_then(|d| d.find("?>").map(|i| &d[i + 2..])) else { fail!("no XML declaration") };
    let mut x = X { i: 0, t: tokens(e.trim_start())? };
    loop {
        match x.next() { None => fail!("no body"), Some(Tok::Tag(t)) if t.name == "w:body" => break, _ => {} }
    }
    let r = items(&mut x, "w:body")?;
    match x.next() { Some(Tok::Tag(t)) if t.close && t.name == "w:document" => Ok(r), _ => Err("no end of the document element".into()) }
}
pub fn scratch() -> &'static std::path::Path {
    static D: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();
    D.get_or_init(|| { let d = std::env::temp_dir().join(format!("vharness-{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); d })
}
pub fn cleanup() { let _ = std::fs::remove_dir_all(scratch()); }

fn dp(b: &OBlock, cell: bool) -> DP {
    DP {
        style: b.fmt.heading_level.filter(|_| !cell).map(|h| format!("Heading{}", h.clamp(1, 6))),
        chars: chars(b).into_iter().map(|(c, f, _)| (c, f & 31)).collect(),
        keep: !cell && b.fmt.non_breakable_lines == Some(true),
        line: b.fmt.line_height.filter(|_| !cell).map(|l| (((l as f64 * 1000.0).round() as i64) as f64 / 1000.0 * 240.0) as i32),
    }
}
fn want(els: &[OEl], out: &mut Vec<DI>) {
    for e in els { match e {
        OEl::B(b) => out.push(DI::P(dp(b, false))),
        OEl::F { els, .. } => want(els, out),
        OEl::T { rows, cells, .. } => out.push(DI::T((0..*rows).map(|r| { let mut row: Vec<&OCell> = cells.iter().filter(|c| c.r <= r && r < c.r + c.rs).collect(); row.sort_by_key(|c| c.c); row.into_iter().map(|c| {
            if c.r < r { (c.cs, "continue".to_string(), vec![DP::default()]) } else { (c.cs, if c.rs > 1 { "restart".into() } else { String::new() }, c.blocks.iter().map(|b| dp(b, true)).collect()) }
        }).collect() }).collect())),
    } }
}
pub fn docx_ok(d: &TextDocument) -> Check {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let p = scratch().join(format!("{}.docx", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    let a = observe(d)?;
    let r = finish(d.to_docx(p.to_str().unwrap()).map_err(|e| format!("to_docx: {e:#}"))?, "to_docx")?;
    let got = read_docx(&p);
    let _ = std::fs::remove_file(&p);
    ensure_eq!(r.file_path, p.to_str().unwrap(), "reported path");
    let got = got?;
    let mut exp = vec![];
    want(&a.flow, &mut exp);
    ensure_eq!(got.len(), exp.len(), "number of paragraphs and tables in the file");
    ensure_eq!(r.paragraph_count, exp.len(), "reported paragraph count");
    for (i, (g, w)) in got.iter().zip(&exp).enumerate() { ensure!(g == w, "item {i} reads as {} but the document has {}", format!("{g:?}").chars().take(300).collect::<String>(), format!("{w:?}").chars().take(300).collect::<String>()); }
    if let Some(x) = diff(&a, &observe(d)?) { fail!("exporting changed the document: {x}") }
    Ok(())
}
pub fn run(c: &mut Ctx) {
    let n = c.cases(12_000, 150_000);
    c.sub("document", n, || proptest::collection::vec(db(true), 1..6), |v: &Vec<DB>, st| {
        if v.len() > 1 || v.iter().any(|b| b.runs.iter().any(|r| r.1 != 0 || r.0.contains(['<', '>', '&', '"', '\'']))) { st.nontrivial() }
        docx_ok(&build(v)?)
    });
    let n = c.cases(6_000, 80_000);
    c.sub("history", n, || hist(FLAT, 8), |h: &Hist, st| {
        let w = start(&h.init)?;
        for op in &h.ops { w.apply(op, st); }
        if w.doc.block_count() > 1 { st.nontrivial() }
        docx_ok(&w.doc)
    });
    let n = c.cases(6_000, 80_000);
    c.sub("imported", n, imp, |m: &Imp, st| {
        let d = TextDocument::new();
        if m.nodes.len() > 1 { st.nontrivial() }
        set_html(&d, &m.html())?;
        docx_ok(&d)
    });
    let n = c.cases(6_000, 80_000);
    c.sub("table", n, crate::props::tabdoc::td, crate::props::tabdoc::docx);
    cleanup();
}
