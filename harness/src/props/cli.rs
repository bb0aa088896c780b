//! P24: the command-line tool does with files what the library does with text, and touches nothing else.
use crate::engine::*;
use crate::ops::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use text_document::*;

pub const RULE: &str = "Generated files (plain text, Markdown, HTML, unsupported, missing or not UTF-8, under names of every recognised and unrecognised extension) are given to a sub-command with generated options in a scratch directory; exit status, standard output and every file of the directory are compared with what the library gives. Non-trivial: the file has at least two lines or blocks and the command does more than fail to read it; counted distinct by the generated input.";

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Cmd {
    Convert { out: u8, class: u8, preamble: bool },
    Stats, Find(Q), Replace { q: Q, with: String, out: Option<u8> }, Cat(Option<u8>),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Q { pub text: String, pub case: bool, pub word: bool, pub regex: bool, pub long: bool }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Content { Text(String), Missing, Bytes(Vec<u8>) }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case { pub name: u8, pub content: Content, pub cmds: Vec<Cmd> }

const INS: &[&str] = &["in.txt", "in.md", "in.html", "a b.htm", "日é.MD", "x.HtMl", "y.markdown", "noext", ".md", "z.tex", "w.docx", "a.b.c", "dot.", "u.latex", "v.HTM", "t.TXT", "t.text"];
const OUTS: &[&str] = &["out.txt", "out.md", "out.html", "o p.htm", "out.tex", "out.latex", "out.docx", "Out.MARKDOWN", "out.TEX", "out.DOCX", "out", "sub/out.md", "sub/out.docx", "out.rtf", "existing.html", "existing.docx"];
const CLASSES: &[&str] = &["article", "report", "b{k", ""];

#[derive(Clone, Copy, PartialEq, Debug)]
enum F { Plain, Md, Html, Tex, Docx }
fn fmt(p: &str) -> F {
    // the extension is what follows the last dot of the name, unless the dot leads
    let name = p.rsplit('/').next().unwrap();
    let ext = match name.rfind('.') { Some(i) if i > 0 => name[i + 1..].to_lowercase(), _ => String::new() };
    match ext.as_str() { "md" | "markdown" => F::Md, "html" | "htm" => F::Html, "tex" | "latex" => F::Tex, "docx" => F::Docx, _ => F::Plain }
}
fn load(name: &str, bytes: Option<&[u8]>) -> std::result::Result<Option<TextDocument>, String> {
    let e = |e: anyhow::Error| format!("library: {e:#}");
    let Some(b) = bytes else { return Ok(None) };
    let Ok(s) = std::str::from_utf8(b) else { return Ok(None) };
    let d = TextDocument::new();
    match fmt(name) {
        F::Plain => d.set_plain_text(s).map_err(e)?,
        F::Md => { d.set_markdown(s).map_err(e)?.wait().map_err(e)?; }
        F::Html => { d.set_html(s).map_err(e)?.wait().map_err(e)?; }
        _ => return Ok(None),
    }
    Ok(Some(d))
}
fn zip_parts(p: &Path) -> std::result::Result<BTreeMap<String, Vec<u8>>, String> {
    let f = std::fs::File::open(p).map_err(|e| format!("{p:?}: {e}"))?;
    let mut z = zip::ZipArchive::new(f).map_err(|e| format!("{p:?} is not a DOCX file: {e}"))?;
    let mut out = BTreeMap::new();
    for i in 0..z.len() {
        let mut f = z.by_index(i).map_err(|e| e.to_string())?;
        let mut v = vec![];
        std::io::Read::read_to_end(&mut f, &mut v).map_err(|e| e.to_string())?;
        // paragraph numbers come from a counter of the process
        if let Ok(t) = std::str::from_utf8(&v) { v = t.split("w14:paraId=\"").enumerate().map(|(i, x)| if i == 0 { x } else { x.split_once('"').unwrap_or(("", x)).1 }).collect::<String>().into_bytes() }
        if !f.name().starts_with("docProps/") { out.insert(f.name().to_string(), v); }
    }
    Ok(out)
}
/// What a file must hold afterwards: these bytes, or a DOCX file with the parts of that one.
#[derive(Debug, Clone)]
enum W { Bytes(Vec<u8>), Docx(PathBuf) }
fn content(d: &TextDocument, f: F, class: &str, preamble: bool, side: &Path) -> std::result::Result<W, String> {
    let e = |e: anyhow::Error| format!("library: {e:#}");
    Ok(match f {
        F::Plain => W::Bytes(d.to_plain_text().map_err(e)?.into_bytes()),
        F::Md => W::Bytes(d.to_markdown().map_err(e)?.into_bytes()),
        F::Html => W::Bytes(d.to_html().map_err(e)?.into_bytes()),
        F::Tex => W::Bytes(d.to_latex(class, preamble).map_err(e)?.into_bytes()),
        F::Docx => { let p = side.join("want.docx"); d.to_docx(p.to_str().unwrap()).map_err(e)?.wait().map_err(e)?; W::Docx(p) }
    })
}
fn find(d: &TextDocument, q: &Q, st: &mut Stats) -> std::result::Result<Option<(String, usize)>, String> {
    let o = FindOptions { case_sensitive: q.case, whole_word: q.word, use_regex: q.regex, search_backward: false };
    let Ok(ms) = d.find_all(&q.text, &o) else { return Ok(None) };
    let mut out = String::new();
    let text: Vec<char> = d.to_plain_text().map_err(|e| e.to_string())?.chars().collect();
    let s = d.stats();
    let flat = s.table_count == 0 && s.image_count == 0 && s.frame_count <= 1;
    for m in &ms {
        let a = m.position.saturating_sub(20);
        let n = (m.length + 40).min(200);
        // in a flat document, positions are character offsets in the plain text
        let ctx: String = if flat { text[a.min(text.len())..(a + n).min(text.len())].iter().collect() } else { d.text_at(a, n).unwrap_or_default() };
        out.push_str(&format!("{}:{} {}\n", m.position, m.length, ctx.replace('\n', "\\n")));
    }
    if !ms.is_empty() { st.label("matches found") }
    Ok(Some((out, ms.len())))
}
static N: AtomicUsize = AtomicUsize::new(0);
struct Scratch(PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
fn files(dir: &Path) -> std::result::Result<BTreeMap<String, Option<Vec<u8>>>, String> {
    let mut out = BTreeMap::new();
    for e in std::fs::read_dir(dir).map_err(|e| e.to_string())? {
        let e = e.map_err(|e| e.to_string())?;
        let b = if e.path().is_dir() { None } else { Some(std::fs::read(e.path()).map_err(|e| e.to_string())?) };
        out.insert(e.file_name().to_string_lossy().into_owned(), b);
    }
    Ok(out)
}
fn check(c: &Case, st: &mut Stats) -> Check {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?.with_file_name("tdcli");
    let root = Scratch(std::env::temp_dir().join(format!("vh-cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed))));
    let (dir, side) = (root.0.join("work"), root.0.join("side"));
    std::fs::create_dir_all(&dir).and_then(|_| std::fs::create_dir_all(&side)).map_err(|e| format!("scratch directory: {e}"))?;
    let name = INS[c.name as usize % INS.len()];
    let bytes: Option<Vec<u8>> = match &c.content { Content::Text(s) => Some(s.clone().into_bytes()), Content::Missing => None, Content::Bytes(b) => Some(b.clone()) };
    if let Some(b) = &bytes { std::fs::write(dir.join(name), b).map_err(|e| e.to_string())? }
    std::fs::write(dir.join("existing.html"), "<p>old</p>").map_err(|e| e.to_string())?;
    std::fs::write(dir.join("existing.docx"), vec![b'x'; 100_000]).map_err(|e| e.to_string())?;
    let mut rich = false;
    for (i, cmd) in c.cmds.iter().enumerate() {
        let what = format!("command {i} ({cmd:?}) on {name:?}");
        let before = files(&dir)?;
        let doc = load(name, before.get(name).and_then(|b| b.as_deref()))?;
        if let Some(d) = &doc { rich |= d.stats().block_count > 1 }
        let mut args: Vec<String> = vec![];
        // expected: None = failure; otherwise standard output
        let mut out: Option<String> = None;
        let mut written: Option<(String, W)> = None;
        let opts = |q: &Q, a: &mut Vec<String>| for (b, s, l) in [(q.case, "-c", "--case-sensitive"), (q.word, "-w", "--whole-word"), (q.regex, "-e", "--regex")] { if b { a.push(if q.long { l } else { s }.to_string()) } };
        match cmd {
            Cmd::Convert { out: o, class, preamble } => {
                let o = OUTS[*o as usize % OUTS.len()];
                let class = CLASSES[*class as usize % CLASSES.len()];
                args.push("convert".into());
                if class != "article" || *preamble { args.push(format!("--document-class={class}")) }
                if *preamble { args.push("--preamble".into()) }
                args.extend(["--".into(), name.into(), o.into()]);
                if let Some(d) = &doc && !o.starts_with("sub/") {
                    written = Some((o.into(), content(d, fmt(o), class, *preamble, &side)?));
                    out = Some(String::new());
                    st.label(&format!("converted {:?} to {:?}", fmt(name), fmt(o)));
                }
            }
            Cmd::Stats => {
                args.extend(["stats".into(), name.into()]);
                if let Some(d) = &doc {
                    let s = d.stats();
                    out = Some(format!("File:       {name}\nCharacters: {}\nWords:      {}\nBlocks:     {}\nFrames:     {}\nImages:     {}\nLists:      {}\nTables:     {}\n", s.character_count, s.word_count, s.block_count, s.frame_count, s.image_count, s.list_count, s.table_count));
                    st.label("stats");
                }
            }
            Cmd::Find(q) => {
                args.push("find".into());
                opts(q, &mut args);
                args.extend(["--".into(), name.into(), q.text.clone()]);
                if let Some(d) = &doc { out = find(d, q, st)?.map(|x| x.0); st.label("find") }
            }
            Cmd::Replace { q, with, out: o } => {
                args.push("replace".into());
                opts(q, &mut args);
                let o = o.map(|o| OUTS[o as usize % OUTS.len()]);
                if let Some(o) = o { args.extend([if q.long { "--output" } else { "-o" }.to_string(), o.to_string()]) }
                args.extend(["--".into(), name.into(), q.text.clone(), with.clone()]);
                if let Some(d) = &doc {
                    let fo = FindOptions { case_sensitive: q.case, whole_word: q.word, use_regex: q.regex, search_backward: false };
                    match d.replace_text(&q.text, with, true, &fo) {
                        Err(_) => {}
                        Ok(0) => { out = Some(String::new()); st.label("replace: no match") }
                        Ok(_) => {
                            let to = o.unwrap_or(name);
                            if !to.starts_with("sub/") {
                                written = Some((to.into(), content(d, fmt(to), "article", false, &side)?));
                                out = Some(String::new());
                                st.label(if o.is_some() { "replaced to a file" } else { "replaced in place" });
                            }
                        }
                    }
                }
            }
            Cmd::Cat(f) => {
                args.extend(["cat".into(), name.into()]);
                let f = f.map(|f| f % 4);
                if let Some(f) = f { args.extend(["--format".into(), ["plain", "markdown", "html", "latex"][f as usize].into()]) }
                if let Some(d) = &doc && let W::Bytes(b) = content(d, [F::Plain, F::Md, F::Html, F::Tex][f.unwrap_or(0) as usize], "article", false, &side)? {
                    out = Some(String::from_utf8(b).unwrap());
                    st.label("cat");
                }
            }
        }
        let r = std::process::Command::new(&exe).args(&args).current_dir(&dir).stdin(std::process::Stdio::null()).output().map_err(|e| format!("cannot run {exe:?}: {e}"))?;
        let err = String::from_utf8_lossy(&r.stderr).into_owned();
        let got = String::from_utf8(r.stdout).map_err(|_| format!("{what}: standard output is not UTF-8"))?;
        match &out {
            None => { ensure!(r.status.code() == Some(1), "{what}: exit status {:?} ({err}) instead of an error", r.status); ensure!(err.starts_with("error: "), "{what}: no error message but {err:?}"); ensure_eq!(got, "", "{what}: output of a failed command"); st.label("failed as it should") }
            Some(o) => { ensure!(r.status.code() == Some(0), "{what}: exit status {:?}: {err}", r.status); ensure_eq!(&got, o, "{what}: standard output") }
        }
        let mut want: BTreeMap<String, Option<Vec<u8>>> = before;
        let now = files(&dir)?;
        if let Some((n, w)) = written {
            let b = match w {
                W::Bytes(b) => b,
                W::Docx(p) => {
                    ensure!(now.contains_key(&n), "{what}: {n:?} was not written");
                    let (a, b) = (zip_parts(&dir.join(&n)).map_err(|e| format!("{what}: {e}"))?, zip_parts(&p)?);
                    ensure!(a.keys().eq(b.keys()), "{what}: parts {:?} instead of {:?}", a.keys(), b.keys());
                    for (k, v) in &a { ensure!(v == &b[k], "{what}: part {k} of {n:?} differs from the library's export"); }
                    now[&n].clone().unwrap()
                }
            };
            want.insert(n, Some(b));
        }
        ensure!(now.keys().eq(want.keys()), "{what}: files {:?} instead of {:?}", now.keys(), want.keys());
        for (n, b) in &want {
            if &now[n] != b { let s = |b: &Option<Vec<u8>>| b.as_ref().map(|b| String::from_utf8_lossy(b).chars().take(300).collect::<String>()); fail!("{what}: {n:?} holds {:?} instead of {:?}", s(&now[n]), s(b)) }
        }
    }
    if rich { st.nontrivial() }
    Ok(())
}
fn case() -> impl Strategy<Value = Case> {
    let word = prop_oneof![6 => "[a-c]{1,3}", 2 => "[A-D0-9]{1,2}", 1 => "[.*#<>&-]{1,2}", 1 => "日|é|𝔘|ß|İ"];
    let line = proptest::collection::vec(word, 0..5).prop_map(|v| v.join(" "));
    let plain = proptest::collection::vec(line, 0..6).prop_map(|v| v.join("\n"));
    let long = ("[a-c ]{20,90}", "[a-c ]{0,250}").prop_map(|(a, b)| format!("{a}\n{b}"));
    let txt = prop_oneof![
        6 => plain.boxed(), 1 => long.boxed(), 1 => text(3, 4).boxed(),
        1 => Just("a\r\nb\r\nab".to_string()).boxed(), 1 => Just("\u{feff}ab ab".to_string()).boxed(),
        2 => proptest::collection::vec(proptest::sample::select(HTMLS), 1..4).prop_map(|v| v.concat()).boxed(),
        2 => proptest::collection::vec(proptest::sample::select(MDS), 1..4).prop_map(|v| v.join("\n\n")).boxed(),
        1 => Just("<table><tr><td>ab</td><td>c</td></tr></table><p>ab</p><blockquote><p>q ab</p></blockquote>".to_string()).boxed(),
    ];
    let content = prop_oneof![20 => txt.prop_map(Content::Text), 1 => Just(Content::Missing), 1 => "[a-c]{0,3}".prop_map(|s| Content::Bytes([s.as_bytes(), &[0xff, b'a']].concat()))];
    let q = || (prop_oneof![6 => "[a-c]{1,2}".boxed(), 1 => "[A-C]".boxed(), 2 => proptest::sample::select(&["a.", "[ab]+", "b?", "(", "^a", r"\bb", "a$", "[", ".", "(a)(b)", "-c", "--", "b\n", "", "<p>", "**"][..]).prop_map(String::from).boxed(), 1 => "日|é".boxed()], any::<[bool; 4]>()).prop_map(|(text, [case, word, regex, long])| Q { text, case, word, regex, long });
    let cmd = prop_oneof![
        5 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(out, class, preamble)| Cmd::Convert { out, class, preamble }),
        2 => Just(Cmd::Stats), 3 => q().prop_map(Cmd::Find),
        4 => (q(), "[a-d$&]{0,3}|-x|\\$1|\n", proptest::option::of(any::<u8>())).prop_map(|(q, with, out)| Cmd::Replace { q, with, out }),
        3 => proptest::option::of(0u8..4).prop_map(Cmd::Cat),
    ];
    (prop_oneof![3 => 0u8..3, 2 => any::<u8>()], content, proptest::collection::vec(cmd, 1..4)).prop_map(|(name, content, cmds)| Case { name, content, cmds })
}
pub fn run(c: &mut Ctx) {
    // most of the time is spent waiting for imports
    let t = std::mem::replace(&mut c.threads, 32);
    let n = c.cases(4_000, 80_000);
    c.sub("commands", n, case, check);
    c.threads = t;
}
