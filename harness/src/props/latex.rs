//! P13: LaTeX export read by an independent LaTeX reader.
use crate::engine::*;
use crate::obs::*;
use crate::ops::*;
use crate::props::html::*;
use text_document::*;

pub const RULE: &str = "Documents from generated rich content, editing histories and imported HTML (text full of characters special to LaTeX) are exported and read back by an independent LaTeX reader. Non-trivial: at least two blocks, or formatted or special characters; counted distinct by the generated input.";

#[derive(Debug, Clone, PartialEq)]
pub struct LB { pub quote: usize, pub env: Option<String>, pub cmd: Option<String>, pub chars: Vec<Ch>, pub wrap: Vec<String> }

pub struct R<'a> { pub s: &'a str, pub i: usize }
impl<'a> R<'a> {
    pub fn rest(&self) -> &'a str { &self.s[self.i..] }
    pub fn eat(&mut self, p: &str) -> bool { if self.rest().starts_with(p) { self.i += p.len(); true } else { false } }
    pub fn need(&mut self, p: &str) -> Check { if self.eat(p) { Ok(()) } else { Err(format!("expected {p:?} at {:?}", self.rest().chars().take(40).collect::<String>())) } }
    /// Text up to the closing brace of an argument without inner braces.
    pub fn arg(&mut self) -> std::result::Result<String, String> {
        self.need("{")?;
        let Some(e) = self.rest().find('}') else { fail!("unclosed argument") };
        let a = self.rest()[..e].to_string();
        self.i += e + 1;
        Ok(a)
    }
    /// One escaped character, if the input starts with one.
    fn special(&mut self) -> Option<char> {
        for (p, c) in [("\\textbackslash{}", '\\'), ("\\textasciitilde{}", '~'), ("\\textasciicircum{}", '^'), ("\\&", '&'), ("\\%", '%'), ("\\$", '$'), ("\\#", '#'), ("\\_", '_'), ("\\{", '{'), ("\\}", '}')] {
            if self.eat(p) { return Some(c) }
        }
        None
    }
    fn escaped_arg(&mut self) -> std::result::Result<String, String> {
        self.need("{")?;
        let mut t = String::new();
        loop {
            if self.eat("}") { return Ok(t) }
            if let Some(c) = self.special() { t.push(c); continue }
            let Some(c) = self.rest().chars().next() else { fail!("unclosed argument") };
            ensure!(!"\\{}&%$#_~^".contains(c), "unescaped {c:?} in an argument");
            t.push(c);
            self.i += c.len_utf8();
        }
    }
    /// Inline content until `}` (when nested) or the end of the paragraph.
    pub fn inline(&mut self, fl: u8, href: &Option<String>, nested: bool, out: &mut LB) -> Check {
        const F: &[(&str, u8)] = &[("\\textbf{", 1), ("\\textit{", 2), ("\\underline{", 4), ("\\sout{", 8), ("\\texttt{", 16)];
        loop {
            let r = self.rest();
            if r.is_empty() || (!nested && (r.starts_with("\n\n") || r.starts_with("\n\\item") || r.starts_with("\n\\end{"))) { return if nested { Err("unclosed brace".into()) } else { Ok(()) } }
            if nested && self.eat("}") { return Ok(()) }
            if let Some(c) = self.special() { out.chars.push((c, fl, href.clone())); continue }
            if let Some((p, b)) = F.iter().find(|x| r.starts_with(x.0)) { self.i += p.len(); self.inline(fl | b, href, true, out)?; continue }
            if self.eat("\\href") { let h = self.escaped_arg()?; self.need("{")?; self.inline(fl, &Some(h), true, out)?; continue }
            if r.starts_with("{\\setstretch{") { self.i += 1; self.need("\\setstretch")?; let a = self.arg()?; out.wrap.push(format!("stretch {a}")); self.inline(fl, href, true, out)?; continue }
            if self.eat("\\RL{") { out.wrap.push("rl".into()); self.inline(fl, href, true, out)?; continue }
            if self.eat("\\colorbox") { let a = self.arg()?; out.wrap.push(format!("color {a}")); self.need("{\\parbox{\\linewidth}{")?; self.inline(fl, href, true, out)?; self.need("}")?; continue }
            if self.eat("\\mbox{") { out.wrap.push("mbox".into()); self.inline(fl, href, true, out)?; continue }
            if let Some(c) = ["section", "subsection", "subsubsection", "paragraph"].iter().find(|c| r.starts_with(&format!("\\{c}{{"))) {
                ensure!(out.cmd.is_none() && out.chars.is_empty(), "heading inside text");
                self.i += c.len() + 2;
                out.cmd = Some(c.to_string());
                self.inline(fl, href, true, out)?;
                continue
            }
            let c = r.chars().next().unwrap();
            if r.starts_with("{}") { self.i += 2; continue }
            ensure!(!"\\{}&%$#_~^".contains(c), "{c:?} is not escaped at {:?}", r.chars().take(40).collect::<String>());
            out.chars.push((c, fl, href.clone()));
            self.i += c.len_utf8();
        }
    }
}
pub fn read_tex(body: &str) -> std::result::Result<Vec<LB>, String> {
    let mut r = R { s: body, i: 0 };
    let mut out = vec![];
    let mut q = 0;
    let new = |q| LB { quote: q, env: None, cmd: None, chars: vec![], wrap: vec![] };
    loop {
        while r.eat("\n") {}
        if r.rest().is_empty() { break }
        if r.eat("\\begin{quote}") { q += 1; continue }
        if r.eat("\\end{quote}") { ensure!(q > 0, "\\end{{quote}} without begin"); q -= 1; continue }
        if r.eat("\\begin{verbatim}\n") {
            let Some(e) = r.rest().find("\n\\end{verbatim}") else { fail!("unclosed verbatim") };
            let t = r.rest()[..e].to_string();
            r.i += e;
            r.need("\n\\end{verbatim}")?;
            out.push(LB { env: Some("verbatim".into()), chars: t.chars().map(|c| (c, 0, None)).collect(), ..new(q) });
            continue
        }
        if let Some(env) = ["itemize", "enumerate"].iter().find(|e| r.rest().starts_with(&format!("\\begin{{{e}}}"))) {
            r.need(&format!("\\begin{{{env}}}\n"))?;
            while r.eat("\\item") {
                ensure!(r.eat(" "), "no space after \\item");
                ensure!(!r.rest().trim_start_matches(' ').starts_with('['), "text starting with [ is read as the label of \\item");
                let mut b = LB { env: Some(env.to_string()), ..new(q) };
                r.inline(0, &None, false, &mut b)?;
                out.push(b);
                r.need("\n")?;
            }
            r.need(&format!("\\end{{{env}}}"))?;
            continue
        }
        let mut b = new(q);
        r.inline(0, &None, false, &mut b)?;
        out.push(b);
    }
    ensure!(q == 0, "unclosed quote environment");
    Ok(out)
}
fn tex_ok(d: &TextDocument) -> Check {
    let body = d.to_latex("book", false).map_err(|e| format!("to_latex: {e:#}"))?;
    let full = d.to_latex("book", true).map_err(|e| format!("to_latex: {e:#}"))?;
    ensure!(full.starts_with("\\documentclass{book}\n"), "document class missing");
    let Some((pre, tail)) = full.split_once("\\begin{document}\n\n") else { fail!("no \\begin{{document}}") };
    ensure_eq!(tail.strip_suffix("\n\n\\end{document}"), Some(body.as_str()), "body with and without preamble");
    for p in ["hyperref", "ulem", "setspace", "xcolor"] { ensure!(pre.contains(&format!("\\usepackage{{{p}}}")), "package {p} missing"); }
    let fl = flow(d);
    let mut want: Vec<LB> = vec![];
    fn walk(els: &[OEl], q: usize, out: &mut Vec<LB>) {
        for e in els { match e {
            OEl::B(b) => {
                let code = b.fmt.is_code_block == Some(true) && b.list.is_none();
                let ch: Vec<Ch> = chars(b).into_iter().map(|(c, f, h)| if code { (c, 0, None) } else { (c, f, h) }).collect();
                let plain = b.list.is_none() && !code;
                let mut wrap = vec![];
                if plain {
                    if b.fmt.non_breakable_lines == Some(true) { wrap.push("mbox".into()) }
                    if let Some(c) = &b.fmt.background_color { wrap.push(format!("color {c}")) }
                    if b.fmt.direction == Some(TextDirection::RightToLeft) { wrap.push("rl".into()) }
                    if let Some(l) = b.fmt.line_height { wrap.push(format!("stretch {:.2}", (l as f64 * 1000.0).round() / 1000.0)) }
                }
                let cmd = b.fmt.heading_level.filter(|_| plain).map(|h| match h { 1 => "section", 2 => "subsection", 3 => "subsubsection", _ => "paragraph" }.to_string());
                let env = if code { Some("verbatim".into()) } else { b.list.as_ref().map(|l| if ordered(&l.1) { "enumerate" } else { "itemize" }.to_string()) };
                // an empty plain paragraph leaves no trace
                if ch.is_empty() && env.is_none() && cmd.is_none() && wrap.is_empty() { continue }
                out.push(LB { quote: q, env, cmd, chars: ch, wrap })
            }
            OEl::F { fmt, els } => walk(els, if fmt.is_blockquote == Some(true) { q + 1 } else { q }, out),
            _ => {}
        } }
    }
    walk(&fl, 0, &mut want);
    let got = read_tex(&body).map_err(|e| format!("{e} in {:?}", body.chars().take(400).collect::<String>()))?;
    ensure_eq!(got.len(), want.len(), "number of blocks in {:?}", body.chars().take(400).collect::<String>());
    for (i, (g, w)) in got.iter().zip(&want).enumerate() { ensure!(g == w, "block {i} reads as {} but the document has {}", format!("{g:?}").chars().take(300).collect::<String>(), format!("{w:?}").chars().take(300).collect::<String>()); }
    Ok(())
}
fn unchanged(d: &TextDocument) -> Check {
    let a = observe(d)?;
    tex_ok(d)?;
    if let Some(x) = diff(&a, &observe(d)?) { fail!("exporting changed the document: {x}") }
    Ok(())
}
pub fn run(c: &mut Ctx) {
    let n = c.cases(20_000, 500_000);
    c.sub("document", n, || proptest::collection::vec(db(true), 1..6), |v: &Vec<DB>, st| {
        if v.len() > 1 || v.iter().any(|b| b.runs.iter().any(|r| r.1 != 0 || r.0.contains(['\\', '&', '%', '$', '#', '_', '{', '}', '~', '^']))) { st.nontrivial() }
        unchanged(&build(v)?)
    });
    let n = c.cases(10_000, 200_000);
    c.sub("history", n, || hist(FLAT, 8), |h: &Hist, st| {
        let w = start(&h.init)?;
        for op in &h.ops { w.apply(op, st); }
        if w.doc.block_count() > 1 { st.nontrivial() }
        unchanged(&w.doc)
    });
    let n = c.cases(10_000, 200_000);
    c.sub("imported", n, imp, |m: &Imp, st| {
        let d = TextDocument::new();
        if m.nodes.len() > 1 { st.nontrivial() }
        set_html(&d, &m.html())?;
        unchanged(&d)
    });
    let n = c.cases(6_000, 100_000);
    c.sub("table", n, crate::props::tabdoc::td, crate::props::tabdoc::tex);
}
