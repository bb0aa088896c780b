//! Complete observation of a document through its public API, with entity ids
//! normalised away (list ids are replaced by order of first appearance).
use std::collections::HashMap;
use text_document::*;

#[derive(Debug, Clone, PartialEq)]
pub enum Frag {
    Text { off: usize, text: String, fmt: TextFormat },
    Image { off: usize, name: String, w: u32, h: u32, q: u32, fmt: TextFormat },
}
#[derive(Debug, Clone, PartialEq)]
pub struct OBlock {
    pub pos: usize,
    pub len: usize,
    pub text: String,
    pub frags: Vec<Frag>,
    pub fmt: BlockFormat,
    pub list: Option<(usize, ListStyle, u8, String, usize)>,
    pub cell: Option<(usize, usize)>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct OCell { pub r: usize, pub c: usize, pub rs: usize, pub cs: usize, pub fmt: CellFormat, pub blocks: Vec<OBlock> }
#[derive(Debug, Clone, PartialEq)]
pub enum OEl {
    B(OBlock),
    T { rows: usize, cols: usize, widths: Vec<i32>, fmt: TableFormat, cells: Vec<OCell> },
    F { fmt: FrameFormat, els: Vec<OEl> },
}
#[derive(Debug, Clone, PartialEq)]
pub struct Obs {
    pub plain: String,
    pub stats: DocumentStats,
    pub flow: Vec<OEl>,
    pub blocks: Vec<(usize, usize, String)>,
    pub html: String,
    pub md: String,
    pub latex: String,
    pub title: String,
}

struct N { lists: HashMap<usize, usize> }
impl N {
    fn block(&mut self, b: &BlockSnapshot) -> OBlock {
        OBlock {
            pos: b.position, len: b.length, text: b.text.clone(),
            frags: join_equal(b.fragments.iter().map(frag).collect()),
            fmt: b.block_format.clone(),
            list: b.list_info.as_ref().map(|l| {
                let n = self.lists.len();
                let id = *self.lists.entry(l.list_id).or_insert(n);
                (id, l.style.clone(), l.indent, l.marker.clone(), l.item_index)
            }),
            cell: b.table_cell.as_ref().map(|c| (c.row, c.column)),
        }
    }
    fn el(&mut self, e: &FlowElementSnapshot) -> OEl {
        match e {
            FlowElementSnapshot::Block(b) => OEl::B(self.block(b)),
            FlowElementSnapshot::Table(t) => OEl::T {
                rows: t.rows, cols: t.columns, widths: t.column_widths.clone(), fmt: t.format.clone(),
                cells: {
                    let mut v: Vec<&CellSnapshot> = t.cells.iter().collect();
                    v.sort_by_key(|c| (c.row, c.column));
                    v.into_iter().map(|c| OCell {
                        r: c.row, c: c.column, rs: c.row_span, cs: c.column_span, fmt: c.format.clone(),
                        blocks: c.blocks.iter().map(|b| self.block(b)).collect(),
                    }).collect()
                },
            },
            FlowElementSnapshot::Frame(f) => OEl::F { fmt: f.format.clone(), els: f.elements.iter().map(|e| self.el(e)).collect() },
        }
    }
}
pub fn frag(f: &FragmentContent) -> Frag {
    match f {
        FragmentContent::Text { text, format, offset, .. } => Frag::Text { off: *offset, text: text.clone(), fmt: format.clone() },
        FragmentContent::Image { name, width, height, quality, format, offset, .. } =>
            Frag::Image { off: *offset, name: name.clone(), w: *width, h: *height, q: *quality, fmt: format.clone() },
    }
}
/// How text is cut into fragments of equal format is not observable document content.
fn join_equal(v: Vec<Frag>) -> Vec<Frag> {
    let mut out: Vec<Frag> = vec![];
    for f in v {
        if let (Some(Frag::Text { text: t, fmt: g, .. }), Frag::Text { text, fmt, .. }) = (out.last_mut(), &f) && g == fmt { t.push_str(text); continue }
        out.push(f);
    }
    out
}
pub fn flow(d: &TextDocument) -> Vec<OEl> {
    let mut n = N { lists: HashMap::new() };
    d.snapshot_flow().elements.iter().map(|e| n.el(e)).collect()
}
pub fn observe(d: &TextDocument) -> std::result::Result<Obs, String> {
    let e = |w: &'static str| move |e: anyhow::Error| format!("{w} failed: {e:#}");
    Ok(Obs {
        plain: d.to_plain_text().map_err(e("to_plain_text"))?,
        stats: d.stats(),
        flow: flow(d),
        blocks: d.blocks().iter().map(|b| (b.position(), b.length(), b.text())).collect(),
        html: d.to_html().map_err(e("to_html"))?,
        md: d.to_markdown().map_err(e("to_markdown"))?,
        latex: d.to_latex("article", true).map_err(e("to_latex"))?,
        title: d.title(),
    })
}

/// All leaf blocks of a flow in order.
pub fn leaves<'a>(els: &'a [OEl], out: &mut Vec<&'a OBlock>) {
    for e in els {
        match e {
            OEl::B(b) => out.push(b),
            OEl::T { cells, .. } => for c in cells { out.extend(c.blocks.iter()) },
            OEl::F { els, .. } => leaves(els, out),
        }
    }
}

fn short<T: std::fmt::Debug>(t: &T) -> String { let s = format!("{t:?}"); if s.len() > 700 { s.chars().take(700).collect::<String>() + "…" } else { s } }

/// First difference between two observations (None when equal).
pub fn diff(a: &Obs, b: &Obs) -> Option<String> {
    macro_rules! cmp { ($f:ident) => { if a.$f != b.$f { return Some(format!("{}: {} vs {}", stringify!($f), short(&a.$f), short(&b.$f))); } } }
    cmp!(plain);
    cmp!(stats);
    if a.flow.len() != b.flow.len() { return Some(format!("flow length {} vs {}: {} vs {}", a.flow.len(), b.flow.len(), short(&a.flow), short(&b.flow))); }
    for (i, (x, y)) in a.flow.iter().zip(&b.flow).enumerate() {
        if x != y { return Some(format!("flow[{i}]: {} vs {}", short(x), short(y))); }
    }
    cmp!(blocks);
    cmp!(html);
    cmp!(md);
    cmp!(latex);
    cmp!(title);
    None
}
