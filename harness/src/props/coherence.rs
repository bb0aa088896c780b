use crate::coh::coherent;
use crate::engine::*;
use crate::ops::*;

pub const RULE: &str = "Random editing histories over documents of top-level blocks; after every operation all read APIs are compared with each other. Non-trivial: at least 3 operations succeeded and the document has at least 2 blocks at the end; counted distinct by the generated history.";

fn run(h: &Hist, st: &mut Stats, deep_every: bool) -> Check {
    let w = start(&h.init)?;
    coherent(&w.doc, true)?;
    let mut applied = 0;
    for (i, op) in h.ops.iter().enumerate() {
        match w.apply(op, st) {
            None => continue,
            Some(Err(_)) => st.label("op returned an error"),
            Some(Ok(())) => { applied += 1; st.label(kind(op)) }
        }
        coherent(&w.doc, deep_every || i + 1 == h.ops.len()).map_err(|m| format!("after op {i} {op:?}: {m}"))?;
    }
    if applied >= 3 && w.doc.block_count() >= 2 { st.nontrivial() }
    Ok(())
}
pub fn all(ctx: &mut Ctx) {
    let n = ctx.cases(60000, 1500000);
    ctx.sub("flat", n, || hist(FLAT, 14), |h, st| run(h, st, false));
}
