//! Position-space coherence: every read API must describe the same document.
use crate::engine::Check;
use crate::obs::*;
use crate::ops::max_pos;

use text_document::*;

/// What the document promises for documents made of top-level blocks and
/// tables (leaf blocks in flow order, one separator between them).
pub fn coherent(d: &TextDocument, deep: bool) -> Check {
    let fl = flow(d);
    let mut lv = vec![];
    leaves(&fl, &mut lv);
    let blocks = d.blocks();
    let stats = d.stats();
    ensure!(!lv.is_empty(), "the document has no block at all");
    ensure_eq!(blocks.len(), lv.len(), "blocks() and the flow disagree on the number of blocks");
    ensure_eq!(stats.block_count, lv.len(), "stats().block_count");
    ensure_eq!(d.block_count(), lv.len(), "block_count()");
    let chars: usize = lv.iter().map(|b| b.len).sum();
    ensure_eq!(stats.character_count, chars, "stats().character_count versus sum of block lengths");
    ensure_eq!(d.character_count(), chars, "character_count()");
    ensure_eq!(d.is_empty(), chars == 0, "is_empty()");
    let words: usize = lv.iter().map(|b| b.text.split_whitespace().count()).sum();
    ensure_eq!(stats.word_count, words, "stats().word_count");
    let joined = lv.iter().map(|b| b.text.as_str()).collect::<Vec<_>>().join("\n");
    ensure_eq!(d.to_plain_text().map_err(|e| e.to_string())?, joined, "to_plain_text versus flow text");
    let mut p = 0usize;
    for (i, b) in lv.iter().enumerate() {
        ensure_eq!(b.len, b.text.chars().count(), "length of block {i} versus its text {:?}", b.text);
        ensure_eq!(b.pos, p, "flow position of block {i} ({:?})", b.text);
        let h = &blocks[i];
        ensure_eq!(h.position(), p, "blocks()[{i}].position()");
        ensure_eq!(h.text(), b.text, "blocks()[{i}].text()");
        ensure_eq!(h.length(), b.len, "blocks()[{i}].length()");
        ensure_eq!(h.is_empty(), b.len == 0, "blocks()[{i}].is_empty()");
        ensure!(h.is_valid(), "blocks()[{i}] is not valid");
        // fragments cover the block text exactly
        let mut off = 0;
        let mut s = String::new();
        for f in h.fragments() {
            match f {
                FragmentContent::Text { text, offset, length, .. } => {
                    ensure_eq!(offset, off, "fragment offset in block {i}");
                    ensure_eq!(length, text.chars().count(), "fragment length in block {i}");
                    ensure!(length > 0, "empty text fragment in block {i}");
                    off += length;
                    s.push_str(&text);
                }
                FragmentContent::Image { offset, .. } => { ensure_eq!(offset, off, "image offset in block {i}"); off += 1; s.push('\u{fffc}'); }
            }
        }
        ensure_eq!(s, b.text, "fragments of block {i}");
        if deep {
            ensure_eq!(h.block_number(), i, "block_number() of block {i}");
            ensure_eq!(h.next().map(|n| n.id()), blocks.get(i + 1).map(|n| n.id()), "next() of block {i}");
            ensure_eq!(h.previous().map(|n| n.id()), if i == 0 { None } else { Some(blocks[i - 1].id()) }, "previous() of block {i}");
            ensure_eq!(d.block_by_number(i).map(|x| x.id()), Some(h.id()), "block_by_number({i})");
            ensure_eq!(d.block_by_id(h.id()).map(|x| x.text()), Some(b.text.clone()), "block_by_id of block {i}");
            let sn = h.snapshot();
            ensure_eq!((sn.block_id, sn.position, sn.length, sn.text.as_str()), (h.id(), p, b.len, b.text.as_str()), "snapshot() of block {i}");
            ensure_eq!(sn.table_cell.as_ref().map(|c| (c.row, c.column)), h.table_cell().map(|c| (c.row, c.column)), "table_cell of block {i}");
            let last = p + b.len;
            for q in [p, p + b.len / 2, last] {
                let sn = d.snapshot_block_at_position(q);
                ensure_eq!(sn.as_ref().map(|s| (s.block_id, s.position, s.length)), Some((h.id(), p, b.len)), "snapshot_block_at_position({q})");
                let c = d.cursor_at(q);
                if c.position() == q {
                    ensure_eq!(c.block_number(), i, "cursor_at({q}).block_number()");
                    ensure_eq!(c.position_in_block(), q - p, "cursor_at({q}).position_in_block()");
                    ensure_eq!(c.at_block_start(), q == p, "cursor_at({q}).at_block_start()");
                    ensure_eq!(c.at_block_end(), q == last, "cursor_at({q}).at_block_end()");
                    ensure_eq!(c.block_format().map_err(|e| e.to_string())?, h.block_format(), "cursor_at({q}).block_format()");
                }
                // the separator after a non-empty block belongs to the next block
                let (h, i, p, b) = if q == last && b.len > 0 && i + 1 < lv.len() { (&blocks[i + 1], i + 1, q + 1, lv[i + 1]) } else { (h, i, p, *b) };
                let info = d.block_at(q).map_err(|e| format!("block_at({q}) failed: {e:#}"))?;
                ensure_eq!((info.block_id, info.block_number, info.start, info.length), (h.id(), i, p, b.len), "block_at({q})");
                ensure_eq!(d.block_at_position(q).map(|x| x.id()), Some(h.id()), "block_at_position({q})");
                ensure_eq!(d.block_format_at(q).map_err(|e| e.to_string())?, h.block_format(), "block_format_at({q})");
            }
        }
        p += b.len + 1;
    }
    let max = p - 1;
    ensure_eq!(max_pos(d), max, "last position");
    ensure!(d.block_by_number(lv.len()).is_none(), "block_by_number past the end");
    let c = d.cursor();
    c.move_position(MoveOperation::End, MoveMode::MoveAnchor, 1);
    ensure_eq!(c.position(), max, "End of document");
    ensure!(c.at_end(), "cursor at End is not at_end()");
    if deep {
        let all: Vec<char> = joined.chars().collect();
        for (a, l) in [(0, max), (0, max + 5), (max / 2, 3), (max / 3, max / 2 + 1), (max, 1), (max.saturating_sub(1), 2)] {
            let want: String = all.iter().skip(a).take(l).collect();
            ensure_eq!(d.text_at(a, l).map_err(|e| format!("text_at({a},{l}): {e:#}"))?, want, "text_at({a},{l})");
            let got: Vec<usize> = d.blocks_in_range(a, l).iter().map(|b| b.id()).collect();
            for b in &blocks {
                let (s, e) = (b.position(), b.position() + b.length());
                if s < a + l && e > a { ensure!(got.contains(&b.id()), "blocks_in_range({a},{l}) misses the block at {s}..{e}"); }
                if s > a + l || e < a { ensure!(!got.contains(&b.id()), "blocks_in_range({a},{l}) contains the block at {s}..{e}"); }
            }
            let idx: Vec<usize> = got.iter().map(|g| blocks.iter().position(|b| b.id() == *g).unwrap_or(usize::MAX)).collect();
            ensure!(idx.windows(2).all(|w| w[0] < w[1]), "blocks_in_range({a},{l}) out of order");
        }
    }
    Ok(())
}
