//! P20: the entity store behind the document: records, relationships, removal
//! and undo of the entity commands, against a model of plain records.
use super::store_api::{self as api, Api};
use crate::engine::*;
use frontend::AppContext;
use frontend::common::event::{DirectAccessEntity as E, EntityEvent, Origin};
use frontend::commands::undo_redo_commands as ur;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value, json};
use std::collections::{BTreeMap, BTreeSet};

pub const RULE: &str = "Random histories of entity commands (create with and without owner, update with and without relationships, remove, set and move relationships, single and multi, valid and invalid) with undo, redo and composites, on a model of plain records. Non-trivial: a removal that takes other records with it or is referred to, or an undo and a redo; counted distinct by the generated input.";

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum K { Root, Doc, Frame, Block, List, Res, Table, Cell }
use K::*;
const KINDS: [K; 8] = [Root, Doc, Frame, Block, List, Res, Table, Cell];
struct Rel { name: &'static str, to: K, strong: bool, many: bool }
const fn r(name: &'static str, to: K, strong: bool, many: bool) -> Rel { Rel { name, to, strong, many } }
static R_ROOT: [Rel; 1] = [r("document", Doc, true, false)];
static R_DOC: [Rel; 4] = [r("frames", Frame, true, true), r("lists", List, true, true), r("resources", Res, true, true), r("tables", Table, true, true)];
static R_FRAME: [Rel; 3] = [r("blocks", Block, true, true), r("parent_frame", Frame, false, false), r("table", Table, false, false)];
static R_BLOCK: [Rel; 1] = [r("list", List, false, false)];
static R_TABLE: [Rel; 1] = [r("cells", Cell, true, true)];
static R_CELL: [Rel; 1] = [r("cell_frame", Frame, false, false)];
fn rels(k: K) -> &'static [Rel] { match k { Root => &R_ROOT, Doc => &R_DOC, Frame => &R_FRAME, Block => &R_BLOCK, Table => &R_TABLE, Cell => &R_CELL, List | Res => &[] } }
/// Kind and relationship (index) of the owner.
fn owner(k: K) -> Option<(K, usize)> { Some(match k { Doc => (Root, 0), Frame => (Doc, 0), List => (Doc, 1), Res => (Doc, 2), Table => (Doc, 3), Block => (Frame, 0), Cell => (Table, 0), Root => return None }) }
fn a(k: K) -> &'static Api { match k { Root => &api::ROOT, Doc => &api::DOCUMENT, Frame => &api::FRAME, Block => &api::BLOCK, List => &api::LIST, Res => &api::RESOURCE, Table => &api::TABLE, Cell => &api::TABLE_CELL } }

#[derive(Clone, Copy)]
enum T { Time, Int, OInt, OBool, Str, OStr, Ints, En(&'static [&'static str]), OEn(&'static [&'static str]) }
use T::*;
const ALIGN: &[&str] = &["Left", "Right", "Center", "Justify"];
const DIR: &[&str] = &["LeftToRight", "RightToLeft"];
fn fields(k: K) -> Vec<(&'static str, T)> {
    let mut v = vec![("created_at", Time), ("updated_at", Time)];
    v.extend_from_slice(match k {
        Root => &[],
        Doc => &[("title", Str), ("text_direction", En(DIR)), ("default_wrap_mode", En(&["NoWrap", "WordWrap", "WrapAnywhere", "WrapAtWordBoundaryOrAnywhere"])), ("character_count", Int), ("block_count", Int)],
        Frame => &[("fmt_height", OInt), ("fmt_width", OInt), ("fmt_top_margin", OInt), ("fmt_bottom_margin", OInt), ("fmt_left_margin", OInt), ("fmt_right_margin", OInt), ("fmt_padding", OInt), ("fmt_border", OInt), ("fmt_position", OEn(&["InFlow", "FloatLeft", "FloatRight"])), ("fmt_is_blockquote", OBool)],
        Block => &[("document_position", Int), ("fmt_alignment", OEn(ALIGN)), ("fmt_top_margin", OInt), ("fmt_bottom_margin", OInt), ("fmt_left_margin", OInt), ("fmt_right_margin", OInt), ("fmt_heading_level", OInt), ("fmt_indent", OInt), ("fmt_text_indent", OInt), ("fmt_marker", OEn(&["NoMarker", "Unchecked", "Checked"])), ("fmt_tab_positions", Ints), ("fmt_line_height", OInt), ("fmt_non_breakable_lines", OBool), ("fmt_direction", OEn(DIR)), ("fmt_background_color", OStr), ("fmt_is_code_block", OBool), ("fmt_code_language", OStr)],
        List => &[("style", En(&["Disc", "Circle", "Square", "Decimal", "LowerAlpha", "UpperAlpha", "LowerRoman", "UpperRoman"])), ("indent", Int), ("prefix", Str), ("suffix", Str)],
        Res => &[("resource_type", En(&["Image", "StyleSheet", "Other"])), ("name", Str), ("url", Str), ("mime_type", Str), ("data_base64", Str)],
        Table => &[("rows", Int), ("columns", Int), ("column_widths", Ints), ("fmt_border", OInt), ("fmt_cell_spacing", OInt), ("fmt_cell_padding", OInt), ("fmt_width", OInt), ("fmt_alignment", OEn(ALIGN))],
        Cell => &[("row", Int), ("column", Int), ("row_span", Int), ("column_span", Int), ("fmt_padding", OInt), ("fmt_border", OInt), ("fmt_vertical_alignment", OEn(&["Top", "Middle", "Bottom"])), ("fmt_background_color", OStr)],
    });
    v
}

struct Rng(u64);
impl Rng {
    fn n(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        (z ^ (z >> 31)) % n
    }
}
fn scalar(t: T, g: &mut Rng) -> Value {
    let int = |g: &mut Rng| json!(g.n(40) as i64 - 10);
    let s = |g: &mut Rng| json!(["", "a", "é\n", "x y"][g.n(4) as usize].to_string() + &g.n(30).to_string());
    let opt = |g: &mut Rng| g.n(3) == 0;
    match t {
        Time => json!(format!("20{:02}-03-04T05:06:{:02}Z", 10 + g.n(20), g.n(60))),
        Int => int(g), Str => s(g),
        OInt => if opt(g) { Value::Null } else { int(g) },
        OBool => if opt(g) { Value::Null } else { json!(g.n(2) == 1) },
        OStr => if opt(g) { Value::Null } else { s(g) },
        Ints => json!((0..g.n(4)).map(|_| g.n(90)).collect::<Vec<_>>()),
        En(v) => json!(v[g.n(v.len() as u64) as usize]),
        OEn(v) => if opt(g) { Value::Null } else { json!(v[g.n(v.len() as u64) as usize]) },
    }
}
type Rec = Map<String, Value>;
fn scalars(k: K, seed: u16, i: usize) -> Rec {
    let mut g = Rng(seed as u64 * 1000 + i as u64);
    let mut m: Rec = fields(k).into_iter().map(|(n, t)| (n.to_string(), scalar(t, &mut g))).collect();
    if k == Frame { m.insert("child_order".into(), json!([])); }
    m
}
fn ids_of(v: &Value) -> Vec<u64> { match v { Value::Array(x) => x.iter().filter_map(|i| i.as_u64()).collect(), Value::Number(n) => n.as_u64().filter(|n| *n != 0).into_iter().collect(), _ => vec![] } }
fn rel_val(k: K, r: &Rel, ids: &[u64]) -> Value {
    if r.many { json!(ids) } else if k == Root { json!(ids.first().copied().unwrap_or(0)) } else { json!(ids.first()) }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum S {
    /// kind, how many, multi command, seed, owner and index, picks for relationships
    New(K, u8, bool, u16, Option<(u8, i8)>, Option<[u8; 3]>),
    /// kind, picks, multi, seed, picks for relationships, with a missing id
    Upd(K, Vec<u8>, bool, u16, Option<[u8; 3]>, bool),
    Del(K, Vec<u8>, bool, bool),
    /// kind, pick, relationship, targets, with a missing id
    Set(K, u8, u8, Vec<u8>, bool),
    Move(K, u8, u8, Vec<u8>, i8),
    Undo(u8), Redo(u8), Begin, End, Cancel, Forget,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case { pub steps: Vec<S> }

type State = BTreeMap<(K, u64), Rec>;
struct M { s: State }
impl M {
    fn ids(&self, k: K) -> Vec<u64> { self.s.keys().filter(|x| x.0 == k).map(|x| x.1).collect() }
    fn pick(&self, k: K, p: u8) -> Option<u64> { let v = self.ids(k); if v.is_empty() { None } else { Some(v[p as usize % v.len()]) } }
    fn picks(&self, k: K, p: &[u8]) -> Vec<u64> { let mut out = vec![]; for x in p { if let Some(i) = self.pick(k, *x) && !out.contains(&i) { out.push(i) } } out }
    fn rel(&self, k: K, id: u64, f: usize) -> Vec<u64> { self.s.get(&(k, id)).map(|r| ids_of(&r[rels(k)[f].name])).unwrap_or_default() }
    /// Frames in frames are a tree in a real document: even frames may have a
    /// table, cells hold odd frames, and odd frames hold older odd frames only.
    fn picks_for(&self, k: K, id: u64, f: usize, p: &[u8]) -> Vec<u64> {
        let mut v = self.picks(rels(k)[f].to, p);
        match (k, f) { (Frame, 2) if id % 2 == 1 => v.clear(), (Cell, 0) => v.retain(|i| i % 2 == 1), _ => {} }
        v
    }
    fn set_rel(&mut self, k: K, id: u64, f: usize, ids: &[u64]) { let r = &rels(k)[f]; if let Some(x) = self.s.get_mut(&(k, id)) { x.insert(r.name.into(), rel_val(k, r, ids)); } }
    /// Remove records with everything they own, and all references to what is gone.
    fn remove(&mut self, k: K, ids: &[u64]) -> (usize, bool) {
        let mut gone: BTreeSet<(K, u64)> = BTreeSet::new();
        let mut todo: Vec<(K, u64)> = ids.iter().map(|i| (k, *i)).collect();
        while let Some(x) = todo.pop() {
            if !self.s.contains_key(&x) || !gone.insert(x) { continue }
            for (f, r) in rels(x.0).iter().enumerate() { if r.strong { todo.extend(self.rel(x.0, x.1, f).into_iter().map(|i| (r.to, i))) } }
        }
        for x in &gone { self.s.remove(x); }
        let mut referred = false;
        for ((k, _), rec) in self.s.iter_mut() {
            for r in rels(*k) {
                let old = ids_of(&rec[r.name]);
                let new: Vec<u64> = old.iter().copied().filter(|i| !gone.contains(&(r.to, *i))).collect();
                if new != old { referred = true; rec.insert(r.name.into(), rel_val(*k, r, &new)); }
            }
        }
        (gone.len(), referred)
    }
}
/// Entries of `child_order` that point at nothing carry no meaning.
fn norm(s: &State) -> State {
    let mut out = s.clone();
    for ((k, _), rec) in out.iter_mut() {
        if *k != Frame { continue }
        let co: Vec<i64> = rec["child_order"].as_array().map(|v| v.iter().filter_map(|x| x.as_i64()).collect()).unwrap_or_default();
        rec.insert("child_order".into(), json!(co.into_iter().filter(|e| s.contains_key(&(if *e > 0 { Block } else { Frame }, e.unsigned_abs()))).collect::<Vec<_>>()));
    }
    out
}
fn read(c: &AppContext) -> Result<State, String> {
    let mut s = State::new();
    for k in KINDS {
        for v in (a(k).get_all)(c)? {
            let Value::Object(o) = v else { fail!("not a record") };
            let id = o["id"].as_u64().unwrap();
            if s.insert((k, id), o).is_some() { fail!("{k:?} {id} is listed twice") }
        }
    }
    Ok(s)
}
fn state_diff(want: &State, got: &State) -> Option<String> {
    let (want, got) = (norm(want), norm(got));
    for (k, v) in &want {
        match got.get(k) {
            None => return Some(format!("{:?} {} is missing", k.0, k.1)),
            Some(g) => for (f, x) in v { if g.get(f) != Some(x) { return Some(format!("{:?} {}: {f} is {} instead of {x}", k.0, k.1, g.get(f).unwrap_or(&Value::Null))) } },
        }
    }
    got.keys().find(|k| !want.contains_key(k)).map(|k| format!("{:?} {} should not exist", k.0, k.1))
}

/// Every way of reading agrees with the model.
fn reads(c: &AppContext, m: &M, seed: u64) -> Check {
    let got = read(c)?;
    if let Some(d) = state_diff(&m.s, &got) { fail!("{d}") }
    let mut g = Rng(seed);
    let k = KINDS[g.n(8) as usize];
    let mut ids = m.ids(k);
    ids.truncate(4);
    ids.push(9_000_000);
    let i = g.n(ids.len() as u64) as usize;
    ids.swap(0, i);
    let rec = |id: u64| got.get(&(k, id)).cloned().map(Value::Object);
    let multi = (a(k).get_multi)(c, &ids)?;
    ensure_eq!(multi, ids.iter().map(|i| rec(*i)).collect::<Vec<_>>(), "get multi of {k:?} {ids:?}");
    ensure_eq!((a(k).get)(c, ids[0])?, rec(ids[0]), "get of {k:?} {}", ids[0]);
    for (f, r) in rels(k).iter().enumerate() {
        let want = m.rel(k, ids[0], f);
        ensure_eq!((a(k).rel)(c, ids[0], f)?, want, "relationship {} of {k:?} {}", r.name, ids[0]);
        ensure_eq!((a(k).rel_count)(c, ids[0], f)?, want.len(), "count of {} of {k:?} {}", r.name, ids[0]);
        let (o, n) = (g.n(4) as usize, g.n(4) as usize);
        ensure_eq!((a(k).rel_range)(c, ids[0], f, o, n)?, want.iter().copied().skip(o).take(n).collect::<Vec<_>>(), "{} of {k:?} {} from {o}, {n} of them", r.name, ids[0]);
        let many = (a(k).rel_many)(c, &ids, f)?;
        for i in &ids { ensure_eq!(many.get(i).cloned().unwrap_or_default(), m.rel(k, *i, f), "{} of {k:?} {i} in a map", r.name); }
    }
    Ok(())
}

/// One command against the model; Ok(None) when it does not apply, Ok(Some(changed history)).
fn command(c: &AppContext, m: &mut M, s: &S, st: &mut Stats, weight: &mut bool) -> Result<Option<()>, String> {
    let before = m.s.clone();
    let failed = |m: &mut M, r: Result<(), String>, what: &str| -> Result<Option<()>, String> {
        ensure!(r.is_err(), "{what} succeeded");
        m.s = before.clone();
        reads(c, m, 1).map_err(|e| format!("{what} failed and left a trace: {e}"))?;
        Ok(None)
    };
    match s {
        S::New(k, n, multi, seed, own, rl) => {
            let k = *k;
            let n = if *multi { 1 + *n as usize % 3 } else { 1 };
            let own = match (own, owner(k)) { (Some((p, i)), Some((ok, f))) => match m.pick(ok, *p) { Some(o) => Some((ok, f, o, *i as i32)), None => return Ok(None) }, _ => None };
            let n = if k == Doc && own.is_some() { 1 } else { n };
            let mut recs = vec![];
            for i in 0..n {
                let mut rec = scalars(k, *seed, i);
                for (f, r) in rels(k).iter().enumerate() {
                    // new records may refer to others but own nothing yet
                    let ids: Vec<u64> = match rl { Some(p) if !r.strong => m.picks_for(k, 1, f, &p[..1 + f % 2]), _ => vec![] };
                    rec.insert(r.name.into(), rel_val(k, r, &ids));
                }
                recs.push(rec);
            }
            let vals: Vec<Value> = recs.iter().cloned().map(Value::Object).collect();
            let made = match (own, *multi) {
                (None, false) => vec![(a(k).create_orphan)(c, &vals[0])?],
                (None, true) => (a(k).create_orphan_multi)(c, &vals)?,
                (Some((_, _, o, i)), false) => vec![(a(k).create)(c, &vals[0], o, i)?],
                (Some((_, _, o, i)), true) => (a(k).create_multi)(c, &vals, o, i)?,
            };
            ensure_eq!(made.len(), recs.len(), "records created");
            if let Some((ok, f, o, _)) = own && k == Doc {
                let old = m.rel(ok, o, f);
                if !old.is_empty() { *weight = true; st.label("document replaced") }
                m.remove(k, &old);
            }
            let mut new = vec![];
            for (rec, v) in recs.iter().zip(&made) {
                let id = v["id"].as_u64().unwrap_or(0);
                ensure!(id > 0, "no id");
                let mut want = rec.clone();
                want.insert("id".into(), json!(id));
                ensure_eq!(*v, Value::Object(want.clone()), "created {k:?}");
                ensure!(!m.s.contains_key(&(k, id)), "the new {k:?} has the id {id} of an existing one");
                m.s.insert((k, id), want);
                new.push(id);
            }
            if let Some((ok, f, o, i)) = own {
                let mut l = m.rel(ok, o, f);
                let at = if k != Doc && i >= 0 && (i as usize) < l.len() { st.label("created in between"); i as usize } else { l.len() };
                l.splice(at..at, new);
                m.set_rel(ok, o, f, &l);
            }
            st.label("create");
            Ok(Some(()))
        }
        S::Upd(k, ps, multi, seed, rl, bad) => {
            let k = *k;
            let mut ids = m.picks(k, ps);
            if !*multi { ids.truncate(1) }
            if *bad { let at = ids.len().min(*seed as usize % 3); ids.insert(at, 9_000_000 + *seed as u64); if !*multi { ids = vec![9_000_001] } }
            if ids.is_empty() { return Ok(None) }
            let mut recs: Vec<Rec> = vec![];
            for (i, id) in ids.iter().enumerate() {
                let mut rec = scalars(k, *seed, i);
                rec.insert("id".into(), json!(id));
                if k == Frame {
                    // child_order lists its own blocks and older frames
                    let mut g = Rng(*seed as u64);
                    let mut co: Vec<i64> = m.rel(Frame, *id, 0).iter().map(|b| *b as i64).collect();
                    co.extend(m.ids(Frame).iter().filter(|f| **f < *id && g.n(2) == 0 && (*id % 2 == 0 || **f % 2 == 1)).map(|f| -(*f as i64)));
                    rec.insert("child_order".into(), json!(co));
                }
                for (f, r) in rels(k).iter().enumerate() {
                    let mut to = match rl { Some(p) => m.picks_for(k, *id, f, p), None => vec![] };
                    if !r.many { to.truncate(1) }
                    if k == Root { to = m.rel(k, *id, f) }
                    rec.insert(r.name.into(), rel_val(k, r, &to));
                }
                recs.push(rec);
            }
            let mut vals: Vec<Value> = recs.iter().cloned().map(Value::Object).collect();
            let res = match (rl, *multi) {
                (None, false) => (a(k).update)(c, &vals[0]).map(|x| vec![x]),
                (None, true) => (a(k).update_multi)(c, &vals),
                (Some(_), false) => (a(k).update_rel)(c, &vals[0]).map(|x| vec![x]),
                (Some(_), true) => (a(k).update_rel_multi)(c, &vals),
            };
            if *bad { st.label("update of a missing record"); return failed(m, res.map(|_| ()), "updating a record that does not exist") }
            let res = res?;
            if rl.is_none() { for (v, id) in vals.iter_mut().zip(&ids) { for (f, r) in rels(k).iter().enumerate() { v[r.name] = rel_val(k, r, &m.rel(k, *id, f)); } } }
            ensure_eq!(res, vals, "result of the update");
            for (v, id) in vals.into_iter().zip(ids) { let Value::Object(o) = v else { unreachable!() }; m.s.insert((k, id), o); }
            st.label(if rl.is_some() { "update with relationships" } else { "update" });
            Ok(Some(()))
        }
        S::Del(k, ps, multi, bad) => {
            let k = *k;
            let mut ids = m.picks(k, ps);
            if !*multi { ids.truncate(1) }
            if *bad { if *multi { ids.push(9_000_000) } else { ids = vec![9_000_000] } }
            if ids.is_empty() { return Ok(None) }
            let res = if *multi { (a(k).remove_multi)(c, &ids) } else { (a(k).remove)(c, ids[0]) };
            if *bad { st.label("removal of a missing record"); return failed(m, res, "removing a record that does not exist") }
            res?;
            let n = ids.len();
            let (gone, referred) = m.remove(k, &ids);
            if gone > n { *weight = true; st.label("removal with children") }
            if referred { *weight = true; st.label("removal of a referenced record") }
            st.label("remove");
            Ok(Some(()))
        }
        S::Set(k, p, f, to, bad) => {
            let k = *k;
            if rels(k).is_empty() { return Ok(None) }
            let f = *f as usize % rels(k).len();
            let r = &rels(k)[f];
            let Some(id) = m.pick(k, *p) else { return Ok(None) };
            let mut to = m.picks_for(k, id, f, to);
            if !r.many { to.truncate(1) }
            if *bad { if r.many { to.push(9_000_000) } else { to = vec![9_000_000] } }
            let res = (a(k).set)(c, id, f, &to);
            if *bad { st.label("relationship to a missing record"); return failed(m, res, "referring to a record that does not exist") }
            if k == Root && to.iter().any(|d| m.ids(Root).iter().any(|o| *o != id && m.rel(Root, *o, 0).contains(d))) {
                st.label("document of another root");
                return failed(m, res, "giving two roots one document")
            }
            res?;
            m.set_rel(k, id, f, &to);
            st.label("set relationship");
            Ok(Some(()))
        }
        S::Move(k, p, f, ps, i) => {
            let k = *k;
            let Some(f) = (0..rels(k).len()).map(|x| (x + *f as usize) % rels(k).len()).find(|f| rels(k)[*f].many) else { return Ok(None) };
            let Some(id) = m.pick(k, *p) else { return Ok(None) };
            let old = m.rel(k, id, f);
            if old.is_empty() { return Ok(None) }
            let mut mv: Vec<u64> = vec![];
            for x in ps { let y = old[*x as usize % old.len()]; if !mv.contains(&y) { mv.push(y) } }
            let mut want: Vec<u64> = old.iter().copied().filter(|x| mv.is_empty() || !mv.contains(x)).collect();
            if !mv.is_empty() { let at = if *i < 0 || *i as usize > want.len() { want.len() } else { *i as usize }; want.splice(at..at, mv.clone()); }
            let got = (a(k).mv)(c, id, f, &mv, *i as i32)?;
            ensure_eq!(got, want, "order after moving {mv:?} of {old:?} to {i}");
            m.set_rel(k, id, f, &want);
            st.label("move in a relationship");
            Ok(Some(()))
        }
        _ => Ok(None),
    }
}
/// Commands on roots are not undoable (and undo restores whole states), so
/// the history is dropped before them.
fn undoable(s: &S) -> bool { !matches!(s, S::New(Root, ..) | S::Upd(Root, ..) | S::Del(Root, ..) | S::Set(Root, ..) | S::Move(Root, ..)) }

/// What was announced since the last call is what changed.
fn announced(c: &AppContext, before: &State, after: &State, back: bool, st: &mut Stats) -> Check {
    let mut said: BTreeSet<(K, u64, u8)> = BTreeSet::new();
    let mut reset = false;
    for e in c.event_hub.subscribe_receiver().try_iter() {
        let (k, ev) = match e.origin {
            Origin::DirectAccess(E::All(_)) => { reset = true; continue }
            Origin::DirectAccess(E::Root(v)) => (Root, v),
            Origin::DirectAccess(E::Document(v)) => (Doc, v),
            Origin::DirectAccess(E::Frame(v)) => (Frame, v),
            Origin::DirectAccess(E::Block(v)) => (Block, v),
            Origin::DirectAccess(E::List(v)) => (List, v),
            Origin::DirectAccess(E::Resource(v)) => (Res, v),
            Origin::DirectAccess(E::Table(v)) => (Table, v),
            Origin::DirectAccess(E::TableCell(v)) => (Cell, v),
            _ => continue,
        };
        said.extend(e.ids.iter().map(|i| (k, *i, match ev { EntityEvent::Created => 0, EntityEvent::Updated => 1, EntityEvent::Removed => 2 })));
    }
    // the clearing of references (not ownership) to what was removed goes without saying
    let plain = |s: &State| {
        let mut s = norm(s);
        for ((k, _), rec) in s.iter_mut() { for r in rels(*k) { if !r.strong { rec.remove(r.name); } } if *k == Frame { rec.remove("child_order"); } }
        s
    };
    let (b, n) = (plain(before), plain(after));
    if back {
        ensure!(reset || !said.is_empty() || norm(before) == norm(after), "nothing was announced");
        return Ok(());
    }
    for (k, i, v) in &said {
        let there = after.contains_key(&(*k, *i));
        ensure!((*v == 2) != there || (*v == 1 && before.contains_key(&(*k, *i))), "announced that {k:?} {i} was {}, which is {}", ["created", "updated", "removed"][*v as usize], if there { "there" } else { "not there" });
    }
    if reset { st.label("reset announced"); return Ok(()) }
    for x in b.keys().chain(n.keys()) {
        let want = match (b.get(x), n.get(x)) { (None, _) => 0, (_, None) => 2, (o, w) if o != w => 1, _ => continue };
        ensure!(said.contains(&(x.0, x.1, want)), "not announced that {:?} {} was {}", x.0, x.1, ["created", "updated", "removed"][want as usize]);
    }
    Ok(())
}

fn check(case: &Case, st: &mut Stats) -> Check {
    let ctx = AppContext::new();
    let c = &ctx;
    let res = history(c, case, st);
    ctx.shutdown();
    res
}
fn history(c: &AppContext, case: &Case, st: &mut Stats) -> Check {
    let mut m = M { s: State::new() };
    // a small tree to start from
    let mut w = false;
    for s in [S::New(Root, 0, false, 1, None, None), S::New(Doc, 0, false, 2, Some((0, 0)), None), S::New(Frame, 1, true, 3, Some((0, 0)), None), S::New(Block, 2, true, 4, Some((0, 0)), None), S::New(List, 0, false, 5, Some((0, 0)), None), S::New(Table, 0, false, 6, Some((0, 0)), None), S::New(Cell, 1, true, 7, Some((0, 0)), None)] {
        command(c, &mut m, &s, st, &mut w)?;
    }
    ur::clear_all_stacks(c);
    reads(c, &m, 0)?;
    announced(c, &State::new(), &m.s, false, st)?;
    let mut states = vec![m.s.clone()];
    let mut at = 0;
    let mut depth = 0;
    let mut grouped = 0;
    let (mut weight, mut undone, mut redone) = (false, false, false);
    for (i, s) in case.steps.iter().enumerate() {
        let what = format!("step {i} ({s:?})");
        let held = m.s.clone();
        let ends = matches!(s, S::Undo(_) | S::Redo(_) | S::Forget) || !undoable(s);
        if depth > 0 && (ends || matches!(s, S::End)) {
            while depth > 0 { ur::end_composite(c); depth -= 1; if !ends { break } }
            if depth == 0 && grouped > 0 { states.truncate(at + 1); states.push(m.s.clone()); at += 1; grouped = 0; st.label("composite") }
        }
        match s {
            S::Undo(n) => for _ in 0..=*n % 3 {
                if ur::can_undo(c, None) { undone = true; st.label("undo") }
                ur::undo(c, None).map_err(|e| format!("{what}: {e:#}"))?;
                let last = m.s.clone();
                at = at.saturating_sub(1);
                m.s = states[at].clone();
                announced(c, &last, &m.s, true, st).map_err(|e| format!("{what}: {e}"))?;
                reads(c, &m, i as u64).map_err(|e| format!("{what}: undo did not restore the state before: {e}"))?;
            },
            S::Redo(n) => for _ in 0..=*n % 3 {
                if ur::can_redo(c, None) { redone = true; st.label("redo") }
                ur::redo(c, None).map_err(|e| format!("{what}: {e:#}"))?;
                let last = m.s.clone();
                if at + 1 < states.len() { at += 1 }
                m.s = states[at].clone();
                announced(c, &last, &m.s, true, st).map_err(|e| format!("{what}: {e}"))?;
                reads(c, &m, i as u64).map_err(|e| format!("{what}: redo did not restore the state after: {e}"))?;
            },
            S::Begin => { ur::begin_composite(c, None); depth += 1; }
            S::End => {}
            S::Cancel => if depth == 1 {
                ur::cancel_composite(c);
                depth = 0;
                grouped = 0;
                m.s = states[at].clone();
                st.label("cancelled composite");
                reads(c, &m, i as u64).map_err(|e| format!("{what}: cancelling did not restore the state before: {e}"))?;
            },
            S::Forget => { ur::clear_stack(c, 0); states = vec![m.s.clone()]; at = 0; }
            s => {
                if !undoable(s) { ur::clear_all_stacks(c); states = vec![m.s.clone()]; at = 0; }
                let r = command(c, &mut m, s, st, &mut weight).map_err(|e| format!("{what}: {e}"))?;
                reads(c, &m, i as u64).map_err(|e| format!("{what}: {e}"))?;
                if r.is_none() {
                    let e: Vec<_> = c.event_hub.subscribe_receiver().try_iter().filter(|e| matches!(e.origin, Origin::DirectAccess(_))).collect();
                    ensure!(e.is_empty(), "{what}: refused, yet announced {e:?}");
                } else {
                    if !undoable(s) { states = vec![m.s.clone()] }
                    else if depth > 0 { grouped += 1 }
                    else { states.truncate(at + 1); states.push(m.s.clone()); at += 1 }
                }
            }
        }
        if !matches!(s, S::Undo(_) | S::Redo(_)) { announced(c, &held, &m.s, matches!(s, S::Cancel), st).map_err(|e| format!("{what}: {e}"))? }
        if depth == 0 {
            ensure_eq!(ur::can_undo(c, None), at > 0, "{what}: can_undo");
            ensure_eq!(ur::can_redo(c, None), at + 1 < states.len(), "{what}: can_redo");
            ensure_eq!(ur::get_stack_size(c, 0), at, "{what}: undo steps");
        }
    }
    if weight || (undone && redone) { st.nontrivial() }
    Ok(())
}

fn kind() -> impl Strategy<Value = K> { prop_oneof![1 => Just(Root), 2 => Just(Doc), 5 => Just(Frame), 5 => Just(Block), 3 => Just(List), 2 => Just(Res), 4 => Just(Table), 4 => Just(Cell)] }
fn strat() -> impl Strategy<Value = Case> {
    let ps = || proptest::collection::vec(any::<u8>(), 0..4);
    let rl = || proptest::option::weighted(0.5, any::<[u8; 3]>());
    let bad = || proptest::bool::weighted(0.08);
    let s = prop_oneof![
        6 => (kind(), any::<u8>(), any::<bool>(), any::<u16>(), proptest::option::weighted(0.75, (any::<u8>(), -1i8..5)), rl()).prop_map(|(k, n, mu, s, o, r)| S::New(k, n, mu, s, o, r)),
        4 => (kind(), ps(), any::<bool>(), any::<u16>(), rl(), bad()).prop_map(|(k, p, mu, s, r, b)| S::Upd(k, p, mu, s, r, b)),
        3 => (kind(), ps(), any::<bool>(), bad()).prop_map(|(k, p, mu, b)| S::Del(k, p, mu, b)),
        4 => (kind(), any::<u8>(), any::<u8>(), ps(), bad()).prop_map(|(k, p, f, t, b)| S::Set(k, p, f, t, b)),
        3 => (kind(), any::<u8>(), any::<u8>(), ps(), -1i8..5).prop_map(|(k, p, f, t, i)| S::Move(k, p, f, t, i)),
        5 => any::<u8>().prop_map(S::Undo), 4 => any::<u8>().prop_map(S::Redo),
        1 => Just(S::Begin), 2 => Just(S::End), 1 => Just(S::Cancel), 1 => Just(S::Forget),
    ];
    proptest::collection::vec(s, 1..30).prop_map(|steps| Case { steps })
}
pub fn run(c: &mut Ctx) {
    let n = c.cases(40_000, 1_500_000);
    c.sub("store", n, strat, check);
}
