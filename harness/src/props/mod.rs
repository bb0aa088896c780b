//! Registry of the properties and the checks that decide them.
use crate::engine::Ctx;
pub mod cells;
pub mod cli;
pub mod coherence;
pub mod cursors;
pub mod docx;
pub mod events;
pub mod fragment;
pub mod highlight;
pub mod html;
pub mod latex;
pub mod load;
pub mod longops;
pub mod md;
pub mod meta;
pub mod model;
pub mod robust;
pub mod search;
pub mod stack;
pub mod stacks;
pub mod store;
pub mod store_api;
pub mod tabdoc;
pub mod tables;
pub mod threads;
pub mod undo;

pub struct Prop { pub id: &'static str, pub run: fn(&mut Ctx), pub rule: &'static str, pub assumptions: &'static [&'static str] }
pub const ALL: &[Prop] = &[
    Prop { id: "P01", run: model::text, rule: model::RULE, assumptions: &[] },
    Prop { id: "P02", run: undo::all, rule: undo::RULE, assumptions: &[] },
    Prop { id: "P03", run: stack::run, rule: stack::RULE, assumptions: &[] },
    Prop { id: "P04", run: coherence::all, rule: coherence::RULE, assumptions: &[] },
    Prop { id: "P05", run: cursors::run5, rule: cursors::RULE5, assumptions: &[] },
    Prop { id: "P06", run: cursors::run6, rule: cursors::RULE6, assumptions: &[] },
    Prop { id: "P07", run: model::chars, rule: model::RULE, assumptions: &[] },
    Prop { id: "P08", run: model::blocks, rule: model::RULE, assumptions: &[] },
    Prop { id: "P09", run: tables::run, rule: tables::RULE, assumptions: &[] },
    Prop { id: "P10", run: search::run, rule: search::RULE, assumptions: &[] },
    Prop { id: "P11", run: html::run, rule: html::RULE, assumptions: &[] },
    Prop { id: "P12", run: md::run, rule: md::RULE, assumptions: &[] },
    Prop { id: "P13", run: latex::run, rule: latex::RULE, assumptions: &[] },
    Prop { id: "P14", run: docx::run, rule: docx::RULE, assumptions: &[] },
    Prop { id: "P15", run: fragment::run, rule: fragment::RULE, assumptions: &[] },
    Prop { id: "P16", run: events::run, rule: events::RULE, assumptions: &[] },
    Prop { id: "P17", run: highlight::run, rule: highlight::RULE, assumptions: &[] },
    Prop { id: "P18", run: robust::run, rule: robust::RULE, assumptions: &[] },
    Prop { id: "P19", run: longops::run, rule: longops::RULE, assumptions: &[] },
    Prop { id: "P20", run: store::run, rule: store::RULE, assumptions: &[] },
    Prop { id: "P21", run: meta::run, rule: meta::RULE, assumptions: &[] },
    Prop { id: "P22", run: stacks::run, rule: stacks::RULE, assumptions: &[] },
    Prop { id: "P23", run: threads::run, rule: threads::RULE, assumptions: &[] },
    Prop { id: "P24", run: cli::run, rule: cli::RULE, assumptions: &[] },
    Prop { id: "P25", run: load::run, rule: load::RULE, assumptions: &[] },
    Prop { id: "P26", run: cells::run, rule: cells::RULE, assumptions: &[] },
];
pub fn get(id: &str) -> Option<&'static Prop> { ALL.iter().find(|p| p.id == id) }
