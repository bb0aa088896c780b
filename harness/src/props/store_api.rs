//! The entity commands of the frontend crate behind one interface over JSON
//! records, so that one model covers all eight kinds of entity.
use frontend::{AppContext, EntityId};
use serde_json::Value;
use std::collections::HashMap;

pub type Res<T> = Result<T, String>;
fn d<T: serde::de::DeserializeOwned>(v: &Value) -> T { serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("harness: {e} in {v}")) }
fn s<T: serde::Serialize>(v: T) -> Value { serde_json::to_value(v).unwrap() }
fn e<T>(r: frontend::Result<T>) -> Res<T> { r.map_err(|e| format!("{e:#}")) }

pub struct Api {
    pub create_orphan: fn(&AppContext, &Value) -> Res<Value>,
    pub create_orphan_multi: fn(&AppContext, &[Value]) -> Res<Vec<Value>>,
    pub create: fn(&AppContext, &Value, EntityId, i32) -> Res<Value>,
    pub create_multi: fn(&AppContext, &[Value], EntityId, i32) -> Res<Vec<Value>>,
    pub get: fn(&AppContext, EntityId) -> Res<Option<Value>>,
    pub get_multi: fn(&AppContext, &[EntityId]) -> Res<Vec<Option<Value>>>,
    pub get_all: fn(&AppContext) -> Res<Vec<Value>>,
    pub update: fn(&AppContext, &Value) -> Res<Value>,
    pub update_multi: fn(&AppContext, &[Value]) -> Res<Vec<Value>>,
    pub update_rel: fn(&AppContext, &Value) -> Res<Value>,
    pub update_rel_multi: fn(&AppContext, &[Value]) -> Res<Vec<Value>>,
    pub remove: fn(&AppContext, EntityId) -> Res<()>,
    pub remove_multi: fn(&AppContext, &[EntityId]) -> Res<()>,
    pub rel: fn(&AppContext, EntityId, usize) -> Res<Vec<EntityId>>,
    pub rel_many: fn(&AppContext, &[EntityId], usize) -> Res<HashMap<EntityId, Vec<EntityId>>>,
    pub rel_count: fn(&AppContext, EntityId, usize) -> Res<usize>,
    pub rel_range: fn(&AppContext, EntityId, usize, usize, usize) -> Res<Vec<EntityId>>,
    pub set: fn(&AppContext, EntityId, usize, &[EntityId]) -> Res<()>,
    pub mv: fn(&AppContext, EntityId, usize, &[EntityId], i32) -> Res<Vec<EntityId>>,
}

const F_ROOT: [frontend::root::dtos::RootRelationshipField; 1] = [frontend::root::dtos::RootRelationshipField::Document];
pub static ROOT: Api = Api {
    create_orphan: |c, v| e(frontend::commands::root_commands::create_orphan_root(c, &d::<frontend::root::dtos::CreateRootDto>(v))).map(s),
    create_orphan_multi: |c, v| e(frontend::commands::root_commands::create_orphan_root_multi(c, &v.iter().map(d).collect::<Vec<frontend::root::dtos::CreateRootDto>>())).map(|r| r.into_iter().map(s).collect()),
    create: |_, _, _, _| unreachable!(),
    create_multi: |_, _, _, _| unreachable!(),
    get: |c, i| e(frontend::commands::root_commands::get_root(c, &i)).map(|r| r.map(s)),
    get_multi: |c, i| e(frontend::commands::root_commands::get_root_multi(c, i)).map(|r| r.into_iter().map(|x| x.map(s)).collect()),
    get_all: |c| e(frontend::commands::root_commands::get_all_root(c)).map(|r| r.into_iter().map(s).collect()),
    update: |c, v| e(frontend::commands::root_commands::update_root(c, &d::<frontend::root::dtos::UpdateRootDto>(v))).map(s),
    update_multi: |c, v| e(frontend::commands::root_commands::update_root_multi(c, &v.iter().map(d).collect::<Vec<frontend::root::dtos::UpdateRootDto>>())).map(|r| r.into_iter().map(s).collect()),
    update_rel: |c, v| e(frontend::commands::root_commands::update_root_with_relationships(c, &d::<frontend::root::dtos::RootDto>(v))).map(s),
    update_rel_multi: |c, v| e(frontend::commands::root_commands::update_root_with_relationships_multi(c, &v.iter().map(d).collect::<Vec<frontend::root::dtos::RootDto>>())).map(|r| r.into_iter().map(s).collect()),
    remove: |c, i| e(frontend::commands::root_commands::remove_root(c, &i)),
    remove_multi: |c, i| e(frontend::commands::root_commands::remove_root_multi(c, i)),
    rel: |c, i, f| e(frontend::commands::root_commands::get_root_relationship(c, &i, &F_ROOT[f])),
    rel_many: |c, i, f| e(frontend::commands::root_commands::get_root_relationship_many(c, i, &F_ROOT[f])),
    rel_count: |c, i, f| e(frontend::commands::root_commands::get_root_relationship_count(c, &i, &F_ROOT[f])),
    rel_range: |c, i, f, a, n| e(frontend::commands::root_commands::get_root_relationship_in_range(c, &i, &F_ROOT[f], a, n)),
    set: |c, i, f, r| e(frontend::commands::root_commands::set_root_relationship(c, &frontend::root::dtos::RootRelationshipDto { id: i, field: F_ROOT[f].clone(), right_ids: r.to_vec() })),
    mv: |c, i, f, r, x| e(frontend::commands::root_commands::move_root_relationship(c, &i, &F_ROOT[f], r, x)),
};
const F_DOCUMENT: [frontend::document::dtos::DocumentRelationshipField; 4] = [frontend::document::dtos::DocumentRelationshipField::Frames, frontend::document::dtos::DocumentRelationshipField::Lists, frontend::document::dtos::DocumentRelationshipField::Resources, frontend::document::dtos::DocumentRelationshipField::Tables];
pub static DOCUMENT: Api = Api {
    create_orphan: |c, v| e(frontend::commands::document_commands::create_orphan_document(c, None, &d::<frontend::document::dtos::CreateDocumentDto>(v))).map(s),
    create_orphan_multi: |c, v| e(frontend::commands::document_commands::create_orphan_document_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::document::dtos::CreateDocumentDto>>())).map(|r| r.into_iter().map(s).collect()),
    create: |c, v, o, i| e(frontend::commands::document_commands::create_document(c, None, &d::<frontend::document::dtos::CreateDocumentDto>(v), o, i)).map(s),
    create_multi: |c, v, o, i| e(frontend::commands::document_commands::create_document_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::document::dtos::CreateDocumentDto>>(), o, i)).map(|r| r.into_iter().map(s).collect()),
    get: |c, i| e(frontend::commands::document_commands::get_document(c, &i)).map(|r| r.map(s)),
    get_multi: |c, i| e(frontend::commands::document_commands::get_document_multi(c, i)).map(|r| r.into_iter().map(|x| x.map(s)).collect()),
    get_all: |c| e(frontend::commands::document_commands::get_all_document(c)).map(|r| r.into_iter().map(s).collect()),
    update: |c, v| e(frontend::commands::document_commands::update_document(c, None, &d::<frontend::document::dtos::UpdateDocumentDto>(v))).map(s),
    update_multi: |c, v| e(frontend::commands::document_commands::update_document_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::document::dtos::UpdateDocumentDto>>())).map(|r| r.into_iter().map(s).collect()),
    update_rel: |c, v| e(frontend::commands::document_commands::update_document_with_relationships(c, None, &d::<frontend::document::dtos::DocumentDto>(v))).map(s),
    update_rel_multi: |c, v| e(frontend::commands::document_commands::update_document_with_relationships_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::document::dtos::DocumentDto>>())).map(|r| r.into_iter().map(s).collect()),
    remove: |c, i| e(frontend::commands::document_commands::remove_document(c, None, &i)),
    remove_multi: |c, i| e(frontend::commands::document_commands::remove_document_multi(c, None, i)),
    rel: |c, i, f| e(frontend::commands::document_commands::get_document_relationship(c, &i, &F_DOCUMENT[f])),
    rel_many: |c, i, f| e(frontend::commands::document_commands::get_document_relationship_many(c, i, &F_DOCUMENT[f])),
    rel_count: |c, i, f| e(frontend::commands::document_commands::get_document_relationship_count(c, &i, &F_DOCUMENT[f])),
    rel_range: |c, i, f, a, n| e(frontend::commands::document_commands::get_document_relationship_in_range(c, &i, &F_DOCUMENT[f], a, n)),
    set: |c, i, f, r| e(frontend::commands::document_commands::set_document_relationship(c, None, &frontend::document::dtos::DocumentRelationshipDto { id: i, field: F_DOCUMENT[f].clone(), right_ids: r.to_vec() })),
    mv: |c, i, f, r, x| e(frontend::commands::document_commands::move_document_relationship(c, None, &i, &F_DOCUMENT[f], r, x)),
};
const F_FRAME: [frontend::frame::dtos::FrameRelationshipField; 3] = [frontend::frame::dtos::FrameRelationshipField::Blocks, frontend::frame::dtos::FrameRelationshipField::ParentFrame, frontend::frame::dtos::FrameRelationshipField::Table];
pub static FRAME: Api = Api {
    create_orphan: |c, v| e(frontend::commands::frame_commands::create_orphan_frame(c, None, &d::<frontend::frame::dtos::CreateFrameDto>(v))).map(s),
    create_orphan_multi: |c, v| e(frontend::commands::frame_commands::create_orphan_frame_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::frame::dtos::CreateFrameDto>>())).map(|r| r.into_iter().map(s).collect()),
    create: |c, v, o, i| e(frontend::commands::frame_commands::create_frame(c, None, &d::<frontend::frame::dtos::CreateFrameDto>(v), o, i)).map(s),
    create_multi: |c, v, o, i| e(frontend::commands::frame_commands::create_frame_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::frame::dtos::CreateFrameDto>>(), o, i)).map(|r| r.into_iter().map(s).collect()),
    get: |c, i| e(frontend::commands::frame_commands::get_frame(c, &i)).map(|r| r.map(s)),
    get_multi: |c, i| e(frontend::commands::frame_commands::get_frame_multi(c, i)).map(|r| r.into_iter().map(|x| x.map(s)).collect()),
    get_all: |c| e(frontend::commands::frame_commands::get_all_frame(c)).map(|r| r.into_iter().map(s).collect()),
    update: |c, v| e(frontend::commands::frame_commands::update_frame(c, None, &d::<frontend::frame::dtos::UpdateFrameDto>(v))).map(s),
    update_multi: |c, v| e(frontend::commands::frame_commands::update_frame_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::frame::dtos::UpdateFrameDto>>())).map(|r| r.into_iter().map(s).collect()),
    update_rel: |c, v| e(frontend::commands::frame_commands::update_frame_with_relationships(c, None, &d::<frontend::frame::dtos::FrameDto>(v))).map(s),
    update_rel_multi: |c, v| e(frontend::commands::frame_commands::update_frame_with_relationships_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::frame::dtos::FrameDto>>())).map(|r| r.into_iter().map(s).collect()),
    remove: |c, i| e(frontend::commands::frame_commands::remove_frame(c, None, &i)),
    remove_multi: |c, i| e(frontend::commands::frame_commands::remove_frame_multi(c, None, i)),
    rel: |c, i, f| e(frontend::commands::frame_commands::get_frame_relationship(c, &i, &F_FRAME[f])),
    rel_many: |c, i, f| e(frontend::commands::frame_commands::get_frame_relationship_many(c, i, &F_FRAME[f])),
    rel_count: |c, i, f| e(frontend::commands::frame_commands::get_frame_relationship_count(c, &i, &F_FRAME[f])),
    rel_range: |c, i, f, a, n| e(frontend::commands::frame_commands::get_frame_relationship_in_range(c, &i, &F_FRAME[f], a, n)),
    set: |c, i, f, r| e(frontend::commands::frame_commands::set_frame_relationship(c, None, &frontend::frame::dtos::FrameRelationshipDto { id: i, field: F_FRAME[f].clone(), right_ids: r.to_vec() })),
    mv: |c, i, f, r, x| e(frontend::commands::frame_commands::move_frame_relationship(c, None, &i, &F_FRAME[f], r, x)),
};
const F_BLOCK: [frontend::block::dtos::BlockRelationshipField; 1] = [frontend::block::dtos::BlockRelationshipField::List];
pub static BLOCK: Api = Api {
    create_orphan: |c, v| e(frontend::commands::block_commands::create_orphan_block(c, None, &d::<frontend::block::dtos::CreateBlockDto>(v))).map(s),
    create_orphan_multi: |c, v| e(frontend::commands::block_commands::create_orphan_block_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::block::dtos::CreateBlockDto>>())).map(|r| r.into_iter().map(s).collect()),
    create: |c, v, o, i| e(frontend::commands::block_commands::create_block(c, None, &d::<frontend::block::dtos::CreateBlockDto>(v), o, i)).map(s),
    create_multi: |c, v, o, i| e(frontend::commands::block_commands::create_block_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::block::dtos::CreateBlockDto>>(), o, i)).map(|r| r.into_iter().map(s).collect()),
    get: |c, i| e(frontend::commands::block_commands::get_block(c, &i)).map(|r| r.map(s)),
    get_multi: |c, i| e(frontend::commands::block_commands::get_block_multi(c, i)).map(|r| r.into_iter().map(|x| x.map(s)).collect()),
    get_all: |c| e(frontend::commands::block_commands::get_all_block(c)).map(|r| r.into_iter().map(s).collect()),
    update: |c, v| e(frontend::commands::block_commands::update_block(c, None, &d::<frontend::block::dtos::UpdateBlockDto>(v))).map(s),
    update_multi: |c, v| e(frontend::commands::block_commands::update_block_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::block::dtos::UpdateBlockDto>>())).map(|r| r.into_iter().map(s).collect()),
    update_rel: |c, v| e(frontend::commands::block_commands::update_block_with_relationships(c, None, &d::<frontend::block::dtos::BlockDto>(v))).map(s),
    update_rel_multi: |c, v| e(frontend::commands::block_commands::update_block_with_relationships_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::block::dtos::BlockDto>>())).map(|r| r.into_iter().map(s).collect()),
    remove: |c, i| e(frontend::commands::block_commands::remove_block(c, None, &i)),
    remove_multi: |c, i| e(frontend::commands::block_commands::remove_block_multi(c, None, i)),
    rel: |c, i, f| e(frontend::commands::block_commands::get_block_relationship(c, &i, &F_BLOCK[f])),
    rel_many: |c, i, f| e(frontend::commands::block_commands::get_block_relationship_many(c, i, &F_BLOCK[f])),
    rel_count: |c, i, f| e(frontend::commands::block_commands::get_block_relationship_count(c, &i, &F_BLOCK[f])),
    rel_range: |c, i, f, a, n| e(frontend::commands::block_commands::get_block_relationship_in_range(c, &i, &F_BLOCK[f], a, n)),
    set: |c, i, f, r| e(frontend::commands::block_commands::set_block_relationship(c, None, &frontend::block::dtos::BlockRelationshipDto { id: i, field: F_BLOCK[f].clone(), right_ids: r.to_vec() })),
    mv: |c, i, f, r, x| e(frontend::commands::block_commands::move_block_relationship(c, None, &i, &F_BLOCK[f], r, x)),
};
pub static LIST: Api = Api {
    create_orphan: |c, v| e(frontend::commands::list_commands::create_orphan_list(c, None, &d::<frontend::list::dtos::CreateListDto>(v))).map(s),
    create_orphan_multi: |c, v| e(frontend::commands::list_commands::create_orphan_list_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::list::dtos::CreateListDto>>())).map(|r| r.into_iter().map(s).collect()),
    create: |c, v, o, i| e(frontend::commands::list_commands::create_list(c, None, &d::<frontend::list::dtos::CreateListDto>(v), o, i)).map(s),
    create_multi: |c, v, o, i| e(frontend::commands::list_commands::create_list_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::list::dtos::CreateListDto>>(), o, i)).map(|r| r.into_iter().map(s).collect()),
    get: |c, i| e(frontend::commands::list_commands::get_list(c, &i)).map(|r| r.map(s)),
    get_multi: |c, i| e(frontend::commands::list_commands::get_list_multi(c, i)).map(|r| r.into_iter().map(|x| x.map(s)).collect()),
    get_all: |c| e(frontend::commands::list_commands::get_all_list(c)).map(|r| r.into_iter().map(s).collect()),
    update: |c, v| e(frontend::commands::list_commands::update_list(c, None, &d::<frontend::list::dtos::UpdateListDto>(v))).map(s),
    update_multi: |c, v| e(frontend::commands::list_commands::update_list_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::list::dtos::UpdateListDto>>())).map(|r| r.into_iter().map(s).collect()),
    update_rel: |c, v| e(frontend::commands::list_commands::update_list_with_relationships(c, None, &d::<frontend::list::dtos::ListDto>(v))).map(s),
    update_rel_multi: |c, v| e(frontend::commands::list_commands::update_list_with_relationships_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::list::dtos::ListDto>>())).map(|r| r.into_iter().map(s).collect()),
    remove: |c, i| e(frontend::commands::list_commands::remove_list(c, None, &i)),
    remove_multi: |c, i| e(frontend::commands::list_commands::remove_list_multi(c, None, i)),
    rel: |_, _, _| unreachable!(),
    rel_many: |_, _, _| unreachable!(),
    rel_count: |_, _, _| unreachable!(),
    rel_range: |_, _, _, _, _| unreachable!(),
    set: |_, _, _, _| unreachable!(),
    mv: |_, _, _, _, _| unreachable!(),
};
pub static RESOURCE: Api = Api {
    create_orphan: |c, v| e(frontend::commands::resource_commands::create_orphan_resource(c, None, &d::<frontend::resource::dtos::CreateResourceDto>(v))).map(s),
    create_orphan_multi: |c, v| e(frontend::commands::resource_commands::create_orphan_resource_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::resource::dtos::CreateResourceDto>>())).map(|r| r.into_iter().map(s).collect()),
    create: |c, v, o, i| e(frontend::commands::resource_commands::create_resource(c, None, &d::<frontend::resource::dtos::CreateResourceDto>(v), o, i)).map(s),
    create_multi: |c, v, o, i| e(frontend::commands::resource_commands::create_resource_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::resource::dtos::CreateResourceDto>>(), o, i)).map(|r| r.into_iter().map(s).collect()),
    get: |c, i| e(frontend::commands::resource_commands::get_resource(c, &i)).map(|r| r.map(s)),
    get_multi: |c, i| e(frontend::commands::resource_commands::get_resource_multi(c, i)).map(|r| r.into_iter().map(|x| x.map(s)).collect()),
    get_all: |c| e(frontend::commands::resource_commands::get_all_resource(c)).map(|r| r.into_iter().map(s).collect()),
    update: |c, v| e(frontend::commands::resource_commands::update_resource(c, None, &d::<frontend::resource::dtos::UpdateResourceDto>(v))).map(s),
    update_multi: |c, v| e(frontend::commands::resource_commands::update_resource_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::resource::dtos::UpdateResourceDto>>())).map(|r| r.into_iter().map(s).collect()),
    update_rel: |c, v| e(frontend::commands::resource_commands::update_resource_with_relationships(c, None, &d::<frontend::resource::dtos::ResourceDto>(v))).map(s),
    update_rel_multi: |c, v| e(frontend::commands::resource_commands::update_resource_with_relationships_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::resource::dtos::ResourceDto>>())).map(|r| r.into_iter().map(s).collect()),
    remove: |c, i| e(frontend::commands::resource_commands::remove_resource(c, None, &i)),
    remove_multi: |c, i| e(frontend::commands::resource_commands::remove_resource_multi(c, None, i)),
    rel: |_, _, _| unreachable!(),
    rel_many: |_, _, _| unreachable!(),
    rel_count: |_, _, _| unreachable!(),
    rel_range: |_, _, _, _, _| unreachable!(),
    set: |_, _, _, _| unreachable!(),
    mv: |_, _, _, _, _| unreachable!(),
};
const F_TABLE: [frontend::table::dtos::TableRelationshipField; 1] = [frontend::table::dtos::TableRelationshipField::Cells];
pub static TABLE: Api = Api {
    create_orphan: |c, v| e(frontend::commands::table_commands::create_orphan_table(c, None, &d::<frontend::table::dtos::CreateTableDto>(v))).map(s),
    create_orphan_multi: |c, v| e(frontend::commands::table_commands::create_orphan_table_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::table::dtos::CreateTableDto>>())).map(|r| r.into_iter().map(s).collect()),
    create: |c, v, o, i| e(frontend::commands::table_commands::create_table(c, None, &d::<frontend::table::dtos::CreateTableDto>(v), o, i)).map(s),
    create_multi: |c, v, o, i| e(frontend::commands::table_commands::create_table_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::table::dtos::CreateTableDto>>(), o, i)).map(|r| r.into_iter().map(s).collect()),
    get: |c, i| e(frontend::commands::table_commands::get_table(c, &i)).map(|r| r.map(s)),
    get_multi: |c, i| e(frontend::commands::table_commands::get_table_multi(c, i)).map(|r| r.into_iter().map(|x| x.map(s)).collect()),
    get_all: |c| e(frontend::commands::table_commands::get_all_table(c)).map(|r| r.into_iter().map(s).collect()),
    update: |c, v| e(frontend::commands::table_commands::update_table(c, None, &d::<frontend::table::dtos::UpdateTableDto>(v))).map(s),
    update_multi: |c, v| e(frontend::commands::table_commands::update_table_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::table::dtos::UpdateTableDto>>())).map(|r| r.into_iter().map(s).collect()),
    update_rel: |c, v| e(frontend::commands::table_commands::update_table_with_relationships(c, None, &d::<frontend::table::dtos::TableDto>(v))).map(s),
    update_rel_multi: |c, v| e(frontend::commands::table_commands::update_table_with_relationships_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::table::dtos::TableDto>>())).map(|r| r.into_iter().map(s).collect()),
    remove: |c, i| e(frontend::commands::table_commands::remove_table(c, None, &i)),
    remove_multi: |c, i| e(frontend::commands::table_commands::remove_table_multi(c, None, i)),
    rel: |c, i, f| e(frontend::commands::table_commands::get_table_relationship(c, &i, &F_TABLE[f])),
    rel_many: |c, i, f| e(frontend::commands::table_commands::get_table_relationship_many(c, i, &F_TABLE[f])),
    rel_count: |c, i, f| e(frontend::commands::table_commands::get_table_relationship_count(c, &i, &F_TABLE[f])),
    rel_range: |c, i, f, a, n| e(frontend::commands::table_commands::get_table_relationship_in_range(c, &i, &F_TABLE[f], a, n)),
    set: |c, i, f, r| e(frontend::commands::table_commands::set_table_relationship(c, None, &frontend::table::dtos::TableRelationshipDto { id: i, field: F_TABLE[f].clone(), right_ids: r.to_vec() })),
    mv: |c, i, f, r, x| e(frontend::commands::table_commands::move_table_relationship(c, None, &i, &F_TABLE[f], r, x)),
};
const F_TABLECELL: [frontend::table_cell::dtos::TableCellRelationshipField; 1] = [frontend::table_cell::dtos::TableCellRelationshipField::CellFrame];
pub static TABLE_CELL: Api = Api {
    create_orphan: |c, v| e(frontend::commands::table_cell_commands::create_orphan_table_cell(c, None, &d::<frontend::table_cell::dtos::CreateTableCellDto>(v))).map(s),
    create_orphan_multi: |c, v| e(frontend::commands::table_cell_commands::create_orphan_table_cell_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::table_cell::dtos::CreateTableCellDto>>())).map(|r| r.into_iter().map(s).collect()),
    create: |c, v, o, i| e(frontend::commands::table_cell_commands::create_table_cell(c, None, &d::<frontend::table_cell::dtos::CreateTableCellDto>(v), o, i)).map(s),
    create_multi: |c, v, o, i| e(frontend::commands::table_cell_commands::create_table_cell_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::table_cell::dtos::CreateTableCellDto>>(), o, i)).map(|r| r.into_iter().map(s).collect()),
    get: |c, i| e(frontend::commands::table_cell_commands::get_table_cell(c, &i)).map(|r| r.map(s)),
    get_multi: |c, i| e(frontend::commands::table_cell_commands::get_table_cell_multi(c, i)).map(|r| r.into_iter().map(|x| x.map(s)).collect()),
    get_all: |c| e(frontend::commands::table_cell_commands::get_all_table_cell(c)).map(|r| r.into_iter().map(s).collect()),
    update: |c, v| e(frontend::commands::table_cell_commands::update_table_cell(c, None, &d::<frontend::table_cell::dtos::UpdateTableCellDto>(v))).map(s),
    update_multi: |c, v| e(frontend::commands::table_cell_commands::update_table_cell_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::table_cell::dtos::UpdateTableCellDto>>())).map(|r| r.into_iter().map(s).collect()),
    update_rel: |c, v| e(frontend::commands::table_cell_commands::update_table_cell_with_relationships(c, None, &d::<frontend::table_cell::dtos::TableCellDto>(v))).map(s),
    update_rel_multi: |c, v| e(frontend::commands::table_cell_commands::update_table_cell_with_relationships_multi(c, None, &v.iter().map(d).collect::<Vec<frontend::table_cell::dtos::TableCellDto>>())).map(|r| r.into_iter().map(s).collect()),
    remove: |c, i| e(frontend::commands::table_cell_commands::remove_table_cell(c, None, &i)),
    remove_multi: |c, i| e(frontend::commands::table_cell_commands::remove_table_cell_multi(c, None, i)),
    rel: |c, i, f| e(frontend::commands::table_cell_commands::get_table_cell_relationship(c, &i, &F_TABLECELL[f])),
    rel_many: |c, i, f| e(frontend::commands::table_cell_commands::get_table_cell_relationship_many(c, i, &F_TABLECELL[f])),
    rel_count: |c, i, f| e(frontend::commands::table_cell_commands::get_table_cell_relationship_count(c, &i, &F_TABLECELL[f])),
    rel_range: |c, i, f, a, n| e(frontend::commands::table_cell_commands::get_table_cell_relationship_in_range(c, &i, &F_TABLECELL[f], a, n)),
    set: |c, i, f, r| e(frontend::commands::table_cell_commands::set_table_cell_relationship(c, None, &frontend::table_cell::dtos::TableCellRelationshipDto { id: i, field: F_TABLECELL[f].clone(), right_ids: r.to_vec() })),
    mv: |c, i, f, r, x| e(frontend::commands::table_cell_commands::move_table_cell_relationship(c, None, &i, &F_TABLECELL[f], r, x)),
};
