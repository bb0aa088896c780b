# Source of properties.jsonl and MANIFEST.json (run tools/mkprops.py).
N = "Exploration: a fixed number of seeded cases per run, no proof of absence. "
PROPS = [
 dict(id="P02", title="Undo and redo restore the document exactly",
  statement="Undoing every step of an editing history brings the document back through the states it had before each step (text, positions, formats, lists, counters, exports) to the initial state, and redoing brings it forward through the same states to the final one. Consecutive typing or single-character deletions may share one step, an edit block is always one step, and no other steps are fused, skipped or left half undone.",
  over=["histories"], for_all="all sequences of editing calls (typing, deleting, pasting, formatting, lists, replace, nested edit blocks) on documents of top-level paragraphs, undone and redone completely",
  why="Existing tests undo one or two hand-picked calls and mostly compare plain text; the interaction of inverse records, whole-document snapshots, step merging and re-execution on redo only shows over long mixed histories.",
  files=["crates/common/src/undo_redo.rs","crates/document_editing/src/use_cases/insert_text_uc.rs","crates/document_editing/src/use_cases/delete_text_uc.rs","crates/common/src/database/rope_store.rs"],
  mech=[("undo/redo manager with composites and merging","crates/common/src/undo_redo.rs"),("snapshot/restore of the document tree and rope","crates/common/src/database"),("inverse records of insert_text and format commands","crates/document_editing, crates/document_formatting")],
  observe=["TextDocument::undo/redo/can_undo/can_redo","TextDocument::snapshot_flow","TextDocument::to_html/to_markdown/to_latex/to_plain_text","TextDocument::stats"],
  technique="property-based testing: random editing histories, recorded-state oracle over complete undo and redo, shrinking",
  note=N+"Oracle: the states observed on the way forward. Known finding: redo of a command naming a list, block or table re-created by an earlier redo fails; exactly that error is tolerated in generated histories."),
 dict(id="P04", title="All read APIs agree on one position space",
  statement="After any editing history on a document of top-level paragraphs, the plain text, the flow, the block list, the per-block and per-position queries, the counters and the cursor predicates all describe the same sequence of blocks: block positions are the running sum of block lengths plus one separator each, fragments tile each block's text, and every position resolves to the block that contains it.",
  over=["histories"], for_all="all sequences of editing calls from all initial texts, probing block boundaries and interior positions after each call",
  why="Positions are derived in several places (rope, offset index, stored fields) that only drift apart after particular sequences; unit tests check single calls from a fresh document.",
  files=["crates/public_api/src/document.rs","crates/public_api/src/text_block.rs","crates/public_api/src/text_frame.rs","crates/common/src/database/rope_helpers.rs","crates/common/src/database/block_offset_index.rs"],
  mech=[("rope plus block offset index","crates/common/src/database"),("position refresh in readers","crates/public_api/src/inner.rs")],
  observe=["TextDocument::blocks/snapshot_flow/to_plain_text/stats/block_at/text_at/blocks_in_range/snapshot_block_at_position","TextBlock accessors","TextCursor::at_block_start/at_block_end/block_number/position_in_block"],
  technique="property-based testing: random editing histories with a cross-API consistency invariant after every step",
  note=N+"Documents of top-level paragraphs without images; tables are covered by the table property."),
 dict(id="P01", title="Every edit does to the text exactly what it says",
  statement="Typing, inserting formatted text, splitting a paragraph, deleting a character (one grapheme cluster) or a selection, pasting plain or rich fragments, copying and replacing each change the sequence of paragraphs exactly as the same splice on a list of strings would: nothing outside the edited range changes, no character is lost, duplicated or reordered, an active selection is replaced first, and the editing cursor ends right after what was inserted (or where the deletion happened) with no selection left.",
  over=["histories"], for_all="all sequences of editing calls with any cursor position or selection (either direction, across paragraphs), on documents of top-level paragraphs containing any Unicode text",
  why="Unit tests check single calls on a fresh short document; byte/char/grapheme arithmetic and the rope mirror go wrong only at particular boundaries, after particular edits, or with multi-byte text.",
  files=["crates/public_api/src/cursor.rs","crates/document_editing/src/use_cases/insert_text_uc.rs","crates/document_editing/src/use_cases/delete_text_uc.rs","crates/document_editing/src/use_cases/insert_block_uc.rs","crates/document_editing/src/use_cases/insert_fragment_uc.rs","crates/common/src/database/rope_helpers.rs"],
  mech=[("editing use cases over the rope","crates/document_editing/src/use_cases"),("rope edit helpers","crates/common/src/database/rope_helpers.rs")],
  observe=["TextCursor editing methods, position/anchor","TextDocument::to_plain_text/blocks/snapshot_flow/character_count/block_count"],
  technique="model-based property testing: random editing histories against a naive list-of-paragraphs reference model, compared after every call",
  note=N+"Top-level paragraphs; images, frames and tables are excluded. Overlapping literal replacements are skipped (recorded under P10)."),
 dict(id="P07", title="Character formats stick to their characters",
  statement="Every character carries its own format: editing elsewhere never changes it, deleting removes it with the character, copy and paste carries it along, set_char_format and merge_char_format change exactly the named attributes on exactly the selected characters, typed text takes the format of the character before it in its paragraph, and formatted insertion gives the inserted text (only) the requested format. Fragments tile each block with exactly these formats, and char_format reports them.",
  over=["histories"], for_all="all sequences of editing and formatting calls over any selections on documents of top-level paragraphs with any Unicode text",
  why="Format runs are byte ranges maintained by separate splice/shift/split code for each command; off-by-one and merge mistakes only show in particular run layouts that follow particular edits.",
  files=["crates/common/src/format_runs.rs","crates/document_formatting/src/use_cases/set_text_format_uc.rs","crates/document_formatting/src/use_cases/merge_text_format_uc.rs","crates/document_editing/src/use_cases/insert_formatted_text_uc.rs","crates/document_editing/src/use_cases/insert_fragment_uc.rs"],
  mech=[("format run splice, shift, split and coalesce","crates/common/src/format_runs.rs"),("formatting use cases","crates/document_formatting/src/use_cases")],
  observe=["TextBlock::fragments/char_format_at","TextCursor::char_format","TextDocument::snapshot_flow"],
  technique="model-based property testing: random editing and formatting histories against a per-character-format reference model, compared after every call",
  note=N+"Compares all TextFormat attributes except colours, which the setters do not take. Unset booleans of insert_formatted_text are stored as off."),
 dict(id="P08", title="Paragraph formats and list membership follow their paragraphs",
  statement="Block formats and list membership belong to paragraphs: set_block_format changes exactly the named attributes on exactly the paragraphs the selection (or caret) touches, splitting gives both halves the format and list, joining keeps the first paragraph's, pasting keeps the pasted paragraphs' own and groups consecutive pasted items into one list per style and level, and list commands change only the paragraphs they name. Item numbers count a list's paragraphs in document order and every marker is the list's style applied to that number.",
  over=["histories"], for_all="all sequences of editing, block-format and list calls on documents of top-level paragraphs",
  why="Lists and formats are separate entities referenced from blocks and rewritten by every structural command; unit tests cover one list and one command at a time.",
  files=["crates/document_formatting/src/use_cases/set_block_format_uc.rs","crates/document_editing/src/use_cases/create_list_uc.rs","crates/document_editing/src/use_cases/insert_list_uc.rs","crates/document_editing/src/use_cases/insert_fragment_uc.rs","crates/public_api/src/text_list.rs","crates/public_api/src/text_block.rs"],
  mech=[("block format setter","crates/document_formatting"),("list commands and list grouping on paste","crates/document_editing"),("marker formatting","crates/public_api/src/text_block.rs")],
  observe=["TextBlock::block_format/list/list_item_index/snapshot","TextList accessors","TextDocument::snapshot_flow"],
  technique="model-based property testing: random editing, block-format and list histories against a reference model with an independent marker formatter, compared after every call",
  note=N+"Tab positions are not compared (the setters do not take them)."),
 dict(id="P05", title="Cursors that do not edit stay with their text",
  statement="When one cursor edits, every other cursor keeps pointing at the text it pointed at: positions and anchors before the edit do not move, those inside replaced text go to the end of what replaced it, and those behind it move by exactly the change in length. No cursor is ever left outside the document by an edit made through a cursor.",
  over=["histories"], for_all="all sequences of edits through 2 to 4 cursors with any positions and selections on documents of top-level paragraphs",
  why="Every editing command computes its own adjustment; unit tests look at one bystander after one call.",
  files=["crates/public_api/src/inner.rs","crates/public_api/src/cursor.rs"],
  mech=[("cursor registry adjustment after each edit","crates/public_api/src/inner.rs"),("per-command edit extents","crates/public_api/src/cursor.rs")],
  observe=["TextCursor::position/anchor of every live cursor"],
  technique="model-based property testing: random multi-cursor editing histories against a reference splice model, all cursors compared after every edit",
  note=N+"Undo, redo, replace_text and whole-document setters do not adjust cursors and are not generated here."),
 dict(id="P06", title="Cursor movement follows paragraphs, graphemes and words",
  statement="Every movement operation ends where its name says, from any position of any document: character moves step over whole grapheme clusters and paragraph separators one at a time, block and document moves go to the paragraph and document limits, word moves go to Unicode word boundaries, KeepAnchor extends the selection from an unmoved anchor, selected_text is exactly the text between anchor and position, and selecting a word, paragraph or the document selects that.",
  over=["inputs","histories"], for_all="all documents of top-level paragraphs with any Unicode text and all walks of movements, positionings and selections",
  why="Movement works on positions that mix scalar values, grapheme clusters and words; unit tests use short ASCII text.",
  files=["crates/public_api/src/cursor.rs"],
  mech=[("cursor movement and grapheme snapping","crates/public_api/src/cursor.rs")],
  observe=["TextCursor::move_position/set_position/select/position/anchor/selected_text/at_start/at_end/has_selection"],
  technique="model-based property testing: random walks over randomly edited documents against a reference navigator",
  note=N+"A word move scans at most 64 characters (moves across longer gaps are skipped); Up and Down are block moves without a layout."),
 dict(id="P09", title="A table is always an exact grid, and structure edits keep its contents",
  statement="At every moment each position of a table's rows and columns belongs to exactly one cell. Inserting a row or column moves the cells after it and widens merged cells that span the place; removing one removes exactly its unmerged cells and shortens the spanning ones, and the last row or column cannot be removed; merging accepts only ranges of unmerged cells inside the table and keeps the first cell's contents; splitting divides a merged cell into as many cells as asked; indices outside the table and impossible splits are refused and change nothing. Every other cell keeps its paragraphs and format, the table its format and column widths, and the paragraphs around the table stay as they are. Typing, Enter and Delete inside a cell change that cell's paragraphs only. Table and cell handles, snapshot_flow, statistics, counts and the HTML export all show that same table, and each step is undone and redone exactly.",
  over=["histories","inputs"], for_all="all histories of row, column, merge, split, format, typing, Enter, Delete, remove, undo and redo on a table that was inserted or imported from HTML or Markdown, standing alone between paragraphs",
  why="Spans interact with later row and column edits only in particular combinations; unit tests do one structure edit on a fresh table and look at counts.",
  files=["crates/document_editing/src/use_cases/insert_table_row_uc.rs","crates/document_editing/src/use_cases/insert_table_column_uc.rs","crates/document_editing/src/use_cases/remove_table_row_uc.rs","crates/document_editing/src/use_cases/remove_table_column_uc.rs","crates/document_editing/src/use_cases/merge_table_cells_uc.rs","crates/document_editing/src/use_cases/split_table_cell_uc.rs","crates/public_api/src/text_table.rs"],
  mech=[("structure edits","crates/document_editing/src/use_cases/insert_table_row_uc.rs"),("merge and split","crates/document_editing/src/use_cases/merge_table_cells_uc.rs"),("edits inside cells","crates/document_editing/src/use_cases/delete_text_uc.rs")],
  observe=["TextCursor::insert_table_row/insert_table_column/remove_table_row/remove_table_column/merge_table_cells/split_table_cell/set_table_format/set_table_cell_format/remove_table","TextTable and TextTableCell handles","TextDocument::snapshot_flow/stats/to_html/undo/redo"],
  technique="stateful model-based property testing: random histories of table edits against a reference grid, compared through every view after every step",
  note=N+"One table per document; positions for edits inside cells are those of snapshot_flow. Cells of rows and columns that merging hides lose their contents by design. Deletions across cell borders, several tables in one document and the position() of block handles in documents with tables are not claimed (see P18's known finding)."),
 dict(id="P10", title="Search and replace agree with a reference search of the plain text",
  statement="find_all returns exactly the occurrences of the query in the plain text (literal, case-insensitive, whole-word or regular expression) in document order and document positions; find returns the first of them at or after the start, or the last one before it when searching backward; replace_text replaces exactly the first or all occurrences lying inside one paragraph, returns their number, leaves every other character, its format and every paragraph's format unchanged, and is one undoable step. An invalid expression is an error and changes nothing.",
  over=["inputs","histories"], for_all="all documents of top-level paragraphs with any Unicode text after any editing history, all queries, options, start positions and replacements",
  why="Positions pass through byte, character and lowercase-folded indices; unit tests use a few ASCII words.",
  files=["crates/document_search/src/use_cases/search_helpers.rs","crates/document_search/src/use_cases/find_text_uc.rs","crates/document_search/src/use_cases/find_all_uc.rs","crates/document_search/src/use_cases/replace_text_uc.rs"],
  mech=[("match enumeration","crates/document_search/src/use_cases/search_helpers.rs"),("replacement in descending order with per-block splices","crates/document_search/src/use_cases/replace_text_uc.rs")],
  observe=["TextDocument::find/find_all/replace_text","TextDocument::to_plain_text/snapshot_flow","undo/redo"],
  technique="property-based testing: generated documents, queries and regular expressions against an independent reference search and splice, undo/redo round trip",
  note=N+"Regular expressions are compared with the regex crate run on the plain text. Known finding: overlapping literal matches are all replaced and garble each other; replacing all is not compared in that case."),
 dict(id="P03", title="The undo history is one linear timeline",
  statement="Undo and redo walk one timeline of document states: each undo goes back exactly one step and each redo forward exactly one, a new edit after undoing discards the undone future and only that, an edit block (nested ones included) is one step and an empty one none, can_undo and can_redo tell the truth at every moment, undo or redo with nothing left changes nothing, and clear_undo_redo, set_plain_text and clear forget the history without leaving anything to undo or redo.",
  over=["histories"], for_all="all interleavings of edits, undo, redo, nested edit blocks, history clearing and whole-document replacement on documents of top-level paragraphs",
  why="The stack, its redo part, open composites and step merging share state that goes wrong only in particular interleavings; unit tests walk one fixed sequence.",
  files=["crates/common/src/undo_redo.rs","crates/public_api/src/document.rs","crates/public_api/src/cursor.rs"],
  mech=[("undo stacks, composites and merging","crates/common/src/undo_redo.rs"),("history resets","crates/public_api/src/document.rs")],
  observe=["TextDocument::undo/redo/can_undo/can_redo/clear_undo_redo","TextCursor::begin_edit_block/end_edit_block","full document observation after every step"],
  technique="stateful model-based property testing: random interleavings against a list-of-states timeline model, with flags and full document state compared after every step",
  note=N+"History is only walked or reset between edit blocks. Steps that change nothing may or may not occupy a place in the history."),
 dict(id="P11", title="HTML export and import carry the document faithfully",
  statement="to_html writes well-formed HTML in which every paragraph appears exactly once, in order, with all of its text (every markup character escaped), its bold, italic, underline, strike-out, code and link formats on exactly its characters, its heading level, list kind, code language, quotation depth and paragraph styles, and every table with its cells in their rows and columns, their row and column spans and their formatted text with line breaks between the paragraphs of a cell; importing that HTML restores them (spans excepted); and set_html of any HTML made of paragraphs, headings, (nested) lists, quotations, code, line breaks, inline formats, links, entities and comments yields exactly the paragraphs the markup says, in document order, as does DocumentFragment::from_html.",
  over=["inputs","histories"], for_all="all documents of paragraphs, headings, lists, code blocks and formatted text with arbitrary characters, and all generated HTML of the supported elements",
  why="Unit tests pin a few snippets; escaping, ordering and nesting errors show only for particular characters or element combinations.",
  files=["crates/document_io/src/use_cases/export_html_uc.rs","crates/document_io/src/use_cases/import_html_uc.rs","crates/common/src/parser_tools/content_parser.rs","crates/public_api/src/document.rs"],
  mech=[("HTML writer","crates/document_io/src/use_cases/export_html_uc.rs"),("HTML parser shared by set_html, insert_html and from_html","crates/common/src/parser_tools/content_parser.rs")],
  observe=["TextDocument::to_html/set_html/snapshot_flow","DocumentFragment::from_html"],
  technique="property-based testing: generated documents read by an independent strict HTML reader and round-tripped, generated HTML imported against its source structure",
  note=N+"Empty paragraphs, text alignment and list indentation are not expected to survive a round trip (import does not read them), nor are spans and several paragraphs in a cell. Tables are built by HTML import, merges and Enter in cells. Images excluded."),
 dict(id="P12", title="Markdown export and import carry the document faithfully",
  statement="to_markdown writes Markdown that any CommonMark reader understands as exactly the document's non-empty paragraphs in order: their full text with no character interpreted as markup, bold, italic, strike-out, code and link formats on exactly their words, heading levels, bullet or numbered list items at their depth of nesting, and code blocks with their language, and every table cell by cell (the paragraphs of a cell joined by a space, the places covered by a merged cell empty); importing it restores them. set_markdown and DocumentFragment::from_markdown of generated Markdown (headings, nested lists, quotations, fenced code, emphasis, links, escapes, entities, hard and soft breaks) yield exactly the paragraphs and formats it denotes.",
  over=["inputs"], for_all="all documents of paragraphs made of space-separated words of arbitrary characters with word formats, and all generated Markdown of the supported constructs",
  why="Escaping and delimiter interactions depend on which characters meet where; the tests sample a few.",
  files=["crates/document_io/src/use_cases/export_markdown_uc.rs","crates/document_io/src/use_cases/import_markdown_uc.rs","crates/common/src/parser_tools/content_parser.rs"],
  mech=[("Markdown writer","crates/document_io/src/use_cases/export_markdown_uc.rs"),("Markdown parser","crates/common/src/parser_tools/content_parser.rs")],
  observe=["TextDocument::to_markdown/set_markdown/snapshot_flow","DocumentFragment::from_markdown"],
  technique="property-based testing: generated documents read by an independent CommonMark reader (pulldown-cmark events interpreted by the harness) and round-tripped, generated Markdown imported against its source structure",
  note=N+"Formats start and end at word limits and paragraphs neither start nor end with white space (Markdown cannot express more); underline is dropped by design. Images excluded."),

 dict(id="P13", title="LaTeX export says exactly what the document contains",
  statement="to_latex writes a well-nested LaTeX document in which every paragraph appears exactly once and in order, no character of its text is interpreted as a command (all special characters are escaped, items never start with an optional argument), bold, italic, underline, strike-out, code and link formats cover exactly their characters, headings become the sectioning commands of their level, list items sit in environments of their own kind, tables become a tabular whose every row fills all columns with each cell in its place, with its spans and its text, and the requested document class and preamble appear exactly when asked for. The document is unchanged.",
  over=["inputs","histories"], for_all="all documents of paragraphs, headings, lists, code blocks and quotations with arbitrary characters and formats, all document classes, with and without preamble",
  why="Escaping and environment nesting go wrong for particular characters and sequences of paragraph kinds only; the tests check a few fixed snippets by substring.",
  files=["crates/document_io/src/use_cases/export_latex_uc.rs","crates/public_api/src/document.rs"],
  mech=[("LaTeX writer","crates/document_io/src/use_cases/export_latex_uc.rs")],
  observe=["TextDocument::to_latex","TextDocument::snapshot_flow"],
  technique="property-based testing: generated documents exported and read back by an independent LaTeX reader, compared with the document's flow",
  note=N+"Images excluded."),
 dict(id="P14", title="DOCX export writes exactly what the document contains",
  statement="to_docx writes a zip archive whose main part is well-formed XML holding every paragraph exactly once, in document order (quotations included), with its full text (line breaks inside code included), bold, italic, underline, strike-out and code formats on exactly their characters, heading style, line height and keep-lines setting, and every table with each cell's spans and paragraphs in its place; it reports the path and the number of paragraphs written, and leaves the document unchanged.",
  over=["inputs","histories"], for_all="all documents of paragraphs, headings, lists, code blocks and (nested) quotations with arbitrary characters and formats, after any editing history or HTML import",
  why="The tests only look at the file's existence and the paragraph count.",
  files=["crates/document_io/src/use_cases/export_docx_uc.rs","crates/public_api/src/document.rs"],
  mech=[("DOCX writer and its walk over the frames","crates/document_io/src/use_cases/export_docx_uc.rs")],
  observe=["TextDocument::to_docx (a file in a scratch folder)","TextDocument::snapshot_flow"],
  technique="property-based testing: generated documents exported to a scratch file, unzipped and read by an independent OOXML reader, compared with the document's flow",
  note=N+"Images excluded."),
 dict(id="P15", title="Fragments hold exactly what was selected, in every form",
  statement="The fragment of any selection holds exactly the selected characters with their formats, paragraph by paragraph and each paragraph once, and the paragraph format, heading and list of every paragraph selected with its end; copying changes neither document nor cursor. to_plain_text, to_html and to_markdown of the fragment, read by independent readers, say the same; from_html of its HTML pastes the same paragraphs, formats, headings and list kinds; and from_document pasted into an empty document reproduces every paragraph with its text, character formats, paragraph format and list.",
  over=["inputs","histories"], for_all="all selections in all documents of paragraphs, headings, lists, code blocks and quotations with arbitrary characters and formats, after any editing history or HTML import",
  why="Clipboard content is right or wrong depending on where the selection cuts and what it meets there; the tests copy a few fixed selections.",
  files=["crates/document_inspection/src/use_cases/extract_fragment_uc.rs","crates/public_api/src/fragment.rs","crates/common/src/parser_tools/fragment_schema.rs","crates/document_editing/src/use_cases/insert_fragment_uc.rs"],
  mech=[("extraction of the selected range","crates/document_inspection/src/use_cases/extract_fragment_uc.rs"),("fragment writers and parsers","crates/public_api/src/fragment.rs")],
  observe=["TextCursor::selection/insert_fragment","DocumentFragment::from_document/from_html/to_plain_text/to_html/to_markdown","TextDocument::snapshot_flow"],
  technique="property-based testing: generated selections of generated documents, fragments read by independent HTML and CommonMark readers, compared with the flow and pasted back",
  note=N+"Where a paste goes into existing text is P07/P08's subject. Fragment HTML writes code blocks as paragraphs. The Markdown comparison selects whole paragraphs made of formatted words; images and tables are excluded."),
 dict(id="P16", title="Events announce every change, and nothing but what happened",
  statement="From the events alone a view can follow the document: every change of text is inside the region announced by ContentsChanged (everything before and after it is untouched), every change of character format, block format or list inside an announced region, every change of the top-level flow elements, the block count, the modified flag and the undo/redo availability is announced with its final value, and the announced block count differs exactly when it changed - for edits, undo, redo, replacing, loads and flag changes alike. Callbacks get the events after the change, in order, and may use the document; poll_events and every live subscription deliver the same sequence, and a dropped subscription none.",
  over=["histories"], for_all="all histories of edits, formatting, list changes, undo, redo, loads, modified-flag changes, polls and subscriptions on documents of paragraphs and lists",
  why="Incremental views go wrong only after the particular sequence whose event was wrong; the tests check single events of single edits.",
  files=["crates/public_api/src/cursor.rs","crates/public_api/src/document.rs","crates/public_api/src/inner.rs","crates/public_api/src/events.rs","crates/public_api/src/text_list.rs"],
  mech=[("events of edits","crates/public_api/src/cursor.rs"),("events of undo and redo from a comparison of blocks","crates/public_api/src/document.rs"),("queue, polling and callbacks","crates/public_api/src/inner.rs")],
  observe=["TextDocument::on_change/poll_events","TextDocument::flow/snapshot_flow/block_count/is_modified/can_undo/can_redo"],
  technique="stateful property-based testing: a mirror kept from the events is compared with the document after every step of a generated history, from inside callbacks and by polling",
  note=N+"Where an item's list number changes because items before it changed, no event is expected; TextList setters and create_list announce 'lists changed' without a region (accepted), replace_text one ContentsChanged without a region. Undo units of edit blocks are covered by P03."),
 dict(id="P17", title="Highlighting is always that of the current text, and only for show",
  statement="With a highlighter attached, every paragraph is shown with exactly the formats that highlighting the current text from the top would give (states carried from paragraph to paragraph, later spans over earlier ones, clipped to the paragraph) laid over its own formats - after every edit, undo, redo, load, rehighlight, detaching and attaching. Nothing but the shown fragments and snapshots changes: text, stored formats, cursors' char formats, history, HTML, Markdown and LaTeX are those of the same document without a highlighter, and detaching leaves no trace.",
  over=["histories"], for_all="all histories of edits, formatting, loads, undo, redo, rule changes with rehighlight or rehighlight_block, detaching and attaching, for stateful highlighters with overlapping, empty and overlong spans",
  why="Incremental re-highlighting goes wrong only where a changed state has to cascade or stale spans survive a structural edit; the tests highlight a few fixed documents.",
  files=["crates/public_api/src/highlight.rs","crates/public_api/src/inner.rs","crates/public_api/src/cursor.rs","crates/public_api/src/document.rs","crates/public_api/src/text_block.rs"],
  mech=[("re-highlighting with state cascade and span merging","crates/public_api/src/highlight.rs"),("calls after edits, undo, redo and loads","crates/public_api/src/inner.rs")],
  observe=["TextBlock::fragments/snapshot","TextDocument::snapshot_flow/flow","exports and cursors' formats of both documents"],
  technique="stateful differential property-based testing: a highlighted document against a twin without a highlighter overlaid with a from-scratch reference highlighting after every step",
  note=N+"Documents of paragraphs, lists and frames from HTML; tables are not edited."),
 dict(id="P18", title="No argument or state makes a call panic, hang or half-happen",
  statement="Every public query and edit comes back - with a result or an error, never a panic, stack overflow or endless loop - for any position, length, id, index, text, markup, nesting depth, pattern, format or stale block or list handle, at any point of any editing history. Queries, cursor movements and selections change neither the document nor its history nor the modified flag; an edit that returns an error leaves all three as they were (groups that fail in the middle, and redo, apart). Afterwards the document is still coherent and every step can still be undone.",
  over=["inputs","histories"], for_all="all histories of edits, undo, redo and loads of paragraphs and lists interleaved with calls whose arguments are out of range, unknown, stale, malformed or huge; all such queries on documents with tables, block quotes and code; all markup nested up to 2500 deep",
  why="Unusual arguments meet unusual states: sizes that overflow, cursors left beyond a shortened document, ids of removed things. Tests try a few of either.",
  files=["crates/public_api/src/document.rs","crates/public_api/src/cursor.rs","crates/public_api/src/convert.rs","crates/public_api/src/text_block.rs","crates/public_api/src/text_list.rs","crates/public_api/src/text_table.rs","crates/common/src/parser_tools/content_parser.rs","crates/document_editing/src/use_cases/delete_text_uc.rs","crates/document_inspection/src/use_cases/get_text_at_position_uc.rs"],
  mech=[("argument checks and position conversion","crates/public_api/src/convert.rs"),("cursor movement and editing","crates/public_api/src/cursor.rs"),("parsing of untrusted markup","crates/common/src/parser_tools/content_parser.rs")],
  observe=["returned results and errors, panics, time, exit status of a child process for deep nesting","the whole observable document, can_undo/can_redo/is_modified before and after"],
  technique="property-based fuzzing of the public interface with generated histories and hostile arguments; invariant oracles (no panic, no hang, unchanged after queries and refused edits, coherent, undoable)",
  note=N+"Editing of documents with frames from insert_frame, tables and images is left out: see the known findings. HTML nested deeper than 256 levels is dropped by the parser, on purpose."),
 dict(id="P19", title="Every long operation ends once, is announced once and leaves a whole document",
  statement="Every import or export started ends: wait, wait_timeout and try_result give its outcome (again and again, always the same), also when it fails or is cancelled; exactly one LongOperationFinished with the matching success reaches poll_events and on_change each; progress stays within 0 to 100 and never goes back. A completed import leaves exactly the document that a fresh import of the same source gives, with one DocumentReset and no undo history; an export, failed operation or refused destination leaves document and history unchanged; a cancelled import leaves the old or the new document, never a mixture.",
  over=["inputs","histories","schedules","fault_sequences"], for_all="all sequences of HTML and Markdown imports and DOCX exports of any length, cancelled at any moment or directed at an unusable destination, on documents after any editing history",
  why="Outcomes depend on when the worker thread, the canceller and the event thread run; the tests only wait for one successful operation.",
  files=["crates/common/src/long_operation.rs","crates/public_api/src/operation.rs","crates/public_api/src/document.rs","crates/document_io/src/use_cases/import_html_uc.rs","crates/document_io/src/use_cases/import_markdown_uc.rs","crates/document_io/src/use_cases/export_docx_uc.rs"],
  mech=[("operation manager: status, result, cancellation","crates/common/src/long_operation.rs"),("typed handle","crates/public_api/src/operation.rs"),("completion of imports","crates/public_api/src/inner.rs")],
  observe=["Operation::wait/wait_timeout/try_result/is_done/progress/cancel","TextDocument::poll_events/on_change","full document observation"],
  technique="stateful property-based testing with generated cancellation moments and failing destinations: outcome, event log on both paths and final document against a fresh import",
  note=N+"A few thousand random schedules per run. What readers see while an import is running is not covered (the import works on the shared store without the document lock, see DESIGN.md)."),
 dict(id="P20", title="Entity commands keep ownership and references consistent and undo exactly",
  statement="Every command of the entity layer (create with or without owner, update with or without relationships, remove, set or move a relationship; single and multi) changes exactly the records it names: new records get ids no other record has; fields and relationships read back as given, in order, through every way of reading; removing a record removes what it owns, however deep, and every reference to what is gone. A command announces exactly what it created and removed and every record or owner it changed; one naming a record that does not exist fails, changes and announces nothing. Undo, redo, composites and cancelled composites restore exactly the records of before and after.",
  over=["histories"], for_all="all histories of entity commands on all eight kinds of records, grouped or not, with undo and redo at any point, for records created without children of their own and frames that form a tree",
  why="Ownership cascades, back references and snapshots are generated code for eight kinds of records; a slip shows for one kind after one combination of removal, undo and redo, while the tests exercise a few kinds with single commands.",
  files=["crates/common/src/direct_access/use_cases/create.rs","crates/common/src/direct_access/use_cases/update.rs","crates/common/src/direct_access/use_cases/remove.rs","crates/common/src/direct_access/use_cases/set_relationship.rs","crates/common/src/direct_access/use_cases/move_relationship.rs","crates/common/src/direct_access/frame/frame_repository.rs","crates/common/src/direct_access/document/document_repository.rs","crates/common/src/database/rope_store.rs","crates/common/src/database/transactions.rs"],
  mech=[("tables and repositories of each record","crates/common/src/direct_access"),("undoable commands over them","crates/common/src/direct_access/use_cases"),("store, counters, savepoints and snapshots","crates/common/src/database")],
  observe=["frontend::commands::*_commands (get, get_all, get_multi, relationship, count, range, many)","undo_redo_commands","AppContext::event_hub"],
  technique="stateful model-based property testing: a model of plain records in lock step with the real store, all records compared after every command",
  note=N+"Commands of the root record are not undoable by design; the history is cleared before them. Undoing the creation of a record that was given existing children is not claimed (the children go with it)."),
 dict(id="P21", title="Properties and resources are kept, and are part of the undo history",
  statement="Title, text direction, default wrap mode and the latest resource of each name read back exactly as set, survive edits and loads, and take part in the undo history like any edit: undo and redo step through property, resource and text changes (also grouped in edit blocks) one by one in order, each step restoring exactly the state of that moment, and undo/redo availability is announced with its right value after every such change. Loads and clear_undo_redo drop the history and nothing else.",
  over=["histories"], for_all="all histories of property and resource changes, text edits, edit blocks, undo, redo, loads and cleared histories, with any titles, names and contents",
  why="A cached or overwritten value shows only after particular undo/redo/reload sequences; the tests set one value and read it back.",
  files=["crates/public_api/src/document.rs","crates/public_api/src/cursor.rs","crates/direct_access/src/document/document_controller.rs","crates/direct_access/src/resource/resource_controller.rs","crates/common/src/undo_redo.rs"],
  mech=[("property setters and resource cache","crates/public_api/src/document.rs"),("undo of entity updates and creations","crates/direct_access/src/document/document_controller.rs")],
  observe=["TextDocument::title/text_direction/default_wrap_mode/resource/to_plain_text","can_undo/can_redo","UndoRedoChanged events"],
  technique="stateful model-based property testing against a timeline of states",
  note=N+"Typing next to typing may be merged into one step."),
 dict(id="P22", title="Undo stacks are independent, groups are atomic, failures lose nothing",
  statement="On an undo manager with any number of stacks, each stack's commands are undone in exactly the reverse order and redone in exactly the order they were executed; only commands that agree to merge share a step; a composite, however nested, is one step, an empty one none. An undo or redo that fails, also inside a composite, is reported, changes nothing and can be repeated. Work on one stack never affects another. A new command drops what could be redone on its stack. Unknown, deleted or foreign stacks are refused without trace; ids are never reused; each completed undo, redo and composite boundary is announced once.",
  over=["histories","fault_sequences"], for_all="all histories of mergeable and other commands, nested and cancelled composites, undo and redo with a failure at any sub-command, clearing, creating and deleting stacks",
  why="Failures inside groups and switching between stacks do not happen in the tests, which use commands that always succeed and mostly one stack.",
  files=["crates/common/src/undo_redo.rs"],
  mech=[("UndoRedoManager, CompositeCommand","crates/common/src/undo_redo.rs")],
  observe=["UndoRedoManager (undo, redo, composites, stacks, can_undo, can_redo, get_stack_size)","undo/redo events of the EventHub","calls received by the commands"],
  technique="stateful model-based property testing with generated command failures: a model of every stack in lock step, commands that notice being run out of order",
  note=N+"Undo, redo or cancelling a nested level while a composite is open is not claimed."),
 dict(id="P23", title="Threads sharing a document get what some order of their calls gives",
  statement="A document and its handles may be used from several threads. When threads edit, format, undo, search and read one document at the same time, each through its own cursor, every call takes effect at one moment: some order of the calls, one after another, gives the same result of every call, the same final document, cursors, undo history and events. No thread panics or waits for ever, no edit is lost or lands at a position from before another thread's edit, and callbacks receive exactly the events that polling does.",
  over=["inputs","schedules"], for_all="all sets of calls by two or three threads with a cursor or selection each, in every interleaving, on documents of top-level paragraphs",
  why="Races show only under particular timings of particular calls; no test uses a document from two threads.",
  files=["crates/public_api/src/cursor.rs","crates/public_api/src/document.rs","crates/public_api/src/inner.rs","crates/common/src/database/rope_store.rs"],
  mech=[("document lock, then cursor lock; cursor positions read under both","crates/public_api/src/inner.rs"),("editing methods","crates/public_api/src/cursor.rs"),("event queue dispatched outside the lock","crates/public_api/src/inner.rs")],
  observe=["results of all calls","the whole observable document, cursors, undo history","poll_events and on_change"],
  technique="property-based testing of generated concurrent histories on real threads, decided by linearizability: search for a serial order of the calls whose execution on a fresh document matches",
  note=N+"Thread timings are sampled, not enumerated. A document wherein each call is atomic never fails the check, whatever the timing. Cursor movement (several steps by design) and long operations are not among the concurrent calls."),
 dict(id="P24", title="The command-line tool does to files exactly what the library does to text",
  statement="convert, stats, find, replace and cat read the input in the format of its extension and give exactly the library's result for it: the same standard output, the same written file in the format of its extension (also .tex and .docx, also for replace), matches listed with their position, length and surrounding text. Unreadable or unsupported input, an invalid pattern or an unusable destination end with an error status and message. No file but the one asked for is ever created or changed, and none at all when the command fails or nothing matched.",
  over=["inputs","configurations","fault_sequences"], for_all="all sequences of sub-commands and options on files of every recognised, unsupported and unrecognised extension, missing, not UTF-8 or of any content, with existing, new and unusable destinations",
  why="Formats, options and file states multiply; the tests run each command once or twice on one short file.",
  files=["crates/cli/src/main.rs"],
  mech=[("format detection, loading and the sub-commands","crates/cli/src/main.rs")],
  observe=["exit status, standard output and error","all files of the working directory"],
  technique="property-based testing with generated files and command lines; differential oracle: the library on the same text, and an independent formatting of matches",
  note=N+"Content comparison is against the library (whose own results are the subject of P04, P10 to P14). Crashes while writing and broken pipes are not covered."),
 dict(id="P25", title="Loading content makes the document as good as new",
  statement="Whatever happened to a document before, after set_plain_text, clear, set_html or set_markdown it cannot be told from a fresh document given the same content: the same flow, text, formats, statistics and exports, no undo or redo, and every later editing, undo and redo step has the same outcome on both.",
  over=["histories"], for_all="all sequences of loads, edits, undo and redo followed by a load and any further editing history",
  why="Left-overs (lists, tables, caches, stored positions, history) show only after particular earlier content; the tests load into fresh documents.",
  files=["crates/document_io/src/use_cases/import_plain_text_uc.rs","crates/document_io/src/use_cases/import_html_uc.rs","crates/document_io/src/use_cases/import_markdown_uc.rs","crates/public_api/src/document.rs","crates/public_api/src/inner.rs"],
  mech=[("replacement of frames, lists, tables and rope","crates/document_io/src/use_cases/import_plain_text_uc.rs"),("cache, history and highlight reset","crates/public_api/src/inner.rs")],
  observe=["full document observation (flow, text, statistics, exports) of both documents after every step","can_undo/can_redo"],
  technique="differential property-based testing: a document with a generated past against a fresh one, in lock step",
  note=N+"Loaded content with quotations or tables is compared but not edited further."),
 dict(id="P26", title="Cursors, selections and copies in tables agree with the flow and the grid",
  statement="In a document with a table every position belongs to exactly the paragraph, and the cell, that the flow shows there: blocks, block numbers, snapshots, text and format lookups, cursor state and movement by block and character all agree, after any editing. A command on the current cell, row, column, table or selected cells does exactly what the same command does given explicit indices. Selecting across cells selects whole cells in the smallest rectangle cutting no merged cell, selecting across the table's edge the whole table; a copy of it pasted into a new document gives the same table, formats and surrounding text.",
  over=["histories"], for_all="all histories of structure edits, merges, splits, typing, new and deleted paragraphs in and around one table, undo and redo; all positions, pairs of positions, and cell ranges",
  why="Positions in table documents are kept separately from the text and drift only after particular edits; selection, merged cells and surrounding paragraphs combine in more ways than tests list.",
  files=["crates/public_api/src/cursor.rs","crates/public_api/src/document.rs","crates/public_api/src/flow.rs","crates/public_api/src/text_block.rs","crates/document_editing/src/use_cases/insert_table_row_uc.rs","crates/document_editing/src/use_cases/insert_fragment_uc.rs","crates/document_inspection/src/use_cases/extract_fragment_uc.rs"],
  mech=[("cursor and cell selection","crates/public_api/src/cursor.rs"),("selected ranges of cells","crates/public_api/src/flow.rs"),("positions of cell blocks","crates/document_editing/src/use_cases/insert_table_row_uc.rs"),("copying cells","crates/document_inspection/src/use_cases/extract_fragment_uc.rs")],
  observe=["blocks, snapshots, text_at, block_at, cursor queries and movement at every position","selection_kind, selected_cells, selected_cell_range, selected_text, selection()","the flow after pasting"],
  technique="stateful property-based testing: every lookup at every position against the flow, cursor commands against the reference grid of P09, generated selections and copies against the grid",
  note=N+"Positions between paragraphs are looked up as the documentation of each method says. Deleting across cells and pasting cells over cells are not claimed.",
 ),
]
