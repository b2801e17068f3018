#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept here so that wording is edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe, hook_needed=None)))

p("C01", "Every saved workbook is a closed, well-formed OPC package",
  "Any workbook built from successful API calls is saved as a valid ZIP in which every XML part is well formed and contains only legal XML characters, every part has a declared content type, every relationship resolves to a part that exists, and every relationship id used inside a part is declared exactly once with the matching kind. Ids that must be unique within a part or package (sheet ids, table ids and names, drawing object ids, relationship ids) are unique, declared counts equal actual counts, and the children of each worksheet appear in the order the file format requires.",
  ["inputs", "histories"], "all mixes of features (cells, formats, tables, charts, images, shapes, notes, conditional formats, validations, sparklines, links, headers, properties, macros flag) over any number of sheets and in any call order",
  "Tests compare a few hundred hand-made files, each using one or two features with a fixed order; they never combine features that share a part, an id space or an extension list, and never look for dangling references.",
  ["src/packager.rs", "src/workbook.rs", "src/worksheet.rs", "src/relationship.rs", "src/content_types.rs", "src/xmlwriter.rs"],
  [("part and relationship assembly", "src/packager.rs"), ("id allocation across sheets", "src/workbook.rs prepare_*"), ("element order", "src/worksheet.rs assemble_xml_file"), ("escaping", "src/xmlwriter.rs")],
  ["bytes returned by saving the workbook to a buffer"])

p("C02", "Each cell holds exactly the last value written to it",
  "After any sequence of writes, overwrites, array/row/column writes and clears to any cells of any sheets, the saved sheet contains exactly the cells that should be there, each with the type and value of the last write to that position (numbers bit-exact, booleans, strings, formulas with their result, blanks, dates, errors-as-formulas, URLs as their display text). Rows and cells are stored once each in ascending order and the recorded used range is exactly the smallest range that covers what was written.",
  ["inputs", "histories"], "all write histories over all value kinds, including positions at sheet limits and repeated writes to one position",
  "Tests write each position once, in row order, with tame values; interleavings of kinds on one position, special numbers and sparse extreme positions are not reached.",
  ["src/worksheet.rs", "src/shared_strings_table.rs", "src/shared_strings.rs", "src/formula.rs"],
  [("cell table insert/replace", "src/worksheet.rs insert_cell"), ("used range tracking", "src/worksheet.rs check_dimensions"), ("cell serialisation", "src/worksheet.rs write_data_table"), ("string interning", "src/shared_strings_table.rs")],
  ["sheet XML and shared string part of the saved file"],
  [("cell table", "map row -> column -> cell", "src/worksheet.rs data_table")])

p("C03", "Text survives unchanged wherever it is written",
  "Any text the API accepts is recovered exactly (same characters, same leading/trailing/inner white space) by an XML/Office reader, wherever it is stored: cell strings, rich strings (per run, with its run format), notes, sheet names, headers and footers, table headers and totals, validation messages and lists, hyperlink text, tips and locations, document properties, defined names, object names and alternative text, chart titles and series names, formulas. Two different strings are never merged into one and equal strings never diverge.",
  ["inputs"], "all Unicode strings within the documented length limits, including markup characters, quotes, control characters, literal escape look-alikes, white space edges and non-characters",
  "Tests use mostly ASCII text; escaping is context dependent and written by several separate code paths, each sampled with one or two strings.",
  ["src/xmlwriter.rs", "src/shared_strings.rs", "src/shared_strings_table.rs", "src/worksheet.rs", "src/comment.rs", "src/vml.rs", "src/chart.rs", "src/table.rs", "src/core.rs", "src/app.rs", "src/custom.rs"],
  [("data/attribute escaping", "src/xmlwriter.rs"), ("xHHHH escapes and xml:space", "src/shared_strings.rs"), ("rich string building", "src/worksheet.rs store_rich_string")],
  ["decoded text of every part of the saved file"])

p("C04", "Every cell displays with exactly the requested format",
  "For any set of formats and any sequence of writes with formats, cell/range/row/column format settings and default formats, the font, fill, border, alignment, number format, protection and flag properties that a reader resolves for each cell through the style tables are exactly the ones requested for it (last setting wins; a cell without its own format takes the row's, then the column's). Formats that are equal in all properties behave identically and formats that differ in any property are never conflated.",
  ["inputs", "histories"], "all combinations of format properties and all application orders over several sheets sharing formats",
  "Each test sets one property; the index deduplication of fonts, fills, borders, number formats and whole formats only goes wrong for particular combinations and orders.",
  ["src/format.rs", "src/styles.rs", "src/workbook.rs", "src/worksheet.rs"],
  [("format index allocation", "src/workbook.rs prepare_format_properties"), ("style table writer", "src/styles.rs"), ("row/column format inheritance", "src/worksheet.rs"), ("format merge and equality", "src/format.rs")],
  ["resolved styles of the saved file"])

p("C05", "Saving is repeatable and does not disturb the workbook",
  "Saving is a pure function of what has been added: the same sequence of calls always produces the same parts, saving twice in a row produces identical files, and saving, making more changes and saving again produces the same file as making all changes before a single save. This includes saves that fail and are retried after the cause is removed.",
  ["histories"], "all operation histories with saves at arbitrary points, over all features that keep state between preparation and writing",
  "Two saves of the same workbook are covered by only a re-run of the same finished files; edits between saves, sheet reordering between saves, and failing saves are not.",
  ["src/workbook.rs", "src/worksheet.rs", "src/drawing.rs", "src/chart.rs", "src/table.rs", "src/packager.rs"],
  [("state reset before save", "src/workbook.rs reset / src/worksheet.rs reset"), ("preparation passes", "src/workbook.rs prepare_*")],
  ["the sequence of files saved from one workbook object"])

p("C06", "Low-memory sheets store the same content as normal sheets",
  "A worksheet in constant-memory or low-memory mode, filled row by row as its documentation requires, produces a file a reader resolves to the same cells (values, types, formats), rows, columns, links, merged ranges and objects as the identical calls on a normal worksheet. A write the mode cannot honour (to a row already flushed) leaves all other cells intact.",
  ["inputs", "histories"], "all row-ordered histories over all cell kinds, mixed with row/column settings and with normal sheets in the same workbook, repeated saves included",
  "The low-memory code path is a separate writer; the committed tests for it compare a handful of files and are not part of the default run.",
  ["src/worksheet.rs", "src/workbook.rs", "src/packager.rs", "src/shared_strings_table.rs"],
  [("row flush", "src/worksheet.rs flush_data_row / flush_to_row"), ("inline string writer", "src/worksheet.rs write_inline_string_cell")],
  ["pairs of saved files"])

p("C07", "Invalid arguments are refused with an error and no effect",
  "Every fallible call given arguments outside the documented limits (row/column bounds, inverted ranges, over-long or empty texts, illegal or duplicate names, malformed ranges, too many links, malformed images, invalid rules) returns an error, and every call given arguments inside the limits succeeds; neither ever panics. A refused call leaves no trace: the workbook saves to the same file as if the call had not been made, and later valid calls behave as if it had not been made.",
  ["inputs", "histories"], "all arguments on, next to and far from every documented limit, for every fallible public call, at any point of a history",
  "Tests check one offending value per error kind and only the error code, never the state left behind.",
  ["src/worksheet.rs", "src/workbook.rs", "src/utility.rs", "src/table.rs", "src/data_validation.rs", "src/conditional_format.rs", "src/chart.rs", "src/image.rs", "src/note.rs", "src/url.rs", "src/error.rs"],
  [("bounds checks", "src/worksheet.rs check_dimensions"), ("name checks", "src/utility.rs"), ("validators", "validate() in each option struct")],
  ["Result of each call; saved file with and without the refused calls"])

p("C08", "Dates and times become the right serial numbers",
  "Every valid calendar date and time of day in the supported range, however it is supplied (parts, strings, Unix timestamps, serial numbers, chrono types, ISO forms), is stored as the serial number Excel assigns to that instant in the 1900 date system, to millisecond accuracy, and distinct instants keep their order. Values that are not valid dates or times are refused with an error.",
  ["inputs"], "all dates from the epoch to 9999-12-31, all times with fractional seconds, all accepted textual layouts, and malformed variants of them",
  "The tests check a table of a few hundred sampled dates produced once from Excel; rounding, leap rules and parser layouts between the samples are not constrained.",
  ["src/datetime.rs", "src/worksheet.rs"],
  [("calendar to serial conversion", "src/datetime.rs"), ("string parser", "src/datetime.rs parse_from_str"), ("chrono bridges", "src/datetime.rs IntoExcelDateTime")],
  ["ExcelDateTime conversions; numeric value of written cells"])

p("C09", "Objects are anchored at the requested cell, offset and size",
  "Every inserted image, chart, shape, button and note occupies, in the saved file, the rectangle that starts at the requested cell plus offset and has the requested (scaled) size in pixels, measured with that sheet's own column widths, row heights and hidden rows/columns, to rounding of one pixel. The stored move/size behaviour is the one requested.",
  ["inputs"], "all positions, offsets, sizes, scales, object movement options and column/row size layouts including zero-size, hidden and default-changed ones",
  "Tests use default grids with a few fixed placements; objects spanning irregular or hidden rows and columns are hardly covered.",
  ["src/worksheet.rs", "src/drawing.rs", "src/image.rs", "src/chart.rs", "src/shape.rs", "src/vml.rs", "src/note.rs", "src/button.rs"],
  [("position calculation", "src/worksheet.rs position_object_pixels/emus"), ("anchor writer", "src/drawing.rs, src/vml.rs")],
  ["drawing and VML anchors of the saved file"])

p("C10", "Cell references and sheet-name quoting convert losslessly",
  "Row/column numbers convert to A1 references and back without loss over the whole sheet, column letters and numbers are inverse, and ranges built from corners name exactly those corners with the requested absolute markers. A sheet name used in a generated reference (charts, names, print areas, sparklines, links) is quoted exactly when a formula parser needs it and unquotes to the same name.",
  ["inputs"], "all rows and columns and all legal sheet names",
  "Tests list a few dozen cases; names that look like references, numbers, R1C1 forms or contain quotes and non-ASCII letters form a large space with hand-written parsing.",
  ["src/utility.rs", "src/chart.rs", "src/sparkline.rs", "src/workbook.rs", "src/worksheet.rs"],
  [("reference conversion", "src/utility.rs"), ("sheet name quoting", "src/utility.rs quote_sheet_name")],
  ["utility functions; references in the saved file"])

p("C11", "Tables are stored exactly as configured",
  "Every table accepted by a sheet is stored with the requested range, unique name and id, one uniquely named column per range column, and the requested header, total row, style, banding, autofilter, column formulas, labels, functions and formats; the header, total and formula cells of the sheet show the text, formula and format that the table definition declares.",
  ["inputs", "histories"], "all table configurations, sizes, column overrides and numbers of tables over several sheets, with cell data written before or after",
  "Tests cover fixed option settings one at a time; name generation, header-less tables with totals, duplicate or partial column settings, and interplay with existing cell data are barely sampled.",
  ["src/table.rs", "src/worksheet.rs", "src/workbook.rs"],
  [("column initialisation", "src/table.rs initialize_columns"), ("cell backfill", "src/worksheet.rs add_table"), ("naming", "src/workbook.rs prepare_worksheet_tables")],
  ["table parts and cells of the saved file"])

p("C12", "Conditional formats are stored with the right rule, range and priority",
  "Each conditional format added to a sheet is stored once, on exactly the requested range(s), as the requested rule kind with its operands, operators, text, formulas, thresholds, colours, icons, stop flag and differential format, with priorities in the order of addition. For rule kinds stored in two places the two halves refer to each other and agree.",
  ["inputs", "histories"], "all rule kinds and option combinations, over overlapping ranges in any order on several sheets",
  "Tests cover one rule per kind in a fixed order; operand text needing escaping, non-sorted ranges, several extended rules and shared differential formats are not covered.",
  ["src/conditional_format.rs", "src/worksheet.rs", "src/styles.rs"],
  [("rule writers", "src/conditional_format.rs rule/x14_rule"), ("priority and dxf numbering", "src/worksheet.rs add_conditional_format, src/workbook.rs")],
  ["conditional formatting XML and dxf table of the saved file"])

p("C13", "Data validations are stored exactly as configured",
  "Each data validation added to a sheet is stored once with its type, operator, operands, list items or source range, blank/dropdown/message flags, titles, messages and error style, covering exactly the requested range or ranges. Configurations beyond the documented length limits are not stored silently altered.",
  ["inputs"], "all rule types, operators, operand kinds (numbers, dates, times, formulas, lists) and option combinations over any ranges",
  "Tests fix one configuration each; operand formatting for extreme numbers and dates, list text with quotes or commas, multi-ranges and equal rules on several ranges are unsampled.",
  ["src/data_validation.rs", "src/worksheet.rs"],
  [("rule conversion", "src/data_validation.rs"), ("writer", "src/worksheet.rs write_data_validation")],
  ["data validation XML of the saved file"])

p("C14", "Hyperlinks lead where they were told to",
  "Every URL, mail, file or internal link written to a cell or attached to an image or shape is stored so that resolving it (relationship target plus location) gives back the requested destination, with the requested display text and tip, on exactly the requested cell or object. Links whose cell is overwritten or whose limits are exceeded follow the documented behaviour, and no link disturbs another.",
  ["inputs", "histories"], "all link kinds with anchors, escapes, quotes, spaces and Unicode, in any number and order, mixed with other relationship-using features",
  "Tests resolve nothing: they compare fixed files with mostly plain URLs.",
  ["src/url.rs", "src/worksheet.rs", "src/relationship.rs", "src/drawing.rs"],
  [("link classification and escaping", "src/url.rs"), ("relationship numbering", "src/worksheet.rs, src/packager.rs")],
  ["sheet hyperlinks and relationship parts of the saved file"])

p("C15", "Serialised data lands in the right cells",
  "Serialising any supported sequence of structs into a sheet writes the headers at the declared position and each field of the i-th record in the i-th row below, in the column of its header, with the value, type and format configured for that field, honouring renames, skips, custom headers, header hiding and options. Fields without a header are not written and repeated serialisation continues directly below.",
  ["inputs", "histories"], "all field types, nesting and option combinations, header orders and repeated or interleaved serialisation of several struct types",
  "Tests use fixed structs with a handful of records; alignment across optional, nested and skipped fields and interleavings are not explored.",
  ["src/serializer.rs", "src/worksheet.rs"],
  [("serializer state machine", "src/serializer.rs"), ("header lookup", "src/serializer.rs get_header")],
  ["cells, tables and formats of the saved file"])

p("C16", "The derive macro yields the same headers and values as the options API",
  "For any struct definition with the documented attributes, the derived implementation gives the same headers, order, widths, formats, skips and table settings as setting the corresponding options by hand, and agrees with the serde attributes on field names. Unsupported attributes are reported at compile time rather than ignored.",
  ["programs"], "all struct definitions over the documented field types and attribute combinations",
  "A procedural macro is exercised by a small set of fixed structs; attribute combinations and identifier shapes are unbounded.",
  ["macros/src/lib.rs"],
  [("attribute parser", "macros/src/lib.rs FieldAttributeTypes, HeaderAttributeTypes"), ("code generator", "macros/src/lib.rs derive functions")],
  ["files saved by programs compiled with the macro"])

p("C17", "Autofilters hide exactly the rows that do not match",
  "For any data and any set of filter conditions on the columns of an autofilter, the rows hidden in the saved file are exactly the data rows for which some filtered column does not satisfy its condition under Excel's rules (type-aware comparison, case-insensitive text, wildcards-by-operator, blanks), and the stored filter definition is the one requested. Rows outside the filtered range keep their visibility.",
  ["inputs", "histories"], "all mixtures of cell types in the filtered range, all operators and one- or two-term conditions, over several columns",
  "Tests use one data set with a few conditions.",
  ["src/filter.rs", "src/worksheet.rs"],
  [("row evaluation", "src/worksheet.rs filter_column / row_matches"), ("filter writer", "src/worksheet.rs write_filter_column")],
  ["row visibility and autofilter XML of the saved file"])

p("C18", "Row and column settings are stored for exactly the requested lines",
  "After any sequence of width, height, format, hide, group/outline and default-size calls, each row and column of the saved sheet has exactly the width/height, visibility, format, outline level and collapse state last requested for it, and all others keep the defaults. Pixel and character units describe the same size, and the declared maximum outline levels and default sizes agree with the lines.",
  ["inputs", "histories"], "all orders and overlaps of row/column calls, with and without cell data in the same lines",
  "Tests issue single calls; run-length merging of columns and partial updates of existing entries depend on call order and neighbours.",
  ["src/worksheet.rs"],
  [("column run writer", "src/worksheet.rs write_cols"), ("row writer", "src/worksheet.rs write_row"), ("grouping", "src/worksheet.rs group_rows")],
  ["cols, row and sheetFormatPr elements of the saved file"])

p("C19", "Autofit makes columns wide enough and never shrinks below need",
  "Autofitting sets each column that contains data to the width of its widest cell (as displayed, including dates, numbers, booleans, multi-line strings, formula results, filter and table header buttons), independent of the order in which cells were written, changes no other column, and respects the given maximum width. Adding content never makes an autofitted column narrower.",
  ["inputs", "histories"], "all cell contents and layouts, with and without prior explicit widths and a maximum width",
  "Tests check a few words; order independence and monotonicity are relations between runs.",
  ["src/worksheet.rs", "src/utility.rs"],
  [("width estimation", "src/worksheet.rs autofit"), ("pixel table", "src/utility.rs pixel_width")],
  ["column widths of the saved file"])

p("C20", "Page setup and print options are stored as requested",
  "After any sequence of page setup, margin, header/footer, page break, print option, print area, repeat row/column, view, zoom, freeze pane, selection, gridline, tab colour and similar sheet-level calls, the saved sheet carries exactly the last requested setting of each, and the format's default for the rest, independent of the order of unrelated calls.",
  ["inputs", "histories"], "all combinations and orders of sheet-level settings",
  "Each test sets one or two options; options that share an element or a 'changed' flag interact only in combination.",
  ["src/worksheet.rs", "src/workbook.rs"],
  [("option writers", "src/worksheet.rs write_page_setup, write_sheet_views, write_print_options, write_header_footer, write_sheet_pr")],
  ["sheet-level elements of the saved file"])

p("C21", "Defined names resolve to the requested scope and reference",
  "All defined names in the saved file - user names, global or sheet scoped, and those implied by print areas, repeated rows/columns and autofilters - are present once each, attached to the right sheet after any insertion, reordering or renaming of sheets, with the requested reference, in the sorted order Excel requires. Illegal names are refused.",
  ["inputs", "histories"], "all numbers and names of sheets, all legal and illegal defined names and scopes, definition before or after the sheets exist",
  "Tests fix a few names in one or two sheets.",
  ["src/workbook.rs", "src/worksheet.rs", "src/utility.rs"],
  [("defined name preparation", "src/workbook.rs prepare_defined_names"), ("name validation", "src/workbook.rs define_name")],
  ["definedNames of the saved workbook part; titles in the app properties"])

p("C22", "Images are embedded byte-exact and each use shows its own image",
  "Every image inserted in a sheet, cell, header, footer or background, or used as a fill, resolves in the saved file to a media part whose bytes equal the source, with identical images stored once per the documented sharing and different images never confused; pixel size and resolution are read correctly from the file's own header. Scaling, alternative text, decoration flag and object name are stored as requested.",
  ["inputs", "histories"], "all image formats, sizes and resolutions (PNG, JPEG, GIF, BMP), duplicates and placements over many sheets in any order",
  "Tests insert one or two images from a fixed set of files per workbook.",
  ["src/image.rs", "src/workbook.rs", "src/worksheet.rs", "src/packager.rs", "src/drawing.rs", "src/vml.rs", "src/rich_value.rs"],
  [("header parsing", "src/image.rs"), ("media numbering and deduplication", "src/workbook.rs prepare_drawings"), ("media writing", "src/packager.rs write_image_files")],
  ["media parts reached through relationships from each use"])

p("C23", "Formulas keep their meaning when stored",
  "A formula is stored with the given text, only stripped of a leading equals sign or array braces, with each newer function name receiving its required prefix exactly when it is called as a function outside string literals and not already prefixed; the given result is stored with its type. Array and dynamic formulas cover the given range and dynamic functions are recognised automatically.",
  ["inputs"], "all formula texts built from function calls, nesting, strings, names and references, in plain, array and dynamic form",
  "Tests contain one example per function; prefix replacement is regular-expression based and depends on neighbouring text.",
  ["src/formula.rs", "src/worksheet.rs"],
  [("function prefixing", "src/formula.rs"), ("array handling", "src/worksheet.rs store_array_formula"), ("result typing", "src/worksheet.rs write_formula_cell")],
  ["f and v elements of the saved file"])

p("C24", "Merged ranges never overlap each other, nor do tables",
  "For any sequence of merge, table and related calls, a merge succeeds exactly when its range is valid and overlaps no merged range already on that sheet, a table exactly when its range is valid and overlaps no table there (nor a sheet autofilter on the same header row), and the saved file contains exactly the accepted ranges, with the merged content and format applied to all and only the cells of each merged range. A refused call changes nothing.",
  ["inputs", "histories"], "all sequences of ranges, including touching, nested, crossing and repeated ones, on several sheets",
  "Tests check a pair of ranges per error; the overlap index is a stateful structure whose errors need longer histories.",
  ["src/worksheet.rs"],
  [("overlap index", "src/worksheet.rs merge_range / add_table"), ("merge writer", "src/worksheet.rs write_merge_cells")],
  ["Result of each call; mergeCells and table ranges of the saved file"],
  [("merged cell index", "cells covered by accepted ranges", "src/worksheet.rs")])

p("C25", "Notes are stored on their cell with their text, author and shape",
  "Each note added to a sheet is stored once on its cell with its text, author (with prefix as configured), visibility, size, position and colours, and its drawing shape refers to the same cell; sheet-wide note settings apply to exactly the notes without their own. Notes and buttons keep distinct shape ids over the whole workbook, and the header images of a sheet among themselves.",
  ["inputs", "histories"], "all numbers of notes (up to thousands per sheet), authors and option combinations over several sheets, mixed with buttons and header images",
  "Tests insert a few notes; id blocks advance per 1024 shapes and per sheet.",
  ["src/note.rs", "src/comment.rs", "src/vml.rs", "src/worksheet.rs", "src/workbook.rs"],
  [("comment writer", "src/comment.rs"), ("VML writer and ids", "src/vml.rs, src/workbook.rs prepare_vml")],
  ["comments and VML parts of the saved file"])

p("C26", "Charts plot the requested data with consistent axes",
  "Every chart is stored with exactly the requested series in order, each referring to the requested value, category, name and error-bar ranges, with cached data equal to the cells those ranges contain; every axis id used by a plot group is defined once and crosses its partner, and combined or secondary charts keep separate, consistent groups of axes.",
  ["inputs", "histories"], "all chart types, series counts, range forms, primary/secondary/combined mixes and data written before or after the chart, over several sheets",
  "Tests compare fixed charts over one small fixed data set; caches over missing, mixed-type and multi-column data and combined charts are sampled a few times.",
  ["src/chart.rs", "src/workbook.rs", "src/worksheet.rs"],
  [("series and cache writer", "src/chart.rs"), ("cache filling", "src/workbook.rs prepare_chart_caches, src/worksheet.rs get_cache_data"), ("axis ids", "src/chart.rs add_axis_ids")],
  ["chart parts of the saved file"])

p("C27", "Chart formatting options are stored where they apply",
  "Each chart, axis, series, point, label, legend, trendline, title and area option that is set appears in the saved chart on exactly the element it was set for, with the requested value, and options left unset do not appear; the children of each chart element keep the order the file format requires.",
  ["inputs"], "all combinations of chart formatting options over all chart types",
  "Tests set one option per file; elements shared by several options and required orderings fail only in combination.",
  ["src/chart.rs"],
  [("element writers", "src/chart.rs")],
  ["chart parts of the saved file"])

p("C28", "Sparklines are stored on their cells with the requested data and options",
  "Each sparkline or sparkline group is stored once with its type, data ranges paired with the right location cells, and exactly the requested colours, markers, axes, weights and display options; groups keep the order of addition and do not influence each other or other extended features of the sheet.",
  ["inputs"], "all option combinations, single and grouped, row- or column-wise locations, any sheet names, many per sheet",
  "Tests use the fixed styles and a few options.",
  ["src/sparkline.rs", "src/worksheet.rs"],
  [("group pairing", "src/worksheet.rs add_sparkline_group"), ("writer", "src/worksheet.rs write_sparkline_groups")],
  ["sparkline extension XML of the saved file"])

p("C29", "Document properties are stored exactly",
  "Every standard and custom document property set on a workbook is stored with its exact value and type (text, integer, real, boolean, date), custom properties with unique consecutive ids in the order given, and unset properties are absent; the application part lists exactly the sheets and defined names of the workbook in order with correct counts.",
  ["inputs"], "all property texts, numbers and dates in any combination, with any sheets and names",
  "Tests set all properties once with fixed values.",
  ["src/properties.rs", "src/core.rs", "src/app.rs", "src/custom.rs"],
  [("property writers", "src/core.rs, src/app.rs, src/custom.rs")],
  ["docProps parts of the saved file"])

p("C30", "A failing destination is reported, never hidden",
  "If the destination of a save fails or stops accepting data at any point, the save returns an error and does not panic or report success for an incomplete file, and the same workbook can afterwards be saved to a working destination with the same result as if the failure had not happened. If save reports success, the destination holds the complete file; in particular a temporary file of a constant-memory or low-memory sheet that stops accepting data never leads to a reported success with rows missing.",
  ["fault_sequences"], "every write, seek and flush operation index of a save as the failing point, with hard errors, short writes and interruptions, single and repeated",
  "No test injects a write error.",
  ["src/packager.rs", "src/workbook.rs", "src/xmlwriter.rs"],
  [("error propagation", "src/packager.rs assemble_file, src/workbook.rs save_internal")],
  ["return value of save and bytes accepted by the destination"])

p("C31", "The sheet list reflects additions, order, names and visibility",
  "After any sequence of adding, inserting, naming, moving, hiding, activating and selecting worksheets and chart sheets, the saved workbook lists exactly those sheets in order with unique names and correct visibility, exactly one active visible sheet, the requested first sheet and selection, and each listed sheet leads to its own content. Lookups by index or name return that sheet.",
  ["histories"], "all sequences of sheet-level operations on up to dozens of sheets with arbitrary legal names",
  "Tests build at most a few sheets in one order.",
  ["src/workbook.rs", "src/worksheet.rs", "src/packager.rs"],
  [("sheet list", "src/workbook.rs worksheets_mut / push_worksheet"), ("active and first sheet", "src/workbook.rs set_active_worksheets")],
  ["workbook part, its relationships and sheet views of the saved file"])

p("C32", "Protection settings are stored exactly",
  "After any sequence of protect, unprotect-range and option calls, the saved sheet allows exactly the actions requested, with the standard verifier of the given password, and exactly the requested unprotected ranges with their names and passwords; sheets not protected carry no protection. Read-only recommendation and similar workbook flags are stored as requested.",
  ["inputs", "histories"], "all option combinations, passwords and ranges",
  "Tests fix one set of options and two passwords.",
  ["src/protection.rs", "src/worksheet.rs", "src/utility.rs", "src/workbook.rs"],
  [("protection writer", "src/worksheet.rs write_sheet_protection"), ("password hash", "src/utility.rs hash_password")],
  ["sheetProtection and protectedRanges of the saved file"])

p("C33", "Shapes and buttons carry the requested text, style and macro",
  "Each text box shape and button is stored once with its text (paragraphs, font, alignment), fill, line, text options, size, macro, link, name and alternative text exactly as requested, on its own sheet, with distinct ids. Options set on one object never affect another.",
  ["inputs", "histories"], "all option combinations and numbers of shapes and buttons over several sheets",
  "Tests set one option at a time on one object.",
  ["src/shape.rs", "src/drawing.rs", "src/button.rs", "src/vml.rs"],
  [("shape writer", "src/drawing.rs write_shape"), ("button writer", "src/vml.rs")],
  ["drawing and VML parts of the saved file"])

p("C34", "VBA projects are carried byte-exact with consistent code names",
  "After any sequence of adding VBA projects (signed or not), setting code names and adding or moving sheets, with saves in between, the saved file holds exactly the bytes of the project and signature given last, related and typed as a macro-enabled workbook; the workbook and every sheet have the code name they were given, or the automatic one of their present position when there is a project. Without a project nothing of this is stored. A refused name or a missing file changes nothing.",
  ["inputs", "histories"], "all contents of project and signature files, all code names, and histories of sheet insertion, moves and saves",
  "Tests use one project file with one or two sheets and a single save.",
  ["src/workbook.rs", "src/worksheet.rs", "src/packager.rs", "src/utility.rs"],
  [("project loading", "src/workbook.rs add_vba_project"), ("automatic code names", "src/workbook.rs save_internal"), ("project parts", "src/packager.rs write_vba_project")],
  ["content types, relationships, binary parts and codeName attributes of the saved file"])

p("C35", "Sheets filled by several threads store the same content",
  "Worksheets of one workbook may be filled at the same time by different threads (borrowed together, or created separately and added later, in normal, low-memory or constant-memory mode). Whatever the schedule, the saved file resolves to the same content as filling the sheets one after another: no cell shows another cell's text or format, and saving neither fails nor panics.",
  ["schedules", "inputs"], "all interleavings of the calls of the threads, for all contents that share texts and formats between sheets",
  "Tests never fill sheets from more than one thread; a single test could not sample the interleavings.",
  ["src/worksheet.rs", "src/workbook.rs", "src/shared_strings_table.rs", "src/packager.rs"],
  [("shared style table", "src/worksheet.rs format_xf_index_global"), ("shared text table", "src/worksheet.rs store_string"), ("parallel assembly", "src/packager.rs assemble_file")],
  ["saved file, with style and text indices resolved"])

p("C36", "Optional build features leave the stored content unchanged",
  "Building the library with the speed features `ryu` and `zlib`, and with or without `constant_memory` and `serde` compiled in but unused, changes only how a file is made: for the same calls, every part of the saved file is the same, the numbers of cells having the same value (their notation may differ), and the same calls are refused with the same errors.",
  ["inputs", "histories"], "all workbooks and numbers, with any calls and any saves in between",
  "Tests run one fixed set of features and compare with files made by Excel, so no test compares builds over arbitrary numbers and workbooks.",
  ["src/worksheet.rs", "src/workbook.rs", "src/packager.rs", "Cargo.toml"],
  [("ryu numbers", "src/worksheet.rs write_number_cell"), ("storage without constant memory", "src/worksheet.rs insert_cell"), ("compression", "src/packager.rs")],
  ["parts of the saved file and answers of the calls, for two builds of the library"])

p("C37", "Constant-memory sheets need memory independent of the number of rows",
  "While rows are written in order to constant-memory sheets (and to low-memory sheets, as long as the texts repeat), and while the workbook is saved to a stream, the heap in use at any time is bounded independently of how many rows there are: only the current row is held, whatever the kinds of cells, formats, gaps between rows, number of sheets filled alternately and saves.",
  ["inputs", "histories"], "all row patterns and numbers of rows",
  "Tests of these modes write a few rows and compare the file; none measures memory, so a structure that keeps one entry for each cell or row would pass them all.",
  ["src/worksheet.rs", "src/workbook.rs", "src/packager.rs", "src/shared_strings_table.rs"],
  [("row flushing", "src/worksheet.rs flush_data_row"), ("streaming to the package", "src/packager.rs write_worksheet_files"), ("inline strings", "src/worksheet.rs store_string")],
  ["bytes allocated by the process at the same time"])

p("C38", "Every stored part follows the grammar of the file format",
  "Whatever features are used, alone or together, each XML part of a saved file follows the file format: its elements stand where ECMA-376 or the published extension allows them and in the required order and number, each attribute is known to its element, required ones are there, every value and text is of the kind, in the range or one of the names the format gives, prefixes stand for the right namespaces, and the ids by which elements of a part refer to each other (axes and series of a chart, conditional rules and their extended halves, extensions and their URIs) match. Exempt are the theme, objects reaching over the sheet's last row or column, and trendlines and error bars asked of chart types that have none.",
  ["inputs", "histories"], "all workbooks built with any combination of features",
  "Tests compare fixed files; an element in the wrong place needs a combination of options that no fixture has, and a spreadsheet program then refuses or repairs the file.",
  ["src/worksheet.rs", "src/chart.rs", "src/drawing.rs", "src/styles.rs", "src/workbook.rs", "src/vml.rs", "src/table.rs", "src/conditional_format.rs", "src/data_validation.rs", "src/sparkline.rs", "src/comment.rs", "src/metadata.rs"],
  [("worksheet", "src/worksheet.rs assemble_xml_file"), ("chart", "src/chart.rs assemble_xml_file"), ("drawing", "src/drawing.rs assemble_xml_file"), ("styles", "src/styles.rs assemble_xml_file"), ("workbook", "src/workbook.rs assemble_xml_file"), ("legacy drawing", "src/vml.rs assemble_xml_file"), ("labels of a series", "src/chart.rs write_data_label"), ("date axis", "src/chart.rs write_date_ax")],
  ["the XML parts of the saved file"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
