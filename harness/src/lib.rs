pub mod rt;
#[cfg(feature = "nsm")] pub mod nsm;
pub mod storage;
#[cfg(feature = "util")] pub mod util;
#[cfg(feature = "json")] pub mod json;
#[cfg(any(feature = "mar", feature = "json", feature = "path", feature = "tparse"))] pub mod typ;
#[cfg(feature = "mar")] pub mod mar;
#[cfg(feature = "path")] pub mod path;
#[cfg(feature = "tparse")] pub mod tparse;
#[cfg(feature = "names")] pub mod names;
#[cfg(feature = "database")] pub mod database;
#[cfg(feature = "typing")] pub mod sqltype;
#[cfg(feature = "statements")] pub mod sqlparse;
macro_rules! harnesses {
    ($($part:tt $name:ident => $f:path;)*) => {
        $(#[cfg(feature = $part)] #[no_mangle] pub extern "C" fn $name() { $f() })*
        pub fn table() -> Vec<(&'static str, extern "C" fn())> { vec![$(#[cfg(feature = $part)] (stringify!($name), $name as extern "C" fn())),*] }
    }
}
harnesses! {
    "nsm" h_nsm_seq => nsm::seq;
    "nsm" h_nsm_ops => nsm::ops;
    "nsm" h_nsm_room => nsm::room;
    "nsm" h_nsm_drain => nsm::drain;
    "nsm" h_nsm_large => nsm::large;
    "mar" h_mar_read => mar::read;
    "mar" h_mar_any => mar::any;
    "mar" h_mar_bounds => mar::bounds;
    "mar" h_mar_long => mar::long;
    "mar" h_mar_wide => mar::wide;
    "mar" h_mar_packed => mar::packed;
    "mar" h_mar_corrupt => mar::corrupt;
    "mar" h_mar_overlap => mar::overlap;
    "json" h_json_tokens => json::tokens;
    "json" h_json_strings => json::strings;
    "json" h_json_roundtrip => json::roundtrip;
    "json" h_json_any => json::any;
    "json" h_json_labels => json::labels;
    "json" h_json_deep => json::deep;
    "json" h_json_wide => json::wide;
    "json" h_json_chopped => json::chopped;
    "json" h_json_documents => json::documents;
    "json" h_json_again => json::again;
    "json" h_json_ranges => json::ranges;
    "json" h_json_floats => json::floats;
    "json" h_json_refused => json::refused;
    "json" h_json_texts => json::texts;
    "json" h_json_long => json::long;
    "json" h_json_many => json::many;
    "path" h_path_relations => path::relations;
    "path" h_path_long => path::long_paths;
    "path" h_path_extend => path::extend;
    "path" h_path_names => path::names;
    "path" h_path_labels => path::labels;
    "path" h_path_positions => path::positions;
    "path" h_path_crowd => path::crowd;
    "path" h_path_foreign => path::foreign;
    "path" h_val_collection => path::collection;
    "path" h_val_kinds => path::kinds;
    "path" h_val_absent => path::absent;
    "path" h_val_many => path::many;
    "path" h_val_deep => path::deep;
    "path" h_val_texts => path::texts;
    "tparse" h_typ_short => tparse::short;
    "tparse" h_typ_edited => tparse::edited;
    "tparse" h_typ_spelled => tparse::spelled;
    "tparse" h_typ_large => tparse::large;
    "tparse" h_typ_foreign => tparse::foreign;
    "names" h_name_pairs => names::pairs;
    "names" h_name_chars => names::chars;
    "names" h_name_special => names::special;
    "names" h_name_lookup => names::lookup;
    "names" h_name_long => names::long;
    "database" h_db_create => database::create;
    "database" h_db_describe => database::describe;
    "database" h_db_many => database::many;
    "typing" h_sql_flat => sqltype::flat;
    "typing" h_sql_nested => sqltype::nested;
    "typing" h_sql_resolve => sqltype::resolve;
    "typing" h_sql_clauses => sqltype::clauses;
    "typing" h_sql_joins => sqltype::joins;
    "typing" h_sql_common => sqltype::common;
    "typing" h_sql_crowd => sqltype::crowd;
    "typing" h_sql_ordered => sqltype::ordered_sets;
    "typing" h_sql_nowhere => sqltype::nowhere;
    "typing" h_sql_items => sqltype::items;
    "typing" h_sql_values => sqltype::values;
    "typing" h_sql_operations => sqltype::operations;
    "typing" h_sql_limits => sqltype::limits;
    "typing" h_sql_insert => sqltype::insert;
    "typing" h_sql_update => sqltype::update;
    "typing" h_sql_delete => sqltype::delete;
    "typing" h_sql_describe => sqltype::describe;
    "typing" h_sql_wide_expression => sqltype::wide_expression;
    "typing" h_sql_wide_scope => sqltype::wide_scope;
    "typing" h_sql_wide_rows => sqltype::wide_rows;
    "typing" h_sql_wide_table => sqltype::wide_table;
    "statements" h_sqp_spelled => sqlparse::spelled;
    "statements" h_sqp_short => sqlparse::short;
    "statements" h_sqp_literals => sqlparse::literals;
    "statements" h_sqp_chains => sqlparse::chains;
    "statements" h_sqp_queries => sqlparse::queries;
    "statements" h_sqp_sets => sqlparse::sets;
    "statements" h_sqp_joins => sqlparse::joins;
    "statements" h_sqp_statements => sqlparse::statements;
    "statements" h_sqp_cases => sqlparse::cases;
    "statements" h_sqp_edited => sqlparse::edited;
    "statements" h_sqp_tokens => sqlparse::tokens;
    "statements" h_sqp_foreign => sqlparse::foreign;
    "statements" h_sqp_large => sqlparse::large;
    "util" h_util_align => util::align;
    "util" h_util_align_refuses => util::align_refuses;
    "util" h_util_bits => util::bits;
    "util" h_util_log2 => util::log2;
    "util" h_util_values => util::values;
    "helpers" h_util_storage_align => util::storage_align;
    "helpers" h_util_blocks => util::blocks;
    "locations" h_sto_location => storage::location;
    "locations" h_sto_location_order => storage::location_order;
    "volumes" h_sto_volumes => storage::volumes;
    "locations" h_sto_parameters => storage::parameters;
    "queues" h_sto_queues => storage::queues;
    "queues" h_sto_queue_step => storage::queue_step;
    "pool" h_sto_pool => storage::pool;
    "pool" h_sto_sizes => storage::sizes;
    "inside" h_sto_reuse => storage::reuse;
}
