// Included into cathlamet::sql::ast::typing as module `verif` (see the hook there).
//# part typing
use super::*;

pub fn context(database: &schema::Database, default_schema: symbols::Name) -> SetContext { SetContext::new(database, default_schema) }
/// The columns of the rows of a SELECT statement: name, type, whether they can be NULL.
pub fn columns(select: &SelectStatement, context: &SetContext) -> Result<Vec<(symbols::Name, types::DataType, bool)>, Error> {
    let row = select.infer_type(context)?;
    Ok(row.attributes.iter().map(|a| (a.name.clone(), a.typ, a.is_null)).collect())
}
