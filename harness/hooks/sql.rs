// Included into cathlamet::sql as module `verif` (see the hook there).
//# part names
pub use super::symbols::Name;
//# part database
pub mod schema { pub use crate::sql::schema::*; }
pub mod types { pub use crate::sql::types::*; }
//# part statements
pub mod ast { pub use crate::sql::ast::*; }
pub mod parser { pub use crate::sql::parser::SqlStatementParser; }
//# part typing
pub mod typing {
    pub use super::ast::typing::verif::*;
    pub use super::ast::typing::SetContext;
}
