pub mod vspec {
pub use crate::vspec_str::*;
pub use crate::vspec_tok::*;
pub use crate::vlem_tok::*;
pub use crate::vthm_tok::*;
pub use crate::vspec_dec::*;
pub use crate::vspec_enc::*;
pub use crate::vspec_rep::*;
pub use crate::vspec_tree::*;
pub use crate::vspec_exp::*;
pub use crate::vutf::*;
pub use vstd::std_specs::iter::IteratorSpec;
}
