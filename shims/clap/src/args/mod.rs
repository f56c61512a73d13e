pub use self::any_arg::{AnyArg, DispOrder};
pub use self::arg::Arg;
pub use self::arg_builder::{Base, FlagBuilder, OptBuilder, PosBuilder, Switched, Valued};
pub use self::arg_matcher::ArgMatcher;
pub use self::arg_matches::{ArgMatches, OsValues, Values};
pub use self::group::ArgGroup;
pub use self::matched_arg::MatchedArg;
pub use self::settings::{ArgFlags, ArgSettings};
pub use self::subcommand::SubCommand;

#[macro_use]
mod macros;
pub mod any_arg;
mod arg;
mod arg_builder;
mod arg_matcher;
mod arg_matches;
mod group;
mod matched_arg;
pub mod settings;
mod subcommand;
