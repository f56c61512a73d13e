pub use self::base::Base;
pub use self::flag::FlagBuilder;
pub use self::option::OptBuilder;
pub use self::positional::PosBuilder;
pub use self::switched::Switched;
pub use self::valued::Valued;

mod base;
mod flag;
mod option;
mod positional;
mod switched;
mod valued;
