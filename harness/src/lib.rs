#[macro_use]
pub mod util;
pub mod c_fault;
pub mod c_io;
pub mod c_more;
pub mod c_num;
pub mod c_state;
pub mod c_sys;
pub mod c_user;
pub mod gen;
pub mod mon;
pub mod oracle;
pub mod rep;
pub mod rng;
pub mod sim;
