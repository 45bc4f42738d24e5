pub const HEAD: usize = 0;
pub const DESC: usize = 1;
pub const DISP: usize = 2;
pub const ATTR: usize = 3;
pub const CODE: usize = 4;
pub const JUMP: usize = 5;
pub const POOL: usize = 6;
pub const BORROW: usize = 7;
pub const NTAG: usize = 8;
pub const NAMES: [&str; NTAG] = ["head", "desc", "disp", "attr", "code", "jump", "pool", "borrow"];

#[derive(Default, Clone, PartialEq, Eq)]
pub struct Obs {
    pub b: [String; NTAG],
}
std::thread_local! {
    pub static PHASE: std::cell::Cell<&'static str> = const { std::cell::Cell::new("") };
}
