//@item src/decoder.rs MAX_COMPONENTS
pub const MAX_COMPONENTS: usize = 4;
//@end
