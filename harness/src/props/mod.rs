pub mod conf;
pub mod errors;
pub mod ext;
pub mod load;
pub mod scale;
pub mod memory;
pub mod names;
pub mod pipe;
pub mod raw;
pub mod table;
pub mod text;
pub mod values;
