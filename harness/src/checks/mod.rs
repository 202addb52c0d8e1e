pub mod hostile;
pub mod isolate;
mod loops;
mod meta;
mod props;
mod relate;
mod single;
mod symmetry;
mod thermo;
pub mod sanitize;
pub mod text;
use crate::driver::Check;
pub use meta::meta;
pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(single::checks());
    v.extend(loops::checks());
    v.extend(props::checks());
    v.extend(hostile::checks());
    v.extend(isolate::checks());
    v.extend(relate::checks());
    v.extend(symmetry::checks());
    v.extend(thermo::checks());
    v.extend(text::checks());
    v.extend(sanitize::checks());
    v
}
