use crate::engine::Prop;

mod atomic;
mod build;
mod cli;
mod codec;
pub mod damage;
mod ffi;
mod large;
pub mod lookup;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(atomic::props());
    v.extend(build::props());
    v.extend(cli::props());
    v.extend(ffi::props());
    v.extend(large::props());
    v.extend(codec::props());
    v.extend(lookup::props());
    v.extend(damage::props());
    v.sort_by_key(|p| p.id);
    v
}
