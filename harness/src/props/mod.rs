pub mod collections;
pub mod generator;
pub mod lookup;
pub mod meta;
pub mod opening;
pub mod sections;
pub mod system;
pub mod urls;
pub mod vlq;

use crate::runner::Property;

pub fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(vlq::properties());
    v.extend(generator::properties());
    v.extend(lookup::properties());
    v.extend(urls::properties());
    v.extend(sections::properties());
    v.extend(opening::properties());
    v.extend(collections::properties());
    v.extend(system::properties());
    v.extend(meta::properties());
    v.sort_by_key(|p| p.id);
    v
}
