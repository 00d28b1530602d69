use crate::engine::Check;

pub struct Prop {
    pub id: &'static str,
    pub check: Check,
    /// Total cases over all shards, per configuration.
    pub quick: u64,
    pub thorough: u64,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    /// Build configurations of the quick tier (the thorough tier uses all).
    pub configs: &'static [&'static str],
}

mod basic;
mod convert;
mod encoder;
mod giant;
mod keys;
mod leaks;
mod lookup;
mod mutable;
mod scopes;
mod serdes;
mod untrusted;
mod work;

pub const ALL: &[Prop] = &[basic::C01, basic::C02, lookup::C03, lookup::C26, lookup::C27,
    untrusted::C04, untrusted::C05, untrusted::C06, untrusted::C22,
    encoder::C07, encoder::C08, encoder::C09, encoder::C23, encoder::C25, keys::C10, keys::C11, keys::C28,
    scopes::C12, scopes::C13, scopes::C14, mutable::C15, mutable::C16, mutable::C17,
    convert::C21, convert::C24, serdes::C18, serdes::C19, serdes::C20, leaks::C29, work::C30];

/// Run after the cases of the property they are named for.
pub const GIANT: &[Prop] = &[giant::C05, giant::C06, giant::C08, giant::C23];

pub fn probe(name: &str) -> i32 {
    match name {
        "deep-nesting" => untrusted::probe_deep(),
        "doubling" => untrusted::probe_doubling(),
        "dangling-key" => scopes::probe_dangling_key(),
        _ => 2,
    }
}
