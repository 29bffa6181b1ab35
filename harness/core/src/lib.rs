#![allow(static_mut_refs)]
pub mod sym;
pub mod world;
#[cfg(feature = "entries")]
mod attenuate;
#[cfg(feature = "entries")]
mod chain;
#[cfg(feature = "entries")]
mod hold;
#[cfg(feature = "entries")]
mod ident;
#[cfg(feature = "entries")]
mod make;
#[cfg(feature = "entries")]
mod reduce;
#[cfg(feature = "entries")]
mod text;
#[cfg(feature = "entries")]
mod time;
#[cfg(feature = "entries")]
pub use attenuate::*;
#[cfg(feature = "entries")]
pub use chain::*;
#[cfg(feature = "entries")]
pub use hold::*;
#[cfg(feature = "entries")]
pub use ident::*;
#[cfg(feature = "entries")]
pub use make::*;
#[cfg(feature = "entries")]
pub use reduce::{c06_originators, c07_complete, c08_window, c09_selection, c09_large};
#[cfg(feature = "entries")]
pub use text::*;
#[cfg(feature = "entries")]
pub use time::*;
pub use world::reset;

#[cfg(feature = "entries")]
pub static ENTRIES: &[(&str, fn())] = &[
    ("c04_pairs", c04_pairs),
    ("c04_triples", c04_triples),
    ("c02_single", c02_single),
    ("c02_chain", c02_chain),
    ("c01_tree", c01_tree),
    ("c03_links", c03_links),
    ("c05_resolve", c05_resolve),
    ("c02_again", c02_again),
    ("c03_again", c03_again),
    ("c05_again", c05_again),
    ("c01_large", c01_large),
    ("c02_large", c02_large),
    ("c03_large", c03_large),
    ("c05_large", c05_large),
    ("c05_identifier", c05_identifier),
    ("c06_originators", c06_originators),
    ("c07_complete", c07_complete),
    ("c08_window", c08_window),
    ("c09_selection", c09_selection),
    ("c09_large", c09_large),
    ("a02_pairs", a02_pairs),
    ("a02_large", a02_large),
    ("a02_kinds", a02_kinds),
    ("a02_triples", a02_triples),
    ("a03_resources", a03_resources),
    ("a03_large", a03_large),
    ("a03_triples", a03_triples),
    ("a03_selections", a03_selections),
    ("a01_pairs", a01_pairs),
    ("a01_triples", a01_triples),
    ("a01_new", a01_new),
    ("a04_templates", a04_templates),
    ("a04_large", a04_large),
    ("a04_mutations", a04_mutations),
    ("a04_inserts", a04_inserts),
    ("a04_slips", a04_slips),
    ("a04_abilities", a04_abilities),
    ("a04_display", a04_display),
    ("a04_selectors", a04_selectors),
    ("a05_sequence", a05_sequence),
    ("a05_large", a05_large),
    ("a05_maps", a05_maps),
    ("a06_maps", a06_maps),
    ("a06_large", a06_large),
    ("t01_mutate", t01_mutate),
    ("t01_insert", t01_insert),
    ("t01_signature", t01_signature),
    ("t01_long", t01_long),
    ("t01_table", t01_table),
    ("t02_fields", t02_fields),
    ("t02_text", t02_text),
    ("t02_numbers", t02_numbers),
    ("t02_values", t02_values),
    ("t02_read", t02_read),
    ("w01_layout", w01_layout),
    ("t03_json", t03_json),
    ("t03_text", t03_text),
    ("t03_wide", t03_wide),
    ("t03_bytes", t03_bytes),
    ("t04_identifier", t04_identifier),
    ("b01_calls", b01_calls),
    ("b01_many", b01_many),
    ("b01_clone", b01_clone),
    ("b02_expiry", b02_expiry),
    ("b03_proofs", b03_proofs),
    ("b03_many", b03_many),
    ("b04_sign", b04_sign),
    ("k02_wrapped", k02_wrapped),
    ("k01_table", k01_table),
    ("k01_history", k01_history),
    ("k01_many", k01_many),
    ("k01_text", k01_text),
    ("i01_wrap", i01_wrap),
    ("i01_bytes", i01_bytes),
    ("i01_header", i01_header),
    ("i01_prefix", i01_prefix),
    ("i02_text", i02_text),
    ("i02_mutate", i02_mutate),
    ("i02_two", i02_two),
    ("i02_bytes", i02_bytes),
    ("i03_token", i03_token),
    ("i03_many", i03_many),
    ("i03_payload", i03_payload),
    ("i03_text", i03_text),
    ("i03_reject", i03_reject),
    ("m01_history", m01_history),
    ("m01_large", m01_large),
    ("m03_race", m03_race),
    ("m02_lookup", m02_lookup),
    ("m02_memory", m02_memory),
];
