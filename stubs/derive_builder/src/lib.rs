pub use derive_builder_macro::Builder;
