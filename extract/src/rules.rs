//! The fixed tables of the extraction.

/// `use` leaves and path prefixes that are redirected to the contract shims.
pub const REMAP: &[(&[&str], &str)] = &[
    (&["std", "io"], "crate::vio"),
    (&["std", "fs"], "crate::vfs"),
    (&["std", "path"], "crate::vfs"),
    (&["std", "collections"], "crate::vmap"),
    (&["std", "mem"], "crate::vmem"),
    (&["uuid"], "crate::vuuid"),
    (&["simple_bytes"], "crate::vsb"),
    (&["crc"], "crate::vcrc"),
    (&["String", "from_utf8_lossy"], "crate::vstr::from_utf8_lossy"),
    (&["String", "from_utf16_lossy"], "crate::vstr::from_utf16_lossy"),
];

/// `use` leaves that are dropped (only used by dropped items).
pub fn use_dropped(path: &[String]) -> bool {
    let p: Vec<&str> = path.iter().map(|s| s.as_str()).collect();
    matches!(
        p.as_slice(),
        ["std", "fmt"] | ["std", "error", ..] | ["bitflags", ..] | ["std", "convert", ..]
    )
}

/// Trait impls that are not extracted: formatting and marker impls without
/// effect on any property.
pub fn impl_dropped(tr: &str) -> bool {
    matches!(tr, "fmt::Debug" | "fmt::Display" | "std::error::Error" | "Debug" | "Display" | "std::fmt::Debug" | "std::fmt::Display")
}
