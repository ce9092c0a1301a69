fn main() { let o = std::env::var("OUT_DIR").unwrap(); std::fs::copy("watcher_c.rs", std::path::Path::new(&o).join("watcher_c.rs")).unwrap(); println!("cargo:rerun-if-changed=watcher_c.rs"); println!("cargo:rustc-check-cfg=cfg(sx_replay)"); }
