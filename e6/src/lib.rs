pub use {auto_enums, futures03_crate, tokio1_crate, tokio03_crate, tokio02_crate, http_body1_crate};
