//! M03: the invocations are generated by csscheck.py and included from the path in CSS_SRC.
#![allow(dead_code, unused, mixed_script_confusables, uncommon_codepoints, confusable_idents)]
#[cfg(not(feature = "control"))]
include!(env!("CSS_SRC"));
#[cfg(feature = "control")]
pub fn control() -> async_ui_web::NoChild {
    async_ui_web::NoChild
}
