#![allow(dead_code, deprecated)]
pub mod rt;
pub mod ctl;
#[cfg(any(feature = "strm_h", feature = "tstr_h"))]
pub mod drain;

macro_rules! mods { ($($f:literal $m:ident)*) => { $( #[cfg(feature = $f)] mod $m; )* } }
mods! {
    "demo" demo
    "compat_h" compat_h
    "test_h" test_h
    "task_h" task_h
    "exec_h" exec_h
    "tstr_h" tstr_h
    "io_h" io_h
    "sink_h" sink_h
    "cons_h" cons_h
    "strm_h" strm_h
    "sel_h" sel_h
    "fu_h" fu_h
    "fut_h" fut_h
    "sync_h" sync_h
    "oneshot_h" oneshot_h
    "mpsc_h" mpsc_h
}
