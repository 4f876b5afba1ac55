#![no_main]
#![allow(dead_code, unused_imports)]
include!(concat!(env!("EXAMPLES_SRC"), "/psp/main.rs"));
#[path = "../mc_psp.rs"]
mod mc;
