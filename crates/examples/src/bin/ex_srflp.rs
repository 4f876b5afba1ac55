#![no_main]
#![allow(dead_code, unused_imports)]
include!(concat!(env!("EXAMPLES_SRC"), "/srflp/main.rs"));
#[path = "../mc_srflp.rs"]
mod mc;
