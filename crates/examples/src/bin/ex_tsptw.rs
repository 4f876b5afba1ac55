#![no_main]
#![allow(dead_code, unused_imports)]
include!(concat!(env!("EXAMPLES_SRC"), "/tsptw/main.rs"));
#[path = "../mc_tsptw.rs"]
mod mc;
