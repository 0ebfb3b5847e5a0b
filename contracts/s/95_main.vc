@file src/main.rs mod bin
@dropuse *
@use use crate::vspec::*; use crate::vio::*; use crate::cli::{io_done, io_reason};
@fn main
@ghost Tracked(io): Tracked<&mut Io>
@gcall run exit eprintln => Tracked(io)
@spec
    requires old(io).fresh()
    ensures io_done(*final(io))
