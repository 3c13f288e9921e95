//! Monitors over the whole database, on the store stand-in.
#![allow(dead_code)]
mod contexts;
mod costs;
mod epochs;
mod groups;
mod history;
mod obs;
mod prove;
mod reads;
mod logs;
mod model;
#[path = "../../verify/src/models.rs"]
mod models;
#[path = "../../verify/src/queries.rs"]
mod queries;
mod sim;
mod store;
mod sync;
mod versions;
mod views;
#[path = "../../verify/src/world.rs"]
mod world;

#[global_allocator]
static ALLOC: vcommon::MonitorAlloc = vcommon::MonitorAlloc;

fn main() {
    use groups::*;
    vcommon::main(&[
        ("P02", p02),
        ("V01", versions::v01),
        ("G01", g01),
        ("G02", g02),
        ("G03", g03),
        ("G04", g04),
        ("G05", g05),
        ("G06", g06),
        ("G07", g07),
        ("G08", g08),
        ("G09", costs::g09),
        ("G10", g10),
        ("G11", g11),
        ("G12", g12),
        ("G14", g14),
        ("S01", contexts::s01),
    ]);
}
