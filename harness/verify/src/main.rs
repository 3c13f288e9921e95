//! Monitors over the verifier-only build.
mod chunks;
mod hostile;
mod models;
mod ops;
mod proofs;
mod queries;
mod shapes;
mod world;

#[global_allocator]
static ALLOC: vcommon::MonitorAlloc = vcommon::MonitorAlloc;

fn main() {
    vcommon::main(&[("P01", proofs::p01), ("P03", proofs::p03), ("P04", hostile::p04), ("P05", chunks::p05), ("P06", ops::p06), ("P07", shapes::p07), ("E03", shapes::e03), ("Q05", shapes::q05), ("Q06", shapes::q06), ("Q02", queries::q02), ("Q03", queries::q03), ("Q04", queries::q04)]);
}
