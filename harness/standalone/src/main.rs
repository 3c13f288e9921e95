mod bulk;
mod costs;
mod dense;
mod elements;
mod flags;
mod memctx;
mod mmr;
mod models;
mod paths;
mod ranges;
mod ub;
mod work;

#[global_allocator]
static ALLOC: vcommon::MonitorAlloc = vcommon::MonitorAlloc;

fn main() {
    vcommon::main(&[
        ("C01", costs::c01),
        ("C02", work::c02),
        ("H01", paths::h01),
        ("E01", elements::e01),
        ("F01", flags::f01),
        ("D01", dense::d01),
        ("D02", dense::d02),
        ("B01", bulk::b01),
        ("B02", bulk::b02),
        ("M01", mmr::m01),
        ("M02", mmr::m02),
        ("Q01", ranges::q01),
        ("E02", elements::e02),
        ("G15", ub::g15),
    ]);
}
