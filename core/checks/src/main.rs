#![allow(incomplete_features)]
#![feature(generic_const_exprs)]
#![cfg_attr(not(feature = "all"), allow(unused))]
// One feature per group of checks, so that one that does not build does not take the others along.
#[cfg(feature = "comm")]
mod comm;
#[cfg(feature = "containers")]
mod containers;
#[cfg(feature = "distribution")]
mod distribution;
mod exact;
#[cfg(feature = "extent")]
mod extent;
#[cfg(feature = "math")]
mod math;
#[cfg(feature = "peano")]
mod peano;
#[cfg(feature = "rotation")]
mod rotation;

use engine::Ctx;
use subsweep::communication::MPI_UNIVERSE;

fn main() {
    let property = std::env::args().nth(1).expect("usage: core_checks PROPERTY");
    let ctx = Ctx::from_env(&property);
    let with_mpi = |ctx: Ctx| {
        use mpi::traits::Communicator;
        let world = MPI_UNIVERSE.world();
        ctx.mpi(world.rank(), world.size())
    };
    match property.as_str() {
        #[cfg(feature = "peano")]
        "C01" => peano::run(ctx),
        #[cfg(feature = "math")]
        "C02" => math::run_signs(ctx),
        #[cfg(feature = "math")]
        "C03" => math::run_values(ctx),
        #[cfg(feature = "distribution")]
        "C04" => distribution::run_input(ctx),
        #[cfg(feature = "distribution")]
        "C05" => distribution::run_output(ctx),
        #[cfg(feature = "comm")]
        "C06" => comm::run_exchange(with_mpi(ctx)),
        #[cfg(feature = "comm")]
        "C07" => comm::run_collectives(with_mpi(ctx)),
        #[cfg(feature = "comm")]
        "C08" => comm::run_wire(with_mpi(ctx)),
        #[cfg(feature = "containers")]
        "C09" => containers::run_by_rank(ctx),
        #[cfg(feature = "containers")]
        "C10" => containers::run_arena(ctx),
        #[cfg(feature = "extent")]
        "C11" => extent::run(ctx),
        #[cfg(feature = "rotation")]
        "C12" => rotation::run(ctx),
        #[cfg(feature = "rotation")]
        "C21" => rotation::run_directions(ctx),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(2)
        }
    }
}
