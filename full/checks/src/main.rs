#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#![cfg_attr(not(feature = "all"), allow(unused))]
// One feature per group of checks, so that one that does not build does not take the others along.
#[cfg(feature = "boxes")]
mod boxes;
#[cfg(feature = "chemistry")]
mod chemistry;
#[cfg(feature = "cosmos")]
mod cosmos;
#[cfg(feature = "delaunay")]
mod delaunay;
mod exact;
mod geometry;
mod mpiutil;
#[cfg(feature = "messages")]
mod messages;
#[cfg(feature = "pipeline")]
mod pipeline;
#[cfg(feature = "params")]
mod params;
#[cfg(feature = "run")]
mod run;
#[cfg(feature = "transport")]
mod transport;

use engine::Ctx;
use subsweep::communication::MPI_UNIVERSE;

fn main() {
    #[cfg(feature = "run")]
    run::keep_environment();
    let property = std::env::args().nth(1).expect("usage: full_checks PROPERTY");
    let ctx = Ctx::from_env(&property);
    let with_mpi = |ctx: Ctx| {
        use mpi::traits::Communicator;
        let world = MPI_UNIVERSE.world();
        ctx.mpi(world.rank(), world.size())
    };
    match property.as_str() {
        #[cfg(feature = "delaunay")]
        "C13" => delaunay::run(ctx),
        #[cfg(feature = "delaunay")]
        "C14" => delaunay::run_cells(ctx),
        #[cfg(feature = "transport")]
        "C15" => transport::run(with_mpi(ctx)),
        #[cfg(feature = "transport")]
        "C16" => transport::run_timesteps(ctx),
        #[cfg(feature = "chemistry")]
        "C17" => chemistry::run(ctx),
        #[cfg(feature = "pipeline")]
        "C19" => pipeline::run(with_mpi(ctx)),
        #[cfg(feature = "pipeline")]
        "C20" => pipeline::run_grid(with_mpi(ctx)),
        #[cfg(feature = "pipeline")]
        "C29" => pipeline::run_cartesian(with_mpi(ctx)),
        #[cfg(feature = "boxes")]
        "C30" => boxes::run(ctx),
        #[cfg(feature = "messages")]
        "C31" => messages::run(with_mpi(ctx)),
        #[cfg(feature = "cosmos")]
        "C32" => cosmos::run(ctx),
        #[cfg(feature = "run")]
        "C22" => run::run(ctx),
        #[cfg(feature = "params")]
        "C24" => params::run(ctx),
        #[cfg(feature = "run")]
        "C23" => run::output::run(ctx),
        #[cfg(feature = "run")]
        "C25" => run::stars::run(ctx),
        #[cfg(feature = "run")]
        "C27" => run::remap::run(ctx),
        #[cfg(feature = "run")]
        "C28" => run::construct::run(ctx),
        #[cfg(feature = "run")]
        "C26" => run::run_directions(ctx),
        #[cfg(feature = "chemistry")]
        "C18" => chemistry::run_rates(ctx),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(2)
        }
    }
}
