//! Helpers for checks that run on several ranks.
use mpi::traits::*;

pub fn rank() -> i32 {
    mpi::topology::SimpleCommunicator::world().rank()
}
pub fn size() -> usize {
    mpi::topology::SimpleCommunicator::world().size() as usize
}

/// The lists of all ranks.
pub fn gather(values: &[f64]) -> Vec<Vec<f64>> {
    let world = mpi::topology::SimpleCommunicator::world();
    let n = world.size() as usize;
    let count = values.len() as i32;
    let mut counts = vec![0i32; n];
    world.all_gather_into(&count, &mut counts[..]);
    let displs: Vec<i32> = counts.iter().scan(0, |s, c| { let d = *s; *s += c; Some(d) }).collect();
    let mut all = vec![0f64; counts.iter().sum::<i32>() as usize];
    {
        let mut partition = mpi::datatype::PartitionMut::new(&mut all[..], &counts[..], &displs[..]);
        world.all_gather_varcount_into(values, &mut partition);
    }
    (0..n).map(|r| all[displs[r] as usize..(displs[r] + counts[r]) as usize].to_vec()).collect()
}

pub fn finish(ctx: engine::Ctx) -> ! {
    mpi::topology::SimpleCommunicator::world().barrier();
    // Like dropping the universe: no further MPI calls after this.
    subsweep::communication::MPI_UNIVERSE.drop();
    ctx.finish()
}

/// A fixed random number in [0, 1).
pub fn random(name: u32, i: u32) -> f64 {
    let mut h = (name as u64) << 32 | (i as u64 + 1);
    for _ in 0..2 {
        h = (h ^ (h >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        h = (h ^ (h >> 27)).wrapping_mul(0x94d049bb133111eb);
        h ^= h >> 31;
    }
    (h >> 11) as f64 / (1u64 << 53) as f64
}
