//! C31: messages that name entities or particles.
use bevy_ecs::prelude::Entity;
use engine::{agree_over_mpi, ensure, ensure_eq, Ctx, Outcome};
use glam::DVec3;
use mpi::traits::{Communicator, Equivalence, MatchesRaw};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use subsweep::verif::HydrogenOnly;
use subsweep::communication::{CommunicatedOption, DataByRank, ExchangeCommunicator, Identified, MpiWorld};
use subsweep::components::{Position, Source};
use subsweep::prelude::ParticleId;
use subsweep::sweep::{DirectionIndex, RateData};
use subsweep::units::{PhotonRate, SourceRate, VecLength};

use crate::mpiutil as mu;

/// A value made of a number, and all its parts as bits.
trait Message {
    fn make(name: u64) -> Self;
    fn parts(&self) -> Vec<u64>;
}

fn mix(name: u64, i: u64) -> u64 {
    let mut h = name ^ i.wrapping_mul(0x9e3779b97f4a7c15);
    h = (h ^ (h >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    h = (h ^ (h >> 27)).wrapping_mul(0x94d049bb133111eb);
    h ^ (h >> 31)
}

/// Any number but NaN, whose bits may change on the way through a register.
fn float(name: u64) -> f64 {
    Some(f64::from_bits(name)).filter(|x| !x.is_nan()).unwrap_or(0.5)
}

macro_rules! message {
    ($t:ty, $name:ident => $make:expr, $v:ident => $parts:expr) => {
        impl Message for $t {
            fn make($name: u64) -> Self {
                $make
            }
            fn parts(&self) -> Vec<u64> {
                let $v = self;
                $parts
            }
        }
    };
}

message!(u8, n => n as u8, v => vec![*v as u64]);
message!(i32, n => n as i32, v => vec![*v as u32 as u64]);
message!(f64, n => float(n), v => vec![v.to_bits()]);
message!(ParticleId, n => ParticleId { index: n as u32, rank: (n >> 32) as i32 }, v => vec![v.index as u64, v.rank as u32 as u64]);
message!(Position, n => Position(VecLength::new_unchecked(DVec3::new(float(n), float(mix(n, 1)), float(mix(n, 2))))), v => v.0.value_unchecked().to_array().map(|x| x.to_bits()).to_vec());
message!(Source, n => Source(SourceRate::new_unchecked(float(n))), v => vec![v.0.value_unchecked().to_bits()]);
message!(RateData<HydrogenOnly>, n => RateData { id: ParticleId::make(n), dir: DirectionIndex(mix(n, 3) as usize), rate: PhotonRate::new_unchecked(float(mix(n, 4))), periodic: n & 8 > 0 }, v => [v.id.parts(), vec![v.dir.0 as u64, v.rate.value_unchecked().to_bits(), v.periodic as u64]].concat());

impl<T: Message + Clone> Message for CommunicatedOption<T> {
    fn make(name: u64) -> Self {
        Some(name).filter(|n| n & 16 > 0).map(T::make).into()
    }
    fn parts(&self) -> Vec<u64> {
        let option: Option<T> = self.clone().into();
        option.map(|o| [vec![1], o.parts()].concat()).unwrap_or(vec![0])
    }
}

/// Entities of any index and generation. (The highest bits are reserved.)
fn entity(name: u64) -> Entity {
    let generation = [0, 1, mix(name, 6) % 1000, mix(name, 7) >> 33][(name % 4) as usize];
    let index = [name & 15, mix(name, 8) & 0xffff_ffff][(name / 4 % 2) as usize];
    Entity::from_bits(generation << 32 | index)
}

impl<T: Message> Message for Identified<T> {
    fn make(name: u64) -> Self {
        Identified::new(entity(name), T::make(mix(name, 5)))
    }
    fn parts(&self) -> Vec<u64> {
        [vec![self.entity().to_bits()], self.data.parts()].concat()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MessageCase {
    kind: u8,
    values: Vec<u64>,
    stale: u64,
    entities: Vec<u64>,
}

fn same<T: Message>(got: &[T], names: &[u64], what: &str) -> Result<(), String> {
    let parts = |l: Vec<Vec<u64>>| l;
    let got = parts(got.iter().map(|v| v.parts()).collect());
    let expected = parts(names.iter().map(|n| T::make(*n).parts()).collect());
    ensure!(got == expected, "{}, {what}: got {got:x?}, expected {expected:x?}", std::any::type_name::<T>());
    Ok(())
}

fn exchanged<T: Message + Equivalence + 'static>(c: &MessageCase) -> Result<(), String>
where
    <T as Equivalence>::Out: MatchesRaw,
{
    let (me, n) = (mu::rank() as u64, mu::size() as u64);
    let world = mpi::topology::SimpleCommunicator::world();
    let mut result = Ok(());
    // Singly, into a place that held something else.
    for v in &c.values {
        let value = T::make(mix(*v, me));
        let mut target = T::make(c.stale);
        let bytes = world.pack(&value);
        unsafe { world.unpack_into(&bytes, &mut target, 0) };
        result = result.and(same(&[target], &[mix(*v, me)], "packed and unpacked"));
    }
    // From all ranks to all ranks, a different part to each.
    let name = |v: &u64, from: u64, to: u64| mix(*v, (from << 8) + to);
    let part = |from: u64, to: u64| -> Vec<u64> { c.values.iter().filter(|v| mix(**v, from ^ (to << 3)) % 3 > 0).map(|v| name(v, from, to)).collect() };
    let mut comm = ExchangeCommunicator::<T>::new();
    let data: DataByRank<Vec<T>> = (0..n).filter(|to| *to != me).map(|to| (to as i32, part(me, to).into_iter().map(T::make).collect())).collect();
    let received = comm.exchange_all(data);
    for from in (0..n).filter(|f| *f != me) {
        let got: &[T] = received.get(&(from as i32)).map(|l| &l[..]).unwrap_or(&[]);
        result = result.and(same(got, &part(from, me), "exchanged"));
    }
    result
}

fn gathered<T: Message + Equivalence + Clone + 'static>(c: &MessageCase) -> Result<(), String>
where
    <T as Equivalence>::Out: MatchesRaw,
{
    let (me, n) = (mu::rank() as u64, mu::size() as u64);
    let mut result = exchanged::<T>(c);
    let name = |v: &u64, r: u64| mix(*v, (r << 8) + r);
    let part = |r: u64| -> Vec<u64> { c.values.iter().filter(|v| mix(**v, r ^ (r << 3)) % 3 > 0).map(|v| name(v, r)).collect() };
    let mut comm = MpiWorld::<T>::new();
    let mine: Vec<T> = part(me).into_iter().map(T::make).collect();
    result = result.and(same(&mine.clone(), &part(me), "copied"));
    let all: Vec<u64> = (0..n).flat_map(part).collect();
    result = result.and(same(&comm.all_gather_varcount(&mine), &all, "gathered"));
    let all: Vec<u64> = (0..n).map(|r| name(&c.stale, r)).collect();
    result.and(same(&comm.all_gather(&T::make(name(&c.stale, me))), &all, "one from each rank"))
}

/// Entities that come and go; those sent away and back are the ones that are still there.
fn entities(c: &MessageCase) -> Result<(), String> {
    let mut world = bevy_ecs::world::World::new();
    let mut alive: Vec<(Entity, u64)> = vec![];
    for (i, e) in c.entities.iter().enumerate() {
        if e % 3 == 0 && !alive.is_empty() {
            let (entity, _) = alive.swap_remove((*e as usize / 3) % alive.len());
            world.despawn(entity);
        } else {
            alive.push((world.spawn(ParticleId::make(i as u64)).id(), i as u64));
        }
    }
    let mpi = mpi::topology::SimpleCommunicator::world();
    for (entity, name) in alive {
        let request = Identified::new(entity, name as i32);
        let mut arrived = Identified::new(Entity::from_raw(0), 0);
        let bytes = mpi.pack(&request);
        unsafe { mpi.unpack_into(&bytes, &mut arrived, 0) };
        let reply = Identified::new(arrived.entity(), arrived.data);
        let found = world.get::<ParticleId>(reply.entity()).map(|p| p.index as u64);
        ensure_eq!(found, Some(name), "a reply to {entity:?} finds particle");
    }
    Ok(())
}

fn message_test(c: &MessageCase) -> Outcome {
    let result = match c.kind {
        0 => gathered::<Identified<u8>>(c),
        1 => gathered::<Identified<i32>>(c),
        2 => gathered::<Identified<f64>>(c),
        3 => gathered::<Identified<Position>>(c),
        4 => gathered::<Identified<ParticleId>>(c),
        5 => gathered::<Identified<CommunicatedOption<f64>>>(c),
        6 => gathered::<CommunicatedOption<Identified<i32>>>(c),
        7 => gathered::<Identified<Identified<u8>>>(c),
        8 => gathered::<ParticleId>(c),
        9 => gathered::<Position>(c),
        10 => gathered::<Source>(c),
        11 => exchanged::<RateData<HydrogenOnly>>(c),
        _ => gathered::<CommunicatedOption<ParticleId>>(c),
    };
    result.and(entities(c))?;
    Ok(format!("kind {}", c.kind).into())
}

pub fn run(mut ctx: Ctx) {
    let n = ctx.cases(4000, 60_000);
    let bits = || prop_oneof![any::<u64>(), 0..256u64, Just(u64::MAX)];
    ctx.stage_agreeing(
        "messages",
        "1-11 values of 13 message types with any bits, entities of any index and generation; histories of up to 30 entities that come and go; non-trivial: all",
        n,
        (0..13u8, prop::collection::vec(bits(), 1..12), bits(), prop::collection::vec(any::<u64>(), 0..30))
            .prop_map(|(kind, values, stale, entities)| MessageCase { kind, values, stale, entities }),
        message_test,
        agree_over_mpi,
        true,
    );
    mu::finish(ctx)
}
