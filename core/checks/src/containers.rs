//! C09, C10: containers against simple models, over operation histories.
use std::collections::{BTreeMap, HashMap};

use engine::{ensure, ensure_eq, Ctx, Outcome};
use generational_arena::Index;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use subsweep::communication::{DataByRank, SizedCommunicator};
use subsweep::sweep::verif::{CountByDir, DirectionIndex};
use subsweep::verif::quadtree;
use subsweep::voronoi::verif::{IndexedArena, IndexedVec};

// ------------------------------------------------------------------------------- data by rank

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Start {
    Empty,
    Default,
    SizeAndRank(usize, i32),
    Communicator(usize, i32),
    Others(usize, i32, u32),
    All(usize, i32, u32),
    Closure(usize, i32),
    Pairs(Vec<(u32, u32)>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Insert(u32, u32),
    Get(u32),
    GetMut(u32, u32),
    IndexMut(u32, u32),
    Remove(u32),
    Iterate,
    MutateAll(u32),
    Drain,
    DrainSome(u8),
    Clone,
    Collect,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    start: Start,
    ops: Vec<Op>,
    /// How the container is read out in the end.
    consume: bool,
}

struct Fake(usize, i32);
impl SizedCommunicator for Fake {
    fn size(&self) -> usize {
        self.0
    }
    fn rank(&self) -> i32 {
        self.1
    }
}

fn history() -> impl Strategy<Value = History> {
    let size = || prop_oneof![40 => 1..10usize, 1 => 10..600usize].prop_flat_map(|n| (Just(n), 0..n as i32));
    let start = prop_oneof![
        2 => Just(Start::Empty),
        1 => Just(Start::Default),
        2 => size().prop_map(|(n, r)| Start::SizeAndRank(n, r)),
        1 => size().prop_map(|(n, r)| Start::Communicator(n, r)),
        1 => (size(), any::<u32>()).prop_map(|((n, r), v)| Start::Others(n, r, v)),
        1 => (size(), any::<u32>()).prop_map(|((n, r), v)| Start::All(n, r, v)),
        1 => size().prop_map(|(n, r)| Start::Closure(n, r)),
        2 => prop::collection::vec((0..12u32, any::<u32>()), 0..8).prop_map(Start::Pairs),
    ];
    let rank = || prop_oneof![2000 => 0..14u32, 40 => 14..600u32, 1 => 65_000..67_000u32];
    let op = prop_oneof![
        6 => (rank(), any::<u32>()).prop_map(|(r, v)| Op::Insert(r, v)),
        2 => rank().prop_map(Op::Get),
        2 => (rank(), any::<u32>()).prop_map(|(r, v)| Op::GetMut(r, v)),
        2 => (rank(), any::<u32>()).prop_map(|(r, v)| Op::IndexMut(r, v)),
        3 => rank().prop_map(Op::Remove),
        2 => Just(Op::Iterate),
        1 => any::<u32>().prop_map(Op::MutateAll),
        1 => Just(Op::Drain),
        1 => (0..6u8).prop_map(Op::DrainSome),
        1 => Just(Op::Clone),
        1 => Just(Op::Collect),
    ];
    (start, prop::collection::vec(op, 0..25), any::<bool>()).prop_map(|(start, ops, consume)| History { start, ops, consume })
}

type Model = BTreeMap<i32, u32>;

fn same(data: &DataByRank<u32>, model: &Model, slots: usize) -> Result<(), String> {
    let items: Vec<(i32, u32)> = data.iter().map(|(r, v)| (r, *v)).collect();
    let expected: Vec<(i32, u32)> = model.iter().map(|(r, v)| (*r, *v)).collect();
    ensure_eq!(items, expected, "contents");
    for r in 0..slots as i32 {
        ensure_eq!(data.get(&r), model.get(&r), "value of rank {r}");
    }
    Ok(())
}

fn by_rank(h: &History) -> Outcome {
    let others = |n: usize, me: i32, v: u32| (0..n as i32).filter(|r| *r != me).map(|r| (r, v)).collect::<Model>();
    // `slots`: ranks below this may be asked for.
    let (mut data, mut model, mut slots): (DataByRank<u32>, Model, usize) = match &h.start {
        Start::Empty => (DataByRank::empty(), Model::new(), 0),
        Start::Default => (DataByRank::default(), Model::new(), 0),
        Start::SizeAndRank(n, r) => (DataByRank::from_size_and_rank(*n, *r), others(*n, *r, 0), *n),
        Start::Communicator(n, r) => (DataByRank::from_communicator(&Fake(*n, *r)), others(*n, *r, 0), *n),
        Start::Others(n, r, v) => {
            (DataByRank::same_for_other_ranks_in_communicator(*v, &Fake(*n, *r)), others(*n, *r, *v), *n)
        }
        Start::All(n, r, v) => (DataByRank::same_for_all_ranks_in_communicator(*v, &Fake(*n, *r)), others(*n, -1, *v), *n),
        Start::Closure(n, r) => (DataByRank::from_closure_size_and_rank(|| 17, *n, *r), others(*n, *r, 17), *n),
        Start::Pairs(p) => (
            p.iter().map(|(r, v)| (*r as i32, *v)).collect(),
            p.iter().map(|(r, v)| (*r as i32, *v)).collect(),
            p.iter().map(|(r, _)| *r as usize + 1).max().unwrap_or(0),
        ),
    };
    same(&data, &model, slots)?;
    let (mut inserts, mut holes) = (0, false);
    for (i, op) in h.ops.iter().enumerate() {
        let within = |r: &u32| (*r as usize) < slots;
        match op {
            Op::Insert(r, v) => {
                data.insert(*r as i32, *v);
                model.insert(*r as i32, *v);
                slots = slots.max(*r as usize + 1);
                inserts += 1;
            }
            Op::Get(r) if within(r) => ensure_eq!(data.get(&(*r as i32)), model.get(&(*r as i32)), "step {i}: value of rank {r}"),
            Op::GetMut(r, v) if within(r) => {
                let got = data.get_mut(&(*r as i32));
                ensure_eq!(got.as_deref(), model.get(&(*r as i32)), "step {i}: value of rank {r}");
                if let Some(x) = got {
                    *x = *v;
                    model.insert(*r as i32, *v);
                }
            }
            Op::IndexMut(r, v) if model.contains_key(&(*r as i32)) => {
                ensure_eq!(data[*r as i32], model[&(*r as i32)], "step {i}: value of rank {r}");
                data[*r as i32] = *v;
                model.insert(*r as i32, *v);
            }
            Op::Remove(r) if within(r) => ensure_eq!(data.remove(&(*r as i32)), model.remove(&(*r as i32)), "step {i}: removed value of rank {r}"),
            Op::Iterate => same(&data, &model, slots)?,
            Op::MutateAll(v) => {
                let mut seen = vec![];
                for (r, x) in data.iter_mut() {
                    *x = x.wrapping_add(*v).wrapping_add(r as u32);
                    seen.push(r);
                }
                ensure_eq!(seen, model.keys().copied().collect::<Vec<_>>(), "step {i}: ranks visited");
                for (r, x) in model.iter_mut() {
                    *x = x.wrapping_add(*v).wrapping_add(*r as u32);
                }
            }
            Op::Drain => {
                let drained: Vec<(i32, u32)> = data.drain_all().collect();
                ensure_eq!(drained, model.iter().map(|(r, v)| (*r, *v)).collect::<Vec<_>>(), "step {i}: drained");
                model.clear();
                slots = 0;
            }
            Op::DrainSome(n) => {
                let drained: Vec<(i32, u32)> = data.drain_all().take(*n as usize).collect();
                let expected: Vec<_> = model.iter().map(|(r, v)| (*r, *v)).take(*n as usize).collect();
                ensure_eq!(drained, expected, "step {i}: the first ones drained");
                model.clear();
                slots = 0;
            }
            Op::Clone => {
                let mut copy = data.clone();
                same(&copy, &model, slots)?;
                // Changing the copy leaves the original alone.
                copy.insert(3, 99);
                same(&data, &model, slots)?;
            }
            Op::Collect => {
                let items: Vec<(i32, u32)> = data.iter().map(|(r, v)| (r, *v)).collect();
                same(&items.into_iter().rev().collect(), &model, 0)?;
            }
            _ => {}
        }
        same(&data, &model, slots).map_err(|e| format!("after step {i} ({op:?}): {e}"))?;
        holes |= model.len() < slots && !model.is_empty();
    }
    // Containers of lists count their elements.
    let lists: DataByRank<Vec<u8>> = model.iter().map(|(r, v)| (*r, vec![0; *v as usize % 500])).collect();
    ensure_eq!(lists.size(), model.values().map(|v| *v as usize % 500).sum::<usize>(), "number of elements");
    let expected: Vec<(i32, u32)> = model.into_iter().collect();
    if h.consume {
        ensure_eq!(data.into_iter().collect::<Vec<_>>(), expected, "consumed");
    }
    Ok(if holes {
        "with absent ranks".into()
    } else if inserts > 0 || !expected.is_empty() {
        "without absent ranks".into()
    } else {
        "".into()
    })
}

pub fn run_by_rank(mut ctx: Ctx) {
    let n = ctx.cases(300_000, 3_000_000);
    ctx.stage("by-rank", "histories of up to 24 operations on ranks 0-13, sometimes up to 67000, from eight constructors; non-trivial: something is ever contained", n, history(), by_rank);
    ctx.finish()
}

// -------------------------------------------------------------------------------------- arenas

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Id(Index);
impl From<Index> for Id {
    fn from(i: Index) -> Self {
        Id(i)
    }
}
impl From<Id> for Index {
    fn from(i: Id) -> Self {
        i.0
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Num(usize);
impl From<usize> for Num {
    fn from(i: usize) -> Self {
        Num(i)
    }
}
impl From<Num> for usize {
    fn from(i: Num) -> Self {
        i.0
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum ArenaOp {
    Insert(u32),
    /// Of all ids ever handed out, the n-th (modulo).
    Remove(usize),
    Get(usize),
    Set(usize, u32),
    Contains(usize),
    Reserve(u8),
    Iterate,
    Clone,
}

fn arena_ops() -> impl Strategy<Value = Vec<ArenaOp>> {
    let which = || any::<prop::sample::Index>().prop_map(|i| i.index(1 << 20));
    let op = prop_oneof![
        6 => any::<u32>().prop_map(ArenaOp::Insert),
        4 => which().prop_map(ArenaOp::Remove),
        2 => which().prop_map(ArenaOp::Get),
        2 => (which(), any::<u32>()).prop_map(|(i, v)| ArenaOp::Set(i, v)),
        2 => which().prop_map(ArenaOp::Contains),
        1 => (1..=255u8).prop_map(ArenaOp::Reserve),
        1 => Just(ArenaOp::Iterate),
        1 => Just(ArenaOp::Clone),
    ];
    prop::collection::vec(op, 1..60)
}

fn arena(ops: &Vec<ArenaOp>) -> Outcome {
    let mut arena: IndexedArena<Id, u32> = IndexedArena::default();
    // All ids ever handed out and what they denote now.
    let mut ids: Vec<(Id, Option<u32>)> = vec![];
    let mut list: IndexedVec<Num, u32> = IndexedVec::default();
    let mut values: Vec<u32> = vec![];
    let (mut reused, mut removed) = (false, false);
    for (i, op) in ops.iter().enumerate() {
        let pick = |n: usize| if ids.is_empty() { None } else { Some(n % ids.len()) };
        match op {
            ArenaOp::Insert(v) => {
                let id = arena.insert(*v);
                ensure!(ids.iter().all(|(other, _)| *other != id), "step {i}: id {id:?} is handed out twice");
                reused |= removed;
                ids.push((id, Some(*v)));
                let num = list.insert(*v);
                ensure_eq!(num, Num(values.len()), "step {i}: id of the list entry");
                values.push(*v);
            }
            ArenaOp::Remove(n) => {
                if let Some(k) = pick(*n) {
                    ensure_eq!(arena.remove(ids[k].0), ids[k].1, "step {i}: removed value");
                    removed |= ids[k].1.is_some();
                    ids[k].1 = None;
                }
            }
            ArenaOp::Get(n) => {
                if let Some(k) = pick(*n) {
                    ensure_eq!(arena.get(ids[k].0), ids[k].1.as_ref(), "step {i}: value");
                    ensure_eq!(list[Num(k)], values[k], "step {i}: list entry {k}");
                }
            }
            ArenaOp::Set(n, v) => {
                if let Some(k) = pick(*n) {
                    if ids[k].1.is_some() {
                        arena[ids[k].0] = *v;
                        ids[k].1 = Some(*v);
                    }
                    list[Num(k)] = *v;
                    values[k] = *v;
                }
            }
            ArenaOp::Contains(n) => {
                if let Some(k) = pick(*n) {
                    ensure_eq!(arena.contains(ids[k].0), ids[k].1.is_some(), "step {i}: whether the id is in use");
                }
            }
            ArenaOp::Reserve(n) => {
                arena.reserve(*n as usize);
                list.reserve(*n as usize);
            }
            ArenaOp::Iterate => {}
            ArenaOp::Clone => {
                let mut copy = arena.clone();
                copy.insert(1);
                if let Some((id, _)) = ids.iter().find(|(_, v)| v.is_some()) {
                    copy.remove(*id);
                }
            }
        }
        let alive = ids.iter().filter(|(_, v)| v.is_some()).count();
        ensure_eq!(arena.len(), alive, "step {i}: number of values");
        ensure!(arena.size() >= alive, "step {i}: capacity {} for {alive} values", arena.size());
        for (id, v) in ids.iter() {
            ensure_eq!(arena.get(*id), v.as_ref(), "step {i}: value of {id:?}");
            ensure_eq!(arena.contains(*id), v.is_some(), "step {i}: whether {id:?} is in use");
            if let Some(v) = v {
                ensure_eq!(arena[*id], *v, "step {i}: value of {id:?}");
            }
        }
        let mut got: Vec<(Index, u32)> = arena.iter().map(|(id, v)| (id.0, *v)).collect();
        let mut expected: Vec<(Index, u32)> = ids.iter().filter_map(|(id, v)| v.map(|v| (id.0, v))).collect();
        got.sort();
        expected.sort();
        ensure_eq!(got, expected, "step {i}: all values");
        let got: Vec<(usize, u32)> = list.iter().map(|(n, v)| (n.0, *v)).collect();
        ensure_eq!(got, values.iter().copied().enumerate().collect::<Vec<_>>(), "step {i}: the list");
    }
    let mut got: Vec<u32> = arena.into_iter().collect();
    let mut expected: Vec<u32> = ids.iter().filter_map(|(_, v)| *v).collect();
    got.sort();
    expected.sort();
    ensure_eq!(got, expected, "values of the consumed arena");
    ensure_eq!(list.into_iter().collect::<Vec<_>>(), values, "values of the consumed list");
    Ok(if reused {
        "place used again".into()
    } else if removed {
        "something removed".into()
    } else {
        "".into()
    })
}

fn many(&(n, stride, reserve): &(usize, usize, bool)) -> Outcome {
    let mut arena: IndexedArena<Id, usize> = IndexedArena::default();
    let mut list: IndexedVec<Num, usize> = IndexedVec::default();
    let mut ids: Vec<Id> = vec![];
    let mut gone: Vec<Id> = vec![];
    if reserve {
        arena.reserve(n);
        list.reserve(n);
    }
    let mut model: HashMap<Id, usize> = HashMap::new();
    for round in 0..2 {
        for i in 0..n {
            let value = round * n + i;
            let id = arena.insert(value);
            ensure!(model.insert(id, value).is_none(), "id {id:?} is handed out twice");
            ids.push(id);
            ensure_eq!(list.insert(value), Num(value), "id in the list");
        }
        for id in ids.iter().step_by(stride) {
            ensure_eq!(arena.remove(*id), model.remove(id), "value of {id:?}, removed");
            gone.push(*id);
        }
        ids.retain(|id| model.contains_key(id));
        ensure_eq!(arena.len(), model.len(), "number of values");
        for id in ids.iter() {
            ensure!(arena.get(*id) == model.get(id) && arena[*id] == model[id], "value of {id:?}");
        }
        for id in gone.iter() {
            ensure!(arena.get(*id).is_none() && !arena.contains(*id), "{id:?} is still there");
        }
        let all: HashMap<Id, usize> = arena.iter().map(|(id, v)| (id, *v)).collect();
        ensure!(all == model, "all values after round {round}");
    }
    for i in 0..2 * n {
        ensure_eq!(list[Num(i)], i, "entry of the list");
    }
    let all: Vec<(usize, usize)> = list.iter().map(|(i, v)| (i.0, *v)).collect();
    ensure!(all == (0..2 * n).map(|i| (i, i)).collect::<Vec<_>>(), "all entries of the list");
    Ok((n > 256).into())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Counts {
    directions: usize,
    start: usize,
    ops: Vec<(usize, Option<usize>)>,
}

fn counts(c: &Counts) -> Outcome {
    let mut counts = CountByDir::new(c.directions, c.start);
    let mut model = vec![c.start; c.directions];
    ensure_eq!(CountByDir::empty().total(), 0, "total of the empty counter");
    let mut reduced = false;
    for (i, (dir, set)) in c.ops.iter().enumerate() {
        let dir = dir % c.directions;
        match set {
            Some(v) => {
                counts[DirectionIndex(dir)] = *v;
                model[dir] = *v;
            }
            None if model[dir] > 0 => {
                model[dir] -= 1;
                ensure_eq!(counts.reduce(DirectionIndex(dir)), model[dir], "step {i}: count of direction {dir} after reducing it");
                reduced = true;
            }
            None => {}
        }
        ensure_eq!(counts.total(), model.iter().sum::<usize>(), "step {i}: total");
        for (d, n) in model.iter().enumerate() {
            ensure_eq!(counts[DirectionIndex(d)], *n, "step {i}: count of direction {d}");
        }
    }
    Ok(reduced.into())
}

fn codec(code: &u8) -> Outcome {
    use quadtree::*;
    let n = NUM_CHILDREN as u8;
    ensure!(NUM_CHILDREN == 8, "a node has {NUM_CHILDREN} children in three dimensions");
    let index = decode(*code);
    ensure_eq!(encode(index), *code, "code of the index with code {code}");
    ensure_eq!(decode(encode(index)), index, "index");
    ensure_eq!(index.is_none(), *code == encode(None), "whether {code} is the node itself");
    if let Some(i) = index {
        ensure!(show(Some(i)).parse::<u8>() == Ok(i) && show(None).is_empty(), "child {i} is shown as {}", show(Some(i)));
        for j in 0..n {
            ensure_eq!(encode(Some(i)) == encode(Some(j)), i == j, "codes of children {i}, {j}");
        }
    }
    Ok((*code <= n).into())
}

pub fn run_arena(mut ctx: Ctx) {
    let n = ctx.cases(100_000, 1_500_000);
    ctx.stage("arena", "histories of up to 59 operations on an arena and an indexed list; non-trivial: something is removed", n, arena_ops(), arena);
    let n = ctx.cases(400, 8_000);
    ctx.stage("many", "arenas of up to 100000 values, of which every second to ninth is removed, twice; non-trivial: more than 256 values", n,
        ((0..100_000usize, 0..12u32).prop_map(|(n, e)| n >> e), 2..10usize, any::<bool>()), many);
    let n = ctx.cases(100_000, 1_500_000);
    let large = || (0u64..1 << 50, 0..50u32).prop_map(|(x, e)| (x >> e) as usize);
    let op = (0..1000usize, prop_oneof![9 => Just(None), 3 => (0..50usize).prop_map(Some), 1 => large().prop_map(Some)]);
    let directions = prop_oneof![20 => 1..90usize, 1 => 90..1000usize];
    let case = (directions, prop_oneof![9 => 0..6usize, 1 => large()], prop::collection::vec(op, 0..60)).prop_map(|(directions, start, ops)| Counts { directions, start, ops });
    ctx.stage("counts", "histories on counters of 1-999 directions, with counts up to 2^50; non-trivial: something is counted down", n, case, counts);
    ctx.stage("codec", "codes of tree-node indices; non-trivial: the code of an existing index", 2000, 0..=8u8, codec);
    ctx.finish()
}
