//! C06-C08: communication among any number of ranks. All ranks run the same cases in lockstep.
use std::fmt::Debug;
use std::time::{Duration, Instant};

use engine::{agree_over_mpi, ensure, ensure_eq, Ctx, Outcome};
use mpi::request::scope;
use mpi::traits::{Communicator as _, Equivalence};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use subsweep::communication::communicator::Communicator;
use subsweep::communication::exchange_communicator::divide_into_chunks_with_same_num_globally;
use subsweep::communication::{
    CommunicatedOption, DataByRank, ExchangeCommunicator, MpiWorld, SizedCommunicator, MPI_UNIVERSE,
};
use subsweep::sweep::verif::DirectionIndex;
use subsweep::verif::{WorldRank, Extent, PeanoKey2d, PeanoKey3d};

/// Cases describe up to this many ranks; only the existing ones are used.
const MAX_RANKS: usize = 9;

fn me() -> usize {
    MPI_UNIVERSE.world().rank() as usize
}
fn ranks() -> usize {
    MPI_UNIVERSE.world().size() as usize
}

fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x9e3779b97f4a7c15u64;
    for p in parts {
        h ^= *p;
        h = h.wrapping_mul(0xbf58476d1ce4e5b9);
        h ^= h >> 29;
    }
    h
}

/// A value that can be sent and compared, made from 64 random bits.
trait Val: Equivalence + Clone + Debug + 'static {
    fn make(bits: u64) -> Self;
    fn same(&self, other: &Self) -> bool;
}
macro_rules! int_val {
    ($($t:ty),*) => {$(impl Val for $t {
        fn make(bits: u64) -> Self { bits as $t }
        fn same(&self, other: &Self) -> bool { self == other }
    })*};
}
int_val!(u8, i16, u16, i32, u32, i64, u64, usize, isize);
impl Val for f64 {
    fn make(bits: u64) -> Self {
        // All kinds of values: any bit pattern, and ordinary ones.
        match bits % 4 {
            0 => f64::from_bits(bits),
            1 => (bits >> 40) as f64,
            2 => -((bits >> 12) as f64) * 1e-9,
            _ => [0.0, -0.0, f64::INFINITY, f64::NAN, f64::MIN_POSITIVE, 5e-324][(bits >> 8) as usize % 6],
        }
    }
    fn same(&self, other: &Self) -> bool {
        self.to_bits() == other.to_bits()
    }
}
impl Val for f32 {
    fn make(bits: u64) -> Self {
        f32::from_bits((bits >> 7) as u32)
    }
    fn same(&self, other: &Self) -> bool {
        self.to_bits() == other.to_bits()
    }
}
impl Val for bool {
    fn make(bits: u64) -> Self {
        bits & 16 != 0
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}
#[derive(Clone, Debug, Equivalence, PartialEq)]
struct Mixed {
    flag: bool,
    ids: [i32; 3],
    byte: u8,
    word: u64,
}
impl Val for Mixed {
    fn make(b: u64) -> Self {
        Mixed { flag: b & 1 == 1, ids: [b as i32, (b >> 16) as i32, (b >> 32) as i32], byte: (b >> 5) as u8, word: !b }
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}
impl Val for DirectionIndex {
    fn make(bits: u64) -> Self {
        DirectionIndex(bits as usize)
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}
impl Val for PeanoKey2d {
    fn make(bits: u64) -> Self {
        PeanoKey2d(bits)
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}
impl Val for PeanoKey3d {
    fn make(bits: u64) -> Self {
        PeanoKey3d(((bits as u128) << 64) | mix(&[bits]) as u128)
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}
/// Optional values compare as `Option`s.
impl<T: Val> Val for CommunicatedOption<T> {
    fn make(bits: u64) -> Self {
        let o: Option<T> = if bits & 4 == 0 { None } else { Some(T::make(mix(&[bits]))) };
        o.into()
    }
    fn same(&self, other: &Self) -> bool {
        let a: Option<T> = self.clone().into();
        let b: Option<T> = other.clone().into();
        match (a, b) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(&b),
            _ => false,
        }
    }
}

/// `Extent` has no `Debug`; a newtype that prints it.
#[derive(Clone)]
struct Box1<P>(Extent<P>);
impl<P: Debug> Debug for Box1<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "[{:?} {:?} {:?}]", self.0.min, self.0.max, self.0.center)
    }
}
unsafe impl<P: Equivalence> Equivalence for Box1<P> {
    type Out = <Extent<P> as Equivalence>::Out;
    fn equivalent_datatype() -> Self::Out {
        Extent::<P>::equivalent_datatype()
    }
}
impl<P: Val> Val for Box1<P> {
    fn make(bits: u64) -> Self {
        Box1(Extent { min: P::make(mix(&[bits, 1])), max: P::make(mix(&[bits, 2])), center: P::make(mix(&[bits, 3])) })
    }
    fn same(&self, o: &Self) -> bool {
        self.0.min.same(&o.0.min) && self.0.max.same(&o.0.max) && self.0.center.same(&o.0.center)
    }
}

fn same_all<T: Val>(got: &[T], expected: &[T], what: &str) -> Result<(), String> {
    ensure_eq!(got.len(), expected.len(), "number of values ({what})");
    for (i, (g, e)) in got.iter().zip(expected).enumerate() {
        ensure!(g.same(e), "{what}: value {i} is {g:?}, expected {e:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- exchange

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum How {
    Absent,
    Exchange,
    SendFirst,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cell {
    how: How,
    len: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Round {
    exchanger: u8,
    /// [from][to]
    cells: Vec<Vec<Cell>>,
    delay: Vec<u16>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Round(Round),
    /// Something is sent on the first exchanger, a whole round takes place on another one, then the first round ends.
    Nested(Round, Round),
    SameForAll { exchanger: u8, lens: Vec<usize>, delay: Vec<u16> },
    Chunks { lens: Vec<usize>, chunk: usize },
    /// Very many items without content, at most this many chunks on a rank.
    ManyInChunks { lens: Vec<usize>, chunks: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Exchange {
    salt: u64,
    ops: Vec<Op>,
}

fn len() -> impl Strategy<Value = usize> {
    prop_oneof![3 => Just(0usize), 6 => 1..6usize, 3 => 6..300usize, 1 => 300..3000usize, 1 => 20_000..80_000usize]
}
fn delays() -> impl Strategy<Value = Vec<u16>> {
    prop_oneof![
        3 => Just(vec![0; MAX_RANKS]),
        2 => prop::collection::vec(prop_oneof![Just(0u16), 0..400u16], MAX_RANKS),
    ]
}
fn cell() -> impl Strategy<Value = Cell> {
    (prop_oneof![2 => Just(How::Absent), 5 => Just(How::Exchange), 2 => Just(How::SendFirst)], len())
        .prop_map(|(how, len)| Cell { how, len: if how == How::SendFirst { len % 40 } else { len } })
}
fn round() -> impl Strategy<Value = Round> {
    let cells = prop::collection::vec(prop::collection::vec(cell(), MAX_RANKS), MAX_RANKS);
    (0..4u8, cells, delays()).prop_map(|(exchanger, cells, delay)| Round { exchanger, cells, delay })
}
fn exchange() -> impl Strategy<Value = Exchange> {
    let lens = || prop::collection::vec(len(), MAX_RANKS);
    let op = prop_oneof![
        5 => round().prop_map(Op::Round),
        1 => (round(), round()).prop_map(|(a, mut b)| {
            if a.exchanger == b.exchanger { b.exchanger = (b.exchanger + 1) % 4; }
            Op::Nested(a, b)
        }),
        2 => (0..4u8, lens(), delays()).prop_map(|(exchanger, lens, delay)| Op::SameForAll { exchanger, lens, delay }),
        2 => (prop::collection::vec(prop_oneof![Just(0usize), 0..40usize, 0..3000usize], MAX_RANKS),
              prop_oneof![1..10usize, 1..300usize]).prop_map(|(lens, chunk)| Op::Chunks { lens, chunk }),
        1 => (prop::collection::vec((0u64..1 << 60, 0..60u32).prop_map(|(x, e)| (x >> e) as usize), MAX_RANKS), 1..40usize)
            .prop_map(|(lens, chunks)| Op::ManyInChunks { lens, chunks }),
    ];
    let number = prop_oneof![40 => 1..6usize, 1 => 6..40usize];
    let ops = number.prop_flat_map(move |n| prop::collection::vec(op.clone(), n));
    (any::<u32>(), ops).prop_map(|(salt, ops)| Exchange { salt: salt as u64, ops })
}

struct Exchangers {
    a: ExchangeCommunicator<u64>,
    b: ExchangeCommunicator<f64>,
    c: ExchangeCommunicator<Mixed>,
    d: ExchangeCommunicator<u32>,
}

fn wait(delay: &[u16]) {
    let d = delay[me()];
    if d > 0 {
        std::thread::sleep(Duration::from_micros(d as u64));
    }
}

fn payload<T: Val>(salt: u64, from: usize, to: usize, len: usize) -> Vec<T> {
    (0..len).map(|i| T::make(mix(&[salt, from as u64, to as u64, i as u64]))).collect()
}

fn check_received<T: Val>(
    received: DataByRank<Vec<T>>,
    expected: impl Fn(usize) -> Vec<T>,
) -> Result<(), String> {
    let mut from: Vec<usize> = vec![];
    for (rank, data) in received {
        let rank = rank as usize;
        same_all(&data, &expected(rank), &format!("received from rank {rank}"))?;
        from.push(rank);
    }
    let all: Vec<usize> = (0..ranks()).filter(|r| *r != me()).collect();
    ensure_eq!(from, all, "ranks something was received from");
    Ok(())
}

fn start<T: Val>(ex: &mut ExchangeCommunicator<T>, r: &Round, salt: u64) {
    let cells = &r.cells[me()];
    for to in (0..ranks()).filter(|to| *to != me()) {
        if cells[to].how == How::SendFirst {
            ex.blocking_send_vec(to as i32, payload(salt, me(), to, cells[to].len));
        }
    }
}

fn end<T: Val>(ex: &mut ExchangeCommunicator<T>, r: &Round, salt: u64) -> Result<(), String> {
    wait(&r.delay);
    let cells = &r.cells[me()];
    let others = (0..ranks()).filter(|to| *to != me());
    let exchanged: Vec<usize> = others.filter(|to| cells[*to].how == How::Exchange).collect();
    let received = if exchanged.is_empty() {
        ex.receive_vec()
    } else {
        ex.exchange_all(exchanged.iter().map(|to| (*to as i32, payload(salt, me(), *to, cells[*to].len))).collect::<DataByRank<Vec<T>>>())
    };
    check_received(received, |from| {
        let cell = &r.cells[from][me()];
        if cell.how == How::Absent { vec![] } else { payload(salt, from, me(), cell.len) }
    })
}

fn same_for_all<T: Val>(ex: &mut ExchangeCommunicator<T>, lens: &[usize], salt: u64) -> Result<(), String> {
    // Everybody sends the same to all: the addressee is left out of the content.
    let received = ex.exchange_same_for_all(&payload::<T>(salt, me(), 99, lens[me()]));
    check_received(received, |from| payload(salt, from, 99, lens[from]))
}

macro_rules! on {
    ($exs:expr, $which:expr, $f:ident ( $($arg:expr),* )) => {
        match $which {
            0 => $f(&mut $exs.a, $($arg),*),
            1 => $f(&mut $exs.b, $($arg),*),
            2 => $f(&mut $exs.c, $($arg),*),
            _ => $f(&mut $exs.d, $($arg),*),
        }
    };
}

fn exchange_case(c: &Exchange) -> Outcome {
    let mut exs = Exchangers {
        a: ExchangeCommunicator::new(),
        b: ExchangeCommunicator::new(),
        c: ExchangeCommunicator::new(),
        d: ExchangeCommunicator::from(Communicator::<u32>::new_custom_tag(77)),
    };
    // No rank may leave early: the others would wait for it.
    let mut failure: Result<(), String> = Ok(());
    let mut note = |i: usize, result: Result<(), String>| {
        if let (Ok(()), Err(e)) = (&failure, result) {
            failure = Err(format!("operation {i}: {e}"));
        }
    };
    if (exs.a.size(), exs.a.rank() as usize) != (ranks(), me()) {
        note(0, Err("wrong size or rank of the exchanger".into()));
    }
    let mut sent = 0;
    let mut absent = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let salt = mix(&[c.salt, i as u64]);
        let mut count = |r: &Round| {
            for (from, to) in (0..ranks()).flat_map(|f| (0..ranks()).map(move |t| (f, t))).filter(|(f, t)| f != t) {
                if r.cells[from][to].how == How::Absent {
                    absent += 1;
                } else {
                    sent += r.cells[from][to].len;
                }
            }
        };
        match op {
            Op::Round(r) => {
                count(r);
                on!(exs, r.exchanger, start(r, salt));
                note(i, on!(exs, r.exchanger, end(r, salt)));
            }
            Op::Nested(a, b) => {
                count(a);
                count(b);
                on!(exs, a.exchanger, start(a, salt));
                on!(exs, b.exchanger, start(b, salt + 1));
                let first = on!(exs, b.exchanger, end(b, salt + 1));
                let second = on!(exs, a.exchanger, end(a, salt));
                note(i, first.map_err(|e| format!("inner round: {e}")));
                note(i, second.map_err(|e| format!("outer round: {e}")));
            }
            Op::SameForAll { exchanger, lens, delay } => {
                wait(delay);
                sent += lens[..ranks()].iter().sum::<usize>();
                note(i, on!(exs, *exchanger, same_for_all(lens, salt)));
            }
            Op::Chunks { lens, chunk } => {
                let mine: Vec<u64> = payload(salt, me(), 0, lens[me()]);
                let chunks: Vec<&[u64]> = divide_into_chunks_with_same_num_globally(&mine, *chunk).collect();
                let num = lens[..ranks()].iter().map(|l| l.div_ceil(*chunk)).max().unwrap();
                if chunks.len() != num {
                    note(i, Err(format!("{} chunks of up to {chunk} of {lens:?}, not {num}", chunks.len())));
                }
                if chunks.iter().any(|c| c.len() > *chunk) {
                    note(i, Err(format!("a chunk exceeds {chunk}")));
                }
                note(i, same_all(&chunks.concat(), &mine, "all chunks together"));
                sent += mine.len();
            }
            Op::ManyInChunks { lens, chunks } => {
                let chunk = lens[..ranks()].iter().max().unwrap() / chunks + 1;
                let mine = vec![(); lens[me()]];
                // Not more of them than there should be, in case they do not end.
                let got: Vec<usize> = divide_into_chunks_with_same_num_globally(&mine, chunk).map(|c| c.len()).take(1000).collect();
                let num = lens[..ranks()].iter().map(|l| l.div_ceil(chunk)).max().unwrap();
                if got.len() != num || got.iter().sum::<usize>() != mine.len() || got.iter().any(|n| *n > chunk) {
                    note(i, Err(format!("{} items of {lens:?} in {num} chunks of up to {chunk} come as {got:?}", mine.len())));
                }
                sent += mine.len();
            }
        }
    }
    failure?;
    Ok(if sent == 0 {
        "".into()
    } else if ranks() > 1 && absent > 0 {
        format!("{} ranks, some without message", ranks()).into()
    } else {
        format!("{} ranks", ranks()).into()
    })
}

pub fn run_exchange(mut ctx: Ctx) {
    let n = ctx.cases(3000, 30_000);
    ctx.stage_agreeing(
        "exchange",
        "histories of up to 5 rounds (also interleaved ones) on four exchangers, and chunked data; non-trivial: something is sent",
        n,
        exchange(),
        exchange_case,
        agree_over_mpi,
        true,
    );
    finish(ctx)
}

// ---------------------------------------------------------------------------------- collectives

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Message {
    from: usize,
    to: usize,
    channel: usize,
    len: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    Gather { kind: u8 },
    GatherLists { kind: u8, lens: Vec<usize> },
    /// Sum, minimum and maximum of these.
    Reduce { ints: Vec<i32>, floats: Vec<f64> },
    Sum64 { values: Vec<u64> },
    Same { values: Vec<u8> },
    Messages { messages: Vec<Message>, immediate: bool, probe: bool, turn: usize },
    /// The next rank gets a message in each of these types, which have the same size.
    Types { sent: u8, turn: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Calls {
    salt: u64,
    calls: Vec<Call>,
    delay: Vec<u16>,
}

fn calls() -> impl Strategy<Value = Calls> {
    let small_len = prop_oneof![2 => Just(0usize), 5 => 1..5usize, 2 => 0..40usize];
    let ints = prop_oneof![
        prop::collection::vec(-5..5i32, MAX_RANKS),
        prop::collection::vec(-1_000_000..1_000_000i32, MAX_RANKS),
    ];
    let float = prop_oneof![-10.0..10.0f64, -1e300..1e300f64, Just(0.0), (-30..30i32).prop_map(|e| 10f64.powi(e))];
    let message = (0..MAX_RANKS, 0..MAX_RANKS, 0..3usize, prop_oneof![40 => 0..30usize, 10 => 10_000..30_000usize, 1 => 60_000..140_000usize])
        .prop_map(|(from, to, channel, len)| Message { from, to, channel, len });
    let call = prop_oneof![
        2 => (0..6u8).prop_map(|kind| Call::Gather { kind }),
        3 => (0..6u8, prop::collection::vec(prop_oneof![40 => small_len, 10 => 0..3000usize, 1 => 60_000..70_000usize], MAX_RANKS))
            .prop_map(|(kind, lens)| Call::GatherLists { kind, lens }),
        3 => (ints, prop::collection::vec(float, MAX_RANKS)).prop_map(|(ints, floats)| Call::Reduce { ints, floats }),
        1 => prop::collection::vec(prop_oneof![0..100u64, 0..(1u64 << 60)], MAX_RANKS).prop_map(|values| Call::Sum64 { values }),
        2 => prop_oneof![
            (any::<u8>(), 0..MAX_RANKS, 0..3u8).prop_map(|(v, i, d)| { let mut x = vec![v; MAX_RANKS]; x[i] = v.wrapping_add(d); x }),
            prop::collection::vec(0..2u8, MAX_RANKS),
        ].prop_map(|values| Call::Same { values }),
        4 => (prop::collection::vec(message, 0..20), any::<bool>(), any::<bool>(), 0..9usize)
            .prop_map(|(mut messages, immediate, probe, turn)| {
                if !immediate {
                    // A blocking send of much data, or to oneself, may wait for the receiver.
                    messages.iter_mut().for_each(|m| m.len %= 30);
                }
                Call::Messages { messages, immediate, probe, turn }
            }),
    ];
    let call = prop_oneof![15 => call, 1 => (any::<u8>(), any::<u8>()).prop_map(|(sent, turn)| Call::Types { sent, turn })];
    (any::<u32>(), prop::collection::vec(call, 1..6), delays())
        .prop_map(|(salt, calls, delay)| Calls { salt: salt as u64, calls, delay })
}

fn gather<T: Val>(salt: u64) -> Result<(), String> {
    let value = |r: usize| T::make(mix(&[salt, r as u64]));
    let got = MpiWorld::<T>::new().all_gather(&value(me()));
    same_all(&got, &(0..ranks()).map(value).collect::<Vec<_>>(), "gathered")
}

fn gather_lists<T: Val>(salt: u64, lens: &[usize]) -> Result<(), String> {
    let list = |r: usize| payload::<T>(salt, r, 0, lens[r]);
    let got = MpiWorld::<T>::new().all_gather_varcount(&list(me()));
    same_all(&got, &(0..ranks()).flat_map(list).collect::<Vec<_>>(), &format!("gathered lists of lengths {:?}", &lens[..ranks()]))
}

macro_rules! for_kind {
    ($kind:expr, $f:ident ( $($arg:expr),* )) => {
        match $kind {
            0 => $f::<u8>($($arg),*),
            1 => $f::<f64>($($arg),*),
            2 => $f::<i32>($($arg),*),
            3 => $f::<Mixed>($($arg),*),
            4 => $f::<usize>($($arg),*),
            _ => $f::<bool>($($arg),*),
        }
    };
}

fn reduce(ints: &[i32], floats: &[f64]) -> Result<(), String> {
    let (ints, floats) = (&ints[..ranks()], &floats[..ranks()]);
    // First all calls, then the comparisons: no rank may leave early.
    let mut world = MpiWorld::<i32>::new();
    let int = ints[me()];
    let (sum, sum64): (i32, i64) = (world.all_gather_sum(&int), world.all_gather_sum(&int));
    let (min, max): (Option<i32>, Option<i64>) = (world.all_gather_min(&int), world.all_gather_max(&int));
    let mut world = MpiWorld::<f64>::new();
    let float = floats[me()];
    let (fmin, fmax): (Option<f64>, Option<f64>) = (world.all_gather_min(&float), world.all_gather_max(&float));
    let fsum: f64 = world.all_gather_sum(&float);
    ensure_eq!(sum, ints.iter().sum::<i32>(), "sum of {ints:?}");
    ensure_eq!(sum64, ints.iter().map(|i| *i as i64).sum::<i64>(), "sum of {ints:?}");
    ensure_eq!(min, ints.iter().min().copied(), "minimum of {ints:?}");
    ensure_eq!(max, ints.iter().max().map(|i| *i as i64), "maximum of {ints:?}");
    let min = floats.iter().copied().fold(f64::INFINITY, f64::min);
    let max = floats.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    ensure_eq!(fmin, Some(min), "minimum of {floats:?}");
    ensure_eq!(fmax, Some(max), "maximum of {floats:?}");
    let (expected, scale) = (floats.iter().sum::<f64>(), floats.iter().map(|f| f.abs()).sum::<f64>());
    ensure!((fsum - expected).abs() <= 1e-14 * scale, "sum of {floats:?} is {fsum}");
    Ok(())
}

fn messages(salt: u64, messages: &[Message], immediate: bool, probe: bool, turn: usize) -> Result<(), String> {
    let channels = 3;
    // Tags that differ in a few low or high bits.
    let tags = mix(&[salt]) as i32 & 0x7fff;
    let other = tags ^ 1 << (turn % 15);
    let mut worlds: Vec<MpiWorld<u64>> = vec![MpiWorld::new(), MpiWorld::new_custom_tag(tags), MpiWorld::new_custom_tag(other)];
    let real: Vec<(usize, &Message)> = messages
        .iter()
        .enumerate()
        .filter(|(_, m)| m.from < ranks() && m.to < ranks() && (immediate || m.from != m.to))
        .collect();
    let content = |i: usize, m: &Message| payload::<u64>(salt ^ i as u64, m.from, m.to, m.len);
    let mine: Vec<(usize, usize, Vec<u64>)> = real
        .iter()
        .filter(|(_, m)| m.from == me())
        .map(|(i, m)| (m.to, m.channel, content(*i, m)))
        .collect();
    let result = scope(|scope| {
        let mut guards = vec![];
        for (to, channel, data) in mine.iter() {
            if immediate {
                guards.extend(worlds[*channel].immediate_send_vec_wait_guard(scope, *to as i32, data));
            } else {
                worlds[*channel].blocking_send_vec(*to as i32, data);
            }
        }
        let mut result = Ok(());
        // The lines (sender, channel) in some order, each line in the order of sending.
        let lines = ranks() * channels;
        for step in 0..lines {
            let line = if turn % 2 == 0 { (step + turn) % lines } else { (2 * lines + turn % lines - step) % lines };
            let (from, channel) = (line / channels, line % channels);
            for (i, m) in real.iter().filter(|(_, m)| m.to == me() && m.from == from && m.channel == channel) {
                let got = if probe {
                    let begin = Instant::now();
                    loop {
                        match worlds[channel].try_receive_vec(from as i32) {
                            Some(data) => break Some(data),
                            None if begin.elapsed() > Duration::from_secs(60) => break None,
                            None => {}
                        }
                    }
                } else {
                    Some(worlds[channel].receive_vec(from as i32))
                };
                let checked = match got {
                    None => Err(format!("message {i} ({m:?}) is not found within a minute")),
                    Some(data) => same_all(&data, &content(*i, m), &format!("message {i} ({m:?})")),
                };
                result = result.and(checked);
            }
        }
        result
    });
    MPI_UNIVERSE.barrier();
    let mut result: Result<(), String> = result;
    for from in 0..ranks() {
        for (channel, world) in worlds.iter_mut().enumerate() {
            if let Some(left) = world.try_receive_vec(from as i32) {
                result = result.and(Err(format!("a message of length {} from rank {from} on channel {channel} that nobody sent", left.len())));
            }
        }
    }
    // Nobody may send again before everybody has looked.
    MPI_UNIVERSE.barrier();
    result
}

fn send_one<T: Val>(salt: u64, kind: usize, sent: u8, next: i32, _: usize) -> Result<(), String> {
    if sent >> kind & 1 == 1 {
        MpiWorld::<T>::new().blocking_send_vec(next, &payload::<T>(salt ^ kind as u64, me(), next as usize, kind + 1));
    }
    Ok(())
}

fn receive_one<T: Val>(salt: u64, kind: usize, sent: u8, _: i32, previous: usize) -> Result<(), String> {
    let mut world = MpiWorld::<T>::new();
    if sent >> kind & 1 == 1 {
        let got = world.receive_vec(previous as i32);
        same_all(&got, &payload::<T>(salt ^ kind as u64, previous, me(), kind + 1), &format!("message of type {kind}"))?;
    }
    match world.try_receive_vec(previous as i32) {
        None => Ok(()),
        Some(left) => Err(format!("a message of length {} of type {kind} that nobody sent", left.len())),
    }
}

/// Communicators of different types are different channels.
fn types(salt: u64, sent: u8, turn: u8) -> Result<(), String> {
    if ranks() == 1 {
        return Ok(());
    }
    let next = ((me() + 1) % ranks()) as i32;
    let previous = (me() + ranks() - 1) % ranks();
    let mut result = Ok(());
    type Step = fn(u64, usize, u8, i32, usize) -> Result<(), String>;
    let mut all = |steps: [Step; 5]| {
        for k in 0..5 {
            let kind = (if turn % 2 == 0 { k } else { 4 - k } + turn as usize) % 5;
            let got = steps[kind](salt, kind, sent, next, previous);
            let so_far = std::mem::replace(&mut result, Ok(()));
            result = so_far.and(got);
        }
    };
    all([send_one::<u64>, send_one::<i64>, send_one::<f64>, send_one::<usize>, send_one::<isize>]);
    MPI_UNIVERSE.barrier();
    all([receive_one::<u64>, receive_one::<i64>, receive_one::<f64>, receive_one::<usize>, receive_one::<isize>]);
    MPI_UNIVERSE.barrier();
    result
}

fn calls_case(c: &Calls) -> Outcome {
    wait(&c.delay);
    let world = MpiWorld::<u8>::new();
    let all: Vec<i32> = (0..ranks() as i32).collect();
    let others: Vec<i32> = all.iter().copied().filter(|r| *r as usize != me()).collect();
    // No rank may leave early: the others would wait for it.
    let mut failure = Ok(());
    let main: Vec<usize> = (0..ranks()).filter(|r| WorldRank(*r as i32).is_main()).collect();
    if main != [0] || WorldRank::main() != 0 {
        failure = Err(format!("the main rank is {}, those that think so are {main:?}", WorldRank::main()));
    }
    if (world.all_ranks(), world.other_ranks()) != (all, others) {
        failure = Err(format!("all ranks: {:?}, other ranks: {:?}", world.all_ranks(), world.other_ranks()));
    }
    for (i, call) in c.calls.iter().enumerate() {
        let salt = mix(&[c.salt, i as u64]);
        let result: Result<(), String> = match call {
            Call::Gather { kind } => for_kind!(kind, gather(salt)),
            Call::GatherLists { kind, lens } => for_kind!(kind, gather_lists(salt, lens)),
            Call::Reduce { ints, floats } => reduce(ints, floats),
            Call::Sum64 { values } => {
                let got = MpiWorld::<f64>::new().all_reduce_sum(&values[me()]);
                let expected: u64 = values[..ranks()].iter().sum();
                if got == expected { Ok(()) } else { Err(format!("sum of {values:?} over {} ranks is {got}", ranks())) }
            }
            Call::Same { values } => {
                let values = &values[..ranks()];
                let same = values.iter().all(|v| *v == values[0]);
                let got = MpiWorld::<u8>::new().all_ranks_have_same_value(&values[me()]);
                let got_f = MpiWorld::<u8>::new().all_ranks_have_same_value(&(values[me()] as f64 / 3.0));
                if (got, got_f) == (same, same) { Ok(()) } else { Err(format!("values {values:?} are reported as equal: {got}, {got_f}")) }
            }
            Call::Types { sent, turn } => types(salt, *sent, *turn),
            Call::Messages { messages: m, immediate, probe, turn } => messages(salt, m, *immediate, *probe, *turn),
        };
        failure = failure.and(result.map_err(|e| format!("call {i}: {e}")));
    }
    failure?;
    let kind = match &c.calls[0] {
        Call::Gather { .. } => "gather",
        Call::GatherLists { .. } => "gather lists",
        Call::Reduce { .. } => "reduce",
        Call::Sum64 { .. } => "sum",
        Call::Same { .. } => "same value",
        Call::Messages { messages, .. } if messages.is_empty() => return Ok("".into()),
        Call::Messages { .. } => "messages",
        Call::Types { .. } => "types",
    };
    Ok(format!("{} ranks, {kind}", ranks()).into())
}

pub fn run_collectives(mut ctx: Ctx) {
    let n = ctx.cases(8000, 80_000);
    ctx.stage_agreeing(
        "collectives",
        "histories of up to 5 collective calls or message batches over several value types; non-trivial: the first is not an empty batch",
        n,
        calls(),
        calls_case,
        agree_over_mpi,
        true,
    );
    finish(ctx)
}

// ----------------------------------------------------------------------------------------- wire

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wire {
    kind: u8,
    values: Vec<u64>,
    stale: u64,
}

fn wire() -> impl Strategy<Value = Wire> {
    let bits = prop_oneof![any::<u64>(), 0..256u64, Just(0u64), Just(u64::MAX)];
    (0..NUM_KINDS, prop::collection::vec(bits, 1..12), any::<u64>())
        .prop_map(|(kind, values, stale)| Wire { kind, values, stale })
}

fn wire_of<T: Val>(c: &Wire, singly: bool) -> Result<(), String> {
    let name = std::any::type_name::<T>();
    let name = name.rsplit_once("::").map(|x| x.1).unwrap_or(name);
    let values: Vec<T> = c.values.iter().map(|b| T::make(mix(&[*b, me() as u64]))).collect();
    let world = MPI_UNIVERSE.world();
    // Singly, into a buffer that held something else before.
    // (No rank may leave early: the others would wait for it in the collective calls below.)
    let mut single = Ok(());
    for value in values.iter() {
        let mut target = T::make(c.stale);
        let bytes = world.pack(value);
        unsafe { world.unpack_into(&bytes, &mut target, 0) };
        if !target.same(value) {
            single = Err(format!("{name}: packed {value:?}, unpacked {target:?}"));
        }
        if !value.clone().same(value) {
            single = Err(format!("{name}: the clone of {value:?} differs"));
        }
    }
    if singly {
        return single;
    }
    // As a sequence, to the next rank (possibly oneself).
    let n = ranks();
    let from = (me() + n - 1) % n;
    let mut comm = MpiWorld::<T>::new();
    let received = scope(|scope| {
        let _guard = comm.immediate_send_vec_wait_guard(scope, ((me() + 1) % n) as i32, &values);
        comm.receive_vec(from as i32)
    });
    let expected: Vec<T> = c.values.iter().map(|b| T::make(mix(&[*b, from as u64]))).collect();
    let sequence = same_all(&received, &expected, &format!("{name} sent as a sequence"));
    // Gathered.
    let all = |k: usize| -> Vec<T> { (0..n).map(|r| T::make(mix(&[c.values[k], r as u64]))).collect() };
    let gathered = same_all(&comm.all_gather(&values[0]), &all(0), &format!("{name} gathered"));
    let len_of = |r: usize| (c.values.len() + r) % (c.values.len() + 1);
    let lists: Vec<T> = (0..n).flat_map(|r| c.values[..len_of(r)].iter().map(move |b| T::make(mix(&[*b, r as u64])))).collect();
    let varying = same_all(&comm.all_gather_varcount(&values[..len_of(me())]), &lists, &format!("{name} gathered lists"));
    single.and(sequence).and(gathered).and(varying)
}

const NUM_KINDS: u8 = 19;

fn wire_case(c: &Wire) -> Outcome {
    type Opt<T> = CommunicatedOption<T>;
    match c.kind {
        0 => wire_of::<Opt<u8>>(c, false),
        1 => wire_of::<Opt<i32>>(c, false),
        2 => wire_of::<Opt<f64>>(c, false),
        3 => wire_of::<Opt<Mixed>>(c, false),
        4 => wire_of::<Opt<Opt<u16>>>(c, false),
        5 => wire_of::<Opt<Box1<f64>>>(c, false),
        6 => wire_of::<Opt<PeanoKey3d>>(c, true),
        7 => wire_of::<Opt<bool>>(c, false),
        8 => wire_of::<Opt<i16>>(c, false),
        9 => wire_of::<Box1<f64>>(c, false),
        10 => wire_of::<Box1<i32>>(c, false),
        11 => wire_of::<Box1<f32>>(c, false),
        12 => wire_of::<Box1<Opt<u64>>>(c, false),
        13 => wire_of::<Box1<Mixed>>(c, false),
        14 => wire_of::<PeanoKey2d>(c, false),
        15 => wire_of::<PeanoKey3d>(c, false),
        16 => wire_of::<DirectionIndex>(c, false),
        17 => wire_of::<Opt<DirectionIndex>>(c, false),
        _ => wire_of::<Opt<PeanoKey2d>>(c, false),
    }?;
    // Copies of an optional value that owns something.
    for b in &c.values {
        let text: Option<String> = if b & 4 == 0 { None } else { Some(format!("value {b}")) };
        let original: CommunicatedOption<String> = text.clone().into();
        let copy: Option<String> = original.clone().into();
        ensure_eq!(copy, text, "copy of an optional value");
        let back: Option<String> = original.into();
        ensure_eq!(back, text, "optional value converted there and back");
    }
    Ok(format!("kind {}", c.kind).into())
}

pub fn run_wire(mut ctx: Ctx) {
    let n = ctx.cases(10_000, 100_000);
    ctx.stage_agreeing(
        "wire",
        "sequences of 1-11 values of 19 message types, with arbitrary bit patterns and presence; non-trivial: all",
        n,
        wire(),
        wire_case,
        agree_over_mpi,
        true,
    );
    // Aligned to 16 bytes, which no MPI type is: see known-findings.txt. Only the distance of
    // successive values is compared; receiving them would fill a boolean with arbitrary bits.
    ctx.stage_agreeing(
        "wide_optional",
        "optional 128-bit keys, number of them in a sequence; non-trivial: more than one",
        20,
        1..20usize,
        |n: &usize| {
            let size = n * std::mem::size_of::<CommunicatedOption<PeanoKey3d>>();
            let sent = n * wire_extent::<CommunicatedOption<PeanoKey3d>>();
            ensure!(sent == size, "{n} optional 128-bit keys take {size} bytes in memory, but {sent} in a message");
            Ok((*n > 1).into())
        },
        agree_over_mpi,
        true,
    );
    finish(ctx)
}

/// Distance of successive values in a message, in bytes.
fn wire_extent<T: Equivalence>() -> usize {
    use mpi::raw::AsRaw;
    let datatype = T::equivalent_datatype();
    let (mut lower, mut extent) = (0, 0);
    unsafe { mpi::ffi::MPI_Type_get_extent(datatype.as_raw(), &mut lower, &mut extent) };
    extent as usize
}

fn finish(ctx: Ctx) {
    MPI_UNIVERSE.drop();
    ctx.finish()
}
