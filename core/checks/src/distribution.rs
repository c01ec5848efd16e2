//! C04, C05: which rank reads or writes which part of which file.
use engine::{ensure, ensure_eq, Ctx, Outcome};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use subsweep::io::verif::{
    get_rank_input_assignment_for_rank, get_rank_output_assignment_for_rank, RankAssignment,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    counts: Vec<usize>,
    num: usize,
}

fn counts() -> impl Strategy<Value = Vec<usize>> {
    let count = prop_oneof![3 => 0..6usize, 2 => Just(0usize), 2 => 0..60usize, 1 => 0..3000usize];
    prop_oneof![
        4 => prop::collection::vec(count, 1..9),
        1 => prop::collection::vec(0..2usize, 1..16),
        1 => prop::collection::vec((0u64..1 << 58, 0..58u32).prop_map(|(x, e)| (x >> e) as usize), 1..9),
        1 => prop::collection::vec(0..4usize, 16..100),
        1 => (1..9usize, 0..40usize).prop_map(|(n, c)| vec![c; n]),
        1 => (1..12usize, 0..12usize, 1..200usize).prop_map(|(n, i, c)| { let mut v = vec![0; n]; v[i % n] = c; v }),
    ]
}

fn cases() -> impl Strategy<Value = Case> {
    let num = prop_oneof![40 => 1..9usize, 10 => 1..70usize, 10 => Just(1usize), 1 => 70..400usize];
    (counts(), num).prop_map(|(counts, num)| Case { counts, num })
}

/// Checks that the regions of all ranks, one after another, visit `files` in order, each entry once.
fn tiles(assignments: &[RankAssignment], files: &[usize], per_rank: &[usize]) -> Result<(), String> {
    // The sequence of all entries, as positions (file, index): next entry to be visited.
    let (mut file, mut index) = (0, 0);
    let skip_full = |file: &mut usize, index: &mut usize| {
        while *file < files.len() && *index == files[*file] {
            *file += 1;
            *index = 0;
        }
    };
    for (rank, assignment) in assignments.iter().enumerate() {
        let mut total = 0;
        for region in &assignment.regions {
            skip_full(&mut file, &mut index);
            ensure!(file < files.len(), "rank {rank} gets {region:?} after all entries have been given out");
            ensure!(region.start < region.end, "rank {rank} gets the empty region {region:?}");
            ensure!(region.file_index == file && region.start == index,
                "rank {rank} gets {region:?}, but the next entry is {index} of file {file}");
            ensure!(region.end <= files[file], "rank {rank} gets {region:?} of a file with {} entries", files[file]);
            ensure_eq!(region.size(), region.end - region.start, "size of {region:?}");
            index = region.end;
            total += region.end - region.start;
        }
        ensure_eq!(total, per_rank[rank], "number of entries of rank {rank}");
    }
    skip_full(&mut file, &mut index);
    ensure!(file == files.len(), "the entries from {index} of file {file} on are given to no rank");
    Ok(())
}

fn input(c: &Case) -> Outcome {
    let total: usize = c.counts.iter().sum();
    let assignments: Vec<_> =
        (0..c.num).map(|r| get_rank_input_assignment_for_rank(&c.counts, c.num, r as i32)).collect();
    let mut per_rank = vec![total / c.num; c.num];
    per_rank[c.num - 1] = total - total / c.num * (c.num - 1);
    tiles(&assignments, &c.counts, &per_rank)?;
    Ok(classify(c, total))
}

fn output(c: &Case) -> Outcome {
    let total: usize = c.counts.iter().sum();
    let assign = |counts: &[usize]| -> Vec<RankAssignment> {
        (0..counts.len()).map(|r| get_rank_output_assignment_for_rank(counts, c.num, r as i32)).collect()
    };
    let mut files = vec![total / c.num; c.num];
    files[c.num - 1] = total - total / c.num * (c.num - 1);
    tiles(&assign(&c.counts), &files, &c.counts)?;
    // The files do not depend on the distribution over ranks: as if one rank had everything.
    tiles(&assign(&[total]), &files, &[total])?;
    Ok(classify(c, total))
}

fn classify(c: &Case, total: usize) -> engine::Seen {
    let empty = c.counts.contains(&0);
    if total == 0 {
        "".into()
    } else if total < c.num {
        "fewer entries than parts".into()
    } else if c.num > 1 && c.counts.len() > 1 && empty {
        "several, with empty ones".into()
    } else if c.num > 1 && c.counts.len() > 1 {
        "several".into()
    } else {
        "one file or rank".into()
    }
}

pub fn run_input(mut ctx: Ctx) {
    let n = ctx.cases(300_000, 4_000_000);
    ctx.stage("input", "lists of file sizes (0-99 files, many empty, of 0 to 2^58 entries) and rank counts 1-399; non-trivial: at least one entry", n, cases(), input);
    ctx.finish()
}

pub fn run_output(mut ctx: Ctx) {
    let n = ctx.cases(300_000, 4_000_000);
    ctx.stage("output", "lists of entries per rank (1-99 ranks, many empty, with 0 to 2^58 entries) and file counts 1-399; non-trivial: at least one entry", n, cases(), output);
    ctx.finish()
}
