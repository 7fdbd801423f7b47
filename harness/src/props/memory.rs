//! C23: how much memory is used, and that it is given back.

use super::pipe::{pipe, Pipe};
use super::scale::{content, cut, own_words, pairs, shaped, Kind, Shape, Tables};
use super::text::{show, table_of};
use crate::alloc::{live, peak};
use crate::ensure;
use crate::files::{put, thread_dir, Style};
use crate::model;
use crate::run::{fail, sut, Ctx, Fail, Obs, R};
use chanoma::file::{modifiers_from_yaml_path, table_from_csv_path, table_from_yaml_path, to_csv_writer, to_serialized_corr};
use chanoma::{Chanoma, Table, TableBuilder};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;

/// As for C20. What a thread or the process sets up once does not count.
const FACTOR: usize = 8;
const GRACE: usize = 1 << 20;
/// For a character and a step. Where a part is trimmed or joined, a step may have nothing to do in it, but for the whole
/// text something for every character, which takes a record and room to grow for more.
const EACH: usize = 600;
const KEPT: isize = 64 << 10;

fn normalized(n: &Chanoma, x: &str, recorded: bool) -> R {
    if recorded {
        sut("normalize_with_positions", || drop(n.normalize_with_positions(x)))
    } else {
        sut("normalize", || drop(n.normalize(x)))
    }
}

// ------------------------------------------------------------------ at one time

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Texts {
    pipe: Pipe,
    shape: Shape,
    chars: u32,
    recorded: bool,
}

fn texts() -> BoxedStrategy<Texts> {
    (pipe(1, 8), 40_000u32..120_000, any::<bool>())
        .prop_flat_map(|(mut pipe, chars, recorded)| {
            pipe.texts.clear();
            pipe.adds.truncate(3);
            let shape = shaped(&pipe.steps());
            (Just(pipe), shape, Just(chars), Just(recorded))
        })
        .prop_map(|(pipe, shape, chars, recorded)| Texts { pipe, shape, chars, recorded })
        .boxed()
}

fn check_texts(dir: &Path, c: &Texts, o: &mut Obs) -> R {
    let n = c.pipe.build(dir)?;
    let steps = c.pipe.steps();
    let x = c.shape.text(c.chars as usize);
    let parts = cut(&x, 64);
    let of = |x: &str| -> Result<usize, Fail> {
        let (r, p) = peak(|| normalized(&n, x, c.recorded));
        r.map(|()| p)
    };
    of("a")?; // what is set up at first use
    let none = of("")?;
    let whole = of(&x)?;
    // what a part needs beyond what every call needs at some time; what it needs at another time does not show
    let mut sum = 0;
    let mut hidden = 0;
    for p in &parts {
        let needs = of(p)?;
        sum += needs.saturating_sub(none);
        hidden += needs.min(none);
    }
    ensure!(
        whole <= FACTOR * sum + 2 * hidden + 2 * none + GRACE + EACH * c.chars as usize * steps.len(),
        "{} {} needs {whole} bytes for the text {} of {} bytes, but {sum} for the same in parts",
        if c.recorded { "normalizing with positions through" } else { "normalizing through" },
        show(&format!("{steps:?}")),
        show(&x),
        x.len()
    );
    o.nontrivial_if(parts.first().is_some_and(|p| model::apply_all(&steps, p) != **p));
    o.label_if(c.recorded, "recorded");
    Ok(())
}

const KINDS: [(Kind, u32); 10] = [
    (Kind::Csv, 8_000),
    (Kind::WideCsv, 8_000),
    (Kind::List, 3_000),
    (Kind::Mapping, 3_000),
    (Kind::Converter, 3_000),
    (Kind::Eliminator, 3_000),
    (Kind::Ligatures, 3_000),
    (Kind::Add, 8_000),
    (Kind::ToCsv, 8_000),
    (Kind::ToYaml, 8_000),
];

fn tables() -> BoxedStrategy<Tables> {
    let targets = prop_oneof![Just(1u32), 2u32..50, 50u32..10_000, Just(65_000u32)];
    (0u8..KINDS.len() as u8, 30u32..=100, 0u32..0x110000, prop_oneof![3 => Just(1u32), 1 => 2u32..400], targets, any::<bool>(), any::<u64>())
        .prop_map(|(kind, percent, base, stride, targets, table, style)| {
            let size = KINDS[kind as usize].1 * percent / 100;
            Tables { kind, size, base, stride, targets, table, style }
        })
        .boxed()
}

/// Loads the file: through a configuration or the function for its kind.
fn load(p: &Path, csv: bool, table: bool) -> Result<bool, Fail> {
    sut("load", || match (table, csv) {
        (true, true) => table_from_csv_path(p).is_ok(),
        (true, false) => table_from_yaml_path(p).is_ok() && modifiers_from_yaml_path(p).is_ok(),
        _ => Chanoma::from_config_file(p).is_ok(),
    })
}

fn of_table(kind: &Kind, t: &Table) -> R {
    sut("table", || match kind {
        Kind::Add => {
            let mut b = TableBuilder::new();
            b.add_corr(&t.corr());
            b.add_corr(&t.corr());
            drop(Chanoma::from_table(b.build()));
        }
        Kind::ToCsv => drop(to_csv_writer(&t.corr(), Vec::new()).into_inner()),
        _ => drop(to_serialized_corr(&t.corr())),
    })
}

fn check_tables(dir: &Path, c: &Tables, o: &mut Obs) -> R {
    let (kind, _) = &KINDS[c.kind as usize % KINDS.len()];
    let csv = matches!(kind, Kind::Csv | Kind::WideCsv);
    let file = !matches!(kind, Kind::Add | Kind::ToCsv | Kind::ToYaml);
    let all = pairs(c, 0, c.size);
    let pieces: Vec<&[(char, char)]> = all.chunks((all.len() / 64).max(1)).collect();
    let of = |v: &[(char, char)]| -> Result<usize, Fail> {
        if file {
            let p = put(dir, if csv { "t.csv" } else { "t.yaml" }, content(kind, v, c.style));
            let (r, n) = peak(|| load(&p, csv, c.table));
            ensure!(r?, "{kind:?} with {} entries was refused", v.len());
            Ok(n)
        } else {
            let t = table_of(v);
            let (r, n) = peak(|| of_table(kind, &t));
            r.map(|()| n)
        }
    };
    let whole = of(&all)?;
    let mut sum = 0;
    for p in &pieces {
        sum += of(p)?;
    }
    ensure!(whole <= FACTOR * sum + GRACE, "{kind:?} needs {whole} bytes for {} entries, but {sum} for the same in parts", all.len());
    o.nontrivial_if(all.len() > 500);
    o.label(if file { "file" } else { "table" });
    Ok(())
}

// ------------------------------------------------------------------ afterwards

/// Does something again and again, in rounds each twice as long as the one before. What is kept for every time it is
/// done shows in every round, whatever holds it; what is kept up to a limit, or once, does not.
fn kept_each_time(first: usize, mut f: impl FnMut() -> R) -> Result<isize, Fail> {
    let start = live();
    let mut last = start;
    let mut always = true;
    for round in 0..5 {
        for _ in 0..first << round {
            f()?;
        }
        let now = live();
        always &= now > last;
        last = now;
    }
    Ok(if always { last - start } else { 0 })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    pipe: Pipe,
    seed: u64,
    /// texts, and pieces in each
    texts: u16,
    pieces: u16,
    recorded: bool,
}

fn long() -> BoxedStrategy<Long> {
    (pipe(1, 6), any::<u64>(), 200u16..500, 20u16..400, any::<bool>())
        .prop_map(|(mut pipe, seed, texts, pieces, recorded)| {
            pipe.texts.clear();
            pipe.adds.truncate(4);
            Long { pipe, seed, texts, pieces, recorded }
        })
        .boxed()
}

fn check_long(dir: &Path, c: &Long, o: &mut Obs) -> R {
    let steps = c.pipe.steps();
    let words = own_words(&steps);
    let mut st = Style::new(c.seed);
    let mut make = || -> String { (0..c.pieces).map(|_| words[st.pick(words.len() as u64) as usize].as_str()).collect() };
    let start = live();
    let one = c.pipe.build(dir)?;
    let held = live() - start;
    for _ in 0..4 {
        normalized(&one, &make(), c.recorded)?;
    }
    let before = live();
    let (mut longest, mut total) = (0, 0);
    for _ in 0..c.texts {
        let x = make();
        longest = longest.max(x.len());
        total += x.len();
        normalized(&one, &x, c.recorded)?;
    }
    let kept = live() - before;
    ensure!(
        kept <= KEPT + 16 * longest as isize,
        "{kept} bytes are kept after normalizing {} texts of up to {longest} bytes ({total} in all) {}through {}",
        c.texts,
        if c.recorded { "with positions " } else { "" },
        show(&format!("{steps:?}"))
    );
    // one longer than all others first, for what is reserved for the longest
    let most: String = (0..4).map(|_| make()).collect();
    normalized(&one, &most, c.recorded)?;
    let kept = kept_each_time(4, || normalized(&one, &make(), c.recorded))?;
    ensure!(kept <= 256, "normalizing texts keeps more and more, {kept} bytes for 124 texts through {}", show(&format!("{steps:?}")));
    drop(one);
    // instances, one after the other
    let instance = || normalized(&c.pipe.build(dir)?, words[0].as_str(), c.recorded);
    instance()?;
    let kept = kept_each_time(1, instance)?;
    ensure!(kept <= 128, "{kept} bytes are kept of 31 instances of {held} bytes: {}", show(&format!("{steps:?}")));
    o.nontrivial_if(total > 100_000);
    o.label_if(c.recorded, "recorded");
    o.label_if(steps.len() > 2, "over two steps");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Loads {
    table: Tables,
    /// what is wrong at the end of the file
    fault: u8,
}

fn loads() -> BoxedStrategy<Loads> {
    (tables(), 0u8..6).prop_map(|(table, fault)| Loads { table, fault }).boxed()
}

fn check_loads(dir: &Path, c: &Loads, o: &mut Obs) -> R {
    let t = &c.table;
    let (kind, _) = &KINDS[t.kind as usize % 7];
    let csv = matches!(kind, Kind::Csv | Kind::WideCsv);
    let all = pairs(t, 0, t.size / 12);
    let mut text = content(kind, &all, t.style).into_bytes();
    match (c.fault, csv) {
        (0, true) => text.extend(b"\na,,b\n"),
        (1, _) => text.extend(b"\n\xff,\xfe\n"),
        (0, false) => text.extend(b"\n\"x\": [\n"),
        (2, false) => text.extend(b"\nitems: 3\n"),
        _ => {}
    }
    let dir = thread_dir(dir);
    let p = put(&dir, if csv { "l.csv" } else { "l.yaml" }, &text);
    let run = || -> Result<bool, Fail> {
        let ok = load(&p, csv, t.table)?;
        let mut b = TableBuilder::new();
        sut("add", || if csv { b.add_from_csv(&p).is_ok() } else { b.add_from_yaml(&p).is_ok() })?;
        sut("builder", || if csv { TableBuilder::from_csv_path(&p).is_ok() } else { TableBuilder::from_yaml_path(&p).is_ok() })?;
        Ok(ok)
    };
    let ok = run()?;
    let kept = kept_each_time(1, || {
        if run()? != ok {
            return fail("the same file was accepted once and refused once");
        }
        Ok(())
    })?;
    ensure!(kept <= 128, "{kept} bytes are kept of 93 times loading {} bytes of {kind:?} (accepted: {ok})", text.len());
    o.nontrivial_if(text.len() > 1000);
    o.label(if ok { "accepted" } else { "refused" });
    Ok(())
}

pub fn c23(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    ctx.prop_on(8, 40, "texts", ctx.n(600, 8_000), "normalizing changes the parts; the most memory used at a time for 40,000 to 120,000 characters against 64 parts", texts, |c, o| {
        check_texts(&dir, c, o)
    });
    ctx.prop_on(8, 40, "tables", ctx.n(300, 4_000), "over 500 entries; the most memory used at a time for up to 8,000 entries against 64 parts", tables, |c, o| {
        check_tables(&thread_dir(&dir), c, o)
    });
    ctx.prop_on(8, 40, "long-lived", ctx.n(600, 9_000), "over 100,000 bytes of different texts through one instance, then 31 instances", long, |c, o| check_long(&dir, c, o));
    ctx.prop_on(8, 40, "loads", ctx.n(400, 6_000), "files of over 1,000 bytes, accepted or refused, 93 times in rounds", loads, |c, o| check_loads(&dir, c, o));
}
