//! C20: how the time taken grows with the input.

use super::pipe::pipe;
use super::text::{show, table_of};
use crate::files::{put, CsvConf, Items, YamlConf};
use crate::gen;
use crate::model::{self, Step};
use crate::run::{fail, harness_error, sut, Ctx, Fail, Obs, R};
use chanoma::file::{table_from_csv_path, table_from_yaml_path, to_csv_writer, to_serialized_corr};
use chanoma::{Chanoma, TableBuilder};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::path::Path;

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Processor time this thread has used, in seconds: what other threads and processes do does not count.
fn cpu() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    const THREAD: i32 = 3;
    if unsafe { clock_gettime(THREAD, &mut t) } != 0 {
        harness_error("no thread clock");
    }
    t.sec as f64 + t.nsec as f64 * 1e-9
}

fn timed(f: impl FnOnce() -> R) -> Result<f64, Fail> {
    let t = cpu();
    f()?;
    Ok(cpu() - t)
}

/// How much more than its parts the whole may take. With 64 parts a quadratic cost is 64 times that of the parts.
const FACTOR: f64 = 8.0;
const GRACE: f64 = 0.3;

/// The whole against its parts. Measured again before it counts, keeping the shortest whole and the longest parts.
fn in_proportion(what: &str, size: usize, whole: impl Fn() -> R, parts: impl Fn() -> R) -> R {
    in_proportion_to(what, size, whole, &[&parts])
}

/// The same with several ways to take the parts, of which the one that takes longest counts.
fn in_proportion_to(what: &str, size: usize, whole: impl Fn() -> R, parts: &[&dyn Fn() -> R]) -> R {
    let (mut w, mut p) = (f64::MAX, 0f64);
    for _ in 0..4 {
        for parts in parts {
            p = p.max(timed(parts)?);
        }
        w = w.min(timed(&whole)?);
        if w <= FACTOR * p + GRACE {
            return Ok(());
        }
    }
    fail(format!("{what}: {w:.2} s for {size} at once, but {p:.3} s for the same in parts"))
}

// ------------------------------------------------------------------ texts

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Shape {
    /// the block again and again
    Block(Vec<(String, u16)>),
    /// one string, with something else at the far end, or at both
    Run(String, String, bool),
    /// so many characters, all different, again and again
    Distinct(u32, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Texts {
    pipe: super::pipe::Pipe,
    shape: Shape,
    chars: u32,
    recorded: bool,
}

impl Shape {
    pub fn text(&self, chars: usize) -> String {
        let unit: String = match self {
            Shape::Block(v) => v.iter().map(|(s, n)| s.repeat(*n as usize)).collect(),
            Shape::Run(s, _, _) => s.clone(),
            Shape::Distinct(n, base) => (0..*n).map(|i| model::uni(0x3400 + (base + i) % 0x6a00)).collect(),
        };
        let len = unit.chars().count().max(1);
        let mut t = unit.repeat(chars / len + 1);
        if let Shape::Run(_, end, both) = self {
            t.push_str(end);
            if *both {
                t.insert_str(0, end);
            }
        }
        t
    }
}

/// Consecutive parts of about the same size.
pub fn cut(x: &str, parts: usize) -> Vec<&str> {
    let step = x.len() / parts + 1;
    let mut v = vec![];
    let mut at = 0;
    while at < x.len() {
        let mut end = (at + step).min(x.len());
        while !x.is_char_boundary(end) {
            end += 1;
        }
        v.push(&x[at..end]);
        at = end;
    }
    v
}

/// What a pipeline knows, and some more.
pub fn own_words(steps: &[Step]) -> Vec<String> {
    let mut cs: Vec<char> = gen::steps_chars(steps);
    cs.extend("aか゛ー~ \u{3000}\u{ff76}\u{2010}1漢".chars());
    let mut own: Vec<String> = cs.iter().map(|c| c.to_string()).collect();
    for s in steps {
        if let Step::Lig(m) = s {
            own.extend(m.iter().map(|x| x.0.clone()));
        }
    }
    own
}

pub fn shaped(steps: &[Step]) -> BoxedStrategy<Shape> {
    let word = prop_oneof![5 => select(own_words(steps)), 1 => gen::piece(), 1 => gen::ch().prop_map(|c| c.to_string())];
    let n = prop_oneof![6 => Just(1u16), 3 => 2u16..20, 1 => 20u16..3000];
    prop_oneof![
        4 => vec((word.clone(), n), 1..7).prop_map(Shape::Block),
        2 => (word.clone(), word, any::<bool>()).prop_map(|(a, b, both)| Shape::Run(a, b, both)),
        1 => (100u32..20_000, 0u32..20_000).prop_map(|(n, b)| Shape::Distinct(n, b)),
    ]
    .boxed()
}

fn texts() -> BoxedStrategy<Texts> {
    (pipe(1, 8), 200_000u32..500_000, any::<bool>())
        .prop_flat_map(|(mut pipe, chars, recorded)| {
            pipe.texts.clear();
            pipe.adds.truncate(3);
            let shape = shaped(&pipe.steps());
            (Just(pipe), shape, Just(chars), Just(recorded))
        })
        .prop_map(|(pipe, shape, chars, recorded)| Texts { pipe, shape, chars, recorded })
        .boxed()
}

fn check_texts(dir: &Path, c: &Texts, o: &mut Obs) -> R {
    let n = c.pipe.build(dir)?;
    let steps = c.pipe.steps();
    let x = c.shape.text(c.chars as usize);
    let parts = cut(&x, 64);
    let run = |x: &str| -> R {
        if c.recorded {
            sut("normalize_with_positions", || drop(n.normalize_with_positions(x)))
        } else {
            sut("normalize", || drop(n.normalize(x)))
        }
    };
    let what = format!("{} {}, text {}", if c.recorded { "normalizing with positions through" } else { "normalizing through" }, show(&format!("{steps:?}")), show(&x));
    // also the same text on a smaller scale: a part of it may be trimmed where the whole is not
    let small = c.shape.text(c.chars as usize / 64);
    in_proportion_to(&what, x.len(), || run(&x), &[&|| parts.iter().try_for_each(|p| run(p)), &|| (0..64).try_for_each(|_| run(&small))])?;
    o.nontrivial_if(parts.first().is_some_and(|p| model::apply_all(&steps, p) != **p));
    o.label_if(c.recorded, "recorded");
    o.label(match c.shape {
        Shape::Block(_) => "a block again and again",
        Shape::Run(..) => "one string again and again",
        Shape::Distinct(..) => "many different characters",
    });
    Ok(())
}

// ------------------------------------------------------------------ tables and files

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    Csv,
    /// all sources of a target in one row
    WideCsv,
    List,
    Mapping,
    /// a modifier with that many characters or sequences
    Converter,
    Eliminator,
    Ligatures,
    /// built without a file
    Table,
    /// added to a table that has as many entries
    Add,
    /// one table after another on the same converter
    Tables,
    /// written out
    ToCsv,
    ToYaml,
}
const KINDS: [(Kind, u32); 12] = [
    (Kind::Csv, 60_000),
    (Kind::WideCsv, 60_000),
    (Kind::List, 12_000),
    (Kind::Mapping, 12_000),
    (Kind::Converter, 12_000),
    (Kind::Eliminator, 12_000),
    (Kind::Ligatures, 12_000),
    (Kind::Table, 60_000),
    (Kind::Add, 60_000),
    (Kind::Tables, 30_000),
    (Kind::ToCsv, 60_000),
    (Kind::ToYaml, 60_000),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tables {
    pub kind: u8,
    pub size: u32,
    pub base: u32,
    pub stride: u32,
    /// how many different targets
    pub targets: u32,
    /// through the table functions instead of a configuration
    pub table: bool,
    pub style: u64,
}

pub fn pairs(c: &Tables, from: u32, to: u32) -> Vec<(char, char)> {
    let all = 0x10f000u64;
    (from..to)
        .filter_map(|i| char::from_u32(0x21 + ((c.base as u64 + i as u64 * c.stride as u64) % all) as u32).map(|f| (f, i)))
        .filter(|(f, _)| f.is_alphanumeric() || *f > '\u{3000}')
        .map(|(f, i)| (f, model::uni(0x20000 + i % c.targets.max(1))))
        .collect()
}

fn strings(v: &[(char, char)]) -> Vec<(String, String)> {
    v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

pub fn content(kind: &Kind, v: &[(char, char)], style: u64) -> String {
    let yaml = |steps: Option<Vec<Step>>, items: Items| YamlConf { steps, items, items_first: false, style: 0 }.render();
    match kind {
        Kind::Csv => CsvConf { header: vec!["from".into(), "to".into()], rows: v.iter().map(|(a, b)| vec![a.to_string(), b.to_string()]).collect(), style }.render(),
        Kind::WideCsv => {
            let rows = Items::grouped(&strings(v));
            let mut by: std::collections::BTreeMap<String, Vec<String>> = Default::default();
            for (f, t) in rows.pairs() {
                by.entry(t).or_default().push(f);
            }
            let rows = by
                .into_iter()
                .map(|(t, mut fs)| {
                    fs.push(t);
                    fs
                })
                .collect();
            CsvConf { header: vec!["from".into(), "to".into()], rows, style }.render()
        }
        Kind::List => yaml(None, Items::List(strings(v))),
        Kind::Mapping => yaml(None, Items::grouped(&strings(v))),
        Kind::Converter => yaml(Some(vec![Step::Conv(v.to_vec())]), Items::Absent),
        Kind::Eliminator => yaml(Some(vec![Step::Elim(v.iter().map(|x| x.0).collect())]), Items::Absent),
        Kind::Ligatures => yaml(Some(vec![Step::Lig(v.iter().map(|(a, b)| (format!("{a}{b}"), b.to_string())).collect())]), Items::Absent),
        Kind::Table | Kind::Add | Kind::Tables | Kind::ToCsv | Kind::ToYaml => String::new(),
    }
}

fn tables() -> BoxedStrategy<Tables> {
    (0u8..KINDS.len() as u8, 50u32..=100, 0u32..0x110000, prop_oneof![3 => Just(1u32), 1 => 2u32..400], prop_oneof![Just(1u32), 2u32..50, 50u32..65_000, Just(65_000u32)], any::<bool>(), any::<u64>())
        .prop_map(|(kind, percent, base, stride, targets, table, style)| {
            let size = KINDS[kind as usize].1 * percent / 100;
            Tables { kind, size, base, stride, targets, table, style }
        })
        .boxed()
}

fn check_tables(dir: &Path, c: &Tables, o: &mut Obs) -> R {
    let (kind, _) = &KINDS[c.kind as usize % KINDS.len()];
    const PARTS: u32 = 100;
    let csv = matches!(kind, Kind::Csv | Kind::WideCsv);
    let items = csv || matches!(kind, Kind::List | Kind::Mapping);
    let all = pairs(c, 0, c.size);
    let step = (all.len() / PARTS as usize).max(1);
    let pieces: Vec<&[(char, char)]> = all.chunks(step).collect();
    let what = format!("loading {kind:?} {:?}", Tables { style: 0, ..c.clone() });
    if matches!(kind, Kind::Tables) {
        let run = |v: &[(char, char)]| -> R {
            sut("table", || {
                let mut n = Chanoma::new();
                for p in v {
                    n.add_table(table_of(&[*p]));
                }
                if c.table {
                    drop(n.normalize_with_positions("aかー ゛漢"));
                } else {
                    drop(n.normalize("aかー ゛漢"));
                }
            })
        };
        in_proportion(&what, all.len(), || run(&all), || pieces.iter().try_for_each(|p| run(p)))?;
    } else if matches!(kind, Kind::Table | Kind::Add | Kind::ToCsv | Kind::ToYaml) {
        let run = |v: &[(char, char)]| -> R {
            let t = table_of(v);
            sut("table", || match kind {
                Kind::Add => {
                    let mut b = TableBuilder::new();
                    b.preset().add_corr(&t.corr());
                    // all of them are there already
                    b.add_corr(&t.corr());
                    drop(Chanoma::from_table(b.build()));
                }
                Kind::ToCsv => drop(to_csv_writer(&t.corr(), Vec::new()).into_inner()),
                Kind::ToYaml => drop(to_serialized_corr(&t.corr())),
                _ => drop(Chanoma::from_table(t)),
            })
        };
        in_proportion(&what, all.len(), || run(&all), || pieces.iter().try_for_each(|p| run(p)))?;
    } else {
        let ext = if csv { "csv" } else { "yaml" };
        let whole = put(dir, &format!("whole.{ext}"), content(kind, &all, c.style));
        let files: Vec<_> = pieces.iter().enumerate().map(|(i, p)| put(dir, &format!("part{i}.{ext}"), content(kind, p, c.style))).collect();
        let run = |p: &Path| -> R {
            let r = sut("load", || match (c.table && items, csv) {
                (true, true) => table_from_csv_path(p).map(drop),
                (true, false) => table_from_yaml_path(p).map(drop),
                _ => Chanoma::from_config_file(p).map(drop),
            })?;
            r.or_else(|e| fail(format!("{what}: {e}")))
        };
        in_proportion(&what, all.len(), || run(&whole), || files.iter().try_for_each(|p| run(p)))?;
    }
    o.nontrivial_if(all.len() > 1000 && all.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() > 1000);
    o.label(match kind {
        Kind::Csv => "CSV",
        Kind::WideCsv => "CSV, many columns",
        Kind::List => "YAML list",
        Kind::Mapping => "YAML mapping",
        Kind::Converter => "converter",
        Kind::Eliminator => "eliminator",
        Kind::Ligatures => "ligatures",
        Kind::Table => "table",
        Kind::Add => "addition",
        Kind::Tables => "many tables",
        Kind::ToCsv => "to CSV",
        Kind::ToYaml => "to YAML",
    });
    Ok(())
}

// ------------------------------------------------------------------ many entries, one text

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Entries {
    /// as a table, from CSV, a converter, an eliminator
    how: u8,
    size: u32,
    base: u32,
    stride: u32,
    chars: u32,
    /// of a hundred characters, how many are sources
    known: u32,
    recorded: bool,
}

fn entries() -> BoxedStrategy<Entries> {
    (0u8..4, 4_000u32..=12_000, 0u32..0x110000, prop_oneof![3 => Just(1u32), 1 => 2u32..80], 200_000u32..400_000, 0u32..=100, any::<bool>())
        .prop_map(|(how, size, base, stride, chars, known, recorded)| Entries { how, size, base, stride, chars, known, recorded })
        .boxed()
}

fn check_entries(dir: &Path, c: &Entries, o: &mut Obs) -> R {
    let t = Tables { kind: 0, size: c.size, base: c.base, stride: c.stride, targets: 50, table: false, style: 0 };
    let all = pairs(&t, 0, c.size);
    if all.is_empty() {
        return Ok(());
    }
    let make = |v: &[(char, char)], name: &str| -> Result<Chanoma, Fail> {
        let kind = match c.how {
            0 => return sut("table", || Chanoma::from_table(table_of(v))),
            1 => Kind::Csv,
            2 => Kind::Converter,
            _ => Kind::Eliminator,
        };
        let p = put(dir, &format!("{name}.{}", if c.how == 1 { "csv" } else { "yaml" }), content(&kind, v, 0));
        sut("load", || Chanoma::from_config_file(&p))?.or_else(|e| fail(format!("{kind:?}: {e}")))
    };
    // the sources in another order than in the file, so that the last are no rarer than the first
    let text = |v: &[(char, char)]| -> String {
        (0..c.chars as usize)
            .map(|i| if (i as u32 * 37) % 100 < c.known { v[(i * 7919) % v.len()].0 } else { model::uni(0x3400 + (i as u32 * 13) % 0x6000) })
            .collect()
    };
    let three = &all[..all.len().min(3)];
    let (x, y) = (text(&all), text(three));
    let (many, few) = (make(&all, "many")?, make(three, "few")?);
    let run = |n: &Chanoma, x: &str| -> R {
        if c.recorded {
            sut("normalize_with_positions", || drop(n.normalize_with_positions(x)))
        } else {
            sut("normalize", || drop(n.normalize(x)))
        }
    };
    let what = format!("{} characters with {} entries: {c:?}", c.chars, all.len());
    let (mut w, mut p) = (f64::MAX, 0f64);
    for _ in 0..4 {
        p = p.max(timed(|| run(&few, &y))? + timed(|| run(&many, ""))?);
        w = w.min(timed(|| run(&many, &x))?);
        if w <= FACTOR * p + GRACE {
            o.nontrivial_if(c.known > 0 && all.len() > 1000);
            o.label(["table", "CSV", "converter", "eliminator"][c.how as usize % 4]);
            o.label_if(c.recorded, "recorded");
            return Ok(());
        }
    }
    fail(format!("{what}: {w:.2} s, but {p:.3} s with 3 entries"))
}

pub fn c20(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    ctx.prop_on(
        8,
        24,
        "texts",
        ctx.n(400, 8_000),
        "normalizing changes the parts; texts of 200,000 to 500,000 characters, the processor time against that of 64 parts",
        texts,
        |c, o| check_texts(&dir, c, o),
    );
    ctx.prop_on(
        8,
        24,
        "tables",
        ctx.n(160, 2_500),
        "over 1,000 different sources; 12,000 to 60,000 entries, the processor time against that of 100 parts",
        tables,
        |c, o| check_tables(&dir, c, o),
    );
    ctx.prop_on(
        8,
        24,
        "entries",
        ctx.n(60, 1_500),
        "over 1,000 entries, some of them in the text of 200,000 to 400,000 characters; the processor time against that of 3 entries and as many of them in a text",
        entries,
        |c, o| check_entries(&dir, c, o),
    );
}
