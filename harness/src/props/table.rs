//! C13, C14, C15: tables as sets, export and import, predefined sets.

use super::conf::{hostile, items_set, want_ok};
use super::names;
use super::text::{diff, norm, show};
use crate::ensure;
use crate::files::{put, CsvConf, Items, YamlConf};
use crate::gen;
use crate::run::{fail, sut, Ctx, Fail, Obs, R};
use chanoma::characters_set::prelude::{ALL, ALPHABETS, CJK_COMPATIBILITIES, DIGITS, KANAS, PUNCTUATIONS};
use chanoma::corr::{Linear, Unification};
use chanoma::file::{table_from_csv_path, table_from_yaml_path, to_csv_writer, to_serialized_corr};
use chanoma::table::Origin;
use chanoma::{Chanoma, Corr, Correspondence, Item, Synthesized, Table, TableBuilder};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::process::{Command, Stdio};

pub type Pairs = Vec<(String, String)>;
type Set = BTreeSet<(String, String)>;

fn set_of(v: &[(String, String)]) -> Set {
    v.iter().cloned().collect()
}

fn items_of(v: &[(String, String)]) -> Vec<Item> {
    v.iter().map(|(f, t)| Item::new(f, t)).collect()
}

fn synth(v: &[(String, String)]) -> Correspondence<Synthesized> {
    Synthesized::new(items_of(v)).corr()
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

/// Items of a predefined set, named by number.
const SETS: u8 = 6;
fn set_items(n: u8) -> Vec<Item> {
    match n % SETS {
        0 => DIGITS.items(),
        1 => ALPHABETS.items(),
        2 => PUNCTUATIONS.items(),
        3 => KANAS.items(),
        4 => CJK_COMPATIBILITIES.items(),
        _ => ALL.items(),
    }
}

// ------------------------------------------------------------------ C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    Synth(Pairs),
    Linear(String, String),
    Uni(Vec<String>, String),
    Set(u8),
    Named(u16),
    /// the sum of two, made with the operators
    Sum(Pairs, Pairs),
    Difference(Pairs, Pairs),
    /// a type of the user's own that lists its entries backwards, the first one again at the end
    Own(Pairs),
}

struct Own(Pairs);
impl Corr for Own {
    fn items(&self) -> Vec<Item> {
        let mut v = items_of(&self.0);
        v.reverse();
        v.extend(v.first().cloned());
        v
    }
}

impl What {
    fn set(&self) -> Set {
        match self {
            What::Synth(p) | What::Own(p) => set_of(p),
            What::Linear(f, t) => set_of(&[(f.clone(), t.clone())]),
            What::Uni(fs, t) => fs.iter().map(|f| (f.clone(), t.clone())).collect(),
            What::Set(n) => set_items(*n).into_iter().map(|i| (i.from, i.to)).collect(),
            What::Named(n) => {
                let all = names::all();
                all[*n as usize % all.len()].2.items().into_iter().map(|i| (i.from, i.to)).collect()
            }
            What::Sum(a, b) => set_of(a).union(&set_of(b)).cloned().collect(),
            What::Difference(a, b) => set_of(a).difference(&set_of(b)).cloned().collect(),
        }
    }
}

/// Calls `$f` with a reference to the correspondence `$w` describes.
macro_rules! with_corr {
    ($w:expr, $c:ident => $body:expr) => {
        match $w {
            What::Synth(p) => {
                let $c = synth(p);
                $body
            }
            What::Linear(f, t) => {
                let $c = Linear::new(leak(f), leak(t)).corr();
                $body
            }
            What::Uni(fs, t) => {
                let v: Vec<&'static str> = fs.iter().map(|f| leak(f)).collect();
                let $c = Unification::new(&v, leak(t)).corr();
                $body
            }
            What::Set(n) => match n % SETS {
                0 => {
                    let $c = DIGITS;
                    $body
                }
                1 => {
                    let $c = ALPHABETS;
                    $body
                }
                2 => {
                    let $c = PUNCTUATIONS;
                    $body
                }
                3 => {
                    let $c = KANAS;
                    $body
                }
                4 => {
                    let $c = CJK_COMPATIBILITIES;
                    $body
                }
                _ => {
                    let $c = ALL;
                    $body
                }
            },
            What::Named(n) => {
                let all = names::all();
                let $c = all[*n as usize % all.len()].2.clone();
                $body
            }
            What::Sum(a, b) => {
                let $c = synth(a) + &synth(b);
                $body
            }
            What::Difference(a, b) => {
                let $c = synth(a) - &synth(b);
                $body
            }
            What::Own(p) => {
                let $c = Own(p.clone()).corr();
                $body
            }
        }
    };
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// through the table itself, or through a builder
    Add(What, bool),
    Remove(What, bool),
    Preset,
    Csv(Pairs, u64),
    Yaml(Pairs, u64),
    YamlList(Pairs, u64),
    /// 0 clone, 1 builder round trip, 2 from_corr of its entries, 3 from_table, 4 add all to an empty table
    Copy(u8),
    /// start over with a table made of these entries, as they are: 0 from_corr, 1 from_csv_path, 2 from_yaml_path
    Start(Pairs, u8, u64),
    /// remember the table, to see later that it did not change
    Keep,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    ops: Vec<Op>,
}

fn word() -> BoxedStrategy<String> {
    prop_oneof![
        8 => select(vec!["a", "b", "A", "B", "ab", "あ", "ア", "😀", "Ａ", "１", "ｱ", "1"]).prop_map(|s| s.to_string()),
        1 => gen::ch().prop_map(|c| c.to_string()),
        1 => hostile(),
    ]
    .boxed()
}

pub fn file_pairs(max: usize) -> BoxedStrategy<Pairs> {
    vec((word(), word()), 0..max).boxed()
}

fn pairs(max: usize) -> BoxedStrategy<Pairs> {
    let w = || prop_oneof![12 => word(), 1 => Just(String::new())];
    vec((w(), w()), 0..max).boxed()
}

/// Dozens of entries in any order, some twice.
fn many() -> BoxedStrategy<Pairs> {
    (1usize..200, any::<u32>(), 1u32..90)
        .prop_map(|(n, k, m)| {
            (0..n as u32).map(|i| (format!("{}", i.wrapping_mul(k | 1) % m), ["a", "b", "A", "z"][(i / 5 % 4) as usize].to_string())).collect()
        })
        .boxed()
}

fn what() -> BoxedStrategy<What> {
    prop_oneof![
        5 => pairs(6).prop_map(What::Synth),
        1 => many().prop_map(What::Synth),
        2 => (word(), word()).prop_map(|(a, b)| What::Linear(a, b)),
        2 => (vec(word(), 0..4), word()).prop_map(|(a, b)| What::Uni(a, b)),
        2 => (0u8..SETS).prop_map(What::Set),
        2 => (0u16..412).prop_map(What::Named),
        1 => (pairs(4), pairs(4)).prop_map(|(a, b)| What::Sum(a, b)),
        1 => (pairs(6), pairs(4)).prop_map(|(a, b)| What::Difference(a, b)),
        1 => prop_oneof![3 => pairs(6), 1 => many()].prop_map(What::Own),
    ]
    .boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        6 => (what(), any::<bool>()).prop_map(|(w, b)| Op::Add(w, b)),
        5 => (what(), any::<bool>()).prop_map(|(w, b)| Op::Remove(w, b)),
        1 => Just(Op::Preset),
        1 => (file_pairs(6), any::<u64>()).prop_map(|(p, s)| Op::Csv(p, s)),
        1 => (file_pairs(6), any::<u64>()).prop_map(|(p, s)| Op::Yaml(p, s)),
        1 => (file_pairs(6), any::<u64>()).prop_map(|(p, s)| Op::YamlList(p, s)),
        2 => (0u8..5).prop_map(Op::Copy),
        1 => (prop_oneof![2 => file_pairs(6), 1 => many()], 0u8..3, any::<u64>()).prop_map(|(p, k, s)| Op::Start(p, k, s)),
        1 => Just(Op::Keep),
    ]
    .boxed()
}

fn csv_text(p: &[(String, String)], style: u64) -> String {
    CsvConf {
        header: vec!["from".into(), "to".into()],
        rows: p.iter().map(|(a, b)| vec![a.clone(), b.clone()]).collect(),
        style,
    }
    .render()
}

fn compare(what: &str, t: &Table, want: &Set) -> R {
    let items = sut("items", || t.items())?;
    let got: Set = items.iter().map(|i| (i.from.clone(), i.to.clone())).collect();
    ensure!(
        got == *want,
        "{what}: the table has {:?} too much and lacks {:?}",
        got.difference(want).take(5).collect::<Vec<_>>(),
        want.difference(&got).take(5).collect::<Vec<_>>()
    );
    let c = sut("corr", || t.corr())?;
    ensure!(c.items() == items, "{what}: corr() and items() differ");
    Ok(())
}

fn sorted(what: &str, t: &Table) -> R {
    let items = t.items();
    for w in items.windows(2) {
        ensure!(
            (&w[0].from, &w[0].to) < (&w[1].from, &w[1].to),
            "{what}: entries {:?} and {:?} are listed in this order",
            w[0],
            w[1]
        );
    }
    Ok(())
}

fn check_history(dir: &Path, h: &History, o: &mut Obs) -> R {
    let mut t = sut("Table::new", Table::new)?;
    let mut want: Set = Set::new();
    let mut kept: Vec<(Table, Set)> = vec![];
    let (mut grew, mut shrank) = (false, false);
    for (i, op) in h.ops.iter().enumerate() {
        let name = format!("after step {i} of {}", show(&format!("{:?}", h.ops)));
        match op {
            Op::Add(w, direct) => {
                let s = w.set();
                with_corr!(w, c => {
                    let before = c.items();
                    if *direct {
                        sut("add", || t.add(&c))?;
                    } else {
                        let mut b = sut("builder", || t.clone().builder())?;
                        sut("add_corr", || { b.add_corr(&c); })?;
                        t = sut("build", || b.build())?;
                    }
                    ensure!(c.items() == before, "{name}: adding changed the correspondence");
                });
                grew |= !want.is_empty() && !s.is_subset(&want);
                want.extend(s);
                sorted(&name, &t)?;
            }
            Op::Remove(w, direct) => {
                let s = w.set();
                with_corr!(w, c => {
                    let before = c.items();
                    if *direct {
                        sut("remove", || t.remove(&c))?;
                    } else {
                        let mut b = sut("from_table", || TableBuilder::from_table(t.clone()))?;
                        sut("remove_corr", || { b.remove_corr(&c); })?;
                        t = sut("build", || b.build())?;
                    }
                    ensure!(c.items() == before, "{name}: removing changed the correspondence");
                });
                let n = want.len();
                want = want.difference(&s).cloned().collect();
                shrank |= want.len() < n;
            }
            Op::Preset => {
                let mut b = sut("builder", || t.clone().builder())?;
                sut("preset", || {
                    b.preset();
                })?;
                t = sut("build", || b.build())?;
                want.extend(What::Set(5).set());
                sorted(&name, &t)?;
            }
            Op::Csv(p, style) | Op::Yaml(p, style) | Op::YamlList(p, style) => {
                let csv = matches!(op, Op::Csv(..));
                let body = match op {
                    Op::Csv(..) => csv_text(p, *style),
                    Op::Yaml(..) => YamlConf { steps: None, items: Items::grouped(p), items_first: true, style: *style }.render(),
                    _ => YamlConf { steps: None, items: Items::List(p.clone()), items_first: true, style: *style }.render(),
                };
                let f = put(dir, if csv { "h.csv" } else { "h.yaml" }, &body);
                let mut b = sut("builder", || t.clone().builder())?;
                if csv {
                    want_ok("add_from_csv", sut("add_from_csv", || b.add_from_csv(&f).map(|_| ())), &body)?;
                } else {
                    want_ok("add_from_yaml", sut("add_from_yaml", || b.add_from_yaml(&f).map(|_| ())), &body)?;
                }
                t = sut("build", || b.build())?;
                want.extend(set_of(p));
                sorted(&name, &t)?;
                o.label("file added");
            }
            Op::Start(p, how, style) => {
                let body = match how % 3 {
                    0 => String::new(),
                    1 => csv_text(p, *style),
                    _ => YamlConf { steps: None, items: Items::List(p.clone()), items_first: true, style: *style }.render(),
                };
                t = if how % 3 == 0 {
                    sut("from_corr", || Table::from_corr(synth(p), Origin::New))?
                } else {
                    let f = put(dir, if how % 3 == 1 { "s.csv" } else { "s.yml" }, &body);
                    let r = sut("from path", || if how % 3 == 1 { TableBuilder::from_csv_path(&f) } else { TableBuilder::from_yaml_path(&f) })?;
                    want_ok("from path", Ok(r), &body)?.build()
                };
                want = set_of(p);
            }
            Op::Copy(k) => {
                t = sut("copy", || match k {
                    0 => t.clone(),
                    1 => t.clone().builder().build(),
                    2 => Table::from_corr(t.corr(), Origin::New),
                    3 => TableBuilder::from_table(t.clone()).build(),
                    _ => {
                        let mut n = Table::default();
                        n.add(&t.corr());
                        n
                    }
                })?;
            }
            Op::Keep => kept.push((t.clone(), want.clone())),
        }
        compare(&name, &t, &want)?;
    }
    for (k, w) in &kept {
        compare("an earlier copy, after changing the table", k, w)?;
    }
    // the same entries added one by one in another order
    let mut other = Table::new();
    for p in want.iter().rev().take(60) {
        other.add(&synth(std::slice::from_ref(p)));
    }
    if want.len() > 60 {
        let rest: Pairs = want.iter().rev().skip(60).cloned().collect();
        other.add(&synth(&rest));
    }
    let mut again = Table::new();
    again.add(&t.corr());
    ensure!(other.corr() == again.corr(), "the same entries added in another order compare unequal: {:?}", want);
    ensure!(other.corr() == t.corr() || h.ops.is_empty() || !last_adds(h), "the same set built in another order compares unequal");
    o.label_if(grew && shrank, "added to and removed from");
    o.label_if(want.is_empty(), "empty at the end");
    o.label_if(!kept.is_empty(), "earlier copy compared");
    o.nontrivial_if(grew || shrank);
    Ok(())
}

fn last_adds(h: &History) -> bool {
    h.ops
        .iter()
        .rev()
        .find(|o| !matches!(o, Op::Keep | Op::Copy(_)))
        .is_some_and(|o| matches!(o, Op::Add(..) | Op::Preset | Op::Csv(..) | Op::Yaml(..) | Op::YamlList(..)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Operators {
    a: What,
    b: What,
    c: What,
}

fn corr_set(c: &Correspondence<Synthesized>) -> Set {
    c.items().into_iter().map(|i| (i.from, i.to)).collect()
}

fn in_order(what: &str, c: &Correspondence<Synthesized>) -> R {
    let v = c.items();
    for w in v.windows(2) {
        ensure!((&w[0].from, &w[0].to) < (&w[1].from, &w[1].to), "{what}: entries {:?}, {:?} in this order", w[0], w[1]);
    }
    Ok(())
}

fn check_operators(k: &Operators, o: &mut Obs) -> R {
    let (a, b, c) = (k.a.set(), k.b.set(), k.c.set());
    let union: Set = a.union(&b).cloned().collect();
    let minus: Set = a.difference(&b).cloned().collect();
    let start = || with_corr!(&k.a, x => x.synthesize());
    with_corr!(&k.b, y => {
        let before = y.items();
        let sum = with_corr!(&k.a, x => sut("+", || x + &y)?);
        let dif = with_corr!(&k.a, x => sut("-", || x - &y)?);
        let mut pe = start();
        sut("+=", || pe += &y)?;
        let mut me = start();
        sut("-=", || me -= &y)?;
        ensure!(y.items() == before, "an operator changed its right operand {:?}", k.b);
        ensure!(corr_set(&sum) == union, "{:?} + {:?} gave {:?}", k.a, k.b, sum);
        ensure!(corr_set(&pe) == union, "{:?} += {:?} gave {:?}", k.a, k.b, pe);
        ensure!(corr_set(&dif) == minus, "{:?} - {:?} gave {:?}", k.a, k.b, dif);
        ensure!(corr_set(&me) == minus, "{:?} -= {:?} gave {:?}", k.a, k.b, me);
        in_order("+", &sum)?;
        in_order("+=", &pe)?;
        ensure!(sum == pe, "+ and += differ");
        // three operands, associated either way
        with_corr!(&k.c, z => {
            let l = with_corr!(&k.a, x => x + &y) + &z;
            let r = with_corr!(&k.a, x => x.synthesize()) + &(z + &y);
            let all: Set = union.union(&c).cloned().collect();
            ensure!(corr_set(&l) == all && corr_set(&r) == all && l == r, "sums of {:?} associated differently differ", k);
        });
        with_corr!(&k.c, z => {
            let l = sum.clone() - &z;
            let want: Set = union.difference(&c).cloned().collect();
            ensure!(corr_set(&l) == want, "({:?} + {:?}) - {:?} gave {:?}", k.a, k.b, k.c, l);
            let m = (dif.clone() + &z) - &y;
            let want: Set = minus.union(&c).cloned().collect::<Set>().difference(&b).cloned().collect();
            ensure!(corr_set(&m) == want, "({:?} - {:?}) + {:?} - {:?} gave {:?}", k.a, k.b, k.c, k.b, m);
            // the operands are used again: unchanged
            ensure!(corr_set(&sum) == union && corr_set(&dif) == minus, "an operator changed a copied operand");
        });
    });
    // a list with repetitions is still the same set
    let s = start();
    ensure!(corr_set(&s) == a, "synthesize lost entries of {:?}", k.a);
    let f: Synthesized = Synthesized::from(&s);
    ensure!(f.items().into_iter().map(|i| (i.from, i.to)).collect::<Set>() == a, "Synthesized::from lost entries");
    let mut m: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (f, t) in &a {
        m.entry(t.clone()).or_default().insert(f.clone());
    }
    let got: BTreeMap<String, BTreeSet<String>> =
        f.item_map().into_iter().map(|(t, fs)| (t.clone(), fs.into_iter().cloned().collect())).collect();
    ensure!(got == m, "item_map of {:?} is {:?}", k.a, got);
    o.nontrivial_if(!a.is_disjoint(&b) && a != b);
    o.label_if(!minus.is_empty() && minus.len() < a.len(), "partial difference");
    Ok(())
}

pub fn c13(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    ctx.prop(
        "histories",
        ctx.n(12_000, 400_000),
        "an addition that adds to a non-empty table, or a removal that removes something",
        || {
            prop_oneof![
                8 => vec(op(), 0..9).prop_map(|ops| History { ops }),
                1 => vec(op(), 9..40).prop_map(|ops| History { ops }),
            ]
        },
        |h, o| check_history(&dir, h, o),
    );
    ctx.prop(
        "operators",
        ctx.n(12_000, 400_000),
        "operands that overlap without being equal",
        || {
            prop_oneof![
                2 => (what(), what(), what()).prop_map(|(a, b, c)| Operators { a, b, c }),
                3 => (pairs(6), any::<u64>(), what(), any::<bool>()).prop_map(|(p, m, c, both)| {
                    // a right operand made of parts of the left one
                    let mut q: Pairs = p.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| x.clone()).collect();
                    if both {
                        q.extend(p.iter().map(|(a, b)| (b.clone(), a.clone())));
                    }
                    Operators { a: What::Synth(p), b: What::Synth(q), c }
                }),
                1 => (0u8..SETS, 0u16..412, what()).prop_map(|(s, n, c)| Operators { a: What::Set(s), b: What::Named(n), c }),
            ]
        },
        check_operators,
    );
    ctx.prop(
        "big",
        ctx.n(300, 6_000),
        "thousands of entries; an addition and a removal that change the table",
        || {
            (200usize..1500, 0usize..1500, any::<u64>()).prop_map(|(n, cut, s)| {
                let p: Pairs = (0..n).map(|i| (format!("{}", (i as u64).wrapping_mul(s | 1) % 2000), format!("t{}", i % 7))).collect();
                let q: Pairs = p.iter().skip(cut % n).cloned().collect();
                let r: Pairs = p.iter().step_by(3).cloned().collect();
                History {
                    ops: vec![
                        if s & 4 == 0 { Op::Start(p, (s >> 3) as u8, s) } else { Op::Add(What::Synth(p), true) },
                        Op::Add(What::Synth(r.clone()), s & 16 == 0),
                        Op::Keep,
                        Op::Remove(What::Synth(q), s & 2 == 0),
                        Op::Copy((s % 5) as u8),
                        Op::Csv(r, s),
                    ],
                }
            })
        },
        |h, o| check_history(&dir, h, o),
    );
}

// ------------------------------------------------------------------ C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Export {
    pub pairs: Pairs,
    /// predefined sets added
    pub sets: Vec<u8>,
    pub header: Vec<String>,
}

fn csv_export<T: Corr>(c: &Correspondence<T>) -> Result<Vec<u8>, Fail> {
    sut("to_csv_writer", || to_csv_writer(c, vec![]).into_inner().expect("flush"))
}

fn yaml_export<T: Corr>(c: &Correspondence<T>) -> Result<String, Fail> {
    let s = sut("to_serialized_corr", || to_serialized_corr(c))?;
    serde_yaml::to_string(&s).map_err(|e| Fail { msg: format!("the YAML export cannot be written: {e}"), sig: None, single: None })
}

/// Whether serde_yaml alone, without any code of the library, writes and reads these strings unchanged
/// where an export has its targets and its sources.
fn yaml_keeps(key: &str, value: &str) -> bool {
    let m: BTreeMap<&str, BTreeMap<&str, Vec<&str>>> = [("items", [(key, vec![value])].into_iter().collect())].into_iter().collect();
    serde_yaml::to_string(&m)
        .ok()
        .and_then(|t| serde_yaml::from_str::<serde_yaml::Value>(&t).ok())
        .and_then(|v| v.get("items")?.as_mapping()?.iter().next().map(|(k, v)| (k.clone(), v.clone())))
        .is_some_and(|(k, v)| k.as_str() == Some(key) && v.get(0).is_some_and(|v| v.as_str() == Some(value)))
}

/// Whether this string is a hexadecimal, octal or binary number that the YAML writer does not put in quotes,
/// though it does so with all other numbers: `0o7`, `0b1`, `+0x1f`.
fn plain_number(s: &str) -> bool {
    let digits = s.strip_prefix('+').unwrap_or(s);
    ["0x", "0o", "0b"].iter().any(|p| digits.starts_with(p)) && serde_yaml::from_str::<serde_yaml::Value>(s).is_ok_and(|v| v.is_number())
}

/// Whether this string is one the YAML writer and reader keep, only not as a key, and so because it is
/// too long to be one: no YAML reader accepts a key that takes over 1024 characters to write.
fn key_too_long(s: &str) -> bool {
    let m: BTreeMap<&str, u8> = [(s, 0)].into_iter().collect();
    yaml_keeps("k", s) && serde_yaml::to_string(&m).is_ok_and(|t| t.lines().any(|l| l.chars().count() > 1000))
}

fn header_line(h: &[String]) -> Vec<u8> {
    let mut w = csv::WriterBuilder::new().flexible(true).from_writer(vec![]);
    w.write_record(h).expect("header");
    w.into_inner().expect("header")
}

fn same_set(what: &str, t: &Table, want: &Set, body: &[u8]) -> R {
    let got = items_set(t);
    ensure!(
        got == *want,
        "{what}: {:?} appeared and {:?} were lost; the export is {}",
        got.difference(want).take(4).collect::<Vec<_>>(),
        want.difference(&got).take(4).collect::<Vec<_>>(),
        show(&String::from_utf8_lossy(body))
    );
    Ok(())
}

pub fn check_export(dir: &Path, e: &Export, o: &mut Obs) -> R {
    let mut t = Table::new();
    t.add(&synth(&e.pairs));
    for s in &e.sets {
        t.add(&Synthesized::new(set_items(*s)).corr());
    }
    let want = items_set(&t);
    let corr = t.corr();

    // CSV: each target once, with all its sources
    let csv = csv_export(&corr)?;
    let text = String::from_utf8_lossy(&csv).into_owned();
    let mut rows: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for r in csv::ReaderBuilder::new().flexible(true).has_headers(false).from_reader(&csv[..]).records() {
        let r = match r {
            Ok(r) => r,
            Err(e) => return fail(format!("the CSV export is no CSV: {e}: {}", show(&text))),
        };
        let mut v: Vec<String> = r.iter().map(|x| x.to_string()).collect();
        let to = v.pop().unwrap_or_default();
        ensure!(rows.insert(to.clone(), v).is_none(), "the CSV export has the target {to:?} twice: {}", show(&text));
    }
    let mut model: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (f, to) in &want {
        model.entry(to.clone()).or_default().push(f.clone());
    }
    for v in rows.values_mut() {
        v.sort();
    }
    // a byte order mark at the very beginning is not content for a CSV reader
    let bom = text.starts_with('\u{feff}');
    ensure!(bom || rows == model, "the CSV export holds {:?} instead of {:?}", rows, model);

    let mut file = header_line(&e.header);
    file.extend(&csv);
    let p = put(dir, "export.csv", &file);
    let loads = [
        ("from_csv_path", want_ok("from_csv_path", sut("from_csv_path", || TableBuilder::from_csv_path(&p)), &text)?.build()),
        ("table_from_csv_path", want_ok("table_from_csv_path", sut("table_from_csv_path", || table_from_csv_path(&p)), &text)?),
        ("add_from_csv", {
            let mut b = TableBuilder::new();
            want_ok("add_from_csv", sut("add_from_csv", || b.add_from_csv(&p).map(|_| ())), &text)?;
            b.build()
        }),
    ];
    for (what, l) in &loads {
        same_set(&format!("CSV export loaded with {what}"), l, &want, &csv)?;
        let again = csv_export(&l.corr())?;
        ensure!(again == csv, "exporting again after {what} gave {} instead of {}", show(&String::from_utf8_lossy(&again)), show(&text));
    }

    // as a target, and so a key, or as a source
    let keys: BTreeSet<&String> = want.iter().map(|x| &x.1).filter(|s| !yaml_keeps(s, "v")).collect();
    let values: BTreeSet<&String> = want.iter().map(|x| &x.0).filter(|s| !yaml_keeps("k", s)).collect();
    let lossy: Vec<&String> = keys.union(&values).copied().collect();
    if !lossy.is_empty() {
        // the YAML writer the exporter goes through cannot carry these strings: demonstrate it on the real code
        let yaml = yaml_export(&corr)?;
        let p = put(dir, "export.yaml", &yaml);
        let got = sut("table_from_yaml_path", || table_from_yaml_path(&p))?;
        return match got {
            Ok(t) if items_set(&t) == want => Ok(()),
            _ => Err(Fail {
                msg: format!("{lossy:?} do not survive the YAML export {}", show(&yaml)),
                sig: if lossy.iter().all(|s| plain_number(s)) {
                    Some("yaml-export-prefixed-number".to_string())
                } else if lossy.iter().all(|s| plain_number(s) || (keys.contains(s) && key_too_long(s))) {
                    Some("yaml-export-long-target".to_string())
                } else {
                    None
                },
                single: None,
            }),
        };
    }
    let yaml = yaml_export(&corr)?;
    let p = put(dir, "export.yaml", &yaml);
    let loads = [
        ("from_yaml_path", want_ok("from_yaml_path", sut("from_yaml_path", || TableBuilder::from_yaml_path(&p)), &yaml)?.build()),
        ("table_from_yaml_path", want_ok("table_from_yaml_path", sut("table_from_yaml_path", || table_from_yaml_path(&p)), &yaml)?),
        ("add_from_yaml", {
            let mut b = TableBuilder::new();
            want_ok("add_from_yaml", sut("add_from_yaml", || b.add_from_yaml(&p).map(|_| ())), &yaml)?;
            b.build()
        }),
    ];
    for (what, l) in &loads {
        same_set(&format!("YAML export loaded with {what}"), l, &want, yaml.as_bytes())?;
        let again = yaml_export(&l.corr())?;
        ensure!(again == yaml, "exporting again after {what} gave {} instead of {}", show(&again), show(&yaml));
    }
    let v: serde_yaml::Value = serde_yaml::from_str(&yaml).expect("the loader read it");
    let mut got: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, fs) in v.get("items").and_then(|i| i.as_mapping()).into_iter().flatten() {
        let mut l: Vec<String> = fs
            .as_sequence()
            .map(|s| s.iter().filter_map(|x| x.as_str()).map(|x| x.to_string()).collect())
            .unwrap_or_default();
        l.sort();
        got.insert(k.as_str().unwrap_or("").to_string(), l);
    }
    ensure!(got == model, "the YAML export holds {:?} instead of {:?}", got, model);

    o.nontrivial_if(want.len() > 1);
    o.label_if(model.values().any(|v| v.len() > 1), "several sources for a target");
    o.label_if(text.contains('"'), "quoted");
    o.label_if(want.iter().map(|x| &x.0).collect::<BTreeSet<_>>().len() < want.len(), "several targets for a source");
    Ok(())
}

fn check_exporter(args: &[String], yaml: bool, dir: &Path, o: &mut Obs) -> R {
    let bin = std::env::var_os("VH_BIN_OUTPUT").unwrap_or_else(|| crate::run::harness_error("VH_BIN_OUTPUT is not set"));
    let out = Command::new(bin)
        .args(args)
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| crate::run::harness_error(&format!("exporter: {e}")));
    ensure!(out.status.success(), "the exporter failed with {args:?}: {}", String::from_utf8_lossy(&out.stderr));
    let Ok(text) = String::from_utf8(out.stdout) else { return fail("the exporter printed no text") };
    let want: Set = ALL.items().into_iter().map(|i| (i.from, i.to)).collect();
    let lib = if yaml { yaml_export(&ALL)? } else { String::from_utf8_lossy(&csv_export(&ALL)?).into_owned() };
    ensure!(
        text.trim_end_matches('\n') == lib.trim_end_matches('\n'),
        "the exporter with {args:?} prints something other than the library's export"
    );
    let t = if yaml {
        let p = put(dir, "printed.yaml", &text);
        want_ok("table_from_yaml_path", sut("table_from_yaml_path", || table_from_yaml_path(&p)), &text)?
    } else {
        let p = put(dir, "printed.csv", format!("from,to\n{text}"));
        want_ok("table_from_csv_path", sut("table_from_csv_path", || table_from_csv_path(&p)), &text)?
    };
    same_set("exporter output", &t, &want, text.as_bytes())?;
    o.nontrivial = true;
    Ok(())
}

pub fn c14(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    let entry = || prop_oneof![3 => hostile(), 1 => word(), 1 => vec(hostile(), 1..4).prop_map(|v| v.concat())];
    ctx.prop(
        "round-trip",
        ctx.n(10_000, 300_000),
        "more than one entry; strings with YAML and CSV syntax, quotes, line breaks, control characters",
        move || {
            let few = vec((entry(), select(vec!["A", "~", "1", "あ", "null", "- x"]).prop_map(|s| s.to_string())), 0..9);
            let many = vec((entry(), entry()), 0..9);
            let header = prop_oneof![
                Just(vec!["from".to_string(), "to".to_string()]),
                vec("[a-z]{1,4}", 1..4),
                vec(hostile().prop_filter("an empty line is no header", |s| !s.trim().is_empty()), 2..4),
            ];
            (prop_oneof![few.boxed(), many.boxed()], prop_oneof![12 => Just(vec![]), 1 => vec(0u8..SETS, 1..3)], header)
                .prop_map(|(pairs, sets, header)| Export { pairs, sets, header })
        },
        |e, o| check_export(&dir, e, o),
    );
    ctx.prop(
        "long-entries",
        ctx.n(300, 6_000),
        "more than one entry; up to thousands of characters in a source or a target",
        || {
            let unit = || prop_oneof![3 => gen::ch().prop_map(|c| c.to_string()), 1 => hostile()];
            let long = || (unit(), prop_oneof![2 => 1usize..300, 1 => 300usize..1200, 1 => 1200usize..6000]).prop_map(|(u, n)| u.repeat(n));
            let source = (long(), unit());
            let target = (unit(), unit(), prop_oneof![8 => 1usize..160, 1 => 160usize..2000]).prop_map(|(f, u, n)| (f, u.repeat(n)));
            vec(prop_oneof![2 => source, 1 => target], 1..5)
                .prop_map(|pairs| Export { pairs, sets: vec![], header: vec!["from".into(), "to".into()] })
        },
        |e, o| check_export(&dir, e, o),
    );
    super::raw::exports(ctx, ctx.n(8_000, 160_000), "more than one entry");
    ctx.prop(
        "big",
        ctx.n(40, 1_000),
        "hundreds to thousands of entries, many sources per target",
        || {
            (100usize..2000, 1usize..200, any::<u32>()).prop_map(|(n, m, s)| Export {
                pairs: (0..n)
                    .map(|i| (crate::model::uni(0x4e00 + (i as u32 * 7 + s % 50) % 9000).to_string(), format!("{}", i % m)))
                    .collect(),
                sets: vec![],
                header: vec!["f".into(), "t".into()],
            })
        },
        |e, o| check_export(&dir, e, o),
    );
    // every character that could need quoting, as source and as target
    let mut chars: Vec<Vec<u32>> = vec![];
    let all: Vec<u32> = (0..0x3400u32).chain(0xfe00..0x10000).chain(0x1f600..0x1f640).chain(0x10fff0..0x110000).filter(|c| char::from_u32(*c).is_some()).collect();
    for c in all.chunks(64) {
        chars.push(c.to_vec());
    }
    ctx.enumerate(
        "every-character",
        "batches of 64 single-character entries in both roles, and each character inside a longer string",
        chars,
        true,
        |cs: &Vec<u32>, o| {
            let mut pairs: Pairs = vec![];
            for c in cs.iter().map(|c| crate::model::uni(*c)) {
                pairs.push((c.to_string(), "t".into()));
                pairs.push((format!("x{c}"), "t".into()));
                pairs.push((format!("{c}x"), "u".into()));
                pairs.push(("f".into(), c.to_string()));
                pairs.push(("f".into(), format!("{c} y")));
            }
            let e = Export { pairs, sets: vec![], header: vec!["from".into(), "to".into()] };
            o.weight = cs.len() as u64;
            if let Err(f) = check_export(&dir, &e, o) {
                for k in 0..e.pairs.len() {
                    let one = Export { pairs: vec![e.pairs[k].clone()], sets: vec![], header: e.header.clone() };
                    if let Err(f) = check_export(&dir, &one, &mut Obs::default()) {
                        return Err(f.single("round-trip", &one));
                    }
                }
                return Err(f.single("round-trip", &e));
            }
            Ok(())
        },
    );
    let forms: Vec<(Vec<String>, bool)> = [
        (vec![], false),
        (vec!["-f", "csv"], false),
        (vec!["--format", "csv"], false),
        (vec!["--format=csv"], false),
        (vec!["-f", "yaml"], true),
        (vec!["-fyaml"], true),
        (vec!["--format", "yaml"], true),
        (vec!["--format=yaml"], true),
    ]
    .into_iter()
    .map(|(a, y)| (a.into_iter().map(|s| s.to_string()).collect(), y))
    .collect();
    ctx.enumerate("exporter", "every way to ask the exporter program for either format", forms, true, |(a, y): &(Vec<String>, bool), o| {
        check_exporter(a, *y, &dir, o)
    });
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Removed {
    /// numbers of removed constants (digits, alphabets, punctuation, kana)
    gone: Vec<u16>,
    how: u8,
    text: Vec<u16>,
    other: String,
    /// whole sets that are removed as well, one bit each
    #[serde(default)]
    sets: u8,
}

fn check_removed(r: &Removed, o: &mut Obs) -> R {
    let all = names::all();
    let named: Vec<_> = all.iter().filter(|n| n.0 != "cjk_compatibilities").collect();
    let mut gone: BTreeSet<usize> = r.gone.iter().map(|g| *g as usize % named.len()).collect();
    let together = || {
        let mut c = Correspondence::<Synthesized>::default();
        for g in &gone {
            c += &named[*g].2;
        }
        c
    };
    let mut b = TableBuilder::new();
    b.preset();
    match r.how % 7 {
        0 => {
            for g in &gone {
                sut("remove_corr", || {
                    b.remove_corr(&named[*g].2);
                })?;
            }
        }
        1 => {
            let c = together();
            sut("remove_corr", || {
                b.remove_corr(&c);
            })?;
        }
        3 => {
            // the operators, all at once or one after the other
            let c = sut("-", || ALL - &together())?;
            b = TableBuilder::new();
            b.add_corr(&c);
        }
        4 => {
            let c = sut("-", || gone.iter().fold(ALL.synthesize(), |c, g| c - &named[*g].2))?;
            b = TableBuilder::new();
            b.add_corr(&c);
        }
        5 => {
            let mut c = ALL.synthesize();
            sut("-=", || c -= &together())?;
            b = TableBuilder::new();
            b.add_corr(&c);
        }
        2 => {
            let mut c = ALL.synthesize();
            for g in &gone {
                c -= &named[*g].2;
            }
            b = TableBuilder::new();
            b.add_corr(&c);
        }
        _ => {
            // built from the entries that stay
            b = TableBuilder::new();
            for (i, n) in named.iter().enumerate() {
                if !gone.contains(&i) {
                    b.add_corr(&n.2);
                }
            }
        }
    }
    let mut t = b.build();
    if r.sets & 15 != 0 {
        let wanted = |bit: u8| r.sets & (1 << bit) != 0;
        let mut c = t.corr();
        let operators = r.sets & 16 != 0;
        macro_rules! less {
            ($bit:expr, $name:expr, $set:expr) => {
                if wanted($bit) {
                    if operators {
                        c = sut("-", || c.clone() - &$set)?;
                    } else {
                        sut("remove", || t.remove(&$set))?;
                    }
                    gone.extend(named.iter().enumerate().filter(|(_, n)| n.0 == $name).map(|(i, _)| i));
                }
            };
        }
        less!(0, "digits", DIGITS);
        less!(1, "alphabets", ALPHABETS);
        less!(2, "punctuations", PUNCTUATIONS);
        less!(3, "kanas", KANAS);
        if operators {
            let mut b = TableBuilder::new();
            b.add_corr(&c);
            t = b.build();
        }
    }
    let n = sut("from_table", || Chanoma::from_table(t))?;
    let mut map: BTreeMap<char, char> = BTreeMap::new();
    for (i, x) in named.iter().enumerate() {
        if !gone.contains(&i) {
            map.insert(x.3.chars().next().unwrap(), x.4.chars().next().unwrap());
        }
    }
    let mut x: String = r.text.iter().map(|i| named[*i as usize % named.len()].3).collect();
    x.push_str(&r.other);
    for g in &gone {
        x.push_str(named[*g].3);
    }
    let want: String = x.chars().map(|c| *map.get(&c).unwrap_or(&c)).collect();
    let got = norm("preset with entries removed", &n, &x)?;
    if got != want {
        return Err(diff(&format!("preset without {:?}", gone.iter().map(|g| named[*g].1).collect::<Vec<_>>()), &x, &got, &want));
    }
    o.nontrivial_if(!gone.is_empty() && want != x);
    o.label_if(gone.len() > 1, "several removed");
    o.label_if(r.sets & 15 != 0, "whole sets removed");
    o.label_if(gone.len() == named.len(), "all removed");
    Ok(())
}

fn named_set(set: &str) -> Vec<(String, String)> {
    names::all().iter().filter(|n| n.0 == set).map(|n| (n.3.to_string(), n.4.to_string())).collect()
}

fn check_set(name: &str, items: Vec<Item>, want: &[(String, String)]) -> R {
    let got: Set = items.iter().map(|i| (i.from.clone(), i.to.clone())).collect();
    let w = set_of(want);
    ensure!(
        got == w,
        "the {name} set has {:?} too much and lacks {:?}",
        got.difference(&w).collect::<Vec<_>>(),
        w.difference(&got).collect::<Vec<_>>()
    );
    ensure!(items.len() == got.len(), "the {name} set lists an entry twice");
    let from: BTreeSet<&String> = items.iter().map(|i| &i.from).collect();
    ensure!(from.len() == items.len(), "the {name} set has two entries for one character");
    ensure!(items.iter().all(|i| i.from.chars().count() == 1), "the {name} set has a source that is no character");
    Ok(())
}

pub fn c15(ctx: &mut Ctx) {
    ctx.enumerate(
        "constants",
        "every named constant against the entry its Unicode name and decomposition give",
        (0..names::all().len()).collect(),
        true,
        |i: &usize, o| {
            let all = names::all();
            let Some((set, name, c, f, t)) = all.get(*i) else { return Ok(()) };
            let got = sut("items", || c.items())?;
            ensure!(got == vec![Item::new(*f, *t)], "{set}::{name} is {got:?} instead of {f:?} -> {t:?}");
            o.nontrivial = true;
            Ok(())
        },
    );
    let sets: Vec<String> =
        ["digits", "alphabets", "punctuations", "kanas", "cjk_compatibilities", "all"].iter().map(|s| s.to_string()).collect();
    ctx.enumerate("sets", "every predefined set against the union of its constants", sets, true, |s: &String, o| {
        o.nontrivial = true;
        match s.as_str() {
            "digits" => check_set(s, sut("items", || DIGITS.items())?, &named_set(s)),
            "alphabets" => check_set(s, sut("items", || ALPHABETS.items())?, &named_set(s)),
            "punctuations" => check_set(s, sut("items", || PUNCTUATIONS.items())?, &named_set(s)),
            "kanas" => check_set(s, sut("items", || KANAS.items())?, &named_set(s)),
            "cjk_compatibilities" => check_set(s, sut("items", || CJK_COMPATIBILITIES.items())?, &named_set(s)),
            _ => {
                let items = sut("items", || ALL.items())?;
                let mut w = named_set("digits");
                for x in ["alphabets", "punctuations", "kanas"] {
                    w.extend(named_set(x));
                }
                let from: BTreeSet<&String> = items.iter().map(|i| &i.from).collect();
                for i in &items {
                    ensure!(!from.contains(&i.to), "{:?} is both a source and a target in the combined set", i.to);
                }
                check_set("combined", items, &w)
            }
        }
    });
    // exactly the characters of one set are converted, over every scalar value
    let blocks: Vec<(u8, u32)> = (0..4u8).flat_map(|s| (0..0x110000u32).step_by(0x4000).map(move |b| (s, b))).collect();
    ctx.enumerate(
        "conversions",
        "every scalar value through a normalizer made from one predefined set",
        blocks,
        true,
        |(s, b): &(u8, u32), o| {
            let name = ["digits", "alphabets", "punctuations", "kanas"][*s as usize % 4];
            let map: BTreeMap<String, String> = named_set(name).into_iter().collect();
            let mut t = TableBuilder::new();
            match s % 4 {
                0 => t.add_corr(&DIGITS),
                1 => t.add_corr(&ALPHABETS),
                2 => t.add_corr(&PUNCTUATIONS),
                _ => t.add_corr(&KANAS),
            };
            let n = sut("from_table", || Chanoma::from_table(t.build()))?;
            let x: String = (*b..b + 0x4000).filter_map(char::from_u32).collect();
            o.weight = x.chars().count() as u64;
            let want: String = x.chars().map(|c| map.get(&c.to_string()).cloned().unwrap_or_else(|| c.to_string())).collect();
            let got = norm(name, &n, &x)?;
            o.nontrivial_if(want != x);
            if got != want {
                return Err(diff(&format!("the {name} set"), &x, &got, &want));
            }
            Ok(())
        },
    );
    ctx.prop(
        "removals",
        ctx.n(4_000, 100_000),
        "something was removed and something is still converted",
        || {
            let gone = prop_oneof![
                1 => Just(vec![]),
                6 => vec(0u16..200, 1..6),
                2 => vec(0u16..200, 6..200),
                1 => Just((0u16..200).collect::<Vec<_>>()),
            ];
            let sets = prop_oneof![3 => Just(0u8), 2 => 0u8..32];
            (gone, 0u8..7, vec(0u16..200, 0..60), gen::short_text(), sets)
                .prop_map(|(gone, how, text, other, sets)| Removed { gone, how, text, other, sets })
        },
        check_removed,
    );
}
