//! C22: tables, entries, positions as values.

use super::ext::with_env;
use super::text::show;
use crate::ensure;
use crate::files::{put, thread_dir};
use crate::gen;
use crate::run::{fail, sut, Ctx, Fail, Obs, R};
use chanoma::corr::{Linear, Unification};
use chanoma::file::{table_from_csv_path, table_from_yaml_path};
use chanoma::file_extension::FileExtension;
use chanoma::table::Origin;
use chanoma::{Corr, Correspondence, Item, Position, Synthesized, Table, TableBuilder};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::str::FromStr;

// ------------------------------------------------------------------ origin

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Start {
    New,
    Default,
    Builder,
    /// the table functions, by file and spelling of its path
    Csv(u8),
    Yaml(u8),
    /// the builder functions
    FromCsv(u8),
    FromYaml(u8),
    FromCorr(Option<String>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Preset,
    Add(String, String),
    Remove(String, String),
    AddCsv(u8),
    AddYaml(u8),
    /// a file that is refused
    AddBad,
    Rebuild,
    Clone,
    TableAdd(String, String),
    TableRemove(String, String),
    Set(Option<String>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Life {
    start: Start,
    acts: Vec<Act>,
}

fn life() -> BoxedStrategy<Life> {
    let w = || prop_oneof![3 => select(vec!["a", "b", "あ"]).prop_map(|s: &str| s.to_string()), 1 => gen::piece()];
    let path = || prop::option::of(select(vec!["", "x", "/nowhere/t.csv", "t.yaml", "設定"]).prop_map(|s: &str| s.to_string()));
    let start = prop_oneof![
        1 => Just(Start::New),
        1 => Just(Start::Default),
        1 => Just(Start::Builder),
        2 => (0u8..6).prop_map(Start::Csv),
        2 => (0u8..6).prop_map(Start::Yaml),
        2 => (0u8..6).prop_map(Start::FromCsv),
        2 => (0u8..6).prop_map(Start::FromYaml),
        2 => path().prop_map(Start::FromCorr),
    ];
    let act = prop_oneof![
        1 => Just(Act::Preset),
        2 => (w(), w()).prop_map(|(a, b)| Act::Add(a, b)),
        2 => (w(), w()).prop_map(|(a, b)| Act::Remove(a, b)),
        2 => (0u8..6).prop_map(Act::AddCsv),
        2 => (0u8..6).prop_map(Act::AddYaml),
        1 => Just(Act::AddBad),
        3 => Just(Act::Rebuild),
        1 => Just(Act::Clone),
        1 => (w(), w()).prop_map(|(a, b)| Act::TableAdd(a, b)),
        1 => (w(), w()).prop_map(|(a, b)| Act::TableRemove(a, b)),
        1 => path().prop_map(Act::Set),
    ];
    (start, vec(act, 0..10)).prop_map(|(start, acts)| Life { start, acts }).boxed()
}

/// Six ways to name the file in the directory.
fn spelled(base: &Path, name: &str, n: u8) -> PathBuf {
    match n % 6 {
        0 => base.join(name),
        1 => PathBuf::from(name),
        2 => Path::new("./sub/..").join(name),
        3 => base.join("sub//../").join(name),
        4 => PathBuf::from(format!("link-{name}")),
        _ => Path::new("dirlink").join(name),
    }
}

fn corr(a: &str, b: &str) -> Correspondence<Synthesized> {
    Synthesized::new(vec![Item::new(a, b)]).corr()
}

fn origin(p: &Option<PathBuf>) -> Origin {
    p.clone().map_or(Origin::New, Origin::ConfigurationFile)
}

fn check_life(dir: &Path, c: &Life, o: &mut Obs) -> R {
    let td = thread_dir(dir);
    let base = td.join("life");
    if !base.exists() {
        std::fs::create_dir_all(base.join("sub")).expect("scratch");
        std::fs::write(base.join("t.csv"), "from,to\na,b\nc,d\n").expect("scratch");
        std::fs::write(base.join("t.yaml"), "items:\n  b: a\n  あ: [い, う]\n").expect("scratch");
        for n in ["t.csv", "t.yaml"] {
            std::os::unix::fs::symlink(base.join(n), base.join(format!("link-{n}"))).expect("scratch");
        }
        std::os::unix::fs::symlink(&base, base.join("dirlink")).expect("scratch");
        put(&base, "bad.csv", "from,to\na,\n");
    }
    with_env(&td, &base, &None, || run_life(&base, c, o))
}

fn run_life(base: &Path, c: &Life, o: &mut Obs) -> R {
    let failed = |e| -> Fail { fail::<()>(format!("{c:?}: {e}")).unwrap_err() };
    // the bare path as given, except that the builders resolve it
    let mut want: Option<PathBuf> = None;
    let mut b = match &c.start {
        Start::New => sut("new", TableBuilder::new)?,
        Start::Default => sut("default", TableBuilder::default)?,
        Start::Builder => sut("builder", || Table::new().builder())?,
        Start::Csv(n) => {
            let p = spelled(base, "t.csv", *n);
            let t = sut("table_from_csv_path", || table_from_csv_path(&p))?.map_err(failed)?;
            want = Some(p);
            sut("from_table", || TableBuilder::from_table(t))?
        }
        Start::Yaml(n) => {
            let p = spelled(base, "t.yaml", *n);
            let t = sut("table_from_yaml_path", || table_from_yaml_path(&p))?.map_err(failed)?;
            want = Some(p);
            sut("builder", || t.builder())?
        }
        Start::FromCsv(n) => {
            want = Some(base.join("t.csv").canonicalize().expect("scratch"));
            sut("from_csv_path", || TableBuilder::from_csv_path(spelled(base, "t.csv", *n)))?.map_err(failed)?
        }
        Start::FromYaml(n) => {
            want = Some(base.join("t.yaml").canonicalize().expect("scratch"));
            sut("from_yaml_path", || TableBuilder::from_yaml_path(spelled(base, "t.yaml", *n)))?.map_err(failed)?
        }
        Start::FromCorr(p) => {
            want = p.clone().map(PathBuf::from);
            sut("from_corr", || Table::from_corr(corr("x", "y"), origin(&want)).builder())?
        }
    };
    for a in &c.acts {
        b = sut("history", || -> Result<TableBuilder, Fail> {
            match a {
                Act::Preset => {
                    b.preset();
                }
                Act::Add(x, y) => {
                    b.add_corr(&corr(x, y));
                }
                Act::Remove(x, y) => {
                    b.remove_corr(&corr(x, y));
                }
                Act::AddCsv(n) => {
                    b.add_from_csv(spelled(base, "t.csv", *n)).map_err(failed)?;
                }
                Act::AddYaml(n) => {
                    b.add_from_yaml(spelled(base, "t.yaml", *n)).map_err(failed)?;
                }
                Act::AddBad => {
                    ensure!(b.add_from_csv("bad.csv").is_err(), "an empty cell was accepted");
                }
                Act::Rebuild => return Ok(TableBuilder::from_table(b.build())),
                Act::Clone => {
                    let t = b.build();
                    let copy = t.clone();
                    drop(t);
                    return Ok(copy.builder());
                }
                Act::TableAdd(x, y) => {
                    let mut t = b.build();
                    t.add(&corr(x, y));
                    return Ok(t.builder());
                }
                Act::TableRemove(x, y) => {
                    let mut t = b.build();
                    t.remove(&corr(x, y));
                    return Ok(t.builder());
                }
                Act::Set(p) => {
                    let mut t = b.build();
                    t.origin = origin(&p.clone().map(PathBuf::from));
                    return Ok(t.builder());
                }
            }
            Ok(b)
        })??;
        if let Act::Set(p) = a {
            want = p.clone().map(PathBuf::from);
        }
    }
    let t = sut("build", || b.build())?;
    let got = match &t.origin {
        Origin::New => None,
        Origin::ConfigurationFile(p) => Some(p.as_os_str()),
    };
    let what = format!("{:?} after {:?}", c.start, c.acts);
    ensure!(got == want.as_ref().map(|p| p.as_os_str()), "{}: the origin is {:?}, not {want:?}", show(&what), t.origin);
    o.nontrivial_if(want.is_some() || c.acts.iter().any(|a| matches!(a, Act::AddCsv(_) | Act::AddYaml(_))));
    o.label(match &c.start {
        Start::FromCsv(_) | Start::FromYaml(_) => "resolved path",
        Start::Csv(_) | Start::Yaml(_) => "path as given",
        Start::FromCorr(_) => "given origin",
        _ => "new",
    });
    o.label_if(c.acts.len() > 4, "over four steps");
    Ok(())
}

// ------------------------------------------------------------------ entries

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Entries {
    a: Vec<(String, String)>,
    b: Vec<(String, String)>,
}

fn word() -> BoxedStrategy<String> {
    prop_oneof![
        6 => select(vec!["", "a", "b", "ab", "あ", "が", "か\u{3099}", "B", "\u{10000}", "\u{ffff}", "aa"]).prop_map(|s: &str| s.to_string()),
        2 => gen::piece(),
        1 => "\\PC{0,12}",
    ]
    .boxed()
}

fn entries() -> BoxedStrategy<Entries> {
    (vec((word(), word()), 0..7), vec((word(), word()), 0..4), 0u8..5)
        .prop_map(|(a, more, how)| {
            let b = match how {
                0 => a.clone(),
                1 => a.iter().rev().cloned().collect(),
                2 => a.iter().map(|(f, t)| (t.clone(), f.clone())).collect(),
                3 => a.iter().chain(&more).cloned().collect(),
                _ => more,
            };
            Entries { a, b }
        })
        .boxed()
}

fn items(v: &[(String, String)]) -> Vec<Item> {
    v.iter().map(|(f, t)| Item::new(f.clone(), t.as_str())).collect()
}

fn plain(v: &[Item]) -> Vec<(String, String)> {
    v.iter().map(|i| (i.from.clone(), i.to.clone())).collect()
}

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

fn check_entries(c: &Entries, o: &mut Obs) -> R {
    let r = sut("values", || -> R {
        let (a, b) = (items(&c.a), items(&c.b));
        ensure!(plain(&a) == c.a, "Item::new gave {a:?} for {:?}", c.a);
        for (x, px) in a.iter().zip(&c.a) {
            ensure!(x.clone() == *x && plain(&[x.clone()]) == [px.clone()], "a copy of {x:?} differs");
            let json = serde_json::to_value(x).expect("serializes");
            ensure!(json == serde_json::json!({"from": px.0, "to": px.1}), "{x:?} serializes as {json}");
            for (y, py) in b.iter().zip(&c.b).chain(a.iter().zip(&c.a)) {
                ensure!((x == y) == (px == py) && (x != y) == (px != py), "{x:?} == {y:?} is {}", x == y);
                ensure!(x.cmp(y) == px.cmp(py), "{x:?}.cmp({y:?}) is {:?}", x.cmp(y));
                ensure!(x.partial_cmp(y) == Some(x.cmp(y)), "{x:?}.partial_cmp({y:?}) is {:?}", x.partial_cmp(y));
                ensure!(px != py || hash(x) == hash(y), "{x:?} and {y:?} are equal with different hashes");
            }
        }
        // ---- lists of entries
        let lists: Vec<(&str, Vec<Item>)> = vec![
            ("Synthesized::new", Synthesized::new(a.clone()).items()),
            ("Synthesized::corr", Synthesized::new(a.clone()).corr().items()),
            ("Corr::corr", Corr::corr(Synthesized::new(a.clone())).items()),
            ("Correspondence::new", Correspondence::new(Synthesized::new(a.clone())).items()),
            ("synthesize", Synthesized::new(a.clone()).synthesize().items()),
            ("Synthesized::from", Synthesized::from(Synthesized::new(a.clone()).corr()).items()),
            ("Synthesized::from of a reference", Synthesized::from(&Synthesized::new(a.clone()).corr()).items()),
            ("as_ref", AsRef::<Correspondence<Synthesized>>::as_ref(&Synthesized::new(a.clone()).corr()).items()),
            ("clone", Synthesized::new(a.clone()).corr().clone().items()),
            ("Table::from_corr, items", Table::from_corr(Synthesized::new(a.clone()).corr(), Origin::New).items()),
            ("Table::from_corr, corr", Table::from_corr(Synthesized::new(a.clone()).corr(), Origin::New).corr().items()),
        ];
        for (what, got) in lists {
            ensure!(plain(&got) == c.a, "{what} holds {:?} instead of {:?}", plain(&got), c.a);
        }
        for x in &c.a {
            let l = Linear::new(leak(&x.0), leak(&x.1));
            ensure!(plain(&l.items()) == [x.clone()] && plain(&l.corr().items()) == [x.clone()], "Linear::new{x:?} differs");
        }
        if let Some((_, to)) = c.a.first() {
            let froms: Vec<&'static str> = c.a.iter().map(|x| leak(&x.0)).collect();
            let want: Vec<(String, String)> = c.a.iter().map(|x| (x.0.clone(), to.clone())).collect();
            let u = Unification::new(&froms, leak(to));
            let (direct, through) = (u.items(), u.corr().items());
            ensure!(plain(&direct) == want && plain(&through) == want, "Unification::new({froms:?}, {to:?}) holds {direct:?}");
        }
        // ---- comparison of lists
        let (x, y) = (Synthesized::new(a.clone()).corr(), Synthesized::new(b.clone()).corr());
        ensure!((x == y) == (c.a == c.b) && (y == x) == (c.a == c.b), "{:?} == {:?} is {}", c.a, c.b, x == y);
        ensure!(Correspondence::<Synthesized>::default().items().is_empty() && Synthesized::default().items().is_empty(), "the default is not empty");
        // ---- by target
        let mut want: BTreeMap<&String, Vec<&String>> = BTreeMap::new();
        for (f, t) in &c.a {
            want.entry(t).or_default().push(f);
        }
        let s = Synthesized::new(a.clone());
        ensure!(s.item_map() == want, "item_map of {:?} is {:?}", c.a, s.item_map());
        Ok(())
    })?;
    r?;
    o.nontrivial_if(c.a.len() > 1);
    o.label_if(c.a == c.b, "equal lists");
    o.label_if(c.a.iter().any(|x| c.a.iter().filter(|y| x == *y).count() > 1), "repeated entry");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongList {
    n: u32,
    froms: u32,
    tos: u32,
    /// where the other list differs, and how: not at all, another entry, two exchanged, one less
    at: u32,
    how: u8,
}

fn long_lists() -> BoxedStrategy<LongList> {
    let n = prop_oneof![4 => 100u32..600, 2 => 600u32..5_000, 1 => 65_000u32..70_000];
    let m = || prop_oneof![1 => Just(1u32), 2 => 2u32..40, 2 => 40u32..100_000];
    (n, m(), m(), any::<u32>(), 0u8..4).prop_map(|(n, froms, tos, at, how)| LongList { n, froms, tos, at, how }).boxed()
}

fn check_long_list(c: &LongList, o: &mut Obs) -> R {
    let a: Vec<(String, String)> = (0..c.n).map(|i| (format!("f{}", i.wrapping_mul(7919) % c.froms), format!("t{}", i % c.tos))).collect();
    let mut b = a.clone();
    let at = c.at as usize % b.len();
    match c.how {
        1 => b[at].1.push('x'),
        2 => {
            let next = (at + 1) % b.len();
            b.swap(at, next);
        }
        3 => {
            b.remove(at);
        }
        _ => {}
    }
    let r = sut("lists", || -> R {
        let s = Synthesized::new(items(&a));
        ensure!(plain(&s.items()) == a, "a list of {} entries does not hold them", a.len());
        let mut want: BTreeMap<&String, Vec<&String>> = BTreeMap::new();
        for (f, t) in &a {
            want.entry(t).or_default().push(f);
        }
        ensure!(s.item_map() == want, "item_map of {} entries differs: {c:?}", a.len());
        let x = s.corr();
        let t = Table::from_corr(x.clone(), Origin::New);
        for (what, got) in [
            ("clone", x.clone().items()),
            ("synthesize", x.synthesize().items()),
            ("Synthesized::from", Synthesized::from(&x).items()),
            ("Table::items", t.items()),
            ("Table::corr", t.corr().items()),
            ("TableBuilder", t.clone().builder().build().items()),
        ] {
            ensure!(plain(&got) == a, "{what}: a list of {} entries does not hold them", a.len());
        }
        let y = Synthesized::new(items(&b)).corr();
        ensure!((x == y) == (a == b), "lists of {} entries: == is {}, {c:?}", a.len(), x == y);
        Ok(())
    })?;
    r?;
    o.nontrivial_if(a.len() > 256);
    o.label_if(a.len() > 65_536, "over 65,536 entries");
    o.label_if(a == b, "equal lists");
    Ok(())
}

// ------------------------------------------------------------------ positions, extensions

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Places(Vec<(String, String, [usize; 4])>);

fn places() -> BoxedStrategy<Places> {
    let n = || prop_oneof![4 => 0usize..4, 1 => 0usize..1000, 1 => any::<usize>()];
    vec((word(), word(), [n(), n(), n(), n()]), 0..8).prop_map(Places).boxed()
}

fn check_places(c: &Places, o: &mut Obs) -> R {
    let r = sut("positions", || -> R {
        let all: Vec<Position> = c.0.iter().map(|(f, t, n)| Position::new(f.clone(), t.as_str(), n[0], n[1], n[2], n[3])).collect();
        let fields = |p: &Position| (p.from.clone(), p.to.clone(), [p.index, p.utf8_index, p.length, p.utf8_length]);
        for (p, want) in all.iter().zip(&c.0) {
            ensure!(fields(p) == *want && fields(&p.clone()) == *want, "Position::new gave {p:?} for {want:?}");
            for q in &all {
                ensure!((p == q) == (p.index == q.index), "{p:?} == {q:?} is {}", p == q);
                ensure!(p.cmp(q) == p.index.cmp(&q.index) && p.partial_cmp(q) == Some(p.cmp(q)), "{p:?}.cmp({q:?}) is {:?}", p.cmp(q));
            }
        }
        let (mut sorted, mut want) = (all.clone(), c.0.clone());
        sorted.sort();
        want.sort_by_key(|x| x.2[0]);
        ensure!(sorted.iter().map(fields).collect::<Vec<_>>() == want, "sorted: {sorted:?}");
        ensure!(all.iter().max().map(|p| p.index) == c.0.iter().map(|x| x.2[0]).max(), "the last of {all:?} is {:?}", all.iter().max());
        Ok(())
    })?;
    r?;
    o.nontrivial_if(c.0.len() > 1);
    Ok(())
}

fn check_extension(s: &String, o: &mut Obs) -> R {
    let want = match s.as_str() {
        "csv" | ".csv" => Some(FileExtension::Csv),
        "yaml" | ".yaml" | "yml" | ".yml" => Some(FileExtension::Yaml),
        _ => None,
    };
    let got = sut("FileExtension::from_str", || FileExtension::from_str(s))?;
    match (&got, &want) {
        (Ok(g), Some(w)) => {
            ensure!(g == w, "{s:?} is {g:?}");
            let name = sut("to_string", || g.to_string())?;
            ensure!(name == if *w == FileExtension::Csv { "csv" } else { "yaml" }, "{g:?} is written {name:?}");
            let again = sut("from_str", || FileExtension::from_str(&name))?;
            ensure!(again.is_ok_and(|a| a == *w), "{name:?} does not read back");
        }
        (Err(_), None) => {}
        _ => return fail(format!("FileExtension::from_str({s:?}) gave {got:?}")),
    }
    o.nontrivial_if(want.is_some() || s.contains("csv") || s.contains("y"));
    o.label(if want.is_some() { "known" } else { "unknown" });
    Ok(())
}

pub fn c22(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    ctx.prop("origins", ctx.n(12_000, 300_000), "the table comes from a file, has been given an origin, or was added to from a file", life, |c, o| check_life(&dir, c, o));
    ctx.prop("entries", ctx.n(30_000, 800_000), "more than one entry", entries, check_entries);
    ctx.prop("long-lists", ctx.n(1_000, 20_000), "over 256 entries", long_lists, check_long_list);
    ctx.prop("positions", ctx.n(20_000, 500_000), "more than one position", places, check_places);
    ctx.prop(
        "extensions",
        ctx.n(10_000, 200_000),
        "a supported name, or like one",
        || {
            let known = select(vec!["csv", ".csv", "yaml", ".yaml", "yml", ".yml"]);
            prop_oneof![
                2 => known.clone().prop_map(|s| s.to_string()),
                3 => (known.clone(), any::<u8>(), "[.a-zA-Z \u{0}ｃ]?", any::<bool>()).prop_map(|(s, at, c, over)| {
                    let (a, b) = s.split_at(at as usize % (s.len() + 1));
                    format!("{a}{c}{}", if over { b.get(1..).unwrap_or("") } else { b })
                }),
                1 => known.prop_map(|s| s.to_uppercase()),
                1 => "\\PC{0,6}",
            ]
        },
        check_extension,
    );
}
