//! C19: what loading reads and what it leaves alone.

use super::conf::{csv_of, items_set};
use super::pipe::{clashing_conv, yaml_conf};
use super::text::{diff, norm, show};
use crate::ensure;
use crate::files::{thread_dir, Items, YamlConf};
use crate::gen;
use crate::model::{self, Step};
use crate::run::{fail, harness_error, sut, Ctx, Fail, Obs, R};
use chanoma::file::{modifiers_from_yaml_path, table_from_csv_path, table_from_yaml_path};
use chanoma::{Chanoma, Item, Synthesized, TableBuilder};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};

type Set = BTreeSet<(String, String)>;
type Pairs = Vec<(char, char)>;

/// Name and whether it is a CSV file. The last four are what discovery finds in the current directory.
const FILES: [(&str, bool); 10] = [
    ("a.csv", true),
    ("b.csv", true),
    ("a.yaml", false),
    ("b.yml", false),
    ("sub/c.csv", true),
    ("sub/c.yaml", false),
    ("chanomarc.csv", true),
    ("chanomarc.yaml", false),
    (".chanomarc.csv", true),
    (".chanomarc.yml", false),
];
const DISCOVERED: std::ops::Range<usize> = 6..10;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Body {
    Good(YamlConf),
    /// the same followed by something malformed
    Bad(YamlConf, u8),
    /// hundreds of good rows, and something malformed behind them if the number is not 0
    Long(u16, u8),
}

/// What a file holds: the steps of a configuration and the entries of a table, None where it must be rejected.
#[derive(Clone)]
struct Holds {
    steps: Option<Vec<Step>>,
    table: Option<Set>,
}

fn quoted(s: &str) -> String {
    serde_json::to_string(s).expect("string")
}

impl Body {
    fn render(&self, csv: bool) -> (Vec<u8>, Holds) {
        let long;
        let (conf, bad) = match self {
            Body::Good(c) => (c, 0),
            Body::Bad(c, k) => (c, k % 4 + 1),
            Body::Long(n, k) => {
                let pairs = (0..*n as u32 % 900 + 50).map(|i| (model::uni(0x4e00 + i).to_string(), model::uni(0x3041 + i % 60).to_string()));
                long = YamlConf { steps: None, items: Items::List(pairs.collect()), items_first: false, style: *n as u64 };
                (&long, k % 5)
            }
        };
        let set = |v: Vec<(String, String)>| v.into_iter().collect::<Set>();
        if csv {
            let c = csv_of(&conf.items.pairs(), conf.style);
            let mut b = c.render().into_bytes();
            if bad > 0 {
                let tail: &[u8] = match bad {
                    1 => b"\n,x\n",
                    2 => b"\nx,\n",
                    3 => b"\nx,\xff\n",
                    _ => b"\na,b\nc,,d\ne,f\n",
                };
                b.extend_from_slice(tail);
                return (b, Holds { steps: None, table: None });
            }
            return (b, Holds { steps: Some(vec![Step::Conv(c.conv())]), table: Some(set(c.pairs())) });
        }
        let good = Holds { steps: Some(conf.pipeline()), table: Some(set(conf.items.pairs())) };
        if bad == 0 {
            return (conf.render().into_bytes(), good);
        }
        // in this order the malformed part comes last
        let pairs: String = conf.items.pairs().iter().map(|(f, t)| format!("  - from: {}\n    to: {}\n", quoted(f), quoted(t))).collect();
        let head = format!("items:\n{}", if pairs.is_empty() { "  - from: a\n    to: b\n".to_string() } else { pairs });
        let none = Holds { steps: None, table: None };
        match bad {
            1 => (format!("{head}  - from: 1\n    to: x\n").into_bytes(), none),
            2 => {
                let table = set(if conf.items.pairs().is_empty() { vec![("a".into(), "b".into())] } else { conf.items.pairs() });
                (format!("{head}modifiers:\n  trim:\n  nope:\n").into_bytes(), Holds { steps: None, table: Some(table) })
            }
            3 => ([head.as_bytes(), b"  - from: \"\xff\"\n    to: x\n"].concat(), none),
            _ => (format!("{head}  - [\n").into_bytes(), none),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// (file, content, how): 0 written over, 1 the same and the time of modification put back, 2 replaced by renaming
    /// another file over it, 3 the same and the time put back; padded to the length it had before if it is shorter
    Write(u8, Body, u8, bool),
    Remove(u8),
    Rename(u8, u8),
    /// a configuration; the normalizer is kept
    Load(u8),
    /// CHANOMARC names the file, or is not set
    Rc(Option<u8>),
    /// a table of its own
    Table(u8),
    /// the functions of the file module
    Functions(u8),
    /// the file added to the one builder
    Add(u8),
    AddEntries(Pairs),
    RemoveEntries(Pairs),
    /// build what the builder has and go on from there
    Build,
    /// use one of the normalizers made so far
    Use(u8, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    ops: Vec<Op>,
    texts: Vec<String>,
}

fn body() -> BoxedStrategy<Body> {
    let conf = || {
        prop_oneof![
            2 => yaml_conf(4),
            3 => (clashing_conv(), any::<u64>()).prop_map(|(c, style)| {
                let v: Vec<(String, String)> = c.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                YamlConf { steps: None, items: Items::List(v), items_first: false, style }
            }),
        ]
    };
    prop_oneof![
        8 => conf().prop_map(Body::Good),
        4 => (conf(), any::<u8>()).prop_map(|(c, k)| Body::Bad(c, k)),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(n, k)| Body::Long(n, k)),
    ]
    .boxed()
}

fn file() -> BoxedStrategy<u8> {
    prop_oneof![2 => Just(0u8), 2 => Just(2u8), 3 => 0u8..FILES.len() as u8].boxed()
}

fn history() -> BoxedStrategy<History> {
    let op = prop_oneof![
        6 => (file(), body(), 0u8..4, any::<bool>()).prop_map(|(f, b, k, pad)| Op::Write(f, b, k, pad)),
        1 => file().prop_map(Op::Remove),
        1 => (file(), file()).prop_map(|(a, b)| Op::Rename(a, b)),
        5 => file().prop_map(Op::Load),
        2 => prop::option::weighted(0.6, file()).prop_map(Op::Rc),
        2 => file().prop_map(Op::Table),
        1 => file().prop_map(Op::Functions),
        6 => file().prop_map(Op::Add),
        1 => clashing_conv().prop_map(Op::AddEntries),
        1 => clashing_conv().prop_map(Op::RemoveEntries),
        1 => Just(Op::Build),
        2 => (any::<u8>(), gen::short_text()).prop_map(|(k, t)| Op::Use(k, t)),
    ];
    let texts = vec(prop_oneof![3 => gen::text_over("aAb\u{ff21}\u{ff22}\u{ff76}カ゛ー-~ \u{3000}\u{2010}\u{2014}がｶ一丁".chars().collect(), 16), 1 => gen::short_text()], 1..3);
    (vec(op, 3..24), texts).prop_map(|(ops, texts)| History { ops, texts }).boxed()
}

/// Everything below a directory: kind, length, times, inode, mode and content.
fn snapshot(base: &Path) -> BTreeMap<PathBuf, (u64, i64, i64, u64, u32, Vec<u8>)> {
    let mut m = BTreeMap::new();
    let mut todo = vec![base.to_path_buf()];
    while let Some(p) = todo.pop() {
        let md = std::fs::symlink_metadata(&p).expect("scratch");
        let content = if md.is_file() {
            std::fs::read(&p).expect("scratch")
        } else {
            if md.is_dir() {
                todo.extend(std::fs::read_dir(&p).expect("scratch").map(|e| e.expect("scratch").path()));
            }
            vec![]
        };
        m.insert(p, (md.len(), md.mtime(), md.mtime_nsec(), md.ino(), md.mode(), content));
    }
    m
}

/// What is open below a directory.
fn open_below(base: &Path) -> Vec<PathBuf> {
    let all = std::fs::read_dir("/proc/self/fd").map(|d| d.flatten().filter_map(|e| std::fs::read_link(e.path()).ok()).collect::<Vec<_>>());
    all.unwrap_or_default().into_iter().filter(|p| p.starts_with(base)).collect()
}

fn describe(before: &BTreeMap<PathBuf, (u64, i64, i64, u64, u32, Vec<u8>)>, after: &BTreeMap<PathBuf, (u64, i64, i64, u64, u32, Vec<u8>)>) -> String {
    for (p, a) in after {
        match before.get(p) {
            None => return format!("{} was created", p.display()),
            Some(b) if b != a => return format!("{} was changed", p.display()),
            _ => {}
        }
    }
    match before.keys().find(|p| !after.contains_key(*p)) {
        Some(p) => format!("{} was removed", p.display()),
        None => "nothing changed".into(),
    }
}

/// Runs one operation of the library and looks at what else it did.
fn watched<T>(base: &Path, what: &str, f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    let (before, cwd) = (snapshot(base), std::env::current_dir().expect("cwd"));
    let env: Vec<_> = std::env::vars_os().collect();
    let r = f()?;
    let after = snapshot(base);
    if before != after {
        return fail(format!("{what}: {}", describe(&before, &after)));
    }
    let now = std::env::current_dir();
    ensure!(now.as_ref().is_ok_and(|d| *d == cwd), "{what} left the current directory at {now:?}");
    ensure!(std::env::vars_os().collect::<Vec<_>>() == env, "{what} changed the environment");
    Ok(r)
}

fn write_file(p: &Path, body: &[u8], how: u8, pad: bool, csv: bool) -> bool {
    let old = std::fs::metadata(p).ok();
    let mut b = body.to_vec();
    let mut same = false;
    if let Some(o) = &old {
        let want = o.len() as usize;
        // blank lines at the end of either format mean nothing
        if pad && b.len() <= want && (csv || b.ends_with(b"\n")) {
            b.resize(want, b'\n');
        }
        same = b.len() == want && how % 2 == 1;
    }
    match how {
        0 | 1 => std::fs::write(p, &b).expect("scratch"),
        _ => {
            let tmp = p.with_extension("tmp");
            std::fs::write(&tmp, &b).expect("scratch");
            std::fs::rename(&tmp, p).expect("scratch");
        }
    }
    if let (1 | 3, Some(o)) = (how, &old) {
        let f = std::fs::File::options().write(true).open(p).expect("scratch");
        f.set_modified(o.modified().expect("time")).expect("scratch");
    }
    same
}

fn expect_texts(what: &str, c: &Chanoma, steps: &[Step], texts: &[String]) -> R {
    for x in texts {
        let want = model::apply_all(steps, x);
        let got = norm(what, c, x)?;
        if got != want {
            return Err(diff(&format!("{what}, expected steps {steps:?}"), x, &got, &want));
        }
    }
    Ok(())
}

fn check_history(dir: &Path, h: &History, o: &mut Obs) -> R {
    let base = thread_dir(dir).join("world");
    let _ = std::fs::remove_dir_all(&base);
    for d in ["sub", "home", "tmp"] {
        std::fs::create_dir_all(base.join(d)).expect("scratch");
    }
    std::env::set_current_dir(&base).expect("cwd");
    std::env::set_var("HOME", base.join("home"));
    std::env::set_var("TMPDIR", base.join("tmp"));
    std::env::remove_var("CHANOMARC");
    let r = run_history(&base, h, o);
    std::env::set_current_dir("/").expect("cwd");
    std::env::remove_var("TMPDIR");
    std::env::remove_var("CHANOMARC");
    r
}

fn run_history(base: &Path, h: &History, o: &mut Obs) -> R {
    let mut files: Vec<Option<Holds>> = vec![None; FILES.len()];
    let mut builder = TableBuilder::new();
    let mut entries = Set::new();
    let mut made: Vec<(Chanoma, Vec<Step>)> = vec![];
    let mut loaded = vec![false; FILES.len()];
    let (mut rewritten, mut refused) = (false, false);
    let at = |f: u8| f as usize % FILES.len();
    for (i, op) in h.ops.iter().enumerate() {
        let what = format!("operation {i}, {}", show(&format!("{op:?}")));
        let keep = |c: Chanoma, steps: Vec<Step>, made: &mut Vec<(Chanoma, Vec<Step>)>| -> R {
            expect_texts(&what, &c, &steps, &h.texts)?;
            made.push((c, steps));
            Ok(())
        };
        match op {
            Op::Write(f, body, how, pad) => {
                let (name, csv) = FILES[at(*f)];
                let (b, holds) = body.render(csv);
                let same = write_file(&base.join(name), &b, *how, *pad, csv);
                o.label_if(same && loaded[at(*f)], "new content with the old length and time");
                rewritten |= loaded[at(*f)];
                files[at(*f)] = Some(holds);
            }
            Op::Remove(f) => {
                if files[at(*f)].take().is_some() {
                    std::fs::remove_file(base.join(FILES[at(*f)].0)).expect("scratch");
                }
            }
            Op::Rename(f, t) => {
                let (f, t) = (at(*f), at(*t));
                if f != t && FILES[f].1 == FILES[t].1 && files[f].is_some() {
                    std::fs::rename(base.join(FILES[f].0), base.join(FILES[t].0)).expect("scratch");
                    files[t] = files[f].take();
                    rewritten |= loaded[t];
                }
            }
            Op::Load(f) => {
                // a relative path now and then
                let p = if i % 3 == 0 { PathBuf::from(FILES[at(*f)].0) } else { base.join(FILES[at(*f)].0) };
                let r = watched(base, &what, || sut("from_config_file", || Chanoma::from_config_file(&p)))?;
                match (r, files[at(*f)].as_ref().and_then(|h| h.steps.clone())) {
                    (Ok(c), Some(steps)) => keep(c, steps, &mut made)?,
                    (Err(_), None) => {}
                    (Ok(_), None) => return fail(format!("{what}: loaded, but the file is missing or malformed by now")),
                    (Err(e), Some(_)) => return fail(format!("{what}: {e}, but the file is well-formed by now")),
                }
                o.nontrivial_if(rewritten);
                loaded[at(*f)] = true;
            }
            Op::Rc(f) => {
                let want = match f {
                    Some(f) => {
                        // not always the shortest full path
                        let p = match i % 3 {
                            0 => base.join(FILES[at(*f)].0),
                            1 => PathBuf::from(FILES[at(*f)].0),
                            _ => base.join("sub/..").join(FILES[at(*f)].0),
                        };
                        std::env::set_var("CHANOMARC", p);
                        files[at(*f)].as_ref().and_then(|h| h.steps.clone())
                    }
                    None => {
                        std::env::remove_var("CHANOMARC");
                        DISCOVERED.filter_map(|k| files[k].as_ref()).try_fold(vec![], |mut v, h| {
                            v.extend(h.steps.clone()?);
                            Some(v)
                        })
                    }
                };
                let r = watched(base, &what, || sut("load_rc", Chanoma::load_rc))?;
                match (r, want) {
                    (Ok(c), Some(steps)) => keep(c, steps, &mut made)?,
                    (Err(_), None) => {}
                    (Ok(_), None) => return fail(format!("{what}: loaded, but a file is missing or malformed by now")),
                    (Err(e), Some(_)) => return fail(format!("{what}: {e}, but the files are well-formed by now")),
                }
                o.nontrivial_if(rewritten);
            }
            Op::Table(f) | Op::Functions(f) => {
                let (name, csv) = FILES[at(*f)];
                let p = base.join(name);
                let r = watched(base, &what, || {
                    sut("table", || match (op, csv) {
                        (Op::Table(_), true) => TableBuilder::from_csv_path(&p).map(|b| b.build()),
                        (Op::Table(_), false) => TableBuilder::from_yaml_path(&p).map(|b| b.build()),
                        (_, true) => table_from_csv_path(&p),
                        (_, false) => table_from_yaml_path(&p),
                    })
                })?;
                match (r, files[at(*f)].as_ref().and_then(|h| h.table.clone())) {
                    (Ok(t), Some(s)) => ensure!(items_set(&t) == s, "{what}: the table holds {} entries, the file by now {}", items_set(&t).len(), s.len()),
                    (Err(_), None) => {}
                    (Ok(_), None) => return fail(format!("{what}: loaded, but the file is missing or malformed by now")),
                    (Err(e), Some(_)) => return fail(format!("{what}: {e}, but the file is well-formed by now")),
                }
                if let (Op::Functions(_), false) = (op, csv) {
                    let ok = watched(base, &what, || sut("modifiers_from_yaml_path", || modifiers_from_yaml_path(&p).is_ok()))?;
                    if let Some(Holds { steps: Some(_), .. }) = files[at(*f)] {
                        ensure!(ok, "{what}: modifiers of a well-formed file rejected");
                    }
                }
                o.nontrivial_if(rewritten);
                loaded[at(*f)] = true;
            }
            Op::Add(f) => {
                let (name, csv) = FILES[at(*f)];
                let p = base.join(name);
                let r = watched(base, &what, || {
                    sut("add", || if csv { builder.add_from_csv(&p).map(drop) } else { builder.add_from_yaml(&p).map(drop) })
                })?;
                match (r, files[at(*f)].as_ref().and_then(|h| h.table.clone())) {
                    (Ok(()), Some(s)) => entries.extend(s),
                    (Err(_), None) => refused |= !entries.is_empty(),
                    (Ok(_), None) => return fail(format!("{what}: added, but the file is missing or malformed by now")),
                    (Err(e), Some(_)) => return fail(format!("{what}: {e}, but the file is well-formed by now")),
                }
                loaded[at(*f)] = true;
            }
            Op::AddEntries(v) | Op::RemoveEntries(v) => {
                let c = Synthesized::new(v.iter().map(|(f, t)| Item::new(f.to_string(), t.to_string())).collect()).corr();
                let add = matches!(op, Op::AddEntries(_));
                sut("builder", || if add { builder.add_corr(&c); } else { builder.remove_corr(&c); })?;
                for (f, t) in v {
                    let e = (f.to_string(), t.to_string());
                    if add {
                        entries.insert(e);
                    } else {
                        entries.remove(&e);
                    }
                }
            }
            Op::Build => {
                let t = sut("build", || std::mem::take(&mut builder).build())?;
                let got = items_set(&t);
                ensure!(got == entries, "{what}: the builder held {got:?} instead of {entries:?}");
                if refused {
                    o.label("built after a refused addition");
                    o.nontrivial = true;
                }
                builder = t.builder();
            }
            Op::Use(k, x) => {
                if !made.is_empty() {
                    let (c, steps) = &made[*k as usize % made.len()];
                    let got = watched(base, &what, || norm(&what, c, x))?;
                    let want = model::apply_all(steps, x);
                    if got != want {
                        return Err(diff(&format!("{what}, loaded earlier with {steps:?}"), x, &got, &want));
                    }
                }
            }
        }
        let open = open_below(base);
        ensure!(open.is_empty(), "{what} left {open:?} open");
    }
    for (c, steps) in &made {
        expect_texts("at the end, a normalizer loaded earlier", c, steps, &h.texts)?;
    }
    let got = items_set(&sut("build", || builder.build())?);
    ensure!(got == entries, "in the end the builder holds {got:?} instead of {entries:?}");
    if refused {
        o.label("built after a refused addition");
        o.nontrivial = true;
    }
    Ok(())
}

// ------------------------------------------------------------------ one version

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Once {
    conf: YamlConf,
    csv: bool,
    yml: bool,
    text: String,
}

fn once_case() -> BoxedStrategy<Once> {
    (yaml_conf(4), any::<bool>(), any::<bool>())
        .prop_flat_map(|(conf, csv, yml)| {
            let cs = gen::steps_chars(&conf.pipeline());
            (Just(conf), Just(csv), Just(yml), gen::text_over(cs, 16))
        })
        .prop_map(|(conf, csv, yml, text)| Once { conf, csv, yml, text })
        .boxed()
}

/// A pipe holds its content only once, so whoever looks at it twice sees nothing the second time.
fn check_once(dir: &Path, c: &Once, o: &mut Obs) -> R {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    let (body, holds) = Body::Good(c.conf.clone()).render(c.csv);
    if body.len() > 60_000 {
        return Ok(());
    }
    let p = thread_dir(dir).join(if c.csv { "once.csv" } else if c.yml { "once.yml" } else { "once.yaml" });
    let piped = || {
        let (r, mut w) = std::io::pipe().expect("pipe");
        w.write_all(&body).expect("pipe");
        let _ = std::fs::remove_file(&p);
        std::os::unix::fs::symlink(format!("/proc/self/fd/{}", r.as_raw_fd()), &p).expect("scratch");
        r
    };
    let steps = holds.steps.expect("well-formed");
    let r = piped();
    match sut("from_config_file", || Chanoma::from_config_file(&p))? {
        Err(e) => return fail(format!("from_config_file on a pipe: {e}; content {}", show(&String::from_utf8_lossy(&body)))),
        Ok(n) => expect_texts("from_config_file on a pipe", &n, &steps, std::slice::from_ref(&c.text))?,
    }
    drop(r);
    let r = piped();
    let mut b = TableBuilder::new();
    let added = sut("add", || if c.csv { b.add_from_csv(&p).map(drop) } else { b.add_from_yaml(&p).map(drop) })?;
    ensure!(added.is_ok(), "adding from a pipe: {}", added.unwrap_err());
    ensure!(items_set(&b.build()) == holds.table.expect("well-formed"), "adding from a pipe gave other entries");
    drop(r);
    let _ = std::fs::remove_file(&p);
    o.nontrivial_if(model::apply_all(&steps, &c.text) != c.text);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replaced {
    versions: Vec<YamlConf>,
    csv: bool,
    texts: Vec<String>,
    loads: u16,
    /// how many threads load it
    readers: u8,
    /// found through CHANOMARC
    rc: bool,
}

fn replaced_case() -> BoxedStrategy<Replaced> {
    (vec(yaml_conf(4), 2..4), prop::bool::weighted(0.3), 200u16..600, 1u8..5, prop::bool::weighted(0.4))
        .prop_flat_map(|(versions, csv, loads, readers, rc)| {
            let cs: Vec<char> = versions.iter().flat_map(|v| gen::steps_chars(&v.pipeline())).collect();
            (Just(versions), Just(csv), vec(gen::text_over(cs, 16), 2..4), Just(loads), Just(readers), Just(rc))
        })
        .prop_map(|(versions, csv, texts, loads, readers, rc)| Replaced { versions, csv, texts, loads, readers, rc })
        .boxed()
}

/// While one version after another is renamed into place, every load gives one of them.
fn check_replaced(dir: &Path, c: &Replaced, o: &mut Obs) -> R {
    let d = thread_dir(dir).join("replaced");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch");
    let ext = if c.csv { "csv" } else { "yaml" };
    let target = d.join(format!("c.{ext}"));
    let mut allowed: Vec<Vec<String>> = vec![];
    for (i, v) in c.versions.iter().enumerate() {
        let (body, holds) = Body::Good(v.clone()).render(c.csv);
        std::fs::write(d.join(format!("v{i}.{ext}")), &body).expect("scratch");
        let steps = holds.steps.expect("well-formed");
        allowed.push(c.texts.iter().map(|x| model::apply_all(&steps, x)).collect());
    }
    std::fs::copy(d.join(format!("v0.{ext}")), &target).expect("scratch");
    let stop = AtomicBool::new(false);
    if c.rc {
        std::env::set_var("CHANOMARC", &target);
    }
    let results: Vec<R> = std::thread::scope(|sc| {
        sc.spawn(|| {
            let mut i = 0;
            while !stop.load(Ordering::Relaxed) {
                i = (i + 1) % c.versions.len();
                let tmp = d.join("tmp");
                std::fs::hard_link(d.join(format!("v{i}.{ext}")), &tmp).expect("scratch");
                std::fs::rename(&tmp, &target).expect("scratch");
                // renaming a file over another name of itself leaves both
                let _ = std::fs::remove_file(&tmp);
            }
        });
        let hs: Vec<_> = (0..c.readers.clamp(1, 4))
            .map(|_| {
                sc.spawn(|| {
                    for _ in 0..c.loads {
                        let n = if c.rc {
                            sut("load_rc", || Chanoma::load_rc().map_err(|e| e.to_string()))?
                        } else {
                            sut("from_config_file", || Chanoma::from_config_file(&target).map_err(|e| e.to_string()))?
                        };
                        let n = match n {
                            Ok(n) => n,
                            Err(e) => return fail(format!("loading a file that is being replaced: {e}")),
                        };
                        let got: Vec<String> = c.texts.iter().map(|x| norm("loaded", &n, x)).collect::<Result<_, _>>()?;
                        ensure!(allowed.contains(&got), "loading a file that is being replaced gave a mixture: {:?} -> {got:?}, the versions give {allowed:?}", c.texts);
                    }
                    Ok(())
                })
            })
            .collect();
        let r = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| harness_error("reader"))).collect();
        stop.store(true, Ordering::Relaxed);
        r
    });
    std::env::remove_var("CHANOMARC");
    for r in results {
        r?;
    }
    o.weight = c.loads as u64 * c.readers.clamp(1, 4) as u64;
    o.nontrivial_if(allowed.iter().any(|a| *a != allowed[0]));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Side {
    confs: Vec<(YamlConf, bool)>,
    texts: Vec<String>,
    rounds: u16,
}

/// Threads that load files of their own at the same time.
fn check_side(dir: &Path, c: &Side, o: &mut Obs) -> R {
    let d = thread_dir(dir).join("side");
    let _ = std::fs::remove_dir_all(&d);
    let barrier = std::sync::Barrier::new(c.confs.len());
    let results: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = c
            .confs
            .iter()
            .enumerate()
            .map(|(k, (conf, csv))| {
                let (d, barrier) = (&d, &barrier);
                sc.spawn(move || {
                    // the same name in different directories
                    let my = d.join(k.to_string());
                    std::fs::create_dir_all(&my).expect("scratch");
                    let p = my.join(if *csv { "c.csv" } else { "c.yaml" });
                    let (body, holds) = Body::Good(conf.clone()).render(*csv);
                    std::fs::write(&p, body).expect("scratch");
                    let (steps, table) = (holds.steps.expect("well-formed"), holds.table.expect("well-formed"));
                    barrier.wait();
                    for _ in 0..c.rounds {
                        match sut("from_config_file", || Chanoma::from_config_file(&p))? {
                            Ok(n) => expect_texts("loaded while others load", &n, &steps, &c.texts)?,
                            Err(e) => return fail(format!("loading while others load: {e}")),
                        }
                        let mut b = TableBuilder::new();
                        let r = sut("add", || if *csv { b.add_from_csv(&p).map(drop) } else { b.add_from_yaml(&p).map(drop) })?;
                        ensure!(r.is_ok() && items_set(&b.build()) == table, "a table loaded while others load has other entries");
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| harness_error("loader"))).collect()
    });
    for r in results {
        r?;
    }
    o.weight = c.confs.len() as u64 * c.rounds as u64;
    o.nontrivial_if(c.confs.windows(2).any(|w| w[0].0 != w[1].0));
    Ok(())
}

// ------------------------------------------------------------------ the program

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Program {
    flags: Vec<String>,
    arg: Option<String>,
    files: Vec<(u8, Body)>,
    rc: Option<u8>,
}

fn check_program(dir: &Path, c: &Program, o: &mut Obs) -> R {
    let base = thread_dir(dir).join("program");
    let _ = std::fs::remove_dir_all(&base);
    for d in ["sub", "home/.config/chanoma", "tmp"] {
        std::fs::create_dir_all(base.join(d)).expect("scratch");
    }
    for (f, b) in &c.files {
        let (name, csv) = FILES[*f as usize % FILES.len()];
        std::fs::write(base.join(name), b.render(csv).0).expect("scratch");
    }
    let bin = std::env::var_os("VH_BIN_CHANOMA").unwrap_or_else(|| harness_error("VH_BIN_CHANOMA is not set"));
    let before = snapshot(&base);
    let mut cmd = std::process::Command::new("/usr/bin/timeout");
    cmd.arg("60").arg(&bin).args(&c.flags).env_clear().env("PATH", "/usr/bin:/bin").env("HOME", base.join("home")).env("TMPDIR", base.join("tmp"));
    if let Some(f) = c.rc {
        cmd.env("CHANOMARC", base.join(FILES[f as usize % FILES.len()].0));
    }
    if let Some(a) = &c.arg {
        cmd.arg("--").arg(a);
    }
    let out = cmd.current_dir(&base).stdin(std::process::Stdio::null()).output().unwrap_or_else(|e| harness_error(&format!("chanoma: {e}")));
    let after = snapshot(&base);
    if before != after {
        return fail(format!("chanoma {:?} {:?}: {}", c.flags, c.arg, describe(&before, &after)));
    }
    o.label_if(!out.status.success(), "refused");
    o.nontrivial_if(!c.files.is_empty());
    Ok(())
}

pub fn c19(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    ctx.prop_on(
        1,
        3000,
        "histories",
        ctx.n(3_000, 60_000),
        "a file is loaded after its content was changed, or a builder goes on after an addition that was refused",
        history,
        |h, o| check_history(&dir, h, o),
    );
    ctx.prop("read-once", ctx.n(8_000, 200_000), "the configuration changes the text; content that can be read only once", once_case, |c, o| {
        check_once(&dir, c, o)
    });
    ctx.prop_on(
        1,
        60,
        "replaced",
        ctx.n(24, 600),
        "the versions give different texts; loads while the file is replaced again and again",
        replaced_case,
        |c, o| check_replaced(&dir, c, o),
    );
    ctx.prop_on(
        1,
        60,
        "side-by-side",
        ctx.n(60, 1_500),
        "the files differ; eight threads load files of their own",
        || {
            (vec((yaml_conf(4), any::<bool>()), 8), vec(gen::short_text(), 1..3), 5u16..40).prop_map(|(confs, texts, rounds)| Side { confs, texts, rounds })
        },
        |c, o| check_side(&dir, c, o),
    );
    ctx.prop_on(
        8,
        200,
        "program",
        ctx.n(300, 6_000),
        "there are files to load; the directory, the home directory and the directory for temporary files before and after",
        || {
            let flag = select(vec!["-p", "-n", "-d", "-pnd"]).prop_map(|s| s.to_string());
            (vec(flag, 0..3), prop::option::of(gen::short_text()), vec((file(), body()), 0..4), prop::option::weighted(0.4, file())).prop_map(
                |(mut flags, arg, files, rc)| {
                    flags.dedup();
                    Program { flags, arg: arg.map(|a| a.replace('\0', " ")), files, rc }
                },
            )
        },
        |c, o| check_program(&dir, c, o),
    );
}
