//! C10, C11, C12: configuration files, bad input, discovery.

use super::pipe::yaml_conf;
use super::text::{diff, load, norm, show};
use crate::ensure;
use crate::files::{put, thread_dir, yaml_double, CsvConf, Items, Style, YamlConf};
use crate::gen;
use crate::model::{self, Step};
use crate::run::{fail, sut, Ctx, Fail, Obs, R};
use chanoma::file_extension::FileExtension;
use chanoma::{Chanoma, TableBuilder};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

// ------------------------------------------------------------------ C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct YamlCase {
    conf: YamlConf,
    texts: Vec<String>,
    name: u8,
}

const YAML_NAMES: [&str; 6] = ["c.yaml", "c.yml", "c.csv.yaml", "chanomarc.csv.yml", ".rc.yaml", "a b 設定.yml"];
const CSV_NAMES: [&str; 5] = ["c.csv", "c.yaml.csv", ".rc.csv", "a b 設定.csv", "c.yml.csv"];

fn yaml_case() -> BoxedStrategy<YamlCase> {
    (yaml_conf(9), 0u8..6)
        .prop_flat_map(|(conf, name)| {
            let cs = gen::steps_chars(&conf.pipeline());
            (Just(conf), vec(prop_oneof![5 => gen::text_over(cs, 20), 2 => gen::short_text()], 1..5), Just(name))
        })
        .prop_map(|(conf, texts, name)| YamlCase { conf, texts, name })
        .boxed()
}

pub fn check_behaviour(n: &Chanoma, steps: &[Step], texts: &[String], file: &str, o: &mut Obs) -> R {
    for x in texts {
        let want = model::apply_all(steps, x);
        let got = norm("configured normalizer", n, x)?;
        if got != want {
            return Err(diff(&format!("configuration {file}"), x, &got, &want));
        }
        o.nontrivial_if(want != *x);
        let r: Vec<Step> = steps.iter().rev().cloned().collect();
        o.label_if(model::apply_all(&r, x) != want, "order matters");
    }
    Ok(())
}

fn check_yaml(dir: &Path, c: &YamlCase, o: &mut Obs) -> R {
    let body = c.conf.render();
    let p = put(dir, YAML_NAMES[c.name as usize % YAML_NAMES.len()], &body);
    let n = load(&p)?;
    check_behaviour(&n, &c.conf.pipeline(), &c.texts, &show(&body), o)?;
    o.label_if(matches!(c.conf.items, Items::List(ref v) if !v.is_empty()), "items as list");
    o.label_if(matches!(c.conf.items, Items::Mapping(ref v) if !v.is_empty()), "items as mapping");
    o.label_if(c.conf.items == Items::Absent, "no items");
    o.label_if(c.conf.steps.as_ref().is_some_and(|s| s.len() > 2), "over two modifiers");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CsvCase {
    pub conf: CsvConf,
    texts: Vec<String>,
    name: u8,
}

fn header() -> BoxedStrategy<Vec<String>> {
    prop_oneof![
        Just(vec!["from".to_string(), "to".to_string()]),
        Just(vec!["a".to_string(), "b".to_string(), "c".to_string()]),
        Just(vec!["か".to_string()]),
        vec("[a-z あ\",]{1,3}", 1..4),
    ]
    .boxed()
}

/// Rows over one-character replacements with distinct sources.
fn csv_conf(pairs: Vec<(char, char)>, style: u64, header: Vec<String>) -> CsvConf {
    let mut st = Style::new(style ^ 0x9e37);
    let mut rows: Vec<Vec<String>> = vec![];
    for (f, t) in pairs {
        let (f, t) = (f.to_string(), t.to_string());
        let same = rows.iter().position(|r| r.last() == Some(&t));
        match same {
            Some(i) if st.pick(3) > 0 => {
                let at = st.pick(rows[i].len() as u64) as usize;
                let last = rows[i].len() - 1;
                rows[i].insert(at.min(last), f);
            }
            _ => rows.push(vec![f, t]),
        }
    }
    if st.pick(6) == 0 {
        rows.push(vec!["x".to_string()]);
    }
    CsvConf { header, rows, style }
}

pub fn csv_case() -> BoxedStrategy<CsvCase> {
    (gen::conv(12), any::<u64>(), header(), 0u8..5)
        .prop_map(|(p, s, h, n)| (csv_conf(p, s, h), n))
        .prop_flat_map(|(conf, name)| {
            let mut cs: Vec<char> = conf.conv().iter().flat_map(|(a, b)| [*a, *b]).collect();
            cs.extend(conf.header.iter().flat_map(|h| h.chars()));
            (Just(conf), vec(prop_oneof![5 => gen::text_over(cs, 20), 1 => gen::short_text()], 1..5), Just(name))
        })
        .prop_map(|(conf, texts, name)| CsvCase { conf, texts, name })
        .boxed()
}

/// Rows of up to a few hundred columns.
fn wide_csv_case() -> BoxedStrategy<CsvCase> {
    (vec(prop_oneof![4 => 2usize..14, 2 => 14usize..70, 1 => 120usize..140, 1 => 250usize..300], 1..6), any::<u64>(), header(), 0u32..0x5000, 0u8..5)
        .prop_map(|(widths, style, header, base, name)| {
            let (mut next, mut rows, mut texts) = (base, vec![], String::new());
            let base_cp = if base % 3 == 0 { 0x4e00 } else { 0x21 };
            let mut take = || loop {
                let c = char::from_u32(base_cp + next);
                next += 1;
                if let Some(c) = c {
                    return c;
                }
            };
            for w in widths {
                let row: Vec<String> = (0..w).map(|_| take().to_string()).collect();
                texts.extend(row.iter().map(|s| s.as_str()));
                rows.push(row);
            }
            CsvCase { conf: CsvConf { header, rows, style }, texts: vec![texts], name }
        })
        .boxed()
}

fn check_csv(dir: &Path, c: &CsvCase, o: &mut Obs) -> R {
    let body = c.conf.render();
    let p = put(dir, CSV_NAMES[c.name as usize % CSV_NAMES.len()], &body);
    let n = load(&p)?;
    check_behaviour(&n, &[Step::Conv(c.conf.conv())], &c.texts, &show(&body), o)?;
    o.label_if(c.conf.rows.iter().any(|r| r.len() > 2), "several sources in a row");
    o.label_if(c.conf.rows.is_empty(), "header only");
    o.label_if(body.contains('"'), "quoted");
    o.label_if(body.contains("\r\n"), "CRLF");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TableFiles {
    pairs: Vec<(String, String)>,
    style: u64,
}

/// Strings with every character YAML or CSV could stumble over.
pub fn hostile() -> BoxedStrategy<String> {
    let lit: Vec<String> = [
        "null", "~", "true", "false", "yes", "no", "1", "-1", "0x1f", "1e3", "1_000", ".inf", ".nan", "0o7", "+1", "1.", "- a", "a: b",
        ": ", "#", " #", "a #b", "'", "\"", "''", "\"\"", "\\", "\\n", "---", "...", "{", "}", "[", "]", ",", "&a", "*a", "!t", "|", ">",
        "%", "@", "`", "?", "? a", "<<", "=", " ", "  a", "a  ", "\t", "\ta", "\n", "a\nb", "\r", "\r\n", "\n\n", "a\n", "\na", ",,",
        "\",\"", "\u{feff}", "\u{85}", "\u{2028}", "\u{2029}", "\u{7f}", "\u{0}", "\u{1b}", "\u{a0}", "😀", "が", "か\u{3099}", "Null", "TRUE",
        "2001-01-01", "12:30:45", "0", "007", "1,2", "items", "from", "to",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    prop_oneof![
        4 => select(lit),
        3 => gen::ch().prop_map(|c| c.to_string()),
        2 => vec(gen::ch(), 1..4).prop_map(|v| v.into_iter().collect::<String>()),
        1 => "[ -~]{1,5}",
        1 => vec(any::<char>(), 1..4).prop_map(|v| v.into_iter().collect::<String>()),
    ]
    .boxed()
}

fn hostile_pairs(max: usize) -> BoxedStrategy<Vec<(String, String)>> {
    let few = vec((hostile(), select(vec!["A", "B", "1", "あ"]).prop_map(|s| s.to_string())), 0..max);
    let any = vec((hostile(), hostile()), 0..max);
    prop_oneof![few, any].boxed()
}

fn pair_set(v: &[(String, String)]) -> BTreeSet<(String, String)> {
    v.iter().cloned().collect()
}

pub fn items_set(t: &chanoma::Table) -> BTreeSet<(String, String)> {
    t.items().into_iter().map(|i| (i.from, i.to)).collect()
}

pub fn want_ok<T, E: std::fmt::Display>(what: &str, r: Result<Result<T, E>, Fail>, file: &str) -> Result<T, Fail> {
    match r? {
        Ok(t) => Ok(t),
        Err(e) => fail(format!("{what} rejected a well-formed file: {e}; file {}", show(file))),
    }
}

pub fn csv_of(pairs: &[(String, String)], style: u64) -> CsvConf {
    let mut st = Style::new(style ^ 0x51);
    let mut rows: Vec<Vec<String>> = vec![];
    let mut first: std::collections::HashMap<&String, usize> = Default::default();
    for (f, t) in pairs {
        match first.get(t) {
            Some(i) if st.pick(2) == 0 => rows[*i].insert(0, f.clone()),
            _ => {
                first.entry(t).or_insert(rows.len());
                rows.push(vec![f.clone(), t.clone()]);
            }
        }
    }
    CsvConf { header: vec!["from".into(), "to".into()], rows, style }
}

fn check_tables(dir: &Path, c: &TableFiles, o: &mut Obs) -> R {
    let want = pair_set(&c.pairs);
    let csv = csv_of(&c.pairs, c.style).render();
    let list = YamlConf { steps: None, items: Items::List(c.pairs.clone()), items_first: true, style: c.style }.render();
    let map = YamlConf { steps: None, items: Items::grouped(&c.pairs), items_first: true, style: c.style }.render();
    let pc = put(dir, "t.csv", &csv);
    let pl = put(dir, "list.yaml", &list);
    let pm = put(dir, "map.yml", &map);
    let mut got = vec![
        ("TableBuilder::from_csv_path", want_ok("from_csv_path", sut("from_csv_path", || TableBuilder::from_csv_path(&pc)), &csv)?.build(), &csv),
        ("file::table_from_csv_path", want_ok("table_from_csv_path", sut("table_from_csv_path", || chanoma::file::table_from_csv_path(&pc)), &csv)?, &csv),
    ];
    let mut b = TableBuilder::new();
    want_ok("add_from_csv", sut("add_from_csv", || b.add_from_csv(&pc).map(|_| ())), &csv)?;
    got.push(("TableBuilder::add_from_csv", b.build(), &csv));
    for (p, body) in [(&pl, &list), (&pm, &map)] {
        got.push(("TableBuilder::from_yaml_path", want_ok("from_yaml_path", sut("from_yaml_path", || TableBuilder::from_yaml_path(p)), body)?.build(), body));
        got.push(("file::table_from_yaml_path", want_ok("table_from_yaml_path", sut("table_from_yaml_path", || chanoma::file::table_from_yaml_path(p)), body)?, body));
        let mut b = TableBuilder::new();
        want_ok("add_from_yaml", sut("add_from_yaml", || b.add_from_yaml(p).map(|_| ())), body)?;
        got.push(("TableBuilder::add_from_yaml", b.build(), body));
    }
    for (what, t, body) in got {
        let g = items_set(&t);
        ensure!(
            g == want,
            "{what} gave {:?} too much and lacks {:?}; file {}",
            g.difference(&want).collect::<Vec<_>>(),
            want.difference(&g).collect::<Vec<_>>(),
            show(body)
        );
    }
    o.nontrivial_if(want.len() > 1);
    o.label_if(c.pairs.iter().any(|(f, t)| f.chars().count() > 1 || t.chars().count() > 1), "multi-character entry");
    o.label_if(c.pairs.len() != want.len(), "repeated entry");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BothFormats {
    pairs: Vec<(char, char)>,
    texts: Vec<String>,
    style: u64,
}

fn check_both(dir: &Path, c: &BothFormats, o: &mut Obs) -> R {
    let s: Vec<(String, String)> = c.pairs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let yaml = |items| YamlConf { steps: None, items, items_first: true, style: c.style }.render();
    let files = [
        ("b.csv", csv_of(&s, c.style).render()),
        ("l.yaml", yaml(Items::List(s.clone()))),
        ("l.yml", yaml(Items::List(s.clone()))),
        ("m.yaml", yaml(Items::grouped(&s))),
        ("m.yml", yaml(Items::grouped(&s))),
    ];
    let mut inst = vec![];
    for (n, b) in &files {
        inst.push(load(&put(dir, n, b))?);
    }
    for x in &c.texts {
        let r = norm("CSV configuration", &inst[0], x)?;
        for (n, (name, _)) in inst.iter().zip(&files).skip(1) {
            let g = norm("YAML configuration", n, x)?;
            if g != r {
                return Err(diff(&format!("{:?} from {name} against the same from CSV", c.pairs), x, &g, &r));
            }
        }
        o.nontrivial_if(r != *x);
    }
    // the content does not matter for the choice: the CSV text under a YAML name is no CSV table
    if !c.pairs.is_empty() {
        let p = put(dir, "really-csv.yaml", &files[0].1);
        if let Ok(n) = sut("from_config_file", || Chanoma::from_config_file(&p))? {
            for x in &c.texts {
                ensure!(norm("CSV text in a YAML file", &n, x)? == *x, "a .yaml file with CSV text was read as CSV");
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BigYaml {
    conv: Vec<(char, char)>,
    elim: (u32, u32),
    items: Vec<(char, char)>,
    order: u8,
    list: bool,
    style: u64,
    text: gen::Rep,
}

/// Hundreds to thousands of entries in every section.
fn check_big_yaml(dir: &Path, c: &BigYaml, o: &mut Obs) -> R {
    let elim = (0..c.elim.1).map(|i| model::uni(c.elim.0 + i)).collect();
    let mut steps = vec![Step::Conv(c.conv.clone()), Step::Elim(elim), Step::Dotted];
    steps.rotate_left(c.order as usize % 3);
    let pairs: Vec<(String, String)> = c.items.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let items = if c.list { Items::List(pairs) } else { Items::grouped(&pairs) };
    let conf = YamlConf { steps: Some(steps), items, items_first: c.order > 2, style: c.style };
    let case = YamlCase { texts: vec![c.text.text(), c.conv.iter().chain(&c.items).flat_map(|(a, b)| [*a, *b]).collect()], conf, name: 0 };
    check_yaml(dir, &case, o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PathSpelling {
    stem: Vec<u8>,
    csv: bool,
    yml: bool,
    spelling: u8,
    pairs: Vec<(char, char)>,
}

/// The same file under several spellings of its path. Changes the working directory: one case at a time.
fn check_spelling(base: &Path, c: &PathSpelling, o: &mut Obs) -> R {
    use std::os::unix::ffi::OsStringExt;
    let _ = std::fs::remove_dir_all(base);
    std::fs::create_dir_all(base.join("work/sub.csv")).expect("scratch");
    let ext: &[u8] = if c.csv { b".csv" } else if c.yml { b".yml" } else { b".yaml" };
    let name = std::ffi::OsString::from_vec([&c.stem[..], ext].concat());
    let s: Vec<(String, String)> = c.pairs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let body = if c.csv {
        csv_of(&s, 7).render()
    } else {
        YamlConf { steps: None, items: Items::List(s), items_first: false, style: 7 }.render()
    };
    let work = base.join("work");
    std::fs::write(work.join(&name), &body).expect("scratch");
    let other = base.join(if c.csv { "store.yaml" } else { "store.csv" });
    let p = match c.spelling % 8 {
        0 => PathBuf::from(&name),
        1 => Path::new(".").join(&name),
        2 => Path::new("sub.csv/..").join(&name),
        3 => work.join(&name),
        4 => Path::new("../work/./").join(&name),
        5 => {
            // a link whose own name decides, whatever its target is called
            std::fs::rename(work.join(&name), &other).expect("scratch");
            std::os::unix::fs::symlink(&other, work.join(&name)).expect("scratch");
            PathBuf::from(&name)
        }
        6 => {
            std::fs::rename(work.join(&name), work.join("sub.csv").join(&name)).expect("scratch");
            Path::new("sub.csv").join(&name)
        }
        _ => Path::new("sub.csv").join("..//").join(&name),
    };
    std::env::set_current_dir(&work).expect("cwd");
    let r = sut("from_config_file", || Chanoma::from_config_file(&p));
    let t = sut("builder", || if c.csv { TableBuilder::from_csv_path(&p).map(|b| b.build()) } else { TableBuilder::from_yaml_path(&p).map(|b| b.build()) });
    std::env::set_current_dir("/").expect("cwd");
    let n = want_ok(&format!("from_config_file({p:?})"), r, &body)?;
    let t = want_ok(&format!("the builder for {p:?}"), t, &body)?;
    let x: String = c.pairs.iter().flat_map(|(a, b)| [*a, *b]).collect();
    let want = model::convert(&x, &c.pairs);
    for (what, n) in [("from_config_file", n), ("a table of the file", sut("from_table", || Chanoma::from_table(t))?)] {
        let got = norm(what, &n, &x)?;
        if got != want {
            return Err(diff(&format!("{what} with the path {p:?}"), &x, &got, &want));
        }
    }
    o.nontrivial_if(want != x);
    o.label_if(std::str::from_utf8(&c.stem).is_err(), "name is not UTF-8");
    o.label_if(c.spelling % 8 == 5, "link to a file with another extension");
    Ok(())
}

pub fn c10(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    let base = ctx.dir.join("spelling");
    ctx.prop_on(
        1,
        400,
        "paths",
        ctx.n(1_500, 20_000),
        "the file changes the text; relative, absolute and roundabout paths, links, names that are not UTF-8",
        || {
            let stem = prop_oneof![
                3 => select(vec!["c", ".c", "設定", "a b", "a.csv", "x.yaml", "x.yml", "c.", "-", "c\n", "~", "$HOME", "*"]).prop_map(|s| s.as_bytes().to_vec()),
                1 => vec(any::<u8>(), 1..8).prop_map(|v| v.into_iter().filter(|b| *b != 0 && *b != b'/').chain(*b"x").collect::<Vec<u8>>()),
            ];
            (stem, any::<bool>(), any::<bool>(), 0u8..8, gen::conv(6))
                .prop_map(|(stem, csv, yml, spelling, pairs)| PathSpelling { stem, csv, yml, spelling, pairs })
        },
        |c, o| check_spelling(&base, c, o),
    );
    ctx.prop("wide-csv", ctx.n(2_000, 40_000), "the configuration changes the text", wide_csv_case, |c, o| check_csv(&dir, c, o));
    ctx.prop(
        "big-yaml",
        ctx.n(60, 1_200),
        "the configuration changes one of the texts; hundreds to thousands of entries in every section",
        || {
            (gen::conv_big(), (select(vec![0x3041u32, 0x4e00, 0x61]), 1u32..900), gen::conv_big(), 0u8..6, any::<bool>(), any::<u64>())
                .prop_flat_map(|(conv, elim, mut items, order, list, style)| {
                    if !list {
                        items.truncate(600);
                    }
                    let own: Vec<String> = conv.iter().take(50).map(|(a, _)| a.to_string()).collect();
                    gen::rep_text(13, own).prop_map(move |text| BigYaml { conv: conv.clone(), elim, items: items.clone(), order, list, style, text })
                })
        },
        |c, o| check_big_yaml(&dir, c, o),
    );
    ctx.prop("yaml", ctx.n(24_000, 600_000), "the configuration changes one of the texts", yaml_case, |c, o| check_yaml(&dir, c, o));
    ctx.prop("csv", ctx.n(16_000, 400_000), "the configuration changes one of the texts", csv_case, |c, o| check_csv(&dir, c, o));
    ctx.prop(
        "both-formats",
        ctx.n(6_000, 150_000),
        "the table changes one of the texts",
        || {
            (gen::conv(10), any::<u64>())
                .prop_flat_map(|(pairs, style)| {
                    let cs: Vec<char> = pairs.iter().flat_map(|(a, b)| [*a, *b]).collect();
                    (Just(pairs), vec(gen::text_over(cs, 16), 1..4), Just(style))
                })
                .prop_map(|(pairs, texts, style)| BothFormats { pairs, texts, style })
        },
        |c, o| check_both(&dir, c, o),
    );
    ctx.prop(
        "tables",
        ctx.n(10_000, 250_000),
        "more than one distinct entry; strings up to several characters including YAML and CSV syntax",
        || (hostile_pairs(10), any::<u64>()).prop_map(|(pairs, style)| TableFiles { pairs, style }),
        |c, o| check_tables(&dir, c, o),
    );
    ctx.prop(
        "big-tables",
        ctx.n(40, 800),
        "more than one distinct entry; hundreds to thousands of entries",
        || {
            (gen::conv_big(), any::<u64>()).prop_map(|(p, style)| TableFiles {
                pairs: p.into_iter().take(1200).map(|(a, b)| (a.to_string(), b.to_string())).collect(),
                style,
            })
        },
        |c, o| check_tables(&dir, c, o),
    );
    ctx.prop(
        "huge-files",
        ctx.n(12, 240),
        "thousands to tens of thousands of entries, loaded as tables and as a configuration",
        || (gen::huge(60_000), any::<u64>()),
        |(h, style), o| {
            let pairs = h.pairs();
            let strings: Vec<(String, String)> = pairs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            check_tables(&dir, &TableFiles { pairs: strings, style: *style }, o)?;
            let x: String = pairs.iter().map(|p| p.0).collect();
            let want = model::convert(&x, &pairs);
            for f in ["t.csv", "list.yaml", "map.yml"] {
                let p = crate::files::thread_dir(&dir).join(f);
                let n = want_ok("from_config_file", sut("from_config_file", || Chanoma::from_config_file(&p)), f)?;
                let got = norm(f, &n, &x)?;
                if got != want {
                    return Err(diff(&format!("{f} of {} entries", pairs.len()), &x, &got, &want));
                }
            }
            o.label_if(pairs.len() > 16384, "over 16384 entries");
            Ok(())
        },
    );
}

// ------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Y {
    Null,
    Bool(bool),
    Int(i64),
    Float(u8),
    Str(String),
    Seq(Vec<Y>),
    Map(Vec<(Y, Y)>),
}

impl Y {
    pub fn flow(&self) -> String {
        match self {
            Y::Null => "null".into(),
            Y::Bool(b) => b.to_string(),
            Y::Int(i) => i.to_string(),
            Y::Float(f) => format!("{f}.5"),
            Y::Str(s) => yaml_double(s),
            Y::Seq(v) => format!("[{}]", v.iter().map(|y| y.flow()).collect::<Vec<_>>().join(", ")),
            Y::Map(m) => format!(
                "{{{}}}",
                m.iter().map(|(k, v)| format!("? {} : {}", k.flow(), v.flow())).collect::<Vec<_>>().join(", ")
            ),
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            Y::Str(s) => Some(s),
            _ => None,
        }
    }
}

/// Verdicts: must be rejected, must load, or left open.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum V {
    Ok,
    Open,
    Err,
}

fn text_v(y: &Y, one: bool) -> V {
    match y.str() {
        None | Some("") => V::Err,
        Some(s) if one && s.chars().count() > 1 => V::Open,
        _ => V::Ok,
    }
}

fn dup(m: &[(Y, Y)]) -> V {
    for (i, (k, _)) in m.iter().enumerate() {
        if m[..i].iter().any(|(q, _)| q == k) {
            return V::Open;
        }
    }
    V::Ok
}

fn modifier_v(k: &Y, v: &Y) -> V {
    match k.str() {
        Some("character_converter") => match v {
            Y::Map(m) => m.iter().map(|(a, b)| text_v(a, true).max(text_v(b, true))).max().unwrap_or(V::Ok).max(dup(m)),
            _ => V::Err,
        },
        Some("character_eliminator") => match v {
            Y::Seq(s) => s.iter().map(|a| text_v(a, true)).max().unwrap_or(V::Ok),
            _ => V::Err,
        },
        Some("consecutive_character_reducer") => text_v(v, true),
        Some("ligature_translator") => match v {
            Y::Map(m) => m
                .iter()
                .map(|(a, b)| match (a.str(), b.str()) {
                    (Some(""), Some(_)) => V::Open,
                    (Some(_), Some(_)) => V::Ok,
                    _ => V::Err,
                })
                .max()
                .unwrap_or(V::Ok)
                .max(dup(m)),
            _ => V::Err,
        },
        Some("dotted_space_eliminator" | "trim" | "neologdn") => {
            if *v == Y::Null {
                V::Ok
            } else {
                V::Err
            }
        }
        _ => V::Err,
    }
}

fn items_v(v: &Y) -> V {
    match v {
        Y::Null => V::Open,
        Y::Map(m) => m
            .iter()
            .map(|(k, v)| {
                text_v(k, false).max(match v {
                    Y::Seq(s) => s.iter().map(|x| text_v(x, false)).max().unwrap_or(V::Ok),
                    x => text_v(x, false),
                })
            })
            .max()
            .unwrap_or(V::Ok)
            .max(dup(m)),
        Y::Seq(s) => s
            .iter()
            .map(|e| match e {
                Y::Map(m) => {
                    let get = |n: &str| m.iter().find(|(k, _)| k.str() == Some(n)).map(|(_, v)| text_v(v, false)).unwrap_or(V::Err);
                    let extra = if m.len() > 2 { V::Open } else { V::Ok };
                    get("from").max(get("to")).max(extra).max(dup(m))
                }
                _ => V::Err,
            })
            .max()
            .unwrap_or(V::Ok),
        _ => V::Err,
    }
}

pub fn doc_v(d: &Y) -> V {
    match d {
        Y::Null => V::Open,
        Y::Map(m) => {
            let v = m
                .iter()
                .map(|(k, v)| match k.str() {
                    Some("items") => items_v(v),
                    Some("modifiers") => match v {
                        Y::Null => V::Open,
                        Y::Map(m) => m.iter().map(|(a, b)| modifier_v(a, b)).max().unwrap_or(V::Ok).max(dup(m)),
                        _ => V::Err,
                    },
                    _ => V::Open,
                })
                .max()
                .unwrap_or(V::Ok);
            // which of two equal keys counts is left open, and so is everything about them
            if dup(m) == V::Open {
                V::Open
            } else {
                v
            }
        }
        _ => V::Err,
    }
}

const NAMES: [&str; 7] = [
    "character_converter",
    "character_eliminator",
    "consecutive_character_reducer",
    "dotted_space_eliminator",
    "ligature_translator",
    "trim",
    "neologdn",
];

fn scalar() -> BoxedStrategy<Y> {
    prop_oneof![
        2 => Just(Y::Null),
        1 => any::<bool>().prop_map(Y::Bool),
        2 => (-3i64..10).prop_map(Y::Int),
        1 => any::<u8>().prop_map(Y::Float),
        2 => Just(Y::Str(String::new())),
        6 => gen::ch().prop_map(|c| Y::Str(c.to_string())),
        1 => "[a-zあ-ん]{2,4}".prop_map(Y::Str),
    ]
    .boxed()
}

fn wild() -> BoxedStrategy<Y> {
    scalar()
        .prop_recursive(3, 12, 4, |inner| {
            prop_oneof![
                vec(inner.clone(), 0..4).prop_map(Y::Seq),
                vec((inner.clone(), inner), 0..4).prop_map(Y::Map),
            ]
        })
        .boxed()
}

fn good_str() -> BoxedStrategy<Y> {
    gen::ch().prop_map(|c| Y::Str(c.to_string())).boxed()
}

fn mostly(good: BoxedStrategy<Y>, bad: u32) -> BoxedStrategy<Y> {
    prop_oneof![20 => good, bad => wild()].boxed()
}

fn modifier_entry(bad: u32) -> BoxedStrategy<(Y, Y)> {
    let s = move || mostly(good_str(), bad);
    prop_oneof![
        (Just(0usize), mostly(vec((s(), s()), 0..4).prop_map(Y::Map).boxed(), bad)),
        (Just(1usize), mostly(vec(s(), 0..4).prop_map(Y::Seq).boxed(), bad)),
        (Just(2usize), s()),
        (Just(3usize), mostly(Just(Y::Null).boxed(), bad)),
        (Just(4usize), mostly(vec((s(), s()), 0..4).prop_map(Y::Map).boxed(), bad)),
        (Just(5usize), mostly(Just(Y::Null).boxed(), bad)),
        (Just(6usize), mostly(Just(Y::Null).boxed(), bad)),
    ]
    .prop_flat_map(move |(i, v)| {
        let name = Just(Y::Str(NAMES[i].to_string())).boxed();
        let near = (0usize..7, any::<u8>(), prop_oneof!["[a-z_ 0-9]", Just(String::new())]).prop_map(|(i, at, c)| {
            let (a, b) = NAMES[i].split_at(1 + at as usize % NAMES[i].len());
            let s = if c.is_empty() { format!("{}{b}", &a[..a.len() - 1]) } else { format!("{a}{c}{b}") };
            Y::Str(s)
        });
        let odd = prop_oneof![
            select(vec!["Trim", "neologdn ", "", "preset", "unknown", "character-converter"]).prop_map(|s| Y::Str(s.to_string())),
            near,
        ];
        (prop_oneof![40 => name, bad.div_ceil(2) => odd, bad.div_ceil(4) => wild()], Just(v))
    })
    .boxed()
}

fn items_y(bad: u32) -> BoxedStrategy<Y> {
    let s = move || mostly(good_str(), bad);
    let map = vec((s(), prop_oneof![s(), mostly(vec(s(), 0..4).prop_map(Y::Seq).boxed(), bad)]), 0..4).prop_map(Y::Map).boxed();
    let entry = (s(), s(), 0u32..40).prop_map(move |(f, t, k)| {
        let (kf, kt) = (Y::Str("from".into()), Y::Str("to".into()));
        match k {
            0 if bad > 0 => Y::Map(vec![(kf, f)]),
            1 if bad > 0 => Y::Map(vec![(kt, t)]),
            2 if bad > 0 => Y::Map(vec![]),
            3 if bad > 0 => Y::Seq(vec![f, t]),
            4 if bad > 0 => Y::Map(vec![(kf, f), (kt, t), (Y::Str("note".into()), Y::Int(1))]),
            5..=12 => Y::Map(vec![(kt, t), (kf, f)]),
            _ => Y::Map(vec![(kf, f), (kt, t)]),
        }
    });
    let list = vec(mostly(entry.boxed(), bad), 0..4).prop_map(Y::Seq).boxed();
    mostly(prop_oneof![map, list].boxed(), bad)
}

pub fn doc() -> BoxedStrategy<Y> {
    select(vec![0u32, 1, 1, 4])
        .prop_flat_map(|bad| {
            let m = mostly(vec(modifier_entry(bad), 0..4).prop_map(Y::Map).boxed(), bad);
            let top = (prop::option::of(m), prop::option::of(items_y(bad)), 0u32..30).prop_map(move |(m, i, k)| {
                let mut v = vec![];
                if let Some(m) = m {
                    v.push((Y::Str("modifiers".into()), m));
                }
                if let Some(i) = i {
                    v.push((Y::Str("items".into()), i));
                }
                if k == 0 && bad > 0 {
                    v.push((Y::Str("Items".into()), Y::Null));
                }
                if k % 2 == 0 {
                    v.reverse();
                }
                Y::Map(v)
            });
            mostly(top.boxed(), bad)
        })
        .boxed()
}

pub fn dup_free(y: &Y) -> bool {
    match y {
        Y::Seq(v) => v.iter().all(dup_free),
        Y::Map(m) => dup(m) == V::Ok && m.iter().all(|(a, b)| dup_free(a) && dup_free(b)),
        _ => true,
    }
}

/// Loads through every entry point; a panic anywhere fails. Also normalizes with what loaded.
pub fn load_all(p: &Path, o: &mut Obs) -> Result<bool, Fail> {
    let r = sut("from_config_file", || Chanoma::from_config_file(p))?;
    let ok = r.is_ok();
    if let Ok(c) = r {
        for x in ["", "a b か゛ \u{ff21}~", "xあ"] {
            norm("what was loaded", &c, x)?;
            sut("normalize_with_positions", || c.normalize_with_positions(x).text().to_string())?;
        }
    } else if let Err(e) = r {
        let m = sut("display of the error", || (e.to_string(), format!("{e:?}")))?;
        o.label_if(m.0.is_empty(), "empty message");
    }
    match p.extension().and_then(|e| e.to_str()) {
        Some("csv") => {
            let a = sut("TableBuilder::from_csv_path", || TableBuilder::from_csv_path(p).map(|b| b.build()))?.is_ok();
            let b = sut("add_from_csv", || TableBuilder::new().add_from_csv(p).map(|_| ()))?.is_ok();
            ensure!(a == ok && b == ok, "the entry points disagree on a CSV file: config {ok}, from_csv_path {a}, add_from_csv {b}");
        }
        Some("yaml" | "yml") => {
            let a = sut("TableBuilder::from_yaml_path", || TableBuilder::from_yaml_path(p).map(|b| b.build()))?.is_ok();
            let b = sut("add_from_yaml", || TableBuilder::new().add_from_yaml(p).map(|_| ()))?.is_ok();
            let m = sut("modifiers_from_yaml_path", || chanoma::file::modifiers_from_yaml_path(p))?.is_ok();
            ensure!(a == b && ok == (a && m), "the entry points disagree on a YAML file: config {ok}, items {a}/{b}, modifiers {m}");
        }
        _ => {}
    }
    Ok(ok)
}

fn check_doc(dir: &Path, d: &Y, o: &mut Obs) -> R {
    let body = d.flow();
    let p = put(dir, "d.yaml", &body);
    let ok = load_all(&p, o)?;
    let v = if dup_free(d) { doc_v(d) } else { V::Open };
    match v {
        V::Ok => ensure!(ok, "a well-formed file was rejected: {}", show(&body)),
        V::Err => ensure!(!ok, "a malformed file was accepted: {}", show(&body)),
        V::Open => {}
    }
    o.label(match v {
        V::Ok => "must load",
        V::Err => "must be rejected",
        V::Open => "left open",
    });
    o.nontrivial_if(v != V::Open);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mutated {
    /// repeat the rows of a CSV file, or the replacements of a YAML file, this often with other sources
    #[serde(default)]
    more: u16,
    base: YamlConf,
    csv: Option<CsvConf>,
    /// (position, kind, byte)
    edits: Vec<(u32, u8, u8)>,
}

fn check_mutated(dir: &Path, c: &Mutated, o: &mut Obs) -> R {
    let pad = |i: u16| (model::uni(0x4e00 + i as u32).to_string(), model::uni(0x3041 + i as u32 % 80).to_string());
    let mut b = match &c.csv {
        Some(f) => {
            let mut f = f.clone();
            f.rows.extend((0..c.more).map(|i| vec![pad(i).0, pad(i).1]));
            f.render().into_bytes()
        }
        None => {
            let mut f = c.base.clone();
            if c.more > 0 {
                f.items = Items::List(f.items.pairs().into_iter().chain((0..c.more).map(pad)).collect());
            }
            f.render().into_bytes()
        }
    };
    for (at, kind, byte) in &c.edits {
        if b.is_empty() {
            b.push(*byte);
            continue;
        }
        let i = *at as usize % b.len();
        match kind % 6 {
            0 => b[i] = *byte,
            1 => b.insert(i, *byte),
            2 => {
                b.remove(i);
            }
            3 => b.truncate(i),
            4 => {
                let s = b[i..(i + 8).min(b.len())].to_vec();
                b.splice(i..i, s);
            }
            _ => b[i] = b":-,\"'[]{}\n #&*|>~"[*byte as usize % 17],
        }
    }
    let p = put(dir, if c.csv.is_some() { "m.csv" } else { "m.yaml" }, &b);
    let ok = load_all(&p, o)?;
    if std::str::from_utf8(&b).is_err() {
        let text_is_read = c.csv.is_none() || {
            // only records below the header are read as text
            let mut r = csv::ReaderBuilder::new().flexible(true).from_reader(&b[..]);
            let bad = r.byte_records().any(|r| r.is_ok_and(|r| r.iter().any(|f| std::str::from_utf8(f).is_err())));
            bad
        };
        ensure!(!(ok && text_is_read), "a file that is not UTF-8 was accepted: {b:?}");
        o.label("not UTF-8");
    }
    o.label(if ok { "loaded" } else { "rejected" });
    o.nontrivial_if(!c.edits.is_empty());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CsvRows {
    rows: Vec<Vec<String>>,
    style: u64,
}

fn check_csv_rows(dir: &Path, c: &CsvRows, o: &mut Obs) -> R {
    let f = CsvConf { header: vec!["from".into(), "to".into()], rows: c.rows.clone(), style: c.style };
    let body = f.render();
    let p = put(dir, "r.csv", &body);
    let ok = load_all(&p, o)?;
    let empty_cell = c.rows.iter().any(|r| r.len() > 1 && r.iter().any(|s| s.is_empty()));
    let odd = c.rows.iter().any(|r| r.len() < 2 && r.iter().any(|s| s.is_empty()));
    if empty_cell {
        ensure!(!ok, "a CSV row with an empty cell was accepted: {}", show(&body));
        o.label("empty cell");
    } else if !odd {
        ensure!(ok, "a well-formed CSV file was rejected: {}", show(&body));
    }
    o.nontrivial_if(!c.rows.is_empty());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PathCase {
    /// what to put there: 0 nothing, 1 file, 2 directory, 3 dangling link, 4 link to a file, 5 link to itself
    what: u8,
    name: String,
    body: Vec<u8>,
}

fn check_path(dir: &Path, c: &PathCase, o: &mut Obs) -> R {
    let base = thread_dir(dir).join("paths");
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).expect("scratch");
    let p = base.join(&c.name);
    // names are generated without separators; the empty name is the directory itself
    let put_ok = match c.what {
        0 => true,
        1 => std::fs::write(&p, &c.body).is_ok(),
        2 => std::fs::create_dir(&p).is_ok(),
        3 => std::os::unix::fs::symlink(base.join("nowhere"), &p).is_ok(),
        4 => std::fs::write(base.join("target"), &c.body).is_ok() && std::os::unix::fs::symlink(base.join("target"), &p).is_ok(),
        _ => std::os::unix::fs::symlink(&p, &p).is_ok(),
    };
    let ok = load_all(&p, o)?;
    let ext = p.extension().map(|e| e.to_string_lossy().into_owned());
    let sup = matches!(ext.as_deref(), Some("csv" | "yaml" | "yml"));
    let r = sut("FileExtension::from_path", || FileExtension::from_path(&p))?;
    match (ext.as_deref(), r) {
        (Some("csv"), Ok(FileExtension::Csv)) | (Some("yaml" | "yml"), Ok(FileExtension::Yaml)) => {}
        (e, r) => ensure!(r.is_err() && !sup, "FileExtension::from_path({p:?}) with extension {e:?} gave {r:?}"),
    }
    if !sup || matches!(c.what, 0 | 2 | 3 | 5) || !put_ok {
        ensure!(!ok, "loading {p:?} (kind {}) succeeded", c.what);
    }
    // an empty CSV file, a header-only CSV and the plain documents below are fine
    if put_ok && matches!(c.what, 1 | 4) && sup && c.body == b"from,to\na,b\n" && ext.as_deref() == Some("csv") {
        ensure!(ok, "loading {p:?} failed");
    }
    for (what, r) in [
        ("TableBuilder::from_yaml_path", sut("from_yaml_path", || TableBuilder::from_yaml_path(&p).is_ok())?),
        ("TableBuilder::from_csv_path", sut("from_csv_path", || TableBuilder::from_csv_path(&p).is_ok())?),
        ("add_from_csv", sut("add_from_csv", || TableBuilder::new().add_from_csv(&p).is_ok())?),
        ("add_from_yaml", sut("add_from_yaml", || TableBuilder::new().add_from_yaml(&p).is_ok())?),
    ] {
        if matches!(c.what, 0 | 2 | 3 | 5) || !put_ok {
            ensure!(!r, "{what}({p:?}) (kind {}) succeeded", c.what);
        }
    }
    o.label(if ok { "loaded" } else { "rejected" });
    o.nontrivial_if(c.what != 0);
    Ok(())
}

fn path_case() -> BoxedStrategy<PathCase> {
    let name = prop_oneof![
        8 => (select(vec!["c", ".c", "c.csv", "設定", "a b", "", "c."]), select(vec![
            ".csv", ".yaml", ".yml", ".json", ".CSV", ".Yaml", "", ".", ".csv ", ".csvx", ".txt", ".ya", ".yaml.bak", ".c"
        ])).prop_map(|(a, b)| format!("{a}{b}")),
        1 => "[a-zA-Z.]{1,8}".prop_filter("no dot names", |s| s != "." && s != ".."),
    ]
    .prop_filter("usable name", |s| !s.is_empty() && s != "." && s != "..");
    let body = prop_oneof![
        Just(b"from,to\na,b\n".to_vec()),
        Just(b"items:\n  b: a\n".to_vec()),
        Just(vec![]),
        Just(b"\xff\xfe\x00".to_vec()),
        Just(b"a,\xe3\x81\n\xff,b\n".to_vec()),
        vec(any::<u8>(), 0..40),
    ];
    (0u8..6, name, body).prop_map(|(what, name, body)| PathCase { what, name, body }).boxed()
}

extern "C" {
    fn setfsuid(uid: u32) -> i32;
}

/// Runs in this thread with the file access rights of nobody.
fn unprivileged<T>(f: impl FnOnce() -> T) -> T {
    unsafe { setfsuid(65534) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    unsafe { setfsuid(0) };
    r.unwrap_or_else(|e| std::panic::resume_unwind(e))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Unreadable {
    kind: u8,
    name: String,
}

/// Paths that name something no one can read as a file, for reasons other than its content.
fn check_unreadable(dir: &Path, c: &Unreadable, o: &mut Obs) -> R {
    use std::os::unix::fs::PermissionsExt;
    let base = thread_dir(dir).join("unreadable");
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).expect("scratch");
    let body = if c.name.ends_with(".csv") { "from,to\na,b\n" } else { "items:\n  b: a\n" };
    let file = base.join(&c.name);
    std::fs::write(&file, body).expect("scratch");
    let mode = |p: &Path, m: u32| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).expect("scratch");
    let mut alone = false;
    let p = match c.kind % 8 {
        0 => {
            mode(&file, 0);
            alone = true;
            file.clone()
        }
        1 => {
            std::fs::create_dir(base.join("locked")).expect("scratch");
            std::fs::rename(&file, base.join("locked").join(&c.name)).expect("scratch");
            mode(&base.join("locked"), 0);
            alone = true;
            base.join("locked").join(&c.name)
        }
        2 => file.join(&c.name),
        3 => base.join("x".repeat(300)).join(&c.name),
        4 => base.join(format!("{}{}", "x".repeat(400), c.name)),
        5 => base.join(format!("a\0{}", c.name)),
        6 => PathBuf::from(format!("{}/{}", "/".repeat(5000), c.name.repeat(700))),
        // mode 0 seen as root is readable: the control
        _ => {
            mode(&file, 0);
            file.clone()
        }
    };
    if alone && unprivileged(|| std::fs::read(&p)).is_ok() {
        o.label("access rights have no effect here");
        return Ok(());
    }
    let mut seen = vec![];
    let mut go = || -> R {
        seen = vec![
            ("from_config_file", sut("from_config_file", || Chanoma::from_config_file(&p).is_ok())?),
            ("TableBuilder::from_yaml_path", sut("from_yaml_path", || TableBuilder::from_yaml_path(&p).is_ok())?),
            ("TableBuilder::from_csv_path", sut("from_csv_path", || TableBuilder::from_csv_path(&p).is_ok())?),
            ("add_from_csv", sut("add_from_csv", || TableBuilder::new().add_from_csv(&p).is_ok())?),
            ("add_from_yaml", sut("add_from_yaml", || TableBuilder::new().add_from_yaml(&p).is_ok())?),
            ("table_from_csv_path", sut("table_from_csv_path", || chanoma::file::table_from_csv_path(&p).is_ok())?),
            ("table_from_yaml_path", sut("table_from_yaml_path", || chanoma::file::table_from_yaml_path(&p).is_ok())?),
            ("modifiers_from_yaml_path", sut("modifiers_from_yaml_path", || chanoma::file::modifiers_from_yaml_path(&p).is_ok())?),
        ];
        Ok(())
    };
    if alone {
        unprivileged(&mut go)?;
    } else {
        go()?;
    }
    if base.join("locked").exists() {
        mode(&base.join("locked"), 0o700);
    }
    if c.kind % 8 == 7 {
        ensure!(seen[0].1, "a readable file was rejected");
    } else {
        for (what, ok) in seen {
            ensure!(!ok, "{what}({}) succeeded (kind {})", show(&p.to_string_lossy()), c.kind);
        }
    }
    o.label(["mode 0", "locked directory", "file as directory", "long name", "long name", "NUL", "long path", "control"][c.kind as usize % 8]);
    o.nontrivial = true;
    Ok(())
}

pub fn c11(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    ctx.prop(
        "unreadable",
        ctx.n(600, 6_000),
        "the path names nothing that can be read: no access rights, over-long, with a NUL, below a file",
        || {
            (0u8..8, select(vec!["c.csv", "c.yaml", "c.yml", ".x.yml", "設定.csv"]))
                .prop_map(|(kind, name)| Unreadable { kind, name: name.to_string() })
        },
        |c, o| check_unreadable(&dir, c, o),
    );
    super::raw::files(ctx, ctx.n(8_000, 160_000));
    ctx.prop(
        "documents",
        ctx.n(40_000, 1_000_000),
        "the document is one the statement decides (must load or must be rejected)",
        doc,
        |d: &Y, o| check_doc(&dir, d, o),
    );
    ctx.prop(
        "mutations",
        ctx.n(40_000, 1_000_000),
        "at least one byte of a valid file edited; no entry point may panic or disagree with another",
        || {
            (yaml_conf(5), prop::option::of((gen::conv(6), any::<u64>(), header())), vec((any::<u32>(), any::<u8>(), any::<u8>()), 0..5), prop_oneof![14 => Just(0u16), 1 => 1u16..700])
                .prop_map(|(base, csv, edits, more)| Mutated { more, base, csv: csv.map(|(p, s, h)| csv_conf(p, s, h)), edits })
        },
        |c, o| check_mutated(&dir, c, o),
    );
    ctx.prop(
        "csv-rows",
        ctx.n(12_000, 300_000),
        "at least one row; rows of 1 to 4 cells, some empty",
        || {
            let cell = prop_oneof![8 => gen::ch().prop_map(|c| c.to_string()), 1 => Just(String::new()), 1 => hostile()];
            (vec(vec(cell, 1..5), 0..6), any::<u64>()).prop_map(|(rows, style)| CsvRows { rows, style })
        },
        |c, o| check_csv_rows(&dir, c, o),
    );
    ctx.prop(
        "paths",
        ctx.n(12_000, 200_000),
        "something exists at the path: file, directory, dangling link, link, link loop",
        path_case,
        |c, o| check_path(&dir, c, o),
    );
    ctx.prop(
        "raw-yaml",
        ctx.n(30_000, 800_000),
        "random text built of YAML tokens parses as something",
        || {
            let tok: Vec<String> = [
                "items:", "modifiers:", "\n", "\n  ", "\n    ", "- ", "? ", ": ", "trim:", "neologdn:", "character_converter:",
                "character_eliminator:", "consecutive_character_reducer:", "ligature_translator:", "dotted_space_eliminator:",
                " ", "[", "]", "{", "}", ",", "a", "あ", "'", "\"", "~", "1", "null", "true", "#", "&x", "*x", "!!str", "|", ">", "---", "...", "from: a", "to: b", "a: b", "<<: *x", "\t", "\r\n", "%YAML 1.2",
            ]
            .iter()
            .map(|s| s.to_string())
            .collect();
            vec(prop_oneof![9 => select(tok), 1 => gen::piece()], 0..25).prop_map(|v| v.concat())
        },
        |x: &String, o| {
            let p = put(&dir, "raw.yaml", x);
            let ok = load_all(&p, o)?;
            o.label(if ok { "loaded" } else { "rejected" });
            o.nontrivial_if(ok);
            Ok(())
        },
    );
    ctx.prop(
        "raw-csv",
        ctx.n(15_000, 400_000),
        "random text built of CSV tokens loads",
        || {
            let tok: Vec<String> =
                ["\n", "\r\n", "\r", ",", ",", "\"", "\"\"", "a", "あ", " ", "\t", "b", "from,to\n", "\u{feff}", "#", "\\", "😀"].iter().map(|s| s.to_string()).collect();
            vec(select(tok), 0..25).prop_map(|v| v.concat())
        },
        |x: &String, o| {
            let p = put(&dir, "raw.csv", x);
            let ok = load_all(&p, o)?;
            o.label(if ok { "loaded" } else { "rejected" });
            o.nontrivial_if(ok);
            Ok(())
        },
    );
    // systematically: every modifier with every wrong shape
    let shapes: Vec<Y> = vec![
        Y::Null,
        Y::Bool(true),
        Y::Int(1),
        Y::Float(1),
        Y::Str(String::new()),
        Y::Str("a".into()),
        Y::Seq(vec![]),
        Y::Seq(vec![Y::Str("a".into())]),
        Y::Seq(vec![Y::Str("".into())]),
        Y::Seq(vec![Y::Int(1)]),
        Y::Seq(vec![Y::Str("a".into()), Y::Null]),
        Y::Seq(vec![Y::Seq(vec![])]),
        Y::Seq(vec![Y::Map(vec![])]),
        Y::Map(vec![]),
        Y::Map(vec![(Y::Str("a".into()), Y::Str("b".into()))]),
        Y::Map(vec![(Y::Str("".into()), Y::Str("b".into()))]),
        Y::Map(vec![(Y::Str("a".into()), Y::Str("".into()))]),
        Y::Map(vec![(Y::Int(1), Y::Str("b".into()))]),
        Y::Map(vec![(Y::Str("a".into()), Y::Int(2))]),
        Y::Map(vec![(Y::Str("a".into()), Y::Null)]),
        Y::Map(vec![(Y::Null, Y::Str("b".into()))]),
        Y::Map(vec![(Y::Str("a".into()), Y::Seq(vec![Y::Str("b".into())]))]),
        Y::Map(vec![(Y::Str("a".into()), Y::Seq(vec![Y::Int(3)]))]),
        Y::Map(vec![(Y::Str("a".into()), Y::Seq(vec![Y::Str("".into())]))]),
        Y::Map(vec![(Y::Str("a".into()), Y::Map(vec![]))]),
        Y::Map(vec![(Y::Seq(vec![]), Y::Str("b".into()))]),
        Y::Map(vec![(Y::Bool(true), Y::Bool(false))]),
        Y::Map(vec![(Y::Str("trim".into()), Y::Null)]),
    ];
    let mut docs: Vec<Y> = shapes.clone();
    for s in &shapes {
        for (k, wrap) in [("items", false), ("modifiers", false), ("items", true)] {
            let v = if wrap { Y::Seq(vec![s.clone()]) } else { s.clone() };
            docs.push(Y::Map(vec![(Y::Str(k.into()), v)]));
        }
        for n in NAMES.iter().chain(&["unknown", "Trim", ""]) {
            docs.push(Y::Map(vec![(Y::Str("modifiers".into()), Y::Map(vec![(Y::Str(n.to_string()), s.clone())]))]));
            docs.push(Y::Map(vec![
                (Y::Str("modifiers".into()), Y::Map(vec![(Y::Str("neologdn".into()), Y::Null), (Y::Str(n.to_string()), s.clone())])),
                (Y::Str("items".into()), Y::Map(vec![(Y::Str("a".into()), Y::Str("b".into()))])),
            ]));
        }
        for (f, t) in [(s.clone(), Y::Str("b".into())), (Y::Str("b".into()), s.clone())] {
            docs.push(Y::Map(vec![(
                Y::Str("items".into()),
                Y::Seq(vec![Y::Map(vec![(Y::Str("from".into()), f), (Y::Str("to".into()), t)])]),
            )]));
        }
    }
    ctx.enumerate(
        "shapes",
        "every modifier, items and the document itself with each of 28 value shapes, alone and after valid content",
        docs,
        true,
        |d: &Y, o| check_doc(&dir, d, o).map_err(|f| f.single("documents", d)),
    );
}

// ------------------------------------------------------------------ C12

/// One thing in one of the directories.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Entry {
    dir: u8,
    name: String,
    /// 0 file, 1 directory, 2 dangling link, 3 link to a file elsewhere, 4 malformed file,
    /// 5 link to a file elsewhere that has another extension, 6 second name (hard link) of a file elsewhere
    kind: u8,
    conf: YamlConf,
    csv: bool,
    seed: u64,
}

impl Entry {
    pub fn file(dir: u8, name: &str, conf: YamlConf) -> Entry {
        Entry { dir, name: name.to_string(), kind: 0, csv: name.ends_with(".csv"), conf, seed: 1 }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Layout {
    pub entries: Vec<Entry>,
    /// 0 all different, 1 cwd = home, 2 cwd = home/.config/chanoma, 3 cwd is a link to home, 4 no .config directory,
    /// 5 .config/chanoma is a link to a directory, 6 HOME is a link, 7 HOME is spelled with detours, 8 .config/chanoma
    /// is a file, 9 .config/chanoma is a link to home, 10 the names of home and cwd are not UTF-8, 11 cwd lies below home
    pub same: u8,
    /// None: unset
    pub rc: Option<Rc>,
    /// other variables that name a directory full of usable files: one of [DECOYS] per bit
    #[serde(default)]
    pub decoys: u8,
    pub texts: Vec<String>,
}

/// None of these says anything about where configuration files are.
pub const DECOYS: [&[&str]; 8] = [
    &["XDG_CONFIG_HOME"],
    &["XDG_CONFIG_DIRS", "XDG_DATA_HOME", "XDG_CACHE_HOME", "XDG_STATE_HOME"],
    &["OLDPWD", "PWD_OLD"],
    &["USERPROFILE", "APPDATA", "LOCALAPPDATA", "HOMEPATH"],
    &["CHANOMA_RC", "CHANOMA_CONFIG", "CHANOMARC_DIR", "CHANOMA_HOME", "chanomarc", "CHANOMARC_PATH", "CHANOMA"],
    &["CARGO_HOME", "CARGO_MANIFEST_DIR", "CARGO_TARGET_DIR", "OUT_DIR"],
    &["DEBUG", "CHANOMA_DEBUG", "CHANOMA_PRESET", "CHANOMA_NEOLOGDN", "NO_COLOR", "VERBOSE"],
    &["TMP", "TEMP", "SUDO_HOME", "LOGNAME_HOME", "ZDOTDIR", "CDPATH"],
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Rc {
    /// entry number, spelled 0 absolute, 1 bare name if it is in cwd, 2 with detours, 3 bare name wherever it is,
    /// 4 relative to home, 5 relative to cwd with ..
    Entry(u8, u8),
    Raw(String),
    NotUtf8,
}

const DISCOVERED: [&str; 6] = ["chanomarc.csv", "chanomarc.yaml", "chanomarc.yml", ".chanomarc.csv", ".chanomarc.yaml", ".chanomarc.yml"];

pub fn small_alpha() -> Vec<char> {
    "abcde".chars().collect()
}

fn rc_conf() -> BoxedStrategy<YamlConf> {
    let a = small_alpha();
    let conv = vec((select(a.clone()), select(a.clone())), 1..5).prop_map(|v| {
        let mut seen = std::collections::HashSet::new();
        v.into_iter().filter(|(f, _)| seen.insert(*f)).collect::<Vec<_>>()
    });
    let step = prop_oneof![
        3 => conv.clone().prop_map(Step::Conv),
        2 => (select(a.clone()), vec(select(a.clone()), 1..4)).prop_map(|(f, t)| Step::Lig(vec![(f.to_string(), t.into_iter().collect())])),
        1 => select(a.clone()).prop_map(Step::Reduce),
        1 => select(a).prop_map(|c| Step::Elim(vec![c])),
    ];
    (vec(step, 0..3), conv, any::<u64>(), any::<bool>())
        .prop_map(|(steps, items, style, list)| {
            let mut seen = std::collections::HashSet::new();
            let steps: Vec<Step> = steps.into_iter().filter(|s| seen.insert(gen::step_rank(s))).collect();
            let pairs: Vec<(String, String)> = items.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            let items = if list { Items::List(pairs) } else { Items::grouped(&pairs) };
            YamlConf { steps: Some(steps), items, items_first: false, style }
        })
        .boxed()
}

pub fn layout() -> BoxedStrategy<Layout> {
    let good: Vec<String> = DISCOVERED.iter().map(|s| s.to_string()).collect();
    let lookalike: Vec<String> = [
        "chanomarc", ".chanomarc", "chanomarc.json", "chanomarc.CSV", "chanomarc.yaml.bak", "chanomarc.txt", "Chanomarc.csv", "xchanomarc.csv",
        "chanomarc.csv.yaml", "..chanomarc.yaml", "chanoma.yaml", "chanomarc2.csv", "chanomarcyaml", "custom.yaml", "custom.yml", "custom.csv",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let entry = (0u8..3, prop_oneof![6 => select(good), 2 => select(lookalike)], select(vec![0u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 3, 3, 4, 5, 6]), rc_conf(), any::<u64>())
        .prop_map(|(dir, name, kind, conf, seed)| {
            let csv = name.ends_with(".csv");
            Entry { dir, name, kind, conf, csv, seed }
        });
    let raw = prop_oneof![
        3 => select(vec!["", "nonexistent.yaml", "nonexistent", ".", "/", "~/chanomarc.csv", "$HOME/chanomarc.csv", " ", "file.csv\n", "..", "chanomarc", "\u{8a2d}\u{5b9a}.csv"]).prop_map(|s| s.to_string()),
        1 => "[a-z./]{1,8}",
    ];
    let rc = prop_oneof![
        7 => Just(None),
        4 => (any::<u8>(), 0u8..6).prop_map(|(a, b)| Some(Rc::Entry(a, b))),
        2 => raw.prop_map(|r| Some(Rc::Raw(r))),
        1 => Just(Some(Rc::NotUtf8)),
    ];
    (vec(entry, 0..9), select(vec![0u8, 0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11]), rc, prop_oneof![3 => Just(0u8), 2 => (0u8..8).prop_map(|k| 1 << k), 1 => any::<u8>()], vec(vec(select(small_alpha()), 1..12), 1..3))
        .prop_map(|(mut entries, same, rc, decoys, texts)| {
            // the same content under several names, now and then
            if entries.len() > 2 && entries[0].seed % 3 == 0 {
                let (conf, csv, seed) = (entries[0].conf.clone(), entries[0].csv, entries[0].seed);
                for e in entries.iter_mut().filter(|e| e.csv == csv) {
                    (e.conf, e.seed) = (conf.clone(), seed);
                }
            }
            (entries, same, rc, decoys, texts)
        })
        .prop_map(|(entries, same, rc, decoys, texts)| Layout {
            entries,
            same,
            rc,
            decoys,
            texts: texts.into_iter().map(|t| t.into_iter().chain("abcde".chars()).collect()).collect(),
        })
        .boxed()
}

pub struct Arranged {
    pub home: PathBuf,
    pub cwd: PathBuf,
    pub rc: Option<std::ffi::OsString>,
    /// variables that should not matter
    pub env: Vec<(String, PathBuf)>,
    /// None: loading must fail
    pub expect: Option<Vec<Step>>,
}

impl Layout {
    pub fn arrange(&self, base: &Path) -> Arranged {
        let _ = std::fs::remove_dir_all(base);
        let odd = |name: &[u8]| {
            use std::os::unix::ffi::OsStrExt;
            base.join(std::ffi::OsStr::from_bytes(name))
        };
        let link = |to: &Path, at: &Path| std::os::unix::fs::symlink(to, at).expect("scratch");
        let mkdir = |d: &Path| std::fs::create_dir_all(d).expect("scratch");
        let home = if self.same == 10 { odd(b"h\xffome\xfe") } else { base.join("home") };
        let conf = home.join(".config/chanoma");
        mkdir(base);
        match self.same {
            6 => {
                mkdir(&base.join("real-home"));
                link(Path::new("real-home"), &home);
            }
            _ => mkdir(&home),
        }
        match self.same {
            4 => {}
            5 => {
                mkdir(&home.join(".config"));
                mkdir(&base.join("dotfiles"));
                link(Path::new("../../dotfiles"), &conf);
            }
            8 => {
                mkdir(&home.join(".config"));
                std::fs::write(&conf, "from,to\na,b\n").expect("scratch");
            }
            9 => {
                mkdir(&home.join(".config"));
                link(Path::new(".."), &conf);
            }
            _ => mkdir(&conf),
        }
        let cwd = match self.same {
            1 => home.clone(),
            2 => conf.clone(),
            3 => {
                let l = base.join("cwd");
                link(&home, &l);
                l
            }
            k => {
                let d = match k {
                    10 => odd(b"cwd\xf0"),
                    11 => home.join("below"),
                    _ => base.join("cwd"),
                };
                mkdir(&d);
                d
            }
        };
        std::fs::create_dir_all(base.join("elsewhere")).expect("scratch");
        let dirs = [conf.clone(), home.clone(), cwd.clone()];
        // canonical directory index: coinciding directories hold one set of files
        let canon = |d: usize| match (self.same, d) {
            (1 | 3, 2) => 1,
            (2, 2) => 0,
            (9, 1) => 0,
            (_, d) => d,
        };
        // the steps of a malformed file are None
        let mut placed: Vec<(usize, String, bool, Option<Vec<Step>>, PathBuf)> = vec![];
        for (i, e) in self.entries.iter().enumerate() {
            let d = canon(e.dir as usize % 3);
            if (self.same == 4 || self.same == 8) && d == 0 {
                continue;
            }
            if placed.iter().any(|(pd, n, ..)| *pd == d && *n == e.name) {
                continue;
            }
            let p = dirs[d].join(&e.name);
            let (body, steps) = if e.csv {
                let c = csv_of(&e.conf.items.pairs(), e.seed);
                (c.render(), vec![Step::Conv(c.conv())])
            } else {
                (e.conf.render(), e.conf.pipeline())
            };
            let is_file = match e.kind {
                0 => {
                    std::fs::write(&p, body).expect("scratch");
                    true
                }
                1 => {
                    std::fs::create_dir(&p).expect("scratch");
                    false
                }
                2 => {
                    std::os::unix::fs::symlink(base.join("elsewhere/nothing"), &p).expect("scratch");
                    false
                }
                4 => {
                    let bad: &[u8] = match (e.csv, e.seed % 4) {
                        (true, 0) => b"from,to\na,b\n,c\n",
                        (true, 1) => b"from,to\na,\n",
                        (true, _) => b"from,to\n\xff,b\n",
                        (_, 0) => b"items: [",
                        (_, 1) => b"modifiers:\n  nope:\nitems:\n  b: a\n",
                        (_, 2) => b"items: 3\n",
                        _ => b"items:\n  b: \"\xff\"\n",
                    };
                    std::fs::write(&p, bad).expect("scratch");
                    true
                }
                k => {
                    let t = base.join(match k {
                        5 => format!("elsewhere/{i}.{}", if e.csv { "yaml" } else { "csv" }),
                        _ => format!("elsewhere/{i}"),
                    });
                    std::fs::write(&t, body).expect("scratch");
                    if k == 6 {
                        std::fs::hard_link(&t, &p).expect("scratch");
                    } else {
                        std::os::unix::fs::symlink(&t, &p).expect("scratch");
                    }
                    true
                }
            };
            placed.push((d, e.name.clone(), is_file, if e.kind == 4 { None } else { Some(steps) }, p));
        }
        let (rc, expect) = match &self.rc {
            None => {
                let mut steps = Some(vec![]);
                for d in 0..3 {
                    if canon(d) != d {
                        continue;
                    }
                    for n in DISCOVERED {
                        for (pd, pn, is_file, s, _) in &placed {
                            if *pd == d && pn == n && *is_file {
                                match (&mut steps, s) {
                                    (Some(v), Some(s)) => v.extend(s.clone()),
                                    _ => steps = None,
                                }
                            }
                        }
                    }
                }
                (None, steps)
            }
            Some(Rc::Entry(k, spell)) if !placed.is_empty() => {
                let (_, name, _, _, p) = &placed[*k as usize % placed.len()];
                let dir = p.parent().unwrap();
                let val = match spell {
                    0 => p.clone(),
                    1 if dir == cwd.as_path() => PathBuf::from(name),
                    3 => PathBuf::from(name),
                    4 => p.strip_prefix(&home).map_or_else(|_| PathBuf::from(name), |p| p.to_path_buf()),
                    5 => {
                        // the way down from the base, and enough steps up from the real current directory
                        let real = std::fs::canonicalize(&cwd).expect("scratch");
                        let top = std::fs::canonicalize(base).expect("scratch");
                        let up = real.strip_prefix(&top).expect("scratch").components().count();
                        (0..up).map(|_| "..").collect::<PathBuf>().join(dir.strip_prefix(base).expect("scratch")).join(name)
                    }
                    _ => dir.join(".").join("..").join(dir.file_name().unwrap()).join(name),
                };
                // what the value names from the current directory
                let place = |p: &Path| Some((std::fs::canonicalize(p.parent()?).ok()?, p.file_name()?.to_owned()));
                let seen = place(&cwd.join(&val));
                let named = placed.iter().find(|(.., p)| seen.is_some() && place(p) == seen);
                let ok = named.filter(|(_, name, is_file, ..)| {
                    *is_file && matches!(Path::new(name).extension().and_then(|e| e.to_str()), Some("csv" | "yaml" | "yml"))
                });
                (Some(val.into_os_string()), ok.and_then(|n| n.3.clone()))
            }
            Some(Rc::Entry(..)) => (Some(base.join("home/missing.csv").into_os_string()), None),
            Some(Rc::Raw(r)) => {
                let hit = placed.iter().find(|(_, n, is_file, _, p)| {
                    *is_file && p.parent() == Some(cwd.as_path()) && (r == n || *r == format!("./{n}"))
                });
                let ok = hit.is_some_and(|(_, n, ..)| matches!(Path::new(n).extension().and_then(|e| e.to_str()), Some("csv" | "yaml" | "yml")));
                (Some(r.into()), hit.filter(|_| ok).and_then(|h| h.3.clone()))
            }
            Some(Rc::NotUtf8) => {
                use std::os::unix::ffi::OsStringExt;
                let v = std::ffi::OsString::from_vec([base.as_os_str().as_encoded_bytes(), b"/home/\xff\xfe.csv"].concat());
                (Some(v), None)
            }
        };
        let home = if self.same == 7 { base.join("./cwd/../home/") } else { home };
        let mut env = vec![];
        if self.decoys != 0 {
            let decoy = base.join("decoy");
            for d in ["", ".config", "chanoma", ".config/chanoma", "files"] {
                mkdir(&decoy.join(d));
                for n in DISCOVERED.iter().chain(&["file.csv", "file.yaml"]) {
                    let body = if n.ends_with("csv") {
                        "from,to\na,Z\nb,Z\nc,Z\nd,Z\ne,Z\n"
                    } else {
                        "items: {Y: [a, b, c, d, e, Z]}\n"
                    };
                    std::fs::write(decoy.join(d).join(n), body).expect("scratch");
                }
            }
            for (i, vars) in DECOYS.iter().enumerate().filter(|(i, _)| self.decoys >> i & 1 == 1) {
                let file = [("", "chanomarc.csv"), ("", "chanomarc.yaml")][i % 2];
                for v in *vars {
                    let to = match i {
                        4 if v.ends_with("RC") || v.ends_with("rc") || v.ends_with("PATH") => decoy.join(file.1),
                        6 => PathBuf::from("1"),
                        _ => decoy.clone(),
                    };
                    env.push((v.to_string(), to));
                }
            }
        }
        Arranged { home, cwd, rc, env, expect }
    }
}

fn check_layout(base: &Path, neutral: &Path, l: &Layout, gone: bool, o: &mut Obs) -> R {
    let a = l.arrange(base);
    std::env::set_var("HOME", &a.home);
    match &a.rc {
        Some(v) => std::env::set_var("CHANOMARC", v),
        None => std::env::remove_var("CHANOMARC"),
    }
    for (k, v) in &a.env {
        std::env::set_var(k, v);
    }
    std::env::set_current_dir(&a.cwd).expect("cwd");
    if gone {
        std::fs::remove_dir_all(&a.cwd).expect("scratch");
    }
    let r = sut("load_rc", Chanoma::load_rc);
    std::env::set_current_dir(neutral).expect("cwd");
    std::env::remove_var("CHANOMARC");
    for (k, _) in &a.env {
        std::env::remove_var(k);
    }
    let what = format!("HOME={:?} cwd={:?} CHANOMARC={:?} other variables {:?}", a.home, a.cwd, a.rc, a.env);
    match (r?, &a.expect) {
        (Ok(_), None) => return fail(format!("load_rc succeeded, though CHANOMARC names no usable file: {what}")),
        (Err(e), Some(_)) => return fail(format!("load_rc failed: {e}; {what}")),
        (Err(_), None) => o.label("CHANOMARC rejected"),
        (Ok(c), Some(steps)) => {
            for x in &l.texts {
                let want = model::apply_all(steps, x);
                let got = norm("load_rc", &c, x)?;
                if got != want {
                    return Err(diff(&format!("load_rc with {what}, expected steps {steps:?}"), x, &got, &want));
                }
                let r: Vec<Step> = steps.iter().rev().cloned().collect();
                o.label_if(model::apply_all(&r, x) != want, "order matters");
            }
            o.label_if(steps.is_empty(), "nothing found");
            o.label_if(a.rc.is_some(), "CHANOMARC accepted");
            o.label_if(a.rc.is_none() && steps.len() > 3, "several files");
            if steps.is_empty() {
                let n = sut("normalize_with_positions", || c.normalize_with_positions("x").modified_records().len())?;
                ensure!(n == 0, "nothing to load, but the normalizer has {n} steps");
            }
        }
    }
    o.label_if(matches!(l.same, 1 | 2 | 3 | 9), "directories coincide");
    o.label_if(matches!(l.same, 5 | 6 | 9), "a directory is a link");
    o.label_if(l.decoys != 0, "other variables name other directories");
    o.label_if(l.same == 10, "directory names are not UTF-8");
    if let Some(Rc::Entry(_, 3..)) = &l.rc {
        o.label(if a.expect.is_some() { "relative CHANOMARC accepted" } else { "relative CHANOMARC rejected" });
    }
    o.nontrivial_if(a.expect.is_none() || a.expect.as_ref().is_some_and(|s| s.len() > 1));
    Ok(())
}

pub fn c12(ctx: &mut Ctx) {
    let base = ctx.dir.join("layout");
    let neutral = ctx.dir.clone();
    // the environment belongs to the process: one case at a time
    ctx.prop_on(
        1,
        3000,
        "layouts",
        ctx.n(6_000, 150_000),
        "more than one step to apply, or CHANOMARC must be rejected",
        || {
            // names that are not UTF-8 only here: the other users of layouts pass them on as text
            (layout(), 0u8..16).prop_map(|(mut l, k)| {
                if k == 0 {
                    l.same = 10;
                }
                l
            })
        },
        |l, o| check_layout(&base, &neutral, l, false, o),
    );
    ctx.prop_on(
        1,
        1000,
        "no-current-directory",
        ctx.n(600, 10_000),
        "more than one step to apply, or CHANOMARC must be rejected; the current directory has been removed",
        || {
            layout().prop_map(|mut l| {
                l.same = 0;
                l.entries.retain(|e| e.dir % 3 != 2);
                if let Some(Rc::Entry(_, s)) = &mut l.rc {
                    *s = 0;
                }
                if matches!(l.rc, Some(Rc::Raw(_))) {
                    l.rc = Some(Rc::Raw("chanomarc.csv".into()));
                }
                l
            })
        },
        |l, o| check_layout(&base, &neutral, l, true, o),
    );
    // every subset of the six names, in each directory, with the directories different or coinciding
    let mut all: Vec<(u8, u8, u8)> = vec![];
    for same in 0..=11u8 {
        for dir in 0..3u8 {
            for mask in 0..64u8 {
                all.push((same, dir, mask));
            }
        }
    }
    let shared = std::sync::Mutex::new(());
    ctx.enumerate(
        "subsets",
        "every subset of the six discovered names in one of the directories, next to a file in each other one",
        all,
        true,
        |(same, dir, mask): &(u8, u8, u8), o| {
            let _one = shared.lock().unwrap_or_else(|e| e.into_inner());
            let mut entries = vec![];
            let mk = |d: u8, n: &str, i: usize| {
                let (f, t) = (small_alpha()[i % 5], small_alpha()[(i * 3 + 1) % 5]);
                let g = small_alpha()[(i + 2) % 5];
                Entry {
                    dir: d,
                    name: n.to_string(),
                    kind: 0,
                    csv: n.ends_with("csv"),
                    conf: YamlConf {
                        steps: Some(vec![Step::Lig(vec![("a".into(), format!("a{}", char::from(b'0' + i as u8)))])]),
                        items: Items::List(vec![(f.to_string(), t.to_string()), (g.to_string(), f.to_string())]),
                        items_first: false,
                        style: 3,
                    },
                    seed: 5,
                }
            };
            for (i, n) in DISCOVERED.iter().enumerate() {
                if mask >> i & 1 == 1 {
                    entries.push(mk(*dir, n, i));
                }
            }
            for d in 0..3 {
                if d != *dir {
                    entries.push(mk(d, DISCOVERED[(*mask as usize + d as usize) % 6], 6 + d as usize));
                }
            }
            let l = Layout { entries, same: *same, rc: None, decoys: 0, texts: vec!["abcdeabc".into(), "a".into()] };
            check_layout(&base, &neutral, &l, false, o).map_err(|f| f.single("layouts", &l))
        },
    );
    std::env::set_current_dir("/").ok();
}
