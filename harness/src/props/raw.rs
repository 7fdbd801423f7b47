//! Coverage-guided searches in which the fuzzer's bytes are the texts, tables and files themselves.
//! A byte 0xFF, which no UTF-8 text has, separates fields.

use super::conf::{self, check_behaviour, doc_v, load_all, Y};
use super::pipe::{self, Add, Pipe, Start};
use super::table::{self, Export};
use super::text::{self, show, LigCase, StepCase, TableCase};
use crate::files::{put, Items, YamlConf};
use crate::gen;
use crate::model::{self, Step};
use crate::ensure;
use crate::run::{sut, Ctx, Obs, R};
use chanoma::Chanoma;
use serde::{Deserialize, Serialize};
use std::path::Path;

fn utf8(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn fields(b: &[u8]) -> Vec<String> {
    b.split(|x| *x == 0xff).map(utf8).collect()
}

fn join(v: &[String]) -> Vec<u8> {
    v.iter().map(|s| s.as_bytes()).collect::<Vec<_>>().join(&[0xffu8][..])
}

fn texts(ctx: &Ctx, name: &str) -> Vec<Vec<u8>> {
    ctx.samples(name, 60, gen::text()).into_iter().map(|s| s.into_bytes()).collect()
}

/// Texts for one fixed normalizer.
pub fn text(ctx: &mut Ctx, runs: u32, rule: &str, test: impl Fn(&String, &mut Obs) -> R) {
    let seeds = texts(ctx, "bytes-text");
    ctx.bytes("bytes-text", runs, rule, || seeds.clone(), utf8, test);
}

pub fn spaces(ctx: &mut Ctx, runs: u32, rule: &str, test: impl Fn(&String, &mut Obs) -> R) {
    let seeds: Vec<Vec<u8>> = ctx.samples("bytes-text", 60, text::spaced_text()).into_iter().map(|s| s.into_bytes()).collect();
    ctx.bytes("bytes-text", runs, rule, || seeds.clone(), utf8, test);
}

/// source, target, source, target.. with no source twice
fn conv_of(s: &str) -> Vec<(char, char)> {
    let v: Vec<char> = s.chars().collect();
    let mut seen = std::collections::HashSet::new();
    v.chunks_exact(2).map(|p| (p[0], p[1])).filter(|p| seen.insert(p.0)).collect()
}

fn conv_str(v: &[(char, char)]) -> String {
    v.iter().flat_map(|(a, b)| [*a, *b]).collect()
}

pub fn tables(ctx: &mut Ctx, runs: u32, rule: &str) {
    let seeds: Vec<Vec<u8>> = ctx
        .samples("bytes-tables", 60, text::table_case(false))
        .into_iter()
        .map(|c| join(&[vec![conv_str(&c.table)], c.texts].concat()))
        .collect();
    let decode = |b: &[u8]| {
        let mut f = fields(b);
        TableCase { table: conv_of(&f.remove(0)), texts: f }
    };
    ctx.bytes("bytes-tables", runs, rule, || seeds.clone(), decode, text::check_table);
}

/// First field: one byte per step; then one field per step that has a parameter; then the texts.
fn pipe_of(b: &[u8]) -> Pipe {
    let f = fields(b);
    let mut f = f.into_iter();
    let steps: Vec<u8> = f.next().unwrap_or_default().bytes().take(8).collect();
    let mut p = Pipe { start: Start::New, adds: vec![], texts: vec![] };
    let mut file: Option<Vec<Step>> = None;
    for (i, k) in steps.iter().enumerate() {
        // capitals go into a configuration file the pipeline starts with
        let one = |s: String| s.chars().next().unwrap_or('ー');
        let s = match k {
            b'T' => Step::Trim,
            b'D' => Step::Dotted,
            b'N' => Step::Neologdn,
            b'R' => Step::Reduce(one(f.next().unwrap_or_default())),
            b'E' => Step::Elim(f.next().unwrap_or_default().chars().collect()),
            b'C' => Step::Conv(conv_of(&f.next().unwrap_or_default())),
            b'p' if i == 0 => {
                p.start = Start::Preset;
                continue;
            }
            b'n' if i == 0 => {
                p.start = Start::Neologdn;
                continue;
            }
            b'p' => {
                p.adds.push(Add::Preset);
                continue;
            }
            b'n' => {
                p.adds.push(Add::Neologdn);
                continue;
            }
            _ => {
                p.adds.push(Add::Table(conv_of(&f.next().unwrap_or_default())));
                continue;
            }
        };
        let v = file.get_or_insert_with(Vec::new);
        if v.iter().all(|q| gen::step_rank(q) != gen::step_rank(&s)) {
            v.push(s);
        }
    }
    if let Some(steps) = file {
        p.start = Start::Config(YamlConf { steps: Some(steps), items: Items::Absent, items_first: false, style: 2 });
    }
    p.texts = f.collect();
    if p.texts.is_empty() {
        p.texts.push(String::new());
    }
    p
}

pub fn pipes(ctx: &mut Ctx, runs: u32, rule: &str, test: impl Fn(&Pipe, &mut Obs) -> R) {
    let t = ctx.samples("bytes-pipes", 200, gen::short_text());
    let mut seeds = vec![];
    let tables: Vec<String> = ctx.samples("bytes-pipes-tables", 60, pipe::clashing_conv()).iter().map(|v| conv_str(v)).collect();
    for (i, s) in ["p", "n", "pn", "np", "t", "pt", "TR", "ND", "EC", "CRT", "TDNREC", "Rnt", "ttt", "Cpn", "tpnt", "DTp"].iter().enumerate() {
        let mut v = vec![s.to_string()];
        for (j, k) in s.chars().enumerate() {
            match k {
                'R' => v.push(["ー", " ", "a"][i % 3].to_string()),
                'E' | 'C' | 't' => v.push(tables[(i * 4 + j) % tables.len()].clone()),
                _ => {}
            }
        }
        for j in 0..3 {
            v.push(t[i * 3 + j].clone());
        }
        seeds.push(join(&v));
    }
    ctx.bytes("bytes-pipes", runs, rule, || seeds.clone(), pipe_of, test);
}

pub fn steps(ctx: &mut Ctx, runs: u32, rule: &str) {
    let dir = ctx.dir.clone();
    let mut seeds = vec![];
    for (k, s) in [("r", text::reducer()), ("e", text::eliminator())] {
        for c in ctx.samples(k, 30, text::step_case(s, false)) {
            let par = match &c.step {
                Step::Reduce(x) => x.to_string(),
                Step::Elim(v) => v.iter().collect(),
                _ => continue,
            };
            seeds.push(join(&[vec![format!("{k}{par}")], c.texts].concat()));
        }
    }
    let decode = |b: &[u8]| {
        let mut f = fields(b);
        let h = f.remove(0);
        let mut cs = h.chars();
        let step = match (cs.next(), cs.clone().next()) {
            (Some('r'), Some(c)) => Step::Reduce(c),
            _ => Step::Elim(cs.collect()),
        };
        StepCase { step, texts: f, style: 2 }
    };
    ctx.bytes("bytes-steps", runs, rule, || seeds.clone(), decode, |c, o| text::check_step(&dir, c, o));
}

pub fn ligatures(ctx: &mut Ctx, runs: u32, rule: &str) {
    let dir = ctx.dir.clone();
    let seeds: Vec<Vec<u8>> = ctx
        .samples("bytes-ligatures", 60, text::lig_case())
        .into_iter()
        .map(|c| join(&[c.map.into_iter().flat_map(|(a, b)| [a, b]).collect(), vec![c.texts.concat()]].concat()))
        .collect();
    let decode = |b: &[u8]| {
        let mut f = fields(b);
        let texts = vec![f.pop().unwrap_or_default()];
        let mut seen = std::collections::HashSet::new();
        let map = f
            .chunks_exact(2)
            .filter(|p| (1..80).contains(&p[0].chars().count()) && seen.insert(p[0].clone()))
            .take(5)
            .map(|p| (p[0].clone(), p[1].clone()))
            .collect();
        LigCase { map, texts, styles: vec![2, 3, 5] }
    };
    ctx.bytes("bytes-ligatures", runs, rule, || seeds.clone(), decode, |c, o| text::check_lig(&dir, c, o));
}

pub fn exports(ctx: &mut Ctx, runs: u32, rule: &str) {
    let dir = ctx.dir.clone();
    let seeds: Vec<Vec<u8>> = ctx
        .samples("bytes-exports", 60, table::file_pairs(8))
        .into_iter()
        .map(|v| join(&v.into_iter().flat_map(|(a, b)| [a, b]).collect::<Vec<_>>()))
        .collect();
    let decode = |b: &[u8]| {
        let f: Vec<String> = fields(b).into_iter().filter(|s| !s.is_empty()).collect();
        let pairs = f.chunks_exact(2).map(|p| (p[0].clone(), p[1].clone())).collect();
        Export { pairs, sets: vec![], header: vec!["from".into(), "to".into()] }
    };
    ctx.bytes("bytes-exports", runs, rule, || seeds.clone(), decode, |e, o| table::check_export(&dir, e, o));
}

// ------------------------------------------------------------------ files

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawFile {
    pub bytes: Vec<u8>,
}

/// What the YAML library, on its own, makes of the file. None: something the verdicts do not cover.
fn tree(v: &serde_yaml::Value) -> Option<Y> {
    use serde_yaml::Value as S;
    Some(match v {
        S::Null => Y::Null,
        S::Bool(b) => Y::Bool(*b),
        S::Number(_) => Y::Int(0),
        S::String(s) => Y::Str(s.clone()),
        S::Sequence(v) => Y::Seq(v.iter().map(tree).collect::<Option<_>>()?),
        S::Mapping(m) => Y::Map(m.iter().map(|(k, v)| Some((tree(k)?, tree(v)?))).collect::<Option<_>>()?),
    })
}

fn one(y: &Y) -> Option<char> {
    let mut c = y.str()?.chars();
    let r = c.next()?;
    c.next().is_none().then_some(r)
}

fn unique(v: &[(char, char)]) -> bool {
    let mut seen = std::collections::HashSet::new();
    v.iter().all(|(a, _)| seen.insert(*a))
}

/// The pipeline of a well-formed file, where the specification determines it.
fn pipeline(d: &Y) -> Option<Vec<Step>> {
    let Y::Map(m) = d else { return None };
    let get = |n: &str| m.iter().find(|(k, _)| k.str() == Some(n)).map(|(_, v)| v);
    let mut steps = vec![];
    if let Some(Y::Map(m)) = get("modifiers") {
        for (k, v) in m {
            steps.push(match (k.str()?, v) {
                ("character_converter", Y::Map(m)) => {
                    Step::Conv(m.iter().map(|(a, b)| Some((one(a)?, one(b)?))).collect::<Option<_>>()?)
                }
                ("character_eliminator", Y::Seq(s)) => Step::Elim(s.iter().map(one).collect::<Option<_>>()?),
                ("consecutive_character_reducer", v) => Step::Reduce(one(v)?),
                ("ligature_translator", Y::Map(m)) => {
                    Step::Lig(m.iter().map(|(a, b)| Some((a.str()?.to_string(), b.str()?.to_string()))).collect::<Option<_>>()?)
                }
                ("dotted_space_eliminator", _) => Step::Dotted,
                ("trim", _) => Step::Trim,
                ("neologdn", _) => Step::Neologdn,
                _ => return None,
            });
        }
    }
    let mut items = vec![];
    match get("items") {
        None => {}
        Some(Y::Map(m)) => {
            for (to, from) in m {
                match from {
                    Y::Seq(s) => {
                        for f in s {
                            items.push((one(f)?, one(to)?));
                        }
                    }
                    f => items.push((one(f)?, one(to)?)),
                }
            }
        }
        Some(Y::Seq(s)) => {
            for e in s {
                let Y::Map(m) = e else { return None };
                let get = |n: &str| m.iter().find(|(k, _)| k.str() == Some(n)).map(|(_, v)| v);
                items.push((one(get("from")?)?, one(get("to")?)?));
            }
        }
        _ => return None,
    }
    steps.push(Step::Conv(items));
    steps
        .iter()
        .all(|s| match s {
            Step::Conv(v) => unique(v),
            Step::Lig(m) => m.len() <= 5,
            _ => true,
        })
        .then_some(steps)
}

/// Texts over the characters of the file for which the order of ligatures makes no difference.
fn own_texts(body: &str, steps: &[Step]) -> Vec<String> {
    let all: String = body.chars().take(200).collect();
    let twice: String = all.chars().take(60).flat_map(|c| [c, c]).collect();
    let lig: String = steps
        .iter()
        .flat_map(|s| match s {
            Step::Lig(m) => m.iter().map(|(f, _)| f.clone()).collect(),
            _ => vec![],
        })
        .collect();
    let settled = |x: &String| {
        let mut t = x.clone();
        steps.iter().all(|s| {
            let ok = match s {
                Step::Lig(m) => model::ligature_results(&t, m).len() == 1,
                _ => true,
            };
            t = if ok { model::apply(s, &t) } else { String::new() };
            ok
        })
    };
    [all, twice, lig, "  a か゛ --〜 \u{ff21}ーー ".to_string()].into_iter().filter(settled).collect()
}

fn check_raw_yaml(dir: &Path, f: &RawFile, o: &mut Obs) -> R {
    let p = put(dir, "raw.yaml", &f.bytes);
    let ok = load_all(&p, o)?;
    let Ok(body) = std::str::from_utf8(&f.bytes) else {
        ensure!(!ok, "a file that is not UTF-8 was accepted: {:?}", f.bytes);
        o.label("not UTF-8");
        return Ok(());
    };
    let Ok(v) = serde_yaml::from_str::<serde_yaml::Value>(body) else {
        ensure!(!ok, "a file that is no YAML was accepted: {}", show(body));
        o.label("no YAML");
        return Ok(());
    };
    let Some(d) = tree(&v) else { return Ok(()) };
    match if conf::dup_free(&d) { doc_v(&d) } else { conf::V::Open } {
        conf::V::Err => {
            ensure!(!ok, "a malformed file was accepted: {}", show(body));
            o.label("must be rejected");
        }
        conf::V::Ok => {
            ensure!(ok, "a well-formed file was rejected: {}", show(body));
            o.label("must load");
            o.nontrivial = true;
            if let Some(steps) = pipeline(&d) {
                let n = text::load(&p)?;
                check_behaviour(&n, &steps, &own_texts(body, &steps), &show(body), o)?;
                o.label("behaviour compared");
            }
        }
        conf::V::Open => o.label("left open"),
    }
    Ok(())
}

fn check_raw_csv(dir: &Path, f: &RawFile, o: &mut Obs) -> R {
    let p = put(dir, "raw.csv", &f.bytes);
    let ok = load_all(&p, o)?;
    let mut rows: Vec<Vec<String>> = vec![];
    let (mut bad, mut open) = (false, false);
    for r in csv::ReaderBuilder::new().flexible(true).from_reader(&f.bytes[..]).byte_records() {
        let Ok(r) = r else { return Ok(()) };
        let mut v = vec![];
        for x in r.iter() {
            match std::str::from_utf8(x) {
                Ok(s) => v.push(s.to_string()),
                Err(_) => bad = true,
            }
        }
        bad |= v.len() > 1 && v.iter().any(|s| s.is_empty());
        open |= v.len() < 2 && v.iter().any(|s| s.is_empty());
        rows.push(v);
    }
    if bad {
        ensure!(!ok, "a malformed CSV file was accepted: {}", show(&utf8(&f.bytes)));
        o.label("must be rejected");
    } else if !open {
        ensure!(ok, "a well-formed CSV file was rejected: {}", show(&utf8(&f.bytes)));
        o.label("must load");
        o.nontrivial_if(!rows.is_empty());
        let one = |s: &String| {
            let mut c = s.chars();
            let r = c.next()?;
            c.next().is_none().then_some(r)
        };
        let pairs: Option<Vec<(char, char)>> = rows
            .iter()
            .flat_map(|r| r[..r.len() - 1].iter().map(move |f| Some((one(f)?, one(r.last()?)?))))
            .collect();
        if let Some(pairs) = pairs.filter(|p| unique(p)) {
            let n = sut("from_config_file", || Chanoma::from_config_file(&p))?;
            if let Ok(n) = n {
                let body = utf8(&f.bytes);
                let steps = [Step::Conv(pairs)];
                check_behaviour(&n, &steps, &own_texts(&body, &steps), &show(&body), o)?;
                o.label("behaviour compared");
            }
        }
    }
    Ok(())
}

pub fn files(ctx: &mut Ctx, runs: u32) {
    let dir = ctx.dir.clone();
    let mut seeds: Vec<Vec<u8>> =
        ctx.samples("bytes-yaml", 60, pipe::yaml_conf(5)).into_iter().map(|y| y.render().into_bytes()).filter(|b| b.len() <= 1024).collect();
    seeds.extend(ctx.samples("bytes-docs", 30, conf::doc()).into_iter().map(|y| y.flow().into_bytes()).filter(|b| b.len() <= 1024));
    let decode = |b: &[u8]| RawFile { bytes: b.to_vec() };
    let rule = "a file that must load";
    ctx.bytes("bytes-yaml", runs, rule, || seeds.clone(), decode, |f, o| check_raw_yaml(&dir, f, o));
    let seeds: Vec<Vec<u8>> =
        ctx.samples("bytes-csv", 60, conf::csv_case()).into_iter().map(|c| c.conf.render().into_bytes()).filter(|b| b.len() <= 1024).collect();
    ctx.bytes("bytes-csv", runs, rule, || seeds.clone(), decode, |f, o| check_raw_csv(&dir, f, o));
}
