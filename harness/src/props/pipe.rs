//! C04, C05, C06, C18: pipelines of several steps.

use super::text::{diff, for_tuples, load, norm, show, table_of};
use crate::ensure;
use crate::files::{put, thread_dir, Items, Style, YamlConf};
use crate::gen;
use crate::model::{self, Step};
use crate::run::{fail, sut, Ctx, Fail, Obs, R};
use chanoma::{Chanoma, Item, Synthesized, TableBuilder};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Start {
    New,
    Default,
    Preset,
    Neologdn,
    Table(Vec<(char, char)>),
    Config(YamlConf),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Add {
    Preset,
    Neologdn,
    Table(Vec<(char, char)>),
    /// normalize something between the additions
    Use(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pipe {
    pub start: Start,
    pub adds: Vec<Add>,
    pub texts: Vec<String>,
}

pub fn clashing_conv() -> BoxedStrategy<Vec<(char, char)>> {
    // sources and targets of the other steps, so that order matters
    let cs: Vec<char> = "aAb\u{ff21}\u{ff22}\u{ff76}カ゛ー-~ \u{3000}\u{2010}\u{2014}がｶ".chars().collect();
    let p = prop_oneof![2 => vec((select(cs.clone()), select(cs)), 1..6), 1 => vec((gen::ch(), gen::ch()), 0..6)];
    p.prop_map(|v| {
        let mut seen = std::collections::HashSet::new();
        v.into_iter().filter(|(f, _)| seen.insert(*f)).collect()
    })
    .boxed()
}

pub fn yaml_conf(max: usize) -> BoxedStrategy<YamlConf> {
    let items = prop_oneof![
        1 => Just(vec![]),
        3 => clashing_conv(),
        1 => gen::conv(8),
    ];
    (prop::option::weighted(0.9, gen::file_steps(max)), items, 0u8..3, any::<bool>(), any::<u64>())
        .prop_map(|(steps, items, form, items_first, style)| {
            let pairs: Vec<(String, String)> = items.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            let items = match form {
                0 if pairs.is_empty() => Items::Absent,
                0 | 1 => Items::grouped(&pairs),
                _ => Items::List(pairs),
            };
            YamlConf { steps, items, items_first, style }
        })
        .boxed()
}

impl Pipe {
    pub fn steps(&self) -> Vec<Step> {
        let mut v = match &self.start {
            Start::New | Start::Default => vec![],
            Start::Preset => vec![Step::Preset],
            Start::Neologdn => vec![Step::Neologdn],
            Start::Table(t) => vec![Step::Conv(t.clone())],
            Start::Config(c) => c.pipeline(),
        };
        for a in &self.adds {
            match a {
                Add::Preset => v.push(Step::Preset),
                Add::Neologdn => v.push(Step::Neologdn),
                Add::Table(t) => v.push(Step::Conv(t.clone())),
                Add::Use(_) => {}
            }
        }
        v
    }

    pub fn build(&self, dir: &Path) -> Result<Chanoma, Fail> {
        Ok(self.build_observed(dir)?.0)
    }

    /// Also returns what the normalizer answered while it was being built: (steps so far, text, result).
    fn build_observed(&self, dir: &Path) -> Result<(Chanoma, Vec<(usize, String, String)>), Fail> {
        let mut c = match &self.start {
            Start::New => sut("new", Chanoma::new)?,
            Start::Default => sut("default", Chanoma::default)?,
            Start::Preset => sut("preset", Chanoma::preset)?,
            Start::Neologdn => sut("neologdn", Chanoma::neologdn)?,
            Start::Table(t) => sut("from_table", || Chanoma::from_table(table_of(t)))?,
            Start::Config(y) => load(&put(dir, "pipe.yaml", y.render()))?,
        };
        let mut n = Pipe { adds: vec![], ..self.clone() }.steps().len();
        let mut seen = vec![];
        for a in &self.adds {
            n += 1;
            match a {
                Add::Preset => sut("use_preset", || {
                    c.use_preset();
                })?,
                Add::Neologdn => sut("use_neologdn", || {
                    c.use_neologdn();
                })?,
                Add::Table(t) => sut("add_table", || {
                    c.add_table(table_of(t));
                })?,
                Add::Use(x) => {
                    n -= 1;
                    seen.push((n, x.clone(), norm("pipeline under construction", &c, x)?));
                }
            }
        }
        Ok((c, seen))
    }
}

/// A normalizer with just this step, built through the public interface.
fn single(dir: &Path, s: &Step) -> Result<Chanoma, Fail> {
    match s {
        Step::Preset => sut("preset", Chanoma::preset),
        Step::Neologdn => sut("neologdn", Chanoma::neologdn),
        Step::Conv(t) => sut("from_table", || Chanoma::from_table(table_of(t))),
        _ => load(&put(dir, "single.yaml", crate::files::plain_yaml(std::slice::from_ref(s)))),
    }
}

pub fn pipe(max_texts: usize, config: u32) -> BoxedStrategy<Pipe> {
    let start = prop_oneof![
        3 => Just(Start::New),
        1 => Just(Start::Default),
        2 => Just(Start::Preset),
        2 => Just(Start::Neologdn),
        3 => clashing_conv().prop_map(Start::Table),
        config => (yaml_conf(5), prop::option::weighted(0.7, gen::interacting_ligatures())).prop_map(|(mut y, wild)| {
            // these pipelines are compared with their own steps, so the order of ligatures may matter
            let steps = y.steps.iter_mut().flatten();
            if let Some(m) = wild {
                steps.filter(|s| matches!(s, Step::Lig(_))).for_each(|s| *s = Step::Lig(m.clone()));
            }
            Start::Config(y)
        }),
    ];
    let add = prop_oneof![
        3 => Just(Add::Preset),
        3 => Just(Add::Neologdn),
        5 => clashing_conv().prop_map(Add::Table),
        1 => gen::conv(8).prop_map(Add::Table),
        2 => gen::short_text().prop_map(Add::Use),
    ];
    (start, prop_oneof![1 => Just(0usize), 6 => 1usize..4, 1 => 4usize..12])
        .prop_flat_map(move |(s, n)| (Just(s), vec(add.clone(), n)))
        .prop_flat_map(move |(start, adds)| {
            let p = Pipe { start, adds, texts: vec![] };
            let cs = gen::steps_chars(&p.steps());
            let t = prop_oneof![5 => gen::text_over(cs, 18), 4 => gen::short_text(), 1 => gen::text()];
            (Just(p), vec(t, 1..=max_texts))
        })
        .prop_map(|(mut p, texts)| {
            p.texts = texts;
            p
        })
        .boxed()
}

fn order_matters(steps: &[Step], x: &str) -> bool {
    if steps.len() < 2 {
        return false;
    }
    let r: Vec<Step> = steps.iter().rev().cloned().collect();
    model::apply_all(&r, x) != model::apply_all(steps, x)
}

// ------------------------------------------------------------------ C04

fn through(steps: &[Step], singles: &[Chanoma], x: &str) -> Result<String, Fail> {
    let mut t = x.to_string();
    for (s, n) in steps.iter().zip(singles) {
        t = norm(&format!("{s:?} alone"), n, &t)?;
    }
    Ok(t)
}

fn check_compose(dir: &Path, p: &Pipe, o: &mut Obs) -> R {
    let (c, seen) = p.build_observed(dir)?;
    let steps = p.steps();
    let singles = steps.iter().map(|s| single(dir, s)).collect::<Result<Vec<_>, _>>()?;
    for (n, x, got) in &seen {
        let want = through(&steps[..*n], &singles[..*n], x)?;
        if *got != want {
            return Err(diff(&format!("under construction, {:?}", &steps[..*n]), x, got, &want));
        }
        o.label("used between additions");
    }
    for x in p.texts.iter().chain(p.texts.first()) {
        let got = norm("pipeline", &c, x)?;
        let want = through(&steps, &singles, x)?;
        if got != want {
            return Err(diff(&format!("pipeline {steps:?} against its steps one after another"), x, &got, &want));
        }
        let om = order_matters(&steps, x);
        o.label_if(om, "order matters");
        o.nontrivial_if(om);
        let mut dd = steps.clone();
        dd.dedup();
        o.label_if(dd.len() != steps.len() && model::apply_all(&dd, x) != model::apply_all(&steps, x), "repetition matters");
    }
    o.label_if(steps.is_empty(), "empty pipeline");
    o.label_if(steps.len() > 5, "over five steps");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SmallHistory(Vec<u8>);

pub fn c04(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    ctx.prop(
        "histories",
        ctx.n(16_000, 400_000),
        "reversing the steps would change the result on one of the texts",
        || pipe(4, 5),
        |p, o| check_compose(&dir, p, o),
    );
    super::raw::pipes(ctx, ctx.n(2_000, 40_000), "reversing the steps would change the result", |p, o| check_compose(&dir, p, o));
    ctx.prop(
        "bulk",
        ctx.n(120, 2_500),
        "reversing the steps would change the result on one of the texts",
        || {
            (pipe(1, 2), gen::bulk_text()).prop_map(|(mut p, t)| {
                p.texts = vec![t];
                p
            })
        },
        |p, o| check_compose(&dir, p, o),
    );
    ctx.prop(
        "long-histories",
        ctx.n(120, 3_000),
        "reversing the steps would change the result on one of the texts; 20 to 300 additions",
        || {
            let few = vec(clashing_conv(), 1..4);
            (few, prop_oneof![3 => 20usize..40, 2 => 60usize..70, 2 => 120usize..135, 1 => 250usize..300])
                .prop_flat_map(|(tables, n)| {
                    let add = prop_oneof![
                        2 => Just(Add::Preset),
                        2 => Just(Add::Neologdn),
                        6 => select(tables).prop_map(Add::Table),
                        1 => clashing_conv().prop_map(Add::Table),
                    ];
                    (select(vec![Start::New, Start::Preset, Start::Neologdn]), vec(add, n))
                })
                .prop_flat_map(|(start, adds)| {
                    let p = Pipe { start, adds, texts: vec![] };
                    let mut cs = gen::steps_chars(&p.steps());
                    cs.truncate(200);
                    (Just(p), vec(gen::text_over(cs, 30), 1..4))
                })
                .prop_map(|(mut p, t)| {
                    p.texts = t;
                    p
                })
        },
        |p, o| check_compose(&dir, p, o),
    );
    ctx.prop("far", ctx.n(100, 2_000), "reversing the steps would change the result", || far_pipe(pipe(1, 5)), |(p, x), o| {
        check_compose(&dir, &Pipe { texts: vec![x.text()], ..p.clone() }, o)
    });
    // all histories of up to 5 additions over 4 kinds, from 4 starts
    let mut all: Vec<SmallHistory> = vec![];
    for n in 0..=(if ctx.thorough() { 6 } else { 5 }) {
        for i in 0..4u32.pow(n) {
            all.push(SmallHistory((0..n).map(|k| (i / 4u32.pow(k) % 4) as u8).collect()));
        }
    }
    let stock = (Chanoma::preset(), Chanoma::neologdn());
    let texts: Vec<String> =
        ["ｶ ゛\u{ff21}~", "\u{ff21}-\u{2010} \u{3000}a b", "か~゛ｰーー", "A\u{ff22}-b", " カ゛ "].iter().map(|s| s.to_string()).collect();
    ctx.enumerate(
        "small-histories",
        "every sequence of up to 5 (thorough 6) additions over preset, neologdn and two clashing tables, from the four starts",
        all,
        true,
        |h: &SmallHistory, o| {
            let t1 = vec![('A', '\u{ff22}'), ('-', 'ー'), (' ', '\u{3000}')];
            let t2 = vec![('\u{ff22}', 'A'), ('カ', 'か'), ('B', '\u{ff76}'), ('ー', '\u{2010}')];
            let adds: Vec<Add> = h
                .0
                .iter()
                .map(|k| match k {
                    0 => Add::Preset,
                    1 => Add::Neologdn,
                    2 => Add::Table(t1.clone()),
                    _ => Add::Table(t2.clone()),
                })
                .collect();
            let starts = [Start::New, Start::Preset, Start::Neologdn, Start::Table(t1.clone())];
            for s in starts {
                let p = Pipe { start: s, adds: adds.clone(), texts: texts.clone() };
                let c = p.build(&dir)?;
                let steps = p.steps();
                let n1 = Chanoma::from_table(table_of(&t1));
                let n2 = Chanoma::from_table(table_of(&t2));
                for x in &texts {
                    o.weight += 1;
                    let got = norm("pipeline", &c, x)?;
                    let mut want = x.clone();
                    for s in &steps {
                        let n = match s {
                            Step::Preset => &stock.0,
                            Step::Neologdn => &stock.1,
                            Step::Conv(t) if *t == t1 => &n1,
                            _ => &n2,
                        };
                        want = norm("step alone", n, &want)?;
                    }
                    if got != want {
                        let mut q = p.clone();
                        q.texts = vec![x.clone()];
                        return Err(diff(&format!("pipeline {steps:?}"), x, &got, &want).single("histories", q));
                    }
                    o.nontrivial_if(order_matters(&steps, x));
                }
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------ C05 / C06

thread_local! {
    static DEBUG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Logger whose level can be switched per call and thread.
struct Swallow;
impl log::Log for Swallow {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.level() <= log::Level::Info || DEBUG.with(|d| d.get())
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(r.args().to_string());
    }
    fn flush(&self) {}
}
static SWALLOW: Swallow = Swallow;

fn level(l: log::LevelFilter) {
    let _ = log::set_logger(&SWALLOW);
    log::set_max_level(l);
}

fn with_debug<T>(on: bool, f: impl FnOnce() -> T) -> T {
    DEBUG.with(|d| d.set(on));
    let r = f();
    DEBUG.with(|d| d.set(false));
    r
}

fn check_records(dir: &Path, p: &Pipe, o: &mut Obs) -> R {
    let c = p.build(dir)?;
    let steps = p.steps();
    let singles = steps.iter().map(|s| single(dir, s)).collect::<Result<Vec<_>, _>>()?;
    let file_kinds = match &p.start {
        Start::Config(y) => {
            let f = put(dir, "kinds.yaml", y.render());
            match sut("modifiers_from_yaml_path", || chanoma::file::modifiers_from_yaml_path(&f))? {
                Ok(k) => k,
                Err(e) => return fail(format!("modifiers of a well-formed file were rejected: {e}")),
            }
        }
        _ => vec![],
    };
    for x in &p.texts {
        let want = norm("normalize", &c, x)?;
        let debug = with_debug(true, || norm("normalize with debug logging", &c, x))?;
        if debug != want {
            return Err(diff(&format!("pipeline {steps:?} with debug logging"), x, &debug, &want));
        }
        for on in [false, true] {
            let rec = with_debug(on, || {
                sut(&format!("normalize_with_positions({}) (debug {on})", show(x)), || c.normalize_with_positions(x))
            })?;
            let text = sut("text() of the records", || rec.text().to_string())?;
            if text != want {
                return Err(diff(&format!("recorded pipeline {steps:?} (debug {on})"), x, &text, &want));
            }
            let rs = rec.modified_records();
            ensure!(rs.len() == steps.len(), "{} records for {} steps {steps:?} on {}", rs.len(), steps.len(), show(x));
            let mut t = x.clone();
            for (i, (s, r)) in steps.iter().zip(rs).enumerate() {
                let input = t.clone();
                t = norm("step alone", &singles[i], &t)?;
                if r.text != t {
                    return Err(diff(&format!("text recorded for step {i} {s:?}"), &input, &r.text, &t));
                }
                if let Some(k) = file_kinds.get(i) {
                    ensure!(r.kind == *k, "record {i} holds {:?} instead of the configured {:?}", r.kind, k);
                }
                o.label_if(t != input, match s {
                    Step::Preset | Step::Conv(_) => "converter changed the text",
                    Step::Neologdn => "neologdn changed the text",
                    Step::Elim(_) => "eliminator changed the text",
                    Step::Reduce(_) => "reducer changed the text",
                    Step::Dotted => "dotted_space_eliminator changed the text",
                    Step::Lig(_) => "ligature_translator changed the text",
                    Step::Trim => "trim changed the text",
                });
            }
        }
        o.nontrivial_if(want != *x);
    }
    // the kind of a step does not depend on where it stands
    let x0 = &p.texts[0];
    let rec = sut("normalize_with_positions", || c.normalize_with_positions(x0))?;
    for i in file_kinds.len()..steps.len() {
        let r1 = sut("normalize_with_positions", || singles[i].normalize_with_positions(x0))?;
        let (Some(a), Some(b)) = (r1.modified_records().first(), rec.modified_records().get(i)) else {
            return fail(format!("a record of step {i} is missing"));
        };
        ensure!(a.kind == b.kind, "record {i} holds {:?} but that step alone is {:?}", b.kind, a.kind);
    }
    o.label_if(steps.is_empty(), "empty pipeline");
    Ok(())
}

pub fn c05(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    let rule = "the pipeline changes one of the texts; each is normalized plain, recorded, and both with debug logging on";
    level(log::LevelFilter::Trace);
    ctx.prop("pipelines", ctx.n(16_000, 400_000), rule, || pipe(3, 9), |p, o| check_records(&dir, p, o));
    super::raw::pipes(ctx, ctx.n(2_000, 40_000), rule, |p, o| check_records(&dir, p, o));
    level(log::LevelFilter::Debug);
    ctx.prop("pipelines-debug", ctx.n(3_000, 60_000), rule, || pipe(3, 9), |p, o| check_records(&dir, p, o));
    level(log::LevelFilter::Off);
    ctx.prop("pipelines-off", ctx.n(3_000, 60_000), rule, || pipe(3, 9), |p, o| check_records(&dir, p, o));
    level(log::LevelFilter::Debug);
    ctx.prop(
        "bulk",
        ctx.n(100, 2_000),
        rule,
        || {
            (pipe(1, 6), gen::bulk_text()).prop_map(|(mut p, t)| {
                p.texts = vec![t];
                p
            })
        },
        |p, o| check_records(&dir, p, o),
    );
    level(log::LevelFilter::Off);
    ctx.prop("far", ctx.n(120, 2_500), rule, || far_pipe(pipe(1, 9)), |(p, x), o| {
        check_records(&dir, &Pipe { texts: vec![x.text()], ..p.clone() }, o)
    });
    super::ext::c05_command_line(ctx);
    let conf = |steps: Vec<Step>| Start::Config(YamlConf { steps: Some(steps), items: Items::Absent, items_first: false, style: 2 });
    let single_steps: Vec<Start> = vec![
        Start::New,
        Start::Preset,
        Start::Neologdn,
        Start::Table(vec![('a', 'あ'), ('あ', 'a'), (' ', '~')]),
        conf(vec![Step::Dotted]),
        conf(vec![Step::Trim]),
        conf(vec![Step::Reduce('ー')]),
        conf(vec![Step::Reduce(' ')]),
        conf(vec![Step::Elim(vec!['~', 'ー'])]),
        conf(vec![Step::Lig(vec![("か゛".into(), "が".into())])]),
        conf(vec![Step::Lig(vec![("か~".into(), "".into())])]),
    ];
    let alpha: Vec<char> = " aーか゛~\u{ff76}".chars().collect();
    let deep = ctx.thorough();
    ctx.enumerate(
        "tuples",
        "each single step on every text of up to 6 (thorough 7) characters over seven class representatives, recorded and plain",
        single_steps,
        true,
        |s: &Start, o| {
            let c = Pipe { start: s.clone(), adds: vec![], texts: vec![] }.build(&dir)?;
            for n in 0..=(if deep { 7 } else { 6 }) {
                for_tuples(&alpha, n, "", &mut |x| {
                    o.weight += 1;
                    let case = || Pipe { start: s.clone(), adds: vec![], texts: vec![x.to_string()] };
                    let got = norm("normalize", &c, x)?;
                    let rec = sut("normalize_with_positions", || c.normalize_with_positions(x).text().to_string())
                        .map_err(|f| f.single("pipelines", case()))?;
                    if got != rec {
                        return Err(diff(&format!("{s:?} recorded"), x, &rec, &got).single("pipelines", case()));
                    }
                    Ok(())
                })?;
            }
            o.nontrivial = true;
            Ok(())
        },
    );
}

/// Does this step promise positions for every change?
fn positioned(s: &Step) -> bool {
    matches!(s, Step::Preset | Step::Conv(_) | Step::Reduce(_) | Step::Trim)
}

fn check_positions(dir: &Path, p: &Pipe, o: &mut Obs) -> R {
    let c = p.build(dir)?;
    positions_of(&c, &p.steps(), &p.texts, o)
}

/// Formatted only when something is wrong.
struct What<'a>(&'a chanoma::Position, usize, &'a Step, &'a str);
impl std::fmt::Display for What<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "position {:?} of step {} {:?} on {}", self.0, self.1, self.2, show(self.3))
    }
}

fn positions_of(c: &Chanoma, steps: &[Step], texts: &[String], o: &mut Obs) -> R {
    for x in texts {
        let rec = sut(&format!("normalize_with_positions({})", show(x)), || c.normalize_with_positions(x))?;
        ensure!(rec.modified_records().len() == steps.len(), "records and steps differ in number");
        let mut input = x.clone();
        for (i, (s, r)) in steps.iter().zip(rec.modified_records()).enumerate() {
            if positioned(s) {
                let chars: Vec<(usize, char)> = input.char_indices().collect();
                let mut ps: Vec<&chanoma::Position> = r.positions.iter().collect();
                ps.sort_by_key(|p| (p.index, p.length));
                let mut out = String::new();
                let mut at = 0usize;
                for q in ps {
                    let what = What(q, i, s, &input);
                    let end = q.index.checked_add(q.length).filter(|e| *e <= input.len());
                    let Some(end) = end else { return fail(format!("{what}: bytes outside the input")) };
                    ensure!(
                        input.is_char_boundary(q.index) && input.is_char_boundary(end) && input[q.index..end] == q.from,
                        "{what}: the byte stretch is not the recorded source text"
                    );
                    let cend = q.utf8_index.checked_add(q.utf8_length).filter(|e| *e <= chars.len());
                    let Some(cend) = cend else { return fail(format!("{what}: characters outside the input")) };
                    let cs: String = chars[q.utf8_index..cend].iter().map(|(_, c)| *c).collect();
                    ensure!(cs == q.from, "{what}: the character stretch is {cs:?}, not the recorded source text");
                    let byte_of = chars.get(q.utf8_index).map_or(input.len(), |(b, _)| *b);
                    ensure!(byte_of == q.index, "{what}: byte and character index name different places");
                    ensure!(q.index >= at, "{what}: overlaps the stretch before it");
                    out.push_str(&input[at..q.index]);
                    out.push_str(&q.to);
                    at = end;
                    if q.from != q.to {
                        o.label_if(q.index > 0, "change not at the start");
                        o.label_if(q.index != q.utf8_index, "multi-byte text before a change");
                        o.label_if(end == input.len(), "change at the end");
                        o.nontrivial_if(q.index != q.utf8_index);
                    }
                }
                out.push_str(&input[at..]);
                if out != r.text {
                    return Err(diff(&format!("replaying the positions of step {i} {s:?}"), &input, &out, &r.text));
                }
            }
            input = r.text.clone();
        }
    }
    Ok(())
}

fn pos_pipe() -> BoxedStrategy<Pipe> {
    let step = prop_oneof![
        4 => clashing_conv().prop_map(Step::Conv),
        4 => prop_oneof![Just('ー'), Just(' '), select(gen::pool())].prop_map(Step::Reduce),
        2 => Just(Step::Trim),
        1 => gen::file_step(),
    ];
    let conf = vec(step, 1..5).prop_map(|v| {
        let mut seen = std::collections::HashSet::new();
        let steps: Vec<Step> = v.into_iter().filter(|s| seen.insert(gen::step_rank(s))).collect();
        Start::Config(YamlConf { steps: Some(steps), items: Items::Absent, items_first: false, style: 2 })
    });
    let one = (prop_oneof![
        2 => Just(Start::Preset),
        2 => clashing_conv().prop_map(Start::Table),
        2 => gen::conv(10).prop_map(Start::Table),
        8 => conf,
    ], prop_oneof![3 => Just(vec![]), 1 => vec(prop_oneof![Just(Add::Preset), clashing_conv().prop_map(Add::Table)], 1..3)])
        .prop_flat_map(|(start, adds)| {
            let p = Pipe { start, adds, texts: vec![] };
            let cs = gen::steps_chars(&p.steps());
            (Just(p), vec(prop_oneof![4 => gen::text_over(cs, 20), 2 => gen::short_text()], 1..4))
        })
        .prop_map(|(mut p, t)| {
            p.texts = t;
            p
        });
    prop_oneof![5 => one, 2 => pipe(3, 9)].boxed()
}

/// A pipeline and a long text in which what its steps react to stands far from the start.
fn far_pipe(p: BoxedStrategy<Pipe>) -> BoxedStrategy<(Pipe, gen::Rep)> {
    p.prop_flat_map(|mut p| {
        p.texts.clear();
        let own: Vec<String> = gen::steps_chars(&p.steps()).into_iter().take(30).map(|c| c.to_string()).collect();
        (Just(p), gen::rep_text(17, own))
    })
    .boxed()
}

pub fn c06(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    let rule = "a changed stretch has multi-byte text before it";
    ctx.prop("far", ctx.n(160, 3_000), rule, || far_pipe(pos_pipe()), |(p, x), o| {
        check_positions(&dir, &Pipe { texts: vec![x.text()], ..p.clone() }, o)
    });
    ctx.prop("positions", ctx.n(24_000, 600_000), rule, pos_pipe, |p, o| check_positions(&dir, p, o));
    super::raw::pipes(ctx, ctx.n(4_000, 80_000), rule, |p, o| check_positions(&dir, p, o));
    ctx.prop(
        "bulk",
        ctx.n(100, 2_000),
        rule,
        || {
            (pos_pipe(), gen::bulk_text()).prop_map(|(mut p, t)| {
                p.texts = vec![t];
                p
            })
        },
        |p, o| check_positions(&dir, p, o),
    );
    let conf = |steps: Vec<Step>| Start::Config(YamlConf { steps: Some(steps), items: Items::Absent, items_first: false, style: 2 });
    let starts = vec![
        Start::Preset,
        Start::Table(vec![('a', 'あ'), ('あ', 'a'), ('ー', '-'), ('😀', ' ')]),
        conf(vec![Step::Reduce('ー')]),
        conf(vec![Step::Reduce('a')]),
        conf(vec![Step::Reduce('😀')]),
        conf(vec![Step::Trim]),
        conf(vec![Step::Reduce('ー'), Step::Trim]),
    ];
    let alpha: Vec<char> = " aーあ😀\u{ff76}".chars().collect();
    let deep = ctx.thorough();
    ctx.enumerate(
        "tuples",
        "each of seven pipelines on every text of up to 6 (thorough 8) characters of 1, 3 and 4 bytes",
        starts,
        true,
        |s: &Start, o| {
            let p = Pipe { start: s.clone(), adds: vec![], texts: vec![] };
            let c = p.build(&dir)?;
            let steps = p.steps();
            for n in 0..=(if deep { 8 } else { 6 }) {
                for_tuples(&alpha, n, "", &mut |x| {
                    o.weight += 1;
                    positions_of(&c, &steps, &[x.to_string()], o)
                        .map_err(|f| f.single("positions", Pipe { start: s.clone(), adds: vec![], texts: vec![x.to_string()] }))?;
                    o.labels.clear();
                    Ok(())
                })?;
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------ C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Same {
    /// entries of a correspondence, conflicting sources and multi-character strings allowed
    table: Vec<(String, String)>,
    extra: Vec<(String, String)>,
    ligatures: Vec<(String, String)>,
    conf: YamlConf,
    /// 0 table, 1 ligatures, 2 configuration file, 3 CSV file with conflicts, 4 YAML items with conflicts, 5 table + additions
    kind: u8,
    texts: Vec<String>,
    between: Vec<String>,
    style: u64,
}

fn same() -> BoxedStrategy<Same> {
    let w = |n: usize| vec(select("abcあか゛X".chars().collect::<Vec<char>>()), 1..n).prop_map(|v| v.into_iter().collect::<String>());
    let pairs = move || vec((w(3), w(3)), 0..10);
    let lig = vec((w(4), vec(select("abcあか゛X".chars().collect::<Vec<char>>()), 0..4).prop_map(|v| v.into_iter().collect::<String>())), 0..8);
    (pairs(), pairs(), lig, yaml_conf(6), 0u8..6, any::<u64>())
        .prop_flat_map(move |(table, extra, ligatures, conf, kind, style)| {
            let mut cs: Vec<char> = "abcあか゛X".chars().collect();
            if kind == 2 {
                cs.extend(gen::steps_chars(&conf.pipeline()));
            }
            (
                Just(Same { table, extra, ligatures, conf, kind, texts: vec![], between: vec![], style }),
                vec(gen::text_over(cs, 20), 1..4),
                vec(gen::short_text(), 0..3),
            )
        })
        .prop_map(|(mut s, t, b)| {
            s.texts = t;
            s.between = b;
            s
        })
        .boxed()
}

fn dedup_keys(v: &[(String, String)]) -> Vec<(String, String)> {
    let mut seen = std::collections::HashSet::new();
    v.iter().filter(|(f, _)| seen.insert(f.clone())).cloned().collect()
}

impl Same {
    fn build(&self, dir: &Path, round: usize) -> Result<Chanoma, Fail> {
        let corr = |v: &[(String, String)]| {
            Synthesized::new(v.iter().map(|(f, t)| Item::new(f.clone(), t.clone())).collect::<Vec<_>>()).corr()
        };
        let mut st = Style::new(self.style);
        match self.kind {
            0 => sut("table", || {
                let mut b = TableBuilder::new();
                b.add_corr(&corr(&self.table));
                Chanoma::from_table(b.build())
            }),
            1 => {
                // the same map written in a different order every time
                let mut m = dedup_keys(&self.ligatures);
                if !m.is_empty() {
                    let n = m.len();
                    m.rotate_left(round % n);
                }
                let y = YamlConf { steps: Some(vec![Step::Lig(m)]), items: Items::Absent, items_first: false, style: self.style };
                load(&put(dir, "same.yaml", y.render()))
            }
            2 => load(&put(dir, "same.yaml", self.conf.render())),
            3 => {
                let rows = self.table.iter().chain(&self.extra).map(|(f, t)| vec![f.clone(), t.clone()]).collect();
                let c = crate::files::CsvConf { header: vec!["from".into(), "to".into()], rows, style: self.style };
                load(&put(dir, "same.csv", c.render()))
            }
            4 => {
                let items = if st.pick(2) == 0 { Items::grouped(&self.table) } else { Items::List(self.table.clone()) };
                let y = YamlConf { steps: None, items, items_first: false, style: self.style };
                load(&put(dir, "same.yaml", y.render()))
            }
            _ => sut("table with additions", || {
                let mut b = TableBuilder::new();
                b.preset().add_corr(&corr(&self.table)).remove_corr(&corr(&self.extra)).add_corr(&corr(&self.extra));
                let mut c = Chanoma::from_table(b.build());
                c.use_neologdn();
                c
            }),
        }
    }
}

fn check_same(dir: &Path, s: &Same, o: &mut Obs, threads: usize) -> R {
    let first = s.build(dir, 0)?;
    let want: Vec<String> = s.texts.iter().map(|x| norm("first instance", &first, x)).collect::<Result<_, _>>()?;
    for x in &s.between {
        norm("first instance", &first, x)?;
    }
    for (x, w) in s.texts.iter().zip(&want) {
        let g = norm("first instance", &first, x)?;
        if g != *w {
            return Err(diff("repeated call on one instance", x, &g, w));
        }
    }
    for round in 1..8 {
        let n = s.build(dir, round)?;
        for (x, w) in s.texts.iter().zip(&want) {
            let g = norm("another instance", &n, x)?;
            if g != *w {
                return Err(diff("another instance of the same configuration", x, &g, w));
            }
        }
    }
    if threads > 0 {
        let results: Vec<Result<Vec<String>, Fail>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|k| {
                    let (first, s) = (&first, &s);
                    sc.spawn(move || {
                        let mut out = vec![];
                        for rep in 0..6 {
                            for i in 0..s.texts.len() {
                                let j = (i + k + rep) % s.texts.len();
                                if let Some(b) = s.between.get((k + rep) % s.between.len().max(1)) {
                                    norm("shared instance", first, b)?;
                                }
                                out.push((j, norm("shared instance", first, &s.texts[j])?));
                            }
                        }
                        out.sort();
                        out.dedup();
                        Ok(out.into_iter().map(|(j, t)| format!("{j}:{t}")).collect())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        let mut exp: Vec<String> = want.iter().enumerate().map(|(j, t)| (j, t.clone())).collect::<std::collections::BTreeSet<_>>()
            .into_iter().map(|(j, t)| format!("{j}:{t}")).collect();
        exp.dedup();
        for r in results {
            let r = r?;
            ensure!(r == exp, "one instance in several threads gave {r:?} instead of {exp:?}");
        }
        o.label("threads");
    }
    let conflict = {
        let srcs: Vec<char> = s.table.iter().filter_map(|(f, _)| f.chars().next()).collect();
        let mut d = srcs.clone();
        d.sort();
        d.dedup();
        d.len() != srcs.len()
    };
    o.label_if(conflict && s.kind != 1 && s.kind != 2, "several targets for one source");
    if s.kind == 1 {
        let m = dedup_keys(&s.ligatures);
        if m.len() <= 5 {
            let inter = s.texts.iter().any(|x| model::ligature_results(x, &m).len() > 1);
            o.label_if(inter, "interacting ligatures");
        }
    }
    o.nontrivial_if(want.iter().zip(&s.texts).any(|(a, b)| a != b));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Life {
    /// (slot, configuration): whatever was in the slot is dropped
    Make(u8, u8),
    /// (slot, text, with positions)
    Use(u8, u8, bool),
    /// the same kind of step added to the instance in the slot
    Extend(u8, u8),
    Drop(u8),
    /// from another thread, which ends
    UseElsewhere(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lives {
    confs: Vec<Start>,
    texts: Vec<gen::Rep>,
    ops: Vec<Life>,
}

fn lives() -> BoxedStrategy<Lives> {
    let start = prop_oneof![
        1 => Just(Start::New),
        2 => Just(Start::Preset),
        2 => Just(Start::Neologdn),
        6 => clashing_conv().prop_map(Start::Table),
        1 => clashing_conv().prop_map(|c| Start::Config(YamlConf { steps: Some(vec![Step::Conv(c), Step::Trim]), items: Items::Absent, items_first: false, style: 3 })),
    ];
    let op = prop_oneof![
        4 => (0u8..3, any::<u8>()).prop_map(|(a, b)| Life::Make(a, b)),
        8 => (0u8..3, any::<u8>(), prop::bool::weighted(0.2)).prop_map(|(a, b, c)| Life::Use(a, b, c)),
        1 => (0u8..3, any::<u8>()).prop_map(|(a, b)| Life::Extend(a, b)),
        1 => (0u8..3).prop_map(Life::Drop),
        1 => (0u8..3, any::<u8>()).prop_map(|(a, b)| Life::UseElsewhere(a, b)),
    ];
    (vec(start, 1..5), vec(op, 4..40))
        .prop_flat_map(|(confs, ops)| {
            let p = |s: &Start| Pipe { start: s.clone(), adds: vec![], texts: vec![] }.steps();
            let mut own: Vec<String> = confs.iter().flat_map(|s| gen::steps_chars(&p(s)).into_iter().take(8)).map(|c| c.to_string()).collect();
            own.push("x".to_string());
            let short = vec(select(own.clone()), 1..8).prop_map(|v| gen::Rep(vec![(v.concat(), 1)]));
            let t = prop_oneof![2 => short, 3 => gen::rep_text(9, own.clone()), 1 => gen::rep_text(13, own)];
            (Just(confs), vec(t, 1..3), Just(ops))
        })
        .prop_map(|(confs, texts, ops)| Lives { confs, texts, ops })
        .boxed()
}

/// A history of instances that come and go: no result depends on what was there before.
fn check_lives(dir: &Path, l: &Lives, o: &mut Obs) -> R {
    let texts: Vec<String> = l.texts.iter().map(|t| t.text()).collect();
    let mut slots: Vec<Option<(Pipe, Chanoma)>> = vec![None, None, None];
    let (mut used, mut again) = (false, false);
    for (i, op) in l.ops.iter().enumerate() {
        match op {
            Life::Make(s, c) => {
                again |= used && slots[*s as usize].is_some();
                slots[*s as usize] = None;
                let p = Pipe { start: l.confs[*c as usize % l.confs.len()].clone(), adds: vec![], texts: vec![] };
                let c = p.build(dir)?;
                slots[*s as usize] = Some((p, c));
            }
            Life::Drop(s) => slots[*s as usize] = None,
            Life::Extend(s, c) => {
                if let Some((p, n)) = &mut slots[*s as usize] {
                    let (a, r) = match &l.confs[*c as usize % l.confs.len()] {
                        Start::Preset => (Add::Preset, sut("use_preset", || n.use_preset().use_neologdn().normalize(""))?),
                        Start::Table(t) => (Add::Table(t.clone()), sut("add_table", || n.add_table(table_of(t)).normalize(""))?),
                        _ => (Add::Neologdn, sut("use_neologdn", || n.use_neologdn().normalize(""))?),
                    };
                    drop(r);
                    let both = matches!(a, Add::Preset);
                    p.adds.push(a);
                    if both {
                        p.adds.push(Add::Neologdn);
                    }
                }
            }
            Life::Use(s, t, _) | Life::UseElsewhere(s, t) => {
                if let Some((p, n)) = &slots[*s as usize] {
                    let x = &texts[*t as usize % texts.len()];
                    let got = match op {
                        Life::Use(_, _, false) => norm("normalize", n, x)?,
                        Life::Use(..) => sut("normalize_with_positions", || n.normalize_with_positions(x).text().to_string())?,
                        _ => std::thread::scope(|sc| sc.spawn(|| norm("normalize", n, x)).join().expect("worker"))?,
                    };
                    let want = model::apply_all(&p.steps(), x);
                    if got != want {
                        return Err(diff(&format!("operation {i} of {:?}, an instance with {:?}", l.ops, p.steps()), x, &got, &want));
                    }
                    if *x != want {
                        o.nontrivial_if(again);
                        used = true;
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c18(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    let rule = "the configuration changes one of the texts; every case compares 8 separately built instances and repeated calls";
    ctx.prop("instances", ctx.n(12_000, 300_000), rule, same, |s, o| check_same(&dir, s, o, 0));
    ctx.prop("threads", ctx.n(1_200, 20_000), rule, same, |s, o| check_same(&dir, s, o, 4));
    ctx.prop(
        "lifetimes",
        ctx.n(3_000, 80_000),
        "an instance is made, used on a text it changes and dropped, and another one is made and used afterwards; results against the reference",
        lives,
        |l, o| check_lives(&dir, l, o),
    );
    // other processes: this same program computes the results again
    ctx.prop_on(
        4,
        400,
        "processes",
        ctx.n(160, 2_000),
        "the configuration changes one of the texts; results of two other processes compared",
        same,
        |s, o| {
            let n = s.build(&dir, 0)?;
            let want: Vec<String> = s.texts.iter().map(|x| norm("this process", &n, x)).collect::<Result<_, _>>()?;
            let f = put(&dir, "case.json", serde_json::to_string(s).unwrap());
            for round in 1..3 {
                let out = std::process::Command::new(std::env::current_exe().expect("own path"))
                    .arg("child-normalize")
                    .arg(&f)
                    .arg(round.to_string())
                    .arg(thread_dir(&dir))
                    .output()
                    .expect("run own binary");
                if !out.status.success() {
                    return fail(format!("the other process failed: {}", String::from_utf8_lossy(&out.stderr)));
                }
                let got: Vec<String> = serde_json::from_slice(&out.stdout).expect("child output");
                for ((x, w), g) in s.texts.iter().zip(&want).zip(&got) {
                    if g != w {
                        return Err(diff("another process", x, g, w));
                    }
                }
            }
            o.nontrivial_if(want.iter().zip(&s.texts).any(|(a, b)| a != b));
            Ok(())
        },
    );
    ctx.prop_on(
        1,
        40,
        "hammer",
        ctx.n(160, 3_000),
        "several of the texts are changed; eight threads call one shared and eight separate instances at the same time",
        || {
            (pipe(1, 3), vec(prop_oneof![3 => gen::short_text(), 2 => gen::ch().prop_map(|c| c.to_string())], 8), select(vec![300u32, 1000, 3000]))
                .prop_map(|(mut conf, texts, rounds)| {
                    conf.adds.retain(|a| !matches!(a, Add::Use(_)));
                    conf.texts.clear();
                    if conf.steps().is_empty() {
                        conf.adds.push(Add::Neologdn);
                    }
                    Hammer { conf, texts, rounds }
                })
        },
        |h, o| check_hammer(&dir, h, o),
    );
    ctx.prop(
        "big-conflicts",
        ctx.n(160, 4_000),
        "several targets for one source in a table of hundreds of entries; 6 instances compared on all its characters",
        || (30u32..900, 2u32..60, any::<u64>(), any::<bool>()).prop_map(|(n, srcs, seed, csv)| (n, srcs, seed, csv)),
        |(n, srcs, seed, csv): &(u32, u32, u64, bool), o| {
            let mut st = Style::new(*seed);
            let table: Vec<(String, String)> = (0..*n)
                .map(|_| (model::uni(0x4e00 + st.pick(*srcs as u64) as u32).to_string(), model::uni(0x3041 + st.pick(80) as u32).to_string()))
                .collect();
            let x: String = table.iter().map(|(f, _)| f.as_str()).collect();
            let s = Same {
                table,
                extra: vec![],
                ligatures: vec![],
                conf: YamlConf { steps: None, items: Items::Absent, items_first: false, style: 1 },
                kind: if *csv { 3 } else { [0, 4, 5][(*seed % 3) as usize] },
                texts: vec![x],
                between: vec![],
                style: *seed,
            };
            check_same(&dir, &s, o, 0)
        },
    );
    ctx.prop(
        "stock",
        ctx.n(1_500, 40_000),
        "preset or neologdn changes the text; long-lived shared instances called from 8 threads against fresh ones",
        || vec(gen::text(), 1..6),
        |v: &Vec<String>, o| {
            use std::sync::OnceLock;
            static P: OnceLock<(Chanoma, Chanoma)> = OnceLock::new();
            let (p, n) = P.get_or_init(|| (Chanoma::preset(), Chanoma::neologdn()));
            let (p2, n2) = sut("new instances", || (Chanoma::preset(), Chanoma::neologdn()))?;
            for x in v {
                for (a, b, w) in [(p, &p2, "preset"), (n, &n2, "neologdn")] {
                    let (r1, r2) = (norm(w, a, x)?, norm(w, b, x)?);
                    if r1 != r2 {
                        return Err(diff(&format!("{w}: long-lived against fresh instance"), x, &r1, &r2));
                    }
                    o.nontrivial_if(r1 != *x);
                }
            }
            Ok(())
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hammer {
    conf: Pipe,
    texts: Vec<String>,
    rounds: u32,
}

/// Eight threads call one instance, and instances of their own, at the same moment on different texts.
fn check_hammer(dir: &Path, h: &Hammer, o: &mut Obs) -> R {
    let shared = h.conf.build(dir)?;
    let own: Vec<Chanoma> = (0..8).map(|_| h.conf.build(dir)).collect::<Result<_, _>>()?;
    let want: Vec<String> = h.texts.iter().map(|x| norm("alone", &shared, x)).collect::<Result<_, _>>()?;
    let barrier = std::sync::Barrier::new(8);
    let results: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = own
            .iter()
            .enumerate()
            .map(|(k, mine)| {
                let (shared, want, barrier) = (&shared, &want, &barrier);
                sc.spawn(move || {
                    barrier.wait();
                    let n = h.texts.len();
                    for r in 0..h.rounds as usize {
                        // mostly one's own text again and again, sometimes a neighbour's
                        let j = if r % 5 == 4 { (k + r) % n } else { k % n };
                        for (what, c) in [("one instance", shared), ("an instance of its own", mine)] {
                            let g = if r % 7 == 6 {
                                sut("normalize_with_positions", || c.normalize_with_positions(&h.texts[j]).text().to_string())?
                            } else {
                                norm(what, c, &h.texts[j])?
                            };
                            if g != want[j] {
                                return Err(diff(&format!("{what}, called while other threads normalize other texts"), &h.texts[j], &g, &want[j]));
                            }
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker")).collect()
    });
    for r in results {
        r?;
    }
    o.weight = 16 * h.rounds as u64;
    o.nontrivial_if(want.iter().zip(&h.texts).filter(|(a, b)| a != b).count() > 1);
    Ok(())
}

/// Entry point of the other process.
pub fn child(case: &Path, round: usize, dir: &Path) -> i32 {
    let s: Same = serde_json::from_str(&std::fs::read_to_string(case).expect("case")).expect("case");
    let d = dir.join(format!("child{round}"));
    std::fs::create_dir_all(&d).expect("child directory");
    let r: Result<Vec<String>, Fail> =
        s.build(&d, round).and_then(|n| s.texts.iter().map(|x| norm("child", &n, x)).collect());
    match r {
        Ok(v) => {
            println!("{}", serde_json::to_string(&v).unwrap());
            0
        }
        Err(f) => {
            eprintln!("{}", f.msg);
            1
        }
    }
}
