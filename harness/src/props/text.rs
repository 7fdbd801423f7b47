//! C01, C02, C03, C07, C08, C09: single normalization steps.

use crate::ensure;
use crate::files::{plain_yaml, put, Items, YamlConf};
use crate::gen;
use crate::model::{self, Step};
use crate::run::{fail, sut, Ctx, Fail, Obs, R};
use chanoma::{Chanoma, Item, Synthesized, TableBuilder};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::path::Path;
use std::sync::OnceLock;

pub fn show(s: &str) -> String {
    let n = s.chars().count();
    if n > 200 {
        format!("{:?}… ({n} chars)", s.chars().take(200).collect::<String>())
    } else {
        format!("{s:?}")
    }
}

/// Where two texts first differ.
pub fn diff(what: &str, input: &str, got: &str, want: &str) -> Fail {
    let at = got.chars().zip(want.chars()).take_while(|(a, b)| a == b).count();
    Fail {
        msg: format!(
            "{what}: input {} gave {} instead of {} (first difference at character {at})",
            show(input),
            show(got),
            show(want)
        ),
        sig: None,
        single: None,
    }
}

pub fn norm(what: &str, c: &Chanoma, x: &str) -> Result<String, Fail> {
    sut(&format!("{what}: normalize({})", show(x)), || c.normalize(x))
}

pub fn load(path: &Path) -> Result<Chanoma, Fail> {
    match sut("from_config_file", || Chanoma::from_config_file(path))? {
        Ok(c) => Ok(c),
        Err(e) => fail(format!(
            "a well-formed configuration was rejected: {e}; file: {}",
            show(&std::fs::read_to_string(path).unwrap_or_default())
        )),
    }
}

pub fn table_of(pairs: &[(char, char)]) -> chanoma::Table {
    let items = pairs.iter().map(|(f, t)| Item::new(f.to_string(), t.to_string())).collect();
    let mut b = TableBuilder::new();
    b.add_corr(&Synthesized::new(items).corr());
    b.build()
}

/// All tuples of length n over the alphabet, in batches by their first elements.
pub fn tuple_batches(alpha: &[char], n: usize) -> Vec<(usize, String)> {
    let head = n.saturating_sub(2).min(2);
    let mut v = vec![(n, String::new())];
    for _ in 0..head {
        v = v
            .into_iter()
            .flat_map(|(n, s)| alpha.iter().map(move |c| (n, format!("{s}{c}"))).collect::<Vec<_>>())
            .collect();
    }
    v
}

pub fn for_tuples(alpha: &[char], n: usize, prefix: &str, f: &mut impl FnMut(&str) -> R) -> R {
    let have = prefix.chars().count();
    if have == n {
        return f(prefix);
    }
    let mut s = prefix.to_string();
    for c in alpha {
        s.push(*c);
        for_tuples(alpha, n, &s, f)?;
        s.truncate(prefix.len());
    }
    Ok(())
}

fn scalar_batches() -> Vec<(u32, u32)> {
    (0..0x110000u32).step_by(2048).map(|a| (a, a + 2048)).collect()
}

fn text_labels(x: &str, o: &mut Obs) {
    o.label_if(x.is_empty(), "empty");
    o.label_if(x.len() > 4096, "over 4 KiB");
    o.label_if(x.contains('\n'), "line break");
    o.label_if(x.chars().any(|c| c.len_utf8() == 4), "4-byte character");
}

// ------------------------------------------------------------------ C01

/// Building a stock normalizer costs many times what a short text does: only some texts get one of their own.
fn own_instance(x: &str) -> bool {
    x.bytes().fold(7u32, |a, b| a.wrapping_mul(31).wrapping_add(b as u32)) % 40 == 3
}

fn neo() -> &'static Chanoma {
    static C: OnceLock<Chanoma> = OnceLock::new();
    C.get_or_init(Chanoma::neologdn)
}

fn check_neo(x: &str, o: &mut Obs, fresh: bool) -> R {
    let want = model::neologdn(x);
    let got = norm("neologdn", neo(), x)?;
    if got != want {
        return Err(diff("neologdn", x, &got, &want));
    }
    if fresh {
        let c = sut("use_neologdn", || {
            let mut c = Chanoma::new();
            c.use_neologdn();
            c
        })?;
        let got = norm("use_neologdn", &c, x)?;
        if got != want {
            return Err(diff("use_neologdn", x, &got, &want));
        }
    }
    let conv: String = x.chars().map(|c| model::neologdn_char(c).unwrap_or(c)).collect();
    let red = model::reduce(&conv, model::CHOON);
    let sp = model::dotted(&red);
    let el = model::eliminate(&sp, &model::TILDES);
    let jo = model::join_all(&el);
    let stages = [conv != x, red != conv, sp != red, el != sp, jo != el, want != jo];
    for (i, l) in ["converted", "long marks collapsed", "spaces", "tildes", "joined", "spaces again"].iter().enumerate() {
        o.label_if(stages[i], l);
    }
    text_labels(x, o);
    o.nontrivial_if(stages.iter().filter(|b| **b).count() >= 2);
    Ok(())
}

pub fn c01(ctx: &mut Ctx) {
    let rule = "at least two of the six stages change the text";
    ctx.prop("texts", ctx.n(300_000, 6_000_000), rule, gen::text, |x: &String, o| check_neo(x, o, own_instance(x)));
    super::raw::text(ctx, ctx.n(20_000, 400_000), rule, |x, o| check_neo(x, o, own_instance(x)));
    ctx.prop("bulk", ctx.n(240, 6_000), rule, gen::bulk_text, |x: &String, o| check_neo(x, o, false));
    ctx.prop("far", ctx.n(320, 6_000), rule, || gen::rep_text(20, vec![]), |x: &gen::Rep, o| check_neo(&x.text(), o, false));
    ctx.enumerate(
        "scalars",
        "a batch of 2048 scalar values, each in 12 contexts; non-trivial if the batch holds any scalar value",
        scalar_batches(),
        true,
        |(a, b): &(u32, u32), o| {
            for c in (*a..*b).filter_map(char::from_u32) {
                for x in [
                    format!("{c}"),
                    format!("{c}{c}"),
                    format!("a{c}b"),
                    format!("a {c}b"),
                    format!("a{c} b"),
                    format!("あ {c} あ"),
                    format!("か{c}゛"),
                    format!("ハ{c}゜"),
                    format!("{c}゛"),
                    format!("{c}゜"),
                    format!("か{c}"),
                    format!("ー{c}ー"),
                ] {
                    o.weight += 1;
                    check_neo(&x, o, false).map_err(|f| f.single("texts", &x))?;
                }
                o.nontrivial = true;
            }
            o.labels.clear();
            Ok(())
        },
    );
    let all = gen::interesting().clone();
    let pairs: Vec<char> = all.clone();
    ctx.enumerate(
        "pairs",
        "one character against every character with a meaning to some stage, bare, with a space and with a tilde between",
        pairs,
        true,
        |a: &char, o| {
            for b in gen::interesting() {
                for x in [format!("{a}{b}"), format!("{a} {b}"), format!("{a}~{b}"), format!("x{a}{b}1")] {
                    o.weight += 1;
                    check_neo(&x, o, false).map_err(|f| f.single("texts", &x))?;
                }
            }
            o.labels.clear();
            o.nontrivial = true;
            Ok(())
        },
    );
    let reps = gen::representatives();
    let six: Vec<char> = " a\u{30fc}~か゛".chars().collect();
    let ten: Vec<char> = " a\u{3000}ー\u{2014}~か\u{ff76}゛-".chars().collect();
    let deep = ctx.thorough();
    let mut batches: Vec<(u8, usize, String)> = vec![];
    for n in 0..=3 {
        batches.extend(tuple_batches(&reps, n).into_iter().map(|(n, s)| (0, n, s)));
    }
    for n in 4..=(if deep { 7 } else { 5 }) {
        batches.extend(tuple_batches(&ten, n).into_iter().map(|(n, s)| (1, n, s)));
    }
    for n in 4..=(if deep { 9 } else { 7 }) {
        batches.extend(tuple_batches(&six, n).into_iter().map(|(n, s)| (2, n, s)));
    }
    ctx.enumerate(
        "tuples",
        "every string of the given length with the given prefix over a set of class representatives (32, 10 or 6 characters)",
        batches,
        true,
        |(k, n, p): &(u8, usize, String), o| {
            let alpha = match k {
                0 => &reps,
                1 => &ten,
                _ => &six,
            };
            for_tuples(alpha, *n, p, &mut |x| {
                o.weight += 1;
                check_neo(x, o, false).map_err(|f| f.single("texts", x))
            })?;
            o.labels.clear();
            o.nontrivial = true;
            Ok(())
        },
    );
}

// ------------------------------------------------------------------ C02

fn pre() -> &'static Chanoma {
    static C: OnceLock<Chanoma> = OnceLock::new();
    C.get_or_init(Chanoma::preset)
}

fn check_preset(x: &str, o: &mut Obs, laws: bool) -> R {
    let want = model::preset_text(x);
    let got = norm("preset", pre(), x)?;
    if got != want {
        return Err(diff("preset", x, &got, &want));
    }
    if laws {
        ensure!(got.chars().count() == x.chars().count(), "preset changed the number of characters of {}", show(x));
        let again = norm("preset", pre(), &got)?;
        if again != got {
            return Err(diff("preset applied twice", x, &again, &got));
        }
        let v: Vec<char> = x.chars().collect();
        let (l, r): (String, String) = (v[..v.len() / 2].iter().collect(), v[v.len() / 2..].iter().collect());
        let cat = norm("preset", pre(), &l)? + &norm("preset", pre(), &r)?;
        if cat != got {
            return Err(diff("preset of the two halves", x, &cat, &got));
        }
        let mut others = vec![];
        if own_instance(x) {
            others.push(("use_preset", sut("use_preset", || {
                let mut c = Chanoma::new();
                c.use_preset();
                c
            })?));
            others.push(("TableBuilder::preset", sut("TableBuilder::preset", || {
                let mut b = TableBuilder::new();
                b.preset();
                Chanoma::from_table(b.build())
            })?));
        }
        for (what, c) in others {
            let g = norm(what, &c, x)?;
            if g != want {
                return Err(diff(what, x, &g, &want));
            }
        }
    }
    let changed = x.chars().filter(|c| model::preset(*c).is_some()).count();
    text_labels(x, o);
    o.label_if(changed > 0, "something converted");
    o.nontrivial_if(changed > 0 && changed < x.chars().count());
    Ok(())
}

pub fn c02(ctx: &mut Ctx) {
    let rule = "some but not all characters are converted";
    ctx.prop("texts", ctx.n(200_000, 4_000_000), rule, gen::text, |x: &String, o| check_preset(x, o, true));
    super::raw::text(ctx, ctx.n(20_000, 400_000), rule, |x, o| check_preset(x, o, true));
    ctx.prop("bulk", ctx.n(240, 6_000), rule, gen::bulk_text, |x: &String, o| check_preset(x, o, true));
    ctx.prop("far", ctx.n(320, 6_000), rule, || gen::rep_text(20, vec!["\u{ff21}".into(), "\u{3000}a".into(), "\u{ff76}\u{ff9e}".into()]), |x: &gen::Rep, o| {
        check_preset(&x.text(), o, false)
    });
    ctx.enumerate(
        "scalars",
        "a batch of 2048 scalar values, each alone, doubled and between other characters, then all of them as one text",
        scalar_batches(),
        true,
        |(a, b): &(u32, u32), o| {
            let mut all = String::new();
            for c in (*a..*b).filter_map(char::from_u32) {
                all.push(c);
                for x in [format!("{c}"), format!("{c}{c}"), format!("か{c}゛"), format!("a {c}~"), format!("ー{c}\u{ff76}{c}")] {
                    o.weight += 1;
                    check_preset(&x, o, false).map_err(|f| f.single("texts", &x))?;
                }
            }
            check_preset(&all, o, false)?;
            o.labels.clear();
            o.nontrivial = !all.is_empty();
            Ok(())
        },
    );
    ctx.enumerate(
        "pairs",
        "one character against every character with a meaning to some stage",
        gen::interesting().clone(),
        true,
        |a: &char, o| {
            for b in gen::interesting() {
                let x = format!("{a}{b}{a}");
                o.weight += 1;
                check_preset(&x, o, false).map_err(|f| f.single("texts", &x))?;
            }
            o.labels.clear();
            o.nontrivial = true;
            Ok(())
        },
    );
}

// ------------------------------------------------------------------ C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TableCase {
    pub table: Vec<(char, char)>,
    pub texts: Vec<String>,
}

pub fn table_case(big: bool) -> BoxedStrategy<TableCase> {
    (if big { gen::conv_big() } else { gen::conv(14) })
        .prop_flat_map(move |table| {
            let cs: Vec<char> = table.iter().flat_map(|(a, b)| [*a, *b]).collect();
            let t = if big {
                prop_oneof![gen::bulk_text(), gen::text_over(cs, 3000)].boxed()
            } else {
                prop_oneof![5 => gen::text_over(cs, 30), 1 => gen::text()].boxed()
            };
            (Just(table), vec(t, 1..4))
        })
        .prop_map(|(table, texts)| TableCase { table, texts })
        .boxed()
}

pub fn check_table(c: &TableCase, o: &mut Obs) -> R {
    let t = sut("table", || table_of(&c.table))?;
    let from = sut("from_table", || Chanoma::from_table(t.clone()))?;
    let added = sut("add_table", || {
        let mut x = Chanoma::new();
        x.add_table(t.clone());
        x
    })?;
    for x in &c.texts {
        let want = model::convert(x, &c.table);
        for (what, n) in [("from_table", &from), ("add_table", &added)] {
            let got = norm(what, n, x)?;
            if got != want {
                return Err(diff(&format!("{what} {:?}", &c.table[..c.table.len().min(20)]), x, &got, &want));
            }
        }
        let srcs: std::collections::HashSet<char> = c.table.iter().filter(|(a, b)| a != b).map(|(a, _)| *a).collect();
        let chain = c.table.iter().any(|(a, b)| a != b && srcs.contains(b) && x.contains(*a));
        o.label_if(chain, "a product is itself a source");
        o.label_if(want != *x, "converted");
        o.nontrivial_if(want != *x);
        text_labels(x, o);
    }
    o.label_if(c.table.is_empty(), "empty table");
    o.label_if(c.table.len() > 100, "over 100 entries");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AnyTable {
    entries: Vec<(String, String)>,
    texts: Vec<String>,
}

pub fn c03(ctx: &mut Ctx) {
    let rule = "the table changes at least one of the texts";
    ctx.prop("tables", ctx.n(60_000, 1_500_000), rule, || table_case(false), check_table);
    super::raw::tables(ctx, ctx.n(20_000, 400_000), rule);
    ctx.prop("big-tables", ctx.n(120, 3_000), rule, || table_case(true), check_table);
    ctx.prop(
        "huge-tables",
        ctx.n(40, 800),
        "the table, of thousands to hundreds of thousands of entries, changes the text",
        || (gen::huge(400_000), any::<u32>()),
        |(h, at), o| {
            let table = h.pairs();
            let all: String = table.iter().map(|p| p.0).collect();
            let some: String = table.iter().cycle().skip(*at as usize % table.len()).step_by(1 + table.len() / 50).take(200).map(|p| p.0).collect();
            o.label_if(table.len() > 0x10000, "over 65536 entries");
            check_table(&TableCase { table, texts: vec![all, some] }, o)
        },
    );
    ctx.prop(
        "far",
        ctx.n(240, 4_000),
        rule,
        || {
            (gen::conv(10), any::<bool>()).prop_flat_map(|(table, id)| {
                let own: Vec<String> = table.iter().flat_map(|(a, b)| if id { vec![a.to_string()] } else { vec![format!("{a}{b}")] }).collect();
                (Just(table), gen::rep_text(20, own))
            })
        },
        |(table, x): &(Vec<(char, char)>, gen::Rep), o| check_table(&TableCase { table: table.clone(), texts: vec![x.text()] }, o),
    );
    ctx.prop(
        "any-content",
        ctx.n(20_000, 400_000),
        "the table has an entry that is not one character to one character; only failing is judged",
        || {
            let s = || prop_oneof![3 => gen::ch().prop_map(|c| c.to_string()), 1 => Just(String::new()), 2 => super::conf::hostile()];
            (vec((s(), s()), 0..8), vec(gen::short_text(), 1..4)).prop_map(|(entries, texts)| AnyTable { entries, texts })
        },
        |c: &AnyTable, o| {
            let items = c.entries.iter().map(|(f, t)| Item::new(f.as_str(), t.as_str())).collect();
            let mut b = TableBuilder::new();
            b.add_corr(&Synthesized::new(items).corr());
            let table = b.build();
            let n = sut("from_table", || Chanoma::from_table(table.clone()))?;
            let mut m = Chanoma::new();
            sut("add_table", || {
                m.add_table(table.clone());
            })?;
            let all: String = c.entries.iter().flat_map(|(f, t)| [f.as_str(), t.as_str()]).collect();
            for x in c.texts.iter().map(|x| x.as_str()).chain(["", &all]) {
                let a = norm("from_table", &n, x)?;
                let b = norm("add_table", &m, x)?;
                let p = sut("normalize_with_positions", || n.normalize_with_positions(x).text().to_string())?;
                if c.entries.iter().all(|(f, _)| c.entries.iter().filter(|(g, _)| f.chars().next() == g.chars().next()).count() == 1) {
                    ensure!(a == b && a == p, "from_table, add_table and positions disagree on {x:?}: {a:?}, {b:?}, {p:?}");
                }
            }
            o.nontrivial_if(c.entries.iter().any(|(f, t)| f.chars().count() != 1 || t.chars().count() != 1));
            Ok(())
        },
    );
    // every table over 3 characters (each maps to one of 4 or is absent) on every text of length <= 4
    let alpha = ['a', 'あ', '😀'];
    let opts = [None, Some('a'), Some('あ'), Some('😀'), Some('z')];
    let mut tabs = vec![];
    for i in 0..125usize {
        let t: Vec<(char, char)> =
            (0..3).filter_map(|k| opts[i / 5usize.pow(k) % 5].map(|to| (alpha[k as usize], to))).collect();
        tabs.push(t);
    }
    ctx.enumerate(
        "small-worlds",
        "every table over three characters of 1, 3 and 4 bytes, on every text of up to 5 characters over them and one more",
        tabs,
        true,
        |t: &Vec<(char, char)>, o| {
            let c = sut("from_table", || Chanoma::from_table(table_of(t)))?;
            for n in 0..=5 {
                for_tuples(&['a', 'あ', '😀', 'z'], n, "", &mut |x| {
                    o.weight += 1;
                    let want = model::convert(x, t);
                    let got = norm("from_table", &c, x)?;
                    if got != want {
                        return Err(diff(&format!("table {t:?}"), x, &got, &want)
                            .single("tables", TableCase { table: t.clone(), texts: vec![x.to_string()] }));
                    }
                    Ok(())
                })?;
            }
            o.nontrivial = !t.is_empty();
            Ok(())
        },
    );
    ctx.enumerate(
        "every-scalar-as-source",
        "tables of 512 consecutive scalar values mapped to their neighbours, applied to all of them",
        (0..0x110000u32).step_by(512).collect(),
        true,
        |a: &u32, o| {
            let cs: Vec<char> = (*a..*a + 512).filter_map(char::from_u32).collect();
            if cs.is_empty() {
                return Ok(());
            }
            let t: Vec<(char, char)> = cs.iter().enumerate().map(|(i, c)| (*c, cs[(i + 1) % cs.len()])).collect();
            let c = sut("from_table", || Chanoma::from_table(table_of(&t)))?;
            let x: String = cs.iter().flat_map(|c| [*c, 'x', *c]).collect();
            let want = model::convert(&x, &t);
            let got = norm("from_table", &c, &x)?;
            o.weight += cs.len() as u64;
            o.nontrivial = true;
            if got != want {
                let single = cs.iter().find(|k| {
                    let s = k.to_string();
                    norm("from_table", &c, &s).ok() != Some(model::convert(&s, &t))
                });
                let f = diff("table of neighbours", &x, &got, &want);
                return Err(match single {
                    Some(k) => f.single("tables", TableCase {
                        table: t.iter().filter(|(s, _)| s == k).copied().collect(),
                        texts: vec![k.to_string()],
                    }),
                    None => f,
                });
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------ C07

struct SpaceInst {
    dotted: Chanoma,
    trim: Chanoma,
}

fn space_inst(ctx: &Ctx) -> SpaceInst {
    let mk = |name: &str, step: Step| {
        let p = put(&ctx.dir, name, plain_yaml(&[step]));
        match Chanoma::from_config_file(&p) {
            Ok(c) => c,
            Err(e) => crate::run::harness_error(&format!("cannot load the {name} configuration: {e}")),
        }
    };
    SpaceInst { dotted: mk("dotted.yaml", Step::Dotted), trim: mk("trim.yaml", Step::Trim) }
}

fn check_spaces(s: &SpaceInst, x: &str, o: &mut Obs) -> R {
    for (what, c, want) in [("dotted_space_eliminator", &s.dotted, model::dotted(x)), ("trim", &s.trim, model::trim(x))] {
        let got = norm(what, c, x)?;
        if got != want {
            return Err(diff(what, x, &got, &want));
        }
        let again = norm(what, c, &got)?;
        if again != got {
            return Err(diff(&format!("{what} applied twice"), x, &again, &got));
        }
        o.nontrivial_if(want != x);
        o.label_if(want != x, if what == "trim" { "trimmed" } else { "spaces deleted" });
    }
    let v: Vec<char> = x.chars().collect();
    o.label_if(v.windows(3).any(|w| w[1] == ' ' && w[0].is_ascii_alphanumeric() && w[2].is_ascii_alphanumeric()), "space kept");
    text_labels(x, o);
    Ok(())
}

pub fn spaced_text() -> BoxedStrategy<String> {
    let nb: Vec<char> = "azAZ09/:@[`{éα一あＡ²٣_-.\u{3000}\u{a0}\t\n\r\u{2003}\u{200b}\u{301}😀\u{0}".chars().collect();
    let p = prop_oneof![
        4 => select(nb.clone()).prop_map(|c| c.to_string()),
        5 => (0usize..5).prop_map(|n| " ".repeat(n)),
        2 => (select(nb.clone()), 1usize..4, select(nb)).prop_map(|(a, n, b)| format!("{a}{}{b}", " ".repeat(n))),
        1 => gen::piece(),
        1 => (5usize..400).prop_map(|n| " ".repeat(n)),
    ];
    prop_oneof![8 => vec(p, 0..14).prop_map(|v| v.concat()), 1 => gen::text(), 1 => " {0,6}".boxed()].boxed()
}

pub fn c07(ctx: &mut Ctx) {
    let s = space_inst(ctx);
    let rule = "one of the two steps changes the text";
    ctx.prop("texts", ctx.n(80_000, 2_500_000), rule, spaced_text, |x: &String, o| check_spaces(&s, x, o));
    super::raw::spaces(ctx, ctx.n(20_000, 400_000), rule, |x, o| check_spaces(&s, x, o));
    ctx.prop("bulk", ctx.n(240, 6_000), rule, gen::bulk_text, |x: &String, o| check_spaces(&s, x, o));
    // runs of a power of two of spaces between, before and after letters
    let runs: Vec<String> = [" ", " ", " ", "a", "あ", "Z ", " 9", "\u{3000}"].iter().map(|s| s.to_string()).collect();
    ctx.prop("far", ctx.n(800, 12_000), rule, || gen::rep_text(18, runs.clone()), |x: &gen::Rep, o| check_spaces(&s, &x.text(), o));
    ctx.enumerate(
        "run-lengths",
        "every run length up to 1100 and around every multiple of 256 up to 66000, between two letters, after, before and without one",
        (0..66_100u32).filter(|n| *n < 1100 || (n + 2) % 256 < 5).collect(),
        true,
        |n: &u32, o| {
            let sp = " ".repeat(*n as usize);
            for x in [format!("a{sp}b"), format!("{sp}b"), format!("a{sp}"), format!("a{sp}あ"), format!("a{sp}b{sp}c")] {
                o.weight += 1;
                check_spaces(&s, &x, o)?;
            }
            o.labels.clear();
            Ok(())
        },
    );
    ctx.enumerate(
        "scalars",
        "a batch of 2048 scalar values, each as left, right, both and only neighbour of spaces",
        scalar_batches(),
        true,
        |(a, b): &(u32, u32), o| {
            for c in (*a..*b).filter_map(char::from_u32) {
                for x in [
                    format!("{c} a"),
                    format!("a {c}"),
                    format!("{c} {c}"),
                    format!(" {c} "),
                    format!("1  {c}  1"),
                    format!("{c}"),
                    format!("a{c} b"),
                    format!("a {c}b"),
                    format!("a {c} b"),
                ] {
                    o.weight += 1;
                    check_spaces(&s, &x, o).map_err(|f| f.single("texts", &x))?;
                }
                o.nontrivial = true;
            }
            o.labels.clear();
            Ok(())
        },
    );
    let alpha: Vec<char> = " aZ9あ\u{3000}\n".chars().collect();
    let four: Vec<char> = " a0あ".chars().collect();
    let deep = ctx.thorough();
    let mut b: Vec<(u8, usize, String)> = vec![];
    for n in 0..=(if deep { 7 } else { 6 }) {
        b.extend(tuple_batches(&alpha, n).into_iter().map(|(n, s)| (0, n, s)));
    }
    for n in 7..=(if deep { 11 } else { 9 }) {
        b.extend(tuple_batches(&four, n).into_iter().map(|(n, s)| (1, n, s)));
    }
    ctx.enumerate(
        "tuples",
        "every string of the given length and prefix over seven (or four) class representatives",
        b,
        true,
        |(k, n, p): &(u8, usize, String), o| {
            for_tuples(if *k == 0 { &alpha } else { &four }, *n, p, &mut |x| {
                o.weight += 1;
                check_spaces(&s, x, o).map_err(|f| f.single("texts", x))
            })?;
            o.labels.clear();
            o.nontrivial = true;
            Ok(())
        },
    );
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StepCase {
    pub step: Step,
    pub texts: Vec<String>,
    pub style: u64,
}

pub fn step_case(step: BoxedStrategy<Step>, bulk: bool) -> BoxedStrategy<StepCase> {
    (step, any::<u64>())
        .prop_flat_map(move |(step, style)| {
            let cs = gen::step_chars(&step);
            let t = if bulk {
                let c0 = cs[0];
                prop_oneof![
                    gen::bulk_text(),
                    vec((select(vec![255usize, 256, 257, 4096, 65535, 65536, 65537]), gen::text_over(cs, 8)), 1..4)
                        .prop_map(move |v| v.into_iter().map(|(n, t)| c0.to_string().repeat(n) + &t).collect::<String>()),
                ]
                .boxed()
            } else {
                prop_oneof![4 => gen::text_over(cs, 24), 1 => gen::short_text()].boxed()
            };
            (Just(step), vec(t, 1..5), Just(style))
        })
        .prop_map(|(step, texts, style)| StepCase { step, texts, style })
        .boxed()
}

pub fn check_step(dir: &Path, c: &StepCase, o: &mut Obs) -> R {
    let y = YamlConf { steps: Some(vec![c.step.clone()]), items: Items::Absent, items_first: false, style: c.style };
    let p = put(dir, "step.yaml", y.render());
    let n = load(&p)?;
    for x in &c.texts {
        let want = model::apply(&c.step, x);
        let got = norm("step", &n, x)?;
        if got != want {
            return Err(diff(&format!("{:?}", c.step), x, &got, &want));
        }
        let again = norm("step", &n, &got)?;
        if again != got {
            return Err(diff(&format!("{:?} applied twice", c.step), x, &again, &got));
        }
        o.nontrivial_if(want != *x);
        o.label_if(want != *x, "changed");
        text_labels(x, o);
    }
    Ok(())
}

pub fn reducer() -> BoxedStrategy<Step> {
    prop_oneof![3 => select(gen::pool()), 3 => gen::ch(), 1 => any::<char>()].prop_map(Step::Reduce).boxed()
}
pub fn eliminator() -> BoxedStrategy<Step> {
    prop_oneof![6 => gen::charset(8), 1 => gen::charset(200)].prop_map(Step::Elim).boxed()
}

pub fn c08(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    let rule = "the step changes at least one of the texts";
    super::raw::steps(ctx, ctx.n(10_000, 200_000), rule);
    ctx.prop("eliminator", ctx.n(20_000, 500_000), rule, || step_case(eliminator(), false), |c, o| check_step(&dir, c, o));
    ctx.prop("reducer", ctx.n(20_000, 500_000), rule, || step_case(reducer(), false), |c, o| check_step(&dir, c, o));
    ctx.prop(
        "bulk",
        ctx.n(240, 6_000),
        rule,
        || step_case(prop_oneof![reducer(), eliminator()].boxed(), true),
        |c, o| check_step(&dir, c, o),
    );
    ctx.prop(
        "far",
        ctx.n(400, 6_000),
        rule,
        || {
            prop_oneof![reducer(), eliminator()].prop_flat_map(|step| {
                let own: Vec<String> = gen::step_chars(&step).into_iter().take(4).map(|c| c.to_string()).collect();
                (Just(step), gen::rep_text(18, own), any::<u64>())
            })
        },
        |(step, x, style): &(Step, gen::Rep, u64), o| {
            check_step(&dir, &StepCase { step: step.clone(), texts: vec![x.text()], style: *style }, o)
        },
    );
    ctx.prop(
        "huge-sets",
        ctx.n(16, 400),
        "the eliminator, of thousands to tens of thousands of characters, changes the text",
        || (gen::huge(50_000), any::<u64>()),
        |(h, style), o| {
            let set = h.sources();
            let x: String = set.iter().step_by(2).flat_map(|c| ['a', *c, 'か']).chain(set.iter().copied()).collect();
            o.label_if(set.len() > 16384, "over 16384 characters");
            check_step(&dir, &StepCase { step: Step::Elim(set), texts: vec![x], style: *style }, o)
        },
    );
    let alpha: Vec<char> = "aaあ漢😀".chars().skip(1).collect();
    let deep = ctx.thorough();
    let steps: Vec<Step> = alpha
        .iter()
        .map(|c| Step::Reduce(*c))
        .chain(alpha.iter().map(|c| Step::Elim(vec![*c])))
        .chain([Step::Elim(vec!['a', '😀']), Step::Elim(alpha.clone())])
        .collect();
    ctx.enumerate(
        "small-worlds",
        "each of the steps over four characters of 1, 3 and 4 bytes, on every text of up to 7 (thorough 9) characters over them",
        steps,
        true,
        |s: &Step, o| {
            let n = load(&put(&dir, "s.yaml", plain_yaml(&[s.clone()])))?;
            for len in 0..=(if deep { 9 } else { 7 }) {
                for_tuples(&alpha, len, "", &mut |x| {
                    o.weight += 1;
                    let want = model::apply(s, x);
                    let got = norm("step", &n, x)?;
                    if got != want {
                        return Err(diff(&format!("{s:?}"), x, &got, &want).single(
                            if matches!(s, Step::Reduce(_)) { "reducer" } else { "eliminator" },
                            StepCase { step: s.clone(), texts: vec![x.to_string()], style: 2 },
                        ));
                    }
                    Ok(())
                })?;
            }
            o.nontrivial = true;
            Ok(())
        },
    );
    ctx.enumerate(
        "every-scalar",
        "every scalar value as the configured character of both steps, on runs of it and its neighbours (64 values per case)",
        (0..0x110000u32).step_by(64).filter(|a| deep || *a < 0x3400 || *a >= 0xfe00 && *a < 0x10400 || a % 0x1000 == 0).collect(),
        deep,
        |a: &u32, o| {
            for c in (*a..*a + 64).filter_map(char::from_u32) {
                let n = char::from_u32(c as u32 + 1).unwrap_or('x');
                let x = format!("{c}{c}{c}{n}{n}{c}a{c}{c} {n}{c}");
                for s in [Step::Reduce(c), Step::Elim(vec![c])] {
                    o.weight += 1;
                    let case = StepCase { step: s.clone(), texts: vec![x.clone()], style: 2 };
                    let sub = if matches!(s, Step::Reduce(_)) { "reducer" } else { "eliminator" };
                    check_step(&dir, &case, o).map_err(|f| f.single(sub, &case))?;
                }
            }
            o.labels.clear();
            Ok(())
        },
    );
}

// ------------------------------------------------------------------ C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LigCase {
    pub map: Vec<(String, String)>,
    pub texts: Vec<String>,
    pub styles: Vec<u64>,
}

pub fn lig_case() -> BoxedStrategy<LigCase> {
    let alpha: Vec<char> = "abcか゛ハ゜".chars().collect();
    let a2 = alpha;
    let map = prop_oneof![8 => gen::interacting_ligatures(), 1 => gen::safe_ligatures(6), 2 => gen::long_ligatures()];
    (map, vec(any::<u64>(), 3..4))
        .prop_flat_map(move |(map, styles)| {
            let srcs: Vec<String> = map.iter().map(|(f, _)| f.clone()).collect();
            let all: Vec<String> = map.iter().flat_map(|(f, t)| [f.clone(), t.clone()]).collect();
            let near = (select(srcs.clone()), any::<u32>(), gen::ch()).prop_map(|(s, k, c)| gen::near_miss(&s, k, c));
            let text = vec(
                prop_oneof![
                    5 => select(srcs),
                    2 => near,
                    2 => select(all),
                    3 => select(a2.clone()).prop_map(|c| c.to_string()),
                    1 => gen::piece(),
                ],
                0..12,
            )
            .prop_map(|v| v.concat());
            (Just(map), vec(text, 1..4), Just(styles))
        })
        .prop_map(|(map, texts, styles)| LigCase { map, texts, styles })
        .boxed()
}

fn lig_instances(dir: &Path, map: &[(String, String)], styles: &[u64], copies: usize) -> Result<Vec<Chanoma>, Fail> {
    let mut v = vec![];
    for (i, s) in styles.iter().enumerate() {
        let mut m = map.to_vec();
        if !m.is_empty() {
            let n = m.len();
            m.rotate_left(i % n);
            if i % 2 == 1 {
                m.reverse();
            }
        }
        let y = YamlConf { steps: Some(vec![Step::Lig(m)]), items: Items::Absent, items_first: false, style: *s };
        let p = put(dir, "lig.yaml", y.render());
        for _ in 0..copies {
            v.push(load(&p)?);
        }
    }
    Ok(v)
}

pub fn check_lig(dir: &Path, c: &LigCase, o: &mut Obs) -> R {
    let inst = lig_instances(dir, &c.map, &c.styles, 2)?;
    for x in &c.texts {
        let allowed = model::ligature_results(x, &c.map);
        let first = norm("ligature_translator", &inst[0], x)?;
        for n in &inst[1..] {
            let g = norm("ligature_translator", n, x)?;
            if g != first {
                return Err(diff(&format!("two instances of the same ligature map {:?}", c.map), x, &g, &first));
            }
        }
        if allowed.len() == 1 {
            let want = allowed.into_iter().next().unwrap();
            if first != want {
                return Err(diff(&format!("ligature map {:?}", c.map), x, &first, &want));
            }
            o.label_if(want != *x, "replaced, order does not matter");
            o.nontrivial_if(want != *x);
        } else {
            o.label("order matters");
            o.nontrivial = true;
        }
        // text between the occurrences is kept: without any source in it a text is unchanged
        if c.map.iter().all(|(f, _)| !x.contains(f.as_str())) && first != *x {
            return Err(diff(&format!("no sequence of {:?} occurs", c.map), x, &first, x));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BigLig {
    n: usize,
    k: u32,
    picks: Vec<u32>,
    style: u64,
}

fn check_big_lig(dir: &Path, c: &BigLig, o: &mut Obs) -> R {
    // sources: (X_i, Y_j) from disjoint blocks; targets from a third block, 1 to 3 characters
    // (a deletion could bring a first and a second character together)
    let src = |i: u32| format!("{}{}", model::uni(0x4e00 + i % 97), model::uni(0x6000 + i / 97));
    let map: Vec<(String, String)> = (0..c.n as u32)
        .map(|i| {
            let t: String = (0..=(i.wrapping_mul(c.k | 1) >> 3) % 3).map(|j| model::uni(0x30000 + i + j)).collect();
            (src(i), t)
        })
        .collect();
    let x: String = c
        .picks
        .iter()
        .map(|p| match p % 5 {
            0 => model::uni(0x4e00 + p / 5 % 97).to_string(),
            1 => model::uni(0x6000 + p / 5 % 30).to_string(),
            _ => src(p / 5 % (c.n as u32 + 5)),
        })
        .collect();
    let inst = lig_instances(dir, &map, &[c.style, c.style ^ 0x55], 1)?;
    let m: std::collections::HashMap<String, String> = map.iter().cloned().collect();
    let mut want = String::new();
    let v: Vec<char> = x.chars().collect();
    let mut i = 0;
    while i < v.len() {
        if i + 1 < v.len() {
            if let Some(t) = m.get(&format!("{}{}", v[i], v[i + 1])) {
                want.push_str(t);
                i += 2;
                continue;
            }
        }
        want.push(v[i]);
        i += 1;
    }
    for n in &inst {
        let g = norm("ligature_translator", n, &x)?;
        if g != want {
            return Err(diff(&format!("{} ligatures", c.n), &x, &g, &want));
        }
    }
    o.nontrivial_if(want != x);
    o.label_if(c.n > 1000, "over 1000 entries");
    Ok(())
}

pub fn c09(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    ctx.prop(
        "maps",
        ctx.n(25_000, 600_000),
        "a replacement happens; results of every order of application compared when they agree, else only across instances",
        lig_case,
        |c, o| check_lig(&dir, c, o),
    );
    super::raw::ligatures(ctx, ctx.n(10_000, 200_000), "a replacement happens");
    ctx.prop(
        "big-maps",
        ctx.n(120, 3_000),
        "a replacement happens",
        || {
            (prop_oneof![12 => 1usize..40, 12 => 200usize..2500, 1 => 2500usize..30_000], any::<u32>(), vec(any::<u32>(), 0..300), any::<u64>())
                .prop_map(|(n, k, picks, style)| BigLig { n, k, picks, style })
        },
        |c, o| check_big_lig(&dir, c, o),
    );
    ctx.prop(
        "far",
        ctx.n(240, 4_000),
        "a replacement happens; every order of application compared",
        || {
            let one = vec((select("aか゛ハ".chars().collect::<Vec<_>>()), 1usize..3), 1..3)
                .prop_map(|v| v.into_iter().map(|(c, n)| c.to_string().repeat(n)).collect::<String>());
            let single = (one, vec(select("aがX😀".chars().collect::<Vec<_>>()), 0..3)).prop_map(|(f, t)| vec![(f, t.into_iter().collect::<String>())]);
            prop_oneof![single.boxed(), gen::safe_ligatures(4)].prop_flat_map(|map| {
                let own: Vec<String> = map.iter().map(|(f, _)| f.clone()).collect();
                (Just(map), gen::rep_text(18, own), any::<u64>())
            })
        },
        |(map, x, style): &(Vec<(String, String)>, gen::Rep, u64), o| {
            check_lig(&dir, &LigCase { map: map.clone(), texts: vec![x.text()], styles: vec![*style] }, o)
        },
    );
    let words: Vec<String> = {
        let mut w = vec![];
        for n in 1..=2 {
            let _ = for_tuples(&['a', 'b'], n, "", &mut |s| {
                w.push(s.to_string());
                Ok(())
            });
        }
        w
    };
    let targets = ["", "a", "b", "X", "ab"];
    let mut maps: Vec<Vec<(String, String)>> = vec![];
    for (i, f) in words.iter().enumerate() {
        for t in targets {
            maps.push(vec![(f.clone(), t.to_string())]);
            for f2 in &words[i + 1..] {
                for t2 in targets {
                    maps.push(vec![(f.clone(), t.to_string()), (f2.clone(), t2.to_string())]);
                }
            }
        }
    }
    ctx.enumerate(
        "small-worlds",
        "every map of one or two entries with sources of up to two and targets of up to two letters, on every text of up to 6 letters over a, b, c",
        maps,
        true,
        |m: &Vec<(String, String)>, o| {
            let inst = lig_instances(&dir, m, &[2, 2], 1)?;
            for n in 0..=6 {
                for_tuples(&['a', 'b', 'c'], n, "", &mut |x| {
                    o.weight += 1;
                    let allowed = model::ligature_results(x, m);
                    let a = norm("ligature_translator", &inst[0], x)?;
                    let b = norm("ligature_translator", &inst[1], x)?;
                    let case = || LigCase { map: m.clone(), texts: vec![x.to_string()], styles: vec![1, 2, 3] };
                    if a != b {
                        return Err(diff(&format!("two instances of {m:?}"), x, &a, &b).single("maps", case()));
                    }
                    if allowed.len() == 1 && !allowed.contains(&a) {
                        return Err(diff(&format!("ligature map {m:?}"), x, &a, allowed.iter().next().unwrap()).single("maps", case()));
                    }
                    Ok(())
                })?;
            }
            o.nontrivial = true;
            Ok(())
        },
    );
}
