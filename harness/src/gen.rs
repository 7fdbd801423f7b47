//! Generators.

use crate::model::{self, Step};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

/// Characters some stage of the library gives a meaning to, and their close neighbours.
pub fn interesting() -> &'static Vec<char> {
    static V: OnceLock<Vec<char>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<char> = vec![];
        for cp in 0..0x30000u32 {
            if let Some(c) = char::from_u32(cp) {
                if let Some(t) = model::neologdn_char(c).or_else(|| model::preset(c)) {
                    v.push(c);
                    v.push(t);
                }
            }
        }
        v.extend(model::TILDES);
        v.extend(model::CHOONPUS);
        v.extend(model::HYPHENS);
        v.extend(model::MARKS);
        for b in model::bases() {
            v.push(b);
            for m in model::MARKS {
                v.extend(model::join(b, m));
            }
        }
        v.extend(edges());
        v.sort();
        v.dedup();
        v
    })
}

/// Neighbours of the boundaries, other white space, combining marks, unusual widths.
pub fn edges() -> Vec<char> {
    "\u{0}\t\n\r\u{b}\u{c}\u{7f}\u{85}\u{a0}\u{ad}\u{2003}\u{2009}\u{200b}\u{200d}\u{2028}\u{202f}\u{205f}\u{feff}\u{fffd}\
     \u{3099}\u{309a}\u{ff9e}\u{ff9f}\u{ff70}\u{30fc}\u{3000}\u{20} /09:@AZ[`az{=\u{ff1d}\u{e9}\u{df}\u{3b1}\u{4e00}\u{b2}\u{663}\u{2070}\u{ff00}\u{ff5f}\
     \u{ff60}\u{ffa0}\u{ffe0}\u{ffe3}\u{ffe6}\u{5c}\u{a5}\u{a6}\u{22}\u{27}\u{ff02}\u{ff07}\u{2018}\u{201c}\u{30fb}\u{30f0}\u{30f2}\u{30f7}\u{30fe}\u{309e}\
     \u{3094}\u{30f4}\u{301}\u{e000}\u{d7ff}\u{10000}\u{1f600}\u{1f1ef}\u{10ffff}\u{fe0f}\u{2e3a}\u{2e3b}\u{3192}\u{2013}\u{2014}"
        .chars()
        .collect()
}

/// One representative of every class the stages distinguish.
pub fn representatives() -> Vec<char> {
    " aZ5\u{4e00}\u{ff21}\u{ff11}\u{3000}\u{30fc}\u{ff70}\u{2014}\u{2010}-\u{ff0d}~\u{301c}\u{ff5e}\u{223c}かカハば\u{ff76}\u{ff8a}う\u{309b}\u{309c}\u{ff9e}\u{ff1d}\n\u{ff65}.\u{1f600}"
        .chars()
        .collect()
}

pub fn ch() -> BoxedStrategy<char> {
    prop_oneof![
        10 => select(interesting().clone()),
        2 => select(edges()),
        2 => prop::char::range('\u{20}', '\u{7e}'),
        1 => prop::char::range('\u{3000}', '\u{30ff}'),
        1 => prop::char::range('\u{ff00}', '\u{ffef}'),
        1 => any::<char>(),
    ]
    .boxed()
}

/// A small piece of text built so that stages interact.
pub fn piece() -> BoxedStrategy<String> {
    let rep = representatives();
    let bases = model::bases();
    let half: Vec<char> = (0xff61..=0xff9f).map(model::uni).collect();
    let marks = vec!['\u{309b}', '\u{309c}', '\u{ff9e}', '\u{ff9f}', '\u{3099}', '\u{309a}'];
    let tildes = model::TILDES.to_vec();
    let spaces = vec![' ', '\u{3000}', ' ', '\t', '\u{a0}'];
    let longs: Vec<char> = model::CHOONPUS.iter().copied().chain([model::CHOON, '-', '\u{2010}', '\u{ff0d}']).collect();
    let sp = spaces.clone();
    prop_oneof![
        6 => ch().prop_map(|c| c.to_string()),
        5 => select(rep).prop_map(|c| c.to_string()),
        3 => (select(bases.clone()), select(marks.clone())).prop_map(|(b, m)| format!("{b}{m}")),
        1 => (select(half), select(marks.clone())).prop_map(|(b, m)| format!("{b}{m}")),
        2 => (select(bases), vec(prop_oneof![select(tildes.clone()), Just(' ')], 1..3), select(marks))
            .prop_map(|(b, t, m)| format!("{b}{}{m}", t.into_iter().collect::<String>())),
        2 => (select(longs), 1usize..5).prop_map(|(c, n)| c.to_string().repeat(n)),
        2 => (select(spaces), 1usize..5).prop_map(|(c, n)| c.to_string().repeat(n)),
        2 => ("[a-zA-Z0-9]{1,4}", select(sp), 1usize..3, "[a-zA-Z0-9]{1,4}")
            .prop_map(|(a, s, n, b)| format!("{a}{}{b}", s.to_string().repeat(n))),
        1 => "[a-z0-9]{1,6}",
        1 => (select(tildes), 1usize..4).prop_map(|(c, n)| c.to_string().repeat(n)),
        1 => (ch(), 2usize..60).prop_map(|(c, n)| c.to_string().repeat(n)),
    ]
    .boxed()
}

/// Mostly short texts, sometimes a few hundred pieces.
pub fn text() -> BoxedStrategy<String> {
    prop_oneof![
        1 => Just(String::new()),
        40 => vec(piece(), 0..7).prop_map(|v| v.concat()),
        20 => vec(piece(), 4..40).prop_map(|v| v.concat()),
        2 => vec(piece(), 100..400).prop_map(|v| v.concat()),
    ]
    .boxed()
}

pub fn short_text() -> BoxedStrategy<String> {
    prop_oneof![1 => Just(String::new()), 12 => vec(piece(), 0..10).prop_map(|v| v.concat())].boxed()
}

/// Long texts: repeated blocks and very long runs, well past any buffer size or small counter.
pub fn bulk_text() -> BoxedStrategy<String> {
    let run = (select(representatives()), prop_oneof![
        Just(127usize), Just(128), Just(255), Just(256), Just(257), Just(1000), Just(4095), Just(4096), Just(4097),
        Just(32767), Just(65535), Just(65536), Just(70001)
    ])
        .prop_map(|(c, n)| c.to_string().repeat(n));
    let block = (vec(piece(), 1..30), prop_oneof![Just(1usize), 2usize..8, 100usize..400, 1000usize..1500])
        .prop_map(|(p, n)| {
            let b = p.concat();
            let n = n.min(400_000 / b.len().max(1) + 1);
            b.repeat(n)
        });
    vec(prop_oneof![2 => run, 3 => block, 4 => vec(piece(), 1..6).prop_map(|v| v.concat())], 1..5)
        .prop_map(|v| v.concat())
        .boxed()
}

/// Text over a given alphabet mixed with anything else.
pub fn text_over(cs: Vec<char>, max: usize) -> BoxedStrategy<String> {
    if cs.is_empty() {
        return short_text();
    }
    let cs2 = cs.clone();
    vec(
        prop_oneof![
            8 => select(cs).prop_map(|c| c.to_string()),
            2 => (select(cs2), 2usize..6).prop_map(|(c, n)| c.to_string().repeat(n)),
            2 => ch().prop_map(|c| c.to_string()),
            2 => select(vec![" ".to_string(), "a".into(), "\u{30fc}".into(), "が".into()]),
        ],
        0..max,
    )
    .prop_map(|v| v.concat())
    .boxed()
}

/// A small pool mixing encoded widths, so that sources and targets collide and chain.
pub fn pool() -> Vec<char> {
    "abcAé゛ß\u{7ff}\u{800}あア漢ー\u{ffff}𝒳😀\u{10ffff} ~-".chars().collect()
}

/// Conversion entries with distinct sources.
pub fn conv(max: usize) -> BoxedStrategy<Vec<(char, char)>> {
    let small = vec((select(pool()), select(pool())), 0..max);
    let wide = vec((ch(), ch()), 0..max);
    let mixed = vec((prop_oneof![select(pool()), ch()], prop_oneof![select(pool()), ch(), any::<char>()]), 0..max);
    // what the two file formats give a meaning to
    let syntax: Vec<char> = "#\"\\'`,;:|-?*&!%@{}[]<>=~/.0n\t\n\r \u{feff}\u{85}\u{2028}\u{a0}".chars().collect();
    let syntax = vec((select(syntax.clone()), prop_oneof![select(syntax), select(pool())]), 0..max);
    prop_oneof![3 => small, 1 => wide, 2 => mixed, 1 => syntax]
        .prop_map(|v| {
            let mut seen = std::collections::HashSet::new();
            v.into_iter().filter(|(f, _)| seen.insert(*f)).collect()
        })
        .boxed()
}

/// Thousands of entries with distinct sources: rotations of a code point range (swaps and chains).
pub fn conv_big() -> BoxedStrategy<Vec<(char, char)>> {
    (select(vec![0x61u32, 0x391, 0x4e00, 0x20000, 0xac00]), 200u32..3000, 0u32..3000)
        .prop_map(|(base, n, rot)| {
            (0..n).map(|i| (model::uni(base + i), model::uni(base + (i + rot) % n))).collect()
        })
        .boxed()
}

/// Tens of thousands of entries with distinct sources, spread over all of Unicode.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Huge {
    pub n: u32,
    pub base: u32,
    pub stride: u32,
    pub rot: u32,
}

impl Huge {
    pub fn sources(&self) -> Vec<char> {
        let mut seen = std::collections::HashSet::new();
        (0..self.n as u64)
            .filter_map(|i| char::from_u32(((self.base as u64 + i * self.stride as u64) % 0x110000) as u32))
            .filter(|c| seen.insert(*c))
            .collect()
    }
    pub fn pairs(&self) -> Vec<(char, char)> {
        let s = self.sources();
        (0..s.len()).map(|i| (s[i], s[(i + self.rot as usize) % s.len()])).collect()
    }
}

pub fn huge(max: u32) -> BoxedStrategy<Huge> {
    let top = 31 - max.leading_zeros();
    let n = (11u32..=top).prop_flat_map(move |k| (1u32 << k)..=max.min((1 << (k + 1)) - 1));
    (n, prop_oneof![Just(0x20u32), 0u32..0x110000], prop_oneof![4 => Just(1u32), 1 => Just(3), 1 => 5u32..1000], 0u32..0x110000)
        .prop_map(|(n, base, stride, rot)| Huge { n, base, stride, rot })
        .boxed()
}

/// Ligature entries whose result is determined whatever the order: sources are a first character and a
/// second character of disjoint classes, targets use neither class. A deletion can bring a first and a
/// second character together, so only the target of a lone entry may be empty.
pub fn safe_ligatures(max: usize) -> BoxedStrategy<Vec<(String, String)>> {
    let first: Vec<char> = "かカxハ山𠮟".chars().collect();
    let second: Vec<char> = "゛゜ýー川".chars().filter(|c| *c != 'ー').collect();
    let target: Vec<char> = "がぱz😀ん".chars().collect();
    vec((select(first), select(second), vec(select(target), 0..3)), 1..max)
        .prop_map(|v| {
            let mut seen = std::collections::HashSet::new();
            let mut m: Vec<(String, String)> = v
                .into_iter()
                .map(|(a, b, t)| (format!("{a}{b}"), t.into_iter().collect::<String>()))
                .filter(|(f, _)| seen.insert(f.clone()))
                .collect();
            if m.len() > 1 {
                m.iter_mut().filter(|(_, t)| t.is_empty()).for_each(|(_, t)| t.push('z'));
            }
            m
        })
        .boxed()
}

/// Ligature entries that feed, contain or undo one another: their result depends on the order of the entries.
pub fn interacting_ligatures() -> BoxedStrategy<Vec<(String, String)>> {
    let word = |lo: usize, hi: usize, a: &str| {
        vec(select(a.chars().collect::<Vec<_>>()), lo..hi).prop_map(|v| v.into_iter().collect::<String>())
    };
    prop_oneof![
        3 => vec((word(1, 4, "abcか゛ハ゜"), word(0, 4, "abcか゛ハ゜")), 1..5),
        2 => vec((word(1, 3, "ab"), word(0, 3, "abX")), 1..5),
        2 => vec((word(1, 4, "abcか゛ハ゜"), word(0, 4, "XYZ😀")), 1..6),
        1 => vec((piece().prop_filter("non-empty", |s| !s.is_empty()), piece()), 1..4),
    ]
    .prop_map(|v| {
        let mut seen = std::collections::HashSet::new();
        v.into_iter().filter(|(f, _)| seen.insert(f.clone())).collect()
    })
    .boxed()
}

/// Entries with sources of up to dozens of characters, with common beginnings and ends.
pub fn long_ligatures() -> BoxedStrategy<Vec<(String, String)>> {
    let w = |n: usize| vec(select("abcdefghijklmnopqrstuvwxyzかきくけこ゛゜山川😀".chars().collect::<Vec<_>>()), 1..n).prop_map(|v| v.into_iter().collect::<String>());
    let len = prop_oneof![2 => 2usize..12, 2 => 12usize..40, 1 => 40usize..300];
    (w(40), len.prop_flat_map(move |n| vec((w(n), w(5), any::<u8>()), 1..4)))
        .prop_map(|(common, v)| {
            let mut seen = std::collections::HashSet::new();
            v.into_iter()
                .map(|(f, t, k)| match k % 4 {
                    0 => (format!("{common}{f}"), t),
                    1 => (format!("{f}{common}"), t),
                    _ => (f, t),
                })
                .filter(|(f, _)| seen.insert(f.clone()))
                .collect()
        })
        .boxed()
}

/// Something close to `s`: a part of it, or `s` with one character replaced, left out, doubled or put in.
pub fn near_miss(s: &str, k: u32, c: char) -> String {
    let mut v: Vec<char> = s.chars().collect();
    if v.is_empty() {
        return c.to_string();
    }
    let at = (k >> 3) as usize % v.len();
    match k % 8 {
        0 | 1 => v.truncate(at),
        2 => v = v.split_off(at),
        3 | 4 => v[at] = c,
        5 => drop(v.remove(at)),
        6 => v.insert(at, v[at]),
        _ => v.insert(at, c),
    }
    v.into_iter().collect()
}

pub fn charset(max: usize) -> BoxedStrategy<Vec<char>> {
    vec(prop_oneof![2 => select(pool()), 2 => ch()], 1..max).boxed()
}

/// A step a configuration file can name.
pub fn file_step() -> BoxedStrategy<Step> {
    prop_oneof![
        Just(Step::Neologdn),
        conv(8).prop_map(Step::Conv),
        charset(6).prop_map(Step::Elim),
        prop_oneof![Just('\u{30fc}'), Just(' '), select(pool()), ch()].prop_map(Step::Reduce),
        Just(Step::Dotted),
        safe_ligatures(5).prop_map(Step::Lig),
        Just(Step::Trim),
    ]
    .boxed()
}

pub fn step_rank(s: &Step) -> usize {
    match s {
        Step::Preset => 0,
        Step::Neologdn => 1,
        Step::Conv(_) => 2,
        Step::Elim(_) => 3,
        Step::Reduce(_) => 4,
        Step::Dotted => 5,
        Step::Lig(_) => 6,
        Step::Trim => 7,
    }
}

/// Modifier section of one file: every kind at most once (the keys of a YAML mapping are distinct).
pub fn file_steps(max: usize) -> BoxedStrategy<Vec<Step>> {
    vec(file_step(), 0..max)
        .prop_map(|v| {
            let mut seen = std::collections::HashSet::new();
            v.into_iter().filter(|s| seen.insert(step_rank(s))).collect()
        })
        .boxed()
}

/// Characters a step reacts to.
pub fn step_chars(s: &Step) -> Vec<char> {
    match s {
        Step::Conv(t) => t.iter().flat_map(|(a, b)| [*a, *b]).collect(),
        Step::Elim(c) => c.clone(),
        Step::Reduce(c) => vec![*c],
        Step::Lig(m) => m.iter().flat_map(|(a, b)| a.chars().chain(b.chars()).collect::<Vec<_>>()).collect(),
        Step::Dotted | Step::Trim => vec![' ', ' ', 'a', 'あ'],
        Step::Preset => vec!['\u{ff21}', '\u{ff76}', '\u{3000}'],
        Step::Neologdn => vec!['\u{ff76}', '゛', 'ー', '~', ' ', 'a'],
    }
}

pub fn steps_chars(s: &[Step]) -> Vec<char> {
    s.iter().flat_map(step_chars).collect()
}

/// A long text in short form: strings and how often each is repeated.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rep(pub Vec<(String, u32)>);

impl Rep {
    pub fn text(&self) -> String {
        self.0.iter().map(|(s, n)| s.repeat(*n as usize)).collect()
    }
}

/// Texts in which something interesting stands at, or next to, a place that is a power of two away from the
/// start or from the thing before it, counted in characters or in bytes: 2^7 up to 2^`max`.
pub fn rep_text(max: u32, extra: Vec<String>) -> BoxedStrategy<Rep> {
    let fill: Vec<char> = "あa漢é😀\n".chars().collect();
    let stop: Vec<char> = " ー~か\u{3000}-\u{ff76}".chars().collect();
    let count = move || {
        (prop_oneof![12 => 7u32..=max.min(12), 12 => max.min(13)..=max.min(17), 2 => max.min(18)..=max], 0u32..2, -3i32..4)
            .prop_map(|(k, half, d)| ((1i64 << k) + half as i64 * (1i64 << (k - 1)) + d as i64) as u32)
    };
    let filler = (prop_oneof![8 => select(fill), 3 => select(stop), 1 => ch()], count(), any::<bool>())
        .prop_map(|(c, n, bytes)| (c.to_string(), if bytes { n / c.len_utf8() as u32 } else { n }));
    let short = vec(piece(), 0..5).prop_map(|v| (v.concat(), 1));
    let block = (vec(piece(), 1..12), count()).prop_map(|(p, n)| {
        let b = p.concat();
        let n = n / b.chars().count().max(1) as u32 + 1;
        (b, n)
    });
    let own = if extra.is_empty() { short.clone().boxed() } else {
        (select(extra), count(), any::<bool>()).prop_map(|(s, n, once)| (s, if once { 1 } else { n })).boxed()
    };
    let part = prop_oneof![4 => filler, 5 => short, 1 => block, 4 => own];
    let cap = 3usize << max;
    vec(part, 1..7)
        .prop_map(move |v| {
            let mut left = cap;
            Rep(v.into_iter()
                .map(|(s, n)| {
                    let n = n.min((left / s.len().max(1)) as u32);
                    left -= s.len() * n as usize;
                    (s, n)
                })
                .collect())
        })
        .boxed()
}
