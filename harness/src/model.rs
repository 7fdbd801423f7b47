//! Reference model of chanoma, written from the README, the documented constant lists and Unicode
//! arithmetic. It shares no code and no table with the crate under test.

use serde::{Deserialize, Serialize};

pub const MARKS: [char; 2] = ['\u{309B}', '\u{309C}'];
/// ~ ∼ ∾ 〜 〰 ～
pub const TILDES: [char; 6] = ['~', '\u{223C}', '\u{223E}', '\u{301C}', '\u{3030}', '\u{FF5E}'];
/// characters unified to the long vowel mark
pub const CHOONPUS: [char; 6] = ['\u{FE63}', '\u{FF70}', '\u{2014}', '\u{2015}', '\u{2500}', '\u{2501}'];
/// characters unified to '-'
pub const HYPHENS: [char; 11] = [
    '\u{2D7}', '\u{58A}', '\u{2010}', '\u{2011}', '\u{2012}', '\u{2013}', '\u{2043}', '\u{207B}', '\u{208B}',
    '\u{2212}', '\u{FF0D}',
];
pub const CHOON: char = '\u{30FC}';

/// U+FF61.. in code order with U+FF70 left out.
const HALF_KANA: &str = "。「」、・ヲァィゥェォャュョッ\u{0}アイウエオカキクケコサシスセソタチツテトナニヌネノハヒフヘホマミムメモヤユヨラリルレロワン";

pub fn uni(cp: u32) -> char {
    char::from_u32(cp).expect("model code point")
}

pub fn digits(c: char) -> Option<char> {
    matches!(c as u32, 0xFF10..=0xFF19).then(|| uni(c as u32 - 0xFEE0))
}
pub fn alphabets(c: char) -> Option<char> {
    matches!(c as u32, 0xFF21..=0xFF3A | 0xFF41..=0xFF5A).then(|| uni(c as u32 - 0xFEE0))
}
pub fn punctuations(c: char) -> Option<char> {
    match c as u32 {
        0x201D => Some('"'),
        0x2019 => Some('\''),
        0x301C => Some('~'),
        0xFFE5 => Some('\u{A5}'),
        0xFF02 | 0xFF07 | 0xFF5E => None,
        0xFF01..=0xFF0F | 0xFF1A..=0xFF20 | 0xFF3B..=0xFF40 | 0xFF5B..=0xFF5D => Some(uni(c as u32 - 0xFEE0)),
        _ => None,
    }
}
pub fn kanas(c: char) -> Option<char> {
    match c as u32 {
        0x3000 => Some(' '),
        cp @ 0xFF61..=0xFF9D => HALF_KANA.chars().nth((cp - 0xFF61) as usize).filter(|c| *c != '\0'),
        _ => None,
    }
}
pub fn preset(c: char) -> Option<char> {
    digits(c).or_else(|| alphabets(c)).or_else(|| punctuations(c)).or_else(|| kanas(c))
}

/// Conversion stage of neologdn.
pub fn neologdn_char(c: char) -> Option<char> {
    if c == '\u{FF1D}' {
        None
    } else if CHOONPUS.contains(&c) {
        Some(CHOON)
    } else if HYPHENS.contains(&c) {
        Some('-')
    } else {
        preset(c)
    }
}

/// base + mark -> joined kana
pub fn join(base: char, mark: char) -> Option<char> {
    let cp = base as u32;
    let kata = (0x30A1..=0x30FA).contains(&cp);
    let h = if kata { cp - 0x60 } else { cp };
    let off = if kata { 0x60 } else { 0 };
    let voiced = match h {
        0x3046 => Some(0x3094),
        0x304B | 0x304D | 0x304F | 0x3051 | 0x3053 | 0x3055 | 0x3057 | 0x3059 | 0x305B | 0x305D | 0x305F | 0x3061 => {
            Some(h + 1)
        }
        0x3064 | 0x3066 | 0x3068 => Some(h + 1),
        0x306F | 0x3072 | 0x3075 | 0x3078 | 0x307B => Some(h + 1),
        _ => None,
    };
    let semi = match h {
        0x306F | 0x3072 | 0x3075 | 0x3078 | 0x307B => Some(h + 2),
        _ => None,
    };
    match mark {
        '\u{309B}' => voiced.map(|v| uni(v + off)),
        '\u{309C}' => semi.map(|v| uni(v + off)),
        _ => None,
    }
}

pub fn bases() -> Vec<char> {
    (0x3041..=0x30FA).map(uni).filter(|c| join(*c, '\u{309B}').is_some()).collect()
}

pub fn dotted(s: &str) -> String {
    let v: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < v.len() {
        if v[i] != ' ' {
            out.push(v[i]);
            i += 1;
            continue;
        }
        let mut j = i;
        while j < v.len() && v[j] == ' ' {
            j += 1;
        }
        if i > 0 && j < v.len() && v[i - 1].is_ascii_alphanumeric() && v[j].is_ascii_alphanumeric() {
            out.push(' ');
        }
        i = j;
    }
    out
}

pub fn reduce(s: &str, c: char) -> String {
    let mut out = String::new();
    let mut last = None;
    for x in s.chars() {
        if !(x == c && last == Some(c)) {
            out.push(x);
        }
        last = Some(x);
    }
    out
}

pub fn trim(s: &str) -> String {
    let v: Vec<char> = s.chars().collect();
    let mut a = 0;
    let mut b = v.len();
    while a < b && v[a] == ' ' {
        a += 1;
    }
    while b > a && v[b - 1] == ' ' {
        b -= 1;
    }
    v[a..b].iter().collect()
}

pub fn eliminate(s: &str, cs: &[char]) -> String {
    s.chars().filter(|c| !cs.contains(c)).collect()
}

/// Simultaneous replacement. Sources are distinct in every generated table with a defined meaning.
pub fn convert(s: &str, t: &[(char, char)]) -> String {
    let m: std::collections::HashMap<char, char> = t.iter().copied().collect();
    s.chars().map(|c| *m.get(&c).unwrap_or(&c)).collect()
}

pub fn join_all(s: &str) -> String {
    let v: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < v.len() {
        if i + 1 < v.len() {
            if let Some(j) = join(v[i], v[i + 1]) {
                out.push(j);
                i += 2;
                continue;
            }
        }
        out.push(v[i]);
        i += 1;
    }
    out
}

/// Leftmost non-overlapping replacement of one non-empty sequence.
pub fn replace_one(s: &str, from: &str, to: &str) -> String {
    assert!(!from.is_empty());
    let mut out = String::new();
    let mut rest = s;
    while !rest.is_empty() {
        if rest.starts_with(from) {
            out.push_str(to);
            rest = &rest[from.len()..];
        } else {
            let c = rest.chars().next().unwrap();
            out.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    out
}

/// Leftmost, longest-entry-first single pass over the text.
pub fn replace_pass(s: &str, map: &[(String, String)]) -> String {
    let mut m: Vec<&(String, String)> = map.iter().collect();
    m.sort_by(|a, b| b.0.len().cmp(&a.0.len()).then(a.0.cmp(&b.0)));
    let mut out = String::new();
    let mut rest = s;
    'o: while !rest.is_empty() {
        for (f, t) in &m {
            if rest.starts_with(f.as_str()) {
                out.push_str(t);
                rest = &rest[f.len()..];
                continue 'o;
            }
        }
        let c = rest.chars().next().unwrap();
        out.push(c);
        rest = &rest[c.len_utf8()..];
    }
    out
}

fn permute(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in permute(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r
}

/// All texts reachable by applying the entries one after another in some order. The specification
/// determines the result iff this has one element.
pub fn ligature_results(s: &str, map: &[(String, String)]) -> std::collections::BTreeSet<String> {
    let mut r = std::collections::BTreeSet::new();
    for p in permute(map.len()) {
        let mut t = s.to_string();
        for i in p {
            t = replace_one(&t, &map[i].0, &map[i].1);
        }
        r.insert(t);
    }
    r
}

pub fn neologdn(s: &str) -> String {
    let t: String = s.chars().map(|c| neologdn_char(c).unwrap_or(c)).collect();
    let t = reduce(&t, CHOON);
    let t = dotted(&t);
    let t = eliminate(&t, &TILDES);
    let t = join_all(&t);
    dotted(&t)
}

pub fn preset_text(s: &str) -> String {
    s.chars().map(|c| preset(c).unwrap_or(c)).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Preset,
    Neologdn,
    Conv(Vec<(char, char)>),
    Elim(Vec<char>),
    Reduce(char),
    Dotted,
    /// entries whose interaction is excluded by construction (see gen::safe_ligatures)
    Lig(Vec<(String, String)>),
    Trim,
}

pub fn apply(step: &Step, s: &str) -> String {
    match step {
        Step::Preset => preset_text(s),
        Step::Neologdn => neologdn(s),
        Step::Conv(t) => convert(s, t),
        Step::Elim(c) => eliminate(s, c),
        Step::Reduce(c) => reduce(s, *c),
        Step::Dotted => dotted(s),
        Step::Lig(m) => replace_pass(s, m),
        Step::Trim => trim(s),
    }
}

pub fn apply_all(steps: &[Step], s: &str) -> String {
    steps.iter().fold(s.to_string(), |t, st| apply(st, &t))
}
