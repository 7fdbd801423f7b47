//! Writers for configuration files, independent of serde_yaml's and csv's own writers.

use crate::model::Step;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};

/// Deterministic stream of style decisions, so that the style is part of the generated value.
pub struct Style {
    seed: u64,
}

impl Style {
    pub fn new(seed: u64) -> Self {
        Self { seed }
    }
    pub fn pick(&mut self, n: u64) -> u64 {
        self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.seed >> 33) % n
    }
}

pub fn yaml_double(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            ' '..='~' => o.push(c),
            '\u{3041}'..='\u{30fe}' | '\u{4e00}'..='\u{9fff}' | '\u{ff01}'..='\u{ff9f}' => o.push(c),
            c if (c as u32) < 0x100 => o.push_str(&format!("\\x{:02X}", c as u32)),
            c if (c as u32) < 0x10000 => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push_str(&format!("\\U{:08X}", c as u32)),
        }
    }
    o.push('"');
    o
}

fn plain_ok(s: &str) -> bool {
    !s.is_empty()
        && s.chars().all(|c| {
            c.is_ascii_alphabetic()
                || ('\u{3041}'..='\u{309c}').contains(&c)
                || ('\u{30a1}'..='\u{30fe}').contains(&c)
                || ('\u{4e00}'..='\u{9fff}').contains(&c)
        })
        && !["true", "false", "null", "nan", "inf", "yes", "no", "on", "off", "y", "n"]
            .contains(&s.to_ascii_lowercase().as_str())
}

fn single_ok(s: &str) -> bool {
    s.chars().all(|c| {
        (' '..='~').contains(&c)
            || ('\u{3041}'..='\u{30fe}').contains(&c)
            || ('\u{4e00}'..='\u{9fff}').contains(&c)
            || ('\u{ff01}'..='\u{ff9f}').contains(&c)
            || ('\u{1f600}'..='\u{1f64f}').contains(&c)
    })
}

/// One scalar in one of the three YAML styles.
pub fn yaml_str(s: &str, st: &mut Style) -> String {
    match st.pick(3) {
        0 if plain_ok(s) => s.to_string(),
        1 if single_ok(s) => format!("'{}'", s.replace('\'', "''")),
        _ => yaml_double(s),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Items {
    Absent,
    /// list of from/to entries, as the README documents
    List(Vec<(String, String)>),
    /// mapping from target to source(s), as the tests use and the exporter writes
    Mapping(Vec<(String, Vec<String>)>),
}

impl Items {
    pub fn pairs(&self) -> Vec<(String, String)> {
        match self {
            Items::Absent => vec![],
            Items::List(v) => v.clone(),
            Items::Mapping(m) => m.iter().flat_map(|(t, fs)| fs.iter().map(move |f| (f.clone(), t.clone()))).collect(),
        }
    }
    /// as one-character replacements
    pub fn conv(&self) -> Vec<(char, char)> {
        self.pairs().iter().map(|(f, t)| (f.chars().next().unwrap(), t.chars().next().unwrap())).collect()
    }
    pub fn grouped(pairs: &[(String, String)]) -> Items {
        let mut m: Vec<(String, Vec<String>)> = vec![];
        let mut at: std::collections::HashMap<&String, usize> = Default::default();
        for (f, t) in pairs {
            let i = *at.entry(t).or_insert_with(|| {
                m.push((t.clone(), vec![]));
                m.len() - 1
            });
            m[i].1.push(f.clone());
        }
        Items::Mapping(m)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct YamlConf {
    pub steps: Option<Vec<Step>>,
    pub items: Items,
    pub items_first: bool,
    pub style: u64,
}

fn comment(st: &mut Style, indent: &str) -> String {
    match st.pick(8) {
        0 => format!("{indent}# items: [x] modifiers\n"),
        1 => "\n".to_string(),
        _ => String::new(),
    }
}

fn seq(vals: &[String], st: &mut Style, indent: &str) -> String {
    if vals.is_empty() {
        return " []\n".into();
    }
    let q: Vec<String> = vals.iter().map(|v| yaml_str(v, st)).collect();
    if st.pick(2) == 0 {
        format!(" [{}]\n", q.join(", "))
    } else {
        let mut o = String::from("\n");
        for v in q {
            o.push_str(&format!("{indent}- {v}\n"));
        }
        o
    }
}

fn map(vals: &[(String, String)], st: &mut Style, indent: &str) -> String {
    if vals.is_empty() {
        return " {}\n".into();
    }
    let q: Vec<(String, String)> = vals.iter().map(|(k, v)| (yaml_str(k, st), yaml_str(v, st))).collect();
    if st.pick(2) == 0 {
        format!(" {{{}}}\n", q.iter().map(|(k, v)| format!("{k}: {v}")).collect::<Vec<_>>().join(", "))
    } else {
        let mut o = String::from("\n");
        for (k, v) in q {
            o.push_str(&format!("{indent}{k}: {v}\n"));
        }
        o
    }
}

impl YamlConf {
    pub fn render(&self) -> String {
        let mut st = Style::new(self.style);
        let mut o = String::new();
        let mut m = String::new();
        if let Some(steps) = &self.steps {
            m.push_str("modifiers:");
            m.push_str(if steps.is_empty() { " {}\n" } else { "\n" });
            for s in steps {
                m.push_str(&comment(&mut st, "  "));
                match s {
                    Step::Neologdn => m.push_str(["  neologdn:\n", "  neologdn: ~\n", "  neologdn: null\n"][st.pick(3) as usize]),
                    Step::Trim => m.push_str(["  trim:\n", "  trim: ~\n", "  \"trim\":\n"][st.pick(3) as usize]),
                    Step::Dotted => m.push_str(["  dotted_space_eliminator:\n", "  dotted_space_eliminator: null\n"][st.pick(2) as usize]),
                    Step::Conv(t) => {
                        let v: Vec<(String, String)> = t.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                        m.push_str("  character_converter:");
                        m.push_str(&map(&v, &mut st, "    "));
                    }
                    Step::Elim(c) => {
                        let v: Vec<String> = c.iter().map(|c| c.to_string()).collect();
                        m.push_str("  character_eliminator:");
                        m.push_str(&seq(&v, &mut st, "    "));
                    }
                    Step::Reduce(c) => {
                        m.push_str(&format!("  consecutive_character_reducer: {}\n", yaml_str(&c.to_string(), &mut st)))
                    }
                    Step::Lig(l) => {
                        m.push_str("  ligature_translator:");
                        m.push_str(&map(l, &mut st, "    "));
                    }
                    Step::Preset => unreachable!("preset is not a configurable modifier"),
                }
            }
        }
        let mut i = String::new();
        match &self.items {
            Items::Absent => {}
            Items::List(v) => {
                i.push_str("items:");
                if v.is_empty() {
                    i.push_str(" []\n");
                } else if st.pick(3) == 0 {
                    let q: Vec<String> = v
                        .iter()
                        .map(|(f, t)| format!("{{from: {}, to: {}}}", yaml_str(f, &mut st), yaml_str(t, &mut st)))
                        .collect();
                    i.push_str(&format!(" [{}]\n", q.join(", ")));
                } else {
                    i.push('\n');
                    for (f, t) in v {
                        i.push_str(&comment(&mut st, "  "));
                        let (f, t) = (yaml_str(f, &mut st), yaml_str(t, &mut st));
                        if st.pick(4) == 0 {
                            i.push_str(&format!("  - to: {t}\n    from: {f}\n"));
                        } else {
                            i.push_str(&format!("  - from: {f}\n    to: {t}\n"));
                        }
                    }
                }
            }
            Items::Mapping(v) => {
                i.push_str("items:");
                i.push_str(if v.is_empty() { " {}\n" } else { "\n" });
                for (t, fs) in v {
                    i.push_str(&comment(&mut st, "  "));
                    i.push_str(&format!("  {}:", yaml_str(t, &mut st)));
                    if fs.len() == 1 && st.pick(2) == 0 {
                        i.push_str(&format!(" {}\n", yaml_str(&fs[0], &mut st)));
                    } else {
                        i.push_str(&seq(fs, &mut st, "    "));
                    }
                }
            }
        }
        if st.pick(4) == 0 {
            o.push_str("---\n");
        }
        if self.items_first {
            o.push_str(&i);
            o.push_str(&m);
        } else {
            o.push_str(&m);
            o.push_str(&i);
        }
        if m.is_empty() && i.is_empty() {
            o.push_str("{}\n");
        }
        o
    }

    /// the pipeline the file describes
    pub fn pipeline(&self) -> Vec<Step> {
        let mut v = self.steps.clone().unwrap_or_default();
        v.push(Step::Conv(self.items.conv()));
        v
    }
}

/// The plainest file with these modifiers.
pub fn plain_yaml(steps: &[Step]) -> String {
    YamlConf { steps: Some(steps.to_vec()), items: Items::Absent, items_first: false, style: 2 }.render()
}

pub fn csv_field(s: &str, st: &mut Style) -> String {
    let must = s.is_empty() || s.contains(['"', ',', '\n', '\r']) || s.starts_with(' ') || s.ends_with(' ');
    if must || st.pick(3) == 0 {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CsvConf {
    pub header: Vec<String>,
    /// every row: sources.., target
    pub rows: Vec<Vec<String>>,
    pub style: u64,
}

impl CsvConf {
    pub fn render(&self) -> String {
        let mut st = Style::new(self.style);
        let nl = if st.pick(3) == 0 { "\r\n" } else { "\n" };
        let mut o = String::new();
        for r in std::iter::once(&self.header).chain(&self.rows) {
            let q: Vec<String> = r.iter().map(|f| csv_field(f, &mut st)).collect();
            o.push_str(&q.join(","));
            o.push_str(nl);
        }
        if st.pick(3) == 0 && !self.rows.is_empty() {
            o.truncate(o.len() - nl.len());
        }
        o
    }
    pub fn pairs(&self) -> Vec<(String, String)> {
        self.rows
            .iter()
            .flat_map(|r| {
                let (t, fs) = r.split_last().expect("row");
                fs.iter().map(|f| (f.clone(), t.clone())).collect::<Vec<_>>()
            })
            .collect()
    }
    pub fn conv(&self) -> Vec<(char, char)> {
        self.pairs().iter().map(|(f, t)| (f.chars().next().unwrap(), t.chars().next().unwrap())).collect()
    }
}

/// Writes a file under the thread's own scratch directory and returns its path.
pub fn put(dir: &Path, name: &str, content: impl AsRef<[u8]>) -> PathBuf {
    let d = thread_dir(dir);
    let p = d.join(name);
    std::fs::write(&p, content).expect("write scratch file");
    p
}

pub fn thread_dir(dir: &Path) -> PathBuf {
    let id = format!("{:?}", std::thread::current().id());
    let d = dir.join(id.chars().filter(|c| c.is_ascii_digit()).collect::<String>());
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}
