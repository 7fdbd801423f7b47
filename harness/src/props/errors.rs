//! C21: what a refusal says.

use super::conf::{doc, doc_v, dup_free, Y, V};
use super::ext::with_env;
use super::pipe::yaml_conf;
use super::text::show;
use crate::ensure;
use crate::files::{put, thread_dir, CsvConf, YamlConf};
use crate::gen;
use crate::run::{fail, harness_error, sut, Ctx, Fail, Obs, R};
use chanoma::error::Error;
use chanoma::file::{modifiers_from_yaml_path, table_from_csv_path, table_from_yaml_path};
use chanoma::file_extension::FileExtension;
use chanoma::{Chanoma, TableBuilder};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Csv,
    Yaml,
    Rc,
    Extension,
    Invalid,
    Modifier,
    NoExtension,
    ExtensionBytes,
    Io,
}

fn kind(e: &Error) -> Kind {
    match e {
        Error::CsvFileLoadError(_) => Kind::Csv,
        Error::YamlFileLoadError(_) => Kind::Yaml,
        Error::RcFileLoadError(_) => Kind::Rc,
        Error::UnsupportedFileExtensionError(_) => Kind::Extension,
        Error::InvalidConfigurationError(_) => Kind::Invalid,
        Error::ModifierKindParseError(_) => Kind::Modifier,
        Error::FileExtensionNotFoundInPath(_) => Kind::NoExtension,
        Error::FileExtensionCanNotConvertToStr(_) => Kind::ExtensionBytes,
        Error::IoError(_) => Kind::Io,
    }
}

/// A fault: the kind of error that names it, and what its message must show.
#[derive(Clone, Debug)]
struct Fault(Kind, Vec<String>);

fn describes(e: &Error, faults: &[Fault]) -> Result<bool, Fail> {
    let m = sut("display of the error", || e.to_string())?;
    Ok(faults.iter().any(|f| f.0 == kind(e) && f.1.iter().all(|s| m.contains(s))))
}

fn refused<T>(what: &str, r: Result<T, Error>, faults: &[Fault]) -> Result<Error, Fail> {
    match r {
        Ok(_) => fail(format!("{what} succeeded; {faults:?} is wrong")),
        Err(e) if describes(&e, faults)? => Ok(e),
        Err(e) => fail(format!("{what}: the error is {} ({:?}), but what is wrong is {}", show(&e.to_string()), kind(&e), show(&format!("{faults:?}")))),
    }
}

// ------------------------------------------------------------------ documents

fn shown(y: &Y) -> Vec<String> {
    match y {
        Y::Null | Y::Str(_) => vec![],
        Y::Bool(b) => vec![b.to_string()],
        Y::Int(i) => vec![i.to_string()],
        Y::Float(f) => vec![format!("{f}.5")],
        Y::Seq(v) => v.iter().flat_map(shown).collect(),
        Y::Map(m) => m.iter().flat_map(|(a, b)| shown(a).into_iter().chain(shown(b))).collect(),
    }
}

fn text_faults(y: &Y, empty_too: bool, to: &mut Vec<Fault>) {
    match y.str() {
        Some(s) if !(s.is_empty() && empty_too) => {}
        _ => to.push(Fault(Kind::Invalid, shown(y))),
    }
}

fn modifier_faults(k: &Y, v: &Y, to: &mut Vec<Fault>) {
    let wrong = |to: &mut Vec<Fault>| to.push(Fault(Kind::Invalid, shown(v)));
    match k.str() {
        Some(n @ ("character_converter" | "ligature_translator")) => match v {
            Y::Map(m) => {
                for (a, b) in m {
                    text_faults(a, n == "character_converter", to);
                    text_faults(b, n == "character_converter", to);
                }
            }
            _ => wrong(to),
        },
        Some("character_eliminator") => match v {
            Y::Seq(s) => s.iter().for_each(|a| text_faults(a, true, to)),
            _ => wrong(to),
        },
        Some("consecutive_character_reducer") => text_faults(v, true, to),
        Some("dotted_space_eliminator" | "trim" | "neologdn") => {
            if *v != Y::Null {
                to.push(Fault(Kind::Modifier, vec![]));
            }
        }
        Some(n) => to.push(Fault(Kind::Modifier, vec![n.to_string()])),
        None => to.push(Fault(Kind::Modifier, shown(k))),
    }
}

fn items_faults(v: &Y, to: &mut Vec<Fault>) {
    match v {
        Y::Null => {}
        Y::Map(m) => {
            for (k, v) in m {
                text_faults(k, true, to);
                match v {
                    Y::Seq(s) => s.iter().for_each(|x| text_faults(x, true, to)),
                    x => text_faults(x, true, to),
                }
            }
        }
        Y::Seq(s) => {
            for e in s {
                let m: &[(Y, Y)] = if let Y::Map(m) = e { m } else { &[] };
                for n in ["from", "to"] {
                    match m.iter().find(|(k, _)| k.str() == Some(n)) {
                        Some((_, v)) => text_faults(v, true, to),
                        None => to.push(Fault(Kind::Invalid, vec![])),
                    }
                }
            }
        }
        _ => to.push(Fault(Kind::Invalid, vec![])),
    }
}

/// What is wrong with the items, and what with the modifiers.
fn faults(d: &Y) -> (Vec<Fault>, Vec<Fault>) {
    let (mut items, mut modifiers) = (vec![], vec![]);
    match d {
        Y::Null => {}
        Y::Map(m) => {
            for (k, v) in m {
                match (k.str(), v) {
                    (Some("items"), v) => items_faults(v, &mut items),
                    (Some("modifiers"), Y::Null) => {}
                    (Some("modifiers"), Y::Map(m)) => m.iter().for_each(|(a, b)| modifier_faults(a, b, &mut modifiers)),
                    (Some("modifiers"), _) => modifiers.push(Fault(Kind::Invalid, vec![])),
                    _ => {}
                }
            }
        }
        _ => {
            items.push(Fault(Kind::Invalid, vec![]));
            modifiers.push(Fault(Kind::Invalid, vec![]));
        }
    }
    (items, modifiers)
}

fn check_doc(dir: &Path, d: &Y, o: &mut Obs) -> R {
    let body = d.flow();
    let p = put(dir, "d.yaml", &body);
    if !dup_free(d) || doc_v(d) != V::Err {
        return Ok(());
    }
    let (items, modifiers) = faults(d);
    let all: Vec<Fault> = items.iter().chain(&modifiers).cloned().collect();
    if all.is_empty() {
        harness_error(&format!("no fault in {body}"));
    }
    let what = |f: &str| format!("{f} of {}", show(&body));
    let e = refused(&what("from_config_file"), sut("from_config_file", || Chanoma::from_config_file(&p).map(drop))?, &all)?.to_string();
    let mut said = vec![];
    if !items.is_empty() {
        for (name, r) in [
            ("table_from_yaml_path", sut("table_from_yaml_path", || table_from_yaml_path(&p).map(drop))?),
            ("TableBuilder::from_yaml_path", sut("from_yaml_path", || TableBuilder::from_yaml_path(&p).map(drop))?),
            ("add_from_yaml", sut("add_from_yaml", || TableBuilder::new().add_from_yaml(&p).map(drop))?),
        ] {
            said.push(refused(&what(name), r, &items)?.to_string());
        }
    }
    if !modifiers.is_empty() {
        let r = sut("modifiers_from_yaml_path", || modifiers_from_yaml_path(&p).map(drop))?;
        said.push(refused(&what("modifiers_from_yaml_path"), r, &modifiers)?.to_string());
    }
    ensure!(said.contains(&e), "{} says {}, but of the parts alone it is said {}", what("from_config_file"), show(&e), show(&format!("{said:?}")));
    o.nontrivial = true;
    o.label(match (items.is_empty(), modifiers.is_empty()) {
        (false, false) => "items and modifiers",
        (false, true) => "items",
        _ => "modifiers",
    });
    o.label_if(all.len() == 1, "one fault");
    o.label_if(all.iter().any(|f| f.0 == Kind::Modifier && !f.1.is_empty()), "modifier named");
    o.label_if(all.iter().any(|f| f.0 == Kind::Invalid && !f.1.is_empty()), "value shown");
    Ok(())
}

// ------------------------------------------------------------------ syntax

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Broken {
    yaml: YamlConf,
    csv: Option<CsvConf>,
    /// where, what, how many bytes it takes the place of
    edits: Vec<(u16, Vec<u8>, u8)>,
}

fn csv_conf() -> BoxedStrategy<CsvConf> {
    let cell = prop_oneof![12 => gen::ch().prop_map(|c| c.to_string()), 1 => Just(String::new()), 4 => "[a-z0-9]{1,3}"];
    (vec(vec(cell, 1..5), 0..6), any::<u64>())
        .prop_map(|(rows, style)| CsvConf { header: vec!["from".into(), "to".into()], rows, style })
        .boxed()
}

fn broken() -> BoxedStrategy<Broken> {
    let bit = prop_oneof![
        4 => select(vec![
            "[", "]", "{", "}", "\"", "'", "*x", "&a", "- ", ": ", "\t", "\n", "\n\t", "? ", "!!", "|", ">", "%", "@", "`", "#", ",", "\r", "---\n", "...\n", "\u{0}", "\u{7}", "\u{feff}",
        ])
        .prop_map(|s: &str| s.as_bytes().to_vec()),
        1 => vec(any::<u8>(), 1..3),
        1 => select(vec![vec![0xff], vec![0xe3, 0x81], vec![0xc0, 0x80], vec![0xed, 0xa0, 0x80]]),
        1 => Just(b",,\n".to_vec()),
    ];
    (yaml_conf(4), prop::option::of(csv_conf()), vec((any::<u16>(), bit, 0u8..4), 1..4))
        .prop_map(|(yaml, csv, edits)| Broken { yaml, csv, edits })
        .boxed()
}

fn csv_faults(b: &[u8]) -> Vec<Fault> {
    let mut v = vec![];
    let mut r = csv::ReaderBuilder::new().flexible(true).from_reader(b);
    for record in r.records() {
        match record {
            Err(e) => {
                v.push(Fault(Kind::Csv, vec![e.to_string()]));
                break;
            }
            Ok(r) if r.len() > 1 && r.iter().any(|c| c.is_empty()) => {
                let cells = r.iter().filter(|c| !c.is_empty() && c.chars().all(|c| c.is_ascii_alphanumeric())).map(|c| c.to_string());
                v.push(Fault(Kind::Invalid, cells.collect()));
            }
            Ok(_) => {}
        }
    }
    v
}

fn check_broken(dir: &Path, c: &Broken, o: &mut Obs) -> R {
    let mut b = c.csv.as_ref().map(|f| f.render()).unwrap_or_else(|| c.yaml.render()).into_bytes();
    for (at, bit, over) in &c.edits {
        let i = *at as usize % (b.len() + 1);
        let to = (i + *over as usize).min(b.len());
        b.splice(i..to, bit.iter().copied());
    }
    let p = put(dir, if c.csv.is_some() { "b.csv" } else { "b.yaml" }, &b);
    let what = |f: &str| format!("{f} of {}", show(&String::from_utf8_lossy(&b)));
    let conf = sut("from_config_file", || Chanoma::from_config_file(&p).map(drop))?;
    if c.csv.is_some() {
        let faults = csv_faults(&b);
        if faults.is_empty() {
            ensure!(conf.is_ok(), "{}: {}, though nothing is wrong", what("from_config_file"), conf.unwrap_err());
            return Ok(());
        }
        let e = refused(&what("from_config_file"), conf, &faults)?;
        o.label(if kind(&e) == Kind::Csv { "CSV syntax" } else { "empty cell" });
        source(&what("from_config_file"), &e)?;
        let e = e.to_string();
        for (name, r) in [
            ("table_from_csv_path", sut("table_from_csv_path", || table_from_csv_path(&p).map(drop))?),
            ("TableBuilder::from_csv_path", sut("from_csv_path", || TableBuilder::from_csv_path(&p).map(drop))?),
            ("add_from_csv", sut("add_from_csv", || TableBuilder::new().add_from_csv(&p).map(drop))?),
        ] {
            let r = refused(&what(name), r, &faults)?.to_string();
            ensure!(r == e, "{} says {}, but from_config_file {}", what(name), show(&r), show(&e));
        }
    } else {
        let Err(want) = serde_yaml::from_slice::<serde_yaml::Value>(&b) else {
            ensure!(!matches!(&conf, Err(e) if kind(e) == Kind::Yaml), "{}: {}, though this is YAML", what("from_config_file"), conf.unwrap_err());
            return Ok(());
        };
        let faults = [Fault(Kind::Yaml, vec![want.to_string()])];
        let e = refused(&what("from_config_file"), conf, &faults)?;
        source(&what("from_config_file"), &e)?;
        for (name, r) in [
            ("table_from_yaml_path", sut("table_from_yaml_path", || table_from_yaml_path(&p).map(drop))?),
            ("TableBuilder::from_yaml_path", sut("from_yaml_path", || TableBuilder::from_yaml_path(&p).map(drop))?),
            ("add_from_yaml", sut("add_from_yaml", || TableBuilder::new().add_from_yaml(&p).map(drop))?),
            ("modifiers_from_yaml_path", sut("modifiers_from_yaml_path", || modifiers_from_yaml_path(&p).map(drop))?),
        ] {
            refused(&what(name), r, &faults)?;
        }
        o.label("YAML syntax");
    }
    o.label_if(std::str::from_utf8(&b).is_err(), "not UTF-8");
    o.nontrivial = true;
    Ok(())
}

/// The parser's own error is kept as the source.
fn source(what: &str, e: &Error) -> R {
    if matches!(kind(e), Kind::Csv | Kind::Yaml) {
        ensure!(std::error::Error::source(e).is_some(), "{what}: the error has no source");
    }
    Ok(())
}

// ------------------------------------------------------------------ paths

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Named {
    name: Vec<u8>,
    /// 0 nothing, 1 a file, 2 a directory, 3 a dangling link, 4 a link to a file, 5 a link to itself, 6 below a file
    what: u8,
    relative: bool,
}

fn named() -> BoxedStrategy<Named> {
    let stem = select(vec!["c", ".c", "c.csv", "設定", "a b", "c.yaml", "x.json", "\u{1f600}", "..."]).prop_map(|s: &str| s.as_bytes().to_vec());
    let ext = prop_oneof![
        6 => select(vec![".csv", ".yaml", ".yml"]).prop_map(|s: &str| s.as_bytes().to_vec()),
        6 => select(vec![".json", ".CSV", ".Yaml", ".csv ", ".csvx", ".", ".ya", ".yaml~", ".設定", ".\u{e9}", ".toml", ".ymlyml"]).prop_map(|s: &str| s.as_bytes().to_vec()),
        2 => Just(vec![]),
        2 => select(vec![&b".\xff"[..], b".csv\xff", b".\xe3\x81", b".y\x80ml", b".\xed\xa0\x80"]).prop_map(|s| s.to_vec()),
        2 => "\\.[a-zA-Zあ-ん]{1,5}".prop_map(|s| s.into_bytes()),
    ];
    (prop_oneof![6 => stem.boxed(), 1 => Just(b"s\xfft".to_vec()).boxed()], ext, 0u8..7, any::<bool>())
        .prop_map(|(s, e, what, relative)| Named { name: [s, e].concat(), what, relative })
        .boxed()
}

fn check_named(dir: &Path, c: &Named, o: &mut Obs) -> R {
    let base = thread_dir(dir).join("named");
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).expect("scratch");
    let mut name = OsString::from_vec(c.name.clone());
    if c.what == 6 {
        name = Path::new("file").join(&name).into_os_string();
        std::fs::write(base.join("file"), "").expect("scratch");
    }
    let abs = base.join(&name);
    let body: &[u8] = if c.name.ends_with(b".csv") { b"from,to\na,b\n" } else { b"items:\n  b: a\n" };
    match c.what {
        1 => std::fs::write(&abs, body).expect("scratch"),
        2 => std::fs::create_dir(&abs).expect("scratch"),
        3 => std::os::unix::fs::symlink(base.join("nowhere"), &abs).expect("scratch"),
        4 => {
            std::fs::write(base.join("target"), body).expect("scratch");
            std::os::unix::fs::symlink(base.join("target"), &abs).expect("scratch");
        }
        5 => std::os::unix::fs::symlink(&abs, &abs).expect("scratch"),
        _ => {}
    }
    let p: PathBuf = if c.relative { PathBuf::from(&name) } else { abs.clone() };
    let ext = extension(&c.name);
    let by_name: Option<(Fault, Box<dyn Fn(&Error) -> bool + '_>)> = match ext {
        None => Some((
            Fault(Kind::NoExtension, vec![p.display().to_string()]),
            Box::new(|e| matches!(e, Error::FileExtensionNotFoundInPath(q) if *q == p)),
        )),
        Some(x) => match std::str::from_utf8(x) {
            Err(_) => Some((
                Fault(Kind::ExtensionBytes, vec![p.display().to_string()]),
                Box::new(|e| matches!(e, Error::FileExtensionCanNotConvertToStr(q) if *q == p)),
            )),
            Ok("csv" | "yaml" | "yml") => None,
            Ok(x) => Some((
                Fault(Kind::Extension, vec![x.to_string()]),
                Box::new(move |e| matches!(e, Error::UnsupportedFileExtensionError(q) if q == x)),
            )),
        },
    };
    let read = std::fs::read(&abs).err().map(|e| e.to_string());
    let what = |f: &str| format!("{f}({}) (kind {})", show(&format!("{p:?}")), c.what);
    // ---- the name alone
    let r = sut("FileExtension::from_path", || FileExtension::from_path(&p))?;
    match &by_name {
        Some((f, exact)) => {
            let e = refused(&what("FileExtension::from_path"), r, std::slice::from_ref(f))?;
            ensure!(exact(&e), "{}: {e:?} does not hold what is wrong", what("FileExtension::from_path"));
        }
        None => ensure!(r.is_ok(), "{}: {}", what("FileExtension::from_path"), r.unwrap_err()),
    }
    let io = |said: &str| -> Vec<Fault> { [Kind::Io, Kind::Csv, Kind::Yaml].into_iter().map(|k| Fault(k, vec![said.to_string()])).collect() };
    // ---- everything, in the directory
    let home = base.join("home");
    let rc = Some(p.clone().into_os_string());
    with_env(&home, &base, &rc, || -> R {
        let r = sut("from_config_file", || Chanoma::from_config_file(&p).map(drop))?;
        match (&by_name, &read) {
            (Some((f, exact)), _) => {
                let e = refused(&what("from_config_file"), r, std::slice::from_ref(f))?;
                ensure!(exact(&e), "{}: {e:?} does not hold what is wrong", what("from_config_file"));
            }
            (None, Some(said)) => {
                refused(&what("from_config_file"), r, &io(said))?;
            }
            (None, None) => ensure!(r.is_ok(), "{}: {}", what("from_config_file"), r.unwrap_err()),
        }
        // ---- by CHANOMARC
        let r = sut("load_rc", || Chanoma::load_rc().map(drop))?;
        let what_rc = what("load_rc");
        let r: Result<(), Error> = match r {
            Ok(()) => Ok(()),
            Err(e) => match e.downcast::<Error>() {
                Ok(e) => Err(e),
                Err(e) => return fail(format!("{what_rc}: an error of another type: {e:?}")),
            },
        };
        if !abs.is_file() {
            let e = refused(&what_rc, r, &[Fault(Kind::Rc, vec![p.display().to_string()])])?;
            ensure!(matches!(&e, Error::RcFileLoadError(q) if q.as_os_str() == p.as_os_str()), "{what_rc}: {e:?} does not hold the path given");
        } else {
            match &by_name {
                Some((f, exact)) => {
                    let e = refused(&what_rc, r, std::slice::from_ref(f))?;
                    ensure!(exact(&e), "{what_rc}: {e:?} does not hold what is wrong");
                }
                None => ensure!(r.is_ok(), "{what_rc}: {}", r.unwrap_err()),
            }
        }
        // ---- tables, whatever the name
        if let Some(said) = &read {
            for (name, r) in [
                ("table_from_csv_path", sut("table_from_csv_path", || table_from_csv_path(&p).map(drop))?),
                ("table_from_yaml_path", sut("table_from_yaml_path", || table_from_yaml_path(&p).map(drop))?),
                ("modifiers_from_yaml_path", sut("modifiers_from_yaml_path", || modifiers_from_yaml_path(&p).map(drop))?),
                ("TableBuilder::from_csv_path", sut("from_csv_path", || TableBuilder::from_csv_path(&p).map(drop))?),
                ("TableBuilder::from_yaml_path", sut("from_yaml_path", || TableBuilder::from_yaml_path(&p).map(drop))?),
                ("add_from_csv", sut("add_from_csv", || TableBuilder::new().add_from_csv(&p).map(drop))?),
                ("add_from_yaml", sut("add_from_yaml", || TableBuilder::new().add_from_yaml(&p).map(drop))?),
            ] {
                refused(&what(name), r, &io(said))?;
            }
        }
        Ok(())
    })?;
    o.nontrivial_if(by_name.is_some() || read.is_some());
    o.label(match (&by_name, &read) {
        (Some((f, _)), _) => match f.0 {
            Kind::NoExtension => "no extension",
            Kind::ExtensionBytes => "extension not UTF-8",
            _ => "extension not supported",
        },
        (None, Some(_)) => "cannot be read",
        _ => "usable",
    });
    Ok(())
}

/// After the last dot of the last component, unless that dot is its first character.
fn extension(name: &[u8]) -> Option<&[u8]> {
    let i = name.iter().rposition(|b| *b == b'.')?;
    (i > 0).then(|| &name[i + 1..])
}

// ------------------------------------------------------------------ the program

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Told {
    doc: Y,
    broken: Broken,
    /// 0 the document, 1 the broken file, 2 nothing there, 3 an extension that is not supported
    what: u8,
    by_rc: bool,
    flags: Vec<String>,
}

fn check_told(dir: &Path, c: &Told, o: &mut Obs) -> R {
    let base = thread_dir(dir).join("told");
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(base.join("home")).expect("scratch");
    let (name, body) = match c.what {
        0 => (".chanomarc.yaml", c.doc.flow().into_bytes()),
        1 if c.broken.csv.is_some() => {
            let mut f = c.broken.csv.clone().expect("checked");
            f.rows.push(vec!["a".into(), "".into(), "b".into()]);
            ("chanomarc.csv", f.render().into_bytes())
        }
        1 => {
            let mut b = c.broken.yaml.render().into_bytes();
            b.extend_from_slice(b"\n[");
            ("chanomarc.yaml", b)
        }
        2 => ("nowhere.yaml", vec![]),
        _ => ("rc.json", b"{}".to_vec()),
    };
    if c.what != 2 {
        std::fs::write(base.join(name), &body).expect("scratch");
    }
    let rc = (c.by_rc || c.what > 1).then(|| base.join(name).into_os_string());
    let home = base.join("home");
    let lib = with_env(&home, &base, &rc, || sut("load_rc", || Chanoma::load_rc().map(drop)))?;
    let Err(e) = lib else { return Ok(()) };
    let said = e.to_string();
    let bin = std::env::var_os("VH_BIN_CHANOMA").unwrap_or_else(|| harness_error("VH_BIN_CHANOMA is not set"));
    let mut cmd = std::process::Command::new("/usr/bin/timeout");
    cmd.arg("60").arg(&bin).args(&c.flags).arg("text").env_clear().env("PATH", "/usr/bin:/bin").env("HOME", &home).current_dir(&base);
    if let Some(rc) = &rc {
        cmd.env("CHANOMARC", rc);
    }
    let out = cmd.stdin(std::process::Stdio::null()).output().unwrap_or_else(|e| harness_error(&format!("chanoma: {e}")));
    let err = String::from_utf8_lossy(&out.stderr);
    let what = format!("chanoma {:?} text with {name} {}", c.flags, show(&String::from_utf8_lossy(&body)));
    ensure!(!out.status.success(), "{what} succeeded, though the library says {}", show(&said));
    ensure!(out.stdout.is_empty(), "{what} wrote {}", show(&String::from_utf8_lossy(&out.stdout)));
    ensure!(err.contains(&said), "{what}: standard error says {}, the library {}", show(&err), show(&said));
    o.nontrivial = true;
    o.label(["malformed values", "malformed file", "missing file", "other extension"][c.what.min(3) as usize]);
    Ok(())
}

pub fn c21(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    ctx.prop("documents", ctx.n(40_000, 1_000_000), "the document must be rejected; the error must name one of its faults", doc, |c, o| check_doc(&dir, c, o));
    ctx.prop("syntax", ctx.n(24_000, 600_000), "the bytes are not YAML or CSV, or have an empty cell", broken, |c, o| check_broken(&dir, c, o));
    ctx.prop("paths", ctx.n(6_000, 120_000), "the name or what it names is unusable", named, |c, o| check_named(&dir, c, o));
    ctx.prop_on(
        8,
        200,
        "program",
        ctx.n(300, 6_000),
        "the library refuses what the program finds",
        || {
            let flag = select(vec!["-p", "-n", "-d", "-pnd"]).prop_map(|s| s.to_string());
            (doc(), broken(), 0u8..4, any::<bool>(), vec(flag, 0..2)).prop_map(|(doc, broken, what, by_rc, flags)| Told { doc, broken, what, by_rc, flags })
        },
        |c, o| check_told(&dir, c, o),
    );
}
