//! C16: the command line program. C17: the Python package. Both against the library.

use super::conf::{csv_of, layout, small_alpha, Layout};
use super::pipe::yaml_conf;
use super::text::{diff, norm, show};
use crate::ensure;
use crate::files::{thread_dir, Items, YamlConf};
use crate::gen;
use crate::model::Step;
use crate::run::{fail, harness_error, sut, Ctx, Fail, Obs, R};
use chanoma::characters_set::prelude::{ALPHABETS, CJK_COMPATIBILITIES, DIGITS, KANAS, PUNCTUATIONS};
use chanoma::{Chanoma, Correspondence, Item, Synthesized, Table, TableBuilder};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::ffi::OsString;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

/// The environment and the working directory belong to the process.
static ENVIRONMENT: Mutex<()> = Mutex::new(());

pub fn with_env<T>(home: &Path, cwd: &Path, rc: &Option<OsString>, f: impl FnOnce() -> T) -> T {
    let _one = ENVIRONMENT.lock().unwrap_or_else(|e| e.into_inner());
    std::env::set_var("HOME", home);
    match rc {
        Some(v) => std::env::set_var("CHANOMARC", v),
        None => std::env::remove_var("CHANOMARC"),
    }
    std::env::set_current_dir(cwd).expect("cwd");
    let r = f();
    std::env::set_current_dir("/").expect("cwd");
    std::env::remove_var("CHANOMARC");
    r
}

/// An empty environment: no configuration anywhere.
fn nothing() -> BoxedStrategy<Layout> {
    Just(Layout { entries: vec![], same: 0, rc: None, decoys: 0, texts: vec![] }).boxed()
}

/// A configuration that rewrites characters the presets know.
fn wide_layout() -> BoxedStrategy<Layout> {
    (layout(), yaml_conf(5), 0u8..3, any::<bool>())
        .prop_map(|(mut l, conf, dir, keep)| {
            if !keep {
                l.rc = None;
            }
            l.entries.insert(0, super::conf::Entry::file(dir, "chanomarc.yaml", conf));
            l
        })
        .boxed()
}

fn layouts() -> BoxedStrategy<Layout> {
    prop_oneof![3 => nothing(), 3 => layout(), 3 => wide_layout()].boxed()
}

fn small_text() -> BoxedStrategy<String> {
    vec(prop_oneof![3 => select(small_alpha()).prop_map(|c| c.to_string()), 2 => gen::piece()], 0..12)
        .prop_map(|v| v.concat())
        .boxed()
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cli {
    layout: Layout,
    text: String,
    /// in the order given
    flags: Vec<String>,
    /// position of the text among the flags, if it is an argument
    arg: Option<u8>,
    /// what follows the first line of standard input
    rest: Option<String>,
    /// RUST_LOG of the caller
    log: Option<String>,
}

fn flag_sets() -> Vec<Vec<&'static str>> {
    vec![
        vec![],
        vec!["-p"],
        vec!["-n"],
        vec!["-d"],
        vec!["--preset"],
        vec!["--neologdn"],
        vec!["--debug"],
        vec!["-p", "-n"],
        vec!["-n", "-p"],
        vec!["-pn"],
        vec!["-np"],
        vec!["--neologdn", "--preset"],
        vec!["--preset", "--neologdn"],
        vec!["-n", "--preset"],
        vec!["-d", "-p"],
        vec!["-p", "-d"],
        vec!["-d", "-n"],
        vec!["-nd"],
        vec!["-dpn"],
        vec!["-npd"],
        vec!["-d", "--neologdn", "-p"],
        vec!["-p", "--debug", "-n"],
    ]
}

fn cli() -> BoxedStrategy<Cli> {
    let text = prop_oneof![
        6 => small_text(),
        3 => gen::text(),
        1 => select(vec!["-p", "-n", "--preset", "--", "-", "--help", "-x", "--version", "-h", "=", "a=b", "'", "$HOME", "\u{feff}a"]).prop_map(|s| s.to_string()),
    ]
    .prop_map(|s| s.replace('\0', ""));
    let breaks = (0u8..9).prop_map(|k| ["", "", "", "", "\n", "\n\n", "\r\n", " \n", "\na"][k as usize]);
    let text = (text, breaks).prop_map(|(t, b)| t + b);
    let rest = prop_oneof![
        2 => Just(None),
        3 => Just(Some(String::new())),
        2 => small_text().prop_map(Some),
        1 => Just(Some("\n\nx\n".to_string())),
    ];
    (
        layouts(),
        text,
        select(flag_sets()),
        prop_oneof![3 => (0u8..4).prop_map(Some), 2 => Just(None)],
        rest,
        select(vec![None, None, None, Some("debug"), Some("trace"), Some("off"), Some("chanoma=trace")]),
    )
        .prop_map(|(layout, text, flags, arg, rest, log)| Cli {
            layout,
            // an argument may span lines; standard input is read up to the first line break, and what a carriage
            // return before it means is not specified
            text: if arg.is_some() { text } else { text.replace('\n', "").trim_end_matches('\r').to_string() },
            flags: flags.into_iter().map(|s| s.to_string()).collect(),
            arg,
            rest,
            log: log.map(|s| s.to_string()),
        })
        .boxed()
}

fn has(flags: &[String], short: char, long: &str) -> bool {
    flags.iter().any(|f| f == long || (f.starts_with('-') && !f.starts_with("--") && f.contains(short)))
}

fn library(preset: bool, neologdn: bool, home: &Path, cwd: &Path, rc: &Option<OsString>) -> Result<Option<Chanoma>, Fail> {
    let r = with_env(home, cwd, rc, || sut("load_rc", Chanoma::load_rc))?;
    let Ok(mut c) = r else { return Ok(None) };
    sut("use_preset and use_neologdn", || {
        if preset {
            c.use_preset();
        }
        if neologdn {
            c.use_neologdn();
        }
    })?;
    Ok(Some(c))
}

extern "C" {
    fn ioctl(fd: i32, request: u64, ...) -> i32;
}

/// Writes the pieces one by one, each after the program has taken the one before (or has had time enough).
fn feed(mut to: ChildStdin, body: &[u8], cuts: &[u16]) {
    use std::os::fd::AsRawFd;
    const FIONREAD: u64 = 0x541b;
    let mut ends: Vec<usize> = cuts.iter().map(|c| *c as usize % (body.len() + 1)).collect();
    ends.extend([0, body.len()]);
    ends.sort();
    ends.dedup();
    for w in ends.windows(2) {
        // a program that has read enough may be gone
        if to.write_all(&body[w[0]..w[1]]).is_err() {
            return;
        }
        for _ in 0..100 {
            std::thread::sleep(std::time::Duration::from_millis(1));
            let mut left = 0i32;
            if unsafe { ioctl(to.as_raw_fd(), FIONREAD, &mut left) } != 0 || left == 0 {
                break;
            }
        }
        // let the program get as far as it wants with what it has
        std::thread::sleep(std::time::Duration::from_millis(3));
    }
}

/// The arguments and what the program did with them.
fn run_cli(td: &Path, c: &Cli, a: &super::conf::Arranged, more: &[&str]) -> (Vec<String>, std::process::Output) {
    run_cli_fed(td, c, a, more, None)
}

fn run_cli_fed(td: &Path, c: &Cli, a: &super::conf::Arranged, more: &[&str], cuts: Option<&[u16]>) -> (Vec<String>, std::process::Output) {
    let bin = std::env::var_os("VH_BIN_CHANOMA").unwrap_or_else(|| harness_error("VH_BIN_CHANOMA is not set"));
    let mut args: Vec<String> = c.flags.clone();
    args.extend(more.iter().map(|s| s.to_string()));
    let stdin = td.join("stdin");
    match c.arg {
        Some(_) if c.text.starts_with('-') => {
            args.push("--".into());
            args.push(c.text.clone());
        }
        Some(at) => args.insert(at as usize % (args.len() + 1), c.text.clone()),
        None => {}
    }
    let body = match (c.arg, &c.rest) {
        (None, Some(r)) => format!("{}\n{r}", c.text),
        (None, None) => c.text.clone(),
        // with an argument, standard input is none of the program's business
        (Some(_), Some(r)) => r.clone(),
        (Some(_), None) => String::new(),
    };
    std::fs::write(&stdin, &body).expect("scratch");
    let mut cmd = Command::new("/usr/bin/timeout");
    cmd.arg("60").arg(&bin).args(&args).env_clear().env("HOME", &a.home).env("PATH", "/usr/bin:/bin").current_dir(&a.cwd);
    if let Some(rc) = &a.rc {
        cmd.env("CHANOMARC", rc);
    }
    cmd.envs(a.env.iter().map(|(k, v)| (k, v)));
    if let Some(l) = &c.log {
        cmd.env("RUST_LOG", l);
    }
    cmd.stdout(Stdio::piped()).stderr(Stdio::piped());
    let out = match cuts {
        None => cmd.stdin(std::fs::File::open(&stdin).expect("scratch")).output(),
        Some(cuts) => cmd.stdin(Stdio::piped()).spawn().and_then(|mut child| {
            let to = child.stdin.take().expect("pipe");
            std::thread::scope(|sc| {
                sc.spawn(|| feed(to, body.as_bytes(), cuts));
                child.wait_with_output()
            })
        }),
    };
    (args, out.unwrap_or_else(|e| harness_error(&format!("chanoma: {e}"))))
}

fn check_cli(dir: &Path, c: &Cli, o: &mut Obs) -> R {
    check_cli_fed(dir, c, None, o)
}

fn check_cli_fed(dir: &Path, c: &Cli, cuts: Option<&[u16]>, o: &mut Obs) -> R {
    let td = thread_dir(dir);
    let a = c.layout.arrange(&td.join("layout"));
    let (preset, neologdn) = (has(&c.flags, 'p', "--preset"), has(&c.flags, 'n', "--neologdn"));
    let lib = library(preset, neologdn, &a.home, &a.cwd, &a.rc)?;
    let (args, out) = run_cli_fed(&td, c, &a, &[], cuts);
    let how = format!(
        "chanoma {:?}{}{} in {:?} with HOME={:?} CHANOMARC={:?}",
        args,
        if c.arg.is_none() { format!(" < {}", show(&c.text)) } else { String::new() },
        if cuts.is_some() { " in pieces" } else { "" },
        a.cwd,
        a.home,
        a.rc
    );
    let err = String::from_utf8_lossy(&out.stderr);
    match lib {
        None => {
            ensure!(!out.status.success(), "{how}: exit status 0 with an unusable configuration");
            ensure!(out.stdout.is_empty(), "{how}: printed {:?} with an unusable configuration", String::from_utf8_lossy(&out.stdout));
            o.label("unusable configuration");
            o.nontrivial = true;
        }
        Some(n) => {
            ensure!(out.status.success(), "{how}: failed with {}: {}", out.status, show(&err));
            let want = format!("{}\n", norm("library", &n, &c.text)?);
            let got = String::from_utf8_lossy(&out.stdout);
            if got != want {
                return Err(diff(&how, &c.text, &got, &want));
            }
            let changed = want.strip_suffix('\n') != Some(&c.text);
            o.nontrivial_if(changed);
            o.label_if(!changed, "text unchanged");
            o.label_if(c.text.ends_with('\n'), "argument ends in a line break");
        }
    }
    o.label_if(c.arg.is_none(), "standard input");
    o.label_if(preset && neologdn, "both presets");
    o.label_if(has(&c.flags, 'd', "--debug"), "debug");
    o.label_if(a.expect.as_ref().is_some_and(|s| !s.is_empty()), "with configuration");
    Ok(())
}

pub fn c16(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    ctx.prop_on(
        8,
        1500,
        "invocations",
        ctx.n(8_000, 120_000),
        "the text is changed, or the configuration must be refused",
        cli,
        |c, o| check_cli(&dir, c, o),
    );
    // long lines, well past any pipe or line buffer
    ctx.prop_on(
        8,
        600,
        "long-lines",
        ctx.n(48, 800),
        "the text is changed; one line of up to hundreds of kilobytes on standard input",
        || {
            (nothing(), gen::bulk_text(), select(flag_sets())).prop_map(|(layout, t, flags)| Cli {
                layout,
                text: t.replace(['\0', '\n'], "").trim_end_matches('\r').to_string(),
                flags: flags.into_iter().map(|s| s.to_string()).collect(),
                arg: None,
                rest: Some("second line\n".into()),
                log: None,
            })
        },
        |c, o| check_cli(&dir, c, o),
    );
    // standard input that arrives bit by bit
    ctx.prop_on(
        8,
        300,
        "pieces",
        ctx.n(400, 8_000),
        "the text is changed; standard input is a pipe filled in up to five pieces, cut anywhere, also inside a character",
        || {
            (nothing(), prop_oneof![2 => small_text(), 2 => gen::text(), 1 => gen::bulk_text()], select(flag_sets()), vec(any::<u16>(), 1..5), prop::option::of(small_text()))
                .prop_map(|(layout, t, flags, cuts, rest)| {
                    let c = Cli {
                        layout,
                        text: t.replace(['\0', '\n'], "").trim_end_matches('\r').to_string(),
                        flags: flags.into_iter().map(|s| s.to_string()).collect(),
                        arg: None,
                        rest,
                        log: None,
                    };
                    (c, cuts)
                })
        },
        |(c, cuts): &(Cli, Vec<u16>), o| check_cli_fed(&dir, c, Some(cuts), o),
    );
    // every set of flags, either source of text, with and without a configuration
    let mut all: Vec<(usize, u8, u8)> = vec![];
    for f in 0..flag_sets().len() {
        for src in 0..3u8 {
            for conf in 0..4u8 {
                all.push((f, src, conf));
            }
        }
    }
    ctx.enumerate(
        "flags",
        "every listed spelling of the flags, argument before or after them or standard input, four configurations",
        all,
        true,
        |(f, src, conf): &(usize, u8, u8), o| {
            let text = "Ａ ｶﾞb  1ａｰｰ～ ｃa".to_string();
            let mk = |steps: Vec<Step>, pairs: &[(&str, &str)]| YamlConf {
                steps: Some(steps),
                items: Items::List(pairs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()),
                items_first: false,
                style: 1,
            };
            let entries = match conf {
                0 => vec![],
                1 => vec![super::conf::Entry::file(1, "chanomarc.yaml", mk(vec![Step::Trim], &[("Ａ", "ａ"), ("a", "Ｂ"), ("b", "ｰ")]))],
                2 => vec![super::conf::Entry::file(2, ".chanomarc.csv", mk(vec![], &[("1", "１"), ("ｶ", "ﾊ"), (" ", "　")]))],
                _ => vec![super::conf::Entry::file(0, "chanomarc.yml", mk(vec![Step::Elim(vec!['ﾞ'])], &[("c", "C")]))],
            };
            let c = Cli {
                layout: Layout { entries, same: 0, rc: None, decoys: 0, texts: vec![] },
                text,
                flags: flag_sets()[*f % flag_sets().len()].iter().map(|s| s.to_string()).collect(),
                arg: [Some(0), Some(1), None][*src as usize % 3],
                rest: Some("Ｚ\n".into()),
                log: None,
            };
            check_cli(&dir, &c, o).map_err(|f| f.single("invocations", &c))
        },
    );
}

/// C05, the command line part: the same call with and without the debug flag.
pub fn c05_command_line(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    ctx.prop_on(
        8,
        600,
        "command-line",
        ctx.n(1_600, 40_000),
        "the text is changed; standard output and success with -d or --debug against without",
        || {
            (cli(), any::<bool>(), select(vec!["-d", "--debug"]), prop_oneof![
                4 => Just(String::new()), 2 => select(vec![" ", "\u{3000}", "\t", "\r", "\r\n", "\n", "  \n", "\u{a0}"]).prop_map(|s| s.to_string())
            ])
                .prop_map(|(mut c, lead, d, tail)| {
                    c.flags.retain(|f| f != "--debug" && (f.starts_with("--") || !f.contains('d')));
                    c.text = if lead { tail + &c.text } else { c.text + &tail };
                    (c, d.to_string())
                })
        },
        |(c, d): &(Cli, String), o| {
            let td = thread_dir(&dir);
            let a = c.layout.arrange(&td.join("layout"));
            let mut plain = c.clone();
            if c.text.starts_with('-') {
                plain.arg = None;
            }
            let (_, one) = run_cli(&td, &plain, &a, &[]);
            let (args, two) = run_cli(&td, &plain, &a, &[d]);
            let (x, y) = (String::from_utf8_lossy(&one.stdout), String::from_utf8_lossy(&two.stdout));
            if x != y || one.stdout != two.stdout {
                return Err(diff(&format!("chanoma {args:?}, against the same without the debug flag"), &c.text, &y, &x));
            }
            ensure!(
                one.status.success() == two.status.success(),
                "chanoma {args:?}: {} with the debug flag, {} without it, text {}",
                two.status,
                one.status,
                show(&c.text)
            );
            o.label_if(plain.arg.is_none(), "standard input");
            o.label_if(!one.status.success(), "unusable configuration");
            o.nontrivial_if(x.strip_suffix('\n') != Some(&c.text));
            Ok(())
        },
    );
}

// ------------------------------------------------------------------ C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PyAdd {
    Corr(Vec<(String, String)>),
    Duck(Vec<(String, String)>),
    Set(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PyFile {
    Csv(Vec<(char, char)>, u64),
    Yaml(YamlConf),
    Missing,
    Directory,
    Raw(Vec<u8>),
    /// this very path, from the current directory
    Verbatim(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PyTable {
    preset: bool,
    csv: Option<PyFile>,
    yaml: Option<PyFile>,
    adds: Vec<PyAdd>,
    positional: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Py {
    layout: Layout,
    table: Option<PyTable>,
    config: Option<(PyFile, String)>,
    preset: bool,
    neologdn: bool,
    rc: bool,
    positional: bool,
    late: Vec<PyAdd>,
    texts: Vec<String>,
}

const SETS: [&str; 5] = ["Digits", "Alphabets", "Punctuations", "Kanas", "CjkCompatibilities"];

fn one_char_pairs() -> BoxedStrategy<Vec<(String, String)>> {
    let c = prop_oneof![3 => select(small_alpha()), 2 => gen::ch(), 2 => select("ＡＢａ１ｶアー゛Ａ😀".chars().collect::<Vec<_>>())];
    vec((c.clone(), c), 0..5).prop_map(|v| v.into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()).boxed()
}

fn py_add() -> BoxedStrategy<PyAdd> {
    prop_oneof![
        4 => one_char_pairs().prop_map(PyAdd::Corr),
        1 => one_char_pairs().prop_map(PyAdd::Duck),
        2 => (0u8..5).prop_map(PyAdd::Set),
    ]
    .boxed()
}

fn table_file(csv: bool) -> BoxedStrategy<PyFile> {
    let good = if csv {
        (gen::conv(6), any::<u64>()).prop_map(|(p, s)| PyFile::Csv(p, s)).boxed()
    } else {
        yaml_conf(4).prop_map(PyFile::Yaml).boxed()
    };
    let raw = prop_oneof![
        select(vec![&b"a,b\n\xff,x\n"[..], b"items: [", b"items: 3\n", b"", b"\n", b"modifiers: {nope: 1}\n", b"a\n\n,b\n", b"items:\n  - from: a\n"])
            .prop_map(|b| b.to_vec()),
        vec(any::<u8>(), 0..20),
    ];
    let verbatim = select(vec![
        "", " ", ".", "/", "~", "~/chanomarc.csv", "nonexistent.csv", "nonexistent.yaml", "x\0.csv", "\0", "csv", ".csv", "yaml", "./", "../home",
        "chanomarc.csv", "./chanomarc.yaml", ".chanomarc.yml", "../cwd/chanomarc.csv", "../home/chanomarc.yaml", "../home/.chanomarc.csv",
    ])
    .prop_map(|s| PyFile::Verbatim(s.to_string()));
    prop_oneof![14 => good, 2 => verbatim, 1 => Just(PyFile::Missing), 1 => Just(PyFile::Directory), 1 => raw.prop_map(PyFile::Raw)].boxed()
}

/// Characters of the predefined sets and their neighbours.
fn set_text() -> BoxedStrategy<String> {
    let c = prop_oneof![0xff00u32..0xffa0, 0x3300u32..0x3400, 0x2010u32..0x2016, 0x3000u32..0x3100];
    vec(c.prop_map(crate::model::uni), 1..16).prop_map(|v| v.into_iter().collect()).boxed()
}

fn py_table() -> BoxedStrategy<PyTable> {
    let opt = |csv| prop_oneof![2 => Just(None), 1 => table_file(csv).prop_map(Some)];
    (any::<bool>(), opt(true), opt(false), vec(py_add(), 0..4), any::<bool>())
        .prop_map(|(preset, csv, yaml, adds, positional)| PyTable { preset, csv, yaml, adds, positional })
        .boxed()
}

fn py() -> BoxedStrategy<Py> {
    let config = prop_oneof![
        (table_file(true), select(vec!["c.csv", "c.csv", "c.yaml", "c"])),
        (table_file(false), select(vec!["c.yaml", "c.yml", "設定.yaml", "c.json"])),
    ]
    .prop_map(|(f, n)| (f, n.to_string()));
    (
        layouts(),
        prop::option::weighted(0.7, py_table()),
        prop::option::weighted(0.4, config),
        (any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>()),
        vec(py_add(), 0..3),
        vec(prop_oneof![4 => small_text(), 2 => gen::text(), 2 => set_text()], 1..4),
    )
        .prop_map(|(layout, table, config, (preset, neologdn, rc, positional), late, texts)| Py {
            layout,
            table,
            config,
            preset,
            neologdn,
            rc,
            positional,
            late,
            texts,
        })
        .boxed()
}

fn place(dir: &Path, name: &str, f: &PyFile) -> PathBuf {
    if let PyFile::Verbatim(s) = f {
        return PathBuf::from(s);
    }
    let sub = dir.join("files");
    std::fs::create_dir_all(&sub).expect("scratch");
    let p = sub.join(name);
    match f {
        PyFile::Csv(v, s) => {
            let v: Vec<(String, String)> = v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            std::fs::write(&p, csv_of(&v, *s).render())
        }
        PyFile::Yaml(y) => std::fs::write(&p, y.render()),
        PyFile::Missing => Ok(()),
        PyFile::Directory => std::fs::create_dir_all(&p),
        PyFile::Raw(b) => std::fs::write(&p, b),
        PyFile::Verbatim(_) => unreachable!(),
    }
    .expect("scratch");
    p
}

fn py_corr(a: &PyAdd) -> Correspondence<Synthesized> {
    match a {
        PyAdd::Corr(v) | PyAdd::Duck(v) => Synthesized::new(v.iter().map(|(f, t)| Item::new(f, t)).collect()).corr(),
        PyAdd::Set(n) => {
            use chanoma::Corr;
            Synthesized::new(match n % 5 {
                0 => DIGITS.items(),
                1 => ALPHABETS.items(),
                2 => PUNCTUATIONS.items(),
                3 => KANAS.items(),
                _ => CJK_COMPATIBILITIES.items(),
            })
            .corr()
        }
    }
}

fn py_add_json(a: &PyAdd) -> Value {
    match a {
        PyAdd::Corr(v) => json!({"kind": "corr", "items": v}),
        PyAdd::Duck(v) => json!({"kind": "duck", "items": v}),
        PyAdd::Set(n) => json!({"kind": "set", "name": SETS[*n as usize % 5]}),
    }
}

struct Server {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}

impl Server {
    fn start() -> Server {
        let get = |k: &str| std::env::var_os(k).unwrap_or_else(|| harness_error(&format!("{k} is not set")));
        let mut child = Command::new(get("VH_PY"))
            .arg(get("VH_SERVER"))
            .env_remove("CHANOMARC")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| harness_error(&format!("python: {e}")));
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        let mut s = Server { child, to, from };
        // the interpreter answers before it imports the extension
        let ready = s.line();
        if ready.as_ref().ok().and_then(|h| h.get("ready")).is_none() {
            harness_error(&format!("the Python server does not answer: {ready:?}"));
        }
        s
    }

    fn ask(&mut self, q: &Value) -> Result<Value, String> {
        writeln!(self.to, "{q}").map_err(|e| e.to_string())?;
        self.to.flush().map_err(|e| e.to_string())?;
        self.line()
    }

    fn line(&mut self) -> Result<Value, String> {
        let mut line = String::new();
        self.from.read_line(&mut line).map_err(|e| e.to_string())?;
        serde_json::from_str(&line).map_err(|e| e.to_string())
    }
}

fn ask(q: &Value) -> Result<Value, Fail> {
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        let srv = s.get_or_insert_with(Server::start);
        match srv.ask(q) {
            Ok(v) => Ok(v),
            Err(e) => {
                *s = None;
                fail(format!("the Python interpreter died: {e}"))
            }
        }
    })
}

/// A path that is not absolute means something only in the right directory.
fn from_cwd<T>(a: &super::conf::Arranged, path: &Path, f: impl FnOnce() -> T) -> T {
    if path.is_absolute() {
        f()
    } else {
        with_env(&a.home, &a.cwd, &a.rc, f)
    }
}

/// The library's answer, or what it says instead.
fn expected(p: &Py, table: Option<&Table>, config: &Option<PathBuf>, a: &super::conf::Arranged) -> Result<Result<Chanoma, String>, Fail> {
    let base = match config {
        Some(f) => from_cwd(a, f, || sut("from_config_file", || Chanoma::from_config_file(f).map_err(|e| e.to_string())))?,
        None if p.rc => with_env(&a.home, &a.cwd, &a.rc, || sut("load_rc", || Chanoma::load_rc().map_err(|e| e.to_string())))?,
        None => Ok(sut("new", Chanoma::new)?),
    };
    let mut c = match base {
        Ok(c) => c,
        Err(e) => return Ok(Err(e)),
    };
    sut("additions", || {
        if let Some(t) = table {
            c.add_table(t.clone());
        }
        if p.preset {
            c.use_preset();
        }
        if p.neologdn {
            c.use_neologdn();
        }
    })?;
    Ok(Ok(c))
}

fn check_py(dir: &Path, p: &Py, o: &mut Obs) -> R {
    let td = thread_dir(dir);
    let _ = std::fs::remove_dir_all(td.join("files"));
    let a = p.layout.arrange(&td.join("layout"));
    let config = p.config.as_ref().map(|(f, n)| place(&td, n, f));
    let mut q = json!({
        "env": a.env, "home": a.home, "rcvar": a.rc.as_ref().map(|v| v.as_bytes().to_vec()), "cwd": a.cwd,
        "table": null, "late": p.late.iter().map(py_add_json).collect::<Vec<_>>(), "texts": p.texts,
        "positional": p.positional, "configfile": config, "preset": p.preset, "neologdn": p.neologdn, "rc": p.rc,
    });

    // the same with the library
    let mut refused: Option<String> = None;
    let mut table = None;
    if let Some(t) = &p.table {
        let csv = t.csv.as_ref().map(|f| place(&td, "t.csv", f));
        let yaml = t.yaml.as_ref().map(|f| place(&td, "t.yaml", f));
        q["table"] = json!({"preset": t.preset, "csv": csv, "yaml": yaml, "positional": t.positional,
            "adds": t.adds.iter().map(py_add_json).collect::<Vec<_>>()});
        let mut b = TableBuilder::new();
        if t.preset {
            sut("preset", || {
                b.preset();
            })?;
        }
        if let Some(f) = &csv {
            refused = from_cwd(&a, f, || sut("add_from_csv", || b.add_from_csv(f).err().map(|e| e.to_string())))?;
        }
        if let (None, Some(f)) = (&refused, &yaml) {
            refused = from_cwd(&a, f, || sut("add_from_yaml", || b.add_from_yaml(f).err().map(|e| e.to_string())))?;
        }
        let mut built = sut("build", || b.build())?;
        for x in &t.adds {
            sut("add", || built.add(&py_corr(x)))?;
        }
        table = Some(built);
    }
    let one = match refused {
        None => expected(p, table.as_ref(), &config, &a)?,
        Some(e) => Err(e),
    };
    let reply = ask(&q)?;
    let how = {
        let mut s = q.clone();
        s.as_object_mut().unwrap().remove("texts");
        show(&s.to_string())
    };
    let one = match one {
        Ok(one) => one,
        Err(said) => {
            ensure!(reply["error"] == "OSError", "{how}: unusable file, but the package answered {}", show(&reply.to_string()));
            ensure!(reply["message"] == said, "{how}: the package raised OSError({}), the library says {}", reply["message"], show(&said));
            o.label("OSError");
            o.nontrivial = true;
            return Ok(());
        }
    };
    ensure!(reply["error"].is_null(), "{how}: the package raised {}: {}", reply["error"], reply["message"]);
    if let Some(t) = &mut table {
        for x in &p.late {
            sut("add", || t.add(&py_corr(x)))?;
        }
    }
    let Ok(two) = expected(p, table.as_ref(), &config, &a)? else { return fail("the library changed its mind") };
    let mut changed_late = false;
    for (i, x) in p.texts.iter().enumerate() {
        let w1 = norm("library", &one, x)?;
        let w2 = norm("library", &two, x)?;
        changed_late |= w1 != w2;
        for (k, (what, want)) in [
            ("", &w1),
            (", after adding to its table", &w1),
            (", a second normalizer from the changed table", &w2),
            (", after its table is gone", &w1),
        ]
        .into_iter()
        .enumerate()
        {
            let Some(got) = reply["out"][k][i].as_str() else {
                return fail(format!("{how}: no text came back: {}", show(&reply.to_string())));
            };
            if got != *want {
                return Err(diff(&format!("Python with {how}{what}"), x, got, want));
            }
        }
        o.nontrivial_if(w1 != *x);
    }
    o.label_if(changed_late, "later additions matter");
    o.label_if(config.is_some() && p.rc, "configfile and rc");
    o.label_if(config.is_some(), "configfile");
    o.label_if(config.as_ref().is_some_and(|c| !c.is_absolute()), "relative configfile used");
    o.label_if(p.rc && config.is_none() && a.expect.as_ref().is_some_and(|s| !s.is_empty()), "discovered configuration");
    o.label_if(table.is_some() && p.preset && p.neologdn, "table and both presets");
    Ok(())
}

pub fn c17(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    ctx.prop_on(
        8,
        1500,
        "constructions",
        ctx.n(12_000, 250_000),
        "a text is changed, or an error must be raised",
        py,
        |p, o| check_py(&dir, p, o),
    );
    ctx.prop_on(
        8,
        600,
        "bulk",
        ctx.n(64, 2_000),
        "a text is changed; long texts",
        || {
            (gen::bulk_text(), any::<bool>(), any::<bool>(), prop::option::of(py_table())).prop_map(|(t, preset, neologdn, table)| Py {
                layout: Layout { entries: vec![], same: 0, rc: None, decoys: 0, texts: vec![] },
                table,
                config: None,
                preset,
                neologdn,
                rc: false,
                positional: false,
                late: vec![],
                texts: vec![t],
            })
        },
        |p, o| check_py(&dir, p, o),
    );
    // the predefined sets as Python sees them
    ctx.enumerate(
        "sets",
        "each predefined set alone, each with each other, and each with an addition afterwards, on every character of the basic plane",
        (0u8..25).collect(),
        true,
        |m: &u8, o| {
            let bmp: String = (1u32..0x10000).filter_map(char::from_u32).collect();
            let (a, b) = (m / 5, m % 5);
            let mut adds = vec![PyAdd::Set(a)];
            if a != b {
                adds.push(PyAdd::Set(b));
            }
            let p = Py {
                layout: Layout { entries: vec![], same: 0, rc: None, decoys: 0, texts: vec![] },
                table: Some(PyTable { preset: false, csv: None, yaml: None, adds, positional: b > a }),
                config: None,
                preset: false,
                neologdn: false,
                rc: false,
                positional: b > a,
                late: vec![PyAdd::Set(b)],
                texts: vec![bmp],
            };
            o.weight = 65_535;
            check_py(&dir, &p, o).map_err(|f| f.single("constructions", &p))
        },
    );
    // every combination of the switches with one of each source of replacements
    ctx.enumerate(
        "switches",
        "every combination of preset, neologdn, rc, configuration file, table and calling style",
        (0u8..128).collect(),
        true,
        |m: &u8, o| {
            let bit = |i: u8| m >> i & 1 == 1;
            let conf = |f: &str, t: &str| YamlConf {
                steps: Some(vec![]),
                items: Items::List(vec![(f.into(), t.into())]),
                items_first: false,
                style: 1,
            };
            let p = Py {
                layout: Layout {
                    entries: vec![super::conf::Entry::file(1, "chanomarc.yaml", conf("a", "Ａ"))],
                    same: 0,
                    rc: None,
                    decoys: 0,
                    texts: vec![],
                },
                table: bit(4).then(|| PyTable {
                    preset: bit(6),
                    csv: Some(PyFile::Csv(vec![('b', 'Ｂ')], 1)),
                    yaml: Some(PyFile::Yaml(conf("c", "ｶ"))),
                    adds: vec![PyAdd::Corr(vec![("Ａ".into(), "゛".into())]), PyAdd::Set(0)],
                    positional: bit(5),
                }),
                config: bit(3).then(|| (PyFile::Yaml(conf("か", "b")), "c.yaml".to_string())),
                preset: bit(0),
                neologdn: bit(1),
                rc: bit(2),
                positional: bit(5),
                late: vec![PyAdd::Corr(vec![("ー".into(), "x".into())]), PyAdd::Set(3)],
                texts: vec!["か゛ａabcｶ ーー１２ 〜ｶﾞ ﾊ゜".into(), "abc".into(), "".into()],
            };
            check_py(&dir, &p, o).map_err(|f| f.single("constructions", &p))
        },
    );
}
