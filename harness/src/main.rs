//! vh check ID [--tier quick|thorough]   search for violations of one property
//! vh replay FILE                        run one saved case: exit 1 if it still fails
//! vh child-normalize CASE ROUND DIR     helper process of C18

use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use vh::props::pipe;
use vh::run::{self, harness_error, Ctx, Replay, Tier};
use vh::{dispatch, read_replay, root};

fn work(id: &str, tier: Tier, replay: Option<Replay>) -> i32 {
    run::install_panic_hook();
    let mut ctx = Ctx::new(id, tier, root(), replay);
    dispatch(&mut ctx);
    ctx.conclude()
}

/// Runs the worker in its own process. If the code under test kills it (abort, stack overflow), the run is
/// repeated with a journal of the current case of every shard, and the case that kills a process of its own
/// is the reproduction.
fn supervise(id: &str, tier: &str) -> i32 {
    let me = std::env::current_exe().expect("own path");
    let st = Command::new(&me).args(["work", id, "--tier", tier]).status().expect("start worker");
    let Some(sig) = st.signal() else { return st.code().unwrap_or(2) };
    eprintln!("worker ended by signal {sig}; looking for the case");
    let j = std::env::temp_dir().join(format!("vh-journal-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&j).expect("journal directory");
    let st = Command::new(&me).args(["work", id, "--tier", tier]).env("VH_JOURNAL", &j).status().expect("start worker");
    let mut code = st.code().unwrap_or(2);
    if st.signal().is_some() {
        let mut ps: Vec<PathBuf> = std::fs::read_dir(&j).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        ps.sort();
        for p in ps {
            if std::fs::read_to_string(&p).ok().and_then(|t| serde_json::from_str::<Replay>(&t).ok()).is_none() {
                continue;
            }
            let r = Command::new(&me).args(["work-replay"]).arg(&p).status().expect("start worker");
            if r.signal().is_some() || r.code() == Some(1) {
                let rep = read_replay(&p);
                let d = root().join("replay");
                std::fs::create_dir_all(&d).expect("replay directory");
                let to = d.join(format!("{id}-{}.json", rep.sub));
                std::fs::copy(&p, &to).expect("keep replay");
                println!("  {}: the process died ({:?})", rep.sub, r.signal());
                println!("VIOLATION property={id} replay={}", to.display());
                code = 1;
                break;
            }
        }
        if code != 1 {
            eprintln!("no single case kills the process");
            code = 2;
        }
    }
    let _ = std::fs::remove_dir_all(&j);
    code
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let tier_name = a.iter().position(|x| x == "--tier").and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| "quick".into());
    let tier = match tier_name.as_str() {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        t => harness_error(&format!("unknown tier {t}")),
    };
    let arg = |i: usize| a.get(i).cloned().unwrap_or_else(|| harness_error("missing argument"));
    let code = match arg(0).as_str() {
        "check" => supervise(&arg(1), &tier_name),
        "work" => work(&arg(1), tier, None),
        "work-replay" => {
            let r = read_replay(Path::new(&arg(1)));
            work(&r.property.clone(), tier, Some(r))
        }
        "replay" => {
            let me = std::env::current_exe().expect("own path");
            let st = Command::new(&me).args(["work-replay", &arg(1)]).status().expect("start worker");
            let code = if st.signal().is_some() { 1 } else { st.code().unwrap_or(2) };
            if code == 1 {
                println!("VIOLATION property={} replay={}", read_replay(Path::new(&arg(1))).property, arg(1));
            }
            code
        }
        "child-normalize" => {
            run::install_panic_hook();
            pipe::child(Path::new(&arg(1)), arg(2).parse().expect("round"), Path::new(&arg(3)))
        }
        x => harness_error(&format!("unknown command {x}")),
    };
    std::process::exit(code);
}
