//! C31: no history makes the maps misuse memory.  The histories run in a separate program (mem/) under Miri and
//! under AddressSanitizer; whatever comes back is read, nothing else is judged.
use crate::base::*;
use crate::driver::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Bytes {
    head: [u8; 4],
    ops: Vec<[u8; 4]>,
}
impl Bytes {
    fn hex(&self) -> String {
        self.head.iter().chain(self.ops.iter().flatten()).map(|b| format!("{b:02x}")).collect()
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Under {
    Miri,
    /// with the tree-borrows aliasing model
    MiriTree,
    Asan,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Mem {
    under: Under,
    batch: Vec<Bytes>,
}

fn target() -> PathBuf {
    // .../target/release/cmh
    let exe = std::env::current_exe().unwrap_or_default();
    exe.parent().and_then(|p| p.parent()).map(|p| p.to_path_buf()).unwrap_or_default()
}
fn command(u: Under) -> Command {
    let t = target();
    let mut c = Command::new("timeout");
    c.args(["-k", "5", "200"]);
    match u {
        Under::Asan => {
            c.arg(t.join("mem-asan/x86_64-unknown-linux-gnu/release/cm_mem"));
            c.env("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99");
        }
        _ => {
            let dir = t.parent().map(|p| p.join("mem")).unwrap_or_default();
            c.args(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path"]).arg(dir.join("Cargo.toml"));
            c.env("CARGO_TARGET_DIR", t.join("mem-miri"));
            c.env_remove("RUSTC_WRAPPER");
            let alias = if u == Under::Miri { "-Zmiri-disable-stacked-borrows" } else { "-Zmiri-tree-borrows" };
            c.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks {alias}"));
        }
    }
    c
}

pub struct C31;
impl Prop for C31 {
    type Case = Mem;
    const ID: &'static str = "C31";
    const NOLIMIT: bool = true;
    const RULE: &'static str = "each case is a batch of random histories over every public call of one of the maps (lookups, every iterator stepped, cloned and dropped early, draining, filtering, clones, comparisons, two reading threads, panicking closures, sources, Hash and Eq), items on the heap, 3 to 120 keys, run by a separate program under Miri (6 histories; the thorough tier also with the tree-borrows aliasing rules) or AddressSanitizer (200 histories); every item returned or yielded is read. The interpreter or sanitizer must find nothing. Non-trivial: the batch ran to its end with at least 60 calls";
    fn cases(t: Tier) -> u64 {
        t.pick(1_600, 24_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Mem> {
        let h = |n: usize| (any::<[u8; 4]>(), proptest::collection::vec(any::<[u8; 4]>(), 4..n)).prop_map(|(head, ops)| Bytes { head, ops });
        let miri = proptest::collection::vec(h(40), 2..9).prop_map(|batch| Mem { under: Under::Miri, batch });
        let tree = proptest::collection::vec(h(40), 2..9).prop_map(|batch| Mem { under: Under::MiriTree, batch });
        let asan = proptest::collection::vec(h(60), 100..300).prop_map(|batch| Mem { under: Under::Asan, batch });
        match t {
            Tier::Quick => prop_oneof![1 => miri, 9 => asan].boxed(),
            Tier::Thorough => prop_oneof![2 => miri, 1 => tree, 9 => asan].boxed(),
        }
    }
    fn run(c: &Mem, cx: &mut Ctx) -> Res {
        let mut ch = command(c.under);
        ch.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut ch = ch.spawn().map_err(|e| format!("HARNESS: {:?}: {e}", c.under))?;
        let text: String = c.batch.iter().map(|b| b.hex() + "\n").collect();
        let mut i = ch.stdin.take().unwrap();
        let w = std::thread::spawn(move || {
            let _ = i.write_all(text.as_bytes());
        });
        let out = ch.wait_with_output().map_err(|e| format!("HARNESS: {:?}: {e}", c.under))?;
        let _ = w.join();
        let so = String::from_utf8_lossy(&out.stdout).to_string();
        let se = String::from_utf8_lossy(&out.stderr).to_string();
        let at = so.lines().rev().find_map(|l| l.parse::<usize>().ok());
        cx.label(&format!("{:?}", c.under));
        let calls: usize = c.batch.iter().map(|b| b.ops.len()).sum();
        cx.trace = c.batch.iter().take(4).map(|b| format!("{:?} {}", c.under, b.hex())).collect();
        if so.lines().last().is_some_and(|l| l.starts_with("done")) && out.status.success() {
            cx.nontrivial = calls >= 60;
            cx.label("ran to its end");
            return Ok(());
        }
        let bad = |l: &&str| l.contains("Undefined Behavior") || l.contains("ERROR: AddressSanitizer") || l.contains("unsafe precondition(s) violated");
        if let Some(l) = se.lines().find(bad) {
            if l.contains("stack-overflow") {
                cx.label("unbounded recursion (not judged here)");
                return Ok(());
            }
            let wher: Vec<&str> = se.lines().filter(|l| l.contains("src/") && (l.contains("_map.rs") || l.contains("optionals.rs"))).take(3).map(|l| l.trim()).collect();
            let h = at.and_then(|i| c.batch.get(i)).map(|b| b.hex()).unwrap_or_default();
            return Err(format!("{} [{}] in history {h}", l.trim(), wher.join("; ")));
        }
        use std::os::unix::process::ExitStatusExt;
        match (out.status.code(), out.status.signal()) {
            // the program was stopped for taking too long, or aborted: that is no misuse of memory
            (Some(124) | Some(137), _) => cx.label("ran too long (not judged here)"),
            (_, Some(libc_sigsegv)) if libc_sigsegv == 11 || libc_sigsegv == 7 => return Err(format!("killed by signal {libc_sigsegv}")),
            (_, Some(_)) | (Some(134), _) => cx.label("aborted (not judged here)"),
            _ if se.contains("abnormal termination") || so.contains("done") => cx.label("aborted (not judged here)"),
            _ if at.is_some() && c.under == Under::Asan => cx.label("aborted (not judged here)"),
            _ => {
                let l: Vec<&str> = se.lines().filter(|l| l.contains("error")).take(3).collect();
                return Err(format!("HARNESS: {:?} exited with {:?}: {}", c.under, out.status, l.join(" | ")));
            }
        }
        Ok(())
    }
}
