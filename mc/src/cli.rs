//! Runs the real client binary in a scratch directory against a mock cluster.

use {
    crate::{cluster::Cluster, ed::Key, ledgerdb},
    solana_program::pubkey::Pubkey,
    std::{
        io::Read,
        path::PathBuf,
        process::{Command, Stdio},
        sync::{
            atomic::{AtomicU64, Ordering},
            Arc, Mutex,
        },
        time::{Duration, Instant},
    },
};

static NEXT: AtomicU64 = AtomicU64::new(0);

fn verif() -> PathBuf {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into()
}

fn binary() -> PathBuf {
    std::env::var("MC_CLI").unwrap_or_else(|_| "/repo/target/debug/spl-slashing".into()).into()
}

/// A directory of our own, removed when dropped.
pub struct Scratch {
    pub dir: PathBuf,
}

impl Scratch {
    pub fn new() -> Self {
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let dir = std::env::temp_dir().join(format!("mc-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        Self { dir }
    }
    pub fn key(&self, name: &str, k: &Key) -> String {
        let p = self.dir.join(format!("{name}.json"));
        std::fs::write(&p, format!("{:?}", k.to_bytes())).unwrap();
        p.display().to_string()
    }
    pub fn config(&self, url: &str, keypair: &str) -> String {
        let p = self.dir.join("config.yml");
        std::fs::write(
            &p,
            format!(
                "---\njson_rpc_url: \"{url}\"\nwebsocket_url: \"\"\nkeypair_path: \"{keypair}\"\naddress_labels: {{}}\ncommitment: confirmed\n"
            ),
        )
        .unwrap();
        p.display().to_string()
    }
    pub fn ledger(&self, entries: &[(u64, Vec<u8>, Vec<u8>)]) -> String {
        self.ledger_with(entries, &[])
    }
    pub fn ledger_with(&self, entries: &[(u64, Vec<u8>, Vec<u8>)], blocks: &[ledgerdb::Block]) -> String {
        let d = self.dir.join("ledger");
        ledgerdb::write(&d, &verif().join("cli/ledger"), entries, blocks).unwrap();
        d.display().to_string()
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

#[derive(Clone, Debug)]
pub struct Ran {
    /// `None`: killed by a signal, or by us after the time limit.
    pub code: Option<i32>,
    pub hung: bool,
    pub stdout: String,
    pub stderr: String,
}

impl Ran {
    pub fn crashed(&self) -> bool {
        self.hung || self.code.is_none() || self.stderr.contains("panicked at") || self.code == Some(101)
    }
    pub fn label(&self) -> String {
        if self.hung {
            "hangs".into()
        } else if self.crashed() {
            "crashes".into()
        } else {
            match self.code {
                Some(0) => "succeeds".into(),
                Some(1) => "fails cleanly".into(),
                c => format!("exit code {c:?}"),
            }
        }
    }
    pub fn tail(&self) -> String {
        let t: String = self.stderr.chars().filter(|c| *c != '\n').collect();
        t.chars().take(300).collect()
    }
}

fn shim() -> PathBuf {
    verif().join("mc/target/nofile.so")
}

pub fn run(s: &Scratch, args: &[String]) -> Ran {
    run_limited(s, args, Duration::from_secs(90), None)
}

/// With `until`, the client is killed as soon as it returns true; it can ask
/// what was printed so far.
pub fn run_limited(
    s: &Scratch,
    args: &[String],
    limit: Duration,
    mut until: Option<&mut dyn FnMut(&dyn Fn() -> String) -> bool>,
) -> Ran {
    let mut c = Command::new(binary())
        .args(args)
        .env_clear()
        .env("HOME", &s.dir)
        .env("PATH", "/usr/bin:/bin")
        .env("TMPDIR", &s.dir)
        .env("RUST_LOG", "error")
        .env("RUST_BACKTRACE", "0")
        .env("LD_PRELOAD", shim())
        .envs(s.dir.join("names").exists().then(|| ("MC_NAMES", s.dir.join("names"))))
        .current_dir(&s.dir)
        .stdin(std::fs::File::open(s.dir.join("stdin")).map_or(Stdio::null(), Stdio::from))
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("cannot start the client");
    let (mut o, mut e) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
    let said = Arc::new(Mutex::new(vec![]));
    let out = std::thread::spawn({
        let said = said.clone();
        move || {
            let mut b = [0; 4096];
            while let Ok(n) = o.read(&mut b) {
                if n == 0 {
                    break;
                }
                said.lock().unwrap().extend_from_slice(&b[..n]);
            }
        }
    });
    let err = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = e.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    });
    let t0 = Instant::now();
    let mut hung = false;
    let code = loop {
        match c.try_wait() {
            Ok(Some(st)) => break st.code(),
            Ok(None) => {}
            Err(_) => break None,
        }
        let printed = || String::from_utf8_lossy(&said.lock().unwrap()).into_owned();
        if until.as_mut().is_some_and(|u| u(&printed)) {
            let _ = c.kill();
            let _ = c.wait();
            break Some(0);
        }
        if t0.elapsed() > limit {
            hung = true;
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(3));
    };
    out.join().unwrap();
    let stdout = String::from_utf8_lossy(&said.lock().unwrap()).into_owned();
    Ran { code, hung, stdout, stderr: err.join().unwrap() }
}

/// Does the client wait in vain?
pub fn forsaken(c: &Cluster) -> bool {
    c.state.lock().unwrap().forsaken >= 7
}

/// Everything a test of one command needs.
pub struct Bench {
    pub scratch: Scratch,
    pub cluster: Cluster,
    pub default: Key,
}

impl Bench {
    pub fn new(cluster: Cluster) -> Self {
        Self { scratch: Scratch::new(), cluster, default: Key::new("default signer") }
    }
    pub fn payer() -> Pubkey {
        Key::new("default signer").pubkey()
    }
    /// `-C <config> args...`
    pub fn run(&self, args: &[&str]) -> Ran {
        run(&self.scratch, &self.line(args))
    }
    /// The same, but the client is ended when it only waits for a transaction
    /// in a block that was abandoned.
    pub fn run_patiently(&self, args: &[&str]) -> Ran {
        let v = self.line(args);
        let mut until = |_: &dyn Fn() -> String| forsaken(&self.cluster);
        run_limited(&self.scratch, &v, Duration::from_secs(90), Some(&mut until))
    }
    fn line(&self, args: &[&str]) -> Vec<String> {
        let k = self.scratch.key("default", &self.default);
        let c = self.scratch.config(&self.cluster.url, &k);
        let mut v = vec!["-C".to_string(), c];
        v.extend(args.iter().map(|s| s.to_string()));
        v
    }
}
