//! A mock cluster: a JSON-RPC node on the loopback interface which executes
//! the transactions it is sent with the real programs, can list what happened,
//! and can be told to make one particular request fail.

use {
    crate::rt::{execute, Account, Env, Ix, IxErr, Ledger, TxErr},
    base64::{prelude::BASE64_STANDARD, Engine},
    serde_json::{json, Value},
    solana_program::{
        instruction::{AccountMeta, Instruction},
        program_error::ProgramError,
        pubkey::Pubkey,
        sysvar,
    },
    solana_system_interface::program as system_program,
    std::{
        collections::{BTreeMap, HashMap},
        io::{BufRead, BufReader, Read, Write},
        net::{TcpListener, TcpStream},
        sync::{
            atomic::{AtomicBool, Ordering},
            Arc, Condvar, Mutex,
        },
    },
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    /// The node answers with an error; nothing is executed.
    Error,
    /// The connection breaks before the answer; nothing is executed.
    Broken,
    /// The node answers `null`.
    Null,
    /// The node answers with an empty list.
    Empty,
    /// A transaction is executed, but the answer is lost.
    AckLost,
    /// A transaction is accepted by the node and fails when executed.
    LandsFailing,
    /// A transaction is accepted by the node and never executed.
    Dropped,
    /// A simulation reports an error.
    SimFails,
    /// The node has not yet seen the account as it is now.
    Stale,
    /// A simulation leaves the optional fields out of its answer.
    SimBare,
    /// A transaction is in a block which is confirmed only by the time its
    /// status was asked for that many times.
    Late(u8),
    /// A transaction is in a block which is abandoned by the time its status
    /// was asked for that many times.
    Orphan(u8),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tx {
    pub signature: String,
    pub payer: Pubkey,
    pub ixs: Vec<Instruction>,
    /// All signatures are genuine.
    pub signed: bool,
    pub blockhash: [u8; 32],
    pub bytes: usize,
}

#[derive(Clone, Debug)]
pub struct Request {
    /// Which client: the path of the URL it was given.
    pub who: usize,
    pub method: String,
    /// Stable name: method, what it is about, and how many of these came before.
    pub label: String,
    pub faulted: bool,
    /// For transactions.
    pub tx: Option<Tx>,
    pub executed: Option<Result<(), String>>,
}

pub struct State {
    pub ledger: Ledger,
    initial: Ledger,
    pub env: Env,
    pub leaders: BTreeMap<u64, Pubkey>,
    /// Order in which program accounts are listed.
    pub listing: Vec<Pubkey>,
    pub fault: Option<(String, Fault)>,
    /// The client dies once that many transactions were executed: from then on
    /// nothing it asks for is heard.
    pub cut: Option<usize>,
    pub severed: bool,
    pub views: Option<Views>,
    pending: Vec<Pending>,
    /// How often the status of a transaction in an abandoned block was asked for.
    pub forsaken: usize,
    orphans: Vec<String>,
    /// Status queries since a transaction was confirmed.
    asked: HashMap<String, usize>,
    /// What others do, just before the request of that number is answered.
    pub script: Vec<(usize, Action)>,
    /// Lamports that came from outside.
    pub minted: i128,
    pub requests: Vec<Request>,
    status: HashMap<String, Option<Value>>,
    dropped: bool,
    counts: HashMap<String, usize>,
    proofs: Vec<Pubkey>,
    labels: HashMap<String, String>,
}

/// In what the node's other views differ from what is confirmed: the block not
/// yet confirmed, which will be abandoned, and the last block that is final.
#[derive(Clone, Debug, Default)]
pub struct Views {
    pub processed: Vec<(Pubkey, Option<Account>)>,
    pub finalized: Vec<(Pubkey, Option<Account>)>,
    /// Epochs, of both.
    pub epochs: Option<[u64; 2]>,
}

/// A transaction in a block not yet confirmed.
struct Pending {
    tx: Tx,
    /// Index of the request.
    at: usize,
    /// Status queries until its fate is settled, and what that is.
    left: u8,
    lands: bool,
}

pub type Action = Box<dyn FnOnce(&mut State) + Send>;

/// Decides whose requests are answered: several clients take turns. Only
/// requests that others can notice, or which can notice others, are held back,
/// unless all are to be.
#[derive(Default)]
pub struct Gate {
    turns: Mutex<Turns>,
    moved: Condvar,
}

#[derive(Default)]
struct Turns {
    /// Client and number of its requests; what comes after is not ordered.
    order: std::collections::VecDeque<(usize, usize)>,
    done: [bool; 2],
    busy: bool,
    all: bool,
    /// Requests held back so far, for each client.
    seen: [usize; 2],
}

impl Turns {
    fn next(&mut self) -> Option<usize> {
        while let Some((who, n)) = self.order.front() {
            if *n > 0 && !self.done[*who] {
                return Some(*who);
            }
            self.order.pop_front();
        }
        None
    }
}

impl Gate {
    pub fn set(&self, order: &[(usize, usize)], all: bool) {
        let mut t = self.turns.lock().unwrap();
        *t = Turns { order: order.iter().copied().collect(), all, ..Turns::default() };
    }
    /// A client has ended.
    pub fn finish(&self, who: usize) {
        self.turns.lock().unwrap().done[who] = true;
        self.moved.notify_all();
    }
    pub fn seen(&self) -> [usize; 2] {
        self.turns.lock().unwrap().seen
    }
    fn pass<T>(&self, who: usize, q: &Value, f: impl FnOnce() -> T) -> T {
        let mut t = self.turns.lock().unwrap();
        if !t.all && !visible(q) {
            drop(t);
            return f();
        }
        while t.busy || t.next().is_some_and(|w| w != who) {
            t = self.moved.wait(t).unwrap();
        }
        t.busy = true;
        if let Some((_, n)) = t.order.front_mut() {
            *n -= 1;
        }
        t.seen[who] += 1;
        drop(t);
        let r = f();
        self.turns.lock().unwrap().busy = false;
        self.moved.notify_all();
        r
    }
}

/// Does the order of this request and those of other clients matter?
fn visible(q: &Value) -> bool {
    match q["method"].as_str().unwrap_or("") {
        "getAccountInfo" => pubkey(&q["params"][0]).is_none_or(|k| ![sysvar::rent::id(), sysvar::clock::id(), sysvar::epoch_schedule::id()].contains(&k)),
        "sendTransaction" => {
            let raw = q["params"][0].as_str().unwrap_or("");
            let bytes = match q["params"][1]["encoding"].as_str() {
                Some("base58") => bs58::decode(raw).into_vec().ok(),
                _ => BASE64_STANDARD.decode(raw).ok(),
            };
            bytes
                .as_deref()
                .and_then(parse_tx)
                .is_none_or(|t| t.ixs.iter().any(|i| i.program_id == crate::world::slashing()))
        }
        "getVersion" | "getHealth" | "getSlot" | "getBlockHeight" | "getEpochInfo" | "getLatestBlockhash"
        | "isBlockhashValid" | "getSlotLeaders" | "getSignatureStatuses" | "getMinimumBalanceForRentExemption" => false,
        _ => true,
    }
}

pub struct Cluster {
    pub state: Arc<Mutex<State>>,
    pub gate: Arc<Gate>,
    pub url: String,
    stop: Arc<AtomicBool>,
    addr: std::net::SocketAddr,
}

impl Drop for Cluster {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(self.addr);
    }
}

enum Reply {
    Ok(Value),
    Err(i64, String, Value),
    Broken,
}

impl Cluster {
    pub fn start(ledger: Ledger, env: Env) -> Self {
        let listener = TcpListener::bind("127.0.0.1:0").expect("loopback");
        let addr = listener.local_addr().unwrap();
        let state = Arc::new(Mutex::new(State {
            initial: ledger.clone(),
            ledger,
            env,
            leaders: BTreeMap::new(),
            listing: vec![],
            fault: None,
            cut: None,
            severed: false,
            views: None,
            pending: vec![],
            forsaken: 0,
            orphans: vec![],
            asked: HashMap::new(),
            script: vec![],
            minted: 0,
            requests: vec![],
            status: HashMap::new(),
            dropped: false,
            counts: HashMap::new(),
            proofs: vec![],
            labels: HashMap::new(),
        }));
        let stop = Arc::new(AtomicBool::new(false));
        let gate = Arc::new(Gate::default());
        let (st, sp, ga) = (state.clone(), stop.clone(), gate.clone());
        std::thread::spawn(move || {
            for c in listener.incoming() {
                if sp.load(Ordering::SeqCst) {
                    break;
                }
                let Ok(c) = c else { continue };
                let (st, ga) = (st.clone(), ga.clone());
                std::thread::spawn(move || {
                    let _ = serve(c, &st, &ga);
                });
            }
        });
        Self { state, gate, url: format!("http://{addr}"), stop, addr }
    }
}

fn serve(mut c: TcpStream, st: &Mutex<State>, gate: &Gate) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    let mut r = BufReader::new(c.try_clone()?);
    loop {
        let mut len = 0usize;
        let mut first = true;
        let mut who = 0;
        loop {
            let mut line = String::new();
            if r.read_line(&mut line)? == 0 {
                return Ok(());
            }
            let l = line.trim_end().to_ascii_lowercase();
            if l.is_empty() {
                if first {
                    continue;
                }
                break;
            }
            if first {
                // POST /<who> HTTP/1.1
                who = usize::from(l.split(' ').nth(1) == Some("/1"));
            }
            first = false;
            if let Some(v) = l.strip_prefix("content-length:") {
                len = v.trim().parse().unwrap_or(0);
            }
        }
        let mut body = vec![0; len];
        r.read_exact(&mut body)?;
        let Ok(q) = serde_json::from_slice::<Value>(&body) else { return Ok(()) };
        let reply = gate.pass(who, &q, || st.lock().unwrap_or_else(|e| e.into_inner()).answer(&q, who));
        let body = match reply {
            Reply::Ok(v) => json!({"jsonrpc": "2.0", "id": q["id"], "result": v}),
            Reply::Err(code, m, data) => {
                json!({"jsonrpc": "2.0", "id": q["id"], "error": {"code": code, "message": m, "data": data}})
            }
            Reply::Broken => {
                c.write_all(b"HTTP/1.1 200 OK\r\ncontent-type: application/json\r\ncontent-length: 4096\r\n\r\n{")?;
                return c.shutdown(std::net::Shutdown::Both);
            }
        }
        .to_string();
        let mut out = format!(
            "HTTP/1.1 200 OK\r\ncontent-type: application/json\r\ncontent-length: {}\r\n\r\n",
            body.len()
        )
        .into_bytes();
        out.extend(body.as_bytes());
        c.write_all(&out)?;
    }
}

// ---------------------------------------------------------------------------
// wire formats

fn shortvec(b: &[u8], o: &mut usize) -> Option<usize> {
    let mut n = 0usize;
    for i in 0..3 {
        let x = *b.get(*o)?;
        *o += 1;
        n |= ((x & 0x7f) as usize) << (7 * i);
        if x & 0x80 == 0 {
            return Some(n);
        }
    }
    None
}

pub fn parse_tx(b: &[u8]) -> Option<Tx> {
    let mut o = 0;
    let ns = shortvec(b, &mut o)?;
    let mut sigs = vec![];
    for _ in 0..ns {
        sigs.push(b.get(o..o + 64)?);
        o += 64;
    }
    let message = b.get(o..)?;
    let (req, ro_s, ro_u) = (*b.get(o)? as usize, *b.get(o + 1)? as usize, *b.get(o + 2)? as usize);
    o += 3;
    let nk = shortvec(b, &mut o)?;
    let mut keys = vec![];
    for _ in 0..nk {
        keys.push(Pubkey::try_from(b.get(o..o + 32)?).ok()?);
        o += 32;
    }
    let blockhash: [u8; 32] = b.get(o..o + 32)?.try_into().ok()?;
    o += 32;
    let ni = shortvec(b, &mut o)?;
    let mut ixs = vec![];
    for _ in 0..ni {
        let p = *b.get(o)? as usize;
        o += 1;
        let na = shortvec(b, &mut o)?;
        let idx = b.get(o..o + na)?.to_vec();
        o += na;
        let nd = shortvec(b, &mut o)?;
        let data = b.get(o..o + nd)?.to_vec();
        o += nd;
        let mut accounts = vec![];
        for i in idx {
            let i = i as usize;
            let signer = i < req;
            let writable = if signer { i < req - ro_s } else { i < nk - ro_u };
            accounts.push(AccountMeta { pubkey: *keys.get(i)?, is_signer: signer, is_writable: writable });
        }
        ixs.push(Instruction { program_id: *keys.get(p)?, accounts, data });
    }
    if o != b.len() || ns != req || keys.is_empty() {
        return None;
    }
    let signed = sigs
        .iter()
        .zip(&keys)
        .all(|(s, k)| crate::ed::verify(k.as_ref(), message, s));
    Some(Tx { signature: bs58::encode(sigs.first()?).into_string(), payer: keys[0], ixs, signed, blockhash, bytes: b.len() })
}

fn error_json(e: &TxErr) -> Value {
    let inner = match &e.err {
        IxErr::Program(ProgramError::Custom(c)) => json!({"Custom": c}),
        IxErr::Program(ProgramError::BorshIoError(_)) => json!({"BorshIoError": "Unknown"}),
        IxErr::Program(p) => {
            // variant names coincide, except for these
            let n = format!("{p:?}");
            match n.as_str() {
                "NotEnoughAccountKeys" | "InvalidArgument" | "InvalidInstructionData" | "InvalidAccountData"
                | "AccountDataTooSmall" | "InsufficientFunds" | "IncorrectProgramId" | "MissingRequiredSignature"
                | "AccountAlreadyInitialized" | "UninitializedAccount" | "AccountBorrowFailed" | "IllegalOwner"
                | "ArithmeticOverflow" => json!(n),
                _ => json!("InvalidArgument"),
            }
        }
        IxErr::Abort(_) => json!("ProgramFailedToComplete"),
        IxErr::Runtime(m) if *m == "insufficient funds for rent" => {
            return json!({"InsufficientFundsForRent": {"account_index": 0}})
        }
        IxErr::Runtime(_) => json!("InvalidRealloc"),
        IxErr::Precompile => json!({"Custom": 0}),
    };
    json!({"InstructionError": [e.index, inner]})
}

/// As asked for in the request's configuration.
fn account_json(a: &Account, config: &Value) -> Value {
    let data = match (config["dataSlice"]["offset"].as_u64(), config["dataSlice"]["length"].as_u64()) {
        (Some(o), Some(n)) => {
            let o = (o as usize).min(a.data.len());
            let n = (n as usize).min(a.data.len() - o);
            &a.data[o..o + n]
        }
        _ => &a.data[..],
    };
    let data58 = || {
        if data.len() > 128 {
            "error: data too large for bs58 encoding".to_string()
        } else {
            bs58::encode(data).into_string()
        }
    };
    json!({
        "lamports": a.lamports,
        "data": match config["encoding"].as_str() {
            // the answer says which one it is
            Some("base64" | "base64+zstd") => json!([BASE64_STANDARD.encode(data), "base64"]),
            Some("base58") => json!([data58(), "base58"]),
            _ => json!(data58()),
        },
        "owner": a.owner.to_string(),
        "executable": false,
        "rentEpoch": u64::MAX,
        "space": a.data.len(),
    })
}

const RECENT: [u8; 32] = [7; 32];
/// Of a block that is abandoned.
const FORKED: [u8; 32] = [8; 32];
/// Largest transaction the network carries.
const PACKET: usize = 1232;


impl State {
    fn context(&self) -> Value {
        json!({"slot": self.env.clock.slot, "apiVersion": "2.3.5"})
    }

    fn describe_tx(&mut self, tx: &Tx) -> String {
        // the proof account a transaction is about
        let mut proof_of = |k: &Pubkey| -> usize {
            if let Some(i) = self.proofs.iter().position(|p| p == k) {
                return i;
            }
            self.proofs.push(*k);
            self.proofs.len() - 1
        };
        for ix in &tx.ixs {
            let acc = |i: usize| ix.accounts.get(i).map(|m| m.pubkey).unwrap_or_default();
            if ix.program_id == system_program::id() && ix.data.first() == Some(&0) {
                return format!("init {}", proof_of(&acc(1)));
            }
            if ix.program_id == spl_record::id() {
                return match ix.data.first() {
                    Some(1) => {
                        let at = ix.data.get(1..9).map_or(0, |b| u64::from_le_bytes(b.try_into().unwrap()));
                        format!("write {} at {at}", proof_of(&acc(0)))
                    }
                    Some(3) => format!("release {}", proof_of(&acc(0))),
                    Some(0) => format!("init {}", proof_of(&acc(0))),
                    _ => format!("record instruction {:?} on {}", ix.data.first(), proof_of(&acc(0))),
                };
            }
            if ix.program_id == crate::world::slashing() {
                return match ix.data.first() {
                    Some(0) => format!("close {}", acc(0)),
                    _ => format!("report {}", proof_of(&acc(0))),
                };
            }
        }
        "other".into()
    }

    fn run(&self, tx: &Tx) -> Result<Ledger, Value> {
        self.run_on(&self.ledger, tx)
    }

    fn run_on(&self, ledger: &Ledger, tx: &Tx) -> Result<Ledger, Value> {
        if !tx.signed {
            return Err(json!("SignatureFailure"));
        }
        if !ledger.contains_key(&tx.payer) {
            return Err(json!("AccountNotFound"));
        }
        if tx.blockhash != RECENT {
            return Err(json!("BlockhashNotFound"));
        }
        let ixs: Vec<Ix> = tx.ixs.iter().map(|i| Ix::from(i.clone())).collect();
        let ex = execute(ledger, &self.env, &ixs);
        match ex.result {
            Ok(()) => Ok(ex.ledger),
            Err(e) => Err(error_json(&e)),
        }
    }

    /// With the transactions of blocks not yet confirmed.
    fn tip(&self) -> Ledger {
        let mut l = self.ledger.clone();
        for p in &self.pending {
            if let Ok(n) = self.run_on(&l, &p.tx) {
                l = n;
            }
        }
        l
    }

    /// The accounts as of the commitment asked for.
    fn view(&self, commitment: &Value) -> Ledger {
        let none = vec![];
        let (mut l, over) = match commitment.as_str() {
            Some("processed") => (self.tip(), self.views.as_ref().map_or(&none, |v| &v.processed)),
            Some("confirmed") => (self.ledger.clone(), &none),
            _ => (self.ledger.clone(), self.views.as_ref().map_or(&none, |v| &v.finalized)),
        };
        for (k, a) in over {
            match a {
                Some(a) => crate::rt::put(&mut l, *k, a.lamports, a.data.clone(), a.owner),
                None => drop(l.remove(k)),
            }
        }
        l
    }

    fn epoch(&self, commitment: &Value) -> u64 {
        let other = self.views.as_ref().and_then(|v| v.epochs);
        match (commitment.as_str(), other) {
            (Some("confirmed"), _) | (_, None) => self.env.clock.epoch,
            (Some("processed"), Some(e)) => e[0],
            (_, Some(e)) => e[1],
        }
    }

    /// The status of a transaction was asked for.
    fn settle(&mut self, signature: &str) {
        self.forsaken += usize::from(self.orphans.iter().any(|o| o == signature));
        let Some(i) = self.pending.iter().position(|p| p.tx.signature == signature) else { return };
        if self.pending[i].left > 0 {
            // 255: nothing ever becomes of it
            self.pending[i].left -= u8::from(self.pending[i].left < 255);
            return;
        }
        let p = self.pending.remove(i);
        if !p.lands {
            return;
        }
        let r = self.run(&p.tx);
        self.requests[p.at].executed = Some(r.as_ref().map(|_| ()).map_err(|e| e.to_string()));
        let e = match r {
            Ok(l) => {
                self.ledger = l;
                None
            }
            Err(e) => Some(e),
        };
        self.status.insert(p.tx.signature, e);
    }

    fn sysvar(&self, k: &Pubkey, commitment: &Value) -> Option<Account> {
        let data = if *k == sysvar::rent::id() {
            bincode::serialize(&self.env.rent).ok()?
        } else if *k == sysvar::clock::id() {
            let mut c = self.env.clock.clone();
            c.epoch = self.epoch(commitment);
            bincode::serialize(&c).ok()?
        } else if *k == sysvar::epoch_schedule::id() {
            bincode::serialize(&self.env.schedule).ok()?
        } else {
            return None;
        };
        Some(Account { lamports: 1, data, owner: sysvar::id() })
    }

    fn answer(&mut self, q: &Value, who: usize) -> Reply {
        if self.severed {
            return Reply::Broken;
        }
        while let Some(i) = self.script.iter().position(|s| s.0 <= self.requests.len()) {
            let (_, act) = self.script.remove(i);
            act(self);
        }
        let method = q["method"].as_str().unwrap_or("").to_string();
        let p = &q["params"];
        let mut tx = None;
        let about = match method.as_str() {
            "getSlotLeaders" => format!(" {}", p[0]),
            "getAccountInfo" => format!(" {}", p[0].as_str().unwrap_or("")),
            "sendTransaction" | "simulateTransaction" => {
                let raw = p[0].as_str().unwrap_or("");
                let bytes = match p[1]["encoding"].as_str() {
                    Some("base58") => bs58::decode(raw).into_vec().ok(),
                    _ => BASE64_STANDARD.decode(raw).ok(),
                };
                tx = bytes.as_deref().filter(|b| b.len() <= PACKET).and_then(parse_tx);
                match &tx {
                    Some(t) => {
                        let l = self.describe_tx(&t.clone());
                        self.labels.insert(t.signature.clone(), l.clone());
                        format!(" {l}")
                    }
                    None => " malformed".into(),
                }
            }
            "getSignatureStatuses" => {
                let s = p[0][0].as_str().unwrap_or("");
                format!(" of {}", self.labels.get(s).cloned().unwrap_or_default())
            }
            _ => String::new(),
        };
        let key = format!("{method}{about}");
        let n = self.counts.entry(key.clone()).or_insert(0);
        let label = format!("{key} #{n}");
        *n += 1;
        let fault = match &self.fault {
            Some((l, f)) if *l == label => Some(*f),
            _ => None,
        };
        let at = self.requests.len();
        self.requests.push(Request {
            who,
            method: method.clone(),
            label,
            faulted: fault.is_some(),
            tx: tx.clone(),
            executed: None,
        });
        match fault {
            Some(Fault::Error) => {
                return Reply::Err(-32603, "Internal error (injected)".into(), Value::Null)
            }
            Some(Fault::Broken) => return Reply::Broken,
            Some(Fault::Null) => {
                // as an empty answer of the shape the method has
                return Reply::Ok(match method.as_str() {
                    "getAccountInfo" => json!({"context": self.context(), "value": null}),
                    "getSignatureStatuses" => json!({"context": self.context(), "value": [null]}),
                    _ => Value::Null,
                });
            }
            Some(Fault::Empty) => return Reply::Ok(json!([])),
            _ => {}
        }
        match method.as_str() {
            "getVersion" => Reply::Ok(json!({"solana-core": "2.3.5", "feature-set": 1})),
            "getHealth" => Reply::Ok(json!("ok")),
            "getSlot" => Reply::Ok(json!(self.env.clock.slot)),
            "getBlockHeight" => Reply::Ok(json!(self.env.clock.slot)),
            "getEpochInfo" => Reply::Ok(json!({
                "epoch": self.epoch(&p[0]["commitment"]),
                "slotIndex": 5, "slotsInEpoch": self.env.schedule.slots_per_epoch,
                "absoluteSlot": self.env.clock.slot, "blockHeight": self.env.clock.slot,
                "transactionCount": 1,
            })),
            "getMinimumBalanceForRentExemption" => {
                Reply::Ok(json!(self.env.rent.minimum_balance(p[0].as_u64().unwrap_or(0) as usize)))
            }
            "getLatestBlockhash" => Reply::Ok(json!({
                "context": self.context(),
                "value": {
                    "blockhash": bs58::encode(match p[0]["commitment"].as_str() {
                        Some("processed") if self.views.is_some() => FORKED,
                        _ => RECENT,
                    })
                    .into_string(),
                    "lastValidBlockHeight": self.env.clock.slot + 150,
                },
            })),
            "isBlockhashValid" => Reply::Ok(json!({"context": self.context(), "value": !self.dropped})),
            "getSlotLeaders" => {
                let s = p[0].as_u64().unwrap_or(0);
                let n = p[1].as_u64().unwrap_or(1);
                let v: Vec<String> = (s..s.saturating_add(n))
                    .filter_map(|s| self.leaders.get(&s).map(|k| k.to_string()))
                    .collect();
                if v.is_empty() {
                    return Reply::Err(-32602, format!("Invalid slot range: leader schedule for slot {s} is not available"), Value::Null);
                }
                Reply::Ok(json!(v))
            }
            "getAccountInfo" => {
                let Some(k) = pubkey(&p[0]) else {
                    return Reply::Err(-32602, "Invalid param".into(), Value::Null);
                };
                if fault == Some(Fault::Stale) {
                    let old = self.initial.get(&k).map(|a| (**a).clone());
                    let old = old.or_else(|| self.ledger.contains_key(&k).then(|| Account { lamports: 1, data: vec![], owner: system_program::id() }));
                    return Reply::Ok(json!({
                        "context": self.context(),
                        "value": old.as_ref().map_or(Value::Null, |a| account_json(a, &p[1])),
                    }));
                }
                let c = &p[1]["commitment"];
                let a = self.sysvar(&k, c).or_else(|| self.view(c).get(&k).map(|a| (**a).clone()));
                Reply::Ok(json!({
                    "context": self.context(),
                    "value": a.as_ref().map_or(Value::Null, |a| account_json(a, &p[1])),
                }))
            }
            "getMultipleAccounts" => {
                let c = &p[1]["commitment"];
                let l = self.view(c);
                let v: Vec<Value> = p[0].as_array().into_iter().flatten().map(|k| {
                    pubkey(k)
                        .and_then(|k| self.sysvar(&k, c).or_else(|| l.get(&k).map(|a| (**a).clone())))
                        .map_or(Value::Null, |a| account_json(&a, &p[1]))
                }).collect();
                Reply::Ok(json!({"context": self.context(), "value": v}))
            }
            "getBalance" => {
                let l = self.view(&p[1]["commitment"]);
                let n = pubkey(&p[0]).and_then(|k| l.get(&k).map(|a| a.lamports)).unwrap_or(0);
                Reply::Ok(json!({"context": self.context(), "value": n}))
            }
            "getProgramAccounts" => {
                let Some(k) = pubkey(&p[0]) else {
                    return Reply::Err(-32602, "Invalid param".into(), Value::Null);
                };
                let l = self.view(&p[1]["commitment"]);
                let mut keys: Vec<Pubkey> =
                    self.listing.iter().filter(|k| l.contains_key(k)).copied().collect();
                keys.extend(l.keys().filter(|k| !self.listing.contains(k)));
                let filters = p[1]["filters"].as_array().cloned().unwrap_or_default();
                let v: Vec<Value> = keys
                    .iter()
                    .filter(|a| l[*a].owner == k)
                    .filter(|a| filters.iter().all(|f| matches(f, &l[*a].data)))
                    .map(|a| json!({"pubkey": a.to_string(), "account": account_json(&l[a], &p[1])}))
                    .collect();
                if p[1]["withContext"] == json!(true) {
                    Reply::Ok(json!({"context": self.context(), "value": v}))
                } else {
                    Reply::Ok(json!(v))
                }
            }
            "getSignatureStatuses" => {
                let asked: Vec<String> =
                    p[0].as_array().into_iter().flatten().map(|s| s.as_str().unwrap_or("").to_string()).collect();
                asked.iter().for_each(|s| self.settle(s));
                let waits = |s: &str| self.pending.iter().any(|p| p.tx.signature == s);
                let v: Vec<Value> = p[0]
                    .as_array()
                    .map(|s| {
                        s.iter()
                            .map(|s| match self.status.get(s.as_str().unwrap_or("")) {
                                None if waits(s.as_str().unwrap_or("")) => json!({
                                    "slot": self.env.clock.slot, "confirmations": 0, "err": null,
                                    "status": {"Ok": null}, "confirmationStatus": "processed",
                                }),
                                None => Value::Null,
                                Some(e) => {
                                    let seen = self.asked.entry(s.to_string()).or_insert(0);
                                    *seen += 1;
                                    // final in the end
                                    let (how, n) = if *seen > 3 { ("finalized", Value::Null) } else { ("confirmed", json!(1)) };
                                    let st = match e {
                                        None => json!({"Ok": null}),
                                        Some(e) => json!({"Err": e}),
                                    };
                                    json!({
                                        "slot": self.env.clock.slot, "confirmations": n, "err": e,
                                        "status": st, "confirmationStatus": how,
                                    })
                                }
                            })
                            .collect()
                    })
                    .unwrap_or_default();
                Reply::Ok(json!({"context": self.context(), "value": v}))
            }
            "simulateTransaction" => {
                let Some(tx) = tx else {
                    return Reply::Err(-32602, "invalid transaction".into(), Value::Null);
                };
                let mut r = self.run(&tx);
                if fault == Some(Fault::SimFails) {
                    r = Err(json!({"InstructionError": [0, {"Custom": 77}]}));
                }
                self.requests[at].executed =
                    Some(r.as_ref().map(|_| ()).map_err(|e| e.to_string()));
                let err = r.err();
                if fault == Some(Fault::SimBare) {
                    return Reply::Ok(json!({"context": self.context(), "value": {
                        "err": err, "logs": null, "accounts": null,
                    }}));
                }
                Reply::Ok(json!({"context": self.context(), "value": {
                    "err": err, "logs": ["Program log: mock"], "accounts": null,
                    "unitsConsumed": 4321, "returnData": null, "innerInstructions": null,
                    "replacementBlockhash": null,
                }}))
            }
            "sendTransaction" => {
                let Some(tx) = tx else {
                    return Reply::Err(-32602, "invalid transaction".into(), Value::Null);
                };
                if fault == Some(Fault::LandsFailing) {
                    let e = json!({"InstructionError": [0, {"Custom": 77}]});
                    self.requests[at].executed = Some(Err(e.to_string()));
                    self.status.insert(tx.signature.clone(), Some(e));
                    return Reply::Ok(json!(tx.signature));
                }
                if fault == Some(Fault::Dropped) {
                    self.dropped = true;
                    return Reply::Ok(json!(tx.signature));
                }
                let known = self.status.contains_key(&tx.signature)
                    || self.pending.iter().any(|p| p.tx.signature == tx.signature);
                let mut r = if known { Err(json!("AlreadyProcessed")) } else { self.run(&tx) };
                let mut wait = match fault {
                    Some(Fault::Late(n)) if r.is_ok() => Some((n, true)),
                    Some(Fault::Orphan(n)) if r.is_ok() => Some((n, false)),
                    _ => None,
                };
                // what builds on a block not yet confirmed shares its fate
                if r.is_err() && !known {
                    if let Some(last) = self.pending.last() {
                        let c = &p[1]["preflightCommitment"];
                        let fine = p[1]["skipPreflight"] == json!(true) || self.run_on(&self.view(c), &tx).is_ok();
                        let tip = self.run_on(&self.tip(), &tx);
                        if fine && tip.is_ok() {
                            wait = Some((last.left, last.lands));
                            r = tip;
                        }
                    }
                }
                if let (Some((left, lands)), Ok(_)) = (wait, &r) {
                    if !lands {
                        self.orphans.push(tx.signature.clone());
                    }
                    self.pending.push(Pending { tx: tx.clone(), at, left, lands });
                    return Reply::Ok(json!(tx.signature));
                }
                self.requests[at].executed =
                    Some(r.as_ref().map(|_| ()).map_err(|e| e.to_string()));
                match r {
                    Ok(l) => {
                        self.ledger = l;
                        self.status.insert(tx.signature.clone(), None);
                        if let Some(n) = &mut self.cut {
                            *n = n.saturating_sub(1);
                            if *n == 0 {
                                self.severed = true;
                                return Reply::Broken;
                            }
                        }
                        if fault == Some(Fault::AckLost) {
                            return Reply::Broken;
                        }
                        Reply::Ok(json!(tx.signature))
                    }
                    Err(e) => Reply::Err(
                        -32002,
                        format!("Transaction simulation failed: {e}"),
                        json!({
                            "err": e, "logs": [], "accounts": null, "unitsConsumed": 0,
                            "returnData": null, "innerInstructions": null, "replacementBlockhash": null,
                        }),
                    ),
                }
            }
            _ => Reply::Err(-32601, format!("Method not found: {method}"), Value::Null),
        }
    }
}

/// Standard getProgramAccounts filters.
fn matches(f: &Value, data: &[u8]) -> bool {
    if let Some(n) = f["dataSize"].as_u64() {
        return data.len() as u64 == n;
    }
    let m = &f["memcmp"];
    if m.is_object() {
        let o = m["offset"].as_u64().unwrap_or(0) as usize;
        let b = match (&m["bytes"], m["encoding"].as_str()) {
            (Value::String(s), Some("base64")) => BASE64_STANDARD.decode(s).unwrap_or_default(),
            (Value::String(s), _) => bs58::decode(s).into_vec().unwrap_or_default(),
            (Value::Array(a), _) => a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
            _ => vec![],
        };
        return data.get(o..o.saturating_add(b.len())) == Some(&b[..]);
    }
    true
}

fn pubkey(v: &Value) -> Option<Pubkey> {
    Pubkey::try_from(bs58::decode(v.as_str()?).into_vec().ok()?.as_slice()).ok()
}
