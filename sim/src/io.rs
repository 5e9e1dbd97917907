//! The simulated file system and the `Io` implementation that is given to the code under test.
//!
//! Every call is an event. Plans decide how many bytes a call moves and which calls are
//! interrupted; triggers inject faults, crashes and changes by other processes at points that
//! are named by what is being done (the n-th open of a file, a byte of a file).

use crate::{
    alloc,
    choices::{hash_bytes, mix, Rng},
    sched::Gate,
};
use std::{
    collections::{BTreeMap, BTreeSet},
    fmt,
    io::{self, Read, Seek, SeekFrom, Write},
    ops::Sub,
    panic::resume_unwind,
    sync::{Arc, Mutex, MutexGuard},
    time::Duration,
};

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Dir,
    File(Arc<Vec<u8>>),
}

#[derive(Clone, Debug, Default)]
pub struct Fs {
    pub nodes: BTreeMap<String, Node>,
    pub cwd: String,
}

/// The canonical absolute path: purely lexical.
pub fn canon(cwd: &str, path: &str) -> String {
    let mut r: Vec<&str> = vec![];
    let full = if path.starts_with('/') {
        path.to_string()
    } else {
        format!("{cwd}/{path}")
    };
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                r.pop();
            }
            c => r.push(c),
        }
    }
    format!("/{}", r.join("/"))
}

pub fn parent(path: &str) -> String {
    match path.rsplit_once('/') {
        Some(("", _)) | None => "/".to_string(),
        Some((p, _)) => p.to_string(),
    }
}

impl Fs {
    pub fn new(cwd: &str) -> Fs {
        let mut fs = Fs {
            nodes: [("/".to_string(), Node::Dir)].into(),
            cwd: cwd.to_string(),
        };
        fs.mkdirs(cwd);
        fs
    }
    pub fn mkdirs(&mut self, path: &str) {
        let mut p = String::new();
        for c in path.split('/').filter(|c| !c.is_empty()) {
            p = format!("{p}/{c}");
            self.nodes.entry(p.clone()).or_insert(Node::Dir);
        }
    }
    pub fn put(&mut self, path: &str, data: &[u8]) {
        self.mkdirs(&parent(path));
        self.nodes
            .insert(path.to_string(), Node::File(Arc::new(data.to_vec())));
    }
    pub fn file(&self, path: &str) -> Option<&Arc<Vec<u8>>> {
        match self.nodes.get(path) {
            Some(Node::File(f)) => Some(f),
            _ => None,
        }
    }
    /// Resolves as a POSIX system without symbolic links does.
    pub fn resolve(&self, path: &str) -> Result<String, i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.contains('\0') {
            return Err(libc::EINVAL);
        }
        let mut at = if path.starts_with('/') {
            "/".to_string()
        } else {
            self.cwd.clone()
        };
        for c in path.split('/') {
            if c.is_empty() {
                continue;
            }
            match self.nodes.get(&at) {
                Some(Node::Dir) => {}
                Some(_) => return Err(libc::ENOTDIR),
                None => return Err(libc::ENOENT),
            }
            match c {
                "." => {}
                ".." => at = parent(&at),
                c if c.len() > 255 => return Err(libc::ENAMETOOLONG),
                c => at = if at == "/" { format!("/{c}") } else { format!("{at}/{c}") },
            }
        }
        if path.ends_with('/') {
            match self.nodes.get(&at) {
                Some(Node::Dir) => {}
                Some(_) => return Err(libc::ENOTDIR),
                None => return Err(libc::ENOENT),
            }
        }
        Ok(at)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Op {
    Open,
    Read,
    CloseRead,
    Create,
    Write,
    CloseWrite,
    Any,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Fail(i32),
    Eintr(u32),
    /// the end of the file is reported here
    Eof,
    /// a write accepts nothing
    Zero,
    Crash,
    /// another process changes files: the new content or a removal
    Mutate(Vec<(String, Option<Arc<Vec<u8>>>)>),
}

#[derive(Clone, Debug)]
pub struct Trigger {
    pub op: Op,
    /// canonical path
    pub path: Option<String>,
    /// which open of the path, from 0
    pub nth: u32,
    /// position in the file, or the number of the event for `Op::Any`
    pub at: usize,
    pub act: Act,
    pub fired: u32,
}

impl Trigger {
    pub fn new(op: Op, path: Option<&str>, nth: u32, at: usize, act: Act) -> Trigger {
        Trigger {
            op,
            path: path.map(|p| p.to_string()),
            nth,
            at,
            act,
            fired: 0,
        }
    }
}

/// Calls that moved data, after which transfers are neither short nor interrupted.
const MANY: usize = 200_000;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunk {
    Full,
    Fixed(usize),
    /// up to a maximum
    Random(usize),
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub read: Chunk,
    pub write: Chunk,
    /// interrupted calls of 256
    pub eintr: u32,
    pub seed: u64,
    pub triggers: Vec<Trigger>,
    /// calls; unless exact, calls that move data are not counted
    pub max_events: usize,
    pub exact: bool,
    /// the working directory cannot be determined
    pub no_cwd: bool,
}

impl Default for Plan {
    fn default() -> Self {
        Plan {
            read: Chunk::Full,
            write: Chunk::Full,
            eintr: 0,
            seed: 0,
            triggers: vec![],
            max_events: 200_000,
            exact: false,
            no_cwd: false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Delivery {
    pub path: String,
    pub spelled: String,
    pub bytes: Vec<u8>,
    /// the end of the file was reported
    pub complete: bool,
    pub failed: bool,
    pub reads: usize,
    pub opened: bool,
    /// what the file holds for this reader; cut where an early end was reported
    pub content: Arc<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub op: &'static str,
    pub path: String,
    pub pos: usize,
    /// bytes or the negated error
    pub res: i64,
}

impl fmt::Display for Event {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{} {} @{} -> {}", self.op, self.path, self.pos, self.res)
    }
}

#[derive(Default)]
pub struct Client {
    pub plan: Plan,
    pub rng: u64,
    pub events: usize,
    /// calls that moved data
    pub moved: usize,
    pub log: Vec<Event>,
    pub deliveries: Vec<Delivery>,
    pub opens: BTreeMap<String, u32>,
    pub creates: BTreeMap<String, u32>,
    pub dead: bool,
    pub budget_hit: bool,
    pub trace: u64,
    pub fired: BTreeMap<&'static str, u64>,
    /// files that were created, truncated or written
    pub touched: BTreeSet<String>,
    /// the number of deliveries before the first creation of a file
    pub at_create: Option<usize>,
    pub crashed: bool,
    pub journal: Option<Journal>,
}

/// Thrown at the point of a simulated crash.
pub struct Crash;

/// Creations and writes, recorded in memory that outlives the process.
#[derive(Clone, Copy)]
pub struct Journal {
    p: *mut u8,
    cap: usize,
}

unsafe impl Send for Journal {}

impl Journal {
    /// # Safety
    /// `p` is a shared mapping of `cap` bytes
    pub unsafe fn new(p: *mut u8, cap: usize) -> Journal {
        (p as *mut u64).write(8);
        Journal { p, cap }
    }
    /// # Safety
    /// `p` is a shared mapping of `cap` bytes
    pub unsafe fn attach(p: *mut u8, cap: usize) -> Journal {
        Journal { p, cap }
    }
    pub fn add(&self, tag: u8, data: &[u8]) {
        unsafe {
            let n = (self.p as *mut u64).read() as usize;
            assert!(n + 5 + data.len() <= self.cap, "journal is full");
            self.p.add(n).write(tag);
            (self.p.add(n + 1) as *mut u32).write_unaligned(data.len() as u32);
            self.p.add(n + 5).copy_from(data.as_ptr(), data.len());
            (self.p as *mut u64).write((n + 5 + data.len()) as u64);
        }
    }
    pub fn read(&self) -> Vec<(u8, Vec<u8>)> {
        let mut r = vec![];
        unsafe {
            let end = (self.p as *mut u64).read() as usize;
            let mut i = 8;
            while i < end {
                let t = *self.p.add(i);
                let l = (self.p.add(i + 1) as *mut u32).read_unaligned() as usize;
                r.push((
                    t,
                    std::slice::from_raw_parts(self.p.add(i + 5), l).to_vec(),
                ));
                i += 5 + l;
            }
        }
        r
    }
}

impl Client {
    pub fn new(plan: Plan) -> Client {
        let rng = plan.seed;
        Client {
            plan,
            rng,
            ..Default::default()
        }
    }
    fn rand(&mut self, n: usize) -> usize {
        let mut r = Rng::new(self.rng);
        self.rng = r.next();
        (self.rng >> 11) as usize % n
    }
    fn fire(&mut self, k: &'static str) {
        *self.fired.entry(k).or_default() += 1;
    }
    fn event(&mut self, op: &'static str, path: &str, pos: usize, res: i64) {
        self.trace = mix(
            hash_bytes(self.trace, path.as_bytes()),
            hash_bytes(pos as u64, op.as_bytes()) ^ res as u64,
        );
        self.events += 1;
        if res > 0 {
            self.moved += 1;
        }
        if self.log.len() < 400 {
            self.log.push(Event {
                op,
                path: path.to_string(),
                pos,
                res,
            });
        }
    }
}

#[derive(Clone)]
pub struct SimIo {
    pub fs: Arc<Mutex<Fs>>,
    pub client: Arc<Mutex<Client>>,
    pub args: Vec<String>,
    pub gate: Option<(Arc<Gate>, usize)>,
}

fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

/// Kinds of errors that need not come from the operating system.
pub const KINDS: [io::ErrorKind; 21] = [
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Unsupported,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Other,
    io::ErrorKind::StorageFull,
    io::ErrorKind::NotADirectory,
    io::ErrorKind::IsADirectory,
    io::ErrorKind::ResourceBusy,
];

/// An error of the operating system, or of a kind if the number is negative.
pub fn os(e: i32) -> io::Error {
    match e {
        e if e < 0 => {
            let e = -(e + 1) as usize;
            let kind = KINDS[e / 2 % KINDS.len()];
            match e % 2 {
                0 => kind.into(),
                _ => io::Error::new(kind, "simulated"),
            }
        }
        e => io::Error::from_raw_os_error(e),
    }
}

const CLOSED: i32 = libc::EIO;

fn err_name(e: i32) -> &'static str {
    if e < 0 {
        return match os(e).kind() {
            io::ErrorKind::NotFound => "NotFound",
            io::ErrorKind::PermissionDenied => "PermissionDenied",
            io::ErrorKind::ConnectionRefused => "ConnectionRefused",
            io::ErrorKind::ConnectionReset => "ConnectionReset",
            io::ErrorKind::ConnectionAborted => "ConnectionAborted",
            io::ErrorKind::NotConnected => "NotConnected",
            io::ErrorKind::BrokenPipe => "BrokenPipe",
            io::ErrorKind::AlreadyExists => "AlreadyExists",
            io::ErrorKind::WouldBlock => "WouldBlock",
            io::ErrorKind::InvalidInput => "InvalidInput",
            io::ErrorKind::InvalidData => "InvalidData",
            io::ErrorKind::TimedOut => "TimedOut",
            io::ErrorKind::WriteZero => "WriteZero",
            io::ErrorKind::UnexpectedEof => "UnexpectedEof",
            io::ErrorKind::Unsupported => "Unsupported",
            io::ErrorKind::OutOfMemory => "OutOfMemory",
            io::ErrorKind::Other => "Other",
            io::ErrorKind::StorageFull => "StorageFull",
            io::ErrorKind::NotADirectory => "NotADirectory",
            io::ErrorKind::IsADirectory => "IsADirectory",
            io::ErrorKind::ResourceBusy => "ResourceBusy",
            _ => "kind",
        };
    }
    match e {
        libc::ENOENT => "ENOENT",
        libc::EACCES => "EACCES",
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EMFILE => "EMFILE",
        libc::EISDIR => "EISDIR",
        libc::EROFS => "EROFS",
        libc::EDQUOT => "EDQUOT",
        libc::ESTALE => "ESTALE",
        libc::ELOOP => "ELOOP",
        libc::EWOULDBLOCK => "EWOULDBLOCK",
        libc::EFBIG => "EFBIG",
        libc::EPIPE => "EPIPE",
        libc::ETIMEDOUT => "ETIMEDOUT",
        libc::EPERM => "EPERM",
        libc::EINVAL => "EINVAL",
        libc::ENOMEM => "ENOMEM",
        libc::ENXIO => "ENXIO",
        libc::ENODEV => "ENODEV",
        libc::ECONNRESET => "ECONNRESET",
        libc::EBADF => "EBADF",
        libc::EBUSY => "EBUSY",
        libc::ENAMETOOLONG => "ENAMETOOLONG",
        libc::ENOTDIR => "ENOTDIR",
        libc::ETXTBSY => "ETXTBSY",
        libc::ENOLCK => "ENOLCK",
        libc::EREMOTEIO => "EREMOTEIO",
        libc::EOVERFLOW => "EOVERFLOW",
        _ => "errno",
    }
}

fn fault_name(op: Op, a: &Act) -> &'static str {
    let e = match a {
        Act::Fail(e) => err_name(*e),
        _ => "",
    };
    macro_rules! names {
        ($($x:literal)*) => {
            match (op, e) {
                $((Op::Open, $x) => concat!("open ", $x),
                (Op::Read, $x) => concat!("read ", $x),
                (Op::Create, $x) => concat!("create ", $x),
                (Op::Write, $x) => concat!("write ", $x),)*
                (Op::Open, _) => "open other error",
                (Op::Read, _) => "read other error",
                (Op::Create, _) => "create other error",
                _ => "write other error",
            }
        };
    }
    match a {
        Act::Fail(_) => names!("ENOENT" "EACCES" "EIO" "ENOSPC" "EMFILE" "EISDIR" "EROFS" "EDQUOT" "ESTALE" "ELOOP" "EWOULDBLOCK" "EFBIG" "EPIPE" "ETIMEDOUT"
            "EPERM" "EINVAL" "ENOMEM" "ENXIO" "ENODEV" "ECONNRESET" "EBADF" "EBUSY" "ENAMETOOLONG" "ENOTDIR" "ETXTBSY" "ENOLCK" "EREMOTEIO" "EOVERFLOW"
            "NotFound" "PermissionDenied" "ConnectionRefused" "ConnectionReset" "ConnectionAborted" "NotConnected" "BrokenPipe" "AlreadyExists" "WouldBlock" "InvalidInput" "InvalidData" "TimedOut" "WriteZero" "UnexpectedEof" "Unsupported" "OutOfMemory" "Other" "StorageFull" "NotADirectory" "IsADirectory" "ResourceBusy"),
        Act::Eintr(_) => match op {
            Op::Read => "read EINTR",
            Op::Open => "open EINTR",
            _ => "write EINTR",
        },
        Act::Eof => "early end of file",
        Act::Zero => "write of zero bytes",
        Act::Crash => match op {
            Op::Open => "crash at open",
            Op::Read => "crash while reading",
            Op::CloseRead => "crash after reading",
            Op::Create => "crash at create",
            Op::Write => "crash while writing",
            Op::CloseWrite => "crash after writing",
            Op::Any => "crash at event",
        },
        Act::Mutate(_) => "concurrent change of files",
    }
}

impl SimIo {
    pub fn new(fs: Fs, plan: Plan, args: &[&str]) -> SimIo {
        SimIo {
            fs: Arc::new(Mutex::new(fs)),
            client: Arc::new(Mutex::new(Client::new(plan))),
            args: args.iter().map(|x| x.to_string()).collect(),
            gate: None,
        }
    }
    pub fn fs(&self) -> MutexGuard<'_, Fs> {
        lock(&self.fs)
    }
    pub fn client(&self) -> MutexGuard<'_, Client> {
        lock(&self.client)
    }
    fn enter(&self) -> io::Result<()> {
        if let Some((g, i)) = &self.gate {
            g.pause(*i);
        }
        let (crash, budget) = {
            let mut c = self.client();
            if c.dead {
                return Err(os(CLOSED));
            }
            let free = if c.plan.exact { 0 } else { c.moved };
            if c.events - free >= c.plan.max_events {
                c.budget_hit = true;
                c.dead = true;
                (false, true)
            } else {
                let n = c.events;
                (self.trigger(&mut c, Op::Any, "", 0, n).is_some(), false)
            }
        };
        if crash || budget {
            self.crash()
        }
        Ok(())
    }
    fn crash(&self) -> ! {
        {
            let mut c = self.client();
            c.dead = true;
            c.crashed = true;
        }
        resume_unwind(Box::new(Crash))
    }
    /// Fires the triggers at a point; mutations are applied, other actions are returned.
    fn trigger(&self, c: &mut Client, op: Op, path: &str, nth: u32, at: usize) -> Option<Act> {
        let mut i = 0;
        while i < c.plan.triggers.len() {
            let t = &c.plan.triggers[i];
            let hit = t.op == op
                && t.at == at
                && (op == Op::Any || (t.nth == nth && t.path.as_deref().map_or(true, |p| p == path)));
            if !hit {
                i += 1;
                continue;
            }
            let name = fault_name(op, &t.act);
            match t.act.clone() {
                Act::Mutate(m) => {
                    if t.fired == 0 {
                        c.plan.triggers[i].fired = 1;
                        c.fire(name);
                        for (p, data) in m {
                            c.event("other process", &p, 0, data.as_ref().map_or(-1, |d| d.len() as i64));
                            let mut fs = self.fs();
                            match data {
                                Some(d) => {
                                    fs.nodes.insert(p, Node::File(d));
                                }
                                None => {
                                    fs.nodes.remove(&p);
                                }
                            }
                        }
                    }
                }
                Act::Eintr(n) => {
                    if t.fired < n {
                        c.plan.triggers[i].fired += 1;
                        c.fire(name);
                        return Some(Act::Eintr(1));
                    }
                }
                a => {
                    let sticky = matches!(op, Op::Read | Op::Write);
                    if t.fired == 0 || sticky {
                        if t.fired == 0 {
                            c.fire(name);
                        }
                        c.plan.triggers[i].fired += 1;
                        return Some(a);
                    }
                }
            }
            i += 1;
        }
        None
    }
    /// The position of the next trigger in a file.
    fn next_at(c: &Client, op: Op, path: &str, nth: u32, pos: usize) -> usize {
        c.plan
            .triggers
            .iter()
            .filter(|t| {
                t.op == op
                    && t.nth == nth
                    && t.at > pos
                    && t.path.as_deref().map_or(true, |p| p == path)
            })
            .map(|t| t.at)
            .min()
            .unwrap_or(usize::MAX)
    }
    fn limit(c: &mut Client, chunk: Chunk, n: usize) -> usize {
        let r = match chunk {
            // a file of millions of bytes is not moved byte by byte
            _ if c.moved > MANY => n,
            Chunk::Full => n,
            Chunk::Fixed(k) => n.min(k),
            Chunk::Random(k) => n.min(1 + c.rand(k)),
        };
        if r < n {
            c.fire("short transfer");
        }
        r
    }
    fn interrupted(c: &mut Client, name: &'static str) -> bool {
        if c.plan.eintr > 0 && c.moved <= MANY && (c.rand(256) as u32) < c.plan.eintr {
            c.fire(name);
            // it is no call without progress
            c.moved += 1;
            true
        } else {
            false
        }
    }
}

pub struct SimFile {
    io: SimIo,
    path: String,
    nth: u32,
    pos: usize,
    /// the content at the time of the open
    data: Option<Arc<Vec<u8>>>,
    dir: bool,
    delivery: usize,
}

impl fmt::Debug for SimFile {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SimFile")
    }
}

enum Step {
    Done(io::Result<usize>),
    Crash,
}

impl Read for SimFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        alloc::off(|| {
            self.io.enter()?;
            let step = {
                let io = self.io.clone();
                let mut c = io.client();
                let c = &mut *c;
                let Some(data) = self.data.clone() else {
                    return Err(os(libc::EBADF));
                };
                if self.dir {
                    c.event("read", &self.path, 0, -libc::EISDIR as i64);
                    c.deliveries[self.delivery].failed = true;
                    return Err(os(libc::EISDIR));
                }
                if SimIo::interrupted(c, "read EINTR") {
                    c.event("read", &self.path, self.pos, -libc::EINTR as i64);
                    Step::Done(Err(os(libc::EINTR)))
                } else {
                    c.deliveries[self.delivery].reads += 1;
                    let act = io.trigger(c, Op::Read, &self.path, self.nth, self.pos);
                    match act {
                        Some(Act::Fail(e)) => {
                            c.event("read", &self.path, self.pos, -(e.abs() as i64));
                            c.deliveries[self.delivery].failed = true;
                            Step::Done(Err(os(e)))
                        }
                        Some(Act::Eintr(_)) => {
                            c.event("read", &self.path, self.pos, -libc::EINTR as i64);
                            Step::Done(Err(os(libc::EINTR)))
                        }
                        Some(Act::Crash) => {
                            c.event("crash", &self.path, self.pos, 0);
                            Step::Crash
                        }
                        Some(Act::Eof) => {
                            c.event("read", &self.path, self.pos, 0);
                            let pos = self.pos;
                            let d = &mut c.deliveries[self.delivery];
                            d.complete = true;
                            d.content = Arc::new(data[..pos].to_vec());
                            Step::Done(Ok(0))
                        }
                        _ => {
                            let stop = SimIo::next_at(c, Op::Read, &self.path, self.nth, self.pos)
                                .min(data.len());
                            let n = buf.len().min(stop - self.pos.min(stop));
                            let n = if n == 0 { 0 } else { SimIo::limit(c, c.plan.read, n) };
                            buf[..n].copy_from_slice(&data[self.pos..self.pos + n]);
                            c.deliveries[self.delivery]
                                .bytes
                                .extend_from_slice(&data[self.pos..self.pos + n]);
                            c.event("read", &self.path, self.pos, n as i64);
                            if n == 0 && !buf.is_empty() {
                                c.deliveries[self.delivery].complete = true;
                            }
                            self.pos += n;
                            Step::Done(Ok(n))
                        }
                    }
                }
            };
            match step {
                Step::Done(r) => r,
                Step::Crash => self.io.crash(),
            }
        })
    }
}

impl Write for SimFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        alloc::off(|| {
            self.io.enter()?;
            let step = {
                let io = self.io.clone();
                let mut c = io.client();
                let c = &mut *c;
                if self.data.is_some() {
                    return Err(os(libc::EBADF));
                }
                if SimIo::interrupted(c, "write EINTR") {
                    c.event("write", &self.path, self.pos, -libc::EINTR as i64);
                    Step::Done(Err(os(libc::EINTR)))
                } else {
                    let act = io.trigger(c, Op::Write, &self.path, self.nth, self.pos);
                    match act {
                        Some(Act::Fail(e)) => {
                            c.event("write", &self.path, self.pos, -(e.abs() as i64));
                            Step::Done(Err(os(e)))
                        }
                        Some(Act::Eintr(_)) => {
                            c.event("write", &self.path, self.pos, -libc::EINTR as i64);
                            Step::Done(Err(os(libc::EINTR)))
                        }
                        Some(Act::Zero) => {
                            c.event("write", &self.path, self.pos, 0);
                            Step::Done(Ok(0))
                        }
                        Some(Act::Crash) => {
                            c.event("crash", &self.path, self.pos, 0);
                            Step::Crash
                        }
                        _ => {
                            let stop = SimIo::next_at(c, Op::Write, &self.path, self.nth, self.pos);
                            let n = buf.len().min(stop - self.pos);
                            let n = if n == 0 { 0 } else { SimIo::limit(c, c.plan.write, n) };
                            let mut fs = io.fs();
                            let node = fs
                                .nodes
                                .entry(self.path.clone())
                                .or_insert_with(|| Node::File(Arc::new(vec![])));
                            if let Node::File(d) = node {
                                let d = Arc::make_mut(d);
                                let end = self.pos + n;
                                if d.len() < end {
                                    d.resize(end, 0);
                                }
                                d[self.pos..end].copy_from_slice(&buf[..n]);
                            }
                            c.event("write", &self.path, self.pos, n as i64);
                            if let Some(j) = &c.journal {
                                j.add(b'w', &buf[..n]);
                            }
                            self.pos += n;
                            Step::Done(Ok(n))
                        }
                    }
                }
            };
            match step {
                Step::Done(r) => r,
                Step::Crash => self.io.crash(),
            }
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Seek for SimFile {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        alloc::off(|| {
            let len = match &self.data {
                Some(d) => d.len(),
                None => self.io.fs().file(&self.path).map_or(0, |d| d.len()),
            };
            let n = match p {
                SeekFrom::Start(n) => n as i64,
                SeekFrom::End(n) => len as i64 + n,
                SeekFrom::Current(n) => self.pos as i64 + n,
            };
            if n < 0 {
                return Err(os(libc::EINVAL));
            }
            self.pos = n as usize;
            Ok(n as u64)
        })
    }
}

impl Drop for SimFile {
    fn drop(&mut self) {
        let crash = alloc::off(|| {
            let mut c = self.io.client();
            if c.dead || std::thread::panicking() {
                return false;
            }
            let op = if self.data.is_some() { Op::CloseRead } else { Op::CloseWrite };
            let act = self.io.trigger(&mut c, op, &self.path, self.nth, 0);
            c.event(
                if self.data.is_some() { "close" } else { "close written" },
                &self.path,
                self.pos,
                0,
            );
            act == Some(Act::Crash)
        });
        if crash {
            alloc::off(|| self.io.crash())
        }
    }
}

#[derive(Clone, Debug)]
pub struct SimMetadata {
    len: u64,
    dir: bool,
}

impl io_trait::Metadata for SimMetadata {
    fn len(&self) -> u64 {
        self.len
    }
    fn is_dir(&self) -> bool {
        self.dir
    }
}

impl io_trait::File for SimFile {
    type Metadata = SimMetadata;
    fn metadata(&self) -> io::Result<SimMetadata> {
        alloc::off(|| {
            let len = match &self.data {
                Some(d) => d.len(),
                None => self.io.fs().file(&self.path).map_or(0, |d| d.len()),
            };
            Ok(SimMetadata {
                len: len as u64,
                dir: self.dir,
            })
        })
    }
}

pub struct SimEntry(String, SimMetadata);

impl io_trait::DirEntry for SimEntry {
    type Metadata = SimMetadata;
    fn path(&self) -> String {
        self.0.clone()
    }
    fn metadata(&self) -> io::Result<SimMetadata> {
        Ok(self.1.clone())
    }
}

#[derive(Clone)]
pub struct SimInstant(u64);

impl Sub for SimInstant {
    type Output = Duration;
    fn sub(self, o: SimInstant) -> Duration {
        Duration::from_micros(self.0.saturating_sub(o.0))
    }
}

pub struct SimStdout;

impl Write for SimStdout {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl io_trait::Io for SimIo {
    type Args = std::vec::IntoIter<String>;
    type File = SimFile;
    type Stdout = SimStdout;
    type Metadata = SimMetadata;
    type DirEntry = SimEntry;
    type Instant = SimInstant;
    fn args(&self) -> Self::Args {
        self.args.clone().into_iter()
    }
    fn stdout(&self) -> SimStdout {
        SimStdout
    }
    fn metadata(&self, path: &str) -> io::Result<SimMetadata> {
        alloc::off(|| {
            self.enter()?;
            let mut c = self.client();
            c.event("metadata", path, 0, 0);
            let fs = self.fs();
            let p = fs.resolve(path).map_err(os)?;
            match fs.nodes.get(&p) {
                None => Err(os(libc::ENOENT)),
                Some(Node::Dir) => Ok(SimMetadata { len: 0, dir: true }),
                Some(Node::File(d)) => Ok(SimMetadata {
                    len: d.len() as u64,
                    dir: false,
                }),
            }
        })
    }
    fn create_dir(&self, path: &str) -> io::Result<()> {
        alloc::off(|| {
            self.enter()?;
            let mut c = self.client();
            let mut fs = self.fs();
            let p = fs.resolve(path).map_err(os)?;
            if fs.nodes.contains_key(&p) {
                return Err(os(libc::EEXIST));
            }
            c.event("create dir", &p, 0, 0);
            c.touched.insert(p.clone());
            fs.nodes.insert(p, Node::Dir);
            Ok(())
        })
    }
    fn create(&self, path: &str) -> io::Result<SimFile> {
        alloc::off(|| {
            self.enter()?;
            let r = {
                let mut c = self.client();
                let c = &mut *c;
                let r = {
                    let fs = self.fs();
                    fs.resolve(path).and_then(|p| {
                        if fs.nodes.get(&p) == Some(&Node::Dir) {
                            return Err(libc::EISDIR);
                        }
                        match fs.nodes.get(&parent(&p)) {
                            Some(Node::Dir) => Ok(p),
                            Some(_) => Err(libc::ENOTDIR),
                            None => Err(libc::ENOENT),
                        }
                    })
                };
                match r {
                    Err(e) => {
                        c.event("create", path, 0, -(e.abs() as i64));
                        Err(Some(e))
                    }
                    Ok(p) => {
                        let nth = *c.creates.entry(p.clone()).and_modify(|x| *x += 1).or_insert(0);
                        match self.trigger(c, Op::Create, &p, nth, 0) {
                            Some(Act::Fail(e)) => {
                                c.event("create", &p, 0, -(e.abs() as i64));
                                Err(Some(e))
                            }
                            Some(Act::Crash) => {
                                c.event("crash", &p, 0, 0);
                                Err(None)
                            }
                            _ => {
                                c.event("create", &p, 0, 0);
                                if c.at_create.is_none() {
                                    c.at_create = Some(c.deliveries.len());
                                }
                                c.touched.insert(p.clone());
                                if let Some(j) = &c.journal {
                                    j.add(b'c', p.as_bytes());
                                }
                                self.fs().nodes.insert(p.clone(), Node::File(Arc::new(vec![])));
                                Ok(SimFile {
                                    io: self.clone(),
                                    path: p,
                                    nth,
                                    pos: 0,
                                    data: None,
                                    dir: false,
                                    delivery: 0,
                                })
                            }
                        }
                    }
                }
            };
            match r {
                Ok(f) => Ok(f),
                Err(Some(e)) => Err(os(e)),
                Err(None) => self.crash(),
            }
        })
    }
    fn open(&self, path: &str) -> io::Result<SimFile> {
        alloc::off(|| {
            self.enter()?;
            let r = {
                let mut c = self.client();
                let c = &mut *c;
                let r = self.fs().resolve(path);
                let spelled = path.to_string();
                let (p, early) = match r {
                    Ok(p) => (p, None),
                    Err(e) => (canon(&self.fs().cwd.clone(), path), Some(e)),
                };
                let nth = *c.opens.entry(p.clone()).and_modify(|x| *x += 1).or_insert(0);
                if let Some(j) = &c.journal {
                    j.add(b'o', p.as_bytes());
                }
                let act = self.trigger(c, Op::Open, &p, nth, 0);
                let node = self.fs().nodes.get(&p).cloned();
                let err = match (act, early, &node) {
                    (Some(Act::Fail(e)), _, _) => Err(Some(e)),
                    (Some(Act::Crash), _, _) => Err(None),
                    (_, Some(e), _) => Err(Some(e)),
                    (_, None, None) => Err(Some(libc::ENOENT)),
                    _ => Ok(()),
                };
                match err {
                    Err(Some(e)) => {
                        c.event("open", &p, 0, -(e.abs() as i64));
                        c.deliveries.push(Delivery {
                            path: p,
                            spelled,
                            bytes: vec![],
                            complete: false,
                            failed: true,
                            reads: 0,
                            opened: false,
                            content: Arc::new(vec![]),
                        });
                        Err(Some(e))
                    }
                    Err(None) => {
                        c.event("crash", &p, 0, 0);
                        Err(None)
                    }
                    Ok(()) => {
                        c.event("open", &p, 0, 0);
                        let (data, dir) = match node {
                            Some(Node::File(d)) => (d, false),
                            _ => (Arc::new(vec![]), true),
                        };
                        c.deliveries.push(Delivery {
                            path: p.clone(),
                            spelled,
                            bytes: vec![],
                            complete: false,
                            failed: dir,
                            reads: 0,
                            opened: true,
                            content: data.clone(),
                        });
                        Ok(SimFile {
                            io: self.clone(),
                            path: p,
                            nth,
                            pos: 0,
                            data: Some(data),
                            dir,
                            delivery: c.deliveries.len() - 1,
                        })
                    }
                }
            };
            match r {
                Ok(f) => Ok(f),
                Err(Some(e)) => Err(os(e)),
                Err(None) => self.crash(),
            }
        })
    }
    fn now(&self) -> SimInstant {
        SimInstant(self.client().events as u64)
    }
    fn read_dir(&self, path: &str) -> io::Result<Vec<SimEntry>> {
        alloc::off(|| {
            self.enter()?;
            let fs = self.fs();
            let p = fs.resolve(path).map_err(os)?;
            Ok(fs
                .nodes
                .iter()
                .filter(|(k, _)| parent(k) == p && k.as_str() != "/")
                .map(|(k, n)| {
                    SimEntry(
                        k.clone(),
                        match n {
                            Node::Dir => SimMetadata { len: 0, dir: true },
                            Node::File(d) => SimMetadata {
                                len: d.len() as u64,
                                dir: false,
                            },
                        },
                    )
                })
                .collect())
        })
    }
    fn current_dir(&self) -> io::Result<String> {
        alloc::off(|| {
            if self.client().plan.no_cwd {
                return Err(io::Error::from_raw_os_error(libc::ENOENT));
            }
            Ok(self.fs().cwd.clone())
        })
    }
    fn set_current_dir(&self, path: &str) -> io::Result<()> {
        alloc::off(|| {
            let p = self.fs().resolve(path).map_err(os)?;
            self.fs().cwd = p;
            Ok(())
        })
    }
}
