//! A recorded file system for the library's `Io`: only the operations the library may use exist,
//! every read and write is logged, and any of them can be made to fail.
use io_trait::Io;
use std::{
    cell::RefCell,
    collections::BTreeMap,
    io::{self, Cursor, Read, Seek, SeekFrom, Write},
    rc::Rc,
};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Read(String),
    Create(String),
    /// Bytes written to a created file.
    Data(String, Vec<u8>),
    Other(String),
}

#[derive(Default, Debug)]
pub struct State {
    pub files: BTreeMap<String, Vec<u8>>,
    pub log: Vec<Op>,
    /// Read number n fails.
    pub fail_read: Option<usize>,
    /// It fails after that many bytes, not when the file is opened.
    pub fail_read_after: Option<usize>,
    /// Files take and give at most this many bytes at a time (0: any number) ...
    pub chunk: usize,
    /// ... and are interrupted every other time.
    pub interrupt: bool,
    pub fail_create: bool,
    /// Writing fails after this many bytes.
    pub fail_data: Option<usize>,
    pub reads: usize,
}

#[derive(Clone, Default)]
pub struct Sim {
    pub st: Rc<RefCell<State>>,
    pub args: Vec<String>,
    /// Names are looked up as the file system would (lexically normalised).
    pub resolve: Option<fn(&str) -> String>,
}

impl Sim {
    pub fn key(&self, p: &str) -> String {
        match self.resolve {
            Some(f) => f(p),
            None => p.to_string(),
        }
    }
    pub fn put(&self, path: &str, data: &[u8]) {
        let k = self.key(path);
        self.st.borrow_mut().files.insert(k, data.to_vec());
    }
    pub fn log(&self) -> Vec<Op> {
        self.st.borrow().log.clone()
    }
    pub fn reads(&self) -> Vec<String> {
        self.st
            .borrow()
            .log
            .iter()
            .filter_map(|o| match o {
                Op::Read(p) => Some(p.clone()),
                _ => None,
            })
            .collect()
    }
    fn other(&self, what: String) -> io::Error {
        self.st.borrow_mut().log.push(Op::Other(what));
        io::Error::other("not available")
    }
}

#[derive(Debug)]
pub enum SimFile {
    In(Cursor<Vec<u8>>, Slow),
    Out(Rc<RefCell<State>>, String, usize, Slow),
}

/// How a file gives or takes its bytes.
#[derive(Debug)]
pub struct Slow {
    chunk: usize,
    interrupt: bool,
    calls: usize,
    fail_after: Option<u64>,
}
impl Slow {
    fn next(&mut self, n: usize) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt && self.calls % 2 == 1 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        Ok(if self.chunk == 0 { n } else { n.min(self.chunk) })
    }
}

impl Read for SimFile {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        match self {
            SimFile::In(c, slow) => {
                let n = slow.next(b.len())?;
                match slow.fail_after {
                    Some(k) if c.position() >= k.min(c.get_ref().len() as u64) => Err(io::Error::other("damaged")),
                    Some(k) => {
                        let n = n.min((k - c.position()) as usize);
                        c.read(&mut b[..n])
                    }
                    None => c.read(&mut b[..n]),
                }
            }
            _ => Err(io::Error::other("not readable")),
        }
    }
}
impl Write for SimFile {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match self {
            SimFile::Out(st, path, done, slow) => {
                let n = slow.next(b.len())?;
                let b = &b[..n];
                let mut st = st.borrow_mut();
                let n = match st.fail_data {
                    Some(lim) if *done >= lim => return Err(io::Error::other("disk full")),
                    Some(lim) => b.len().min(lim - *done),
                    None => b.len(),
                };
                st.log.push(Op::Data(path.clone(), b[..n].to_vec()));
                st.files.entry(path.clone()).or_default().extend_from_slice(&b[..n]);
                *done += n;
                Ok(n)
            }
            _ => Err(io::Error::other("not writable")),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for SimFile {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        match self {
            SimFile::In(c, _) => c.seek(p),
            _ => Err(io::Error::other("not seekable")),
        }
    }
}
#[derive(Clone)]
pub struct Meta(u64);
impl io_trait::Metadata for Meta {
    fn len(&self) -> u64 {
        self.0
    }
    fn is_dir(&self) -> bool {
        false
    }
}
impl io_trait::File for SimFile {
    type Metadata = Meta;
    fn metadata(&self) -> io::Result<Meta> {
        Ok(Meta(match self {
            SimFile::In(c, _) => c.get_ref().len() as u64,
            SimFile::Out(_, _, n, _) => *n as u64,
        }))
    }
}
pub struct NoEntry;
impl io_trait::DirEntry for NoEntry {
    type Metadata = Meta;
    fn path(&self) -> String {
        String::new()
    }
    fn metadata(&self) -> io::Result<Meta> {
        Ok(Meta(0))
    }
}

impl Io for Sim {
    type Args = std::vec::IntoIter<String>;
    type File = SimFile;
    type Stdout = io::Sink;
    type Metadata = Meta;
    type DirEntry = NoEntry;
    type Instant = std::time::Duration;
    fn args(&self) -> Self::Args {
        self.args.clone().into_iter()
    }
    fn stdout(&self) -> io::Sink {
        io::sink()
    }
    fn metadata(&self, p: &str) -> io::Result<Meta> {
        let k = self.key(p);
        match self.st.borrow().files.get(&k) {
            Some(f) => Ok(Meta(f.len() as u64)),
            None => Err(io::ErrorKind::NotFound.into()),
        }
    }
    fn create_dir(&self, p: &str) -> io::Result<()> {
        Err(self.other(format!("create_dir {p}")))
    }
    fn create(&self, p: &str) -> io::Result<SimFile> {
        let k = self.key(p);
        let mut st = self.st.borrow_mut();
        st.log.push(Op::Create(p.to_string()));
        if st.fail_create {
            return Err(io::ErrorKind::PermissionDenied.into());
        }
        st.files.insert(k.clone(), vec![]);
        let slow = Slow { chunk: st.chunk, interrupt: st.interrupt, calls: 0, fail_after: None };
        drop(st);
        Ok(SimFile::Out(self.st.clone(), k, 0, slow))
    }
    fn open(&self, p: &str) -> io::Result<SimFile> {
        let k = self.key(p);
        let mut st = self.st.borrow_mut();
        st.log.push(Op::Read(p.to_string()));
        let n = st.reads;
        st.reads += 1;
        let fail = st.fail_read == Some(n);
        if fail && st.fail_read_after.is_none() {
            return Err(io::ErrorKind::PermissionDenied.into());
        }
        let fail_after = if fail { st.fail_read_after.map(|n| n as u64) } else { None };
        let slow = Slow { chunk: st.chunk, interrupt: st.interrupt, calls: 0, fail_after };
        match st.files.get(&k) {
            Some(f) => Ok(SimFile::In(Cursor::new(f.clone()), slow)),
            None => Err(io::ErrorKind::NotFound.into()),
        }
    }
    fn now(&self) -> std::time::Duration {
        Default::default()
    }
    fn read_dir(&self, p: &str) -> io::Result<Vec<NoEntry>> {
        Err(self.other(format!("read_dir {p}")))
    }
    fn current_dir(&self) -> io::Result<String> {
        Ok(String::new())
    }
    fn set_current_dir(&self, p: &str) -> io::Result<()> {
        Err(self.other(format!("set_current_dir {p}")))
    }
}
