// In-memory stand-in for `std::fs` and buffered files: nothing a harness does reaches a disk.
use core::sync::atomic::Ordering;
use ::std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

pub const MAX: usize = 352;
pub struct Disk {
    pub exists: bool, pub data: [u8; MAX], pub len: usize,
    /// writes still allowed before a fault; the faulty write stores `torn` bytes first
    pub budget: usize, pub torn: usize, pub short: bool, pub fail_after_short: bool, pub sync_fail: bool,
}
pub static mut DISK: Disk = Disk { exists: false, data: [0; MAX], len: 0, budget: usize::MAX, torn: 0, short: false, fail_after_short: false, sync_fail: false };
pub fn disk() -> &'static mut Disk { unsafe { &mut *core::ptr::addr_of_mut!(DISK) } }
#[cfg(kani)]
fn full() -> ! { kani::assume(false); loop {} }
#[cfg(not(kani))]
fn full() -> ! { eprintln!("MODEL-DISK-FULL"); ::std::process::exit(79) }

fn cp(d: &mut [u8], i: usize, s: &[u8], j: usize, n: usize) { let mut k = 0; while k < n { d[i + k] = s[j + k]; k += 1; } }

#[derive(Debug)]
pub struct File { pos: usize }
#[derive(Clone, Debug)]
pub struct OpenOptions { create: bool, create_new: bool, truncate: bool }
impl OpenOptions {
    pub fn new() -> Self { Self { create: false, create_new: false, truncate: false } }
    pub fn read(&mut self, _: bool) -> &mut Self { self }
    pub fn write(&mut self, _: bool) -> &mut Self { self }
    pub fn append(&mut self, _: bool) -> &mut Self { self }
    pub fn create(&mut self, b: bool) -> &mut Self { self.create = b; self }
    pub fn create_new(&mut self, b: bool) -> &mut Self { self.create_new = b; self }
    pub fn truncate(&mut self, b: bool) -> &mut Self { self.truncate = b; self }
    pub fn open<P: AsRef<str>>(&self, _: P) -> Result<File> {
        let d = disk();
        if self.create_new { if d.exists { return Err(ErrorKind::AlreadyExists.into()); } d.exists = true; d.len = 0; }
        else if !d.exists { if !self.create { return Err(ErrorKind::NotFound.into()); } d.exists = true; d.len = 0; }
        if self.truncate { d.len = 0; }
        Ok(File { pos: 0 })
    }
}
pub struct Metadata { len: u64 }
impl Metadata { pub fn len(&self) -> u64 { self.len } }
impl File {
    pub fn options() -> OpenOptions { OpenOptions::new() }
    pub fn open<P: AsRef<str>>(p: P) -> Result<File> { OpenOptions::new().open(p) }
    pub fn create<P: AsRef<str>>(p: P) -> Result<File> { OpenOptions::new().create(true).truncate(true).open(p).map(|f| f) }
    pub fn metadata(&self) -> Result<Metadata> { Ok(Metadata { len: disk().len as u64 }) }
    pub fn sync_all(&self) -> Result<()> { if disk().sync_fail { Err(ErrorKind::Other.into()) } else { Ok(()) } }
    pub fn sync_data(&self) -> Result<()> { self.sync_all() }
    pub fn set_len(&self, n: u64) -> Result<()> { let d = disk(); if n as usize > MAX { full() } let mut i = d.len; while i < n as usize { d.data[i] = 0; i += 1; } d.len = n as usize; Ok(()) }
}
impl Read for File {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let d = disk();
        let left = d.len.saturating_sub(self.pos);
        let n = if b.len() < left { b.len() } else { left };
        cp(b, 0, &d.data, self.pos, n);
        self.pos += n;
        Ok(n)
    }
    fn read_exact(&mut self, b: &mut [u8]) -> Result<()> {
        let d = disk();
        if d.len < self.pos || d.len - self.pos < b.len() { crate::vp::trap(); self.pos = d.len; return Err(ErrorKind::UnexpectedEof.into()); }
        let n = b.len(); cp(b, 0, &d.data, self.pos, n);
        self.pos += b.len();
        Ok(())
    }
}
impl File {
    fn put(&mut self, b: &[u8]) {
        let d = disk();
        let e = self.pos + b.len();
        if e > MAX { full() }
        cp(&mut d.data, self.pos, b, 0, b.len());
        self.pos = e;
        if e > d.len { d.len = e; }
    }
}
impl Write for File {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let d = disk();
        if d.budget == 0 {
            if d.short {
                // a short write: the OS takes only part of the buffer, later writes succeed
                if d.fail_after_short { d.short = false; } else { d.budget = usize::MAX; }
                let n = if d.torn < b.len() { d.torn } else { b.len() };
                self.put(&b[..n]);
                return Ok(n);
            }
            return Err(ErrorKind::Other.into());
        }
        if d.budget != usize::MAX { d.budget -= 1; }
        self.put(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
impl Seek for File {
    fn seek(&mut self, s: SeekFrom) -> Result<u64> {
        self.pos = match s { SeekFrom::Start(n) => n as usize, SeekFrom::End(n) => (disk().len as i64 + n) as usize, SeekFrom::Current(n) => (self.pos as i64 + n) as usize };
        Ok(self.pos as u64)
    }
    fn stream_position(&mut self) -> Result<u64> { Ok(self.pos as u64) }
}
pub struct BufReader<T> { t: T }
impl<T> BufReader<T> {
    pub fn new(t: T) -> Self { Self { t } }
    pub fn get_ref(&self) -> &T { &self.t }
    pub fn get_mut(&mut self) -> &mut T { &mut self.t }
    pub fn into_inner(self) -> T { self.t }
}
impl<T: Read> Read for BufReader<T> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.t.read(b) }
    fn read_exact(&mut self, b: &mut [u8]) -> Result<()> { self.t.read_exact(b) }
}
impl<T: Seek> Seek for BufReader<T> { fn seek(&mut self, s: SeekFrom) -> Result<u64> { self.t.seek(s) } }
pub struct BufWriter<T> { t: T }
impl<T> BufWriter<T> {
    pub fn new(t: T) -> Self { Self { t } }
    pub fn get_ref(&self) -> &T { &self.t }
    pub fn get_mut(&mut self) -> &mut T { &mut self.t }
    pub fn into_inner(self) -> core::result::Result<T, Error> { Ok(self.t) }
}
impl<T: Write> Write for BufWriter<T> {
    fn write(&mut self, b: &[u8]) -> Result<usize> { self.t.write(b) }
    fn flush(&mut self) -> Result<()> { self.t.flush() }
}
fn no<T>() -> Result<T> { Err(ErrorKind::Unsupported.into()) }
pub fn read<P>(_: P) -> Result<Vec<u8>> { let d = disk(); Ok(d.data[..d.len].to_vec()) }
pub fn create_dir<P>(_: P) -> Result<()> { no() }
pub fn create_dir_all<P>(_: P) -> Result<()> { no() }
pub fn remove_dir<P>(_: P) -> Result<()> { no() }
pub fn remove_dir_all<P>(_: P) -> Result<()> { no() }
pub fn remove_file<P>(_: P) -> Result<()> { no() }
pub fn rename<P, Q>(_: P, _: Q) -> Result<()> { no() }
pub fn write<P, Q>(_: P, _: Q) -> Result<()> { no() }
