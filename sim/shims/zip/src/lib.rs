//! Stand-in for zip 0.5: the reading half (central directory, stored and deflated members, CRC check,
//! name sanitising as the published crate does it). Streaming: member data is pulled from the reader
//! as the caller reads.
pub mod read { pub use crate::{ZipArchive, ZipFile}; }
pub mod result { pub use crate::{ZipError, ZipResult}; }
use std::fmt;
use std::io::{self, Read, Seek, SeekFrom};
use std::path::{Component, Path, PathBuf};

pub type ZipResult<T> = Result<T, ZipError>;
#[derive(Debug)]
pub enum ZipError { Io(io::Error), InvalidArchive(&'static str), UnsupportedArchive(&'static str), FileNotFound }
impl fmt::Display for ZipError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            ZipError::Io(e) => write!(f, "{}", e),
            ZipError::InvalidArchive(e) => write!(f, "invalid Zip archive: {}", e),
            ZipError::UnsupportedArchive(e) => write!(f, "unsupported Zip archive: {}", e),
            ZipError::FileNotFound => write!(f, "specified file not found in archive"),
        }
    }
}
impl std::error::Error for ZipError {}
impl From<io::Error> for ZipError { fn from(e: io::Error) -> Self { ZipError::Io(e) } }
impl From<ZipError> for io::Error { fn from(e: ZipError) -> Self { io::Error::new(io::ErrorKind::Other, e) } }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CompressionMethod { Stored, Deflated, Unsupported(u16) }

#[derive(Debug, Clone)]
struct FileData { name: String, raw: Vec<u8>, method: CompressionMethod, crc: u32, csize: u64, usize_: u64, header: u64, attrs: u32, system: u8, encrypted: bool }

#[derive(Debug)]
pub struct ZipArchive<R> { reader: R, files: Vec<FileData>, comment: Vec<u8> }

fn u16le(b: &[u8]) -> u16 { u16::from_le_bytes([b[0], b[1]]) }
fn u32le(b: &[u8]) -> u32 { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) }

impl<R: Read + Seek> ZipArchive<R> {
    pub fn new(mut reader: R) -> ZipResult<ZipArchive<R>> {
        let len = reader.seek(SeekFrom::End(0))?;
        if len < 22 { return Err(ZipError::InvalidArchive("Invalid zip header")); }
        let tail_len = len.min(22 + 65535);
        reader.seek(SeekFrom::Start(len - tail_len))?;
        let mut tail = vec![0u8; tail_len as usize];
        reader.read_exact(&mut tail)?;
        let p = (0..=tail.len() - 22).rev().find(|&i| tail[i..i + 4] == [0x50, 0x4b, 5, 6])
            .ok_or(ZipError::InvalidArchive("Could not find central directory end"))?;
        let e = &tail[p..];
        if u16le(&e[4..]) != u16le(&e[6..]) { return Err(ZipError::UnsupportedArchive("Support for multi-disk files is not implemented")); }
        let n = u16le(&e[10..]) as usize;
        let (cd_size, cd_off) = (u32le(&e[12..]) as u64, u32le(&e[16..]) as u64);
        let comment_len = u16le(&e[20..]) as usize;
        let comment = e.get(22..22 + comment_len).map(|c| c.to_vec()).unwrap_or_default();
        let end = len - tail_len + p as u64;
        let archive_offset = end.checked_sub(cd_size).and_then(|v| v.checked_sub(cd_off)).ok_or(ZipError::InvalidArchive("Invalid central directory size or offset"))?;
        reader.seek(SeekFrom::Start(archive_offset + cd_off)).map_err(|_| ZipError::InvalidArchive("Could not seek to start of central directory"))?;
        let mut files = Vec::new();
        for _ in 0..n {
            let mut h = [0u8; 46];
            reader.read_exact(&mut h)?;
            if h[0..4] != [0x50, 0x4b, 1, 2] { return Err(ZipError::InvalidArchive("Invalid Central Directory header")); }
            let (nl, el, cl) = (u16le(&h[28..]) as usize, u16le(&h[30..]) as usize, u16le(&h[32..]) as usize);
            let mut raw = vec![0u8; nl];
            reader.read_exact(&mut raw)?;
            let mut skip = vec![0u8; el + cl];
            reader.read_exact(&mut skip)?;
            let method = match u16le(&h[10..]) { 0 => CompressionMethod::Stored, 8 => CompressionMethod::Deflated, m => CompressionMethod::Unsupported(m) };
            files.push(FileData {
                name: match String::from_utf8(raw.clone()) { Ok(s) => s, Err(_) => raw.iter().map(|b| if *b < 128 { *b as char } else { '\u{fffd}' }).collect() },
                raw, method, crc: u32le(&h[16..]), csize: u64::from(u32le(&h[20..])), usize_: u64::from(u32le(&h[24..])),
                header: archive_offset + u64::from(u32le(&h[42..])), attrs: u32le(&h[38..]), system: h[5], encrypted: u16le(&h[8..]) & 1 == 1,
            });
        }
        Ok(ZipArchive { reader, files, comment })
    }
    pub fn len(&self) -> usize { self.files.len() }
    pub fn is_empty(&self) -> bool { self.files.is_empty() }
    pub fn comment(&self) -> &[u8] { &self.comment }
    pub fn file_names(&self) -> impl Iterator<Item = &str> { self.files.iter().map(|f| &*f.name) }
    pub fn into_inner(self) -> R { self.reader }
    pub fn by_name<'a>(&'a mut self, name: &str) -> ZipResult<ZipFile<'a>> {
        match self.files.iter().rposition(|f| f.name == name) { Some(i) => self.by_index(i), None => Err(ZipError::FileNotFound) }
    }
    pub fn by_index<'a>(&'a mut self, i: usize) -> ZipResult<ZipFile<'a>> {
        let data = self.files.get(i).ok_or(ZipError::FileNotFound)?.clone();
        if data.encrypted { return Err(ZipError::UnsupportedArchive("Password required to decrypt file")); }
        self.reader.seek(SeekFrom::Start(data.header))?;
        let mut h = [0u8; 30];
        self.reader.read_exact(&mut h)?;
        if h[0..4] != [0x50, 0x4b, 3, 4] { return Err(ZipError::InvalidArchive("Invalid local file header")); }
        let skip = i64::from(u16le(&h[26..])) + i64::from(u16le(&h[28..]));
        self.reader.seek(SeekFrom::Current(skip))?;
        let st = match data.method {
            CompressionMethod::Stored => Decoder::Stored,
            CompressionMethod::Deflated => Decoder::Deflate(Box::new(Inflate::new())),
            CompressionMethod::Unsupported(_) => return Err(ZipError::UnsupportedArchive("Compression method not supported")),
        };
        let left = data.csize;
        Ok(ZipFile { reader: &mut self.reader, data, left, dec: st, crc: crc32fast::Hasher::new(), checked: false })
    }
}

enum Decoder { Stored, Deflate(Box<Inflate>) }
struct Inflate { state: Box<miniz_oxide::inflate::stream::InflateState>, buf: Vec<u8>, pos: usize, done: bool }
impl Inflate {
    fn new() -> Self { Inflate { state: miniz_oxide::inflate::stream::InflateState::new_boxed(miniz_oxide::DataFormat::Raw), buf: vec![], pos: 0, done: false } }
}
pub struct ZipFile<'a> { reader: &'a mut dyn Read, data: FileData, left: u64, dec: Decoder, crc: crc32fast::Hasher, checked: bool }

impl<'a> ZipFile<'a> {
    pub fn name(&self) -> &str { &self.data.name }
    pub fn name_raw(&self) -> &[u8] { &self.data.raw }
    pub fn sanitized_name(&self) -> PathBuf { self.mangled_name() }
    pub fn mangled_name(&self) -> PathBuf {
        let no_null = match self.data.name.find('\0') { Some(i) => &self.data.name[..i], None => &self.data.name[..] };
        let name = no_null.replace('\\', "/");
        Path::new(&name).components().filter(|c| match c { Component::Normal(..) => true, _ => false })
            .fold(PathBuf::new(), |mut path, c| { path.push(c.as_os_str()); path })
    }
    pub fn enclosed_name(&self) -> Option<&Path> {
        if self.data.name.contains('\0') { return None; }
        let path = Path::new(&self.data.name);
        let mut depth = 0usize;
        for c in path.components() {
            match c {
                Component::Prefix(_) | Component::RootDir => return None,
                Component::ParentDir => depth = depth.checked_sub(1)?,
                Component::Normal(_) => depth += 1,
                Component::CurDir => (),
            }
        }
        Some(path)
    }
    pub fn compression(&self) -> CompressionMethod { self.data.method }
    pub fn compressed_size(&self) -> u64 { self.data.csize }
    pub fn size(&self) -> u64 { self.data.usize_ }
    pub fn crc32(&self) -> u32 { self.data.crc }
    pub fn is_dir(&self) -> bool { self.data.name.ends_with('/') || self.data.name.ends_with('\\') }
    pub fn is_file(&self) -> bool { !self.is_dir() }
    pub fn unix_mode(&self) -> Option<u32> { if self.data.attrs == 0 || self.data.system != 3 { None } else { Some(self.data.attrs >> 16) } }
}
fn pull(reader: &mut dyn Read, left: &mut u64, buf: &mut [u8]) -> io::Result<usize> {
    let n = (buf.len() as u64).min(*left) as usize;
    if n == 0 { return Ok(0); }
    let r = reader.read(&mut buf[..n])?;
    *left -= r as u64;
    Ok(r)
}
impl<'a> Read for ZipFile<'a> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        if out.is_empty() { return Ok(0); }
        let n = match &mut self.dec {
            Decoder::Stored => pull(&mut *self.reader, &mut self.left, out)?,
            Decoder::Deflate(inf) => {
                let mut produced = 0;
                loop {
                    if inf.done { break; }
                    if inf.pos == inf.buf.len() {
                        let mut b = vec![0u8; 4096];
                        let n = pull(&mut *self.reader, &mut self.left, &mut b)?;
                        b.truncate(n);
                        inf.buf = b; inf.pos = 0;
                    }
                    let eof = inf.buf.is_empty();
                    let flush = if eof { miniz_oxide::MZFlush::Finish } else { miniz_oxide::MZFlush::None };
                    let r = miniz_oxide::inflate::stream::inflate(&mut inf.state, &inf.buf[inf.pos..], out, flush);
                    inf.pos += r.bytes_consumed;
                    produced = r.bytes_written;
                    match r.status {
                        Ok(miniz_oxide::MZStatus::StreamEnd) => { inf.done = true; break; }
                        Ok(_) => {}
                        Err(miniz_oxide::MZError::Buf) if !eof || produced > 0 => {}
                        Err(_) => return Err(io::Error::new(io::ErrorKind::InvalidInput, "corrupt deflate stream")),
                    }
                    if produced > 0 { break; }
                    if eof { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "deflate stream ended early")); }
                }
                produced
            }
        };
        if n == 0 {
            if !self.checked {
                self.checked = true;
                if self.crc.clone().finalize() != self.data.crc { return Err(io::Error::new(io::ErrorKind::Other, "Invalid checksum")); }
            }
        } else { self.crc.update(&out[..n]); }
        Ok(n)
    }
}
