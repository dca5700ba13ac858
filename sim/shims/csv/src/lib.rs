//! Minimal stand-in for csv 1.x: a streaming reader with delimiter, quoting, flexible, trimming of
//! nothing, and UTF-8 checking. Blank lines are skipped, as the csv crate does.
use std::fmt;
use std::io::{self, BufRead, BufReader, Read};
use std::ops::Index;

#[derive(Debug)]
pub struct Error(Kind);
#[derive(Debug)]
enum Kind { Io(io::Error), Utf8(u64), Len { pos: u64, expected: usize, len: usize } }
pub type Result<T> = std::result::Result<T, Error>;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match &self.0 {
            Kind::Io(e) => e.fmt(f),
            Kind::Utf8(l) => write!(f, "CSV parse error: record {}: invalid utf-8", l),
            Kind::Len { pos, expected, len } => write!(f, "CSV error: record {}: found record with {} fields, but the previous record has {} fields", pos, len, expected),
        }
    }
}
impl std::error::Error for Error {}
impl From<io::Error> for Error { fn from(e: io::Error) -> Self { Error(Kind::Io(e)) } }

#[derive(Debug, Clone)]
pub struct ReaderBuilder { delimiter: u8, quoting: bool, flexible: bool, has_headers: bool, comment: Option<u8> }
impl Default for ReaderBuilder { fn default() -> Self { Self::new() } }
impl ReaderBuilder {
    pub fn new() -> Self { ReaderBuilder { delimiter: b',', quoting: true, flexible: false, has_headers: true, comment: None } }
    pub fn delimiter(&mut self, d: u8) -> &mut Self { self.delimiter = d; self }
    pub fn quoting(&mut self, y: bool) -> &mut Self { self.quoting = y; self }
    pub fn flexible(&mut self, y: bool) -> &mut Self { self.flexible = y; self }
    pub fn has_headers(&mut self, y: bool) -> &mut Self { self.has_headers = y; self }
    pub fn comment(&mut self, c: Option<u8>) -> &mut Self { self.comment = c; self }
    pub fn from_reader<R: Read>(&self, r: R) -> Reader<R> {
        Reader { conf: self.clone(), r: BufReader::new(r), pos: 0, expected: None, header_done: !self.has_headers, failed: false }
    }
    pub fn from_path<P: AsRef<std::path::Path>>(&self, p: P) -> Result<Reader<std::fs::File>> { Ok(self.from_reader(std::fs::File::open(p)?)) }
}
pub struct Reader<R> { conf: ReaderBuilder, r: BufReader<R>, pos: u64, expected: Option<usize>, header_done: bool, failed: bool }
impl<R: Read> Reader<R> {
    pub fn from_reader(r: R) -> Reader<R> { ReaderBuilder::new().from_reader(r) }
    pub fn records(&mut self) -> StringRecordsIter<'_, R> { StringRecordsIter { r: self } }
    pub fn into_records(self) -> StringRecordsIntoIter<R> { StringRecordsIntoIter { r: self } }
    pub fn read_record(&mut self, rec: &mut StringRecord) -> Result<bool> {
        match self.next_record() { Some(Ok(r)) => { *rec = r; Ok(true) } Some(Err(e)) => Err(e), None => Ok(false) }
    }
    fn next_record(&mut self) -> Option<Result<StringRecord>> {
        if self.failed { return None; }
        loop {
            let r = self.raw_record();
            match r {
                Err(e) => { self.failed = true; return Some(Err(e.into())); }
                Ok(None) => return None,
                Ok(Some(fields)) => {
                    if !self.header_done { self.header_done = true; self.expected = Some(fields.len()); continue; }
                    let pos = self.pos;
                    self.pos += 1;
                    let mut out = Vec::with_capacity(fields.len());
                    for f in fields {
                        match String::from_utf8(f) { Ok(s) => out.push(s), Err(_) => return Some(Err(Error(Kind::Utf8(pos)))) }
                    }
                    if !self.conf.flexible {
                        match self.expected {
                            None => self.expected = Some(out.len()),
                            Some(n) if n != out.len() => return Some(Err(Error(Kind::Len { pos, expected: n, len: out.len() }))),
                            _ => {}
                        }
                    }
                    return Some(Ok(StringRecord(out)));
                }
            }
        }
    }
    fn raw_record(&mut self) -> io::Result<Option<Vec<Vec<u8>>>> {
        let mut fields: Vec<Vec<u8>> = vec![];
        let mut cur: Vec<u8> = vec![];
        let (mut any, mut in_quotes) = (false, false);
        loop {
            let mut line = vec![];
            if self.r.read_until(b'\n', &mut line)? == 0 {
                if !any { return Ok(None); }
                fields.push(cur);
                return Ok(Some(fields));
            }
            if !any {
                if line.iter().all(|b| *b == b'\n' || *b == b'\r') { continue; }
                if let Some(c) = self.conf.comment { if line[0] == c { continue; } }
            }
            any = true;
            let mut body = &line[..];
            if !in_quotes || !self.conf.quoting {
                while let [head @ .., b'\n'] | [head @ .., b'\r'] = body { body = head; }
            }
            let mut i = 0;
            while i < body.len() {
                let b = body[i];
                if in_quotes {
                    if b == b'"' {
                        if body.get(i + 1) == Some(&b'"') { cur.push(b'"'); i += 1; } else { in_quotes = false; }
                    } else { cur.push(b); }
                } else if self.conf.quoting && b == b'"' && cur.is_empty() { in_quotes = true; }
                else if b == self.conf.delimiter { fields.push(std::mem::replace(&mut cur, vec![])); }
                else if b == b'\r' || b == b'\n' { /* stray terminator */ }
                else { cur.push(b); }
                i += 1;
            }
            if !in_quotes { fields.push(cur); return Ok(Some(fields)); }
        }
    }
}
pub struct StringRecordsIter<'r, R: 'r> { r: &'r mut Reader<R> }
impl<'r, R: Read> Iterator for StringRecordsIter<'r, R> { type Item = Result<StringRecord>; fn next(&mut self) -> Option<Self::Item> { self.r.next_record() } }
pub struct StringRecordsIntoIter<R> { r: Reader<R> }
impl<R: Read> Iterator for StringRecordsIntoIter<R> { type Item = Result<StringRecord>; fn next(&mut self) -> Option<Self::Item> { self.r.next_record() } }

#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct StringRecord(Vec<String>);
impl StringRecord {
    pub fn new() -> Self { Default::default() }
    pub fn get(&self, i: usize) -> Option<&str> { self.0.get(i).map(|s| &**s) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn iter(&self) -> impl DoubleEndedIterator<Item = &str> + ExactSizeIterator + Clone { self.0.iter().map(|s| &**s) }
    pub fn as_slice(&self) -> String { self.0.concat() }
}
impl Index<usize> for StringRecord { type Output = str; fn index(&self, i: usize) -> &str { &self.0[i] } }
impl<'r> IntoIterator for &'r StringRecord {
    type Item = &'r str;
    type IntoIter = std::vec::IntoIter<&'r str>;
    fn into_iter(self) -> Self::IntoIter { self.0.iter().map(|s| &**s).collect::<Vec<_>>().into_iter() }
}
