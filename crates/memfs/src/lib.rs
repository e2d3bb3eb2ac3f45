//! The standard library with files kept in memory: the compiler's sources are built against it (as `std`) for the
//! symbolic executor, where there is no file system.
pub use ::std::*;

pub mod fs {
    pub use ::std::fs::*;
    use ::std::collections::BTreeMap;
    use ::std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
    use ::std::path::{Path, PathBuf};
    use ::std::sync::Mutex;

    static FILES: Mutex<BTreeMap<PathBuf, Vec<u8>>> = Mutex::new(BTreeMap::new());

    fn with<T>(f: impl FnOnce(&mut BTreeMap<PathBuf, Vec<u8>>) -> T) -> T {
        f(&mut FILES.lock().unwrap())
    }
    fn key<P: AsRef<Path>>(p: P) -> PathBuf {
        p.as_ref().components().collect()
    }
    fn missing() -> Error {
        Error::from(ErrorKind::NotFound)
    }

    pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> Result<()> {
        with(|m| m.insert(key(p), c.as_ref().to_vec()));
        Ok(())
    }
    pub fn read<P: AsRef<Path>>(p: P) -> Result<Vec<u8>> {
        with(|m| m.get(&key(p)).cloned()).ok_or_else(missing)
    }
    pub fn read_to_string<P: AsRef<Path>>(p: P) -> Result<String> {
        String::from_utf8(read(p)?).map_err(|_| Error::from(ErrorKind::InvalidData))
    }
    pub fn remove_file<P: AsRef<Path>>(p: P) -> Result<()> {
        with(|m| m.remove(&key(p))).map(|_| ()).ok_or_else(missing)
    }
    pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> Result<()> {
        let c = read(&p)?;
        remove_file(p)?;
        write(q, c)
    }
    pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> Result<u64> {
        let c = read(&p)?;
        let n = c.len() as u64;
        write(q, c)?;
        Ok(n)
    }
    pub fn exists<P: AsRef<Path>>(p: P) -> Result<bool> {
        Ok(with(|m| m.contains_key(&key(p))))
    }
    pub fn create_dir<P: AsRef<Path>>(_: P) -> Result<()> {
        Ok(())
    }
    pub fn create_dir_all<P: AsRef<Path>>(_: P) -> Result<()> {
        Ok(())
    }

    #[derive(Clone, Debug, Default)]
    pub struct OpenOptions {
        read: bool,
        write: bool,
        append: bool,
        truncate: bool,
        create: bool,
        create_new: bool,
    }
    macro_rules! options {
        ($($n:ident)*) => { $(pub fn $n(&mut self, v: bool) -> &mut Self { self.$n = v; self })* };
    }
    impl OpenOptions {
        pub fn new() -> Self {
            Self::default()
        }
        options!(read write append truncate create create_new);
        pub fn open<P: AsRef<Path>>(&self, p: P) -> Result<File> {
            let k = key(p);
            with(|m| {
                if self.create_new && m.contains_key(&k) {
                    return Err(Error::from(ErrorKind::AlreadyExists));
                }
                if !m.contains_key(&k) {
                    if !(self.create || self.create_new) {
                        return Err(missing());
                    }
                    m.insert(k.clone(), Vec::new());
                }
                if self.truncate {
                    m.insert(k.clone(), Vec::new());
                }
                Ok(File { path: k, at: 0, append: self.append })
            })
        }
    }

    #[derive(Debug)]
    pub struct File {
        path: PathBuf,
        at: usize,
        append: bool,
    }
    impl File {
        pub fn open<P: AsRef<Path>>(p: P) -> Result<File> {
            OpenOptions::new().read(true).open(p)
        }
        pub fn create<P: AsRef<Path>>(p: P) -> Result<File> {
            OpenOptions::new().write(true).create(true).truncate(true).open(p)
        }
        pub fn create_new<P: AsRef<Path>>(p: P) -> Result<File> {
            OpenOptions::new().write(true).create_new(true).open(p)
        }
        pub fn options() -> OpenOptions {
            OpenOptions::new()
        }
        pub fn sync_all(&self) -> Result<()> {
            Ok(())
        }
        pub fn sync_data(&self) -> Result<()> {
            Ok(())
        }
        pub fn set_len(&self, n: u64) -> Result<()> {
            with(|m| m.get_mut(&self.path).map(|c| c.resize(n as usize, 0))).ok_or_else(missing)
        }
        fn get(&mut self, b: &mut [u8]) -> Result<usize> {
            with(|m| {
                let c = m.get(&self.path).ok_or_else(missing)?;
                let n = b.len().min(c.len().saturating_sub(self.at));
                b[..n].copy_from_slice(&c[self.at..self.at + n]);
                self.at += n;
                Ok(n)
            })
        }
        fn put(&mut self, b: &[u8]) -> Result<usize> {
            with(|m| {
                let c = m.get_mut(&self.path).ok_or_else(missing)?;
                if self.append {
                    self.at = c.len();
                }
                if c.len() < self.at + b.len() {
                    c.resize(self.at + b.len(), 0);
                }
                c[self.at..self.at + b.len()].copy_from_slice(b);
                self.at += b.len();
                Ok(b.len())
            })
        }
        fn go(&mut self, to: SeekFrom) -> Result<u64> {
            let n = with(|m| m.get(&self.path).map(|c| c.len())).unwrap_or(0) as i64;
            let to = match to {
                SeekFrom::Start(x) => x as i64,
                SeekFrom::End(x) => n + x,
                SeekFrom::Current(x) => self.at as i64 + x,
            };
            if to < 0 {
                return Err(Error::from(ErrorKind::InvalidInput));
            }
            self.at = to as usize;
            Ok(to as u64)
        }
    }
    impl Read for File {
        fn read(&mut self, b: &mut [u8]) -> Result<usize> {
            self.get(b)
        }
    }
    impl Write for File {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            self.put(b)
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    impl Seek for File {
        fn seek(&mut self, to: SeekFrom) -> Result<u64> {
            self.go(to)
        }
    }
}
