//! In-memory file system under `/simfs`: what the simulated process sees as its disk. Data survives a
//! simulated process kill exactly as of the last completed call (plus a page-aligned prefix of a torn write).
use crate::rng::hash2;
use crate::sched::{self, IoClass, F_EINTR, F_SHORT};
use crate::{raw, trace};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const ROOT: &str = "/simfs";
pub const FD0: i32 = 100_000;
pub const PAGE: usize = 4096;

pub const ENOENT: i32 = 2;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EACCES: i32 = 13;
pub const EEXIST: i32 = 17;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const ENOTEMPTY: i32 = 39;

type Page = Rc<[u8; PAGE]>;
#[derive(Clone)]
pub enum Node {
    File { len: usize, pages: Vec<Option<Page>> },
    Dir(BTreeMap<String, u32>),
}
#[derive(Clone)]
pub struct Image {
    nodes: Vec<Rc<Node>>,
}
#[derive(Clone)]
struct Fd {
    ino: u32,
    pos: u64,
    read: bool,
    write: bool,
    append: bool,
    /// directory stream: names left
    list: Option<Vec<(String, u32)>>,
    gen: u32,
}
/// A point at which the process may be killed: the disk image right there.
pub struct Snap {
    pub key: u64,
    pub op: u32,
    pub n: u32,
    pub torn: i64,
    pub image: Image,
    /// scenario-defined tag at that moment
    pub ctx: i64,
    pub tid: i32,
}
pub struct Vfs {
    pub img: Image,
    fds: Vec<Option<Fd>>,
    pub gen: u32,
    pub calls: u64,
    pub mutations: u64,
    pub bytes_written: u64,
    pub bytes_read: u64,
    /// capacity in bytes (disk full beyond), None: unlimited
    pub snaps: Vec<Snap>,
    pub snap_on: bool,
    /// reservoir size
    pub snap_max: usize,
    pub snap_seen: u64,
    pub snap_only: Option<(u64, u32, u32, i64)>,
    pub snap_rng: Option<crate::rng::Rng>,
    pub torn: bool,
    pub ctx: i64,
    /// refuse to grow files or create anything
    pub full: bool,
    pub full_hits: u64,
    pub full_hits_bg: u64,
    /// how many more times space may be taken (negative: no limit)
    pub budget: i64,
    /// space is taken when a 4 KiB block is first written, not when a file is extended
    pub sparse: bool,
    pub grows: i64,
    /// first position other than 0 written since the scenario reset these, and whether there was another
    /// (or a change of size)
    pub op_pos: u64,
    pub op_multi: bool,
    pub open_fds: usize,
    pub last: &'static str,
}
pub static mut V: Vfs = Vfs {
    img: Image { nodes: Vec::new() },
    fds: Vec::new(),
    gen: 0,
    calls: 0,
    mutations: 0,
    bytes_written: 0,
    bytes_read: 0,
    snaps: Vec::new(),
    snap_on: false,
    snap_max: 0,
    snap_seen: 0,
    snap_only: None,
    snap_rng: None,
    torn: false,
    ctx: 0,
    full: false,
    full_hits: 0,
    full_hits_bg: 0,
    budget: -1,
    sparse: false,
    grows: 0,
    op_pos: 0,
    op_multi: false,
    open_fds: 0,
    last: "",
};
type R<T> = Result<T, i32>;

pub fn init(seed: u64) {
    unsafe {
        V.img.nodes.push(Rc::new(Node::Dir(BTreeMap::new())));
        V.snap_rng = Some(crate::rng::Rng::new(hash2(seed, 0x54a9)));
    }
}
impl Image {
    fn dir(&self, i: u32) -> R<&BTreeMap<String, u32>> {
        match &*self.nodes[i as usize] {
            Node::Dir(d) => Ok(d),
            _ => Err(ENOTDIR),
        }
    }
    fn dir_mut(&mut self, i: u32) -> R<&mut BTreeMap<String, u32>> {
        match Rc::make_mut(&mut self.nodes[i as usize]) {
            Node::Dir(d) => Ok(d),
            _ => Err(ENOTDIR),
        }
    }
    pub fn is_dir(&self, i: u32) -> bool {
        matches!(&*self.nodes[i as usize], Node::Dir(_))
    }
    pub fn size(&self, i: u32) -> usize {
        match &*self.nodes[i as usize] {
            Node::File { len, .. } => *len,
            _ => 4096,
        }
    }
    /// walk `rel` from directory `at`
    fn walk(&self, at: u32, rel: &str) -> R<u32> {
        let mut cur = at;
        for c in rel.split('/').filter(|c| !c.is_empty() && *c != ".") {
            cur = *self.dir(cur)?.get(c).ok_or(ENOENT)?;
        }
        Ok(cur)
    }
    fn parent(&self, at: u32, rel: &str) -> R<(u32, String)> {
        let rel = rel.trim_end_matches('/');
        let (p, n) = match rel.rfind('/') {
            Some(i) => (&rel[..i], &rel[i + 1..]),
            None => ("", rel),
        };
        if n.is_empty() {
            return Err(EEXIST);
        }
        let d = self.walk(at, p)?;
        self.dir(d)?;
        Ok((d, n.to_string()))
    }
    fn add(&mut self, n: Node) -> u32 {
        self.nodes.push(Rc::new(n));
        (self.nodes.len() - 1) as u32
    }
    pub fn read_file(&self, path: &str) -> Option<Vec<u8>> {
        let i = self.walk(0, path).ok()?;
        if self.is_dir(i) {
            return None;
        }
        let n = self.size(i);
        let mut v = vec![0; n];
        self.read_at(i, 0, &mut v);
        Some(v)
    }
    pub fn list(&self, path: &str) -> Vec<(String, bool)> {
        match self.walk(0, path) {
            Ok(i) => match self.dir(i) {
                Ok(d) => d.iter().map(|(n, i)| (n.clone(), self.is_dir(*i))).collect(),
                Err(_) => vec![],
            },
            Err(_) => vec![],
        }
    }
    /// detach a directory or file
    pub fn remove_tree(&mut self, path: &str) {
        if let Ok((d, n)) = self.parent(0, path) {
            if let Ok(d) = self.dir_mut(d) {
                d.remove(&n);
            }
        }
    }
    pub fn exists(&self, path: &str) -> bool {
        self.walk(0, path).is_ok()
    }
    fn read_at(&self, i: u32, pos: u64, buf: &mut [u8]) -> usize {
        let (len, pages) = match &*self.nodes[i as usize] {
            Node::File { len, pages } => (*len, pages),
            _ => return 0,
        };
        let pos = pos.min(len as u64) as usize;
        let n = buf.len().min(len - pos);
        let mut k = 0;
        while k < n {
            let p = (pos + k) / PAGE;
            let o = (pos + k) % PAGE;
            let t = (PAGE - o).min(n - k);
            match pages.get(p).and_then(|x| x.as_ref()) {
                Some(pg) => buf[k..k + t].copy_from_slice(&pg[o..o + t]),
                None => buf[k..k + t].fill(0),
            }
            k += t;
        }
        n
    }
    fn backed(&self, i: u32, page: usize) -> bool {
        match &*self.nodes[i as usize] {
            Node::File { pages, .. } => matches!(pages.get(page), Some(Some(_))),
            _ => true,
        }
    }
    fn write_at(&mut self, i: u32, pos: u64, buf: &[u8]) {
        if let Node::File { len, pages } = Rc::make_mut(&mut self.nodes[i as usize]) {
            let pos = pos as usize;
            let end = pos + buf.len();
            *len = (*len).max(end);
            if pages.len() < (*len + PAGE - 1) / PAGE {
                pages.resize((*len + PAGE - 1) / PAGE, None);
            }
            let mut k = 0;
            while k < buf.len() {
                let p = (pos + k) / PAGE;
                let o = (pos + k) % PAGE;
                let t = (PAGE - o).min(buf.len() - k);
                let pg = pages[p].get_or_insert_with(|| Rc::new([0; PAGE]));
                Rc::make_mut(pg)[o..o + t].copy_from_slice(&buf[k..k + t]);
                k += t;
            }
        }
    }
    fn truncate(&mut self, i: u32, n: usize) {
        if let Node::File { len, pages } = Rc::make_mut(&mut self.nodes[i as usize]) {
            if n < *len {
                pages.truncate((n + PAGE - 1) / PAGE);
                if n % PAGE != 0 {
                    if let Some(Some(pg)) = pages.last_mut() {
                        Rc::make_mut(pg)[n % PAGE..].fill(0);
                    }
                }
            } else {
                pages.resize((n + PAGE - 1) / PAGE, None);
            }
            *len = n;
        }
    }
    /// digest of the whole tree
    pub fn digest(&self) -> u64 {
        fn go(im: &Image, i: u32, h: &mut u64) {
            match &*im.nodes[i as usize] {
                Node::Dir(d) => {
                    for (n, j) in d {
                        for b in n.bytes() {
                            *h = hash2(*h, b as u64);
                        }
                        go(im, *j, h);
                    }
                }
                Node::File { len, .. } => {
                    let mut v = vec![0; *len];
                    im.read_at(i, 0, &mut v);
                    *h = hash2(*h, *len as u64);
                    for c in v.chunks(8) {
                        let mut x = 0u64;
                        for b in c {
                            x = x << 8 | *b as u64;
                        }
                        *h = hash2(*h, x);
                    }
                }
            }
        }
        let mut h = 1;
        go(self, 0, &mut h);
        h
    }
}
/// Replace the disk by an image: every open descriptor of earlier "processes" becomes stale.
pub fn restore(im: &Image) {
    unsafe {
        V.img = im.clone();
        V.gen += 1;
        for f in V.fds.iter_mut() {
            *f = None;
        }
        V.open_fds = 0;
    }
}
/// Replace the disk contents only; descriptors stay.
pub fn swap_image(im: &Image) {
    unsafe { V.img = im.clone() };
}
pub fn image() -> Image {
    unsafe { V.img.clone() }
}

/// Path inside the simulated file system, relative to its root.
pub fn sim_path(p: &str) -> Option<&str> {
    let r = p.strip_prefix(ROOT)?;
    if r.is_empty() || r.starts_with('/') {
        Some(r)
    } else {
        None
    }
}
unsafe fn fd(n: i32) -> R<&'static mut Fd> {
    let f = V.fds.get_mut((n - FD0) as usize).and_then(|f| f.as_mut()).ok_or(EBADF)?;
    Ok(f)
}
unsafe fn new_fd(f: Fd) -> i32 {
    V.open_fds += 1;
    if V.open_fds > 20_000 {
        crate::violation("fd-leak", "more than 20000 file descriptors open at once");
    }
    // never reuse numbers within a run's process lifetime unless the table is large: stale use is visible
    V.fds.push(Some(f));
    FD0 + V.fds.len() as i32 - 1
}
/// Common entry of every call: scheduling point, log, injected error.
unsafe fn enter(name: &'static str, c: IoClass, size: usize) -> R<Option<(u32, i64)>> {
    V.calls += 1;
    sched::point(sched::K_IO);
    V.last = name;
    trace(hash2(0x10, name.len() as u64 * 1000 + size as u64));
    crate::log(|| format!("t{} {} size={}", sched::cur_tid(), name, size));
    match sched::io_fault(c, size) {
        Some((F_SHORT, a)) => Ok(Some((F_SHORT, a))),
        Some((k, _)) => Err(errno_of(k)),
        None => Ok(None),
    }
}
fn errno_of(k: u32) -> i32 {
    match k {
        sched::F_ENOSPC => ENOSPC,
        sched::F_EMFILE => EMFILE,
        F_EINTR => 4,
        sched::F_EACCES => EACCES,
        _ => EIO,
    }
}
/// Record the disk image before a mutation as a possible kill point.
unsafe fn snap(torn: i64, img: Option<Image>) {
    if !V.snap_on {
        return;
    }
    let me = sched::cur_tid() as usize;
    let t = &sched::S.ths[me];
    let k = (t.key, t.op, t.io, torn);
    if let Some(o) = V.snap_only {
        if o != k {
            return;
        }
    }
    V.snap_seen += 1;
    let s = Snap {
        key: k.0,
        op: k.1,
        n: k.2,
        torn,
        image: img.unwrap_or_else(|| V.img.clone()),
        ctx: V.ctx,
        tid: me as i32,
    };
    if V.snaps.len() < V.snap_max {
        V.snaps.push(s);
    } else {
        let r = V.snap_rng.as_mut().unwrap().below(V.snap_seen) as usize;
        if r < V.snap_max {
            V.snaps[r] = s;
        }
    }
}
unsafe fn mutate() {
    V.mutations += 1;
    snap(-1, None);
}
unsafe fn no_space() -> bool {
    V.grows += 1;
    if !V.full && V.budget > 0 {
        V.budget -= 1;
        return false;
    }
    if V.full || V.budget == 0 {
        V.full_hits += 1;
        if sched::cur_tid() != 0 {
            V.full_hits_bg += 1;
        }
        crate::log(|| format!("t{} disk full", sched::cur_tid()));
        trace(0xF011);
        return true;
    }
    false
}

pub unsafe fn resolve(dirfd: i32, path: &str) -> R<(u32, String)> {
    // base inode and relative path
    if let Some(p) = sim_path(path) {
        return Ok((0, p.to_string()));
    }
    let f = fd(dirfd)?;
    Ok((f.ino, path.to_string()))
}
pub unsafe fn open(dirfd: i32, path: &str, flags: i32) -> R<i32> {
    let creat = flags & 0o100 != 0;
    enter(if creat { "create" } else { "open" }, if creat { IoClass::Create } else { IoClass::Open }, 0)?;
    let (at, rel) = resolve(dirfd, path)?;
    let acc = flags & 3;
    let ino = match V.img.walk(at, &rel) {
        Ok(i) => {
            if creat && flags & 0o200 != 0 {
                return Err(EEXIST);
            }
            if V.img.is_dir(i) && (acc != 0 || creat) {
                return Err(EISDIR);
            }
            if flags & 0o200000 != 0 && !V.img.is_dir(i) {
                return Err(ENOTDIR);
            }
            if flags & 0o1000 != 0 && acc != 0 && V.img.size(i) > 0 {
                mutate();
                V.img.truncate(i, 0);
            }
            i
        }
        Err(ENOENT) if creat => {
            let (d, n) = V.img.parent(at, &rel)?;
            if no_space() {
                return Err(ENOSPC);
            }
            mutate();
            let i = V.img.add(Node::File { len: 0, pages: vec![] });
            V.img.dir_mut(d)?.insert(n, i);
            i
        }
        Err(e) => return Err(e),
    };
    Ok(new_fd(Fd { ino, pos: 0, read: acc != 1, write: acc != 0, append: flags & 0o2000 != 0, list: None, gen: V.gen }))
}
pub unsafe fn close(n: i32) -> R<()> {
    fd(n)?;
    V.fds[(n - FD0) as usize] = None;
    V.open_fds -= 1;
    Ok(())
}
pub unsafe fn read(n: i32, buf: *mut u8, len: usize, at: Option<u64>) -> R<usize> {
    let short = enter("read", IoClass::Read, len)?;
    let f = fd(n)?;
    if !f.read {
        return Err(EBADF);
    }
    if V.img.is_dir(f.ino) {
        return Err(EISDIR);
    }
    let mut want = len;
    if let Some((_, a)) = short {
        if len > 1 {
            want = 1 + (a as usize) % (len - 1);
        }
    }
    let b = std::slice::from_raw_parts_mut(buf, want);
    let r = V.img.read_at(f.ino, at.unwrap_or(f.pos), b);
    if at.is_none() {
        f.pos += r as u64;
    }
    V.bytes_read += r as u64;
    Ok(r)
}
pub unsafe fn write(n: i32, buf: *const u8, len: usize, at: Option<u64>) -> R<usize> {
    let short = enter("write", IoClass::Write, len)?;
    let f = fd(n)?;
    if !f.write {
        return Err(EBADF);
    }
    if len == 0 {
        return Ok(0);
    }
    let mut want = len;
    if let Some((_, a)) = short {
        if len > 1 {
            want = 1 + (a as usize) % (len - 1);
        }
    }
    let pos = if f.append { V.img.size(f.ino) as u64 } else { at.unwrap_or(f.pos) };
    if V.sparse {
        // whole blocks are taken one by one; the transfer stops at the first that cannot be had
        let mut at = pos as usize;
        while at < pos as usize + want {
            if !V.img.backed(f.ino, at / PAGE) && no_space() {
                break;
            }
            at = (at / PAGE + 1) * PAGE;
        }
        let can = at.saturating_sub(pos as usize).min(want);
        if can == 0 {
            return Err(ENOSPC);
        }
        want = can;
    } else if pos as usize + want > V.img.size(f.ino) && no_space() {
        return Err(ENOSPC);
    }
    let b = std::slice::from_raw_parts(buf, want);
    mutate();
    if V.snap_on && V.torn {
        // a kill can leave any page-aligned prefix
        let mut cut = (pos as usize / PAGE + 1) * PAGE;
        while cut < pos as usize + want {
            let k = cut - pos as usize;
            let mut im = V.img.clone();
            im.write_at(f.ino, pos, &b[..k]);
            snap(k as i64, Some(im));
            cut += PAGE;
        }
    }
    V.img.write_at(f.ino, pos, b);
    if pos != 0 && pos != V.op_pos {
        V.op_multi |= V.op_pos != 0;
        V.op_pos = pos;
    }
    if at.is_none() {
        f.pos = pos + want as u64;
    }
    V.bytes_written += want as u64;
    let mut h = 0u64;
    for c in b.chunks(8) {
        let mut x = 0u64;
        for y in c {
            x = x << 8 | *y as u64;
        }
        h = h.rotate_left(9) ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    trace(h);
    Ok(want)
}
pub unsafe fn lseek(n: i32, off: i64, whence: i32) -> R<i64> {
    enter("seek", IoClass::Seek, 0)?;
    let f = fd(n)?;
    let base = match whence {
        0 => 0,
        1 => f.pos as i64,
        2 => V.img.size(f.ino) as i64,
        _ => return Err(EINVAL),
    };
    let p = base.checked_add(off).ok_or(EINVAL)?;
    if p < 0 {
        return Err(EINVAL);
    }
    f.pos = p as u64;
    Ok(p)
}
pub unsafe fn ftruncate(n: i32, len: i64) -> R<()> {
    enter("truncate", IoClass::Truncate, len as usize)?;
    let f = fd(n)?;
    if !f.write || len < 0 {
        return Err(EINVAL);
    }
    if len as usize > V.img.size(f.ino) && !V.sparse && no_space() {
        return Err(ENOSPC);
    }
    mutate();
    V.op_multi = true;
    V.img.truncate(f.ino, len as usize);
    Ok(())
}
/// (is_dir, size, inode)
pub unsafe fn stat(dirfd: i32, path: &str) -> R<(bool, usize, u32)> {
    enter("stat", IoClass::Stat, 0)?;
    let (at, rel) = if path.is_empty() { (fd(dirfd)?.ino, String::new()) } else { resolve(dirfd, path)? };
    let i = V.img.walk(at, &rel)?;
    Ok((V.img.is_dir(i), V.img.size(i), i))
}
pub unsafe fn fstat(n: i32) -> R<(bool, usize, u32)> {
    enter("fstat", IoClass::Stat, 0)?;
    let i = fd(n)?.ino;
    Ok((V.img.is_dir(i), V.img.size(i), i))
}
pub unsafe fn mkdir(dirfd: i32, path: &str) -> R<()> {
    enter("mkdir", IoClass::Mkdir, 0)?;
    let (at, rel) = resolve(dirfd, path)?;
    let (d, n) = V.img.parent(at, &rel)?;
    if V.img.dir(d)?.contains_key(&n) {
        return Err(EEXIST);
    }
    if no_space() {
        return Err(ENOSPC);
    }
    mutate();
    let i = V.img.add(Node::Dir(BTreeMap::new()));
    V.img.dir_mut(d)?.insert(n, i);
    Ok(())
}
pub unsafe fn unlink(dirfd: i32, path: &str, rmdir: bool) -> R<()> {
    enter(if rmdir { "rmdir" } else { "unlink" }, IoClass::Unlink, 0)?;
    let (at, rel) = resolve(dirfd, path)?;
    let (d, n) = V.img.parent(at, &rel)?;
    let i = *V.img.dir(d)?.get(&n).ok_or(ENOENT)?;
    if rmdir {
        if !V.img.dir(i)?.is_empty() {
            return Err(ENOTEMPTY);
        }
    } else if V.img.is_dir(i) {
        return Err(EISDIR);
    }
    mutate();
    V.img.dir_mut(d)?.remove(&n);
    Ok(())
}
pub unsafe fn rename(d1: i32, p1: &str, d2: i32, p2: &str) -> R<()> {
    enter("rename", IoClass::Rename, 0)?;
    let (a1, r1) = resolve(d1, p1)?;
    let (a2, r2) = resolve(d2, p2)?;
    let (dir1, n1) = V.img.parent(a1, &r1)?;
    let (dir2, n2) = V.img.parent(a2, &r2)?;
    let i = *V.img.dir(dir1)?.get(&n1).ok_or(ENOENT)?;
    if let Some(j) = V.img.dir(dir2)?.get(&n2).copied() {
        if i == j {
            return Ok(());
        }
        match (V.img.is_dir(i), V.img.is_dir(j)) {
            (false, true) => return Err(EISDIR),
            (true, false) => return Err(ENOTDIR),
            (true, true) if !V.img.dir(j)?.is_empty() => return Err(ENOTEMPTY),
            _ => {}
        }
    }
    mutate();
    V.img.dir_mut(dir1)?.remove(&n1);
    V.img.dir_mut(dir2)?.insert(n2, i);
    Ok(())
}
pub unsafe fn sync(n: i32) -> R<()> {
    enter("sync", IoClass::Sync, 0)?;
    fd(n)?;
    Ok(())
}
/// Directory streams are descriptors with a list.
pub unsafe fn opendir(path: &str) -> R<i32> {
    enter("opendir", IoClass::Dir, 0)?;
    let (at, rel) = resolve(-1, path)?;
    let i = V.img.walk(at, &rel)?;
    V.img.dir(i)?;
    let n = new_fd(Fd { ino: i, pos: 0, read: true, write: false, append: false, list: None, gen: V.gen });
    fdopendir(n)?;
    Ok(n)
}
pub unsafe fn fdopendir(n: i32) -> R<()> {
    let f = fd(n)?;
    let d = V.img.dir(f.ino)?;
    // arbitrary but repeatable order
    let mut v: Vec<(String, u32)> = d.iter().map(|(n, i)| (n.clone(), *i)).collect();
    let seed = sched::S.seed;
    v.sort_by_key(|(_, i)| *i);
    if seed & 4 != 0 {
        v.reverse();
    }
    f.list = Some(v);
    Ok(())
}
/// next entry: (name, inode, is_dir)
pub unsafe fn readdir(n: i32) -> R<Option<(String, u32, bool)>> {
    enter("readdir", IoClass::Dir, 0)?;
    let f = fd(n)?;
    match f.list.as_mut() {
        None => Err(EBADF),
        Some(l) => loop {
            match l.pop() {
                None => return Ok(None),
                Some((name, i)) => {
                    // entries removed meanwhile may or may not be reported: report only live ones
                    if V.img.dir(f.ino)?.get(&name) == Some(&i) {
                        let d = V.img.is_dir(i);
                        return Ok(Some((name, i, d)));
                    }
                }
            }
        },
    }
}
pub fn fail<T>(e: i32, v: T) -> T {
    unsafe { raw::set_errno(e) };
    v
}
