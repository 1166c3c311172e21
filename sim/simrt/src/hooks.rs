//! The seam: libc entry points defined by the harness executable. Threads outside the simulation
//! fall through to raw system calls; simulated threads talk to the simulated world.
#![allow(clippy::missing_safety_doc)]
use crate::fs::{Fd, FD_BASE};
use crate::raw::{self, fail, ret, sc};
use crate::sched;
use crate::world::*;
use libc::{c_char, c_int, c_long, c_void, mode_t, off64_t, size_t, ssize_t};
use std::sync::atomic::{AtomicUsize, Ordering};

#[inline(always)]
fn active() -> bool {
    SIM.with(|s| s.get()) != 0 && !HOOK.with(|h| h.get())
}

struct Guard;
impl Guard {
    fn enter() -> Guard {
        HOOK.with(|h| h.set(true));
        Guard
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        HOOK.with(|h| h.set(false));
    }
}

unsafe fn cstr(p: *const c_char) -> String {
    std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned()
}

fn part(n: usize, permille: u32) -> usize {
    // 1 ..= n-1 (n > 1)
    1 + (n - 2) * permille.min(1000) as usize / 1000
}

fn virt(fd: c_int) -> bool {
    fd >= FD_BASE
}

// ---- files ------------------------------------------------------------------------------

unsafe fn sim_open(path: String, flags: c_int) -> isize {
    let _g = Guard::enter();
    sched::yield_now();
    let w = world();
    w.ev(b'o', crate::rng::hash_bytes(path.as_bytes()), flags as u64);
    match w.fault_for(Op::Open, 0) {
        Some(FaultKind::Crash(_)) => end_phase(End::Crashed),
        Some(FaultKind::OpenFail(e)) => return fail(e),
        _ => {}
    }
    let ino = match w.fs.lookup(&path) {
        Some(i) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return fail(libc::EEXIST);
            }
            i
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                return fail(if w.fs.is_dir(&path) { libc::EISDIR } else { libc::ENOENT });
            }
            w.fs.create(&path)
        }
    };
    if flags & libc::O_TRUNC != 0 {
        w.fs.truncate(ino, 0);
    }
    w.fs.alloc_fd(Fd { ino, pos: 0, flags }) as isize
}

unsafe fn sim_read(fd: c_int, buf: *mut u8, n: usize, at: Option<u64>) -> isize {
    let _g = Guard::enter();
    sched::yield_now();
    let w = world();
    let (ino, pos, fl) = match w.fs.fd(fd) {
        Some(f) => (f.ino, at.unwrap_or(f.pos), f.flags),
        None => return fail(libc::EBADF),
    };
    if fl & libc::O_ACCMODE == libc::O_WRONLY {
        return fail(libc::EBADF);
    }
    let len = w.fs.inodes[ino].data.len() as u64;
    let avail = len.saturating_sub(pos).min(n as u64) as usize;
    w.ev(b'r', pos, avail as u64);
    let mut k = avail;
    match w.fault_for(Op::Read, avail) {
        Some(FaultKind::Crash(_)) => end_phase(End::Crashed),
        Some(FaultKind::ShortRead(p)) => k = part(avail, p),
        Some(FaultKind::EintrRead) => return fail(libc::EINTR),
        Some(FaultKind::EioRead) => return fail(libc::EIO),
        _ => {}
    }
    if k > 0 {
        std::ptr::copy_nonoverlapping(w.fs.inodes[ino].data.as_ptr().add(pos as usize), buf, k);
    }
    if at.is_none() {
        w.fs.fd(fd).unwrap().pos = pos + k as u64;
    }
    k as isize
}

unsafe fn sim_write(fd: c_int, buf: *const u8, n: usize, at: Option<u64>) -> isize {
    let _g = Guard::enter();
    sched::yield_now();
    let w = world();
    let (ino, mut pos, fl) = match w.fs.fd(fd) {
        Some(f) => (f.ino, at.unwrap_or(f.pos), f.flags),
        None => return fail(libc::EBADF),
    };
    if fl & libc::O_ACCMODE == libc::O_RDONLY {
        return fail(libc::EBADF);
    }
    if fl & libc::O_APPEND != 0 {
        pos = w.fs.inodes[ino].data.len() as u64;
    }
    let d = std::slice::from_raw_parts(buf, n);
    w.ev(b'W', pos, n as u64);
    let mut k = n;
    let mut err = 0;
    match w.fault_for(Op::Write, n) {
        Some(FaultKind::Crash(p)) => {
            let t = n * p.min(1000) as usize / 1000;
            w.fs.write_at(ino, pos as usize, &d[..t]);
            end_phase(End::Crashed)
        }
        Some(FaultKind::ShortWrite(p)) => k = part(n, p),
        Some(FaultKind::EintrWrite) => return fail(libc::EINTR),
        Some(FaultKind::EioWrite) => return fail(libc::EIO),
        Some(FaultKind::TornWrite(p)) => {
            k = n * p.min(1000) as usize / 1000;
            err = libc::EIO;
        }
        Some(FaultKind::Enospc(p)) => {
            w.full = true;
            k = n * p.min(999) as usize / 1000;
            if k == 0 {
                return fail(libc::ENOSPC);
            }
        }
        _ => {
            if w.full {
                // a full disk still accepts overwrites of existing data
                let len = w.fs.inodes[ino].data.len() as u64;
                let room = len.saturating_sub(pos) as usize;
                if room == 0 && n > 0 {
                    return fail(libc::ENOSPC);
                }
                k = k.min(room);
            }
        }
    }
    let lie = match &w.lose {
        Some((keep, pm, salt)) => w.fs.lookup(keep) != Some(ino) && d[..k].iter().any(|&b| b != 0) && crate::rng::mix2(*salt, w.ops) % 1000 < *pm as u64,
        None => false,
    };
    if lie {
        w.lost += 1;
        *w.fired.entry("lost_write").or_insert(0) += 1;
        w.ev(b'L', pos, k as u64);
        w.fs.write_at(ino, pos as usize, &vec![0; k]);
    } else {
        w.fs.write_at(ino, pos as usize, &d[..k]);
    }
    if at.is_none() {
        w.fs.fd(fd).unwrap().pos = pos + k as u64;
    }
    if err != 0 {
        return fail(err);
    }
    k as isize
}

unsafe fn sim_seek(fd: c_int, off: i64, whence: c_int) -> isize {
    let _g = Guard::enter();
    let w = world();
    let (ino, pos) = match w.fs.fd(fd) {
        Some(f) => (f.ino, f.pos),
        None => return fail(libc::EBADF),
    };
    w.ev(b's', off as u64, whence as u64);
    match w.fault_for(Op::Seek, 0) {
        Some(FaultKind::Crash(_)) => end_phase(End::Crashed),
        Some(FaultKind::SeekFail) => return fail(libc::EIO),
        _ => {}
    }
    let base = match whence {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => pos as i64,
        libc::SEEK_END => w.fs.inodes[ino].data.len() as i64,
        _ => return fail(libc::EINVAL),
    };
    let np = base.wrapping_add(off);
    if np < 0 {
        return fail(libc::EINVAL);
    }
    w.fs.fd(fd).unwrap().pos = np as u64;
    np as isize
}

unsafe fn sim_trunc_ino(ino: usize, len: i64) -> isize {
    let w = world();
    w.ev(b't', len as u64, 0);
    match w.fault_for(Op::Trunc, 0) {
        Some(FaultKind::Crash(_)) => end_phase(End::Crashed),
        Some(FaultKind::TruncFail) => return fail(libc::EIO),
        _ => {}
    }
    if len < 0 || len > (1 << 34) {
        return fail(libc::EINVAL);
    }
    if w.full && len as usize > w.fs.inodes[ino].data.len() {
        return fail(libc::ENOSPC);
    }
    w.fs.truncate(ino, len as usize);
    0
}

unsafe fn sim_sync(fd: c_int) -> isize {
    let _g = Guard::enter();
    let w = world();
    let ino = match w.fs.fd(fd) {
        Some(f) => f.ino,
        None => return fail(libc::EBADF),
    };
    w.ev(b'y', 0, 0);
    match w.fault_for(Op::Sync, 0) {
        Some(FaultKind::Crash(_)) => end_phase(End::Crashed),
        Some(FaultKind::SyncFail) => return fail(libc::EIO),
        _ => {}
    }
    w.fs.sync(ino);
    0
}

unsafe fn meta() -> bool {
    let w = world();
    w.ev(b'm', 0, 0);
    if let Some(FaultKind::Crash(_)) = w.fault_for(Op::Meta, 0) {
        end_phase(End::Crashed)
    }
    true
}

fn out_fd(fd: c_int) -> bool {
    fd == 1 || fd == 2
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if active() {
        return sim_open(cstr(p), flags) as c_int;
    }
    ret(sc(libc::SYS_openat, libc::AT_FDCWD as isize as usize, p as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
// `open` is variadic in C and newer rustc checks the signature of that symbol; a
// three-argument register-passing jump is exactly what the ABI needs.
std::arch::global_asm!(".globl open", ".type open,@function", "open: jmp open64");
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if active() {
        return sim_open(cstr(p), flags) as c_int;
    }
    ret(sc(libc::SYS_openat, d as isize as usize, p as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat64(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(p: *const c_char, mode: mode_t) -> c_int {
    open64(p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if virt(fd) && active() {
        return sim_read(fd, b as *mut u8, n, None);
    }
    ret(sc(libc::SYS_read, fd as usize, b as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if virt(fd) && active() {
        return sim_read(fd, b as *mut u8, n, Some(off as u64));
    }
    ret(sc(libc::SYS_pread64, fd as usize, b as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    pread64(fd, b, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if active() {
        if virt(fd) {
            return sim_write(fd, b as *const u8, n, None);
        }
        if out_fd(fd) {
            return n as ssize_t;
        }
    }
    ret(sc(libc::SYS_write, fd as usize, b as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if virt(fd) && active() {
        return sim_write(fd, b as *const u8, n, Some(off as u64));
    }
    ret(sc(libc::SYS_pwrite64, fd as usize, b as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    pwrite64(fd, b, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, c: c_int) -> ssize_t {
    if virt(fd) && active() {
        let mut tot = 0;
        for i in 0..c {
            let io = &*v.offset(i as isize);
            if io.iov_len == 0 {
                continue;
            }
            let r = sim_read(fd, io.iov_base as *mut u8, io.iov_len, None);
            if r < 0 {
                return if tot > 0 { tot } else { r };
            }
            tot += r;
            if (r as usize) < io.iov_len {
                break;
            }
        }
        return tot;
    }
    ret(sc(libc::SYS_readv, fd as usize, v as usize, c as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, c: c_int) -> ssize_t {
    if active() && (virt(fd) || out_fd(fd)) {
        let mut tot = 0;
        for i in 0..c {
            let io = &*v.offset(i as isize);
            if io.iov_len == 0 {
                continue;
            }
            if out_fd(fd) {
                tot += io.iov_len as isize;
                continue;
            }
            let r = sim_write(fd, io.iov_base as *const u8, io.iov_len, None);
            if r < 0 {
                return if tot > 0 { tot } else { r };
            }
            tot += r;
            if (r as usize) < io.iov_len {
                break;
            }
        }
        return tot;
    }
    ret(sc(libc::SYS_writev, fd as usize, v as usize, c as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if virt(fd) && active() {
        return sim_seek(fd, off, wh) as off64_t;
    }
    ret(sc(libc::SYS_lseek, fd as usize, off as usize, wh as usize, 0, 0, 0)) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    lseek64(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if virt(fd) {
        if active() {
            let _g = Guard::enter();
            let w = world();
            w.ev(b'c', 0, 0);
            return if w.fs.close(fd) { 0 } else { fail(libc::EBADF) as c_int };
        }
        return 0;
    }
    ret(sc(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if virt(fd) && active() {
        let _g = Guard::enter();
        return match world().fs.fd(fd).map(|f| f.ino) {
            Some(i) => sim_trunc_ino(i, len) as c_int,
            None => fail(libc::EBADF) as c_int,
        };
    }
    ret(sc(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, len: off64_t) -> c_int {
    if active() {
        let _g = Guard::enter();
        return match world().fs.lookup(&cstr(p)) {
            Some(i) => sim_trunc_ino(i, len) as c_int,
            None => fail(libc::ENOENT) as c_int,
        };
    }
    ret(sc(libc::SYS_truncate, p as usize, len as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate(p: *const c_char, len: off64_t) -> c_int {
    truncate64(p, len)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    if virt(fd) && active() {
        return fail(libc::EOPNOTSUPP) as c_int;
    }
    ret(sc(libc::SYS_fallocate, fd as usize, mode as usize, off as usize, len as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: off64_t, len: off64_t) -> c_int {
    if virt(fd) && active() {
        let _g = Guard::enter();
        return match world().fs.fd(fd).map(|f| f.ino) {
            Some(i) => {
                let cur = world().fs.inodes[i].data.len() as i64;
                if off + len > cur && sim_trunc_ino(i, off + len) != 0 {
                    *libc::__errno_location()
                } else {
                    0
                }
            }
            None => libc::EBADF,
        };
    }
    let r = sc(libc::SYS_fallocate, fd as usize, 0, off as usize, len as usize, 0, 0);
    if r < 0 {
        -r as c_int
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate(fd: c_int, off: off64_t, len: off64_t) -> c_int {
    posix_fallocate64(fd, off, len)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if virt(fd) && active() {
        return sim_sync(fd) as c_int;
    }
    ret(sc(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if virt(fd) && active() {
        return sim_sync(fd) as c_int;
    }
    ret(sc(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}

unsafe fn fill_stat(ino: usize, dir: bool, st: *mut libc::stat64) -> c_int {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    (*st).st_mode = if dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
    (*st).st_ino = ino as u64 + 1;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
    if !dir {
        let l = world().fs.inodes[ino].data.len() as i64;
        (*st).st_size = l;
        (*st).st_blocks = (l + 511) / 512;
    }
    0
}
unsafe fn sim_stat_path(p: *const c_char, st: *mut libc::stat64) -> c_int {
    let _g = Guard::enter();
    meta();
    let p = cstr(p);
    match world().fs.lookup(&p) {
        Some(i) => fill_stat(i, false, st),
        None if world().fs.is_dir(&p) => fill_stat(0, true, st),
        None => fail(libc::ENOENT) as c_int,
    }
}
unsafe fn sim_fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    let _g = Guard::enter();
    meta();
    match world().fs.fd(fd).map(|f| f.ino) {
        Some(i) => fill_stat(i, false, st),
        None => fail(libc::EBADF) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if virt(fd) && active() {
        return sim_fstat(fd, st);
    }
    ret(sc(libc::SYS_fstat, fd as usize, st as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if active() {
        return sim_stat_path(p, st);
    }
    ret(sc(libc::SYS_newfstatat, libc::AT_FDCWD as isize as usize, p as usize, st as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if active() {
        return sim_stat_path(p, st);
    }
    ret(sc(libc::SYS_newfstatat, libc::AT_FDCWD as isize as usize, p as usize, st as usize, libc::AT_SYMLINK_NOFOLLOW as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    lstat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut libc::stat64, fl: c_int) -> c_int {
    if active() {
        if virt(d) && *p == 0 {
            return sim_fstat(d, st);
        }
        return sim_stat_path(p, st);
    }
    ret(sc(libc::SYS_newfstatat, d as isize as usize, p as usize, st as usize, fl as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: u32, sx: *mut libc::statx) -> c_int {
    if active() {
        let mut st: libc::stat64 = std::mem::zeroed();
        let r = if virt(d) && (p.is_null() || *p == 0) { sim_fstat(d, &mut st) } else { sim_stat_path(p, &mut st) };
        if r != 0 {
            return r;
        }
        std::ptr::write_bytes(sx as *mut u8, 0, std::mem::size_of::<libc::statx>());
        (*sx).stx_mask = 0x7ff;
        (*sx).stx_mode = st.st_mode as u16;
        (*sx).stx_size = st.st_size as u64;
        (*sx).stx_blocks = st.st_blocks as u64;
        (*sx).stx_nlink = 1;
        (*sx).stx_ino = st.st_ino;
        (*sx).stx_blksize = 4096;
        return 0;
    }
    ret(sc(libc::SYS_statx, d as isize as usize, p as usize, fl as usize, mask as usize, sx as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        let _g = Guard::enter();
        meta();
        return if world().fs.rename(&cstr(a), &cstr(b)) { 0 } else { fail(libc::ENOENT) as c_int };
    }
    ret(sc(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if active() {
        let _g = Guard::enter();
        meta();
        return if world().fs.unlink(&cstr(p)) { 0 } else { fail(libc::ENOENT) as c_int };
    }
    ret(sc(libc::SYS_unlink, p as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    if active() {
        let _g = Guard::enter();
        meta();
        return if world().fs.is_dir(&cstr(p)) { fail(libc::EEXIST) as c_int } else { 0 };
    }
    ret(sc(libc::SYS_mkdir, p as usize, m as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if active() {
        return 0;
    }
    ret(sc(libc::SYS_rmdir, p as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if active() {
        let _g = Guard::enter();
        meta();
        let p = cstr(p);
        return if world().fs.lookup(&p).is_some() || world().fs.is_dir(&p) { 0 } else { fail(libc::ENOENT) as c_int };
    }
    ret(sc(libc::SYS_access, p as usize, m as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if virt(fd) && active() {
        let _g = Guard::enter();
        return match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => world().fs.dup_fd(fd).unwrap_or_else(|| fail(libc::EBADF) as c_int),
            libc::F_GETFL => world().fs.fd(fd).map_or(-1, |f| f.flags),
            _ => 0,
        };
    }
    ret(sc(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if virt(fd) && active() {
        return 0;
    }
    ret(sc(libc::SYS_flock, fd as usize, op as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if virt(fd) && active() {
        return 0;
    }
    ret(sc(libc::SYS_fchmod, fd as usize, m as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, fl: u32) -> ssize_t {
    if active() && (virt(a) || virt(b)) {
        return fail(libc::ENOSYS);
    }
    ret(sc(libc::SYS_copy_file_range, a as usize, ao as usize, b as usize, bo as usize, n, fl as usize))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if active() && (virt(a) || virt(b)) {
        return fail(libc::ENOSYS);
    }
    ret(sc(libc::SYS_sendfile, a as usize, b as usize, off as usize, n, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(a: c_int, b: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    sendfile64(a, b, off, n)
}

// ---- entropy ----------------------------------------------------------------------------

unsafe fn sim_random(buf: *mut u8, n: usize) -> isize {
    let _g = Guard::enter();
    let w = world();
    w.ev(b'R', n as u64, 0);
    let mut k = n;
    match w.fault_for(Op::Rand, n) {
        Some(FaultKind::GetrandomEintr) => return fail(libc::EINTR),
        Some(FaultKind::GetrandomShort(p)) => k = part(n, p),
        _ => {}
    }
    if k > 0 {
        w.entropy.fill(std::slice::from_raw_parts_mut(buf, k));
        w.entropy_bytes += k as u64;
    }
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, fl: u32) -> ssize_t {
    if active() {
        return sim_random(b as *mut u8, n);
    }
    ret(sc(libc::SYS_getrandom, b as usize, n, fl as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(b: *mut c_void, n: size_t) -> c_int {
    if active() {
        let mut done = 0;
        while done < n {
            let r = sim_random((b as *mut u8).add(done), n - done);
            if r > 0 {
                done += r as usize;
            }
        }
        return 0;
    }
    if sc(libc::SYS_getrandom, b as usize, n, 0, 0, 0, 0) == n as isize {
        0
    } else {
        fail(libc::EIO) as c_int
    }
}

// ---- clocks -----------------------------------------------------------------------------

unsafe fn sim_clock(id: c_int) -> (i64, i64) {
    let _g = Guard::enter();
    sched::yield_now();
    let w = world();
    let _ = w.fault_for(Op::Clock, 0);
    let ns: i64 = match id {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => (w.mono as i64).wrapping_add(w.wall),
        _ => w.mono as i64,
    };
    (ns.div_euclid(1_000_000_000), ns.rem_euclid(1_000_000_000))
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if active() {
        let (s, n) = sim_clock(id);
        (*ts).tv_sec = s;
        (*ts).tv_nsec = n;
        return 0;
    }
    ret(sc(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if active() {
        let (s, n) = sim_clock(libc::CLOCK_REALTIME);
        (*tv).tv_sec = s;
        (*tv).tv_usec = n / 1000;
        return 0;
    }
    ret(sc(libc::SYS_gettimeofday, tv as usize, tz as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    if active() {
        let (s, _) = sim_clock(libc::CLOCK_REALTIME);
        if !t.is_null() {
            *t = s;
        }
        return s;
    }
    ret(sc(libc::SYS_time, t as usize, 0, 0, 0, 0, 0)) as i64
}
unsafe fn ts_ns(t: *const libc::timespec) -> u64 {
    ((*t).tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if active() {
        let _g = Guard::enter();
        let until = world().mono.saturating_add(ts_ns(t));
        sched::sleep_until(until);
        return 0;
    }
    ret(sc(libc::SYS_nanosleep, t as usize, rem as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, fl: c_int, t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if active() {
        let _g = Guard::enter();
        let until = if fl & 1 != 0 { ts_ns(t) } else { world().mono.saturating_add(ts_ns(t)) };
        sched::sleep_until(until);
        return 0;
    }
    let r = sc(libc::SYS_clock_nanosleep, id as usize, fl as usize, t as usize, rem as usize, 0, 0);
    -r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: u32) -> c_int {
    let ts = libc::timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 };
    nanosleep(&ts, std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        let _g = Guard::enter();
        let w = world();
        // a polite spinner must not keep the processor: give the others a turn
        let cur = w.sched.cur;
        if w.sched.th.len() > 1 && w.sched.th.iter().enumerate().any(|(i, t)| i != cur && t.st == St::Run) {
            let t = w.mono + 1;
            sched::sleep_until(t);
        } else {
            sched::yield_now();
        }
        return 0;
    }
    ret(sc(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

// ---- threads ----------------------------------------------------------------------------

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type Create = unsafe extern "C" fn(*mut usize, *const c_void, Start, *mut c_void) -> c_int;
type Join = unsafe extern "C" fn(usize, *mut *mut c_void) -> c_int;
static REAL_CREATE: AtomicUsize = AtomicUsize::new(0);
static REAL_JOIN: AtomicUsize = AtomicUsize::new(0);
static KEY: AtomicUsize = AtomicUsize::new(usize::MAX);

unsafe fn real(slot: &AtomicUsize, name: &str) -> usize {
    let v = slot.load(Ordering::Relaxed);
    if v != 0 {
        return v;
    }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char) as usize;
    assert!(p != 0);
    slot.store(p, Ordering::Relaxed);
    p
}

extern "C" fn on_exit(p: *mut c_void) {
    // Runs after all thread-local destructors of the simulated thread.
    HOOK.with(|h| h.set(true));
    sched::thread_exit(p as usize - 1);
    SIM.with(|s| s.set(0));
}

extern "C" fn on_fault(sig: c_int) {
    // not ours: let the same instruction fault again with the default action
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = libc::SIG_DFL;
        libc::sigaction(sig, &a, std::ptr::null_mut());
    }
}
/// Runs before the standard library's start-up code. With these two signals taken, that code does
/// not set up its stack-overflow reporting, whose process-wide lock every std thread takes when it
/// starts and when it ends: a thread of the harness on its way out, or a simulated thread whose
/// process ended, could hold it against the threads of the next simulated process.
extern "C" fn early() {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_fault as extern "C" fn(c_int) as usize;
        libc::sigaction(libc::SIGSEGV, &a, std::ptr::null_mut());
        libc::sigaction(libc::SIGBUS, &a, std::ptr::null_mut());
    }
}
#[used]
#[link_section = ".init_array"]
static EARLY: extern "C" fn() = early;

pub fn init() {
    unsafe {
        real(&REAL_CREATE, "pthread_create\0");
        real(&REAL_JOIN, "pthread_join\0");
        let mut k: libc::pthread_key_t = 0;
        assert_eq!(libc::pthread_key_create(&mut k, Some(std::mem::transmute::<extern "C" fn(*mut c_void), unsafe extern "C" fn(*mut c_void)>(on_exit))), 0);
        KEY.store(k as usize, Ordering::Relaxed);
    }
}

struct Tramp {
    id: usize,
    f: Start,
    arg: *mut c_void,
    baton: &'static std::sync::atomic::AtomicU32,
}
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let t = unsafe { Box::from_raw(p as *mut Tramp) };
    raw::baton_wait(t.baton);
    HOOK.with(|h| h.set(true));
    SIM.with(|s| s.set(t.id as u32 + 1));
    unsafe {
        libc::pthread_setspecific(KEY.load(Ordering::Relaxed) as libc::pthread_key_t, (t.id + 1) as *const c_void);
    }
    let (f, arg) = (t.f, t.arg);
    drop(t);
    HOOK.with(|h| h.set(false));
    f(arg)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut usize, attr: *const c_void, f: Start, arg: *mut c_void) -> c_int {
    let rc: Create = std::mem::transmute(real(&REAL_CREATE, "pthread_create\0"));
    if active() {
        let _g = Guard::enter();
        let w = world();
        if let Some(FaultKind::SpawnFail(_)) = w.fault_for(Op::Spawn, 0) {
            return libc::EAGAIN;
        }
        let id = sched::new_thread();
        let baton = world().sched.th[id].baton;
        let t = Box::into_raw(Box::new(Tramp { id, f, arg, baton }));
        let r = rc(out, attr, tramp, t as *mut c_void);
        if r != 0 {
            eprintln!("harness: real pthread_create failed: {}", r);
            libc::_exit(70);
        }
        world().sched.th[id].pthread = *out as u64;
        sched::yield_now();
        return 0;
    }
    rc(out, attr, f, arg)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: usize, out: *mut *mut c_void) -> c_int {
    let rj: Join = std::mem::transmute(real(&REAL_JOIN, "pthread_join\0"));
    if active() {
        let _g = Guard::enter();
        // the most recent thread with that handle (handles are reused)
        let id = (0..world().sched.th.len()).rev().find(|&i| world().sched.th[i].pthread == t as u64);
        if let Some(id) = id {
            sched::join(id);
        }
        return rj(t, out);
    }
    rj(t, out)
}

// ---- syscall(2) -------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if active() {
        match n {
            libc::SYS_getrandom => return sim_random(a as *mut u8, b) as c_long,
            libc::SYS_futex => {
                let op = b as i32 & 0x7f;
                let realtime = b as i32 & 256 != 0;
                let _g = Guard::enter();
                match op {
                    0 | 9 => {
                        let to = d as *const libc::timespec;
                        let deadline = if to.is_null() {
                            None
                        } else if op == 0 {
                            Some(world().mono.saturating_add(ts_ns(to)))
                        } else if realtime {
                            Some((ts_ns(to) as i64).wrapping_sub(world().wall).max(0) as u64)
                        } else {
                            Some(ts_ns(to))
                        };
                        let bits = if op == 9 { f as u32 } else { u32::MAX };
                        return sched::futex_wait(a, c as u32, bits, deadline) as c_long;
                    }
                    1 | 10 => {
                        let bits = if op == 10 { f as u32 } else { u32::MAX };
                        return sched::futex_wake(a, c as u32, bits) as c_long;
                    }
                    _ => {
                        eprintln!("harness: unexpected futex operation {}", op);
                        libc::_exit(70);
                    }
                }
            }
            libc::SYS_statx => return statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut libc::statx) as c_long,
            libc::SYS_copy_file_range => return fail(libc::ENOSYS) as c_long,
            _ => {}
        }
    }
    ret(sc(n, a, b, c, d, e, f)) as c_long
}

// ---- allocator: every allocation is a scheduling point -----------------------------------

pub struct SimAlloc;
#[cold]
#[inline(never)]
fn alloc_yield() {
    let _g = Guard::enter();
    sched::yield_now();
}
#[inline(always)]
fn point() {
    if MULTI.load(Ordering::Relaxed) && active() {
        alloc_yield();
    }
}
/// Also counts steps while only one thread lives, so that a loop that polls for ever runs out of
/// its step budget.
#[inline(always)]
pub(crate) fn atomic_point() {
    if active() {
        alloc_yield();
    }
}
unsafe impl std::alloc::GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        point();
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        point();
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        point();
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        point();
        std::alloc::System.realloc(p, l, n)
    }
}

/// Keeps the interposed symbols in the executable even if only dlsym looks for them.
#[used]
pub static KEEP: [unsafe extern "C" fn(*mut c_void, size_t, u32) -> ssize_t; 1] = [getrandom];
