
//! The system calls of the command line tool, on files in memory (symbolic build only).
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};

pub static mut FS: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
/// per descriptor from 3 on: file, position
static mut FDS: Vec<Option<(usize, usize)>> = Vec::new();
pub static mut OUT: Vec<u8> = Vec::new();
pub static mut STDIN: (Vec<u8>, usize) = (Vec::new(), 0);
/// a directory: opening it for writing fails
pub static mut DIR: Vec<u8> = Vec::new();
static mut ERRNO: c_int = 0;

#[no_mangle]
pub unsafe extern "C" fn __errno_location() -> *mut c_int {
    &raw mut ERRNO
}
unsafe fn fail(e: c_int) -> c_int {
    ERRNO = e;
    -1
}
unsafe fn find(p: &[u8]) -> Option<usize> {
    let fs = &*(&raw const FS);
    fs.iter().position(|f| f.0 == p)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, _mode: c_int) -> c_int {
    let p = CStr::from_ptr(path).to_bytes();
    if p == &(*(&raw const DIR))[..] && flags & 3 != 0 {
        return fail(21);
    }
    let fs = &mut *(&raw mut FS);
    let i = match find(p) {
        Some(i) => {
            if flags & 0o300 == 0o300 {
                return fail(17);
            }
            i
        }
        None => {
            if flags & 0o100 == 0 {
                return fail(2);
            }
            fs.push((p.to_vec(), Vec::new()));
            fs.len() - 1
        }
    };
    if flags & 0o1000 != 0 {
        fs[i].1.clear();
    }
    let at = if flags & 0o2000 != 0 { fs[i].1.len() } else { 0 };
    let fds = &mut *(&raw mut FDS);
    fds.push(Some((i, at)));
    fds.len() as c_int + 2
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let (data, at) = if fd == 0 {
        let s = &mut *(&raw mut STDIN);
        (&s.0, &mut s.1)
    } else {
        let fds = &mut *(&raw mut FDS);
        match fds.get_mut(fd as usize - 3) {
            Some(&mut Some((i, ref mut at))) => (&(*(&raw const FS))[i].1, at),
            _ => return fail(9) as isize,
        }
    };
    let k = n.min(data.len() - *at);
    std::ptr::copy_nonoverlapping(data.as_ptr().add(*at), buf as *mut u8, k);
    *at += k;
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let b = std::slice::from_raw_parts(buf as *const u8, n);
    match fd {
        1 => (*(&raw mut OUT)).extend_from_slice(b),
        2 => {}
        _ => {
            let fds = &mut *(&raw mut FDS);
            match fds.get_mut(fd as usize - 3) {
                Some(&mut Some((i, ref mut at))) => {
                    let f = &mut (*(&raw mut FS))[i].1;
                    for k in 0..n {
                        if *at + k < f.len() {
                            f[*at + k] = b[k];
                        } else {
                            f.push(b[k]);
                        }
                    }
                    *at += n;
                }
                _ => return fail(9) as isize,
            }
        }
    }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let fds = &mut *(&raw mut FDS);
    if fd >= 3 && (fd as usize - 3) < fds.len() {
        fds[fd as usize - 3] = None;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(_fd: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(_fd: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    match find(CStr::from_ptr(path).to_bytes()) {
        Some(i) => {
            (&mut *(&raw mut FS))[i].0.clear();
            0
        }
        None => fail(2),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let to = CStr::from_ptr(b).to_bytes();
    match find(CStr::from_ptr(a).to_bytes()) {
        Some(i) => {
            unlink(b);
            (&mut *(&raw mut FS))[i].0 = to.to_vec();
            0
        }
        None => fail(2),
    }
}
#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(e: c_int, buf: *mut c_char, n: usize) -> c_int {
    let t: &[u8] = match e {
        2 => b"No such file or directory\0",
        9 => b"Bad file descriptor\0",
        17 => b"File exists\0",
        21 => b"Is a directory\0",
        _ => b"Unknown error\0",
    };
    if t.len() > n {
        return 34;
    }
    std::ptr::copy_nonoverlapping(t.as_ptr() as *const c_char, buf, t.len());
    0
}
