//! A pseudo terminal for the program's password prompts.
use std::fs::File;
use std::io;
use std::os::fd::{AsRawFd, FromRawFd};
use std::sync::atomic::{AtomicBool, Ordering};

/// (our side, the program's side)
pub fn open() -> io::Result<(File, File)> {
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if m < 0 {
            return Err(io::Error::last_os_error());
        }
        let mf = File::from_raw_fd(m);
        if libc::grantpt(m) < 0 || libc::unlockpt(m) < 0 {
            return Err(io::Error::last_os_error());
        }
        let mut name = [0 as libc::c_char; 128];
        if libc::ptsname_r(m, name.as_mut_ptr(), name.len()) != 0 {
            return Err(io::Error::last_os_error());
        }
        let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if s < 0 {
            return Err(io::Error::last_os_error());
        }
        // the program opens /dev/tty as the unprivileged user: make that possible
        libc::fchmod(s, 0o666);
        Ok((mf, File::from_raw_fd(s)))
    }
}

/// Answers each prompt (output that ends with ": ") with the next line of `feed`, and collects
/// what is printed there.
pub fn converse(m: &File, feed: &[u8], done: &AtomicBool, seen: &mut Vec<u8>) {
    let mut lines: std::collections::VecDeque<Vec<u8>> = feed.split_inclusive(|b| *b == b'\n').map(<[u8]>::to_vec).collect();
    let fd = m.as_raw_fd();
    let mut answered = 0;
    loop {
        let mut p = libc::pollfd {
            fd,
            events: libc::POLLIN,
            revents: 0,
        };
        let n = unsafe { libc::poll(&mut p, 1, 20) };
        if n > 0 && p.revents & libc::POLLIN != 0 {
            let mut b = [0u8; 4096];
            let r = unsafe { libc::read(fd, b.as_mut_ptr().cast(), b.len()) };
            if r > 0 {
                seen.extend_from_slice(&b[..r as usize]);
                if seen[answered..].ends_with(b": ") {
                    answered = seen.len();
                    // echo is switched off shortly after the prompt is printed: wait for that
                    for _ in 0..2000 {
                        let mut t: libc::termios = unsafe { std::mem::zeroed() };
                        let off = unsafe { libc::tcgetattr(fd, &mut t) } == 0 && t.c_lflag & libc::ECHO == 0;
                        if off || done.load(Ordering::SeqCst) {
                            break;
                        }
                        std::thread::sleep(std::time::Duration::from_millis(1));
                    }
                    if let Some(l) = lines.pop_front() {
                        unsafe { libc::write(fd, l.as_ptr().cast(), l.len()) };
                    } else {
                        unsafe { libc::write(fd, b"\x04".as_ptr().cast(), 1) };
                    }
                }
                continue;
            }
        }
        if done.load(Ordering::SeqCst) {
            return;
        }
        if n > 0 {
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
    }
}
