//! Process plumbing: every simulated run happens in a forked child, so that no
//! run can influence another one and a hang or an abort is pinned to its run.
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn getpid() -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub fn die_with_parent() {
    unsafe {
        prctl(1, 9, 0, 0, 0);
    }
}

pub fn limits(cpu_s: u64, wall_s: u32, mem: u64) {
    unsafe {
        setrlimit(0, &[cpu_s, cpu_s + 5]);
        setrlimit(9, &[mem, mem]);
        setrlimit(4, &[0, 0]);
        alarm(wall_s);
    }
}

pub enum End {
    /// What the child wrote.
    Bytes(Vec<u8>),
    /// It was killed or exited early: signal or code.
    Died(String),
}

pub struct Limits {
    pub cpu_s: u64,
    pub wall_s: u32,
    pub mem: u64,
}

pub const RUN_LIMITS: Limits = Limits {
    cpu_s: 100,
    wall_s: 400,
    mem: 3 << 30,
};

/// Runs `f` in a forked child and returns what it returned.
pub fn forked(l: &Limits, f: impl FnOnce() -> Vec<u8>) -> End {
    let mut fds = [0i32; 2];
    unsafe {
        if pipe(fds.as_mut_ptr()) != 0 {
            return End::Died("pipe".into());
        }
        let pid = fork();
        if pid < 0 {
            return End::Died("fork".into());
        }
        if pid == 0 {
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            drop(std::fs::File::from_raw_fd(fds[0]));
            die_with_parent();
            limits(l.cpu_s, l.wall_s, l.mem);
            let out = f();
            let ok = w
                .write_all(&(out.len() as u64).to_le_bytes())
                .and_then(|_| w.write_all(&out))
                .is_ok();
            drop(w);
            _exit(if ok { 0 } else { 9 });
        }
        drop(std::fs::File::from_raw_fd(fds[1]));
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        let mut buf = vec![];
        let _ = r.read_to_end(&mut buf);
        let mut st = 0i32;
        waitpid(pid, &mut st, 0);
        if buf.len() >= 8 {
            let n = u64::from_le_bytes(buf[..8].try_into().unwrap()) as usize;
            if buf.len() == 8 + n {
                return End::Bytes(buf.split_off(8));
            }
        }
        let sig = st & 0x7f;
        End::Died(match sig {
            0 => format!("exit code {}", (st >> 8) & 0xff),
            6 => "abort (out of memory or stack)".into(),
            9 | 14 | 24 => "no end in sight (time limit)".into(),
            11 => "segmentation fault (stack overflow)".into(),
            s => format!("signal {}", s),
        })
    }
}

/// A copy of the process as it was when the run began. Asked for something, it
/// answers from a fork of its own, so every answer comes from a process that
/// has not done anything before.
pub struct Zygote {
    pid: i32,
    w: Option<std::fs::File>,
    r: std::fs::File,
}

impl Zygote {
    pub fn start(mut answer: impl FnMut(Vec<u8>) -> Vec<u8>) -> Option<Zygote> {
        let mut a = [0i32; 2];
        let mut b = [0i32; 2];
        unsafe {
            if pipe(a.as_mut_ptr()) != 0 || pipe(b.as_mut_ptr()) != 0 {
                return None;
            }
            let pid = fork();
            if pid < 0 {
                return None;
            }
            if pid == 0 {
                die_with_parent();
                drop(std::fs::File::from_raw_fd(a[1]));
                drop(std::fs::File::from_raw_fd(b[0]));
                let mut r = std::fs::File::from_raw_fd(a[0]);
                let mut w = std::fs::File::from_raw_fd(b[1]);
                loop {
                    let mut len = [0u8; 8];
                    if r.read_exact(&mut len).is_err() {
                        _exit(0);
                    }
                    let mut req = vec![0u8; u64::from_le_bytes(len) as usize];
                    if r.read_exact(&mut req).is_err() {
                        _exit(0);
                    }
                    let resp = match forked(&RUN_LIMITS, || answer(req)) {
                        End::Bytes(b) => [vec![1u8], b].concat(),
                        End::Died(s) => [vec![0u8], s.into_bytes()].concat(),
                    };
                    if w
                        .write_all(&(resp.len() as u64).to_le_bytes())
                        .and_then(|_| w.write_all(&resp))
                        .is_err()
                    {
                        _exit(0);
                    }
                }
            }
            drop(std::fs::File::from_raw_fd(a[0]));
            drop(std::fs::File::from_raw_fd(b[1]));
            Some(Zygote {
                pid,
                w: Some(std::fs::File::from_raw_fd(a[1])),
                r: std::fs::File::from_raw_fd(b[0]),
            })
        }
    }
    pub fn ask(&mut self, req: &[u8]) -> Result<Vec<u8>, String> {
        let w = self.w.as_mut().unwrap();
        w.write_all(&(req.len() as u64).to_le_bytes())
            .and_then(|_| w.write_all(req))
            .map_err(|e| e.to_string())?;
        let mut len = [0u8; 8];
        self.r.read_exact(&mut len).map_err(|e| e.to_string())?;
        let mut resp = vec![0u8; u64::from_le_bytes(len) as usize];
        self.r.read_exact(&mut resp).map_err(|e| e.to_string())?;
        if resp.first() == Some(&1) {
            Ok(resp.split_off(1))
        } else {
            Err(String::from_utf8_lossy(&resp[1..]).into())
        }
    }
}

impl Drop for Zygote {
    fn drop(&mut self) {
        self.w = None;
        unsafe {
            kill(self.pid, 9);
            let mut st = 0;
            waitpid(self.pid, &mut st, 0);
        }
    }
}

#[allow(dead_code)]
pub fn pid() -> i32 {
    unsafe { getpid() }
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}

/// One number that a forked child and its parent share.
pub struct Shared(*mut u64);
impl Shared {
    pub fn new() -> Shared {
        // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
        Shared(if p as isize == -1 { std::ptr::null_mut() } else { p as *mut u64 })
    }
    pub fn set(&mut self, v: u64) {
        if !self.0.is_null() {
            unsafe { std::ptr::write_volatile(self.0, v) }
        }
    }
    pub fn get(&self) -> u64 {
        if self.0.is_null() {
            0
        } else {
            unsafe { std::ptr::read_volatile(self.0) }
        }
    }
}
impl Drop for Shared {
    fn drop(&mut self) {
        if !self.0.is_null() {
            unsafe {
                munmap(self.0 as *mut u8, 4096);
            }
        }
    }
}
