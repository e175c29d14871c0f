//! The same worker built in another way, asked through a pipe.

use std::cell::RefCell;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};

struct Other { child: Child }

impl Drop for Other {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local!(static OTHERS: RefCell<Vec<(&'static str, Other)>> = RefCell::new(Vec::new()));

fn write(w: &mut dyn Write, b: &[u8]) -> std::io::Result<()> {
    w.write_all(&(b.len() as u32).to_le_bytes())?;
    w.write_all(b)?;
    w.flush()
}

fn read(r: &mut dyn Read) -> std::io::Result<Vec<u8>> {
    let mut n = [0; 4];
    r.read_exact(&mut n)?;
    let mut b = vec![0; u32::from_le_bytes(n) as usize];
    r.read_exact(&mut b)?;
    Ok(b)
}

/// What the worker in directory `dir` (of the build) answers; an error if it
/// died of a signal.
pub fn ask(dir: &'static str, job: &[u8]) -> Result<Vec<u8>, String> {
    OTHERS.with(|o| {
        let mut o = o.borrow_mut();
        if !o.iter().any(|x| x.0 == dir) {
            let mut p = std::env::current_exe().expect("own path");
            p.pop();
            p.pop();
            p.push(dir);
            p.push("worker");
            let child = Command::new(&p).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("other build");
            o.push((dir, Other { child }));
        }
        let k = o.iter().position(|x| x.0 == dir).unwrap();
        let r = {
            let c = &mut o[k].1.child;
            write(c.stdin.as_mut().unwrap(), job).and_then(|_| read(c.stdout.as_mut().unwrap()))
        };
        match r {
            Ok(b) => Ok(b),
            Err(e) => {
                let mut x = o.remove(k).1;
                let st = x.child.wait().expect("status");
                match st.signal() {
                    Some(s) if s != 9 && s != 15 => Err(format!("died of signal {}", s)),
                    _ => panic!("the {} worker ended with {}: {}", dir, st, e),
                }
            }
        }
    })
}

/// Answers until there is nothing more to answer.
pub fn serve(f: &dyn Fn(&[u8]) -> Vec<u8>) {
    let (i, o) = (std::io::stdin(), std::io::stdout());
    let (mut i, mut o) = (i.lock(), o.lock());
    while let Ok(b) = read(&mut i) {
        if write(&mut o, &f(&b)).is_err() { break; }
    }
}
