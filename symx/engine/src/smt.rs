//! One z3 process, one standalone script per query.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub enum Answer {
    Unsat,
    /// values of the requested constants, as canonical integers
    Sat(Vec<[u64; 4]>),
    Unknown(String),
}
pub struct Solver {
    proc: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    pub log: Option<std::fs::File>,
}
fn solver_bin() -> String {
    std::env::var("SYMX_Z3").unwrap_or_else(|_| {
        for c in ["/usr/local/bin/z3-new", "/usr/bin/z3"] {
            if std::path::Path::new(c).exists() {
                return c.into();
            }
        }
        "z3".into()
    })
}
impl Solver {
    pub fn new() -> Self {
        let log = std::env::var("SYMX_LOG").ok().map(|p| {
            std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap()
        });
        Solver { proc: None, log }
    }
    fn start(&mut self) {
        let mut c = Command::new(solver_bin())
            .args(["-in", "-smt2", "-memory:3500"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("z3 starts");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        self.proc = Some((c, i, o));
    }
    fn kill(&mut self) {
        if let Some((mut c, _, _)) = self.proc.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    fn line(&mut self) -> Option<String> {
        let mut s = String::new();
        match self.proc.as_mut()?.2.read_line(&mut s) {
            Ok(0) | Err(_) => None,
            Ok(_) => Some(s.trim().to_string()),
        }
    }
    pub fn check(&mut self, script: &str, names: &[String], ms: u64) -> Answer {
        if self.proc.is_none() {
            self.start();
        }
        let text = format!("(reset)\n(set-option :timeout {ms})\n{script}(check-sat)\n(echo \"@@\")\n");
        if let Some(l) = &mut self.log {
            let _ = l.write_all(text.as_bytes());
        }
        let send = |s: &mut Self, t: &str| -> bool {
            let p = s.proc.as_mut().unwrap();
            p.1.write_all(t.as_bytes()).is_ok() && p.1.flush().is_ok()
        };
        if !send(self, &text) {
            self.kill();
            return Answer::Unknown("solver died".into());
        }
        let mut verdict = None;
        let mut err = None;
        loop {
            match self.line() {
                None => {
                    self.kill();
                    return Answer::Unknown("solver died".into());
                }
                Some(l) if l == "@@" => break,
                Some(l) if l.contains("(error") => err = Some(l),
                Some(l) if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" => verdict = Some(l),
                Some(_) => {}
            }
        }
        if let Some(e) = err {
            return Answer::Unknown(e);
        }
        match verdict.as_deref() {
            Some("unsat") => Answer::Unsat,
            Some("sat") => {
                let mut out = vec![];
                if !names.is_empty() {
                    if !send(self, &format!("(get-value ({}))\n(echo \"@@\")\n", names.join(" "))) {
                        self.kill();
                        return Answer::Unknown("solver died".into());
                    }
                    let mut txt = String::new();
                    loop {
                        match self.line() {
                            None => {
                                self.kill();
                                return Answer::Unknown("solver died".into());
                            }
                            Some(l) if l == "@@" => break,
                            Some(l) => {
                                txt.push_str(&l);
                                txt.push(' ');
                            }
                        }
                    }
                    for n in names {
                        let pat = format!("({n} ");
                        let Some(i) = txt.find(&pat) else { return Answer::Unknown(format!("no value: {txt}")) };
                        let rest = &txt[i + pat.len()..];
                        let v = rest[..rest.find(')').unwrap()].trim();
                        let val = if let Some(b) = v.strip_prefix("#b") {
                            u64::from_str_radix(b, 2).unwrap()
                        } else if let Some(h) = v.strip_prefix("#x") {
                            u64::from_str_radix(h, 16).unwrap()
                        } else {
                            v.parse().unwrap_or(0)
                        };
                        out.push([val, 0, 0, 0]);
                    }
                }
                Answer::Sat(out)
            }
            v => Answer::Unknown(v.unwrap_or("none").into()),
        }
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        self.kill();
    }
}
