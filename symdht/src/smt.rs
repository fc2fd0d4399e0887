use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Solver {
    child: Child,
    inp: std::io::BufWriter<ChildStdin>,
    out: BufReader<ChildStdout>,
    pub bytes: u64,
}
impl Solver {
    pub fn new(cmd: &str) -> Solver {
        let parts: Vec<&str> = cmd.split_whitespace().collect();
        let mut child = Command::new(parts[0])
            .args(&parts[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("start solver");
        let inp = std::io::BufWriter::with_capacity(1 << 20, child.stdin.take().unwrap());
        let out = BufReader::new(child.stdout.take().unwrap());
        Solver { child, inp, out, bytes: 0 }
    }
    pub fn send(&mut self, s: &str) {
        self.bytes += s.len() as u64;
        let _ = self.inp.write_all(s.as_bytes());
    }
    /// one answer line; any error line is inconclusive
    pub fn answer(&mut self, s: &str) -> String {
        self.send(s);
        let _ = self.inp.flush();
        let mut l = String::new();
        if self.out.read_line(&mut l).unwrap_or(0) == 0 {
            return "(error \"solver died\")".into();
        }
        l.trim().to_string()
    }
    /// an s-expression answer, possibly over several lines
    pub fn sexpr(&mut self, s: &str) -> String {
        self.send(s);
        let _ = self.inp.flush();
        let mut acc = String::new();
        let mut depth = 0i64;
        loop {
            let mut l = String::new();
            if self.out.read_line(&mut l).unwrap_or(0) == 0 {
                return "(error \"solver died\")".into();
            }
            for c in l.chars() {
                if c == '(' {
                    depth += 1
                } else if c == ')' {
                    depth -= 1
                }
            }
            acc.push_str(&l);
            if depth <= 0 {
                return acc;
            }
        }
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// parse ((x0 (/ 1.0 3.0)) (x1 (- 2.0)) ...) into values
pub fn parse_values(s: &str) -> Vec<f64> {
    #[derive(Debug)]
    enum S {
        A(String),
        L(Vec<S>),
    }
    fn toks(s: &str) -> Vec<String> {
        s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect()
    }
    fn parse(t: &[String], p: &mut usize) -> S {
        if t[*p] == "(" {
            *p += 1;
            let mut v = vec![];
            while t[*p] != ")" {
                v.push(parse(t, p))
            }
            *p += 1;
            S::L(v)
        } else {
            *p += 1;
            S::A(t[*p - 1].clone())
        }
    }
    fn num(x: &S) -> f64 {
        match x {
            S::A(a) => a.parse().unwrap_or(f64::NAN),
            S::L(v) => match (&v[0], v.len()) {
                (S::A(o), 2) if o == "-" => -num(&v[1]),
                (S::A(o), 3) if o == "/" => num(&v[1]) / num(&v[2]),
                (S::A(o), 3) if o == "-" => num(&v[1]) - num(&v[2]),
                _ => f64::NAN,
            },
        }
    }
    let t = toks(s);
    let mut p = 0;
    match parse(&t, &mut p) {
        S::L(v) => v
            .iter()
            .map(|e| match e {
                S::L(kv) if kv.len() == 2 => num(&kv[1]),
                _ => f64::NAN,
            })
            .collect(),
        _ => vec![],
    }
}
