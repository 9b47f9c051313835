//! The one input record shared by all checks, with an exact text form for replay files.
use std::fmt::Write;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub kind: usize,
    pub n: usize,
    pub dim: usize,
    pub d: usize,
    pub steps: usize,
    pub idx: usize,
    pub tol: f64,
    pub pts: Vec<Vec<f64>>,
    pub pts2: Vec<Vec<f64>>,
    pub knots: Vec<f64>,
    pub t: Vec<f64>,
    pub q: Vec<f64>,
    pub m: Vec<Vec<f64>>,
    pub ops: Vec<(usize, usize, f64, usize)>,
    pub labels: Vec<String>,
}

fn hx(x: f64) -> String {
    format!("{:016x}", x.to_bits())
}
fn uh(s: &str) -> Result<f64, String> {
    u64::from_str_radix(s, 16).map(f64::from_bits).map_err(|e| format!("{s}: {e}"))
}
fn row(v: &[f64]) -> String {
    v.iter().map(|x| hx(*x)).collect::<Vec<_>>().join(" ")
}
fn unrow(s: &str) -> Result<Vec<f64>, String> {
    s.split_whitespace().map(uh).collect()
}

impl Case {
    pub fn encode(&self) -> String {
        let mut o = String::new();
        for (k, v) in [("kind", self.kind), ("n", self.n), ("dim", self.dim), ("d", self.d), ("steps", self.steps), ("idx", self.idx)] {
            let _ = writeln!(o, "{k}: {v}");
        }
        let _ = writeln!(o, "tol: {}", hx(self.tol));
        for (k, m) in [("pts", &self.pts), ("pts2", &self.pts2), ("m", &self.m)] {
            for r in m {
                let _ = writeln!(o, "{k}: {}", row(r));
            }
        }
        for (k, r) in [("knots", &self.knots), ("t", &self.t), ("q", &self.q)] {
            if !r.is_empty() {
                let _ = writeln!(o, "{k}: {}", row(r));
            }
        }
        for (a, b, x, c) in &self.ops {
            let _ = writeln!(o, "op: {a} {b} {} {c}", hx(*x));
        }
        o
    }
    pub fn decode(s: &str) -> Result<Case, String> {
        let mut c = Case::default();
        for l in s.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let (k, v) = l.split_once(':').ok_or(format!("bad line {l}"))?;
            let v = v.trim();
            let int = || v.parse::<usize>().map_err(|e| format!("{l}: {e}"));
            match k {
                "kind" => c.kind = int()?,
                "n" => c.n = int()?,
                "dim" => c.dim = int()?,
                "d" => c.d = int()?,
                "steps" => c.steps = int()?,
                "idx" => c.idx = int()?,
                "tol" => c.tol = uh(v)?,
                "pts" => c.pts.push(unrow(v)?),
                "pts2" => c.pts2.push(unrow(v)?),
                "m" => c.m.push(unrow(v)?),
                "knots" => c.knots = unrow(v)?,
                "t" => c.t = unrow(v)?,
                "q" => c.q = unrow(v)?,
                "op" => {
                    let f: Vec<&str> = v.split_whitespace().collect();
                    if f.len() != 4 {
                        return Err(format!("bad op {l}"));
                    }
                    let p = |s: &str| s.parse::<usize>().map_err(|e| format!("{l}: {e}"));
                    c.ops.push((p(f[0])?, p(f[1])?, uh(f[2])?, p(f[3])?));
                }
                "property" | "subcheck" | "seed" | "config" | "message" => {}
                _ => return Err(format!("unknown field {k}")),
            }
        }
        Ok(c)
    }
    /// short human-readable form for evidence samples and messages
    pub fn brief(&self) -> String {
        let mut o = format!("kind={} n={} dim={} d={}", self.kind, self.n, self.dim, self.d);
        if !self.pts.is_empty() {
            let _ = write!(o, " pts={:?}", self.pts);
        }
        if !self.pts2.is_empty() {
            let _ = write!(o, " pts2={:?}", self.pts2);
        }
        if !self.knots.is_empty() {
            let _ = write!(o, " knots={:?}", self.knots);
        }
        if !self.t.is_empty() {
            let _ = write!(o, " t={:?}", self.t);
        }
        if !self.q.is_empty() {
            let _ = write!(o, " q={:?}", self.q);
        }
        if !self.m.is_empty() {
            let _ = write!(o, " m={:?}", self.m);
        }
        if !self.ops.is_empty() {
            let _ = write!(o, " ops={:?}", self.ops);
        }
        let _ = write!(o, " tol={:?} steps={} idx={}", self.tol, self.steps, self.idx);
        o
    }
}
