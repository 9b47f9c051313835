//! A tape of u64 (produced and shrunk by proptest, or filled from libFuzzer bytes) from which cases are decoded.
//! Reading past the end yields zeros, and zero always decodes to the simplest choice.
use crate::num::*;

pub struct Tape<'a> {
    d: &'a [u64],
    i: usize,
    tail: u64,
}

impl<'a> Tape<'a> {
    pub fn new(d: &'a [u64]) -> Self {
        Tape { d, i: 0, tail: 0 }
    }
    pub fn next(&mut self) -> u64 {
        let v = self.d.get(self.i).copied();
        self.i += 1;
        match v {
            Some(v) => v,
            None if self.tail != 0 => {
                // SplitMix64
                self.tail = self.tail.wrapping_add(0x9E3779B97F4A7C15) | 1 << 63;
                let mut z = self.tail;
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
                z ^ (z >> 31)
            }
            None => 0,
        }
    }
    /// For inputs larger than the tape: continue with pseudo-random values seeded from the tape (with zeros if that is 0).
    pub fn extend(&mut self) {
        self.tail = self.next();
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == n - 1
    }
    pub fn irange(&mut self, a: i32, b: i32) -> i32 {
        // zig-zag around zero where possible so that 0 is simplest
        let span = (b - a + 1) as u64;
        let v = (self.next() % span) as i32;
        if a <= 0 && b >= 0 {
            let m = v;
            let z = if m % 2 == 1 { (m + 1) / 2 } else { -(m / 2) };
            if z < a || z > b {
                a + v
            } else {
                z
            }
        } else {
            a + v
        }
    }
    /// uniform in [0,1)
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// uniform in [-1,1)
    pub fn sym(&mut self) -> f64 {
        let u = self.next();
        let m = (u >> 12) as f64 / (1u64 << 52) as f64;
        if u & 1 == 1 {
            -m
        } else {
            m
        }
    }
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let s: usize = w.iter().sum();
        let mut v = self.below(s);
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        0
    }
    /// A curve parameter in [0,1], representable in the native float.
    pub fn param(&mut self) -> f64 {
        let p = match self.weighted(&[2, 1, 1, 2, 2, 1, 1, 2, 12, 1, 2]) {
            0 => 0.5,
            1 => 0.0,
            2 => 1.0,
            3 => self.range(0, 64) as f64 / 64.0,
            4 => self.range(0, 4096) as f64 / 4096.0,
            5 => 2f64.powi(-(self.range(1, if IS32 { 24 } else { 60 }) as i32)),
            6 => 1.0 - 2f64.powi(-(self.range(1, if IS32 { 23 } else { 52 }) as i32)),
            7 => self.range(0, 10) as f64 / 10.0,
            8 => self.unit(),
            10 => {
                // close to a simple fraction
                let b = [0.5, 1.0 / 3.0, 2.0 / 3.0, 0.25, 0.75, self.range(0, 64) as f64 / 64.0][self.below(6)];
                let e = 2f64.powi(-(self.range(8, if IS32 { 24 } else { 53 }) as i32));
                if self.below(2) == 0 {
                    b + e
                } else {
                    b - e
                }
            }
            _ => {
                let n = self.range(1, 1000);
                self.range(0, n) as f64 / n as f64
            }
        };
        rnd(p.clamp(0.0, 1.0)).clamp(0.0, 1.0)
    }
    /// one coordinate in a "generic" style
    fn coord(&mut self, style: usize) -> f64 {
        match style {
            0 => self.irange(-10, 10) as f64,
            1 => self.irange(-16000, 16000) as f64 / 16.0,
            2 => self.irange(-500, 500) as f64 / 10.0,
            3 => self.sym() * 10.0,
            4 => {
                // mixed magnitudes
                let e = self.irange(-20, 20);
                self.sym() * 2f64.powi(e)
            }
            _ => self.irange(-100, 100) as f64 / 100.0,
        }
    }

    /// A control polygon of `n` points in `dim` dimensions, with a label of its style. Coordinates are finite,
    /// moderate (10^±EXP_WIDE) and representable in the native float.
    pub fn polygon(&mut self, n: usize, dim: usize) -> (Vec<Vec<f64>>, &'static str) {
        let cs = self.weighted(&[3, 2, 3, 5, 2, 2]);
        let style = self.weighted(&[10, 2, 2, 2, 2, 2, 2, 2, 3, 2, 2, 1, 2]);
        let mut p: Vec<Vec<f64>> = Vec::with_capacity(n);
        let mut label = "poly:plain";
        match style {
            6 => {
                label = "poly:collinear";
                let a: Vec<f64> = (0..dim).map(|_| self.coord(cs)).collect();
                let d: Vec<f64> = (0..dim).map(|_| self.coord(cs)).collect();
                for _ in 0..n {
                    let s = self.irange(-16, 32) as f64 / 16.0;
                    p.push((0..dim).map(|k| a[k] + s * d[k]).collect());
                }
            }
            7 => {
                label = "poly:coincident";
                let m = self.range(1, 3);
                let pool: Vec<Vec<f64>> = (0..m).map(|_| (0..dim).map(|_| self.coord(cs)).collect()).collect();
                for _ in 0..n {
                    let i = self.below(m);
                    p.push(pool[i].clone());
                }
            }
            8 => {
                label = "poly:elevated";
                let m = self.range(1, n.max(2) - 1).max(1);
                let mut q: Vec<Vec<f64>> = (0..m).map(|_| (0..dim).map(|_| self.coord(cs)).collect()).collect();
                while q.len() < n {
                    q = crate::oracle::elevate(&q);
                }
                p = q;
            }
            _ => {
                for _ in 0..n {
                    p.push((0..dim).map(|_| self.coord(cs)).collect());
                }
                match style {
                    1 => {
                        label = "poly:wide-scale";
                        let e = self.irange(-EXP_WIDE, EXP_WIDE);
                        let s = 10f64.powi(e);
                        p.iter_mut().flatten().for_each(|x| *x *= s);
                    }
                    2 => {
                        label = "poly:axis-scale";
                        for k in 0..dim {
                            let e = self.irange(-EXP_MID, EXP_MID);
                            let s = 10f64.powi(e);
                            p.iter_mut().for_each(|q| q[k] *= s);
                        }
                    }
                    3 => {
                        label = "poly:closed";
                        let f = p[0].clone();
                        *p.last_mut().unwrap() = f;
                    }
                    4 => {
                        label = "poly:offset";
                        let e = self.irange(0, if IS32 { 3 } else { 6 });
                        for k in 0..dim {
                            let o = self.sym() * 10f64.powi(e);
                            p.iter_mut().for_each(|q| q[k] += o);
                        }
                    }
                    5 => {
                        label = "poly:flat-axis";
                        let k = self.below(dim);
                        let c = p[0][k];
                        p.iter_mut().for_each(|q| q[k] = c);
                    }
                    9 => {
                        label = "poly:symmetric";
                        let k = self.below(dim);
                        for i in 0..n / 2 {
                            let v = p[i].clone();
                            p[n - 1 - i] = v;
                            p[n - 1 - i][k] = -p[i][k];
                        }
                    }
                    10 => {
                        label = "poly:monotone";
                        for k in 0..dim {
                            let mut v: Vec<f64> = p.iter().map(|q| q[k]).collect();
                            v.sort_by(f64::total_cmp);
                            for (q, x) in p.iter_mut().zip(v) {
                                q[k] = x;
                            }
                        }
                    }
                    11 => {
                        label = "poly:tiny-perturbation";
                        let c = p[0].clone();
                        let e = -self.irange(3, if IS32 { 6 } else { 15 });
                        for q in p.iter_mut() {
                            for k in 0..dim {
                                q[k] = c[k] + q[k] * 10f64.powi(e);
                            }
                        }
                    }
                    12 => {
                        label = "poly:one-outlier";
                        let i = self.below(n);
                        let e = self.irange(1, if IS32 { 3 } else { 8 });
                        p[i].iter_mut().for_each(|x| *x *= 10f64.powi(e));
                    }
                    _ => {}
                }
            }
        }
        // coincidences of single coordinates and points, on top of any style
        if self.below(4) == 3 {
            for _ in 0..self.range(1, 3) {
                let (what, i, j, k) = (self.below(9), self.below(n), self.below(n), self.below(dim));
                match what {
                    0 => p[i][k] = p[j][k],
                    1 => p[i] = p[j].clone(),
                    2 => p[i][k] = -p[j][k],
                    3 => p[i][k] = [0.0, -0.0, 1.0, -1.0][self.below(4)],
                    4 => {
                        let v = p[j][self.below(dim)];
                        p[i][k] = v;
                    }
                    5 => (0..n).for_each(|i| p[i][k] = p[i][0]),
                    // nearly coincident
                    6 => {
                        let e = 2f64.powi(-self.irange(3, if IS32 { 23 } else { 52 }));
                        let s = self.sym() * e;
                        p[i] = p[j].iter().map(|x| x + s).collect();
                    }
                    7 => {
                        let e = 2f64.powi(-self.irange(3, if IS32 { 23 } else { 52 }));
                        p[i][k] = p[j][k] * (1.0 + self.sym() * e);
                    }
                    _ => p[i] = (0..dim).map(|k| (p[(i + 1) % n][k] + p[j][k]) / 2.0).collect(),
                }
            }
        }
        if label != "poly:wide-scale" && label != "poly:axis-scale" && self.below(10) == 9 {
            let s = 10f64.powi(self.irange(-EXP_MID, EXP_MID));
            p.iter_mut().flatten().for_each(|x| *x *= s);
        }
        for x in p.iter_mut().flatten() {
            *x = rnd(*x);
        }
        (p, label)
    }

    /// A point related to a polygon: near it, on the curve, at a control point, far away.
    pub fn query_point(&mut self, p: &[Vec<f64>]) -> (Vec<f64>, &'static str) {
        let dim = p[0].len();
        let n = p.len();
        let span: Vec<f64> = (0..dim)
            .map(|k| {
                let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
                for q in p {
                    lo = lo.min(q[k]);
                    hi = hi.max(q[k]);
                }
                if hi > lo {
                    hi - lo
                } else {
                    1.0
                }
            })
            .collect();
        let (mut v, l) = match self.weighted(&[3, 2, 4, 2, 3, 1]) {
            0 => {
                let i = self.below(n);
                (p[i].clone(), "q:control-point")
            }
            1 => {
                let t = self.param();
                (crate::oracle::bern_point(p, t), "q:on-curve")
            }
            2 => {
                let mut c: Vec<f64> = (0..dim).map(|k| p.iter().map(|q| q[k]).sum::<f64>() / n as f64).collect();
                for k in 0..dim {
                    c[k] += span[k] * self.sym() * 1.5;
                }
                (c, "q:around")
            }
            3 => {
                let mut c = p[self.below(n)].clone();
                for k in 0..dim {
                    c[k] += span[k] * self.sym() * 100.0;
                }
                (c, "q:far")
            }
            4 => {
                // beyond an end, along the end tangent or away from the polygon
                let (a, b) = if self.below(2) == 0 { (p[0].clone(), p[n.min(2) - 1].clone()) } else { (p[n - 1].clone(), p[n - n.min(2)].clone()) };
                let s = self.unit() * 2.0;
                ((0..dim).map(|k| a[k] + (a[k] - b[k]) * s + span[k] * 0.1 * self.sym()).collect(), "q:beyond-end")
            }
            _ => (vec![0.0; dim], "q:origin"),
        };
        for x in v.iter_mut() {
            *x = rnd(*x);
        }
        (v, l)
    }

    /// A valid (non-decreasing, finite) knot vector for `c` control points and degree `d` whose domain
    /// [knots[d], knots[c]] is not empty.
    pub fn knots(&mut self, c: usize, d: usize) -> (Vec<f64>, &'static str) {
        let k = c + d + 1;
        let mut inc = vec![1.0; k]; // inc[i] = knots[i] - knots[i-1], inc[0] = start
        inc[0] = 0.0;
        let label;
        let clamp_start = |inc: &mut Vec<f64>| {
            for i in 1..=d {
                inc[i] = 0.0;
            }
        };
        let clamp_end = |inc: &mut Vec<f64>| {
            for i in k - d..k {
                inc[i] = 0.0;
            }
        };
        let spread = self.weighted(&[3, 3, 2]);
        match spread {
            0 => {}
            1 => {
                for x in inc.iter_mut().skip(1) {
                    *x = self.range(1, 40) as f64 / 8.0;
                }
            }
            _ => {
                for x in inc.iter_mut().skip(1) {
                    *x = (self.unit() + 0.001) * 10f64.powi(-(self.range(0, 3) as i32));
                }
            }
        }
        if self.below(10) == 9 {
            // one or two knots very close to their predecessors
            for _ in 0..self.range(1, 2) {
                let i = self.range(1, k - 1);
                inc[i] = 2f64.powi(-(self.range(8, if IS32 { 22 } else { 50 }) as i32));
            }
        }
        match self.weighted(&[3, 3, 3, 3, 4, 3, 2]) {
            0 => label = "knots:unclamped",
            1 => {
                label = "knots:clamped";
                clamp_start(&mut inc);
                clamp_end(&mut inc);
            }
            2 => {
                label = "knots:clamped-start";
                clamp_start(&mut inc);
            }
            3 => {
                label = "knots:clamped-end";
                clamp_end(&mut inc);
            }
            4 => {
                label = "knots:random-multiplicity";
                for x in inc.iter_mut().skip(1) {
                    if self.below(3) == 2 {
                        *x = 0.0;
                    }
                }
            }
            5 => {
                label = "knots:clamped-multiplicity";
                for x in inc.iter_mut().skip(1) {
                    if self.below(2) == 1 {
                        *x = 0.0;
                    }
                }
                clamp_start(&mut inc);
                clamp_end(&mut inc);
            }
            _ => {
                label = "knots:heavy-multiplicity";
                let keep = self.range(1, 3);
                let mut kept = 0;
                for i in 1..k {
                    if kept < keep && self.below(k) < 3 {
                        kept += 1;
                    } else {
                        inc[i] = 0.0;
                    }
                }
            }
        }
        // the domain must not be empty
        if (d + 1..=c).all(|i| inc[i] == 0.0) {
            let i = self.range(d + 1, c);
            inc[i] = 1.0;
        }
        let scale = match self.weighted(&[6, 2, 2]) {
            0 => 1.0,
            1 => 2f64.powi(self.irange(-10, 10)),
            _ => 10f64.powi(self.irange(-EXP_MID * 2, EXP_MID)),
        };
        let off = match self.weighted(&[4, 2, 1]) {
            0 => 0.0,
            1 => self.irange(-20, 20) as f64 * scale,
            _ => self.sym() * 100.0 * scale,
        };
        let mut s = 0.0;
        let mut v = Vec::with_capacity(k);
        for x in inc {
            s += x;
            v.push(rnd(s * scale + off));
        }
        if v[d] >= v[c] {
            // rounding closed the domain (single precision, large offset): fall back to uniform knots
            v = (0..k).map(|i| i as f64).collect();
            return (v, "knots:unclamped");
        }
        (v, label)
    }

    /// A parameter inside the domain [a,b] of the knot vector (exact knots and their neighbours included).
    pub fn knot_param(&mut self, knots: &[f64], c: usize, d: usize) -> f64 {
        let (a, b) = (knots[d], knots[c]);
        let t = match self.weighted(&[1, 2, 4, 2, 2, 8, 2]) {
            0 => a,
            1 => b,
            2 => knots[self.range(d, c)],
            3 => up(knots[self.range(d, c)]),
            4 => down(knots[self.range(d, c)]),
            6 => {
                // close to a knot
                let e = 2f64.powi(-(self.range(4, if IS32 { 22 } else { 50 }) as i32));
                let e = if self.below(2) == 0 { e } else { -e };
                knots[self.range(d, c)] + (b - a) * e
            }
            _ => a + (b - a) * self.unit(),
        };
        rnd(t).clamp(a, b)
    }
}
