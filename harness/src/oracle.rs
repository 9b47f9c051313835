//! Reference implementations, written from the definitions and independent of the library's algorithms.
//! Everything is f64, whatever the native float under test.

pub type Pts = Vec<Vec<f64>>;

pub fn binom(n: usize, k: usize) -> f64 {
    let mut r = 1.0;
    for i in 0..k {
        r = r * (n - i) as f64 / (i + 1) as f64;
    }
    r.round()
}
/// Bernstein basis polynomial
pub fn bern(n: usize, i: usize, t: f64) -> f64 {
    binom(n, i) * (1.0 - t).powi((n - i) as i32) * t.powi(i as i32)
}
pub fn axis(p: &[Vec<f64>], k: usize) -> Vec<f64> {
    p.iter().map(|q| q[k]).collect()
}
pub fn bern_val(c: &[f64], t: f64) -> f64 {
    let n = c.len() - 1;
    (0..=n).map(|i| bern(n, i, t) * c[i]).sum()
}
pub fn bern_point(p: &[Vec<f64>], t: f64) -> Vec<f64> {
    (0..p[0].len()).map(|k| bern_val(&axis(p, k), t)).collect()
}
pub fn absmax(c: &[f64]) -> f64 {
    c.iter().fold(0.0, |a, x| a.max(x.abs()))
}
pub fn axis_max(p: &[Vec<f64>], k: usize) -> f64 {
    p.iter().fold(0.0, |a: f64, q| a.max(q[k].abs()))
}
pub fn all_max(p: &[Vec<f64>]) -> f64 {
    p.iter().flatten().fold(0.0, |a: f64, x| a.max(x.abs()))
}
pub fn elevate(p: &[Vec<f64>]) -> Pts {
    let n = p.len(); // new degree
    let mut r = Vec::with_capacity(n + 1);
    for i in 0..=n {
        let a = i as f64 / n as f64;
        r.push(
            (0..p[0].len())
                .map(|k| {
                    let l = if i > 0 { p[i - 1][k] } else { 0.0 };
                    let h = if i < n { p[i][k] } else { 0.0 };
                    a * l + (1.0 - a) * h
                })
                .collect(),
        );
    }
    r
}
/// control points of the restrictions to [0,t] and [t,1] (blossom values)
pub fn split(p: &[Vec<f64>], t: f64) -> (Pts, Pts) {
    let n = p.len() - 1;
    let dim = p[0].len();
    let l = (0..=n).map(|i| (0..dim).map(|k| (0..=i).map(|j| bern(i, j, t) * p[j][k]).sum()).collect()).collect();
    let r = (0..=n)
        .map(|i| {
            let m = n - i;
            (0..dim).map(|k| (0..=m).map(|j| bern(m, j, t) * p[i + j][k]).sum()).collect()
        })
        .collect();
    (l, r)
}
/// Bernstein coefficients of the restriction to [a,b] of a scalar polynomial
pub fn restrict(c: &[f64], a: f64, b: f64) -> Vec<f64> {
    let p: Pts = c.iter().map(|x| vec![*x]).collect();
    let (l, _) = split(&p, b);
    let (_, r) = split(&l, if b > 0.0 { a / b } else { 0.0 });
    r.into_iter().map(|v| v[0]).collect()
}
/// control points of the hodograph
pub fn hodograph(p: &[Vec<f64>]) -> Pts {
    let n = (p.len() - 1) as f64;
    p.windows(2).map(|w| w[0].iter().zip(&w[1]).map(|(a, b)| n * (b - a)).collect()).collect()
}
/// sum of absolute values entering the hodograph, as a rounding scale
pub fn hodo_scale(p: &[Vec<f64>], k: usize) -> f64 {
    2.0 * (p.len() as f64 - 1.0) * axis_max(p, k)
}

/// Certified minimum of a polynomial in Bernstein form over [0,1]: returns (lower bound, attained value) with
/// a gap of at most `tol`.
pub fn poly_min(c: &[f64], tol: f64) -> (f64, f64) {
    let mut best = c[0].min(c[c.len() - 1]);
    let mut lower = best;
    let mut stack = vec![(c.to_vec(), 0usize)];
    while let Some((s, depth)) = stack.pop() {
        let lo = s.iter().cloned().fold(f64::INFINITY, f64::min);
        best = best.min(s[0]).min(s[s.len() - 1]);
        if lo >= best - tol || depth >= 200 {
            lower = lower.min(lo);
            continue;
        }
        // halve
        let n = s.len();
        let mut w = s.clone();
        let mut l = Vec::with_capacity(n);
        let mut r = vec![0.0; n];
        for i in 0..n {
            l.push(w[0]);
            r[n - 1 - i] = w[n - 1 - i];
            for j in 0..n - 1 - i {
                w[j] = 0.5 * (w[j] + w[j + 1]);
            }
        }
        best = best.min(r[0]);
        stack.push((l, depth + 1));
        stack.push((r, depth + 1));
    }
    (lower.min(best), best)
}
pub fn poly_max(c: &[f64], tol: f64) -> (f64, f64) {
    let neg: Vec<f64> = c.iter().map(|x| -x).collect();
    let (l, b) = poly_min(&neg, tol);
    (-l, -b) // (upper bound, attained)
}
/// Bernstein coefficients of |C(t) - q|^2
pub fn dist2_coefs(p: &[Vec<f64>], q: &[f64]) -> Vec<f64> {
    let n = p.len() - 1;
    let mut r = vec![0.0; 2 * n + 1];
    for k in 0..q.len() {
        let f: Vec<f64> = p.iter().map(|v| v[k] - q[k]).collect();
        for i in 0..=n {
            for j in 0..=n {
                r[i + j] += binom(n, i) * binom(n, j) / binom(2 * n, i + j) * f[i] * f[j];
            }
        }
    }
    r
}
pub fn norm(v: &[f64]) -> f64 {
    let m = absmax(v);
    if m == 0.0 {
        return 0.0;
    }
    m * v.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt()
}
pub fn dist(a: &[f64], b: &[f64]) -> f64 {
    norm(&a.iter().zip(b).map(|(x, y)| x - y).collect::<Vec<_>>())
}
/// distance from q to the closed segment ab
pub fn seg_dist(a: &[f64], b: &[f64], q: &[f64]) -> f64 {
    let v: Vec<f64> = a.iter().zip(b).map(|(x, y)| y - x).collect();
    let w: Vec<f64> = a.iter().zip(q).map(|(x, y)| y - x).collect();
    let m = absmax(&v);
    if m == 0.0 {
        return norm(&w);
    }
    let vv: f64 = v.iter().map(|x| (x / m) * (x / m)).sum();
    let vw: f64 = v.iter().zip(&w).map(|(x, y)| (x / m) * y).sum::<f64>() / m;
    let t = (vw / vv).clamp(0.0, 1.0);
    // measure from the nearer end to lose as little as possible
    let foot: Vec<f64> = (0..a.len()).map(|k| if t <= 0.5 { a[k] + v[k] * t } else { b[k] - v[k] * (1.0 - t) }).collect();
    dist(&foot, q)
}
pub fn longest_leg(p: &[Vec<f64>]) -> f64 {
    p.windows(2).map(|w| dist(&w[0], &w[1])).fold(0.0, f64::max)
}
pub fn polygon_len(p: &[Vec<f64>]) -> f64 {
    p.windows(2).map(|w| dist(&w[0], &w[1])).sum()
}

// ---------------------------------------------------------------- B-splines

/// index k of the non-empty span used for t: right-continuous at knots, left limit at the domain end
pub fn span(knots: &[f64], c: usize, d: usize, t: f64) -> usize {
    let mut k = d;
    if t >= knots[c] {
        // last non-empty span of the domain
        k = c - 1;
        while k > d && knots[k] == knots[k + 1] {
            k -= 1;
        }
        return k;
    }
    for i in d..c {
        if knots[i] <= t && t < knots[i + 1] {
            k = i;
        }
    }
    k
}
/// r-th derivatives of the Cox-de Boor basis functions N_{k-d,d} .. N_{k,d} on the span k (their polynomial pieces), by the
/// recursive definition, and the sums of the absolute values of their terms
pub fn basis_derivs(knots: &[f64], d: usize, k: usize, t: f64, r: usize) -> Vec<(f64, f64)> {
    if r > d {
        return vec![(0.0, 0.0); d + 1];
    }
    // row of degree q: N_{k-q,q} .. N_{k,q}; the neighbours outside of it vanish on the span
    let mut row = vec![(1.0, 1.0)];
    for q in 1..=d {
        let value = q <= d - r;
        let at = |j: isize| if j >= 0 && (j as usize) < q { row[j as usize] } else { (0.0, 0.0) };
        row = (0..=q)
            .map(|j| {
                let i = k - q + j;
                let (mut v, mut s) = (0.0, 0.0);
                let (d1, d2) = (knots[i + q] - knots[i], knots[i + q + 1] - knots[i + 1]);
                if d1 > 0.0 && j > 0 {
                    let (a, b) = at(j as isize - 1);
                    if value {
                        v += (t - knots[i]) / d1 * a;
                    } else {
                        v += q as f64 / d1 * a;
                        s += q as f64 / d1 * b;
                    }
                }
                if d2 > 0.0 && j < q {
                    let (a, b) = at(j as isize);
                    if value {
                        v += (knots[i + q + 1] - t) / d2 * a;
                    } else {
                        v -= q as f64 / d2 * a;
                        s += q as f64 / d2 * b;
                    }
                }
                (v, if value { f64::abs(v) } else { s })
            })
            .collect();
    }
    row
}
/// value of the r-th derivative and a rounding scale, per axis
pub fn bspline_deriv(knots: &[f64], p: &[Vec<f64>], d: usize, t: f64, r: usize) -> (Vec<f64>, Vec<f64>) {
    let c = p.len();
    let k = span(knots, c, d, t);
    let dim = p[0].len();
    let (mut v, mut s) = (vec![0.0; dim], vec![0.0; dim]);
    for (j, (b, a)) in basis_derivs(knots, d, k, t, r).into_iter().enumerate() {
        let i = k - d + j;
        for x in 0..dim {
            v[x] += b * p[i][x];
            s[x] += a * p[i][x].abs();
        }
    }
    (v, s)
}
pub fn bspline_point(knots: &[f64], p: &[Vec<f64>], d: usize, t: f64) -> Vec<f64> {
    bspline_deriv(knots, p, d, t, 0).0
}
/// multiplicity of interior knots never exceeds d (the curve is continuous on its domain)
pub fn continuous(knots: &[f64], c: usize, d: usize) -> bool {
    let (a, b) = (knots[d], knots[c]);
    for i in 0..knots.len() {
        if knots[i] > a && knots[i] < b {
            let m = knots.iter().filter(|x| **x == knots[i]).count();
            if m > d {
                return false;
            }
        }
    }
    true
}
pub fn bspline_max_speed(knots: &[f64], p: &[Vec<f64>], d: usize) -> f64 {
    let mut s: f64 = 0.0;
    for i in 0..p.len() - 1 {
        let w = knots[i + d + 1] - knots[i + 1];
        if w > 0.0 {
            s = s.max(d as f64 * dist(&p[i], &p[i + 1]) / w);
        }
    }
    s
}
