//! Independent reference implementation of the published Runge-Kutta methods.
//! The tableaux are self-checked against the order conditions before use.

pub struct Tab {
    pub name: &'static str,
    pub c: Vec<f64>,
    pub a: Vec<Vec<f64>>,
    /// weights of the solution that is advanced
    pub b: Vec<f64>,
    pub order: usize,
    /// weights of the other embedded solution
    pub bh: Option<Vec<f64>>,
    pub order_h: usize,
}

pub const EULER: usize = 0;
pub const HEUN: usize = 1;
pub const MIDPOINT: usize = 2;
pub const RALSTON: usize = 3;
pub const RK23: usize = 4;
pub const RK4: usize = 5;
pub const RK45: usize = 6;
pub const NAMES: [&str; 7] = ["Euler", "Heun", "Midpoint", "Ralston", "RK23", "RK4", "RK45"];
pub const FIXED: [usize; 5] = [EULER, HEUN, MIDPOINT, RALSTON, RK4];
pub const ADAPTIVE: [usize; 2] = [RK23, RK45];

pub fn tableau(kind: usize) -> Tab {
    match kind {
        EULER => Tab { name: "Euler", c: vec![0.], a: vec![vec![]], b: vec![1.], order: 1, bh: None, order_h: 0 },
        HEUN => Tab {
            name: "Heun",
            c: vec![0., 1.],
            a: vec![vec![], vec![1.]],
            b: vec![0.5, 0.5],
            order: 2,
            bh: None,
            order_h: 0,
        },
        MIDPOINT => Tab {
            name: "Midpoint",
            c: vec![0., 0.5],
            a: vec![vec![], vec![0.5]],
            b: vec![0., 1.],
            order: 2,
            bh: None,
            order_h: 0,
        },
        RALSTON => Tab {
            name: "Ralston",
            c: vec![0., 2. / 3.],
            a: vec![vec![], vec![2. / 3.]],
            b: vec![0.25, 0.75],
            order: 2,
            bh: None,
            order_h: 0,
        },
        RK23 => Tab {
            name: "Bogacki-Shampine 3(2)",
            c: vec![0., 0.5, 0.75, 1.],
            a: vec![vec![], vec![0.5], vec![0., 0.75], vec![2. / 9., 1. / 3., 4. / 9.]],
            b: vec![2. / 9., 1. / 3., 4. / 9., 0.],
            order: 3,
            bh: Some(vec![7. / 24., 0.25, 1. / 3., 0.125]),
            order_h: 2,
        },
        RK4 => Tab {
            name: "classic RK4",
            c: vec![0., 0.5, 0.5, 1.],
            a: vec![vec![], vec![0.5], vec![0., 0.5], vec![0., 0., 1.]],
            b: vec![1. / 6., 1. / 3., 1. / 3., 1. / 6.],
            order: 4,
            bh: None,
            order_h: 0,
        },
        RK45 => Tab {
            name: "Cash-Karp 5(4)",
            c: vec![0., 0.2, 0.3, 0.6, 1., 0.875],
            a: vec![
                vec![],
                vec![0.2],
                vec![3. / 40., 9. / 40.],
                vec![0.3, -0.9, 1.2],
                vec![-11. / 54., 2.5, -70. / 27., 35. / 27.],
                vec![1631. / 55296., 175. / 512., 575. / 13824., 44275. / 110592., 253. / 4096.],
            ],
            b: vec![37. / 378., 0., 250. / 621., 125. / 594., 0., 512. / 1771.],
            order: 5,
            bh: Some(vec![2825. / 27648., 0., 18575. / 48384., 13525. / 55296., 277. / 14336., 0.25]),
            order_h: 4,
        },
        _ => unreachable!(),
    }
}

/// residual of all order conditions up to `p` (Butcher trees of order 1..=5)
fn order_residual(t: &Tab, b: &[f64], p: usize) -> f64 {
    let s = t.c.len();
    let c = &t.c;
    let mut a = vec![vec![0.; s]; s];
    for i in 0..s {
        for (j, v) in t.a[i].iter().enumerate() {
            a[i][j] = *v;
        }
    }
    let mul = |x: &[f64]| -> Vec<f64> { (0..s).map(|i| (0..s).map(|j| a[i][j] * x[j]).sum()).collect() };
    let had = |x: &[f64], y: &[f64]| -> Vec<f64> { x.iter().zip(y).map(|(p, q)| p * q).collect() };
    let dot = |x: &[f64]| -> f64 { b.iter().zip(x).map(|(p, q)| p * q).sum() };
    let one = vec![1.; s];
    let c2 = had(c, c);
    let c3 = had(&c2, c);
    let c4 = had(&c3, c);
    let ac = mul(c);
    let ac2 = mul(&c2);
    let aac = mul(&ac);
    let mut conds: Vec<(usize, f64, f64)> = vec![
        (1, dot(&one), 1.),
        (2, dot(c), 1. / 2.),
        (3, dot(&c2), 1. / 3.),
        (3, dot(&ac), 1. / 6.),
        (4, dot(&c3), 1. / 4.),
        (4, dot(&had(c, &ac)), 1. / 8.),
        (4, dot(&ac2), 1. / 12.),
        (4, dot(&aac), 1. / 24.),
        (5, dot(&c4), 1. / 5.),
        (5, dot(&had(&c2, &ac)), 1. / 10.),
        (5, dot(&had(&ac, &ac)), 1. / 20.),
        (5, dot(&had(c, &ac2)), 1. / 15.),
        (5, dot(&mul(&c3)), 1. / 20.),
        (5, dot(&had(c, &aac)), 1. / 30.),
        (5, dot(&mul(&had(c, &ac))), 1. / 40.),
        (5, dot(&mul(&ac2)), 1. / 60.),
        (5, dot(&mul(&aac)), 1. / 120.),
    ];
    conds.retain(|x| x.0 <= p);
    // row-sum conditions
    let mut r: f64 = (0..s)
        .map(|i| (a[i].iter().sum::<f64>() - c[i]).abs())
        .fold(0., f64::max);
    for (_, v, w) in conds {
        r = r.max((v - w).abs());
    }
    r
}

/// the oracle's own coefficients satisfy the order conditions of the methods they are named for,
/// to exactly that order
pub fn self_check() -> Result<(), String> {
    for k in 0..7 {
        let t = tableau(k);
        if order_residual(&t, &t.b, t.order) > 1e-14 {
            return Err(format!("oracle tableau {} fails its order conditions", t.name));
        }
        if t.order < 5 && order_residual(&t, &t.b, t.order + 1) < 1e-6 {
            return Err(format!("oracle tableau {} has too high an order", t.name));
        }
        if let Some(bh) = &t.bh {
            if order_residual(&t, bh, t.order_h) > 1e-14 || order_residual(&t, bh, t.order_h + 1) < 1e-6 {
                return Err(format!("oracle tableau {} fails its embedded order conditions", t.name));
            }
        }
    }
    Ok(())
}

pub struct Step {
    /// increment of the advanced solution
    pub d: Vec<f64>,
    /// increment of the other embedded solution
    pub dh: Option<Vec<f64>>,
    /// largest |k| component over stages, for rounding scales
    pub kmax: f64,
    pub ts: Vec<f64>,
}

pub fn step(tab: &Tab, f: &dyn Fn(f64, &[f64]) -> Vec<f64>, t: f64, y: &[f64], h: f64) -> Step {
    let s = tab.c.len();
    let n = y.len();
    let mut ks: Vec<Vec<f64>> = Vec::with_capacity(s);
    let mut ts = vec![];
    for i in 0..s {
        let mut yi = y.to_vec();
        for j in 0..i {
            let aij = tab.a[i][j];
            if aij != 0. {
                for m in 0..n {
                    yi[m] += h * aij * ks[j][m];
                }
            }
        }
        let ti = t + tab.c[i] * h;
        ts.push(ti);
        ks.push(f(ti, &yi));
    }
    let comb = |b: &[f64]| -> Vec<f64> {
        (0..n)
            .map(|m| h * (0..s).map(|i| if b[i] != 0. { b[i] * ks[i][m] } else { 0. }).sum::<f64>())
            .collect()
    };
    let kmax = ks.iter().flatten().fold(0f64, |m, k| m.max(k.abs()));
    Step { d: comb(&tab.b), dh: tab.bh.as_ref().map(|b| comb(b)), kmax, ts }
}

pub fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}

/// integrate over [t0, t1] with steps min(dt, remaining); returns the final state and step starts
pub fn fixed_interval(
    tab: &Tab,
    f: &dyn Fn(f64, &[f64]) -> Vec<f64>,
    t0: f64,
    y0: &[f64],
    t1: f64,
    dt: f64,
) -> (Vec<f64>, Vec<(f64, f64)>, f64) {
    let mut t = t0;
    let mut y = y0.to_vec();
    let mut starts = vec![];
    let mut kmax = 0f64;
    while t < t1 {
        let h = (t1 - t).min(dt);
        let s = step(tab, f, t, &y, h);
        for m in 0..y.len() {
            y[m] += s.d[m];
        }
        kmax = kmax.max(s.kmax);
        starts.push((t, h));
        t += h;
    }
    (y, starts, kmax)
}
