//! f64 reference DCT (T.81 A.3.3), separable.
use std::sync::OnceLock;

fn mat() -> &'static [[f64; 8]; 8] {
    static M: OnceLock<[[f64; 8]; 8]> = OnceLock::new();
    M.get_or_init(|| {
        let mut m = [[0f64; 8]; 8];
        for (u, row) in m.iter_mut().enumerate() {
            for (x, e) in row.iter_mut().enumerate() {
                let c = if u == 0 { (0.125f64).sqrt() } else { 0.5 };
                *e = c * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos();
            }
        }
        m
    })
}

/// forward: out[v*8+u] for samples s[y*8+x] (already level shifted)
pub fn fdct(s: &[f64; 64]) -> [f64; 64] {
    let m = mat();
    let mut t = [0f64; 64];
    for y in 0..8 {
        for u in 0..8 {
            let mut a = 0.0;
            for x in 0..8 {
                a += m[u][x] * s[y * 8 + x];
            }
            t[y * 8 + u] = a;
        }
    }
    let mut o = [0f64; 64];
    for v in 0..8 {
        for u in 0..8 {
            let mut a = 0.0;
            for y in 0..8 {
                a += m[v][y] * t[y * 8 + u];
            }
            o[v * 8 + u] = a;
        }
    }
    o
}

pub fn idct(c: &[f64; 64]) -> [f64; 64] {
    let m = mat();
    let mut t = [0f64; 64];
    for v in 0..8 {
        for x in 0..8 {
            let mut a = 0.0;
            for u in 0..8 {
                a += m[u][x] * c[v * 8 + u];
            }
            t[v * 8 + x] = a;
        }
    }
    let mut o = [0f64; 64];
    for y in 0..8 {
        for x in 0..8 {
            let mut a = 0.0;
            for v in 0..8 {
                a += m[v][y] * t[v * 8 + x];
            }
            o[y * 8 + x] = a;
        }
    }
    o
}

/// interval radius of each coefficient when sample i may move by r[i]: |basis| applied to r
pub fn fdct_abs(r: &[f64; 64]) -> [f64; 64] {
    let m = mat();
    let mut t = [0f64; 64];
    for y in 0..8 {
        for u in 0..8 {
            let mut a = 0.0;
            for x in 0..8 {
                a += m[u][x].abs() * r[y * 8 + x];
            }
            t[y * 8 + u] = a;
        }
    }
    let mut o = [0f64; 64];
    for v in 0..8 {
        for u in 0..8 {
            let mut a = 0.0;
            for y in 0..8 {
                a += m[v][y].abs() * t[y * 8 + u];
            }
            o[v * 8 + u] = a;
        }
    }
    o
}
