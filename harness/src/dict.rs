//! Numbers that occur in the code under test (`check` collects them from the sources and passes them on).
//! They only steer the workloads: a limit somewhere in the code is met from both sides, wherever it is.
//! Without them (C18, whose results have to be the same in all builds) the lists are empty.
use std::sync::OnceLock;

pub fn numbers() -> &'static [u64] {
    static N: OnceLock<Vec<u64>> = OnceLock::new();
    N.get_or_init(|| {
        let mut v: Vec<u64> = if cfg!(miri) { String::new() } else { std::env::var("HUSKMON_NUMBERS").unwrap_or_default() }
            .split(',')
            .filter_map(|x| x.trim().parse().ok())
            .collect();
        v.sort();
        v.dedup();
        thin(v, 500)
    })
}

/// (code with tables of constants in it must not make the checks longer)
fn thin<T: Copy>(v: Vec<T>, most: usize) -> Vec<T> {
    if v.len() <= most {
        return v;
    }
    (0..most).map(|i| v[i * v.len() / most]).collect()
}

/// the numbers and their neighbours, from `lo` to `hi`
pub fn around(lo: usize, hi: usize) -> Vec<usize> {
    let mut v: Vec<usize> = numbers()
        .iter()
        .flat_map(|&n| [n.saturating_sub(1), n, n.saturating_add(1)])
        .filter(|&n| n >= lo as u64 && n <= hi as u64)
        .map(|n| n as usize)
        .collect();
    v.sort();
    v.dedup();
    thin(v, 500)
}
