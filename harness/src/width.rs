//! trees of widths nodes cannot have (and of the least and greatest they can)
use sherman::{Constant, RleTree};

fn one<const M: usize>(how: u64) -> bool {
    if how == 0 {
        let t = RleTree::<usize, Constant<u8>, sherman::param::NoFeatures, M>::new_empty();
        return t.size() == 0;
    }
    let mut t = RleTree::<usize, Constant<u8>, sherman::param::NoFeatures, M>::new(Constant(0), 3);
    if how == 2 { for i in 1..600usize { t.insert(3 * i, Constant((i % 200) as u8), 3) } }
    t.size() == if how == 2 { 1800 } else { 3 } && t.get(1).range() == (0..3) && t.iter(..).count() == if how == 2 { 600 } else { 1 }
}

/// `true` iff the tree then works as trees do
pub fn make(w: usize, how: u64) -> bool {
    match w {
        0 => one::<0>(how.min(1)),
        1 => one::<1>(how),
        127 => one::<127>(how),
        128 => one::<128>(how.min(1)),
        129 => one::<129>(how.min(1)),
        200 => one::<200>(how.min(1)),
        255 => one::<255>(how.min(1)),
        256 => one::<256>(how.min(1)),
        _ => one::<1000>(how.min(1)),
    }
}
