use super::*;
use crate::vp_util::*;

#[test]
fn c13_queue() {
    let mut run = Run::new("c13q");
    let mut r = Rng::new("c13q");
    for _ in 0..scale(400) {
        let n = if r.chance(3) { r.pick(&[255, 256, 257, 1023, 1024, 1025, 65_536, 66_000]) } else { r.below(20) };
        let pool = PiecePool::new(n);
        let other = pool.clone();
        let mut model: VecDeque<usize> = (0..n).collect();
        let mut ops = vec![];
        for _ in 0..r.below(60) {
            let p = if r.chance(50) { &pool } else { &other };
            if r.chance(60) {
                ops.push(None);
                run.case((n, &ops));
                assert_eq!(p.pop(), model.pop_front(), "next piece");
            } else {
                let k = r.below(n + 1);
                ops.push(Some(k));
                run.case((n, &ops));
                p.insert(k);
                model.push_back(k);
            }
        }
        while let Some(k) = model.pop_front() {
            assert_eq!(pool.pop(), Some(k), "what is left");
        }
        assert_eq!(pool.pop(), None);
        run.hit();
    }
}
