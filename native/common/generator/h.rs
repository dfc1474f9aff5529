use super::*;
use crate::vp_util::*;

#[test]
fn c22_peer_ids() {
    let mut run = Run::new("c22");
    for _ in 0..scale(20_000) {
        let id = generate_peer_id();
        run.case(&id);
        assert_eq!(id.len(), 20, "length");
        assert!(id.bytes().all(|b| b.is_ascii_alphanumeric()), "{id}");
        run.hit();
    }
}
