// Groups of plain keys (default seed) that share row and signature, found by search.
const COLLIDING: &[&[&str]] = &[
    &["c6d42242", "c2c98f3c"],
    &["c25ce0da", "c1c4b999"],
    &["c4c1da13", "c2560e84"],
    &["c596792d", "c59c7daf"],
    &["c7c400f5", "c1421e5c", "c389c79"],
    &["c73fb306", "c5d3ebaa", "c982baa"],
    &["c729e3b9", "c2da8117", "c6de9185"],
    &["c1befe88", "c5aefd02", "c2c1485f"],
];
// The low half of the hash of these is the reserved value.
const ZERO_SIG: &[&str] = &["c17b2e5469", "c6282fc67"];
