//! A few modules for documents to mention.
use crate::sim::Sim;

pub const FILES: [(&str, &str); 6] = [
    ("m1", "1"),
    ("m2", "[2]"),
    ("m3", "module.exports={\"k\":[3]}"),
    ("m4", "const a=[4];export default [a,a]"),
    ("bad", "["),
    ("m5", "const x=5n\nx"),
];

/// Names by which the valid ones can be mentioned.
pub fn names() -> Vec<String> {
    let mut v: Vec<String> = FILES.iter().filter(|f| f.0 != "bad").map(|f| f.0.to_string()).collect();
    v.push("./m2".into());
    v
}

pub fn sim() -> Sim {
    let sim = Sim::default();
    for f in FILES {
        sim.put(f.0, f.1.as_bytes());
    }
    sim
}
