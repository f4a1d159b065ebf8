//! Stand-in for `frame-benchmarking` (benchmarks are never compiled).
