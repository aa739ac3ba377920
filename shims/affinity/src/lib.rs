//! Stand-in for the `affinity` crate: thread pinning has no functional effect.
pub fn get_thread_affinity() -> Result<Vec<usize>, Box<dyn std::error::Error>> {
    Ok((0..64).collect())
}
pub fn set_thread_affinity<B: AsRef<[usize]>>(_core_ids: B) -> Result<(), Box<dyn std::error::Error>> {
    Ok(())
}
pub fn get_core_num() -> usize {
    64
}
