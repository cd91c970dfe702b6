//@module apply
//@deps load raft_state entries
//@source openraft/src/core/raft_core.rs
//@type ApplyingEntry
//@fn ApplyingEntry::new
ensures r == (ApplyingEntry { log_id, membership }),
//@type ApplyResult
