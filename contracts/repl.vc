//@module repl
//@deps replication
//@noglob
//@source openraft/src/replication/response.rs
//@type Progress
