//@module sm
//@deps io raft_state entries apply
//@noglob
//@source openraft/src/core/sm/command.rs
//@type Command
//@fn Command::build_snapshot
ensures r == Command::BuildSnapshot,
//@fn Command::get_snapshot
ensures r == (Command::GetSnapshot { tx }),
//@fn Command::begin_receiving_snapshot
ensures r == (Command::BeginReceivingSnapshot { tx }),
//@fn Command::install_full_snapshot
ensures r == (Command::InstallFullSnapshot { io_id, snapshot }),
//@fn Command::apply
ensures r == (Command::Apply { since, last }),
//@fn Command::get_submit_io
ensures r == (match *self { Command::InstallFullSnapshot { io_id, .. } => Some(io_id), _ => None }),

//@source openraft/src/core/sm/response.rs
//@type Response
//@type CommandResult
//@fn CommandResult::new
ensures r.result == result,
