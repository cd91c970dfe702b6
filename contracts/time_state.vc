//@module time_state
//@deps utime
//@noglob
//@source openraft/src/engine/time_state.rs
//@type Config derive=Clone
