//@module transfer
//@deps engine
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq};
/// the application's responder: what it is given is answered
#[verifier::external_body]
pub struct ResponderOf { _p: u8 }
impl ResponderOf {
    #[verifier::external_body]
    pub fn send(self, r: Result<ClientWriteResponse, ClientWriteError>) { unimplemented!() }
}
// `#[from]` of thiserror: the variant is made from its payload
impl vstd::std_specs::convert::FromSpecImpl<ForwardToLeader> for ClientWriteError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ForwardToLeader) -> ClientWriteError { ClientWriteError::ForwardToLeader(v) } }
impl From<ForwardToLeader> for ClientWriteError { fn from(v: ForwardToLeader) -> ClientWriteError { ClientWriteError::ForwardToLeader(v) } }
pub fn vx_as_deref<T>(o: &Option<Box<T>>) -> (r: Option<&T>) ensures match r { None => *o is None, Some(x) => *o is Some && *x == *(*o)->0 } { match o { None => None, Some(b) => Some(&**b) } }
//@source openraft/src/error.rs
//@type ClientWriteError
//@source openraft/src/raft/message/client_write.rs
//@type ClientWriteResponse
//@source openraft/src/engine/engine_impl.rs
//@fn Engine::leader_ref
//@rewrite `self.leader.as_deref()` => `vx_as_deref(&self.leader)`
ensures match r { None => self.leader is None, Some(l) => self.leader is Some && *l == *self.leader->0 },
//@fn Engine::candidate_ref
ensures match r { None => self.candidate is None, Some(l) => self.candidate is Some && *l == self.candidate->0 },
//@fn Engine::get_leader_handler_or_reject
ensures
  // only a leader whose vote is still the node's writes
  r is Some == (old(self).leader is Some && vote_le(old(self).state.v(), old(self).leader->0.committed_vote.vote)),
  r is Some ==> ({ let h = (r->0).0; *h.config == old(self).config && *h.state == old(self).state && *h.output == old(self).output && *h.leader == *old(self).leader->0
     && *final(self) == (Engine { config: *final(h.config), state: *final(h.state), output: *final(h.output), leader: Some(Box::new(*final(h.leader))), ..*old(self) }) }),
  r is Some ==> (r->0).1 == tx,
  r is None ==> *final(self) == *old(self),
//@raw
pub open spec fn asked_transfer(a: Engine, b: Engine, to: u64) -> bool {

     if to != a.config.id && mvoters(a.state.mem()).contains(to) && a.leader is Some && vote_le(a.state.v(), a.leader->0.committed_vote.vote) {
       // the leader no longer serves, no longer keeps others from being elected, and tells everyone who shall be
       &&& b.leader == Some(Box::new(Leader { transfer_to: Some(to), ..*a.leader->0 }))
       &&& b.state.vote.lease.ns == 0 && !b.state.vote.lease_enabled && b.state.vote.data == a.state.vote.data && b.state == (RaftState { vote: b.state.vote, ..a.state })
       &&& b.output.cmds() == a.output.cmds().push(Command::BroadcastTransferLeader { req: TransferLeaderRequest { from_leader: a.leader->0.committed_vote.vote, to_node_id: to, last_log_id: a.leader->0.last_log_id } })
       &&& b == (Engine { leader: b.leader, state: b.state, output: b.output, ..a })
     } else { b == a } 
}
//@source openraft/src/engine/engine_impl.rs
//@fn Engine::trigger_transfer_leader
ensures
  asked_transfer(*old(self), *final(self), to),
