//@module engine
//@deps vote_handler
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq};
//@source openraft/src/engine/handler/establish_handler/mod.rs
//@type EstablishHandler
//@source openraft/src/engine/engine_impl.rs
//@type Engine
//@fn Engine::vote_handler
ensures *r.config == old(self).config, *r.state == old(self).state, *r.output == old(self).output, *r.leader == old(self).leader, *r.candidate == old(self).candidate,
  *final(self) == (Engine { config: *final(r.config), state: *final(r.state), output: *final(r.output), leader: *final(r.leader), candidate: *final(r.candidate), seen_greater_log: old(self).seen_greater_log }),
//@fn Engine::log_handler
ensures *r.config == old(self).config, *r.state == old(self).state, *r.output == old(self).output,
  *final(self) == (Engine { config: *final(r.config), state: *final(r.state), output: *final(r.output), ..*old(self) }),
//@fn Engine::snapshot_handler
ensures *r.state == old(self).state, *r.output == old(self).output,
  *final(self) == (Engine { state: *final(r.state), output: *final(r.output), ..*old(self) }),
//@fn Engine::server_state_handler
ensures *r.state == old(self).state, *r.config == old(self).config,
  *final(self) == (Engine { state: *final(r.state), ..*old(self) }),
//@fn Engine::establish_handler
ensures *r.config == old(self).config, *r.leader == old(self).leader,
  *final(self) == (Engine { config: *final(r.config), leader: *final(r.leader), ..*old(self) }),
//@fn Engine::following_handler
requires old(self).leader is None, old(self).state.v().committed,
ensures *r.config == old(self).config, *r.state == old(self).state, *r.output == old(self).output, r.leader_vote.vote == old(self).state.v(),
  *final(self) == (Engine { config: *final(r.config), state: *final(r.state), output: *final(r.output), ..*old(self) }),
//@fn Engine::replication_handler
requires old(self).leader is Some,
ensures *r.config == old(self).config, *r.state == old(self).state, *r.output == old(self).output, *r.leader == *old(self).leader->0,
  *final(self) == (Engine { config: *final(r.config), state: *final(r.state), output: *final(r.output), leader: Some(Box::new(*final(r.leader))), ..*old(self) }),
//@fn Engine::leader_handler
ensures
  // only a leader whose vote is still the node's
  r is Ok == (old(self).leader is Some && vote_le(old(self).state.v(), old(self).leader->0.committed_vote.vote)),
  r is Ok ==> *(r->Ok_0).config == old(self).config && *(r->Ok_0).state == old(self).state && *(r->Ok_0).output == old(self).output && *(r->Ok_0).leader == *old(self).leader->0,
  r is Ok ==> *final(self) == (Engine { config: *final((r->Ok_0).config), state: *final((r->Ok_0).state), output: *final((r->Ok_0).output), leader: Some(Box::new(*final((r->Ok_0).leader))), ..*old(self) }),
  // redirects to the leader it knows
  r is Err ==> *final(self) == *old(self)
     && (r->Err_0).leader_id == (if old(self).state.v().committed && old(self).state.mem().nodes@.contains_key(old(self).state.v().leader_id.node_id) { Some(old(self).state.v().leader_id.node_id) } else { None }),
