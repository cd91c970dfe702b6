//@module config
//@deps handlers
//@names ConfigError
//@raw
broadcast use {vx_axioms::group_vx_eq};
#[verifier::external_body]
pub struct VxRng { _p: u8 }
/// A draw from a range (rand): somewhere in it.  An empty range panics.
#[verifier::external_body]
pub fn vx_rng() -> (r: VxRng) { unimplemented!() }
impl VxRng {
    #[verifier::external_body]
    pub fn gen_range(&mut self, g: core::ops::Range<u64>) -> (r: u64) requires g.start < g.end, ensures g.start <= r < g.end { unimplemented!() }
}
//@source openraft/src/config/error.rs
//@type ConfigError keep_variants=ElectionTimeout,MaxPayloadIs0,ElectionTimeoutLTHeartBeat
//@source openraft/src/config/config.rs
//@type Config
//@raw
impl Config {
    pub open spec fn usable(self) -> bool { self.election_timeout_min < self.election_timeout_max && self.heartbeat_interval < self.election_timeout_min && self.max_payload_entries != 0 }
}
//@fn Config::validate
ensures r is Ok <==> self.usable(), r is Ok ==> r->Ok_0 == self,
  r is Err ==> match r->Err_0 {
    ConfigError::ElectionTimeout { min, max } => min >= max && min == self.election_timeout_min && max == self.election_timeout_max,
    ConfigError::MaxPayloadIs0 => self.max_payload_entries == 0,
    ConfigError::ElectionTimeoutLTHeartBeat { election_timeout_min, heartbeat_interval } => heartbeat_interval >= election_timeout_min && election_timeout_min == self.election_timeout_min && heartbeat_interval == self.heartbeat_interval,
  },
//@fn Config::new_rand_election_timeout
requires self.usable(),
ensures self.election_timeout_min <= r < self.election_timeout_max,
//@fn Config::install_snapshot_timeout
requires self.install_snapshot_timeout * 1_000_000 <= u64::MAX,
ensures r.ns == self.install_snapshot_timeout * 1_000_000,
//@source openraft/src/engine/engine_config.rs
//@fn EngineConfig::new | ret=r math
requires config.usable(), config.election_timeout_max * 2_000_000 <= u64::MAX,
ensures r.id == id, r.snapshot_policy == config.snapshot_policy, r.max_in_snapshot_log_to_keep == config.max_in_snapshot_log_to_keep,
  r.purge_batch_size == config.purge_batch_size, r.max_payload_entries == config.max_payload_entries,
  config.election_timeout_min * 1_000_000 <= r.timer_config.election_timeout.ns < config.election_timeout_max * 1_000_000,
  // a follower that has heard of its leader does not stand for election before the lease is over
  r.timer_config.leader_lease.ns == config.election_timeout_max * 1_000_000,
  r.timer_config.smaller_log_timeout.ns == 2 * config.election_timeout_max * 1_000_000,
