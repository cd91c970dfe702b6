//@module time
//@raw
/// An instant / a length of time of the monotonic clock, in nanoseconds.  Addition is mathematical.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Instant { pub ns: u64 }
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Duration { pub ns: u64 }
impl PartialOrd for Instant { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(if self.ns < o.ns { Ordering::Less } else if self.ns == o.ns { Ordering::Equal } else { Ordering::Greater }) } }
impl Ord for Instant { fn cmp(&self, o: &Self) -> Ordering { if self.ns < o.ns { Ordering::Less } else if self.ns == o.ns { Ordering::Equal } else { Ordering::Greater } } }
impl PartialOrd for Duration { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(if self.ns < o.ns { Ordering::Less } else if self.ns == o.ns { Ordering::Equal } else { Ordering::Greater }) } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Instant { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Duration { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Instant { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(u64_cmp(self.ns, o.ns)) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(u64_cmp(self.ns, o.ns)) } }
impl vstd::std_specs::cmp::OrdSpecImpl for Instant { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { u64_cmp(self.ns, o.ns) } }
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, d: Duration) -> bool { true }
    open spec fn add_spec(self, d: Duration) -> Instant { Instant { ns: (self.ns + d.ns) as u64 } }
}
impl core::ops::Add<Duration> for Instant {
    type Output = Instant;
    #[verifier::external_body]
    fn add(self, d: Duration) -> (r: Instant)
        ensures r.ns as int == self.ns + d.ns
    { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Duration {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, d: Duration) -> bool { true }
    open spec fn add_spec(self, d: Duration) -> Duration { Duration { ns: (self.ns + d.ns) as u64 } }
}
impl core::ops::Add<Duration> for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn add(self, d: Duration) -> (r: Duration)
        ensures r.ns as int == self.ns + d.ns
    { unimplemented!() }
}
impl Default for Duration { fn default() -> (r: Duration) ensures r.ns == 0 { Duration { ns: 0 } } }
impl Duration {
    #[verifier::external_body]
    pub const fn from_millis(ms: u64) -> (r: Duration) requires ms * 1_000_000 <= u64::MAX ensures r.ns as int == ms * 1_000_000 { unimplemented!() }
}
/// An arbitrary instant no recorded time of the step's initial state is after.
pub uninterp spec fn clock_floor() -> Instant;
/// The monotonic clock.
#[verifier::external_body]
pub fn vx_now() -> (r: Instant) ensures r.ns >= clock_floor().ns { unimplemented!() }
pub open spec fn oinst(a: Option<Instant>) -> int { match a { None => -1, Some(x) => x.ns as int } }
