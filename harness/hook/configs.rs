// Executable contracts of the configuration: what is accepted, and the timeouts a node draws from it (C21).
use crate::engine::EngineConfig;
use crate::Config;
use crate::ConfigError;
use crate::TokioRuntime;

pub fn run(cx: &mut Cx) {
    let edge = [0u64, 1, 2, 3, 49, 50, 51, 150, 299, 300, 301, 5000, 9_000_000_000];
    for &min in &edge { for &max in &edge { for &hb in &edge { for &pay in &[0u64, 1, 300] {
        let c = Config { election_timeout_min: min, election_timeout_max: max, heartbeat_interval: hb, max_payload_entries: pay, ..Default::default() };
        let usable = min < max && hb < min && pay != 0;
        cx.case("Config::validate", || format!("election timeout [{min}, {max}) heartbeat {hb} payload {pay}"), || {
            let c0 = format!("{c:?}");
            match c.validate() {
                Ok(d) => { holds("accepted only if usable", usable)?; want("the configuration", format!("{d:?}"), c0) }
                Err(ConfigError::ElectionTimeout { .. }) => holds("election timeout is an empty range", min >= max),
                Err(ConfigError::ElectionTimeoutLTHeartBeat { .. }) => holds("heartbeat is not below the election timeout", hb >= min),
                Err(ConfigError::MaxPayloadIs0) => holds("payload is 0", pay == 0),
                Err(e) => Err(format!("unexpected {e}")),
            }
        });
        if !usable { continue; }
        cx.case("Config::new_rand_election_timeout", || format!("election timeout [{min}, {max}) heartbeat {hb}"), || {
            let c = Config { election_timeout_min: min, election_timeout_max: max, heartbeat_interval: hb, max_payload_entries: pay, ..Default::default() };
            for k in 0..20u64 {
                let t = c.new_rand_election_timeout::<TokioRuntime>();
                holds(&format!("{min} <= {t} < {max}"), min <= t && t < max)?;
                let e = EngineConfig::<Cfg>::new(k, &c);
                let t = e.timer_config.election_timeout;
                holds(&format!("{min}ms <= {t:?} < {max}ms"), Duration::from_millis(min) <= t && t < Duration::from_millis(max))?;
                want("leader lease", e.timer_config.leader_lease, Duration::from_millis(max))?;
                want("timeout of a node with a smaller log", e.timer_config.smaller_log_timeout, Duration::from_millis(max * 2))?;
                want("the rest", (e.id, e.max_in_snapshot_log_to_keep, e.purge_batch_size, e.max_payload_entries, e.snapshot_policy), (k, c.max_in_snapshot_log_to_keep, c.purge_batch_size, pay, c.snapshot_policy.clone()))?;
            }
            Ok(())
        });
    } } } }
    cx.case("Config::default", String::new, || holds("the default configuration is accepted", Config::default().validate().is_ok()));
    for (min, max, hb, pay) in [("10", "20", "5", "1"), ("20", "10", "5", "1"), ("10", "10", "5", "1"), ("10", "20", "10", "1"), ("10", "20", "5", "0")] {
        cx.case("Config::build", || format!("{min} {max} {hb} {pay}"), || {
            let (a, b, h, p) = (format!("--election-timeout-min={min}"), format!("--election-timeout-max={max}"), format!("--heartbeat-interval={hb}"), format!("--max-payload-entries={pay}"));
            let r = Config::build(&["x", &a, &b, &h, &p]);
            let n = |s: &str| s.parse::<u64>().unwrap();
            want("accepted", r.is_ok(), n(min) < n(max) && n(hb) < n(min) && n(pay) > 0)?;
            if let Ok(c) = r { want("values", (c.election_timeout_min, c.election_timeout_max, c.heartbeat_interval, c.max_payload_entries), (n(min), n(max), n(hb), n(pay)))?; }
            Ok(())
        });
    }
}
