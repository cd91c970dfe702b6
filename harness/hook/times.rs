// Executable contracts: leases (C15).
use crate::utime::Leased;
use crate::type_config::TypeConfigExt;
use crate::Instant as _;
pub type I = crate::type_config::alias::InstantOf<Cfg>;

pub fn run(cx: &mut Cx) {
    let base = Cfg::now();
    let ms = |n: u64| Duration::from_millis(n);
    let at = |n: u64| base + ms(n);
    let ds = [0u64, 1, 5, 100];
    for &t0 in &ds {
        for &l in &ds {
            for &now in &[0u64, 1, 2, 5, 6, 7, 10, 11, 100, 101, 105, 106, 200, 201, 205, 206, 305, 1000] {
                for &g in &ds {
                    cx.case("Leased::is_expired", || format!("new({t0},{l}) is_expired({now},{g})"), || {
                        let x: Leased<u64, I> = Leased::new(at(t0), ms(l), 7);
                        want("is_expired", x.is_expired(at(now), ms(g)), now > t0 + l + g)?;
                        let mut d = x.clone();
                        d.disable_lease();
                        want("disabled is_expired", d.is_expired(at(now), ms(g)), now > t0 + g)?;
                        want("disabled keeps data", *d, 7)?;
                        let n: Leased<u64, I> = Leased::without_last_update(3);
                        want("never refreshed is expired", n.is_expired(at(now), ms(g)), true)
                    });
                }
                for &l2 in &ds {
                    if now < t0 { continue; }
                    cx.case("Leased::touch, update", || format!("new({t0},{l}) touch({now},{l2})"), || {
                        let mut x: Leased<u64, I> = Leased::new(at(t0), ms(l), 7);
                        x.touch(at(now), ms(l2));
                        want("touch", x.lease_info(), (Some(at(now)), ms(l2), true))?;
                        want("touch keeps data", *x, 7)?;
                        x.disable_lease();
                        want("disable", x.lease_info(), (Some(at(now)), ms(0), false))?;
                        x.touch(at(now + 1), ms(l2));
                        want("touch of a disabled lease", x.lease_info(), (Some(at(now + 1)), ms(0), false))?;
                        x.update(at(now + 2), ms(l2), 9);
                        want("update", x.lease_info(), (Some(at(now + 2)), ms(l2), true))?;
                        want("update data", *x, 9)?;
                        want("last_update", x.last_update(), Some(at(now + 2)))?;
                        want("into_inner", x.into_inner(), 9)
                    });
                }
            }
        }
    }
}
