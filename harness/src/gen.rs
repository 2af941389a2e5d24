//! Random workload generator: composes network, Byzantine, crash, fault and configuration
//! disturbances under a profile that says how often each of them is used.
use crate::prng::Rng;
use crate::sim::*;

/// Permille of cases that use each ingredient.
#[derive(Clone, Debug)]
pub struct Profile {
    pub byz: u32,
    pub twin: u32,
    pub loss: u32,
    pub adv: u32,
    pub part: u32,
    pub crash: u32,
    pub opcrash: u32,
    pub fault: u32,
    pub reject: u32,
    pub epochs: u32,
    pub weights: u32,
    pub huge: u32,
    pub down: u32,
    pub slow_app: u32,
    pub ratios: u32,
    pub style_b: u32,
    /// the stabilised system has to reach the goal
    pub live: bool,
    /// adversary keeps going after stabilisation
    pub byz_after: u32,
    pub nmin: usize,
    pub nmax: usize,
    /// attack weights override
    /// split-leading adversary among the Byzantine cases
    pub split: u32,
    pub attacks: Option<[u32; 12]>,
    pub gst: (u64, u64),
    pub after: (u64, u64),
}

impl Profile {
    pub fn base() -> Profile {
        Profile {
            byz: 500,
            twin: 100,
            loss: 500,
            adv: 400,
            part: 250,
            crash: 250,
            opcrash: 250,
            fault: 100,
            reject: 150,
            epochs: 300,
            weights: 400,
            huge: 50,
            down: 100,
            slow_app: 200,
            ratios: 200,
            style_b: 200,
            live: false,
            byz_after: 0,
            nmin: 1,
            nmax: 10,
            split: 150,
            attacks: None,
            gst: (4, 40),
            after: (1, 3),
        }
    }
}

fn weights(r: &mut Rng, n: usize, p: &Profile) -> Vec<(u32, u32)> {
    let mut v = vec![(1u32, 1u32); n];
    if r.pm(p.huge) {
        for x in v.iter_mut() {
            *x = (u32::MAX - r.below(5) as u32, u32::MAX - r.below(5) as u32);
        }
        return v;
    }
    if !r.pm(p.weights) {
        return v;
    }
    match r.below(5) {
        0 => {
            for x in v.iter_mut() {
                *x = (r.range(1, 10) as u32, r.range(1, 10) as u32);
            }
        }
        1 => {
            let i = r.usize(n);
            v[i] = (5, r.range(2, n as u64 * 2 + 2) as u32);
        }
        2 => {
            for x in v.iter_mut() {
                *x = (1, 1000 + r.below(3) as u32);
            }
        }
        3 => {
            // some without a vote
            for x in v.iter_mut() {
                if r.pm(250) {
                    x.1 = 0;
                }
            }
            v[0].1 = 3;
        }
        _ => {
            for (i, x) in v.iter_mut().enumerate() {
                *x = (1 + i as u32, 1 << (i as u32 / 2));
            }
        }
    }
    v
}

pub fn gen(seed: u64, p: &Profile) -> Cfg {
    let mut r = Rng::new(seed);
    let mut split_rng = Rng::new(seed ^ 0x5b117);
    let n = match r.below(10) {
        0 => p.nmin,
        1 => p.nmax,
        _ => r.range(p.nmin as u64, p.nmax.min(7) as u64) as usize,
    };
    let interval = *r.pick(&[200u64, 500, 1000, 1000, 1000, 3000]);
    let mut c = Cfg::plain(seed, n);
    let u = |x: u64| (x * interval / 1000).max(1);
    let w = weights(&mut r, n, p);
    let ratios = |r: &mut Rng| Some([r.range(20, 40), r.range(8, 20), r.range(5, 12), r.range(3, 8)]);
    c.epochs[0].interval = interval;
    c.epochs[0].vals = (0..n).map(|i| (i, w[i].0, w[i].1)).collect();
    if r.pm(p.ratios) {
        c.epochs[0].ratios = ratios(&mut r);
    }
    // epochs
    if r.pm(p.epochs) && n >= 2 {
        let k = r.range(1, 3);
        let mut from = 0;
        for _ in 0..k {
            from += r.range(1, 3);
            let w = weights(&mut r, n, p);
            let mut ids: Vec<usize> = (0..n).collect();
            r.shuffle(&mut ids);
            let m = r.range((n as u64).div_ceil(2), n as u64) as usize;
            let announce = r.pm(700);
            c.epochs.push(Epoch {
                from,
                vals: ids[..m].iter().map(|i| (*i, w[*i].0, w[*i].1.max(if w.iter().all(|x| x.1 == 0) { 1 } else { 0 }))).collect(),
                interval: if announce && r.pm(300) { u(500).max(100) } else { interval },
                ratios: if announce && r.pm(p.ratios) { ratios(&mut r) } else { None },
                announce,
            });
            let e = c.epochs.last_mut().unwrap();
            if e.vals.iter().all(|v| v.2 == 0) {
                e.vals[0].2 = 1;
            }
        }
    }
    // network
    c.net.pre = Lat::new(1, u(*r.pick(&[10, 30, 100, 400, 900])));
    c.net.post = Lat::new(1, u(*r.pick(&[5, 20, 30])));
    let disturbed = r.pm(900) || p.live;
    if disturbed {
        c.net.gst = u(1000 * r.range(p.gst.0, p.gst.1));
        if r.pm(p.loss) {
            c.net.drop = *r.pick(&[10, 50, 150, 300, 600]);
            c.net.dup = *r.pick(&[0, 50, 300]);
            c.net.slow = *r.pick(&[0, 50, 200]);
            c.net.slow_ms = u(*r.pick(&[500, 2000, 10_000]));
        }
        if r.pm(p.adv) {
            let x = *r.pick(&[100u32, 300, 600]);
            let mut pp = [0u32; 6];
            for q in pp.iter_mut() {
                *q = *r.pick(&[0, x / 2, x, x * 3 / 2]);
            }
            c.net.adv = Some(RoundAdv {
                seed: r.next(),
                upto_height: 1 + r.below(6),
                p: pp,
                deliver: *r.pick(&[0, 150, 400, 700]),
                hold: *r.pick(&[0, 300, 800]),
                hold_ms: u(*r.pick(&[1000, 5000, 20_000])),
            });
        }
        if r.pm(p.part) {
            let mut t = 0;
            for _ in 0..r.range(1, 4) {
                let from = t + u(r.below(4000));
                let to = from + u(r.range(500, 12_000));
                let k = r.range(2, 3);
                c.net.parts.push(Partition { from, to, group: (0..n).map(|_| r.below(k) as u8).collect() });
                t = to;
            }
        }
    }
    let gst = c.net.gst;
    // Byzantine
    let fits = |c: &Cfg, bad: &[usize]| -> bool {
        c.epochs.iter().all(|e| {
            let tot: u64 = e.vals.iter().map(|v| v.2 as u64).sum();
            let b: u64 = e.vals.iter().filter(|v| bad.contains(&v.0)).map(|v| v.2 as u64).sum();
            b * 3 < tot
        })
    };
    let mut bad: Vec<usize> = vec![];
    if r.pm(p.byz) {
        let mut ids: Vec<usize> = (0..n).collect();
        r.shuffle(&mut ids);
        let max = r.range(1, 3) as usize;
        for i in ids {
            if bad.len() >= max || bad.len() + 1 >= n {
                break;
            }
            let mut b2 = bad.clone();
            b2.push(i);
            if fits(&c, &b2) {
                bad = b2;
            }
        }
        let mut twins = vec![];
        for b in &bad {
            if r.pm(p.twin) {
                twins.push(*b);
            } else {
                c.roles[*b] = Role::Byz;
            }
        }
        for b in twins {
            // the identity itself is faulty: both instances are twins of it
            c.roles[b] = Role::Twin(b);
            c.roles.push(Role::Twin(b));
            for g in c.net.parts.iter_mut() {
                g.group.push(1 - g.group[b].min(1));
            }
        }
        let mut ws = [0u32; 12];
        match &p.attacks {
            Some(a) => {
                for (i, x) in a.iter().enumerate() {
                    ws[i] = if r.pm(600) { *x } else { 0 };
                }
            }
            None => {
                for (i, x) in ws.iter_mut().enumerate() {
                    *x = if r.pm(450) { 1 + r.below(4) as u32 } else { 0 };
                    if i == 9 || i == 10 {
                        *x /= 2;
                    }
                }
            }
        }
        c.byz = Some(ByzCfg {
            seed: r.next(),
            w: ws,
            react: *r.pick(&[20, 100, 300, 500]),
            until: gst,
            play: r.pm(650),
            split: None,
        });
        if split_rng.pm(p.split) {
            let x = c.byz.as_mut().unwrap();
            x.split = Some(split_rng.below(8) as u8);
            x.play = true;
        }
        if r.pm(p.byz_after) {
            c.byz.as_mut().unwrap().until = u64::MAX;
        }
    }
    // application
    if r.pm(p.slow_app) {
        c.d_check = Lat::new(0, u(*r.pick(&[100, 800, 3000])));
        c.d_commit = Lat::new(0, u(*r.pick(&[50, 500])));
        c.d_get = Lat::new(0, u(*r.pick(&[50, 500])));
        c.d_wal = Lat::new(0, u(*r.pick(&[5, 50])));
        c.d_send = Lat::new(0, u(*r.pick(&[0, 20])));
        if p.live {
            c.d_check.hi = c.d_check.hi.min(u(100));
            c.d_get.hi = c.d_get.hi.min(u(100));
            c.d_commit.hi = c.d_commit.hi.min(u(100));
            c.d_wal.hi = c.d_wal.hi.min(u(10));
        }
    } else {
        c.d_check = Lat::new(0, u(20));
    }
    c.yields = r.below(4);
    if r.pm(p.reject) {
        c.reject = *r.pick(&[100, 300, 600]);
        c.reject_until = gst;
    }
    // crashes
    let honest: Vec<usize> = (0..n).filter(|i| c.roles[*i] == Role::Honest).collect();
    if honest.is_empty() {
        return Cfg::plain(seed, n);
    }
    if r.pm(p.crash) {
        for _ in 0..r.range(1, 5) {
            let slot = *r.pick(&honest);
            let t = r.below(gst.max(u(6000)));
            let down = u(*r.pick(&[1, 100, 1000, 5000]));
            c.crashes.push(CrashPlan { slot, when: CrashWhen::At(t), down: Some(down) });
        }
        if r.pm(200) {
            // the whole cluster at once
            let t = r.below(gst.max(u(6000)));
            let base = u(r.below(2000));
            for s in &honest {
                c.crashes.push(CrashPlan { slot: *s, when: CrashWhen::At(t), down: Some(base + r.below(50)) });
            }
        }
    }
    if r.pm(p.opcrash) {
        let k = r.range(1, 6);
        for _ in 0..k {
            let slot = *r.pick(&honest);
            let span = *r.pick(&[20u64, 60, 150]);
            let op = 1 + r.below(span);
            let down = u(*r.pick(&[1, 100, 2000]));
            c.crashes.push(CrashPlan { slot, when: CrashWhen::Op(op, r.pm(500)), down: Some(down) });
        }
    }
    // storage, application and network faults
    if r.pm(p.fault) {
        for _ in 0..r.range(1, 4) {
            let slot = *r.pick(&honest);
            let op = *r.pick(&[
                Op::WalSave,
                Op::WalSave,
                Op::Broadcast,
                Op::Transmit,
                Op::GetBlock,
                Op::CheckBlock,
                Op::Commit,
                Op::Sign,
                Op::WalLoad,
            ]);
            let from = r.below(gst.max(u(4000)));
            let to = from + u(r.range(200, 8000));
            let hang = if r.pm(400) { u(r.below(2000)) } else { 0 };
            c.faults.push(Fault { slot, from, to: to.min(gst.max(1)), op, permille: *r.pick(&[200, 600, 1000]), hang, fail: r.pm(800) });
        }
    }
    // a minority stays down for good
    if r.pm(p.down) && p.live {
        let mut gone = bad.clone();
        for h in &honest {
            let mut g2 = gone.clone();
            g2.push(*h);
            if fits(&c, &g2) && gone.len() + 1 < n && r.pm(400) {
                gone = g2;
                c.crashes.retain(|x| x.slot != *h);
                c.faults.retain(|x| x.slot != *h);
                c.crashes.push(CrashPlan { slot: *h, when: CrashWhen::At(r.below(gst + 1)), down: None });
            }
        }
    }
    c.style_b = if r.pm(p.style_b) { *r.pick(&[300, 1000]) } else { 0 };
    c.sync = SyncCfg { every: u(*r.pick(&[200, 500, 1500])), from: if r.pm(600) { 0 } else { gst }, lag: u(*r.pick(&[0, 500, 1500, 4000])) };
    c.skip_ahead = r.pm(300);
    c.body = *r.pick(&[0, 16, 200]);
    if r.pm(150) {
        c.recur = *r.pick(&[300, 1000]);
    }
    c.target = 1 + r.below(3);
    c.after = r.range(p.after.0, p.after.1);
    let span = 135 * interval * (2 * n as u64 + 12);
    c.deadline = gst + span * (c.after + 1);
    c
}
