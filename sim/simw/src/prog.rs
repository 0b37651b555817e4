//! Programs: what the simulated threads do.  Text form is used for replay files.
use simk::shm::*;
use simk::{Cfg, Dec};

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub th: u32,
    pub code: &'static str,
    pub a: [u64; 6],
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Prog {
    pub family: String,
    pub cfg: Cfg,
    pub ops: Vec<Op>,
}
pub fn op(th: u32, code: &'static str, a: &[u64]) -> Op {
    let mut x = [0; 6];
    x[..a.len()].copy_from_slice(a);
    Op { th, code, a: x }
}
pub fn intern(s: &str, codes: &[&'static str]) -> Option<&'static str> {
    codes.iter().copied().find(|c| *c == s)
}

pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub prog: Prog,
    pub decs: Vec<Dec>,
    pub class: String,
    pub props: String,
    pub msg: String,
}
fn kind_name(d: &Dec) -> String {
    match d.kind {
        D_PRE => "preempt".into(),
        D_STALL => "stall".into(),
        D_JUMP => "jump".into(),
        D_BLK => "resume".into(),
        _ => format!("fault:{}", simk::f::NAMES[d.tid as usize]),
    }
}
impl Replay {
    pub fn text(&self) -> String {
        let mut s = String::new();
        s += "# Replay with: sim/replay.sh <this file>\n";
        s += &format!("property {}\nseed {}\nfamily {}\nclass {}\nprops {}\n", self.property, self.seed, self.prog.family, self.class, self.props);
        s += &format!("message {}\n", self.msg.replace('\n', " "));
        for (k, v) in &self.prog.cfg.kv {
            s += &format!("cfg {} {}\n", k, v);
        }
        for o in &self.prog.ops {
            s += &format!("op t{} {} {}\n", o.th, o.code, o.a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        }
        for d in &self.decs {
            s += &format!("dec {} {} {} {}\n", kind_name(d), d.tid, d.at, d.val);
        }
        s
    }
    pub fn parse(t: &str) -> Option<Replay> {
        let mut r = Replay {
            property: String::new(),
            seed: 0,
            prog: Prog::default(),
            decs: vec![],
            class: String::new(),
            props: String::new(),
            msg: String::new(),
        };
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.is_empty() || w[0].starts_with('#') {
                continue;
            }
            let rest = l[w[0].len()..].trim().to_string();
            match w[0] {
                "property" => r.property = rest,
                "seed" => r.seed = rest.parse().ok()?,
                "family" => r.prog.family = rest,
                "class" => r.class = rest,
                "props" => r.props = rest,
                "message" => r.msg = rest,
                "cfg" => r.prog.cfg.set(w[1], w[2].parse().ok()?),
                "op" => {
                    let mut a = [0; 6];
                    for (i, x) in w[3..].iter().enumerate() {
                        a[i] = x.parse().ok()?;
                    }
                    r.prog.ops.push(Op { th: w[1][1..].parse().ok()?, code: intern(w[2], crate::all_codes())?, a });
                }
                "dec" => {
                    let kind = match w[1] {
                        "preempt" => D_PRE,
                        "stall" => D_STALL,
                        "jump" => D_JUMP,
                        "resume" => D_BLK,
                        _ => D_FAULT,
                    };
                    r.decs.push(Dec { kind, tid: w[2].parse().ok()?, at: w[3].parse().ok()?, val: w[4].parse().ok()? });
                }
                _ => {}
            }
        }
        Some(r)
    }
}
