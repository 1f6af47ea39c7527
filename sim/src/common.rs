//! Shared by the properties: violations, calls into the library, outcome digests.

use crate::cfg;
use crate::enc::{self, EncOp};
use crate::gen::Module;
use crate::handlers::{self, HSpec, Log, Plan};
use crate::sinks::{FmtSink, Mode};
use crate::spec::{self, Fail, RefOut};
use crate::world::{self, ev, hash_bytes, hash_str, mix, sut, Died};
use magmaflow::spv::logical::{find_control_flow, validate, ControlFlowFunctionPrinter};
use magmaflow::spv::raw::{read_module, RawModule};
use std::fmt::Write;

pub struct Viol { pub class: String, pub msg: String }
pub type Res = Result<(), Viol>;
pub fn viol<T>(class: &str, msg: String) -> Result<T, Viol> { Err(Viol { class: class.to_string(), msg }) }
pub fn clip(s: &str) -> String { if s.len() > 300 { let mut n = 300; while !s.is_char_boundary(n) { n -= 1; } format!("{}...({} bytes)", &s[..n], s.len()) } else { s.to_string() } }

pub enum Out { Ok(RawModule), Err(String), Died(Died) }
impl Out {
    pub fn text(&self) -> String {
        match *self { Out::Ok(ref m) => format!("accepted, {} instructions", m.instructions.len()), Out::Err(ref e) => format!("refused: {}", clip(e)), Out::Died(ref d) => d.text() }
    }
    pub fn digest(&self) -> u64 {
        match *self {
            Out::Ok(ref m) => { let mut h = 1; for x in enc::header(m) { h = mix(h, x as u64); } for i in &m.instructions { for w in i.words() { h = mix(h, w as u64); } h = mix(h, enc::ext_tag(i).unwrap_or(0) as u64 + 7); } h }
            Out::Err(ref e) => hash_str(2, e),
            Out::Died(ref d) => hash_str(3, &d.text()),
        }
    }
}

pub fn read_with(bytes: &[u8], hs: &[HSpec], plan: &Plan, reenter: Option<Box<dyn FnMut(usize)>>) -> (Out, Log) {
    handlers::push_log(plan.clone(), reenter);
    let reg = handlers::register(hs);
    let r = sut(|| read_module(bytes, reg));
    let log = handlers::pop_log();
    let out = match r { Ok(Ok(m)) => Out::Ok(m), Ok(Err(e)) => Out::Err(format!("{:?}", e)), Err(d) => Out::Died(d) };
    ev("read", || format!("{} bytes -> {}", bytes.len(), out.text()), mix(hash_bytes(0, bytes), out.digest()));
    (out, log)
}
pub fn read(bytes: &[u8], hs: &[HSpec]) -> Out { read_with(bytes, hs, &Plan::default(), None).0 }

pub fn lib_ref(bytes: &[u8], hs: &[HSpec]) -> RefOut { spec::ref_read(bytes, hs, &Plan::default(), false) }

/// The library's outcome against the reference's; None when they agree.
pub fn judge(out: &Out, want: &Result<spec::RefModule, Fail>) -> Option<(String, String)> {
    match (out, want) {
        (Out::Ok(m), Ok(r)) => faithful(m, r).map(|s| ("unfaithful".to_string(), s)),
        (Out::Ok(_), Err(Fail::Errs(e))) => Some(("accepted".into(), format!("accepted, but should be refused with one of {:?}", e))),
        (Out::Ok(_), Err(Fail::Panic(t))) => Some(("panic_swallowed".into(), format!("accepted, but handler panic {} should have surfaced", t))),
        (Out::Err(e), Ok(_)) => Some(("refused".into(), format!("a sound image was refused with {}", clip(e)))),
        (Out::Err(e), Err(Fail::Errs(w))) => if w.iter().any(|x| format!("{:?}", x) == *e) { None } else { Some(("wrong_error".into(), format!("refused with {}, truthful would be one of {}", clip(e), clip(&format!("{:?}", w))))) },
        (Out::Err(e), Err(Fail::Panic(t))) => Some(("panic_swallowed".into(), format!("refused with {}, but handler panic {} should have surfaced", e, t))),
        (Out::Died(Died::Injected(a)), Err(Fail::Panic(b))) if a == b => None,
        (Out::Died(d), _) => Some(("panic".into(), d.text())),
    }
}

/// Header and instructions stand for the reference's canonical words.
pub fn faithful(m: &RawModule, r: &spec::RefModule) -> Option<String> {
    let h = enc::header(m);
    if h != r.head { return Some(format!("header {:x?} stands for stored {:x?}", h, r.head)); }
    let k = m.instructions.len().min(r.insts.len());
    for i in 0..k {
        let w = m.instructions[i].words();
        if w != r.insts[i].canon { return Some(format!("instruction {} decoded as {} ({}), stored {} ({})", i, clip(&format!("{:x?}", w)), clip(&format!("{:?}", m.instructions[i])), clip(&format!("{:x?}", r.insts[i].canon)), clip(&r.insts[i].text))); }
        let t = enc::ext_tag(&m.instructions[i]);
        if t != r.insts[i].tag { return Some(format!("instruction {} decoded by handler {:?}, bound was {:?}", i, t, r.insts[i].tag)); }
    }
    if m.instructions.len() != r.insts.len() { return Some(format!("{} instructions returned, {} stored", m.instructions.len(), r.insts.len())); }
    None
}

pub fn display(x: &dyn std::fmt::Display) -> Result<String, Died> {
    let mut s = FmtSink::new(Mode::Healthy);
    let r = sut(|| write!(s, "{}", x));
    match r { Ok(Ok(())) => Ok(s.got), Ok(Err(_)) => Ok(format!("<refused by the formatter>{}", s.got)), Err(d) => Err(d) }
}

/// One complete job: read, disassemble, lay out, recover, print; everything observable goes in the digest.
#[derive(Clone)]
pub struct Job { pub bytes: Vec<u8>, pub hs: Vec<HSpec>, pub plan: Plan }

#[derive(Clone, Debug, PartialEq)]
pub struct Digest { pub parts: Vec<(&'static str, u64, String)> }
impl Digest {
    fn put(&mut self, what: &'static str, s: String) { let h = hash_str(9, &s); let c = clip(&s); self.parts.push((what, h, c)); }
    pub fn part(&self, what: &str) -> Option<&str> { self.parts.iter().find(|p| p.0 == what).map(|p| p.2.as_str()) }
    pub fn hash(&self) -> u64 { let mut h = 5; for p in &self.parts { h = mix(hash_str(h, p.0), p.1); } h }
    pub fn diff(&self, o: &Digest) -> String {
        for (a, b) in self.parts.iter().zip(o.parts.iter()) { if a != b { return format!("{}: alone `{}`, here {}: `{}`", a.0, a.2, b.0, b.2); } }
        format!("{} results alone, {} here", self.parts.len(), o.parts.len())
    }
}

/// How a job's callbacks behave: yield to other tasks, run other jobs inside.
pub struct Ctx { pub yields: bool, pub inner: Option<Box<dyn Fn() -> Box<dyn FnMut(usize)>>> }
impl Ctx { pub fn plain() -> Ctx { Ctx { yields: false, inner: None } } }

fn show(x: &dyn std::fmt::Display, ctx: &Ctx) -> String {
    let mut s = FmtSink::new(Mode::Healthy);
    s.yields = ctx.yields;
    s.hook = ctx.inner.as_ref().map(|f| f());
    match sut(|| write!(s, "{}", x)) { Ok(Ok(())) => std::mem::take(&mut s.got), Ok(Err(_)) => format!("<error>{}", s.got), Err(d) => format!("<{}>{}", d.text(), s.got) }
}

pub fn run_job(j: &Job, ctx: &Ctx) -> Digest {
    let mut d = Digest { parts: vec![] };
    let (out, log) = read_with(&j.bytes, &j.hs, &j.plan, ctx.inner.as_ref().map(|f| f()));
    d.put("calls", format!("{:?}", log.calls));
    let m = match out {
        Out::Ok(m) => m,
        Out::Err(e) => { d.put("read error", e); return d; }
        Out::Died(x) => { d.put("read died", x.text()); return d; }
    };
    if ctx.yields { world::yield_point(4); }
    d.put("header", format!("{:x?}", enc::header(&m)));
    let mut h = 0;
    for i in &m.instructions { for w in i.words() { h = mix(h, w as u64); } h = mix(h, enc::ext_tag(i).unwrap_or(1) as u64); }
    d.put("instructions", format!("{} {:x}", m.instructions.len(), h));
    d.put("disassembly", show(&m, ctx));
    if ctx.yields { world::yield_point(4); }
    match sut(|| validate(m)) {
        Err(x) => d.put("layout died", x.text()),
        Ok(Err(e)) => d.put("layout error", format!("{:?}", e)),
        Ok(Ok(l)) => {
            d.put("layout", format!("{:x?}", crate::layout::observed(&l)));
            for f in &l.function_definitions {
                if ctx.yields { world::yield_point(4); }
                match sut(|| find_control_flow(f.clone())) {
                    Err(x) => d.put("recovery died", x.text()),
                    Ok(Err(e)) => d.put("recovery error", format!("{:?}", e)),
                    Ok(Ok(c)) => {
                        d.put("structure", format!("{:?}", c));
                        d.put("structure text", show(&c, ctx));
                        d.put("function text", show(&ControlFlowFunctionPrinter(f, &c), ctx));
                    }
                }
            }
        }
    }
    d
}

/// A laid-out module with a few structured functions, for whole-pipeline jobs.
pub fn whole_module(max_sec: u64, budget: i64) -> Module {
    let mut st = crate::gen::Style::new();
    if st.lists > 2 { st.lists = 2; }
    if st.strs > 3 { st.strs = 1; }
    let hs = crate::gen::handler_set(3);
    crate::gen::laid_out(&mut st, max_sec, hs, |st, binds, hs| {
        let mut out = Vec::new();
        for _ in 0..if world::chance(1, 200) { crate::gen::bulk().min(66) } else { world::draw(3) } {
            let b = cfg::structured(st, binds, hs, cfg::Shape { max_depth: world::draw(4), max_seq: 4, budget, tails: false, share: world::chance(1, 4), exits: world::draw(3), hints: true, code: 4 });
            cfg::definition(st, &b, &mut out);
        }
        out
    })
}
