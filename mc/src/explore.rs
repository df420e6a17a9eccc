//! Breadth-first exploration of every state a world can reach: each transition is taken by the
//! model and, from a fresh replay of the path, by the library itself, and everything both show is
//! compared.

use crate::ctx::*;
use crate::model::*;
use crate::real::*;
use std::collections::HashSet;
use std::sync::Mutex;
use xml_dom::level2::RefNode;

pub type OpsFn = Box<dyn Fn(&Model) -> Vec<Op> + Sync + Send>;

pub struct World {
    pub name: String,
    pub spec: Vec<Spec>,
    pub init: Vec<Op>,
    pub ops: OpsFn,
    /// Operations creating nodes are left out once there are this many.
    pub max_nodes: usize,
}

impl World {
    pub fn new(
        name: impl Into<String>,
        spec: Vec<Spec>,
        init: Vec<Op>,
        ops: impl Fn(&Model) -> Vec<Op> + Sync + Send + 'static,
    ) -> World {
        World {
            name: name.into(),
            spec,
            init,
            ops: Box::new(ops),
            max_nodes: usize::MAX,
        }
    }
    pub fn max(mut self, n: usize) -> World {
        self.max_nodes = n;
        self
    }
    /// Offer to drop every node that nothing holds, too.
    pub fn drops(mut self) -> World {
        let inner = self.ops;
        self.name.push_str("+drops");
        self.ops = Box::new(move |m| {
            let mut ops = inner(m);
            ops.extend(m.live().filter(|i| m.loose(*i)).map(Op::Drop));
            ops
        });
        self
    }
    pub fn model(&self) -> Model {
        let mut m = Model::default();
        for s in &self.spec {
            spec_model(&mut m, *s);
        }
        for op in &self.init {
            model_step(&mut m, *op);
        }
        m
    }
    /// The library in the state after the path; every step must do what the model says.
    pub fn real(&self, path: &[Op]) -> Result<Real, String> {
        self.real_asked(path, None)
    }
    /// The same, asking something in the state after each number of steps of the path.
    pub fn real_asked(&self, path: &[Op], ask: Option<&Asking<'_>>) -> Result<Real, String> {
        let mut r = Real::default();
        for s in &self.spec {
            r.make(*s)?;
        }
        if self.init.is_empty() && path.is_empty() && ask.is_none() {
            return Ok(r);
        }
        let mut m = Model::default();
        for s in &self.spec {
            spec_model(&mut m, *s);
        }
        let step = |op: Op, m: &mut Model, r: &mut Real| -> Result<(), String> {
            let out = m.apply(op);
            real_step(r, m, op, &out)?;
            let gone = m.garbage();
            if !gone.is_empty() {
                m.forget(&gone);
                r.forget(&gone, m);
            }
            Ok(())
        };
        for op in &self.init {
            step(*op, &mut m, &mut r)?;
        }
        for (i, op) in path.iter().enumerate() {
            if let Some(ask) = ask {
                ask(i, &m, &r)?;
            }
            step(*op, &mut m, &mut r)?;
        }
        if let Some(ask) = ask {
            ask(path.len(), &m, &r)?;
        }
        Ok(r)
    }
}

pub fn model_step(m: &mut Model, op: Op) -> Out {
    let out = m.apply(op);
    let gone = m.garbage();
    if !gone.is_empty() {
        m.forget(&gone);
    }
    out
}

/// Take one step with the library, and check result, return value and new nodes.
pub fn real_step(r: &mut Real, after: &Model, op: Op, out: &Out) -> Result<(), String> {
    if let Op::Drop(i) = op {
        guard(|| r.nodes[i] = None)?;
        return Ok(());
    }
    let got = guard(|| r.apply(op)).map_err(|p| p.to_string())?;
    match (out, got) {
        (Out::Unclaimed, _) | (Out::Any, _) => Ok(()),
        (Out::Err(kinds), Err(e)) => {
            if kinds.contains(&err(&e)) {
                Ok(())
            } else {
                Err(format!("gave error {:?}, expected {:?}", e, kinds))
            }
        }
        (Out::Err(kinds), Ok(_)) => Err(format!("succeeded, expected error {:?}", kinds)),
        (Out::Ok(..), Err(e)) => Err(format!("gave error {:?}, expected success", e)),
        (Out::Ok(ret, made), Ok(got)) => {
            let node: Option<RefNode> = match got {
                RRet::Unit => None,
                RRet::Node(n) => Some(n),
            };
            match guard(|| r.register(after, made, node.as_ref())) {
                Ok(x) => x?,
                Err(p) => return Err(p),
            }
            match (ret, &node) {
                (Ret::Unit, None) => Ok(()),
                (Ret::Node(id), Some(n)) => {
                    if n == r.g(*id) {
                        Ok(())
                    } else {
                        Err(format!("returned {}, expected #{}", r.show(n), id))
                    }
                }
                _ => Err("returned the wrong kind of result".to_string()),
            }
        }
    }
}

pub struct Step<'a> {
    pub before: &'a Model,
    pub op: Op,
    pub out: &'a Out,
    pub after: &'a Model,
    pub real: &'a Real,
    /// What `Plan::read` gave for every node, before the operation.
    pub answers: &'a [Option<String>],
}
pub type Read<'a> = dyn Fn(&Model, &Real, Id) -> Result<String, String> + Sync + 'a;
pub type Asking<'a> = dyn Fn(usize, &Model, &Real) -> Result<(), String> + 'a;
pub type View<'a> = dyn Fn(&Model, &Real) -> Result<(), String> + Sync + 'a;
pub type Hook<'a> = dyn Fn(&Step<'_>) -> Result<(), String> + Sync + 'a;

#[derive(Clone, Copy)]
pub struct Plan<'a> {
    pub depth: usize,
    pub mask: u32,
    /// Which outcomes this property looks at.
    pub successes: bool,
    pub failures: bool,
    pub dedupe: bool,
    /// Further checks of a state.
    pub view: Option<&'a View<'a>>,
    /// Repeat every history with the questions asked in each of its states, too.
    pub asked: bool,
    /// And with the questions asked in one of its states only, in the last one with each of them
    /// last, and first after the operation.
    pub turns: bool,
    /// Further checks after a transition.
    pub hook: Option<&'a Hook<'a>>,
    /// Answers of a node to every query; asking must change nothing, and asking again must give
    /// the same.
    pub read: Option<&'a Read<'a>>,
    /// Checks on a state (the initial one, and every one newly found).
    pub max_states: usize,
    /// Part of the time budget after which this world stops.
    pub until: f64,
}
impl Default for Plan<'_> {
    fn default() -> Self {
        Plan {
            depth: usize::MAX,
            mask: ALL,
            successes: true,
            failures: true,
            dedupe: true,
            view: None,
            asked: true,
            turns: false,
            hook: None,
            read: None,
            max_states: 4_000_000,
            until: 1.0,
        }
    }
}

impl Plan<'_> {
    /// With every question asked last before, and first after, every operation.
    pub fn turns(self, depth: usize) -> Self {
        Plan { turns: true, depth, ..self }
    }
}

struct St {
    m: Model,
    path: Vec<Op>,
}

pub struct Explored {
    pub states: u64,
    pub transitions: u64,
    pub depth: usize,
    pub complete: bool,
}

fn show_path(path: &[Op]) -> String {
    path.iter()
        .map(|o| format!("{:?}", o))
        .collect::<Vec<_>>()
        .join(" ; ")
}

pub fn explore(ctx: &Ctx, w: &World, plan: &Plan<'_>) -> Explored {
    let r = explore_heard(ctx, w, plan, true);
    // and once more without anybody listening to what is logged, and with documents that have a
    // declaration and a document type: all of it, or the first step
    // (worlds of a family differ in size only: the small ones do)
    let family = w.name.ends_with(|c: char| c.is_ascii_digit());
    if ctx.only.is_some() || (r.complete && (!family || (r.transitions <= 100 && w.model().nodes.len() <= 60))) {
        let small = r.transitions <= UNHEARD;
        let plan = Plan { depth: if small || ctx.only.is_some() { plan.depth } else { 1 }, ..*plan };
        unheard(|| dress(1, || explore_heard(ctx, w, &plan, false)));
    }
    r
}

fn explore_heard(ctx: &Ctx, w: &World, plan: &Plan<'_>, heard: bool) -> Explored {
    if let Some(only) = ctx.only.clone() {
        replay(ctx, w, plan, &only);
        return Explored {
            states: 0,
            transitions: 0,
            depth: 0,
            complete: true,
        };
    }
    let first = w.model();
    let mut visited: HashSet<u128> = HashSet::new();
    visited.insert(first.hash128());
    // the initial state itself
    match guard(|| w.real(&[]).and_then(|r| questions(plan, &first, &r))) {
        Ok(Ok(())) => (),
        Ok(Err(e)) | Err(e) => {
            ctx.violation(format!("world={} path=[] op=none", w.name), e);
            return Explored {
                states: 1,
                transitions: 0,
                depth: 0,
                complete: false,
            };
        }
    }
    let mut frontier = vec![St {
        m: first,
        path: vec![],
    }];
    let mut states = 1u64;
    let transitions = std::sync::atomic::AtomicU64::new(0);
    let mut depth = 0;
    let mut complete = true;
    let mut closed = false;
    let mut sample = String::new();
    ctx.states.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    while !frontier.is_empty() && depth < plan.depth {
        if ctx.stop() || ctx.over_budget_part(plan.until) || states as usize > plan.max_states {
            complete = false;
            break;
        }
        depth += 1;
        let last = depth == plan.depth;
        let local: Vec<Mutex<HashSet<u128>>> =
            (0..THREADS).map(|_| Mutex::new(HashSet::new())).collect();
        let visited_ref = &visited;
        let frontier_ref = &frontier;
        let transitions_ref = &transitions;
        if let Some(st) = frontier.last() {
            sample = format!("world={} path=[{}]", w.name, show_path(&st.path));
        }
        // few states: their operations are shared among the threads
        let parts = if frontier.len() < 4 * THREADS { 4 * THREADS } else { 1 };
        let items = (frontier.len() * parts) as u64;
        let found = ctx.par_collect(items, |th, i, out: &mut Vec<(u128, Option<St>)>| {
            let st = &frontier_ref[i as usize / parts];
            let mut mine = local[th.t].lock().unwrap();
            expand(
                th,
                w,
                plan,
                st,
                (i as usize % parts, parts),
                &mut |hash, m, op| {
                    if plan.dedupe && (visited_ref.contains(&hash) || !mine.insert(hash)) {
                        return;
                    }
                    let next = if last {
                        None
                    } else {
                        let mut path = st.path.clone();
                        path.push(op);
                        Some(St { m, path })
                    };
                    out.push((hash, next));
                },
                transitions_ref,
            );
        });
        let mut next = vec![];
        closed = true;
        for (hash, st) in found {
            if plan.dedupe && !visited.insert(hash) {
                continue;
            }
            states += 1;
            closed = false;
            if let Some(st) = st {
                next.push(st);
            }
        }
        if ctx.stop() {
            complete = false;
            break;
        }
        frontier = next;
    }
    if !frontier.is_empty() && depth < plan.depth {
        complete = false;
    }
    ctx.sample(sample);
    let t = transitions.into_inner();
    ctx.states
        .fetch_add(states - 1, std::sync::atomic::Ordering::Relaxed);
    let how = if !complete {
        "stopped by a cap"
    } else if closed {
        "every reachable state"
    } else {
        "every history to this depth"
    };
    if heard {
        ctx.note_world(&w.name, states, t, depth, how);
        if !complete {
            ctx.set_capped();
        }
    }
    Explored {
        states,
        transitions: t,
        depth,
        complete,
    }
}

fn grows(op: &Op) -> bool {
    matches!(op, Op::Split(..) | Op::Clone(..))
}

fn expand(
    th: &mut Th<'_>,
    w: &World,
    plan: &Plan<'_>,
    st: &St,
    (part, parts): (usize, usize),
    emit: &mut dyn FnMut(u128, Model, Op),
    transitions: &std::sync::atomic::AtomicU64,
) {
    let path_text = show_path(&st.path);
    th.mark_a(format_args!("world={} path=[{}]", w.name, path_text));
    let key = |op: &Op| format!("world={} path=[{}] op={:?}", w.name, path_text, op);
    let mut shared: Option<Real> = None;
    let mut n = 0;
    for op in (w.ops)(&st.m).into_iter().skip(part).step_by(parts) {
        if !op.possible(&st.m) || grows(&op) && st.m.nodes.len() >= w.max_nodes {
            continue;
        }
        let mut after = st.m.clone();
        let out = after.apply(op);
        let (ok, quiet) = match &out {
            Out::Unclaimed => continue,
            Out::Any | Out::Err(_) => (false, true),
            Out::Ok(_, made) => (true, made.is_empty() && after == st.m),
        };
        let wanted = if ok { plan.successes } else { plan.failures };
        if wanted {
            n += 1;
            th.mark_b(format_args!(" op={:?}", op));
            let replayed = !quiet || shared.is_none();
            let mut r = check_one(w, plan, st, op, &out, &after, quiet, &mut shared);
            th.transitions += 1;
            th.validated += replayed as u64;
            if ok && !quiet && r.is_ok() {
                r = asked_along(w, plan, st, op, &out, &after);
                th.validated += plan.asked as u64;
            }
            if let Err(e) = r {
                th.violation(key(&op), e);
                shared = None;
                continue;
            }
        }
        if ok && !quiet {
            let gone = after.garbage();
            if !gone.is_empty() {
                after.forget(&gone);
            }
            let hash = after.hash128();
            emit(hash, after, op);
        }
    }
    transitions.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
}

#[allow(clippy::too_many_arguments)]
fn check_one(
    w: &World,
    plan: &Plan<'_>,
    st: &St,
    op: Op,
    out: &Out,
    after: &Model,
    quiet: bool,
    shared: &mut Option<Real>,
) -> Result<(), String> {
    let fresh = |path: &[Op]| -> Result<Real, String> {
        match guard(|| w.real(path)) {
            Ok(r) => r.map_err(|e| format!("while repeating the path: {}", e)),
            Err(p) => Err(format!("while repeating the path: {}", p)),
        }
    };
    let mut own: Option<Real> = None;
    let real: &mut Real = if quiet {
        if shared.is_none() {
            *shared = Some(fresh(&st.path)?);
        }
        shared.as_mut().unwrap()
    } else {
        own.insert(fresh(&st.path)?)
    };
    let mut answers: Vec<Option<String>> = vec![];
    if let Some(read) = plan.read {
        let r = guard(|| {
            answers = all_answers(read, &st.m, real)?;
            real.compare(&st.m, plan.mask).map_err(|e| format!("after queries: {}", e))?;
            let again = all_answers(read, &st.m, real)?;
            same_answers("asked again", &st.m, &answers, &again, &|_| true)
        });
        match r {
            Ok(r) => r?,
            Err(p) => return Err(format!("a query {}", p)),
        }
    }
    let r = real_step(real, after, op, out).and_then(|_| {
        match guard(|| {
            questions(plan, after, real)?;
            if let Some(h) = plan.hook {
                h(&Step {
                    before: &st.m,
                    op,
                    out,
                    after,
                    real,
                    answers: &answers,
                })?;
            }
            Ok(())
        }) {
            Ok(r) => r,
            Err(p) => Err(format!("reading the state afterwards {}", p)),
        }
    });
    r
}

/// Everything a property looks at in a state.
fn questions(plan: &Plan<'_>, m: &Model, r: &Real) -> Result<(), String> {
    r.compare(m, plan.mask)?;
    match plan.view {
        Some(v) => v(m, r),
        None => Ok(()),
    }
}

/// The same history when its states were looked at along the way.
fn asked_along(w: &World, plan: &Plan<'_>, st: &St, op: Op, out: &Out, after: &Model) -> Result<(), String> {
    if !plan.asked {
        return Ok(());
    }
    let steps = st.path.len();
    let all = |m: &Model, r: &Real, first: usize| in_turn(first, &|| questions(plan, m, r));
    let once = |first: usize, at: &dyn Fn(usize) -> bool| -> Result<usize, String> {
        let r = guard(|| {
            let ask = |i: usize, m: &Model, r: &Real| {
                if at(i) {
                    all(m, r, first + 1)?;
                }
                Ok(())
            };
            let mut r = w.real_asked(&st.path, Some(&ask))?;
            real_step(&mut r, after, op, out)?;
            let n = all(after, &r, first)?;
            if let (Some(read), true) = (plan.read, first == 0) {
                let mut plain = w.real(&st.path)?;
                real_step(&mut plain, after, op, out)?;
                let (a, b) = (all_answers(read, after, &plain)?, all_answers(read, after, &r)?);
                same_answers("afterwards", after, &a, &b, &|_| true)?;
            }
            Ok(n)
        });
        match r {
            Ok(r) => r,
            Err(p) => Err(p),
        }
    };
    let n = once(0, &|_| true).map_err(|e| format!("{} (after asking in every state)", e))?;
    if plan.turns {
        for i in 0..=steps {
            once(0, &|j| i == j).map_err(|e| format!("{} (after asking in the state after {} steps)", e, i))?;
        }
        for first in 1..n {
            once(first, &|j| j == steps).map_err(|e| format!("{} (after asking question {} just before)", e, first))?;
        }
    }
    Ok(())
}

pub fn all_answers(read: &Read<'_>, m: &Model, r: &Real) -> Result<Vec<Option<String>>, String> {
    (0..m.nodes.len())
        .map(|i| if m.n(i).live { read(m, r, i).map(Some) } else { Ok(None) })
        .collect()
}
pub fn same_answers(
    when: &str,
    m: &Model,
    a: &[Option<String>],
    b: &[Option<String>],
    which: &dyn Fn(Id) -> bool,
) -> Result<(), String> {
    for i in 0..a.len().min(b.len()) {
        if a[i].is_some() && which(i) && a[i] != b[i] {
            let (x, y) = (a[i].as_deref().unwrap(), b[i].as_deref().unwrap_or(""));
            let mut d = (x, y);
            for (l, r) in x.lines().zip(y.lines()) {
                if l != r {
                    d = (l, r);
                    break;
                }
            }
            return Err(format!("{}, #{} ({:?} {}) answers {:?} instead of {:?}", when, i, m.n(i).k, m.n(i).name, d.1, d.0));
        }
    }
    Ok(())
}

/// Every two of the worlds one after the other, in turn and in the same memory: each is built, asked,
/// edited and asked again, and released before the other is built, or only after that.
pub fn succession(ctx: &Ctx, worlds: &[World], plan: &Plan<'_>) {
    const ROUNDS: usize = 6;
    let n = worlds.len();
    let names: Vec<&str> = worlds.iter().map(|w| w.name.as_str()).collect();
    ctx.note(format!("every two of {:?} one after the other, {} times in turn, with the first released or kept", names, ROUNDS));
    let build = |w: &World| -> Result<Pair, String> {
        let mut p = Pair::new(&w.spec)?;
        p.steps(&w.init)?;
        Ok(p)
    };
    let look = |p: &Pair, w: &World| -> Result<(), String> {
        p.compare(plan.mask)
            .and_then(|_| plan.view.map_or(Ok(()), |v| v(&p.m, &p.r)))
            .map_err(|e| format!("{}: {}", w.name, e))
    };
    ctx.par((n * n * 2) as u64, |th, i| {
        let i = i as usize;
        let (a, b, kept) = (&worlds[i / 2 / n], &worlds[i / 2 % n], i % 2 == 1);
        case(th, format_args!("succession of {} and {} kept={}", a.name, b.name, kept), |th| {
            for _ in 0..ROUNDS {
                let mut held: Option<(Pair, &World)> = None;
                for (first, w) in [(true, a), (false, b)] {
                    let mut p = build(w)?;
                    look(&p, w)?;
                    for op in (w.ops)(&p.m).into_iter().take(60) {
                        if !op.possible(&p.m) || grows(&op) || matches!(p.m.clone().apply(op), Out::Unclaimed) {
                            continue;
                        }
                        p.step(op).map_err(|e| format!("{}: {}", w.name, e))?;
                        th.transitions += 1;
                        look(&p, w)?;
                    }
                    if let Some((one, of)) = &held {
                        look(one, of)?;
                    }
                    if first && kept {
                        held = Some((p, w));
                    }
                }
            }
            Ok(())
        });
    });
}

/// From every state up to `start` steps away, every operation, and every sequence of up to `len`
/// that leads back, refused operations and such without effect too, over and over again.
pub fn again(ctx: &Ctx, w: &World, plan: &Plan<'_>, start: usize, len: usize, times: usize) {
    let usable = |m: &Model, op: &Op| op.possible(m) && !grows(op) && !matches!(op, Op::Drop(_));
    let step = |m: &Model, op: Op| -> Option<Model> {
        let mut after = m.clone();
        if let Out::Unclaimed = after.apply(op) {
            return None;
        }
        let gone = after.garbage();
        after.forget(&gone);
        Some(after)
    };
    let mut seen: HashSet<u128> = HashSet::from([w.model().hash128()]);
    let mut starts = vec![(w.model(), vec![])];
    let mut from = 0;
    for _ in 0..start {
        let to = starts.len();
        for i in from..to {
            let (m, path): (Model, Vec<Op>) = starts[i].clone();
            for op in (w.ops)(&m) {
                if !usable(&m, &op) {
                    continue;
                }
                let Some(after) = step(&m, op) else { continue };
                if seen.insert(after.hash128()) {
                    let mut p = path.clone();
                    p.push(op);
                    starts.push((after, p));
                }
            }
        }
        from = to;
    }
    let mut cycles: Vec<(usize, Vec<Op>)> = vec![];
    for (i, (m, _)) in starts.iter().enumerate() {
        let mut frontier = vec![(m.clone(), vec![])];
        for _ in 0..len {
            let mut next = vec![];
            for (at, ops) in frontier {
                for op in (w.ops)(&at) {
                    let first = ops.is_empty();
                    if !usable(&at, &op) && !(first && grows(&op) && op.possible(&at)) {
                        continue;
                    }
                    let Some(after) = step(&at, op) else { continue };
                    let mut ops: Vec<Op> = ops.clone();
                    ops.push(op);
                    if first || after == *m {
                        cycles.push((i, ops.clone()));
                    }
                    if after != *m && after != at && !grows(&op) {
                        next.push((after, ops));
                    }
                }
            }
            frontier = next;
        }
    }
    ctx.note_world(
        &w.name,
        starts.len() as u64,
        (cycles.iter().map(|c| c.1.len()).sum::<usize>() * times) as u64,
        len,
        &format!("every operation, and every sequence leading back, {} times", times),
    );
    let (starts, cycles) = (&starts, &cycles);
    ctx.par(cycles.len() as u64, |th, i| {
        let (from, ops) = &cycles[i as usize];
        let path = &starts[*from].1;
        case(th, format_args!("again world={} path=[{}] ops=[{}]", w.name, show_path(path), show_path(ops)), |th| {
            let mut p = Pair::new(&w.spec)?;
            p.steps(&w.init)?;
            p.steps(path)?;
            th.transitions += (times * ops.len()) as u64;
            for n in 1..=times {
                for op in ops {
                    if !op.possible(&p.m) {
                        return Ok(());
                    }
                    p.step(*op).map_err(|e| format!("{} (time {})", e, n))?;
                }
                let r = if n < 5 || n.is_power_of_two() || (n - 1).is_power_of_two() || n % 100 < 2 || n == times {
                    questions(plan, &p.m, &p.r)
                } else {
                    p.r.compare(&p.m, plan.mask)
                };
                r.map_err(|e| format!("{} (time {})", e, n))?;
            }
            Ok(())
        });
    });
}

/// Repeat one recorded case: "world=W path=[a ; b] op=c".
fn replay(ctx: &Ctx, w: &World, plan: &Plan<'_>, only: &str) {
    let Some(rest) = only.strip_prefix(&format!("world={} path=[", w.name)) else {
        return;
    };
    let Some((path, op)) = rest.rsplit_once("] op=") else {
        return;
    };
    let mut m = w.model();
    let mut done: Vec<Op> = vec![];
    let steps: Vec<&str> = path
        .split(" ; ")
        .filter(|s| !s.is_empty())
        .chain([op])
        .collect();
    println!("world {}: {:?} then {:?}", w.name, w.spec, w.init);
    for (i, s) in steps.iter().enumerate() {
        if *s == "none" {
            break;
        }
        let Some(op) = (w.ops)(&m).into_iter().find(|o| format!("{:?}", o) == **s) else {
            println!("step {} is not offered in this state", s);
            return;
        };
        let before = m.clone();
        let mut after = m.clone();
        let out = after.apply(op);
        println!("step {:?}: expected {:?}", op, out);
        let st = St {
            m: before.clone(),
            path: done.clone(),
        };
        let mut r = check_one(w, plan, &st, op, &out, &after, false, &mut None);
        if r.is_ok() && matches!(out, Out::Ok(..)) && after != before {
            r = asked_along(w, plan, &st, op, &out, &after);
        }
        if let Err(e) = r {
            println!("  {}", e);
            ctx.violation(only, e);
            return;
        }
        let _ = i;
        model_step(&mut m, op);
        done.push(op);
    }
    if steps.last() == Some(&"none") {
        if let Ok(Err(e)) | Err(e) = guard(|| w.real(&[]).and_then(|r| questions(plan, &w.model(), &r))) {
            ctx.violation(only, e);
        }
    }
    println!("no violation");
}

// ------------------------------------------------------------------------------------------------

/// A model and the library side by side, stepped together.
pub struct Pair {
    pub m: Model,
    pub r: Real,
}
impl Pair {
    pub fn new(spec: &[Spec]) -> Result<Pair, String> {
        let mut p = Pair {
            m: Model::default(),
            r: Real::default(),
        };
        for s in spec {
            spec_model(&mut p.m, *s);
            guard(|| p.r.make(*s)).and_then(|x| x)?;
        }
        Ok(p)
    }
    pub fn step(&mut self, op: Op) -> Result<Out, String> {
        let out = self.m.apply(op);
        real_step(&mut self.r, &self.m, op, &out).map_err(|e| format!("{:?}: {}", op, e))?;
        let gone = self.m.garbage();
        if !gone.is_empty() {
            self.m.forget(&gone);
            self.r.forget(&gone, &self.m);
        }
        Ok(out)
    }
    pub fn steps(&mut self, ops: &[Op]) -> Result<(), String> {
        for op in ops {
            self.step(*op)?;
        }
        Ok(())
    }
    pub fn compare(&self, mask: u32) -> Result<(), String> {
        match guard(|| self.r.compare(&self.m, mask)) {
            Ok(r) => r,
            Err(p) => Err(format!("reading the state {}", p)),
        }
    }
}

/// One enumerated case: mark it, run it, report what it says.
pub fn case(
    th: &mut Th<'_>,
    key: std::fmt::Arguments<'_>,
    f: impl FnOnce(&mut Th<'_>) -> Result<(), String>,
) {
    let only = th.ctx.only.clone();
    if let Some(only) = only {
        if only != key.to_string() {
            return;
        }
    }
    th.mark_a(key);
    th.states += 1;
    th.validated += 1;
    let r = match guard(|| f(th)) {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    if let Err(e) = r {
        th.violation(key.to_string(), e);
    }
}

/// `Err` unless both are equal.
pub fn same<T: PartialEq + std::fmt::Debug>(
    what: impl std::fmt::Display,
    got: T,
    want: T,
) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {:?}, expected {:?}", what, got, want))
    }
}
