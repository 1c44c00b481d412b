//! C36: what happens when a program ends.  The real end-of-program code runs
//! over generated handlers that succeed, raise, exit, and register further
//! handlers; the calls, their order and the status are judged.

#![allow(dead_code)]

use std::cell::RefCell;
use vh::{vcheck, Case, Verdict};
use world::*;

#[path = "../ops_world.rs"]
pub mod world;
pub mod ast {
    pub enum NReal {
        Integer(i64),
        Bignum(num::BigInt),
        Float(f64),
    }
}
pub mod bytecode {
    #[derive(Clone, Copy)]
    pub struct BytecodePtr;
    impl BytecodePtr {
        /// # Safety
        /// Never dereferenced.
        pub unsafe fn from_raw(_: *mut u64) -> Option<Self> {
            None
        }
    }
}
pub mod value {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum RoundHalf {
        Up,
        Down,
        Even,
    }
}

type Kind = MonorubyErrKind;

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Fine,
    Exit(u8),
    Fail(u32),
}

#[derive(Clone, Debug)]
struct Script {
    end: End,
    /// Handlers and finalizers registered while this one runs.
    at_exit: Vec<usize>,
    finalizers: Vec<usize>,
}

#[derive(Default)]
struct World {
    scripts: Vec<Script>,
    values: Vec<Value>,
    /// (script, arguments, $! on entry)
    seen: Vec<(usize, Vec<Value>, Option<Value>)>,
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}

/// A finalizer's object.
fn object_id(n: usize) -> u64 {
    n as u64 * 8 + 16
}

fn handler(vm: &mut Executor, g: &mut Globals, n: usize, args: &[Value]) -> std::result::Result<Value, MonorubyErr> {
    W.with_borrow_mut(|w| {
        w.seen.push((n, args.to_vec(), vm.errinfo));
        let s = w.scripts[n].clone();
        for i in s.at_exit {
            g.at_exit_handlers.push(w.values[i]);
        }
        for i in s.finalizers {
            g.finalizers.push((object_id(i), w.values[i]));
        }
        match s.end {
            End::Fine => Ok(Value::integer(n as i64)),
            End::Exit(c) => Err(MonorubyErr::new(Kind::SystemExit(c), "exit")),
            End::Fail(k) => Err(MonorubyErr::new(Kind::Scripted(k), format!("failure {k}"))),
        }
    })
}

fn run(case: &mut Case) -> Verdict {
    case.nontrivial();
    for _ in 0..if case.thorough { 12 } else { 6 } {
        vh::step();
        reset_heap();
        one(case)?;
    }
    Ok(())
}

fn one(case: &mut Case) -> Verdict {
    let mut vm = Executor::default();
    let mut g = Globals::default();
    vm.hook = Some(handler);
    // the program
    let mut scripts: Vec<Script> = vec![];
    let calm = case.rng.chance(1, 4);
    let script = |case: &mut Case, scripts: &mut Vec<Script>| {
        let end = match case.rng.weighted(if calm { &[1, 0, 0] } else { &[5, 2, 3] }) {
            0 => End::Fine,
            1 => End::Exit(*case.rng.pick(&[0, 1, 2, 7, 127, 128, 255])),
            _ => End::Fail(1000 + case.rng.below(9000) as u32),
        };
        scripts.push(Script { end, at_exit: vec![], finalizers: vec![] });
        scripts.len() - 1
    };
    let many = if case.rng.chance(1, 6) { 30 } else { 6 };
    let exits: Vec<usize> = (0..case.rng.us(many)).map(|_| script(case, &mut scripts)).collect();
    let trap: Option<usize> = case.rng.chance(1, 3).then(|| script(case, &mut scripts));
    let finals: Vec<usize> = (0..case.rng.us(4)).map(|_| script(case, &mut scripts)).collect();
    // some of them register more, two deep
    for round in 0..2 {
        let n = scripts.len();
        for i in 0..n {
            // a finalizer comes too late to register an exit handler
            let fin = finals.contains(&i) || scripts.iter().any(|s| s.finalizers.contains(&i));
            if case.rng.chance(1, 5 + 3 * round) {
                let k = case.rng.us(3) + 1;
                for _ in 0..k {
                    let late = fin || case.rng.chance(1, 3);
                    let s = script(case, &mut scripts);
                    if late {
                        scripts[i].finalizers.push(s);
                    } else {
                        scripts[i].at_exit.push(s);
                    }
                }
            }
        }
    }
    let quiet = case.rng.chance(1, 2);
    let values: Vec<Value> = (0..scripts.len()).map(|i| Value::custom(vec![("call", Act::Do(i))], false)).collect();
    let stderr = Value::custom(vec![("write", if case.rng.chance(1, 5) { Act::Raise(MonorubyErr::new(Kind::Scripted(1), "closed")) } else { Act::Give(Value::nil()) })], false);
    g.stderr = stderr;
    g.verbose = if quiet { Value::nil() } else { Value::bool(case.rng.chance(1, 2)) };
    g.exit_trap_handler = trap.map(|i| values[i]);
    g.at_exit_handlers = exits.iter().map(|i| values[*i]).collect();
    g.finalizers = finals.iter().map(|i| (object_id(*i), values[*i])).collect();
    let before = Value::symbol(IdentId::get_id("before"));
    vm.errinfo = Some(before);
    W.with_borrow_mut(|w| *w = World { scripts: scripts.clone(), values: values.clone(), seen: vec![] });
    case.op(|| format!("trap {trap:?} at_exit {exits:?} finalizers {finals:?} scripts {scripts:?} quiet {quiet}"));

    let status = vm.run_exit_handlers(&mut g);

    // what must have happened
    let mut stack = exits.clone();
    stack.extend(trap);
    let mut order = vec![];
    let mut pending = finals.clone();
    let mut info = before;
    let mut infos = vec![];
    let mut shown = vec![];
    let (mut chosen, mut failed) = (None, false);
    while let Some(i) = stack.pop() {
        order.push(i);
        infos.push(info);
        stack.extend(&scripts[i].at_exit);
        pending.extend(&scripts[i].finalizers);
        match scripts[i].end {
            End::Fine => {}
            End::Exit(c) => chosen = Some(c as i32),
            End::Fail(k) => {
                failed = true;
                shown.push(k);
                info = Value::integer(k as i64);
            }
        }
    }
    let seen = W.with_borrow(|w| w.seen.clone());
    let got: Vec<usize> = seen.iter().map(|s| s.0).collect();
    vcheck!(got.len() >= order.len() && got[..order.len()] == order, "exit handlers ran as {got:?}, expected {order:?} first");
    for (k, i) in order.iter().enumerate() {
        vcheck!(seen[k].1.is_empty(), "exit handler {i} was given {:?}", seen[k].1);
        vcheck!(seen[k].2 == Some(infos[k]), "exit handler {i} saw $! = {:?}, expected {:?}", seen[k].2, infos[k]);
    }
    case.count_n("handlers_run", order.len() as u64);
    // finalizers, each once, about its own object; any order
    let mut all = pending.clone();
    let mut k = 0;
    while k < all.len() {
        all.extend(&scripts[all[k]].finalizers.clone());
        k += 1;
    }
    let mut rest: Vec<usize> = got[order.len()..].to_vec();
    rest.sort();
    all.sort();
    vcheck!(rest == all, "finalizers ran as {:?}, expected each of {all:?}", &got[order.len()..]);
    for s in &seen[order.len()..] {
        vcheck!(s.1 == [Value::integer(object_id(s.0) as i64)], "finalizer {} was given {:?}", s.0, s.1);
    }
    case.count_n("finalizers_run", all.len() as u64);
    vcheck!(g.at_exit_handlers.is_empty() && g.finalizers.is_empty() && g.exit_trap_handler.is_none(), "handlers left registered");
    // reports
    let reported: Vec<MonorubyErr> = SHOWN.with_borrow(|s| s.clone());
    let want: Vec<Kind> = shown.iter().map(|k| Kind::Scripted(*k)).collect();
    vcheck!(reported.iter().map(|e| e.kind.clone()).collect::<Vec<_>>() == want, "reported {reported:?}, expected {want:?}");
    let mut warned: Vec<String> = vm.calls.iter().filter(|c| c.recv == stderr && c.id.name() == "write").map(|c| format!("{:?}", c.args)).collect();
    let bad: Vec<u32> = all
        .iter()
        .filter_map(|i| match scripts[*i].end {
            End::Fail(k) => Some(k),
            _ => None,
        })
        .collect();
    if quiet {
        vcheck!(warned.is_empty(), "finalizer failures shown with warnings off: {warned:?}");
    } else {
        vcheck!(warned.len() == bad.len(), "{} finalizers failed, {} warnings", bad.len(), warned.len());
        for k in &bad {
            let text = format!("failure {k}");
            let p = warned.iter().position(|w| w.contains(&text));
            vcheck!(p.is_some(), "no warning about {text}");
            warned.remove(p.unwrap());
        }
        case.count_n("finalizer_warnings", bad.len() as u64);
    }
    let want = chosen.or(failed.then_some(1));
    vcheck!(status == want, "status {status:?}, expected {want:?}");
    case.count(match want {
        None => "status_left_alone",
        Some(_) if chosen.is_some() => "status_chosen_by_handler",
        _ => "status_of_failure",
    });
    if chosen.is_some() && failed {
        case.count("exit_and_failure_mixed");
    }
    if got.len() > exits.len() + finals.len() + trap.is_some() as usize {
        case.count("registered_while_ending");
    }
    if trap.is_some() {
        case.count("traps_run");
    }
    case.sig(got.iter().fold(status.unwrap_or(-1) as u64, |h, i| h.wrapping_mul(31).wrapping_add(*i as u64 + 1)));
    // nothing happens a second time
    let n = seen.len();
    let again = vm.run_exit_handlers(&mut g);
    vcheck!(again.is_none() && W.with_borrow(|w| w.seen.len()) == n, "handlers ran again");
    Ok(())
}

fn main() {
    vh::main_loop("C36", run);
}
