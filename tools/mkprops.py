#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list in one editable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=observe, hook_needed=hook)))
CO="src/coroutine.rs"; UN="src/unwind.rs"; UT="src/util.rs"; TR="src/trap.rs"
X64="src/arch/x86_64.rs"; X86="src/arch/x86.rs"; AM="src/arch/mod.rs"
SU="src/stack/unix.rs"; SM="src/stack/mod.rs"; SV="src/stack/valgrind.rs"

p("C01","Suspending returns to the latest resumer; resuming continues where it left off",
 "When a coroutine suspends, returns or ends, control goes back to exactly the context that most recently resumed it, whichever coroutine, helper stack or call depth that was and even if a different context resumed it before. Resuming continues it directly after the suspend it last executed (or at the start of its function the first time), on its own stack, with everything between untouched. No operation ever runs any other coroutine.",
 ["histories","programs"],
 "every sequence of create/resume/suspend/return over any number of coroutines, nested to any depth, resumed from changing places (main, other coroutines, on_stack and on_parent_stack sections, destructors)",
 "The unit tests only resume one coroutine from one function; no test nests coroutines or resumes one from two different places, so a stale parent link or a confused stack pointer is invisible.",
 [CO,X64,X86],[("switch_and_link / switch_yield / switch_and_reset",X64+", "+X86),("parent link rewritten on every resume",X64+" switch_yield label 2"),("stack_ptr bookkeeping",CO+" resume_inner")],
 ["Coroutine::resume","Yielder::suspend","address of locals relative to the stack bounds"])
p("C02","Values cross a switch intact, with one owner, for every type",
 "The value given to resume is exactly the value the coroutine's function or pending suspend receives; the value given to suspend or returned from the function is exactly what that resume call yields. This holds bit for bit for every input, yield and return type (zero-sized to larger than a machine word, any alignment, niche or destructor), and the value is moved: never duplicated, never dropped in transit.",
 ["inputs","programs","histories"],
 "every combination of input/yield/return type shapes (size, alignment, niche, destructor) and every position in a history of switches",
 "Tests pass (), i32, f64 and one String once; sizes around the word boundary, over-aligned types, large by-pointer values, and mixed shapes are never transferred, and nothing counts destructions.",
 [UT,CO,UN],[("encode_val / decode_val",UT),("by-pointer transfer of large values",UT),("Result wrapping of input and return",CO)],
 ["Coroutine::resume result","Yielder::suspend result","initial input","CoroutineResult::as_yield/as_return","Drop of the values"])
p("C03","A coroutine is fresh, suspended or done, and reports it correctly",
 "started() is false until the first resume (or until the coroutine is ended without being run) and true ever after; done() is true exactly from the moment the coroutine has returned, panicked, been unwound, been reset or trapped out, and never reverts. Resuming a done coroutine panics without running anything and leaves it done, and into_stack on a coroutine that is not done panics instead of handing out the stack.",
 ["histories"],
 "every history of operations on a coroutine, including failing ones, with the flags read after every step",
 "Tests read the flags along two or three fixed happy paths; never after a panic, a swallowed unwind, a trap or a reset, and never resume a done coroutine.",
 [CO],[("stack_ptr None = done; initial_stack_ptr = fresh",CO),("expect on resume, assert in into_stack",CO)],
 ["Coroutine::started","Coroutine::done","Coroutine::resume","Coroutine::into_stack"])
p("C04","Every object is destroyed exactly once",
 "Every object the user hands over - the closure and its captures, locals on coroutine stacks, values in flight, results, panic payloads - is destroyed exactly once or handed back, along every path: completion, panic, forced unwinding, dropping before the first resume or while suspended, rejected calls and panicking destructors. The only exceptions are the documented leaks: what is on the stack when force_reset or trap recovery discards it.",
 ["histories","programs","fault_sequences"],
 "every history including panics at every point, panicking destructors, dropping and unwinding in every state",
 "One test checks two AtomicBool flags on three paths; a flag cannot see a double drop, and values in transit, payloads, rejected inputs and panicking destructors are not observed.",
 [CO,UT,UN,AM],[("ManuallyDrop around every switch",CO),("drop_initial_obj",X64+", "+X86),("Drop for Coroutine",CO),("FuncOrResult union in on_stack",CO)],
 ["destructor count per object"])
p("C05","A panic leaves a coroutine through its latest resumer, payload intact",
 "A panic that escapes the coroutine's function destroys everything live on that coroutine's stack, innermost first, and then continues as a panic, with the very same payload, out of the resume call that most recently resumed the coroutine. Afterwards the coroutine is done; panics caught inside the coroutine do not escape, and the resumer can catch the panic and carry on.",
 ["histories","programs","fault_sequences"],
 "every nesting of coroutines, on_stack and on_parent_stack sections and catch scopes, with a panic at every point",
 "Tests panic once, on the first resume, directly under main, and only look at the message; no nesting, no change of resumer, no catch-and-continue, no locals order.",
 [UN,CO],[("catch_unwind_at_root / maybe_resume_unwind",UN),("Return(Err) path",CO+" resume")],
 ["catch_unwind around resume","destructor order","payload identity","done()"])
p("C06","force_unwind destroys a suspended coroutine's objects and reports refusal",
 "On a suspended coroutine force_unwind makes the pending suspend unwind, so that everything live on its stack is destroyed innermost first, on its own stack, and returns normally with the coroutine done; on a fresh one it destroys the closure without running it; on a done one it does nothing. If the coroutine catches the unwind and then suspends again or returns, force_unwind panics (and the coroutine is respectively still suspended and resumable, or done); if another panic - even the unwinding of another coroutine - comes out instead, that panic propagates to the caller.",
 ["histories","programs","fault_sequences"],
 "every suspended state (any depth of locals, catch scopes, nested held coroutines and on_stack sections), every reaction of the coroutine to the unwind, repeated attempts",
 "The single test unwinds a coroutine with two captured values and no catch; refusal, replacement panics, foreign unwinds and nesting are never executed.",
 [CO,UN],[("force_unwind_slow",CO),("ForcedUnwind payload compared by stack pointer",CO),("maybe_force_unwind",UN)],
 ["Coroutine::force_unwind","destructor order","done/started afterwards"])
p("C07","Dropping a coroutine always cleans it up completely, or aborts",
 "Dropping a coroutine in any state - also while a panic is unwinding the dropping thread, from a destructor, or as a local of another coroutine that is itself being unwound - destroys everything it owns before its stack is released and then continues as if nothing had happened. If that clean-up fails (the unwind is swallowed, or a destructor panics) the process aborts: execution never continues past the failed drop.",
 ["histories","programs","fault_sequences"],
 "every state a coroutine can be dropped in, every owner (table, local of another coroutine, during unwinding), every failing reaction",
 "Tests drop coroutines only at the end of a test, mostly completed; dropping during unwinding, nested ownership and the abort paths are never run (an abort would kill the test).",
 [CO],[("Drop for Coroutine with abort guard",CO),("field order: stack released after unwinding",CO)],
 ["process continues or dies with SIGABRT","destructor order","release of the stack"])
p("C08","Without the unwind feature nothing unwinds: refusal or abort, never more",
 "Built without the unwind feature, a panic that would leave a coroutine's function or an on_stack closure aborts the process instead of running on; force_unwind on a suspended coroutine panics in the caller leaving it suspended and resumable, and dropping a suspended coroutine aborts. Everything else - switching, values, statuses, dropping fresh or done coroutines, panics caught inside - behaves exactly as with the feature.",
 ["configurations","histories","fault_sequences"],
 "every history of the no-unwind configuration, including a panic or a drop at every point",
 "The no-unwind test configurations just leave out the panic tests; no abort path and no refusal is ever executed.",
 [UN,CO],[("abort guard in catch_unwind_at_root",UN),("cfg(not(unwind)) panic in force_unwind_slow",CO)],
 ["process continues or dies with SIGABRT","Coroutine::force_unwind","Drop"])
p("C09","A switch preserves the caller's registers and stack contents",
 "From the point of view of each side, every crate operation that switches stacks (resume, suspend, force_unwind, drop, on_stack, on_parent_stack, recovery) behaves like an ordinary function call: callee-saved registers, frame pointer, stack pointer and all locals have their old values when it returns or unwinds, whatever the other side did with its registers and stack meanwhile.",
 ["inputs","programs","histories"],
 "every kind of switch in every nesting, with all callee-saved registers and the surrounding stack filled with arbitrary values on both sides",
 "Tests run compiler-generated code that rarely keeps anything in callee-saved registers across a switch; a missing clobber or a swapped restore shows only under register pressure.",
 [X64,X86],[("clobber lists",X64+", "+X86),("push/pop of rbp, rbx (esi)",X64+", "+X86),("stack_call_trampoline",X64+", "+X86)],
 ["values in callee-saved registers before and after each call","canaries in stack frames"])
p("C10","Code and objects are placed aligned and inside the stack they belong to",
 "Every function the crate starts on a stack (coroutine body, on_stack and on_parent_stack closures, recovery closure) is entered with the stack alignment the platform ABI requires and with its stack pointer inside the intended stack, and every captured object is aligned for its type wherever the crate puts it, for every size and alignment. Creating a coroutine whose closure cannot be placed safely panics, without writing outside the stack and without losing or duplicating the stack or the closure.",
 ["inputs","configurations"],
 "every closure size and alignment (including zero-sized, around the limit, and over-aligned types), every stack base alignment the Stack trait allows, every entry kind",
 "One test captures one 128-aligned byte on one page-aligned stack; ABI alignment at entry is not checked at all, nor is any closure near or over the size limit or any other base address.",
 [AM,X64,X86,CO],[("allocate_obj_on_stack",AM),("init_stack / setup_trap_trampoline padding",X64+", "+X86),("size assertion",AM)],
 ["stack pointer at function entry","address of captured objects","canaries around the stack","panic on creation"])
p("C11","on_stack runs the closure once on the given stack and returns its outcome",
 "on_stack executes the closure exactly once, entirely on the given stack, and returns exactly its result or re-raises exactly its panic on the caller's stack, after which the given stack has been released if it was passed by value. It nests with itself and with coroutines, and a coroutine may suspend and be resumed or unwound from inside such a section.",
 ["programs","histories","inputs"],
 "every result type shape, every nesting of on_stack with coroutines, suspension and panics inside the section",
 "Tests call on_stack once from the main stack with a String result or a panic; nesting, suspension inside the section, and the release of the stack are not covered.",
 [CO,X64,X86],[("FuncOrResult union",CO+" on_stack"),("stack_call_trampoline",X64+", "+X86)],
 ["address of locals in the closure","result / panic of on_stack","release of the stack"])
p("C12","on_parent_stack runs the closure on the resumer's stack without disturbing it",
 "on_parent_stack executes the closure exactly once on the stack of the context that most recently resumed the coroutine, below everything live there, and returns its result - or raises its panic - inside the coroutine, not in the parent. The parent's data, and its ability to be returned to, are unaffected, whatever the closure does: deep calls, new coroutines, on_stack, panics.",
 ["programs","histories"],
 "every parent (main, another coroutine, an on_stack section, another on_parent_stack section), every change of parent between suspensions, every closure behaviour",
 "Tests only take a backtrace and panic once inside it, with main as the parent; nothing checks where it runs, that the parent's frame survives, or nested parents.",
 [CO,X64,X86],[("ParentStack below the saved parent stack pointer",CO),("PARENT_LINK_OFFSET",X64+", "+X86)],
 ["address of locals in the closure","canaries in the parent's frames","result / panic at the caller"])
p("C13","A default stack is big enough, guarded, and returned to the system",
 "A DefaultStack of any requested size provides at least that many (and at least the minimum) usable bytes directly below its base, and below them an inaccessible guard page that is inside [limit, base); base and limit are aligned as required and different live stacks never overlap (a forked process has its own copy of each). Sizes that cannot be provided are reported as an error or panic without leaking a mapping; dropping the stack unmaps exactly its own memory.",
 ["inputs","fault_sequences","histories"],
 "every requested size from 0 to the largest integer (around every page boundary), every failing system call, every order of creating and dropping several stacks",
 "Tests only ever use the default size; guard position is exercised by one overflow, and size rounding, failure paths and unmapping are never looked at.",
 [SU,SM],[("rounding and guard page",SU+" DefaultStack::new"),("Drop unmaps",SU)],
 ["process memory map","writes to first/last byte and to the guard","DefaultStack::new result"])
p("C14","A stack belongs to one user at a time and is released exactly once, last",
 "A stack given to a coroutine or to on_stack is used by nobody else and stays allocated until everything on it has been destroyed; it is then released exactly once, or handed back exactly once, as the same stack, by into_stack. A stack handed back can be reused any number of times, for any kind of coroutine and after any way of ending, without its previous use having any effect.",
 ["histories"],
 "every history of creating, ending (return, panic, unwind, trap, reset), extracting, reusing and dropping coroutines over a set of stacks",
 "One test reuses one stack once after an overflow; release counts, order relative to destructors, and reuse after the other ways of ending are not observed.",
 [CO,SU,SM],[("into_stack via ptr::read + forget",CO),("field drop order",CO),("Stack for &mut S",SM)],
 ["release events of the stack object","identity of the stack from into_stack","live mappings"])
p("C15","Trap recovery ends the coroutine with the given result at its latest resumer",
 "If a trap inside a coroutine (bad access, illegal instruction, stack overflow) is handled through its trap handler, the given closure runs on that coroutine's now empty stack with the whole stack available, and its result is returned by the resume call that was most recently made, its panic propagates out of that call, and the coroutine is done. Other coroutines and the parent are unaffected, and stack and process can go on to be used, including for further traps in other coroutines.",
 ["fault_sequences","histories","programs"],
 "a trap at any point of any coroutine's history (first run, after suspensions, resumed from different contexts, in catch scopes, with objects live), any closure size and alignment, repeated",
 "Tests trap at the first instruction of a coroutine directly under main with a closure capturing nothing; later points, changed parents, captured data and recovery followed by further work are not covered.",
 [TR,X64,X86,CO],[("setup_trap_trampoline",X64+", "+X86),("trap_handler function",TR)],
 ["Coroutine::resume result after a signal","CoroutineTrapHandler::setup_trap_handler","destructors, status"])
p("C16","The trap handler recognises exactly the addresses of its own stack",
 "stack_ptr_in_bounds is true for every address from the stack's limit (guard included) up to but excluding its base, and false for every other address, for every kind of stack, at every time in the coroutine's life, from any thread, and for every copy of the handler; distinct coroutines' handlers never both claim an address.",
 ["inputs","histories"],
 "every address (boundaries of usable area, guard and stack; neighbours; 0 and the maximum), every stack geometry, every coroutine state",
 "The test handler asserts it once for one trapping stack pointer well inside the stack; no boundary and no negative case is checked.",
 [TR,CO,SU],[("comparison against limit and base",TR),("trap_handler() captures bounds",CO)],
 ["CoroutineTrapHandler::stack_ptr_in_bounds"])
p("C17","Backtraces continue through every stack to the real callers",
 "Unwinding with the platform's unwind information from any point in a coroutine, an on_stack or on_parent_stack closure, a recovery closure, or a destructor running there yields the frames of that context, then those of the context that most recently resumed or called it, and so on down to the thread's start, in that order and without omissions. Suspending and being resumed from elsewhere changes the chain accordingly.",
 ["programs","histories"],
 "every nesting of contexts and every change of resumer, at every point where user code runs",
 "Tests look for one host function anywhere in a trace, one level deep and always from the same resumer; order, completeness, nesting and re-parenting are not checked.",
 [X64,X86,CO],[("DWARF CFI of stack_init_trampoline / stack_call_trampoline",X64+", "+X86),("parent link as CFA source",X64+", "+X86)],
 ["unwinder frames at each step"])
p("C18","The frame-pointer chain is linked through every stack as well",
 "Following saved frame pointers from code running in a coroutine, on_stack, on_parent_stack or recovery closure reaches, frame by frame, the context that most recently resumed or called it and finally the thread's start, with the return addresses of those callers in the records.",
 ["programs","histories"],
 "every nesting of contexts and every change of resumer, in code compiled with frame pointers",
 "No test walks frame pointers; the tests' backtraces use unwind tables, which do not depend on the frame records at the link.",
 [X64,X86],[("parent link doubles as frame record",X64+", "+X86),("rbp pushed last on the parent stack",X64+", "+X86)],
 ["frame records starting at the frame pointer register"])
p("C19","Coroutines may move between threads, and threads do not affect each other",
 "A suspended or fresh coroutine whose contents are sendable can be resumed, unwound or dropped by any thread: control, results, panics and backtraces then belong to the thread that resumed it, and later threads are not affected by earlier ones. Coroutines used concurrently on different threads never influence one another.",
 ["schedules","histories"],
 "every assignment of the operations of a history to threads, and all interleavings of independent histories on parallel threads",
 "Two tests create a stack on one thread and use it on another; no coroutine is ever resumed by two different threads, and no test runs coroutines concurrently.",
 [CO,X64,X86],[("no thread-local or global state in the crate",CO),("parent link rewritten at each resume",X64+", "+X86)],
 ["same observations as C01-C06, per thread"])
p("C20","force_reset ends a coroutine without running anything",
 "After force_reset a coroutine in any state is done: nothing it owned is destroyed or executed then or later, further force_unwind or drop runs nothing of it, and resuming it panics. Its stack, intact, can be extracted and reused, or is released when it is dropped.",
 ["histories"],
 "every state in which force_reset can be called, followed by every operation",
 "No test calls force_reset.",
 [CO],[("stack_ptr = None",CO+" force_reset")],
 ["destructor counts","done/started","into_stack and reuse","release of the stack"])
p("C21","The types confine coroutines to what is sound",
 "The compiler refuses: sending a coroutine or a yielder to another thread, sharing a yielder between threads, sharing a coroutine whose stack is not shareable, giving a coroutine borrowed data, letting a yielder or other non-sendable data into on_parent_stack, resuming through a shared reference or from within itself, using a coroutine after its stack was taken, and keeping a borrowed stack's owner alive beyond or alongside its coroutine. It accepts the corresponding sound programs, including the covariance and contravariance of coroutine types.",
 ["programs"],
 "every client program shape over the public types, including each marker trait for each kind of type parameter",
 "One compile_fail doc test and two positive assertions for DefaultStack; every other bound could be dropped or tightened without any test noticing.",
 [CO,SM,TR],[("marker2, unsafe impl Sync where Stack: Sync",CO),("'static bounds, F: Send on on_parent_stack",CO),("PhantomData variance",CO)],
 ["accept/reject verdict of the compiler on client programs"])
p("C22","Valgrind knows exactly the default stacks that exist",
 "Under Valgrind every live default stack is registered, with its exact bounds, from its creation until just before it is unmapped, and unregistered once; so Valgrind follows the switches between stacks: programs that are correct natively and use each default stack once run under it without stack-switch warnings and without errors.",
 ["histories","configurations"],
 "every order of creating, using, reusing, failing to create and dropping default stacks under valgrind",
 "Nothing is run under valgrind; the requests are no-ops in the tests.",
 [SV,SU],[("STACK_REGISTER/STACK_DEREGISTER client requests",SV),("ManuallyDrop ordering in Drop",SU)],
 ["valgrind's stack register/deregister log and warnings"])
p("C23","A signal during a switch is harmless",
 "A signal handler that runs on the interrupted context's own stack, at any instruction before, during or after any switch between stacks, finds a stack pointer inside one of the two stacks involved, moving from one to the other once, and cannot corrupt anything: the operation then completes as if no signal had arrived, also when the handler itself resumes a coroutine of its own or runs code on another stack.",
 ["schedules","crash_points"],
 "every instruction of every kind of switch (first resume, resume, suspend, return, forced unwind, on_stack, on_parent_stack), with a handler that overwrites all memory below the interrupted stack pointer (minus the ABI red zone) and one that switches to stacks of its own",
 "No test delivers a signal during a switch; a value kept below the stack pointer for a few instructions is only lost if a signal hits exactly there.",
 [X64,X86],[("instruction order in switch_and_link / switch_yield / switch_and_reset / trampolines",X64+", "+X86)],
 ["stack pointer at every instruction (single-stepping with signal delivery on the current stack)","final results"])
p("C24","Any valid stack implementation works, and nothing beyond it is touched",
 "A coroutine or on_stack section works identically on every stack satisfying the Stack contract - any base that is aligned to the required alignment, not only page-aligned ones, from the minimum size up, owned or mutably borrowed, with or without the default-stack feature. It never reads or writes memory above the stack's base or below its limit; a borrowed stack is intact and usable again as soon as its coroutine is gone.",
 ["inputs","configurations","histories"],
 "every base alignment residue, stack size, ownership kind and nesting; foreign data adjacent to the stack on both sides",
 "Every test uses DefaultStack, whose base is page-aligned and has nothing of interest next to it; the trait itself and its &mut implementation are never instantiated by a test.",
 [SM,CO,AM,X64,X86],[("Stack trait contract",SM),("init_stack writes below base only",X64+", "+X86)],
 ["canaries adjacent to custom stacks","behaviour equality across stack kinds"])
p("C25","Panic reporting: one report per panic, none for internal unwinding",
 "The panic hook runs exactly once for every panic raised by user code or by a documented refusal of the crate, on the thread and at the moment it is raised, and not again while the panic crosses coroutines and stacks. Forced unwinding (explicit or by dropping) never runs the hook, and once any of these is finished the thread no longer counts as panicking.",
 ["histories","programs","fault_sequences"],
 "every history with panics crossing any number of stacks and forced unwinding in every state",
 "No test installs a hook or looks at panicking(); duplicated or spurious reports only show as extra stderr output.",
 [UN,CO],[("resume_unwind used for forwarding and for ForcedUnwind",UN)],
 ["panic hook invocations","std::thread::panicking()"])
p("C26","Feature combinations behave alike",
 "With the asm-unwind feature (nightly), panics and forced unwinding pass through the stack switches directly, and every history has the same observable outcome - control, values, statuses, destructor order, panics, aborts - as with the default implementation; the same holds between optimised and unoptimised builds and between the 64-bit and 32-bit x86 targets.",
 ["configurations","histories"],
 "every history that is defined in all configurations, replayed in each of them",
 "The asm-unwind configuration is disabled in CI; the other configurations are only compared on the few fixed tests.",
 [UN,CO,X64,X86],[("asm-unwind variants of the unwinding functions",UN),("resume_with_exception, switch_and_throw",CO+", "+X64)],
 ["all observations of C01-C07 under each configuration"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
