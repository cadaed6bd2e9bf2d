HEAD = '''# Static analysis of iotech-c-utils: design

## 1. What is checked, and why statically

The library is a set of C building blocks (reference-counted data values, JSON/CBOR/XML/YAML conversion, thread pool,
scheduler, queue, logger, component container, file and store helpers). Its tests sample values and run a few threads;
the guarantees users rely on are about every schedule, every failure of a system call, every history of calls. These
are mostly properties of the *shape of each path*: what is held, linked, counted, released, returned. They are decided
from the source, for all paths at once, without running anything and without a solver.

The properties are in `properties.jsonl`; `MANIFEST.json` has one check per property (`python3 check.py <ID>`; quick and
thorough run the same complete analysis, thorough also over the release (NDEBUG) variant of the program where that differs).

## 2. Machinery

* `tool/irdump.cpp` (built by `setup.sh`, or on demand, against the installed LLVM 18) compiles nothing itself: each check
  has clang produce `-O0 -g` LLVM IR (after mem2reg only) for **every** translation unit of the library from the working tree
  of /repo, with the flags of the real build, and dumps instructions, types, field offsets, debug names and enum values as JSON.
  Results are cached under a hash of the sources outside /repo, so a change to any file is always seen.
* `sa/ir.py` loads it; `sa/engine.py` is a path-sensitive, interprocedural, context-sensitive dataflow engine (property
  simulation after Das et al.): symbolic values with linear terms, branch facts (equal, unequal, ordering), a store indexed by
  (object, offset), a typestate component `ts` owned by the rule, and joins of states that agree on `ts` once a block has
  collected `join_at` of them, so loops reach a fixpoint. Internal functions are analysed inside each caller; public
  functions are cut at their contract where the rule says so (and are checked as entry points of their own).
* Each rule is a Python class with hooks on loads, stores, atomic updates, calls, indirect calls, branches and returns.
  Names used by rules are types, fields, public functions and libc/pthread calls; local variables, helper functions, loop
  forms and statement order are not looked at, so refactorings do not matter as long as the behaviour is the same.
* `sa/core.py` turns reports into `VIOLATION property=<id> replay=<file>` (the file has the path: function, lines, branch decisions, call stack), matches
  known findings by rule, function and message, writes the evidence and enforces floors: a rule that no longer finds its
  anchors (lock sites, critical sections, exits) ends with exit 2 rather than passing vacuously.

## 3. Assumptions and abstractions

* Allocation succeeds (the library itself does not test `malloc`); asserts hold in the debug variant, so a path that
  fails an assertion ends there (argument contracts of the public calls).
* Thread-modular concurrency: what another thread may change is forgotten whenever the lock that guards it is taken or
  waited on; fields set once before publication are kept.
* Induction over calls: a data structure found on entry (or on taking its lock) satisfies the invariant being proved; each call
  must re-establish it on every path.
* Distinct symbolic objects may be equal unless separated by allocation, type or a branch fact; where a rule needs
  aliasing it splits the path.
* Arithmetic is linear over unknowns; no bounds on values.
'''
WHERE = {
 'C01': ('conc.py', 'Wrappers (`iot_component_lock` etc.) are inlined; the three calls documented to return with the lock held are checked against that contract.'),
 'C02': ('conc.py', 'The guard table was inferred (majority use), confirmed by reading, and frozen with a reason per exception. Atomics are exempt.'),
 'C03': ('cv.py', 'A timed wait needs its deadline computed from data read in the same hold. Signals may come before or after the change as long as both are in one hold.'),
 'C04': ('conc.py', ''),
 'C05': ('conc.py', 'Component locks are distinguished by the owning type, otherwise every component would nest in itself.'),
 'C06': ('conc.py', ''),
 'C07': ('sched.py', 'A schedule is followed as an abstract object with a typestate; which one is first in the queue is left open.'),
 'C08': ('sched.py', ''),
 'C10': ('jobs.py', 'Ending the thread by touching nothing after sign-off is checked on the thread function itself; scheduling order of the sign-off and the free is covered by the havoc outside the lock.'),
 'C11': ('jobs.py', 'The job list found under the lock is introduced lazily as it is walked, with priority facts taken from the comparisons on the path.'),
 'M01': ('own.py', 'Constructors, accessors and consumers are classified from the public headers; container internals (nodes, elements) are owning fields. Not covered: container.c\'s component `config`, elements dropped by a shrinking vector resize, and the map dump keys.'),
 'M02': ('own.py', ''),
 'M03': ('dtor.py', ''),
 'D01': ('ds.py', 'Hash folding is compared as multisets, so the order of folding and updating is free.'),
 'D05': ('ds.py', 'Checked at exit of each call only; intermediate states are free.'),
 'D06': ('tree.py', 'Functions with loops of their own (rebalancing) change links only through the rotations, which are checked by themselves; insertion\'s descent is checked against the comparisons.'),
 'A01': ('life.py', ''),
 'A02': ('life.py', ''),
 'A03': ('contract.py', ''),
 'E01': ('contract.py', 'Short reads and writes, failing close, rename, stat and allocation of names are separate outcomes at each call.'),
 'K01': ('contract.py', 'Numerical results of conversions are not decided (runtime quantity), only that a failed conversion is never used.'),
 'Q01': ('jobs.py', ''),
 'C09': ('statics.py', 'Set-up calls (iot_store_config, iot_container_config) are documented to precede use and count as start-up. Heap objects reached from a shared variable belong to the property of their owner.'),
 'R01': ('repeat.py', 'How late a run starts is not decided (timing).'),
 'P01': ('nil.py', 'Summaries are bottom-up; recursion gets a second pass. An iterator\'s current entry is taken to be present (the entry of a vector is not: it may be unset). Out-of-memory answers are not modelled.'),
 'P02': ('nil.py', 'The optional parameters are frozen from the header text, so that editing a comment does not change the property.'),
 'K02': ('conf.py', 'Settings cut to the width of their parameter (a pool of more than 65535 threads) are accepted; the constructors of loggers are checked by A03.'),
 'U01': ('ident.py', 'The quality of the random numbers (xorshift128+) is not judged.'),
 'T01': ('clock.py', 'How precisely the system sleeps is not decided (timing).'),
 'E02': ('clock.py', ''),
 'S02': ('buf.py', 'Small loop-free internal functions are analysed within their callers, all others on their own. A place is reported when a path is sure to overrun, when the test made is short by up to nine bytes, or when a path with no joined loop value in it gives no ground at all; places that depend on a joined value, on an iterator position or on memory of unknown size are listed in the evidence as not judged. The rooms of the escape loop in iot_data_strcat_escape (per-character sizes) and of uncounted JSON tokens are not derived; for the tokens the check is that a key without a value is refused.'),
}
CAUGHT_ALSO = {}
TAIL = '''## 8. How the checks were tested

* **Mutation** (`del`, `dup` and pattern edits at every site a rule talks about): survivors were either equivalent or led to a
  stronger rule. Typical counts: C01-C08 ~150 mutants, M01-M03 ~200, D01/D05 ~180, R01 44 (2 equivalent or another property's).
* **Refactorings**: 61 behaviour-preserving edits (helpers extracted or inlined, loops rewritten, statements reordered,
  conditions inverted, locks wrapped, temporaries added) are applied one at a time in scratch copies, and all checks have to stay
  quiet. They are not part of the repository of checks; none raises an alarm at present.
* **Planted bugs**: section 7.

### False alarms met and what was done

* Stated too strongly at first: "a key equals the start time at all times" (only needs to hold when the lock is released);
  "signal after the change" (may come before, within one hold); "an element freed is no longer listed" at the time of the free (only at exit).
* Infeasible paths: correlated conditions are kept by the typestate component (facts that matter are recorded when they are
  established, since joins may drop them); boolean results are split into both truths before being judged.
* Helpers extracted from critical sections (`tp-free-helper` and others): functions are recognised by what they do - the thread
  function is whatever is passed to thread creation - not by name.
* A fallback when an analysis exceeds its budget: the check ends with exit 2 (no answer), never with a pass.
'''
