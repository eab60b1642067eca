#!/usr/bin/env python3
"""Assembles DESIGN.md from the fixed text below and seeded/RESULTS.md."""
HEAD = r'''# Model checking jkristell/infrared

## What is checked, and how

`infrared` is a sequential, allocation-free `no_std` library: small state machines driven by
(edge, duration) events, polls, ticks and loads. There are no threads and no storage, so the
behaviour space is the set of **input histories x configurations** (protocol, clock frequency,
clock type, front-end, buffer size, features). The machinery enumerates bounded parts of that
space completely and runs **the real code** on every member: there is no abstract model of the
implementation that could drift from it. Every check is therefore model checking on the
implementation (stateless / explicit-state exploration); the "model" side is an independent reference
(published waveforms, reference decoders, tables, a list-based sender), compared with the
implementation on every step.

Nothing is sampled and no solver is used; the seed is recorded but changes nothing.

* `harness/` crate `irmc` (path dependency on /repo, own `[workspace]`):
  `spec.rs` reference timing/waveforms/decoders written from public protocol descriptions and the
  property statements; `gen.rs` alphabets, word sets, deviation-bounded explorers; `imp.rs` adapters to
  the public API; `report.rs` counters, evidence, watchdog (a call that does not return for 90 s is a
  violation), replay files; `alloc.rs` a thread-local allocator (speed only);
  `bin/cNN` one program per property; `bin/replay` prints a counterexample step by step;
  `bin/streams` dumps edge streams for C18.
* `c18/` feature-subset enumeration (Python driver, digest program, compiled optional dependencies).
* `check.sh <id> [--thorough]` deletes the crate's build fingerprint, rebuilds the check against
  /repo's working tree (release, **overflow checks and debug assertions on**) and runs it.
* Exit codes: 0 held, 1 VIOLATION, 2/3 the check could not be built or failed itself. A compile-time
  panic of the library's constant computations at a legal frequency (E0080) is reported as a violation
  of C01/C02/C09/C12, not as a build problem.

Branching is done by copying the receiver bitwise (`imp::fork`), which is exact because the types own
nothing (asserted with `needs_drop`). Exploration is prefix-sharing: a state is one visited prefix of a
history in one configuration, a transition is one call into the library, a trace is one complete
history whose every step was compared with the reference. In these groups "states" counts visited tree
nodes (nothing is merged).

### Reachable states (`reach.rs`)
C04, C05, C06, C11, C12, C17, C19 and C20 also run an explicit-state search: breadth first, from a new
receiver, over an alphabet of one letter per class of intervals (plus reset, merged letters or clock
lanes where the property calls for them), with states merged when the *bytes of the receiver* and the
state of the reference beside it are equal (128-bit hash of both; padding is read as it is, which can
only split states, never merge different ones). The words collected so far are kept within 3 bits
(thorough: 4) of the base words, which keeps the state space finite; every search is run until no new
state is found ("all" in `coverage.groups`), e.g. 404 434 states for NEC, 2.28 million for Denon, 133 172
for RC-5, 1.69 million for RC-6. In each state the property's own question is put: lockstep verdict (C04,
C20), gap and probe frame (C05, C06), all pairs of extreme events (C12), reset and comparison with a new
decoder (C17), all clock types at once (C11). This reaches what depth and deviation bounds leave out:
any number of deviations, in any combination, as long as they lead to a new state.

### Long histories (`soak.rs`)
A counter inside a receiver or sender would make every state new. One or two building blocks are
therefore repeated past 256 and 65536 times, with the property's question at the notable counts (around
powers of two): C04, C05, C06, C07, C09, C10, C11, C12, C15, C17, C20, C22, C23.

No hooks in /repo were needed.

### Deviation bounding
Frames are 30-100 events long, so depth bounding alone would never reach the end of a frame. As the
guide recommends, deviations from well-formed frames are bounded instead: 0, then 1, then 2 replaced /
inserted / deleted intervals with every letter of an alphabet that has one letter per equivalence
class visible in the specification (both sides of every tolerance limit, nominal values, 0, 1, very
long, longest, sums that wrap 32 bits). Unbounded parts: all short letter sequences from the start and
from inside every prefix.

### Rounding band
The statements speak of percentages; the code computes windows in integer ticks. An interval within
2.5 ticks + 0.35 % of a limit is "unsure": it is never used to demand or forbid anything. Everything
clearly inside must be accepted, everything clearly outside must be rejected.

## Per property

(quick bounds; thorough in brackets; time = quick wall time incl. build on 8 cores)

| id | enumerated | oracle | time |
|---|---|---|---|
| C01 round trip | 81 frequencies x all 2^16 NEC/Samsung, 2^13 RC-5, 2^17 RC-6, 2^24 NEC16 / 2^20 Apple at 1 MHz, windows of raw words | the command sent | 8 s |
| C02 waveform | the same command sets | waveform reference in `spec.rs` | 6 s |
| C03 tolerance | all words; every in-tolerance length of every interval; all lo/nom/hi assignments of 7 neighbouring intervals; every frequency 20..120 kHz | meaning of the word | 8 s |
| C04 no phantoms | <=2 deviations around frames, all letter sequences <=4, Manchester sequences to depth 26, every length at every position, reachable states, long histories | reference decoder in lockstep; `explains` (is there a well-formed frame ending here?) for Manchester | 60 s |
| C05 no leak | histories: prefixes, <=1 (2) deviations, foreign frames, item sequences; then gap + probe; the same in all reachable states | fresh receiver | 62 s |
| C06 repeats | item sequences of length 4 (5), every cut/corruption point, 65536 repeats, reachable states | last-complete-command model | 10 s |
| C07 front-ends | item sequences 2-3, one replaced interval, every buffer length | duration-event receiver | 7 s |
| C08 polling phase | all distinguishable phases (exact rationals) x 14 rates x words x idle polls incl. counter wrap; rates to 20 MHz | the word | 11 s |
| C09 sender | all tick/load interleavings to depth 11 (13), all triples of small trains, loads at every tick | list-based sender | 6 s |
| C10 multi | all pairs of items x all pairs / rotations of protocols | stand-alone receivers | 9 s |
| C11 clocks | item streams x clock types x origins x backward jumps; seven clock lanes in all reachable states | 32-bit duration receiver | 11 s |
| C12 no panic | arbitrary event sequences from the start and inside every frame prefix, extreme values, all poll sequences, all creation frequencies, all event pairs in all reachable states | absence of panic/overflow/hang (overflow checks on) | 70-130 s |
| C13 packing | all 2^32 words, complete command domains, boundary products | arithmetic definitions | 5 s |
| C14 remotes | complete command domains, all actions | tables copied from the published remotes | 4 s |
| C15 pin errors | failing reads at every event, pair, subset of 12; every sample | fault-free run | 21 s |
| C16 foreign | all pairs of families x words x frequencies | no command | 6 s |
| C17 decoder contract | event/reset sequences, reachable states with resets | contract + fresh decoder | 20 s |
| C18 features | 384 (768) feature subsets, digests over ~15 000 (~130 000) streams | default configuration | 95 s |
| C19 lost edges | loss patterns with <=3 (4) switches, periodic, all subsets of 14, reachable states with merged letters | loss-free run | 32 s |
| C20 errors | as C04 | reference error model | 50 s |
| C21 construction | every order of builder calls, constructors | `Receiver::new` | 40 s (35 s of it compiling) |
| C22 two clocks | sender ticked at 15 rates x 16 (40) receiver clocks x every phase x words, drift, sequences, 65536 commands from one sender | the commands sent | 40 s |
| C23 any decoder | all 8^6 (8^7) answer sequences of a scripted decoder behind every front-end, every edge pattern for short ones | the script and the contract | 8 s |
| C24 timing tables | all one- and two-entry tables, full tables, 16 frequencies, typed clocks, all limits, partitions, overlaps | percentage definition with rounding band | 6 s |
| C25 user variants | both timings x 5 policies of variants defined by the check: 13-bit (15-bit) windows of words, item sequences of 3, replaced intervals, 81 sending rates | the variant's definition behind the reference decoder | 12 s |

Exact bounds of a run are in its evidence file (`coverage.bounds`, `coverage.groups`).

Why tests cannot settle these: the test-suite samples a handful of frames at 40 kHz/1 MHz; the
properties quantify over all words, timings, histories, phases, clock rates and call orders.

All properties are decided by the same family; `not_applicable` is empty.

### Notes on single checks
* **C03/C04/C20** share `RefPd`, the reference decoder for pulse-distance protocols. It is driven in
  lockstep; where a length is in the rounding band the branch is abandoned rather than judged.
* **C04 Manchester**: a reported RC-5/RC-6 command must be *explained*: `spec::explains` looks for a
  suffix of the history that is a well-formed frame of exactly this command with every run inside the
  tolerance (upper limits widened by the rounding band).
* **C08**: signal edges lie at integer microseconds, samples at phase + k/rate; two phases with no
  (edge, sample) coincidence between them give the same sample sequence, so one phase per open interval
  plus each coincidence is complete.
* **C09**: what a load does between the last edge and the tick after it, or before the first tick of a
  loaded command, is left open (the sender has not yet reported idle / begun).
* **C22**: the LED's edges lie at tick numbers n/f of the sender; the receiver's stamps are
  floor(n*g/f + phase). Two phases between which no n*g/f crosses an integer give the same stamps, so the
  finitely many crossing points are all phases there are. Drift is a sender rate of 0.99 .. 1.01 f.
* **C23**: extra `command()` calls and repeated resets after done/error are allowed (harmless); a reset at
  any other time, a missing one, or a command fetched after the reset is not.
* **C24**: tables outside the domain (a 1 s pulse at 1 GHz) overflow the library's 32-bit arithmetic when
  created; no shipped protocol comes near (C12 creates them at every frequency).
* **C24**: the overlap check is demanded only where it does not hinge on the rounding band. Two one-point
  windows at the same place overlap; unused entries overlap nothing.
* **C25**: `validate` is never consulted by receivers (the shipped variants do not demand complement bytes,
  see C04); the check's variants define it consistently with `unpack` so that either would be allowed.
* **C12**: release build with overflow checks; the harness' own panics are told apart by source path.
* **C18**: the optional dependencies are compiled once (`c18/featdeps`), then `rustc` is called directly
  for each subset with the cfgs that cargo would set (feature closure computed from /repo/Cargo.toml).
  `log` subsets run with a logger that formats every record; `defmt` needs a target transport to link
  and is compiled only.

## Genuine defects found (all repaired)

See KNOWN_FINDINGS.txt: 22 "fix:" commits in /repo, each the repair of a violation reported by a check
on the original tree (base 0a7f542). No open findings.

## Behaviour deliberately not treated as a defect

* `Rc5Command::pack` with fields out of range (only `create` can make such numbers harmful; fixed there).
* Window rounding by a tick or two at low frequencies (rounding band).
* RC-5/RC-6 `is_repeat()` returns the toggle bit; a stateless command cannot do better, C13 states it.
* `AnyCommand::raw` is 0 except for Denon; Apple's device id is not part of the generic form.
* NEC decoders do not check the complement bytes (many remotes do not send them): C04 does not demand it.
* RC-6 mode bits are ignored by the decoder, modes whose last bit is one are not decoded.
* RC-6 polled at 20 kHz (unit 444 us = 8.9 samples, windows too narrow): C08 starts at 40 kHz for RC-6.
* Idle time before the very first edge that happens to equal a header length can be taken for a header.
* Two consecutive falling events keep only the later mark (C19 is about missed, not doubled, edges).
* The vcd-parser example and the MCU examples are not libraries and are not checked.

## False alarms corrected while building

* C08: idle polls before the first frame whose number equals a header mark were reported for Denon;
  the statement now says none or at least 20 ms.
* C13: Apple's `create` returns none for everything; the statement excepts it.
* C14/C15/C17: statements were narrowed to what the API documents (Apple encodes nothing; the polled
  front-end tolerates two isolated failures only at 40 kHz and above; NEC repeat memory survives reset).
* C18: with `rustc` called directly, defmt's macros need cargo's environment variables; they are now set.

'''
import os
body = HEAD
r = "/verif/tools/RESULTS.md"
if os.path.exists(r): body += open(r).read()
open("/verif/DESIGN.md", "w").write(body)
