#!/usr/bin/env python3
import json
notes={
"C01":("exhaustive enumeration of commands x frequencies through the real encoder and receiver","Every command of the small protocols at every listed frequency is encoded and decoded by the real code; oracle is the command itself. 16-bit/raw words are complete at 1 MHz (thorough) and bounded elsewhere; frequencies are a list of 81."),
"C02":("exhaustive enumeration of commands x frequencies against an independent waveform reference","The emitted durations are compared with a waveform reference written from the published protocols, for all commands at two frequencies and a dense subset at 73 more."),
"C03":("exhaustive enumeration of words and bounded timing deviations on the real receivers","Real receivers are fed every word (or every window of long words) and every in-tolerance interval; the oracle is the word's meaning. Lengths within a rounding band of a limit are not judged."),
"C04":("deviation-bounded exhaustive exploration, lockstep with a reference decoder","Real receivers run in lockstep with reference decoders over all edge sequences with up to 2 deviations from frames, all short letter sequences, all Manchester sequences to depth 26, long repetitions, and from every state reachable within 3 bits of the base words (searched to closure)."),
"C05":("exhaustive exploration of histories followed by probe frames (differential)","All bounded histories, and every state of the reachable-state search, are followed by a gap and probe frames; oracle is the same receiver freshly created."),
"C06":("exhaustive exploration of item sequences against a reference repeat model","All bounded sequences of frames, broken frames, repeats and noise, in lockstep with a small model of the last complete command; the same in every state of the reachable-state search."),
"C07":("exhaustive stream enumeration, differential over all front-ends","All bounded streams are fed to every front-end of the real code; results are compared event by event."),
"C08":("exhaustive enumeration of sampling phases x words x rates","All distinguishable sampling phases are enumerated exactly (rational arithmetic), rates to 20 MHz; oracle is the transmitted command."),
"C09":("explicit exploration of all tick/load interleavings against a reference sender","All bounded interleavings of ticks and loads and all triples of trains on the real sender, compared tick by tick with a list-based model."),
"C10":("exhaustive stream enumeration, product of stand-alone receivers as model","All pairs of items through all configurations; stand-alone receivers are the oracle."),
"C11":("exhaustive stream enumeration, differential over clock types and time origins","All bounded streams through all clock types and 24 time origins, and in every state of the reachable-state search; the 32-bit duration receiver is the oracle."),
"C12":("bounded exhaustive exploration of arbitrary inputs with overflow checks","All bounded sequences of arbitrary events, time stamps, polls and frequencies on the real code built with overflow checks; all pairs of events in every reachable state; a panic, overflow or hang is a violation."),
"C13":("exhaustive enumeration of words, commands and number pairs","All 2^32 words for the NEC validity/packing functions, complete small domains, boundary products for construction."),
"C14":("exhaustive enumeration of commands and actions against published tables","Complete command domains of each model; oracle is an independent copy of the published tables."),
"C15":("fault enumeration inside exhaustive exploration: failing reads at every event and pair","A failing read is injected at every position (and every pair) of the event and poll sequences; oracle is the fault-free run."),
"C16":("exhaustive enumeration of foreign frames","All ordered pairs of timing families over complete or windowed word sets."),
"C17":("exhaustive exploration of event/reset sequences on the decoder state machine","All bounded sequences with a reset at every position, and resets in the reachable-state search; oracles are the contract and a freshly built decoder."),
"C18":("exhaustive enumeration of the feature lattice, differential against the default build","Every subset is compiled and run; digests of the same streams and commands must agree. defmt subsets are compiled only."),
"C19":("exhaustive enumeration of bounded-switch subsets of lost edges","All loss patterns with a bounded number of switches, all periodic ones, all subsets of 14 consecutive edges; all reachable states with lost edges as letters; oracle is the loss-free run."),
"C20":("deviation-bounded exhaustive exploration, lockstep with a reference error model","Same exploration as C04, reachable-state search included, comparing errors with the reference at every event."),
"C21":("exhaustive enumeration of construction orders (differential)","Every order of builder calls and every constructor, compared over streams that cross every tolerance limit."),
"C22":("exhaustive enumeration of clock pairs x phases between the clocks x words through the real sender and receivers","The real sender is ticked, its output edges are timed by a second clock at every distinguishable phase (exact integer arithmetic) and fed to the real receivers; oracle is the commands sent; one pair is used past 65536 commands. Clock rates are lists."),
"C23":("exhaustive exploration of decoder answer sequences behind every front-end","A scripted decoder supplied by the check answers every bounded sequence; its call log is compared with the contract, the results with the script."),
"C24":("exhaustive enumeration of timing tables x clocks x durations","All bounded tables are looked up at every limit and in every listed partition, and asked for overlaps; oracle is the percentage definition with a rounding band."),
"C25":("exhaustive enumeration of words, item sequences and deviations through NEC variants defined by the check","The real receivers and encoder are run with variants of the check's own, whose packing and refusals are unlike any shipped one; oracle is the variant's definition behind a reference decoder. Variants can only use the two shipped timings."),
}
checks=[dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"./check.sh {i} --thorough",technique="model checking of the real code: "+t,level="model_checking",
  level_note=n+" Trusted: rustc, the harness and its reference tables; the crate is built with overflow checks from /repo's working tree.") for i,(t,n) in notes.items()]
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
assert sorted(props)==sorted(notes)
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=[],notes="No hooks: every check drives the public API. See DESIGN.md; replay a counterexample with harness/target/release/replay <file>."),open("/verif/MANIFEST.json","w"),indent=1)
