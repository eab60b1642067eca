import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Send/receive round trip is lossless",
"For every protocol that can be sent (NEC, 16-bit NEC, Samsung, Apple, raw NEC, RC-5, RC-6), every command whose fields fit the protocol, and every tick frequency of 20 kHz or more, encoding the command and feeding the pulse train to a receiver of the same protocol and frequency reports exactly one command and no error. That command equals the sent one in every field (address, command, page, device id, start and toggle bits) and is not flagged as a repeat.",
["inputs","configurations"],"all commands representable in each protocol x all clock frequencies >= 20 kHz",
"The tests try two protocols at 40 kHz (addresses/commands 0..254, toggle never set, only address and command compared) and one command at 20 kHz/48 MHz; every other (frequency, command, field) combination is unsampled.",
["src/protocol/nec/encoder.rs","src/protocol/nec/decoder.rs","src/protocol/nec/apple.rs","src/protocol/rc5/encoder.rs","src/protocol/rc5/decoder.rs","src/protocol/rc6/encoder.rs","src/protocol/rc6/decoder.rs","src/protocol/utils.rs"],
[("ProtocolEncoder::encode","src/protocol/*/encoder.rs"),("ProtocolDecoder::event","src/protocol/*/decoder.rs"),("scale_with_samplerate","src/protocol/utils.rs")],
obs=["ProtocolEncoder::encode","Receiver::event"])

p("C02","Encoders emit the protocol's published waveform",
"For every sendable command and tick frequency of 20 kHz or more, the pulse train is a zero lead-in followed by alternating mark/space durations that spell out the protocol's published frame: leader, bit order, bit polarity, field positions and complement/parity bits, ending with the carrier switched off. Every duration is within one tick per protocol time unit plus 0.5 % of its nominal microsecond value, and the reported length is exactly the number of durations of the frame, for which a buffer of that many entries suffices.",
["inputs","configurations"],"all commands representable in each protocol x clock frequencies >= 20 kHz",
"The tests only feed encoder output back to the library's own decoder, so a mistake made consistently on both sides (bit order, polarity, timing) is invisible, and the tail of the frame is never looked at.",
["src/protocol/nec/encoder.rs","src/protocol/nec/mod.rs","src/protocol/rc5/encoder.rs","src/protocol/rc6/encoder.rs","src/protocol/nec/standard.rs","src/protocol/nec/samsung.rs","src/protocol/nec/nec16.rs","src/protocol/nec/apple.rs"],
[("encode","src/protocol/*/encoder.rs"),("pack","src/protocol/nec/*.rs, src/protocol/rc5/mod.rs"),("NEC_STANDARD_TIMING / NEC_SAMSUNG_TIMING","src/protocol/nec/mod.rs")],
obs=["ProtocolEncoder::encode"])

p("C03","Frames within timing tolerance decode to exactly the transmitted word",
"For every receivable protocol, every data word and every choice of interval lengths inside the tolerance, up to tick rounding, a receiver reports exactly one command, at the edge that completes the last bit, with exactly that word's fields and no error. Tolerances are, on rising-edge distances, NEC family header +-7 %, zero +-25 %, one +-12 %; Denon header +-8 %, bits +-10 %; Samsung-BluRay header and pause +-5 %, bits +-10 %; and, on every mark or space, RC-5 one unit +-12 %, two units +-10 %; RC-6 one to three units +-12 %, leader -6/+12 %.",
["inputs","configurations"],"all data words x all in-tolerance interval lengths x clock frequencies",
"The tests decode a handful of recorded or self-generated captures; no test decodes a Samsung-BluRay frame or compares a Denon value, and no test varies an interval inside its tolerance.",
["src/protocol/nec/decoder.rs","src/protocol/denon/mod.rs","src/protocol/sbp/mod.rs","src/protocol/rc5/decoder.rs","src/protocol/rc6/decoder.rs","src/receiver/time.rs","src/receiver/time/primitives.rs"],
[("pulse-width tables PULSE/TOL","src/protocol/*/decoder.rs, denon/mod.rs, sbp/mod.rs"),("PulseSpans::get","src/receiver/time.rs"),("ProtocolDecoder::event state machines","src/protocol")],
obs=["Receiver::event"])

p("C04","No phantom commands",
"A receiver reports a command only at an edge that completes a well-formed frame of its protocol, and the reported fields are exactly the bits of that frame (NEC-family repeat frames excepted). A sequence that starts without the header, is cut short, contains an interval outside the tolerance of C03 (including zero-length and arbitrarily long ones), or, for RC-5 and RC-6, lacks the edge in the middle of a bit, produces no command; Apple frames additionally need the vendor id and odd parity.",
["inputs","histories"],"all edge sequences, of any timing",
"Tests feed well-formed captures almost exclusively; rejection has to hold for the unbounded set of malformed edge sequences.",
["src/protocol/nec/decoder.rs","src/protocol/denon/mod.rs","src/protocol/sbp/mod.rs","src/protocol/rc5/decoder.rs","src/protocol/rc6/decoder.rs","src/receiver/time.rs"],
[("state machine match arms","src/protocol/*"),("PulseSpans::get","src/receiver/time.rs"),("AppleNecCommand::validate","src/protocol/nec/apple.rs")],
obs=["Receiver::event"])

p("C05","Earlier input never leaks into a later frame",
"Whatever edges a receiver has seen (noise, truncated or corrupted frames, complete frames of its own or another protocol, decoding errors), a well-formed frame that begins after an idle gap of 20 ms or more is decoded exactly as by a newly created receiver: same command, same fields, reported at the same edge, and no error or further command inside the frame.",
["histories","inputs"],"all edge histories preceding an idle gap",
"Nearly all tests decode a single frame with a new receiver; leakage needs an aborted or foreign history first.",
["src/protocol/nec/decoder.rs","src/protocol/denon/mod.rs","src/protocol/sbp/mod.rs","src/protocol/rc5/decoder.rs","src/protocol/rc6/decoder.rs","src/receiver.rs"],
[("reset","src/protocol/*"),("Receiver::event_edge resets on Done/Error","src/receiver.rs"),("bit buffer cleared on header","src/protocol/*")],
state=[("bitbuf/buf/data/address/command","bits collected so far","src/protocol/*"),("dt_save/since_rising/clock","time since last bit edge","src/protocol/*")],
obs=["Receiver::event"])

p("C06","NEC repeat frames repeat exactly the last complete command",
"After a complete NEC-family data frame, every repeat frame reports that frame's command again, flagged as repeat, any number of times and whatever noise or idle time lies between; data frames themselves are never flagged. A repeat frame reports nothing when no data frame has been received yet, or when the most recently started data frame was not received completely (or, for Apple, was invalid).",
["histories"],"all sequences of data frames, truncated/corrupted frames, repeat frames and noise",
"The tests contain one capture with one clean frame followed by repeats; a repeat after a broken frame or before any frame is never tried.",
["src/protocol/nec/decoder.rs","src/protocol/nec/mod.rs"],
[("NecState::RepeatDone","src/protocol/nec/decoder.rs"),("bit buffer retained across reset","src/protocol/nec/decoder.rs")],
state=[("bitbuf","last received bits, kept for repeats","src/protocol/nec/decoder.rs")],
obs=["Receiver::event"])

p("C07","All receiver front-ends report the same commands for the same signal",
"Feeding one edge stream through duration events, timestamp events, pin-driven events, periodic polling, a decoder driven directly, or the buffer iterator yields the same commands in the same order (and the same errors where the front-end reports errors). The buffer iterator yields every command contained in its buffer, carrying on after undecodable stretches, and ends only at the end of the buffer.",
["inputs","histories"],"all edge streams mixing well-formed, truncated, corrupted and repeat frames",
"Each test uses one front-end on one clean capture; no test compares two front-ends and none has an undecodable NEC stretch in a buffer.",
["src/receiver.rs","src/receiver/iter.rs","src/receiver/bufferinput.rs","src/receiver/ppoll.rs","src/receiver/decoder.rs"],
[("Receiver::event_edge","src/receiver.rs"),("BufferIterator::next","src/receiver/iter.rs"),("PeriodicPoll::poll_base","src/receiver/ppoll.rs"),("ProtocolDecoder::event_total","src/receiver/decoder.rs")],
obs=["Receiver::event","Receiver::event_instant","PeriodicPoll::poll","BufferInputReceiver::iter"])

p("C08","Polled reception works for every sampling phase",
"A polled receiver that samples a nominally timed transmission at a fixed rate (20 kHz or more; 40 kHz or more for RC-6) reports exactly the transmitted command, once and without error, whatever the phase between the sampling clock and the signal. The number of idle polls made before the transmission (none, or 20 ms worth or more) does not matter.",
["inputs","schedules","configurations"],"all sampling phases x all commands x sampling rates x idle histories",
"The single polled test replays an already sampled capture, i.e. one phase, one command, one rate.",
["src/receiver/ppoll.rs","src/receiver/time.rs","src/protocol/*/decoder.rs"],
[("PeriodicPoll::poll_base","src/receiver/ppoll.rs")],
state=[("clock/last_edge/edge","sample counter, time and level of last edge","src/receiver/ppoll.rs")],
obs=["PeriodicPoll::poll"])

p("C09","The transmitter reproduces exactly the loaded pulse train, then stays off",
"After a command is loaded into an idle sender, the output after each periodic tick is on and off for exactly the encoded durations (which the buffer view shows meanwhile), and once the train is finished the output is off and stays off until the next load, whatever the buffer capacity and whatever was sent before. Loading while a transmission is in progress changes nothing about it, and a load after completion transmits the new command in full from its start; the low-level pulse sender restarts on load, falls silent on reset and, given arbitrary (also wrapping) time stamps, makes at most one level change per call and never before the duration has elapsed.",
["histories","inputs","schedules"],"all interleavings of loads and ticks, all pulse trains, all earlier transmissions, all clock values",
"No test ticks a sender at all.",
["src/sender/senders.rs","src/sender/buffer.rs","src/sender/hal.rs"],
[("PulsedataSender::tick","src/sender/senders.rs"),("PulsedataBuffer::get/load/reset","src/sender/buffer.rs"),("Sender::load/tick","src/sender/hal.rs")],
state=[("pos/status/ts_lastedge","position in the train","src/sender/senders.rs"),("counter","tick counter","src/sender/hal.rs")],
obs=["Sender::tick via PwmPin enable/disable","PulsedataSender::tick"])

p("C10","A multi-receiver equals independent receivers side by side",
"For 2 to 6 protocols in any order and any edge stream, slot i of the multi-receiver's result is at every edge exactly what a stand-alone receiver of the i-th protocol reports, converted to the generic command form, with decoding errors shown as no command. The pin-driven and iterator variants report the same commands, in slot order.",
["inputs","histories","configurations"],"all edge streams x protocol tuples of size 2..6",
"No test uses the multi-receiver.",
["src/receiver/multi.rs","src/cmd.rs"],
[("ReceiverWrapper::event for tuples","src/receiver/multi.rs"),("From<Cmd> for AnyCommand","src/cmd.rs")],
obs=["MultiReceiver::event_generic","MultiReceiver::event","MultiReceiver::event_generic_iter","MultiReceiver::event_iter"])

p("C11","Results do not depend on the clock type or the clock's starting point",
"For the same durations at the same rate, receivers using 32-bit or 64-bit tick counts or 32/64-bit typed (fugit) instants report identical results. With time stamps only differences matter: results equal those of feeding the differences as durations, for any starting time, across wrap-around for typed instants, and a plain-integer time stamp earlier than its predecessor counts as a zero-length interval after which timing continues from that time stamp.",
["inputs","histories","configurations"],"all edge streams x clock types x clock rates x starting instants",
"One test runs one capture with one typed clock; 64-bit clocks, time stamps, offsets and wrap-around are not exercised.",
["src/receiver/time.rs","src/receiver/time/primitives.rs","src/receiver/time/fgt.rs","src/receiver.rs"],
[("InfraMonotonic impls (checked_sub, create_span)","src/receiver/time/*.rs"),("Receiver::event_instant","src/receiver.rs")],
state=[("prev_instant","time stamp of previous event","src/receiver.rs")],
obs=["Receiver::event","Receiver::event_instant"])

p("C12","No input can make the library panic or hang",
"No sequence of edges (also non-alternating), durations from zero to the maximum of the clock type, time stamps, poll levels or clock frequencies makes a receiver, polled receiver, multi-receiver, buffer iterator or decoder panic, overflow or loop forever; sending any command into a large enough buffer with any tick time stamps does not either. This includes creating receivers at every frequency.",
["inputs","histories","configurations"],"all edge/duration/time stamp sequences and all frequencies",
"Tests use realistic durations only; extreme values at particular decoder states are unsampled.",
["src/protocol/nec/decoder.rs","src/protocol/denon/mod.rs","src/protocol/sbp/mod.rs","src/protocol/rc5/decoder.rs","src/protocol/rc6/decoder.rs","src/protocol/utils.rs","src/receiver/time.rs","src/receiver/time/primitives.rs","src/receiver/ppoll.rs","src/sender/senders.rs"],
[("duration sums","src/protocol/*"),("scale_with_samplerate","src/protocol/utils.rs"),("wrapping clock arithmetic","src/receiver/ppoll.rs, src/sender")],
obs=["all public receiver/sender entry points"])

p("C13","Command construction, packing and conversion are faithful",
"Building a command from an (address, command) pair either yields a command that reports exactly that pair and is sendable as such, or yields none, which (except for Apple, whose commands cannot be built this way) happens only when one of the numbers does not fit the protocol: it never silently changes either number. For every command, unpacking its packed bits gives it back; the validity check of each NEC variant accepts exactly the words carrying that variant's redundancy, which includes every packed word; and conversion to the generic command form keeps protocol id, address, command and repeat flag (RC-5/RC-6: toggle), with different Apple (page, command) pairs giving different command numbers and Denon keeping all 48 bits. Protocol ids survive the conversion to and from their byte value, all other bytes being the unknown id.",
["inputs"],"all 32-bit address/command arguments at and around field limits; all field values; all 2^32 words",
"Tests pack and unpack a few hand-picked commands; truncation, field overlap and the generic conversion are unsampled.",
["src/cmd.rs","src/protocol/nec/standard.rs","src/protocol/nec/samsung.rs","src/protocol/nec/nec16.rs","src/protocol/nec/apple.rs","src/protocol/nec/raw.rs","src/protocol/rc5/mod.rs","src/protocol/rc6/cmd.rs","src/protocol/sbp/mod.rs","src/protocol/denon/mod.rs","src/protocol.rs"],
[("AddressCommand::create/address/command","src/protocol/*"),("pack/unpack/validate","src/protocol/nec/*.rs, src/protocol/rc5/mod.rs"),("From<Cmd> for AnyCommand","src/cmd.rs"),("From<u8> for ProtocolId","src/protocol.rs")],
obs=["AddressCommand","NecCommandVariant","AnyCommand","ProtocolId"])

p("C14","Remote-control models map buttons and codes one-to-one",
"For every shipped remote model (and every user-defined one-to-one button table), decoding a command gives an action exactly when the address is the remote's and the code is one of its buttons, according to the published table of that remote; encoding a button of the table gives a command that decodes back to that button, and encoding any other action gives none (the Apple remote encodes nothing). A receiver set up for the remote reports, for each received command, that command together with exactly this action and the command's repeat flag; action names are pairwise distinct.",
["inputs"],"all (address, command) pairs of the protocol x all actions x all shipped remotes",
"Tests check one button of one remote.",
["src/remotecontrol/mod.rs","src/remotecontrol/mapper.rs","src/remotecontrol/nec/samsungtv.rs","src/remotecontrol/nec/specialformp3.rs","src/remotecontrol/nec/apple2009.rs","src/remotecontrol/rc5/cdplayer.rs","src/remotecontrol/sbp/blurayplayer.rs"],
[("RemoteControlModel::decode/encode","src/remotecontrol/mod.rs"),("Button::from","src/remotecontrol/mapper.rs"),("BUTTONS tables","src/remotecontrol/*")],
obs=["RemoteControlModel","Button"])

p("C15","A failed pin read is reported and does not disturb decoding",
"When reading the input pin fails, pin-driven receivers (duration and time-stamp events, polled, multi) report that very error and no command, and for event-driven receivers nothing else happens: retrying the event after any number of failures gives what it would have given without them. A polled receiver sampling at 40 kHz or more still decodes a frame during which up to two isolated reads failed.",
["fault_sequences","histories"],"all positions and multiplicities of pin read failures in a signal",
"All test pins never fail.",
["src/receiver.rs","src/receiver/ppoll.rs","src/receiver/multi.rs","src/receiver/error.rs"],
[("pin read before any state change","src/receiver.rs, src/receiver/ppoll.rs, src/receiver/multi.rs"),("From<DecodingError> for Error","src/receiver/error.rs")],
obs=["Receiver::event","Receiver::event_instant","PeriodicPoll::poll","MultiReceiver::event"])

p("C16","Receivers ignore other protocols' transmissions",
"A nominally timed frame (or NEC/Samsung repeat frame) of one protocol never makes a receiver of a different timing family report a command, at any word and any clock frequency of 20 kHz or more; the timing families are {NEC, 16-bit NEC, Apple, raw NEC}, {Samsung}, {Samsung-BluRay}, {Denon}, {RC-5}, {RC-6}.",
["inputs","configurations"],"all words of every protocol x every receiver of another family x clock frequencies",
"One test contains one foreign RC-5-like frame; no other cross-protocol combination is tried.",
["src/protocol/nec/decoder.rs","src/protocol/nec/mod.rs","src/protocol/denon/mod.rs","src/protocol/sbp/mod.rs","src/protocol/rc5/decoder.rs","src/protocol/rc6/decoder.rs"],
[("pulse tables and tolerances","src/protocol/*"),("header checks","src/protocol/*")],
obs=["Receiver::event","MultiReceiver"])

p("C17","A directly driven decoder honours its documented contract",
"A protocol decoder offers a command only while its last event reported completion, never before, in between or after a reset. After a reset it behaves like a newly built decoder (NEC-family decoders still remember the last complete command for repeats); it reports itself receiving from the end of a frame's header (RC-5, RC-6: from its first edge) until its completion and idle otherwise; and the combined event call equals event, fetch, reset on completion or error.",
["inputs","histories"],"all edge sequences with resets at any point",
"Tests never drive a decoder directly except to print its state.",
["src/receiver/decoder.rs","src/protocol/nec/decoder.rs","src/protocol/denon/mod.rs","src/protocol/sbp/mod.rs","src/protocol/rc5/decoder.rs","src/protocol/rc6/decoder.rs"],
[("ProtocolDecoder::{event,command,reset,event_total}","src/receiver/decoder.rs"),("From<..State> for State","src/protocol/*")],
obs=["ProtocolDecoder"])

p("C18","Every feature subset builds and leaves each protocol's behaviour unchanged",
"The library compiles with every combination of its protocol, remotes and embedded-support features, also with either logging back end. A protocol enabled in any such combination decodes and encodes exactly as in the default configuration.",
["configurations"],"all 2^8 subsets of the features nec, rc5, rc6, sbp, denon, remotes, embedded-hal, fugit, plus embedded",
"Tests build the default feature set only.",
["Cargo.toml","src/lib.rs","src/protocol.rs","src/receiver.rs","src/receiver/ppoll.rs","src/protocol/sbp/mod.rs","src/receiver/builder.rs","src/sender/mod.rs","src/remotecontrol/mod.rs"],
[("cfg(feature) gates","src/**")],
obs=["rustc","all protocol entry points"])

p("C19","Pulse-distance protocols tolerate missed falling edges",
"The NEC family, Denon and Samsung-BluRay are decoded from the distances between rising edges: if any subset of the falling-edge events of a frame is missing, the following rising event carrying the time since the last delivered event, the receiver reports the same command at the same rising edge as with all edges delivered.",
["inputs","fault_sequences"],"all subsets of missed falling edges (bounded number of switches between missed and delivered)",
"All tests deliver every edge.",
["src/protocol/nec/decoder.rs","src/protocol/denon/mod.rs","src/protocol/sbp/mod.rs"],
[("saved high time added on rising edge and cleared","src/protocol/*")],
state=[("dt_save/since_rising","time of the last falling edge event","src/protocol/*")],
obs=["Receiver::event"])

p("C20","Broken frames are reported as errors exactly once; nothing else is",
"NEC-family and Samsung-BluRay receivers report a frame that breaks off after its header exactly once, at the first rising edge whose distance is not a bit (for Samsung-BluRay: the pause where it belongs): a data error, or for Samsung-BluRay an address error while in the 16 address bits; afterwards they wait for a new header. Idle noise, complete frames, repeat frames and everything received by RC-5, RC-6 and Denon receivers never produce an error.",
["inputs","histories"],"all edge sequences",
"No test looks at a reported error.",
["src/protocol/nec/decoder.rs","src/protocol/sbp/mod.rs","src/protocol/denon/mod.rs","src/protocol/rc5/decoder.rs","src/protocol/rc6/decoder.rs","src/receiver.rs","src/receiver/error.rs"],
[("Err arms of the state machines","src/protocol/*"),("reset on error","src/receiver.rs")],
obs=["Receiver::event"])

p("C21","Every way of constructing a receiver gives the same receiver",
"Constructors and every order of builder calls (protocol, frequency, clock type, pin, remote) produce receivers, event-driven or polled, that behave identically when given the same protocol, frequency and signal; the default frequency is 1 MHz. Pin-driven receivers treat a low pin as the active level, give access to and release exactly the pin they were given, and the buffer receiver's explicit-resolution iterator equals one created at that resolution.",
["configurations","inputs"],"all builder call orders and constructors x protocols x frequencies x edge streams",
"The builder test constructs two receivers and compares nothing.",
["src/receiver/builder.rs","src/receiver.rs","src/receiver/ppoll.rs","src/receiver/bufferinput.rs","src/lib.rs"],
[("Builder methods","src/receiver/builder.rs"),("Receiver::{new,with_input,with_pin,with_fugit,with_fugit64}","src/receiver.rs")],
obs=["infrared::receiver()","Receiver","PeriodicPoll","BufferInputReceiver"])
p("C22","A transmission is received whatever the clocks of the two devices",
"Commands loaded one after another, at least 20 ms apart, into a PWM sender ticked at any rate of 20 kHz or more and observed at its output by a receiver of the same protocol whose own clock or sampling rate is any frequency of 20 kHz or more (RC-6: 40 kHz for both), event-driven by time stamps or polled, are each reported exactly once, in order, unflagged and without error, whatever the phase between the two clocks; with both clocks at 40 kHz or more also if the sender runs up to 1 % fast or slow. A multi-receiver reports them only in the slots of that timing family.",
["inputs","configurations","schedules"],"all commands x pairs of sender tick rate and receiver clock x phases between the clocks x drift",
"The tests feed the encoder's numbers to a receiver with the same clock; no test ticks a sender and times its output with another clock, so rounding on the two sides never adds up.",
["src/sender/hal.rs","src/sender/senders.rs","src/protocol/nec/encoder.rs","src/protocol/rc5/encoder.rs","src/protocol/rc6/encoder.rs","src/protocol/utils.rs","src/receiver.rs","src/receiver/ppoll.rs","src/receiver/time.rs","src/receiver/time/primitives.rs","src/receiver/multi.rs"],
[("Sender::tick, Sender::load","src/sender/hal.rs"),("rounding of durations and windows to ticks","src/protocol/utils.rs, src/receiver/time/primitives.rs"),("event_instant","src/receiver.rs")],
obs=["PwmPin","Receiver::event_instant","PeriodicPoll::poll","MultiReceiver::event_generic"])

p("C23","Front-ends drive any protocol decoder by its contract",
"Whatever decoder stands behind it, also a user-defined one, every front-end (duration, time-stamp and pin events, polled, buffer iterator, multi-receiver; constructed directly or built) creates it for the given frequency, hands it every edge exactly once, in order, with its direction and the time since the previous edge, fetches the command and resets the decoder exactly after it answers done, resets it and reports that very error (iterator: carries on; multi-receiver: no command) after it answers with an error, and otherwise leaves it alone. The reported command is the decoder's, converted to the chosen command type; a completion without a command is reported as nothing.",
["histories","configurations"],"all sequences of decoder answers x edge directions and durations x front-ends x clock types",
"No test uses a decoder of its own; the shipped ones never answer with validation or remote-control errors, rarely complete without a command, and forgive missing or extra resets.",
["src/receiver.rs","src/receiver/decoder.rs","src/receiver/ppoll.rs","src/receiver/iter.rs","src/receiver/bufferinput.rs","src/receiver/multi.rs","src/receiver/builder.rs","src/receiver/error.rs"],
[("event_edge","src/receiver.rs"),("event_total","src/receiver/decoder.rs"),("poll_base","src/receiver/ppoll.rs"),("next","src/receiver/iter.rs"),("ReceiverWrapper::event","src/receiver/multi.rs"),("From<DecodingError>","src/receiver/error.rs")],
obs=["ProtocolDecoder implemented by the check"])

p("C24","Timing tables classify durations, for any protocol's table",
"For every table of up to eight pulse lengths with percentage tolerances, every clock type and frequency (percentage times ticks fitting 32 bits, windows below half the clock type's range), looking up a duration gives the first table entry whose window, pulse length plus or minus its tolerance up to rounding, contains it and nothing if none does; zero durations and unused entries never match. Looking up a mark and a space together equals looking up their exact sum and gives nothing when that sum exceeds every window, also where it does not fit the clock type. The overlap check tells whether some nonzero duration lies in the windows of two used entries.",
["inputs","configurations"],"all tables x clock frequencies and types x durations and their partitions",
"Tests see the tables of the shipped protocols at three frequencies only; what user-defined protocols get is untested.",
["src/receiver/time.rs","src/receiver/time/primitives.rs","src/receiver/time/fgt.rs","src/protocol/utils.rs"],
[("PulseSpans::{new,get,get_sum,check_overlaps}","src/receiver/time.rs"),("Span::new, create_span","src/receiver/time/primitives.rs, src/receiver/time/fgt.rs")],
obs=["PulseSpans::get","PulseSpans::get_sum","PulseSpans::check_overlaps"])

p("C25","User-defined NEC variants get exactly what they define",
"For every NEC variant a user defines (own bit packing and unpacking, standard or Samsung timing), every front-end reports a well-formed frame as the variant unpacks its 32 bits, a repeat frame after it as the variant unpacks the same bits as a repeat, nothing where the variant refuses, and errors and repeat memory as for the shipped variants with that timing, whatever the variant refuses; and a command is sent as a frame with the variant's timing carrying exactly the bits it packs.",
["inputs","histories","configurations"],"all words, frame sequences and interval deviations x packings and refusals x front-ends, clocks and tick frequencies",
"Tests know the shipped variants only, which never refuse repeats and pack nothing but address and command bytes.",
["src/protocol/nec.rs","src/protocol/nec/decoder.rs","src/protocol/nec/encoder.rs"],
[("NecCommandVariant","src/protocol/nec.rs"),("NecDecoder::{event,command}","src/protocol/nec/decoder.rs"),("ProtocolEncoder for Nec<Cmd>","src/protocol/nec/encoder.rs")],
obs=["NecCommandVariant implemented by the check","Receiver::event","PeriodicPoll::poll","ProtocolEncoder::encode"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
