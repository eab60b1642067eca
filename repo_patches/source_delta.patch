From b840872f243d178f324de454e4762a3fc86a156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:51 +0000
Subject: [PATCH 01/22] fix: Denon decoder drops the last data bit

A 'one' in bit 47 completed the frame without being stored.
---
 src/protocol/denon/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 00fcb5b..582501b 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -86,7 +86,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
                 (DenonState::Idle,          PulseWidth::Sync)   => DenonState::Data(0),
                 (DenonState::Idle,          _)                  => DenonState::Idle,
                 (DenonState::Data(47),      PulseWidth::Zero)   => DenonState::Done,
-                (DenonState::Data(47),      PulseWidth::One)    => DenonState::Done,
+                (DenonState::Data(47),      PulseWidth::One)    => { self.buf |= 1 << 47; DenonState::Done }
                 (DenonState::Data(idx),     PulseWidth::Zero)   => DenonState::Data(idx + 1),
                 (DenonState::Data(idx),     PulseWidth::One)    => { self.buf |= 1 << idx; DenonState::Data(idx + 1) }
                 (DenonState::Data(_ix),     _)                  => DenonState::Idle,
-- 
2.43.0


From 03087adc27b12c399a02a98d0e7aaeac015098e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:51 +0000
Subject: [PATCH 02/22] fix: Denon decoder leaks bits of an aborted frame into
 the next one

An aborted frame returns to Idle without clearing the bit buffer.
---
 src/protocol/denon/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 582501b..25555b8 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -83,7 +83,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
                 .unwrap_or(PulseWidth::Fail);
 
             self.state = match (self.state, pulsewidth) {
-                (DenonState::Idle,          PulseWidth::Sync)   => DenonState::Data(0),
+                (DenonState::Idle,          PulseWidth::Sync)   => { self.buf = 0; DenonState::Data(0) }
                 (DenonState::Idle,          _)                  => DenonState::Idle,
                 (DenonState::Data(47),      PulseWidth::Zero)   => DenonState::Done,
                 (DenonState::Data(47),      PulseWidth::One)    => { self.buf |= 1 << 47; DenonState::Done }
-- 
2.43.0


From a1de4f260e262ac288c1615abcaa03c8f15e930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:50 +0000
Subject: [PATCH 03/22] fix: NEC repeat frame without a preceding complete
 command reports a phantom command

A repeat frame was turned into a command from whatever the bit buffer held:
zeros before the first command, or the bits of an aborted frame.
---
 src/protocol/nec/decoder.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/protocol/nec/decoder.rs b/src/protocol/nec/decoder.rs
index 6bf3bf5..2b6124c 100644
--- a/src/protocol/nec/decoder.rs
+++ b/src/protocol/nec/decoder.rs
@@ -33,6 +33,7 @@ impl<Mono: InfraMonotonic, Cmd: NecCommandVariant> DecoderBuilder<Mono> for Nec<
         NecDecoder {
             state: NecState::Init,
             bitbuf: 0,
+            complete: false,
             cmd_type: Default::default(),
             dt_save: Mono::ZERO_DURATION,
             pulsespans: PulseSpans::new(freq, &pulselens::<Cmd>(), &TOL),
@@ -45,6 +46,8 @@ pub struct NecDecoder<Mono: InfraMonotonic, C = NecCommand> {
     state: NecState,
     // Data buffer
     bitbuf: u32,
+    // The data buffer holds a completely received command
+    complete: bool,
     // Nec Command type
     cmd_type: PhantomData<C>,
     // Saved dt
@@ -100,12 +103,12 @@ where
                 .unwrap_or(PulseWidth::Invalid);
 
             let status = match (self.state, pulsewidth) {
-                (Init,              Sync)   => { self.bitbuf = 0; Receiving(0) },
-                (Init,              Repeat) => RepeatDone,
+                (Init,              Sync)   => { self.bitbuf = 0; self.complete = false; Receiving(0) },
+                (Init,              Repeat) if self.complete => RepeatDone,
                 (Init,              _)      => Init,
 
-                (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; Done }
-                (Receiving(31),     Zero)   => Done,
+                (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; self.complete = true; Done }
+                (Receiving(31),     Zero)   => { self.complete = true; Done }
                 (Receiving(bit),    One)    => { self.bitbuf |= 1 << bit; Receiving(bit + 1) }
                 (Receiving(bit),    Zero)   => Receiving(bit + 1),
                 (Receiving(_),      _)      => Err(DecodingError::Data),
-- 
2.43.0


From a998ffabadd7659a6ed60b02c6d87b363e4a861a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:50 +0000
Subject: [PATCH 04/22] fix: buffer iterator ends at the first undecodable
 frame

An error, or a frame without a valid command, ended the iteration although the
rest of the buffer may hold further commands.
---
 src/receiver/iter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/receiver/iter.rs b/src/receiver/iter.rs
index 7398553..dbb5537 100644
--- a/src/receiver/iter.rs
+++ b/src/receiver/iter.rs
@@ -60,11 +60,12 @@ where
                 State::Done => {
                     let cmd = self.decoder.command();
                     self.decoder.reset();
-                    break cmd.map(|r| r.into());
+                    if let Some(cmd) = cmd {
+                        break Some(cmd.into());
+                    }
                 }
                 State::Error(_) => {
                     self.decoder.reset();
-                    break None;
                 }
             }
         }
-- 
2.43.0


From a367d8bb61d0edf31117114ec01e1799d2c25cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:51 +0000
Subject: [PATCH 05/22] fix: zero length interval is taken for a valid pulse

Unused pulse spans are [0, 0], so a zero interval matched the first of them: RC-5
counted it as three time units and RC-6 as seven.
---
 src/receiver/time.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/receiver/time.rs b/src/receiver/time.rs
index 96fe8fa..65ed11d 100644
--- a/src/receiver/time.rs
+++ b/src/receiver/time.rs
@@ -54,6 +54,11 @@ where
     }
 
     pub fn get<P: From<usize>>(&self, pl: Mono::Duration) -> Option<P> {
+        // Unused spans are empty
+        if pl == Mono::ZERO_DURATION {
+            return None;
+        }
+
         self.spans
             .iter()
             .position(|v| v.contains(pl))
-- 
2.43.0


From 5fb342fb0327627f9efdb3f8808f7352be173e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:51 +0000
Subject: [PATCH 06/22] fix: long intervals overflow in the NEC, Denon and
 Samsung Blu-ray decoders

Adding mark and space could overflow: a panic with overflow checks, otherwise a
very long interval could be taken for a valid pulse.
---
 src/protocol/denon/mod.rs   |  2 +-
 src/protocol/nec/decoder.rs |  4 +---
 src/protocol/sbp/mod.rs     |  3 +--
 src/receiver/time.rs        | 12 ++++++++++++
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 25555b8..2653111 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -79,7 +79,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
     fn event(&mut self, rising: bool, dt: Mono::Duration) -> State {
 
         if rising {
-            let pulsewidth = self.spans.get::<PulseWidth>( self.dt_save + dt)
+            let pulsewidth = self.spans.get_sum::<PulseWidth>(self.dt_save, dt)
                 .unwrap_or(PulseWidth::Fail);
 
             self.state = match (self.state, pulsewidth) {
diff --git a/src/protocol/nec/decoder.rs b/src/protocol/nec/decoder.rs
index 2b6124c..5b7c0bb 100644
--- a/src/protocol/nec/decoder.rs
+++ b/src/protocol/nec/decoder.rs
@@ -97,9 +97,7 @@ where
 
         if rising {
 
-            let total_duration = dur + self.dt_save;
-
-            let pulsewidth = self.pulsespans.get(total_duration)
+            let pulsewidth = self.pulsespans.get_sum(self.dt_save, dur)
                 .unwrap_or(PulseWidth::Invalid);
 
             let status = match (self.state, pulsewidth) {
diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 49551e8..94a5c6d 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -138,8 +138,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Sbp, Mono> for SbpDecoder<Mono> {
         use SbpState::*;
 
         if rising {
-            let dt = self.since_rising + dt;
-            let pulsewidth = self.spans.get::<SbpPulse>(dt).unwrap_or(SbpPulse::NotAPulseWidth);
+            let pulsewidth = self.spans.get_sum::<SbpPulse>(self.since_rising, dt).unwrap_or(SbpPulse::NotAPulseWidth);
 
             self.state = match (self.state, pulsewidth) {
                 (Init,          Sync)   => Address(0),
diff --git a/src/receiver/time.rs b/src/receiver/time.rs
index 65ed11d..f5ab757 100644
--- a/src/receiver/time.rs
+++ b/src/receiver/time.rs
@@ -65,6 +65,18 @@ where
             .map(Into::into)
     }
 
+    /// Get the span of two consecutive durations
+    pub fn get_sum<P: From<usize>>(&self, a: Mono::Duration, b: Mono::Duration) -> Option<P> {
+        // A duration longer than any span can't be part of a pulse, and adding it could overflow
+        let usable = |d| self.spans.iter().any(|v| d <= v.high);
+
+        if usable(a) && usable(b) {
+            self.get(a + b)
+        } else {
+            None
+        }
+    }
+
     pub fn check_overlaps(&self) -> bool {
         for i in 0..self.spans.len() {
             for j in 0..self.spans.len() {
-- 
2.43.0


From 38c37e6805beb082c57af7c64b08c3562c255231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:51 +0000
Subject: [PATCH 07/22] fix: Samsung Blu-ray decoder reuses the previous mark
 when a falling edge is missed

The saved mark was not cleared at the rising edge, as the other pulse distance
decoders do.
---
 src/protocol/sbp/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 94a5c6d..deed23a 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -162,6 +162,8 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Sbp, Mono> for SbpDecoder<Mono> {
                 (Done,          _)      => Done,
                 (Err(err),      _)      => Err(err),
             };
+
+            self.since_rising = Mono::ZERO_DURATION;
         } else {
             self.since_rising = dt;
         }
-- 
2.43.0


From 4d603b0ec299e2d358fc4adc81775681b8d3bef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:51 +0000
Subject: [PATCH 08/22] fix: crate does not build with sbp but without remotes,
 or embedded-hal but without embedded

Imports were guarded by the wrong feature.
---
 src/protocol/sbp/mod.rs | 4 +---
 src/receiver/ppoll.rs   | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index deed23a..522f157 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -9,14 +9,12 @@
 
 use core::convert::TryInto;
 
-#[cfg(feature = "remotes")]
-use crate::receiver::{DecodingError, ProtocolDecoder, State};
 use crate::{
     cmd::{AddressCommand, Command},
     protocol::Protocol,
     receiver::{
         time::{InfraMonotonic, PulseSpans},
-        DecoderBuilder,
+        DecoderBuilder, DecodingError, ProtocolDecoder, State,
     },
     ProtocolId,
 };
diff --git a/src/receiver/ppoll.rs b/src/receiver/ppoll.rs
index 02f6dd4..82e96af 100644
--- a/src/receiver/ppoll.rs
+++ b/src/receiver/ppoll.rs
@@ -1,6 +1,6 @@
 use core::marker::PhantomData;
 
-#[cfg(feature = "embedded")]
+#[cfg(feature = "embedded-hal")]
 use embedded_hal::digital::v2::InputPin;
 
 use crate::{
-- 
2.43.0


From b331c07a8891597b1e8b860fee1ded1f225002f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:51 +0000
Subject: [PATCH 09/22] fix: sender transmits leftovers of the buffer after the
 end of a command

The pulse buffer was read to its capacity instead of to the end of the loaded
pulse train, so the output kept toggling after (or without) a command.
---
 src/sender/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sender/buffer.rs b/src/sender/buffer.rs
index f24a0b9..0a05e06 100644
--- a/src/sender/buffer.rs
+++ b/src/sender/buffer.rs
@@ -23,7 +23,7 @@ impl<const S: usize> PulsedataBuffer<S> {
     }
 
     pub fn get(&self, index: usize) -> Option<u32> {
-        self.buf.get(index).cloned()
+        self.buffer().get(index).cloned()
     }
 
     pub fn buffer(&self) -> &[u32] {
-- 
2.43.0


From 468cbb8680f7cbae39712645582d2f73645abf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:00 +0000
Subject: [PATCH 10/22] fix: command creation silently changes numbers that do
 not fit

NEC and Samsung truncated address and command to 8 bits; RC-5 accepted more than
5 address and 6 command bits, which then overlap in the transmitted frame.
---
 src/protocol/nec/samsung.rs  | 4 ++--
 src/protocol/nec/standard.rs | 4 ++--
 src/protocol/rc5/mod.rs      | 7 ++++++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/protocol/nec/samsung.rs b/src/protocol/nec/samsung.rs
index cd60a29..c3f8ac9 100644
--- a/src/protocol/nec/samsung.rs
+++ b/src/protocol/nec/samsung.rs
@@ -53,8 +53,8 @@ impl AddressCommand for SamsungNecCommand {
 
     fn create(addr: u32, cmd: u32) -> Option<Self> {
         Some(SamsungNecCommand {
-            addr: addr as u8,
-            cmd: cmd as u8,
+            addr: addr.try_into().ok()?,
+            cmd: cmd.try_into().ok()?,
             repeat: false,
         })
     }
diff --git a/src/protocol/nec/standard.rs b/src/protocol/nec/standard.rs
index e50d63e..ed70c3e 100644
--- a/src/protocol/nec/standard.rs
+++ b/src/protocol/nec/standard.rs
@@ -54,8 +54,8 @@ impl AddressCommand for NecCommand {
 
     fn create(addr: u32, cmd: u32) -> Option<Self> {
         Some(NecCommand {
-            addr: addr as u8,
-            cmd: cmd as u8,
+            addr: addr.try_into().ok()?,
+            cmd: cmd.try_into().ok()?,
             repeat: false,
         })
     }
diff --git a/src/protocol/rc5/mod.rs b/src/protocol/rc5/mod.rs
index 59ca5bb..c6bc019 100644
--- a/src/protocol/rc5/mod.rs
+++ b/src/protocol/rc5/mod.rs
@@ -90,7 +90,12 @@ impl AddressCommand for Rc5Command {
 
     fn create(addr: u32, cmd: u32) -> Option<Rc5Command> {
         let addr: u8 = addr.try_into().ok()?;
-        let cmd = cmd.try_into().ok()?;
+        let cmd: u8 = cmd.try_into().ok()?;
+
+        // 5 bit address, 6 bit command
+        if addr > 0x1F || cmd > 0x3F {
+            return None;
+        }
 
         Some(Rc5Command::new(addr, cmd, false))
     }
-- 
2.43.0


From aac47d03379fbd0ce89be1625807319bd5d9462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:00 +0000
Subject: [PATCH 11/22] fix: Apple command number loses the command page

The page was shifted out of its 8 bits, so commands of different pages got the
same number.
---
 src/protocol/nec/apple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/nec/apple.rs b/src/protocol/nec/apple.rs
index e925129..a416a60 100644
--- a/src/protocol/nec/apple.rs
+++ b/src/protocol/nec/apple.rs
@@ -70,7 +70,7 @@ impl AddressCommand for AppleNecCommand {
     }
 
     fn command(&self) -> u32 {
-        u32::from((self.command_page << 7) | self.command)
+        (u32::from(self.command_page) << 7) | u32::from(self.command)
     }
 
     fn create(_addr: u32, _cmd: u32) -> Option<Self> {
-- 
2.43.0


From b5fe0ed4aa89c26fd0c1b844940553f57332602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:01 +0000
Subject: [PATCH 12/22] fix: sending an Apple command panics

Packing the command was not implemented although the protocol has an encoder.
---
 src/protocol/nec/apple.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/protocol/nec/apple.rs b/src/protocol/nec/apple.rs
index a416a60..fc40504 100644
--- a/src/protocol/nec/apple.rs
+++ b/src/protocol/nec/apple.rs
@@ -6,6 +6,8 @@ use crate::{
     ProtocolId,
 };
 
+const APPLE_VENDOR_ID: u16 = 0x43f;
+
 #[derive(Debug, Copy, Clone, PartialEq)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
 pub struct AppleNecCommand {
@@ -20,7 +22,6 @@ impl NecCommandVariant for AppleNecCommand {
 
     fn validate(bits: u32) -> bool {
         let vendor = ((bits >> 5) & 0x7FF) as u16;
-        const APPLE_VENDOR_ID: u16 = 0x43f;
 
         vendor == APPLE_VENDOR_ID &&
             // Odd parity
@@ -52,7 +53,14 @@ impl NecCommandVariant for AppleNecCommand {
     }
 
     fn pack(&self) -> u32 {
-        unimplemented!()
+        let bits = (u32::from(self.command_page) & 0x1F)
+            | (u32::from(APPLE_VENDOR_ID) << 5)
+            | ((u32::from(self.command) & 0x7F) << 17)
+            | (u32::from(self.device_id) << 24);
+
+        // Odd parity
+        let parity = (bits.count_ones() & 0x1) ^ 0x1;
+        bits | (parity << 16)
     }
 }
 
-- 
2.43.0


From d85fba466588dbccb10765cdcc20c1e8ce09a1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:01 +0000
Subject: [PATCH 13/22] fix: RC-5, RC-6 and Samsung Blu-ray decoders offer a
 command before it is complete

command() is documented to return the data only if the state is Done.
---
 src/protocol/rc5/decoder.rs | 4 ++++
 src/protocol/rc6/decoder.rs | 4 ++++
 src/protocol/sbp/mod.rs     | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/protocol/rc5/decoder.rs b/src/protocol/rc5/decoder.rs
index 3a404d1..1c6c073 100644
--- a/src/protocol/rc5/decoder.rs
+++ b/src/protocol/rc5/decoder.rs
@@ -68,6 +68,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc5, Mono> for Rc5Decoder<Mono> {
     }
 
     fn command(&self) -> Option<Rc5Command> {
+        if !matches!(self.state, Rc5State::Done) {
+            return None;
+        }
+
         Some(Rc5Command::unpack(self.bitbuf))
     }
 
diff --git a/src/protocol/rc6/decoder.rs b/src/protocol/rc6/decoder.rs
index 76234d6..4600ee3 100644
--- a/src/protocol/rc6/decoder.rs
+++ b/src/protocol/rc6/decoder.rs
@@ -93,6 +93,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc6, Mono> for Rc6Decoder<Mono> {
     }
 
     fn command(&self) -> Option<Rc6Command> {
+        if !matches!(self.state, Rc6State::Done) {
+            return None;
+        }
+
         Some(Rc6Command::from_bits(self.data, self.toggle))
     }
 
diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 522f157..8a57355 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -169,6 +169,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Sbp, Mono> for SbpDecoder<Mono> {
         self.state.into()
     }
     fn command(&self) -> Option<SbpCommand> {
+        if !matches!(self.state, SbpState::Done) {
+            return None;
+        }
+
         Some(SbpCommand::unpack(self.address, self.command))
     }
 
-- 
2.43.0


From c4d828410a572a2108f254f5264c1cd13c2558b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:01 +0000
Subject: [PATCH 14/22] fix: RC-5 decoder accepts frames without the mid-bit
 edges

A two unit pulse from one bit boundary to the next is not valid bi-phase code, but
was silently skipped, so that noise decoded as a command.
---
 src/protocol/rc5/decoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/protocol/rc5/decoder.rs b/src/protocol/rc5/decoder.rs
index 1c6c073..6b6024a 100644
--- a/src/protocol/rc5/decoder.rs
+++ b/src/protocol/rc5/decoder.rs
@@ -28,7 +28,12 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc5, Mono> for Rc5Decoder<Mono> {
         use Rc5State::*;
 
         // Find this delta t in the defined ranges
-        let clock_ticks = self.spans.get::<usize>(delta_t);
+        // Every bit has an edge in its middle, a pulse from a bit boundary is always one unit long
+        let at_boundary = self.clock & 1 == 1;
+        let clock_ticks = self
+            .spans
+            .get::<usize>(delta_t)
+            .filter(|ticks| !at_boundary || *ticks == 0);
 
         if let Some(ticks) = clock_ticks {
             self.clock += ticks + 1;
-- 
2.43.0


From 6dcfeba0fc5f34f105d9206d343581b936079160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:01 +0000
Subject: [PATCH 15/22] fix: RC-6 decoder accepts frames without the mid-bit
 edges

Pulses that skip the edge in the middle of a bit were silently accepted, so that
noise decoded as a command.
---
 src/protocol/rc6/decoder.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/protocol/rc6/decoder.rs b/src/protocol/rc6/decoder.rs
index 4600ee3..7fd7ba1 100644
--- a/src/protocol/rc6/decoder.rs
+++ b/src/protocol/rc6/decoder.rs
@@ -40,7 +40,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc6, Mono> for Rc6Decoder<Mono> {
         use Rc6State::*;
 
         // Find the nbr of time unit ticks the dt represents
-        let ticks = self.spans.get::<usize>(dt).map(|v| v + 1);
+        let ticks = self.spans.get::<usize>(dt).map(|v| v + 1).filter(|v| self.is_valid(*v));
 
         // Reconstruct the clock
         if let Some(ticks) = ticks {
@@ -72,7 +72,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc6, Mono> for Rc6Decoder<Mono> {
             (HeaderData(_), _,          None)       => Idle,
 
             (Trailing,      false,      Some(3))    => { self.toggle = true; Data(15) }
-            (Trailing,      true,       Some(2))    => { self.toggle = false; Data(15) }
+            (Trailing,      true,       Some(2)) if !odd => { self.toggle = false; Data(15) }
             (Trailing,      false,      Some(1))    => Trailing,
             (Trailing,      _,          _)          => Idle,
 
@@ -121,6 +121,23 @@ pub struct Rc6Decoder<Mono: InfraMonotonic> {
     spans: PulseSpans<Mono>,
 }
 
+impl<Mono: InfraMonotonic> Rc6Decoder<Mono> {
+    /// Every bit has an edge in its middle, which limits the length of the next pulse
+    fn is_valid(&self, ticks: usize) -> bool {
+        match self.state {
+            Rc6State::HeaderData(_) | Rc6State::Data(_) => match self.clock {
+                // Middle of the double length toggle bit
+                18 => ticks == 2 || ticks == 3,
+                // Middle of a bit
+                clock if clock & 1 == 1 => ticks <= 2,
+                // Bit boundary
+                _ => ticks == 1,
+            },
+            _ => true,
+        }
+    }
+}
+
 #[derive(Clone, Copy, Debug)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
 pub enum Rc6State {
-- 
2.43.0


From 3f9beddbb38093f2c20e9617583d268daef128e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:02 +0000
Subject: [PATCH 16/22] fix: pulse lengths are off for clocks that are not a
 multiple of 1 kHz

To avoid an overflow the clock frequency was truncated to kHz, which made the spans
up to 0.3 % too short, and different from those of the typed (fugit) clocks.
---
 src/protocol/utils.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/protocol/utils.rs b/src/protocol/utils.rs
index 58b763d..611f766 100644
--- a/src/protocol/utils.rs
+++ b/src/protocol/utils.rs
@@ -1,12 +1,5 @@
-pub(crate) const fn scale_with_samplerate(len: u32, mut samplerate: u32) -> u32 {
-    let mut div = 1_000_000;
-
-    while len.checked_mul(samplerate).is_none() {
-        div /= 1000;
-        samplerate /= 1000;
-    }
-
-    (len * samplerate) / div
+pub(crate) const fn scale_with_samplerate(len: u32, samplerate: u32) -> u32 {
+    ((len as u64 * samplerate as u64) / 1_000_000) as u32
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1a3304332876fb85781f1b342204450a2f41f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:02 +0000
Subject: [PATCH 17/22] fix: encoders overflow at high tick frequencies and
 round the frequency to kHz

NEC did not compile above 477 MHz and RC-6 above 9.67 MHz; NEC and RC-5 pulses were
too short by up to 5 % for frequencies that are not a multiple of 1 kHz.
---
 src/protocol/nec/encoder.rs | 26 +++++++-------------------
 src/protocol/rc5/encoder.rs | 19 +++++--------------
 src/protocol/rc6/encoder.rs |  7 +++++--
 3 files changed, 17 insertions(+), 35 deletions(-)

diff --git a/src/protocol/nec/encoder.rs b/src/protocol/nec/encoder.rs
index 858e080..6022d71 100644
--- a/src/protocol/nec/encoder.rs
+++ b/src/protocol/nec/encoder.rs
@@ -1,32 +1,20 @@
 use crate::{
-    protocol::{nec::NecCommandVariant, Nec},
+    protocol::{nec::NecCommandVariant, utils::scale_with_samplerate, Nec},
     sender::ProtocolEncoder,
 };
 
-const fn calc_ticks(l: u32, mut f: u32) -> u32 {
-    //TODO: Fix overflow
-    let mut div = 1_000_000;
-
-    if f > 1000 {
-        f /= 1000;
-        div /= 1000;
-    }
-
-    f * l / div
-}
-
 impl<Cmd, const F: u32> ProtocolEncoder<F> for Nec<Cmd>
 where
     Cmd: NecCommandVariant,
 {
     type EncoderData = [u32; 6];
     const DATA: [u32; 6] = [
-        calc_ticks(Cmd::PULSE_DISTANCE.header_high, F),
-        calc_ticks(Cmd::PULSE_DISTANCE.header_low, F),
-        calc_ticks(Cmd::PULSE_DISTANCE.repeat_low, F),
-        calc_ticks(Cmd::PULSE_DISTANCE.data_high, F),
-        calc_ticks(Cmd::PULSE_DISTANCE.data_zero_low, F),
-        calc_ticks(Cmd::PULSE_DISTANCE.data_one_low, F),
+        scale_with_samplerate(Cmd::PULSE_DISTANCE.header_high, F),
+        scale_with_samplerate(Cmd::PULSE_DISTANCE.header_low, F),
+        scale_with_samplerate(Cmd::PULSE_DISTANCE.repeat_low, F),
+        scale_with_samplerate(Cmd::PULSE_DISTANCE.data_high, F),
+        scale_with_samplerate(Cmd::PULSE_DISTANCE.data_zero_low, F),
+        scale_with_samplerate(Cmd::PULSE_DISTANCE.data_one_low, F),
     ];
 
     fn encode(cmd: &Self::Cmd, b: &mut [u32]) -> usize {
diff --git a/src/protocol/rc5/encoder.rs b/src/protocol/rc5/encoder.rs
index 4019414..d274854 100644
--- a/src/protocol/rc5/encoder.rs
+++ b/src/protocol/rc5/encoder.rs
@@ -1,20 +1,11 @@
-use crate::{protocol::Rc5, sender::ProtocolEncoder};
-
-//TODO: Check Overflow
-const fn calc_freq(mut f: u32) -> u32 {
-    let mut div = 1_000_000;
-
-    if f > 1000 {
-        f /= 1000;
-        div /= 1000;
-    }
-
-    (889 * f) / div
-}
+use crate::{
+    protocol::{utils::scale_with_samplerate, Rc5},
+    sender::ProtocolEncoder,
+};
 
 impl<const FREQ: u32> ProtocolEncoder<FREQ> for Rc5 {
     type EncoderData = [u32; 1];
-    const DATA: Self::EncoderData = [calc_freq(FREQ)];
+    const DATA: Self::EncoderData = [scale_with_samplerate(889, FREQ)];
 
     fn encode(cmd: &Self::Cmd, buf: &mut [u32]) -> usize {
         // Command as bits
diff --git a/src/protocol/rc6/encoder.rs b/src/protocol/rc6/encoder.rs
index 2b40348..a60a244 100644
--- a/src/protocol/rc6/encoder.rs
+++ b/src/protocol/rc6/encoder.rs
@@ -1,8 +1,11 @@
-use crate::{protocol::Rc6, sender::ProtocolEncoder};
+use crate::{
+    protocol::{utils::scale_with_samplerate, Rc6},
+    sender::ProtocolEncoder,
+};
 
 impl<const F: u32> ProtocolEncoder<F> for Rc6 {
     type EncoderData = [u32; 1];
-    const DATA: Self::EncoderData = [((444 * F) / 1_000_000)];
+    const DATA: Self::EncoderData = [scale_with_samplerate(444, F)];
 
     fn encode(cmd: &Self::Cmd, b: &mut [u32]) -> usize {
         use Level::*;
-- 
2.43.0


From a20075d79a062cd5a90a3bb6268e2e2d57e55630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:02 +0000
Subject: [PATCH 18/22] fix: NEC and RC-5 encoders leave out the last mark

Without it the last NEC bit is never completed, and with an RC-5 command ending in a
one the carrier is left on at the end of the pulse train.
---
 src/protocol/nec/encoder.rs | 4 ++++
 src/protocol/rc5/encoder.rs | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/protocol/nec/encoder.rs b/src/protocol/nec/encoder.rs
index 6022d71..f9245f7 100644
--- a/src/protocol/nec/encoder.rs
+++ b/src/protocol/nec/encoder.rs
@@ -37,6 +37,10 @@ where
             bi += 2;
         }
 
+        // The mark that ends the last bit
+        b[bi] = <Self as ProtocolEncoder<F>>::DATA[3];
+        bi += 1;
+
         bi
     }
 }
diff --git a/src/protocol/rc5/encoder.rs b/src/protocol/rc5/encoder.rs
index d274854..57a7fc2 100644
--- a/src/protocol/rc5/encoder.rs
+++ b/src/protocol/rc5/encoder.rs
@@ -33,6 +33,12 @@ impl<const FREQ: u32> ProtocolEncoder<FREQ> for Rc5 {
             prev = cur;
         }
 
+        // A one ends with a mark
+        if prev {
+            buf[index] = rc5len;
+            index += 1;
+        }
+
         index
     }
 }
-- 
2.43.0


From e94f9eee8ef7de1e65bb98256b204eb8a0738f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:35 +0000
Subject: [PATCH 19/22] fix: pulse spans overflow with 32 bit fugit clocks

Converting microseconds to ticks overflowed for clocks above 318 kHz that do not
divide 1 MHz evenly (or are not a multiple of it): a panic with overflow checks,
wrong spans without.
---
 src/receiver/time/fgt.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/receiver/time/fgt.rs b/src/receiver/time/fgt.rs
index 6e71079..9ff6714 100644
--- a/src/receiver/time/fgt.rs
+++ b/src/receiver/time/fgt.rs
@@ -1,4 +1,4 @@
-use fugit::{Duration, ExtU32, ExtU64, Instant};
+use fugit::{Duration, ExtU64, Instant};
 
 use crate::receiver::time::{InfraMonotonic, Span};
 
@@ -13,7 +13,9 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u32, NOM, DENO
     }
 
     fn create_span(_freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
-        Span::<Self::Duration>::new(p.micros(), t)
+        // micros() overflows for u32
+        let ticks = (u64::from(p) * u64::from(DENOM)) / (1_000_000 * u64::from(NOM));
+        Span::<Self::Duration>::new(Duration::<u32, NOM, DENOM>::from_ticks(ticks as u32), t)
     }
 }
 
-- 
2.43.0


From 9fcf88fe32aa2590089fd73a89da3a4cdd1a59f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:09 +0000
Subject: [PATCH 20/22] fix: RC-6 encoder's leader too short for the decoder at
 low tick frequencies

A time unit was truncated to whole ticks and then multiplied by six for the
leader: at 20 kHz the leader came out as 48 instead of 53 ticks, which the
decoder takes for five units. Scale each length once instead.
---
 src/protocol/rc6/encoder.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/protocol/rc6/encoder.rs b/src/protocol/rc6/encoder.rs
index a60a244..b8af2b1 100644
--- a/src/protocol/rc6/encoder.rs
+++ b/src/protocol/rc6/encoder.rs
@@ -4,23 +4,32 @@ use crate::{
 };
 
 impl<const F: u32> ProtocolEncoder<F> for Rc6 {
-    type EncoderData = [u32; 1];
-    const DATA: Self::EncoderData = [scale_with_samplerate(444, F)];
+    // Lengths of 0 to 6 time units, each rounded only once
+    type EncoderData = [u32; 7];
+    const DATA: Self::EncoderData = [
+        0,
+        scale_with_samplerate(444, F),
+        scale_with_samplerate(2 * 444, F),
+        scale_with_samplerate(3 * 444, F),
+        scale_with_samplerate(4 * 444, F),
+        scale_with_samplerate(5 * 444, F),
+        scale_with_samplerate(6 * 444, F),
+    ];
 
     fn encode(cmd: &Self::Cmd, b: &mut [u32]) -> usize {
         use Level::*;
 
-        let rc6len = <Self as ProtocolEncoder<F>>::DATA[0];
+        let lens = <Self as ProtocolEncoder<F>>::DATA;
 
-        let header = leader(cmd.toggle, rc6len);
+        let header = leader(cmd.toggle, 1);
 
         let bits = (u16::from(cmd.addr) << 8) | u16::from(cmd.cmd);
-        let payload = payload(bits, rc6len);
+        let payload = payload(bits, 1);
 
         let mut prevlev = Low(0);
         let mut index = 0;
 
-        let low = [Low(6 * (rc6len))];
+        let low = [Low(6)];
 
         let all = header.iter().chain(payload.iter()).chain(&low);
 
@@ -30,12 +39,12 @@ impl<const F: u32> ProtocolEncoder<F> for Rc6 {
                     prevlev = Low(lt + nlt);
                 }
                 (Low(lt), High(ht)) => {
-                    b[index] = lt;
+                    b[index] = lens[lt as usize];
                     index += 1;
                     prevlev = High(ht)
                 }
                 (High(ht), Low(lt)) => {
-                    b[index] = ht;
+                    b[index] = lens[ht as usize];
                     index += 1;
                     prevlev = Low(lt);
                 }
-- 
2.43.0


From 3317998b5988ea58e9444d69d6dda7571cb8e628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:04 +0000
Subject: [PATCH 21/22] fix: long idle times wrap around in the polled receiver

After 2^32 idle polls the sample counter wraps, and an idle time of 2^32
plus a few milliseconds worth of polls was handed to the decoder as those
few milliseconds, which could look like a header. Count the samples since
the last edge instead, saturating.
---
 src/receiver/ppoll.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/receiver/ppoll.rs b/src/receiver/ppoll.rs
index 82e96af..b1e6ca5 100644
--- a/src/receiver/ppoll.rs
+++ b/src/receiver/ppoll.rs
@@ -14,12 +14,10 @@ pub struct PeriodicPoll<
     Input = NoPin,
     Cmd: From<<Proto as Protocol>::Cmd> = <Proto as Protocol>::Cmd,
 > {
-    /// Our internal clock
+    /// Samples since the last edge
     clock: u32,
     /// Last seen edge
     edge: bool,
-    /// Seen at
-    last_edge: u32,
     /// The decoder
     decoder: Proto::Decoder,
     /// Input pin or NoPinInput
@@ -39,21 +37,21 @@ where
             input,
             clock: 0,
             edge: false,
-            last_edge: 0,
             cmd: PhantomData,
         }
     }
 
     pub fn poll_base(&mut self, edge: bool) -> Result<Option<Cmd>, DecodingError> {
-        self.clock = self.clock.wrapping_add(1);
+        // A long idle time must not wrap around and look like a short one
+        self.clock = self.clock.saturating_add(1);
 
         if edge == self.edge {
             return Ok(None);
         }
 
-        let ds = self.clock.wrapping_sub(self.last_edge);
+        let ds = self.clock;
         self.edge = edge;
-        self.last_edge = self.clock;
+        self.clock = 0;
 
         self.decoder
             .event_total(edge, ds)
-- 
2.43.0


From 2c54c44e3562fe1e25639e9a0a8708af80e0ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:36 +0000
Subject: [PATCH 22/22] fix: unused pulse spans don't overlap

---
 src/receiver/time.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/receiver/time.rs b/src/receiver/time.rs
index f5ab757..4cc1708 100644
--- a/src/receiver/time.rs
+++ b/src/receiver/time.rs
@@ -80,7 +80,10 @@ where
     pub fn check_overlaps(&self) -> bool {
         for i in 0..self.spans.len() {
             for j in 0..self.spans.len() {
-                if i == j {
+                // Unused spans don't match anything
+                let unused = |n: usize| self.spans[n].high == Mono::ZERO_DURATION;
+
+                if i == j || unused(i) || unused(j) {
                     continue;
                 }
 
-- 
2.43.0

