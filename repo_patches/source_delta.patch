From 442512fed97f13c23206bb7a25969d1313390cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 01/50] fix: Timer: an interval of one cycle must not wrap the
 counter

---
 amlib/utils/timer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/amlib/utils/timer.py b/amlib/utils/timer.py
index 8ac9f39..9c1cd88 100644
--- a/amlib/utils/timer.py
+++ b/amlib/utils/timer.py
@@ -31,7 +31,11 @@ class Timer(Elaboratable):
                     # done should appear exactly 'load' cycles
                     # load is one-based, but we stop at zero
                     m.d.sync += counter.eq(counter - 1)
-                    m.next = "RUNNING"
+                    # a one cycle interval is already over in the next cycle
+                    with m.If(counter == 1):
+                        m.next = "DONE"
+                    with m.Else():
+                        m.next = "RUNNING"
 
             with m.State("RUNNING"):
                 m.d.sync += counter.eq(counter - 1)
@@ -43,7 +47,9 @@ class Timer(Elaboratable):
                     # we want the next done to appear
                     # exactly 'reload_in' cycles later
                     m.d.sync += counter.eq(self.reload_in - 1)
-                    m.next = "RUNNING"
+                    # with a period of one cycle done stays asserted
+                    with m.If(self.reload_in > 1):
+                        m.next = "RUNNING"
                 if self._allow_restart:
                     with m.Else():
                         m.next = "IDLE"
-- 
2.43.0


From 9f418f81cff347f1d3bdc2efa065591a6210bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 02/50] fix: Timer: accept externally supplied load and reload
 signals

---
 amlib/utils/timer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/utils/timer.py b/amlib/utils/timer.py
index 9c1cd88..3c855f3 100644
--- a/amlib/utils/timer.py
+++ b/amlib/utils/timer.py
@@ -6,8 +6,8 @@ class Timer(Elaboratable):
     def __init__(self, *, width=32, load=None, reload=None, allow_restart=True):
         self._width = width
         self._allow_restart = allow_restart
-        self.load_in     = Signal(width, name="load")   if load   == None else load
-        self.reload_in   = Signal(width, name="reload") if reload == None else reload
+        self.load_in     = Signal(width, name="load")   if load   is None else load
+        self.reload_in   = Signal(width, name="reload") if reload is None else reload
         self.counter_out = Signal(width)
         self.start       = Signal()
         self.done        = Signal()
-- 
2.43.0


From e816132931311d176c2ee69c20cbac3436d454f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 03/50] fix: past_value_of and edge detectors: keep all bits of
 the delayed signal

---
 amlib/utils/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/utils/__init__.py b/amlib/utils/__init__.py
index 01d14d9..6c069d4 100644
--- a/amlib/utils/__init__.py
+++ b/amlib/utils/__init__.py
@@ -32,7 +32,7 @@ def _single_edge_detector(m, signal, *, domain, edge='rising'):
     """ Generates and returns a signal that goes high for a cycle upon a given edge of a given signal. """
 
     # Create a one-cycle delayed version of our input signal.
-    delayed = Signal()
+    delayed = Signal(len(signal))
     m.d[domain] += delayed.eq(signal)
 
     # And create a signal that detects edges on the relevant signal.
@@ -52,7 +52,7 @@ def past_value_of(m, signal, *, domain):
     """ Generates and returns a signal that represents the value of another signal a cycle ago. """
 
     # Create a one-cycle delayed version of our input signal.
-    delayed = Signal()
+    delayed = Signal(len(signal))
     m.d[domain] += delayed.eq(signal)
 
     return delayed
-- 
2.43.0


From d40dd0c0935f4b88fd8ab50ad093212289d61178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 04/50] fix: OneHotMultiplexer: pass no muxed signals through
 while no input is valid

---
 amlib/utils/bus.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/amlib/utils/bus.py b/amlib/utils/bus.py
index e04ff99..65b6eab 100644
--- a/amlib/utils/bus.py
+++ b/amlib/utils/bus.py
@@ -100,18 +100,20 @@ class OneHotMultiplexer(Elaboratable):
             valid_signal = getattr(interface, self._valid_field)
             m.d.comb += encoder.i[index].eq(valid_signal)
 
-        # Create our multiplexer, and drive each of our output signals from it.
-        with m.Switch(encoder.o):
-            for index, interface in enumerate(self._inputs):
-
-                # If an interface is selected...
-                with m.Case(index):
-                    for identifier in self._mux_signals:
-
-                        # ... connect all of its muxed signals through to the output.
-                        output_signal = self._get_signal(self.output, identifier)
-                        input_signal  = self._get_signal(interface,   identifier)
-                        m.d.comb += output_signal.eq(input_signal)
+        # Create our multiplexer, and drive each of our output signals from it,
+        # as long as there is a valid input.
+        with m.If(~encoder.n):
+            with m.Switch(encoder.o):
+                for index, interface in enumerate(self._inputs):
+
+                    # If an interface is selected...
+                    with m.Case(index):
+                        for identifier in self._mux_signals:
+
+                            # ... connect all of its muxed signals through to the output.
+                            output_signal = self._get_signal(self.output, identifier)
+                            input_signal  = self._get_signal(interface,   identifier)
+                            m.d.comb += output_signal.eq(input_signal)
 
         # Create the OR'ing logic for each of or or_signals.
         for identifier in self._or_signals:
-- 
2.43.0


From 63fbaebc9f1b43015fc32d4624307bc684f09d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 05/50] fix: TransactionalizedFIFO: present rewound data right
 after read_discard

---
 amlib/utils/fifo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amlib/utils/fifo.py b/amlib/utils/fifo.py
index d82730f..ed35503 100644
--- a/amlib/utils/fifo.py
+++ b/amlib/utils/fifo.py
@@ -179,8 +179,11 @@ class TransactionalizedFIFO(Elaboratable):
 
         # Our memory always takes a single cycle to provide its read output; so we'll update its address
         # "one cycle in advance". Accordingly, if we're about to advance the FIFO, we'll use the next read
-        # address as our input. If we're not, we'll use the current one.
-        with m.If(self.read_en & ~self.empty):
+        # address as our input. If we're about to rewind, we'll use the position we're rewinding to. In any other
+        # case, we'll use the current one.
+        with m.If(self.read_discard):
+            m.d.comb += read_port.addr.eq(committed_read_pointer)
+        with m.Elif(self.read_en & ~self.empty):
             m.d.comb += read_port.addr.eq(next_read_pointer)
         with m.Else():
             m.d.comb += read_port.addr.eq(current_read_pointer)
-- 
2.43.0


From 3cbfae6f4d52941cf8d808eae45f472a5129459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 06/50] fix: NumberToBitBar: make the maximum value
 representable at the input

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 3b133a7..5f27e2a 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -88,7 +88,7 @@ class NumberToBitBar(Elaboratable):
         self.bitbar   = [Const(int(2**n - 1), bitwidth_out) for n in range(bitwidth_out + 1)]
 
         # I/O
-        self.value_in   = Signal(range(maxvalue_in))
+        self.value_in   = Signal(range(maxvalue_in + 1))
         self.bitbar_out = Signal(bitwidth_out)
 
     def elaborate(self, platform: Platform) -> Module:
-- 
2.43.0


From e62f67c6b0f85766d4955526672ec68212d15284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:51 +0000
Subject: [PATCH 07/50] fix: StreamInterface.attach: honour omit for extra
 fields

---
 amlib/stream/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/__init__.py b/amlib/stream/__init__.py
index 2df6991..47b9764 100644
--- a/amlib/stream/__init__.py
+++ b/amlib/stream/__init__.py
@@ -70,7 +70,7 @@ class StreamInterface(Record):
     def attach(self, interface, omit=None):
         # Create lists of fields to be copied -to- the interface (RHS fields),
         # and lists of fields to be copied -from- the interface (LHS fields).
-        rhs_fields = ['valid', 'first', 'last', 'payload', *self._extra_fields]
+        rhs_fields = ['valid', 'first', 'last', 'payload', *(name for name, *_ in self._extra_fields)]
         lhs_fields = ['ready']
         assignments = []
 
-- 
2.43.0


From a334254613124f746b48e581144464e6242029fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:51 +0000
Subject: [PATCH 08/50] fix: StreamArbiter: do not switch streams while only
 some valid bits are set

---
 amlib/stream/arbiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/arbiter.py b/amlib/stream/arbiter.py
index c740349..2acf825 100644
--- a/amlib/stream/arbiter.py
+++ b/amlib/stream/arbiter.py
@@ -132,7 +132,7 @@ class StreamArbiter(Elaboratable):
         #
 
         # Only change which stream we're working with when the active stream stops transmitting.
-        with m.If(~active_stream.valid):
+        with m.If(~active_stream.valid.any()):
 
             # Assume we're idle until proven otherwise.
             m.d.comb += self.idle.eq(1)
-- 
2.43.0


From d3c67be6bda84b80f2dfe602f783926035fa230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 09/50] fix: ConstantStreamGenerator: mark the first word by
 the position the stream was started from

---
 amlib/stream/generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 7fc19b6..75ad276 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -162,7 +162,8 @@ class ConstantStreamGenerator(Elaboratable):
             bytes_per_word = 0
 
         # Track when we're on the first and last packet.
-        on_first_packet = position_in_stream == self.start_position
+        first_position  = Signal.like(position_in_stream)
+        on_first_packet = position_in_stream == first_position
         on_last_packet  = \
             (position_in_stream          == (data_length - 1)) | \
             (bytes_sent + bytes_per_word >= self.max_length)
@@ -198,6 +199,7 @@ class ConstantStreamGenerator(Elaboratable):
                 # Keep ourselves at the beginning of the stream, but don't yet count.
                 m.d.sync += [
                     position_in_stream  .eq(start_position),
+                    first_position      .eq(start_position),
                     bytes_sent          .eq(0)
                 ]
                 m.d.comb += [
-- 
2.43.0


From 4469005f29e46de4f5f27c4230c59c7be987754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 10/50] fix: ConstantStreamGenerator: clamp the start position
 to the number of words

---
 amlib/stream/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 75ad276..d9e73c6 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -174,7 +174,7 @@ class ConstantStreamGenerator(Elaboratable):
         start_position = Signal.like(position_in_stream)
 
         # If our starting position is greater than our data length, use our data length.
-        with m.If(self.start_position >= self._data_length):
+        with m.If(self.start_position >= data_length):
             m.d.comb += start_position.eq(data_length - 1)
 
         # Otherwise, use our starting position.
-- 
2.43.0


From 669fc3289014ba905a68289a2ae3c60db19be0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 11/50] fix: PacketListStreamer: finish when the total length
 is a power of two

---
 amlib/stream/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index d9e73c6..d679410 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -743,7 +743,7 @@ class PacketListStreamer(Elaboratable):
         total_no_bytes = len(packets_flattened)
 
         position           = Signal(range(total_no_bytes))
-        next_position      = Signal.like(position)
+        next_position      = Signal(range(total_no_bytes + 1))
         current_packet     = Signal(range(no_packets))
         current_packet_len = Signal(max_length_width)
 
-- 
2.43.0


From 24f7a3cb30858120ca0d91de567a68492d1c1748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 12/50] fix: PacketListStreamer: do not hang when started in
 the first cycle after reset

---
 amlib/stream/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index d679410..343a44b 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -738,7 +738,7 @@ class PacketListStreamer(Elaboratable):
             ConstantStreamGenerator(packets_flattened, max_length_width=max_length_width)
 
         rom = Memory(width=max_length_width, depth=no_packets, init=packet_lengths)
-        m.submodules.packet_lengths_rom = packet_lengths_rom = rom.read_port(transparent=False)
+        m.submodules.packet_lengths_rom = packet_lengths_rom = rom.read_port(domain="comb")
 
         total_no_bytes = len(packets_flattened)
 
-- 
2.43.0


From b03341c93c686184db7d31b0bfdb08d00107c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:29 +0000
Subject: [PATCH 13/50] fix: PacketListStreamer: pass data width and stream
 type to the generator

---
 amlib/stream/generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 343a44b..cc5841c 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -719,6 +719,7 @@ class PacketListStreamer(Elaboratable):
         self.packets    = packets
 
         # If we have a data width, apply it to our stream type; otherwise, use its defaults.
+        self._stream_arguments = dict(stream_type=stream_type, data_width=data_width)
         if data_width:
             self.stream  = stream_type(payload_width=data_width)
             self._data_width = data_width
@@ -734,8 +735,11 @@ class PacketListStreamer(Elaboratable):
         max_length_width = bits_for(max(packet_lengths))
         packets_flattened = [words for packet in self.packets for words in packet]
 
+        # the generator limits its output in bytes
+        bytes_per_word = (self._data_width + 7) // 8
         m.submodules.generator = generator = \
-            ConstantStreamGenerator(packets_flattened, max_length_width=max_length_width)
+            ConstantStreamGenerator(packets_flattened, **self._stream_arguments,
+                                    max_length_width=bits_for(max(packet_lengths) * bytes_per_word))
 
         rom = Memory(width=max_length_width, depth=no_packets, init=packet_lengths)
         m.submodules.packet_lengths_rom = packet_lengths_rom = rom.read_port(domain="comb")
@@ -753,7 +757,7 @@ class PacketListStreamer(Elaboratable):
             generator.start_position.eq(position),
             packet_lengths_rom.addr.eq(current_packet),
             current_packet_len.eq(packet_lengths_rom.data),
-            generator.max_length.eq(current_packet_len),
+            generator.max_length.eq(current_packet_len * bytes_per_word),
             next_position.eq(position + current_packet_len),
             self.done.eq(0)
         ]
-- 
2.43.0


From 53e60de4db6b56af574114398b6d7c5dfdcc7c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:52 +0000
Subject: [PATCH 14/50] fix: I2CInitiator: ignore requests while busy is high

---
 amlib/io/i2c.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amlib/io/i2c.py b/amlib/io/i2c.py
index 3061964..cf07397 100644
--- a/amlib/io/i2c.py
+++ b/amlib/io/i2c.py
@@ -166,7 +166,9 @@ class I2CInitiator(Module):
 
         self.fsm.act("IDLE",
             NextValue(self.busy, 1),
-            If(self.start,
+            If(self.busy,
+                NextValue(self.busy, 0)
+            ).Elif(self.start,
                 If(bus.scl_i & bus.sda_i,
                     NextState("START-SDA-L")
                 ).Elif(~bus.scl_i,
-- 
2.43.0


From 3792be9a7b18a6a56a63aa87957891c35ad89d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:52 +0000
Subject: [PATCH 15/50] fix: I2CInitiator: generate a repeated start right
 after a start

---
 amlib/io/i2c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/i2c.py b/amlib/io/i2c.py
index cf07397..f4b9ef0 100644
--- a/amlib/io/i2c.py
+++ b/amlib/io/i2c.py
@@ -169,7 +169,7 @@ class I2CInitiator(Module):
             If(self.busy,
                 NextValue(self.busy, 0)
             ).Elif(self.start,
-                If(bus.scl_i & bus.sda_i,
+                If(bus.scl_i & bus.sda_i & bus.sda_o,
                     NextState("START-SDA-L")
                 ).Elif(~bus.scl_i,
                     NextState("START-SCL-H")
-- 
2.43.0


From e6c9444da2f4226f7d4869efa8bc4b50abb33909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:08 +0000
Subject: [PATCH 16/50] fix: I2CStreamTransmitter: write only bytes that have
 arrived

---
 amlib/stream/i2c.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/amlib/stream/i2c.py b/amlib/stream/i2c.py
index 5bf260b..353035d 100644
--- a/amlib/stream/i2c.py
+++ b/amlib/stream/i2c.py
@@ -53,15 +53,14 @@ class I2CStreamTransmitter(Elaboratable):
                     m.next = "STREAMING"
 
             with m.State("STREAMING"):
-                with m.If(~i2c.busy):
+                # do not write anything until the stream has delivered the next byte
+                with m.If(~i2c.busy & in_fifo.r_rdy):
                     m.d.comb += [
                         i2c.data_i.eq(payload),
                         i2c.write.eq(1),
+                        in_fifo.r_en.eq(1),
                     ]
 
-                    with m.If(in_fifo.r_rdy):
-                        m.d.comb += in_fifo.r_en.eq(1)
-
                     with m.If(last):
                         m.next = "STOP"
 
-- 
2.43.0


From 2567c69d07293ec190516198a959848e6b09e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 17/50] fix: SPIControllerInterface: select the chip before the
 clock starts with clock phase 0

---
 amlib/io/spi.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 3345ebb..7a6cdae 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -133,8 +133,11 @@ class SPIControllerInterface(Elaboratable):
 
         with m.FSM() as fsm:
             m.d.comb += sck.eq(Mux(fsm.ongoing("TRANSFER"), sck_divider.clock_out, self.clock_polarity))
-            cs_domain = m.d.comb if self.clock_phase == 1 else m.d.sync
-            cs_domain += cs.eq(Mux(fsm.ongoing("TRANSFER"), cs_active, cs_inactive))
+            # with clock phase 0 the first bit is captured on the first clock edge,
+            # so the chip must be selected before the clock starts
+            selected = fsm.ongoing("TRANSFER") if self.clock_phase == 1 else \
+                       fsm.ongoing("TRANSFER") | fsm.ongoing("WAIT_EDGE")
+            m.d.comb += cs.eq(Mux(selected, cs_active, cs_inactive))
 
             with m.State("IDLE"):
                 m.d.sync += sck_divider.clock_enable_in.eq(0)
-- 
2.43.0


From a7b5b4bd592ee8fa7c5079dcc627a38d0c40761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 18/50] fix: SPIDeviceInterface: receive several words in a row
 for any word size

---
 amlib/io/spi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 7a6cdae..7a11d6c 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -336,6 +336,7 @@ class SPIDeviceInterface(Elaboratable):
                 # If we're just completing a word, handle I/O.
                 with m.If(bit_count + 1 == self.word_size):
                     m.d.sync += [
+                        bit_count          .eq(0),
                         self.word_accepted .eq(1),
                         current_tx         .eq(self.word_out)
                     ]
-- 
2.43.0


From 242d8a368ad2f5db853391b8d9c8eeba64376681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:26 +0000
Subject: [PATCH 19/50] fix: SPI interfaces: connect_to_resource connects the
 actual bus

---
 amlib/io/spi.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 7a11d6c..440fd7f 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -88,10 +88,10 @@ class SPIControllerInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs if not self.cs_idles_high else ~self.spi_bus_out.cs),
+            spi_resource.copi .eq(self.spi.sdo),
+            self.spi.sdi      .eq(spi_resource.cipo),
+            spi_resource.clk  .eq(self.spi.sck),
+            spi_resource.cs   .eq(self.spi.cs if not self.cs_idles_high else ~self.spi.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
@@ -220,10 +220,10 @@ class SPIDeviceInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs if not self.cs_idles_high else ~self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs if not self.cs_idles_high else ~spi_resource.cs),
         ]
 
     def spi_edge_detectors(self, m, sck):
@@ -544,10 +544,10 @@ class SPICommandInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
@@ -900,10 +900,10 @@ class SPIRegisterInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
-- 
2.43.0


From 8cd8ac5701e87d9bcda5b6fb54cbe9f01765ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 20/50] fix: SPIControllerInterface: let the clock divider rest
 at the idle level

With clock polarity 1 the divider stopped at the active level, so a transfer
requested around that moment started on the edge of the divider stopping,
before the device saw the chip select and the first bit was set up.
---
 amlib/io/spi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 440fd7f..9790470 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -97,7 +97,7 @@ class SPIControllerInterface(Elaboratable):
     def elaborate(self, platform: Platform) -> Module:
         m = Module()
 
-        m.submodules.sck_divider = sck_divider = SimpleClockDivider(self.divisor)
+        m.submodules.sck_divider = sck_divider = SimpleClockDivider(self.divisor, self.clock_polarity)
         m.submodules.spi_device  = spi_device  = \
             SPIDeviceInterface(word_size=self.word_size,
                                clock_polarity=self.clock_polarity,
-- 
2.43.0


From ff07e1647bc10d86a026071fed804205fac121ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 21/50] fix: FixedPointFIRFilter: design the windowed filter
 for the requested cutoff frequency

---
 amlib/dsp/fixedpointfirfilter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amlib/dsp/fixedpointfirfilter.py b/amlib/dsp/fixedpointfirfilter.py
index 6cdc154..9eeeea7 100644
--- a/amlib/dsp/fixedpointfirfilter.py
+++ b/amlib/dsp/fixedpointfirfilter.py
@@ -27,8 +27,7 @@ class FixedPointFIRFilter(Elaboratable):
         self.signal_out = Signal(signed(bitwidth))
 
         if type(cutoff_freq) == int:
-            cutoff = cutoff_freq / samplerate
-            taps = signal.firwin(filter_order, cutoff, fs=samplerate, pass_zero=filter_type, window='hamming')
+            taps = signal.firwin(filter_order, cutoff_freq, fs=samplerate, pass_zero=filter_type, window='hamming')
         elif type(cutoff_freq) == list and len(cutoff_freq) == 2:
             Fs = samplerate
             Fpb = cutoff_freq[0]
@@ -49,7 +48,7 @@ class FixedPointFIRFilter(Elaboratable):
 
         if verbose:
             if type(cutoff_freq) == int:
-                print(f"{filter_order}-order windowed FIR with cutoff: {cutoff * samplerate}")
+                print(f"{filter_order}-order windowed FIR with cutoff: {cutoff_freq}")
             else:
                 print(f"{filter_order}-order FIR with start/stop band: {cutoff_freq} weight: {weight}")
             print(f"taps: {pformat(taps)}")
-- 
2.43.0


From 7a65106648526261c8ce5c5772aeb6c4ffb8f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 22/50] fix: FixedPointFIRFilter: the MAC loop uses the newest
 sample and untruncated taps

---
 amlib/dsp/fixedpointfirfilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/fixedpointfirfilter.py b/amlib/dsp/fixedpointfirfilter.py
index 9eeeea7..b4a95dd 100644
--- a/amlib/dsp/fixedpointfirfilter.py
+++ b/amlib/dsp/fixedpointfirfilter.py
@@ -85,14 +85,14 @@ class FixedPointFIRFilter(Elaboratable):
             ix = Signal(range(n + 1))
             madd = Signal(signed(self.bitwidth))
             a = Signal(signed(self.bitwidth))
-            b = Signal(signed(self.bitwidth))
+            b = Signal(signed(width))
 
             with m.FSM(reset="IDLE"):
                 with m.State("IDLE"):
                     with m.If(self.enable_in):
                         m.d.sync += [
                             ix.eq(1),
-                            a.eq(x[0]),
+                            a.eq(self.signal_in),
                             b.eq(taps[0]),
                             madd.eq(0)
                         ]
-- 
2.43.0


From cd662f563751866257ade769b1bad997b180b6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 23/50] fix: FixedPointHBFilter: the MAC loop uses the newest
 sample and untruncated taps

---
 amlib/dsp/fixedpointhbfilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/fixedpointhbfilter.py b/amlib/dsp/fixedpointhbfilter.py
index ce33b54..fc4442a 100644
--- a/amlib/dsp/fixedpointhbfilter.py
+++ b/amlib/dsp/fixedpointhbfilter.py
@@ -75,14 +75,14 @@ class FixedPointHBFilter(Elaboratable):
             ix = Signal(range(n + 2))
             madd = Signal(signed(self.bitwidth + 1))
             a = Signal(signed(self.bitwidth + 1))
-            b = Signal(signed(self.bitwidth))
+            b = Signal(signed(width))
 
             with m.FSM(reset="IDLE"):
                 with m.State("IDLE"):
                     with m.If(self.strobe_in):
                         m.d.sync += [
                             ix.eq(2),
-                            a.eq(x[0] + x[n - 1]),
+                            a.eq(self.signal_in + x[n - 2]),
                             b.eq(taps[0]),
                             madd.eq(0)
                         ]
-- 
2.43.0


From 8d22fb870e9c0ef098bfa8b2d23df7db847e0f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 24/50] fix: WS2812: hold the line low for 50 microseconds to
 reset the LEDs

---
 amlib/io/ws2812.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amlib/io/ws2812.py b/amlib/io/ws2812.py
index e46fe52..55993b8 100644
--- a/amlib/io/ws2812.py
+++ b/amlib/io/ws2812.py
@@ -2,7 +2,7 @@
 #
 # SPDX-License-Identifier: Apache-2.0
 #
-from math import log2
+from math import ceil, log2
 
 from amaranth import *
 from amaranth.utils import bits_for
@@ -23,6 +23,7 @@ class WS2812(Elaboratable):
         self.full_cycle_length = sys_clock_freq // 800e3
         self.low_cycle_length  = int(0.32 * self.full_cycle_length)
         self.high_cycle_length = int(0.64 * self.full_cycle_length)
+        self.reset_length      = ceil(50e-6 * sys_clock_freq)
         print(f"full cycle: {self.full_cycle_length}")
 
         self.mem = Memory(width=24, depth=no_leds, name="led_memory")
@@ -51,7 +52,7 @@ class WS2812(Elaboratable):
         bit_counter = Signal(5)
         current_bit = Signal()
 
-        cycle_counter_width  = bits_for(int(self.full_cycle_length)) + 1
+        cycle_counter_width  = bits_for(max(int(self.full_cycle_length), self.reset_length)) + 1
         cycle_counter        = Signal(cycle_counter_width)
         current_cycle_length = Signal.like(cycle_counter)
 
@@ -77,7 +78,7 @@ class WS2812(Elaboratable):
                 m.d.comb += self.data_out.eq(0)
                 m.d.sync += cycle_counter.eq(cycle_counter + 1)
 
-                with m.If(cycle_counter >= Const(self.full_cycle_length)):
+                with m.If(cycle_counter >= self.reset_length):
                     m.d.sync += cycle_counter.eq(0)
 
                     with m.If(led_counter == 0):
-- 
2.43.0


From 9a68e499ca90dfe88aa1ac575bb1765333ba97b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 25/50] fix: SerialLEDArray: size the step counter for the
 initialisation sequence

Sequences of eight or more commands wrapped around the four bit counter.
---
 amlib/io/max7219.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/max7219.py b/amlib/io/max7219.py
index e1d4051..ff2843a 100644
--- a/amlib/io/max7219.py
+++ b/amlib/io/max7219.py
@@ -76,7 +76,7 @@ class SerialLEDArray(Elaboratable):
         with m.If(next_digit):
             m.d.sync += digit_counter.eq(digit_counter + 1)
 
-        step_counter = Signal(range(10))
+        step_counter = Signal(range(2 * len(self.init_sequence) + 2))
         next_step    = Signal()
 
         with m.If(next_step):
-- 
2.43.0


From 6fd0306bff1e241e55984cbaaee1d012477d8ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 26/50] fix: I2S: transmit and receive samples of up to 16 bits

Every transfer on the streams carries the sample of one channel, but for up
to 16 bits the shift registers were sized for both channels of a frame, so
that the samples were misplaced.
---
 amlib/io/i2s.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 4a2a230..09cc67f 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -106,13 +106,8 @@ class I2STransmitter(Elaboratable):
         frame_format = self._frame_format
 
         fifo_data_width = sample_width
-        concatenate_channels = True
-        if concatenate_channels:
-            if sample_width <= 16:
-                fifo_data_width = sample_width * 2
-            else:
-                concatenate_channels = False
-                print("I2S warning: sample width greater than 16 bits. your channels can't be glued")
+        # every transfer on the stream carries the sample of one channel
+        concatenate_channels = False
 
         tx_buf_width = fifo_data_width + 1 if frame_format == I2S_FORMAT.STANDARD else fifo_data_width
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
@@ -342,13 +337,8 @@ class I2SReceiver(Elaboratable):
         frame_format = self._frame_format
 
         fifo_data_width = sample_width
-        concatenate_channels = True
-        if concatenate_channels:
-            if sample_width <= 16:
-                fifo_data_width = sample_width * 2
-            else:
-                concatenate_channels = False
-                print("I2S warning: sample width greater than 16 bits. your channels can't be glued")
+        # every transfer on the stream carries the sample of one channel
+        concatenate_channels = False
 
         rx_cnt_width = math.ceil(math.log(fifo_data_width, 2))
         rx_cnt = Signal(rx_cnt_width)
-- 
2.43.0


From aad09046ff257e03fbf0b75f106862e1cd529bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 27/50] fix: I2STransmitter: make the bit counter wide enough

For sample widths that are powers of two (for example 32) the counter
wrapped around, and a single bit was sent.
---
 amlib/io/i2s.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 09cc67f..fea9eed 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -113,7 +113,7 @@ class I2STransmitter(Elaboratable):
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
         offset       = [0]                 if frame_format == I2S_FORMAT.STANDARD else []
 
-        tx_cnt_width = math.ceil(math.log(fifo_data_width,2))
+        tx_cnt_width = math.ceil(math.log(sample_width + 1, 2))
         tx_cnt = Signal(tx_cnt_width)
         tx_shifter = Signal(tx_buf_width - 1)
         sample_msb = fifo_data_width - 1
-- 
2.43.0


From 52d0c7b09334831c24d7747cbbb70ca5dcd24eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 28/50] fix: I2S: start at the beginning of a left slot

Transmitter and receiver started anywhere in a left slot, and at best one bit
late.
---
 amlib/io/i2s.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index fea9eed..d9f6ae5 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -154,7 +154,9 @@ class I2STransmitter(Elaboratable):
         with m.FSM(reset="IDLE"):
             with m.State("IDLE"):
                 with m.If(self.enable_in):
-                    with m.If(bit_clock_rose & left_channel):
+                    # wait for the other channel, so that we start at the
+                    # beginning of a left slot and not in the middle of it
+                    with m.If(bit_clock_rose & right_channel):
                         m.next = "WAIT_SYNC"
 
             with m.State("WAIT_SYNC"):
@@ -385,7 +387,9 @@ class I2SReceiver(Elaboratable):
             with m.State("IDLE"):
                 m.d.sync += rx_buf.eq(0)
                 with m.If(self.enable_in):
-                    with m.If(bit_clock_rose & left_channel):
+                    # wait for the other channel, so that we start at the
+                    # beginning of a left slot and not in the middle of it
+                    with m.If(bit_clock_rose & right_channel):
                         m.d.sync += rx_delay_cnt.eq(rx_delay_val)
                         m.next = "WAIT_SYNC"
 
-- 
2.43.0


From 607acb06c958849f862c43efc3085495c9e514f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 29/50] fix: I2S: support slots which are exactly as wide as
 the samples

In standard format each word took at least one bit clock more than the sample
width, so that every slot slipped by one bit if there is no padding.
---
 amlib/io/i2s.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index d9f6ae5..82e0f2d 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -112,6 +112,8 @@ class I2STransmitter(Elaboratable):
         tx_buf_width = fifo_data_width + 1 if frame_format == I2S_FORMAT.STANDARD else fifo_data_width
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
         offset       = [0]                 if frame_format == I2S_FORMAT.STANDARD else []
+        # the bit after the sample is not sent when the slot ends before it
+        padding      = 1                   if frame_format == I2S_FORMAT.STANDARD else 0
 
         tx_cnt_width = math.ceil(math.log(sample_width + 1, 2))
         tx_cnt = Signal(tx_cnt_width)
@@ -204,7 +206,7 @@ class I2STransmitter(Elaboratable):
                         m.next = "IDLE"
                     with m.Else():
                         with m.If(bit_clock_rose):
-                            with m.If((tx_cnt == 0)):
+                            with m.If((tx_cnt == 0) | ((tx_cnt == padding) & right_channel)):
                                 with m.If(right_channel):
                                     m.d.sync += tx_cnt.eq(sample_width),
                                     with m.If(tx_fifo.r_rdy):
@@ -245,7 +247,7 @@ class I2STransmitter(Elaboratable):
                     m.next = "IDLE"
                 with m.Else():
                     with m.If(bit_clock_rose):
-                        with m.If((tx_cnt == 0) & left_channel):
+                        with m.If(((tx_cnt == 0) | (tx_cnt == padding)) & left_channel):
                             m.d.sync += tx_cnt.eq(sample_width)
                             with m.If(tx_fifo.r_rdy):
                                 # in RIGHT_WAIT, we wait for the left channel to start
@@ -459,6 +461,10 @@ class I2SReceiver(Elaboratable):
                                     m.next = "LEFT_WAIT"
                             with m.Elif(rx_cnt > 0):
                                 m.next = "LEFT"
+                                # without padding the last bit arrives
+                                # after the word clock has flipped
+                                with m.If(right_channel & (rx_delay_cnt > 0)):
+                                    m.d.sync += rx_delay_cnt.eq(rx_delay_cnt - 1)
 
             with m.State("RIGHT"):
                 with m.If(~self.enable_in):
@@ -489,6 +495,8 @@ class I2SReceiver(Elaboratable):
                                 m.next = "RIGHT_WAIT"
                         with m.Elif(rx_cnt > 0):
                             m.next =  "RIGHT"
+                            with m.If(left_channel & (rx_delay_cnt > 0)):
+                                m.d.sync += rx_delay_cnt.eq(rx_delay_cnt - 1)
 
         return m
 
-- 
2.43.0


From 7637f129be694c883ed375a31b27b04307ca38f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:49 +0000
Subject: [PATCH 30/50] fix: I2STransmitter: check for underflow and channel
 mismatch before the first sample too

---
 amlib/io/i2s.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 82e0f2d..27295a5 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -155,6 +155,7 @@ class I2STransmitter(Elaboratable):
 
         with m.FSM(reset="IDLE"):
             with m.State("IDLE"):
+                m.d.sync += tx_shifter.eq(0)
                 with m.If(self.enable_in):
                     # wait for the other channel, so that we start at the
                     # beginning of a left slot and not in the middle of it
@@ -164,11 +165,15 @@ class I2STransmitter(Elaboratable):
             with m.State("WAIT_SYNC"):
                 with m.If(bit_clock_rose & left_channel):
                     m.next = "LEFT_FALL"
-                    m.d.sync += [
-                        tx_cnt.eq(sample_width),
-                        tx_shifter.eq(Cat(tx_fifo.r_data, offset))
-                    ]
-                    m.d.comb += tx_fifo.r_en.eq(1),
+                    m.d.sync += tx_cnt.eq(sample_width)
+                    with m.If(tx_fifo.r_rdy):
+                        with m.If(first_flag):
+                            m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))
+                            m.d.comb += tx_fifo.r_en.eq(1)
+                        with m.Else():
+                            m.d.comb += self.mismatch_out.eq(1)
+                    with m.Else():
+                        m.d.comb += self.underflow_out.eq(1)
 
             # sync should be sampled on rising edge, but data should change on falling edge
             with m.State("LEFT_FALL"):
-- 
2.43.0


From 2b9fd402d2142537b5a863e681d4095dd53b8819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:49 +0000
Subject: [PATCH 31/50] fix: I2STransmitter: support the left justified format

It could not be elaborated, and started a bit clock too late.
---
 amlib/io/i2s.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 27295a5..07461b3 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -109,7 +109,6 @@ class I2STransmitter(Elaboratable):
         # every transfer on the stream carries the sample of one channel
         concatenate_channels = False
 
-        tx_buf_width = fifo_data_width + 1 if frame_format == I2S_FORMAT.STANDARD else fifo_data_width
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
         offset       = [0]                 if frame_format == I2S_FORMAT.STANDARD else []
         # the bit after the sample is not sent when the slot ends before it
@@ -117,7 +116,7 @@ class I2STransmitter(Elaboratable):
 
         tx_cnt_width = math.ceil(math.log(sample_width + 1, 2))
         tx_cnt = Signal(tx_cnt_width)
-        tx_shifter = Signal(tx_buf_width - 1)
+        tx_shifter = Signal(fifo_data_width)
         sample_msb = fifo_data_width - 1
 
         bit_clock  = Signal()
@@ -139,6 +138,13 @@ class I2STransmitter(Elaboratable):
             right_channel.eq(~left_channel)
         ]
 
+        # in standard format the first bit is sent one bit clock after the
+        # word clock has flipped, in left justified format immediately
+        if frame_format == I2S_FORMAT.STANDARD:
+            word_start, first_left, first_right = bit_clock_rose, "LEFT_FALL", "RIGHT_FALL"
+        else:
+            word_start, first_left, first_right = Const(1), "LEFT", "RIGHT"
+
         m.submodules.tx_fifo = tx_fifo = SyncFIFOBuffered(width=fifo_data_width + 1, depth=self._fifo_depth)
 
         # first marks left channel
@@ -163,8 +169,8 @@ class I2STransmitter(Elaboratable):
                         m.next = "WAIT_SYNC"
 
             with m.State("WAIT_SYNC"):
-                with m.If(bit_clock_rose & left_channel):
-                    m.next = "LEFT_FALL"
+                with m.If(word_start & left_channel):
+                    m.next = first_left
                     m.d.sync += tx_cnt.eq(sample_width)
                     with m.If(tx_fifo.r_rdy):
                         with m.If(first_flag):
@@ -210,7 +216,7 @@ class I2STransmitter(Elaboratable):
                     with m.If(~self.enable_in):
                         m.next = "IDLE"
                     with m.Else():
-                        with m.If(bit_clock_rose):
+                        with m.If(word_start):
                             with m.If((tx_cnt == 0) | ((tx_cnt == padding) & right_channel)):
                                 with m.If(right_channel):
                                     m.d.sync += tx_cnt.eq(sample_width),
@@ -225,10 +231,10 @@ class I2STransmitter(Elaboratable):
                                     with m.Else():
                                         m.d.comb += self.underflow_out.eq(1)
 
-                                    m.next = "RIGHT_FALL"
+                                    m.next = first_right
                                 with m.Else():
                                     m.next = "LEFT_WAIT"
-                            with m.Elif(tx_cnt > 0):
+                            with m.Elif(bit_clock_rose & (tx_cnt > 0)):
                                 m.next = "LEFT_FALL"
 
             # sync should be sampled on rising edge, but data should change on falling edge
@@ -251,7 +257,7 @@ class I2STransmitter(Elaboratable):
                 with m.If(~self.enable_in):
                     m.next = "IDLE"
                 with m.Else():
-                    with m.If(bit_clock_rose):
+                    with m.If(word_start):
                         with m.If(((tx_cnt == 0) | (tx_cnt == padding)) & left_channel):
                             m.d.sync += tx_cnt.eq(sample_width)
                             with m.If(tx_fifo.r_rdy):
@@ -263,8 +269,8 @@ class I2STransmitter(Elaboratable):
                                     m.d.comb += self.mismatch_out.eq(1)
                             with m.Else():
                                 m.d.comb += self.underflow_out.eq(1)
-                            m.next = "LEFT_FALL"
-                        with m.Elif(tx_cnt > 0):
+                            m.next = first_left
+                        with m.Elif(bit_clock_rose & (tx_cnt > 0)):
                             m.next = "RIGHT_FALL"
 
         return m
-- 
2.43.0


From b09f000b0c8975c72735c92fb2c992a703209b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 32/50] fix: ILA: samples_pretrigger=2 captures two instead of
 three pretrigger samples

---
 amlib/debug/ila.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 79f6bed..42ff3ea 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -139,7 +139,13 @@ class IntegratedLogicAnalyzer(Elaboratable):
                 if with_enable:
                     delayed_enable = Signal()
                     m.d.comb += delayed_enable.eq(synced_enable)
-            else: # samples_pretrigger >= 2
+            elif self.samples_pretrigger == 2:
+                # the latency of the FIFO is too long for a single sample
+                m.d.sync += delayed_inputs.eq(synced_inputs)
+                if with_enable:
+                    delayed_enable = Signal()
+                    m.d.sync += delayed_enable.eq(synced_enable)
+            else: # samples_pretrigger >= 3
                 capture_fifo_width = self.sample_width
                 if with_enable:
                     capture_fifo_width += 1
-- 
2.43.0


From 15e199965b32459b4750cd8bbc952ccce6d6b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 33/50] fix: StreamILA: finish sending at the last sample of
 the capture domain, not of the output domain

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 42ff3ea..f82cebb 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -812,7 +812,7 @@ class StreamILA(Elaboratable):
 
 
                         # If this was the last sample, we're done! Move back to idle.
-                        with m.If(self.stream.last):
+                        with m.If(in_domain_stream.last):
                             m.next = "IDLE"
 
                     with m.Else():
-- 
2.43.0


From 76c7f1f8f23c5f00a2852909f0ac1a61f969399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 34/50] fix: StreamILA: do not wait for ready before presenting
 the next sample

---
 amlib/debug/ila.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index f82cebb..cf69564 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -801,9 +801,13 @@ class StreamILA(Elaboratable):
                     in_domain_stream.last   .eq(current_sample_number == (self.sample_depth - 1))
                 ]
 
+                # After a sample was accepted, it takes a cycle to fetch the next one.
+                with m.If(~data_valid):
+                    m.d.sync += data_valid.eq(1)
+
                 # Each time the UART accepts a valid word, move on to the next one.
-                with m.If(in_domain_stream.ready):
-                    with m.If(data_valid):
+                with m.Else():
+                    with m.If(in_domain_stream.ready):
                         m.d.sync += [
                             current_sample_number   .eq(current_sample_number + 1),
                             data_valid              .eq(0),
@@ -815,9 +819,6 @@ class StreamILA(Elaboratable):
                         with m.If(in_domain_stream.last):
                             m.next = "IDLE"
 
-                    with m.Else():
-                        m.d.sync += data_valid.eq(1)
-
 
         # If we're not streaming out of the same domain we're capturing from,
         # we'll add some clock-domain crossing hardware.
-- 
2.43.0


From 16babb788858451e6f7a39d748a10801a77e5469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 35/50] fix: SyncSerialILA: honour the cs_idles_high parameter

---
 amlib/debug/ila.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index cf69564..7dbd7fd 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -506,6 +506,7 @@ class SyncSerialILA(Elaboratable):
 
         self.clock_phase = clock_phase
         self.clock_polarity = clock_polarity
+        self.cs_idles_high = cs_idles_high
 
         # Extract the domain from our keyword arguments, and then translate it to sync
         # before we pass it back below. We'll use a DomainRenamer at the boundary to
@@ -552,13 +553,16 @@ class SyncSerialILA(Elaboratable):
         m  = Module()
         m.submodules.ila = self.ila
 
-        transaction_start = Rose(self.spi.cs)
+        chip_selected = Signal()
+        m.d.comb += chip_selected.eq(~self.spi.cs if self.cs_idles_high else self.spi.cs)
+        transaction_start = Rose(chip_selected)
 
         # Connect up our SPI transciever to our public interface.
         interface = SPIDeviceInterface(
             word_size=self.bits_per_sample,
             clock_polarity=self.clock_polarity,
-            clock_phase=self.clock_phase
+            clock_phase=self.clock_phase,
+            cs_idles_high=self.cs_idles_high
         )
         m.submodules.spi = interface
         m.d.comb += [
@@ -573,7 +577,7 @@ class SyncSerialILA(Elaboratable):
 
         # Our first piece of data is latched in when the transaction
         # starts, so we'll move on to sample #1.
-        with m.If(self.spi.cs):
+        with m.If(chip_selected):
             with m.If(transaction_start):
                 m.d.sync += current_sample_number.eq(1)
 
@@ -582,7 +586,7 @@ class SyncSerialILA(Elaboratable):
             with m.Elif(interface.word_accepted):
                 m.d.sync += current_sample_number.eq(current_sample_number + 1)
 
-        # Whenever CS is low, we should be providing the very first sample,
+        # Whenever CS is deasserted, we should be providing the very first sample,
         # so reset our sample counter to 0.
         with m.Else():
             m.d.sync += current_sample_number.eq(0)
-- 
2.43.0


From a04e74f1faab16d4a1f43b577607d74659113798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 36/50] fix: AsyncSerialILAFrontend: samples arrive with their
 least significant byte first

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 7dbd7fd..e32bc1c 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1266,7 +1266,7 @@ class AsyncSerialILAFrontend(ILAFrontend):
             raw_sample    = all_samples[i:i + sample_width_bytes]
             sample_length = len(Cat(self.ila.signals))
 
-            yield bits.from_bytes(raw_sample, length=sample_length, byteorder='big')
+            yield bits.from_bytes(raw_sample, length=sample_length, byteorder='little')
 
 
     def _read_samples(self):
-- 
2.43.0


From daea93887515eeb11270679af8a97cd807b22fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 37/50] fix: StreamILA: keep an output domain called sync apart
 from a renamed capture domain

---
 amlib/debug/ila.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index e32bc1c..b7676e9 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -824,9 +824,18 @@ class StreamILA(Elaboratable):
                             m.next = "IDLE"
 
 
+        # Convert our sync domain to the domain requested by the user, if necessary.
+        if self.domain != "sync":
+            m = DomainRenamer(self.domain)(m)
+
         # If we're not streaming out of the same domain we're capturing from,
-        # we'll add some clock-domain crossing hardware.
+        # we'll add some clock-domain crossing hardware. This has to stay outside of the
+        # renaming above, which would also rename an output domain called "sync".
         if self._o_domain != self.domain:
+            capture = m
+            m = Module()
+            m.submodules.capture = capture
+
             in_domain_signals  = Cat(
                 in_domain_stream.first,
                 in_domain_stream.payload,
@@ -842,7 +851,7 @@ class StreamILA(Elaboratable):
             m.submodules.cdc = fifo = AsyncFIFOBuffered(
                 width=len(in_domain_signals),
                 depth=16,
-                w_domain="sync",
+                w_domain=self.domain,
                 r_domain=self._o_domain
             )
 
@@ -858,10 +867,6 @@ class StreamILA(Elaboratable):
                 fifo.r_en               .eq(self.stream.ready)
             ]
 
-        # Convert our sync domain to the domain requested by the user, if necessary.
-        if self.domain != "sync":
-            m = DomainRenamer(self.domain)(m)
-
         return m
 
 class StreamILATest(GatewareTestCase):
-- 
2.43.0


From 6e71ade793466fb41268b222ddc98f21da277a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 38/50] fix: SyncSerialILA: detect edges of the SPI lines in
 the capture clock domain

---
 amlib/debug/ila.py | 4 ++--
 amlib/io/spi.py    | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index b7676e9..d14434a 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -18,12 +18,12 @@ import subprocess
 from abc             import ABCMeta, abstractmethod
 
 from amaranth          import Signal, Module, Cat, Elaboratable, Memory, DomainRenamer, Mux
-from amaranth.hdl.ast  import Rose
 from amaranth.lib.cdc  import FFSynchronizer
 from amaranth.lib.fifo import SyncFIFOBuffered, AsyncFIFOBuffered
 from vcd             import VCDWriter
 from vcd.gtkw        import GTKWSave
 
+from ..utils          import rising_edge_detected
 from ..stream         import StreamInterface
 from ..stream.uart    import UARTMultibyteTransmitter
 from ..io.spi         import SPIDeviceInterface, SPIDeviceBus, SPIGatewareTestCase
@@ -555,7 +555,7 @@ class SyncSerialILA(Elaboratable):
 
         chip_selected = Signal()
         m.d.comb += chip_selected.eq(~self.spi.cs if self.cs_idles_high else self.spi.cs)
-        transaction_start = Rose(chip_selected)
+        transaction_start = rising_edge_detected(m, chip_selected)
 
         # Connect up our SPI transciever to our public interface.
         interface = SPIDeviceInterface(
diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 9790470..b602b54 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -15,7 +15,7 @@ from amaranth.hdl.rec  import DIR_FANIN, DIR_FANOUT
 from amaranth.lib.cdc  import FFSynchronizer
 
 from ..test   import GatewareTestCase, sync_test_case
-from ..utils  import SimpleClockDivider
+from ..utils  import SimpleClockDivider, rising_edge_detected, falling_edge_detected
 
 class SPIDeviceBus(Record):
     """ Record representing an SPI bus. """
@@ -244,8 +244,9 @@ class SPIDeviceInterface(Elaboratable):
         # Generate the leading and trailing edge detectors.
         # Note that we use rising and falling edge detectors, but call these leading and
         # trailing edges, as our clock here may have been inverted.
-        leading_edge  = Rose(serial_clock, domain="sync")
-        trailing_edge = Fell(serial_clock, domain="sync")
+        # (Rose and Fell would stay in the sync domain when this module's domain is renamed)
+        leading_edge  = rising_edge_detected(m, serial_clock)
+        trailing_edge = falling_edge_detected(m, serial_clock)
 
         # Determine the sample and output edges based on the SPI clock phase.
         sample_edge = trailing_edge if self.clock_phase else leading_edge
@@ -316,7 +317,7 @@ class SPIDeviceInterface(Elaboratable):
         # with clock phase 0 we need to output the first bit when chip select
         # goes active, because it will be sampled on the leading edge
         if self.clock_phase == 0:
-            with m.If(Rose(chip_selected, domain="sync")):
+            with m.If(rising_edge_detected(m, chip_selected)):
                 output_one_bit(m)
 
         with m.If(chip_selected):
-- 
2.43.0


From bab39f6f35603cd7e179aca447630490ec4481fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:19 +0000
Subject: [PATCH 39/50] fix: WishboneRAM: initialise each word from all of its
 bytes, whatever the granularity

---
 amlib/soc/memory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index 23b9d48..4be7473 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -33,7 +33,8 @@ class WishboneRAM(Elaboratable):
         if not isinstance(value, bytes):
             return value
 
-        bytes_per_chunk = data_width // granularity
+        # Each element of the memory holds one whole data word, whatever the granularity of the bus.
+        bytes_per_chunk = data_width // 8
 
         words = (value[pos:pos + bytes_per_chunk] for pos in range(0, len(value), bytes_per_chunk))
         return [int.from_bytes(word, byteorder=byteorder) for word in words]
-- 
2.43.0


From 508cbfa1629508b12e87026c4a9e9aa3dfa7a5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:19 +0000
Subject: [PATCH 40/50] fix: WishboneROM: honour the granularity parameter

---
 amlib/soc/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index 4be7473..fcec02a 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -153,7 +153,7 @@ class WishboneROM(WishboneRAM):
         super().__init__(
             addr_width=addr_width,
             data_width=data_width,
-            granularity=8,
+            granularity=granularity,
             init=data,
             read_only=True,
             name=name
-- 
2.43.0


From b9a2610be465525e3c1d0a4e630a1a1b8d57bdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 41/50] fix: StereoConvolutionMAC: let the tap counter reach
 its end for every number of taps

---
 amlib/dsp/convolution/mac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index b20a128..379e0ff 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -118,7 +118,7 @@ class StereoConvolutionMAC(Elaboratable):
         set1 = Signal()
         set2 = Signal()
         output_channels = Signal(2)
-        ix = Signal(range(self._samples_per_slice + 1))
+        ix = Signal(range(self._samples_per_slice + 2))
 
         previous_sample1 = Signal(self._size_of_slizes)
         previous_sample2 = Signal.like(previous_sample1)
-- 
2.43.0


From cca71cbf901edfeb81c94ff558a2e02635949b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 42/50] fix: StereoConvolutionMAC: negative taps do not change
 the tap of the next slice

---
 amlib/dsp/convolution/mac.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index 379e0ff..f657ae5 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -89,14 +89,16 @@ class StereoConvolutionMAC(Elaboratable):
         self._samples1_memory = Memory(width=self._size_of_slizes, depth=self._samples_per_slice)
         self._samples2_memory = Memory(width=self._size_of_slizes, depth=self._samples_per_slice)
 
+        mask = (1 << self._bitwidth) - 1
         taps_fp_mod = []
         taps2_fp_mod = []
         for i in range(0, self._tapcount, self._slices):
             val1 = 0
             val2 = 0
             for j in range(self._slices):
-                val1 += int(taps_fp[i+j]) << (self._slices - j - 1) * self._bitwidth
-                val2 += int(taps2_fp[i+j]) << (self._slices - j - 1) * self._bitwidth
+                # mask the taps, so that the sign of one does not spill over into the tap above
+                val1 += (int(taps_fp[i+j]) & mask) << (self._slices - j - 1) * self._bitwidth
+                val2 += (int(taps2_fp[i+j]) & mask) << (self._slices - j - 1) * self._bitwidth
             taps_fp_mod.append(val1)
             taps2_fp_mod.append(val2)
 
-- 
2.43.0


From b87c5b4e87992183e5848d8dacb0723682b3b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:04 +0000
Subject: [PATCH 43/50] fix: StereoConvolutionMAC: hold each result until it is
 accepted

---
 amlib/dsp/convolution/mac.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index f657ae5..397d789 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -150,7 +150,6 @@ class StereoConvolutionMAC(Elaboratable):
         ]
 
         m.d.sync += [
-            self.signal_out.valid.eq(0),
             samples1_write_port.en.eq(0),
             samples2_write_port.en.eq(0),
 
@@ -284,16 +283,17 @@ class StereoConvolutionMAC(Elaboratable):
                     ix.eq(0),
                 ]
 
-                with m.If(output_channels == 2):
-                    m.next = "IDLE"
-                with m.Elif(self.signal_out.ready):
-                    m.d.sync += [
-                        output_channels.eq(output_channels + 1),
-                        self.signal_out.payload.eq(Mux(output_channels == 0, sumSignalL >> self._bitwidth, sumSignalR >> self._bitwidth)),
-                        self.signal_out.valid.eq(1),
-                        self.signal_out.first.eq(~output_channels),
-                        self.signal_out.last.eq(output_channels),
-                    ]
+                m.d.comb += [
+                    self.signal_out.payload.eq(Mux(output_channels == 0, sumSignalL >> self._bitwidth, sumSignalR >> self._bitwidth)),
+                    self.signal_out.valid.eq(1),
+                    self.signal_out.first.eq(output_channels == 0),
+                    self.signal_out.last.eq(output_channels == 1),
+                ]
+
+                with m.If(self.signal_out.ready):
+                    m.d.sync += output_channels.eq(output_channels + 1)
+                    with m.If(output_channels == 1):
+                        m.next = "IDLE"
 
         return m
 
-- 
2.43.0


From 79980b06c06a172ae15d3334fe997e7efc4b0df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 44/50] fix: FractionalResampler: do not drop filter outputs
 while the sink is not ready

---
 amlib/dsp/resampler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amlib/dsp/resampler.py b/amlib/dsp/resampler.py
index 07c4618..db8ebd0 100644
--- a/amlib/dsp/resampler.py
+++ b/amlib/dsp/resampler.py
@@ -84,8 +84,9 @@ class FractionalResampler(Elaboratable):
             input_ready.eq((upsample_counter == 0) & (downsamplefifo.w_rdy)),
             input_data.eq(self.signal_in.payload.as_signed()),
             antialiasingfilter.signal_in.eq(upsampled_signal),
-            antialiasingfilter.enable_in.eq(upsample_counter > 0),
-            downsamplefifo.w_en.eq(downsamplefifo.w_rdy & antialiasingfilter.enable_in),
+            # upsampling waits while there is no room for the output of the filter
+            antialiasingfilter.enable_in.eq((upsample_counter > 0) & downsamplefifo.w_rdy),
+            downsamplefifo.w_en.eq(antialiasingfilter.enable_in),
         ]
 
         with m.If(input_valid & input_ready):
@@ -94,7 +95,7 @@ class FractionalResampler(Elaboratable):
                 antialiasingfilter.enable_in.eq(1),
             ]
             m.d.sync += upsample_counter.eq(self.upsample_factor - 1)
-        with m.Elif(upsample_counter > 0):
+        with m.Elif((upsample_counter > 0) & downsamplefifo.w_rdy):
             m.d.comb += upsampled_signal.eq(0)
             m.d.sync += upsample_counter.eq(upsample_counter - 1)
 
-- 
2.43.0


From 9bda896a409e755739c1a8f15ffc1d945fb87943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 45/50] fix: FractionalResampler: do not wait for ready before
 presenting an output

---
 amlib/dsp/resampler.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/amlib/dsp/resampler.py b/amlib/dsp/resampler.py
index db8ebd0..f7d44d1 100644
--- a/amlib/dsp/resampler.py
+++ b/amlib/dsp/resampler.py
@@ -104,27 +104,17 @@ class FractionalResampler(Elaboratable):
 
         m.d.comb += [
             downsamplefifo.w_data.eq(antialiasingfilter.signal_out),
-            self.signal_out.valid.eq(downsamplefifo.r_rdy),
+            # only every downsample_factor-th filter output is presented, the others are dropped
+            self.signal_out.payload.eq(downsamplefifo.r_data),
+            self.signal_out.valid.eq(downsamplefifo.r_rdy & (downsample_counter == 0)),
+            downsamplefifo.r_en.eq(downsamplefifo.r_rdy & (self.signal_out.ready | (downsample_counter > 0))),
         ]
 
-        with m.If(downsamplefifo.r_rdy & self.signal_out.ready):
-            m.d.comb += downsamplefifo.r_en.eq(1)
-
+        with m.If(downsamplefifo.r_en):
             with m.If(downsample_counter == 0):
                 m.d.sync += downsample_counter.eq(self.downsample_factor - 1)
-                m.d.comb += [
-                    self.signal_out.payload.eq(downsamplefifo.r_data),
-                    self.signal_out.valid.eq(1),
-                ]
             with m.Else():
                 m.d.sync += downsample_counter.eq(downsample_counter - 1)
-                m.d.comb += self.signal_out.valid.eq(0)
-
-        with m.Else():
-            m.d.comb += [
-                downsamplefifo.r_en.eq(0),
-                self.signal_out.valid.eq(0),
-            ]
 
         return m
 
-- 
2.43.0


From 398ab3a6ac336c8a5c923c36415a5f40ca8f2db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 46/50] fix: FixedPointFFT: output the bins starting with bin 0

---
 amlib/dsp/fixedpointfft.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 5c57ff9..bfcf608 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -422,7 +422,10 @@ class FixedPointFFT(Elaboratable):
                             xr_rd.addr.eq(idx),
                             xi_rd.addr.eq(idx),
                         ]
-                    m.next = "READOUT"
+                    m.next = "OUTPUT_LATCHED"
+
+            with m.State("OUTPUT_LATCHED"):
+                m.next = "READOUT"
 
             with m.State("READOUT"):
                 with m.If(N & 1):
-- 
2.43.0


From 4a46fac78a51f3ccda922ace538b2f41ca989537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 47/50] fix: FixedPointFFT: load the window function starting
 with its first value

---
 amlib/dsp/fixedpointfft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index bfcf608..0049292 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -222,7 +222,6 @@ class FixedPointFFT(Elaboratable):
                     m.d.sync += wfidx.eq(0)
                     m.next = "DONE"
                 with m.Else():
-                    m.d.sync += wfidx.eq(wfidx+1)
                     m.next = "WINDOW_WR"
 
             with m.State("WINDOW_WR"):
@@ -231,6 +230,7 @@ class FixedPointFFT(Elaboratable):
                         wFr_wr.addr.eq(wfidx),
                         wFr_wr.en.eq(1),
                         wFi_wr.en.eq(1),
+                        wfidx.eq(wfidx+1),
                     ]
                     m.next = "WINDOW_WRLOOP"
 
-- 
2.43.0


From 4102f69db1350ac0822d8df81840cb85cb7c2010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 48/50] fix: FixedPointFFT: load the imaginary part of the
 whole window function

---
 amlib/dsp/fixedpointfft.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 0049292..3e0ba39 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -228,6 +228,7 @@ class FixedPointFFT(Elaboratable):
                 with m.If(self.wf_strobe):
                     m.d.sync += [
                         wFr_wr.addr.eq(wfidx),
+                        wFi_wr.addr.eq(wfidx),
                         wFr_wr.en.eq(1),
                         wFi_wr.en.eq(1),
                         wfidx.eq(wfidx+1),
-- 
2.43.0


From abaa87a0d8db3e270ccfe5c85ee3214eeb6b5919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 49/50] fix: FixedPointFFT: take over the window function value
 with its strobe

---
 amlib/dsp/fixedpointfft.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 3e0ba39..929990d 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -143,10 +143,6 @@ class FixedPointFFT(Elaboratable):
 
         # Window write
         wfidx = Signal(range(self.pts+1))
-        m.d.comb += [
-            wFr_wr.data.eq(self.wf_real),
-            wFi_wr.data.eq(self.wf_imag),
-        ]
 
         # FFT
         widx = Signal(N)
@@ -227,6 +223,8 @@ class FixedPointFFT(Elaboratable):
             with m.State("WINDOW_WR"):
                 with m.If(self.wf_strobe):
                     m.d.sync += [
+                        wFr_wr.data.eq(self.wf_real),
+                        wFi_wr.data.eq(self.wf_imag),
                         wFr_wr.addr.eq(wfidx),
                         wFi_wr.addr.eq(wfidx),
                         wFr_wr.en.eq(1),
-- 
2.43.0


From b1ec46df3cebb5e57ec4e4cae18444c3253618b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 50/50] fix: bits: index negative positions from the end

bits[-i] shifted by the length plus i and so always returned 0.
---
 amlib/utils/bits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/utils/bits.py b/amlib/utils/bits.py
index feda7d8..0b01dc8 100644
--- a/amlib/utils/bits.py
+++ b/amlib/utils/bits.py
@@ -137,7 +137,7 @@ class bits:
     def __getitem__(self, key):
         if isinstance(key, int):
             if key < 0:
-                return (self._int_ >> (self._len_ - key)) & 1
+                return (self._int_ >> (self._len_ + key)) & 1
             else:
                 return (self._int_ >> key) & 1
         if isinstance(key, slice):
-- 
2.43.0

