S = "amlib/stream/"
U = "amlib/utils/"
I = "amlib/io/"
D = "amlib/dsp/"

p("C04", "TransactionalizedFIFO never loses, reorders or invents data",
  "For every sequence of write/read requests with commits and discards (not a commit and a discard of the same side in one cycle), the FIFO offers exactly the committed, not yet read entries in write order; discarding a write forgets exactly the uncommitted entries, discarding a read re-offers exactly the entries read since the last read commit, starting in the very next cycle. "
  "`empty` holds exactly when no committed unread entry exists, `full` exactly when `depth` entries are held (uncommitted writes and unacknowledged reads included), and the free-space output is `depth` minus the held entries; a write while full or a read while empty has no effect.",
  IHC, "all request histories, all data; widths 1-8, depths 1-8 and 16 (12, 15, 31 in the thorough tier), two clock domain names",
  "the tests drive one scripted sequence of pushes, commits and discards at one depth",
  [U + "fifo.py"], [("pointer arithmetic, commit/discard, level counting", U + "fifo.py:TransactionalizedFIFO.elaborate")])

p("C05", "Stream arbitration never interrupts or mixes bursts",
  "The arbiter forwards one selected stream at a time, unchanged and in every field, gives back-pressure/ready only to it, keeps the selection as long as that stream stays valid, and otherwise selects the lowest-numbered valid stream in the next cycle; `idle` holds exactly when no stream is valid. "
  "The multiplexer forwards every field of the one active stream and routes ready to it alone.",
  IHC, "all valid/ready/payload histories; 1-7 streams, plain, multi-valid and extra-field stream types, two clock domains",
  "the tests run one scenario with two streams", [S + "arbiter.py", S + "__init__.py"],
  [("stream selection", S + "arbiter.py:StreamArbiter.elaborate"), ("priority else-if chain", S + "arbiter.py:StreamMultiplexer.elaborate")])

p("C06", "Constant stream generator emits exactly the requested slice",
  "After a start strobe the generator emits the constant's words in order beginning at the start position sampled at the strobe (clamped to the data), up to the lesser of the data length and the maximum length, each word held unchanged until accepted, with `first` on the first, `last` on the final word (valid bits of a partial final word included) and a `done` pulse of one cycle afterwards. "
  "It emits nothing when idle, and the reported output length is the lesser of the maximum and the data length.",
  IHC, "all ready/start histories, start positions and maximum lengths; several word widths, byte orders and data lengths",
  "tests stream two fixed arrays with one back-pressure pattern", [S + "generator.py"],
  [("data initialiser and streaming state machine", S + "generator.py:ConstantStreamGenerator")])

p("C07", "Stream serializer sends every element of its array once, in order",
  "After a start strobe the elements of the parallel array are emitted in order up to the lesser of the array length and the maximum length, each held until accepted, `first`/`last` delimiting them, followed by one `done` pulse; when idle nothing is valid.",
  IHC, "all ready/start/array-content histories; several element widths and array lengths",
  "tests serialise one array", [S + "generator.py"], [("index counter state machine", S + "generator.py:StreamSerializer.elaborate")])

p("C08", "Packet list streamer sends every packet of its list, correctly delimited",
  "Once started, the streamer emits the words of all (non-empty) packets of the list in order, `first` on the first and `last` on the last word of each packet, each word held unchanged until accepted and the next offered within five cycles, and pulses `done` once after the final packet. "
  "It sends nothing unless started and can be started again afterwards.",
  IHC, "all ready/start histories; packet lists of 1-6 packets of 1-8 words, several widths (a total of exactly a power of two included)",
  "the test streams one list with ready always high", [S + "generator.py"],
  [("packet table and generator sequencing", S + "generator.py:PacketListStreamer.elaborate")])

p("C09", "Stream connections and FIFO adapters pass every field unchanged",
  "Connecting two streams (by attach/connect, stream equality or tap) carries valid, first, last, payload and every extra field to the receiver and ready back, except exactly the fields asked to be omitted; a tap drives ready only if asked. "
  "A stream sent through the FIFO adapters and a FIFO of any depth arrives with the same payloads, first and last markers, in the same order, none lost or duplicated, under every back-pressure pattern.",
  IHC, "all field values and valid/ready histories; payload widths 1-32, extra fields, omit sets, FIFO depths 1-4",
  "no test covers these helpers beyond use in other tests", [S + "__init__.py"],
  [("attach/stream_eq/tap", S + "__init__.py:StreamInterface"), ("connect_fifo_to_stream, connect_stream_to_fifo", S + "__init__.py")])

p("C11", "Serial transmitter puts exactly the accepted word on the line",
  "Whenever a word is accepted (ready and acknowledged), the line then carries a low start bit, the data bits least significant first, the parity bit of the configured kind (none, even, odd, mark, space) and a high stop bit, each for exactly the divisor in clock cycles; the line is high otherwise, and no word is accepted while a frame is in progress. "
  "This holds for every divisor value the divisor input can take (held during a frame).",
  IHC, "all words, divisors and acknowledge histories; data widths 1-16, five parities, fixed and dynamic divisors",
  "tests send a few words at divisor 7", [I + "serial.py"], [("frame shift register and bit timer", I + "serial.py:AsyncSerialTX.elaborate")])

p("C12", "Serial receiver decodes every frame and flags every error",
  "After a falling edge on the idle line the receiver samples each bit at its centre (half a divisor, then every divisor), and reports the data bits, a frame error exactly when the start or stop bit was wrong, a parity error exactly when the parity bit was wrong, and overflow exactly when the finished frame was not being acknowledged. "
  "A transmitter connected to a receiver with the same divisor (at least 5) and format delivers every accepted word once, in order and without error flags.",
  IHC, "all line and acknowledge histories, divisors, words; data widths 1-9, five parities; loop back for divisors 5-8",
  "tests receive a handful of frames", [I + "serial.py"], [("receive state machine", I + "serial.py:AsyncSerialRX.elaborate")])

p("C13", "UART stream transmitters send every byte once as an 8N1 frame",
  "Each byte accepted by the UART stream transmitter is put on the line as start bit, eight data bits least significant first and stop bit, each exactly `divisor` cycles long, back to back if the next byte is waiting, the line high otherwise; `driving`/`idle` tell the truth about the line. "
  "The multi-byte variant sends the bytes of each accepted word lowest byte first with no byte lost, repeated or reordered, and the memory-mapped variant sends each acknowledged bus write.",
  IHC, "all payload and valid histories; divisors 1-868, 1-4 bytes per word",
  "tests send two words at one divisor", [S + "uart.py"],
  [("bit shifter and baud counter", S + "uart.py:UARTTransmitter.elaborate"), ("byte sequencing", S + "uart.py:UARTMultibyteTransmitter.elaborate")])

p("C24", "Debouncer reports a button change only after it was stable long enough",
  "The debounced state changes only after the (synchronised) button input disagreed with it for 32768 consecutive cycles, any shorter glitch restarts the wait, and exactly one press (release) strobe of one cycle accompanies each change to pressed (released).",
  ["inputs", "histories"], "all button histories, unbounded in time", "the test toggles one input pattern", [I + "debouncer.py"],
  [("stability counter", I + "debouncer.py:Debouncer.elaborate")])

p("C25", "LED helpers show the right digits and bars",
  "Every hexadecimal digit is shown as its seven segment glyph with its decimal point taken from the dots input, digit by digit for wide numbers, combinatorially or registered. "
  "The bit bar shows nothing at or below the minimum, every bit at or above the maximum, and in between a number of lowest bits that grows linearly and monotonically with the value.",
  ["inputs", "configurations"], "all values; number widths 4-32; eight bar ranges (maximum a power of two included)",
  "tests look at a few values of one configuration", [I + "led.py"],
  [("segment table", I + "led.py:NibbleToSevenSegmentHex.elaborate"), ("threshold chain", I + "led.py:NumberToBitBar.elaborate")])

p("C26", "Timer fires done exactly after the programmed number of cycles",
  "A started timer asserts done exactly `load` cycles later, and every `reload` cycles after that while reload is non-zero; the counter output always shows the remaining cycles; a start while running restarts the count if restarting is allowed and is ignored otherwise. An interval of one cycle works, and load and reload may be internal or externally supplied signals.",
  IHC, "all start/load/reload histories; counter widths 1-32, both restart modes",
  "tests run three scripts at one width", [U + "timer.py"], [("down counter and reload", U + "timer.py:Timer.elaborate")])

p("C27", "Clock divider and dividing counter divide exactly",
  "While enabled, the divided clock toggles every half divisor (enable is honoured at half period boundaries) and is parked at its polarity when disabled. "
  "The dividing counter counts active cycles since reset (modulo its width), counts how often a multiple of the divisor was reached, and flags exactly the counts divisible by the divisor.",
  IHC, "all enable/reset histories; ten even divisors with both polarities; fourteen divisor/width pairs",
  "the test runs one divisor", [U + "clockdivider.py", U + "dividingcounter.py"],
  [("toggle counter", U + "clockdivider.py:SimpleClockDivider.elaborate"), ("two counters", U + "dividingcounter.py:DividingCounter.elaborate")])

p("C28", "Edge detectors and strobe stretchers see every edge exactly once",
  "Past values are the full-width signal one cycle ago; rising, falling and any-edge detectors are active, bit by bit where they return a vector, in exactly the cycles in which the input differs accordingly from the cycle before; edge-to-pulse gives one single-cycle pulse per rising edge. "
  "A stretched strobe is high for exactly the requested number of cycles after each strobe (re-triggerable, with or without a given output and delay).",
  IHC, "all input histories; signal widths 1-9, stretch lengths 1-16 and clock domains",
  "tests check one edge or one stretch length", [U + "__init__.py", U + "cdc.py", U + "edgetopulse.py"],
  [("delayed copies", U + "__init__.py"), ("stretch_strobe_signal", U + "cdc.py")])

p("C29", "Synchronizers delay every bit by exactly the requested stages",
  "Synchronising a signal yields a signal of the same width that equals the input exactly `stages` clock edges of the target domain earlier; synchronising a record does so for each input field, nested ones included, and passes output fields through in the opposite direction; objects with their own synchroniser are asked to do it.",
  IHC, "all input histories; widths 1-9, 2-4 stages, flat and nested records, several domains",
  "tests check that two objects are built", [U + "cdc.py"], [("recursive synchronisation", U + "cdc.py:synchronize")])

p("C30", "One-hot multiplexer joins interfaces without crosstalk",
  "With at most one valid input, the multiplexed fields of the shared interface equal those of the valid input and are zero when none is valid, the or-ed fields equal the bitwise or over all inputs, and the pass-back fields are driven to every input; no multiplexed data of an invalid input reaches the output.",
  IHC, "all field values; 1-8 interfaces, two widths, valid by field or by function",
  "no direct tests", [U + "bus.py"], [("and-or multiplexing", U + "bus.py:OneHotMultiplexer.elaborate")])

p("C38", "Shift registers and NRZI encoder lose no bit",
  "The input shift register holds the last `depth` enabled input bits, newest in the least significant position (cleared on request); the output shift register emits the loaded word one bit per enabled cycle least significant first, rotating if configured. The NRZI output starts low and toggles, one cycle later, for exactly the cycles in which the data bit is one.",
  IHC, "all input histories; depths 1-64, with and without rotation", "tests shift one word", [U + "shiftregister.py", U + "nrziencoder.py"],
  [("shifting", U + "shiftregister.py"), ("toggle", U + "nrziencoder.py")])

p("C20", "I2C initiator drives every requested bus operation correctly",
  "Clock and data are open drain; the data line changes only while the clock is low except in start and stop conditions. A request is taken only while `busy` is low: start and stop give exactly one start or stop condition (a start in a running transfer a repeated one), write sends the octet most significant bit first, releases the line for the acknowledge and reports it, read returns the octet received most significant bit first and sends the given acknowledge; each octet takes nine clocks. "
  "Clock phases last at least half the period, and every operation completes, waiting only for a stretched clock.",
  IHC, "all request, data and line histories with a stretchable clock; periods 4, 6, 8, 16 (24, 40 in the thorough tier), with and without stretching, tristate pads and resource pads; no second initiator on the bus",
  "the tests run single operations at one period", [I + "i2c.py"],
  [("bus state machine and phase timer", I + "i2c.py:I2CInitiator.elaborate"), ("start, stop and edge detection", I + "i2c.py:I2CBus.elaborate")])

p("C21", "I2C target answers exactly the transactions addressed to it",
  "After a start condition and its seven bit address the target acknowledges and strobes `start`; for another address it stays silent. For every octet written it strobes `write` with the octet in `data_i` and acknowledges as told by `ack_o`; for a read it strobes `read` and sends `data_o` most significant bit first for each octet until the initiator does not acknowledge. "
  "`restart`/`stop` are strobed for a repeated start or stop (or refused octet) of its own transactions only; it drives data only for acknowledges and zero bits and never drives the clock unless asked to stretch it.",
  IHC, "all bus histories with clock phases of at least four cycles and clock and data not changing in the same cycle, all addresses and data; tristate and resource pads; clock stretching (busy) is not requested",
  "the tests run a few scripted transactions with one address", [I + "i2c.py"],
  [("target state machine", I + "i2c.py:I2CTarget.elaborate"), ("start, stop and edge detection", I + "i2c.py:I2CBus.elaborate")])

p("C10", "I2C stream transmitter turns each packet into one bus transfer",
  "Each packet delivered by the stream (from `first` to `last`) becomes exactly one start, one write per byte with the bytes in order, and one stop, requested from the I2C initiator as soon as it is idle; while the next byte has not arrived nothing is written. "
  "Bytes are accepted while fewer than `fifo_depth` are waiting, and none is lost, repeated or reordered.",
  IHC, "all stream and bus histories; buffer depths 1-4 and 16, periods 4, 8, 16, with and without clock stretching",
  "the test sends one packet without looking at the bus", [S + "i2c.py", S + "__init__.py"],
  [("packet state machine", S + "i2c.py:I2CStreamTransmitter.elaborate"), ("input buffer", S + "__init__.py:connect_stream_to_fifo")])

p("C14", "SPI device receives and sends every word bit-exactly",
  "In every SPI mode (clock polarity and phase, chip-select polarity, either bit order) the device samples one bit of data at every sampling clock edge while selected; after the last bit of each word `word_accepted` and one cycle later `word_complete` with the word in `word_in` are strobed for one cycle, for any number of words in a row, and a transfer cut short by deselection yields no word. "
  "The output line carries the word that `word_out` held at selection (or at the completion of the previous word) bit by bit in the same bit order, changing only on the output clock edge (or at selection for clock phase 0), and is zero while deselected.",
  IHC, "all bus histories whose clock idles at selection, all data; all 16 combinations of phase, polarity, chip select polarity and input synchroniser, both bit orders, word sizes 1, 3, 8, 12, 16, 32, direct pins and connect_to_resource",
  "the tests exchange a few words in two modes, one word per selection", [I + "spi.py"],
  [("edge selection", I + "spi.py:SPIDeviceInterface.spi_edge_detectors"), ("shift registers and word strobes", I + "spi.py:SPIDeviceInterface.elaborate")])

p("C15", "SPI controller performs complete, correctly timed word transfers",
  "A start strobe while idle selects the chip, produces exactly `word_size` clock pulses of the configured polarity (half periods of half a divisor; the first may be shorter, the last is cut off at completion), and ends with one `word_complete` strobe and the word sampled from the input line in `word_in`; every requested transfer completes, the chip is selected throughout and deselected with the clock at rest in between. "
  "Each bit of `word_out` (held during the transfer) is on the output line at its sampling edge, in every mode (clock polarity and phase, chip-select polarity, bit order); with clock phase 0 the chip is selected before the first edge.",
  IHC, "all start histories, words and input line values, unbounded in time; 23 configurations: word sizes 1-16, divisors 4-32, all phases, polarities, select polarities, both bit orders, with and without input synchroniser, direct pins and connect_to_resource",
  "the test loops back one word in one mode", [I + "spi.py", U + "clockdivider.py"],
  [("transfer state machine", I + "spi.py:SPIControllerInterface.elaborate"), ("clock divider", U + "clockdivider.py:SimpleClockDivider.elaborate")])

p("C16", "SPI command and register interfaces perform exactly the requested accesses",
  "In each transaction the bits sampled on falling clock edges (at least 5 cycles apart) form a command, strobed once after its last bit, then a word, strobed once after its last bit; while it is received, the word offered two cycles after the command strobe is sent most significant bit first; a transaction cut short by deselection yields no strobe, further bits are ignored until deselection, and `idle`/`stalled` report the state. "
  "The register interface returns the addressed register's value (all ones for register 0 when autonegotiating, the default value for unmapped or write-only ones), a write changes exactly the addressed register, to the received word, and each read/write strobe pulses exactly when an access to its register completes.",
  IHC, "all bus histories meeting the timing, all data; command sizes 1-16, word sizes 1-32, register maps with five kinds of register, address sizes 3-15, direct pins and connect_to_resource",
  "the tests perform two reads and two writes", [I + "spi.py"],
  [("transaction state machine", I + "spi.py:SPICommandInterface.elaborate"), ("address decoding and strobes", I + "spi.py:SPIRegisterInterface.elaborate")])

p("C17", "SPI multiplexer connects every device and returns the selected device's data",
  "Every multiplexed bus always sees the shared clock and data-in lines, and the shared data-out line carries the data-out of the selected bus (of the first selected one in list order), and zero if none is selected.",
  IHC, "all line values; 1-8 busses", "there is no test for it", [I + "spi.py"],
  [("select chain", I + "spi.py:SPIMultiplexer.elaborate")])

p("C31", "FIR, half-band and IIR filters compute exactly their difference equation",
  "In every cycle the output equals the sum over the taps of (tap times sample, scaled down by the fraction width, rounded towards minus infinity), over the samples taken at the enable strobes, in two's complement of the configured bit width; the IIR filter subtracts its feedback terms over its own past outputs, the half-band filter adds half the centre sample and strobes out every second sample, and the MAC-loop variants deliver the same sum one cycle per product later. "
  "The taps are the fixed point form (scaled by two to the fraction width, truncated) of the windowed, Remez or Chebyshev design for the requested cutoff, order and type, and a filter bank is the cascade of its filters.",
  IHC, "all sample and enable histories (MAC loop: samples far enough apart), all data; 21 configurations: bit widths 8-18, fraction widths 8-18, orders 1-24, low and high pass, firwin and remez, one to three cascaded filters",
  "the tests only toggle inputs and assert nothing", [D + "fixedpointfirfilter.py", D + "fixedpointhbfilter.py", D + "fixedpointiirfilter.py", D + "filterbank.py"],
  [("sum of products, MAC loop", D + "fixedpointfirfilter.py:FixedPointFIRFilter.elaborate"), ("folded sum, MAC loop", D + "fixedpointhbfilter.py:FixedPointHBFilter.elaborate"),
   ("feedback", D + "fixedpointiirfilter.py:FixedPointIIRFilter.elaborate"), ("cascade", D + "filterbank.py:Filterbank.elaborate")])

p("C32", "The CIC decimator is the cascade of moving sums of the input, decimated",
  "After every group of `decimation` input strobes the CIC filter strobes one output, the top `bitwidth` bits of the `filter_stage`-fold moving sum over `decimation` samples of the input (each stage delays by one sample and one group), computed at the internal width max(1 + ceil(stages * log2(decimation)), bitwidth). "
  "For inputs of plus and minus one this sum is exact whenever it fits the internal width, for any other input it is exact modulo two to the internal width; integrator overflow never shows at the output.",
  IHC, "all sample and strobe histories (decimation 1: single-cycle strobes); 9 configurations of bit width 3-18, 1-4 stages, decimation 1-12, and the default configuration in the thorough tier",
  "the test runs one sine wave and asserts nothing", [D + "fixedpointcicfilter.py"],
  [("integrators, combs, decimation", D + "fixedpointcicfilter.py:FixedPointCICFilter.elaborate")])

p("C18", "LED array driver sends its commands and the latched digits in order",
  "After the power-up delay the driver sends every initialisation command in order, each to all modules in one transfer, then the digits 1 to 8 of all modules in turn, round and round, without stopping: module k receives the word with the digit number in the upper and the segments in the lower byte, bits 16k to 16k+15 of the transfer. "
  "The segments are those latched by the last `valid_in`; a transfer is asked for only while the SPI controller is idle, and its word does not change until it is complete.",
  IHC, "all digit and valid histories, unbounded in time; 1-4 modules, 1, 5 and 8 initialisation commands, delays 1-100, with and without connect_to_resource; the SPI controller is represented by its contract (C15), the wires by a bounded simulation",
  "the test loops back some cycles and asserts nothing", [I + "max7219.py", I + "spi.py"],
  [("initialisation and digit sequencing", I + "max7219.py:SerialLEDArray.elaborate"), ("word layout", I + "max7219.py:SerialLEDArray.send_command_to_all_modules")])

p("C19", "WS2812 driver sends every LED's colour with the protocol's timing",
  "A start while idle gives a 50 microsecond low reset, then for LED 0 to the last its 24 bits, green, red, blue, most significant bit first, then another reset, in whose last cycle `done_out` strobes; the line idles high, and starts in a running frame are ignored. "
  "With T the system clock over 800 kHz, each bit takes T+1 cycles, high for the first 0.64 T (one) or 0.32 T (zero) cycles. The colours sent are those last written to the LED's address before its turn.",
  IHC, "all write and start histories (addresses in range), all colours; 1-5 LEDs, clocks 2.4-8 MHz (up to 48 MHz in the thorough tier)",
  "the test sends one frame and asserts nothing", [I + "ws2812.py"],
  [("bit timing and frame sequencing", I + "ws2812.py:WS2812.elaborate")])

p("C22", "I2S transmitter sends each sample to its channel, most significant bit first",
  "Once enabled, from the beginning of the next left slot on, the transmitter takes at the start of each slot the next buffered sample, if its `first` flag says it belongs to that channel (set: left), and a codec sampling at the rising bit clock edges finds its bits most significant first, starting at the second edge of the slot (standard format, word clock low: left) or the first one (left justified, word clock high: left), in slots of any length from the sample width on; the line only changes after falling edges (left justified: or the word clock's edge). "
  "If no sample is waiting `underflow_out`, if it is for the other channel `mismatch_out` is strobed once, zeros are sent and no sample is taken. Samples are accepted while the buffer has room, none is lost, repeated or reordered, and `fifo_level_out` is the number waiting.",
  IHC, "all stream, enable and clock histories with bit clock phases of at least 4 cycles and slots of at least the sample width (left justified: word clock changing with falling edges); both formats, widths 4-32, buffer depths 1-6 (16 in the thorough tier)",
  "the tests loop one fixed list of samples back at one ratio of the clocks", [I + "i2s.py", S + "__init__.py"],
  [("slot state machine and shift register", I + "i2s.py:I2STransmitter.elaborate"), ("input buffer", S + "__init__.py:connect_stream_to_fifo")])

p("C23", "I2S receiver delivers the sample of every slot, marked with its channel",
  "Once enabled, from the beginning of the next left slot on, the receiver delivers for every slot the word made of the bits on the data line at the rising bit clock edges of that slot, most significant bit first, starting at the second edge (standard format, word clock low: left) or the first one (left justified, word clock high: left), for slots of any length from the sample width on. "
  "Each sample comes out once and in order with `first` set for the left and `last` for the right channel; a sample is dropped only when the buffer is full, and `fifo_level_out` is the number waiting.",
  IHC, "all data, enable, ready and clock histories with bit clock phases of at least 4 cycles, data changing while the clock is low and slots of at least the sample width (left justified: word clock changing with falling edges); both formats, widths 4-32, buffer depths 1-4 (16 in the thorough tier)",
  "the tests loop one fixed list of samples back at one ratio of the clocks", [I + "i2s.py", S + "__init__.py"],
  [("slot state machine and shift register", I + "i2s.py:I2SReceiver.elaborate"), ("output buffer", S + "__init__.py:connect_fifo_to_stream")])

G = "amlib/debug/"
p("C36", "Logic analyzer captures the samples around the trigger and sends them in order",
  "A trigger starts a capture of exactly `sample_depth` samples of all probes, one per cycle (with an enable: one per enabled cycle), the first of them `samples_pretrigger` (enabled) cycles before the trigger; `capturing`, `sampling` and `complete` say so, and the samples stay readable by number until the next trigger. "
  "The stream, UART and SPI readouts then deliver each sample once, in order, zero-extended, with `first` and `last` marked, whatever `ready` or the host does, in any capture and output domain: the UART sends the bytes least significant first, word i of an SPI transaction is sample i.",
  IHC, "all probe, enable, trigger, ready and host histories (trigger once the pretrigger history is filled; SPI host: five cycles of deselection before a transaction, no trigger during one); 24 configurations: pretrigger 0-8, depth 2-16, widths 1-33; the FIFO between clock domains is represented by its contract, the SPI device in the unbounded proof by its contract C14",
  "the tests capture one sequence at one depth", [G + "ila.py", S + "uart.py", I + "spi.py"],
  [("capture", G + "ila.py:IntegratedLogicAnalyzer.elaborate"), ("stream readout", G + "ila.py:StreamILA.elaborate"), ("SPI readout", G + "ila.py:SyncSerialILA.elaborate"), ("UART readout", G + "ila.py:AsyncSerialILA.elaborate")])

C = "amlib/soc/"
p("C03", "LFSR steps through the recurrence of its taps, in hardware and in generate()",
  "In every cycle the register shifts left by one and takes in the exclusive or of its tapped bits (numbered from 1), starting from the reset value; with the highest tap at the degree it never becomes zero. "
  "`generate()` yields exactly the values the register goes through, from the reset value until it comes back to it.",
  IHC, "hardware: unbounded in time, 14 registers of degree 1-64; generate(): bounded, all taps and reset values up to degree 6 (8 in the thorough tier) and three of degree 8-16, over the whole period",
  "the test runs one register of degree 16", [U + "lfsr.py"],
  [("register update", U + "lfsr.py:LinearFeedbackShiftRegister.elaborate"), ("software sequence", U + "lfsr.py:LinearFeedbackShiftRegister.generate")],
  note=HDL_NOTE + " generate() is checked bounded: whole periods of all small registers.")

p("C37", "Wishbone memory returns the word last written to the requested address",
  "Every request (cyc and stb, while not acknowledging) is acknowledged in the next cycle for one cycle; an acknowledged read delivers the word at the requested address: each byte lane as last written by a request with its select bit set, or as initialised from the integers, bytes (in the chosen byte order) or file given. "
  "Read-only memories and ROMs ignore writes, and the bus and memory map have the shape given by address width, data width and granularity.",
  IHC, "all bus histories, all data; 15 configurations: data widths 8-64, granularity 8-32, integer, bytes and file contents, both byte orders, RAM, read-only RAM and ROM; the bus record is a stand-in for amaranth_soc",
  "there is no test for it", [C + "memory.py"],
  [("read and write ports, acknowledge", C + "memory.py:WishboneRAM.elaborate"), ("initial contents", C + "memory.py:WishboneRAM._initialization_value"), ("ROM", C + "memory.py:WishboneROM")])

p("C39", "Interrupts stay pending until cleared; the UART peripheral queues words in order",
  "An event (level, rising or falling edge of its strobe) sets its pending bit, which stays set until software writes a one to it and is not lost when both coincide; the interrupt line is raised exactly while an enabled event is pending, and `status` shows the strobes. "
  "The UART peripheral transmits the words written while enabled and not full, in order and once, gives out received words in order and once, takes them while there is room, and its ready, error, divisor and event registers tell the truth.",
  IHC, "all register access, event and serial word histories; 1-5 events of all modes, buffer depths 1-16, data widths 7 and 8; the serial transceiver is represented by its contract (C11, C12), the registers and bridges of amaranth_soc by stand-ins",
  "there is no test for it", [C + "event.py", C + "uart.py", C + "peripheral.py"],
  [("pending and enable registers", C + "event.py:InterruptSource.elaborate"), ("event collection", C + "peripheral.py:PeripheralBridge"), ("buffers and registers", C + "uart.py:UARTPeripheral.elaborate")])

p("C34", "Stereo convolution results are the tap-weighted sums of the last samples",
  "After each pair of a left and a right sample, in either order, the convolver delivers first the left and then the right result: the sums of the products of the impulse response taps with the newest samples, as the mode says (crossfeed: own channel with the first taps plus the other channel with the second, stereo: each channel with its own taps, mono: both with the first), modulo two to twice the bit width, divided by two to the bit width. "
  "Each result is offered, unchanged and marked first or last, until it is accepted, within taps per slice plus eight cycles of the pair; while calculating no sample is accepted.",
  IHC, "all sample, valid and ready histories, unbounded in time; 1-6 taps of both signs, 1-3 slices, all modes, bit widths 4-6; precondition: samples come in left and right pairs",
  "the test runs 32 taps with a ready sink and one sample sequence", [D + "convolution/mac.py"],
  [("tap and sample layout", D + "convolution/mac.py:StereoConvolutionMAC.__init__"), ("MAC loop, sample shift, output", D + "convolution/mac.py:StereoConvolutionMAC.elaborate")])

p("C33", "Fractional resampler outputs every Nth filtered sample, whatever the sink does",
  "Every accepted sample goes into the anti-aliasing filter once, multiplied by the prescale factor (4 or, for iir, one less than the upsampling factor by default) and followed by upsampling factor - 1 zeros, and the next one is accepted only after these; the filter runs at the upsampled rate with one bit of headroom per byte. "
  "The outputs are the 1st, (N+1)th, (2N+1)th, .. filter output for downsampling factor N, in order, without loss or repetition however slowly they are taken, each offered (without waiting for ready) and held until accepted.",
  IHC, "all sample, valid, ready and filter output histories, unbounded in time; factors 1-7 up and 1-7 down (12 and 13 in the thorough tier), bit widths 8-16 (24), both structures; the filter bank is represented by its interface (its own contract is C31)",
  "the tests run one square wave into a sink that is nearly always ready and assert nothing", [D + "resampler.py", D + "filterbank.py"],
  [("upsampling, downsampling, output", D + "resampler.py:FractionalResampler.elaborate")])

p("C35", "FFT outputs the transform of the windowed samples, bin by bin",
  "After `start` the FFT takes one complex sample per strobe (at least four cycles apart), multiplies each with the value of the window function for its position, and then strobes out one bin after the other, starting with bin 0, each the discrete Fourier transform divided by the number of points, computed in fixed point (butterflies with the rounded twiddle factors, products rounded down, modulo two to the bit width plus stages). "
  "The window is Blackman-Harris until another one is loaded value by value; `done` is low from each start until its operation is over.",
  IHC, "all sample, window and strobe histories; sequence and timing: unbounded in time, proved, 4 and 8 points (16 in the thorough tier). Values of the bins: bounded (some millions of random cycles) for 4 points of 4 and 18, 8 points of 5 and 16 points of 8 bits; proved unbounded for 4 points of 3 bits with the built-in window in the thorough tier",
  "the test transforms one sine wave and asserts nothing", [D + "fixedpointfft.py"],
  [("sequencing, window, butterflies, output", D + "fixedpointfft.py:FixedPointFFT.elaborate"), ("twiddle factors and window", D + "fixedpointfft.py:FixedPointFFT.__init__")],
  note=HDL_NOTE + " The values of the bins are checked bounded in the quick tier, by simulation of the extracted system; the thorough tier proves them for the smallest transform.")

PY_TECH = ("contract verification of the real Python code: pre- and postconditions and the class invariant, decided by symbolic execution of the functions on z3 bit-vector values "
           "(every path, every value), per length; what symbolic execution cannot enter is evaluated on plain values and labelled bounded")
PY_NOTE = "Proved for all values, per listed length: CPython runs the code under contract on integers carrying z3 terms (isinstance, int and operator.index of the module are replaced for that)."
p("C01", "bits is a faithful immutable bit sequence, least significant bit first",
  "A `bits` of n bits made from an integer, a list, bytes (either byte order), a string or another `bits` holds exactly those bits (the integer modulo two to the n; the shortest length for an integer without one), and gives back the same integer, list, bytes and string; strings are written most significant bit first. "
  "Indexing (negative positions count from the end), slicing, iterating, concatenating, repeating, reversing, and/or/xor (the shorter operand zero-extended) and comparing (equal exactly if length and value are) act bit by bit as on a list, and never change their operands.",
  ["inputs", "configurations"], "all values, of lengths 0-64 (12 lengths, pairs of lengths, all slices up to length 9); lists and reversal up to 8 bits; proved. Strings: bounded, all values up to 9 bits, random ones above",
  "tests check a few constants; no test indexes from the end", [U + "bits.py"], [("construction and normalisation", U + "bits.py:bits.from_int"), ("bitwise and sequence operators", U + "bits.py:bits.__getitem__")],
  note=PY_NOTE + " Conversions to and from strings are checked bounded.", technique=PY_TECH)
p("C40", "Logic analyzer front end turns device bytes into probe values and waveforms",
  "From the bytes a serial logic analyzer sends (each sample zero-extended to a power of two of bits, low byte first) the front end makes one sample per sample sent, in order, i sample periods after the first, in which every probe name has exactly its bits; an analyzer description that went through a file gives the same. "
  "The waveform file shows every probe's value from the time of its sample on, changes at no other time, and its replica clock rises once per sample.",
  ["inputs", "configurations"], "all sample values; six probe sets (widths 1-33, signed ones, 9 probes), depths 3-9, rates 1-125 MHz: proved up to the calls of the waveform writer. The written file: bounded, 120 random captures each",
  "no test touches the front end", [G + "ila.py", U + "bits.py"],
  [("splitting and naming", G + "ila.py:ILAFrontend._parse_sample"), ("bytes to samples", G + "ila.py:AsyncSerialILAFrontend._split_samples"), ("waveform", G + "ila.py:ILAFrontend.emit_vcd"), ("description in a file", G + "ila.py:ILACoreParameters")],
  note=PY_NOTE + " The serial port is a stand-in; the text of the waveform file is checked bounded.", technique=PY_TECH)
